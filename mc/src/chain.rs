//! Stand-in for the chain-specific modules reached through Stargate messages: on-chain NFTs
//! (OmniFlix x/onft), Osmosis-style token factory, and BitSong fan tokens. It enforces what those
//! chains enforce (ownership, admin, minter) and keeps its state in the chain store.
use anyhow::{anyhow, bail, ensure};
use btsg_ft_factory::bitsong as bs;
use cosmwasm_std::{to_json_binary, Addr, Api, BankMsg, Binary, BlockInfo, Coin, CosmosMsg, CustomQuery, Querier, Storage, Uint128};
use cw_multi_test::error::AnyResult;
use cw_multi_test::{AppResponse, Bank, BankKeeper, BankSudo, CosmosRouter, Module, Stargate, SudoMsg, WasmSudo};
use cw_tokenfactory_types::osmosis as tf;
use omniflix_std::types::omniflix::onft::v1beta1 as onft;
use prost::Message;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::fmt::Debug;

pub struct ChainStub;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct Factory {
    pub admin: String,
    pub hook: String,
    pub metadata: String,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct Fan {
    pub name: String,
    pub symbol: String,
    pub max_supply: String,
    pub authority: String,
    pub minter: String,
    pub uri: String,
}
fn key(kind: &str, id: &str) -> Vec<u8> {
    format!("sg/{}/{}", kind, id).into_bytes()
}
pub fn load<T: DeserializeOwned>(s: &dyn Storage, kind: &str, id: &str) -> Option<T> {
    s.get(&key(kind, id)).map(|b| serde_json::from_slice(&b).unwrap())
}
pub fn save<T: Serialize>(s: &mut dyn Storage, kind: &str, id: &str, v: &T) {
    s.set(&key(kind, id), &serde_json::to_vec(v).unwrap())
}
fn ok11<T: prost11::Message>(m: T) -> AnyResult<AppResponse> {
    Ok(AppResponse { events: vec![], data: Some(Binary(m.encode_to_vec())) })
}
fn ok<T: Message>(m: T) -> AnyResult<AppResponse> {
    Ok(AppResponse { events: vec![], data: Some(Binary(m.encode_to_vec())) })
}
fn pay(c: Option<osmosis_std::types::cosmos::base::v1beta1::Coin>) -> AnyResult<Coin> {
    let c = c.ok_or_else(|| anyhow!("no coin"))?;
    let a: u128 = c.amount.parse()?;
    ensure!(a > 0, "invalid amount");
    Ok(Coin { denom: c.denom, amount: Uint128::new(a) })
}
impl Stargate for ChainStub {
    fn execute<ExecC, QueryC>(
        &self,
        api: &dyn Api,
        storage: &mut dyn Storage,
        router: &dyn CosmosRouter<ExecC = ExecC, QueryC = QueryC>,
        block: &BlockInfo,
        sender: Addr,
        type_url: String,
        value: Binary,
    ) -> AnyResult<AppResponse>
    where
        ExecC: Debug + Clone + PartialEq + schemars::JsonSchema + DeserializeOwned + 'static,
        QueryC: CustomQuery + DeserializeOwned + 'static,
    {
        let v = value.as_slice();
        let admin = |s: &dyn Storage, denom: &str, who: &str| -> AnyResult<Factory> {
            let f: Factory = load(s, "factory", denom).ok_or_else(|| anyhow!("no such denom"))?;
            ensure!(f.admin == who && sender == who, "unauthorized account");
            Ok(f)
        };
        match type_url.as_str() {
            "/OmniFlix.onft.v1beta1.MsgTransferONFT" => {
                let m = onft::MsgTransferOnft::decode(v)?;
                ensure!(sender == m.sender, "wrong signer");
                let id = format!("{}/{}", m.denom_id, m.id);
                let owner: String = load(storage, "onft", &id).ok_or_else(|| anyhow!("no such onft"))?;
                ensure!(owner == m.sender, "not the owner");
                save(storage, "onft", &id, &m.recipient);
                ok(onft::MsgTransferOnftResponse {})
            }
            "/osmosis.tokenfactory.v1beta1.MsgCreateDenom" => {
                let m = <tf::MsgCreateDenom as prost11::Message>::decode(v)?;
                ensure!(sender == m.sender, "wrong signer");
                let denom = format!("factory/{}/{}", m.sender, m.subdenom);
                ensure!(load::<Factory>(storage, "factory", &denom).is_none(), "denom exists");
                save(storage, "factory", &denom, &Factory { admin: m.sender, ..Default::default() });
                ok11(tf::MsgCreateDenomResponse { new_token_denom: denom })
            }
            "/osmosis.tokenfactory.v1beta1.MsgMint" => {
                let m = <tf::MsgMint as prost11::Message>::decode(v)?;
                let c = pay(m.amount)?;
                admin(storage, &c.denom, &m.sender)?;
                let to = if m.mint_to_address.is_empty() { m.sender } else { m.mint_to_address };
                router.sudo(api, storage, block, SudoMsg::Bank(BankSudo::Mint { to_address: to, amount: vec![c] }))?;
                ok11(tf::MsgMintResponse {})
            }
            "/osmosis.tokenfactory.v1beta1.MsgBurn" => {
                let m = <tf::MsgBurn as prost11::Message>::decode(v)?;
                let c = pay(m.amount)?;
                admin(storage, &c.denom, &m.sender)?;
                let from = if m.burn_from_address.is_empty() { m.sender } else { m.burn_from_address };
                router.execute(api, storage, block, Addr::unchecked(from), CosmosMsg::Bank(BankMsg::Burn { amount: vec![c] }))?;
                ok11(tf::MsgBurnResponse {})
            }
            "/osmosis.tokenfactory.v1beta1.MsgForceTransfer" => {
                let m = <tf::MsgForceTransfer as prost11::Message>::decode(v)?;
                let c = pay(m.amount)?;
                admin(storage, &c.denom, &m.sender)?;
                // the admin's own power: moves the balance without asking the send hook
                BankKeeper::new().execute(
                    api,
                    storage,
                    router,
                    block,
                    Addr::unchecked(m.transfer_from_address),
                    BankMsg::Send { to_address: m.transfer_to_address, amount: vec![c] },
                )?;
                ok11(tf::MsgForceTransferResponse {})
            }
            "/osmosis.tokenfactory.v1beta1.MsgChangeAdmin" => {
                let m = <tf::MsgChangeAdmin as prost11::Message>::decode(v)?;
                let mut f = admin(storage, &m.denom, &m.sender)?;
                f.admin = m.new_admin;
                save(storage, "factory", &m.denom, &f);
                ok11(tf::MsgChangeAdminResponse {})
            }
            "/osmosis.tokenfactory.v1beta1.MsgSetDenomMetadata" => {
                let m = <tf::MsgSetDenomMetadata as prost11::Message>::decode(v)?;
                let md = m.metadata.ok_or_else(|| anyhow!("no metadata"))?;
                let mut f = admin(storage, &md.base, &m.sender)?;
                f.metadata = format!("{:?}", md);
                save(storage, "factory", &md.base, &f);
                ok11(tf::MsgSetDenomMetadataResponse {})
            }
            "/osmosis.tokenfactory.v1beta1.MsgSetBeforeSendHook" => {
                let m = <tf::MsgSetBeforeSendHook as prost11::Message>::decode(v)?;
                let mut f = admin(storage, &m.denom, &m.sender)?;
                f.hook = m.cosmwasm_address;
                save(storage, "factory", &m.denom, &f);
                ok11(tf::MsgSetBeforeSendHookResponse {})
            }
            "/bitsong.fantoken.MsgIssue" => {
                let m = bs::MsgIssue::decode(v)?;
                let n: u64 = load(storage, "fancount", "").unwrap_or(0) + 1;
                save(storage, "fancount", "", &n);
                let denom = format!("fantoken{}", n);
                ensure!(sender == m.minter, "issuer must be the minter");
                save(
                    storage,
                    "fan",
                    &denom,
                    &Fan { name: m.name, symbol: m.symbol, max_supply: m.max_supply, authority: m.authority, minter: m.minter, uri: m.uri },
                );
                ok(bs::MsgIssueResponse { denom })
            }
            "/bitsong.fantoken.MsgMint" => {
                let m = bs::MsgMint::decode(v)?;
                let c = m.coin.ok_or_else(|| anyhow!("no coin"))?;
                let f: Fan = load(storage, "fan", &c.denom).ok_or_else(|| anyhow!("no such fan token"))?;
                ensure!(sender == f.minter && m.minter == f.minter, "unauthorized minter");
                let a: u128 = c.amount.parse()?;
                let have: u128 = load(storage, "fanminted", &c.denom).unwrap_or(0);
                ensure!(a > 0 && have + a <= f.max_supply.parse::<u128>()?, "invalid amount");
                save(storage, "fanminted", &c.denom, &(have + a));
                router.sudo(api, storage, block, SudoMsg::Bank(BankSudo::Mint { to_address: m.recipient, amount: vec![Coin::new(a, c.denom)] }))?;
                ok(bs::MsgMintResponse {})
            }
            "/bitsong.fantoken.MsgSetMinter" => {
                let m = bs::MsgSetMinter::decode(v)?;
                let mut f: Fan = load(storage, "fan", &m.denom).ok_or_else(|| anyhow!("no such fan token"))?;
                ensure!(sender == f.minter && m.old_minter == f.minter, "unauthorized minter");
                f.minter = m.new_minter;
                save(storage, "fan", &m.denom, &f);
                ok(bs::MsgSetMinterResponse {})
            }
            "/bitsong.fantoken.MsgSetAuthority" => {
                let m = bs::MsgSetAuthority::decode(v)?;
                let mut f: Fan = load(storage, "fan", &m.denom).ok_or_else(|| anyhow!("no such fan token"))?;
                ensure!(sender == f.authority && m.old_authority == f.authority, "unauthorized authority");
                f.authority = m.new_authority;
                save(storage, "fan", &m.denom, &f);
                ok(bs::MsgSetMinterResponse {})
            }
            "/bitsong.fantoken.MsgSetUri" => {
                let m = bs::MsgSetUri::decode(v)?;
                let mut f: Fan = load(storage, "fan", &m.denom).ok_or_else(|| anyhow!("no such fan token"))?;
                ensure!(sender == f.authority && m.authority == f.authority, "unauthorized authority");
                f.uri = m.uri;
                save(storage, "fan", &m.denom, &f);
                ok(bs::MsgSetUriResponse {})
            }
            t => bail!("chain stub: unsupported message {}", t),
        }
    }
    fn query(&self, _api: &dyn Api, storage: &dyn Storage, _q: &dyn Querier, _block: &BlockInfo, path: String, data: Binary) -> AnyResult<Binary> {
        match path.as_str() {
            "/OmniFlix.onft.v1beta1.Query/ONFT" => {
                let r = onft::QueryOnftRequest::decode(data.as_slice())?;
                let owner: Option<String> = load(storage, "onft", &format!("{}/{}", r.denom_id, r.id));
                let onft = owner.map(|owner| onft::Onft {
                    id: r.id.clone(),
                    metadata: None,
                    data: String::new(),
                    owner,
                    transferable: true,
                    extensible: true,
                    created_at: None,
                    nsfw: false,
                    royalty_share: String::new(),
                });
                Ok(to_json_binary(&onft::QueryOnftResponse { onft })?)
            }
            "/OmniFlix.onft.v1beta1.Query/Supply" => {
                let r = onft::QuerySupplyRequest::decode(data.as_slice())?;
                let amount: u64 = load(storage, "onftsupply", &r.denom_id).unwrap_or(0);
                Ok(to_json_binary(&onft::QuerySupplyResponse { amount })?)
            }
            p => bail!("chain stub: unsupported query {}", p),
        }
    }
}
/// The bank module of a chain with token-factory send hooks: before a transfer of a denom that has
/// a hook contract, that contract is asked through its sudo entry point and may refuse.
#[derive(Default)]
pub struct HookBank(BankKeeper);
impl Bank for HookBank {}
impl Module for HookBank {
    type ExecT = BankMsg;
    type QueryT = cosmwasm_std::BankQuery;
    type SudoT = BankSudo;
    fn execute<ExecC, QueryC>(
        &self,
        api: &dyn Api,
        storage: &mut dyn Storage,
        router: &dyn CosmosRouter<ExecC = ExecC, QueryC = QueryC>,
        block: &BlockInfo,
        sender: Addr,
        msg: BankMsg,
    ) -> AnyResult<AppResponse>
    where
        ExecC: Debug + Clone + PartialEq + schemars::JsonSchema + DeserializeOwned + 'static,
        QueryC: CustomQuery + DeserializeOwned + 'static,
    {
        if let BankMsg::Send { to_address, amount } = &msg {
            for c in amount {
                let f: Option<Factory> = load(storage, "factory", &c.denom);
                if let Some(f) = f.filter(|f| !f.hook.is_empty()) {
                    let ask = serde_json::json!({"block_before_send": {"from": sender, "to": to_address, "amount": c}});
                    let m = WasmSudo { contract_addr: Addr::unchecked(f.hook), msg: Binary(serde_json::to_vec(&ask)?) };
                    router.sudo(api, storage, block, SudoMsg::Wasm(m))?;
                }
            }
        }
        self.0.execute(api, storage, router, block, sender, msg)
    }
    fn query(&self, api: &dyn Api, storage: &dyn Storage, q: &dyn Querier, block: &BlockInfo, r: Self::QueryT) -> AnyResult<Binary> {
        self.0.query(api, storage, q, block, r)
    }
    fn sudo<ExecC, QueryC>(
        &self,
        api: &dyn Api,
        storage: &mut dyn Storage,
        router: &dyn CosmosRouter<ExecC = ExecC, QueryC = QueryC>,
        block: &BlockInfo,
        msg: BankSudo,
    ) -> AnyResult<AppResponse>
    where
        ExecC: Debug + Clone + PartialEq + schemars::JsonSchema + DeserializeOwned + 'static,
        QueryC: CustomQuery + DeserializeOwned + 'static,
    {
        self.0.sudo(api, storage, router, block, msg)
    }
}
impl crate::Sim {
    pub fn onft_mint(&mut self, denom: &str, id: &str, to: &str) {
        let s = self.app.storage_mut();
        let n: u64 = load(s, "onftsupply", denom).unwrap_or(0);
        save(s, "onftsupply", denom, &(n + 1));
        save(s, "onft", &format!("{}/{}", denom, id), &to.to_string());
    }
    pub fn onft_owner(&self, denom: &str, id: &str) -> Option<String> {
        load(self.app.storage(), "onft", &format!("{}/{}", denom, id))
    }
    pub fn onft_transfer(&mut self, denom: &str, id: &str, from: &str, to: &str) -> crate::sim::ExecResult {
        let m = onft::MsgTransferOnft { denom_id: denom.into(), id: id.into(), sender: from.into(), recipient: to.into() };
        self.exec_msgs(from, vec![m.into()])
    }
    pub fn factory(&self, denom: &str) -> Option<Factory> {
        load(self.app.storage(), "factory", denom)
    }
    pub fn fan(&self, denom: &str) -> Option<Fan> {
        load(self.app.storage(), "fan", denom)
    }
}
