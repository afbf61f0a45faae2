//! Stand-in for the chain's staking and distribution modules. It does what the Cosmos SDK does for
//! delegate, redelegate, undelegate (tokens return once the unbonding time is over), reward payout
//! to the withdraw address on every change of a delegation, and lets a harness slash and reward.
use anyhow::{bail, ensure};
use cosmwasm_std::{
    to_json_binary, Addr, Api, BankMsg, Binary, BlockInfo, Coin, CosmosMsg, CustomQuery,
    Delegation, DistributionMsg, Empty, FullDelegation, Querier, StakingMsg, StakingQuery, Storage, Uint128,
};
use cw_multi_test::error::AnyResult;
use cw_multi_test::{AppResponse, BankSudo, CosmosRouter, Distribution, Module, Staking, StakingSudo, SudoMsg};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::collections::BTreeMap;
use std::fmt::Debug;

pub const BONDED: &str = "TOKEN";
pub const POOL: &str = "bonded_pool";
pub const UNBONDING: u64 = 10;
pub struct StakeStub;
pub struct DistStub;

/// map keys are "delegator/validator"
#[derive(Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
pub struct Stk {
    pub bonded: BTreeMap<String, u128>,
    /// incoming redelegations: until when they may not be redelegated again
    pub recv: BTreeMap<String, u64>,
    /// delegator, validator, amount, completion time
    pub unb: Vec<(String, String, u128, u64)>,
    pub rewards: BTreeMap<String, u128>,
    pub waddr: BTreeMap<String, String>,
}
pub fn at(d: &str, v: &str) -> String {
    format!("{}/{}", d, v)
}
const KEY: &[u8] = b"sg/stk";
pub fn load(s: &dyn Storage) -> Stk {
    s.get(KEY).map(|b| serde_json::from_slice(&b).unwrap()).unwrap_or_default()
}
pub fn save(s: &mut dyn Storage, k: &Stk) {
    s.set(KEY, &serde_json::to_vec(k).unwrap())
}
fn take(m: &mut BTreeMap<String, u128>, k: &str, n: u128) -> AnyResult<()> {
    let have = m.get(k).copied().unwrap_or(0);
    ensure!(have >= n && have > 0, "invalid shares amount");
    if have == n {
        m.remove(k);
    } else {
        m.insert(k.to_string(), have - n);
    }
    Ok(())
}
fn check(c: &Coin) -> AnyResult<u128> {
    ensure!(c.denom == BONDED, "invalid coin denomination");
    ensure!(!c.amount.is_zero(), "invalid amount");
    Ok(c.amount.u128())
}
fn known(v: &str) -> AnyResult<()> {
    ensure!(v.starts_with("val"), "validator does not exist");
    Ok(())
}
fn payout<ExecC, QueryC: CustomQuery>(
    api: &dyn Api,
    storage: &mut dyn Storage,
    router: &dyn CosmosRouter<ExecC = ExecC, QueryC = QueryC>,
    block: &BlockInfo,
    who: &str,
    val: &str,
) -> AnyResult<()> {
    let mut k = load(storage);
    if let Some(r) = k.rewards.remove(&at(who, val)) {
        let to = k.waddr.get(who).cloned().unwrap_or(who.to_string());
        save(storage, &k);
        router.sudo(
            api,
            storage,
            block,
            SudoMsg::Bank(BankSudo::Mint { to_address: to, amount: vec![Coin { denom: BONDED.into(), amount: Uint128::new(r) }] }),
        )?;
    }
    Ok(())
}

impl Module for StakeStub {
    type ExecT = StakingMsg;
    type QueryT = StakingQuery;
    type SudoT = StakingSudo;
    fn execute<ExecC, QueryC>(
        &self,
        api: &dyn Api,
        storage: &mut dyn Storage,
        router: &dyn CosmosRouter<ExecC = ExecC, QueryC = QueryC>,
        block: &BlockInfo,
        sender: Addr,
        msg: StakingMsg,
    ) -> AnyResult<AppResponse>
    where
        ExecC: Debug + Clone + PartialEq + schemars::JsonSchema + DeserializeOwned + 'static,
        QueryC: CustomQuery + DeserializeOwned + 'static,
    {
        let now = block.time.seconds();
        let who = sender.to_string();
        match msg {
            StakingMsg::Delegate { validator, amount } => {
                let n = check(&amount)?;
                known(&validator)?;
                payout(api, storage, router, block, &who, &validator)?;
                router.execute(api, storage, block, sender, CosmosMsg::Bank(BankMsg::Send { to_address: POOL.into(), amount: vec![amount] }))?;
                let mut k = load(storage);
                *k.bonded.entry(at(&who, &validator)).or_insert(0) += n;
                save(storage, &k);
            }
            StakingMsg::Undelegate { validator, amount } => {
                let n = check(&amount)?;
                known(&validator)?;
                payout(api, storage, router, block, &who, &validator)?;
                let mut k = load(storage);
                take(&mut k.bonded, &at(&who, &validator), n)?;
                k.unb.push((who, validator, n, now + UNBONDING));
                save(storage, &k);
            }
            StakingMsg::Redelegate { src_validator, dst_validator, amount } => {
                let n = check(&amount)?;
                known(&dst_validator)?;
                ensure!(src_validator != dst_validator, "cannot redelegate to the same validator");
                payout(api, storage, router, block, &who, &src_validator)?;
                payout(api, storage, router, block, &who, &dst_validator)?;
                let mut k = load(storage);
                ensure!(k.recv.get(&at(&who, &src_validator)).map(|t| *t <= now).unwrap_or(true), "transitive redelegation");
                take(&mut k.bonded, &at(&who, &src_validator), n)?;
                *k.bonded.entry(at(&who, &dst_validator)).or_insert(0) += n;
                k.recv.insert(at(&who, &dst_validator), now + UNBONDING);
                save(storage, &k);
            }
            m => bail!("staking stub: {:?}", m),
        }
        Ok(AppResponse::default())
    }
    fn query(&self, _api: &dyn Api, storage: &dyn Storage, _q: &dyn Querier, block: &BlockInfo, request: StakingQuery) -> AnyResult<Binary> {
        let k = load(storage);
        let c = |n: u128| Coin { denom: BONDED.into(), amount: Uint128::new(n) };
        Ok(match request {
            StakingQuery::BondedDenom {} => {
                to_json_binary(&serde_json::json!({"denom": BONDED}))?
            }
            StakingQuery::Delegation { delegator, validator } => {
                let key = at(&delegator, &validator);
                let d = k.bonded.get(&key).map(|n| {
                    let free = k.recv.get(&key).map(|t| *t <= block.time.seconds()).unwrap_or(true);
                    let mut f: FullDelegation = serde_json::from_value(serde_json::json!({
                        "delegator": delegator, "validator": validator, "amount": c(*n),
                        "can_redelegate": c(if free { *n } else { 0 }), "accumulated_rewards": []
                    }))
                    .unwrap();
                    if let Some(r) = k.rewards.get(&key) {
                        f.accumulated_rewards = vec![c(*r)];
                    }
                    f
                });
                to_json_binary(&serde_json::json!({"delegation": d}))?
            }
            StakingQuery::AllDelegations { delegator } => {
                let all: Vec<Delegation> = k
                    .bonded
                    .iter()
                    .filter_map(|(key, n)| {
                        let (d, v) = key.split_once('/').unwrap();
                        (d == delegator).then(|| {
                            serde_json::from_value::<Delegation>(serde_json::json!({"delegator": d, "validator": v, "amount": c(*n)})).unwrap()
                        })
                    })
                    .collect();
                to_json_binary(&serde_json::json!({"delegations": all}))?
            }
            q => bail!("staking stub: {:?}", q),
        })
    }
    fn sudo<ExecC, QueryC>(
        &self,
        _api: &dyn Api,
        _storage: &mut dyn Storage,
        _router: &dyn CosmosRouter<ExecC = ExecC, QueryC = QueryC>,
        _block: &BlockInfo,
        msg: StakingSudo,
    ) -> AnyResult<AppResponse>
    where
        ExecC: Debug + Clone + PartialEq + schemars::JsonSchema + DeserializeOwned + 'static,
        QueryC: CustomQuery + DeserializeOwned + 'static,
    {
        bail!("staking stub sudo: {:?}", msg)
    }
}
impl Staking for StakeStub {
    fn process_queue<ExecC, QueryC: CustomQuery>(
        &self,
        api: &dyn Api,
        storage: &mut dyn Storage,
        router: &dyn CosmosRouter<ExecC = ExecC, QueryC = QueryC>,
        block: &BlockInfo,
    ) -> AnyResult<AppResponse>
    {
        let mut k = load(storage);
        let now = block.time.seconds();
        let (due, rest): (Vec<_>, Vec<_>) = k.unb.into_iter().partition(|e| e.3 <= now);
        if due.is_empty() {
            return Ok(AppResponse::default());
        }
        k.unb = rest;
        save(storage, &k);
        for (d, _, n, _) in due {
            if n > 0 {
                let amount = vec![Coin { denom: BONDED.into(), amount: Uint128::new(n) }];
                router.execute(api, storage, block, Addr::unchecked(POOL), CosmosMsg::Bank(BankMsg::Send { to_address: d, amount }))?;
            }
        }
        Ok(AppResponse::default())
    }
}
impl Module for DistStub {
    type ExecT = DistributionMsg;
    type QueryT = Empty;
    type SudoT = Empty;
    fn execute<ExecC, QueryC>(
        &self,
        api: &dyn Api,
        storage: &mut dyn Storage,
        router: &dyn CosmosRouter<ExecC = ExecC, QueryC = QueryC>,
        block: &BlockInfo,
        sender: Addr,
        msg: DistributionMsg,
    ) -> AnyResult<AppResponse>
    where
        ExecC: Debug + Clone + PartialEq + schemars::JsonSchema + DeserializeOwned + 'static,
        QueryC: CustomQuery + DeserializeOwned + 'static,
    {
        match msg {
            DistributionMsg::SetWithdrawAddress { address } => {
                let mut k = load(storage);
                k.waddr.insert(sender.to_string(), address);
                save(storage, &k);
            }
            DistributionMsg::WithdrawDelegatorReward { validator } => {
                ensure!(load(storage).bonded.contains_key(&at(sender.as_str(), &validator)), "no delegation");
                payout(api, storage, router, block, sender.as_str(), &validator)?;
            }
            m => bail!("distribution stub: {:?}", m),
        }
        Ok(AppResponse::default())
    }
    fn query(&self, _a: &dyn Api, _s: &dyn Storage, _q: &dyn Querier, _b: &BlockInfo, _r: Empty) -> AnyResult<Binary> {
        bail!("distribution stub query")
    }
    fn sudo<ExecC, QueryC>(
        &self,
        _api: &dyn Api,
        _storage: &mut dyn Storage,
        _router: &dyn CosmosRouter<ExecC = ExecC, QueryC = QueryC>,
        _block: &BlockInfo,
        _msg: Empty,
    ) -> AnyResult<AppResponse>
    where
        ExecC: Debug + Clone + PartialEq + schemars::JsonSchema + DeserializeOwned + 'static,
        QueryC: CustomQuery + DeserializeOwned + 'static,
    {
        bail!("distribution stub sudo")
    }
}

impl Distribution for DistStub {}
