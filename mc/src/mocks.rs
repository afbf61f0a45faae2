//! Environment contracts for the harnesses (everything that is *not* under test) and DAO builders.
use crate::sim::Sim;
use anyhow::{anyhow, bail, Result as AnyResult};
use cosmwasm_std::{
    to_json_binary, Addr, Binary, CosmosMsg, Deps, DepsMut, Empty, Env, MessageInfo, Reply, Response, WasmMsg,
};
use cw_multi_test::{Contract, ContractWrapper};
use serde_json::{json, Value};
use std::collections::BTreeMap;

fn get(s: &dyn cosmwasm_std::Storage, k: &str) -> Value {
    s.get(k.as_bytes()).map(|b| serde_json::from_slice(&b).unwrap()).unwrap_or(Value::Null)
}
fn put(s: &mut dyn cosmwasm_std::Storage, k: &str, v: &Value) {
    s.set(k.as_bytes(), &serde_json::to_vec(v).unwrap())
}

/// Response data: a JSON value, or raw bytes if it is a string.
fn with_data(r: Response, d: Option<&Value>) -> Response {
    match d {
        None => r,
        Some(Value::String(s)) => r.set_data(s.as_bytes()),
        Some(v) => r.set_data(serde_json::to_vec(v).unwrap()),
    }
}
/// A scriptable contract. `{"puppet":{..}}` messages control it; every other execute message is
/// treated as an incoming notification: logged under "log" or refused while "fail" is set.
pub struct Puppet;
impl Contract<Empty> for Puppet {
    fn execute(&self, deps: DepsMut, _env: Env, info: MessageInfo, msg: Vec<u8>) -> AnyResult<Response> {
        let v: Value = serde_json::from_slice(&msg)?;
        if let Some(p) = v.get("puppet") {
            if let Some(s) = p.get("set") {
                for (k, v) in s.as_object().unwrap() {
                    put(deps.storage, k, v);
                }
                return Ok(Response::new());
            }
            if let Some(id) = p.get("hit") {
                let k = format!("hit:{}", id);
                let n = get(deps.storage, &k).as_u64().unwrap_or(0);
                put(deps.storage, &k, &json!(n + 1));
                let mut s = get(deps.storage, "senders").as_array().cloned().unwrap_or_default();
                if !s.contains(&json!(info.sender)) {
                    s.push(json!(info.sender));
                    put(deps.storage, "senders", &json!(s));
                }
                return Ok(Response::new());
            }
            if p.get("boom").is_some() {
                bail!("boom")
            }
            if let Some(m) = p.get("emit") {
                let msgs: Vec<CosmosMsg> = serde_json::from_value(m.clone())?;
                let r = Response::new().add_messages(msgs);
                return Ok(with_data(r, p.get("data")));
            }
            bail!("unknown puppet command")
        }
        if get(deps.storage, "fail") == json!(true) {
            bail!("subscriber refuses")
        }
        let mut log = get(deps.storage, "log").as_array().cloned().unwrap_or_default();
        let mut e = json!({"from": info.sender, "msg": v});
        if !info.funds.is_empty() {
            e["funds"] = json!(info.funds);
        }
        log.push(e);
        put(deps.storage, "log", &json!(log));
        // answer the next notification by acting, once
        let react = get(deps.storage, "react");
        if react.is_array() {
            put(deps.storage, "react", &Value::Null);
            return Ok(Response::new().add_messages(serde_json::from_value::<Vec<CosmosMsg>>(react)?));
        }
        Ok(Response::new())
    }
    fn instantiate(&self, deps: DepsMut, _env: Env, info: MessageInfo, msg: Vec<u8>) -> AnyResult<Response> {
        let v: Value = serde_json::from_slice(&msg)?;
        put(deps.storage, "creator", &json!(info.sender));
        if let Some(o) = v.as_object() {
            for (k, v) in o {
                put(deps.storage, k, v);
            }
        }
        if v.get("refuse").is_some() {
            bail!("instantiation refused")
        }
        let r = Response::new();
        let r = match v.get("emit") {
            Some(m) => r.add_messages(serde_json::from_value::<Vec<CosmosMsg>>(m.clone())?),
            None => r,
        };
        Ok(with_data(r, v.get("data")))
    }
    fn query(&self, deps: Deps, _env: Env, msg: Vec<u8>) -> AnyResult<Binary> {
        let v: Value = serde_json::from_slice(&msg)?;
        if let Some(k) = v.get("get").and_then(|k| k.as_str()) {
            return Ok(Binary(serde_json::to_vec(&get(deps.storage, k))?));
        }
        // scripted query answers: key "q:<variant>"
        if let Some(o) = v.as_object() {
            if let Some((k, _)) = o.iter().next() {
                let a = get(deps.storage, &format!("q:{}", k));
                if !a.is_null() {
                    return Ok(Binary(serde_json::to_vec(&a)?));
                }
            }
        }
        Err(anyhow!("puppet: no answer to {}", v))
    }
    fn sudo(&self, _d: DepsMut, _e: Env, _m: Vec<u8>) -> AnyResult<Response> {
        Ok(Response::new())
    }
    fn reply(&self, _d: DepsMut, _e: Env, _m: Reply) -> AnyResult<Response> {
        bail!("no reply")
    }
    fn migrate(&self, _d: DepsMut, _e: Env, _m: Vec<u8>) -> AnyResult<Response> {
        Ok(Response::new())
    }
}

/// Voting module with directly settable powers; power at height h is what was set in blocks < h.
pub struct PowerTable;
impl PowerTable {
    fn at(hist: &Value, h: u64) -> u128 {
        let mut p = 0u128;
        if let Some(a) = hist.as_array() {
            for e in a {
                if e[0].as_u64().unwrap() < h {
                    p = e[1].as_str().unwrap().parse().unwrap();
                }
            }
        }
        p
    }
    fn write(s: &mut dyn cosmwasm_std::Storage, k: &str, h: u64, p: u128) {
        let mut a = get(s, k).as_array().cloned().unwrap_or_default();
        a.retain(|e| e[0].as_u64().unwrap() != h);
        a.push(json!([h, p.to_string()]));
        put(s, k, &json!(a));
    }
    fn current(s: &dyn cosmwasm_std::Storage, k: &str) -> u128 {
        Self::at(&get(s, k), u64::MAX)
    }
    fn set(s: &mut dyn cosmwasm_std::Storage, h: u64, o: &serde_json::Map<String, Value>) {
        for (a, p) in o {
            let p: u128 = p.as_str().unwrap().parse().unwrap();
            let old = Self::current(s, &format!("p:{}", a));
            let tot = Self::current(s, "total");
            Self::write(s, &format!("p:{}", a), h, p);
            Self::write(s, "total", h, tot - old + p);
        }
    }
}
impl Contract<Empty> for PowerTable {
    fn execute(&self, deps: DepsMut, env: Env, _info: MessageInfo, msg: Vec<u8>) -> AnyResult<Response> {
        let v: Value = serde_json::from_slice(&msg)?;
        if let Some(o) = v.get("set").and_then(|x| x.as_object()) {
            Self::set(deps.storage, env.block.height, o);
            return Ok(Response::new());
        }
        for k in ["active", "denom", "token_contract"] {
            if let Some(b) = v.get(k) {
                put(deps.storage, k, b);
                return Ok(Response::new());
            }
        }
        bail!("power table: {}", v)
    }
    fn instantiate(&self, deps: DepsMut, _env: Env, info: MessageInfo, msg: Vec<u8>) -> AnyResult<Response> {
        let v: Value = serde_json::from_slice(&msg)?;
        put(deps.storage, "dao", &json!(info.sender));
        if let Some(o) = v.get("powers").and_then(|x| x.as_object()) {
            Self::set(deps.storage, 0, o);
        }
        Ok(Response::new())
    }
    fn query(&self, deps: Deps, env: Env, msg: Vec<u8>) -> AnyResult<Binary> {
        let v: Value = serde_json::from_slice(&msg)?;
        let height = |x: &Value| x["height"].as_u64().unwrap_or(env.block.height);
        let r = if let Some(q) = v.get("voting_power_at_height") {
            let h = height(q);
            json!({"power": Self::at(&get(deps.storage, &format!("p:{}", q["address"].as_str().unwrap())), h).to_string(), "height": h})
        } else if let Some(q) = v.get("total_power_at_height") {
            let h = height(q);
            json!({"power": Self::at(&get(deps.storage, "total"), h).to_string(), "height": h})
        } else if v.get("dao").is_some() {
            get(deps.storage, "dao")
        } else if v.get("is_active").is_some() {
            json!({"active": get(deps.storage, "active").as_bool().unwrap_or(true)})
        } else if v.get("denom").is_some() && !get(deps.storage, "denom").is_null() {
            json!({"denom": get(deps.storage, "denom")})
        } else if v.get("token_contract").is_some() && !get(deps.storage, "token_contract").is_null() {
            get(deps.storage, "token_contract")
        } else if v.get("info").is_some() {
            json!({"info": {"contract": "power-table", "version": "1"}})
        } else {
            bail!("power table query {}", v)
        };
        Ok(Binary(serde_json::to_vec(&r)?))
    }
    fn sudo(&self, _d: DepsMut, _e: Env, _m: Vec<u8>) -> AnyResult<Response> {
        bail!("no sudo")
    }
    fn reply(&self, _d: DepsMut, _e: Env, _m: Reply) -> AnyResult<Response> {
        bail!("no reply")
    }
    fn migrate(&self, _d: DepsMut, _e: Env, _m: Vec<u8>) -> AnyResult<Response> {
        bail!("no migrate")
    }
}

pub fn puppet() -> Box<dyn Contract<Empty>> {
    Box::new(Puppet)
}
pub fn power_table() -> Box<dyn Contract<Empty>> {
    Box::new(PowerTable)
}
pub fn wasm_exec(to: impl AsRef<str>, msg: &Value) -> CosmosMsg {
    WasmMsg::Execute { contract_addr: to.as_ref().to_string(), msg: Binary(serde_json::to_vec(msg).unwrap()), funds: vec![] }.into()
}
pub fn hit(target: impl AsRef<str>, id: u64) -> CosmosMsg {
    wasm_exec(target, &json!({"puppet": {"hit": id}}))
}
pub fn boom(target: impl AsRef<str>) -> CosmosMsg {
    wasm_exec(target, &json!({"puppet": {"boom": {}}}))
}
pub fn hits(sim: &Sim, target: impl AsRef<str>, id: u64) -> u64 {
    let v: Value = sim.query(target, &json!({"get": format!("hit:{}", id)})).unwrap();
    v.as_u64().unwrap_or(0)
}
pub fn puppet_get(sim: &Sim, target: impl AsRef<str>, key: &str) -> Value {
    sim.query(target, &json!({ "get": key })).unwrap()
}
pub fn puppet_set(sim: &mut Sim, target: impl AsRef<str>, kv: Value) {
    sim.exec("env", target, &json!({"puppet": {"set": kv}}), &[]).unwrap();
}

macro_rules! code {
    ($name:ident, $c:ident, $($w:ident : $f:ident),*) => {
        pub fn $name() -> Box<dyn Contract<Empty>> {
            Box::new(ContractWrapper::new($c::contract::execute, $c::contract::instantiate, $c::contract::query)
                $(.$w($c::contract::$f))*)
        }
    };
}
code!(core_code, dao_dao_core, with_reply: reply, with_migrate: migrate);
code!(single_code, dao_proposal_single, with_reply: reply, with_migrate: migrate);
code!(multiple_code, dao_proposal_multiple, with_reply: reply, with_migrate: migrate);
code!(condorcet_code, dao_proposal_condorcet, with_reply: reply);
code!(pp_single_code, dao_pre_propose_single, with_migrate: migrate);
code!(pp_multiple_code, dao_pre_propose_multiple, with_migrate: migrate);
code!(pp_approval_code, dao_pre_propose_approval_single, with_migrate: migrate);
code!(pp_approver_code, dao_pre_propose_approver, with_migrate: migrate);
code!(vcw4_code, dao_voting_cw4, with_reply: reply);
code!(vtoken_code, dao_voting_token_staked, with_reply: reply);
code!(vcw20_code, dao_voting_cw20_staked, with_reply: reply);
code!(vcw721_code, dao_voting_cw721_staked, with_reply: reply);
code!(vroles_code, dao_voting_cw721_roles, with_reply: reply);
code!(vonft_code, dao_voting_onft_staked, );
code!(stake_code, cw20_stake, with_migrate: migrate);
code!(ext_rewards_code, cw20_stake_external_rewards, with_migrate: migrate);
code!(reward_dist_code, cw20_stake_reward_distributor, with_migrate: migrate);
code!(rewards_code, dao_rewards_distributor, with_migrate: migrate);
code!(fund_dist_code, cw_fund_distributor, with_migrate: migrate);
code!(vesting_code, cw_vesting,);
code!(payroll_code, cw_payroll_factory, with_reply: reply);
code!(swap_code, cw_token_swap,);
code!(admin_factory_code, cw_admin_factory, with_reply: reply);
code!(ft_factory_code, btsg_ft_factory, with_reply: reply);
code!(issuer_code, cw_tokenfactory_issuer, with_reply: reply, with_sudo: sudo, with_migrate: migrate);
code!(roles_code, cw721_roles,);
code!(cw20_code, cw20_base,);
pub fn cw4_code() -> Box<dyn Contract<Empty>> {
    Box::new(ContractWrapper::new(cw4_group::contract::execute, cw4_group::contract::instantiate, cw4_group::contract::query))
}
pub fn cw721_code() -> Box<dyn Contract<Empty>> {
    Box::new(ContractWrapper::new(
        cw721_base::entry::execute,
        cw721_base::entry::instantiate,
        cw721_base::entry::query,
    ))
}

pub fn mii(code_id: u64, msg: &impl serde::Serialize, label: &str) -> dao_interface::state::ModuleInstantiateInfo {
    dao_interface::state::ModuleInstantiateInfo {
        code_id,
        msg: to_json_binary(msg).unwrap(),
        admin: Some(dao_interface::state::Admin::CoreModule {}),
        funds: vec![],
        label: label.to_string(),
    }
}

pub struct Dao {
    pub core: Addr,
    pub voting: Addr,
    pub proposals: Vec<Addr>,
}

/// Instantiate a real DAO core with the given modules.
pub fn new_dao(
    sim: &mut Sim,
    voting: dao_interface::state::ModuleInstantiateInfo,
    proposals: Vec<dao_interface::state::ModuleInstantiateInfo>,
    admin: Option<String>,
) -> Dao {
    let core_id = sim.store(core_code());
    let core = sim
        .init_admin(
            core_id,
            "creator",
            &dao_interface::msg::InstantiateMsg {
                admin,
                name: "dao".into(),
                description: "d".into(),
                image_url: None,
                automatically_add_cw20s: true,
                automatically_add_cw721s: true,
                voting_module_instantiate_info: voting,
                proposal_modules_instantiate_info: proposals,
                initial_items: None,
                dao_uri: None,
            },
            &[],
            "dao",
            None,
        )
        .unwrap();
    dao_of(sim, core)
}
pub fn dao_of(sim: &Sim, core: Addr) -> Dao {
    let voting: Addr = sim.query(&core, &dao_interface::msg::QueryMsg::VotingModule {}).unwrap();
    let mods: Vec<dao_interface::state::ProposalModule> = sim
        .query(&core, &dao_interface::msg::QueryMsg::ProposalModules { start_after: None, limit: None })
        .unwrap();
    Dao { core, voting, proposals: mods.into_iter().map(|m| m.address).collect() }
}
pub fn power_module(code: u64, powers: &[(&str, u128)]) -> dao_interface::state::ModuleInstantiateInfo {
    let m: BTreeMap<&str, String> = powers.iter().map(|(a, p)| (*a, p.to_string())).collect();
    mii(code, &json!({ "powers": m }), "voting")
}
pub fn set_powers(sim: &mut Sim, voting: &Addr, powers: &[(&str, u128)]) {
    let m: BTreeMap<&str, String> = powers.iter().map(|(a, p)| (*a, p.to_string())).collect();
    sim.exec("env", voting, &json!({ "set": m }), &[]).unwrap();
}
