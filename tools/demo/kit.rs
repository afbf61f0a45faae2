//! Small helpers for the demonstrations.
#![allow(dead_code)]
use anyhow::{anyhow, bail, Result as AnyResult};
use cosmwasm_std::{to_json_binary, Addr, Binary, Coin, CosmosMsg, Deps, DepsMut, Empty, Env, MessageInfo, Reply, Response, Uint128, WasmMsg};
use cw_multi_test::*;
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::fmt::Debug;

pub struct Sim {
    pub app: App,
}
/// A contract with its optional entry points, e.g. code!(dao_dao_core, with_reply reply).
#[macro_export]
macro_rules! code {
    ($m:ident $(, $with:ident $ep:ident)*) => {
        Box::new(
            cw_multi_test::ContractWrapper::new($m::contract::execute, $m::contract::instantiate, $m::contract::query)
            $( .$with($m::contract::$ep) )*
        )
    };
}
pub type R = Result<AppResponse, String>;
fn guard<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or_else(|_| Err("panic".to_string()))
}
impl Sim {
    pub fn new() -> Sim {
        Sim { app: AppBuilder::new().build(no_init) }
    }
    pub fn store(&mut self, c: Box<dyn Contract<Empty>>) -> u64 {
        self.app.store_code(c)
    }
    pub fn mint(&mut self, to: &str, amount: u128, denom: &str) {
        self.app
            .sudo(SudoMsg::Bank(BankSudo::Mint { to_address: to.into(), amount: coins(amount, denom) }))
            .unwrap();
    }
    pub fn init(&mut self, code: u64, sender: &str, msg: impl Serialize, funds: &[Coin]) -> Result<String, String> {
        let app = &mut self.app;
        guard(|| {
            app.instantiate_contract(code, Addr::unchecked(sender), &msg, funds, "x", None)
                .map(|a| a.to_string())
                .map_err(|e| format!("{:#}", e))
        })
    }
    pub fn exec(&mut self, sender: &str, to: &str, msg: impl Serialize + Debug, funds: &[Coin]) -> R {
        let app = &mut self.app;
        guard(|| {
            app.execute_contract(Addr::unchecked(sender), Addr::unchecked(to), &msg, funds)
                .map_err(|e| format!("{:#}", e))
        })
    }
    pub fn q<T: DeserializeOwned>(&self, to: &str, msg: Value) -> T {
        self.app.wrap().query_wasm_smart(to, &msg).unwrap()
    }
    pub fn qe(&self, to: &str, msg: Value) -> Result<Value, String> {
        guard(|| self.app.wrap().query_wasm_smart(to, &msg).map_err(|e| e.to_string()))
    }
    pub fn bal(&self, who: &str, denom: &str) -> u128 {
        self.app.wrap().query_balance(who, denom).unwrap().amount.u128()
    }
    pub fn cw20(&self, token: &str, who: &str) -> u128 {
        let r: cw20::BalanceResponse = self.q(token, serde_json::json!({"balance": {"address": who}}));
        r.balance.u128()
    }
    pub fn next(&mut self, blocks: u64, secs: u64) {
        self.app.update_block(|b| {
            b.height += blocks;
            b.time = b.time.plus_seconds(secs);
        });
    }
}
pub fn coins(a: u128, d: &str) -> Vec<Coin> {
    vec![Coin { denom: d.into(), amount: Uint128::new(a) }]
}
pub fn cw20_token() -> Box<dyn Contract<Empty>> {
    Box::new(ContractWrapper::new(cw20_base::contract::execute, cw20_base::contract::instantiate, cw20_base::contract::query))
}
pub fn group() -> Box<dyn Contract<Empty>> {
    Box::new(ContractWrapper::new(cw4_group::contract::execute, cw4_group::contract::instantiate, cw4_group::contract::query))
}
pub fn nft() -> Box<dyn Contract<Empty>> {
    Box::new(ContractWrapper::new(cw721_base::entry::execute, cw721_base::entry::instantiate, cw721_base::entry::query))
}
pub fn u(v: &Value) -> u128 {
    v.as_str().unwrap().parse().unwrap()
}

fn get(s: &dyn cosmwasm_std::Storage, k: &str) -> Value {
    s.get(k.as_bytes()).map(|b| serde_json::from_slice(&b).unwrap()).unwrap_or(Value::Null)
}
fn put(s: &mut dyn cosmwasm_std::Storage, k: &str, v: &Value) {
    s.set(k.as_bytes(), &serde_json::to_vec(v).unwrap())
}

/// A scriptable contract. `{"puppet":{..}}` messages control it; every other execute message is
/// treated as an incoming notification: logged under "log" or refused while "fail" is set.
pub struct Puppet;
impl Contract<Empty> for Puppet {
    fn execute(&self, deps: DepsMut, _env: Env, info: MessageInfo, msg: Vec<u8>) -> AnyResult<Response> {
        let v: Value = serde_json::from_slice(&msg)?;
        if let Some(p) = v.get("puppet") {
            if let Some(s) = p.get("set") {
                for (k, v) in s.as_object().unwrap() {
                    put(deps.storage, k, v);
                }
                return Ok(Response::new());
            }
            if let Some(id) = p.get("hit") {
                let k = format!("hit:{}", id);
                let n = get(deps.storage, &k).as_u64().unwrap_or(0);
                put(deps.storage, &k, &json!(n + 1));
                let mut s = get(deps.storage, "senders").as_array().cloned().unwrap_or_default();
                if !s.contains(&json!(info.sender)) {
                    s.push(json!(info.sender));
                    put(deps.storage, "senders", &json!(s));
                }
                return Ok(Response::new());
            }
            if p.get("boom").is_some() {
                bail!("boom")
            }
            if let Some(m) = p.get("emit") {
                let msgs: Vec<CosmosMsg> = serde_json::from_value(m.clone())?;
                return Ok(Response::new().add_messages(msgs));
            }
            bail!("unknown puppet command")
        }
        if get(deps.storage, "fail") == json!(true) {
            bail!("subscriber refuses")
        }
        let mut log = get(deps.storage, "log").as_array().cloned().unwrap_or_default();
        let mut e = json!({"from": info.sender, "msg": v});
        if !info.funds.is_empty() {
            e["funds"] = json!(info.funds);
        }
        log.push(e);
        put(deps.storage, "log", &json!(log));
        Ok(Response::new())
    }
    fn instantiate(&self, deps: DepsMut, _env: Env, info: MessageInfo, msg: Vec<u8>) -> AnyResult<Response> {
        let v: Value = serde_json::from_slice(&msg)?;
        put(deps.storage, "creator", &json!(info.sender));
        if let Some(o) = v.as_object() {
            for (k, v) in o {
                put(deps.storage, k, v);
            }
        }
        Ok(Response::new())
    }
    fn query(&self, deps: Deps, _env: Env, msg: Vec<u8>) -> AnyResult<Binary> {
        let v: Value = serde_json::from_slice(&msg)?;
        if let Some(k) = v.get("get").and_then(|k| k.as_str()) {
            return Ok(Binary(serde_json::to_vec(&get(deps.storage, k))?));
        }
        // scripted query answers: key "q:<variant>"
        if let Some(o) = v.as_object() {
            if let Some((k, _)) = o.iter().next() {
                let a = get(deps.storage, &format!("q:{}", k));
                if !a.is_null() {
                    return Ok(Binary(serde_json::to_vec(&a)?));
                }
            }
        }
        Err(anyhow!("puppet: no answer to {}", v))
    }
    fn sudo(&self, _d: DepsMut, _e: Env, _m: Vec<u8>) -> AnyResult<Response> {
        bail!("no sudo")
    }
    fn reply(&self, _d: DepsMut, _e: Env, _m: Reply) -> AnyResult<Response> {
        bail!("no reply")
    }
    fn migrate(&self, _d: DepsMut, _e: Env, _m: Vec<u8>) -> AnyResult<Response> {
        Ok(Response::new())
    }
}

/// Voting module with directly settable powers; power at height h is what was set in blocks < h.
pub struct PowerTable;
impl PowerTable {
    fn at(hist: &Value, h: u64) -> u128 {
        let mut p = 0u128;
        if let Some(a) = hist.as_array() {
            for e in a {
                if e[0].as_u64().unwrap() < h {
                    p = e[1].as_str().unwrap().parse().unwrap();
                }
            }
        }
        p
    }
    fn write(s: &mut dyn cosmwasm_std::Storage, k: &str, h: u64, p: u128) {
        let mut a = get(s, k).as_array().cloned().unwrap_or_default();
        a.retain(|e| e[0].as_u64().unwrap() != h);
        a.push(json!([h, p.to_string()]));
        put(s, k, &json!(a));
    }
    fn current(s: &dyn cosmwasm_std::Storage, k: &str) -> u128 {
        Self::at(&get(s, k), u64::MAX)
    }
    fn set(s: &mut dyn cosmwasm_std::Storage, h: u64, o: &serde_json::Map<String, Value>) {
        for (a, p) in o {
            let p: u128 = p.as_str().unwrap().parse().unwrap();
            let old = Self::current(s, &format!("p:{}", a));
            let tot = Self::current(s, "total");
            Self::write(s, &format!("p:{}", a), h, p);
            Self::write(s, "total", h, tot - old + p);
        }
    }
}
impl Contract<Empty> for PowerTable {
    fn execute(&self, deps: DepsMut, env: Env, _info: MessageInfo, msg: Vec<u8>) -> AnyResult<Response> {
        let v: Value = serde_json::from_slice(&msg)?;
        if let Some(o) = v.get("set").and_then(|x| x.as_object()) {
            Self::set(deps.storage, env.block.height, o);
            return Ok(Response::new());
        }
        if let Some(b) = v.get("active") {
            put(deps.storage, "active", b);
            return Ok(Response::new());
        }
        bail!("power table: {}", v)
    }
    fn instantiate(&self, deps: DepsMut, _env: Env, info: MessageInfo, msg: Vec<u8>) -> AnyResult<Response> {
        let v: Value = serde_json::from_slice(&msg)?;
        put(deps.storage, "dao", &json!(info.sender));
        if let Some(o) = v.get("powers").and_then(|x| x.as_object()) {
            Self::set(deps.storage, 0, o);
        }
        Ok(Response::new())
    }
    fn query(&self, deps: Deps, env: Env, msg: Vec<u8>) -> AnyResult<Binary> {
        let v: Value = serde_json::from_slice(&msg)?;
        let height = |x: &Value| x["height"].as_u64().unwrap_or(env.block.height);
        let r = if let Some(q) = v.get("voting_power_at_height") {
            let h = height(q);
            json!({"power": Self::at(&get(deps.storage, &format!("p:{}", q["address"].as_str().unwrap())), h).to_string(), "height": h})
        } else if let Some(q) = v.get("total_power_at_height") {
            let h = height(q);
            json!({"power": Self::at(&get(deps.storage, "total"), h).to_string(), "height": h})
        } else if v.get("dao").is_some() {
            get(deps.storage, "dao")
        } else if v.get("is_active").is_some() {
            json!({"active": get(deps.storage, "active").as_bool().unwrap_or(true)})
        } else if v.get("info").is_some() {
            json!({"info": {"contract": "power-table", "version": "1"}})
        } else {
            bail!("power table query {}", v)
        };
        Ok(Binary(serde_json::to_vec(&r)?))
    }
    fn sudo(&self, _d: DepsMut, _e: Env, _m: Vec<u8>) -> AnyResult<Response> {
        bail!("no sudo")
    }
    fn reply(&self, _d: DepsMut, _e: Env, _m: Reply) -> AnyResult<Response> {
        bail!("no reply")
    }
    fn migrate(&self, _d: DepsMut, _e: Env, _m: Vec<u8>) -> AnyResult<Response> {
        bail!("no migrate")
    }
}


pub fn puppet() -> Box<dyn Contract<Empty>> {
    Box::new(Puppet)
}
pub fn power_table() -> Box<dyn Contract<Empty>> {
    Box::new(PowerTable)
}
pub fn wasm_exec(to: &str, msg: &Value) -> CosmosMsg {
    WasmMsg::Execute { contract_addr: to.to_string(), msg: Binary(serde_json::to_vec(msg).unwrap()), funds: vec![] }.into()
}
pub fn hit(target: &str, id: u64) -> CosmosMsg {
    wasm_exec(target, &json!({"puppet": {"hit": id}}))
}
pub fn module(code: u64, msg: Value, label: &str) -> Value {
    json!({"code_id": code, "msg": to_json_binary(&msg).unwrap(), "admin": {"core_module": {}}, "funds": [], "label": label})
}
pub fn dao_msg(voting: Value, proposals: Vec<Value>) -> Value {
    json!({"name": "d", "description": "d", "automatically_add_cw20s": true, "automatically_add_cw721s": true,
        "voting_module_instantiate_info": voting, "proposal_modules_instantiate_info": proposals})
}
