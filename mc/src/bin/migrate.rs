//! M01 upgrades. Every configuration builds the same deployment twice from the real code of an
//! earlier release. One deployment (the control) stays on that release, the other (the twin) is
//! upgraded to the current tree at any point of any history. Every operation is applied to both,
//! and both must answer it, and every query, in the same way.
use cosmwasm_std::{to_json_binary, Empty};
use cw_multi_test::{Contract, ContractWrapper};
use mc::main_util::{run_main, Entry, PropertyPlan};
use mc::mocks::*;
use mc::sim::{coins, ExecResult, Sim};
use mc::{ensure, same, Harness, VResult, Violation};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::fmt::Debug;

const M: &[&str] = &["M01"];

macro_rules! old {
    ($name:ident, $c:ident $(, $w:ident : $f:ident)*) => {
        fn $name() -> Box<dyn Contract<Empty>> {
            Box::new(ContractWrapper::new($c::contract::execute, $c::contract::instantiate, $c::contract::query)
                $(.$w($c::contract::$f))*)
        }
    };
}
old!(stake_v1, cw20_stake_v1);
old!(ext_v1, cw20_stake_external_rewards_v1);
old!(dist_v1, cw20_stake_reward_distributor_v1);
old!(core_v1, cw_core_v1, with_reply: reply);
old!(single_v1, cw_proposal_single_v1, with_reply: reply);
old!(core_241, dao_dao_core_v241, with_reply: reply);
old!(single_241, dao_proposal_single_v241, with_reply: reply);
old!(multiple_241, dao_proposal_multiple_v241, with_reply: reply);
old!(pps_241, dao_pre_propose_single_v241);
old!(ppm_241, dao_pre_propose_multiple_v241);
old!(ppa_241, dao_pre_propose_approval_single_v241);
old!(cw4_241, dao_voting_cw4_v241, with_reply: reply);
old!(voting_cw4_now, dao_voting_cw4, with_reply: reply, with_migrate: migrate);

/// One of the two deployments.
#[derive(Default)]
struct Side {
    k: usize,
    a: BTreeMap<&'static str, String>,
    codes: BTreeMap<&'static str, u64>,
}
impl Side {
    fn u(&self, n: &str) -> String {
        format!("{}{}", n, self.k)
    }
    fn at(&self, role: &str) -> String {
        self.a.get(role).unwrap_or_else(|| panic!("no role {}", role)).clone()
    }
}
/// Replace this deployment's addresses by their roles, drop absent fields.
fn canon(v: &Value, s: &Side) -> Value {
    match v {
        Value::String(x) => {
            let mut x = x.clone();
            for (r, a) in &s.a {
                if x.contains(a.as_str()) {
                    x = x.replace(a.as_str(), &format!("<{}>", r));
                }
            }
            for n in USERS {
                x = x.replace(&s.u(n), &format!("<{}>", n));
            }
            if x.starts_with("contract") && x[8..].parse::<u32>().is_ok() {
                x = "<new contract>".into();
            }
            Value::String(x)
        }
        Value::Array(a) => Value::Array(a.iter().map(|x| canon(x, s)).collect()),
        Value::Object(o) if o.contains_key("SET") => {
            let mut x = canon(&o["SET"], s);
            if let Value::Array(a) = &mut x {
                a.sort_by_key(|x| x.to_string());
            }
            json!({ "SET": x })
        }
        Value::Object(o) => Value::Object(
            o.iter().filter(|(_, x)| !x.is_null()).map(|(k, x)| (k.clone(), canon(x, s))).collect(),
        ),
        x => x.clone(),
    }
}
const USERS: [&str; 6] = ["ann", "bob", "cat", "own", "mgr", "eve"];

enum Mode {
    /// same answer from both
    Both,
    /// only defined after the upgrade: the control is left alone and the twin must answer like this
    Twin(bool),
    /// the answers may differ, the views may not
    Loose,
    /// the two releases are known to differ here
    Skip,
}
struct Up {
    name: String,
    target: &'static str,
    code: &'static str,
    msg: Box<dyn Fn(&Side) -> Value + Send + Sync>,
}
fn up(name: &str, target: &'static str, code: &'static str, msg: impl Fn(&Side) -> Value + Send + Sync + 'static) -> Up {
    Up { name: name.into(), target, code, msg: Box::new(msg) }
}

trait Duo: Send + Sync + 'static {
    type Op: Clone + Debug + Serialize + DeserializeOwned + Send + Sync + 'static;
    fn build(&self, sim: &mut Sim, s: &mut Side);
    fn ups(&self) -> Vec<Up>;
    /// which upgrades are worth trying now
    fn tries(&self, mig: &[u8]) -> Vec<u8> {
        let _ = mig;
        (0..self.ups().len() as u8).collect()
    }
    /// must this upgrade succeed now
    fn may(&self, sim: &Sim, s: &Side, mig: &[u8], v: u8) -> bool {
        let ups = self.ups();
        let _ = (sim, s);
        !mig.iter().any(|x| ups[*x as usize].target == ups[v as usize].target)
    }
    fn ops(&self, mig: &[u8]) -> Vec<Self::Op>;
    fn mode(&self, sim: &Sim, control: &Side, mig: &[u8], op: &Self::Op) -> Mode;
    fn apply(&self, sim: &mut Sim, s: &Side, mig: &[u8], op: &Self::Op) -> ExecResult;
    /// time passing, applied once
    fn tick(&self, op: &Self::Op) -> Option<u64>;
    fn view(&self, sim: &Sim, s: &Side, mig: &[u8]) -> Value;
    /// the changes to the control's view that the upgrade asked for
    fn adjust(&self, mig: &[u8], v: &mut Value) {
        let _ = (mig, v);
    }
    /// history shared by all executions, before any upgrade
    fn pre(&self) -> Vec<Self::Op> {
        vec![]
    }
    fn after(&self, sim: &mut Sim, s: &Side, mig: &[u8]) -> VResult {
        let _ = (sim, s, mig);
        Ok(())
    }
}
struct W {
    sim: Sim,
    side: [Side; 2],
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Top<O> {
    Up(u8),
    Do(O),
}
struct T<D>(D);
impl<D: Duo> T<D> {
    fn compare(&self, w: &mut W, mig: &[u8], after: &str) -> VResult {
        let mut c = canon(&self.0.view(&w.sim, &w.side[0], &[]), &w.side[0]);
        let t = canon(&self.0.view(&w.sim, &w.side[1], mig), &w.side[1]);
        self.0.adjust(mig, &mut c);
        if c != t {
            let mut d = vec![];
            diff("", &c, &t, &mut d);
            return Err(Violation::new(
                M,
                format!("view:{}", after.split('(').next().unwrap_or(after)),
                format!("after {} the upgraded contract differs from the one left alone: {}", after, d.join("; ")),
            ));
        }
        Ok(())
    }
}
fn diff(p: &str, a: &Value, b: &Value, out: &mut Vec<String>) {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            let keys: std::collections::BTreeSet<_> = x.keys().chain(y.keys()).collect();
            for k in keys {
                diff(&format!("{}.{}", p, k), x.get(k).unwrap_or(&Value::Null), y.get(k).unwrap_or(&Value::Null), out);
            }
        }
        _ if a != b => out.push(format!("{}: earlier release {} upgraded {}", p, a, b)),
        _ => {}
    }
}
impl<D: Duo> Harness for T<D> {
    type World = W;
    /// the upgrades performed, in order
    type Model = Vec<u8>;
    type Op = Top<D::Op>;
    fn sim<'a>(&self, w: &'a mut W) -> &'a mut Sim {
        &mut w.sim
    }
    fn setup(&self) -> (W, Vec<u8>) {
        let mut sim = Sim::new();
        // every contract address gets the same length, so that both deployments sort alike
        let p = sim.store(puppet());
        for _ in 0..10 {
            sim.init(p, "x", &json!({}), &[], "pad").unwrap();
        }
        let mut side = [Side { k: 0, ..Default::default() }, Side { k: 1, ..Default::default() }];
        for s in side.iter_mut() {
            s.codes.insert("puppet", p);
            self.0.build(&mut sim, s);
        }
        for o in self.0.pre() {
            match self.0.tick(&o) {
                Some(t) => sim.advance(t, 6 * t),
                None => {
                    for s in side.iter() {
                        self.0.apply(&mut sim, s, &[], &o).unwrap_or_else(|e| panic!("{:?}: {}", o, e));
                    }
                }
            }
        }
        sim.seal();
        (W { sim, side }, vec![])
    }
    fn ops(&self, m: &Vec<u8>) -> Vec<Self::Op> {
        let mut v: Vec<Self::Op> = self.0.tries(m).into_iter().map(Top::Up).collect();
        v.extend(self.0.ops(m).into_iter().map(Top::Do));
        v
    }
    fn step(&self, w: &mut W, m: &mut Vec<u8>, op: &Self::Op) -> VResult<String> {
        let label;
        match op {
            Top::Up(v) => {
                let ups = self.0.ups();
                let u = &ups[*v as usize];
                let s = &w.side[1];
                let ok = self.0.may(&w.sim, s, m, *v);
                let before = w.sim.snapshot().hash();
                let msg = (u.msg)(s);
                let (target, code) = (s.at(u.target), s.codes[u.code]);
                let r = w.sim.migrate("admin", &target, &msg, code);
                if ok {
                    ensure!(r.is_ok(), M, format!("refused:{}", u.name), "upgrade {} was refused: {:?}", u.name, r.err());
                    m.push(*v);
                    let s = &w.side[1];
                    self.0.after(&mut w.sim, s, m)?;
                } else {
                    ensure!(r.is_err(), M, format!("allowed:{}", u.name), "upgrade {} after {:?} was not refused", u.name, m);
                    same!(w.sim.snapshot().hash(), before, M, "refused-changed", "state after a refused upgrade {}", u.name);
                }
                label = format!("upgrade {} {}", u.name, if ok { "done" } else { "refused" });
            }
            Top::Do(o) => {
                if let Some(t) = self.0.tick(o) {
                    w.sim.advance(t, 6 * t);
                    label = "time".into();
                } else {
                    let name = format!("{:?}", o);
                    let name = name.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string();
                    let mode = self.0.mode(&w.sim, &w.side[0], m, o);
                    let (c, t) = match mode {
                        Mode::Twin(e) => {
                            let t = self.0.apply(&mut w.sim, &w.side[1], m, o);
                            ensure!(t.is_ok() == e, M, format!("answer:{}", name), "{:?} after the upgrade: expected {} but got {:?}", o, if e { "acceptance" } else { "refusal" }, t.as_ref().map(|_| "accepted"));
                            (t.is_ok(), t)
                        }
                        Mode::Skip => (false, Err(String::new())),
                        Mode::Both | Mode::Loose => {
                            let c = self.0.apply(&mut w.sim, &w.side[0], &[], o);
                            let t = self.0.apply(&mut w.sim, &w.side[1], m, o);
                            if matches!(mode, Mode::Both) {
                                ensure!(c.is_ok() == t.is_ok(), M, format!("answer:{}", name), "{:?}: the earlier release answers {:?}, the upgraded contract {:?}", o, c.as_ref().map(|_| "accepted"), t.as_ref().map(|_| "accepted"));
                            }
                            (c.is_ok(), t)
                        }
                    };
                    label = format!("{} {}/{}{}", name, if c { "ok" } else { "no" }, if t.is_ok() { "ok" } else { "no" }, if m.is_empty() { "" } else { " upgraded" });
                }
            }
        }
        self.compare(w, m, &format!("{:?}", op))?;
        Ok(label)
    }
    fn invariant(&self, w: &mut W, m: &Vec<u8>) -> VResult {
        if m.is_empty() {
            self.compare(w, m, "setup")?;
        }
        Ok(())
    }
}

fn q(sim: &Sim, to: &str, m: Value) -> Value {
    match sim.query::<_, Value>(to, &m) {
        Ok(v) => v,
        Err(_) => json!("<query fails>"),
    }
}
fn cw20(sim: &mut Sim, s: &mut Side, role: &'static str, each: u128, extra: &[(String, u128)]) {
    let code = *s.codes.entry("cw20").or_insert_with(|| sim.store(cw20_code()));
    let mut b: Vec<cw20::Cw20Coin> = USERS.iter().map(|n| cw20::Cw20Coin { address: s.u(n), amount: each.into() }).collect();
    b.extend(extra.iter().map(|(a, x)| cw20::Cw20Coin { address: a.clone(), amount: (*x).into() }));
    let a = sim
        .init(
            code,
            "whale",
            &cw20_base::msg::InstantiateMsg {
                name: role.into(),
                symbol: "TOK".into(),
                decimals: 6,
                initial_balances: b,
                mint: Some(cw20::MinterResponse { minter: "minter".into(), cap: None }),
                marketing: None,
            },
            &[],
            role,
        )
        .unwrap();
    s.a.insert(role, a.into());
}
fn send(to: &str, amount: u128, inner: Value) -> Value {
    json!({"send": {"contract": to, "amount": amount.to_string(), "msg": to_json_binary(&inner).unwrap()}})
}
fn put(sim: &mut Sim, s: &mut Side, role: &'static str, code: &'static str, f: fn() -> Box<dyn Contract<Empty>>, msg: &Value) {
    let c = *s.codes.entry(code).or_insert_with(|| sim.store(f()));
    let a = sim.init_admin(c, &s.u("own"), msg, &[], role, Some("admin".into())).unwrap_or_else(|e| panic!("{}: {}", role, e));
    s.a.insert(role, a.into());
}
fn puppet_at(sim: &mut Sim, s: &mut Side, role: &'static str) {
    let a = sim.init(s.codes["puppet"], "x", &json!({}), &[], role).unwrap();
    s.a.insert(role, a.into());
}
fn balances(sim: &Sim, s: &Side, token: &str, roles: &[&'static str]) -> Value {
    let mut o = serde_json::Map::new();
    for n in USERS {
        o.insert(n.into(), json!(sim.cw20(s.at(token), s.u(n)).to_string()));
    }
    for r in roles {
        o.insert(r.to_string(), json!(sim.cw20(s.at(token), s.at(r)).to_string()));
    }
    Value::Object(o)
}

include!("migrate_staking.inc");
include!("migrate_dao.inc");
include!("migrate_prepropose.inc");

fn plan(p: &str, thorough: bool) -> Option<PropertyPlan> {
    if p != "M01" {
        return None;
    }
    let mut e = vec![];
    staking_entries(&mut e, thorough);
    dao_entries(&mut e, thorough);
    prepropose_entries(&mut e, thorough);
    Some(PropertyPlan { entries: e, rule: "Two deployments of the real earlier release are driven through the same operations; one is upgraded (every accepted and every refusable upgrade) at every point of every history. After every step each operation's acceptance and every query, wallet and recorded notification of the two must agree after replacing addresses by roles, apart from the settings the upgrade names",
        assumptions: vec![
            "the earlier releases are the published crates cw-core, cw-proposal-single, cw20-stake, cw20-stake-external-rewards, cw20-stake-reward-distributor of v1 and the dao-* crates of 2.4.1",
            "documented differences of this release are not compared: votes on decided but unexpired proposals, administration while paused, a former manager's powers, removing an absent module",
        ] })
}
fn main() {
    run_main(plan)
}
