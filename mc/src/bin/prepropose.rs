//! D01 deposits, D02 submission permissions, D03 approval-gated proposals.
use cosmwasm_std::{Addr, Coin, Decimal, Uint128};
use cw_denom::UncheckedDenom;
use dao_pre_propose_base::msg::DepositInfoResponse;
use dao_voting::deposit::{DepositRefundPolicy, DepositToken, UncheckedDepositInfo, VotingModuleTokenType};
use dao_voting::pre_propose::PreProposeSubmissionPolicy;
use mc::main_util::{run_main, Entry, PropertyPlan};
use mc::mocks::*;
use mc::sim::{coin, coins, Sim};
use mc::{ensure, same, Harness, VResult, Violation};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

const D1: &[&str] = &["D01"];
const D2: &[&str] = &["D02"];
const D3: &[&str] = &["D03"];
const D13: &[&str] = &["D01", "D03"];
const D123: &[&str] = &["D01", "D02", "D03"];
const D23: &[&str] = &["D02", "D03"];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Kind {
    Single,
    Multiple,
    Approval,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
enum Tok {
    Juno,
    Atom,
    Cw20,
    /// whatever the DAO's voting module is about when the terms are set
    OwnNative,
    OwnCw20,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Refund {
    Always,
    OnlyPassed,
    Never,
}
type Dep = Option<(Tok, u128, Refund)>;

/// Final outcomes
const EXEC: u8 = 1;
const CLOSED: u8 = 2;
const VETOED: u8 = 3;
const FAILED: u8 = 4;
fn final_code(s: &Value) -> u8 {
    match s.as_str() {
        Some("executed") => EXEC,
        Some("closed") => CLOSED,
        Some("vetoed") => VETOED,
        Some("execution_failed") => FAILED,
        _ => 0,
    }
}

/// The proposal module with its pre-propose contract, inside a DAO with table-driven power.
struct Base {
    kind: Kind,
    module: Addr,
    pre: Addr,
    core: String,
    voting: Addr,
    token: Addr,
    target: Addr,
}
fn module_msg(kind: Kind, pre: Value, close_fail: bool) -> Value {
    let pct = |s: &str| json!({"percent": s});
    let mut v = json!({
        "max_voting_period": {"height": 2},
        "min_voting_period": null,
        "only_members_execute": false,
        "allow_revoting": false,
        "pre_propose_info": pre,
        "close_proposal_on_execution_failure": close_fail,
        "veto": {"timelock_duration": {"height": 1}, "vetoer": "vetoer", "early_execute": true, "veto_before_passed": true},
    });
    if kind == Kind::Multiple {
        v["voting_strategy"] = json!({"single_choice": {"quorum": pct("0.3")}});
    } else {
        v["threshold"] = json!({"threshold_quorum": {"threshold": {"majority": {}}, "quorum": pct("0.3")}});
    }
    v
}
fn pre_info(code: u64, deposit: &Option<UncheckedDepositInfo>, policy: &PreProposeSubmissionPolicy, ext: Value) -> Value {
    serde_json::to_value(json!({"module_may_propose": {"info": mii(code, &json!({"deposit_info": deposit, "submission_policy": policy, "extension": ext}), "pre")}})).unwrap()
}
fn unchecked(d: &Dep, token: &Addr) -> Option<UncheckedDepositInfo> {
    d.map(|(t, a, r)| UncheckedDepositInfo {
        denom: match t {
            Tok::OwnNative => DepositToken::VotingModuleToken { token_type: VotingModuleTokenType::Native },
            Tok::OwnCw20 => DepositToken::VotingModuleToken { token_type: VotingModuleTokenType::Cw20 },
            t => DepositToken::Token { denom: denom_of(t, token) },
        },
        amount: Uint128::new(a),
        refund_policy: match r {
            Refund::Always => DepositRefundPolicy::Always,
            Refund::OnlyPassed => DepositRefundPolicy::OnlyPassed,
            Refund::Never => DepositRefundPolicy::Never,
        },
    })
}
fn denom_of(t: Tok, token: &Addr) -> UncheckedDenom {
    match t {
        Tok::Juno => UncheckedDenom::Native("ujuno".into()),
        Tok::Atom => UncheckedDenom::Native("uatom".into()),
        Tok::Cw20 => UncheckedDenom::Cw20(token.to_string()),
        t => unreachable!("{:?}", t),
    }
}
const RICH: [&str; 3] = ["alice", "bob", "eve"];
fn base(sim: &mut Sim, kind: Kind, dep: &Dep, policy: &PreProposeSubmissionPolicy, powers: &[(&str, u128)], close_fail: bool) -> Base {
    let pc = sim.store(puppet());
    let tc = sim.store(cw20_code());
    let target = sim.init(pc, "env", &json!({}), &[], "target").unwrap();
    let token = sim
        .init(
            tc,
            "env",
            &json!({"name": "token", "symbol": "TOK", "decimals": 6,
                "initial_balances": RICH.iter().chain(["donor"].iter()).map(|a| json!({"address": a, "amount": "100"})).collect::<Vec<_>>()}),
            &[],
            "t",
        )
        .unwrap();
    for a in RICH.iter().chain(["donor"].iter()) {
        sim.mint(a, 100, "ujuno");
        sim.mint(a, 100, "uatom");
    }
    let vc = sim.store(power_table());
    let (mc, pp) = match kind {
        Kind::Single => (sim.store(single_code()), sim.store(pp_single_code())),
        Kind::Multiple => (sim.store(multiple_code()), sim.store(pp_multiple_code())),
        Kind::Approval => (sim.store(single_code()), sim.store(pp_approval_code())),
    };
    let ext = if kind == Kind::Approval { json!({"approver": "appr"}) } else { json!({}) };
    let m = module_msg(kind, pre_info(pp, &unchecked(dep, &token), policy, ext), close_fail);
    let dao = new_dao(sim, power_module(vc, powers), vec![mii(mc, &m, "module")], None);
    let module = dao.proposals[0].clone();
    let pol: Value = sim.query(&module, &json!({"proposal_creation_policy": {}})).unwrap();
    let pre = Addr::unchecked(pol["module"]["addr"].as_str().expect("pre-propose installed"));
    for a in ["alice", "donor"] {
        sim.exec(a, &token, &json!({"increase_allowance": {"spender": pre, "amount": "1000"}}), &[]).unwrap();
    }
    Base { kind, module, pre, core: dao.core.to_string(), voting: dao.voting, token, target }
}
impl Base {
    fn content(&self, id: u64, boomy: bool) -> Value {
        let mut msgs = vec![hit(&self.target, id)];
        if boomy {
            msgs.push(boom(&self.target));
        }
        let msgs = serde_json::to_value(msgs).unwrap();
        if self.kind == Kind::Multiple {
            json!({"title": format!("t{}", id), "description": format!("d{}", id), "choices": {"options": [
                {"title": "c0", "description": "x", "msgs": msgs}, {"title": "c1", "description": "y", "msgs": []}]}, "vote": null})
        } else {
            json!({"title": format!("t{}", id), "description": format!("d{}", id), "msgs": msgs, "vote": null})
        }
    }
    /// The stored proposal says what was submitted.
    fn says(&self, p: &Value, c: &Value, props: &'static [&'static str]) -> VResult {
        same!(p["title"], c["title"], props, "content", "title");
        same!(p["description"], c["description"], props, "content", "description");
        if self.kind == Kind::Multiple {
            let want = c["choices"]["options"].as_array().unwrap();
            let got = p["choices"].as_array().unwrap();
            same!(got.len(), want.len() + 1, props, "content", "choices");
            for (a, b) in got.iter().zip(want) {
                same!((&a["title"], &a["description"], &a["msgs"]), (&b["title"], &b["description"], &b["msgs"]), props, "content", "a choice");
            }
            same!(got[want.len()]["msgs"], json!([]), props, "content", "messages of the choice of none of the above");
        } else {
            same!(p["msgs"], c["msgs"], props, "content", "messages");
        }
        Ok(())
    }
    fn propose(&self, id: u64, boomy: bool) -> Value {
        json!({"propose": {"msg": {"propose": self.content(id, boomy)}}})
    }
    fn direct(&self, id: u64, proposer: Option<&str>) -> Value {
        let mut c = self.content(id, false);
        c["proposer"] = json!(proposer);
        json!({ "propose": c })
    }
    fn vote(&self, pid: u64, yes: bool) -> Value {
        let v = if self.kind == Kind::Multiple { json!({"option_id": if yes { 0 } else { 2 }}) } else { json!(if yes { "yes" } else { "no" }) };
        json!({"vote": {"proposal_id": pid, "vote": v, "rationale": null}})
    }
    fn proposal(&self, sim: &Sim, pid: u64) -> Value {
        let v: Value = sim.query(&self.module, &json!({"proposal": {"proposal_id": pid}})).unwrap();
        v["proposal"].clone()
    }
    fn count(&self, sim: &Sim) -> u64 {
        sim.query(&self.module, &json!({"proposal_count": {}})).unwrap()
    }
    fn installed(&self, sim: &Sim) -> bool {
        let pol: Value = sim.query(&self.module, &json!({"proposal_creation_policy": {}})).unwrap();
        pol["module"]["addr"] == json!(self.pre)
    }
    fn balance(&self, sim: &Sim, who: &str, t: Tok) -> u128 {
        match t {
            Tok::Juno => sim.bal(who, "ujuno"),
            Tok::Atom => sim.bal(who, "uatom"),
            Tok::Cw20 => sim.cw20(&self.token, who),
            t => unreachable!("{:?}", t),
        }
    }
}

// ================================================================ deposits (D01, with approvals D03)
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Pay {
    Exact,
    Nothing,
    Less,
    More,
    Other,
    Both,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum DOp {
    Propose { who: String, pay: Pay, boomy: bool },
    /// a submission that a subscriber answers, before it is over, with one of its own
    Echo { who: String, pay: Pay },
    Config { to: usize, by: String },
    Vote { pid: u64, yes: bool },
    Execute { pid: u64, by: String },
    Close { pid: u64 },
    Veto { pid: u64 },
    Withdraw { tok: Option<Tok>, by: String },
    Donate { tok: Tok },
    Approve { id: u64, by: String },
    Reject { id: u64, by: String },
    Ban { on: bool },
    /// the voting module's token becomes another one: 0 ujuno and the cw20, 1 uatom and no cw20, 2 none and a contract that is no token
    Own { to: u8 },
    Tick,
}
#[derive(Clone, Hash, Debug, PartialEq)]
struct DProp {
    proposer: String,
    dep: Dep,
    /// went through the pre-propose contract
    via: bool,
    fin: u8,
}
#[derive(Clone, Hash, Debug, PartialEq)]
struct Sub {
    proposer: String,
    dep: Dep,
    content: u64,
    /// 0 pending, 1 approved, 2 rejected
    state: u8,
    created: u64,
}
#[derive(Clone, Hash, Debug, PartialEq)]
struct DModel {
    cfg: usize,
    /// the terms in force
    dep: Dep,
    /// what the voting module is about
    own: u8,
    installed: bool,
    props: Vec<DProp>,
    subs: Vec<Sub>,
    bal: BTreeMap<(String, Tok), u128>,
    ticks: u8,
    /// alice may no longer submit
    banned: bool,
}
struct DepH {
    ban: bool,
    kind: Kind,
    cfgs: Vec<Dep>,
    pays: Vec<Pay>,
    who: Vec<&'static str>,
    bodies: Vec<bool>,
    max: usize,
    withdraw: bool,
    close_fail: bool,
    forge: bool,
    toks: Vec<Tok>,
    veto: bool,
    config: bool,
    /// a subscriber to submissions answers with a submission of its own
    copy: bool,
    /// terms name the voting module's token, which changes
    own: bool,
}
struct DW {
    sim: Sim,
    b: Base,
    copy: String,
}
impl DW {
    fn addr(&self, s: &str) -> String {
        match s {
            "dao" => self.b.core.clone(),
            "copy" => self.copy.clone(),
            s => s.to_string(),
        }
    }
}
impl DModel {
    fn give(&mut self, from: &str, to: &str, t: Tok, a: u128) -> bool {
        if a == 0 {
            return true;
        }
        let f = self.bal.entry((from.into(), t)).or_insert(0);
        if *f < a {
            return false;
        }
        *f -= a;
        *self.bal.entry((to.into(), t)).or_insert(0) += a;
        true
    }
}
impl DepH {
    fn funds(&self, d: &Dep, pay: Pay) -> Vec<Coin> {
        let (denom, amt) = match d {
            Some((Tok::Juno, a, _)) => ("ujuno", *a),
            Some((Tok::Atom, a, _)) => ("uatom", *a),
            _ => ("ujuno", 4),
        };
        let other = if denom == "ujuno" { "uatom" } else { "ujuno" };
        match pay {
            Pay::Exact => coins(amt, denom),
            Pay::Nothing => vec![],
            Pay::Less => coins(amt - 1, denom),
            Pay::More => coins(amt + 1, denom),
            Pay::Other => coins(amt, other),
            Pay::Both => {
                let mut v = vec![coin(amt, denom), coin(1, other)];
                v.sort_by(|a, b| a.denom.cmp(&b.denom));
                v
            }
        }
    }
    /// Reference settlement when proposal `i` reaches its end.
    fn settle(&self, m: &mut DModel, i: usize, code: u8) {
        m.props[i].fin = code;
        if !m.installed || !m.props[i].via {
            return;
        }
        if let Some((t, a, r)) = m.props[i].dep {
            let to = match (r, code) {
                (Refund::Always, _) => m.props[i].proposer.clone(),
                (Refund::OnlyPassed, EXEC) | (Refund::OnlyPassed, FAILED) => m.props[i].proposer.clone(),
                _ => "dao".to_string(),
            };
            if !m.give("pre", &to, t, a) {
                // nothing left to pay with (the DAO withdrew it): the contract fails and is dropped
                m.installed = false;
            }
        }
    }
}
impl Harness for DepH {
    type World = DW;
    type Model = DModel;
    type Op = DOp;
    fn setup(&self) -> (DW, DModel) {
        let mut sim = Sim::new();
        let b = base(&mut sim, self.kind, &self.cfgs[0], &PreProposeSubmissionPolicy::Anyone { denylist: vec![] }, &[("alice", 3), ("bob", 1)], self.close_fail);
        let mut copy = String::new();
        if self.copy {
            let pc = sim.store(puppet());
            copy = sim.init(pc, "env", &json!({}), &[], "copy").unwrap().to_string();
            sim.exec(&b.core, &b.pre, &json!({"add_proposal_submitted_hook": {"address": copy}}), &[]).unwrap();
            for d in ["ujuno", "uatom"] {
                sim.mint(&copy, 100, d);
            }
        }
        sim.seal();
        let mut bal = BTreeMap::new();
        if self.copy {
            bal.insert(("copy".to_string(), Tok::Juno), 100);
            bal.insert(("copy".to_string(), Tok::Atom), 100);
        }
        for a in RICH.iter().chain(["donor"].iter()) {
            for t in [Tok::Juno, Tok::Atom, Tok::Cw20] {
                bal.insert((a.to_string(), t), 100);
            }
        }
        (DW { sim, b, copy }, DModel { cfg: 0, dep: self.cfgs[0], own: 2, installed: true, props: vec![], subs: vec![], bal, ticks: 0, banned: false })
    }
    fn sim<'a>(&self, w: &'a mut DW) -> &'a mut Sim {
        &mut w.sim
    }
    fn ops(&self, m: &DModel) -> Vec<DOp> {
        let mut v = vec![];
        let made = if self.kind == Kind::Approval { m.subs.len() } else { m.props.len() };
        if made < self.max {
            for who in &self.who {
                for pay in &self.pays {
                    for boomy in &self.bodies {
                        v.push(DOp::Propose { who: who.to_string(), pay: *pay, boomy: *boomy });
                    }
                }
            }
            if self.copy && made + 2 <= self.max {
                for pay in [Pay::Exact, Pay::Nothing, Pay::Other] {
                    v.push(DOp::Echo { who: self.who[0].into(), pay });
                }
            }
        }
        if self.config {
            for to in 0..self.cfgs.len() {
                if to != m.cfg || self.own {
                    v.push(DOp::Config { to, by: "dao".into() });
                }
            }
            v.push(DOp::Config { to: (m.cfg + 1) % self.cfgs.len(), by: "eve".into() });
        }
        for (i, s) in m.subs.iter().enumerate() {
            let id = i as u64 + 1;
            if s.state == 0 {
                for by in ["appr", "alice", "dao"] {
                    v.push(DOp::Approve { id, by: by.into() });
                    v.push(DOp::Reject { id, by: by.into() });
                }
            } else {
                v.push(DOp::Approve { id, by: "appr".into() });
                v.push(DOp::Reject { id, by: "appr".into() });
            }
        }
        for (i, p) in m.props.iter().enumerate() {
            let pid = i as u64 + 1;
            if p.fin == 0 {
                v.push(DOp::Vote { pid, yes: true });
                v.push(DOp::Vote { pid, yes: false });
                if self.veto {
                    v.push(DOp::Veto { pid });
                }
            }
            v.push(DOp::Execute { pid, by: "vetoer".into() });
            v.push(DOp::Close { pid });
        }
        if self.withdraw {
            for t in [None, Some(Tok::Juno), Some(Tok::Cw20), Some(Tok::Atom)] {
                v.push(DOp::Withdraw { tok: t, by: "dao".into() });
            }
            for t in [None, Some(Tok::Juno)] {
                v.push(DOp::Withdraw { tok: t, by: "alice".into() });
            }
            for tok in &self.toks {
                v.push(DOp::Donate { tok: *tok });
            }
        }
        if self.own {
            for to in (0..3).filter(|x| *x != m.own) {
                v.push(DOp::Own { to });
            }
        }
        if self.ban {
            v.push(DOp::Ban { on: !m.banned });
        }
        if m.ticks < 4 && !m.props.is_empty() {
            v.push(DOp::Tick);
        }
        v
    }
    fn step(&self, w: &mut DW, m: &mut DModel, op: &DOp) -> VResult<String> {
        let b = &w.b;
        let addr = |s: &str| if s == "dao" { b.core.clone() } else { s.to_string() };
        let pre = b.pre.to_string();
        let module = b.module.to_string();
        let label;
        match op {
            DOp::Tick => {
                w.sim.advance(1, 5);
                m.ticks += 1;
                label = "tick".to_string();
            }
            DOp::Own { to } => {
                let (d, t) = match to {
                    0 => (json!("ujuno"), json!(b.token)),
                    1 => (json!("uatom"), Value::Null),
                    _ => (Value::Null, json!(b.target)),
                };
                w.sim.exec("env", &b.voting, &json!({ "denom": d }), &[]).unwrap();
                w.sim.exec("env", &b.voting, &json!({ "token_contract": t }), &[]).unwrap();
                m.own = *to;
                label = "voting token changed".to_string();
            }
            DOp::Ban { on } => {
                let (add, del) = if *on { (json!(["alice"]), Value::Null) } else { (Value::Null, json!(["alice"])) };
                let r = w.sim.exec(
                    &b.core,
                    &pre,
                    &json!({"update_submission_policy": {"denylist_add": add, "denylist_remove": del, "set_dao_members": null, "allowlist_add": null, "allowlist_remove": null}}),
                    &[],
                );
                ensure!(r.is_ok(), D1, "ban", "policy change: {:?}", r.err());
                m.banned = *on;
                label = format!("ban {}", on);
            }
            DOp::Donate { tok } => {
                let r = match tok {
                    Tok::Cw20 => w.sim.exec("donor", &b.token, &json!({"transfer": {"recipient": pre, "amount": "5"}}), &[]),
                    t => w.sim.exec_msgs(
                        "donor",
                        vec![cosmwasm_std::BankMsg::Send { to_address: pre, amount: coins(5, if *t == Tok::Juno { "ujuno" } else { "uatom" }) }.into()],
                    ),
                };
                let had = m.bal.get(&("donor".into(), *tok)).copied().unwrap_or(0) >= 5;
                ensure!(r.is_ok() == had, D1, "donate", "donation {:?}", r);
                m.give("donor", "pre", *tok, 5);
                label = "donation".to_string();
            }
            DOp::Config { to, by } => {
                let d = unchecked(&self.cfgs[*to], &b.token);
                let r = w.sim.exec(&addr(by), &pre, &json!({"update_config": {"deposit_info": d, "submission_policy": null}}), &[]);
                // what the new terms come to now, if anything
                let terms = match (self.cfgs[*to], m.own) {
                    (Some((_, 0, _)), _) => None,
                    (Some((Tok::OwnNative, a, r)), 0) => Some(Some((Tok::Juno, a, r))),
                    (Some((Tok::OwnNative, a, r)), 1) => Some(Some((Tok::Atom, a, r))),
                    (Some((Tok::OwnCw20, a, r)), 0) => Some(Some((Tok::Cw20, a, r))),
                    (Some((Tok::OwnNative | Tok::OwnCw20, ..)), _) => None,
                    (d, _) => Some(d),
                };
                let ok = by == "dao" && terms.is_some();
                ensure!(r.is_ok() == ok, D1, "config-authority", "deposit terms {:?} set by {} (voting token {}): {:?}", self.cfgs[*to], by, m.own, r.err());
                if ok {
                    m.cfg = *to;
                    m.dep = terms.unwrap();
                }
                label = format!("terms changed by {}: {}", by, r_word(ok));
            }
            DOp::Withdraw { tok, by } => {
                let t = tok.or(m.dep.map(|d| d.0));
                let amount = t.map(|t| m.bal.get(&("pre".into(), t)).copied().unwrap_or(0)).unwrap_or(0);
                let ok = by == "dao" && amount > 0;
                let d = tok.map(|t| denom_of(t, &b.token));
                let r = w.sim.exec(&addr(by), &pre, &json!({"withdraw": {"denom": d}}), &[]);
                ensure!(r.is_ok() == ok, D1, "withdraw", "withdrawal by {} of {:?} (held {}): {:?}", by, tok, amount, r.err());
                if ok {
                    m.give("pre", "dao", t.unwrap(), amount);
                }
                label = format!("withdrawal {}", r_word(ok));
            }
            DOp::Propose { who, pay, boomy } => {
                let d = m.dep;
                let funds = self.funds(&d, *pay);
                let enough = funds.iter().all(|c| {
                    let t = if c.denom == "ujuno" { Tok::Juno } else { Tok::Atom };
                    m.bal.get(&(who.clone(), t)).copied().unwrap_or(0) >= c.amount.u128()
                });
                let ok = enough
                    && !(m.banned && who == "alice")
                    && (m.installed || self.kind == Kind::Approval)
                    && match d {
                        None => true,
                        Some((Tok::Cw20, a, _)) => who == "alice" && m.bal[&(who.clone(), Tok::Cw20)] >= a,
                        Some(_) => *pay == Pay::Exact,
                    };
                let approval = self.kind == Kind::Approval;
                let content = if approval { 100 + m.subs.len() as u64 } else { m.props.len() as u64 + 1 };
                let n0 = b.count(&w.sim);
                let r = w.sim.exec(who, &pre, &b.propose(content, *boomy), &funds);
                ensure!(r.is_ok() == ok, D1, "propose", "submission by {} paying {:?} for {:?}: {:?}", who, funds, d, r.err());
                if ok {
                    for c in &funds {
                        m.give(who, "pre", if c.denom == "ujuno" { Tok::Juno } else { Tok::Atom }, c.amount.u128());
                    }
                    if let Some((Tok::Cw20, a, _)) = d {
                        m.give(who, "pre", Tok::Cw20, a);
                    }
                    if approval {
                        same!(b.count(&w.sim), n0, D3, "premature", "proposals after an unapproved submission");
                        m.subs.push(Sub { proposer: who.clone(), dep: d, content, state: 0, created: 0 });
                    } else {
                        same!(b.count(&w.sim), n0 + 1, D123, "created", "proposals after a submission");
                        m.props.push(DProp { proposer: who.clone(), dep: d, via: true, fin: 0 });
                    }
                }
                label = format!("submission {}", r_word(ok));
            }
            DOp::Echo { who, pay } => {
                let d = m.dep;
                let mut n = m.clone();
                let n0 = b.count(&w.sim);
                let mut ok = m.installed;
                for (by, pay) in [(who.as_str(), Pay::Exact), ("copy", *pay)] {
                    for c in &self.funds(&d, pay) {
                        ok &= n.give(by, "pre", if c.denom == "ujuno" { Tok::Juno } else { Tok::Atom }, c.amount.u128());
                    }
                    ok &= match d {
                        None => true,
                        Some((Tok::Cw20, a, _)) => by == "alice" && n.give(by, "pre", Tok::Cw20, a),
                        Some(_) => pay == Pay::Exact,
                    };
                    n.props.push(DProp { proposer: by.to_string(), dep: d, via: true, fin: 0 });
                }
                let m2 = cosmwasm_std::WasmMsg::Execute {
                    contract_addr: pre.clone(),
                    msg: cosmwasm_std::Binary(serde_json::to_vec(&b.propose(n0 + 2, false)).unwrap()),
                    funds: self.funds(&d, *pay),
                };
                puppet_set(&mut w.sim, &w.copy, json!({"react": [cosmwasm_std::CosmosMsg::<cosmwasm_std::Empty>::from(m2)]}));
                let r = w.sim.exec(who, &pre, &b.propose(n0 + 1, false), &self.funds(&d, Pay::Exact));
                ensure!(r.is_ok() == ok, D1, "echo", "submission by {} answered by one paying {:?} for {:?}: {:?}", who, pay, d, r.err());
                puppet_set(&mut w.sim, &w.copy, json!({"react": null, "log": null}));
                if ok {
                    same!(b.count(&w.sim), n0 + 2, D123, "echo-created", "proposals after two submissions");
                    *m = n;
                }
                label = format!("echoed submission {}", r_word(ok));
            }
            DOp::Approve { id, by } => {
                let i = *id as usize - 1;
                let ok = by == "appr" && m.subs[i].state == 0 && m.installed;
                let r = w.sim.exec(&addr(by), &pre, &json!({"extension": {"msg": {"approve": {"id": id}}}}), &[]);
                ensure!(r.is_ok() == ok, D3, "approve", "approval of {} by {} (state {}): {:?}", id, by, m.subs[i].state, r.err());
                if ok {
                    let s = m.subs[i].clone();
                    m.props.push(DProp { proposer: s.proposer, dep: s.dep, via: true, fin: 0 });
                    m.subs[i].state = 1;
                    m.subs[i].created = m.props.len() as u64;
                    same!(b.count(&w.sim), m.props.len() as u64, D3, "approve-count", "proposals after an approval");
                    let p = b.proposal(&w.sim, m.props.len() as u64);
                    same!(p["title"], json!(format!("t{}", m.subs[i].content)), D3, "approve-content", "title of the approved proposal");
                    same!(p["proposer"], json!(m.subs[i].proposer), D23, "approve-proposer", "proposer of the approved proposal");
                }
                label = format!("approval {}", r_word(ok));
            }
            DOp::Reject { id, by } => {
                let i = *id as usize - 1;
                let s = m.subs[i].clone();
                let mut n = m.clone();
                let mut ok = by == "appr" && s.state == 0;
                if ok {
                    n.subs[i].state = 2;
                    if let Some((t, a, r)) = s.dep {
                        let to = if r == Refund::Always { s.proposer.as_str() } else { "dao" };
                        ok = n.give("pre", to, t, a);
                    }
                }
                let r = w.sim.exec(&addr(by), &pre, &json!({"extension": {"msg": {"reject": {"id": id}}}}), &[]);
                ensure!(r.is_ok() == ok, D13, "reject", "rejection of {} by {} (state {}): {:?}", id, by, s.state, r.err());
                if ok {
                    *m = n;
                }
                label = format!("rejection {}", r_word(ok));
            }
            DOp::Vote { pid, yes } => {
                let r = w.sim.exec("alice", &module, &b.vote(*pid, *yes), &[]);
                label = format!("vote {}", r_word(r.is_ok()));
            }
            DOp::Execute { pid, by } => {
                let r = w.sim.exec(&addr(by), &module, &json!({"execute": {"proposal_id": pid}}), &[]);
                label = format!("execute {}", r_word(r.is_ok()));
            }
            DOp::Close { pid } => {
                let r = w.sim.exec("eve", &module, &json!({"close": {"proposal_id": pid}}), &[]);
                label = format!("close {}", r_word(r.is_ok()));
            }
            DOp::Veto { pid } => {
                let r = w.sim.exec("vetoer", &module, &json!({"veto": {"proposal_id": pid}}), &[]);
                label = format!("veto {}", r_word(r.is_ok()));
            }
        }
        // the proposal module decides outcomes (P01-P04); the deposit must follow
        for i in 0..m.props.len() {
            let c = final_code(&w.b.proposal(&w.sim, i as u64 + 1)["status"]);
            if c != m.props[i].fin {
                self.settle(m, i, c);
            }
        }
        Ok(label)
    }
    fn invariant(&self, w: &mut DW, m: &DModel) -> VResult {
        let b = &w.b;
        for t in [Tok::Juno, Tok::Atom, Tok::Cw20] {
            for who in ["alice", "bob", "eve", "donor", "pre", "dao", "appr", "vetoer", "copy"] {
                let a = match who {
                    "pre" => b.pre.to_string(),
                    x => w.addr(x),
                };
                if a.is_empty() {
                    continue;
                }
                same!(b.balance(&w.sim, &a, t), m.bal.get(&(who.to_string(), t)).copied().unwrap_or(0), D1, "balance", "{:?} held by {}", t, who);
            }
        }
        same!(b.installed(&w.sim), m.installed, D1, "installed", "pre-propose contract in use");
        for (i, p) in m.props.iter().enumerate() {
            let q = b.proposal(&w.sim, i as u64 + 1);
            same!(q["proposer"], json!(w.addr(&p.proposer)), D2, "proposer", "proposer of {}", i + 1);
            if p.via {
                let d: DepositInfoResponse = w.sim.query(&b.pre, &json!({"deposit_info": {"proposal_id": i + 1}})).unwrap();
                same!(d.proposer.to_string(), w.addr(&p.proposer), D1, "deposit-owner", "recorded depositor of {}", i + 1);
                let want = unchecked(&p.dep, &b.token);
                same!(d.deposit_info.as_ref().map(|d| d.amount), want.as_ref().map(|d| d.amount), D1, "deposit-terms", "recorded deposit of {}", i + 1);
                same!(
                    d.deposit_info.as_ref().map(|d| d.denom.to_string()),
                    p.dep.map(|(t, _, _)| match t {
                        Tok::Juno => "ujuno".to_string(),
                        Tok::Atom => "uatom".to_string(),
                        _ => b.token.to_string(),
                    }),
                    D1,
                    "deposit-token",
                    "recorded token of {}",
                    i + 1
                );
                same!(
                    d.deposit_info.as_ref().map(|d| d.refund_policy.clone()),
                    want.as_ref().map(|d| d.refund_policy.clone()),
                    D1,
                    "deposit-policy",
                    "recorded policy of {}",
                    i + 1
                );
            }
        }
        if self.kind == Kind::Approval {
            check_subs(&w.sim, b, &m.subs)?;
        }
        Ok(())
    }
    fn on_new_state(&self, w: &mut DW, m: &DModel) -> VResult {
        if !self.forge {
            return Ok(());
        }
        // forged and impossible completion notices are refused whatever the state
        let s = w.sim.snapshot();
        let pre = w.b.pre.clone();
        for i in 0..m.props.len() as u64 {
            for (who, st) in [("eve", "executed"), ("alice", "closed"), ("appr", "executed"), (w.b.core.as_str(), "executed"), (w.b.module.as_str(), "open"), (w.b.module.as_str(), "passed")] {
                let r = w.sim.exec(who, &pre, &json!({"proposal_completed_hook": {"proposal_id": i + 1, "new_status": st}}), &[]);
                ensure!(r.is_err(), D1, "forged", "completion notice ({}) from {} accepted", st, who);
            }
        }
        w.sim.restore(&s);
        Ok(())
    }
}
fn r_word(b: bool) -> &'static str {
    if b {
        "accepted"
    } else {
        "refused"
    }
}
/// The approval contract's view of every submission.
fn check_subs(sim: &Sim, b: &Base, subs: &[Sub]) -> VResult {
    let ext = |q: Value| json!({"query_extension": {"msg": q}});
    let view = |v: &Value| -> (u64, u8, String, String) {
        let st = match &v["status"] {
            s if s.get("pending").is_some() => 0,
            s if s.get("approved").is_some() => 1,
            s if s.get("rejected").is_some() => 2,
            _ => 9,
        };
        (v["approval_id"].as_u64().unwrap(), st, v["proposer"].as_str().unwrap().into(), v["msg"]["title"].as_str().unwrap().into())
    };
    let all: Vec<(u64, u8, String, String)> =
        subs.iter().enumerate().map(|(i, s)| (i as u64 + 1, s.state, s.proposer.clone(), format!("t{}", s.content))).collect();
    let lists: [(&str, &str, bool, bool); 4] = [
        ("pending_proposals", "start_after", true, false),
        ("reverse_pending_proposals", "start_before", true, true),
        ("completed_proposals", "start_after", false, false),
        ("reverse_completed_proposals", "start_before", false, true),
    ];
    for (q, cur, pending, rev) in lists {
        for start in std::iter::once(None).chain((0..=subs.len() as u64 + 1).map(Some)) {
            for limit in [None, Some(1u32)] {
                let r: Vec<Value> = sim.query(&b.pre, &ext(json!({q: {cur: start, "limit": limit}}))).unwrap();
                let got: Vec<_> = r.iter().map(view).collect();
                let mut want: Vec<_> = all
                    .iter()
                    .filter(|x| (x.1 == 0) == pending)
                    .filter(|x| start.map(|s| if rev { x.0 < s } else { x.0 > s }).unwrap_or(true))
                    .cloned()
                    .collect();
                if rev {
                    want.reverse();
                }
                want.truncate(limit.unwrap_or(u32::MAX) as usize);
                same!(got, want, D3, "listing", "{} after {:?} limit {:?}", q, start, limit);
            }
        }
    }
    for id in [0, subs.len() as u64 + 1] {
        for q in ["proposal", "pending_proposal", "completed_proposal", "is_pending"] {
            let r: Result<Value, String> = sim.query(&b.pre, &ext(json!({q: {"id": id}})));
            ensure!(r.is_err(), D3, "unknown", "{} of submission {}, which there never was: {:?}", q, id, r);
        }
    }
    for (i, s) in subs.iter().enumerate() {
        let id = i as u64 + 1;
        let p: bool = sim.query(&b.pre, &ext(json!({"is_pending": {"id": id}}))).unwrap();
        same!(p, s.state == 0, D3, "pending", "submission {} pending", id);
        let v: Value = sim.query(&b.pre, &ext(json!({"proposal": {"id": id}}))).unwrap();
        same!(view(&v), all[i], D3, "submission", "submission {}", id);
        same!(v["deposit"]["amount"], json!(s.dep.map(|d| d.1.to_string())), D13, "submission-deposit", "deposit of submission {}", id);
        let pend: Result<Value, String> = sim.query(&b.pre, &ext(json!({"pending_proposal": {"id": id}})));
        let comp: Result<Value, String> = sim.query(&b.pre, &ext(json!({"completed_proposal": {"id": id}})));
        ensure!(pend.is_ok() == (s.state == 0) && comp.is_ok() == (s.state != 0), D3, "one-of", "submission {} is in both or neither list", id);
        if s.state == 1 {
            same!(v["status"]["approved"]["created_proposal_id"], json!(s.created), D3, "created-id", "created proposal of submission {}", id);
            let c: Option<u64> = sim.query(&b.pre, &ext(json!({"completed_proposal_id_for_created_proposal_id": {"id": s.created}}))).unwrap();
            same!(c, Some(id), D3, "created-map", "submission of created proposal {}", s.created);
        }
    }
    Ok(())
}

// ================================================================ permissions (D02)
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Pol {
    Anyone(BTreeSet<String>),
    Specific(bool, BTreeSet<String>, BTreeSet<String>),
}
impl Pol {
    fn valid(&self) -> bool {
        match self {
            Pol::Anyone(_) => true,
            Pol::Specific(m, a, d) => a.is_disjoint(d) && (*m || !a.is_empty()),
        }
    }
    fn real(&self) -> PreProposeSubmissionPolicy {
        let l = |s: &BTreeSet<String>| s.iter().map(Addr::unchecked).collect::<Vec<_>>();
        match self {
            Pol::Anyone(d) => PreProposeSubmissionPolicy::Anyone { denylist: l(d) },
            Pol::Specific(m, a, d) => PreProposeSubmissionPolicy::Specific { dao_members: *m, allowlist: l(a), denylist: l(d) },
        }
    }
    fn of(p: &PreProposeSubmissionPolicy) -> Pol {
        let l = |s: &Vec<Addr>| s.iter().map(|a| a.to_string()).collect::<BTreeSet<_>>();
        match p {
            PreProposeSubmissionPolicy::Anyone { denylist } => Pol::Anyone(l(denylist)),
            PreProposeSubmissionPolicy::Specific { dao_members, allowlist, denylist } => Pol::Specific(*dao_members, l(allowlist), l(denylist)),
        }
    }
    fn allows(&self, who: &str, member: bool) -> bool {
        match self {
            Pol::Anyone(d) => !d.contains(who),
            Pol::Specific(m, a, d) => !d.contains(who) && (a.contains(who) || (*m && member)),
        }
    }
}
type L = Vec<&'static str>;
#[derive(Clone, Debug, Serialize, Deserialize)]
enum POp {
    Update { by: String, deny_add: Option<Vec<String>>, deny_rem: Option<Vec<String>>, members: Option<bool>, allow_add: Option<Vec<String>>, allow_rem: Option<Vec<String>> },
    Replace { by: String, policy: Option<Pol> },
    Power { who: String, power: u128 },
    /// the DAO stops (or resumes, with a fresh contract) using the pre-propose contract
    Open,
    Hook { by: String, add: bool },
    Tick,
}
#[derive(Clone, Hash, Debug, PartialEq)]
struct PModel {
    pol: Pol,
    installed: bool,
    now: u64,
    /// power at block start, and as set in the current block
    start: BTreeMap<String, u128>,
    cur: BTreeMap<String, u128>,
    hooks: bool,
}
struct PermH {
    kind: Kind,
    init: Pol,
    rich: bool,
    open: bool,
    /// policies name the system's own contracts
    own: bool,
    /// lists longer than any page, changed in one message
    many: bool,
}
/// The DAO, its proposal module and the pre-propose contract, as `base` comes to create them.
const OWN: [&str; 3] = ["contract2", "contract4", "contract5"];
const CROWD: [&str; 40] = [
    "w00", "w01", "w02", "w03", "w04", "w05", "w06", "w07", "w08", "w09", "w10", "w11", "w12", "w13", "w14", "w15", "w16", "w17", "w18", "w19", "w20",
    "w21", "w22", "w23", "w24", "w25", "w26", "w27", "w28", "w29", "w30", "w31", "w32", "w33", "w34", "w35", "w36", "w37", "w38", "w39",
];
const PEOPLE: [&str; 4] = ["alice", "bob", "eve", "carol"];
fn set(l: &[&str]) -> BTreeSet<String> {
    l.iter().map(|s| s.to_string()).collect()
}
impl Harness for PermH {
    type World = DW;
    type Model = PModel;
    type Op = POp;
    fn setup(&self) -> (DW, PModel) {
        let mut sim = Sim::new();
        let b = base(&mut sim, self.kind, &None, &self.init.real(), &[("alice", 3), ("bob", 0)], true);
        assert_eq!([b.core.as_str(), b.module.as_str(), b.pre.as_str()], OWN);
        sim.seal();
        let p: BTreeMap<String, u128> = [("alice".to_string(), 3), ("bob".to_string(), 0)].into();
        let now = sim.height();
        (DW { sim, b, copy: String::new() }, PModel { pol: self.init.clone(), installed: true, now, start: p.clone(), cur: p, hooks: false })
    }
    fn sim<'a>(&self, w: &'a mut DW) -> &'a mut Sim {
        &mut w.sim
    }
    fn ops(&self, m: &PModel) -> Vec<POp> {
        let mut v = vec![];
        let s = |l: &L| Some(l.iter().map(|x| x.to_string()).collect::<Vec<_>>());
        let mut up = |by: &str, da: Option<&L>, dr: Option<&L>, mm: Option<bool>, aa: Option<&L>, ar: Option<&L>| {
            v.push(POp::Update {
                by: by.into(),
                deny_add: da.and_then(s),
                deny_rem: dr.and_then(s),
                members: mm,
                allow_add: aa.and_then(s),
                allow_rem: ar.and_then(s),
            })
        };
        if self.own {
            for x in OWN.iter().map(|x| vec![*x]) {
                up("dao", Some(&x), None, None, None, None);
                up("dao", None, Some(&x), None, None, None);
                up("dao", None, None, None, Some(&x), None);
                up("dao", None, None, None, None, Some(&x));
            }
            up("dao", None, None, Some(true), None, None);
            up("dao", None, None, Some(false), None, None);
            for p in [Pol::Anyone(set(&[])), Pol::Specific(true, set(&[]), set(&[])), Pol::Specific(false, set(&OWN[..1]), set(&[])), Pol::Specific(true, set(&[]), set(&OWN))] {
                if p != m.pol {
                    v.push(POp::Replace { by: "dao".into(), policy: Some(p) });
                }
            }
            for who in OWN {
                v.push(POp::Power { who: who.into(), power: if m.cur.contains_key(who) { 0 } else { 1 } });
            }
            v.push(POp::Tick);
            return v;
        }
        if self.many {
            // people known by number; some of the named people come last
            let l = |a: usize, b: usize, who: &[&'static str]| -> L { CROWD[a..b].iter().chain(who).copied().collect() };
            let crowds: [L; 4] = [l(0, 36, &["bob", "eve"]), l(0, 36, &["bob"]), l(1, 37, &["eve"]), l(20, 40, &[])];
            for x in &crowds {
                up("dao", Some(x), None, None, None, None);
                up("dao", None, Some(x), None, None, None);
                up("dao", None, None, None, Some(x), None);
                up("dao", None, None, None, None, Some(x));
            }
            up("dao", Some(&crowds[0]), None, None, None, Some(&crowds[1]));
            up("dao", None, Some(&crowds[0]), None, Some(&crowds[2]), None);
            up("dao", None, None, Some(false), Some(&crowds[0]), Some(&crowds[2]));
            for p in [Pol::Anyone(set(&crowds[0])), Pol::Specific(true, set(&crowds[1]), set(&CROWD[36..38])), Pol::Specific(false, set(&crowds[1]), set(&crowds[0]))] {
                if p != m.pol {
                    v.push(POp::Replace { by: "dao".into(), policy: Some(p) });
                }
            }
            return v;
        }
        let (al, bo, ev, both): (L, L, L, L) = (vec!["alice"], vec!["bob"], vec!["eve"], vec!["eve", "bob", "eve"]);
        for x in [&al, &bo, &ev] {
            up("dao", Some(x), None, None, None, None);
            up("dao", None, Some(x), None, None, None);
            up("dao", None, None, None, Some(x), None);
            up("dao", None, None, None, None, Some(x));
        }
        up("dao", None, None, Some(true), None, None);
        up("dao", None, None, Some(false), None, None);
        up("dao", Some(&both), Some(&bo), None, None, None);
        up("dao", None, None, None, Some(&both), Some(&bo));
        up("dao", Some(&ev), None, None, None, Some(&ev));
        up("dao", None, Some(&ev), None, Some(&ev), None);
        up("dao", None, None, Some(false), Some(&bo), Some(&ev));
        up("dao", None, None, None, None, None);
        for by in ["alice", "appr", "module"] {
            up(by, None, None, None, Some(&ev), None);
            up(by, None, Some(&ev), None, None, None);
        }
        let pols = [
            Pol::Anyone(set(&[])),
            Pol::Anyone(set(&["eve"])),
            Pol::Specific(true, set(&[]), set(&[])),
            Pol::Specific(true, set(&["eve"]), set(&["alice"])),
            Pol::Specific(false, set(&["eve"]), set(&["bob"])),
            Pol::Specific(false, set(&[]), set(&["bob"])),
            Pol::Specific(true, set(&["eve", "bob"]), set(&["bob"])),
        ];
        for p in pols {
            if p != m.pol && (self.rich || !p.valid()) {
                v.push(POp::Replace { by: "dao".into(), policy: Some(p) });
            }
        }
        v.push(POp::Replace { by: "dao".into(), policy: None });
        v.push(POp::Replace { by: "alice".into(), policy: Some(Pol::Anyone(set(&[]))) });
        for (w, p) in [("bob", 2u128), ("bob", 0), ("alice", 0)] {
            v.push(POp::Power { who: w.into(), power: p });
        }
        if self.open && m.installed {
            v.push(POp::Open);
        }
        for by in ["dao", "alice", "appr"] {
            v.push(POp::Hook { by: by.into(), add: true });
            v.push(POp::Hook { by: by.into(), add: false });
        }
        v.push(POp::Tick);
        v
    }
    fn step(&self, w: &mut DW, m: &mut PModel, op: &POp) -> VResult<String> {
        let b = &w.b;
        let addr = |s: &str| match s {
            "dao" => b.core.clone(),
            "module" => b.module.to_string(),
            s => s.to_string(),
        };
        let pre = b.pre.to_string();
        match op {
            POp::Tick => {
                w.sim.advance(1, 5);
                m.now = w.sim.height();
                m.start = m.cur.clone();
                Ok("tick".into())
            }
            POp::Power { who, power } => {
                let v = b.voting.clone();
                set_powers(&mut w.sim, &v, &[(who.as_str(), *power)]);
                m.cur.insert(who.clone(), *power);
                Ok("membership change".into())
            }
            POp::Open => {
                let r = w.sim.exec(&b.core, &b.module, &json!({"update_pre_propose_info": {"info": {"anyone_may_propose": {}}}}), &[]);
                ensure!(r.is_ok(), D2, "open", "{:?}", r.err());
                m.installed = false;
                Ok("opened".into())
            }
            POp::Hook { by, add } => {
                let may = by == "dao" || (by == "appr" && self.kind == Kind::Approval);
                let ok = may && m.hooks != *add;
                let msg = if *add { json!({"add_proposal_submitted_hook": {"address": b.target}}) } else { json!({"remove_proposal_submitted_hook": {"address": b.target}}) };
                let r = w.sim.exec(&addr(by), &pre, &msg, &[]);
                ensure!(r.is_ok() == ok, D2, "hook", "{:?}: {:?}", op, r.err());
                if ok {
                    m.hooks = *add;
                }
                Ok(format!("subscription change {}", r_word(ok)))
            }
            POp::Replace { by, policy } => {
                let ok = by == "dao" && policy.as_ref().map(|p| p.valid()).unwrap_or(true);
                let r = w.sim.exec(&addr(by), &pre, &json!({"update_config": {"deposit_info": null, "submission_policy": policy.as_ref().map(|p| p.real())}}), &[]);
                ensure!(r.is_ok() == ok, D2, "replace", "policy {:?} by {}: {:?}", policy, by, r.err());
                if let (true, Some(p)) = (ok, policy) {
                    m.pol = p.clone();
                }
                Ok(format!("policy replacement {}", r_word(ok)))
            }
            POp::Update { by, deny_add, deny_rem, members, allow_add, allow_rem } => {
                let apply = |s: &BTreeSet<String>, add: &Option<Vec<String>>, rem: &Option<Vec<String>>| {
                    let mut s = s.clone();
                    s.extend(add.iter().flatten().cloned());
                    for r in rem.iter().flatten() {
                        s.remove(r);
                    }
                    s
                };
                let n = match &m.pol {
                    Pol::Anyone(d) if members.is_none() && allow_add.is_none() && allow_rem.is_none() => Some(Pol::Anyone(apply(d, deny_add, deny_rem))),
                    Pol::Anyone(_) => None,
                    Pol::Specific(mm, a, d) => Some(Pol::Specific(members.unwrap_or(*mm), apply(a, allow_add, allow_rem), apply(d, deny_add, deny_rem))),
                };
                let n = n.filter(|p| p.valid() && by == "dao");
                let r = w.sim.exec(
                    &addr(by),
                    &pre,
                    &json!({"update_submission_policy": {"denylist_add": deny_add, "denylist_remove": deny_rem, "set_dao_members": members, "allowlist_add": allow_add, "allowlist_remove": allow_rem}}),
                    &[],
                );
                ensure!(r.is_ok() == n.is_some(), D2, "update", "{:?} on {:?}: {:?}", op, m.pol, r.err());
                let ok = n.is_some();
                if let Some(n) = n {
                    m.pol = n;
                }
                Ok(format!("policy update {}", r_word(ok)))
            }
        }
    }
    fn invariant(&self, w: &mut DW, m: &PModel) -> VResult {
        let c: dao_pre_propose_base::state::Config = w.sim.query(&w.b.pre, &json!({"config": {}})).unwrap();
        same!(Pol::of(&c.submission_policy), m.pol, D2, "policy", "submission policy");
        ensure!(Pol::of(&c.submission_policy).valid(), D2, "invalid-policy", "accepted a contradictory policy {:?}", c.submission_policy);
        let h: Value = w.sim.query(&w.b.pre, &json!({"proposal_submitted_hooks": {}})).unwrap();
        same!(h["hooks"], if m.hooks { json!([w.b.target]) } else { json!([]) }, D2, "hooks", "submission subscribers");
        same!(w.b.installed(&w.sim), m.installed, D2, "installed", "module uses the pre-propose contract");
        Ok(())
    }
    /// Who can really submit, in every distinct state.
    fn on_new_state(&self, w: &mut DW, m: &PModel) -> VResult {
        let b = &w.b;
        let s0 = w.sim.snapshot();
        for who in PEOPLE.iter().map(|s| s.to_string()).chain(self.many.then(|| CROWD[34].to_string())).chain([b.core.clone(), b.module.to_string(), b.pre.to_string()].into_iter().take(if self.own { 3 } else { 1 })) {
            let member = m.start.get(&who).copied().unwrap_or(0) > 0;
            let want = m.pol.allows(&who, member);
            let can: bool = w.sim.query(&b.pre, &json!({"can_propose": {"address": who}})).unwrap();
            same!(can, want, D2, "can-propose", "can_propose for {} under {:?}", who, m.pol);
            let n0 = b.count(&w.sim);
            let r = w.sim.exec(&who, &b.pre, &b.propose(1, false), &[]);
            // once the module is open to anyone it refuses proposals made in somebody else's name
            let approval = self.kind == Kind::Approval;
            let lands = want && m.installed;
            let want = want && (m.installed || approval);
            ensure!(r.is_ok() == want, D2, "submit", "submission by {} under {:?} (member {}): {:?}", who, m.pol, member, r.err());
            if want {
                if approval {
                    let v: Value = w.sim.query(&b.pre, &json!({"query_extension": {"msg": {"pending_proposal": {"id": 1}}}})).unwrap();
                    same!(v["proposer"], json!(who), D2, "submitter", "recorded submitter");
                    let r = w.sim.exec("appr", &b.pre, &json!({"extension": {"msg": {"approve": {"id": 1}}}}), &[]);
                    ensure!(r.is_ok() == lands, D2, "submit-approve", "approval: {:?}", r.err());
                }
                same!(b.count(&w.sim), n0 + lands as u64, D2, "submit-count", "proposals after submission");
                if lands {
                    let p = b.proposal(&w.sim, n0 + 1);
                    same!(p["proposer"], json!(who), D2, "recorded-proposer", "recorded proposer");
                    b.says(&p, &b.content(1, false), D2)?;
                }
            }
            w.sim.restore(&s0);
            // a ballot cast along with the proposal counts as the submitter's own
            if m.installed {
                let mut msg = b.propose(1, false);
                msg["propose"]["msg"]["propose"]["vote"] = json!({"vote": b.vote(0, true)["vote"]["vote"], "rationale": "r"});
                let mut r = w.sim.exec(&who, &b.pre, &msg, &[]);
                if self.kind == Kind::Approval {
                    ensure!(r.is_ok() == want, D2, "ballot-submit", "submission with a ballot by {}: {:?}", who, r.err());
                    r = w.sim.exec("appr", &b.pre, &json!({"extension": {"msg": {"approve": {"id": 1}}}}), &[]);
                }
                ensure!(r.is_ok() == (want && member), D2, "ballot", "proposal with a ballot by {} (member {}): {:?}", who, member, r.err());
                if r.is_ok() {
                    let l: Value = w.sim.query(&b.module, &json!({"list_votes": {"proposal_id": n0 + 1}})).unwrap();
                    let got: Vec<(Value, Value, Value, Value)> =
                        l["votes"].as_array().unwrap().iter().map(|x| (x["voter"].clone(), x["power"].clone(), x["vote"].clone(), x["rationale"].clone())).collect();
                    let v = b.vote(0, true)["vote"]["vote"].clone();
                    same!(got, vec![(json!(who), json!(m.start[&who].to_string()), v, json!("r"))], D2, "ballot-owner", "ballots after the submission");
                }
                w.sim.restore(&s0);
            }
            for proposer in [None, Some("alice"), Some("carol")] {
                if who == b.pre && m.installed {
                    break;
                }
                let r = w.sim.exec(&who, &b.module, &b.direct(1, proposer), &[]);
                let want = !m.installed && proposer.is_none();
                ensure!(r.is_ok() == want, D2, "direct", "direct proposal by {} naming {:?} (module in use: {}): {:?}", who, proposer, m.installed, r.err());
                if want {
                    same!(b.proposal(&w.sim, n0 + 1)["proposer"], json!(who), D2, "direct-proposer", "recorded proposer");
                }
                w.sim.restore(&s0);
            }
        }
        Ok(())
    }
}

// ================================================================ approval (D03)
#[derive(Clone, Debug, Serialize, Deserialize)]
enum AOp {
    Submit { who: String },
    Approve { id: u64, by: String },
    Reject { id: u64, by: String },
    Approver { by: String, to: String },
    Vote2 { pid: u64, yes: bool },
    Execute2 { pid: u64 },
    Close2 { pid: u64 },
    Veto2 { pid: u64 },
    Reset { by: String },
    Vote { pid: u64, yes: bool },
    Execute { pid: u64 },
    Close { pid: u64 },
    Terms { to: usize },
    /// the approving contract answers an unrelated caller
    Spoof2 { pid: u64, by: String },
    Tick,
}
#[derive(Clone, Hash, Debug, PartialEq)]
struct AModel {
    subs: Vec<Sub>,
    props: Vec<DProp>,
    approver: String,
    /// approving DAO's proposals: submission id and final status
    p2: Vec<(u64, u8)>,
    /// the approving contract is told about new submissions
    linked: bool,
    cfg: usize,
    dao: u128,
    pre: u128,
    wallets: BTreeMap<String, u128>,
    ticks: u8,
}
struct ApprH {
    dao2: bool,
    cfgs: Vec<Dep>,
    max: usize,
    main_votes: bool,
    veto2: bool,
    who: Vec<&'static str>,
    reset: bool,
    tick: bool,
}
struct AW {
    sim: Sim,
    b: Base,
    core2: String,
    module2: String,
    approver: String,
}
impl ApprH {
    fn settle(m: &mut AModel, i: usize, code: u8) {
        m.props[i].fin = code;
        if let Some((_, a, r)) = m.props[i].dep {
            m.pre -= a;
            match (r, code) {
                (Refund::Always, _) | (Refund::OnlyPassed, EXEC) | (Refund::OnlyPassed, FAILED) => *m.wallets.get_mut(&m.props[i].proposer).unwrap() += a,
                _ => m.dao += a,
            }
        }
    }
    fn decide(m: &mut AModel, id: u64, approve: bool) {
        let i = id as usize - 1;
        let s = m.subs[i].clone();
        if approve {
            m.props.push(DProp { proposer: s.proposer, dep: s.dep, via: true, fin: 0 });
            m.subs[i].state = 1;
            m.subs[i].created = m.props.len() as u64;
        } else {
            m.subs[i].state = 2;
            if let Some((_, a, r)) = s.dep {
                m.pre -= a;
                if r == Refund::Always {
                    *m.wallets.get_mut(&s.proposer).unwrap() += a
                } else {
                    m.dao += a
                }
            }
        }
    }
    fn name(&self, w: &AW, s: &str) -> String {
        match s {
            "dao" => w.b.core.clone(),
            "dao2" => w.core2.clone(),
            "contract2" => w.approver.clone(),
            "module2" => w.module2.clone(),
            s => s.into(),
        }
    }
}
impl Harness for ApprH {
    type World = AW;
    type Model = AModel;
    type Op = AOp;
    fn setup(&self) -> (AW, AModel) {
        let mut sim = Sim::new();
        let b = base(&mut sim, Kind::Approval, &self.cfgs[0], &PreProposeSubmissionPolicy::Anyone { denylist: vec![] }, &[("alice", 3), ("bob", 1)], true);
        let (mut core2, mut module2, mut approver) = (String::new(), String::new(), String::new());
        if self.dao2 {
            let vc = sim.store(power_table());
            let pc = sim.store(puppet());
            let sc = sim.store(single_code());
            let ac = sim.store(pp_approver_code());
            let d2 = new_dao(&mut sim, power_module(vc, &[("carol", 1)]), vec![mii(pc, &json!({}), "plain")], None);
            sim.exec("appr", &b.pre, &json!({"extension": {"msg": {"update_approver": {"address": d2.core}}}}), &[]).unwrap();
            let info = json!({"module_may_propose": {"info": mii(ac, &json!({"pre_propose_approval_contract": b.pre}), "approver")}});
            let m = module_msg(Kind::Single, info, true);
            sim.exec(&d2.core, &d2.core, &json!({"update_proposal_modules": {"to_add": [mii(sc, &m, "module2")], "to_disable": []}}), &[]).unwrap();
            let mods: Vec<dao_interface::state::ProposalModule> = sim.query(&d2.core, &json!({"proposal_modules": {}})).unwrap();
            module2 = mods.iter().find(|x| x.prefix == "B").unwrap().address.to_string();
            core2 = d2.core.to_string();
            let pol: Value = sim.query(&module2, &json!({"proposal_creation_policy": {}})).unwrap();
            approver = pol["module"]["addr"].as_str().unwrap().to_string();
        }
        sim.seal();
        let m = AModel {
            subs: vec![],
            props: vec![],
            approver: if self.dao2 { "contract2".into() } else { "appr".into() },
            p2: vec![],
            linked: self.dao2,
            cfg: 0,
            dao: 0,
            pre: 0,
            wallets: RICH.iter().map(|a| (a.to_string(), 100)).collect(),
            ticks: 0,
        };
        (AW { sim, b, core2, module2, approver }, m)
    }
    fn sim<'a>(&self, w: &'a mut AW) -> &'a mut Sim {
        &mut w.sim
    }
    fn ops(&self, m: &AModel) -> Vec<AOp> {
        let mut v = vec![];
        if m.subs.len() < self.max {
            for who in &self.who {
                v.push(AOp::Submit { who: who.to_string() });
            }
        }
        let actors: Vec<&str> = if self.dao2 { vec!["contract2", "dao2", "appr", "module2"] } else { vec!["appr", "nappr", "alice", "dao"] };
        for id in 1..=(m.subs.len() as u64 + 1) {
            for by in &actors {
                // when a DAO approves, direct decisions by its contract happen only through votes
                if *by == "contract2" {
                    continue;
                }
                v.push(AOp::Approve { id, by: by.to_string() });
                v.push(AOp::Reject { id, by: by.to_string() });
            }
        }
        if !self.dao2 {
            for by in ["appr", "nappr", "alice", "dao"] {
                v.push(AOp::Approver { by: by.into(), to: if by == "appr" { "nappr".into() } else { "appr".into() } });
            }
        } else {
            for i in 0..m.p2.len() {
                let pid = i as u64 + 1;
                if m.p2[i].1 == 0 {
                    v.push(AOp::Vote2 { pid, yes: true });
                    v.push(AOp::Vote2 { pid, yes: false });
                    if self.veto2 {
                        v.push(AOp::Veto2 { pid });
                    }
                }
                v.push(AOp::Execute2 { pid });
                v.push(AOp::Close2 { pid });
                v.push(AOp::Spoof2 { pid, by: "carol".into() });
            }
            if self.reset {
                v.push(AOp::Reset { by: "dao2".into() });
                v.push(AOp::Reset { by: "carol".into() });
            }
        }
        if self.main_votes {
            for i in 0..m.props.len() {
                let pid = i as u64 + 1;
                if m.props[i].fin == 0 {
                    v.push(AOp::Vote { pid, yes: true });
                    v.push(AOp::Vote { pid, yes: false });
                    v.push(AOp::Execute { pid });
                    v.push(AOp::Close { pid });
                }
            }
        }
        for to in 0..self.cfgs.len() {
            if to != m.cfg {
                v.push(AOp::Terms { to });
            }
        }
        if self.tick && m.ticks < 4 && (!m.p2.is_empty() || !m.props.is_empty()) {
            v.push(AOp::Tick);
        }
        v
    }
    fn step(&self, w: &mut AW, m: &mut AModel, op: &AOp) -> VResult<String> {
        let pre = w.b.pre.to_string();
        let module = w.b.module.to_string();
        let module2 = w.module2.clone();
        let label = match op {
            AOp::Tick => {
                w.sim.advance(1, 5);
                m.ticks += 1;
                "tick".to_string()
            }
            AOp::Terms { to } => {
                let core = w.b.core.clone();
                let r = w.sim.exec(&core, &pre, &json!({"update_config": {"deposit_info": unchecked(&self.cfgs[*to], &w.b.token), "submission_policy": null}}), &[]);
                ensure!(r.is_ok(), D3, "terms", "{:?}", r.err());
                m.cfg = *to;
                "terms changed".into()
            }
            AOp::Submit { who } => {
                let dep = self.cfgs[m.cfg];
                let content = 100 + m.subs.len() as u64;
                let funds = dep.map(|d| coins(d.1, "ujuno")).unwrap_or_default();
                let r = w.sim.exec(who, &pre, &w.b.propose(content, false), &funds);
                ensure!(r.is_ok(), D3, "submit", "submission: {:?}", r.err());
                if let Some((_, a, _)) = dep {
                    *m.wallets.get_mut(who).unwrap() -= a;
                    m.pre += a;
                }
                m.subs.push(Sub { proposer: who.clone(), dep, content, state: 0, created: 0 });
                if m.linked {
                    m.p2.push((m.subs.len() as u64, 0));
                }
                "submission".into()
            }
            AOp::Approve { id, by } | AOp::Reject { id, by } => {
                let approve = matches!(op, AOp::Approve { .. });
                let pending = m.subs.get(*id as usize - 1).map(|s| s.state == 0).unwrap_or(false);
                let ok = *by == m.approver && pending;
                let a = self.name(w, by);
                let verb = if approve { "approve" } else { "reject" };
                let r = w.sim.exec(&a, &pre, &json!({"extension": {"msg": {verb: {"id": id}}}}), &[]);
                ensure!(r.is_ok() == ok, D3, "decide", "{:?} with approver {}: {:?}", op, m.approver, r.err());
                if ok {
                    Self::decide(m, *id, approve);
                }
                format!("{} {}", verb, r_word(ok))
            }
            AOp::Approver { by, to } => {
                let ok = *by == m.approver;
                let a = self.name(w, by);
                let r = w.sim.exec(&a, &pre, &json!({"extension": {"msg": {"update_approver": {"address": to}}}}), &[]);
                ensure!(r.is_ok() == ok, D3, "approver", "{:?} with approver {}: {:?}", op, m.approver, r.err());
                if ok {
                    m.approver = to.clone();
                }
                format!("approver change {}", r_word(ok))
            }
            AOp::Reset { by } => {
                let ok = by == "dao2" && m.approver == "contract2";
                let a = self.name(w, by);
                let approver = w.approver.clone();
                let r = w.sim.exec(&a, &approver, &json!({"extension": {"msg": {"reset_approver": {}}}}), &[]);
                ensure!(r.is_ok() == ok, D3, "reset", "{:?}: {:?}", op, r.err());
                if ok {
                    m.approver = "dao2".into();
                    m.linked = false;
                }
                format!("reset {}", r_word(ok))
            }
            AOp::Spoof2 { pid, by } => {
                let a = self.name(w, by);
                let approver = w.approver.clone();
                for msg in [
                    json!({"proposal_completed_hook": {"proposal_id": pid, "new_status": "executed"}}),
                    json!({"propose": {"msg": {"propose": {"title": "x", "description": "y", "approval_id": pid}}}}),
                    json!({"update_config": {"deposit_info": null, "submission_policy": null}}),
                ] {
                    let r = w.sim.exec(&a, &approver, &msg, &[]);
                    ensure!(r.is_err(), D3, "spoof", "{} by {} accepted", msg, by);
                }
                "spoof refused".into()
            }
            AOp::Vote2 { pid, yes } => {
                let v = json!({"vote": {"proposal_id": pid, "vote": if *yes { "yes" } else { "no" }, "rationale": null}});
                let r = w.sim.exec("carol", &module2, &v, &[]);
                format!("approver vote {}", r_word(r.is_ok()))
            }
            AOp::Execute2 { pid } => format!("approver execute {}", r_word(w.sim.exec("vetoer", &module2, &json!({"execute": {"proposal_id": pid}}), &[]).is_ok())),
            AOp::Close2 { pid } => format!("approver close {}", r_word(w.sim.exec("eve", &module2, &json!({"close": {"proposal_id": pid}}), &[]).is_ok())),
            AOp::Veto2 { pid } => format!("approver veto {}", r_word(w.sim.exec("vetoer", &module2, &json!({"veto": {"proposal_id": pid}}), &[]).is_ok())),
            AOp::Vote { pid, yes } => format!("vote {}", r_word(w.sim.exec("alice", &module, &w.b.vote(*pid, *yes), &[]).is_ok())),
            AOp::Execute { pid } => format!("execute {}", r_word(w.sim.exec("vetoer", &module, &json!({"execute": {"proposal_id": pid}}), &[]).is_ok())),
            AOp::Close { pid } => format!("close {}", r_word(w.sim.exec("eve", &module, &json!({"close": {"proposal_id": pid}}), &[]).is_ok())),
        };
        // outcomes of the approving DAO's votes decide submissions
        for i in 0..m.p2.len() {
            let v: Value = w.sim.query(&module2, &json!({"proposal": {"proposal_id": i + 1}})).map_err(|e| Violation::new(D3, "approver-proposal", e))?;
            same!(v["proposal"]["msgs"], json!([]), D3, "approver-msgs", "messages of the approval vote");
            let c = final_code(&v["proposal"]["status"]);
            if c != m.p2[i].1 {
                m.p2[i].1 = c;
                let id = m.p2[i].0;
                if m.linked && m.subs[id as usize - 1].state == 0 {
                    Self::decide(m, id, c == EXEC);
                }
            }
        }
        for i in 0..m.props.len() {
            let c = final_code(&w.b.proposal(&w.sim, i as u64 + 1)["status"]);
            if c != m.props[i].fin {
                Self::settle(m, i, c);
            }
        }
        Ok(label)
    }
    fn invariant(&self, w: &mut AW, m: &AModel) -> VResult {
        let b = &w.b;
        same!(b.count(&w.sim), m.props.len() as u64, D3, "count", "proposals in the main DAO");
        check_subs(&w.sim, b, &m.subs)?;
        let a: String = w.sim.query(&b.pre, &json!({"query_extension": {"msg": {"approver": {}}}})).unwrap();
        same!(a, self.name(w, &m.approver), D3, "approver-is", "approver");
        for s in m.subs.iter().filter(|s| s.state == 1) {
            let p = b.proposal(&w.sim, s.created);
            b.says(&p, &b.content(s.content, false), D3)?;
            same!(p["proposer"], json!(s.proposer), D3, "content-proposer", "proposer of the created proposal");
        }
        for (i, s) in m.subs.iter().enumerate() {
            let want = (s.state == 1 && m.props[s.created as usize - 1].fin == EXEC) as u64;
            same!(hits(&w.sim, &b.target, s.content), want, D3, "ran", "times submission {}'s messages ran", i + 1);
        }
        same!(w.sim.bal(&b.pre, "ujuno"), m.pre, D13, "held", "deposits held");
        same!(w.sim.bal(&b.core, "ujuno"), m.dao, D13, "dao", "deposits kept by the DAO");
        for (k, v) in &m.wallets {
            same!(w.sim.bal(k, "ujuno"), *v, D13, "wallet", "balance of {}", k);
        }
        if self.dao2 {
            let n: u64 = w.sim.query(&w.module2, &json!({"proposal_count": {}})).unwrap();
            same!(n, m.p2.len() as u64, D3, "approver-count", "approval votes");
            let pol: Value = w.sim.query(&w.module2, &json!({"proposal_creation_policy": {}})).unwrap();
            if m.approver == "contract2" {
                same!(pol["module"]["addr"], json!(w.approver), D3, "approver-installed", "approving contract still in use");
            }
            for (i, (id, _)) in m.p2.iter().enumerate() {
                // the approval vote is about what was submitted, and runs nothing itself
                let p: Value = w.sim.query(&w.module2, &json!({"proposal": {"proposal_id": i + 1}})).unwrap();
                let c = b.content(m.subs[*id as usize - 1].content, false);
                same!(p["proposal"]["title"], c["title"], D3, "approver-content", "title of an approval vote");
                same!(p["proposal"]["description"], c["description"], D3, "approver-content", "description of an approval vote");
                same!(p["proposal"]["msgs"], json!([]), D3, "approver-content", "messages of an approval vote");
                let ext = |q: Value| json!({"query_extension": {"msg": q}});
                let x: Option<u64> = w.sim.query(&w.approver, &ext(json!({"pre_propose_approval_id_for_approver_proposal_id": {"id": i + 1}}))).unwrap();
                let y: Option<u64> = w.sim.query(&w.approver, &ext(json!({"approver_proposal_id_for_pre_propose_approval_id": {"id": id}}))).unwrap();
                same!((x, y), (Some(*id), Some(i as u64 + 1)), D3, "approver-map", "link of vote {} and submission {}", i + 1, id);
            }
        }
        Ok(())
    }
}

fn plan(prop: &str, th: bool) -> Option<PropertyPlan> {
    use Refund::*;
    let q = |a: usize, b: usize| if th { b } else { a };
    let assumptions = vec![
        "the chain executes transactions atomically and in order (cw-multi-test semantics)",
        "proposal outcomes are taken from the real proposal module (decided by P01-P04); voting power comes from a reference power table",
    ];
    let kinds = [Kind::Single, Kind::Multiple, Kind::Approval];
    Some(match prop {
        "D01" => {
            let mut e = vec![];
            for kind in kinds {
                let appr = kind == Kind::Approval;
                let h = |cfgs: Vec<Dep>| DepH {
                    kind,
                    cfgs,
                    pays: vec![Pay::Exact],
                    who: vec!["alice"],
                    bodies: vec![false],
                    max: 1,
                    withdraw: false,
                    close_fail: true,
                    forge: true,
                    toks: vec![Tok::Juno],
                    veto: true,
                    config: true,
                    ban: false,
                    copy: false,
                    own: false,
                };
                // every refund policy and token through every outcome, terms changing underneath
                for (n, t) in [("native", Tok::Juno), ("cw20", Tok::Cw20)] {
                    let mut x = h(vec![Some((t, 10, Always)), Some((t, 7, OnlyPassed)), Some((t, 3, Never)), None]);
                    x.bodies = vec![false, true];
                    e.push(Entry::new(format!("{:?}-outcomes-{}", kind, n), x, if appr { q(7, 9) } else { q(8, 10) }));
                }
                // two deposits in flight under different terms and tokens
                let mut x = h(vec![Some((Tok::Juno, 10, Always)), Some((Tok::Cw20, 7, OnlyPassed)), Some((Tok::Atom, 3, Never))]);
                x.max = 2;
                x.forge = false;
                e.push(Entry::new(format!("{:?}-two", kind), x, if appr { q(6, 8) } else { q(7, 9) }));
                // wrong, excessive, mixed payments
                let mut x = h(vec![Some((Tok::Juno, 10, Always)), Some((Tok::Cw20, 7, OnlyPassed)), None]);
                x.pays = vec![Pay::Exact, Pay::Nothing, Pay::Less, Pay::More, Pay::Other, Pay::Both];
                x.who = vec!["alice", "eve"];
                x.veto = false;
                x.max = 2;
                e.push(Entry::new(format!("{:?}-payments", kind), x, q(4, 5)));
                // donations and the DAO's withdrawals
                let mut x = h(vec![Some((Tok::Juno, 10, Always)), Some((Tok::Cw20, 7, Always)), None]);
                x.withdraw = true;
                x.toks = vec![Tok::Juno, Tok::Cw20, Tok::Atom];
                x.veto = false;
                e.push(Entry::new(format!("{:?}-withdrawals", kind), x, q(6, 7)));
                // a depositor who may no longer submit is still owed what was agreed
                let mut x = h(vec![Some((Tok::Juno, 10, Always)), Some((Tok::Juno, 7, OnlyPassed))]);
                x.ban = true;
                x.bodies = vec![false, true];
                x.forge = false;
                e.push(Entry::new(format!("{:?}-bans", kind), x, if appr { q(7, 8) } else { q(7, 9) }));
                // terms that name the voting module's token, whatever that is at the time
                let mut x = h(vec![None, Some((Tok::OwnNative, 10, Always)), Some((Tok::OwnCw20, 7, Always)), Some((Tok::Juno, 0, Always))]);
                x.own = true;
                x.forge = false;
                x.veto = false;
                x.withdraw = false;
                e.push(Entry::new(format!("{:?}-own-token", kind), x, q(7, 9)));
                if !appr {
                    // a subscriber to submissions submits too before the first is over
                    let mut x = h(vec![Some((Tok::Juno, 10, Always)), Some((Tok::Cw20, 7, Never)), Some((Tok::Atom, 3, OnlyPassed)), None]);
                    x.copy = true;
                    x.max = 3;
                    x.forge = false;
                    x.veto = false;
                    e.push(Entry::new(format!("{:?}-echo", kind), x, q(5, 7)));
                    let mut x = h(vec![Some((Tok::Juno, 10, OnlyPassed))]);
                    x.close_fail = false;
                    x.config = false;
                    x.bodies = vec![true, false];
                    x.max = 2;
                    e.push(Entry::new(format!("{:?}-retry", kind), x, q(7, 9)));
                }
            }
            PropertyPlan {
                entries: e,
                rule: "breadth-first over all histories of submissions with every kind of payment, terms changes, votes, execute/close/veto, approvals, withdrawals and donations; all balances compared with a ledger after every step",
                assumptions,
            }
        }
        "D02" => {
            let mut e = vec![];
            for kind in kinds {
                for (n, init) in [("anyone", Pol::Anyone(set(&[]))), ("specific", Pol::Specific(true, set(&[]), set(&["eve"])))] {
                    e.push(Entry::new(format!("{:?}-{}", kind, n), PermH { kind, init, rich: true, open: n == "anyone", own: false, many: false }, q(4, 5)));
                }
            }
            for (n, init) in [("anyone", Pol::Anyone(set(&[]))), ("specific", Pol::Specific(true, set(&["eve"]), set(&["carol"])))] {
                e.push(Entry::new(format!("Multiple-crowd-{}", n), PermH { kind: Kind::Multiple, init, rich: true, open: false, own: false, many: true }, q(5, 6)));
            }
            e.push(Entry::new("Single-empty-members", PermH { kind: Kind::Single, init: Pol::Specific(false, set(&["bob"]), set(&[])), rich: false, open: false, own: false, many: false }, q(5, 6)));
            for kind in kinds {
                e.push(Entry::new(format!("{:?}-own", kind), PermH { kind, init: Pol::Anyone(set(&[])), rich: false, open: false, own: true, many: false }, q(3, 5)));
            }
            PropertyPlan {
                entries: e,
                rule: "breadth-first over all histories of policy updates and replacements, membership changes and blocks; in every distinct state every address tries to submit through the contract and directly",
                assumptions,
            }
        }
        "D03" => {
            let mut e = vec![];
            let h = |dao2: bool, cfgs: Vec<Dep>| ApprH { dao2, cfgs, max: 2, main_votes: false, veto2: true, who: vec!["alice", "eve"], reset: false, tick: true };
            let mut x = h(false, vec![None]);
            x.tick = false;
            e.push(Entry::new("account", x, q(7, 9)));
            let mut x = h(false, vec![Some((Tok::Juno, 10, Always)), Some((Tok::Juno, 7, OnlyPassed)), Some((Tok::Juno, 3, Never))]);
            x.main_votes = true;
            x.who = vec!["alice"];
            e.push(Entry::new("account-deposits", x, q(6, 8)));
            let mut x = h(true, vec![Some((Tok::Juno, 10, OnlyPassed)), None]);
            x.who = vec!["alice"];
            e.push(Entry::new("dao", x, q(7, 8)));
            let mut x = h(true, vec![Some((Tok::Juno, 10, Always))]);
            x.max = 1;
            x.who = vec!["eve"];
            x.main_votes = true;
            e.push(Entry::new("dao-one", x, q(10, 14)));
            let mut x = h(true, vec![Some((Tok::Juno, 10, Never))]);
            x.reset = true;
            x.who = vec!["alice"];
            e.push(Entry::new("dao-reset", x, q(7, 8)));
            PropertyPlan {
                entries: e,
                rule: "breadth-first over all histories of submissions, approvals and rejections by everyone, approver changes, approval votes with execute/close/veto in an approving DAO, and the created proposals' own life",
                assumptions,
            }
        }
        _ => return None,
    })
}
fn main() {
    let _ = Decimal::one();
    run_main(plan)
}
