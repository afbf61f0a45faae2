//! P03 life cycle, P04 vetoes, P05 ballots, P06 subscribers: histories of the real proposal modules
//! under a real DAO core, compared step by step with a reference model.
use cosmwasm_std::{Addr, CosmosMsg, Decimal};
use cw_utils::{Duration, Expiration};
use dao_voting::multiple_choice::{MultipleChoiceAutoVote, MultipleChoiceOption, MultipleChoiceOptions, MultipleChoiceVote, VotingStrategy};
use dao_voting::pre_propose::PreProposeInfo;
use dao_voting::proposal::{MultipleChoiceProposeMsg, SingleChoiceProposeMsg};
use dao_voting::status::Status;
use dao_voting::threshold::{PercentageThreshold as PT, Threshold};
use dao_voting::veto::VetoConfig;
use dao_voting::voting::{SingleChoiceAutoVote, Vote};
use mc::main_util::{run_main, Entry, PropertyPlan};
use mc::mocks::*;
use mc::rules::*;
use mc::sim::Sim;
use mc::{ensure, same, Harness, VResult, Violation};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;

const P03: &[&str] = &["P03"];
const P04: &[&str] = &["P04"];
const P05: &[&str] = &["P05"];
const P06: &[&str] = &["P06"];
const P034: &[&str] = &["P03", "P04"];
const P345: &[&str] = &["P03", "P04", "P05"];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Kind {
    Single,
    Multiple,
}

/// Everything the module can be configured with that the life cycle depends on.
#[derive(Clone, Debug, PartialEq, Hash)]
struct Cfg {
    quorum_pct: u64,
    only_members: bool,
    revoting: bool,
    close_fail: bool,
    min: bool,
    veto: Option<Veto>,
}
#[derive(Clone, Debug, PartialEq, Hash)]
struct Veto {
    early: bool,
    before: bool,
    vetoer: &'static str,
    lock: u64,
}
const BASE: Cfg = Cfg { quorum_pct: 30, only_members: true, revoting: false, close_fail: true, min: false, veto: None };
fn veto(early: bool, before: bool, lock: u64) -> Option<Veto> {
    Some(Veto { early, before, vetoer: "vetoer", lock })
}
/// periods in ticks (a tick is one block of five seconds)
const VOTING: u64 = 2;
const MINV: u64 = 1;

fn dur(ticks: u64, time: bool) -> Duration {
    if time {
        Duration::Time(ticks * 5)
    } else {
        Duration::Height(ticks)
    }
}
fn after(d: u64, time: bool, now: (u64, u64)) -> Expiration {
    dur(d, time).after(&cosmwasm_std::BlockInfo {
        height: now.0,
        time: cosmwasm_std::Timestamp::from_seconds(now.1),
        chain_id: String::new(),
    })
}
fn expired(e: &Expiration, now: (u64, u64)) -> bool {
    match e {
        Expiration::AtHeight(h) => now.0 >= *h,
        Expiration::AtTime(t) => now.1 >= t.seconds(),
        Expiration::Never {} => false,
    }
}
fn plus(e: &Expiration, ticks: u64, time: bool) -> Expiration {
    (*e + dur(ticks, time)).unwrap()
}

// ------------------------------------------------------------------- adapter over the two modules
struct PView {
    id: u64,
    proposer: String,
    status: Status,
    votes: Vec<u128>,
    total: u128,
    start: u64,
    exp: Expiration,
    min: Option<Expiration>,
    revoting: bool,
    veto: Option<VetoConfig>,
}
impl Kind {
    fn threshold(self, c: &Cfg) -> Threshold {
        Threshold::ThresholdQuorum { threshold: PT::Majority {}, quorum: PT::Percent(Decimal::percent(c.quorum_pct)) }
    }
    fn strategy(self, c: &Cfg) -> VotingStrategy {
        VotingStrategy::SingleChoice { quorum: PT::Percent(Decimal::percent(c.quorum_pct)) }
    }
    fn veto_cfg(c: &Cfg, time: bool) -> Option<VetoConfig> {
        c.veto.as_ref().map(|v| VetoConfig {
            timelock_duration: dur(v.lock, time),
            vetoer: v.vetoer.to_string(),
            early_execute: v.early,
            veto_before_passed: v.before,
        })
    }
    fn init(self, code: u64, c: &Cfg, time: bool, pre: PreProposeInfo) -> dao_interface::state::ModuleInstantiateInfo {
        match self {
            Kind::Single => mii(
                code,
                &dao_proposal_single::msg::InstantiateMsg {
                    threshold: self.threshold(c),
                    max_voting_period: dur(VOTING, time),
                    min_voting_period: c.min.then(|| dur(MINV, time)),
                    only_members_execute: c.only_members,
                    allow_revoting: c.revoting,
                    pre_propose_info: pre,
                    close_proposal_on_execution_failure: c.close_fail,
                    veto: Self::veto_cfg(c, time),
                },
                "single",
            ),
            Kind::Multiple => mii(
                code,
                &dao_proposal_multiple::msg::InstantiateMsg {
                    voting_strategy: self.strategy(c),
                    max_voting_period: dur(VOTING, time),
                    min_voting_period: c.min.then(|| dur(MINV, time)),
                    only_members_execute: c.only_members,
                    allow_revoting: c.revoting,
                    pre_propose_info: pre,
                    close_proposal_on_execution_failure: c.close_fail,
                    veto: Self::veto_cfg(c, time),
                },
                "multiple",
            ),
        }
    }
    fn update_config(self, c: &Cfg, time: bool, dao: &Addr) -> Value {
        match self {
            Kind::Single => serde_json::to_value(dao_proposal_single::msg::ExecuteMsg::UpdateConfig {
                threshold: self.threshold(c),
                max_voting_period: dur(VOTING, time),
                min_voting_period: c.min.then(|| dur(MINV, time)),
                only_members_execute: c.only_members,
                allow_revoting: c.revoting,
                dao: dao.to_string(),
                close_proposal_on_execution_failure: c.close_fail,
                veto: Self::veto_cfg(c, time),
            }),
            Kind::Multiple => serde_json::to_value(dao_proposal_multiple::msg::ExecuteMsg::UpdateConfig {
                voting_strategy: self.strategy(c),
                max_voting_period: dur(VOTING, time),
                min_voting_period: c.min.then(|| dur(MINV, time)),
                only_members_execute: c.only_members,
                allow_revoting: c.revoting,
                dao: dao.to_string(),
                close_proposal_on_execution_failure: c.close_fail,
                veto: Self::veto_cfg(c, time),
            }),
        }
        .unwrap()
    }
    fn propose(self, msgs: Vec<CosmosMsg>, alt: Vec<CosmosMsg>, proposer: Option<String>, auto: Option<u8>) -> Value {
        match self {
            Kind::Single => serde_json::to_value(dao_proposal_single::msg::ExecuteMsg::Propose(SingleChoiceProposeMsg {
                title: "t".into(),
                description: "d".into(),
                msgs,
                proposer,
                vote: auto.map(|c| SingleChoiceAutoVote { vote: single_vote(c), rationale: None }),
            })),
            Kind::Multiple => serde_json::to_value(dao_proposal_multiple::msg::ExecuteMsg::Propose(MultipleChoiceProposeMsg {
                title: "t".into(),
                description: "d".into(),
                choices: MultipleChoiceOptions {
                    options: vec![
                        MultipleChoiceOption { title: "c0".into(), description: "x".into(), msgs },
                        MultipleChoiceOption { title: "c1".into(), description: "x".into(), msgs: alt },
                    ],
                },
                proposer,
                vote: auto.map(|c| MultipleChoiceAutoVote { vote: MultipleChoiceVote { option_id: c as u32 }, rationale: None }),
            })),
        }
        .unwrap()
    }
    fn vote(self, pid: u64, c: u8) -> Value {
        match self {
            Kind::Single => serde_json::to_value(dao_proposal_single::msg::ExecuteMsg::Vote { proposal_id: pid, vote: single_vote(c), rationale: None }),
            Kind::Multiple => serde_json::to_value(dao_proposal_multiple::msg::ExecuteMsg::Vote {
                proposal_id: pid,
                vote: MultipleChoiceVote { option_id: c as u32 },
                rationale: None,
            }),
        }
        .unwrap()
    }
    fn view(self, r: ViewResp) -> PView {
        match r {
            ViewResp::S(r) => PView {
                id: r.id,
                proposer: r.proposal.proposer.to_string(),
                status: r.proposal.status,
                votes: vec![r.proposal.votes.yes.u128(), r.proposal.votes.no.u128(), r.proposal.votes.abstain.u128()],
                total: r.proposal.total_power.u128(),
                start: r.proposal.start_height,
                exp: r.proposal.expiration,
                min: r.proposal.min_voting_period,
                revoting: r.proposal.allow_revoting,
                veto: r.proposal.veto,
            },
            ViewResp::M(r) => PView {
                id: r.id,
                proposer: r.proposal.proposer.to_string(),
                status: r.proposal.status,
                votes: r.proposal.votes.vote_weights.iter().map(|x| x.u128()).collect(),
                total: r.proposal.total_power.u128(),
                start: r.proposal.start_height,
                exp: r.proposal.expiration,
                min: r.proposal.min_voting_period,
                revoting: r.proposal.allow_revoting,
                veto: r.proposal.veto,
            },
        }
    }
    fn get(self, sim: &Sim, m: &Addr, pid: u64) -> Result<PView, String> {
        let q = json!({"proposal": {"proposal_id": pid}});
        Ok(match self {
            Kind::Single => self.view(ViewResp::S(sim.query(m, &q)?)),
            Kind::Multiple => self.view(ViewResp::M(sim.query(m, &q)?)),
        })
    }
    /// (id, status) in listing order
    fn list(self, sim: &Sim, m: &Addr, q: Value) -> Result<Vec<PView>, String> {
        Ok(match self {
            Kind::Single => {
                let r: dao_proposal_single::query::ProposalListResponse = sim.query(m, &q)?;
                r.proposals.into_iter().map(|p| self.view(ViewResp::S(p))).collect()
            }
            Kind::Multiple => {
                let r: dao_proposal_multiple::query::ProposalListResponse = sim.query(m, &q)?;
                r.proposals.into_iter().map(|p| self.view(ViewResp::M(p))).collect()
            }
        })
    }
    /// voter -> (choice, power)
    fn ballot_json(self, v: &Value) -> (String, u8, u128) {
        let c = match self {
            Kind::Single => match v["vote"].as_str().unwrap() {
                "yes" => 0,
                "no" => 1,
                _ => 2,
            },
            Kind::Multiple => v["vote"]["option_id"].as_u64().unwrap() as u8,
        };
        (v["voter"].as_str().unwrap().to_string(), c, v["power"].as_str().unwrap().parse().unwrap())
    }
    /// final verdict: winner choice if passed
    fn verdict(self, c: &Cfg, v: &[u128], total: u128) -> Option<Option<usize>> {
        match self {
            Kind::Single => single_rule(&self.threshold(c), v[0], v[1], v[2], total).map(|b| b.then_some(0)),
            Kind::Multiple => multi_rule(&PT::Percent(Decimal::percent(c.quorum_pct)), v, total),
        }
    }
}
enum ViewResp {
    S(dao_proposal_single::query::ProposalResponse),
    M(dao_proposal_multiple::query::ProposalResponse),
}
fn single_vote(c: u8) -> Vote {
    match c {
        0 => Vote::Yes,
        1 => Vote::No,
        _ => Vote::Abstain,
    }
}

// ------------------------------------------------------------------- H1: life cycle
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Body {
    Hit,
    Boom,    // [hit, boom]
    Empty,
    Reenter, // [hit, execute itself]
    Nest,    // [execute the other proposal, hit]
    Flaky,   // [hit, something that fails while the environment is broken]
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Who {
    Alice,
    Bob,
    Carol,
    Eve,
    Vetoer,
}
impl Who {
    fn s(self) -> &'static str {
        match self {
            Who::Alice => "alice",
            Who::Bob => "bob",
            Who::Carol => "carol",
            Who::Eve => "eve",
            Who::Vetoer => "vetoer",
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum LOp {
    Propose { who: Who, body: Body, auto: Option<u8> },
    Vote { who: Who, pid: u64, choice: u8 },
    Rationale { who: Who, pid: u64 },
    Execute { who: Who, pid: u64 },
    Close { who: Who, pid: u64 },
    Veto { who: Who, pid: u64 },
    Tick,
    /// alice's stake moves to eve, or back
    Sell,
    Reconf { to: usize, by_dao: bool },
    /// what flaky messages depend on breaks or is mended
    Environment,
}
#[derive(Clone, Hash, PartialEq, Debug)]
struct Prop {
    proposer: &'static str,
    body: Body,
    cfg: Cfg, // as recorded at creation
    start: u64,
    powers: BTreeMap<&'static str, u128>,
    total: u128,
    exp: (u8, u64),
    ballots: BTreeMap<&'static str, u8>,
    fin: Option<u8>, // 0 executed 1 closed 2 vetoed 3 execution failed
    /// outcome already reported before expiry: Some(Some(w)) passed / Some(None) rejected
    reported: Option<bool>,
    execs: u64,
}
#[derive(Clone, Hash, PartialEq, Debug)]
struct LModel {
    now: (u64, u64),
    cfg: usize,
    cur: BTreeMap<&'static str, u128>,
    block_start: BTreeMap<&'static str, u128>,
    props: Vec<Prop>,
    sold: bool,
    broken: bool,
}
struct Life {
    kind: Kind,
    time: bool,
    cfgs: Vec<Cfg>,
    bodies: Vec<Body>,
    max_props: usize,
    voters: Vec<Who>,
    choices: Vec<u8>,
    executors: Vec<Who>,
    sell: bool,
    autos: Vec<Option<u8>>,
    proposers: Vec<Who>,
    /// proposals that already exist; the ids below count from the first one after them
    off: u64,
}
struct LWorld {
    sim: Sim,
    dao: Dao,
    target: Addr,
}
fn exp_key(e: &Expiration) -> (u8, u64) {
    match e {
        Expiration::AtHeight(h) => (0, *h),
        Expiration::AtTime(t) => (1, t.seconds()),
        Expiration::Never {} => (2, 0),
    }
}
fn key_exp(k: (u8, u64)) -> Expiration {
    match k.0 {
        0 => Expiration::AtHeight(k.1),
        1 => Expiration::AtTime(cosmwasm_std::Timestamp::from_seconds(k.1)),
        _ => Expiration::Never {},
    }
}
impl Prop {
    fn tally(&self) -> Vec<u128> {
        let mut v = vec![0u128; 3];
        for (w, c) in &self.ballots {
            v[*c as usize] += self.powers[w];
        }
        v
    }
    fn min(&self, time: bool, created: (u64, u64)) -> Option<Expiration> {
        self.cfg.min.then(|| after(MINV, time, created))
    }
}
fn comps(r: u128) -> Vec<[u128; 3]> {
    let mut out = vec![];
    for a in 0..=r {
        for b in 0..=r - a {
            for c in 0..=r - a - b {
                out.push([a, b, c]);
            }
        }
    }
    out
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Open,
    Passed,
    Rejected,
    Timelock(Expiration),
    Executed,
    Closed,
    Vetoed,
    Failed,
}
fn st(s: Status) -> St {
    match s {
        Status::Open => St::Open,
        Status::Passed => St::Passed,
        Status::Rejected => St::Rejected,
        Status::VetoTimelock { expiration } => St::Timelock(expiration),
        Status::Executed => St::Executed,
        Status::Closed => St::Closed,
        Status::Vetoed => St::Vetoed,
        Status::ExecutionFailed => St::Failed,
    }
}
impl Life {
    /// the status the property demands, given whether the code has (soundly) decided early
    fn judge(&self, p: &Prop, now: (u64, u64), actual: St) -> VResult<St> {
        if let Some(f) = p.fin {
            return Ok(match f {
                0 => St::Executed,
                1 => St::Closed,
                2 => St::Vetoed,
                _ => St::Failed,
            });
        }
        let exp = key_exp(p.exp);
        let lock = |_w: usize| -> St {
            match &p.cfg.veto {
                Some(v) => {
                    let e = plus(&exp, v.lock, self.time);
                    if expired(&e, now) {
                        St::Passed
                    } else {
                        St::Timelock(e)
                    }
                }
                None => St::Passed,
            }
        };
        let t = p.tally();
        if expired(&exp, now) {
            return Ok(match self.kind.verdict(&p.cfg, &t, p.total).expect("grid avoids rounding boundaries") {
                Some(w) => lock(w),
                None => St::Rejected,
            });
        }
        if actual == St::Open {
            ensure!(p.reported.is_none(), P03, "outcome-flipped", "reported outcome {:?} became open again", p.reported);
            return Ok(St::Open);
        }
        let passed = match actual {
            St::Passed | St::Timelock(_) => true,
            St::Rejected => false,
            s => return Err(Violation::new(P034, "final-without-cause", format!("status {:?} although nobody acted", s))),
        };
        ensure!(!p.cfg.revoting, P03, "early-with-revoting", "{:?} before expiry although ballots may be changed", actual);
        if let Some(r) = p.reported {
            ensure!(r == passed, P03, "outcome-flipped", "reported {} then {:?}", r, actual);
        }
        if passed && p.cfg.min {
            let m = after(MINV, self.time, self.created(p));
            ensure!(expired(&m, now), P03, "passed-before-min-period", "{:?} before the minimum voting period", actual);
        }
        let rest = p.total - t.iter().sum::<u128>();
        for c in comps(rest) {
            let f: Vec<u128> = (0..3).map(|i| t[i] + c[i]).collect();
            let v = self.kind.verdict(&p.cfg, &f, p.total).unwrap();
            ensure!(v.is_some() == passed, P03, "early-verdict-overturned", "{:?} at {:?} but {:?} decides otherwise", actual, t, f);
        }
        Ok(if passed { lock(0) } else { St::Rejected })
    }
    fn created(&self, p: &Prop) -> (u64, u64) {
        (p.start, mc::sim::T0 + (p.start - mc::sim::H0) * 5)
    }
    fn module<'a>(&self, w: &'a LWorld) -> &'a Addr {
        &w.dao.proposals[0]
    }
    fn body_msgs(&self, w: &LWorld, body: Body, id: u64) -> Vec<CosmosMsg> {
        let m = self.module(w);
        match body {
            Body::Hit => vec![hit(&w.target, id)],
            Body::Boom => vec![hit(&w.target, id), boom(&w.target)],
            Body::Empty => vec![],
            Body::Reenter => vec![hit(&w.target, id), wasm_exec(m, &json!({"execute": {"proposal_id": self.off + id}}))],
            Body::Flaky => vec![hit(&w.target, id), wasm_exec(&w.target, &json!({"ping": {}}))],
            Body::Nest => vec![wasm_exec(m, &json!({"execute": {"proposal_id": self.off + 3 - id}})), hit(&w.target, id)],
        }
    }
    /// reference semantics of Execute; true = accepted
    fn ref_execute(&self, m: &mut LModel, sts: &[St], who: &str, pid: u64, depth: u8) -> bool {
        let i = match (pid as usize).checked_sub(1) {
            Some(i) if i < m.props.len() => i,
            _ => return false,
        };
        let live = &self.cfgs[m.cfg];
        let member = m.props[i].powers.get(who).copied().unwrap_or(0) > 0;
        let s = if m.props[i].fin.is_some() { St::Executed } else { sts[i] };
        let may = match s {
            St::Passed => !live.only_members || member,
            St::Timelock(_) => m.props[i].cfg.veto.as_ref().map(|v| v.early && v.vetoer == who).unwrap_or(false),
            _ => false,
        };
        if !may || depth > 3 {
            return false;
        }
        let winner = self.kind.verdict(&m.props[i].cfg, &m.props[i].tally(), m.props[i].total).unwrap();
        let backup = m.clone();
        m.props[i].fin = Some(0);
        let ok = match (winner, m.props[i].body) {
            (Some(1), _) => {
                m.props[i].execs += 1000; // the alternative's message
                true
            }
            (_, Body::Hit) => {
                m.props[i].execs += 1;
                true
            }
            (_, Body::Empty) => true,
            (_, Body::Boom) | (_, Body::Reenter) => false,
            (_, Body::Flaky) => {
                if !m.broken {
                    m.props[i].execs += 1;
                }
                !m.broken
            }
            (_, Body::Nest) => {
                let r = self.ref_execute(m, sts, "dao", 3 - pid, depth + 1);
                if r {
                    m.props[i].execs += 1;
                }
                r
            }
        };
        if ok {
            true
        } else if live.close_fail {
            *m = backup;
            m.props[i].fin = Some(3);
            true
        } else {
            *m = backup;
            false
        }
    }
    fn statuses(&self, w: &LWorld, m: &LModel) -> VResult<Vec<St>> {
        (1..=m.props.len() as u64)
            .map(|i| self.kind.get(&w.sim, self.module(w), self.off + i).map(|v| st(v.status)).map_err(|e| Violation::new(P345, "query-failed", e)))
            .collect()
    }
}
impl Harness for Life {
    type World = LWorld;
    type Model = LModel;
    type Op = LOp;
    fn setup(&self) -> (LWorld, LModel) {
        let mut sim = Sim::new();
        let pt = sim.store(power_table());
        let sc = sim.store(if self.kind == Kind::Single { single_code() } else { multiple_code() });
        let pp = sim.store(puppet());
        let target = sim.init(pp, "env", &json!({}), &[], "target").unwrap();
        let powers = [("alice", 2u128), ("bob", 1), ("carol", 1)];
        let dao = new_dao(
            &mut sim,
            power_module(pt, &powers),
            vec![self.kind.init(sc, &self.cfgs[0], self.time, PreProposeInfo::AnyoneMayPropose {})],
            None,
        );
        for _ in 0..self.off {
            sim.exec("eve", &dao.proposals[0], &self.kind.propose(vec![], vec![], None, None), &[]).unwrap();
        }
        sim.seal();
        let cur: BTreeMap<&'static str, u128> = powers.into_iter().collect();
        let m = LModel { now: (sim.height(), sim.time()), cfg: 0, block_start: cur.clone(), cur, props: vec![], sold: false, broken: false };
        (LWorld { sim, dao, target }, m)
    }
    fn sim<'a>(&self, w: &'a mut LWorld) -> &'a mut Sim {
        &mut w.sim
    }
    fn ops(&self, m: &LModel) -> Vec<LOp> {
        let mut v = vec![LOp::Tick];
        if m.props.len() < self.max_props {
            for who in &self.proposers {
                for body in &self.bodies {
                    for auto in &self.autos {
                        v.push(LOp::Propose { who: *who, body: *body, auto: *auto });
                    }
                }
            }
        }
        for pid in 1..=m.props.len() as u64 {
            for who in &self.voters {
                for c in &self.choices {
                    v.push(LOp::Vote { who: *who, pid, choice: *c });
                }
            }
            for who in &self.executors {
                v.push(LOp::Execute { who: *who, pid });
            }
            v.push(LOp::Close { who: Who::Eve, pid });
            if self.cfgs.iter().any(|c| c.veto.is_some()) {
                v.push(LOp::Veto { who: Who::Vetoer, pid });
                v.push(LOp::Veto { who: Who::Alice, pid });
            }
            v.push(LOp::Rationale { who: Who::Alice, pid });
        }
        if self.sell {
            v.push(LOp::Sell);
        }
        if self.bodies.contains(&Body::Flaky) {
            v.push(LOp::Environment);
        }
        for to in 0..self.cfgs.len() {
            if to != m.cfg {
                v.push(LOp::Reconf { to, by_dao: true });
            }
        }
        if self.cfgs.len() > 1 {
            v.push(LOp::Reconf { to: (m.cfg + 1) % self.cfgs.len(), by_dao: false });
        }
        v
    }
    fn step(&self, w: &mut LWorld, m: &mut LModel, op: &LOp) -> VResult<String> {
        let module = self.module(w).clone();
        let core = w.dao.core.clone();
        let sts = self.statuses(w, m)?;
        match op {
            LOp::Tick => {
                w.sim.advance(1, 5);
                m.now = (m.now.0 + 1, m.now.1 + 5);
                m.block_start = m.cur.clone();
                Ok("tick".into())
            }
            LOp::Sell => {
                let (a, e) = if m.sold { (2u128, 0u128) } else { (0, 2) };
                set_powers(&mut w.sim, &w.dao.voting.clone(), &[("alice", a), ("eve", e)]);
                m.cur.insert("alice", a);
                m.cur.insert("eve", e);
                m.sold = !m.sold;
                Ok("power moved".into())
            }
            LOp::Environment => {
                m.broken = !m.broken;
                let t = w.target.clone();
                w.sim.exec("env", &t, &json!({"puppet": {"set": {"fail": m.broken}}}), &[]).unwrap();
                Ok(if m.broken { "environment breaks" } else { "environment mended" }.into())
            }
            LOp::Reconf { to, by_dao } => {
                let msg = self.kind.update_config(&self.cfgs[*to], self.time, &core);
                let r = w.sim.exec(if *by_dao { core.as_str() } else { "alice" }, &module, &msg, &[]);
                same!(r.is_ok(), *by_dao, P345, "reconfigure", "update config by_dao={} {:?}", by_dao, r.err());
                if *by_dao {
                    m.cfg = *to;
                }
                Ok("reconfigure".into())
            }
            LOp::Propose { who, body, auto } => {
                let id = m.props.len() as u64 + 1;
                let msgs = self.body_msgs(w, *body, id);
                let alt = vec![hit(&w.target, 100 + id)];
                let r = w.sim.exec(who.s(), &module, &self.kind.propose(msgs, alt, None, *auto), &[]);
                let power = m.block_start.get(who.s()).copied().unwrap_or(0);
                let want = auto.is_none() || power > 0;
                same!(r.is_ok(), want, P345, "propose", "{:?} power {} {:?}", op, power, r.err());
                if want {
                    let cfg = self.cfgs[m.cfg].clone();
                    let mut ballots = BTreeMap::new();
                    if let Some(c) = auto {
                        ballots.insert(who.s(), *c);
                    }
                    m.props.push(Prop {
                        proposer: who.s(),
                        body: *body,
                        start: m.now.0,
                        powers: m.block_start.clone(),
                        total: m.block_start.values().sum(),
                        exp: exp_key(&after(VOTING, self.time, m.now)),
                        cfg,
                        ballots,
                        fin: None,
                        reported: None,
                        execs: 0,
                    });
                }
                Ok(format!("propose {}", want))
            }
            LOp::Vote { who, pid, choice } => {
                let p = &mut m.props[*pid as usize - 1];
                let power = p.powers.get(who.s()).copied().unwrap_or(0);
                let want = !expired(&key_exp(p.exp), m.now)
                    && power > 0
                    && match p.ballots.get(who.s()) {
                        None => true,
                        Some(c) => p.cfg.revoting && c != choice,
                    };
                let r = w.sim.exec(who.s(), &module, &self.kind.vote(self.off + *pid, *choice), &[]);
                same!(r.is_ok(), want, P05, "vote-acceptance", "{:?} {:?}", op, r.err());
                if want {
                    p.ballots.insert(who.s(), *choice);
                }
                Ok(format!("vote {}", want))
            }
            LOp::Rationale { who, pid } => {
                let p = &m.props[*pid as usize - 1];
                let want = p.ballots.contains_key(who.s());
                let r = w.sim.exec(who.s(), &module, &json!({"update_rationale": {"proposal_id": self.off + pid, "rationale": "because"}}), &[]);
                same!(r.is_ok(), want, P05, "rationale", "{:?}", op);
                Ok(format!("rationale {}", want))
            }
            LOp::Execute { who, pid } => {
                let was = sts[*pid as usize - 1];
                let mut m2 = m.clone();
                let want = self.ref_execute(&mut m2, &sts, who.s(), *pid, 0);
                let r = w.sim.exec(who.s(), &module, &json!({"execute": {"proposal_id": self.off + pid}}), &[]);
                let p = &m.props[*pid as usize - 1];
                let props = if p.cfg.veto.is_some() { P034 } else { P03 };
                same!(r.is_ok(), want, props, "execute-acceptance", "{:?} in status {:?} {:?}", op, was, r.err());
                if want {
                    *m = m2;
                }
                let lab = match was {
                    St::Timelock(_) => "timelock".to_string(),
                    s => format!("{:?}", s),
                };
                Ok(format!("execute {} from {} -> {:?}", want, lab, m.props[*pid as usize - 1].fin))
            }
            LOp::Close { who, pid } => {
                let was = sts[*pid as usize - 1];
                let want = was == St::Rejected;
                let r = w.sim.exec(who.s(), &module, &json!({"close": {"proposal_id": self.off + pid}}), &[]);
                same!(r.is_ok(), want, P03, "close-acceptance", "close in status {:?} {:?}", was, r.err());
                if want {
                    m.props[*pid as usize - 1].fin = Some(1);
                }
                Ok(format!("close {}", want))
            }
            LOp::Veto { who, pid } => {
                let p = &mut m.props[*pid as usize - 1];
                let was = sts[*pid as usize - 1];
                let want = match &p.cfg.veto {
                    Some(v) if v.vetoer == who.s() => match was {
                        St::Timelock(_) => true,
                        St::Open => v.before,
                        _ => false,
                    },
                    _ => false,
                };
                let r = w.sim.exec(who.s(), &module, &json!({"veto": {"proposal_id": self.off + pid}}), &[]);
                same!(r.is_ok(), want, P04, "veto-acceptance", "{:?} in status {:?} {:?}", op, was, r.err());
                if want {
                    p.fin = Some(2);
                }
                let lab = match was {
                    St::Timelock(_) => "timelock".to_string(),
                    s => format!("{:?}", s),
                };
                Ok(format!("veto {} from {}", want, lab))
            }
        }
        .and_then(|l| {
            // remember reported outcomes
            let sts = self.statuses(w, m)?;
            for (p, s) in m.props.iter_mut().zip(sts) {
                if p.fin.is_none() && !p.cfg.revoting {
                    match s {
                        St::Passed | St::Timelock(_) if p.reported.is_none() => p.reported = Some(true),
                        St::Rejected if p.reported.is_none() => p.reported = Some(false),
                        _ => {}
                    }
                }
            }
            Ok(l)
        })
    }
    fn invariant(&self, w: &mut LWorld, m: &LModel) -> VResult {
        let module = self.module(w).clone();
        for (i, p) in m.props.iter().enumerate() {
            let id = i as u64 + 1;
            let v = self.kind.get(&w.sim, &module, self.off + id).map_err(|e| Violation::new(P345, "query-failed", e))?;
            let s = st(v.status);
            let props = if matches!(s, St::Timelock(_)) || p.cfg.veto.is_some() { P034 } else { P03 };
            let want = self.judge(p, m.now, s)?;
            same!(s, want, props, "status", "proposal {} at {:?} {:?}", id, m.now, p);
            same!(v.votes, p.tally(), P05, "tally", "proposal {} ballots {:?}", id, p.ballots);
            same!(v.total, p.total, P05, "total-power", "proposal {}", id);
            same!(v.start, p.start, P05, "start-height", "proposal {}", id);
            same!(exp_key(&v.exp), p.exp, P345, "expiration", "proposal {}", id);
            same!(v.min, p.min(self.time, self.created(p)), P03, "min-period", "proposal {}", id);
            same!(v.revoting, p.cfg.revoting, P05, "revoting-recorded", "proposal {}", id);
            same!(v.veto, Kind::veto_cfg(&p.cfg, self.time), P04, "veto-recorded", "proposal {}", id);
            same!(v.proposer, p.proposer, P03, "proposer", "proposal {}", id);
            let (h, a) = (hits(&w.sim, &w.target, id), hits(&w.sim, &w.target, 100 + id));
            same!(h + 1000 * a, p.execs, props, "effects", "proposal {} {:?}", id, p);
        }
        Ok(())
    }
    fn on_new_state(&self, w: &mut LWorld, m: &LModel) -> VResult {
        let module = self.module(w).clone();
        for (i, p) in m.props.iter().enumerate() {
            let id = i as u64 + 1;
            let bad = |e: String| Violation::new(P05, "query-failed", e);
            let l: Value = w.sim.query(&module, &json!({"list_votes": {"proposal_id": self.off + id}})).map_err(bad)?;
            let listed: BTreeMap<String, (u8, u128)> = l["votes"]
                .as_array()
                .unwrap()
                .iter()
                .map(|v| {
                    let (a, c, p) = self.kind.ballot_json(v);
                    (a, (c, p))
                })
                .collect();
            let want: BTreeMap<String, (u8, u128)> = p.ballots.iter().map(|(a, c)| (a.to_string(), (*c, p.powers[a]))).collect();
            same!(listed, want, P05, "listed-ballots", "proposal {}", id);
            same!(l["votes"].as_array().unwrap().len(), want.len(), P05, "listed-ballots", "proposal {} duplicates", id);
            // one entry per page
            let mut paged = BTreeMap::new();
            let mut after: Option<String> = None;
            loop {
                let l: Value = w
                    .sim
                    .query(&module, &json!({"list_votes": {"proposal_id": self.off + id, "start_after": after, "limit": 1}}))
                    .map_err(bad)?;
                match l["votes"].as_array().unwrap().first() {
                    None => break,
                    Some(v) => {
                        let (a, c, p) = self.kind.ballot_json(v);
                        ensure!(paged.insert(a.clone(), (c, p)).is_none(), P05, "ballot-paging", "page repeats {}", a);
                        after = Some(a);
                    }
                }
            }
            same!(paged, want, P05, "ballot-paging", "proposal {}", id);
            for who in ["alice", "bob", "carol", "eve"] {
                let g: Value = w.sim.query(&module, &json!({"get_vote": {"proposal_id": self.off + id, "voter": who}})).map_err(bad)?;
                let got = if g["vote"].is_null() {
                    None
                } else {
                    let (a, c, p) = self.kind.ballot_json(&g["vote"]);
                    same!(a, who, P05, "get-vote", "voter");
                    Some((c, p))
                };
                same!(got, want.get(who).copied(), P05, "get-vote", "proposal {} {}", id, who);
            }
        }
        let bad = |e: String| Violation::new(P345, "query-failed", e);
        let f: Vec<_> = self.kind.list(&w.sim, &module, json!({"list_proposals": {"start_after": self.off}})).map_err(bad)?;
        let r: Vec<_> = self.kind.list(&w.sim, &module, if self.off == 0 { json!({"reverse_proposals": {}}) } else { json!({"reverse_proposals": {"limit": m.props.len()}}) }).map_err(bad)?;
        let ids: Vec<u64> = f.iter().map(|x| x.id).collect();
        same!(ids, (1..=m.props.len() as u64).map(|i| self.off + i).collect::<Vec<_>>(), P03, "listing", "ids");
        let mut rids: Vec<u64> = r.iter().map(|x| x.id).collect();
        rids.reverse();
        same!(rids, ids, P03, "listing", "reverse ids");
        for x in f.iter().chain(r.iter()) {
            let g = self.kind.get(&w.sim, &module, x.id).map_err(bad)?;
            same!(st(x.status), st(g.status), P03, "listing", "status of {} in listing", x.id);
            same!(x.votes, g.votes, P05, "listing", "tally of {} in listing", x.id);
        }
        let n: u64 = w.sim.query(&module, &json!({"proposal_count": {}})).map_err(bad)?;
        same!(n, self.off + m.props.len() as u64, P03, "listing", "proposal count");
        // what was there before stays untouched: nobody votes on it, so it is open and then rejected
        for i in (1..=self.off).filter(|i| *i <= 2 || *i == self.off) {
            let g = self.kind.get(&w.sim, &module, i).map_err(bad)?;
            let want = if expired(&after(VOTING, self.time, (mc::sim::H0, mc::sim::T0)), m.now) { St::Rejected } else { St::Open };
            same!(st(g.status), want, P03, "other-proposal-affected", "proposal {}", i);
        }
        // a bogus vote choice or proposal id is never accepted
        Ok(())
    }
}

include!("lifecycle_hooks.inc");
include!("lifecycle_records.inc");

fn life_plan(th: bool, focus: &str) -> Vec<Entry> {
    let mut v: Vec<Entry> = vec![];
    let all = [Kind::Single, Kind::Multiple];
    for kind in all {
        for time in [false, true] {
            let t = if time { "time" } else { "height" };
            let base = |cfgs: Vec<Cfg>| Life {
                kind,
                time,
                cfgs,
                bodies: vec![Body::Hit],
                max_props: 1,
                voters: vec![Who::Alice, Who::Bob],
                choices: vec![0, 1],
                executors: vec![Who::Alice, Who::Eve],
                sell: false,
                autos: vec![None],
                proposers: vec![Who::Eve],
                off: 0,
            };
            let mut add = |n: &str, h: Life, q: usize, d: usize| {
                if !th && time && !n.starts_with('+') {
                    return;
                }
                v.push(Entry::new(format!("{:?}-{}-{}", kind, t, n.trim_start_matches('+')), h, if th { d } else { q }))
            };
            if focus == "P03" {
                // message bodies x failure policy x who may execute, with live reconfiguration
                let mut h = base(vec![BASE, Cfg { only_members: false, close_fail: false, ..BASE }]);
                h.bodies = vec![Body::Hit, Body::Boom, Body::Empty, Body::Reenter];
                h.autos = vec![None, Some(0)];
                h.proposers = vec![Who::Alice];
                h.voters = vec![Who::Bob, Who::Carol];
                add("bodies", h, 7, 9);
                // messages that fail at first and would succeed later
                let mut h = base(vec![
                    Cfg { only_members: false, ..BASE },
                    Cfg { only_members: false, close_fail: false, ..BASE },
                ]);
                h.bodies = vec![Body::Flaky];
                h.autos = vec![Some(0)];
                h.proposers = vec![Who::Alice];
                h.voters = vec![Who::Bob];
                h.choices = vec![0];
                h.executors = vec![Who::Eve];
                add("flaky", h, 9, 12);
                // long after the first proposal
                let mut h = base(vec![Cfg { only_members: false, ..BASE }]);
                h.bodies = vec![Body::Hit, Body::Boom];
                h.off = 255;
                h.max_props = 2;
                h.autos = vec![Some(0)];
                h.proposers = vec![Who::Alice];
                h.voters = vec![Who::Bob];
                h.choices = vec![0];
                h.executors = vec![Who::Eve];
                add("many", h, 6, 8);
                // two proposals executing one another
                let mut h = base(vec![Cfg { only_members: false, close_fail: true, ..BASE }, Cfg { only_members: false, close_fail: false, ..BASE }]);
                h.bodies = vec![Body::Hit, Body::Boom, Body::Nest];
                h.max_props = 2;
                h.autos = vec![Some(0), Some(1)];
                h.proposers = vec![Who::Alice];
                h.voters = vec![Who::Bob];
                h.choices = vec![0];
                h.executors = vec![Who::Eve];
                add("nested", h, 6, 8);
                // minimum period, early verdicts and changed ballots
                let mut h = base(vec![Cfg { min: true, ..BASE }, Cfg { revoting: true, ..BASE }]);
                h.voters = vec![Who::Alice, Who::Bob, Who::Carol];
                h.choices = vec![0, 1, 2];
                h.executors = vec![Who::Alice];
                add("+min-revote", h, if time { 5 } else { 6 }, 8);
                // restricted execution while memberships move
                let mut h = base(vec![BASE]);
                h.sell = true;
                h.executors = vec![Who::Alice, Who::Eve, Who::Bob, Who::Vetoer];
                add("members", h, 9, 11);
            }
            if focus == "P04" {
                let a = Cfg { veto: veto(false, false, 1), ..BASE };
                let b = Cfg { veto: veto(true, true, 2), ..BASE };
                let mut h = base(vec![a.clone(), b.clone()]);
                h.executors = vec![Who::Alice, Who::Vetoer];
                h.voters = vec![Who::Alice, Who::Bob];
                add("+veto", h, if time { 7 } else { 9 }, 11);
                let mut h = base(vec![b, BASE]);
                h.bodies = vec![Body::Hit, Body::Boom];
                h.executors = vec![Who::Alice, Who::Vetoer];
                h.autos = vec![Some(0)];
                h.proposers = vec![Who::Alice];
                h.voters = vec![Who::Bob];
                add("veto-removed", h, 8, 10);
                let mut h = base(vec![
                    Cfg { veto: veto(true, false, 1), min: true, only_members: false, ..BASE },
                    Cfg { veto: Some(Veto { early: false, before: true, vetoer: "alice", lock: 1 }), revoting: true, close_fail: false, ..BASE },
                ]);
                h.executors = vec![Who::Alice, Who::Vetoer, Who::Eve];
                h.voters = vec![Who::Alice, Who::Bob];
                h.bodies = vec![Body::Hit, Body::Boom];
                add("veto-mixed", h, 8, 10);
                let mut h = base(vec![Cfg { veto: veto(true, true, 1), only_members: false, ..BASE }]);
                h.bodies = vec![Body::Hit, Body::Nest];
                h.max_props = 2;
                h.autos = vec![Some(0)];
                h.proposers = vec![Who::Alice];
                h.voters = vec![Who::Bob];
                h.choices = vec![0];
                h.executors = vec![Who::Alice, Who::Vetoer];
                add("veto-nested", h, 7, 8);
            }
            if focus == "P05" {
                let mut h = base(vec![Cfg { revoting: true, ..BASE }, BASE]);
                h.voters = vec![Who::Alice, Who::Bob, Who::Eve];
                h.choices = vec![0, 1, 2];
                h.sell = true;
                h.executors = vec![];
                h.proposers = vec![Who::Alice];
                h.autos = vec![None, Some(0)];
                add("+ballots", h, if time { 6 } else { 8 }, 9);
                let mut h = base(vec![BASE]);
                h.voters = vec![Who::Alice, Who::Bob, Who::Eve];
                h.sell = true;
                h.max_props = 2;
                h.executors = vec![Who::Alice];
                h.proposers = vec![Who::Eve];
                h.autos = vec![None, Some(0)];
                add("two-proposals", h, 7, 8);
                let mut h = base(vec![Cfg { revoting: true, veto: veto(true, true, 1), ..BASE }]);
                h.voters = vec![Who::Alice, Who::Bob];
                h.executors = vec![Who::Alice, Who::Vetoer];
                h.sell = true;
                add("ballots-after-final", h, 8, 10);
            }
        }
    }
    v
}
fn plan(prop: &str, th: bool) -> Option<PropertyPlan> {
    let base_assume = vec![
        "the chain executes transactions atomically and in order (cw-multi-test semantics)",
        "voting power comes from a reference power table with start-of-block snapshots; the real voting modules are covered by V01-V04",
    ];
    Some(match prop {
        "P03" => PropertyPlan {
            entries: life_plan(th, "P03"),
            rule: "breadth-first over all histories of propose/vote/execute/close/reconfigure/tick up to the depth bound against a reference life cycle",
            assumptions: base_assume,
        },
        "P04" => PropertyPlan {
            entries: life_plan(th, "P04"),
            rule: "breadth-first over all histories of propose/vote/veto/execute/close/reconfigure/tick up to the depth bound against a reference life cycle with veto windows",
            assumptions: base_assume,
        },
        "P05" => PropertyPlan {
            entries: life_plan(th, "P05").into_iter().chain(mc::condorcet::ManyCondorcet::entries(th)).collect(),
            rule: "breadth-first over all histories of propose/vote/revote/power changes/tick up to the depth bound against a table of ballots, for the yes/no, multiple-choice and ranked modules",
            assumptions: base_assume,
        },
        "P06" => hooks_plan(th, base_assume),
        "P09" => records_plan(th, base_assume),
        _ => return None,
    })
}
fn main() {
    run_main(plan)
}
