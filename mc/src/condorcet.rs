//! P07, P05: ranked-choice elections on the real dao-proposal-condorcet.
use crate::main_util::Entry;
use crate::mocks::*;
use crate::rules::*;
use crate::sim::Sim;
use crate::{ensure, same, Harness, VResult, Violation};
use cosmwasm_std::{Addr, Decimal};
use cw_utils::Duration;
use dao_voting::threshold::PercentageThreshold as PT;
use serde::{Deserialize, Serialize};

const P07: &[&str] = &["P07"];
const P57: &[&str] = &["P05", "P07"];
const VOTING: u64 = 10;
const MINV: u64 = 5;

pub struct Condorcet {
    pub weights: Vec<u128>,
    pub choices: usize, // without none-of-the-above
    pub quorum: PT,
    pub min_period: bool,
    pub close_on_failure: bool,
    pub boom: bool,
    /// settings and memberships change while the proposal is open
    pub changes: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum COp {
    Settings { quorum: PT, close: bool, min: bool },
    Members,
    Vote { voter: usize, ballot: Vec<u32> },
    Execute { by: u8 },
    Close,
    Advance,
}
#[derive(Clone, Hash, PartialEq, Debug)]
pub enum CStatus {
    Live,
    Executed,
    Closed,
    Failed,
}
#[derive(Clone, Hash, Debug)]
pub struct CModel {
    ballots: Vec<Option<Vec<u32>>>,
    phase: u8, // 0 = before min period end, 1 = min period over, 2 = expired
    status: CStatus,
    /// first decided status seen (winner or rejection): can never change afterwards
    decided: Option<Option<u32>>,
    /// which settings are in force, whether memberships were swapped
    settings: u8,
    swapped: bool,
}
fn perms(n: u32) -> Vec<Vec<u32>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in perms(n - 1) {
        for i in 0..=p.len() {
            let mut q = p.clone();
            q.insert(i, n - 1);
            out.push(q);
        }
    }
    out.sort();
    out
}
/// all rankings of up to four candidates; of more, every rotation of the plain and the reversed order
/// (a few of them when there are dozens)
fn rankings(n: u32) -> Vec<Vec<u32>> {
    if n <= 4 {
        return perms(n);
    }
    let mut out = vec![];
    for k in 0..n {
        if n > 20 && ![0, 1, 16, n - 5, n - 1].contains(&k) {
            continue;
        }
        out.push((0..n).map(|i| (i + k) % n).collect());
        out.push((0..n).map(|i| (n + k - i) % n).collect());
    }
    out
}
pub struct CWorld {
    sim: Sim,
    dao: Dao,
    target: Addr,
    perms: Vec<Vec<u32>>,
}
impl Condorcet {
    fn n(&self) -> usize {
        self.choices + 1
    }
    fn total(&self) -> u128 {
        self.weights.iter().sum()
    }
    /// margins[x][y] = power preferring x over y minus power preferring y over x
    fn margins(&self, ballots: &[Option<Vec<u32>>]) -> Vec<Vec<i128>> {
        let n = self.n();
        let mut m = vec![vec![0i128; n]; n];
        for (v, b) in ballots.iter().enumerate() {
            if let Some(b) = b {
                for i in 0..n {
                    for j in i + 1..n {
                        m[b[i] as usize][b[j] as usize] += self.weights[v] as i128;
                        m[b[j] as usize][b[i] as usize] -= self.weights[v] as i128;
                    }
                }
            }
        }
        m
    }
    fn winner_of(m: &[Vec<i128>]) -> Option<u32> {
        (0..m.len()).find(|x| (0..m.len()).all(|y| y == *x || m[*x][y] > 0)).map(|x| x as u32)
    }
    fn final_verdict(&self, ballots: &[Option<Vec<u32>>]) -> Option<Option<u32>> {
        let cast: u128 = ballots.iter().zip(&self.weights).filter(|(b, _)| b.is_some()).map(|(_, w)| *w).sum();
        match meets(cast, self.total(), &self.quorum) {
            Some(true) => Some(Self::winner_of(&self.margins(ballots))),
            Some(false) => Some(None),
            None => None,
        }
    }
    /// every completion (voters not yet voting may cast any ballot or none)
    fn completions(&self, perms: &[Vec<u32>], ballots: &[Option<Vec<u32>>], f: &mut dyn FnMut(&[Option<Vec<u32>>]) -> VResult) -> VResult {
        fn rec(perms: &[Vec<u32>], cur: &mut Vec<Option<Vec<u32>>>, open: &[usize], f: &mut dyn FnMut(&[Option<Vec<u32>>]) -> VResult) -> VResult {
            if open.is_empty() {
                return f(cur);
            }
            cur[open[0]] = None;
            rec(perms, cur, &open[1..], f)?;
            for p in perms {
                cur[open[0]] = Some(p.clone());
                rec(perms, cur, &open[1..], f)?;
            }
            cur[open[0]] = None;
            Ok(())
        }
        let open: Vec<usize> = (0..ballots.len()).filter(|i| ballots[*i].is_none()).collect();
        let mut cur = ballots.to_vec();
        rec(perms, &mut cur, &open, f)
    }
    fn status(&self, w: &CWorld) -> VResult<serde_json::Value> {
        let v: serde_json::Value = w
            .sim
            .query(&w.dao.proposals[0], &dao_proposal_condorcet::msg::QueryMsg::Proposal { id: 1 })
            .map_err(|e| Violation::new(P07, "query-failed", e))?;
        Ok(v["proposal"]["last_status"].clone())
    }
}
impl Harness for Condorcet {
    type World = CWorld;
    type Model = CModel;
    type Op = COp;
    fn setup(&self) -> (CWorld, CModel) {
        let mut sim = Sim::new();
        let pt = sim.store(power_table());
        let sc = sim.store(condorcet_code());
        let pp = sim.store(puppet());
        let target = sim.init(pp, "env", &serde_json::json!({}), &[], "target").unwrap();
        let names: Vec<String> = (0..self.weights.len()).map(|i| format!("voter{}", i)).collect();
        let powers: Vec<(&str, u128)> = names.iter().map(|s| s.as_str()).zip(self.weights.iter().copied()).collect();
        let dao = new_dao(
            &mut sim,
            power_module(pt, &powers),
            vec![mii(
                sc,
                &dao_proposal_condorcet::msg::InstantiateMsg {
                    quorum: self.quorum,
                    voting_period: Duration::Height(VOTING),
                    min_voting_period: if self.min_period { Some(Duration::Height(MINV)) } else { None },
                    close_proposals_on_execution_failure: self.close_on_failure,
                },
                "condorcet",
            )],
            None,
        );
        sim.advance(1, 5);
        let choices = (0..self.choices)
            .map(|i| dao_proposal_condorcet::msg::Choice {
                msgs: if self.boom { vec![hit(&target, i as u64), boom(&target)] } else { vec![hit(&target, i as u64)] },
            })
            .collect();
        sim.exec("voter0", &dao.proposals[0], &dao_proposal_condorcet::msg::ExecuteMsg::Propose { choices }, &[]).unwrap();
        sim.seal();
        let m = CModel { ballots: vec![None; self.weights.len()], phase: 0, status: CStatus::Live, decided: None, settings: 0, swapped: false };
        (CWorld { sim, dao, target, perms: rankings(self.n() as u32) }, m)
    }
    fn sim<'a>(&self, w: &'a mut CWorld) -> &'a mut Sim {
        &mut w.sim
    }
    fn ops(&self, m: &CModel) -> Vec<COp> {
        let mut v = vec![];
        for voter in 0..self.weights.len() {
            if m.ballots[voter].is_some() || m.phase == 2 {
                // refused second / late ballots: one representative suffices
                v.push(COp::Vote { voter, ballot: (0..self.n() as u32).rev().collect() });
            } else {
                for b in rankings(self.n() as u32) {
                    v.push(COp::Vote { voter, ballot: b });
                }
                v.push(COp::Vote { voter, ballot: vec![0; self.n()] });
                v.push(COp::Vote { voter, ballot: (0..self.choices as u32).collect() });
                if self.n() > 4 {
                    // slips at the far end of the ballot
                    for last in [0, self.n() as u32 - 2, self.n() as u32] {
                        v.push(COp::Vote { voter, ballot: (0..self.choices as u32).chain([last]).collect() });
                    }
                    v.push(COp::Vote { voter, ballot: (0..=self.n() as u32).collect() });
                }
            }
        }
        v.push(COp::Vote { voter: 99, ballot: (0..self.n() as u32).collect() });
        v.push(COp::Execute { by: 0 });
        v.push(COp::Execute { by: 1 });
        v.push(COp::Close);
        if m.phase < 2 {
            v.push(COp::Advance);
        }
        if self.changes {
            if m.settings == 0 {
                v.push(COp::Settings { quorum: PT::Percent(Decimal::zero()), close: !self.close_on_failure, min: !self.min_period });
                v.push(COp::Settings { quorum: PT::Percent(Decimal::one()), close: self.close_on_failure, min: false });
            }
            if !m.swapped {
                v.push(COp::Members);
            }
        }
        v
    }
    fn step(&self, w: &mut CWorld, m: &mut CModel, op: &COp) -> VResult<String> {
        use dao_proposal_condorcet::msg::ExecuteMsg as E;
        let module = w.dao.proposals[0].clone();
        let before = self.status(w)?;
        match op {
            COp::Vote { voter, ballot } => {
                let valid = {
                    let mut b = ballot.clone();
                    b.sort();
                    b == (0..self.n() as u32).collect::<Vec<_>>()
                };
                let ok = *voter < self.weights.len() && self.weights[*voter] > 0 && m.ballots[*voter].is_none() && m.phase < 2 && valid;
                let r = w.sim.exec(format!("voter{}", voter), &module, &E::Vote { proposal_id: 1, vote: ballot.clone() }, &[]);
                same!(r.is_ok(), ok, P07, "vote-accepted", "{:?} in {:?} ({:?})", op, m, r.err());
                if ok {
                    m.ballots[*voter] = Some(ballot.clone());
                }
                Ok(format!("vote:{}", ok))
            }
            COp::Execute { by } => {
                let who = if *by == 0 { "voter0" } else { "outsider" };
                let passed = before.get("passed").and_then(|p| p["winner"].as_u64());
                let winner_is_choice = passed.map_or(false, |x| (x as usize) < self.choices);
                let fails = self.boom && winner_is_choice;
                let ok = *by == 0 && passed.is_some() && (!fails || self.close_on_failure);
                let r = w.sim.exec(who, &module, &E::Execute { proposal_id: 1 }, &[]);
                same!(r.is_ok(), ok, P07, "execute-accepted", "{:?} status {} in {:?} ({:?})", op, before, m, r.err());
                if ok {
                    m.status = if fails { CStatus::Failed } else { CStatus::Executed };
                }
                Ok(format!("execute:{}", ok))
            }
            COp::Settings { quorum, close, min } => {
                let cfg = serde_json::json!({"set_config": {"quorum": quorum, "voting_period": {"height": VOTING * 2},
                    "min_voting_period": if *min { Some(Duration::Height(1)) } else { None }, "close_proposals_on_execution_failure": close}});
                for (who, ok) in [("voter0", false), (w.dao.core.as_str(), true)] {
                    let r = w.sim.exec(who, &module, &cfg, &[]);
                    same!(r.is_ok(), ok, P07, "settings-accepted", "{:?} by {} ({:?})", op, who, r.err());
                }
                m.settings = 1 + *close as u8;
                Ok("settings".into())
            }
            COp::Members => {
                // everyone present leaves, strangers take over; ballots keep the power held at the start
                let v = w.dao.voting.clone();
                set_powers(&mut w.sim, &v, &[("outsider", self.total() * 5), ("voter99", 7), ("voter0", 0), ("voter1", 3), ("voter2", 0)]);
                m.swapped = true;
                Ok("members".into())
            }
            COp::Close => {
                let ok = before == serde_json::json!("rejected");
                let r = w.sim.exec("outsider", &module, &E::Close { proposal_id: 1 }, &[]);
                same!(r.is_ok(), ok, P07, "close-accepted", "status {} in {:?}", before, m);
                if ok {
                    m.status = CStatus::Closed;
                }
                Ok(format!("close:{}", ok))
            }
            COp::Advance => {
                m.phase += 1;
                if m.phase == 1 {
                    w.sim.advance(MINV, 5);
                } else {
                    w.sim.advance(VOTING - MINV, 5);
                }
                Ok("advance".into())
            }
        }
    }
    fn invariant(&self, w: &mut CWorld, m: &CModel) -> VResult {
        let st = self.status(w)?;
        match m.status {
            CStatus::Executed => same!(st, serde_json::json!("executed"), P07, "final-status", "{:?}", m),
            CStatus::Closed => same!(st, serde_json::json!("closed"), P07, "final-status", "{:?}", m),
            CStatus::Failed => same!(st, serde_json::json!("execution_failed"), P07, "final-status", "{:?}", m),
            CStatus::Live => {
                let passed = st.get("passed").and_then(|p| p["winner"].as_u64()).map(|x| x as u32);
                let rejected = st == serde_json::json!("rejected");
                if m.phase == 2 {
                    match self.final_verdict(&m.ballots) {
                        Some(Some(win)) => same!(passed, Some(win), P07, "verdict", "expired, {:?}, status {}", m, st),
                        Some(None) => ensure!(rejected, P07, "verdict", "expired without winner or quorum, {:?}, status {}", m, st),
                        None => {}
                    }
                } else {
                    if self.min_period && m.phase == 0 {
                        ensure!(passed.is_none(), P07, "passed-before-min-period", "{:?} {}", m, st);
                    }
                    if passed.is_some() || rejected {
                        self.completions(&w.perms, &m.ballots, &mut |b| {
                            let f = self.final_verdict(b);
                            let bad = match f {
                                Some(v) => v != passed,
                                None => false,
                            };
                            ensure!(!bad, P07, "early-verdict-overturned", "{:?} status {} but ballots {:?} give {:?}", m, st, b, f);
                            Ok(())
                        })?;
                    } else {
                        ensure!(st == serde_json::json!("open"), P07, "unexpected-status", "{:?} {}", m, st);
                    }
                }
            }
        }
        let total_hits: u64 = (0..self.choices).map(|i| hits(&w.sim, &w.target, i as u64)).sum();
        if m.status == CStatus::Executed {
            let win = self.decide(m);
            for i in 0..self.choices {
                let want = (Some(Some(i as u32)) == win) as u64;
                same!(hits(&w.sim, &w.target, i as u64), want, P07, "winner-messages", "effects of choice {} in {:?}", i, m);
            }
        } else {
            same!(total_hits, 0, P07, "winner-messages", "effects in {:?}", m);
        }
        Ok(())
    }
}
impl Condorcet {
    fn decide(&self, m: &CModel) -> Option<Option<u32>> {
        // executed early or late: all completions agree, so the current ballots decide
        Some(Self::winner_of(&self.margins(&m.ballots)))
    }
}

/// P07 with several proposals open at once, created by members (never by strangers) at different times,
/// each with the memberships of its own creation
pub struct ManyCondorcet {
    pub quorum: PT,
    pub min_period: bool,
    pub close_on_failure: bool,
    pub swaps: bool,
    pub max: usize,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum QOp {
    /// number of choices; the last choice of a proposal fails when executed
    Propose { by: usize, choices: usize },
    Members,
    Vote { prop: usize, voter: usize, ballot: Vec<u32> },
    Execute { prop: usize, by: usize },
    Close { prop: usize },
    Advance { blocks: u64 },
}
#[derive(Clone, Hash, Debug)]
pub struct MProp {
    at: u64,
    choices: usize,
    weights: Vec<u128>,
    ballots: Vec<Option<Vec<u32>>>,
    status: CStatus,
}
#[derive(Clone, Hash, Debug)]
pub struct QModel {
    now: u64,
    weights: Vec<u128>,
    /// memberships from the next block on
    next: Option<Vec<u128>>,
    props: Vec<MProp>,
}
const WHO: [&str; 4] = ["voter0", "voter1", "voter2", "outsider"];
impl ManyCondorcet {
    fn rules(&self, p: &MProp) -> Condorcet {
        Condorcet {
            weights: p.weights.clone(),
            choices: p.choices,
            quorum: self.quorum,
            min_period: self.min_period,
            close_on_failure: self.close_on_failure,
            boom: false,
            changes: false,
        }
    }
    fn status(&self, w: &CWorld, prop: usize) -> VResult<serde_json::Value> {
        let v: serde_json::Value = w
            .sim
            .query(&w.dao.proposals[0], &dao_proposal_condorcet::msg::QueryMsg::Proposal { id: prop as u32 + 1 })
            .map_err(|e| Violation::new(P57, "query-failed", e))?;
        same!(v["proposal"]["id"].as_u64(), Some(prop as u64 + 1), P07, "proposal-id", "{}", v);
        Ok(v["proposal"]["last_status"].clone())
    }
    /// the recorded tally is the sum of the ballots, with the power held at creation
    fn tally(&self, w: &CWorld, id: usize, p: &MProp) -> VResult {
        let v: serde_json::Value = w
            .sim
            .query(&w.dao.proposals[0], &dao_proposal_condorcet::msg::QueryMsg::Proposal { id: id as u32 + 1 })
            .map_err(|e| Violation::new(P57, "query-failed", e))?;
        let total: u128 = p.weights.iter().sum();
        let cast: u128 = p.ballots.iter().zip(&p.weights).filter(|(b, _)| b.is_some()).map(|(_, w)| *w).sum();
        same!(v["proposal"]["total_power"], serde_json::json!(total.to_string()), P57, "total-power", "proposal {} {:?}", id + 1, p);
        same!(v["tally"]["power_outstanding"], serde_json::json!((total - cast).to_string()), P57, "power-outstanding", "proposal {} {:?}", id + 1, p);
        // the pairwise margins, whatever their order and orientation
        let mut got: Vec<u128> = v["tally"]["m"]["cells"]
            .as_array()
            .into_iter()
            .flatten()
            .map(|c| c.as_object().and_then(|o| o.values().next()).and_then(|x| x.as_str()).map_or(0, |x| x.parse().unwrap()))
            .collect();
        let m = self.rules(p).margins(&p.ballots);
        let mut want: Vec<u128> = (0..m.len()).flat_map(|x| (0..x).map(move |y| (x, y))).map(|(x, y)| m[x][y].unsigned_abs()).collect();
        got.sort();
        want.sort();
        same!(got, want, P57, "pairwise-margins", "proposal {} {:?}", id + 1, p);
        Ok(())
    }
    pub fn entries(thorough: bool) -> Vec<Entry> {
        let mut e = vec![];
        for (quorum, min_period, close_on_failure, swaps) in [
            (PT::Percent(Decimal::percent(60)), true, true, true),
            (PT::Percent(Decimal::percent(30)), false, true, true),
            (PT::Majority {}, false, false, false),
        ] {
            e.push(Entry::new(
                format!("condorcet several proposals min={} close={} swaps={}", min_period, close_on_failure, swaps),
                ManyCondorcet { quorum, min_period, close_on_failure, swaps, max: if thorough { 3 } else { 2 } },
                if thorough { 7 } else { 6 },
            ));
        }
        e
    }
    fn choice_msgs(&self, target: &Addr, prop: usize, i: usize, choices: usize) -> Vec<cosmwasm_std::CosmosMsg> {
        let h = hit(target, (prop * 10 + i) as u64);
        if i + 1 == choices && choices > 1 {
            vec![h, boom(target)]
        } else {
            vec![h]
        }
    }
}
impl Harness for ManyCondorcet {
    type World = CWorld;
    type Model = QModel;
    type Op = QOp;
    fn setup(&self) -> (CWorld, QModel) {
        let mut sim = Sim::new();
        let pt = sim.store(power_table());
        let sc = sim.store(condorcet_code());
        let pp = sim.store(puppet());
        let target = sim.init(pp, "env", &serde_json::json!({}), &[], "target").unwrap();
        let weights = vec![2u128, 1, 0, 0];
        let powers: Vec<(&str, u128)> = WHO.iter().copied().zip(weights.iter().copied()).collect();
        let dao = new_dao(
            &mut sim,
            power_module(pt, &powers),
            vec![mii(
                sc,
                &dao_proposal_condorcet::msg::InstantiateMsg {
                    quorum: self.quorum,
                    voting_period: Duration::Height(VOTING),
                    min_voting_period: if self.min_period { Some(Duration::Height(MINV)) } else { None },
                    close_proposals_on_execution_failure: self.close_on_failure,
                },
                "condorcet",
            )],
            None,
        );
        sim.advance(1, 5);
        sim.seal();
        (CWorld { sim, dao, target, perms: vec![] }, QModel { now: 0, weights, next: None, props: vec![] })
    }
    fn sim<'a>(&self, w: &'a mut CWorld) -> &'a mut Sim {
        &mut w.sim
    }
    fn ops(&self, m: &QModel) -> Vec<QOp> {
        let mut v = vec![];
        if m.props.len() < self.max {
            for by in 0..WHO.len() {
                if by < 1 || m.weights[by] == 0 {
                    v.push(QOp::Propose { by, choices: 1 + m.props.len() % 2 });
                }
            }
            v.push(QOp::Propose { by: 0, choices: 0 });
        }
        for (prop, p) in m.props.iter().enumerate() {
            let over = m.now >= p.at + VOTING;
            for voter in 0..WHO.len() {
                if over || p.ballots[voter].is_some() || p.weights[voter] == 0 {
                    v.push(QOp::Vote { prop, voter, ballot: (0..=p.choices as u32).rev().collect() });
                } else {
                    let all = perms(p.choices as u32 + 1);
                    for b in all.into_iter().step_by(if p.choices > 1 { 2 } else { 1 }) {
                        v.push(QOp::Vote { prop, voter, ballot: b });
                    }
                    for x in [p.choices as u32 + 1, u32::MAX] {
                        v.push(QOp::Vote { prop, voter, ballot: (0..p.choices as u32).chain([x]).collect() });
                    }
                }
            }
            for by in [0, 3] {
                v.push(QOp::Execute { prop, by });
            }
            v.push(QOp::Close { prop });
        }
        // votes on proposals that do not exist
        v.push(QOp::Vote { prop: m.props.len(), voter: 0, ballot: vec![0, 1] });
        if self.swaps && m.weights[3] == 0 && m.next.is_none() {
            v.push(QOp::Members);
        }
        if m.now < 30 {
            for blocks in if m.next.is_some() { vec![1, 10] } else { vec![3, 7, 10] } {
                v.push(QOp::Advance { blocks });
            }
        }
        v
    }
    fn step(&self, w: &mut CWorld, m: &mut QModel, op: &QOp) -> VResult<String> {
        use dao_proposal_condorcet::msg::ExecuteMsg as E;
        let module = w.dao.proposals[0].clone();
        match op {
            QOp::Propose { by, choices } => {
                let id = m.props.len();
                let msg = E::Propose {
                    choices: (0..*choices)
                        .map(|i| dao_proposal_condorcet::msg::Choice { msgs: self.choice_msgs(&w.target, id, i, *choices) })
                        .collect(),
                };
                let ok = m.weights[*by] > 0 && *choices > 0;
                let r = w.sim.exec(WHO[*by], &module, &msg, &[]);
                same!(r.is_ok(), ok, P07, "propose-accepted", "{:?} in {:?} ({:?})", op, m, r.err());
                if ok {
                    m.props.push(MProp { at: m.now, choices: *choices, weights: m.weights.clone(), ballots: vec![None; WHO.len()], status: CStatus::Live });
                }
                Ok(format!("propose:{}", ok))
            }
            QOp::Vote { prop, voter, ballot } => {
                let ok = m.props.get(*prop).map_or(false, |p| {
                    let mut b = ballot.clone();
                    b.sort();
                    b == (0..=p.choices as u32).collect::<Vec<_>>() && p.weights[*voter] > 0 && p.ballots[*voter].is_none() && m.now < p.at + VOTING
                });
                let r = w.sim.exec(WHO[*voter], &module, &E::Vote { proposal_id: *prop as u32 + 1, vote: ballot.clone() }, &[]);
                same!(r.is_ok(), ok, P57, "vote-accepted", "{:?} in {:?} ({:?})", op, m, r.err());
                if ok {
                    m.props[*prop].ballots[*voter] = Some(ballot.clone());
                }
                Ok(format!("vote:{}", ok))
            }
            QOp::Execute { prop, by } => {
                let before = self.status(w, *prop)?;
                let p = &mut m.props[*prop];
                let winner = before.get("passed").and_then(|x| x["winner"].as_u64()).map(|x| x as usize);
                let fails = p.choices > 1 && winner == Some(p.choices - 1);
                let ok = p.weights[*by] > 0 && winner.is_some() && (!fails || self.close_on_failure);
                let r = w.sim.exec(WHO[*by], &module, &E::Execute { proposal_id: *prop as u32 + 1 }, &[]);
                same!(r.is_ok(), ok, P07, "execute-accepted", "{:?} status {} in {:?} ({:?})", op, before, p, r.err());
                if ok {
                    p.status = if fails { CStatus::Failed } else { CStatus::Executed };
                }
                Ok(format!("execute:{}", ok))
            }
            QOp::Close { prop } => {
                let ok = self.status(w, *prop)? == serde_json::json!("rejected");
                let r = w.sim.exec("outsider", &module, &E::Close { proposal_id: *prop as u32 + 1 }, &[]);
                same!(r.is_ok(), ok, P07, "close-accepted", "{:?} in {:?}", op, m);
                if ok {
                    m.props[*prop].status = CStatus::Closed;
                }
                Ok(format!("close:{}", ok))
            }
            QOp::Members => {
                let weights = vec![0, 3, 1, 2];
                let v = w.dao.voting.clone();
                let powers: Vec<(&str, u128)> = WHO.iter().copied().zip(weights.iter().copied()).collect();
                set_powers(&mut w.sim, &v, &powers);
                m.next = Some(weights);
                Ok("members".into())
            }
            QOp::Advance { blocks } => {
                w.sim.advance(*blocks, 5);
                m.now += blocks;
                if let Some(next) = m.next.take() {
                    m.weights = next;
                }
                Ok("advance".into())
            }
        }
    }
    fn invariant(&self, w: &mut CWorld, m: &QModel) -> VResult {
        for (id, p) in m.props.iter().enumerate() {
            self.tally(w, id, p)?;
            let st = self.status(w, id)?;
            let rules = self.rules(p);
            match p.status {
                CStatus::Executed => same!(st, serde_json::json!("executed"), P07, "final-status", "{:?}", p),
                CStatus::Closed => same!(st, serde_json::json!("closed"), P07, "final-status", "{:?}", p),
                CStatus::Failed => same!(st, serde_json::json!("execution_failed"), P07, "final-status", "{:?}", p),
                CStatus::Live => {
                    let passed = st.get("passed").and_then(|x| x["winner"].as_u64()).map(|x| x as u32);
                    let rejected = st == serde_json::json!("rejected");
                    if m.now >= p.at + VOTING {
                        match rules.final_verdict(&p.ballots) {
                            Some(Some(win)) => same!(passed, Some(win), P07, "verdict", "proposal {} expired, {:?}, status {}", id + 1, p, st),
                            Some(None) => ensure!(rejected, P07, "verdict", "proposal {} expired without winner or quorum, {:?}, status {}", id + 1, p, st),
                            None => {}
                        }
                    } else {
                        if self.min_period && m.now < p.at + MINV {
                            ensure!(passed.is_none(), P07, "passed-before-min-period", "{:?} {}", p, st);
                        }
                        if passed.is_some() || rejected {
                            // those without power at the start can cast nothing
                            let all = perms(p.choices as u32 + 1);
                            let live: Vec<usize> = (0..WHO.len()).filter(|i| p.weights[*i] > 0).collect();
                            let mut few = self.rules(p);
                            few.weights = live.iter().map(|i| p.weights[*i]).collect();
                            let cast: Vec<_> = live.iter().map(|i| p.ballots[*i].clone()).collect();
                            few.completions(&all, &cast, &mut |b| {
                                let bad = few.final_verdict(b).map_or(false, |v| v != passed);
                                ensure!(!bad, P07, "early-verdict-overturned", "{:?} status {} but ballots {:?}", p, st, b);
                                Ok(())
                            })?;
                        } else {
                            ensure!(st == serde_json::json!("open"), P07, "unexpected-status", "{:?} {}", p, st);
                        }
                    }
                }
            }
            let win = Condorcet::winner_of(&rules.margins(&p.ballots));
            for i in 0..p.choices {
                let want = (p.status == CStatus::Executed && win == Some(i as u32)) as u64;
                same!(hits(&w.sim, &w.target, (id * 10 + i) as u64), want, P07, "winner-messages", "effects of choice {} of proposal {} in {:?}", i, id + 1, p);
            }
        }
        Ok(())
    }
}
