//! P01, P02, P07: voting rules. Exhaustive over tallies / ballots of a small electorate, every
//! threshold of a boundary grid, driven through the real propose / vote / execute path.
use cosmwasm_std::{Addr, Decimal, Uint128};
use cw_utils::Duration;
use dao_voting::multiple_choice::{MultipleChoiceOption, MultipleChoiceOptions, MultipleChoiceVote, VotingStrategy};
use dao_voting::pre_propose::PreProposeInfo;
use dao_voting::proposal::{MultipleChoiceProposeMsg, SingleChoiceProposeMsg};
use dao_voting::status::Status;
use dao_voting::threshold::{PercentageThreshold as PT, Threshold};
use dao_voting::voting::Vote;
use mc::main_util::{run_main, Entry, PropertyPlan};
use mc::mocks::*;
use mc::sim::Sim;
use mc::rules::*;
use mc::condorcet::{Condorcet, ManyCondorcet};
use mc::{ensure, same, Harness, VResult, Violation};
use serde::{Deserialize, Serialize};

const P01: &[&str] = &["P01"];
const P02: &[&str] = &["P02"];
const VOTING: u64 = 10;
const MINV: u64 = 5;

fn pts(total: u128, extra: bool) -> Vec<PT> {
    let mut v = vec![PT::Majority {}];
    for i in 1..=total.min(12) {
        v.push(PT::Percent(Decimal::from_ratio(i, total.min(12))));
    }
    for p in ["0.5", "0.500001", "0.333333333", "0.334", "0.666666667", "0.67", "1", "0.000000002", "0.999999999"] {
        if extra || p.len() <= 5 {
            v.push(PT::Percent(p.parse().unwrap()));
        }
    }
    v.dedup();
    v
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize, Hash)]
enum Variant {
    Plain,
    Revote,
    MinPeriod,
}

// ------------------------------------------------------------------------------------- P01
struct Single {
    total: u128,
    /// one unit of power
    k: u128,
    thresholds: Vec<Threshold>,
}
struct SWorld {
    sim: Sim,
    dao: Dao,
    target: Addr,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct SOp {
    thr: usize,
    var: Variant,
    y: u128,
    n: u128,
    a: u128,
    /// perturbation of the yes power by one token (only used with large units)
    dy: i8,
    /// order in which the three blocs vote
    rev: bool,
}
impl Single {
    fn new(total: u128, k: u128, dense: bool) -> Single {
        let mut thresholds = vec![];
        for p in pts(total, true) {
            thresholds.push(Threshold::AbsolutePercentage { percentage: p });
        }
        let q: Vec<PT> = if dense {
            pts(total, false)
        } else {
            vec![PT::Majority {}, PT::Percent(Decimal::percent(50)), PT::Percent(Decimal::from_ratio(1u128, 3u128))]
        };
        let mut q = q;
        q.push(PT::Percent(Decimal::zero()));
        q.push(PT::Percent("0.2".parse().unwrap()));
        for t in pts(total, !dense) {
            for qq in &q {
                thresholds.push(Threshold::ThresholdQuorum { threshold: t, quorum: *qq });
            }
        }
        for c in 1..=total + 1 {
            thresholds.push(Threshold::AbsoluteCount { threshold: Uint128::new(c.checked_mul(k).unwrap_or(u128::MAX)) });
        }
        Single { total, k, thresholds }
    }
}
fn single_status(sim: &Sim, m: &Addr) -> VResult<(Status, dao_proposal_single::proposal::SingleChoiceProposal)> {
    let r: dao_proposal_single::query::ProposalResponse = sim
        .query(m, &dao_proposal_single::msg::QueryMsg::Proposal { proposal_id: 1 })
        .map_err(|e| Violation::new(P01, "query-failed", format!("proposal query failed: {}", e)))?;
    Ok((r.proposal.status, r.proposal))
}
impl Harness for Single {
    type World = SWorld;
    type Model = ();
    type Op = SOp;
    fn setup(&self) -> (SWorld, ()) {
        let mut sim = Sim::new();
        let pt = sim.store(power_table());
        let sc = sim.store(single_code());
        let pp = sim.store(puppet());
        let target = sim.init(pp, "env", &serde_json::json!({}), &[], "target").unwrap();
        let dao = new_dao(
            &mut sim,
            power_module(pt, &[("yyy", 1)]),
            vec![mii(
                sc,
                &dao_proposal_single::msg::InstantiateMsg {
                    threshold: Threshold::AbsoluteCount { threshold: Uint128::one() },
                    max_voting_period: Duration::Height(VOTING),
                    min_voting_period: None,
                    only_members_execute: false,
                    allow_revoting: false,
                    pre_propose_info: PreProposeInfo::AnyoneMayPropose {},
                    close_proposal_on_execution_failure: true,
                    veto: None,
                },
                "single",
            )],
            None,
        );
        sim.seal();
        (SWorld { sim, dao, target }, ())
    }
    fn sim<'a>(&self, w: &'a mut SWorld) -> &'a mut Sim {
        &mut w.sim
    }
    fn ops(&self, _: &()) -> Vec<SOp> {
        let mut v = vec![];
        for thr in 0..self.thresholds.len() {
            for y in 0..=self.total {
                for n in 0..=self.total - y {
                    for a in 0..=self.total - y - n {
                        for var in [Variant::Plain, Variant::Revote, Variant::MinPeriod] {
                            let dys: &[i8] = if self.k > 1 && y > 0 { &[0, 1, -1] } else { &[0] };
                            for &dy in dys {
                                if dy == 1 && y + n + a == self.total {
                                    continue;
                                }
                                for rev in [false, true] {
                                    if rev && (self.k > 1 || (y > 0) as u8 + (n > 0) as u8 + (a > 0) as u8 <= 1) {
                                        continue;
                                    }
                                    v.push(SOp { thr, var, y, n, a, dy, rev });
                                }
                            }
                        }
                    }
                }
            }
        }
        v
    }
    fn step(&self, w: &mut SWorld, _m: &mut (), op: &SOp) -> VResult<String> {
        let thr = &self.thresholds[op.thr];
        let (core, voting, module) = (w.dao.core.clone(), w.dao.voting.clone(), w.dao.proposals[0].clone());
        let total = self.total * self.k;
        let y = (op.y * self.k).checked_add_signed(op.dy as i128).unwrap();
        let n = op.n * self.k;
        let a = op.a * self.k;
        let rest = total - y - n - a;
        set_powers(&mut w.sim, &voting, &[("yyy", y), ("nnn", n), ("abs", a), ("rest", rest)]);
        let cfg = dao_proposal_single::msg::ExecuteMsg::UpdateConfig {
            threshold: thr.clone(),
            max_voting_period: Duration::Height(VOTING),
            min_voting_period: if op.var == Variant::MinPeriod { Some(Duration::Height(MINV)) } else { None },
            only_members_execute: false,
            allow_revoting: op.var == Variant::Revote,
            dao: core.to_string(),
            close_proposal_on_execution_failure: true,
            veto: None,
        };
        w.sim
            .exec(&core, &module, &cfg, &[])
            .map_err(|e| Violation::new(P01, "valid-threshold-refused", format!("{:?}: {}", thr, e)))?;
        w.sim.advance(1, 5);
        let propose = dao_proposal_single::msg::ExecuteMsg::Propose(SingleChoiceProposeMsg {
            title: "t".into(),
            description: "d".into(),
            msgs: vec![hit(&w.target, 1)],
            proposer: None,
            vote: None,
        });
        w.sim
            .exec("proposer", &module, &propose, &[])
            .map_err(|e| Violation::new(P01, "propose-failed", format!("propose: {}", e)))?;
        let mut blocs = vec![("yyy", Vote::Yes, y), ("nnn", Vote::No, n), ("abs", Vote::Abstain, a)];
        if op.rev {
            blocs.reverse();
        }
        let ctx = |phase: &str| format!("{:?} {:?} y={} n={} a={} of {} {}", thr, op.var, y, n, a, total, phase);
        // completions of this tally, for judging early verdicts
        let early = |yy: u128, nn: u128, aa: u128, st: Status, phase: &str| -> VResult {
            match st {
                Status::Open => return Ok(()),
                Status::Passed | Status::Rejected => {}
                s => return Err(Violation::new(P01, "unexpected-status", format!("{} status {:?}", ctx(phase), s))),
            }
            ensure!(op.var != Variant::Revote, P01, "early-with-revoting", "{}: {:?} although ballots may be changed", ctx(phase), st);
            let r = total - yy - nn - aa;
            let parts: Vec<u128> = if self.k == 1 { (0..=r).collect() } else { vec![0, 1.min(r), r / 2, r.saturating_sub(1), r] };
            for &dy in &parts {
                for &dn in &parts {
                    if dy.checked_add(dn).map_or(true, |s| s > r) {
                        continue;
                    }
                    for &da in &parts {
                        if (dy + dn).checked_add(da).map_or(true, |s| s > r) {
                            continue;
                        }
                        let fin = single_rule(thr, yy + dy, nn + dn, aa + da, total);
                        let bad = match st {
                            Status::Passed => fin == Some(false),
                            _ => fin == Some(true),
                        };
                        ensure!(!bad, P01, "early-verdict-overturned", "{}: {:?} before expiry but {} more yes, {} no, {} abstain gives the opposite verdict", ctx(phase), st, dy, dn, da);
                    }
                }
            }
            Ok(())
        };
        let (mut cy, mut cn, mut ca) = (0u128, 0u128, 0u128);
        let (s0, _) = single_status(&w.sim, &module)?;
        early(0, 0, 0, s0, "no votes")?;
        for (who, v, p) in blocs {
            if p == 0 {
                continue;
            }
            let msg = dao_proposal_single::msg::ExecuteMsg::Vote { proposal_id: 1, vote: v, rationale: None };
            w.sim
                .exec(who, &module, &msg, &[])
                .map_err(|e| Violation::new(P01, "vote-refused", format!("{} {}: {}", ctx("voting"), who, e)))?;
            match v {
                Vote::Yes => cy += p,
                Vote::No => cn += p,
                Vote::Abstain => ca += p,
            }
            let (s, pr) = single_status(&w.sim, &module)?;
            same!((pr.votes.yes.u128(), pr.votes.no.u128(), pr.votes.abstain.u128()), (cy, cn, ca), P01, "tally", "{}", ctx("voting"));
            if op.var == Variant::MinPeriod {
                ensure!(s != Status::Passed, P01, "passed-before-min-period", "{}", ctx("before the minimum voting period"));
            }
            early(cy, cn, ca, s, "after a vote")?;
        }
        let (s_open, _) = single_status(&w.sim, &module)?;
        if op.var == Variant::MinPeriod {
            w.sim.advance(MINV - 1, 5);
            let (s, _) = single_status(&w.sim, &module)?;
            ensure!(s != Status::Passed, P01, "passed-before-min-period", "{}", ctx("last block of the minimum voting period"));
            early(y, n, a, s, "min period")?;
            w.sim.advance(1, 5);
            let (s, _) = single_status(&w.sim, &module)?;
            early(y, n, a, s, "after min period")?;
            w.sim.advance(VOTING - MINV - 1, 5);
        } else {
            w.sim.advance(VOTING - 1, 5);
        }
        let (s, _) = single_status(&w.sim, &module)?;
        early(y, n, a, s, "last voting block")?;
        w.sim.advance(1, 5);
        let (fin, _) = single_status(&w.sim, &module)?;
        let rule = single_rule(thr, y, n, a, total);
        match rule {
            Some(true) => same!(fin, Status::Passed, P01, "verdict", "{}", ctx("expired")),
            Some(false) => same!(fin, Status::Rejected, P01, "verdict", "{}", ctx("expired")),
            None => ensure!(fin == Status::Passed || fin == Status::Rejected, P01, "verdict", "{} {:?}", ctx("expired"), fin),
        }
        // the verdict is what execution and closing obey
        let ex = w.sim.exec("anyone", &module, &dao_proposal_single::msg::ExecuteMsg::Execute { proposal_id: 1 }, &[]);
        same!(ex.is_ok(), fin == Status::Passed, P01, "execute-follows-verdict", "{} execute", ctx("expired"));
        same!(hits(&w.sim, &w.target, 1), (fin == Status::Passed) as u64, P01, "execute-follows-verdict", "{} effects", ctx("expired"));
        Ok(format!("{:?}: open {:?} -> {:?}", op.var, s_open, fin))
    }
    fn invariant(&self, _: &mut SWorld, _: &()) -> VResult {
        Ok(())
    }
}

// ------------------------------------------------------------------------------------- P02
struct Multi {
    choices: usize, // without none-of-the-above
    total: u128,
    k: u128,
    quorums: Vec<PT>,
    spots: Option<Vec<usize>>, // the choices that get votes (all if none)
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct MOp {
    q: usize,
    var: Variant,
    votes: Vec<u128>, // per choice, last is none-of-the-above
    rev: bool,
}
fn multi_get(sim: &Sim, m: &Addr) -> VResult<(Status, Vec<u128>)> {
    let r: dao_proposal_multiple::query::ProposalResponse = sim
        .query(m, &dao_proposal_multiple::msg::QueryMsg::Proposal { proposal_id: 1 })
        .map_err(|e| Violation::new(P02, "query-failed", format!("proposal query failed: {}", e)))?;
    Ok((r.proposal.status, r.proposal.votes.vote_weights.iter().map(|x| x.u128()).collect()))
}
impl Harness for Multi {
    type World = SWorld;
    type Model = ();
    type Op = MOp;
    fn setup(&self) -> (SWorld, ()) {
        let mut sim = Sim::new();
        let pt = sim.store(power_table());
        let sc = sim.store(multiple_code());
        let pp = sim.store(puppet());
        let target = sim.init(pp, "env", &serde_json::json!({}), &[], "target").unwrap();
        let dao = new_dao(
            &mut sim,
            power_module(pt, &[("voter0", 1)]),
            vec![mii(
                sc,
                &dao_proposal_multiple::msg::InstantiateMsg {
                    voting_strategy: VotingStrategy::SingleChoice { quorum: PT::Majority {} },
                    max_voting_period: Duration::Height(VOTING),
                    min_voting_period: None,
                    only_members_execute: false,
                    allow_revoting: false,
                    pre_propose_info: PreProposeInfo::AnyoneMayPropose {},
                    close_proposal_on_execution_failure: true,
                    veto: None,
                },
                "multiple",
            )],
            None,
        );
        sim.seal();
        (SWorld { sim, dao, target }, ())
    }
    fn sim<'a>(&self, w: &'a mut SWorld) -> &'a mut Sim {
        &mut w.sim
    }
    fn ops(&self, _: &()) -> Vec<MOp> {
        let mut v = vec![];
        for q in 0..self.quorums.len() {
            let all = match &self.spots {
                None => partitions(self.total, self.choices + 1),
                Some(s) => partitions(self.total, s.len())
                    .into_iter()
                    .map(|p| {
                        let mut v = vec![0; self.choices + 1];
                        s.iter().zip(p).for_each(|(i, x)| v[*i] = x);
                        v
                    })
                    .collect(),
            };
            for votes in all {
                for var in [Variant::Plain, Variant::Revote, Variant::MinPeriod] {
                    for rev in [false, true] {
                        if rev && votes.iter().filter(|x| **x > 0).count() <= 1 {
                            continue;
                        }
                        v.push(MOp { q, var, votes: votes.clone(), rev });
                    }
                }
            }
        }
        v
    }
    fn step(&self, w: &mut SWorld, _m: &mut (), op: &MOp) -> VResult<String> {
        let q = &self.quorums[op.q];
        let (core, voting, module) = (w.dao.core.clone(), w.dao.voting.clone(), w.dao.proposals[0].clone());
        let total = self.total * self.k;
        let names: Vec<String> = (0..op.votes.len()).map(|i| format!("voter{}", i)).collect();
        let names: Vec<&str> = names.iter().map(|x| x.as_str()).collect();
        let votes: Vec<u128> = op.votes.iter().map(|x| x * self.k).collect();
        let mut powers: Vec<(&str, u128)> = votes.iter().enumerate().map(|(i, p)| (names[i], *p)).collect();
        powers.push(("rest", total - votes.iter().sum::<u128>()));
        set_powers(&mut w.sim, &voting, &powers);
        w.sim
            .exec(
                &core,
                &module,
                &dao_proposal_multiple::msg::ExecuteMsg::UpdateConfig {
                    voting_strategy: VotingStrategy::SingleChoice { quorum: *q },
                    max_voting_period: Duration::Height(VOTING),
                    min_voting_period: if op.var == Variant::MinPeriod { Some(Duration::Height(MINV)) } else { None },
                    only_members_execute: false,
                    allow_revoting: op.var == Variant::Revote,
                    dao: core.to_string(),
                    close_proposal_on_execution_failure: true,
                    veto: None,
                },
                &[],
            )
            .map_err(|e| Violation::new(P02, "valid-quorum-refused", format!("{:?}: {}", q, e)))?;
        w.sim.advance(1, 5);
        let options = (0..self.choices)
            .map(|i| MultipleChoiceOption { title: format!("c{}", i), description: "x".into(), msgs: vec![hit(&w.target, i as u64)] })
            .collect();
        w.sim
            .exec(
                "proposer",
                &module,
                &dao_proposal_multiple::msg::ExecuteMsg::Propose(MultipleChoiceProposeMsg {
                    title: "t".into(),
                    description: "d".into(),
                    choices: MultipleChoiceOptions { options },
                    proposer: None,
                    vote: None,
                }),
                &[],
            )
            .map_err(|e| Violation::new(P02, "propose-failed", format!("propose: {}", e)))?;
        let ctx = |phase: &str| format!("quorum {:?} {:?} votes {:?} of {} {}", q, op.var, votes, total, phase);
        let early = |cur: &[u128], st: Status, phase: &str| -> VResult {
            match st {
                Status::Open => return Ok(()),
                Status::Passed | Status::Rejected => {}
                s => return Err(Violation::new(P02, "unexpected-status", format!("{} {:?}", ctx(phase), s))),
            }
            ensure!(op.var != Variant::Revote, P02, "early-with-revoting", "{}: {:?}", ctx(phase), st);
            let r = (total - cur.iter().sum::<u128>()) / self.k;
            let mut winner: Option<usize> = None;
            for add in partitions(r, cur.len()) {
                let fin: Vec<u128> = cur.iter().zip(&add).map(|(a, b)| a + b * self.k).collect();
                let rule = multi_rule(q, &fin, total);
                let bad = match (st, rule) {
                    (Status::Passed, Some(None)) => true,
                    (Status::Passed, Some(Some(wi))) => winner.replace(wi).map_or(false, |o| o != wi),
                    (Status::Rejected, Some(Some(_))) => true,
                    _ => false,
                };
                ensure!(!bad, P02, "early-verdict-overturned", "{}: {:?} at {:?} before expiry but final tally {:?} decides otherwise", ctx(phase), st, cur, fin);
            }
            Ok(())
        };
        let mut cur = vec![0u128; votes.len()];
        let mut order: Vec<usize> = (0..votes.len()).collect();
        if op.rev {
            order.reverse();
        }
        for i in order {
            if votes[i] == 0 {
                continue;
            }
            w.sim
                .exec(
                    names[i],
                    &module,
                    &dao_proposal_multiple::msg::ExecuteMsg::Vote {
                        proposal_id: 1,
                        vote: MultipleChoiceVote { option_id: i as u32 },
                        rationale: None,
                    },
                    &[],
                )
                .map_err(|e| Violation::new(P02, "vote-refused", format!("{}: {}", ctx("voting"), e)))?;
            cur[i] += votes[i];
            let (s, t) = multi_get(&w.sim, &module)?;
            same!(t, cur, P02, "tally", "{}", ctx("voting"));
            if op.var == Variant::MinPeriod {
                ensure!(s != Status::Passed, P02, "passed-before-min-period", "{}", ctx("before the minimum voting period"));
            }
            early(&cur, s, "after a vote")?;
        }
        let (s_open, _) = multi_get(&w.sim, &module)?;
        if op.var == Variant::MinPeriod {
            w.sim.advance(MINV - 1, 5);
            let (s, _) = multi_get(&w.sim, &module)?;
            ensure!(s != Status::Passed, P02, "passed-before-min-period", "{}", ctx("last block of min period"));
            w.sim.advance(1, 5);
            let (s, _) = multi_get(&w.sim, &module)?;
            early(&cur, s, "after min period")?;
            w.sim.advance(VOTING - MINV - 1, 5);
        } else {
            w.sim.advance(VOTING - 1, 5);
        }
        let (s, _) = multi_get(&w.sim, &module)?;
        early(&cur, s, "last voting block")?;
        w.sim.advance(1, 5);
        let (fin, _) = multi_get(&w.sim, &module)?;
        let rule = multi_rule(q, &votes, total);
        match rule {
            Some(Some(_)) => same!(fin, Status::Passed, P02, "verdict", "{}", ctx("expired")),
            Some(None) => same!(fin, Status::Rejected, P02, "verdict", "{}", ctx("expired")),
            None => ensure!(fin == Status::Passed || fin == Status::Rejected, P02, "verdict", "{} {:?}", ctx("expired"), fin),
        }
        let ex = w.sim.exec("anyone", &module, &dao_proposal_multiple::msg::ExecuteMsg::Execute { proposal_id: 1 }, &[]);
        same!(ex.is_ok(), fin == Status::Passed, P02, "execute-follows-verdict", "{} execute {:?}", ctx("expired"), ex.err());
        for i in 0..self.choices {
            let want = (fin == Status::Passed && (0..votes.len()).all(|j| j == i || votes[j] < votes[i])) as u64;
            same!(hits(&w.sim, &w.target, i as u64), want, P02, "winner-messages", "{} effects of choice {}", ctx("expired"), i);
        }
        Ok(format!("{:?}: open {:?} -> {:?}", op.var, s_open, fin))
    }
    fn invariant(&self, _: &mut SWorld, _: &()) -> VResult {
        Ok(())
    }
}

fn plan(prop: &str, thorough: bool) -> Option<PropertyPlan> {
    match prop {
        "P01" => {
            let mut e = vec![];
            for t in 1..=(if thorough { 10 } else { 6 }) {
                e.push(Entry::new(format!("single total={}", t), Single::new(t, 1, t <= 5), 1));
            }
            let big = if thorough { 4 } else { 3 };
            e.push(Entry::new("single unit=10^18+7", Single::new(big, 1_000_000_000_000_000_007, false), 1));
            e.push(Entry::new("single unit=2^125", Single::new(big, 1u128 << 125, false), 1));
            Some(PropertyPlan {
                entries: e,
                rule: "every tally (yes,no,abstain) with sum <= total, in both voting orders, x every threshold of the boundary grid x {plain, revoting, minimum period}; each executed as propose/vote/status/execute on dao-proposal-single under dao-dao-core; final verdict vs. exact rational rule, early verdict vs. all completions",
                assumptions: vec!["voting power comes from a table-driven voting module", "verdicts within 1e-9 of one vote of a percentage boundary are accepted either way"],
            })
        }
        "P02" => {
            let qs = |t: u128| {
                let mut q = pts(t, false);
                q.push(PT::Percent(Decimal::zero()));
                q
            };
            let mut e = vec![];
            for t in 1..=(if thorough { 9 } else { 6 }) {
                e.push(Entry::new(format!("multiple 2+none total={}", t), Multi { choices: 2, total: t, k: 1, quorums: qs(t), spots: None }, 1));
            }
            for t in 1..=(if thorough { 7 } else { 4 }) {
                e.push(Entry::new(format!("multiple 3+none total={}", t), Multi { choices: 3, total: t, k: 1, quorums: qs(t), spots: None }, 1));
            }
            // more choices, up to the most a proposal may have
            for (c, ts) in [(4, if thorough { 4 } else { 3 }), (5, if thorough { 4 } else { 2 }), (12, 2), (19, if thorough { 3 } else { 2 }), (20, 2)] {
                e.push(Entry::new(format!("multiple {}+none total={}", c, ts), Multi { choices: c, total: ts, k: 1, quorums: qs(ts), spots: None }, 1));
            }
            // more power among some of many choices (quorums: the boundary grid's ends and middle)
            for (c, spots) in [(11, vec![0, 8, 10, 11]), (19, vec![1, 9, 17, 18, 19]), (20, vec![0, 15, 19, 20])] {
                for t in 3..=(if thorough { 6 } else { 4 }) {
                    let q = vec![PT::Majority {}, PT::Percent(Decimal::percent(50)), PT::Percent(Decimal::zero())];
                    e.push(Entry::new(format!("multiple {}+none total={} among {:?}", c, t, spots), Multi { choices: c, total: t, k: 1, quorums: q, spots: Some(spots.clone()) }, 1));
                }
            }
            e.push(Entry::new("multiple unit=2^124", Multi { choices: 2, total: 5, k: 1 << 124, quorums: qs(5), spots: None }, 1));
            Some(PropertyPlan {
                entries: e,
                rule: "every tally over 2 to 20 choices plus none-of-the-above with sum <= total, in both voting orders, x every quorum of the boundary grid x {plain, revoting, minimum period}; each executed as propose/vote/status/execute on dao-proposal-multiple; final verdict vs. plurality rule, early verdict vs. all completions, messages run vs. winner",
                assumptions: vec!["voting power comes from a table-driven voting module"],
            })
        }
        "P07" => {
            let qs = [PT::Percent(Decimal::zero()), PT::Percent(Decimal::percent(50)), PT::Majority {}, PT::Percent(Decimal::one())];
            let mut e = vec![];
            for (i, q) in qs.iter().enumerate() {
                for (mp, cf, bm) in [(false, true, false), (true, true, true), (false, false, true)] {
                    if !thorough && mp && i % 2 == 0 {
                        continue;
                    }
                    e.push(Entry::new(
                        format!("condorcet 3 candidates weights 1,1,2 quorum#{} min={} close={} boom={}", i, mp, cf, bm),
                        Condorcet { weights: vec![1, 1, 2], choices: 2, quorum: *q, min_period: mp, close_on_failure: cf, boom: bm, changes: false },
                        if thorough { 8 } else { 6 },
                    ));
                }
            }
            for (cf, bm) in [(true, true), (false, true), (true, false)] {
                e.push(Entry::new(
                    format!("condorcet 2 candidates changing settings close={} boom={}", cf, bm),
                    Condorcet { weights: vec![2, 1, 1], choices: 1, quorum: PT::Percent(Decimal::percent(60)), min_period: true, close_on_failure: cf, boom: bm, changes: true },
                    if thorough { 10 } else { 8 },
                ));
            }
            e.push(Entry::new(
                "condorcet 2 candidates weights 3,2,2,1",
                Condorcet { weights: vec![3, 2, 2, 1], choices: 1, quorum: PT::Percent(Decimal::percent(50)), min_period: true, close_on_failure: true, boom: false, changes: false },
                if thorough { 9 } else { 7 },
            ));
            for (choices, weights, d) in [(3, vec![2, 1], (4, 6)), (4, vec![2, 1, 2], (4, 6)), (5, vec![1, 1, 1], (4, 6)), (8, vec![3, 2, 2], (3, 5)), (12, vec![1, 2], (4, 5)), (35, vec![2, 1], (4, 5))] {
                e.push(Entry::new(
                    format!("condorcet {} candidates weights {:?}", choices + 1, weights),
                    Condorcet { weights, choices, quorum: PT::Majority {}, min_period: false, close_on_failure: true, boom: false, changes: false },
                    if thorough { d.1 } else { d.0 },
                ));
            }
            e.extend(ManyCondorcet::entries(thorough));
            if thorough {
                e.push(Entry::new(
                    "condorcet 3 candidates weights 1,1,1,1",
                    Condorcet { weights: vec![1, 1, 1, 1], choices: 2, quorum: PT::Percent(Decimal::percent(75)), min_period: false, close_on_failure: true, boom: false, changes: false },
                    7,
                ));
                e.push(Entry::new(
                    "condorcet 4 candidates weights 2,1,2",
                    Condorcet { weights: vec![2, 1, 2], choices: 3, quorum: PT::Percent(Decimal::percent(40)), min_period: false, close_on_failure: true, boom: false, changes: false },
                    5,
                ));
            }
            Some(PropertyPlan {
                entries: e,
                rule: "every order of every ballot (all permutations of up to four candidates, rotations of five to thirteen, some of thirty-six, malformed ballots, repeats, outsiders) by 2-4 weighted voters interleaved with expiry, execute and close on dao-proposal-condorcet; verdicts vs. pairwise margins recomputed from the ballots, early verdicts vs. every completion",
                assumptions: vec!["voting power comes from a table-driven voting module"],
            })
        }
        _ => None,
    }
}
fn main() {
    run_main(plan)
}
