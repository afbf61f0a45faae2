//! R02 DAO rewards distributor, R03 fund distributor.
#![allow(non_snake_case)]
use cosmwasm_std::to_json_binary;
use cw_utils::Duration;
use mc::main_util::{run_main, Entry, PropertyPlan};
use mc::mocks::*;
use mc::own::{own_ops, Own, OwnAct};
use mc::sim::{coins, ExecResult, Sim};
use mc::until::Now;
use mc::{ensure, same, Harness, VResult, Violation};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

const R2: &[&str] = &["R02"];
const R3: &[&str] = &["R03"];

/// 0..2 members, then owner, owner to be, outsider
const NAMES: [&str; 6] = ["ann", "bob", "cat", "own", "new", "eve"];
const OWNER: u8 = 3;
const NEW: u8 = 4;
const EVE: u8 = 5;
fn who(i: u8) -> String {
    NAMES[i as usize].to_string()
}
fn u(v: &Value) -> u128 {
    v.as_str().map(|s| s.parse().unwrap()).or(v.as_u64().map(|x| x as u128)).unwrap_or_else(|| panic!("not a number: {}", v))
}
/// every total power up to twelve divides it
const L: u128 = 27720;

// ---------------------------------------------------------------- where power comes from
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Src {
    Token,
    Cw20,
    Group,
    Nft,
}
struct Power {
    src: Src,
    voting: String,
    hook: String,
    asset: String,
}
fn cw20_token(sim: &mut Sim, code: u64, label: &str, each: u128) -> String {
    sim.init(
        code,
        "whale",
        &cw20_base::msg::InstantiateMsg {
            name: label.into(),
            symbol: "TOK".into(),
            decimals: 6,
            initial_balances: NAMES.iter().map(|n| cw20::Cw20Coin { address: n.to_string(), amount: each.into() }).collect(),
            mint: None,
            marketing: None,
        },
        &[],
        label,
    )
    .unwrap()
    .to_string()
}
fn nft_id(i: u8, k: u128) -> String {
    format!("{}-{}", NAMES[i as usize], k)
}
impl Power {
    /// the real voting module of this kind, owned by "dao"
    fn new(sim: &mut Sim, src: Src) -> Power {
        let dao = "dao";
        match src {
            Src::Token => {
                for n in NAMES {
                    sim.mint(n, 1000, "ugov");
                }
                let c = sim.store(vtoken_code());
                let v = sim
                    .init(
                        c,
                        dao,
                        &dao_voting_token_staked::msg::InstantiateMsg {
                            token_info: dao_voting_token_staked::msg::TokenInfo::Existing { denom: "ugov".into() },
                            unstaking_duration: None,
                            active_threshold: None,
                        },
                        &[],
                        "v",
                    )
                    .unwrap()
                    .to_string();
                Power { src, hook: v.clone(), voting: v, asset: "ugov".into() }
            }
            Src::Cw20 => {
                let cc = sim.store(cw20_code());
                let asset = cw20_token(sim, cc, "gov", 1000);
                let sc = sim.store(stake_code());
                let c = sim.store(vcw20_code());
                let hook = sim
                    .init(
                        sc,
                        dao,
                        &cw20_stake::msg::InstantiateMsg { owner: Some(dao.into()), token_address: asset.clone(), unstaking_duration: None },
                        &[],
                        "s",
                    )
                    .unwrap()
                    .to_string();
                let v = sim
                    .init(
                        c,
                        dao,
                        &dao_voting_cw20_staked::msg::InstantiateMsg {
                            token_info: dao_voting_cw20_staked::msg::TokenInfo::Existing {
                                address: asset.clone(),
                                staking_contract: dao_voting_cw20_staked::msg::StakingInfo::Existing { staking_contract_address: hook.clone() },
                            },
                            active_threshold: None,
                        },
                        &[],
                        "v",
                    )
                    .unwrap()
                    .to_string();
                Power { src, hook, voting: v, asset }
            }
            Src::Group => {
                let gc = sim.store(cw4_code());
                let c = sim.store(vcw4_code());
                let hook = sim
                    .init(gc, dao, &cw4_group::msg::InstantiateMsg { admin: Some(dao.into()), members: vec![cw4::Member { addr: "seed".into(), weight: 1 }] }, &[], "g")
                    .unwrap()
                    .to_string();
                let v = sim
                    .init(
                        c,
                        dao,
                        &dao_voting_cw4::msg::InstantiateMsg {
                            group_contract: dao_voting_cw4::msg::GroupContract::Existing { address: hook.clone() },
                        },
                        &[],
                        "v",
                    )
                    .unwrap()
                    .to_string();
                sim.exec(dao, &hook, &json!({"update_members": {"remove": ["seed"], "add": []}}), &[]).unwrap();
                Power { src, asset: hook.clone(), hook, voting: v }
            }
            Src::Nft => {
                let nc = sim.store(cw721_code());
                let c = sim.store(vcw721_code());
                let asset = sim
                    .init(nc, dao, &json!({"name": "n", "symbol": "n", "minter": "dao"}), &[], "n")
                    .unwrap()
                    .to_string();
                for i in 0..3u8 {
                    for k in 0..3 {
                        sim.exec(dao, &asset, &json!({"mint": {"token_id": nft_id(i, k), "owner": who(i), "extension": null}}), &[]).unwrap();
                    }
                }
                let v = sim
                    .init(
                        c,
                        dao,
                        &dao_voting_cw721_staked::msg::InstantiateMsg {
                            nft_contract: dao_voting_cw721_staked::msg::NftContract::Existing { address: asset.clone() },
                            unstaking_duration: None,
                            active_threshold: None,
                        },
                        &[],
                        "v",
                    )
                    .unwrap()
                    .to_string();
                Power { src, hook: v.clone(), voting: v, asset }
            }
        }
    }
    fn subscribe(&self, sim: &mut Sim, to: &str) {
        sim.exec("dao", &self.hook, &json!({"add_hook": {"addr": to}}), &[]).unwrap();
    }
    /// change members' powers from -> to in one transaction each (groups: in one message)
    fn set(&self, sim: &mut Sim, changes: &[(u8, u128, u128)]) -> ExecResult {
        self.set_among(sim, changes, 0)
    }
    fn set_among(&self, sim: &mut Sim, changes: &[(u8, u128, u128)], fill: usize) -> ExecResult {
        if self.src == Src::Group {
            // many others without weight come first (the group sorts by address)
            let mut add: Vec<Value> = (0..fill).map(|k| json!({"addr": format!("aa{:02}", k), "weight": 0})).collect();
            let mut remove = vec![];
            for (i, _, to) in changes {
                if *to == 0 {
                    remove.push(json!(who(*i)));
                } else {
                    add.push(json!({"addr": who(*i), "weight": *to as u64}));
                }
            }
            return sim.exec("dao", &self.hook, &json!({"update_members": {"add": add, "remove": remove}}), &[]);
        }
        let mut r = Ok(Default::default());
        for (i, from, to) in changes {
            r = match self.src {
                Src::Token if to > from => sim.exec(who(*i), &self.voting, &json!({"stake": {}}), &coins(to - from, "ugov")),
                Src::Token => sim.exec(who(*i), &self.voting, &json!({"unstake": {"amount": (from - to).to_string()}}), &[]),
                Src::Cw20 if to > from => sim.exec(
                    who(*i),
                    &self.asset,
                    &json!({"send": {"contract": self.hook, "amount": (to - from).to_string(), "msg": to_json_binary(&json!({"stake": {}})).unwrap()}}),
                    &[],
                ),
                Src::Cw20 => sim.exec(who(*i), &self.hook, &json!({"unstake": {"amount": (from - to).to_string()}}), &[]),
                Src::Nft if to > from => {
                    let mut x = Ok(Default::default());
                    for k in *from..*to {
                        x = sim.exec(
                            who(*i),
                            &self.asset,
                            &json!({"send_nft": {"contract": self.voting, "token_id": nft_id(*i, k), "msg": to_json_binary(&json!({})).unwrap()}}),
                            &[],
                        );
                        if x.is_err() {
                            break;
                        }
                    }
                    x
                }
                Src::Nft => sim.exec(who(*i), &self.voting, &json!({"unstake": {"token_ids": (*to..*from).map(|k| nft_id(*i, k)).collect::<Vec<_>>()}}), &[]),
                Src::Group => unreachable!(),
            };
            if r.is_err() {
                break;
            }
        }
        r
    }
}

// ---------------------------------------------------------------- R02
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Rate {
    Paused,
    Immediate,
    /// amount, duration, in seconds, continuous
    Linear(u64, u64, bool, bool),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Op {
    /// set a member's power
    Power(u8, u8),
    /// two members' powers in one message (groups)
    Powers(u8, u8, u8, u8),
    /// a member's power in one message with many more (groups)
    Crowd(u8, u8),
    /// by, distribution, amount
    Fund(u8, u8, u32),
    FundLatest(u8, u32),
    /// no such distribution, wrong token, two kinds of coins, none
    FundWrong(u8, u8),
    Claim(u8, u8),
    Rate(u8, u8, Rate),
    BadRate(u8, Rate),
    Withdraw(u8, u8),
    Open(u8, u8, bool),
    Dest(u8, u8),
    /// rate, funding and destination changed in one message
    Several(u8, u8, Rate, bool),
    /// a request that takes no payment comes with coins: claim, withdrawal, change, transfer of ownership
    Coins(u8, u8, u8),
    Create(u8, Rate, u32),
    Forge(u8, u8),
    /// by, distribution, to the contract that announces changes or to eve
    Caller(u8, u8, bool),
    Own(u8, OwnAct),
    Tick(u64),
}
#[derive(Clone, Debug, PartialEq, Hash)]
struct Dist {
    /// told of changes by the contract that announces them
    hooked: bool,
    /// was at some time not told of changes: what it accrues is the owner's doing
    loose: bool,
    rate: Rate,
    cw20: bool,
    funded: u128,
    start: Option<u64>,
    end: Option<u64>,
    /// whole periods since start already given out
    done: u64,
    open: bool,
    dest: u8,
    /// accrued in units of 1/L
    acc: BTreeMap<u8, u128>,
    /// value of `acc` when last settled, roundings so far
    settled: BTreeMap<u8, (u128, u128)>,
    paid: BTreeMap<u8, u128>,
    total_in: u128,
    total_out: u128,
}
#[derive(Clone, Debug, PartialEq, Hash)]
struct M {
    power: BTreeMap<u8, u128>,
    dists: Vec<Dist>,
    own: Own,
    /// power changed in this block
    moved: bool,
    /// funds were given out at once in a block in which power had already changed
    tainted: bool,
    now: Now,
}
impl Dist {
    fn new(rate: Rate, cw20: bool) -> Dist {
        Dist {
            hooked: true,
            loose: false,
            rate,
            cw20,
            funded: 0,
            start: None,
            end: None,
            done: 0,
            open: true,
            dest: OWNER,
            acc: BTreeMap::new(),
            settled: BTreeMap::new(),
            paid: BTreeMap::new(),
            total_in: 0,
            total_out: 0,
        }
    }
    fn at(&self, now: Now) -> u64 {
        match self.rate {
            Rate::Linear(_, _, true, _) => now.1,
            _ => now.0,
        }
    }
    fn expired(&self, now: Now) -> bool {
        self.end.map(|e| self.at(now) >= e).unwrap_or(false)
    }
    fn share(&mut self, amount: u128, power: &BTreeMap<u8, u128>) {
        let t: u128 = power.values().sum();
        for (i, p) in power {
            if *p > 0 {
                *self.acc.entry(*i).or_insert(0) += amount * p * (L / t);
            }
        }
    }
    /// give out every period completed by now
    fn run(&mut self, power: &BTreeMap<u8, u128>, now: Now) {
        if let (Rate::Linear(a, d, _, _), Some(s), Some(e)) = (self.rate, self.start, self.end) {
            let n = (self.at(now).min(e).saturating_sub(s)) / d;
            if n > self.done {
                self.share(a as u128 * (n - self.done) as u128, power);
                self.done = n;
            }
        }
    }
    fn distributed(&self) -> u128 {
        match self.rate {
            Rate::Paused => 0,
            Rate::Immediate => self.funded,
            Rate::Linear(a, ..) => a as u128 * self.done as u128,
        }
    }
    fn length(&self) -> u64 {
        match self.rate {
            Rate::Linear(a, d, ..) => (d as u128 * self.funded / a as u128) as u64,
            _ => 0,
        }
    }
    fn settle(&mut self, i: u8) {
        let a = *self.acc.get(&i).unwrap_or(&0);
        let s = self.settled.entry(i).or_insert((0, 0));
        if s.0 != a {
            *s = (a, s.1 + 1);
        }
    }
    /// funding now gives something out at once
    fn at_once(&self, now: Now) -> bool {
        match self.rate {
            Rate::Immediate => true,
            Rate::Linear(_, _, _, c) => c && self.funded > 0 && self.expired(now),
            _ => false,
        }
    }
}
struct W {
    sim: Sim,
    pw: Power,
    dist: String,
    rew: String,
    junk: String,
}
struct H {
    src: Src,
    cw20: bool,
    members: u8,
    powers: Vec<u8>,
    pairs: bool,
    rate: Rate,
    rates: Vec<Rate>,
    funds: Vec<u32>,
    ticks: Vec<u64>,
    withdraw: bool,
    authority: bool,
    create: Option<(Rate, u32)>,
    callers: bool,
    /// include fundings given out at once after power moved in the same block
    same_block: bool,
    pre: Vec<Op>,
}
fn canon(_k: &[u8], v: &[u8]) -> Option<Vec<u8>> {
    let pat = b"pending_rewards";
    if v.len() > pat.len() && v.windows(pat.len()).any(|w| w == pat) {
        let j: BTreeMap<String, BTreeMap<String, Value>> = serde_json::from_slice(v).ok()?;
        return serde_json::to_vec(&j).ok();
    }
    None
}
impl H {
    fn key(&self, m: &M, k: &str) -> String {
        if m.tainted {
            "same-block-grant".into()
        } else {
            k.into()
        }
    }
    fn rbal(&self, w: &W, cw20: bool, a: &str) -> u128 {
        if cw20 {
            w.sim.cw20(&w.rew, a)
        } else {
            w.sim.bal(a, "urew")
        }
    }
    fn pending(&self, w: &W, m: &M, i: u8) -> VResult<Vec<u128>> {
        let mut list: Vec<Value> = vec![];
        let mut res: anyhow::Result<()> = Ok(());
        loop {
            let start = list.last().map(|d| d["id"].clone());
            match w.sim.query::<_, Value>(&w.dist, &json!({"pending_rewards": {"address": who(i), "start_after": start}})) {
                Ok(v) => {
                    let page = v["pending_rewards"].as_array().unwrap().clone();
                    let last = list.len() + page.len() >= m.dists.len() || page.is_empty();
                    list.extend(page);
                    if last {
                        break;
                    }
                }
                Err(e) => {
                    res = Err(anyhow::anyhow!("{}", e));
                    break;
                }
            }
        }
        match res {
            Ok(()) => {
                let v = &list;
                same!(v.len(), m.dists.len(), R2, "pending-list", "distributions in the pending rewards of {}", who(i));
                for (k, d) in v.iter().enumerate() {
                    same!(d["id"].as_u64(), Some(k as u64 + 1), R2, "pending-list", "distribution listed for {}", who(i));
                }
                Ok(v.iter().map(|d| u(&d["pending_rewards"])).collect())
            }
            Err(e) => Err(Violation::new(R2, self.key(m, "pending-query"), format!("pending rewards of {} cannot be queried: {}", who(i), e))),
        }
    }
    fn rate_json(r: Rate) -> Value {
        match r {
            Rate::Paused => json!({"paused": {}}),
            Rate::Immediate => json!({"immediate": {}}),
            Rate::Linear(a, d, t, c) => {
                json!({"linear": {"amount": a.to_string(), "duration": if t { Duration::Time(d) } else { Duration::Height(d) }, "continuous": c}})
            }
        }
    }
    fn send_fund(&self, w: &mut W, by: u8, cw20: bool, amount: u128, msg: Value) -> ExecResult {
        if cw20 {
            let m = json!({"send": {"contract": w.dist, "amount": amount.to_string(), "msg": to_json_binary(&msg).unwrap()}});
            w.sim.exec(who(by), &w.rew, &m, &[])
        } else {
            w.sim.exec(who(by), &w.dist, &msg, &coins(amount, "urew"))
        }
    }
    /// what funding does; false if it is refused
    fn fund(&self, m: &mut M, d: usize, by: u8, x: u128) -> bool {
        let now = m.now;
        let t: u128 = m.power.values().sum();
        let owner = m.own.is(by);
        let D = &mut m.dists[d];
        if !(D.open || owner) {
            return false;
        }
        if D.at_once(now) && m.moved {
            m.tainted = true;
        }
        match D.rate {
            Rate::Paused => D.funded += x,
            Rate::Immediate => {
                if t == 0 {
                    return false;
                }
                D.funded += x;
                D.share(x, &m.power);
            }
            Rate::Linear(_, _, _, cont) => {
                if D.funded == 0 || (!cont && D.expired(now)) {
                    D.funded = x;
                    D.start = Some(D.at(now));
                    D.done = 0;
                } else {
                    D.funded += x;
                }
                D.end = Some(D.start.unwrap() + D.length());
                D.run(&m.power, now);
            }
        }
        D.total_in += x;
        true
    }
}
#[allow(non_snake_case)]
impl Harness for H {
    type World = W;
    type Model = M;
    type Op = Op;
    fn sim<'a>(&self, w: &'a mut W) -> &'a mut Sim {
        &mut w.sim
    }
    fn setup(&self) -> (W, M) {
        let mut sim = Sim::new();
        sim.set_canon(canon);
        let cc = sim.store(cw20_code());
        let rew = cw20_token(&mut sim, cc, "rew", 1_000_000);
        let junk = cw20_token(&mut sim, cc, "junk", 1_000_000);
        for n in NAMES {
            sim.mint(n, 1_000_000, "urew");
            sim.mint(n, 1_000_000, "ujunk");
            sim.mint(n, 100, "ufee");
        }
        let pw = Power::new(&mut sim, self.src);
        let rc = sim.store(rewards_code());
        let dist = sim
            .init(rc, "whale", &dao_rewards_distributor::msg::InstantiateMsg { owner: Some(who(OWNER)) }, &[], "r")
            .unwrap()
            .to_string();
        pw.subscribe(&mut sim, &dist);
        let m = M {
            power: BTreeMap::new(),
            dists: vec![],
            own: Own::new(Some(OWNER)),
            moved: false,
            tainted: false,
            now: (sim.height(), sim.time()),
        };
        let mut w = W { sim, pw, dist, rew, junk };
        let mut m = m;
        self.step(&mut w, &mut m, &Op::Create(OWNER, self.rate, 0)).unwrap();
        for op in &self.pre {
            self.step(&mut w, &mut m, op).unwrap();
        }
        w.sim.seal();
        (w, m)
    }
    fn ops(&self, m: &M) -> Vec<Op> {
        let mut o = vec![];
        for t in &self.ticks {
            o.push(Op::Tick(*t));
        }
        for i in 0..self.members {
            for p in &self.powers {
                let p = *p as u128;
                let cur = *m.power.get(&i).unwrap_or(&0);
                if p != cur && m.power.values().sum::<u128>() - cur + p <= 12 {
                    o.push(Op::Power(i, p as u8));
                }
            }
        }
        if self.pairs {
            o.push(Op::Powers(0, 1, 1, 2));
            o.push(Op::Powers(0, 2, 1, 0));
            let to = if m.power.get(&0).copied().unwrap_or(0) == 2 { 1 } else { 2 };
            o.push(Op::Crowd(0, to));
        }
        let one = *self.funds.first().unwrap_or(&10);
        if self.callers {
            for (k, d) in m.dists.iter().enumerate() {
                o.push(Op::Caller(OWNER, k as u8, !d.hooked));
                o.push(Op::Caller(EVE, k as u8, false));
            }
            o.push(Op::Caller(OWNER, 0, m.dists[0].hooked));
            for h in 0..3 {
                o.push(Op::Forge(EVE, h));
            }
        }
        for (k, d) in m.dists.iter().enumerate() {
            let k = k as u8;
            if d.loose {
                continue;
            }
            let clash = m.moved && !self.same_block;
            for i in 0..self.members {
                o.push(Op::Claim(i, k));
            }
            if !(clash && d.at_once(m.now)) {
                for f in &self.funds {
                    o.push(Op::Fund(OWNER, k, *f));
                }
                if self.authority {
                    o.push(Op::Fund(EVE, k, one));
                    if k as usize + 1 == m.dists.len() {
                        o.push(Op::FundLatest(EVE, one));
                    }
                }
            }
            for r in &self.rates {
                if !(clash && *r == Rate::Immediate) {
                    o.push(Op::Rate(OWNER, k, *r));
                }
            }
            if self.withdraw {
                o.push(Op::Withdraw(OWNER, k));
            }
            if self.authority {
                o.push(Op::Withdraw(EVE, k));
                o.push(Op::Withdraw(NEW, k));
                o.push(Op::Rate(EVE, k, Rate::Paused));
                o.push(Op::Open(OWNER, k, !d.open));
                o.push(Op::Open(EVE, k, !d.open));
                if !(clash && self.rate == Rate::Immediate) {
                    let r = if d.rate == self.rate { Rate::Linear(1, 2, true, true) } else { self.rate };
                    o.push(Op::Several(OWNER, k, r, !d.open));
                    o.push(Op::Several(EVE, k, r, !d.open));
                }
                for a in 0..4 {
                    o.push(Op::Coins(OWNER, k, a));
                }
                o.push(Op::Coins(0, k, 0));
                if d.dest == OWNER {
                    o.push(Op::Dest(OWNER, k));
                    o.push(Op::Dest(EVE, k));
                }
            }
        }
        if self.authority {
            o.extend((0..if self.cw20 { 2 } else { 4 }).map(|k| Op::FundWrong(OWNER, k)));
            for r in [Rate::Linear(0, 2, false, false), Rate::Linear(2, 0, true, true)] {
                o.push(Op::BadRate(OWNER, r));
            }
            for h in 0..3 {
                o.push(Op::Forge(0, h));
            }
            o.push(Op::Claim(EVE, 0));
            o.push(Op::Claim(0, 7));
            for (a, x) in own_ops(&m.own, &[OWNER, NEW, EVE], NEW) {
                o.push(Op::Own(a, x));
            }
            o.push(Op::Create(EVE, Rate::Paused, 0));
        }
        if let Some((r, f)) = self.create {
            if m.dists.len() < 2 && !(m.moved && !self.same_block && r == Rate::Immediate) {
                o.push(Op::Create(OWNER, r, 0));
                if f > 0 {
                    o.push(Op::Create(OWNER, r, f));
                }
            }
        }
        o
    }
    fn step(&self, w: &mut W, m: &mut M, op: &Op) -> VResult<String> {
        let now = m.now;
        let before: Vec<Vec<u128>> = (0..6).map(|i| self.pending(w, m, i)).collect::<VResult<_>>()?;
        let rb: Vec<[u128; 2]> = NAMES.iter().map(|n| [self.rbal(w, false, n), self.rbal(w, true, n)]).collect();
        // (member, distribution) whose pending rewards may change
        let mut may: BTreeSet<(u8, u8)> = BTreeSet::new();
        let all = |d: u8| (0..6).map(move |i| (i, d));
        let mut gain: BTreeMap<(u8, bool), i128> = BTreeMap::new();
        let (r, want): (ExecResult, bool) = match op {
            Op::Tick(n) => {
                w.sim.advance(*n, *n * 5);
                m.now = (now.0 + n, now.1 + n * 5);
                m.moved = false;
                for d in m.dists.iter_mut() {
                    d.run(&m.power, m.now);
                }
                for d in 0..m.dists.len() {
                    may.extend(all(d as u8));
                }
                (Ok(Default::default()), true)
            }
            Op::Power(i, p) | Op::Crowd(i, p) => {
                let from = *m.power.get(i).unwrap_or(&0);
                let fill = if matches!(op, Op::Crowd(..)) { 40 } else { 0 };
                let r = w.pw.set_among(&mut w.sim, &[(*i, from, *p as u128)], fill);
                // a contract that no longer expects the notice refuses it
                let ok = m.dists.iter().any(|d| d.hooked);
                if ok {
                    m.power.insert(*i, *p as u128);
                    m.moved = true;
                    for d in m.dists.iter_mut() {
                        d.settle(*i);
                    }
                }
                (r, ok)
            }
            Op::Powers(i, p, j, q) => {
                let c: Vec<_> = [(*i, *p), (*j, *q)].iter().map(|(i, p)| (*i, *m.power.get(i).unwrap_or(&0), *p as u128)).collect();
                let r = w.pw.set(&mut w.sim, &c);
                for (i, _, p) in c {
                    m.power.insert(i, p);
                    for d in m.dists.iter_mut() {
                        d.settle(i);
                    }
                }
                m.moved = true;
                (r, true)
            }
            Op::Fund(by, d, x) => {
                let cw20 = m.dists[*d as usize].cw20;
                let r = self.send_fund(w, *by, cw20, *x as u128, json!({"fund": {"id": d + 1}}));
                if m.dists[*d as usize].at_once(now) {
                    may.extend(all(*d));
                }
                let ok = self.fund(m, *d as usize, *by, *x as u128);
                if ok {
                    gain.insert((*by, cw20), -(*x as i128));
                }
                (r, ok)
            }
            Op::FundLatest(by, x) => {
                let d = m.dists.len() - 1;
                let cw20 = m.dists[d].cw20;
                let r = self.send_fund(w, *by, cw20, *x as u128, json!({"fund_latest": {}}));
                if m.dists[d].at_once(now) {
                    may.extend(all(d as u8));
                }
                let ok = self.fund(m, d, *by, *x as u128);
                if ok {
                    gain.insert((*by, cw20), -(*x as i128));
                }
                (r, ok)
            }
            Op::FundWrong(by, k) => {
                let r = if *k > 1 {
                    let c = if *k == 2 { vec![cosmwasm_std::coin(10, "ujunk"), cosmwasm_std::coin(10, "urew")] } else { vec![] };
                    w.sim.exec(who(*by), &w.dist, &json!({"fund": {"id": 1}}), &c)
                } else if *k == 1 {
                    if self.cw20 {
                        let msg = json!({"send": {"contract": w.dist, "amount": "10", "msg": to_json_binary(&json!({"fund": {"id": 1}})).unwrap()}});
                        w.sim.exec(who(*by), &w.junk, &msg, &[])
                    } else {
                        w.sim.exec(who(*by), &w.dist, &json!({"fund": {"id": 1}}), &coins(10, "ujunk"))
                    }
                } else {
                    self.send_fund(w, *by, self.cw20, 10, json!({"fund": {"id": 9}}))
                };
                (r, false)
            }
            Op::Claim(i, d) => {
                let r = w.sim.exec(who(*i), &w.dist, &json!({"claim": {"id": d + 1}}), &[]);
                let p = before[*i as usize].get(*d as usize).copied().unwrap_or(0);
                let ok = p > 0;
                if let Some(D) = m.dists.get_mut(*d as usize) {
                    if ok {
                        D.settle(*i);
                        *D.paid.entry(*i).or_insert(0) += p;
                        gain.insert((*i, D.cw20), p as i128);
                    }
                }
                if ok && r.is_ok() {
                    let now_p = self.pending(w, m, *i)?[*d as usize];
                    same!(now_p, 0, R2, self.key(m, "claim-left"), "pending rewards of {} right after claiming", who(*i));
                    may.insert((*i, *d));
                }
                (r, ok)
            }
            Op::Rate(by, d, rate) | Op::Several(by, d, rate, _) => {
                let mut msg = json!({"update": {"id": d + 1, "emission_rate": Self::rate_json(*rate)}});
                if let Op::Several(_, _, _, open) = op {
                    msg["update"]["open_funding"] = json!(open);
                    msg["update"]["withdraw_destination"] = json!(who(NEW));
                }
                let r = w.sim.exec(who(*by), &w.dist, &msg, &[]);
                let t: u128 = m.power.values().sum();
                let mut ok = m.own.is(*by);
                let moved = m.moved;
                let mut taint = false;
                let D = &mut m.dists[*d as usize];
                if ok && D.rate != *rate {
                    let left = D.funded - D.distributed();
                    match rate {
                        Rate::Immediate if t == 0 => ok = false,
                        _ => {
                            D.funded = left;
                            D.rate = *rate;
                            D.done = 0;
                            D.start = None;
                            D.end = None;
                            match rate {
                                Rate::Paused => {}
                                Rate::Immediate => {
                                    may.extend(all(*d));
                                    D.share(left, &m.power);
                                    taint = moved && left > 0;
                                }
                                Rate::Linear(..) => {
                                    D.start = Some(D.at(now));
                                    D.end = Some(D.at(now) + D.length());
                                }
                            }
                        }
                    }
                }
                if let (Op::Several(_, _, _, open), true) = (op, ok) {
                    D.open = *open;
                    D.dest = NEW;
                }
                m.tainted |= taint;
                (r, ok)
            }
            Op::Coins(by, d, a) => {
                let msg = match a {
                    0 => json!({"claim": {"id": d + 1}}),
                    1 => json!({"withdraw": {"id": d + 1}}),
                    2 => json!({"update": {"id": d + 1, "open_funding": !m.dists[*d as usize].open}}),
                    _ => json!({"update_ownership": {"transfer_ownership": {"new_owner": who(NEW), "expiry": null}}}),
                };
                (w.sim.exec(who(*by), &w.dist, &msg, &coins(1, "ufee")), false)
            }
            Op::BadRate(by, rate) => {
                let r = w.sim.exec(who(*by), &w.dist, &json!({"update": {"id": 1, "emission_rate": Self::rate_json(*rate)}}), &[]);
                (r, false)
            }
            Op::Withdraw(by, d) => {
                let r = w.sim.exec(who(*by), &w.dist, &json!({"withdraw": {"id": d + 1}}), &[]);
                let D = &mut m.dists[*d as usize];
                let back = D.funded - D.distributed();
                // taking back nothing may be accepted or refused
                let ok = m.own.is(*by) && !D.expired(now) && (back > 0 || r.is_ok());
                if ok {
                    if let (Rate::Linear(..), Some(_)) = (D.rate, D.start) {
                        D.end = Some(D.at(now));
                    }
                    D.funded -= back;
                    D.total_out += back;
                    gain.insert((D.dest, D.cw20), back as i128);
                }
                (r, ok)
            }
            Op::Open(by, d, o) => {
                let r = w.sim.exec(who(*by), &w.dist, &json!({"update": {"id": d + 1, "open_funding": o}}), &[]);
                let ok = m.own.is(*by);
                if ok {
                    m.dists[*d as usize].open = *o;
                }
                (r, ok)
            }
            Op::Dest(by, d) => {
                let r = w.sim.exec(who(*by), &w.dist, &json!({"update": {"id": d + 1, "withdraw_destination": who(NEW)}}), &[]);
                let ok = m.own.is(*by);
                if ok {
                    m.dists[*d as usize].dest = NEW;
                }
                (r, ok)
            }
            Op::Create(by, rate, f) => {
                let denom = if self.cw20 { json!({"cw20": w.rew}) } else { json!({"native": "urew"}) };
                let msg = json!({"create": {"denom": denom, "emission_rate": Self::rate_json(*rate), "vp_contract": w.pw.voting,
                    "hook_caller": w.pw.hook, "open_funding": null, "withdraw_destination": null}});
                let r = w.sim.exec(who(*by), &w.dist, &msg, &if *f > 0 { coins(*f as u128, "urew") } else { vec![] });
                let mut ok = m.own.is(*by);
                if ok {
                    let mut d = Dist::new(*rate, self.cw20);
                    d.dest = *by;
                    m.dists.push(d);
                    if *f > 0 {
                        let k = m.dists.len() - 1;
                        ok = !self.cw20 && self.fund(m, k, *by, *f as u128);
                        if !ok {
                            m.dists.pop();
                        } else {
                            gain.insert((*by, false), -(*f as i128));
                        }
                    }
                }
                (r, ok)
            }
            Op::Forge(by, h) => {
                let msg = match h {
                    0 => json!({"stake_change_hook": {"unstake": {"addr": who(*by), "amount": "1"}}}),
                    1 => json!({"nft_stake_change_hook": {"stake": {"addr": who(*by), "token_id": "x"}}}),
                    _ => json!({"member_changed_hook": {"diffs": [{"key": who(*by), "old": null, "new": 5}]}}),
                };
                let ok = *by == EVE && m.dists.iter().any(|d| !d.hooked);
                (w.sim.exec(who(*by), &w.dist, &msg, &[]), ok)
            }
            Op::Caller(by, d, real) => {
                let to = if *real { w.pw.hook.clone() } else { who(EVE) };
                let r = w.sim.exec(who(*by), &w.dist, &json!({"update": {"id": d + 1, "hook_caller": to}}), &[]);
                let ok = m.own.is(*by);
                if ok {
                    let D = &mut m.dists[*d as usize];
                    D.hooked = *real;
                    D.loose |= !*real;
                }
                (r, ok)
            }
            Op::Own(by, a) => {
                let r = w.sim.exec(who(*by), &w.dist, &a.json(who), &[]);
                let ok = m.own.act(*by, *a, now);
                (r, ok)
            }
        };
        let k = self.key(m, if want { "accept-ok" } else { "accept-err" });
        same!(r.is_ok(), want, R2, k, "{:?} ({:?})", op, r.as_ref().err());
        for (i, n) in NAMES.iter().enumerate() {
            for c in [false, true] {
                let change = self.rbal(w, c, n) as i128 - rb[i][c as usize] as i128;
                let exp = if r.is_ok() { gain.get(&(i as u8, c)).copied().unwrap_or(0) } else { 0 };
                same!(change, exp, R2, self.key(m, "payout"), "change of the reward balance of {} by {:?}", n, op);
            }
        }
        for i in 0..6u8 {
            let after = self.pending(w, m, i)?;
            for (d, b) in before[i as usize].iter().enumerate() {
                let a = after[d];
                if m.dists[d].loose {
                    continue;
                }
                if !matches!(op, Op::Claim(x, y) if *x == i && *y as usize == d) {
                    ensure!(a >= *b, R2, self.key(m, "pending-lowered"), "{:?} lowered the pending rewards of {} from {} to {}", op, who(i), b, a);
                }
                if !may.contains(&(i, d as u8)) {
                    same!(a, *b, R2, self.key(m, "pending-changed"), "pending rewards of {} from distribution {} after {:?}", who(i), d + 1, op);
                }
            }
        }
        Ok(format!("{}{}", if r.is_ok() { "" } else { "refused " }, format!("{:?}", op).split('(').next().unwrap()))
    }
    fn invariant(&self, w: &mut W, m: &M) -> VResult {
        let mut all = [0u128; 2];
        let mut held = [0u128; 2];
        let pend: Vec<Vec<u128>> = (0..6).map(|i| self.pending(w, m, i)).collect::<VResult<_>>()?;
        for (k, d) in m.dists.iter().enumerate() {
            let q: Value = w.sim.query(&w.dist, &json!({"distribution": {"id": k + 1}})).unwrap();
            let caller = if d.hooked { w.pw.hook.as_str() } else { NAMES[EVE as usize] };
            same!(q["hook_caller"].as_str(), Some(caller), R2, "caller", "who announces changes to distribution {}", k + 1);
            if d.loose {
                held[d.cw20 as usize] += d.total_in - d.total_out - d.paid.values().sum::<u128>();
                continue;
            }
            let mut sum = 0;
            for i in 0..6u8 {
                let p = pend[i as usize][k];
                sum += p;
                let got = p + d.paid.get(&i).unwrap_or(&0);
                let exact = *d.acc.get(&i).unwrap_or(&0);
                ensure!(
                    got * L <= exact,
                    R2,
                    self.key(m, "over-accrual"),
                    "{} has {} (pending {}) from distribution {}, more than {}/{}",
                    who(i),
                    got,
                    p,
                    k + 1,
                    exact,
                    L
                );
                let s = d.settled.get(&i).copied().unwrap_or((0, 0));
                let roundings = s.1 + if s.0 != exact { 1 } else { 0 };
                ensure!(
                    exact - got * L <= roundings * L,
                    R2,
                    self.key(m, "under-accrual"),
                    "{} has {} (pending {}) from distribution {}, expected {}/{} up to {} roundings",
                    who(i),
                    got,
                    p,
                    k + 1,
                    exact,
                    L,
                    roundings
                );
            }
            let paid: u128 = d.paid.values().sum();
            ensure!(
                sum + paid + d.total_out <= d.total_in,
                R2,
                self.key(m, "over-funded"),
                "distribution {}: {} pending, {} paid, {} withdrawn, but {} funded",
                k + 1,
                sum,
                paid,
                d.total_out,
                d.total_in
            );
            all[d.cw20 as usize] += sum;
            held[d.cw20 as usize] += d.total_in - d.total_out - paid;
            let und: String = w.sim.query(&w.dist, &json!({"undistributed_rewards": {"id": k + 1}})).unwrap();
            same!(und, (d.funded - d.distributed()).to_string(), R2, "undistributed", "undistributed rewards of distribution {}", k + 1);
            let q: Value = w.sim.query(&w.dist, &json!({"distribution": {"id": k + 1}})).unwrap();
            same!(q["active_epoch"]["emission_rate"], Self::rate_json(d.rate), R2, "rate", "emission rate of distribution {}", k + 1);
            same!(u(&q["funded_amount"]), d.funded, R2, "funded", "funded amount of distribution {}", k + 1);
            same!(q["open_funding"], json!(d.open), R2, "open", "open funding");
            same!(q["withdraw_destination"].as_str(), Some(NAMES[d.dest as usize]), R2, "dest", "withdraw destination");
            if let Rate::Linear(_, _, t, _) = d.rate {
                for (f, e) in [("started_at", d.start), ("ends_at", d.end)] {
                    let x = match e {
                        None => json!({"never": {}}),
                        Some(h) if !t => json!({ "at_height": h }),
                        Some(s) => json!({"at_time": (s as u128 * 1_000_000_000).to_string()}),
                    };
                    same!(q["active_epoch"][f], x, R2, f, "{} of distribution {}", f, k + 1);
                }
            }
        }
        for c in 0..2 {
            let bal = self.rbal(w, c == 1, &w.dist);
            same!(bal, held[c], R2, self.key(m, "balance"), "reward tokens held");
            ensure!(bal >= all[c], R2, self.key(m, "insolvent"), "{} pending but {} held", all[c], bal);
        }
        let o: Value = w.sim.query(&w.dist, &json!({"ownership": {}})).unwrap();
        ensure!(m.own.matches(&o, who), R2, "owner", "ownership {:?} vs {}", m.own, o);
        Ok(())
    }
    fn on_new_state(&self, w: &mut W, m: &M) -> VResult {
        if m.dists.len() > 1 {
            let first: Value = w.sim.query(&w.dist, &json!({"distributions": {"limit": 1}})).unwrap();
            let rest: Value = w.sim.query(&w.dist, &json!({"distributions": {"start_after": 1, "limit": 100}})).unwrap();
            let ids: Vec<_> = [first, rest].iter().flat_map(|v| v["distributions"].as_array().unwrap().iter().map(|d| d["id"].as_u64().unwrap()).collect::<Vec<_>>()).collect();
            same!(ids, (1..=m.dists.len() as u64).collect::<Vec<_>>(), R2, "pages", "distributions over two pages");
            let full: Value = w.sim.query(&w.dist, &json!({"pending_rewards": {"address": "ann", "limit": 100}})).unwrap();
            let got: Vec<u128> = full["pending_rewards"].as_array().unwrap().iter().map(|d| u(&d["pending_rewards"])).collect();
            same!(got, self.pending(w, m, 0)?, R2, "pages", "pending rewards on one long page");
            let page: Value = w.sim.query(&w.dist, &json!({"pending_rewards": {"address": "ann", "start_after": 1, "limit": 1}})).unwrap();
            same!(page["pending_rewards"][0], full["pending_rewards"][1], R2, "pages", "second page of pending rewards");
        }
        // everybody can be paid, in either order
        let snap = w.sim.snapshot();
        for rev in [false, true] {
            for j in 0..3u8 {
                let i = if rev { 2 - j } else { j };
                for (d, p) in self.pending(w, m, i)?.iter().enumerate() {
                    if *p > 0 && !m.dists[d].loose {
                        let r = w.sim.exec(who(i), &w.dist, &json!({"claim": {"id": d + 1}}), &[]);
                        ensure!(r.is_ok(), R2, self.key(m, "unpayable"), "{} cannot claim the {} pending: {:?}", who(i), p, r.err());
                    }
                }
            }
            w.sim.restore(&snap);
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- R03
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum FOp {
    Power(u8, u8),
    /// blocks back from now the distribution height lies (negative: ahead), funding period in blocks or (of 5 s each) by time
    Start(i64, u64, bool),
    /// native or cw20 token number, amount
    Fund(bool, u8, u32),
    /// member, which tokens
    Claim(u8, Which),
    Redistribute(u8, i64),
    Tick(u64),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Which {
    All,
    Native(u8),
    Natives,
    Cw20(u8),
    /// the same token named twice
    Twice(bool),
    None(bool),
    Unknown(bool),
}
#[derive(Clone, Debug, PartialEq, Hash)]
struct FM {
    power: BTreeMap<u8, u128>,
    hist: Vec<(u64, BTreeMap<u8, u128>)>,
    /// distribution height, end of the funding period, whether that is a time
    dist: Option<(u64, u64, bool)>,
    addr: String,
    pool: BTreeMap<(bool, u8), u128>,
    claimed: BTreeMap<(u8, bool, u8), u128>,
    held: BTreeMap<(bool, u8), u128>,
    now: Now,
}
impl FM {
    /// powers that count at height h
    fn at(&self, h: u64) -> BTreeMap<u8, u128> {
        self.hist.iter().rev().find(|x| x.0 < h).map(|x| x.1.clone()).unwrap_or_default()
    }
    fn due(&self, i: u8, t: (bool, u8)) -> u128 {
        let h = self.dist.unwrap().0;
        let p = self.at(h);
        let tot: u128 = p.values().sum();
        let all = *self.pool.get(&t).unwrap_or(&0);
        (all * p.get(&i).copied().unwrap_or(0) / tot).saturating_sub(*self.claimed.get(&(i, t.0, t.1)).unwrap_or(&0))
    }
}
struct FW {
    sim: Sim,
    pw: Power,
    code: u64,
    toks: [String; 2],
}
struct F {
    src: Src,
    members: u8,
    powers: Vec<u8>,
    funds: Vec<(bool, u8, u32)>,
    starts: Vec<(i64, u64)>,
    /// funding periods by time
    timed: bool,
    /// what amounts are multiplied by
    unit: u128,
    claims: Vec<Which>,
    backs: Vec<i64>,
    pre: Vec<FOp>,
}
const DENOMS: [&str; 2] = ["uone", "utwo"];
impl F {
    fn bal(&self, w: &FW, t: (bool, u8), a: &str) -> u128 {
        if t.0 {
            w.sim.bal(a, DENOMS[t.1 as usize])
        } else {
            w.sim.cw20(&w.toks[t.1 as usize], a)
        }
    }
    fn height(m: &FM, back: i64) -> u64 {
        (m.now.0 as i64 - back) as u64
    }
    fn funding_over(m: &FM) -> bool {
        let (_, end, timed) = m.dist.unwrap();
        end <= if timed { m.now.1 } else { m.now.0 }
    }
}
const TOKENS: [(bool, u8); 4] = [(true, 0), (true, 1), (false, 0), (false, 1)];
impl Harness for F {
    type World = FW;
    type Model = FM;
    type Op = FOp;
    fn sim<'a>(&self, w: &'a mut FW) -> &'a mut Sim {
        &mut w.sim
    }
    fn setup(&self) -> (FW, FM) {
        let mut sim = Sim::new();
        let cc = sim.store(cw20_code());
        let toks = [cw20_token(&mut sim, cc, "one", 1000 * self.unit), cw20_token(&mut sim, cc, "two", 1000 * self.unit)];
        for n in NAMES {
            for d in DENOMS {
                sim.mint(n, 1000 * self.unit, d);
            }
        }
        let pw = Power::new(&mut sim, self.src);
        let code = sim.store(fund_dist_code());
        let mut m = FM {
            power: BTreeMap::new(),
            hist: vec![],
            dist: None,
            addr: String::new(),
            pool: BTreeMap::new(),
            claimed: BTreeMap::new(),
            held: BTreeMap::new(),
            now: (sim.height(), sim.time()),
        };
        let mut w = FW { sim, pw, code, toks };
        for op in &self.pre {
            self.step(&mut w, &mut m, op).unwrap();
        }
        w.sim.seal();
        (w, m)
    }
    fn ops(&self, m: &FM) -> Vec<FOp> {
        let mut o = vec![FOp::Tick(1)];
        for i in 0..self.members {
            for p in &self.powers {
                if *p as u128 != *m.power.get(&i).unwrap_or(&0) {
                    o.push(FOp::Power(i, *p));
                }
            }
        }
        if m.dist.is_none() {
            for (b, p) in &self.starts {
                o.push(FOp::Start(*b, *p, self.timed));
            }
            return o;
        }
        for (n, t, x) in &self.funds {
            o.push(FOp::Fund(*n, *t, *x));
        }
        for i in 0..self.members {
            for c in &self.claims {
                o.push(FOp::Claim(i, *c));
            }
        }
        o.push(FOp::Claim(EVE, Which::All));
        for b in &self.backs {
            o.push(FOp::Redistribute(OWNER, *b));
        }
        if !self.backs.is_empty() {
            o.push(FOp::Redistribute(EVE, 0));
        }
        o
    }
    fn step(&self, w: &mut FW, m: &mut FM, op: &FOp) -> VResult<String> {
        let now = m.now;
        let mut gain: BTreeMap<(u8, bool, u8), i128> = BTreeMap::new();
        let rb: Vec<Vec<u128>> = NAMES.iter().map(|n| TOKENS.iter().map(|t| self.bal(w, *t, n)).collect()).collect();
        let (r, want): (ExecResult, bool) = match op {
            FOp::Tick(n) => {
                w.sim.advance(*n, *n * 5);
                m.now = (now.0 + n, now.1 + n * 5);
                return Ok("tick".into());
            }
            FOp::Power(i, p) => {
                let from = *m.power.get(i).unwrap_or(&0);
                let r = w.pw.set(&mut w.sim, &[(*i, from, *p as u128)]);
                m.power.insert(*i, *p as u128);
                let snap = (now.0, m.power.clone());
                if m.hist.last().map(|h| h.0) == Some(now.0) {
                    *m.hist.last_mut().unwrap() = snap;
                } else {
                    m.hist.push(snap);
                }
                (r, true)
            }
            FOp::Start(back, period, timed) => {
                let h = F::height(m, *back);
                let msg = json!({"voting_contract": w.pw.voting, "funding_period": if *timed { json!({"time": period * 5}) } else { json!({"height": period}) }, "distribution_height": h});
                let r = w.sim.init_admin(w.code, &who(OWNER), &msg, &[], "f", Some(who(OWNER)));
                let ok = h <= now.0 && m.at(h).values().sum::<u128>() > 0;
                same!(r.is_ok(), ok, R3, if ok { "accept-ok" } else { "accept-err" }, "{:?} ({:?})", op, r.as_ref().err());
                if let Ok(a) = r {
                    m.addr = a.to_string();
                    m.dist = Some((h, if *timed { now.1 + period * 5 } else { now.0 + period }, *timed));
                }
                return Ok(if ok { "start".into() } else { "refused start".into() });
            }
            FOp::Fund(n, t, x) => {
                let x = *x as u128 * self.unit;
                let r = if *n {
                    w.sim.exec(who(EVE), &m.addr, &json!({"fund_native": {}}), &coins(x, DENOMS[*t as usize]))
                } else {
                    let send = json!({"send": {"contract": m.addr, "amount": x.to_string(), "msg": ""}});
                    w.sim.exec(who(EVE), &w.toks[*t as usize], &send, &[])
                };
                let ok = !F::funding_over(m);
                if ok {
                    *m.pool.entry((*n, *t)).or_insert(0) += x;
                    *m.held.entry((*n, *t)).or_insert(0) += x;
                    gain.insert((EVE, *n, *t), -(x as i128));
                }
                (r, ok)
            }
            FOp::Claim(i, which) => {
                let tok = |t: u8| w.toks[t as usize].clone();
                let (msg, list): (Value, Option<Vec<(bool, u8)>>) = match which {
                    Which::All => (json!({"claim_all": {}}), Some(m.pool.keys().copied().collect())),
                    Which::Native(t) => (json!({"claim_natives": {"denoms": [DENOMS[*t as usize]]}}), Some(vec![(true, *t)])),
                    Which::Natives => (json!({"claim_natives": {"denoms": DENOMS}}), Some(vec![(true, 0), (true, 1)])),
                    Which::Cw20(t) => (json!({"claim_c_w20": {"tokens": [tok(*t)]}}), Some(vec![(false, *t)])),
                    Which::Twice(true) => (json!({"claim_natives": {"denoms": [DENOMS[0], DENOMS[0]]}}), Some(vec![(true, 0)])),
                    Which::Twice(false) => (json!({"claim_c_w20": {"tokens": [tok(0), tok(0)]}}), Some(vec![(false, 0)])),
                    Which::None(true) => (json!({"claim_natives": {"denoms": []}}), None),
                    Which::None(false) => (json!({"claim_c_w20": {"tokens": []}}), None),
                    Which::Unknown(true) => (json!({"claim_natives": {"denoms": ["unknown"]}}), None),
                    Which::Unknown(false) => (json!({"claim_c_w20": {"tokens": [w.pw.voting]}}), None),
                };
                let r = w.sim.exec(who(*i), &m.addr, &msg, &[]);
                let ok = F::funding_over(m) && list.as_ref().map(|l| l.iter().all(|t| m.pool.contains_key(t))).unwrap_or(false);
                if ok {
                    for t in list.unwrap() {
                        let x = m.due(*i, t);
                        *m.claimed.entry((*i, t.0, t.1)).or_insert(0) += x;
                        *m.held.get_mut(&t).unwrap() -= x;
                        gain.insert((*i, t.0, t.1), x as i128);
                    }
                    m.claimed.retain(|_, v| *v > 0);
                }
                (r, ok)
            }
            FOp::Redistribute(by, back) => {
                let h = F::height(m, *back);
                let r = w.sim.migrate(&who(*by), &m.addr, &json!({"redistribute_unclaimed_funds": {"distribution_height": h}}), w.code);
                let ok = *by == OWNER && h <= now.0 && m.at(h).values().sum::<u128>() > 0;
                if ok {
                    m.dist = Some((h, m.dist.unwrap().1, m.dist.unwrap().2));
                    m.pool = m.held.clone();
                    m.claimed.clear();
                }
                (r, ok)
            }
        };
        same!(r.is_ok(), want, R3, if want { "accept-ok" } else { "accept-err" }, "{:?} ({:?})", op, r.as_ref().err());
        for (i, n) in NAMES.iter().enumerate() {
            for (k, t) in TOKENS.iter().enumerate() {
                let change = self.bal(w, *t, n) as i128 - rb[i][k] as i128;
                let exp = gain.get(&(i as u8, t.0, t.1)).copied().unwrap_or(0);
                same!(change, exp, R3, "payout", "change of the balance of {} in {:?} by {:?}", n, t, op);
            }
        }
        Ok(format!("{}{}", if r.is_ok() { "" } else { "refused " }, format!("{:?}", op).split('(').next().unwrap()))
    }
    fn invariant(&self, w: &mut FW, m: &FM) -> VResult {
        let (h, ..) = match m.dist {
            Some(d) => d,
            None => return Ok(()),
        };
        let p = m.at(h);
        let t: Value = w.sim.query(&m.addr, &json!({"total_power": {}})).unwrap();
        same!(u(&t["total_power"]), p.values().sum::<u128>(), R3, "total", "total power at the distribution height");
        let v: Value = w.sim.query(&m.addr, &json!({"voting_contract": {}})).unwrap();
        same!(v["distribution_height"].as_u64(), Some(h), R3, "height", "distribution height");
        for t in TOKENS {
            let held = *m.held.get(&t).unwrap_or(&0);
            same!(self.bal(w, t, &m.addr), held, R3, "balance", "tokens {:?} held", t);
            let mut all = 0;
            for i in 0..6u8 {
                let q = if t.0 {
                    w.sim.query::<_, Value>(&m.addr, &json!({"native_entitlement": {"sender": who(i), "denom": DENOMS[t.1 as usize]}}))
                } else {
                    w.sim.query::<_, Value>(&m.addr, &json!({"c_w20_entitlement": {"sender": who(i), "token": w.toks[t.1 as usize]}}))
                };
                let q = match q {
                    Ok(q) => u(&q["amount"]),
                    Err(e) => return Err(Violation::new(R3, "entitlement-query", format!("entitlement of {} to {:?} cannot be queried: {}", who(i), t, e))),
                };
                same!(q, m.due(i, t), R3, "entitlement", "entitlement of {} to {:?}", who(i), t);
                all += q;
            }
            ensure!(all <= held, R3, "insolvent", "members are entitled to {} of {:?} but {} is held", all, t, held);
        }
        for (n, name) in [(true, "native_entitlements"), (false, "c_w20_entitlements")] {
            let l: Value = w.sim.query(&m.addr, &json!({name: {"sender": "ann"}})).unwrap();
            let l = l.as_array().unwrap();
            same!(l.len(), m.pool.keys().filter(|k| k.0 == n).count(), R3, "list", "tokens in {}", name);
            for e in l {
                let t = if n {
                    DENOMS.iter().position(|d| Some(*d) == e["denom"].as_str())
                } else {
                    w.toks.iter().position(|d| Some(d.as_str()) == e["token_contract"].as_str())
                };
                same!(u(&e["amount"]), m.due(0, (n, t.unwrap() as u8)), R3, "list", "entitlement in {}", name);
            }
        }
        for (n, name) in [(true, "native_denoms"), (false, "c_w20_tokens")] {
            let l: Value = w.sim.query(&m.addr, &json!({name: {}})).unwrap();
            let sum: u128 = l.as_array().unwrap().iter().map(|e| u(&e["contract_balance"])).sum();
            same!(sum, m.pool.iter().filter(|k| k.0 .0 == n).map(|k| *k.1).sum::<u128>(), R3, "pool", "amounts in {}", name);
        }
        Ok(())
    }
}

/// Many tokens at once: everything is paid however many tokens are claimed, and a second claim pays nothing.
struct Wide {
    sizes: Vec<u8>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct WideOp {
    native: bool,
    n: u8,
    /// 0: all, 1: named in order, 2: named in reverse, 3: named in two overlapping halves
    how: u8,
    again: bool,
}
impl Harness for Wide {
    type World = FW;
    type Model = bool;
    type Op = WideOp;
    fn sim<'a>(&self, w: &'a mut FW) -> &'a mut Sim {
        &mut w.sim
    }
    fn setup(&self) -> (FW, bool) {
        let mut sim = Sim::new();
        let cc = sim.store(cw20_code());
        let toks = [cc.to_string(), String::new()];
        let pw = Power::new(&mut sim, Src::Group);
        pw.set(&mut sim, &[(0, 0, 1), (1, 0, 2)]).unwrap();
        sim.advance(1, 5);
        let code = sim.store(fund_dist_code());
        sim.seal();
        (FW { sim, pw, code, toks }, false)
    }
    fn ops(&self, done: &bool) -> Vec<WideOp> {
        let mut v = vec![];
        if !done {
            for n in &self.sizes {
                for native in [true, false] {
                    for how in 0..4 {
                        for again in [false, true] {
                            v.push(WideOp { native, n: *n, how, again });
                        }
                    }
                }
            }
        }
        v
    }
    fn step(&self, w: &mut FW, done: &mut bool, op: &WideOp) -> VResult<String> {
        *done = true;
        let h = w.sim.height();
        let msg = json!({"voting_contract": w.pw.voting, "funding_period": {"height": 1}, "distribution_height": h});
        let f = w.sim.init_admin(w.code, &who(OWNER), &msg, &[], "f", Some(who(OWNER))).unwrap().to_string();
        let mut toks = vec![];
        for i in 0..op.n as u128 {
            let x = 30 + 3 * i;
            let t = if op.native {
                let d = format!("d{:03}", i);
                w.sim.mint("eve", x, &d);
                d
            } else {
                let t = cw20_token(&mut w.sim, w.toks[0].parse().unwrap(), "tok", 1000);
                w.sim.exec("eve", &t, &json!({"send": {"contract": f, "amount": x.to_string(), "msg": ""}}), &[]).unwrap();
                t
            };
            toks.push((t, x));
        }
        if op.native {
            // in one payment, or one by one
            let c: Vec<_> = toks.iter().map(|(d, x)| cosmwasm_std::coin(*x, d)).collect();
            for c in c.chunks(if op.again { 1 } else { c.len().max(1) }) {
                w.sim.exec("eve", &f, &json!({"fund_native": {}}), c).unwrap();
            }
        }
        w.sim.advance(1, 5);
        let bal = |w: &FW, t: &str, a: &str| if op.native { w.sim.bal(a, t) } else { w.sim.cw20(t, a) };
        let before: Vec<u128> = toks.iter().map(|(t, _)| bal(w, t, "ann")).collect();
        // every listing shows every token, whatever the page
        let listed = |w: &FW, share: &dyn Fn(u128) -> u128| -> VResult {
            let mut want: Vec<(String, u128)> = toks.clone();
            want.sort();
            let (denoms, ents, id) = if op.native { ("native_denoms", "native_entitlements", "denom") } else { ("c_w20_tokens", "c_w20_entitlements", "token_contract") };
            let l: Value = w.sim.query(&f, &json!({denoms: {}})).unwrap();
            let got: Vec<(String, u128)> =
                l.as_array().unwrap().iter().map(|e| (e[if op.native { "denom" } else { "token" }].as_str().unwrap().to_string(), u(&e["contract_balance"]))).collect();
            same!(got, want, R3, "wide-list", "tokens and amounts in {}", denoms);
            want.reverse();
            for limit in [None, Some(1u32), Some(7), Some(30), Some(100)] {
                let mut got: Vec<(String, u128)> = vec![];
                loop {
                    let l: Value = w.sim.query(&f, &json!({ents: {"sender": "ann", "start_at": got.last().map(|x| x.0.clone()), "limit": limit}})).unwrap();
                    let page = l.as_array().unwrap();
                    same!(page.len(), (want.len() - got.len()).min(limit.unwrap_or(u32::MAX) as usize), R3, "wide-page", "length of a page of {:?} of {}", limit, ents);
                    if page.is_empty() {
                        break;
                    }
                    got.extend(page.iter().map(|e| (e[id].as_str().unwrap().to_string(), u(&e["amount"]))));
                }
                same!(got, want.iter().map(|(t, x)| (t.clone(), share(*x))).collect::<Vec<_>>(), R3, "wide-entitlements", "{} by pages of {:?}", ents, limit);
            }
            Ok(())
        };
        listed(w, &|x| x / 3)?;
        let names: Vec<String> = toks.iter().map(|t| t.0.clone()).collect();
        let named = |l: &[String]| if op.native { json!({"claim_natives": {"denoms": l}}) } else { json!({"claim_c_w20": {"tokens": l}}) };
        let half = names.len() / 2;
        let msgs = match op.how {
            0 => vec![json!({"claim_all": {}})],
            1 => vec![named(&names)],
            2 => vec![named(&names.iter().rev().cloned().collect::<Vec<_>>())],
            _ => vec![named(&names[..half + 1]), named(&names[half..])],
        };
        for _ in 0..1 + op.again as u8 {
            for m in &msgs {
                let r = w.sim.exec("ann", &f, m, &[]);
                ensure!(r.is_ok(), R3, "wide-claim", "claiming {} tokens: {:?}", op.n, r.err());
            }
        }
        listed(w, &|_| 0)?;
        for (k, (t, x)) in toks.iter().enumerate() {
            same!(bal(w, t, "ann") - before[k], x / 3, R3, "wide-payout", "token {} of {} paid to a member with a third of the power ({:?})", k + 1, op.n, op);
        }
        // what the other member did not claim is distributed anew: a third of it goes to the first again
        let r = w.sim.migrate(&who(OWNER), &f, &json!({"redistribute_unclaimed_funds": {"distribution_height": h}}), w.code);
        ensure!(r.is_ok(), R3, "wide-redistribute", "redistributing {} tokens: {:?}", op.n, r.err());
        let r = w.sim.exec("bob", &f, &json!({"claim_all": {}}), &[]);
        ensure!(r.is_ok(), R3, "wide-claim", "claiming {} redistributed tokens: {:?}", op.n, r.err());
        for (t, x) in &toks {
            let left = x - x / 3;
            same!(bal(w, t, &f), left - left * 2 / 3, R3, "wide-left", "tokens left after the other member claimed two thirds of the rest ({:?})", op);
        }
        Ok(format!("{} tokens", if op.native { "native" } else { "cw20" }))
    }
    fn invariant(&self, _: &mut FW, _: &bool) -> VResult {
        Ok(())
    }
}

fn plan(prop: &str, th: bool) -> Option<PropertyPlan> {
    let mut entries = vec![];
    let dd = |q: usize, t: usize| if th { t } else { q };
    let rule;
    let assumptions;
    match prop {
        "R02" => {
            rule = "explicit-state BFS over the real rewards distributor subscribed to a real voting module (token-staked, cw20-staked, cw4 or cw721-staked): every sequence of power changes, fundings, claims, emission rate changes, withdrawals, creations, authority changes, forged notices and block steps up to the depth; accrual is compared with exact rational accrual per completed emission period, allowing one rounding down per settlement, pending rewards of everybody are compared before and after each operation, and in every distinct state everybody claims in both orders";
            let lin = |a, d| Rate::Linear(a, d, false, false);
            let cont = |a, d| Rate::Linear(a, d, false, true);
            let base = || H {
                src: Src::Token,
                cw20: false,
                members: 2,
                powers: vec![0, 1, 2],
                pairs: false,
                rate: lin(10, 1),
                rates: vec![],
                funds: vec![20],
                ticks: vec![1],
                withdraw: false,
                authority: false,
                create: None,
                callers: false,
                same_block: false,
                pre: vec![],
            };
            let staked = |a: u8, b: u8| vec![Op::Power(0, a), Op::Power(1, b), Op::Tick(1)];
            entries.push(Entry::new("linear", H { powers: vec![0, 1], ..base() }, dd(7, 8)));
            entries.push(Entry::new("linear-running", H { rate: lin(10, 3), funds: vec![35], ticks: vec![1, 2], pre: staked(1, 2), ..base() }, dd(6, 7)));
            entries.push(Entry::new("linear-withdraw", H { src: Src::Cw20, rate: lin(5, 2), funds: vec![12], pre: staked(1, 0), powers: vec![0, 2], withdraw: true, ..base() }, dd(6, 7)));
            // withdrawn at every point of an emission, to somebody else than the owner
            for (n, cw20) in [("withdraw-elsewhere", false), ("withdraw-elsewhere-cw20", true)] {
                entries.push(Entry::new(
                    n,
                    H { cw20, rate: lin(1, 1), funds: vec![2], pre: vec![Op::Dest(OWNER, 0), Op::Power(0, 1), Op::Tick(1), Op::Fund(OWNER, 0, 4)], powers: vec![0, 2], members: 1, withdraw: true, ..base() },
                    dd(6, 7),
                ));
            }
            entries.push(Entry::new("continuous", H { rate: cont(5, 2), funds: vec![5, 8], ticks: vec![1, 4], pre: staked(2, 1), powers: vec![0, 1], ..base() }, dd(6, 7)));
            entries.push(Entry::new(
                "continuous-withdraw",
                H { rate: cont(5, 2), funds: vec![10], ticks: vec![1, 3], pre: vec![Op::Power(0, 1), Op::Fund(OWNER, 0, 7), Op::Tick(3)], powers: vec![0, 2], withdraw: true, ..base() },
                dd(6, 7),
            ));
            entries.push(Entry::new(
                "time",
                H { src: Src::Group, cw20: true, rate: Rate::Linear(10, 7, true, false), funds: vec![25], ticks: vec![1, 2], pairs: true, powers: vec![0, 2], pre: staked(1, 1), ..base() },
                dd(6, 7),
            ));
            entries.push(Entry::new("immediate", H { src: Src::Nft, rate: Rate::Immediate, funds: vec![10, 1], powers: vec![0, 1, 2], ..base() }, dd(6, 7)));
            entries.push(Entry::new(
                "three-members",
                H { src: Src::Group, members: 3, pairs: true, rate: cont(5, 1), funds: vec![15], powers: vec![0, 3], pre: vec![Op::Power(0, 1), Op::Power(1, 1), Op::Power(2, 1), Op::Tick(1)], ..base() },
                dd(6, 7),
            ));
            entries.push(Entry::new(
                "rates",
                H {
                    rate: Rate::Paused,
                    rates: vec![Rate::Paused, Rate::Immediate, lin(10, 2), cont(5, 1)],
                    funds: vec![23],
                    powers: vec![0, 2],
                    members: 2,
                    withdraw: true,
                    pre: staked(1, 2),
                    ..base()
                },
                dd(6, 7),
            ));
            entries.push(Entry::new(
                "rates-time",
                H {
                    src: Src::Group,
                    cw20: true,
                    rate: Rate::Linear(10, 7, true, true),
                    rates: vec![Rate::Linear(5, 5, true, false), lin(5, 2)],
                    funds: vec![15],
                    powers: vec![0, 2],
                    withdraw: true,
                    pre: vec![Op::Power(0, 1), Op::Power(1, 2), Op::Fund(OWNER, 0, 20), Op::Tick(2)],
                    ..base()
                },
                dd(6, 7),
            ));
            entries.push(Entry::new(
                "two-distributions",
                H {
                    rate: lin(10, 2),
                    funds: vec![20],
                    powers: vec![0, 2],
                    members: 2,
                    create: Some((Rate::Immediate, 9)),
                    withdraw: true,
                    pre: vec![Op::Power(0, 1), Op::Tick(1)],
                    ..base()
                },
                dd(6, 7),
            ));
            entries.push(Entry::new(
                "two-linear",
                H {
                    src: Src::Cw20,
                    rate: cont(10, 1),
                    funds: vec![10],
                    powers: vec![0, 1],
                    create: Some((lin(5, 2), 0)),
                    cw20: true,
                    pre: vec![Op::Power(0, 1), Op::Power(1, 1), Op::Fund(OWNER, 0, 10), Op::Tick(1)],
                    ..base()
                },
                dd(6, 7),
            ));
            entries.push(Entry::new(
                "authority",
                H { rate: lin(10, 2), funds: vec![20], members: 1, powers: vec![1], authority: true, withdraw: true, pre: vec![Op::Power(0, 1), Op::Fund(OWNER, 0, 30), Op::Tick(3)], ..base() },
                dd(5, 6),
            ));
            for (name, src) in [("many-distributions", Src::Group), ("many-distributions-cw20", Src::Cw20)] {
                entries.push(Entry::new(
                    name,
                    H {
                        src,
                        rate: lin(10, 2),
                        funds: vec![20],
                        members: 1,
                        powers: vec![0, 2],
                        pre: (0..34u8)
                            .map(|k| Op::Create(OWNER, if k % 2 == 0 { cont(5, 1) } else { lin(10, 3) }, 40))
                            .chain([Op::Power(0, 1), Op::Power(1, 1), Op::Tick(1)])
                            .collect(),
                        ..base()
                    },
                    dd(2, 3),
                ));
            }
            entries.push(Entry::new(
                "callers",
                H {
                    rate: lin(10, 2),
                    funds: vec![20],
                    members: 2,
                    powers: vec![0, 2],
                    callers: true,
                    pre: vec![Op::Create(OWNER, cont(5, 1), 0), Op::Power(0, 1), Op::Tick(1), Op::Fund(OWNER, 0, 30), Op::Fund(OWNER, 1, 15), Op::Tick(1)],
                    ..base()
                },
                dd(5, 6),
            ));
            entries.push(Entry::new("authority-fresh", H { cw20: true, rate: Rate::Immediate, members: 1, powers: vec![1], authority: true, withdraw: true, ..base() }, dd(5, 6)));
            entries.push(Entry::new(
                "same-block",
                H { rate: Rate::Immediate, rates: vec![], funds: vec![10], powers: vec![0, 1, 9], same_block: true, pre: staked(1, 1), ..base() },
                dd(5, 6),
            ));
            assumptions = vec![
                "the distributor is subscribed to the module whose power it reads from the start and its power source is not swapped (documented as unsafe)",
                "voting power is that of the start of the block, as the voting modules report it; totals up to twelve",
                "fundings given out at once in a block in which power already changed are explored in one entry of their own (known finding)",
            ];
        }
        "R03" => {
            rule = "explicit-state BFS over the real fund distributor and a real voting module: every sequence of power changes, instantiation at every nearby distribution height, native and cw20 fundings, partial, full, repeated, empty and unknown claims, redistributions at every nearby height and block steps up to the depth; every member's entitlement to every token is compared with exact shares after each step";
            let base = || F {
                src: Src::Group,
                members: 2,
                powers: vec![0, 2],
                funds: vec![(true, 0, 7), (false, 0, 3)],
                starts: vec![(0, 1), (1, 1), (2, 2), (-1, 1)],
                timed: false,
                unit: 1,
                claims: vec![Which::All, Which::Native(0), Which::Cw20(0)],
                backs: vec![0, 1, -1],
                pre: vec![FOp::Power(0, 1), FOp::Power(1, 1), FOp::Tick(1)],
            };
            entries.push(Entry::new("start", F { backs: vec![], ..base() }, dd(6, 7)));
            entries.push(Entry::new(
                "claims",
                F {
                    funds: vec![(true, 0, 7), (true, 1, 10), (false, 0, 3), (false, 1, 4)],
                    claims: vec![
                        Which::All,
                        Which::Native(0),
                        Which::Natives,
                        Which::Cw20(0),
                        Which::Cw20(1),
                        Which::Twice(true),
                        Which::Twice(false),
                        Which::None(true),
                        Which::None(false),
                        Which::Unknown(true),
                        Which::Unknown(false),
                    ],
                    powers: vec![3],
                    backs: vec![0],
                    pre: vec![FOp::Power(0, 1), FOp::Power(1, 2), FOp::Power(2, 4), FOp::Tick(1), FOp::Start(0, 1, false)],
                    ..base()
                },
                dd(5, 6),
            ));
            entries.push(Entry::new(
                "redistribute",
                F {
                    src: Src::Token,
                    members: 3,
                    funds: vec![(true, 0, 10)],
                    claims: vec![Which::All, Which::Native(0)],
                    powers: vec![0, 2],
                    pre: vec![
                        FOp::Power(0, 1),
                        FOp::Power(1, 1),
                        FOp::Power(2, 1),
                        FOp::Tick(1),
                        FOp::Start(0, 1, false),
                        FOp::Fund(true, 0, 100),
                        FOp::Fund(false, 0, 10),
                        FOp::Tick(1),
                    ],
                    backs: vec![0, 1, 2, 4, -1],
                    ..base()
                },
                dd(5, 6),
            ));
            entries.push(Entry::new("timed", F { timed: true, starts: vec![(0, 0), (0, 1), (0, 2)], backs: vec![0], unit: u64::MAX as u128 * (1 << 50), ..base() }, dd(6, 7)));
            entries.push(Entry::new("wide", Wide { sizes: if th { vec![1, 2, 9, 10, 11, 20, 21, 30, 31, 50, 51, 100, 101] } else { vec![1, 10, 11, 31, 51] } }, 1));
            entries.push(Entry::new("nfts", F { src: Src::Nft, powers: vec![0, 1], ..base() }, dd(6, 7)));
            assumptions = vec!["the cw20 tokens behave like cw20-base", "powers are those at the start of the distribution height's block"];
        }
        _ => return None,
    }
    Some(PropertyPlan { entries, rule, assumptions })
}
fn main() {
    run_main(plan)
}
