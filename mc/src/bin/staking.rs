//! S01 cw20 staking with rewards, R01 external staking rewards, R04 staking reward distributor.
use cosmwasm_std::{to_json_binary, Uint128};
use cw_utils::Duration;
use mc::main_util::{run_main, Entry, PropertyPlan};
use mc::mocks::*;
use mc::own::{own_ops, Own, OwnAct};
use mc::rules::muldiv;
use mc::sim::{coins, Sim};
use mc::until::{Now, Until};
use mc::{ensure, same, Harness, VResult};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;

const S1: &[&str] = &["S01"];
const R1: &[&str] = &["R01"];
const R4: &[&str] = &["R04"];

/// 0..2 stakers, then owner, owner to be, outsider (who funds)
const NAMES: [&str; 6] = ["ann", "bob", "cat", "own", "new", "eve"];
const OWNER: u8 = 3;
const NEW: u8 = 4;
const EVE: u8 = 5;
fn who(i: u8) -> String {
    NAMES[i as usize].to_string()
}
fn u(v: &Value) -> u128 {
    v.as_str().map(|s| s.parse().unwrap()).or(v.as_u64().map(|x| x as u128)).unwrap_or_else(|| panic!("not a number: {}", v))
}
fn token(sim: &mut Sim, code: u64, label: &str, each: u128) -> String {
    sim.init(
        code,
        "whale",
        &cw20_base::msg::InstantiateMsg {
            name: label.into(),
            symbol: "TOK".into(),
            decimals: 6,
            initial_balances: NAMES.iter().map(|n| cw20::Cw20Coin { address: n.to_string(), amount: each.into() }).collect(),
            mint: None,
            marketing: None,
        },
        &[],
        label,
    )
    .unwrap()
    .to_string()
}
fn send(to: &str, amount: u128, inner: Value) -> Value {
    json!({"send": {"contract": to, "amount": amount.to_string(), "msg": to_json_binary(&inner).unwrap()}})
}

// ---------------------------------------------------------------- S01
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Dur {
    H(u64),
    T(u64),
}
impl Dur {
    fn d(self) -> Duration {
        match self {
            Dur::H(h) => Duration::Height(h),
            Dur::T(t) => Duration::Time(t),
        }
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum SOp {
    Stake(u8, u8),
    /// redeem this many shares
    Unstake(u8, u8),
    UnstakeAll(u8),
    Claim(u8),
    Fund(u8),
    Donate(u8),
    Forge(u8, bool),
    Foreign(u8, bool),
    Period(u8, Option<Dur>),
    Own(u8, OwnAct),
    Tick(u8),
}
#[derive(Clone, Debug, PartialEq, Hash)]
struct SM {
    wallet: BTreeMap<u8, u128>,
    shares: BTreeMap<u8, u128>,
    pool: u128,
    stray: u128,
    claims: BTreeMap<u8, Vec<(u128, Until)>>,
    period: Option<Dur>,
    own: Own,
    now: Now,
}
impl SM {
    fn total(&self) -> u128 {
        self.shares.values().sum()
    }
    fn value(&self, i: u8) -> u128 {
        let t = self.total();
        if t == 0 {
            0
        } else {
            muldiv(*self.shares.get(&i).unwrap_or(&0), self.pool, t)
        }
    }
}
struct SW {
    sim: Sim,
    stake: String,
    token: String,
    foreign: String,
}
struct S {
    scale: u128,
    stakers: u8,
    stakes: Vec<u8>,
    redeems: Vec<u8>,
    funds: Vec<u8>,
    period0: Option<Dur>,
    periods: Vec<Option<Dur>>,
    odd: bool,
    owners: bool,
    /// claims each staker already has
    ticks: u8,
    pre: Vec<SOp>,
}
impl Harness for S {
    type World = SW;
    type Model = SM;
    type Op = SOp;
    fn sim<'a>(&self, w: &'a mut SW) -> &'a mut Sim {
        &mut w.sim
    }
    fn setup(&self) -> (SW, SM) {
        let mut sim = Sim::new();
        let cw20c = sim.store(cw20_code());
        let sc = sim.store(stake_code());
        let each = 60 * self.scale;
        let t = token(&mut sim, cw20c, "token", each);
        let f = token(&mut sim, cw20c, "foreign", each);
        let stake = sim
            .init(
                sc,
                "whale",
                &cw20_stake::msg::InstantiateMsg {
                    owner: Some(who(OWNER)),
                    token_address: t.clone(),
                    unstaking_duration: self.period0.map(|d| d.d()),
                },
                &[],
                "stake",
            )
            .unwrap()
            .to_string();
        let m = SM {
            wallet: (0..6).map(|i| (i, each)).collect(),
            shares: BTreeMap::new(),
            pool: 0,
            stray: 0,
            claims: BTreeMap::new(),
            period: self.period0,
            own: Own::new(Some(OWNER)),
            now: (sim.height(), sim.time()),
        };
        let mut w = SW { sim, stake, token: t, foreign: f };
        let mut m = m;
        for op in &self.pre {
            self.step(&mut w, &mut m, op).unwrap();
        }
        w.sim.seal();
        (w, m)
    }
    fn ops(&self, m: &SM) -> Vec<SOp> {
        let mut o = vec![];
        for i in 0..self.ticks {
            o.push(SOp::Tick(i));
        }
        for i in 0..self.stakers {
            for x in &self.stakes {
                o.push(SOp::Stake(i, *x));
            }
            for x in &self.redeems {
                o.push(SOp::Unstake(i, *x));
            }
            o.push(SOp::UnstakeAll(i));
            if m.claims.contains_key(&i) || self.odd {
                o.push(SOp::Claim(i));
            }
        }
        for x in &self.funds {
            o.push(SOp::Fund(*x));
        }
        if self.odd {
            if m.stray == 0 {
                o.push(SOp::Donate(2));
            }
            for b in [true, false] {
                o.push(SOp::Forge(0, b));
                o.push(SOp::Foreign(0, b));
            }
            o.push(SOp::Unstake(0, 0));
        }
        for p in &self.periods {
            if *p != m.period {
                o.push(SOp::Period(OWNER, *p));
                o.push(SOp::Period(EVE, *p));
                if self.owners {
                    o.push(SOp::Period(NEW, *p));
                }
            }
        }
        if !self.periods.is_empty() {
            o.push(SOp::Period(OWNER, Some(Dur::H(0))));
            o.push(SOp::Period(OWNER, Some(Dur::T(0))));
        }
        if self.owners {
            for (a, x) in own_ops(&m.own, &[OWNER, NEW, EVE], NEW) {
                o.push(SOp::Own(a, x));
            }
            o.push(SOp::Own(OWNER, OwnAct::Renounce));
            o.push(SOp::Own(OWNER, OwnAct::Offer(NEW, Some(m.now.0 + 1))));
        }
        o
    }
    fn step(&self, w: &mut SW, m: &mut SM, op: &SOp) -> VResult<String> {
        let k = self.scale;
        let now = m.now;
        let before = m.clone();
        let mut own = None;
        let (r, want): (mc::sim::ExecResult, bool) = match op {
            SOp::Tick(i) => {
                let (b, s) = [(1, 5), (2, 5)][*i as usize];
                w.sim.advance(b, s);
                m.now = (m.now.0 + b, m.now.1 + s);
                return Ok("tick".into());
            }
            SOp::Stake(i, x) => {
                let x = *x as u128 * k;
                let r = w.sim.exec(who(*i), &w.token, &send(&w.stake, x, json!({"stake": {}})), &[]);
                let ok = m.wallet[i] >= x;
                if ok {
                    let t = m.total();
                    let got = if t == 0 || m.pool == 0 { x } else { muldiv(x, t, m.pool) };
                    *m.wallet.get_mut(i).unwrap() -= x;
                    *m.shares.entry(*i).or_insert(0) += got;
                    m.pool += x;
                }
                (r, ok)
            }
            SOp::Unstake(..) | SOp::UnstakeAll(_) => {
                let (i, x) = match op {
                    SOp::Unstake(i, x) => (*i, *x as u128 * k),
                    SOp::UnstakeAll(i) => (*i, *m.shares.get(i).unwrap_or(&0)),
                    _ => unreachable!(),
                };
                let have = *m.shares.get(&i).unwrap_or(&0);
                let r = w.sim.exec(who(i), &w.stake, &json!({"unstake": {"amount": x.to_string()}}), &[]);
                let t = m.total();
                let v = if t == 0 { 0 } else { muldiv(x, m.pool, t) };
                // redeeming nothing may be accepted or refused
                let ok = have >= x && t > 0 && if x == 0 { r.is_ok() } else { true };
                if ok {
                    if x > 0 {
                        *m.shares.get_mut(&i).unwrap() -= x;
                    }
                    m.pool -= v;
                    match m.period {
                        None => *m.wallet.get_mut(&i).unwrap() += v,
                        Some(d) => m.claims.entry(i).or_default().push((v, Until::after(&d.d(), now))),
                    }
                }
                (r, ok)
            }
            SOp::Claim(i) => {
                let r = w.sim.exec(who(*i), &w.stake, &json!({"claim": {}}), &[]);
                let c = m.claims.entry(*i).or_default();
                let due: u128 = c.iter().filter(|c| c.1.expired(now)).map(|c| c.0).sum();
                let ok = due > 0;
                if ok {
                    c.retain(|c| !c.1.expired(now));
                    *m.wallet.get_mut(i).unwrap() += due;
                }
                if c.is_empty() {
                    m.claims.remove(i);
                }
                (r, ok)
            }
            SOp::Fund(x) => {
                let x = *x as u128 * k;
                let r = w.sim.exec(who(EVE), &w.token, &send(&w.stake, x, json!({"fund": {}})), &[]);
                let ok = m.wallet[&EVE] >= x;
                if ok {
                    *m.wallet.get_mut(&EVE).unwrap() -= x;
                    m.pool += x;
                }
                (r, ok)
            }
            SOp::Donate(x) => {
                let x = *x as u128 * k;
                let r = w.sim.exec(who(EVE), &w.token, &json!({"transfer": {"recipient": w.stake, "amount": x.to_string()}}), &[]);
                *m.wallet.get_mut(&EVE).unwrap() -= x;
                m.stray += x;
                (r, true)
            }
            SOp::Forge(i, s) => {
                let inner = if *s { json!({"stake": {}}) } else { json!({"fund": {}}) };
                (
                    w.sim.exec(
                        who(*i),
                        &w.stake,
                        &json!({"receive": {"sender": who(*i), "amount": (3 * k).to_string(), "msg": to_json_binary(&inner).unwrap()}}),
                        &[],
                    ),
                    false,
                )
            }
            SOp::Foreign(i, s) => {
                let inner = if *s { json!({"stake": {}}) } else { json!({"fund": {}}) };
                (w.sim.exec(who(*i), &w.foreign, &send(&w.stake, 3 * k, inner), &[]), false)
            }
            SOp::Period(i, p) => {
                let r = w.sim.exec(who(*i), &w.stake, &json!({"update_config": {"duration": p.map(|d| d.d())}}), &[]);
                let ok = m.own.is(*i) && !matches!(p, Some(Dur::H(0)) | Some(Dur::T(0)));
                if ok {
                    m.period = *p;
                }
                (r, ok)
            }
            SOp::Own(i, a) => {
                let r = w.sim.exec(who(*i), &w.stake, &a.json(who), &[]);
                let ok = m.own.act(*i, *a, now);
                own = Some(());
                (r, ok)
            }
        };
        let _ = own;
        same!(r.is_ok(), want, S1, format!("accept-{}", if want { "ok" } else { "err" }), "{:?} ({:?})", op, r.as_ref().err());
        // nobody's value is lowered by what somebody else does
        let actor = match op {
            SOp::Stake(i, _) | SOp::Unstake(i, _) | SOp::UnstakeAll(i) => Some(*i),
            _ => None,
        };
        for i in 0..self.stakers {
            if Some(i) != actor {
                let v = u(&w.sim.query::<_, Value>(&w.stake, &json!({"staked_value": {"address": who(i)}})).map_err(|e| {
                    mc::Violation::new(S1, "value-query", format!("value of {} cannot be queried: {}", who(i), e))
                })?["value"]);
                ensure!(v >= before.value(i), S1, "value-lowered", "{:?} lowered the value of {} from {} to {}", op, who(i), before.value(i), v);
            }
        }
        Ok(format!("{}{}", if r.is_ok() { "" } else { "refused " }, format!("{:?}", op).split('(').next().unwrap()))
    }
    fn invariant(&self, w: &mut SW, m: &SM) -> VResult {
        let sim = &w.sim;
        for (i, x) in &m.wallet {
            same!(sim.cw20(&w.token, NAMES[*i as usize]), *x, S1, "wallet", "balance of {}", NAMES[*i as usize]);
        }
        let owed: u128 = m.claims.values().flatten().map(|c| c.0).sum();
        same!(sim.cw20(&w.token, &w.stake), m.pool + owed + m.stray, S1, "holdings", "tokens held by the staking contract");
        let tot: Value = sim.query(&w.stake, &json!({"total_value": {}})).unwrap();
        same!(u(&tot["total"]), m.pool, S1, "total-value", "total value");
        for i in 0..self.stakers {
            let r: Result<Value, String> = sim.query(&w.stake, &json!({"staked_value": {"address": who(i)}}));
            ensure!(r.is_ok(), S1, "value-query", "value of {} cannot be queried: {:?}", who(i), r);
            same!(u(&r.unwrap()["value"]), m.value(i), S1, "value", "value of {} ({:?} shares of {}, pool {})", who(i), m.shares.get(&i), m.total(), m.pool);
            let r: Value = sim.query(&w.stake, &json!({"claims": {"address": who(i)}})).unwrap();
            let mut got: Vec<(u128, Until)> = r["claims"]
                .as_array()
                .unwrap()
                .iter()
                .map(|c| (u(&c["amount"]), Until::of(&serde_json::from_value(c["release_at"].clone()).unwrap())))
                .collect();
            let mut want = m.claims.get(&i).cloned().unwrap_or_default();
            got.sort();
            want.sort();
            same!(got, want, S1, "claims", "claims of {}", who(i));
        }
        let c: Value = sim.query(&w.stake, &json!({"get_config": {}})).unwrap();
        same!(c["unstaking_duration"], serde_json::to_value(m.period.map(|d| d.d())).unwrap(), S1, "config", "unstaking period");
        if self.owners {
            let o: Value = sim.query(&w.stake, &json!({"ownership": {}})).unwrap();
            ensure!(m.own.matches(&o, who), S1, "owner", "ownership {:?} vs {}", m.own, o);
        }
        Ok(())
    }
    fn on_new_state(&self, w: &mut SW, m: &SM) -> VResult {
        // putting in and taking out again never gains
        if m.total() == 0 || m.wallet[&1] < 5 * self.scale {
            return Ok(());
        }
        let snap = w.sim.snapshot();
        for x in [1u128, 2, 3, 5] {
            let x = x * self.scale;
            let vals = |sim: &Sim, i: u8| u(&sim.query::<_, Value>(&w.stake, &json!({"staked_value": {"address": who(i)}})).unwrap()["value"]);
            let v0 = vals(&w.sim, 0);
            let s0 = *m.shares.get(&1).unwrap_or(&0);
            w.sim.exec(who(1), &w.token, &send(&w.stake, x, json!({"stake": {}})), &[]).unwrap();
            w.sim.advance(1, 1);
            let s1 = u(&w.sim.query::<_, Value>(&w.stake, &json!({"staked_balance_at_height": {"address": who(1)}})).unwrap()["balance"]);
            let bal = w.sim.cw20(&w.token, who(1));
            let r = w.sim.exec(who(1), &w.stake, &json!({"unstake": {"amount": (s1 - s0).to_string()}}), &[]);
            ensure!(s1 == s0 || r.is_ok(), S1, "roundtrip-refused", "unstaking what was just staked: {:?}", r.err());
            let mut back = w.sim.cw20(&w.token, who(1)) - bal;
            if m.period.is_some() {
                let c: Value = w.sim.query(&w.stake, &json!({"claims": {"address": who(1)}})).unwrap();
                let all: u128 = c["claims"].as_array().unwrap().iter().map(|c| u(&c["amount"])).sum();
                back += all - m.claims.get(&1).map(|c| c.iter().map(|c| c.0).sum::<u128>()).unwrap_or(0);
            }
            ensure!(back <= x, S1, "roundtrip-gain", "staking {} and unstaking the shares returned {}", x, back);
            ensure!(vals(&w.sim, 0) >= v0, S1, "roundtrip-loss", "a round trip of {} by bob lowered ann's value", x);
            w.sim.restore(&snap);
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- R01
const L: u128 = 27720;
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum XOp {
    Stake(u8, u8),
    Unstake(u8, u8),
    Claim(u8),
    Fund(u8, u32),
    FundWrong,
    Forge(u8),
    Length(u8, u64),
    Own(u8, OwnAct),
    Tick(u64),
}
#[derive(Clone, Debug, PartialEq, Hash)]
struct XM {
    stake: BTreeMap<u8, u128>,
    /// accrued, in units of 1/L
    acc: BTreeMap<u8, u128>,
    segs: BTreeMap<u8, u128>,
    paid: BTreeMap<u8, u128>,
    /// rate, first block, end block
    period: Option<(u128, u64, u64)>,
    length: u64,
    funded: u128,
    own: Own,
    now: Now,
}
struct XW {
    sim: Sim,
    stake: String,
    token: String,
    ext: String,
    rew: String,
}
struct X {
    native: bool,
    scale: u128,
    stakers: u8,
    amounts: Vec<u8>,
    funds: Vec<u32>,
    length: u64,
    lengths: Vec<u64>,
    ticks: Vec<u64>,
    odd: bool,
    owners: bool,
    pre: Vec<XOp>,
}
impl X {
    fn rbal(&self, w: &XW, a: &str) -> u128 {
        if self.native {
            w.sim.bal(a, "urew")
        } else {
            w.sim.cw20(&w.rew, a)
        }
    }
    fn pending(&self, w: &XW, i: u8) -> VResult<u128> {
        match w.sim.query::<_, Value>(&w.ext, &json!({"get_pending_rewards": {"address": who(i)}})) {
            Ok(v) => Ok(u(&v["pending_rewards"])),
            Err(e) => Err(mc::Violation::new(R1, "pending-query", format!("pending rewards of {} cannot be queried: {}", who(i), e))),
        }
    }
}
impl Harness for X {
    type World = XW;
    type Model = XM;
    type Op = XOp;
    fn sim<'a>(&self, w: &'a mut XW) -> &'a mut Sim {
        &mut w.sim
    }
    fn setup(&self) -> (XW, XM) {
        let mut sim = Sim::new();
        let cw20c = sim.store(cw20_code());
        let sc = sim.store(stake_code());
        let ec = sim.store(ext_rewards_code());
        let t = token(&mut sim, cw20c, "token", 60 * self.scale);
        let rew = token(&mut sim, cw20c, "rew", 1_000_000 * self.scale);
        for i in 0..6 {
            sim.mint(NAMES[i], 1_000_000 * self.scale, "urew");
            sim.mint(NAMES[i], 1_000_000 * self.scale, "other");
        }
        let stake = sim
            .init(
                sc,
                "whale",
                &cw20_stake::msg::InstantiateMsg { owner: Some(who(OWNER)), token_address: t.clone(), unstaking_duration: None },
                &[],
                "stake",
            )
            .unwrap()
            .to_string();
        let ext = sim
            .init(
                ec,
                "whale",
                &cw20_stake_external_rewards::msg::InstantiateMsg {
                    owner: Some(who(OWNER)),
                    staking_contract: stake.clone(),
                    reward_token: if self.native {
                        cw20::Denom::Native("urew".into())
                    } else {
                        cw20::Denom::Cw20(cosmwasm_std::Addr::unchecked(rew.clone()))
                    },
                    reward_duration: self.length,
                },
                &[],
                "ext",
            )
            .unwrap()
            .to_string();
        sim.exec(who(OWNER), &stake, &json!({"add_hook": {"addr": ext}}), &[]).unwrap();
        let mut m = XM {
            stake: BTreeMap::new(),
            acc: BTreeMap::new(),
            segs: BTreeMap::new(),
            paid: BTreeMap::new(),
            period: None,
            length: self.length,
            funded: 0,
            own: Own::new(Some(OWNER)),
            now: (sim.height(), sim.time()),
        };
        let mut w = XW { sim, stake, token: t, ext, rew };
        for op in &self.pre {
            self.step(&mut w, &mut m, op).unwrap();
        }
        w.sim.seal();
        (w, m)
    }
    fn ops(&self, m: &XM) -> Vec<XOp> {
        let mut o = vec![];
        for t in &self.ticks {
            o.push(XOp::Tick(*t));
        }
        for i in 0..self.stakers {
            for x in &self.amounts {
                // the reference counts shares of totals up to twelve exactly
                if m.stake.values().sum::<u128>() / self.scale + *x as u128 <= 12 {
                    o.push(XOp::Stake(i, *x));
                }
                if m.stake.get(&i).copied().unwrap_or(0) > 0 {
                    o.push(XOp::Unstake(i, *x));
                }
            }
            o.push(XOp::Claim(i));
        }
        for f in &self.funds {
            o.push(XOp::Fund(OWNER, *f));
        }
        if self.owners {
            o.push(XOp::Fund(NEW, self.funds[0]));
            for l in [0, 2] {
                o.push(XOp::Length(NEW, l));
            }
            for (a, x) in own_ops(&m.own, &[OWNER, NEW, EVE], NEW) {
                o.push(XOp::Own(a, x));
            }
        }
        if self.odd {
            o.push(XOp::Fund(EVE, self.funds[0]));
            o.push(XOp::FundWrong);
            o.push(XOp::Forge(0));
            o.push(XOp::Claim(EVE));
        }
        for l in &self.lengths {
            if *l != m.length {
                o.push(XOp::Length(OWNER, *l));
                o.push(XOp::Length(EVE, *l));
            }
        }
        o
    }
    fn step(&self, w: &mut XW, m: &mut XM, op: &XOp) -> VResult<String> {
        let k = self.scale;
        let h = m.now.0;
        let before: Vec<u128> = (0..6).map(|i| self.pending(w, i)).collect::<VResult<_>>()?;
        let (r, want): (mc::sim::ExecResult, bool) = match op {
            XOp::Tick(n) => {
                w.sim.advance(*n, *n * 5);
                if let Some((rate, from, end)) = m.period {
                    let a = h.max(from);
                    let b = (h + n).min(end);
                    let t: u128 = m.stake.values().sum::<u128>();
                    if b > a && t > 0 {
                        for (i, s) in &m.stake {
                            if *s > 0 {
                                let units = t / k;
                                *m.acc.entry(*i).or_insert(0) += (b - a) as u128 * rate * (s / k) * (L / units);
                            }
                        }
                    }
                }
                m.now = (m.now.0 + n, m.now.1 + n * 5);
                (Ok(Default::default()), true)
            }
            XOp::Stake(i, x) => {
                let r = w.sim.exec(who(*i), &w.token, &send(&w.stake, *x as u128 * k, json!({"stake": {}})), &[]);
                *m.stake.entry(*i).or_insert(0) += *x as u128 * k;
                *m.segs.entry(*i).or_insert(0) += 1;
                (r, true)
            }
            XOp::Unstake(i, x) => {
                let have = *m.stake.get(i).unwrap_or(&0);
                let ok = have >= *x as u128 * k;
                let r = w.sim.exec(who(*i), &w.stake, &json!({"unstake": {"amount": (*x as u128 * k).to_string()}}), &[]);
                if ok {
                    *m.stake.get_mut(i).unwrap() -= *x as u128 * k;
                    *m.segs.entry(*i).or_insert(0) += 1;
                }
                (r, ok)
            }
            XOp::Claim(i) => {
                let b0 = self.rbal(w, NAMES[*i as usize]);
                let r = w.sim.exec(who(*i), &w.ext, &json!({"claim": {}}), &[]);
                let ok = before[*i as usize] > 0;
                let got = self.rbal(w, NAMES[*i as usize]) - b0;
                same!(got, before[*i as usize], R1, "claim-amount", "paid to {} on claiming ({:?})", who(*i), r.as_ref().err());
                if ok {
                    *m.paid.entry(*i).or_insert(0) += got;
                    *m.segs.entry(*i).or_insert(0) += 1;
                }
                (r, ok)
            }
            XOp::Fund(i, x) => {
                let x = *x as u128 * k;
                let r = if self.native {
                    w.sim.exec(who(*i), &w.ext, &json!({"fund": {}}), &coins(x, "urew"))
                } else {
                    w.sim.exec(who(*i), &w.rew, &send(&w.ext, x, json!({"fund": {}})), &[])
                };
                let rate = x / m.length as u128;
                let ok = m.own.is(*i) && rate > 0 && m.period.map(|p| p.2 <= h).unwrap_or(true);
                if ok {
                    m.period = Some((rate, h, h + m.length));
                    m.funded += x;
                }
                (r, ok)
            }
            XOp::FundWrong => {
                let r = if self.native {
                    let both = vec![cosmwasm_std::coin(30 * k, "other"), cosmwasm_std::coin(30 * k, "urew")];
                    let two = w.sim.exec(who(OWNER), &w.ext, &json!({"fund": {}}), &both);
                    ensure!(two.is_err(), R1, "two-coins", "a funding in two kinds of coins was accepted");
                    w.sim.exec(who(OWNER), &w.ext, &json!({"fund": {}}), &coins(30 * k, "other"))
                } else {
                    w.sim.exec(who(OWNER), &w.token, &send(&w.ext, 30 * k, json!({"fund": {}})), &[])
                };
                (r, false)
            }
            XOp::Forge(i) => {
                let r = w.sim.exec(
                    who(*i),
                    &w.ext,
                    &json!({"stake_change_hook": {"unstake": {"addr": who(*i), "amount": "1"}}}),
                    &[],
                );
                (r, false)
            }
            XOp::Length(i, l) => {
                let r = w.sim.exec(who(*i), &w.ext, &json!({"update_reward_duration": {"new_duration": l}}), &[]);
                let ok = m.own.is(*i) && *l > 0 && m.period.map(|p| p.2 <= h).unwrap_or(true);
                if ok {
                    m.length = *l;
                }
                (r, ok)
            }
            XOp::Own(i, a) => {
                let r = w.sim.exec(who(*i), &w.ext, &a.json(who), &[]);
                let ok = m.own.act(*i, *a, m.now);
                (r, ok)
            }
        };
        same!(r.is_ok(), want, R1, format!("accept-{}", if want { "ok" } else { "err" }), "{:?} ({:?})", op, r.as_ref().err());
        for i in 0..6u8 {
            if *op != XOp::Claim(i) {
                let p = self.pending(w, i)?;
                ensure!(p >= before[i as usize], R1, "pending-lowered", "{:?} lowered the pending rewards of {} from {} to {}", op, who(i), before[i as usize], p);
                if !matches!(op, XOp::Tick(_)) {
                    same!(p, before[i as usize], R1, "pending-changed", "pending rewards of {} after {:?}", who(i), op);
                }
            }
        }
        Ok(format!("{}{}", if r.is_ok() { "" } else { "refused " }, format!("{:?}", op).split('(').next().unwrap()))
    }
    fn invariant(&self, w: &mut XW, m: &XM) -> VResult {
        let mut all = 0;
        for i in 0..6u8 {
            let p = self.pending(w, i)?;
            all += p;
            let got = p + m.paid.get(&i).unwrap_or(&0);
            let exact = *m.acc.get(&i).unwrap_or(&0);
            ensure!(got * L <= exact, R1, "over-accrual", "{} has {} (pending {}), which is more than {}/{}", who(i), got, p, exact, L);
            let segs = m.segs.get(&i).unwrap_or(&0) + 1;
            ensure!(exact - got * L <= segs * L, R1, "under-accrual", "{} has {} (pending {}), expected {}/{} up to {} roundings", who(i), got, p, exact, L, segs);
        }
        let paid: u128 = m.paid.values().sum();
        let bal = self.rbal(w, &w.ext);
        same!(bal, m.funded - paid, R1, "balance", "reward tokens held");
        ensure!(bal >= all, R1, "insolvent", "{} pending but {} held", all, bal);
        let c: Value = w.sim.query(&w.ext, &json!({"info": {}})).unwrap();
        same!(c["reward"]["reward_duration"].as_u64(), Some(m.length), R1, "length", "reward duration");
        if let Some((rate, _, end)) = m.period {
            same!(u(&c["reward"]["reward_rate"]), rate, R1, "rate", "reward rate");
            same!(c["reward"]["period_finish"].as_u64(), Some(end), R1, "finish", "end of the period");
        }
        let o: Value = w.sim.query(&w.ext, &json!({"ownership": {}})).unwrap();
        ensure!(m.own.matches(&o, who), R1, "owner", "ownership {:?} vs {}", m.own, o);
        Ok(())
    }
}

// ---------------------------------------------------------------- R04
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum DOp {
    Distribute(u8),
    Fund(u8),
    /// by, target, rate, other token
    Config(u8, u8, u8, bool),
    ConfigBad(u8, bool),
    Withdraw(u8),
    Own(u8, OwnAct),
    Tick(u64),
}
#[derive(Clone, Debug, PartialEq, Hash)]
struct DM {
    bal: [u128; 2],
    got: [u128; 2],
    owner_bal: [u128; 3],
    last: u64,
    rate: u128,
    target: u8,
    tok: usize,
    own: Own,
    now: Now,
}
struct DW {
    sim: Sim,
    toks: [String; 2],
    stakes: [String; 2],
    dist: String,
}
struct D {
    scale: u128,
    rate0: u8,
    rates: Vec<u8>,
    funds: Vec<u8>,
    ticks: Vec<u64>,
    owners: bool,
    tokens: bool,
}
impl Harness for D {
    type World = DW;
    type Model = DM;
    type Op = DOp;
    fn sim<'a>(&self, w: &'a mut DW) -> &'a mut Sim {
        &mut w.sim
    }
    fn setup(&self) -> (DW, DM) {
        let mut sim = Sim::new();
        let cw20c = sim.store(cw20_code());
        let sc = sim.store(stake_code());
        let dc = sim.store(reward_dist_code());
        let toks = [token(&mut sim, cw20c, "token", 1000 * self.scale), token(&mut sim, cw20c, "other", 1000 * self.scale)];
        let mk = |sim: &mut Sim, l: &str| {
            sim.init(
                sc,
                "whale",
                &cw20_stake::msg::InstantiateMsg { owner: Some(who(OWNER)), token_address: toks[0].clone(), unstaking_duration: None },
                &[],
                l,
            )
            .unwrap()
            .to_string()
        };
        let stakes = [mk(&mut sim, "s0"), mk(&mut sim, "s1")];
        let dist = sim
            .init(
                dc,
                "whale",
                &cw20_stake_reward_distributor::msg::InstantiateMsg {
                    owner: who(OWNER),
                    staking_addr: stakes[0].clone(),
                    reward_rate: Uint128::from(self.rate0 as u128 * self.scale),
                    reward_token: toks[0].clone(),
                },
                &[],
                "dist",
            )
            .unwrap()
            .to_string();
        sim.exec(who(0), &toks[0], &send(&stakes[0], 3, json!({"stake": {}})), &[]).unwrap();
        sim.seal();
        let now = (sim.height(), sim.time());
        let m = DM {
            bal: [0, 0],
            got: [3, 0],
            owner_bal: [1000 * self.scale; 3],
            last: now.0,
            rate: self.rate0 as u128 * self.scale,
            target: 0,
            tok: 0,
            own: Own::new(Some(OWNER)),
            now,
        };
        (DW { sim, toks, stakes, dist }, m)
    }
    fn ops(&self, m: &DM) -> Vec<DOp> {
        let mut o = vec![];
        for t in &self.ticks {
            o.push(DOp::Tick(*t));
        }
        o.push(DOp::Distribute(EVE));
        o.push(DOp::Distribute(OWNER));
        for f in &self.funds {
            o.push(DOp::Fund(*f));
        }
        for r in &self.rates {
            for t in 0..2 {
                o.push(DOp::Config(OWNER, t, *r, false));
            }
            o.push(DOp::Config(EVE, 1, *r, false));
            if self.owners {
                o.push(DOp::Config(NEW, 1, *r, false));
            }
        }
        if self.tokens {
            o.push(DOp::Config(OWNER, 0, self.rates[0], true));
            o.push(DOp::ConfigBad(OWNER, true));
            o.push(DOp::ConfigBad(OWNER, false));
        }
        o.push(DOp::Withdraw(OWNER));
        o.push(DOp::Withdraw(EVE));
        if self.owners {
            o.push(DOp::Withdraw(NEW));
            for (a, x) in own_ops(&m.own, &[OWNER, NEW, EVE], NEW) {
                o.push(DOp::Own(a, x));
            }
        }
        o
    }
    fn step(&self, w: &mut DW, m: &mut DM, op: &DOp) -> VResult<String> {
        let k = self.scale;
        let now = m.now;
        let (r, want): (mc::sim::ExecResult, bool) = match op {
            DOp::Tick(n) => {
                w.sim.advance(*n, *n * 5);
                m.now = (m.now.0 + n, m.now.1 + n * 5);
                return Ok("tick".into());
            }
            DOp::Distribute(i) => {
                let r = w.sim.exec(who(*i), &w.dist, &json!({"distribute": {}}), &[]);
                let due = ((now.0 - m.last) as u128 * m.rate).min(m.bal[m.tok]);
                // the staking contracts take the first token only
                let ok = due > 0 && m.tok == 0;
                if ok {
                    m.bal[0] -= due;
                    m.got[m.target as usize] += due;
                    m.last = now.0;
                }
                (r, ok)
            }
            DOp::Fund(x) => {
                let x = *x as u128 * k;
                let mut ok = true;
                let mut r = Ok(Default::default());
                for t in 0..if self.tokens { 2 } else { 1 } {
                    r = w.sim.exec(who(EVE), &w.toks[t], &json!({"transfer": {"recipient": w.dist, "amount": x.to_string()}}), &[]);
                    ok = r.is_ok();
                    if ok {
                        m.bal[t] += x;
                    }
                }
                (r, ok)
            }
            DOp::Config(i, t, rate, other) => {
                let r = w.sim.exec(
                    who(*i),
                    &w.dist,
                    &json!({"update_config": {"staking_addr": w.stakes[*t as usize], "reward_rate": (*rate as u128 * k).to_string(),
                        "reward_token": w.toks[*other as usize]}}),
                    &[],
                );
                let ok = m.own.is(*i);
                if ok {
                    m.target = *t;
                    m.rate = *rate as u128 * k;
                    m.tok = *other as usize;
                    m.last = now.0;
                }
                (r, ok)
            }
            DOp::ConfigBad(i, stake) => {
                let (s, t) = if *stake { (&w.toks[0], &w.toks[0]) } else { (&w.stakes[0], &w.stakes[0]) };
                let r = w.sim.exec(who(*i), &w.dist, &json!({"update_config": {"staking_addr": s, "reward_rate": "1", "reward_token": t}}), &[]);
                (r, false)
            }
            DOp::Withdraw(i) => {
                let r = w.sim.exec(who(*i), &w.dist, &json!({"withdraw": {}}), &[]);
                // withdrawing nothing may be accepted or refused
                let ok = m.own.is(*i) && (m.bal[m.tok] > 0 || r.is_ok());
                if ok {
                    if m.tok == 0 {
                        m.owner_bal[(*i - OWNER) as usize] += m.bal[m.tok];
                    }
                    m.bal[m.tok] = 0;
                }
                (r, ok)
            }
            DOp::Own(i, a) => {
                let r = w.sim.exec(who(*i), &w.dist, &a.json(who), &[]);
                let ok = m.own.act(*i, *a, now);
                (r, ok)
            }
        };
        same!(r.is_ok(), want, R4, format!("accept-{}", if want { "ok" } else { "err" }), "{:?} ({:?})", op, r.as_ref().err());
        Ok(format!("{}{}", if r.is_ok() { "" } else { "refused " }, format!("{:?}", op).split('(').next().unwrap()))
    }
    fn invariant(&self, w: &mut DW, m: &DM) -> VResult {
        for t in 0..2 {
            same!(w.sim.cw20(&w.toks[t], &w.dist), m.bal[t], R4, "balance", "tokens left in the distributor");
            same!(w.sim.cw20(&w.toks[0], &w.stakes[t]), m.got[t], R4, "paid", "tokens paid to staking contract {}", t);
            let v: Value = w.sim.query(&w.stakes[t], &json!({"total_value": {}})).unwrap();
            same!(u(&v["total"]), m.got[t], R4, "reward", "rewards added to staking contract {}", t);
        }
        for i in [OWNER, NEW] {
            same!(w.sim.cw20(&w.toks[0], NAMES[i as usize]), m.owner_bal[(i - OWNER) as usize], R4, "withdrawn", "balance of {}", who(i));
        }
        let i: Value = w.sim.query(&w.dist, &json!({"info": {}})).unwrap();
        same!(u(&i["config"]["reward_rate"]), m.rate, R4, "rate", "reward rate");
        same!(i["config"]["staking_addr"].as_str(), Some(w.stakes[m.target as usize].as_str()), R4, "target", "staking contract");
        same!(i["last_payment_block"].as_u64(), Some(m.last), R4, "last", "last payment block");
        same!(u(&i["balance"]), m.bal[m.tok], R4, "info-balance", "balance in info");
        let o: Value = w.sim.query(&w.dist, &json!({"ownership": {}})).unwrap();
        ensure!(m.own.matches(&o, who), R4, "owner", "ownership {:?} vs {}", m.own, o);
        Ok(())
    }
}

fn plan(prop: &str, th: bool) -> Option<PropertyPlan> {
    let mut entries = vec![];
    let dd = |q: usize, t: usize| if th { t } else { q };
    let rule;
    let mut assumptions = vec!["cw-multi-test stands in for the chain: transactions are atomic and cw20-base moves balances exactly"];
    match prop {
        "S01" => {
            rule = "explicit-state BFS over the real cw20-stake and cw20-base: every sequence of stakes, partial and full redemptions, added rewards, claims, stray and forged deposits, period and ownership changes and block/time steps up to the depth, compared with exact share arithmetic after each step, and a stake-unstake round trip tried in every distinct state";
            let base = || S {
                scale: 1,
                stakers: 2,
                stakes: vec![1, 3],
                redeems: vec![1, 2],
                funds: vec![1, 4],
                period0: None,
                periods: vec![],
                odd: false,
                owners: false,
                ticks: 1,
                pre: vec![],
            };
            entries.push(Entry::new("shares", base(), dd(6, 7)));
            entries.push(Entry::new("shares-three", S { stakers: 3, stakes: vec![2, 5], redeems: vec![1], funds: vec![3], ..base() }, dd(5, 6)));
            let huge = 10u128.pow(24) + 7;
            entries.push(Entry::new("shares-huge", S { scale: huge, stakes: vec![1, 5], redeems: vec![2], funds: vec![3], ..base() }, dd(6, 8)));
            entries.push(Entry::new(
                "claims",
                S { stakes: vec![3], redeems: vec![1], funds: vec![2], period0: Some(Dur::H(2)), periods: vec![None, Some(Dur::T(10)), Some(Dur::H(1))], ticks: 2, ..base() },
                dd(5, 6),
            ));
            entries.push(Entry::new(
                "claims-rewards",
                S { stakes: vec![3], redeems: vec![1], funds: vec![2], period0: Some(Dur::T(5)), odd: true, ..base() },
                dd(6, 7),
            ));
            entries.push(Entry::new(
                "authority",
                S { stakers: 1, stakes: vec![3], redeems: vec![1], funds: vec![], period0: None, periods: vec![None, Some(Dur::H(1))], odd: true, owners: true, ..base() },
                dd(5, 6),
            ));
            assumptions.push("rewards added, or roundings left, while nobody stakes go to the next staker; one hundred open claims per staker are beyond the bound");
        }
        "R01" => {
            rule = "explicit-state BFS over the real cw20-stake and external rewards contracts: every sequence of stakes, unstakes, claims, fundings (valid, early, too small, by outsiders or in the wrong token), forged notices, duration and ownership changes and block steps up to the depth; accrual is compared with exact rational accrual per block, allowing only one rounding down per settlement";
            let base = || X {
                native: true,
                scale: 1,
                stakers: 2,
                amounts: vec![1, 3],
                funds: vec![37],
                length: 3,
                lengths: vec![],
                ticks: vec![1],
                odd: false,
                owners: false,
                pre: vec![],
            };
            entries.push(Entry::new("accrual", X { amounts: vec![1], ..base() }, dd(7, 8)));
            entries.push(Entry::new(
                "accrual-running",
                X { pre: vec![XOp::Stake(0, 2), XOp::Fund(OWNER, 100), XOp::Tick(1)], amounts: vec![1], ticks: vec![1, 2], ..base() },
                dd(6, 7),
            ));
            entries.push(Entry::new(
                "three-stakers",
                X {
                    native: false,
                    stakers: 3,
                    pre: vec![XOp::Stake(0, 1), XOp::Stake(1, 1), XOp::Stake(2, 1), XOp::Fund(OWNER, 301)],
                    amounts: vec![1],
                    ticks: vec![1],
                    ..base()
                },
                dd(5, 6),
            ));
            entries.push(Entry::new(
                "refunding",
                X { native: false, pre: vec![XOp::Stake(0, 2), XOp::Stake(1, 1)], amounts: vec![1], funds: vec![10, 1], length: 2, lengths: vec![0, 1], ticks: vec![1, 3], odd: true, ..base() },
                dd(5, 6),
            ));
            let huge = 10u128.pow(20) + 39;
            entries.push(Entry::new(
                "accrual-huge",
                X { scale: huge, pre: vec![XOp::Stake(0, 2), XOp::Fund(OWNER, 100)], amounts: vec![1], ticks: vec![1], ..base() },
                dd(6, 7),
            ));
            entries.push(Entry::new("authority", X { stakers: 1, amounts: vec![1], odd: true, owners: true, lengths: vec![1], ..base() }, dd(5, 6)));
            assumptions.push("the rewards contract is subscribed to the staking contract from the start; blocks in which nobody stakes pay nobody");
        }
        "R04" => {
            rule = "explicit-state BFS over the real reward distributor, cw20-stake and cw20-base: every sequence of distributions by anyone, fundings, configuration changes (rate, target, token, invalid), withdrawals, ownership changes and block steps up to the depth, compared with an exact ledger after each step";
            let base = || D { scale: 1, rate0: 2, rates: vec![1, 5], funds: vec![3, 20], ticks: vec![1, 3], owners: false, tokens: false };
            entries.push(Entry::new("payments", base(), dd(7, 8)));
            entries.push(Entry::new("zero-rate", D { rate0: 0, rates: vec![0, 3], funds: vec![7], ..base() }, dd(8, 9)));
            entries.push(Entry::new("tokens", D { tokens: true, rates: vec![3], funds: vec![7], ..base() }, dd(8, 9)));
            entries.push(Entry::new("authority", D { owners: true, rates: vec![3], funds: vec![7], ticks: vec![1], ..base() }, dd(8, 9)));
            entries.push(Entry::new("payments-huge", D { scale: 10u128.pow(30) + 57, funds: vec![7], rates: vec![3], ..base() }, dd(8, 9)));
            assumptions.push("a configuration change starts the count of elapsed blocks anew");
        }
        _ => return None,
    }
    Some(PropertyPlan { entries, rule, assumptions })
}
fn main() {
    run_main(plan)
}
