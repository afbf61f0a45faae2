//! F01 schedule and conservation, F02 staking of vesting funds.
use cosmwasm_std::{to_json_binary, Timestamp};
use mc::main_util::{run_main, Entry, PropertyPlan};
use mc::mocks::*;
use mc::own::{own_ops, Own, OwnAct};
use mc::rules::muldiv;
use mc::sim::{coins, Sim, T0};
use mc::stake::{at, BONDED, UNBONDING};
use mc::until::Now;
use mc::{ensure, same, Harness, VResult};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;

const F1: &[&str] = &["F01"];
const F2: &[&str] = &["F02"];
const ALL: &[&str] = &["F01", "F02"];

const NAMES: [&str; 4] = ["rec", "own", "new", "eve"];
const REC: u8 = 0;
const OWN: u8 = 1;
const NEW: u8 = 2;
const EVE: u8 = 3;
const VALS: [&str; 2] = ["val0", "val1"];
fn who(i: u8) -> String {
    NAMES[i as usize].to_string()
}
fn u(v: &Value) -> u128 {
    v.as_str().map(|s| s.parse().unwrap()).or(v.as_u64().map(|x| x as u128)).unwrap_or_else(|| panic!("not a number: {}", v))
}
fn ts(t: i64) -> Timestamp {
    Timestamp::from_seconds((T0 as i64 + t) as u64)
}

// ---------------------------------------------------------------- schedules
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Sched {
    Linear,
    Steps(Vec<(u64, u128)>),
}
impl Sched {
    fn json(&self) -> Value {
        match self {
            Sched::Linear => json!("saturating_linear"),
            Sched::Steps(s) => json!({"piecewise_linear": s.iter().map(|(t, a)| json!([t, a.to_string()])).collect::<Vec<_>>()}),
        }
    }
    /// rises from nothing to the whole amount and never falls; steps in order of time, none at zero
    fn valid(&self, total: u128, dur: u64) -> bool {
        total > 0
            && dur > 0
            && match self {
                Sched::Linear => true,
                Sched::Steps(s) => {
                    s.len() >= 2
                        && s[0].0 > 0
                        && s.windows(2).all(|w| w[0].0 < w[1].0 && w[0].1 <= w[1].1)
                        && s[0].1 == 0
                        && s[s.len() - 1].1 == total
                }
            }
    }
    fn at(&self, total: u128, dur: u64, e: i64) -> u128 {
        let e = e.max(0) as u64;
        let line = |(x0, y0): (u64, u128), (x1, y1): (u64, u128)| y0 + muldiv(y1 - y0, (e - x0) as u128, (x1 - x0) as u128);
        match self {
            Sched::Linear => {
                if e >= dur {
                    total
                } else {
                    line((0, 0), (dur, total))
                }
            }
            Sched::Steps(s) => {
                if e <= s[0].0 {
                    return s[0].1;
                }
                for w in s.windows(2) {
                    if e <= w[1].0 {
                        return line(w[0], w[1]);
                    }
                }
                s[s.len() - 1].1
            }
        }
    }
    fn span(&self, dur: u64) -> u64 {
        match self {
            Sched::Linear => dur,
            Sched::Steps(s) => s[s.len() - 1].0 - s[0].0,
        }
    }
    fn end(&self, dur: u64) -> u64 {
        match self {
            Sched::Linear => dur,
            Sched::Steps(s) => s[s.len() - 1].0,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Denom {
    Bonded,
    Plain,
    Cw20,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Amt {
    Open,
    One,
    Most,
    Over,
    Zero,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Claim {
    One(u128),
    /// all there is to slash
    All,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Wait(u64),
    Distribute(u8, Amt),
    Cancel(u8),
    Withdraw(u8, Amt),
    Own(u8, OwnAct),
    /// a cw20 funding: payer, right token, amount off by
    Fund(u8, bool, i8),
    /// a forged notice of funding
    Forge(u8),
    Donate(u128),
    Delegate(u8, u8, u128),
    /// everything the contract may stake, plus this
    DelegateAll(u8, u128),
    Undelegate(u8, u8, Option<u128>),
    Redelegate(u8, u8, Option<u128>),
    /// a staking request that comes with coins
    Coins(u8),
    Address(u8, Option<u8>),
    Accrue(u8),
    Collect(u8, u8),
    /// the chain slashes bonded (false) or unbonding (true) tokens of this validator
    Slash(u8, Claim, bool),
    Register(u8),
    /// nothing, or something that has yet to happen
    BadRegister(bool),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Slash {
    v: u8,
    t: i64,
    n: u128,
    during: bool,
    /// the position changed since
    moved: bool,
    /// several unbondings were pending
    multi: bool,
    /// when the last of them completes
    until: i64,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum St {
    Unfunded,
    Running,
    /// total ever vesting to the recipient, left to the owner
    Canceled(u128, u128),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct M {
    now: i64,
    st: St,
    claimed: u128,
    /// charged to the recipient
    slashed: u128,
    /// charged to the owner
    slashed_owner: u128,
    /// held in the contract out of what was funded
    held: u128,
    donated: u128,
    bonded: BTreeMap<u8, u128>,
    /// validator, amount, completion
    unb: Vec<(u8, u128, i64)>,
    recv: BTreeMap<u8, i64>,
    /// position per validator since this time
    hist: Vec<(i64, BTreeMap<u8, u128>)>,
    address: u8,
    rewards: BTreeMap<u8, u128>,
    bal: [u128; 4],
    own: Own,
    pend: Option<Slash>,
    /// an unbonding slash was registered that the contract cannot place in its records
    blur: Option<&'static str>,
}
struct W {
    sim: Sim,
    vest: String,
    token: String,
    wrong: String,
}
#[derive(Clone)]
struct H {
    denom: Denom,
    total: u128,
    sched: Sched,
    dur: u64,
    start: i64,
    waits: Vec<u64>,
    amts: Vec<Amt>,
    cancel: bool,
    owners: bool,
    donate: Vec<u128>,
    stake: Vec<u128>,
    redelegate: bool,
    rewards: bool,
    slash: Vec<(Claim, bool)>,
    /// unbonding slashes whose registration the tracker cannot place: late ones, several unbondings
    late_unbonding: bool,
    multi_unbonding: bool,
    pre: Vec<Op>,
}
const PURSE: u128 = 1_000;

impl M {
    fn key(&self, k: &str) -> String {
        self.blur.unwrap_or(k).into()
    }
    fn moved(&mut self) {
        let t = self.now;
        self.note(t);
        if let Some(p) = &mut self.pend {
            p.moved = true;
        }
    }
    fn funded(&self) -> bool {
        self.st != St::Unfunded
    }
    fn position(&self, t: i64) -> BTreeMap<u8, u128> {
        let mut p = self.bonded.clone();
        for (v, n, c) in &self.unb {
            if *c > t {
                *p.entry(*v).or_insert(0) += n;
            }
        }
        p.retain(|_, n| *n > 0);
        p
    }
    fn staked(&self) -> u128 {
        self.bonded.values().sum::<u128>() + self.unb.iter().map(|e| e.1).sum::<u128>()
    }
    fn note(&mut self, t: i64) {
        let p = self.position(t);
        if let Some(l) = self.hist.last_mut() {
            if l.0 == t {
                l.1 = p;
                return;
            }
            if l.1 == p {
                return;
            }
        }
        self.hist.push((t, p));
    }
    fn position_at(&self, t: i64) -> BTreeMap<u8, u128> {
        if t >= self.now {
            return self.position(t);
        }
        self.hist.iter().rev().find(|h| h.0 <= t).map(|h| h.1.clone()).unwrap_or_default()
    }
    /// what the chain pays out on a change of this delegation
    fn payout(&mut self, v: u8) {
        if let Some(r) = self.rewards.remove(&v) {
            self.bal[self.address as usize] += r;
        }
    }
}
impl H {
    fn vested(&self, m: &M, t: i64) -> u128 {
        match m.st {
            St::Canceled(v, _) => v,
            _ => self.sched.at(self.total, self.dur, t - self.start),
        }
    }
    /// what the recipient is still owed of what has vested
    fn owed(&self, m: &M, t: i64) -> u128 {
        (self.vested(m, t) - m.claimed).saturating_sub(m.slashed)
    }
    fn distributable(&self, m: &M, t: i64) -> u128 {
        // tokens still unbonding now are back by then
        let back: u128 = m.unb.iter().filter(|e| e.2 <= t).map(|e| e.1).sum();
        if m.funded() {
            self.owed(m, t).min(m.held + back)
        } else {
            0
        }
    }
    fn withdrawable(&self, m: &M) -> u128 {
        match m.st {
            St::Canceled(_, ow) => ow.min(m.held),
            _ => 0,
        }
    }
    fn pick(a: Amt, most: u128) -> (Value, u128) {
        match a {
            Amt::Open => (Value::Null, most),
            Amt::One => (json!("1"), 1),
            Amt::Most => (json!(most.to_string()), most),
            Amt::Over => (json!((most + 1).to_string()), most + 1),
            Amt::Zero => (json!("0"), 0),
        }
    }
    fn bal(&self, w: &W, who: &str) -> u128 {
        match self.denom {
            Denom::Bonded => w.sim.bal(who, BONDED),
            Denom::Plain => w.sim.bal(who, "utok"),
            Denom::Cw20 => w.sim.cw20(&w.token, who),
        }
    }
    fn props(&self) -> &'static [&'static str] {
        ALL
    }
}
fn token(sim: &mut Sim, label: &str) -> String {
    let code = sim.store(cw20_code());
    sim.init(
        code,
        "whale",
        &cw20_base::msg::InstantiateMsg {
            name: label.into(),
            symbol: "TOK".into(),
            decimals: 6,
            initial_balances: NAMES.iter().map(|n| cw20::Cw20Coin { address: n.to_string(), amount: PURSE.into() }).collect(),
            mint: None,
            marketing: None,
        },
        &[],
        label,
    )
    .unwrap()
    .to_string()
}
fn init_msg(owner: Value, rec: &str, total: u128, denom: Value, sched: &Sched, start: Option<i64>, dur: u64) -> Value {
    json!({
        "owner": owner, "recipient": rec, "title": "t", "description": null, "total": total.to_string(), "denom": denom,
        "schedule": sched.json(), "start_time": start.map(ts), "vesting_duration_seconds": dur, "unbonding_duration_seconds": UNBONDING,
    })
}

impl Harness for H {
    type World = W;
    type Model = M;
    type Op = Op;
    fn setup(&self) -> (W, M) {
        let mut sim = Sim::new();
        let code = sim.store(vesting_code());
        for n in NAMES {
            sim.mint(n, PURSE, BONDED);
            sim.mint(n, PURSE, "utok");
            sim.mint(n, 100, "ufee");
        }
        let tok = token(&mut sim, "tok");
        let wrong = token(&mut sim, "wrong");
        let d = match self.denom {
            Denom::Bonded => json!({"native": BONDED}),
            Denom::Plain => json!({"native": "utok"}),
            Denom::Cw20 => json!({"cw20": tok}),
        };
        let msg = init_msg(json!("own"), "rec", self.total, d, &self.sched, Some(self.start), self.dur);
        let native = match self.denom {
            Denom::Bonded => Some(BONDED),
            Denom::Plain => Some("utok"),
            _ => None,
        };
        if let Some(d) = native {
            sim.mint("payer", self.total, d);
        }
        let funds = native.map(|d| coins(self.total, d)).unwrap_or_default();
        let vest = sim.init(code, "payer", &msg, &funds, "vest").unwrap().to_string();
        sim.seal();
        let mut w = W { sim, vest, token: tok, wrong };
        let mut m = M {
            now: 0,
            st: if native.is_some() { St::Running } else { St::Unfunded },
            claimed: 0,
            slashed: 0,
            slashed_owner: 0,
            held: if native.is_some() { self.total } else { 0 },
            donated: 0,
            bonded: BTreeMap::new(),
            unb: vec![],
            recv: BTreeMap::new(),
            hist: vec![],
            address: REC,
            rewards: BTreeMap::new(),
            bal: [PURSE; 4],
            own: Own::new(Some(OWN)),
            pend: None,
            blur: None,
        };
        for op in &self.pre {
            self.step(&mut w, &mut m, op).unwrap_or_else(|v| panic!("setup {:?}: {}", op, v.msg));
        }
        (w, m)
    }
    fn sim<'a>(&self, w: &'a mut W) -> &'a mut Sim {
        &mut w.sim
    }
    fn ops(&self, m: &M) -> Vec<Op> {
        let mut v: Vec<Op> = self.waits.iter().map(|s| Op::Wait(*s)).collect();
        // until an unbonding slash is registered the contract cannot know what it holds; only the
        // position may change, and only in the entry that explores late registration
        let hold = m.pend.as_ref().map(|p| p.during).unwrap_or(false);
        if hold {
            let p = m.pend.as_ref().unwrap();
            v.extend([Op::Register(OWN), Op::Register(REC), Op::Register(EVE)]);
            if self.late_unbonding && m.now < p.until {
                v.push(Op::DelegateAll(0, 0));
                v.push(Op::Undelegate(REC, 0, None));
            }
            return v;
        }
        let staking = !self.stake.is_empty();
        if self.denom == Denom::Cw20 {
            for (good, off) in [(true, 0), (true, 1), (true, -1), (false, 0)] {
                v.push(Op::Fund(EVE, good, off));
            }
            v.push(Op::Fund(OWN, true, 0));
            v.push(Op::Forge(EVE));
            v.push(Op::Forge(OWN));
        }
        for a in &self.amts {
            v.push(Op::Distribute(EVE, *a));
        }
        if self.cancel {
            // a vest nobody paid for that has begun to vest cannot be settled: left open
            if (m.funded() || self.vested(m, m.now) == 0) && m.pend.is_none() {
                v.push(Op::Cancel(OWN));
                if !staking || matches!(m.own.pending, Some(_)) {
                    v.push(Op::Cancel(REC));
                    v.push(Op::Cancel(NEW));
                }
            }
            if matches!(m.st, St::Canceled(..)) || !staking {
                for a in &self.amts {
                    v.push(Op::Withdraw(EVE, *a));
                }
            }
        }
        if self.owners {
            v.extend(own_ops(&m.own, &[OWN, NEW], NEW).into_iter().map(|(a, o)| Op::Own(a, o)));
            v.push(Op::Own(OWN, OwnAct::Renounce));
            v.push(Op::Own(REC, OwnAct::Accept));
        }
        if m.donated == 0 {
            v.extend(self.donate.iter().map(|n| Op::Donate(*n)));
        }
        for (i, n) in self.stake.iter().enumerate() {
            let vs = if self.redelegate { 0..2u8 } else { 0..1u8 };
            {
                for val in vs.clone() {
                    if i == 0 {
                        v.push(Op::DelegateAll(val, 0));
                        v.push(Op::Undelegate(REC, val, None));
                    }
                    v.push(Op::Delegate(REC, val, *n));
                    v.push(Op::Undelegate(REC, val, Some(*n)));
                }
                if i == 0 {
                    v.push(Op::DelegateAll(0, 1));
                    v.push(Op::Delegate(OWN, 0, *n));
                    v.push(Op::Undelegate(OWN, 0, None));
                    v.push(Op::Undelegate(EVE, 0, Some(*n)));
                    v.push(Op::Delegate(EVE, 0, *n));
                    v.push(Op::Delegate(REC, 9, *n));
                    v.extend((0..3).map(Op::Coins));
                }
                if self.redelegate {
                    if i == 0 {
                        v.push(Op::Redelegate(REC, 0, None));
                        v.push(Op::Redelegate(REC, 1, None));
                        v.push(Op::Redelegate(OWN, 0, None));
                        v.push(Op::Redelegate(EVE, 0, None));
                    }
                    v.push(Op::Redelegate(REC, 0, Some(*n)));
                }
            }
        }
        if self.rewards {
            for a in [REC, OWN, NEW, EVE] {
                v.push(Op::Address(a, Some(EVE)));
            }
            v.push(Op::Address(REC, None));
            v.push(Op::Address(OWN, Some(NEW)));
            v.push(Op::Accrue(0));
            v.push(Op::Collect(EVE, 0));
        }
        if !self.slash.is_empty() {
            for (c, during) in &self.slash {
                for val in [0u8, 1] {
                    let pending = m.unb.len();
                    let ok = m.pend.is_none()
                        && if *during {
                            m.unb.iter().any(|e| e.0 == val && e.1 > 0) && (self.multi_unbonding || pending == 1)
                        } else {
                            m.bonded.get(&val).copied().unwrap_or(0) > 0
                        };
                    if ok {
                        v.push(Op::Slash(val, *c, *during));
                    }
                }
            }
            if m.pend.is_some() {
                v.push(Op::Register(OWN));
                v.push(Op::Register(REC));
                v.push(Op::Register(EVE));
            }
            if m.pend.is_none() && m.funded() {
                v.push(Op::BadRegister(true));
                v.push(Op::BadRegister(false));
            }
        }
        v
    }
    fn step(&self, w: &mut W, m: &mut M, op: &Op) -> VResult<String> {
        let p = self.props();
        let nowt: Now = (w.sim.height(), w.sim.time());
        let vest = w.vest.clone();
        macro_rules! run {
            ($by:expr, $msg:expr, $ok:expr, $k:expr) => {{
                let ok: bool = $ok;
                let r = w.sim.exec(who($by), &vest, &$msg, &[]);
                ensure!(r.is_ok() == ok, p, m.key($k), "{:?} in {:?}: code {:?}, reference allows it: {}", op, m, r.err(), ok);
                ok
            }};
        }
        let ok = match op {
            Op::Wait(s) => {
                w.sim.advance(1, *s);
                let then = m.now + *s as i64;
                let mut due: Vec<_> = m.unb.iter().filter(|e| e.2 <= then).cloned().collect();
                due.sort_by_key(|e| e.2);
                for (_, _, c) in &due {
                    m.note(*c);
                }
                m.held += due.iter().map(|e| e.1).sum::<u128>();
                m.unb.retain(|e| e.2 > then);
                m.recv.retain(|_, t| *t > then);
                m.now = then;
                true
            }
            Op::Distribute(by, a) => {
                let most = self.distributable(m, m.now);
                let (j, n) = Self::pick(*a, most);
                let ok = n > 0 && n <= most;
                run!(*by, json!({"distribute": {"amount": j}}), ok, "distribute");
                if ok {
                    m.claimed += n;
                    m.held -= n;
                    m.bal[REC as usize] += n;
                }
                ok
            }
            Op::Cancel(by) => {
                let ok = m.own.is(*by) && !matches!(m.st, St::Canceled(..));
                run!(*by, json!({"cancel": {}}), ok, "cancel");
                if ok {
                    let v = self.vested(m, m.now);
                    let owed = self.owed(m, m.now);
                    let paid = owed.min(m.held);
                    let back = m.held - paid;
                    let left = m.staked() - (owed - paid).min(m.staked());
                    m.claimed += paid;
                    m.held = 0;
                    m.bal[REC as usize] += paid;
                    m.bal[*by as usize] += back;
                    m.st = St::Canceled(v, left);
                    m.address = *by;
                }
                ok
            }
            Op::Withdraw(by, a) => {
                let most = self.withdrawable(m);
                let (j, n) = Self::pick(*a, most);
                let ok = n > 0 && n <= most && m.own.owner.is_some();
                run!(*by, json!({"withdraw_canceled_payment": {"amount": j}}), ok, "withdraw");
                if ok {
                    if let St::Canceled(_, ow) = &mut m.st {
                        *ow -= n;
                    }
                    m.held -= n;
                    m.bal[m.own.owner.unwrap() as usize] += n;
                }
                ok
            }
            Op::Own(by, a) => {
                let mut o = m.own.clone();
                let stuck = *a == OwnAct::Renounce && matches!(m.st, St::Canceled(_, ow) if ow > 0);
                let ok = !stuck && o.act(*by, *a, nowt);
                run!(*by, a.json(who), ok, "ownership");
                if ok {
                    m.own = o;
                }
                ok
            }
            Op::Fund(by, good, off) => {
                let n = (self.total as i128 + *off as i128) as u128;
                let ok = *good && *off == 0 && m.st == St::Unfunded && m.bal[*by as usize] >= n;
                let msg = json!({"send": {"contract": vest, "amount": n.to_string(), "msg": to_json_binary(&json!({"fund": {}})).unwrap()}});
                let t = if *good { &w.token } else { &w.wrong };
                let r = w.sim.exec(who(*by), t, &msg, &[]);
                ensure!(r.is_ok() == ok, F1, "fund", "{:?} in {:?}: {:?}", op, m, r.err());
                if ok {
                    m.st = St::Running;
                    m.held = n;
                    m.bal[*by as usize] -= n;
                }
                ok
            }
            Op::Forge(by) => {
                let msg = json!({"receive": {"sender": who(*by), "amount": self.total.to_string(), "msg": to_json_binary(&json!({"fund": {}})).unwrap()}});
                let r = w.sim.exec(who(*by), &vest, &msg, &[]);
                ensure!(r.is_err(), F1, "forged-funding", "a forged notice of funding by {} was accepted", who(*by));
                false
            }
            Op::Donate(n) => {
                match self.denom {
                    Denom::Cw20 => {
                        w.sim.exec("eve", &w.token, &json!({"transfer": {"recipient": vest, "amount": n.to_string()}}), &[]).unwrap();
                    }
                    d => {
                        let d = if d == Denom::Bonded { BONDED } else { "utok" };
                        let msg = cosmwasm_std::BankMsg::Send { to_address: vest.clone(), amount: coins(*n, d) };
                        w.sim.exec_msgs("eve", vec![msg.into()]).unwrap();
                    }
                }
                m.bal[EVE as usize] -= n;
                m.donated += n;
                true
            }
            Op::Delegate(by, val, n) => {
                let ok = *by == REC && m.st == St::Running && *n <= m.held && *val < 9 && self.denom == Denom::Bonded;
                let name = if *val < 9 { VALS[*val as usize].to_string() } else { "nobody".into() };
                run!(*by, json!({"delegate": {"validator": name, "amount": n.to_string()}}), ok, "delegate");
                if ok {
                    m.payout(*val);
                    m.held -= n;
                    *m.bonded.entry(*val).or_insert(0) += n;
                    m.moved();
                }
                ok
            }
            Op::DelegateAll(val, more) => {
                let n = m.held + more;
                let ok = m.st == St::Running && *more == 0 && n > 0 && self.denom == Denom::Bonded;
                run!(REC, json!({"delegate": {"validator": VALS[*val as usize], "amount": n.to_string()}}), ok, "delegate");
                if ok {
                    m.payout(*val);
                    m.held = 0;
                    *m.bonded.entry(*val).or_insert(0) += n;
                    m.moved();
                }
                ok
            }
            Op::Coins(k) => {
                let msg = match k {
                    0 => json!({"delegate": {"validator": VALS[0], "amount": "1"}}),
                    1 => json!({"undelegate": {"validator": VALS[0], "amount": "1"}}),
                    _ => json!({"redelegate": {"src_validator": VALS[0], "dst_validator": VALS[1], "amount": "1"}}),
                };
                let r = w.sim.exec(who(REC), &vest, &msg, &coins(1, "ufee"));
                ensure!(r.is_err(), p, m.key("coins"), "a staking request was accepted with coins: {}", msg);
                false
            }
            Op::Undelegate(by, val, n) => {
                let have = m.bonded.get(val).copied().unwrap_or(0);
                let n = n.unwrap_or(have);
                let ok = n > 0
                    && n <= have
                    && match m.st {
                        St::Unfunded => false,
                        St::Running => *by == REC,
                        St::Canceled(..) => true,
                    };
                run!(*by, json!({"undelegate": {"validator": VALS[*val as usize], "amount": n.to_string()}}), ok, "undelegate");
                if ok {
                    m.payout(*val);
                    m.bonded.insert(*val, have - n);
                    m.bonded.retain(|_, n| *n > 0);
                    m.unb.push((*val, n, m.now + UNBONDING as i64));
                    m.moved();
                }
                ok
            }
            Op::Redelegate(by, src, n) => {
                let dst = 1 - *src;
                let have = m.bonded.get(src).copied().unwrap_or(0);
                let n = n.unwrap_or(have);
                let ok = *by == REC && m.st == St::Running && n > 0 && n <= have && !m.recv.contains_key(src);
                run!(*by, json!({"redelegate": {"src_validator": VALS[*src as usize], "dst_validator": VALS[dst as usize], "amount": n.to_string()}}), ok, "redelegate");
                if ok {
                    m.payout(*src);
                    m.payout(dst);
                    m.bonded.insert(*src, have - n);
                    m.bonded.retain(|_, n| *n > 0);
                    *m.bonded.entry(dst).or_insert(0) += n;
                    m.recv.insert(dst, m.now + UNBONDING as i64);
                    m.moved();
                }
                ok
            }
            Op::Address(by, to) => {
                let ok = to.is_some()
                    && match m.st {
                        St::Canceled(..) => m.own.is(*by),
                        _ => *by == REC,
                    };
                run!(*by, json!({"set_withdraw_address": {"address": to.map(who).unwrap_or(vest.clone())}}), ok, "withdraw-address");
                if ok {
                    m.address = to.unwrap();
                }
                ok
            }
            Op::Accrue(val) => {
                let ok = m.bonded.contains_key(val);
                if ok {
                    *m.rewards.entry(*val).or_insert(0) += 3;
                    w.sim.stk_edit(|k| *k.rewards.entry(at(&vest, VALS[*val as usize])).or_insert(0) += 3);
                }
                ok
            }
            Op::Collect(by, val) => {
                let ok = m.bonded.contains_key(val);
                run!(*by, json!({"withdraw_delegator_reward": {"validator": VALS[*val as usize]}}), ok, "collect");
                if ok {
                    m.payout(*val);
                }
                ok
            }
            Op::Slash(val, c, during) => {
                let have: u128 = if *during {
                    m.unb.iter().filter(|e| e.0 == *val).map(|e| e.1).sum()
                } else {
                    m.bonded[val]
                };
                let n = match c {
                    Claim::One(n) => (*n).min(have),
                    Claim::All => have,
                };
                let key = at(&vest, VALS[*val as usize]);
                let multi = m.unb.len() > 1;
                let until = m.unb.iter().map(|e| e.2).max().unwrap_or(0);
                if *during {
                    // spread over the entries, last first
                    let mut left = n;
                    for e in m.unb.iter_mut().rev().filter(|e| e.0 == *val) {
                        let cut = left.min(e.1);
                        e.1 -= cut;
                        left -= cut;
                    }
                    let unb = m.unb.clone();
                    w.sim.stk_edit(|k| {
                        k.unb = unb.iter().map(|e| (vest.clone(), VALS[e.0 as usize].to_string(), e.1, (T0 as i64 + e.2) as u64)).collect()
                    });
                } else {
                    m.bonded.insert(*val, have - n);
                    m.bonded.retain(|_, n| *n > 0);
                    w.sim.stk_edit(|k| {
                        if have == n {
                            k.bonded.remove(&key);
                            k.rewards.remove(&key);
                        } else {
                            k.bonded.insert(key, have - n);
                        }
                    });
                    if have == n {
                        m.rewards.remove(val);
                    }
                }
                m.pend = Some(Slash { v: *val, t: m.now, n, during: *during, moved: false, multi, until });
                m.note(m.now);
                true
            }
            Op::Register(by) => {
                let s = m.pend.clone().unwrap();
                let ok = m.own.is(*by);
                let msg = json!({"register_slash": {"validator": VALS[s.v as usize], "time": ts(s.t), "amount": s.n.to_string(), "during_unbonding": s.during}});
                run!(*by, msg, ok, "register");
                if ok {
                    match &mut m.st {
                        St::Canceled(_, ow) => {
                            let o = s.n.min(*ow);
                            *ow -= o;
                            m.slashed_owner += o;
                            m.slashed += s.n - o;
                        }
                        _ => m.slashed += s.n,
                    }
                    if s.during && s.multi {
                        m.blur = Some("multi-unbonding-slash");
                    } else if s.during && s.moved {
                        m.blur = Some("late-unbonding-slash");
                    }
                    m.pend = None;
                }
                ok
            }
            Op::BadRegister(zero) => {
                let val = m.bonded.keys().next().copied().unwrap_or(0);
                let (t, n) = if *zero { (m.now, 0) } else { (m.now + 1, 1) };
                let msg = json!({"register_slash": {"validator": VALS[val as usize], "time": ts(t), "amount": n.to_string(), "during_unbonding": false}});
                run!(OWN, msg, false, "register");
                false
            }
        };
        Ok(format!("{:?} {}", op, ok))
    }
    fn invariant(&self, w: &mut W, m: &M) -> VResult {
        let p = self.props();
        for (i, n) in NAMES.iter().enumerate() {
            same!(self.bal(w, n), m.bal[i], p, m.key("balance"), "what {} has, in {:?}", n, m);
        }
        same!(self.bal(w, &w.vest), m.held + m.donated, p, m.key("held"), "what the contract holds, in {:?}", m);
        let info: Value = w.sim.query(&w.vest, &json!({"info": {}})).unwrap();
        same!(u(&info["claimed"]), m.claimed, p, m.key("info"), "claimed in {:?}", m);
        same!(u(&info["slashed"]), m.slashed, p, m.key("info"), "slashed in {:?}", m);
        same!(info["recipient"], json!("rec"), p, m.key("info"), "recipient in {:?}", m);
        let st = match m.st {
            St::Unfunded => json!("unfunded"),
            St::Running => json!("funded"),
            St::Canceled(_, ow) => json!({"canceled": {"owner_withdrawable": ow.to_string()}}),
        };
        same!(info["status"], st, p, m.key("status"), "status in {:?}", m);
        let o: Value = w.sim.query(&w.vest, &json!({"ownership": {}})).unwrap();
        ensure!(m.own.matches(&o, who), p, "ownership", "ownership {} in {:?}", o, m);
        let total: Value = w.sim.query(&w.vest, &json!({"total_to_vest": {}})).unwrap();
        let end = self.start + self.sched.end(self.dur) as i64;
        same!(u(&total), self.vested(m, end), p, "total", "total to vest in {:?}", m);
        let d: Value = w.sim.query(&w.vest, &json!({"vest_duration": {}})).unwrap();
        let want = if matches!(m.st, St::Canceled(..)) { Value::Null } else { json!(self.sched.span(self.dur).to_string()) };
        same!(d, want, p, "duration", "duration in {:?}", m);
        for t in [self.start - 1, self.start, self.start + 1, m.now, m.now + 1, m.now + 3, end - 1, end, end + 9] {
            let v: Value = w.sim.query(&w.vest, &json!({"vested": {"t": ts(t)}})).unwrap();
            same!(u(&v), self.vested(m, t), p, "vested", "vested by {} in {:?}", t, m);
        }
        let v: Value = w.sim.query(&w.vest, &json!({"vested": {}})).unwrap();
        same!(u(&v), self.vested(m, m.now), p, "vested", "vested now in {:?}", m);
        // conservation
        if m.funded() {
            let ow = if let St::Canceled(_, ow) = m.st { ow } else { 0 };
            if let St::Canceled(v, _) = m.st {
                same!(m.held + m.staked() + m.pend.as_ref().map(|s| s.n).unwrap_or(0), ow + (v - m.claimed).saturating_sub(m.slashed), p, m.key("conservation"), "what is left covers both sides exactly in {:?}", m);
            } else {
                same!(m.held + m.staked() + m.pend.as_ref().map(|s| s.n).unwrap_or(0) + m.claimed + m.slashed, self.total, p, m.key("conservation"), "conservation in {:?}", m);
            }
        }
        if m.pend.is_some() {
            return Ok(());
        }
        let q: Result<Value, String> = w.sim.query(&w.vest, &json!({"distributable": {}}));
        ensure!(q.is_ok(), p, m.key("distributable"), "no answer to what can be distributed in {:?}: {:?}", m, q);
        same!(u(&q.unwrap()), self.distributable(m, m.now), p, m.key("distributable"), "distributable now in {:?}", m);
        for t in [m.now + 1, m.now + 7, m.now + UNBONDING as i64, m.now + 100] {
            let q: Value = w.sim.query(&w.vest, &json!({"distributable": {"t": ts(t)}})).unwrap_or(json!("99999999"));
            same!(u(&q), self.distributable(m, t), p, m.key("distributable"), "distributable by {} in {:?}", t, m);
        }
        if self.denom == Denom::Bonded {
            let mut times: Vec<i64> = vec![-1, 0, m.now, m.now + 1, m.now + 100];
            for t in m.hist.iter().map(|h| h.0).chain(m.unb.iter().map(|e| e.2)) {
                times.extend([t - 1, t, t + 1]);
            }
            times.sort();
            times.dedup();
            for t in times {
                let pos = m.position_at(t);
                let a: Value = w.sim.query(&w.vest, &json!({"stake": {"total_staked": {"t": ts(t)}}})).unwrap();
                same!(u(&a), pos.values().sum::<u128>(), F2, m.key("total-staked"), "staked in total at {} in {:?}", t, m);
                for (i, v) in VALS.iter().enumerate() {
                    let a: Value = w.sim.query(&w.vest, &json!({"stake": {"validator_staked": {"validator": v, "t": ts(t)}}})).unwrap();
                    same!(u(&a), pos.get(&(i as u8)).copied().unwrap_or(0), F2, m.key("validator-staked"), "staked with {} at {} in {:?}", v, t, m);
                }
                let a: Value = w.sim.query(&w.vest, &json!({"stake": {"cardinality": {"t": ts(t)}}})).unwrap();
                same!(u(&a), pos.len() as u128, F2, m.key("cardinality"), "validators at {} in {:?}", t, m);
            }
            // the staking module's view
            let k = w.sim.stk();
            for (i, v) in VALS.iter().enumerate() {
                same!(k.bonded.get(&at(&w.vest, v)).copied().unwrap_or(0), m.bonded.get(&(i as u8)).copied().unwrap_or(0), F2, "bonded", "delegated to {} in {:?}", v, m);
            }
            let a = k.waddr.get(&w.vest).cloned().unwrap_or_default();
            same!(a, who(m.address), F2, "withdraw-address", "where staking rewards go in {:?}", m);
        }
        Ok(())
    }
    /// Run the agreement to its end: everything must come out, to the right party.
    fn on_new_state(&self, w: &mut W, m: &M) -> VResult {
        let snap = w.sim.snapshot();
        let r = self.to_the_end(w, m);
        w.sim.restore(&snap);
        r
    }
}
impl H {
    fn to_the_end(&self, w: &mut W, m: &M) -> VResult {
        if !m.funded() || (m.pend.is_some() && !m.own.is(OWN)) {
            return Ok(());
        }
        let mut m = m.clone();
        if m.pend.is_some() {
            self.step(w, &mut m, &Op::Register(OWN))?;
        }
        let by = if matches!(m.st, St::Canceled(..)) { EVE } else { REC };
        for v in [0u8, 1] {
            if m.bonded.contains_key(&v) {
                self.step(w, &mut m, &Op::Undelegate(by, v, None))?;
            }
        }
        let end = self.start + self.sched.end(self.dur) as i64;
        let rest = ((end - m.now).max(0) as u64).max(UNBONDING);
        self.step(w, &mut m, &Op::Wait(rest))?;
        if self.distributable(&m, m.now) > 0 {
            self.step(w, &mut m, &Op::Distribute(EVE, Amt::Open))?;
        }
        if self.withdrawable(&m) > 0 && m.own.owner.is_some() {
            self.step(w, &mut m, &Op::Withdraw(EVE, Amt::Open))?;
        }
        if m.own.owner.is_some() {
            same!(self.bal(w, &w.vest), m.donated, self.props(), m.key("leftover"), "left in the contract at the end: {:?}", m);
        }
        self.invariant(w, &m)
    }
}

// ---------------------------------------------------------------- creation
#[derive(Clone, Debug, Serialize, Deserialize)]
struct New {
    total: u128,
    sched: Sched,
    start: Option<i64>,
    dur: u64,
    /// denom paid, amount
    pay: Vec<(u8, u128)>,
    cw20: bool,
    owner: Option<String>,
    rec: String,
}
struct Creation {
    full: bool,
}
struct CW {
    sim: Sim,
    code: u64,
    token: String,
}
impl Harness for Creation {
    type World = CW;
    type Model = bool;
    type Op = New;
    fn setup(&self) -> (CW, bool) {
        let mut sim = Sim::new();
        let code = sim.store(vesting_code());
        sim.mint("payer", 1u128 << 110, "utok");
        sim.mint("payer", 1u128 << 110, "uoth");
        let token = token(&mut sim, "tok");
        sim.seal();
        (CW { sim, code, token }, false)
    }
    fn sim<'a>(&self, w: &'a mut CW) -> &'a mut Sim {
        &mut w.sim
    }
    fn ops(&self, done: &bool) -> Vec<New> {
        if *done {
            return vec![];
        }
        let mut v = vec![];
        let base = New { total: 10, sched: Sched::Linear, start: None, dur: 4, pay: vec![(0, 10)], cw20: false, owner: Some("own".into()), rec: "rec".into() };
        for total in [0, 1, 7, 10, 1_000_000_000_000_000_000_000_000_000u128] {
            for start in [None, Some(-4), Some(-3), Some(-1), Some(0), Some(1), Some(50)] {
                for dur in [0, 1, 3, 4, 7, 100_000_000] {
                    v.push(New { total, start, dur, pay: vec![(0, total)], ..base.clone() });
                }
            }
        }
        for pay in [vec![], vec![(0, 9)], vec![(0, 11)], vec![(1, 10)], vec![(0, 10), (1, 10)], vec![(0, 10), (1, 1)]] {
            v.push(New { pay, ..base.clone() });
        }
        for pay in [vec![], vec![(0, 10)], vec![(1, 1)]] {
            v.push(New { pay, cw20: true, ..base.clone() });
        }
        for (owner, rec) in [(None, "rec"), (Some("own"), "x"), (Some("x"), "rec"), (Some("own"), "own"), (Some("own"), "")] {
            v.push(New { owner: owner.map(|s| s.to_string()), rec: rec.into(), ..base.clone() });
        }
        // every small piecewise schedule
        let ts: &[u64] = if self.full { &[0, 1, 2, 5, 8] } else { &[0, 1, 3, 7] };
        let amts: &[u128] = if self.full { &[0, 1, 4, 10, 11] } else { &[0, 4, 10] };
        let mut cur: Vec<Vec<(u64, u128)>> = vec![vec![]];
        for len in 0..=4usize {
            for s in &cur {
                for cw20 in [false, true] {
                    if cw20 && len != 2 {
                        continue;
                    }
                    v.push(New { sched: Sched::Steps(s.clone()), cw20, pay: if cw20 { vec![] } else { vec![(0, 10)] }, ..base.clone() });
                    if len == 3 && !cw20 {
                        v.push(New { sched: Sched::Steps(s.clone()), start: Some(-2), ..base.clone() });
                    }
                }
            }
            if len == 4 {
                break;
            }
            let mut next = vec![];
            for s in &cur {
                for t in ts {
                    // longer lists only in order of time
                    if len >= 2 && *t <= s[len - 1].0 {
                        continue;
                    }
                    for a in amts {
                        let mut s = s.clone();
                        s.push((*t, *a));
                        next.push(s);
                    }
                }
            }
            cur = next;
        }
        v
    }
    fn step(&self, w: &mut CW, done: &mut bool, o: &New) -> VResult<String> {
        *done = true;
        let denom = if o.cw20 { json!({"cw20": w.token}) } else { json!({"native": "utok"}) };
        let msg = init_msg(json!(o.owner), &o.rec, o.total, denom, &o.sched, o.start, o.dur);
        let names = ["utok", "uoth"];
        let funds: Vec<_> = o.pay.iter().filter(|p| p.1 > 0).map(|(d, n)| mc::sim::coin(*n, names[*d as usize])).collect();
        let start = o.start.unwrap_or(0);
        let paid = if o.cw20 { o.pay.is_empty() } else { o.pay == vec![(0, o.total)] };
        // the test chain's rule for addresses
        let addr = |s: &str| s.len() >= 3;
        let ok = o.sched.valid(o.total, o.dur) && start + o.dur as i64 > 0 && paid && addr(&o.rec) && o.owner.as_deref().map(addr).unwrap_or(true);
        let before = w.sim.bal("payer", "utok");
        let r = w.sim.init(w.code, "payer", &msg, &funds, "vest");
        ensure!(r.is_ok() == ok, F1, "creation", "{:?}: code {:?}, reference allows it: {}", o, r, ok);
        if let Ok(a) = r {
            same!(before - w.sim.bal("payer", "utok"), if o.cw20 { 0 } else { o.total }, F1, "creation", "paid for {:?}", o);
            let info: Value = w.sim.query(&a, &json!({"info": {}})).unwrap();
            same!(info["status"], json!(if o.cw20 { "unfunded" } else { "funded" }), F1, "creation", "status of {:?}", o);
            same!(info["recipient"], json!(o.rec), F1, "creation", "recipient of {:?}", o);
            let own: Value = w.sim.query(&a, &json!({"ownership": {}})).unwrap();
            same!(own["owner"], json!(o.owner), F1, "creation", "owner of {:?}", o);
            let total: Value = w.sim.query(&a, &json!({"total_to_vest": {}})).unwrap();
            same!(u(&total), o.total, F1, "total", "total of {:?}", o);
            let d: Value = w.sim.query(&a, &json!({"vest_duration": {}})).unwrap();
            same!(u(&d), o.sched.span(o.dur) as u128, F1, "duration", "duration of {:?}", o);
            let end = o.sched.end(o.dur) as i64;
            let mut times: Vec<i64> = (-2..20).collect();
            times.extend([end / 3, end / 2, end - 1, end, end + 1, end * 2]);
            let mut last = 0;
            times.sort();
            for t in times {
                let v: Value = w.sim.query(&a, &json!({"vested": {"t": ts(start + t)}})).unwrap();
                let v = u(&v);
                same!(v, o.sched.at(o.total, o.dur, t), F1, "vested", "vested {} after the start of {:?}", t, o);
                ensure!(v >= last && v <= o.total, F1, "vested", "vested {} then {} of {:?}", last, v, o);
                last = v;
            }
        }
        Ok(format!("{}", ok))
    }
    fn invariant(&self, _w: &mut CW, _m: &bool) -> VResult {
        Ok(())
    }
}

fn plan(prop: &str, th: bool) -> Option<PropertyPlan> {
    let mut entries = vec![];
    let dd = |q: usize, t: usize| if th { t } else { q };
    let base = || H {
        denom: Denom::Plain,
        total: 7,
        sched: Sched::Linear,
        dur: 5,
        start: 0,
        waits: vec![1, 2],
        amts: vec![Amt::Open, Amt::One, Amt::Over],
        cancel: true,
        owners: false,
        donate: vec![],
        stake: vec![],
        redelegate: false,
        rewards: false,
        slash: vec![],
        late_unbonding: false,
        multi_unbonding: false,
        pre: vec![],
    };
    let rule;
    let assumptions;
    let st = || H { denom: Denom::Bonded, total: 100, dur: 20, waits: vec![5, 10], amts: vec![Amt::Open, Amt::Over], stake: vec![40], ..base() };
    let bonded = || H { slash: vec![(Claim::One(7), false), (Claim::All, false)], pre: vec![Op::DelegateAll(0, 0), Op::Wait(5)], ..st() };
    // everything vested is paid when the slash comes
    let paid = || H { pre: vec![Op::Delegate(REC, 0, 40), Op::Wait(5), Op::Distribute(EVE, Amt::Open)], ..bonded() };
    match prop {
        "F01" => {
            rule = "explicit-state BFS over the real vesting contract (native, cw20 and staking denom; linear and piecewise schedules; start in the past, now and future): every sequence of block steps, distributions and withdrawals of open, partial, exact, zero and excessive amounts by anybody, cancellations by owner, recipient and others, ownership handovers, fundings in wrong token, wrong amount, twice and forged, and donations up to the depth; each balance, the status, every query and the vested amount on a time grid are compared with exact rational arithmetic after each step, and from every distinct state the agreement is run to its end where everything must have been paid to the right party; creation is swept over totals, durations, starts, payments, owners and every small piecewise schedule, each compared on a grid of times";
            entries.push(Entry::new("linear", H { ..base() }, dd(9, 12)));
            entries.push(Entry::new("owners", H { owners: true, amts: vec![Amt::Open, Amt::Most, Amt::Zero], start: -1, donate: vec![3], ..base() }, dd(8, 10)));
            entries.push(Entry::new("future", H { start: 3, dur: 1, waits: vec![1, 5], donate: vec![2], ..base() }, dd(9, 12)));
            entries.push(Entry::new(
                "piecewise",
                H { denom: Denom::Cw20, total: 11, sched: Sched::Steps(vec![(1, 0), (2, 4), (5, 4), (8, 11)]), dur: 8, start: -1, waits: vec![1, 3], pre: vec![Op::Fund(EVE, true, 0)], ..base() },
                dd(9, 12),
            ));
            entries.push(Entry::new("funding", H { denom: Denom::Cw20, total: 9, dur: 3, start: 1, waits: vec![1], donate: vec![4], amts: vec![Amt::Open], ..base() }, dd(8, 10)));
            entries.push(Entry::new("wide", H { total: 1_000_000_000_000_000_000_000_003, dur: 1_000_000_007, waits: vec![1, 333_333_333, 900_000_000], ..base() }, dd(7, 9)));
            entries.push(Entry::new("stake", H { ..st() }, dd(6, 7)));
            entries.push(Entry::new("slash", bonded(), dd(5, 6)));
            entries.push(Entry::new("slash-paid", paid(), dd(5, 6)));
            entries.push(Entry::new("creation", Creation { full: th }, 1));
            assumptions = vec![
                "the chain's rule for valid addresses is that of the test chain",
                "cancelling an agreement nobody funded but which has begun to vest is left open",
                "totals times durations stay below 2^128 (beyond, the schedule library overflows)",
            ];
        }
        "F02" => {
            rule = "explicit-state BFS over the real vesting contract on a stand-in staking and distribution module with unbonding time, redelegation limits, reward payout and slashing: every sequence of delegations, redelegations and undelegations (part, all, more than liquid, unknown validator) by recipient, owner and outsiders, slashes of bonded or unbonding tokens with prompt or late registration, refused registrations, cancellation, withdrawal address changes, reward accrual and collection, donations, distributions and block steps up to the depth; balances, status, and total, per-validator and validator-count records are compared with the true position for every past, present and future point around each change, and from every distinct state everything is undelegated and paid out";
            entries.push(Entry::new("stake", H { ..st() }, dd(5, 7)));
            entries.push(Entry::new("redelegate", H { redelegate: true, stake: vec![30], cancel: false, amts: vec![Amt::Open], ..st() }, dd(5, 6)));
            entries.push(Entry::new("donation", H { donate: vec![5], ..st() }, dd(5, 7)));
            entries.push(Entry::new("rewards", H { rewards: true, owners: true, waits: vec![10], amts: vec![Amt::Open], pre: vec![Op::Delegate(REC, 0, 40)], ..st() }, dd(5, 6)));
            entries.push(Entry::new("slash-bonded", bonded(), dd(5, 7)));
            entries.push(Entry::new("slash-paid", paid(), dd(5, 7)));
            let pre = vec![Op::DelegateAll(0, 0), Op::Wait(5), Op::Undelegate(REC, 0, Some(60))];
            entries.push(Entry::new("slash-unbonding", H { slash: vec![(Claim::One(7), true), (Claim::All, true)], pre: pre.clone(), ..st() }, dd(5, 7)));
            entries.push(Entry::new(
                "slash-both",
                H {
                    slash: vec![(Claim::One(7), true), (Claim::One(9), false)],
                    redelegate: true,
                    amts: vec![Amt::Open],
                    pre: vec![Op::Delegate(REC, 0, 60), Op::Delegate(REC, 1, 30), Op::Wait(5), Op::Undelegate(REC, 0, Some(40))],
                    ..st()
                },
                dd(4, 6),
            ));
            entries.push(Entry::new(
                "late-unbonding",
                H { slash: vec![(Claim::One(7), true)], late_unbonding: true, pre: vec![Op::Delegate(REC, 0, 90), Op::Wait(5), Op::Undelegate(REC, 0, Some(60))], ..st() },
                dd(4, 5),
            ));
            entries.push(Entry::new("multi-unbonding", H { slash: vec![(Claim::One(7), true)], multi_unbonding: true, pre, ..st() }, dd(4, 5)));
            assumptions = vec![
                "the contract's unbonding duration equals the chain's",
                "slashes are registered with the true validator, time and amount; between an unregistered unbonding slash and its registration money operations are left open",
                "unbonding slashes registered late or with several unbondings pending are explored in two entries of their own (known findings)",
            ];
        }
        _ => return None,
    }
    Some(PropertyPlan { entries, rule, assumptions })
}
fn main() {
    run_main(plan)
}
