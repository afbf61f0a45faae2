//! F07: time-indexed maps, claim lists, subscriber lists and paginated listings against plain tables.
use cosmwasm_std::testing::{MockApi, MockQuerier};
use cosmwasm_std::{to_json_binary, Addr, Binary, BlockInfo, Deps, Order, QuerierWrapper, SubMsg, Timestamp, Uint128};
use cw_hooks::{failed_hook_id, Hooks};
use cw_stake_tracker::StakeTracker;
use cw_storage_plus::{Map, SnapshotMap, Strategy};
use cw_utils::{Duration, Expiration};
use cw_wormhole::Wormhole;
use cw721_controllers::NftClaims;
use mc::engine::{Harness, VResult, Violation};
use mc::main_util::{run_main, Entry, PropertyPlan};
use mc::mocks::*;
use mc::sim::{coin, coins, guarded, panic_text, Sim};
use mc::until::{Now, Until};
use mc::{ensure, same};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;

const F7: &[&str] = &["F07"];

/// Call library code the way a contract would: an error or a panic aborts and leaves no trace.
fn tx<T, E: Debug>(sim: &mut Sim, f: impl FnOnce(&mut dyn cosmwasm_std::Storage) -> Result<T, E>) -> Result<T, String> {
    let s = sim.snapshot();
    let st = sim.app.storage_mut();
    let r = match guarded(|| f(st)) {
        Ok(Ok(x)) => Ok(x),
        Ok(Err(e)) => Err(format!("{:?}", e)),
        Err(p) => Err(panic_text(p)),
    };
    if r.is_err() {
        sim.restore(&s);
    }
    r
}
fn bad<E: Debug>(key: &'static str) -> impl Fn(E) -> Violation {
    move |e| Violation::new(F7, key, format!("unexpected error {:?}", e))
}

// ------------------------------------------------------------------------------------------------
// time-indexed map
// ------------------------------------------------------------------------------------------------
const WKEYS: [&str; 3] = ["", "a", "aa"];
#[derive(Clone, Debug)]
struct Worm {
    times: u64,
    keys: u8,
    /// values already recorded for the first key, at the times 2, 4, 6, …
    pre: u64,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum WOp {
    Inc(u8, u64, i64),
    Dec(u8, u64, i64),
    /// v -> 2v + time
    Upd(u8, u64),
    /// only the value in force from this time to the next recorded one
    Poke(u8, u64),
}
/// (key, time) -> value recorded there
type Table = BTreeMap<(u8, u64), i64>;
#[derive(Clone, Hash)]
struct WM {
    t: Table,
}
const MAP: Wormhole<'static, String, i64> = Wormhole::new("w");
/// A second map whose namespace extends the first one's.
const MAP2: Wormhole<'static, String, i64> = Wormhole::new("wa");
fn at(t: &Table, k: u8, time: u64) -> Option<i64> {
    t.range((k, 0)..=(k, time)).next_back().map(|x| *x.1)
}
impl Worm {
    fn change(m: &mut WM, k: u8, t: u64, carry: bool, f: impl Fn(i64, u64) -> i64) -> i64 {
        let old = at(&m.t, k, t).unwrap_or(0);
        let later: Vec<((u8, u64), i64)> = m.t.range((k, t + 1)..=(k, u64::MAX)).map(|(a, b)| (*a, *b)).collect();
        m.t.insert((k, t), f(old, t));
        if carry {
            for (at, v) in later {
                m.t.insert(at, f(v, at.1));
            }
        }
        f(old, t)
    }
}
impl Harness for Worm {
    type World = Sim;
    type Model = WM;
    type Op = WOp;
    fn setup(&self) -> (Sim, WM) {
        let mut sim = Sim::new();
        // an unrelated map must neither disturb nor be disturbed
        for k in WKEYS {
            MAP2.increment(sim.app.storage_mut(), k.to_string(), 2, 77).unwrap();
        }
        let mut m = WM { t: BTreeMap::new() };
        for i in 1..=self.pre {
            MAP.increment(sim.app.storage_mut(), WKEYS[0].to_string(), 2 * i, 1).unwrap();
            Worm::change(&mut m, 0, 2 * i, true, |v, _| v + 1);
        }
        sim.seal();
        (sim, m)
    }
    fn sim<'a>(&self, w: &'a mut Sim) -> &'a mut Sim {
        w
    }
    fn ops(&self, _m: &WM) -> Vec<WOp> {
        let mut v = vec![];
        for k in 0..self.keys {
            for t in 0..self.times {
                // an unbroken range of times, the ends of the encoding included
                let t = if self.pre > 0 { t * 2 * self.pre / (self.times - 1) } else { grid(t) };
                v.push(WOp::Inc(k, t, 1));
                v.push(WOp::Inc(k, t, 3));
                v.push(WOp::Dec(k, t, 1));
                v.push(WOp::Upd(k, t));
                v.push(WOp::Poke(k, t));
            }
        }
        v
    }
    fn step(&self, w: &mut Sim, m: &mut WM, op: &WOp) -> VResult<String> {
        let (r, want, name) = match op {
            WOp::Inc(k, t, x) => {
                let want = Self::change(m, *k, *t, true, |v, _| v + x);
                (tx(w, |s| MAP.increment(s, WKEYS[*k as usize].into(), *t, *x)), want, "increment")
            }
            WOp::Dec(k, t, x) => {
                let want = Self::change(m, *k, *t, true, |v, _| v - x);
                (tx(w, |s| MAP.decrement(s, WKEYS[*k as usize].into(), *t, *x)), want, "decrement")
            }
            WOp::Upd(k, t) => {
                let f = |v: i64, t: u64| 2 * v + (t % 7) as i64;
                let want = Self::change(m, *k, *t, true, f);
                (tx(w, |s| MAP.update(s, WKEYS[*k as usize].into(), *t, &mut |v, t| f(v, t))), want, "update")
            }
            WOp::Poke(k, t) => {
                let f = |v: i64, t: u64| 3 * v - 1 + (t % 5) as i64;
                let want = Self::change(m, *k, *t, false, f);
                (tx(w, |s| MAP.dangerously_update(s, WKEYS[*k as usize].into(), *t, &mut |v, t| f(v, t))), want, "poke")
            }
        };
        let got = r.map_err(bad("map-error"))?;
        same!(got, want, F7, "map-result", "value returned by {:?}", op);
        Ok(name.into())
    }
    fn invariant(&self, w: &mut Sim, m: &WM) -> VResult {
        let st = w.app.storage();
        for k in 0..WKEYS.len() as u8 {
            let points = if self.pre > 0 { 2 * self.pre + 1 } else { self.times };
            for i in 0..points + 1 {
                let i = if self.pre > 0 { i } else { grid(i) };
                for t in [i, i.saturating_add(1)] {
                    let key = WKEYS[k as usize].to_string();
                    same!(MAP.load(st, key.clone(), t).map_err(bad("map-error"))?, at(&m.t, k, t), F7, "map-load", "value of {:?} at {}", key, t);
                    let other = MAP2.load(st, key.clone(), t).map_err(bad("map-error"))?;
                    same!(other, if t >= 2 { Some(77) } else { None }, F7, "map-bleed", "value of {:?} at {} in an unrelated map", key, t);
                }
            }
        }
        Ok(())
    }
}
fn grid(i: u64) -> u64 {
    [0, 1, 3, 255, 256, 257, 1 << 40, u64::MAX][i as usize % 8]
}

// ------------------------------------------------------------------------------------------------
// stake tracker
// ------------------------------------------------------------------------------------------------
#[derive(Clone, Debug)]
struct Track {
    /// ticks simulated
    ticks: u64,
    slashes: bool,
    unbonding_slash: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum TOp {
    Delegate(u8, u64),
    Redelegate(u8, u8, u64),
    Undelegate(u8, u64),
    /// a slash of bonded tokens that happened at this tick, registered now
    Slash(u8, u64, u64),
    /// a slash of unbonding tokens, registered at once
    UnbondingSlash(u8, u64),
    Wait,
}
const TICKS: usize = 8;
const UNBOND: u64 = 2;
#[derive(Clone, Hash)]
struct TM {
    now: u64,
    /// tokens with the validator at each tick, bonded
    bonded: [[u64; TICKS]; 2],
    /// and unbonding
    leaving: [[u64; TICKS]; 2],
    /// unbondings still running: (validator, done at, amount)
    open: Vec<(u8, u64, u64)>,
}
const TRACK: StakeTracker<'static> = StakeTracker::new("s", "v", "c");
const VALS: [&str; 2] = ["val", "val2"];
fn sec(t: u64) -> Timestamp {
    Timestamp::from_seconds(100 + t)
}
impl Harness for Track {
    type World = Sim;
    type Model = TM;
    type Op = TOp;
    fn setup(&self) -> (Sim, TM) {
        let mut sim = Sim::new();
        sim.seal();
        (sim, TM { now: 1, bonded: [[0; TICKS]; 2], leaving: [[0; TICKS]; 2], open: vec![] })
    }
    fn sim<'a>(&self, w: &'a mut Sim) -> &'a mut Sim {
        w
    }
    fn ops(&self, m: &TM) -> Vec<TOp> {
        let mut v = vec![];
        let n = m.now as usize;
        for val in 0..2u8 {
            let b = m.bonded[val as usize];
            if b[n] < 4 {
                v.push(TOp::Delegate(val, 1));
                v.push(TOp::Delegate(val, 2));
            }
            for a in 1..=2 {
                if b[n] >= a {
                    v.push(TOp::Redelegate(val, 1 - val, a));
                    v.push(TOp::Undelegate(val, a));
                }
            }
            if self.slashes {
                // it did occur: the tokens were bonded there at that time and are gone since
                for t in 1..=m.now {
                    for a in 1..=2 {
                        if (t as usize..=n).all(|i| b[i] >= a) {
                            v.push(TOp::Slash(val, t, a));
                        }
                    }
                }
            }
            if self.unbonding_slash && m.open.len() == 1 && m.open[0].0 == val {
                for a in 1..=m.open[0].2 {
                    v.push(TOp::UnbondingSlash(val, a));
                }
            }
        }
        if m.now < self.ticks {
            v.push(TOp::Wait);
        }
        v
    }
    fn step(&self, w: &mut Sim, m: &mut TM, op: &TOp) -> VResult<String> {
        let now = m.now;
        let add = |m: &mut TM, v: u8, a: i64, from: u64| {
            for t in from as usize..TICKS {
                let x = &mut m.bonded[v as usize][t];
                *x = (*x as i64 + a) as u64;
            }
        };
        let u = |a: u64| Uint128::from(a);
        let val = |v: u8| VALS[v as usize].to_string();
        let (r, name) = match op {
            TOp::Delegate(v, a) => {
                add(m, *v, *a as i64, now);
                (tx(w, |s| TRACK.on_delegate(s, sec(now), val(*v), u(*a))), "delegate")
            }
            TOp::Redelegate(f, t, a) => {
                add(m, *f, -(*a as i64), now);
                add(m, *t, *a as i64, now);
                (tx(w, |s| TRACK.on_redelegate(s, sec(now), val(*f), val(*t), u(*a))), "redelegate")
            }
            TOp::Undelegate(v, a) => {
                add(m, *v, -(*a as i64), now);
                for t in now..now + UNBOND {
                    m.leaving[*v as usize][t as usize] += a;
                }
                m.open.push((*v, now + UNBOND, *a));
                m.open.sort();
                (tx(w, |s| TRACK.on_undelegate(s, sec(now), val(*v), u(*a), UNBOND)), "undelegate")
            }
            TOp::Slash(v, t, a) => {
                add(m, *v, -(*a as i64), *t);
                (tx(w, |s| TRACK.on_bonded_slash(s, sec(*t), val(*v), u(*a))), if *t == now { "slash" } else { "late slash" })
            }
            TOp::UnbondingSlash(v, a) => {
                for t in now..m.open[0].1 {
                    m.leaving[*v as usize][t as usize] -= a;
                }
                m.open[0].2 -= a;
                (tx(w, |s| TRACK.on_unbonding_slash(s, sec(now), val(*v), u(*a))), "unbonding slash")
            }
            TOp::Wait => {
                m.now += 1;
                m.open.retain(|x| x.1 > m.now);
                return Ok("wait".into());
            }
        };
        r.map_err(bad("tracker-error"))?;
        Ok(name.into())
    }
    fn invariant(&self, w: &mut Sim, m: &TM) -> VResult {
        let st = w.app.storage();
        for t in 0..TICKS as u64 {
            let i = t as usize;
            let mut tot = 0;
            let mut card = 0;
            for v in 0..2 {
                let x = m.bonded[v][i] + m.leaving[v][i];
                tot += x;
                card += u64::from(x > 0);
                let got = TRACK.validator_staked(st, sec(t), VALS[v].to_string()).map_err(bad("tracker-error"))?;
                same!(got.u128(), x as u128, F7, "tracker-validator", "tokens with {} at tick {}", VALS[v], t);
            }
            same!(TRACK.total_staked(st, sec(t)).map_err(bad("tracker-error"))?.u128(), tot as u128, F7, "tracker-total", "tokens in total at tick {}", t);
            same!(TRACK.validator_cardinality(st, sec(t)).map_err(bad("tracker-error"))?, card, F7, "tracker-cardinality", "validators at tick {}", t);
        }
        Ok(())
    }
}

// ------------------------------------------------------------------------------------------------
// NFT claim list
// ------------------------------------------------------------------------------------------------
#[derive(Clone, Debug)]
struct NftC {
    /// ids that each of the three names stands for
    each: usize,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum NOp {
    /// holder, ids (bits), matures: 0 next block, 1 in two seconds, 2 never, 3 already
    Create(u8, u8, u8),
    Claim(u8),
    Wait(u64, u64),
}
#[derive(Clone, Hash)]
struct NM {
    now: Now,
    q: BTreeMap<u8, Vec<(String, Until)>>,
}
const CLAIMS: NftClaims<'static> = NftClaims::new("n");
const HOLD: [&str; 2] = ["ann", "anna"];
const NIDS: [&str; 3] = ["1", "12", ""];
impl Harness for NftC {
    type World = Sim;
    type Model = NM;
    type Op = NOp;
    fn setup(&self) -> (Sim, NM) {
        let mut sim = Sim::new();
        sim.seal();
        let now = (sim.height(), sim.time());
        (sim, NM { now, q: BTreeMap::new() })
    }
    fn sim<'a>(&self, w: &'a mut Sim) -> &'a mut Sim {
        w
    }
    fn ops(&self, m: &NM) -> Vec<NOp> {
        let mut v = vec![];
        for h in 0..2 {
            for bits in 0..8u8 {
                // documented precondition: an id waiting for somebody is not queued again
                let clash = m.q.values().flatten().any(|(id, _)| (0..3).any(|i| bits >> i & 1 == 1 && NIDS[i] == id));
                if !clash && bits != 0 {
                    for e in 0..4 {
                        v.push(NOp::Create(h, bits, e));
                    }
                }
            }
            v.push(NOp::Claim(h));
        }
        if m.now.0 < 1004 {
            v.push(NOp::Wait(1, 1));
            v.push(NOp::Wait(1, 0));
        }
        v
    }
    fn step(&self, w: &mut Sim, m: &mut NM, op: &NOp) -> VResult<String> {
        match op {
            NOp::Create(h, bits, e) => {
                let exp = match e {
                    0 => Expiration::AtHeight(m.now.0 + 1),
                    1 => Expiration::AtTime(Timestamp::from_seconds(m.now.1 + 2)),
                    2 => Expiration::Never {},
                    _ => Expiration::AtHeight(m.now.0),
                };
                let ids: Vec<String> = (0..3)
                    .filter(|i| bits >> i & 1 == 1)
                    .flat_map(|i| (0..self.each).map(move |j| if j == 0 { NIDS[i].to_string() } else { format!("{}.{}", NIDS[i], j) }))
                    .collect();
                let q = m.q.entry(*h).or_default();
                for i in &ids {
                    q.push((i.clone(), Until::of(&exp)));
                }
                tx(w, |s| CLAIMS.create_nft_claims(s, &Addr::unchecked(HOLD[*h as usize]), ids, exp)).map_err(bad("nft-claims-error"))?;
                Ok("create".into())
            }
            NOp::Claim(h) => {
                let block: BlockInfo = w.app.block_info();
                let got = tx(w, |s| CLAIMS.claim_nfts(s, &Addr::unchecked(HOLD[*h as usize]), &block)).map_err(bad("nft-claims-error"))?;
                let now = m.now;
                let q = m.q.entry(*h).or_default();
                let ripe: Vec<String> = q.iter().filter(|c| c.1.expired(now)).map(|c| c.0.clone()).collect();
                q.retain(|c| !c.1.expired(now));
                if q.is_empty() {
                    m.q.remove(h);
                }
                let sorted = |mut v: Vec<String>| {
                    v.sort();
                    v
                };
                let n = ripe.len();
                same!(sorted(got), sorted(ripe), F7, "nft-claims-release", "released to {}", HOLD[*h as usize]);
                Ok(format!("claim {}", n))
            }
            NOp::Wait(b, s) => {
                w.advance(*b, *s);
                m.now = (w.height(), w.time());
                Ok("wait".into())
            }
        }
    }
    fn invariant(&self, w: &mut Sim, m: &NM) -> VResult {
        let (api, q) = (MockApi::default(), MockQuerier::default());
        for h in 0..2u8 {
            let deps: Deps = Deps { storage: w.app.storage(), api: &api, querier: QuerierWrapper::new(&q) };
            let r = CLAIMS.query_claims(deps, &Addr::unchecked(HOLD[h as usize])).map_err(bad("nft-claims-error"))?;
            let mut got: Vec<(String, String)> = r.nft_claims.into_iter().map(|c| (c.token_id, format!("{:?}", c.release_at))).collect();
            got.sort();
            let mut want: Vec<(String, String)> =
                m.q.get(&h).cloned().unwrap_or_default().into_iter().map(|(i, u)| (i, format!("{:?}", u.exp()))).collect();
            want.sort();
            same!(got, want, F7, "nft-claims-listing", "claims of {}", HOLD[h as usize]);
        }
        Ok(())
    }
}

// ------------------------------------------------------------------------------------------------
// subscriber list
// ------------------------------------------------------------------------------------------------
#[derive(Clone, Debug)]
struct HookL {
    /// subscribers there are
    n: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum HOp {
    Add(u8),
    Remove(u8),
    Index(u64),
    /// the subscriber, dispatched from this position, failed
    Failed(u64, u8),
}
#[derive(Clone, Hash)]
struct HM {
    l: Vec<u8>,
}
const HOOKS: Hooks<'static> = Hooks::new("h");
fn sub(i: u8) -> String {
    ["sub", "sub1", "sub10", "other"].get(i as usize).map(|x| x.to_string()).unwrap_or(format!("s{}", i))
}
impl Harness for HookL {
    type World = Sim;
    type Model = HM;
    type Op = HOp;
    fn setup(&self) -> (Sim, HM) {
        let mut sim = Sim::new();
        let l: Vec<u8> = if self.n > 4 { (0..self.n).rev().collect() } else { vec![] };
        for i in &l {
            HOOKS.add_hook(sim.app.storage_mut(), Addr::unchecked(sub(*i))).unwrap();
        }
        sim.seal();
        (sim, HM { l })
    }
    fn sim<'a>(&self, w: &'a mut Sim) -> &'a mut Sim {
        w
    }
    fn ops(&self, _m: &HM) -> Vec<HOp> {
        let mut v = vec![];
        let few: Vec<u8> = if self.n > 4 { vec![0, 3, 10, self.n / 2, self.n - 1] } else { (0..self.n).collect() };
        for i in few.clone() {
            v.push(HOp::Add(i));
            v.push(HOp::Remove(i));
            v.push(HOp::Index(i as u64));
            for at in few.iter().map(|x| *x as u64) {
                v.push(HOp::Failed(at, i));
            }
        }
        v
    }
    fn step(&self, w: &mut Sim, m: &mut HM, op: &HOp) -> VResult<String> {
        let a = |i: u8| Addr::unchecked(sub(i));
        let (r, want, name) = match op {
            HOp::Add(i) => {
                let want = !m.l.contains(i);
                if want {
                    m.l.push(*i);
                }
                (tx(w, |s| HOOKS.add_hook(s, a(*i))), want, "add")
            }
            HOp::Remove(i) => {
                let want = m.l.contains(i);
                m.l.retain(|x| x != i);
                (tx(w, |s| HOOKS.remove_hook(s, a(*i))), want, "remove")
            }
            HOp::Index(i) => {
                let want = (*i as usize) < m.l.len();
                let r = tx(w, |s| HOOKS.remove_hook_by_index(s, *i));
                if want {
                    let who = m.l.remove(*i as usize);
                    if let Ok(x) = &r {
                        same!(*x, a(who), F7, "hook-index", "subscriber removed at {}", i);
                    }
                }
                (r.map(|_| ()), want, "index")
            }
            HOp::Failed(at, i) => {
                let r = tx(w, |s| HOOKS.remove_failed_hook(s, failed_hook_id(*at, &a(*i))));
                let was = m.l.contains(i);
                m.l.retain(|x| x != i);
                if let Ok(x) = &r {
                    same!(*x, was.then(|| a(*i)), F7, "hook-failed", "subscriber dropped after {} failed", sub(*i));
                }
                (r.map(|_| ()), true, if was { "failed" } else { "failed-gone" })
            }
        };
        same!(r.is_ok(), want, F7, "hook-verdict", "{:?} ({:?})", op, r);
        Ok(format!("{}:{}", name, want))
    }
    fn invariant(&self, w: &mut Sim, m: &HM) -> VResult {
        let (api, q) = (MockApi::default(), MockQuerier::default());
        let st = w.app.storage();
        let want: Vec<String> = m.l.iter().map(|i| sub(*i)).collect();
        let deps: Deps = Deps { storage: st, api: &api, querier: QuerierWrapper::new(&q) };
        same!(HOOKS.query_hooks(deps).map_err(bad("hook-error"))?.hooks, want, F7, "hook-list", "subscribers");
        same!(HOOKS.hook_count(st).map_err(bad("hook-error"))? as usize, want.len(), F7, "hook-count", "number of subscribers");
        let told: Vec<String> = HOOKS
            .prepare_hooks(st, |a| Ok(SubMsg::new(cosmwasm_std::BankMsg::Send { to_address: a.to_string(), amount: vec![] })))
            .map_err(bad("hook-error"))?
            .into_iter()
            .map(|m| match m.msg {
                cosmwasm_std::CosmosMsg::Bank(cosmwasm_std::BankMsg::Send { to_address, .. }) => to_address,
                _ => String::new(),
            })
            .collect();
        same!(told, want, F7, "hook-dispatch", "subscribers told");
        Ok(())
    }
}

// ------------------------------------------------------------------------------------------------
// pagination helpers
// ------------------------------------------------------------------------------------------------
#[derive(Clone, Debug)]
struct Pages;
#[derive(Clone, Debug, Serialize, Deserialize)]
enum GOp {
    Put(u8),
    Drop(u8),
}
#[derive(Clone, Hash)]
struct GM {
    put: BTreeMap<u8, u8>,
}
const GK: [&str; 6] = ["", "a", "aa", "ab", "b", "\u{7f}"];
const GN: [u64; 6] = [0, 1, 255, 256, 1 << 33, u64::MAX];
const PM1: Map<String, u8> = Map::new("p");
const PM2: Map<u64, u8> = Map::new("q");
const PM3: SnapshotMap<String, u8> = SnapshotMap::new("r", "r__c", "r__l", Strategy::EveryBlock);
impl Harness for Pages {
    type World = Sim;
    type Model = GM;
    type Op = GOp;
    fn setup(&self) -> (Sim, GM) {
        let mut sim = Sim::new();
        sim.seal();
        (sim, GM { put: BTreeMap::new() })
    }
    fn sim<'a>(&self, w: &'a mut Sim) -> &'a mut Sim {
        w
    }
    fn ops(&self, m: &GM) -> Vec<GOp> {
        (0..GK.len() as u8).map(|i| if m.put.contains_key(&i) { GOp::Drop(i) } else { GOp::Put(i) }).collect()
    }
    fn step(&self, w: &mut Sim, m: &mut GM, op: &GOp) -> VResult<String> {
        let h = w.height();
        let st = w.app.storage_mut();
        match op {
            GOp::Put(i) => {
                let k = *i as usize;
                let v = i * 3;
                PM1.save(st, GK[k].into(), &v).unwrap();
                PM2.save(st, GN[k], &v).unwrap();
                PM3.save(st, GK[k].into(), &v, h).unwrap();
                m.put.insert(*i, v);
            }
            GOp::Drop(i) => {
                let k = *i as usize;
                PM1.remove(st, GK[k].into());
                PM2.remove(st, GN[k]);
                PM3.remove(st, GK[k].into(), h).unwrap();
                m.put.remove(i);
            }
        }
        Ok("change".into())
    }
    fn invariant(&self, w: &mut Sim, m: &GM) -> VResult {
        use cw_paginate_storage::*;
        let (api, q) = (MockApi::default(), MockQuerier::default());
        let d = || Deps { storage: w.app.storage(), api: &api, querier: QuerierWrapper::new(&q) };
        let e = bad::<cosmwasm_std::StdError>("page-error");
        for desc in [false, true] {
            let ord = || if desc { Order::Descending } else { Order::Ascending };
            for limit in [None, Some(0u32), Some(1), Some(2), Some(3), Some(6), Some(7), Some(u32::MAX)] {
                for cur in [None].into_iter().chain((0..GK.len()).map(Some)) {
                    let mut left: Vec<(u8, u8)> = m.put.iter().map(|(a, b)| (*a, *b)).collect();
                    if desc {
                        left.reverse();
                    }
                    if let Some(c) = cur {
                        left.retain(|(k, _)| if desc { (*k as usize) < c } else { (*k as usize) > c });
                    }
                    left.truncate(limit.map(|l| l as usize).unwrap_or(usize::MAX));
                    let ctx = format!("after {:?}, limit {:?}, descending {}", cur, limit, desc);
                    let s1: Vec<(String, u8)> = left.iter().map(|(k, v)| (GK[*k as usize].to_string(), *v)).collect();
                    let s2: Vec<(u64, u8)> = left.iter().map(|(k, v)| (GN[*k as usize], *v)).collect();
                    let keys: Vec<String> = s1.iter().map(|x| x.0.clone()).collect();
                    let vals: Vec<u8> = s1.iter().map(|x| x.1).collect();
                    let c1 = cur.map(|c| GK[c].to_string());
                    let c2 = cur.map(|c| GN[c]);
                    same!(paginate_map(d(), &PM1, c1.clone(), limit, ord()).map_err(&e)?, s1, F7, "page-map", "entries {}", ctx);
                    same!(paginate_map(d(), &PM2, c2, limit, ord()).map_err(&e)?, s2, F7, "page-map", "numbered entries {}", ctx);
                    same!(paginate_map_keys(d(), &PM1, c1.clone(), limit, ord()).map_err(&e)?, keys, F7, "page-keys", "keys {}", ctx);
                    same!(paginate_map_values(d(), &PM1, c1.clone(), limit, ord()).map_err(&e)?, vals, F7, "page-values", "values {}", ctx);
                    same!(paginate_snapshot_map(d(), &PM3, c1.clone(), limit, ord()).map_err(&e)?, s1, F7, "page-snapshot", "entries of the snapshot map {}", ctx);
                    same!(paginate_snapshot_map_keys(d(), &PM3, c1, limit, ord()).map_err(&e)?, keys, F7, "page-snapshot-keys", "keys of the snapshot map {}", ctx);
                }
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------------------------------------
// claims as the contracts use them
// ------------------------------------------------------------------------------------------------
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum CK {
    Cw20,
    Token,
    Cw721,
    Onft,
}
#[derive(Clone, Debug)]
struct Claims {
    kind: CK,
    time: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum COp {
    /// amount, or ids (bits)
    Unstake(u8, u8),
    Claim(u8),
    Wait(u64, u64),
}
#[derive(Clone, Hash)]
struct CM {
    now: Now,
    staked: [u8; 2],
    q: [Vec<(u8, Until)>; 2],
    out: [u8; 2],
}
struct CW {
    sim: Sim,
    place: String,
    token: String,
}
const ST: [&str; 2] = ["ann", "anna"];
const COLL: &str = "onftcoll";
fn nid(p: u8, i: u8) -> String {
    format!("{}{}", ["x", "xx"][p as usize], i)
}
fn cw20_init(sim: &mut Sim, who: &[&str], each: u128) -> Addr {
    let c = sim.store(cw20_code());
    let ib: Vec<Value> = who.iter().map(|p| json!({"address": p, "amount": each.to_string()})).collect();
    sim.init(c, "creator", &json!({"name": "token", "symbol": "TOK", "decimals": 6, "initial_balances": ib, "mint": null, "marketing": null}), &[], "t").unwrap()
}
fn nft_init(sim: &mut Sim) -> Addr {
    let c = sim.store(cw721_code());
    sim.init(c, "whale", &json!({"name": "n", "symbol": "N", "minter": "whale"}), &[], "n").unwrap()
}
fn bin(v: &Value) -> Binary {
    to_json_binary(v).unwrap()
}
/// A staking contract of the kind, and the token or collection staked in it.
fn staking(sim: &mut Sim, kind: CK, who: &[&str], each: u128, dur: Option<Duration>) -> (String, String) {
    match kind {
        CK::Cw20 => {
            let t = cw20_init(sim, who, each);
            let c = sim.store(stake_code());
            let p = sim.init(c, "dao", &json!({"owner": "dao", "token_address": t, "unstaking_duration": dur}), &[], "s").unwrap();
            (p.to_string(), t.to_string())
        }
        CK::Token => {
            for w in who {
                sim.mint(w, each, "ugov");
            }
            let c = sim.store(vtoken_code());
            let p = sim
                .init(c, "dao", &json!({"token_info": {"existing": {"denom": "ugov"}}, "unstaking_duration": dur, "active_threshold": null}), &[], "v")
                .unwrap();
            (p.to_string(), "ugov".into())
        }
        CK::Cw721 => {
            let n = nft_init(sim);
            let c = sim.store(vcw721_code());
            let p = sim
                .init(c, "dao", &json!({"nft_contract": {"existing": {"address": n}}, "unstaking_duration": dur, "active_threshold": null}), &[], "v")
                .unwrap();
            (p.to_string(), n.to_string())
        }
        CK::Onft => {
            sim.onft_mint(COLL, "first", "whale");
            let c = sim.store(vonft_code());
            let p = sim
                .init(c, "dao", &json!({"onft_collection": {"existing": {"id": COLL}}, "unstaking_duration": dur, "active_threshold": null}), &[], "v")
                .unwrap();
            (p.to_string(), COLL.into())
        }
    }
}
fn stake_nft(sim: &mut Sim, kind: CK, place: &str, token: &str, who: &str, id: &str) {
    if kind == CK::Cw721 {
        sim.exec("whale", token, &json!({"mint": {"token_id": id, "owner": who, "extension": {}}}), &[]).unwrap();
        sim.exec(who, token, &json!({"send_nft": {"contract": place, "token_id": id, "msg": bin(&json!({}))}}), &[]).unwrap();
    } else {
        sim.onft_mint(token, id, who);
        sim.exec(who, place, &json!({"prepare_stake": {"token_ids": [id]}}), &[]).unwrap();
        sim.onft_transfer(token, id, who, place).unwrap();
        sim.exec(who, place, &json!({"confirm_stake": {"token_ids": [id]}}), &[]).unwrap();
    }
}
fn stake_coins(sim: &mut Sim, kind: CK, place: &str, token: &str, who: &str, amount: u128) {
    if kind == CK::Cw20 {
        sim.exec(who, token, &json!({"send": {"contract": place, "amount": amount.to_string(), "msg": bin(&json!({"stake": {}}))}}), &[]).unwrap();
    } else {
        sim.exec(who, place, &json!({"stake": {}}), &coins(amount, token)).unwrap();
    }
}
impl Claims {
    fn nft(&self) -> bool {
        matches!(self.kind, CK::Cw721 | CK::Onft)
    }
    fn count(&self, x: u8) -> u8 {
        if self.nft() {
            x.count_ones() as u8
        } else {
            x
        }
    }
    fn held(&self, w: &CW, p: u8) -> Vec<u8> {
        (0..4)
            .filter(|i| match self.kind {
                CK::Onft => w.sim.onft_owner(&w.token, &nid(p, *i)).as_deref() == Some(ST[p as usize]),
                _ => w.sim.query::<_, Value>(&w.token, &json!({"owner_of": {"token_id": nid(p, *i)}})).unwrap()["owner"] == json!(ST[p as usize]),
            })
            .collect()
    }
}
impl Harness for Claims {
    type World = CW;
    type Model = CM;
    type Op = COp;
    fn setup(&self) -> (CW, CM) {
        let mut sim = Sim::new();
        let dur = if self.time { Duration::Time(10) } else { Duration::Height(2) };
        let (place, token) = staking(&mut sim, self.kind, &ST, 15, Some(dur));
        for p in 0..2 {
            if self.nft() {
                for i in 0..4 {
                    stake_nft(&mut sim, self.kind, &place, &token, ST[p as usize], &nid(p, i));
                }
            } else {
                stake_coins(&mut sim, self.kind, &place, &token, ST[p as usize], 15);
            }
        }
        sim.seal();
        let now = (sim.height(), sim.time());
        (CW { sim, place, token }, CM { now, staked: [15; 2], q: [vec![], vec![]], out: [0; 2] })
    }
    fn sim<'a>(&self, w: &'a mut CW) -> &'a mut Sim {
        &mut w.sim
    }
    fn ops(&self, m: &CM) -> Vec<COp> {
        let mut v = vec![];
        for p in 0..2u8 {
            for x in if self.nft() { vec![1, 2, 6, 8] } else { vec![1, 2, 5] } {
                let ok = if self.nft() { m.staked[p as usize] & x == x } else { m.staked[p as usize] >= x };
                if ok {
                    v.push(COp::Unstake(p, x));
                }
            }
            v.push(COp::Claim(p));
        }
        if m.now.0 < 1006 {
            v.push(COp::Wait(1, 5));
            v.push(COp::Wait(1, 1));
        }
        v
    }
    fn step(&self, w: &mut CW, m: &mut CM, op: &COp) -> VResult<String> {
        match op {
            COp::Unstake(p, x) => {
                let msg = if self.nft() {
                    let ids: Vec<String> = (0..4).filter(|i| x >> i & 1 == 1).map(|i| nid(*p, i)).collect();
                    json!({"unstake": {"token_ids": ids}})
                } else {
                    json!({"unstake": {"amount": x.to_string()}})
                };
                let r = w.sim.exec(ST[*p as usize], &w.place, &msg, &[]);
                ensure!(r.is_ok(), F7, "claims-unstake", "{:?} refused: {:?}", op, r);
                let dur = if self.time { Duration::Time(10) } else { Duration::Height(2) };
                let u = Until::after(&dur, m.now);
                m.staked[*p as usize] -= x;
                m.q[*p as usize].push((*x, u));
                Ok("unstake".into())
            }
            COp::Claim(p) => {
                let i = *p as usize;
                let msg = if self.nft() { json!({"claim_nfts": {}}) } else { json!({"claim": {}}) };
                let r = w.sim.exec(ST[i], &w.place, &msg, &[]);
                let now = m.now;
                let ripe: Vec<u8> = m.q[i].iter().filter(|c| c.1.expired(now)).map(|c| c.0).collect();
                m.q[i].retain(|c| !c.1.expired(now));
                m.out[i] += ripe.iter().sum::<u8>();
                if !ripe.is_empty() {
                    ensure!(r.is_ok(), F7, "claims-claim", "{:?} refused: {:?}", op, r);
                }
                Ok(format!("claim {}", ripe.len()))
            }
            COp::Wait(b, s) => {
                w.sim.advance(*b, *s);
                m.now = (w.sim.height(), w.sim.time());
                Ok("wait".into())
            }
        }
    }
    fn invariant(&self, w: &mut CW, m: &CM) -> VResult {
        for p in 0..2u8 {
            let i = p as usize;
            if self.nft() {
                same!(self.held(w, p), (0..4).filter(|k| m.out[i] >> k & 1 == 1).collect::<Vec<u8>>(), F7, "claims-paid", "NFTs back with {}", ST[i]);
            } else {
                let b = if self.kind == CK::Cw20 { w.sim.cw20(&w.token, ST[i]) } else { w.sim.bal(ST[i], &w.token) };
                same!(b, m.out[i] as u128, F7, "claims-paid", "tokens back with {}", ST[i]);
            }
            // the queue is listed as it is
            let (q, field) = if self.nft() { ("nft_claims", "nft_claims") } else { ("claims", "claims") };
            let r: Value = w.sim.query(&w.place, &json!({q: {"address": ST[i]}})).map_err(bad("claims-query"))?;
            let mut got: Vec<(String, Value)> = r[field]
                .as_array()
                .cloned()
                .unwrap_or_default()
                .into_iter()
                .map(|c| (c[if self.nft() { "token_id" } else { "amount" }].as_str().unwrap_or("").to_string(), c["release_at"].clone()))
                .collect();
            let mut want: Vec<(String, Value)> = vec![];
            for (x, u) in &m.q[i] {
                let e = serde_json::to_value(u.exp()).unwrap();
                if self.nft() {
                    want.extend((0..4).filter(|k| x >> k & 1 == 1).map(|k| (nid(p, k), e.clone())));
                } else {
                    want.push((x.to_string(), e));
                }
            }
            let key = |v: &(String, Value)| (v.0.clone(), v.1.to_string());
            got.sort_by_key(key);
            want.sort_by_key(key);
            same!(got, want, F7, "claims-listing", "claims of {}", ST[i]);
            let _ = self.count(0);
        }
        Ok(())
    }
}

// ------------------------------------------------------------------------------------------------
// listings that outgrow a page
// ------------------------------------------------------------------------------------------------
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum LK {
    Core,
    Single,
    Multiple,
    Approval,
    Cw20,
    Token,
    Cw721,
    Onft,
    Rewards,
    Fund,
    Issuer,
    Roles,
    Payroll,
}
#[derive(Clone, Debug)]
struct Lists {
    kind: LK,
    max: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum LOp {
    Add,
    Remove(u8),
}
#[derive(Clone, Hash)]
struct LM {
    n: u8,
    gone: BTreeSet<u8>,
}
struct LW {
    sim: Sim,
    a: String,
    b: String,
    extra: Vec<String>,
}
/// Entries are added in an order unrelated to the order they are listed in, with names that are
/// prefixes of one another.
fn label(i: u8) -> String {
    let k = (i as u32 * 17 + 5) % 64;
    if k % 5 == 0 {
        format!("ent{}", k / 5)
    } else {
        format!("ent{}x", k)
    }
}
/// A listing: query, cursor field, whether newest/largest first, and what it must list in all.
struct View {
    to: String,
    query: Box<dyn Fn(Value, Value) -> Value>,
    field: Option<&'static str>,
    /// cursor of an entry
    cursor: Box<dyn Fn(&Value) -> Value>,
    less: fn(&Value, &Value) -> std::cmp::Ordering,
    desc: bool,
    all: Vec<Value>,
    foreign: Vec<Value>,
    name: String,
}
fn by_str(a: &Value, b: &Value) -> std::cmp::Ordering {
    a.as_str().unwrap().as_bytes().cmp(b.as_str().unwrap().as_bytes())
}
fn by_num(a: &Value, b: &Value) -> std::cmp::Ordering {
    a.as_u64().unwrap().cmp(&b.as_u64().unwrap())
}
fn names_foreign() -> Vec<Value> {
    ["aaa", "ent", "ent1", "ent3y", "ent63xx", "zzz"].iter().map(|s| json!(s)).collect()
}
fn nums_foreign() -> Vec<Value> {
    vec![json!(0), json!(1000), json!(u64::MAX)]
}
/// What is compared of an entry: the listed fields of `want`.
fn covers(got: &Value, want: &Value) -> bool {
    match (got, want) {
        (Value::Object(g), Value::Object(w)) => w.iter().all(|(k, v)| g.get(k).map(|x| covers(x, v)).unwrap_or(v.is_null())),
        (Value::Array(g), Value::Array(w)) => g.len() == w.len() && g.iter().zip(w).all(|(a, b)| covers(a, b)),
        _ => got == want,
    }
}
fn check_view(sim: &Sim, v: &View) -> VResult {
    let mut all = v.all.clone();
    all.sort_by(|a, b| (v.less)(&(v.cursor)(a), &(v.cursor)(b)));
    if v.desc {
        all.reverse();
    }
    let mut cursors: Vec<Value> = vec![Value::Null];
    cursors.extend(all.iter().map(|e| (v.cursor)(e)));
    cursors.extend(v.foreign.iter().cloned());
    for c in &cursors {
        let left: Vec<&Value> = all
            .iter()
            .filter(|e| {
                c.is_null() || {
                    let o = (v.less)(&(v.cursor)(e), c);
                    if v.desc {
                        o.is_lt()
                    } else {
                        o.is_gt()
                    }
                }
            })
            .collect();
        for limit in [None, Some(0u32), Some(1), Some(2), Some(10), Some(11), Some(29), Some(30), Some(31), Some(50), Some(51), Some(1000)] {
            let r: Value = sim.query(&v.to, &(v.query)(c.clone(), json!(limit))).map_err(|e| Violation::new(F7, "list-error", format!("{}: {}", v.name, e)))?;
            let page = match v.field {
                Some(f) => r[f].clone(),
                None => r,
            };
            let page = page.as_array().cloned().unwrap_or_default();
            if let Some(l) = limit {
                ensure!(page.len() <= l as usize, F7, "list-limit", "{} after {} with limit {:?} gives {} entries", v.name, c, limit, page.len());
            }
            ensure!(!page.is_empty() || left.is_empty() || limit == Some(0), F7, "list-stuck", "{} after {} with limit {:?} is empty, {} entries remain", v.name, c, limit, left.len());
            // small pages are complete
            let least = left.len().min(limit.unwrap_or(10).min(10) as usize);
            ensure!(page.len() >= least, F7, "list-short", "{} after {} with limit {:?} gives {} entries of {}", v.name, c, limit, page.len(), left.len());
            for (i, e) in page.iter().enumerate() {
                ensure!(
                    i < left.len() && covers(e, left[i]),
                    F7,
                    "list-entry",
                    "{} after {} with limit {:?}: entry {} is {}, reference says {:?}",
                    v.name, c, limit, i, e, left.get(i)
                );
            }
        }
    }
    Ok(())
}
impl Lists {
    fn live(&self, m: &LM) -> Vec<u8> {
        (0..m.n).filter(|i| !m.gone.contains(i)).collect()
    }
    fn plain(to: &str, q: &'static str, field: Option<&'static str>, key: &'static str, all: Vec<Value>) -> View {
        View {
            to: to.into(),
            query: Box::new(move |c, l| json!({q: {"start_after": c, "limit": l}})),
            field,
            cursor: Box::new(move |e| if key.is_empty() { e.clone() } else { e[key].clone() }),
            less: by_str,
            desc: false,
            all,
            foreign: names_foreign(),
            name: q.into(),
        }
    }
    fn numbered(to: &str, q: &'static str, field: Option<&'static str>, key: &'static str, rev: bool, all: Vec<Value>) -> View {
        let cur = if rev { "start_before" } else { "start_after" };
        View {
            to: to.into(),
            query: Box::new(move |c, l| json!({q: {cur: c, "limit": l}})),
            field,
            cursor: Box::new(move |e| e[key].clone()),
            less: by_num,
            desc: rev,
            all,
            foreign: nums_foreign(),
            name: q.into(),
        }
    }
    fn views(&self, w: &LW, m: &LM) -> Vec<View> {
        let live = self.live(m);
        let l = |f: &dyn Fn(u8) -> Value| live.iter().map(|i| f(*i)).collect::<Vec<Value>>();
        match self.kind {
            LK::Core => {
                let desc = |mut v: View| {
                    v.desc = true;
                    v
                };
                let mut items = Self::plain(&w.a, "list_items", None, "", l(&|i| json!([label(i), format!("v{}", i)])));
                items.cursor = Box::new(|e| e[0].clone());
                let t = |from: usize| live.iter().map(|i| json!(w.extra[from + *i as usize])).collect::<Vec<Value>>();
                let mods: Vec<Value> = w.sim.query(&w.a, &json!({"proposal_modules": {}})).unwrap();
                let mut v = vec![
                    desc(items),
                    desc(Self::plain(&w.a, "cw20_token_list", None, "", t(0))),
                    desc(Self::plain(&w.a, "cw721_token_list", None, "", t(64))),
                    desc(Self::plain(&w.a, "cw20_balances", None, "addr", t(0).into_iter().map(|a| json!({"addr": a, "balance": "0"})).collect())),
                    Self::plain(&w.a, "list_sub_daos", None, "addr", l(&|i| json!({"addr": label(i), "charter": format!("c{}", i)}))),
                ];
                let active: Vec<Value> = mods.iter().filter(|x| x["status"] == json!("enabled")).cloned().collect();
                v.push(Self::plain(&w.a, "proposal_modules", None, "address", mods));
                v.push(Self::plain(&w.a, "active_proposal_modules", None, "address", active));
                v
            }
            LK::Single | LK::Multiple => {
                let props: Vec<Value> = (0..m.n).map(|i| json!({"id": i as u64 + 1, "proposal": {"title": format!("t{}", i), "proposer": "ent0"}})).collect();
                let mut out = vec![
                    Self::numbered(&w.a, "list_proposals", Some("proposals"), "id", false, props.clone()),
                    Self::numbered(&w.a, "reverse_proposals", Some("proposals"), "id", true, props),
                ];
                for id in 1..=2u64.min(m.n as u64) {
                    let votes: Vec<Value> = live
                        .iter()
                        .filter(|i| id == 1 || **i % 3 == 0)
                        .map(|i| json!({"voter": label(*i), "power": (*i as u64 + 1).to_string(), "vote": self.vote(*i)}))
                        .collect();
                    let votes = if id == 2 { votes.into_iter().filter(|_| m.n > 1).collect() } else { votes };
                    let mut v = Self::plain(&w.a, "list_votes", Some("votes"), "voter", votes);
                    v.query = Box::new(move |c, l| json!({"list_votes": {"proposal_id": id, "start_after": c, "limit": l}}));
                    v.name = format!("list_votes {}", id);
                    out.push(v);
                }
                out
            }
            LK::Approval => {
                let ext = |v: View, q: &'static str, rev: bool| {
                    let cur = if rev { "start_before" } else { "start_after" };
                    View { query: Box::new(move |c, l| json!({"query_extension": {"msg": {q: {cur: c, "limit": l}}}})), ..v }
                };
                let all = |done: bool| -> Vec<Value> {
                    (0..m.n)
                        .filter(|i| m.gone.contains(i) == done)
                        .map(|i| json!({"approval_id": i as u64 + 1, "proposer": "ann"}))
                        .collect()
                };
                let mut out = vec![];
                for (q, done, rev) in [
                    ("pending_proposals", false, false),
                    ("reverse_pending_proposals", false, true),
                    ("completed_proposals", true, false),
                    ("reverse_completed_proposals", true, true),
                ] {
                    out.push(ext(Self::numbered(&w.a, q, None, "approval_id", rev, all(done)), q, rev));
                }
                out
            }
            LK::Cw20 | LK::Token => {
                vec![Self::plain(&w.a, "list_stakers", Some("stakers"), "address", l(&|i| json!({"address": label(i), "balance": (i as u64 + 1).to_string()})))]
            }
            LK::Cw721 | LK::Onft => {
                let mut v = Self::plain(&w.a, "staked_nfts", None, "", l(&|i| json!(label(i))));
                v.query = Box::new(|c, l| json!({"staked_nfts": {"address": "ann", "start_after": c, "limit": l}}));
                vec![v]
            }
            LK::Rewards => {
                let d = |f: &str| live.iter().map(|i| json!({"id": *i as u64 + 1, f: {"native": format!("u{}", label(*i))}})).collect::<Vec<Value>>();
                let mut p = Self::numbered(&w.a, "pending_rewards", Some("pending_rewards"), "id", false, {
                    let mut x = d("denom");
                    for (i, e) in x.iter_mut().enumerate() {
                        e["pending_rewards"] = json!((i as u64 + 1).to_string());
                    }
                    x
                });
                p.query = Box::new(|c, l| json!({"pending_rewards": {"address": "ann", "start_after": c, "limit": l}}));
                vec![Self::numbered(&w.a, "distributions", Some("distributions"), "id", false, d("denom")), p]
            }
            LK::Fund => {
                let mut out = vec![];
                for (q, key) in [("native_entitlements", "denom"), ("c_w20_entitlements", "token_contract")] {
                    let n = q.starts_with('n');
                    let all = l(&|i| {
                        json!({key: if n { format!("u{}", label(i)) } else { w.extra[i as usize].clone() }, "amount": (2 * (i as u64 + 1)).to_string()})
                    });
                    let mut v = Self::plain(&w.a, q, None, key, all);
                    v.query = Box::new(move |c, l| json!({q: {"sender": "ann", "start_at": c, "limit": l}}));
                    v.desc = true;
                    out.push(v);
                }
                out
            }
            LK::Issuer => {
                let st = l(&|i| json!({"address": label(i), "status": true}));
                let al = l(&|i| json!({"address": label(i), "allowance": (i as u64 + 1).to_string()}));
                vec![
                    Self::plain(&w.a, "allowlist", Some("allowlist"), "address", st.clone()),
                    Self::plain(&w.a, "denylist", Some("denylist"), "address", st),
                    Self::plain(&w.a, "mint_allowances", Some("allowances"), "address", al.clone()),
                    Self::plain(&w.a, "burn_allowances", Some("allowances"), "address", al),
                ]
            }
            LK::Roles => {
                let mut v = Self::plain(&w.a, "list_members", Some("members"), "addr", l(&|i| json!({"addr": label(i), "weight": i as u64 + 1})));
                v.query = Box::new(|c, l| json!({"extension": {"msg": {"list_members": {"start_after": c, "limit": l}}}}));
                vec![v]
            }
            LK::Payroll => {
                let mut out = vec![];
                let all: Vec<Value> = (0..m.n).map(|i| json!({"contract": w.extra.get(i as usize), "instantiator": Self::maker(i), "recipient": Self::payee(i)})).collect();
                // the factory names them: read the addresses off the unpaginated order of creation
                let addrs = payroll_addrs(&w.sim, &w.a, m.n);
                let all: Vec<Value> = all
                    .into_iter()
                    .zip(addrs)
                    .map(|(mut v, a)| {
                        v["contract"] = json!(a);
                        v
                    })
                    .collect();
                for rev in [false, true] {
                    let cur = if rev { "start_before" } else { "start_after" };
                    let suf = if rev { "_reverse" } else { "" };
                    let mut push = |q: String, args: Value, all: Vec<Value>| {
                        let q2 = q.clone();
                        out.push(View {
                            to: w.a.clone(),
                            query: Box::new(move |c, l| {
                                let mut a = args.clone();
                                a[cur] = c;
                                a["limit"] = l;
                                json!({ q2.clone(): a })
                            }),
                            field: None,
                            cursor: Box::new(|e| e["contract"].clone()),
                            less: by_str,
                            desc: rev,
                            all,
                            foreign: ["aaa", "contract1", "contract2x", "zzz"].iter().map(|s| json!(s)).collect(),
                            name: q,
                        })
                    };
                    push(format!("list_vesting_contracts{}", suf), json!({}), all.clone());
                    for who in ["ann", "bob"] {
                        push(
                            format!("list_vesting_contracts_by_instantiator{}", suf),
                            json!({"instantiator": who}),
                            all.iter().filter(|v| v["instantiator"] == json!(who)).cloned().collect(),
                        );
                        push(
                            format!("list_vesting_contracts_by_recipient{}", suf),
                            json!({"recipient": who}),
                            all.iter().filter(|v| v["recipient"] == json!(who)).cloned().collect(),
                        );
                    }
                }
                out
            }
        }
    }
    fn maker(i: u8) -> &'static str {
        if i % 3 == 0 {
            "bob"
        } else {
            "ann"
        }
    }
    fn payee(i: u8) -> &'static str {
        if i % 4 == 1 {
            "ann"
        } else {
            "bob"
        }
    }
    fn vote(&self, i: u8) -> Value {
        match self.kind {
            LK::Single => json!(["yes", "no", "abstain"][i as usize % 3]),
            _ => json!({"option_id": i % 3}),
        }
    }
}
/// Addresses of the vests in the order they were made: the i-th one carries the title "pay i".
fn payroll_addrs(sim: &Sim, fac: &str, n: u8) -> Vec<String> {
    let mut out = vec![String::new(); n as usize];
    // contracts are numbered consecutively by the chain
    let base: u64 = fac.trim_start_matches("contract").parse().unwrap();
    for k in 1..=n as u64 {
        let a = format!("contract{}", base + k);
        if let Ok(v) = sim.query::<_, Value>(&a, &json!({"info": {}})) {
            if let Some(i) = v["title"].as_str().and_then(|t| t.strip_prefix("pay ")).and_then(|t| t.parse::<usize>().ok()) {
                if i < out.len() {
                    out[i] = a;
                }
            }
        }
    }
    out
}
impl Harness for Lists {
    type World = LW;
    type Model = LM;
    type Op = LOp;
    fn setup(&self) -> (LW, LM) {
        let mut sim = Sim::new();
        let names: Vec<String> = (0..64).map(label).collect();
        assert_eq!(names.iter().collect::<BTreeSet<_>>().len(), 64);
        let mut w = LW { sim: Sim::new(), a: String::new(), b: String::new(), extra: vec![] };
        let power = |n: u8| -> Vec<(String, u128)> { (0..n).map(|i| (label(i), i as u128 + 1)).collect() };
        match self.kind {
            LK::Core => {
                let pt = sim.store(power_table());
                let pup = sim.store(puppet());
                let dao = new_dao(&mut sim, power_module(pt, &[("ann", 1)]), vec![mii(pup, &json!({}), "p")], None);
                w.a = dao.core.to_string();
                w.b = pup.to_string();
                let c20 = sim.store(cw20_code());
                for _ in 0..64 {
                    w.extra.push(sim.init(c20, "creator", &json!({"name": "token", "symbol": "TOK", "decimals": 6, "initial_balances": [], "mint": null, "marketing": null}), &[], "t").unwrap().to_string());
                }
                for _ in 0..64 {
                    w.extra.push(nft_init(&mut sim).to_string());
                }
            }
            LK::Single | LK::Multiple => {
                let pt = sim.store(power_table());
                let p = power(64);
                let p: Vec<(&str, u128)> = p.iter().map(|(a, b)| (a.as_str(), *b)).collect();
                let p0: Vec<(&str, u128)> = p.iter().copied().chain([("ent0x", 0)]).collect();
                let common = json!({"max_voting_period": {"height": 100000}, "min_voting_period": null, "only_members_execute": false, "allow_revoting": false,
                    "pre_propose_info": {"anyone_may_propose": {}}, "close_proposal_on_execution_failure": true, "veto": null});
                let mut msg = common;
                let code = if self.kind == LK::Single {
                    msg["threshold"] = json!({"absolute_count": {"threshold": "1"}});
                    sim.store(single_code())
                } else {
                    msg["voting_strategy"] = json!({"single_choice": {"quorum": {"percent": "0.9"}}});
                    sim.store(multiple_code())
                };
                let dao = new_dao(&mut sim, power_module(pt, &p0), vec![mii(code, &msg, "m")], None);
                w.a = dao.proposals[0].to_string();
            }
            LK::Approval => {
                let pt = sim.store(power_table());
                let (sc, pc) = (sim.store(single_code()), sim.store(pp_approval_code()));
                let pre = json!({"deposit_info": null, "submission_policy": {"anyone": {"denylist": []}}, "extension": {"approver": "appr"}});
                let msg = json!({"max_voting_period": {"height": 100000}, "min_voting_period": null, "only_members_execute": false, "allow_revoting": false,
                    "pre_propose_info": {"module_may_propose": {"info": mii(pc, &pre, "pre")}}, "close_proposal_on_execution_failure": true, "veto": null,
                    "threshold": {"absolute_count": {"threshold": "1"}}});
                let dao = new_dao(&mut sim, power_module(pt, &[("ann", 1)]), vec![mii(sc, &msg, "m")], None);
                let pol: Value = sim.query(&dao.proposals[0], &json!({"proposal_creation_policy": {}})).unwrap();
                w.a = pol["module"]["addr"].as_str().unwrap().to_string();
            }
            LK::Cw20 | LK::Token | LK::Cw721 | LK::Onft => {
                let who: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
                let (p, t) = staking(&mut sim, self.ck(), &who, 100, None);
                w.a = p;
                w.b = t;
            }
            LK::Rewards => {
                let pt = sim.store(power_table());
                let vp = sim.init(pt, "creator", &json!({"powers": {"ann": "1", "bob": "3"}}), &[], "vp").unwrap();
                let rc = sim.store(rewards_code());
                w.a = sim.init(rc, "own", &json!({"owner": "own"}), &[], "r").unwrap().to_string();
                w.b = vp.to_string();
                for n in &names {
                    sim.mint("own", 1000, &format!("u{}", n));
                }
                sim.advance(1, 5);
            }
            LK::Fund => {
                let pt = sim.store(power_table());
                let vp = sim.init(pt, "creator", &json!({"powers": {"ann": "2", "bob": "3"}}), &[], "vp").unwrap();
                sim.advance(1, 5);
                let h = sim.height();
                let fc = sim.store(fund_dist_code());
                w.a = sim
                    .init(fc, "own", &json!({"voting_contract": vp, "funding_period": {"height": 1000}, "distribution_height": h}), &[], "f")
                    .unwrap()
                    .to_string();
                for n in &names {
                    sim.mint("own", 1000, &format!("u{}", n));
                    w.extra.push(cw20_init(&mut sim, &["own"], 1000).to_string());
                }
            }
            LK::Issuer => {
                let c = sim.store(issuer_code());
                w.a = sim.init(c, "own", &json!({"new_token": {"subdenom": "gold"}}), &[], "i").unwrap().to_string();
                let self_addr = w.a.clone();
                sim.exec("own", &w.a, &json!({"set_before_send_hook": {"cosmwasm_address": self_addr}}), &[]).unwrap();
            }
            LK::Roles => {
                let c = sim.store(roles_code());
                w.a = sim.init(c, "own", &json!({"name": "roles", "symbol": "ROLE", "minter": "own"}), &[], "n").unwrap().to_string();
            }
            LK::Payroll => {
                let vc = sim.store(vesting_code());
                let pc = sim.store(payroll_code());
                for who in ["ann", "bob"] {
                    sim.mint(who, 100_000, "upay");
                }
                w.a = sim.init(pc, "creator", &json!({"owner": null, "vesting_code_id": vc}), &[], "f").unwrap().to_string();
            }
        }
        sim.seal();
        w.sim = sim;
        (w, LM { n: 0, gone: BTreeSet::new() })
    }
    fn sim<'a>(&self, w: &'a mut LW) -> &'a mut Sim {
        &mut w.sim
    }
    fn ops(&self, m: &LM) -> Vec<LOp> {
        let mut v = vec![];
        if m.n < self.max {
            v.push(LOp::Add);
        }
        let can = matches!(self.kind, LK::Core | LK::Approval | LK::Cw721 | LK::Onft | LK::Issuer | LK::Roles);
        if can && m.gone.len() < 2 && [3, 12, 32].contains(&m.n) {
            for i in [0, m.n / 2, m.n - 1] {
                if !m.gone.contains(&i) {
                    v.push(LOp::Remove(i));
                }
            }
        }
        // many finished submissions: the oldest open one is settled
        if self.kind == LK::Approval && m.n == self.max && m.gone.len() < m.n as usize && (0..m.gone.len() as u8).all(|i| m.gone.contains(&i)) {
            v.push(LOp::Remove(m.gone.len() as u8));
        }
        v
    }
    fn step(&self, w: &mut LW, m: &mut LM, op: &LOp) -> VResult<String> {
        let add = matches!(op, LOp::Add);
        let i = match op {
            LOp::Add => m.n,
            LOp::Remove(i) => *i,
        };
        let me = label(i);
        let a = w.a.clone();
        let mut todo: Vec<(String, String, Value, Vec<cosmwasm_std::Coin>)> = vec![];
        let mut run = |from: &str, to: &str, msg: Value| todo.push((from.into(), to.into(), msg, vec![]));
        match (self.kind, add) {
            (LK::Core, true) => {
                run(&a, &a, json!({"set_item": {"key": me, "value": format!("v{}", i)}}));
                run(&a, &a, json!({"update_cw20_list": {"to_add": [w.extra[i as usize]], "to_remove": []}}));
                run(&a, &a, json!({"update_cw721_list": {"to_add": [w.extra[64 + i as usize]], "to_remove": []}}));
                run(&a, &a, json!({"update_sub_daos": {"to_add": [{"addr": me, "charter": format!("c{}", i)}], "to_remove": []}}));
                run(&a, &a, json!({"update_proposal_modules": {"to_add": [mii(w.b.parse().unwrap(), &json!({}), "p")], "to_disable": []}}));
            }
            (LK::Core, false) => {
                run(&a, &a, json!({"remove_item": {"key": me}}));
                run(&a, &a, json!({"update_cw20_list": {"to_add": [], "to_remove": [w.extra[i as usize]]}}));
                run(&a, &a, json!({"update_cw721_list": {"to_add": [], "to_remove": [w.extra[64 + i as usize]]}}));
                run(&a, &a, json!({"update_sub_daos": {"to_add": [], "to_remove": [me]}}));
                let active: Vec<Value> = w.sim.query(&a, &json!({"active_proposal_modules": {}})).map_err(bad("list-error"))?;
                run(&a, &a, json!({"update_proposal_modules": {"to_add": [], "to_disable": [active[i as usize % active.len()]["address"]]}}));
            }
            (LK::Single | LK::Multiple, _) => {
                let p = if self.kind == LK::Single {
                    json!({"title": format!("t{}", i), "description": "d", "msgs": [], "proposer": null})
                } else {
                    json!({"title": format!("t{}", i), "description": "d", "proposer": null, "choices": {"options": [
                        {"title": "a", "description": "a", "msgs": []}, {"title": "b", "description": "b", "msgs": []}]}})
                };
                run("ent0", &a, json!({ "propose": p }));
                run(&me, &a, json!({"vote": {"proposal_id": 1, "vote": self.vote(i), "rationale": null}}));
                if i == 1 {
                    run(&label(0), &a, json!({"vote": {"proposal_id": 2, "vote": self.vote(0), "rationale": null}}));
                }
                if i > 1 && i % 3 == 0 {
                    run(&me, &a, json!({"vote": {"proposal_id": 2, "vote": self.vote(i), "rationale": null}}));
                }
            }
            (LK::Approval, true) => {
                run("ann", &a, json!({"propose": {"msg": {"propose": {"title": format!("t{}", i), "description": "d", "msgs": []}}}}));
            }
            (LK::Approval, false) => {
                let act = if i % 2 == 0 { "approve" } else { "reject" };
                run("appr", &a, json!({"extension": {"msg": {act: {"id": i as u64 + 1}}}}));
            }
            (LK::Cw20 | LK::Token, _) => stake_coins(&mut w.sim, self.ck(), &a, &w.b, &me, i as u128 + 1),
            (LK::Cw721 | LK::Onft, true) => {
                let t = w.b.clone();
                stake_nft(&mut w.sim, self.ck(), &a, &t, "ann", &me);
                // somebody else's
                stake_nft(&mut w.sim, self.ck(), &a, &t, "anna", &format!("{}o", me));
            }
            (LK::Cw721 | LK::Onft, false) => run("ann", &a, json!({"unstake": {"token_ids": [me]}})),
            (LK::Rewards, _) => {
                let d = format!("u{}", me);
                let msg = json!({"create": {"denom": {"native": d}, "emission_rate": {"immediate": {}}, "vp_contract": w.b, "hook_caller": w.b, "open_funding": null, "withdraw_destination": null}});
                todo.push(("own".into(), a.clone(), msg, vec![]));
                todo.push(("own".into(), a.clone(), json!({"fund_latest": {}}), vec![coin(4 * (i as u128 + 1), &d)]));
            }
            (LK::Fund, _) => {
                let amt = 5 * (i as u128 + 1);
                todo.push(("own".into(), a.clone(), json!({"fund_native": {}}), vec![coin(amt, &format!("u{}", me))]));
                todo.push(("own".into(), w.extra[i as usize].clone(), json!({"send": {"contract": a, "amount": amt.to_string(), "msg": bin(&json!({}))}}), vec![]));
            }
            (LK::Issuer, _) => {
                for q in ["allow", "deny"] {
                    run("own", &a, json!({q: {"address": me, "status": add}}));
                }
                let x = if add { (i as u64 + 1).to_string() } else { "0".into() };
                for q in ["set_minter_allowance", "set_burner_allowance"] {
                    run("own", &a, json!({q: {"address": me, "allowance": x}}));
                }
            }
            (LK::Roles, true) => run("own", &a, json!({"mint": {"token_id": me, "owner": me, "token_uri": null, "extension": {"role": null, "weight": i as u64 + 1}}})),
            (LK::Roles, false) => run("own", &a, json!({"burn": {"token_id": me}})),
            (LK::Payroll, _) => {
                let msg = json!({"instantiate_native_payroll_contract": {"label": "pay", "instantiate_msg": {
                    "owner": null, "recipient": Self::payee(i), "title": format!("pay {}", i), "description": null, "total": "10", "denom": {"native": "upay"},
                    "schedule": "saturating_linear", "start_time": null, "vesting_duration_seconds": 100, "unbonding_duration_seconds": 10}}});
                todo.push((Self::maker(i).into(), a.clone(), msg, coins(10, "upay")));
            }
        }
        for (from, to, msg, funds) in todo {
            let r = w.sim.exec(&from, &to, &msg, &funds);
            ensure!(r.is_ok(), F7, "list-change", "{} refused: {:?}", msg, r);
        }
        if add {
            m.n += 1;
        } else {
            m.gone.insert(i);
        }
        Ok(if add { "add" } else { "remove" }.into())
    }
    fn invariant(&self, _w: &mut LW, _m: &LM) -> VResult {
        Ok(())
    }
    fn on_new_state(&self, w: &mut LW, m: &LM) -> VResult {
        for v in self.views(w, m) {
            check_view(&w.sim, &v)?;
        }
        if self.kind == LK::Core {
            let c: Value = w.sim.query(&w.a, &json!({"proposal_module_count": {}})).map_err(bad("list-error"))?;
            same!(c, json!({"active_proposal_module_count": 1 + m.n as u64 - m.gone.len() as u64, "total_proposal_module_count": 1 + m.n as u64}), F7, "list-count", "module counts");
            let l: Vec<Value> = w.sim.query(&w.a, &json!({"proposal_modules": {}})).map_err(bad("list-error"))?;
            let a: BTreeSet<String> = l.iter().map(|x| x["address"].to_string()).collect();
            same!((l.len(), a.len()), (1 + m.n as usize, 1 + m.n as usize), F7, "list-count", "modules listed");
            same!(l.iter().filter(|x| x["status"] == json!("enabled")).count(), 1 + m.n as usize - m.gone.len(), F7, "list-count", "modules listed as enabled");
        }
        if self.kind == LK::Payroll {
            ensure!(payroll_addrs(&w.sim, &w.a, m.n).iter().all(|a| !a.is_empty()), F7, "list-count", "a vest that was created cannot be found");
        }
        Ok(())
    }
}
impl Lists {
    fn ck(&self) -> CK {
        match self.kind {
            LK::Cw20 => CK::Cw20,
            LK::Token => CK::Token,
            LK::Cw721 => CK::Cw721,
            _ => CK::Onft,
        }
    }
}

fn plan(prop: &str, thorough: bool) -> Option<PropertyPlan> {
    if prop != "F07" {
        return None;
    }
    let x = |q: usize, t: usize| if thorough { t } else { q };
    let mut e = vec![
        Entry::new("time-map", Worm { times: 5, keys: 2, pre: 0 }, x(3, 4)),
        Entry::new("time-map-one-key", Worm { times: x(4, 6) as u64, keys: 1, pre: 0 }, x(4, 5)),
        Entry::new("time-map-long", Worm { times: 7, keys: 1, pre: 45 }, x(2, 3)),
        Entry::new("stake-tracker", Track { ticks: 4, slashes: true, unbonding_slash: false }, x(6, 8)),
        Entry::new("stake-tracker-unbonding-slash", Track { ticks: 4, slashes: true, unbonding_slash: true }, x(6, 7)),
        Entry::new("nft-claims", NftC { each: 1 }, x(4, 6)),
        Entry::new("nft-claims-many", NftC { each: 14 }, x(3, 4)),
        Entry::new("hooks", HookL { n: 4 }, x(12, 16)),
        Entry::new("hooks-many", HookL { n: 40 }, x(3, 5)),
        Entry::new("pages", Pages, 14),
    ];
    for kind in [CK::Cw20, CK::Token, CK::Cw721, CK::Onft] {
        for time in [false, true] {
            e.push(Entry::new(format!("claims-{:?}-{}", kind, if time { "time" } else { "height" }).to_lowercase(), Claims { kind, time }, x(5, 7)));
        }
    }
    for kind in [LK::Core, LK::Single, LK::Multiple, LK::Approval, LK::Cw20, LK::Token, LK::Cw721, LK::Onft, LK::Rewards, LK::Fund, LK::Issuer, LK::Roles, LK::Payroll] {
        e.push(Entry::new(format!("list-{:?}", kind).to_lowercase(), Lists { kind, max: x(34, 56) as u8 }, 120));
    }
    Some(PropertyPlan {
        entries: e,
        rule: "Every sequence, to the stated depth, of updates to the time-indexed map (all keys x times of a grid that includes the ends of the encoding, x increment/decrement/arbitrary update/point update), of delegations, redelegations, undelegations, waits and (late) slashes told to the stake tracker, of claim-list and subscriber-list operations; after each, every query at every time, key and holder is compared with a plain table. All subsets of six keys x all cursors x limits x both orders for the pagination helpers. Unstake/claim/wait sequences through the four staking contracts. Thirteen contracts' listings grown one entry at a time past every default and maximum page size, with every cursor (entries and foreign) and twelve limits: each page is a prefix of the remaining entries of the reference list, never longer than asked, and never empty while entries remain.",
        assumptions: vec![
            "documented preconditions of the libraries hold: NFT ids queued for a claim are distinct; a reported slash happened and a slash of unbonding tokens is reported at once while a single unbonding runs (later reports are F02's known findings)",
            "contract lists are grown in one (shuffled) order, with removals at three sizes",
        ],
    })
}
fn main() {
    run_main(plan)
}
