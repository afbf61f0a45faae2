//! Explicit-state model checker that runs directly on the real contract code.
//!
//! A *state* is the complete chain storage (bank, wasm, staking, every contract), the block, and a
//! small reference model. A *transition* executes one operation of a finite alphabet against the
//! real contracts and, in lock step, against the reference model; the two are compared after every
//! transition. The search is breadth-first, exhaustive to a stated depth, with de-duplication on a
//! 128-bit hash of (storage, block, model).
use crate::sim::{Sim, Snap};
use serde::{de::DeserializeOwned, Serialize};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;

#[derive(Clone, Debug)]
pub struct Violation {
    /// properties this observation contradicts
    pub props: &'static [&'static str],
    /// stable identity of the kind of failure (matched against known_findings.json)
    pub key: String,
    pub msg: String,
}
impl Violation {
    pub fn new(props: &'static [&'static str], key: impl Into<String>, msg: impl Into<String>) -> Self {
        Violation { props, key: key.into(), msg: msg.into() }
    }
}
pub type VResult<T = ()> = Result<T, Violation>;

/// `ensure!(cond, PROPS, "key", "fmt", args..)`
#[macro_export]
macro_rules! ensure {
    ($c:expr, $props:expr, $key:expr, $($arg:tt)*) => {
        if !($c) && $crate::engine::counts(&$props) { return Err($crate::engine::Violation::new($props, $key, format!($($arg)*))); }
    };
}
thread_local! {
    static ONLY: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}
/// Whether a failed comparison that decides these properties is to be reported.
pub fn counts(props: &[&'static str]) -> bool {
    ONLY.with(|o| o.borrow().as_deref().map_or(true, |p| props.contains(&p)))
}
/// Run `f` heeding only the comparisons that decide `prop`.
fn heeding<T>(prop: &str, f: impl FnOnce() -> T) -> T {
    ONLY.with(|o| *o.borrow_mut() = Some(prop.to_string()));
    let r = f();
    ONLY.with(|o| *o.borrow_mut() = None);
    r
}
/// `same!(actual, expected, PROPS, "key", "context", args..)`
#[macro_export]
macro_rules! same {
    ($a:expr, $e:expr, $props:expr, $key:expr, $($arg:tt)*) => {{
        let a = &$a; let e = &$e;
        if *a != *e && $crate::engine::counts(&$props) {
            return Err($crate::engine::Violation::new($props, $key,
                format!("{}: code says {:?}, reference says {:?}", format!($($arg)*), a, e)));
        }
    }};
}

pub trait Harness: Send + Sync {
    type World;
    type Model: Clone + Hash + Send + Sync + 'static;
    type Op: Clone + Debug + Serialize + DeserializeOwned + Send + Sync + 'static;
    /// Build the chain and the initial reference model. Must be deterministic.
    fn setup(&self) -> (Self::World, Self::Model);
    fn sim<'a>(&self, w: &'a mut Self::World) -> &'a mut Sim;
    /// The alphabet enabled in this model state.
    fn ops(&self, m: &Self::Model) -> Vec<Self::Op>;
    /// Execute `op` on both sides and compare. The returned label classifies the outcome.
    fn step(&self, w: &mut Self::World, m: &mut Self::Model, op: &Self::Op) -> VResult<String>;
    /// Checked in the initial state and after every transition.
    fn invariant(&self, w: &mut Self::World, m: &Self::Model) -> VResult;
    /// Extra per-state obligation evaluated on distinct states only (may be expensive).
    fn on_new_state(&self, _w: &mut Self::World, _m: &Self::Model) -> VResult {
        Ok(())
    }
}

#[derive(Clone, Debug, Default)]
pub struct Report {
    pub harness: String,
    pub depth: usize,
    pub depth_completed: usize,
    pub states: u64,
    pub transitions: u64,
    pub replayed: u64,
    pub pruned_other: u64,
    pub capped: bool,
    pub exhausted: bool,
    pub outcomes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub violation: Option<Found>,
    pub known: BTreeMap<String, (String, Vec<String>)>,
    pub wall_s: f64,
}
#[derive(Clone, Debug)]
pub struct Found {
    pub v: Violation,
    pub ops: Vec<serde_json::Value>,
    pub ops_debug: Vec<String>,
}

pub struct RunCfg {
    pub property: String,
    pub depth: usize,
    pub max_states: u64,
    pub deadline: Instant,
    pub threads: usize,
    pub known: HashSet<String>,
}

/// Object-safe face of a harness.
pub trait Checkable: Send + Sync {
    fn name(&self) -> String;
    fn run(&self, cfg: &RunCfg) -> Report;
    fn replay(&self, property: &str, ops: &[serde_json::Value]) -> Result<Vec<String>, (usize, Violation)>;
}

pub struct Bound<H> {
    pub name: String,
    pub h: H,
}

struct PathNode<O> {
    op: O,
    prev: Option<Arc<PathNode<O>>>,
}
fn path_ops<O: Clone>(p: &Option<Arc<PathNode<O>>>) -> Vec<O> {
    let mut v = vec![];
    let mut c = p.clone();
    while let Some(n) = c {
        v.push(n.op.clone());
        c = n.prev.clone();
    }
    v.reverse();
    v
}
struct Node<M, O> {
    snap: Snap,
    model: M,
    path: Option<Arc<PathNode<O>>>,
}

pub struct Fnv128(pub u128);
impl Default for Fnv128 {
    fn default() -> Self {
        Fnv128(0x6c62272e07bb014262b821756295c58d)
    }
}
impl Hasher for Fnv128 {
    fn finish(&self) -> u64 {
        (self.0 ^ (self.0 >> 64)) as u64
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 ^= *b as u128;
            self.0 = self.0.wrapping_mul(0x0000000001000000000000000000013B);
        }
    }
}
pub fn hash128<T: Hash + ?Sized>(t: &T) -> u128 {
    let mut h = Fnv128::default();
    t.hash(&mut h);
    // final avalanche
    let mut x = h.0;
    x ^= x >> 67;
    x = x.wrapping_mul(0x9E3779B97F4A7C15F39CC0605CEDC835);
    x ^= x >> 59;
    x
}

fn state_key<M: Hash>(snap: &Snap, m: &M) -> u128 {
    let a = snap.hash();
    let b = hash128(m);
    a.wrapping_mul(0x2545F4914F6CDD1D_2545F4914F6CDD1D).wrapping_add(b).rotate_left(17) ^ a
}

const SHARDS: usize = 64;

/// A panic of the comparison itself (typically a query that must answer but does not) is an
/// observation contradicting the property under check.
fn observed<T>(prop: &str, f: impl FnOnce() -> VResult<T>) -> VResult<T> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(p) => {
            let name: &'static str = Box::leak(prop.to_string().into_boxed_str());
            let props: &'static [&'static str] = Box::leak(vec![name].into_boxed_slice());
            Err(Violation::new(props, "unanswered", crate::sim::panic_text(p)))
        }
    }
}

impl<H: Harness> Bound<H> {
    fn own_violation(&self, prop: &str, w: &mut H::World, m: &mut H::Model, op: &H::Op) -> Option<Violation> {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            self.h.step(w, m, op)?;
            heeding(prop, || self.h.invariant(w, m).and_then(|_| self.h.on_new_state(w, m)))
        }));
        ONLY.with(|o| *o.borrow_mut() = None);
        match r {
            Ok(Err(v)) if v.props.contains(&prop) => Some(v),
            _ => None,
        }
    }
}
impl<H: Harness> Checkable for Bound<H> {
    fn name(&self) -> String {
        self.name.clone()
    }

    fn run(&self, cfg: &RunCfg) -> Report {
        let t0 = Instant::now();
        let mut rep = Report { harness: self.name.clone(), depth: cfg.depth, ..Default::default() };
        let prop = cfg.property.as_str();
        let seen: Vec<Mutex<HashSet<u128>>> = (0..SHARDS).map(|_| Mutex::new(HashSet::new())).collect();
        let states = AtomicU64::new(0);
        let transitions = AtomicU64::new(0);
        let pruned = AtomicU64::new(0);
        let capped = AtomicBool::new(false);
        let outcomes: Mutex<HashMap<String, u64>> = Mutex::new(HashMap::new());
        let best: Mutex<Option<(Vec<usize>, Found)>> = Mutex::new(None);
        let known: Mutex<BTreeMap<String, (String, Vec<String>)>> = Mutex::new(BTreeMap::new());

        // initial state
        let mut frontier: Vec<Node<H::Model, H::Op>> = vec![];
        {
            let setup = observed(prop, || {
                let (mut w, m) = self.h.setup();
                let r = self.h.invariant(&mut w, &m).and_then(|_| self.h.on_new_state(&mut w, &m));
                Ok((w, m, r))
            });
            let (mut w, m, r) = match setup {
                Ok(x) => x,
                Err(v) => {
                    rep.violation = Some(Found { v, ops: vec![], ops_debug: vec![] });
                    rep.wall_s = t0.elapsed().as_secs_f64();
                    return rep;
                }
            };
            if let Err(v) = r {
                if v.props.contains(&prop) {
                    if cfg.known.contains(&v.key) {
                        rep.known.insert(v.key.clone(), (v.msg, vec![]));
                    } else {
                        rep.violation = Some(Found { v, ops: vec![], ops_debug: vec![] });
                    }
                    rep.wall_s = t0.elapsed().as_secs_f64();
                    return rep;
                }
            }
            let snap = self.h.sim(&mut w).snapshot();
            let k = state_key(&snap, &m);
            seen[(k as usize) % SHARDS].lock().unwrap().insert(k);
            states.fetch_add(1, Ordering::Relaxed);
            frontier.push(Node { snap, model: m, path: None });
        }

        let mut depth_done = 0;
        for level in 0..cfg.depth {
            if frontier.is_empty() {
                rep.exhausted = true;
                break;
            }
            let last = level + 1 == cfg.depth;
            let next_idx = AtomicUsize::new(0);
            let next: Mutex<Vec<(u64, u32, Node<H::Model, H::Op>)>> = Mutex::new(vec![]);
            let stop = AtomicBool::new(false);
            let nthreads = cfg.threads.min(frontier.len()).max(1);
            std::thread::scope(|sc| {
                for _ in 0..nthreads {
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(sc, || {
                            let (mut w, _) = self.h.setup();
                            let mut local_out: HashMap<String, u64> = HashMap::new();
                            let mut local_next = vec![];
                            let mut local_trans = 0u64;
                            loop {
                                if stop.load(Ordering::Relaxed) {
                                    break;
                                }
                                let i = next_idx.fetch_add(1, Ordering::Relaxed);
                                if i >= frontier.len() {
                                    break;
                                }
                                if states.load(Ordering::Relaxed) > cfg.max_states || Instant::now() > cfg.deadline {
                                    capped.store(true, Ordering::Relaxed);
                                    stop.store(true, Ordering::Relaxed);
                                    break;
                                }
                                let node = &frontier[i];
                                for (oi, op) in self.h.ops(&node.model).into_iter().enumerate() {
                                    let mut m = node.model.clone();
                                    self.h.sim(&mut w).restore(&node.snap);
                                    local_trans += 1;
                                    let stepped = std::cell::Cell::new(false);
                                    let r = observed(prop, || {
                                        let l = self.h.step(&mut w, &mut m, &op)?;
                                        stepped.set(true);
                                        self.h.invariant(&mut w, &m)?;
                                        Ok(l)
                                    });
                                    let r = match r {
                                        Ok(label) => {
                                            *local_out.entry(label).or_insert(0) += 1;
                                            let snap = self.h.sim(&mut w).snapshot();
                                            let k = state_key(&snap, &m);
                                            let fresh = seen[(k as usize) % SHARDS].lock().unwrap().insert(k);
                                            if fresh {
                                                states.fetch_add(1, Ordering::Relaxed);
                                                match observed(prop, || self.h.on_new_state(&mut w, &m)) {
                                                    Ok(()) => {
                                                        if !last {
                                                            let p = Some(Arc::new(PathNode { op: op.clone(), prev: node.path.clone() }));
                                                            local_next.push((i as u64, oi as u32, Node { snap, model: m, path: p }));
                                                        }
                                                        Ok(())
                                                    }
                                                    Err(v) => Err(v),
                                                }
                                            } else {
                                                Ok(())
                                            }
                                        }
                                        Err(v) => Err(v),
                                    };
                                    if let Err(mut v) = r {
                                        if !v.props.contains(&prop) && stepped.get() {
                                            // another property's comparison failed first: look for
                                            // this one's in the same state before giving it up
                                            let mut m = node.model.clone();
                                            self.h.sim(&mut w).restore(&node.snap);
                                            if let Some(own) = self.own_violation(prop, &mut w, &mut m, &op) {
                                                v = own;
                                            }
                                        }
                                        if !v.props.contains(&prop) {
                                            pruned.fetch_add(1, Ordering::Relaxed);
                                            continue;
                                        }
                                        let mut ops = path_ops(&node.path);
                                        ops.push(op.clone());
                                        let dbg: Vec<String> = ops.iter().map(|o| format!("{:?}", o)).collect();
                                        if cfg.known.contains(&v.key) {
                                            known.lock().unwrap().entry(v.key.clone()).or_insert((v.msg, dbg));
                                            continue;
                                        }
                                        // amounts beyond 64 bits do not fit a Value: such an operation is kept as text
                                        let js = ops
                                            .iter()
                                            .map(|o| serde_json::to_value(o).unwrap_or_else(|_| serde_json::Value::String(serde_json::to_string(o).unwrap())))
                                            .collect();
                                        let mut b = best.lock().unwrap();
                                        let rank = vec![i, oi];
                                        if b.as_ref().map(|(r, _)| rank < *r).unwrap_or(true) {
                                            *b = Some((rank, Found { v, ops: js, ops_debug: dbg }));
                                        }
                                        stop.store(true, Ordering::Relaxed);
                                        break;
                                    }
                                }
                            }
                            transitions.fetch_add(local_trans, Ordering::Relaxed);
                            let mut o = outcomes.lock().unwrap();
                            for (k, v) in local_out {
                                *o.entry(k).or_insert(0) += v;
                            }
                            next.lock().unwrap().extend(local_next);
                        })
                        .unwrap();
                }
            });
            if let Some((_, f)) = best.lock().unwrap().take() {
                rep.violation = Some(f);
                break;
            }
            if capped.load(Ordering::Relaxed) {
                break;
            }
            depth_done = level + 1;
            let mut n = next.into_inner().unwrap();
            n.sort_by_key(|x| (x.0, x.1));
            if last || n.is_empty() {
                if n.is_empty() && !last {
                    rep.exhausted = true;
                }
                // Re-execute an even spread of the explored histories on a fresh chain and require
                // the very same state: the search owns every source of nondeterminism.
                let step = (frontier.len() / 12).max(1);
                for nd in frontier.iter().step_by(step).take(12) {
                    let ops = path_ops(&nd.path);
                    if rep.samples.len() < 3 {
                        rep.samples.push(format!("{:?}", ops));
                    }
                    let (mut w, mut m) = self.h.setup();
                    for op in &ops {
                        let _ = self.h.step(&mut w, &mut m, op).and_then(|_| self.h.invariant(&mut w, &m));
                    }
                    let k = state_key(&self.h.sim(&mut w).snapshot(), &m);
                    if k != state_key(&nd.snap, &nd.model) {
                        panic!("replay divergence in harness {} on {:?}", self.name, ops);
                    }
                    rep.replayed += 1;
                }
            }
            frontier = n.into_iter().map(|x| x.2).collect();
        }
        rep.depth_completed = depth_done;
        rep.states = states.into_inner();
        rep.transitions = transitions.into_inner();
        rep.pruned_other = pruned.into_inner();
        rep.capped = capped.into_inner();
        rep.outcomes = outcomes.into_inner().unwrap().into_iter().collect();
        rep.known.extend(known.into_inner().unwrap());
        rep.wall_s = t0.elapsed().as_secs_f64();
        rep
    }

    fn replay(&self, property: &str, ops: &[serde_json::Value]) -> Result<Vec<String>, (usize, Violation)> {
        let (mut w, mut m) = self.h.setup();
        let keep = |i: usize, v: Violation| -> Result<(), (usize, Violation)> {
            if v.props.contains(&property) {
                Err((i, v))
            } else {
                Ok(())
            }
        };
        if let Err(v) = self.h.invariant(&mut w, &m).and_then(|_| self.h.on_new_state(&mut w, &m)) {
            keep(0, v)?;
        }
        let mut out = vec![];
        for (i, js) in ops.iter().enumerate() {
            let op: H::Op = match serde_json::from_value(js.clone()) {
                Ok(o) => o,
                Err(_) => serde_json::from_str(js.as_str().expect("replay op")).expect("replay op"),
            };
            let (snap, before, stepped) = (self.h.sim(&mut w).snapshot(), m.clone(), std::cell::Cell::new(false));
            let r = observed(property, || {
                let l = self.h.step(&mut w, &mut m, &op)?;
                stepped.set(true);
                self.h.invariant(&mut w, &m)?;
                self.h.on_new_state(&mut w, &m)?;
                Ok(l)
            });
            let r = match r {
                Err(v) if !v.props.contains(&property) && stepped.get() => {
                    self.h.sim(&mut w).restore(&snap);
                    m = before;
                    Err(self.own_violation(property, &mut w, &mut m, &op).unwrap_or(v))
                }
                r => r,
            };
            match r {
                Ok(l) => out.push(l),
                Err(v) => {
                    out.push(format!("other: {}", v.key));
                    keep(i + 1, v)?;
                }
            }
        }
        Ok(out)
    }
}
