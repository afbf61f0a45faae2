//! cw-multi-test chain whose entire state can be snapshotted and restored cheaply.
use crate::engine::hash128;
use cosmwasm_std::testing::MockApi;
use cosmwasm_std::{
    Addr, BlockInfo, Coin, CosmosMsg, Empty, Order, Record, Storage, Timestamp, Uint128,
};
use cw_multi_test::{
    App, AppBuilder, AppResponse, Contract, Executor, FailingModule, GovFailingModule,
    IbcFailingModule, WasmKeeper,
};
use crate::chain::{ChainStub, HookBank};
use crate::stake::{self, DistStub, StakeStub, Stk};
use serde::{de::DeserializeOwned, Serialize};
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::ops::Bound;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

type Map = BTreeMap<Vec<u8>, Vec<u8>>;
type Delta = BTreeMap<Vec<u8>, Option<Vec<u8>>>;

/// Immutable base shared by all states of a run plus a copy-on-write delta.
#[derive(Clone, Default)]
pub struct KvStore {
    base: Arc<Map>,
    delta: Arc<Delta>,
    acc: u128,
    canon: Option<fn(&[u8], &[u8]) -> Option<Vec<u8>>>,
}
impl KvStore {
    fn kv_hash(&self, k: &[u8], v: &[u8]) -> u128 {
        if let Some(f) = self.canon {
            if let Some(c) = f(k, v) {
                return hash128(&(k, &c[..]));
            }
        }
        hash128(&(k, v))
    }
    /// Make the current content the shared base.
    pub fn rebase(&mut self) {
        let mut m: Map = (*self.base).clone();
        for (k, v) in self.delta.iter() {
            match v {
                Some(v) => {
                    m.insert(k.clone(), v.clone());
                }
                None => {
                    m.remove(k);
                }
            }
        }
        self.base = Arc::new(m);
        self.delta = Arc::new(Delta::new());
        self.rehash();
    }
    fn rehash(&mut self) {
        let mut acc = 0u128;
        let mut it = self.range(None, None, Order::Ascending);
        let mut all = vec![];
        for kv in &mut it {
            all.push(kv);
        }
        drop(it);
        for (k, v) in all {
            acc = acc.wrapping_add(self.kv_hash(&k, &v));
        }
        self.acc = acc;
    }
    pub fn dump(&self) -> Vec<Record> {
        self.range(None, None, Order::Ascending).collect()
    }
}
impl Storage for KvStore {
    fn get(&self, key: &[u8]) -> Option<Vec<u8>> {
        match self.delta.get(key) {
            Some(v) => v.clone(),
            None => self.base.get(key).cloned(),
        }
    }
    fn set(&mut self, key: &[u8], value: &[u8]) {
        if let Some(old) = self.get(key) {
            if old == value {
                return;
            }
            self.acc = self.acc.wrapping_sub(self.kv_hash(key, &old));
        }
        self.acc = self.acc.wrapping_add(self.kv_hash(key, value));
        let d = Arc::make_mut(&mut self.delta);
        if self.base.get(key).map(|b| b == value).unwrap_or(false) {
            d.remove(key);
        } else {
            d.insert(key.to_vec(), Some(value.to_vec()));
        }
    }
    fn remove(&mut self, key: &[u8]) {
        if let Some(old) = self.get(key) {
            self.acc = self.acc.wrapping_sub(self.kv_hash(key, &old));
            let d = Arc::make_mut(&mut self.delta);
            if self.base.contains_key(key) {
                d.insert(key.to_vec(), None);
            } else {
                d.remove(key);
            }
        }
    }
    fn range<'a>(
        &'a self,
        start: Option<&[u8]>,
        end: Option<&[u8]>,
        order: Order,
    ) -> Box<dyn Iterator<Item = Record> + 'a> {
        let lo = match start {
            Some(s) => Bound::Included(s.to_vec()),
            None => Bound::Unbounded,
        };
        let hi = match end {
            Some(s) => Bound::Excluded(s.to_vec()),
            None => Bound::Unbounded,
        };
        if let (Some(s), Some(e)) = (start, end) {
            if s > e {
                return Box::new(std::iter::empty());
            }
        }
        let b = self.base.range((lo.clone(), hi.clone()));
        let d = self.delta.range((lo, hi));
        match order {
            Order::Ascending => Box::new(Merge { b: b.peekable(), d: d.peekable(), asc: true }),
            Order::Descending => Box::new(Merge { b: b.rev().peekable(), d: d.rev().peekable(), asc: false }),
        }
    }
}
struct Merge<'a, B: Iterator<Item = (&'a Vec<u8>, &'a Vec<u8>)>, D: Iterator<Item = (&'a Vec<u8>, &'a Option<Vec<u8>>)>> {
    b: std::iter::Peekable<B>,
    d: std::iter::Peekable<D>,
    asc: bool,
}
impl<'a, B: Iterator<Item = (&'a Vec<u8>, &'a Vec<u8>)>, D: Iterator<Item = (&'a Vec<u8>, &'a Option<Vec<u8>>)>> Iterator
    for Merge<'a, B, D>
{
    type Item = Record;
    fn next(&mut self) -> Option<Record> {
        loop {
            let take_d = match (self.b.peek(), self.d.peek()) {
                (None, None) => return None,
                (Some(_), None) => false,
                (None, Some(_)) => true,
                (Some((bk, _)), Some((dk, _))) => {
                    if bk == dk {
                        self.b.next();
                        continue;
                    }
                    if self.asc {
                        dk < bk
                    } else {
                        dk > bk
                    }
                }
            };
            if take_d {
                let (k, v) = self.d.next().unwrap();
                if let Some(v) = v {
                    return Some((k.clone(), v.clone()));
                }
            } else {
                let (k, v) = self.b.next().unwrap();
                return Some((k.clone(), v.clone()));
            }
        }
    }
}

#[derive(Clone)]
pub struct Snap {
    store: KvStore,
    block: BlockInfo,
}
impl Snap {
    pub fn hash(&self) -> u128 {
        self.store
            .acc
            .wrapping_mul(0x9E3779B97F4A7C15F39CC0605CEDC835)
            .wrapping_add(hash128(&(self.block.height, self.block.time.nanos())))
    }
}

pub type MApp = App<
    HookBank,
    MockApi,
    KvStore,
    FailingModule<Empty, Empty, Empty>,
    WasmKeeper<Empty, Empty>,
    StakeStub,
    DistStub,
    IbcFailingModule,
    GovFailingModule,
    ChainStub,
>;

pub struct Sim {
    pub app: MApp,
}
pub type ExecResult = Result<AppResponse, String>;

pub const H0: u64 = 1000;
pub const T0: u64 = 1_700_000_000;

impl Sim {
    pub fn new() -> Sim {
        quiet_panics();
        let app = AppBuilder::new()
            .with_storage(KvStore::default())
            .with_bank(HookBank::default())
            .with_stargate(ChainStub)
            .with_staking(StakeStub)
            .with_distribution(DistStub)
            .with_block(BlockInfo {
                height: H0,
                time: Timestamp::from_seconds(T0),
                chain_id: "mc-1".to_string(),
            })
            .build(cw_multi_test::no_init);
        Sim { app }
    }
    /// Values that are hashed through a canonical form (e.g. maps serialised in arbitrary order).
    pub fn set_canon(&mut self, f: fn(&[u8], &[u8]) -> Option<Vec<u8>>) {
        self.app.storage_mut().canon = Some(f);
        self.app.storage_mut().rehash();
    }
    pub fn store(&mut self, c: Box<dyn Contract<Empty>>) -> u64 {
        self.app.store_code(c)
    }
    /// Call at the end of setup.
    pub fn seal(&mut self) {
        self.app.storage_mut().rebase();
    }
    pub fn snapshot(&mut self) -> Snap {
        Snap { store: self.app.storage().clone(), block: self.app.block_info() }
    }
    pub fn restore(&mut self, s: &Snap) {
        if self.app.block_info() != s.block {
            self.app.set_block(s.block.clone());
        }
        *self.app.storage_mut() = s.store.clone();
    }
    pub fn mint(&mut self, to: &str, amount: u128, denom: &str) {
        self.app
            .sudo(cw_multi_test::SudoMsg::Bank(cw_multi_test::BankSudo::Mint {
                to_address: to.to_string(),
                amount: coins(amount, denom),
            }))
            .unwrap();
    }
    pub fn init<M: Serialize>(&mut self, code: u64, sender: &str, msg: &M, funds: &[Coin], label: &str) -> Result<Addr, String> {
        self.init_admin(code, sender, msg, funds, label, None)
    }
    pub fn init_admin<M: Serialize>(
        &mut self,
        code: u64,
        sender: &str,
        msg: &M,
        funds: &[Coin],
        label: &str,
        admin: Option<String>,
    ) -> Result<Addr, String> {
        let app = &mut self.app;
        match guarded(|| app.instantiate_contract(code, Addr::unchecked(sender), msg, funds, label, admin)) {
            Ok(Ok(a)) => Ok(a),
            Ok(Err(e)) => Err(format!("{:#}", e)),
            Err(p) => Err(panic_text(p)),
        }
    }
    pub fn exec<M: Serialize + Debug>(&mut self, sender: impl AsRef<str>, to: impl AsRef<str>, msg: &M, funds: &[Coin]) -> ExecResult {
        let m = cosmwasm_std::WasmMsg::Execute {
            contract_addr: to.as_ref().to_string(),
            msg: cosmwasm_std::to_json_binary(msg).unwrap(),
            funds: funds.to_vec(),
        };
        self.exec_msgs(sender, vec![m.into()])
    }
    /// One transaction of several messages; atomic.
    pub fn exec_msgs(&mut self, sender: impl AsRef<str>, msgs: Vec<CosmosMsg>) -> ExecResult {
        let app = &mut self.app;
        let s = Addr::unchecked(sender.as_ref());
        match guarded(|| app.execute_multi(s, msgs)) {
            Ok(Ok(mut r)) => {
                let mut events = vec![];
                let mut data = None;
                for x in r.drain(..) {
                    events.extend(x.events);
                    data = x.data.or(data);
                }
                Ok(AppResponse { events, data })
            }
            Ok(Err(e)) => Err(format!("{:#}", e)),
            Err(p) => Err(panic_text(p)),
        }
    }
    pub fn migrate<M: Serialize>(&mut self, sender: &str, to: &str, msg: &M, code: u64) -> ExecResult {
        let m = cosmwasm_std::WasmMsg::Migrate {
            contract_addr: to.to_string(),
            new_code_id: code,
            msg: cosmwasm_std::to_json_binary(msg).unwrap(),
        };
        self.exec_msgs(sender, vec![m.into()])
    }
    pub fn query<M: Serialize, R: DeserializeOwned>(&self, to: impl AsRef<str>, msg: &M) -> Result<R, String> {
        let app = &self.app;
        match guarded(|| app.wrap().query_wasm_smart::<R>(to.as_ref(), msg)) {
            Ok(Ok(r)) => Ok(r),
            Ok(Err(e)) => Err(e.to_string()),
            Err(p) => Err(panic_text(p)),
        }
    }
    pub fn bal(&self, who: impl AsRef<str>, denom: &str) -> u128 {
        self.app.wrap().query_balance(who.as_ref(), denom).unwrap().amount.u128()
    }
    pub fn cw20(&self, token: impl AsRef<str>, who: impl AsRef<str>) -> u128 {
        let r: cw20::BalanceResponse = self
            .query(token, &cw20::Cw20QueryMsg::Balance { address: who.as_ref().to_string() })
            .unwrap();
        r.balance.u128()
    }
    /// The staking module's own records.
    pub fn stk(&self) -> Stk {
        stake::load(self.app.storage())
    }
    pub fn stk_edit(&mut self, f: impl FnOnce(&mut Stk)) {
        let mut k = self.stk();
        f(&mut k);
        stake::save(self.app.storage_mut(), &k);
    }
    pub fn height(&self) -> u64 {
        self.app.block_info().height
    }
    pub fn time(&self) -> u64 {
        self.app.block_info().time.seconds()
    }
    pub fn advance(&mut self, blocks: u64, secs: u64) {
        let mut b = self.app.block_info();
        b.height += blocks;
        b.time = b.time.plus_seconds(secs);
        self.app.set_block(b.clone());
        // run the end-of-block staking queue at the new time as well
        self.app.set_block(b);
    }
}

pub fn coin(a: u128, d: &str) -> Coin {
    Coin { denom: d.to_string(), amount: Uint128::new(a) }
}
pub fn coins(a: u128, d: &str) -> Vec<Coin> {
    if a == 0 {
        vec![]
    } else {
        vec![coin(a, d)]
    }
}
thread_local! { static IN_CONTRACT: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
pub fn guarded<T>(f: impl FnOnce() -> T) -> std::thread::Result<T> {
    let old = IN_CONTRACT.with(|c| c.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_CONTRACT.with(|c| c.set(old));
    r
}
pub fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    let s = p
        .downcast_ref::<String>()
        .cloned()
        .or_else(|| p.downcast_ref::<&str>().map(|x| x.to_string()))
        .unwrap_or_default();
    format!("panic: {}", s)
}
/// A contract panic aborts its transaction on chain; here it is caught and reported as an error.
pub fn quiet_panics() {
    use std::sync::Once;
    static ONCE: Once = Once::new();
    ONCE.call_once(|| {
        if std::env::var("MC_LOUD").is_err() {
            let prev = std::panic::take_hook();
            std::panic::set_hook(Box::new(move |i| {
                if !IN_CONTRACT.with(|c| c.get()) {
                    prev(i)
                }
            }));
        }
    });
}
