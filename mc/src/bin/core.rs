//! C01 authority over the DAO core, C02 consistency of its registries.
use cosmwasm_std::{BankMsg, CosmosMsg, Uint128, WasmMsg};
use cw_utils::Duration;
use dao_interface::msg::{ExecuteMsg, InitialItem, InstantiateMsg, QueryMsg};
use dao_interface::query::{
    AdminNominationResponse, Cw20BalanceResponse, DaoURIResponse, DumpStateResponse, GetItemResponse, PauseInfoResponse,
    ProposalModuleCountResponse, SubDao,
};
use dao_interface::state::{Config, ProposalModule, ProposalModuleStatus};
use mc::main_util::{run_main, Entry, PropertyPlan};
use mc::mocks::*;
use mc::sim::{coins, Sim};
use mc::until::Until;
use mc::{ensure, same, Harness, VResult};
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};

const C1: &[&str] = &["C01"];
const C2: &[&str] = &["C02"];
const C12: &[&str] = &["C01", "C02"];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Who {
    Core,
    Adm,
    Nom,
    Eve,
    Voting,
    Mod(usize),
    Token(usize),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Target {
    Mod(usize),
    Unknown,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Dur {
    Blocks(u64),
    Secs(u64),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Call {
    AdminMsgs(Body),
    Hook(Body),
    Pause(Dur),
    Unpause,
    Set(u8, u8),
    Del(u8),
    Config(u8, bool, bool),
    Cw20(Vec<u8>, Vec<u8>),
    Nft(Vec<u8>, Vec<u8>),
    Sub(Vec<(u8, Option<u8>)>, Vec<u8>),
    Vote,
    Mods(u8, Vec<Target>),
    Nominate(Option<Who>),
    Accept,
    Withdraw,
    Receive,
    ReceiveNft,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Body {
    /// a bank payment out of the treasury and a call to a target contract
    Pay,
    /// the DAO calls itself, in order
    Own(Vec<Call>),
    /// the same, followed by a failing message
    OwnThenFail(Vec<Call>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Do(Who, Call),
    Tick,
    NewDao { items: Vec<(u8, u8)>, modules: u8, admin: bool },
}

#[derive(Clone, Debug, PartialEq, Hash)]
struct M {
    admin: Who,
    nominee: Option<Who>,
    paused: Option<Until>,
    /// address, enabled
    mods: Vec<(String, bool)>,
    items: BTreeMap<String, String>,
    cfg: (u8, bool, bool),
    cw20: BTreeSet<String>,
    nft: BTreeSet<String>,
    subs: BTreeMap<String, Option<String>>,
    voting: Vec<String>,
    paid: u128,
    now: (u64, u64),
    fresh: bool,
}
struct W {
    sim: Sim,
    core: String,
    code: u64,
    vcode: u64,
    core_code: u64,
    target: String,
    tokens: Vec<String>,
    nfts: Vec<String>,
}
struct H {
    props: &'static [&'static str],
    admin: bool,
    mods: usize,
    actors: Vec<Who>,
    calls: Vec<Call>,
    /// actors whose accepted calls are explored further (all others are still probed everywhere)
    walk: Vec<Who>,
    /// probe every (actor, call) pair the reference refuses in every distinct state
    probe: bool,
    pages: bool,
    births: bool,
    ticks: bool,
    /// tokens of each kind that exist
    tokens: usize,
}

fn cfg_of(c: (u8, bool, bool)) -> Config {
    Config {
        name: format!("dao{}", c.0),
        description: format!("d{}", c.0),
        image_url: if c.0 == 1 { Some("img".into()) } else { None },
        automatically_add_cw20s: c.1,
        automatically_add_cw721s: c.2,
        dao_uri: if c.0 == 2 { Some("uri".into()) } else { None },
    }
}
fn key(k: u8) -> String {
    // keys that are prefixes of one another and not in length order
    ["a", "aa", "b", "B", "ab"].get(k as usize).map(|s| s.to_string()).unwrap_or(format!("k{}", k))
}
fn sub_addr(k: u8) -> String {
    ["subdao", "sub", "subz"].get(k as usize).map(|s| s.to_string()).unwrap_or(format!("sub{}", k))
}
fn prefix(i: usize) -> String {
    // bijective base 26
    let mut n = i + 1;
    let mut s = vec![];
    while n > 0 {
        n -= 1;
        s.insert(0, b'A' + (n % 26) as u8);
        n /= 26;
    }
    String::from_utf8(s).unwrap()
}
fn num(a: &str) -> u64 {
    a.trim_start_matches(|c: char| !c.is_ascii_digit()).parse().unwrap()
}
fn duration(d: Dur) -> Duration {
    match d {
        Dur::Blocks(n) => Duration::Height(n),
        Dur::Secs(n) => Duration::Time(n),
    }
}

impl H {
    fn addr(w: &W, m: &M, who: Who) -> String {
        match who {
            Who::Core => w.core.clone(),
            Who::Adm => "adm".into(),
            Who::Nom => "nom".into(),
            Who::Eve => "eve".into(),
            Who::Voting => m.voting.last().unwrap().clone(),
            Who::Mod(i) => m.mods.get(i).map(|x| x.0.clone()).unwrap_or("nomodule".into()),
            Who::Token(i) => w.tokens[i].clone(),
        }
    }
    fn token(w: &W, i: u8) -> String {
        // 0,1 are cw20 tokens; 9 is not a token at all
        w.tokens.get(i as usize).cloned().unwrap_or(w.target.clone())
    }
    fn nft(w: &W, i: u8) -> String {
        w.nfts.get(i as usize).cloned().unwrap_or(w.target.clone())
    }
    fn target(m: &M, t: Target) -> String {
        match t {
            Target::Mod(i) => m.mods.get(i).map(|x| x.0.clone()).unwrap_or("nomodule".into()),
            Target::Unknown => "eve".into(),
        }
    }
    fn body(w: &W, m: &M, b: &Body) -> Vec<CosmosMsg> {
        let own = |cs: &Vec<Call>| -> Vec<CosmosMsg> {
            cs.iter()
                .map(|c| {
                    WasmMsg::Execute {
                        contract_addr: w.core.clone(),
                        msg: cosmwasm_std::to_json_binary(&Self::msg(w, m, c)).unwrap(),
                        funds: vec![],
                    }
                    .into()
                })
                .collect()
        };
        match b {
            Body::Pay => vec![BankMsg::Send { to_address: "payee".into(), amount: coins(1, "ucosm") }.into(), hit(&w.target, 1)],
            Body::Own(cs) => own(cs),
            Body::OwnThenFail(cs) => {
                let mut v = own(cs);
                v.push(boom(&w.target));
                v
            }
        }
    }
    fn msg(w: &W, m: &M, c: &Call) -> ExecuteMsg {
        let list = |v: &Vec<u8>, f: fn(&W, u8) -> String| v.iter().map(|i| f(w, *i)).collect::<Vec<_>>();
        match c {
            Call::AdminMsgs(b) => ExecuteMsg::ExecuteAdminMsgs { msgs: Self::body(w, m, b) },
            Call::Hook(b) => ExecuteMsg::ExecuteProposalHook { msgs: Self::body(w, m, b) },
            Call::Pause(d) => ExecuteMsg::Pause {
                duration: duration(*d),
            },
            Call::Unpause => ExecuteMsg::Unpause {},
            Call::Set(k, v) => ExecuteMsg::SetItem { key: key(*k), value: format!("v{}", v) },
            Call::Del(k) => ExecuteMsg::RemoveItem { key: key(*k) },
            Call::Config(n, a, b) => ExecuteMsg::UpdateConfig { config: cfg_of((*n, *a, *b)) },
            Call::Cw20(a, r) => ExecuteMsg::UpdateCw20List { to_add: list(a, Self::token), to_remove: list(r, Self::token) },
            Call::Nft(a, r) => ExecuteMsg::UpdateCw721List { to_add: list(a, Self::nft), to_remove: list(r, Self::nft) },
            Call::Sub(a, r) => ExecuteMsg::UpdateSubDaos {
                to_add: a.iter().map(|(k, c)| SubDao { addr: sub_addr(*k), charter: c.map(|c| format!("c{}", c)) }).collect(),
                to_remove: r.iter().map(|k| sub_addr(*k)).collect(),
            },
            Call::Vote => ExecuteMsg::UpdateVotingModule { module: mii(w.vcode, &json!({"powers": {"alice": "1"}}), "voting") },
            Call::Mods(n, d) => ExecuteMsg::UpdateProposalModules {
                to_add: (0..*n).map(|_| mii(w.code, &json!({}), "mod")).collect(),
                to_disable: d.iter().map(|t| Self::target(m, *t)).collect(),
            },
            Call::Nominate(n) => ExecuteMsg::NominateAdmin { admin: n.map(|n| Self::addr(w, m, n)) },
            Call::Accept => ExecuteMsg::AcceptAdminNomination {},
            Call::Withdraw => ExecuteMsg::WithdrawAdminNomination {},
            Call::Receive => ExecuteMsg::Receive(cw20::Cw20ReceiveMsg { sender: "eve".into(), amount: Uint128::new(1), msg: Default::default() }),
            Call::ReceiveNft => {
                ExecuteMsg::ReceiveNft(cw721::Cw721ReceiveMsg { sender: "eve".into(), token_id: "1".into(), msg: Default::default() })
            }
        }
    }
    /// Reference: the effect of `call` by `who`, or None when it must be refused.
    fn apply(w: &W, m: &M, who: Who, call: &Call) -> Option<M> {
        let mut n = m.clone();
        n.fresh = false;
        let sender = Self::addr(w, m, who);
        let is_core = sender == w.core;
        let is_admin = sender == Self::addr(w, m, m.admin);
        let is_paused = m.paused.as_ref().map(|e| !e.expired(m.now)).unwrap_or(false);
        if is_paused && !is_core && !is_admin {
            return None;
        }
        let need = |b: bool| if b { Some(()) } else { None };
        match call {
            Call::AdminMsgs(b) => {
                need(is_admin)?;
                n = Self::run(w, n, b)?;
            }
            Call::Hook(b) => {
                need(m.mods.iter().any(|x| x.0 == sender && x.1))?;
                n = Self::run(w, n, b)?;
            }
            Call::Pause(d) => {
                need(is_core)?;
                n.paused = Some(Until::after(&duration(*d), m.now));
            }
            Call::Unpause => {
                need(is_admin)?;
                n.paused = None;
            }
            Call::Set(k, v) => {
                need(is_core)?;
                n.items.insert(key(*k), format!("v{}", v));
            }
            Call::Del(k) => {
                need(is_core)?;
                n.items.remove(&key(*k))?;
            }
            Call::Config(a, b, c) => {
                need(is_core)?;
                n.cfg = (*a, *b, *c);
            }
            Call::Cw20(a, r) => {
                need(is_core)?;
                for i in a {
                    need((*i as usize) < w.tokens.len())?;
                    n.cw20.insert(Self::token(w, *i));
                }
                for i in r {
                    n.cw20.remove(&Self::token(w, *i));
                }
            }
            Call::Nft(a, r) => {
                need(is_core)?;
                for i in a {
                    need((*i as usize) < w.nfts.len())?;
                    n.nft.insert(Self::nft(w, *i));
                }
                for i in r {
                    n.nft.remove(&Self::nft(w, *i));
                }
            }
            Call::Sub(a, r) => {
                need(is_core)?;
                for k in r {
                    n.subs.remove(&sub_addr(*k));
                }
                for (k, c) in a {
                    n.subs.insert(sub_addr(*k), c.map(|c| format!("c{}", c)));
                }
            }
            Call::Vote => {
                need(is_core)?;
                n.voting.push(String::new());
            }
            Call::Mods(add, dis) => {
                need(is_core)?;
                for t in dis {
                    let a = Self::target(m, *t);
                    let x = n.mods.iter_mut().find(|x| x.0 == a)?;
                    need(x.1)?;
                    x.1 = false;
                }
                for _ in 0..*add {
                    n.mods.push((String::new(), true));
                }
                need(n.mods.iter().any(|x| x.1))?;
            }
            Call::Nominate(x) => {
                need(is_admin && m.nominee.is_none())?;
                match x {
                    Some(x) => n.nominee = Some(*x),
                    None => n.admin = Who::Core,
                }
            }
            Call::Accept => {
                let nm = m.nominee?;
                need(Self::addr(w, m, nm) == sender)?;
                n.nominee = None;
                n.admin = nm;
            }
            Call::Withdraw => {
                need(is_admin)?;
                m.nominee?;
                n.nominee = None;
            }
            Call::Receive => {
                if m.cfg.1 {
                    n.cw20.insert(sender);
                }
            }
            Call::ReceiveNft => {
                if m.cfg.2 {
                    n.nft.insert(sender);
                }
            }
        }
        Some(n)
    }
    fn run(w: &W, mut n: M, b: &Body) -> Option<M> {
        match b {
            Body::Pay => {
                n.paid += 1;
                Some(n)
            }
            Body::Own(cs) => {
                for c in cs {
                    n = Self::apply(w, &n, Who::Core, c)?;
                }
                Some(n)
            }
            Body::OwnThenFail(_) => None,
        }
    }
    fn modules(w: &W) -> Vec<ProposalModule> {
        w.sim.query(&w.core, &QueryMsg::ProposalModules { start_after: None, limit: None }).unwrap()
    }
    /// Give names to modules the code just created (creation order is address-number order).
    fn learn(&self, w: &W, m: &mut M) -> VResult {
        if m.mods.iter().any(|x| x.0.is_empty()) {
            let known: BTreeSet<String> = m.mods.iter().map(|x| x.0.clone()).collect();
            let mut new: Vec<String> = Self::modules(w).into_iter().map(|x| x.address.to_string()).filter(|a| !known.contains(a)).collect();
            new.sort_by_key(|a| num(a));
            let holes = m.mods.iter().filter(|x| x.0.is_empty()).count();
            same!(new.len(), holes, self.props, "modules-added", "number of new modules");
            let mut it = new.into_iter();
            for x in m.mods.iter_mut().filter(|x| x.0.is_empty()) {
                x.0 = it.next().unwrap();
            }
        }
        if m.voting.last().map(|s| s.is_empty()).unwrap_or(false) {
            let v: String = w.sim.query(&w.core, &QueryMsg::VotingModule {}).unwrap();
            ensure!(!m.voting.contains(&v), self.props, "voting-replaced", "voting module still {}", v);
            let dao: String = w.sim.query(&v, &json!({"dao": {}})).unwrap();
            same!(dao, w.core, self.props, "voting-parent", "new voting module's creator");
            *m.voting.last_mut().unwrap() = v;
        }
        Ok(())
    }
    fn mod_list(m: &M) -> Vec<ProposalModule> {
        let mut v: Vec<ProposalModule> = m
            .mods
            .iter()
            .enumerate()
            .map(|(i, x)| ProposalModule {
                address: cosmwasm_std::Addr::unchecked(&x.0),
                prefix: prefix(i),
                status: if x.1 { ProposalModuleStatus::Enabled } else { ProposalModuleStatus::Disabled },
            })
            .collect();
        v.sort_by(|a, b| a.address.cmp(&b.address));
        v
    }
    fn page<T: Clone>(all: &[(String, T)], after: &Option<String>, limit: Option<u32>, desc: bool) -> Vec<T> {
        all.iter()
            .filter(|x| match after {
                None => true,
                Some(a) => {
                    if desc {
                        x.0 < *a
                    } else {
                        x.0 > *a
                    }
                }
            })
            .take(limit.unwrap_or(u32::MAX) as usize)
            .map(|x| x.1.clone())
            .collect()
    }
    fn pages(&self, w: &mut W, m: &M) -> VResult {
        let mods: Vec<(String, ProposalModule)> = Self::mod_list(m).into_iter().map(|x| (x.address.to_string(), x)).collect();
        let active: Vec<_> = mods.iter().filter(|x| x.1.status == ProposalModuleStatus::Enabled).cloned().collect();
        let items: Vec<(String, (String, String))> = m.items.iter().rev().map(|(k, v)| (k.clone(), (k.clone(), v.clone()))).collect();
        let cw20: Vec<(String, String)> = m.cw20.iter().rev().map(|k| (k.clone(), k.clone())).collect();
        let nft: Vec<(String, String)> = m.nft.iter().rev().map(|k| (k.clone(), k.clone())).collect();
        let subs: Vec<(String, SubDao)> =
            m.subs.iter().map(|(k, c)| (k.clone(), SubDao { addr: k.clone(), charter: c.clone() })).collect();
        let lims = [None, Some(0), Some(1), Some(2), Some(30)];
        fn cursors<T>(all: &[(String, T)], extra: &[&str]) -> Vec<Option<String>> {
            let mut v: Vec<Option<String>> = vec![None];
            if all.len() > 8 {
                v.push(Some(all[0].0.clone()));
                v.push(Some(all[all.len() / 2].0.clone()));
                v.push(Some(all[all.len() - 1].0.clone()));
            } else {
                v.extend(all.iter().map(|x| Some(x.0.clone())));
            }
            v.extend(extra.iter().map(|x| Some(x.to_string())));
            v
        }
        for limit in lims {
            for sa in cursors(&mods, &["contract2", "eve"]) {
                let r: Vec<ProposalModule> = w.sim.query(&w.core, &QueryMsg::ProposalModules { start_after: sa.clone(), limit }).unwrap();
                same!(r, Self::page(&mods, &sa, limit, false), C2, "page-modules", "ProposalModules after {:?} limit {:?}", sa, limit);
                let r: Vec<ProposalModule> = w.sim.query(&w.core, &QueryMsg::ActiveProposalModules { start_after: sa.clone(), limit }).unwrap();
                same!(r, Self::page(&active, &sa, limit, false), C2, "page-active", "ActiveProposalModules after {:?} limit {:?}", sa, limit);
            }
            for sa in cursors(&items, &["aaa", "z"]) {
                let r: Vec<(String, String)> = w.sim.query(&w.core, &QueryMsg::ListItems { start_after: sa.clone(), limit }).unwrap();
                same!(r, Self::page(&items, &sa, limit, true), C2, "page-items", "ListItems after {:?} limit {:?}", sa, limit);
            }
            for sa in cursors(&cw20, &["contract3", "zzz"]) {
                let r: Vec<String> = w.sim.query(&w.core, &QueryMsg::Cw20TokenList { start_after: sa.clone(), limit }).unwrap();
                let e = Self::page(&cw20, &sa, limit, true);
                same!(r, e, C2, "page-cw20", "Cw20TokenList after {:?} limit {:?}", sa, limit);
                if m.cw20.iter().all(|t| w.tokens.contains(t)) {
                    let r: Vec<Cw20BalanceResponse> = w.sim.query(&w.core, &QueryMsg::Cw20Balances { start_after: sa.clone(), limit }).unwrap();
                    let e: Vec<Cw20BalanceResponse> = e
                        .iter()
                        .map(|t| Cw20BalanceResponse { addr: cosmwasm_std::Addr::unchecked(t), balance: Uint128::new(w.sim.cw20(t, &w.core)) })
                        .collect();
                    same!(r, e, C2, "page-balances", "Cw20Balances after {:?} limit {:?}", sa, limit);
                }
            }
            for sa in cursors(&nft, &["contract3", "zzz"]) {
                let r: Vec<String> = w.sim.query(&w.core, &QueryMsg::Cw721TokenList { start_after: sa.clone(), limit }).unwrap();
                same!(r, Self::page(&nft, &sa, limit, true), C2, "page-cw721", "Cw721TokenList after {:?} limit {:?}", sa, limit);
            }
            for sa in cursors(&subs, &["suba", "aaa"]) {
                let r: Vec<SubDao> = w.sim.query(&w.core, &QueryMsg::ListSubDaos { start_after: sa.clone(), limit }).unwrap();
                same!(r, Self::page(&subs, &sa, limit, false), C2, "page-subdaos", "ListSubDaos after {:?} limit {:?}", sa, limit);
            }
        }
        for k in (0..5).chain(if m.items.len() > 5 { 5..40 } else { 0..0 }) {
            let r: GetItemResponse = w.sim.query(&w.core, &QueryMsg::GetItem { key: key(k) }).unwrap();
            same!(r.item, m.items.get(&key(k)).cloned(), C2, "item", "item {:?}", key(k));
        }
        Ok(())
    }
}

impl Harness for H {
    type World = W;
    type Model = M;
    type Op = Op;
    fn setup(&self) -> (W, M) {
        let mut sim = Sim::new();
        let code = sim.store(puppet());
        let vcode = sim.store(power_table());
        let t = sim.store(cw20_code());
        let n = sim.store(cw721_code());
        let target = sim.init(code, "env", &json!({}), &[], "target").unwrap().to_string();
        let tokens: Vec<String> = (0..self.tokens)
            .map(|i| {
                sim.init(
                    t,
                    "env",
                    &json!({"name": "token", "symbol": "TOK", "decimals": 6, "initial_balances": [{"address": "eve", "amount": (100 + i).to_string()}]}),
                    &[],
                    "t",
                )
                .unwrap()
                .to_string()
            })
            .collect();
        let nfts: Vec<String> = (0..self.tokens)
            .map(|_| sim.init(n, "env", &json!({"name": "n", "symbol": "N", "minter": "env"}), &[], "n").unwrap().to_string())
            .collect();
        let mods = (0..self.mods).map(|_| mii(code, &json!({}), "mod")).collect();
        let dao = new_dao(&mut sim, power_module(vcode, &[("alice", 1)]), mods, if self.admin { Some("adm".into()) } else { None });
        // the builder always stores the core code under a new id
        let core_code = sim.store(core_code());
        sim.mint(dao.core.as_str(), 100, "ucosm");
        for t in &tokens {
            sim.exec("eve", t, &json!({"transfer": {"recipient": dao.core, "amount": "7"}}), &[]).unwrap();
        }
        sim.seal();
        let mut addrs: Vec<String> = dao.proposals.iter().map(|a| a.to_string()).collect();
        addrs.sort_by_key(|a| num(a));
        let m = M {
            admin: if self.admin { Who::Adm } else { Who::Core },
            nominee: None,
            paused: None,
            mods: addrs.into_iter().map(|a| (a, true)).collect(),
            items: BTreeMap::new(),
            cfg: (9, true, true),
            cw20: BTreeSet::new(),
            nft: BTreeSet::new(),
            subs: BTreeMap::new(),
            voting: vec![dao.voting.to_string()],
            paid: 0,
            now: (sim.height(), sim.time()),
            fresh: true,
        };
        (W { sim, core: dao.core.to_string(), code, vcode, core_code, target, tokens, nfts }, m)
    }
    fn sim<'a>(&self, w: &'a mut W) -> &'a mut Sim {
        &mut w.sim
    }
    fn ops(&self, m: &M) -> Vec<Op> {
        let mut v = vec![];
        for a in &self.walk {
            if let Who::Mod(i) = a {
                if *i >= m.mods.len() {
                    continue;
                }
            }
            for c in &self.calls {
                v.push(Op::Do(*a, c.clone()));
            }
        }
        if self.ticks {
            v.push(Op::Tick);
        }
        if self.births && m.fresh {
            for items in [vec![], vec![(0, 1), (1, 2)], vec![(0, 1), (2, 0), (0, 1)], vec![(0, 1), (0, 2)]] {
                for modules in 0..3 {
                    for admin in [false, true] {
                        v.push(Op::NewDao { items: items.clone(), modules, admin });
                    }
                }
            }
        }
        v
    }
    fn step(&self, w: &mut W, m: &mut M, op: &Op) -> VResult<String> {
        match op {
            Op::Tick => {
                w.sim.advance(1, 5);
                m.now = (w.sim.height(), w.sim.time());
                Ok("tick".into())
            }
            Op::Do(who, c) => {
                let expect = Self::apply(w, m, *who, c);
                let sender = Self::addr(w, m, *who);
                let msg = Self::msg(w, m, c);
                let r = w.sim.exec(&sender, &w.core.clone(), &msg, &[]);
                let tag = format!("{:?}", c).split(|ch: char| !ch.is_alphanumeric()).next().unwrap().to_string();
                match (&r, expect) {
                    (Ok(_), Some(n)) => {
                        *m = n;
                        self.learn(w, m)?;
                        Ok(format!("{} accepted", tag))
                    }
                    (Err(_), None) => Ok(format!("{} refused", tag)),
                    (Ok(_), None) => Err(mc::Violation::new(self.props, format!("{}-accepted", tag), format!("{:?} by {:?} must be refused", c, who))),
                    (Err(e), Some(_)) => {
                        Err(mc::Violation::new(self.props, format!("{}-refused", tag), format!("{:?} by {:?} must be accepted: {}", c, who, e)))
                    }
                }
            }
            Op::NewDao { items, modules, admin } => {
                let keys: BTreeSet<u8> = items.iter().map(|x| x.0).collect();
                let ok = *modules > 0 && keys.len() == items.len();
                let r = w.sim.init(
                    w.core_code,
                    "creator",
                    &InstantiateMsg {
                        admin: if *admin { Some("adm".into()) } else { None },
                        name: "n".into(),
                        description: "d".into(),
                        image_url: None,
                        automatically_add_cw20s: false,
                        automatically_add_cw721s: true,
                        voting_module_instantiate_info: mii(w.vcode, &json!({"powers": {"alice": "1"}}), "voting"),
                        proposal_modules_instantiate_info: (0..*modules).map(|_| mii(w.code, &json!({}), "mod")).collect(),
                        initial_items: Some(items.iter().map(|(k, v)| InitialItem { key: key(*k), value: format!("v{}", v) }).collect()),
                        dao_uri: Some("u".into()),
                    },
                    &[],
                    "second",
                );
                m.fresh = false;
                ensure!(r.is_ok() == ok, self.props, "new-dao", "creating a DAO with items {:?} and {} modules: {:?}", items, modules, r);
                if let Ok(a) = r {
                    let d: DumpStateResponse = w.sim.query(&a, &QueryMsg::DumpState {}).unwrap();
                    same!(d.admin.to_string(), if *admin { "adm".to_string() } else { a.to_string() }, C12, "new-admin", "admin of a new DAO");
                    same!(d.active_proposal_module_count, *modules as u32, C12, "new-active", "active modules");
                    same!(d.total_proposal_module_count, *modules as u32, C12, "new-total", "total modules");
                    let mut p: Vec<String> = d.proposal_modules.iter().map(|x| x.prefix.clone()).collect();
                    p.sort();
                    same!(p, (0..*modules as usize).map(prefix).collect::<Vec<_>>(), C12, "new-prefix", "prefixes");
                    let l: Vec<(String, String)> = w.sim.query(&a, &QueryMsg::ListItems { start_after: None, limit: None }).unwrap();
                    let want: BTreeMap<String, String> = items.iter().map(|(k, v)| (key(*k), format!("v{}", v))).collect();
                    same!(l, want.into_iter().rev().collect::<Vec<_>>(), C12, "new-items", "items of a new DAO");
                    let v: String = w.sim.query(&d.voting_module, &json!({"dao": {}})).unwrap();
                    same!(v, a.to_string(), C12, "new-voting", "voting module's creator");
                }
                Ok(format!("new dao {}", if ok { "created" } else { "refused" }))
            }
        }
    }
    fn invariant(&self, w: &mut W, m: &M) -> VResult {
        let q = &w.sim;
        let c = &w.core;
        let admin: String = q.query(c, &QueryMsg::Admin {}).unwrap();
        same!(admin, Self::addr(w, m, m.admin), C1, "admin", "admin");
        let n: AdminNominationResponse = q.query(c, &QueryMsg::AdminNomination {}).unwrap();
        same!(n.nomination.map(|a| a.to_string()), m.nominee.map(|x| Self::addr(w, m, x)), C1, "nominee", "nominee");
        let p: PauseInfoResponse = q.query(c, &QueryMsg::PauseInfo {}).unwrap();
        let want = match &m.paused {
            Some(e) if !e.expired(m.now) => PauseInfoResponse::Paused { expiration: e.exp() },
            _ => PauseInfoResponse::Unpaused {},
        };
        same!(p, want, C1, "pause", "pause info");
        same!(q.bal(c, "ucosm"), 100 - m.paid, C1, "treasury", "treasury");
        same!(q.bal("payee", "ucosm"), m.paid, C1, "payee", "payee");
        same!(hits(q, &w.target, 1) as u128, m.paid, C1, "target", "calls to the target");
        let s = puppet_get(q, &w.target, "senders");
        ensure!(s.is_null() || s == json!([c]), C1, "identity", "the target was called by {}", s);
        // registries
        let cfg: Config = q.query(c, &QueryMsg::Config {}).unwrap();
        let wantc = if m.cfg.0 == 9 {
            Config { name: "dao".into(), description: "d".into(), image_url: None, automatically_add_cw20s: true, automatically_add_cw721s: true, dao_uri: None }
        } else {
            cfg_of(m.cfg)
        };
        same!(cfg, wantc, C12, "config", "config");
        let u: DaoURIResponse = q.query(c, &QueryMsg::DaoURI {}).unwrap();
        same!(u.dao_uri, wantc.dao_uri, C12, "uri", "dao uri");
        let mods = Self::mod_list(m);
        let d: DumpStateResponse = q.query(c, &QueryMsg::DumpState {}).unwrap();
        same!(d.proposal_modules, mods, C12, "modules", "modules in the dump");
        same!(d.config, wantc, C12, "dump-config", "config in the dump");
        same!(d.admin.to_string(), admin, C12, "dump-admin", "admin in the dump");
        same!(d.pause_info, p, C12, "dump-pause", "pause info in the dump");
        same!(d.voting_module.to_string(), *m.voting.last().unwrap(), C12, "voting", "voting module");
        let act = mods.iter().filter(|x| x.status == ProposalModuleStatus::Enabled).count() as u32;
        ensure!(act > 0, C12, "no-active", "no active module");
        let k: ProposalModuleCountResponse = q.query(c, &QueryMsg::ProposalModuleCount {}).unwrap();
        same!((k.active_proposal_module_count, k.total_proposal_module_count), (act, mods.len() as u32), C12, "counts", "module counts");
        same!(
            (d.active_proposal_module_count, d.total_proposal_module_count),
            (act, mods.len() as u32),
            C12,
            "dump-counts",
            "module counts in the dump"
        );
        let items: Vec<(String, String)> = q.query(c, &QueryMsg::ListItems { start_after: None, limit: None }).unwrap();
        same!(items, m.items.clone().into_iter().rev().collect::<Vec<_>>(), C12, "items", "items");
        let l: Vec<String> = q.query(c, &QueryMsg::Cw20TokenList { start_after: None, limit: None }).unwrap();
        same!(l, m.cw20.iter().rev().cloned().collect::<Vec<_>>(), C12, "cw20s", "tracked cw20s");
        let l: Vec<String> = q.query(c, &QueryMsg::Cw721TokenList { start_after: None, limit: None }).unwrap();
        same!(l, m.nft.iter().rev().cloned().collect::<Vec<_>>(), C12, "cw721s", "tracked cw721s");
        let l: Vec<SubDao> = q.query(c, &QueryMsg::ListSubDaos { start_after: None, limit: None }).unwrap();
        let want: Vec<SubDao> = m.subs.iter().map(|(k, c)| SubDao { addr: k.clone(), charter: c.clone() }).collect();
        same!(l, want, C12, "subdaos", "sub-DAOs");
        Ok(())
    }
    fn on_new_state(&self, w: &mut W, m: &M) -> VResult {
        if self.pages {
            self.pages(w, m)?;
        }
        if self.probe {
            for a in &self.actors {
                for c in &self.calls {
                    if Self::apply(w, m, *a, c).is_none() {
                        let s = Self::addr(w, m, *a);
                        let msg = Self::msg(w, m, c);
                        let r = w.sim.exec(&s, &w.core.clone(), &msg, &[]);
                        ensure!(r.is_err(), self.props, "probe-accepted", "{:?} by {:?} must be refused", c, a);
                    }
                }
            }
        }
        Ok(())
    }
}

fn full_calls() -> Vec<Call> {
    use Call::*;
    let own = vec![Set(0, 2)];
    vec![
        AdminMsgs(Body::Pay),
        AdminMsgs(Body::Own(vec![Set(0, 1), Pause(Dur::Blocks(1))])),
        Hook(Body::Pay),
        Hook(Body::Own(vec![Set(0, 1), Set(0, 0)])),
        Hook(Body::OwnThenFail(own.clone())),
        Hook(Body::Own(vec![Mods(0, vec![Target::Mod(1)]), Nominate(Some(Who::Nom))])),
        AdminMsgs(Body::OwnThenFail(own)),
        Pause(Dur::Blocks(2)),
        Pause(Dur::Secs(6)),
        Unpause,
        Set(0, 1),
        Del(0),
        Config(1, false, true),
        Cw20(vec![0], vec![]),
        Nft(vec![0], vec![]),
        Sub(vec![(0, None)], vec![]),
        Vote,
        Mods(1, vec![]),
        Mods(0, vec![Target::Mod(0)]),
        Mods(1, vec![Target::Mod(0), Target::Mod(1)]),
        Nominate(Some(Who::Nom)),
        Nominate(None),
        Accept,
        Withdraw,
        Receive,
        ReceiveNft,
    ]
}
fn plan(prop: &str, th: bool) -> Option<PropertyPlan> {
    use Call::*;
    let q = |a: usize, b: usize| if th { b } else { a };
    let assumptions = vec![
        "the chain executes transactions atomically and in order (cw-multi-test semantics)",
        "modules are scriptable stand-ins created by the DAO itself; the sender address alone identifies a caller, as on chain",
    ];
    let actors = vec![Who::Core, Who::Adm, Who::Nom, Who::Eve, Who::Voting, Who::Mod(0), Who::Mod(1), Who::Mod(2), Who::Token(0)];
    Some(match prop {
        "C01" => {
            let mut entries = vec![];
            for admin in [true, false] {
                let t = if admin { "admin" } else { "no-admin" };
                entries.push(Entry::new(
                    format!("everything-{}", t),
                    H { props: C1, admin, mods: 2, actors: actors.clone(), calls: full_calls(), walk: actors.clone(), probe: false, pages: false, births: admin, ticks: true, tokens: 2 },
                    q(3, 4),
                ));
                entries.push(Entry::new(
                    format!("refusals-{}", t),
                    H {
                        props: C1,
                        admin,
                        mods: 2,
                        actors: actors.clone(),
                        calls: full_calls(),
                        walk: vec![Who::Core, Who::Adm, Who::Nom, Who::Mod(0)],
                        probe: true,
                        pages: false,
                        births: false,
                        ticks: true,
                        tokens: 2,
                    },
                    q(2, 3),
                ));
                let calls = vec![
                    AdminMsgs(Body::Pay),
                    Hook(Body::Pay),
                    Hook(Body::Own(vec![Pause(Dur::Blocks(2))])),
                    AdminMsgs(Body::Own(vec![Pause(Dur::Secs(6))])),
                    Hook(Body::Own(vec![Nominate(Some(Who::Adm))])),
                    Unpause,
                    Nominate(Some(Who::Nom)),
                    Nominate(None),
                    Accept,
                    Withdraw,
                    Mods(0, vec![Target::Mod(0)]),
                ];
                entries.push(Entry::new(
                    format!("pause-and-admin-{}", t),
                    H {
                        props: C1,
                        admin,
                        mods: 2,
                        actors: actors.clone(),
                        calls,
                        walk: vec![Who::Core, Who::Adm, Who::Nom, Who::Mod(0), Who::Mod(1)],
                        probe: true,
                        pages: false,
                        births: false,
                        ticks: true,
                        tokens: 2,
                    },
                    q(6, 9),
                ));
            }
            PropertyPlan {
                entries,
                rule: "breadth-first over all histories of every DAO message by every kind of caller, blocks passing in between; in every distinct state every refused (caller, message) pair is tried as well",
                assumptions,
            }
        }
        "C02" => {
            let mut entries = vec![];
            let mk = |calls: Vec<Call>, mods: usize| H {
                props: C2,
                admin: true,
                mods,
                actors: vec![Who::Core],
                calls,
                walk: vec![Who::Core],
                probe: false,
                pages: true,
                births: false,
                ticks: false,
                tokens: 2,
            };
            let t = Target::Mod;
            entries.push(Entry::new(
                "modules",
                mk(
                    vec![
                        Mods(1, vec![]),
                        Mods(2, vec![t(0)]),
                        Mods(0, vec![t(0)]),
                        Mods(0, vec![t(1)]),
                        Mods(0, vec![t(2)]),
                        Mods(0, vec![t(0), t(0)]),
                        Mods(0, vec![t(0), t(1)]),
                        Mods(1, vec![t(0), t(1)]),
                        Mods(1, vec![t(1), t(2)]),
                        Mods(0, vec![t(1), t(3)]),
                        Mods(0, vec![Target::Unknown]),
                        Mods(1, vec![t(0), Target::Unknown]),
                        Mods(0, vec![]),
                        Vote,
                    ],
                    2,
                ),
                q(7, 8),
            ));
            entries.push(Entry::new("module-prefixes", mk(vec![Mods(1, vec![]), Mods(2, vec![]), Mods(0, vec![t(3)]), Mods(2, vec![t(0), t(24)])], 25), q(3, 5)));
            entries.push(Entry::new("module-prefixes-many", mk(vec![Mods(1, vec![]), Mods(2, vec![]), Mods(1, vec![t(30)])], 701), q(2, 3)));
            entries.push(Entry::new(
                "items-and-subdaos",
                mk(
                    vec![
                        Set(0, 0),
                        Set(0, 1),
                        Set(1, 0),
                        Set(2, 0),
                        Set(3, 0),
                        Del(0),
                        Del(1),
                        Del(3),
                        Sub(vec![(0, None)], vec![]),
                        Sub(vec![(0, Some(1))], vec![1]),
                        Sub(vec![(1, None), (2, Some(0))], vec![]),
                        Sub(vec![(0, Some(2)), (0, None)], vec![]),
                        Sub(vec![(1, Some(2))], vec![1, 2]),
                        Sub(vec![], vec![0]),
                    ],
                    1,
                ),
                q(6, 8),
            ));
            let mut h = mk(
                vec![
                    Cw20(vec![0], vec![]),
                    Cw20(vec![1], vec![0]),
                    Cw20(vec![0, 1], vec![1]),
                    Cw20(vec![], vec![0]),
                    Cw20(vec![0, 9], vec![1]),
                    Nft(vec![0], vec![]),
                    Nft(vec![1, 0], vec![1]),
                    Nft(vec![], vec![0]),
                    Nft(vec![9], vec![]),
                    Nft(vec![1], vec![0]),
                    Config(0, true, true),
                    Config(1, false, true),
                    Config(2, true, false),
                    Receive,
                    ReceiveNft,
                ],
                1,
            );
            h.walk = vec![Who::Core, Who::Token(0), Who::Token(1), Who::Eve];
            entries.push(Entry::new("token-lists", h, q(6, 6)));
            // registries and single updates far longer than a page
            let r = |a: u8, b: u8| (a..b).collect::<Vec<u8>>();
            let subs = |a: u8, b: u8, c: Option<u8>| (a..b).map(|k| (k, c)).collect::<Vec<_>>();
            let mut h = mk(
                vec![
                    Cw20(r(0, 36), vec![]),
                    Cw20(vec![], r(1, 37)),
                    Cw20(r(2, 37), r(0, 36)),
                    Cw20(vec![200, 0], vec![]),
                    Nft(r(0, 36), vec![]),
                    Nft(vec![], r(1, 37)),
                    Nft(r(2, 37), r(0, 36)),
                    Nft(vec![39], vec![38]),
                    Sub(subs(0, 36, None), vec![]),
                    Sub(subs(1, 37, Some(1)), r(0, 36)),
                    Sub(vec![], r(1, 37)),
                    Hook(Body::Own((0..36).map(|k| Set(k, 1)).collect())),
                    AdminMsgs(Body::Own((1..37).map(Del).collect())),
                ],
                1,
            );
            h.walk = vec![Who::Core, Who::Adm, Who::Mod(0)];
            h.tokens = 40;
            entries.push(Entry::new("many-of-everything", h, q(4, 5)));
            entries.push(Entry::new(
                "modules-many-at-once",
                mk(
                    vec![
                        Mods(36, vec![]),
                        Mods(0, (0..36).map(t).collect()),
                        Mods(1, (0..37).map(t).collect()),
                        Mods(0, (1..37).map(t).collect()),
                        Mods(0, (2..38).chain([2]).map(t).collect()),
                        Mods(1, (2..38).map(t).chain([Target::Unknown]).collect()),
                    ],
                    2,
                ),
                q(3, 4),
            ));
            let mut h = mk(vec![Set(0, 0)], 1);
            h.pages = false;
            h.births = true;
            entries.push(Entry::new("creation", h, q(2, 2)));
            PropertyPlan {
                entries,
                rule: "breadth-first over all histories of registry updates against plain tables; every listing under every cursor and page size in every distinct state",
                assumptions,
            }
        }
        _ => return None,
    })
}
fn main() {
    run_main(plan)
}
