//! V01 historical voting power, V02 custody of staked assets, V03 active threshold, V04 stake hooks;
//! for every voting module, on the real DAO core with a real proposal module.
use cosmwasm_std::{to_json_binary, Decimal, Uint128};
use cw_utils::Duration;
use mc::main_util::{run_main, Entry, PropertyPlan};
use mc::mocks::*;
use mc::sim::{coins, Sim};
use mc::until::{Now, Until};
use mc::{ensure, same, Harness, VResult};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::str::FromStr;

const V1: &[&str] = &["V01"];
const V2: &[&str] = &["V02"];
const V3: &[&str] = &["V03"];
const V4: &[&str] = &["V04"];

const DENOM: &str = "utok";
const COLL: &str = "onfts";
const NAMES: [&str; 4] = ["ann", "bob", "cat", "eve"];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Kind {
    Token,
    Cw20,
    Cw721,
    Onft,
    Cw4,
    Roles,
}
use Kind::*;
impl Kind {
    fn fungible(self) -> bool {
        matches!(self, Token | Cw20)
    }
    fn nft(self) -> bool {
        matches!(self, Cw721 | Onft)
    }
    fn staking(self) -> bool {
        self.fungible() || self.nft()
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Dur {
    H(u64),
    T(u64),
}
impl Dur {
    fn d(self) -> Duration {
        match self {
            Dur::H(h) => Duration::Height(h),
            Dur::T(t) => Duration::Time(t),
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Th {
    Count(u64),
    /// atomics of the percentage, 18 decimals
    Pct(u64),
}
impl Th {
    fn msg(self) -> dao_voting::threshold::ActiveThreshold {
        use dao_voting::threshold::ActiveThreshold as A;
        match self {
            Th::Count(c) => A::AbsoluteCount { count: Uint128::from(c) },
            Th::Pct(p) => A::Percentage { percent: Decimal::new(Uint128::from(p)) },
        }
    }
    fn valid(self, supply: u128) -> bool {
        match self {
            Th::Count(c) => c > 0 && c as u128 <= supply,
            Th::Pct(p) => p > 0 && p <= 1_000_000_000_000_000_000,
        }
    }
    fn met(self, staked: u128, supply: u128) -> bool {
        match self {
            Th::Count(c) => staked >= c as u128,
            // staked >= ceil(supply * pct)
            Th::Pct(p) => staked >= (supply * p as u128).div_ceil(1_000_000_000_000_000_000),
        }
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Op {
    Stake(u8, u8),
    Unstake(u8, u8),
    UnstakeN(u8, Vec<u8>),
    Claim(u8),
    Period(bool, Option<Dur>),
    Donate(u8),
    Fund(u8),
    /// stake with the wrong asset, or pretend to have sent one
    Foreign(u8),
    Forge(u8),
    Transfer(u8, u8, u8),
    Prepare(u8, Vec<u8>),
    Confirm(u8, Vec<u8>),
    Cancel(u8, Vec<u8>, Option<u8>),
    DaoCancel(Vec<u8>, Option<u8>),
    Members(bool, Vec<(u8, u8)>, Vec<u8>),
    Mint(bool, u8, u8, u8),
    Burn(bool, u8),
    Weight(bool, u8, u8),
    Threshold(bool, Option<Th>),
    Supply(bool),
    Hook(bool, bool, u8),
    Fail(u8, bool),
    Tick(u8),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Loc {
    Wallet(u8),
    Staked(u8),
    Claim(u8, Until),
    Stray,
}
#[derive(Clone, Debug, PartialEq, Hash)]
struct M {
    wallet: BTreeMap<u8, u128>,
    staked: BTreeMap<u8, u128>,
    claims: BTreeMap<u8, Vec<(u128, Until)>>,
    stray: u128,
    pool: u128,
    nft: BTreeMap<u8, Loc>,
    prep: BTreeMap<u8, u8>,
    members: BTreeMap<u8, u128>,
    roles: BTreeMap<u8, (u8, u128)>,
    hist: BTreeMap<u64, BTreeMap<u8, u128>>,
    period: Option<Dur>,
    th: Option<Th>,
    extra: u64,
    hooks: Vec<u8>,
    fail: BTreeSet<u8>,
    start: u64,
    now: Now,
}
impl M {
    fn total_shares(&self) -> u128 {
        self.staked.values().sum()
    }
}
struct W {
    sim: Sim,
    core: String,
    voting: String,
    /// contract that holds stakes or memberships and runs hooks
    place: String,
    token: String,
    foreign: String,
    prop: String,
    target: String,
    subs: Vec<String>,
}
#[derive(Clone, Default)]
struct Alpha {
    members: u8,
    amounts: Vec<u8>,
    toks: Vec<(u8, u8)>,
    periods: Vec<Option<Dur>>,
    claim: bool,
    odd: bool,
    donate: bool,
    fund: bool,
    ths: Vec<Option<Th>>,
    supply: bool,
    hooks: bool,
    subscribed: bool,
    fail: bool,
    ticks: u8,
    probe: bool,
    period0: Option<Dur>,
    births: Option<&'static str>,
    authority: bool,
    /// tokens each member starts with (6 unless given)
    each: u128,
    /// operations performed before the exploration starts
    pre: Vec<Op>,
}
struct H {
    kind: Kind,
    a: Alpha,
}
fn tname(t: u8) -> String {
    // prefix-related names so that listings have something to get wrong
    ["t", "ta", "t1", "a", "t10", "z"].get(t as usize).map(|s| s.to_string()).unwrap_or_else(|| format!("n{}", t))
}
fn tid(s: &str) -> u8 {
    (0..90).find(|t| tname(*t) == s).unwrap_or(99)
}
fn wid(s: &str) -> u8 {
    NAMES.iter().position(|n| *n == s).map(|x| x as u8).unwrap_or(99)
}
fn u(v: &Value) -> u128 {
    v.as_str().map(|s| s.parse().unwrap()).or(v.as_u64().map(|x| x as u128)).unwrap_or_else(|| panic!("not a number: {}", v))
}
fn opt(d: Option<Dur>) -> Option<Duration> {
    d.map(|d| d.d())
}

impl H {
    fn power(&self, m: &M) -> BTreeMap<u8, u128> {
        let mut p: BTreeMap<u8, u128> = BTreeMap::new();
        match self.kind {
            Token | Cw20 => p = m.staked.clone(),
            Cw721 | Onft => {
                for l in m.nft.values() {
                    if let Loc::Staked(w) = l {
                        *p.entry(*w).or_insert(0) += 1
                    }
                }
            }
            Cw4 => p = m.members.clone(),
            Roles => {
                for (w, x) in m.roles.values() {
                    *p.entry(*w).or_insert(0) += x
                }
            }
        }
        p.retain(|_, x| *x > 0);
        p
    }
    fn at(&self, m: &M, h: u64) -> BTreeMap<u8, u128> {
        m.hist.range(..h).next_back().map(|x| x.1.clone()).unwrap_or_default()
    }
    fn supply(&self, m: &M) -> u128 {
        match self.kind {
            Cw721 | Onft => m.nft.len() as u128 + m.extra as u128,
            _ => m.wallet.values().sum::<u128>() + m.claims.values().flatten().map(|c| c.0).sum::<u128>() + m.stray + m.pool + m.extra as u128,
        }
    }
    fn dur_json(d: Option<Dur>) -> Value {
        serde_json::to_value(opt(d)).unwrap()
    }
    fn voting_init(&self, w: &mut Init, period: Option<Dur>, th: Option<Th>) -> dao_interface::state::ModuleInstantiateInfo {
        let at = th.map(|t| t.msg());
        let unstaking_duration = opt(period);
        match self.kind {
            Token => mii(
                w.vcode,
                &dao_voting_token_staked::msg::InstantiateMsg {
                    token_info: dao_voting_token_staked::msg::TokenInfo::Existing { denom: DENOM.into() },
                    unstaking_duration,
                    active_threshold: at,
                },
                "v",
            ),
            Cw20 => mii(
                w.vcode,
                &dao_voting_cw20_staked::msg::InstantiateMsg {
                    token_info: dao_voting_cw20_staked::msg::TokenInfo::Existing {
                        address: w.token.clone(),
                        staking_contract: dao_voting_cw20_staked::msg::StakingInfo::New { staking_code_id: w.code2, unstaking_duration },
                    },
                    active_threshold: at,
                },
                "v",
            ),
            Cw721 => mii(
                w.vcode,
                &dao_voting_cw721_staked::msg::InstantiateMsg {
                    nft_contract: dao_voting_cw721_staked::msg::NftContract::Existing { address: w.token.clone() },
                    unstaking_duration,
                    active_threshold: at,
                },
                "v",
            ),
            Onft => mii(
                w.vcode,
                &dao_voting_onft_staked::msg::InstantiateMsg {
                    onft_collection: dao_voting_onft_staked::msg::OnftCollection::Existing { id: COLL.into() },
                    unstaking_duration,
                    active_threshold: at,
                },
                "v",
            ),
            Cw4 => mii(
                w.vcode,
                &dao_voting_cw4::msg::InstantiateMsg {
                    group_contract: dao_voting_cw4::msg::GroupContract::New {
                        cw4_group_code_id: w.code2,
                        initial_members: vec![
                            cw4::Member { addr: "ann".into(), weight: 2 },
                            cw4::Member { addr: "bob".into(), weight: 1 },
                            cw4::Member { addr: "cat".into(), weight: 0 },
                        ],
                    },
                },
                "v",
            ),
            Roles => mii(
                w.vcode,
                &dao_voting_cw721_roles::msg::InstantiateMsg {
                    nft_contract: dao_voting_cw721_roles::msg::NftContract::New {
                        code_id: w.code2,
                        label: "roles".into(),
                        name: "roles".into(),
                        symbol: "R".into(),
                        initial_nfts: vec![role_mint(0, 0, 2), role_mint(1, 1, 1)],
                    },
                },
                "v",
            ),
        }
    }
    fn toks(&self) -> Vec<u8> {
        self.a.toks.iter().map(|x| x.0).collect()
    }
    fn hook_msg(&self, add: bool, addr: &str) -> Value {
        let inner = if add { json!({"add_hook": {"addr": addr}}) } else { json!({"remove_hook": {"addr": addr}}) };
        if self.kind == Roles {
            json!({"extension": {"msg": inner}})
        } else {
            inner
        }
    }
    /// instantiation with impossible thresholds is refused and with possible ones accepted
    fn births(&self, w: &mut W, init: &mut Init) -> VResult {
        let snap = w.sim.snapshot();
        if self.kind.staking() {
            let supply = self.supply_on_chain(w);
            let mut ths: Vec<Th> = vec![Th::Count(0), Th::Count(1), Th::Count(supply), Th::Count(supply + 1)];
            for p in PCTS {
                ths.push(Th::Pct(p));
            }
            for t in ths {
                let i = self.voting_init(init, None, Some(t));
                let r = w.sim.exec_msgs("dao2", vec![inst(&i)]);
                same!(r.is_ok(), t.valid(supply as u128), V3, "birth-threshold", "instantiating with threshold {:?} at supply {} ({:?})", t, supply, r.err());
            }
        }
        w.sim.restore(&snap);
        // brand-new tokens
        for (t, bals, dao) in [
            (None, vec![("ann", 3u128), ("bob", 2)], 0u128),
            (Some(Th::Count(0)), vec![("ann", 3), ("bob", 2)], 0),
            (Some(Th::Count(5)), vec![("ann", 3), ("bob", 2)], 0),
            (Some(Th::Count(6)), vec![("ann", 3), ("bob", 2)], 0),
            (Some(Th::Count(5)), vec![("ann", 3), ("bob", 2)], 4),
            (Some(Th::Count(10)), vec![("ann", 3), ("bob", 2)], 4),
            (Some(Th::Pct(0)), vec![("ann", 3)], 0),
            (Some(Th::Pct(1_000_000_000_000_000_000)), vec![("ann", 3)], 0),
            (Some(Th::Pct(1_000_000_000_000_000_001)), vec![("ann", 3)], 0),
        ] {
            let supply: u128 = bals.iter().map(|b| b.1).sum();
            let info = match self.kind {
                Cw20 => mii(
                    init.vcode,
                    &dao_voting_cw20_staked::msg::InstantiateMsg {
                        token_info: dao_voting_cw20_staked::msg::TokenInfo::New {
                            code_id: init.token_code,
                            label: "t".into(),
                            name: "tok".into(),
                            symbol: "TOK".into(),
                            decimals: 6,
                            initial_balances: bals.iter().map(|b| cw20::Cw20Coin { address: b.0.into(), amount: b.1.into() }).collect(),
                            marketing: None,
                            staking_code_id: init.code2,
                            unstaking_duration: None,
                            initial_dao_balance: if dao > 0 { Some(dao.into()) } else { None },
                        },
                        active_threshold: t.map(|t| t.msg()),
                    },
                    "v",
                ),
                Token => mii(
                    init.vcode,
                    &dao_voting_token_staked::msg::InstantiateMsg {
                        token_info: dao_voting_token_staked::msg::TokenInfo::New(dao_interface::token::NewTokenInfo {
                            token_issuer_code_id: init.code2,
                            subdenom: "tok".into(),
                            metadata: None,
                            initial_balances: bals
                                .iter()
                                .map(|b| dao_interface::token::InitialBalance { address: b.0.into(), amount: b.1.into() })
                                .collect(),
                            initial_dao_balance: if dao > 0 { Some(dao.into()) } else { None },
                        }),
                        unstaking_duration: None,
                        active_threshold: t.map(|t| t.msg()),
                    },
                    "v",
                ),
                _ => break,
            };
            let r = w.sim.exec_msgs("dao2", vec![inst(&info)]);
            let must = t.map(|t| t.valid(supply)).unwrap_or(true);
            let may = t.map(|t| t.valid(supply + dao)).unwrap_or(true);
            ensure!(r.is_ok() || !must, V3, "birth-threshold", "new token of supply {} with threshold {:?} refused: {:?}", supply, t, r.as_ref().err());
            ensure!(r.is_err() || may, V3, "birth-threshold", "new token of supply {}+{} with impossible threshold {:?} accepted", supply, dao, t);
            w.sim.restore(&snap);
        }
        // memberships given at creation sum up
        if self.kind == Cw4 || self.kind == Roles {
            for list in [
                vec![(0u8, 1u64), (1, 2)],
                vec![(0, 1), (0, 1)],
                vec![(0, 1), (1, 1), (0, 2)],
                vec![(0, 0), (1, 3)],
                vec![(0, 0)],
                vec![],
            ] {
                let info = if self.kind == Cw4 {
                    mii(
                        init.vcode,
                        &dao_voting_cw4::msg::InstantiateMsg {
                            group_contract: dao_voting_cw4::msg::GroupContract::New {
                                cw4_group_code_id: init.code2,
                                initial_members: list.iter().map(|(a, w)| cw4::Member { addr: NAMES[*a as usize].into(), weight: *w }).collect(),
                            },
                        },
                        "v",
                    )
                } else {
                    mii(
                        init.vcode,
                        &dao_voting_cw721_roles::msg::InstantiateMsg {
                            nft_contract: dao_voting_cw721_roles::msg::NftContract::New {
                                code_id: init.code2,
                                label: "roles".into(),
                                name: "roles".into(),
                                symbol: "R".into(),
                                initial_nfts: list.iter().enumerate().map(|(i, (a, w))| role_mint(i as u8, *a, *w)).collect(),
                            },
                        },
                        "v",
                    )
                };
                let a = w.sim.init(info.code_id, "dao2", &serde_json::from_slice::<Value>(&info.msg).unwrap(), &[], "v");
                if let Ok(a) = a {
                    w.sim.advance(1, 5);
                    let tot = u(&w.sim.query::<_, Value>(&a, &json!({"total_power_at_height": {}})).unwrap()["power"]);
                    let mut sum = 0;
                    for n in NAMES {
                        sum += u(&w.sim.query::<_, Value>(&a, &json!({"voting_power_at_height": {"address": n}})).unwrap()["power"]);
                    }
                    same!(tot, sum, V1, "birth-sum", "total of a module created with members {:?}", list);
                }
                w.sim.restore(&snap);
            }
        }
        Ok(())
    }
    fn supply_on_chain(&self, w: &W) -> u64 {
        match self.kind {
            Token => w.sim.app.wrap().query_supply(DENOM).unwrap().amount.u128() as u64,
            Cw20 => {
                let r: cw20::TokenInfoResponse = w.sim.query(&w.token, &cw20::Cw20QueryMsg::TokenInfo {}).unwrap();
                r.total_supply.u128() as u64
            }
            Cw721 => w.sim.query::<_, Value>(&w.token, &json!({"num_tokens": {}})).unwrap()["count"].as_u64().unwrap(),
            Onft => mc::chain::load(w.sim.app.storage(), "onftsupply", COLL).unwrap_or(0),
            _ => 0,
        }
    }
    fn nft_owner(&self, w: &W, t: u8) -> String {
        match self.kind {
            Onft => w.sim.onft_owner(COLL, &tname(t)).unwrap(),
            _ => w.sim.query::<_, Value>(&w.token, &json!({"owner_of": {"token_id": tname(t)}})).unwrap()["owner"].as_str().unwrap().to_string(),
        }
    }
}
const PCTS: [u64; 8] = [
    0,
    1_000_000_000,
    333_333_333_000_000_000,
    333_333_334_000_000_000,
    500_000_000_000_000_000,
    500_000_001_000_000_000,
    1_000_000_000_000_000_000,
    1_000_000_000_000_000_001,
];
struct Init {
    vcode: u64,
    code2: u64,
    token_code: u64,
    token: String,
}
fn role_mint(t: u8, who: u8, w: u64) -> dao_voting_cw721_roles::msg::NftMintMsg {
    dao_voting_cw721_roles::msg::NftMintMsg {
        token_id: tname(t),
        owner: NAMES[who as usize].into(),
        token_uri: None,
        extension: dao_cw721_extensions::roles::MetadataExt { role: None, weight: w },
    }
}
fn inst(i: &dao_interface::state::ModuleInstantiateInfo) -> cosmwasm_std::CosmosMsg {
    cosmwasm_std::WasmMsg::Instantiate { admin: None, code_id: i.code_id, msg: i.msg.clone(), funds: vec![], label: "x".into() }.into()
}

impl Harness for H {
    type World = W;
    type Model = M;
    type Op = Op;
    fn sim<'a>(&self, w: &'a mut W) -> &'a mut Sim {
        &mut w.sim
    }
    fn setup(&self) -> (W, M) {
        let mut sim = Sim::new();
        let puppet_id = sim.store(puppet());
        let prop_code = sim.store(single_code());
        let k = self.kind;
        let vcode = sim.store(match k {
            Token => vtoken_code(),
            Cw20 => vcw20_code(),
            Cw721 => vcw721_code(),
            Onft => vonft_code(),
            Cw4 => vcw4_code(),
            Roles => vroles_code(),
        });
        let code2 = sim.store(match k {
            Cw20 => stake_code(),
            Cw4 => cw4_code(),
            Roles => roles_code(),
            Token => issuer_code(),
            _ => puppet(),
        });
        let cw20c = sim.store(cw20_code());
        let nftc = sim.store(cw721_code());
        let mut m = M {
            wallet: BTreeMap::new(),
            staked: BTreeMap::new(),
            claims: BTreeMap::new(),
            stray: 0,
            pool: 0,
            nft: BTreeMap::new(),
            prep: BTreeMap::new(),
            members: BTreeMap::new(),
            roles: BTreeMap::new(),
            hist: BTreeMap::new(),
            period: self.a.period0,
            th: None,
            extra: 0,
            hooks: vec![],
            fail: BTreeSet::new(),
            start: 0,
            now: (0, 0),
        };
        let n = self.a.members;
        let mut token = String::new();
        let mut foreign = String::new();
        let each = if self.a.each > 0 { self.a.each } else { 6u128 };
        match k {
            Token => {
                for i in 0..n {
                    sim.mint(NAMES[i as usize], each, DENOM);
                    sim.mint(NAMES[i as usize], 5, "other");
                    m.wallet.insert(i, each);
                }
            }
            Cw20 => {
                let mk = |sim: &mut Sim, label: &str| {
                    sim.init(
                        cw20c,
                        "whale",
                        &cw20_base::msg::InstantiateMsg {
                            name: label.into(),
                            symbol: "TOK".into(),
                            decimals: 6,
                            initial_balances: (0..n).map(|i| cw20::Cw20Coin { address: NAMES[i as usize].into(), amount: each.into() }).collect(),
                            mint: Some(cw20::MinterResponse { minter: "whale".into(), cap: None }),
                            marketing: None,
                        },
                        &[],
                        label,
                    )
                    .unwrap()
                    .to_string()
                };
                token = mk(&mut sim, "token");
                foreign = mk(&mut sim, "foreign");
                for i in 0..n {
                    m.wallet.insert(i, each);
                }
            }
            Cw721 => {
                for name in ["coll", "foreign"] {
                    let a = sim
                        .init(nftc, "whale", &cw721_base::InstantiateMsg { name: name.into(), symbol: "N".into(), minter: "whale".into() }, &[], name)
                        .unwrap()
                        .to_string();
                    for (t, who) in &self.a.toks {
                        sim.exec("whale", &a, &json!({"mint": {"token_id": tname(*t), "owner": NAMES[*who as usize], "extension": {}}}), &[]).unwrap();
                        m.nft.insert(*t, Loc::Wallet(*who));
                    }
                    if name == "coll" {
                        token = a
                    } else {
                        foreign = a
                    }
                }
            }
            Onft => {
                for (t, who) in &self.a.toks {
                    sim.onft_mint(COLL, &tname(*t), NAMES[*who as usize]);
                    sim.onft_mint("foreign", &tname(*t), NAMES[*who as usize]);
                    m.nft.insert(*t, Loc::Wallet(*who));
                }
            }
            Cw4 => {
                m.members = BTreeMap::from([(0, 2), (1, 1), (2, 0)]);
            }
            Roles => {
                m.roles = BTreeMap::from([(0, (0, 2)), (1, (1, 1))]);
            }
        }
        let mut init = Init { vcode, code2, token_code: cw20c, token: token.clone() };
        let target = sim.init(puppet_id, "env", &json!({}), &[], "target").unwrap().to_string();
        let subs: Vec<String> =
            (0..2).map(|i| sim.init(puppet_id, "env", &json!({"log": null, "fail": false}), &[], &format!("sub{}", i)).unwrap().to_string()).collect();
        let vi = self.voting_init(&mut init, self.a.period0, None);
        let prop = mii(
            prop_code,
            &dao_proposal_single::msg::InstantiateMsg {
                threshold: dao_voting::threshold::Threshold::AbsoluteCount { threshold: Uint128::one() },
                max_voting_period: Duration::Height(100_000),
                min_voting_period: None,
                only_members_execute: false,
                allow_revoting: false,
                pre_propose_info: dao_voting::pre_propose::PreProposeInfo::AnyoneMayPropose {},
                close_proposal_on_execution_failure: false,
                veto: None,
            },
            "single",
        );
        let dao = new_dao(&mut sim, vi, vec![prop], None);
        let core = dao.core.to_string();
        let voting = dao.voting.to_string();
        let place = match k {
            Cw20 => sim.query::<_, String>(&voting, &json!({"staking_contract": {}})).unwrap(),
            Cw4 => sim.query::<_, String>(&voting, &json!({"group_contract": {}})).unwrap(),
            Roles => sim.query::<_, Value>(&voting, &json!({"config": {}})).unwrap()["nft_address"].as_str().unwrap().to_string(),
            _ => voting.clone(),
        };
        if k == Roles {
            // who owns a new collection is V05's business
            if sim.query::<_, Value>(&place, &json!({"ownership": {}})).unwrap()["owner"] != json!(core) {
                sim.exec(&core, &place, &json!({"update_ownership": "accept_ownership"}), &[]).unwrap();
            }
        }
        let mut w = W { sim, core, voting, place, token, foreign, prop: dao.proposals[0].to_string(), target, subs };
        if let Some(p) = self.a.births {
            if let Err(v) = self.births(&mut w, &mut init) {
                // the engine reports a panic of the comparison as a violation
                if v.props.contains(&p) {
                    std::panic::panic_any(v.msg)
                }
            }
        }
        m.start = w.sim.height();
        let p0 = self.power(&m);
        m.hist.insert(m.start, p0);
        if self.a.subscribed {
            for i in [0u8, 1] {
                let msg = self.hook_msg(true, &w.subs[i as usize]);
                w.sim.exec(w.core.clone(), w.place.clone(), &msg, &[]).unwrap();
                m.hooks.push(i);
            }
        }
        if self.a.probe {
            // an existing proposal, to be voted on and executed later
            if k.staking() {
                let op = if k.nft() { Op::Stake(0, self.a.toks[0].0) } else { Op::Stake(0, 1) };
                m.now = (w.sim.height(), w.sim.time());
                if k == Onft {
                    let t = self.a.toks[0].0;
                    for o in [Op::Prepare(0, vec![t]), Op::Transfer(0, 9, t), Op::Confirm(0, vec![t])] {
                        self.step(&mut w, &mut m, &o).unwrap();
                    }
                } else {
                    self.step(&mut w, &mut m, &op).unwrap();
                }
            }
            w.sim.advance(1, 5);
            let p = json!({"propose": {"title": "t", "description": "d", "msgs": [hit(&w.target, 1)], "proposer": null}});
            w.sim.exec("ann", &w.prop, &p, &[]).unwrap();
        } else if k == Cw4 || k == Roles {
            w.sim.advance(1, 5);
        }
        for o in &self.a.pre {
            m.now = (w.sim.height(), w.sim.time());
            if let Err(v) = self.step(&mut w, &mut m, o) {
                std::panic::panic_any(format!("{:?}: {}", o, v.msg))
            }
        }
        w.sim.seal();
        m.now = (w.sim.height(), w.sim.time());
        (w, m)
    }
    fn ops(&self, m: &M) -> Vec<Op> {
        let a = &self.a;
        let mut o = vec![];
        let n = a.members;
        for i in 0..a.ticks {
            o.push(Op::Tick(i));
        }
        match self.kind {
            Token | Cw20 => {
                for w in 0..n {
                    for x in &a.amounts {
                        o.push(Op::Stake(w, *x));
                        o.push(Op::Unstake(w, *x));
                    }
                    if a.claim {
                        o.push(Op::Claim(w));
                    }
                }
                if a.odd {
                    o.push(Op::Foreign(0));
                    o.push(Op::Forge(0));
                    o.push(Op::Unstake(0, 0));
                }
                if a.donate && m.stray == 0 {
                    o.push(Op::Donate(2));
                }
                if a.fund && self.kind == Cw20 && m.pool <= m.total_shares() + 3 {
                    o.push(Op::Fund(1));
                    o.push(Op::Fund(3));
                }
            }
            Cw721 => {
                for (t, l) in self.within_reach(m) {
                    if let Loc::Wallet(w) = l {
                        o.push(Op::Stake(*w, *t));
                        if a.odd && *w != 0 {
                            o.push(Op::Transfer(*w, 0, *t));
                        }
                    }
                    if a.donate && m.stray == 0 && *l == Loc::Wallet(1) {
                        o.push(Op::Donate(*t));
                    }
                }
                self.unstake_ops(m, &mut o);
                if a.odd {
                    o.push(Op::Foreign(0));
                    o.push(Op::Forge(3));
                }
            }
            Onft => {
                for (t, l) in self.within_reach(m) {
                    if let Loc::Wallet(w) = l {
                        o.push(Op::Transfer(*w, 9, *t));
                        if m.prep.get(t) != Some(w) {
                            o.push(Op::Prepare(*w, vec![*t]));
                        }
                        if a.odd {
                            for x in 0..n {
                                if x != *w {
                                    o.push(Op::Transfer(*w, x, *t));
                                    o.push(Op::Prepare(x, vec![*t]));
                                }
                            }
                        }
                    }
                }
                for w in 0..n {
                    for (t, l) in self.within_reach(m) {
                        // everyone tries to confirm everything that is there
                        if !matches!(l, Loc::Wallet(_)) {
                            o.push(Op::Confirm(w, vec![*t]));
                            if a.odd {
                                o.push(Op::Confirm(w, vec![*t, *t]));
                            }
                        }
                        if a.odd {
                            o.push(Op::Cancel(w, vec![*t], if w == 0 { Some(1) } else { None }));
                        }
                        if m.prep.contains_key(t) && *l == Loc::Stray && a.odd {
                            for t2 in m.nft.keys().filter(|x| *x > t) {
                                o.push(Op::Confirm(w, vec![*t, *t2]));
                                if m.prep.contains_key(t2) {
                                    o.push(Op::Confirm(w, vec![*t, *t2, *t]));
                                }
                                o.push(Op::Cancel(w, vec![*t, *t2], None));
                            }
                        }
                    }
                }
                if a.odd {
                    for (t, l) in &m.nft {
                        if matches!(l, Loc::Stray | Loc::Wallet(_)) {
                            o.push(Op::DaoCancel(vec![*t], None));
                            o.push(Op::DaoCancel(vec![*t], Some(2)));
                        }
                    }
                    { let v: Vec<u8> = m.nft.iter().filter(|x| *x.1 == Loc::Wallet(0)).map(|x| *x.0).collect(); if v.len() > 1 { o.push(Op::Prepare(0, v)) } }
                }
                self.unstake_ops(m, &mut o);
            }
            Cw4 => {
                for dao in [true, false] {
                    for w in 0..n {
                        for x in &a.amounts {
                            o.push(Op::Members(dao, vec![(w, *x)], vec![]));
                        }
                        o.push(Op::Members(dao, vec![], vec![w]));
                        if !dao {
                            break;
                        }
                    }
                }
                o.push(Op::Members(true, vec![(0, 1), (1, 3)], vec![2]));
                o.push(Op::Members(true, vec![(2, 2)], vec![0, 1]));
                o.push(Op::Members(true, vec![(2, 1)], vec![2]));
            }
            Roles => {
                for t in 0..4u8 {
                    if !m.roles.contains_key(&t) {
                        for (w, x) in [(0u8, 1u8), (1, 2), (2, 0), (2, 3)] {
                            o.push(Op::Mint(true, t, w, x));
                        }
                        o.push(Op::Mint(false, t, 1, 1));
                        break;
                    }
                }
                o.push(Op::Mint(true, 0, 1, 1));
                for t in m.roles.keys() {
                    o.push(Op::Burn(true, *t));
                    for x in &a.amounts {
                        o.push(Op::Weight(true, *t, *x));
                    }
                }
                for t in m.roles.keys() {
                    for to in 0..3u8 {
                        o.push(Op::Transfer(9, to, *t));
                    }
                }
                o.push(Op::Transfer(0, 2, 0));
                o.push(Op::Burn(false, 0));
                o.push(Op::Weight(false, 0, 3));
            }
        }
        for p in &a.periods {
            if *p != m.period {
                o.push(Op::Period(true, *p));
            }
        }
        if !a.periods.is_empty() {
            o.push(Op::Period(true, Some(Dur::H(0))));
            o.push(Op::Period(false, None));
            o.push(Op::Period(false, Some(Dur::H(1))));
        }
        for t in &a.ths {
            // including the one in force, which may have become impossible
            if *t != m.th || matches!(t, Some(Th::Count(_))) {
                o.push(Op::Threshold(true, *t));
            }
        }
        if a.authority {
            o.push(Op::Threshold(false, None));
            o.push(Op::Threshold(false, Some(Th::Count(1))));
        }
        if a.supply {
            if m.extra < 2 {
                o.push(Op::Supply(true));
            }
            if m.extra > 0 && self.kind != Onft {
                o.push(Op::Supply(false));
            }
        }
        if a.hooks {
            for i in 0..2u8 {
                for add in [true, false] {
                    o.push(Op::Hook(true, add, i));
                }
            }
            o.push(Op::Hook(false, true, 0));
            o.push(Op::Hook(false, false, 0));
        }
        if a.fail {
            for i in 0..2u8 {
                o.push(Op::Fail(i, !m.fail.contains(&i)));
            }
        }
        o
    }
    fn step(&self, w: &mut W, m: &mut M, op: &Op) -> VResult<String> {
        let before = self.power(m);
        let h = m.now.0;
        let now = m.now;
        let n = m.clone();
        let who = |i: u8| NAMES[i as usize].to_string();
        let by = |d: bool, w: &W| if d { w.core.clone() } else { "eve".to_string() };
        // (accepted, expected acceptance, property that owns an acceptance mismatch)
        let (r, want, own): (mc::sim::ExecResult, bool, &'static [&'static str]) = match op {
            Op::Tick(i) => {
                let (b, s) = [(1, 5), (1, 10), (2, 5)][*i as usize];
                w.sim.advance(b, s);
                m.now = (m.now.0 + b, m.now.1 + s);
                return Ok("tick".into());
            }
            Op::Stake(p, x) => match self.kind {
                Token => {
                    let ok = *x > 0 && m.wallet[p] >= *x as u128;
                    let r = w.sim.exec(who(*p), &w.place, &json!({"stake": {}}), &coins(*x as u128, DENOM));
                    if ok {
                        *m.wallet.get_mut(p).unwrap() -= *x as u128;
                        *m.staked.entry(*p).or_insert(0) += *x as u128;
                        m.pool += *x as u128;
                    }
                    (r, ok, V2)
                }
                Cw20 => {
                    let ok = m.wallet[p] >= *x as u128;
                    let msg = cw20::Cw20ExecuteMsg::Send {
                        contract: w.place.clone(),
                        amount: Uint128::from(*x),
                        msg: to_json_binary(&json!({"stake": {}})).unwrap(),
                    };
                    let r = w.sim.exec(who(*p), &w.token, &msg, &[]);
                    if ok {
                        let t = m.total_shares();
                        let sh = if t == 0 || m.pool == 0 { *x as u128 } else { *x as u128 * t / m.pool };
                        *m.wallet.get_mut(p).unwrap() -= *x as u128;
                        *m.staked.entry(*p).or_insert(0) += sh;
                        m.pool += *x as u128;
                    }
                    (r, ok, V2)
                }
                _ => {
                    let ok = m.nft.get(x) == Some(&Loc::Wallet(*p));
                    let msg = json!({"send_nft": {"contract": w.place, "token_id": tname(*x), "msg": to_json_binary(&json!({})).unwrap()}});
                    let r = w.sim.exec(who(*p), &w.token, &msg, &[]);
                    if ok {
                        m.nft.insert(*x, Loc::Staked(*p));
                    }
                    (r, ok, V2)
                }
            },
            Op::Unstake(p, x) => {
                let have = *m.staked.get(p).unwrap_or(&0);
                let x = *x as u128;
                let ok = have >= x && x > 0;
                let r = w.sim.exec(who(*p), &w.place, &json!({"unstake": {"amount": x.to_string()}}), &[]);
                if x == 0 && self.kind == Cw20 {
                    // redeeming nothing: accepted or not, nobody gains
                    if r.is_ok() && m.total_shares() > 0 {
                        if let Some(d) = m.period {
                            m.claims.entry(*p).or_default().push((0, Until::after(&d.d(), now)));
                        }
                    }
                    let ok = r.is_ok();
                    (r, ok, V2)
                } else {
                    let ok = ok && !(r.is_err() && self.full(m, *p, 1));
                    if ok {
                        let t = m.total_shares();
                        let v = if self.kind == Cw20 { x * m.pool / t } else { x };
                        *m.staked.get_mut(p).unwrap() -= x;
                        m.pool -= v;
                        match m.period {
                            None => *m.wallet.get_mut(p).unwrap() += v,
                            Some(d) => m.claims.entry(*p).or_default().push((v, Until::after(&d.d(), now))),
                        }
                    }
                    (r, ok, V2)
                }
            }
            Op::UnstakeN(p, ts) => {
                let uniq: BTreeSet<u8> = ts.iter().copied().collect();
                let ok = !ts.is_empty() && uniq.len() == ts.len() && ts.iter().all(|t| m.nft.get(t) == Some(&Loc::Staked(*p)));
                let ids: Vec<String> = ts.iter().map(|t| tname(*t)).collect();
                let r = w.sim.exec(who(*p), &w.place, &json!({"unstake": {"token_ids": ids}}), &[]);
                let ok = ok && !(r.is_err() && self.full(m, *p, ts.len()));
                if ok {
                    for t in ts {
                        let l = match m.period {
                            None => Loc::Wallet(*p),
                            Some(d) => Loc::Claim(*p, Until::after(&d.d(), now)),
                        };
                        m.nft.insert(*t, l);
                    }
                }
                (r, ok, V2)
            }
            Op::Claim(p) => {
                let (r, ok);
                if self.kind.nft() {
                    let due: Vec<u8> =
                        m.nft.iter().filter(|(_, l)| matches!(l, Loc::Claim(o, e) if o == p && e.expired(now))).map(|x| *x.0).collect();
                    ok = !due.is_empty();
                    r = w.sim.exec(who(*p), &w.place, &json!({"claim_nfts": {}}), &[]);
                    for t in due {
                        m.nft.insert(t, Loc::Wallet(*p));
                    }
                } else {
                    let c = m.claims.entry(*p).or_default();
                    let due: u128 = c.iter().filter(|c| c.1.expired(now)).map(|c| c.0).sum();
                    ok = due > 0;
                    if ok {
                        c.retain(|c| !c.1.expired(now));
                        *m.wallet.get_mut(p).unwrap() += due;
                    }
                    if c.is_empty() {
                        m.claims.remove(p);
                    }
                    r = w.sim.exec(who(*p), &w.place, &json!({"claim": {}}), &[]);
                }
                (r, ok, V2)
            }
            Op::Period(d, p) => {
                let ok = *d && !matches!(p, Some(Dur::H(0)) | Some(Dur::T(0)));
                let r = w.sim.exec(by(*d, w), &w.place, &json!({"update_config": {"duration": Self::dur_json(*p)}}), &[]);
                if ok {
                    m.period = *p;
                }
                (r, ok, V2)
            }
            Op::Donate(x) => {
                let r = match self.kind {
                    Token => w.sim.exec_msgs(
                        "bob",
                        vec![cosmwasm_std::BankMsg::Send { to_address: w.place.clone(), amount: coins(*x as u128, DENOM) }.into()],
                    ),
                    Cw20 => w.sim.exec("bob", &w.token, &cw20::Cw20ExecuteMsg::Transfer { recipient: w.place.clone(), amount: Uint128::from(*x) }, &[]),
                    _ => w.sim.exec("bob", &w.token, &json!({"transfer_nft": {"recipient": w.place, "token_id": tname(*x)}}), &[]),
                };
                let ok = if self.kind.nft() {
                    m.nft.insert(*x, Loc::Stray);
                    m.stray = 1;
                    true
                } else if m.wallet[&1] >= *x as u128 {
                    *m.wallet.get_mut(&1).unwrap() -= *x as u128;
                    m.stray += *x as u128;
                    true
                } else {
                    false
                };
                (r, ok, V2)
            }
            Op::Fund(x) => {
                let msg = cw20::Cw20ExecuteMsg::Send {
                    contract: w.place.clone(),
                    amount: Uint128::from(*x),
                    msg: to_json_binary(&json!({"fund": {}})).unwrap(),
                };
                let ok = m.wallet[&1] >= *x as u128;
                let r = w.sim.exec("bob", &w.token, &msg, &[]);
                if ok {
                    *m.wallet.get_mut(&1).unwrap() -= *x as u128;
                    m.pool += *x as u128;
                }
                (r, ok, V2)
            }
            Op::Foreign(p) => {
                let r = match self.kind {
                    Token => {
                        let both = vec![cosmwasm_std::coin(1, "other"), cosmwasm_std::coin(1, DENOM)];
                        let two = w.sim.exec(who(*p), &w.place, &json!({"stake": {}}), &both);
                        ensure!(two.is_err(), V2, "two-coins", "a deposit of two kinds of coins was accepted");
                        w.sim.exec(who(*p), &w.place, &json!({"stake": {}}), &coins(2, "other"))
                    }
                    Cw20 => {
                        let msg = cw20::Cw20ExecuteMsg::Send {
                            contract: w.place.clone(),
                            amount: Uint128::from(2u8),
                            msg: to_json_binary(&json!({"stake": {}})).unwrap(),
                        };
                        w.sim.exec(who(*p), &w.foreign, &msg, &[])
                    }
                    _ => {
                        let t = self.a.toks.iter().find(|x| x.1 == *p).unwrap().0;
                        w.sim.exec(
                            who(*p),
                            &w.foreign,
                            &json!({"send_nft": {"contract": w.place, "token_id": tname(t), "msg": to_json_binary(&json!({})).unwrap()}}),
                            &[],
                        )
                    }
                };
                (r, false, V2)
            }
            Op::Forge(p) => {
                let r = match self.kind {
                    Token => w.sim.exec(who(*p), &w.place, &json!({"stake": {}}), &[]),
                    Cw20 => w.sim.exec(
                        who(*p),
                        &w.place,
                        &json!({"receive": {"sender": who(*p), "amount": "3", "msg": to_json_binary(&json!({"stake": {}})).unwrap()}}),
                        &[],
                    ),
                    _ => w.sim.exec(
                        who(*p),
                        &w.place,
                        &json!({"receive_nft": {"sender": who(*p), "token_id": tname(5), "msg": to_json_binary(&json!({})).unwrap()}}),
                        &[],
                    ),
                };
                (r, false, V2)
            }
            // only the DAO moves role NFTs
            Op::Transfer(p, to, t) if self.kind == Roles => {
                let ok = *p == 9 && m.roles.contains_key(t);
                let from = if *p == 9 { w.core.clone() } else { who(*p) };
                let r = w.sim.exec(from, &w.place, &json!({"transfer_nft": {"recipient": who(*to), "token_id": tname(*t)}}), &[]);
                if ok {
                    m.roles.get_mut(t).unwrap().0 = *to;
                }
                (r, ok, V1)
            }
            Op::Transfer(p, to, t) => {
                let dest = if *to == 9 { w.place.clone() } else { who(*to) };
                let ok = m.nft[t] == Loc::Wallet(*p);
                let r = match self.kind {
                    Onft => w.sim.onft_transfer(COLL, &tname(*t), &who(*p), &dest),
                    _ => w.sim.exec(who(*p), &w.token, &json!({"transfer_nft": {"recipient": dest, "token_id": tname(*t)}}), &[]),
                };
                if ok {
                    m.nft.insert(*t, if *to == 9 { Loc::Stray } else { Loc::Wallet(*to) });
                }
                (r, ok, V2)
            }
            Op::Prepare(p, ts) => {
                let ok = ts.iter().all(|t| m.nft[t] == Loc::Wallet(*p));
                let ids: Vec<String> = ts.iter().map(|t| tname(*t)).collect();
                let r = w.sim.exec(who(*p), &w.place, &json!({"prepare_stake": {"token_ids": ids}}), &[]);
                if ok {
                    for t in ts {
                        m.prep.insert(*t, *p);
                    }
                }
                (r, ok, V2)
            }
            Op::Confirm(p, ts) => {
                let ok = ts.iter().all(|t| m.prep.get(t) == Some(p) && m.nft[t] == Loc::Stray);
                let ids: Vec<String> = ts.iter().map(|t| tname(*t)).collect();
                let r = w.sim.exec(who(*p), &w.place, &json!({"confirm_stake": {"token_ids": ids}}), &[]);
                if ok {
                    for t in ts {
                        m.prep.remove(t);
                        m.nft.insert(*t, Loc::Staked(*p));
                    }
                }
                (r, ok, V2)
            }
            Op::Cancel(p, ts, rec) => {
                // NFTs that are not prepared any more (staked, being claimed, or stray) belong to
                // nobody but their staker or the DAO
                let ok = ts.iter().all(|t| m.prep.get(t) == Some(p) || m.nft[t] == Loc::Wallet(*p));
                let ids: Vec<String> = ts.iter().map(|t| tname(*t)).collect();
                let r = w.sim.exec(who(*p), &w.place, &json!({"cancel_stake": {"token_ids": ids, "recipient": rec.map(who)}}), &[]);
                if ok {
                    for t in ts {
                        m.prep.remove(t);
                        if m.nft[t] == Loc::Stray {
                            m.nft.insert(*t, Loc::Wallet(*p));
                        }
                    }
                }
                (r, ok, V2)
            }
            Op::DaoCancel(ts, rec) => {
                let ids: Vec<String> = ts.iter().map(|t| tname(*t)).collect();
                let mut ok = true;
                let mut x = m.clone();
                for t in ts {
                    let prep = x.prep.remove(t);
                    if x.nft[t] == Loc::Stray {
                        match rec.or(prep) {
                            Some(to) => {
                                x.nft.insert(*t, Loc::Wallet(to));
                            }
                            None => ok = false,
                        }
                    }
                }
                let r = w.sim.exec(w.core.clone(), &w.place, &json!({"cancel_stake": {"token_ids": ids, "recipient": rec.map(who)}}), &[]);
                if ok {
                    *m = x;
                }
                (r, ok, V2)
            }
            Op::Members(d, add, rem) => {
                let r = w.sim.exec(
                    by(*d, w),
                    &w.place,
                    &json!({"update_members": {
                        "add": add.iter().map(|(a, x)| json!({"addr": who(*a), "weight": x})).collect::<Vec<_>>(),
                        "remove": rem.iter().map(|a| who(*a)).collect::<Vec<_>>()}}),
                    &[],
                );
                if *d {
                    for (a, x) in add {
                        m.members.insert(*a, *x as u128);
                    }
                    for a in rem {
                        m.members.remove(a);
                    }
                }
                (r, *d, V1)
            }
            Op::Mint(d, t, p, x) => {
                let ok = *d && !m.roles.contains_key(t);
                let r = w.sim.exec(
                    by(*d, w),
                    &w.place,
                    &json!({"mint": {"token_id": tname(*t), "owner": who(*p), "token_uri": null, "extension": {"role": null, "weight": x}}}),
                    &[],
                );
                if ok {
                    m.roles.insert(*t, (*p, *x as u128));
                }
                (r, ok, V1)
            }
            Op::Burn(d, t) => {
                let ok = *d && m.roles.contains_key(t);
                let r = w.sim.exec(by(*d, w), &w.place, &json!({"burn": {"token_id": tname(*t)}}), &[]);
                if ok {
                    m.roles.remove(t);
                }
                (r, ok, V1)
            }
            Op::Weight(d, t, x) => {
                let r = w.sim.exec(
                    by(*d, w),
                    &w.place,
                    &json!({"extension": {"msg": {"update_token_weight": {"token_id": tname(*t), "weight": x}}}}),
                    &[],
                );
                let same = m.roles.get(t).map(|r| r.1) == Some(*x as u128);
                // setting the weight it already has may be refused
                let ok = *d && m.roles.contains_key(t) && !(same && r.is_err());
                if ok {
                    m.roles.get_mut(t).unwrap().1 = *x as u128;
                }
                (r, ok, V1)
            }
            Op::Threshold(d, t) => {
                let sup = self.supply(m);
                let ok = *d && t.map(|t| t.valid(sup)).unwrap_or(true);
                let r = w.sim.exec(
                    by(*d, w),
                    &w.voting,
                    &json!({"update_active_threshold": {"new_threshold": t.map(|t| serde_json::to_value(t.msg()).unwrap())}}),
                    &[],
                );
                if ok {
                    m.th = *t;
                }
                (r, ok, V3)
            }
            Op::Supply(up) => {
                let k = m.extra;
                let r = match (self.kind, up) {
                    (Token, true) => {
                        w.sim.mint("whale", 1, DENOM);
                        Ok(Default::default())
                    }
                    (Token, false) => w.sim.exec_msgs("whale", vec![cosmwasm_std::BankMsg::Burn { amount: coins(1, DENOM) }.into()]),
                    (Cw20, true) => w.sim.exec("whale", &w.token, &json!({"mint": {"recipient": "whale", "amount": "1"}}), &[]),
                    (Cw20, false) => w.sim.exec("whale", &w.token, &json!({"burn": {"amount": "1"}}), &[]),
                    (Cw721, true) => w.sim.exec("whale", &w.token, &json!({"mint": {"token_id": format!("x{}", k), "owner": "whale", "extension": {}}}), &[]),
                    (Cw721, false) => w.sim.exec("whale", &w.token, &json!({"burn": {"token_id": format!("x{}", k - 1)}}), &[]),
                    _ => {
                        w.sim.onft_mint(COLL, &format!("x{}", k), "whale");
                        Ok(Default::default())
                    }
                };
                m.extra = if *up { k + 1 } else { k - 1 };
                (r, true, V3)
            }
            Op::Hook(d, add, i) => {
                let has = m.hooks.contains(i);
                let ok = *d && (has != *add);
                let msg = self.hook_msg(*add, &w.subs[*i as usize]);
                let r = w.sim.exec(by(*d, w), &w.place, &msg, &[]);
                if ok {
                    if *add {
                        m.hooks.push(*i);
                    } else {
                        m.hooks.retain(|x| x != i);
                    }
                }
                (r, ok, V4)
            }
            Op::Fail(i, f) => {
                puppet_set(&mut w.sim, &w.subs[*i as usize], json!({"fail": f}));
                if *f {
                    m.fail.insert(*i);
                } else {
                    m.fail.remove(i);
                }
                return Ok("set subscriber".into());
            }
        };
        let after = self.power(m);
        if want && before != after && n.hooks.iter().any(|i| n.fail.contains(i)) {
            // a subscriber that cannot be told must stop the change
            ensure!(r.is_err(), V4, "subscriber-missed", "{:?} changed stakes although a subscriber could not be told", op);
            *m = n;
            return Ok("refused by subscriber".into());
        }
        if r.is_err() && n.hooks.iter().any(|i| n.fail.contains(i)) && want {
            // an empty notice to a failing subscriber
            *m = n;
            return Ok("refused by subscriber (no change)".into());
        }
        same!(r.is_ok(), want, own, format!("accept-{}", if want { "ok" } else { "err" }), "{:?} ({:?})", op, r.as_ref().err());
        if before != after {
            m.hist.insert(h, after.clone());
        }
        // notices
        let mut delta: BTreeMap<u8, i128> = BTreeMap::new();
        for i in 0..4u8 {
            let d = *after.get(&i).unwrap_or(&0) as i128 - *before.get(&i).unwrap_or(&0) as i128;
            if d != 0 {
                delta.insert(i, d);
            }
        }
        for i in 0..2usize {
            let log = puppet_get(&w.sim, &w.subs[i], "log");
            let log = log.as_array().cloned().unwrap_or_default();
            if !log.is_empty() {
                puppet_set(&mut w.sim, &w.subs[i], json!({ "log": null }));
            }
            let told = self.told(w, &log)?;
            let expect = if n.hooks.contains(&(i as u8)) && !matches!(op, Op::Hook(..)) { delta.clone() } else { BTreeMap::new() };
            same!(told, expect, V4, "notices", "subscriber {} after {:?} (raw {:?})", i, op, log);
            if !n.hooks.contains(&(i as u8)) {
                ensure!(log.is_empty(), V4, "notices-unsubscribed", "unsubscribed contract told {:?} after {:?}", log, op);
            }
            // token identities
            if self.kind.nft() {
                for e in &log {
                    let hk = &e["msg"]["nft_stake_change_hook"];
                    for t in hk["stake"]["token_id"].as_str().into_iter() {
                        ensure!(matches!(m.nft.get(&tid(t)), Some(Loc::Staked(_))), V4, "notice-token", "told that {} was staked", t);
                    }
                    for t in hk["unstake"]["token_ids"].as_array().cloned().unwrap_or_default() {
                        let t = tid(t.as_str().unwrap());
                        ensure!(
                            matches!(n.nft.get(&t), Some(Loc::Staked(_))) && !matches!(m.nft.get(&t), Some(Loc::Staked(_))),
                            V4,
                            "notice-token",
                            "told that {} was unstaked",
                            t
                        );
                    }
                }
            }
        }
        Ok(format!("{}{}", if r.is_ok() { "" } else { "refused " }, format!("{:?}", op).split('(').next().unwrap()))
    }
    fn invariant(&self, w: &mut W, m: &M) -> VResult {
        let sim = &w.sim;
        let cur = self.power(m);
        // V01: every height, every member
        for hgt in m.start.saturating_sub(1)..=m.now.0 + 1 {
            let want = self.at(m, hgt);
            let tot: Value = sim.query(&w.voting, &json!({"total_power_at_height": {"height": hgt}})).unwrap();
            same!(u(&tot["power"]), want.values().sum::<u128>(), V1, "total-power", "total power at height {} (now {})", hgt, m.now.0);
            same!(tot["height"].as_u64(), Some(hgt), V1, "height", "height of total power");
            for i in 0..4u8 {
                let p: Value =
                    sim.query(&w.voting, &json!({"voting_power_at_height": {"address": NAMES[i as usize], "height": hgt}})).unwrap();
                same!(u(&p["power"]), *want.get(&i).unwrap_or(&0), V1, "power", "power of {} at height {} (now {})", NAMES[i as usize], hgt, m.now.0);
            }
        }
        // the current height, unnamed: a snapshot or, for memberships, the present
        let snap = self.at(m, m.now.0);
        let tot: Value = sim.query(&w.voting, &json!({"total_power_at_height": {}})).unwrap();
        same!(tot["height"].as_u64(), Some(m.now.0), V1, "height-now", "height answered for the total at an unnamed height");
        let one: Value = sim.query(&w.voting, &json!({"voting_power_at_height": {"address": NAMES[0]}})).unwrap();
        same!(one["height"].as_u64(), Some(m.now.0), V1, "height-now", "height answered for a power at an unnamed height");
        let tot = u(&tot["power"]);
        let ps: BTreeMap<u8, u128> = (0..4u8)
            .map(|i| (i, u(&sim.query::<_, Value>(&w.voting, &json!({"voting_power_at_height": {"address": NAMES[i as usize]}})).unwrap()["power"])))
            .filter(|x| x.1 > 0)
            .collect();
        ensure!(ps == snap || (!self.kind.staking() && ps == cur), V1, "power-now", "powers at an unnamed height {:?}, at the start of the block {:?}, now {:?}", ps, snap, cur);
        same!(tot, ps.values().sum::<u128>(), V1, "total-now", "total at an unnamed height");
        // V02: custody
        match self.kind {
            Token | Cw20 => {
                let bal = |a: &str| if self.kind == Token { sim.bal(a, DENOM) } else { sim.cw20(&w.token, a) };
                for (i, x) in &m.wallet {
                    same!(bal(NAMES[*i as usize]), *x, V2, "wallet", "balance of {}", NAMES[*i as usize]);
                }
                let owed = m.pool + m.claims.values().flatten().map(|c| c.0).sum::<u128>() + m.stray;
                same!(bal(&w.place), owed, V2, "holdings", "tokens held by the staking contract");
                for i in 0..self.a.members {
                    let r: Value = sim.query(&w.place, &json!({"claims": {"address": NAMES[i as usize]}})).unwrap();
                    let mut got: Vec<(u128, Until)> = r["claims"]
                        .as_array()
                        .unwrap()
                        .iter()
                        .map(|c| (u(&c["amount"]), Until::of(&serde_json::from_value(c["release_at"].clone()).unwrap())))
                        .collect();
                    let mut want = m.claims.get(&i).cloned().unwrap_or_default();
                    got.sort();
                    want.sort();
                    same!(got, want, V2, "claims", "claims of {}", NAMES[i as usize]);
                }
                // listing of stakers, two at a time
                for page in [1u32, 2, 30] {
                    let mut got: BTreeMap<u8, u128> = BTreeMap::new();
                    let mut after: Option<String> = None;
                    for _ in 0..6 {
                        let r: Value = sim.query(&w.place, &json!({"list_stakers": {"start_after": after, "limit": page}})).unwrap();
                        let l = r["stakers"].as_array().unwrap().clone();
                        if l.is_empty() {
                            break;
                        }
                        for s in &l {
                            let a = s["address"].as_str().unwrap().to_string();
                            ensure!(got.insert(wid(&a), u(&s["balance"])).is_none(), V1, "list-stakers", "{} listed twice", a);
                            after = Some(a);
                        }
                    }
                    got.retain(|_, x| *x > 0);
                    same!(got, cur, V1, "list-stakers", "listing of stakers with page size {}", page);
                }
            }
            Cw721 | Onft => {
                for (t, l) in &m.nft {
                    let want = match l {
                        Loc::Wallet(x) => NAMES[*x as usize].to_string(),
                        _ => w.place.clone(),
                    };
                    same!(self.nft_owner(w, *t), want, V2, "nft-owner", "holder of {} which is {:?}", tname(*t), l);
                }
                for i in 0..self.a.members {
                    let r: Value = sim.query(&w.place, &json!({"nft_claims": {"address": NAMES[i as usize]}})).unwrap();
                    let mut got: Vec<(u8, Until)> = r["nft_claims"]
                        .as_array()
                        .unwrap()
                        .iter()
                        .map(|c| (tid(c["token_id"].as_str().unwrap()), Until::of(&serde_json::from_value(c["release_at"].clone()).unwrap())))
                        .collect();
                    got.sort();
                    let want: Vec<(u8, Until)> = m
                        .nft
                        .iter()
                        .filter_map(|(t, l)| match l {
                            Loc::Claim(o, e) if *o == i => Some((*t, *e)),
                            _ => None,
                        })
                        .collect();
                    same!(got, want, V2, "claims", "claims of {}", NAMES[i as usize]);
                    for page in [1u32, 2, 30] {
                        let mut got: Vec<u8> = vec![];
                        let mut after: Option<String> = None;
                        for _ in 0..90 {
                            let l: Vec<String> = sim
                                .query(&w.place, &json!({"staked_nfts": {"address": NAMES[i as usize], "start_after": after, "limit": page}}))
                                .unwrap();
                            if l.is_empty() {
                                break;
                            }
                            after = l.last().cloned();
                            got.extend(l.iter().map(|s| tid(s)));
                        }
                        got.sort();
                        let want: Vec<u8> = m.nft.iter().filter(|(_, l)| **l == Loc::Staked(i)).map(|x| *x.0).collect();
                        same!(got, want, V2, "staked-list", "staked NFTs of {} with page size {}", NAMES[i as usize], page);
                    }
                }
            }
            _ => {}
        }
        // V03
        if self.kind.staking() {
            let r: dao_voting::threshold::ActiveThresholdResponse = sim.query(&w.voting, &json!({"active_threshold": {}})).unwrap();
            same!(r.active_threshold, m.th.map(|t| t.msg()), V3, "threshold", "recorded threshold");
            let active = sim.query::<_, Value>(&w.voting, &json!({"is_active": {}})).unwrap()["active"].as_bool().unwrap();
            let sup = self.supply(m);
            match m.th {
                None => ensure!(active, V3, "active-none", "inactive without a threshold"),
                Some(t) if sup > 0 => {
                    let c = t.met(cur.values().sum(), sup);
                    let s = t.met(snap.values().sum(), sup);
                    if c == s {
                        same!(active, c, V3, "active", "active with {:?} staked of {} under {:?}", cur, sup, t);
                    }
                }
                _ => {}
            }
        }
        // hooks
        if self.kind != Cw4 {
            let q = match self.kind {
                Token | Cw20 => json!({"get_hooks": {}}),
                Roles => json!({"extension": {"msg": {"hooks": {}}}}),
                _ => json!({"hooks": {}}),
            };
            let r: Value = sim.query(&w.place, &q).unwrap();
            let mut got: Vec<String> = serde_json::from_value(r["hooks"].clone()).unwrap();
            let mut want: Vec<String> = m.hooks.iter().map(|i| w.subs[*i as usize].clone()).collect();
            got.sort();
            want.sort();
            same!(got, want, V4, "hooks", "list of subscribers");
        }
        Ok(())
    }
    fn on_new_state(&self, w: &mut W, m: &M) -> VResult {
        if !self.a.probe {
            return Ok(());
        }
        let snap = w.sim.snapshot();
        let active = match w.sim.query::<_, Value>(&w.voting, &json!({"is_active": {}})) {
            Ok(v) => v["active"].as_bool().unwrap(),
            Err(_) => true,
        };
        let p = json!({"propose": {"title": "t", "description": "d", "msgs": [hit(&w.target, 2)], "proposer": null}});
        for who in ["ann", "bob"] {
            let r = w.sim.exec(who, &w.prop, &p, &[]);
            w.sim.restore(&snap);
            if !active {
                ensure!(r.is_err(), V3, "propose-inactive", "{} could propose while the DAO is inactive", who);
            } else {
                ensure!(r.is_ok(), V3, "propose-active", "{} could not propose while the DAO is active: {:?}", who, r.err());
            }
        }
        let r = w.sim.exec("ann", &w.prop, &json!({"vote": {"proposal_id": 1, "vote": "yes"}}), &[]);
        ensure!(r.is_ok(), V3, "vote-blocked", "voting on an existing proposal refused (active {}): {:?}", active, r.err());
        let r = w.sim.exec("bob", &w.prop, &json!({"execute": {"proposal_id": 1}}), &[]);
        ensure!(r.is_ok() && hits(&w.sim, &w.target, 1) == 1, V3, "execute-blocked", "executing a passed proposal refused (active {}): {:?}", active, r.err());
        w.sim.restore(&snap);
        let _ = m;
        Ok(())
    }
}
impl H {
    /// the NFTs that the alphabet names: all, or in crowded settings one of each kind
    fn within_reach<'a>(&self, m: &'a M) -> Vec<(&'a u8, &'a Loc)> {
        let mut seen: Vec<std::mem::Discriminant<Loc>> = vec![];
        m.nft
            .iter()
            .filter(|(_, l)| {
                let d = std::mem::discriminant(*l);
                let new = !seen.contains(&d);
                seen.push(d);
                self.a.pre.is_empty() || new
            })
            .collect()
    }
    /// more claims than a member may have outstanding: refusing is the documented answer
    fn full(&self, m: &M, p: u8, more: usize) -> bool {
        let have = if self.kind.nft() {
            m.nft.values().filter(|l| matches!(l, Loc::Claim(o, _) if *o == p)).count()
        } else {
            m.claims.get(&p).map(|c| c.len()).unwrap_or(0)
        };
        m.period.is_some() && have + more > if self.kind.nft() { 70 } else { 100 }
    }
    fn unstake_ops(&self, m: &M, o: &mut Vec<Op>) {
        let toks = self.toks();
        for w in 0..self.a.members {
            let mine: Vec<u8> = toks.iter().copied().filter(|t| m.nft[t] == Loc::Staked(w)).collect();
            for t in mine.iter().take(if self.a.pre.is_empty() { mine.len() } else { 1 }) {
                o.push(Op::UnstakeN(w, vec![*t]));
            }
            if mine.len() >= 2 {
                o.push(Op::UnstakeN(w, mine.clone()));
            }
            if self.a.odd {
                if let Some(t) = mine.first() {
                    o.push(Op::UnstakeN(w, vec![*t, *t]));
                }
                if mine.len() >= 2 {
                    o.push(Op::UnstakeN(w, vec![mine[0], mine[1], mine[0]]));
                }
                // somebody else's, somebody else's together with one's own, and one being claimed
                for t in &toks {
                    if !mine.contains(t) && m.nft[t] != Loc::Wallet(w) {
                        o.push(Op::UnstakeN(w, vec![*t]));
                        if let Some(t0) = mine.first() {
                            o.push(Op::UnstakeN(w, vec![*t0, *t]));
                        }
                    }
                }
            }
            if self.a.claim {
                o.push(Op::Claim(w));
            }
        }
        if self.a.odd {
            o.push(Op::UnstakeN(0, vec![]));
        }
    }
    /// what the notices received add up to, per member
    fn told(&self, w: &W, log: &[Value]) -> VResult<BTreeMap<u8, i128>> {
        let mut d: BTreeMap<u8, i128> = BTreeMap::new();
        for e in log {
            same!(e["from"].as_str(), Some(w.place.as_str()), V4, "notice-sender", "sender of {}", e);
            let msg = &e["msg"];
            let mut put = |a: &Value, x: i128| *d.entry(wid(a.as_str().unwrap())).or_insert(0) += x;
            if let Some(x) = msg.get("stake_change_hook") {
                if let Some(s) = x.get("stake") {
                    put(&s["addr"], u(&s["amount"]) as i128);
                } else {
                    put(&x["unstake"]["addr"], -(u(&x["unstake"]["amount"]) as i128));
                }
            } else if let Some(x) = msg.get("nft_stake_change_hook") {
                if let Some(s) = x.get("stake") {
                    put(&s["addr"], 1);
                } else {
                    put(&x["unstake"]["addr"], -(x["unstake"]["token_ids"].as_array().unwrap().len() as i128));
                }
            } else if let Some(x) = msg.get("member_changed_hook") {
                for c in x["diffs"].as_array().unwrap() {
                    let n = |v: &Value| if v.is_null() { 0 } else { u(v) as i128 };
                    put(&c["key"], n(&c["new"]) - n(&c["old"]));
                }
            } else {
                return Err(mc::engine::Violation::new(V4, "notice-shape", format!("unexpected notice {}", e)));
            }
        }
        d.retain(|_, x| *x != 0);
        Ok(d)
    }
}

fn plan(prop: &str, th: bool) -> Option<PropertyPlan> {
    let mut entries = vec![];
    let toks3 = vec![(0u8, 0u8), (1, 0), (2, 1)];
    let toks4 = vec![(0u8, 0u8), (1, 0), (2, 1), (3, 2)];
    let base = Alpha { members: 2, amounts: vec![1, 3], toks: toks3.clone(), ticks: 1, ..Default::default() };
    let add = |entries: &mut Vec<Entry>, name: &str, kind: Kind, a: Alpha, d: usize| {
        entries.push(Entry::new(format!("{:?}/{}", kind, name), H { kind, a }, d));
    };
    let dd = |q: usize, t: usize| if th { t } else { q };
    let rule;
    match prop {
        "V01" => {
            rule = "explicit-state BFS over real voting modules: every sequence of stakes, unstakes, membership edits and block changes up to the depth; after each, the power of every address and the total at every height from before creation to the next block are compared with a step-function reference";
            for k in [Token, Cw20, Cw721, Onft, Cw4, Roles] {
                let mut a = base.clone();
                a.members = 3;
                a.births = Some("V01");
                a.toks = toks4.clone();
                if k == Cw4 || k == Roles {
                    a.amounts = vec![0, 1, 3];
                }
                if k == Cw20 {
                    a.fund = true;
                    a.members = 2;
                }
                let d = match k {
                    Token => dd(5, 6),
                    Cw20 => dd(5, 7),
                    Cw721 => dd(7, 9),
                    Onft => dd(6, 8),
                    Cw4 => dd(4, 5),
                    Roles => dd(4, 5),
                };
                add(&mut entries, "powers", k, a.clone(), d);
                if k.staking() {
                    // nor must repeated, foreign and forged requests
                    let mut c = base.clone();
                    c.odd = true;
                    c.amounts = vec![2];
                    add(&mut entries, "powers-odd-requests", k, c, dd(if k == Onft { 5 } else { 6 }, if k == Onft { 6 } else { 8 }));
                }
                if k.staking() {
                    // claims and periods must not disturb powers
                    let mut b = base.clone();
                    b.claim = true;
                    b.period0 = Some(Dur::H(1));
                    b.amounts = vec![2];
                    add(&mut entries, "powers-with-claims", k, b, dd(6, 8));
                }
            }
        }
        "V02" => {
            rule = "explicit-state BFS over real staking voting modules: every sequence of stake, unstake, claim, period change, stray deposit, wrong-asset, forged and repeated requests and block/time steps up to the depth; wallets, contract holdings, owners, claims and staked lists are compared with an exact ledger after each";
            let periods = vec![None, Some(Dur::H(2)), Some(Dur::T(10))];
            for k in [Token, Cw20, Cw721, Onft] {
                let mut a = base.clone();
                a.claim = true;
                a.periods = periods.clone();
                a.period0 = Some(Dur::H(1));
                a.amounts = vec![2];
                a.ticks = 2;
                a.toks = vec![(0, 0), (1, 0), (2, 1)];
                add(&mut entries, "periods", k, a.clone(), if k.nft() { dd(6, 7) } else { dd(6, 7) });
                let mut b = base.clone();
                b.claim = true;
                b.odd = true;
                b.donate = true;
                b.fund = k == Cw20;
                b.period0 = None;
                b.ticks = 1;
                b.toks = vec![(0, 0), (1, 0), (2, 1)];
                if k == Onft {
                    b.toks = vec![(0, 0), (1, 0), (2, 1)];
                    b.members = 2;
                }
                add(&mut entries, "custody", k, b.clone(), if k == Onft { dd(5, 6) } else { dd(6, 7) });
                // as many claims as one member may have outstanding
                let mut c = base.clone();
                c.claim = true;
                c.period0 = Some(Dur::H(2));
                c.members = 1;
                c.amounts = vec![1];
                c.each = 130;
                c.toks = (0..74).map(|t| (t, 0)).collect();
                let all: Vec<u8> = (0..72).collect();
                c.pre = match k {
                    Onft => vec![Op::Prepare(0, all.clone())]
                        .into_iter()
                        .chain(all.iter().map(|t| Op::Transfer(0, 9, *t)))
                        .chain([Op::Confirm(0, all.clone())])
                        .collect(),
                    Cw721 => all.iter().map(|t| Op::Stake(0, *t)).collect(),
                    _ => vec![Op::Stake(0, 120)],
                };
                if k.nft() {
                    c.pre.extend([Op::UnstakeN(0, (0..33).collect()), Op::Tick(0), Op::UnstakeN(0, (33..68).collect())]);
                } else {
                    c.pre.extend((0..50).map(|_| Op::Unstake(0, 1)));
                    c.pre.push(Op::Tick(0));
                    c.pre.extend((0..48).map(|_| Op::Unstake(0, 1)));
                }
                add(&mut entries, "many-claims", k, c, dd(6, 8));
                b.period0 = Some(Dur::T(10));
                b.donate = false;
                add(&mut entries, "custody-period", k, b, if k == Onft { dd(5, 6) } else { dd(6, 7) });
            }
        }
        "V03" => {
            rule = "explicit-state BFS over real voting modules in a real DAO: every sequence of threshold changes (valid and impossible), stakes, unstakes, supply changes and block steps up to the depth; the reported activity is compared with exact integer arithmetic and, in every distinct state, proposing, voting on and executing a proposal are tried";
            for k in [Token, Cw20, Cw721, Onft] {
                let mut a = base.clone();
                a.probe = true;
                a.births = Some("V03");
                a.supply = true;
                a.authority = true;
                a.toks = toks4.clone();
                a.amounts = vec![3, 5];
                a.ths = vec![None, Some(Th::Count(0)), Some(Th::Count(1)), Some(Th::Count(2)), Some(Th::Count(4)), Some(Th::Count(5)), Some(Th::Count(12)), Some(Th::Count(13))];
                a.ths.extend(PCTS.iter().map(|p| Some(Th::Pct(*p))));
                add(&mut entries, "active", k, a, dd(5, 6));
            }
            for k in [Cw4, Roles] {
                let mut a = base.clone();
                a.probe = true;
                a.members = 3;
                a.amounts = vec![0, 2];
                add(&mut entries, "active", k, a, dd(3, 4));
            }
        }
        "V04" => {
            rule = "explicit-state BFS over real staking and membership contracts with two subscribers: every sequence of stake-changing operations, claims, period changes, subscription changes by the DAO or an outsider, and subscribers that refuse notices, up to the depth; the notices received in each transaction are compared with the exact change of every member's stake";
            for k in [Token, Cw20, Cw721, Onft, Cw4, Roles] {
                let mut a = base.clone();
                a.subscribed = true;
                a.claim = true;
                a.fund = k == Cw20;
                a.odd = k != Onft;
                a.donate = k != Onft;
                a.amounts = if k.staking() { vec![1, 3] } else { vec![0, 1, 3] };
                a.period0 = if k == Cw721 { None } else { Some(Dur::H(1)) };
                a.members = if k.staking() { 2 } else { 3 };
                let d = match k {
                    Token | Cw20 => dd(5, 6),
                    Cw721 => dd(6, 8),
                    Onft => dd(7, 9),
                    _ => dd(3, 4),
                };
                add(&mut entries, "notices", k, a.clone(), d);
                if k.nft() {
                    // many tokens at once
                    let mut c = a.clone();
                    c.members = 1;
                    c.toks = (0..40).map(|t| (t, 0)).collect();
                    c.period0 = None;
                    let all: Vec<u8> = (0..38).collect();
                    c.pre = if k == Onft {
                        vec![Op::Prepare(0, all.clone())]
                            .into_iter()
                            .chain(all.iter().map(|t| Op::Transfer(0, 9, *t)))
                            .chain([Op::Confirm(0, all.clone())])
                            .collect()
                    } else {
                        all.iter().map(|t| Op::Stake(0, *t)).collect()
                    };
                    c.pre.push(Op::UnstakeN(0, (0..34).collect()));
                    add(&mut entries, "many-tokens", k, c, dd(6, 8));
                }
                if k != Cw4 {
                    let mut b = a.clone();
                    b.subscribed = false;
                    b.hooks = true;
                    b.fail = true;
                    b.fund = false;
                    b.odd = false;
                    b.donate = false;
                    b.amounts = vec![1];
                    b.claim = false;
                    b.toks = vec![(0, 0), (1, 0), (2, 1)];
                    add(&mut entries, "subscriptions", k, b, if k == Roles { dd(4, 5) } else if k == Onft { dd(5, 6) } else { dd(6, 7) });
                }
            }
        }
        _ => return None,
    }
    let mut assumptions = vec![
        "cw-multi-test stands in for the chain: transactions are atomic, the bank and the NFT and token factory modules behave as on chain",
        "two or three members, amounts and token counts as listed; refusing more than the documented number of outstanding claims (100 tokens, 70 NFTs) is allowed",
    ];
    match prop {
        "V02" => assumptions.push("the DAO's documented power to redirect any on-chain NFT held by the module is used only on NFTs that are not staked or being claimed"),
        "V03" => assumptions.push("within a block in which the staked total changed, either the total at the start of the block or the current one may decide"),
        _ => {}
    }
    Some(PropertyPlan { entries, rule, assumptions })
}
fn main() {
    let _ = Decimal::from_str("1");
    run_main(plan)
}
