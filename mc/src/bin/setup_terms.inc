// S02: staking, reward, vesting and swap contracts start only on workable terms.
const S2: &[&str] = &["S02"];

/// An address named in a request: fitting, a contract of another kind, no contract at all, no address.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Ad {
    Good,
    Other,
    Nobody,
    Invalid,
}
const AD: [Ad; 4] = [Ad::Good, Ad::Other, Ad::Nobody, Ad::Invalid];
/// An optional address: absent, valid, invalid.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Who {
    None,
    Ok,
    Bad,
}
const WHO: [Who; 3] = [Who::None, Who::Ok, Who::Bad];
impl Who {
    fn json(self) -> Value {
        match self {
            Who::None => Value::Null,
            Who::Ok => json!("own"),
            Who::Bad => json!("A"),
        }
    }
    fn ok(self) -> bool {
        self != Who::Bad
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Em {
    Paused,
    Immediate,
    /// amount, duration, continuous
    Linear(u64, Dur, bool),
}
impl Em {
    fn json(self) -> Value {
        match self {
            Em::Paused => json!({"paused": {}}),
            Em::Immediate => json!({"immediate": {}}),
            Em::Linear(a, d, c) => json!({"linear": {"amount": a.to_string(), "duration": d.json(), "continuous": c}}),
        }
    }
    fn ok(self) -> bool {
        match self {
            Em::Linear(a, d, _) => a > 0 && d.ok(),
            _ => true,
        }
    }
}
#[derive(Clone, Debug, PartialEq, Hash, Serialize, Deserialize)]
enum Term {
    Stake { owner: Who, token: Ad, dur: Dur },
    /// reward token: none = coins
    External { owner: Who, staking: Ad, token: Option<Ad>, length: u64 },
    Drip { owner: Who, staking: Ad, token: Ad, rate: u64 },
    /// voting contract (or one without any power), height relative to now
    Fund { voting: Ad, empty: bool, back: i64, period: Dur },
    Rewards { owner: Who },
    /// a distribution: coins sent along: 0 none, 1 right, 2 wrong denom, 3 two denoms
    Dist { by: u8, token: Option<Ad>, voting: Ad, hook: Who, dest: Who, open: Option<bool>, em: Em, coins: u8 },
    /// a change of one setting of a distribution: None = left alone
    Update { by: u8, id: u64, voting: Option<Ad>, hook: Who, dest: Who, open: Option<bool>, em: Option<Em>, coins: bool },
    /// coins sent along: 0 none, 1 exact, 2 one less, 3 one more, 4 wrong denom, 5 right and wrong
    Vest { owner: Who, recipient: Who, total: u64, token: Option<Ad>, curve: Option<Vec<(u64, u64)>>, start: Option<i64>, length: u64, coins: u8 },
    /// first and second party, what each promises
    Swap { who: [u8; 2], give: [(Option<Ad>, u64); 2] },
}
struct TW {
    sim: Sim,
    code: std::collections::BTreeMap<&'static str, u64>,
    token: String,
    staking: String,
    voting: String,
    empty: String,
    other: String,
    dist: String,
    heights: [u64; 2],
}
struct TH {
    th: bool,
}
fn term_cases(th: bool) -> Vec<Term> {
    let mut v = vec![];
    let durs = [Dur::None, Dur::H(3), Dur::T(60), Dur::H(0), Dur::T(0)];
    for owner in WHO {
        v.push(Term::Rewards { owner });
        for token in AD {
            for dur in durs {
                v.push(Term::Stake { owner, token, dur });
            }
        }
        for staking in AD {
            for length in [0, 1, 2, 1000] {
                for token in [None, Some(Ad::Good), Some(Ad::Invalid)] {
                    v.push(Term::External { owner, staking, token, length });
                }
            }
            if owner != Who::None {
                for token in AD {
                    for rate in [0, 1, 7] {
                        v.push(Term::Drip { owner, staking, token, rate });
                    }
                }
            }
        }
    }
    for voting in AD {
        for empty in [false, true] {
            for back in [-1, 0, 1, 2, 3, 4] {
                for period in [Dur::H(1), Dur::H(10), Dur::T(60), Dur::H(0), Dur::T(0)] {
                    v.push(Term::Fund { voting, empty, back, period });
                }
            }
        }
    }
    let ems = [
        Em::Paused,
        Em::Immediate,
        Em::Linear(5, Dur::H(2), false),
        Em::Linear(5, Dur::T(10), true),
        Em::Linear(1, Dur::H(1), true),
        Em::Linear(0, Dur::H(2), false),
        Em::Linear(5, Dur::H(0), true),
        Em::Linear(5, Dur::T(0), false),
    ];
    let toks = [None, Some(Ad::Good), Some(Ad::Other), Some(Ad::Nobody), Some(Ad::Invalid)];
    for token in toks {
        for voting in AD {
            for hook in [Who::Ok, Who::Bad] {
                for dest in WHO {
                    for em in ems {
                        for coins in 0..4 {
                            if !th && coins > 1 && (hook, dest, em) != (Who::Ok, Who::None, ems[0]) {
                                continue;
                            }
                            if !th && (voting, hook, dest) != (Ad::Good, Who::Ok, Who::None) && em != ems[0] && em != ems[2] {
                                continue;
                            }
                            for open in if th { vec![None, Some(true), Some(false)] } else { vec![[None, Some(true), Some(false)][(coins as usize + dest as usize) % 3]] } {
                                v.push(Term::Dist { by: 0, token, voting, hook, dest, open, em, coins });
                            }
                        }
                    }
                }
            }
        }
    }
    v.push(Term::Dist { by: 1, token: None, voting: Ad::Good, hook: Who::Ok, dest: Who::None, open: None, em: ems[0], coins: 0 });
    let none = Term::Update { by: 0, id: 1, voting: None, hook: Who::None, dest: Who::None, open: None, em: None, coins: false };
    v.push(none);
    for voting in toks {
        for hook in WHO {
            for dest in WHO {
                for open in [None, Some(true), Some(false)] {
                    for em in [None].into_iter().chain(ems.into_iter().map(Some)) {
                        if !th && em.is_some() && (voting.is_some() && hook != Who::None) {
                            continue;
                        }
                        // giving out at once needs somebody with power, before or after the change
                        if em == Some(Em::Immediate) && voting == Some(Ad::Good) {
                            continue;
                        }
                        for (by, id, coins) in [(0, 1, false), (1, 1, false), (0, 2, false), (0, 3, false), (0, 1, true)] {
                            if !th && (by, coins) != (0, false) && (voting, hook) != (None, Who::None) {
                                continue;
                            }
                            v.push(Term::Update { by, id, voting, hook, dest, open, em, coins });
                        }
                    }
                }
            }
        }
    }
    let curves: Vec<Option<Vec<(u64, u64)>>> = vec![
        None,
        Some(vec![(0, 0), (100, 10)]),
        Some(vec![(0, 0), (10, 4), (50, 4), (100, 10)]),
        Some(vec![(5, 0), (6, 10)]),
        Some(vec![(0, 0), (10, 10), (20, 9), (30, 10)]),
        Some(vec![(0, 0), (10, 6), (20, 5), (30, 10)]),
        Some(vec![(0, 0), (100, 9)]),
        Some(vec![(0, 0), (100, 11)]),
        Some(vec![(0, 1), (100, 10)]),
        Some(vec![(0, 0)]),
        Some(vec![(0, 10)]),
        Some(vec![]),
        Some(vec![(10, 0), (5, 10)]),
        Some(vec![(0, 0), (0, 10)]),
        Some(vec![(0, 0), (10, 5), (10, 10)]),
        Some(vec![(0, 0), (10, 0), (20, 0)]),
    ];
    // (the first point must lie after the start)
    let curves: Vec<_> = curves.into_iter().map(|c| c.map(|s| s.into_iter().map(|x| (x.0 + 1, x.1)).collect::<Vec<_>>())).collect();
    for owner in WHO {
        for recipient in [Who::Ok, Who::Bad] {
            for token in toks {
                for curve in &curves {
                    for total in [10, 0] {
                        for (start, length) in [(None, 100), (None, 0), (None, 1), (Some(-50), 100), (Some(-100), 100), (Some(-101), 100), (Some(-99), 100), (Some(0), 0), (Some(500), 1), (Some(500), 0)] {
                            for coins in 0..6 {
                                let odd = [owner == Who::Bad, recipient == Who::Bad, total == 0, coins > 1, (start, length) != (None, 100), curve.is_some(), token == Some(Ad::Other) || token == Some(Ad::Nobody) || token == Some(Ad::Invalid)];
                                // quick: at most two unusual things at once
                                if odd.iter().filter(|x| **x).count() > if th { 4 } else { 2 } {
                                    continue;
                                }
                                v.push(Term::Vest { owner, recipient, total, token, curve: curve.clone(), start, length, coins });
                            }
                        }
                    }
                }
            }
        }
    }
    let mut gives = vec![];
    for t in toks {
        for n in [0, 1, 5] {
            gives.push((t, n));
        }
    }
    for a in 0..3 {
        for b in 0..3 {
            for x in &gives {
                for y in &gives {
                    v.push(Term::Swap { who: [a, b], give: [*x, *y] });
                }
            }
        }
    }
    v
}
/// Never decreasing from nothing to the total, times strictly ordered, at least two points.
fn curve_ok(c: &Option<Vec<(u64, u64)>>, total: u64) -> bool {
    match c {
        None => true,
        Some(s) => s.len() >= 2 && s.windows(2).all(|w| w[0].0 < w[1].0 && w[0].1 <= w[1].1) && s[0].1 == 0 && s[s.len() - 1].1 == total,
    }
}
impl TH {
    fn ad<'a>(&self, w: &'a TW, a: Ad, good: &'a str) -> &'a str {
        match a {
            Ad::Good => good,
            Ad::Other => &w.other,
            Ad::Nobody => "nobody1",
            Ad::Invalid => "A",
        }
    }
    fn denom(&self, w: &TW, t: Option<Ad>) -> Value {
        match t {
            None => json!({"native": "ucosm"}),
            Some(a) => json!({"cw20": self.ad(w, a, &w.token)}),
        }
    }
}
fn tq(w: &TW, a: &str, m: Value) -> VResult<Value> {
    w.sim.query(a, &m).map_err(|e| Violation::new(S2, "query", format!("{} {}: {}", a, m, e)))
}
fn towner(w: &TW, a: &str, o: Value) -> VResult {
    Ok(same!(tq(w, a, json!({"ownership": {}}))?, json!({"owner": o, "pending_owner": null, "pending_expiry": null}), S2, "owner", "ownership"))
}
impl Harness for TH {
    type World = TW;
    type Model = bool;
    type Op = Term;
    fn setup(&self) -> (TW, bool) {
        let mut sim = Sim::new();
        let mut code = std::collections::BTreeMap::new();
        for (k, c) in [
            ("cw20", cw20_code as fn() -> Box<dyn cw_multi_test::Contract<cosmwasm_std::Empty>>),
            ("stake", stake_code),
            ("ext", ext_rewards_code),
            ("drip", reward_dist_code),
            ("fund", fund_dist_code),
            ("rewards", rewards_code),
            ("vest", vesting_code),
            ("swap", swap_code),
            ("power", power_table),
            ("pup", puppet),
        ] {
            let id = sim.store(c());
            code.insert(k, id);
        }
        for n in ["creator", "own", "eve"] {
            sim.mint(n, 1000, "ucosm");
            sim.mint(n, 1000, "uother");
        }
        sim.advance(10, 50);
        let mut put = |k: &str, m: Value| sim.init(code[k], "creator", &m, &[], k).unwrap().to_string();
        let token = put("cw20", json!({"name": "Tok", "symbol": "TOK", "decimals": 6, "initial_balances": [{"address": "own", "amount": "100"}], "mint": null, "marketing": null}));
        let staking = put("stake", json!({"owner": "own", "token_address": token, "unstaking_duration": null}));
        let other = put("pup", json!({}));
        let empty = put("power", json!({"powers": {}}));
        let voting = put("power", json!({"powers": {}}));
        let dist = put("rewards", json!({"owner": "own"}));
        let h0 = sim.height();
        sim.advance(1, 5);
        set_powers(&mut sim, &Addr::unchecked(&voting), &[("own", 3), ("eve", 4)]);
        sim.advance(1, 5);
        set_powers(&mut sim, &Addr::unchecked(&voting), &[("own", 5)]);
        let h1 = sim.height();
        sim.advance(1, 5);
        for denom in [json!({"native": "ucosm"}), json!({ "cw20": token })] {
            let m = json!({"create": {"denom": denom, "emission_rate": {"linear": {"amount": "9", "duration": {"height": 9}, "continuous": false}}, "vp_contract": voting, "hook_caller": "own",
                "open_funding": null, "withdraw_destination": null}});
            sim.exec("own", &dist, &m, &[]).unwrap();
        }
        sim.seal();
        (TW { sim, code, token, staking, voting, empty, other, dist, heights: [h0, h1] }, false)
    }
    fn sim<'a>(&self, w: &'a mut TW) -> &'a mut Sim {
        &mut w.sim
    }
    fn ops(&self, done: &bool) -> Vec<Term> {
        if *done {
            vec![]
        } else {
            term_cases(self.th)
        }
    }
    fn step(&self, w: &mut TW, done: &mut bool, op: &Term) -> VResult<String> {
        *done = true;
        let (h, t) = (w.sim.height(), w.sim.time());
        let before = w.sim.app.storage().dump();
        let mut made = String::new();
        let name = format!("{:?}", op).split(' ').next().unwrap().to_string();
        let (r, ok): (Result<Addr, String>, bool) = match op {
            Term::Stake { owner, token, dur } => {
                let m = json!({"owner": owner.json(), "token_address": self.ad(w, *token, &w.token), "unstaking_duration": dur.json()});
                (w.sim.init(w.code["stake"], "creator", &m, &[], "x"), owner.ok() && *token == Ad::Good && dur.ok())
            }
            Term::External { owner, staking, token, length } => {
                let m = json!({"owner": owner.json(), "staking_contract": self.ad(w, *staking, &w.staking), "reward_token": self.denom(w, *token), "reward_duration": length});
                (w.sim.init(w.code["ext"], "creator", &m, &[], "x"), owner.ok() && *staking == Ad::Good && *token != Some(Ad::Invalid) && *length > 0)
            }
            Term::Drip { owner, staking, token, rate } => {
                let m = json!({"owner": owner.json(), "staking_addr": self.ad(w, *staking, &w.staking), "reward_token": self.ad(w, *token, &w.token), "reward_rate": rate.to_string()});
                (w.sim.init(w.code["drip"], "creator", &m, &[], "x"), owner.ok() && *staking == Ad::Good && *token == Ad::Good)
            }
            Term::Fund { voting, empty, back, period } => {
                let at = h as i64 - back;
                let m = json!({"voting_contract": self.ad(w, *voting, if *empty { &w.empty } else { &w.voting }), "funding_period": period.json(), "distribution_height": at});
                let some = *voting == Ad::Good && !*empty && at as u64 > w.heights[0] + 1;
                (w.sim.init(w.code["fund"], "creator", &m, &[], "x"), *back >= 0 && some)
            }
            Term::Rewards { owner } => (w.sim.init(w.code["rewards"], "creator", &json!({"owner": owner.json()}), &[], "x"), owner.ok()),
            Term::Dist { by, token, voting, hook, dest, open, em, coins: c } => {
                let m = json!({"create": {"denom": self.denom(w, *token), "emission_rate": em.json(), "vp_contract": self.ad(w, *voting, &w.voting), "hook_caller": hook.json(),
                    "open_funding": open, "withdraw_destination": if *dest == Who::Ok { json!("eve") } else { dest.json() }}});
                let f = match c {
                    0 => vec![],
                    1 => coins(10, "ucosm"),
                    2 => coins(10, "uother"),
                    _ => vec![mc::sim::coin(10, "ucosm"), mc::sim::coin(10, "uother")],
                };
                let by = ["own", "eve"][*by as usize];
                let ok = by == "own"
                    && matches!(token, None | Some(Ad::Good))
                    && *voting == Ad::Good
                    && hook.ok()
                    && dest.ok()
                    && em.ok()
                    && (*c == 0 || (*c == 1 && token.is_none()));
                made = w.dist.clone();
                (w.sim.exec(by, &w.dist, &m, &f).map(|_| Addr::unchecked(&w.dist)).map_err(|e| format!("{:?}", e)), ok)
            }
            Term::Update { by, id, voting, hook, dest, open, em, coins: c } => {
                let m = json!({"update": {"id": id, "emission_rate": em.map(|e| e.json()), "vp_contract": voting.map(|v| self.ad(w, v, &w.empty).to_string()),
                    "hook_caller": if *hook == Who::Ok { json!("eve") } else { hook.json() },
                    "open_funding": open, "withdraw_destination": if *dest == Who::Ok { json!("eve") } else { dest.json() }}});
                let f = if *c { coins(1, "ucosm") } else { vec![] };
                let by = ["own", "eve"][*by as usize];
                let ok = by == "own" && *id <= 2 && matches!(voting, None | Some(Ad::Good)) && hook.ok() && dest.ok() && em.map_or(true, |e| e.ok()) && !*c;
                made = w.dist.clone();
                (w.sim.exec(by, &w.dist, &m, &f).map(|_| Addr::unchecked(&w.dist)).map_err(|e| format!("{:?}", e)), ok)
            }
            Term::Vest { owner, recipient, total, token, curve, start, length, coins: c } => {
                let at = start.map(|s| (t as i64 + s) as u64);
                let schedule = match curve {
                    None => json!("saturating_linear"),
                    Some(s) => json!({"piecewise_linear": s.iter().map(|x| json!([x.0, x.1.to_string()])).collect::<Vec<_>>()}),
                };
                let m = json!({"owner": owner.json(), "recipient": if *recipient == Who::Ok { json!("eve") } else { json!("A") }, "title": "t", "description": "d", "total": total.to_string(),
                    "denom": self.denom(w, *token), "schedule": schedule, "start_time": at.map(|s| (s as u128 * 1_000_000_000).to_string()), "vesting_duration_seconds": length,
                    "unbonding_duration_seconds": 7});
                let f = match c {
                    0 => vec![],
                    1 => coins(10, "ucosm"),
                    2 => coins(9, "ucosm"),
                    3 => coins(11, "ucosm"),
                    4 => coins(10, "uother"),
                    _ => vec![mc::sim::coin(10, "ucosm"), mc::sim::coin(10, "uother")],
                };
                let paid = match token {
                    None => *c == 1,
                    Some(a) => *a == Ad::Good && *c == 0,
                };
                let ok = owner.ok() && recipient.ok() && *total > 0 && curve_ok(curve, *total) && *length > 0 && at.unwrap_or(t) + length > t && paid;
                (w.sim.init(w.code["vest"], "creator", &m, &f, "x"), ok)
            }
            Term::Swap { who, give } => {
                let n = ["own", "eve", "A"];
                let side = |k: usize| {
                    let p = match give[k].0 {
                        None => json!({"native": {"denom": "ucosm", "amount": give[k].1.to_string()}}),
                        Some(a) => json!({"cw20": {"contract_addr": self.ad(w, a, &w.token), "amount": give[k].1.to_string()}}),
                    };
                    json!({"address": n[who[k] as usize], "promise": p})
                };
                let m = json!({"counterparty_one": side(0), "counterparty_two": side(1)});
                let ok = who[0] != who[1] && who.iter().all(|x| *x < 2) && give.iter().all(|g| g.1 > 0 && matches!(g.0, None | Some(Ad::Good)));
                (w.sim.init(w.code["swap"], "creator", &m, &[], "x"), ok)
            }
        };
        ensure!(r.is_ok() == ok, S2, "accept", "{:?} must be {}: {:?}", op, if ok { "accepted" } else { "refused" }, r);
        if !ok {
            ensure!(before == w.sim.app.storage().dump(), S2, "residue", "a refused creation left something behind");
            return Ok(format!("{} refused", name));
        }
        if made.is_empty() {
            made = r.unwrap().to_string();
        }
        let a = made.as_str();
        match op {
            Term::Stake { owner, dur, .. } => {
                towner(w, a, owner.json())?;
                same!(tq(w, a, json!({"get_config": {}}))?, json!({"token_address": w.token, "unstaking_duration": dur.json()}), S2, "config", "staking contract");
                same!(tq(w, a, json!({"total_value": {}}))?, json!({"total": "0"}), S2, "empty", "value");
                same!(tq(w, a, json!({"total_staked_at_height": {}}))?["total"], json!("0"), S2, "empty", "stake");
                let r = w.sim.exec("own", &w.token, &json!({"send": {"contract": a, "amount": "3", "msg": bin(&json!({"stake": {}}))}}), &[]);
                ensure!(r.is_ok(), S2, "unusable", "nobody can stake: {:?}", r.err());
            }
            Term::External { owner, token, length, .. } => {
                towner(w, a, owner.json())?;
                let want = json!({"config": {"staking_contract": w.staking, "reward_token": self.denom(w, *token)}, "reward": {"period_finish": 0, "reward_rate": "0", "reward_duration": length}});
                same!(tq(w, a, json!({"info": {}}))?, want, S2, "config", "external rewards");
            }
            Term::Drip { owner, rate, .. } => {
                towner(w, a, owner.json())?;
                let i = tq(w, a, json!({"info": {}}))?;
                let want = json!({"config": {"staking_addr": w.staking, "reward_rate": rate.to_string(), "reward_token": w.token}, "last_payment_block": h, "balance": "0"});
                same!(i, want, S2, "config", "reward distributor");
            }
            Term::Fund { back, period, .. } => {
                let at = h as i64 - back;
                same!(tq(w, a, json!({"voting_contract": {}}))?, json!({"contract": w.voting, "distribution_height": at}), S2, "config", "fund distributor");
                let p = if at as u64 > w.heights[1] { "9" } else { "7" };
                same!(tq(w, a, json!({"total_power": {}}))?["total_power"], json!(p), S2, "total", "total power at the distribution height");
                // funding is open exactly for the period asked for
                for k in 0..=13u64 {
                    let open = match period {
                        Dur::H(n) => k < *n,
                        Dur::T(n) => 5 * k < *n,
                        Dur::None => false,
                    };
                    let s = w.sim.snapshot();
                    w.sim.advance(k, 5 * k);
                    let r = w.sim.exec("own", a, &json!({"fund_native": {}}), &coins(1, "ucosm"));
                    w.sim.restore(&s);
                    same!(r.is_ok(), open, S2, "period", "funding {} blocks later with a period of {:?}", k, period);
                }
            }
            Term::Rewards { owner } => {
                towner(w, a, if *owner == Who::None { json!("creator") } else { owner.json() })?;
                same!(tq(w, a, json!({"distributions": {}}))?["distributions"], json!([]), S2, "empty", "distributions");
            }
            Term::Dist { token, dest, open, em, coins: c, .. } => {
                let d = tq(w, a, json!({"distribution": {"id": 3}}))?;
                let dest = if *dest == Who::Ok { "eve" } else { "own" };
                let got = json!([d["id"], d["denom"], d["vp_contract"], d["hook_caller"], d["open_funding"], d["withdraw_destination"], d["active_epoch"]["emission_rate"], d["historical_earned_puvp"]]);
                let want = json!([3, self.denom(w, *token), w.voting, "own", open.unwrap_or(true), dest, em.json(), "0"]);
                same!(got, want, S2, "config", "distribution");
                let paid = if *c == 1 { 10 } else { 0 };
                same!(w.sim.bal(a, "ucosm"), paid, S2, "funded", "coins taken");
                let all = tq(w, a, json!({"distributions": {}}))?;
                same!(all["distributions"].as_array().map(|l| l.len()), Some(3), S2, "listed", "distributions");
                same!(all["distributions"][2], d, S2, "listed", "distribution in the listing");
            }
            Term::Update { id, voting, hook, dest, open, em, .. } => {
                let old = json!({"linear": {"amount": "9", "duration": {"height": 9}, "continuous": false}});
                for k in 1..=2u64 {
                    let me = k == *id;
                    let d = tq(w, a, json!({"distribution": {"id": k}}))?;
                    let got = json!([d["id"], d["denom"], d["vp_contract"], d["hook_caller"], d["open_funding"], d["withdraw_destination"], d["active_epoch"]["emission_rate"], d["funded_amount"]]);
                    let want = json!([
                        k,
                        self.denom(w, if k == 1 { None } else { Some(Ad::Good) }),
                        if me && voting.is_some() { &w.empty } else { &w.voting },
                        if me && *hook == Who::Ok { "eve" } else { "own" },
                        if me { open.unwrap_or(true) } else { true },
                        if me && *dest == Who::Ok { "eve" } else { "own" },
                        em.filter(|_| me).map_or(old.clone(), |e| e.json()),
                        "0"
                    ]);
                    same!(got, want, S2, "config", "distribution {}", k);
                }
                // who may announce power changes now
                for (by, can) in [("own", true), ("eve", *hook == Who::Ok), ("creator", false)] {
                    for m in [
                        json!({"stake_change_hook": {"stake": {"addr": "own", "amount": "1"}}}),
                        json!({"nft_stake_change_hook": {"stake": {"addr": "own", "token_id": "1"}}}),
                        json!({"member_changed_hook": {"diffs": [{"key": "own", "old": null, "new": 1}]}}),
                    ] {
                        let s = w.sim.snapshot();
                        let r = w.sim.exec(by, a, &m, &[]);
                        w.sim.restore(&s);
                        same!(r.is_ok(), can, S2, "hook-caller", "{} by {} after {:?} ({:?})", m, by, op, r.err());
                    }
                }
            }
            Term::Vest { owner, total, token, curve, start, length, .. } => {
                towner(w, a, owner.json())?;
                let i = tq(w, a, json!({"info": {}}))?;
                let at = start.map_or(t, |s| (t as i64 + s) as u64);
                let status = if token.is_none() { "funded" } else { "unfunded" };
                let got = json!([i["start_time"], i["status"], i["recipient"], i["denom"], i["claimed"], i["slashed"], i["title"], i["description"]]);
                let want = json!([(at as u128 * 1_000_000_000).to_string(), status, "eve", self.denom(w, *token), "0", "0", "t", "d"]);
                same!(got, want, S2, "config", "vesting");
                same!(tq(w, a, json!({"total_to_vest": {}}))?, json!(total.to_string()), S2, "total", "total to vest");
                same!(w.sim.bal(a, "ucosm"), if token.is_none() { *total as u128 } else { 0 }, S2, "funded", "coins held");
                let points = curve.clone().unwrap_or(vec![(0, 0), (*length, *total)]);
                for x in 0..=120u64 {
                    let v: u128 = tq(w, a, json!({"vested": {"t": ((at + x) as u128 * 1_000_000_000).to_string()}}))?.as_str().unwrap().parse().unwrap();
                    // within one token of the straight line between the two points around it
                    let k = points.iter().rposition(|p| p.0 <= x);
                    let (lo, hi) = match k {
                        None => (0, 0),
                        Some(k) if k + 1 == points.len() => (*total as u128, *total as u128),
                        Some(k) => {
                            let ((a0, b0), (a1, b1)) = (points[k], points[k + 1]);
                            let n = (b1 - b0) as u128 * (x - a0) as u128;
                            let d = (a1 - a0) as u128;
                            (b0 as u128 + n / d, b0 as u128 + (n + d - 1) / d)
                        }
                    };
                    ensure!(lo <= v && v <= hi, S2, "schedule", "{} vested after {} seconds, not {} to {}", v, x, lo, hi);
                }
            }
            Term::Swap { who, give } => {
                let n = ["own", "eve"];
                let st = tq(w, a, json!({"status": {}}))?;
                for (k, f) in ["counterparty_one", "counterparty_two"].into_iter().enumerate() {
                    let p = match give[k].0 {
                        None => json!({"native": {"denom": "ucosm", "amount": give[k].1.to_string()}}),
                        Some(_) => json!({"cw20": {"contract_addr": w.token, "amount": give[k].1.to_string()}}),
                    };
                    same!(st[f], json!({"address": n[who[k] as usize], "promise": p, "provided": false}), S2, "config", "{}", f);
                }
            }
        }
        Ok(format!("{} created", name))
    }
    fn invariant(&self, _w: &mut TW, _m: &bool) -> VResult {
        Ok(())
    }
}
fn plan_terms(th: bool) -> PropertyPlan {
    PropertyPlan {
        entries: vec![Entry::new("terms", TH { th }, 1)],
        rule: "the product, for cw20 staking, external rewards, reward distributor, fund distributor, rewards distributor (its distributions and their changes), vesting and swap contracts, of owners, parties and recipients (absent, valid, invalid), token, staking and voting addresses (fitting, of another kind, no contract, no address), durations, rates, totals, schedules, heights and coins around every limit (quick: at most two unusual ones at once where the product is large); after each, acceptance against the reference, nothing left behind by a refusal, and every reported term, owner and balance, the vested amount at every second and the funding period at every block are compared with the request",
        assumptions: ASSUME.to_vec(),
    }
}
