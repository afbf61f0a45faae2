// V05: creation of voting modules.
const V5: &[&str] = &["V05"];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Act {
    None,
    /// raw decimal
    Pct(u64),
    Count(u64),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Dur {
    None,
    H(u64),
    T(u64),
}
impl Dur {
    fn json(self) -> Value {
        match self {
            Dur::None => Value::Null,
            Dur::H(n) => json!({ "height": n }),
            Dur::T(n) => json!({ "time": n }),
        }
    }
    fn ok(self) -> bool {
        self != Dur::H(0) && self != Dur::T(0)
    }
}
impl Act {
    fn json(self) -> Value {
        match self {
            Act::None => Value::Null,
            Act::Pct(p) => json!({"percentage": {"percent": dec(p as u128)}}),
            Act::Count(n) => json!({"absolute_count": {"count": n.to_string()}}),
        }
    }
    /// Is this threshold allowed for a supply of so many (None: the supply cannot be told)?
    fn ok(self, supply: Option<u64>) -> bool {
        match self {
            Act::None => true,
            Act::Pct(p) => p > 0 && p as u128 <= ONE,
            Act::Count(n) => supply.map_or(false, |s| n > 0 && n <= s),
        }
    }
}
type Bal = (String, u64);
/// What a factory answers.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Ans {
    Good,
    /// with the address of a token contract / an address that is none
    Contract,
    BadContract,
    /// with set-up messages for the DAO, working or failing
    Callback,
    Boom,
    NoData,
    Garbage,
    /// the request itself is not a call
    NotACall,
    NotAMessage,
    Fails,
}
const ANS: [Ans; 10] = [
    Ans::Good,
    Ans::Contract,
    Ans::BadContract,
    Ans::Callback,
    Ans::Boom,
    Ans::NoData,
    Ans::Garbage,
    Ans::NotACall,
    Ans::NotAMessage,
    Ans::Fails,
];
#[derive(Clone, Debug, PartialEq, Hash, Serialize, Deserialize)]
enum Case {
    Cw4New { members: Vec<Bal> },
    /// group, group without members, group with a zero weight, no group at all, no address
    Cw4Old { which: u8 },
    TokenNew { bals: Vec<Bal>, dao: Option<u64>, meta: u8, dur: Dur, act: Act },
    /// a denom with or without supply
    TokenOld { supply: bool, dur: Dur, act: Act },
    /// the factory gives the DAO this much of the supply of ten
    TokenFac { ans: Ans, given: u64, fund: bool, dur: Dur, act: Act },
    NftNew { msg: bool, nfts: Vec<u8>, dur: Dur, act: Act },
    /// collection, another contract, no address
    NftOld { which: u8, dur: Dur, act: Act },
    NftFac { ans: Ans, which: u8, fund: bool, dur: Dur, act: Act },
    Cw20New { bals: Vec<Bal>, dao: Option<u64>, market: bool, dur: Dur, act: Act },
    /// token, another contract, no address; staking: of this token, of another one, none, a new one
    Cw20Old { token: u8, staking: u8, dur: Dur, act: Act },
    RolesNew { nfts: Vec<(String, String, Option<u64>)> },
    RolesOld { bad: bool },
    OnftOld { supply: bool, dur: Dur, act: Act },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct VOp {
    /// put in place of another voting module rather than created with the DAO
    late: bool,
    case: Case,
}
struct VW {
    sim: Sim,
    core: u64,
    pup: u64,
    code: std::collections::BTreeMap<&'static str, u64>,
    /// a DAO with a stand-in voting module
    dao: String,
    /// addresses the DAO and the voting module will get when created together / the module alone
    next_dao: String,
    next_mod: [String; 2],
    target: String,
    factory: String,
    group: [String; 3],
    token: String,
    staking: [String; 2],
    nft: String,
}
struct VH {
    th: bool,
}
fn voting_cases(th: bool) -> Vec<Case> {
    let s = |l: &[(&str, u64)]| -> Vec<Bal> { l.iter().map(|x| (x.0.to_string(), x.1)).collect() };
    let mut v = vec![];
    let mut members = vec![s(&[])];
    let who: &[(&str, u64)] = &[("aa1", 1), ("bb1", 2), ("aa1", 3), ("aa1", 0), ("bb1", 0), ("A", 1), ("cc1", u64::MAX)];
    for a in who {
        members.push(s(&[*a]));
        for b in who {
            members.push(s(&[*a, *b]));
            for c in who {
                members.push(s(&[*a, *b, *c]));
            }
        }
    }
    // more than fit on a page, the last of them known from before
    let crowd = |k: u64| -> Vec<Bal> { (0..36).map(|i| (format!("m{:02}", i), i * k % 5)).chain([("aa1".to_string(), 7)]).collect() };
    members.extend([crowd(1), crowd(0), crowd(2).into_iter().chain([("m03".to_string(), 9)]).collect()]);
    for members in members {
        v.push(Case::Cw4New { members });
    }
    for which in 0..5 {
        v.push(Case::Cw4Old { which });
    }
    let durs = [Dur::None, Dur::H(3), Dur::T(60), Dur::H(0), Dur::T(0)];
    let pcts = [Act::None, Act::Pct(0), Act::Pct(1), Act::Pct(ONE as u64 / 2), Act::Pct(ONE as u64), Act::Pct(ONE as u64 + 1)];
    let acts = |counts: &[u64]| -> Vec<Act> { pcts.iter().copied().chain(counts.iter().map(|n| Act::Count(*n))).collect() };
    // the settings every kind takes: all of them, or only sound ones where they cannot interact
    let both = |counts: &[u64]| -> Vec<(Dur, Act)> {
        let mut r = vec![];
        for d in durs {
            for a in acts(counts) {
                r.push((d, a));
            }
        }
        r
    };
    let few = |counts: &[u64]| -> Vec<(Dur, Act)> {
        if th {
            return both(counts);
        }
        let mut r: Vec<(Dur, Act)> = acts(counts).into_iter().map(|a| (Dur::T(60), a)).collect();
        r.extend(durs.iter().map(|d| (*d, Act::None)));
        r
    };
    let bals = [
        s(&[("aa1", 1)]),
        s(&[]),
        s(&[("aa1", 0)]),
        s(&[("aa1", 1), ("bb1", 2)]),
        s(&[("bb1", 2), ("aa1", 3), ("bb1", 4)]),
        s(&[("aa1", 1), ("A", 2)]),
        crowd(1).into_iter().map(|x| (x.0, x.1 + 1)).collect(),
    ];
    for bals in &bals {
        for dao in [None, Some(0), Some(5)] {
            for meta in 0..4 {
                for (dur, act) in few(&[0, 1, 2, 3, 4, 6, 8, 9, 10]) {
                    v.push(Case::TokenNew { bals: bals.clone(), dao, meta, dur, act });
                }
            }
            for market in [false, true] {
                for (dur, act) in few(&[0, 1, 2, 3, 4, 6, 8, 9, 10]) {
                    v.push(Case::Cw20New { bals: bals.clone(), dao, market, dur, act });
                }
            }
        }
    }
    for (dur, act) in both(&[0, 1, 2, 9, 10, 11]) {
        for supply in [false, true] {
            v.push(Case::TokenOld { supply, dur, act });
            v.push(Case::OnftOld { supply, dur, act });
        }
        for which in 0..3 {
            v.push(Case::NftOld { which, dur, act });
        }
        for token in 0..3 {
            for staking in 0..4 {
                v.push(Case::Cw20Old { token, staking, dur, act });
            }
        }
    }
    for ans in ANS {
        for fund in [false, true] {
            for (dur, act) in few(&[0, 1, 6, 7, 10, 11]) {
                for given in [0, 4, 10] {
                    v.push(Case::TokenFac { ans, given, fund, dur, act });
                }
            }
            // the size of the collection is the factory's business
            for (dur, act) in few(&[1, 2]) {
                for which in 0..3 {
                    v.push(Case::NftFac { ans, which, fund, dur, act });
                }
            }
        }
    }
    let mut nfts: Vec<Vec<u8>> = vec![vec![]];
    for a in 0..7 {
        nfts.push(vec![a]);
        for b in 0..7 {
            nfts.push(vec![a, b]);
            if th {
                for c in 0..7 {
                    nfts.push(vec![a, b, c]);
                }
            }
        }
    }
    nfts.push((10..46).chain([0]).collect());
    nfts.push((10..46).chain([10]).collect());
    nfts.push(vec![2, 0, 3]);
    nfts.push(vec![0, 1, 4]);
    for nfts in nfts {
        for (dur, act) in few(&[0, 1, 2, 3]) {
            for msg in [true, false] {
                if msg || nfts.len() == 1 {
                    v.push(Case::NftNew { msg, nfts: nfts.clone(), dur, act });
                }
            }
        }
    }
    let r = |id: &str, who: &str, w: Option<u64>| (id.to_string(), who.to_string(), w);
    let kinds = [r("1", "aa1", Some(1)), r("2", "bb1", Some(2)), r("3", "aa1", None), r("4", "aa1", Some(4)), r("1", "bb1", Some(1)), r("5", "A", Some(1)), r("6", "bb1", Some(0))];
    v.push(Case::RolesNew { nfts: vec![] });
    for a in &kinds {
        v.push(Case::RolesNew { nfts: vec![a.clone()] });
        for b in &kinds {
            v.push(Case::RolesNew { nfts: vec![a.clone(), b.clone()] });
            for c in &kinds {
                v.push(Case::RolesNew { nfts: vec![a.clone(), b.clone(), c.clone()] });
            }
        }
    }
    let crowd = |k: u64| -> Vec<_> { (0..36).map(|i| r(&format!("t{:02}", i), &format!("m{:02}", i * k % 36), Some(i % 3 + 1))).chain([r("1", "aa1", Some(5))]).collect() };
    v.push(Case::RolesNew { nfts: crowd(1) });
    v.push(Case::RolesNew { nfts: crowd(18) });
    v.push(Case::RolesNew { nfts: crowd(1).into_iter().chain([r("t04", "bb1", Some(2))]).collect() });
    v.push(Case::RolesOld { bad: false });
    v.push(Case::RolesOld { bad: true });
    v
}
fn bin(v: &Value) -> Value {
    json!(cosmwasm_std::Binary(serde_json::to_vec(v).unwrap()))
}
fn own(sim: &Sim, a: &str, dao: &str, what: &str) -> VResult {
    let o: Value = sim.query(a, &json!({"ownership": {}})).map_err(|e| Violation::new(V5, "owner", format!("{} {}: {}", what, a, e)))?;
    same!(o, json!({"owner": dao, "pending_owner": null, "pending_expiry": null}), V5, "owner", "ownership of the {}", what);
    Ok(())
}
impl VH {
    fn nft_msg(&self, k: u8, module: &str) -> Value {
        let mint = |id: &str, who: &str| json!({"mint": {"token_id": id, "owner": who, "token_uri": "u", "extension": {}}});
        match k {
            0 => mint("1", "aa1"),
            1 => mint("2", "bb1"),
            2 => mint("3", module),
            3 => json!({"burn": {"token_id": "3"}}),
            4 => json!({"approve_all": {"operator": "aa1"}}),
            5 => mint("4", "A"),
            10.. => mint(&format!("t{}", k), &format!("m{}", k)),
            _ => json!({"nonsense": {}}),
        }
    }
    /// Tokens and owners after the messages, None when one of them fails.
    fn nfts(&self, l: &[u8], module: &str) -> Option<Vec<(String, String)>> {
        let mut v: Vec<(String, String)> = vec![];
        for k in l {
            let mut mint = |id: &str, who: &str| {
                if v.iter().any(|x| x.0 == id) {
                    return None;
                }
                v.push((id.into(), who.into()));
                Some(())
            };
            match k {
                0 => mint("1", "aa1")?,
                1 => mint("2", "bb1")?,
                2 => mint("3", module)?,
                3 => {
                    let i = v.iter().position(|x| x.0 == "3")?;
                    v.remove(i);
                }
                4 => {}
                10.. => mint(&format!("t{}", k), &format!("m{}", k))?,
                _ => return None,
            }
        }
        v.sort();
        Some(v)
    }
    fn factory_call(&self, w: &VW, dao: &str, ans: Ans, pre: Vec<CosmosMsg>, key: &str, val: &str, fund: bool) -> Value {
        let cb = |m: CosmosMsg| json!({ "msgs": [m] });
        let mut d = json!({ key: val, "module_instantiate_callback": null });
        if key == "denom" {
            d["token_contract"] = Value::Null;
        }
        match ans {
            Ans::Contract => d["token_contract"] = json!(w.target),
            Ans::BadContract => d["token_contract"] = json!("A"),
            Ans::Callback => d["module_instantiate_callback"] = cb(hit(&w.target, 7)),
            Ans::Boom => d["module_instantiate_callback"] = cb(boom(&w.target)),
            Ans::Garbage => d = json!({"other": 1}),
            _ => {}
        }
        let mut p = json!({ "emit": pre, "data": d });
        if ans == Ans::NoData {
            p.as_object_mut().unwrap().remove("data");
        }
        let p = if ans == Ans::Fails { json!({"puppet": {"boom": {}}}) } else { json!({ "puppet": p }) };
        let funds = if fund { coins(1, "ucosm") } else { vec![] };
        bin(&match ans {
            Ans::NotACall => json!({"instantiate": {"admin": dao, "code_id": w.pup, "msg": bin(&json!({})), "funds": [], "label": "x"}}),
            Ans::NotAMessage => json!({"denom": "uexist"}),
            _ => json!({"execute": {"contract_addr": w.factory, "msg": bin(&p), "funds": funds}}),
        })
    }
    /// Code, creation message and whether it must be accepted.
    fn request(&self, w: &VW, case: &Case, dao: &str, module: &str) -> (&'static str, Value, bool) {
        let valid = |l: &[Bal]| l.iter().all(|x| x.0 != "A");
        let sum = |l: &[Bal]| l.iter().map(|x| x.1).sum::<u64>();
        let uniq = |l: &[Bal]| l.iter().enumerate().all(|(i, x)| l[..i].iter().all(|y| y.0 != x.0));
        match case {
            Case::Cw4New { members } => {
                let l: Vec<Value> = members.iter().map(|x| json!({"addr": x.0, "weight": x.1})).collect();
                let total: u128 = members.iter().map(|x| x.1 as u128).sum();
                let ok = uniq(members) && valid(members) && total > 0 && total <= u64::MAX as u128;
                ("vcw4", json!({"group_contract": {"new": {"cw4_group_code_id": w.code["cw4"], "initial_members": l}}}), ok)
            }
            Case::Cw4Old { which } => {
                let a = match which {
                    0 => &w.group[0],
                    1 => &w.group[1],
                    2 => &w.group[2],
                    3 => &w.target,
                    _ => "A",
                };
                ("vcw4", json!({"group_contract": {"existing": {"address": a}}}), matches!(which, 0 | 2))
            }
            Case::TokenNew { bals, dao: db, meta, dur, act } => {
                let l: Vec<Value> = bals.iter().map(|x| json!({"address": x.0, "amount": x.1.to_string()})).collect();
                let m = match meta {
                    0 => Value::Null,
                    k => {
                        let unit = |d: &str, e: u32| json!({"denom": d, "exponent": e.to_string(), "aliases": [format!("x{}", d)]});
                        json!({"name": "Name", "description": "Desc", "symbol": "SYM", "display": "disp", "additional_denom_units": match k {
                            1 => Value::Null,
                            2 => json!([unit("disp", 6)]),
                            _ => json!([unit("disp", 6), unit("milli", 3), unit("big", 9)]),
                        }})
                    }
                };
                let ok = dur.ok() && act.ok(Some(sum(bals))) && sum(bals) > 0 && valid(bals);
                (
                    "vtoken",
                    json!({"token_info": {"new": {"token_issuer_code_id": w.code["issuer"], "subdenom": "sub", "metadata": m,
                        "initial_balances": l, "initial_dao_balance": db.map(|x| x.to_string())}},
                        "unstaking_duration": dur.json(), "active_threshold": act.json()}),
                    ok,
                )
            }
            Case::TokenOld { supply, dur, act } => {
                let d = if *supply { "uexist" } else { "unone" };
                let ok = dur.ok() && act.ok(Some(if *supply { 10 } else { 0 }));
                ("vtoken", json!({"token_info": {"existing": {"denom": d}}, "unstaking_duration": dur.json(), "active_threshold": act.json()}), ok)
            }
            Case::TokenFac { ans, given, fund, dur, act } => {
                let pre = match given {
                    0 => vec![],
                    g => vec![cosmwasm_std::BankMsg::Send { to_address: dao.into(), amount: coins(*g as u128, "uexist") }.into()],
                };
                let b = self.factory_call(w, dao, *ans, pre, "denom", "uexist", *fund);
                let ok = dur.ok() && act.ok(Some(10 - given)) && *given < 10 && matches!(ans, Ans::Good | Ans::Contract | Ans::Callback);
                ("vtoken", json!({"token_info": {"factory": b}, "unstaking_duration": dur.json(), "active_threshold": act.json()}), ok)
            }
            Case::NftNew { msg, nfts, dur, act } => {
                let m = if *msg { json!({"name": "Name", "symbol": "SYM", "minter": "someone"}) } else { json!({"name": "Name"}) };
                let l: Vec<Value> = nfts.iter().map(|k| bin(&self.nft_msg(*k, module))).collect();
                let end = self.nfts(nfts, module);
                let n = end.map_or(0, |v| v.len() as u64);
                let ok = *msg && dur.ok() && n > 0 && act.ok(Some(n));
                (
                    "vcw721",
                    json!({"nft_contract": {"new": {"code_id": w.code["cw721"], "label": "collection", "msg": bin(&m), "initial_nfts": l}},
                        "unstaking_duration": dur.json(), "active_threshold": act.json()}),
                    ok,
                )
            }
            Case::NftOld { which, dur, act } => {
                let a = match which {
                    0 => &w.nft,
                    1 => &w.target,
                    _ => "A",
                };
                let ok = dur.ok() && *which < 2 && act.ok(if *which == 0 { Some(2) } else { None });
                ("vcw721", json!({"nft_contract": {"existing": {"address": a}}, "unstaking_duration": dur.json(), "active_threshold": act.json()}), ok)
            }
            Case::NftFac { ans, which, fund, dur, act } => {
                let a = match which {
                    0 => &w.nft,
                    1 => &w.target,
                    _ => "A",
                };
                let b = self.factory_call(w, dao, *ans, vec![], "nft_contract", a, *fund);
                let ok = dur.ok() && act.ok(Some(2)) && *which == 0 && matches!(ans, Ans::Good | Ans::Callback);
                ("vcw721", json!({"nft_contract": {"factory": b}, "unstaking_duration": dur.json(), "active_threshold": act.json()}), ok)
            }
            Case::Cw20New { bals, dao: db, market, dur, act } => {
                let l: Vec<Value> = bals.iter().map(|x| json!({"address": x.0, "amount": x.1.to_string()})).collect();
                let m = if *market { json!({"project": "proj", "description": "desc", "marketing": "aa1", "logo": null}) } else { Value::Null };
                let ok = dur.ok() && act.ok(Some(sum(bals))) && sum(bals) > 0 && valid(bals) && uniq(bals);
                (
                    "vcw20",
                    json!({"token_info": {"new": {"code_id": w.code["cw20"], "label": "token", "name": "Name", "symbol": "SYM", "decimals": 6,
                        "initial_balances": l, "marketing": m, "staking_code_id": w.code["stake"], "unstaking_duration": dur.json(),
                        "initial_dao_balance": db.map(|x| x.to_string())}}, "active_threshold": act.json()}),
                    ok,
                )
            }
            Case::Cw20Old { token, staking, dur, act } => {
                let t = match token {
                    0 => &w.token,
                    1 => &w.target,
                    _ => "A",
                };
                let st = match staking {
                    0 => json!({"existing": {"staking_contract_address": w.staking[0]}}),
                    1 => json!({"existing": {"staking_contract_address": w.staking[1]}}),
                    2 => json!({"existing": {"staking_contract_address": w.target}}),
                    _ => json!({"new": {"staking_code_id": w.code["stake"], "unstaking_duration": dur.json()}}),
                };
                let ok = *token == 0 && act.ok(Some(10)) && (*staking == 0 || *staking == 3 && dur.ok());
                ("vcw20", json!({"token_info": {"existing": {"address": t, "staking_contract": st}}, "active_threshold": act.json()}), ok)
            }
            Case::RolesNew { nfts } => {
                let l: Vec<Value> = nfts
                    .iter()
                    .map(|x| json!({"token_id": x.0, "owner": x.1, "token_uri": format!("uri{}", x.0), "extension": {"role": format!("role{}", x.0), "weight": x.2.unwrap_or(9)}}))
                    .collect();
                let ids: Vec<Bal> = nfts.iter().map(|x| (x.0.clone(), 0)).collect();
                let ok = !nfts.is_empty() && uniq(&ids) && nfts.iter().all(|x| x.1 != "A");
                ("vroles", json!({"nft_contract": {"new": {"code_id": w.code["roles"], "label": "roles", "name": "Name", "symbol": "SYM", "initial_nfts": l}}}), ok)
            }
            Case::RolesOld { bad } => ("vroles", json!({"nft_contract": {"existing": {"address": if *bad { "A" } else { &w.nft }}}}), !bad),
            Case::OnftOld { supply, dur, act } => {
                let id = if *supply { "coll" } else { "nothing" };
                let ok = dur.ok() && act.ok(Some(if *supply { 2 } else { 0 }));
                ("vonft", json!({"onft_collection": {"existing": {"id": id}}, "unstaking_duration": dur.json(), "active_threshold": act.json()}), ok)
            }
        }
    }
    fn created(&self, w: &VW, a: &str, code: &str, by: &str, dao: &str, what: &str) -> VResult {
        let c = w.sim.app.wrap().query_wasm_contract_info(a).map_err(|e| Violation::new(V5, "created", format!("{} {}: {}", what, a, e)))?;
        same!((c.code_id, c.creator.as_str(), c.admin.as_deref()), (w.code[code], by, Some(dao)), V5, "created", "code, creator and upgrade administrator of the {}", what);
        Ok(())
    }
    fn check(&self, w: &mut VW, case: &Case, dao: &str, m: &str) -> VResult {
        let q = |w: &VW, a: &str, k: Value| -> VResult<Value> { w.sim.query(a, &k).map_err(|e| Violation::new(V5, "query", format!("{} on {}: {}", k, a, e))) };
        same!(q(w, m, json!({"dao": {}}))?, json!(dao), V5, "dao", "DAO of the module");
        let power = |w: &VW, who: &str| -> VResult<u128> {
            Ok(q(w, m, json!({"voting_power_at_height": {"address": who}}))?["power"].as_str().unwrap().parse().unwrap())
        };
        let total = |w: &VW| -> VResult<u128> { Ok(q(w, m, json!({"total_power_at_height": {}}))?["power"].as_str().unwrap().parse().unwrap()) };
        let settings = |w: &VW, act: Act| -> VResult { Ok(same!(q(w, m, json!({"active_threshold": {}}))?, json!({"active_threshold": act.json()}), V5, "threshold", "activation threshold")) };
        let called = |w: &VW, ans: Ans, fund: bool| -> VResult {
            let yes = ans == Ans::Callback;
            same!(hits(&w.sim, &w.target, 7), yes as u64, V5, "callback", "set-up messages run");
            let s = puppet_get(&w.sim, &w.target, "senders");
            ensure!(!yes || s == json!([dao]), V5, "callback-identity", "set-up messages run by {}", s);
            same!(w.sim.bal(&w.factory, "ucosm"), fund as u128, V5, "factory-funds", "funds given to the factory");
            Ok(())
        };
        match case {
            Case::Cw4New { members } => {
                let g = q(w, m, json!({"group_contract": {}}))?.as_str().unwrap().to_string();
                self.created(w, &g, "cw4", m, dao, "group")?;
                same!(q(w, &g, json!({"admin": {}}))?, json!({ "admin": dao }), V5, "group-admin", "administrator of the group");
                let mut l: Vec<Value> = members.iter().map(|x| json!({"addr": x.0, "weight": x.1})).collect();
                l.sort_by_key(|x| x["addr"].as_str().unwrap().to_string());
                let mut got: Vec<Value> = vec![];
                loop {
                    let after = got.last().map(|x| x["addr"].clone());
                    let page = q(w, &g, json!({"list_members": {"start_after": after, "limit": 30}}))?["members"].as_array().unwrap().clone();
                    if page.is_empty() {
                        break;
                    }
                    got.extend(page);
                }
                same!(got, l, V5, "members", "members");
                w.sim.advance(1, 5);
                for x in members {
                    same!(power(w, &x.0)?, x.1 as u128, V5, "power", "power of {}", x.0);
                }
                same!(total(w)?, members.iter().map(|x| x.1 as u128).sum::<u128>(), V5, "total", "total power");
            }
            Case::Cw4Old { which } => same!(q(w, m, json!({"group_contract": {}}))?, json!(w.group[*which as usize]), V5, "group", "group"),
            Case::TokenNew { bals, dao: db, meta, dur, act } => {
                let t = q(w, m, json!({"token_contract": {}}))?.as_str().unwrap_or("").to_string();
                self.created(w, &t, "issuer", m, dao, "token issuer")?;
                let denom = format!("factory/{}/sub", t);
                same!(q(w, m, json!({"denom": {}}))?, json!({ "denom": denom }), V5, "denom", "denom");
                same!(q(w, &t, json!({"denom": {}}))?, json!({ "denom": denom }), V5, "issuer-denom", "denom of the issuer");
                own(&w.sim, &t, dao, "token issuer")?;
                same!(q(w, &t, json!({"mint_allowances": {}}))?["allowances"], json!([]), V5, "minters", "who may still mint");
                same!(q(w, &t, json!({"burn_allowances": {}}))?["allowances"], json!([]), V5, "burners", "who may burn");
                let f = w.sim.factory(&denom).unwrap_or_default();
                same!((f.admin.as_str(), f.hook.as_str()), (t.as_str(), ""), V5, "denom-admin", "administrator and hook of the denom");
                let dbal = db.unwrap_or(0);
                for who in ["aa1", "bb1", "cc1"].into_iter().chain(bals.iter().map(|x| x.0.as_str())) {
                    let b: u64 = bals.iter().filter(|x| x.0 == who).map(|x| x.1).sum();
                    same!(w.sim.bal(who, &denom), b as u128, V5, "balance", "balance of {}", who);
                }
                same!(w.sim.bal(dao, &denom), dbal as u128, V5, "dao-balance", "balance of the DAO");
                let s = w.sim.app.wrap().query_supply(&denom).unwrap().amount.u128();
                same!(s, bals.iter().map(|x| x.1 as u128).sum::<u128>() + dbal as u128, V5, "supply", "supply");
                let md = match meta {
                    0 => String::new(),
                    k => {
                        use osmosis_std::types::cosmos::bank::v1beta1 as tf;
                        let u = |d: &str, e, al: &str| tf::DenomUnit { denom: d.into(), exponent: e, aliases: vec![al.into()] };
                        let mut units = vec![u(&denom, 0, "sub")];
                        match k {
                            1 => {}
                            2 => units.push(u("disp", 6, "xdisp")),
                            _ => units.extend([u("milli", 3, "xmilli"), u("disp", 6, "xdisp"), u("big", 9, "xbig")]),
                        }
                        format!(
                            "{:?}",
                            tf::Metadata { description: "Desc".into(), denom_units: units, base: denom.clone(), display: "disp".into(), name: "Name".into(), symbol: "SYM".into() }
                        )
                    }
                };
                same!(f.metadata, md, V5, "metadata", "metadata");
                same!(q(w, m, json!({"get_config": {}}))?, json!({"unstaking_duration": dur.json()}), V5, "duration", "unstaking duration");
                settings(w, *act)?;
                // the token is the one that gives power
                let n = bals[0].1 as u128;
                let who = bals[0].0.clone();
                let r = w.sim.exec(&who, m, &json!({"stake": {}}), &coins(n, &denom));
                ensure!(r.is_ok(), V5, "stake", "a holder cannot stake: {:?}", r.err());
                w.sim.advance(1, 5);
                same!((power(w, &who)?, total(w)?), (n, n), V5, "power", "power of a staker");
            }
            Case::TokenOld { supply, dur, act } => {
                same!(q(w, m, json!({"denom": {}}))?, json!({"denom": if *supply { "uexist" } else { "unone" }}), V5, "denom", "denom");
                same!(q(w, m, json!({"token_contract": {}}))?, Value::Null, V5, "issuer", "token contract");
                same!(q(w, m, json!({"get_config": {}}))?, json!({"unstaking_duration": dur.json()}), V5, "duration", "unstaking duration");
                settings(w, *act)?;
            }
            Case::TokenFac { ans, given, fund, dur, act } => {
                same!(q(w, m, json!({"denom": {}}))?, json!({"denom": "uexist"}), V5, "denom", "denom");
                let t = if *ans == Ans::Contract { json!(w.target) } else { Value::Null };
                same!(q(w, m, json!({"token_contract": {}}))?, t, V5, "issuer", "token contract");
                same!(q(w, m, json!({"get_config": {}}))?, json!({"unstaking_duration": dur.json()}), V5, "duration", "unstaking duration");
                settings(w, *act)?;
                called(w, *ans, *fund)?;
                same!(w.sim.bal(dao, "uexist"), *given as u128, V5, "dao-balance", "what the factory gave the DAO");
            }
            Case::NftNew { nfts, dur, act, .. } => {
                let c = q(w, m, json!({"config": {}}))?;
                same!(c["unstaking_duration"], dur.json(), V5, "duration", "unstaking duration");
                settings(w, *act)?;
                let a = c["nft_address"].as_str().unwrap().to_string();
                self.created(w, &a, "cw721", m, dao, "collection")?;
                own(&w.sim, &a, dao, "collection")?;
                same!(q(w, &a, json!({"contract_info": {}}))?, json!({"name": "Name", "symbol": "SYM"}), V5, "nft-info", "name and symbol");
                let want = self.nfts(nfts, m).unwrap();
                let ids: Vec<&str> = want.iter().map(|x| x.0.as_str()).collect();
                same!(q(w, &a, json!({"all_tokens": {"limit": 100}}))?["tokens"], json!(ids), V5, "nfts", "tokens");
                for (id, who) in &want {
                    same!(q(w, &a, json!({"owner_of": {"token_id": id}}))?["owner"], json!(who), V5, "nft-owner", "owner of {}", id);
                    same!(q(w, &a, json!({"nft_info": {"token_id": id}}))?["token_uri"], json!("u"), V5, "nft-uri", "uri of {}", id);
                    if who != m {
                        let r = w.sim.exec(who, &a, &json!({"send_nft": {"contract": m, "token_id": id, "msg": ""}}), &[]);
                        ensure!(r.is_ok(), V5, "stake", "a holder cannot stake: {:?}", r.err());
                    }
                }
                w.sim.advance(1, 5);
                same!(total(w)?, want.iter().filter(|x| x.1 != m).count() as u128, V5, "power", "power of the stakers");
            }
            Case::NftOld { which, dur, act } => {
                let a = if *which == 0 { &w.nft } else { &w.target };
                same!(q(w, m, json!({"config": {}}))?, json!({"nft_address": a, "unstaking_duration": dur.json()}), V5, "config", "collection and unstaking duration");
                settings(w, *act)?;
            }
            Case::NftFac { ans, fund, dur, act, .. } => {
                same!(q(w, m, json!({"config": {}}))?, json!({"nft_address": w.nft, "unstaking_duration": dur.json()}), V5, "config", "collection and unstaking duration");
                settings(w, *act)?;
                called(w, *ans, *fund)?;
            }
            Case::Cw20New { bals, dao: db, market, dur, act } => {
                let t = q(w, m, json!({"token_contract": {}}))?.as_str().unwrap().to_string();
                let s = q(w, m, json!({"staking_contract": {}}))?.as_str().unwrap().to_string();
                self.created(w, &t, "cw20", m, dao, "token")?;
                self.created(w, &s, "stake", m, dao, "staking contract")?;
                own(&w.sim, &s, dao, "staking contract")?;
                same!(q(w, &s, json!({"get_config": {}}))?, json!({"token_address": t, "unstaking_duration": dur.json()}), V5, "staking", "staking contract");
                same!(q(w, &t, json!({"minter": {}}))?, json!({"minter": dao, "cap": null}), V5, "minter", "minter");
                let dbal = db.unwrap_or(0);
                let sum = bals.iter().map(|x| x.1).sum::<u64>() + dbal;
                same!(q(w, &t, json!({"token_info": {}}))?, json!({"name": "Name", "symbol": "SYM", "decimals": 6, "total_supply": sum.to_string()}), V5, "token", "token");
                for (who, b) in bals {
                    same!(w.sim.cw20(&t, who), *b as u128, V5, "balance", "balance of {}", who);
                }
                same!(w.sim.cw20(&t, dao), dbal as u128, V5, "dao-balance", "balance of the DAO");
                let want = if *market { json!(["proj", "desc", "aa1"]) } else { json!([null, null, null]) };
                let i = q(w, &t, json!({"marketing_info": {}}))?;
                same!(json!([i["project"], i["description"], i["marketing"]]), want, V5, "marketing", "marketing information");
                settings(w, *act)?;
                let n = bals[0].1 as u128;
                let r = w.sim.exec(&bals[0].0, &t, &json!({"send": {"contract": s, "amount": n.to_string(), "msg": bin(&json!({"stake": {}}))}}), &[]);
                ensure!(r.is_ok(), V5, "stake", "a holder cannot stake: {:?}", r.err());
                w.sim.advance(1, 5);
                same!((power(w, &bals[0].0)?, total(w)?), (n, n), V5, "power", "power of a staker");
            }
            Case::Cw20Old { staking, dur, act, .. } => {
                same!(q(w, m, json!({"token_contract": {}}))?, json!(w.token), V5, "token", "token");
                let s = q(w, m, json!({"staking_contract": {}}))?.as_str().unwrap().to_string();
                if *staking == 0 {
                    same!(s, w.staking[0], V5, "staking", "staking contract");
                } else {
                    self.created(w, &s, "stake", m, dao, "staking contract")?;
                    own(&w.sim, &s, dao, "staking contract")?;
                    same!(q(w, &s, json!({"get_config": {}}))?, json!({"token_address": w.token, "unstaking_duration": dur.json()}), V5, "staking", "staking contract");
                }
                settings(w, *act)?;
            }
            Case::RolesNew { nfts } => {
                let a = q(w, m, json!({"config": {}}))?["nft_address"].as_str().unwrap().to_string();
                self.created(w, &a, "roles", m, dao, "collection")?;
                own(&w.sim, &a, dao, "collection")?;
                same!(q(w, &a, json!({"contract_info": {}}))?, json!({"name": "Name", "symbol": "SYM"}), V5, "nft-info", "name and symbol");
                same!(q(w, &a, json!({"num_tokens": {}}))?["count"], json!(nfts.len()), V5, "nfts", "tokens");
                for x in nfts {
                    same!(q(w, &a, json!({"owner_of": {"token_id": x.0}}))?["owner"], json!(x.1), V5, "nft-owner", "owner of {}", x.0);
                    let i = q(w, &a, json!({"nft_info": {"token_id": x.0}}))?;
                    let want = json!({"token_uri": format!("uri{}", x.0), "extension": {"role": format!("role{}", x.0), "weight": x.2.unwrap_or(9)}});
                    same!(i, want, V5, "role", "role {}", x.0);
                }
                w.sim.advance(1, 5);
                for who in ["aa1", "bb1"].into_iter().chain(nfts.iter().map(|x| x.1.as_str())) {
                    let p: u64 = nfts.iter().filter(|x| x.1 == who).map(|x| x.2.unwrap_or(9)).sum();
                    same!(power(w, who)?, p as u128, V5, "power", "power of {}", who);
                }
                same!(total(w)?, nfts.iter().map(|x| x.2.unwrap_or(9) as u128).sum::<u128>(), V5, "total", "total power");
            }
            Case::RolesOld { .. } => same!(q(w, m, json!({"config": {}}))?, json!({"nft_address": w.nft}), V5, "config", "collection"),
            Case::OnftOld { supply, dur, act } => {
                let id = if *supply { "coll" } else { "nothing" };
                same!(q(w, m, json!({"config": {}}))?, json!({"onft_collection_id": id, "unstaking_duration": dur.json()}), V5, "config", "collection and unstaking duration");
                settings(w, *act)?;
            }
        }
        Ok(())
    }
}
impl Harness for VH {
    type World = VW;
    type Model = bool;
    type Op = VOp;
    fn setup(&self) -> (VW, bool) {
        let mut sim = Sim::new();
        let core = sim.store(core_code());
        let pup = sim.store(puppet());
        let mut code = std::collections::BTreeMap::new();
        for (k, c) in [
            ("vcw4", vcw4_code as fn() -> Box<dyn cw_multi_test::Contract<cosmwasm_std::Empty>>),
            ("cw4", cw4_code),
            ("vtoken", vtoken_code),
            ("issuer", issuer_code),
            ("vcw721", vcw721_code),
            ("cw721", cw721_code),
            ("vcw20", vcw20_code),
            ("cw20", cw20_code),
            ("stake", stake_code),
            ("vroles", vroles_code),
            ("roles", roles_code),
            ("vonft", vonft_code),
        ] {
            let id = sim.store(c());
            code.insert(k, id);
        }
        let put = |sim: &mut Sim, id: u64, m: Value| sim.init(id, "env", &m, &[], "env").unwrap().to_string();
        let target = put(&mut sim, pup, json!({}));
        let factory = put(&mut sim, pup, json!({}));
        let group = [
            put(&mut sim, code["cw4"], json!({"admin": null, "members": [{"addr": "aa1", "weight": 1}]})),
            put(&mut sim, code["cw4"], json!({"admin": null, "members": []})),
            put(&mut sim, code["cw4"], json!({"admin": null, "members": [{"addr": "aa1", "weight": 0}]})),
        ];
        let cw20 = |d: &str| json!({"name": d, "symbol": "OLD", "decimals": 6, "initial_balances": [{"address": "aa1", "amount": "10"}], "mint": null, "marketing": null});
        let token = put(&mut sim, code["cw20"], cw20("Old"));
        let other = put(&mut sim, code["cw20"], cw20("Other"));
        let stake = |t: &str| json!({"owner": null, "token_address": t, "unstaking_duration": null});
        let staking = [put(&mut sim, code["stake"], stake(&token)), put(&mut sim, code["stake"], stake(&other))];
        let nft = put(&mut sim, code["cw721"], json!({"name": "n", "symbol": "s", "minter": "env"}));
        for id in ["1", "2"] {
            sim.exec("env", &nft, &json!({"mint": {"token_id": id, "owner": "aa1", "token_uri": null, "extension": {}}}), &[]).unwrap();
            sim.onft_mint("coll", id, "aa1");
        }
        sim.mint(&factory, 10, "uexist");
        sim.mint("creator", 1000, "ucosm");
        let msg = |v: Value| {
            json!({"admin": null, "name": "n", "description": "d", "image_url": null, "automatically_add_cw20s": true, "automatically_add_cw721s": false, "dao_uri": null,
                "voting_module_instantiate_info": v,
                "proposal_modules_instantiate_info": [{"code_id": pup, "msg": bin(&json!({})), "admin": null, "funds": [], "label": "p"}]})
        };
        let v = json!({"code_id": pup, "msg": bin(&json!({})), "admin": null, "funds": [], "label": "v"});
        let dao = sim.init(core, "creator", &msg(v.clone()), &coins(1, "ucosm"), "dao").unwrap().to_string();
        // what the next contracts will be called
        let s = sim.snapshot();
        let next_dao = sim.init(core, "creator", &msg(v.clone()), &[], "dao").unwrap();
        let with = dao_of(&sim, next_dao.clone()).voting.to_string();
        sim.restore(&s);
        sim.exec(&dao, &dao, &json!({"update_voting_module": {"module": v}}), &[]).unwrap();
        let alone = dao_of(&sim, Addr::unchecked(&dao)).voting.to_string();
        sim.restore(&s);
        sim.seal();
        let w = VW { sim, core, pup, code, dao, next_dao: next_dao.to_string(), next_mod: [with, alone], target, factory, group, token, staking, nft };
        (w, false)
    }
    fn sim<'a>(&self, w: &'a mut VW) -> &'a mut Sim {
        &mut w.sim
    }
    fn ops(&self, done: &bool) -> Vec<VOp> {
        let mut v = vec![];
        if !*done {
            for case in voting_cases(self.th) {
                v.push(VOp { late: false, case: case.clone() });
                v.push(VOp { late: true, case });
            }
        }
        v
    }
    fn step(&self, w: &mut VW, done: &mut bool, op: &VOp) -> VResult<String> {
        *done = true;
        let (dao, module) = if op.late { (w.dao.clone(), w.next_mod[1].clone()) } else { (w.next_dao.clone(), w.next_mod[0].clone()) };
        let (code, msg, ok) = self.request(w, &op.case, &dao, &module);
        let fund = matches!(op.case, Case::TokenFac { fund: true, .. } | Case::NftFac { fund: true, .. });
        let funds = coins(fund as u128, "ucosm");
        let funds = if fund { funds } else { vec![] };
        let info = json!({"code_id": w.code[code], "msg": bin(&msg), "admin": {"core_module": {}}, "funds": funds, "label": "voting"});
        let before = w.sim.app.storage().dump();
        let r = if op.late {
            w.sim.exec(&dao, &dao, &json!({"update_voting_module": {"module": info}}), &[]).map(|_| ())
        } else {
            let m = json!({"admin": null, "name": "n", "description": "d", "image_url": null, "automatically_add_cw20s": true, "automatically_add_cw721s": false, "dao_uri": null,
                "voting_module_instantiate_info": info,
                "proposal_modules_instantiate_info": [{"code_id": w.pup, "msg": bin(&json!({})), "admin": null, "funds": [], "label": "p"}]});
            w.sim.init(w.core, "creator", &m, &funds, "dao").map(|_| ())
        };
        ensure!(r.is_ok() == ok, V5, "accept", "creating the voting module must be {}: {:?}", if ok { "accepted" } else { "refused" }, r);
        if !ok {
            ensure!(before == w.sim.app.storage().dump(), V5, "residue", "a refused creation left something behind");
            return Ok(format!("{} refused", code));
        }
        let now = dao_of(&w.sim, Addr::unchecked(&dao)).voting.to_string();
        same!(now, module, V5, "in-place", "voting module of the DAO");
        self.created(w, &module, code, &dao, &dao, "voting module")?;
        self.check(w, &op.case, &dao, &module)?;
        Ok(format!("{} created", code))
    }
    fn invariant(&self, _w: &mut VW, _m: &bool) -> VResult {
        Ok(())
    }
}
fn plan_voting(th: bool) -> PropertyPlan {
    PropertyPlan {
        entries: vec![Entry::new("voting modules", VH { th }, 1)],
        rule: "the product, for each of the six voting modules and each way to set it up (existing, new and factory-made tokens, collections, groups and staking contracts), of member, balance and token lists (empty, repeated, unsorted, zero, invalid, overflowing), DAO balances, metadata, factory answers, unstaking durations and activation thresholds around every limit, each created with a new DAO and in place of another voting module; after each, acceptance against the reference, nothing left behind by a refusal, and every record, balance, owner, administrator, minter, allowance and metadata of what was created are compared with the request, and a holder stakes",
        assumptions: ASSUME.to_vec(),
    }
}
