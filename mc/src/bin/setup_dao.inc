// C03: creation of DAOs and of their modules.
const C3: &[&str] = &["C03"];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Up {
    None,
    Core,
    Addr,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Cb {
    /// no data at all
    None,
    /// data that is not a callback
    Garbage,
    /// an empty callback
    Empty,
    /// the DAO calls the target
    Hit,
    /// twice, and writes an item of its own
    Own,
    /// the DAO pays out of its treasury
    Pay,
    /// fails
    Boom,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Mo {
    /// 0 works, 1 refuses to be created, 2 no such code
    kind: u8,
    up: Up,
    funds: u8,
    cb: Cb,
}
const MO: Mo = Mo { kind: 0, up: Up::Core, funds: 0, cb: Cb::None };
#[derive(Clone, Debug, Serialize, Deserialize)]
enum DOp {
    New { admin: u8, items: u8, details: u8, sent: u8, voting: Mo, mods: Vec<Mo> },
    Mods { add: Vec<Mo>, disable: Vec<u8> },
    Vote(Mo),
    Fund,
}
#[derive(Clone, Debug, PartialEq, Hash)]
struct DM {
    core: Option<String>,
    admin: u8,
    details: u8,
    /// creation order: request, enabled, address
    mods: Vec<(Mo, bool, String)>,
    voting: Vec<(Mo, String)>,
    items: Vec<(String, String)>,
    bal: u128,
    paid: u128,
    hits: u64,
    follow: bool,
}
struct DW {
    sim: Sim,
    core_code: u64,
    pup: u64,
    target: String,
}
struct DH {
    follow: bool,
    th: bool,
}
fn items_of(k: u8) -> Option<Vec<(String, String)>> {
    let l: &[(&str, &str)] = match k {
        0 => return None,
        // longer than a page, in no particular order; and the same with its first key repeated at the end
        7 | 8 => {
            let mut l: Vec<_> = (0..36).map(|i| (format!("k{}", i * 7 % 36), format!("v{}", i))).collect();
            if k == 8 {
                l.push(l[0].clone());
            }
            return Some(l);
        }
        1 => &[],
        2 => &[("a", "1")],
        3 => &[("b", ""), ("a", "2"), ("ab", "3")],
        4 => &[("a", "1"), ("a", "1")],
        // distinct keys that look alike
        6 => &[("a", "1"), (" a", "2"), ("A", "3"), ("a ", "5"), ("", "4"), ("a/b", " "), ("ä", "\u{0}")],
        _ => &[("b", "1"), ("a", "1"), ("b", "2")],
    };
    Some(l.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect())
}
fn details_of(k: u8) -> Value {
    match k {
        0 => json!({"name": "n", "description": "d", "image_url": null, "automatically_add_cw20s": true, "automatically_add_cw721s": false, "dao_uri": null}),
        _ => json!({"name": "", "description": "other", "image_url": "i", "automatically_add_cw20s": false, "automatically_add_cw721s": true, "dao_uri": "u"}),
    }
}
fn prefix_of(i: usize) -> String {
    let mut n = i + 1;
    let mut s = String::new();
    while n > 0 {
        n -= 1;
        s.insert(0, (b'A' + (n % 26) as u8) as char);
        n /= 26;
    }
    s
}
impl DH {
    fn info(&self, w: &DW, core: Option<&str>, m: &Mo, tag: u64) -> Value {
        let target = &w.target;
        let hit = json!(hit(target, 7));
        let pay: CosmosMsg = cosmwasm_std::BankMsg::Send { to_address: "payee".into(), amount: coins(1, "ucosm") }.into();
        let data = match m.cb {
            Cb::None => Value::Null,
            Cb::Garbage => json!("not a callback"),
            Cb::Empty => json!({"msgs": []}),
            Cb::Hit => json!({"msgs": [hit]}),
            Cb::Own => {
                let set = |c: &str| json!(wasm_exec(c, &json!({"set_item": {"key": "cb", "value": "v"}})));
                match core {
                    Some(c) => json!({"msgs": [hit, set(c), hit]}),
                    None => json!({"msgs": [hit, hit]}),
                }
            }
            Cb::Pay => json!({"msgs": [pay]}),
            Cb::Boom => json!({"msgs": [hit, boom(target)]}),
        };
        let mut msg = json!({ "tag": tag });
        if !data.is_null() {
            msg["data"] = data;
        }
        if m.kind == 1 {
            msg["refuse"] = json!(1);
        }
        let code = if m.kind == 2 { 999 } else { w.pup };
        let mut i = json!(mii(code, &msg, "module"));
        i["admin"] = match m.up {
            Up::None => Value::Null,
            Up::Core => json!({"core_module": {}}),
            Up::Addr => json!({"address": {"addr": "upgrader"}}),
        };
        i["funds"] = json!(coins(m.funds as u128, "ucosm"));
        i
    }
    /// The effect of creating one module on treasury, payments and calls; None when it fails.
    fn create(n: &mut DM, m: &Mo, own: bool) -> Option<()> {
        if m.kind != 0 {
            return None;
        }
        n.bal = n.bal.checked_sub(m.funds as u128)?;
        match m.cb {
            Cb::Hit => n.hits += 1,
            Cb::Own => {
                n.hits += 2;
                if own && !n.items.iter().any(|x| x.0 == "cb") {
                    n.items.push(("cb".into(), "v".into()));
                }
            }
            Cb::Pay => {
                n.bal = n.bal.checked_sub(1)?;
                n.paid += 1;
            }
            Cb::Boom => return None,
            _ => {}
        }
        Some(())
    }
    fn learn(&self, w: &DW, m: &mut DM) -> VResult {
        let core = m.core.clone().unwrap();
        let d: Value = w.sim.query(&core, &json!({"dump_state": {}})).unwrap();
        let mut l: Vec<Value> = d["proposal_modules"].as_array().unwrap().clone();
        l.sort_by_key(|x| {
            let p = x["prefix"].as_str().unwrap().to_string();
            (p.len(), p)
        });
        same!(l.len(), m.mods.len(), C3, "modules", "number of proposal modules");
        for (i, x) in l.iter().enumerate() {
            same!(x["prefix"], json!(prefix_of(i)), C3, "prefix", "prefix of module {}", i);
            let a = x["address"].as_str().unwrap().to_string();
            if m.mods[i].2.is_empty() {
                m.mods[i].2 = a;
            }
        }
        if m.voting.last().unwrap().1.is_empty() {
            let a = d["voting_module"].as_str().unwrap().to_string();
            ensure!(m.voting.iter().all(|x| x.1 != a), C3, "voting", "the voting module was not replaced");
            m.voting.last_mut().unwrap().1 = a;
        }
        Ok(())
    }
    fn check_module(&self, w: &DW, core: &str, m: &Mo, tag: u64, a: &str) -> VResult {
        same!(puppet_get(&w.sim, a, "tag"), json!(tag), C3, "module-message", "creation message of module {}", a);
        let c = w.sim.app.wrap().query_wasm_contract_info(a).unwrap();
        same!(c.code_id, w.pup, C3, "module-code", "code of module {}", a);
        same!(c.creator, core, C3, "module-creator", "creator of module {}", a);
        let adm = match m.up {
            Up::None => None,
            Up::Core => Some(core.to_string()),
            Up::Addr => Some("upgrader".to_string()),
        };
        same!(c.admin, adm, C3, "module-admin", "who may upgrade module {}", a);
        same!(w.sim.bal(a, "ucosm"), m.funds as u128, C3, "module-funds", "funds of module {}", a);
        Ok(())
    }
}
fn vote_tag(i: usize) -> u64 {
    1000 + i as u64
}
impl Harness for DH {
    type World = DW;
    type Model = DM;
    type Op = DOp;
    fn setup(&self) -> (DW, DM) {
        let mut sim = Sim::new();
        let core_code = sim.store(core_code());
        let pup = sim.store(puppet());
        let target = sim.init(pup, "env", &json!({}), &[], "t").unwrap().to_string();
        sim.mint("creator", 1000, "ucosm");
        sim.seal();
        let m = DM {
            core: None,
            admin: 0,
            details: 0,
            mods: vec![],
            voting: vec![],
            items: vec![],
            bal: 0,
            paid: 0,
            hits: 0,
            follow: true,
        };
        (DW { sim, core_code, pup, target }, m)
    }
    fn sim<'a>(&self, w: &'a mut DW) -> &'a mut Sim {
        &mut w.sim
    }
    fn ops(&self, m: &DM) -> Vec<DOp> {
        let mut v = vec![];
        let lists = lists();
        if m.core.is_none() {
            if !m.follow {
                return v;
            }
            let votings = votings();
            if self.follow {
                for admin in 0..2 {
                    v.push(DOp::New { admin, items: 0, details: admin, sent: 3, voting: MO, mods: vec![MO, Mo { funds: 1, ..MO }] });
                }
                return v;
            }
            for (i, mods) in lists.iter().enumerate() {
                for (j, voting) in votings.iter().enumerate() {
                    for admin in 0..4 {
                        for items in 0..9 {
                            // unless asked for everything, the two small products meet on a diagonal
                            if !self.th && i > 2 && j > 2 && (i + j + admin as usize + items as usize) % 4 != 0 {
                                continue;
                            }
                            for sent in [0, 1, 3, 9] {
                                let details = (i + j + admin as usize) as u8 % 2;
                                v.push(DOp::New { admin, items, details, sent, voting: *voting, mods: mods.clone() });
                            }
                        }
                    }
                }
            }
            return v;
        }
        if !self.follow {
            return v;
        }
        for add in lists {
            if add.len() > 20 && m.mods.len() > 20 {
                continue;
            }
            for disable in [vec![], vec![0u8], vec![1, 0]] {
                if disable.is_empty() || add.len() < 3 {
                    v.push(DOp::Mods { add: add.clone(), disable });
                }
            }
        }
        for x in votings() {
            v.push(DOp::Vote(x));
        }
        if m.bal < 5 {
            v.push(DOp::Fund);
        }
        v
    }
    fn step(&self, w: &mut DW, m: &mut DM, op: &DOp) -> VResult<String> {
        match op {
            DOp::Fund => {
                let c = m.core.clone().unwrap();
                w.sim.mint(&c, 4, "ucosm");
                m.bal += 4;
                Ok("funded".into())
            }
            DOp::New { admin, items, details, sent, voting, mods } => {
                let mut n = m.clone();
                n.admin = *admin;
                n.details = *details;
                n.bal = *sent as u128;
                let list = items_of(*items).unwrap_or_default();
                for (k, v) in &list {
                    n.items.push((k.to_string(), v.to_string()));
                }
                let mut keys: Vec<&String> = list.iter().map(|x| &x.0).collect();
                keys.sort();
                keys.dedup();
                let mut ok = keys.len() == list.len() && !mods.is_empty() && *admin < 2;
                ok = ok && Self::create(&mut n, voting, false).is_some();
                n.voting.push((*voting, String::new()));
                for x in mods {
                    ok = ok && Self::create(&mut n, x, false).is_some();
                    n.mods.push((*x, true, String::new()));
                }
                let mut msg = details_of(*details);
                msg["admin"] = match admin {
                    0 => Value::Null,
                    1 => json!("admin"),
                    2 => json!("A"),
                    _ => json!(""),
                };
                msg["voting_module_instantiate_info"] = self.info(w, None, voting, vote_tag(0));
                msg["proposal_modules_instantiate_info"] = json!(mods.iter().enumerate().map(|(i, x)| self.info(w, None, x, i as u64)).collect::<Vec<_>>());
                msg["initial_items"] = match items_of(*items) {
                    None => Value::Null,
                    Some(l) => json!(l.iter().map(|(k, v)| json!({"key": k, "value": v})).collect::<Vec<_>>()),
                };
                let before = w.sim.app.storage().dump();
                let r = w.sim.init(w.core_code, "creator", &msg, &coins(*sent as u128, "ucosm"), "dao");
                ensure!(r.is_ok() == ok, C3, "create", "creating the DAO must be {}: {:?}", if ok { "accepted" } else { "refused" }, r);
                match r {
                    Ok(a) => {
                        *m = n;
                        m.core = Some(a.to_string());
                        self.learn(w, m)?;
                        Ok("DAO created".into())
                    }
                    Err(_) => {
                        ensure!(before == w.sim.app.storage().dump(), C3, "create-residue", "a refused creation left something behind");
                        m.follow = false;
                        Ok("DAO refused".into())
                    }
                }
            }
            DOp::Mods { add, disable } => {
                let mut n = m.clone();
                let mut ok = true;
                for d in disable {
                    match n.mods.get_mut(*d as usize) {
                        Some(x) if x.1 => x.1 = false,
                        _ => ok = false,
                    }
                }
                let base = n.mods.len();
                for x in add {
                    ok = ok && Self::create(&mut n, x, true).is_some();
                    n.mods.push((*x, true, String::new()));
                }
                ok = ok && n.mods.iter().any(|x| x.1);
                let c = m.core.clone().unwrap();
                let add: Vec<Value> = add.iter().enumerate().map(|(i, x)| self.info(w, Some(&c), x, (base + i) as u64)).collect();
                let disable: Vec<String> = disable.iter().map(|d| m.mods.get(*d as usize).map(|x| x.2.clone()).unwrap_or("nobody".into())).collect();
                let r = w.sim.exec(&c, &c, &json!({"update_proposal_modules": {"to_add": add, "to_disable": disable}}), &[]);
                ensure!(r.is_ok() == ok, C3, "mods", "the module change must be {}: {:?}", if ok { "accepted" } else { "refused" }, r.err());
                if ok {
                    *m = n;
                    self.learn(w, m)?;
                }
                Ok(format!("modules {}", if ok { "changed" } else { "not changed" }))
            }
            DOp::Vote(x) => {
                let mut n = m.clone();
                let ok = Self::create(&mut n, x, true).is_some();
                n.voting.push((*x, String::new()));
                let c = m.core.clone().unwrap();
                let info = self.info(w, Some(&c), x, vote_tag(m.voting.len()));
                let r = w.sim.exec(&c, &c, &json!({"update_voting_module": {"module": info}}), &[]);
                ensure!(r.is_ok() == ok, C3, "voting-change", "the voting module change must be {}: {:?}", if ok { "accepted" } else { "refused" }, r.err());
                if ok {
                    *m = n;
                    self.learn(w, m)?;
                }
                Ok(format!("voting module {}", if ok { "replaced" } else { "not replaced" }))
            }
        }
    }
    fn invariant(&self, w: &mut DW, m: &DM) -> VResult {
        let c = match &m.core {
            None => return Ok(()),
            Some(c) => c.clone(),
        };
        let q = &w.sim;
        let d: Value = q.query(&c, &json!({"dump_state": {}})).unwrap();
        same!(d["admin"], json!(if m.admin == 1 { "admin" } else { &c }), C3, "admin", "admin");
        same!(d["config"], details_of(m.details), C3, "details", "details of the DAO");
        same!(d["pause_info"], json!({"unpaused": {}}), C3, "paused", "pause state");
        same!(d["voting_module"], json!(m.voting.last().unwrap().1), C3, "voting", "voting module");
        let active = m.mods.iter().filter(|x| x.1).count();
        same!(d["active_proposal_module_count"], json!(active), C3, "active", "active proposal modules");
        same!(d["total_proposal_module_count"], json!(m.mods.len()), C3, "total", "proposal modules");
        for (i, x) in m.mods.iter().enumerate() {
            let want = json!({"address": x.2, "prefix": prefix_of(i), "status": if x.1 { "enabled" } else { "disabled" }});
            ensure!(d["proposal_modules"].as_array().unwrap().contains(&want), C3, "module-entry", "{} is not among {}", want, d["proposal_modules"]);
            if i < 3 || i % 8 == 0 || i + 2 > m.mods.len() {
                self.check_module(w, &c, &x.0, i as u64, &x.2)?;
            }
        }
        for (i, x) in m.voting.iter().enumerate() {
            self.check_module(w, &c, &x.0, vote_tag(i), &x.1)?;
        }
        let items: Vec<(String, String)> = q.query(&c, &json!({"list_items": {}})).unwrap();
        let mut want = m.items.clone();
        want.sort();
        want.reverse();
        same!(items, want, C3, "items", "items");
        same!(q.bal(&c, "ucosm"), m.bal, C3, "treasury", "treasury");
        same!(q.bal("payee", "ucosm"), m.paid, C3, "paid", "payments made by callbacks");
        same!(hits(q, &w.target, 7), m.hits, C3, "callbacks", "calls made by callbacks");
        let s = puppet_get(q, &w.target, "senders");
        ensure!(s.is_null() || s == json!([c]), C3, "identity", "callbacks were run by {}", s);
        Ok(())
    }
}
fn lists() -> Vec<Vec<Mo>> {
    let cb = |cb| Mo { cb, ..MO };
    let f = |funds| Mo { funds, ..MO };
    vec![
        vec![MO],
        vec![],
        vec![MO, MO],
        vec![MO, Mo { kind: 1, ..MO }],
        vec![Mo { kind: 2, ..MO }, MO],
        vec![Mo { up: Up::Addr, ..MO }, Mo { up: Up::None, ..MO }, MO],
        vec![f(1), f(0), f(2)],
        vec![cb(Cb::Hit), cb(Cb::Own)],
        vec![cb(Cb::Empty), cb(Cb::Garbage), cb(Cb::Hit)],
        vec![cb(Cb::Hit), cb(Cb::Boom)],
        vec![cb(Cb::Pay), f(1)],
        vec![f(1), cb(Cb::Pay)],
        vec![MO; 36],
    ]
}
fn votings() -> Vec<Mo> {
    let cb = |cb| Mo { cb, ..MO };
    vec![
        MO,
        Mo { kind: 1, ..MO },
        Mo { kind: 2, ..MO },
        Mo { up: Up::Addr, ..MO },
        Mo { up: Up::None, ..MO },
        Mo { funds: 1, ..MO },
        Mo { funds: 3, cb: Cb::Pay, ..MO },
        cb(Cb::Garbage),
        cb(Cb::Empty),
        cb(Cb::Hit),
        cb(Cb::Own),
        cb(Cb::Pay),
        cb(Cb::Boom),
    ]
}
fn plan_dao(th: bool) -> PropertyPlan {
    PropertyPlan {
        entries: vec![
            Entry::new("creation", DH { follow: false, th: true }, 1),
            Entry::new("changes", DH { follow: true, th }, if th { 6 } else { 4 }),
        ],
        rule: "the product of administrators, initial items, details, funds sent, voting modules and lists of proposal modules (working, refusing or without code; every upgrade administrator; with funds; with every kind of set-up callback) given to the creation of a DAO; then every sequence, to the stated depth, of added, disabled and replaced modules of the same kinds; after every step every record of the DAO, every module's creation message, code, creator, upgrade administrator and funds, the treasury and the calls made by callbacks are compared with the reference",
        assumptions: ASSUME.to_vec(),
    }
}
