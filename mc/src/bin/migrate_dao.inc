/// compared without regard to order
fn sorted(v: Value) -> Value {
    json!({"SET": v})
}
/// v1 spelt this answer differently
fn pause(v: Value) -> Value {
    Value::Object(v.as_object().unwrap().iter().map(|(k, x)| (k.to_lowercase(), x.clone())).collect())
}
/// v1's way of naming a module to create
fn mii_v1(code: u64, msg: &Value, label: &str) -> Value {
    json!({"code_id": code, "msg": to_json_binary(msg).unwrap(), "admin": {"core_contract": {}}, "label": label})
}
fn mii_now(code: u64, msg: &Value, label: &str) -> Value {
    json!({"code_id": code, "msg": to_json_binary(msg).unwrap(), "admin": {"core_module": {}}, "label": label, "funds": []})
}
/// A v1 DAO whose first module is `first` and whose second is a puppet.
fn dao_v1(sim: &mut Sim, s: &mut Side, first: (&'static str, &'static str, u64, Value), admin: Option<&str>) {
    let power = *s.codes.entry("power").or_insert_with(|| sim.store(power_table()));
    let core = *s.codes.entry("core-v1").or_insert_with(|| sim.store(core_v1()));
    let powers = json!({"powers": {s.u("ann"): "3", s.u("bob"): "2", s.u("cat"): "1"}});
    let admin = admin.map(|a| s.u(a));
    let msg = json!({
        "admin": admin, "name": "dao", "description": "d", "image_url": "i", "automatically_add_cw20s": true, "automatically_add_cw721s": true,
        "voting_module_instantiate_info": mii_v1(power, &powers, "voting"),
        "proposal_modules_instantiate_info": [mii_v1(first.2, &first.3, "first"), mii_v1(s.codes["puppet"], &json!({}), "second")],
        "initial_items": [{"key": "k0", "value": "v0"}],
    });
    let c = sim.init_admin(core, &s.u("own"), &msg, &[], "core", Some("admin".into())).unwrap();
    s.a.insert("core", c.clone().into());
    let v: String = sim.query(&c, &json!({"voting_module": {}})).unwrap();
    s.a.insert("voting", v);
    let mut m: Vec<String> = sim.query(&c, &json!({"proposal_modules": {}})).unwrap();
    m.sort();
    s.a.insert(first.0, m[0].clone());
    s.a.insert("second", m[1].clone());
    // from here on the chain's upgrade permission is the test's
    let target = m[0].clone();
    let _ = first.1;
    sim.exec_msgs(c.as_str(), vec![cosmwasm_std::WasmMsg::UpdateAdmin { contract_addr: target, admin: "admin".into() }.into()]).unwrap();
}
/// Something the DAO does by way of its second module.
fn as_dao(sim: &mut Sim, s: &Side, via: &str, msgs: Vec<cosmwasm_std::CosmosMsg>) -> ExecResult {
    let m = wasm_exec(s.at("core"), &json!({"execute_proposal_hook": {"msgs": msgs}}));
    sim.exec("anyone", s.at(via), &json!({"puppet": {"emit": [m]}}), &[])
}

// ---------------------------------------------------------------- core 0.1.0
#[derive(Clone, Debug, Serialize, Deserialize)]
enum COp {
    Item(u8, Option<u8>),
    Config(u8),
    Cw20(bool),
    Cw721(bool),
    Receive(bool),
    Add,
    Remove,
    Voting,
    Pause(u64),
    Hit(u8),
    AdminHit(u8),
    Nominate(u8, Option<u8>),
    Accept(u8),
    WithdrawNomination(u8),
    Outsider,
    Tick(u8),
}
struct Core {
    admin: bool,
    modules: usize,
}
impl Core {
    fn uri(m: &[u8]) -> Option<&'static str> {
        m.iter().find_map(|v| match v {
            0 => Some("uri"),
            _ => None,
        })
    }
}
impl Duo for Core {
    type Op = COp;
    fn pre(&self) -> Vec<COp> {
        vec![COp::Add; self.modules]
    }
    fn build(&self, sim: &mut Sim, s: &mut Side) {
        cw20(sim, s, "token", 5, &[]);
        puppet_at(sim, s, "target");
        puppet_at(sim, s, "nft");
        puppet_set(sim, s.at("nft"), json!({"q:contract_info": {"name": "n", "symbol": "N"}}));
        let p = s.codes["puppet"];
        dao_v1(sim, s, ("first", "first", p, json!({})), if self.admin { Some("own") } else { None });
        s.codes.insert("new", sim.store(core_code()));
    }
    fn ups(&self) -> Vec<Up> {
        vec![
            up("core", "core", "new", |_| json!({"from_v1": {"dao_uri": "uri", "params": null}})),
            up("core-no-uri", "core", "new", |_| json!({"from_v1": {"dao_uri": null, "params": null}})),
            up("core-with-migrator", "core", "new", |s| json!({"from_v1": {"dao_uri": null, "params": {
                "migrator_code_id": s.codes["puppet"],
                "params": {"sub_daos": [], "migration_params": {"migrate_stake_cw20_manager": null, "proposal_params": []},
                    "v1_code_ids": {"proposal_single": 1, "cw4_voting": 2, "cw20_stake": 3, "cw20_staked_balances_voting": 4},
                    "v2_code_ids": {"proposal_single": 5, "cw4_voting": 6, "cw20_stake": 7, "cw20_staked_balances_voting": 8}}}}})),
            up("core-compatible", "core", "new", |_| json!({"from_compatible": {}})),
        ]
    }
    fn tries(&self, m: &[u8]) -> Vec<u8> {
        match m.len() {
            0 => vec![0, 1, 2],
            1 => vec![0, 2, 3],
            _ => vec![],
        }
    }
    fn may(&self, sim: &Sim, s: &Side, m: &[u8], v: u8) -> bool {
        let _ = (sim, s);
        match v {
            3 => !m.is_empty(),
            _ => m.is_empty(),
        }
    }
    fn ops(&self, _m: &[u8]) -> Vec<COp> {
        let mut v = vec![
            COp::Item(0, None), COp::Item(1, Some(1)), COp::Item(1, Some(2)), COp::Config(1), COp::Config(2), COp::Cw20(true), COp::Cw20(false), COp::Cw721(true),
            COp::Receive(true), COp::Receive(false), COp::Add, COp::Remove, COp::Voting, COp::Pause(2), COp::Hit(0), COp::Hit(1),
            COp::Outsider, COp::Tick(2),
        ];
        if self.admin {
            v.extend([COp::AdminHit(3), COp::Nominate(3, Some(5)), COp::Nominate(3, None), COp::Accept(5), COp::WithdrawNomination(3), COp::AdminHit(5)]);
        } else {
            v.push(COp::AdminHit(3));
        }
        v
    }
    fn mode(&self, sim: &Sim, c: &Side, m: &[u8], op: &COp) -> Mode {
        match op {
            // v1 did not mind being asked to remove what was not there, and reported the same afterwards
            COp::Remove if !m.is_empty() => {
                let l = q(sim, &c.at("core"), json!({"proposal_modules": {}}));
                if l.as_array().unwrap().contains(&json!(c.at("first"))) {
                    Mode::Both
                } else {
                    Mode::Loose
                }
            }
            // this release lets the admin act while the DAO is paused
            COp::AdminHit(_) | COp::Nominate(..) | COp::WithdrawNomination(_) if !m.is_empty() => {
                if pause(q(sim, &c.at("core"), json!({"pause_info": {}}))).get("paused").is_some() {
                    Mode::Skip
                } else {
                    Mode::Both
                }
            }
            _ => Mode::Both,
        }
    }
    fn tick(&self, op: &COp) -> Option<u64> {
        if let COp::Tick(n) = op {
            Some(*n as u64)
        } else {
            None
        }
    }
    fn apply(&self, sim: &mut Sim, s: &Side, m: &[u8], op: &COp) -> ExecResult {
        let w = |i: &u8| s.u(USERS[*i as usize]);
        let core = s.at("core");
        let new = !m.is_empty();
        let me = |v: Value| vec![wasm_exec(&core, &v)];
        match op {
            COp::Item(k, None) => as_dao(sim, s, "second", me(json!({"remove_item": {"key": format!("k{}", k)}}))),
            COp::Item(k, Some(v)) => {
                let f = if new { "value" } else { "addr" };
                as_dao(sim, s, "second", me(json!({"set_item": {"key": format!("k{}", k), f: format!("v{}", v)}})))
            }
            COp::Config(n) => {
                let mut c = json!({"name": format!("n{}", n), "description": "d", "image_url": null, "automatically_add_cw20s": *n == 2, "automatically_add_cw721s": *n == 1});
                if new {
                    c["dao_uri"] = json!(Core::uri(m));
                }
                as_dao(sim, s, "second", me(json!({"update_config": {"config": c}})))
            }
            COp::Cw20(a) => {
                let t = vec![s.at("token")];
                let (x, y) = if *a { (t, vec![]) } else { (vec![], t) };
                as_dao(sim, s, "second", me(json!({"update_cw20_list": {"to_add": x, "to_remove": y}})))
            }
            COp::Cw721(a) => {
                let t = vec![s.at("nft")];
                let (x, y) = if *a { (t, vec![]) } else { (vec![], t) };
                as_dao(sim, s, "second", me(json!({"update_cw721_list": {"to_add": x, "to_remove": y}})))
            }
            COp::Receive(true) => sim.exec(s.u("ann"), s.at("token"), &send(&core, 1, json!({})), &[]),
            COp::Receive(false) => {
                let m = wasm_exec(&core, &json!({"receive_nft": {"sender": s.u("ann"), "token_id": "1", "msg": ""}}));
                sim.exec("x", s.at("nft"), &json!({"puppet": {"emit": [m]}}), &[])
            }
            COp::Add => {
                let p = s.codes["puppet"];
                let x = if new { json!({"to_add": [mii_now(p, &json!({}), "third")], "to_disable": []}) } else { json!({"to_add": [mii_v1(p, &json!({}), "third")], "to_remove": []}) };
                as_dao(sim, s, "second", me(json!({"update_proposal_modules": x})))
            }
            COp::Remove => {
                let f = s.at("first");
                let x = if new { json!({"to_add": [], "to_disable": [f]}) } else { json!({"to_add": [], "to_remove": [f]}) };
                as_dao(sim, s, "second", me(json!({"update_proposal_modules": x})))
            }
            COp::Voting => {
                let (p, i) = (s.codes["power"], json!({"powers": {s.u("eve"): "7"}}));
                let x = if new { mii_now(p, &i, "voting") } else { mii_v1(p, &i, "voting") };
                as_dao(sim, s, "second", me(json!({"update_voting_module": {"module": x}})))
            }
            COp::Pause(n) => as_dao(sim, s, "second", me(json!({"pause": {"duration": {"height": n}}}))),
            COp::Hit(first) => as_dao(sim, s, if *first == 1 { "first" } else { "second" }, vec![hit(s.at("target"), 1)]),
            COp::AdminHit(i) => sim.exec(w(i), core, &json!({"execute_admin_msgs": {"msgs": [hit(s.at("target"), 2)]}}), &[]),
            COp::Nominate(i, n) => sim.exec(w(i), core, &json!({"nominate_admin": {"admin": n.map(|x| w(&x))}}), &[]),
            COp::Accept(i) => sim.exec(w(i), core, &json!({"accept_admin_nomination": {}}), &[]),
            COp::WithdrawNomination(i) => sim.exec(w(i), core, &json!({"withdraw_admin_nomination": {}}), &[]),
            COp::Outsider => sim.exec(s.u("ann"), &core, &json!({"execute_proposal_hook": {"msgs": [hit(s.at("target"), 3)]}}), &[]),
            COp::Tick(_) => unreachable!(),
        }
    }
    fn view(&self, sim: &Sim, s: &Side, m: &[u8]) -> Value {
        let c = s.at("core");
        let g = |v: Value| q(sim, &c, v);
        let mut mods = g(json!({"proposal_modules": {}}));
        let mut dump = g(json!({"dump_state": {}}));
        let strip = |v: &mut Value| {
            let l: Vec<Value> = v.as_array().unwrap().iter().filter(|x| x["status"] == "enabled").map(|x| x["address"].clone()).collect();
            *v = json!(l);
        };
        if !m.is_empty() {
            strip(&mut mods);
            strip(&mut dump["proposal_modules"]);
            for k in ["active_proposal_module_count", "total_proposal_module_count"] {
                dump.as_object_mut().unwrap().remove(k);
            }
        }
        dump.as_object_mut().unwrap().remove("version");
        dump["pause_info"] = pause(dump["pause_info"].take());
        dump["proposal_modules"] = sorted(dump["proposal_modules"].take());
        json!({
            "admin": g(json!({"admin": {}})), "nominated": g(json!({"admin_nomination": {}})), "config": g(json!({"config": {}})),
            "cw20": sorted(g(json!({"cw20_token_list": {}}))), "cw721": sorted(g(json!({"cw721_token_list": {}}))), "balances": sorted(g(json!({"cw20_balances": {}}))),
            "items": sorted(g(json!({"list_items": {}}))), "k0": g(json!({"get_item": {"key": "k0"}})), "k1": g(json!({"get_item": {"key": "k1"}})),
            "modules": sorted(mods), "pause": pause(g(json!({"pause_info": {}}))), "voting": g(json!({"voting_module": {}})), "dump": dump,
            "power": [g(json!({"voting_power_at_height": {"address": s.u("ann")}})), g(json!({"voting_power_at_height": {"address": s.u("eve")}})), g(json!({"total_power_at_height": {}}))],
            "hits": [hits(sim, s.at("target"), 1), hits(sim, s.at("target"), 2), hits(sim, s.at("target"), 3)],
        })
    }
    fn adjust(&self, m: &[u8], v: &mut Value) {
        if let Some(u) = Core::uri(m) {
            v["config"]["dao_uri"] = json!(u);
            v["dump"]["config"]["dao_uri"] = json!(u);
        }
        if m.contains(&2) {
            for p in ["/modules/SET", "/dump/proposal_modules/SET"] {
                let l = v.pointer_mut(p).unwrap().as_array_mut().unwrap();
                l.push(json!("<new contract>"));
                l.sort_by_key(|x| x.to_string());
            }
        }
    }
    fn after(&self, sim: &mut Sim, s: &Side, m: &[u8]) -> VResult {
        if m.len() > 1 {
            return Ok(());
        }
        let c = s.at("core");
        let mods: Vec<dao_interface::state::ProposalModule> = sim.query(&c, &json!({"proposal_modules": {}})).unwrap();
        let mut addrs: Vec<String> = mods.iter().map(|x| x.address.to_string()).collect();
        addrs.sort();
        for x in &mods {
            let i = addrs.iter().position(|a| *a == x.address.as_str()).unwrap();
            let letter = |i: usize| (b'A' + i as u8) as char;
            let want = if i < 26 { letter(i).to_string() } else { format!("{}{}", letter(i / 26 - 1), letter(i % 26)) };
            same!(x.prefix, want, M, "prefix", "prefix of module {} of {:?}", x.address, addrs);
        }
        let n = mods.len();
        same!(q(sim, &c, json!({"proposal_module_count": {}})), json!({"active_proposal_module_count": n, "total_proposal_module_count": n}), M, "module-count", "number of modules");
        Ok(())
    }
}

// ---------------------------------------------------------------- yes/no proposals 0.1.0
#[derive(Clone, Debug, Serialize, Deserialize)]
enum VOp {
    Propose(u8),
    Vote(u8, u8, u8),
    Execute(u8, u8),
    Close(u8),
    Config(bool),
    Hook(bool, bool),
    Break(bool),
    Tick(u8),
}
#[derive(Clone)]
struct Single {
    threshold: Value,
    revote: bool,
    min: bool,
    members: bool,
    deposit: Option<(u8, bool)>,
    hooks: bool,
    /// periods in seconds
    time: bool,
    pre: Vec<VOp>,
}
impl Single {
    fn cfg(&self, changed: bool) -> Value {
        json!({
            "threshold": if changed { json!({"absolute_count": {"threshold": "4"}}) } else { self.threshold.clone() },
            "max_voting_period": self.period(3), "min_voting_period": if self.min { self.period(2) } else { Value::Null },
            "only_members_execute": self.members, "allow_revoting": self.revote && !changed,
        })
    }
    fn period(&self, n: u64) -> Value {
        if self.time { json!({"time": 6 * n}) } else { json!({"height": n}) }
    }
    fn veto(&self, s: &Side) -> Value {
        json!({"timelock_duration": self.period(1), "vetoer": s.u("eve"), "early_execute": true, "veto_before_passed": false})
    }
}
impl Duo for Single {
    type Op = VOp;
    fn pre(&self) -> Vec<VOp> {
        self.pre.clone()
    }
    fn build(&self, sim: &mut Sim, s: &mut Side) {
        puppet_at(sim, s, "target");
        puppet_at(sim, s, "sub");
        cw20(sim, s, "token", 10, &[]);
        let code = sim.store(single_v1());
        s.codes.insert("single-v1", code);
        let mut c = self.cfg(false);
        let t = s.at("token");
        c["deposit_info"] = self.deposit.map(|(n, r)| json!({"token": {"token": {"address": t}}, "deposit": n.to_string(), "refund_failed_proposals": r})).unwrap_or(Value::Null);
        dao_v1(sim, s, ("prop", "single-v1", code, c), None);
        s.codes.insert("new", sim.store(single_code()));
        s.codes.insert("core-new", sim.store(core_code()));
        let p = s.at("prop");
        for n in USERS {
            sim.exec(s.u(n), &t, &json!({"increase_allowance": {"spender": p, "amount": "10"}}), &[]).unwrap();
        }
        if self.hooks {
            let x = s.at("sub");
            for h in ["add_vote_hook", "add_proposal_hook"] {
                as_dao(sim, s, "second", vec![wasm_exec(&p, &json!({h: {"address": x}}))]).unwrap();
            }
        }
    }
    fn ups(&self) -> Vec<Up> {
        let f = |close: bool, pp: Value, how: u8| {
            let me = self.clone();
            move |s: &Side| {
                let mut veto = if how == 0 { Value::Null } else { me.veto(s) };
                if how == 2 {
                    veto["timelock_duration"] = Single { time: !me.time, ..me.clone() }.period(1);
                }
                let mut pp = pp.clone();
                if pp == json!("module") {
                    pp = json!({"module_may_propose": {"info": mii_now(s.codes["puppet"], &json!({}), "pp")}});
                }
                json!({"from_v1": {"close_proposal_on_execution_failure": close, "pre_propose_info": pp, "veto": veto}})
            }
        };
        let any = json!({"anyone_may_propose": {}});
        vec![
            up("proposals", "prop", "new", f(false, any.clone(), 0)),
            up("proposals-close", "prop", "new", f(true, any.clone(), 0)),
            up("proposals-pre-propose", "prop", "new", f(false, json!("module"), 0)),
            up("proposals-veto", "prop", "new", f(false, any.clone(), 1)),
            up("proposals-bad-veto", "prop", "new", f(false, any.clone(), 2)),
            up("core", "core", "core-new", |_| json!({"from_v1": {"dao_uri": null, "params": null}})),
        ]
    }
    fn tries(&self, m: &[u8]) -> Vec<u8> {
        if m.iter().any(|x| *x < 5) {
            vec![0, 5]
        } else if self.hooks {
            // with the first variant a failing subscriber can undo a failed execution's closing
            vec![0, 2, 3, 5]
        } else {
            vec![0, 1, 2, 3, 4, 5]
        }
    }
    fn may(&self, sim: &Sim, s: &Side, m: &[u8], v: u8) -> bool {
        if v == 5 {
            return !m.contains(&5);
        }
        if v == 4 || m.iter().any(|x| *x < 5) {
            return false;
        }
        let l = q(sim, &s.at("prop"), json!({"list_proposals": {"limit": 100}}));
        !l["proposals"].as_array().unwrap().iter().any(|p| {
            let p = &p["proposal"];
            !matches!(p["status"].as_str().unwrap(), "closed" | "executed") && !p["deposit_info"].is_null() && p["deposit_info"]["deposit"] != "0"
        })
    }
    fn ops(&self, m: &[u8]) -> Vec<VOp> {
        let mut v = vec![];
        let charged = self.deposit.map(|d| d.0 > 0).unwrap_or(false) && m.iter().any(|x| *x < 5);
        if !charged && !m.contains(&3) {
            v.push(VOp::Propose(0));
            v.push(VOp::Propose(1));
        }
        v.extend([
            VOp::Vote(0, 1, 0), VOp::Vote(1, 1, 1), VOp::Vote(1, 1, 0), VOp::Vote(0, 1, 2), VOp::Vote(2, 1, 0), VOp::Vote(2, 1, 1), VOp::Vote(0, 2, 0),
            VOp::Execute(1, 0), VOp::Execute(2, 0), VOp::Execute(1, 5), VOp::Close(1), VOp::Tick(1), VOp::Tick(3),
        ]);
        if self.hooks {
            v.extend([VOp::Hook(true, false), VOp::Hook(false, false), VOp::Break(true), VOp::Break(false)]);
        } else {
            v.push(VOp::Config(true));
            v.push(VOp::Hook(true, true));
        }
        v
    }
    fn mode(&self, sim: &Sim, c: &Side, m: &[u8], op: &VOp) -> Mode {
        let st = |id: &u8| q(sim, &c.at("prop"), json!({"proposal": {"proposal_id": id}}));
        if !m.iter().any(|x| *x < 5) {
            return Mode::Both;
        }
        match op {
            VOp::Propose(_) if m.contains(&2) => Mode::Twin(false),
            // this release takes votes on decided proposals until they expire
            VOp::Vote(_, id, _) => {
                if st(id)["proposal"]["status"] == "open" { Mode::Both } else { Mode::Skip }
            }
            VOp::Execute(..) if m.contains(&1) => Mode::Loose,
            VOp::Close(..) => Mode::Both,
            _ => Mode::Both,
        }
    }
    fn tick(&self, op: &VOp) -> Option<u64> {
        if let VOp::Tick(n) = op {
            Some(*n as u64)
        } else {
            None
        }
    }
    fn apply(&self, sim: &mut Sim, s: &Side, m: &[u8], op: &VOp) -> ExecResult {
        let w = |i: &u8| s.u(USERS[*i as usize]);
        let p = s.at("prop");
        let up = m.iter().find(|x| **x < 5);
        match op {
            VOp::Propose(k) => {
                let msgs = match k {
                    0 => vec![hit(s.at("target"), 1)],
                    _ => vec![hit(s.at("target"), 2), boom(s.at("target"))],
                };
                sim.exec(s.u("ann"), p, &json!({"propose": {"title": "t", "description": "d", "msgs": msgs}}), &[])
            }
            VOp::Vote(i, id, v) => {
                let v = ["yes", "no", "abstain"][*v as usize];
                sim.exec(w(i), p, &json!({"vote": {"proposal_id": id, "vote": v}}), &[])
            }
            VOp::Execute(id, i) => sim.exec(w(i), p, &json!({"execute": {"proposal_id": id}}), &[]),
            VOp::Close(id) => sim.exec(s.u("bob"), p, &json!({"close": {"proposal_id": id}}), &[]),
            VOp::Config(changed) => {
                let mut c = self.cfg(*changed);
                c["dao"] = json!(s.at("core"));
                match up {
                    Some(u) => {
                        c["close_proposal_on_execution_failure"] = json!(*u == 1);
                        c["veto"] = if *u == 3 { self.veto(s) } else { Value::Null };
                    }
                    None => {
                        let t = s.at("token");
                        c["deposit_info"] = self.deposit.map(|(n, r)| json!({"token": {"token": {"address": t}}, "deposit": n.to_string(), "refund_failed_proposals": r})).unwrap_or(Value::Null)
                    }
                }
                as_dao(sim, s, "second", vec![wasm_exec(&p, &json!({"update_config": c}))])
            }
            VOp::Hook(vote, add) => {
                let k = format!("{}_{}_hook", if *add { "add" } else { "remove" }, if *vote { "vote" } else { "proposal" });
                as_dao(sim, s, "second", vec![wasm_exec(&p, &json!({k: {"address": s.at("sub")}}))])
            }
            VOp::Break(b) => sim.exec("env", s.at("sub"), &json!({"puppet": {"set": {"fail": b}}}), &[]),
            VOp::Tick(_) => unreachable!(),
        }
    }
    fn view(&self, sim: &Sim, s: &Side, m: &[u8]) -> Value {
        let p = s.at("prop");
        let g = |v: Value| q(sim, &p, v);
        let mut config = g(json!({"config": {}}));
        config.as_object_mut().unwrap().remove("deposit_info");
        let mut out = vec![];
        let l = g(json!({"list_proposals": {"limit": 100}}));
        for x in l["proposals"].as_array().unwrap() {
            let id = x["id"].as_u64().unwrap();
            let mut one = x.clone();
            one["proposal"].as_object_mut().unwrap().remove("deposit_info");
            if m.contains(&1) && one["proposal"]["status"] == "execution_failed" {
                one["proposal"]["status"] = json!("passed");
            }
            let single = g(json!({"proposal": {"proposal_id": id}}));
            one["again"] = json!(single == *x);
            one["votes"] = g(json!({"list_votes": {"proposal_id": id}}));
            let f = if m.iter().any(|x| *x < 5) { "get_vote" } else { "vote" };
            one["bob"] = g(json!({f: {"proposal_id": id, "voter": s.u("bob")}}));
            out.push(one);
        }
        json!({
            "config": config, "proposals": out, "count": g(json!({"proposal_count": {}})),
            "hooks": [g(json!({"proposal_hooks": {}})), g(json!({"vote_hooks": {}}))],
            "hits": [hits(sim, s.at("target"), 1), hits(sim, s.at("target"), 2)],
            "wallets": balances(sim, s, "token", &["prop", "core"]),
        })
    }
    fn adjust(&self, m: &[u8], v: &mut Value) {
        if let Some(u) = m.iter().find(|x| **x < 5) {
            v["config"]["close_proposal_on_execution_failure"] = json!(*u == 1);
            if *u == 3 {
                v["config"]["veto"] = json!({"timelock_duration": self.period(1), "vetoer": "<eve>", "early_execute": true, "veto_before_passed": false});
            }
        }
    }
    fn after(&self, sim: &mut Sim, s: &Side, m: &[u8]) -> VResult {
        let u = *m.last().unwrap();
        if u < 5 {
            let p = q(sim, &s.at("prop"), json!({"proposal_creation_policy": {}}));
            if u == 2 {
                let a = p["module"]["addr"].as_str().unwrap_or("").to_string();
                ensure!(!a.is_empty(), M, "policy", "creation policy after the upgrade: {}", p);
                same!(puppet_get(sim, a, "creator"), json!(s.at("prop")), M, "policy", "creator of the pre-propose module");
            } else {
                same!(p, json!({"anyone": {}}), M, "policy", "creation policy after the upgrade");
            }
        }
        Ok(())
    }
}
fn dao_entries(e: &mut Vec<Entry>, thorough: bool) {
    let d = if thorough { 1 } else { 0 };
    e.push(Entry::new("core", T(Core { admin: true, modules: 0 }), 3 + d));
    e.push(Entry::new("core-many", T(Core { admin: true, modules: 33 }), 2));
    e.push(Entry::new("core-self", T(Core { admin: false, modules: 0 }), 3 + d));
    let maj = json!({"absolute_percentage": {"percentage": {"majority": {}}}});
    let tq = json!({"threshold_quorum": {"threshold": {"majority": {}}, "quorum": {"percent": "0.5"}}});
    let count = json!({"absolute_count": {"threshold": "5"}});
    let open = vec![VOp::Propose(0), VOp::Tick(1)];
    let base = Single { threshold: maj, revote: false, min: false, members: true, deposit: None, hooks: false, time: false, pre: open };
    let two = vec![VOp::Propose(0), VOp::Propose(1), VOp::Vote(0, 1, 0), VOp::Vote(1, 2, 0), VOp::Tick(1)];
    e.push(Entry::new("single-majority", T(base.clone()), 4 + d));
    e.push(Entry::new("single-two", T(Single { pre: two.clone(), ..base.clone() }), 4 + d));
    e.push(Entry::new("single-quorum-revote", T(Single { threshold: tq, revote: true, ..base.clone() }), 4 + d));
    e.push(Entry::new("single-count-min", T(Single { threshold: count, min: true, members: false, ..base.clone() }), 4 + d));
    let pct = json!({"absolute_percentage": {"percentage": {"percent": "0.5"}}});
    let tqm = json!({"threshold_quorum": {"threshold": {"percent": "0.6"}, "quorum": {"majority": {}}}});
    e.push(Entry::new("single-percent-seconds", T(Single { threshold: pct, time: true, ..base.clone() }), 4 + d));
    e.push(Entry::new("single-quorum-seconds-min", T(Single { threshold: tqm, time: true, min: true, ..base.clone() }), 4 + d));
    let mut many = vec![];
    for i in 0..11 {
        many.extend([VOp::Propose(0), VOp::Propose(1), VOp::Propose(0), VOp::Vote((i % 3) as u8, 3 * i + 1, (i / 3 % 3) as u8)]);
    }
    many.push(VOp::Tick(1));
    e.push(Entry::new("single-many", T(Single { pre: many, ..base.clone() }), 2 + d));
    e.push(Entry::new("single-deposit", T(Single { deposit: Some((2, true)), ..base.clone() }), 4 + d));
    e.push(Entry::new("single-deposit-kept", T(Single { deposit: Some((2, false)), pre: two.clone(), ..base.clone() }), 4 + d));
    e.push(Entry::new("single-deposit-zero", T(Single { deposit: Some((0, true)), ..base.clone() }), 4 + d));
    e.push(Entry::new("single-hooks", T(Single { hooks: true, pre: two, ..base.clone() }), 4 + d));
}
