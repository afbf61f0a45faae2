// ---------------------------------------------------------------- a DAO of release 2.4.1
#[derive(Clone, Debug, Serialize, Deserialize)]
enum FOp {
    Propose(u8, bool),
    Direct(u8),
    Vote(u8, u8, bool),
    Execute(u8),
    Close(u8),
    Config(u8),
    OutsiderConfig,
    Withdraw(bool),
    Approve(u8, u8),
    Reject(u8, u8),
    Approver(u8),
    Members,
    Hook(bool),
    Tick(u8),
}
#[derive(Clone)]
struct Pre {
    /// 0 yes/no, 1 multiple choice, 2 yes/no behind an approver
    kind: u8,
    open: bool,
    /// native, amount, refund policy
    dep: Option<(bool, u128, &'static str)>,
    pre: Vec<FOp>,
    hook: bool,
}
impl Pre {
    fn terms(&self, s: &Side, k: u8) -> (Value, bool) {
        let (d, open) = match k {
            0 => (self.dep, self.open),
            1 => (self.dep.map(|(n, a, r)| (!n, a + 1, if r == "never" { "always" } else { "never" })).or(Some((true, 2, "only_passed"))), !self.open),
            _ => (None, self.open),
        };
        let denom = |n: bool| if n { json!({"native": "ujuno"}) } else { json!({"cw20": s.at("token")}) };
        (d.map(|(n, a, r)| json!({"denom": {"token": {"denom": denom(n)}}, "amount": a.to_string(), "refund_policy": r})).unwrap_or(Value::Null), open)
    }
    fn policy(open: bool) -> Value {
        if open {
            json!({"anyone": {"denylist": []}})
        } else {
            json!({"specific": {"dao_members": true, "allowlist": [], "denylist": []}})
        }
    }
    fn power(sim: &Sim, s: &Side, i: u8) -> bool {
        q(sim, &s.at("core"), json!({"voting_power_at_height": {"address": s.u(USERS[i as usize])}}))["power"] != "0"
    }
    fn upgraded(m: &[u8]) -> bool {
        m.iter().any(|x| *x < 2)
    }
}
impl Duo for Pre {
    type Op = FOp;
    fn pre(&self) -> Vec<FOp> {
        self.pre.clone()
    }
    fn build(&self, sim: &mut Sim, s: &mut Side) {
        puppet_at(sim, s, "target");
        puppet_at(sim, s, "sub");
        cw20(sim, s, "token", 20, &[]);
        for n in USERS {
            sim.mint(&s.u(n), 20, "ujuno");
        }
        for (n, f) in [("cw4", cw4_code as fn() -> Box<dyn Contract<Empty>>), ("voting-241", cw4_241), ("core-241", core_241)] {
            let c = sim.store(f());
            s.codes.insert(n, c);
        }
        let (mf, pf, mn, pn): (fn() -> _, fn() -> _, fn() -> _, fn() -> _) = match self.kind {
            0 => (single_241, pps_241, single_code, pp_single_code),
            1 => (multiple_241, ppm_241, multiple_code, pp_multiple_code),
            _ => (single_241, ppa_241, single_code, pp_approval_code),
        };
        let (mc, pc) = (sim.store(mf()), sim.store(pf()));
        let (d, open) = self.terms(s, 0);
        let ext = if self.kind == 2 { json!({"approver": s.u("own")}) } else { json!({}) };
        let pre = json!({"deposit_info": d, "open_proposal_submission": open, "extension": ext});
        let mut m = json!({
            "max_voting_period": {"height": 3}, "min_voting_period": null, "only_members_execute": true, "allow_revoting": false,
            "pre_propose_info": {"module_may_propose": {"info": mii_now(pc, &pre, "pre")}}, "close_proposal_on_execution_failure": true, "veto": null,
        });
        if self.kind == 1 {
            m["voting_strategy"] = json!({"single_choice": {"quorum": {"percent": "0.5"}}});
        } else {
            m["threshold"] = json!({"absolute_percentage": {"percentage": {"majority": {}}}});
        }
        let members: Vec<Value> = [("ann", 3u64), ("bob", 2), ("cat", 1)].iter().map(|(n, w)| json!({"addr": s.u(n), "weight": w})).collect();
        let voting = json!({"group_contract": {"new": {"cw4_group_code_id": s.codes["cw4"], "initial_members": members}}});
        let msg = json!({
            "admin": null, "name": "dao", "description": "d", "image_url": "i", "automatically_add_cw20s": true, "automatically_add_cw721s": true,
            "voting_module_instantiate_info": mii_now(s.codes["voting-241"], &voting, "voting"),
            "proposal_modules_instantiate_info": [mii_now(mc, &m, "first"), mii_now(s.codes["puppet"], &json!({}), "second")],
            "initial_items": null, "dao_uri": null,
        });
        let c = sim.init_admin(s.codes["core-241"], &s.u("own"), &msg, &[], "core", Some("admin".into())).unwrap();
        s.a.insert("core", c.clone().into());
        let v: String = sim.query(&c, &json!({"voting_module": {}})).unwrap();
        let g: String = sim.query(&v, &json!({"group_contract": {}})).unwrap();
        let mods: Vec<Value> = sim.query(&c, &json!({"proposal_modules": {}})).unwrap();
        let prop = mods[0]["address"].as_str().unwrap().to_string();
        let pol: Value = sim.query(&prop, &json!({"proposal_creation_policy": {}})).unwrap();
        let pp = pol["module"]["addr"].as_str().unwrap().to_string();
        for (r, a) in [("voting", &v), ("group", &g), ("prop", &prop), ("pp", &pp)] {
            s.a.insert(r, a.clone());
        }
        s.a.insert("second", mods[1]["address"].as_str().unwrap().into());
        for a in [&v, &prop] {
            sim.exec_msgs(c.as_str(), vec![cosmwasm_std::WasmMsg::UpdateAdmin { contract_addr: a.clone(), admin: "admin".into() }.into()]).unwrap();
        }
        let holder = c.as_str();
        sim.exec_msgs(holder, vec![cosmwasm_std::WasmMsg::UpdateAdmin { contract_addr: pp.clone(), admin: "admin".into() }.into()]).unwrap();
        for n in USERS {
            sim.exec(s.u(n), s.at("token"), &json!({"increase_allowance": {"spender": pp, "amount": "20"}}), &[]).unwrap();
        }
        if self.hook {
            as_dao(sim, s, "second", vec![wasm_exec(&pp, &json!({"add_proposal_submitted_hook": {"address": s.at("sub")}}))]).unwrap();
        }
        for (n, f) in [("new", pn), ("prop-new", mn), ("core-new", core_code as fn() -> _), ("voting-new", voting_cw4_now as fn() -> _)] {
            let c = sim.store(f());
            s.codes.insert(n, c);
        }
        sim.advance(1, 6);
    }
    fn ups(&self) -> Vec<Up> {
        vec![
            up("pre-propose", "pp", "new", |_| json!({"from_under_v250": {"policy": null}})),
            up("pre-propose-policy", "pp", "new", |s| json!({"from_under_v250": {"policy": {"specific": {"dao_members": false, "allowlist": [s.u("eve")], "denylist": []}}}})),
            up("pre-propose-nobody", "pp", "new", |_| json!({"from_under_v250": {"policy": {"specific": {"dao_members": false, "allowlist": [], "denylist": []}}}})),
            up("pre-propose-extension", "pp", "new", |_| json!({"extension": {"msg": {}}})),
            up("proposals", "prop", "prop-new", |_| json!({"from_compatible": {}})),
            up("core", "core", "core-new", |_| json!({"from_compatible": {}})),
            up("voting", "voting", "voting-new", |_| json!({})),
        ]
    }
    fn tries(&self, m: &[u8]) -> Vec<u8> {
        let mut v = if Pre::upgraded(m) { vec![0] } else { vec![0, 1, 2, 3] };
        v.extend([4, 5, 6].into_iter().filter(|x| !m.contains(x)));
        v
    }
    fn may(&self, _: &Sim, _: &Side, m: &[u8], v: u8) -> bool {
        match v {
            0 | 1 => !Pre::upgraded(m),
            2 | 3 => false,
            _ => true,
        }
    }
    fn ops(&self, _m: &[u8]) -> Vec<FOp> {
        let mut v = vec![
            FOp::Propose(0, false), FOp::Propose(5, true), FOp::Direct(0), FOp::Vote(0, 1, true), FOp::Vote(0, 1, false), FOp::Vote(1, 1, true), FOp::Vote(1, 1, false),
            FOp::Vote(0, 2, true), FOp::Vote(1, 2, true), FOp::Execute(1), FOp::Execute(2), FOp::Close(1), FOp::Config(0), FOp::Config(1), FOp::Config(2), FOp::OutsiderConfig,
            FOp::Withdraw(true), FOp::Withdraw(false), FOp::Members, FOp::Tick(1), FOp::Tick(3),
        ];
        if self.kind == 2 {
            v.extend([FOp::Approve(1, 3), FOp::Approve(1, 4), FOp::Approve(2, 3), FOp::Reject(1, 3), FOp::Reject(1, 0), FOp::Reject(2, 3), FOp::Approver(3), FOp::Approver(0)]);
        }
        if self.hook {
            v.extend([FOp::Hook(true), FOp::Hook(false)]);
        }
        v
    }
    fn mode(&self, sim: &Sim, c: &Side, m: &[u8], op: &FOp) -> Mode {
        match op {
            FOp::Propose(i, _) if m.contains(&1) => {
                let open = q(sim, &c.at("pp"), json!({"config": {}}))["open_proposal_submission"] == true;
                match (open || Pre::power(sim, c, *i), *i == 5) {
                    (true, false) => Mode::Twin(false),
                    (false, true) => Mode::Skip,
                    _ => Mode::Both,
                }
            }
            _ => Mode::Both,
        }
    }
    fn tick(&self, op: &FOp) -> Option<u64> {
        if let FOp::Tick(n) = op {
            Some(*n as u64)
        } else {
            None
        }
    }
    fn apply(&self, sim: &mut Sim, s: &Side, m: &[u8], op: &FOp) -> ExecResult {
        let w = |i: &u8| s.u(USERS[*i as usize]);
        let (pp, p) = (s.at("pp"), s.at("prop"));
        let content = |boomy: bool| {
            let mut msgs = vec![hit(s.at("target"), if boomy { 2 } else { 1 })];
            if boomy {
                msgs.push(boom(s.at("target")));
            }
            if self.kind == 1 {
                json!({"title": "t", "description": "d", "vote": null, "choices": {"options": [
                    {"title": "c0", "description": "x", "msgs": msgs}, {"title": "c1", "description": "y", "msgs": []}]}})
            } else {
                json!({"title": "t", "description": "d", "msgs": msgs, "vote": null})
            }
        };
        match op {
            FOp::Propose(i, boomy) => {
                let c = q(sim, &pp, json!({"config": {}}));
                let d = &c["deposit_info"];
                let pay = match d["denom"]["native"].as_str() {
                    Some(n) => coins(d["amount"].as_str().unwrap().parse().unwrap(), n),
                    None => vec![],
                };
                sim.exec(w(i), &pp, &json!({"propose": {"msg": {"propose": content(*boomy)}}}), &pay)
            }
            FOp::Direct(i) => sim.exec(w(i), &p, &json!({"propose": content(false)}), &[]),
            FOp::Vote(i, id, yes) => {
                let v = if self.kind == 1 { json!({"option_id": if *yes { 0 } else { 2 }}) } else { json!(if *yes { "yes" } else { "no" }) };
                sim.exec(w(i), &p, &json!({"vote": {"proposal_id": id, "vote": v, "rationale": "r"}}), &[])
            }
            FOp::Execute(id) => sim.exec(s.u("ann"), &p, &json!({"execute": {"proposal_id": id}}), &[]),
            FOp::Close(id) => sim.exec(s.u("bob"), &p, &json!({"close": {"proposal_id": id}}), &[]),
            FOp::Config(k) => as_dao(sim, s, "second", vec![wasm_exec(&pp, &self.config_msg(s, m, *k))]),
            FOp::OutsiderConfig => sim.exec(s.u("ann"), &pp, &self.config_msg(s, m, 2), &[]),
            FOp::Withdraw(true) => as_dao(sim, s, "second", vec![wasm_exec(&pp, &json!({"withdraw": {"denom": null}}))]),
            FOp::Withdraw(false) => sim.exec(s.u("ann"), &pp, &json!({"withdraw": {"denom": null}}), &[]),
            FOp::Approve(id, i) => sim.exec(w(i), &pp, &json!({"extension": {"msg": {"approve": {"id": id}}}}), &[]),
            FOp::Reject(id, i) => sim.exec(w(i), &pp, &json!({"extension": {"msg": {"reject": {"id": id}}}}), &[]),
            FOp::Approver(i) => sim.exec(w(i), &pp, &json!({"extension": {"msg": {"update_approver": {"address": s.u("mgr")}}}}), &[]),
            FOp::Members => as_dao(sim, s, "second", vec![wasm_exec(s.at("group"), &json!({"update_members": {"remove": [s.u("cat")], "add": [{"addr": s.u("eve"), "weight": 2}]}}))]),
            FOp::Hook(add) => {
                let k = format!("{}_proposal_submitted_hook", if *add { "add" } else { "remove" });
                as_dao(sim, s, "second", vec![wasm_exec(&pp, &json!({k: {"address": s.at("sub")}}))])
            }
            FOp::Tick(_) => unreachable!(),
        }
    }
    fn view(&self, sim: &Sim, s: &Side, m: &[u8]) -> Value {
        let (pp, p, core) = (s.at("pp"), s.at("prop"), s.at("core"));
        let g = |v: Value| q(sim, &pp, v);
        let c = g(json!({"config": {}}));
        let policy = if Pre::upgraded(m) { c["submission_policy"].clone() } else { Pre::policy(c["open_proposal_submission"].as_bool().unwrap()) };
        let l = q(sim, &p, json!({"list_proposals": {}}));
        let mut props = vec![];
        for x in l["proposals"].as_array().unwrap() {
            let id = &x["id"];
            props.push(json!({"p": x, "dep": g(json!({"deposit_info": {"proposal_id": id}})), "votes": q(sim, &p, json!({"list_votes": {"proposal_id": id}}))}));
        }
        let mut approval = Value::Null;
        if self.kind == 2 {
            let e = |v: Value| g(json!({"query_extension": {"msg": v}}));
            approval = json!({
                "approver": e(json!({"approver": {}})), "pending": e(json!({"pending_proposals": {}})), "done": e(json!({"completed_proposals": {}})),
                "back": [e(json!({"reverse_pending_proposals": {}})), e(json!({"reverse_completed_proposals": {}}))],
                "one": [e(json!({"is_pending": {"id": 1}})), e(json!({"proposal": {"id": 1}})), e(json!({"proposal": {"id": 2}})), e(json!({"completed_proposal_id_for_created_proposal_id": {"id": 1}}))],
            });
        }
        let mut native = serde_json::Map::new();
        for n in USERS {
            native.insert(n.into(), json!(sim.bal(&s.u(n), "ujuno").to_string()));
        }
        for r in ["pp", "core", "prop"] {
            native.insert(r.into(), json!(sim.bal(&s.at(r), "ujuno").to_string()));
        }
        json!({
            "terms": c["deposit_info"], "policy": policy, "links": [g(json!({"proposal_module": {}})), g(json!({"dao": {}})), g(json!({"proposal_submitted_hooks": {}}))],
            "proposals": props, "approval": approval, "wallets": balances(sim, s, "token", &["pp", "core", "prop"]), "native": native,
            "module": [q(sim, &p, json!({"config": {}})), q(sim, &p, json!({"proposal_creation_policy": {}})), q(sim, &p, json!({"proposal_hooks": {}})), q(sim, &p, json!({"dao": {}}))],
            "core": [q(sim, &core, json!({"config": {}})), q(sim, &core, json!({"proposal_modules": {}})), q(sim, &core, json!({"voting_module": {}})),
                q(sim, &core, json!({"total_power_at_height": {}})), q(sim, &core, json!({"voting_power_at_height": {"address": s.u("eve")}})),
                q(sim, &s.at("voting"), json!({"dao": {}})), q(sim, &s.at("voting"), json!({"group_contract": {}}))],
            "hits": [hits(sim, s.at("target"), 1), hits(sim, s.at("target"), 2)],
        })
    }
    fn adjust(&self, m: &[u8], v: &mut Value) {
        if m.contains(&1) {
            v["policy"] = json!({"specific": {"dao_members": false, "allowlist": ["<eve>"], "denylist": []}});
        }
    }
    fn after(&self, sim: &mut Sim, s: &Side, m: &[u8]) -> VResult {
        let u = *m.last().unwrap();
        if u < 2 {
            let c = q(sim, &s.at("pp"), json!({"config": {}}));
            let open = c["submission_policy"].get("anyone").is_some();
            for i in [0u8, 2, 5] {
                let exp = if u == 1 { i == 5 } else { open || Pre::power(sim, s, i) };
                let can = q(sim, &s.at("pp"), json!({"can_propose": {"address": s.u(USERS[i as usize])}}));
                same!(can, json!(exp), M, "can-propose", "whether {} may submit after the upgrade", USERS[i as usize]);
            }
        }
        let (r, n) = match u {
            0 | 1 => ("pp", "dao-pre-propose"),
            4 => ("prop", "dao-proposal"),
            5 => ("core", "dao-dao-core"),
            _ => ("voting", "dao-voting-cw4"),
        };
        let _ = n;
        let info: Value = q(sim, &s.at(r), json!({"info": {}}));
        ensure!(info["info"]["version"] != "2.4.1", M, "version", "{} still reports {} after its upgrade", r, info);
        Ok(())
    }
}
impl Pre {
    fn config_msg(&self, s: &Side, m: &[u8], k: u8) -> Value {
        let (d, open) = self.terms(s, k);
        if !Pre::upgraded(m) {
            return json!({"update_config": {"deposit_info": d, "open_proposal_submission": open}});
        }
        let p = if m.contains(&1) { Value::Null } else { Pre::policy(open) };
        json!({"update_config": {"deposit_info": d, "submission_policy": p}})
    }
}
fn prepropose_entries(e: &mut Vec<Entry>, thorough: bool) {
    let d = if thorough { 1 } else { 0 };
    let two = vec![FOp::Propose(0, false), FOp::Propose(0, true), FOp::Tick(1)];
    let b = Pre { kind: 0, open: false, dep: Some((true, 4, "only_passed")), pre: two.clone(), hook: false };
    e.push(Entry::new("pre-single-native", T(b.clone()), 3 + d));
    e.push(Entry::new("pre-single-cw20", T(Pre { open: true, dep: Some((false, 3, "always")), ..b.clone() }), 3 + d));
    e.push(Entry::new("pre-single-free", T(Pre { dep: None, hook: true, ..b.clone() }), 3 + d));
    e.push(Entry::new("pre-multiple", T(Pre { kind: 1, dep: Some((false, 3, "never")), ..b.clone() }), 3 + d));
    e.push(Entry::new("pre-approval", T(Pre { kind: 2, ..b.clone() }), 3 + d));
    e.push(Entry::new("pre-approval-open", T(Pre { kind: 2, open: true, dep: Some((false, 3, "always")), pre: vec![], ..b.clone() }), 4 + d));
}
