// ---------------------------------------------------------------- cw20 staking 0.2.6
#[derive(Clone, Debug, Serialize, Deserialize)]
enum SOp {
    Stake(u8, u8),
    Unstake(u8, u8),
    Fund(u8),
    Claim(u8),
    Dur(u8, Option<u64>),
    Hook(u8, bool),
    Tick(u8),
}
struct Stake {
    owner: bool,
    dur: Option<u64>,
    /// unstaking periods in seconds
    time: bool,
}
impl Stake {
    fn period(&self, h: u64) -> Value {
        if self.time { json!({"time": 6 * h}) } else { json!({"height": h}) }
    }
}
impl Duo for Stake {
    type Op = SOp;
    fn build(&self, sim: &mut Sim, s: &mut Side) {
        cw20(sim, s, "token", 20, &[]);
        puppet_at(sim, s, "sub");
        let (o, m, t) = (s.u("own"), s.u("mgr"), s.at("token"));
        put(sim, s, "stake", "stake-v1", stake_v1, &json!({
            "owner": if self.owner { Some(o) } else { None }, "manager": m, "token_address": t,
            "unstaking_duration": self.dur.map(|h| self.period(h))}));
        s.codes.insert("new", sim.store(stake_code()));
    }
    fn ups(&self) -> Vec<Up> {
        vec![up("stake", "stake", "new", |_| json!({"from_v1": {}}))]
    }
    fn ops(&self, _m: &[u8]) -> Vec<SOp> {
        let mut v = vec![
            SOp::Stake(0, 5), SOp::Stake(1, 3), SOp::Unstake(0, 2), SOp::Unstake(0, 3), SOp::Unstake(1, 3),
            SOp::Fund(4), SOp::Claim(0), SOp::Claim(1), SOp::Tick(1), SOp::Hook(4, true), SOp::Dur(4, Some(1)),
        ];
        if self.owner {
            v.extend([SOp::Dur(3, None), SOp::Dur(3, Some(2)), SOp::Hook(3, true), SOp::Hook(3, false)]);
        }
        v
    }
    fn mode(&self, _: &Sim, _: &Side, m: &[u8], op: &SOp) -> Mode {
        match op {
            SOp::Dur(4, _) | SOp::Hook(4, _) if !m.is_empty() => Mode::Twin(false),
            _ => Mode::Both,
        }
    }
    fn tick(&self, op: &SOp) -> Option<u64> {
        if let SOp::Tick(n) = op {
            Some(*n as u64)
        } else {
            None
        }
    }
    fn apply(&self, sim: &mut Sim, s: &Side, m: &[u8], op: &SOp) -> ExecResult {
        let w = |i: &u8| s.u(USERS[*i as usize]);
        let (st, t) = (s.at("stake"), s.at("token"));
        match op {
            SOp::Stake(i, a) => sim.exec(w(i), t, &send(&st, *a as u128, json!({"stake": {}})), &[]),
            SOp::Fund(a) => sim.exec(s.u("cat"), t, &send(&st, *a as u128, json!({"fund": {}})), &[]),
            SOp::Unstake(i, a) => sim.exec(w(i), st, &json!({"unstake": {"amount": a.to_string()}}), &[]),
            SOp::Claim(i) => sim.exec(w(i), st, &json!({"claim": {}}), &[]),
            SOp::Hook(i, add) => {
                let k = if *add { "add_hook" } else { "remove_hook" };
                sim.exec(w(i), st, &json!({k: {"addr": s.at("sub")}}), &[])
            }
            SOp::Dur(i, d) => {
                let d = d.map(|h| self.period(h));
                let msg = if m.is_empty() {
                    let o = if self.owner { Some(s.u("own")) } else { None };
                    json!({"update_config": {"owner": o, "manager": s.u("mgr"), "duration": d}})
                } else {
                    json!({"update_config": {"duration": d}})
                };
                sim.exec(w(i), st, &msg, &[])
            }
            SOp::Tick(_) => unreachable!(),
        }
    }
    fn view(&self, sim: &Sim, s: &Side, m: &[u8]) -> Value {
        let st = s.at("stake");
        let mut users = vec![];
        for n in ["ann", "bob"] {
            let hist: Vec<Value> = (mc::sim::H0..=sim.height() + 1)
                .map(|h| q(sim, &st, json!({"staked_balance_at_height": {"address": s.u(n), "height": h}}))["balance"].clone())
                .collect();
            users.push(json!([hist, q(sim, &st, json!({"staked_value": {"address": s.u(n)}})), q(sim, &st, json!({"claims": {"address": s.u(n)}}))]));
        }
        let tot: Vec<Value> = (mc::sim::H0..=sim.height() + 1)
            .map(|h| q(sim, &st, json!({"total_staked_at_height": {"height": h}}))["total"].clone())
            .collect();
        let mut config = q(sim, &st, json!({"get_config": {}}));
        let o = config.as_object_mut().unwrap();
        o.remove("manager");
        if !m.is_empty() {
            let own = q(sim, &st, json!({"ownership": {}}));
            o.insert("owner".into(), own["owner"].clone());
            o.insert("pending".into(), own["pending_owner"].clone());
        }
        json!({
            "config": config, "users": users, "total": tot, "value": q(sim, &st, json!({"total_value": {}})),
            "hooks": q(sim, &st, json!({"get_hooks": {}})), "log": puppet_get(sim, s.at("sub"), "log"),
            "wallets": balances(sim, s, "token", &["stake"]),
        })
    }
}

// ---------------------------------------------------------------- external rewards 0.2.6
#[derive(Clone, Debug, Serialize, Deserialize)]
enum XOp {
    Stake(u8, u8),
    Unstake(u8, u8),
    Fund(u8, u8),
    Claim(u8),
    Dur(u8, u64),
    Tick(u8),
}
struct Ext {
    native: bool,
    owner: bool,
}
impl Duo for Ext {
    type Op = XOp;
    fn build(&self, sim: &mut Sim, s: &mut Side) {
        cw20(sim, s, "token", 20, &[]);
        cw20(sim, s, "prize", 20, &[]);
        for n in USERS {
            sim.mint(&s.u(n), 20, "ujuno");
        }
        let (o, m, t, p) = (s.u("own"), s.u("mgr"), s.at("token"), s.at("prize"));
        put(sim, s, "stake", "stake-v1", stake_v1, &json!({"owner": o, "manager": null, "token_address": t, "unstaking_duration": null}));
        let st = s.at("stake");
        put(sim, s, "ext", "ext-v1", ext_v1, &json!({
            "owner": if self.owner { Some(o.clone()) } else { None }, "manager": m, "staking_contract": st, "reward_duration": 2,
            "reward_token": if self.native { json!({"native": "ujuno"}) } else { json!({"cw20": p}) }}));
        let e = s.at("ext");
        sim.exec(&o, st, &json!({"add_hook": {"addr": e}}), &[]).unwrap();
        s.codes.insert("new", sim.store(ext_rewards_code()));
        s.codes.insert("stake-new", sim.store(stake_code()));
    }
    fn ups(&self) -> Vec<Up> {
        vec![up("rewards", "ext", "new", |_| json!({"from_v1": {}})), up("stake", "stake", "stake-new", |_| json!({"from_v1": {}}))]
    }
    fn ops(&self, _m: &[u8]) -> Vec<XOp> {
        let f = if self.owner { 3 } else { 4 };
        vec![
            XOp::Stake(0, 3), XOp::Stake(1, 2), XOp::Unstake(0, 1), XOp::Unstake(1, 2), XOp::Fund(f, 8), XOp::Fund(4, 6),
            XOp::Claim(0), XOp::Claim(1), XOp::Dur(f, 3), XOp::Dur(4, 1), XOp::Tick(1),
        ]
    }
    fn mode(&self, _: &Sim, _: &Side, m: &[u8], op: &XOp) -> Mode {
        match op {
            XOp::Fund(4, _) | XOp::Dur(4, _) if m.contains(&0) => Mode::Twin(false),
            _ => Mode::Both,
        }
    }
    fn tick(&self, op: &XOp) -> Option<u64> {
        if let XOp::Tick(n) = op {
            Some(*n as u64)
        } else {
            None
        }
    }
    fn apply(&self, sim: &mut Sim, s: &Side, _m: &[u8], op: &XOp) -> ExecResult {
        let w = |i: &u8| s.u(USERS[*i as usize]);
        let (st, t, e) = (s.at("stake"), s.at("token"), s.at("ext"));
        match op {
            XOp::Stake(i, a) => sim.exec(w(i), t, &send(&st, *a as u128, json!({"stake": {}})), &[]),
            XOp::Unstake(i, a) => sim.exec(w(i), st, &json!({"unstake": {"amount": a.to_string()}}), &[]),
            XOp::Fund(i, a) if self.native => sim.exec(w(i), e, &json!({"fund": {}}), &coins(*a as u128, "ujuno")),
            XOp::Fund(i, a) => sim.exec(w(i), s.at("prize"), &send(&e, *a as u128, json!({"fund": {}})), &[]),
            XOp::Claim(i) => sim.exec(w(i), e, &json!({"claim": {}}), &[]),
            XOp::Dur(i, d) => sim.exec(w(i), e, &json!({"update_reward_duration": {"new_duration": d}}), &[]),
            XOp::Tick(_) => unreachable!(),
        }
    }
    fn view(&self, sim: &Sim, s: &Side, m: &[u8]) -> Value {
        let e = s.at("ext");
        let mut info = q(sim, &e, json!({"info": {}}));
        let o = info["config"].as_object_mut().unwrap();
        o.remove("manager");
        if m.contains(&0) {
            let own = q(sim, &e, json!({"ownership": {}}));
            o.insert("owner".into(), own["owner"].clone());
            o.insert("pending".into(), own["pending_owner"].clone());
        }
        let mut users = vec![];
        for n in ["ann", "bob"] {
            users.push(json!([q(sim, &e, json!({"get_pending_rewards": {"address": s.u(n)}})), sim.bal(s.u(n), "ujuno").to_string()]));
        }
        json!({"info": info, "users": users, "held": sim.bal(&e, "ujuno").to_string(), "wallets": balances(sim, s, "prize", &["ext"]),
            "tokens": balances(sim, s, "token", &["stake"])})
    }
}

// ---------------------------------------------------------------- reward distributor 0.1.0
#[derive(Clone, Debug, Serialize, Deserialize)]
enum POp {
    Stake(u8, u8),
    Distribute,
    Withdraw(u8),
    /// by, rate, the other staking contract
    Config(u8, u8, bool),
    Fill(u8),
    Tick(u8),
}
struct Dist;
impl Duo for Dist {
    type Op = POp;
    fn build(&self, sim: &mut Sim, s: &mut Side) {
        cw20(sim, s, "token", 20, &[]);
        let (o, t) = (s.u("own"), s.at("token"));
        let init = json!({"owner": o, "manager": null, "token_address": t, "unstaking_duration": null});
        put(sim, s, "stake", "stake-v1", stake_v1, &init);
        put(sim, s, "other", "stake-v1", stake_v1, &init);
        let st = s.at("stake");
        put(sim, s, "dist", "dist-v1", dist_v1, &json!({"owner": o, "staking_addr": st, "reward_rate": "2", "reward_token": t}));
        s.codes.insert("new", sim.store(reward_dist_code()));
        s.codes.insert("stake-new", sim.store(stake_code()));
    }
    fn ups(&self) -> Vec<Up> {
        vec![up("distributor", "dist", "new", |_| json!({"from_v1": {}})), up("stake", "stake", "stake-new", |_| json!({"from_v1": {}}))]
    }
    fn ops(&self, _m: &[u8]) -> Vec<POp> {
        vec![
            POp::Stake(0, 5), POp::Stake(1, 3), POp::Distribute, POp::Withdraw(3), POp::Withdraw(0), POp::Config(3, 3, true),
            POp::Config(3, 1, false), POp::Config(0, 9, true), POp::Fill(5), POp::Tick(1), POp::Tick(2),
        ]
    }
    fn mode(&self, _: &Sim, _: &Side, _m: &[u8], _op: &POp) -> Mode {
        Mode::Both
    }
    fn tick(&self, op: &POp) -> Option<u64> {
        if let POp::Tick(n) = op {
            Some(*n as u64)
        } else {
            None
        }
    }
    fn apply(&self, sim: &mut Sim, s: &Side, m: &[u8], op: &POp) -> ExecResult {
        let w = |i: &u8| s.u(USERS[*i as usize]);
        let (st, t, d) = (s.at("stake"), s.at("token"), s.at("dist"));
        match op {
            POp::Stake(i, a) => sim.exec(w(i), t, &send(&st, *a as u128, json!({"stake": {}})), &[]),
            POp::Fill(a) => sim.exec(s.u("cat"), t, &json!({"transfer": {"recipient": d, "amount": a.to_string()}}), &[]),
            POp::Distribute => sim.exec(s.u("eve"), d, &json!({"distribute": {}}), &[]),
            POp::Withdraw(i) => sim.exec(w(i), d, &json!({"withdraw": {}}), &[]),
            POp::Config(i, r, other) => {
                let mut c = json!({"staking_addr": s.at(if *other { "other" } else { "stake" }), "reward_rate": r.to_string(), "reward_token": t});
                if !m.contains(&0) {
                    c["owner"] = json!(s.u("own"));
                }
                sim.exec(w(i), d, &json!({"update_config": c}), &[])
            }
            POp::Tick(_) => unreachable!(),
        }
    }
    fn view(&self, sim: &Sim, s: &Side, m: &[u8]) -> Value {
        let d = s.at("dist");
        let mut info = q(sim, &d, json!({"info": {}}));
        if m.contains(&0) {
            let own = q(sim, &d, json!({"ownership": {}}));
            info["config"]["owner"] = own["owner"].clone();
            info["config"]["pending"] = own["pending_owner"].clone();
        }
        json!({"info": info, "wallets": balances(sim, s, "token", &["stake", "other", "dist"]),
            "value": q(sim, &s.at("stake"), json!({"total_value": {}}))})
    }
}
fn staking_entries(e: &mut Vec<Entry>, thorough: bool) {
    let d = if thorough { 2 } else { 0 };
    e.push(Entry::new("stake", T(Stake { owner: true, dur: Some(2), time: false }), 4 + d));
    e.push(Entry::new("stake-ownerless", T(Stake { owner: false, dur: None, time: false }), 4 + d));
    e.push(Entry::new("stake-seconds", T(Stake { owner: false, dur: Some(2), time: true }), 4 + d));
    e.push(Entry::new("ext-cw20", T(Ext { native: false, owner: true }), 5 + d));
    e.push(Entry::new("ext-native", T(Ext { native: true, owner: false }), 4 + d));
    e.push(Entry::new("dist", T(Dist), 4 + d));
}
