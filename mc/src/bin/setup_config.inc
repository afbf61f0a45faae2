// P08: settings of the proposal modules.
const P8: &[&str] = &["P08"];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Kind {
    Single,
    Multiple,
    Condorcet,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Pct {
    Maj,
    Of(u128),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Thr {
    Abs(Pct),
    Quorum(Pct, Pct),
    Count(u128),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum D {
    H(u64),
    T(u64),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Vetoer {
    Valid,
    Invalid,
    Empty,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Owner {
    Dao,
    Second,
    Invalid,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Cfg {
    thr: Thr,
    max: D,
    min: Option<D>,
    veto: Option<(D, Vetoer)>,
    owner: Owner,
    /// only members execute, revoting, close on failure; for the veto: early execution, before passing
    flags: u8,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum By {
    Dao,
    Second,
    Admin,
    Eve,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum COp {
    Set(Cfg, By),
    Birth(Cfg),
    Policy(u8, By),
    Propose(u8),
    ProposeBy(bool, bool),
    Vote,
    Tick,
}
#[derive(Clone, Debug, PartialEq, Hash)]
struct Made {
    cfg: Cfg,
    at: (u64, u64),
}
#[derive(Clone, Debug, PartialEq, Hash)]
struct CM {
    kind: Kind,
    cfg: Cfg,
    made: Vec<Made>,
    voted: bool,
    /// None: anyone may propose
    policy: Option<String>,
    now: (u64, u64),
    sets: u8,
    dead: bool,
}
struct CW {
    sim: Sim,
    code: u64,
    pup: u64,
    target: String,
    core: String,
    second: String,
    module: String,
    driver: String,
    driver2: String,
}
struct CH {
    kind: Kind,
    list: Vec<Cfg>,
    grid: bool,
    flags: &'static [u8],
}

fn pct(p: Pct) -> Value {
    match p {
        Pct::Maj => json!({"majority": {}}),
        Pct::Of(a) => json!({"percent": dec(a)}),
    }
}
fn thr(t: Thr) -> Value {
    match t {
        Thr::Abs(p) => json!({"absolute_percentage": {"percentage": pct(p)}}),
        Thr::Quorum(t, q) => json!({"threshold_quorum": {"threshold": pct(t), "quorum": pct(q)}}),
        Thr::Count(n) => json!({"absolute_count": {"threshold": n.to_string()}}),
    }
}
fn dur(d: D) -> Value {
    match d {
        D::H(n) => json!({"height": n}),
        D::T(n) => json!({"time": n}),
    }
}
fn same_unit(a: D, b: D) -> bool {
    matches!((a, b), (D::H(_), D::H(_)) | (D::T(_), D::T(_)))
}
fn len(d: D) -> u64 {
    match d {
        D::H(n) | D::T(n) => n,
    }
}
fn after(d: D, now: (u64, u64)) -> Value {
    match d {
        D::H(n) => json!({"at_height": now.0 + n}),
        D::T(n) => json!({"at_time": ((now.1 + n) as u128 * 1_000_000_000).to_string()}),
    }
}
fn quorum_of(t: Thr) -> Pct {
    match t {
        Thr::Quorum(_, q) => q,
        _ => Pct::Maj,
    }
}
fn good_share(p: Pct, zero: bool) -> bool {
    match p {
        Pct::Maj => true,
        Pct::Of(a) => a <= ONE && (zero || a > 0),
    }
}
impl Cfg {
    fn bit(&self, i: u8) -> bool {
        self.flags >> i & 1 == 1
    }
    fn valid(&self, k: Kind) -> bool {
        let thr = match (k, self.thr) {
            (Kind::Single, Thr::Abs(p)) => good_share(p, false),
            (Kind::Single, Thr::Quorum(p, q)) => good_share(p, false) && good_share(q, true),
            (Kind::Single, Thr::Count(n)) => n > 0,
            (_, t) => good_share(quorum_of(t), true),
        };
        let period = self.min.map(|m| same_unit(m, self.max) && len(m) <= len(self.max)).unwrap_or(true);
        let veto = self.veto.map(|(d, v)| same_unit(d, self.max) && v == Vetoer::Valid).unwrap_or(true);
        thr && period && (k == Kind::Condorcet || veto)
    }
    fn veto_json(&self) -> Value {
        match self.veto {
            None => Value::Null,
            Some((d, v)) => json!({
                "timelock_duration": dur(d),
                "vetoer": match v { Vetoer::Valid => "vetoer", Vetoer::Invalid => "V", Vetoer::Empty => "" },
                "early_execute": self.bit(3),
                "veto_before_passed": self.bit(4),
            }),
        }
    }
    /// The settings as the module reports them.
    fn json(&self, k: Kind, dao: &str) -> Value {
        let min = self.min.map(dur).unwrap_or(Value::Null);
        match k {
            Kind::Condorcet => json!({
                "quorum": pct(quorum_of(self.thr)), "voting_period": dur(self.max), "min_voting_period": min,
                "close_proposals_on_execution_failure": self.bit(2),
            }),
            _ => {
                let mut v = json!({
                    "max_voting_period": dur(self.max), "min_voting_period": min,
                    "only_members_execute": self.bit(0), "allow_revoting": self.bit(1),
                    "close_proposal_on_execution_failure": self.bit(2), "dao": dao, "veto": self.veto_json(),
                });
                match k {
                    Kind::Single => v["threshold"] = thr(self.thr),
                    _ => v["voting_strategy"] = json!({"single_choice": {"quorum": pct(quorum_of(self.thr))}}),
                }
                v
            }
        }
    }
}
fn subset(want: &Value, have: &Value) -> Result<(), String> {
    for (k, v) in want.as_object().unwrap() {
        let h = have.get(k).cloned().unwrap_or(Value::Null);
        if h != *v {
            return Err(format!("{}: code says {}, reference says {}", k, h, v));
        }
    }
    Ok(())
}

impl CH {
    fn dao_addr(w: &CW, o: Owner) -> String {
        match o {
            Owner::Dao => w.core.clone(),
            Owner::Second => w.second.clone(),
            Owner::Invalid => "D".into(),
        }
    }
    fn update(&self, w: &CW, c: &Cfg) -> Value {
        let v = c.json(self.kind, &Self::dao_addr(w, c.owner));
        match self.kind {
            Kind::Condorcet => json!({ "set_config": v }),
            _ => json!({ "update_config": v }),
        }
    }
    fn birth(kind: Kind, c: &Cfg) -> Value {
        let mut v = c.json(kind, "");
        if kind != Kind::Condorcet {
            v.as_object_mut().unwrap().remove("dao");
            v["pre_propose_info"] = json!({"anyone_may_propose": {}});
        }
        v
    }
    fn code(kind: Kind) -> Box<dyn cw_multi_test::Contract<cosmwasm_std::Empty>> {
        match kind {
            Kind::Single => single_code(),
            Kind::Multiple => multiple_code(),
            Kind::Condorcet => condorcet_code(),
        }
    }
    /// Let `by` send messages.
    fn send(w: &mut CW, by: By, msgs: Vec<CosmosMsg>) -> mc::sim::ExecResult {
        let hook = json!({"execute_proposal_hook": {"msgs": msgs}});
        match by {
            By::Dao => {
                let m = wasm_exec(&w.core, &hook);
                w.sim.exec("env", w.driver.clone(), &json!({"puppet": {"emit": [m]}}), &[])
            }
            By::Second => {
                let m = wasm_exec(&w.second, &hook);
                w.sim.exec("env", w.driver2.clone(), &json!({"puppet": {"emit": [m]}}), &[])
            }
            By::Admin => w.sim.exec_msgs("adm", msgs),
            By::Eve => w.sim.exec_msgs("eve", msgs),
        }
    }
    fn owner_is(m: &CM, by: By) -> bool {
        matches!((m.cfg.owner, by), (Owner::Dao, By::Dao) | (Owner::Second, By::Second))
    }
    fn propose_msg(&self, n: u8, proposer: Option<&str>) -> Value {
        match self.kind {
            Kind::Single => json!({"propose": {"title": "t", "description": "d", "msgs": [], "proposer": proposer}}),
            Kind::Multiple => {
                let o: Vec<Value> = (0..n).map(|i| json!({"title": format!("o{}", i), "description": "", "msgs": []})).collect();
                json!({"propose": {"title": "t", "description": "d", "choices": {"options": o}, "proposer": proposer}})
            }
            Kind::Condorcet => {
                let o: Vec<Value> = (0..n).map(|_| json!({"msgs": []})).collect();
                json!({"propose": {"choices": o}})
            }
        }
    }
    fn enough(&self, n: u8) -> bool {
        match self.kind {
            Kind::Single => true,
            Kind::Multiple => (2..=20).contains(&n),
            Kind::Condorcet => n >= 1,
        }
    }
    fn check_prop(&self, w: &CW, m: &CM, i: usize) -> VResult {
        let p = &m.made[i];
        let q = match self.kind {
            Kind::Condorcet => json!({"proposal": {"id": i + 1}}),
            _ => json!({"proposal": {"proposal_id": i + 1}}),
        };
        let r: Value = w.sim.query(&w.module, &q).map_err(|e| Violation::new(P8, "proposal", format!("proposal {} cannot be read: {}", i + 1, e)))?;
        let min = p.cfg.min.map(|d| after(d, p.at)).unwrap_or(Value::Null);
        let mut want = json!({"min_voting_period": min, "total_power": "4"});
        match self.kind {
            Kind::Condorcet => {
                want["quorum"] = pct(quorum_of(p.cfg.thr));
                want["close_on_execution_failure"] = json!(p.cfg.bit(2));
                same!(r["tally"]["expiration"], after(p.cfg.max, p.at), P8, "frozen", "end of proposal {}", i + 1);
            }
            _ => {
                want["expiration"] = after(p.cfg.max, p.at);
                want["allow_revoting"] = json!(p.cfg.bit(1));
                want["veto"] = p.cfg.veto_json();
                if self.kind == Kind::Single {
                    want["threshold"] = thr(p.cfg.thr);
                } else {
                    want["voting_strategy"] = json!({"single_choice": {"quorum": pct(quorum_of(p.cfg.thr))}});
                }
            }
        }
        subset(&want, &r["proposal"]).map_err(|e| Violation::new(P8, "frozen", format!("rules of proposal {}: {}", i + 1, e)))
    }
}

impl Harness for CH {
    type World = CW;
    type Model = CM;
    type Op = COp;
    fn setup(&self) -> (CW, CM) {
        let mut sim = Sim::new();
        let code = sim.store(Self::code(self.kind));
        let pup = sim.store(puppet());
        let vcode = sim.store(power_table());
        let target = sim.init(pup, "env", &json!({}), &[], "t").unwrap().to_string();
        let cfg = self.list[0];
        let powers = [("alice", 3), ("bob", 1)];
        let dao = new_dao(
            &mut sim,
            power_module(vcode, &powers),
            vec![mii(pup, &json!({}), "driver"), mii(code, &Self::birth(self.kind, &cfg), "mod")],
            Some("adm".into()),
        );
        let second = new_dao(&mut sim, power_module(vcode, &powers), vec![mii(pup, &json!({}), "driver")], None);
        let is_pup = |sim: &Sim, a: &Addr| sim.app.wrap().query_wasm_contract_info(a).unwrap().code_id == pup;
        let driver = dao.proposals.iter().find(|a| is_pup(&sim, a)).unwrap().to_string();
        let module = dao.proposals.iter().find(|a| !is_pup(&sim, a)).unwrap().to_string();
        sim.seal();
        let m = CM {
            kind: self.kind,
            cfg,
            made: vec![],
            voted: false,
            policy: None,
            now: (sim.height(), sim.time()),
            sets: 0,
            dead: false,
        };
        (
            CW { sim, code, pup, target, core: dao.core.to_string(), second: second.core.to_string(), module, driver, driver2: second.proposals[0].to_string() },
            m,
        )
    }
    fn sim<'a>(&self, w: &'a mut CW) -> &'a mut Sim {
        &mut w.sim
    }
    fn ops(&self, m: &CM) -> Vec<COp> {
        let mut v = vec![];
        if m.dead {
            return v;
        }
        if self.grid {
            if m.sets == 0 {
                for c in grid(self.kind, self.flags) {
                    v.push(COp::Set(c, By::Dao));
                    v.push(COp::Birth(c));
                }
            }
            if m.made.len() < 2 {
                v.push(COp::Propose(2));
            }
            if m.sets == 0 && !m.made.is_empty() && !m.voted {
                v.push(COp::Vote);
            }
            return v;
        }
        for c in &self.list {
            for by in [By::Dao, By::Second, By::Admin, By::Eve] {
                v.push(COp::Set(*c, by));
            }
            if m.sets == 0 {
                v.push(COp::Birth(*c));
            }
        }
        if self.kind != Kind::Condorcet {
            for k in 0..3 {
                for by in [By::Dao, By::Second, By::Eve] {
                    v.push(COp::Policy(k, by));
                }
            }
            for a in [false, true] {
                for b in [false, true] {
                    v.push(COp::ProposeBy(a, b));
                }
            }
        }
        if m.made.len() < 3 {
            for n in [0, 1, 2, 3, 20, 21] {
                if self.kind != Kind::Single || n == 2 {
                    v.push(COp::Propose(n));
                }
            }
        }
        if !m.made.is_empty() && !m.voted {
            v.push(COp::Vote);
        }
        v.push(COp::Tick);
        v
    }
    fn step(&self, w: &mut CW, m: &mut CM, op: &COp) -> VResult<String> {
        match op {
            COp::Tick => {
                w.sim.advance(1, 5);
                m.now = (w.sim.height(), w.sim.time());
                Ok("time passes".into())
            }
            COp::Set(c, by) => {
                let ok = Self::owner_is(m, *by) && c.valid(self.kind) && (self.kind == Kind::Condorcet || c.owner != Owner::Invalid);
                let msg = wasm_exec(&w.module, &self.update(w, c));
                let r = Self::send(w, *by, vec![msg]);
                ensure!(r.is_ok() == ok, P8, "set", "new settings {:?} by {:?} must be {}: {:?}", c, by, if ok { "accepted" } else { "refused" }, r.err());
                if ok {
                    let owner = m.cfg.owner;
                    m.cfg = *c;
                    if self.kind == Kind::Condorcet {
                        m.cfg.owner = owner;
                    }
                    m.sets += 1;
                }
                Ok(format!("settings {}", if ok { "changed" } else { "refused" }))
            }
            COp::Birth(c) => {
                let ok = c.valid(self.kind);
                let add = json!({"update_proposal_modules": {"to_add": [mii(w.code, &Self::birth(self.kind, c), "new")], "to_disable": []}});
                let msg = wasm_exec(&w.core, &add);
                let before = dao_of(&w.sim, Addr::unchecked(&w.core)).proposals;
                let r = Self::send(w, By::Dao, vec![msg]);
                ensure!(r.is_ok() == ok, P8, "birth", "a module created with {:?} must be {}: {:?}", c, if ok { "accepted" } else { "refused" }, r.err());
                m.dead = true;
                if ok {
                    let new: Vec<Addr> = dao_of(&w.sim, Addr::unchecked(&w.core)).proposals.into_iter().filter(|a| !before.contains(a)).collect();
                    same!(new.len(), 1, P8, "birth-count", "modules added");
                    let have: Value = w.sim.query(&new[0], &json!({"config": {}})).unwrap();
                    subset(&c.json(self.kind, &w.core), &have).map_err(|e| Violation::new(P8, "birth-config", format!("settings of a new module: {}", e)))?;
                    let d: Value = w.sim.query(&new[0], &json!({"dao": {}})).unwrap();
                    same!(d, json!(w.core), P8, "birth-dao", "DAO of a new module");
                }
                Ok(format!("module {}", if ok { "created" } else { "refused" }))
            }
            COp::Policy(k, by) => {
                let info = match k {
                    0 => json!({"anyone_may_propose": {}}),
                    1 => json!({"module_may_propose": {"info": mii(w.pup, &json!({"tag": 1}), "pre")}}),
                    _ => json!({"module_may_propose": {"info": mii(w.pup, &json!({"refuse": 1}), "pre")}}),
                };
                let ok = Self::owner_is(m, *by) && *k < 2;
                let msg = wasm_exec(&w.module, &json!({"update_pre_propose_info": {"info": info}}));
                let r = Self::send(w, *by, vec![msg]);
                ensure!(r.is_ok() == ok, P8, "policy", "creation policy {} by {:?} must be {}: {:?}", k, by, if ok { "accepted" } else { "refused" }, r.err());
                if ok {
                    if *k == 0 {
                        m.policy = None;
                    } else {
                        let p: Value = w.sim.query(&w.module, &json!({"proposal_creation_policy": {}})).unwrap();
                        let a = p["module"]["addr"].as_str().unwrap_or("").to_string();
                        ensure!(!a.is_empty() && Some(&a) != m.policy.as_ref(), P8, "policy-module", "creation policy after a new module was requested: {}", p);
                        same!(puppet_get(&w.sim, &a, "tag"), json!(1), P8, "policy-module", "the new creating module's request");
                        same!(puppet_get(&w.sim, &a, "creator"), json!(w.module), P8, "policy-module", "the new creating module's creator");
                        let adm = w.sim.app.wrap().query_wasm_contract_info(&a).unwrap().admin;
                        same!(adm, Some(Self::dao_addr(w, m.cfg.owner)), P8, "policy-admin", "who may upgrade the creating module");
                        m.policy = Some(a);
                    }
                }
                Ok(format!("policy {}", if ok { "changed" } else { "refused" }))
            }
            COp::Propose(n) => {
                let ok = self.enough(*n);
                let msg;
                let r = match m.policy.clone() {
                    None => {
                        msg = self.propose_msg(*n, None);
                        w.sim.exec("alice", w.module.clone(), &msg, &[])
                    }
                    Some(a) => {
                        msg = self.propose_msg(*n, Some("alice"));
                        let e = wasm_exec(&w.module, &msg);
                        w.sim.exec("env", a, &json!({"puppet": {"emit": [e]}}), &[])
                    }
                };
                ensure!(r.is_ok() == ok, P8, "propose", "proposing {} choices must be {}: {:?}", n, if ok { "accepted" } else { "refused" }, r.err());
                if ok {
                    m.made.push(Made { cfg: m.cfg, at: m.now });
                    m.voted = false;
                }
                Ok(format!("proposal {}", if ok { "created" } else { "refused" }))
            }
            COp::ProposeBy(module, named) => {
                // everyone whom the policy does not allow, and wrong proposer fields
                let msg = self.propose_msg(2, if *named { Some("bob") } else { None });
                let (r, ok) = match (module, m.policy.clone()) {
                    (true, Some(a)) => {
                        let e = wasm_exec(&w.module, &msg);
                        (w.sim.exec("env", a, &json!({"puppet": {"emit": [e]}}), &[]), *named)
                    }
                    (true, None) => {
                        let e = wasm_exec(&w.module, &msg);
                        (w.sim.exec("env", w.target.clone(), &json!({"puppet": {"emit": [e]}}), &[]), !*named)
                    }
                    (false, p) => (w.sim.exec("bob", w.module.clone(), &msg, &[]), !*named && p.is_none()),
                };
                ensure!(r.is_ok() == ok, P8, "propose-by", "proposal by {} naming {} under {:?}: {:?}", if *module { "a module" } else { "bob" }, named, m.policy, r.err());
                m.dead = true;
                Ok(format!("proposal by another {}", if ok { "created" } else { "refused" }))
            }
            COp::Vote => {
                // outcome belongs to other properties; what matters here is that it changes no rule
                let vote = match self.kind {
                    Kind::Single => json!("yes"),
                    Kind::Multiple => json!({"option_id": 0}),
                    Kind::Condorcet => {
                        let r: Value = w.sim.query(&w.module, &json!({"proposal": {"id": m.made.len()}})).unwrap();
                        json!((0..r["proposal"]["choices"].as_array().unwrap().len()).collect::<Vec<_>>())
                    }
                };
                let _ = w.sim.exec("alice", w.module.clone(), &json!({"vote": {"proposal_id": m.made.len(), "vote": vote}}), &[]);
                m.voted = true;
                Ok("vote".into())
            }
        }
    }
    fn invariant(&self, w: &mut CW, m: &CM) -> VResult {
        let have: Value = w.sim.query(&w.module, &json!({"config": {}})).map_err(|e| Violation::new(P8, "config", e))?;
        let owner = Self::dao_addr(w, m.cfg.owner);
        subset(&m.cfg.json(self.kind, &owner), &have).map_err(|e| Violation::new(P8, "config", format!("settings: {}", e)))?;
        if self.kind != Kind::Condorcet && !m.dead {
            let p: Value = w.sim.query(&w.module, &json!({"proposal_creation_policy": {}})).unwrap();
            let want = match &m.policy {
                None => json!({"anyone": {}}),
                Some(a) => json!({"module": {"addr": a}}),
            };
            same!(p, want, P8, "policy-report", "creation policy");
            let d: Value = w.sim.query(&w.module, &json!({"dao": {}})).unwrap();
            same!(d, json!(owner), P8, "dao", "the module's DAO");
        }
        for i in 0..m.made.len() {
            self.check_prop(w, m, i)?;
        }
        Ok(())
    }
}

fn grid(k: Kind, flags: &[u8]) -> Vec<Cfg> {
    let p = [Pct::Maj, Pct::Of(0), Pct::Of(1), Pct::Of(ONE / 2), Pct::Of(ONE), Pct::Of(ONE + 1)];
    let mut thrs = vec![];
    for a in p {
        for q in p {
            if k == Kind::Single || a == Pct::Maj {
                thrs.push(Thr::Quorum(a, q));
            }
        }
        if k == Kind::Single {
            thrs.push(Thr::Abs(a));
        }
    }
    if k == Kind::Single {
        thrs.extend([0, 1, 4, 5, u128::MAX].map(Thr::Count));
    }
    let mut v = vec![];
    let mut n = 0usize;
    for t in thrs {
        for max in [D::H(0), D::H(2), D::T(12)] {
            for min in [None, Some(D::H(0)), Some(D::H(2)), Some(D::H(3)), Some(D::T(0)), Some(D::T(12)), Some(D::T(13))] {
                for veto in [None, Some((D::H(2), Vetoer::Valid)), Some((D::T(9), Vetoer::Valid)), Some((D::H(0), Vetoer::Valid)), Some((D::T(0), Vetoer::Valid)), Some((D::H(0), Vetoer::Invalid)), Some((D::T(9), Vetoer::Empty))] {
                    if k == Kind::Condorcet && veto.is_some() {
                        continue;
                    }
                    for owner in [Owner::Dao, Owner::Invalid] {
                        if owner == Owner::Invalid && (k == Kind::Condorcet || n % 5 != 0) {
                            continue;
                        }
                        for f in flags {
                            n += 1;
                            // one value of the flags per combination unless all are asked for
                            let f = if flags.len() == 1 { (n * 7 % 32) as u8 } else { *f };
                            v.push(Cfg { thr: t, max, min, veto, owner, flags: f });
                        }
                    }
                }
            }
        }
    }
    v
}
fn small(k: Kind) -> Vec<Cfg> {
    let q = |a, b| Thr::Quorum(Pct::Of(a), Pct::Of(b));
    let base = Cfg { thr: q(ONE / 2, ONE / 4), max: D::T(12), min: None, veto: None, owner: Owner::Dao, flags: 0 };
    let other = Cfg {
        thr: Thr::Quorum(Pct::Maj, Pct::Of(0)),
        max: D::H(2),
        min: Some(D::H(1)),
        veto: Some((D::H(1), Vetoer::Valid)),
        owner: Owner::Dao,
        flags: 0b10111,
    };
    let mut v = vec![
        base,
        other,
        Cfg { thr: q(ONE, ONE), owner: Owner::Second, flags: 0b01010, ..base },
        Cfg { thr: q(ONE, ONE + 1), ..base },
        Cfg { min: Some(D::T(13)), ..base },
        Cfg { min: Some(D::H(1)), ..base },
    ];
    if k != Kind::Condorcet {
        v.push(Cfg { veto: Some((D::H(1), Vetoer::Valid)), ..base });
        v.push(Cfg { veto: Some((D::T(1), Vetoer::Invalid)), ..base });
        v.push(Cfg { owner: Owner::Invalid, ..base });
    }
    if k == Kind::Single {
        v.push(Cfg { thr: Thr::Count(3), flags: 0b00010, ..other });
        v.push(Cfg { thr: Thr::Count(0), ..base });
        v.push(Cfg { thr: q(0, ONE), ..base });
    }
    v
}
fn plan_config(th: bool) -> PropertyPlan {
    let mut entries = vec![];
    for k in [Kind::Single, Kind::Multiple, Kind::Condorcet] {
        let n = format!("{:?}", k).to_lowercase();
        entries.push(Entry::new(format!("{}-histories", n), CH { kind: k, list: small(k), grid: false, flags: &[0] }, if th { 7 } else { 5 }));
        let all: &[u8] = &[0, 1, 2, 4, 8, 16, 31];
        entries.push(Entry::new(format!("{}-grid", n), CH { kind: k, list: small(k), grid: true, flags: if th { all } else { &[0] } }, 3));
    }
    PropertyPlan {
        entries,
        rule: "the full product of thresholds and quorums x maximum x minimum periods x vetoes x DAO addresses, given to each kind of proposal module at its creation and as a change, before and after proposals were created and voted on; and breadth-first histories of changes by every kind of caller, creation policies, proposals, votes and time; after every step the reported settings, the creation policy and the rules recorded with every proposal are compared with the reference",
        assumptions: ASSUME.to_vec(),
    }
}
