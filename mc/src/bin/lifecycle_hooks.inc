// ------------------------------------------------------------------- H2: subscribers and pre-propose
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum HBody {
    Hit,
    Boom,
    /// the DAO opens proposing to everyone
    ToAnyone,
    /// the DAO installs a new pre-propose contract
    ToNew,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum HOp {
    Sub { vote: bool, h: usize, add: bool, by_dao: bool },
    Fail { h: usize, on: bool },
    FailPre { k: usize, on: bool },
    Propose { body: HBody, auto: bool, direct: bool },
    Vote { alice: bool, pid: u64, choice: u8 },
    Execute { pid: u64 },
    Close { pid: u64 },
    Veto { pid: u64 },
    Tick,
}
#[derive(Clone, Hash, PartialEq, Debug)]
struct HProp {
    body: HBody,
    start: u64,
    alice: Option<u8>,
    bob: Option<u8>,
    fin: Option<u8>,
}
#[derive(Clone, Hash, PartialEq, Debug)]
struct HModel {
    now: (u64, u64),
    psub: Vec<usize>,
    vsub: Vec<usize>,
    fail: Vec<bool>,
    /// pre-propose contracts ever installed (0 = first); failing flags
    prefail: Vec<bool>,
    pre: Option<usize>,
    props: Vec<HProp>,
    hits: BTreeMap<u64, u64>,
}
struct HooksH {
    kind: Kind,
    subs: usize,
    pre: bool,
    bodies: Vec<HBody>,
    max_props: usize,
    veto: bool,
    close_fail: bool,
    manage: bool,
    /// subscribers present from the start: (proposal, vote)
    initial: (Vec<usize>, Vec<usize>),
}
struct HWorld {
    sim: Sim,
    dao: Dao,
    target: Addr,
    subs: Vec<Addr>,
    code: u64,
    pre0: Option<Addr>,
}
/// one notification expected: subscriber -> message with a canonical rendering
type Notes = Vec<(usize, String)>;
fn status_word(s: St) -> &'static str {
    match s {
        St::Open => "open",
        St::Passed => "passed",
        St::Rejected => "rejected",
        St::Timelock(_) => "veto_timelock_until",
        St::Executed => "executed",
        St::Closed => "closed",
        St::Vetoed => "vetoed",
        St::Failed => "execution_failed",
    }
}
impl HooksH {
    fn cfg(&self) -> Cfg {
        Cfg { veto: if self.veto { veto(true, true, 1) } else { None }, close_fail: self.close_fail, only_members: false, ..BASE }
    }
    fn module<'a>(&self, w: &'a HWorld) -> &'a Addr {
        &w.dao.proposals[0]
    }
    /// contracts that are or were the pre-propose module, in order of installation
    fn pre_addr(&self, w: &HWorld, k: usize) -> Addr {
        if k == 0 {
            return w.pre0.clone().unwrap();
        }
        // later modules are found by their label counter
        let n: Value = puppet_get(&w.sim, &w.target, &format!("pre{}", k));
        Addr::unchecked(n.as_str().unwrap())
    }
    fn sts(&self, w: &HWorld, m: &HModel) -> VResult<Vec<St>> {
        (1..=m.props.len() as u64)
            .map(|i| self.kind.get(&w.sim, self.module(w), i).map(|v| st(v.status)).map_err(|e| Violation::new(P06, "query-failed", e)))
            .collect()
    }
    fn clear_logs(&self, w: &mut HWorld, m: &HModel) {
        for s in w.subs.clone() {
            puppet_set(&mut w.sim, &s, json!({"log": []}));
        }
        for k in 0..m.prefail.len() {
            let a = self.pre_addr(w, k);
            puppet_set(&mut w.sim, &a, json!({"log": []}));
        }
    }
}
fn strip(s: &str) -> String {
    if s.starts_with("veto_timelock_until") {
        "veto_timelock_until".into()
    } else {
        s.to_string()
    }
}
fn canon_note(v: &Value) -> String {
    let m = &v["msg"];
    if let Some(p) = m["proposal_hook"].as_object() {
        if let Some(n) = p.get("new_proposal") {
            return format!("new {} {}", n["id"], n["proposer"].as_str().unwrap_or("?"));
        }
        if let Some(n) = p.get("proposal_status_changed") {
            return format!("status {} {} {}", n["id"], strip(n["old_status"].as_str().unwrap_or("?")), strip(n["new_status"].as_str().unwrap_or("?")));
        }
    }
    if let Some(n) = m["vote_hook"]["new_vote"].as_object() {
        return format!("vote {} {}", n["proposal_id"], n["voter"].as_str().unwrap_or("?"));
    }
    if let Some(n) = m["proposal_completed_hook"].as_object() {
        return format!("completed {} {}", n["proposal_id"], n["new_status"].as_str().map(|s| s.to_string()).unwrap_or_else(|| n["new_status"].to_string()));
    }
    format!("? {}", v)
}
impl Harness for HooksH {
    type World = HWorld;
    type Model = HModel;
    type Op = HOp;
    fn setup(&self) -> (HWorld, HModel) {
        let mut sim = Sim::new();
        let pt = sim.store(power_table());
        let sc = sim.store(if self.kind == Kind::Single { single_code() } else { multiple_code() });
        let pp = sim.store(puppet());
        let target = sim.init(pp, "env", &json!({}), &[], "target").unwrap();
        let pre = if self.pre {
            PreProposeInfo::ModuleMayPropose { info: mii(pp, &json!({}), "pre") }
        } else {
            PreProposeInfo::AnyoneMayPropose {}
        };
        let dao = new_dao(&mut sim, power_module(pt, &[("alice", 3), ("bob", 1)]), vec![self.kind.init(sc, &self.cfg(), false, pre)], None);
        let subs: Vec<Addr> = (0..self.subs).map(|i| sim.init(pp, "env", &json!({}), &[], &format!("sub{}", i)).unwrap()).collect();
        let module = dao.proposals[0].clone();
        for (vote, list) in [(false, &self.initial.0), (true, &self.initial.1)] {
            for h in list {
                let k = if vote { "add_vote_hook" } else { "add_proposal_hook" };
                sim.exec(&dao.core, &module, &json!({k: {"address": subs[*h]}}), &[]).unwrap();
            }
        }
        let pre0 = if self.pre {
            let p: dao_voting::pre_propose::ProposalCreationPolicy = sim.query(&module, &json!({"proposal_creation_policy": {}})).unwrap();
            match p {
                dao_voting::pre_propose::ProposalCreationPolicy::Module { addr } => Some(addr),
                _ => panic!("pre-propose not installed"),
            }
        } else {
            None
        };
        sim.seal();
        let m = HModel {
            now: (sim.height(), sim.time()),
            psub: self.initial.0.clone(),
            vsub: self.initial.1.clone(),
            fail: vec![false; self.subs],
            prefail: if self.pre { vec![false] } else { vec![] },
            pre: if self.pre { Some(0) } else { None },
            props: vec![],
            hits: BTreeMap::new(),
        };
        (HWorld { sim, dao, target, subs, code: pp, pre0 }, m)
    }
    fn sim<'a>(&self, w: &'a mut HWorld) -> &'a mut Sim {
        &mut w.sim
    }
    fn ops(&self, m: &HModel) -> Vec<HOp> {
        let mut v = vec![HOp::Tick];
        let breakable: Vec<usize> = if self.subs > 9 { vec![1, 16, 32, self.subs - 1] } else { (0..self.subs).collect() };
        for h in breakable {
            v.push(HOp::Fail { h, on: !m.fail[h] });
            if self.manage {
                for vote in [false, true] {
                    for add in [true, false] {
                        v.push(HOp::Sub { vote, h, add, by_dao: true });
                    }
                }
            }
        }
        if self.manage {
            v.push(HOp::Sub { vote: false, h: 0, add: true, by_dao: false });
            v.push(HOp::Sub { vote: false, h: 0, add: false, by_dao: false });
            v.push(HOp::Sub { vote: true, h: 0, add: true, by_dao: false });
            v.push(HOp::Sub { vote: true, h: 0, add: false, by_dao: false });
        }
        for k in 0..m.prefail.len() {
            v.push(HOp::FailPre { k, on: !m.prefail[k] });
        }
        if m.props.len() < self.max_props {
            for body in &self.bodies {
                for auto in [false, true] {
                    v.push(HOp::Propose { body: *body, auto, direct: false });
                }
            }
            if self.pre {
                v.push(HOp::Propose { body: self.bodies[0], auto: false, direct: true });
            }
        }
        for pid in 1..=m.props.len() as u64 {
            for c in [0, 1] {
                v.push(HOp::Vote { alice: true, pid, choice: c });
            }
            v.push(HOp::Vote { alice: false, pid, choice: 0 });
            v.push(HOp::Execute { pid });
            v.push(HOp::Close { pid });
            if self.veto {
                v.push(HOp::Veto { pid });
            }
        }
        v
    }
    fn step(&self, w: &mut HWorld, m: &mut HModel, op: &HOp) -> VResult<String> {
        let module = self.module(w).clone();
        let core = w.dao.core.clone();
        match op {
            HOp::Tick => {
                w.sim.advance(1, 5);
                m.now = (m.now.0 + 1, m.now.1 + 5);
                return Ok("tick".into());
            }
            HOp::Fail { h, on } => {
                let s = w.subs[*h].clone();
                puppet_set(&mut w.sim, &s, json!({ "fail": on }));
                m.fail[*h] = *on;
                return Ok("subscriber breaks or recovers".into());
            }
            HOp::FailPre { k, on } => {
                let a = self.pre_addr(w, *k);
                puppet_set(&mut w.sim, &a, json!({ "fail": on }));
                m.prefail[*k] = *on;
                return Ok("pre-propose breaks or recovers".into());
            }
            HOp::Sub { vote, h, add, by_dao } => {
                let list = if *vote { &mut m.vsub } else { &mut m.psub };
                let want = *by_dao && (list.contains(h) != *add);
                let k = match (vote, add) {
                    (true, true) => "add_vote_hook",
                    (true, false) => "remove_vote_hook",
                    (false, true) => "add_proposal_hook",
                    (false, false) => "remove_proposal_hook",
                };
                let r = w.sim.exec(if *by_dao { core.as_str() } else { "eve" }, &module, &json!({k: {"address": w.subs[*h]}}), &[]);
                same!(r.is_ok(), want, P06, "subscription-change", "{:?} {:?}", op, r.err());
                if want {
                    if *add {
                        list.push(*h)
                    } else {
                        list.retain(|x| x != h)
                    }
                }
                return Ok(format!("subscribe {}", want));
            }
            _ => {}
        }
        // operations that notify
        self.clear_logs(w, m);
        let before = self.sts(w, m)?;
        let (p0, v0) = (m.psub.clone(), m.vsub.clone());
        let pre0 = m.pre;
        let mut notes: Notes = vec![];
        let mut drops_p = 0usize; // failing deliveries to proposal subscribers in this transaction
        let mut drops_v = 0usize;
        let mut pre_note: Option<(usize, String)> = None;
        let mut failed_exec = false;
        let mut accepted;
        let label;
        let p_note = |notes: &mut Notes, drops: &mut usize, s: String, m: &HModel| {
            for h in &p0 {
                if m.fail[*h] {
                    *drops += 1
                } else {
                    notes.push((*h, s.clone()))
                }
            }
        };
        let result;
        match op {
            HOp::Propose { body, auto, direct } => {
                let id = m.props.len() as u64 + 1;
                let msgs: Vec<CosmosMsg> = match body {
                    HBody::Hit => vec![hit(&w.target, id)],
                    HBody::Boom => vec![hit(&w.target, id), boom(&w.target)],
                    HBody::ToAnyone => vec![wasm_exec(&module, &json!({"update_pre_propose_info": {"info": {"anyone_may_propose": {}}}}))],
                    HBody::ToNew => vec![wasm_exec(
                        &module,
                        &serde_json::to_value(&json!({"update_pre_propose_info": {"info": PreProposeInfo::ModuleMayPropose { info: mii(w.code, &json!({}), "pre") }}})).unwrap(),
                    )],
                };
                let via_pre = m.pre.is_some() && !direct;
                let msg = self.kind.propose(msgs, vec![hit(&w.target, 100 + id)], via_pre.then(|| "alice".to_string()), auto.then_some(0));
                result = if via_pre {
                    let a = self.pre_addr(w, m.pre.unwrap());
                    w.sim.exec("env", &a, &json!({"puppet": {"emit": [wasm_exec(&module, &msg)]}}), &[])
                } else {
                    w.sim.exec("alice", &module, &msg, &[])
                };
                accepted = via_pre || m.pre.is_none();
                label = format!("propose {}", accepted);
                if accepted {
                    m.props.push(HProp { body: *body, start: m.now.0, alice: auto.then_some(0), bob: None, fin: None });
                    p_note(&mut notes, &mut drops_p, format!("new {} alice", id), m);
                    if *auto {
                        for h in &v0 {
                            if m.fail[*h] {
                                drops_v += 1
                            } else {
                                notes.push((*h, format!("vote {} alice", id)))
                            }
                        }
                    }
                }
            }
            HOp::Vote { alice, pid, choice } => {
                let p = &mut m.props[*pid as usize - 1];
                let slot = if *alice { &mut p.alice } else { &mut p.bob };
                accepted = slot.is_none() && m.now.0 < p.start + VOTING;
                result = w.sim.exec(if *alice { "alice" } else { "bob" }, &module, &self.kind.vote(*pid, *choice), &[]);
                label = format!("vote {}", accepted);
                if accepted {
                    *slot = Some(*choice);
                    for h in &v0 {
                        if m.fail[*h] {
                            drops_v += 1
                        } else {
                            notes.push((*h, format!("vote {} {}", pid, if *alice { "alice" } else { "bob" })))
                        }
                    }
                }
            }
            HOp::Execute { pid } => {
                let i = *pid as usize - 1;
                accepted = before[i] == St::Passed;
                let passing = m.props[i].body;
                let alt = self.kind == Kind::Multiple && m.props[i].alice == Some(1);
                let mut newpre = m.pre;
                let mut fails = false;
                if accepted {
                    match (alt, passing) {
                        (true, _) => *m.hits.entry(100 + pid).or_insert(0) += 1,
                        (_, HBody::Hit) => *m.hits.entry(*pid).or_insert(0) += 1,
                        (_, HBody::Boom) => fails = true,
                        (_, HBody::ToAnyone) => newpre = None,
                        (_, HBody::ToNew) => newpre = Some(m.prefail.len()),
                    }
                    if fails && !self.close_fail {
                        accepted = false;
                    }
                }
                result = w.sim.exec("eve", &module, &json!({"execute": {"proposal_id": pid}}), &[]);
                label = format!("execute {} {:?}", accepted, passing);
                if accepted {
                    failed_exec = fails;
                    m.props[i].fin = Some(if fails { 3 } else { 0 });
                    m.pre = newpre;
                    if newpre == Some(m.prefail.len()) {
                        m.prefail.push(false);
                    }
                }
            }
            HOp::Close { pid } => {
                let i = *pid as usize - 1;
                accepted = before[i] == St::Rejected;
                result = w.sim.exec("eve", &module, &json!({"close": {"proposal_id": pid}}), &[]);
                label = format!("close {}", accepted);
                if accepted {
                    m.props[i].fin = Some(1);
                }
            }
            HOp::Veto { pid } => {
                let i = *pid as usize - 1;
                accepted = matches!(before[i], St::Open | St::Timelock(_));
                result = w.sim.exec("vetoer", &module, &json!({"veto": {"proposal_id": pid}}), &[]);
                label = format!("veto {}", accepted);
                if accepted {
                    m.props[i].fin = Some(2);
                }
            }
            _ => unreachable!(),
        }
        let fin_pid = match op {
            HOp::Execute { pid } | HOp::Close { pid } | HOp::Veto { pid } => Some(*pid),
            _ => None,
        };
        if accepted {
            // status-change notifications: an outcome change recorded by this transaction
            if let Some(pid) = fin_pid {
                let old = status_word(before[pid as usize - 1]);
                let new = match op {
                    HOp::Execute { .. } => "executed",
                    HOp::Close { .. } => "closed",
                    _ => "vetoed",
                };
                p_note(&mut notes, &mut drops_p, format!("status {} {} {}", pid, old, new), m);
                if let Some(k) = pre0 {
                    pre_note = Some((k, format!("completed {} {}", pid, new)));
                }
            }
        }
        // A vote may decide the proposal; the resulting status change is only known from the code.
        let mut extra_status = None;
        if accepted && fin_pid.is_none() {
            if let (Ok(_), Some(pid)) = (
                &result,
                match op {
                    HOp::Vote { pid, .. } => Some(*pid),
                    HOp::Propose { auto: true, .. } => Some(m.props.len() as u64),
                    _ => None,
                },
            ) {
                let after = self.sts(w, m)?[pid as usize - 1];
                let was = before.get(pid as usize - 1).copied().unwrap_or(St::Open);
                if was == St::Open && after != St::Open {
                    extra_status = Some((pid, after));
                }
            } else if result.is_err() {
                // would the vote have decided it? alice alone decides
                let decides = matches!(op, HOp::Vote { alice: true, .. } | HOp::Propose { auto: true, .. });
                if decides {
                    extra_status = Some((0, St::Passed));
                }
            }
        }
        if let Some((pid, s)) = extra_status {
            p_note(&mut notes, &mut drops_p, format!("status {} open {}", pid, status_word(s)), m);
        }
        // Two failing deliveries to one list in one transaction are a known class of their own.
        let multi = drops_p >= 2 || drops_v >= 2;
        let key = |k: &str| if multi { format!("two-failing-deliveries:{}", k) } else { k.to_string() };
        match (&result, accepted) {
            (Err(e), true) => {
                return Err(Violation::new(P06, key("blocked"), format!("{:?} blocked although only subscribers fail: {}", op, e)));
            }
            (Ok(_), false) => return Err(Violation::new(P06, "accepted", format!("{:?} accepted", op))),
            (Err(_), false) => return Ok(label),
            _ => {}
        }
        // the failing ones are dropped, the others stay
        if drops_p > 0 {
            m.psub.retain(|h| !m.fail[*h]);
        }
        if drops_v > 0 {
            m.vsub.retain(|h| !m.fail[*h]);
        }
        let mut dropped_pre = false;
        if let Some((k, _)) = &pre_note {
            if m.prefail[*k] {
                pre_note = None;
                dropped_pre = true;
                // only the failing contract is dropped: a replacement installed by this very
                // proposal stays
                if m.pre == pre0 {
                    m.pre = None;
                }
            }
        }
        // a newly installed module: remember its address for later steps
        let pol: dao_voting::pre_propose::ProposalCreationPolicy = w
            .sim
            .query(&module, &json!({"proposal_creation_policy": {}}))
            .map_err(|e| Violation::new(P06, "query-failed", e))?;
        let pol = match pol {
            dao_voting::pre_propose::ProposalCreationPolicy::Anyone {} => None,
            dao_voting::pre_propose::ProposalCreationPolicy::Module { addr } => Some(addr),
        };
        if m.pre.is_some() && m.pre != pre0 && fin_pid.is_some() {
            match &pol {
                None => {
                    return Err(Violation::new(P06, "replacement-pre-propose-dropped", "the newly installed pre-propose contract was dropped instead of the failing old one"));
                }
                Some(a) => {
                    let k = m.pre.unwrap();
                    puppet_set(&mut w.sim, &w.target.clone(), json!({format!("pre{}", k): a}));
                }
            }
        }
        let want_pol = m.pre.map(|k| self.pre_addr(w, k));
        same!(pol, want_pol, P06, if dropped_pre { "pre-propose-not-dropped" } else { "pre-propose-changed" }, "after {:?}", op);
        // notifications
        for (h, s) in w.subs.iter().enumerate() {
            let log = puppet_get(&w.sim, s, "log");
            let mut got: Vec<String> = log.as_array().map(|a| a.iter().map(canon_note).collect()).unwrap_or_default();
            let mut want: Vec<String> = notes.iter().filter(|n| n.0 == h).map(|n| n.1.clone()).collect();
            if failed_exec {
                // which final word is announced for a failed execution is not specified
                let f = |v: Vec<String>| v.into_iter().map(|s| s.replace("execution_failed", "executed")).collect::<Vec<_>>();
                got = f(got);
                want = f(want);
            }
            got.sort();
            want.sort();
            same!(got, want, P06, key("notifications"), "subscriber {} after {:?}", h, op);
        }
        for k in 0..m.prefail.len() {
            let a = self.pre_addr(w, k);
            let log = puppet_get(&w.sim, &a, "log");
            let got: Vec<String> = log
                .as_array()
                .map(|a| a.iter().map(canon_note).map(|s| if failed_exec { s.replace("execution_failed", "executed") } else { s }).collect())
                .unwrap_or_default();
            let want: Vec<String> = pre_note.iter().filter(|n| n.0 == k).map(|n| n.1.clone()).collect();
            same!(got, want, P06, "pre-propose-notification", "pre-propose {} after {:?}", k, op);
        }
        // lists
        for (vote, list) in [(false, &m.psub), (true, &m.vsub)] {
            let q = if vote { "vote_hooks" } else { "proposal_hooks" };
            let r: cw_hooks::HooksResponse = w.sim.query(&module, &json!({q: {}})).map_err(|e| Violation::new(P06, "query-failed", e))?;
            let want: Vec<String> = list.iter().map(|h| w.subs[*h].to_string()).collect();
            same!(r.hooks, want, P06, key("subscribers-after-failure"), "{} after {:?}", q, op);
        }
        Ok(label)
    }
    fn invariant(&self, w: &mut HWorld, m: &HModel) -> VResult {
        let module = self.module(w).clone();
        for (vote, list) in [(false, &m.psub), (true, &m.vsub)] {
            let q = if vote { "vote_hooks" } else { "proposal_hooks" };
            let r: cw_hooks::HooksResponse = w.sim.query(&module, &json!({q: {}})).map_err(|e| Violation::new(P06, "query-failed", e))?;
            let want: Vec<String> = list.iter().map(|h| w.subs[*h].to_string()).collect();
            same!(r.hooks, want, P06, "subscribers", "{}", q);
        }
        for (i, p) in m.props.iter().enumerate() {
            let v = self.kind.get(&w.sim, &module, i as u64 + 1).map_err(|e| Violation::new(P06, "query-failed", e))?;
            let s = st(v.status);
            let fin = match s {
                St::Executed => Some(0),
                St::Closed => Some(1),
                St::Vetoed => Some(2),
                St::Failed => Some(3),
                _ => None,
            };
            same!(fin, p.fin, P06, "final-state", "proposal {} {:?} {:?}", i + 1, s, p);
            let mut t = vec![0u128; 3];
            if let Some(c) = p.alice {
                t[c as usize] += 3;
            }
            if let Some(c) = p.bob {
                t[c as usize] += 1;
            }
            same!(v.votes, t, P06, "ballots-not-recorded", "proposal {}", i + 1);
        }
        for id in [1u64, 2, 101, 102] {
            same!(hits(&w.sim, &w.target, id), m.hits.get(&id).copied().unwrap_or(0), P06, "effects", "proposal effect {}", id);
        }
        Ok(())
    }
}
fn hooks_plan(th: bool, mut assumptions: Vec<&'static str>) -> PropertyPlan {
    let mut entries = vec![];
    for kind in [Kind::Single, Kind::Multiple] {
        let base = || HooksH {
            kind,
            subs: 2,
            pre: false,
            bodies: vec![HBody::Hit],
            max_props: 1,
            veto: false,
            close_fail: true,
            manage: false,
            initial: (vec![0, 1], vec![0, 1]),
        };
        let mut add = |n: &str, h: HooksH, q: usize, d: usize| entries.push(Entry::new(format!("{:?}-{}", kind, n), h, if th { d } else { q }));
        let mut h = base();
        h.subs = 3;
        h.initial = (vec![0, 1, 2], vec![2, 0, 1]);
        h.bodies = vec![HBody::Hit, HBody::Boom];
        add("three-subscribers", h, 6, 8);
        let mut h = base();
        h.subs = 36;
        h.initial = ((0..36).collect(), (0..36).rev().collect());
        add("many-subscribers", h, 4, 6);
        let mut h = base();
        h.manage = true;
        h.initial = (vec![], vec![]);
        add("manage", h, 5, 7);
        let mut h = base();
        h.pre = true;
        h.subs = 1;
        h.initial = (vec![0], vec![0]);
        h.bodies = vec![HBody::Hit, HBody::Boom, HBody::ToAnyone, HBody::ToNew];
        h.max_props = 2;
        add("pre-propose", h, 5, 7);
        let mut h = base();
        h.pre = true;
        h.veto = true;
        h.subs = 1;
        h.initial = (vec![0], vec![]);
        h.max_props = 2;
        h.close_fail = false;
        h.bodies = vec![HBody::Hit, HBody::Boom];
        add("pre-propose-veto", h, 5, 7);
    }
    assumptions.push("subscribers either accept or fail; a subscriber that re-enters the module is out of scope");
    PropertyPlan {
        entries,
        rule: "breadth-first over all histories of subscribe/unsubscribe/break/recover and propose/vote/execute/close/veto up to the depth bound against plain subscriber lists",
        assumptions,
    }
}
