// ------------------------------------------------------------------- H3: what proposals and ballots record
const P09: &[&str] = &["P09"];
const RATIONALES: [Option<&str>; 3] = [None, Some("because"), Some("\"so\" \u{e9}")];
/// the largest proposal that is accepted, in bytes of its stored form
const LARGEST: usize = 30_000;
#[derive(Clone, Debug, Serialize, Deserialize)]
enum ROp {
    /// `named`: 0 nobody, 1 carol, 2 not an address
    Propose { who: Who, content: u8, auto: Option<(u8, u8)>, named: u8, via: bool },
    Vote { who: Who, pid: u64, choice: u8, rat: u8 },
    Rationale { who: Who, pid: u64, rat: u8 },
    Execute { pid: u64 },
    Close { pid: u64 },
    Tick,
}
#[derive(Clone, Hash, PartialEq, Debug)]
struct RProp {
    content: u8,
    proposer: &'static str,
    start: u64,
    ballots: BTreeMap<&'static str, (u8, Option<&'static str>)>,
    done: bool,
}
#[derive(Clone, Hash, PartialEq, Debug)]
struct RModel {
    now: (u64, u64),
    props: Vec<RProp>,
    /// what the DAO's messages did, in order
    log: Vec<u64>,
    paid: u128,
}
struct Records {
    kind: Kind,
    /// proposals come through a contract, or from anyone
    module: bool,
    contents: Vec<u8>,
    autos: Vec<Option<(u8, u8)>>,
    voters: Vec<Who>,
    choices: Vec<u8>,
    rats: Vec<u8>,
    max_props: usize,
    finish: bool,
}
struct RWorld {
    sim: Sim,
    dao: Dao,
    target: Addr,
    pre: Option<Addr>,
    /// description length that makes the largest accepted proposal
    room: usize,
}
struct Content {
    title: String,
    description: String,
    options: Vec<(String, String, Vec<CosmosMsg>, Vec<u64>, u128)>,
}
const POWERS: [(&str, u128); 4] = [("alice", 2), ("bob", 1), ("carol", 1), ("eve", 0)];
fn power_of(who: &str) -> u128 {
    POWERS.iter().find(|p| p.0 == who).map(|p| p.1).unwrap_or(0)
}
impl Records {
    fn cfg(&self) -> Cfg {
        Cfg { revoting: true, only_members: false, ..BASE }
    }
    fn note(&self, w: &RWorld, n: u64, funds: u128) -> CosmosMsg {
        cosmwasm_std::WasmMsg::Execute {
            contract_addr: w.target.to_string(),
            msg: cosmwasm_std::Binary(serde_json::to_vec(&json!({ "note": n })).unwrap()),
            funds: if funds > 0 { mc::sim::coins(funds, "ucoin") } else { vec![] },
        }
        .into()
    }
    fn content(&self, w: &RWorld, c: u8) -> Content {
        let plain = |n: u64| (format!("o{}", n), String::new(), vec![self.note(w, n, 0)], vec![n], 0u128);
        let two = vec![plain(1), plain(2)];
        let c_ = |title: &str, description: &str, options| Content { title: title.into(), description: description.into(), options };
        match c {
            // repeated messages, whose order matters; options that look alike
            0 => c_(
                "t",
                "d",
                vec![
                    ("same".into(), "same".into(), vec![self.note(w, 1, 0), self.note(w, 2, 0), self.note(w, 1, 0), self.note(w, 1, 0)], vec![1, 2, 1, 1], 0),
                    ("same".into(), "same".into(), vec![self.note(w, 2, 0), self.note(w, 1, 0)], vec![2, 1], 0),
                ],
            ),
            // text of every kind; coins
            1 => c_(
                "d",
                "\u{dc}\u{1f5f3} \"quoted\" \\ \n\ttext",
                vec![
                    (
                        "pay".into(),
                        "\u{e9}".into(),
                        vec![
                            self.note(w, 3, 1),
                            cosmwasm_std::BankMsg::Send { to_address: "eve".into(), amount: mc::sim::coins(2, "ucoin") }.into(),
                            self.note(w, 4, 0),
                        ],
                        vec![3, 4],
                        3,
                    ),
                    (String::new(), String::new(), vec![], vec![], 0),
                    plain(5),
                ],
            ),
            // nothing at all; as many options as there may be
            2 => c_("", "", (0..20).map(|n| if n == 0 { (String::new(), String::new(), vec![], vec![], 0) } else { plain(10 + n) }).collect()),
            // exactly as large as allowed, and one more
            3 => c_("t", &"x".repeat(w.room), two),
            4 => c_("t", &"x".repeat(w.room + 1), two),
            // too many and too few options
            5 => c_("t", "d", (0..21).map(plain).collect()),
            6 => c_("t", "d", vec![plain(1)]),
            7 => c_("t", "d", vec![]),
            _ => c_("t", "x", two),
        }
    }
    fn acceptable(&self, c: u8) -> bool {
        c != 4 && (self.kind == Kind::Single || c < 5 || c == 8)
    }
    fn options(&self, c: u8) -> usize {
        match (self.kind, c) {
            (Kind::Single, _) => 2,
            (_, 1) => 3,
            (_, 2) => 20,
            (_, 5) => 21,
            (_, 6) => 1,
            (_, 7) => 0,
            _ => 2,
        }
    }
    fn propose(&self, c: Content, proposer: Option<String>, auto: Option<(u8, u8)>) -> Value {
        let rat = |r: u8| RATIONALES[r as usize].map(|s| s.to_string());
        match self.kind {
            Kind::Single => serde_json::to_value(dao_proposal_single::msg::ExecuteMsg::Propose(SingleChoiceProposeMsg {
                title: c.title,
                description: c.description,
                msgs: c.options.into_iter().next().map(|o| o.2).unwrap_or_default(),
                proposer,
                vote: auto.map(|(c, r)| SingleChoiceAutoVote { vote: single_vote(c), rationale: rat(r) }),
            })),
            Kind::Multiple => serde_json::to_value(dao_proposal_multiple::msg::ExecuteMsg::Propose(MultipleChoiceProposeMsg {
                title: c.title,
                description: c.description,
                choices: MultipleChoiceOptions {
                    options: c.options.into_iter().map(|o| MultipleChoiceOption { title: o.0, description: o.1, msgs: o.2 }).collect(),
                },
                proposer,
                vote: auto.map(|(c, r)| MultipleChoiceAutoVote { vote: MultipleChoiceVote { option_id: c as u32 }, rationale: rat(r) }),
            })),
        }
        .unwrap()
    }
    fn tally(&self, p: &RProp) -> Vec<u128> {
        let mut v = vec![0u128; self.options(p.content) + 1];
        for (w, (c, _)) in &p.ballots {
            v[*c as usize] += power_of(w);
        }
        v
    }
    fn raw(&self, w: &RWorld, pid: u64) -> VResult<Value> {
        w.sim.query(&w.dao.proposals[0], &json!({"proposal": {"proposal_id": pid}})).map_err(|e| Violation::new(P09, "query-failed", e))
    }
    /// what a proposal must be recorded as, and how it is
    fn pair(&self, w: &RWorld, p: &RProp, v: &Value) -> (Value, Value) {
        let c = self.content(w, p.content);
        let t: Vec<String> = self.tally(p).iter().map(|x| x.to_string()).collect();
        let exp = after(VOTING, false, (p.start, 0));
        let mut want = json!({
            "title": c.title, "description": c.description, "proposer": p.proposer, "start_height": p.start,
            "expiration": exp, "total_power": "4", "allow_revoting": true, "min_voting_period": null, "veto": null,
        });
        let got = &v["proposal"];
        let mut have = json!({});
        for k in want.as_object().unwrap().keys() {
            have[k] = got[k].clone();
        }
        match self.kind {
            Kind::Single => {
                want["msgs"] = json!(c.options.first().map(|o| o.2.clone()).unwrap_or_default());
                have["msgs"] = got["msgs"].clone();
                want["threshold"] = json!(self.kind.threshold(&self.cfg()));
                have["threshold"] = got["threshold"].clone();
                want["votes"] = json!([t[0], t[1], t[2]]);
                have["votes"] = json!([got["votes"]["yes"], got["votes"]["no"], got["votes"]["abstain"]]);
            }
            Kind::Multiple => {
                let mut o: Vec<Value> = c
                    .options
                    .iter()
                    .enumerate()
                    .map(|(i, o)| json!({"index": i, "option_type": "standard", "title": o.0, "description": o.1, "msgs": o.2}))
                    .collect();
                o.push(json!({"index": o.len(), "option_type": "none", "msgs": []}));
                let n = o.len();
                want["choices"] = json!(o);
                have["choices"] = json!(got["choices"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .enumerate()
                    .map(|(i, x)| {
                        let mut r = json!({"index": x["index"], "option_type": x["option_type"], "msgs": x["msgs"]});
                        if i + 1 != n {
                            r["title"] = x["title"].clone();
                            r["description"] = x["description"].clone();
                        }
                        r
                    })
                    .collect::<Vec<_>>());
                want["strategy"] = json!(self.kind.strategy(&self.cfg()));
                have["strategy"] = got["voting_strategy"].clone();
                want["votes"] = json!(t);
                have["votes"] = got["votes"]["vote_weights"].clone();
            }
        }
        (want, have)
    }
}
impl Harness for Records {
    type World = RWorld;
    type Model = RModel;
    type Op = ROp;
    fn setup(&self) -> (RWorld, RModel) {
        let mut sim = Sim::new();
        let pt = sim.store(power_table());
        let sc = sim.store(if self.kind == Kind::Single { single_code() } else { multiple_code() });
        let pp = sim.store(puppet());
        let target = sim.init(pp, "env", &json!({}), &[], "target").unwrap();
        let info = if self.module {
            PreProposeInfo::ModuleMayPropose { info: mii(pp, &json!({}), "pre") }
        } else {
            PreProposeInfo::AnyoneMayPropose {}
        };
        let dao = new_dao(&mut sim, power_module(pt, &POWERS), vec![self.kind.init(sc, &self.cfg(), false, info)], None);
        let core = dao.core.to_string();
        sim.mint(&core, 20, "ucoin");
        let pre = if self.module {
            let p: dao_voting::pre_propose::ProposalCreationPolicy = sim.query(&dao.proposals[0], &json!({"proposal_creation_policy": {}})).unwrap();
            match p {
                dao_voting::pre_propose::ProposalCreationPolicy::Module { addr } => Some(addr),
                _ => panic!("pre-propose not installed"),
            }
        } else {
            None
        };
        let mut w = RWorld { sim, dao, target, pre, room: 1 };
        if self.contents.contains(&3) {
            // measure what is stored besides the description
            let s = w.sim.snapshot();
            let msg = self.propose(self.content(&w, 3), None, None);
            let to = w.dao.proposals[0].clone();
            w.sim.exec("alice", &to, &msg, &[]).unwrap();
            let q = json!({"proposal": {"proposal_id": 1}});
            let n = match self.kind {
                Kind::Single => {
                    let r: dao_proposal_single::query::ProposalResponse = w.sim.query(&to, &q).unwrap();
                    serde_json::to_vec(&r.proposal).unwrap().len()
                }
                Kind::Multiple => {
                    let r: dao_proposal_multiple::query::ProposalResponse = w.sim.query(&to, &q).unwrap();
                    serde_json::to_vec(&r.proposal).unwrap().len()
                }
            };
            w.sim.restore(&s);
            w.room = LARGEST - (n - 1);
        }
        w.sim.seal();
        let m = RModel { now: (w.sim.height(), w.sim.time()), props: vec![], log: vec![], paid: 0 };
        (w, m)
    }
    fn sim<'a>(&self, w: &'a mut RWorld) -> &'a mut Sim {
        &mut w.sim
    }
    fn ops(&self, m: &RModel) -> Vec<ROp> {
        let mut v = vec![ROp::Tick];
        if m.props.len() < self.max_props {
            for content in &self.contents {
                for auto in &self.autos {
                    if self.module {
                        for named in 0..3 {
                            v.push(ROp::Propose { who: Who::Alice, content: *content, auto: *auto, named, via: true });
                        }
                    } else {
                        v.push(ROp::Propose { who: Who::Alice, content: *content, auto: *auto, named: 0, via: false });
                    }
                }
                if self.module {
                    for named in 0..2 {
                        v.push(ROp::Propose { who: Who::Alice, content: *content, auto: None, named, via: false });
                    }
                }
            }
            if !self.module {
                let content = self.contents[0];
                if !self.voters.is_empty() {
                    v.push(ROp::Propose { who: Who::Eve, content, auto: None, named: 0, via: false });
                    v.push(ROp::Propose { who: Who::Eve, content, auto: Some((0, 1)), named: 0, via: false });
                }
                for named in [1, 2] {
                    v.push(ROp::Propose { who: Who::Alice, content, auto: None, named, via: false });
                }
            }
        }
        for pid in 1..=(m.props.len() as u64 + 1).min(self.max_props as u64) {
            for who in &self.voters {
                for rat in &self.rats {
                    for choice in &self.choices {
                        v.push(ROp::Vote { who: *who, pid, choice: *choice, rat: *rat });
                    }
                    v.push(ROp::Rationale { who: *who, pid, rat: *rat });
                }
            }
            if let (Kind::Multiple, Some(p)) = (self.kind, m.props.get(pid as usize - 1)) {
                let n = self.options(p.content) as u8;
                for choice in [n - 1, n, n + 1] {
                    v.push(ROp::Vote { who: Who::Alice, pid, choice, rat: 1 });
                }
            }
            if self.finish {
                v.push(ROp::Execute { pid });
                v.push(ROp::Close { pid });
            }
        }
        v
    }
    fn step(&self, w: &mut RWorld, m: &mut RModel, op: &ROp) -> VResult<String> {
        let module = w.dao.proposals[0].clone();
        let status = |w: &RWorld, pid: u64| -> VResult<Option<St>> {
            if pid as usize > m.props.len() {
                return Ok(None);
            }
            self.kind.get(&w.sim, &module, pid).map(|v| Some(st(v.status))).map_err(|e| Violation::new(P09, "query-failed", e))
        };
        match op {
            ROp::Tick => {
                w.sim.advance(1, 5);
                m.now = (m.now.0 + 1, m.now.1 + 5);
                Ok("tick".into())
            }
            ROp::Propose { who, content, auto, named, via } => {
                let name = match named {
                    0 => None,
                    1 => Some("carol"),
                    _ => Some("NOBODY"),
                };
                let msg = self.propose(self.content(w, *content), name.map(|s| s.to_string()), *auto);
                let r = if *via {
                    let pre = w.pre.clone().unwrap();
                    w.sim.exec("env", &pre, &json!({"puppet": {"emit": [wasm_exec(&module, &msg)]}}), &[])
                } else {
                    w.sim.exec(who.s(), &module, &msg, &[])
                };
                let proposer = if self.module {
                    (*via && *named == 1).then_some("carol")
                } else {
                    (*named == 0).then_some(who.s())
                };
                let ok = match (proposer, auto) {
                    (Some(p), Some((c, _))) => power_of(p) > 0 && (*c as usize) <= self.options(*content),
                    (Some(_), None) => true,
                    _ => false,
                } && self.acceptable(*content);
                same!(r.is_ok(), ok, P09, "proposing", "{:?} {:?}", op, r.err());
                if ok {
                    let mut ballots = BTreeMap::new();
                    if let Some((c, r)) = auto {
                        ballots.insert(proposer.unwrap(), (*c, RATIONALES[*r as usize]));
                    }
                    m.props.push(RProp { content: *content, proposer: proposer.unwrap(), start: m.now.0, ballots, done: false });
                }
                Ok(format!("propose {} {}", content, ok))
            }
            ROp::Vote { who, pid, choice, rat } => {
                let msg = match self.kind {
                    Kind::Single => json!({"vote": {"proposal_id": pid, "vote": single_vote(*choice), "rationale": RATIONALES[*rat as usize]}}),
                    Kind::Multiple => json!({"vote": {"proposal_id": pid, "vote": {"option_id": choice}, "rationale": RATIONALES[*rat as usize]}}),
                };
                let r = w.sim.exec(who.s(), &module, &msg, &[]);
                let ok = match m.props.get(*pid as usize - 1) {
                    None => false,
                    Some(p) => {
                        m.now.0 < p.start + VOTING
                            && power_of(who.s()) > 0
                            && *choice as usize <= self.options(p.content)
                            && p.ballots.get(who.s()).map(|b| b.0 != *choice).unwrap_or(true)
                    }
                };
                same!(r.is_ok(), ok, P09, "voting", "{:?} {:?}", op, r.err());
                if ok {
                    m.props[*pid as usize - 1].ballots.insert(who.s(), (*choice, RATIONALES[*rat as usize]));
                }
                Ok(format!("vote {}", ok))
            }
            ROp::Rationale { who, pid, rat } => {
                let r = w.sim.exec(who.s(), &module, &json!({"update_rationale": {"proposal_id": pid, "rationale": RATIONALES[*rat as usize]}}), &[]);
                let b = m.props.get_mut(*pid as usize - 1).and_then(|p| p.ballots.get_mut(who.s()));
                same!(r.is_ok(), b.is_some(), P09, "rationale", "{:?} {:?}", op, r.err());
                let ok = b.is_some();
                if let Some(b) = b {
                    b.1 = RATIONALES[*rat as usize];
                }
                Ok(format!("rationale {}", ok))
            }
            ROp::Execute { pid } => {
                let ok = status(w, *pid)? == Some(St::Passed);
                let r = w.sim.exec("eve", &module, &json!({"execute": {"proposal_id": pid}}), &[]);
                same!(r.is_ok(), ok, P09, "executing", "{:?} {:?}", op, r.err());
                if ok {
                    let p = &mut m.props[*pid as usize - 1];
                    p.done = true;
                    let p = p.clone();
                    let win = self.kind.verdict(&self.cfg(), &self.tally(&p), 4).flatten().unwrap_or(0);
                    if let Some(o) = self.content(w, p.content).options.into_iter().nth(win) {
                        m.log.extend(o.3);
                        m.paid += o.4;
                    }
                }
                Ok(format!("execute {}", ok))
            }
            ROp::Close { pid } => {
                let ok = status(w, *pid)? == Some(St::Rejected);
                let r = w.sim.exec("eve", &module, &json!({"close": {"proposal_id": pid}}), &[]);
                same!(r.is_ok(), ok, P09, "closing", "{:?} {:?}", op, r.err());
                if ok {
                    m.props[*pid as usize - 1].done = true;
                }
                Ok(format!("close {}", ok))
            }
        }
    }
    fn invariant(&self, w: &mut RWorld, m: &RModel) -> VResult {
        for (i, p) in m.props.iter().enumerate() {
            let v = self.raw(w, i as u64 + 1)?;
            same!(v["id"], json!(i + 1), P09, "id", "proposal {}", i + 1);
            let (want, have) = self.pair(w, p, &v);
            same!(have, want, P09, "record", "proposal {}", i + 1);
        }
        let log = puppet_get(&w.sim, &w.target, "log");
        let got: Vec<u64> = log.as_array().map(|a| a.iter().map(|e| e["msg"]["note"].as_u64().unwrap_or(0)).collect()).unwrap_or_default();
        same!(got, m.log, P09, "messages-run", "in order");
        same!(w.sim.bal(&w.dao.core, "ucoin"), 20 - m.paid, P09, "messages-run", "the DAO's coins");
        Ok(())
    }
    fn on_new_state(&self, w: &mut RWorld, m: &RModel) -> VResult {
        let module = w.dao.proposals[0].clone();
        let ask = |w: &RWorld, q: Value| -> VResult<Value> { w.sim.query(&module, &q).map_err(|e| Violation::new(P09, "query-failed", format!("{} {}", q, e))) };
        let n = m.props.len();
        same!(ask(w, json!({"proposal_count": {}}))?, json!(n), P09, "count", "proposals");
        same!(ask(w, json!({"next_proposal_id": {}}))?, json!(n + 1), P09, "count", "next id");
        let all: Vec<Value> = (1..=n as u64).map(|i| self.raw(w, i)).collect::<VResult<_>>()?;
        let limits: Vec<Option<usize>> = std::iter::once(None).chain((0..=n + 1).map(Some)).collect();
        for cursor in std::iter::once(None).chain((0..=n as u64 + 1).map(Some)) {
            for limit in &limits {
                let take = limit.unwrap_or(30);
                let want: Vec<Value> = all.iter().filter(|v| cursor.map(|c| v["id"].as_u64().unwrap() > c).unwrap_or(true)).take(take).cloned().collect();
                let got = ask(w, json!({"list_proposals": {"start_after": cursor, "limit": limit}}))?;
                same!(got["proposals"], json!(want), P09, "listing", "after {:?} limit {:?}", cursor, limit);
                let want: Vec<Value> = all.iter().rev().filter(|v| cursor.map(|c| v["id"].as_u64().unwrap() < c).unwrap_or(true)).take(take).cloned().collect();
                let got = ask(w, json!({"reverse_proposals": {"start_before": cursor, "limit": limit}}))?;
                same!(got["proposals"], json!(want), P09, "listing", "before {:?} limit {:?}", cursor, limit);
            }
        }
        for pid in 1..=n as u64 + 1 {
            let none = BTreeMap::new();
            let ballots = m.props.get(pid as usize - 1).map(|p| &p.ballots).unwrap_or(&none);
            let row = |who: &str| {
                ballots.get(who).map(|(c, r)| {
                    let vote = match self.kind {
                        Kind::Single => json!(single_vote(*c)),
                        Kind::Multiple => json!({ "option_id": c }),
                    };
                    json!({"voter": who, "vote": vote, "power": power_of(who).to_string(), "rationale": r})
                })
            };
            for (who, _) in POWERS {
                let got = ask(w, json!({"get_vote": {"proposal_id": pid, "voter": who}}))?;
                same!(got["vote"], row(who).unwrap_or(Value::Null), P09, "ballot", "{} on {}", who, pid);
            }
            for cursor in [None, Some("aaa"), Some("alice"), Some("bob"), Some("carol"), Some("zed")] {
                for limit in [None, Some(0usize), Some(1), Some(2), Some(5)] {
                    let want: Vec<Value> = ballots.keys().filter(|a| cursor.map(|c| **a > c).unwrap_or(true)).take(limit.unwrap_or(30)).map(|a| row(a).unwrap()).collect();
                    let got = ask(w, json!({"list_votes": {"proposal_id": pid, "start_after": cursor, "limit": limit}}))?;
                    same!(got["votes"], json!(want), P09, "ballot-listing", "{} after {:?} limit {:?}", pid, cursor, limit);
                }
            }
        }
        ensure!(w.sim.query::<_, Value>(&module, &json!({"proposal": {"proposal_id": n + 1}})).is_err(), P09, "id", "a proposal {} that nobody made", n + 1);
        Ok(())
    }
}
fn records_plan(th: bool, assumptions: Vec<&'static str>) -> PropertyPlan {
    let mut entries = vec![];
    for kind in [Kind::Single, Kind::Multiple] {
        let multi = kind == Kind::Multiple;
        let base = || Records {
            kind,
            module: false,
            contents: vec![0],
            autos: vec![None],
            voters: vec![],
            choices: vec![],
            rats: vec![],
            max_props: 1,
            finish: false,
        };
        let mut add = |n: &str, h: Records, q: usize, d: usize| entries.push(Entry::new(format!("{:?}-{}", kind, n), h, if th { d } else { q }));
        // contents, and what executing them does
        let mut h = base();
        h.contents = if multi { vec![0, 1, 2, 3, 4, 5, 6, 7] } else { vec![0, 1, 2, 3, 4] };
        h.autos = vec![Some((0, 1)), Some((1, 0))];
        h.max_props = 2;
        h.finish = true;
        add("contents", h, if multi { 5 } else { 6 }, 7);
        let mut h = base();
        h.contents = vec![1, 8];
        h.autos = vec![Some((0, 1))];
        h.max_props = 4;
        h.finish = true;
        add("many", h, if multi { 5 } else { 6 }, 7);
        // submissions by way of a contract
        let mut h = base();
        h.module = true;
        h.contents = vec![0];
        h.autos = vec![None, Some((0, 1))];
        h.max_props = 2;
        h.voters = vec![Who::Carol];
        h.choices = vec![0, 1];
        h.rats = vec![2];
        add("through-a-contract", h, 5, 6);
        // ballots and rationales
        let mut h = base();
        h.contents = vec![0];
        h.autos = vec![None, Some((0, 1)), Some((2, 2))];
        h.voters = vec![Who::Alice, Who::Bob, Who::Eve];
        h.choices = vec![0, 1];
        h.rats = vec![0, 1];
        add("ballots", h, 6, 8);
        let mut h = base();
        h.contents = vec![0];
        h.voters = vec![Who::Alice, Who::Carol];
        h.choices = vec![0, 2];
        h.rats = vec![1, 2];
        h.max_props = 2;
        h.finish = true;
        add("ballots-of-two", h, 5, 6);
    }
    PropertyPlan {
        entries,
        rule: "breadth-first over all histories of proposals of every content, ballots, rationales, execution and time up to the depth bound against a table of what was submitted; every query and listing under every cursor and limit in every distinct state",
        assumptions,
    }
}
