//! F03 (token swap), F04 (token-factory issuer), F05 (role NFTs), F06 (factories).
use mc::chain::Factory;
use mc::engine::{Harness, VResult, Violation};
use mc::main_util::{run_main, Entry, PropertyPlan};
use mc::mocks::*;
use mc::own::{Own, OwnAct};
use mc::sim::{coin, coins, Sim, T0};
use mc::until::Now;
use mc::{ensure, same};
use cosmwasm_std::{Addr, Binary, Coin};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

const F3: &[&str] = &["F03"];
const F4: &[&str] = &["F04"];
const F5: &[&str] = &["F05"];
const F6: &[&str] = &["F06"];

fn now(s: &Sim) -> Now {
    (s.height(), s.time())
}
fn lab(name: &str, ok: bool) -> String {
    format!("{}:{}", name, if ok { "ok" } else { "refused" })
}
/// The code accepted exactly if the reference does.
fn agree(props: &'static [&'static str], key: &str, op: &dyn std::fmt::Debug, r: &mc::sim::ExecResult, want: bool) -> VResult {
    if r.is_ok() != want {
        return Err(Violation::new(
            props,
            key,
            format!("{:?}: the code {}, the rules {} it", op, match r { Ok(_) => "accepted".to_string(), Err(e) => format!("refused ({})", e) }, if want { "allow" } else { "forbid" }),
        ));
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------
// F03 token swap
// ------------------------------------------------------------------------------------------------
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize, PartialOrd, Ord)]
enum Tok {
    /// native u0 / u1
    N(u8),
    /// cw20 0 / 1
    C(u8),
}
const TOKS: [Tok; 4] = [Tok::N(0), Tok::N(1), Tok::C(0), Tok::C(1)];
#[derive(Clone, Debug)]
struct Swap {
    promise: [(Tok, u128); 2],
    churn: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum SOp {
    /// native funding: coins attached
    Fund(u8, Vec<(u8, u128)>),
    /// cw20 send of this token
    Send(u8, u8, u128),
    /// a forged receive call by an account pretending that `claims` sent `amount`
    Forge(u8, u8, u128),
    Withdraw(u8),
    /// plain transfer into the escrow by an outsider
    Gift(Tok),
}
#[derive(Clone, Hash)]
struct SM {
    provided: [bool; 2],
    done: bool,
    bal: BTreeMap<(u8, Tok), u128>,
    gifts: u8,
}
struct SW {
    sim: Sim,
    swap: Addr,
    tok: [Addr; 2],
}
const PARTY: [&str; 3] = ["party0", "party1", "outsider"];
const ESC: u8 = 9;
impl Swap {
    fn bal(w: &SW, who: &str, t: Tok) -> u128 {
        match t {
            Tok::N(i) => w.sim.bal(who, &format!("ux{}", i)),
            Tok::C(i) => w.sim.cw20(&w.tok[i as usize], who),
        }
    }
    fn info(tok: &[Addr; 2], (t, a): (Tok, u128)) -> Value {
        match t {
            Tok::N(i) => json!({"native": {"denom": format!("ux{}", i), "amount": a.to_string()}}),
            Tok::C(i) => json!({"cw20": {"contract_addr": tok[i as usize], "amount": a.to_string()}}),
        }
    }
    fn pay(&self, m: &mut SM, from: u8, to: u8, t: Tok, a: u128) -> bool {
        let f = m.bal.entry((from, t)).or_default();
        if *f < a {
            return false;
        }
        *f -= a;
        *m.bal.entry((to, t)).or_default() += a;
        true
    }
    fn provide(&self, m: &mut SM, by: u8, t: Tok, a: u128) -> bool {
        if by > 1 || m.done || m.provided[by as usize] || self.promise[by as usize] != (t, a) || !self.pay(m, by, ESC, t, a) {
            return false;
        }
        m.provided[by as usize] = true;
        if m.provided == [true, true] {
            m.done = true;
            for s in 0..2u8 {
                let (t, a) = self.promise[s as usize];
                self.pay(m, ESC, 1 - s, t, a);
            }
        }
        true
    }
}
impl Harness for Swap {
    type World = SW;
    type Model = SM;
    type Op = SOp;
    fn setup(&self) -> (SW, SM) {
        let mut sim = Sim::new();
        let code = sim.store(swap_code());
        let c20 = sim.store(cw20_code());
        let mut bal = BTreeMap::new();
        for p in PARTY {
            for d in ["ux0", "ux1"] {
                sim.mint(p, 100, d);
            }
        }
        let tok: Vec<Addr> = (0..2)
            .map(|i| {
                let ib: Vec<Value> = PARTY.iter().map(|p| json!({"address": p, "amount": "100"})).collect();
                sim.init(c20, "creator", &json!({"name": format!("token{}", i), "symbol": "TOK", "decimals": 6, "initial_balances": ib, "mint": null, "marketing": null}), &[], "t")
                    .unwrap()
            })
            .collect();
        let tok = [tok[0].clone(), tok[1].clone()];
        for p in 0..3u8 {
            for t in TOKS {
                bal.insert((p, t), 100);
            }
        }
        let side = |i: usize| json!({"address": PARTY[i], "promise": Self::info(&tok, self.promise[i])});
        let swap = sim.init(code, "creator", &json!({"counterparty_one": side(0), "counterparty_two": side(1)}), &[], "swap").unwrap();
        sim.seal();
        (SW { sim, swap, tok }, SM { provided: [false; 2], done: false, bal, gifts: 0 })
    }
    fn sim<'a>(&self, w: &'a mut SW) -> &'a mut Sim {
        &mut w.sim
    }
    fn ops(&self, m: &SM) -> Vec<SOp> {
        let mut v = vec![];
        for p in 0..3u8 {
            let mut want: BTreeSet<(Tok, u128)> = BTreeSet::new();
            for s in 0..2 {
                let (t, a) = self.promise[s];
                want.insert((t, a));
                want.insert((t, a + 1));
                want.insert((t, a - 1));
                // the same number of something else
                for o in TOKS {
                    want.insert((o, a));
                }
            }
            for (t, a) in want {
                match t {
                    Tok::N(i) => {
                        v.push(SOp::Fund(p, vec![(i, a)]));
                        v.push(SOp::Fund(p, vec![(i, a), (1 - i, 1)]));
                    }
                    Tok::C(i) => {
                        v.push(SOp::Send(p, i, a));
                        v.push(SOp::Forge(2, p, a));
                        v.push(SOp::Forge(p, p, a));
                    }
                }
            }
            v.push(SOp::Fund(p, vec![]));
            v.push(SOp::Withdraw(p));
        }
        if m.gifts < 2 {
            for s in 0..2 {
                v.push(SOp::Gift(self.promise[s].0));
            }
        }
        v
    }
    fn step(&self, w: &mut SW, m: &mut SM, op: &SOp) -> VResult<String> {
        let mut n = m.clone();
        let (r, want, name) = match op {
            SOp::Fund(p, cs) => {
                let mut f: Vec<Coin> = cs.iter().filter(|c| c.1 > 0).map(|(d, a)| coin(*a, &format!("ux{}", d))).collect();
                f.sort_by(|a, b| a.denom.cmp(&b.denom));
                let want = cs.len() == 1 && cs[0].1 > 0 && self.provide(&mut n, *p, Tok::N(cs[0].0), cs[0].1);
                (w.sim.exec(PARTY[*p as usize], &w.swap, &json!({"fund": {}}), &f), want, "fund")
            }
            SOp::Send(p, t, a) => {
                let want = *a > 0 && self.provide(&mut n, *p, Tok::C(*t), *a);
                let msg = json!({"send": {"contract": w.swap, "amount": a.to_string(), "msg": Binary(b"{}".to_vec())}});
                (w.sim.exec(PARTY[*p as usize], &w.tok[*t as usize], &msg, &[]), want, "send")
            }
            SOp::Forge(by, claims, a) => {
                let msg = json!({"receive": {"sender": PARTY[*claims as usize], "amount": a.to_string(), "msg": Binary(b"{}".to_vec())}});
                (w.sim.exec(PARTY[*by as usize], &w.swap, &msg, &[]), false, "forge")
            }
            SOp::Withdraw(p) => {
                let want = *p < 2 && !m.done && m.provided[*p as usize];
                if want {
                    n.provided[*p as usize] = false;
                    let (t, a) = self.promise[*p as usize];
                    self.pay(&mut n, ESC, *p, t, a);
                }
                (w.sim.exec(PARTY[*p as usize], &w.swap, &json!({"withdraw": {}}), &[]), want, "withdraw")
            }
            SOp::Gift(t) => {
                n.gifts += 1;
                let want = self.pay(&mut n, 2, ESC, *t, 3);
                let r = match t {
                    Tok::N(i) => w.sim.exec_msgs(PARTY[2], vec![cosmwasm_std::BankMsg::Send { to_address: w.swap.to_string(), amount: coins(3, &format!("ux{}", i)) }.into()]),
                    Tok::C(i) => w.sim.exec(PARTY[2], &w.tok[*i as usize], &json!({"transfer": {"recipient": w.swap, "amount": "3"}}), &[]),
                };
                (r, want, "gift")
            }
        };
        agree(F3, &format!("{}-verdict", name), op, &r, want)?;
        if want {
            *m = n;
        }
        Ok(lab(name, want))
    }
    fn invariant(&self, w: &mut SW, m: &SM) -> VResult {
        for t in TOKS {
            for p in 0..3u8 {
                same!(Self::bal(w, PARTY[p as usize], t), m.bal.get(&(p, t)).copied().unwrap_or(0), F3, "balance", "{} balance of {:?}", PARTY[p as usize], t);
            }
            same!(Self::bal(w, w.swap.as_str(), t), m.bal.get(&(ESC, t)).copied().unwrap_or(0), F3, "escrow", "escrow balance of {:?}", t);
        }
        let st: Value = w.sim.query(&w.swap, &json!({"status": {}})).map_err(|e| Violation::new(F3, "status", e))?;
        for (i, k) in ["counterparty_one", "counterparty_two"].iter().enumerate() {
            same!(st[*k]["provided"], json!(m.done || m.provided[i]), F3, "status", "{} provided", k);
            same!(st[*k]["address"], json!(PARTY[i]), F3, "status", "{} address", k);
            same!(st[*k]["promise"], Self::info(&w.tok, self.promise[i]), F3, "status", "{} promise", k);
        }
        Ok(())
    }
    /// Whatever happened, the two parties alone can still finish (or have finished) the exchange.
    fn on_new_state(&self, w: &mut SW, m: &SM) -> VResult {
        if m.done || self.churn {
            return Ok(());
        }
        let snap = w.sim.snapshot();
        let mut n = m.clone();
        for p in 0..2u8 {
            if n.provided[p as usize] {
                continue;
            }
            let op = match self.promise[p as usize] {
                (Tok::N(i), a) => SOp::Fund(p, vec![(i, a)]),
                (Tok::C(i), a) => SOp::Send(p, i, a),
            };
            self.step(w, &mut n, &op)?;
        }
        ensure!(n.done, F3, "stuck", "the exchange cannot be completed");
        self.invariant(w, &n)?;
        w.sim.restore(&snap);
        Ok(())
    }
}
/// Creation: every pair of sides over valid and invalid promises.
struct SwapCreate;
#[derive(Clone, Debug, Serialize, Deserialize)]
struct SC(u8, u8, u8, u8);
struct SCW {
    sim: Sim,
    code: u64,
    tok: Addr,
    other: Addr,
}
impl Harness for SwapCreate {
    type World = SCW;
    type Model = u8;
    type Op = SC;
    fn setup(&self) -> (SCW, u8) {
        let mut sim = Sim::new();
        let code = sim.store(swap_code());
        let c20 = sim.store(cw20_code());
        let pup = sim.store(puppet());
        let tok = sim.init(c20, "creator", &json!({"name": "token", "symbol": "TOK", "decimals": 6, "initial_balances": [], "mint": null, "marketing": null}), &[], "t").unwrap();
        let other = sim.init(pup, "creator", &json!({}), &[], "p").unwrap();
        sim.seal();
        (SCW { sim, code, tok, other }, 0)
    }
    fn sim<'a>(&self, w: &'a mut SCW) -> &'a mut Sim {
        &mut w.sim
    }
    fn ops(&self, m: &u8) -> Vec<SC> {
        let mut v = vec![];
        if *m > 0 {
            return v;
        }
        for a in 0..3 {
            for b in 0..3 {
                for p in 0..7 {
                    for q in 0..7 {
                        v.push(SC(a, b, p, q));
                    }
                }
            }
        }
        v
    }
    fn step(&self, w: &mut SCW, m: &mut u8, op: &SC) -> VResult<String> {
        let addr = |i: u8| ["party0", "party1", "NotAnAddress"][i as usize];
        let prom = |i: u8| match i {
            0 => (json!({"native": {"denom": "ux0", "amount": "5"}}), true),
            1 => (json!({"native": {"denom": "ux1", "amount": "1"}}), true),
            2 => (json!({"native": {"denom": "ux0", "amount": "0"}}), false),
            3 => (json!({"cw20": {"contract_addr": w.tok, "amount": "7"}}), true),
            4 => (json!({"cw20": {"contract_addr": w.tok, "amount": "0"}}), false),
            5 => (json!({"cw20": {"contract_addr": w.other, "amount": "7"}}), false),
            _ => (json!({"cw20": {"contract_addr": "party0", "amount": "7"}}), false),
        };
        let (a, b) = (prom(op.2), prom(op.3));
        let want = op.0 != op.1 && op.0 < 2 && op.1 < 2 && a.1 && b.1;
        let r = w.sim.init(
            w.code,
            "creator",
            &json!({"counterparty_one": {"address": addr(op.0), "promise": a.0}, "counterparty_two": {"address": addr(op.1), "promise": b.0}}),
            &[],
            "swap",
        );
        same!(r.is_ok(), want, F3, "creation", "{:?} ({:?})", op, r);
        if let Ok(s) = r {
            let st: Value = w.sim.query(&s, &json!({"status": {}})).map_err(|e| Violation::new(F3, "status", e))?;
            same!(st, json!({"counterparty_one": {"address": addr(op.0), "promise": a.0, "provided": false}, "counterparty_two": {"address": addr(op.1), "promise": b.0, "provided": false}}), F3, "creation", "status after {:?}", op);
        }
        *m = 1;
        Ok(lab("create", want))
    }
    fn invariant(&self, _w: &mut SCW, _m: &u8) -> VResult {
        Ok(())
    }
}

// ------------------------------------------------------------------------------------------------
// F04 token-factory issuer
// ------------------------------------------------------------------------------------------------
#[derive(Clone, Debug)]
struct Issuer {
    /// the token existed before and its admin is handed over by operation
    existing: bool,
    grants: bool,
    lists: bool,
    own: bool,
    pre: Vec<IOp>,
}
/// 0 owner, 1 minter, 2 holder, 3 the issuer contract, 4 some other contract
const IW: [&str; 3] = ["owner", "minter", "holder"];
const ISS: u8 = 3;
const OTH: u8 = 4;
const NOBODY: u8 = 5;
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum IOp {
    /// by, whom, amount, minting (else burning)
    Grant(u8, u8, u128, bool),
    Mint(u8, u8, u128),
    Burn(u8, u8, u128),
    /// plain transfer of the token (or, false, of another denom)
    Send(u8, u8, u128, bool),
    /// the chain asks the issuer about a movement of another denom
    Freeze(u8, bool),
    Deny(u8, u8, bool),
    Allow(u8, u8, bool),
    /// by, hook contract (NOBODY = remove)
    Hook(u8, u8),
    Force(u8, u8, u8, u128),
    Admin(u8, u8),
    Meta(u8),
    Own(u8, OwnAct),
}
#[derive(Clone, Hash)]
struct IM {
    bal: BTreeMap<u8, u128>,
    foo: BTreeMap<u8, u128>,
    mint: BTreeMap<u8, u128>,
    burn: BTreeMap<u8, u128>,
    frozen: bool,
    deny: BTreeSet<u8>,
    allow: BTreeSet<u8>,
    hook: u8,
    admin: u8,
    meta: u8,
    own: Own,
}
struct IWd {
    sim: Sim,
    iss: Addr,
    other: Addr,
    denom: String,
}
impl IM {
    fn add(&mut self, who: u8, a: u128) {
        *self.bal.entry(who).or_default() += a;
    }
    fn has(&self, who: u8, a: u128) -> bool {
        self.bal.get(&who).copied().unwrap_or(0) >= a
    }
    fn take(&mut self, who: u8, a: u128) -> bool {
        if !self.has(who, a) {
            return false;
        }
        *self.bal.get_mut(&who).unwrap() -= a;
        true
    }
    fn thawed(&self, from: u8, to: u8) -> bool {
        !self.frozen || self.allow.contains(&from) || self.allow.contains(&to)
    }
    /// may this much of the token move between these parties now?
    fn hook_lets(&self, from: u8, to: u8) -> bool {
        self.hook != ISS || (self.thawed(from, to) && !self.deny.contains(&from) && !self.deny.contains(&to))
    }
    fn spend(map: &mut BTreeMap<u8, u128>, who: u8, a: u128) -> bool {
        let left = map.get(&who).copied().unwrap_or(0);
        if a == 0 || left < a {
            return false;
        }
        if left == a {
            map.remove(&who);
        } else {
            map.insert(who, left - a);
        }
        true
    }
}
impl Issuer {
    fn name(w: &IWd, i: u8) -> String {
        match i {
            ISS => w.iss.to_string(),
            OTH => w.other.to_string(),
            NOBODY => String::new(),
            _ => IW[i as usize].to_string(),
        }
    }
}
impl Harness for Issuer {
    type World = IWd;
    type Model = IM;
    type Op = IOp;
    fn setup(&self) -> (IWd, IM) {
        let mut sim = Sim::new();
        let code = sim.store(issuer_code());
        let pup = sim.store(puppet());
        let other = sim.init(pup, "creator", &json!({}), &[], "p").unwrap();
        let mut m = IM {
            bal: BTreeMap::new(),
            foo: BTreeMap::new(),
            mint: BTreeMap::new(),
            burn: BTreeMap::new(),
            frozen: false,
            deny: BTreeSet::new(),
            allow: BTreeSet::new(),
            hook: NOBODY,
            admin: ISS,
            meta: 0,
            own: Own::new(Some(0)),
        };
        let msg = if self.existing {
            let create = cw_tokenfactory_types::osmosis::MsgCreateDenom { sender: IW[0].into(), subdenom: "gold".into() };
            sim.exec_msgs(IW[0], vec![cosmwasm_std::CosmosMsg::Stargate { type_url: "/osmosis.tokenfactory.v1beta1.MsgCreateDenom".into(), value: Binary(prost11::Message::encode_to_vec(&create)) }]).unwrap();
            m.admin = 0;
            json!({"existing_token": {"denom": "factory/owner/gold"}})
        } else {
            json!({"new_token": {"subdenom": "gold"}})
        };
        let iss = sim.init(code, IW[0], &msg, &[], "issuer").unwrap();
        let denom = if self.existing { "factory/owner/gold".to_string() } else { format!("factory/{}/gold", iss) };
        for (i, p) in IW.iter().enumerate() {
            sim.mint(p, 5, "ufoo");
            m.foo.insert(i as u8, 5);
        }
        let mut w = IWd { sim, iss, other, denom };
        for op in &self.pre {
            self.step(&mut w, &mut m, op).unwrap();
        }
        w.sim.seal();
        (w, m)
    }
    fn sim<'a>(&self, w: &'a mut IWd) -> &'a mut Sim {
        &mut w.sim
    }
    fn ops(&self, m: &IM) -> Vec<IOp> {
        let mut v = vec![];
        // money movements are always possible
        for (f, t) in [(1, 2), (2, 1), (2, 0), (1, ISS), (0, 2)] {
            v.push(IOp::Send(f, t, 1, true));
        }
        for (b, t, a) in [(1, 1, 1), (1, 2, 2), (1, ISS, 1), (0, 2, 1), (2, 2, 1)] {
            v.push(IOp::Mint(b, t, a));
        }
        for (b, f, a) in [(1, 2, 1), (1, ISS, 2), (2, 2, 1), (0, 1, 1)] {
            v.push(IOp::Burn(b, f, a));
        }
        for by in [0, 2] {
            v.push(IOp::Force(by, 1, 2, 1));
        }
        v.push(IOp::Force(1, 2, 1, 1));
        if self.grants {
            v.push(IOp::Mint(1, 2, 0));
            v.push(IOp::Burn(1, 2, 0));
            v.push(IOp::Force(0, 2, 0, 4));
            for (w, a) in [(1, 3), (1, 0), (2, 1), (0, u128::MAX)] {
                v.push(IOp::Grant(0, w, a, true));
                v.push(IOp::Grant(0, w, a, false));
            }
            for k in [true, false] {
                v.push(IOp::Grant(1, 1, 5, k));
                v.push(IOp::Grant(2, 1, 0, k));
            }
            v.push(IOp::Admin(0, 2));
            v.push(IOp::Admin(1, 1));
            v.push(IOp::Meta(0));
            v.push(IOp::Meta(1));
        }
        if self.lists {
            for (f, t) in [(1, 2), (2, 0)] {
                v.push(IOp::Send(f, t, 1, false));
            }
            for by in [0, 1] {
                for b in [true, false] {
                    v.push(IOp::Freeze(by, b));
                    v.push(IOp::Deny(by, 2, b));
                    v.push(IOp::Allow(by, 1, b));
                }
                v.push(IOp::Hook(by, ISS));
                v.push(IOp::Hook(by, NOBODY));
            }
            v.push(IOp::Hook(0, OTH));
            for b in [true, false] {
                v.push(IOp::Allow(0, ISS, b));
                v.push(IOp::Allow(0, 2, b));
                v.push(IOp::Deny(0, 1, b));
                v.push(IOp::Deny(0, ISS, b));
            }
        }
        if self.own {
            for (w, a) in mc::own::own_ops(&m.own, &[0, 1, 2], 1) {
                v.push(IOp::Own(w, a));
            }
            v.push(IOp::Own(0, OwnAct::Renounce));
            v.push(IOp::Own(1, OwnAct::Offer(2, None)));
            for by in [0, 1, 2] {
                v.push(IOp::Grant(by, 2, 1, true));
                v.push(IOp::Freeze(by, !m.frozen));
                v.push(IOp::Hook(by, ISS));
                v.push(IOp::Deny(by, 2, true));
                v.push(IOp::Allow(by, 2, true));
                v.push(IOp::Force(by, 1, 0, 1));
                v.push(IOp::Admin(by, by));
                v.push(IOp::Meta(by));
            }
        }
        if self.existing {
            for by in [0, 1] {
                v.push(IOp::Admin(by, ISS));
            }
        }
        let mut seen = BTreeSet::new();
        v.retain(|o| seen.insert(format!("{:?}", o)));
        v
    }
    fn step(&self, w: &mut IWd, m: &mut IM, op: &IOp) -> VResult<String> {
        let n = &mut m.clone();
        let nm = |w: &IWd, i: u8| Self::name(w, i);
        let issuer_rules = m.admin == ISS;
        let (r, want, name) = match *op {
            IOp::Grant(by, who, a, minting) => {
                let want = m.own.is(by);
                let map = if minting { &mut n.mint } else { &mut n.burn };
                if a == 0 {
                    map.remove(&who);
                } else {
                    map.insert(who, a);
                }
                let body = json!({"address": nm(w, who), "allowance": a.to_string()});
                let msg = if minting { json!({"set_minter_allowance": body}) } else { json!({"set_burner_allowance": body}) };
                (w.sim.exec(nm(w, by), &w.iss.clone(), &msg, &[]), want, if minting { "grant-mint" } else { "grant-burn" })
            }
            IOp::Mint(by, to, a) => {
                let want = IM::spend(&mut n.mint, by, a) && m.thawed(by, to) && issuer_rules && m.hook_lets(ISS, to);
                n.add(to, a);
                (w.sim.exec(nm(w, by), &w.iss.clone(), &json!({"mint": {"to_address": nm(w, to), "amount": a.to_string()}}), &[]), want, "mint")
            }
            IOp::Burn(by, from, a) => {
                let want = IM::spend(&mut n.burn, by, a) && issuer_rules && n.take(from, a);
                (w.sim.exec(nm(w, by), &w.iss.clone(), &json!({"burn": {"from_address": nm(w, from), "amount": a.to_string()}}), &[]), want, "burn")
            }
            IOp::Send(from, to, a, true) => {
                let want = m.hook_lets(from, to) && n.take(from, a);
                n.add(to, a);
                let msg = cosmwasm_std::BankMsg::Send { to_address: nm(w, to), amount: coins(a, &w.denom) };
                (w.sim.exec_msgs(nm(w, from), vec![msg.into()]), want, "send")
            }
            IOp::Send(from, to, a, false) => {
                // a chain may let another denom's sends ask this issuer: a freeze does not concern it
                if m.deny.contains(&from) || m.deny.contains(&to) {
                    return Ok("other-denom:skipped".into());
                }
                let ask = json!({"block_before_send": {"from": nm(w, from), "to": nm(w, to), "amount": coin(a, "ufoo")}});
                let iss = w.iss.clone();
                let app = &mut w.sim.app;
                let r = app.wasm_sudo(iss, &ask).map_err(|e| format!("{:#}", e));
                (r, true, "other-denom")
            }
            IOp::Freeze(by, b) => {
                let want = m.own.is(by) && m.hook == ISS;
                n.frozen = b;
                if b {
                    n.allow.insert(ISS);
                } else {
                    n.allow.remove(&ISS);
                }
                (w.sim.exec(nm(w, by), &w.iss.clone(), &json!({"freeze": {"status": b}}), &[]), want, "freeze")
            }
            IOp::Deny(by, who, b) => {
                let want = m.own.is(by) && m.hook == ISS && who != ISS;
                if b {
                    n.deny.insert(who);
                } else {
                    n.deny.remove(&who);
                }
                (w.sim.exec(nm(w, by), &w.iss.clone(), &json!({"deny": {"address": nm(w, who), "status": b}}), &[]), want, "deny")
            }
            IOp::Allow(by, who, b) => {
                let want = m.own.is(by) && m.hook == ISS;
                if b {
                    n.allow.insert(who);
                } else {
                    n.allow.remove(&who);
                }
                (w.sim.exec(nm(w, by), &w.iss.clone(), &json!({"allow": {"address": nm(w, who), "status": b}}), &[]), want, "allow")
            }
            IOp::Hook(by, c) => {
                let want = m.own.is(by) && issuer_rules;
                n.hook = c;
                (w.sim.exec(nm(w, by), &w.iss.clone(), &json!({"set_before_send_hook": {"cosmwasm_address": nm(w, c)}}), &[]), want, "hook")
            }
            IOp::Force(by, from, to, a) => {
                let want = m.own.is(by) && issuer_rules && n.take(from, a);
                n.add(to, a);
                (w.sim.exec(nm(w, by), &w.iss.clone(), &json!({"force_transfer": {"amount": a.to_string(), "from_address": nm(w, from), "to_address": nm(w, to)}}), &[]), want, "force")
            }
            IOp::Admin(by, to) if m.admin != ISS && to == ISS => {
                // the current admin hands the denom to the issuer with a chain message
                let want = m.admin == by;
                n.admin = ISS;
                let msg = cw_tokenfactory_types::osmosis::MsgChangeAdmin { sender: nm(w, by), denom: w.denom.clone(), new_admin: w.iss.to_string() };
                let msg = cosmwasm_std::CosmosMsg::Stargate { type_url: "/osmosis.tokenfactory.v1beta1.MsgChangeAdmin".into(), value: Binary(prost11::Message::encode_to_vec(&msg)) };
                (w.sim.exec_msgs(nm(w, by), vec![msg]), want, "adopt")
            }
            IOp::Admin(by, to) => {
                let want = m.own.is(by) && issuer_rules;
                n.admin = to;
                (w.sim.exec(nm(w, by), &w.iss.clone(), &json!({"update_token_factory_admin": {"new_admin": nm(w, to)}}), &[]), want, "admin")
            }
            IOp::Meta(by) => {
                let want = m.own.is(by) && issuer_rules;
                n.meta = by + 1;
                let md = json!({"description": format!("by {}", by), "denom_units": [{"denom": w.denom, "exponent": "0", "aliases": ["ug"]}], "base": w.denom, "display": "GOLD", "name": format!("gold-{}", by), "symbol": "GLD"});
                (w.sim.exec(nm(w, by), &w.iss.clone(), &json!({"set_denom_metadata": {"metadata": md}}), &[]), want, "metadata")
            }
            IOp::Own(by, a) => {
                let t = now(&w.sim);
                let want = n.own.act(by, a, t);
                let msg = a.json(|i| nm(w, i));
                (w.sim.exec(nm(w, by), &w.iss.clone(), &msg, &[]), want, "ownership")
            }
        };
        agree(F4, &format!("{}-verdict", name), op, &r, want)?;
        if want {
            *m = n.clone();
        }
        Ok(lab(name, want))
    }
    fn invariant(&self, w: &mut IWd, m: &IM) -> VResult {
        let q = |msg: Value| -> VResult<Value> { w.sim.query(&w.iss, &msg).map_err(|e| Violation::new(F4, "query", format!("{}: {}", msg, e))) };
        let mut sum = 0;
        for i in [0, 1, 2, ISS, OTH] {
            let n = Self::name(w, i);
            let b = w.sim.bal(&n, &w.denom);
            sum += b;
            same!(b, m.bal.get(&i).copied().unwrap_or(0), F4, "balance", "token balance of {}", n);
            same!(q(json!({"mint_allowance": {"address": n}}))?["allowance"], json!(m.mint.get(&i).copied().unwrap_or(0).to_string()), F4, "allowance", "mint allowance of {}", n);
            same!(q(json!({"burn_allowance": {"address": n}}))?["allowance"], json!(m.burn.get(&i).copied().unwrap_or(0).to_string()), F4, "allowance", "burn allowance of {}", n);
            same!(q(json!({"is_denied": {"address": n}}))?["status"], json!(m.deny.contains(&i)), F4, "lists", "is {} denied", n);
            same!(q(json!({"is_allowed": {"address": n}}))?["status"], json!(m.allow.contains(&i)), F4, "lists", "is {} allowed", n);
        }
        let supply: u128 = w.sim.app.wrap().query_supply(&w.denom).unwrap().amount.u128();
        same!(supply, sum, F4, "supply", "supply of {}", w.denom);
        same!(q(json!({"is_frozen": {}}))?["is_frozen"], json!(m.frozen), F4, "lists", "frozen");
        same!(q(json!({"denom": {}}))?["denom"], json!(w.denom), F4, "denom", "denom");
        let own = q(json!({"ownership": {}}))?;
        ensure!(m.own.matches(&own, |i| Self::name(w, i)), F4, "ownership", "ownership is {}, reference {:?}", own, m.own);
        same!(
            q(json!({"before_send_hook_info": {}}))?,
            json!({"advanced_features_enabled": m.hook == ISS, "hook_contract_address": if m.hook == NOBODY { None } else { Some(Self::name(w, m.hook)) }}),
            F4,
            "hook-info",
            "hook information"
        );
        let f: Factory = w.sim.factory(&w.denom).unwrap();
        same!(f.admin, Self::name(w, m.admin), F4, "denom-admin", "denom admin on the chain");
        same!(f.hook, Self::name(w, m.hook), F4, "denom-hook", "send hook on the chain");
        ensure!((m.meta == 0) == f.metadata.is_empty() && (m.meta == 0 || f.metadata.contains(&format!("gold-{}\"", m.meta - 1))), F4, "metadata", "metadata {} but last set by {}", f.metadata, m.meta);
        // listings, walked with every page size
        let byname = |keys: Vec<u8>| -> Vec<String> {
            let mut v: Vec<String> = keys.into_iter().map(|i| Self::name(w, i)).collect();
            v.sort();
            v
        };
        let lists: [(&str, &str, Vec<(String, Value)>); 4] = [
            ("mint_allowances", "allowances", byname(m.mint.keys().copied().collect()).into_iter().map(|n| (n.clone(), json!({"address": n, "allowance": m.mint.iter().find(|(k, _)| Self::name(w, **k) == n).unwrap().1.to_string()}))).collect()),
            ("burn_allowances", "allowances", byname(m.burn.keys().copied().collect()).into_iter().map(|n| (n.clone(), json!({"address": n, "allowance": m.burn.iter().find(|(k, _)| Self::name(w, **k) == n).unwrap().1.to_string()}))).collect()),
            ("denylist", "denylist", byname(m.deny.iter().copied().collect()).into_iter().map(|n| (n.clone(), json!({"address": n, "status": true}))).collect()),
            ("allowlist", "allowlist", byname(m.allow.iter().copied().collect()).into_iter().map(|n| (n.clone(), json!({"address": n, "status": true}))).collect()),
        ];
        for (qn, field, want) in lists {
            for limit in [None, Some(1u32), Some(2)] {
                let mut got: Vec<Value> = vec![];
                let mut after: Option<String> = None;
                for _ in 0..8 {
                    let page = q(json!({qn: {"start_after": after, "limit": limit}}))?[field].as_array().cloned().unwrap_or_default();
                    ensure!(page.len() <= limit.unwrap_or(10) as usize, F4, "listing", "{} page of {:?} has {} entries", qn, limit, page.len());
                    if page.is_empty() {
                        break;
                    }
                    after = page.last().unwrap()["address"].as_str().map(|s| s.to_string());
                    got.extend(page);
                }
                same!(got, want.iter().map(|x| x.1.clone()).collect::<Vec<_>>(), F4, "listing", "{} in pages of {:?}", qn, limit);
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------------------------------------
// F05 role NFTs
// ------------------------------------------------------------------------------------------------
#[derive(Clone, Debug)]
struct Roles {
    weights: Vec<u64>,
    edits: bool,
    own: bool,
    hooks: bool,
    send: bool,
}
/// 0 controller, 1, 2 holders, 3 a contract that accepts NFTs
const RW: [&str; 3] = ["ctl", "ann", "bob"];
const RC: u8 = 3;
const IDS: [&str; 2] = ["t1", "t2"];
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum ROp {
    Mint(u8, u8, u8, u64),
    Burn(u8, u8),
    Transfer(u8, u8, u8),
    Send(u8, u8, u8),
    Weight(u8, u8, u64),
    Role(u8, u8, u8),
    Uri(u8, u8, u8),
    Approve(u8, u8, u8),
    Hook(u8, bool),
    /// the subscriber starts refusing
    Refuse(bool),
    Own(u8, OwnAct),
    Block,
}
#[derive(Clone, Hash, Debug, PartialEq)]
struct Token {
    owner: u8,
    weight: u64,
    role: u8,
    uri: u8,
    approved: Option<u8>,
}
#[derive(Clone, Hash)]
struct RM {
    tok: BTreeMap<u8, Token>,
    /// (height from which it counts, weights) of every past block end
    past: Vec<(u64, BTreeMap<u8, u64>)>,
    hook: bool,
    refuse: bool,
    log: Vec<BTreeMap<u8, (u64, u64)>>,
    own: Own,
    blocks: u8,
}
impl RM {
    fn sums(&self) -> BTreeMap<u8, u64> {
        let mut s: BTreeMap<u8, u64> = BTreeMap::new();
        for t in self.tok.values() {
            *s.entry(t.owner).or_default() += t.weight;
        }
        s.retain(|_, v| *v > 0);
        s
    }
    fn fits(&self) -> bool {
        self.tok.values().map(|t| t.weight as u128).sum::<u128>() <= u64::MAX as u128
    }
}
struct RWd {
    sim: Sim,
    nft: Addr,
    recv: Addr,
    sub: Addr,
}
impl Roles {
    fn name(w: &RWd, i: u8) -> String {
        if i == RC {
            w.recv.to_string()
        } else {
            RW[i as usize].to_string()
        }
    }
    fn role(i: u8) -> Option<String> {
        (i > 0).then(|| format!("role{}", i))
    }
    fn uri(i: u8) -> Option<String> {
        (i > 0).then(|| format!("ipfs://{}", i))
    }
}
impl Harness for Roles {
    type World = RWd;
    type Model = RM;
    type Op = ROp;
    fn setup(&self) -> (RWd, RM) {
        let mut sim = Sim::new();
        let code = sim.store(roles_code());
        let pup = sim.store(puppet());
        let recv = sim.init(pup, "creator", &json!({}), &[], "r").unwrap();
        let sub = sim.init(pup, "creator", &json!({}), &[], "s").unwrap();
        let nft = sim.init(code, "creator", &json!({"name": "roles", "symbol": "ROLE", "minter": RW[0]}), &[], "n").unwrap();
        sim.advance(1, 5);
        sim.seal();
        (RWd { sim, nft, recv, sub }, RM { tok: BTreeMap::new(), past: vec![], hook: false, refuse: false, log: vec![], own: Own::new(Some(0)), blocks: 0 })
    }
    fn sim<'a>(&self, w: &'a mut RWd) -> &'a mut Sim {
        &mut w.sim
    }
    fn ops(&self, m: &RM) -> Vec<ROp> {
        let mut v = vec![];
        let ctl: Vec<u8> = if self.own { vec![0, 1] } else { vec![0] };
        for &c in &ctl {
            for id in 0..IDS.len() as u8 {
                if !self.own || id == 0 {
                    for (k, to) in [1u8, 2].into_iter().enumerate() {
                        for (j, wt) in self.weights.iter().enumerate() {
                            if !self.own || k == j {
                                v.push(ROp::Mint(c, id, to, *wt));
                            }
                        }
                    }
                }
                v.push(ROp::Burn(c, id));
                for to in [1u8, 2] {
                    v.push(ROp::Transfer(c, id, to));
                }
                for wt in &self.weights {
                    v.push(ROp::Weight(c, id, *wt));
                }
                if self.send {
                    v.push(ROp::Send(c, id, RC));
                }
                if self.edits {
                    for x in 0..2 {
                        v.push(ROp::Role(c, id, x));
                        v.push(ROp::Uri(c, id, x));
                    }
                    v.push(ROp::Approve(c, id, 2));
                }
            }
        }
        // the holder, a stranger
        for by in [1, 2] {
            v.push(ROp::Mint(by, 1, 1, 1));
            v.push(ROp::Burn(by, 0));
            v.push(ROp::Transfer(by, 0, 3 - by));
            v.push(ROp::Send(by, 0, RC));
            v.push(ROp::Weight(by, 0, 3));
            v.push(ROp::Role(by, 0, 1));
            v.push(ROp::Uri(by, 0, 1));
            v.push(ROp::Hook(by, true));
            v.push(ROp::Hook(by, false));
            v.push(ROp::Approve(by, 0, by));
        }
        if self.hooks {
            v.push(ROp::Hook(0, true));
            v.push(ROp::Hook(0, false));
            v.push(ROp::Refuse(!m.refuse));
        }
        if self.own {
            for (w, a) in mc::own::own_ops(&m.own, &[0, 1, 2], 1) {
                v.push(ROp::Own(w, a));
            }
            v.push(ROp::Own(0, OwnAct::Renounce));
            v.push(ROp::Own(1, OwnAct::Offer(0, None)));
            v.push(ROp::Own(0, OwnAct::Offer(1, Some(m.blocks as u64 + 1000 + 2))));
        }
        if m.blocks < 4 {
            v.push(ROp::Block);
        }
        let mut seen = BTreeSet::new();
        v.retain(|o| seen.insert(format!("{:?}", o)));
        v
    }
    fn step(&self, w: &mut RWd, m: &mut RM, op: &ROp) -> VResult<String> {
        let mut n = m.clone();
        let before = m.sums();
        let idn = |i: u8| IDS[i as usize];
        let mut told = false;
        let ctl = |by: u8| m.own.is(by);
        let mut recv_gets = None;
        let (msg, by, mut want, name) = match *op {
            ROp::Mint(by, id, to, wt) => {
                let ok = ctl(by) && !m.tok.contains_key(&id);
                n.tok.insert(id, Token { owner: to, weight: wt, role: 0, uri: 0, approved: None });
                told = true;
                (json!({"mint": {"token_id": idn(id), "owner": Self::name(w, to), "token_uri": null, "extension": {"role": null, "weight": wt}}}), by, ok && n.fits(), "mint")
            }
            ROp::Burn(by, id) => {
                let ok = ctl(by) && m.tok.contains_key(&id);
                n.tok.remove(&id);
                told = true;
                (json!({"burn": {"token_id": idn(id)}}), by, ok, "burn")
            }
            ROp::Transfer(by, id, to) | ROp::Send(by, id, to) => {
                let ok = ctl(by) && m.tok.contains_key(&id);
                if let Some(t) = n.tok.get_mut(&id) {
                    told = t.owner != to;
                    t.owner = to;
                    t.approved = None;
                }
                if matches!(op, ROp::Send(..)) {
                    recv_gets = Some(json!({"from": w.nft, "msg": {"receive_nft": {"sender": Self::name(w, by), "token_id": idn(id), "msg": "aGk="}}}));
                    (json!({"send_nft": {"contract": Self::name(w, to), "token_id": idn(id), "msg": "aGk="}}), by, ok, "send")
                } else {
                    (json!({"transfer_nft": {"recipient": Self::name(w, to), "token_id": idn(id)}}), by, ok, "transfer")
                }
            }
            ROp::Weight(by, id, wt) => {
                // an edit to the weight it already has is refused
                let ok = ctl(by) && m.tok.get(&id).map(|t| t.weight != wt).unwrap_or(false);
                if let Some(t) = n.tok.get_mut(&id) {
                    t.weight = wt;
                }
                told = true;
                (json!({"extension": {"msg": {"update_token_weight": {"token_id": idn(id), "weight": wt}}}}), by, ok && n.fits(), "weight")
            }
            ROp::Role(by, id, x) => {
                let ok = ctl(by) && m.tok.contains_key(&id);
                if let Some(t) = n.tok.get_mut(&id) {
                    t.role = x;
                }
                (json!({"extension": {"msg": {"update_token_role": {"token_id": idn(id), "role": Self::role(x)}}}}), by, ok, "role")
            }
            ROp::Uri(by, id, x) => {
                let ok = ctl(by) && m.tok.contains_key(&id);
                if let Some(t) = n.tok.get_mut(&id) {
                    t.uri = x;
                }
                (json!({"extension": {"msg": {"update_token_uri": {"token_id": idn(id), "token_uri": Self::uri(x)}}}}), by, ok, "uri")
            }
            ROp::Approve(by, id, sp) => {
                // the controller may approve only for tokens it holds itself, as in any NFT collection
                let ok = ctl(by) && m.tok.get(&id).map(|t| t.owner == by).unwrap_or(false);
                if let Some(t) = n.tok.get_mut(&id) {
                    t.approved = Some(sp);
                }
                (json!({"approve": {"spender": Self::name(w, sp), "token_id": idn(id), "expires": null}}), by, ok, "approve")
            }
            ROp::Hook(by, add) => {
                let ok = ctl(by) && m.hook != add;
                n.hook = add;
                let a = json!({"addr": w.sub});
                (json!({"extension": {"msg": if add { json!({"add_hook": a}) } else { json!({"remove_hook": a}) }}}), by, ok, "hook")
            }
            ROp::Refuse(b) => {
                puppet_set(&mut w.sim, w.sub.clone(), json!({"fail": b}));
                m.refuse = b;
                return Ok("subscriber".into());
            }
            ROp::Own(by, a) => {
                let t = now(&w.sim);
                let ok = n.own.act(by, a, t);
                (a.json(|i| Self::name(w, i)), by, ok, "ownership")
            }
            ROp::Block => {
                m.past.push((w.sim.height(), m.sums()));
                m.blocks += 1;
                w.sim.advance(1, 5);
                return Ok("block".into());
            }
        };
        if told && m.hook && m.refuse {
            want = false;
        }
        if recv_gets.is_some() {
            puppet_set(&mut w.sim, w.recv.clone(), json!({"log": []}));
        }
        let nft = w.nft.clone();
        let r = w.sim.exec(Self::name(w, by), &nft, &msg, &[]);
        agree(F5, &format!("{}-verdict", name), op, &r, want)?;
        if want {
            *m = n;
            if let Some(g) = recv_gets {
                same!(puppet_get(&w.sim, &w.recv, "log"), json!([g]), F5, "receiver", "notice to the receiving contract of {:?}", op);
            }
            let after = m.sums();
            if told && m.hook {
                // what the subscriber was told agrees with the change
                let log = puppet_get(&w.sim, &w.sub, "log");
                let last = log.as_array().and_then(|a| a.last().cloned()).unwrap_or(Value::Null);
                let mut seen: BTreeMap<String, (u64, u64)> = BTreeMap::new();
                for d in last["msg"]["member_changed_hook"]["diffs"].as_array().cloned().unwrap_or_default() {
                    seen.insert(d["key"].as_str().unwrap_or("").into(), (d["old"].as_u64().unwrap_or(0), d["new"].as_u64().unwrap_or(0)));
                }
                for who in [0, 1, 2, RC] {
                    let (o, a) = (before.get(&who).copied().unwrap_or(0), after.get(&who).copied().unwrap_or(0));
                    let s = seen.remove(&Self::name(w, who));
                    ensure!(s == Some((o, a)) || (s.is_none() && o == a), F5, "notice", "after {:?} the subscriber was told {:?} about {}, its weight went from {} to {}", op, s, Self::name(w, who), o, a);
                }
                ensure!(seen.is_empty(), F5, "notice", "subscriber told about {:?}", seen);
                puppet_set(&mut w.sim, w.sub.clone(), json!({"log": []}));
            }
        }
        Ok(lab(name, want))
    }
    fn invariant(&self, w: &mut RWd, m: &RM) -> VResult {
        let q = |msg: Value| -> Result<Value, String> { w.sim.query(&w.nft, &msg) };
        let ext = |x: Value| q(json!({"extension": {"msg": x}}));
        let qv = |r: Result<Value, String>| r.map_err(|e| Violation::new(F5, "query", e));
        let cur = m.sums();
        let h = w.sim.height();
        let tot = |s: &BTreeMap<u8, u64>| s.values().sum::<u64>();
        // now, at this height (state at its start), the next one, and every past height
        let mut at: Vec<(Option<u64>, &BTreeMap<u8, u64>)> = vec![(None, &cur), (Some(h + 1), &cur)];
        let empty = BTreeMap::new();
        for k in (h - m.past.len() as u64)..=h {
            let s = m.past.iter().rev().find(|(ph, _)| *ph < k).map(|x| &x.1).unwrap_or(&empty);
            at.push((Some(k), s));
        }
        for (k, s) in at {
            same!(qv(ext(json!({"total_weight": {"at_height": k}})))?["weight"], json!(tot(s)), F5, "total", "total weight at {:?}", k);
            for who in [0, 1, 2, RC] {
                let a = qv(ext(json!({"member": {"addr": Self::name(w, who), "at_height": k}})))?;
                same!(a["weight"].as_u64().unwrap_or(0), s.get(&who).copied().unwrap_or(0), F5, "weight", "weight of {} at {:?}", Self::name(w, who), k);
            }
        }
        for limit in [None, Some(1u32), Some(2)] {
            let mut got: BTreeMap<String, u64> = BTreeMap::new();
            let mut after: Option<String> = None;
            for _ in 0..8 {
                let page = qv(ext(json!({"list_members": {"start_after": after, "limit": limit}})))?["members"].as_array().cloned().unwrap_or_default();
                if page.is_empty() {
                    break;
                }
                for e in &page {
                    let a = e["addr"].as_str().unwrap().to_string();
                    ensure!(got.insert(a.clone(), e["weight"].as_u64().unwrap()).is_none(), F5, "members", "{} listed twice", a);
                }
                after = page.last().unwrap()["addr"].as_str().map(|s| s.to_string());
            }
            got.retain(|_, v| *v > 0);
            let want: BTreeMap<String, u64> = cur.iter().map(|(k, v)| (Self::name(w, *k), *v)).collect();
            same!(got, want, F5, "members", "members listed in pages of {:?}", limit);
        }
        for (i, id) in IDS.iter().enumerate() {
            let info = q(json!({"nft_info": {"token_id": id}}));
            match m.tok.get(&(i as u8)) {
                None => ensure!(info.is_err(), F5, "token", "{} should not exist", id),
                Some(t) => {
                    let info = qv(info)?;
                    same!(info, json!({"token_uri": Self::uri(t.uri), "extension": {"role": Self::role(t.role), "weight": t.weight}}), F5, "token", "{}", id);
                    let o = qv(q(json!({"owner_of": {"token_id": id}})))?;
                    same!(o["owner"], json!(Self::name(w, t.owner)), F5, "token", "owner of {}", id);
                    let ap: Vec<Value> = o["approvals"].as_array().cloned().unwrap_or_default().iter().map(|a| a["spender"].clone()).collect();
                    same!(ap, t.approved.iter().map(|a| json!(Self::name(w, *a))).collect::<Vec<_>>(), F5, "token", "approvals of {}", id);
                }
            }
        }
        same!(qv(q(json!({"num_tokens": {}})))?["count"], json!(m.tok.len()), F5, "count", "number of tokens");
        for who in [0u8, 1, 2, RC] {
            let l = qv(q(json!({"tokens": {"owner": Self::name(w, who), "start_after": null, "limit": null}})))?["tokens"].clone();
            let want: Vec<&str> = m.tok.iter().filter(|(_, t)| t.owner == who).map(|(i, _)| IDS[*i as usize]).collect();
            same!(l, json!(want), F5, "token", "tokens of {}", Self::name(w, who));
        }
        let hooks = qv(ext(json!({"hooks": {}})))?;
        same!(hooks["hooks"], if m.hook { json!([w.sub]) } else { json!([]) }, F5, "hooks", "subscribers");
        let own = qv(q(json!({"ownership": {}})))?;
        ensure!(m.own.matches(&own, |i| Self::name(w, i)), F5, "ownership", "ownership is {}, reference {:?}", own, m.own);
        Ok(())
    }
}

// ------------------------------------------------------------------------------------------------
// F06 payroll factory
// ------------------------------------------------------------------------------------------------
#[derive(Clone, Debug)]
struct Payroll {
    owner: bool,
    cw20: bool,
    own: bool,
}
/// 0 owner, 1 creator, 2 outsider; recipients 0, 1
const PW: [&str; 3] = ["powner", "payer", "stranger"];
/// one a third party, one the payer, one the factory's owner
const PR: [&str; 3] = ["rec0", "payer", "powner"];
/// owner (and upgrade administrator) the vest for each recipient is to have
const PO: [Option<&str>; 3] = [Some("dao"), Some("powner"), None];
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Pay {
    /// exactly the total in the vest's own token
    Exact,
    Less,
    More,
    None,
    /// the right number of another token
    Other,
    /// the right payment plus another coin
    Extra,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum POp {
    /// by, recipient, payment, valid schedule
    Native(u8, u8, Pay, bool),
    /// through a cw20 send; the vest is denominated in token 0
    Cw20(u8, u8, Pay, bool),
    /// direct call of the receive entry by an account claiming the token came from `claims`
    Forge(u8, u8, u8),
    /// the native entry asked for a cw20 vest (nothing is paid)
    NativeForCw20(u8, u8),
    Code(u8, u8),
    Own(u8, OwnAct),
    /// somebody leaves tokens in the factory
    Stray,
}
#[derive(Clone, Hash, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Made {
    addr: String,
    by: u8,
    to: u8,
    total: u128,
    native: bool,
    code: u8,
}
#[derive(Clone, Hash)]
struct PM {
    made: Vec<Made>,
    own: Own,
    code: u8,
    stray: u128,
    spent: BTreeMap<(u8, u8), u128>,
}
struct PWd {
    sim: Sim,
    fac: Addr,
    codes: [u64; 2],
    tok: [Addr; 2],
}
const FUNDS: u128 = 1000;
impl Payroll {
    fn vest(w: &PWd, to: u8, total: u128, native: bool, ok: bool) -> Value {
        json!({
            "owner": PO[to as usize], "recipient": PR[to as usize], "title": format!("pay {}", to), "description": if to == 1 { Some("work") } else { None }, "total": total.to_string(),
            "denom": if native { json!({"native": "ux0"}) } else { json!({"cw20": w.tok[0]}) },
            "schedule": "saturating_linear", "start_time": null,
            "vesting_duration_seconds": if ok { 100 } else { 0 }, "unbonding_duration_seconds": 10
        })
    }
    fn total(m: &PM) -> u128 {
        10 + m.made.len() as u128
    }
}
impl Harness for Payroll {
    type World = PWd;
    type Model = PM;
    type Op = POp;
    fn setup(&self) -> (PWd, PM) {
        let mut sim = Sim::new();
        let codes = [sim.store(vesting_code()), sim.store(vesting_code())];
        let fc = sim.store(payroll_code());
        let c20 = sim.store(cw20_code());
        let tok: Vec<Addr> = (0..2)
            .map(|i| {
                let ib: Vec<Value> = PW.iter().map(|p| json!({"address": p, "amount": FUNDS.to_string()})).collect();
                sim.init(c20, "creator", &json!({"name": format!("token{}", i), "symbol": "TOK", "decimals": 6, "initial_balances": ib, "mint": null, "marketing": null}), &[], "t").unwrap()
            })
            .collect();
        for p in PW {
            sim.mint(p, FUNDS, "ux0");
            sim.mint(p, FUNDS, "ux1");
        }
        let fac = sim.init(fc, "creator", &json!({"owner": if self.owner { Some(PW[0]) } else { None }, "vesting_code_id": codes[0]}), &[], "f").unwrap();
        // a vest nobody made through the factory must never be listed
        let w0 = PWd { sim: Sim::new(), fac: fac.clone(), codes, tok: [tok[0].clone(), tok[1].clone()] };
        sim.init(codes[0], PW[1], &Self::vest(&w0, 0, 5, true, true), &coins(5, "ux0"), "v").unwrap();
        sim.seal();
        let mut spent = BTreeMap::new();
        spent.insert((1, 0), 5);
        (
            PWd { sim, fac, codes, tok: [tok[0].clone(), tok[1].clone()] },
            PM { made: vec![], own: Own::new(self.owner.then_some(0)), code: 0, stray: 0, spent },
        )
    }
    fn sim<'a>(&self, w: &'a mut PWd) -> &'a mut Sim {
        &mut w.sim
    }
    fn ops(&self, m: &PM) -> Vec<POp> {
        let mut v = vec![];
        for by in 0..3u8 {
            for to in 0..3u8 {
                if self.cw20 {
                    v.push(POp::Cw20(by, to, Pay::Exact, true));
                } else {
                    v.push(POp::Native(by, to, Pay::Exact, true));
                }
            }
            for p in [Pay::Less, Pay::More, Pay::Other] {
                v.push(if self.cw20 { POp::Cw20(by, 1, p, true) } else { POp::Native(by, 1, p, true) });
            }
            if self.cw20 {
                v.push(POp::Cw20(by, 0, Pay::Exact, false));
                v.push(POp::Forge(by, 1, 0));
                v.push(POp::Forge(by, 0, 1));
                v.push(POp::NativeForCw20(by, 0));
                v.push(POp::Native(by, 1, Pay::Exact, true));
            } else {
                v.push(POp::Native(by, 0, Pay::Exact, false));
                v.push(POp::Native(by, 0, Pay::None, true));
                v.push(POp::Native(by, 0, Pay::Extra, true));
                v.push(POp::Cw20(by, 0, Pay::Exact, true));
            }
            for c in 0..2 {
                v.push(POp::Code(by, c));
            }
        }
        if self.own {
            for (w, a) in mc::own::own_ops(&m.own, &[0, 1, 2], 1) {
                v.push(POp::Own(w, a));
            }
            v.push(POp::Own(0, OwnAct::Renounce));
            v.push(POp::Own(1, OwnAct::Renounce));
        }
        if m.stray == 0 {
            v.push(POp::Stray);
        }
        v
    }
    fn step(&self, w: &mut PWd, m: &mut PM, op: &POp) -> VResult<String> {
        let mut n = m.clone();
        let total = Self::total(m);
        let free = m.own.owner.is_none();
        let may = |by: u8| free || m.own.is(by);
        let fac = w.fac.clone();
        let mut made: Option<Made> = None;
        let (r, want, name) = match op {
            POp::Native(by, to, pay, ok) => {
                let f = match pay {
                    Pay::Exact => coins(total, "ux0"),
                    Pay::Less => coins(total - 1, "ux0"),
                    Pay::More => coins(total + 1, "ux0"),
                    Pay::None => vec![],
                    Pay::Other => coins(total, "ux1"),
                    Pay::Extra => vec![coin(total, "ux0"), coin(1, "ux1")],
                };
                let want = may(*by) && *pay == Pay::Exact && *ok;
                made = Some(Made { addr: String::new(), by: *by, to: *to, total, native: true, code: m.code });
                *n.spent.entry((*by, 0)).or_default() += total;
                (w.sim.exec(PW[*by as usize], &fac, &json!({"instantiate_native_payroll_contract": {"instantiate_msg": Self::vest(w, *to, total, true, *ok), "label": "pay"}}), &f), want, "native")
            }
            POp::Cw20(by, to, pay, ok) => {
                let (t, a) = match pay {
                    Pay::Less => (0, total - 1),
                    Pay::More => (0, total + 1),
                    Pay::Other => (1, total),
                    _ => (0, total),
                };
                let want = may(*by) && *pay == Pay::Exact && *ok;
                made = Some(Made { addr: String::new(), by: *by, to: *to, total, native: false, code: m.code });
                *n.spent.entry((*by, 1)).or_default() += total;
                let inner = json!({"instantiate_payroll_contract": {"instantiate_msg": Self::vest(w, *to, total, false, *ok), "label": "pay"}});
                let msg = json!({"send": {"contract": fac, "amount": a.to_string(), "msg": Binary(serde_json::to_vec(&inner).unwrap())}});
                (w.sim.exec(PW[*by as usize], &w.tok[t].clone(), &msg, &[]), want, "cw20")
            }
            POp::Forge(by, claims, to) => {
                let inner = json!({"instantiate_payroll_contract": {"instantiate_msg": Self::vest(w, *to, total, false, true), "label": "pay"}});
                let msg = json!({"receive": {"sender": PW[*claims as usize], "amount": total.to_string(), "msg": Binary(serde_json::to_vec(&inner).unwrap())}});
                (w.sim.exec(PW[*by as usize], &fac, &msg, &[]), false, "forge")
            }
            POp::NativeForCw20(by, to) => {
                (w.sim.exec(PW[*by as usize], &fac, &json!({"instantiate_native_payroll_contract": {"instantiate_msg": Self::vest(w, *to, total, false, true), "label": "pay"}}), &[]), false, "native-for-cw20")
            }
            POp::Code(by, c) => {
                n.code = *c;
                (w.sim.exec(PW[*by as usize], &fac, &json!({"update_code_id": {"vesting_code_id": w.codes[*c as usize]}}), &[]), m.own.is(*by), "code")
            }
            POp::Own(by, a) => {
                let t = now(&w.sim);
                let want = n.own.act(*by, *a, t);
                (w.sim.exec(PW[*by as usize], &fac, &a.json(|i| PW[i as usize].into()), &[]), want, "ownership")
            }
            POp::Stray => {
                n.stray = 30;
                w.sim.exec(PW[2], &w.tok[0].clone(), &json!({"transfer": {"recipient": fac, "amount": "30"}}), &[]).unwrap();
                *n.spent.entry((2, 1)).or_default() += 30;
                let r = w.sim.exec_msgs(PW[2], vec![cosmwasm_std::BankMsg::Send { to_address: fac.to_string(), amount: coins(30, "ux0") }.into()]);
                *n.spent.entry((2, 0)).or_default() += 30;
                (r, true, "stray")
            }
        };
        agree(F6, &format!("{}-verdict", name), op, &r, want)?;
        if want {
            if let Some(mut d) = made {
                // the new contract: the one entry of the full listing that was not there before
                let l: Vec<Value> = w.sim.query(&w.fac, &json!({"list_vesting_contracts": {"start_after": null, "limit": 50}})).map_err(|e| Violation::new(F6, "listing", e))?;
                let new: Vec<String> = l.iter().map(|v| v["contract"].as_str().unwrap().to_string()).filter(|a| !m.made.iter().any(|x| x.addr == *a)).collect();
                same!(new.len(), 1, F6, "listing", "new entries after {:?}", op);
                d.addr = new[0].clone();
                n.made.push(d);
            }
            *m = n;
        }
        Ok(lab(name, want))
    }
    fn invariant(&self, w: &mut PWd, m: &PM) -> VResult {
        let q = |msg: Value| -> VResult<Value> { w.sim.query(&w.fac, &msg).map_err(|e| Violation::new(F6, "query", format!("{}: {}", msg, e))) };
        same!(q(json!({"code_id": {}}))?, json!(w.codes[m.code as usize]), F6, "code", "code id");
        let own = q(json!({"ownership": {}}))?;
        ensure!(m.own.matches(&own, |i| PW[i as usize].to_string()), F6, "ownership", "ownership is {}, reference {:?}", own, m.own);
        for v in &m.made {
            let i: Value = w.sim.query(&v.addr, &json!({"info": {}})).map_err(|e| Violation::new(F6, "vest", e))?;
            same!(i["recipient"], json!(PR[v.to as usize]), F6, "vest", "recipient of {}", v.addr);
            let t: Value = w.sim.query(&v.addr, &json!({"total_to_vest": {}})).map_err(|e| Violation::new(F6, "vest", e))?;
            same!(t, json!(v.total.to_string()), F6, "vest", "total of {}", v.addr);
            same!(i["status"], json!("funded"), F6, "vest", "status of {}", v.addr);
            let b = if v.native { w.sim.bal(&v.addr, "ux0") } else { w.sim.cw20(&w.tok[0], &v.addr) };
            same!(b, v.total, F6, "vest-funds", "funds of {}", v.addr);
            let info = w.sim.app.wrap().query_wasm_contract_info(&v.addr).unwrap();
            same!(info.admin.as_deref(), PO[v.to as usize], F6, "vest", "admin of {}", v.addr);
            same!(info.creator, w.fac.to_string(), F6, "vest", "creator of {}", v.addr);
            same!(info.code_id, w.codes[v.code as usize], F6, "vest", "code of {}", v.addr);
            let o: Value = w.sim.query(&v.addr, &json!({"ownership": {}})).map_err(|e| Violation::new(F6, "vest", e))?;
            same!(o["owner"], json!(PO[v.to as usize]), F6, "vest", "owner of {}", v.addr);
            let denom = if v.native { json!({"native": "ux0"}) } else { json!({"cw20": w.tok[0]}) };
            same!(
                (&i["title"], &i["description"], &i["denom"]),
                (&json!(format!("pay {}", v.to)), &json!((v.to == 1).then_some("work")), &denom),
                F6, "vest", "title, description and token of {}", v.addr
            );
            let at = |t: u64| w.sim.query::<_, Value>(&v.addr, &json!({"vested": {"t": (t * 1_000_000_000).to_string()}}));
            let t0 = w.sim.time();
            let got: Vec<Option<Value>> = [0, 50, 100].iter().map(|d| at(t0 + d).ok()).collect();
            let want: Vec<Option<Value>> = [0, v.total / 2, v.total].iter().map(|x| Some(json!(x.to_string()))).collect();
            same!(got, want, F6, "vest-schedule", "what {} vests at the start, half way and at the end", v.addr);
        }
        for p in 0..3u8 {
            same!(w.sim.bal(PW[p as usize], "ux0"), FUNDS - m.spent.get(&(p, 0)).copied().unwrap_or(0), F6, "payer", "native balance of {}", PW[p as usize]);
            same!(w.sim.bal(PW[p as usize], "ux1"), FUNDS, F6, "payer", "other native balance of {}", PW[p as usize]);
            same!(w.sim.cw20(&w.tok[0], PW[p as usize]), FUNDS - m.spent.get(&(p, 1)).copied().unwrap_or(0), F6, "payer", "token balance of {}", PW[p as usize]);
            same!(w.sim.cw20(&w.tok[1], PW[p as usize]), FUNDS, F6, "payer", "other token balance of {}", PW[p as usize]);
        }
        same!((w.sim.bal(&w.fac, "ux0"), w.sim.cw20(&w.tok[0], &w.fac), w.sim.bal(&w.fac, "ux1"), w.sim.cw20(&w.tok[1], &w.fac)), (m.stray, m.stray, 0, 0), F6, "factory-funds", "funds left in the factory");
        // every listing, page size and direction
        let entry = |v: &Made| json!({"contract": v.addr, "instantiator": PW[v.by as usize], "recipient": PR[v.to as usize]});
        let mut views: Vec<(String, Value, Vec<Value>)> = vec![];
        let sel = |f: &dyn Fn(&Made) -> bool| {
            let mut l: Vec<Value> = m.made.iter().filter(|v| f(v)).map(entry).collect();
            l.sort_by_key(|v| v["contract"].as_str().unwrap().to_string());
            l
        };
        views.push(("list_vesting_contracts".into(), json!({}), sel(&|_| true)));
        for p in 0..3u8 {
            views.push(("list_vesting_contracts_by_instantiator".into(), json!({"instantiator": PW[p as usize]}), sel(&|v| v.by == p)));
        }
        for r in 0..3u8 {
            views.push(("list_vesting_contracts_by_recipient".into(), json!({"recipient": PR[r as usize]}), sel(&|v| v.to == r)));
        }
        for (name, args, mut want) in views {
            for rev in [false, true] {
                let qn = if rev { format!("{}_reverse", name) } else { name.clone() };
                let cur = if rev { "start_before" } else { "start_after" };
                if rev {
                    want.reverse();
                }
                for limit in [None, Some(1u32), Some(2)] {
                    let mut got = vec![];
                    let mut c: Option<String> = None;
                    for _ in 0..12 {
                        let mut a = args.clone();
                        a[cur] = json!(c);
                        a["limit"] = json!(limit);
                        let page = q(json!({ &qn: a }))?.as_array().cloned().unwrap_or_default();
                        if page.is_empty() {
                            break;
                        }
                        c = page.last().unwrap()["contract"].as_str().map(|s| s.to_string());
                        got.extend(page);
                    }
                    same!(got, want, F6, "listing", "{} {} in pages of {:?}", qn, args, limit);
                }
                let mut a = args.clone();
                a[cur] = json!(null);
                a["limit"] = json!(0);
                same!(q(json!({ &qn: a }))?, json!([]), F6, "listing", "{} {} in pages of none", qn, args);
                // a cursor that is itself not an entry
                let mut a = args.clone();
                a[cur] = json!("contract10z");
                let page = q(json!({ &qn: a }))?.as_array().cloned().unwrap_or_default();
                let w2: Vec<Value> = want.iter().filter(|v| { let k = v["contract"].as_str().unwrap(); if rev { k < "contract10z" } else { k > "contract10z" } }).cloned().collect();
                same!(page, w2, F6, "listing", "{} {} from a foreign cursor", qn, args);
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------------------------------------
// F06 admin factory
// ------------------------------------------------------------------------------------------------
#[derive(Clone, Debug)]
struct AdminF {
    admin: bool,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Nest {
    /// the new contract asks the factory for another predictable one: salt, expectation
    Two(u8, Exp),
    One,
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Exp {
    No,
    Right,
    Wrong,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum AOp {
    /// by, funds, does the child's instantiation work, what it does in turn
    One(u8, u128, bool, Option<Nest>),
    /// by, funds, works, salt, expectation, nested
    Two(u8, u128, bool, u8, Exp, Option<Nest>),
}
#[derive(Clone, Hash)]
struct AM {
    /// (address, funds)
    made: Vec<(String, u128)>,
    salts: BTreeSet<u8>,
    spent: [u128; 2],
}
struct AWd {
    sim: Sim,
    fac: Addr,
    code: u64,
}
const AW: [&str; 2] = ["deployer", "somebody"];
fn salt_addr(s: u8) -> String {
    format!("contract{:02x}", 0xa0 + s)
}
impl AdminF {
    fn two_msg(w: &AWd, inner: Value, salt: u8, e: Exp) -> Value {
        let expect = match e {
            Exp::No => None,
            Exp::Right => Some(salt_addr(salt)),
            Exp::Wrong => Some("contractff".to_string()),
        };
        json!({"instantiate2_contract_with_self_admin": {"instantiate_msg": Binary(serde_json::to_vec(&inner).unwrap()), "code_id": w.code, "label": "x", "salt": Binary(vec![0xa0 + salt]), "expect": expect}})
    }
    fn one_msg(w: &AWd, inner: Value) -> Value {
        json!({"instantiate_contract_with_self_admin": {"instantiate_msg": Binary(serde_json::to_vec(&inner).unwrap()), "code_id": w.code, "label": "x"}})
    }
    fn inner(w: &AWd, ok: bool, nest: &Option<Nest>) -> Value {
        if !ok {
            return json!({"refuse": true});
        }
        match nest {
            None => json!({}),
            Some(Nest::One) => json!({"emit": [wasm_exec(&w.fac, &Self::one_msg(w, json!({})))]}),
            Some(Nest::Two(s, e)) => json!({"emit": [wasm_exec(&w.fac, &Self::two_msg(w, json!({}), *s, *e))]}),
        }
    }
}
impl Harness for AdminF {
    type World = AWd;
    type Model = AM;
    type Op = AOp;
    fn setup(&self) -> (AWd, AM) {
        let mut sim = Sim::new();
        let code = sim.store(puppet());
        let fc = sim.store(admin_factory_code());
        for p in AW {
            sim.mint(p, 100, "ux0");
        }
        let fac = sim.init(fc, "creator", &json!({"admin": if self.admin { Some(AW[0]) } else { None }}), &[], "f").unwrap();
        sim.seal();
        (AWd { sim, fac, code }, AM { made: vec![], salts: BTreeSet::new(), spent: [0; 2] })
    }
    fn sim<'a>(&self, w: &'a mut AWd) -> &'a mut Sim {
        &mut w.sim
    }
    fn ops(&self, m: &AM) -> Vec<AOp> {
        let mut v = vec![];
        if m.made.len() > 6 {
            return v;
        }
        let mut nests = vec![None, Some(Nest::One)];
        for e in [Exp::No, Exp::Right, Exp::Wrong] {
            nests.push(Some(Nest::Two(2, e)));
        }
        for by in 0..2 {
            for n in &nests {
                v.push(AOp::One(by, 0, true, n.clone()));
                for e in [Exp::No, Exp::Right, Exp::Wrong] {
                    v.push(AOp::Two(by, 0, true, 0, e, n.clone()));
                }
            }
            v.push(AOp::One(by, 7, true, None));
            v.push(AOp::One(by, 7, false, None));
            for e in [Exp::No, Exp::Right, Exp::Wrong] {
                v.push(AOp::Two(by, 7, true, 1, e, None));
                v.push(AOp::Two(by, 7, false, 1, e, None));
            }
        }
        v
    }
    fn step(&self, w: &mut AWd, m: &mut AM, op: &AOp) -> VResult<String> {
        let (by, funds, ok, nest) = match op {
            AOp::One(b, f, o, n) | AOp::Two(b, f, o, _, _, n) => (*b, *f, *o, n.clone()),
        };
        let inner = Self::inner(w, ok, &nest);
        let (msg, salt, exp) = match op {
            AOp::One(..) => (Self::one_msg(w, inner), None, Exp::No),
            AOp::Two(_, _, _, s, e, _) => (Self::two_msg(w, inner, *s, *e), Some(*s), *e),
        };
        // forbidden outcomes are certain; some nested uses may be refused for safety
        let mut must_fail = !ok || (self.admin && (by != 0 || nest.is_some())) || exp == Exp::Wrong;
        let mut may_fail = false;
        let mut salts = m.salts.clone();
        if let Some(s) = salt {
            must_fail |= !salts.insert(s);
        }
        if let Some(Nest::Two(s, e)) = &nest {
            must_fail |= *e == Exp::Wrong || !salts.insert(*s);
            may_fail = exp != Exp::No;
        }
        let fac = w.fac.clone();
        let r = w.sim.exec(AW[by as usize], &fac, &msg, &coins(funds, "ux0"));
        if r.is_ok() || !may_fail || must_fail {
            agree(F6, "create-verdict", op, &r, !must_fail)?;
        }
        if let Ok(r) = &r {
            let addrs: Vec<String> = r.events.iter().filter(|e| e.ty == "instantiate").filter_map(|e| e.attributes.iter().find(|a| a.key == "_contract_address" || a.key == "_contract_addr").map(|a| a.value.clone())).collect();
            same!(addrs.len(), 1 + nest.is_some() as usize, F6, "created", "contracts created by {:?}", op);
            if let Some(s) = salt {
                ensure!(addrs.contains(&salt_addr(s)), F6, "address", "{:?} created {:?}", op, addrs);
            }
            for (i, a) in addrs.iter().enumerate() {
                m.made.push((a.clone(), if i == 0 { funds } else { 0 }));
            }
            m.salts = salts;
            m.spent[by as usize] += funds;
        }
        Ok(lab(if salt.is_some() { "create2" } else { "create" }, r.is_ok()))
    }
    fn invariant(&self, w: &mut AWd, m: &AM) -> VResult {
        for (a, f) in &m.made {
            let i = w.sim.app.wrap().query_wasm_contract_info(a).map_err(|e| Violation::new(F6, "created", e.to_string()))?;
            same!(i.admin.as_deref(), Some(a.as_str()), F6, "self-admin", "admin of {}", a);
            same!(i.creator, w.fac.to_string(), F6, "created", "creator of {}", a);
            same!(i.code_id, w.code, F6, "created", "code of {}", a);
            same!(w.sim.bal(a, "ux0"), *f, F6, "funds", "funds of {}", a);
        }
        for s in 0..3u8 {
            let there = w.sim.app.wrap().query_wasm_contract_info(salt_addr(s)).is_ok();
            same!(there, m.salts.contains(&s), F6, "trace", "predictable contract {} exists", s);
        }
        for p in 0..2 {
            same!(w.sim.bal(AW[p], "ux0"), 100 - m.spent[p], F6, "funds", "balance of {}", AW[p]);
        }
        same!(w.sim.bal(&w.fac, "ux0"), 0, F6, "funds", "balance of the factory");
        let a: Value = w.sim.query(&w.fac, &json!({"admin": {}})).map_err(|e| Violation::new(F6, "admin", e))?;
        same!(a["admin"], json!(self.admin.then_some(AW[0])), F6, "admin", "designated caller");
        Ok(())
    }
}

// ------------------------------------------------------------------------------------------------
// F06 fan-token factory
// ------------------------------------------------------------------------------------------------
struct FanF;
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct FOp {
    /// 0, 1: voting modules of two DAOs; 2: an ordinary account; 3: a contract that is no voting module
    by: u8,
    balances: u8,
    dao: Option<u128>,
    max: u128,
}
#[derive(Clone, Hash)]
struct FM {
    made: Vec<(u8, u8, Option<u128>, u128)>,
}
struct FWd {
    sim: Sim,
    fac: Addr,
    vot: [Addr; 2],
    other: Addr,
}
const SETS: [&[(&str, u128)]; 5] = [&[], &[("ann", 5)], &[("ann", 5), ("bob", 7)], &[("ann", 5), ("ann", 2)], &[("ann", 0)]];
/// the sixth set has more initial holders than any page or batch
fn fan_set(i: u8) -> Vec<(String, u128)> {
    match SETS.get(i as usize) {
        Some(s) => s.iter().map(|(a, x)| (a.to_string(), *x)).collect(),
        None => (0..36).map(|k| (format!("holder{:02}", k), 1)).collect(),
    }
}
impl Harness for FanF {
    type World = FWd;
    type Model = FM;
    type Op = FOp;
    fn setup(&self) -> (FWd, FM) {
        let mut sim = Sim::new();
        let fc = sim.store(ft_factory_code());
        let pup = sim.store(puppet());
        let vot = [
            sim.init(pup, "creator", &json!({"q:dao": "dao0"}), &[], "v").unwrap(),
            sim.init(pup, "creator", &json!({"q:dao": "dao1"}), &[], "v").unwrap(),
        ];
        let other = sim.init(pup, "creator", &json!({}), &[], "o").unwrap();
        let fac = sim.init(fc, "creator", &json!({}), &[], "f").unwrap();
        sim.seal();
        (FWd { sim, fac, vot, other }, FM { made: vec![] })
    }
    fn sim<'a>(&self, w: &'a mut FWd) -> &'a mut Sim {
        &mut w.sim
    }
    fn ops(&self, m: &FM) -> Vec<FOp> {
        let mut v = vec![];
        if m.made.len() > 2 {
            return v;
        }
        for by in 0..4 {
            for balances in 0..SETS.len() as u8 {
                for dao in [None, Some(0), Some(3)] {
                    for max in [6, 15] {
                        v.push(FOp { by, balances, dao, max });
                    }
                }
            }
        }
        for by in 0..2 {
            for (dao, max) in [(None, 35), (None, 36), (Some(3), 38), (Some(3), 39)] {
                v.push(FOp { by, balances: SETS.len() as u8, dao, max });
            }
        }
        v
    }
    fn step(&self, w: &mut FWd, m: &mut FM, op: &FOp) -> VResult<String> {
        let by = match op.by {
            0 | 1 => w.vot[op.by as usize].to_string(),
            2 => "somebody".to_string(),
            _ => w.other.to_string(),
        };
        let set = fan_set(op.balances);
        let sum: u128 = set.iter().map(|x| x.1).sum::<u128>() + op.dao.unwrap_or(0);
        let want = op.by < 2 && sum <= op.max && set.iter().all(|x| x.1 > 0);
        let k = m.made.len();
        let msg = json!({"issue": {"symbol": format!("FAN{}", k), "name": format!("fan {}", k), "max_supply": op.max.to_string(), "uri": format!("ipfs://{}", k),
            "initial_balances": set.iter().map(|(a, x)| json!({"address": a, "amount": x.to_string()})).collect::<Vec<_>>(), "initial_dao_balance": op.dao.map(|d| d.to_string())}});
        let fac = w.fac.clone();
        let r = w.sim.exec(by, &fac, &msg, &[]);
        agree(F6, "issue-verdict", op, &r, want)?;
        if let Ok(r) = &r {
            let d = String::from_utf8_lossy(r.data.as_ref().map(|d| d.as_slice()).unwrap_or(&[])).to_string();
            ensure!(d.contains(&format!("\"denom\":\"fantoken{}\"", k + 1)), F6, "callback", "answer to the voting module: {}", d);
            m.made.push((op.by, op.balances, op.dao, op.max));
        }
        Ok(lab("issue", want))
    }
    fn invariant(&self, w: &mut FWd, m: &FM) -> VResult {
        for (k, (by, set, dao, max)) in m.made.iter().enumerate() {
            let denom = format!("fantoken{}", k + 1);
            let f = w.sim.fan(&denom).ok_or_else(|| Violation::new(F6, "fan-token", format!("{} does not exist", denom)))?;
            let d = format!("dao{}", by);
            same!(f, mc::chain::Fan { name: format!("fan {}", k), symbol: format!("FAN{}", k), max_supply: max.to_string(), authority: d.clone(), minter: d.clone(), uri: format!("ipfs://{}", k) }, F6, "fan-token", "{}", denom);
            let mut want: BTreeMap<String, u128> = BTreeMap::new();
            for (a, x) in fan_set(*set) {
                *want.entry(a).or_default() += x;
            }
            if let Some(x) = dao {
                *want.entry(d.clone()).or_default() += x;
            }
            let holders: Vec<String> = ["ann", "bob", "dao0", "dao1", "somebody"].iter().map(|s| s.to_string()).chain([w.fac.to_string(), w.vot[0].to_string(), w.vot[1].to_string()]).chain((0..36).map(|k| format!("holder{:02}", k))).collect();
            for h in &holders {
                same!(w.sim.bal(h, &denom), want.get(h).copied().unwrap_or(0), F6, "fan-balance", "{} of {}", denom, h);
            }
        }
        ensure!(w.sim.fan(&format!("fantoken{}", m.made.len() + 1)).is_none(), F6, "fan-token", "a token nobody asked for");
        Ok(())
    }
}

fn plan(prop: &str, th: bool) -> Option<PropertyPlan> {
    let mut entries = vec![];
    let dd = |q: usize, t: usize| if th { t } else { q };
    let rule;
    let assumptions;
    match prop {
        "F03" => {
            rule = "explicit-state BFS over the real escrow contract for five pairs of promised tokens (native/native, same native denom, native/cw20, two cw20s, one cw20 on both sides): every sequence of fundings in right, too small, too large, mixed, missing and foreign money by each party and an outsider, forged token notices, withdrawals and gifts up to the depth, every balance and the reported status compared with the reference after each step, and from every distinct state the exchange is completed; creation is swept over all pairs of sides, valid and invalid";
            let mk = |a: (Tok, u128), b: (Tok, u128)| Swap { promise: [a, b], churn: false };
            entries.push(Entry::new("native-native", mk((Tok::N(0), 10), (Tok::N(1), 4)), dd(9, 12)));
            entries.push(Entry::new("same-denom", mk((Tok::N(0), 10), (Tok::N(0), 4)), dd(9, 12)));
            entries.push(Entry::new("same-amount", mk((Tok::N(0), 7), (Tok::N(0), 7)), dd(9, 12)));
            entries.push(Entry::new("native-cw20", mk((Tok::N(0), 5), (Tok::C(0), 5)), dd(9, 12)));
            entries.push(Entry::new("cw20-cw20", mk((Tok::C(0), 5), (Tok::C(1), 9)), dd(9, 12)));
            entries.push(Entry::new("same-cw20", mk((Tok::C(0), 5), (Tok::C(0), 9)), dd(9, 12)));
            entries.push(Entry::new("creation", SwapCreate, 1));
            assumptions = vec!["promised cw20 contracts are honest cw20 tokens"];
        }
        "F04" => {
            rule = "explicit-state BFS over the real issuer on a stand-in token-factory chain whose bank asks the registered send hook: every sequence of grants, mints, burns, transfers, forced transfers, freezes, list edits, hook changes, metadata and admin changes and ownership handovers by owner, minter, holder and outsiders up to the depth; verdicts, every balance, supply, allowance, list page, hook and admin record compared with the reference after each step";
            let base = Issuer { existing: false, grants: true, lists: false, own: false, pre: vec![] };
            let funded = vec![IOp::Grant(0, 1, 6, true), IOp::Grant(0, 1, 3, false), IOp::Mint(1, 1, 2), IOp::Mint(1, 2, 2)];
            entries.push(Entry::new("allowances", Issuer { pre: funded.clone(), ..base.clone() }, dd(4, 5)));
            entries.push(Entry::new("fresh", base.clone(), dd(4, 5)));
            entries.push(Entry::new("existing-token", Issuer { existing: true, pre: vec![IOp::Grant(0, 1, 3, true), IOp::Grant(0, 1, 3, false)], ..base.clone() }, dd(4, 5)));
            let hooked = [funded.clone(), vec![IOp::Hook(0, ISS)]].concat();
            entries.push(Entry::new("lists", Issuer { grants: false, lists: true, pre: hooked.clone(), ..base.clone() }, dd(4, 5)));
            entries.push(Entry::new("lists-off", Issuer { grants: false, lists: true, pre: funded.clone(), ..base.clone() }, dd(4, 5)));
            entries.push(Entry::new("owners", Issuer { grants: false, own: true, pre: hooked, ..base }, dd(4, 5)));
            assumptions = vec![
                "the chain's token-factory module enforces the denom admin and asks the hook contract before every transfer except forced transfers and burns by the denom admin",
                "whether the deny list concerns other denoms whose hook points at this issuer is left open",
            ];
        }
        "F05" => {
            rule = "explicit-state BFS over the real role-NFT collection: every sequence of mints, burns, transfers, contract sends, weight, role and URI edits, approvals, subscriber changes (also refusing ones), ownership handovers and block steps by controller, holder and strangers up to the depth; weights and total now and at every past height, member pages, tokens, subscribers' notices and ownership compared with the reference after each step";
            let base = Roles { weights: vec![0, 1, 3], edits: false, own: false, hooks: false, send: true };
            entries.push(Entry::new("weights", base.clone(), dd(5, 6)));
            entries.push(Entry::new("edits", Roles { weights: vec![0, 3], edits: true, ..base.clone() }, dd(4, 6)));
            entries.push(Entry::new("subscribers", Roles { weights: vec![0, 2], hooks: true, ..base.clone() }, dd(5, 6)));
            entries.push(Entry::new("owners", Roles { weights: vec![1, 2], own: true, send: false, ..base.clone() }, dd(5, 6)));
            entries.push(Entry::new("huge", Roles { weights: vec![1, u64::MAX - 1, u64::MAX], send: false, ..base }, dd(4, 5)));
            assumptions = vec!["a change to the weight a token already has may be refused", "a member of weight zero may or may not be listed"];
        }
        "F06" => {
            rule = "explicit-state BFS over the real factories: payroll (with and without owner, native and cw20 payment that is exact, short, over, foreign or mixed, invalid schedules, forged token notices, stray tokens, code and ownership changes), every listing walked in every page size and direction and each created contract's terms, funds, admin and creator compared; admin factory (with and without designated caller, funds, failing children, expected addresses right and wrong, children that call the factory in turn); fan-token factory (two DAOs, all initial balance sets, caps, callers)";
            entries.push(Entry::new("payroll-native", Payroll { owner: true, cw20: false, own: false }, dd(4, 5)));
            entries.push(Entry::new("payroll-cw20", Payroll { owner: true, cw20: true, own: false }, dd(4, 5)));
            entries.push(Entry::new("payroll-open", Payroll { owner: false, cw20: false, own: false }, dd(3, 4)));
            entries.push(Entry::new("payroll-open-cw20", Payroll { owner: false, cw20: true, own: false }, dd(3, 4)));
            entries.push(Entry::new("payroll-owners", Payroll { owner: true, cw20: true, own: true }, dd(4, 5)));
            entries.push(Entry::new("admin", AdminF { admin: true }, dd(4, 5)));
            entries.push(Entry::new("admin-open", AdminF { admin: false }, dd(3, 4)));
            entries.push(Entry::new("fan-token", FanF, dd(2, 3)));
            assumptions = vec!["cw20 contracts that call the payroll factory are honest tokens", "the addresses of predictable creation are those of the test chain"];
        }
        _ => return None,
    }
    let _ = T0;
    Some(PropertyPlan { entries, rule, assumptions })
}
fn main() {
    run_main(plan)
}
