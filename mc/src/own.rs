//! Reference model of two-step ownership (cw_ownable) as used across the contracts.
use crate::until::{Now, Until};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum OwnAct {
    /// offer to this actor, optionally until a height
    Offer(u8, Option<u64>),
    Accept,
    Renounce,
}
impl OwnAct {
    pub fn json(self, name: impl Fn(u8) -> String) -> Value {
        match self {
            OwnAct::Offer(to, e) => {
                json!({"update_ownership": {"transfer_ownership": {"new_owner": name(to), "expiry": e.map(|h| json!({"at_height": h}))}}})
            }
            OwnAct::Accept => json!({"update_ownership": "accept_ownership"}),
            OwnAct::Renounce => json!({"update_ownership": "renounce_ownership"}),
        }
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Own {
    pub owner: Option<u8>,
    pub pending: Option<(u8, Until)>,
}
impl Own {
    pub fn new(o: Option<u8>) -> Own {
        Own { owner: o, pending: None }
    }
    pub fn is(&self, w: u8) -> bool {
        self.owner == Some(w)
    }
    /// applies the act if it is allowed
    pub fn act(&mut self, by: u8, a: OwnAct, now: Now) -> bool {
        match a {
            OwnAct::Offer(to, e) => {
                let ok = self.is(by);
                if ok {
                    self.pending = Some((to, e.map(Until::Height).unwrap_or(Until::Never)));
                }
                ok
            }
            OwnAct::Accept => {
                let ok = matches!(self.pending, Some((p, u)) if p == by && !u.expired(now));
                if ok {
                    self.owner = Some(by);
                    self.pending = None;
                }
                ok
            }
            OwnAct::Renounce => {
                let ok = self.is(by);
                if ok {
                    self.owner = None;
                    self.pending = None;
                }
                ok
            }
        }
    }
    /// the contract's answer to the ownership query, without a stale offer's details
    pub fn matches(&self, v: &Value, name: impl Fn(u8) -> String) -> bool {
        v["owner"].as_str().map(|s| s.to_string()) == self.owner.map(&name)
            && v["pending_owner"].as_str().map(|s| s.to_string()) == self.pending.map(|p| name(p.0))
    }
}
/// the acts worth trying by these actors: (actor, act)
pub fn own_ops(o: &Own, actors: &[u8], to: u8) -> Vec<(u8, OwnAct)> {
    let mut v = vec![];
    for a in actors {
        if o.pending.is_none() || !o.is(*a) {
            v.push((*a, OwnAct::Offer(to, None)));
        }
        v.push((*a, OwnAct::Accept));
    }
    v
}
