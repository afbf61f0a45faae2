//! Hashable deadlines and durations.
use cosmwasm_std::Timestamp;
use cw_utils::{Duration, Expiration};
use serde::{Deserialize, Serialize};

/// (height, seconds)
pub type Now = (u64, u64);
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub enum Until {
    Height(u64),
    Time(u64),
    Never,
}
impl Until {
    pub fn after(d: &Duration, now: Now) -> Until {
        match d {
            Duration::Height(n) => Until::Height(now.0 + n),
            Duration::Time(s) => Until::Time(now.1 + s),
        }
    }
    pub fn of(e: &Expiration) -> Until {
        match e {
            Expiration::AtHeight(h) => Until::Height(*h),
            Expiration::AtTime(t) => Until::Time(t.seconds()),
            Expiration::Never {} => Until::Never,
        }
    }
    pub fn expired(&self, now: Now) -> bool {
        match self {
            Until::Height(h) => now.0 >= *h,
            Until::Time(t) => now.1 >= *t,
            Until::Never => false,
        }
    }
    pub fn exp(&self) -> Expiration {
        match self {
            Until::Height(h) => Expiration::AtHeight(*h),
            Until::Time(t) => Expiration::AtTime(Timestamp::from_seconds(*t)),
            Until::Never => Expiration::Never {},
        }
    }
}
