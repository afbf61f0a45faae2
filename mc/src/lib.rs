pub mod chain;
pub mod engine;
pub mod main_util;
pub mod mocks;
pub mod sim;
pub use engine::{Bound, Checkable, Harness, VResult, Violation};
pub use sim::{coin, coins, Sim};
pub mod condorcet;
pub mod rules;
pub mod until;
pub mod own;
pub mod stake;
