//! P08 settings of proposal modules, C03 creation of DAOs, V05 creation of voting modules, S02 creation of staking, reward, vesting and swap contracts.
use cosmwasm_std::{Addr, CosmosMsg, Decimal};
use mc::main_util::{run_main, Entry, PropertyPlan};
use mc::mocks::*;
use mc::sim::{coins, Sim};
use mc::{ensure, same, Harness, VResult, Violation};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

const ASSUME: [&str; 2] = [
    "the chain executes transactions atomically and in order (cw-multi-test semantics, its address validation included)",
    "contracts outside this repository are the released ones the repository depends on, or scriptable stand-ins",
];
fn dec(a: u128) -> Value {
    json!(Decimal::raw(a))
}
const ONE: u128 = 1_000_000_000_000_000_000;

include!("setup_config.inc");
include!("setup_dao.inc");
include!("setup_voting.inc");
include!("setup_terms.inc");

fn plan(prop: &str, th: bool) -> Option<PropertyPlan> {
    Some(match prop {
        "P08" => plan_config(th),
        "C03" => plan_dao(th),
        "V05" => plan_voting(th),
        "S02" => plan_terms(th),
        _ => return None,
    })
}
fn main() {
    run_main(plan)
}
