//! The voting rules, written down from the documentation, in exact integer arithmetic.
use cosmwasm_std::Uint512;
use dao_voting::threshold::{PercentageThreshold as PT, Threshold};

/// Some(b): the rule says b. None: within 1e-9 of one vote of the boundary, either is accepted.
pub fn meets(votes: u128, base: u128, pct: &PT) -> Option<bool> {
    if base == 0 {
        return Some(false);
    }
    match pct {
        PT::Majority {} => Some(Uint512::from(votes) * Uint512::from(2u8) > Uint512::from(base)),
        PT::Percent(p) => {
            let lhs = Uint512::from(votes) * Uint512::from(10u128.pow(18));
            let rhs = Uint512::from(base) * Uint512::from(p.atomics());
            if lhs >= rhs {
                Some(true)
            } else if rhs - lhs < Uint512::from(10u128.pow(9)) {
                None
            } else {
                Some(false)
            }
        }
    }
}
pub fn and(a: Option<bool>, b: Option<bool>) -> Option<bool> {
    match (a, b) {
        (Some(false), _) | (_, Some(false)) => Some(false),
        (Some(true), Some(true)) => Some(true),
        _ => None,
    }
}
/// Final verdict of a yes/no proposal.
pub fn single_rule(t: &Threshold, y: u128, n: u128, a: u128, total: u128) -> Option<bool> {
    match t {
        Threshold::AbsoluteCount { threshold } => Some(y >= threshold.u128()),
        Threshold::AbsolutePercentage { percentage } => meets(y, total - a, percentage),
        Threshold::ThresholdQuorum { threshold, quorum } => and(meets(y + n + a, total, quorum), meets(y, y + n, threshold)),
    }
}

/// Final verdict: Some(Some(i)) = choice i wins, Some(None) = rejected, None = quorum at the rounding boundary.
pub fn multi_rule(q: &PT, v: &[u128], total: u128) -> Option<Option<usize>> {
    let cast: u128 = v.iter().sum();
    let max = *v.iter().max().unwrap();
    let tops: Vec<usize> = (0..v.len()).filter(|i| v[*i] == max).collect();
    let win = if tops.len() == 1 && tops[0] != v.len() - 1 { Some(tops[0]) } else { None };
    if win.is_none() {
        return Some(None);
    }
    match meets(cast, total, q) {
        Some(true) => Some(win),
        Some(false) => Some(None),
        None => None,
    }
}
pub fn partitions(total: u128, slots: usize) -> Vec<Vec<u128>> {
    if slots == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for x in 0..=total {
        for mut r in partitions(total - x, slots - 1) {
            r.insert(0, x);
            out.push(r);
        }
    }
    out
}

/// floor(a*b/c) without overflow
pub fn muldiv(a: u128, b: u128, c: u128) -> u128 {
    use cosmwasm_std::{Uint128, Uint256};
    let x = Uint256::from(a) * Uint256::from(b) / Uint256::from(c);
    Uint128::try_from(x).expect("muldiv").u128()
}
