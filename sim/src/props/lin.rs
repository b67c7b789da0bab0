//! Is there a sequential order of a history that a model accepts?
use std::collections::BTreeSet;

pub struct Item<O> { pub inv: u64, pub resp: Option<u64>, pub op: O }

/// `step` gives the states possible after an operation with its recorded result. Operations without
/// response may have taken effect or not. Returns None if the search was given up.
pub fn linearizable<O, S: Clone + Ord>(items: &[Item<O>], init: S, mut step: impl FnMut(&S, &O, bool) -> Vec<S>, budget: usize) -> Option<bool> {
    assert!(items.len() <= 64);
    let all: u64 = items.iter().enumerate().filter(|(_, i)| i.resp.is_some()).fold(0, |m, (k, _)| m | 1 << k);
    let mut seen: BTreeSet<(u64, S)> = BTreeSet::new();
    let mut todo = vec![(0u64, init)];
    while let Some((mask, s)) = todo.pop() {
        if mask & all == all { return Some(true); }
        if !seen.insert((mask, s.clone())) { continue; }
        if seen.len() > budget { return None; }
        let first = items.iter().enumerate().filter(|(k, i)| mask >> k & 1 == 0 && i.resp.is_some()).map(|(_, i)| i.resp.unwrap()).min().unwrap();
        for (k, i) in items.iter().enumerate() {
            if mask >> k & 1 == 1 || i.inv > first { continue; }
            for n in step(&s, &i.op, i.resp.is_none()) { todo.push((mask | 1 << k, n)); }
        }
    }
    Some(false)
}
