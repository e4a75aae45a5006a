//! Linearizability checker (Wing & Gong with memoised states, Lowe).

use std::collections::HashSet;
use std::hash::{BuildHasherDefault, Hash, Hasher};

/// A cheap hasher (the interpreter is slow).
#[derive(Default)]
struct Quick(u64);
impl Hasher for Quick {
    fn finish(&self) -> u64 {
        self.0 ^ self.0 >> 29
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.write_u64(u64::from(x));
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
}

#[derive(Debug, Clone)]
pub struct Ev<O> {
    pub call: u64,
    pub ret: u64,
    pub op: O,
}

pub enum Verdict {
    Ok,
    Violation,
    Unknown,
}

/// `step` returns the next state if the operation (with its observed result) is possible in the state.
pub fn check<S, O>(init: S, evs: &[Ev<O>], step: impl Fn(&S, &O) -> Option<S>) -> Verdict
where
    S: Clone + Eq + Hash,
{
    let n = evs.len();
    assert!(n <= 64);
    let full = if n == 64 { u64::MAX } else { (1 << n) - 1 };
    let mut seen: HashSet<(u64, S), BuildHasherDefault<Quick>> = HashSet::default();
    let mut stack = vec![(0u64, init)];
    let mut budget = 2_000_000u64;
    while let Some((mask, state)) = stack.pop() {
        if mask == full {
            return Verdict::Ok;
        }
        let first_ret = (0..n).filter(|i| mask >> i & 1 == 0).map(|i| evs[i].ret).min().unwrap();
        for i in 0..n {
            if mask >> i & 1 == 1 || evs[i].call > first_ret {
                continue;
            }
            if budget == 0 {
                return Verdict::Unknown;
            }
            budget -= 1;
            if let Some(next) = step(&state, &evs[i].op) {
                let key = (mask | 1 << i, next);
                if seen.insert(key.clone()) {
                    stack.push(key);
                }
            }
        }
    }
    Verdict::Violation
}

/// How many pairs of operations overlapped.
pub fn overlaps<O>(evs: &[Ev<O>]) -> u64 {
    let mut n = 0;
    for i in 0..evs.len() {
        for j in 0..i {
            if evs[i].call < evs[j].ret && evs[j].call < evs[i].ret {
                n += 1;
            }
        }
    }
    n
}
