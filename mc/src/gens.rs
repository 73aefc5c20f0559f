//! Shared enumeration helpers for the protocol checks.
use crate::explore::*;

pub fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}
/// `which` in 0..n: unit vector; n: dense; n+1: zero; n+2: second dense vector.
pub fn basis(n: usize, r: u64, which: usize) -> Vec<u64> {
    if which < n {
        (0..n).map(|i| if i == which { 1 } else { 0 }).collect()
    } else if which == n {
        (0..n as u64).map(|i| (3 * i + 1) % r).collect()
    } else if which == n + 1 {
        vec![0; n]
    } else {
        (0..n as u64).map(|i| (2 * i * i + i + 2) % r).collect()
    }
}
/// Up to `n` well spread non-zero residues.
pub fn spread(r: u64, n: usize) -> Vec<u64> {
    let mut v = vec![];
    for p in [1, r - 1, r / 2, 2, r / 3 + 1, 3, r - 2, 4, 5, 6, 7, 8, 9, 10, 11, 12] {
        if p > 0 && p < r && !v.contains(&p) && v.len() < n {
            v.push(p)
        }
    }
    v
}
/// Enumerated strictly increasing tuple of `k` slots out of `n`.
pub fn choose_slots(n: usize, k: usize) -> Vec<usize> {
    let mut v = vec![];
    let mut lo = 0;
    for i in 0..k {
        let room = n - lo - (k - 1 - i);
        let s = lo + choose(room);
        v.push(s);
        lo = s + 1;
    }
    v
}
/// Distinct 61-bit values.
pub fn big(seed: u64, i: u64) -> u64 {
    use crate::world::{mulm, powm, WBig, World};
    mulm(powm(1_000_003 + seed, i + 2, WBig::R), 0x1234_5678_9abc + seed, WBig::R)
}
pub fn bigv(seed: u64, n: usize) -> Vec<u64> {
    (0..n as u64).map(|i| big(seed, i)).collect()
}
/// Number of patterns of `pattern`.
pub const PATTERNS: usize = 26;
/// Structured 61-bit vectors: dense, constant, periodic, half-empty, blocks with
/// equal ends, middles or sums, a palindrome, and every "one odd entry at a
/// boundary position" variant (the entry being 0, 1 or -1 in a dense vector, or the only non-zero).
pub fn pattern(seed: u64, n: usize, which: usize) -> Vec<u64> {
    use crate::world::{WBig, World};
    let mut v = bigv(seed, n);
    if n == 0 {
        return v;
    }
    let h = n / 2;
    match which {
        0 => {}
        1 => v = vec![0; n],
        2 => v = vec![1; n],
        3 => v = vec![v[0]; n],
        4 => v[..h].fill(0),
        5 => v[h..].fill(0),
        6 => (0..n).step_by(2).for_each(|i| v[i] = 0),
        7 => (0..h).for_each(|i| v[h + i] = v[i]),
        8 => (0..h).for_each(|i| v[h + i] = (WBig::R - v[i]) % WBig::R),
        9 => (0..n).for_each(|i| v[i] = i as u64),
        x if x < 15 => v[edge(n, x - 10)] = 0,
        x if x < 20 => {
            let (p, y) = (edge(n, x - 15), v[edge(n, x - 15)]);
            v.fill(0);
            v[p] = y
        }
        20 => v[n - 1] = 1,
        21 => v[0] = WBig::R - 1,
        // Blocks with equal ends, equal middles, equal sums; a palindrome.
        22 => (0..n).filter(|i| matches!(i % 4, 0 | 3)).for_each(|i| v[i] = 5),
        23 => (0..n).filter(|i| matches!(i % 4, 1 | 2)).for_each(|i| v[i] = 5),
        24 => (0..n).rev().for_each(|i| v[i] = v[(i + i / 4) % 4 % n]),
        _ => (0..h).for_each(|i| v[n - 1 - i] = v[i]),
    }
    v
}
/// Boundary positions 0, 1, n/2-1, n/2, n-1.
pub fn edge(n: usize, which: usize) -> usize {
    match which {
        0 => 0,
        1 => 1.min(n - 1),
        2 => (n / 2).saturating_sub(1),
        3 => n / 2,
        _ => n - 1,
    }
}
/// (i, j) with i or j zero: one of two vectors takes every pattern while the other is dense.
pub fn choose_patterns2() -> (usize, usize) {
    let i = choose(2 * PATTERNS - 1);
    if i < PATTERNS {
        (i, 0)
    } else {
        (0, i - PATTERNS + 1)
    }
}
/// Two vectors, each with every pattern, or the second equal to the first.
pub fn choose_pattern_pair(seeds: (u64, u64), n: usize) -> (Vec<u64>, Vec<u64>, String) {
    let (i, j) = (choose(PATTERNS), choose(PATTERNS + 1));
    let a = pattern(seeds.0, n, i);
    let b = if j == PATTERNS { a.clone() } else { pattern(seeds.1, n, j) };
    (a, b, if j == PATTERNS { format!("pattern {i} twice") } else { format!("patterns {i}, {j}") })
}
/// p - 1, p, p + 1 for every p.
pub fn around(ps: &[usize]) -> Vec<usize> {
    ps.iter().flat_map(|p| [p - 1, *p, p + 1]).collect()
}
