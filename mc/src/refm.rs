//! Boring reference models over discrete logs (plain modular integers).
use crate::world::{invm, mulm};

pub fn addm(a: u64, b: u64, r: u64) -> u64 {
    ((a as u128 + b as u128) % r as u128) as u64
}
pub fn subm(a: u64, b: u64, r: u64) -> u64 {
    addm(a % r, r - b % r, r)
}
pub fn dot(a: &[u64], b: &[u64], r: u64) -> u64 {
    assert_eq!(a.len(), b.len());
    a.iter().zip(b).fold(0, |s, (x, y)| addm(s, mulm(*x, *y, r), r))
}
pub fn had(a: &[u64], b: &[u64], r: u64) -> Vec<u64> {
    a.iter().zip(b).map(|(x, y)| mulm(*x, *y, r)).collect()
}
/// lo + c * hi
pub fn fold(v: &[u64], c: u64, r: u64) -> Vec<u64> {
    let h = v.len() / 2;
    (0..h).map(|i| addm(v[i], mulm(c, v[h + i], r), r)).collect()
}
pub fn powers(x: u64, n: usize, r: u64) -> Vec<u64> {
    let mut v = vec![];
    let mut p = 1 % r;
    for _ in 0..n {
        v.push(p);
        p = mulm(p, x, r);
    }
    v
}
pub fn eval(p: &[u64], x: u64, r: u64) -> u64 {
    p.iter().rev().fold(0, |s, c| addm(mulm(s, x, r), *c, r))
}
/// p (low to high) divided by (X - z): quotient.
pub fn div_linear(p: &[u64], z: u64, r: u64) -> Vec<u64> {
    if p.is_empty() {
        return vec![];
    }
    let mut q = vec![0; p.len() - 1];
    let mut carry = 0;
    for i in (1..p.len()).rev() {
        carry = addm(p[i], mulm(carry, z, r), r);
        q[i - 1] = carry;
    }
    q
}

/// SIPP: does the statement/proof satisfy the folding equation under challenges `xs`?
pub fn sipp_accepts(a: &[u64], b: &[u64], rr: &[u64], value: u64, proof: &[(u64, u64)], xs: &[u64], r: u64) -> bool {
    let (lhs, rhs) = sipp_sides(a, b, rr, value, proof, xs, r);
    lhs == rhs
}
pub fn sipp_sides(a: &[u64], b: &[u64], rr: &[u64], value: u64, proof: &[(u64, u64)], xs: &[u64], r: u64) -> (u64, u64) {
    let mut a = had(a, rr, r);
    let mut b = b.to_vec();
    let mut z = value;
    for ((zl, zr), x) in proof.iter().zip(xs) {
        let xi = invm(*x, r);
        z = addm(z, addm(mulm(*zl, *x, r), mulm(*zr, xi, r), r), r);
        a = fold(&a, *x, r);
        b = fold(&b, xi, r);
    }
    (dot(&a, &b, r), z)
}
/// The messages an honest SIPP prover sends under challenges `xs`.
pub fn sipp_prover(a: &[u64], b: &[u64], rr: &[u64], xs: &[u64], r: u64) -> Vec<(u64, u64)> {
    let mut a = had(a, rr, r);
    let mut b = b.to_vec();
    let mut out = vec![];
    for x in xs {
        let h = a.len() / 2;
        out.push((dot(&a[h..], &b[..h], r), dot(&a[..h], &b[h..], r)));
        a = fold(&a, *x, r);
        b = fold(&b, invm(*x, r), r);
    }
    out
}
