//! C03 completeness, C04 soundness, C05 Fiat-Shamir binding of SIPP.
use ark_ec::pairing::PairingOutput;
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use ark_sipp::{rng::FiatShamirRng, Proof, SIPP};
use ark_std::rand::RngCore;
use mc::{explore::*, gens::{choose_pattern_pair, choose_patterns2, edge, pattern, PATTERNS}, oracle::*, refm::*, world::*};

type S<W> = SIPP<W, CD>;

#[derive(Clone, Debug, PartialEq)]
struct St {
    a: Vec<u64>,
    b: Vec<u64>,
    r: Vec<u64>,
    v: u64,
}
impl St {
    fn truth(&self, m: u64) -> u64 {
        dot(&had(&self.a, &self.r[..self.a.len()], m), &self.b, m)
    }
    fn words(&self) -> Vec<u64> {
        [self.a.clone(), vec![77], self.b.clone(), vec![77], self.r.clone(), vec![self.v]].concat()
    }
}
fn a1<W: World>(v: &[u64]) -> Vec<W::G1Affine> {
    v.iter().map(|x| W::a1(*x)).collect()
}
fn a2<W: World>(v: &[u64]) -> Vec<W::G2Affine> {
    v.iter().map(|x| W::a2(*x)).collect()
}
fn fs<W: World>(v: &[u64]) -> Vec<W::ScalarField> {
    v.iter().map(|x| W::f(*x)).collect()
}
fn mk<W: World>(p: &[(u64, u64)]) -> Proof<W> {
    let v: Vec<(PairingOutput<W>, PairingOutput<W>)> = p.iter().map(|(x, y)| (W::gtv(*x), W::gtv(*y))).collect();
    let mut b = vec![];
    v.serialize_uncompressed(&mut b).unwrap();
    Proof::<W>::deserialize_uncompressed_unchecked(&b[..]).expect("proof layout")
}
fn elems<W: World>(p: &Proof<W>) -> Vec<(PairingOutput<W>, PairingOutput<W>)> {
    let mut b = vec![];
    p.serialize_uncompressed(&mut b).unwrap();
    Vec::<(PairingOutput<W>, PairingOutput<W>)>::deserialize_uncompressed_unchecked(&b[..]).expect("proof layout")
}
fn prove<W: World>(s: &St) -> Result<Proof<W>, String> {
    S::<W>::prove(&a1::<W>(&s.a), &a2::<W>(&s.b), &fs::<W>(&s.r), W::gtv(s.v)).map_err(|_| "prove failed".to_string())
}
/// Verdict of the real verifier and the challenges it drew.
fn verify<W: World>(s: &St, p: &Proof<W>) -> (Result<bool, String>, Vec<u64>) {
    let m = mark();
    let v = guard(|| S::<W>::verify(&a1::<W>(&s.a), &a2::<W>(&s.b), &fs::<W>(&s.r), W::gtv(s.v), p));
    let xs: Vec<u64> = bytes_since(m).iter().map(|b| (chacha_u128(*b) % W::R as u128) as u64).collect();
    let k = s.a.len().trailing_zeros() as usize;
    let xs = if xs.len() >= k { xs[xs.len() - k..].to_vec() } else { vec![] };
    let v = match v {
        Ok(Ok(b)) => Ok(b),
        Ok(Err(())) => Ok(false),
        Err(p) => Err(p),
    };
    (v, xs)
}
fn honest_ok<W: World>(s: &St) -> Outcome {
    let z = ark_sipp::product_of_pairings_with_coeffs::<W>(&a1::<W>(&s.a), &a2::<W>(&s.b), &fs::<W>(&s.r));
    if z != W::gtv(s.v) {
        return Err(format!("inner pairing product of {s:?} computed wrongly"));
    }
    let p = prove::<W>(s)?;
    match verify::<W>(s, &p) {
        (Ok(true), xs) => {
            observe_u64s(&xs);
            tally("accepted");
            let w: Vec<_> = sipp_prover(&s.a, &s.b, &s.r[..s.a.len()], &xs, W::R).iter().map(|(x, y)| (W::gtv(*x), W::gtv(*y))).collect();
            if w == elems::<W>(&p) {
                validated();
            }
            Ok(())
        }
        (v, xs) => Err(format!("honest proof for {s:?} not accepted: {v:?}, challenges {xs:?}")),
    }
}
fn sound<W: World>(s: &St, p: &[(u64, u64)]) -> Result<bool, String> {
    let (v, xs) = verify::<W>(s, &mk::<W>(p));
    observe_u64s(&xs);
    let acc = match v {
        Ok(b) => b,
        Err(_) => {
            tally("refused-by-panic");
            return Ok(false);
        }
    };
    let want = xs.len() == p.len() && sipp_accepts(&s.a, &s.b, &s.r[..s.a.len()], s.v, p, &xs, W::R);
    if acc && !want {
        return Err(format!("verifier accepts {s:?} with proof {p:?} although the folding equation fails under challenges {xs:?}"));
    }
    if acc == want {
        validated();
    }
    tally(if acc { "accepted" } else { "rejected" });
    Ok(acc)
}
fn basis(n: usize, r: u64, which: usize) -> Vec<u64> {
    // 0..n unit vectors, n = dense, n+1 = zero
    if which < n {
        (0..n).map(|i| if i == which { 1 } else { 0 }).collect()
    } else if which == n {
        (0..n as u64).map(|i| (3 * i + 1) % r).collect()
    } else {
        vec![0; n]
    }
}
fn unzero<const N: usize>(r: u64) -> Vec<u64> {
    let mut v: Vec<u64> = (1..r).collect();
    if N > 0 {
        // spread: smallest, largest, middle
        let pick = [1, r - 1, r / 2, 2, r / 3 + 1];
        v = vec![];
        for p in pick {
            if p > 0 && p < r && !v.contains(&p) && v.len() < N {
                v.push(p)
            }
        }
    }
    v
}

fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}

fn complete_all<W: World>(c: &mut Checker, n: usize, vals: &[u64]) {
    let r = W::R;
    c.scenario(
        Scenario {
            name: leak(format!("all-statements-{}-n{n}", W::NAME)),
            bounds: leak(format!("every a, b, coefficient vector over F_{r} of length {n}; every challenge sequence over {vals:?}")),
            dev: 0,
            oracle: chacha_cfg(r, vals),
            require: &["accepted"],
        },
        move || {
            let (a, b, rr) = (choose_vec(n, r), choose_vec(n, r), choose_vec(n, r));
            let mut s = St { a, b, r: rr, v: 0 };
            s.v = s.truth(r);
            observe_u64s(&s.words());
            honest_ok::<W>(&s)
        },
    );
}
fn complete_basis<W: World>(c: &mut Checker, n: usize, vals: Vec<u64>, threads: &'static [usize]) {
    let r = W::R;
    c.scenario(
        Scenario {
            name: leak(format!("basis-{}-n{n}", W::NAME)),
            bounds: leak(format!("all pairs of unit/dense/zero vectors of length {n} over F_{r}, coefficient vector unit/dense/zero/ones or one longer than needed; challenges {vals:?}; pools {threads:?}")),
            dev: 0,
            oracle: chacha_cfg(r, &vals),
            require: &["accepted"],
        },
        move || {
            rayon_core::mc::set_threads(choose_in(threads));
            let a = basis(n, r, choose(n + 2));
            let b = basis(n, r, choose(n + 2));
            let rr = match choose(5) {
                0 => vec![1; n],
                1 => (0..n as u64).map(|i| (2 * i + 3) % r).collect(),
                2 => vec![0; n],
                3 => (0..n as u64 + 1).map(|i| (5 * i + 1) % r).collect(),
                _ => basis(n, r, n - 1),
            };
            let mut s = St { a, b, r: rr, v: 0 };
            s.v = s.truth(r);
            observe_u64s(&s.words());
            honest_ok::<W>(&s)
        },
    );
}
/// Long honest runs in the 61-bit world.
fn complete_long(c: &mut Checker) {
    let top = if c.thorough { 14 } else { 12 };
    let pat = if c.thorough { 1024 } else { 128 };
    c.scenario(
        Scenario {
            name: "long-61bit",
            bounds: leak(format!("lengths 2, 4, .. 2^{top}, pools 1,3,8; a, b and coefficients dense, or (up to length {pat}) one of them each of {PATTERNS} patterns, all three the same pattern, coefficients one longer")),
            dev: 0,
            oracle: OracleCfg::Real,
            require: &["accepted"],
        },
        move || {
            let n = 2usize << choose(top);
            rayon_core::mc::set_threads(choose_in(&[1usize, 3, 8]));
            let (mut i, mut j, mut k) = (0, 0, 0);
            if n <= pat {
                match choose(4) {
                    0 => (i, j) = choose_patterns2(),
                    1 => k = choose(PATTERNS),
                    2 => {
                        i = choose(PATTERNS);
                        (j, k) = (i, i)
                    }
                    _ => {}
                }
            }
            let mut s = St { a: pattern(1, n, i), b: pattern(2, n, j), r: pattern(3, n, k), v: 0 };
            if choose(2) == 1 {
                s.r.push(77);
            }
            s.v = s.truth(W::R);
            note(|| format!("length {n}, patterns {i} {j} {k}"));
            observe_u64s(&[n as u64, i as u64, j as u64, k as u64]);
            honest_ok::<W>(&s).map_err(|e| format!("length {n}, patterns {i} {j} {k}: {}", e.chars().take(300).collect::<String>()))
        },
    );
    let lens: &[usize] = if c.thorough { &[2, 4, 8, 16, 32] } else { &[2, 4, 8, 16] };
    c.scenario(
        Scenario {
            name: "pattern-pairs-61bit",
            bounds: leak(format!("lengths {lens:?}: a and b, a and coefficients, or b and coefficients each of {PATTERNS} patterns, every pair, and equal ones")),
            dev: 0,
            oracle: OracleCfg::Real,
            require: &["accepted"],
        },
        move || {
            let n = choose_in(lens);
            rayon_core::mc::set_threads(3);
            let mut s = St { a: pattern(1, n, 0), b: pattern(2, n, 0), r: pattern(3, n, 0), v: 0 };
            let w = choose(3);
            let (x, y, what) = choose_pattern_pair((1, 2), n);
            match w {
                0 => (s.a, s.b) = (x, y),
                1 => (s.a, s.r) = (x, y),
                _ => (s.b, s.r) = (x, y),
            }
            s.v = s.truth(W::R);
            observe_u64s(&s.words());
            honest_ok::<W>(&s).map_err(|e| format!("length {n}, {what}, pair {w}: {}", e.chars().take(300).collect::<String>()))
        },
    );
}
/// Long runs with one thing wrong.
fn sound_long(c: &mut Checker) {
    let top = if c.thorough { 13 } else { 9 };
    c.scenario(
        Scenario {
            name: "long-tampered-61bit",
            bounds: leak(format!("lengths 2, 4, .. 2^{top}, dense vectors, half-empty and constant ones: claimed value and every round message changed by +1, -1, doubled, zeroed; entries of the statement at the boundary positions changed; honest prover on a wrong value; value right but two statement entries exchanged")),
            dev: 0,
            oracle: OracleCfg::Real,
            require: &["rejected"],
        },
        move || {
            let n = 2usize << choose(top);
            rayon_core::mc::set_threads(choose_in(&[1usize, 8]));
            let pat = [0, 4, 5, 3][choose(4)];
            let mut s = St { a: pattern(1, n, pat), b: pattern(2, n, 0), r: pattern(3, n, 0), v: 0 };
            s.v = s.truth(W::R);
            let change = |x: &mut u64, how: usize| {
                *x = match how {
                    0 => addm(*x, 1, W::R),
                    1 => subm(*x, 1, W::R),
                    2 => addm(*x, *x, W::R),
                    _ => 0,
                }
            };
            let rounds = n.trailing_zeros() as usize;
            let kind = choose(3);
            if kind == 0 {
                let how = choose(4);
                change(&mut s.v, how);
            }
            let pr = prove::<W>(&s)?;
            let (_, xs) = verify::<W>(&s, &pr);
            let mut p = sipp_prover(&s.a, &s.b, &s.r, &xs, W::R);
            if mk_elems(&p) != elems::<W>(&pr) {
                return Err(format!("the prover's cross terms are not those determined by the hashed challenges (n={n})"));
            }
            match kind {
                0 => {}
                1 => {
                    let i = choose(2 * rounds);
                    let how = choose(4);
                    let e = &mut p[i / 2];
                    change(if i % 2 == 0 { &mut e.0 } else { &mut e.1 }, how);
                }
                _ => {
                    let v = match choose(3) {
                        0 => &mut s.a,
                        1 => &mut s.b,
                        _ => &mut s.r,
                    };
                    let i = edge(n, choose(5));
                    match choose(5) {
                        4 => v.swap(i, (i + 1) % n),
                        how => change(&mut v[i], how),
                    }
                }
            }
            observe_u64s(&[n as u64, pat as u64, kind as u64, s.v]);
            let honest = s.v == s.truth(W::R) && kind == 0;
            match sound::<W>(&s, &p) {
                Ok(true) if !honest && s.v != s.truth(W::R) => Err(format!("length {n}: accepted for a wrong value")),
                Ok(_) => Ok(()),
                Err(e) => Err(format!("length {n}, pattern {pat}: {}", e.chars().take(300).collect::<String>())),
            }
        },
    );
}
fn c03(c: &mut Checker) {
    let th = c.thorough;
    complete_long(c);
    complete_all::<W3>(c, 2, &unzero::<0>(3));
    complete_all::<W5>(c, 2, &unzero::<0>(5));
    complete_all::<W3>(c, 4, if th { &[1, 2] } else { &[2] });
    if th {
        complete_all::<W7>(c, 2, &unzero::<3>(7));
    }
    complete_basis::<W7>(c, 2, unzero::<0>(7), &[1, 2, 3, 8]);
    complete_basis::<W5>(c, 4, unzero::<0>(5), &[1, 3, 8]);
    complete_basis::<W11>(c, 4, if th { unzero::<0>(11) } else { unzero::<3>(11) }, &[4]);
    complete_basis::<W5>(c, 8, if th { unzero::<0>(5) } else { unzero::<2>(5) }, &[1, 3]);
    complete_basis::<W13>(c, 16, unzero::<2>(13), if th { &[1, 4, 7] } else { &[4] });
    if th {
        complete_basis::<W13>(c, 32, unzero::<2>(13), &[4]);
    }
}

fn adversarial<W: World>(c: &mut Checker, name: &'static str, bounds: &'static str, vals: &[u64], full: bool) {
    let r = W::R;
    c.scenario(
        Scenario { name, bounds, dev: 0, oracle: chacha_cfg(r, vals), require: &["accepted", "rejected"] },
        move || {
            let (a, b, rr) = if full {
                (choose_vec(2, r), choose_vec(2, r), choose_vec(2, r))
            } else {
                (basis(2, r, choose(4)), basis(2, r, choose(4)), basis(2, r, 1 + choose(2)))
            };
            let s = St { a, b, r: rr, v: choose(r as usize) as u64 };
            let p = vec![(choose(r as usize) as u64, choose(r as usize) as u64)];
            observe_u64s(&s.words());
            sound::<W>(&s, &p).map(|_| ())
        },
    );
}
/// Honest proof, then every change of one (or two) components of statement or proof.
fn tampered<W: World>(c: &mut Checker, n: usize, vals: Vec<u64>, two: bool) {
    let r = W::R;
    c.scenario(
        Scenario {
            name: leak(format!("tampered-{}-n{n}{}", W::NAME, if two { "-double" } else { "" })),
            bounds: leak(format!("honest proofs of length {n} over F_{r} (dense, unit and zero vectors); every change of {} component(s) of the claimed value, proof or statement to every other value; challenges {vals:?}", if two { "two" } else { "one" })),
            dev: 0,
            oracle: chacha_cfg(r, &vals),
            require: if n == 2 { &["rejected", "accepted"] } else { &["rejected"] },
        },
        move || {
            let a = basis(n, r, n - 1 + choose(3));
            let b = basis(n, r, n - choose(2));
            let rr = basis(n, r, n);
            let mut s = St { a, b, r: rr, v: 0 };
            s.v = s.truth(r);
            observe_u64s(&s.words());
            let pr = prove::<W>(&s)?;
            let mut p: Vec<(u64, u64)> = elems::<W>(&pr).iter().map(|(x, y)| Some((W::dt(x)?, W::dt(y)?))).collect::<Option<_>>().ok_or("proof element outside the target group")?;
            let k = p.len();
            let slots = 1 + 2 * k + 3 * n;
            let mut last = 0;
            for step in 0..(1 + two as usize) {
                let slot = last + choose(slots - last - (two as usize - step.min(two as usize)).min(slots - last - 1));
                let d = 1 + choose(r as usize - 1) as u64;
                let add = |x: &mut u64| *x = (*x + d) % r;
                match slot {
                    0 => add(&mut s.v),
                    i if i <= 2 * k => {
                        let e = &mut p[(i - 1) / 2];
                        add(if i % 2 == 1 { &mut e.0 } else { &mut e.1 })
                    }
                    i => {
                        let j = i - 1 - 2 * k;
                        let v = match j / n {
                            0 => &mut s.a,
                            1 => &mut s.b,
                            _ => &mut s.r,
                        };
                        add(&mut v[j % n])
                    }
                }
                last = (slot + 1).min(slots - 1);
            }
            observe_u64s(&s.words());
            sound::<W>(&s, &p).map(|_| ())
        },
    );
}
/// A prover run honestly on a wrong claimed value: never accepted, whatever the challenges.
fn wrong_value<W: World>(c: &mut Checker, n: usize, vals: Vec<u64>, full: bool) {
    let r = W::R;
    c.scenario(
        Scenario {
            name: leak(format!("wrong-value-{}-n{n}", W::NAME)),
            bounds: leak(format!("prover and verifier given every wrong value, {} statements of length {n} over F_{r}; challenges {vals:?}", if full { "all" } else { "unit/dense/zero" })),
            dev: 0,
            oracle: chacha_cfg(r, &vals),
            require: &["rejected"],
        },
        move || {
            let (a, b, rr) = if full {
                (choose_vec(n, r), choose_vec(n, r), choose_vec(n, r))
            } else {
                (basis(n, r, choose(n + 2)), basis(n, r, choose(n + 2)), basis(n, r, n))
            };
            let mut s = St { a, b, r: rr, v: 0 };
            let d = 1 + choose(r as usize - 1) as u64;
            s.v = (s.truth(r) + d) % r;
            observe_u64s(&s.words());
            let p = match guard(|| prove::<W>(&s)) {
                Ok(Ok(p)) => p,
                _ => {
                    tally("rejected");
                    return Ok(());
                }
            };
            match verify::<W>(&s, &p) {
                (Ok(true), xs) => Err(format!("honestly generated proof accepted for the wrong value in {s:?}, challenges {xs:?}")),
                _ => {
                    tally("rejected");
                    Ok(())
                }
            }
        },
    );
}
fn wrong_length<W: World>(c: &mut Checker) {
    let r = W::R;
    c.scenario(
        Scenario {
            name: "wrong-length",
            bounds: "vectors of length 2, 4, 8; honest proof with rounds removed, repeated or added (zero elements), and the all-zero statement; vectors of different or unsupported lengths",
            dev: 0,
            oracle: chacha_cfg(r, &unzero::<2>(r)),
            require: &["refused"],
        },
        move || {
            let n = 2 << choose(3);
            let mut s = St { a: basis(n, r, n + choose(2)), b: basis(n, r, n), r: vec![1; n], v: 0 };
            s.v = s.truth(r);
            let pr = prove::<W>(&s)?;
            let mut p: Vec<(u64, u64)> = elems::<W>(&pr).iter().map(|(x, y)| (W::dt(x).unwrap(), W::dt(y).unwrap())).collect();
            match choose(6) {
                0 => p.truncate(p.len() - 1),
                1 => p.clear(),
                2 => p.push((0, 0)),
                3 => p.insert(0, (0, 0)),
                4 => {
                    let x = p[0];
                    p.push(x)
                }
                _ => {
                    // statement longer than its proof
                    s.a.extend(vec![0; n]);
                    s.b.extend(vec![0; n]);
                    s.r.extend(vec![0; n]);
                }
            }
            match verify::<W>(&s, &mk::<W>(&p)) {
                (Ok(true), _) => Err(format!("proof with {} rounds accepted for vectors of length {}: {s:?} {p:?}", p.len(), s.a.len())),
                _ => {
                    tally("refused");
                    Ok(())
                }
            }
        },
    );
}
fn c04(c: &mut Checker) {
    let th = c.thorough;
    adversarial::<W3>(c, "all-proofs-F3", "every statement, claimed value and proof over F_3 of length 2, every challenge sequence", &[1, 2], true);
    adversarial::<W5>(c, "all-proofs-F5", "unit/dense/zero statements over F_5 of length 2, every claimed value and proof, every challenge sequence", &unzero::<0>(5), false);
    if th {
        adversarial::<W5>(c, "all-proofs-F5-full", "every statement, claimed value and proof over F_5 of length 2, challenges {1,4}", &[1, 4], true);
        adversarial::<W7>(c, "all-proofs-F7", "unit/dense/zero statements over F_7 of length 2, every claimed value and proof, every challenge sequence", &unzero::<0>(7), false);
    }
    tampered::<W3>(c, 2, unzero::<0>(3), true);
    tampered::<W7>(c, 2, unzero::<3>(7), false);
    tampered::<W5>(c, 4, if th { unzero::<3>(5) } else { unzero::<2>(5) }, false);
    tampered::<W5>(c, 8, vec![2, 3], false);
    if th {
        tampered::<W5>(c, 2, unzero::<0>(5), true);
        tampered::<W3>(c, 4, unzero::<0>(3), true);
    }
    wrong_value::<W3>(c, 2, unzero::<0>(3), true);
    wrong_value::<W7>(c, 4, if th { unzero::<4>(7) } else { unzero::<2>(7) }, false);
    wrong_value::<W5>(c, 8, vec![2, 3], false);
    wrong_length::<W5>(c);
    sound_long(c);
}

// ---------------------------------------------------------------- C05

fn dense_st(n: usize, salt: u64) -> St {
    let r = WBig::R;
    let g = |s: u64| -> Vec<u64> { (0..n as u64).map(|i| mulm(powm(1_000_003 + s, i + 2 + salt, r), 0x1234_5678_9abc + s, r)).collect() };
    let mut s = St { a: g(1), b: g(2), r: g(3), v: 0 };
    s.v = s.truth(r);
    s
}
fn slots(n: usize) -> usize {
    3 * n + 1 + 2 * n.trailing_zeros() as usize
}
fn slot_name(n: usize, i: usize) -> String {
    if i < n {
        format!("a[{i}]")
    } else if i < 2 * n {
        format!("b[{}]", i - n)
    } else if i < 3 * n {
        format!("r[{}]", i - 2 * n)
    } else if i == 3 * n {
        "claimed value".into()
    } else {
        let j = i - 3 * n - 1;
        format!("round {} {}", j / 2, if j % 2 == 0 { "z_l" } else { "z_r" })
    }
}
fn slot<'a>(s: &'a mut St, p: &'a mut [(u64, u64)], i: usize) -> &'a mut u64 {
    let n = s.a.len();
    if i < n {
        &mut s.a[i]
    } else if i < 2 * n {
        &mut s.b[i - n]
    } else if i < 3 * n {
        &mut s.r[i - 2 * n]
    } else if i == 3 * n {
        &mut s.v
    } else {
        let j = i - 3 * n - 1;
        if j % 2 == 0 {
            &mut p[j / 2].0
        } else {
            &mut p[j / 2].1
        }
    }
}
type W = WBig;

fn c05(c: &mut Checker) {
    let th = c.thorough;
    let sizes: &'static [usize] = if th { &[2, 4, 8, 16, 32, 64, 128, 256] } else { &[2, 4, 8, 16, 32, 64] };
    // 1. every component of the statement and every earlier message reaches each hash call
    c.scenario(
        Scenario {
            name: "query-dependence",
            bounds: "n in {2..64} (thorough to 256); every component of statement and proof changed by +1, negated and zeroed; verifier's hash calls compared with the unchanged run; 61-bit group, Blake2s",
            dev: 0,
            oracle: OracleCfg::Real,
            require: &["changed"],
        },
        move || {
            let n = choose_in(sizes);
            let mut s = dense_st(n, choose(2) as u64);
            let pr = prove::<W>(&s)?;
            let m = mark();
            if !matches!(verify::<W>(&s, &pr).0, Ok(true)) {
                return Err("honest proof rejected".into());
            }
            let base = queries_since(m);
            let (_, xs) = verify::<W>(&s, &pr);
            let mut p = sipp_prover(&s.a, &s.b, &s.r, &xs, W::R);
            if mk_elems(&p) != elems::<W>(&pr) {
                return Err(format!("the prover's cross terms are not those determined by the hashed challenges (n={n})"));
            }
            validated();
            let i = choose(slots(n));
            let how = choose(3);
            let x = slot(&mut s, &mut p, i);
            let old = *x;
            *x = match how {
                0 => addm(old, 1, W::R),
                1 => subm(0, old, W::R),
                _ => 0,
            };
            if *x == old {
                return excluded();
            }
            let m = mark();
            let (v, xs2) = verify::<W>(&s, &mk::<W>(&p));
            let now = queries_since(m);
            let k = if i > 3 * n { (i - 3 * n - 1) / 2 } else { 0 };
            // rounds before k may repeat, and so may the hash of the statement if the change is later
            let allowed = if i > 3 * n { 1 + k } else { 0 };
            let shared = now.iter().filter(|q| base.contains(q)).count();
            observe_u64s(&[n as u64, i as u64, how as u64, shared as u64]);
            if shared > allowed {
                return Err(format!("changing {} of a length-{n} statement leaves {shared} hash inputs unchanged, at most {allowed} may stay", slot_name(n, i)));
            }
            let same = xs2.iter().zip(&xs).filter(|(a, b)| a == b).count();
            if same > k {
                return Err(format!("changing {} leaves {same} challenges unchanged, at most {k} may stay", slot_name(n, i)));
            }
            if matches!(v, Ok(true)) {
                return Err(format!("verifier accepts after changing {}", slot_name(n, i)));
            }
            tally("changed");
            Ok(())
        },
    );
    // 2. the same seen from the prover: later messages move when the claimed value or coefficients do
    c.scenario(
        Scenario {
            name: "prover-dependence",
            bounds: "n in {4..64} (thorough to 256): a statement component that does not enter the first cross terms' value (claimed value) or is changed together with them must move every later cross term",
            dev: 0,
            oracle: OracleCfg::Real,
            require: &["changed"],
        },
        move || {
            let n = choose_in(&sizes[1..]);
            let s = dense_st(n, 0);
            let mut s2 = s.clone();
            s2.v = addm(s2.v, 1 + choose(5) as u64, W::R);
            let (p, p2) = (elems::<W>(&prove::<W>(&s)?), elems::<W>(&prove::<W>(&s2)?));
            if p[0] != p2[0] {
                return Err("first cross terms depend on the claimed value".into());
            }
            for k in 1..p.len() {
                if p[k].0 == p2[k].0 || p[k].1 == p2[k].1 {
                    return Err(format!("cross terms of round {k} do not depend on the claimed value: prover's challenge ignores it"));
                }
            }
            tally("changed");
            Ok(())
        },
    );
    // 3. adversary: fix everything but one linear slot, learn the challenges, solve for the slot
    c.scenario(
        Scenario {
            name: "forging-game",
            bounds: "n in {2..64} (thorough to 256), arbitrary proof messages, every component in turn chosen after the challenges were learnt; two rounds of adaptation; 61-bit group, Blake2s",
            dev: 0,
            oracle: OracleCfg::Real,
            require: &["rejected"],
        },
        move || {
            let n = choose_in(sizes);
            let k = n.trailing_zeros() as usize;
            let mut s = dense_st(n, choose(2) as u64);
            s.v = addm(s.v, 12345, W::R);
            let mut p: Vec<(u64, u64)> = (0..k as u64).map(|i| (powm(77, 3 + i, W::R), powm(99, 5 + i, W::R))).collect();
            let i = choose(slots(n));
            for _ in 0..2 {
                let (v, xs) = verify::<W>(&s, &mk::<W>(&p));
                if matches!(v, Ok(true)) {
                    return Err(format!("forged: arbitrary proof accepted for {s:?}"));
                }
                // the equation is linear in the slot: interpolate from two evaluations
                let mut f = |x: u64| {
                    let (mut s2, mut p2) = (s.clone(), p.clone());
                    *slot(&mut s2, &mut p2, i) = x;
                    let (l, r) = sipp_sides(&s2.a, &s2.b, &s2.r, s2.v, &p2, &xs, W::R);
                    subm(l, r, W::R)
                };
                let (f0, f1) = (f(0), f(1));
                let slope = subm(f1, f0, W::R);
                if slope == 0 {
                    return excluded();
                }
                let x = mulm(subm(0, f0, W::R), invm(slope, W::R), W::R);
                if f(x) != 0 {
                    return Err("model: interpolation failed".into());
                }
                *slot(&mut s, &mut p, i) = x;
                observe_u64s(&[n as u64, i as u64, x]);
            }
            match verify::<W>(&s, &mk::<W>(&p)).0 {
                Ok(true) => Err(format!("forged: {} chosen after the challenges were known makes an arbitrary proof accepted (n={n})", slot_name(n, i))),
                _ => {
                    tally("rejected");
                    validated();
                    Ok(())
                }
            }
        },
    );
    c.scenario(
        Scenario {
            name: "forging-game-once",
            bounds: "as forging-game, with a single adaptation step",
            dev: 0,
            oracle: OracleCfg::Real,
            require: &["rejected"],
        },
        move || {
            let n = choose_in(sizes);
            let k = n.trailing_zeros() as usize;
            let mut s = dense_st(n, 3);
            s.v = addm(s.v, 999, W::R);
            let mut p: Vec<(u64, u64)> = (0..k as u64).map(|i| (powm(7, 3 + i, W::R), powm(9, 5 + i, W::R))).collect();
            let i = choose(slots(n));
            let (_, xs) = verify::<W>(&s, &mk::<W>(&p));
            let f = |x: u64, s: &St, p: &[(u64, u64)]| {
                let (mut s2, mut p2) = (s.clone(), p.to_vec());
                *slot(&mut s2, &mut p2, i) = x;
                let (l, r) = sipp_sides(&s2.a, &s2.b, &s2.r, s2.v, &p2, &xs, W::R);
                subm(l, r, W::R)
            };
            let f0 = f(0, &s, &p);
            let slope = subm(f(1, &s, &p), f0, W::R);
            if slope == 0 {
                return excluded();
            }
            *slot(&mut s, &mut p, i) = mulm(subm(0, f0, W::R), invm(slope, W::R), W::R);
            observe_u64s(&[n as u64, i as u64]);
            match verify::<W>(&s, &mk::<W>(&p)).0 {
                Ok(true) => Err(format!("forged: {} chosen after the challenges were known makes an arbitrary proof accepted (n={n})", slot_name(n, i))),
                _ => {
                    tally("rejected");
                    validated();
                    Ok(())
                }
            }
        },
    );
    // 4. the generator: all histories up to a depth
    let msgs: &'static [&'static [u8]] = &[b"", b"\0", b"\x01", b"\0\0", b"\0\x01", b"\x01\0", &[7u8; 32], &[7u8; 33], &[7u8; 64], &[7u8; 65]];
    let depth = if th { 5 } else { 4 };
    let seen = std::sync::Mutex::new(std::collections::HashMap::<Vec<u8>, Vec<usize>>::new());
    let seen_ref = &seen;
    c.scenario(
        Scenario {
            name: "generator-histories",
            bounds: "all histories of a seed and up to 4 (thorough 5) absorbed messages over 10 messages (lengths 0..65), every kind of draw before each absorb; outputs of different histories pairwise different, of equal histories equal",
            dev: 1,
            oracle: OracleCfg::Real,
            require: &["history"],
        },
        move || {
            let len = 1 + choose(depth + 1);
            let h: Vec<usize> = (0..len).map(|_| choose(msgs.len())).collect();
            let run = |draws: bool| {
                let mut g = FiatShamirRng::<CD>::from_seed(msgs[h[0]]);
                for &i in &h[1..] {
                    if draws {
                        let mut b = [0u8; 5];
                        match i % 4 {
                            0 => drop(g.next_u32()),
                            1 => drop(g.next_u64()),
                            2 => g.fill_bytes(&mut b),
                            _ => g.try_fill_bytes(&mut b).unwrap(),
                        }
                    }
                    g.absorb(msgs[i]);
                }
                let mut out = vec![0u8; 48];
                g.fill_bytes(&mut out);
                out
            };
            let out = run(false);
            if out != run(false) || run(true) != run(true) {
                return Err(format!("history {h:?}: equal histories give different output"));
            }
            let mut g = FiatShamirRng::<CD>::from_seed(msgs[h[0]]);
            for &i in &h[1..] {
                g.absorb(msgs[i]);
            }
            if g.next_u64().to_le_bytes() != out[..8] || g.next_u32().to_le_bytes() != out[8..12] {
                return Err(format!("history {h:?}: kinds of draw disagree"));
            }
            let mut t = seen_ref.lock().unwrap();
            for w in [&out[..16], &out[16..32]] {
                if let Some(o) = t.insert(w.to_vec(), h.clone()) {
                    if o != h {
                        return Err(format!("histories {o:?} and {h:?} (indices of messages) give the same output"));
                    }
                }
            }
            observe(&out);
            tally("history");
            Ok(())
        },
    );
    let seen2 = std::sync::Mutex::new(std::collections::HashMap::<Vec<u8>, (usize, usize, usize, u8)>::new());
    let seen2 = &seen2;
    c.scenario(
        Scenario {
            name: "generator-every-byte",
            bounds: "seed and absorbed messages of every length 1..=130, every byte position changed; outputs pairwise different",
            dev: 0,
            oracle: OracleCfg::Real,
            require: &["history"],
        },
        move || {
            let kind = choose(2);
            let len = 1 + choose(130);
            let pos = choose(len + 1);
            let mut m = vec![3u8; len];
            if pos < len {
                m[pos] ^= 0x80;
            }
            let mut g = if kind == 0 {
                FiatShamirRng::<CD>::from_seed(&m)
            } else {
                let mut g = FiatShamirRng::<CD>::from_seed(b"s");
                g.absorb(&m);
                g
            };
            if len % 2 == 1 {
                g.absorb(b"t")
            }
            let mut out = vec![0u8; 16];
            g.fill_bytes(&mut out);
            let key = (kind, len, pos, 0);
            if let Some(o) = seen2.lock().unwrap().insert(out.clone(), key) {
                if o != key {
                    return Err(format!("messages {o:?} and {key:?} (kind, length, changed byte) give the same output"));
                }
            }
            observe(&out);
            tally("history");
            Ok(())
        },
    );
    // 5. draws of every kind between absorbs: output after an absorb depends on all that was absorbed
    let seen3 = std::sync::Mutex::new(std::collections::HashMap::<Vec<u8>, Vec<usize>>::new());
    let seen3 = &seen3;
    let depth = if th { 6 } else { 5 };
    c.scenario(
        Scenario {
            name: "generator-draws",
            bounds: "all sequences of up to 5 (thorough 6) operations among absorbing one of 3 messages and drawing 4, 8, 16, 5, 64 or 300 bytes; outputs after different sequences of absorbed messages differ, repeated sequences give equal output",
            dev: 0,
            oracle: OracleCfg::Real,
            require: &["history"],
        },
        move || {
            let len = choose(depth + 1);
            let h: Vec<usize> = (0..len).map(|_| choose(9)).collect();
            if h.last().is_some_and(|o| *o > 2) {
                // The same outputs as later in the stream of a shorter sequence
                return excluded();
            }
            let run = || {
                let mut g = FiatShamirRng::<CD>::from_seed(b"seed");
                for o in &h {
                    match o {
                        0 => g.absorb(b"x"),
                        1 => g.absorb(b"y"),
                        2 => g.absorb(&[0; 40]),
                        3 => drop(g.next_u32()),
                        4 => drop(g.next_u64()),
                        5 => drop::<u128>(ark_std::UniformRand::rand(&mut g)),
                        6 => g.fill_bytes(&mut [0; 5]),
                        7 => g.fill_bytes(&mut [0; 64]),
                        _ => g.try_fill_bytes(&mut [0; 300]).unwrap(),
                    }
                }
                let mut out = vec![0u8; 32];
                g.fill_bytes(&mut out);
                out
            };
            let out = run();
            if out != run() {
                return Err(format!("operations {h:?} repeated give different output"));
            }
            let absorbed: Vec<usize> = h.iter().copied().filter(|o| *o < 3).collect();
            observe(&out);
            if let Some(o) = seen3.lock().unwrap().insert(out, absorbed.clone()) {
                if o != absorbed {
                    return Err(format!("after absorbing messages {o:?} and {absorbed:?} (operations {h:?}) the output is the same"));
                }
            }
            tally("history");
            Ok(())
        },
    );
    // 6. long messages
    let lens: Vec<usize> = mc::gens::around(if th { &[256usize, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072, 262144, 1 << 20][..] } else { &[256, 1024, 4096, 16384, 65536, 262144] });
    let seen4 = std::sync::Mutex::new(std::collections::HashMap::<Vec<u8>, (usize, usize, usize)>::new());
    let seen4 = &seen4;
    c.scenario(
        Scenario {
            name: "generator-long",
            bounds: leak(format!("seeds and absorbed messages of {} lengths up to {}, unchanged or with a byte at the ends, the middle, around each power of two changed; outputs pairwise different", lens.len(), lens.last().unwrap())),
            dev: 0,
            oracle: OracleCfg::Real,
            require: &["history"],
        },
        move || {
            let kind = choose(2);
            let len = choose_in(&lens);
            let mut at: Vec<usize> = (0..21).flat_map(|i| [(1usize << i) - 1, 1 << i]).chain([len / 2, len - 1, len]).filter(|p| *p <= len).collect();
            at.sort();
            at.dedup();
            let pos = choose_in(&at);
            let mut m = vec![3u8; len];
            if pos < len {
                m[pos] ^= 1;
            }
            let mut g = if kind == 0 {
                FiatShamirRng::<CD>::from_seed(&m)
            } else {
                let mut g = FiatShamirRng::<CD>::from_seed(b"s");
                g.absorb(&m);
                g
            };
            let mut out = vec![0u8; 16];
            g.fill_bytes(&mut out);
            observe(&out);
            let key = (kind, len, pos);
            if let Some(o) = seen4.lock().unwrap().insert(out, key) {
                if o != key {
                    return Err(format!("messages {o:?} and {key:?} (kind, length, changed byte) give the same output"));
                }
            }
            tally("history");
            Ok(())
        },
    );
    // 7. long statements
    let sizes: &'static [usize] = if th { &[128, 256, 512, 1024, 2048, 4096, 8192] } else { &[128, 512, 2048] };
    c.scenario(
        Scenario {
            name: "query-dependence-long",
            bounds: leak(format!("61-bit group, lengths {sizes:?}: one value of either vector or of the coefficients at the ends, the middle and around each power of two changed, or the claimed value: no hash input of the verifier stays the same")),
            dev: 0,
            oracle: OracleCfg::Real,
            require: &["changed"],
        },
        move || {
            let n = choose_in(sizes);
            let mut s = dense_st(n, 0);
            let mut at: Vec<usize> = (0..14).flat_map(|i| [(1usize << i) - 1, 1 << i]).chain([n / 2, n - 1]).filter(|p| *p < n).collect();
            at.sort();
            at.dedup();
            let (kind, j) = (choose(4), if n > 128 { choose_in(&at) } else { choose(n) });
            if kind == 3 && j > 0 {
                return excluded();
            }
            observe_u64s(&[n as u64, kind as u64, j as u64]);
            let q0 = seeds::<W>(&s)?;
            let x = match kind {
                0 => &mut s.a[j],
                1 => &mut s.b[j],
                2 => &mut s.r[j],
                _ => &mut s.v,
            };
            *x = addm(*x, 1, W::R);
            let q1 = seeds::<W>(&s)?;
            if q0.is_empty() || q1.iter().any(|q| q0.contains(q)) {
                return Err(format!("length {n}: changing {} leaves a hash input unchanged", slot_name(n, kind * n + j)));
            }
            tally("changed");
            Ok(())
        },
    );
}
/// Hash inputs of the verifier given all-zero cross terms.
fn seeds<W: World>(s: &St) -> Result<Vec<Vec<u8>>, String> {
    let m = mark();
    verify::<W>(s, &mk::<W>(&vec![(0, 0); s.a.len().trailing_zeros() as usize])).0.map_err(|e| format!("verifier: {e:?}"))?;
    Ok(queries_since(m))
}
fn mk_elems(p: &[(u64, u64)]) -> Vec<(PairingOutput<W>, PairingOutput<W>)> {
    p.iter().map(|(x, y)| (W::gtv(*x), W::gtv(*y))).collect()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut c = Checker::new(&a[1], &a[2]);
    c.assumptions.push("group, field and pairing arithmetic of the backend is correct; replaced by transparent groups (scenarios named bls12-381: the real curve)".into());
    c.assumptions.push("a zero Fiat-Shamir challenge (probability 2^-128) is excluded, as is a coefficient vector shorter than the input".into());
    match a[1].as_str() {
        "C03" => {
            c03(&mut c);
            let top = if c.thorough { 5 } else { 4 };
            mc::wide::complete::<mc::wide::Sipp>(&mut c, top)
        }
        "C04" => {
            c04(&mut c);
            let sizes: &[usize] = if c.thorough { &[2, 4, 8, 16] } else { &[2, 4, 8] };
            mc::wide::sound::<mc::wide::Sipp>(&mut c, sizes)
        }
        "C05" => {
            c.assumptions.push("the hash is treated as collision free (Blake2s)".into());
            c05(&mut c);
            let sizes: &[usize] = if c.thorough { &[2, 4, 8, 16] } else { &[2, 4, 8] };
            mc::wide::binding::<mc::wide::Sipp>(&mut c, sizes)
        }
        x => {
            eprintln!("unknown property {x}");
            std::process::exit(2);
        }
    }
    c.finish()
}
