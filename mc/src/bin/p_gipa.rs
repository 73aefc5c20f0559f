//! C06 completeness, C07 refusal, C08 soundness of GIPA.
use mc::{explore::*, gens::*, oracle::*, proto::*};

mc::gipa_world!(s3, W3, w3);
mc::gipa_world!(s5, W5, w5);
mc::gipa_world!(s7, W7, w7);
mc::gipa_world!(gb, WBig, wbig);
mc::wide_gipas!(gw);

type Sy = &'static dyn Gipa;

fn obs(a: &[u64], b: &[u64], k: &Key, com: &Com) {
    observe_u64s(&[a, &[91], b, &[92], &k.a, &[93], &k.b, &[k.t, com.a, com.b], &com.t].concat())
}
fn obs_prf(p: &Prf) {
    let mut v = vec![p.base.0, p.base.1];
    for (l, r) in &p.steps {
        v.extend([l.a, l.b]);
        v.extend(&l.t);
        v.extend([r.a, r.b]);
        v.extend(&r.t);
    }
    observe_u64s(&v)
}

/// Honest run end to end.
fn honest(s: Sy, a: &[u64], b: &[u64], k: &Key, checked: bool) -> Result<(Com, Prf), String> {
    let r = s.r();
    let t = mc::refm::dot(a, b, r);
    let com = s.lib_commit(k, a, b, t)?;
    if com != s.com(k, a, b, t) {
        return Err(format!("{}: commitments to {a:?}, {b:?}, {t} under {k:?} are {com:?}", s.name()));
    }
    let pb = if checked { s.prove(a, b, t, k, &com) } else { s.prove_aux(a, b, k) }
        .ok()
        .map_err(|e| format!("{}: {e} for the true statement {a:?}, {b:?}, {k:?}", s.name()))?;
    let p = s.dec(&pb).ok_or("proof does not decode")?;
    let m = mark();
    let v = s.verify(k, &com, &pb);
    let rounds = a.len().trailing_zeros() as usize;
    let (hs, _) = s.challenges(m, rounds);
    observe_u64s(&hs);
    if !v.accepted() {
        return Err(format!("{}: honest proof not accepted ({v:?}): a={a:?} b={b:?} {k:?} round hashes {hs:?}", s.name()));
    }
    let mut q = gipa_prover(s, a, b, k, &hs, false);
    q.fck = p.fck;
    if q == p {
        validated();
    }
    tally("accepted");
    if answers_since(m).len() > rounds {
        tally("retried");
    }
    Ok((com, p))
}

/// A long statement in the 61-bit world: pattern `i` in one of the four vectors, dense elsewhere.
fn long_statement(s: Sy, n: usize, which: usize, i: usize) -> (Vec<u64>, Vec<u64>, Key) {
    let pat = |w: usize| pattern(w as u64 + 1, n, if which == w || which == 4 { i } else { 0 });
    (pat(0), pat(1), Key { a: pat(2), b: pat(3), t: if s.compact() { big(9, 9) } else { 0 } })
}
/// Honest proof of a long statement as the model has it; the library's proof must verify and, if
/// `need`, coincide with the model's (which is returned).
fn long_honest(s: Sy, a: &[u64], b: &[u64], k: &Key, checked: bool, need: bool) -> Result<(Com, Prf), String> {
    let r = s.r();
    let t = mc::refm::dot(a, b, r);
    let com = s.com(k, a, b, t);
    let pb = if checked { s.prove(a, b, t, k, &com) } else { s.prove_aux(a, b, k) }.ok()?;
    let m = mark();
    let v = s.verify(k, &com, &pb);
    let (hs, _) = s.challenges(m, a.len().trailing_zeros() as usize);
    observe_u64s(&hs);
    if !v.accepted() {
        return Err(format!("honest proof not accepted ({v:?})"));
    }
    let q = gipa_prover(s, a, b, k, &hs, false);
    if s.enc(&q) == pb {
        validated();
    } else if need {
        return Err("the prover's messages are not those of the folding argument under the verifier's challenges".into());
    }
    Ok((com, q))
}
/// Every pair of patterns in the two messages, the two keys, or a message and its key.
fn pattern_pairs(c: &mut Checker) {
    let lens: &[usize] = if c.thorough { &[2, 4, 8, 16, 32] } else { &[2, 4, 8] };
    for s in gb::ALL {
        let s: Sy = *s;
        c.scenario(
            Scenario {
                name: leak(format!("{}-pattern-pairs", s.name())),
                bounds: leak(format!("61-bit field, real hash, lengths {lens:?}: messages, keys, left message and key, or right message and key each of {PATTERNS} patterns, every pair, and equal ones")),
                dev: 0,
                oracle: OracleCfg::Real,
                require: &["accepted"],
            },
            move || {
                let n = choose_in(lens);
                rayon_core::mc::set_threads(3);
                let (mut a, mut b, mut k) = long_statement(s, n, 0, 0);
                let w = choose(4);
                let (x, y, what) = choose_pattern_pair((1, 2), n);
                match w {
                    0 => (a, b) = (x, y),
                    1 => (k.a, k.b) = (x, y),
                    2 => (a, k.a) = (x, y),
                    _ => (b, k.b) = (x, y),
                }
                observe_u64s(&[a.clone(), b.clone(), k.a.clone(), k.b.clone()].concat());
                long_honest(s, &a, &b, &k, true, false).map_err(|e| format!("{}: length {n}, {what} in {}: {}", s.name(), ["messages", "keys", "left message and key", "right message and key"][w], e.chars().take(300).collect::<String>()))?;
                tally("accepted");
                Ok(())
            },
        );
    }
}
fn long(c: &mut Checker, kind: u8) {
    let th = c.thorough;
    let (top, pat) = match (kind, th) {
        (6, false) => (12, 64),
        (6, true) => (15, 512),
        (_, false) => (10, 16),
        (_, true) => (13, 64),
    };
    let limit: usize = match (kind, th) {
        (6, _) => usize::MAX,
        (_, false) => 64,
        (_, true) => 512,
    };
    for s in gb::ALL {
        let s: Sy = *s;
        let r = s.r();
        let what = match kind {
            6 => "honest proof accepted and equal to the model's",
            7 => "claimed result, commitments (+1, zeroed, negated) or boundary entries of messages and keys wrong: refused",
            _ => "one commitment, key or proof component +1, zeroed, negated, or halves of a round exchanged: accepted only if the equations hold",
        };
        c.scenario(
            Scenario {
                name: leak(format!("{}-long", s.name())),
                bounds: leak(format!("lengths 1, 2, .. 2^{top} over a 61-bit field, real hash, pools 1,3,8{}; all vectors dense, or (up to length {pat}) messages or keys each of {PATTERNS} patterns; {what}", if limit < 1 << top { format!(" (lengths above {limit}: 8 only)") } else { String::new() })),
                dev: 0,
                oracle: OracleCfg::Real,
                require: match kind {
                    6 => &["accepted"],
                    7 => &["refused", "proved"],
                    _ => &["rejected"],
                },
            },
            move || {
                let n = 1usize << choose(top + 1);
                let threads = if n > limit { 8 } else { choose_in(&[1usize, 3, 8]) };
                rayon_core::mc::set_threads(threads);
                let (w, i) = if n > 1 && n <= pat {
                    match choose(if kind == 6 { 6 } else { 2 }) {
                        0 => (0, 0),
                        x => (x - 1, if kind == 6 { 1 + choose(PATTERNS - 1) } else { [1, 4, 5, 3, 7][choose(5)] }),
                    }
                } else {
                    (0, 0)
                };
                let (a, b, mut k) = long_statement(s, n, w, i);
                observe_u64s(&[n as u64, threads as u64, w as u64, i as u64]);
                let id = format!("{}: length {n}, pattern {i} in vector {w}, {threads} workers", s.name());
                let ctx = |e: String| format!("{id}: {}", e.chars().take(300).collect::<String>());
                let change = |x: &mut u64, how: usize| {
                    *x = match how {
                        0 => mc::refm::addm(*x, 1, r),
                        1 => 0,
                        _ => (r - *x) % r,
                    }
                };
                match kind {
                    6 => {
                        long_honest(s, &a, &b, &k, choose(2) == 0, false).map_err(ctx)?;
                        tally("accepted");
                    }
                    7 => {
                        let (mut a, mut b) = (a, b);
                        let mut t = mc::refm::dot(&a, &b, r);
                        let mut com = s.com(&k, &a, &b, t);
                        let slot = choose(24 + com.t.len());
                        let how = choose(3);
                        let x = match slot {
                            0 => &mut t,
                            1..=2 => com_slot(&mut com, slot - 1),
                            x if x < 3 + com.t.len() => com_slot(&mut com, slot - 1),
                            x => {
                                let j = x - 3 - com.t.len();
                                if j == 20 {
                                    &mut k.t
                                } else {
                                    let v = [&mut a, &mut b, &mut k.a, &mut k.b].into_iter().nth(j / 5).unwrap();
                                    &mut v[edge(n, j % 5)]
                                }
                            }
                        };
                        change(x, how);
                        let tr = mc::refm::dot(&a, &b, r);
                        let is_true = t == tr && s.com(&k, &a, &b, tr) == com;
                        match s.prove(&a, &b, t, &k, &com) {
                            Proved::Ok(_) if is_true => tally("proved"),
                            Proved::Err(_) if !is_true => tally("refused"),
                            x => {
                                let x = match x {
                                    Proved::Ok(_) => "a proof".into(),
                                    x => format!("{x:?}"),
                                };
                                return Err(ctx(format!("slot {slot} change {how}: statement is {is_true} but the prover answers {x}")));
                            }
                        }
                        validated();
                    }
                    _ => {
                        let (mut com, mut p) = long_honest(s, &a, &b, &k, false, true).map_err(ctx)?;
                        let cn = 2 + com.t.len();
                        let pn = prf_slots(&p) - 4;
                        let slot = choose(cn + 11 + pn + p.steps.len());
                        if slot < cn + 11 + pn {
                            let how = choose(3);
                            let x = if slot < cn {
                                com_slot(&mut com, slot)
                            } else if slot < cn + 10 {
                                let v = if slot < cn + 5 { &mut k.a } else { &mut k.b };
                                &mut v[edge(n, (slot - cn) % 5)]
                            } else if slot == cn + 10 {
                                &mut k.t
                            } else {
                                prf_slot(&mut p, slot - cn - 11)
                            };
                            change(x, how);
                        } else {
                            let st = &mut p.steps[slot - cn - 11 - pn];
                            std::mem::swap(&mut st.0, &mut st.1);
                        }
                        observe_u64s(&[slot as u64]);
                        sound(s, &k, &com, &p).map_err(|e| ctx(format!("slot {slot}: {e}")))?;
                    }
                }
                Ok(())
            },
        );
    }
}

fn c06(c: &mut Checker) {
    let th = c.thorough;
    let full = |c: &mut Checker, tag: &str, all: &'static [Sy], n: usize, keys_full: bool, dev: u32| {
        for s in all {
            let s: Sy = *s;
            let r = s.r();
            c.scenario(
                Scenario {
                    name: leak(format!("{}-{tag}-n{n}", s.name())),
                    bounds: leak(format!("all message vectors over F_{r} of length {n}, {}, all challenges, up to {dev} unusable digests", if keys_full { "all keys" } else { "unit/dense/zero keys" })),
                    dev,
                    oracle: cfg_for(r),
                    require: if n > 1 && dev > 0 { &["accepted", "retried"] } else { &["accepted"] },
                },
                move || {
                    let (a, b) = (choose_vec(n, r), choose_vec(n, r));
                    let k = if keys_full {
                        Key { a: choose_vec(n, r), b: choose_vec(n, r), t: if s.compact() { choose(r as usize) as u64 } else { 0 } }
                    } else {
                        let q = if n >= 4 { n - 1 } else { 0 };
                        Key { a: basis(n, r, q + choose(n + 2 - q)), b: basis(n, r, q + choose(n + 3 - q)), t: if s.compact() { choose_in(&[0, 2]) } else { 0 } }
                    };
                    let com = Com::default();
                    obs(&a, &b, &k, &com);
                    honest(s, &a, &b, &k, true).map(|_| ())
                },
            );
        }
    };
    full(c, "F5", s5::ALL, 1, true, 0);
    full(c, "F3", s3::ALL, 2, true, 2);
    if th {
        full(c, "F5", s5::ALL, 2, true, 1);
        full(c, "F3", s3::ALL, 4, false, 1);
    }
    let base = |c: &mut Checker, all: &'static [Sy], n: usize, keys: usize, chal: usize, dev: u32, threads: &'static [usize]| {
        for s in all {
            let s: Sy = *s;
            let r = s.r();
            let vals = spread(r, chal);
            c.scenario(
                Scenario {
                    name: leak(format!("{}-basis-F{r}-n{n}", s.name())),
                    bounds: leak(format!("unit, dense and zero message vectors (all pairs) of length {n} over F_{r}, keys likewise ({keys} each), round digests {vals:?}, up to {dev} unusable digests, pools {threads:?}")),
                    dev,
                    oracle: cfg_values(r, &vals),
                    require: if dev > 0 { &["accepted", "retried"] } else { &["accepted"] },
                },
                move || {
                    rayon_core::mc::set_threads(choose_in(threads));
                    let a = basis(n, r, choose(n + 2));
                    let b = basis(n, r, choose(n + 2));
                    let lo = n + 2 - keys;
                    let k = Key { a: basis(n, r, lo + choose(keys)), b: basis(n, r, lo + 1 + choose(keys)), t: 2 };
                    obs(&a, &b, &k, &Com::default());
                    let checked = choose(2) == 0;
                    honest(s, &a, &b, &k, checked).map(|_| ())
                },
            );
        }
    };
    base(c, s7::ALL, 2, 4, 6, 2, &[1, 4]);
    base(c, s5::ALL, 4, 6, if th { 4 } else { 3 }, 1, &[4]);
    base(c, s7::ALL, 8, if th { 10 } else { 3 }, 2, 1, if th { &[1, 3] } else { &[3] });
    base(c, s5::ALL, 16, if th { 6 } else { 1 }, 2, 0, &[4]);
    if th {
        base(c, s5::ALL, 32, 1, 2, 0, &[4]);
    }
}

fn c07(c: &mut Checker) {
    let th = c.thorough;
    // every statement, true or not: a proof iff it is true
    let all_statements = |c: &mut Checker, all: &'static [Sy], n: usize, keys_full: bool| {
        for s in all {
            let s: Sy = *s;
            let r = s.r();
            c.scenario(
                Scenario {
                    name: leak(format!("{}-all-statements-F{r}-n{n}", s.name())),
                    bounds: leak(format!("all messages, claimed results and commitments over F_{r}, {}; length {n}; result commitments of length 0..=2 for the identity scheme", if keys_full { "all keys" } else { "dense and zero keys" })),
                    dev: 0,
                    oracle: cfg_values(r, &[r - 1]),
                    require: &["proved", "refused"],
                },
                move || {
                    let (a, b) = (choose_vec(n, r), choose_vec(n, r));
                    let t = choose(r as usize) as u64;
                    let k = if keys_full {
                        Key { a: choose_vec(n, r), b: choose_vec(n, r), t: if s.compact() { choose(r as usize) as u64 } else { 0 } }
                    } else {
                        Key { a: basis(n, r, n + choose(2)), b: basis(n, r, n + 2 * choose(2)), t: 2 }
                    };
                    let mut com = Com { a: choose(r as usize) as u64, b: choose(r as usize) as u64, t: vec![] };
                    com.t = if s.compact() || n > 1 { choose_vec(1, r) } else { choose_vec(choose(3), r) };
                    obs(&a, &b, &k, &com);
                    observe_u64s(&[t]);
                    let tr = mc::refm::dot(&a, &b, r);
                    let truth = s.com(&k, &a, &b, tr);
                    let is_true = t == tr && truth.a == com.a && truth.b == com.b && teq(&truth.t, &com.t);
                    let strict = is_true && truth.t == com.t;
                    match s.prove(&a, &b, t, &k, &com) {
                        Proved::Ok(_) if !is_true => Err(format!("{}: proof produced for a false statement a={a:?} b={b:?} t={t} {k:?} {com:?} (true: {tr}, {truth:?})", s.name())),
                        Proved::Ok(_) => {
                            tally("proved");
                            validated();
                            Ok(())
                        }
                        Proved::Err(e) if strict => Err(format!("{}: true statement refused ({e}): a={a:?} b={b:?} t={t} {k:?} {com:?}", s.name())),
                        Proved::Err(_) => {
                            tally("refused");
                            validated();
                            Ok(())
                        }
                        Proved::Panic(e) => Err(format!("{}: prover panics instead of returning an error ({e}): a={a:?} b={b:?} t={t} {k:?} {com:?}", s.name())),
                    }
                },
            );
        }
    };
    all_statements(c, s3::ALL, 1, true);
    all_statements(c, s5::ALL, 1, th);
    all_statements(c, s3::ALL, 2, th);
    // one component off at larger sizes
    let off = |c: &mut Checker, all: &'static [Sy], n: usize| {
        for s in all {
            let s: Sy = *s;
            let r = s.r();
            c.scenario(
                Scenario {
                    name: leak(format!("{}-one-off-n{n}", s.name())),
                    bounds: leak(format!("dense/unit/zero vectors and keys of length {n} over F_{r}; every single component of messages, keys, claimed result or commitments changed to every other value")),
                    dev: 0,
                    oracle: cfg_values(r, &[r - 1]),
                    require: &["refused", "proved"],
                },
                move || {
                    let mut a = basis(n, r, n - 1 + choose(3));
                    let mut b = basis(n, r, n - 1 + choose(3));
                    let mut k = Key { a: basis(n, r, n + choose(2)), b: basis(n, r, n - choose(2)), t: 2 };
                    let mut t = mc::refm::dot(&a, &b, r);
                    let mut com = s.com(&k, &a, &b, t);
                    let ct = com.t.len();
                    let i = choose(4 * n + 3 + ct);
                    let d = 1 + choose(r as usize - 1) as u64;
                    let x = match i {
                        i if i < n => &mut a[i],
                        i if i < 2 * n => &mut b[i - n],
                        i if i < 3 * n => &mut k.a[i - 2 * n],
                        i if i < 4 * n => &mut k.b[i - 3 * n],
                        i if i == 4 * n => &mut t,
                        i if i == 4 * n + 1 => &mut com.a,
                        i if i == 4 * n + 2 => &mut com.b,
                        i => &mut com.t[i - 4 * n - 3],
                    };
                    *x = (*x + d) % r;
                    obs(&a, &b, &k, &com);
                    let tr = mc::refm::dot(&a, &b, r);
                    let is_true = t == tr && s.com(&k, &a, &b, tr) == com;
                    match s.prove(&a, &b, t, &k, &com) {
                        Proved::Ok(_) if is_true => tally("proved"),
                        Proved::Err(_) if !is_true => tally("refused"),
                        x => return Err(format!("{}: n={n} component {i} changed by {d}: statement is {is_true} but prover answers {x:?}", s.name())),
                    }
                    validated();
                    Ok(())
                },
            );
        }
    };
    off(c, s5::ALL, 4);
    off(c, s5::ALL, 8);
    // shapes
    for s in s5::ALL {
        let s: Sy = *s;
        let r = s.r();
        let top = if th { 9 } else { 6 };
        c.scenario(
            Scenario {
                name: leak(format!("{}-shapes", s.name())),
                bounds: leak(format!("all length combinations 0..{top} of left/right messages and keys, zero and dense entries, commitments matching the overlapping parts")),
                dev: 0,
                oracle: cfg_values(r, &[r - 1]),
                require: &["refused", "proved"],
            },
            move || {
                let l: Vec<usize> = (0..4).map(|_| choose(top)).collect();
                let z = choose(2);
                let v = |n: usize, i: usize| if z == 0 { vec![0; n] } else { (0..n as u64).map(|j| (j + i as u64) % r).collect::<Vec<u64>>() };
                let (a, b) = (v(l[0], 1), v(l[1], 2));
                let k = Key { a: v(l[2], 3), b: v(l[3], 1), t: 1 };
                let dotz = |x: &[u64], y: &[u64]| x.iter().zip(y).fold(0, |s, (p, q)| (s + p * q) % r);
                let t = dotz(&a, &b);
                let com = Com { a: dotz(&a, &k.a), b: dotz(&b, &k.b), t: s.tcom(1, t) };
                let ok = l.iter().all(|x| *x == l[0]) && l[0].is_power_of_two();
                observe_u64s(&l.iter().map(|x| *x as u64).chain([z as u64]).collect::<Vec<_>>());
                match s.prove(&a, &b, t, &k, &com) {
                    Proved::Ok(_) if ok => tally("proved"),
                    Proved::Err(_) if !ok => tally("refused"),
                    x => return Err(format!("{}: messages of lengths {} and {}, keys of lengths {} and {}: prover answers {x:?}", s.name(), l[0], l[1], l[2], l[3])),
                }
                validated();
                Ok(())
            },
        );
    }
    // longer shapes: equal lengths that are no power of two, one vector of another length
    for s in gb::ALL {
        let s: Sy = *s;
        let r = s.r();
        let top: usize = if th { 200 } else { 65 };
        let more: &'static [usize] = if th { &[255, 256, 257, 384, 512, 640, 768, 1000, 1023, 1024, 1025, 1536] } else { &[96, 127, 128, 129, 160, 192, 255, 256, 257, 384] };
        c.scenario(
            Scenario {
                name: leak(format!("{}-long-shapes", s.name())),
                bounds: leak(format!("61-bit field, all four vectors of every length 0..={top} and of {more:?}, or (powers of two) one or two of them one shorter, one longer, half, three halves or twice as long; zero and dense entries; commitments matching the overlapping parts")),
                dev: 0,
                oracle: OracleCfg::Real,
                require: &["refused", "proved"],
            },
            move || {
                let q = choose(top + 1 + more.len());
                let n = if q <= top { q } else { more[q - top - 1] };
                let mut l = [n; 4];
                if n.is_power_of_two() && choose(2) == 1 {
                    let (i, j) = (choose(4), choose(4));
                    let m = choose_in(&[n - 1, n + 1, n / 2, n + n / 2, 2 * n]);
                    l[i] = m;
                    l[j] = m;
                }
                let z = choose(2);
                let v = |i: usize| if z == 0 { vec![0; l[i]] } else { bigv(i as u64 + 60, l[i]) };
                let (a, b) = (v(0), v(1));
                let k = Key { a: v(2), b: v(3), t: if s.compact() { 1 } else { 0 } };
                let dot = |x: &[u64], y: &[u64]| {
                    let m = x.len().min(y.len());
                    mc::refm::dot(&x[..m], &y[..m], r)
                };
                let t = dot(&a, &b);
                let com = Com { a: dot(&a, &k.a), b: dot(&b, &k.b), t: s.tcom(k.t, t) };
                let ok = l.iter().all(|x| *x == l[0]) && l[0].is_power_of_two();
                observe_u64s(&l.iter().map(|x| *x as u64).chain([z as u64]).collect::<Vec<_>>());
                match s.prove(&a, &b, t, &k, &com) {
                    Proved::Ok(_) if ok => tally("proved"),
                    Proved::Err(_) if !ok => tally("refused"),
                    x => {
                        let x = match x {
                            Proved::Ok(_) => "a proof".into(),
                            x => format!("{x:?}"),
                        };
                        return Err(format!("{}: messages of lengths {} and {}, keys of lengths {} and {}: prover answers {x}", s.name(), l[0], l[1], l[2], l[3]));
                    }
                }
                validated();
                Ok(())
            },
        );
    }
}

fn sound(s: Sy, k: &Key, com: &Com, p: &Prf) -> Outcome {
    let bytes = s.enc(p);
    let m = mark();
    let v = s.verify(k, com, &bytes);
    let (hs, _) = s.challenges(m, p.steps.len());
    observe_u64s(&hs);
    let want = gipa_accepts(s, k, com, p, &hs);
    if v.accepted() && !want {
        return Err(format!("{}: verifier accepts although a folding equation fails: {k:?} {com:?} {p:?} round hashes {hs:?}", s.name()));
    }
    if v.accepted() == want {
        validated();
    }
    tally(if v.accepted() { "accepted" } else { "rejected" });
    Ok(())
}
fn c08(c: &mut Checker) {
    let th = c.thorough;
    for s in s5::ALL {
        let s: Sy = *s;
        let r = s.r();
        c.scenario(
            Scenario {
                name: leak(format!("{}-all-n1-F{r}", s.name())),
                bounds: leak(format!("length 1: all keys, commitments and proofs over F_{r}")),
                dev: 0,
                oracle: cfg_for(r),
                require: &["accepted", "rejected"],
            },
            move || {
                let k = Key { a: choose_vec(1, r), b: choose_vec(1, r), t: if s.compact() { choose(r as usize) as u64 } else { 0 } };
                let com = Com { a: choose(r as usize) as u64, b: choose(r as usize) as u64, t: choose_vec(1, r) };
                let p = Prf { base: (choose(r as usize) as u64, choose(r as usize) as u64), ..Default::default() };
                obs(&[], &[], &k, &com);
                obs_prf(&p);
                sound(s, &k, &com, &p)
            },
        );
    }
    for s in s3::ALL {
        let s: Sy = *s;
        let r = s.r();
        c.scenario(
            Scenario {
                name: leak(format!("{}-all-n2-F{r}", s.name())),
                bounds: leak(format!("length 2: all commitments, proof messages and challenges over F_{r}; keys {}", if th { "unit/dense/zero" } else { "dense" })),
                dev: 0,
                oracle: cfg_for(r),
                require: &["accepted", "rejected"],
            },
            move || {
                let k = if th {
                    Key { a: basis(2, r, choose(4)), b: basis(2, r, 4 - choose(4)), t: 2 }
                } else {
                    Key { a: basis(2, r, 2), b: vec![2, 1], t: 2 }
                };
                let v = choose_vec(11, r);
                let com = Com { a: v[0], b: v[1], t: vec![v[2]] };
                let p = Prf {
                    steps: vec![(Com { a: v[3], b: v[4], t: vec![v[5]] }, Com { a: v[6], b: v[7], t: vec![v[8]] })],
                    base: (v[9], v[10]),
                    ..Default::default()
                };
                observe_u64s(&v);
                sound(s, &k, &com, &p)
            },
        );
    }
    let tamper = |c: &mut Checker, all: &'static [Sy], n: usize, chal: usize, muts: usize, deltas: usize| {
        for s in all {
            let s: Sy = *s;
            let r = s.r();
            let vals = spread(r, chal);
            c.scenario(
                Scenario {
                    name: leak(format!("{}-tampered-F{r}-n{n}-x{muts}", s.name())),
                    bounds: leak(format!("honest proofs of length {n} over F_{r} for dense/unit/zero vectors and keys; {muts} component(s) among commitments, keys and proof changed by {deltas} value(s); round digests {vals:?}")),
                    dev: 0,
                    oracle: cfg_values(r, &vals),
                    require: &["rejected"],
                },
                move || {
                    let pick = if muts > 1 { 0 } else { choose(3) };
                    let a = basis(n, r, [n, n - 1, n + 2][pick]);
                    let b = basis(n, r, [n + 2, n, n + 1][pick]);
                    let mut k = Key { a: basis(n, r, n), b: basis(n, r, n + 2), t: 2 };
                    let (mut com, mut p) = honest(s, &a, &b, &k, false)?;
                    let cn = 2 + com.t.len();
                    let total = cn + 2 * n + 1 + prf_slots(&p) - 4;
                    let mut names = String::new();
                    for i in choose_slots(total, muts) {
                        let d = 1 + choose(deltas) as u64;
                        let (x, nm) = if i < cn {
                            (com_slot(&mut com, i), "commitment".to_string())
                        } else if i < cn + n {
                            (&mut k.a[i - cn], format!("left key {}", i - cn))
                        } else if i < cn + 2 * n {
                            (&mut k.b[i - cn - n], format!("right key {}", i - cn - n))
                        } else if i == cn + 2 * n {
                            (&mut k.t, "result key".into())
                        } else {
                            let j = i - cn - 2 * n - 1;
                            let nm = prf_slot_name(&p, j);
                            (prf_slot(&mut p, j), nm)
                        };
                        *x = (*x + d) % r;
                        names += &format!("{nm} +{d}; ");
                    }
                    note(|| names);
                    obs(&a, &b, &k, &com);
                    obs_prf(&p);
                    sound(s, &k, &com, &p)
                },
            );
        }
    };
    tamper(c, s7::ALL, 2, 6, 1, 6);
    tamper(c, s5::ALL, 2, 4, 2, 4);
    tamper(c, s5::ALL, 4, 3, 1, 4);
    tamper(c, s5::ALL, 8, 2, 1, 2);
    if th {
        tamper(c, s5::ALL, 4, 3, 2, 4);
        tamper(c, s3::ALL, 2, 2, 3, 2);
        tamper(c, s5::ALL, 16, 2, 1, 1);
    }
    // shapes: wrong number of rounds, identity outputs of other lengths, key lengths
    for s in s5::ALL {
        let s: Sy = *s;
        let r = s.r();
        c.scenario(
            Scenario {
                name: leak(format!("{}-shapes", s.name())),
                bounds: "honest proofs of length 1..8 with rounds dropped, repeated, appended, swapped; result commitments of the statement and of every cross term lengthened or emptied; key vectors lengthened, shortened or of unequal length",
                dev: 0,
                oracle: cfg_values(r, &[1, r - 1, 2]),
                require: &["rejected"],
            },
            move || {
                let n = 1 << choose(4);
                let zero = choose(2) == 1;
                let a = basis(n, r, n + zero as usize);
                let b = basis(n, r, n + 2 - zero as usize);
                let mut k = Key { a: basis(n, r, n), b: basis(n, r, n + 2), t: 2 };
                let (mut com, mut p) = honest(s, &a, &b, &k, true)?;
                let q = p.steps.len();
                match choose(9) {
                    0 => {
                        if q == 0 {
                            return excluded();
                        }
                        p.steps.remove(choose(q));
                    }
                    1 => {
                        let i = choose(q + 1);
                        let c = || Com { a: 0, b: 0, t: s.tcom(0, 0) };
                        p.steps.insert(i, (c(), c()));
                    }
                    2 => {
                        if q == 0 {
                            return excluded();
                        }
                        let i = choose(q);
                        let x = p.steps[i].clone();
                        p.steps.insert(i, x);
                    }
                    3 => {
                        if q < 2 {
                            return excluded();
                        }
                        let i = choose(q - 1);
                        p.steps.swap(i, i + 1);
                    }
                    4 => {
                        if q == 0 {
                            return excluded();
                        }
                        let i = choose(q);
                        let (l, rr) = p.steps[i].clone();
                        p.steps[i] = (rr, l);
                    }
                    5 | 6 => {
                        if s.compact() {
                            return excluded();
                        }
                        let i = choose(1 + 2 * q);
                        let t = if i == 0 {
                            &mut com.t
                        } else if i % 2 == 1 {
                            &mut p.steps[(i - 1) / 2].0.t
                        } else {
                            &mut p.steps[(i - 1) / 2].1.t
                        };
                        match choose(3) {
                            0 => t.clear(),
                            1 => t.push(choose(r as usize) as u64),
                            _ => t.insert(0, choose(r as usize) as u64),
                        }
                    }
                    7 => {
                        let x = if choose(2) == 0 { &mut k.a } else { &mut k.b };
                        match choose(3) {
                            0 => drop(x.pop()),
                            1 => x.push(choose(2) as u64),
                            _ => {
                                let e = vec![0; n];
                                x.extend(e)
                            }
                        }
                    }
                    _ => match choose(3) {
                        0 => {
                            k.a.pop();
                            k.b.pop();
                        }
                        1 => {
                            k.a.push(choose(2) as u64);
                            k.b.push(choose(2) as u64);
                        }
                        _ => {
                            k.a.extend(vec![0; n]);
                            k.b.extend(vec![0; n]);
                        }
                    },
                }
                obs(&a, &b, &k, &com);
                obs_prf(&p);
                sound(s, &k, &com, &p)
            },
        );
    }
    // longer shapes: keys of any length against proofs of any number of rounds
    for s in gb::ALL {
        let s: Sy = *s;
        let r = s.r();
        let top: usize = if th { 130 } else { 34 };
        c.scenario(
            Scenario {
                name: leak(format!("{}-long-shapes", s.name())),
                bounds: leak(format!("61-bit field, real hash; honest proofs of lengths 1, 2, .. 64 presented with the first 0..={top} entries of longer keys (dense, or continued by zeros), or with one of the two keys cut or continued")),
                dev: 0,
                oracle: OracleCfg::Real,
                require: &["rejected"],
            },
            move || {
                let n = 1usize << choose(7);
                let m = choose(top + 1);
                let which = choose(3);
                let zeros = choose(2) == 1;
                let (a, b, mut k) = long_statement(s, n, 0, 0);
                let (com, p) = long_honest(s, &a, &b, &k, false, true)?;
                let resize = |v: &mut Vec<u64>, seed: u64| {
                    let more = if zeros { vec![0; m] } else { bigv(seed, m) };
                    let old = v.len();
                    v.truncate(m);
                    if old < m {
                        v.extend(&more[old..]);
                    }
                };
                if which != 1 {
                    resize(&mut k.a, 71);
                }
                if which != 0 {
                    resize(&mut k.b, 72);
                }
                observe_u64s(&[n as u64, m as u64, which as u64, zeros as u64]);
                if m == n {
                    return excluded();
                }
                sound(s, &k, &com, &p).map_err(|e| format!("{}: proof of length {n}, keys {which} resized to {m}: {}", s.name(), e.chars().take(300).collect::<String>()))
            },
        );
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut c = Checker::new(&a[1], &a[2]);
    c.assumptions.push("group, field and pairing arithmetic of the backend is correct; replaced by transparent groups over small prime fields (scenarios named bls12-381: the real curve)".into());
    c.assumptions.push("the hash is a random oracle: every answer of the enumerated alphabet is explored; equal queries get equal answers".into());
    match a[1].as_str() {
        "C06" => {
            c06(&mut c);
            long(&mut c, 6);
            pattern_pairs(&mut c);
            let top = if c.thorough { 6 } else { 3 };
            mc::wide::complete::<gw::PairingIdentity>(&mut c, top);
            mc::wide::complete::<gw::MultiexpIdentity>(&mut c, top);
            mc::wide::complete::<gw::ScalarCompact>(&mut c, top);
        }
        "C07" => {
            c07(&mut c);
            long(&mut c, 7);
            let sizes: &[usize] = if c.thorough { &[1, 2, 4, 8, 16] } else { &[1, 2, 4] };
            mc::wide::refuses::<gw::PairingIdentity>(&mut c, sizes);
            mc::wide::refuses::<gw::MultiexpIdentity>(&mut c, sizes);
            mc::wide::refuses::<gw::ScalarCompact>(&mut c, sizes);
        }
        "C08" => {
            c08(&mut c);
            long(&mut c, 8);
            let sizes: &[usize] = if c.thorough { &[1, 2, 4, 8, 16] } else { &[1, 2, 4] };
            mc::wide::sound::<gw::PairingIdentity>(&mut c, sizes);
            mc::wide::sound::<gw::MultiexpIdentity>(&mut c, sizes);
            mc::wide::sound::<gw::ScalarCompact>(&mut c, sizes);
        }
        x => {
            eprintln!("unknown property {x}");
            std::process::exit(2);
        }
    }
    c.finish()
}
