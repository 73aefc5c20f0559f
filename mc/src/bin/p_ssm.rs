//! C13 completeness and C14 soundness of the structured-scalar arguments.
use ark_ip_proofs::tipa::structured_scalar_message::structured_scalar_power;
use mc::{explore::*, gens::*, oracle::*, proto::*, refm::*, world::*};

mc::ssm_world!(m3, W3, w3);
mc::ssm_world!(m5, W5, w5);
mc::ssm_world!(m7, W7, w7);
mc::ssm_world!(mb, WBig, wbig);
mc::wide_ssms!(sw);

type Sy = &'static dyn Ssm;

fn obs_prf(p: &Prf) {
    let mut v = vec![p.base.0, p.base.1, p.fck.0, p.open.0];
    for (l, r) in &p.steps {
        v.extend([l.a, l.b]);
        v.extend(&l.t);
        v.extend([r.a, r.b]);
        v.extend(&r.t);
    }
    observe_u64s(&v)
}
struct St {
    srs: Srs,
    k: Key,
    vk: Vk,
}
/// Keys and strings. Transparent: arbitrary left keys; logarithmic: powers of the secrets.
fn strings(s: Sy, n: usize, alpha: u64, beta: u64, ka: Option<Vec<u64>>) -> St {
    let srs = Srs::model(n, alpha, beta, s.r());
    let (mut k, vk) = (srs.key(if s.compact() { 2 } else { 0 }), srs.vk());
    if let Some(ka) = ka {
        k.a = ka;
    }
    St { srs, k, vk }
}
fn statement(s: Sy, st: &St, a: &[u64], scalar: u64) -> Com {
    let r = s.r();
    let b = powers(scalar, a.len(), r);
    Com { a: dot(&st.k.a, a, r), b: 0, t: s.tcom(st.k.t, dot(a, &b, r)) }
}
fn honest(s: Sy, st: &St, a: &[u64], scalar: u64) -> Result<(Com, Prf), String> {
    let r = s.r();
    let n = a.len();
    let b = powers(scalar, n, r);
    let com = statement(s, st, a, scalar);
    let what = || format!("{}: a={a:?} scalar={scalar} keys={:?} secrets beta={} alpha={}", s.name(), st.k, st.vk.g_beta, st.vk.h_alpha);
    let pb = s.prove(&st.srs, a, &b, &st.k).ok().map_err(|e| format!("{e}; {}", what()))?;
    let p = s.dec(&pb).ok_or("proof does not decode")?;
    let m = mark();
    let v = s.verify(&st.vk, &st.k, &com, scalar, &pb);
    let rounds = n.trailing_zeros() as usize;
    let (hs, z) = s.challenges(m, rounds);
    observe_u64s(&hs);
    if !v.accepted() {
        return Err(format!("honest proof not accepted ({v:?}): {} round hashes {hs:?} key challenge {z:?}", what()));
    }
    let mut q = gipa_prover(s, a, &b, &st.k, &hs, true);
    if s.transparent() {
        q.fck = p.fck;
        q.open = p.open;
        if q == p {
            validated();
        }
    } else if let Some(z) = z {
        q.open.0 = tipa_openings(&st.srs, &hs, z, 1, r).0;
        q.fck.1 = p.fck.1;
        q.open.1 = p.open.1;
        if q == p {
            validated();
        }
    }
    tally("accepted");
    if answers_since(m).len() > rounds + !s.transparent() as usize {
        tally("retried");
    }
    Ok((com, p))
}

fn c13(c: &mut Checker) {
    let th = c.thorough;
    let full = |c: &mut Checker, all: &'static [Sy], n: usize, dev: u32| {
        for s in all {
            let s: Sy = *s;
            let r = s.r();
            let retry = dev > 0 && (n > 1 || !s.transparent());
            c.scenario(
                Scenario {
                    name: leak(format!("{}-full-F{r}-n{n}", s.name())),
                    bounds: leak(format!("all left vectors over F_{r} of length {n}, all scalars (zero included), {}, all challenges, up to {dev} unusable digests", if s.transparent() { "all key vectors" } else { "all secrets" })),
                    dev,
                    oracle: cfg_for(r),
                    require: if retry { &["accepted", "retried"] } else { &["accepted"] },
                },
                move || {
                    let st = if s.transparent() {
                        strings(s, n, 1, 1, Some(choose_vec(n, r)))
                    } else {
                        strings(s, n, choose(r as usize) as u64, choose(r as usize) as u64, None)
                    };
                    let a = choose_vec(n, r);
                    let x = choose(r as usize) as u64;
                    observe_u64s(&[&a[..], &[99], &st.k.a, &[st.vk.g_beta, st.vk.h_alpha, x]].concat());
                    honest(s, &st, &a, x).map(|_| ())
                },
            );
        }
    };
    full(c, m5::ALL, 1, 1);
    full(c, m7::ALL, 1, 1);
    full(c, m3::ALL, 2, 1);
    full(c, m5::ALL, 2, 1);
    if th {
        full(c, m7::ALL, 2, 1);
        full(c, m3::ALL, 4, 1);
    }
    let base = |c: &mut Checker, all: &'static [Sy], n: usize, vecs: usize, secrets: usize, chal: usize, dev: u32, threads: &'static [usize]| {
        for s in all {
            let s: Sy = *s;
            let r = s.r();
            let vals = spread(r, chal);
            let sec: Vec<u64> = spread(r, secrets + 1)[1..].to_vec();
            c.scenario(
                Scenario {
                    name: leak(format!("{}-basis-F{r}-n{n}", s.name())),
                    bounds: leak(format!("length {n}: {vecs} unit/dense/zero left vectors, all scalars, {}, digests {vals:?}, up to {dev} unusable digests, pools {threads:?}", if s.transparent() { "unit/dense keys".to_string() } else { format!("secrets {sec:?} (pairs)") })),
                    dev,
                    oracle: cfg_values(r, &vals),
                    require: if dev > 0 { &["accepted", "retried"] } else { &["accepted"] },
                },
                move || {
                    rayon_core::mc::set_threads(choose_in(threads));
                    let st = if s.transparent() {
                        strings(s, n, 1, 1, Some(basis(n, r, [n, n + 2, 0, n - 1][choose(2 * sec.len().min(2))])))
                    } else {
                        strings(s, n, choose_in(&sec), choose_in(&sec), None)
                    };
                    let a = basis(n, r, n + 2 - vecs + choose(vecs));
                    let x = choose(r as usize) as u64;
                    observe_u64s(&[&a[..], &[99], &st.k.a, &[st.vk.g_beta, st.vk.h_alpha, x]].concat());
                    honest(s, &st, &a, x).map(|_| ())
                },
            );
        }
    };
    base(c, m5::ALL, 4, 6, 4, if th { 4 } else { 3 }, 1, &[1, 4]);
    base(c, m7::ALL, 8, if th { 10 } else { 4 }, 2, 2, 1, if th { &[1, 3] } else { &[3] });
    base(c, m7::ALL, 16, if th { 6 } else { 2 }, 2, 2, 0, &[4]);
    if th {
        base(c, m7::ALL, 32, 2, 1, 2, 0, &[4]);
        base(c, m5::ALL, 64, 1, 1, 2, 0, &[4]);
    }
}

fn sound(s: Sy, st: &St, com: &Com, x: u64, p: &Prf) -> Outcome {
    let bytes = s.enc(p);
    let m = mark();
    let v = s.verify(&st.vk, &st.k, com, x, &bytes);
    let (hs, z) = s.challenges(m, p.steps.len());
    observe_u64s(&hs);
    let want = ssm_accepts(s, &st.vk, &st.k, com, x, p, &hs, z);
    if v.accepted() && !want {
        return Err(format!("{}: verifier accepts although an equation fails: {:?} {:?} {com:?} scalar {x} {p:?} round hashes {hs:?} key challenge {z:?}", s.name(), st.vk, st.k));
    }
    if v.accepted() == want {
        validated();
    }
    tally(if v.accepted() { "accepted" } else { "rejected" });
    Ok(())
}
/// Long vectors in the 61-bit world: honest runs (kind 13) and single changes (kind 14).
fn long(c: &mut Checker, kind: u8) {
    let th = c.thorough;
    let (top, pat) = match (kind, th) {
        (13, false) => (13, 32),
        (13, true) => (16, 256),
        (_, false) => (10, 8),
        (_, true) => (13, 32),
    };
    let limit: usize = match (kind, th) {
        (13, false) => 512,
        (13, true) => 4096,
        (_, false) => 64,
        (_, true) => 512,
    };
    for s in mb::ALL {
        let s: Sy = *s;
        let r = s.r();
        c.scenario(
            Scenario {
                name: leak(format!("{}-long", s.name())),
                bounds: leak(format!("lengths 1, 2, .. 2^{top} over a 61-bit field, real hash, pools 1,3,8, scalars dense, 0, 1, -1, 2, their powers the model's or (honest runs) the library's, secrets dense (also 0, 1 for honest runs); vector or keys dense or (up to length {pat}) each of {PATTERNS} patterns (lengths above {limit}: pool 8, dense scalar; honest runs of lengths 2, 4, 8, pool 3, free keys: every pair of patterns of vector and keys, and equal ones); {}", if kind == 13 { "honest proof accepted" } else { "scalar, one commitment, key element or proof component +1, zeroed, negated, or a round's halves exchanged" })),
                dev: 0,
                oracle: OracleCfg::Real,
                require: if kind == 13 { &["accepted"] } else { &["rejected"] },
            },
            move || {
                let n = 1usize << choose(top + 1);
                let huge = n > limit;
                let threads = if huge { 8 } else { choose_in(&[1usize, 3, 8]) };
                rayon_core::mc::set_threads(threads);
                let mut x = [big(4, 4), 0, 1, r - 1, 2][choose(if huge { 1 } else { 5 })];
                let (mut i, mut j) = (0, 0);
                if n > 1 && n <= pat && kind == 13 {
                    (i, j) = choose_patterns2();
                }
                let (alpha, beta) = if kind == 13 && !s.transparent() { [(3, big(5, 5)), (big(5, 5), 0), (0, 1), (r - 1, r - 1)][choose(if huge { 2 } else { 4 })] } else { (big(6, 6), big(5, 5)) };
                let (mut a, mut ka) = (pattern(1, n, i), pattern(2, n, j));
                if kind == 13 && s.transparent() && (2..=8).contains(&n) && threads == 3 && i == 0 && j == 0 {
                    (a, ka, _) = choose_pattern_pair((1, 2), n);
                    observe_u64s(&[a.clone(), ka.clone()].concat());
                }
                let mut st = strings(s, n, alpha, beta, s.transparent().then_some(ka));
                if s.compact() {
                    st.k.t = big(9, 9);
                }
                // What a caller does: the library's own vector of powers.
                let own = kind == 13 && choose(2) == 1;
                observe_u64s(&[n as u64, threads as u64, x, i as u64, j as u64, alpha, beta, own as u64]);
                let id = format!("{}: length {n}, scalar {x}, patterns {i}/{j}, secrets ({alpha}, {beta}), {threads} workers, own powers {own}", s.name());
                let ctx = |e: String| format!("{id}: {}", e.chars().take(300).collect::<String>());
                let b = if own { structured_scalar_power(n, &WBig::f(x)).iter().map(WBig::fu).collect() } else { powers(x, n, r) };
                let mut com = statement(s, &st, &a, x);
                let pb = s.prove(&st.srs, &a, &b, &st.k).ok().map_err(ctx)?;
                let m = mark();
                let v = s.verify(&st.vk, &st.k, &com, x, &pb);
                let (hs, z) = s.challenges(m, n.trailing_zeros() as usize);
                if !v.accepted() {
                    return Err(ctx(format!("honest proof not accepted ({v:?})")));
                }
                let mut p = gipa_prover(s, &a, &b, &st.k, &hs, true);
                if !s.transparent() {
                    let z = z.ok_or_else(|| ctx("no key challenge".into()))?;
                    p.open.0 = tipa_openings(&st.srs, &hs, z, 1, r).0;
                }
                let same = s.enc(&p) == pb;
                if same {
                    validated();
                }
                if kind == 13 {
                    tally("accepted");
                    return Ok(());
                }
                if !same {
                    return Err(ctx("the prover's messages are not those of the argument under the verifier's challenges".into()));
                }
                let cn = com.t.len();
                let kn = if s.transparent() { 5 } else { 0 };
                let total = 7 + cn + kn + prf_slots(&p);
                let slot = choose(total + p.steps.len());
                if slot < total {
                    let how = choose(3);
                    let y = match slot {
                        0 => &mut x,
                        1 => &mut com.a,
                        q if q < 2 + cn => &mut com.t[q - 2],
                        q => match q - 2 - cn {
                            0 => &mut st.vk.g,
                            1 => &mut st.vk.h,
                            2 => &mut st.vk.g_beta,
                            3 => &mut st.vk.h_alpha,
                            4 => &mut st.k.t,
                            q if q < 5 + kn => &mut st.k.a[edge(n, q - 5)],
                            q => prf_slot(&mut p, q - 5 - kn),
                        },
                    };
                    *y = match how {
                        0 => addm(*y, 1, r),
                        1 => 0,
                        _ => (r - *y) % r,
                    };
                } else {
                    let e = &mut p.steps[slot - total];
                    std::mem::swap(&mut e.0, &mut e.1);
                }
                observe_u64s(&[slot as u64, x]);
                sound(s, &st, &com, x, &p).map_err(|e| ctx(format!("slot {slot}: {e}")))
            },
        );
    }
}

fn c14(c: &mut Checker) {
    let th = c.thorough;
    let all1 = |c: &mut Checker, all: &'static [Sy]| {
        for s in all {
            let s: Sy = *s;
            let r = s.r();
            c.scenario(
                Scenario {
                    name: leak(format!("{}-all-n1-F{r}", s.name())),
                    bounds: leak(format!("no rounds: all {}, commitments, scalars, final messages{} over F_{r}", if s.transparent() { "keys" } else { "secrets" }, if s.transparent() { "" } else { ", final keys, openings and key challenges" })),
                    dev: 0,
                    oracle: cfg_for(r),
                    require: &["accepted", "rejected"],
                },
                move || {
                    let v = choose_vec(6, r);
                    let mut p = Prf { base: (v[4], v[5]), ..Default::default() };
                    let st = if s.transparent() {
                        strings(s, 1, 1, 1, Some(vec![v[0]]))
                    } else {
                        let w = choose_vec(2, r);
                        p.fck.0 = w[0];
                        p.open.0 = w[1];
                        strings(s, 1, 1, v[0], None)
                    };
                    let com = Com { a: v[1], b: 0, t: vec![v[2]] };
                    observe_u64s(&[&v[..], &[p.fck.0, p.open.0]].concat());
                    sound(s, &st, &com, v[3], &p)
                },
            );
        }
    };
    all1(c, m3::ALL);
    if th {
        all1(c, m5::ALL);
    }
    for s in m3::ALL {
        let s: Sy = *s;
        let r = s.r();
        c.scenario(
            Scenario {
                name: leak(format!("{}-all-n2-F{r}", s.name())),
                bounds: leak(format!("one round: every statement, scalar, cross commitment (left and result) and final messages over F_{r}, final keys/openings of an honest prover or arbitrary, {} keys/secrets; all challenges", if th { "several" } else { "one set of" })),
                dev: 0,
                oracle: cfg_for(r),
                require: &["accepted", "rejected"],
            },
            move || {
                let st = if s.transparent() {
                    let i = if th { choose(4) } else { 2 };
                    strings(s, 2, 1, 1, Some(basis(2, r, i)))
                } else {
                    let be = if th { choose(3) as u64 } else { 2 };
                    strings(s, 2, 2, be, None)
                };
                let (com, mut p) = honest(s, &st, &[1, 2], 2)?;
                let mut com = com;
                let x = choose(3) as u64;
                com.a = choose(3) as u64;
                com.t = choose_vec(1, r);
                let half = if s.transparent() { 2 } else { choose(2) };
                if half != 1 {
                    let v = choose_vec(4, r);
                    let b = if s.transparent() { choose_vec(2, r) } else { vec![0, 0] };
                    p.steps = vec![(Com { a: v[0], b: b[0], t: vec![v[1]] }, Com { a: v[2], b: b[1], t: vec![v[3]] })];
                }
                p.base = (choose(3) as u64, choose(3) as u64);
                if half == 1 {
                    p.fck.0 = choose(3) as u64;
                    p.open.0 = choose(3) as u64;
                }
                observe_u64s(&[x, com.a, com.t[0]]);
                obs_prf(&p);
                sound(s, &st, &com, x, &p)
            },
        );
    }
    let tamper = |c: &mut Checker, all: &'static [Sy], n: usize, chal: usize, muts: usize, deltas: usize| {
        for s in all {
            let s: Sy = *s;
            let r = s.r();
            let vals = spread(r, chal);
            c.scenario(
                Scenario {
                    name: leak(format!("{}-tampered-F{r}-n{n}-x{muts}", s.name())),
                    bounds: leak(format!("honest proofs of length {n} over F_{r} (dense/unit/zero left vectors, several scalars); {muts} component(s) among scalar, commitments, keys, verifier key, result key and proof changed by {deltas} value(s); digests {vals:?}")),
                    dev: 0,
                    oracle: cfg_values(r, &vals),
                    require: &["rejected"],
                },
                move || {
                    let pick = if muts > 1 || n > 4 { 0 } else { choose(3) };
                    let mut st = if s.transparent() { strings(s, n, 1, 1, Some(basis(n, r, n))) } else { strings(s, n, 3, 2, None) };
                    let a = basis(n, r, [n, n - 1, n + 1][pick]);
                    let mut x = choose_in(&[2, 0, r - 1]);
                    let (mut com, mut p) = honest(s, &st, &a, x)?;
                    let cn = com.t.len();
                    let kn = st.k.a.len();
                    let total = 1 + 1 + cn + 5 + kn + prf_slots(&p);
                    let mut names = String::new();
                    for i in choose_slots(total, muts) {
                        let d = 1 + choose(deltas) as u64;
                        let (y, nm): (&mut u64, String) = match i {
                            0 => (&mut x, "scalar".into()),
                            1 => (&mut com.a, "left commitment".into()),
                            i if i < 2 + cn => (&mut com.t[i - 2], "result commitment".into()),
                            i => match i - 2 - cn {
                                0 => (&mut st.vk.g, "g".into()),
                                1 => (&mut st.vk.h, "h".into()),
                                2 => (&mut st.vk.g_beta, "g_beta".into()),
                                3 => (&mut st.vk.h_alpha, "h_alpha".into()),
                                4 => (&mut st.k.t, "result key".into()),
                                j if j < 5 + kn => (&mut st.k.a[j - 5], format!("left key {}", j - 5)),
                                j => {
                                    let nm = prf_slot_name(&p, j - 5 - kn);
                                    (prf_slot(&mut p, j - 5 - kn), nm)
                                }
                            },
                        };
                        *y = (*y + d) % r;
                        names += &format!("{nm} +{d}; ");
                    }
                    note(|| names);
                    observe_u64s(&[&[st.vk.g, st.vk.h, st.vk.g_beta, st.vk.h_alpha, st.k.t, x, com.a], &com.t[..], &st.k.a].concat());
                    obs_prf(&p);
                    sound(s, &st, &com, x, &p)
                },
            );
        }
    };
    tamper(c, m7::ALL, 1, 6, 1, 6);
    tamper(c, m7::ALL, 2, 4, 1, 6);
    tamper(c, m5::ALL, 4, 3, 1, 4);
    tamper(c, m5::ALL, 8, 2, 1, 2);
    tamper(c, m5::ALL, 2, 2, 2, 4);
    if th {
        tamper(c, m5::ALL, 1, 4, 3, 4);
        tamper(c, m5::ALL, 4, 2, 2, 2);
        tamper(c, m5::ALL, 16, 2, 1, 1);
    }
    // a proof for one statement used for another
    let transplant = |c: &mut Checker, all: &'static [Sy], n: usize, chal: usize| {
        for s in all {
            let s: Sy = *s;
            let r = s.r();
            let vals = spread(r, chal);
            c.scenario(
                Scenario {
                    name: leak(format!("{}-transplanted-F{r}-n{n}", s.name())),
                    bounds: leak(format!("honest proof for (vector, scalar) checked against the true statement of every other (basis vector, scalar) and against every claimed result, length {n} over F_{r}, digests {vals:?}")),
                    dev: 0,
                    oracle: cfg_values(r, &vals),
                    require: &["rejected", "accepted"],
                },
                move || {
                    let st = if s.transparent() { strings(s, n, 1, 1, Some(basis(n, r, n))) } else { strings(s, n, 3, 2, None) };
                    let a = basis(n, r, choose(n + 1));
                    let x = choose(r as usize) as u64;
                    let (_, p) = honest(s, &st, &a, x)?;
                    let a2 = basis(n, r, choose(n + 1));
                    let x2 = choose(r as usize) as u64;
                    let mut com = statement(s, &st, &a2, x2);
                    com.t[0] = (com.t[0] + choose(r as usize) as u64) % r;
                    observe_u64s(&[&a[..], &a2, &[x, x2, com.t[0]]].concat());
                    sound(s, &st, &com, x2, &p)
                },
            );
        }
    };
    transplant(c, m5::ALL, 1, 2);
    transplant(c, m5::ALL, 2, 2);
    transplant(c, m5::ALL, 4, if th { 3 } else { 1 });
    for s in m5::ALL {
        let s: Sy = *s;
        let r = s.r();
        c.scenario(
            Scenario {
                name: leak(format!("{}-shapes", s.name())),
                bounds: "honest proofs of length 2..8 with rounds dropped, repeated, swapped, halves exchanged, zero rounds inserted, identity outputs lengthened or emptied; key vectors (transparent) lengthened or shortened",
                dev: 0,
                oracle: cfg_values(r, if th { &[1, 4, 2] } else { &[4, 2] }),
                require: &["rejected"],
            },
            move || {
                let n = 1 << (1 + choose(3));
                let mut st = if s.transparent() { strings(s, n, 1, 1, Some(basis(n, r, n))) } else { strings(s, n, 3, 2, None) };
                let a = basis(n, r, n + choose(2));
                let x = choose_in(&[0, 3]);
                let (mut com, mut p) = honest(s, &st, &a, x)?;
                let q = p.steps.len();
                match choose(7) {
                    0 => drop(p.steps.remove(choose(q))),
                    1 => {
                        let c0 = || Com { a: 0, b: 0, t: s.tcom(0, 0) };
                        p.steps.insert(choose(q + 1), (c0(), c0()));
                    }
                    2 => {
                        let i = choose(q);
                        let x = p.steps[i].clone();
                        p.steps.insert(i, x);
                    }
                    3 => {
                        if q < 2 {
                            return excluded();
                        }
                        let i = choose(q - 1);
                        p.steps.swap(i, i + 1);
                    }
                    4 => {
                        let i = choose(q);
                        let (l, rr) = p.steps[i].clone();
                        p.steps[i] = (rr, l);
                    }
                    5 => {
                        if s.compact() {
                            return excluded();
                        }
                        let i = choose(1 + 2 * q);
                        let t = match i {
                            0 => &mut com.t,
                            i if i % 2 == 1 => &mut p.steps[(i - 1) / 2].0.t,
                            i => &mut p.steps[(i - 1) / 2].1.t,
                        };
                        match choose(3) {
                            0 => t.clear(),
                            1 => t.push(choose(r as usize) as u64),
                            _ => t.insert(0, choose(r as usize) as u64),
                        }
                    }
                    _ => {
                        if !s.transparent() {
                            return excluded();
                        }
                        match choose(4) {
                            0 => drop(st.k.a.pop()),
                            1 => st.k.a.push(choose(2) as u64),
                            2 => {
                                let e = vec![choose(2) as u64; n];
                                st.k.a.extend(e)
                            }
                            _ => st.k.a.truncate(n / 2),
                        }
                    }
                }
                observe_u64s(&[com.a, x]);
                observe_u64s(&st.k.a);
                obs_prf(&p);
                sound(s, &st, &com, x, &p)
            },
        );
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut c = Checker::new(&a[1], &a[2]);
    c.assumptions.push("group, field and pairing arithmetic of the backend is correct; replaced by transparent groups over small prime fields (scenarios named bls12-381: the real curve)".into());
    c.assumptions.push("the hash is a random oracle: every answer of the enumerated alphabet is explored; equal queries get equal answers".into());
    match a[1].as_str() {
        "C13" => {
            c13(&mut c);
            long(&mut c, 13);
            let top = if c.thorough { 6 } else { 3 };
            mc::wide::complete::<sw::SsmTransparentScalar>(&mut c, top);
            mc::wide::complete::<sw::SsmTransparentMultiexp>(&mut c, top);
            mc::wide::complete::<sw::SsmLogMultiexp>(&mut c, top);
            mc::wide::complete::<sw::SsmLogScalar>(&mut c, top);
        }
        "C14" => {
            c14(&mut c);
            long(&mut c, 14);
            let sizes: &[usize] = if c.thorough { &[1, 2, 4, 8, 16] } else { &[1, 2, 4] };
            mc::wide::sound::<sw::SsmTransparentScalar>(&mut c, sizes);
            mc::wide::sound::<sw::SsmTransparentMultiexp>(&mut c, sizes);
            mc::wide::sound::<sw::SsmLogMultiexp>(&mut c, sizes);
            mc::wide::sound::<sw::SsmLogScalar>(&mut c, sizes);
        }
        x => {
            eprintln!("unknown property {x}");
            std::process::exit(2);
        }
    }
    c.finish()
}
