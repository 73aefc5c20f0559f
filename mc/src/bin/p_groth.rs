//! C20 completeness, C21 soundness, C22 challenge binding of the Groth16 aggregation.
use mc::{explore::*, gens::*, groth::*, oracle::*, proto::*, refm::*, world::*};

mc::groth_world!(m3, W3, w3);
mc::groth_world!(m5, W5, w5);
mc::groth_world!(m7, W7, w7);
mc::groth_world!(m13, W13, w13);
mc::groth_world!(mb, WBig, wbig);

type Sy = &'static dyn Groth;
fn world(r: u64) -> Sy {
    match r {
        3 => &m3::Aggregation,
        5 => &m5::Aggregation,
        7 => &m7::Aggregation,
        13 => &m13::Aggregation,
        _ => &mb::Aggregation,
    }
}
struct St {
    srs: Srs,
    vk: Vk,
    g: GVk,
}
fn obs_agg(a: &Agg) {
    let mut v = a.v.to_vec();
    for p in [&a.ab, &a.c] {
        v.extend([p.base.0, p.base.1, p.fck.0, p.fck.1, p.open.0, p.open.1]);
        for (l, r) in &p.steps {
            v.extend([l.a, l.b, r.a, r.b]);
            v.extend(&l.t);
            v.extend(&r.t);
        }
    }
    observe_u64s(&v)
}
fn obs_all(st: &St, x: &[Vec<u64>], ps: &[G16]) {
    let mut v = st.g.flat();
    v.extend([st.vk.g_beta, st.vk.h_alpha, 99]);
    x.iter().for_each(|x| {
        v.push(1000 + x.len() as u64);
        v.extend(x)
    });
    ps.iter().for_each(|p| v.extend([p.0, p.1, p.2]));
    observe_u64s(&v)
}
/// Aggregate through the library. None: the combination challenge is degenerate (0 or 1).
fn aggregate(s: Sy, st: &St, ps: &[G16]) -> Result<Option<(Vec<u8>, u64)>, String> {
    let m = mark();
    let p = s.aggregate(&st.srs, ps);
    let rho = s.combination(m);
    if matches!(rho, Some(0 | 1)) {
        return Ok(None);
    }
    let rho = rho.ok_or("no combination challenge drawn")?;
    let b = p.ok().map_err(|e| format!("{e}: proofs {ps:?} challenge {rho} strings {:?}", st.vk))?;
    Ok(Some((b, rho)))
}
/// Honest aggregation of valid proofs must verify.
fn complete(s: Sy, st: &St, x: &[Vec<u64>], ps: &[G16], conform: bool) -> Outcome {
    let Some((b, rho)) = aggregate(s, st, ps)? else { return excluded() };
    let m = mark();
    let v = s.verify(&st.vk, &st.g, x, &b);
    if !v.accepted() {
        return Err(format!("aggregate of valid proofs {ps:?} not accepted ({v:?}): key {:?} inputs {x:?} strings {:?} challenge {rho}", st.g, st.vk));
    }
    if answers_since(m).len() > 3 + 2 * ps.len().trailing_zeros() as usize {
        tally("retried");
    }
    tally("accepted");
    if conform {
        let a = s.dec(&b).ok_or("aggregate does not decode")?;
        if s.enc(&s.replay(&st.srs, ps, &a, rho).ok_or("challenges missing")?) == b {
            validated();
        }
    }
    Ok(())
}
/// The verdict on anything may only be acceptance if the reference accepts.
fn judge(s: Sy, st: &St, x: &[Vec<u64>], a: &Agg) -> Outcome {
    let m = mark();
    let v = s.verify(&st.vk, &st.g, x, &s.enc(a));
    let rho = s.combination(m);
    if matches!(rho, Some(0 | 1)) {
        return excluded();
    }
    if !v.accepted() {
        tally("rejected");
        return Ok(());
    }
    let rho = rho.ok_or("accepted without a combination challenge")?;
    if !s.accepts(&st.vk, &st.g, x, a, rho) {
        return Err(format!("accepted although a checked equation fails (pairing equation {}): {a:?} key {:?} inputs {x:?} strings {:?} challenge {rho}", s.equation(&st.g, x, a, rho), st.g, st.vk));
    }
    tally("accepted");
    validated();
    Ok(())
}
fn strings(n: usize, al: u64, be: u64, r: u64) -> (Srs, Vk) {
    let s = Srs::model(n, al, be, r);
    let v = s.vk();
    (s, v)
}
/// Structured verifying keys: dense, zero parts, zero inputs.
fn gvk(r: u64, which: usize, k: usize) -> GVk {
    let abc = |m: u64| (0..=k as u64).map(|i| (i * i + m * i + m) % r).collect::<Vec<_>>();
    match which {
        0 => GVk { alpha: 2, beta: 1, gamma: 1, delta: 2, abc: abc(1) },
        1 => GVk { alpha: 1, beta: r - 1, gamma: 2, delta: 1, abc: abc(2) },
        2 => GVk { alpha: 0, beta: 1, gamma: 1, delta: 1, abc: abc(1) },
        3 => GVk { alpha: 1, beta: 1, gamma: 0, delta: 1, abc: abc(1) },
        4 => GVk { alpha: 1, beta: 2, gamma: 1, delta: 1, abc: vec![0; k + 1] },
        _ => GVk { alpha: 1, beta: 2, gamma: r - 1, delta: r - 1, abc: (0..=k).map(|i| (i == k) as u64).collect() },
    }
}
fn inputs(r: u64, n: usize, k: usize, which: usize) -> Vec<Vec<u64>> {
    (0..n as u64)
        .map(|i| {
            (0..k as u64)
                .map(|j| match which {
                    0 => (i + 2 * j + 1) % r,
                    1 => 0,
                    2 => (i * i + i * j + 2) % r,
                    _ => (i == n as u64 - 1) as u64,
                })
                .collect()
        })
        .collect()
}
/// n valid proofs; `which` picks the pattern of a and b.
fn proofs(g: &GVk, x: &[Vec<u64>], which: usize, r: u64) -> Option<Vec<G16>> {
    x.iter()
        .enumerate()
        .map(|(i, x)| {
            let i = i as u64;
            let (a, b) = match which {
                0 => (i + 1, i * i + 2),
                1 => (0, i),
                2 => (2 * i * i + 1, 0),
                _ => (1, 1),
            };
            g.complete(a % r, b % r, x, r)
        })
        .collect()
}

fn c20(c: &mut Checker) {
    let th = c.thorough;
    // one proof: everything
    let one = |c: &mut Checker, r: u64, k: usize, dev: u32, all_abc: bool| {
        let s = world(r);
        c.scenario(
            Scenario {
                name: leak(format!("one-proof-F{r}-k{k}")),
                bounds: leak(format!("one proof, {k} public inputs over F_{r}: all alpha, beta, gamma, delta, a, b, inputs and string secrets, {}, all challenges, up to {dev} unusable digests", if all_abc { "all input bases" } else { "three sets of input bases" })),
                dev,
                oracle: cfg_for(r),
                require: if dev > 0 { &["accepted", "retried"] } else { &["accepted"] },
            },
            move || {
                let v = choose_vec(6, r);
                let abc = if all_abc { choose_vec(k + 1, r) } else { gvk(r, choose_in(&[0, 1, 4]), k).abc };
                let g = GVk { alpha: v[0], beta: v[1], gamma: v[2], delta: v[3], abc };
                let x = vec![choose_vec(k, r)];
                let Some(p) = g.complete(v[4], v[5], &x[0], r) else { return excluded() };
                let (al, be) = if dev > 0 { choose_in(&[(2, 1), (0, 2)]) } else { (choose(r as usize) as u64, choose(r as usize) as u64) };
                let (srs, vk) = strings(1, al, be, r);
                let st = St { srs, vk, g };
                obs_all(&st, &x, &[p]);
                complete(s, &st, &x, &[p], false)
            },
        );
    };
    one(c, 3, 0, 0, true);
    one(c, 3, 1, th as u32, true);
    one(c, 3, 2, 0, false);
    if th {
        one(c, 5, 1, 0, false);
        one(c, 3, 3, 0, true);
    }
    let two = |c: &mut Checker, r: u64, k: usize, dev: u32, keys: &'static [usize], secrets: &'static [(u64, u64)]| {
        let s = world(r);
        c.scenario(
            Scenario {
                name: leak(format!("two-proofs-F{r}-k{k}")),
                bounds: leak(format!("two proofs, {k} public inputs over F_{r}: all a, b, inputs, {} verifying keys, secrets {secrets:?}, all challenges, up to {dev} unusable digests", keys.len())),
                dev,
                oracle: cfg_for(r),
                require: if dev > 0 { &["accepted", "retried"] } else { &["accepted"] },
            },
            move || {
                let g = gvk(r, choose_in(keys), k);
                let x = vec![choose_vec(k, r), choose_vec(k, r)];
                let v = choose_vec(4, r);
                let (Some(p), Some(q)) = (g.complete(v[0], v[1], &x[0], r), g.complete(v[2], v[3], &x[1], r)) else { return excluded() };
                let (al, be) = choose_in(secrets);
                let (srs, vk) = strings(2, al % r, be % r, r);
                let st = St { srs, vk, g };
                obs_all(&st, &x, &[p, q]);
                complete(s, &st, &x, &[p, q], true)
            },
        );
    };
    two(c, 3, 1, 0, &[0, 1, 4], &[(2, 1), (0, 2)]);
    two(c, 3, 0, 1, &[0, 2], &[(1, 2)]);
    if th {
        two(c, 3, 1, 1, &[0, 1, 2, 3, 4, 5], &[(2, 1), (0, 2), (1, 1), (2, 2)]);
        two(c, 3, 2, 0, &[0, 1, 4], &[(2, 1)]);
        two(c, 5, 1, 0, &[0], &[(3, 2)]);
    }
    let base = |c: &mut Checker, r: u64, ns: &'static [usize], ks: &'static [usize], chal: usize, dev: u32, threads: &'static [usize]| {
        let s = world(r);
        let vals: Vec<u64> = spread(r, chal + 1)[1..].to_vec();
        c.scenario(
            Scenario {
                name: leak(format!("patterns-F{r}-n{}", ns[ns.len() - 1])),
                bounds: leak(format!("{ns:?} proofs, {ks:?} public inputs over F_{r}: six verifying keys, four input patterns, four proof patterns, three secret pairs through the library's setup, digests {vals:?}, up to {dev} unusable digests, pools {threads:?}")),
                dev,
                oracle: cfg_values(r, &vals),
                require: if dev > 0 { &["accepted", "retried"] } else { &["accepted"] },
            },
            move || {
                rayon_core::mc::set_threads(choose_in(threads));
                let (n, k) = (choose_in(ns), choose_in(ks));
                let g = gvk(r, choose(6), k);
                let x = inputs(r, n, k, if k == 0 { 1 } else { choose(4) });
                let Some(ps) = proofs(&g, &x, choose(4), r) else { return excluded() };
                let (al, be) = [(2, 3), (r - 1, 1), (0, 2)][choose(3)];
                let (srs, vk) = s.setup(n, al % r, be % r)?;
                let st = St { srs, vk, g };
                obs_all(&st, &x, &ps);
                complete(s, &st, &x, &ps, true)
            },
        );
    };
    base(c, 7, &[1, 2, 4], &[0, 1, 2, 3], 1, 1, &[1]);
    base(c, 13, &[2, 4, 8], &[1, 2], 1, 0, &[1, 3]);
    base(c, 5, &[2], &[1, 2], 3, 0, &[1]);
    base(c, 5, &[4], &[1], 2, 0, &[1]);
    if th {
        base(c, 7, &[4, 8], &[0, 1, 4], 2, 0, &[1, 2]);
        base(c, 13, &[2, 4], &[0, 1, 5], 2, 1, &[1, 4]);
        base(c, 5, &[16, 32], &[1, 3], 1, 1, &[1, 2, 8]);
    }
    big_complete(c, th);
    long_complete(c, th)
}
fn big_complete(c: &mut Checker, th: bool) {
    let s = world(0);
    let r = WBig::R;
    let ns: &[usize] = if th { &[1, 2, 4, 8, 16, 32] } else { &[1, 2, 4, 8] };
    c.scenario(
        Scenario {
            name: "61-bit",
            bounds: leak(format!("{ns:?} proofs, 0..=5 public inputs, 61-bit field, real hash with up to one unusable digest, six verifying keys, two proof patterns")),
            dev: 1,
            oracle: OracleCfg::RealDev(r),
            require: &["accepted", "retried"],
        },
        move || {
            let n = ns[choose(ns.len())];
            let k = choose(6);
            let (st, x, ps) = big_state(n, k, choose(6) as u64);
            obs_all(&st, &x, &ps);
            complete(s, &st, &x, &ps, false)
        },
    );
}
/// Long batches: patterned a, b and inputs, the library's own setup.
fn long_state(n: usize, k: usize) -> Result<(St, Vec<Vec<u64>>, Vec<G16>), String> {
    let r = WBig::R;
    let g = GVk { alpha: big(44, 1), beta: big(44, 2), gamma: big(44, 3), delta: big(44, 4), abc: bigv(54, k + 1) };
    let (pa, pb) = choose_patterns2();
    let px = if pa == 0 && pb == 0 { choose(PATTERNS) } else { 0 };
    let (a, b) = (pattern(71, n, pa), pattern(81, n, pb));
    // the pattern runs over the instances in every column and, by the shift, over the columns
    let col = pattern(64, n + k, px);
    let x: Vec<Vec<u64>> = (0..n).map(|i| col[i..i + k].to_vec()).collect();
    let ps = x.iter().enumerate().map(|(i, x)| g.complete(a[i], b[i], x, r).unwrap()).collect();
    let (srs, vk) = world(0).setup(n, big(7, 4), big(8, 4))?;
    Ok((St { srs, vk, g }, x, ps))
}
fn long_complete(c: &mut Checker, th: bool) {
    let s = world(0);
    let ns: &[usize] = if th { &[16, 32, 64, 128, 256, 512] } else { &[16, 64, 256] };
    let ks: &[usize] = if th { &[0, 1, 2, 7, 16, 33] } else { &[0, 2, 17] };
    c.scenario(
        Scenario {
            name: "long-61bit",
            bounds: leak(format!("{ns:?} proofs with {ks:?} public inputs, 61-bit field, real hash, library setup: {PATTERNS} patterns of a, b and the inputs (zeros, repetitions, cancelling halves, one odd entry at each boundary position), pools of 1, 3 and 8 workers")),
            dev: 0,
            oracle: OracleCfg::Real,
            require: &["accepted"],
        },
        move || {
            let (n, k) = (ns[choose(ns.len())], ks[choose(ks.len())]);
            rayon_core::mc::set_threads(choose_in(&[1, 3, 8]));
            let (st, x, ps) = long_state(n, k)?;
            obs_all(&st, &x, &ps);
            let Some((b, rho)) = aggregate(s, &st, &ps)? else { return excluded() };
            let v = s.verify(&st.vk, &st.g, &x, &b);
            if !v.accepted() {
                return Err(format!("aggregate of {n} valid proofs with {k} inputs not accepted ({v:?})"));
            }
            tally("accepted");
            let m = s.model(&st.srs, &ps, &|_| Some(rho)).ok_or("no model aggregate")?.0;
            if s.enc(&m) == b {
                validated();
            }
            Ok(())
        },
    );
    let ns: &[usize] = if th { &[1, 2, 4, 8, 16] } else { &[2, 4] };
    c.scenario(
        Scenario {
            name: "pattern-pairs-61bit",
            bounds: leak(format!("{ns:?} proofs with 2 public inputs, 61-bit field, real hash: a and b, a and an input column, b and an input column, or both input columns each of {PATTERNS} patterns, every pair, and equal ones")),
            dev: 0,
            oracle: OracleCfg::Real,
            require: &["accepted"],
        },
        move || {
            let r = WBig::R;
            let n = ns[choose(ns.len())];
            rayon_core::mc::set_threads(3);
            let g = GVk { alpha: big(44, 1), beta: big(44, 2), gamma: big(44, 3), delta: big(44, 4), abc: bigv(54, 3) };
            let mut v = [71, 81, 64, 65].map(|i| pattern(i, n, 0));
            let (p, q) = [(0, 1), (0, 2), (1, 3), (2, 3)][choose(4)];
            let (x, y, what) = choose_pattern_pair((1, 2), n);
            (v[p], v[q]) = (x, y);
            let x: Vec<Vec<u64>> = (0..n).map(|i| vec![v[2][i], v[3][i]]).collect();
            let ps: Vec<G16> = (0..n).map(|i| g.complete(v[0][i], v[1][i], &x[i], r).unwrap()).collect();
            let (srs, vk) = world(0).setup(n, big(7, 4), big(8, 4))?;
            let st = St { srs, vk, g };
            obs_all(&st, &x, &ps);
            complete(s, &st, &x, &ps, false).map_err(|e| format!("{n} proofs, {what} in {p} and {q}: {}", e.chars().take(300).collect::<String>()))
        },
    );
}
fn long_invalid(c: &mut Checker, th: bool) {
    let s = world(0);
    let r = WBig::R;
    let ns: &[usize] = if th { &[8, 16, 32, 64, 128, 256] } else { &[8, 64] };
    let at: &[usize] = if th { &[0, 1, 2, 3, 4] } else { &[0, 3, 4] };
    let ds: &[u64] = if th { &[1, r - 1, 1 << 33] } else { &[1, 1 << 33] };
    let ks: &[usize] = if th { &[1, 3, 17] } else { &[3] };
    c.scenario(
        Scenario {
            name: "long-invalid",
            bounds: leak(format!("{ns:?} proofs with {ks:?} public inputs, 61-bit field, real hash, {PATTERNS} patterns of a, b and inputs; the aggregate made from the proofs with a, b or c of one instance, or the sum-preserving pair of two, changed at every boundary position; or one (or two, sum-preserving) public inputs changed: rejected")),
            dev: 0,
            oracle: OracleCfg::Real,
            require: &["rejected"],
        },
        move || {
            let (n, k) = (ns[choose(ns.len())], ks[choose(ks.len())]);
            let (st, mut x, mut ps) = long_state(n, k)?;
            let i = edge(n, at[choose(at.len())]);
            let j = (i + 1 + choose(2) * (n / 2 - 1)) % n;
            let d = ds[choose(ds.len())];
            match choose(8) {
                0 => ps[i].0 = addm(ps[i].0, d, r),
                1 => ps[i].1 = addm(ps[i].1, d, r),
                2 => ps[i].2 = addm(ps[i].2, d, r),
                3 => {
                    ps[i].2 = addm(ps[i].2, d, r);
                    ps[j].2 = subm(ps[j].2, d, r);
                }
                4 => ps.swap(i, j),
                5 => {
                    let l = choose_in(&[0, k - 1]);
                    x[i][l] = addm(x[i][l], d, r)
                }
                6 => {
                    let l = choose_in(&[0, k - 1]);
                    x[i][l] = addm(x[i][l], d, r);
                    x[j][l] = subm(x[j][l], d, r);
                }
                _ => x.swap(i, j),
            }
            if (0..n).all(|i| st.g.defect(ps[i], &x[i], r) == 0) {
                return excluded();
            }
            obs_all(&st, &x, &ps);
            let Some((b, _)) = aggregate(s, &st, &ps)? else { return excluded() };
            if s.verify(&st.vk, &st.g, &x, &b).accepted() {
                let bad: Vec<usize> = (0..n).filter(|i| st.g.defect(ps[*i], &x[*i], r) != 0).collect();
                return Err(format!("{n} proofs with {k} inputs: accepted although instances {bad:?} are invalid"));
            }
            tally("rejected");
            Ok(())
        },
    );
}
fn big_state(n: usize, k: usize, seed: u64) -> (St, Vec<Vec<u64>>, Vec<G16>) {
    let r = WBig::R;
    let b = |i| big(40 + seed, i);
    let g = GVk { alpha: b(1), beta: b(2), gamma: b(3), delta: b(4), abc: bigv(50 + seed, k + 1) };
    let x: Vec<Vec<u64>> = (0..n as u64).map(|i| bigv(60 + seed * 100 + i, k)).collect();
    let ps = x.iter().enumerate().map(|(i, x)| g.complete(big(70 + seed, i as u64), big(80 + seed, i as u64), x, r).unwrap()).collect();
    let (srs, vk) = strings(n, big(7, seed), big(8, seed), r);
    (St { srs, vk, g }, x, ps)
}

fn c21(c: &mut Checker) {
    let th = c.thorough;
    // exactly one proof or input wrong: rejected whatever the challenge
    let invalid = |c: &mut Checker, r: u64, ns: &'static [usize], k: usize, chal: usize, keys: &'static [usize]| {
        let s = world(r);
        let vals: Vec<u64> = if chal == 0 { (1..r).collect() } else { spread(r, chal + 1)[1..].to_vec() };
        c.scenario(
            Scenario {
                name: leak(format!("one-invalid-F{r}-n{}-k{k}", ns[ns.len() - 1])),
                bounds: leak(format!("{ns:?} proofs, {k} inputs over F_{r}: one proof's (a, b or c), one public input, or one verifying-key element changed by every value so that exactly one instance (or the key) becomes false; digests {vals:?}")),
                dev: 0,
                oracle: cfg_values(r, &vals),
                require: &["rejected"],
            },
            move || {
                let n = choose_in(ns);
                let g = gvk(r, choose_in(keys), k);
                let x = inputs(r, n, k, choose(3));
                let Some(mut ps) = proofs(&g, &x, choose(4), r) else { return excluded() };
                let (srs, vk) = strings(n, 2, r - 1, r);
                let (mut x2, i) = (x.clone(), choose(n));
                let d = 1 + choose(r as usize - 1) as u64;
                let what = choose(3 + k);
                match what {
                    0 => ps[i].0 = addm(ps[i].0, d, r),
                    1 => ps[i].1 = addm(ps[i].1, d, r),
                    2 => ps[i].2 = addm(ps[i].2, d, r),
                    j => x2[i][j - 3] = addm(x2[i][j - 3], d, r),
                }
                if g.defect(ps[i], &x2[i], r) == 0 {
                    return excluded();
                }
                let st = St { srs, vk, g };
                obs_all(&st, &x2, &ps);
                let Some((b, rho)) = aggregate(s, &st, &ps)? else { return excluded() };
                let v = s.verify(&st.vk, &st.g, &x2, &b);
                if v.accepted() {
                    return Err(format!("accepted although instance {i} alone is invalid: proofs {ps:?} inputs {x2:?} key {:?} challenge {rho}", st.g));
                }
                tally("rejected");
                Ok(())
            },
        );
    };
    invalid(c, 3, &[1, 2], 1, 0, &[0, 1, 2, 5]);
    invalid(c, 7, &[1, 2], 2, 2, &[0, 1]);
    invalid(c, 5, &[4], 1, 1, &[0]);
    invalid(c, 13, &[2, 4], 3, 1, &[1]);
    if th {
        invalid(c, 5, &[1, 2], 2, 0, &[0, 1, 2, 3, 4, 5]);
        invalid(c, 5, &[4, 8], 2, 1, &[0, 1, 4, 5]);
        invalid(c, 7, &[4], 1, 2, &[0, 1]);
        invalid(c, 13, &[8, 16], 2, 1, &[0, 1]);
    }
    // every value carried in the aggregate
    let all1 = |c: &mut Checker, r: u64, half: usize| {
        let s = world(r);
        c.scenario(
            Scenario {
                name: leak(format!("all-n1-F{r}-{}", ["ab", "c", "all"][half])),
                bounds: leak(format!("one instance over F_{r}: commitments, products and {} enumerated exhaustively; all challenges", ["the left argument (the right one honest)", "the right argument (the left one honest)", "both arguments"][half])),
                dev: 0,
                oracle: cfg_for(r),
                require: &["accepted", "rejected"],
            },
            move || {
                let g = gvk(r, if half == 2 { 0 } else { choose(2) }, 1);
                let (srs, vk) = strings(1, 2, 1, r);
                let x = vec![vec![1]];
                let p = g.complete(1, 2, &x[0], r).unwrap();
                let (a, b, cc) = p;
                let st = St { srs, vk, g };
                let mut agg = Agg { v: [a, b, cc, mulm(a, b, r), cc], ab: Prf { base: (a, b), fck: (1, 1), ..Default::default() }, c: Prf { base: (cc, 1), fck: (1, 0), ..Default::default() } };
                let v = choose_vec(5, r);
                agg.v = [v[0], v[1], v[2], v[3], v[4]];
                if half != 1 {
                    let v = choose_vec(6, r);
                    agg.ab = Prf { base: (v[0], v[1]), fck: (v[2], v[3]), open: (v[4], v[5]), ..Default::default() };
                }
                if half != 0 {
                    let v = choose_vec(3, r);
                    agg.c = Prf { base: (v[0], 1), fck: (v[1], 0), open: (v[2], 0), ..Default::default() };
                }
                obs_all(&st, &x, &[p]);
                obs_agg(&agg);
                judge(s, &st, &x, &agg)
            },
        );
    };
    all1(c, 3, 0);
    all1(c, 3, 1);
    if th {
        all1(c, 5, 1);
        all1(c, 3, 2);
    }
    let tamper = |c: &mut Checker, r: u64, n: usize, k: usize, muts: usize, deltas: usize, chal: usize| {
        let s = world(r);
        let vals: Vec<u64> = spread(r, chal + 1)[1..].to_vec();
        c.scenario(
            Scenario {
                name: leak(format!("tampered-F{r}-n{n}-x{muts}")),
                bounds: leak(format!("honest aggregates of {n} proofs with {k} inputs over F_{r}; {muts} component(s) among the aggregate, public inputs, verifying key and verifier string changed by {deltas} value(s); digests {vals:?}")),
                dev: 0,
                oracle: cfg_values(r, &vals),
                require: &["rejected"],
            },
            move || {
                let g = gvk(r, if muts > 1 { 0 } else { choose(2) }, k);
                let x = inputs(r, n, k, 0);
                let ps = proofs(&g, &x, if muts > 1 { 0 } else { choose_in(&[0, 3]) }, r).unwrap();
                let (srs, vk) = strings(n, 2, r - 1, r);
                let mut st = St { srs, vk, g };
                let Some((b, _)) = aggregate(s, &st, &ps)? else { return excluded() };
                let mut a = s.dec(&b).ok_or("aggregate does not decode")?;
                let mut x = x;
                let sl = a.slots();
                let mut names = String::new();
                for i in choose_slots(sl + n * k + 4 + k + 1 + 4, muts) {
                    let d = 1 + choose(deltas) as u64;
                    let j = i.wrapping_sub(sl);
                    let (y, nm) = if i < sl {
                        a.slot(i)
                    } else if j < n * k {
                        (&mut x[j / k][j % k], format!("input {}.{}", j / k, j % k))
                    } else {
                        let j = j - n * k;
                        match j {
                            0 => (&mut st.g.alpha, "alpha".into()),
                            1 => (&mut st.g.beta, "beta".into()),
                            2 => (&mut st.g.gamma, "gamma".into()),
                            3 => (&mut st.g.delta, "delta".into()),
                            j if j < 5 + k => (&mut st.g.abc[j - 4], format!("base {}", j - 4)),
                            j => match j - 5 - k {
                                0 => (&mut st.vk.g, "g".into()),
                                1 => (&mut st.vk.h, "h".into()),
                                2 => (&mut st.vk.g_beta, "g_beta".into()),
                                _ => (&mut st.vk.h_alpha, "h_alpha".into()),
                            },
                        }
                    };
                    *y = addm(*y, d, r);
                    names += &format!("{nm} +{d}; ");
                }
                note(|| names);
                obs_all(&st, &x, &ps);
                obs_agg(&a);
                judge(s, &st, &x, &a)
            },
        );
    };
    tamper(c, 5, 1, 1, 1, 4, 3);
    tamper(c, 7, 2, 1, 1, 2, 1);
    tamper(c, 5, 4, 2, 1, 1, 1);
    tamper(c, 5, 1, 1, 2, 1, 1);
    tamper(c, 5, 2, 1, 2, 1, 1);
    if th {
        tamper(c, 3, 2, 1, 1, 2, 2);
        tamper(c, 7, 4, 2, 1, 6, 1);
        tamper(c, 5, 8, 2, 1, 4, 1);
        tamper(c, 5, 2, 1, 2, 4, 1);
        tamper(c, 7, 1, 1, 3, 2, 1);
        tamper(c, 5, 4, 1, 2, 1, 1);
        tamper(c, 13, 4, 1, 1, 12, 1);
    }
    // pieces of two honest aggregates, rounds added, dropped or exchanged
    let s = world(7);
    let ns: &'static [usize] = if th { &[1, 2, 4, 8] } else { &[1, 2, 4] };
    c.scenario(
        Scenario {
            name: "mixed-F7",
            bounds: leak(format!("{ns:?} proofs over F_7: every part of one honest aggregate (each commitment and product, either argument) replaced by that of another (same or different size), rounds dropped, duplicated, exchanged or reversed; digest 6")),
            dev: 0,
            oracle: cfg_values(7, &[6]),
            require: &["accepted", "rejected"],
        },
        move || {
            let r = 7;
            let (n, n2) = (choose_in(ns), choose_in(ns));
            let g = gvk(r, 0, 1);
            let mk = |n: usize, w: usize| -> Result<_, String> {
                let x = inputs(r, n, 1, w);
                let ps = proofs(&g, &x, w, r).unwrap();
                let (srs, vk) = strings(n, 2, 3, r);
                let st = St { srs, vk, g: g.clone() };
                let b = aggregate(s, &st, &ps)?.ok_or("degenerate")?.0;
                Ok((st, x, s.dec(&b).ok_or("decode")?))
            };
            let (st, x, mut a) = mk(n, 0)?;
            let (_, _, o) = mk(n2, choose_in(&[0, 3]))?;
            match choose(2) {
                0 => {
                    let m = choose(128);
                    for i in 0..5 {
                        if m >> i & 1 == 1 {
                            a.v[i] = o.v[i]
                        }
                    }
                    if m >> 5 & 1 == 1 {
                        a.ab = o.ab
                    }
                    if m >> 6 & 1 == 1 {
                        a.c = o.c
                    }
                    observe_u64s(&[n as u64, n2 as u64, m as u64]);
                }
                _ => {
                    if n2 != n {
                        return excluded();
                    }
                    let w = choose(2);
                    let st = if w == 0 { &mut a.ab.steps } else { &mut a.c.steps };
                    let op = choose(5);
                    if st.is_empty() && op != 1 {
                        return excluded();
                    }
                    let i = choose(st.len().max(1));
                    match op {
                        0 => {
                            st.remove(i);
                        }
                        1 => {
                            let e = st.get(i).cloned().unwrap_or((Com { a: 1, b: 2, t: vec![1] }, Com { a: 0, b: 0, t: vec![0] }));
                            st.insert(i, e);
                        }
                        2 => st[i] = (st[i].1.clone(), st[i].0.clone()),
                        3 => st.reverse(),
                        _ => st.clear(),
                    }
                    observe_u64s(&[n as u64, w as u64, op as u64, i as u64]);
                }
            }
            judge(s, &st, &x, &a)
        },
    );
    long_invalid(c, th);
    // wrong public input lists
    let s = world(0);
    let r = WBig::R;
    let (nm, kmax) = if th { (4, 3) } else { (2, 2) };
    c.scenario(
        Scenario {
            name: "input-lists",
            bounds: leak(format!("61-bit field, real hash, 1..={nm} proofs, 0..={kmax} inputs: every list of 0..={} instances whose lengths each differ from the expected one by -1..=2 (entries kept, cut or extended by zero or non-zero values): refused without panic unless it is exactly the right list", nm + 1)),
            dev: 0,
            oracle: OracleCfg::Real,
            require: &["accepted", "refused"],
        },
        move || {
            let n = choose_in(&[1, 2, 4][..if nm > 2 { 3 } else { 2 }]);
            let k = choose(kmax + 1);
            let (st, x, ps) = big_state(n, k, 0);
            let Some((b, _)) = aggregate(s, &st, &ps)? else { return excluded() };
            let cnt = choose(nm + 2);
            let mut y: Vec<Vec<u64>> = vec![];
            let fill = choose(2);
            for i in 0..cnt {
                let mut v = x.get(i).cloned().unwrap_or_else(|| if fill == 0 { vec![0; k] } else { x[0].clone() });
                match choose(4) {
                    0 => {}
                    1 => v.push(fill as u64),
                    2 => v.extend([fill as u64, 3]),
                    _ => {
                        if v.pop().is_none() {
                            return excluded();
                        }
                    }
                }
                y.push(v);
            }
            obs_all(&st, &y, &ps);
            let v = s.verify(&st.vk, &st.g, &y, &b);
            if y == x {
                if !v.accepted() {
                    return Err(format!("the right list of inputs is not accepted: {v:?}"));
                }
                tally("accepted");
                return Ok(());
            }
            let lens: Vec<usize> = y.iter().map(|v| v.len()).collect();
            match v {
                Verdict::Accept => Err(format!("{n} proofs with {k} inputs each: a list with lengths {lens:?} is accepted (same entries up to length: {})", y.iter().zip(&x).all(|(p, q)| p.iter().zip(q).all(|(a, b)| a == b)))),
                Verdict::Panic(e) => Err(format!("{n} proofs with {k} inputs each: panic on a list with lengths {lens:?}: {e}")),
                _ => {
                    tally("refused");
                    Ok(())
                }
            }
        },
    );
    c.scenario(
        Scenario {
            name: "61-bit-tampered",
            bounds: leak(format!("61-bit field, real hash, 1, 2, 4, 8, 32{} proofs with 2 inputs: every aggregate value, input, verifying-key and verifier-string element changed by {} values, inputs of two instances or columns exchanged, instances appended or dropped: rejected", if th { ", 64, 128" } else { "" }, if th { 4 } else { 1 })),
            dev: 0,
            oracle: OracleCfg::Real,
            require: &["rejected"],
        },
        move || {
            let n = choose_in(&[1, 2, 4, 8, 32, 64, 128][..if th { 7 } else { 5 }]);
            let (mut st, mut x, ps) = big_state(n, 2, 1);
            let m = mark();
            let p = s.aggregate(&st.srs, &ps).ok()?;
            let rho = s.combination(m).ok_or("no challenge")?;
            let (mut a, _) = s.model(&st.srs, &ps, &|_| Some(rho)).ok_or("no model aggregate")?;
            if s.enc(&a) == p {
                validated();
            }
            if !s.verify(&st.vk, &st.g, &x, &s.enc(&a)).accepted() {
                return Err(format!("model aggregate of {n} proofs not accepted"));
            }
            let sl = a.slots();
            let extra = 2 * n + 7 + 4;
            let i = choose(sl + extra + 4);
            let d = [1, r - 1, 1 << 40, r / 2][choose(if th { 4 } else { 1 })];
            observe_u64s(&[n as u64, i as u64, d]);
            let what = if i < sl + extra {
                let j = i.wrapping_sub(sl);
                let (y, nm) = if i < sl {
                    a.slot(i)
                } else if j < 2 * n {
                    (&mut x[j / 2][j % 2], format!("input {j}"))
                } else {
                    match j - 2 * n {
                        0 => (&mut st.g.alpha, "alpha".into()),
                        1 => (&mut st.g.beta, "beta".into()),
                        2 => (&mut st.g.gamma, "gamma".into()),
                        3 => (&mut st.g.delta, "delta".into()),
                        j @ 4..=6 => (&mut st.g.abc[j - 4], "base".into()),
                        7 => (&mut st.vk.g, "g".into()),
                        8 => (&mut st.vk.h, "h".into()),
                        9 => (&mut st.vk.g_beta, "g_beta".into()),
                        _ => (&mut st.vk.h_alpha, "h_alpha".into()),
                    }
                };
                // parts that are not transmitted
                if nm == "c final right key" || nm == "c right key opening" {
                    return excluded();
                }
                *y = addm(*y, d, r);
                nm
            } else {
                match i - sl - extra {
                    0 if n > 1 => {
                        x.swap(0, n - 1);
                        "instances exchanged".into()
                    }
                    1 => {
                        x.iter_mut().for_each(|x| x.swap(0, 1));
                        "columns exchanged".into()
                    }
                    2 => {
                        x.push(x[0].clone());
                        "instance appended".into()
                    }
                    3 if n > 1 => {
                        x.pop();
                        "instance dropped".into()
                    }
                    _ => return excluded(),
                }
            };
            let v = s.verify(&st.vk, &st.g, &x, &s.enc(&a));
            if !v.accepted() {
                tally("rejected");
                return Ok(());
            }
            let m = mark();
            s.verify(&st.vk, &st.g, &x, &s.enc(&a));
            let rho = s.combination(m).ok_or("no challenge")?;
            if s.accepts(&st.vk, &st.g, &x, &a, rho) {
                tally("still valid");
                return Ok(());
            }
            Err(format!("{n} proofs: accepted with {what} changed"))
        },
    );
}

fn c22(c: &mut Checker) {
    let th = c.thorough;
    let s = world(0);
    let r = WBig::R;
    let ns: &'static [usize] = if th { &[1, 2, 4, 8, 16, 32, 64] } else { &[1, 2, 4, 16, 32] };
    let honest = move |st: &St, ps: &[G16]| -> Result<(Agg, u64), String> {
        let m = mark();
        let p = s.aggregate(&st.srs, ps).ok()?;
        let rho = s.combination(m).ok_or("no challenge")?;
        let (a, _) = s.model(&st.srs, ps, &|_| Some(rho)).ok_or("no model aggregate")?;
        if s.enc(&a) == p {
            validated();
        }
        Ok((a, rho))
    };
    let depends = |c: &mut Checker, name: &'static str, ns: &'static [usize], dev: u32| c.scenario(
        Scenario {
            name,
            bounds: leak(format!("{ns:?} proofs, 61-bit field, real hash, up to {} unusable digests: each commitment, aggregated product and argument value changed by {} value(s), pairs of commitments exchanged: the combination challenge's hash inputs all change for commitments, all the inner argument's hash inputs change for its statement", dev, if th { 4 } else { 2 })),
            dev,
            oracle: OracleCfg::RealDev(r),
            require: &["challenge changed", "argument changed"],
        },
        move || {
            let n = choose_in(ns);
            let (st, x, ps) = big_state(n, 1, 2);
            let (a, _) = honest(&st, &ps)?;
            let draws = |a: &Agg| -> Result<(Vec<Vec<u8>>, Vec<Vec<u8>>), String> {
                let m = mark();
                let v = s.verify(&st.vk, &st.g, &x, &s.enc(a));
                let (q, d) = (queries_since(m), bytes_since(m));
                let i = d.iter().position(|d| s.tipa().fval(d).is_some()).ok_or(format!("no combination challenge ({v:?})"))?;
                Ok((q[..=i].to_vec(), q[i + 1..].to_vec()))
            };
            let (r0, rest0) = draws(&a)?;
            let mut b = a.clone();
            let i = choose(8);
            let d = [1, r / 3, r - 1, 1 << 40][choose(if th { 4 } else { 2 })];
            let what = if i < 5 {
                b.v[i] = addm(b.v[i], d, r);
                ["com_a", "com_b", "com_c", "ip_ab", "agg_c"][i]
            } else {
                let (p, q) = [(0, 1), (0, 2), (1, 2)][i - 5];
                b.v.swap(p, q);
                "order of commitments"
            };
            observe_u64s(&[n as u64, i as u64, d]);
            let (r1, rest1) = draws(&b)?;
            if i < 3 || i >= 5 {
                if let Some(k) = r1.iter().position(|q| r0.contains(q)) {
                    return Err(format!("{n} proofs: {what} changed, combination-challenge hash input {k} did not"));
                }
                tally("challenge changed");
            }
            // hash inputs of the argument whose statement changed
            let rounds = n.trailing_zeros() as usize;
            if rounds > 0 && (i == 3 || i == 4) {
                let shared = rest0.iter().filter(|q| rest1.contains(q)).count();
                // the other argument's queries may coincide: rounds + key challenge (+ retries)
                if shared > rest0.len() - (rounds + 1) {
                    return Err(format!("{n} proofs: {what} changed, yet {shared} of {} argument hash inputs did not", rest0.len()));
                }
                tally("argument changed");
            }
            validated();
            Ok(())
        },
    );
    depends(c, "depends", if th { &[1, 2, 4, 8] } else { &[1, 2, 4] }, 2);
    depends(c, "depends-long", if th { &[16, 32, 64, 128, 256] } else { &[16, 32, 128] }, th as u32);
    // after learning the challenge, choose something and solve the pairing equation for it
    c.scenario(
        Scenario {
            name: "choose-after-challenge",
            bounds: leak(format!("{ns:?} proofs with 2 inputs, 61-bit field, real hash: the aggregate is made first; then one proof-side value (com_a, com_b, com_c, ip_ab, agg_c) or verifier-independent input is chosen so that the pairing equation holds for a falsified instance (each position)")),
            dev: 0,
            oracle: OracleCfg::Real,
            require: &["rejected"],
        },
        move || {
            let n = choose_in(ns);
            let (st, mut x, ps) = big_state(n, 2, 3);
            let (mut a, rho) = honest(&st, &ps)?;
            let (i, j) = (choose(n), choose(2));
            x[i][j] = addm(x[i][j], big(5, 2), r);
            // repair through ip_ab or agg_c, the commitment made consistent or not
            let g = &st.g;
            let how = choose(4);
            let pw = powers(rho, n, r);
            let ics: Vec<u64> = x.iter().map(|x| g.ic(x, r)).collect();
            let sum = pw.iter().fold(0, |s, p| addm(s, *p, r));
            let fixed = addm(mulm(mulm(g.alpha, sum, r), g.beta, r), mulm(dot(&ics, &pw, r), g.gamma, r), r);
            if how % 2 == 0 {
                a.v[3] = addm(fixed, mulm(a.v[4], g.delta, r), r);
            } else {
                a.v[4] = mulm(subm(a.v[3], fixed, r), invm(g.delta, r), r);
            }
            if !s.equation(g, &x, &a, rho) {
                return Err("harness: equation not repaired".into());
            }
            if how >= 2 {
                // the prover rebuilds both arguments for its false claim (one final message adjusted)
                a.ab.base.0 = if a.ab.base.1 == 0 { 1 } else { addm(a.ab.base.0, mulm(1, invm(a.ab.base.1, r), r), r) };
            }
            observe_u64s(&[n as u64, i as u64, j as u64, how as u64]);
            let v = s.verify(&st.vk, g, &x, &s.enc(&a));
            if v.accepted() {
                return Err(format!("{n} proofs: instance {i} input {j} falsified and {} chosen after the challenge, accepted", ["ip_ab", "agg_c"][how % 2]));
            }
            tally("rejected");
            Ok(())
        },
    );
    c.scenario(
        Scenario {
            name: "inputs-reused",
            bounds: leak(format!("{ns:?} proofs with 1 and 2 inputs, 61-bit field, real hash: an honest aggregate verified against other public inputs solved from the known challenge, for every pair of instances and input position, and against one more instance")),
            dev: 0,
            oracle: OracleCfg::Real,
            require: &[],
        },
        move || {
            let n = choose_in(ns);
            let k = 1 + choose(2);
            let (st, mut x, ps) = big_state(n, k, 4);
            let (a, rho) = honest(&st, &ps)?;
            let pw = powers(rho, n + 1, r);
            let (p, q) = (choose(n + 1), choose(n));
            let j = choose(k);
            if p == q {
                return excluded();
            }
            observe_u64s(&[n as u64, k as u64, p as u64, q as u64, j as u64]);
            let g = &st.g;
            let (key, err);
            if p < n {
                key = "inputs-of-two-instances";
                let d = big(6, 3);
                x[p][j] = addm(x[p][j], d, r);
                x[q][j] = subm(x[q][j], mulm(mulm(d, pw[p], r), invm(pw[q], r), r), r);
                err = "known-challenge combination of two instances' inputs";
            } else {
                // one more instance, balanced by instance q
                key = "extra-instance";
                if q >= n || k == 0 {
                    return excluded();
                }
                let extra = bigv(91, k);
                let add = mulm(pw[n], addm(mulm(g.alpha, g.beta, r), mulm(g.ic(&extra, r), g.gamma, r), r), r);
                x.push(extra);
                let w = mulm(mulm(pw[q], g.gamma, r), g.abc[1 + j], r);
                x[q][j] = subm(x[q][j], mulm(add, invm(w, r), r), r);
                err = "an extra instance balanced by another's input";
            }
            if !s.equation(g, &x, &a, rho) {
                return Err("harness: equation not balanced".into());
            }
            let v = s.verify(&st.vk, g, &x, &s.enc(&a));
            if v.accepted() {
                return Err(format!("[{key}] {n} proofs with {k} inputs: {err} ({p}, {q}, input {j}) accepted with an unchanged aggregate"));
            }
            tally("rejected");
            Ok(())
        },
    );
}

mc::wide_groth!(gw);

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut c = Checker::new(&a[1], &a[2]);
    c.assumptions.push("group, field and pairing arithmetic of the backend is correct; replaced by transparent groups of small prime order (61-bit or BLS12-381 where stated)".into());
    c.assumptions.push("combination challenges 0 and 1 are degenerate and excluded".into());
    match a[1].as_str() {
        "C20" => {
            c20(&mut c);
            let top = if c.thorough { 4 } else { 2 };
            mc::wide::complete::<gw::Aggregation>(&mut c, top)
        }
        "C21" => {
            c21(&mut c);
            let th = c.thorough;
            mc::wide::sound::<gw::Aggregation>(&mut c, if th { &[1, 2, 4] } else { &[1, 2] });
            gw::one_bad(&mut c, if th { &[1, 2, 4, 8, 16] } else { &[1, 2, 4] })
        }
        _ => {
            c22(&mut c);
            let th = c.thorough;
            gw::depends(&mut c, if th { &[1, 2, 4, 8, 16] } else { &[1, 2, 4] })
        }
    }
    c.finish()
}
