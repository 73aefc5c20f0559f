//! C15 KZG, C16/C17 trusted-setup and C18/C19 transparent polynomial commitments, C28 splitting.
use ark_ip_proofs::applications::poly_commit::KZG;
use ark_ip_proofs::tipa::VerifierSRS;
use ark_poly::{univariate::DensePolynomial, DenseUVPolynomial};
use mc::{explore::*, gens::*, oracle::*, poly::*, proto::*, refm::*, rng::Script, world::*};

mc::pc_world!(m3, W3, w3);
mc::pc_world!(m5, W5, w5);
mc::pc_world!(m7, W7, w7);
mc::pc_world!(m13, W13, w13);
mc::pc_world!(mb, WBig, wbig);

type Sy = &'static dyn Pc;
fn pick(trusted: bool, which: u64) -> Sy {
    match (trusted, which) {
        (true, 3) => &m3::Trusted,
        (true, 5) => &m5::Trusted,
        (true, 7) => &m7::Trusted,
        (true, 13) => &m13::Trusted,
        (true, _) => &mb::Trusted,
        (false, 3) => &m3::Transparent,
        (false, 5) => &m5::Transparent,
        (false, 7) => &m7::Transparent,
        (false, 13) => &m13::Transparent,
        (false, _) => &mb::Transparent,
    }
}

fn kzg<W: World>(c: &mut Checker, dmax: usize, stale: bool) {
    let r = W::R;
    let poly = |p: &[u64]| DensePolynomial::from_coefficients_vec(p.iter().map(|x| W::f(*x)).collect());
    c.scenario(
        Scenario {
            name: leak(format!("kzg-complete-F{r}-d{dmax}")),
            bounds: leak(format!("degree bounds 0..={dmax}, all polynomials up to the bound{}, all secrets and points over F_{r}: commitment and opening verify for the evaluation and for no other value", if stale { " and one longer" } else { "" })),
            dev: 0,
            oracle: OracleCfg::None,
            require: if stale { &["accepted", "refused"] } else { &["accepted"] },
        },
        || {
            let d = choose(dmax + 1);
            let (x, y) = (choose(r as usize) as u64, if dmax > 2 { 1 } else { choose(r as usize) as u64 });
            let mut p = choose_vec(d + 1, r);
            let (pw, v) = KZG::<W>::setup(&mut Script::new(&[x, y], r), d).map_err(|e| e.to_string())?;
            let alpha = W::d2(&v.h_alpha);
            let z = choose(r as usize) as u64;
            observe_u64s(&[&[d as u64, x, y, z], &p[..]].concat());
            if stale && choose(2) == 1 {
                p.push(1 + choose(r as usize - 1) as u64);
                let what = |s: &str| Err(format!("{s} of {p:?} accepted by a KZG string for degree {d} (alpha={alpha})"));
                if let Ok(Ok(_)) = guard(|| KZG::<W>::commit(&pw, &poly(&p)).map_err(|e| e.to_string())) {
                    return what("commitment");
                }
                if let Ok(Ok(_)) = guard(|| KZG::<W>::open(&pw, &poly(&p), &W::f(z)).map_err(|e| e.to_string())) {
                    return what("opening");
                }
                tally("refused");
                return Ok(());
            }
            let com = KZG::<W>::commit(&pw, &poly(&p)).map_err(|e| e.to_string())?;
            if W::d1(&com) == eval(&p, alpha, r) {
                validated();
            }
            let o = KZG::<W>::open(&pw, &poly(&p), &W::f(z)).map_err(|e| e.to_string())?;
            let good = eval(&p, z, r);
            for e in 0..r {
                let a = KZG::<W>::verify(&v, &com, &W::f(z), &W::f(e), &o).map_err(|e| e.to_string())?;
                if a != (e == good) {
                    return Err(format!("polynomial {p:?}, alpha={alpha}, point {z}: value {e} {}, the evaluation is {good}", if a { "accepted" } else { "rejected" }));
                }
            }
            tally("accepted");
            Ok(())
        },
    );
}
fn kzg_sound<W: World>(c: &mut Checker) {
    let r = W::R;
    c.scenario(
        Scenario {
            name: leak(format!("kzg-equation-F{r}")),
            bounds: leak(format!("all verifier keys (g, h, h_alpha), commitments, points, values and openings over F_{r}")),
            dev: 0,
            oracle: OracleCfg::None,
            require: &["accepted", "rejected"],
        },
        || {
            let v = choose_vec(7, r);
            let vk = Vk { g: v[0], h: v[1], g_beta: 1, h_alpha: v[2] };
            let srs = VerifierSRS::<W> { g: W::g1(v[0]), h: W::g2(v[1]), g_beta: W::g1(1), h_alpha: W::g2(v[2]) };
            let a = KZG::<W>::verify(&srs, &W::g1(v[3]), &W::f(v[4]), &W::f(v[5]), &W::g1(v[6])).map_err(|e| e.to_string())?;
            observe_u64s(&v);
            let want = kzg_ok(&vk, v[3], v[4], v[5], v[6], r);
            if a && !want {
                return Err(format!("KZG equation fails but is accepted: {vk:?} commitment {} point {} value {} opening {}", v[3], v[4], v[5], v[6]));
            }
            if a == want {
                validated();
            }
            tally(if a { "accepted" } else { "rejected" });
            Ok(())
        },
    );
}
fn kzg_big(c: &mut Checker, dmax: usize) {
    let r = WBig::R;
    c.scenario(
        Scenario {
            name: "kzg-61-bit",
            bounds: leak(format!("61-bit field, degree bounds 0..={dmax}, unit/dense/zero/short polynomials, 3 points: the evaluation accepted, 6 other values, another point and another polynomial's commitment rejected")),
            dev: 0,
            oracle: OracleCfg::None,
            require: &["accepted"],
        },
        || {
            type W = WBig;
            let d = choose(dmax + 1);
            let p: Vec<u64> = match choose(d + 4) {
                i if i <= d => (0..=d).map(|j| (i == j) as u64).collect(),
                i if i == d + 1 => bigv(1, d + 1),
                i if i == d + 2 => vec![],
                _ => bigv(2, d / 2),
            };
            let poly = |p: &[u64]| DensePolynomial::from_coefficients_vec(p.iter().map(|x| W::f(*x)).collect());
            let z = [0, 1, big(4, 4)][choose(3)];
            observe_u64s(&[&[d as u64, z], &p[..]].concat());
            let (pw, v) = KZG::<W>::setup(&mut Script::new(&[big(7, 1), big(8, 1)], r), d).map_err(|e| e.to_string())?;
            let com = KZG::<W>::commit(&pw, &poly(&p)).map_err(|e| e.to_string())?;
            let o = KZG::<W>::open(&pw, &poly(&p), &W::f(z)).map_err(|e| e.to_string())?;
            let good = eval(&p, z, r);
            let ver = |com: &_, z: u64, e: u64| KZG::<W>::verify(&v, com, &W::f(z), &W::f(e), &o).map_err(|e| e.to_string());
            if !ver(&com, z, good)? {
                return Err(format!("degree {d}: {p:?} at {z}: {good} rejected"));
            }
            for dv in [1, r - 1, 2, r / 2, 1 << 32, 1 << 60] {
                if ver(&com, z, addm(good, dv, r))? {
                    return Err(format!("degree {d}: {p:?} at {z}: {good}+{dv} accepted"));
                }
            }
            let z2 = addm(z, 1, r);
            if eval(&p, z2, r) != good && ver(&com, z2, good)? {
                return Err(format!("degree {d}: {p:?}: opening at {z} accepted at {z2}"));
            }
            let q: Vec<u64> = (0..=d).map(|i| addm(*p.get(i).unwrap_or(&0), 3, r)).collect();
            let com2 = KZG::<W>::commit(&pw, &poly(&q)).map_err(|e| e.to_string())?;
            if com2 == com || ver(&com2, z, good)? {
                return Err(format!("degree {d}: commitment to {q:?} equals or is opened by that of {p:?}"));
            }
            tally("accepted");
            Ok(())
        },
    );
}
fn kzg_long(c: &mut Checker) {
    type W = WBig;
    let r = WBig::R;
    let mut ladder = around(if c.thorough { &[64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384] } else { &[64, 128, 256, 512, 1024, 2048] });
    ladder.extend([1, 2, 3, 4, 5, 8, 16, 17]);
    let pat = if c.thorough { 8193 } else { 1025 };
    let lad = &ladder;
    c.scenario(
        Scenario {
            name: "kzg-long",
            bounds: leak(format!("61-bit field, strings for {ladder:?} coefficients, polynomials dense or (up to {pat}) each of {PATTERNS} patterns, full, one shorter and half length, points 0, 1, -1, the secret itself, dense; secrets dense, 0, 1: the evaluation accepted, +1, 0, negated and doubled values, an opening +1 / zeroed, another point rejected")),
            dev: 0,
            oracle: OracleCfg::None,
            require: &["accepted"],
        },
        move || {
            let n = choose_in(lad);
            let i = if n <= pat { choose(PATTERNS) } else { 0 };
            let len = [n, n - 1, n / 2][choose(3)];
            let alpha = [big(7, 1), 0, 1][choose(3)];
            let z = [0, 1, r - 1, alpha, big(4, 4)][choose(5)];
            rayon_core::mc::set_threads(3);
            observe_u64s(&[n as u64, i as u64, len as u64, alpha, z]);
            let p = pattern(1, len, i);
            let poly = |p: &[u64]| DensePolynomial::from_coefficients_vec(p.iter().map(|x| W::f(*x)).collect());
            let id = format!("string for {n} coefficients, {len} of them used (pattern {i}), secret {alpha}, point {z}");
            let (pw, v) = KZG::<W>::setup(&mut Script::new(&[alpha, alpha], r), n - 1).map_err(|e| e.to_string())?;
            let com = KZG::<W>::commit(&pw, &poly(&p)).map_err(|e| e.to_string())?;
            let o = KZG::<W>::open(&pw, &poly(&p), &W::f(z)).map_err(|e| e.to_string())?;
            if W::d1(&com) == eval(&p, alpha, r) && W::d1(&o) == eval(&div_linear(&p, z, r), alpha, r) {
                validated();
            }
            let good = eval(&p, z, r);
            let ver = |z: u64, e: u64, o: &_| KZG::<W>::verify(&v, &com, &W::f(z), &W::f(e), o).map_err(|e| e.to_string());
            if !ver(z, good, &o)? {
                return Err(format!("{id}: the evaluation is rejected"));
            }
            for e in [addm(good, 1, r), 0, (r - good) % r, addm(good, good, r)] {
                if e != good && ver(z, e, &o)? {
                    return Err(format!("{id}: value {e} accepted, the evaluation is {good}"));
                }
            }
            for e in [addm(W::d1(&o), 1, r), 0] {
                if ver(z, good, &W::g1(e))? && !kzg_ok(&Vk { g: 1, h: 1, g_beta: alpha, h_alpha: alpha }, W::d1(&com), z, good, e, r) {
                    return Err(format!("{id}: opening {e} accepted"));
                }
            }
            for z2 in [0, 1, addm(z, 1, r)] {
                if ver(z2, good, &o)? && !kzg_ok(&Vk { g: 1, h: 1, g_beta: alpha, h_alpha: alpha }, W::d1(&com), z2, good, W::d1(&o), r) {
                    return Err(format!("{id}: accepted at {z2}"));
                }
            }
            tally("accepted");
            Ok(())
        },
    );
}
fn c15(c: &mut Checker) {
    let th = c.thorough;
    kzg_long(c);
    kzg::<W3>(c, if th { 5 } else { 4 }, true);
    kzg::<W5>(c, 2, true);
    kzg::<W7>(c, 2, true);
    kzg::<W13>(c, 1, th);
    if th {
        kzg::<W5>(c, 4, true);
        kzg::<W11>(c, 2, true);
    }
    kzg_sound::<W3>(c);
    kzg_sound::<W5>(c);
    if th {
        kzg_sound::<W7>(c);
    }
    kzg_big(c, if th { 130 } else { 34 });
}

fn obs_rows(p: &[Vec<u64>]) {
    for x in p {
        observe_u64s(x);
        observe_u64s(&[77]);
    }
}
fn what_key(k: &PcKey) -> String {
    if k.g.len() + k.h.len() > 40 {
        format!("keys of {} and {} elements", k.g.len(), k.h.len())
    } else {
        format!("{k:?}")
    }
}
/// Commit, open, verify; the evaluation must be accepted.
fn run_uni(s: Sy, k: &PcKey, deg: usize, p: &[u64], z: u64) -> Result<(Vec<u8>, Vec<u8>), String> {
    let what = || format!("{} univariate, degree bound {deg}, polynomial {p:?}, point {z}, {}", s.name(), what_key(k));
    let (com, rows) = s.commit_uni(k, p).map_err(|e| format!("commit refused ({e:?}): {}", what()))?;
    let o = s.open_uni(k, p, &rows, z).map_err(|e| format!("open refused ({e:?}): {}", what()))?;
    let e = eval(p, z, s.r());
    let m = mark();
    let v = s.verify_uni(k, deg, &com, z, e, &o);
    if !v.accepted() {
        return Err(format!("evaluation {e} not accepted ({v:?}): {}", what()));
    }
    retried(s, k, m);
    Ok((com, o))
}
fn run_bi(s: Sy, k: &PcKey, p: &[Vec<u64>], z: (u64, u64)) -> Result<(Vec<u8>, Vec<u8>), String> {
    let what = || format!("{} bivariate, rows {p:?}, point {z:?}, {}", s.name(), what_key(k));
    let (com, rows) = s.commit_bi(k, p).map_err(|e| format!("commit refused ({e:?}): {}", what()))?;
    let o = s.open_bi(k, p, &rows, z).map_err(|e| format!("open refused ({e:?}): {}", what()))?;
    let e = eval2(p, z, s.r());
    let le = s.eval_bi(p, z);
    if le != e {
        return Err(format!("evaluate returned {le}, the value is {e}: {}", what()));
    }
    let m = mark();
    let v = s.verify_bi(k, &com, z, e, &o);
    if !v.accepted() {
        return Err(format!("evaluation {e} not accepted ({v:?}): {}", what()));
    }
    retried(s, k, m);
    Ok((com, o))
}
fn retried(s: Sy, k: &PcKey, m: usize) {
    tally("accepted");
    let l = |n: usize| n.trailing_zeros() as usize;
    let n = l(k.rows(s.trusted())) + if s.trusted() { 1 } else { l(k.g.len()) };
    if queries_since(m).len() > n {
        tally("retried");
    }
}
fn complete(c: &mut Checker, tr: bool) {
    let th = c.thorough;
    let uni_full = |c: &mut Checker, r: u64, degs: &'static [usize], nk: usize, dev: u32| {
        let s = pick(tr, r);
        c.scenario(
            Scenario {
                name: leak(format!("univariate-full-F{r}-{degs:?}")),
                bounds: leak(format!("degree bounds {degs:?}, all polynomials up to the bound, all points, {}, all challenges, up to {dev} unusable digests, over F_{r}", if tr { "all secrets" } else { "keys with every value on two positions" })),
                dev,
                oracle: cfg_for(r),
                require: if dev > 0 { &["accepted", "retried"] } else { &["accepted"] },
            },
            move || {
                let deg = choose_in(degs);
                let vals = if tr { choose_vec(2, r) } else { choose_vec(nk, r) };
                let k = s.setup_uni(deg, &vals).map_err(|e| format!("{} setup for degree {deg}: {e:?}", s.name()))?;
                let p = choose_vec(deg + 1, r);
                let z = choose(r as usize) as u64;
                observe_u64s(&[&[deg as u64, z], &p[..], &k.g, &[99], &k.h].concat());
                run_uni(s, &k, deg, &p, z).map(|_| ())
            },
        );
    };
    uni_full(c, 3, &[0, 1], 4, 1);
    uni_full(c, 3, &[2, 3], if th { 4 } else { 2 }, th as u32);
    uni_full(c, 5, &[0, 1], 2, 1);
    if th {
        uni_full(c, 5, &[2], 2, 0);
        uni_full(c, 7, &[1], 2, 1);
    }
    let sweep = |c: &mut Checker, r: u64, name: &str, degs: Vec<usize>, npoly: usize, npts: usize, chal: usize, dev: u32| {
        let s = pick(tr, r);
        let vals = spread(r, chal);
        c.scenario(
            Scenario {
                name: leak(format!("univariate-degrees-{name}")),
                bounds: leak(format!("degree bounds {}..={} ({} of them) over F_{r}: {npoly} polynomials each (dense, top/first/row-boundary monomials, zero, constant, shorter, filling the grid), {npts} points, digests {vals:?}, up to {dev} unusable digests", degs[0], degs[degs.len() - 1], degs.len())),
                dev,
                oracle: cfg_values(r, &vals),
                require: if dev > 0 { &["accepted", "retried"] } else { &["accepted"] },
            },
            move || {
                let deg = degs[choose(degs.len())];
                let k = s.setup_uni(deg, &[3, 2, 5, 1]).map_err(|e| format!("{} setup for degree {deg}: {e:?}", s.name()))?;
                let (w, cap) = (k.g.len(), k.g.len() * k.rows(tr));
                if cap <= deg {
                    return Err(format!("{} setup for degree {deg} has room for {cap} coefficients", s.name()));
                }
                let unit = |i: usize| {
                    let mut v = vec![0; i + 1];
                    v[i] = 1;
                    v
                };
                let i = choose(npoly);
                let p: Vec<u64> = match i {
                    0 => (0..=deg as u64).map(|i| (i * i + 2 * i + 3) % r).collect(),
                    1 => unit(deg),
                    2 => unit((w - 1).min(deg)),
                    3 => unit(w.min(deg)),
                    4 => vec![],
                    5 => vec![2],
                    6 => (0..=(deg / 2) as u64).map(|i| (3 * i + 1) % r).collect(),
                    7 => (0..cap as u64).map(|i| (i * i * i + 1) % r).collect(),
                    i => unit((i - 7) * (deg + 1) / npoly),
                };
                let z = [2, 0, r - 1, 1, 3, 5][choose(npts)] % r;
                observe_u64s(&[deg as u64, i as u64, z]);
                run_uni(s, &k, deg, &p, z).map(|_| ())
            },
        );
    };
    if th {
        sweep(c, 13, "to-300", (0..=300).collect(), 12, 4, if tr { 2 } else { 1 }, 1);
        sweep(c, 7, "to-80", (0..=80).collect(), 8, 4, if tr { 4 } else { 2 }, 1);
        sweep(c, 13, "large", vec![511, 1022, 1023, 1024, 1025, 2047, 4094, 4095, 4096, 9000, 16383, 16384], 3, 2, if tr { 2 } else { 1 }, 0);
    } else {
        sweep(c, 13, "to-40", (0..=40).collect(), 8, 3, 2, 1);
        sweep(c, 7, "to-260", (0..=260).collect(), 4, 1, 1, 0);
        sweep(c, 7, "large", vec![1022, 1023, 1024, 4095, 4096], 2, 1, 1, 0);
    }
    let s = pick(tr, 3);
    c.scenario(
        Scenario {
            name: "bivariate-full-F3",
            bounds: leak(format!("degrees (0,0), (1,0), (0,1), (1,1): all rows, all points, {}, all challenges over F_3", if tr { "all secrets" } else { "varied keys" })),
            dev: 0,
            oracle: cfg_for(3),
            require: &["accepted"],
        },
        move || {
            let (x, y) = (choose(2), choose(2));
            let vals = if tr || th { choose_vec(2, 3) } else { vec![1 + choose(2) as u64, choose(3) as u64] };
            let k = s.setup_bi(x, y, &vals).map_err(|e| format!("{} setup for degrees ({x},{y}): {e:?}", s.name()))?;
            let p: Vec<Vec<u64>> = (0..=x).map(|_| choose_vec(y + 1, 3)).collect();
            let z = (choose(3) as u64, choose(3) as u64);
            obs_rows(&p);
            observe_u64s(&[&[z.0, z.1], &k.g[..], &[99], &k.h].concat());
            run_bi(s, &k, &p, z).map(|_| ())
        },
    );
    // Rows that agree in length, ends, sums, ...: all polynomials with small coefficients.
    let s = pick(tr, 0);
    let shapes: &'static [(usize, usize)] = match (tr, th) {
        (true, false) => &[(1, 2), (1, 3), (3, 1)],
        (true, true) => &[(1, 2), (1, 3), (3, 1), (1, 4), (3, 2)],
        (false, false) => &[(1, 1), (1, 3), (3, 1)],
        (false, true) => &[(1, 1), (1, 3), (3, 1), (0, 7), (7, 0)],
    };
    c.scenario(
        Scenario {
            name: "bivariate-small-coefficients",
            bounds: leak(format!("61-bit field, dense keys, real hash; degrees {shapes:?}: every polynomial with coefficients among 0, 1, 2, at 2 points")),
            dev: 0,
            oracle: OracleCfg::Real,
            require: &["accepted"],
        },
        move || {
            let (x, y) = choose_in(shapes);
            let k = s.setup_bi(x, y, &[big(7, 1), big(8, 1)]).map_err(|e| format!("{} setup for degrees ({x},{y}): {e:?}", s.name()))?;
            let k = if tr { k } else { PcKey::transparent(bigv(7, k.g.len()), bigv(8, k.rows(tr))) };
            let p: Vec<Vec<u64>> = (0..=x).map(|_| choose_vec(y + 1, 3)).collect();
            let z = [(big(3, 3), big(4, 3)), (1, big(4, 3))][choose(2)];
            obs_rows(&p);
            observe_u64s(&[z.0, z.1]);
            run_bi(s, &k, &p, z).map(|_| ())
        },
    );
    let bi = |c: &mut Checker, r: u64, xs: &'static [usize], ys: &'static [usize], chal: usize, dev: u32| {
        let s = pick(tr, r);
        let vals = spread(r, chal);
        c.scenario(
            Scenario {
                name: leak(format!("bivariate-shapes-F{r}")),
                bounds: leak(format!("degrees {xs:?} x {ys:?} over F_{r}: every number of rows, rows full / one shorter / staircase / empty / alternating, three coefficient patterns, 4 points, digests {vals:?}, up to {dev} unusable digests")),
                dev,
                oracle: cfg_values(r, &vals),
                require: if dev > 0 { &["accepted", "retried"] } else { &["accepted"] },
            },
            move || {
                let (x, y) = (choose_in(xs), choose_in(ys));
                let k = s.setup_bi(x, y, &[3, 2, 5, 1]).map_err(|e| format!("{} setup for degrees ({x},{y}): {e:?}", s.name()))?;
                let n = choose(x + 2);
                let (shape, pat) = (choose(5), choose(3));
                let p: Vec<Vec<u64>> = (0..n)
                    .map(|i| {
                        let l = match shape {
                            0 => y + 1,
                            1 => y,
                            2 => (y + 1).saturating_sub(i),
                            3 => 0,
                            _ => {
                                if i % 2 == 0 {
                                    y + 1
                                } else {
                                    0
                                }
                            }
                        };
                        (0..l)
                            .map(|j| {
                                let (i, j) = (i as u64, j as u64);
                                match pat {
                                    0 => (i * 3 + j * j + 1) % r,
                                    1 => (j == i % (y as u64 + 1)) as u64,
                                    _ => (i == n as u64 - 1 && j + 1 == l as u64) as u64 * 2,
                                }
                            })
                            .collect()
                    })
                    .collect();
                let z = [(2, 3), (0, 2), (3, 0), (1, r - 1)][choose(4)];
                observe_u64s(&[x as u64, y as u64, n as u64, shape as u64, pat as u64, z.0, z.1]);
                run_bi(s, &k, &p, z).map(|_| ())
            },
        );
    };
    if tr {
        bi(c, 7, &[0, 1, 3], &[0, 1, 2, 3, 4], if th { 3 } else { 2 }, 1);
        bi(c, 13, &[7], if th { &[0, 1, 2, 5, 6, 7, 8, 15, 31] } else { &[0, 2, 7] }, if th { 2 } else { 1 }, th as u32);
        if th {
            bi(c, 5, &[15, 31], &[3, 6], 1, 0);
        }
    } else {
        bi(c, 7, &[0, 1, 3], &[0, 1, 3], if th { 2 } else { 1 }, 1);
        bi(c, 13, &[1, 7], &[0, 7], if th { 2 } else { 1 }, th as u32);
        if th {
            bi(c, 5, &[15], &[1, 15, 31], 1, 0);
        }
    }
}

fn obs_prf(p: &Prf) {
    let mut v = vec![p.base.0, p.base.1, p.fck.0, p.open.0];
    for (l, r) in &p.steps {
        v.extend([l.a, l.b]);
        v.extend(&l.t);
        v.extend([r.a, r.b]);
        v.extend(&r.t);
    }
    observe_u64s(&v)
}
/// Verifier accepts only if every equation holds.
fn judge(s: Sy, k: &PcKey, uni: Option<usize>, com: u64, z: (u64, u64), e: u64, p: &PcProof) -> Outcome {
    let b = s.enc(p);
    observe_u64s(&[&[com, z.0, z.1, e, p.y, p.kzg, k.vk.g, k.vk.h, k.vk.g_beta, k.vk.h_alpha], &k.g[..], &[99], &k.h].concat());
    obs_prf(&p.second);
    obs_prf(&p.first);
    let (v, pt) = match uni {
        Some(d) => (s.verify_uni(k, d, &s.com_of(com), z.1, e, &b), (powm(z.1, k.g.len() as u64, s.r()), z.1)),
        None => (s.verify_bi(k, &s.com_of(com), z, e, &b), z),
    };
    if v.accepted() {
        if !s.accepts(k, com, pt, e, p) {
            return Err(format!("{}: verifier accepts although an equation fails: commitment {com} point {pt:?} value {e} {p:?} {k:?}", s.name()));
        }
        validated();
        tally("accepted");
    } else {
        tally("rejected");
    }
    Ok(())
}
fn sound(c: &mut Checker, tr: bool) {
    let th = c.thorough;
    let key = move |s: Sy, x: usize, y: usize| {
        let r = s.r();
        if tr {
            PcKey::trusted(x, y, 3 % r, 2, r)
        } else {
            PcKey::transparent(basis(y + 1, r, y + 1), basis(x + 1, r, x + 3))
        }
    };
    // everything, no rounds
    let s = pick(tr, 3);
    c.scenario(
        Scenario {
            name: "all-constant-F3",
            bounds: leak(format!("degrees (0,0) over F_3: every commitment, value, point, final message{}, row commitment{}", if tr { ", final key and its opening" } else { ", key" }, if tr { ", KZG opening, secret and key challenge" } else { " and inner final message" })),
            dev: 0,
            oracle: cfg_for(3),
            require: &["accepted", "rejected"],
        },
        move || {
            let mut p = PcProof::default();
            let mut k = key(s, 0, 0);
            let v = choose_vec(6, 3);
            let (com, e, z) = (v[0], v[1], (v[2], v[3]));
            p.second.base.0 = v[4];
            p.y = v[5];
            if tr {
                let w = choose_vec(4, 3);
                p.second.fck.0 = w[0];
                p.second.open.0 = w[1];
                p.kzg = w[2];
                k.vk.h_alpha = w[3];
            } else {
                let w = choose_vec(5, 3);
                k.g[0] = w[0];
                k.h[0] = w[1];
                p.first.base = (w[2], w[3]);
                p.second.base.1 = w[4];
            }
            judge(s, &k, None, com, z, e, &p)
        },
    );
    c.scenario(
        Scenario {
            name: "round-F3",
            bounds: leak(format!("degrees (1,{}) over F_3: honest opening with {} exhaustively replaced, every commitment and value, all challenges", if tr { 1 } else { 0 }, if tr { "(cross commitments) or (final messages, keys and both openings)" } else { "(outer cross commitments) or (final messages)" })),
            dev: 0,
            oracle: cfg_for(3),
            require: &["accepted", "rejected"],
        },
        move || {
            let k = key(s, 1, if tr { 1 } else { 0 });
            let rows: Vec<Vec<u64>> = vec![basis(k.g.len(), 3, k.g.len()), basis(k.g.len(), 3, k.g.len() + 2)];
            let z = (2, 1 + choose(2) as u64);
            let (com, o) = run_bi(s, &k, &rows, z)?;
            let mut p = s.dec(&o).ok_or("proof does not decode")?;
            let com = s.com_log(&com).unwrap();
            let mut e = eval2(&rows, z, 3);
            let com2 = choose(3) as u64;
            match choose(2) {
                0 => {
                    let v = choose_vec(4, 3);
                    let b = if tr { vec![0, 0] } else { choose_vec(2, 3) };
                    p.second.steps = vec![(Com { a: v[0], b: b[0], t: vec![v[1]] }, Com { a: v[2], b: b[1], t: vec![v[3]] })];
                }
                _ => {
                    e = choose(3) as u64;
                    let v = choose_vec(3, 3);
                    p.second.base.0 = v[0];
                    p.y = v[1];
                    if tr {
                        let w = choose_vec(2, 3);
                        p.second.fck.0 = w[0];
                        p.second.open.0 = w[1];
                        p.kzg = v[2];
                    } else {
                        p.second.base.1 = v[2];
                        p.first.base = (choose(3) as u64, choose(3) as u64);
                    }
                }
            }
            judge(s, &k, None, (com + com2) % 3, z, e, &p)
        },
    );
    // tampering
    let tamper = |c: &mut Checker, r: u64, shapes: &'static [(usize, usize)], uni: bool, chal: usize, muts: usize, deltas: usize| {
        let s = pick(tr, r);
        let vals = spread(r, chal);
        c.scenario(
            Scenario {
                name: leak(format!("{}-tampered-F{r}-{shapes:?}-x{muts}", if uni { "univariate" } else { "bivariate" })),
                bounds: leak(format!("honest openings over F_{r}, grid degrees {shapes:?}, several polynomials and points; {muts} component(s) among commitment, value, point, keys and proof changed by {deltas} value(s); digests {vals:?}")),
                dev: 0,
                oracle: cfg_values(r, &vals),
                require: &["rejected"],
            },
            move || {
                let (x, y) = choose_in(shapes);
                let mut k = key(s, x, y);
                let pat = if muts > 1 { 0 } else { choose(2) };
                let mut z = if muts > 1 { (3 % r, 2) } else { choose_in(&[(3 % r, 2), (0, r - 1)]) };
                let rows: Vec<Vec<u64>> = (0..=x).map(|i| if pat == 0 { basis(y + 1, r, y + 1 + 2 * (i & 1)) } else { basis(y + 1, r, i % (y + 1)) }).collect();
                if uni {
                    z.0 = powm(z.1, y as u64 + 1, r);
                }
                let (com, o) = if uni {
                    let p: Vec<u64> = rows.concat();
                    let deg = (x + 1) * (y + 1) - 1;
                    // the degree bound has to select this very grid
                    if s.setup_uni(deg, &[1]).map_err(|e| format!("{e:?}"))?.g.len() != y + 1 {
                        return excluded();
                    }
                    run_uni(s, &k, deg, &p, z.1)?
                } else {
                    run_bi(s, &k, &rows, z)?
                };
                let mut p = s.dec(&o).ok_or("proof does not decode")?;
                let mut com = s.com_log(&com).ok_or("commitment")?;
                let mut e = eval2(&rows, z, r);
                let kn = if tr { 4 } else { k.g.len() + k.h.len() };
                let total = 4 + kn + p.slots(tr);
                let mut names = String::new();
                for i in choose_slots(total, muts) {
                    let d = 1 + choose(deltas) as u64;
                    let (q, nm): (&mut u64, String) = match i {
                        0 => (&mut com, "commitment".into()),
                        1 => (&mut e, "value".into()),
                        2 => (&mut z.0, "first coordinate".into()),
                        3 => (&mut z.1, "point".into()),
                        i if i < 4 + kn => {
                            let j = i - 4;
                            if tr {
                                match j {
                                    0 => (&mut k.vk.g, "g".into()),
                                    1 => (&mut k.vk.h, "h".into()),
                                    2 => (&mut k.vk.g_beta, "g_beta".into()),
                                    _ => (&mut k.vk.h_alpha, "h_alpha".into()),
                                }
                            } else if j < k.g.len() {
                                (&mut k.g[j], format!("row key {j}"))
                            } else {
                                let j = j - k.g.len();
                                (&mut k.h[j], format!("outer key {j}"))
                            }
                        }
                        i => p.slot(tr, i - 4 - kn),
                    };
                    *q = (*q + d) % r;
                    names += &format!("{nm} +{d}; ");
                }
                note(|| names);
                let u = if uni { Some((x + 1) * (y + 1) - 1) } else { None };
                judge(s, &k, u, com, z, e, &p)
            },
        );
    };
    if tr {
        tamper(c, 7, &[(0, 0), (1, 0), (1, 2)], false, 4, 1, 6);
        tamper(c, 5, &[(3, 2), (7, 1)], false, 2, 1, 4);
        tamper(c, 7, &[(0, 0), (1, 1), (1, 7)], true, 3, 1, 6);
        tamper(c, 5, &[(0, 0), (1, 1)], false, 2, 2, if th { 4 } else { 2 });
        if th {
            tamper(c, 11 + 2, &[(1, 3), (3, 3)], false, 3, 1, 12);
            tamper(c, 5, &[(15, 3)], false, 1, 1, 4);
            tamper(c, 5, &[(3, 2)], false, 2, 2, 2);
        }
    } else {
        tamper(c, 7, &[(0, 0), (1, 0), (0, 1)], false, 3, 1, 6);
        tamper(c, 5, &[(1, 1), (3, 1)], false, 2, 1, 4);
        tamper(c, 7, &[(0, 0), (1, 1), (1, 7)], true, 2, 1, 3);
        tamper(c, 5, &[(0, 0), (1, 0), (0, 1)], false, 2, 2, 2);
        if th {
            tamper(c, 13, &[(1, 1), (0, 3)], false, 3, 1, 12);
            tamper(c, 5, &[(7, 1), (1, 7)], false, 2, 1, 4);
            tamper(c, 5, &[(1, 1)], false, 2, 2, 3);
        }
    }
    // an opening used for something else
    let transplant = |c: &mut Checker, r: u64, x: usize, y: usize, chal: usize| {
        let s = pick(tr, r);
        let vals = spread(r, chal);
        c.scenario(
            Scenario {
                name: leak(format!("transplanted-F{r}-{x}-{y}")),
                bounds: leak(format!("opening for (polynomial, point) checked against the commitment of every polynomial, every point of a grid and every value over F_{r}, grid degrees ({x},{y}), digests {vals:?}")),
                dev: 0,
                oracle: cfg_values(r, &vals),
                require: &["rejected", "accepted"],
            },
            move || {
                let k = key(s, x, y);
                let poly = |i: usize| -> Vec<Vec<u64>> { (0..=x).map(|j| if i == 0 { basis(y + 1, r, y + 1 + 2 * (j & 1)) } else { basis(y + 1, r, if j == i - 1 { 0 } else { y + 2 }) }).collect() };
                let p1 = poly(choose(x + 2));
                let pts = [(3 % r, 2), (2, 3 % r), (0, 1), (1, 0)];
                let z = choose_in(&pts);
                let (com, o) = run_bi(s, &k, &p1, z)?;
                let p = s.dec(&o).ok_or("proof does not decode")?;
                let p2 = poly(choose(x + 2));
                let com2 = s.com_log(&s.commit_bi(&k, &p2).map_err(|e| format!("{e:?}"))?.0).unwrap();
                let z2 = choose_in(&pts);
                let e = choose(r as usize) as u64;
                if tr && s.com_log(&com) == Some(com2) && z2.1 == z.1 && e != eval2(&p1, z, r) {
                    // the row commitment in the proof admits only one value at its point
                    let v = s.verify_bi(&k, &s.com_of(com2), z2, e, &o);
                    if v.accepted() {
                        return Err(format!("{}: {p1:?} at {z:?}: value {e} accepted instead of {}", s.name(), eval2(&p1, z, r)));
                    }
                }
                judge(s, &k, None, com2, z2, e, &p)
            },
        );
    };
    transplant(c, 7, 0, 0, 2);
    transplant(c, 7, 1, 1, 2);
    if th {
        transplant(c, 5, 3, 3, 2);
        transplant(c, 13, 1, 3, 2);
    } else {
        transplant(c, 5, 3, 1, 1);
    }
    // shapes
    let s = pick(tr, 5);
    c.scenario(
        Scenario {
            name: "shapes",
            bounds: "honest openings (degrees (1,1), (3,1), (3,3)) with outer (or inner) rounds dropped, inserted, repeated, swapped, halves exchanged, identity outputs emptied or extended",
            dev: 0,
            oracle: cfg_values(5, if th { &[4, 2] } else { &[2] }),
            require: &["rejected"],
        },
        move || {
            let (x, y) = choose_in(&[(1, 1), (3, 1), (3, 3)]);
            let k = key(s, x, y);
            let rows: Vec<Vec<u64>> = (0..=x).map(|i| basis(y + 1, 5, y + 1 + 2 * (i & 1))).collect();
            let z = (3, 2);
            let (com, o) = run_bi(s, &k, &rows, z)?;
            let mut p = s.dec(&o).ok_or("proof does not decode")?;
            let inner = !tr && choose(2) == 1;
            let q = if inner { &mut p.first.steps } else { &mut p.second.steps };
            let n = q.len();
            match choose(6) {
                0 => drop(q.remove(choose(n))),
                1 => {
                    let c0 = || Com { a: 0, b: 0, t: vec![0] };
                    q.insert(choose(n + 1), (c0(), c0()));
                }
                2 => {
                    let i = choose(n);
                    let v = q[i].clone();
                    q.insert(i, v);
                }
                3 => {
                    if n < 2 {
                        return excluded();
                    }
                    q.swap(0, 1);
                }
                4 => {
                    let i = choose(n);
                    let (l, rr) = q[i].clone();
                    q[i] = (rr, l);
                }
                _ => {
                    let i = choose(n);
                    let t = if choose(2) == 0 { &mut q[i].0.t } else { &mut q[i].1.t };
                    match choose(3) {
                        0 => t.clear(),
                        1 => t.push(choose(5) as u64),
                        _ => t.insert(0, choose(5) as u64),
                    }
                }
            }
            judge(s, &k, None, s.com_log(&com).unwrap(), z, eval2(&rows, z, 5), &p)
        },
    );
    // 61-bit field: outright rejection
    let s = pick(tr, 0);
    let r = WBig::R;
    c.scenario(
        Scenario {
            name: "61-bit-false-claims",
            bounds: leak(format!("61-bit field, real hash, univariate degree bounds {} and bivariate grids: the evaluation accepted; 4 other values, a swapped point, another polynomial's commitment, an opening of another polynomial or point all rejected", if th { "0..=70" } else { "0..=20" })),
            dev: 0,
            oracle: OracleCfg::Real,
            require: &["rejected", "accepted"],
        },
        move || {
            let bi = choose(2) == 1;
            let (deg, x, y) = if bi {
                let x = choose_in(&[0, 1, 3]);
                let y = if tr { choose(5) } else { choose_in(&[0, 1, 3]) };
                (0, x, y)
            } else {
                (choose(if th { 71 } else { 21 }), 0, 0)
            };
            let k = if bi {
                if tr {
                    PcKey::trusted(x, y, big(7, 0), big(8, 0), r)
                } else {
                    PcKey::transparent(bigv(7, y + 1), bigv(8, x + 1))
                }
            } else {
                let l = s.setup_uni(deg, &[1]).map_err(|e| format!("{e:?}"))?;
                let (x, y) = (l.rows(tr) - 1, l.g.len() - 1);
                if tr {
                    PcKey::trusted(x, y, big(7, 0), big(8, 0), r)
                } else {
                    PcKey::transparent(bigv(7, y + 1), bigv(8, x + 1))
                }
            };
            let n = if bi { (x + 1) * (y + 1) } else { deg + 1 };
            let mk = |which: usize| -> Vec<u64> {
                match which {
                    0 => bigv(1, n),
                    1 => bigv(2, n),
                    2 => (0..n).map(|i| (i + 1 == n) as u64).collect(),
                    _ => (0..n).map(|i| (i == 0) as u64).collect(),
                }
            };
            let split = |p: &[u64]| -> Vec<Vec<u64>> { p.chunks(y + 1).map(|c| c.to_vec()).collect() };
            let pts = [(big(3, 1), big(4, 1)), (big(3, 2), big(4, 2)), (0, 1), (1, 0)];
            let ev = |p: &[u64], z: (u64, u64)| if bi { eval2(&split(p), z, r) } else { eval(p, z.1, r) };
            let go = |p: &[u64], z: (u64, u64)| if bi { run_bi(s, &k, &split(p), z) } else { run_uni(s, &k, deg, p, z.1) };
            let ver = |com: &[u8], z: (u64, u64), e: u64, o: &[u8]| if bi { s.verify_bi(&k, com, z, e, o) } else { s.verify_uni(&k, deg, com, z.1, e, o) };
            let (i, zi) = (choose(4), choose(4));
            let (p, z) = (mk(i), pts[zi]);
            observe_u64s(&[deg as u64, x as u64, y as u64, i as u64, zi as u64]);
            let (com, o) = go(&p, z)?;
            let e = ev(&p, z);
            let no = |v: Verdict, w: String| {
                if v.accepted() {
                    Err(format!("{}: degree bound {deg} / grid ({x},{y}), polynomial #{i}, point {z:?}, value {e}: {w} accepted", s.name()))
                } else {
                    tally("rejected");
                    Ok(())
                }
            };
            for d in [1, r - 1, 1 << 40, r / 2] {
                no(ver(&com, z, addm(e, d, r), &o), format!("value +{d}"))?;
            }
            no(ver(&com, z, 0, &o), "value 0".into()).or_else(|m| if e == 0 { Ok(()) } else { Err(m) })?;
            for z2 in pts {
                if ev(&p, z2) != e {
                    no(ver(&com, z2, e, &o), format!("the same value at {z2:?}"))?;
                    let (_, o2) = go(&p, z2)?;
                    no(ver(&com, z, ev(&p, z2), &o2), format!("value and opening at {z2:?}"))?;
                }
            }
            for j in 0..4 {
                let q = mk(j);
                if q == p {
                    continue;
                }
                let (com2, o2) = go(&q, z)?;
                if com2 == com {
                    return Err(format!("{}: degree bound {deg} / grid ({x},{y}): polynomials #{i} and #{j} have the same commitment", s.name()));
                }
                no(ver(&com2, z, e, &o), format!("the commitment of polynomial #{j}"))?;
                if ev(&q, z) != e {
                    no(ver(&com, z, ev(&q, z), &o2), format!("value and opening of polynomial #{j}"))?;
                }
            }
            Ok(())
        },
    );
}

/// Opening built by the model from the rows, under the challenges of the library's own opening.
fn model_open(s: Sy, k: &PcKey, rows: &[Vec<u64>], z: (u64, u64), o: &[u8]) -> Option<PcProof> {
    let (r, tr) = (s.r(), s.trusted());
    let (w, n) = (k.g.len(), k.rows(tr));
    let rows: Vec<Vec<u64>> = (0..n).map(|i| { let mut v = rows.get(i).cloned().unwrap_or_default(); v.resize(w, 0); v }).collect();
    let coms: Vec<u64> = rows.iter().map(|v| dot(v, &k.g, r)).collect();
    let tier = |ss: &dyn Ssm, key: Key, a: &[u64], x: u64, bytes: &[u8]| -> Option<(Prf, usize)> {
        let b = powers(x, a.len(), r);
        let rounds = a.len().trailing_zeros() as usize;
        let com = Com { a: dot(&key.a, a, r), b: 0, t: vec![dot(a, &b, r)] };
        let len = ss.enc(&gipa_prover(ss, a, &b, &key, &vec![1; rounds], true)).len();
        let m = mark();
        let vkey = Key { a: if ss.transparent() { key.a.clone() } else { k.h.clone() }, b: vec![], t: 0 };
        ss.verify(&k.vk, &vkey, &com, x, bytes.get(..len)?);
        let (hs, q) = ss.challenges(m, rounds);
        let mut p = gipa_prover(ss, a, &b, &key, &hs, true);
        if !ss.transparent() {
            let srs = Srs { g_alpha: vec![0], h_beta: k.h.clone(), g_beta: k.vk.g_beta, h_alpha: k.vk.h_alpha };
            p.open.0 = tipa_openings(&srs, &hs, q?, 1, r).0;
        }
        Some((p, len))
    };
    let outer: Vec<u64> = if tr { k.h.iter().step_by(2).copied().collect() } else { k.h.clone() };
    let (second, len) = tier(s.second(), Key { a: outer, b: vec![0; n], t: 0 }, &coms, z.0, o)?;
    let px = powers(z.0, n, r);
    let folded: Vec<u64> = (0..w).map(|j| (0..n).fold(0, |a, i| addm(a, mulm(rows[i][j], px[i], r), r))).collect();
    let y = dot(&folded, &k.g, r);
    let mut p = PcProof { second, y, ..Default::default() };
    if tr {
        p.kzg = div_linear(&folded, z.1, r).iter().zip(&k.g).fold(0, |a, (x, g)| addm(a, mulm(*x, *g, r), r));
    } else {
        let rest = o.get(len + s.g1s(&[0]).len()..)?;
        p.first = tier(s.first(), Key { a: k.g.clone(), b: vec![0; w], t: 0 }, &folded, z.1, rest)?.0;
    }
    (s.enc(&p) == o).then_some(p)
}
/// Large degree bounds in the 61-bit world: honest openings, and (`tampered`) single changes.
fn long(c: &mut Checker, tr: bool, tampered: bool) {
    let th = c.thorough;
    let s = pick(tr, 0);
    let r = WBig::R;
    let mut ladder = match (tampered, th) {
        (false, false) => around(&[16, 32, 64, 128, 256, 512, 1024, 2048, 4096]),
        (false, true) => around(&[16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536]),
        (true, false) => around(&[16, 64, 256, 1024]),
        (true, true) => around(&[16, 32, 64, 128, 256, 512, 1024, 2048, 4096]),
    };
    ladder.extend(if tampered { vec![2, 5] } else { vec![1, 2, 3, 4, 5, 8, 23, 50, 100, 200, 400, 700, 1500] });
    // Few executions each: one pool and one point.
    let huge: Vec<usize> = match (tampered, th) {
        (true, _) => vec![],
        (false, false) => vec![1 << 14, 1 << 15, (1 << 16) - 1, 1 << 16, (1 << 18) - 1, 1 << 18],
        (false, true) => around(&[1 << 17, 1 << 18, 1 << 20, 1 << 21]),
    };
    let limit = ladder.iter().max().unwrap() + 1;
    ladder.extend(&huge);
    let shapes: &'static [(usize, usize)] = if tr { &[(0, 0), (0, 30), (15, 0), (31, 6), (63, 20), (7, 100), (127, 1)] } else { &[(0, 0), (0, 31), (15, 0), (31, 7), (63, 15), (7, 127), (127, 1)] };
    let pat = match (tampered, th) {
        (false, false) => 1030,
        (false, true) => 8200,
        _ => 0,
    };
    let lad = &ladder;
    c.scenario(
        Scenario {
            name: if tampered { "long-tampered" } else { "long" },
            bounds: leak(format!("61-bit field, real hash, degree bounds {ladder:?} and bivariate degrees {shapes:?}; polynomials dense or (up to {pat} coefficients) each of {PATTERNS} patterns, points with coordinates among 0, 1, -1, dense (degree bounds above {limit}: one point); {}", if tampered { "commitment, value, point, row key at the boundaries, verifier key or any proof component +1, zeroed, negated, or a round's halves exchanged: accepted only if every equation holds" } else { "the evaluation accepted, +1 rejected" })),
            dev: 0,
            oracle: OracleCfg::Real,
            require: if tampered { &["rejected"] } else { &["accepted"] },
        },
        move || {
            let q = choose(lad.len() + shapes.len());
            let uni = q < lad.len();
            let deg = if uni { lad[q] } else { 0 };
            let vast = deg > limit;
            rayon_core::mc::set_threads(choose_in(if vast { &[8usize] } else if tampered { &[3usize] } else { &[1usize, 3, 8] }));
            let vals = if tr { vec![big(7, 1), big(8, 1)] } else { vec![big(7, 1), big(8, 1), big(9, 1), big(10, 1), big(11, 1)] };
            let set = if uni { s.setup_uni(deg, &vals) } else { s.setup_bi(shapes[q - lad.len()].0, shapes[q - lad.len()].1, &vals) };
            let mut k = set.map_err(|e| format!("{} setup {q}: {e:?}", s.name()))?;
            let (w, n) = (k.g.len(), k.rows(tr));
            if !tr {
                k = PcKey::transparent(bigv(7, w), bigv(8, n));
            }
            let len = if uni { deg + 1 } else { w * n };
            let i = if len <= pat { choose(PATTERNS) } else { 0 };
            let p = pattern(1, len, i);
            let c4 = |j: usize| [big(3, 3), 0, 1, r - 1][j];
            let mut z = if uni {
                let z = c4(choose(if vast { 1 } else { 4 }));
                (powm(z, w as u64, r), z)
            } else {
                (c4(choose(4)), c4(choose(4)))
            };
            let mut rows: Vec<Vec<u64>> = p.chunks(w).map(|x| x.to_vec()).collect();
            if !uni {
                rows.resize(n, vec![]);
            }
            observe_u64s(&[q as u64, i as u64, z.0, z.1]);
            let id = format!("{}: {} coefficients in a {n} x {w} grid ({}), pattern {i}, point {z:?}", s.name(), len, if uni { format!("univariate, degree bound {deg}") } else { "bivariate".into() });
            let ctx = |e: String| format!("{id}: {}", e.chars().take(300).collect::<String>());
            let mut e = if uni { eval(&p, z.1, r) } else { eval2(&rows, z, r) };
            let (com, o) = if uni {
                let (com, coms) = s.commit_uni(&k, &p).map_err(|e| ctx(format!("commit refused: {e:?}")))?;
                let o = s.open_uni(&k, &p, &coms, z.1).map_err(|e| ctx(format!("open refused: {e:?}")))?;
                (com, o)
            } else {
                let (com, coms) = s.commit_bi(&k, &rows).map_err(|e| ctx(format!("commit refused: {e:?}")))?;
                let o = s.open_bi(&k, &rows, &coms, z).map_err(|e| ctx(format!("open refused: {e:?}")))?;
                if s.eval_bi(&rows, z) != e {
                    return Err(ctx("evaluate is wrong".into()));
                }
                (com, o)
            };
            let ver = |e: u64| if uni { s.verify_uni(&k, deg, &com, z.1, e, &o) } else { s.verify_bi(&k, &com, z, e, &o) };
            let v = ver(e);
            if !v.accepted() {
                return Err(ctx(format!("the evaluation is not accepted ({v:?})")));
            }
            if ver(addm(e, 1, r)).accepted() {
                return Err(ctx("the evaluation + 1 is accepted".into()));
            }
            let m = model_open(s, &k, &rows, z, &o);
            if m.is_some() {
                validated();
            }
            if !tampered {
                tally("accepted");
                return Ok(());
            }
            let mut pr = m.ok_or_else(|| ctx("the opening is not the one the model derives from the verifier's challenges".into()))?;
            let mut com = {
                let mut rr = rows.clone();
                rr.resize(n, vec![]);
                let outer: Vec<u64> = if tr { k.h.iter().step_by(2).copied().collect() } else { k.h.clone() };
                rr.iter().zip(&outer).fold(0, |a, (row, h)| addm(a, mulm(row.iter().zip(&k.g).fold(0, |a, (x, g)| addm(a, mulm(*x, *g, r), r)), *h, r), r))
            };
            let kn = if tr { 4 } else { 10 };
            let total = 4 + kn + pr.slots(tr);
            let st = pr.second.steps.len();
            let slot = choose(total + st + pr.first.steps.len());
            if slot < total {
                let how = choose(3);
                let y = match slot {
                    0 => &mut com,
                    1 => &mut e,
                    2 => &mut z.0,
                    3 => &mut z.1,
                    i if i < 4 + kn => match (tr, i - 4) {
                        (true, 0) => &mut k.vk.g,
                        (true, 1) => &mut k.vk.h,
                        (true, 2) => &mut k.vk.g_beta,
                        (true, _) => &mut k.vk.h_alpha,
                        (false, j) if j < 5 => &mut k.g[edge(w, j)],
                        (false, j) => &mut k.h[edge(n, j - 5)],
                    },
                    i => pr.slot(tr, i - 4 - kn).0,
                };
                *y = match how {
                    0 => addm(*y, 1, r),
                    1 => 0,
                    _ => (r - *y) % r,
                };
            } else {
                let x = if slot < total + st { &mut pr.second.steps[slot - total] } else { &mut pr.first.steps[slot - total - st] };
                std::mem::swap(&mut x.0, &mut x.1);
            }
            observe_u64s(&[slot as u64]);
            judge(s, &k, uni.then_some(deg), com, z, e, &pr).map_err(|e| ctx(format!("slot {slot}: {e}")))
        },
    );
}

fn c28(c: &mut Checker) {
    let th = c.thorough;
    for tr in [true, false] {
        let s = pick(tr, 0);
        let r = WBig::R;
        let top = if th { 1500 } else { 300 };
        let max = if th { 33 } else { 27 };
        let mut far: Vec<usize> = (3..=max).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1, (3 << k - 1) - 1, 3 << k - 1, (3 << k - 1) + 1]).collect();
        far.extend((4..=max / 2).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1, 3 << k - 1]).flat_map(|x| (x * x - 2)..=(x * x + 1)));
        let far = &far;
        c.scenario(
            Scenario {
                name: leak(format!("{}-grid", s.name())),
                bounds: leak(format!("every degree bound 0..={top} plus 2^k-1, 2^k, 2^k+1, 3*2^k-1, 3*2^k, 3*2^k+1 up to 2^{max}, and squares x^2-2..x^2+1 of x = 2^k-1, 2^k, 2^k+1, 3*2^k/2: power-of-two grid with room for every coefficient")),
                dev: 0,
                oracle: OracleCfg::None,
                require: &["grid"],
            },
            move || {
                let i = choose(top + 1 + far.len());
                let d = if i <= top { i } else { far[i - top - 1] };
                observe_u64s(&[d as u64]);
                let k = s.setup_uni(d, &[big(7, 0), big(8, 0)]).map_err(|e| format!("{} setup for degree bound {d}: {e:?}", s.name()))?;
                let (x, y) = (k.rows(tr), k.g.len());
                if !x.is_power_of_two() || !y.is_power_of_two() || (tr && k.h.len() != 2 * x - 1) {
                    return Err(format!("{} setup for degree bound {d}: {x} x {y} grid is not a power of two ({} second-group powers)", s.name(), k.h.len()));
                }
                if x * y < d + 1 {
                    return Err(format!("{} setup for degree bound {d}: {x} x {y} grid cannot hold {} coefficients", s.name(), d + 1));
                }
                tally("grid");
                Ok(())
            },
        );
        let top = if th { 90 } else { 24 };
        c.scenario(
            Scenario {
                name: leak(format!("{}-monomials", s.name())),
                bounds: leak(format!("61-bit field, degree bounds 0..={top}: every monomial the grid can hold is committed, opened at 2 points and verified (each has a commitment of its own, and so has its sum with every other monomial's successor); every longer monomial up to 3 past the grid and 2 grids long is refused by commit and by open")),
                dev: 0,
                oracle: OracleCfg::Real,
                require: &["accepted", "refused"],
            },
            move || {
                let d = choose(top + 1);
                let l = s.setup_uni(d, &[big(7, 0), big(8, 0)]).map_err(|e| format!("{} setup for degree bound {d}: {e:?}", s.name()))?;
                let (x, y) = (l.rows(tr), l.g.len());
                let k = if tr { l } else { PcKey::transparent(bigv(7, y), bigv(8, x)) };
                let cap = x * y;
                let unit = |i: usize| {
                    let mut v = vec![0; i + 1];
                    v[i] = 1;
                    v
                };
                observe_u64s(&[d as u64]);
                if choose(2) == 0 {
                    let i = choose(cap);
                    observe_u64s(&[i as u64]);
                    let z = [big(3, 1), 1][choose(2)];
                    let (com, _) = run_uni(s, &k, d, &unit(i), z)?;
                    for j in i + 1..cap {
                        if s.commit_uni(&k, &unit(j)).map_err(|e| format!("{e:?}"))?.0 == com {
                            return Err(format!("{}: degree bound {d}: X^{i} and X^{j} have the same commitment", s.name()));
                        }
                        if cap > 64 && j > i + 2 {
                            break;
                        }
                    }
                    let mut p = unit(i);
                    p[0] = addm(p[0], 1, r);
                    run_uni(s, &k, d, &p, z)?;
                    tally("monomial");
                } else {
                    let len = choose_in(&[cap, cap + 1, cap + 2, 2 * cap]);
                    let low = choose(2);
                    let mut p = unit(len);
                    p[0] = low as u64;
                    observe_u64s(&[len as u64, low as u64]);
                    if let Ok((com, rows)) = s.commit_uni(&k, &p) {
                        return Err(format!("{}: degree bound {d} ({x} x {y} grid): commit accepts a polynomial of degree {len} (same commitment as its truncation: {})", s.name(), s.commit_uni(&k, &p[..cap]).map(|q| q.0 == com && q.1 == rows).unwrap_or(false)));
                    }
                    let rows = s.commit_uni(&k, &p[..cap]).map_err(|e| format!("{e:?}"))?.1;
                    if s.open_uni(&k, &p, &rows, big(3, 1)).is_ok() {
                        return Err(format!("{}: degree bound {d} ({x} x {y} grid): open accepts a polynomial of degree {len}", s.name()));
                    }
                    tally("refused");
                }
                Ok(())
            },
        );
        let s = pick(tr, 3);
        c.scenario(
            Scenario {
                name: leak(format!("{}-rearranged-F3", s.name())),
                bounds: "degree bounds 0..=3 over F_3: every polynomial the grid holds, opened and verified at every point; every polynomial one coefficient longer refused; commitments of two polynomials that differ only in coefficients beyond the bound differ under keys that separate them",
                dev: 0,
                oracle: cfg_values(3, &[2]),
                require: &["accepted", "refused"],
            },
            move || {
                let d = choose(4);
                let k = s.setup_uni(d, &[2, 1]).map_err(|e| format!("{} setup for degree bound {d}: {e:?}", s.name()))?;
                let cap = k.rows(tr) * k.g.len();
                let mut p = choose_vec(cap.min(4), 3);
                observe_u64s(&[&[d as u64], &p[..]].concat());
                if choose(2) == 0 {
                    for z in 0..3 {
                        run_uni(s, &k, d, &p, z)?;
                    }
                } else {
                    p.resize(cap, 0);
                    p.push(1 + choose(2) as u64);
                    if s.commit_uni(&k, &p).is_ok() {
                        return Err(format!("{}: degree bound {d}: commit accepts {p:?}, the grid holds {cap} coefficients", s.name()));
                    }
                    if s.open_uni(&k, &p, &vec![0; k.rows(tr)], 1).is_ok() {
                        return Err(format!("{}: degree bound {d}: open accepts {p:?}, the grid holds {cap} coefficients", s.name()));
                    }
                    tally("refused");
                }
                Ok(())
            },
        );
    }
}

mc::wide_polys!(wp);
fn wide(c: &mut Checker, id: &str) {
    use mc::wide::{complete, sound};
    let top = if c.thorough { 6 } else { 4 };
    let sizes: &[usize] = if c.thorough { &[1, 2, 4, 8, 16, 32] } else { &[1, 4, 16] };
    match id {
        "C15" => {
            complete::<wp::Kzg>(c, top);
            sound::<wp::Kzg>(c, sizes)
        }
        "C16" => {
            complete::<wp::TrustedBi>(c, top);
            complete::<wp::TrustedUni>(c, top)
        }
        "C17" => {
            sound::<wp::TrustedBi>(c, &sizes[..sizes.len() - 1]);
            sound::<wp::TrustedUni>(c, sizes)
        }
        "C18" => {
            complete::<wp::TransparentBi>(c, top);
            complete::<wp::TransparentUni>(c, top)
        }
        _ => {
            sound::<wp::TransparentBi>(c, &sizes[..sizes.len() - 1]);
            sound::<wp::TransparentUni>(c, sizes)
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut c = Checker::new(&a[1], &a[2]);
    c.assumptions.push("group, field and pairing arithmetic of the backend is correct; replaced by transparent groups over small prime fields (scenarios named bls12-381: the real curve) and one 61-bit prime field".into());
    if a[1] != "C15" {
        c.assumptions.push("the hash is a random oracle: every answer of the enumerated alphabet is explored; equal queries get equal answers (61-bit scenarios: Blake2s)".into());
    }
    match a[1].as_str() {
        "C15" => {
            c15(&mut c);
            wide(&mut c, "C15")
        }
        "C16" | "C18" => {
            complete(&mut c, a[1] == "C16");
            long(&mut c, a[1] == "C16", false);
            wide(&mut c, &a[1])
        }
        "C17" | "C19" => {
            sound(&mut c, a[1] == "C17");
            long(&mut c, a[1] == "C17", true);
            wide(&mut c, &a[1])
        }
        "C28" => c28(&mut c),
        x => {
            eprintln!("unknown property {x}");
            std::process::exit(2);
        }
    }
    c.finish()
}
