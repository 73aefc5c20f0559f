//! C10 reference strings, C11 completeness, C12 soundness of TIPA.
use mc::{explore::*, gens::*, oracle::*, proto::*, refm::*, rng::Script, world::*};

mc::tipa_world!(t3, W3, w3);
mc::tipa_world!(t5, W5, w5);
mc::tipa_world!(t7, W7, w7);
mc::tipa_world!(tb, WBig, wbig);
mc::ssm_world!(m5, W5, w5);
mc::ssm_world!(mb, WBig, wbig);
mc::wide_tipas!(tw);

type Sy = &'static dyn Tipa;

fn obs_prf(p: &Prf) {
    let mut v = vec![p.base.0, p.base.1, p.fck.0, p.fck.1, p.open.0, p.open.1];
    for (l, r) in &p.steps {
        v.extend([l.a, l.b]);
        v.extend(&l.t);
        v.extend([r.a, r.b]);
        v.extend(&r.t);
    }
    observe_u64s(&v)
}

struct St {
    srs: Srs,
    k: Key,
    vk: Vk,
}
/// Reference string from the model (`lib` false) or the library with a scripted random stream.
fn strings(s: Sy, n: usize, alpha: u64, beta: u64, ckt: u64, lib: bool) -> Result<St, String> {
    if lib {
        let (srs, k, vk) = s.setup(n, alpha, beta, ckt)?;
        return Ok(St { srs, k, vk });
    }
    let srs = Srs::model(n, alpha, beta, s.r());
    let (k, vk) = (srs.key(if s.compact() { ckt } else { 0 }), srs.vk());
    Ok(St { srs, k, vk })
}

/// Shifted statement: (left vector, left keys).
fn shifted(a: &[u64], ka: &[u64], shift: Option<u64>, r: u64) -> (Vec<u64>, Vec<u64>) {
    match shift {
        None => (a.to_vec(), ka.to_vec()),
        Some(x) => (had(a, &powers(x, a.len(), r), r), had(ka, &powers(invm(x, r), ka.len(), r), r)),
    }
}

fn honest(s: Sy, st: &St, a: &[u64], b: &[u64], shift: Option<u64>) -> Result<(Com, Prf, Key), String> {
    let r = s.r();
    let n = a.len();
    let (ar, kr) = shifted(a, &st.k.a, shift, r);
    let k = Key { a: kr, b: st.k.b.clone(), t: st.k.t };
    let com = s.com(&k, &ar, b, dot(&ar, b, r));
    let what = || format!("{}: a={a:?} b={b:?} shift={shift:?} secrets beta={} alpha={}", s.name(), st.vk.g_beta, st.vk.h_alpha);
    let pb = s.prove(&st.srs, &ar, b, &k, shift).ok().map_err(|e| format!("{e}; {}", what()))?;
    let p = s.dec(&pb).ok_or("proof does not decode")?;
    let m = mark();
    let v = s.verify(&st.vk, k.t, &com, &pb, shift);
    let rounds = n.trailing_zeros() as usize;
    let (hs, z) = s.challenges(m, rounds);
    observe_u64s(&hs);
    if !v.accepted() {
        return Err(format!("honest proof not accepted ({v:?}): {} round hashes {hs:?} key challenge {z:?}", what()));
    }
    if let Some(z) = z {
        let mut q = gipa_prover(s, &ar, b, &k, &hs, false);
        q.open = tipa_openings(&st.srs, &hs, z, shift.unwrap_or(1), r);
        if q == p {
            validated();
        }
    }
    tally("accepted");
    if answers_since(m).len() > rounds + 1 {
        tally("retried");
    }
    Ok((com, p, k))
}

fn c10(c: &mut Checker) {
    let th = c.thorough;
    fn check(s: &str, n: usize, r: u64, srs: &Srs, k: &Key, vk: &Vk) -> Outcome {
        let (alpha, beta) = (srs.h_alpha, srs.g_beta);
        let e = |m: &str| Err(format!("{s}: size {n}: {m} (alpha={alpha}, beta={beta}, {vk:?}, powers {:?} / {:?}, keys {k:?})", srs.g_alpha, srs.h_beta));
        if srs.g_alpha != powers(alpha, 2 * n - 1, r) {
            return e("first-group powers are not the 2n-1 consecutive powers of alpha");
        }
        if srs.h_beta != powers(beta, 2 * n - 1, r) {
            return e("second-group powers are not the 2n-1 consecutive powers of beta");
        }
        if k.a != powers(mulm(beta, beta, r), n, r) {
            return e("left keys are not the n even powers of beta");
        }
        if k.b != powers(mulm(alpha, alpha, r), n, r) {
            return e("right keys are not the n even powers of alpha");
        }
        if (vk.g, vk.h, vk.g_beta, vk.h_alpha) != (1, 1, beta, alpha) {
            return e("verifier key does not match");
        }
        validated();
        tally("checked");
        Ok(())
    }
    let top = if th { 33 } else { 17 };
    macro_rules! sys {
        ($all:expr, $r:expr) => {
            for s in $all {
                let s = *s;
                c.scenario(
                    Scenario {
                        name: leak(format!("{}-setup-F{}", s.name(), $r)),
                        bounds: leak(format!("sizes 1..={top} (powers of two or not), all random draws (secrets and result key) over F_{}", $r)),
                        dev: 0,
                        oracle: OracleCfg::None,
                        require: &["checked"],
                    },
                    move || {
                        let n = 1 + choose(top);
                        let (x, y, z) = (choose($r) as u64, choose($r) as u64, choose($r) as u64);
                        let (srs, k, vk) = s.setup(n, x, y, z)?;
                        observe_u64s(&[n as u64, x, y, z]);
                        let mut want = vec![x, y];
                        let mut got = vec![srs.h_alpha, srs.g_beta];
                        want.sort();
                        got.sort();
                        if want != got {
                            return Err(format!("{}: secrets {got:?} although the random stream yields {want:?}", s.name()));
                        }
                        check(s.name(), n, $r, &srs, &k, &vk)
                    },
                );
            }
        };
    }
    sys!(t3::ALL, 3);
    sys!(t5::ALL, 5);
    sys!(t7::ALL, 7);
    let logs: Vec<&'static dyn Ssm> = m5::ALL.iter().copied().filter(|s| !s.transparent()).collect();
    sys!(&logs, 5);

    // large strings
    let ladder = {
        let mut v = around(if th { &[32, 64, 128, 256, 512, 1024, 2048, 4096, 8192] } else { &[32, 64, 128, 256, 512, 1024] });
        v.extend([1, 2, 3, 5, 48, 100, 300, 1000]);
        v
    };
    let big_all: Vec<&'static str> = tb::ALL.iter().map(|s| s.name()).chain(mb::ALL.iter().filter(|s| !s.transparent()).map(|s| s.name())).collect();
    let (lad, nm) = (&ladder, &big_all);
    c.scenario(
        Scenario {
            name: "setup-long",
            bounds: leak(format!("setups of {big_all:?} for sizes {ladder:?} over a 61-bit field, five pairs of secrets (0, 1 and -1 included), pools 1,3,8")),
            dev: 0,
            oracle: OracleCfg::None,
            require: &["checked"],
        },
        move || {
            let i = choose(nm.len());
            let n = choose_in(lad);
            rayon_core::mc::set_threads(choose_in(&[1usize, 3, 8]));
            let (x, y) = [(big(1, 1), big(2, 2)), (0, big(2, 2)), (1, big(2, 2)), (big(1, 1), 1), (big(1, 1), WBig::R - 1)][choose(if n < 300 { 5 } else { 1 })];
            observe_u64s(&[i as u64, n as u64, x, y]);
            let (srs, k, vk) = if i < tb::ALL.len() {
                tb::ALL[i].setup(n, x, y, 3)?
            } else {
                mb::ALL.iter().find(|s| s.name() == nm[i]).unwrap().setup(n, x, y, 3)?
            };
            check(nm[i], n, WBig::R, &srs, &k, &vk).map_err(|e| e.chars().take(300).collect())
        },
    );

    // helpers on their own
    use ark_ip_proofs::tipa::{structured_generators_scalar_power, structured_scalar_message::structured_scalar_power};
    macro_rules! helpers {
        ($w:ident, $top:expr) => {
            c.scenario(
                Scenario {
                    name: concat!("power-helpers-", stringify!($w)),
                    bounds: concat!("every base, scalar and count (group helper from 1, scalar helper from 0) up to ", stringify!($top)),
                    dev: 0,
                    oracle: OracleCfg::None,
                    require: &["checked"],
                },
                || {
                    let r = $w::R;
                    let num = choose($top + 1);
                    let s = choose(r as usize) as u64;
                    observe_u64s(&[num as u64, s]);
                    let got: Vec<u64> = structured_scalar_power(num, &$w::f(s)).iter().map($w::fu).collect();
                    if got != powers(s, num, r) {
                        return Err(format!("structured_scalar_power({num}, {s}) over F_{r} = {got:?}"));
                    }
                    if num > 0 {
                        let g = choose(r as usize) as u64;
                        let want: Vec<u64> = powers(s, num, r).iter().map(|p| mulm(*p, g, r)).collect();
                        let g1: Vec<u64> = structured_generators_scalar_power(num, &$w::g1(g), &$w::f(s)).iter().map($w::d1).collect();
                        let g2: Vec<u64> = structured_generators_scalar_power(num, &$w::g2(g), &$w::f(s)).iter().map($w::d2).collect();
                        if g1 != want || g2 != want {
                            return Err(format!("structured_generators_scalar_power({num}, {g}, {s}) over F_{r} = {g1:?} / {g2:?}"));
                        }
                    }
                    validated();
                    tally("checked");
                    Ok(())
                },
            );
        };
    }
    helpers!(W3, 70);
    helpers!(W5, 70);
    helpers!(W13, 70);
    if th {
        helpers!(W11, 600);
    }
    c.scenario(
        Scenario {
            name: "power-helpers-61-bit",
            bounds: "counts 0..=300 and around 512..4096 (thorough 65536), three 61-bit scalars and bases, and scalar 0, 1, -1",
            dev: 0,
            oracle: OracleCfg::None,
            require: &["checked"],
        },
        move || {
            let r = WBig::R;
            let far = around(if th { &[512, 1024, 2048, 4096, 8192, 16384, 32768, 65536] } else { &[512, 1024, 2048, 4096] });
            let num = choose(301 + far.len());
            let num = if num > 300 { far[num - 301] } else { num };
            let s = choose(6) as u64;
            let s = if s < 3 { big(1, s) } else { [0, 1, r - 1][s as usize - 3] };
            let g = big(2, choose(2) as u64);
            observe_u64s(&[num as u64, s, g]);
            let want = powers(s, num, r);
            if structured_scalar_power(num, &WBig::f(s)).iter().map(WBig::fu).collect::<Vec<_>>() != want {
                return Err(format!("structured_scalar_power({num}, {s}) wrong"));
            }
            if num > 0 {
                let want: Vec<u64> = want.iter().map(|p| mulm(*p, g, r)).collect();
                let g1: Vec<u64> = structured_generators_scalar_power(num, &WBig::g1(g), &WBig::f(s)).iter().map(WBig::d1).collect();
                if g1 != want {
                    return Err(format!("structured_generators_scalar_power({num}, {g}, {s}) wrong"));
                }
            }
            validated();
            tally("checked");
            Ok(())
        },
    );

    // polynomial schemes
    use ark_ip_proofs::applications::poly_commit::{
        transparent, BivariatePolynomialCommitment, UnivariatePolynomialCommitment, KZG,
    };
    use ark_ip_proofs::tipa::SRS;
    fn poly_srs(n: &str, xd: usize, srs: &SRS<W7>, row: &[w7::G1], yd: Option<usize>) -> Outcome {
        let r = 7;
        let v = srs.get_verifier_key();
        let (alpha, beta) = (W7::d2(&srs.h_alpha), W7::d1(&srs.g_beta));
        let hb: Vec<u64> = srs.h_beta_powers.iter().map(W7::d2).collect();
        let kz: Vec<u64> = row.iter().map(W7::d1).collect();
        let ka: Vec<u64> = srs.get_commitment_keys().0.iter().map(W7::d2).collect();
        let e = |m: &str| Err(format!("{n}: {m} (alpha={alpha}, beta={beta}, {hb:?}, {kz:?}, keys {ka:?})"));
        if hb != powers(beta, 2 * xd + 1, r) {
            return e("second-group powers");
        }
        if ka != powers(mulm(beta, beta, r), xd + 1, r) {
            return e("row commitment keys are not the even powers");
        }
        if kz != powers(alpha, kz.len(), r) || yd.is_some_and(|y| kz.len() != y + 1) {
            return e("first-group powers");
        }
        if (W7::d1(&v.g), W7::d2(&v.h), W7::d1(&v.g_beta), W7::d2(&v.h_alpha)) != (1, 1, beta, alpha) {
            return e("verifier key");
        }
        Ok(())
    }
    c.scenario(
        Scenario {
            name: "polynomial-setups",
            bounds: "KZG degrees 0..=20, bivariate degrees 0..=7 x 0..=9 (trusted and transparent), univariate degrees 0..=70; all secrets over F_7",
            dev: 0,
            oracle: OracleCfg::None,
            require: &["kzg", "bivariate", "univariate"],
        },
        || {
            let r = 7u64;
            let (x, y) = (choose(7) as u64, choose(7) as u64);
            let mut rng = Script::new(&[x, y], r);
            let kind = choose(3);
            observe_u64s(&[kind as u64, x, y]);
            match kind {
                0 => {
                    let d = choose(21);
                    observe_u64s(&[d as u64]);
                    let (p, v) = KZG::<W7>::setup(&mut rng, d).map_err(|e| e.to_string())?;
                    let alpha = W7::d2(&v.h_alpha);
                    let got: Vec<u64> = p.iter().map(W7::d1).collect();
                    if got != powers(alpha, d + 1, r) || W7::d1(&v.g) != 1 || W7::d2(&v.h) != 1 {
                        return Err(format!("KZG setup for degree {d}: powers {got:?}, alpha {alpha}"));
                    }
                    let mut want = [x, y];
                    let mut have = [alpha, W7::d1(&v.g_beta)];
                    want.sort();
                    have.sort();
                    if want != have {
                        return Err(format!("KZG secrets {have:?} from random stream {want:?}"));
                    }
                    tally("kzg");
                }
                1 => {
                    let (xd, yd) = (choose(8), choose(10));
                    observe_u64s(&[xd as u64, yd as u64]);
                    let (srs, row) = BivariatePolynomialCommitment::<W7, CD>::setup(&mut rng, xd, yd).map_err(|e| e.to_string())?;
                    poly_srs("bivariate setup", xd, &srs, &row, Some(yd))?;
                    let ck = transparent::BivariatePolynomialCommitment::<W7, CD>::setup(&mut rng, xd, yd).map_err(|e| e.to_string())?;
                    if ck.0.len() != yd + 1 || ck.1.len() != xd + 1 {
                        return Err(format!("transparent bivariate keys for degrees ({xd},{yd}): {} and {}", ck.0.len(), ck.1.len()));
                    }
                    tally("bivariate");
                }
                _ => {
                    let d = choose(71);
                    observe_u64s(&[d as u64]);
                    let (srs, row) = UnivariatePolynomialCommitment::<W7, CD>::setup(&mut rng, d).map_err(|e| e.to_string())?;
                    let xd = (srs.h_beta_powers.len() - 1) / 2;
                    poly_srs("univariate setup", xd, &srs, &row, None)?;
                    if (xd + 1) * row.len() <= d {
                        return Err(format!("univariate setup for degree {d}: grid {} x {}", xd + 1, row.len()));
                    }
                    tally("univariate");
                }
            }
            validated();
            Ok(())
        },
    );
}

fn c11(c: &mut Checker) {
    let th = c.thorough;
    // everything at once at small sizes
    let full = |c: &mut Checker, all: &'static [Sy], n: usize, dev: u32| {
        for s in all {
            let s: Sy = *s;
            let r = s.r();
            c.scenario(
                Scenario {
                    name: leak(format!("{}-full-F{r}-n{n}", s.name())),
                    bounds: leak(format!("all message vectors over F_{r} of length {n}, all secrets, no shift and every non-zero shift, all challenges, up to {dev} unusable digests")),
                    dev,
                    oracle: cfg_for(r),
                    require: if dev > 0 { &["accepted", "retried"] } else { &["accepted"] },
                },
                move || {
                    let st = strings(s, n, choose(r as usize) as u64, choose(r as usize) as u64, 2, true)?;
                    let (a, b) = (choose_vec(n, r), choose_vec(n, r));
                    let shift = match choose(r as usize) as u64 {
                        0 => None,
                        x => Some(x),
                    };
                    observe_u64s(&[&a[..], &[99], &b, &[st.vk.g_beta, st.vk.h_alpha, shift.unwrap_or(0)]].concat());
                    honest(s, &st, &a, &b, shift).map(|_| ())
                },
            );
        }
    };
    full(c, t3::ALL, 1, 1);
    full(c, t5::ALL, 1, 1);
    full(c, t3::ALL, 2, 1);
    if th {
        full(c, t7::ALL, 1, 2);
        full(c, t5::ALL, 2, 0);
    }
    let base = |c: &mut Checker, all: &'static [Sy], n: usize, vecs: usize, secrets: usize, shifts: usize, chal: usize, dev: u32, threads: &'static [usize]| {
        for s in all {
            let s: Sy = *s;
            let r = s.r();
            let vals = spread(r, chal);
            let sec: Vec<u64> = spread(r, secrets).into_iter().rev().chain(if secrets as u64 >= r { vec![0] } else { vec![] }).collect();
            let sh: Vec<u64> = spread(r, shifts + 1)[1..].to_vec();
            c.scenario(
                Scenario {
                    name: leak(format!("{}-basis-F{r}-n{n}", s.name())),
                    bounds: leak(format!("length {n}: {vecs} unit/dense/zero vectors on each side, secrets from {sec:?} (pairs), plain entry point and shifts {sh:?}, digests {vals:?}, up to {dev} unusable digests, pools {threads:?}")),
                    dev,
                    oracle: cfg_values(r, &vals),
                    require: if dev > 0 { &["accepted", "retried"] } else { &["accepted"] },
                },
                move || {
                    rayon_core::mc::set_threads(choose_in(threads));
                    let st = strings(s, n, choose_in(&sec), choose_in(&sec), 2, false)?;
                    let lo = n + 2 - vecs;
                    let (a, b) = (basis(n, r, lo + choose(vecs)), basis(n, r, lo + 1 + choose(vecs)));
                    let shift = match choose(sh.len() + 1) {
                        0 => None,
                        i => Some(sh[i - 1]),
                    };
                    observe_u64s(&[&a[..], &[99], &b, &[st.vk.g_beta, st.vk.h_alpha, shift.unwrap_or(0)]].concat());
                    honest(s, &st, &a, &b, shift).map(|_| ())
                },
            );
        }
    };
    base(c, t7::ALL, 2, 4, 7, 4, 4, 1, &[4]);
    base(c, t5::ALL, 4, if th { 6 } else { 3 }, 5, 3, 3, 1, if th { &[1, 3] } else { &[4] });
    base(c, t5::ALL, 8, if th { 5 } else { 2 }, 2, 1, 2, 1, &[4]);
    base(c, t5::ALL, 16, if th { 3 } else { 1 }, 2, 1, 2, 0, &[4]);
    if th {
        base(c, t7::ALL, 32, 1, 2, 1, 2, 0, &[4]);
    }
}

fn sound(s: Sy, vk: &Vk, ckt: u64, com: &Com, p: &Prf, shift: Option<u64>) -> Outcome {
    let bytes = s.enc(p);
    let m = mark();
    let v = s.verify(vk, ckt, com, &bytes, shift);
    let (hs, z) = s.challenges(m, p.steps.len());
    observe_u64s(&hs);
    let want = tipa_accepts(s, vk, ckt, com, p, shift.unwrap_or(1), &hs, z);
    if v.accepted() && !want {
        return Err(format!("{}: verifier accepts although an equation fails: {vk:?} result key {ckt} {com:?} {p:?} shift {shift:?} round hashes {hs:?} key challenge {z:?}", s.name()));
    }
    if v.accepted() == want {
        validated();
    }
    tally(if v.accepted() { "accepted" } else { "rejected" });
    Ok(())
}
/// Long vectors in the 61-bit world: honest runs (kind 11) and single changes (kind 12).
fn long(c: &mut Checker, kind: u8) {
    let th = c.thorough;
    let (top, pat) = match (kind, th) {
        (11, false) => (13, 16),
        (11, true) => (16, 128),
        (_, false) => (10, 8),
        (_, true) => (13, 32),
    };
    let limit: usize = match (kind, th) {
        (11, false) => 256,
        (11, true) => 4096,
        (_, false) => 32,
        (_, true) => 256,
    };
    let r = WBig::R;
    for s in tb::ALL {
        let s: Sy = *s;
        c.scenario(
            Scenario {
                name: leak(format!("{}-long", s.name())),
                bounds: leak(format!("lengths 1, 2, .. 2^{top} over a 61-bit field, real hash, library setup, pools 1,3,8, secrets among two dense pairs, (1, 1), (0, x), (x, 0), equal; no shift, shift 1, -1, dense (lengths above {limit}: pool 8, one dense pair of secrets, no or dense shift); messages dense or (up to length {pat}) each of {PATTERNS} patterns (honest runs of lengths 2, 4, 8 with dense secrets, pool 3: every pair of patterns, and equal messages); {}", if kind == 11 { "honest proof accepted" } else { "one commitment, key element, shift or proof component +1, zeroed, negated, or a round's halves exchanged" })),
                dev: 0,
                oracle: OracleCfg::Real,
                require: if kind == 11 { &["accepted"] } else { &["rejected"] },
            },
            move || {
                let n = 1usize << choose(top + 1);
                let huge = n > limit;
                let threads = if huge { 8 } else { choose_in(&[1usize, 3, 8]) };
                rayon_core::mc::set_threads(threads);
                let x = big(4, 4);
                let sec = [(x, big(5, 5)), (1, 1), (0, x), (x, 0), (x, x), (r - 1, x)][choose(if huge { 1 } else if kind == 11 { 6 } else { 2 })];
                let shift = [None, Some(big(6, 6)), Some(1), Some(r - 1)][choose(if huge { 2 } else { 4 })];
                let (mut i, mut j) = (0, 0);
                let (mut a, mut b) = (pattern(1, n, 0), pattern(2, n, 0));
                if kind == 11 && (2..=8).contains(&n) && threads == 3 && sec == (x, big(5, 5)) {
                    (a, b, _) = choose_pattern_pair((1, 2), n);
                    observe_u64s(&[a.clone(), b.clone()].concat());
                } else if n > 1 && n <= pat && kind == 11 {
                    (i, j) = choose_patterns2();
                    (a, b) = (pattern(1, n, i), pattern(2, n, j));
                }
                observe_u64s(&[n as u64, threads as u64, sec.0, sec.1, shift.unwrap_or(0), i as u64, j as u64]);
                let id = format!("{}: length {n}, message patterns {i}/{j} ({}, {}, ..), secrets {sec:?}, shift {shift:?}, {threads} workers", s.name(), a[0], b[0]);
                let ctx = |e: String| format!("{id}: {}", e.chars().take(300).collect::<String>());
                let st = strings(s, n, sec.0, sec.1, big(9, 9), true).map_err(ctx)?;
                let (ar, kr) = shifted(&a, &st.k.a, shift, r);
                let k = Key { a: kr, b: st.k.b.clone(), t: if s.compact() { big(9, 9) } else { 0 } };
                let mut com = s.com(&k, &ar, &b, dot(&ar, &b, r));
                let pb = s.prove(&st.srs, &ar, &b, &k, shift).ok().map_err(ctx)?;
                let m = mark();
                let v = s.verify(&st.vk, k.t, &com, &pb, shift);
                let (hs, z) = s.challenges(m, n.trailing_zeros() as usize);
                if !v.accepted() {
                    return Err(ctx(format!("honest proof not accepted ({v:?})")));
                }
                let z = z.ok_or_else(|| ctx("no key challenge".into()))?;
                let mut p = gipa_prover(s, &ar, &b, &k, &hs, false);
                p.open = tipa_openings(&st.srs, &hs, z, shift.unwrap_or(1), r);
                let same = s.enc(&p) == pb;
                if same {
                    validated();
                }
                if kind == 11 {
                    tally("accepted");
                    return Ok(());
                }
                if !same {
                    return Err(ctx("the prover's messages are not those of the argument under the verifier's challenges".into()));
                }
                let (mut vk, mut kt, mut sh) = (st.vk.clone(), k.t, shift.unwrap_or(1));
                let cn = 2 + com.t.len();
                let total = cn + 6 + prf_slots(&p);
                let slot = choose(total + p.steps.len());
                if slot < total {
                    let how = choose(3);
                    let y = match slot {
                        q if q < cn => com_slot(&mut com, q),
                        q => match q - cn {
                            0 => &mut vk.g,
                            1 => &mut vk.h,
                            2 => &mut vk.g_beta,
                            3 => &mut vk.h_alpha,
                            4 => &mut kt,
                            5 => &mut sh,
                            q => prf_slot(&mut p, q - 6),
                        },
                    };
                    *y = match how {
                        0 => addm(*y, 1, r),
                        1 => 0,
                        _ => (r - *y) % r,
                    };
                } else {
                    let e = &mut p.steps[slot - total];
                    std::mem::swap(&mut e.0, &mut e.1);
                }
                if sh == 0 {
                    return excluded();
                }
                observe_u64s(&[slot as u64, sh, vk.g, vk.h, vk.g_beta, vk.h_alpha]);
                let shift = if sh == 1 && shift.is_none() { None } else { Some(sh) };
                sound(s, &vk, kt, &com, &p, shift).map_err(|e| ctx(format!("slot {slot}: {e}")))
            },
        );
    }
}

fn c12(c: &mut Checker) {
    let th = c.thorough;
    for s in t3::ALL {
        let s: Sy = *s;
        let r = s.r();
        c.scenario(
            Scenario {
                name: leak(format!("{}-all-n1-F{r}", s.name())),
                bounds: leak(format!("no rounds: every secret pair, commitment triple, final messages, final keys, key openings, shift and key challenge over F_{r}")),
                dev: 0,
                oracle: cfg_for(r),
                require: &["accepted", "rejected"],
            },
            move || {
                let v = choose_vec(11, r);
                let shift = [None, Some(1), Some(2)][choose(3)];
                let vk = Srs::model(1, v[0], v[1], r).vk();
                let com = Com { a: v[2], b: v[3], t: vec![v[4]] };
                let p = Prf { steps: vec![], base: (v[5], v[6]), fck: (v[7], v[8]), open: (v[9], v[10]) };
                observe_u64s(&v);
                sound(s, &vk, 2, &com, &p, shift)
            },
        );
        c.scenario(
            Scenario {
                name: leak(format!("{}-all-n2-F{r}", s.name())),
                bounds: leak(format!("one round: two halves of the proof enumerated exhaustively over F_{r} around honest proofs: (all final messages, keys, openings and commitments) or (all cross commitments, final messages and commitments); secrets {}; all challenges", if th { "all" } else { "two pairs" })),
                dev: 0,
                oracle: cfg_for(r),
                require: &["accepted", "rejected"],
            },
            move || {
                let (al, be) = if th { (choose(3) as u64, choose(3) as u64) } else { choose_in(&[(2, 1), (1, 2)]) };
                let st = strings(s, 2, al, be, 2, false)?;
                let shift = [None, Some(2)][choose(2)];
                let (com0, p0, _) = honest(s, &st, &[1, 2], &[2, 1], shift)?;
                let (mut com, mut p) = (com0, p0);
                if choose(2) == 0 {
                    let v = choose_vec(6, r);
                    p.base = (v[0], v[1]);
                    p.fck = (v[2], v[3]);
                    p.open = (v[4], v[5]);
                    com.a = choose(3) as u64;
                    com.t = choose_vec(1, r);
                    observe_u64s(&v);
                } else {
                    let v = choose_vec(6, r);
                    p.steps = vec![(Com { a: v[0], b: v[1], t: vec![v[2]] }, Com { a: v[3], b: v[4], t: vec![v[5]] })];
                    p.base = (choose(3) as u64, choose(3) as u64);
                    observe_u64s(&v);
                }
                observe_u64s(&[com.a, com.t[0], p.base.0, p.base.1]);
                sound(s, &st.vk, st.k.t, &com, &p, shift)
            },
        );
    }
    let tamper = |c: &mut Checker, all: &'static [Sy], n: usize, chal: usize, muts: usize, deltas: usize, secrets: usize| {
        for s in all {
            let s: Sy = *s;
            let r = s.r();
            let vals = spread(r, chal);
            let sec = spread(r, secrets + 1)[1..].to_vec();
            c.scenario(
                Scenario {
                    name: leak(format!("{}-tampered-F{r}-n{n}-x{muts}", s.name())),
                    bounds: leak(format!("honest proofs of length {n} over F_{r} (dense/unit/zero vectors, secrets from {sec:?}, plain and shifted); {muts} component(s) among commitments, verifier key, result key, shift and proof changed by {deltas} value(s); digests {vals:?}")),
                    dev: 0,
                    oracle: cfg_values(r, &vals),
                    require: &["rejected"],
                },
                move || {
                    let pick = if muts > 1 || n > 4 { 0 } else { choose(3) };
                    let st = strings(s, n, choose_in(&sec), choose_in(&sec), 2, false)?;
                    let a = basis(n, r, [n, n - 1, n + 2][pick]);
                    let b = basis(n, r, [n + 2, n, n + 1][pick]);
                    let shift = [None, Some(2)][choose(2)];
                    let (mut com, mut p, k) = honest(s, &st, &a, &b, shift)?;
                    let (mut vk, mut kt, mut sh) = (st.vk.clone(), k.t, shift.unwrap_or(1));
                    let cn = 2 + com.t.len();
                    let total = cn + 6 + prf_slots(&p);
                    let mut names = String::new();
                    for i in choose_slots(total, muts) {
                        let d = 1 + choose(deltas) as u64;
                        let (x, nm) = if i < cn {
                            (com_slot(&mut com, i), "commitment".to_string())
                        } else {
                            match i - cn {
                                0 => (&mut vk.g, "g".into()),
                                1 => (&mut vk.h, "h".into()),
                                2 => (&mut vk.g_beta, "g_beta".into()),
                                3 => (&mut vk.h_alpha, "h_alpha".into()),
                                4 => (&mut kt, "result key".into()),
                                5 => (&mut sh, "shift".into()),
                                j => {
                                    let nm = prf_slot_name(&p, j - 6);
                                    (prf_slot(&mut p, j - 6), nm)
                                }
                            }
                        };
                        *x = (*x + d) % r;
                        names += &format!("{nm} +{d}; ");
                    }
                    note(|| names);
                    if sh == 0 {
                        return excluded();
                    }
                    observe_u64s(&[&[vk.g, vk.h, vk.g_beta, vk.h_alpha, kt, sh, com.a, com.b], &com.t[..]].concat());
                    obs_prf(&p);
                    let shift = if sh == 1 && shift.is_none() { None } else { Some(sh) };
                    sound(s, &vk, kt, &com, &p, shift)
                },
            );
        }
    };
    tamper(c, t7::ALL, 1, 6, 1, 6, 2);
    tamper(c, t7::ALL, 2, 4, 1, 6, 2);
    tamper(c, t5::ALL, 4, 3, 1, 4, 2);
    tamper(c, t5::ALL, 8, 2, 1, 2, 1);
    tamper(c, t5::ALL, 2, 2, 2, 4, if th { 3 } else { 1 });
    if th {
        tamper(c, t5::ALL, 1, 4, 3, 4, 2);
        tamper(c, t5::ALL, 4, 2, 2, 2, 2);
        tamper(c, t5::ALL, 16, 2, 1, 1, 1);
    }
    // proofs of other sizes, repeated/dropped/swapped rounds
    for s in t5::ALL {
        let s: Sy = *s;
        let r = s.r();
        c.scenario(
            Scenario {
                name: leak(format!("{}-shapes", s.name())),
                bounds: "honest proofs of length 2..8 with rounds dropped, repeated, swapped, halves exchanged, zero rounds inserted, identity outputs lengthened or emptied, and final keys/openings recomputed for the key polynomial of the transformed transcript or not",
                dev: 0,
                oracle: cfg_values(r, &[1, r - 1, 2]),
                require: &["rejected"],
            },
            move || {
                let n = 1 << (1 + choose(3));
                let st = strings(s, n, 2, 3, 2, false)?;
                let a = basis(n, r, n + choose(2));
                let b = basis(n, r, n + 2);
                let (mut com, mut p, _) = honest(s, &st, &a, &b, None)?;
                let q = p.steps.len();
                match choose(6) {
                    0 => drop(p.steps.remove(choose(q))),
                    1 => {
                        let c0 = || Com { a: 0, b: 0, t: s.tcom(0, 0) };
                        p.steps.insert(choose(q + 1), (c0(), c0()));
                    }
                    2 => {
                        let i = choose(q);
                        let x = p.steps[i].clone();
                        p.steps.insert(i, x);
                    }
                    3 => {
                        if q < 2 {
                            return excluded();
                        }
                        let i = choose(q - 1);
                        p.steps.swap(i, i + 1);
                    }
                    4 => {
                        let i = choose(q);
                        let (l, rr) = p.steps[i].clone();
                        p.steps[i] = (rr, l);
                    }
                    _ => {
                        if s.compact() {
                            return excluded();
                        }
                        let i = choose(1 + 2 * q);
                        let t = match i {
                            0 => &mut com.t,
                            i if i % 2 == 1 => &mut p.steps[(i - 1) / 2].0.t,
                            i => &mut p.steps[(i - 1) / 2].1.t,
                        };
                        match choose(3) {
                            0 => t.clear(),
                            1 => t.push(choose(r as usize) as u64),
                            _ => t.insert(0, choose(r as usize) as u64),
                        }
                    }
                }
                observe_u64s(&[com.a, com.b]);
                obs_prf(&p);
                sound(s, &st.vk, st.k.t, &com, &p, None)
            },
        );
    }
}

/// Power vectors and setups over BLS12-381. The setups draw their own secrets, so consecutive
/// powers are recognized through the pairing.
fn c10_wide(c: &mut Checker) {
    use ark_ip_proofs::applications::{groth16_aggregation::setup_inner_product, poly_commit as pc};
    use ark_ip_proofs::tipa::{structured_generators_scalar_power, structured_scalar_message::structured_scalar_power, SRS};
    use ark_ec::{pairing::Pairing, Group};
    use mc::wide::{powers, wide, Of, E, G1, G2, GT};
    let th = c.thorough;
    let counts: Vec<usize> = if th { (1..=70).chain(around(&[128, 256, 512, 1024])).collect() } else { (1..=34).chain([63, 64, 65]).collect() };
    let cr = &counts;
    c.scenario(
        Scenario {
            name: "power-helpers-bls12-381",
            bounds: leak(format!("BLS12-381: {} counts up to {}, scalars 0, 1, -1, at limb boundaries, dense, small and close to the order; bases the generator, the identity and a dense one", counts.len(), counts.last().unwrap())),
            dev: 0,
            oracle: OracleCfg::None,
            require: &["checked"],
        },
        move || {
            let num = choose_in(cr);
            let s = [wide(0), wide(1), wide(2), wide(3), wide(4), wide(5), wide(6), wide(7), wide(91), wide(92), wide(1) + wide(1), -wide(3)][choose(12)];
            let g = [wide(1), wide(0), wide(93)][choose(3)];
            observe(&mc::wide::ser(&(s, g, num as u64)));
            let p = powers(s, num);
            if structured_scalar_power(num, &s) != p {
                return Err(format!("structured_scalar_power({num}, {s}) wrong"));
            }
            let want: Vec<_> = p.iter().map(|p| *p * g).collect();
            if structured_generators_scalar_power(num, &G1::of(g), &s) != G1::vec(&want) || num < 20 && structured_generators_scalar_power(num, &G2::of(g), &s) != G2::vec(&want) {
                return Err(format!("structured_generators_scalar_power({num}, {g}, {s}) wrong"));
            }
            tally("checked");
            Ok(())
        },
    );
    c.scenario(
        Scenario {
            name: "power-helpers-bls12-381-every-bit-length",
            bounds: "BLS12-381: 3 powers of 2^i, 2^i-1, 2^i+1 and their negatives for every i below 255 (so scalars of every bit length up to 255), both groups",
            dev: 0,
            oracle: OracleCfg::None,
            require: &["checked"],
        },
        move || {
            let s = mc::wide::bit(choose(mc::wide::BITS));
            observe(&mc::wide::ser(&s));
            let p = powers(s, 3);
            let (g, h) = (wide(93), wide(94));
            let on = |g: mc::wide::Fr| p.iter().map(|p| *p * g).collect::<Vec<_>>();
            if structured_scalar_power(3, &s) != p {
                return Err(format!("structured_scalar_power(3, {s}) wrong"));
            }
            if structured_generators_scalar_power(3, &G1::of(g), &s) != G1::vec(&on(g)) || structured_generators_scalar_power(3, &G2::of(h), &s) != G2::vec(&on(h)) {
                return Err(format!("structured_generators_scalar_power(3, _, {s}) wrong"));
            }
            tally("checked");
            Ok(())
        },
    );
    type T = ark_ip_proofs::tipa::TIPA<
        ark_inner_products::PairingInnerProduct<E>,
        ark_dh_commitments::afgho16::AFGHOCommitmentG1<E>,
        ark_dh_commitments::afgho16::AFGHOCommitmentG2<E>,
        ark_dh_commitments::identity::IdentityCommitment<GT, mc::wide::Fr>,
        E,
        CD,
    >;
    let sizes: &'static [usize] = if th { &[1, 2, 3, 4, 5, 8, 16, 33, 64] } else { &[1, 2, 3, 4, 8, 17] };
    c.scenario(
        Scenario {
            name: "setup-bls12-381",
            bounds: leak(format!("BLS12-381: TIPA, aggregation, KZG and bivariate setups for sizes {sizes:?}, 6 random streams: consecutive powers of the two secrets of the verifier key (checked by pairings), even powers as keys")),
            dev: 0,
            oracle: OracleCfg::None,
            require: &["checked"],
        },
        move || {
            let n = choose_in(sizes);
            let mut rng = mc::rng::Seq::new(choose(6) as u64);
            let kind = choose(4);
            observe_u64s(&[n as u64, kind as u64]);
            let e = |e: Box<dyn std::error::Error>| e.to_string();
            let (h, g) = (G2::generator(), G1::generator());
            // consecutive powers of the secret behind (g_beta | h_alpha)
            let in1 = |v: &[G1], ha: &G2| v[0] == g && v.windows(2).all(|w| E::pairing(w[1], h) == E::pairing(w[0], *ha));
            let in2 = |v: &[G2], gb: &G1| v[0] == h && v.windows(2).all(|w| E::pairing(g, w[1]) == E::pairing(*gb, w[0]));
            let full = |s: &SRS<E>, n1: usize, n2: usize, n_keys: usize| {
                let v = s.get_verifier_key();
                let (ka, kb) = s.get_commitment_keys();
                let even = |i: usize| 2 * i;
                v.g == g
                    && v.h == h
                    && v.g_beta == s.g_beta
                    && v.h_alpha == s.h_alpha
                    && s.g_alpha_powers.len() == n1
                    && s.h_beta_powers.len() == n2
                    && in1(&s.g_alpha_powers, &s.h_alpha)
                    && in2(&s.h_beta_powers, &s.g_beta)
                    && ka.len() == n_keys
                    && (0..n_keys).all(|i| ka[i] == s.h_beta_powers[even(i)])
                    && kb.len() == (n1 + 1) / 2
                    && (0..kb.len()).all(|i| kb[i] == s.g_alpha_powers[even(i)])
            };
            let ok = match kind {
                0 => full(&T::setup(&mut rng, n).map_err(e)?.0, 2 * n - 1, 2 * n - 1, n),
                1 => full(&setup_inner_product::<E, CD, _>(&mut rng, n).map_err(e)?, 2 * n - 1, 2 * n - 1, n),
                2 => {
                    let (p, v) = pc::KZG::<E>::setup(&mut rng, n - 1).map_err(e)?;
                    let p: Vec<G1> = p.iter().map(|x| G1::from(*x)).collect();
                    v.g == g && v.h == h && p.len() == n && in1(&p, &v.h_alpha) && v.g_beta != G1::of(wide(0))
                }
                _ => {
                    let (s, p) = pc::BivariatePolynomialCommitment::<E, CD>::setup(&mut rng, n - 1, n).map_err(e)?;
                    let p: Vec<G1> = p.iter().map(|x| G1::from(*x)).collect();
                    p.len() == n + 1 && in1(&p, &s.h_alpha) && full(&s, s.g_alpha_powers.len(), 2 * n - 1, n)
                }
            };
            if !ok {
                return Err(format!("setup {} of size {n} over BLS12-381 is not well formed", ["TIPA", "aggregation", "KZG", "bivariate"][kind]));
            }
            tally("checked");
            Ok(())
        },
    );
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut c = Checker::new(&a[1], &a[2]);
    c.assumptions.push("group, field and pairing arithmetic of the backend is correct; replaced by transparent groups over small prime fields (scenarios named bls12-381: the real curve)".into());
    c.assumptions.push("the hash is a random oracle: every answer of the enumerated alphabet is explored; equal queries get equal answers".into());
    match a[1].as_str() {
        "C10" => {
            c10(&mut c);
            c10_wide(&mut c)
        }
        "C11" => {
            c11(&mut c);
            long(&mut c, 11);
            let top = if c.thorough { 6 } else { 3 };
            mc::wide::complete::<tw::TipaPairing>(&mut c, top);
            mc::wide::complete::<tw::TipaMultiexp>(&mut c, top);
            mc::wide::complete::<tw::TipaScalarCompact>(&mut c, top);
        }
        "C12" => {
            c12(&mut c);
            long(&mut c, 12);
            let sizes: &[usize] = if c.thorough { &[1, 2, 4, 8, 16] } else { &[1, 2, 4] };
            mc::wide::sound::<tw::TipaPairing>(&mut c, sizes);
            mc::wide::sound::<tw::TipaMultiexp>(&mut c, sizes);
            mc::wide::sound::<tw::TipaScalarCompact>(&mut c, sizes);
        }
        x => {
            eprintln!("unknown property {x}");
            std::process::exit(2);
        }
    }
    c.finish()
}
