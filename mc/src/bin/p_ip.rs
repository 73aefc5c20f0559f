//! C01 inner products, C02 commitments.
use ark_dh_commitments::{
    afgho16::{AFGHOCommitmentG1, AFGHOCommitmentG2},
    identity::{IdentityCommitment, IdentityOutput},
    pedersen::PedersenCommitment,
    DoublyHomomorphicCommitment,
};
use ark_inner_products::{
    cfg_multi_pairing, InnerProduct, MultiexponentiationInnerProduct, PairingInnerProduct, ScalarInnerProduct,
};
use ark_ec::pairing::PairingOutput;
use mc::{explore::*, gens::*, oracle::OracleCfg, world::*};

fn dot(a: &[u64], b: &[u64], r: u64) -> u64 {
    a.iter().zip(b).fold(0, |s, (x, y)| (s + mulm(*x, *y, r)) % r)
}
fn dot3(a: &[u64], b: &[u64], c: &[u64], r: u64) -> u64 {
    a.iter().zip(b).zip(c).fold(0, |s, ((x, y), z)| (s + mulm(mulm(*x, *y, r), *z, r)) % r)
}
fn v1<W: World>(v: &[u64]) -> Vec<W::G1> {
    v.iter().map(|x| W::g1(*x)).collect()
}
fn v2<W: World>(v: &[u64]) -> Vec<W::G2> {
    v.iter().map(|x| W::g2(*x)).collect()
}
fn vf<W: World>(v: &[u64]) -> Vec<W::ScalarField> {
    v.iter().map(|x| W::f(*x)).collect()
}
fn af1<W: World>(v: &[u64]) -> Vec<W::G1Affine> {
    v.iter().map(|x| W::a1(*x)).collect()
}
fn af2<W: World>(v: &[u64]) -> Vec<W::G2Affine> {
    v.iter().map(|x| W::a2(*x)).collect()
}

fn all_products<W: World>(a: &[u64], b: &[u64], r: &[u64], what: &str) -> Outcome {
    let e = dot(a, b, W::R);
    let want = W::gtv(e);
    let got = PairingInnerProduct::<W>::inner_product(&v1::<W>(a), &v2::<W>(b)).map_err(|e| e.to_string())?;
    if got != want {
        return Err(format!("pairing inner product of {a:?} and {b:?} is wrong ({what})"));
    }
    let got = cfg_multi_pairing::<W>(&v1::<W>(a), &v2::<W>(b)).ok_or("cfg_multi_pairing: none")?;
    if got != want {
        return Err(format!("cfg_multi_pairing of {a:?} and {b:?} is wrong ({what})"));
    }
    let got = MultiexponentiationInnerProduct::<W::G1>::inner_product(&v1::<W>(a), &vf::<W>(b)).map_err(|e| e.to_string())?;
    if W::d1(&got) != e {
        return Err(format!("multiexponentiation of {a:?} and {b:?} is wrong ({what})"));
    }
    let got = MultiexponentiationInnerProduct::<W::G2>::inner_product(&v2::<W>(a), &vf::<W>(b)).map_err(|e| e.to_string())?;
    if W::d2(&got) != e {
        return Err(format!("multiexponentiation (G2) of {a:?} and {b:?} is wrong ({what})"));
    }
    let got = ScalarInnerProduct::<W::ScalarField>::inner_product(&vf::<W>(a), &vf::<W>(b)).map_err(|e| e.to_string())?;
    if W::fu(&got) != e {
        return Err(format!("scalar inner product of {a:?} and {b:?} is wrong ({what})"));
    }
    let got = ark_sipp::product_of_pairings::<W>(&af1::<W>(a), &af2::<W>(b));
    if got != want {
        return Err(format!("product_of_pairings of {a:?} and {b:?} is wrong ({what})"));
    }
    let got = ark_sipp::product_of_pairings_with_coeffs::<W>(&af1::<W>(a), &af2::<W>(b), &vf::<W>(r));
    if got != W::gtv(dot3(a, b, r, W::R)) {
        return Err(format!("product_of_pairings_with_coeffs of {a:?}, {b:?}, {r:?} is wrong ({what})"));
    }
    Ok(())
}

/// Two lengths: all pairs below `small`, or neighbours of larger powers of two.
fn choose_mismatch(small: usize) -> (usize, usize) {
    let i = choose(small * small + 16);
    if i < small * small {
        return (i / small, i % small);
    }
    let i = i - small * small;
    let n = 16usize << (i / 4);
    [(n, n - 1), (n - 1, n), (n, n / 2), (n, 2 * n)][i % 4]
}
/// zero / all `x` / `x` up to `cut` and zero beyond
fn tail(n: usize, cut: usize, kind: usize, x: u64) -> Vec<u64> {
    (0..n).map(|i| if kind == 0 || (kind == 2 && i >= cut) { 0 } else { x }).collect()
}
fn short(e: String) -> String {
    if e.len() > 600 { format!("{} ... {}", &e[..300], &e[e.len() - 200..]) } else { e }
}

fn c01(c: &mut Checker) {
    let th = c.thorough;
    let pools: &[usize] = if th { &[1, 2, 3, 4, 5, 7, 8, 16, 64] } else { &[1, 2, 3, 4, 5, 8] };
    let full = |c: &mut Checker, name: &'static str, bounds: &'static str, n: usize, r: u64, f: fn(&[u64], &[u64], &[u64], &str) -> Outcome| {
        c.scenario(
            Scenario { name, bounds, dev: 0, oracle: OracleCfg::None, require: &["checked"] },
            move || {
                let len = choose(n + 1);
                let t = choose_in(pools);
                rayon_core::mc::set_threads(t);
                let a = choose_vec(len, r);
                let b = choose_vec(len, r);
                let coeffs: Vec<u64> = (0..len).map(|i| (i as u64 * 2 + 2) % r).collect();
                observe_u64s(&a);
                observe_u64s(&b);
                f(&a, &b, &coeffs, &format!("{t} workers"))?;
                tally("checked");
                validated();
                Ok(())
            },
        );
    };
    full(c, "all-vectors-F3", "every pair of vectors over F_3, lengths 0..=3 (thorough 4), every pool size in the list", if th { 4 } else { 3 }, 3, all_products::<W3>);
    full(c, "all-vectors-F5", "every pair of vectors over F_5, lengths 0..=2 (thorough 3), every pool size in the list", if th { 3 } else { 2 }, 5, all_products::<W5>);
    // coefficients of the SIPP helper, all values
    c.scenario(
        Scenario { name: "coefficients-F3", bounds: "every (a, b, r) triple over F_3, lengths 0..=2 (thorough 3); r may be longer than a", dev: 0, oracle: OracleCfg::None, require: &["checked"] },
        move || {
            let len = choose(if th { 4 } else { 3 });
            let t = choose_in(&[1usize, 2, 3, 4]);
            rayon_core::mc::set_threads(t);
            let a = choose_vec(len, 3);
            let b = choose_vec(len, 3);
            let r = choose_vec(len, 3);
            let got = ark_sipp::product_of_pairings_with_coeffs::<W3>(&af1::<W3>(&a), &af2::<W3>(&b), &vf::<W3>(&r));
            observe_u64s(&[a.clone(), b.clone(), r.clone()].concat());
            if got != W3::gtv(dot3(&a, &b, &r, 3)) {
                return Err(format!("product_of_pairings_with_coeffs({a:?}, {b:?}, {r:?}) wrong with {t} workers"));
            }
            tally("checked");
            validated();
            Ok(())
        },
    );
    // bilinear basis: every length x pool size x pair of unit vectors
    let (nb, tb) = if th { (24, 24) } else { (13, 12) };
    c.scenario(
        Scenario { name: "basis-F13", bounds: "all pairs of unit vectors (e_i, e_j), every length 1..=13 (24), every pool size 1..=12 (24)", dev: 0, oracle: OracleCfg::None, require: &["checked"] },
        move || {
            let n = 1 + choose(nb);
            let t = 1 + choose(tb);
            rayon_core::mc::set_threads(t);
            let i = choose(n);
            let j = choose(n + 1); // n = dense right vector
            let mut a = vec![0; n];
            a[i] = 5;
            let b: Vec<u64> = if j == n { (0..n).map(|k| (3 * k as u64 + 1) % 13).collect() } else { (0..n).map(|k| if k == j { 3 } else { 0 }).collect() };
            let r: Vec<u64> = (0..n).map(|k| (k as u64 % 12) + 1).collect();
            observe_u64s(&[n as u64, t as u64, i as u64, j as u64]);
            all_products::<W13>(&a, &b, &r, &format!("{t} workers"))?;
            tally("checked");
            validated();
            Ok(())
        },
    );
    // dense vectors in a 61-bit world: every term has a distinct weight
    let (nd, td) = if th { (140, 40) } else { (66, 20) };
    c.scenario(
        Scenario { name: "dense-61bit", bounds: "vectors whose terms all have distinct weights, every length 0..=66 (140), every pool size 1..=20 (40) and {32,64,128}", dev: 0, oracle: OracleCfg::None, require: &["checked"] },
        move || {
            let n = choose(nd + 1);
            let t = choose(td + 3);
            let t = if t < td { t + 1 } else { [32, 64, 128][t - td] };
            rayon_core::mc::set_threads(t);
            let r = WBig::R;
            let g = |s: u64, i: u64| mulm(powm(1_000_003 + s, i + 2, r), 0x1234_5678_9abc + s, r);
            let a: Vec<u64> = (0..n as u64).map(|i| g(1, i)).collect();
            let b: Vec<u64> = (0..n as u64).map(|i| g(2, i)).collect();
            let k: Vec<u64> = (0..n as u64).map(|i| g(3, i)).collect();
            observe_u64s(&[n as u64, t as u64]);
            all_products::<WBig>(&a, &b, &k, &format!("{t} workers, length {n}"))?;
            tally("checked");
            validated();
            Ok(())
        },
    );
    // long vectors: every length around the powers of two
    let ladder = mc::gens::around(if th { &[128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536] } else { &[128, 256, 512, 1024, 2048, 4096] });
    let lp: &[usize] = if th { &[1, 2, 3, 7, 8, 16, 64] } else { &[1, 3, 8] };
    c.scenario(
        Scenario { name: "long-61bit", bounds: leak(format!("lengths {ladder:?}, pools {lp:?}; one vector dense, the other each of {PATTERNS} patterns (dense, constant, half-empty, periodic, single odd entry at a boundary); patterns up to length 513 only, dense beyond")), dev: 0, oracle: OracleCfg::None, require: &["checked"] },
        move || {
            let n = choose_in(&ladder);
            let t = choose_in(lp);
            rayon_core::mc::set_threads(t);
            let (i, j) = if n <= 513 { choose_patterns2() } else { (0, 0) };
            let (a, b, k) = (pattern(1, n, i), pattern(2, n, j), bigv(3, n));
            observe_u64s(&[n as u64, t as u64, i as u64, j as u64]);
            all_products::<WBig>(&a, &b, &k, &format!("{t} workers, length {n}, patterns {i}/{j}")).map_err(short)?;
            tally("checked");
            validated();
            Ok(())
        },
    );
    let (lens, pools): (&[usize], &[usize]) = if th { (&[2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 129], &[1, 3, 8]) } else { (&[2, 3, 4, 5, 8, 9, 16, 17, 32, 33, 65], &[3]) };
    c.scenario(
        Scenario { name: "pattern-pairs", bounds: leak(format!("61-bit field, lengths {lens:?}, pools {pools:?}: both vectors each of {PATTERNS} patterns, every pair of patterns, and every vector with itself")), dev: 0, oracle: OracleCfg::None, require: &["checked"] },
        move || {
            let n = choose_in(lens);
            rayon_core::mc::set_threads(choose_in(pools));
            let (a, b, what) = choose_pattern_pair((1, 2), n);
            observe_u64s(&a);
            observe_u64s(&b);
            all_products::<WBig>(&a, &b, &bigv(3, n), &format!("length {n}, {what}")).map_err(short)?;
            tally("checked");
            validated();
            Ok(())
        },
    );
    c.scenario(
        Scenario { name: "length-mismatch", bounds: "all pairs of different lengths 0..=9 and around 16..128; each vector zero, constant, or non-zero up to the shorter length and zero beyond", dev: 0, oracle: OracleCfg::None, require: &["refused"] },
        move || {
            let (n, m) = choose_mismatch(10);
            if n == m {
                return excluded();
            }
            let (za, zb) = (choose(3), choose(3));
            let t = choose_in(&[1usize, 2, 3, 4, 9]);
            rayon_core::mc::set_threads(t);
            let a = tail(n, n.min(m), za, 1);
            let b = tail(m, n.min(m), zb, 1);
            let bad = |s: &str| Err(format!("{s} of lengths {n} and {m} is not refused with an error"));
            let g = |x: Result<bool, String>| matches!(x, Ok(true));
            if !g(guard(|| PairingInnerProduct::<W5>::inner_product(&v1::<W5>(&a), &v2::<W5>(&b)).is_err())) {
                return bad("pairing inner product");
            }
            if !g(guard(|| MultiexponentiationInnerProduct::<mc::world::w5::G1>::inner_product(&v1::<W5>(&a), &vf::<W5>(&b)).is_err())) {
                return bad("multiexponentiation inner product");
            }
            if !g(guard(|| MultiexponentiationInnerProduct::<mc::world::w5::G2>::inner_product(&v2::<W5>(&a), &vf::<W5>(&b)).is_err())) {
                return bad("multiexponentiation inner product (G2)");
            }
            if !g(guard(|| ScalarInnerProduct::<mc::world::w5::Fr>::inner_product(&vf::<W5>(&a), &vf::<W5>(&b)).is_err())) {
                return bad("scalar inner product");
            }
            if g(guard(|| cfg_multi_pairing::<W5>(&v1::<W5>(&a), &v2::<W5>(&b)).is_some())) {
                return Err(format!("cfg_multi_pairing of lengths {n} and {m} returns a value ({t} workers)"));
            }
            tally("refused");
            Ok(())
        },
    );
}

// ------------------------------------------------------------------ C02

type Ped1<W> = PedersenCommitment<<W as ark_ec::pairing::Pairing>::G1>;
type Ped2<W> = PedersenCommitment<<W as ark_ec::pairing::Pairing>::G2>;

trait Scheme {
    const NAME: &'static str;
    const R: u64;
    /// commit(k, m) as a discrete log, through the library; None = error
    fn commit(k: &[u64], m: &[u64]) -> Option<u64>;
    fn verify(k: &[u64], m: &[u64], com: u64) -> Option<bool>;
    /// homomorphism in the library's own types
    fn law(k: &[u64], k2: &[u64], m: &[u64], m2: &[u64], s: u64) -> Outcome;
    fn setup_len(n: usize) -> Option<usize>;
}

macro_rules! scheme {
    ($name:ident, $w:ty, $c:ty, $kf:expr, $mf:expr, $of:expr, $od:expr) => {
        struct $name;
        impl Scheme for $name {
            const NAME: &'static str = stringify!($name);
            const R: u64 = <$w as World>::R;
            fn commit(k: &[u64], m: &[u64]) -> Option<u64> {
                let k: Vec<_> = k.iter().map(|x| $kf(*x)).collect();
                let m: Vec<_> = m.iter().map(|x| $mf(*x)).collect();
                <$c as DoublyHomomorphicCommitment>::commit(&k, &m).ok().map(|o| $od(&o))
            }
            fn verify(k: &[u64], m: &[u64], com: u64) -> Option<bool> {
                let k: Vec<_> = k.iter().map(|x| $kf(*x)).collect();
                let m: Vec<_> = m.iter().map(|x| $mf(*x)).collect();
                <$c as DoublyHomomorphicCommitment>::verify(&k, &m, &$of(com)).ok()
            }
            fn law(k: &[u64], k2: &[u64], m: &[u64], m2: &[u64], s: u64) -> Outcome {
                type C = $c;
                let f = <$w as World>::f;
                let kk: Vec<_> = k.iter().map(|x| $kf(*x)).collect();
                let kk2: Vec<_> = k2.iter().map(|x| $kf(*x)).collect();
                let mm: Vec<_> = m.iter().map(|x| $mf(*x)).collect();
                let mm2: Vec<_> = m2.iter().map(|x| $mf(*x)).collect();
                let com = |a: &[_], b: &[_]| C::commit(a, b).map_err(|e| e.to_string());
                let base = com(&kk, &mm)?;
                let msum: Vec<_> = mm.iter().zip(&mm2).map(|(a, b)| *a + *b).collect();
                if com(&kk, &msum)? != base.clone() + com(&kk, &mm2)? {
                    return Err(format!("{}: not additive in the message ({k:?}, {m:?}, {m2:?})", Self::NAME));
                }
                let ksum: Vec<_> = kk.iter().zip(&kk2).map(|(a, b)| *a + *b).collect();
                if com(&ksum, &mm)? != base.clone() + com(&kk2, &mm)? {
                    return Err(format!("{}: not additive in the key ({k:?}, {k2:?}, {m:?})", Self::NAME));
                }
                let mut scaled = base.clone();
                scaled *= f(s);
                let ms: Vec<_> = mm.iter().map(|a| { let mut x = *a; x *= f(s); x }).collect();
                let ks: Vec<_> = kk.iter().map(|a| { let mut x = *a; x *= f(s); x }).collect();
                if com(&kk, &ms)? != scaled || com(&ks, &mm)? != scaled {
                    return Err(format!("{}: scaling by {s} fails ({k:?}, {m:?})", Self::NAME));
                }
                if com(&kk, &mm)? != base {
                    return Err(format!("{}: commit is not deterministic", Self::NAME));
                }
                Ok(())
            }
            fn setup_len(n: usize) -> Option<usize> {
                let mut rng = mc::rng::Seq::new(7);
                <$c as DoublyHomomorphicCommitment>::setup(&mut rng, n).ok().map(|k| k.len())
            }
        }
    };
}
scheme!(Pedersen1F3, W3, Ped1<W3>, W3::g1, W3::f, W3::g1, W3::d1);
scheme!(Pedersen2F3, W3, Ped2<W3>, W3::g2, W3::f, W3::g2, W3::d2);
scheme!(Afgho1F3, W3, AFGHOCommitmentG1<W3>, W3::g2, W3::g1, W3::gtv, |o: &PairingOutput<W3>| W3::dt(o).unwrap());
scheme!(Afgho2F3, W3, AFGHOCommitmentG2<W3>, W3::g1, W3::g2, W3::gtv, |o: &PairingOutput<W3>| W3::dt(o).unwrap());
scheme!(Pedersen1F7, W7, Ped1<W7>, W7::g1, W7::f, W7::g1, W7::d1);
scheme!(Pedersen2F7, W7, Ped2<W7>, W7::g2, W7::f, W7::g2, W7::d2);
scheme!(Afgho1F7, W7, AFGHOCommitmentG1<W7>, W7::g2, W7::g1, W7::gtv, |o: &PairingOutput<W7>| W7::dt(o).unwrap());
scheme!(Afgho2F7, W7, AFGHOCommitmentG2<W7>, W7::g1, W7::g2, W7::gtv, |o: &PairingOutput<W7>| W7::dt(o).unwrap());

thread_local!(static WANT: std::cell::Cell<u64> = const { std::cell::Cell::new(0) });
/// No discrete logs in the 61-bit target group: the expected exponent if it fits, u64::MAX if not.
fn against_want(o: &PairingOutput<WBig>) -> u64 {
    let w = WANT.get();
    if *o == WBig::gtv(w) { w } else { u64::MAX }
}
scheme!(Pedersen1Big, WBig, Ped1<WBig>, WBig::g1, WBig::f, WBig::g1, WBig::d1);
scheme!(Pedersen2Big, WBig, Ped2<WBig>, WBig::g2, WBig::f, WBig::g2, WBig::d2);
scheme!(Afgho1Big, WBig, AFGHOCommitmentG1<WBig>, WBig::g2, WBig::g1, WBig::gtv, against_want);
scheme!(Afgho2Big, WBig, AFGHOCommitmentG2<WBig>, WBig::g1, WBig::g2, WBig::gtv, against_want);

fn keyed<S: Scheme>(c: &mut Checker, nmax: usize, law_n: usize) {
    let r = S::R;
    let nm: &'static str = Box::leak(format!("{}-exact", S::NAME).into_boxed_str());
    let bd: &'static str = Box::leak(format!("all keys and messages over F_{r}, lengths 0..={nmax}; all claimed commitments").into_boxed_str());
    c.scenario(
        Scenario { name: nm, bounds: bd, dev: 0, oracle: OracleCfg::None, require: &["opened", "rejected"] },
        move || {
            let n = choose(nmax + 1);
            let k = choose_vec(n, r);
            let m = choose_vec(n, r);
            observe_u64s(&[k.clone(), vec![99], m.clone()].concat());
            let want = dot(&k, &m, r);
            if S::commit(&k, &m) != Some(want) {
                return Err(format!("{}: commit({k:?}, {m:?}) is not the sum of the terms", S::NAME));
            }
            for com in 0..r {
                match (S::verify(&k, &m, com), com == want) {
                    (Some(true), true) => tally("opened"),
                    (Some(false), false) => tally("rejected"),
                    (x, _) => return Err(format!("{}: verify({k:?}, {m:?}, {com}) = {x:?}, true commitment is {want}", S::NAME)),
                }
            }
            validated();
            Ok(())
        },
    );
    let nm: &'static str = Box::leak(format!("{}-laws", S::NAME).into_boxed_str());
    let bd: &'static str = Box::leak(format!("all (k, k', m, m', s) over F_{r}, lengths 0..={law_n}").into_boxed_str());
    c.scenario(
        Scenario { name: nm, bounds: bd, dev: 0, oracle: OracleCfg::None, require: &["law"] },
        move || {
            let n = choose(law_n + 1);
            let k = choose_vec(n, r);
            let m = choose_vec(n, r);
            let k2 = choose_vec(n, r);
            let m2 = choose_vec(n, r);
            let s = choose(r as usize) as u64;
            observe_u64s(&[k.clone(), m.clone(), k2.clone(), m2.clone(), vec![s]].concat());
            S::law(&k, &k2, &m, &m2, s)?;
            tally("law");
            Ok(())
        },
    );
    let nm: &'static str = Box::leak(format!("{}-shape", S::NAME).into_boxed_str());
    c.scenario(
        Scenario { name: nm, bounds: "all pairs of lengths 0..=6 and around 16..128, keys and messages zero, constant or zero beyond the shorter length, against every claimed commitment; basis vectors up to length 9 with every pool size 1..=10; key counts 0..=9", dev: 0, oracle: OracleCfg::None, require: &["refused", "basis", "setup"] },
        move || {
            match choose(3) {
                0 => {
                    let (n, m) = choose_mismatch(7);
                    if n == m {
                        return excluded();
                    }
                    let k = tail(n, n.min(m), choose(3), 1);
                    let msg = tail(m, n.min(m), choose(3), 1);
                    if S::commit(&k, &msg).is_some() {
                        return Err(format!("{}: {n} keys with {m} messages accepted by commit", S::NAME));
                    }
                    if S::verify(&k, &msg, choose(r as usize) as u64).is_some() {
                        return Err(format!("{}: {n} keys with {m} messages accepted by verify", S::NAME));
                    }
                    tally("refused");
                }
                1 => {
                    let n = 1 + choose(9);
                    let t = 1 + choose(10);
                    rayon_core::mc::set_threads(t);
                    let i = choose(n);
                    let j = choose(n);
                    let mut k = vec![0; n];
                    let mut m = vec![0; n];
                    k[i] = 2;
                    m[j] = 1;
                    let want = if i == j { 2 } else { 0 };
                    if S::commit(&k, &m) != Some(want) {
                        return Err(format!("{}: commit(2 e_{i}, e_{j}) of length {n} with {t} workers is not {want}", S::NAME));
                    }
                    let dense: Vec<u64> = (0..n as u64).map(|x| x % r).collect();
                    if S::commit(&k, &dense) != Some(2 * (i as u64 % r) % r) {
                        return Err(format!("{}: commit(2 e_{i}, dense) of length {n} with {t} workers is wrong", S::NAME));
                    }
                    validated();
                    tally("basis");
                }
                _ => {
                    let n = choose(10);
                    if S::setup_len(n) != Some(n) {
                        return Err(format!("{}: setup({n}) returns {:?} keys", S::NAME, S::setup_len(n)));
                    }
                    tally("setup");
                }
            }
            Ok(())
        },
    );
}

/// Long vectors in the 61-bit world.
fn long<S: Scheme>(c: &mut Checker, th: bool) {
    let r = S::R;
    let ladder = around(if th { &[16, 32, 64, 128, 256, 512, 1024, 2048, 4096] } else { &[16, 32, 64, 128, 256, 512] });
    c.scenario(
        Scenario {
            name: leak(format!("{}-long", S::NAME)),
            bounds: leak(format!("lengths {ladder:?}, pools 1,3,8; one of key and message dense, the other each of {PATTERNS} patterns; true commitment, off by one, zero; all laws; key counts")),
            dev: 0,
            oracle: OracleCfg::None,
            require: &["checked"],
        },
        move || {
            let n = choose_in(&ladder);
            rayon_core::mc::set_threads(choose_in(&[1usize, 3, 8]));
            let (i, j) = if n <= 129 { choose_patterns2() } else { (0, 0) };
            let (k, m) = (pattern(1, n, i), pattern(2, n, j));
            observe_u64s(&[n as u64, i as u64, j as u64]);
            let want = dot(&k, &m, r);
            WANT.set(want);
            let id = format!("{}: length {n}, key pattern {i}, message pattern {j}", S::NAME);
            if S::commit(&k, &m) != Some(want) {
                return Err(format!("{id}: commit is not the sum of the terms"));
            }
            for (com, ok) in [(want, true), ((want + 1) % r, false), (0, want == 0), ((r - want) % r, want == 0)] {
                if S::verify(&k, &m, com) != Some(ok) {
                    return Err(format!("{id}: verify against commitment {com} is not {ok} (true commitment {want})"));
                }
            }
            S::law(&k, &bigv(3, n), &m, &bigv(4, n), 12345).map_err(short)?;
            if S::setup_len(n) != Some(n) {
                return Err(format!("{id}: setup returns {:?} keys", S::setup_len(n)));
            }
            validated();
            tally("checked");
            Ok(())
        },
    );
    let lens: &[usize] = if th { &[1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 32, 33, 64, 65] } else { &[2, 3, 4, 5, 8, 9, 16, 17, 32, 33, 65] };
    c.scenario(
        Scenario {
            name: leak(format!("{}-pattern-pairs", S::NAME)),
            bounds: leak(format!("lengths {lens:?}: key and message each of {PATTERNS} patterns, every pair, and equal ones; true commitment, and off by one")),
            dev: 0,
            oracle: OracleCfg::None,
            require: &["checked"],
        },
        move || {
            let n = choose_in(lens);
            rayon_core::mc::set_threads(3);
            let (k, m, what) = choose_pattern_pair((1, 2), n);
            observe_u64s(&k);
            observe_u64s(&m);
            let want = dot(&k, &m, r);
            WANT.set(want);
            if S::commit(&k, &m) != Some(want) {
                return Err(format!("{}: length {n}, {what}: commit is not the sum of the terms", S::NAME));
            }
            for (com, ok) in [(want, true), ((want + 1) % r, false)] {
                if S::verify(&k, &m, com) != Some(ok) {
                    return Err(format!("{}: length {n}, {what}: verify against {com} is not {ok} (true commitment {want})", S::NAME));
                }
            }
            validated();
            tally("checked");
            Ok(())
        },
    );
}

fn identity(c: &mut Checker) {
    type F = mc::world::w3::Fr;
    type IdF = IdentityCommitment<F, F>;
    type IdG = IdentityCommitment<mc::world::w3::G1, F>;
    type IdT = IdentityCommitment<PairingOutput<W3>, F>;
    macro_rules! go {
        ($c:ty, $t:ty, $name:expr, $of:expr, $to:expr) => {
            c.scenario(
                Scenario { name: $name, bounds: "all pairs of vectors over F_3 of lengths 0..=3 each (different lengths included), all scalars, all keys counts 0..=2", dev: 0, oracle: OracleCfg::None, require: &["same-length", "padded"] },
                move || {
                    let (n, m) = (choose(4), choose(4));
                    let a = choose_vec(n, 3);
                    let b = choose_vec(m, 3);
                    let s = choose(3) as u64;
                    let nk = choose(3);
                    observe_u64s(&[a.clone(), vec![99], b.clone(), vec![s]].concat());
                    let va: Vec<$t> = a.iter().map(|x| $of(*x)).collect();
                    let vb: Vec<$t> = b.iter().map(|x| $of(*x)).collect();
                    let k = vec![ark_dh_commitments::identity::HomomorphicPlaceholderValue; nk];
                    let ca = <$c as DoublyHomomorphicCommitment>::commit(&k, &va).map_err(|e| e.to_string())?;
                    let cb = <$c as DoublyHomomorphicCommitment>::commit(&k, &vb).map_err(|e| e.to_string())?;
                    let un = |c: &IdentityOutput<$t>| c.0.iter().map(|x| $to(x)).collect::<Vec<u64>>();
                    if un(&ca) != a || un(&cb) != b {
                        return Err(format!("identity commitment of {a:?} or {b:?} is not the vector itself"));
                    }
                    let mut sc = ca.clone();
                    sc *= W3::f(s);
                    if un(&sc) != a.iter().map(|x| x * s % 3).collect::<Vec<_>>() {
                        return Err(format!("identity commitment {a:?} scaled by {s} is {:?}", un(&sc)));
                    }
                    let l = n.max(m);
                    let want: Vec<u64> = (0..l).map(|i| (a.get(i).unwrap_or(&0) + b.get(i).unwrap_or(&0)) % 3).collect();
                    let got = un(&(ca.clone() + cb.clone()));
                    if got != want {
                        return Err(format!("sum of identity commitments {a:?} and {b:?} is {got:?}, not {want:?}"));
                    }
                    let v = <$c as DoublyHomomorphicCommitment>::verify(&k, &va, &cb).map_err(|e| e.to_string())?;
                    if v != (a == b) {
                        return Err(format!("identity commitment: verify({a:?} against {b:?}) = {v}"));
                    }
                    tally(if n == m { "same-length" } else { "padded" });
                    validated();
                    Ok(())
                },
            );
        };
    }
    go!(IdF, F, "identity-F", W3::f, |x: &F| W3::fu(x));
    go!(IdG, mc::world::w3::G1, "identity-G1", W3::g1, |x: &mc::world::w3::G1| W3::d1(x));
    go!(IdT, PairingOutput<W3>, "identity-GT", W3::gtv, |x: &PairingOutput<W3>| W3::dt(x).unwrap());
}

/// The same over BLS12-381: limb-boundary scalars, projective points, identity elements.
mod bls {
    use super::*;
    use ark_dh_commitments::{afgho16::*, pedersen::PedersenCommitment, DoublyHomomorphicCommitment as DHC};
    use ark_ec::CurveGroup;
    use ark_ff::Zero;
    use ark_inner_products::{InnerProduct, MultiexponentiationInnerProduct, PairingInnerProduct, ScalarInnerProduct};
    use mc::wide::*;
    fn vecs() -> (usize, Vec<Fr>, Vec<Fr>) {
        let n = choose_in(&[1usize, 2, 3, 4, 5, 8, 9, 16]);
        let i = choose(2 * WPAT - 1);
        let (pa, pb) = if i < WPAT { (i, 0) } else { (0, i - WPAT + 1) };
        observe_u64s(&[n as u64, i as u64]);
        (n, wvec(1, n, pa), wvec(2, n, pb))
    }
    pub fn products(c: &mut Checker) {
        let pools: &'static [usize] = if c.thorough { &[1, 2, 3, 5, 8, 20] } else { &[1, 3, 8] };
        c.scenario(
            Scenario {
                name: "bls12-381",
                bounds: leak(format!("BLS12-381: lengths 1, 2, 3, 4, 5, 8, 9, 16, either vector in {WPAT} patterns (zeros, units, limb boundaries), coefficients likewise, pools {pools:?}; every one-longer vector refused")),
                dev: 0,
                oracle: OracleCfg::None,
                require: &["checked"],
            },
            move || {
                let (n, a, b) = vecs();
                rayon_core::mc::set_threads(choose_in(pools));
                let r = wvec(9, n, choose_in(&[0usize, 2, 4, 8]));
                let want: Fr = a.iter().zip(&b).map(|(a, b)| *a * b).sum();
                let want3: Fr = a.iter().zip(&b).zip(&r).map(|((a, b), r)| *a * b * r).sum();
                let (g, h) = (G1::vec(&a), G2::vec(&b));
                let (ga, ha) = (G1::normalize_batch(&g), G2::normalize_batch(&h));
                let id = |w: &str| format!("{w} of length {n} over BLS12-381 computed wrongly");
                let e = |e: Box<dyn std::error::Error>| e.to_string();
                if PairingInnerProduct::<E>::inner_product(&g, &h).map_err(e)? != GT::of(want) {
                    return Err(id("pairing product"));
                }
                if MultiexponentiationInnerProduct::<G1>::inner_product(&g, &b).map_err(e)? != G1::of(want) || MultiexponentiationInnerProduct::<G2>::inner_product(&h, &a).map_err(e)? != G2::of(want) {
                    return Err(id("multi-exponentiation"));
                }
                if ScalarInnerProduct::<Fr>::inner_product(&a, &b).map_err(e)? != want {
                    return Err(id("scalar product"));
                }
                if ark_sipp::product_of_pairings::<E>(&ga, &ha) != GT::of(want) || ark_sipp::product_of_pairings_with_coeffs::<E>(&ga, &ha, &r) != GT::of(want3) {
                    return Err(id("SIPP pairing product"));
                }
                let refused = |x: bool| if x { Ok(()) } else { Err(format!("lengths {n} and {} accepted over BLS12-381", n + 1)) };
                refused(PairingInnerProduct::<E>::inner_product(&g, &[&h[..], &[G2::zero()]].concat()).is_err())?;
                refused(MultiexponentiationInnerProduct::<G1>::inner_product(&g, &[&b[..], &[Fr::zero()]].concat()).is_err())?;
                refused(ScalarInnerProduct::<Fr>::inner_product(&[&a[..], &[Fr::zero()]].concat(), &b).is_err())?;
                tally("checked");
                Ok(())
            },
        );
        c.scenario(
            Scenario {
                name: "bls12-381-every-bit-length",
                bounds: "BLS12-381: scalars 2^i, 2^i-1, 2^i+1 and their negatives for every i below 255, alone or as one of 3 or 40 coefficients (the others dense or this scalar too)",
                dev: 0,
                oracle: OracleCfg::None,
                require: &["checked"],
            },
            move || {
                let s = bit(choose(BITS));
                let (n, fill) = choose_in(&[(1usize, false), (3, false), (3, true), (40, false)]);
                let mut b = wvec(2, n, 0);
                if fill {
                    b.fill(s);
                } else {
                    b[n / 2] = s;
                }
                observe(&ser(&b));
                let a = wvec(1, n, 0);
                let want: Fr = a.iter().zip(&b).map(|(a, b)| *a * b).sum();
                let id = |w: &str| format!("{w} of length {n} with scalar {s} over BLS12-381 computed wrongly");
                let e = |e: Box<dyn std::error::Error>| e.to_string();
                if MultiexponentiationInnerProduct::<G1>::inner_product(&G1::vec(&a), &b).map_err(e)? != G1::of(want) {
                    return Err(id("multi-exponentiation"));
                }
                if n < 40 && MultiexponentiationInnerProduct::<G2>::inner_product(&G2::vec(&a), &b).map_err(e)? != G2::of(want) {
                    return Err(id("multi-exponentiation"));
                }
                if ScalarInnerProduct::<Fr>::inner_product(&a, &b).map_err(e)? != want {
                    return Err(id("scalar product"));
                }
                if n == 1 {
                    let (g, h) = (G1::normalize_batch(&G1::vec(&a)), G2::normalize_batch(&[G2::of(Fr::from(1u64))]));
                    if ark_sipp::product_of_pairings_with_coeffs::<E>(&g, &h, &b) != GT::of(want) {
                        return Err(id("SIPP pairing product"));
                    }
                }
                tally("checked");
                Ok(())
            },
        );
    }
    fn scheme<S: DHC<Scalar = Fr>>(c: &mut Checker, name: &'static str)
    where
        S::Key: Of,
        S::Message: Of,
        S::Output: Of + Slots,
    {
        c.scenario(
            Scenario {
                name: leak(format!("{name}-bls12-381")),
                bounds: leak(format!("BLS12-381: lengths 1, 2, 3, 4, 5, 8, 9, 16, keys or messages in {WPAT} patterns; the commitment equals the term-by-term one, opens, and none of {PERTS} other values does; sums and scalings by limb-boundary scalars")),
                dev: 0,
                oracle: OracleCfg::None,
                require: &["opened", "rejected"],
            },
            move || {
                let (n, a, b) = vecs();
                let e = |e: ark_dh_commitments::Error| e.to_string();
                let id = |w: &str| format!("{name}, length {n} over BLS12-381: {w}");
                let (k, m) = (S::Key::vec(&a), S::Message::vec(&b));
                let want: Fr = a.iter().zip(&b).map(|(a, b)| *a * b).sum();
                let com = S::commit(&k, &m).map_err(e)?;
                if com != S::Output::of(want) {
                    return Err(id("wrong commitment"));
                }
                if !S::verify(&k, &m, &com).map_err(e)? {
                    return Err(id("own commitment does not open"));
                }
                tally("opened");
                let how = choose(PERTS);
                let mut bad = com.clone();
                bad.pert(0, how);
                if S::verify(&k, &m, &bad).map_err(e)? != (bad == com) {
                    return Err(id("another commitment opens"));
                }
                let s = wide(how as u64 + 2);
                let (mut m2, mut com2) = (m.clone(), com.clone());
                m2.iter_mut().for_each(|x| *x *= s);
                com2 *= s;
                if S::commit(&k, &m2).map_err(e)? != com2 {
                    return Err(id("not homomorphic in scaled messages"));
                }
                let other = S::Message::vec(&wvec(5, n, how));
                let sum: Vec<_> = m.iter().cloned().zip(other.iter().cloned()).map(|(x, y)| x + y).collect();
                if S::commit(&k, &sum).map_err(e)? != com.clone() + S::commit(&k, &other).map_err(e)? {
                    return Err(id("not homomorphic in messages"));
                }
                let ok = S::Key::vec(&wvec(6, n, how));
                let sum: Vec<_> = k.iter().cloned().zip(ok.iter().cloned()).map(|(x, y)| x + y).collect();
                if S::commit(&sum, &m).map_err(e)? != com + S::commit(&ok, &m).map_err(e)? {
                    return Err(id("not homomorphic in keys"));
                }
                if S::commit(&k, &m[..n - 1]).is_ok() || S::commit(&k[..n - 1], &m).is_ok() {
                    return Err(id("length mismatch accepted"));
                }
                tally("rejected");
                Ok(())
            },
        );
    }
    pub fn schemes(c: &mut Checker) {
        scheme::<PedersenCommitment<G1>>(c, "Pedersen1");
        scheme::<PedersenCommitment<G2>>(c, "Pedersen2");
        scheme::<AFGHOCommitmentG1<E>>(c, "Afgho1");
        scheme::<AFGHOCommitmentG2<E>>(c, "Afgho2");
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut c = Checker::new(&a[1], &a[2]);
    c.assumptions.push("group and field arithmetic of the pairing backend (ark-ec/ark-ff) is correct; replaced here by transparent groups over small prime fields (scenarios named bls12-381: the real curve)".into());
    let th = c.thorough;
    match a[1].as_str() {
        "C01" => {
            c01(&mut c);
            bls::products(&mut c)
        }
        "C02" => {
            keyed::<Pedersen1F3>(&mut c, if th { 5 } else { 4 }, if th { 3 } else { 2 });
            keyed::<Pedersen2F3>(&mut c, if th { 5 } else { 4 }, if th { 3 } else { 2 });
            keyed::<Afgho1F3>(&mut c, if th { 5 } else { 4 }, if th { 3 } else { 2 });
            keyed::<Afgho2F3>(&mut c, if th { 5 } else { 4 }, if th { 3 } else { 2 });
            keyed::<Pedersen1F7>(&mut c, if th { 3 } else { 2 }, 1);
            keyed::<Pedersen2F7>(&mut c, if th { 3 } else { 2 }, 1);
            keyed::<Afgho1F7>(&mut c, if th { 3 } else { 2 }, 1);
            keyed::<Afgho2F7>(&mut c, if th { 3 } else { 2 }, 1);
            long::<Pedersen1Big>(&mut c, th);
            long::<Pedersen2Big>(&mut c, th);
            long::<Afgho1Big>(&mut c, th);
            long::<Afgho2Big>(&mut c, th);
            identity(&mut c);
            bls::schemes(&mut c);
        }
        x => {
            eprintln!("unknown property {x}");
            std::process::exit(2);
        }
    }
    c.finish()
}
