//! A catalogue of library calls over the 61-bit world with the real hash, each a closed function of
//! its (fixed) arguments. Used where one call is compared with itself: under schedules, after other
//! calls, and across builds.
use crate::explore::guard;
use crate::gens::*;
use crate::groth::{GVk, Groth};
use crate::poly::{Pc, PcKey, Refused};
use crate::proto::*;
use crate::refm::*;
use crate::rng::Seq;
use crate::world::*;
use ark_dh_commitments::{
    afgho16::{AFGHOCommitmentG1, AFGHOCommitmentG2},
    identity::IdentityCommitment,
    pedersen::PedersenCommitment,
    DoublyHomomorphicCommitment as Dhc,
};
use ark_ec::pairing::PairingOutput;
use ark_inner_products::{cfg_multi_pairing, InnerProduct, MultiexponentiationInnerProduct, PairingInnerProduct, ScalarInnerProduct};
use ark_ip_proofs::applications::poly_commit::KZG;
use ark_ip_proofs::tipa::structured_generators_scalar_power;
use ark_ip_proofs::tipa::structured_scalar_message::structured_scalar_power;
use ark_poly::{univariate::DensePolynomial, DenseUVPolynomial};
use ark_serialize::CanonicalSerialize;
use ark_sipp::{rng::FiatShamirRng, SIPP};
use ark_std::rand::RngCore;

crate::gipa_world!(g, WBig, wbig);
crate::groth_world!(a, WBig, wbig);
crate::pc_world!(p, WBig, wbig);
use crate::world::wbig::{Fr, G1, G2};
use crate::oracle::CD;

type W = WBig;
const R: u64 = WBig::R;

pub struct Op {
    pub name: String,
    /// Size of the vectors involved.
    pub size: usize,
    pub run: Box<dyn Fn() -> Vec<u8> + Send + Sync>,
}

fn ser<T: CanonicalSerialize>(x: &T) -> Vec<u8> {
    let mut b = vec![];
    x.serialize_uncompressed(&mut b).unwrap();
    b
}
/// Canonical bytes of a call's outcome; the wording of refusals is not part of it.
fn out<T: CanonicalSerialize>(f: impl FnOnce() -> Result<T, String>) -> Vec<u8> {
    match guard(f) {
        Ok(Ok(x)) => [b"ok".to_vec(), ser(&x)].concat(),
        Ok(Err(_)) => b"err".to_vec(),
        Err(_) => b"panic".to_vec(),
    }
}
fn proved(p: &Proved) -> Vec<u8> {
    match p {
        Proved::Ok(b) => [b"ok", &b[..]].concat(),
        Proved::Err(_) => b"err".to_vec(),
        Proved::Panic(_) => b"panic".to_vec(),
    }
}
fn v1(v: &[u64]) -> Vec<G1> {
    v.iter().map(|x| W::g1(*x)).collect()
}
fn v2(v: &[u64]) -> Vec<G2> {
    v.iter().map(|x| W::g2(*x)).collect()
}
fn vf(v: &[u64]) -> Vec<Fr> {
    v.iter().map(|x| W::f(*x)).collect()
}
fn e<E: ToString>(x: E) -> String {
    x.to_string()
}

fn dhc<C: Dhc>(n: usize, seed: u64, k: fn(&[u64]) -> Vec<C::Key>, m: fn(&[u64]) -> Vec<C::Message>) -> Vec<u8> {
    let setup = guard(|| C::setup(&mut Seq::new(seed), n)).map(|r| r.map_err(e).and_then(|k| Ok(ser(&k))));
    let (k, m) = (k(&bigv(seed, n)), m(&bigv(seed + 1, n)));
    let com = out(|| C::commit(&k, &m).map_err(e));
    let ver = out(|| C::verify(&k, &m, &C::commit(&k, &m).map_err(e)?).map_err(e));
    let bad = out(|| C::verify(&k, &m[..n / 2], &C::commit(&k, &m).map_err(e)?).map_err(e));
    [format!("{setup:?}").into_bytes(), com, ver, bad].concat()
}

/// Everything up to vector length `max`.
pub fn ops(max: usize) -> Vec<Op> {
    let mut v: Vec<Op> = vec![];
    let mut add = |name: String, size: usize, run: Box<dyn Fn() -> Vec<u8> + Send + Sync>| {
        if size <= max {
            v.push(Op { name, size, run })
        }
    };
    for n in [0usize, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 33] {
        for seed in 0..2u64 {
            let (x, y) = (bigv(10 + seed, n), bigv(20 + seed, n));
            let (x2, y2) = (x.clone(), y.clone());
            add(
                format!("products n={n} #{seed}"),
                n,
                Box::new(move || {
                    let (a, b, f, h) = (v1(&x), v2(&y), vf(&x), vf(&y));
                    [
                        out(|| PairingInnerProduct::<W>::inner_product(&a, &b).map_err(e)),
                        out(|| cfg_multi_pairing::<W>(&a, &b).ok_or("none".to_string())),
                        out(|| MultiexponentiationInnerProduct::<G1>::inner_product(&a, &f).map_err(e)),
                        out(|| MultiexponentiationInnerProduct::<G2>::inner_product(&b, &f).map_err(e)),
                        out(|| ScalarInnerProduct::<Fr>::inner_product(&f, &h).map_err(e)),
                        out(|| PairingInnerProduct::<W>::inner_product(&a, &b[..n / 2]).map_err(e)),
                        out(|| MultiexponentiationInnerProduct::<G1>::inner_product(&a, &f[..n / 2]).map_err(e)),
                        out(|| ScalarInnerProduct::<Fr>::inner_product(&f[..n / 2], &h).map_err(e)),
                    ]
                    .concat()
                }),
            );
            add(
                format!("pairing-products n={n} #{seed}"),
                n,
                Box::new(move || {
                    let (a, b) = (v1(&x2), v2(&y2));
                    let r = vf(&bigv(30, n));
                    [out(|| Ok(ark_sipp::product_of_pairings::<W>(&a, &b))), out(|| Ok(ark_sipp::product_of_pairings_with_coeffs::<W>(&a, &b, &r)))].concat()
                }),
            );
        }
    }
    for n in [0usize, 1, 3, 4, 8] {
        for seed in [3u64, 4] {
            add(format!("pedersen n={n} #{seed}"), n, Box::new(move || dhc::<PedersenCommitment<G1>>(n, seed, v1, vf)));
            add(format!("afgho-g1 n={n} #{seed}"), n, Box::new(move || dhc::<AFGHOCommitmentG1<W>>(n, seed, v2, v1)));
            add(format!("afgho-g2 n={n} #{seed}"), n, Box::new(move || dhc::<AFGHOCommitmentG2<W>>(n, seed, v1, v2)));
            add(
                format!("identity n={n} #{seed}"),
                n,
                Box::new(move || {
                    let c = |v: &[u64]| IdentityCommitment::<G1, Fr>::commit(&[], &v1(v)).map_err(e);
                    [
                        out(|| c(&bigv(seed, n))),
                        out(|| Ok(c(&bigv(seed, n))? + c(&bigv(seed + 1, n + 1))?)),
                        out(|| {
                            let mut y = c(&bigv(seed, n))?;
                            y *= W::f(seed);
                            Ok(y)
                        }),
                    ]
                    .concat()
                }),
            );
        }
    }
    for n in [1usize, 2, 4, 8, 16] {
        for seed in 0..2u64 {
            add(
                format!("sipp n={n} #{seed}"),
                n,
                Box::new(move || {
                    let (x, y, r) = (bigv(5 + seed, n), bigv(6 + seed, n), bigv(7 + seed, n));
                    let t = dot(&had(&x, &r, R), &y, R);
                    let (a, b, c) = (v1(&x), v2(&y), vf(&r));
                    let Ok(Ok(p)) = guard(|| SIPP::<W, CD>::prove(&a, &b, &c, W::gtv(t))) else { return b"refused".to_vec() };
                    [
                        ser(&p),
                        format!("{:?}", guard(|| SIPP::<W, CD>::verify(&a, &b, &c, W::gtv(t), &p).is_ok_and(|x| x)).is_ok_and(|x| x)).into_bytes(),
                        format!("{:?}", guard(|| SIPP::<W, CD>::verify(&a, &b, &c, W::gtv(addm(t, 1, R)), &p).is_ok_and(|x| x)).is_ok_and(|x| x)).into_bytes(),
                    ]
                    .concat()
                }),
            );
        }
    }
    for seed in 0..3u64 {
        add(
            format!("fiat-shamir #{seed}"),
            1,
            Box::new(move || {
                let mut r = FiatShamirRng::<CD>::from_seed(&seed.to_le_bytes());
                let mut o = vec![];
                for i in 0..4u8 {
                    o.extend(r.next_u64().to_le_bytes());
                    if i % 2 == 0 {
                        r.absorb(&[i; 3]);
                    }
                    let mut b = [0; 21];
                    r.fill_bytes(&mut b);
                    o.extend(b);
                }
                o
            }),
        );
    }
    for n in [1usize, 2, 3, 4, 8, 16] {
        for seed in 0..2u64 {
            for s in g::ALL {
                let s: &'static dyn Gipa = *s;
                add(
                    format!("{} n={n} #{seed}", s.name()),
                    n,
                    Box::new(move || {
                        let k = Key { a: bigv(11 + seed, n), b: bigv(12 + seed, n), t: if s.compact() { 77 + seed } else { 0 } };
                        let (x, y) = (bigv(13 + seed, n), bigv(14 + seed, n));
                        let t = dot(&x, &y, R);
                        let com = s.com(&k, &x, &y, t);
                        let p = s.prove(&x, &y, t, &k, &com);
                        let mut o = proved(&p);
                        o.extend(proved(&s.prove(&x, &y, addm(t, 1, R), &k, &com)));
                        if let Proved::Ok(b) = p {
                            o.extend(s.verify(&k, &com, &b).word().bytes());
                            let mut bad = com.clone();
                            bad.a = addm(bad.a, 1, R);
                            o.extend(s.verify(&k, &bad, &b).word().bytes());
                        }
                        o
                    }),
                );
            }
            for s in a::tipa::ALL {
                let s: &'static dyn Tipa = *s;
                for shift in [None, Some(big(15, seed))] {
                    add(
                        format!("{} n={n} shift={} #{seed}", s.name(), shift.is_some()),
                        n,
                        Box::new(move || {
                            let Ok(Ok((srs, mut k, vk))) = guard(|| s.setup(n, big(16, seed), big(17, seed), 5 + seed)) else { return b"refused".to_vec() };
                            let mut o: Vec<u8> = [&srs.g_alpha[..], &srs.h_beta, &k.a, &k.b].concat().iter().flat_map(|x| x.to_le_bytes()).collect();
                            let (x, y) = (bigv(13 + seed, n), bigv(14 + seed, n));
                            if let Some(sh) = shift {
                                k.a = had(&k.a, &powers(invm(sh, R), n, R), R);
                            }
                            let com = s.com(&k, &x, &y, dot(&x, &y, R));
                            let p = s.prove(&srs, &x, &y, &k, shift);
                            o.extend(proved(&p));
                            if let Proved::Ok(b) = p {
                                o.extend(s.verify(&vk, k.t, &com, &b, shift).word().bytes());
                                o.extend(s.verify(&vk, k.t, &com, &b, Some(3)).word().bytes());
                            }
                            o
                        }),
                    );
                }
            }
            for s in a::ssm::ALL {
                let s: &'static dyn Ssm = *s;
                add(
                    format!("{} n={n} #{seed}", s.name()),
                    n,
                    Box::new(move || {
                        let Ok(Ok((srs, k, vk))) = guard(|| s.setup(n, big(16, seed), big(17, seed), 5 + seed)) else { return b"refused".to_vec() };
                        let (x, c) = (bigv(13 + seed, n), big(18, seed));
                        let y = powers(c, n, R);
                        let com = Com { a: dot(&k.a, &x, R), b: 0, t: s.tcom(k.t, dot(&x, &y, R)) };
                        let p = s.prove(&srs, &x, &y, &k);
                        let mut o = proved(&p);
                        if let Proved::Ok(b) = p {
                            o.extend(s.verify(&vk, &k, &com, c, &b).word().bytes());
                            o.extend(s.verify(&vk, &k, &com, addm(c, 1, R), &b).word().bytes());
                        }
                        o
                    }),
                );
            }
            let s: &'static dyn Groth = &a::Aggregation;
            add(
                format!("aggregate n={n} #{seed}"),
                n,
                Box::new(move || {
                    let Ok(Ok((srs, vk))) = guard(|| s.setup(n, big(16, seed), big(17, seed))) else { return b"refused".to_vec() };
                    let b = |i| big(40 + seed, i);
                    let g = GVk { alpha: b(1), beta: b(2), gamma: b(3), delta: b(4), abc: bigv(50 + seed, 3) };
                    let mut x: Vec<Vec<u64>> = (0..n as u64).map(|i| bigv(60 + seed * 100 + i, 2)).collect();
                    let ps: Vec<_> = x.iter().enumerate().map(|(i, x)| g.complete(big(70 + seed, i as u64), big(80 + seed, i as u64), x, R).unwrap()).collect();
                    let p = s.aggregate(&srs, &ps);
                    let mut o = proved(&p);
                    if let Proved::Ok(b) = p {
                        o.extend(s.verify(&vk, &g, &x, &b).word().bytes());
                        x[0][1] = addm(x[0][1], 1, R);
                        o.extend(s.verify(&vk, &g, &x, &b).word().bytes());
                    }
                    o
                }),
            );
        }
    }
    let pcs: [&'static dyn Pc; 2] = [&p::Trusted, &p::Transparent];
    let words = |k: &PcKey| -> Vec<u8> { [&k.g[..], &k.h].concat().iter().flat_map(|x| x.to_le_bytes()).collect() };
    fn pc_end(o: &mut Vec<u8>, p: Result<Vec<u8>, Refused>, v: impl Fn(&[u8], u64) -> Verdict) {
        match p {
            Ok(b) => {
                o.extend(&b);
                o.extend(v(&b, 0).word().bytes());
                o.extend(v(&b, 1).word().bytes());
            }
            Err(_) => o.extend(b"refused"),
        }
    }
    for s in pcs {
        for d in [0usize, 1, 2, 3, 4, 7, 8, 15, 20] {
            for seed in 0..2u64 {
                add(
                    format!("{} univariate d={d} #{seed}", s.name()),
                    d.min(9),
                    Box::new(move || {
                        let Ok(k) = s.setup_uni(d, &bigv(19 + seed, 80)) else { return b"refused".to_vec() };
                        let mut o = words(&k);
                        let (f, z) = (bigv(21 + seed, d + 1), big(22, seed));
                        let Ok((com, rows)) = s.commit_uni(&k, &f) else { return b"refused".to_vec() };
                        o.extend(&com);
                        pc_end(&mut o, s.open_uni(&k, &f, &rows, z), |b, dv| s.verify_uni(&k, d, &com, z, addm(eval(&f, z, R), dv, R), b));
                        o
                    }),
                );
            }
        }
        for (x, y) in [(0usize, 0usize), (1, 0), (1, 1), (3, 1), (3, 2), (7, 3)] {
            for seed in 0..2u64 {
                add(
                    format!("{} bivariate {x},{y} #{seed}", s.name()),
                    x + 1,
                    Box::new(move || {
                        let Ok(k) = s.setup_bi(x, y, &bigv(19 + seed, 80)) else { return b"refused".to_vec() };
                        let mut o = words(&k);
                        let f: Vec<Vec<u64>> = (0..=x as u64).map(|i| bigv(24 + seed * 50 + i, y + 1)).collect();
                        let z = (big(22, seed), big(23, seed));
                        let Ok((com, rows)) = s.commit_bi(&k, &f) else { return b"refused".to_vec() };
                        o.extend(&com);
                        let ev = s.eval_bi(&f, z);
                        pc_end(&mut o, s.open_bi(&k, &f, &rows, z), |b, dv| s.verify_bi(&k, &com, z, addm(ev, dv, R), b));
                        o
                    }),
                );
            }
        }
    }
    for d in [0usize, 1, 2, 5, 9] {
        for seed in 0..2u64 {
            add(
                format!("kzg d={d} #{seed}"),
                d,
                Box::new(move || {
                    out(|| {
                        let (pw, v) = KZG::<W>::setup(&mut Seq::new(seed), d).map_err(e)?;
                        let f = DensePolynomial::from_coefficients_vec(vf(&bigv(25 + seed, d + 1)));
                        let z = W::f(big(26, seed));
                        let c = KZG::<W>::commit(&pw, &f).map_err(e)?;
                        let o = KZG::<W>::open(&pw, &f, &z).map_err(e)?;
                        let y = W::f(eval(&bigv(25 + seed, d + 1), big(26, seed), R));
                        let a = KZG::<W>::verify(&v, &c, &z, &y, &o).map_err(e)?;
                        let b = KZG::<W>::verify(&v, &c, &z, &z, &o).map_err(e)?;
                        Ok((pw, (c, o), (a, b)))
                    })
                }),
            );
        }
    }
    for n in [0usize, 1, 2, 7, 16] {
        for seed in 0..2u64 {
            add(
                format!("powers n={n} #{seed}"),
                n,
                Box::new(move || {
                    let s = W::f(big(27, seed));
                    [
                        out(|| Ok(structured_scalar_power(n, &s))),
                        out(|| Ok(structured_generators_scalar_power(n, &W::g1(3 + seed), &s))),
                        out(|| Ok(ark_dh_commitments::random_generators::<_, G2>(&mut Seq::new(seed), n))),
                    ]
                    .concat()
                }),
            );
        }
    }
    let _ = PairingOutput::<W>::default;
    v
}

type Call = fn(&[Vec<u64>]) -> Vec<u8>;
/// One function's calls on nearly equal arguments: the given ones, each with one entry of one argument
/// changed, two entries exchanged or one whole argument replaced, and the given ones at other lengths.
fn family(name: &str, n: usize, lens: &[usize], args: impl Fn(usize) -> Vec<Vec<u64>>, run: Call) -> Vec<Op> {
    let mut v: Vec<(String, Vec<Vec<u64>>)> = vec![("base".into(), args(n))];
    for m in lens {
        v.push((format!("length {m}"), args(*m)));
    }
    for i in 0..args(n).len() {
        let a = args(n);
        let k = a[i].len();
        let mut put = |what: &str, f: &dyn Fn(&mut Vec<u64>)| {
            let mut b = a.clone();
            f(&mut b[i]);
            if b != a {
                v.push((format!("argument {i} {what}"), b))
            }
        };
        if k > 0 {
            put("last entry changed", &|x| x[k - 1] = addm(x[k - 1], 1, R));
            put("replaced", &|x| *x = bigv(900 + i as u64, k));
            put("last entry negated", &|x| x[k - 1] = subm(0, x[k - 1], R));
        }
        if k > 1 {
            put("first entry changed", &|x| x[0] = addm(x[0], 1, R));
            put("first entries exchanged", &|x| x.swap(0, 1));
            put("last entry moved", &|x| x.rotate_right(1));
        }
        if k > 2 {
            put("middle entry changed", &|x| x[k / 2] = addm(x[k / 2], 1, R));
        }
    }
    v.into_iter().map(|(what, a)| Op { name: format!("{name} n={n} {what}"), size: n, run: Box::new(move || run(&a)) }).collect()
}
fn pv(s: &'static dyn Gipa, x: &[Vec<u64>]) -> Vec<u8> {
    let n = x[0].len();
    let k = Key { a: x[2].clone(), b: x[3].clone(), t: if s.compact() { x[4][0] } else { 0 } };
    let t = dot(&x[0], &x[1], R);
    let com = s.com(&k, &x[0], &x[1], t);
    let p = s.prove(&x[0], &x[1], t, &k, &com);
    let mut o = proved(&p);
    if let Proved::Ok(b) = p {
        o.extend(s.verify(&k, &com, &b).word().bytes());
        let mut bad = com.clone();
        bad.b = addm(bad.b, n as u64, R);
        o.extend(s.verify(&k, &bad, &b).word().bytes());
    }
    o
}
fn tpv(s: &'static dyn Tipa, x: &[Vec<u64>]) -> Vec<u8> {
    // the shift and the secrets are arguments of length one
    let (sh, al, be) = (x[2][0], x[3][0], x[4][0]);
    let n = x[0].len();
    let Ok(Ok((srs, mut k, vk))) = guard(|| s.setup(n, al, be, 5)) else { return b"refused".to_vec() };
    let mut o: Vec<u8> = [&srs.g_alpha[..], &srs.h_beta, &k.a, &k.b].concat().iter().flat_map(|x| x.to_le_bytes()).collect();
    k.a = had(&k.a, &powers(invm(sh, R), n, R), R);
    let com = s.com(&k, &x[0], &x[1], dot(&x[0], &x[1], R));
    let p = s.prove(&srs, &x[0], &x[1], &k, Some(sh));
    o.extend(proved(&p));
    if let Proved::Ok(b) = p {
        o.extend(s.verify(&vk, k.t, &com, &b, Some(sh)).word().bytes());
        o.extend(s.verify(&vk, k.t, &com, &b, None).word().bytes());
    }
    o
}
fn spv(s: &'static dyn Ssm, x: &[Vec<u64>]) -> Vec<u8> {
    let (c, al, be) = (x[1][0], x[2][0], x[3][0]);
    let n = x[0].len();
    let Ok(Ok((srs, k, vk))) = guard(|| s.setup(n, al, be, 5)) else { return b"refused".to_vec() };
    let y = powers(c, n, R);
    let com = Com { a: dot(&k.a, &x[0], R), b: 0, t: s.tcom(k.t, dot(&x[0], &y, R)) };
    let p = s.prove(&srs, &x[0], &y, &k);
    let mut o = proved(&p);
    if let Proved::Ok(b) = p {
        o.extend(s.verify(&vk, &k, &com, c, &b).word().bytes());
        o.extend(s.verify(&vk, &k, &com, addm(c, 1, R), &b).word().bytes());
    }
    o
}
fn uni(s: &'static dyn Pc, x: &[Vec<u64>]) -> Vec<u8> {
    let (f, z, d) = (&x[0], x[1][0], x[0].len() - 1);
    let Ok(k) = s.setup_uni(d, &x[2]) else { return b"refused".to_vec() };
    let mut o: Vec<u8> = [&k.g[..], &k.h].concat().iter().flat_map(|x| x.to_le_bytes()).collect();
    let Ok((com, rows)) = s.commit_uni(&k, f) else { return b"refused".to_vec() };
    o.extend(&com);
    match s.open_uni(&k, f, &rows, z) {
        Ok(b) => {
            o.extend(&b);
            o.extend(s.verify_uni(&k, d, &com, z, eval(f, z, R), &b).word().bytes());
            o.extend(s.verify_uni(&k, d, &com, z, addm(eval(f, z, R), 1, R), &b).word().bytes());
        }
        Err(_) => o.extend(b"refused"),
    }
    o
}
/// Families of calls on nearly equal arguments with vectors of `n` (a power of two).
pub fn near(n: usize) -> Vec<Vec<Op>> {
    let lens = [n / 2, 2 * n];
    let odd = [n / 2, 2 * n, n - 1, n + 1];
    let two = |m: usize| vec![bigv(1, m), bigv(2, m)];
    let three = |m: usize| vec![bigv(1, m), bigv(2, m), bigv(3, m)];
    let mut v = vec![
        family("pairing product", n, &odd, two, |x| {
            let (a, b) = (v1(&x[0]), v2(&x[1]));
            [out(|| PairingInnerProduct::<W>::inner_product(&a, &b).map_err(e)), out(|| cfg_multi_pairing::<W>(&a, &b).ok_or("none".to_string()))].concat()
        }),
        family("multiexp G1", n, &odd, two, |x| out(|| MultiexponentiationInnerProduct::<G1>::inner_product(&v1(&x[0]), &vf(&x[1])).map_err(e))),
        family("multiexp G2", n, &odd, two, |x| out(|| MultiexponentiationInnerProduct::<G2>::inner_product(&v2(&x[0]), &vf(&x[1])).map_err(e))),
        family("scalar product", n, &odd, two, |x| out(|| ScalarInnerProduct::<Fr>::inner_product(&vf(&x[0]), &vf(&x[1])).map_err(e))),
        family("product_of_pairings", n, &odd, two, |x| out(|| Ok(ark_sipp::product_of_pairings::<W>(&v1(&x[0]), &v2(&x[1]))))),
        family("product_of_pairings_with_coeffs", n, &odd, three, |x| out(|| Ok(ark_sipp::product_of_pairings_with_coeffs::<W>(&v1(&x[0]), &v2(&x[1]), &vf(&x[2]))))),
        family("pedersen", n, &odd, two, |x| out(|| PedersenCommitment::<G1>::commit(&v1(&x[0]), &vf(&x[1])).map_err(e))),
        family("afgho-g1", n, &odd, two, |x| out(|| AFGHOCommitmentG1::<W>::commit(&v2(&x[0]), &v1(&x[1])).map_err(e))),
        family("afgho-g2", n, &odd, two, |x| out(|| AFGHOCommitmentG2::<W>::commit(&v1(&x[0]), &v2(&x[1])).map_err(e))),
        family("identity", n, &odd, two, |x| {
            let c = |v: &[u64]| IdentityCommitment::<G1, Fr>::commit(&[], &v1(v)).map_err(e);
            out(|| Ok(c(&x[0])? + c(&x[1])?))
        }),
        family("pedersen verify", n, &odd, |m| vec![bigv(1, m), bigv(2, m), vec![dot(&bigv(1, m), &bigv(2, m), R)]], |x| {
            out(|| PedersenCommitment::<G1>::verify(&v1(&x[0]), &vf(&x[1]), &W::g1(x[2][0])).map_err(e))
        }),
        family("sipp", n, &lens, |m| [three(m), vec![vec![dot(&had(&bigv(1, m), &bigv(3, m), R), &bigv(2, m), R)]]].concat(), |x| {
            let (a, b, c, t) = (v1(&x[0]), v2(&x[1]), vf(&x[2]), x[3][0]);
            let Ok(Ok(p)) = guard(|| SIPP::<W, CD>::prove(&a, &b, &c, W::gtv(t))) else { return b"refused".to_vec() };
            let v = |t: u64| guard(|| SIPP::<W, CD>::verify(&a, &b, &c, W::gtv(t), &p).is_ok_and(|x| x)).is_ok_and(|x| x);
            [ser(&p), vec![v(t) as u8, v(addm(t, 1, R)) as u8]].concat()
        }),
        family("fiat-shamir", n, &odd, two, |x| {
            let bytes = |v: &[u64]| v.iter().map(|x| *x as u8).collect::<Vec<_>>();
            let mut r = FiatShamirRng::<CD>::from_seed(&bytes(&x[0]));
            let first = r.next_u64();
            r.absorb(&bytes(&x[1]));
            [first.to_le_bytes(), r.next_u64().to_le_bytes()].concat()
        }),
        family("powers", n, &odd, |m| vec![vec![big(5, 1)], vec![big(6, 1)], vec![0; m]], |x| {
            let (g, s, m) = (x[0][0], x[1][0], x[2].len());
            [
                out(|| Ok(structured_scalar_power(m, &W::f(s)))),
                out(|| Ok(structured_generators_scalar_power(m, &W::g1(g), &W::f(s)))),
                out(|| Ok(structured_generators_scalar_power(m, &W::g2(g), &W::f(s)))),
            ]
            .concat()
        }),
        family("generators", n, &odd, |m| vec![vec![7], vec![0; m]], |x| {
            let (s, m) = (x[0][0], x[1].len());
            let mut r = Seq::new(s);
            [
                out(|| Ok(ark_dh_commitments::random_generators::<_, G2>(&mut r, m))),
                out(|| PedersenCommitment::<G1>::setup(&mut Seq::new(s), m).map_err(e)),
                out(|| AFGHOCommitmentG1::<W>::setup(&mut Seq::new(s), m).map_err(e)),
                out(|| AFGHOCommitmentG2::<W>::setup(&mut Seq::new(s), m).map_err(e)),
            ]
            .concat()
        }),
        family("kzg", n, &odd, |m| vec![bigv(25, m), vec![3], vec![big(26, 0)]], |x| {
            out(|| {
                let (pw, v) = KZG::<W>::setup(&mut Seq::new(x[1][0]), x[0].len() - 1).map_err(e)?;
                let f = DensePolynomial::from_coefficients_vec(vf(&x[0]));
                let z = W::f(x[2][0]);
                let c = KZG::<W>::commit(&pw, &f).map_err(e)?;
                let o = KZG::<W>::open(&pw, &f, &z).map_err(e)?;
                let y = W::f(eval(&x[0], x[2][0], R));
                let a = KZG::<W>::verify(&v, &c, &z, &y, &o).map_err(e)?;
                let b = KZG::<W>::verify(&v, &c, &z, &z, &o).map_err(e)?;
                Ok((pw, (c, o), (a, b)))
            })
        }),
        family("trusted univariate", n, &odd, |m| vec![bigv(21, m), vec![big(22, 0)], bigv(23, 2)], |x| uni(&p::Trusted, x)),
        family("transparent univariate", n, &odd, |m| vec![bigv(21, m), vec![big(22, 0)], bigv(23, 8 * m + 80)], |x| uni(&p::Transparent, x)),
        family("aggregate", n.min(16), &[n.min(16) / 2], |m| vec![bigv(31, m), bigv(32, m), bigv(33, 2 * m), bigv(34, 7), vec![big(35, 0)], vec![big(36, 0)]], |x| {
            let s: &'static dyn Groth = &a::Aggregation;
            let n = x[0].len();
            let Ok(Ok((srs, vk))) = guard(|| s.setup(n, x[4][0], x[5][0])) else { return b"refused".to_vec() };
            let k = &x[3];
            let g = GVk { alpha: k[0], beta: k[1], gamma: k[2], delta: k[3], abc: k[4..].to_vec() };
            let mut inputs: Vec<Vec<u64>> = x[2].chunks(2).map(|c| c.to_vec()).collect();
            let ps: Option<Vec<_>> = (0..n).map(|i| g.complete(x[0][i], x[1][i], &inputs[i], R)).collect();
            let Some(ps) = ps else { return b"degenerate".to_vec() };
            let p = s.aggregate(&srs, &ps);
            let mut o = proved(&p);
            if let Proved::Ok(b) = p {
                o.extend(s.verify(&vk, &g, &inputs, &b).word().bytes());
                inputs[n - 1][1] = addm(inputs[n - 1][1], 1, R);
                o.extend(s.verify(&vk, &g, &inputs, &b).word().bytes());
            }
            o
        }),
    ];
    macro_rules! systems {
        ($list:expr, $call:ident, $lens:expr, $args:expr) => {{
            // function pointers cannot capture the system, so its index is an argument as well
            for i in 0..$list.len() {
                let all: Vec<Op> = family($list[i].name(), n, &$lens, |m| [$args(m), vec![vec![i as u64]]].concat(), |x| {
                    let i = x[x.len() - 1][0] as usize;
                    match $list.get(i) {
                        Some(s) => $call(*s, &x[..x.len() - 1]),
                        None => b"no such system".to_vec(),
                    }
                });
                v.push(all);
            }
        }};
    }
    if n <= 4 {
        v.extend(bls_near(n));
    }
    systems!(g::ALL, pv, lens, |m: usize| vec![bigv(13, m), bigv(14, m), bigv(11, m), bigv(12, m), vec![77]]);
    systems!(a::tipa::ALL, tpv, lens, |m: usize| vec![bigv(13, m), bigv(14, m), vec![big(15, 0)], vec![big(16, 0)], vec![big(17, 0)]]);
    systems!(a::ssm::ALL, spv, lens, |m: usize| vec![bigv(13, m), vec![big(18, 0)], vec![big(16, 0)], vec![big(17, 0)]]);
    v
}

type B = ark_bls12_381::Bls12_381;
type BFr = ark_bls12_381::Fr;
type B1 = ark_bls12_381::G1Projective;
type B2 = ark_bls12_381::G2Projective;
/// Code 1000*l + v: the small scalar v, plus 2^(64 l).
fn bf(v: &[u64]) -> Vec<BFr> {
    use ark_ff::Field;
    v.iter().map(|c| BFr::from(c % 1000) + if c / 1000 > 0 { BFr::from(2u64).pow([64 * (c / 1000)]) } else { BFr::from(0u64) }).collect()
}
/// Code 1000*l + v: v times the generator, negated for odd l, and not in affine form for l > 1.
fn bg<G: ark_ec::CurveGroup>(v: &[u64]) -> Vec<G> {
    v.iter()
        .map(|c| {
            let x: G = (G::generator() * G::ScalarField::from(c % 1000)).into_affine().into();
            let x = if c / 1000 % 2 == 1 { -x } else { x };
            if c / 1000 > 1 {
                x + G::generator() - G::generator()
            } else {
                x
            }
        })
        .collect()
}
/// Families of calls over BLS12-381 whose arguments share limbs or coordinates: one entry with one
/// limb changed (scalars), negated or in another representation (group elements), entries exchanged.
fn bls_near(n: usize) -> Vec<Vec<Op>> {
    fn family(name: &str, n: usize, args: &[&[u64]], run: Call) -> Vec<Op> {
        let base: Vec<Vec<u64>> = args.iter().map(|a| a[..n.min(a.len())].to_vec()).collect();
        let mut v = vec![("base".to_string(), base.clone())];
        for i in 0..base.len() {
            let k = base[i].len();
            for e in if k > 1 { vec![0, k - 1] } else { vec![0] } {
                for l in 1..4u64 {
                    let mut b = base.clone();
                    b[i][e] += 1000 * l;
                    v.push((format!("argument {i} entry {e} variant {l}"), b));
                }
            }
            if k > 1 {
                let mut b = base.clone();
                b[i].swap(0, 1);
                v.push((format!("argument {i} entries exchanged"), b));
            }
        }
        v.into_iter().map(|(what, a)| Op { name: format!("bls {name} n={n} {what}"), size: n, run: Box::new(move || run(&a)) }).collect()
    }
    let (x, y) = ([3, 5, 7, 11], [2, 13, 4, 17]);
    vec![
        family("pairing product", n, &[&x, &y], |x| out(|| PairingInnerProduct::<B>::inner_product(&bg(&x[0]), &bg(&x[1])).map_err(e))),
        family("multiexp G1", n, &[&x, &y], |x| out(|| MultiexponentiationInnerProduct::<B1>::inner_product(&bg(&x[0]), &bf(&x[1])).map_err(e))),
        family("multiexp G2", n, &[&x, &y], |x| out(|| MultiexponentiationInnerProduct::<B2>::inner_product(&bg(&x[0]), &bf(&x[1])).map_err(e))),
        family("scalar product", n, &[&x, &y], |x| out(|| ScalarInnerProduct::<BFr>::inner_product(&bf(&x[0]), &bf(&x[1])).map_err(e))),
        family("product_of_pairings_with_coeffs", n, &[&x, &y, &y], |x| {
            use ark_ec::CurveGroup;
            let (a, b) = (B1::normalize_batch(&bg(&x[0])), B2::normalize_batch(&bg(&x[1])));
            out(|| Ok(ark_sipp::product_of_pairings_with_coeffs::<B>(&a, &b, &bf(&x[2]))))
        }),
        family("pedersen", n, &[&x, &y], |x| out(|| PedersenCommitment::<B1>::commit(&bg(&x[0]), &bf(&x[1])).map_err(e))),
        family("powers", n, &[&x[..1], &y[..1]], |x| {
            let s = bf(&x[1])[0];
            [
                out(|| Ok(structured_scalar_power(6, &s))),
                out(|| Ok(structured_generators_scalar_power(6, &bg::<B1>(&x[0])[0], &s))),
                out(|| Ok(structured_generators_scalar_power(6, &bg::<B2>(&x[0])[0], &s))),
            ]
            .concat()
        }),
        family("kzg", n, &[&x, &y[..1]], |x| {
            out(|| {
                let (pw, v) = KZG::<B>::setup(&mut Seq::new(9), x[0].len() - 1).map_err(e)?;
                let f = DensePolynomial::from_coefficients_vec(bf(&x[0]));
                let z = bf(&x[1])[0];
                let c = KZG::<B>::commit(&pw, &f).map_err(e)?;
                let o = KZG::<B>::open(&pw, &f, &z).map_err(e)?;
                let a = KZG::<B>::verify(&v, &c, &z, &z, &o).map_err(e)?;
                Ok((pw, (c, o), a))
            })
        }),
    ]
}
