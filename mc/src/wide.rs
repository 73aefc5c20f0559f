//! The arguments over a real pairing curve (BLS12-381) and its four-limb scalar field: native
//! values, native reference equations, one harness shared by all protocols.
use crate::explore::*;
use crate::gens::leak;
use crate::oracle::*;
use crate::proto::Verdict;
use ark_dh_commitments::{
    identity::{HomomorphicPlaceholderValue as PH, IdentityOutput},
    DoublyHomomorphicCommitment as DHC,
};
use ark_ec::{
    pairing::{Pairing, PairingOutput},
    Group,
};
use ark_ff::{Field, One, PrimeField, Zero};
use ark_inner_products::InnerProduct;
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, Compress, Validate};
use std::ops::{Add, MulAssign};

pub type E = ark_bls12_381::Bls12_381;
pub type Fr = ark_bls12_381::Fr;
pub type G1 = ark_ec::short_weierstrass::Projective<ark_bls12_381::g1::Config>;
pub type G2 = ark_ec::short_weierstrass::Projective<ark_bls12_381::g2::Config>;
pub type GT = PairingOutput<E>;

/// Scalars: 0..8 are the special values (zero, units, limb boundaries), the rest are dense.
pub const SPECIAL: u64 = 8;
pub fn wide(code: u64) -> Fr {
    let two = |e: u64| Fr::from(2u64).pow([e]);
    match code {
        0 => Fr::zero(),
        1 => Fr::one(),
        2 => -Fr::one(),
        3 => two(64),
        4 => two(128) - Fr::one(),
        5 => two(128),
        6 => two(192) + two(64),
        7 => Fr::from(2u64).inverse().unwrap(),
        x => {
            let mut r = crate::rng::Seq::new(x.wrapping_mul(0x1234567));
            let mut b = [0u8; 64];
            ark_std::rand::RngCore::fill_bytes(&mut r, &mut b);
            Fr::from_le_bytes_mod_order(&b)
        }
    }
}
/// Scalars at every bit length: 2^i, 2^i - 1, 2^i + 1 and their negatives, `i` below 255.
pub const BITS: usize = 255 * 6;
pub fn bit(i: usize) -> Fr {
    let x = Fr::from(2u64).pow([(i / 6) as u64]);
    let x = match i % 3 {
        0 => x,
        1 => x - Fr::one(),
        _ => x + Fr::one(),
    };
    if i % 6 < 3 {
        x
    } else {
        -x
    }
}
pub const WPAT: usize = 10;
pub fn wvec(seed: u64, n: usize, pat: usize) -> Vec<Fr> {
    let mut v: Vec<Fr> = (0..n as u64).map(|i| wide(1000 * seed + 100 + i)).collect();
    if n == 0 {
        return v;
    }
    let h = n / 2;
    match pat {
        0 => {}
        1 => v.fill(Fr::zero()),
        2 => (0..n).for_each(|i| v[i] = wide((i as u64 + seed) % SPECIAL)),
        3 => {
            let x = v[0];
            v.fill(x)
        }
        4 => v[0] = Fr::zero(),
        5 => v[n - 1] = Fr::zero(),
        6 => (0..h).for_each(|i| v[h + i] = -v[i]),
        7 => v[..n - 1].fill(Fr::zero()),
        8 => v.fill(Fr::one()),
        _ => (0..n).for_each(|i| v[i] = Fr::from(i as u64)),
    }
    v
}
pub trait Of: Sized {
    fn of(f: Fr) -> Self;
    fn vec(v: &[Fr]) -> Vec<Self> {
        v.iter().map(|x| Self::of(*x)).collect()
    }
}
impl Of for Fr {
    fn of(f: Fr) -> Self {
        f
    }
}
impl Of for G1 {
    fn of(f: Fr) -> Self {
        G1::generator() * f
    }
}
impl Of for G2 {
    fn of(f: Fr) -> Self {
        G2::generator() * f
    }
}
impl Of for GT {
    fn of(f: Fr) -> Self {
        GT::generator() * f
    }
}
impl Of for PH {
    fn of(_: Fr) -> Self {
        PH
    }
}

/// Addressable values inside a statement or proof, and what an adversary puts in their place.
pub trait Slots {
    fn n(&self) -> usize;
    fn pert(&mut self, i: usize, how: usize);
}
/// Negated; + a unit; zeroed; + 2^64 units; + 2^128 units; + 2^192 units.
pub const PERTS: usize = 6;
fn delta(how: usize) -> Fr {
    match how {
        1 => Fr::one(),
        3 => wide(3),
        4 => wide(5),
        _ => wide(6) - wide(3),
    }
}
macro_rules! leaf {
    ($t:ty) => {
        impl Slots for $t {
            fn n(&self) -> usize {
                1
            }
            fn pert(&mut self, _: usize, how: usize) {
                match how {
                    0 => *self = -*self,
                    2 => *self = <$t>::zero(),
                    x => *self += <$t as Of>::of(delta(x)),
                }
            }
        }
    };
}
leaf!(Fr);
leaf!(G1);
leaf!(G2);
leaf!(GT);
impl Slots for PH {
    fn n(&self) -> usize {
        0
    }
    fn pert(&mut self, _: usize, _: usize) {}
}
impl<T: Slots + CanonicalSerialize + CanonicalDeserialize + Clone + Default + Eq> Slots for IdentityOutput<T> {
    fn n(&self) -> usize {
        self.0.n()
    }
    fn pert(&mut self, i: usize, how: usize) {
        self.0.pert(i, how)
    }
}
impl<T: Slots> Slots for Vec<T> {
    fn n(&self) -> usize {
        self.iter().map(|x| x.n()).sum()
    }
    fn pert(&mut self, mut i: usize, how: usize) {
        for x in self.iter_mut() {
            if i < x.n() {
                return x.pert(i, how);
            }
            i -= x.n();
        }
    }
}
impl Slots for () {
    fn n(&self) -> usize {
        0
    }
    fn pert(&mut self, _: usize, _: usize) {}
}
impl<A: Slots, B: Slots> Slots for (A, B) {
    fn n(&self) -> usize {
        self.0.n() + self.1.n()
    }
    fn pert(&mut self, i: usize, how: usize) {
        let k = self.0.n();
        if i < k {
            self.0.pert(i, how)
        } else {
            self.1.pert(i - k, how)
        }
    }
}
impl<A: Slots, B: Slots, C: Slots> Slots for (A, B, C) {
    fn n(&self) -> usize {
        self.0.n() + self.1.n() + self.2.n()
    }
    fn pert(&mut self, i: usize, how: usize) {
        let (k, l) = (self.0.n(), self.0.n() + self.1.n());
        if i < k {
            self.0.pert(i, how)
        } else if i < l {
            self.1.pert(i - k, how)
        } else {
            self.2.pert(i - l, how)
        }
    }
}

pub fn ser<T: CanonicalSerialize>(x: &T) -> Vec<u8> {
    let mut b = vec![];
    x.serialize_uncompressed(&mut b).unwrap();
    b
}
pub fn de<T: CanonicalDeserialize>(b: &[u8]) -> T {
    T::deserialize_uncompressed_unchecked(b).expect("bytes")
}

/// Digests enumerated besides the real ones: unusable, and round challenges at limb boundaries.
pub fn digests() -> Vec<[u8; 32]> {
    let mut unusable = [0u8; 32];
    unusable[16..].fill(0xff);
    let with = |x: u128| {
        let mut b = [0x17u8; 32];
        b[..16].copy_from_slice(&x.to_be_bytes());
        b
    };
    vec![unusable, with(1), with(1 << 64), with(u64::MAX as u128), with(u128::MAX), with(1 << 127)]
}
/// Round hash values h (the folding scalar is 1/h) and key challenge of the call that started at `mark`.
pub fn challenges(ds: &[[u8; 32]], rounds: usize) -> (Vec<Fr>, Option<Fr>) {
    let (mut hs, mut z) = (vec![], None);
    for d in ds {
        if hs.len() < rounds {
            let h = u128::from_be_bytes(d[..16].try_into().unwrap());
            if h != 0 {
                hs.push(Fr::from(h))
            }
        } else if z.is_none() {
            z = Fr::from_random_bytes(d)
        }
    }
    (hs, z)
}

pub trait WSys: Sync + Send + 'static {
    const NAME: &'static str;
    /// Logarithm of the shortest supported length.
    const MIN: usize = 0;
    type Aux;
    /// Public parameters (not hashed).
    type K: Slots + Clone;
    /// Statement.
    type C: Slots + Clone;
    type P: Slots + Clone + CanonicalSerialize + CanonicalDeserialize + PartialEq;
    /// Variants of public scalars (shift, structured scalar).
    fn sels() -> usize {
        1
    }
    fn make(n: usize, pa: usize, pb: usize, sel: usize) -> Result<(Self::Aux, Self::K, Self::C), String>;
    fn prove(aux: &Self::Aux, k: &Self::K, c: &Self::C) -> Result<Vec<u8>, String>;
    fn verify(k: &Self::K, c: &Self::C, p: &Self::P) -> Result<bool, String>;
    fn reference(k: &Self::K, c: &Self::C, p: &Self::P, ds: &[[u8; 32]]) -> bool;
    /// Slots challenges must depend on: (in statement, slot, index of the first query it must reach).
    fn bound(k: &Self::K, c: &Self::C, p: &Self::P) -> Vec<(bool, usize, usize)>;
    /// From an honest statement and proof, others that hold under these digests only.
    fn forge(c: &Self::C, p: &Self::P, _ds: &[[u8; 32]]) -> (Self::C, Self::P) {
        (c.clone(), p.clone())
    }
    /// Is the statement true of the prover's vectors?
    fn truth(_: &Self::Aux, _: &Self::K, _: &Self::C) -> bool {
        true
    }
    /// Library round trip of proof bytes: (bytes written, announced size, bytes consumed).
    fn recode(_b: &[u8], _ci: bool, _va: bool, _co: bool) -> Result<(Vec<u8>, usize, usize), String> {
        Err("not serializable".into())
    }
}
fn verdict<S: WSys>(k: &S::K, c: &S::C, p: &S::P) -> (Verdict, Vec<[u8; 32]>, Vec<Vec<u8>>) {
    let m = mark();
    let v = Verdict::of(guard(|| S::verify(k, c, p)));
    (v, bytes_since(m), queries_since(m))
}
pub fn honest<S: WSys>(n: usize, pa: usize, pb: usize, sel: usize) -> Result<(S::Aux, S::K, S::C, S::P), String> {
    let (aux, k, c) = S::make(n, pa, pb, sel)?;
    let b = guard(|| S::prove(&aux, &k, &c))
        .map_err(|e| format!("prover panicked: {e}"))?
        .map_err(|e| format!("prover returned an error: {e}"))?;
    let p: S::P = de(&b);
    if ser(&p) != b {
        return Err("proof bytes do not have the expected layout".into());
    }
    Ok((aux, k, c, p))
}
pub fn complete<S: WSys>(c: &mut Checker, top: usize) {
    let th = c.thorough;
    c.scenario(
        Scenario {
            name: leak(format!("{}-bls12-381", S::NAME)),
            bounds: leak(format!("BLS12-381: lengths 2^{}..2^{top}, either vector in {WPAT} patterns (zeros, units, limb boundaries), {} public scalar(s); real hash with one digest replaced by an unusable one or one at a limb boundary (length up to 4)", S::MIN, S::sels())),
            dev: 1,
            oracle: OracleCfg::RealOr(digests()),
            require: &["accepted"],
        },
        move || {
            let n = 1usize << (S::MIN + choose(top + 1 - S::MIN));
            let i = choose(2 * WPAT - 1);
            let (pa, pb) = if i < WPAT { (i, 0) } else { (0, i - WPAT + 1) };
            let sel = choose(S::sels());
            if (n > 4 || i > 0 || sel > 0 && !th) && with_ctx(|c| c.oracle.table.is_empty()) {
                no_deviation()
            }
            observe_u64s(&[n as u64, i as u64, sel as u64]);
            let id = || format!("{}: length {n}, patterns {pa}/{pb}, scalar {sel}: ", S::NAME);
            let (_, k, c, p) = honest::<S>(n, pa, pb, sel).map_err(|e| id() + &e)?;
            let (v, ds, _) = verdict::<S>(&k, &c, &p);
            if !v.accepted() {
                return Err(id() + &format!("honest proof not accepted: {v:?}"));
            }
            if S::reference(&k, &c, &p, &ds) {
                validated();
            }
            tally("accepted");
            Ok(())
        },
    );
}
fn no_deviation() {
    with_ctx(|c| c.forbid_deviation())
}
pub fn sound<S: WSys>(c: &mut Checker, sizes: &'static [usize]) {
    let th = c.thorough;
    c.scenario(
        Scenario {
            name: leak(format!("{}-bls12-381-tampered", S::NAME)),
            bounds: leak(format!("BLS12-381: honest proofs of lengths {sizes:?} (dense vectors, special vectors); every single value of parameters, statement and proof changed in {PERTS} ways; accepted only if the equations hold")),
            dev: 0,
            oracle: OracleCfg::Real,
            require: &["rejected"],
        },
        move || {
            let n = choose_in(sizes);
            let pat = choose_in(if th { &[0usize, 2, 6, 1][..] } else { &[0, 2][..] });
            let (_, mut k, mut c, mut p) = honest::<S>(n, pat, pat, 1.min(S::sels() - 1))?;
            let (a, b, d) = (k.n(), c.n(), p.n());
            let i = choose(a + b + d);
            let how = choose(PERTS);
            let what = if i < a {
                k.pert(i, how);
                format!("parameter {i}")
            } else if i < a + b {
                c.pert(i - a, how);
                format!("statement value {}", i - a)
            } else {
                p.pert(i - a - b, how);
                format!("proof value {}", i - a - b)
            };
            observe_u64s(&[n as u64, pat as u64, i as u64, how as u64]);
            let (v, ds, _) = verdict::<S>(&k, &c, &p);
            if v.accepted() {
                if !S::reference(&k, &c, &p, &ds) {
                    return Err(format!("{}: length {n}, pattern {pat}: accepted with {what} changed (kind {how}) although an equation fails", S::NAME));
                }
                tally("accepted");
            } else {
                tally("rejected");
            }
            Ok(())
        },
    );
}
pub fn refuses<S: WSys>(c: &mut Checker, sizes: &'static [usize])
where
    S::Aux: Slots,
{
    c.scenario(
        Scenario {
            name: leak(format!("{}-bls12-381-one-off", S::NAME)),
            bounds: leak(format!("BLS12-381: lengths {sizes:?} (dense and special vectors): every single value of messages, result, keys and commitments changed in {PERTS} ways: proved only if the statement is still true")),
            dev: 0,
            oracle: OracleCfg::Real,
            require: &["refused"],
        },
        move || {
            let n = choose_in(sizes);
            let pat = choose_in(&[0usize, 2]);
            let (mut x, mut k, mut c) = S::make(n, pat, pat, 0)?;
            let (a, b, d) = (x.n(), k.n(), c.n());
            let i = choose(a + b + d);
            let how = choose(PERTS);
            if i < a {
                x.pert(i, how)
            } else if i < a + b {
                k.pert(i - a, how)
            } else {
                c.pert(i - a - b, how)
            }
            observe_u64s(&[n as u64, pat as u64, i as u64, how as u64]);
            let t = S::truth(&x, &k, &c);
            match guard(|| S::prove(&x, &k, &c)) {
                Err(e) => return Err(format!("{}: length {n}: prover panicked on value {i} changed: {e}", S::NAME)),
                Ok(Ok(_)) if !t => return Err(format!("{}: length {n}, pattern {pat}: false statement proved (value {i}, change kind {how})", S::NAME)),
                Ok(Err(e)) if t => return Err(format!("{}: length {n}, pattern {pat}: true statement refused: {e}", S::NAME)),
                Ok(Ok(_)) => tally("proved"),
                Ok(Err(_)) => tally("refused"),
            }
            Ok(())
        },
    );
}
pub fn binding<S: WSys>(c: &mut Checker, sizes: &'static [usize]) {
    let th = c.thorough;
    c.scenario(
        Scenario {
            name: leak(format!("{}-bls12-381-depends", S::NAME)),
            bounds: leak(format!("BLS12-381: lengths {sizes:?}: every value the challenges must bind changed in {PERTS} ways (negation included: same x-coordinate); no later hash input may coincide")),
            dev: 0,
            oracle: OracleCfg::Real,
            require: &["changed"],
        },
        move || {
            let n = choose_in(sizes);
            let pat = choose_in(if th { &[0usize, 2][..] } else { &[0][..] });
            let (_, k, c, p) = honest::<S>(n, pat, pat, 1.min(S::sels() - 1))?;
            let (_, _, q0) = verdict::<S>(&k, &c, &p);
            let b = S::bound(&k, &c, &p);
            let (in_c, slot, first) = b[choose(b.len())];
            let how = choose(PERTS);
            let (mut c1, mut p1) = (c.clone(), p.clone());
            if in_c {
                c1.pert(slot, how)
            } else {
                p1.pert(slot, how)
            }
            observe_u64s(&[n as u64, pat as u64, in_c as u64, slot as u64, how as u64]);
            if ser(&p1) == ser(&p) && !in_c {
                return excluded();
            }
            let (_, _, q1) = verdict::<S>(&k, &c1, &p1);
            if q1.len() < first + 1 {
                return Err(format!("{}: length {n}: no challenge drawn after {slot} (statement: {in_c})", S::NAME));
            }
            if q1[first..].iter().any(|q| q0.contains(q)) {
                return Err(format!("{}: length {n}: a challenge does not depend on value {slot} of the {} (change kind {how})", S::NAME, if in_c { "statement" } else { "proof" }));
            }
            tally("changed");
            Ok(())
        },
    );
}
/// Seeds whose ChaCha20 streams begin with the same 64-bit word, and seeds whose streams have the same
/// second 64-bit word: the two halves of the first 128-bit integer drawn.
const TWINS: [(u64, u64); 2] = [(13756632589701606640, 8737945695199127888), (14026575388380118211, 6666208610743568570)];
/// The challenges in which two digests differing in one bit give the same value use less of the hash
/// than they should; `expanded`: digests seed a ChaCha generator.
pub fn strength<S: WSys>(sizes: &'static [usize], expanded: bool) -> Outcome {
    let n = choose_in(sizes);
    let verifier = choose(2) == 1;
    let name = S::NAME;
    let (aux, k, c) = S::make(n, 0, 0, 1.min(S::sels() - 1))?;
    let prove = |at: Option<Place>| {
        spot(expanded, at);
        guard(|| S::prove(&aux, &k, &c)).unwrap_or_else(Err)
    };
    let verify = |(c, p): &(S::C, S::P), at: Option<Place>| {
        spot(expanded, at);
        Verdict::of(guard(|| S::verify(&k, c, p))).accepted()
    };
    // A statement and proof that are accepted, but only under these digests
    let tight = |p: &[u8], at: Option<Place>| {
        let p: S::P = de(p);
        let honest = (c.clone(), p);
        if !verify(&honest, at.clone()) {
            return Err(format!("{name}: length {n}: honest proof not accepted"));
        }
        let ds: Vec<[u8; 32]> = answered().into_iter().map(|x| x.1).collect();
        let f = S::forge(&honest.0, &honest.1, &ds);
        // Otherwise challenges are drawn in a way of their own
        Ok(if verify(&f, at) { (f, true) } else { (honest, false) })
    };
    let p = prove(None).map_err(|e| format!("{name}: length {n}: honest prover: {e}"))?;
    let mut sites = answered();
    let (f, forged) = tight(&p, None)?;
    if verifier {
        sites = answered();
    }
    if sites.is_empty() {
        return Err(format!("{name}: length {n}: no challenge is drawn"));
    }
    let i = choose(sites.len());
    let class = choose(4);
    let bits = move || (0..64).map(move |b| 4 * b + class);
    let (q, base) = &sites[i];
    observe_u64s(&[n as u64, verifier as u64, i as u64, class as u64]);
    let at = |d: [u8; 32]| Some((i, q.clone(), d));
    let flip = |bit: usize| {
        let mut d = *base;
        d[bit / 8] ^= 1 << (bit % 8);
        d
    };
    let who = format!("{name}: length {n}: challenge {i} of the {}", if verifier { "verifier" } else { "prover" });
    let mut matter = 0;
    if verifier {
        for bit in bits() {
            if !verify(&f, at(flip(bit))) {
                matter += 1
            }
        }
        if matter < 30 && (matter > 0 || !expanded || forged && i + 1 == sites.len()) {
            return Err(format!("{who} draws on {matter} of 64 bits of the digest only"));
        }
    } else {
        let mut seen = std::collections::HashMap::new();
        for bit in bits() {
            let out = prove(at(flip(bit)));
            if out.as_ref() == Ok(&p) {
                continue;
            }
            matter += 1;
            if let Some(b) = seen.insert(out, bit) {
                return Err(format!("{who} is the same for two digests that differ in bits {b} and {bit}"));
            }
        }
        if matter > 0 && matter < 30 {
            return Err(format!("{who} draws on {matter} of 64 bits of the digest only"));
        }
    }
    if expanded && class == 0 {
        let seed = |x: u64| {
            let mut d = [0u8; 32];
            d[..8].copy_from_slice(&x.to_le_bytes());
            d
        };
        for (half, (x, y)) in TWINS.into_iter().enumerate() {
            let (x, y) = (seed(x), seed(y));
            let (u, w) = (chacha_u128(x), chacha_u128(y));
            assert!(u != w && (u >> (64 * half)) as u64 == (w >> (64 * half)) as u64);
            let px = prove(at(x));
            if verifier {
                let px = px.map_err(|e| format!("{who}: honest prover: {e}"))?;
                if matter > 0 && verify(&tight(&px, at(x))?.0, at(y)) {
                    return Err(format!("{who} draws on one half of 128 bits only"));
                }
            } else if px.as_ref() != Ok(&p) && px == prove(at(y)) {
                return Err(format!("{who} draws on one half of 128 bits only"));
            }
        }
    }
    tally(match matter {
        0 => "no effect",
        _ if verifier => "verifier",
        _ => "prover",
    });
    Ok(())
}
pub fn roundtrip<S: WSys>(c: &mut Checker, sizes: &'static [usize]) {
    c.scenario(
        Scenario {
            name: leak(format!("{}-bls12-381", S::NAME)),
            bounds: leak(format!("BLS12-381: honest and one-value-changed proofs of lengths {sizes:?}, both modes, with and without validation; bytes, size, verdict preserved; every 7th truncation point refused")),
            dev: 0,
            oracle: OracleCfg::Real,
            require: &["preserved", "truncated"],
        },
        move || {
            let n = choose_in(sizes);
            let (_, k, c, mut p) = honest::<S>(n, 0, 0, 1.min(S::sels() - 1))?;
            let i = choose(p.n() + 1);
            if i > 0 {
                p.pert(i - 1, [0usize, 2][choose(2)]);
            }
            let (ci, va) = (choose(2) == 0, choose(2) == 0);
            let mode = |x| if x { Compress::Yes } else { Compress::No };
            let mut b = vec![];
            p.serialize_with_mode(&mut b, mode(ci)).unwrap();
            observe_u64s(&[n as u64, i as u64, ci as u64, va as u64]);
            let (o, size, used) = guard(|| S::recode(&b, ci, va, ci)).map_err(|e| format!("panic: {e}"))?.map_err(|e| format!("{}: refused its own proof: {e}", S::NAME))?;
            if o != b || size != b.len() || used != b.len() {
                return Err(format!("{}: bytes changed ({} written, {size} announced, {used} read, {} expected)", S::NAME, o.len(), b.len()));
            }
            let (u, size, _) = guard(|| S::recode(&b, ci, va, false)).map_err(|e| format!("panic: {e}"))?.map_err(|e| format!("{}: refused: {e}", S::NAME))?;
            if size != u.len() {
                return Err(format!("{}: announced size {size}, {} bytes written", S::NAME, u.len()));
            }
            let q = S::P::deserialize_with_mode(&u[..], Compress::No, Validate::No).map_err(|e| e.to_string())?;
            if q != p {
                return Err(format!("{}: value changed by the round trip", S::NAME));
            }
            if verdict::<S>(&k, &c, &q).0 != verdict::<S>(&k, &c, &p).0 {
                return Err(format!("{}: verdict changed by the round trip", S::NAME));
            }
            tally("preserved");
            if i == 0 {
                for cut in (0..b.len()).step_by(7).chain([b.len() - 1]) {
                    if guard(|| S::recode(&b[..cut], ci, va, ci)).map_err(|e| format!("panic on {cut} bytes: {e}"))?.is_ok() {
                        return Err(format!("{}: {cut} of {} bytes accepted", S::NAME, b.len()));
                    }
                }
                tally("truncated");
            }
            Ok(())
        },
    );
}

// ---- native reference equations ----
fn times<T: Clone + MulAssign<Fr>>(x: &T, c: Fr) -> T {
    let mut y = x.clone();
    y *= c;
    y
}
pub type Steps<LO, RO, IO> = Vec<((LO, RO, IO), (LO, RO, IO))>;
pub fn fold_coms<LO, RO, IO>(com: &(LO, RO, IO), steps: &Steps<LO, RO, IO>, hs: &[Fr]) -> (LO, RO, IO)
where
    LO: Clone + MulAssign<Fr> + Add<Output = LO>,
    RO: Clone + MulAssign<Fr> + Add<Output = RO>,
    IO: Clone + MulAssign<Fr> + Add<Output = IO>,
{
    let mut x = com.clone();
    for ((l, r), h) in steps.iter().rev().zip(hs) {
        let c = h.inverse().unwrap();
        x = (
            times(&l.0, c) + x.0 + times(&r.0, *h),
            times(&l.1, c) + x.1 + times(&r.1, *h),
            times(&l.2, c) + x.2 + times(&r.2, *h),
        );
    }
    x
}
/// low + x * high, once per round.
pub fn fold_vec<T: Clone + MulAssign<Fr> + Add<Output = T>>(v: &[T], xs: &[Fr]) -> T {
    let mut v = v.to_vec();
    for x in xs {
        let h = v.len() / 2;
        v = (0..h).map(|i| v[i].clone() + times(&v[h + i], *x)).collect();
    }
    v[0].clone()
}
pub fn inv(hs: &[Fr]) -> Vec<Fr> {
    hs.iter().map(|h| h.inverse().unwrap()).collect()
}
pub fn powers(x: Fr, n: usize) -> Vec<Fr> {
    let mut p = Fr::one();
    (0..n)
        .map(|_| {
            let y = p;
            p *= x;
            y
        })
        .collect()
}
/// g, h, g_beta, h_alpha
pub type Vk = ((G1, G2), (G1, G2));
pub fn left_key_ok(vk: &Vk, key: &G2, open: &G2, hs: &[Fr], z: Fr, shift: Fr) -> bool {
    let s = shift.inverse().unwrap();
    let f = fold_vec(&powers(z * z * s, 1 << hs.len()), hs);
    let ((g, h), (g_beta, _)) = vk;
    E::pairing(*g, *key - *h * f) == E::pairing(*g_beta - *g * z, *open)
}
pub fn right_key_ok(vk: &Vk, key: &G1, open: &G1, hs: &[Fr], z: Fr) -> bool {
    let f = fold_vec(&powers(z * z, 1 << hs.len()), &inv(hs));
    let ((g, h), (_, h_alpha)) = vk;
    E::pairing(*key - *g * f, *h) == E::pairing(*open, *h_alpha - *h * z)
}
pub fn base_ok<IP, L, R, I>(ka: &L::Key, kb: &R::Key, kt: &I::Key, com: &(L::Output, R::Output, I::Output), base: &(L::Message, R::Message)) -> bool
where
    L: DHC<Scalar = Fr>,
    R: DHC<Scalar = Fr>,
    I: DHC<Scalar = Fr>,
    IP: InnerProduct<LeftMessage = L::Message, RightMessage = R::Message, Output = I::Message>,
{
    let t = IP::inner_product(&[base.0.clone()], &[base.1.clone()]).unwrap();
    L::commit(&[ka.clone()], &[base.0.clone()]).unwrap() == com.0
        && R::commit(&[kb.clone()], &[base.1.clone()]).unwrap() == com.1
        && I::commit(&[kt.clone()], &[t]).unwrap() == com.2
}
/// Sum of one-element commitments.
pub fn commit_naive<L: DHC>(k: &[L::Key], m: &[L::Message]) -> L::Output {
    k.iter()
        .zip(m)
        .map(|(k, m)| L::commit(std::slice::from_ref(k), std::slice::from_ref(m)).unwrap())
        .reduce(|a, b| a + b)
        .unwrap()
}
pub fn recode_as<T: CanonicalSerialize + CanonicalDeserialize>(b: &[u8], ci: bool, va: bool, co: bool) -> Result<(Vec<u8>, usize, usize), String> {
    let m = |c| if c { Compress::Yes } else { Compress::No };
    let mut rest = b;
    let p = T::deserialize_with_mode(&mut rest, m(ci), if va { Validate::Yes } else { Validate::No }).map_err(|e| e.to_string())?;
    let used = b.len() - rest.len();
    let mut o = vec![];
    p.serialize_with_mode(&mut o, m(co)).map_err(|e| e.to_string())?;
    let size = p.serialized_size(m(co));
    Ok((o, size, used))
}
/// Reference string of length n with dense secrets: (powers of alpha in G1, of beta in G2, vk).
pub fn srs(n: usize, seed: u64) -> (Vec<G1>, Vec<G2>, Vk) {
    let (a, b) = (wide(50 + seed), wide(60 + seed));
    (
        G1::vec(&powers(a, 2 * n - 1)),
        G2::vec(&powers(b, 2 * n - 1)),
        ((G1::generator(), G2::generator()), (G1::of(b), G2::of(a))),
    )
}
pub fn lib_srs(s: &(Vec<G1>, Vec<G2>, Vk)) -> ark_ip_proofs::tipa::SRS<E> {
    ark_ip_proofs::tipa::SRS {
        g_alpha_powers: s.0.clone(),
        h_beta_powers: s.1.clone(),
        g_beta: s.2 .1 .0,
        h_alpha: s.2 .1 .1,
    }
}
pub fn lib_vk(v: &Vk) -> ark_ip_proofs::tipa::VerifierSRS<E> {
    ark_ip_proofs::tipa::VerifierSRS {
        g: v.0 .0,
        h: v.0 .1,
        g_beta: v.1 .0,
        h_alpha: v.1 .1,
    }
}
/// Slots of the rounds: (in proof, slot, first query), in the stored (reversed) order.
pub fn bound_rounds<A: Slots>(steps: &[(A, A)]) -> Vec<(bool, usize, usize)> {
    let (mut v, mut i) = (vec![], 0);
    for (j, s) in steps.iter().enumerate() {
        for _ in 0..s.0.n() + s.1.n() {
            v.push((false, i, steps.len() - 1 - j));
            i += 1;
        }
    }
    v
}

/// Shared prelude of the instantiations below.
#[macro_export]
macro_rules! wide_types {
    ($l:ty, $r:ty, $i:ty) => {
        use ark_dh_commitments::DoublyHomomorphicCommitment as DHC;
        #[allow(unused_imports)]
        use $crate::wide::*;
        type LM = <$l as DHC>::Message;
        type RM = <$r as DHC>::Message;
        type LK = <$l as DHC>::Key;
        type RK = <$r as DHC>::Key;
        type TK = <$i as DHC>::Key;
        type LO = <$l as DHC>::Output;
        type RO = <$r as DHC>::Output;
        type IO = <$i as DHC>::Output;
    };
}
#[macro_export]
macro_rules! wide_gipa {
    ($name:ident, $ip:ty, $l:ty, $r:ty, $i:ty) => {
        pub struct $name;
        const _: () = {
            $crate::wide_types!($l, $r, $i);
            use ark_inner_products::InnerProduct;
            type P = ark_ip_proofs::gipa::GIPA<$ip, $l, $r, $i, $crate::oracle::CD>;
            type Proof = ark_ip_proofs::gipa::GIPAProof<$ip, $l, $r, $i, $crate::oracle::CD>;
            impl WSys for $name {
                const NAME: &'static str = stringify!($name);
                type Aux = (Vec<LM>, Vec<RM>, <$i as DHC>::Message);
                type K = (Vec<LK>, Vec<RK>, TK);
                type C = (LO, RO, IO);
                type P = (Steps<LO, RO, IO>, (LM, RM));
                fn make(n: usize, pa: usize, pb: usize, _: usize) -> Result<(Self::Aux, Self::K, Self::C), String> {
                    let (a, b) = (LM::vec(&wvec(1, n, pa)), RM::vec(&wvec(2, n, pb)));
                    let k = (LK::vec(&wvec(3, n, 0)), RK::vec(&wvec(4, n, 0)), TK::of(wide(777)));
                    let t = <$ip>::inner_product(&a, &b).map_err(|e| e.to_string())?;
                    let c = (
                        <$l>::commit(&k.0, &a).map_err(|e| e.to_string())?,
                        <$r>::commit(&k.1, &b).map_err(|e| e.to_string())?,
                        <$i>::commit(&[k.2.clone()], &[t.clone()]).map_err(|e| e.to_string())?,
                    );
                    Ok(((a, b, t), k, c))
                }
                fn prove(x: &Self::Aux, k: &Self::K, c: &Self::C) -> Result<Vec<u8>, String> {
                    P::prove((&x.0, &x.1, &x.2), (&k.0, &k.1, &k.2), (&c.0, &c.1, &c.2)).map(|p| ser(&p)).map_err(|e| e.to_string())
                }
                fn truth(x: &Self::Aux, k: &Self::K, c: &Self::C) -> bool {
                    let t = x.0.iter().zip(&x.1).map(|(a, b)| <$ip>::inner_product(&[a.clone()], &[b.clone()]).unwrap()).reduce(|a, b| a + b).unwrap();
                    t == x.2
                        && commit_naive::<$l>(&k.0, &x.0) == c.0
                        && commit_naive::<$r>(&k.1, &x.1) == c.1
                        && commit_naive::<$i>(&[k.2.clone()], &[t]) == c.2
                }
                fn verify(k: &Self::K, c: &Self::C, p: &Self::P) -> Result<bool, String> {
                    P::verify((&k.0, &k.1, &k.2), (&c.0, &c.1, &c.2), &de::<Proof>(&ser(p))).map_err(|e| e.to_string())
                }
                fn reference(k: &Self::K, c: &Self::C, p: &Self::P, ds: &[[u8; 32]]) -> bool {
                    let (hs, _) = challenges(ds, p.0.len());
                    if 1 << p.0.len() != k.0.len() || hs.len() != p.0.len() {
                        return false;
                    }
                    base_ok::<$ip, $l, $r, $i>(&fold_vec(&k.0, &hs), &fold_vec(&k.1, &inv(&hs)), &k.2, &fold_coms(c, &p.0, &hs), &p.1)
                }
                fn bound(_: &Self::K, c: &Self::C, p: &Self::P) -> Vec<(bool, usize, usize)> {
                    (0..c.n()).map(|i| (true, i, 0)).chain(bound_rounds(&p.0)).collect()
                }
                fn recode(b: &[u8], ci: bool, va: bool, co: bool) -> Result<(Vec<u8>, usize, usize), String> {
                    recode_as::<Proof>(b, ci, va, co)
                }
            }
        };
    };
}
#[macro_export]
macro_rules! wide_gipas {
    ($m:ident) => {
        pub mod $m {
            use ark_dh_commitments::{
                afgho16::{AFGHOCommitmentG1, AFGHOCommitmentG2},
                identity::IdentityCommitment,
                pedersen::PedersenCommitment,
            };
            use ark_inner_products::{MultiexponentiationInnerProduct, PairingInnerProduct, ScalarInnerProduct};
            use $crate::wide::{Fr, E, G1, G2, GT};
            $crate::wide_gipa!(PairingIdentity, PairingInnerProduct<E>, AFGHOCommitmentG1<E>, AFGHOCommitmentG2<E>, IdentityCommitment<GT, Fr>);
            $crate::wide_gipa!(MultiexpIdentity, MultiexponentiationInnerProduct<G1>, AFGHOCommitmentG1<E>, PedersenCommitment<G1>, IdentityCommitment<G1, Fr>);
            $crate::wide_gipa!(ScalarCompact, ScalarInnerProduct<Fr>, PedersenCommitment<G2>, PedersenCommitment<G1>, PedersenCommitment<G1>);
        }
    };
}
#[macro_export]
macro_rules! wide_tipa {
    ($name:ident, $ip:ty, $l:ty, $r:ty, $i:ty) => {
        pub struct $name;
        const _: () = {
            $crate::wide_types!($l, $r, $i);
            use ark_ff::{Field, One};
            use ark_inner_products::InnerProduct;
            type P = ark_ip_proofs::tipa::TIPA<$ip, $l, $r, $i, E, $crate::oracle::CD>;
            type Proof = ark_ip_proofs::tipa::TIPAProof<$ip, $l, $r, $i, E, $crate::oracle::CD>;
            impl WSys for $name {
                const NAME: &'static str = stringify!($name);
                type Aux = (Vec<LM>, Vec<RM>, (Vec<LK>, Vec<RK>), (Vec<G1>, Vec<G2>, Vk));
                /// Verifier key, result key, shift.
                type K = (Vk, TK, Fr);
                type C = (LO, RO, IO);
                type P = ((Steps<LO, RO, IO>, (LM, RM)), (G2, G1), (G2, G1));
                fn sels() -> usize {
                    4
                }
                fn make(n: usize, pa: usize, pb: usize, sel: usize) -> Result<(Self::Aux, Self::K, Self::C), String> {
                    let s = srs(n, 0);
                    let shift = wide([1, 333, 5, 2][sel]);
                    let (ka, kb) = lib_srs(&s).get_commitment_keys();
                    let ka: Vec<LK> = ka.iter().zip(powers(shift.inverse().unwrap(), n)).map(|(k, x)| *k * x).collect();
                    let (a, b) = (LM::vec(&wvec(1, n, pa)), RM::vec(&wvec(2, n, pb)));
                    let kt = TK::of(wide(777));
                    let t = <$ip>::inner_product(&a, &b).map_err(|e| e.to_string())?;
                    let c = (
                        <$l>::commit(&ka, &a).map_err(|e| e.to_string())?,
                        <$r>::commit(&kb, &b).map_err(|e| e.to_string())?,
                        <$i>::commit(&[kt.clone()], &[t]).map_err(|e| e.to_string())?,
                    );
                    let vk = lib_srs(&s).get_verifier_key();
                    Ok(((a, b, (ka, kb), s), (((vk.g, vk.h), (vk.g_beta, vk.h_alpha)), kt, shift), c))
                }
                fn prove(x: &Self::Aux, k: &Self::K, _: &Self::C) -> Result<Vec<u8>, String> {
                    let s = lib_srs(&x.3);
                    let ck: (&[LK], &[RK], &TK) = (&x.2 .0, &x.2 .1, &k.1);
                    if k.2.is_one() {
                        P::prove(&s, (&x.0, &x.1), ck)
                    } else {
                        P::prove_with_srs_shift(&s, (&x.0, &x.1), ck, &k.2)
                    }
                    .map(|p| ser(&p))
                    .map_err(|e| e.to_string())
                }
                fn verify(k: &Self::K, c: &Self::C, p: &Self::P) -> Result<bool, String> {
                    let p = de::<Proof>(&ser(p));
                    let com = (&c.0, &c.1, &c.2);
                    if k.2.is_one() {
                        P::verify(&lib_vk(&k.0), &k.1, com, &p)
                    } else {
                        P::verify_with_srs_shift(&lib_vk(&k.0), &k.1, com, &p, &k.2)
                    }
                    .map_err(|e| e.to_string())
                }
                fn reference(k: &Self::K, c: &Self::C, p: &Self::P, ds: &[[u8; 32]]) -> bool {
                    let (hs, Some(z)) = challenges(ds, p.0 .0.len()) else { return false };
                    hs.len() == p.0 .0.len()
                        && k.2.inverse().is_some()
                        && left_key_ok(&k.0, &p.1 .0, &p.2 .0, &hs, z, k.2)
                        && right_key_ok(&k.0, &p.1 .1, &p.2 .1, &hs, z)
                        && base_ok::<$ip, $l, $r, $i>(&p.1 .0, &p.1 .1, &k.1, &fold_coms(c, &p.0 .0, &hs), &p.0 .1)
                }
                fn bound(_: &Self::K, c: &Self::C, p: &Self::P) -> Vec<(bool, usize, usize)> {
                    let (g, r) = (p.0.n(), p.0 .0.len());
                    (0..c.n()).map(|i| (true, i, 0)).chain(bound_rounds(&p.0 .0)).chain([(false, g, r), (false, g + 1, r)]).collect()
                }
                fn recode(b: &[u8], ci: bool, va: bool, co: bool) -> Result<(Vec<u8>, usize, usize), String> {
                    recode_as::<Proof>(b, ci, va, co)
                }
            }
        };
    };
}
#[macro_export]
macro_rules! wide_tipas {
    ($m:ident) => {
        pub mod $m {
            use ark_dh_commitments::{
                afgho16::{AFGHOCommitmentG1, AFGHOCommitmentG2},
                identity::IdentityCommitment,
                pedersen::PedersenCommitment,
            };
            use ark_inner_products::{MultiexponentiationInnerProduct, PairingInnerProduct, ScalarInnerProduct};
            use $crate::wide::{Fr, E, G1, G2, GT};
            $crate::wide_tipa!(TipaPairing, PairingInnerProduct<E>, AFGHOCommitmentG1<E>, AFGHOCommitmentG2<E>, IdentityCommitment<GT, Fr>);
            $crate::wide_tipa!(TipaMultiexp, MultiexponentiationInnerProduct<G1>, AFGHOCommitmentG1<E>, PedersenCommitment<G1>, IdentityCommitment<G1, Fr>);
            $crate::wide_tipa!(TipaScalarCompact, ScalarInnerProduct<Fr>, PedersenCommitment<G2>, PedersenCommitment<G1>, PedersenCommitment<G1>);
        }
    };
}
/// Structured-scalar arguments; `true`: transparent.
#[macro_export]
macro_rules! wide_ssm {
    (true, $name:ident, $ip:ty, $l:ty, $i:ty) => {
        pub struct $name;
        const _: () = {
            $crate::wide_types!($l, Ssm, $i);
            use ark_inner_products::InnerProduct;
            use ark_ip_proofs::tipa::structured_scalar_message as ssm;
            type Ssm = ssm::SSMPlaceholderCommitment<Fr>;
            type P = ssm::GIPAWithSSM<$ip, $l, $i, $crate::oracle::CD>;
            type Proof = ark_ip_proofs::gipa::GIPAProof<$ip, $l, Ssm, $i, $crate::oracle::CD>;
            #[allow(dead_code)]
            fn unused(_: RK) {}
            impl WSys for $name {
                const NAME: &'static str = stringify!($name);
                type Aux = (Vec<LM>, Vec<RM>);
                type K = (Vec<LK>, TK);
                /// Left commitment, scalar, result commitment.
                type C = (LO, RO, IO);
                type P = (Steps<LO, RO, IO>, (LM, RM));
                fn sels() -> usize {
                    5
                }
                fn make(n: usize, pa: usize, pb: usize, sel: usize) -> Result<(Self::Aux, Self::K, Self::C), String> {
                    let scalar = wide(if pb < 8 { pb as u64 } else { 444 + pb as u64 } * (sel == 0) as u64 + [0, 444, 3, 4, 7][sel]);
                    let (a, b) = (LM::vec(&wvec(1, n, pa)), powers(scalar, n));
                    let k = (LK::vec(&wvec(3, n, 0)), TK::of(wide(777)));
                    let t = <$ip>::inner_product(&a, &b).map_err(|e| e.to_string())?;
                    let c = (
                        <$l>::commit(&k.0, &a).map_err(|e| e.to_string())?,
                        scalar,
                        <$i>::commit(&[k.1.clone()], &[t]).map_err(|e| e.to_string())?,
                    );
                    Ok(((a, b), k, c))
                }
                fn prove(x: &Self::Aux, k: &Self::K, _: &Self::C) -> Result<Vec<u8>, String> {
                    P::prove_with_structured_scalar_message((&x.0, &x.1), (&k.0, &k.1))
                        .map(|p| ser(&p))
                        .map_err(|e| e.to_string())
                }
                fn verify(k: &Self::K, c: &Self::C, p: &Self::P) -> Result<bool, String> {
                    P::verify_with_structured_scalar_message((&k.0, &k.1), (&c.0, &c.2), &c.1, &de::<Proof>(&ser(p))).map_err(|e| e.to_string())
                }
                fn reference(k: &Self::K, c: &Self::C, p: &Self::P, ds: &[[u8; 32]]) -> bool {
                    let (hs, _) = challenges(ds, p.0.len());
                    if 1 << p.0.len() != k.0.len() || hs.len() != p.0.len() {
                        return false;
                    }
                    let fc = fold_coms(c, &p.0, &hs);
                    let b = fold_vec(&powers(c.1, k.0.len()), &hs);
                    let t = <$ip>::inner_product(&[p.1 .0.clone()], &[b]).unwrap();
                    <$l>::commit(&[fold_vec(&k.0, &hs)], &[p.1 .0.clone()]).unwrap() == fc.0 && <$i>::commit(&[k.1.clone()], &[t]).unwrap() == fc.2
                }
                fn bound(_: &Self::K, c: &Self::C, p: &Self::P) -> Vec<(bool, usize, usize)> {
                    (0..c.n()).map(|i| (true, i, 0)).chain(bound_rounds(&p.0)).collect()
                }
                fn recode(b: &[u8], ci: bool, va: bool, co: bool) -> Result<(Vec<u8>, usize, usize), String> {
                    recode_as::<Proof>(b, ci, va, co)
                }
            }
        };
    };
    (false, $name:ident, $ip:ty, $l:ty, $i:ty) => {
        pub struct $name;
        const _: () = {
            $crate::wide_types!($l, Ssm, $i);
            use ark_ff::One;
            use ark_inner_products::InnerProduct;
            use ark_ip_proofs::tipa::structured_scalar_message as ssm;
            type Ssm = ssm::SSMPlaceholderCommitment<Fr>;
            type P = ssm::TIPAWithSSM<$ip, $l, $i, E, $crate::oracle::CD>;
            type Proof = ssm::TIPAWithSSMProof<$ip, $l, $i, E, $crate::oracle::CD>;
            #[allow(dead_code)]
            fn unused(_: RK) {}
            impl WSys for $name {
                const NAME: &'static str = stringify!($name);
                type Aux = (Vec<LM>, Vec<RM>, Vec<LK>, (Vec<G1>, Vec<G2>, Vk));
                type K = (Vk, TK);
                type C = (LO, RO, IO);
                type P = ((Steps<LO, RO, IO>, (LM, RM)), G2, G2);
                fn sels() -> usize {
                    5
                }
                fn make(n: usize, pa: usize, pb: usize, sel: usize) -> Result<(Self::Aux, Self::K, Self::C), String> {
                    let scalar = wide(if pb < 8 { pb as u64 } else { 444 + pb as u64 } * (sel == 0) as u64 + [0, 444, 3, 4, 7][sel]);
                    let s = srs(n, 0);
                    let (ka, _) = lib_srs(&s).get_commitment_keys();
                    let (a, b) = (LM::vec(&wvec(1, n, pa)), powers(scalar, n));
                    let kt = TK::of(wide(777));
                    let t = <$ip>::inner_product(&a, &b).map_err(|e| e.to_string())?;
                    let c = (
                        <$l>::commit(&ka, &a).map_err(|e| e.to_string())?,
                        scalar,
                        <$i>::commit(&[kt.clone()], &[t]).map_err(|e| e.to_string())?,
                    );
                    let vk = s.2;
                    Ok(((a, b, ka, s), (vk, kt), c))
                }
                fn prove(x: &Self::Aux, k: &Self::K, _: &Self::C) -> Result<Vec<u8>, String> {
                    P::prove_with_structured_scalar_message(&lib_srs(&x.3), (&x.0, &x.1), (&x.2, &k.1))
                        .map(|p| ser(&p))
                        .map_err(|e| e.to_string())
                }
                fn verify(k: &Self::K, c: &Self::C, p: &Self::P) -> Result<bool, String> {
                    P::verify_with_structured_scalar_message(&lib_vk(&k.0), &k.1, (&c.0, &c.2), &c.1, &de::<Proof>(&ser(p))).map_err(|e| e.to_string())
                }
                fn reference(k: &Self::K, c: &Self::C, p: &Self::P, ds: &[[u8; 32]]) -> bool {
                    let (hs, Some(z)) = challenges(ds, p.0 .0.len()) else { return false };
                    let fc = fold_coms(c, &p.0 .0, &hs);
                    let b = fold_vec(&powers(c.1, 1 << hs.len()), &hs);
                    let t = <$ip>::inner_product(&[p.0 .1 .0.clone()], &[b]).unwrap();
                    hs.len() == p.0 .0.len()
                        && left_key_ok(&k.0, &p.1, &p.2, &hs, z, Fr::one())
                        && <$l>::commit(&[p.1], &[p.0 .1 .0.clone()]).unwrap() == fc.0
                        && <$i>::commit(&[k.1.clone()], &[t]).unwrap() == fc.2
                }
                fn bound(_: &Self::K, c: &Self::C, p: &Self::P) -> Vec<(bool, usize, usize)> {
                    let (g, r) = (p.0.n(), p.0 .0.len());
                    (0..c.n())
                        .map(|i| (true, i, 0))
                        .chain(bound_rounds(&p.0 .0))
                        .chain([(false, g, r)])
                        .collect()
                }
                fn recode(b: &[u8], ci: bool, va: bool, co: bool) -> Result<(Vec<u8>, usize, usize), String> {
                    recode_as::<Proof>(b, ci, va, co)
                }
            }
        };
    };
}
#[macro_export]
macro_rules! wide_ssms {
    ($m:ident) => {
        pub mod $m {
            use ark_dh_commitments::{afgho16::AFGHOCommitmentG1, identity::IdentityCommitment, pedersen::PedersenCommitment};
            use ark_inner_products::{MultiexponentiationInnerProduct, ScalarInnerProduct};
            use $crate::wide::{Fr, E, G1, G2};
            $crate::wide_ssm!(true, SsmTransparentScalar, ScalarInnerProduct<Fr>, PedersenCommitment<G1>, IdentityCommitment<Fr, Fr>);
            $crate::wide_ssm!(true, SsmTransparentMultiexp, MultiexponentiationInnerProduct<G1>, AFGHOCommitmentG1<E>, IdentityCommitment<G1, Fr>);
            $crate::wide_ssm!(false, SsmLogMultiexp, MultiexponentiationInnerProduct<G1>, AFGHOCommitmentG1<E>, IdentityCommitment<G1, Fr>);
            $crate::wide_ssm!(false, SsmLogScalar, ScalarInnerProduct<Fr>, PedersenCommitment<G2>, PedersenCommitment<G2>);
        }
    };
}

/// SIPP: statement ((a, b), r, value), proof rounds (z_l, z_r).
pub struct Sipp;
type SippC = ((Vec<G1>, Vec<G2>), (Vec<Fr>, GT));
impl Sipp {
    fn aff(c: &SippC) -> (Vec<<E as Pairing>::G1Affine>, Vec<<E as Pairing>::G2Affine>) {
        use ark_ec::CurveGroup;
        (G1::normalize_batch(&c.0 .0), G2::normalize_batch(&c.0 .1))
    }
}
impl WSys for Sipp {
    const NAME: &'static str = "Sipp";
    const MIN: usize = 1;
    type Aux = ();
    type K = ();
    type C = SippC;
    type P = Vec<(GT, GT)>;
    /// Coefficients: dense, all one, with a zero, limb boundaries.
    fn sels() -> usize {
        4
    }
    fn make(n: usize, pa: usize, pb: usize, sel: usize) -> Result<((), (), SippC), String> {
        let (a, b, r) = (wvec(1, n, pa), wvec(2, n, pb), wvec(9, n, [0, 8, 4, 2][sel]));
        let c = ((G1::vec(&a), G2::vec(&b)), (r.clone(), GT::zero()));
        let (x, y) = Sipp::aff(&c);
        let t = ark_sipp::product_of_pairings_with_coeffs::<E>(&x, &y, &r);
        let e: Fr = a.iter().zip(&b).zip(&r).map(|((a, b), r)| *a * b * r).sum();
        if t != GT::of(e) {
            return Err(format!(
                "inner pairing product of length {n} (patterns {pa}/{pb}, coefficients {sel}) computed wrongly"
            ));
        }
        Ok(((), (), (c.0, (r, t))))
    }
    fn prove(_: &(), _: &(), c: &SippC) -> Result<Vec<u8>, String> {
        let (a, b) = Sipp::aff(c);
        ark_sipp::SIPP::<E, CD>::prove(&a, &b, &c.1 .0, c.1 .1)
            .map(|p| ser(&p))
            .map_err(|_| "error".into())
    }
    fn verify(_: &(), c: &SippC, p: &Self::P) -> Result<bool, String> {
        let (a, b) = Sipp::aff(c);
        ark_sipp::SIPP::<E, CD>::verify(&a, &b, &c.1 .0, c.1 .1, &de(&ser(p))).map_err(|_| "error".into())
    }
    fn reference(_: &(), c: &SippC, p: &Self::P, ds: &[[u8; 32]]) -> bool {
        if ds.len() < p.len() {
            return false;
        }
        let xs: Vec<Fr> = ds[ds.len() - p.len()..].iter().map(|d| Fr::from(chacha_u128(*d))).collect();
        let a: Vec<G1> = c.0 .0.iter().zip(&c.1 .0).map(|(a, r)| *a * *r).collect();
        let z = p
            .iter()
            .zip(&xs)
            .fold(c.1 .1, |z, ((l, r), x)| z + times(l, *x) + times(r, x.inverse().unwrap()));
        E::pairing(fold_vec(&a, &xs), fold_vec(&c.0 .1, &inv(&xs))) == z
    }
    fn forge(c: &SippC, p: &Self::P, ds: &[[u8; 32]]) -> (SippC, Self::P) {
        let x = Fr::from(chacha_u128(*ds.last().unwrap()));
        let (mut c, mut p) = (c.clone(), p.clone());
        c.1 .1 += GT::of(Fr::one());
        p.last_mut().unwrap().0 += GT::of(-x.inverse().unwrap());
        (c, p)
    }
    fn bound(_: &(), c: &SippC, p: &Self::P) -> Vec<(bool, usize, usize)> {
        (0..c.n())
            .map(|i| (true, i, 0))
            .chain((0..2 * p.len()).map(|i| (false, i, 1 + i / 2)))
            .collect()
    }
}

impl Slots for usize {
    fn n(&self) -> usize {
        0
    }
    fn pert(&mut self, _: usize, _: usize) {}
}
/// Polynomial commitments. Statement: (commitment, (point, value)).
#[macro_export]
macro_rules! wide_polys {
    ($m:ident) => {
        pub mod $m {
            use ark_dh_commitments::identity::{HomomorphicPlaceholderValue as PH, IdentityOutput};
            use ark_ec::pairing::Pairing;
            use ark_ff::{Field, Zero};
            use ark_ip_proofs::applications::poly_commit::{self as pc, transparent as tpc};
            use ark_ip_proofs::tipa::{VerifierSRS, SRS};
            use ark_poly::{univariate::DensePolynomial, DenseUVPolynomial};
            use $crate::oracle::CD;
            use $crate::wide::*;
            $crate::wide_ssms!(ssm);
            fn uni(p: &[Fr]) -> DensePolynomial<Fr> {
                DensePolynomial::from_coefficients_vec(p.to_vec())
            }
            fn eval(p: &[Fr], z: Fr) -> Fr {
                p.iter().rev().fold(Fr::zero(), |s, c| s * z + c)
            }
            /// Point number pb: special values, then dense ones.
            fn pt(pb: usize) -> Fr {
                wide(if pb > 0 && pb < 9 { pb as u64 - 1 } else { 444 + pb as u64 })
            }
            fn unvk(v: &VerifierSRS<E>) -> Vk {
                ((v.g, v.h), (v.g_beta, v.h_alpha))
            }
            fn err<T>(e: impl ToString) -> Result<T, String> {
                Err(e.to_string())
            }
            fn rows(p: &[Fr], cols: usize) -> Vec<Vec<Fr>> {
                p.chunks(cols).map(|r| r.to_vec()).collect()
            }
            /// Rows and columns of the grid of n cells.
            fn grid(n: usize, sel: usize) -> (usize, usize) {
                let r = match sel {
                    1 => n,
                    2 => 1,
                    _ => 1 << (n.trailing_zeros() / 2),
                };
                (r, n / r)
            }
            fn eval2(p: &[Vec<Fr>], x: Fr, y: Fr) -> Fr {
                let v: Vec<Fr> = p.iter().map(|r| eval(r, y)).collect();
                eval(&v, x)
            }
            /// Fewer and shorter rows in the last variant.
            fn cut(mut p: Vec<Vec<Fr>>, sel: usize) -> Vec<Vec<Fr>> {
                if sel == 3 && p.len() > 1 {
                    p.pop();
                    p[0].pop();
                }
                p
            }
            fn kzg_ok(vk: &Vk, com: &G1, z: Fr, e: Fr, p: &G1) -> bool {
                let ((g, h), (_, ha)) = vk;
                E::pairing(*com - *g * e, *h) == E::pairing(*p, *ha - *h * z)
            }
            fn tier<S: WSys>(k: &S::K, c: &S::C, p: &S::P) -> bool {
                let m = $crate::oracle::mark();
                let _ = S::verify(k, c, p);
                S::reference(k, c, p, &$crate::oracle::bytes_since(m))
            }

            /// Lengths of the key: n, n + 1, 2n.
            pub struct Kzg;
            impl WSys for Kzg {
                const NAME: &'static str = "Kzg";
                type Aux = (Vec<<E as Pairing>::G1Affine>, Vec<Fr>);
                type K = Vk;
                type C = (G1, (Fr, Fr));
                type P = G1;
                fn sels() -> usize {
                    3
                }
                fn make(n: usize, pa: usize, pb: usize, sel: usize) -> Result<(Self::Aux, Self::K, Self::C), String> {
                    let (powers, vk) = pc::KZG::<E>::setup(&mut $crate::rng::Seq::new(n as u64), [n, n + 1, 2 * n][sel] - 1).or_else(err)?;
                    let p = wvec(1, n, pa);
                    let com = pc::KZG::<E>::commit(&powers, &uni(&p)).or_else(err)?;
                    let z = pt(pb);
                    Ok(((powers, p.clone()), unvk(&vk), (com, (z, eval(&p, z)))))
                }
                fn prove(x: &Self::Aux, _: &Self::K, c: &Self::C) -> Result<Vec<u8>, String> {
                    pc::KZG::<E>::open(&x.0, &uni(&x.1), &c.1 .0).map(|p| ser(&p)).or_else(err)
                }
                fn verify(k: &Self::K, c: &Self::C, p: &Self::P) -> Result<bool, String> {
                    pc::KZG::<E>::verify(&lib_vk(k), &c.0, &c.1 .0, &c.1 .1, p).or_else(err)
                }
                fn reference(k: &Self::K, c: &Self::C, p: &Self::P, _: &[[u8; 32]]) -> bool {
                    kzg_ok(k, &c.0, c.1 .0, c.1 .1, p)
                }
                fn bound(_: &Self::K, _: &Self::C, _: &Self::P) -> Vec<(bool, usize, usize)> {
                    vec![]
                }
            }
            type TKey = (SRS<E>, Vec<<E as Pairing>::G1Affine>);
            type TProof = (<ssm::SsmLogMultiexp as WSys>::P, (G1, G1));
            fn trusted_ok(k: &Vk, com: &GT, x: Fr, y: Fr, e: Fr, p: &TProof) -> bool {
                tier::<ssm::SsmLogMultiexp>(&(*k, PH), &(*com, x, IdentityOutput(vec![p.1 .0])), &p.0) && kzg_ok(k, &p.1 .0, y, e, &p.1 .1)
            }
            pub struct TrustedBi;
            impl WSys for TrustedBi {
                const NAME: &'static str = "TrustedBivariate";
                type Aux = (TKey, Vec<Vec<Fr>>, Vec<G1>);
                type K = Vk;
                type C = (GT, ((Fr, Fr), Fr));
                type P = TProof;
                fn sels() -> usize {
                    4
                }
                fn make(n: usize, pa: usize, pb: usize, sel: usize) -> Result<(Self::Aux, Self::K, Self::C), String> {
                    let (r, c) = grid(n, sel);
                    let k = pc::BivariatePolynomialCommitment::<E, CD>::setup(&mut $crate::rng::Seq::new(n as u64), r - 1, c - 1).or_else(err)?;
                    let p = cut(rows(&wvec(1, n, pa), c), sel);
                    let (com, rc) = pc::BivariatePolynomialCommitment::<E, CD>::commit(&k, &bi(&p)).or_else(err)?;
                    let (x, y) = if sel % 2 == 0 { (pt(pb), pt(0)) } else { (pt(0), pt(pb)) };
                    let vk = unvk(&k.0.get_verifier_key());
                    let e = eval2(&p, x, y);
                    Ok(((k, p, rc), vk, (com, ((x, y), e))))
                }
                fn prove(x: &Self::Aux, _: &Self::K, c: &Self::C) -> Result<Vec<u8>, String> {
                    pc::BivariatePolynomialCommitment::<E, CD>::open(&x.0, &bi(&x.1), &x.2, &c.1 .0)
                        .map(|p| ser(&p))
                        .or_else(err)
                }
                fn verify(k: &Self::K, c: &Self::C, p: &Self::P) -> Result<bool, String> {
                    pc::BivariatePolynomialCommitment::<E, CD>::verify(&lib_vk(k), &c.0, &c.1 .0, &c.1 .1, &de(&ser(p))).or_else(err)
                }
                fn reference(k: &Self::K, c: &Self::C, p: &Self::P, _: &[[u8; 32]]) -> bool {
                    trusted_ok(k, &c.0, c.1 .0 .0, c.1 .0 .1, c.1 .1, p)
                }
                fn bound(_: &Self::K, _: &Self::C, _: &Self::P) -> Vec<(bool, usize, usize)> {
                    vec![]
                }
            }
            fn bi(p: &[Vec<Fr>]) -> pc::BivariatePolynomial<Fr> {
                let v: Vec<DensePolynomial<Fr>> = p.iter().map(|r| uni(r)).collect();
                de(&ser(&v))
            }
            /// Degree bounds n - 1, n, 2n - 1; parameters: key, degree bound, number of columns.
            pub struct TrustedUni;
            impl WSys for TrustedUni {
                const NAME: &'static str = "TrustedUnivariate";
                type Aux = (TKey, Vec<Fr>, Vec<G1>);
                type K = (Vk, usize, usize);
                type C = (GT, (Fr, Fr));
                type P = TProof;
                fn sels() -> usize {
                    3
                }
                fn make(n: usize, pa: usize, pb: usize, sel: usize) -> Result<(Self::Aux, Self::K, Self::C), String> {
                    let d = [n - 1, n, 2 * n - 1][sel];
                    let k = pc::UnivariatePolynomialCommitment::<E, CD>::setup(&mut $crate::rng::Seq::new(n as u64), d).or_else(err)?;
                    let p = wvec(1, n, pa);
                    let (com, rc) = pc::UnivariatePolynomialCommitment::<E, CD>::commit(&k, &uni(&p)).or_else(err)?;
                    let z = pt(pb);
                    let vk = unvk(&k.0.get_verifier_key());
                    let cols = k.1.len();
                    let e = eval(&p, z);
                    Ok(((k, p, rc), (vk, d, cols), (com, (z, e))))
                }
                fn prove(x: &Self::Aux, _: &Self::K, c: &Self::C) -> Result<Vec<u8>, String> {
                    pc::UnivariatePolynomialCommitment::<E, CD>::open(&x.0, &uni(&x.1), &x.2, &c.1 .0)
                        .map(|p| ser(&p))
                        .or_else(err)
                }
                fn verify(k: &Self::K, c: &Self::C, p: &Self::P) -> Result<bool, String> {
                    pc::UnivariatePolynomialCommitment::<E, CD>::verify(&lib_vk(&k.0), k.1, &c.0, &c.1 .0, &c.1 .1, &de(&ser(p))).or_else(err)
                }
                fn reference(k: &Self::K, c: &Self::C, p: &Self::P, _: &[[u8; 32]]) -> bool {
                    trusted_ok(&k.0, &c.0, c.1 .0.pow([k.2 as u64]), c.1 .0, c.1 .1, p)
                }
                fn bound(_: &Self::K, _: &Self::C, _: &Self::P) -> Vec<(bool, usize, usize)> {
                    vec![]
                }
            }
            type PKey = (Vec<G1>, Vec<G2>);
            type PProof = (<ssm::SsmTransparentMultiexp as WSys>::P, (G1, <ssm::SsmTransparentScalar as WSys>::P));
            fn transparent_ok(k: &PKey, com: &GT, x: Fr, y: Fr, e: Fr, p: &PProof) -> bool {
                tier::<ssm::SsmTransparentMultiexp>(&(k.1.clone(), PH), &(*com, x, IdentityOutput(vec![p.1 .0])), &p.0)
                    && tier::<ssm::SsmTransparentScalar>(&(k.0.clone(), PH), &(p.1 .0, y, IdentityOutput(vec![e])), &p.1 .1)
            }
            fn tbi(p: &[Vec<Fr>]) -> tpc::BivariatePolynomial<Fr> {
                let v: Vec<DensePolynomial<Fr>> = p.iter().map(|r| uni(r)).collect();
                de(&ser(&v))
            }
            pub struct TransparentBi;
            impl WSys for TransparentBi {
                const NAME: &'static str = "TransparentBivariate";
                type Aux = (Vec<Vec<Fr>>, Vec<G1>);
                type K = PKey;
                type C = (GT, ((Fr, Fr), Fr));
                type P = PProof;
                fn sels() -> usize {
                    4
                }
                fn make(n: usize, pa: usize, pb: usize, sel: usize) -> Result<(Self::Aux, Self::K, Self::C), String> {
                    let (r, c) = grid(n, sel);
                    let k = tpc::BivariatePolynomialCommitment::<E, CD>::setup(&mut $crate::rng::Seq::new(n as u64), r - 1, c - 1).or_else(err)?;
                    let p = cut(rows(&wvec(1, n, pa), c), sel);
                    let (com, rc) = tpc::BivariatePolynomialCommitment::<E, CD>::commit(&k, &tbi(&p)).or_else(err)?;
                    let (x, y) = if sel % 2 == 0 { (pt(pb), pt(0)) } else { (pt(0), pt(pb)) };
                    let e = eval2(&p, x, y);
                    Ok(((p, rc), k, (com, ((x, y), e))))
                }
                fn prove(x: &Self::Aux, k: &Self::K, c: &Self::C) -> Result<Vec<u8>, String> {
                    tpc::BivariatePolynomialCommitment::<E, CD>::open(k, &tbi(&x.0), &x.1, &c.1 .0)
                        .map(|p| ser(&p))
                        .or_else(err)
                }
                fn verify(k: &Self::K, c: &Self::C, p: &Self::P) -> Result<bool, String> {
                    tpc::BivariatePolynomialCommitment::<E, CD>::verify(k, &c.0, &c.1 .0, &c.1 .1, &de(&ser(p))).or_else(err)
                }
                fn reference(k: &Self::K, c: &Self::C, p: &Self::P, _: &[[u8; 32]]) -> bool {
                    transparent_ok(k, &c.0, c.1 .0 .0, c.1 .0 .1, c.1 .1, p)
                }
                fn bound(_: &Self::K, _: &Self::C, _: &Self::P) -> Vec<(bool, usize, usize)> {
                    vec![]
                }
            }
            pub struct TransparentUni;
            impl WSys for TransparentUni {
                const NAME: &'static str = "TransparentUnivariate";
                type Aux = (Vec<Fr>, Vec<G1>);
                type K = PKey;
                type C = (GT, (Fr, Fr));
                type P = PProof;
                fn sels() -> usize {
                    3
                }
                fn make(n: usize, pa: usize, pb: usize, sel: usize) -> Result<(Self::Aux, Self::K, Self::C), String> {
                    let k =
                        tpc::UnivariatePolynomialCommitment::<E, CD>::setup(&mut $crate::rng::Seq::new(n as u64), [n - 1, n, 2 * n - 1][sel]).or_else(err)?;
                    let p = wvec(1, n, pa);
                    let (com, rc) = tpc::UnivariatePolynomialCommitment::<E, CD>::commit(&k, &uni(&p)).or_else(err)?;
                    let z = pt(pb);
                    let e = eval(&p, z);
                    Ok(((p, rc), k, (com, (z, e))))
                }
                fn prove(x: &Self::Aux, k: &Self::K, c: &Self::C) -> Result<Vec<u8>, String> {
                    tpc::UnivariatePolynomialCommitment::<E, CD>::open(k, &uni(&x.0), &x.1, &c.1 .0)
                        .map(|p| ser(&p))
                        .or_else(err)
                }
                fn verify(k: &Self::K, c: &Self::C, p: &Self::P) -> Result<bool, String> {
                    tpc::UnivariatePolynomialCommitment::<E, CD>::verify(k, &c.0, &c.1 .0, &c.1 .1, &de(&ser(p))).or_else(err)
                }
                fn reference(k: &Self::K, c: &Self::C, p: &Self::P, _: &[[u8; 32]]) -> bool {
                    transparent_ok(k, &c.0, c.1 .0.pow([k.0.len() as u64]), c.1 .0, c.1 .1, p)
                }
                fn bound(_: &Self::K, _: &Self::C, _: &Self::P) -> Vec<(bool, usize, usize)> {
                    vec![]
                }
            }
        }
    };
}

/// Groth16 aggregation. Parameters: (string key, verifying key, input bases); statement: inputs.
#[macro_export]
macro_rules! wide_groth {
    ($m:ident) => {
        pub mod $m {
            use ark_dh_commitments::identity::{HomomorphicPlaceholderValue as PH, IdentityOutput};
            use ark_ec::CurveGroup;
            use ark_ff::{Field, Zero};
            use ark_groth16::{Proof, VerifyingKey};
            use ark_ip_proofs::applications::groth16_aggregation as ga;
            use $crate::explore::*;
            use $crate::gens::leak;
            use $crate::oracle::*;
            use $crate::wide::*;
            $crate::wide_tipas!(tipa);
            $crate::wide_ssms!(ssm);
            pub struct Aggregation;
            /// alpha, beta, (gamma, delta)
            type VkHead = (G1, G2, (G2, G2));
            fn head(v: [Fr; 4]) -> VkHead {
                (G1::of(v[0]), G2::of(v[1]), (G2::of(v[2]), G2::of(v[3])))
            }
            pub fn rho_of(ds: &[[u8; 32]]) -> Option<Fr> {
                ds.iter().find_map(|d| Fr::from_random_bytes(d))
            }
            impl WSys for Aggregation {
                const NAME: &'static str = "Aggregation";
                type Aux = ((Vec<G1>, Vec<G2>, Vk), Vec<(G1, G2, G1)>);
                type K = (Vk, VkHead, Vec<G1>);
                type C = Vec<Vec<Fr>>;
                type P = ((GT, GT, GT), (GT, G1), (<tipa::TipaPairing as WSys>::P, <ssm::SsmLogMultiexp as WSys>::P));
                /// Number of inputs 0, 1, 3; verifying keys dense or at limb boundaries.
                fn sels() -> usize {
                    6
                }
                fn make(n: usize, pa: usize, pb: usize, sel: usize) -> Result<(Self::Aux, Self::K, Self::C), String> {
                    let k = [0, 1, 3][sel % 3];
                    let v = if sel < 3 { [wide(21), wide(22), wide(23), wide(24)] } else { [wide(3), wide(4), wide(2), wide(5)] };
                    let abc = wvec(31, k + 1, if sel < 3 { 0 } else { 2 });
                    let (a, b) = (wvec(1, n, pa), wvec(2, n, pb));
                    let x: Vec<Vec<Fr>> = (0..n).map(|i| if k == 0 { vec![] } else { wvec(100 + i as u64, k, [pa, pb, 0][i % 3]) }).collect();
                    let ps = (0..n)
                        .map(|i| {
                            let ic = abc[0] + abc[1..].iter().zip(&x[i]).map(|(a, x)| *a * x).sum::<Fr>();
                            let c = (a[i] * b[i] - v[0] * v[1] - ic * v[2]) / v[3];
                            (G1::of(a[i]), G2::of(b[i]), G1::of(c))
                        })
                        .collect();
                    let s = srs(n, 0);
                    let vk = s.2;
                    Ok(((s, ps), (vk, head(v), G1::vec(&abc)), x))
                }
                fn prove(x: &Self::Aux, _: &Self::K, _: &Self::C) -> Result<Vec<u8>, String> {
                    let ps: Vec<Proof<E>> = x.1.iter().map(|p| Proof { a: p.0.into_affine(), b: p.1.into_affine(), c: p.2.into_affine() }).collect();
                    ga::aggregate_proofs::<E, CD>(&lib_srs(&x.0), &ps).map(|p| ser(&p)).map_err(|e| e.to_string())
                }
                fn verify(k: &Self::K, c: &Self::C, p: &Self::P) -> Result<bool, String> {
                    let gv = VerifyingKey::<E> {
                        alpha_g1: k.1 .0.into_affine(),
                        beta_g2: k.1 .1.into_affine(),
                        gamma_g2: k.1 .2 .0.into_affine(),
                        delta_g2: k.1 .2 .1.into_affine(),
                        gamma_abc_g1: G1::normalize_batch(&k.2),
                    };
                    ga::verify_aggregate_proof::<E, CD>(&lib_vk(&k.0), &gv, c, &de(&ser(p))).map_err(|e| e.to_string())
                }
                fn reference(k: &Self::K, c: &Self::C, p: &Self::P, ds: &[[u8; 32]]) -> bool {
                    use ark_ec::pairing::Pairing;
                    let Some(r) = rho_of(ds) else { return false };
                    let mut right = GT::zero();
                    for (x, pw) in c.iter().zip(powers(r, c.len())) {
                        let ic = k.2[0] + k.2[1..].iter().zip(x).map(|(a, x)| *a * *x).sum::<G1>();
                        right += E::pairing(k.1 .0 * pw, k.1 .1) + E::pairing(ic * pw, k.1 .2 .0);
                    }
                    right += E::pairing(p.1 .1, k.1 .2 .1);
                    let tier = |ok: &dyn Fn(&[[u8; 32]]) -> bool, run: &dyn Fn()| {
                        let m = mark();
                        run();
                        ok(&bytes_since(m))
                    };
                    let (k1, c1) = ((k.0, PH, r), (p.0 .0, p.0 .1, IdentityOutput(vec![p.1 .0])));
                    let (k2, c2) = ((k.0, PH), (p.0 .2, r, IdentityOutput(vec![p.1 .1])));
                    p.1 .0 == right
                        && tier(&|d| tipa::TipaPairing::reference(&k1, &c1, &p.2 .0, d), &|| drop(tipa::TipaPairing::verify(&k1, &c1, &p.2 .0)))
                        && tier(&|d| ssm::SsmLogMultiexp::reference(&k2, &c2, &p.2 .1, d), &|| drop(ssm::SsmLogMultiexp::verify(&k2, &c2, &p.2 .1)))
                }
                fn bound(_: &Self::K, _: &Self::C, _: &Self::P) -> Vec<(bool, usize, usize)> {
                    vec![]
                }
            }
            /// One of the proofs replaced: the aggregate must not verify.
            pub fn one_bad(c: &mut Checker, sizes: &'static [usize]) {
                c.scenario(
                    Scenario {
                        name: "Aggregation-bls12-381-one-invalid",
                        bounds: leak(format!("BLS12-381: {sizes:?} proofs, one of them with one element changed in {PERTS} ways, aggregated by the library")),
                        dev: 0,
                        oracle: OracleCfg::Real,
                        require: &["rejected"],
                    },
                    move || {
                        let n = choose_in(sizes);
                        let (mut x, k, c) = Aggregation::make(n, 0, 0, 1)?;
                        let (i, how) = (choose(x.1.n()), choose(PERTS));
                        x.1.pert(i, how);
                        observe_u64s(&[n as u64, i as u64, how as u64]);
                        let b = guard(|| Aggregation::prove(&x, &k, &c)).map_err(|e| format!("aggregation panicked: {e}"))?;
                        let Ok(b) = b else {
                            tally("rejected");
                            return Ok(());
                        };
                        if let Ok(Ok(true)) = guard(|| Aggregation::verify(&k, &c, &de(&b))) {
                            return Err(format!("{n} proofs, element {} of proof {} changed (kind {how}): aggregate accepted", i % 3, i / 3));
                        }
                        tally("rejected");
                        Ok(())
                    },
                );
            }
            pub fn depends(c: &mut Checker, sizes: &'static [usize]) {
                c.scenario(
                    Scenario {
                        name: "Aggregation-bls12-381-depends",
                        bounds: leak(format!("BLS12-381: {sizes:?} proofs: each commitment and aggregated value changed in {PERTS} ways (negation included): combination challenge, respectively the argument's hash inputs, change")),
                        dev: 0,
                        oracle: OracleCfg::Real,
                        require: &["challenge changed", "argument changed"],
                    },
                    move || {
                        let n = choose_in(sizes);
                        let (_, k, c, p) = honest::<Aggregation>(n, 0, 0, 1)?;
                        let draws = |p: &<Aggregation as WSys>::P| -> Result<(Vec<Vec<u8>>, Vec<Vec<u8>>), String> {
                            let m = mark();
                            let _ = guard(|| Aggregation::verify(&k, &c, p));
                            let (q, d) = (queries_since(m), bytes_since(m));
                            let i = d.iter().position(|d| Fr::from_random_bytes(d).is_some()).ok_or("no combination challenge")?;
                            Ok((q[..=i].to_vec(), q[i + 1..].to_vec()))
                        };
                        let (r0, rest0) = draws(&p)?;
                        let (i, how) = (choose(5), choose(PERTS));
                        let what = ["com_a", "com_b", "com_c", "ip_ab", "agg_c"][i];
                        let mut q = p.clone();
                        q.pert(i, how);
                        observe_u64s(&[n as u64, i as u64, how as u64]);
                        let (r1, rest1) = draws(&q)?;
                        if i < 3 {
                            if r1.iter().any(|q| r0.contains(q)) {
                                return Err(format!("{n} proofs: {what} changed (kind {how}), a combination-challenge hash input did not"));
                            }
                            tally("challenge changed");
                        } else {
                            let shared = rest0.iter().filter(|q| rest1.contains(q)).count();
                            if n > 1 && shared > rest0.len() - (n.trailing_zeros() as usize + 1) {
                                return Err(format!("{n} proofs: {what} changed (kind {how}), yet {shared} of {} argument hash inputs did not", rest0.len()));
                            }
                            tally("argument changed");
                        }
                        Ok(())
                    },
                );
            }
        }
    };
}
