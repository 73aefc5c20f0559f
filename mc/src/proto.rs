//! Discrete-log level view of GIPA, TIPA and the structured-scalar variants: plain data types, an
//! object-safe adapter trait per protocol, and the boring reference models.
use crate::oracle::bytes_since;
use crate::refm::*;
use crate::world::{invm, mulm};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Com {
    pub a: u64,
    pub b: u64,
    pub t: Vec<u64>,
}
/// Rounds are kept in the stored order (last round first).
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Prf {
    pub steps: Vec<(Com, Com)>,
    pub base: (u64, u64),
    /// Final commitment keys and their openings (TIPA; the structured-scalar variant uses .0 only).
    pub fck: (u64, u64),
    pub open: (u64, u64),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Key {
    pub a: Vec<u64>,
    pub b: Vec<u64>,
    pub t: u64,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Vk {
    pub g: u64,
    pub h: u64,
    pub g_beta: u64,
    pub h_alpha: u64,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Verdict {
    Accept,
    Reject,
    Err(String),
    Panic(String),
}
impl Verdict {
    pub fn of(r: Result<Result<bool, String>, String>) -> Self {
        match r {
            Ok(Ok(true)) => Verdict::Accept,
            Ok(Ok(false)) => Verdict::Reject,
            Ok(Err(e)) => Verdict::Err(e),
            Err(p) => Verdict::Panic(p),
        }
    }
    pub fn accepted(&self) -> bool {
        *self == Verdict::Accept
    }
    pub fn word(&self) -> &'static str {
        match self {
            Verdict::Accept => "accepted",
            Verdict::Reject => "rejected",
            Verdict::Err(_) => "error",
            Verdict::Panic(_) => "panic",
        }
    }
}
/// Serialized proof, error, or panic.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Proved {
    Ok(Vec<u8>),
    Err(String),
    Panic(String),
}
impl Proved {
    pub fn of(r: Result<Result<Vec<u8>, String>, String>) -> Self {
        match r {
            Ok(Ok(b)) => Proved::Ok(b),
            Ok(Err(e)) => Proved::Err(e),
            Err(p) => Proved::Panic(p),
        }
    }
    pub fn ok(self) -> Result<Vec<u8>, String> {
        match self {
            Proved::Ok(b) => Ok(b),
            Proved::Err(e) => Err(format!("prover returned an error: {e}")),
            Proved::Panic(e) => Err(format!("prover panicked: {e}")),
        }
    }
}

/// What all protocols share.
pub trait Base: Sync {
    fn name(&self) -> &'static str;
    fn r(&self) -> u64;
    /// Result commitment is compact (a group element) rather than the identity commitment.
    fn compact(&self) -> bool;
    /// Round challenge encoded in a digest (zero = unusable).
    fn hval(&self, d: &[u8; 32]) -> u64;
    /// Field element decoded from a digest for the key challenge.
    fn fval(&self, d: &[u8; 32]) -> Option<u64>;
    fn enc(&self, p: &Prf) -> Vec<u8>;
    /// None if some target-group element has no (known) logarithm.
    fn dec(&self, b: &[u8]) -> Option<Prf>;
    /// `enc` in the compressed or uncompressed form.
    fn enc_mode(&self, p: &Prf, compressed: bool) -> Vec<u8>;
    /// Reads a proof of the library's own type and writes it again: (bytes, announced size, bytes consumed).
    fn recode(&self, b: &[u8], compressed_in: bool, validate: bool, compressed_out: bool) -> Result<Result<(Vec<u8>, usize, usize), String>, String>;

    /// Round hash values h (c = 1/h) and the key challenge drawn by the call that started at `mark`.
    fn challenges(&self, mark: usize, rounds: usize) -> (Vec<u64>, Option<u64>) {
        let mut hs = vec![];
        let mut z = None;
        for d in bytes_since(mark) {
            if hs.len() < rounds {
                let h = self.hval(&d);
                if h != 0 {
                    hs.push(h)
                }
            } else if z.is_none() {
                z = self.fval(&d)
            }
        }
        (hs, z)
    }
    fn tcom(&self, ckt: u64, t: u64) -> Vec<u64> {
        if self.compact() {
            vec![mulm(ckt, t, self.r())]
        } else {
            vec![t]
        }
    }
    fn com(&self, k: &Key, a: &[u64], b: &[u64], t: u64) -> Com {
        Com { a: dot(&k.a, a, self.r()), b: dot(&k.b, b, self.r()), t: self.tcom(k.t, t) }
    }
}
/// The general argument.
pub trait Gipa: Base {
    fn lib_commit(&self, k: &Key, a: &[u64], b: &[u64], t: u64) -> Result<Com, String>;
    /// The checked prover.
    fn prove(&self, a: &[u64], b: &[u64], t: u64, k: &Key, com: &Com) -> Proved;
    /// The unchecked prover.
    fn prove_aux(&self, a: &[u64], b: &[u64], k: &Key) -> Proved;
    fn verify(&self, k: &Key, com: &Com, p: &[u8]) -> Verdict;
}
pub struct Srs {
    pub g_alpha: Vec<u64>,
    pub h_beta: Vec<u64>,
    pub g_beta: u64,
    pub h_alpha: u64,
}
impl Srs {
    pub fn model(n: usize, alpha: u64, beta: u64, r: u64) -> Srs {
        Srs { g_alpha: powers(alpha, 2 * n - 1, r), h_beta: powers(beta, 2 * n - 1, r), g_beta: beta, h_alpha: alpha }
    }
    pub fn key(&self, t: u64) -> Key {
        Key { a: self.h_beta.iter().step_by(2).copied().collect(), b: self.g_alpha.iter().step_by(2).copied().collect(), t }
    }
    pub fn vk(&self) -> Vk {
        Vk { g: self.g_alpha[0], h: self.h_beta[0], g_beta: self.g_beta, h_alpha: self.h_alpha }
    }
}
pub trait Tipa: Base {
    /// Setup through the library with a scripted random stream: (srs, keys from the srs, verifier key).
    fn setup(&self, n: usize, alpha: u64, beta: u64, ckt: u64) -> Result<(Srs, Key, Vk), String>;
    /// None: the plain entry point, otherwise the shifted one.
    fn prove(&self, srs: &Srs, a: &[u64], b: &[u64], k: &Key, shift: Option<u64>) -> Proved;
    fn verify(&self, vk: &Vk, ckt: u64, com: &Com, p: &[u8], shift: Option<u64>) -> Verdict;
}
/// Both structured-scalar variants (transparent: `srs`/`vk` are ignored; logarithmic: `Key` is).
pub trait Ssm: Base {
    fn transparent(&self) -> bool;
    fn setup(&self, n: usize, alpha: u64, beta: u64, ckt: u64) -> Result<(Srs, Key, Vk), String>;
    fn prove(&self, srs: &Srs, a: &[u64], b: &[u64], k: &Key) -> Proved;
    fn verify(&self, vk: &Vk, k: &Key, com: &Com, scalar: u64, p: &[u8]) -> Verdict;
}

fn add_pad(x: &[u64], y: &[u64], r: u64) -> Vec<u64> {
    (0..x.len().max(y.len())).map(|i| addm(*x.get(i).unwrap_or(&0), *y.get(i).unwrap_or(&0), r)).collect()
}
fn scale(x: &[u64], c: u64, r: u64) -> Vec<u64> {
    x.iter().map(|v| mulm(*v, c, r)).collect()
}
/// Equality up to zero padding.
pub fn teq(x: &[u64], y: &[u64]) -> bool {
    (0..x.len().max(y.len())).all(|i| x.get(i).unwrap_or(&0) == y.get(i).unwrap_or(&0))
}
pub fn fold_com(com: &Com, p: &Prf, hs: &[u64], r: u64) -> Com {
    let mut c0 = com.clone();
    for ((l, rr), h) in p.steps.iter().rev().zip(hs) {
        let (c, ci) = (invm(*h, r), *h);
        c0 = Com {
            a: addm(c0.a, addm(mulm(c, l.a, r), mulm(ci, rr.a, r), r), r),
            b: addm(c0.b, addm(mulm(c, l.b, r), mulm(ci, rr.b, r), r), r),
            t: add_pad(&c0.t, &add_pad(&scale(&l.t, c, r), &scale(&rr.t, ci, r), r), r),
        };
    }
    c0
}
pub fn fold_keys(k: &Key, hs: &[u64], r: u64) -> (u64, u64) {
    let (mut a, mut b) = (k.a.clone(), k.b.clone());
    for h in hs {
        a = fold(&a, *h, r);
        b = fold(&b, invm(*h, r), r);
    }
    (a[0], b[0])
}
/// Do the folded commitments open to the final messages under the given final keys?
pub fn base_ok<S: Base + ?Sized>(s: &S, fk: (u64, u64), ckt: u64, fc: &Com, p: &Prf) -> bool {
    let r = s.r();
    fc.a == mulm(fk.0, p.base.0, r) && fc.b == mulm(fk.1, p.base.1, r) && teq(&fc.t, &s.tcom(ckt, mulm(p.base.0, p.base.1, r)))
}
pub fn gipa_accepts<S: Base + ?Sized>(s: &S, k: &Key, com: &Com, p: &Prf, hs: &[u64]) -> bool {
    let n = k.a.len();
    if !n.is_power_of_two() || k.b.len() != n || p.steps.len() != n.trailing_zeros() as usize || hs.len() != p.steps.len() {
        return false;
    }
    base_ok(s, fold_keys(k, hs, s.r()), k.t, &fold_com(com, p, hs, s.r()), p)
}
/// Transcript of an honest prover under round hash values `hs`. With `ssm` the right commitment is 0.
pub fn gipa_prover<S: Base + ?Sized>(s: &S, a: &[u64], b: &[u64], k: &Key, hs: &[u64], ssm: bool) -> Prf {
    let r = s.r();
    let (mut a, mut b, mut ka) = (a.to_vec(), b.to_vec(), k.a.clone());
    let mut kb = if ssm { vec![0; b.len()] } else { k.b.clone() };
    let mut steps = vec![];
    for h in hs {
        let (c, ci) = (invm(*h, r), *h);
        let n = a.len() / 2;
        steps.push((
            Com { a: dot(&ka[..n], &a[n..], r), b: dot(&kb[n..], &b[..n], r), t: s.tcom(k.t, dot(&a[n..], &b[..n], r)) },
            Com { a: dot(&ka[n..], &a[..n], r), b: dot(&kb[..n], &b[n..], r), t: s.tcom(k.t, dot(&a[..n], &b[n..], r)) },
        ));
        a = fold(&a, c, r);
        b = fold(&b, ci, r);
        ka = fold(&ka, ci, r);
        kb = fold(&kb, c, r);
    }
    steps.reverse();
    Prf { steps, base: (a[0], b[0]), fck: (ka[0], kb[0]), open: (0, 0) }
}
/// Coefficients (even positions) of the final-key polynomial: entry i belongs to X^{2i}.
fn key_coeffs(hs: &[u64], left: bool, shift_inv: u64, r: u64) -> Vec<u64> {
    let n = 1usize << hs.len();
    let pw = powers(shift_inv, n, r);
    (0..n)
        .map(|i| {
            let mut v = pw[i];
            for (j, h) in hs.iter().enumerate() {
                // round j halves at bit (rounds - 1 - j)
                if i >> (hs.len() - 1 - j) & 1 == 1 {
                    v = mulm(v, if left { *h } else { invm(*h, r) }, r);
                }
            }
            v
        })
        .collect()
}
fn key_poly(hs: &[u64], left: bool, shift_inv: u64, r: u64) -> Vec<u64> {
    let c = key_coeffs(hs, left, shift_inv, r);
    let mut p = vec![0; 2 * c.len() - 1];
    for (i, x) in c.iter().enumerate() {
        p[2 * i] = *x;
    }
    p
}
/// Evaluation of the final-key polynomial at z, without materializing it when there are many rounds.
fn key_eval(hs: &[u64], left: bool, shift_inv: u64, z: u64, r: u64) -> u64 {
    if hs.len() <= 8 {
        return eval(&key_poly(hs, left, shift_inv, r), z, r);
    }
    let mut q = mulm(mulm(z, z, r), shift_inv, r);
    let mut v = 1;
    for h in hs.iter().rev() {
        let c = if left { *h } else { invm(*h, r) };
        v = mulm(v, addm(1, mulm(c, q, r), r), r);
        q = mulm(q, q, r);
    }
    v
}
/// Are the claimed final keys well formed (pairing equations of the key openings)?
pub fn keys_ok<S: Base + ?Sized>(s: &S, vk: &Vk, p: &Prf, hs: &[u64], z: u64, shift: u64, both: bool) -> bool {
    let r = s.r();
    let si = invm(shift, r);
    let ea = key_eval(hs, true, si, z, r);
    let la = mulm(vk.g, subm(p.fck.0, mulm(vk.h, ea, r), r), r);
    let ra = mulm(subm(vk.g_beta, mulm(vk.g, z, r), r), p.open.0, r);
    if la != ra {
        return false;
    }
    if !both {
        return true;
    }
    let eb = key_eval(hs, false, 1, z, r);
    let lb = mulm(subm(p.fck.1, mulm(vk.g, eb, r), r), vk.h, r);
    let rb = mulm(p.open.1, subm(vk.h_alpha, mulm(vk.h, z, r), r), r);
    lb == rb
}
pub fn tipa_accepts<S: Base + ?Sized>(s: &S, vk: &Vk, ckt: u64, com: &Com, p: &Prf, shift: u64, hs: &[u64], z: Option<u64>) -> bool {
    let Some(z) = z else { return false };
    shift != 0
        && hs.len() == p.steps.len()
        && keys_ok(s, vk, p, hs, z, shift, true)
        && base_ok(s, p.fck, ckt, &fold_com(com, p, hs, s.r()), p)
}
/// Openings an honest prover attaches.
pub fn tipa_openings(srs: &Srs, hs: &[u64], z: u64, shift: u64, r: u64) -> (u64, u64) {
    let mut o = vec![];
    for (left, pw, sh) in [(true, &srs.h_beta, invm(shift, r)), (false, &srs.g_alpha, 1)] {
        let p = key_poly(hs, left, sh, r);
        let q = div_linear(&p, z, r);
        o.push(q.iter().zip(pw.iter()).fold(0, |s, (x, y)| addm(s, mulm(*x, *y, r), r)));
    }
    (o[0], o[1])
}
/// Value obtained by folding the powers of `scalar` under the challenges.
pub fn folded_powers(scalar: u64, hs: &[u64], r: u64) -> u64 {
    if hs.len() > 10 {
        // product over the rounds; the last round pairs neighbouring powers
        let (mut q, mut v) = (scalar, 1);
        for h in hs.iter().rev() {
            v = mulm(v, addm(1, mulm(*h, q, r), r), r);
            q = mulm(q, q, r);
        }
        return v;
    }
    let mut b = powers(scalar, 1 << hs.len(), r);
    for h in hs {
        b = fold(&b, *h, r);
    }
    b[0]
}
pub fn ssm_accepts<S: Ssm + ?Sized>(s: &S, vk: &Vk, k: &Key, com: &Com, scalar: u64, p: &Prf, hs: &[u64], z: Option<u64>) -> bool {
    let r = s.r();
    if hs.len() != p.steps.len() {
        return false;
    }
    let fka = if s.transparent() {
        if !k.a.len().is_power_of_two() || p.steps.len() != k.a.len().trailing_zeros() as usize {
            return false;
        }
        fold_keys(&Key { a: k.a.clone(), b: k.a.clone(), t: 0 }, hs, r).0
    } else {
        let Some(z) = z else { return false };
        if !keys_ok(s, vk, p, hs, z, 1, false) {
            return false;
        }
        p.fck.0
    };
    let fc = fold_com(com, p, hs, r);
    fc.a == mulm(fka, p.base.0, r) && teq(&fc.t, &s.tcom(k.t, mulm(p.base.0, folded_powers(scalar, hs, r), r)))
}

/// Every scalar slot of a proof, in a fixed order.
pub fn prf_slots(p: &Prf) -> usize {
    let per = |c: &Com| 2 + c.t.len();
    p.steps.iter().map(|(l, r)| per(l) + per(r)).sum::<usize>() + 6
}
pub fn com_slot(c: &mut Com, i: usize) -> &mut u64 {
    match i {
        0 => &mut c.a,
        1 => &mut c.b,
        i => &mut c.t[i - 2],
    }
}
pub fn prf_slot(p: &mut Prf, mut i: usize) -> &mut u64 {
    for (l, r) in p.steps.iter_mut() {
        for c in [l, r] {
            let k = 2 + c.t.len();
            if i < k {
                return com_slot(c, i);
            }
            i -= k;
        }
    }
    match i {
        0 => &mut p.base.0,
        1 => &mut p.base.1,
        2 => &mut p.fck.0,
        3 => &mut p.fck.1,
        4 => &mut p.open.0,
        _ => &mut p.open.1,
    }
}
pub fn prf_slot_name(p: &Prf, mut i: usize) -> String {
    for (j, (l, r)) in p.steps.iter().enumerate() {
        for (c, n) in [(l, "L"), (r, "R")] {
            let k = 2 + c.t.len();
            if i < k {
                return format!("round {} {}.{}", p.steps.len() - 1 - j, n, ["a", "b", "t"][i.min(2)]);
            }
            i -= k;
        }
    }
    ["final left message", "final right message", "final left key", "final right key", "left key opening", "right key opening"][i].into()
}
/// Round (0 = first) a proof slot belongs to, None for the final part.
pub fn prf_slot_round(p: &Prf, mut i: usize) -> Option<usize> {
    for (j, (l, r)) in p.steps.iter().enumerate() {
        for c in [l, r] {
            let k = 2 + c.t.len();
            if i < k {
                return Some(p.steps.len() - 1 - j);
            }
            i -= k;
        }
    }
    None
}

#[macro_export]
macro_rules! proto_base {
    ($name:ident, $w:ty, $compact:expr, $lm:ty, $rm:ty, $lo:ty, $ro:ty, $io:ty) => {
        impl $name {
            #[allow(dead_code)]
            const W: &'static str = <$w as $crate::world::World>::NAME;
        }
        impl $name {
            #[allow(dead_code)]
            fn steps_of(p: &$crate::proto::Prf) -> Vec<(($lo, $ro, $io), ($lo, $ro, $io))> {
                use $crate::vals::Val;
                let f = |c: &$crate::proto::Com| (<$lo>::one(c.a), <$ro>::one(c.b), <$io>::of(&c.t));
                p.steps.iter().map(|(l, r)| (f(l), f(r))).collect()
            }
            #[allow(dead_code)]
            fn gipa_mirror(p: &$crate::proto::Prf) -> (Vec<(($lo, $ro, $io), ($lo, $ro, $io))>, ($lm, $rm)) {
                use $crate::vals::Val;
                (Self::steps_of(p), (<$lm>::one(p.base.0), <$rm>::one(p.base.1)))
            }
            #[allow(dead_code)]
            fn un_gipa(m: &(Vec<(($lo, $ro, $io), ($lo, $ro, $io))>, ($lm, $rm))) -> Option<$crate::proto::Prf> {
                use $crate::vals::Val;
                let f = |c: &($lo, $ro, $io)| Some($crate::proto::Com { a: c.0.get()?, b: c.1.get()?, t: c.2.to()? });
                Some($crate::proto::Prf {
                    steps: m.0.iter().map(|(l, r)| Some((f(l)?, f(r)?))).collect::<Option<_>>()?,
                    base: (m.1 .0.get()?, m.1 .1.get()?),
                    ..Default::default()
                })
            }
        }
    };
}
#[macro_export]
macro_rules! base_impl {
    ($name:ident, $w:ty, $compact:expr, $mirror:ty, $enc:expr, $dec:expr) => {
        impl $crate::proto::Base for $name {
            fn name(&self) -> &'static str {
                stringify!($name)
            }
            fn r(&self) -> u64 {
                <$w as $crate::world::World>::R
            }
            fn compact(&self) -> bool {
                $compact
            }
            fn hval(&self, d: &[u8; 32]) -> u64 {
                (u128::from_be_bytes(d[0..16].try_into().unwrap()) % <$w as $crate::world::World>::R as u128) as u64
            }
            fn fval(&self, d: &[u8; 32]) -> Option<u64> {
                use ark_ff::Field;
                <$w as ark_ec::pairing::Pairing>::ScalarField::from_random_bytes(d).map(|f| <$w as $crate::world::World>::fu(&f))
            }
            fn enc(&self, p: &$crate::proto::Prf) -> Vec<u8> {
                use ark_serialize::CanonicalSerialize;
                let m: $mirror = $enc(p);
                let mut b = vec![];
                m.serialize_uncompressed(&mut b).unwrap();
                b
            }
            fn dec(&self, b: &[u8]) -> Option<$crate::proto::Prf> {
                use ark_serialize::CanonicalDeserialize;
                let m = <$mirror>::deserialize_uncompressed_unchecked(b).ok()?;
                $dec(&m)
            }
            fn enc_mode(&self, p: &$crate::proto::Prf, compressed: bool) -> Vec<u8> {
                use ark_serialize::{CanonicalSerialize, Compress};
                let m: $mirror = $enc(p);
                let mut b = vec![];
                m.serialize_with_mode(&mut b, if compressed { Compress::Yes } else { Compress::No }).unwrap();
                b
            }
            fn recode(&self, b: &[u8], ci: bool, va: bool, co: bool) -> Result<Result<(Vec<u8>, usize, usize), String>, String> {
                use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, Compress, Validate};
                let m = |c| if c { Compress::Yes } else { Compress::No };
                $crate::explore::guard(|| {
                    let mut rest = b;
                    let p = Proof::deserialize_with_mode(&mut rest, m(ci), if va { Validate::Yes } else { Validate::No }).map_err(|e| e.to_string())?;
                    let used = b.len() - rest.len();
                    let mut o = vec![];
                    p.serialize_with_mode(&mut o, m(co)).map_err(|e| e.to_string())?;
                    let size = p.serialized_size(m(co));
                    Ok((o, size, used))
                })
            }
        }
    };
}
#[macro_export]
macro_rules! gipa_sys {
    ($name:ident, $w:ty, $compact:expr, $ip:ty, $lmc:ty, $rmc:ty, $ipc:ty) => {
        pub struct $name;
        const _: () = {
            use ark_dh_commitments::DoublyHomomorphicCommitment as DHC;
            use $crate::vals::Val;
            type LM = <$lmc as DHC>::Message;
            type RM = <$rmc as DHC>::Message;
            type TM = <$ipc as DHC>::Message;
            type LK = <$lmc as DHC>::Key;
            type RK = <$rmc as DHC>::Key;
            type TK = <$ipc as DHC>::Key;
            type LO = <$lmc as DHC>::Output;
            type RO = <$rmc as DHC>::Output;
            type IO = <$ipc as DHC>::Output;
            type P = ark_ip_proofs::gipa::GIPA<$ip, $lmc, $rmc, $ipc, $crate::oracle::CD>;
            type Proof = ark_ip_proofs::gipa::GIPAProof<$ip, $lmc, $rmc, $ipc, $crate::oracle::CD>;
            type Mirror = (Vec<((LO, RO, IO), (LO, RO, IO))>, (LM, RM));
            $crate::proto_base!($name, $w, $compact, LM, RM, LO, RO, IO);
            $crate::base_impl!($name, $w, $compact, Mirror, $name::gipa_mirror, $name::un_gipa);
            fn vv<T: Val>(v: &[u64]) -> Vec<T> {
                v.iter().map(|x| T::one(*x)).collect()
            }
            fn ser(p: &Proof) -> Vec<u8> {
                use ark_serialize::CanonicalSerialize;
                let mut b = vec![];
                p.serialize_uncompressed(&mut b).unwrap();
                b
            }
            impl $crate::proto::Gipa for $name {
                fn lib_commit(&self, k: &$crate::proto::Key, a: &[u64], b: &[u64], t: u64) -> Result<$crate::proto::Com, String> {
                    let e = |x: ark_dh_commitments::Error| x.to_string();
                    let ca = <$lmc as DHC>::commit(&vv::<LK>(&k.a), &vv::<LM>(a)).map_err(e)?;
                    let cb = <$rmc as DHC>::commit(&vv::<RK>(&k.b), &vv::<RM>(b)).map_err(e)?;
                    let ct = <$ipc as DHC>::commit(&[TK::one(k.t)], &[TM::one(t)]).map_err(e)?;
                    Ok($crate::proto::Com { a: ca.get().ok_or("log")?, b: cb.get().ok_or("log")?, t: ct.to().ok_or("log")? })
                }
                fn prove(&self, a: &[u64], b: &[u64], t: u64, k: &$crate::proto::Key, com: &$crate::proto::Com) -> $crate::proto::Proved {
                    $crate::proto::Proved::of($crate::explore::guard(|| {
                        P::prove(
                            (&vv::<LM>(a), &vv::<RM>(b), &TM::one(t)),
                            (&vv::<LK>(&k.a), &vv::<RK>(&k.b), &TK::one(k.t)),
                            (&LO::one(com.a), &RO::one(com.b), &IO::of(&com.t)),
                        )
                        .map(|p| ser(&p))
                        .map_err(|e| e.to_string())
                    }))
                }
                fn prove_aux(&self, a: &[u64], b: &[u64], k: &$crate::proto::Key) -> $crate::proto::Proved {
                    $crate::proto::Proved::of($crate::explore::guard(|| {
                        P::prove_with_aux((&vv::<LM>(a), &vv::<RM>(b)), (&vv::<LK>(&k.a), &vv::<RK>(&k.b), &[TK::one(k.t)]))
                            .map(|p| ser(&p.0))
                            .map_err(|e| e.to_string())
                    }))
                }
                fn verify(&self, k: &$crate::proto::Key, com: &$crate::proto::Com, p: &[u8]) -> $crate::proto::Verdict {
                    use ark_serialize::CanonicalDeserialize;
                    let p = Proof::deserialize_uncompressed_unchecked(p).expect("proof bytes");
                    $crate::proto::Verdict::of($crate::explore::guard(|| {
                        P::verify(
                            (&vv::<LK>(&k.a), &vv::<RK>(&k.b), &TK::one(k.t)),
                            (&LO::one(com.a), &RO::one(com.b), &IO::of(&com.t)),
                            &p,
                        )
                        .map_err(|e| e.to_string())
                    }))
                }
            }
        };
    };
}
/// The standard instantiations over one world.
#[macro_export]
macro_rules! gipa_world {
    ($m:ident, $w:ident, $wm:ident) => {
        pub mod $m {
            use ark_dh_commitments::{
                afgho16::{AFGHOCommitmentG1, AFGHOCommitmentG2},
                identity::IdentityCommitment,
                pedersen::PedersenCommitment,
            };
            use ark_ec::pairing::PairingOutput;
            use ark_inner_products::{MultiexponentiationInnerProduct, PairingInnerProduct, ScalarInnerProduct};
            use $crate::world::$wm::{Fr, $w, G1, G2};
            $crate::gipa_sys!(PairingIdentity, $w, false, PairingInnerProduct<$w>, AFGHOCommitmentG1<$w>, AFGHOCommitmentG2<$w>, IdentityCommitment<PairingOutput<$w>, Fr>);
            $crate::gipa_sys!(MultiexpIdentity, $w, false, MultiexponentiationInnerProduct<G1>, AFGHOCommitmentG1<$w>, PedersenCommitment<G1>, IdentityCommitment<G1, Fr>);
            $crate::gipa_sys!(ScalarIdentity, $w, false, ScalarInnerProduct<Fr>, PedersenCommitment<G2>, PedersenCommitment<G1>, IdentityCommitment<Fr, Fr>);
            $crate::gipa_sys!(MultiexpCompact, $w, true, MultiexponentiationInnerProduct<G1>, AFGHOCommitmentG1<$w>, PedersenCommitment<G1>, AFGHOCommitmentG1<$w>);
            $crate::gipa_sys!(ScalarCompact, $w, true, ScalarInnerProduct<Fr>, PedersenCommitment<G2>, PedersenCommitment<G2>, PedersenCommitment<G1>);
            pub static ALL: &[&'static dyn $crate::proto::Gipa] = &[&PairingIdentity, &MultiexpIdentity, &ScalarIdentity, &MultiexpCompact, &ScalarCompact];
        }
    };
}
#[macro_export]
macro_rules! tipa_sys {
    ($name:ident, $w:ident, $compact:expr, $ip:ty, $lmc:ty, $rmc:ty, $ipc:ty) => {
        pub struct $name;
        const _: () = {
            use ark_dh_commitments::DoublyHomomorphicCommitment as DHC;
            use ark_ip_proofs::tipa::{VerifierSRS, SRS};
            use $crate::vals::Val;
            use $crate::world::World;
            type LM = <$lmc as DHC>::Message;
            type RM = <$rmc as DHC>::Message;
            type LO = <$lmc as DHC>::Output;
            type RO = <$rmc as DHC>::Output;
            type TK = <$ipc as DHC>::Key;
            type IO = <$ipc as DHC>::Output;
            type P = ark_ip_proofs::tipa::TIPA<$ip, $lmc, $rmc, $ipc, $w, $crate::oracle::CD>;
            type Proof = ark_ip_proofs::tipa::TIPAProof<$ip, $lmc, $rmc, $ipc, $w, $crate::oracle::CD>;
            type Mirror = ((Vec<((LO, RO, IO), (LO, RO, IO))>, (LM, RM)), (G2, G1), (G2, G1));
            $crate::proto_base!($name, $w, $compact, LM, RM, LO, RO, IO);
            fn mir(p: &$crate::proto::Prf) -> Mirror {
                (
                    $name::gipa_mirror(p),
                    (<$w>::g2(p.fck.0), <$w>::g1(p.fck.1)),
                    (<$w>::g2(p.open.0), <$w>::g1(p.open.1)),
                )
            }
            fn unmir(m: &Mirror) -> Option<$crate::proto::Prf> {
                let mut p = $name::un_gipa(&m.0)?;
                p.fck = (<$w>::d2(&m.1 .0), <$w>::d1(&m.1 .1));
                p.open = (<$w>::d2(&m.2 .0), <$w>::d1(&m.2 .1));
                Some(p)
            }
            $crate::base_impl!($name, $w, $compact, Mirror, mir, unmir);
            fn vv<T: Val>(v: &[u64]) -> Vec<T> {
                v.iter().map(|x| T::one(*x)).collect()
            }
            fn ser(p: &Proof) -> Vec<u8> {
                use ark_serialize::CanonicalSerialize;
                let mut b = vec![];
                p.serialize_uncompressed(&mut b).unwrap();
                b
            }
            fn srs_of(s: &$crate::proto::Srs) -> SRS<$w> {
                SRS { g_alpha_powers: vv(&s.g_alpha), h_beta_powers: vv(&s.h_beta), g_beta: <$w>::g1(s.g_beta), h_alpha: <$w>::g2(s.h_alpha) }
            }
            fn vk_of(v: &$crate::proto::Vk) -> VerifierSRS<$w> {
                VerifierSRS { g: <$w>::g1(v.g), h: <$w>::g2(v.h), g_beta: <$w>::g1(v.g_beta), h_alpha: <$w>::g2(v.h_alpha) }
            }
            impl $crate::proto::Tipa for $name {
                fn setup(&self, n: usize, alpha: u64, beta: u64, ckt: u64) -> Result<($crate::proto::Srs, $crate::proto::Key, $crate::proto::Vk), String> {
                    let mut rng = $crate::rng::Script::new(&[alpha, beta, ckt], <$w>::R);
                    let (srs, kt) = P::setup(&mut rng, n).map_err(|e| e.to_string())?;
                    $crate::srs_parts!($w, srs, kt)
                }
                fn prove(&self, srs: &$crate::proto::Srs, a: &[u64], b: &[u64], k: &$crate::proto::Key, shift: Option<u64>) -> $crate::proto::Proved {
                    $crate::proto::Proved::of($crate::explore::guard(|| {
                        let (a, b, ka, kb, kt) = (vv::<LM>(a), vv::<RM>(b), vv::<G2>(&k.a), vv::<G1>(&k.b), TK::one(k.t));
                        match shift {
                            None => P::prove(&srs_of(srs), (&a, &b), (&ka, &kb, &kt)),
                            Some(r) => P::prove_with_srs_shift(&srs_of(srs), (&a, &b), (&ka, &kb, &kt), &<$w>::f(r)),
                        }
                        .map(|p| ser(&p))
                        .map_err(|e| e.to_string())
                    }))
                }
                fn verify(&self, vk: &$crate::proto::Vk, ckt: u64, com: &$crate::proto::Com, p: &[u8], shift: Option<u64>) -> $crate::proto::Verdict {
                    use ark_serialize::CanonicalDeserialize;
                    let p = Proof::deserialize_uncompressed_unchecked(p).expect("proof bytes");
                    $crate::proto::Verdict::of($crate::explore::guard(|| {
                        let c = (&LO::one(com.a), &RO::one(com.b), &IO::of(&com.t));
                        match shift {
                            None => P::verify(&vk_of(vk), &TK::one(ckt), c, &p),
                            Some(r) => P::verify_with_srs_shift(&vk_of(vk), &TK::one(ckt), c, &p, &<$w>::f(r)),
                        }
                        .map_err(|e| e.to_string())
                    }))
                }
            }
        };
    };
}
#[macro_export]
macro_rules! srs_parts {
    ($w:ident, $srs:ident, $kt:ident) => {{
        let (ka, kb) = $srs.get_commitment_keys();
        let v = $srs.get_verifier_key();
        let s = $crate::proto::Srs {
            g_alpha: $srs.g_alpha_powers.iter().map(|x| <$w>::d1(x)).collect(),
            h_beta: $srs.h_beta_powers.iter().map(|x| <$w>::d2(x)).collect(),
            g_beta: <$w>::d1(&$srs.g_beta),
            h_alpha: <$w>::d2(&$srs.h_alpha),
        };
        let key = $crate::proto::Key {
            a: ka.iter().map(|x| <$w>::d2(x)).collect(),
            b: kb.iter().map(|x| <$w>::d1(x)).collect(),
            t: $kt.get().unwrap_or(0),
        };
        let vk = $crate::proto::Vk { g: <$w>::d1(&v.g), h: <$w>::d2(&v.h), g_beta: <$w>::d1(&v.g_beta), h_alpha: <$w>::d2(&v.h_alpha) };
        Ok((s, key, vk))
    }};
}
#[macro_export]
macro_rules! tipa_world {
    ($m:ident, $w:ident, $wm:ident) => {
        pub mod $m {
            use ark_dh_commitments::{
                afgho16::{AFGHOCommitmentG1, AFGHOCommitmentG2},
                identity::IdentityCommitment,
                pedersen::PedersenCommitment,
            };
            use ark_ec::pairing::PairingOutput;
            use ark_inner_products::{MultiexponentiationInnerProduct, PairingInnerProduct, ScalarInnerProduct};
            use $crate::world::$wm::{Fr, $w, G1, G2};
            $crate::tipa_sys!(TipaPairing, $w, false, PairingInnerProduct<$w>, AFGHOCommitmentG1<$w>, AFGHOCommitmentG2<$w>, IdentityCommitment<PairingOutput<$w>, Fr>);
            $crate::tipa_sys!(TipaMultiexp, $w, false, MultiexponentiationInnerProduct<G1>, AFGHOCommitmentG1<$w>, PedersenCommitment<G1>, IdentityCommitment<G1, Fr>);
            $crate::tipa_sys!(TipaScalar, $w, false, ScalarInnerProduct<Fr>, PedersenCommitment<G2>, PedersenCommitment<G1>, IdentityCommitment<Fr, Fr>);
            $crate::tipa_sys!(TipaMultiexpCompact, $w, true, MultiexponentiationInnerProduct<G1>, AFGHOCommitmentG1<$w>, PedersenCommitment<G1>, AFGHOCommitmentG1<$w>);
            $crate::tipa_sys!(TipaScalarCompact, $w, true, ScalarInnerProduct<Fr>, PedersenCommitment<G2>, PedersenCommitment<G1>, PedersenCommitment<G1>);
            pub static ALL: &[&'static dyn $crate::proto::Tipa] = &[&TipaPairing, &TipaMultiexp, &TipaScalar, &TipaMultiexpCompact, &TipaScalarCompact];
        }
    };
}
#[macro_export]
macro_rules! ssm_sys {
    ($name:ident, $w:ident, $transparent:tt, $compact:expr, $ip:ty, $lmc:ty, $ipc:ty) => {
        pub struct $name;
        const _: () = {
            use ark_dh_commitments::DoublyHomomorphicCommitment as DHC;
            #[allow(unused_imports)]
            use ark_ip_proofs::tipa::{structured_scalar_message as ssm, VerifierSRS, SRS};
            use $crate::vals::Val;
            use $crate::world::World;
            type LM = <$lmc as DHC>::Message;
            type RM = Fr;
            type LO = <$lmc as DHC>::Output;
            type RO = Fr;
            type TK = <$ipc as DHC>::Key;
            type LK = <$lmc as DHC>::Key;
            type IO = <$ipc as DHC>::Output;
            $crate::proto_base!($name, $w, $compact, LM, RM, LO, RO, IO);
            fn vv<T: Val>(v: &[u64]) -> Vec<T> {
                v.iter().map(|x| T::one(*x)).collect()
            }
            $crate::ssm_body!($transparent, $name, $w, $compact, $ip, $lmc, $ipc);
        };
    };
}
#[macro_export]
macro_rules! ssm_body {
    (true, $name:ident, $w:ident, $compact:expr, $ip:ty, $lmc:ty, $ipc:ty) => {
        type P = ssm::GIPAWithSSM<$ip, $lmc, $ipc, $crate::oracle::CD>;
        type Proof = ark_ip_proofs::gipa::GIPAProof<$ip, $lmc, ssm::SSMPlaceholderCommitment<Fr>, $ipc, $crate::oracle::CD>;
        type Mirror = (Vec<((LO, RO, IO), (LO, RO, IO))>, (LM, RM));
        $crate::base_impl!($name, $w, $compact, Mirror, $name::gipa_mirror, $name::un_gipa);
        fn ser(p: &Proof) -> Vec<u8> {
            use ark_serialize::CanonicalSerialize;
            let mut b = vec![];
            p.serialize_uncompressed(&mut b).unwrap();
            b
        }
        impl $crate::proto::Ssm for $name {
            fn transparent(&self) -> bool {
                true
            }
            fn setup(&self, n: usize, alpha: u64, beta: u64, ckt: u64) -> Result<($crate::proto::Srs, $crate::proto::Key, $crate::proto::Vk), String> {
                let s = $crate::proto::Srs::model(n.max(1), alpha, beta, <$w>::R);
                let (k, v) = (s.key(ckt), s.vk());
                Ok((s, k, v))
            }
            fn prove(&self, _srs: &$crate::proto::Srs, a: &[u64], b: &[u64], k: &$crate::proto::Key) -> $crate::proto::Proved {
                $crate::proto::Proved::of($crate::explore::guard(|| {
                    P::prove_with_structured_scalar_message((&vv::<LM>(a), &vv::<RM>(b)), (&vv::<LK>(&k.a), &TK::one(k.t)))
                        .map(|p| ser(&p))
                        .map_err(|e| e.to_string())
                }))
            }
            fn verify(&self, _vk: &$crate::proto::Vk, k: &$crate::proto::Key, com: &$crate::proto::Com, scalar: u64, p: &[u8]) -> $crate::proto::Verdict {
                use ark_serialize::CanonicalDeserialize;
                let p = Proof::deserialize_uncompressed_unchecked(p).expect("proof bytes");
                $crate::proto::Verdict::of($crate::explore::guard(|| {
                    P::verify_with_structured_scalar_message(
                        (&vv::<LK>(&k.a), &TK::one(k.t)),
                        (&LO::one(com.a), &IO::of(&com.t)),
                        &<$w>::f(scalar),
                        &p,
                    )
                    .map_err(|e| e.to_string())
                }))
            }
        }
    };
    (false, $name:ident, $w:ident, $compact:expr, $ip:ty, $lmc:ty, $ipc:ty) => {
        type P = ssm::TIPAWithSSM<$ip, $lmc, $ipc, $w, $crate::oracle::CD>;
        type Proof = ssm::TIPAWithSSMProof<$ip, $lmc, $ipc, $w, $crate::oracle::CD>;
        type Mirror = ((Vec<((LO, RO, IO), (LO, RO, IO))>, (LM, RM)), G2, G2);
        fn mir(p: &$crate::proto::Prf) -> Mirror {
            ($name::gipa_mirror(p), <$w>::g2(p.fck.0), <$w>::g2(p.open.0))
        }
        fn unmir(m: &Mirror) -> Option<$crate::proto::Prf> {
            let mut p = $name::un_gipa(&m.0)?;
            p.fck.0 = <$w>::d2(&m.1);
            p.open.0 = <$w>::d2(&m.2);
            Some(p)
        }
        $crate::base_impl!($name, $w, $compact, Mirror, mir, unmir);
        fn ser(p: &Proof) -> Vec<u8> {
            use ark_serialize::CanonicalSerialize;
            let mut b = vec![];
            p.serialize_uncompressed(&mut b).unwrap();
            b
        }
        fn srs_of(s: &$crate::proto::Srs) -> SRS<$w> {
            SRS { g_alpha_powers: vv(&s.g_alpha), h_beta_powers: vv(&s.h_beta), g_beta: <$w>::g1(s.g_beta), h_alpha: <$w>::g2(s.h_alpha) }
        }
        fn vk_of(v: &$crate::proto::Vk) -> VerifierSRS<$w> {
            VerifierSRS { g: <$w>::g1(v.g), h: <$w>::g2(v.h), g_beta: <$w>::g1(v.g_beta), h_alpha: <$w>::g2(v.h_alpha) }
        }
        impl $crate::proto::Ssm for $name {
            fn transparent(&self) -> bool {
                false
            }
            fn setup(&self, n: usize, alpha: u64, beta: u64, ckt: u64) -> Result<($crate::proto::Srs, $crate::proto::Key, $crate::proto::Vk), String> {
                let mut rng = $crate::rng::Script::new(&[alpha, beta, ckt], <$w>::R);
                let (srs, kt) = P::setup(&mut rng, n).map_err(|e| e.to_string())?;
                $crate::srs_parts!($w, srs, kt)
            }
            fn prove(&self, srs: &$crate::proto::Srs, a: &[u64], b: &[u64], k: &$crate::proto::Key) -> $crate::proto::Proved {
                $crate::proto::Proved::of($crate::explore::guard(|| {
                    P::prove_with_structured_scalar_message(&srs_of(srs), (&vv::<LM>(a), &vv::<RM>(b)), (&vv::<LK>(&k.a), &TK::one(k.t)))
                        .map(|p| ser(&p))
                        .map_err(|e| e.to_string())
                }))
            }
            fn verify(&self, vk: &$crate::proto::Vk, k: &$crate::proto::Key, com: &$crate::proto::Com, scalar: u64, p: &[u8]) -> $crate::proto::Verdict {
                use ark_serialize::CanonicalDeserialize;
                let p = Proof::deserialize_uncompressed_unchecked(p).expect("proof bytes");
                $crate::proto::Verdict::of($crate::explore::guard(|| {
                    P::verify_with_structured_scalar_message(
                        &vk_of(vk),
                        &TK::one(k.t),
                        (&LO::one(com.a), &IO::of(&com.t)),
                        &<$w>::f(scalar),
                        &p,
                    )
                    .map_err(|e| e.to_string())
                }))
            }
        }
    };
}
#[macro_export]
macro_rules! ssm_world {
    ($m:ident, $w:ident, $wm:ident) => {
        pub mod $m {
            use ark_dh_commitments::{afgho16::AFGHOCommitmentG1, identity::IdentityCommitment, pedersen::PedersenCommitment};
            use ark_inner_products::{MultiexponentiationInnerProduct, ScalarInnerProduct};
            #[allow(unused_imports)]
            use $crate::world::$wm::{Fr, $w, G1, G2};
            $crate::ssm_sys!(SsmTransparentScalar, $w, true, false, ScalarInnerProduct<Fr>, PedersenCommitment<G1>, IdentityCommitment<Fr, Fr>);
            $crate::ssm_sys!(SsmTransparentMultiexp, $w, true, false, MultiexponentiationInnerProduct<G1>, AFGHOCommitmentG1<$w>, IdentityCommitment<G1, Fr>);
            $crate::ssm_sys!(SsmTransparentCompact, $w, true, true, ScalarInnerProduct<Fr>, PedersenCommitment<G1>, PedersenCommitment<G2>);
            $crate::ssm_sys!(SsmLogMultiexp, $w, false, false, MultiexponentiationInnerProduct<G1>, AFGHOCommitmentG1<$w>, IdentityCommitment<G1, Fr>);
            $crate::ssm_sys!(SsmLogScalar, $w, false, false, ScalarInnerProduct<Fr>, PedersenCommitment<G2>, IdentityCommitment<Fr, Fr>);
            $crate::ssm_sys!(SsmLogCompact, $w, false, true, MultiexponentiationInnerProduct<G1>, AFGHOCommitmentG1<$w>, AFGHOCommitmentG1<$w>);
            pub static ALL: &[&'static dyn $crate::proto::Ssm] =
                &[&SsmTransparentScalar, &SsmTransparentMultiexp, &SsmTransparentCompact, &SsmLogMultiexp, &SsmLogScalar, &SsmLogCompact];
        }
    };
}
