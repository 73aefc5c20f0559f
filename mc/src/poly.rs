//! Discrete-log level view of the polynomial commitment schemes.
use crate::oracle::mark;
use crate::proto::*;
use crate::refm::*;
use crate::world::mulm;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct PcKey {
    /// Row key: KZG powers (trusted) or first-tier generators (transparent).
    pub g: Vec<u64>,
    /// Powers of the second secret (trusted, 2x+1 of them) or second-tier generators (transparent).
    pub h: Vec<u64>,
    /// Trusted only.
    pub vk: Vk,
}
impl PcKey {
    pub fn trusted(xdeg: usize, ydeg: usize, alpha: u64, beta: u64, r: u64) -> PcKey {
        PcKey { g: powers(alpha, ydeg + 1, r), h: powers(beta, 2 * xdeg + 1, r), vk: Vk { g: 1, h: 1, g_beta: beta, h_alpha: alpha } }
    }
    pub fn transparent(g: Vec<u64>, h: Vec<u64>) -> PcKey {
        PcKey { g, h, vk: Vk { g: 1, h: 1, g_beta: 0, h_alpha: 0 } }
    }
    /// Number of rows.
    pub fn rows(&self, trusted: bool) -> usize {
        if trusted {
            (self.h.len() + 1) / 2
        } else {
            self.h.len()
        }
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct PcProof {
    pub second: Prf,
    pub y: u64,
    /// Transparent only.
    pub first: Prf,
    /// Trusted only.
    pub kzg: u64,
}
impl PcProof {
    pub fn slots(&self, trusted: bool) -> usize {
        prf_slots(&self.second) + 1 + if trusted { 1 } else { prf_slots(&self.first) }
    }
    pub fn slot(&mut self, trusted: bool, i: usize) -> (&mut u64, String) {
        let s = prf_slots(&self.second);
        if i < s {
            let n = format!("second tier {}", prf_slot_name(&self.second, i));
            (prf_slot(&mut self.second, i), n)
        } else if i == s {
            (&mut self.y, "row commitment".into())
        } else if trusted {
            (&mut self.kzg, "KZG opening".into())
        } else {
            let n = format!("first tier {}", prf_slot_name(&self.first, i - s - 1));
            (prf_slot(&mut self.first, i - s - 1), n)
        }
    }
}
pub enum Refused {
    Err(String),
    Panic(String),
}
impl std::fmt::Debug for Refused {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Refused::Err(e) => write!(f, "error: {e}"),
            Refused::Panic(e) => write!(f, "panic: {e}"),
        }
    }
}
pub fn refuse<T>(r: Result<Result<T, String>, String>) -> Result<T, Refused> {
    match r {
        Ok(Ok(x)) => Ok(x),
        Ok(Err(e)) => Err(Refused::Err(e)),
        Err(p) => Err(Refused::Panic(p)),
    }
}
/// One scheme over one world. Commitments are serialized target-group elements.
pub trait Pc: Sync {
    fn name(&self) -> &'static str;
    fn r(&self) -> u64;
    fn trusted(&self) -> bool;
    fn second(&self) -> &'static dyn Ssm;
    fn first(&self) -> &'static dyn Ssm;
    fn com_of(&self, log: u64) -> Vec<u8>;
    fn com_log(&self, b: &[u8]) -> Option<u64>;
    /// Scripted draws `vals` (trusted: alpha, beta).
    fn setup_uni(&self, degree: usize, vals: &[u64]) -> Result<PcKey, Refused>;
    fn setup_bi(&self, x: usize, y: usize, vals: &[u64]) -> Result<PcKey, Refused>;
    fn commit_uni(&self, k: &PcKey, p: &[u64]) -> Result<(Vec<u8>, Vec<u64>), Refused>;
    fn open_uni(&self, k: &PcKey, p: &[u64], rows: &[u64], z: u64) -> Result<Vec<u8>, Refused>;
    fn verify_uni(&self, k: &PcKey, degree: usize, com: &[u8], z: u64, e: u64, p: &[u8]) -> Verdict;
    fn commit_bi(&self, k: &PcKey, p: &[Vec<u64>]) -> Result<(Vec<u8>, Vec<u64>), Refused>;
    fn open_bi(&self, k: &PcKey, p: &[Vec<u64>], rows: &[u64], z: (u64, u64)) -> Result<Vec<u8>, Refused>;
    fn verify_bi(&self, k: &PcKey, com: &[u8], z: (u64, u64), e: u64, p: &[u8]) -> Verdict;
    /// `BivariatePolynomial::evaluate`.
    fn eval_bi(&self, p: &[Vec<u64>], z: (u64, u64)) -> u64;
    fn g1s(&self, v: &[u64]) -> Vec<u8>;
    fn ung1s(&self, b: &[u8], n: usize) -> Option<Vec<u64>>;

    fn enc(&self, p: &PcProof) -> Vec<u8> {
        let mut b = self.second().enc(&p.second);
        b.extend(self.g1s(&[p.y]));
        if self.trusted() {
            b.extend(self.g1s(&[p.kzg]));
        } else {
            b.extend(self.first().enc(&p.first));
        }
        b
    }
    fn dec(&self, b: &[u8]) -> Option<PcProof> {
        let second = self.second().dec(b)?;
        let rest = &b[self.second().enc(&second).len()..];
        if self.trusted() {
            let v = self.ung1s(rest, 2)?;
            Some(PcProof { second, y: v[0], kzg: v[1], first: Prf::default() })
        } else {
            let v = self.ung1s(rest, 1)?;
            let first = self.first().dec(&rest[self.g1s(&[0]).len()..])?;
            Some(PcProof { second, y: v[0], first, kzg: 0 })
        }
    }
    /// Does the proof satisfy every verification equation, under the challenges the tiers' own
    /// verifiers derive?
    fn accepts(&self, k: &PcKey, com: u64, z: (u64, u64), e: u64, p: &PcProof) -> bool {
        let r = self.r();
        let s = self.second();
        let sk = Key { a: k.h.clone(), b: vec![], t: 0 };
        let c = Com { a: com, b: 0, t: vec![p.y] };
        let m = mark();
        s.verify(&k.vk, &sk, &c, z.0, &s.enc(&p.second));
        let (hs, q) = s.challenges(m, p.second.steps.len());
        if !ssm_accepts(s, &k.vk, &sk, &c, z.0, &p.second, &hs, q) {
            return false;
        }
        if self.trusted() {
            return kzg_ok(&k.vk, p.y, z.1, e, p.kzg, r);
        }
        let s = self.first();
        let fk = Key { a: k.g.clone(), b: vec![], t: 0 };
        let c = Com { a: p.y, b: 0, t: vec![e] };
        let m = mark();
        s.verify(&k.vk, &fk, &c, z.1, &s.enc(&p.first));
        let (hs, q) = s.challenges(m, p.first.steps.len());
        ssm_accepts(s, &k.vk, &fk, &c, z.1, &p.first, &hs, q)
    }
}
pub fn kzg_ok(vk: &Vk, com: u64, z: u64, e: u64, proof: u64, r: u64) -> bool {
    mulm(subm(com, mulm(vk.g, e, r), r), vk.h, r) == mulm(proof, subm(vk.h_alpha, mulm(vk.h, z, r), r), r)
}
/// Value of a bivariate polynomial given by its rows (coefficients of powers of y).
pub fn eval2(p: &[Vec<u64>], z: (u64, u64), r: u64) -> u64 {
    let v: Vec<u64> = p.iter().map(|row| eval(row, z.1, r)).collect();
    eval(&v, z.0, r)
}

#[macro_export]
macro_rules! pc_common {
    ($w:ident) => {
        fn r(&self) -> u64 {
            <$w as World>::R
        }
        fn com_of(&self, log: u64) -> Vec<u8> {
            ser(&<$w as World>::gtv(log))
        }
        fn com_log(&self, b: &[u8]) -> Option<u64> {
            <$w as World>::dt(&PairingOutput::deserialize_uncompressed_unchecked(b).ok()?)
        }
        fn g1s(&self, v: &[u64]) -> Vec<u8> {
            v.iter().flat_map(|x| ser(&<$w as World>::g1(*x))).collect()
        }
        fn ung1s(&self, mut b: &[u8], n: usize) -> Option<Vec<u64>> {
            (0..n).map(|_| Some(<$w as World>::d1(&G1::deserialize_uncompressed_unchecked(&mut b).ok()?))).collect()
        }
        fn eval_bi(&self, p: &[Vec<u64>], z: (u64, u64)) -> u64 {
            <$w as World>::fu(&bi(p).evaluate(&(<$w as World>::f(z.0), <$w as World>::f(z.1))))
        }
        fn commit_uni(&self, k: &PcKey, p: &[u64]) -> Result<(Vec<u8>, Vec<u64>), Refused> {
            refuse(guard(|| Uni::commit(&key(k), &uni(p)).map(|x| coms(&x)).map_err(|e| e.to_string())))
        }
        fn open_uni(&self, k: &PcKey, p: &[u64], rows: &[u64], z: u64) -> Result<Vec<u8>, Refused> {
            refuse(guard(|| Uni::open(&key(k), &uni(p), &g1v(rows), &<$w as World>::f(z)).map(|x| ser(&x)).map_err(|e| e.to_string())))
        }
        fn commit_bi(&self, k: &PcKey, p: &[Vec<u64>]) -> Result<(Vec<u8>, Vec<u64>), Refused> {
            refuse(guard(|| Bi::commit(&key(k), &bi(p)).map(|x| coms(&x)).map_err(|e| e.to_string())))
        }
        fn open_bi(&self, k: &PcKey, p: &[Vec<u64>], rows: &[u64], z: (u64, u64)) -> Result<Vec<u8>, Refused> {
            refuse(guard(|| {
                Bi::open(&key(k), &bi(p), &g1v(rows), &(<$w as World>::f(z.0), <$w as World>::f(z.1))).map(|x| ser(&x)).map_err(|e| e.to_string())
            }))
        }
    };
}
#[macro_export]
macro_rules! pc_helpers {
    ($w:ident) => {
        use ark_ec::pairing::PairingOutput;
        use ark_poly::{univariate::DensePolynomial, DenseUVPolynomial};
        use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
        use $crate::explore::guard;
        use $crate::oracle::CD;
        use $crate::poly::{refuse, Pc, PcKey, Refused};
        use $crate::proto::{Ssm, Verdict, Vk};
        use $crate::world::World;
        fn ser<T: CanonicalSerialize>(x: &T) -> Vec<u8> {
            let mut b = vec![];
            x.serialize_uncompressed(&mut b).unwrap();
            b
        }
        fn g1v(v: &[u64]) -> Vec<G1> {
            v.iter().map(|x| <$w as World>::g1(*x)).collect()
        }
        fn g2v(v: &[u64]) -> Vec<G2> {
            v.iter().map(|x| <$w as World>::g2(*x)).collect()
        }
        fn uni(p: &[u64]) -> DensePolynomial<Fr> {
            DensePolynomial::from_coefficients_vec(p.iter().map(|x| <$w as World>::f(*x)).collect())
        }
        fn coms(x: &(PairingOutput<$w>, Vec<G1>)) -> (Vec<u8>, Vec<u64>) {
            (ser(&x.0), x.1.iter().map(|g| <$w as World>::d1(g)).collect())
        }
        fn bi(p: &[Vec<u64>]) -> BiPoly {
            let v: Vec<DensePolynomial<Fr>> = p.iter().map(|r| uni(r)).collect();
            BiPoly::deserialize_uncompressed_unchecked(&ser(&v)[..]).unwrap()
        }
    };
}
#[macro_export]
macro_rules! pc_world {
    ($m:ident, $w:ident, $wm:ident) => {
        pub mod $m {
            $crate::ssm_world!(ssm, $w, $wm);
            use $crate::world::$wm::{Fr, $w, G1, G2};
            pub struct Trusted;
            pub struct Transparent;
            const _: () = {
                $crate::pc_helpers!($w);
                use ark_ip_proofs::applications::poly_commit as pc;
                use ark_ip_proofs::tipa::{VerifierSRS, SRS};
                type BiPoly = pc::BivariatePolynomial<Fr>;
                type Uni = pc::UnivariatePolynomialCommitment<$w, CD>;
                type Bi = pc::BivariatePolynomialCommitment<$w, CD>;
                fn key(k: &PcKey) -> (SRS<$w>, Vec<G1>) {
                    (
                        SRS {
                            g_alpha_powers: g1v(&[k.vk.g]),
                            h_beta_powers: g2v(&k.h),
                            g_beta: <$w as World>::g1(k.vk.g_beta),
                            h_alpha: <$w as World>::g2(k.vk.h_alpha),
                        },
                        g1v(&k.g),
                    )
                }
                fn vkey(k: &PcKey) -> VerifierSRS<$w> {
                    VerifierSRS {
                        g: <$w as World>::g1(k.vk.g),
                        h: <$w as World>::g2(k.vk.h),
                        g_beta: <$w as World>::g1(k.vk.g_beta),
                        h_alpha: <$w as World>::g2(k.vk.h_alpha),
                    }
                }
                fn unkey(s: (SRS<$w>, Vec<G1>)) -> PcKey {
                    let v = s.0.get_verifier_key();
                    PcKey {
                        g: s.1.iter().map(|x| <$w as World>::d1(x)).collect(),
                        h: s.0.h_beta_powers.iter().map(|x| <$w as World>::d2(x)).collect(),
                        vk: Vk { g: <$w as World>::d1(&v.g), h: <$w as World>::d2(&v.h), g_beta: <$w as World>::d1(&v.g_beta), h_alpha: <$w as World>::d2(&v.h_alpha) },
                    }
                }
                impl Pc for Trusted {
                    $crate::pc_common!($w);
                    fn name(&self) -> &'static str {
                        "Trusted"
                    }
                    fn trusted(&self) -> bool {
                        true
                    }
                    fn second(&self) -> &'static dyn Ssm {
                        &ssm::SsmLogMultiexp
                    }
                    fn first(&self) -> &'static dyn Ssm {
                        unreachable!()
                    }
                    fn setup_uni(&self, degree: usize, vals: &[u64]) -> Result<PcKey, Refused> {
                        refuse(guard(|| Uni::setup(&mut $crate::rng::Script::new(vals, <$w as World>::R), degree).map(unkey).map_err(|e| e.to_string())))
                    }
                    fn setup_bi(&self, x: usize, y: usize, vals: &[u64]) -> Result<PcKey, Refused> {
                        refuse(guard(|| Bi::setup(&mut $crate::rng::Script::new(vals, <$w as World>::R), x, y).map(unkey).map_err(|e| e.to_string())))
                    }
                    fn verify_uni(&self, k: &PcKey, degree: usize, com: &[u8], z: u64, e: u64, p: &[u8]) -> Verdict {
                        let com = PairingOutput::deserialize_uncompressed_unchecked(com).unwrap();
                        let p = pc::OpeningProof::<$w, CD>::deserialize_uncompressed_unchecked(p).expect("proof bytes");
                        Verdict::of(guard(|| Uni::verify(&vkey(k), degree, &com, &<$w as World>::f(z), &<$w as World>::f(e), &p).map_err(|e| e.to_string())))
                    }
                    fn verify_bi(&self, k: &PcKey, com: &[u8], z: (u64, u64), e: u64, p: &[u8]) -> Verdict {
                        let com = PairingOutput::deserialize_uncompressed_unchecked(com).unwrap();
                        let p = pc::OpeningProof::<$w, CD>::deserialize_uncompressed_unchecked(p).expect("proof bytes");
                        Verdict::of(guard(|| {
                            Bi::verify(&vkey(k), &com, &(<$w as World>::f(z.0), <$w as World>::f(z.1)), &<$w as World>::f(e), &p).map_err(|e| e.to_string())
                        }))
                    }
                }
            };
            const _: () = {
                $crate::pc_helpers!($w);
                use ark_ip_proofs::applications::poly_commit::transparent as pc;
                type BiPoly = pc::BivariatePolynomial<Fr>;
                type Uni = pc::UnivariatePolynomialCommitment<$w, CD>;
                type Bi = pc::BivariatePolynomialCommitment<$w, CD>;
                fn key(k: &PcKey) -> (Vec<G1>, Vec<G2>) {
                    (g1v(&k.g), g2v(&k.h))
                }
                fn unkey(s: (Vec<G1>, Vec<G2>)) -> PcKey {
                    PcKey::transparent(s.0.iter().map(|x| <$w as World>::d1(x)).collect(), s.1.iter().map(|x| <$w as World>::d2(x)).collect())
                }
                #[allow(unused)]
                fn _vk(_: Vk) {}
                impl Pc for Transparent {
                    $crate::pc_common!($w);
                    fn name(&self) -> &'static str {
                        "Transparent"
                    }
                    fn trusted(&self) -> bool {
                        false
                    }
                    fn second(&self) -> &'static dyn Ssm {
                        &ssm::SsmTransparentMultiexp
                    }
                    fn first(&self) -> &'static dyn Ssm {
                        &ssm::SsmTransparentScalar
                    }
                    fn setup_uni(&self, degree: usize, vals: &[u64]) -> Result<PcKey, Refused> {
                        refuse(guard(|| Uni::setup(&mut $crate::rng::Script::new(vals, <$w as World>::R), degree).map(unkey).map_err(|e| e.to_string())))
                    }
                    fn setup_bi(&self, x: usize, y: usize, vals: &[u64]) -> Result<PcKey, Refused> {
                        refuse(guard(|| Bi::setup(&mut $crate::rng::Script::new(vals, <$w as World>::R), x, y).map(unkey).map_err(|e| e.to_string())))
                    }
                    fn verify_uni(&self, k: &PcKey, _degree: usize, com: &[u8], z: u64, e: u64, p: &[u8]) -> Verdict {
                        let com = PairingOutput::deserialize_uncompressed_unchecked(com).unwrap();
                        let p = pc::OpeningProof::<$w, CD>::deserialize_uncompressed_unchecked(p).expect("proof bytes");
                        Verdict::of(guard(|| Uni::verify(&key(k), &com, &<$w as World>::f(z), &<$w as World>::f(e), &p).map_err(|e| e.to_string())))
                    }
                    fn verify_bi(&self, k: &PcKey, com: &[u8], z: (u64, u64), e: u64, p: &[u8]) -> Verdict {
                        let com = PairingOutput::deserialize_uncompressed_unchecked(com).unwrap();
                        let p = pc::OpeningProof::<$w, CD>::deserialize_uncompressed_unchecked(p).expect("proof bytes");
                        Verdict::of(guard(|| {
                            Bi::verify(&key(k), &com, &(<$w as World>::f(z.0), <$w as World>::f(z.1)), &<$w as World>::f(e), &p).map_err(|e| e.to_string())
                        }))
                    }
                }
            };
        }
    };
}
