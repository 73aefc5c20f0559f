//! Discrete-log level view of the Groth16 aggregation.
use crate::oracle::{bytes_since, mark};
use crate::proto::*;
use crate::refm::*;
use crate::world::{invm, mulm};

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct GVk {
    pub alpha: u64,
    pub beta: u64,
    pub gamma: u64,
    pub delta: u64,
    pub abc: Vec<u64>,
}
impl GVk {
    pub fn flat(&self) -> Vec<u64> {
        [&[self.alpha, self.beta, self.gamma, self.delta], &self.abc[..]].concat()
    }
    pub fn ic(&self, x: &[u64], r: u64) -> u64 {
        addm(self.abc[0], dot(&self.abc[1..], x, r), r)
    }
    /// e(a,b) - e(alpha,beta) - e(ic,gamma) - e(c,delta)
    pub fn defect(&self, p: G16, x: &[u64], r: u64) -> u64 {
        let rhs = addm(mulm(self.alpha, self.beta, r), addm(mulm(self.ic(x, r), self.gamma, r), mulm(p.2, self.delta, r), r), r);
        subm(mulm(p.0, p.1, r), rhs, r)
    }
    /// The c that makes (a, b, c) valid.
    pub fn complete(&self, a: u64, b: u64, x: &[u64], r: u64) -> Option<G16> {
        let e = self.defect((a, b, 0), x, r);
        if self.delta == 0 {
            return (e == 0).then_some((a, b, 1 % r));
        }
        Some((a, b, mulm(e, invm(self.delta, r), r)))
    }
}
pub type G16 = (u64, u64, u64);

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Agg {
    /// com_a, com_b, com_c, ip_ab, agg_c
    pub v: [u64; 5],
    pub ab: Prf,
    pub c: Prf,
}
impl Agg {
    pub fn slots(&self) -> usize {
        5 + prf_slots(&self.ab) + prf_slots(&self.c)
    }
    pub fn slot(&mut self, i: usize) -> (&mut u64, String) {
        let s = prf_slots(&self.ab);
        if i < 5 {
            (&mut self.v[i], ["com_a", "com_b", "com_c", "ip_ab", "agg_c"][i].into())
        } else if i < 5 + s {
            let n = format!("ab {}", prf_slot_name(&self.ab, i - 5));
            (prf_slot(&mut self.ab, i - 5), n)
        } else {
            let n = format!("c {}", prf_slot_name(&self.c, i - 5 - s));
            (prf_slot(&mut self.c, i - 5 - s), n)
        }
    }
    pub fn com_ab(&self) -> Com {
        Com { a: self.v[0], b: self.v[1], t: vec![self.v[3]] }
    }
    pub fn com_c(&self) -> Com {
        Com { a: self.v[2], b: 0, t: vec![self.v[4]] }
    }
}
/// Runs the verifier's own sub-argument on a candidate transcript and returns its challenges.
type Run<'a> = &'a dyn Fn(&Prf) -> (Vec<u64>, Option<u64>);

/// An honest transcript under the challenges the verifier derives, built round by round.
pub fn build_prf(s: &dyn Base, run: Run, a: &[u64], b: &[u64], k: &Key, srs: &Srs, shift: u64, ssm: bool) -> Option<Prf> {
    let rounds = a.len().trailing_zeros() as usize;
    let zero = || Com { a: 0, b: 0, t: s.tcom(0, 0) };
    let mut p = Prf { steps: vec![(zero(), zero()); rounds], base: (1, 1), fck: (1, 1), open: (1, 1) };
    for j in 0..=rounds {
        let (hs, z) = run(&p);
        if hs.len() != rounds || z.is_none() {
            return None;
        }
        let q = gipa_prover(s, a, b, k, &hs, ssm);
        if j < rounds {
            p.steps[rounds - 1 - j] = q.steps[rounds - 1 - j].clone();
        }
        p.base = q.base;
        p.fck = q.fck;
        if j == rounds {
            let (hs, z) = run(&p);
            p.open = tipa_openings(srs, &hs, z?, shift, s.r());
        }
    }
    if ssm {
        // not part of the structured-scalar proof
        p.fck.1 = 0;
        p.open.1 = 0;
    }
    Some(p)
}

pub trait Groth: Sync {
    fn name(&self) -> &'static str;
    fn r(&self) -> u64;
    fn tipa(&self) -> &'static dyn Tipa;
    fn ssm(&self) -> &'static dyn Ssm;
    fn setup(&self, n: usize, alpha: u64, beta: u64) -> Result<(Srs, Vk), String>;
    fn aggregate(&self, srs: &Srs, p: &[G16]) -> Proved;
    fn verify(&self, vk: &Vk, g: &GVk, x: &[Vec<u64>], p: &[u8]) -> Verdict;
    fn gts(&self, v: &[u64]) -> Vec<u8>;
    fn ungt(&self, b: &mut &[u8]) -> Option<u64>;
    fn g1(&self, v: u64) -> Vec<u8>;
    fn ung1(&self, b: &mut &[u8]) -> Option<u64>;

    fn enc(&self, a: &Agg) -> Vec<u8> {
        [self.gts(&a.v[..4]), self.g1(a.v[4]), self.tipa().enc(&a.ab), self.ssm().enc(&a.c)].concat()
    }
    fn dec(&self, mut b: &[u8]) -> Option<Agg> {
        let mut v = [0; 5];
        for x in v.iter_mut().take(4) {
            *x = self.ungt(&mut b)?;
        }
        v[4] = self.ung1(&mut b)?;
        let ab = self.tipa().dec(b)?;
        let c = self.ssm().dec(&b[self.tipa().enc(&ab).len()..])?;
        Some(Agg { v, ab, c })
    }
    /// Combination challenge drawn first by the call that started at `m`.
    fn combination(&self, m: usize) -> Option<u64> {
        bytes_since(m).iter().find_map(|d| self.tipa().fval(d))
    }
    fn run_ab(&self, vk: &Vk, a: &Agg, rho: u64, p: &Prf) -> (Vec<u64>, Option<u64>) {
        let (s, m) = (self.tipa(), mark());
        s.verify(vk, 0, &a.com_ab(), &s.enc(p), Some(rho));
        s.challenges(m, p.steps.len())
    }
    fn run_c(&self, vk: &Vk, a: &Agg, rho: u64, p: &Prf) -> (Vec<u64>, Option<u64>) {
        let (s, m) = (self.ssm(), mark());
        s.verify(vk, &Key::default(), &a.com_c(), rho, &s.enc(p));
        s.challenges(m, p.steps.len())
    }
    fn equation(&self, g: &GVk, x: &[Vec<u64>], a: &Agg, rho: u64) -> bool {
        let r = self.r();
        let pw = powers(rho, x.len(), r);
        let sum = pw.iter().fold(0, |s, p| addm(s, *p, r));
        let ics: Vec<u64> = x.iter().map(|x| g.ic(x, r)).collect();
        let rhs = addm(
            mulm(mulm(g.alpha, sum, r), g.beta, r),
            addm(mulm(dot(&ics, &pw, r), g.gamma, r), mulm(a.v[4], g.delta, r), r),
            r,
        );
        a.v[3] == rhs
    }
    /// Reference verdict given the combination challenge.
    fn accepts(&self, vk: &Vk, g: &GVk, x: &[Vec<u64>], a: &Agg, rho: u64) -> bool {
        if x.is_empty() || g.abc.is_empty() || x.iter().any(|x| x.len() + 1 != g.abc.len()) {
            return false;
        }
        if !self.equation(g, x, a, rho) {
            return false;
        }
        let (hs, z) = self.run_ab(vk, a, rho, &a.ab);
        if !tipa_accepts(self.tipa(), vk, 0, &a.com_ab(), &a.ab, rho, &hs, z) {
            return false;
        }
        let (hs, z) = self.run_c(vk, a, rho, &a.c);
        ssm_accepts(self.ssm(), vk, &Key::default(), &a.com_c(), rho, &a.c, &hs, z)
    }
    /// What an honest party sends under `rho` and the challenges the verifier derives on aggregate `x`.
    fn replay(&self, srs: &Srs, p: &[G16], x: &Agg, rho: u64) -> Option<Agg> {
        let r = self.r();
        let (a, b, c): (Vec<u64>, Vec<u64>, Vec<u64>) = (p.iter().map(|p| p.0).collect(), p.iter().map(|p| p.1).collect(), p.iter().map(|p| p.2).collect());
        let (k, vk) = (srs.key(0), srs.vk());
        let pw = powers(rho, p.len(), r);
        let ar = had(&a, &pw, r);
        let mut g = Agg { v: [dot(&a, &k.a, r), dot(&k.b, &b, r), dot(&c, &k.a, r), dot(&ar, &b, r), dot(&c, &pw, r)], ..Default::default() };
        let ks = Key { a: had(&k.a, &powers(invm(rho, r), p.len(), r), r), b: k.b.clone(), t: 0 };
        let (hs, z) = self.run_ab(&vk, x, rho, &x.ab);
        g.ab = gipa_prover(self.tipa(), &ar, &b, &ks, &hs, false);
        g.ab.open = tipa_openings(srs, &hs, z?, rho, r);
        let (hs, z) = self.run_c(&vk, x, rho, &x.c);
        g.c = gipa_prover(self.ssm(), &c, &pw, &k, &hs, true);
        g.c.open = tipa_openings(srs, &hs, z?, 1, r);
        Some(g)
    }
    /// Aggregate an honest party computes; `rho` maps the commitments to the combination challenge.
    fn model(&self, srs: &Srs, p: &[G16], rho: &dyn Fn(&Agg) -> Option<u64>) -> Option<(Agg, u64)> {
        let r = self.r();
        let (a, b, c): (Vec<u64>, Vec<u64>, Vec<u64>) = (p.iter().map(|p| p.0).collect(), p.iter().map(|p| p.1).collect(), p.iter().map(|p| p.2).collect());
        let (k, vk) = (srs.key(0), srs.vk());
        let mut g = Agg { v: [dot(&a, &k.a, r), dot(&k.b, &b, r), dot(&c, &k.a, r), 0, 0], ..Default::default() };
        let rho = rho(&g)?;
        let pw = powers(rho, p.len(), r);
        let ar = had(&a, &pw, r);
        g.v[3] = dot(&ar, &b, r);
        g.v[4] = dot(&c, &pw, r);
        let ks = Key { a: had(&k.a, &powers(invm(rho, r), p.len(), r), r), b: k.b.clone(), t: 0 };
        g.ab = build_prf(self.tipa(), &|q| self.run_ab(&vk, &g, rho, q), &ar, &b, &ks, srs, rho, false)?;
        g.c = build_prf(self.ssm(), &|q| self.run_c(&vk, &g, rho, q), &c, &pw, &k, srs, 1, true)?;
        Some((g, rho))
    }
}

#[macro_export]
macro_rules! groth_world {
    ($m:ident, $w:ident, $wm:ident) => {
        pub mod $m {
            $crate::tipa_world!(tipa, $w, $wm);
            $crate::ssm_world!(ssm, $w, $wm);
            use ark_ec::pairing::PairingOutput;
            use ark_groth16::{Proof, VerifyingKey};
            use ark_ip_proofs::applications::groth16_aggregation as ga;
            use ark_ip_proofs::tipa::{VerifierSRS, SRS};
            use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
            use $crate::explore::guard;
            use $crate::groth::{GVk, Groth, G16};
            use $crate::oracle::CD;
            use $crate::proto::{Proved, Srs, Ssm, Tipa, Verdict, Vk};
            #[allow(unused_imports)]
            use $crate::world::{
                $wm::{Fr, $w, G1, G2},
                World,
            };
            pub struct Aggregation;
            fn srs_of(s: &Srs) -> SRS<$w> {
                SRS {
                    g_alpha_powers: s.g_alpha.iter().map(|x| <$w>::g1(*x)).collect(),
                    h_beta_powers: s.h_beta.iter().map(|x| <$w>::g2(*x)).collect(),
                    g_beta: <$w>::g1(s.g_beta),
                    h_alpha: <$w>::g2(s.h_alpha),
                }
            }
            fn ser<T: CanonicalSerialize>(x: &T) -> Vec<u8> {
                let mut b = vec![];
                x.serialize_uncompressed(&mut b).unwrap();
                b
            }
            impl Groth for Aggregation {
                fn name(&self) -> &'static str {
                    "Aggregation"
                }
                fn r(&self) -> u64 {
                    <$w as World>::R
                }
                fn tipa(&self) -> &'static dyn Tipa {
                    &tipa::TipaPairing
                }
                fn ssm(&self) -> &'static dyn Ssm {
                    &ssm::SsmLogMultiexp
                }
                fn setup(&self, n: usize, alpha: u64, beta: u64) -> Result<(Srs, Vk), String> {
                    let mut rng = $crate::rng::Script::new(&[alpha, beta], <$w>::R);
                    let s = ga::setup_inner_product::<$w, CD, _>(&mut rng, n).map_err(|e| e.to_string())?;
                    let v = s.get_verifier_key();
                    Ok((
                        Srs {
                            g_alpha: s.g_alpha_powers.iter().map(|x| <$w>::d1(x)).collect(),
                            h_beta: s.h_beta_powers.iter().map(|x| <$w>::d2(x)).collect(),
                            g_beta: <$w>::d1(&s.g_beta),
                            h_alpha: <$w>::d2(&s.h_alpha),
                        },
                        Vk { g: <$w>::d1(&v.g), h: <$w>::d2(&v.h), g_beta: <$w>::d1(&v.g_beta), h_alpha: <$w>::d2(&v.h_alpha) },
                    ))
                }
                fn aggregate(&self, srs: &Srs, p: &[G16]) -> Proved {
                    let ps: Vec<Proof<$w>> = p.iter().map(|p| Proof { a: <$w>::a1(p.0), b: <$w>::a2(p.1), c: <$w>::a1(p.2) }).collect();
                    Proved::of(guard(|| ga::aggregate_proofs::<$w, CD>(&srs_of(srs), &ps).map(|p| ser(&p)).map_err(|e| e.to_string())))
                }
                fn verify(&self, v: &Vk, g: &GVk, x: &[Vec<u64>], p: &[u8]) -> Verdict {
                    let vk = VerifierSRS { g: <$w>::g1(v.g), h: <$w>::g2(v.h), g_beta: <$w>::g1(v.g_beta), h_alpha: <$w>::g2(v.h_alpha) };
                    let gv = VerifyingKey::<$w> {
                        alpha_g1: <$w>::a1(g.alpha),
                        beta_g2: <$w>::a2(g.beta),
                        gamma_g2: <$w>::a2(g.gamma),
                        delta_g2: <$w>::a2(g.delta),
                        gamma_abc_g1: g.abc.iter().map(|x| <$w>::a1(*x)).collect(),
                    };
                    let x: Vec<Vec<Fr>> = x.iter().map(|x| x.iter().map(|x| <$w>::f(*x)).collect()).collect();
                    let p = ga::AggregateProof::<$w, CD>::deserialize_uncompressed_unchecked(p).expect("proof bytes");
                    Verdict::of(guard(|| ga::verify_aggregate_proof::<$w, CD>(&vk, &gv, &x, &p).map_err(|e| e.to_string())))
                }
                fn gts(&self, v: &[u64]) -> Vec<u8> {
                    v.iter().flat_map(|x| ser(&<$w as World>::gtv(*x))).collect()
                }
                fn ungt(&self, b: &mut &[u8]) -> Option<u64> {
                    <$w as World>::dt(&PairingOutput::<$w>::deserialize_uncompressed_unchecked(b).ok()?)
                }
                fn g1(&self, v: u64) -> Vec<u8> {
                    ser(&<$w as World>::g1(v))
                }
                fn ung1(&self, b: &mut &[u8]) -> Option<u64> {
                    Some(<$w as World>::d1(&G1::deserialize_uncompressed_unchecked(b).ok()?))
                }
            }
        }
    };
}
