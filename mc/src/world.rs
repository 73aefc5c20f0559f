//! Tiny transparent pairing worlds: G1 and G2 are copies of the scalar field (discrete logs are
//! visible to the checker), the target group is the order-r subgroup of F_{q^2}.
use ark_ec::pairing::{Pairing, PairingOutput};
use ark_ff::PrimeField;

pub trait World: Pairing + Default {
    const R: u64;
    const NAME: &'static str;
    fn f(v: u64) -> Self::ScalarField;
    fn fu(f: &Self::ScalarField) -> u64;
    fn g1(v: u64) -> Self::G1;
    fn g2(v: u64) -> Self::G2;
    fn a1(v: u64) -> Self::G1Affine;
    fn a2(v: u64) -> Self::G2Affine;
    fn d1(g: &Self::G1) -> u64;
    fn d2(g: &Self::G2) -> u64;
    fn gtv(v: u64) -> PairingOutput<Self>;
    /// Discrete log in the target group (tiny worlds only).
    fn dt(t: &PairingOutput<Self>) -> Option<u64>;
}

pub fn mulm(a: u64, b: u64, r: u64) -> u64 {
    (a as u128 * b as u128 % r as u128) as u64
}
pub fn powm(mut a: u64, mut e: u64, r: u64) -> u64 {
    let mut x = 1 % r;
    a %= r;
    while e > 0 {
        if e & 1 == 1 {
            x = mulm(x, a, r);
        }
        a = mulm(a, a, r);
        e >>= 1;
    }
    x
}
pub fn invm(a: u64, r: u64) -> u64 {
    powm(a, r - 2, r)
}
pub fn fr_of<F: PrimeField>(v: u64) -> F {
    F::from(v)
}

#[macro_export]
macro_rules! tiny_group {
    ($g:ident, $fr:ident, $tag:expr) => {
        #[derive(Copy, Clone, PartialEq, Eq, Hash, Debug, Default, PartialOrd, Ord)]
        pub struct $g(pub $fr);

        impl core::fmt::Display for $g {
            fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
                write!(f, "{}", self.0)
            }
        }
        impl zeroize::Zeroize for $g {
            fn zeroize(&mut self) {
                self.0.zeroize()
            }
        }
        impl Zero for $g {
            fn zero() -> Self {
                $g($fr::zero())
            }
            fn is_zero(&self) -> bool {
                self.0.is_zero()
            }
        }
        impl ark_std::rand::distributions::Distribution<$g> for ark_std::rand::distributions::Standard {
            fn sample<R: ark_std::rand::Rng + ?Sized>(&self, rng: &mut R) -> $g {
                $g($fr::rand(rng))
            }
        }
        impl CanonicalSerialize for $g {
            fn serialize_with_mode<W: Write>(&self, mut w: W, c: Compress) -> Result<(), SerializationError> {
                if let Compress::No = c {
                    w.write_all(&[$tag])?;
                }
                self.0.serialize_with_mode(w, c)
            }
            fn serialized_size(&self, c: Compress) -> usize {
                self.0.serialized_size(c) + if let Compress::No = c { 1 } else { 0 }
            }
        }
        impl Valid for $g {
            fn check(&self) -> Result<(), SerializationError> {
                Ok(())
            }
        }
        impl CanonicalDeserialize for $g {
            fn deserialize_with_mode<R: Read>(mut r: R, c: Compress, v: Validate) -> Result<Self, SerializationError> {
                if let Compress::No = c {
                    let mut b = [0u8; 1];
                    r.read_exact(&mut b)?;
                    if b[0] != $tag {
                        return Err(SerializationError::InvalidData);
                    }
                }
                Ok($g($fr::deserialize_with_mode(r, c, v)?))
            }
        }
        impl Neg for $g {
            type Output = $g;
            fn neg(self) -> $g {
                $crate::yield_point();
                $g(-self.0)
            }
        }
        impl Add<$g> for $g {
            type Output = $g;
            fn add(self, o: $g) -> $g {
                $crate::yield_point();
                $g(self.0 + o.0)
            }
        }
        impl<'a> Add<&'a $g> for $g {
            type Output = $g;
            fn add(self, o: &'a $g) -> $g {
                $crate::yield_point();
                $g(self.0 + o.0)
            }
        }
        impl Sub<$g> for $g {
            type Output = $g;
            fn sub(self, o: $g) -> $g {
                $crate::yield_point();
                $g(self.0 - o.0)
            }
        }
        impl<'a> Sub<&'a $g> for $g {
            type Output = $g;
            fn sub(self, o: &'a $g) -> $g {
                $crate::yield_point();
                $g(self.0 - o.0)
            }
        }
        impl AddAssign<$g> for $g {
            fn add_assign(&mut self, o: $g) {
                $crate::yield_point();
                self.0 += o.0
            }
        }
        impl<'a> AddAssign<&'a $g> for $g {
            fn add_assign(&mut self, o: &'a $g) {
                $crate::yield_point();
                self.0 += o.0
            }
        }
        impl SubAssign<$g> for $g {
            fn sub_assign(&mut self, o: $g) {
                $crate::yield_point();
                self.0 -= o.0
            }
        }
        impl<'a> SubAssign<&'a $g> for $g {
            fn sub_assign(&mut self, o: &'a $g) {
                $crate::yield_point();
                self.0 -= o.0
            }
        }
        impl<T: core::borrow::Borrow<$fr>> Mul<T> for $g {
            type Output = $g;
            fn mul(self, o: T) -> $g {
                $crate::yield_point();
                $g(self.0 * *o.borrow())
            }
        }
        impl<T: core::borrow::Borrow<$fr>> MulAssign<T> for $g {
            fn mul_assign(&mut self, o: T) {
                $crate::yield_point();
                self.0 *= *o.borrow()
            }
        }
        impl core::iter::Sum<$g> for $g {
            fn sum<I: Iterator<Item = $g>>(i: I) -> $g {
                i.fold($g($fr::zero()), |a, b| a + b)
            }
        }
        impl<'a> core::iter::Sum<&'a $g> for $g {
            fn sum<I: Iterator<Item = &'a $g>>(i: I) -> $g {
                i.fold($g($fr::zero()), |a, b| a + b)
            }
        }
        impl<'a> From<&'a $g> for $g {
            fn from(g: &'a $g) -> $g {
                *g
            }
        }
        impl Group for $g {
            type ScalarField = $fr;
            fn generator() -> Self {
                $g($fr::one())
            }
            fn double_in_place(&mut self) -> &mut Self {
                $crate::yield_point();
                self.0.double_in_place();
                self
            }
            fn mul_bigint(&self, other: impl AsRef<[u64]>) -> Self {
                let mut s = $fr::zero();
                for limb in other.as_ref().iter().rev() {
                    for i in (0..64).rev() {
                        s.double_in_place();
                        if (limb >> i) & 1 == 1 {
                            s += $fr::one();
                        }
                    }
                }
                $g(self.0 * s)
            }
        }
        impl ScalarMul for $g {
            type MulBase = $g;
            const NEGATION_IS_CHEAP: bool = true;
            fn batch_convert_to_mul_base(bases: &[Self]) -> Vec<Self> {
                bases.to_vec()
            }
        }
        impl VariableBaseMSM for $g {
            fn msm_unchecked(bases: &[Self], scalars: &[$fr]) -> Self {
                bases.iter().zip(scalars).map(|(b, s)| *b * s).sum()
            }
            fn msm_bigint(bases: &[Self], bigints: &[<$fr as PrimeField>::BigInt]) -> Self {
                bases.iter().zip(bigints).map(|(b, s)| <$g as Group>::mul_bigint(b, s)).sum()
            }
        }
        impl CurveConfig for $g {
            type BaseField = $fr;
            type ScalarField = $fr;
            const COFACTOR: &'static [u64] = &[1];
            const COFACTOR_INV: $fr = <$fr as Field>::ONE;
        }
        impl CurveGroup for $g {
            type Config = $g;
            type BaseField = $fr;
            type Affine = $g;
            type FullGroup = $g;
            fn normalize_batch(v: &[Self]) -> Vec<Self> {
                v.to_vec()
            }
        }
        impl AffineRepr for $g {
            type Config = $g;
            type ScalarField = $fr;
            type BaseField = $fr;
            type Group = $g;
            fn xy(&self) -> Option<(&$fr, &$fr)> {
                if self.0.is_zero() {
                    None
                } else {
                    Some((&self.0, &self.0))
                }
            }
            fn zero() -> Self {
                $g($fr::zero())
            }
            fn generator() -> Self {
                $g($fr::one())
            }
            fn from_random_bytes(b: &[u8]) -> Option<Self> {
                $fr::from_random_bytes(b).map($g)
            }
            fn mul_bigint(&self, by: impl AsRef<[u64]>) -> Self {
                <$g as Group>::mul_bigint(self, by)
            }
            fn clear_cofactor(&self) -> Self {
                *self
            }
            fn mul_by_cofactor_to_group(&self) -> Self {
                *self
            }
        }
    };
}

#[macro_export]
macro_rules! tiny_world {
    ($m:ident, $w:ident, $r:expr, $rs:expr, $rg:expr, $qs:expr, $qg:expr, $rl:expr, $ql:expr, $fqt:ident, $tiny:expr) => {
        pub mod $m {
            use ark_ec::pairing::{MillerLoopOutput, Pairing, PairingOutput};
            use ark_ec::{
                scalar_mul::{variable_base::VariableBaseMSM, ScalarMul},
                AffineRepr, CurveConfig, CurveGroup, Group,
            };
            use ark_ff::{
                fields::{Fp2, Fp2Config, Fp64, MontBackend, MontConfig},
                BigInt,
                Field, MontFp, One, PrimeField, UniformRand, Zero,
            };
            use ark_serialize::{
                CanonicalDeserialize, CanonicalSerialize, Compress, Read, SerializationError, Valid, Validate, Write,
            };
            use core::ops::*;
            use std::sync::OnceLock;

            #[derive(MontConfig)]
            #[modulus = $rs]
            #[generator = $rg]
            pub struct FrBase;
            /// `FrBase` with its multiplications counted (in the large world).
            pub struct FrConfig;
            type Plain = Fp64<MontBackend<FrBase, 1>>;
            impl MontConfig<1> for FrConfig {
                const MODULUS: BigInt<1> = FrBase::MODULUS;
                const GENERATOR: Fr = Fr::new_unchecked(FrBase::GENERATOR.0);
                const TWO_ADIC_ROOT_OF_UNITY: Fr = Fr::new_unchecked(FrBase::TWO_ADIC_ROOT_OF_UNITY.0);
                #[inline]
                fn mul_assign(a: &mut Fr, b: &Fr) {
                    if !$tiny {
                        $crate::cost::mul();
                    }
                    let mut x = Plain::new_unchecked(a.0);
                    FrBase::mul_assign(&mut x, &Plain::new_unchecked(b.0));
                    a.0 = x.0;
                }
                #[inline]
                fn square_in_place(a: &mut Fr) {
                    if !$tiny {
                        $crate::cost::mul();
                    }
                    let mut x = Plain::new_unchecked(a.0);
                    FrBase::square_in_place(&mut x);
                    a.0 = x.0;
                }
                #[inline]
                fn inverse(a: &Fr) -> Option<Fr> {
                    if !$tiny {
                        $crate::cost::mul();
                    }
                    FrBase::inverse(&Plain::new_unchecked(a.0)).map(|x| Fr::new_unchecked(x.0))
                }
            }
            pub type Fr = Fp64<MontBackend<FrConfig, $rl>>;

            #[derive(MontConfig)]
            #[modulus = $qs]
            #[generator = $qg]
            pub struct FqConfig;
            pub type Fq = ark_ff::fields::$fqt<MontBackend<FqConfig, $ql>>;

            pub struct Fq2Config;
            impl Fp2Config for Fq2Config {
                type Fp = Fq;
                const NONRESIDUE: Fq = MontFp!("-1");
                const FROBENIUS_COEFF_FP2_C1: &'static [Fq] = &[MontFp!("1"), MontFp!("-1")];
            }
            pub type Fq2 = Fp2<Fq2Config>;

            $crate::tiny_group!(G1, Fr, 0xa1);
            $crate::tiny_group!(G2, Fr, 0xa2);

            #[derive(Copy, Clone, Debug, PartialEq, Eq, Default, PartialOrd, Ord, Hash)]
            pub struct $w;

            const R: u64 = $r;

            fn q() -> u128 {
                let b = Fq::MODULUS;
                let l = b.as_ref();
                l[0] as u128 | (*l.get(1).unwrap_or(&0) as u128) << 64
            }
            /// (q^2 - 1) / r as limbs; r | q + 1.
            fn cof() -> [u64; 3] {
                let k = (q() + 1) / R as u128;
                let qm = q() - 1;
                // k is small in every world
                let lo = (qm as u64 as u128) * k;
                let hi = (qm >> 64) * k + (lo >> 64);
                [lo as u64, hi as u64, (hi >> 64) as u64]
            }
            struct Consts {
                mu: Fq2,
                zeta: Fq2,
                table: Vec<Fq2>,
                cof: [u64; 3],
            }
            fn consts() -> &'static Consts {
                static C: OnceLock<Consts> = OnceLock::new();
                C.get_or_init(|| {
                    let c = cof();
                    let mut i = 1u64;
                    loop {
                        let mu = Fq2::new(Fq::from(i), Fq::from(2 * i + 1));
                        let z = mu.pow(c);
                        if !z.is_one() && z.pow([R]).is_one() {
                            let mut table = vec![];
                            if $tiny {
                                let mut x = Fq2::one();
                                for _ in 0..R {
                                    table.push(x);
                                    x *= z;
                                }
                            }
                            return Consts { mu, zeta: z, table, cof: c };
                        }
                        i += 1;
                    }
                })
            }
            fn u(f: &Fr) -> u64 {
                f.into_bigint().as_ref()[0]
            }

            impl Pairing for $w {
                type BaseField = Fr;
                type ScalarField = Fr;
                type G1 = G1;
                type G1Affine = G1;
                type G1Prepared = G1;
                type G2 = G2;
                type G2Affine = G2;
                type G2Prepared = G2;
                type TargetField = Fq2;
                fn multi_miller_loop(
                    a: impl IntoIterator<Item = impl Into<G1>>,
                    b: impl IntoIterator<Item = impl Into<G2>>,
                ) -> MillerLoopOutput<Self> {
                    let mut ia = a.into_iter();
                    let mut ib = b.into_iter();
                    let mut e: u128 = 0;
                    let mut acc = Fq2::one();
                    $crate::yield_point();
                    loop {
                        match (ia.next(), ib.next()) {
                            (Some(x), Some(y)) => {
                                let (x, y): (G1, G2) = (x.into(), y.into());
                                $crate::cost::pairs(1);
                                let p = u(&x.0) as u128 * u(&y.0) as u128;
                                if $tiny {
                                    e += p;
                                } else {
                                    acc *= consts().mu.pow([p as u64, (p >> 64) as u64]);
                                }
                            }
                            (None, None) => break,
                            _ => panic!("multi_miller_loop: inputs of different length"),
                        }
                    }
                    if $tiny {
                        acc = consts().mu.pow([e as u64]);
                    }
                    MillerLoopOutput(acc)
                }
                fn final_exponentiation(m: MillerLoopOutput<Self>) -> Option<PairingOutput<Self>> {
                    $crate::yield_point();
                    if m.0.is_zero() {
                        None
                    } else {
                        Some(PairingOutput(m.0.pow(consts().cof)))
                    }
                }
            }
            impl $crate::world::World for $w {
                const R: u64 = $r;
                const NAME: &'static str = stringify!($w);
                fn f(v: u64) -> Fr {
                    Fr::from(v)
                }
                fn fu(f: &Fr) -> u64 {
                    u(f)
                }
                fn g1(v: u64) -> G1 {
                    G1(Fr::from(v))
                }
                fn g2(v: u64) -> G2 {
                    G2(Fr::from(v))
                }
                fn a1(v: u64) -> G1 {
                    G1(Fr::from(v))
                }
                fn a2(v: u64) -> G2 {
                    G2(Fr::from(v))
                }
                fn d1(g: &G1) -> u64 {
                    u(&g.0)
                }
                fn d2(g: &G2) -> u64 {
                    u(&g.0)
                }
                fn gtv(v: u64) -> PairingOutput<Self> {
                    if $tiny {
                        PairingOutput(consts().table[(v % R) as usize])
                    } else {
                        PairingOutput(consts().zeta.pow([v]))
                    }
                }
                fn dt(t: &PairingOutput<Self>) -> Option<u64> {
                    consts().table.iter().position(|x| *x == t.0).map(|i| i as u64)
                }
            }
            $crate::impl_vals!($w, Fr, G1, G2);
        }
    };
}

tiny_world!(w3, W3, 3, "3", "2", "11", "2", 1, 1, Fp64, true);
tiny_world!(w5, W5, 5, "5", "2", "19", "2", 1, 1, Fp64, true);
tiny_world!(w7, W7, 7, "7", "3", "83", "2", 1, 1, Fp64, true);
tiny_world!(w11, W11, 11, "11", "2", "43", "3", 1, 1, Fp64, true);
tiny_world!(w13, W13, 13, "13", "2", "103", "5", 1, 1, Fp64, true);
tiny_world!(wbig, WBig, 1152921504606847009, "1152921504606847009", "7", "36893488147419104287", "3", 1, 2, Fp128, false);

pub use w11::W11;
pub use w13::W13;
pub use w3::W3;
pub use w5::W5;
pub use w7::W7;
pub use wbig::WBig;
