//! Conversion between implementation values and discrete logs (plain integers).
use ark_dh_commitments::identity::{HomomorphicPlaceholderValue, IdentityOutput};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};

pub trait Val: Sized {
    /// Number of integers this value consists of is free for vectors; scalars use index 0.
    fn of(v: &[u64]) -> Self;
    fn to(&self) -> Option<Vec<u64>>;
    fn one(v: u64) -> Self {
        Self::of(&[v])
    }
    fn get(&self) -> Option<u64> {
        self.to().and_then(|v| v.first().copied())
    }
}

impl Val for HomomorphicPlaceholderValue {
    fn of(_: &[u64]) -> Self {
        HomomorphicPlaceholderValue
    }
    fn to(&self) -> Option<Vec<u64>> {
        Some(vec![])
    }
}
impl<T: Val + CanonicalSerialize + CanonicalDeserialize + Clone + Default + Eq> Val for IdentityOutput<T> {
    fn of(v: &[u64]) -> Self {
        IdentityOutput(v.iter().map(|x| T::one(*x)).collect())
    }
    fn to(&self) -> Option<Vec<u64>> {
        self.0.iter().map(|x| x.get()).collect()
    }
}

#[macro_export]
macro_rules! impl_vals {
    ($w:ident, $fr:ident, $g1:ident, $g2:ident) => {
        impl $crate::vals::Val for $fr {
            fn of(v: &[u64]) -> Self {
                <$w as $crate::world::World>::f(v[0])
            }
            fn to(&self) -> Option<Vec<u64>> {
                Some(vec![u(self)])
            }
        }
        impl $crate::vals::Val for $g1 {
            fn of(v: &[u64]) -> Self {
                <$w as $crate::world::World>::g1(v[0])
            }
            fn to(&self) -> Option<Vec<u64>> {
                Some(vec![u(&self.0)])
            }
        }
        impl $crate::vals::Val for $g2 {
            fn of(v: &[u64]) -> Self {
                <$w as $crate::world::World>::g2(v[0])
            }
            fn to(&self) -> Option<Vec<u64>> {
                Some(vec![u(&self.0)])
            }
        }
        impl $crate::vals::Val for PairingOutput<$w> {
            fn of(v: &[u64]) -> Self {
                <$w as $crate::world::World>::gtv(v[0])
            }
            fn to(&self) -> Option<Vec<u64>> {
                <$w as $crate::world::World>::dt(self).map(|x| vec![x])
            }
        }
    };
}
