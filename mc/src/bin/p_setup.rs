//! C29: every key of a setup has randomness of its own.
use ark_dh_commitments::{
    afgho16::{AFGHOCommitmentG1, AFGHOCommitmentG2},
    identity::IdentityCommitment,
    pedersen::PedersenCommitment,
    random_generators, DoublyHomomorphicCommitment,
};
use ark_ec::pairing::{Pairing, PairingOutput};
use ark_inner_products::{MultiexponentiationInnerProduct, PairingInnerProduct, ScalarInnerProduct};
use ark_ip_proofs::{
    applications::{
        groth16_aggregation::setup_inner_product,
        poly_commit::{self as pc, transparent as tpc},
    },
    gipa::GIPA,
    tipa::{
        structured_scalar_message::{GIPAWithSSM, TIPAWithSSM},
        SRS, TIPA,
    },
};
use ark_serialize::CanonicalSerialize;
use ark_std::{
    rand::{Error, RngCore},
    Zero,
};
use mc::{explore::*, gens::*, oracle::*, rng::Seq, world::*};
use std::collections::{BTreeMap, BTreeSet};

/// A random source made of given words, then of a fixed stream.
struct Tape {
    words: Vec<u64>,
    pos: usize,
    tail: Seq,
}
impl Tape {
    /// Words that tiny-world `Fr::rand` reads as the values `vals` (it takes the limb as the
    /// Montgomery form), then as `r - 1`, 1, `r - 2`, 2, ..
    fn of(vals: &[u64], r: u64, more: usize) -> Self {
        let m = (1u128 << 64) % r as u128;
        let more = (0..more as u64).map(|i| if i % 2 == 0 { r - 1 - i / 2 % (r - 1) } else { 1 + i / 2 % (r - 1) });
        Tape { words: vals.iter().copied().chain(more).map(|v| (v as u128 * m % r as u128) as u64).collect(), pos: 0, tail: Seq::new(77) }
    }
}
impl RngCore for Tape {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.pos += 1;
        match self.words.get(self.pos - 1) {
            Some(w) => *w,
            None => self.tail.next_u64(),
        }
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for c in d.chunks_mut(8) {
            let x = self.next_u64().to_le_bytes();
            c.copy_from_slice(&x[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(d);
        Ok(())
    }
}

/// The freely chosen keys of a setup: one list per key vector.
type Keys = Vec<Vec<Vec<u8>>>;
type Setup = fn(&mut Tape, usize) -> Result<Keys, String>;
fn b<T: CanonicalSerialize>(x: &T) -> Vec<u8> {
    let mut v = vec![];
    x.serialize_uncompressed(&mut v).unwrap();
    v
}
fn bs<T: CanonicalSerialize>(x: &[T]) -> Vec<Vec<u8>> {
    x.iter().map(b).collect()
}
fn e<X: ToString>(x: X) -> String {
    x.to_string()
}
fn secrets<P: Pairing>(s: &SRS<P>) -> Vec<Vec<u8>> {
    vec![b(&s.g_beta), b(&s.h_alpha)]
}
/// Name, the setup, and the numbers of keys it must return for size `n` (None: any).
fn setups<P: Pairing>() -> Vec<(&'static str, Setup, fn(usize) -> Option<Vec<usize>>)> {
    type Gp<P> = GIPA<PairingInnerProduct<P>, AFGHOCommitmentG1<P>, AFGHOCommitmentG2<P>, IdentityCommitment<PairingOutput<P>, <P as Pairing>::ScalarField>, CD>;
    type Gs<P> = GIPA<
        ScalarInnerProduct<<P as Pairing>::ScalarField>,
        PedersenCommitment<<P as Pairing>::G2>,
        PedersenCommitment<<P as Pairing>::G1>,
        PedersenCommitment<<P as Pairing>::G2>,
        CD,
    >;
    type Gm<P> = GIPA<
        MultiexponentiationInnerProduct<<P as Pairing>::G1>,
        AFGHOCommitmentG1<P>,
        PedersenCommitment<<P as Pairing>::G1>,
        IdentityCommitment<<P as Pairing>::G1, <P as Pairing>::ScalarField>,
        CD,
    >;
    type Sg<P> = GIPAWithSSM<ScalarInnerProduct<<P as Pairing>::ScalarField>, PedersenCommitment<<P as Pairing>::G2>, PedersenCommitment<<P as Pairing>::G1>, CD>;
    type Tp<P> = TIPA<
        ScalarInnerProduct<<P as Pairing>::ScalarField>,
        PedersenCommitment<<P as Pairing>::G2>,
        PedersenCommitment<<P as Pairing>::G1>,
        PedersenCommitment<<P as Pairing>::G1>,
        P,
        CD,
    >;
    type St<P> = TIPAWithSSM<ScalarInnerProduct<<P as Pairing>::ScalarField>, PedersenCommitment<<P as Pairing>::G2>, PedersenCommitment<<P as Pairing>::G1>, P, CD>;
    vec![
        ("random generators of the first group", |r, n| Ok(vec![bs(&random_generators::<_, P::G1>(r, n))]), |n| Some(vec![n])),
        ("random generators of the second group", |r, n| Ok(vec![bs(&random_generators::<_, P::G2>(r, n))]), |n| Some(vec![n])),
        ("Pedersen, first group", |r, n| Ok(vec![bs(&PedersenCommitment::<P::G1>::setup(r, n).map_err(e)?)]), |n| Some(vec![n])),
        ("Pedersen, second group", |r, n| Ok(vec![bs(&PedersenCommitment::<P::G2>::setup(r, n).map_err(e)?)]), |n| Some(vec![n])),
        ("AFGHO of first-group elements", |r, n| Ok(vec![bs(&AFGHOCommitmentG1::<P>::setup(r, n).map_err(e)?)]), |n| Some(vec![n])),
        ("AFGHO of second-group elements", |r, n| Ok(vec![bs(&AFGHOCommitmentG2::<P>::setup(r, n).map_err(e)?)]), |n| Some(vec![n])),
        (
            "GIPA, pairing",
            |r, n| {
                let k = Gp::<P>::setup(r, n).map_err(e)?;
                Ok(vec![bs(&k.0), bs(&k.1)])
            },
            |n| Some(vec![n, n]),
        ),
        (
            "GIPA, multi-exponentiation",
            |r, n| {
                let k = Gm::<P>::setup(r, n).map_err(e)?;
                Ok(vec![bs(&k.0), bs(&k.1)])
            },
            |n| Some(vec![n, n]),
        ),
        (
            "GIPA, scalar, compact result",
            |r, n| {
                let k = Gs::<P>::setup(r, n).map_err(e)?;
                Ok(vec![bs(&k.0), bs(&k.1), vec![b(&k.2)]])
            },
            |n| Some(vec![n, n, 1]),
        ),
        (
            "structured scalars, transparent, compact result",
            |r, n| {
                let k = Sg::<P>::setup(r, n).map_err(e)?;
                Ok(vec![bs(&k.0), vec![b(&k.1)]])
            },
            |n| Some(vec![n, 1]),
        ),
        (
            "transparent bivariate polynomial commitments",
            |r, n| {
                let k = tpc::BivariatePolynomialCommitment::<P, CD>::setup(r, n / 2, n.saturating_sub(1)).map_err(e)?;
                Ok(vec![bs(&k.0), bs(&k.1)])
            },
            |n| Some(vec![n.max(1), n / 2 + 1]),
        ),
        (
            "transparent univariate polynomial commitments",
            |r, n| {
                let k = tpc::UnivariatePolynomialCommitment::<P, CD>::setup(r, n).map_err(e)?;
                Ok(vec![bs(&k.0), bs(&k.1)])
            },
            |_| None,
        ),
        (
            "secrets and result key of TIPA",
            |r, n| {
                let k = Tp::<P>::setup(r, n.max(1)).map_err(e)?;
                Ok(vec![secrets(&k.0), vec![b(&k.1)]])
            },
            |_| Some(vec![2, 1]),
        ),
        (
            "secrets and result key of structured-scalar TIPA",
            |r, n| {
                let k = St::<P>::setup(r, n.max(1)).map_err(e)?;
                Ok(vec![secrets(&k.0), vec![b(&k.1)]])
            },
            |_| Some(vec![2, 1]),
        ),
        ("secrets of the aggregation setup", |r, n| Ok(vec![secrets(&setup_inner_product::<P, CD, _>(r, n.max(1)).map_err(e)?)]), |_| Some(vec![2])),
        (
            "secrets of KZG",
            |r, n| {
                let k = pc::KZG::<P>::setup(r, n).map_err(e)?.1;
                Ok(vec![vec![b(&k.g_beta), b(&k.h_alpha)]])
            },
            |_| Some(vec![2]),
        ),
        ("secrets of bivariate polynomial commitments", |r, n| Ok(vec![secrets(&pc::BivariatePolynomialCommitment::<P, CD>::setup(r, n / 2, n).map_err(e)?.0)]), |_| Some(vec![2])),
        ("secrets of univariate polynomial commitments", |r, n| Ok(vec![secrets(&pc::UnivariatePolynomialCommitment::<P, CD>::setup(r, n).map_err(e)?.0)]), |_| Some(vec![2])),
    ]
}
/// Number of keys that can each be given a draw of their own on which they depend.
fn matching(dep: &[BTreeSet<usize>], keys: usize) -> usize {
    // dep[j]: keys that change with draw j
    let mut by: Vec<Option<usize>> = vec![None; keys];
    fn aug(j: usize, dep: &[BTreeSet<usize>], by: &mut [Option<usize>], seen: &mut BTreeSet<usize>) -> bool {
        for &k in &dep[j] {
            if seen.insert(k) && (by[k].is_none() || aug(by[k].unwrap(), dep, by, seen)) {
                by[k] = Some(j);
                return true;
            }
        }
        false
    }
    (0..dep.len()).filter(|j| aug(*j, dep, &mut by, &mut BTreeSet::new())).count()
}

fn small<P: World>(c: &mut Checker, cap: u64) {
    let r = P::R;
    let all = setups::<P>();
    let (z1, z2) = (b(&P::G1::zero()), b(&P::G2::zero()));
    c.scenario(
        Scenario {
            name: leak(format!("every-stream-F{r}")),
            bounds: leak(format!("{} setups, sizes 0..=6 as long as all streams of draws (one more than keys) number at most {cap}: every stream; every combination of non-identity keys must occur", all.len())),
            dev: 0,
            oracle: OracleCfg::None,
            require: &["all combinations"],
        },
        move || {
            let (name, f, lens) = all[choose(all.len())];
            let n = choose(7);
            let run = |v: &[u64]| guard(|| f(&mut Tape::of(v, r, 8), n)).map_err(|p| format!("{name} of size {n}: {p}")).and_then(|k| k.map_err(|x| format!("{name} of size {n}: {x}")));
            let first = run(&[1])?;
            let got: Vec<usize> = first.iter().map(|v| v.len()).collect();
            if lens(n).is_some_and(|l| l != got) {
                return Err(format!("{name} of size {n}: {got:?} keys, expected {:?}", lens(n)));
            }
            let k: usize = got.iter().sum();
            let total = (r as f64).powi(k as i32 + 1);
            if total > cap as f64 {
                return excluded();
            }
            let mut seen: BTreeMap<Vec<Vec<u8>>, u64> = BTreeMap::new();
            for code in 0..total as u64 {
                let v: Vec<u64> = (0..=k as u32).map(|i| code / r.pow(i) % r).collect();
                let keys = run(&v)?;
                if keys.iter().map(|v| v.len()).collect::<Vec<_>>() != got {
                    return Err(format!("{name} of size {n}: the number of keys depends on the random stream ({v:?})"));
                }
                let flat: Vec<Vec<u8>> = keys.concat();
                observe(&flat.concat());
                if !flat.iter().any(|x| *x == z1 || *x == z2) {
                    *seen.entry(flat).or_default() += 1;
                }
            }
            let want = (r - 1).pow(k as u32) as usize;
            if seen.len() != want {
                return Err(format!("{name} of size {n}: of the {want} combinations of {k} non-identity keys over F_{r} only {} occur among all random streams: the keys are related", seen.len()));
            }
            tally("all combinations");
            validated();
            Ok(())
        },
    );
}
fn apart(name: &str, n: usize, keys: &Keys, zeros: &[Vec<u8>]) -> Outcome {
    let mut seen: BTreeMap<&Vec<u8>, (usize, usize)> = BTreeMap::new();
    for (i, v) in keys.iter().enumerate() {
        for (j, k) in v.iter().enumerate() {
            if zeros.contains(k) {
                return Err(format!("{name} of size {n}: key {j} of vector {i} is the identity"));
            }
            if let Some(x) = seen.insert(k, (i, j)) {
                return Err(format!("{name} of size {n}: key {j} of vector {i} equals key {} of vector {}", x.1, x.0));
            }
        }
    }
    Ok(())
}
fn large(c: &mut Checker) {
    let r = WBig::R;
    let all = setups::<WBig>();
    let th = c.thorough;
    let sizes: Vec<usize> = (0..=if th { 100 } else { 40 }).chain(around(if th { &[64, 128, 256, 512, 1024, 2048] } else { &[64, 128, 256, 512] })).collect();
    let zeros = vec![b(&wbig::G1::zero()), b(&wbig::G2::zero())];
    let (top, count) = (*sizes.last().unwrap(), sizes.len());
    c.scenario(
        Scenario {
            name: "own-draw-61-bit",
            bounds: leak(format!("{} setups, {count} sizes up to {top}, two streams: no identity, no two equal keys; every single draw changed in turn: the keys can be given one draw each on which they depend", all.len())),
            dev: 0,
            oracle: OracleCfg::None,
            require: &["own draw"],
        },
        move || {
            let (name, f, lens) = all[choose(all.len())];
            let n = choose_in(&sizes);
            let seed = choose(2) as u64;
            let go = |t: &mut Tape| f(t, n).map_err(|x| format!("{name} of size {n}: {x}"));
            let mut vals = bigv(90 + seed, 4 * n + 32);
            let mut t = Tape::of(&vals, r, 0);
            let base = go(&mut t)?;
            let used = t.pos;
            observe_u64s(&[n as u64, seed]);
            base.concat().iter().for_each(|k| observe(k));
            let got: Vec<usize> = base.iter().map(|v| v.len()).collect();
            if lens(n).is_some_and(|l| l != got) {
                return Err(format!("{name} of size {n}: {got:?} keys, expected {:?}", lens(n)));
            }
            apart(name, n, &base, &zeros)?;
            let flat = base.concat();
            if used > vals.len() {
                return Err(format!("{name} of size {n}: {used} draws for {} keys", flat.len()));
            }
            let mut dep = vec![];
            for j in 0..used {
                let old = vals[j];
                vals[j] = big(95, j as u64);
                let k = go(&mut Tape::of(&vals, r, 0))?.concat();
                vals[j] = old;
                if k.len() != flat.len() {
                    return Err(format!("{name} of size {n}: the number of keys depends on the random stream"));
                }
                dep.push((0..k.len()).filter(|i| k[*i] != flat[*i]).collect::<BTreeSet<usize>>());
            }
            let m = matching(&dep, flat.len());
            if m != flat.len() {
                return Err(format!("{name} of size {n}: {} keys, but only {m} of them can be given a random draw of their own", flat.len()));
            }
            tally("own draw");
            validated();
            Ok(())
        },
    );
}
fn bls(c: &mut Checker) {
    use mc::wide::{E, G1, G2};
    let all = setups::<E>();
    let th = c.thorough;
    let sizes: &'static [usize] = if th { &[0, 1, 2, 3, 4, 5, 8, 9, 16, 17, 33, 64, 65, 130] } else { &[0, 1, 2, 3, 4, 5, 8, 17, 33] };
    let zeros = vec![b(&G1::zero()), b(&G2::zero())];
    c.scenario(
        Scenario {
            name: "bls12-381",
            bounds: leak(format!("{} setups, sizes {sizes:?}, BLS12-381: no identity, no two equal keys, nothing in common with the setup from another stream; the same stream gives the same keys", all.len())),
            dev: 0,
            oracle: OracleCfg::None,
            require: &["apart"],
        },
        move || {
            let (name, f, lens) = all[choose(all.len())];
            let n = choose_in(sizes);
            let seed = 10 * choose(2) as u64;
            let run = |s: u64| f(&mut Tape { words: vec![], pos: 0, tail: Seq::new(s) }, n).map_err(|x| format!("{name} of size {n}: {x}"));
            let (k, again, other) = (run(seed)?, run(seed)?, run(seed + 1)?);
            k.concat().iter().for_each(|x| observe(x));
            let got: Vec<usize> = k.iter().map(|v| v.len()).collect();
            if lens(n).is_some_and(|l| l != got) {
                return Err(format!("{name} of size {n}: {got:?} keys, expected {:?}", lens(n)));
            }
            if k != again {
                return Err(format!("{name} of size {n}: the same random stream gives different keys"));
            }
            let mut both = k.clone();
            both.extend(other);
            apart(&format!("two runs of: {name}"), n, &both, &zeros)?;
            tally("apart");
            Ok(())
        },
    );
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut c = Checker::new(&a[1], &a[2]);
    c.assumptions.push("sampling of group and field elements by the backend is uniform for a uniform stream; replaced by one word per element in the transparent groups (scenario named bls12-381: the real curve)".into());
    assert_eq!(a[1], "C29");
    let th = c.thorough;
    small::<W3>(&mut c, if th { 5_000_000 } else { 600_000 });
    small::<W5>(&mut c, if th { 10_000_000 } else { 400_000 });
    large(&mut c);
    bls(&mut c);
    c.finish()
}
