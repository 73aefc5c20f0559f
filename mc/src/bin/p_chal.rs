//! C30: every challenge keeps the strength of the hash.
use mc::{explore::*, oracle::OracleCfg};
mc::wide_gipas!(gw);
mc::wide_tipas!(tw);
mc::wide_ssms!(sw);
mc::wide_polys!(wp);
mc::wide_groth!(ag);

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut c = Checker::new(&a[1], &a[2]);
    assert_eq!(a[1], "C30");
    c.assumptions.push("ChaCha20 and the hash are random functions; digests are enumerated at distance one from fixed ones, and in pairs of known coincidence under ChaCha20".into());
    let th = c.thorough;
    use mc::wide::strength as s;
    let n: &'static [usize] = if th { &[2, 4, 8] } else { &[2, 4] };
    let m: &'static [usize] = if th { &[2, 4, 8] } else { &[2] };
    let k: &'static [usize] = if th { &[2, 4, 8, 16, 32] } else { &[2, 4, 8] };
    let g: &'static [usize] = if th { &[2, 4] } else { &[2] };
    let systems: [fn(&'static [usize], &'static [usize], &'static [usize], &'static [usize]) -> Outcome; 16] = [
        |_, _, _, g| s::<ag::Aggregation>(g, false),
        |_, _, m, _| s::<gw::PairingIdentity>(m, false),
        |_, n, _, _| s::<gw::MultiexpIdentity>(n, false),
        |_, n, _, _| s::<gw::ScalarCompact>(n, false),
        |_, _, m, _| s::<tw::TipaPairing>(m, false),
        |_, _, m, _| s::<tw::TipaMultiexp>(m, false),
        |_, _, m, _| s::<tw::TipaScalarCompact>(m, false),
        |_, n, _, _| s::<sw::SsmTransparentScalar>(n, false),
        |_, _, m, _| s::<sw::SsmTransparentMultiexp>(m, false),
        |_, _, m, _| s::<sw::SsmLogMultiexp>(m, false),
        |_, _, m, _| s::<sw::SsmLogScalar>(m, false),
        |_, _, m, _| s::<wp::TrustedBi>(m, false),
        |_, n, _, _| s::<wp::TrustedUni>(n, false),
        |_, _, m, _| s::<wp::TransparentBi>(m, false),
        |_, _, m, _| s::<wp::TransparentUni>(m, false),
        |k, _, _, _| s::<mc::wide::Sipp>(k, true),
    ];
    c.scenario(
        Scenario {
            name: "digest-bits",
            bounds: format!(
                "BLS12-381: GIPA, TIPA, structured-scalar, polynomial commitments, aggregation and SIPP at lengths {k:?} (SIPP), {g:?} (aggregation), {n:?} / {m:?}: each digest drawn by the prover and by the verifier with each of its 256 bits flipped in turn; for SIPP also replaced by either of two digests whose generators agree in one half of the first 128 bits: of each of the four classes of bits modulo 4 at least 30 must matter, each in its own way"
            )
            .leak(),
            dev: 0,
            oracle: OracleCfg::Spot,
            require: &["prover", "verifier"],
        },
        move || systems[choose(systems.len())](k, n, m, g),
    );
    c.finish()
}
