//! C31: proofs and their verification stay short.
use ark_ec::pairing::PairingOutput;
use ark_serialize::CanonicalSerialize;
use ark_sipp::SIPP;
use mc::{
    cost::{measure, Cost},
    explore::*,
    gens::*,
    groth::*,
    oracle::*,
    poly::*,
    proto::*,
    refm::*,
    world::*,
};
mc::gipa_world!(gb, WBig, wbig);
mc::tipa_world!(tb, WBig, wbig);
mc::ssm_world!(mb, WBig, wbig);
mc::pc_world!(pb, WBig, wbig);
mc::groth_world!(ag, WBig, wbig);

/// What one honest run of size `n` costs.
struct Run {
    proof: u64,
    prover: Cost,
    verifier: Cost,
}
fn run(proof: usize, prover: Cost, (v, verifier): (bool, Cost)) -> Result<Run, String> {
    if !v {
        return Err("honest proof not accepted".into());
    }
    Ok(Run { proof: proof as u64, prover, verifier })
}
/// How a cost may grow with the size n = 2^k, from what size 4 costs.
#[derive(Clone, Copy, PartialEq)]
enum Grow {
    Log,
    Sqrt,
    Linear,
}
impl Grow {
    fn bound(self, base: u64, k: u32) -> u64 {
        match self {
            Grow::Log => base * (k as u64 + 1),
            Grow::Sqrt => base * (1 << (k + 1) / 2) as u64,
            Grow::Linear => base << k,
        }
    }
}
struct Sys {
    name: String,
    /// Growth of the verifier's group operations, hashed bytes, and memory and field multiplications; its pairs and the proof grow with the logarithm.
    ops: Grow,
    hashed: Grow,
    mem: Grow,
    go: Box<dyn Fn(usize, usize) -> Result<Run, String> + Send + Sync>,
}

fn gipa(s: &'static dyn Gipa, n: usize, i: usize) -> Result<Run, String> {
    let (a, b) = (pattern(1, n, i), pattern(2, n, i));
    let k = Key { a: bigv(3, n), b: bigv(4, n), t: if s.compact() { big(9, 9) } else { 0 } };
    let t = dot(&a, &b, s.r());
    let com = s.com(&k, &a, &b, t);
    let (p, c) = measure(|| s.prove(&a, &b, t, &k, &com));
    let p = p.ok()?;
    let (v, d) = measure(|| s.verify(&k, &com, &p));
    run(p.len(), c, (v.accepted(), d))
}
fn tipa(s: &'static dyn Tipa, n: usize, i: usize, shift: Option<u64>) -> Result<Run, String> {
    let r = s.r();
    let (a, b) = (pattern(1, n, i), pattern(2, n, i));
    let t = if s.compact() { big(9, 9) } else { 0 };
    let (srs, mut k, vk) = s.setup(n, big(4, 4), big(5, 5), t)?;
    k.t = t;
    let mut x = a.clone();
    if let Some(z) = shift {
        x = had(&a, &powers(z, n, r), r);
        k.a = had(&k.a, &powers(invm(z, r), n, r), r);
    }
    let com = s.com(&k, &x, &b, dot(&x, &b, r));
    let (p, c) = measure(|| s.prove(&srs, &x, &b, &k, shift));
    let p = p.ok()?;
    let (v, d) = measure(|| s.verify(&vk, k.t, &com, &p, shift));
    run(p.len(), c, (v.accepted(), d))
}
fn ssm(s: &'static dyn Ssm, n: usize, i: usize) -> Result<Run, String> {
    let r = s.r();
    let (a, x) = (pattern(1, n, i), big(4, 4));
    let srs = Srs::model(n, big(6, 6), big(5, 5), r);
    let (mut k, vk) = (srs.key(if s.compact() { big(9, 9) } else { 0 }), srs.vk());
    if s.transparent() {
        k.a = bigv(8, n);
    }
    let b = powers(x, n, r);
    let com = Com { a: dot(&k.a, &a, r), b: 0, t: s.tcom(k.t, dot(&a, &b, r)) };
    let (p, c) = measure(|| s.prove(&srs, &a, &b, &k));
    let p = p.ok()?;
    let (v, d) = measure(|| s.verify(&vk, &k, &com, x, &p));
    run(p.len(), c, (v.accepted(), d))
}
fn uni(s: &'static dyn Pc, d: usize, i: usize) -> Result<Run, String> {
    let vals: Vec<u64> = (1..6).map(|j| big(7, j)).collect();
    let mut k = s.setup_uni(d, &vals).map_err(|e| format!("{e:?}"))?;
    if !s.trusted() {
        k = PcKey::transparent(bigv(7, k.g.len()), bigv(8, k.h.len()));
    }
    let (p, z) = (pattern(1, d + 1, i), big(3, 3));
    let (com, coms) = s.commit_uni(&k, &p).map_err(|e| format!("{e:?}"))?;
    let (o, c) = measure(|| s.open_uni(&k, &p, &coms, z));
    let o = o.map_err(|e| format!("{e:?}"))?;
    let e = eval(&p, z, s.r());
    let (v, f) = measure(|| s.verify_uni(&k, d, &com, z, e, &o));
    run(o.len() + com.len(), c, (v.accepted(), f))
}
fn bi(s: &'static dyn Pc, x: usize, y: usize, i: usize) -> Result<Run, String> {
    let vals: Vec<u64> = (1..6).map(|j| big(7, j)).collect();
    let mut k = s.setup_bi(x, y, &vals).map_err(|e| format!("{e:?}"))?;
    if !s.trusted() {
        k = PcKey::transparent(bigv(7, k.g.len()), bigv(8, k.h.len()));
    }
    let z = (big(3, 3), big(3, 4));
    let rows: Vec<Vec<u64>> = pattern(1, k.g.len() * k.rows(s.trusted()), i).chunks(k.g.len()).map(|x| x.to_vec()).collect();
    let (com, coms) = s.commit_bi(&k, &rows).map_err(|e| format!("{e:?}"))?;
    let (o, c) = measure(|| s.open_bi(&k, &rows, &coms, z));
    let o = o.map_err(|e| format!("{e:?}"))?;
    let e = eval2(&rows, z, s.r());
    let (v, f) = measure(|| s.verify_bi(&k, &com, z, e, &o));
    run(o.len() + com.len(), c, (v.accepted(), f))
}
fn aggregate(k: usize, n: usize, i: usize) -> Result<Run, String> {
    let s: &'static dyn Groth = &ag::Aggregation;
    let r = s.r();
    let g = GVk { alpha: big(44, 1), beta: big(44, 2), gamma: big(44, 3), delta: big(44, 4), abc: bigv(54, k + 1) };
    let col = pattern(64, n + k, i);
    let x: Vec<Vec<u64>> = (0..n).map(|i| col[i..i + k].to_vec()).collect();
    let (a, b) = (pattern(71, n, i), pattern(81, n, i));
    let ps: Vec<G16> = (0..n).map(|i| g.complete(a[i], b[i], &x[i], r).unwrap()).collect();
    let (srs, vk) = s.setup(n, big(7, 4), big(8, 4))?;
    let (p, c) = measure(|| s.aggregate(&srs, &ps));
    let p = p.ok()?;
    let (v, d) = measure(|| s.verify(&vk, &g, &x, &p));
    run(p.len(), c, (v.accepted(), d))
}
fn sipp(n: usize, i: usize) -> Result<Run, String> {
    type W = WBig;
    let (a, b, r) = (pattern(1, n, i), pattern(2, n, i), bigv(3, n));
    let z = dot(&had(&a, &r, W::R), &b, W::R);
    let (a, b): (Vec<_>, Vec<_>) = (a.iter().map(|x| W::a1(*x)).collect(), b.iter().map(|x| W::a2(*x)).collect());
    let r: Vec<_> = r.iter().map(|x| W::f(*x)).collect();
    let z: PairingOutput<W> = W::gtv(z);
    let (p, c) = measure(|| SIPP::<W, CD>::prove(&a, &b, &r, z));
    let p = p.map_err(|_| "prove failed")?;
    let (v, d) = measure(|| SIPP::<W, CD>::verify(&a, &b, &r, z, &p));
    let mut bytes = vec![];
    p.serialize_uncompressed(&mut bytes).unwrap();
    run(bytes.len(), c, (v == Ok(true), d))
}
fn systems() -> Vec<Sys> {
    use Grow::*;
    let mut v: Vec<Sys> = vec![];
    let mut add = |name: String, ops, hashed, mem, go| v.push(Sys { name, ops, hashed, mem, go });
    for s in gb::ALL {
        let s: &'static dyn Gipa = *s;
        add(s.name().into(), Linear, Log, Linear, Box::new(move |n, i| gipa(s, n, i)));
    }
    for s in tb::ALL {
        let s: &'static dyn Tipa = *s;
        for shift in [None, Some(big(6, 6))] {
            add(format!("{}{}", s.name(), if shift.is_some() { ", shifted" } else { "" }), Log, Log, Log, Box::new(move |n, i| tipa(s, n, i, shift)));
        }
    }
    for s in mb::ALL {
        let s: &'static dyn Ssm = *s;
        let g = if s.transparent() { Linear } else { Log };
        add(s.name().into(), g, Log, g, Box::new(move |n, i| ssm(s, n, i)));
    }
    let (t, u): (&'static dyn Pc, &'static dyn Pc) = (&pb::Trusted, &pb::Transparent);
    add("trusted univariate commitment".into(), Log, Log, Log, Box::new(move |n, i| uni(t, 4 * n - 1, i)));
    add("trusted bivariate commitment, many rows".into(), Log, Log, Log, Box::new(move |n, i| bi(t, n - 1, 3, i)));
    add("trusted bivariate commitment, long rows".into(), Log, Log, Log, Box::new(move |n, i| bi(t, 3, n - 1, i)));
    add("transparent univariate commitment".into(), Sqrt, Log, Sqrt, Box::new(move |n, i| uni(u, 4 * n - 1, i)));
    add("transparent bivariate commitment, many rows".into(), Linear, Log, Linear, Box::new(move |n, i| bi(u, n - 1, 3, i)));
    add("transparent bivariate commitment, long rows".into(), Linear, Log, Linear, Box::new(move |n, i| bi(u, 3, n - 1, i)));
    for k in [0, 3] {
        add(format!("aggregation, {k} inputs"), Log, Log, Linear, Box::new(move |n, i| aggregate(k, n, i)));
    }
    add("SIPP".into(), Linear, Linear, Linear, Box::new(sipp));
    v
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut c = Checker::new(&a[1], &a[2]);
    assert_eq!(a[1], "C31");
    let th = c.thorough;
    let (top, pat) = if th { (17, 11) } else { (14, 7) };
    let sys = systems();
    let names: Vec<_> = sys.iter().map(|s| s.name.clone()).collect();
    c.scenario(
        Scenario {
            name: "growth",
            bounds: leak(format!("61-bit field, real hash: {names:?}; sizes 2^5, .. 2^{top} (4 times as many coefficients for univariate commitments), messages dense or (up to 2^{pat}) each of {PATTERNS} patterns, pools of 1 and 8 workers; cost relative to that of size 4: proof bytes, pairs and hash calls of the verifier at most log2 n + 1 times; its group operations, field multiplications and memory at most log2 n + 1 times (logarithmic systems, aggregation's operations), sqrt n times (transparent univariate), n times (others); hashed bytes at most log2 n + 1 times (SIPP: n times); prover at most n times (a small constant more each)")),
            dev: 0,
            oracle: OracleCfg::Real,
            require: &["within"],
        },
        move || {
            let s = &sys[choose(sys.len())];
            let k = 5 + choose(top - 4) as u32;
            let i = if k <= pat { choose(PATTERNS) } else { 0 };
            let threads = choose_in(&[1usize, 8]);
            rayon_core::mc::set_threads(threads);
            let id = format!("{}, size 2^{k}, pattern {i}, {threads} workers", s.name);
            let x = (s.go)(4, 0).map_err(|e| format!("{id} (size 4): {e}"))?;
            let y = (s.go)(1 << k, i).map_err(|e| format!("{id}: {e}"))?;
            observe_u64s(&[y.proof, y.verifier.pairs, y.verifier.ops, y.verifier.mem, y.prover.ops, y.prover.pairs]);
            use Grow::*;
            // (what, how it may grow, at size 4, now, allowed extra: digests drawn again, ..)
            let all = [
                ("proof bytes", Log, x.proof, y.proof, 0),
                ("the verifier's pairs", Log, x.verifier.pairs, y.verifier.pairs, 4),
                ("the verifier's group operations", s.ops, x.verifier.ops, y.verifier.ops, 64),
                ("the verifier's field multiplications", s.mem, x.verifier.muls, y.verifier.muls, 64),
                ("the verifier's hash calls", Log, x.verifier.hashes, y.verifier.hashes, 64),
                ("the verifier's hashed bytes", s.hashed, x.verifier.hashed, y.verifier.hashed, 64 * 128),
                ("the verifier's memory", s.mem, x.verifier.mem, y.verifier.mem, 64 * 256),
                ("the prover's pairs", Linear, x.prover.pairs, y.prover.pairs, 4),
                ("the prover's group operations", Linear, x.prover.ops, y.prover.ops, 64),
                ("the prover's field multiplications", Linear, x.prover.muls, y.prover.muls, 64),
                ("the prover's hash calls", Log, x.prover.hashes, y.prover.hashes, 64),
                ("the prover's hashed bytes", s.hashed, x.prover.hashed, y.prover.hashed, 64 * 128),
                ("the prover's memory", Linear, x.prover.mem, y.prover.mem, 64 * 256),
            ];
            for (what, g, base, now, extra) in all {
                if now > g.bound(base, k) + extra {
                    return Err(format!("{id}: {what}: {now}, where size 4 has {base}"));
                }
            }
            tally("within");
            Ok(())
        },
    );
    c.finish()
}
