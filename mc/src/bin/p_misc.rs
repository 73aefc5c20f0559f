//! C23 schedules, C25 serialization, C26 arbitrary shapes, C27 histories.
use mc::{corpus, explore::*, gens::*, groth::Groth, mem, oracle::*, poly::*, proto::*, refm::*, world::*};
use std::cell::Cell;
use std::sync::OnceLock;

mc::gipa_world!(gb, WBig, wbig);
mc::tipa_world!(tb, WBig, wbig);
mc::ssm_world!(sb, WBig, wbig);
mc::gipa_world!(g7, W7, w7);
mc::tipa_world!(t7, W7, w7);
mc::ssm_world!(s7, W7, w7);
mc::pc_world!(pb, WBig, wbig);
mc::groth_world!(ab, WBig, wbig);

fn digest(b: &[u8]) -> u64 {
    fnv(fnv(0xcbf29ce484222325, b), &(b.len() as u64).to_le_bytes())
}

// ------------------------------------------------------------------ C23
thread_local! {
    static MODE: Cell<u32> = const { Cell::new(0) };
    static FREE: Cell<bool> = const { Cell::new(false) };
}
fn chooser(_: &'static str, n: u32) -> u32 {
    if FREE.with(|f| f.get()) {
        return choose(n as usize) as u32;
    }
    (MODE.with(|m| m.get()) + choose_dev(n as usize) as u32) % n
}
fn scheduled<T>(threads: usize, mode: u32, free: bool, f: impl FnOnce() -> T) -> T {
    MODE.with(|m| m.set(mode));
    FREE.with(|m| m.set(free));
    rayon_core::mc::set_threads(threads);
    rayon_core::mc::set_chooser(Some(chooser));
    let x = f();
    rayon_core::mc::set_chooser(None);
    rayon_core::mc::set_threads(1);
    x
}
thread_local! {
    static PREEMPTS: Cell<u64> = const { Cell::new(0) };
}
fn preemptor(site: &'static str, n: u32) -> u32 {
    if !has_ctx() {
        return 0;
    }
    if site == "join" {
        return MODE.with(|m| m.get());
    }
    let c = choose_dev(n as usize) as u32;
    if c > 0 {
        PREEMPTS.with(|p| p.set(p.get() + 1))
    }
    c
}
/// Everything that can be stolen is: mode 1 = the thief starts when the victim is preempted or waits,
/// mode 2 = it starts at once.
fn interleaved<T>(threads: usize, mode: u32, f: impl FnOnce() -> T) -> T {
    MODE.with(|m| m.set(mode));
    rayon_core::mc::set_threads(threads);
    rayon_core::mc::set_chooser(Some(preemptor));
    let x = rayon_core::mc::interleaved(inner_carry(), f);
    rayon_core::mc::set_chooser(None);
    rayon_core::mc::set_threads(1);
    x
}
/// The exploration context together with this module's own state.
fn inner_carry() -> rayon_core::Carry {
    rayon_core::Carry {
        take: || Box::new(((carry().take)(), MODE.with(|m| m.get()), PREEMPTS.with(|m| m.get()))),
        put: |b| {
            let (c, m, p) = *b.downcast::<(Box<dyn std::any::Any + Send>, u32, u64)>().expect("carried state");
            (carry().put)(c);
            MODE.with(|x| x.set(m));
            PREEMPTS.with(|x| x.set(p));
        },
        enter: || (carry().enter)(),
    }
}
fn c23(c: &mut Checker) {
    let th = c.thorough;
    // single worker, no choices: the reference result of every call
    let base = |ops: &[corpus::Op]| -> Vec<OnceLock<Vec<u8>>> { ops.iter().map(|_| OnceLock::new()).collect() };
    let expect = |b: &'static [OnceLock<Vec<u8>>], ops: &'static [corpus::Op], i: usize| -> &'static Vec<u8> {
        b[i].get_or_init(|| {
            rayon_core::mc::set_threads(1);
            (ops[i].run)()
        })
    };
    let tiers: &[(&str, usize, usize, u32, &[usize])] = if th {
        &[
            ("pool-sizes", 0, 40, 0, &[1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 31, 33, 64]),
            ("one-deviation", 0, 17, 1, &[2, 3, 4, 8]),
            ("two-deviations", 0, 4, 2, &[2, 3, 8]),
        ]
    } else {
        &[("pool-sizes", 0, 40, 0, &[1, 2, 3, 4, 5, 6, 7, 8, 16, 33]), ("one-deviation", 0, 8, 1, &[2, 3, 8]), ("two-deviations", 0, 2, 2, &[3])]
    };
    for (name, lo, max, dev, threads) in tiers.iter().copied() {
        let ops: &'static [corpus::Op] = corpus::ops(max).into_iter().filter(|o| o.size >= lo && (th || dev < 2 || !o.name.ends_with("#1"))).collect::<Vec<_>>().leak();
        let b: &'static [OnceLock<Vec<u8>>] = base(ops).leak();
        c.scenario(
            Scenario {
                name,
                bounds: leak(format!("{} library calls (vectors up to {max}), pools of {threads:?} workers, base schedules: nothing stolen / every second half stolen and run last / every second half stolen and run first; up to {dev} scheduling decisions changed", ops.len())),
                dev,
                oracle: OracleCfg::Real,
                require: &["same", "parallel"],
            },
            move || {
                let i = choose(ops.len());
                let want = expect(b, ops, i);
                let (t, m) = (choose_in(threads), choose(3) as u32);
                let p0 = rayon_core::mc::points();
                let got = scheduled(t, m, false, || (ops[i].run)());
                let pts = rayon_core::mc::points() - p0;
                observe_u64s(&[i as u64, t as u64, m as u64, pts, digest(&got)]);
                note(|| format!("{}: {} scheduling points", ops[i].name, pts));
                if &got != want {
                    return Err(format!("{}: result depends on the schedule ({t} workers, base schedule {m}, {pts} scheduling decisions)", ops[i].name));
                }
                tally("same");
                if pts > 0 {
                    tally("parallel")
                }
                Ok(())
            },
        );
    }
    // every schedule of small calls
    let ops: &'static [corpus::Op] = corpus::ops(if th { 5 } else { 4 })
        .into_iter()
        .filter(|o| ["inner-products", "pairing-products", "sipp", "pedersen", "afgho"].iter().any(|p| o.name.starts_with(p)))
        .collect::<Vec<_>>()
        .leak();
    let b: &'static [OnceLock<Vec<u8>>] = base(ops).leak();
    let cap = if th { 11 } else { 8 };
    c.scenario(
        Scenario {
            name: "all-schedules",
            bounds: leak(format!("products, commitments and SIPP calls of at most {cap} scheduling decisions (on the default schedule), every schedule, pools of 2 and 8 workers")),
            dev: 0,
            oracle: OracleCfg::Real,
            require: &["same"],
        },
        move || {
            let i = choose(ops.len());
            let want = expect(b, ops, i);
            let t = choose_in(&[2usize, 8]);
            let p0 = rayon_core::mc::points();
            let q = scheduled(t, 2, false, || (ops[i].run)());
            if rayon_core::mc::points() - p0 > cap {
                return excluded();
            }
            let got = scheduled(t, 0, true, || (ops[i].run)());
            observe_u64s(&[i as u64, t as u64, rayon_core::mc::points() - p0, digest(&got)]);
            if &got != want || &q != want {
                return Err(format!("{}: result depends on the schedule ({t} workers)", ops[i].name));
            }
            tally("same");
            Ok(())
        },
    );
    // preemptions inside tasks
    let levels: &[(&str, usize, u32, &[usize], bool)] = if th {
        &[("preemption", 9, 1, &[2, 3, 4], false), ("two-preemptions", 4, 2, &[2, 3], false), ("three-preemptions", 2, 3, &[2], true)]
    } else {
        &[("preemption", 4, 1, &[3], false), ("two-preemptions", 4, 2, &[2], true)]
    };
    for (name, max, dev, threads, few) in levels.iter().copied() {
        let ops: &'static [corpus::Op] = corpus::ops(max)
            .into_iter()
            .filter(|o| !few || (!o.name.ends_with("#1") && ["inner-products", "pairing-products", "sipp", "pedersen", "afgho", "gipa"].iter().any(|p| o.name.starts_with(p))))
            .collect::<Vec<_>>()
            .leak();
        let b: &'static [OnceLock<Vec<u8>>] = base(ops).leak();
        c.scenario(
            Scenario {
                name,
                bounds: leak(format!("{} library calls (vectors up to {max}), pools of {threads:?} workers, every half stolen by an idle worker (run later / run first) on its own thread; up to {dev} preemption(s) at any group operation, pairing step or hash call, or changed hand-over, of any runnable task", ops.len())),
                dev,
                oracle: OracleCfg::Real,
                require: &["same", "preempted"],
            },
            move || {
                let i = choose(ops.len());
                let want = expect(b, ops, i);
                let (t, m) = (choose_in(threads), 1 + choose(2) as u32);
                PREEMPTS.with(|p| p.set(0));
                let got = interleaved(t, m, || (ops[i].run)());
                let n = PREEMPTS.with(|p| p.get());
                observe_u64s(&[i as u64, t as u64, m as u64, n, digest(&got)]);
                if &got != want {
                    return Err(format!("{}: result depends on the interleaving ({t} workers, base schedule {m}, {n} preemptions)", ops[i].name));
                }
                tally("same");
                // given up when the code keeps locks across scheduling points
                if n > 0 || rayon_core::mc::fallbacks() > 100 {
                    tally("preempted")
                }
                Ok(())
            },
        );
    }
    c.assumptions.push("Preemptions inside a task happen at group operations, pairing steps and hash calls (and at the start, end and join of tasks), not between single machine instructions: weak-memory effects are not explored.".into());
}

// ------------------------------------------------------------------ C25
/// (system, honest proof bytes, verdicts of a true and a false statement as a function of proof bytes)
type Verify = Box<dyn Fn(&[u8], bool) -> Verdict>;
fn all_bases() -> Vec<&'static dyn Base> {
    let mut v: Vec<&'static dyn Base> = vec![];
    gb::ALL.iter().for_each(|s| v.push(upg(*s)));
    tb::ALL.iter().for_each(|s| v.push(upt(*s)));
    sb::ALL.iter().for_each(|s| v.push(ups(*s)));
    v
}
fn upg(s: &'static dyn Gipa) -> &'static dyn Base {
    s
}
fn upt(s: &'static dyn Tipa) -> &'static dyn Base {
    s
}
fn ups(s: &'static dyn Ssm) -> &'static dyn Base {
    s
}
fn honest(ix: usize, n: usize, seed: u64) -> Result<(Vec<u8>, Verify), String> {
    let (x, y) = (bigv(13 + seed, n), bigv(14 + seed, n));
    let r = WBig::R;
    let (ng, nt) = (gb::ALL.len(), tb::ALL.len());
    if ix < ng {
        let s = gb::ALL[ix];
        let k = Key { a: bigv(11 + seed, n), b: bigv(12 + seed, n), t: if s.compact() { 77 + seed } else { 0 } };
        let t = dot(&x, &y, r);
        let com = s.com(&k, &x, &y, t);
        let p = s.prove(&x, &y, t, &k, &com).ok()?;
        let mut bad = com.clone();
        bad.b = addm(bad.b, 1, r);
        return Ok((p, Box::new(move |b, ok| s.verify(&k, if ok { &com } else { &bad }, b))));
    }
    if ix < ng + 2 * nt {
        let (s, shift) = (tb::ALL[(ix - ng) % nt], if ix < ng + nt { None } else { Some(big(15, seed)) });
        let (srs, mut k, vk) = s.setup(n, big(16, seed), big(17, seed), 5 + seed)?;
        if let Some(sh) = shift {
            k.a = had(&k.a, &powers(invm(sh, r), n, r), r);
        }
        let com = s.com(&k, &x, &y, dot(&x, &y, r));
        let p = s.prove(&srs, &x, &y, &k, shift).ok()?;
        let mut bad = com.clone();
        bad.a = addm(bad.a, 1, r);
        return Ok((p, Box::new(move |b, ok| s.verify(&vk, k.t, if ok { &com } else { &bad }, b, shift))));
    }
    let s = sb::ALL[ix - ng - 2 * nt];
    let (srs, k, vk) = s.setup(n, big(16, seed), big(17, seed), 5 + seed)?;
    let c = big(18, seed);
    let y = powers(c, n, r);
    let com = Com { a: dot(&k.a, &x, r), b: 0, t: s.tcom(k.t, dot(&x, &y, r)) };
    let p = s.prove(&srs, &x, &y, &k).ok()?;
    let mut bad = com.clone();
    bad.a = addm(bad.a, 1, r);
    Ok((p, Box::new(move |b, ok| s.verify(&vk, &k, if ok { &com } else { &bad }, c, b))))
}
fn system(ix: usize) -> &'static dyn Base {
    let (ng, nt) = (gb::ALL.len(), tb::ALL.len());
    let v = all_bases();
    if ix < ng {
        v[ix]
    } else if ix < ng + 2 * nt {
        v[ng + (ix - ng) % nt]
    } else {
        v[ix - nt]
    }
}
fn systems() -> usize {
    gb::ALL.len() + 2 * tb::ALL.len() + sb::ALL.len()
}
/// Reads and writes `b`, demanding success, the announced size, full consumption.
fn recode(s: &dyn Base, b: &[u8], ci: bool, va: bool, co: bool) -> Result<Vec<u8>, String> {
    let what = || format!("{}: {} input of {} bytes, validation {va}, {} output", s.name(), ["uncompressed", "compressed"][ci as usize], b.len(), ["uncompressed", "compressed"][co as usize]);
    match s.recode(b, ci, va, co) {
        Err(p) => Err(format!("{}: {p}", what())),
        Ok(Err(e)) => Err(format!("{}: refused: {e}", what())),
        Ok(Ok((o, size, used))) => {
            if size != o.len() {
                return Err(format!("{}: announced {size} bytes, wrote {}", what(), o.len()));
            }
            if used != b.len() {
                return Err(format!("{}: only {used} bytes consumed", what()));
            }
            Ok(o)
        }
    }
}
fn all_modes(s: &dyn Base, unc: &[u8]) -> Outcome {
    let comp = recode(s, unc, false, true, true)?;
    for va in [true, false] {
        for (b, ci) in [(unc, false), (&comp[..], true)] {
            for (co, want) in [(false, unc), (true, &comp[..])] {
                if recode(s, b, ci, va, co)? != want {
                    return Err(format!("{}: proof changed by a round trip (compressed {ci} -> {co}, validation {va})", s.name()));
                }
            }
            // embedded in a longer stream
            let mut l = b.to_vec();
            l.extend(b);
            match s.recode(&l, ci, va, ci) {
                Ok(Ok((o, _, used))) if used == b.len() && o == b => {}
                x => return Err(format!("{}: a proof followed by other data is not read back alone: {x:?}", s.name())),
            }
        }
    }
    tally("round trip");
    Ok(())
}
fn truncations(s: &dyn Base, b: &[u8], ci: bool) -> Outcome {
    for n in 0..b.len() {
        for va in [true, false] {
            match s.recode(&b[..n], ci, va, ci) {
                Ok(Err(_)) => {}
                Ok(Ok(_)) => return Err(format!("{}: a proof cut to {n} of {} bytes (compressed: {ci}) is accepted as a proof", s.name(), b.len())),
                Err(p) => return Err(format!("{}: a proof cut to {n} of {} bytes (compressed: {ci}): {p}", s.name(), b.len())),
            }
        }
        tally("truncation refused");
    }
    Ok(())
}
fn c25(c: &mut Checker) {
    let th = c.thorough;
    let sizes: &'static [usize] = if th { &[1, 2, 4, 8, 16] } else { &[1, 2, 4, 8] };
    c.scenario(
        Scenario {
            name: "honest-proofs",
            bounds: leak(format!("every GIPA, TIPA (plain, shifted) and structured-scalar system, 61-bit field, lengths {sizes:?}, {} instances: all 4 mode pairs, with and without validation, embedded in a stream, verdict for the true and a false statement before and after, every truncation point", if th { 4 } else { 2 })),
            dev: 0,
            oracle: OracleCfg::Real,
            require: &["round trip", "truncation refused", "verdict kept"],
        },
        move || {
            let (ix, n, seed) = (choose(systems()), choose_in(sizes), choose(if th { 4 } else { 2 }) as u64);
            let (b, verify) = honest(ix, n, seed)?;
            let s = system(ix);
            observe_u64s(&[ix as u64, n as u64, seed, digest(&b)]);
            all_modes(s, &b)?;
            let comp = recode(s, &b, false, true, true)?;
            let back = recode(s, &comp, true, true, false)?;
            for ok in [true, false] {
                let (v0, v1) = (verify(&b, ok), verify(&back, ok));
                if v0.word() != v1.word() || v0.accepted() != ok {
                    return Err(format!("{}: n={n}: verdict for a {} statement: before {v0:?}, after a round trip {v1:?}", s.name(), ok));
                }
                tally("verdict kept");
            }
            truncations(s, &b, false)?;
            truncations(s, &comp, true)
        },
    );
    let counts: &'static [usize] = if th { &[0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 15, 16, 17, 20, 32] } else { &[0, 1, 2, 3, 4, 7, 10, 17] };
    c.scenario(
        Scenario {
            name: "arbitrary-shapes",
            bounds: leak(format!("every system, proofs with {counts:?} rounds, identity outputs of length 0..3 in up to two slots (more than 4 rounds: one), two value patterns: written by an independent writer in both modes, read by the library, all mode pairs, every truncation point")),
            dev: 0,
            oracle: OracleCfg::None,
            require: &["round trip", "truncation refused", "modes differ"],
        },
        move || {
            let v = all_bases();
            let s = v[choose(v.len())];
            let ssm = s.name().starts_with("Ssm");
            let rounds = choose_in(counts);
            let pat = choose(2) as u64;
            let mut ctr = 0;
            let mut nx = || {
                ctr += 1;
                if pat == 0 {
                    big(33, ctr)
                } else {
                    ctr % 3
                }
            };
            let mut p = Prf::default();
            for _ in 0..rounds {
                let mut one = || Com { a: nx(), b: if ssm { 0 } else { nx() }, t: vec![nx()] };
                p.steps.push((one(), one()));
            }
            p.base = (nx(), nx());
            p.fck = (nx(), nx());
            p.open = (nx(), nx());
            if !s.compact() && rounds > 0 {
                for _ in 0..if rounds > 4 { 1 } else { 2 } {
                    let (j, side, len) = (if rounds > 4 { choose_in(&[0, rounds / 2, rounds - 1]) } else { choose(rounds) }, choose(2), choose(4));
                    let t = if side == 0 { &mut p.steps[j].0.t } else { &mut p.steps[j].1.t };
                    *t = (0..len as u64).map(|i| big(34, i)).collect();
                }
            }
            let (unc, comp) = (s.enc_mode(&p, false), s.enc_mode(&p, true));
            observe(&unc);
            if unc != comp {
                tally("modes differ");
            }
            if recode(s, &unc, false, true, true)? != comp {
                return Err(format!("{}: compressed form differs from the concatenation of its compressed fields", s.name()));
            }
            all_modes(s, &unc)?;
            validated();
            truncations(s, &unc, false)?;
            truncations(s, &comp, true)
        },
    );
    c.scenario(
        Scenario {
            name: "commitment-outputs",
            bounds: "identity outputs over scalars, group elements and target-group elements, lengths 0..=5, 16, 33, 64, 200, 1025, 5000 and 70000, both modes, validation, every truncation point (above 200: the first and last 40); placeholder values",
            dev: 0,
            oracle: OracleCfg::None,
            require: &["round trip", "truncation refused"],
        },
        || {
            use ark_dh_commitments::identity::{HomomorphicPlaceholderValue, IdentityOutput};
            use ark_ec::pairing::PairingOutput;
            use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, Compress, Validate};
            fn go<T: CanonicalSerialize + CanonicalDeserialize + PartialEq, E: CanonicalSerialize>(what: &str, x: &T, elems: &[E], len_prefix: bool) -> Outcome {
                for c in [Compress::Yes, Compress::No] {
                    let mut b = vec![];
                    x.serialize_with_mode(&mut b, c).map_err(|e| e.to_string())?;
                    observe(&b);
                    if x.serialized_size(c) != b.len() {
                        return Err(format!("{what}: announces {} bytes, writes {}", x.serialized_size(c), b.len()));
                    }
                    let mut w = vec![];
                    if len_prefix {
                        w.extend((elems.len() as u64).to_le_bytes());
                    }
                    for e in elems {
                        e.serialize_with_mode(&mut w, c).unwrap();
                    }
                    if w != b {
                        return Err(format!("{what}: written form is not the length followed by the elements"));
                    }
                    for v in [Validate::Yes, Validate::No] {
                        let mut rest = &b[..];
                        match guard(|| T::deserialize_with_mode(&mut rest, c, v)) {
                            Ok(Ok(y)) if &y == x && rest.is_empty() => {}
                            _ => return Err(format!("{what}: does not survive a round trip")),
                        }
                        for n in (0..b.len()).filter(|n| elems.len() <= 200 || *n < 40 || n + 40 >= b.len()) {
                            match guard(|| T::deserialize_with_mode(&b[..n], c, v)) {
                                Ok(Err(_)) => tally("truncation refused"),
                                _ => return Err(format!("{what}: cut to {n} of {} bytes is not refused", b.len())),
                            }
                        }
                    }
                    tally("round trip");
                }
                Ok(())
            }
            let n = choose_in(&[0usize, 1, 2, 3, 4, 5, 16, 33, 64, 200, 1025, 5000, 70_000]);
            let v = bigv(35 + choose(2) as u64, n);
            match choose(5) {
                0 => {
                    let e: Vec<_> = v.iter().map(|x| WBig::f(*x)).collect();
                    go("IdentityOutput of scalars", &IdentityOutput(e.clone()), &e, true)
                }
                1 => {
                    let e: Vec<_> = v.iter().map(|x| WBig::g1(*x)).collect();
                    go("IdentityOutput of first-group elements", &IdentityOutput(e.clone()), &e, true)
                }
                2 => {
                    let e: Vec<_> = v.iter().map(|x| WBig::g2(*x)).collect();
                    go("IdentityOutput of second-group elements", &IdentityOutput(e.clone()), &e, true)
                }
                3 => {
                    let e: Vec<PairingOutput<WBig>> = v.iter().map(|x| WBig::gtv(*x)).collect();
                    go("IdentityOutput of target-group elements", &IdentityOutput(e.clone()), &e, true)
                }
                _ => {
                    let none: [u8; 0] = [];
                    go("HomomorphicPlaceholderValue", &HomomorphicPlaceholderValue, &none, false)
                }
            }
        },
    );
}

// ------------------------------------------------------------------ C26
/// A proof shape: rounds present, content, and up to two identity outputs of other lengths.
fn content(r: u64, rounds: usize, pat: usize, ssm: bool, seed: u64) -> Prf {
    let mut i = 0;
    let mut nx = || {
        i += 1;
        match pat {
            0 => 0,
            1 => big(40 + seed, i) % r,
            _ => 1,
        }
    };
    let mut p = Prf::default();
    for _ in 0..rounds {
        let mut one = || Com { a: nx(), b: if ssm { 0 } else { nx() }, t: vec![nx()] };
        p.steps.push((one(), one()));
    }
    p.base = (nx(), nx());
    p.fck = (nx(), nx());
    p.open = (nx(), nx());
    p
}
const LENS: &[usize] = &[0, 2, 5, 300];
/// Changes the length of up to `k` identity outputs (statement's result first).
fn relength(p: &mut Prf, com: &mut Com, k: usize, r: u64) {
    for _ in 0..k {
        let mut slots = 1;
        if !p.steps.is_empty() {
            slots += 2;
        }
        if p.steps.len() > 1 {
            slots += 2;
        }
        let last = p.steps.len().wrapping_sub(1);
        let t = match choose(slots) {
            0 => &mut com.t,
            1 => &mut p.steps[0].0.t,
            2 => &mut p.steps[0].1.t,
            3 => &mut p.steps[last].0.t,
            _ => &mut p.steps[last].1.t,
        };
        let len = choose_in(LENS);
        let zero = choose(2) == 0;
        let old = t.clone();
        *t = (0..len).map(|i| if let Some(x) = old.get(i) { *x } else if zero { 0 } else { big(41, i as u64) % r }).collect();
    }
}
fn judge26(what: &str, v: Verdict, ok: impl FnOnce() -> bool, peak: u64, input: usize, desc: impl Fn() -> String) -> Outcome {
    let bound = (1u64 << 16) + 64 * input as u64;
    if peak > bound {
        return Err(format!("{what}: verification of {input} bytes of statement and proof took {peak} bytes of memory (allowed {bound}); {}", desc()));
    }
    match v {
        Verdict::Panic(e) => Err(format!("{what}: verifier panics: {e}; {}", desc())),
        Verdict::Accept => {
            if !ok() {
                return Err(format!("{what}: malformed proof accepted; {}", desc()));
            }
            tally("accepted (equations hold)");
            Ok(())
        }
        v => {
            tally(v.word());
            Ok(())
        }
    }
}
fn round_counts(true_rounds: usize, many: &[usize]) -> usize {
    let i = choose(true_rounds + 3 + many.len());
    if i < true_rounds + 3 {
        i
    } else {
        many[i - true_rounds - 3]
    }
}
fn c26(c: &mut Checker) {
    let th = c.thorough;
    let many: &'static [usize] = if th { &[16, 20, 31, 32, 33, 40, 62, 63, 64, 65, 100, 128, 1000] } else { &[20, 31, 40, 63, 64, 100] };
    let sizes: &'static [usize] = if th { &[1, 2, 4, 8, 16, 64, 256] } else { &[1, 2, 4, 8, 64] };
    let k = if th { 2 } else { 1 };
    let bounds: &'static str = leak(format!("key sizes {sizes:?}; rounds 0..true+2 and {many:?}; contents zero / dense / ones; up to {k} identity outputs re-sized to 0, 2, 5 or 300 (zero or dense tail); memory and verdict checked"));
    macro_rules! both {
        ($name:literal, $f:expr) => {
            c.scenario(Scenario { name: concat!($name, "-61-bit"), bounds, dev: 0, oracle: OracleCfg::Real, require: &["rejected"] }, move || $f(true));
            c.scenario(Scenario { name: concat!($name, "-F7"), bounds, dev: 0, oracle: OracleCfg::Real, require: &["rejected"] }, move || $f(false));
        };
    }
    let gipa = move |wide: bool| -> Outcome {
        let all: &[&'static dyn Gipa] = if wide { gb::ALL } else { g7::ALL };
        let s = choose_in(all);
        let r = s.r();
        let n = choose_in(sizes);
        let rounds = round_counts(n.trailing_zeros() as usize, many);
        let pat = choose(3);
        let mut p = content(r, rounds, pat, false, n as u64);
        let key = Key { a: bigv(43, n).iter().map(|x| x % r).collect(), b: bigv(44, n).iter().map(|x| x % r).collect(), t: if s.compact() { 1 } else { 0 } };
        let mut com = if pat == 0 { Com { a: 0, b: 0, t: vec![0] } } else { Com { a: 2, b: 3, t: vec![4] } };
        if !s.compact() {
            relength(&mut p, &mut com, choose(k + 1), r);
        }
        let b = s.enc(&p);
        observe(&b);
        observe_u64s(&[n as u64, rounds as u64, pat as u64]);
        let m = mark();
        let (v, peak) = mem::peak(|| s.verify(&key, &com, &b));
        let (hs, _) = s.challenges(m, rounds);
        judge26(s.name(), v, || gipa_accepts(s, &key, &com, &p, &hs), peak, b.len() + 64 * n + 16 * com.t.len(), || {
            format!("key size {n}, {rounds} rounds, content {pat}, output lengths {:?} / {:?}", com.t.len(), p.steps.iter().map(|(l, r)| (l.t.len(), r.t.len())).collect::<Vec<_>>())
        })
    };
    both!("gipa", gipa);
    let tipa = move |wide: bool| -> Outcome {
        let all: &[&'static dyn Tipa] = if wide { tb::ALL } else { t7::ALL };
        let s = choose_in(all);
        let r = s.r();
        // the verifier does not know the size: one reference string
        let rounds = round_counts(3, many);
        let pat = choose(3);
        let mut p = content(r, rounds, pat, false, 5);
        let vk = Vk { g: 1, h: 1, g_beta: 5, h_alpha: 3 };
        let mut com = if pat == 0 { Com { a: 0, b: 0, t: vec![0] } } else { Com { a: 2, b: 3, t: vec![4] } };
        let ckt = if s.compact() { 1 } else { 0 };
        if !s.compact() {
            relength(&mut p, &mut com, choose(k + 1), r);
        }
        let shift = choose_in(&[None, Some(1), Some(3), Some(r - 1)]);
        let b = s.enc(&p);
        observe(&b);
        observe_u64s(&[rounds as u64, pat as u64, shift.unwrap_or(0)]);
        let m = mark();
        let (v, peak) = mem::peak(|| s.verify(&vk, ckt, &com, &b, shift));
        let (hs, z) = s.challenges(m, rounds);
        judge26(s.name(), v, || tipa_accepts(s, &vk, ckt, &com, &p, shift.unwrap_or(1), &hs, z), peak, b.len() + 16 * com.t.len(), || {
            format!("{rounds} rounds, content {pat}, shift {shift:?}, output lengths {:?} / {:?}", com.t.len(), p.steps.iter().map(|(l, r)| (l.t.len(), r.t.len())).collect::<Vec<_>>())
        })
    };
    both!("tipa", tipa);
    let ssm = move |wide: bool| -> Outcome {
        let all: &[&'static dyn Ssm] = if wide { sb::ALL } else { s7::ALL };
        let s = choose_in(all);
        let r = s.r();
        let n = if s.transparent() { choose_in(sizes) } else { 8 };
        let rounds = round_counts(n.trailing_zeros() as usize, many);
        let pat = choose(3);
        let mut p = content(r, rounds, pat, true, n as u64);
        if !s.transparent() {
            p.fck.1 = 0;
            p.open.1 = 0;
        }
        let key = Key { a: bigv(43, n).iter().map(|x| x % r).collect(), b: vec![], t: if s.compact() { 1 } else { 0 } };
        let vk = Vk { g: 1, h: 1, g_beta: 5, h_alpha: 3 };
        let mut com = if pat == 0 { Com { a: 0, b: 0, t: vec![0] } } else { Com { a: 2, b: 0, t: vec![4] } };
        if !s.compact() {
            relength(&mut p, &mut com, choose(k + 1), r);
        }
        let scalar = choose_in(&[0, 1, 3, r - 1]);
        let b = s.enc(&p);
        observe(&b);
        observe_u64s(&[n as u64, rounds as u64, pat as u64, scalar]);
        let m = mark();
        let (v, peak) = mem::peak(|| s.verify(&vk, &key, &com, scalar, &b));
        let (hs, z) = s.challenges(m, rounds);
        judge26(s.name(), v, || ssm_accepts(s, &vk, &key, &com, scalar, &p, &hs, z), peak, b.len() + 64 * n + 16 * com.t.len(), || {
            format!("key size {n}, {rounds} rounds, content {pat}, scalar {scalar}, output lengths {:?} / {:?}", com.t.len(), p.steps.iter().map(|(l, r)| (l.t.len(), r.t.len())).collect::<Vec<_>>())
        })
    };
    both!("structured-scalar", ssm);
    c.scenario(
        Scenario { name: "polynomial-commitments", bounds: leak(format!("both schemes, univariate and bivariate verifiers, grids 1x1..8x4, outer and inner arguments each with rounds 0..true+2 or one of {many:?}, contents zero / dense / ones, identity outputs re-sized; points 0, 1 and a dense one")), dev: 0, oracle: OracleCfg::Real, require: &["rejected"] },
        move || {
            let s: &'static dyn Pc = choose_in(&[&pb::Trusted as &'static dyn Pc, &pb::Transparent]);
            let r = s.r();
            let (x, y) = choose_in(&[(0usize, 0usize), (1, 1), (3, 1), (7, 3)]);
            let key = if s.trusted() { PcKey::trusted(x, y, 3, 5, r) } else { PcKey::transparent(bigv(45, y + 1), bigv(46, x + 1)) };
            let lx = (x + 1).trailing_zeros() as usize;
            let ly = (y + 1).trailing_zeros() as usize;
            let pat = choose(3);
            let inner = !s.trusted() && choose(2) == 1;
            let (ra, rb) = if inner { (lx, round_counts(ly, many)) } else { (round_counts(lx, many), ly) };
            let mut p = PcProof { second: content(r, ra, pat, true, 1), y: if pat == 0 { 0 } else { 9 }, first: content(r, rb, pat, true, 2), kzg: if pat == 0 { 0 } else { 8 } };
            if s.trusted() {
                p.second.fck.1 = 0;
                p.second.open.1 = 0;
                p.first = Prf::default();
            }
            let mut unused = Com { a: 0, b: 0, t: vec![0] };
            relength(if inner { &mut p.first } else { &mut p.second }, &mut unused, choose(k + 1), r);
            let z = choose_in(&[(0, 0), (1, 1), (big(47, 0), big(47, 1))]);
            let e = if pat == 0 { 0 } else { 6 };
            let com = if pat == 0 { 0 } else { 7 };
            let uni = choose(2) == 1;
            let b = s.enc(&p);
            observe(&b);
            observe_u64s(&[x as u64, y as u64, z.0, z.1, uni as u64]);
            let deg = (x + 1) * (y + 1) - 1;
            let (v, peak) = mem::peak(|| if uni { s.verify_uni(&key, deg, &s.com_of(com), z.1, e, &b) } else { s.verify_bi(&key, &s.com_of(com), z, e, &b) });
            let pt = if uni { (powm(z.1, key.g.len() as u64, r), z.1) } else { z };
            judge26(s.name(), v, || s.accepts(&key, com, pt, e, &p), peak, b.len() + 64 * (x + y + 2), || format!("degrees ({x},{y}), univariate {uni}, outer rounds {ra}, inner rounds {rb}, content {pat}, point {z:?}"))
        },
    );
    c.scenario(
        Scenario { name: "aggregated-proofs", bounds: leak(format!("aggregate verifier, 1..=4 instances with 0..2 inputs each, both inner arguments each with rounds 0..true+2 or one of {many:?}, contents zero / dense / ones")), dev: 0, oracle: OracleCfg::Real, require: &["rejected"] },
        move || {
            let s: &'static dyn Groth = &ab::Aggregation;
            let n = 1 + choose(4);
            let rounds = n.next_power_of_two().trailing_zeros() as usize;
            let pat = choose(3);
            let first = choose(2) == 0;
            let q = round_counts(rounds, many);
            let (ra, rb) = if first { (q, rounds) } else { (rounds, q) };
            let mut a = mc::groth::Agg { v: if pat == 0 { [0; 5] } else { [2, 3, 4, 5, 6] }, ab: content(s.r(), ra, pat, false, 3), c: content(s.r(), rb, pat, true, 4) };
            a.c.fck.1 = 0;
            a.c.open.1 = 0;
            let mut unused = Com { a: 0, b: 0, t: vec![0] };
            relength(if first { &mut a.ab } else { &mut a.c }, &mut unused, choose(k + 1), s.r());
            let g = mc::groth::GVk { alpha: 2, beta: 3, gamma: 4, delta: 5, abc: vec![6, 7, 8] };
            let len = choose(4);
            let x: Vec<Vec<u64>> = (0..n as u64).map(|i| bigv(48 + i, len)).collect();
            let vk = Vk { g: 1, h: 1, g_beta: 5, h_alpha: 3 };
            let b = s.enc(&a);
            observe(&b);
            observe_u64s(&[n as u64, len as u64]);
            let m = mark();
            let (v, peak) = mem::peak(|| s.verify(&vk, &g, &x, &b));
            let rho = s.combination(m);
            judge26("aggregation", v, || rho.is_some_and(|rho| s.accepts(&vk, &g, &x, &a, rho)), peak, b.len() + 64 * n * (len + 1), || format!("{n} instances of {len} inputs, rounds {ra}/{rb}, content {pat}"))
        },
    );
    c.assumptions.push("Running time is only bounded by the watchdog (90 s for a proof of at most a few kilobytes) and by the memory bound.".into());
}

// ------------------------------------------------------------------ C27
mod fork {
    extern "C" {
        pub fn fork() -> i32;
        pub fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
        pub fn pipe(fds: *mut i32) -> i32;
        pub fn read(fd: i32, b: *mut u8, n: usize) -> isize;
        pub fn write(fd: i32, b: *const u8, n: usize) -> isize;
        pub fn close(fd: i32) -> i32;
        pub fn _exit(c: i32) -> !;
    }
}
/// Runs `f` in a forked copy of this (single-threaded) process and returns what it writes.
fn forked(f: impl FnOnce() -> Vec<u8>) -> Vec<u8> {
    unsafe {
        let mut p = [0i32; 2];
        assert_eq!(fork::pipe(p.as_mut_ptr()), 0);
        let pid = fork::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            fork::close(p[0]);
            let v = f();
            let mut at = 0;
            while at < v.len() {
                let k = fork::write(p[1], v[at..].as_ptr(), v.len() - at);
                if k <= 0 {
                    break;
                }
                at += k as usize;
            }
            fork::_exit(0);
        }
        fork::close(p[1]);
        let mut v = vec![];
        let mut b = [0u8; 65536];
        loop {
            let k = fork::read(p[0], b.as_mut_ptr(), b.len());
            if k <= 0 {
                break;
            }
            v.extend(&b[..k as usize]);
        }
        fork::close(p[0]);
        let mut st = 0;
        fork::waitpid(pid, &mut st, 0);
        if st != 0 {
            v.extend(format!("X process died with status {st}\n").bytes());
        }
        v
    }
}
fn quiet() {
    std::panic::set_hook(Box::new(|_| {}));
}
/// What a worker explores: the calls and the groups within which they are combined.
fn history_plan(what: &str, size: usize, step: usize) -> (Vec<corpus::Op>, Vec<Vec<usize>>) {
    if what == "near" {
        let mut ops = vec![];
        let mut groups = vec![];
        for f in corpus::near(size) {
            groups.push((ops.len()..ops.len() + f.len()).collect());
            ops.extend(f);
        }
        (ops, groups)
    } else {
        let ops = corpus::ops(size);
        let g = (0..ops.len()).step_by(step).collect();
        (ops, vec![g])
    }
}
/// Worker: explores the histories whose first call is in its share. Lines written:
/// `B i digest` fresh-process result, `N count` histories, `V i j k ...` differing history.
fn worker(what: &str, size: usize, depth: usize, step: usize, share: usize, shares: usize) {
    quiet();
    let (ops, groups) = history_plan(what, size, step);
    let dg = |i: usize| digest(&(ops[i].run)());
    let mine = |i: usize| i % shares == share;
    let mut base: std::collections::BTreeMap<usize, u64> = Default::default();
    for g in &groups {
        if what == "near" && !mine(g[0]) {
            continue;
        }
        for &i in g {
            base.insert(i, u64::from_le_bytes(forked(|| dg(i).to_le_bytes().to_vec()).try_into().unwrap_or([0xff; 8])));
            println!("B {i} {}", base[&i]);
        }
    }
    let expect = |i: usize| base[&i];
    // every history of `depth` calls, one forked process per edge
    fn rec(hist: &mut Vec<usize>, depth: usize, alpha: &[usize], dg: &dyn Fn(usize) -> u64, expect: &dyn Fn(usize) -> u64, count: &mut u64, out: &mut String) {
        if depth == 0 {
            return;
        }
        for &i in alpha {
            let o = forked(|| {
                let mut s = String::new();
                let mut n = 1;
                hist.push(i);
                if dg(i) != expect(i) {
                    s += &format!("V {}\n", hist.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
                } else {
                    rec(hist, depth - 1, alpha, dg, expect, &mut n, &mut s);
                }
                s += &format!("N {n}\n");
                s.into_bytes()
            });
            for l in String::from_utf8_lossy(&o).lines() {
                match l.strip_prefix("N ") {
                    Some(n) => *count += n.parse::<u64>().unwrap(),
                    None if out.matches('\n').count() < 20 => *out += &format!("{l}\n"),
                    None => {}
                }
            }
        }
    }
    let (mut count, mut out) = (0, String::new());
    let mut nth = 0;
    for alpha in &groups {
        for &first in alpha {
            nth += 1;
            if if what == "near" { !mine(alpha[0]) } else { nth % shares != share } {
                continue;
            }
            let o = forked(|| {
                let (mut n, mut s) = (1, String::new());
                if dg(first) != expect(first) {
                    s += &format!("V {first}\n");
                }
                let mut h = vec![first];
                rec(&mut h, depth - 1, alpha, &dg, &expect, &mut n, &mut s);
                s += &format!("N {n}\n");
                s.into_bytes()
            });
            for l in String::from_utf8_lossy(&o).lines() {
                match l.strip_prefix("N ") {
                    Some(n) => count += n.parse::<u64>().unwrap(),
                    None => out += &format!("{l}\n"),
                }
            }
        }
    }
    print!("{out}");
    println!("N {count}");
    // long history in one process: all calls forwards, backwards, twice each
    let mut n = 0;
    let mut order: Vec<usize> = base.keys().copied().collect();
    if share % 2 == 1 {
        order.reverse();
    }
    if !order.is_empty() {
        let k = share * order.len() / shares;
        order.rotate_left(k);
    }
    let all = forked(|| {
        let mut s = String::new();
        for (k, &i) in order.iter().chain(order.iter().rev()).enumerate() {
            for rep in 0..2 {
                if dg(i) != expect(i) && s.len() < 2000 {
                    s += &format!("L {i} {k} {rep} {share} {shares}\n");
                }
            }
        }
        s.into_bytes()
    });
    n += 4 * order.len();
    print!("{}", String::from_utf8_lossy(&all));
    println!("M {n}");
}
fn c27(c: &mut Checker) {
    let th = c.thorough;
    let plans: &[(&str, &str, usize, usize, usize)] = if th {
        &[
            ("pairs", "all", 17, 2, 1),
            ("triples", "all", 8, 3, 5),
            ("four-calls", "all", 4, 4, 23),
            ("near-4", "near", 4, 3, 1),
            ("near-16", "near", 16, 2, 1),
            ("near-64", "near", 64, 2, 1),
            ("near-256", "near", 256, 2, 1),
        ]
    } else {
        &[("pairs", "all", 4, 2, 1), ("triples", "all", 4, 3, 9), ("near-4", "near", 4, 2, 1), ("near-64", "near", 64, 2, 1)]
    };
    let exe = std::env::current_exe().unwrap();
    for (name, what, max, depth, step) in plans.iter().copied() {
        if c.is_replay() {
            continue;
        }
        let t0 = std::time::Instant::now();
        let (ops, groups) = history_plan(what, max, step);
        let k = groups.iter().map(|g| g.len()).sum::<usize>();
        let shares = 8.min(k);
        let kids: Vec<_> = (0..shares)
            .map(|i| {
                std::process::Command::new(&exe)
                    .args(["--histories", what, &max.to_string(), &depth.to_string(), &step.to_string(), &i.to_string(), &shares.to_string()])
                    .stdout(std::process::Stdio::piped())
                    .spawn()
                    .expect("worker")
            })
            .collect();
        let mut st = ScenarioStats { name: name.into(), complete: true, ..Default::default() };
        st.bounds = if what == "near" {
            format!("{k} calls in {} families (one function each; vectors of {max}, also half, double and one shorter; calls of a family differ in one entry of one argument, in one whole argument, by an exchange of two entries, or in length), every history of up to {depth} calls of a family, each in its own process; all calls twice in each of {shares} long histories", groups.len())
        } else {
            format!("{k} calls (vectors up to {max}, every {step}th of the catalogue), every history of up to {depth} of them, each in its own process; every call twice in each of {shares} long histories; fresh-process results compared across {shares} processes")
        };
        let mut bad: Vec<(Vec<u16>, String)> = vec![];
        let mut base: std::collections::BTreeMap<usize, String> = Default::default();
        let nm = |i: &str| ops[i.parse::<usize>().unwrap()].name.clone();
        let outs: Vec<_> = kids.into_iter().map(|k| std::thread::spawn(move || k.wait_with_output().expect("worker output"))).collect();
        for o in outs {
            let o = o.join().unwrap();
            if !o.status.success() {
                bad.push((vec![], format!("history worker failed: {}", o.status)));
            }
            for l in String::from_utf8_lossy(&o.stdout).lines() {
                let w: Vec<&str> = l.split(' ').collect();
                match w[0] {
                    "B" => {
                        let e = base.entry(w[1].parse().unwrap()).or_insert(w[2].to_string());
                        if e != w[2] {
                            bad.push((vec![], format!("{}: two fresh processes compute different results", nm(w[1]))));
                        }
                    }
                    "V" => bad.push((
                        w[1..].iter().map(|x| x.parse().unwrap()).collect(),
                        format!("result of the last call differs from its result in a fresh process: {}", w[1..].iter().map(|i| nm(i)).collect::<Vec<_>>().join(" ; ")),
                    )),
                    "L" => bad.push((vec![], format!("{}: result differs from its result in a fresh process after a history of {} calls (worker {} of {})", nm(w[1]), w[2], w[4], w[5]))),
                    "N" => st.executions += w[1].parse::<u64>().unwrap(),
                    "M" => {
                        st.executions += 1;
                        st.edges += w[1].parse::<u64>().unwrap();
                    }
                    "X" => bad.push((vec![], format!("a call ended its process: {l}"))),
                    _ => {}
                }
            }
        }
        st.edges += st.executions;
        st.max_depth = depth;
        st.secs = t0.elapsed().as_secs_f64();
        st.tallies.insert("calls", k as u64);
        c.states_add(&base.values().map(|d| d.parse().unwrap_or(0)).collect::<Vec<u64>>());
        bad.sort_by_key(|b| b.0.len());
        let v = bad.first().map(|b| b.1.clone());
        if let Some(b) = bad.first() {
            c.external_choices(b.0.clone());
        }
        c.external(st, v);
    }
}

mc::wide_gipas!(gw);
mc::wide_tipas!(tw);
mc::wide_ssms!(sw);
fn wide25(c: &mut Checker) {
    use mc::wide::roundtrip;
    let sizes: &[usize] = if c.thorough { &[1, 2, 4, 8] } else { &[1, 2] };
    roundtrip::<gw::PairingIdentity>(c, sizes);
    roundtrip::<gw::MultiexpIdentity>(c, sizes);
    roundtrip::<gw::ScalarCompact>(c, sizes);
    roundtrip::<tw::TipaPairing>(c, sizes);
    roundtrip::<tw::TipaMultiexp>(c, sizes);
    roundtrip::<tw::TipaScalarCompact>(c, sizes);
    roundtrip::<sw::SsmTransparentScalar>(c, sizes);
    roundtrip::<sw::SsmTransparentMultiexp>(c, sizes);
    roundtrip::<sw::SsmLogMultiexp>(c, sizes);
    roundtrip::<sw::SsmLogScalar>(c, sizes);
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "--histories" {
        let n: Vec<usize> = a[3..8].iter().map(|x| x.parse().unwrap()).collect();
        return worker(&a[2], n[0], n[1], n[2], n[3], n[4]);
    }
    let mut c = Checker::new(&a[1], &a[2]);
    match a[1].as_str() {
        "C23" => c23(&mut c),
        "C25" => {
            c25(&mut c);
            wide25(&mut c)
        }
        "C26" => c26(&mut c),
        "C27" => c27(&mut c),
        x => panic!("unknown property {x}"),
    }
    c.finish()
}
