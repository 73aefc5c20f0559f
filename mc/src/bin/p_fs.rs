//! C09: challenges of GIPA, TIPA and the structured-scalar variants bind the statement and all
//! earlier messages. 61-bit world, real hash (plus enumerated unusable digests).
use mc::{explore::*, gens::*, oracle::*, proto::*, refm::*, world::*};

mc::gipa_world!(g, WBig, wbig);
mc::tipa_world!(t, WBig, wbig);
mc::ssm_world!(s, WBig, wbig);
mc::wide_gipas!(gw);
mc::wide_tipas!(tw);
mc::wide_ssms!(sw);

const R: u64 = WBig::R;

#[derive(Clone, Copy)]
enum Sys {
    G(&'static dyn Gipa),
    T(&'static dyn Tipa),
    S(&'static dyn Ssm),
}
struct St {
    n: usize,
    k: Key,
    vk: Vk,
    srs: Srs,
    a: Vec<u64>,
    b: Vec<u64>,
    com: Com,
    scalar: u64,
}
impl Sys {
    fn base(&self) -> &'static dyn Base {
        match self {
            Sys::G(x) => *x,
            Sys::T(x) => *x,
            Sys::S(x) => *x,
        }
    }
    fn name(&self) -> &'static str {
        self.base().name()
    }
    fn ssm(&self) -> bool {
        matches!(self, Sys::S(_))
    }
    /// Is there a key challenge?
    fn keyed(&self) -> bool {
        match self {
            Sys::G(_) => false,
            Sys::T(_) => true,
            Sys::S(x) => !x.transparent(),
        }
    }
    fn state(&self, n: usize, which: u64) -> St {
        let (al, be) = (big(7, which), big(8, which));
        let srs = Srs::model(n, al, be, R);
        let mut k = if self.keyed() { srs.key(0) } else { Key { a: bigv(3 + which, n), b: bigv(4 + which, n), t: 0 } };
        k.t = if self.base().compact() { big(9, which) } else { 0 };
        let scalar = big(6, which);
        let a = bigv(1 + 10 * which, n);
        let b = if self.ssm() { powers(scalar, n, R) } else { bigv(2 + 10 * which, n) };
        let mut com = Com { a: dot(&k.a, &a, R), b: 0, t: self.base().tcom(k.t, dot(&a, &b, R)) };
        if !self.ssm() {
            com.b = dot(&k.b, &b, R);
        }
        let vk = srs.vk();
        St { n, k, vk, srs, a, b, com, scalar }
    }
    fn verify(&self, st: &St, com: &Com, scalar: u64, p: &Prf) -> Verdict {
        let bytes = self.base().enc(p);
        match self {
            Sys::G(x) => x.verify(&st.k, com, &bytes),
            Sys::T(x) => x.verify(&st.vk, st.k.t, com, &bytes, None),
            Sys::S(x) => x.verify(&st.vk, &st.k, com, scalar, &bytes),
        }
    }
    fn prove(&self, st: &St) -> Result<Vec<u8>, String> {
        match self {
            Sys::G(x) => x.prove_aux(&st.a, &st.b, &st.k),
            Sys::T(x) => x.prove(&st.srs, &st.a, &st.b, &st.k, None),
            Sys::S(x) => x.prove(&st.srs, &st.a, &st.b, &st.k),
        }
        .ok()
    }
    /// Challenges the verifier uses on (com, scalar, p), its queries, and its verdict.
    fn run(&self, st: &St, com: &Com, scalar: u64, p: &Prf) -> (Vec<u64>, Option<u64>, Vec<Vec<u8>>, Verdict) {
        let m = mark();
        let v = self.verify(st, com, scalar, p);
        let (hs, z) = self.base().challenges(m, p.steps.len());
        (hs, z, queries_since(m), v)
    }
    /// Number of base queries made before round `k` is hashed (k = rounds: before the key challenge).
    fn before(&self, m: usize, to: usize, k: usize, rounds: usize) -> usize {
        let mut done = 0;
        for (i, d) in bytes_since(m)[..to - m].iter().enumerate() {
            if done >= k {
                return i;
            }
            let ok = if done < rounds { self.base().hval(d) != 0 } else { self.base().fval(d).is_some() };
            done += ok as usize;
        }
        to - m
    }
    /// Messages an honest prover sends when the verifier holds (com, scalar), built round by round
    /// from the verifier's own challenges; `twist` edits them before they are hashed.
    fn build(&self, st: &St, com: &Com, scalar: u64, twist: &dyn Fn(&mut Prf)) -> Result<Prf, String> {
        let rounds = st.n.trailing_zeros() as usize;
        let zero = || Com { a: 0, b: 0, t: self.base().tcom(0, 0) };
        let mut p = Prf { steps: vec![(zero(), zero()); rounds], base: (1, 1), fck: (1, 1), open: (1, 1) };
        for j in 0..=rounds {
            let (hs, z, _, v) = self.run(st, com, scalar, &p);
            if hs.len() != rounds || (self.keyed() && z.is_none()) {
                return Err(format!("{}: verifier drew {} of {rounds} challenges ({v:?})", self.name(), hs.len()));
            }
            let q = gipa_prover(self.base(), &st.a, &st.b, &st.k, &hs, self.ssm());
            // messages of rounds <= j are final
            for i in 0..=j.min(rounds.wrapping_sub(1)).min(rounds) {
                if i < rounds {
                    p.steps[rounds - 1 - i] = q.steps[rounds - 1 - i].clone();
                }
            }
            p.base = q.base;
            p.fck = q.fck;
            twist(&mut p);
            if j == rounds && self.keyed() {
                let z = self.run(st, com, scalar, &p).1.ok_or("no key challenge")?;
                p.open = tipa_openings(&st.srs, &hs, z, 1, R);
            }
        }
        Ok(p)
    }
    fn honest(&self, st: &St) -> Result<Prf, String> {
        let p = self.build(st, &st.com, st.scalar, &|_| ())?;
        let (_, _, _, v) = self.run(st, &st.com, st.scalar, &p);
        if !v.accepted() {
            return Err(format!("{}: honest proof for length {} not accepted under the real hash: {v:?}", self.name(), st.n));
        }
        Ok(p)
    }
    /// Left minus right side of every equation the property mentions.
    fn residuals(&self, st: &St, com: &Com, scalar: u64, p: &Prf, hs: &[u64], z: Option<u64>) -> Vec<u64> {
        let mut c0 = com.clone();
        if self.ssm() {
            c0.b = 0;
        }
        let fc = fold_com(&c0, p, hs, R);
        let mut v = vec![];
        let fk = if self.keyed() { p.fck } else { fold_keys(&Key { a: st.k.a.clone(), b: if self.ssm() { st.k.a.clone() } else { st.k.b.clone() }, t: 0 }, hs, R) };
        v.push(subm(fc.a, mulm(fk.0, p.base.0, R), R));
        let t = |x: u64| subm(fc.t.first().copied().unwrap_or(0), self.base().tcom(st.k.t, mulm(p.base.0, x, R))[0], R);
        if self.ssm() {
            v.push(t(folded_powers(scalar, hs, R)));
            if !self.keyed() {
                v.push(t(p.base.1));
                v.push(fc.b);
            }
        } else {
            v.push(subm(fc.b, mulm(fk.1, p.base.1, R), R));
            v.push(t(p.base.1));
        }
        if let (true, Some(z)) = (self.keyed(), z) {
            // linear forms of the key openings
            let one = |f: bool| keys_ok(self.base(), &st.vk, p, hs, z, 1, f);
            v.push(if one(false) { 0 } else { 1 });
            if !self.ssm() {
                v.push(if one(true) { 0 } else { 1 });
            }
        }
        v
    }
}

/// Statement and proof slots that challenges must depend on: (round that must change first).
enum Slot {
    Com(usize),
    Scalar,
    Proof(usize),
}
fn slots(sys: Sys, com: &Com, p: &Prf) -> Vec<(Slot, usize, String)> {
    let rounds = p.steps.len();
    let mut v = vec![];
    for i in 0..2 + com.t.len() {
        if i == 1 && sys.ssm() {
            continue;
        }
        v.push((Slot::Com(i), 0, format!("commitment {}", ["left", "right", "result"][i.min(2)])));
    }
    if sys.ssm() {
        v.push((Slot::Scalar, 0, "scalar".into()));
    }
    let total = prf_slots(p);
    for i in 0..total {
        let nm = prf_slot_name(p, i);
        match prf_slot_round(p, i) {
            Some(j) => v.push((Slot::Proof(i), j, nm)),
            None if sys.keyed() && (nm == "final left key" || (nm == "final right key" && !sys.ssm())) => v.push((Slot::Proof(i), rounds, nm)),
            _ => {}
        }
    }
    v
}
fn apply<'a>(s: &Slot, com: &'a mut Com, scalar: &'a mut u64, p: &'a mut Prf) -> &'a mut u64 {
    match s {
        Slot::Com(i) => com_slot(com, *i),
        Slot::Scalar => scalar,
        Slot::Proof(i) => prf_slot(p, *i),
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut c = Checker::new(&a[1], &a[2]);
    let th = c.thorough;
    c.assumptions.push("group, field and pairing arithmetic of the backend is correct; replaced by transparent groups over a 61-bit prime field (scenarios named bls12-381: the real curve)".into());
    c.assumptions.push("Blake2s does not collide on the enumerated inputs; a challenge depends on a value iff the hash inputs it is derived from do".into());
    let all: Vec<Sys> = g::ALL.iter().map(|x| Sys::G(*x)).chain(t::ALL.iter().map(|x| Sys::T(*x))).chain(s::ALL.iter().map(|x| Sys::S(*x))).collect();
    for sys in all {
        let sizes: &[usize] = if th { &[1, 2, 4, 8, 16, 32, 64, 128, 256, 512] } else { &[1, 2, 4, 8, 32, 128] };
        for &n in sizes {
            if n == 1 && !sys.keyed() {
                continue;
            }
            let dev = if n <= if th { 4 } else { 2 } { 2 } else { 0 };
            c.scenario(
                Scenario {
                    name: leak(format!("{}-depends-n{n}", sys.name())),
                    bounds: leak(format!("length {n}, 61-bit field, real hash with up to {dev} digests replaced by unusable ones: every commitment, scalar, cross commitment and final key changed by {} value(s), rounds' halves exchanged, identity outputs re-shaped; no challenge query at or after the change may coincide", if th { 4 } else { 2 })),
                    dev,
                    oracle: OracleCfg::RealDev(R),
                    require: &["changed"],
                },
                move || {
                    let st = sys.state(n, 0);
                    let p = sys.honest(&st)?;
                    if sys.base().enc(&p).len() == sys.prove(&st)?.len() {
                        let pb = sys.prove(&st)?;
                        let mine = sys.base().enc(&p);
                        // unused slots of the mirror do not reach the bytes
                        if pb == mine {
                            validated();
                        } else if std::env::var("MC_DEBUG").is_ok() {
                            eprintln!("{}: prover bytes differ from the model", sys.name());
                        }
                    }
                    let m = mark();
                    let (_, _, q0, _) = sys.run(&st, &st.com, st.scalar, &p);
                    let end = mark();
                    let rounds = p.steps.len();
                    let sl = slots(sys, &st.com, &p);
                    let (mut com, mut x, mut pp) = (st.com.clone(), st.scalar, p.clone());
                    let ident = !sys.base().compact();
                    let i = choose(sl.len() + rounds + if ident { 2 * (1 + 2 * rounds) } else { 0 });
                    let (first, what) = if i < sl.len() {
                        let d = [1, R / 3, R - 1, 1 << 40][choose(if th { 4 } else { 2 })];
                        let y = apply(&sl[i].0, &mut com, &mut x, &mut pp);
                        *y = addm(*y, d, R);
                        (sl[i].1, format!("{} changed", sl[i].2))
                    } else if i < sl.len() + rounds {
                        let j = i - sl.len();
                        let (l, r) = pp.steps[j].clone();
                        if l == r {
                            return excluded();
                        }
                        pp.steps[j] = (r, l);
                        (rounds - 1 - j, format!("halves of round {} exchanged", rounds - 1 - j))
                    } else {
                        let j = i - sl.len() - rounds;
                        let (o, j) = (j % 2, j / 2);
                        let (tv, f, w) = if j == 0 {
                            (&mut com.t, 0, "statement's result".to_string())
                        } else {
                            let q = (j - 1) / 2;
                            let s = &mut pp.steps[q];
                            (if j % 2 == 1 { &mut s.0.t } else { &mut s.1.t }, rounds - 1 - q, format!("result of round {}", rounds - 1 - q))
                        };
                        if o == 0 {
                            tv.push(0)
                        } else {
                            tv.insert(0, 0)
                        }
                        (f, format!("{w} extended by a zero"))
                    };
                    note(|| what.clone());
                    observe_u64s(&[i as u64, com.a, com.b, x]);
                    let (_, _, q1, v) = sys.run(&st, &com, x, &pp);
                    if rounds == 0 && (i >= sl.len() || !matches!(sl[i].0, Slot::Proof(_))) {
                        // no round challenge to depend on the statement
                        return Ok(());
                    }
                    let allowed = sys.before(m, end, first, rounds);
                    let extra = q0.len() - sys.before(m, end, rounds + sys.keyed() as usize, rounds);
                    let shared = q0.iter().filter(|q| q1.contains(q)).count();
                    if shared > allowed + extra {
                        return Err(format!("{}: length {n}: {what}, yet {shared} of the verifier's {} hash inputs are unchanged (at most {allowed} precede the change; verdict {v:?})", sys.name(), q0.len()));
                    }
                    tally("changed");
                    validated();
                    Ok(())
                },
            );
        }
        let sizes: &[usize] = if th { &[1, 2, 4, 8, 16, 32, 64] } else { &[1, 2, 4, 8, 16] };
        for &n in sizes {
            if n == 1 && !sys.keyed() {
                continue;
            }
            c.scenario(
                Scenario {
                    name: leak(format!("{}-forge-n{n}", sys.name())),
                    bounds: leak(format!("length {n}: every ordered pair (slot falsified, slot repaired) among commitments, scalar, cross commitments and final keys: fix the messages, learn the challenges, solve the verification equations for the repaired slot, verify again")),
                    dev: 0,
                    oracle: OracleCfg::Real,
                    require: if n == 1 { &[] } else { &["forgery rejected"] },
                },
                move || {
                    let st = sys.state(n, 0);
                    let p = sys.honest(&st)?;
                    let sl = slots(sys, &st.com, &p);
                    let (i, j) = (choose(sl.len()), choose(sl.len()));
                    if i == j {
                        return excluded();
                    }
                    observe_u64s(&[i as u64, j as u64]);
                    let (mut com, mut x) = (st.com.clone(), st.scalar);
                    let bump = |v: &mut u64| *v = addm(*v, big(5, 1), R);
                    match &sl[i].0 {
                        Slot::Com(k) => bump(com_slot(&mut com, *k)),
                        Slot::Scalar => bump(&mut x),
                        Slot::Proof(_) => {}
                    }
                    let mut pp = sys.build(&st, &com, x, &|p| {
                        if let Slot::Proof(k) = sl[i].0 {
                            bump(prf_slot(p, k))
                        }
                    })?;
                    let (hs, z, _, v) = sys.run(&st, &com, x, &pp);
                    let res = |com: &Com, x: u64, p: &Prf| sys.residuals(&st, com, x, p, &hs, z);
                    if res(&com, x, &pp).iter().all(|v| *v == 0) {
                        tally("still valid");
                        return Ok(());
                    }
                    if v.accepted() {
                        return Err(format!("{}: length {n}: {} changed and still accepted", sys.name(), sl[i].2));
                    }
                    let old = *apply(&sl[j].0, &mut com, &mut x, &mut pp);
                    let mut at = |val: u64, com: &mut Com, x: &mut u64, pp: &mut Prf| {
                        *apply(&sl[j].0, com, x, pp) = val;
                        res(com, *x, pp)
                    };
                    let r0 = at(0, &mut com, &mut x, &mut pp);
                    let r1 = at(1, &mut com, &mut x, &mut pp);
                    let mut sol = None;
                    for (u, w) in r0.iter().zip(&r1) {
                        let s = subm(*w, *u, R);
                        if s != 0 && *u != 0 {
                            sol = Some(mulm(subm(0, *u, R), invm(s, R), R));
                            break;
                        }
                    }
                    let Some(val) = sol else {
                        tally("no solution");
                        return Ok(());
                    };
                    if val == old || at(val, &mut com, &mut x, &mut pp).iter().any(|v| *v != 0) {
                        tally("no solution");
                        return Ok(());
                    }
                    let (_, _, _, v) = sys.run(&st, &com, x, &pp);
                    if v.accepted() {
                        return Err(format!("{}: length {n}: forged: {} falsified, challenges learned, {} then chosen as {val}, accepted", sys.name(), sl[i].2, sl[j].2));
                    }
                    tally("forgery rejected");
                    Ok(())
                },
            );
        }
    }
    let sizes: &[usize] = if th { &[2, 4, 8, 16, 32] } else { &[2, 4, 8] };
    mc::wide::binding::<gw::PairingIdentity>(&mut c, sizes);
    mc::wide::binding::<gw::MultiexpIdentity>(&mut c, sizes);
    mc::wide::binding::<gw::ScalarCompact>(&mut c, sizes);
    mc::wide::binding::<tw::TipaPairing>(&mut c, sizes);
    mc::wide::binding::<tw::TipaMultiexp>(&mut c, sizes);
    mc::wide::binding::<tw::TipaScalarCompact>(&mut c, sizes);
    mc::wide::binding::<sw::SsmTransparentScalar>(&mut c, sizes);
    mc::wide::binding::<sw::SsmTransparentMultiexp>(&mut c, sizes);
    mc::wide::binding::<sw::SsmLogMultiexp>(&mut c, sizes);
    mc::wide::binding::<sw::SsmLogScalar>(&mut c, sizes);
    c.finish()
}
