//! C24: the catalogue of calls in one build, and its comparison across builds.
//!   p_corpus dump MAX        every call's result in this build, one line each
//!   p_corpus C24 TIER [...]  compares this build's results with those of the builds in C24_BUILDS
use ark_inner_products::{cfg_multi_pairing, InnerProduct, MultiexponentiationInnerProduct, PairingInnerProduct, ScalarInnerProduct};
use mc::{corpus, explore::*, gens::*, world::*};
use std::collections::BTreeMap;

fn hex(b: &[u8]) -> String {
    let h = fnv(fnv(0xcbf29ce484222325, b), &(b.len() as u64).to_le_bytes());
    let head: String = b.iter().take(6).map(|x| if x.is_ascii_graphic() { *x as char } else { '.' }).collect();
    format!("{h:016x} {} bytes {head}", b.len())
}
fn w3() -> Vec<corpus::Op> {
    use mc::vals::Val;
    use w3::{Fr, G1, G2};
    let mut v: Vec<corpus::Op> = vec![];
    for n in 0..=3usize {
        for m in 0..=3usize {
            for code in 0..3u64.pow((n + m) as u32) {
                let d: Vec<u64> = (0..n + m).map(|i| code / 3u64.pow(i as u32) % 3).collect();
                v.push(corpus::Op {
                    name: format!("F3 products {:?} {:?}", &d[..n], &d[n..]),
                    size: n.max(m),
                    run: Box::new(move || {
                        let (x, y) = d.split_at(n);
                        let (a, b, f, h): (Vec<G1>, Vec<G2>, Vec<Fr>, Vec<Fr>) = (
                            x.iter().map(|v| W3::g1(*v)).collect(),
                            y.iter().map(|v| W3::g2(*v)).collect(),
                            x.iter().map(|v| W3::f(*v)).collect(),
                            y.iter().map(|v| W3::f(*v)).collect(),
                        );
                        let mut o = vec![];
                        let mut put = |r: Result<Option<u64>, String>| {
                            o.push(match r {
                                Ok(Some(x)) => x as u8,
                                Ok(None) => 100,
                                Err(_) => 101,
                            })
                        };
                        put(guard(|| PairingInnerProduct::<W3>::inner_product(&a, &b).ok().map(|x| x.get().unwrap())));
                        put(guard(|| cfg_multi_pairing::<W3>(&a, &b).map(|x| x.get().unwrap())));
                        put(guard(|| MultiexponentiationInnerProduct::<G1>::inner_product(&a, &h).ok().map(|x| x.get().unwrap())));
                        put(guard(|| MultiexponentiationInnerProduct::<G2>::inner_product(&b, &f).ok().map(|x| x.get().unwrap())));
                        put(guard(|| ScalarInnerProduct::<Fr>::inner_product(&f, &h).ok().map(|x| x.get().unwrap())));
                        o
                    }),
                });
            }
        }
    }
    v
}
fn catalogue(max: usize) -> Vec<corpus::Op> {
    let mut v = corpus::ops(max);
    v.extend(w3());
    v
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "dump" {
        std::panic::set_hook(Box::new(|_| {}));
        rayon_core::mc::set_threads(1);
        let out: Vec<String> = catalogue(a[2].parse().unwrap()).iter().map(|o| format!("{}\t{}", o.name, hex(&(o.run)()))).collect();
        println!("{}", out.join("\n"));
        return;
    }
    let mut c = Checker::new(&a[1], &a[2]);
    let max = if c.thorough { 70 } else { 40 };
    let threads: &'static [usize] = if c.thorough { &[1, 2, 3, 4, 5, 8, 16, 33] } else { &[1, 2, 4, 7, 16] };
    let ops: &'static [corpus::Op] = catalogue(max).leak();
    for b in std::env::var("C24_BUILDS").unwrap_or_default().split(',').filter(|b| !b.is_empty()) {
        let (name, bin) = b.split_once('=').unwrap();
        let o = std::process::Command::new("timeout").args(["400", bin, "dump", &max.to_string()]).output().expect("other build");
        let txt = String::from_utf8_lossy(&o.stdout).into_owned();
        let other: &'static BTreeMap<String, String> =
            Box::leak(Box::new(txt.lines().filter_map(|l| l.split_once('\t')).map(|(k, v)| (k.to_string(), v.to_string())).collect()));
        c.scenario(
            Scenario {
                name: leak(format!("parallel-vs-{name}")),
                bounds: leak(format!("{} calls (every product, commitment, argument, polynomial commitment and aggregation call of the catalogue with vectors up to {max}; all products of F_3 vectors up to length 3 x 3), this (parallel) build with pools {threads:?} against the {name} build", ops.len())),
                dev: 0,
                oracle: mc::oracle::OracleCfg::Real,
                require: &["same", "refused alike"],
            },
            move || {
                let i = choose(ops.len());
                let t = choose_in(threads);
                rayon_core::mc::set_threads(t);
                let bytes = (ops[i].run)();
                rayon_core::mc::set_threads(1);
                let got = hex(&bytes);
                observe(got.as_bytes());
                observe_u64s(&[i as u64, t as u64]);
                match other.get(&ops[i].name) {
                    Some(w) if *w == got => {
                        validated();
                        tally("same");
                        if bytes.starts_with(b"err") || bytes.starts_with(b"panic") || bytes.contains(&100) || bytes.contains(&101) {
                            tally("refused alike");
                        }
                        Ok(())
                    }
                    w => Err(format!("{}: parallel build with {t} workers gives {got}, {name} build gives {}", ops[i].name, w.cloned().unwrap_or("no answer (process ended)".into()))),
                }
            },
        );
    }
    if let Ok(log) = std::env::var("C24_FAILED") {
        for l in log.split(',').filter(|l| !l.is_empty()) {
            let st = ScenarioStats { name: format!("build-{l}"), bounds: "the other builds compile".into(), complete: true, executions: 1, edges: 1, ..Default::default() };
            c.external(st, Some(format!("the {l} build does not compile although the parallel one does (see c24/{l}.log)")));
        }
    }
    c.assumptions.push("The sequential build is produced from /repo's sources through generated manifests with every crate's default features off; ark-groth16 keeps the features /repo asks for.".into());
    c.finish()
}
