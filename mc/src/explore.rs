//! Stateless exhaustive explorer: a *body* is re-executed once per leaf of its choice tree.
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use crate::oracle::{Oracle, OracleCfg};

pub struct Ctx {
    scenario: String,
    prefix: Vec<u16>,
    trace: Vec<(u16, u16)>, // taken, alternatives that may be explored
    labels: Vec<String>,
    dev_left: u32,
    pub oracle: Oracle,
    tallies: BTreeMap<&'static str, u64>,
    note: Vec<String>,
    verbose: bool,
    vacuous: bool,
    fp: u64,
    visited: Vec<u64>,
    validated: u64,
}

thread_local! {
    pub static CTX: RefCell<Option<Box<Ctx>>> = const { RefCell::new(None) };
    static PANIC_MSG: RefCell<Option<String>> = const { RefCell::new(None) };
    static SILENT: Cell<bool> = const { Cell::new(false) };
}

pub fn with_ctx<T>(f: impl FnOnce(&mut Ctx) -> T) -> T {
    CTX.with(|c| f(c.borrow_mut().as_mut().expect("no exploration context")))
}
pub fn has_ctx() -> bool {
    CTX.with(|c| c.borrow().is_some())
}

impl Ctx {
    pub fn observe(&mut self, b: &[u8]) {
        self.fp = fnv(self.fp, b);
        self.visited.push(self.fp);
    }
    fn pick(&mut self, n: usize, dev: bool) -> usize {
        assert!(n >= 1 && n < 60000);
        if n == 1 || (dev && self.dev_left == 0) {
            return 0;
        }
        let i = self.trace.len();
        let c = if i < self.prefix.len() { self.prefix[i] as usize } else { 0 };
        // Code under test that remembers earlier executions may offer fewer alternatives this time.
        let c = c.min(n - 1);
        if dev && c > 0 {
            self.dev_left -= 1;
        }
        self.trace.push((c as u16, n as u16));
        c
    }
    /// No further deviation in this execution.
    pub fn forbid_deviation(&mut self) {
        self.dev_left = 0
    }
    /// `main` regular alternatives followed by `extra` ones that each use up one deviation.
    pub fn pick_mixed(&mut self, main: usize, extra: usize) -> usize {
        let n = if self.dev_left > 0 { main + extra } else { main };
        let c = self.pick(n, false);
        if c >= main {
            self.dev_left -= 1;
        }
        c
    }
}

/// Enumerated choice among `n` alternatives.
pub fn choose(n: usize) -> usize {
    with_ctx(|c| c.pick(n, false))
}
/// Enumerated choice whose non-zero alternatives each cost one unit of the deviation budget.
pub fn choose_dev(n: usize) -> usize {
    with_ctx(|c| c.pick(n, true))
}
pub fn choose_in<T: Clone>(xs: &[T]) -> T {
    xs[choose(xs.len())].clone()
}
/// Vector of `n` values in `0..r`.
pub fn choose_vec(n: usize, r: u64) -> Vec<u64> {
    (0..n).map(|_| choose(r as usize) as u64).collect()
}
pub fn tally(k: &'static str) {
    with_ctx(|c| *c.tallies.entry(k).or_insert(0) += 1)
}
pub fn note(f: impl FnOnce() -> String) {
    with_ctx(|c| {
        if c.verbose {
            let s = f();
            c.note.push(s)
        }
    })
}
pub fn label(f: impl FnOnce() -> String) {
    with_ctx(|c| {
        if c.verbose {
            let s = f();
            c.labels.push(s)
        }
    })
}
/// Leaves the scenario early because a precondition of the property does not hold on this path.
pub fn excluded() -> Outcome {
    with_ctx(|c| c.vacuous = true);
    Ok(())
}

type Carried = (Option<Box<Ctx>>, Option<String>);
/// Moves the exploration context between the threads of `rayon_core::mc::interleaved`.
pub fn carry() -> rayon_core::Carry {
    rayon_core::Carry {
        take: || Box::new((CTX.with(|c| c.borrow_mut().take()), PANIC_MSG.with(|m| m.borrow_mut().take()))),
        put: |b| {
            let (c, m) = *b.downcast::<Carried>().expect("carried state");
            CTX.with(|x| *x.borrow_mut() = c);
            PANIC_MSG.with(|x| *x.borrow_mut() = m);
        },
        enter: || SILENT.with(|s| s.set(true)),
    }
}

pub type Outcome = Result<(), String>;

/// Runs code under test, turning a panic into `Err(message)`.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let r = catch_unwind(AssertUnwindSafe(f));
    match r {
        Ok(x) => Ok(x),
        Err(_) => Err(PANIC_MSG.with(|m| m.borrow_mut().take()).unwrap_or_else(|| "panic".into())),
    }
}

fn install_hook() {
    let prev = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if SILENT.with(|s| s.get()) {
            let loc = info
                .location()
                .map(|l| format!("{}:{}", l.file(), l.line()))
                .unwrap_or_default();
            let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            PANIC_MSG.with(|p| *p.borrow_mut() = Some(format!("panic at {loc}: {m}")));
        } else {
            prev(info)
        }
    }));
}

#[derive(Clone, Debug)]
pub struct Found {
    pub scenario: String,
    pub choices: Vec<u16>,
    pub msg: String,
}

#[derive(Default, Clone, Debug)]
pub struct ScenarioStats {
    pub name: String,
    pub bounds: String,
    pub executions: u64,
    pub excluded: u64,
    pub edges: u64,
    pub max_depth: usize,
    pub oracle_queries: u64,
    pub tallies: BTreeMap<&'static str, u64>,
    pub complete: bool,
    pub secs: f64,
    pub traces_validated: u64,
}

pub struct Checker {
    pub id: String,
    pub tier: String,
    pub thorough: bool,
    replay: Option<(String, Vec<u16>)>,
    pub stats: Vec<ScenarioStats>,
    pub found: Vec<Found>,
    pub known_hits: BTreeMap<String, u64>,
    known: Vec<(String, String)>, // key, description
    pub assumptions: Vec<String>,
    pub samples: Vec<String>,
    start: Instant,
    deadline: Duration,
    only: Option<String>,
    threads: usize,
    ext_choices: Vec<u16>,
    pub states: StateSet,
}

pub struct Scenario<'a> {
    pub name: &'a str,
    pub bounds: &'a str,
    /// Deviation budget (degenerate hash answers, scheduling deviations, ...).
    pub dev: u32,
    pub oracle: OracleCfg,
    /// Outcome classes that must occur at least once, otherwise the scenario is vacuous.
    pub require: &'a [&'static str],
}

impl Checker {
    pub fn new(id: &str, tier: &str) -> Self {
        install_hook();
        let args: Vec<String> = std::env::args().collect();
        let mut replay = None;
        let mut only = None;
        let mut i = 3;
        while i < args.len() {
            if args[i] == "--replay" {
                let txt = std::fs::read_to_string(&args[i + 1]).expect("replay file");
                let get = |k: &str| {
                    let p = txt.find(&format!("\"{k}\"")).unwrap();
                    let rest = &txt[p + k.len() + 2..];
                    rest[rest.find(':').unwrap() + 1..].trim_start().to_string()
                };
                let sc = get("scenario");
                let sc = sc[1..].split('"').next().unwrap().to_string();
                let ch = get("choices");
                let ch = ch[1..ch.find(']').unwrap()]
                    .split(',')
                    .filter(|s| !s.trim().is_empty())
                    .map(|s| s.trim().parse().unwrap())
                    .collect();
                replay = Some((sc, ch));
                i += 1;
            } else if args[i] == "--only" {
                only = Some(args[i + 1].clone());
                i += 1;
            }
            i += 1;
        }
        let mut known = vec![];
        let dir = std::env::var("MC_ROOT").unwrap_or_else(|_| "/verif".into());
        if let Ok(t) = std::fs::read_to_string(format!("{dir}/known_findings.txt")) {
            for l in t.lines() {
                // known: property=<id> key=<key> <description>
                if let Some(r) = l.strip_prefix(&format!("known: property={id} key=")) {
                    let (k, d) = r.split_once(' ').unwrap_or((r, ""));
                    known.push((k.to_string(), d.to_string()));
                }
            }
        }
        let dl = std::env::var("MC_DEADLINE")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(if tier == "thorough" { 3000 } else { 420 });
        Checker {
            id: id.into(),
            tier: tier.into(),
            thorough: tier == "thorough",
            replay,
            stats: vec![],
            found: vec![],
            known_hits: BTreeMap::new(),
            known,
            assumptions: vec![],
            samples: vec![],
            start: Instant::now(),
            deadline: Duration::from_secs(dl),
            only,
            states: StateSet::new(),
            ext_choices: vec![],
            threads: std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(
                std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8),
            ),
        }
    }

    pub fn is_replay(&self) -> bool {
        self.replay.is_some()
    }

    fn run_one<F: Fn() -> Outcome>(
        sc: &Scenario,
        prefix: Vec<u16>,
        verbose: bool,
        body: &F,
    ) -> (Result<(), String>, Box<Ctx>) {
        let ctx = Box::new(Ctx {
            scenario: sc.name.to_string(),
            prefix,
            trace: Vec::with_capacity(64),
            labels: vec![],
            dev_left: sc.dev,
            oracle: Oracle::new(sc.oracle.clone()),
            tallies: BTreeMap::new(),
            note: vec![],
            verbose,
            vacuous: false,
            fp: fnv(0xcbf29ce484222325, sc.name.as_bytes()),
            visited: vec![],
            validated: 0,
        });
        CTX.with(|c| *c.borrow_mut() = Some(ctx));
        SILENT.with(|s| s.set(true));
        let r = guard(body);
        SILENT.with(|s| s.set(false));
        rayon_core::mc::set_chooser(None);
        rayon_core::mc::set_threads(4);
        let ctx = CTX.with(|c| c.borrow_mut().take()).unwrap();
        let r = match r {
            Ok(r) => r,
            Err(p) => Err(p),
        };
        (r, ctx)
    }

    pub fn scenario<F: Fn() -> Outcome + Sync>(&mut self, sc: Scenario, body: F) {
        if let Some((name, choices)) = &self.replay {
            if name == sc.name {
                let (r, ctx) = Self::run_one(&sc, choices.clone(), true, &body);
                println!("replaying {} {:?}", name, choices);
                for l in &ctx.labels {
                    println!("  {l}");
                }
                for (q, a) in ctx.oracle.pretty() {
                    println!("  hash {q} -> {a}");
                }
                for l in &ctx.note {
                    println!("  {l}");
                }
                if let Err(m) = r {
                    self.found.push(Found {
                        scenario: name.clone(),
                        choices: choices.clone(),
                        msg: m,
                    });
                }
            }
            return;
        }
        if let Some(o) = &self.only {
            if !sc.name.contains(o.as_str()) {
                return;
            }
        }
        let t0 = Instant::now();
        let global: Mutex<Vec<Vec<u16>>> = Mutex::new(vec![vec![]]);
        let global_len = AtomicUsize::new(1);
        let pending = AtomicUsize::new(1);
        let stop = AtomicBool::new(false);
        let timed_out = AtomicBool::new(false);
        let found: Mutex<Vec<Found>> = Mutex::new(vec![]);
        let known_hits: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
        let total: Mutex<ScenarioStats> = Mutex::new(ScenarioStats::default());
        let sample: Mutex<Vec<String>> = Mutex::new(vec![]);
        // no scenario may starve the ones behind it
        let deadline = (self.start + self.deadline).min(t0 + if self.thorough { self.deadline / 4 } else { self.deadline });
        let beat: Vec<AtomicU64> = (0..self.threads).map(|_| AtomicU64::new(0)).collect();
        let cur: Vec<Mutex<Vec<u16>>> = (0..self.threads).map(|_| Mutex::new(vec![])).collect();
        let known = &self.known;
        let id = &self.id;
        std::thread::scope(|s| {
            for w in 0..self.threads {
                let (global, global_len, pending, stop, timed_out, found, known_hits, total, sample) = (
                    &global, &global_len, &pending, &stop, &timed_out, &found, &known_hits, &total, &sample,
                );
                let (sc, body, beat, cur, states, nthreads) = (&sc, &body, &beat, &cur, &self.states, self.threads);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        let mut local: Vec<Vec<u16>> = vec![];
                        let mut st = ScenarioStats::default();
                        'work: loop {
                            if stop.load(SeqCst) || pending.load(SeqCst) == 0 {
                                break 'work;
                            }
                            let item = match local.pop() {
                                Some(x) => Some(x),
                                None => {
                                    let mut g = global.lock().unwrap();
                                    let take = (g.len() / nthreads).max(1).min(g.len());
                                    let at = g.len() - take;
                                    local.extend(g.drain(at..));
                                    global_len.store(g.len(), SeqCst);
                                    local.pop()
                                }
                            };
                            let Some(prefix) = item else {
                                std::thread::sleep(Duration::from_micros(50));
                                continue;
                            };
                            let plen = prefix.len();
                            if st.executions % 64 == 0 {
                                if Instant::now() > deadline {
                                    timed_out.store(true, SeqCst);
                                    stop.store(true, SeqCst);
                                    break;
                                }
                            }
                            *cur[w].lock().unwrap() = prefix.clone();
                            beat[w].store(
                                std::time::SystemTime::now()
                                    .duration_since(std::time::UNIX_EPOCH)
                                    .unwrap()
                                    .as_secs(),
                                SeqCst,
                            );
                            let (r, ctx) = Self::run_one(sc, prefix, false, body);
                            beat[w].store(0, SeqCst);
                            st.executions += 1;
                            st.traces_validated += ctx.validated;
                            let mut end = ctx.fp;
                            for (k, v) in &ctx.tallies {
                                end = fnv(end ^ v, k.as_bytes());
                            }
                            states.add(&ctx.visited);
                            states.add(&[end]);
                            st.excluded += ctx.vacuous as u64;
                            st.edges += (ctx.trace.len() + 1 - plen.max(1).min(ctx.trace.len() + 1)) as u64;
                            st.max_depth = st.max_depth.max(ctx.trace.len());
                            st.oracle_queries += ctx.oracle.lookups() as u64;
                            for (k, v) in &ctx.tallies {
                                *st.tallies.entry(k).or_insert(0) += v;
                            }
                            if st.executions == 1 {
                                let mut sm = sample.lock().unwrap();
                                if sm.is_empty() {
                                    let mut s = String::new();
                                    let _ = write!(
                                        s,
                                        "{}: choices {:?} -> {:?}",
                                        sc.name,
                                        ctx.trace.iter().map(|t| t.0).collect::<Vec<_>>(),
                                        ctx.tallies
                                    );
                                    sm.push(s);
                                }
                            }
                            if let Err(msg) = r {
                                let choices: Vec<u16> = ctx.trace.iter().map(|t| t.0).collect();
                                let k = known.iter().find(|(k, _)| msg.starts_with(&format!("[{k}]")));
                                if let Some((k, _)) = k {
                                    *known_hits.lock().unwrap().entry(k.clone()).or_insert(0) += 1;
                                } else {
                                    let mut f = found.lock().unwrap();
                                    f.push(Found {
                                        scenario: sc.name.to_string(),
                                        choices,
                                        msg,
                                    });
                                    if f.len() >= 3 {
                                        stop.store(true, SeqCst);
                                    }
                                }
                            }
                            // children
                            let tr = &ctx.trace;
                            for i in plen..tr.len() {
                                for alt in 1..tr[i].1 {
                                    let mut p: Vec<u16> = tr[..i].iter().map(|t| t.0).collect();
                                    p.push(alt);
                                    local.push(p);
                                    pending.fetch_add(1, SeqCst);
                                }
                            }
                            pending.fetch_sub(1, SeqCst);
                            // share the oldest half when others starve
                            if global_len.load(SeqCst) < nthreads && local.len() > 1 {
                                let mut g = global.lock().unwrap();
                                let k = local.len() / 2;
                                g.extend(local.drain(..k));
                                global_len.store(g.len(), SeqCst);
                            }
                        }
                        let mut t = total.lock().unwrap();
                        t.executions += st.executions;
                        t.excluded += st.excluded;
                        t.traces_validated += st.traces_validated;
                        t.edges += st.edges;
                        t.max_depth = t.max_depth.max(st.max_depth);
                        t.oracle_queries += st.oracle_queries;
                        for (k, v) in st.tallies {
                            *t.tallies.entry(k).or_insert(0) += v;
                        }
                        t.complete = true;
                    })
                    .unwrap();
            }
            // watchdog: an execution that never ends is reported, not waited for
            let (stop, beat, cur, pending) = (&stop, &beat, &cur, &pending);
            let sc = &sc;
            s.spawn(move || {
                loop {
                    std::thread::sleep(Duration::from_millis(2));
                    if (stop.load(SeqCst) || pending.load(SeqCst) == 0)
                        && beat.iter().all(|x| x.load(SeqCst) == 0)
                    {
                        return;
                    }
                    let now = std::time::SystemTime::now()
                        .duration_since(std::time::UNIX_EPOCH)
                        .unwrap()
                        .as_secs();
                    for (w, x) in beat.iter().enumerate() {
                        let v = x.load(SeqCst);
                        if v != 0 && now > v + 90 {
                            let choices = cur[w].lock().unwrap().clone();
                            let f = Found {
                                scenario: sc.name.to_string(),
                                choices,
                                msg: "execution does not terminate (90 s)".into(),
                            };
                            let p = write_replay(id, &f);
                            println!("{}: {}", f.scenario, f.msg);
                            println!("VIOLATION property={id} replay={p}");
                            std::process::exit(1);
                        }
                    }
                }
            });
        });
        let mut st = total.into_inner().unwrap();
        st.name = sc.name.to_string();
        st.bounds = sc.bounds.to_string();
        st.secs = t0.elapsed().as_secs_f64();
        let to = timed_out.load(SeqCst);
        st.complete = !to;
        let mut f = found.into_inner().unwrap();
        f.sort_by_key(|f| (f.choices.len(), f.choices.clone()));
        if f.is_empty() && !to {
            for k in sc.require {
                if st.tallies.get(k).copied().unwrap_or(0) == 0 {
                    f.push(Found {
                        scenario: sc.name.to_string(),
                        choices: vec![],
                        msg: format!("scenario is vacuous: outcome '{k}' never occurred ({:?})", st.tallies),
                    });
                }
            }
        }
        for (k, v) in known_hits.into_inner().unwrap() {
            *self.known_hits.entry(k).or_insert(0) += v;
        }
        println!(
            "{:<44} {:>9} executions {:>10} edges depth {:>3} {:>7.2}s{} {:?}",
            sc.name,
            st.executions,
            st.edges,
            st.max_depth,
            st.secs,
            if st.complete { "" } else { " (deadline)" },
            st.tallies
        );
        let _ = std::io::stdout().flush();
        self.samples.extend(sample.into_inner().unwrap());
        self.found.extend(f);
        self.stats.push(st);
    }

    pub fn states_add(&self, hs: &[u64]) {
        self.states.add(hs)
    }
    /// Choices recorded with the next external violation.
    pub fn external_choices(&mut self, c: Vec<u16>) {
        self.ext_choices = c
    }
    /// A check done outside the explorer (conformance replays, enumerations by loop).
    pub fn external(&mut self, st: ScenarioStats, violation: Option<String>) {
        println!(
            "{:<44} {:>9} executions {:>10} edges {:>7.2}s {:?}",
            st.name, st.executions, st.edges, st.secs, st.tallies
        );
        if let Some(m) = violation {
            self.found.push(Found {
                scenario: st.name.clone(),
                choices: std::mem::take(&mut self.ext_choices),
                msg: m,
            });
        }
        self.stats.push(st);
    }

    pub fn finish(self) -> ! {
        for (k, d) in &self.known {
            if self.known_hits.contains_key(k) {
                println!("KNOWN-FINDING: property={} {}: {}", self.id, k, d);
            }
        }
        if !self.is_replay() && self.only.is_none() {
            write_evidence(&self);
        }
        if self.found.is_empty() {
            println!("OK property={} tier={}", self.id, self.tier);
            std::process::exit(0);
        }
        let mut f = self.found.clone();
        f.truncate(5);
        for x in &f {
            println!("{}: {}", x.scenario, x.msg);
        }
        let p = write_replay(&self.id, &f[0]);
        println!("VIOLATION property={} replay={}", self.id, p);
        std::process::exit(1);
    }
}

/// Sharded set of state fingerprints, bounded in size.
pub struct StateSet {
    shards: Vec<Mutex<std::collections::HashSet<u64, Ident>>>,
    cap: usize,
}
#[derive(Default, Clone)]
pub struct Ident;
pub struct IdentHasher(u64);
impl std::hash::BuildHasher for Ident {
    type Hasher = IdentHasher;
    fn build_hasher(&self) -> IdentHasher {
        IdentHasher(0)
    }
}
impl std::hash::Hasher for IdentHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = x
    }
}
impl StateSet {
    fn new() -> Self {
        StateSet {
            shards: (0..64).map(|_| Mutex::new(Default::default())).collect(),
            cap: 600_000,
        }
    }
    fn add(&self, hs: &[u64]) {
        for &h in hs {
            let mut s = self.shards[(h >> 58) as usize].lock().unwrap();
            if s.len() < self.cap {
                s.insert(h);
            }
        }
    }
    fn len(&self) -> u64 {
        self.shards.iter().map(|s| s.lock().unwrap().len() as u64).sum()
    }
}

pub fn fnv(mut h: u64, bytes: &[u8]) -> u64 {
    for &b in bytes {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    // final avalanche
    h ^= h >> 32;
    h = h.wrapping_mul(0xd6e8feb86659fd93);
    h ^ (h >> 32)
}
/// Folds observed data into the fingerprint of the current state and records the state.
pub fn observe(bytes: &[u8]) {
    with_ctx(|c| c.observe(bytes))
}
pub fn observe_u64s(xs: &[u64]) {
    with_ctx(|c| {
        let mut h = c.fp;
        for x in xs {
            h = fnv(h, &x.to_le_bytes());
        }
        c.fp = h;
        c.visited.push(h);
    })
}
/// The reference model and the implementation were compared on this execution.
pub fn validated() {
    with_ctx(|c| c.validated += 1)
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o
}

fn root() -> String {
    std::env::var("MC_ROOT").unwrap_or_else(|_| "/verif".into())
}

fn write_replay(id: &str, f: &Found) -> String {
    let dir = format!("{}/replays", root());
    let _ = std::fs::create_dir_all(&dir);
    let p = format!("{dir}/{id}.json");
    let ch: Vec<String> = f.choices.iter().map(|c| c.to_string()).collect();
    let _ = std::fs::write(
        &p,
        format!(
            "{{\"property\":\"{}\",\"scenario\":\"{}\",\"choices\":[{}],\"message\":\"{}\"}}\n",
            id,
            esc(&f.scenario),
            ch.join(","),
            esc(&f.msg)
        ),
    );
    p
}

/// Reports the execution running on this thread as a violation and ends the process.
pub fn bail(msg: &str) -> ! {
    let id = std::env::args().nth(1).unwrap_or_default();
    let (scenario, choices) = CTX.with(|c| match c.try_borrow() {
        Ok(c) => c.as_ref().map(|c| (c.scenario.clone(), c.trace.iter().map(|t| t.0).collect())).unwrap_or_default(),
        Err(_) => (String::new(), vec![]),
    });
    let f = Found { scenario, choices, msg: msg.into() };
    let p = write_replay(&id, &f);
    println!("{}: {}", f.scenario, f.msg);
    println!("VIOLATION property={id} replay={p}");
    std::process::exit(1);
}

fn write_evidence(c: &Checker) {
    let execs: u64 = c.stats.iter().map(|s| s.executions).sum();
    let edges: u64 = c.stats.iter().map(|s| s.edges).sum();
    let validated: u64 = c.stats.iter().map(|s| s.traces_validated).sum();
    let excluded: u64 = c.stats.iter().map(|s| s.excluded).sum();
    let queries: u64 = c.stats.iter().map(|s| s.oracle_queries).sum();
    let all = c.stats.iter().all(|s| s.complete);
    let mut sc = vec![];
    for s in &c.stats {
        let t: Vec<String> =
            s.tallies.iter().map(|(k, v)| format!("\"{}\":{}", esc(k), v)).collect();
        sc.push(format!(
            "{{\"scenario\":\"{}\",\"bounds\":\"{}\",\"executions\":{},\"transitions\":{},\"max_depth\":{},\"excluded_by_precondition\":{},\"exhaustive_within_bounds\":{},\"outcomes\":{{{}}},\"seconds\":{:.2}}}",
            esc(&s.name), esc(&s.bounds), s.executions, s.edges, s.max_depth, s.excluded, s.complete, t.join(","), s.secs
        ));
    }
    let samples: Vec<String> = c.samples.iter().take(12).map(|s| format!("\"{}\"", esc(s))).collect();
    let assumptions: Vec<String> = c.assumptions.iter().map(|s| format!("\"{}\"", esc(s))).collect();
    let known: Vec<String> = c
        .known_hits
        .iter()
        .map(|(k, v)| format!("{{\"key\":\"{}\",\"executions\":{}}}", esc(k), v))
        .collect();
    let bounds: Vec<String> = c
        .stats
        .iter()
        .map(|s| format!("{}: {}", esc(&s.name), esc(&s.bounds)))
        .collect();
    let json = format!(
        "{{\n \"property\":\"{id}\",\n \"tier\":\"{tier}\",\n \"seed\":{seed},\n \"level\":\"model_checking\",\n \"wall_s\":{wall:.1},\n \"coverage\":{{\"states\":{states},\"transitions\":{edges},\"executions\":{execs},\"excluded_by_precondition\":{excluded},\"state_definition\":\"distinct fingerprints of (inputs observed, hash query log, outcome); transitions are edges of the stateless execution tree\",\"hash_queries_answered\":{queries},\"traces_validated_against_impl\":{validated},\"exhaustive_within_bounds\":{all},\"exhaustive\":{all},\"bounds\":\"{bounds}\",\"scenarios\":[{sc}],\"known_findings\":[{known}],\"samples\":[{samples}]}},\n \"assumptions\":[{assumptions}],\n \"violations\":{viol}\n}}\n",
        id = c.id,
        tier = c.tier,
        seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(0),
        wall = c.start.elapsed().as_secs_f64(),
        states = c.states.len(),
        bounds = bounds.join("; "),
        sc = sc.join(",\n  "),
        known = known.join(","),
        assumptions = assumptions.join(","),
        samples = samples.join(","),
        viol = c.found.len(),
    );
    let dir = format!("{}/evidence", root());
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(format!("{dir}/{}.json", c.id), json).expect("evidence");
}
