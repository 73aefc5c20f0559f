//! A `Digest` whose answers are chosen by the explorer (random-oracle model): the first time an
//! input is hashed the explorer enumerates the answer over an alphabet; the same input always gets
//! the same answer within one execution.
use crate::explore::{has_ctx, with_ctx};
use digest::{
    generic_array::{typenum::U32, GenericArray},
    Digest, FixedOutputDirty, Reset, Update,
};
use std::cell::RefCell;

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Answer {
    pub bytes: [u8; 32],
    /// Meaning for the reference model: Some(v) = field value v, None = invalid (retry).
    pub value: Option<u64>,
}

#[derive(Clone, Debug)]
pub enum OracleCfg {
    /// No hash may be queried.
    None,
    /// Blake2s (with a log).
    Real,
    /// Blake2s, or (one deviation) a digest that is unusable over a field of order `r` > 2^60.
    RealDev(u64),
    /// Blake2s, or (one deviation each) one of these digests.
    RealOr(Vec<[u8; 32]>),
    /// Explorer-chosen: `main` answers freely, `dev` answers one deviation each.
    Enum { main: Vec<Answer>, dev: Vec<Answer> },
    /// Explorer-chosen digests that expand through ChaCha to the given residues; digests of
    /// different queries are different.
    Chacha { vals: Vec<u64>, r: u64 },
    /// Usable digests fixed by the query (or by its position in the call), except where the body
    /// has put another one ([`spot`]).
    Spot,
}

/// Byte string that decodes to `v` (mod r) both as big-endian u128 of the first 16 bytes and through
/// `from_random_bytes` (little endian, masked).
pub fn answer(v: u64, r: u64) -> Answer {
    let mut b = [0u8; 32];
    b[0] = v as u8;
    let hi = ((v as u128) << 120) % r as u128;
    let low = (v as u128 + r as u128 - hi) % r as u128;
    b[15] = low as u8;
    Answer { bytes: b, value: Some(v) }
}
/// Zero as a u128 challenge, not a field element for `from_random_bytes`: forces a retry in both.
pub fn invalid(r: u64) -> Answer {
    let mut b = [0u8; 32];
    b[0] = r as u8;
    let hi = ((r as u128) << 120) % r as u128;
    b[15] = ((r as u128 - hi) % r as u128) as u8;
    Answer { bytes: b, value: None }
}

/// The same for a 61-bit field: zero as a u128, out of range for `from_random_bytes`.
pub fn big_invalid(r: u64) -> Answer {
    let mut b = [0xffu8; 32];
    let hi = (u64::MAX as u128) << 64;
    let low = (r as u128 - hi % r as u128) % r as u128;
    b[8..16].copy_from_slice(&(low as u64).to_be_bytes());
    Answer { bytes: b, value: None }
}

pub fn cfg_for(r: u64) -> OracleCfg {
    OracleCfg::Enum {
        main: (1..r).map(|v| answer(v, r)).collect(),
        dev: vec![invalid(r), answer(0, r)],
    }
}
/// Only a subset of regular answers.
pub fn cfg_values(r: u64, vals: &[u64]) -> OracleCfg {
    OracleCfg::Enum {
        main: vals.iter().map(|v| answer(*v, r)).collect(),
        dev: vec![invalid(r), answer(0, r)],
    }
}

pub struct Entry {
    pub query: Vec<u8>,
    pub answer: Answer,
}

pub struct Oracle {
    cfg: OracleCfg,
    pub table: Vec<Entry>,
    /// Every lookup in order, as an index into `table`.
    pub log: Vec<usize>,
    pub max_lookups: usize,
    spot: Spot,
}

impl Oracle {
    pub fn new(cfg: OracleCfg) -> Self {
        Oracle {
            cfg,
            table: vec![],
            log: vec![],
            max_lookups: 4000,
            spot: Spot::default(),
        }
    }
    pub fn lookups(&self) -> usize {
        self.log.len()
    }
    pub fn pretty(&self) -> Vec<(String, String)> {
        self.log
            .iter()
            .map(|&i| {
                let e = &self.table[i];
                let q: String = e.query.iter().map(|b| format!("{b:02x}")).collect();
                (q, format!("{:?}", e.answer.value))
            })
            .collect()
    }
}

thread_local! {
    /// Stand-alone log used outside the explorer (real hashing).
    pub static FREE_LOG: RefCell<Option<Vec<Vec<u8>>>> = const { RefCell::new(None) };
}

pub fn real_hash(q: &[u8]) -> [u8; 32] {
    let mut o = [0u8; 32];
    o.copy_from_slice(&blake2::Blake2s::digest(q));
    o
}

fn query(q: &[u8]) -> [u8; 32] {
    crate::yield_point();
    if !has_ctx() {
        FREE_LOG.with(|l| {
            if let Some(l) = l.borrow_mut().as_mut() {
                l.push(q.to_vec())
            }
        });
        return real_hash(q);
    }
    let r = with_ctx(|c| {
        let o = &mut c.oracle;
        if o.log.len() >= o.max_lookups {
            return Err("livelock: hash queried without end");
        }
        if let Some(i) = o.table.iter().position(|e| e.query == q) {
            o.log.push(i);
            return Ok(o.table[i].answer.bytes);
        }
        let ans = match &c.oracle.cfg {
            OracleCfg::None => return Err("unexpected hash query"),
            OracleCfg::Real => Answer { bytes: real_hash(q), value: None },
            OracleCfg::RealDev(r) => {
                let r = *r;
                match c.pick_mixed(1, 1) {
                    0 => Answer { bytes: real_hash(q), value: None },
                    _ => big_invalid(r),
                }
            }
            OracleCfg::RealOr(alt) => {
                let n = alt.len();
                match c.pick_mixed(1, n) {
                    0 => Answer { bytes: real_hash(q), value: None },
                    i => match &c.oracle.cfg {
                        OracleCfg::RealOr(alt) => Answer { bytes: alt[i - 1], value: None },
                        _ => unreachable!(),
                    },
                }
            }
            OracleCfg::Spot => {
                let (n, s) = (c.oracle.table.len(), &c.oracle.spot);
                let mut b = if s.by_position { real_hash(&(n as u64).to_le_bytes()) } else { real_hash(q) };
                // Below the order of BLS12-381 whatever the other bits
                b[31] &= 0x3f;
                if let Some((i, p, d)) = &s.at {
                    if if s.by_position { *i == n } else { p == q } {
                        b = *d
                    }
                }
                Answer { bytes: b, value: None }
            }
            OracleCfg::Chacha { vals, r } => {
                let (k, r, idx) = (vals.len(), *r, c.oracle.table.len());
                let i = c.pick_mixed(k, 0);
                match &c.oracle.cfg {
                    OracleCfg::Chacha { vals, .. } => chacha_answer(vals[i], r, idx),
                    _ => unreachable!(),
                }
            }
            OracleCfg::Enum { main, dev } => {
                let (m, d) = (main.len(), dev.len());
                let k = c.pick_mixed(m, d);
                match &c.oracle.cfg {
                    OracleCfg::Enum { main, dev } => {
                        if k < m {
                            main[k].clone()
                        } else {
                            dev[k - m].clone()
                        }
                    }
                    _ => unreachable!(),
                }
            }
        };
        let b = ans.bytes;
        let o = &mut c.oracle;
        o.log.push(o.table.len());
        o.table.push(Entry { query: q.to_vec(), answer: ans });
        c.observe(q);
        c.observe(&b);
        Ok(b)
    });
    match r {
        Ok(b) => b,
        Err(m) => panic!("{m}"),
    }
}

#[derive(Clone, Default)]
struct Spot {
    by_position: bool,
    at: Option<Place>,
}
/// Position of a query in a call, its content, and the digest it shall get.
pub type Place = (usize, Vec<u8>, [u8; 32]);
/// Forget all digests given so far and answer the query at this position, or of this content, with
/// the given digest ([`OracleCfg::Spot`]).
pub fn spot(by_position: bool, at: Option<Place>) {
    with_ctx(|c| {
        c.oracle.table.clear();
        c.oracle.log.clear();
        c.oracle.spot = Spot { by_position, at }
    })
}
/// Distinct queries since the table was last forgotten and the digests they got.
pub fn answered() -> Vec<(Vec<u8>, [u8; 32])> {
    with_ctx(|c| c.oracle.table.iter().map(|e| (e.query.clone(), e.answer.bytes)).collect())
}
/// Number of lookups so far; used to delimit the queries of one call.
pub fn mark() -> usize {
    with_ctx(|c| c.oracle.log.len())
}
/// Answers of all lookups since `from`, in order.
pub fn answers_since(from: usize) -> Vec<Option<u64>> {
    with_ctx(|c| {
        c.oracle.log[from..]
            .iter()
            .map(|&i| c.oracle.table[i].answer.value)
            .collect()
    })
}
/// Indices of the distinct queries looked up since `from`.
pub fn queries_since(from: usize) -> Vec<Vec<u8>> {
    with_ctx(|c| c.oracle.log[from..].iter().map(|&i| c.oracle.table[i].query.clone()).collect())
}

/// The controlled digest.
#[derive(Clone, Default)]
pub struct CD {
    buf: Vec<u8>,
}

impl Update for CD {
    fn update(&mut self, data: impl AsRef<[u8]>) {
        self.buf.extend_from_slice(data.as_ref());
    }
}
impl Reset for CD {
    fn reset(&mut self) {
        self.buf.clear()
    }
}
impl FixedOutputDirty for CD {
    type OutputSize = U32;
    fn finalize_into_dirty(&mut self, out: &mut GenericArray<u8, U32>) {
        out.copy_from_slice(&query(&self.buf));
    }
}
/// Answer bytes of all lookups since `from`, in order.
pub fn bytes_since(from: usize) -> Vec<[u8; 32]> {
    with_ctx(|c| c.oracle.log[from..].iter().map(|&i| c.oracle.table[i].answer.bytes).collect())
}
/// The u128 a `FiatShamirRng` seeded with this digest yields first.
pub fn chacha_u128(seed: [u8; 32]) -> u128 {
    use ark_std::rand::{Rng, SeedableRng};
    rand_chacha::ChaChaRng::from_seed(seed).gen::<u128>()
}
/// Digests for protocols that expand them through ChaCha.
pub fn chacha_cfg(r: u64, vals: &[u64]) -> OracleCfg {
    OracleCfg::Chacha { vals: vals.to_vec(), r }
}
fn chacha_answer(v: u64, r: u64, idx: usize) -> Answer {
    let mut s = [0u8; 32];
    s[4] = idx as u8;
    s[5] = (idx >> 8) as u8;
    let mut n = 0u32;
    while chacha_u128(s) % r as u128 != v as u128 {
        n += 1;
        s[..4].copy_from_slice(&n.to_le_bytes());
    }
    Answer { bytes: s, value: Some(v) }
}
