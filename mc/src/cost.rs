//! What a call costs: operations of the source groups, multiplications of the
//! scalar field (of the 61-bit world), pairs handed to the pairing, bytes and calls
//! of the hash, peak of live memory. Counted per OS thread (tasks of the controlled pool run on the
//! caller's thread unless interleaved).
use std::cell::Cell;
thread_local! {
    static OPS: Cell<u64> = const { Cell::new(0) };
    static MULS: Cell<u64> = const { Cell::new(0) };
    static PAIRS: Cell<u64> = const { Cell::new(0) };
}
#[inline]
pub fn op() {
    OPS.with(|x| x.set(x.get() + 1))
}
#[inline]
pub fn mul() {
    MULS.with(|x| x.set(x.get() + 1))
}
#[inline]
pub fn pairs(n: u64) {
    PAIRS.with(|x| x.set(x.get() + n))
}
#[derive(Clone, Copy, Debug, Default)]
pub struct Cost {
    pub ops: u64,
    pub muls: u64,
    pub pairs: u64,
    pub hashes: u64,
    pub hashed: u64,
    pub mem: u64,
}
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Cost) {
    let m = crate::oracle::mark();
    let (o, u, p) = (OPS.with(|x| x.get()), MULS.with(|x| x.get()), PAIRS.with(|x| x.get()));
    let (t, mem) = crate::mem::peak(f);
    let q = crate::oracle::queries_since(m);
    (t, Cost { ops: OPS.with(|x| x.get()) - o, muls: MULS.with(|x| x.get()) - u, pairs: PAIRS.with(|x| x.get()) - p, hashes: q.len() as u64, hashed: q.iter().map(|b| b.len() as u64).sum(), mem })
}
