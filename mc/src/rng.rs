//! Random sources under the checker's control.
use ark_std::rand::{Error, RngCore};

/// Deterministic stream (SplitMix64).
pub struct Seq(u64);
impl Seq {
    pub fn new(s: u64) -> Self {
        Seq(s)
    }
}
impl RngCore for Seq {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for c in d.chunks_mut(8) {
            let x = self.next_u64().to_le_bytes();
            c.copy_from_slice(&x[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(d);
        Ok(())
    }
}

/// Yields the field elements `vals` in order when a tiny-world `Fr::rand` draws from it: `Fp::rand`
/// takes the raw limb as the Montgomery form, so each value is stored as `v * 2^64 mod r`.
pub struct Script {
    vals: Vec<u64>,
    r: u64,
    pos: usize,
}
impl Script {
    pub fn new(vals: &[u64], r: u64) -> Self {
        Script { vals: vals.to_vec(), r, pos: 0 }
    }
    pub fn used(&self) -> usize {
        self.pos
    }
}
impl RngCore for Script {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        // repeat the last value when more draws are made than scripted
        let v = self.vals.get(self.pos).or(self.vals.last()).copied().unwrap_or(1);
        self.pos += 1;
        let m = (1u128 << 64) % self.r as u128;
        (v as u128 * m % self.r as u128) as u64
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for c in d.chunks_mut(8) {
            let x = self.next_u64().to_le_bytes();
            c.copy_from_slice(&x[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
