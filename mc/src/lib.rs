
//! Explicit-state / stateless model checking of the ripp crates: every check runs the real generic
//! code over tiny transparent pairing worlds, with hashes, randomness and task scheduling turned
//! into enumerated choices.
#![allow(unexpected_cfgs)]
pub mod explore;
pub mod oracle;
pub mod rng;
pub mod vals;
pub mod world;
pub mod refm;
pub mod proto;
pub mod gens;
pub mod poly;
pub mod groth;
pub mod corpus;
pub mod mem;
pub mod wide;

pub mod cost;

/// Scheduling point of `rayon_core::mc::interleaved`; also counts the group operations.
#[inline]
pub fn yield_point() {
    cost::op();
    rayon_core::mc::yield_point()
}
