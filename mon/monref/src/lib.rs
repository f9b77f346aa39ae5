//! The oracle side of the monitors: reference model of HighwayHash, random numbers, input generators.
#![no_std]
extern crate alloc;
pub mod gen;
pub mod model;
pub mod rng;
pub mod vectors;
pub use model::Model;
pub use rng::{mix, Rng};

/// 64-bit digest of a byte string (not HighwayHash).
pub fn digest(seed: u64, b: &[u8]) -> u64 {
    let mut h = seed ^ 0x9e37_79b9_7f4a_7c15;
    for c in b.chunks(8) {
        let mut w = 0u64;
        for (i, x) in c.iter().enumerate() {
            w |= (*x as u64) << (8 * i);
        }
        h = rng::mix(h ^ w).wrapping_add(c.len() as u64);
    }
    rng::mix(h)
}

pub fn hex(b: &[u8]) -> alloc::string::String {
    let mut s = alloc::string::String::new();
    for x in b {
        s.push(char::from_digit((x >> 4) as u32, 16).unwrap());
        s.push(char::from_digit((x & 15) as u32, 16).unwrap());
    }
    s
}
