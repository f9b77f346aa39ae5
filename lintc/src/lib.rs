//! Only there to have the crate under test compiled.
#![no_std]
pub use highway;
