//! Monitors for the highway crate. Each workload drives the real crate and judges what it observes.
#![cfg_attr(not(feature = "std"), no_std)]
#![allow(clippy::all)]
extern crate alloc;

pub mod ctx;
pub mod h;
pub mod inputs;
pub mod w_big;
pub mod w_chunk;
pub mod w_exact;
pub mod w_hash;
pub mod w_long;
pub mod w_same;
pub mod w_state;
#[cfg(feature = "std")]
pub mod w_std;

pub use ctx::{Ctx, Params};
pub use h::{Kind, H};
pub use monref;

pub type Workload = fn(&mut Ctx);

/// Every workload that needs no operating system.
pub fn workloads() -> alloc::vec::Vec<(&'static str, Workload)> {
    #[allow(unused_mut)]
    let mut v: alloc::vec::Vec<(&'static str, Workload)> = alloc::vec![
        ("selfcheck", w_hash::selfcheck as Workload),
        ("model", w_hash::model),
        ("equiv", w_hash::equiv),
        ("default", w_hash::default),
        ("portable", w_hash::portable),
        ("chunks", w_chunk::chunks),
        ("big", w_big::big),
        ("canon-big", w_big::canon_big),
        ("large", w_big::large),
        ("exact", w_exact::exact),
        ("same", w_same::same),
        ("overread", w_exact::overread),
        ("ckpt", w_state::ckpt),
        ("restore", w_state::restore),
        ("canon", w_state::canon),
        ("observe", w_state::observe),
        ("panics", w_state::panics),
        ("long-chunks", w_long::long_chunks),
        ("long-hops", w_long::long_hops),
        ("long-observe", w_long::long_observe),
        ("long-canon", w_long::long_canon),
        ("long-adapt", w_long::long_adapt),
        ("long-epochs", w_long::long_epochs),
    ];
    #[cfg(feature = "std")]
    {
        v.push(("adapt", w_std::adapt));
        v.push(("select", w_std::select));
        v.push(("interleave", w_std::interleave));
    }
    v
}

/// Runs one workload and prints its summary; false if there is no such workload.
pub fn run(name: &str, p: Params) -> Option<u32> {
    for (n, f) in workloads() {
        if n == name {
            let mut c = Ctx::new(n, p);
            f(&mut c);
            return Some(c.finish());
        }
    }
    None
}
