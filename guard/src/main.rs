//! Every operation inside a guard whose destructor calls a function that does not exist. If the optimiser leaves any
//! way to unwind out of the operation, linking fails and names the operation.
#![allow(clippy::all)]
use highway::*;
use std::hint::black_box;

macro_rules! guard {
    ($name:ident, $e:expr) => {{
        struct G;
        impl Drop for G {
            #[inline(always)]
            fn drop(&mut self) {
                extern "C" {
                    fn $name() -> !;
                }
                unsafe { $name() }
            }
        }
        let g = G;
        let r = $e;
        core::mem::forget(g);
        r
    }};
}

macro_rules! ops {
    ($m:ident, $t:ty, $new:expr, $restore:expr, $has_std:tt) => {
        mod $m {
            use super::*;
            type T = $t;
            #[inline(never)]
            fn new(k: Key) -> T {
                guard!(panic_edge_in_new, $new(k))
            }
            #[inline(never)]
            fn default() -> T {
                guard!(panic_edge_in_default, T::default())
            }
            #[inline(never)]
            fn restore(c: [u8; 164]) -> T {
                guard!(panic_edge_in_from_checkpoint, $restore(c))
            }
            #[inline(never)]
            fn append(h: &mut T, d: &[u8]) {
                guard!(panic_edge_in_append, h.append(d))
            }
            #[inline(never)]
            fn checkpoint(h: &T) -> [u8; 164] {
                guard!(panic_edge_in_checkpoint, h.checkpoint())
            }
            #[inline(never)]
            fn clone(h: &T) -> T {
                guard!(panic_edge_in_clone, h.clone())
            }
            #[inline(never)]
            fn f64(h: T) -> u64 {
                guard!(panic_edge_in_finalize64, h.finalize64())
            }
            #[inline(never)]
            fn f128(h: T) -> [u64; 2] {
                guard!(panic_edge_in_finalize128, h.finalize128())
            }
            #[inline(never)]
            fn f256(h: T) -> [u64; 4] {
                guard!(panic_edge_in_finalize256, h.finalize256())
            }
            #[inline(never)]
            fn h64(h: T, d: &[u8]) -> u64 {
                guard!(panic_edge_in_hash64, h.hash64(d))
            }
            #[inline(never)]
            fn h128(h: T, d: &[u8]) -> [u64; 2] {
                guard!(panic_edge_in_hash128, h.hash128(d))
            }
            #[inline(never)]
            fn h256(h: T, d: &[u8]) -> [u64; 4] {
                guard!(panic_edge_in_hash256, h.hash256(d))
            }
            // what the project's own example covers
            #[inline(never)]
            fn whole(k: Key, d: &[u8]) -> u64 {
                guard!(panic_edge_in_a_whole_history, {
                    let mut h = $new(k);
                    h.append(d);
                    let h = $restore(h.checkpoint());
                    h.finalize64()
                })
            }
            ops!(@std $has_std);
            pub fn all(d: &[u8], c: [u8; 164], k: [u64; 4]) -> u64 {
                let mut h = black_box(new(Key(k)));
                append(&mut h, d);
                let mut x = black_box(restore(c));
                append(&mut x, d);
                let mut acc = checkpoint(&x)[0] as u64 ^ checkpoint(&h)[1] as u64;
                acc ^= f64(clone(&h)) ^ f128(clone(&h))[1] ^ f256(clone(&x))[2];
                acc ^= h64(default(), d) ^ h128(clone(&x), d)[0] ^ h256(clone(&h), d)[3];
                acc ^= whole(Key(k), d);
                acc ^= std_ops(h, d);
                acc
            }
        }
    };
    (@std 0) => {
        fn std_ops(_: T, _: &[u8]) -> u64 {
            0
        }
    };
    (@std 1) => {
        #[inline(never)]
        fn finish(h: &T) -> u64 {
            guard!(panic_edge_in_Hasher_finish, std::hash::Hasher::finish(h))
        }
        #[inline(never)]
        fn hwrite(h: &mut T, d: &[u8]) {
            guard!(panic_edge_in_Hasher_write, std::hash::Hasher::write(h, d))
        }
        #[cfg(feature = "hwstd")]
        #[inline(never)]
        fn iowrite(h: &mut T, d: &[u8]) -> usize {
            guard!(panic_edge_in_io_write, match std::io::Write::write(h, d) { Ok(n) => n, Err(_) => 0 })
        }
        #[cfg(feature = "hwstd")]
        #[inline(never)]
        fn ioflush(h: &mut T) -> bool {
            guard!(panic_edge_in_io_flush, std::io::Write::flush(h).is_ok())
        }
        fn std_ops(mut h: T, d: &[u8]) -> u64 {
            hwrite(&mut h, d);
            #[allow(unused_mut)]
            let mut a = finish(&h);
            #[cfg(feature = "hwstd")]
            {
                a ^= iowrite(&mut h, d) as u64 ^ ioflush(&mut h) as u64 ^ finish(&h);
            }
            a
        }
    };
}

ops!(portable, PortableHash, PortableHash::new, PortableHash::from_checkpoint, 1);
ops!(auto, HighwayHasher, HighwayHasher::new, HighwayHasher::from_checkpoint, 1);
#[cfg(target_arch = "x86_64")]
ops!(sse, SseHash, |k| unsafe { SseHash::force_new(k) }, |c| unsafe { SseHash::force_from_checkpoint(c) }, 1);
#[cfg(target_arch = "x86_64")]
ops!(avx, AvxHash, |k| unsafe { AvxHash::force_new(k) }, |c| unsafe { AvxHash::force_from_checkpoint(c) }, 1);

#[cfg(target_arch = "aarch64")]
ops!(neon, NeonHash, |k| unsafe { NeonHash::force_new(k) }, |c| unsafe { NeonHash::force_from_checkpoint(c) }, 0);

#[cfg(target_arch = "x86_64")]
#[inline(never)]
fn safe_ctors(k: [u64; 4], c: [u8; 164]) -> u64 {
    let n = guard!(panic_edge_in_simd_new, SseHash::new(Key(k)).is_some() as u64 + AvxHash::new(Key(k)).is_some() as u64);
    n + guard!(panic_edge_in_simd_from_checkpoint, SseHash::from_checkpoint(c).is_some() as u64 + AvxHash::from_checkpoint(c).is_some() as u64)
}
#[inline(never)]
fn builder(k: [u64; 4], d: &[u8]) -> u64 {
    use std::hash::BuildHasher;
    guard!(panic_edge_in_build_hasher, {
        let b = HighwayBuildHasher::new(Key(k));
        let d2 = HighwayBuildHasher::default();
        b.build_hasher().hash64(d) ^ d2.build_hasher().hash64(d)
    })
}

/// Has such an edge on purpose: shows that the guard detects one.
#[cfg(guard_selftest)]
#[inline(never)]
fn selftest(d: &[u8], i: usize) -> u8 {
    guard!(panic_edge_selftest, d[i])
}

fn main() {
    let d: Vec<u8> = (0..black_box(1000u32)).map(|x| (x * 7) as u8).collect();
    let c = black_box([7u8; 164]);
    let k = black_box([1, 2, 3, 4]);
    let mut acc = 0;
    for n in [0usize, 5, 31, 32, 33, 700] {
        let d = black_box(&d[..n]);
        acc ^= portable::all(d, c, k) ^ auto::all(d, c, k) ^ builder(k, d);
        #[cfg(target_arch = "x86_64")]
        {
            acc ^= safe_ctors(k, c);
            if std::is_x86_feature_detected!("sse4.1") {
                acc ^= sse::all(d, c, k);
            }
            if std::is_x86_feature_detected!("avx2") {
                acc ^= avx::all(d, c, k);
            }
        }
        #[cfg(target_arch = "aarch64")]
        {
            acc ^= neon::all(d, c, k);
        }
        #[cfg(guard_selftest)]
        {
            acc ^= selftest(d, n / 2) as u64;
        }
    }
    println!("GUARD {:x}", acc);
}
