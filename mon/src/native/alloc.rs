//! C18: allocations observed during library calls.
use highway::{HighwayBuildHasher, Key};
use mon::ctx::{lib, LIB_ALLOCS, SECTION};
use mon::h::*;
use mon::{Ctx, H};
use std::hash::{BuildHasher, Hasher};
use std::sync::atomic::Ordering::Relaxed;

struct Sink(usize, [u8; 8]);
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for b in s.bytes() {
            self.1[self.0 % 8] ^= b;
            self.0 += 1;
        }
        Ok(())
    }
}
/// A sink that refuses.
struct Full(usize);
impl std::fmt::Write for Full {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.0 < s.len() {
            return Err(std::fmt::Error);
        }
        self.0 -= s.len();
        Ok(())
    }
}

extern "C" {
    fn dlsym(h: *mut std::os::raw::c_void, n: *const std::os::raw::c_char) -> *mut std::os::raw::c_void;
}
static SHIM: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
/// What the preloaded monitor of libc's allocator has counted on this thread.
fn shim() -> usize {
    match SHIM.load(Relaxed) {
        0 => 0,
        f => unsafe { std::mem::transmute::<usize, extern "C" fn() -> std::os::raw::c_ulong>(f)() as usize },
    }
}
fn find_shim() {
    SHIM.store(unsafe { dlsym(std::ptr::null_mut(), c"mon_shim_count".as_ptr()) } as usize, Relaxed);
}
fn allocs() -> usize {
    LIB_ALLOCS.load(Relaxed)
}

/// One operation between two readings of the counter.
fn op<T>(ctx: &mut Ctx, what: &str, k: Kind, detail: impl Fn() -> String, f: impl FnOnce() -> T) -> T {
    let (a, b) = (allocs(), shim());
    let r = f();
    let (m, n) = (shim() - b, allocs() - a);
    ctx.count("operations watched", 1);
    if n != 0 {
        ctx.fail(format!("{:?}: {} made {} heap allocations ({})", k, what, n, detail()));
    } else if m != 0 {
        ctx.fail(format!("{:?}: {} asked the C library for memory {} times ({})", k, what, m, detail()));
    }
    r
}

pub fn alloc(ctx: &mut Ctx) {
    // the counter works
    let a = allocs();
    lib(|| std::hint::black_box(Box::new(std::hint::black_box(1u8))));
    if allocs() == a {
        ctx.fail("HARNESS the allocation counter does not count".into());
        return;
    }
    ctx.count("counter self-test", 1);
    find_shim();
    let b = shim();
    let l = std::alloc::Layout::new::<u64>();
    unsafe {
        use std::alloc::GlobalAlloc;
        std::alloc::System.dealloc(std::hint::black_box(std::alloc::System.alloc(l)), l);
    }
    if SHIM.load(Relaxed) != 0 {
        if shim() == b {
            ctx.fail("HARNESS the preloaded monitor does not count".into());
            return;
        }
        ctx.count("preloaded libc monitor self-test", 1);
    }
    let ks = ctx.p.kinds.clone();
    let max = ctx.p.max;
    let case = |ctx: &mut Ctx, r: &mut mon::monref::Rng, k: Kind, len: usize| {
        let ki = r.below(40);
        let key = ctx.p.dict.key(ki, r);
        let mut d = vec![0u8; len];
        r.fill(&mut d);
        let det = || format!("input of {} bytes, key {}", len, mon::ctx::showk(key));
        let c0 = r.u64();
        let mut h = match r.below(6) {
            0 => op(ctx, "Default", k, det, || H::default(k)),
            1 => {
                let count = ctx.p.dict.count(99, r);
                let c = ctx.p.dict.state(count, r);
                op(ctx, "restore from arbitrary bytes", k, det, || H::restore(k, c, c0))
            }
            _ => op(ctx, "construction", k, det, || H::new(k, key, c0)),
        };
        let mut at = 0;
        let ch = ctx.p.dict.chunks(len, r);
        let mut sig = k as u64;
        for c in ch.iter().take(200) {
            let e = r.u64();
            let s = &d[at..at + c];
            sig = mon::monref::rng::mix(sig ^ *c as u64 ^ e % 4 << 32);
            let name = ["append", "Hasher::write", "io::Write::write", "io::Write::write_all"][(e % 4) as usize];
            op(ctx, name, k, || format!("{} bytes at {}", c, at), || h.enter(e, s));
            at += c;
            match r.below(12) {
                0 => {
                    op(ctx, "checkpoint", k, det, || h.cp());
                }
                1 => {
                    op(ctx, "finish", k, det, || h.finish());
                }
                2 => h = op(ctx, "clone", k, det, || h.clone()),
                3 => {
                    let c = h.cp();
                    h = op(ctx, "restore", k, det, || H::restore(k, c, c0));
                }
                4 => {
                    let mut s = Sink(0, [0; 8]);
                    let alt = r.chance(1, 2);
                    let _ = op(ctx, "Debug formatting", k, det, || h.debug(&mut s, alt));
                    ctx.count("characters of Debug output", s.0 as u64);
                }
                5 => {
                    let mut s = Full(r.idx(300));
                    let alt = r.chance(1, 2);
                    let _ = op(ctx, "Debug formatting into a sink that fails", k, det, || h.debug(&mut s, alt));
                }
                6 => {
                    #[cfg(feature = "hwstd")]
                    {
                        use std::io::Write;
                        let _ = op(ctx, "flush", k, det, || lib(|| mon::each_std!(&mut h, h => h.flush(), Ok(()))));
                        let x = r.u64();
                        let _ = op(ctx, "write!", k, det, || lib(|| mon::each_std!(&mut h, h => write!(h, "{} {:?}", x, x), Ok(()))));
                        let v = [std::io::IoSlice::new(s), std::io::IoSlice::new(s)];
                        let _ = op(ctx, "write_vectored", k, det, || lib(|| mon::each_std!(&mut h, h => h.write_vectored(&v), Ok(0))));
                    }
                }
                7 => {
                    let x = r.u64();
                    op(ctx, "Hasher::write_u64 and friends", k, det, || {
                        lib(|| mon::each_std!(&mut h, h => { h.write_u64(x); h.write_u8(x as u8); h.write_u128(x as u128); h.write_usize(x as usize); }, ()))
                    });
                }
                8 => {
                    let mut t = H::default(k);
                    op(ctx, "clone_from", k, det, || {
                        lib(|| match (&mut t, &h) {
                            (H::P(a), H::P(b)) => a.clone_from(b),
                            (H::D(a), H::D(b)) => a.clone_from(b),
                            _ => {}
                        })
                    });
                }
                _ => {}
            }
            if ctx.stop {
                return;
            }
        }
        let w = r.idx(3);
        op(ctx, ["finalize64", "finalize128", "finalize256"][w], k, det, || h.clone().fin(w));
        op(ctx, ["hash64", "hash128", "hash256"][w], k, det, || h.hash(w, &d));
        if r.chance(1, 4) {
            let b = op(ctx, "HighwayBuildHasher::new", k, det, || lib(|| HighwayBuildHasher::new(Key(key))));
            let mut x = op(ctx, "build_hasher", k, det, || lib(|| b.build_hasher()));
            op(ctx, "write", k, det, || lib(|| Hasher::write(&mut x, &d)));
            op(ctx, "finish", k, det, || lib(|| Hasher::finish(&x)));
            op(ctx, "hash_one", k, det, || lib(|| b.hash_one((1u8, "abc", len))));
            op(ctx, "HighwayBuildHasher::default", k, det, || lib(|| HighwayBuildHasher::default()));
            let mut s = Sink(0, [0; 8]);
            op(ctx, "Debug of builder and key", k, det, || {
                lib(|| {
                    use std::fmt::Write;
                    let _ = write!(s, "{:?} {:?} {:#?}", b, Key(key), b);
                })
            });
        }
        ctx.seen(sig);
        ctx.max("longest input", len as u64);
        ctx.sample(|| format!("{:?} key {} {} bytes in chunks {:?}", k, mon::ctx::showk(key), len, &ch[..ch.len().min(12)]));
    };
    // 1: every length around the packets, every type; the first operations of the process among them
    for len in 0..=100usize {
        for (ki, k) in ks.iter().enumerate() {
            if ctx.sel(SECTION + (len * 8 + ki) as u64) {
                let mut r = ctx.rng();
                case(ctx, &mut r, *k, len);
            }
        }
    }
    // 2: sizes
    let mut lens: Vec<usize> = (7..=24).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1, (1 << k) + 33]).collect();
    for l in mon::inputs::lits(ctx, 1 << 24) {
        lens.extend([l - 1, l, l + 1, l + 32, l + 33]);
    }
    lens.retain(|l| *l <= max);
    lens.sort();
    lens.dedup();
    for l in lens {
        for (ki, k) in ks.iter().enumerate() {
            if ctx.sel(2 * SECTION + (l * 8 + ki) as u64) {
                let mut r = ctx.rng();
                case(ctx, &mut r, *k, l);
                // and in one append at every alignment class of the fill
                let d = vec![7u8; l];
                let f = r.idx(33).min(l);
                let mut h = H::new(*k, [1; 4], 0);
                op(ctx, "append", *k, || format!("{} bytes", f), || h.append(&d[..f]));
                op(ctx, "append", *k, || format!("{} bytes after {}", l - f, f), || h.append(&d[f..]));
                let w = r.idx(3);
                op(ctx, "finalize", *k, || "".into(), || h.fin(w));
            }
        }
    }
    // 3: anything
    ctx.random(3, |ctx, r| {
        let k = ks[r.idx(ks.len())];
        let cap = if r.chance(1, 50) { max.min(1 << 16) } else { 600 };
        let l = ctx.p.dict.len(cap, r);
        case(ctx, r, k, l);
    });
    // 5: larger than anything one would copy
    if max >= 1 << 24 && usize::BITS == 64 {
        let mut big = None;
        for (si, bits) in [26u32, 28, 30, 31, 32].into_iter().enumerate() {
            for (ki, k) in ks.iter().enumerate() {
                for e in 0..5u64 {
                    // one way each of the largest
                    if bits >= 30 && (e + ki as u64 + si as u64) % 5 != 0 || !ctx.sel(5 * SECTION + (si * 100 + ki * 10) as u64 + e) {
                        continue;
                    }
                    if big.is_none() {
                        big = Some(super::mem::Repeat::new((1u64 << 32) as usize + 4096, 1 << 24, 5));
                    }
                    let Some(Some(m)) = &big else {
                        ctx.count("no address space for a large input", 1);
                        continue;
                    };
                    let mut r = ctx.rng();
                    let n = (1u64 << bits) as usize + [0, 1, 33, r.idx(64)][r.idx(4)];
                    let a = [0, 0, 1, r.idx(64)][r.idx(4)];
                    let d = &m.get()[a..a + n];
                    let mut h = H::new(*k, [2; 4], 0);
                    let f = r.idx(33);
                    h.append(&d[..f]);
                    let det = || format!("{} bytes at {:p} with {} pending", n, d.as_ptr(), f % 32);
                    let name = ["append", "Hasher::write", "io::Write::write", "io::Write::write_all", "hash128"][e as usize];
                    if e < 4 {
                        op(ctx, name, *k, det, || h.enter(e, d));
                    } else {
                        op(ctx, name, *k, det, || h.hash(1, d));
                    }
                    ctx.count("single operations on 64 MiB to 4 GiB", 1);
                    ctx.max("longest input", n as u64);
                    ctx.seen((bits as u64) << 8 ^ (ki * 8) as u64 ^ e);
                }
            }
        }
    }
    // 4: fresh threads
    for t in 0..8u64 {
        if ctx.sel(4 * SECTION + t) {
            let ks = ks.clone();
            let n = std::thread::spawn(move || {
                let (a, b) = (allocs(), shim());
                for k in ks {
                    let mut h = H::new(k, [t; 4], t);
                    h.append(&[1; 77]);
                    let _ = h.finish();
                    let _ = H::restore(k, h.cp(), t);
                    let _ = h.fin(t as usize % 3);
                }
                allocs() - a + shim() - b
            })
            .join()
            .unwrap();
            ctx.count("first operations of a thread", 1);
            if n != 0 {
                ctx.fail(format!("{} allocations in the first operations of a new thread", n));
            }
        }
    }
}
