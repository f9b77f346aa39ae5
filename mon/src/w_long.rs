//! Very long histories: counters, generations and caches inside a hasher (or beside it) come round.
use crate::ctx::{lib, showk, Ctx, SECTION};
use crate::h::*;
use alloc::format;
use alloc::vec::Vec;
use monref::Rng;

/// More than 2^16 of something.
fn many(r: &mut Rng) -> usize {
    65_600 + r.idx(3000)
}

fn setup(ctx: &Ctx) -> (Rng, [u64; 4]) {
    let mut r = ctx.rng();
    let i = r.below(20);
    let key = ctx.p.dict.key(i, &mut r);
    (r, key)
}

/// A window that repeats: the bytes from `at` on of an unbounded stream.
struct Stream(Vec<u8>);
impl Stream {
    const N: usize = 1 << 12;
    fn new(r: &mut Rng) -> Stream {
        let mut v = alloc::vec![0u8; Self::N * 2];
        r.fill(&mut v[..Self::N]);
        let (a, b) = v.split_at_mut(Self::N);
        b.copy_from_slice(a);
        Stream(v)
    }
    fn at(&self, at: u64, n: usize) -> &[u8] {
        let o = (at % Self::N as u64) as usize;
        &self.0[o..o + n]
    }
    /// All of the first `n` bytes, in whole windows: a multiple of the packet size each.
    fn whole(&self, h: &mut H, n: u64) {
        let mut at = 0;
        while at < n {
            let k = (n - at).min(Self::N as u64) as usize;
            h.append(&self.0[..k]);
            at += k as u64;
        }
    }
}

const STEPS: [&[usize]; 10] = [&[31], &[33], &[1], &[17, 47], &[63, 1], &[32, 7, 25], &[5], &[31, 2], &[0, 29], &[97, 0, 3]];

/// C05: more than 2^16 refills of the buffer (2^32 with `n` of 2 or more).
pub fn long_chunks(ctx: &mut Ctx) {
    for (ki, k) in ctx.p.kinds.clone().iter().enumerate() {
        for (v, steps) in STEPS.iter().enumerate() {
            for e in 0..2u64 {
                if !ctx.sel(SECTION + (ki * 64 + v * 4) as u64 + e) {
                    continue;
                }
                let (mut r, key) = setup(ctx);
                let s = Stream::new(&mut r);
                let rounds = many(&mut r);
                // rounds of at least one refill each
                let total: usize = steps.iter().sum();
                let per = (33 + total - 1) / total;
                let e = if e == 0 { 0 } else { 1 + r.below(3) };
                let mut h = H::new(*k, key, r.u64());
                let (mut at, mut calls) = (0u64, 0u64);
                for _ in 0..rounds {
                    for _ in 0..per {
                        for n in steps.iter() {
                            h.enter(e, s.at(at, *n));
                            at += *n as u64;
                            calls += 1;
                        }
                    }
                }
                let mut q = H::new(*k, key, 0);
                s.whole(&mut q, at);
                let w = r.idx(3);
                let (got, want) = (h.fin(w), q.fin(w));
                ctx.seen((ki * 64 + v * 4) as u64 + e);
                ctx.max("most calls in one history", calls);
                ctx.count("long histories compared", 1);
                ctx.sample(|| format!("{:?}: {} calls of {:?} bytes, {} bytes, entry {}", k, calls, steps, at, e));
                if got != want {
                    ctx.fail(format!("{:?}: key {} {} calls of {:?} bytes (entry {}), {} bytes in all, width {}: {:x?} in whole packets {:x?}", k, showk(key), calls, steps, e, at, WIDTHS[w], got, want));
                }
            }
        }
        if ctx.p.n >= 2 {
            for v in 0..2u64 {
                if !ctx.sel(2 * SECTION + ki as u64 * 4 + v) {
                    continue;
                }
                let (mut r, key) = setup(ctx);
                let s = Stream::new(&mut r);
                let mut h = H::new(*k, key, 0);
                let n = if v == 0 { 33 } else { 31 };
                let calls = (1u64 << 32) + (1 << 28);
                let mut at = 0u64;
                let mut i = 0u64;
                h.append(s.at(0, 1));
                at += 1;
                while i < calls {
                    // one library bracket for many calls
                    let m = (calls - i).min(1 << 16);
                    crate::ctx::lib(|| {
                        crate::each!(&mut h, h => {
                            use highway::HighwayHash;
                            for _ in 0..m {
                                h.append(s.at(at, n));
                                at += n as u64;
                            }
                        })
                    });
                    i += m;
                }
                let mut q = H::new(*k, key, 0);
                s.whole(&mut q, at);
                let w = r.idx(3);
                ctx.seen(1 << 60 | ki as u64 * 4 + v);
                ctx.max("most calls in one history", calls);
                ctx.count("long histories compared", 1);
                if h.fin(w) != q.fin(w) {
                    ctx.fail(format!("{:?}: key {} {} calls of {} bytes: differs from whole packets", k, showk(key), calls, n));
                }
            }
        }
    }
}

/// C06: more than 2^16 checkpoint/restore hops.
pub fn long_hops(ctx: &mut Ctx) {
    let ks = ctx.p.kinds.clone();
    for (ki, k) in ks.iter().enumerate() {
        for v in 0..4usize {
            if !ctx.sel(SECTION + (ki * 8 + v) as u64) {
                continue;
            }
            let (mut r, key) = setup(ctx);
            let s = Stream::new(&mut r);
            let hops = many(&mut r);
            let mut h = H::new(*k, key, r.u64());
            let mut at = 0u64;
            let step = [0usize, 1, 31, 40][v];
            h.append(s.at(0, 19));
            at += 19;
            for i in 0..hops {
                // stay, or take turns with all the others
                let to = if v % 2 == 0 { *k } else { ks[(ki + i) % ks.len()] };
                h = H::restore(to, h.cp(), i as u64);
                h.append(s.at(at, step));
                at += step as u64;
            }
            let mut q = H::new(*k, key, 0);
            if ctx.p.twin {
                q = H::new(P, key, 0);
                q.append(s.at(0, 19));
                for i in 0..hops {
                    q = H::restore(P, q.cp(), 0);
                    q.append(s.at(19 + (i * step) as u64, step));
                }
            } else {
                s.whole(&mut q, at);
            }
            let w = r.idx(3);
            let (got, want) = (h.fin(w), q.fin(w));
            ctx.seen((ki * 8 + v) as u64);
            ctx.max("most hops in one history", hops as u64);
            ctx.count("hops", hops as u64);
            ctx.count("restored compared with uninterrupted", 1);
            ctx.sample(|| format!("{:?}: {} hops, {} bytes appended after each", k, hops, step));
            if got != want {
                ctx.fail(format!("{:?}: key {} {} hops with {} bytes after each, {} bytes in all, width {}: {:x?} uninterrupted {:x?}", k, showk(key), hops, step, at, WIDTHS[w], got, want));
            }
        }
    }
}

/// C13: more than 2^16 observations of one hasher; chains of clones.
pub fn long_observe(ctx: &mut Ctx) {
    for (ki, k) in ctx.p.kinds.clone().iter().enumerate() {
        for o in 0..7u64 {
            if !ctx.sel(SECTION + ki as u64 * 8 + o) {
                continue;
            }
            let (mut r, key) = setup(ctx);
            let s = Stream::new(&mut r);
            let n = if o == 3 || o == 4 { 2000 } else { many(&mut r) };
            let mut h = H::new(*k, key, r.u64());
            let mut p = H::new(*k, key, 0);
            let mut at = 0u64;
            let mut first = (h.cp(), h.finish());
            for i in 0..n {
                match o {
                    0..=4 => peek(&h, o),
                    // a chain of clones: the newest goes on
                    5 => h = h.clone(),
                    _ => peek(&h, i as u64 % 3),
                }
                if i % 4099 == 0 || i + 1 == n || o == 5 && i % 8 == 0 {
                    if o != 5 && i > 0 && (h.cp(), h.finish()) != first {
                        ctx.fail(format!("{:?}: key {}: after {} observations ({}) of an unchanged hasher its checkpoint or finish differs", k, showk(key), i, o));
                    }
                    let m = r.idx(80);
                    h.append(s.at(at, m));
                    p.append(s.at(at, m));
                    at += m as u64;
                    if o != 5 {
                        first = (h.cp(), h.finish());
                    }
                }
            }
            let w = r.idx(3);
            let (got, want) = (h.fin(w), p.fin(w));
            ctx.seen(ki as u64 * 8 + o);
            ctx.max("most observations of one hasher", n as u64);
            ctx.count("observed compared with unobserved", 1);
            if got != want {
                ctx.fail(format!("{:?}: key {}: {} observations ({}) in {} bytes, width {}: {:x?} unobserved {:x?}", k, showk(key), n, o, at, WIDTHS[w], got, want));
            }
        }
    }
}

pub fn peek(h: &H, o: u64) {
    match o {
        0 => {
            let _ = h.cp();
        }
        1 => {
            let _ = h.finish();
        }
        2 => {
            let _ = h.clone();
        }
        o => {
            let mut t = Text::new();
            let _ = h.debug(&mut t, o == 4);
        }
    }
}

/// C14: checkpoints after long histories of small calls and hops.
pub fn long_canon(ctx: &mut Ctx) {
    let ks = ctx.p.kinds.clone();
    for (ki, k) in ks.iter().enumerate() {
        for (v, steps) in STEPS.iter().enumerate() {
            if !ctx.sel(SECTION + (ki * 16 + v) as u64) {
                continue;
            }
            let (mut r, key) = setup(ctx);
            let s = Stream::new(&mut r);
            let rounds = many(&mut r);
            let total: usize = steps.iter().sum();
            let per = (33 + total - 1) / total;
            let mut h = H::new(*k, key, r.u64());
            let mut at = 0u64;
            for i in 0..rounds {
                for _ in 0..per {
                    for n in steps.iter() {
                        h.append(s.at(at, *n));
                        at += *n as u64;
                    }
                }
                if v % 3 == 2 && i % 13 == 0 {
                    h = H::restore(ks[(ki + i / 13) % ks.len()], h.cp(), 0);
                }
            }
            let mut q = H::new(P, key, 0);
            s.whole(&mut q, at);
            let (got, want) = (h.cp(), q.cp());
            ctx.seen((ki * 16 + v) as u64);
            ctx.count("checkpoints compared", 1);
            ctx.max("longest stream of small calls", at);
            if got != want {
                ctx.fail(format!("{:?}: key {}: {} bytes in rounds of {:?}: checkpoint {} in whole packets {}", k, showk(key), at, steps, crate::ctx::show(&got), crate::ctx::show(&want)));
            }
        }
    }
}

/// C12: more than 2^16 writes and finishes.
pub fn long_adapt(ctx: &mut Ctx) {
    for (ki, k) in ctx.p.kinds.clone().iter().enumerate() {
        for v in 0..4usize {
            if !ctx.sel(SECTION + (ki * 8 + v) as u64) {
                continue;
            }
            let (mut r, key) = setup(ctx);
            let s = Stream::new(&mut r);
            let n = many(&mut r);
            let mut h = H::new(*k, key, r.u64());
            if !h.has_std() {
                continue;
            }
            let mut at = 0u64;
            let mut f = None;
            for i in 0..n {
                let m = [1usize, 8, 31, 33][v];
                if v == 3 && i % 2 == 1 {
                    f = h.finish();
                } else {
                    h.enter(1 + v as u64 % 3, s.at(at, m));
                    at += m as u64;
                }
            }
            if v != 3 {
                for _ in 0..n {
                    f = h.finish();
                }
            } else {
                f = h.finish().or(f);
            }
            let mut q = H::new(*k, key, 0);
            s.whole(&mut q, at);
            let want = q.fin(0)[0];
            ctx.seen((ki * 8 + v) as u64);
            ctx.max("most writes or finishes of one hasher", n as u64);
            ctx.count("finish compared", 1);
            if f != Some(want) {
                ctx.fail(format!("{:?}: key {}: finish after {} writes ({}) of {} bytes in all: {:x?} want {:x}", k, showk(key), n, v, at, f, want));
            }
        }
    }
}

/// Any property: about 2^n calls of one operation, for counters of more than 16 bits in a hasher or in the process.
/// Every result is compared with the first of its kind.
pub fn long_epochs(ctx: &mut Ctx) {
    let ks = ctx.p.kinds.clone();
    let bits = ctx.p.n.min(40);
    for (ki, k) in ks.iter().copied().enumerate() {
        for o in 0..12u64 {
            if !ctx.sel(SECTION + ki as u64 * 16 + o) {
                continue;
            }
            let (mut r, key) = setup(ctx);
            let other = ctx.p.dict.key(7, &mut r);
            let s = Stream::new(&mut r);
            // the slower the operation, the fewer
            let n = (1u64 << bits) >> [0, 2, 1, 1, 1, 2, 6, 2, 0, 2, 2, 3][o as usize];
            let n = n + n / 16;
            let w = r.idx(3);
            let m = r.idx(70);
            let d = s.at(3, m);
            let mut bad = 0u64;
            let mut at = 0u64;
            let mut note = |i: u64, ok: bool| {
                if !ok && bad == 0 {
                    bad = i + 1;
                }
            };
            let (want, wanto) = (H::new(k, key, 0).hash(w, d), H::new(k, other, 0).hash(w, d));
            let mut h = H::new(k, key, r.u64());
            match o {
                0 | 1 | 8 => {
                    let step = match o {
                        0 => 32,
                        8 => 1,
                        _ => 33 + r.idx(64),
                    };
                    at = 1 + r.below(31);
                    h.append(s.at(0, at as usize));
                    for i in 0..n {
                        h.enter(if o == 1 { i } else { 0 }, s.at(at, step));
                        at += step as u64;
                    }
                }
                2 => {
                    for i in 0..n {
                        let (key, want) = if i % 3 == 2 { (other, wanto) } else { (key, want) };
                        note(i, H::new(k, key, i).hash(w, d) == want);
                    }
                }
                3 => {
                    h.append(s.at(0, m));
                    at = m as u64;
                    if let Some(f) = h.finish() {
                        for i in 0..n {
                            note(i, h.finish() == Some(f));
                        }
                    }
                }
                4 => {
                    h.append(s.at(0, m));
                    at = m as u64;
                    let c = h.cp();
                    for i in 0..n {
                        h = H::restore(k, c, i);
                        if i % 4 == 0 {
                            note(i, h.cp() == c);
                        }
                    }
                }
                5 => {
                    h.append(s.at(0, m));
                    at = m as u64;
                    for i in 0..n {
                        let c = h.clone();
                        if i % 8 == 3 {
                            h = c;
                        } else if i % 8 == 5 {
                            note(i, c.cp() == h.cp());
                        }
                    }
                }
                6 => {
                    h.append(s.at(0, m));
                    at = m as u64;
                    let mut first = Sum(0, 0);
                    let _ = h.debug(&mut first, false);
                    for i in 0..n {
                        let mut t = Sum(0, 0);
                        let _ = h.debug(&mut t, false);
                        note(i, t.0 == first.0 && t.1 == first.1);
                    }
                }
                7 => {
                    let want = H::new(k, [0; 4], 0).hash(w, d);
                    for i in 0..n {
                        note(i, H::default(k).hash(w, d) == want);
                    }
                }
                9 => {
                    // finalisations of one state
                    h.append(s.at(0, m));
                    at = m as u64;
                    let c = h.cp();
                    let want = H::restore(k, c, 0).fin(w);
                    for i in 0..n {
                        note(i, H::restore(k, c, 0).fin(w) == want);
                    }
                }
                10 => {
                    // nothing at all, and finish in between
                    h.append(s.at(0, m));
                    at = m as u64;
                    let f = h.finish();
                    for i in 0..n {
                        h.enter(i, &[]);
                        if i % 16 == 0 {
                            note(i, h.finish() == f);
                        }
                    }
                }
                _ => {
                    #[cfg(feature = "std")]
                    if k == D {
                        use std::hash::{BuildHasher, Hasher};
                        let b = lib(|| highway::HighwayBuildHasher::new(highway::Key(key)));
                        let want = H::new(P, key, 0).hash(0, d)[0];
                        for i in 0..n {
                            note(i, {
                                let mut h = lib(|| b.build_hasher());
                                lib(|| h.write(d));
                                lib(|| h.finish()) == want
                            });
                        }
                    }
                }
            }
            let mut q = H::new(if ctx.p.twin { k } else { P }, key, 0);
            s.whole(&mut q, at);
            let (got, want) = (h.fin(w), q.fin(w));
            ctx.seen(ki as u64 * 16 + o);
            ctx.max("most calls of one operation", n);
            ctx.count("operations repeated over and over", 1);
            ctx.sample(|| format!("{:?}: operation {} {} times", k, o, n));
            if bad != 0 {
                ctx.fail(format!("{:?}: key {} repetition {} of operation {} over {} bytes (width {}) differs from the first", k, showk(key), bad, o, m, WIDTHS[w]));
            } else if got != want {
                ctx.fail(format!("{:?}: key {} after {} repetitions of operation {} and {} bytes in all: {:x?} in whole packets {:x?}", k, showk(key), n, o, at, got, want));
            }
        }
    }
}

/// A sink that sums up.
struct Sum(u64, u64);
impl core::fmt::Write for Sum {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        for b in s.bytes() {
            self.0 = (self.0.rotate_left(5) ^ b as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15);
            self.1 += 1;
        }
        Ok(())
    }
}
