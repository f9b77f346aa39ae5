//! Monitors that compare values: against the model, between backends, default against zero key.
use crate::ctx::{show, showk, Ctx, SECTION};
use crate::h::*;
use crate::inputs::inputs;
use alloc::format;
use alloc::vec::Vec;
use monref::{vectors, Model};

/// The oracle against the published vectors. Does not touch the crate under test.
pub fn selfcheck(ctx: &mut Ctx) {
    for n in 0..=64usize {
        if !ctx.sel(SECTION + n as u64) {
            continue;
        }
        let d: Vec<u8> = (0..n).map(|x| x as u8).collect();
        let mut m = Model::new(vectors::KEY);
        m.append(&d);
        ctx.seen(n as u64);
        if m.all() != vectors::VECTORS[n] {
            ctx.fail(format!("model differs from the published vector {}", n));
        }
        let mut q = Model::new(vectors::KEY);
        for b in &d {
            q.append(core::slice::from_ref(b));
        }
        if q.all() != m.all() {
            ctx.fail(format!("model depends on chunking at {}", n));
        }
    }
}

fn streamed(mk: &dyn Fn() -> H, ctx: &Ctx, d: &[u8], v: u64) -> [R; 3] {
    let mut r = monref::Rng::new(v, 1, 2);
    let ch = ctx.p.dict.chunks(d.len(), &mut r);
    let mut out = [[0; 4]; 3];
    for w in 0..3 {
        let mut h = mk();
        let mut at = 0;
        for c in &ch {
            h.append(&d[at..at + c]);
            at += c;
        }
        out[w] = h.fin(w);
    }
    out
}

/// C01: PortableHash against the model.
pub fn model(ctx: &mut Ctx) {
    inputs(ctx, false, &mut |ctx, key, d, v| {
        let mut m = Model::new(key);
        m.append(d);
        let want = split(m.all());
        let mk = || H::new(P, key, 0);
        let got = three(mk, d);
        if got != want {
            ctx.fail(format!("PortableHash one-shot: key {} data {} got {:x?} specification {:x?}", showk(key), show(d), got, want));
        }
        if v & 3 == 0 {
            let got = streamed(&mk, ctx, d, v);
            ctx.count("appended in chunks", 1);
            if got != want {
                ctx.fail(format!("PortableHash append+finalize: key {} data {} got {:x?} specification {:x?}", showk(key), show(d), got, want));
            }
        }
        if v & 63 == 1 && three(mk, d) != want {
            ctx.fail(format!("PortableHash second evaluation differs: key {} data {}", showk(key), show(d)));
        }
        ctx.count("results compared with the specification", 3);
    });
    for n in 0..=64u64 {
        if ctx.sel(20 * SECTION + n) {
            let d: Vec<u8> = (0..n).map(|x| x as u8).collect();
            let got = three(|| H::new(P, vectors::KEY, 0), &d);
            let want = split(vectors::VECTORS[n as usize]);
            ctx.count("published vectors", 1);
            if got != want {
                ctx.fail(format!("published vector {}: got {:x?} want {:x?}", n, got, want));
            }
        }
    }
}

/// C02, C03, C04: every other backend against PortableHash.
pub fn equiv(ctx: &mut Ctx) {
    let ks: Vec<Kind> = ctx.p.kinds.iter().copied().filter(|k| *k != P).collect();
    if ks.is_empty() {
        return;
    }
    inputs(ctx, false, &mut |ctx, key, d, v| {
        let want = three(|| H::new(P, key, 0), d);
        for k in &ks {
            let mk = || H::new(*k, key, v);
            let got = three(mk, d);
            if got != want {
                ctx.fail(format!("{:?} one-shot: key {} data {} got {:x?} portable {:x?}", k, showk(key), show(d), got, want));
            }
            if (v >> 2) & 3 == 0 {
                let got = streamed(&mk, ctx, d, v);
                ctx.count("appended in chunks", 1);
                // portable in the same chunks
                let want = streamed(&|| H::new(P, key, 0), ctx, d, v);
                if got != want {
                    ctx.fail(format!("{:?} append+finalize: key {} data {} got {:x?} portable {:x?}", k, showk(key), show(d), got, want));
                }
            }
            ctx.count("results compared with portable", 3);
        }
        if ctx.p.digests {
            ctx.dig(want[0][0] ^ want[1][1] ^ want[2][3]);
        }
    });
}

/// C07: T::default() against T::new(zero key), against the other types and the specification.
pub fn default(ctx: &mut Ctx) {
    let ks = ctx.p.kinds.clone();
    inputs(ctx, true, &mut |ctx, key, d, v| {
        let mut m = Model::new(key);
        m.append(d);
        let spec = split(m.all());
        for k in &ks {
            let a = three(|| H::default(*k), d);
            let b = three(|| H::new(*k, [0; 4], v), d);
            if a != b {
                ctx.fail(format!("{:?}::default() and {:?}::new(zero key) differ: data {} default {:x?} new {:x?}", k, k, show(d), a, b));
            }
            // "... HighwayHash of d under the zero key and all hasher types agree"
            if a != spec {
                ctx.fail(format!("{:?}::default(): data {} got {:x?} zero-key HighwayHash {:x?}", k, show(d), a, spec));
            }
            ctx.count("default compared with new and the specification", 3);
            if v & 3 == 0 {
                // a longer history
                let mut r = monref::Rng::new(v, 3, 4);
                let ch = ctx.p.dict.chunks(d.len(), &mut r);
                let (mut x, mut y) = (H::default(*k), H::new(*k, [0; 4], v >> 8));
                let mut at = 0;
                for c in ch {
                    let e = r.u64();
                    x.enter(e, &d[at..at + c]);
                    y.enter(e, &d[at..at + c]);
                    at += c;
                    if r.chance(1, 6) {
                        ctx.count("checkpoints compared", 1);
                        if x.cp() != y.cp() {
                            ctx.fail(format!("{:?}: checkpoint of default differs from new after {} bytes of {}", k, at, show(d)));
                        }
                    }
                    if r.chance(1, 6) && x.finish() != y.finish() {
                        ctx.fail(format!("{:?}: finish of default differs from new after {} bytes of {}", k, at, show(d)));
                    }
                    if r.chance(1, 10) {
                        let (p, q) = (x.clone(), y.clone());
                        x = p;
                        y = q;
                    }
                    if ctx.stop {
                        break;
                    }
                }
                let w = r.idx(3);
                let (x, y) = (x.fin(w), y.fin(w));
                ctx.count("histories compared", 1);
                if x != y {
                    ctx.fail(format!("{:?}: history of default differs from new: data {} {:x?} {:x?}", k, show(d), x, y));
                }
            }
        }
    });
    for (i, k) in ks.iter().enumerate() {
        if ctx.sel(21 * SECTION + i as u64) {
            let (mut a, mut b) = (Text::new(), Text::new());
            let _ = H::default(*k).debug(&mut a, false);
            let _ = H::new(*k, [0; 4], 0).debug(&mut b, false);
            if a.get() != b.get() {
                ctx.fail(format!("{:?}: Debug of default differs from new: {} {}", k, a.get(), b.get()));
            }
            let z = highway::Key::default().0;
            if z != [0; 4] {
                ctx.fail(format!("Key::default() is {}", showk(z)));
            }
            crate::each!(H::default(*k), h => {
                // taking a hasher out of a place leaves a default one
                let mut p = h;
                let _old = crate::ctx::lib(|| core::mem::take(&mut p));
                let r = crate::ctx::lib(|| highway::HighwayHash::hash64(p, b"abc"));
                let mut m = Model::new([0; 4]);
                m.append(b"abc");
                if r != m.h64() {
                    ctx.fail(format!("{:?}: mem::take leaves something else than the zero-key hasher", k));
                }
            });
        }
    }
    #[cfg(feature = "std")]
    crate::w_std::default_std(ctx);
}

/// C16, C17: everything the portable path does, with digests to be compared between platforms.
pub fn portable(ctx: &mut Ctx) {
    inputs(ctx, false, &mut |ctx, key, d, v| {
        let mut r = monref::Rng::new(v, 5, 6);
        let a = three(|| H::new(P, key, 0), d);
        let mut acc = 0;
        for x in a.iter() {
            for w in x {
                acc = monref::digest(acc, &w.to_le_bytes());
            }
        }
        let mut h = H::new(P, key, 0);
        let mut at = 0;
        let ch = ctx.p.dict.chunks(d.len(), &mut r);
        let stop = if ch.is_empty() { 0 } else { r.idx(ch.len()) };
        let mut chosen = stop as u64;
        for (i, c) in ch.iter().enumerate() {
            let e = r.u64();
            chosen = monref::mix(chosen ^ e).wrapping_add(*c as u64);
            h.enter(e, &d[at..at + c]);
            at += c;
            if r.chance(1, 4) {
                acc = monref::digest(acc, &h.cp());
                ctx.count("checkpoints in the digest", 1);
            }
            if r.chance(1, 4) {
                acc = monref::digest(acc, &h.finish().unwrap_or(0).to_le_bytes());
            }
            if i == stop {
                h = H::restore(P, h.cp(), 0);
            }
        }
        let c = h.cp();
        let b = h.fin(2);
        for w in b {
            acc = monref::digest(acc, &w.to_le_bytes());
        }
        acc = monref::digest(acc, &c);
        ctx.count("results in the digest", 3);
        ctx.given(chosen);
        ctx.dig(acc);
    });
    // restored from anything
    let sweep = |ctx: &mut Ctx, r: &mut monref::Rng, count: u32| {
        let c = ctx.p.dict.state(count, r);
        let mut acc = 0;
        let h = H::restore(P, c, 0);
        acc = monref::digest(acc, &h.cp());
        let n = r.idx(70);
        let mut d = alloc::vec![0; n];
        r.fill(&mut d);
        for w in three(|| H::restore(P, c, 0), &d) {
            for x in w {
                acc = monref::digest(acc, &x.to_le_bytes());
            }
        }
        let mut h = H::restore(P, c, 0);
        h.append(&d);
        acc = monref::digest(acc, &h.cp());
        ctx.count("arbitrary checkpoints restored", 1);
        ctx.seen(monref::digest(0, &c));
        ctx.given(monref::digest(monref::digest(0, &c), &d));
        ctx.dig(acc);
    };
    for i in 0..60u64 {
        for v in 0..8 {
            if ctx.sel(22 * SECTION + i * 8 + v) {
                let mut r = ctx.rng();
                let count = ctx.p.dict.count(i, &mut r);
                sweep(ctx, &mut r, count);
            }
        }
    }
    ctx.random(23, |ctx, r| {
        let count = ctx.p.dict.count(99, r);
        sweep(ctx, r, count);
    });
    // Key, Default, clone
    if ctx.sel(24 * SECTION) {
        let k = highway::Key([1, 2, 3, 4]);
        let s = k[0] ^ k[1] << 8 ^ k[2] << 16 ^ k[3] << 24;
        let h = H::default(P);
        let c = h.clone();
        ctx.dig(s ^ h.fin(0)[0] ^ c.fin(1)[1]);
        #[cfg(feature = "std")]
        {
            let _b = highway::HighwayBuildHasher::new(k);
            let _d = highway::HighwayBuildHasher::default();
        }
    }
}
