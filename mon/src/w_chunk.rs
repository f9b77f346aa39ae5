//! C05: only the concatenated bytes matter.
use crate::ctx::{show, showk, Ctx, SECTION};
use crate::h::*;
use alloc::format;
use alloc::vec::Vec;

fn key(ctx: &Ctx, r: &mut monref::Rng) -> [u64; 4] {
    let i = r.below(40);
    ctx.p.dict.key(i, r)
}

/// Feeds `d` in chunks; entry points from `e` (0: append only).
fn feed(h: &mut H, d: &[u8], chunks: &[usize], entries: &mut dyn FnMut() -> u64) {
    let mut at = 0;
    for c in chunks {
        h.enter(entries(), &d[at..at + c]);
        at += c;
    }
}

pub fn chunks(ctx: &mut Ctx) {
    let ks = ctx.p.kinds.clone();
    // 1: fill x chunk x chunk, exhaustively
    const THIRD: [usize; 10] = [0, 1, 5, 16, 31, 32, 33, 63, 64, 97];
    for f in 0..32usize {
        for c in 0..=136usize {
            for t in 0..THIRD.len() {
                if !ctx.sel(SECTION + ((f * 256 + c) * 16 + t) as u64) {
                    continue;
                }
                let mut r = ctx.rng();
                let key = key(ctx, &mut r);
                let d = ctx.p.dict.data(r.below(9), f + c + THIRD[t], key, &mut r);
                let singles = r.chance(1, 3);
                let mut ch: Vec<usize> = Vec::new();
                if singles {
                    ch.resize(f, 1);
                } else {
                    ch.push(f);
                }
                ch.push(c);
                ch.push(THIRD[t]);
                ctx.seen(((f * 256 + c) * 16 + t) as u64);
                ctx.count("fill x chunk x chunk cases", 1);
                for (i, k) in ks.iter().enumerate() {
                    let w = (f + c + t + i) % 3;
                    for w in [w, (w + 1) % 3].iter().take(if r.chance(1, 4) { 2 } else { 1 }) {
                        let ctor = r.u64();
                        let e = if r.chance(1, 2) { 0 } else { r.below(4) };
                        let run = |k: Kind| {
                            let mut h = H::new(k, key, ctor);
                            feed(&mut h, &d, &ch, &mut || e);
                            h.fin(*w)
                        };
                        let want = if ctx.p.twin { run(P) } else { H::new(*k, key, ctor).hash(*w, &d) };
                        let got = run(*k);
                        ctx.count("partitions compared with one call", 1);
                        if got != want {
                            ctx.fail(format!("{:?}: key {} chunks {:?} entry {} width {} data {}: {:x?} expected {:x?}", k, showk(key), ch, e, WIDTHS[*w], show(&d), got, want));
                        }
                    }
                }
            }
        }
    }
    // 2: long chunks after every fill
    let mut lens: Vec<usize> = alloc::vec![160, 192, 223, 224, 255, 256, 257, 288, 320, 511, 512, 513, 640, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 4128];
    for k in 13..20 {
        lens.push((1 << k) - 1);
        lens.push(1 << k);
        lens.push((1 << k) + 33);
    }
    for l in crate::inputs::lits(ctx, 1 << 16) {
        for d in [-33i64, -32, -1, 0, 1, 31, 32] {
            lens.push((l as i64 + d) as usize);
        }
    }
    lens.retain(|l| *l <= ctx.p.max);
    lens.sort();
    lens.dedup();
    for f in 0..32usize {
        for l in &lens {
            if *l > 5000 && (f * 7 + l) % 5 != 0 {
                continue;
            }
            if !ctx.sel(2 * SECTION + (*l * 32 + f) as u64) {
                continue;
            }
            let mut r = ctx.rng();
            let key = key(ctx, &mut r);
            let tail = r.idx(70);
            let d = ctx.p.dict.data(0, f + l + tail, key, &mut r);
            ctx.seen(1 << 50 | (*l * 32 + f) as u64);
            ctx.count("long chunks after a fill", 1);
            for k in &ks {
                let w = r.idx(3);
                let e = r.below(4);
                let run = |k: Kind| {
                    let mut h = H::new(k, key, 0);
                    h.append(&d[..f]);
                    h.enter(e, &d[f..f + l]);
                    // and the one-shot helper on a hasher with history
                    h.hash(w, &d[f + l..])
                };
                let want = if ctx.p.twin { run(P) } else { H::new(*k, key, 0).hash(w, &d) };
                let got = run(*k);
                ctx.count("partitions compared with one call", 1);
                if got != want {
                    ctx.fail(format!("{:?}: key {} append {} then {} then one-shot {} width {}: {:x?} expected {:x?}", k, showk(key), f, l, tail, WIDTHS[w], got, want));
                }
            }
        }
    }
    // 3: many calls
    for (i, n) in [300usize, 1000, 4100, 66000].iter().enumerate() {
        for k in 0..ks.len() {
            if *n > ctx.p.max || !ctx.sel(3 * SECTION + (i * 16 + k) as u64) {
                continue;
            }
            let mut r = ctx.rng();
            let key = key(ctx, &mut r);
            let d = ctx.p.dict.data(0, *n, key, &mut r);
            let run = |k: Kind| {
                let mut h = H::new(k, key, 0);
                for b in &d {
                    h.append(core::slice::from_ref(b));
                }
                h.fin(2)
            };
            let got = run(ks[k]);
            let want = if ctx.p.twin { run(P) } else { H::new(ks[k], key, 0).hash(2, &d) };
            ctx.max("most calls in one history", *n as u64);
            ctx.count("partitions compared with one call", 1);
            if got != want {
                ctx.fail(format!("{:?}: key {} {} single bytes: {:x?} expected {:x?}", ks[k], showk(key), n, got, want));
            }
        }
    }
    // 4: empty calls at every fill
    for f in 0..=70usize {
        if !ctx.sel(4 * SECTION + f as u64) {
            continue;
        }
        let mut r = ctx.rng();
        let key = key(ctx, &mut r);
        let d = ctx.p.dict.data(0, f + 45, key, &mut r);
        for k in &ks {
            for e in 0..4 {
                let n = [1usize, 2, 40, 300][r.idx(4)];
                let w = r.idx(3);
                let run = |k: Kind| {
                    let mut h = H::new(k, key, e);
                    for _ in 0..n {
                        h.enter(e, &[]);
                    }
                    h.enter(e, &d[..f]);
                    for _ in 0..n {
                        h.enter(e, &[]);
                    }
                    h.enter(e, &d[f..]);
                    h.enter(e, &[]);
                    h.fin(w)
                };
                let got = run(*k);
                let want = if ctx.p.twin { run(P) } else { H::new(*k, key, 0).hash(w, &d) };
                ctx.count("partitions compared with one call", 1);
                ctx.count("histories with runs of empty calls", 1);
                if got != want {
                    ctx.fail(format!("{:?}: key {} {} empty calls around fill {} entry {}: {:x?} expected {:x?}", k, showk(key), n, f, e, got, want));
                }
            }
        }
    }
    // 5: anything
    let max = ctx.p.max;
    ctx.random(5, |ctx, r| {
        let key = key(ctx, r);
        let cap = if r.chance(1, 60) { max.min(1 << 20) } else { max.min(1500) };
        let len = ctx.p.dict.len(cap, r);
        let s = r.u64();
        let d = ctx.p.dict.data(s, len, key, r);
        let ch = ctx.p.dict.chunks(len, r);
        let mode = r.below(3);
        let fixed = r.below(4);
        let last = r.chance(1, 4) && !ch.is_empty();
        let mut sig = monref::digest(ch.len() as u64, &[mode as u8, fixed as u8, last as u8]);
        for c in ch.iter().take(60) {
            sig = monref::rng::mix(sig ^ *c as u64);
        }
        ctx.seen(sig);
        ctx.max("most calls in one history", ch.len() as u64);
        ctx.sample(|| format!("key {} data {} chunks {:?}", showk(key), show(&d), &ch[..ch.len().min(40)]));
        for k in &ks {
            let w = r.idx(3);
            let run = |k: Kind| {
                let mut h = H::new(k, key, s);
                let mut rr = r.clone();
                let mut ent = move || match mode {
                    0 => 0,
                    1 => fixed,
                    _ => rr.below(4),
                };
                if last {
                    // the last chunk through the one-shot helper
                    let n = len - ch[ch.len() - 1];
                    feed(&mut h, &d, &ch[..ch.len() - 1], &mut ent);
                    h.hash(w, &d[n..])
                } else {
                    feed(&mut h, &d, &ch, &mut ent);
                    h.fin(w)
                }
            };
            let got = run(*k);
            let want = if ctx.p.twin { run(P) } else { H::new(*k, key, s).hash(w, &d) };
            ctx.count("partitions compared with one call", 1);
            if got != want {
                ctx.fail(format!("{:?}: key {} chunks {:?} entries {}/{} width {} data {}: {:x?} expected {:x?}", k, showk(key), &ch[..ch.len().min(60)], mode, fixed, WIDTHS[w], show(&d), got, want));
            }
            if ctx.p.digests {
                let mut g = monref::digest(w as u64, &d);
                ch.iter().for_each(|c| g = monref::mix(g ^ *c as u64));
                ctx.given(g);
                ctx.dig(got[0]);
            }
        }
    });
}
