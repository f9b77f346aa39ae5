//! C06, C08, C11, C13, C14: checkpoints, restored hashers, observers, clones.
use crate::ctx::{show, showk, Ctx, SECTION};
use crate::h::*;
use alloc::format;
use alloc::vec::Vec;
use monref::Rng;

fn key(ctx: &Ctx, r: &mut Rng) -> [u64; 4] {
    let i = r.below(40);
    ctx.p.dict.key(i, r)
}

fn feed(ctx: &Ctx, h: &mut H, d: &[u8], r: &mut Rng) {
    let mut at = 0;
    for c in ctx.p.dict.chunks(d.len(), r) {
        h.append(&d[at..at + c]);
        at += c;
    }
}

fn bytes(ctx: &Ctx, r: &mut Rng, key: [u64; 4], max: usize) -> Vec<u8> {
    let len = ctx.p.dict.len(max, r);
    let s = r.u64();
    ctx.p.dict.data(s, len, key, r)
}

// ---- C06 ---------------------------------------------------------------------------------------

pub fn ckpt(ctx: &mut Ctx) {
    let ks = ctx.p.kinds.clone();
    // 1: every pair of hasher types, every cut
    const SUFFIX: [usize; 10] = [0, 1, 3, 15, 16, 31, 32, 33, 64, 101];
    for (si, src) in ks.iter().enumerate() {
        for (di, dst) in ks.iter().enumerate() {
            for cut in 0..=100usize {
                for (ui, suf) in SUFFIX.iter().enumerate() {
                    if !ctx.sel(SECTION + (((si * 8 + di) * 128 + cut) * 16 + ui) as u64) {
                        continue;
                    }
                    let mut r = ctx.rng();
                    let key = key(ctx, &mut r);
                    let d = ctx.p.dict.data(r.below(13), cut + suf, key, &mut r);
                    ctx.seen((((si * 8 + di) * 128 + cut) * 16 + ui) as u64);
                    ctx.count("(source, target, cut, suffix) cases", 1);
                    // the checkpoint is taken after a chunked prefix
                    let (r0, c0) = (r.u64(), r.u64());
                    let taken = |ctx: &mut Ctx, k: Kind| {
                        let mut h = H::new(k, key, r0);
                        let mut r = Rng::new(r0, c0, 1);
                        feed(ctx, &mut h, &d[..cut], &mut r);
                        h.cp()
                    };
                    let c = taken(ctx, *src);
                    let ctor = r.u64();
                    for w in 0..3 {
                        let go = |ctx: &mut Ctx, k: Kind, c: [u8; 164]| {
                            let mut h = H::restore(k, c, ctor);
                            let mut r = Rng::new(ctor, w as u64, 2);
                            if *suf > 0 || r.chance(1, 2) {
                                if r.chance(1, 2) {
                                    h.append(&d[cut..]);
                                } else {
                                    feed(ctx, &mut h, &d[cut..], &mut r);
                                }
                            }
                            h.fin(w)
                        };
                        let want = if ctx.p.twin { let c = taken(ctx, P); go(ctx, P, c) } else { H::new(*src, key, 0).hash(w, &d) };
                        let got = go(ctx, *dst, c);
                        ctx.count("restored compared with uninterrupted", 1);
                        if got != want {
                            ctx.fail(format!("{:?}->{:?}: key {} cut {} suffix {} width {} data {}: {:x?} uninterrupted {:x?}", src, dst, showk(key), cut, suf, WIDTHS[w], show(&d), got, want));
                        }
                    }
                }
            }
        }
    }
    // 2: any number of hops, any chunking
    let max = ctx.p.max;
    ctx.random(2, |ctx, r| {
        let key = key(ctx, r);
        let cap = if r.chance(1, 50) { max.min(1 << 18) } else { max.min(700) };
        let d = bytes(ctx, r, key, cap);
        let first = ks[r.idx(ks.len())];
        let mut h = H::new(first, key, r.u64());
        // portable all the way
        let mut tw = if ctx.p.twin { Some(H::new(P, key, 0)) } else { None };
        let mut trace = format!("{:?}", first);
        let mut hops = 0u64;
        let hopiness = [2u64, 4, 16][r.idx(3)];
        let mut hop = |tw: &mut Option<H>, h: H, r: &mut Rng, at: usize, trace: &mut alloc::string::String| -> H {
            if let Some(t) = tw {
                *t = H::restore(P, t.cp(), 0);
            }
            let to = ks[r.idx(ks.len())];
            let n = H::restore(to, h.cp(), r.u64());
            if trace.len() < 300 {
                *trace += &format!(" @{}->{:?}", at, to);
            }
            hops += 1;
            n
        };
        let mut at = 0;
        let mut sig = 0u64;
        for c in ctx.p.dict.chunks(d.len(), r) {
            h.append(&d[at..at + c]);
            if let Some(t) = &mut tw {
                t.append(&d[at..at + c]);
            }
            at += c;
            sig = monref::rng::mix(sig ^ c as u64);
            if hops_left(hopiness, r) {
                h = hop(&mut tw, h, r, at, &mut trace);
                sig = sig.wrapping_add(1);
                if r.chance(1, 5) {
                    h = hop(&mut tw, h, r, at, &mut trace);
                }
            }
        }
        if r.chance(1, 2) {
            h = hop(&mut tw, h, r, at, &mut trace);
        }
        ctx.seen(sig ^ d.len() as u64);
        ctx.count("hops", hops);
        ctx.max("most hops in one history", hops);
        let w = r.idx(3);
        let got = h.fin(w);
        let want = match tw {
            Some(t) => t.fin(w),
            None => H::new(first, key, 0).hash(w, &d),
        };
        ctx.count("restored compared with uninterrupted", 1);
        ctx.sample(|| format!("key {} data {} hops {}", showk(key), show(&d), trace));
        if got != want {
            ctx.fail(format!("hops {}: key {} width {} data {}: {:x?} uninterrupted {:x?}", trace, showk(key), WIDTHS[w], show(&d), got, want));
        }
    });
    // 3: a checkpoint of a hasher that goes on being used, restored several times
    let n3 = if ctx.p.twin { 0 } else { ctx.p.n };
    ctx.random_n(3, n3, &mut |ctx, r| {
        let key = key(ctx, r);
        let d = bytes(ctx, r, key, 300);
        let cut = r.idx(d.len() + 1);
        let src = ks[r.idx(ks.len())];
        let mut h = H::new(src, key, 0);
        feed(ctx, &mut h, &d[..cut], r);
        let c = h.cp();
        let mut g = H::restore(ks[r.idx(ks.len())], c, 0);
        g.append(&d[cut..]);
        let w = r.idx(3);
        let want = H::new(src, key, 0).hash(w, &d);
        let a = g.fin(w);
        // something else in between
        let mut x = H::restore(ks[r.idx(ks.len())], c, 1);
        x.append(&d);
        let _ = x.fin(0);
        let b = {
            let k = ks[r.idx(ks.len())];
            let mut g = H::restore(k, c, 1);
            feed(ctx, &mut g, &d[cut..], r);
            g.fin(w)
        };
        ctx.seen(monref::digest(cut as u64, &c));
        ctx.count("restored compared with uninterrupted", 2);
        if a != want || b != want {
            ctx.fail(format!("{:?} restored twice: key {} cut {} width {} data {}: {:x?} {:x?} uninterrupted {:x?}", src, showk(key), cut, WIDTHS[w], show(&d), a, b, want));
        }
    });
    // 4: long prefixes
    for (i, n) in [4096usize, 65_536, 100_000, 1 << 20].iter().enumerate() {
        for (si, src) in ks.iter().enumerate() {
            if *n > max || !ctx.sel(4 * SECTION + (i * 8 + si) as u64) {
                continue;
            }
            let mut r = ctx.rng();
            let key = key(ctx, &mut r);
            let n = n + r.idx(64);
            let d = ctx.p.dict.data(0, n + 50, key, &mut r);
            let taken = |k: Kind| {
                let mut h = H::new(k, key, 0);
                h.append(&d[..n]);
                h.cp()
            };
            let c = taken(*src);
            for dst in &ks {
                let w = r.idx(3);
                let got = H::restore(*dst, c, 0).hash(w, &d[n..]);
                let want = if ctx.p.twin { H::restore(P, taken(P), 0).hash(w, &d[n..]) } else { H::new(*src, key, 0).hash(w, &d) };
                ctx.count("restored compared with uninterrupted", 1);
                if got != want {
                    ctx.fail(format!("{:?}->{:?} after {} bytes, key {}", src, dst, n, showk(key)));
                }
            }
        }
    }
    // 5: checkpoints that came from another platform
    let input = core::mem::take(&mut ctx.p.input);
    eat(ctx, &input);
    // 6: and some for another platform
    if ctx.p.digests {
        emit(ctx);
    }
}

fn hops_left(h: u64, r: &mut Rng) -> bool {
    r.chance(1, h)
}

/// Lines `CK <checkpoint> <suffix> <7 words>`.
fn emit(ctx: &mut Ctx) {
    let ks = ctx.p.kinds.clone();
    for i in 0..160u64 {
        if !ctx.sel_all(6 * SECTION + i) {
            continue;
        }
        let mut r = ctx.rng();
        let key = key(ctx, &mut r);
        let k = ks[i as usize % ks.len()];
        let cut = if i < 66 { i as usize } else { r.idx(400) };
        let d = ctx.p.dict.data(r.below(13), cut + r.idx(70), key, &mut r);
        let mut h = H::new(k, key, 0);
        feed(ctx, &mut h, &d[..cut], &mut r);
        let c = h.cp();
        let want = if ctx.p.twin {
            let mut p = H::new(P, key, 0);
            let mut r = ctx.rng();
            feed(ctx, &mut p, &d[..cut], &mut r);
            let c = p.cp();
            three(|| H::restore(P, c, 0), &d[cut..])
        } else {
            three(|| H::new(k, key, 0), &d)
        };
        let mut s = format!("CK {} x{}", monref::hex(&c), monref::hex(&d[cut..]));
        for x in [want[0][0], want[1][0], want[1][1], want[2][0], want[2][1], want[2][2], want[2][3]] {
            s += &format!(" {:x}", x);
        }
        s += "\n";
        crate::ctx::out(&s);
        ctx.count("checkpoints handed to other platforms", 1);
    }
}

fn unhex(s: &[u8]) -> Vec<u8> {
    let v = |c: u8| match c {
        b'0'..=b'9' => c - b'0',
        b'a'..=b'f' => c - b'a' + 10,
        _ => 0,
    };
    s.chunks_exact(2).map(|p| v(p[0]) * 16 + v(p[1])).collect()
}

fn eat(ctx: &mut Ctx, input: &[u8]) {
    let ks = ctx.p.kinds.clone();
    for (i, line) in input.split(|b| *b == b'\n').enumerate() {
        let mut f = line.split(|b| *b == b' ');
        if f.next() != Some(b"CK") {
            continue;
        }
        let (Some(c), Some(d)) = (f.next(), f.next()) else { continue };
        let c = unhex(c);
        let d = unhex(&d[1..]);
        if c.len() != 164 || !ctx.sel_all(5 * SECTION + i as u64) {
            continue;
        }
        let mut want = [0u64; 7];
        for (j, x) in f.enumerate() {
            if j < 7 {
                want[j] = core::str::from_utf8(x).ok().and_then(|x| u64::from_str_radix(x, 16).ok()).unwrap_or(0);
            }
        }
        let want = split(want);
        let mut cc = [0u8; 164];
        cc.copy_from_slice(&c);
        for k in &ks {
            let got = three(|| H::restore(*k, cc, 0), &d);
            ctx.count("checkpoints of other platforms restored", 1);
            ctx.seen(monref::digest(i as u64, &c));
            if got != want {
                ctx.fail(format!("{:?}: checkpoint {} from another platform, suffix {}: {:x?} expected there {:x?}", k, show(&c), show(&d), got, want));
            }
        }
    }
}

// ---- C11 ---------------------------------------------------------------------------------------

fn restore_case(ctx: &mut Ctx, r: &mut Rng, count: u32) {
    let ks = ctx.p.kinds.clone();
    let c = ctx.p.dict.state(count, r);
    let n1 = if r.chance(1, 4) { 0 } else { ctx.p.dict.len(150, r) };
    let n2 = if r.chance(1, 4) { 0 } else { ctx.p.dict.len(150, r) };
    let mut d = alloc::vec![0u8; n1 + n2];
    r.fill(&mut d);
    let ctor = r.u64();
    ctx.seen(monref::digest(count as u64, &c));
    if count >= 32 {
        ctx.count("restores with a count of 32 or more", 1);
    }
    ctx.sample(|| format!("count {} checkpoint {} then {}+{} bytes", count, show(&c), n1, n2));
    let mut first: Option<([R; 3], [R; 3], [u8; 164], [u8; 164], Option<u64>)> = None;
    let mut dbgf: Option<Kind> = None;
    for k in &ks {
        let mk = || H::restore(*k, c, ctor);
        let name = |what: &str| format!("{:?} {}: count {} checkpoint {} data {} split at {}", k, what, count, show(&c), show(&d), n1);
        // at once
        let now = [mk().fin(0), mk().fin(1), mk().fin(2)];
        let whole = three(mk, &d);
        let cp = mk().cp();
        let mut h = mk();
        h.append(&d);
        let cpd = h.cp();
        // an empty append changes nothing
        for w in 0..3 {
            let mut h = mk();
            for _ in 0..1 + r.idx(3) {
                h.enter(r.u64(), &[]);
            }
            if h.cp() != cp {
                ctx.fail(name("empty append changes the checkpoint"));
            }
            let got = h.fin(w);
            if got != now[w] || mk().hash(w, &[]) != now[w] {
                ctx.fail(name("empty append changes the result"));
            }
        }
        // streaming
        for w in 0..3 {
            let mut h = mk();
            if r.chance(1, 2) {
                h.append(&d[..n1]);
                h.append(&d[n1..]);
            } else {
                feed(ctx, &mut h, &d, r);
            }
            if h.fin(w) != whole[w] {
                ctx.fail(name("streaming invariance"));
            }
        }
        // own checkpoints are transparent
        for w in 0..3 {
            let mut h = mk();
            h.append(&d[..n1]);
            let via = H::restore(ks[r.idx(ks.len())], h.cp(), r.u64());
            if via.hash(w, &d[n1..]) != whole[w] {
                ctx.fail(name("its checkpoint does not restore transparently"));
            }
        }
        if H::restore(*k, cp, 0).cp() != cp {
            ctx.fail(name("checkpoint of the restored hasher is not stable"));
        }
        // observers and clones
        let h = mk();
        let f = h.finish();
        if let Some(f) = f {
            if f != now[0][0] {
                ctx.fail(name("finish differs from finalize64"));
            }
        }
        let h2 = h.clone();
        if h2.fin(2) != now[2] || h.fin(1) != now[1] {
            ctx.fail(name("clone or observed original differs"));
        }
        ctx.count("laws checked on restored hashers", 12);
        // the same everywhere
        match &first {
            None => first = Some((now, whole, cp, cpd, f)),
            Some((a, b, x, y, _)) => {
                ctx.count("restored backends compared", 1);
                if *a != now || *b != whole {
                    ctx.fail(format!("{} now {:x?} / {:x?}, portable {:x?} / {:x?}", name("differs from portable"), now, whole, a, b));
                } else if *x != cp || *y != cpd {
                    ctx.fail(name("checkpoint differs from portable's"));
                }
            }
        }
        let _ = dbgf.get_or_insert(*k);
    }
    if let Some((now, whole, cp, cpd, _)) = first {
        let mut acc = monref::digest(0, &cp);
        acc = monref::digest(acc, &cpd);
        for x in now.iter().chain(whole.iter()) {
            for w in x {
                acc = monref::digest(acc, &w.to_le_bytes());
            }
        }
        ctx.given(monref::digest(n1 as u64, &c) ^ monref::digest(1, &d));
        ctx.dig(acc);
    }
}

pub fn restore(ctx: &mut Ctx) {
    for i in 0..60u64 {
        for v in 0..24 {
            if ctx.sel(SECTION + i * 32 + v) {
                let mut r = ctx.rng();
                let count = ctx.p.dict.count(i, &mut r);
                restore_case(ctx, &mut r, count);
            }
        }
    }
    for i in 0..ctx.p.dict.lits.len() {
        for (j, dl) in [-1i64, 0, 1, 31, 32].iter().enumerate() {
            if ctx.sel(2 * SECTION + (i * 8 + j) as u64) {
                let mut r = ctx.rng();
                let count = (ctx.p.dict.lits[i] as i64).wrapping_add(*dl) as u32;
                restore_case(ctx, &mut r, count);
            }
        }
    }
    ctx.random(3, |ctx, r| {
        let count = ctx.p.dict.count(99, r);
        restore_case(ctx, r, count);
    });
    // wholly random bytes
    ctx.random(4, |ctx, r| {
        let count = r.u64() as u32;
        restore_case(ctx, r, count);
    });
}

// ---- C14 ---------------------------------------------------------------------------------------

/// Hashes `d` with some history: chunking, backend, hops between backends.
fn some_history(ctx: &Ctx, ks: &[Kind], key: [u64; 4], d: &[u8], r: &mut Rng, trace: &mut alloc::string::String) -> H {
    let k = ks[r.idx(ks.len())];
    let mut h = if key == [0; 4] && r.chance(1, 3) { H::default(k) } else { H::new(k, key, r.u64()) };
    *trace += &format!("{:?}", k);
    let hops = r.chance(1, 2);
    let mut at = 0;
    for c in ctx.p.dict.chunks(d.len(), r) {
        h.enter(if r.chance(1, 2) { 0 } else { r.u64() }, &d[at..at + c]);
        at += c;
        if trace.len() < 200 {
            *trace += &format!(" {}", c);
        }
        if hops && r.chance(1, 6) {
            let to = ks[r.idx(ks.len())];
            h = H::restore(to, h.cp(), r.u64());
            if trace.len() < 200 {
                *trace += &format!(" ->{:?}", to);
            }
        } else if r.chance(1, 16) {
            h = h.clone();
        }
    }
    h
}

fn canon_case(ctx: &mut Ctx, r: &mut Rng, key: [u64; 4], d: &[u8]) {
    let ks = ctx.p.kinds.clone();
    // canonical history: one append, portable
    let mut p = H::new(P, key, 0);
    p.append(d);
    let want = p.cp();
    ctx.seen(monref::digest(d.len() as u64, &want));
    for _ in 0..2 {
        let mut t = alloc::string::String::new();
        let h = some_history(ctx, &ks, key, d, r, &mut t);
        let got = h.cp();
        ctx.count("checkpoints compared", 1);
        if got != want {
            ctx.fail(format!("history {}: key {} data {}: checkpoint {} canonical {}", t, showk(key), show(d), show(&got), show(&want)));
        }
        if h.cp() != got {
            ctx.fail(format!("history {}: second checkpoint differs", t));
        }
    }
    for k in &ks {
        let got = H::restore(*k, want, r.u64()).cp();
        ctx.count("restore-checkpoint identities", 1);
        if got != want {
            ctx.fail(format!("{:?}: restoring {} and checkpointing gives {} (key {} data {})", k, show(&want), show(&got), showk(key), show(d)));
        }
    }
    ctx.given_bytes(key, d);
    ctx.dig(monref::digest(0, &want));
}

/// Does the checkpoint of some history of length `len` contain absorbed input bytes?
fn leak_case(ctx: &mut Ctx, r: &mut Rng, len: usize) {
    const T: usize = 7;
    let ks = ctx.p.kinds.clone();
    let absorbed = len / 32 * 32;
    let seed = r.u64();
    let mut ds: Vec<Vec<u8>> = Vec::new();
    let mut cs: Vec<[u8; 164]> = Vec::new();
    let mut trace = alloc::string::String::new();
    for i in 0..T {
        let mut d = alloc::vec![0u8; len];
        Rng::new(seed, i as u64, 7).fill(&mut d);
        // the same history for each
        let mut rr = Rng::new(seed, 99, 7);
        // another key each time, or a state byte could be an input byte plus a constant that is zero
        let mut kr = Rng::new(seed, 200 + i as u64, 7);
        let k4 = [kr.u64(), kr.u64(), kr.u64(), kr.u64()];
        trace.clear();
        let h = some_history(ctx, &ks, k4, &d, &mut rr, &mut trace);
        cs.push(h.cp());
        ds.push(d);
    }
    ctx.seen(seed);
    ctx.count("histories scanned for absorbed bytes", 1);
    let lo = absorbed.saturating_sub(1024);
    for pos in 0..164 {
        for o in lo..absorbed {
            let mut all = true;
            for i in 0..T {
                if cs[i][pos] != ds[i][o] {
                    all = false;
                    break;
                }
            }
            if all {
                ctx.fail(format!("history {}: checkpoint byte {} is input byte {} of {}, which has been absorbed", trace, pos, o, len));
                return;
            }
        }
    }
}

pub fn canon(ctx: &mut Ctx) {
    // 1: two-step histories at every pair of fills
    for a in 0..=66usize {
        for b in 0..=66usize {
            if !ctx.sel(SECTION + (a * 128 + b) as u64) {
                continue;
            }
            let mut r = ctx.rng();
            let key = key(ctx, &mut r);
            let d = ctx.p.dict.data(r.below(6), a + b, key, &mut r);
            let mut p = H::new(P, key, 0);
            p.append(&d);
            let want = p.cp();
            ctx.count("two-step histories", 1);
            for k in ctx.p.kinds.clone() {
                let mut h = H::new(k, key, 0);
                h.append(&d[..a]);
                h.append(&d[a..]);
                ctx.count("checkpoints compared", 1);
                let got = h.cp();
                if got != want {
                    ctx.fail(format!("{:?}: {} then {} bytes: key {} data {}: checkpoint {} in one call {}", k, a, b, showk(key), show(&d), show(&got), show(&want)));
                }
            }
        }
    }
    // 2: every length
    for len in 0..=320usize {
        if ctx.sel(2 * SECTION + len as u64) {
            let mut r = ctx.rng();
            let key = key(ctx, &mut r);
            let d = ctx.p.dict.data(r.below(18), len, key, &mut r);
            canon_case(ctx, &mut r, key, &d);
        }
        if ctx.sel(3 * SECTION + len as u64) {
            let mut r = ctx.rng();
            leak_case(ctx, &mut r, len);
        }
    }
    // 3: anything
    let max = ctx.p.max;
    ctx.random(4, |ctx, r| {
        let key = key(ctx, r);
        let cap = if r.chance(1, 60) { max.min(1 << 18) } else { max.min(600) };
        let d = bytes(ctx, r, key, cap);
        ctx.sample(|| format!("key {} data {}", showk(key), show(&d)));
        canon_case(ctx, r, key, &d);
    });
    ctx.random_n(5, ctx.p.n / 8, &mut |ctx, r| {
        let len = ctx.p.dict.len(700, r);
        leak_case(ctx, r, len);
    });
}

// ---- C13 ---------------------------------------------------------------------------------------

/// What an observer said. The text of Debug is left out: it may show what is no part of the state.
#[derive(PartialEq, Debug)]
enum Saw {
    Checkpoint([u8; 164]),
    Finish(Option<u64>),
    Clone(R),
    Text,
}

/// One observer call.
fn peek(h: &H, which: u64) -> Saw {
    match which % 5 {
        0 => Saw::Checkpoint(h.cp()),
        1 => Saw::Finish(h.finish()),
        2 => {
            let c = h.clone();
            match which / 5 % 4 {
                3 => Saw::Text,
                w => Saw::Clone(c.fin(w as usize)),
            }
        }
        x => {
            let mut t = Text::new();
            let _ = h.debug(&mut t, x == 3);
            Saw::Text
        }
    }
}

/// A hasher together with the bytes it has been given.
struct Node {
    h: H,
    b: Vec<u8>,
    /// how the bytes came: entry point, length
    ops: Vec<(u64, usize)>,
    key: [u64; 4],
    /// what observers said after how many calls
    saw: Vec<(usize, u64, Saw)>,
}

pub fn observe(ctx: &mut Ctx) {
    let ks = ctx.p.kinds.clone();
    // 1: each observer at each fill, before and after further bytes
    for f in 0..=66usize {
        for o in 0..5u64 {
            for (ki, k) in ks.iter().enumerate() {
                if !ctx.sel(SECTION + ((f as u64 * 8 + o) * 8 + ki as u64)) {
                    continue;
                }
                let mut r = ctx.rng();
                let key = key(ctx, &mut r);
                let d = ctx.p.dict.data(r.below(9), f + r.idx(70), key, &mut r);
                ctx.seen((f as u64 * 8 + o) * 8 + ki as u64);
                for w in 0..3 {
                    let mut h = H::new(*k, key, 0);
                    let mut saw = Vec::new();
                    // the same observer, then any
                    let see = |h: &H, at: usize, r: &mut Rng, saw: &mut Vec<(usize, u64, Saw)>| {
                        for x in 0..1 + r.below(3) {
                            let o = if x == 0 { o + 5 * r.below(3) } else { r.u64() };
                            saw.push((at, o, peek(h, o)));
                        }
                    };
                    see(&h, 0, &mut r, &mut saw);
                    h.append(&d[..f]);
                    see(&h, 1, &mut r, &mut saw);
                    h.append(&d[f..]);
                    see(&h, 2, &mut r, &mut saw);
                    let got = h.fin(w);
                    saw_again(ctx, *k, key, &d, &[(0, f), (0, d.len() - f)], &saw);
                    let mut q = H::new(*k, key, 0);
                    q.append(&d[..f]);
                    q.append(&d[f..]);
                    let want = q.fin(w);
                    ctx.count("observed compared with unobserved", 1);
                    if got != want {
                        ctx.fail(format!("{:?}: observer {} at fill {}: key {} width {} data {}: {:x?} unobserved {:x?}", k, o, f, showk(key), WIDTHS[w], show(&d), got, want));
                    }
                }
            }
        }
    }
    // 2: trees of clones, each node continuing on its own, observers anywhere
    ctx.random(2, |ctx, r| {
        let k = ks[r.idx(ks.len())];
        let key0 = key(ctx, r);
        let mut ns: Vec<Node> = Vec::new();
        ns.push(Node { h: H::new(k, key0, r.u64()), b: Vec::new(), ops: Vec::new(), key: key0, saw: Vec::new() });
        if r.chance(1, 3) {
            let k1 = key(ctx, r);
            ns.push(Node { h: H::new(k, k1, r.u64()), b: Vec::new(), ops: Vec::new(), key: k1, saw: Vec::new() });
        }
        let steps = 4 + r.idx(40);
        let mut trace = alloc::string::String::new();
        let mut sig = 0u64;
        for _ in 0..steps {
            let i = r.idx(ns.len());
            let op = r.below(12);
            sig = monref::rng::mix(sig ^ op << 8 ^ i as u64);
            if trace.len() < 400 {
                trace += &format!(" {}:{}", i, op);
            }
            match op {
                0..=3 => {
                    let n = if r.chance(1, 8) { 0 } else { ctx.p.dict.len(110, r) };
                    let mut d = alloc::vec![0; n];
                    r.fill(&mut d);
                    let e = if r.chance(1, 2) { 0 } else { r.u64() };
                    ns[i].h.enter(e, &d);
                    ns[i].b.extend_from_slice(&d);
                    ns[i].ops.push((e, n));
                    sig ^= n as u64;
                    if trace.len() < 400 {
                        trace += &format!("+{}", n);
                    }
                }
                4 | 5 => {
                    if ns.len() < 12 {
                        let n = Node { h: ns[i].h.clone(), b: ns[i].b.clone(), ops: ns[i].ops.clone(), key: ns[i].key, saw: Vec::new() };
                        ns.push(n);
                        ctx.count("clones", 1);
                    }
                }
                6 => {
                    let j = r.idx(ns.len());
                    if i != j {
                        // clone_from over a hasher with a history of its own
                        let (b, ops, key) = (ns[j].b.clone(), ns[j].ops.clone(), ns[j].key);
                        let (x, y) = if i < j {
                            let (l, h) = ns.split_at_mut(j);
                            (&mut l[i], &h[0])
                        } else {
                            let (l, h) = ns.split_at_mut(i);
                            (&mut h[0], &l[j])
                        };
                        clone_from(&mut x.h, &y.h);
                        x.b = b;
                        x.ops = ops;
                        x.key = key;
                        x.saw.clear();
                        ctx.count("clone_from", 1);
                    }
                }
                7 => {
                    let j = r.idx(ns.len());
                    if i != j {
                        ns.swap(i, j);
                    }
                }
                8 => {
                    if ns.len() > 1 {
                        let n = ns.swap_remove(i);
                        let w = r.idx(3);
                        verify(ctx, k, n, w, &trace);
                    }
                }
                _ => {
                    let o = r.u64();
                    let saw = peek(&ns[i].h, o);
                    let at = ns[i].ops.len();
                    ns[i].saw.push((at, o, saw));
                    ctx.count("observer calls", 1);
                }
            }
            if ctx.stop {
                return;
            }
        }
        ctx.seen(sig);
        ctx.max("most hashers alive in one history", ns.len() as u64);
        ctx.sample(|| format!("{:?}{}", k, trace));
        for n in ns {
            let w = r.idx(3);
            verify(ctx, k, n, w, &trace);
        }
    });
    // 3: the same on restored hashers with arbitrary state: original, clone and observed original agree
    ctx.random_n(3, ctx.p.n / 3, &mut |ctx, r| {
        let k = ks[r.idx(ks.len())];
        let count = ctx.p.dict.count(99, r);
        let c = ctx.p.dict.state(count, r);
        let d = bytes(ctx, r, [0; 4], 120);
        let e = bytes(ctx, r, [0; 4], 120);
        let a = H::restore(k, c, 0);
        let mut o = H::restore(k, c, 0);
        let mut cl = o.clone();
        for _ in 0..r.idx(4) {
            peek(&o, r.u64());
            peek(&cl, r.u64());
        }
        let w = r.idx(3);
        cl.append(&e);
        o.append(&d);
        let _ = cl.fin(0);
        ctx.count("observed compared with unobserved", 1);
        ctx.seen(monref::digest(1, &c));
        if o.fin(w) != a.hash(w, &d) {
            ctx.fail(format!("{:?}: restored {}, cloned and observed, then {}: result differs", k, show(&c), show(&d)));
        }
        let mut cl = H::restore(k, c, 0).clone();
        cl.append(&e);
        if cl.fin(w) != H::restore(k, c, 0).hash(w, &e) {
            ctx.fail(format!("{:?}: clone of restored {}, then {}: result differs", k, show(&c), show(&e)));
        }
    });
    // 4: observers return the same thing however often they are asked
    ctx.random_n(4, ctx.p.n / 3, &mut |ctx, r| {
        let k = ks[r.idx(ks.len())];
        let key = key(ctx, r);
        let d = bytes(ctx, r, key, 200);
        let mut h = H::new(k, key, 0);
        feed(ctx, &mut h, &d, r);
        let (c, f) = (h.cp(), h.finish());
        for _ in 0..3 {
            peek(&h, r.u64());
        }
        let cl = h.clone();
        ctx.count("observers repeated", 1);
        if h.cp() != c || h.finish() != f {
            ctx.fail(format!("{:?}: observers of an unchanged hasher give different answers: key {} data {}", k, showk(key), show(&d)));
        }
        if cl.cp() != c || cl.finish() != f {
            ctx.fail(format!("{:?}: clone's checkpoint or finish differs from the original's: key {} data {}", k, showk(key), show(&d)));
        }
    });
}

fn clone_from(x: &mut H, y: &H) {
    crate::ctx::lib(|| match (x, y) {
        (H::P(a), H::P(b)) => a.clone_from(b),
        #[cfg(target_arch = "x86_64")]
        (H::S(a), H::S(b)) => a.clone_from(b),
        #[cfg(target_arch = "x86_64")]
        (H::A(a), H::A(b)) => a.clone_from(b),
        #[cfg(target_arch = "aarch64")]
        (H::N(a), H::N(b)) => a.clone_from(b),
        #[cfg(all(target_family = "wasm", target_feature = "simd128"))]
        (H::W(a), H::W(b)) => a.clone_from(b),
        (H::D(a), H::D(b)) => a.clone_from(b),
        _ => {}
    })
}

/// The answers of observers against those of a hasher that was not observed before.
fn saw_again(ctx: &mut Ctx, k: Kind, key: [u64; 4], b: &[u8], ops: &[(u64, usize)], saw: &[(usize, u64, Saw)]) {
    for (at, o, s) in saw {
        if matches!(s, Saw::Text) {
            continue;
        }
        let mut q = H::new(k, key, 0);
        let mut i = 0;
        for (e, l) in &ops[..*at] {
            q.enter(*e, &b[i..i + l]);
            i += l;
        }
        let want = peek(&q, *o);
        ctx.count("answers of observers compared with those of an unobserved hasher", 1);
        if *s != want {
            ctx.fail(format!("{:?}: key {} bytes {} after calls {:?}: observer answers {:x?}, without earlier observers {:x?}", k, showk(key), show(&b[..i]), &ops[..*at], s, want));
            return;
        }
    }
}

fn verify(ctx: &mut Ctx, k: Kind, n: Node, w: usize, trace: &str) {
    saw_again(ctx, k, n.key, &n.b, &n.ops, &n.saw);
    let got = n.h.fin(w);
    // the node's own calls again, with no observers and no clones
    let mut q = H::new(k, n.key, 0);
    let mut at = 0;
    for (e, l) in &n.ops {
        q.enter(*e, &n.b[at..at + l]);
        at += l;
    }
    let want = q.fin(w);
    ctx.count("nodes compared with a fresh hasher", 1);
    if got != want {
        ctx.fail(format!("{:?}: history{}: node with key {} and bytes {} width {}: {:x?} fresh {:x?}", k, trace, showk(n.key), show(&n.b), WIDTHS[w], got, want));
    }
}

// ---- C08 ---------------------------------------------------------------------------------------

/// Sequences of any operations. A panic ends the process, with the case as breadcrumb.
pub fn panics(ctx: &mut Ctx) {
    let ks = ctx.p.kinds.clone();
    let max = ctx.p.max;
    // 1: every count, every backend, every width, with and without bytes
    for i in 0..60u64 {
        for (ki, k) in ks.iter().enumerate() {
            for v in 0..4u64 {
                if !ctx.sel(SECTION + (i * 8 + ki as u64) * 8 + v) {
                    continue;
                }
                let mut r = ctx.rng();
                let count = ctx.p.dict.count(i, &mut r);
                let c = ctx.p.dict.state(count, &mut r);
                for w in 0..3 {
                    let _ = H::restore(*k, c, v).fin(w);
                    for n in [0usize, 1, 4, 15, 16, 17, 31, 32, 33, 65] {
                        let mut h = H::restore(*k, c, v);
                        h.append(&[0xff; 80][..n]);
                        peek(&h, r.u64());
                        let _ = h.fin(w);
                        ctx.count("operations", 4);
                    }
                }
                ctx.seen(monref::digest(i, &c));
            }
        }
    }
    // 2: every fill, every chunk length
    for f in 0..=32usize {
        for c in 0..=100usize {
            for (ki, k) in ks.iter().enumerate() {
                if !ctx.sel(2 * SECTION + ((f * 128 + c) * 8 + ki) as u64) {
                    continue;
                }
                let mut r = ctx.rng();
                let key = key(ctx, &mut r);
                for w in 0..3 {
                    let d = ctx.p.dict.data(r.below(14), f + c, key, &mut r);
                    let mut h = H::new(*k, key, r.u64());
                    h.enter(r.u64(), &d[..f]);
                    h.enter(r.u64(), &d[f..]);
                    peek(&h, r.u64());
                    let _ = H::restore(*k, h.cp(), r.u64()).fin(w);
                    let _ = h.fin(w);
                    ctx.count("operations", 7);
                }
                ctx.seen(((f * 128 + c) * 8 + ki) as u64);
            }
        }
    }
    // 3: anything
    ctx.random(3, |ctx, r| {
        let mut hs: Vec<H> = Vec::new();
        let steps = 3 + r.idx(40);
        let mut ops = 0;
        let mut sig = 0u64;
        for _ in 0..steps {
            let k = ks[r.idx(ks.len())];
            let op = r.below(14);
            sig = monref::rng::mix(sig ^ op);
            ops += 1;
            if hs.is_empty() || op == 0 {
                let key = key(ctx, r);
                hs.push(H::new(k, key, r.u64()));
                continue;
            }
            let i = r.idx(hs.len());
            match op {
                1 => hs.push(H::default(k)),
                2 => {
                    let count = ctx.p.dict.count(99, r);
                    let c = ctx.p.dict.state(count, r);
                    hs.push(H::restore(k, c, r.u64()));
                }
                3 => {
                    let mut c = hs[i].cp();
                    if r.chance(1, 2) {
                        let j = r.idx(164);
                        c[j] ^= 1 << r.below(8);
                    }
                    hs.push(H::restore(k, c, r.u64()));
                }
                4..=8 => {
                    let cap = if r.chance(1, 50) { max.min(1 << 17) } else { 200 };
                    let d = bytes(ctx, r, [1; 4], cap);
                    sig = monref::rng::mix(sig ^ d.len() as u64);
                    hs[i].enter(r.u64(), &d);
                }
                9 => {
                    let h = hs.swap_remove(i);
                    let _ = h.fin(r.idx(3));
                }
                10 => {
                    let h = hs.swap_remove(i);
                    let d = bytes(ctx, r, [1; 4], 100);
                    let _ = h.hash(r.idx(3), &d);
                }
                11 => {
                    let h = hs[i].clone();
                    hs.push(h);
                }
                _ => {
                    let _ = peek(&hs[i], r.u64());
                }
            }
            if hs.len() > 16 {
                hs.truncate(8);
            }
        }
        for h in hs {
            let _ = h.fin(r.idx(3));
            ops += 1;
        }
        ctx.seen(sig);
        ctx.count("operations", ops);
    });
    // 4: steered values (arithmetic at its extremes)
    ctx.random(4, |ctx, r| {
        let key = key(ctx, r);
        let len = 32 * (1 + r.idx(5)) + r.idx(32);
        let d = ctx.p.dict.steered(key, len, r);
        for k in &ks {
            for w in 0..3 {
                let _ = H::new(*k, key, 0).hash(w, &d);
            }
        }
        ctx.count("operations", 3 * ks.len() as u64);
        ctx.seen(monref::digest(len as u64, &d));
    });
    // 5: sizes
    for k in 6..=24usize {
        for (j, dl) in [-1i64, 0, 1, 31, 33].iter().enumerate() {
            let n = ((1i64 << k) + dl) as usize;
            if n > max || !ctx.sel(5 * SECTION + (k * 8 + j) as u64) {
                continue;
            }
            let mut r = ctx.rng();
            let d = ctx.p.dict.data(0, n, [0; 4], &mut r);
            for kk in &ks {
                let mut h = H::new(*kk, [1, 2, 3, 4], 0);
                let f = r.idx(33).min(n);
                h.append(&d[..f]);
                h.append(&d[f..]);
                let _ = h.fin(r.idx(3));
                ctx.count("operations", 4);
            }
        }
    }
}
