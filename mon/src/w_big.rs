//! More bytes than a 32-bit counter holds, and slices as long as a 32-bit platform allows, judged by the specification
//! (`twin`: slices by the same type fed in small pieces, streams by the uninterrupted hasher).
use crate::ctx::{showk, Ctx, SECTION};
use crate::h::*;
use alloc::format;
use alloc::vec;
use alloc::vec::Vec;
use monref::rng::mix;
use monref::{Model, Rng};

const PIECE: usize = 1 << 20;

fn key(r: &mut Rng) -> [u64; 4] {
    [r.u64(), r.u64(), r.u64(), r.u64()]
}

/// `n` bit 0: streams of more than 2^32 bytes; bit 1: long single slices.
pub fn big(ctx: &mut Ctx) {
    let n = ctx.p.n;
    if n & 1 != 0 {
        streams(ctx);
    }
    if n & 2 != 0 {
        slices(ctx);
    }
}

/// Bytes `from` to `to` of the repeated piece (`d` has it twice), in chunks of at most `n`.
fn pieces(d: &[u8], from: u64, to: u64, n: usize, mut f: impl FnMut(&[u8])) {
    let mut at = from;
    while at < to {
        let o = (at % PIECE as u64) as usize;
        let c = n.min((to - at).min(1 << 30) as usize);
        f(&d[o..o + c]);
        at += c as u64;
    }
}

fn streams(ctx: &mut Ctx) {
    let mut r = Rng::new(ctx.p.seed, 21, 22);
    let mut d = vec![0u8; PIECE];
    r.fill(&mut d);
    d.extend_from_within(..);
    let (key, tail, times) = (key(&mut r), 1 + r.idx(31), (1u64 << 12) + 3);
    let total = times * PIECE as u64 + tail as u64;
    // at which bytes all results are observed: 2^31, 2^32 and a little more, the end
    let stops = [1u64 << 31, 1 << 32, (1 << 32) + tail as u64, total];
    let mut spec: Vec<[R; 3]> = Vec::new();
    for (ki, k) in ctx.p.kinds.clone().into_iter().enumerate() {
        for v in 0..2u64 {
            if !ctx.sel(SECTION + ki as u64 * 2 + v) {
                continue;
            }
            let twin = ctx.p.twin;
            if spec.is_empty() && !twin {
                let (mut m, mut at) = (Model::new(key), 0);
                for s in stops {
                    pieces(&d, at, s, PIECE, |c| m.append(c));
                    at = s;
                    spec.push(split(m.all()));
                }
            }
            let mut h = H::new(k, key, 0);
            let e = mix(v ^ ki as u64 ^ ctx.p.seed);
            let mut at = 0;
            if v != 0 {
                // the same bytes, never aligned to the packets
                h.append(&d[..7]);
                at = 7;
            }
            for (i, s) in stops.iter().enumerate() {
                let s = if i == 3 { times * PIECE as u64 } else { *s };
                pieces(&d, at, s, PIECE - v as usize * 32, |c| h.enter(e, c));
                at = s;
                if i < 3 {
                    let got = [h.clone().fin(0), h.clone().fin(1), h.clone().fin(2)];
                    got.iter().flatten().for_each(|g| ctx.dig(*g));
                    let mut x = H::restore(k, h.cp(), e);
                    let f = h.finish();
                    let cp = x.cp() == h.cp();
                    x.append(&[]);
                    let want = if twin { [x.clone().fin(0), x.clone().fin(1), x.fin(2)] } else { spec[i] };
                    if got != want || !cp || f.map_or(false, |f| f != got[0][0]) {
                        ctx.fail(format!("{:?}: {} bytes of a stream ({} repeated, key {}): {:x?}, finish {:x?}; want {:x?}; checkpoint restored {}", k, s, PIECE, showk(key), got, f, want, if cp { "equal" } else { "differs" }));
                    }
                }
            }
            let want = if twin { [[0; 4]; 3] } else { spec[3] };
            ctx.max("longest stream", total);
            ctx.count("streams of more than 2^32 bytes", 1);
            ctx.seen(ki as u64 * 2 + v);
            ctx.sample(|| format!("{:?}: {} times {} bytes and {} more, {}", k, times, PIECE, tail, if v == 0 { "in packets" } else { "off packets" }));
            let c = h.cp();
            let mut x = H::restore(k, c, e);
            let again = x.cp();
            let mut y = h.clone();
            y.append(&d[..tail]);
            x.append(&d[..tail]);
            h.append(&d[..tail]);
            let f = y.finish();
            let got = [h.clone().fin(0), y.fin(1), h.fin(2)];
            let back = [x.clone().fin(0), x.clone().fin(1), x.fin(2)];
            got.iter().flatten().for_each(|g| ctx.dig(*g));
            let want = if twin { got } else { want };
            if got != want || back != want || c != again || f.map_or(false, |f| f != want[0][0]) {
                ctx.fail(format!(
                    "{:?}: {} bytes ({} repeated, {}), key {}: {:x?}, restored before the last {} {:x?}, finish {:x?}; specification {:x?}; checkpoints {}",
                    k, total, PIECE, if v == 0 { "in packets" } else { "off packets" }, showk(key), got, tail, back, f, want, if c == again { "equal" } else { "differ" }
                ));
            }
        }
    }
}

fn slices(ctx: &mut Ctx) {
    let mut r = Rng::new(ctx.p.seed, 23, 24);
    // what counts in bits, words, signed and unsigned bytes may come round here
    let mut sizes: Vec<usize> = vec![(1 << 29) + 1 + r.idx(90), (1 << 30) + 1 + r.idx(90), isize::MAX as usize & 0x7fff_ffff];
    let i = r.idx(40);
    sizes[2] -= i;
    let (key, more) = (key(&mut r), 1 + r.idx(90));
    #[cfg(target_pointer_width = "64")]
    sizes.push((1 << 32) + more);
    let _ = more;
    let most = *sizes.last().unwrap();
    let lay = core::alloc::Layout::from_size_align(most, 1).unwrap();
    let p = unsafe { alloc::alloc::alloc_zeroed(lay) };
    if p.is_null() {
        ctx.count("no memory for a long slice", 1);
        return;
    }
    let b = unsafe { core::slice::from_raw_parts_mut(p, most) };
    // zeros, but for a few bytes here and there and around the sizes, the same on every platform
    for (i, c) in b.chunks_mut(1 << 20).enumerate() {
        let mut r = Rng::new(ctx.p.seed, 25, i as u64);
        let o = r.idx(60);
        if c.len() == 1 << 20 && ((i + 1) << 20 <= sizes[2] || i << 20 >= sizes[2]) {
            r.fill(&mut c[o..o + 50]);
        }
    }
    for s in &sizes {
        Rng::new(ctx.p.seed, 26, *s as u64).fill(&mut b[s - 100..*s]);
    }
    let d = &b[..];
    let mut spec: Vec<[R; 3]> = Vec::new();
    let mut of = None;
    for (ki, k) in ctx.p.kinds.clone().into_iter().enumerate() {
        for (si, s) in sizes.iter().enumerate() {
            for v in 0..2usize {
                if !ctx.sel(SECTION * 2 + (ki * 16 + si * 2 + v) as u64) {
                    continue;
                }
                if ctx.p.twin {
                    // the same type, fed in small pieces
                    if of != Some(k) {
                        of = Some(k);
                        let (mut h, mut at) = (H::new(k, key, 0), 0);
                        spec.clear();
                        for s in &sizes {
                            d[at..*s].chunks(PIECE).for_each(|c| h.append(c));
                            at = *s;
                            spec.push([h.clone().fin(0), h.clone().fin(1), h.clone().fin(2)]);
                        }
                    }
                } else if spec.is_empty() {
                    let (mut m, mut at) = (Model::new(key), 0);
                    for s in &sizes {
                        m.append(&d[at..*s]);
                        at = *s;
                        spec.push(split(m.all()));
                    }
                }
                let mut r = ctx.rng();
                let w = r.idx(3);
                let a = if v == 0 { 0 } else { 1 + r.idx(31) };
                let e = r.below(4);
                let mut h = H::new(k, key, 0);
                let mut said = s - a;
                let got = if v == 0 && e == 0 {
                    h.hash(w, &d[..*s])
                } else {
                    h.append(&d[..a]);
                    match e {
                        #[cfg(feature = "hwstd")]
                        2 => said = crate::ctx::lib(|| crate::each_std!(&mut h, h => std::io::Write::write(h, &d[a..*s]).unwrap_or(0), { h_app(&mut h, &d[a..*s]); s - a })),
                        _ => h.enter(e, &d[a..*s]),
                    }
                    h.fin(w)
                };
                ctx.max("longest slice", (s - a) as u64);
                ctx.count("long slices", 1);
                ctx.seen((ki * 16 + si * 2 + v) as u64);
                ctx.sample(|| format!("{:?}: {} bytes, then a slice of {}", k, a, s - a));
                if si < 3 {
                    ctx.given_bytes(key, &d[s - 100..*s]);
                    ctx.given((a * 3 + w) as u64);
                    got.iter().for_each(|g| ctx.dig(*g));
                }
                if got != spec[si][w] || said != s - a {
                    ctx.fail(format!("{:?}: key {}: {} bytes, then one slice of {} through entry {}, width {}: {:x?}, want {:x?}; reported {}", k, showk(key), a, s - a, e, WIDTHS[w], got, spec[si][w], said));
                }
            }
        }
    }
    unsafe { alloc::alloc::dealloc(p, lay) };
}

#[cfg(feature = "hwstd")]
#[allow(dead_code)]
fn h_app(h: &mut H, d: &[u8]) {
    h.append(d)
}

/// Checkpoints after one large append against those of the same bytes in small pieces.
pub fn canon_of(ctx: &mut Ctx, d: &[u8], sizes: &[usize], fills: usize, sec: u64) {
    let ks = ctx.p.kinds.clone();
    for (si, s) in sizes.iter().enumerate() {
        for v in 0..fills {
            if !ctx.sel(sec * SECTION + (si * 8 + v) as u64) {
                continue;
            }
            let mut r = ctx.rng();
            let key = key(&mut r);
            let fill = if v == 0 { 0 } else { 1 + r.idx(31) };
            let s = (*s).min(d.len() - fill);
            let mut q = H::new(P, key, 0);
            for c in d[..fill + s].chunks(if s > 1 << 27 { (1 << 20) + 7 } else { 1009 }) {
                q.append(c);
            }
            let want = q.cp();
            for k in &ks {
                let e = r.u64();
                let mut h = H::new(*k, key, e);
                h.append(&d[..fill]);
                h.enter(e, &d[fill..fill + s]);
                let got = h.cp();
                ctx.count("checkpoints after large appends compared", 1);
                ctx.max("longest append before a checkpoint", s as u64);
                if got != want {
                    ctx.fail(format!("{:?}: {} bytes, then {} at once, key {}: checkpoint {:x?}, in small pieces {:x?}", k, fill, s, showk(key), got, want));
                }
                let again = H::restore(*k, got, e).cp();
                if again != got {
                    ctx.fail(format!("{:?}: {} bytes, then {} at once, key {}: checkpoint {:x?}, restored and taken again {:x?}", k, fill, s, showk(key), got, again));
                }
            }
            ctx.seen(mix(s as u64 * 32 + fill as u64));
        }
    }
}

pub fn canon_big(ctx: &mut Ctx) {
    let mut r = Rng::new(ctx.p.seed, 31, 32);
    let max = if ctx.p.max == 0 { 1 << 26 } else { ctx.p.max.min(1 << 26) };
    let mut sizes = Vec::new();
    for k in 10..=26 {
        let s = 1usize << k;
        if s <= max {
            sizes.extend([s, s - 1 - r.idx(40), s + 1 + r.idx(40), s + 32 * r.idx(30)]);
        }
    }
    for l in crate::inputs::lits(ctx, max - 40) {
        sizes.extend([l, l + 1]);
    }
    let mut d = vec![0u8; sizes.iter().max().copied().unwrap_or(0) + 40];
    r.fill(&mut d);
    canon_of(ctx, &d, &sizes, 3, 1);
}

/// Hops (`n` bit 0), arbitrary restores (bit 1), observers and clones (bit 2) with large appends behind them; large
/// appends against small ones (bit 3).
pub fn large(ctx: &mut Ctx) {
    let what = ctx.p.n;
    let mut r = Rng::new(ctx.p.seed, 33, 34);
    let max = if ctx.p.max == 0 { 1 << 24 } else { ctx.p.max };
    let mut sizes = Vec::new();
    let mut s = 1usize << 10;
    while s <= max {
        sizes.extend([s, s + 1 + r.idx(40), s - 1 - r.idx(40)]);
        s *= 2;
    }
    for l in crate::inputs::lits(ctx, max - 40) {
        sizes.extend([l, l + 1 + r.idx(40)]);
    }
    let mut d = vec![0u8; max * 2 + 400];
    r.fill(&mut d);
    let ks = ctx.p.kinds.clone();
    for (si, s) in sizes.iter().copied().enumerate() {
        for (ki, k) in ks.iter().copied().enumerate() {
            for v in 0..3usize {
                if !ctx.sel(SECTION + (si * 64 + ki * 4 + v) as u64) {
                    continue;
                }
                let mut r = ctx.rng();
                let (key, w, e) = (key(&mut r), r.idx(3), r.u64());
                let o = r.idx(64);
                // small first, or large before and after
                let a = match v {
                    0 => r.idx(32),
                    1 => r.idx(300),
                    _ => s - 1 - r.idx(40),
                };
                let (b, c, z) = (&d[o..o + a], &d[o + a..o + a + s], &d[..r.idx(70)]);
                let tell = |what: &str| format!("{:?}: {} + {} + {} bytes, key {} width {}: {}", k, a, s, z.len(), showk(key), WIDTHS[w], what);
                // in small pieces, so that the buffer has held other bytes before
                let step = if a > 400 { a } else { 1 + r.idx(60) };
                let feed = |h: &mut H| b.chunks(step).for_each(|c| h.append(c));
                let mut plain = H::new(k, key, 0);
                feed(&mut plain);
                let early = plain.cp();
                plain.enter(e, c);
                plain.append(z);
                let want = plain.fin(w);
                if what & 1 != 0 {
                    let from = ks[r.idx(ks.len())];
                    let mut h = H::new(from, key, 0);
                    feed(&mut h);
                    let c0 = h.cp();
                    let mut h = H::restore(k, c0, e);
                    h.enter(e, c);
                    let c1 = h.cp();
                    let mut i = H::restore(k, c1, e);
                    i.append(z);
                    h.append(z);
                    let (h, i) = (h.fin(w), i.fin(w));
                    ctx.count("hops around large appends compared", 1);
                    // a source that went wrong before is not the hop's fault: its checkpoint is that of the target, then
                    if (h != want || i != want) && c0 == early {
                        ctx.fail(tell(&format!("restored from {:?} {:x?}, and once more {:x?}, uninterrupted {:x?}", from, h, i, want)));
                    }
                }
                if what & 2 != 0 {
                    let mut c0 = early;
                    for x in c0.iter_mut() {
                        if r.chance(1, 3) {
                            *x = [0, 0xff, 0x80, r.u64() as u8][r.idx(4)];
                        }
                    }
                    let n = [r.idx(33) as u32, r.u64() as u32, 1 << r.idx(32), 32, 31][r.idx(5)];
                    c0[160..].copy_from_slice(&n.to_le_bytes());
                    let mut h = H::restore(k, c0, e);
                    h.enter(e, c);
                    let got = h.cp();
                    let mut i = H::restore(k, c0, e);
                    c.chunks(1021).for_each(|c| i.append(c));
                    let mut q = H::restore(P, c0, e);
                    c.chunks(1021).for_each(|c| q.append(c));
                    let (gi, gq) = (i.cp(), q.cp());
                    h.append(z);
                    i.append(z);
                    q.append(z);
                    let (h, i, q) = (h.fin(w), i.fin(w), q.fin(w));
                    ctx.count("arbitrary restores before large appends compared", 1);
                    if h != i || got != gi {
                        ctx.fail(tell(&format!("restored from {:x?}: large append {:x?}, in pieces {:x?}", c0, h, i)));
                    }
                    if h != q || got != gq {
                        ctx.fail(tell(&format!("restored from {:x?}: {:x?}, portable {:x?}", c0, h, q)));
                    }
                }
                if what & 8 != 0 {
                    let mut h = H::new(k, key, 0);
                    d[o..o + a + s].chunks(1 + r.idx(2000)).for_each(|c| h.append(c));
                    let (f, got) = (h.finish(), h.clone().hash(w, z));
                    h.append(z);
                    let one = H::new(k, key, 1).hash(w, &d[o..o + a + s]);
                    let pieces = h.clone().fin(w);
                    let mut h = H::new(k, key, 0);
                    feed(&mut h);
                    h.enter(e, c);
                    let g = h.finish();
                    let again = h.hash(w, &[]);
                    ctx.count("large appends compared with small ones", 1);
                    if got != want || pieces != want || one != again || f != g {
                        ctx.fail(tell(&format!("in two appends {:x?}, in pieces {:x?} {:x?}; before the last: one-shot {:x?}, two appends {:x?}; finish {:x?} {:x?}", want, got, pieces, one, again, f, g)));
                    }
                }
                if what & 4 != 0 {
                    let mut h = H::new(k, key, 0);
                    feed(&mut h);
                    let x = (h.cp(), h.finish());
                    let mut twin = h.clone();
                    h.enter(e, c);
                    // between two large ones, and while the clone has not moved
                    let y = (h.cp(), h.finish());
                    let same = twin.cp() == x.0 && twin.finish() == x.1;
                    twin.enter(e, c);
                    let twins = (twin.cp(), twin.finish()) == y;
                    let mut t = Text::new();
                    let _ = h.debug(&mut t, e & 8 == 0);
                    h.append(z);
                    let later = (twin.cp(), twin.finish()) == y;
                    twin.append(z);
                    let (h, t) = (h.fin(w), twin.fin(w));
                    ctx.count("observers and clones around large appends compared", 1);
                    if h != want || t != want || !same || !twins || !later {
                        ctx.fail(tell(&format!("observed {:x?}, its clone {:x?}, unobserved {:x?}; the clone stayed {} {}, went the same way {}", h, t, want, same, later, twins)));
                    }
                }
                ctx.seen(mix((si * 64 + ki * 4 + v) as u64 * 8 + what as u64));
            }
        }
    }
}
