//! C09: where inputs and hashers live, and what is next to them.
use super::mem::Pages;
use mon::ctx::{lib, showk, SECTION};
use mon::h::*;
use mon::{each, each_std, Ctx, H};

struct Arena {
    /// inputs
    a: Pages,
    /// hashers
    b: Pages,
}

#[derive(Clone, Copy, Debug)]
enum Place {
    /// last byte before an unmapped page
    High,
    /// first byte after an unmapped page
    Low,
    /// this far after the start of a page
    At(usize),
}

impl Arena {
    fn fill(&self, f: u8) {
        for (i, b) in self.a.all().iter_mut().enumerate() {
            *b = match f {
                0 => 0,
                1 => 0xff,
                2 => 0x80,
                _ => mon::monref::rng::mix(i as u64 * 7 + f as u64) as u8,
            };
        }
    }
    /// Copies the bytes into their place, the neighbours stay.
    fn put(&self, d: &[u8], p: Place) -> &[u8] {
        let m = self.a.all();
        let at = match p {
            Place::High => m.len() - d.len(),
            Place::Low => 0,
            Place::At(o) => o,
        };
        m[at..at + d.len()].copy_from_slice(d);
        &self.a.all()[at..at + d.len()]
    }
}

/// What happens to a hasher in its place: chunks, observers, then a result.
fn live(ar: &Arena, h: H, place: Option<Place>, chunks: &[&[u8]], where_: &[Place], w: usize, bits: u64) -> (R, [u8; 164], Option<u64>) {
    each!(h, h0 => in_place(ar, h0, place, chunks, where_, w, bits))
}

pub trait Ops: highway::HighwayHash + Clone + core::fmt::Debug {
    fn wrap(self) -> H;
    fn fin_shared(&self) -> Option<u64>;
}
macro_rules! ops {
    ($t:ty, $v:ident) => {
        impl Ops for $t {
            fn wrap(self) -> H {
                H::$v(self)
            }
            fn fin_shared(&self) -> Option<u64> {
                lib(|| Some(core::hash::Hasher::finish(self)))
            }
        }
    };
}
ops!(highway::PortableHash, P);
ops!(highway::HighwayHasher, D);
#[cfg(target_arch = "x86_64")]
ops!(highway::SseHash, S);
#[cfg(target_arch = "x86_64")]
ops!(highway::AvxHash, A);
#[cfg(target_arch = "aarch64")]
impl Ops for highway::NeonHash {
    fn wrap(self) -> H {
        H::N(self)
    }
    fn fin_shared(&self) -> Option<u64> {
        None
    }
}

fn in_place<T: Ops>(ar: &Arena, h: T, place: Option<Place>, chunks: &[&[u8]], where_: &[Place], w: usize, bits: u64) -> (R, [u8; 164], Option<u64>) {
    let size = core::mem::size_of::<T>();
    let m = ar.b.all();
    let mut local;
    let (p, at): (*mut T, usize) = match place {
        None => {
            local = core::mem::MaybeUninit::new(h);
            (local.as_mut_ptr(), 0)
        }
        Some(x) => {
            let at = match x {
                Place::High => m.len() - size,
                Place::Low => 0,
                Place::At(o) => o * core::mem::align_of::<T>() % (m.len() - size) / core::mem::align_of::<T>() * core::mem::align_of::<T>(),
            };
            let p = unsafe { ar.b.ptr().add(at) } as *mut T;
            unsafe { p.write(h) };
            (p, at)
        }
    };
    // what surrounds the hasher must stay as it is
    let around = |ar: &Arena| -> u64 {
        let m = ar.b.all();
        mon::monref::digest(1, &m[at.saturating_sub(128)..at]) ^ mon::monref::digest(2, &m[(at + size).min(m.len())..(at + size + 128).min(m.len())])
    };
    let before = if place.is_some() { around(ar) } else { 0 };
    let h = unsafe { &mut *p };
    for (i, c) in chunks.iter().enumerate() {
        let s = ar.put(c, where_[i % where_.len()]);
        lib(|| h.append(s));
        match (bits >> (2 * (i % 30))) & 7 {
            0 => {
                let _ = lib(|| h.checkpoint());
            }
            1 => {
                let _ = h.fin_shared();
            }
            2 => {
                let mut t = Text::new();
                let _ = lib(|| core::fmt::Write::write_fmt(&mut t, format_args!("{:?}", h)));
            }
            3 => {
                // through a clone into the same place
                let c = lib(|| h.clone());
                unsafe { (h as *mut T).write(c) };
            }
            _ => {}
        }
    }
    let cp = lib(|| h.checkpoint());
    let f = h.fin_shared();
    let changed = place.is_some() && around(ar) != before;
    let h = unsafe { p.read() };
    let r = h.wrap().fin(w);
    if changed {
        // reported as a difference
        return ([!0; 4], [0xee; 164], Some(!0));
    }
    (r, cp, f)
}

pub fn place(ctx: &mut Ctx) {
    let ar = Arena { a: Pages::new(16384), b: Pages::new(8192) };
    for (i, b) in ar.b.all().iter_mut().enumerate() {
        *b = i as u8 | 1;
    }
    let ks = ctx.p.kinds.clone();
    let size = ar.a.len();
    // 1: every length, both ends of a page, every width, one-shot
    let mut lens: Vec<usize> = (0..=200).collect();
    lens.extend([255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 4063, 4064, 4065, 4095, 4096, 4097, 8191, 8192, 8193, 12000]);
    for l in mon::inputs::lits(ctx, size as u64 as usize - 40) {
        lens.extend([l - 1, l, l + 1, l + 16, l + 31, l + 33]);
    }
    lens.sort();
    lens.dedup();
    for len in &lens {
        for (ki, k) in ks.iter().enumerate() {
            if !ctx.sel(SECTION + (len * 8 + ki) as u64) {
                continue;
            }
            let mut r = ctx.rng();
            let kk = r.below(30);
            let key = ctx.p.dict.key(kk, &mut r);
            let s = r.u64();
            let d = ctx.p.dict.data(s, *len, key, &mut r);
            for w in 0..3 {
                let want = H::new(*k, key, 0).hash(w, &d);
                for (f, p) in [(0u8, Place::High), (1, Place::High), (0, Place::Low), (1, Place::Low)] {
                    ar.fill(f);
                    let s = ar.put(&d, p);
                    let got = H::new(*k, key, 1).hash(w, s);
                    ctx.count("results next to an unmapped page compared", 1);
                    if got != want {
                        ctx.fail(format!("{:?}: {} bytes {:?} neighbours {:#x} key {} width {}: {:x?} elsewhere {:x?}", k, len, p, if f == 0 { 0 } else { 0xff }, showk(key), WIDTHS[w], got, want));
                    }
                    if s != &d[..] {
                        ctx.fail(format!("{:?}: hashing {} bytes changed the input", k, len));
                    }
                }
            }
            ctx.seen((len * 8 + ki) as u64);
        }
    }
    // 2: every alignment, every length up to 100, other neighbours
    for off in 0..64usize {
        for len in 0..=100usize {
            for (ki, k) in ks.iter().enumerate() {
                if !ctx.sel(2 * SECTION + ((off * 128 + len) * 8 + ki) as u64) {
                    continue;
                }
                let mut r = ctx.rng();
                let key = [r.u64(), 2, 3, r.u64()];
                let d = ctx.p.dict.data(0, len, key, &mut r);
                let w = r.idx(3);
                let want = H::new(*k, key, 0).hash(w, &d);
                ctx.count("(alignment, length) cases", 1);
                ctx.seen(1 << 40 | ((off * 128 + len) * 8 + ki) as u64);
                for f in [2u8, 3 + r.below(200) as u8] {
                    // only the neighbourhood
                    let m = ar.a.all();
                    for (i, b) in m[..256 + len].iter_mut().enumerate() {
                        *b = if f == 2 { 0x80 } else { mon::monref::rng::mix(i as u64 ^ (f as u64) << 20) as u8 };
                    }
                    let s = ar.put(&d, Place::At(64 + off));
                    let got = H::new(*k, key, 1).hash(w, s);
                    ctx.count("results with other neighbours compared", 1);
                    if got != want {
                        ctx.fail(format!("{:?}: {} bytes at offset {} of a cache line, key {} width {}: {:x?} elsewhere {:x?}", k, len, off, showk(key), WIDTHS[w], got, want));
                    }
                }
            }
        }
    }
    // 3: chunks, each in a place of its own, hashers next to unmapped pages
    let hist = |ctx: &mut Ctx, r: &mut mon::monref::Rng, k: Kind, len: usize| {
        let kk = r.below(30);
        let key = ctx.p.dict.key(kk, r);
        let s = r.u64();
        let d = ctx.p.dict.data(s, len, key, r);
        let mut ch: Vec<&[u8]> = Vec::new();
        let mut at = 0;
        for c in ctx.p.dict.chunks(len, r) {
            ch.push(&d[at..at + c]);
            at += c;
        }
        let mut wh = Vec::new();
        for c in &ch {
            wh.push(match r.below(6) {
                0 => Place::Low,
                1 => Place::At(r.idx(65.min(size - c.len() + 1))),
                // across a page border, or anywhere
                2 => Place::At((4096 * (1 + r.idx(2)) - r.idx(100.min(c.len()) + 1)).min(size - c.len())),
                3 => Place::At(r.idx(size - c.len() + 1)),
                _ => Place::High,
            });
        }
        if wh.is_empty() {
            wh.push(Place::Low);
        }
        let hp = [Place::High, Place::Low, Place::At(r.idx(300)), Place::High, Place::At(128 - r.idx(9)), Place::At(256 - r.idx(9))][r.idx(6)];
        let w = r.idx(3);
        let bits = r.u64();
        let arb = if r.chance(1, 6) {
            let count = ctx.p.dict.count(99, r);
            Some(ctx.p.dict.state(count, r))
        } else {
            None
        };
        let mk = || match arb {
            Some(c) => H::restore(k, c, 1),
            None => H::new(k, key, 1),
        };
        ar.fill(r.below(5) as u8);
        let got = live(&ar, mk(), Some(hp), &ch, &wh, w, bits);
        // elsewhere: an ordinary buffer, a local hasher, no observers
        let mut h = mk();
        for c in &ch {
            h.append(c);
        }
        let want = (h.cp(), h.finish());
        let want = (h.fin(w), want.0, want.1);
        ctx.seen(monref_sig(&ch, &wh) ^ k as u64);
        ctx.count("placed histories compared", 1);
        ctx.count("placed chunks", ch.len() as u64);
        ctx.sample(|| format!("{:?} hasher at {:?}, chunks {:?}", k, hp, ch.iter().map(|c| c.len()).zip(wh.iter()).take(8).collect::<Vec<_>>()));
        if got.0 == [!0; 4] && got.1 == [0xee; 164] {
            ctx.fail(format!("{:?}: bytes next to the hasher were changed: hasher {:?} chunks {:?}", k, hp, ch.iter().map(|c| c.len()).collect::<Vec<_>>()));
        } else if got != want {
            ctx.fail(format!("{:?}: hasher at {:?}, chunks {:?}, key {} arbitrary state {}: {:x?} elsewhere {:x?}", k, hp, ch.iter().map(|c| c.len()).zip(wh.iter()).collect::<Vec<_>>(), showk(key), arb.is_some(), got.0, want.0));
        }
    };
    for len in 0..=140usize {
        for (ki, k) in ks.iter().enumerate() {
            for v in 0..3 {
                if ctx.sel(3 * SECTION + ((len * 8 + ki) * 4 + v) as u64) {
                    let mut r = ctx.rng();
                    hist(ctx, &mut r, *k, len);
                }
            }
        }
    }
    ctx.random(4, |ctx, r| {
        let k = ks[r.idx(ks.len())];
        let cap = if r.chance(1, 20) { 9000 } else { 400 };
        let len = ctx.p.dict.len(cap, r);
        hist(ctx, r, k, len);
    });
    // 5: every (fill, next chunk) with the next chunk before an unmapped page
    for f in 0..=32usize {
        for c in 0..=100usize {
            for (ki, k) in ks.iter().enumerate() {
                if !ctx.sel(5 * SECTION + ((f * 128 + c) * 8 + ki) as u64) {
                    continue;
                }
                let mut r = ctx.rng();
                let key = [r.u64(), r.u64(), 5, 6];
                let d = ctx.p.dict.data(0, f + c, key, &mut r);
                let w = r.idx(3);
                let mut x = H::new(*k, key, 0);
                x.append(&d[..f]);
                x.append(&d[f..]);
                let want = x.fin(w);
                for pl in [Place::High, Place::Low] {
                    let mut h = H::new(*k, key, 1);
                    h.append(ar.put(&d[..f], pl));
                    h.append(ar.put(&d[f..], pl));
                    let got = h.fin(w);
                    ctx.count("(fill, chunk) before an unmapped page", 1);
                    if got != want {
                        ctx.fail(format!("{:?}: {} then {} bytes, each at {:?}: key {} width {}: {:x?} elsewhere {:x?}", k, f, c, pl, showk(key), WIDTHS[w], got, want));
                    }
                }
                ctx.seen(1 << 41 | ((f * 128 + c) * 8 + ki) as u64);
            }
        }
    }
    // 6: across the border of two pages (both of them mapped), at every point
    for len in 1..=100usize {
        for split in 0..=len {
            for (ki, k) in ks.iter().enumerate() {
                if !ctx.sel(6 * SECTION + ((split * 128 + len) * 8 + ki) as u64) {
                    continue;
                }
                let mut r = ctx.rng();
                let key = [r.u64(), r.u64(), r.u64(), 9];
                let d = ctx.p.dict.data(0, len, key, &mut r);
                let w = r.idx(3);
                let fill = if r.chance(1, 2) { 0 } else { r.idx(len + 1) };
                let mut x = H::new(*k, key, 0);
                x.append(&d[..fill]);
                let want = x.hash(w, &d[fill..]);
                let page = 4096 * (1 + r.idx(3));
                let mut x = H::new(*k, key, 1);
                x.append(&d[..fill]);
                let s = ar.put(&d, Place::At(page - split));
                let got = x.hash(w, &s[fill..]);
                ctx.count("inputs across a page border compared", 1);
                ctx.seen(1 << 42 | ((split * 128 + len) * 8 + ki) as u64);
                if got != want {
                    ctx.fail(format!("{:?}: {} bytes, the first {} of them before a page border, {} appended from elsewhere: key {} width {}: {:x?} elsewhere {:x?}", k, len, split, fill, showk(key), WIDTHS[w], got, want));
                }
            }
        }
    }
    let _ = each_std!(&H::new(P, [0; 4], 0), _h => 0, 0);
}

fn monref_sig(ch: &[&[u8]], wh: &[Place]) -> u64 {
    let mut s = ch.len() as u64;
    for (i, c) in ch.iter().enumerate() {
        let p = match wh[i % wh.len()] {
            Place::High => 1,
            Place::Low => 2,
            Place::At(o) => 3 + o as u64,
        };
        s = mon::monref::rng::mix(s ^ c.len() as u64 ^ p << 32);
    }
    s
}
