//! The same memory again, with other contents: a result is a function of the bytes, not of where they lie, when they
//! were last seen there, or which hasher lay in the same place before. Judged by the specification.
use crate::ctx::{lib, showk, Ctx, SECTION};
use crate::h::*;
use alloc::format;
use alloc::vec;
use alloc::vec::Vec;
use highway::HighwayBuildHasher;
use monref::rng::mix;
use monref::{Model, Rng};

fn spec(key: [u64; 4], d: &[u8]) -> [R; 3] {
    let mut m = Model::new(key);
    m.append(d);
    split(m.all())
}

/// One way of hashing all of `d`.
fn through(k: Kind, key: [u64; 4], way: u64, w: usize, d: &[u8], b: &HighwayBuildHasher) -> R {
    match way % 6 {
        0 | 1 => H::new(k, key, way >> 3).hash(w, d),
        2 => {
            let mut h = H::new(k, key, way >> 3);
            h.enter(way >> 4, d);
            h.fin(w)
        }
        3 => {
            // the hasher in one place, the pieces the same each time
            let mut h = H::new(k, key, 0);
            let n = [1usize << 12, 1 << 16, 96, 1000][(way >> 4) as usize & 3];
            d.chunks(n.max(d.len() / 64)).for_each(|c| h.enter(way >> 6, c));
            h.fin(w)
        }
        4 => {
            let mut h = H::new(k, key, 0);
            let at = d.len() / 2;
            h.append(&d[..at]);
            let mut h = H::restore(k, h.cp(), 0);
            h.append(&d[at..]);
            h.fin(w)
        }
        _ => {
            #[cfg(feature = "std")]
            if w == 0 && k == D {
                use std::hash::{BuildHasher, Hasher};
                let mut h = lib(|| b.build_hasher());
                lib(|| h.write(d));
                return [lib(|| h.finish()), 0, 0, 0];
            }
            let _ = b;
            H::new(k, key, 0).clone().hash(w, d)
        }
    }
}

fn case(ctx: &mut Ctx, mem: &mut Vec<u8>, r: &mut Rng, n: usize, k: Kind, w: usize, way: u64) {
    let a = if r.chance(1, 2) { 0 } else { r.idx(64) };
    let key = ctx.p.dict.key(r.below(40), r);
    let other = ctx.p.dict.key(r.below(40), r);
    if mem.len() < a + n {
        mem.resize(a + n, 0);
    }
    let (mut bl, mut bo) = (None, None);
    lib(|| {
        bl = Some(HighwayBuildHasher::new(highway::Key(key)));
        bo = Some(HighwayBuildHasher::new(highway::Key(other)));
    });
    let (bl, bo) = (bl.unwrap(), bo.unwrap());
    r.fill(&mut mem[a..a + n]);
    let first = spec(key, &mem[a..a + n]);
    let at = match r.below(7) {
        0 => 0,
        1 => n.saturating_sub(1),
        2 => n / 2,
        3 => n.min(32 * r.idx(4) + r.idx(32)),
        4 => n.saturating_sub(1 + r.idx(70)),
        _ => r.idx(n.max(1)),
    }
    .min(n.saturating_sub(1));
    let x = 1u8 << r.idx(8);
    if ctx.p.twin && through(k, key, way, w, &mem[a..a + n], &bl) != first[w] && through(k, key, way, w, &Vec::from(&mem[a..a + n]), &bl) != first[w] {
        // whatever is wrong here is wrong in any place
        return ctx.count("histories left to the checks of the results themselves", 1);
    }
    let mut step = 0;
    let mut look = |ctx: &mut Ctx, mem: &[u8], key: [u64; 4], way: u64, b: &HighwayBuildHasher, want: &[R; 3], what: &str| {
        step += 1;
        let got = through(k, key, way, w, mem, b);
        ctx.count("hashes of memory that was hashed before", (step > 1) as u64);
        if got != want[w] {
            ctx.fail(format!("{:?} key {}: the same {} bytes of memory, {}, in way {}, width {}: {:x?}; specification {:x?}", k, showk(key), mem.len(), what, way % 6, WIDTHS[w], got, want[w]));
        }
    };
    ctx.sample(|| format!("{:?}: {} bytes of the same memory, byte {} changed and changed back, width {}, way {}", k, n, at, WIDTHS[w], way % 6));
    ctx.max("most bytes in the same memory", n as u64);
    ctx.seen(mix(n as u64 ^ (k as u64) << 32 ^ (w as u64) << 36 ^ (way % 6) << 38 ^ (at as u64) << 42));
    look(ctx, &mem[a..a + n], key, way, &bl, &first, "at first");
    look(ctx, &mem[a..a + n], key, way, &bl, &first, "unchanged");
    if n > 0 {
        mem[a + at] ^= x;
        let second = spec(key, &mem[a..a + n]);
        look(ctx, &mem[a..a + n], key, way, &bl, &second, "one byte changed");
        // in a way other than before
        look(ctx, &mem[a..a + n], key, mix(way), &bl, &second, "one byte changed");
        mem[a + at] ^= x;
        look(ctx, &mem[a..a + n], key, way, &bl, &first, "changed back");
        // less of it
        let (p, q) = if r.chance(1, 2) { (0, n - 1) } else { (1, n) };
        let s = spec(key, &mem[a + p..a + q]);
        look(ctx, &mem[a + p..a + q], key, way, &bl, &s, "without one");
        if n <= 1 << 17 {
            // two places exchanged, which keeps sums of the bytes
            let (i, j) = (a + at, a + r.idx(n));
            mem.swap(i, j);
            let s = spec(key, &mem[a..a + n]);
            look(ctx, &mem[a..a + n], key, way, &bl, &s, "two bytes exchanged");
            mem.swap(i, j);
        }
    }
    let o = spec(other, &mem[a..a + n]);
    look(ctx, &mem[a..a + n], other, way, &bo, &o, "another key");
    look(ctx, &mem[a..a + n], key, way, &bl, &first, "the first key again");
    ctx.given_bytes(key, &mem[a..a + n]);
}

pub fn same(ctx: &mut Ctx) {
    let mut mem: Vec<u8> = Vec::new();
    let ks = ctx.p.kinds.clone();
    let mut ns: Vec<usize> = (0..=130).collect();
    for i in 8..=22 {
        ns.extend([(1usize << i) - 1, 1 << i, (1 << i) + 1 + i]);
    }
    for l in &ctx.p.dict.lits {
        if *l > 130 && *l <= 1 << 22 {
            ns.push(*l as usize);
            ns.push(*l as usize + 1);
        }
    }
    let max = ctx.p.max;
    for (i, n) in ns.iter().enumerate() {
        for (ki, k) in ks.iter().enumerate() {
            for w in 0..3 {
                for way in 0..(if *n <= 130 { 6 } else { 3 }) {
                    if *n <= max && ctx.sel(SECTION + (((i * 8 + ki) * 3 + w) * 6 + way) as u64) {
                        let mut r = ctx.rng();
                        // the one-shot functions at every size, one of the other ways
                        let way = if way == 0 || *n <= 130 { way as u64 + 6 * 8 * r.below(64) } else { r.u64() };
                        case(ctx, &mut mem, &mut r, *n, *k, w, way);
                    }
                }
            }
        }
    }
    ctx.random(2, |ctx, r| {
        let n = ctx.p.dict.len(max.min(1 << 18), r);
        let k = ks[r.idx(ks.len())];
        let (w, way) = (r.idx(3), r.u64());
        case(ctx, &mut mem, r, n, k, w, way);
    });
    around(ctx);
}

/// Hashers that come to lie where others lay, one byte or one call different.
fn around(ctx: &mut Ctx) {
    let ks = ctx.p.kinds.clone();
    ctx.random(3, |ctx, r| {
        let k = ks[r.idx(ks.len())];
        let key = ctx.p.dict.key(r.below(40), r);
        let n = ctx.p.dict.len(3000, r);
        let d = ctx.p.dict.data(r.below(18), n, key, r);
        let (cut, w) = (r.idx(n + 1), r.idx(3));
        let mut slot = vec![H::new(k, key, 0)];
        let mut d2 = d.clone();
        for i in 0..6u64 {
            let (key, d) = match i {
                1 if n > 0 => {
                    let at = r.idx(n);
                    d2[at] ^= 1 << r.idx(8);
                    (key, &d2)
                }
                3 => ([key[0], key[1], key[2], key[3] ^ 1 << r.idx(64)], &d),
                _ => (key, &d),
            };
            // the same slot, the same calls
            slot[0] = H::new(k, key, i);
            slot[0].append(&d[..cut]);
            let f = slot[0].finish();
            let c = slot[0].cp();
            slot[0].append(&d[cut..]);
            let got = slot[0].clone().fin(w);
            let g = slot[0].finish();
            let x = H::restore(k, c, i).finish();
            let (h, s) = (spec(key, &d[..cut]), spec(key, d));
            if i == 0 && ctx.p.twin && (got != s[w] || f.map_or(false, |f| f != h[0][0])) {
                return ctx.count("histories left to the checks of the results themselves", 1);
            }
            ctx.count("hashers in the place of others", 1);
            if got != s[w] || f.map_or(false, |f| f != h[0][0]) || x.map_or(false, |x| x != h[0][0]) || g.map_or(false, |g| g != s[0][0]) {
                ctx.fail(format!(
                    "{:?} key {}: {} bytes, {} first, in the place of another hasher (round {}): {:x?} of {:x?}; finish {:x?}, restored {:x?} of {:x}; {:x?} of {:x}",
                    k, showk(key), d.len(), cut, i, got, s[w], f, x, h[0][0], g, s[0][0]
                ));
            }
        }
        ctx.seen(mix(n as u64 ^ (cut as u64) << 20 ^ (k as u64) << 50 ^ (w as u64) << 55));
    });
}
