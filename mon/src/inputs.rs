//! The (key, bytes) pairs that the value monitors go through.
use crate::ctx::{Ctx, SECTION};
use alloc::vec::Vec;
use monref::vectors;

pub type Each<'a> = &'a mut dyn FnMut(&mut Ctx, [u64; 4], &[u8], u64);

static STYLES: [u64; 6] = [0, 5, 10, 8, 4, 13];
static DELTAS: [i64; 11] = [-33, -32, -31, -17, -1, 0, 1, 15, 31, 32, 33];

fn one(ctx: &mut Ctx, zero: bool, ki: u64, style: u64, len: usize, f: Each) {
    let mut r = ctx.rng();
    let key = if zero { [0; 4] } else { ctx.p.dict.clone_key(ki, &mut r) };
    let d = ctx.p.dict.data(style, len, key, &mut r);
    note(ctx, key, &d);
    f(ctx, key, &d, r.u64());
}

fn note(ctx: &mut Ctx, key: [u64; 4], d: &[u8]) {
    ctx.given_bytes(key, d);
    if !d.is_empty() {
        let s = monref::digest(key[0] ^ key[1].rotate_left(17) ^ key[2].rotate_left(31) ^ key[3].rotate_left(47), if d.len() > 64 { &d[d.len() - 64..] } else { d });
        ctx.seen(s ^ d.len() as u64);
    }
    ctx.count("bytes hashed per hasher", d.len() as u64);
    ctx.max("longest input", d.len() as u64);
    if d.iter().take(64).any(|b| *b >= 0x80) {
        ctx.count("inputs with bytes >= 0x80 in the first 64", 1);
    }
    ctx.sample(|| alloc::format!("key {} data {}", crate::ctx::showk(key), crate::ctx::show(d)));
}

trait KeyExt {
    fn clone_key(&self, i: u64, r: &mut monref::Rng) -> [u64; 4];
}
impl KeyExt for monref::gen::Dict {
    fn clone_key(&self, i: u64, r: &mut monref::Rng) -> [u64; 4] {
        self.key(i, r)
    }
}

pub fn lits(ctx: &Ctx, max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = Vec::new();
    for l in &ctx.p.dict.lits {
        for m in [1u64, 2, 32] {
            let l = l.saturating_mul(m);
            if l > 64 && l <= max as u64 {
                v.push(l as usize);
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

pub fn inputs(ctx: &mut Ctx, zero: bool, f: Each) {
    let max = ctx.p.max;
    // 1: every length
    for len in 0..=2112usize.min(max) {
        for v in 0..6u64 {
            if ctx.sel(SECTION + (len as u64 * 8 + v)) {
                one(ctx, zero, if v < 3 { 8 } else { len as u64 % 9 }, STYLES[v as usize], len, f);
            }
        }
    }
    // 2: lengths around powers of two
    let mut k = 6;
    while (1usize << k) + 33 <= max && k <= 24 {
        for (di, dl) in DELTAS.iter().enumerate() {
            for v in 0..2u64 {
                if k > 20 && v > 0 {
                    continue;
                }
                if ctx.sel(2 * SECTION + (k as u64 * 16 + di as u64) * 2 + v) {
                    one(ctx, zero, 8, if v == 0 { 0 } else { 5 }, ((1i64 << k) + dl) as usize, f);
                }
            }
        }
        k += 1;
    }
    // 3: lengths around the integer literals in the source
    for l in lits(ctx, max.min(1 << 22)) {
        for (di, dl) in DELTAS.iter().enumerate() {
            if ctx.sel(3 * SECTION + l as u64 * 16 + di as u64) {
                one(ctx, zero, 8, 0, (l as i64 + dl) as usize, f);
            }
        }
    }
    // 4: every byte value at every position of a short message
    for len in 1..=64usize {
        for pos in 0..len {
            if ctx.sel(4 * SECTION + (len * 64 + pos) as u64) {
                let mut r = ctx.rng();
                let key = if zero { [0; 4] } else { ctx.p.dict.clone_key(r.below(12), &mut r) };
                let mut d = ctx.p.dict.data(r.below(10), len, key, &mut r);
                for b in 0..=255u8 {
                    d[pos] = b;
                    f(ctx, key, &d, b as u64);
                }
                note(ctx, key, &d);
                ctx.count("single-byte variations", 256);
            }
        }
    }
    // 5: single-bit keys and structured keys
    for bit in 0..512u64 {
        if !zero && ctx.sel(5 * SECTION + bit) {
            let mut r = ctx.rng();
            let mut key = [if bit < 256 { 0 } else { !0 }; 4];
            key[(bit % 256 / 64) as usize] ^= 1 << (bit % 64);
            for len in [0usize, 3, 8, 16, 19, 31, 32, 45, 64] {
                let d = ctx.p.dict.data(r.below(18), len, key, &mut r);
                note(ctx, key, &d);
                f(ctx, key, &d, bit);
            }
        }
    }
    // 6: the published vectors' inputs
    for n in 0..=64u64 {
        if !zero && ctx.sel(6 * SECTION + n) {
            let d: Vec<u8> = (0..n).map(|x| x as u8).collect();
            note(ctx, vectors::KEY, &d);
            f(ctx, vectors::KEY, &d, n);
        }
    }
    // 7: anything
    ctx.random(7, |ctx, r| {
        let key = if zero { [0; 4] } else { ctx.p.dict.clone_key(8, r) };
        let cap = if r.chance(1, 40) { max } else { max.min(4096) };
        let len = ctx.p.dict.len(cap, r);
        let s = r.u64();
        let d = ctx.p.dict.data(s, len, key, r);
        note(ctx, key, &d);
        let v = r.u64();
        f(ctx, key, &d, v);
    });
    // 8: packets steered to extreme states
    ctx.random(8, |ctx, r| {
        let key = if zero { [0; 4] } else { ctx.p.dict.clone_key(8, r) };
        let len = 32 * (1 + r.idx(6)) + if r.chance(1, 3) { r.idx(32) } else { 0 };
        let d = ctx.p.dict.steered(key, len.min(max), r);
        note(ctx, key, &d);
        ctx.count("inputs steered to extreme states", 1);
        let v = r.u64();
        f(ctx, key, &d, v);
    });
}
