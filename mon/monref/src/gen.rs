//! Keys, byte strings and chunkings. Everything is a function of the given generator.
use crate::model::{unlanes, unzip, Model};
use crate::rng::Rng;
use alloc::vec::Vec;

pub const WORDS: [u64; 30] = [
    0,
    !0,
    1,
    1 << 63,
    !0 >> 1,
    0xffff_ffff,
    0xffff_ffff_0000_0000,
    0x8000_0000,
    0x7fff_ffff,
    0x8000_0000_8000_0000,
    0x7fff_ffff_7fff_ffff,
    1 << 32,
    0x1_0000_0001,
    0x0101_0101_0101_0101,
    0x8080_8080_8080_8080,
    0x7f7f_7f7f_7f7f_7f7f,
    0x00ff_00ff_00ff_00ff,
    0xff00_ff00_ff00_ff00,
    0x0706_0504_0302_0100,
    0xfffe_fdfc_fbfa_f9f8,
    0xdbe6_d5d5_fe4c_ce2f,
    0xa409_3822_299f_31d0,
    0x1319_8a2e_0370_7344,
    0x243f_6a88_85a3_08d3,
    0x3bd3_9e10_cb0e_f593,
    0xc0ac_f169_b5f1_8a8c,
    0xbe54_66cf_34e9_0c6c,
    0x4528_21e6_38d0_1377,
    0x5555_5555_5555_5555,
    0xaaaa_aaaa_aaaa_aaaa,
];

#[derive(Clone, Default)]
pub struct Dict {
    /// integer literals found in the source of the crate under test
    pub lits: Vec<u64>,
}

impl Dict {
    pub fn word(&self, r: &mut Rng) -> u64 {
        match r.below(8) {
            0..=2 => WORDS[r.idx(WORDS.len())],
            3 if !self.lits.is_empty() => {
                let w = self.lits[r.idx(self.lits.len())];
                match r.below(4) {
                    0 => w.rotate_left(32),
                    1 => !w,
                    2 => w.swap_bytes(),
                    _ => w,
                }
            }
            4 => {
                let b = r.below(64);
                let w = 1u64 << b;
                match r.below(3) {
                    0 => w,
                    1 => !w,
                    _ => w.wrapping_sub(1),
                }
            }
            5 => {
                // an extreme half, a random half
                let a = WORDS[r.idx(WORDS.len())];
                let b = r.u64();
                if r.chance(1, 2) {
                    a & 0xffff_ffff | b << 32
                } else {
                    a & 0xffff_ffff_0000_0000 | b >> 32
                }
            }
            6 => {
                // few bits set
                r.u64() & r.u64() & r.u64() & r.u64()
            }
            _ => r.u64(),
        }
    }

    pub fn key(&self, i: u64, r: &mut Rng) -> [u64; 4] {
        let n = WORDS.len() as u64;
        match i {
            0 => [0; 4],
            1 => [1, 2, 3, 4],
            2 => crate::vectors::KEY,
            3 => [!0; 4],
            4 => [WORDS[20], WORDS[21], WORDS[22], WORDS[23]],
            5 => [WORDS[24], WORDS[25], WORDS[26], WORDS[27]],
            6 => {
                // v1 starts at zero
                let k = |w: u64| w.rotate_left(32);
                [k(WORDS[24]), k(WORDS[25]), k(WORDS[26]), k(WORDS[27])]
            }
            7 => [1 << 63; 4],
            _ => match r.below(8) {
                6 | 7 => {
                    // the state starts with extreme words
                    let m = Model::new([0; 4]);
                    let mut k = [0u64; 4];
                    for (i, x) in k.iter_mut().enumerate() {
                        let w = self.word(r);
                        *x = match r.below(6) {
                            0 => m.v0[i] ^ w,
                            1 => m.v0[i] ^ w.wrapping_sub(m.m1[i]),
                            2 => m.v0[i] ^ (w & !0 << 32 | (u32::MAX - r.below(34) as u32) as u64),
                            3 => (m.v1[i] ^ w).rotate_left(32),
                            4 => (m.v1[i] ^ w.wrapping_sub(m.m0[i])).rotate_left(32),
                            _ => r.u64(),
                        };
                    }
                    k
                }
                0 => [WORDS[r.below(n) as usize]; 4],
                1 => {
                    let mut k = [0; 4];
                    k[r.idx(4)] = 1 << r.below(64);
                    k
                }
                2 => {
                    let w = r.u64();
                    [w; 4]
                }
                3 => [self.word(r), self.word(r), self.word(r), self.word(r)],
                _ => [r.u64(), r.u64(), r.u64(), r.u64()],
            },
        }
    }

    /// Data in style `s` (any number).
    pub fn data(&self, s: u64, len: usize, key: [u64; 4], r: &mut Rng) -> Vec<u8> {
        let mut d = alloc::vec![0u8; len];
        match s % 18 {
            0 | 1 | 2 => r.fill(&mut d),
            // meaningful bytes before (or behind) a run of equal ones
            16 => {
                let n = if r.chance(1, 2) { r.idx(len + 1) } else { len - r.idx(len.min(33) + 1) };
                r.fill(&mut d[..n]);
                d[n..].fill([0, 0, 0, 0xff, b' '][r.idx(5)]);
            }
            17 => {
                let n = r.idx(len + 1);
                d[..n].fill([0, 0, 0xff, 0x80][r.idx(4)]);
                r.fill(&mut d[n..]);
            }
            3 => d.fill([0u8, 0xff, 0x80, 0x7f, 1, 0xfe][r.idx(6)]),
            4 => {
                let b = r.u64() as u8;
                for (i, x) in d.iter_mut().enumerate() {
                    *x = (i as u8).wrapping_add(b);
                }
            }
            5 => {
                r.fill(&mut d);
                for x in d.iter_mut() {
                    *x |= 0x80;
                }
            }
            6 => {
                r.fill(&mut d);
                for x in d.iter_mut() {
                    *x &= 0x7f;
                }
            }
            7 => {
                if len > 0 {
                    for _ in 0..1 + r.idx(3) {
                        let i = if r.chance(1, 2) {
                            len - 1 - r.idx(len.min(40))
                        } else {
                            r.idx(len)
                        };
                        d[i] = r.u64() as u8;
                    }
                }
            }
            8 => {
                for c in d.chunks_mut(8) {
                    let w = self.word(r).to_le_bytes();
                    c.copy_from_slice(&w[..c.len()]);
                }
            }
            9 => {
                let p = 1 + r.idx(33);
                let mut pat = [0u8; 40];
                r.fill(&mut pat);
                for (i, x) in d.iter_mut().enumerate() {
                    *x = pat[i % p];
                }
            }
            10 | 11 | 12 => return self.steered(key, len, r),
            13 => {
                for c in d.chunks_mut(4) {
                    let w = [0u32, !0, 1 << 31, !0 >> 1, 1][r.idx(5)].to_le_bytes();
                    c.copy_from_slice(&w[..c.len()]);
                }
            }
            14 => {
                for x in d.iter_mut() {
                    *x = b"abcdefghijklmnopqrstuvwxyz 0123456789\n"[r.idx(38)];
                }
            }
            _ => {
                r.fill(&mut d);
                // equal packets
                for i in 32..len {
                    if r.chance(15, 16) {
                        d[i] = d[i - 32];
                    }
                }
            }
        }
        d
    }

    /// Packets chosen so that the state after adding them holds extreme words (all ones, carries, sign bits).
    pub fn steered(&self, key: [u64; 4], len: usize, r: &mut Rng) -> Vec<u8> {
        let mut m = Model::new(key);
        let mut d = Vec::with_capacity(len + 32);
        let stop = (len / 32).min(24) * 32;
        while d.len() < stop {
            let mut w = [0u64; 4];
            for i in 0..4 {
                w[i] = match r.below(8) {
                    // v1 after both additions is the word
                    0..=4 => self
                        .word(r)
                        .wrapping_sub(m.v1[i])
                        .wrapping_sub(m.m0[i]),
                    // v1 after the first addition
                    5 => self.word(r).wrapping_sub(m.v1[i]),
                    6 => self.word(r),
                    _ => r.u64(),
                };
            }
            for i in [0, 2] {
                if r.chance(1, 3) {
                    // v0 after the round is the word (and close to carrying when a length is added)
                    let mut v = [0u64; 2];
                    for (j, x) in v.iter_mut().enumerate() {
                        let t = match r.below(4) {
                            0 => !0 << 32 | r.u64(),
                            1 => r.u64() << 32 | (u32::MAX - r.below(34) as u32) as u64,
                            _ => self.word(r),
                        };
                        *x = t.wrapping_sub(m.v0[i + j]).wrapping_sub(m.m1[i + j]);
                    }
                    let (a, b) = unzip(v[0], v[1]);
                    w[i] = a.wrapping_sub(m.v1[i]).wrapping_sub(m.m0[i]);
                    w[i + 1] = b.wrapping_sub(m.v1[i + 1]).wrapping_sub(m.m0[i + 1]);
                }
            }
            for i in [0, 2] {
                if r.chance(1, 4) {
                    self.next_multiplicand(&m, i, &mut w, r);
                }
            }
            m.round(w);
            d.extend_from_slice(&unlanes(&w));
        }
        let mut rest = alloc::vec![0u8; len - d.len()];
        if r.chance(1, 4) {
            rest.fill([0xff, 0x80, 0][r.idx(3)]);
        } else {
            r.fill(&mut rest);
        }
        d.extend_from_slice(&rest);
        d
    }

    /// Words `i` and `i + 1` of the packet, such that one of these lanes multiplies by an extreme low half
    /// (that of v0 plus mul1) in the round after the next.
    fn next_multiplicand(&self, m: &Model, i: usize, w: &mut [u64; 4], r: &mut Rng) {
        // v1 after both additions, by bytes
        let mut v = [r.u64(), r.u64()];
        let low = match r.below(3) {
            0 => 0,
            1 => self.word(r) as u32,
            _ => [1u32, !0, 1 << 31, !0 >> 1, 0xffff, 0xffff_0000, 0x1_0000][r.idx(7)],
        };
        let j = r.idx(2);
        let v0 = m.v0[i + j].wrapping_add(m.m1[i + j]);
        let mut ok = false;
        for x in 0..256u64 {
            // byte 5 of the lane is byte 3 of what the merge adds to it
            v[j] = v[j] & !(0xff << 40) | x << 40;
            let m1 = m.m1[i + j] ^ (v0 & 0xffff_ffff) * (v[j] >> 32);
            let t = low.wrapping_sub(m1 as u32).wrapping_sub(v0 as u32).to_le_bytes();
            if t[3] as u64 == x {
                v[j] = v[j] & !0xffff_0000 | (t[0] as u64) << 24 | (t[2] as u64) << 16;
                v[1 - j] = v[1 - j] & !(0xff << 32) | (t[1] as u64) << 32;
                ok = true;
                break;
            }
        }
        if ok {
            for k in 0..2 {
                w[i + k] = v[k].wrapping_sub(m.v1[i + k]).wrapping_sub(m.m0[i + k]);
            }
        }
    }

    /// A length drawn from everything that might matter.
    pub fn len(&self, max: usize, r: &mut Rng) -> usize {
        let l = match r.below(10) {
            0..=2 => r.idx(100),
            3..=4 => r.idx(33),
            5 => r.idx(600),
            6 => {
                let k = r.below(24);
                let d = [0i64, 1, -1, 7, 15, 16, 31, 32, 33][r.idx(9)];
                ((1i64 << k) + d).max(0) as usize
            }
            7 => 32 * r.idx(80),
            8 if !self.lits.is_empty() => {
                let w = self.lits[r.idx(self.lits.len())];
                (w as i64 % (1 << 32)).wrapping_add([0, 1, -1, 31, 32][r.idx(5)]).clamp(0, i32::MAX as i64) as usize
            }
            _ => r.idx(3000),
        };
        if l > max {
            r.idx(max + 1)
        } else {
            l
        }
    }

    /// Chunk lengths with the given sum (empty ones included).
    pub fn chunks(&self, len: usize, r: &mut Rng) -> Vec<usize> {
        let mut v = Vec::new();
        let style = r.below(8);
        let mut left = len;
        while left > 0 {
            let fill = (len - left) % 32;
            let c = match style {
                0 => left,
                1 => 1,
                2 => 1 + r.idx(40),
                3 => [32 - fill, 31usize.saturating_sub(fill), 33 - fill, 64 - fill, 96 - fill, 95 - fill][r.idx(6)],
                4 => 1 + r.idx(left),
                5 => [1, 2, 3, 4, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 96, 128, 256][r.idx(18)],
                6 => self.len(left, r),
                _ => [0, 0, 1, 32 - fill, 5][r.idx(5)],
            }
            .min(left);
            if r.chance(1, 8) {
                v.push(0);
            }
            if c > 0 || r.chance(1, 4) {
                v.push(c);
            }
            left -= c;
            if v.len() > 4000 {
                v.push(left);
                break;
            }
        }
        if r.chance(1, 4) {
            v.push(0);
        }
        v
    }

    /// Checkpoint bytes with an arbitrary state and the given count.
    pub fn state(&self, count: u32, r: &mut Rng) -> [u8; 164] {
        let mut c = [0u8; 164];
        let style = r.below(6);
        for i in 0..16 {
            let w = match style {
                0 => 0,
                1 => !0,
                2 => WORDS[r.idx(WORDS.len())],
                3 | 4 => self.word(r),
                _ => r.u64(),
            };
            c[8 * i..8 * i + 8].copy_from_slice(&w.to_le_bytes());
        }
        if r.chance(1, 3) {
            // the first round of a finalisation, or of a packet of zeros, meets extreme words
            let g = |c: &[u8; 164], i: usize| u64::from_le_bytes(c[8 * i..8 * i + 8].try_into().unwrap());
            let perm = r.chance(1, 2);
            for i in 0..4 {
                let (a, b) = (self.word(r), self.word(r));
                // v0 + mul1, then v1 + packet + mul0
                if r.chance(1, 2) {
                    let x = a.wrapping_sub(g(&c, 12 + i));
                    c[8 * i..8 * i + 8].copy_from_slice(&x.to_le_bytes());
                }
                if r.chance(2, 3) {
                    let p = if perm { g(&c, [2, 3, 0, 1][i]).rotate_left(32) } else { 0 };
                    let x = b.wrapping_sub(g(&c, 8 + i)).wrapping_sub(p);
                    c[32 + 8 * i..40 + 8 * i].copy_from_slice(&x.to_le_bytes());
                }
            }
        }
        match r.below(5) {
            0 => {}
            1 => c[128..160].fill([0xff, 0x80, 1][r.idx(3)]),
            _ => r.fill(&mut c[128..160]),
        }
        c[160..].copy_from_slice(&count.to_le_bytes());
        c
    }

    pub fn count(&self, i: u64, r: &mut Rng) -> u32 {
        const C: [u32; 28] = [
            32,
            33,
            31,
            63,
            64,
            65,
            95,
            96,
            255,
            256,
            257,
            287,
            288,
            0xffff,
            0x1_0000,
            0x1_0001,
            0x1_001f,
            0x1_0020,
            1 << 31,
            (1 << 31) + 1,
            (1 << 31) + 31,
            (1 << 31) - 1,
            u32::MAX,
            u32::MAX - 1,
            u32::MAX - 31,
            u32::MAX - 32,
            0x2000_0000,
            0x0100_0000,
        ];
        if i < 32 {
            i as u32
        } else if i < 60 {
            C[(i - 32) as usize]
        } else {
            match r.below(5) {
                0 => r.below(32) as u32,
                1 => 1 << r.below(32),
                2 => self.word(r) as u32,
                3 => (1u32 << r.below(32)).wrapping_add(r.below(33) as u32),
                _ => r.u64() as u32,
            }
        }
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn steered_v0() {
        // at least some packets leave v0 lanes close to a carry
        let d = Dict::default();
        let mut near = 0;
        for i in 0..1000 {
            let mut r = Rng::new(i, 0, 0);
            let key = d.key(8, &mut r);
            let mut m = Model::new(key);
            m.append(&d.steered(key, 96, &mut r));
            near += m.v0.iter().filter(|x| **x as u32 > u32::MAX - 34).count();
        }
        assert!(near > 150, "{}", near);
    }
    #[test]
    fn multiplicands() {
        // both multiplicands meet zero low halves
        let d = Dict::default();
        let mut hit = [0; 2];
        for i in 0..1000 {
            let mut r = Rng::new(i, 0, 0);
            let key = d.key(8, &mut r);
            let b = d.steered(key, 160, &mut r);
            let mut m = Model::new(key);
            for p in b.chunks_exact(32) {
                let w = crate::model::lanes(p.try_into().unwrap());
                for i in 0..4 {
                    hit[0] += (m.v1[i].wrapping_add(w[i]).wrapping_add(m.m0[i]) as u32 == 0) as u32;
                    hit[1] += (m.v0[i].wrapping_add(m.m1[i]) as u32 == 0) as u32;
                }
                m.append(p);
            }
        }
        assert!(hit[0] > 100 && hit[1] > 100, "{:?}", hit);
    }
}
