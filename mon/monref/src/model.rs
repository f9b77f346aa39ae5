//! HighwayHash, written from its definition. Deliberately shaped unlike the crate: the zipper merge is a
//! byte permutation, the modular reduction is done on 128-bit integers, the input is consumed bytewise.

const MUL0: [u64; 4] = [
    0xdbe6d5d5fe4cce2f,
    0xa4093822299f31d0,
    0x13198a2e03707344,
    0x243f6a8885a308d3,
];
const MUL1: [u64; 4] = [
    0x3bd39e10cb0ef593,
    0xc0acf169b5f18a8c,
    0xbe5466cf34e90c6c,
    0x452821e638d01377,
];
/// byte i of a merged pair is byte ZIP[i] of the pair
const ZIP: [u8; 16] = [3, 12, 2, 5, 14, 1, 15, 0, 11, 4, 10, 13, 9, 6, 8, 7];

#[derive(Clone)]
pub struct Model {
    pub v0: [u64; 4],
    pub v1: [u64; 4],
    pub m0: [u64; 4],
    pub m1: [u64; 4],
    pub pend: [u8; 32],
    pub n: usize,
}

fn zip(lo: u64, hi: u64) -> (u64, u64) {
    let pair = lo as u128 | (hi as u128) << 64;
    let src = pair.to_le_bytes();
    let mut dst = [0u8; 16];
    for i in 0..16 {
        dst[i] = src[ZIP[i] as usize];
    }
    let r = u128::from_le_bytes(dst);
    (r as u64, (r >> 64) as u64)
}

/// The pair that zips to the given one.
pub fn unzip(lo: u64, hi: u64) -> (u64, u64) {
    let dst = (lo as u128 | (hi as u128) << 64).to_le_bytes();
    let mut src = [0u8; 16];
    for i in 0..16 {
        src[ZIP[i] as usize] = dst[i];
    }
    let r = u128::from_le_bytes(src);
    (r as u64, (r >> 64) as u64)
}

fn swap32(x: u64) -> u64 {
    x << 32 | x >> 32
}

pub fn lanes(p: &[u8; 32]) -> [u64; 4] {
    let mut l = [0u64; 4];
    for (i, b) in p.iter().enumerate() {
        l[i / 8] |= (*b as u64) << (i % 8 * 8);
    }
    l
}

pub fn unlanes(l: &[u64; 4]) -> [u8; 32] {
    let mut p = [0u8; 32];
    for (i, b) in p.iter_mut().enumerate() {
        *b = (l[i / 8] >> (i % 8 * 8)) as u8;
    }
    p
}

impl Model {
    pub fn new(key: [u64; 4]) -> Model {
        let mut m = Model {
            v0: MUL0,
            v1: MUL1,
            m0: MUL0,
            m1: MUL1,
            pend: [0; 32],
            n: 0,
        };
        for i in 0..4 {
            m.v0[i] ^= key[i];
            m.v1[i] ^= swap32(key[i]);
        }
        m
    }

    /// One round with the given four words.
    pub fn round(&mut self, w: [u64; 4]) {
        for i in 0..4 {
            let v1 = self.v1[i].wrapping_add(w[i]).wrapping_add(self.m0[i]);
            self.m0[i] ^= (v1 & 0xffff_ffff) * (self.v0[i] >> 32);
            let v0 = self.v0[i].wrapping_add(self.m1[i]);
            self.m1[i] ^= (v0 & 0xffff_ffff) * (v1 >> 32);
            self.v0[i] = v0;
            self.v1[i] = v1;
        }
        for i in [0, 2] {
            let (a, b) = zip(self.v1[i], self.v1[i + 1]);
            self.v0[i] = self.v0[i].wrapping_add(a);
            self.v0[i + 1] = self.v0[i + 1].wrapping_add(b);
        }
        for i in [0, 2] {
            let (a, b) = zip(self.v0[i], self.v0[i + 1]);
            self.v1[i] = self.v1[i].wrapping_add(a);
            self.v1[i + 1] = self.v1[i + 1].wrapping_add(b);
        }
    }

    pub fn append(&mut self, mut data: &[u8]) {
        if self.n != 0 {
            while self.n < 32 && !data.is_empty() {
                self.pend[self.n] = data[0];
                self.n += 1;
                data = &data[1..];
            }
            if self.n < 32 {
                return;
            }
            self.round(lanes(&self.pend));
            self.n = 0;
        }
        let mut it = data.chunks_exact(32);
        for c in &mut it {
            let mut p = [0u8; 32];
            p.copy_from_slice(c);
            self.round(lanes(&p));
        }
        for b in it.remainder() {
            self.pend[self.n] = *b;
            self.n += 1;
        }
    }

    fn tail(&mut self) {
        let n = self.n;
        if n == 0 {
            return;
        }
        for i in 0..4 {
            self.v0[i] = self.v0[i].wrapping_add((n as u64) << 32 | n as u64);
            let (a, b) = (self.v1[i] as u32, (self.v1[i] >> 32) as u32);
            self.v1[i] = a.rotate_left(n as u32) as u64 | (b.rotate_left(n as u32) as u64) << 32;
        }
        let b = &self.pend[..n];
        let whole = n - n % 4;
        let mut p = [0u8; 32];
        p[..whole].copy_from_slice(&b[..whole]);
        if n >= 16 {
            p[28..].copy_from_slice(&b[n - 4..]);
        } else if n % 4 != 0 {
            p[16] = b[whole];
            p[17] = b[whole + n % 4 / 2];
            p[18] = b[n - 1];
        }
        self.n = 0;
        self.round(lanes(&p));
    }

    fn rounds(mut self, k: usize) -> Model {
        self.tail();
        for _ in 0..k {
            let v = self.v0;
            self.round([swap32(v[2]), swap32(v[3]), swap32(v[0]), swap32(v[1])]);
        }
        self
    }

    pub fn h64(self) -> u64 {
        let m = self.rounds(4);
        [m.v0[0], m.v1[0], m.m0[0], m.m1[0]]
            .iter()
            .fold(0, |a, x| x.wrapping_add(a))
    }

    pub fn h128(self) -> [u64; 2] {
        let m = self.rounds(6);
        let f = |i: usize| {
            m.v0[i]
                .wrapping_add(m.m0[i])
                .wrapping_add(m.v1[i + 2])
                .wrapping_add(m.m1[i + 2])
        };
        [f(0), f(1)]
    }

    pub fn h256(self) -> [u64; 4] {
        let m = self.rounds(10);
        let red = |i: usize| {
            let s = |a: u64, b: u64| a.wrapping_add(b);
            let top = (s(m.v1[i + 1], m.m1[i + 1]) & (!0 >> 2)) as u128;
            let x = top << 64 | s(m.v1[i], m.m1[i]) as u128;
            let init = (s(m.v0[i + 1], m.m0[i + 1]) as u128) << 64 | s(m.v0[i], m.m0[i]) as u128;
            init ^ x << 1 ^ x << 2
        };
        let (a, b) = (red(0), red(2));
        [a as u64, (a >> 64) as u64, b as u64, (b >> 64) as u64]
    }

    /// All widths in one array: [64, 128.., 256..]
    pub fn all(&self) -> [u64; 7] {
        let a = self.clone().h64();
        let b = self.clone().h128();
        let c = self.clone().h256();
        [a, b[0], b[1], c[0], c[1], c[2], c[3]]
    }
}
