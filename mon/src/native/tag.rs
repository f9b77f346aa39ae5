//! C09 on aarch64: inputs and hashers in tagged memory (MTE). Every access outside of the bytes given, to the next 16
//! bytes or to anything else, faults, wherever the page borders are.
use super::place::Ops;
use mon::ctx::{lib, showk, SECTION};
use mon::h::*;
use mon::{each, Ctx, H};
use std::arch::asm;
use std::os::raw::{c_int, c_ulong, c_void};

extern "C" {
    fn mmap(a: *mut c_void, n: usize, prot: c_int, flags: c_int, fd: c_int, off: isize) -> *mut c_void;
    fn prctl(op: c_int, a: c_ulong, b: c_ulong, c: c_ulong, d: c_ulong) -> c_int;
    fn fork() -> c_int;
    fn waitpid(p: c_int, s: *mut c_int, o: c_int) -> c_int;
    fn signal(s: c_int, h: usize) -> usize;
    fn _exit(c: c_int) -> !;
}

const N: usize = 65536;
const OTHER: usize = 5;
const DATA: usize = 3;
const HASHER: usize = 9;

extern "C" fn caught(_: c_int) {
    unsafe { _exit(9) }
}

struct Tagged {
    base: usize,
}

unsafe fn paint(at: usize, n: usize, tag: usize) {
    let mut a = at & !15;
    while a < at + n {
        let t = a | tag << 56;
        asm!(".arch_extension memtag", "stg {0}, [{0}]", in(reg) t);
        a += 16;
    }
}

impl Tagged {
    fn new() -> Option<Tagged> {
        unsafe {
            // tagged addresses, synchronous faults
            if prctl(55, 1 | 1 << 1 | 0xfffe << 3, 0, 0, 0) != 0 {
                return None;
            }
            let p = mmap(std::ptr::null_mut(), N, 3 | 0x20, 0x22, -1, 0);
            if p as isize == -1 {
                return None;
            }
            let t = Tagged { base: p as usize };
            paint(t.base, N, OTHER);
            // does it notice? a child reads one byte too many
            let c = fork();
            if c == 0 {
                signal(11, caught as *const () as usize);
                let s = t.put(&[1; 32], 512);
                std::hint::black_box(std::ptr::read_volatile(s.as_ptr().add(32)));
                _exit(0);
            }
            let mut st = 0;
            if c < 0 || waitpid(c, &mut st, 0) != c || st != 9 << 8 {
                return None;
            }
            Some(t)
        }
    }
    fn put(&self, d: &[u8], off: usize) -> &[u8] {
        unsafe {
            let at = self.base + off;
            paint(at, d.len(), DATA);
            let p = (at | (if d.is_empty() { OTHER } else { DATA }) << 56) as *mut u8;
            for (i, b) in d.iter().enumerate() {
                p.add(i).write_volatile(*b);
            }
            std::slice::from_raw_parts(p, d.len())
        }
    }
    fn drop(&self, s: &[u8]) {
        unsafe { paint(s.as_ptr() as usize & !(0xff << 56), s.len(), OTHER) }
    }
    /// Where n bytes have to start to end at a border, or to start at one.
    fn spot(&self, n: usize, end: bool, r: &mut mon::monref::Rng) -> usize {
        // also near a page border now and then
        let b = if r.chance(1, 4) { 4096 * (1 + r.idx(3)) } else { 1024 + 16 * r.idx(1000) };
        let b = b.min(N - 2 * 16384) + 16384;
        if end {
            (b + n + 15) / 16 * 16 - n
        } else {
            b
        }
    }
}

fn run<T: Ops>(t: &Tagged, h: T, chunks: &[&[u8]], ends: u64, w: usize, bits: u64, r: &mut mon::monref::Rng) -> (R, [u8; 164]) {
    let size = std::mem::size_of::<T>();
    // at the end of what is its own, if its size allows
    let at = t.base + 256 + 16 * r.idx(64);
    let at = at / std::mem::align_of::<T>() * std::mem::align_of::<T>();
    unsafe { paint(at, size, HASHER) };
    let p = (at | HASHER << 56) as *mut T;
    unsafe { p.write(h) };
    let h = unsafe { &mut *p };
    for (i, c) in chunks.iter().enumerate() {
        let s = t.put(c, t.spot(c.len(), ends >> (i % 60) & 1 == 0, r));
        lib(|| h.append(s));
        t.drop(s);
        match bits >> (2 * (i % 30)) & 7 {
            0 => {
                let _ = lib(|| h.checkpoint());
            }
            1 => {
                let _ = h.fin_shared();
            }
            2 => {
                let mut x = Text::new();
                let _ = lib(|| core::fmt::Write::write_fmt(&mut x, format_args!("{:?}", h)));
            }
            3 => {
                let c = lib(|| h.clone());
                unsafe { (h as *mut T).write(c) };
            }
            _ => {}
        }
    }
    let cp = lib(|| h.checkpoint());
    let h = unsafe { p.read() };
    unsafe { paint(at, size, OTHER) };
    (h.wrap().fin(w), cp)
}

pub fn tagged(ctx: &mut Ctx) {
    let Some(t) = Tagged::new() else {
        ctx.count("no memory tagging here", 1);
        return;
    };
    ctx.count("memory tagging notices a read one byte too far", 1);
    let ks = ctx.p.kinds.clone();
    // 1: one-shot, every length, both borders
    for len in 0..=300usize {
        for (ki, k) in ks.iter().enumerate() {
            if !ctx.sel(SECTION + (len * 8 + ki) as u64) {
                continue;
            }
            let mut r = ctx.rng();
            let i = r.below(20);
            let key = ctx.p.dict.key(i, &mut r);
            let d = ctx.p.dict.data(0, len, key, &mut r);
            for end in [true, false] {
                let w = r.idx(3);
                let want = H::new(*k, key, 0).hash(w, &d);
                let s = t.put(&d, t.spot(len, end, &mut r));
                let got = H::new(*k, key, 0).hash(w, s);
                t.drop(s);
                ctx.count("inputs between other tags", 1);
                if got != want {
                    ctx.fail(format!("{:?}: {} bytes in tagged memory: {:x?} elsewhere {:x?}; key {}", k, len, got, want, showk(key)));
                }
            }
            ctx.seen((len * 8 + ki) as u64);
        }
    }
    // 2: every (fill, chunk)
    for f in 0..=32usize {
        for c in 0..=70usize {
            for (ki, k) in ks.iter().enumerate() {
                if !ctx.sel(2 * SECTION + ((f * 128 + c) * 8 + ki) as u64) {
                    continue;
                }
                let mut r = ctx.rng();
                let key = [1, r.u64(), r.u64(), 4];
                let d = ctx.p.dict.data(0, f + c, key, &mut r);
                case(ctx, &t, *k, key, &[&d[..f], &d[f..]], None, &mut r);
            }
        }
    }
    // 3: histories, from any state
    ctx.random(3, |ctx, r| {
        let k = ks[r.idx(ks.len())];
        let i = r.below(40);
        let key = ctx.p.dict.key(i, r);
        let cap = if r.chance(1, 20) { 9000 } else { 300 };
        let len = ctx.p.dict.len(cap, r);
        let d = ctx.p.dict.data(0, len, key, r);
        let mut ch: Vec<&[u8]> = Vec::new();
        let mut at = 0;
        for c in ctx.p.dict.chunks(len, r) {
            ch.push(&d[at..at + c]);
            at += c;
        }
        let arb = if r.chance(1, 4) {
            let n = ctx.p.dict.count(99, r);
            Some(ctx.p.dict.state(n, r))
        } else {
            None
        };
        case(ctx, &t, k, key, &ch, arb, r);
    });
}

fn case(ctx: &mut Ctx, t: &Tagged, k: Kind, key: [u64; 4], ch: &[&[u8]], arb: Option<[u8; 164]>, r: &mut mon::monref::Rng) {
    let mk = || match arb {
        Some(c) => H::restore(k, c, 1),
        None => H::new(k, key, 1),
    };
    let w = r.idx(3);
    let (ends, bits) = (r.u64(), r.u64());
    let h = mk();
    let got = each!(h, h0 => run(t, h0, ch, ends, w, bits, r));
    let mut h = mk();
    for c in ch {
        h.append(c);
    }
    let want = (h.cp(), 0);
    let want = (h.fin(w), want.0);
    ctx.count("histories in tagged memory", 1);
    ctx.count("chunks between other tags", ch.len() as u64);
    let mut sig = k as u64 ^ ends << 8;
    for c in ch {
        sig = mon::monref::rng::mix(sig ^ c.len() as u64);
    }
    ctx.seen(sig);
    ctx.sample(|| format!("{:?} in tagged memory, chunks {:?}", k, ch.iter().map(|c| c.len()).take(12).collect::<Vec<_>>()));
    if got != want {
        ctx.fail(format!("{:?}: chunks {:?} in tagged memory: {:x?} elsewhere {:x?}; key {} arbitrary state {}", k, ch.iter().map(|c| c.len()).collect::<Vec<_>>(), got.0, want.0, showk(key), arb.is_some()));
    }
}
