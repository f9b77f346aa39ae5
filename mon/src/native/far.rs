//! C09: data and hashers around addresses that are special to arithmetic on them: powers of two, multiples of 4 GiB,
//! both ends of what a process can map.
use super::place::Ops;
use mon::ctx::{lib, showk, SECTION};
use mon::h::*;
use mon::{each, Ctx, H};
use std::os::raw::{c_int, c_void};

extern "C" {
    fn mmap(a: *mut c_void, n: usize, prot: c_int, flags: c_int, fd: c_int, off: isize) -> *mut c_void;
    fn munmap(a: *mut c_void, n: usize) -> c_int;
}

const SIDE: usize = 128 << 10;

/// Memory on both sides of an address.
struct Around {
    p: *mut u8,
    below: usize,
    n: usize,
}
impl Around {
    fn new(at: u64) -> Option<Around> {
        let mut side = SIDE;
        // less of it where the room is small
        while side >= 4096 {
            for (below, above) in [(side, side), (side, 0), (0, side)] {
                let Some(lo) = at.checked_sub(below as u64) else { continue };
                if at as u128 + above as u128 > usize::MAX as u128 || lo == 0 {
                    continue;
                }
                let lo = lo as usize;
                let p = unsafe { mmap(lo as *mut c_void, below + above, 3, 0x10_0022, -1, 0) };
                if p as isize == -1 {
                    continue;
                }
                if p as usize != lo {
                    unsafe { munmap(p, below + above) };
                    continue;
                }
                return Some(Around { p: p as *mut u8, below, n: below + above });
            }
            side /= 32;
        }
        None
    }
    /// the bytes, copied so that `split` of them are below the address (as far as there is room)
    fn put(&self, d: &[u8], split: usize) -> &[u8] {
        let from = (self.below.saturating_sub(split)).min(self.n - d.len());
        let s = unsafe { std::slice::from_raw_parts_mut(self.p.add(from), d.len()) };
        s.copy_from_slice(d);
        s
    }
}
impl Drop for Around {
    fn drop(&mut self) {
        unsafe { munmap(self.p as *mut c_void, self.n) };
    }
}

/// The hasher lives across the address.
fn across<T: Ops>(a: &Around, h: T, split: usize, d: &[u8], cut: usize, w: usize) -> R {
    let al = core::mem::align_of::<T>();
    let size = core::mem::size_of::<T>();
    let from = a.below.saturating_sub(split * al % (size + al)).min(a.n - size) / al * al;
    let p = unsafe { a.p.add(from) } as *mut T;
    unsafe { p.write(h) };
    let h = unsafe { &mut *p };
    lib(|| h.append(&d[..cut]));
    let _ = lib(|| h.checkpoint());
    let _ = h.fin_shared();
    lib(|| h.append(&d[cut..]));
    unsafe { p.read() }.wrap().fin(w)
}

pub fn far(ctx: &mut Ctx) {
    let ks = ctx.p.kinds.clone();
    let mut at: Vec<u64> = (16..=46).map(|k| 1u64 << k).collect();
    at.extend([3 << 30, 3 << 31, 3 << 32, 5 << 32, 7 << 40, 0x7f << 40, 0xffff_e000, 0x7fff_ffff_e000, 0x7fff_ffff_f000, (1 << 47) - (1 << 32), 3 << 45]);
    let mut lens: Vec<usize> = (1..=70).collect();
    lens.extend([95, 96, 97, 127, 128, 129, 160, 255, 256, 257, 511, 513, 1023, 1025, 2100, 3000, 4000]);
    for l in mon::inputs::lits(ctx, 100_000) {
        lens.extend([l - 1, l, l + 1, l + 33]);
    }
    lens.retain(|l| (1..120_000).contains(l));
    lens.sort();
    lens.dedup();
    for (ai, b) in at.iter().enumerate() {
        let Some(a) = Around::new(*b) else {
            ctx.count("special addresses that were taken", 1);
            continue;
        };
        ctx.count("special addresses with memory around them", 1);
        for (li, len) in lens.iter().enumerate() {
            if *len > a.n {
                continue;
            }
            for (ki, k) in ks.iter().enumerate() {
                if !ctx.sel(SECTION + ((ai * 512 + li) * 8 + ki) as u64) {
                    continue;
                }
                let mut r = ctx.rng();
                let key = [r.u64(), r.u64(), r.u64(), r.u64()];
                let d = ctx.p.dict.data(li as u64 % 3, *len, key, &mut r);
                for round in 0..3 {
                    let w = r.idx(3);
                    // bytes that are pending before; where the address lies
                    let fill = [0, r.idx(32), r.idx(len + 1)][round].min(*len);
                    let split = match r.idx(4) {
                        0 => *len,
                        1 => 0,
                        2 => r.idx(len + 1),
                        _ => (fill + 32 * r.idx(len / 32 + 1)).min(*len),
                    };
                    let mut x = H::new(*k, key, 0);
                    x.append(&d[..fill]);
                    let want = x.hash(w, &d[fill..]);
                    let s = a.put(&d, split);
                    let mut x = H::new(*k, key, 1);
                    x.append(&d[..fill]);
                    let got = x.hash(w, &s[fill..]);
                    ctx.count("inputs around special addresses compared", 1);
                    if got != want {
                        ctx.fail(format!("{:?}: {} bytes, {} of them below the address {:#x}, {} appended before from elsewhere: key {} width {}: {:x?} elsewhere {:x?}", k, len, split, b, fill, showk(key), WIDTHS[w], got, want));
                    }
                    let h = H::new(*k, key, 0);
                    let got = each!(h, h0 => across(&a, h0, split, &d, fill, w));
                    ctx.count("hashers around special addresses compared", 1);
                    if got != want {
                        ctx.fail(format!("{:?} living around the address {:#x} ({}): {} + {} bytes: key {} width {}: {:x?} elsewhere {:x?}", k, b, split, fill, len - fill, showk(key), WIDTHS[w], got, want));
                    }
                }
                ctx.seen(1 << 43 | ((ai * 512 + li) * 8 + ki) as u64);
            }
        }
    }
}
