//! Everything the library may touch in an allocation of exactly its size: for the tools that watch memory (Miri, sanitizers, valgrind).
use crate::ctx::{lib, Ctx, SECTION};
use crate::h::*;
use crate::each;
use alloc::boxed::Box;
use alloc::format;
use highway::HighwayHash;
use monref::rng::{mix, Rng};

fn key(ctx: &Ctx, r: &mut Rng) -> [u64; 4] {
    let i = r.below(40);
    ctx.p.dict.key(i, r)
}

fn case(ctx: &mut Ctx, r: &mut Rng, fill: usize, len: usize) {
    let key = key(ctx, r);
    let d = ctx.p.dict.data(r.below(18), fill + len, key, r);
    let head: Box<[u8]> = d[..fill].into();
    let tail: Box<[u8]> = d[fill..].into();
    let all: Box<[u8]> = d[..].into();
    let e = r.below(4);
    let mut p = H::new(P, key, 0);
    p.append(&all);
    let cp = p.cp();
    let want = [p.clone().fin(0), p.clone().fin(1), p.fin(2)];
    for k in ctx.p.kinds.clone() {
        // the hasher itself, as the type it is and not inside of a larger one
        let (got, c, again, once): ([R; 3], [u8; 164], R, R) = each!(H::new(k, key, r.below(2)), h => {
            let mut b = Box::new(h);
            lib(|| b.append(&head));
            lib(|| b.append(&tail));
            let c: Box<[u8; 164]> = Box::new(lib(|| b.checkpoint()));
            let x = H::restore(k, *c, r.below(2));
            let y = H::new(k, key, 0);
            let n = lib(|| (*b).clone().finalize64());
            let q = lib(|| (*b).clone().finalize128());
            let o = lib(|| b.finalize256());
            ([[n, 0, 0, 0], [q[0], q[1], 0, 0], o], *c, x.fin(2), y.hash(2, &all))
        });
        // through the other entry points
        let mut z = H::new(k, key, 0);
        z.enter(e, &head);
        z.enter(e + 1, &tail);
        let z = z.fin(2);
        ctx.count("histories on exact allocations", 1);
        ctx.seen(mix(k as u64 ^ (fill as u64) << 8 ^ (len as u64) << 16));
        if got != want || c != cp || again != got[2] || once != got[2] || z != got[2] {
            ctx.fail(format!("{:?}: {} bytes, then {}: results {:x?}, restored {:x?}, at once {:x?}, written {:x?}; portable {:x?}", k, fill, len, got, again, once, z, want));
        }
    }
}

pub fn exact(ctx: &mut Ctx) {
    for len in 0..=100usize {
        if ctx.sel_always(SECTION + len as u64) {
            let mut r = ctx.rng();
            case(ctx, &mut r, 0, len);
        }
    }
    for fill in 1..=32usize {
        for len in 0..=66usize {
            if ctx.sel(2 * SECTION + (fill * 128 + len) as u64) {
                let mut r = ctx.rng();
                case(ctx, &mut r, fill, len);
            }
        }
    }
    let max = ctx.p.max.max(200);
    ctx.random(3, |ctx, r| {
        let a = if r.chance(1, 2) { r.idx(40) } else { ctx.p.dict.len(max, r) };
        let b = ctx.p.dict.len(max, r);
        case(ctx, r, a, b);
    });
}

/// Reads one byte too far: what watches memory has to stop this process.
pub fn overread(_: &mut Ctx) {
    let d: Box<[u8]> = alloc::vec![1u8; 33].into();
    let x = unsafe { core::ptr::read_volatile(core::hint::black_box(d.as_ptr()).add(33)) };
    crate::ctx::out(&format!("UNNOTICED {}\n", x));
}
