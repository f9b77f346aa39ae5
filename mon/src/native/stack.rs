//! Operations on a small stack: what they need must not grow with the input or the history.
use mon::ctx::{showk, SECTION};
use mon::h::*;
use mon::{Ctx, H};

/// Enough for the harness and for any reasonable frame of the library in a debug build.
const STACK: usize = 192 << 10;
const SIZES: [usize; 6] = [0, 33, 4 << 10, 64 << 10, 1 << 20, 16 << 20];
const WAYS: u64 = 12;

fn deliver(h: H, way: u64, d: &[u8]) -> H {
    let mut h = h;
    let cut = d.len().min(7);
    match way {
        0..=3 => h.enter(way, d),
        4..=7 => {
            h.append(&d[..cut]);
            h.enter(way, &d[cut..]);
        }
        // many operations
        8 => d.iter().for_each(|b| h.append(std::slice::from_ref(b))),
        9 => d.chunks(997).for_each(|c| {
            h = H::restore(h.kind(), h.cp(), 0);
            h.append(c);
        }),
        10 => d.chunks(61).for_each(|c| {
            let o = h.clone();
            h.append(c);
            drop(std::mem::replace(&mut h, o));
            h.append(c);
        }),
        _ => d.chunks(31).for_each(|c| {
            h.hwrite(c);
            std::hint::black_box(h.finish());
        }),
    }
    h
}

pub fn stack(ctx: &mut Ctx) {
    let ks = ctx.p.kinds.clone();
    let dev = cfg!(debug_assertions);
    let mut r = mon::monref::Rng::new(ctx.p.seed, SECTION, 5);
    let all: Vec<u8> = (0..SIZES[5] + 40).map(|_| r.u64() as u8).collect();
    for (ki, k) in ks.iter().enumerate() {
        for (si, size) in SIZES.iter().enumerate() {
            for way in 0..WAYS {
                if way >= 8 && si == 5 || !ctx.sel(SECTION + (ki * 1000 + si * 100) as u64 + way) {
                    continue;
                }
                let mut r = ctx.rng();
                let key = [r.u64(), r.u64(), r.u64(), r.u64()];
                let n = if way >= 8 && dev { size / 4 } else { *size } + r.idx(40);
                let (d, c, w) = (&all[..n], r.u64(), r.idx(3));
                let want = {
                    let mut h = H::new(*k, key, c);
                    d.chunks(8192).for_each(|p| h.append(p));
                    h.fin(w)
                };
                let got = std::thread::scope(|s| {
                    let t = std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, || {
                        super::altstack();
                        let h = H::new(*k, key, c);
                        let got = if way == 0 && c & 64 != 0 { h.hash(w, d) } else { deliver(h, way, d).fin(w) };
                        mon::ctx::thread_done();
                        got
                    });
                    t.ok().map(|t| t.join().unwrap_or_else(|_| std::process::exit(101)))
                });
                let Some(got) = got else {
                    ctx.count("threads that could not be started", 1);
                    continue;
                };
                ctx.count("histories on a small stack", 1);
                ctx.max("longest input on a small stack", n as u64);
                ctx.seen(key[0]);
                if got != want {
                    ctx.fail(format!("{:?} on a stack of {} bytes: way {} key {} {} bytes width {}: {:x?}, in pieces of 8192 bytes {:x?}", k, STACK, way, showk(key), n, WIDTHS[w], got, want));
                }
            }
        }
    }
}
