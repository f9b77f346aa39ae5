//! Pages, and inputs larger than 4 GiB.
use mon::ctx::{showk, SECTION};
use mon::h::*;
use mon::{Ctx, H};
use std::os::raw::{c_int, c_void};

extern "C" {
    fn mmap(a: *mut c_void, n: usize, prot: c_int, flags: c_int, fd: c_int, off: isize) -> *mut c_void;
    fn mprotect(a: *mut c_void, n: usize, prot: c_int) -> c_int;
    fn munmap(a: *mut c_void, n: usize) -> c_int;
    fn memfd_create(name: *const std::os::raw::c_char, flags: u32) -> c_int;
    fn ftruncate(fd: c_int, n: isize) -> c_int;
    fn close(fd: c_int) -> c_int;
    fn sysconf(n: c_int) -> std::os::raw::c_long;
}

pub fn page() -> usize {
    unsafe { sysconf(30) as usize }
}

/// Usable pages between two unmapped ones.
pub struct Pages {
    base: *mut u8,
    n: usize,
    page: usize,
}
impl Pages {
    pub fn new(len: usize) -> Pages {
        let page = page();
        let n = (len + page - 1) / page * page;
        unsafe {
            let p = mmap(std::ptr::null_mut(), n + 2 * page, 0, 0x22, -1, 0);
            assert!(p as isize != -1, "mmap failed");
            let base = (p as *mut u8).add(page);
            assert!(mprotect(base as *mut c_void, n, 3) == 0, "mprotect failed");
            Pages { base, n, page }
        }
    }
    pub fn all(&self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.base, self.n) }
    }
    pub fn len(&self) -> usize {
        self.n
    }
    pub fn ptr(&self) -> *mut u8 {
        self.base
    }
}
impl Drop for Pages {
    fn drop(&mut self) {
        unsafe { munmap(self.base.sub(self.page) as *mut c_void, self.n + 2 * self.page) };
    }
}

/// `total` bytes that repeat a pattern of `piece` bytes which is in memory once.
pub struct Repeat {
    p: *mut u8,
    total: usize,
}
impl Repeat {
    pub fn new(total: usize, piece: usize, seed: u64) -> Option<Repeat> {
        unsafe {
            let fd = memfd_create(b"m\0".as_ptr() as *const _, 0);
            if fd < 0 || ftruncate(fd, piece as isize) != 0 {
                return None;
            }
            let n = (total + piece - 1) / piece * piece;
            let p = mmap(std::ptr::null_mut(), n, 0, 0x4022, -1, 0) as *mut u8;
            if p as isize == -1 {
                return None;
            }
            let mut at = 0;
            while at < n {
                if mmap(p.add(at) as *mut c_void, piece, 3, 0x11, fd, 0) as isize == -1 {
                    return None;
                }
                at += piece;
            }
            close(fd);
            monref_fill(std::slice::from_raw_parts_mut(p, piece), seed);
            Some(Repeat { p, total })
        }
    }
    pub fn get(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.p, self.total) }
    }
}
fn monref_fill(b: &mut [u8], seed: u64) {
    mon::monref::Rng::new(seed, 7, 7).fill(b);
}

/// One input of more than 4 GiB per type: against the specification, portable, and itself in chunks.
/// `p.n` bit 0: the specification, bit 1: portable against the others, bit 2: chunks.
pub fn giant(ctx: &mut Ctx) {
    if usize::BITS < 64 {
        ctx.count("address space too small", 1);
        return;
    }
    let what = ctx.p.n;
    if what & 16 != 0 {
        // checkpoints after appends of 2^31, 2^32 bytes and a little more or less
        let mut r = mon::monref::Rng::new(ctx.p.seed, 17, 18);
        let n = (1u64 << 32) as usize;
        let Some(m) = Repeat::new(n + 200, 1 << 24, ctx.p.seed) else {
            ctx.count("no address space for a giant input", 1);
            return;
        };
        let sizes = [n / 2 + r.idx(90), n + r.idx(31), n + 31 + r.idx(90)];
        mon::w_big::canon_of(ctx, m.get(), &sizes, 2, 9);
        return;
    }
    if what & 8 != 0 {
        giant_writes(ctx);
        return;
    }
    let mut r = mon::monref::Rng::new(ctx.p.seed, 11, 12);
    let extra = 70 + r.idx(90);
    let total = (1u64 << 32) as usize + extra;
    let Some(m) = Repeat::new(total, 1 << 24, ctx.p.seed) else {
        ctx.count("no address space for a giant input", 1);
        return;
    };
    let d = m.get();
    let key = [r.u64(), r.u64(), r.u64(), r.u64()];
    let w = r.idx(3);
    if !ctx.sel(SECTION) {
        return;
    }
    ctx.max("longest input", total as u64);
    ctx.seen(total as u64);
    ctx.sample(|| format!("one slice of {} bytes, key {}", total, showk(key)));
    let fill = 1 + r.idx(31);
    let ks = ctx.p.kinds.clone();
    enum What {
        Spec(R),
        One(Kind, R),
        Chunked(Kind, R),
    }
    let mut res = Vec::new();
    std::thread::scope(|s| {
        let mut ts = Vec::new();
        if what & 1 != 0 {
            ts.push(s.spawn(move || {
                let mut m = mon::monref::Model::new(key);
                m.append(d);
                What::Spec(split(m.all())[w])
            }));
        }
        for k in ks {
            if what & 3 != 0 && (what & 2 != 0 || k == P) || what & 4 != 0 {
                ts.push(s.spawn(move || What::One(k, H::new(k, key, 0).hash(w, d))));
            }
            if what & 4 != 0 {
                ts.push(s.spawn(move || {
                    // a short chunk, a giant one at a nonzero fill, the rest
                    let mut h = H::new(k, key, 0);
                    h.append(&d[..fill]);
                    h.append(&d[fill..d.len() - 2]);
                    h.append(&d[d.len() - 2..]);
                    What::Chunked(k, h.fin(w))
                }));
                // a chunk of just 2^32 bytes, and a little more, at a nonzero fill and at none
                for (a, j) in [(fill, 0), (fill, 1 + fill % 7), (fill, 32 - fill), (0, 0), (0, 1 + fill % 30)] {
                    if k != P && j != 1 + fill % 7 && (a + j + k as usize) % 3 != 0 {
                        continue;
                    }
                    ts.push(s.spawn(move || {
                        let mut h = H::new(k, key, 0);
                        h.append(&d[..a]);
                        let m = a + (1u64 << 32) as usize + j;
                        h.append(&d[a..m]);
                        h.append(&d[m..]);
                        What::Chunked(k, h.fin(w))
                    }));
                }
                ts.push(s.spawn(move || {
                    let mut h = H::new(k, key, 0);
                    for c in d.chunks((1 << 20) + 7) {
                        h.append(c);
                    }
                    What::Chunked(k, h.fin(w))
                }));
            }
        }
        for t in ts {
            match t.join() {
                Ok(x) => res.push(x),
                Err(_) => std::process::exit(101),
            }
        }
    });
    let portable = res.iter().find_map(|x| match x {
        What::One(P, r) => Some(*r),
        _ => None,
    });
    for x in &res {
        let (name, got, want) = match x {
            What::Spec(r) => ("specification".to_string(), *r, if what & 1 != 0 { portable.unwrap_or(*r) } else { *r }),
            What::One(k, r) => (format!("{:?}", k), *r, if what & 2 != 0 { portable.unwrap_or(*r) } else { *r }),
            What::Chunked(k, r) => {
                let one = res.iter().find_map(|x| match x {
                    What::One(j, r) if j == k => Some(*r),
                    _ => None,
                });
                (format!("{:?} in chunks", k), *r, one.unwrap_or(*r))
            }
        };
        ctx.count("giant results compared", 1);
        if got != want {
            ctx.fail(format!("{} bytes (pattern of 2^24 repeated), key {} width {}: {} {:x?} other side {:x?}", total, showk(key), WIDTHS[w], name, got, want));
        }
    }
}

/// Single writes of more than 4 GiB through the adapters: consumed whole, reported whole.
fn giant_writes(ctx: &mut Ctx) {
    let mut r = mon::monref::Rng::new(ctx.p.seed, 15, 16);
    let total = (1u64 << 32) as usize + 64 + r.idx(64);
    let Some(m) = Repeat::new(total, 1 << 24, ctx.p.seed) else {
        ctx.count("no address space for a giant input", 1);
        return;
    };
    let d = m.get();
    let key = [r.u64(), r.u64(), r.u64(), r.u64()];
    if !ctx.sel(SECTION) {
        return;
    }
    ctx.max("longest input", total as u64);
    ctx.seen(total as u64 ^ 8);
    let ks = ctx.p.kinds.clone();
    let bad: Vec<Option<String>> = std::thread::scope(|s| {
        let mut ts = Vec::new();
        for k in ks {
            if !H::new(k, key, 0).has_std() {
                continue;
            }
            let fills = [0usize, 1 + r.idx(31)];
            let ways: &[usize] = if cfg!(feature = "hwstd") { &[0, 1, 2] } else { &[0] };
            for w in ways.iter().copied() {
                let a = fills[(w + k as usize) % 2];
                // just 2^32, below it, above it
                let n = ((1u64 << 32) as usize).wrapping_sub(2).wrapping_add([0, 1, 2, 3, 2 + r.idx(60)][(w * 2 + k as usize) % 5]);
                ts.push(s.spawn(move || {
                    let mut h = H::new(k, key, 0);
                    h.append(&d[..a]);
                    let b = &d[a..(a + n).min(d.len())];
                    #[allow(unused_mut)]
                    let mut said = b.len();
                    match w {
                        0 => h.hwrite(b),
                        #[cfg(feature = "hwstd")]
                        1 => {
                            said = match mon::ctx::lib(|| mon::each_std!(&mut h, h => std::io::Write::write(h, b), Ok(b.len()))) {
                                Ok(n) => n,
                                Err(e) => return Some(format!("{:?}: write of {} bytes failed: {}", k, b.len(), e)),
                            }
                        }
                        #[cfg(feature = "hwstd")]
                        _ => {
                            if let Err(e) = mon::ctx::lib(|| mon::each_std!(&mut h, h => std::io::Write::write_all(h, b), Ok(()))) {
                                return Some(format!("{:?}: write_all of {} bytes failed: {}", k, b.len(), e));
                            }
                        }
                        #[cfg(not(feature = "hwstd"))]
                        _ => {}
                    }
                    if said != b.len() {
                        return Some(format!("{:?}: write of {} bytes at fill {} reported {}", k, b.len(), a, said));
                    }
                    let f = h.finish();
                    let mut q = H::new(k, key, 0);
                    for c in d[..a + b.len()].chunks((1 << 20) + 7) {
                        q.append(c);
                    }
                    let want = q.fin(0)[0];
                    if f != Some(want) {
                        return Some(format!("{:?}: key {}: finish after {} bytes and one {} of {} bytes: {:x?} want {:x}", k, showk(key), a, ["Hasher::write", "write", "write_all"][w], b.len(), f, want));
                    }
                    None
                }));
            }
        }
        ts.into_iter().map(|t| t.join().unwrap_or_else(|_| std::process::exit(101))).collect()
    });
    for b in bad {
        ctx.count("giant writes compared", 1);
        if let Some(b) = b {
            ctx.fail(b);
        }
    }
}

/// More than 2^37 bytes (2^32 packets) through every type: against each other, in two different piece sizes.
pub fn huge(ctx: &mut Ctx) {
    let mut r = mon::monref::Rng::new(ctx.p.seed, 13, 14);
    let key = [r.u64(), r.u64(), r.u64(), r.u64()];
    let w = r.idx(3);
    if !ctx.sel(SECTION) {
        return;
    }
    let piece = 1usize << 16;
    let mut d = vec![0u8; piece];
    r.fill(&mut d);
    let tail = 1 + r.idx(31);
    let times = (1u64 << (37 - 16)) + 3;
    ctx.max("longest input", times * piece as u64 + tail as u64);
    ctx.seen(times);
    ctx.sample(|| format!("{} times {} bytes and {} more, key {}", times, piece, tail, showk(key)));
    let ks = ctx.p.kinds.clone();
    let d = &d;
    let res: Vec<(Kind, usize, R)> = std::thread::scope(|s| {
        let mut ts = Vec::new();
        for k in ks {
            for v in 0..2usize {
                ts.push(s.spawn(move || {
                    let mut h = H::new(k, key, 0);
                    if v == 0 {
                        for _ in 0..times {
                            h.append(d);
                        }
                        h.append(&d[..tail]);
                    } else {
                        // the same bytes, never aligned to the packets
                        h.append(&d[..7]);
                        for _ in 1..times {
                            h.append(&d[7..]);
                            h.append(&d[..7]);
                        }
                        h.append(&d[7..]);
                        h.append(&d[..tail]);
                    }
                    (k, v, h.fin(w))
                }));
            }
        }
        ts.into_iter().filter_map(|t| t.join().ok()).collect()
    });
    let first = res[0];
    for x in &res {
        ctx.count("huge results compared", 1);
        if x.2 != first.2 {
            ctx.fail(format!("{} bytes (2^16 bytes repeated), key {} width {}: {:?} {} {:x?}, {:?} {:x?}", times * piece as u64 + tail as u64, showk(key), WIDTHS[w], x.0, if x.1 == 0 { "in packets" } else { "off packets" }, x.2, first.0, first.2));
        }
    }
}
