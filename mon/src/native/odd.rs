//! Hashing at odd moments: inside of a Debug sink, in destructors of thread-locals, while unwinding, in a forked child,
//! in signal handlers that interrupt library calls, at exit. Other hashers are in the middle of something; nobody may notice.
use crate::{crashed, write};
use highway::HighwayBuildHasher;
use mon::ctx::{in_lib, lib, set_in_lib, showk, SECTION};
use mon::h::*;
use mon::{ctx, Ctx, H};
use std::cell::RefCell;
use std::hash::{BuildHasher, Hasher};
use std::os::raw::{c_int, c_void};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;

extern "C" {
    fn fork() -> c_int;
    fn waitpid(p: c_int, s: *mut c_int, o: c_int) -> c_int;
    fn atexit(f: extern "C" fn()) -> c_int;
    fn setitimer(w: c_int, n: *const [isize; 4], o: *mut c_void) -> c_int;
}

struct Known {
    kind: Kind,
    key: [u64; 4],
    data: &'static [u8],
    cut: usize,
    cp: [u8; 164],
    mid: Option<u64>,
    res: [R; 3],
    builder: HighwayBuildHasher,
}
static mut TABLE: &[Known] = &[];
static NESTED: AtomicUsize = AtomicUsize::new(0);
static HOT: AtomicUsize = AtomicUsize::new(0);
static STOP: AtomicBool = AtomicBool::new(false);
static LATE: Mutex<Vec<String>> = Mutex::new(Vec::new());

fn table() -> &'static [Known] {
    unsafe { TABLE }
}

fn compute(kind: Kind, key: [u64; 4], data: &'static [u8], cut: usize) -> Known {
    let mut h = H::new(kind, key, 0);
    h.append(&data[..cut]);
    let (cp, mid) = (h.cp(), h.finish());
    h.append(&data[cut..]);
    let res = [h.clone().fin(0), h.clone().fin(1), h.fin(2)];
    Known { kind, key, data, cut, cp, mid, res, builder: HighwayBuildHasher::new(highway::Key(key)) }
}

/// One history with a known outcome; no allocation, no panic of its own. What differs, if anything does.
fn again(i: usize) -> Option<&'static str> {
    let was = in_lib();
    let k = &table()[i % table().len()];
    let w = i / 7 % 3;
    let mut h = H::new(k.kind, k.key, (i / 3) as u64);
    h.enter(i as u64 / 5, &k.data[..k.cut]);
    let c = h.cp();
    let mid = h.finish();
    let mut t = Text::new();
    if i % 3 == 0 {
        let _ = h.debug(&mut t, i & 1 == 0);
    }
    let mut x = if i & 2 == 0 { H::restore(k.kind, c, 0) } else { h.clone() };
    x.append(&k.data[k.cut..]);
    h.enter(i as u64 / 11, &k.data[k.cut..]);
    let (a, b) = (x.fin(w), h.fin(w));
    let o = H::new(k.kind, k.key, 0).hash(w, k.data);
    let mut q = lib(|| k.builder.build_hasher());
    lib(|| q.write(k.data));
    let q = lib(|| q.finish());
    set_in_lib(was);
    if c != k.cp {
        return Some("checkpoint");
    }
    if mid != k.mid {
        return Some("finish");
    }
    if a != k.res[w] {
        return Some("result of the clone or the restored hasher");
    }
    if b != k.res[w] {
        return Some("result");
    }
    if o != k.res[w] {
        return Some("one-shot result");
    }
    if q != k.res[0][0] {
        return Some("result of a hasher handed out");
    }
    None
}

fn tell(i: usize, what: &str, when: &str) -> String {
    let k = &table()[i % table().len()];
    format!("{:?} key {} {} bytes, {} first: another {} {}", k.kind, showk(k.key), k.data.len(), k.cut, what, when)
}

// ---- sinks

struct Nosy<'a> {
    me: &'a H,
    at: usize,
    depth: u32,
    bad: Option<String>,
    calls: u64,
}
impl std::fmt::Write for Nosy<'_> {
    fn write_str(&mut self, _: &str) -> std::fmt::Result {
        set_in_lib(false);
        self.calls += 1;
        self.at += 1;
        if let Some(w) = again(self.at) {
            self.bad = Some(tell(self.at, w, "inside of a Debug sink"));
        }
        if self.calls == 2 || self.calls == 21 {
            std::hint::black_box(self.me.clone().fin(self.at % 3));
            std::hint::black_box(self.me.cp());
            self.me.finish();
            if self.depth > 0 {
                let mut n = Nosy { me: self.me, at: self.at * 3, depth: self.depth - 1, bad: None, calls: 0 };
                let _ = self.me.debug(&mut n, self.at & 1 == 0);
                self.bad = self.bad.take().or(n.bad);
            }
        }
        set_in_lib(true);
        Ok(())
    }
}

// ---- destructors

struct AtEnd(usize, &'static str);
impl Drop for AtEnd {
    fn drop(&mut self) {
        for i in self.0..self.0 + table().len() + 3 {
            if let Some(w) = again(i) {
                if let Ok(mut l) = LATE.lock() {
                    l.push(tell(i, w, self.1));
                }
                break;
            }
        }
        ctx::thread_done();
    }
}
std::thread_local! {
    static EARLY: RefCell<Option<AtEnd>> = const { RefCell::new(None) };
    static AFTER: RefCell<Option<AtEnd>> = const { RefCell::new(None) };
}

// ---- signals

extern "C" fn on_alarm(_: c_int) {
    if STOP.load(Relaxed) {
        return;
    }
    if in_lib() {
        // this thread is inside of a library call
        let n = NESTED.fetch_add(1, Relaxed);
        // every other time something like what was interrupted
        let i = if n & 1 == 0 { n / 2 } else { HOT.load(Relaxed) + n / 2 % 5 };
        if let Some(w) = again(i) {
            write(&crashed(&tell(i, w, "in a signal handler that interrupted a library call"), true));
            unsafe { super::_exit(102) }
        }
        set_in_lib(true);
    }
    alarm_in((mon::monref::rng::mix(NESTED.load(Relaxed) as u64) % 60) as isize);
}

/// Once, in so many microseconds after the least: what is interrupted goes on for a while, however slow the handler.
fn alarm_in(us: isize) {
    let once = [0, 0, 0, us + 3];
    unsafe { setitimer(0, &once, std::ptr::null_mut()) };
}

extern "C" fn on_exit() {
    for i in 0..table().len() * 3 {
        if let Some(w) = again(i) {
            write(&crashed(&tell(i, w, "at exit"), true));
            unsafe { super::_exit(102) }
        }
    }
}

pub fn odd(ctx: &mut Ctx) {
    let ks = ctx.p.kinds.clone();
    {
        let mut r = mon::monref::Rng::new(ctx.p.seed, 31, 32);
        let mut v = Vec::new();
        for k in &ks {
            for n in [0usize, 5, 31, 32, 33, 64, 77, 200, 1021, 600, 2100, 4200, 9000] {
                let n = n + if n > 64 { r.idx(40) } else { 0 };
                let key = [r.u64(), r.u64(), r.u64(), r.u64()];
                // anywhere, and aligned now and then
                let off = if r.chance(1, 4) { 0 } else { r.idx(64) };
                let d: &'static [u8] = Box::leak((0..n + 64).map(|_| r.u64() as u8).collect::<Box<[u8]>>());
                let o = (64 - d.as_ptr() as usize % 64 + off) % 64;
                let cut = if n > 500 { [0, 0, n, r.idx(n + 1)][r.idx(4)] } else { r.idx(n + 1) };
                v.push(compute(*k, key, &d[o..o + n], cut));
            }
        }
        unsafe { TABLE = Box::leak(v.into_boxed_slice()) };
    }
    let n = table().len();
    for i in 0..n * 6 {
        if let Some(w) = again(i) {
            ctx.fail(tell(i, w, "when repeated"));
            return;
        }
    }
    for round in 0..ctx.p.n.max(1) {
        for (i, k) in table().iter().enumerate() {
            // inside of a sink
            if ctx.sel(SECTION + round * 4096 + i as u64) {
                let mut h = H::new(k.kind, k.key, 0);
                h.append(&k.data[..k.cut]);
                let me = h.clone();
                let mut s = Nosy { me: &me, at: ctx.rng().idx(n * 6), depth: 2, bad: None, calls: 0 };
                let ok = me.debug(&mut s, round & 1 == 0);
                ctx.count("calls into a sink that hashes", s.calls);
                ctx.seen(round * 4096 + i as u64);
                if let Some(b) = s.bad.take() {
                    ctx.fail(b);
                }
                let mut m = me.clone();
                m.append(&k.data[k.cut..]);
                h.append(&k.data[k.cut..]);
                let (a, b) = (m.fin(2), h.fin(2));
                if ok.is_err() || a != k.res[2] || b != k.res[2] || me.cp() != k.cp {
                    ctx.fail(format!("{:?} key {} {} bytes: formatted into a sink that hashes ({:?}): {:x?}, its original {:x?}, want {:x?}", k.kind, showk(k.key), k.data.len(), ok, a, b, k.res[2]));
                }
            }
        }
        // destructors of thread-locals, registered before and after the first use of the library on the thread
        for v in 0..4usize {
            if ctx.sel(SECTION * 2 + round * 8 + v as u64) {
                let at = ctx.rng().idx(n);
                std::thread::scope(|s| {
                    let t = s.spawn(move || {
                        if v & 1 == 0 {
                            EARLY.with(|e| *e.borrow_mut() = Some(AtEnd(at, "in a destructor of a thread-local registered before")));
                        }
                        if v < 3 {
                            for i in at..at + n {
                                again(i);
                            }
                        }
                        AFTER.with(|e| *e.borrow_mut() = Some(AtEnd(at + 5, "in a destructor of a thread-local registered after")));
                        if v == 3 {
                            EARLY.with(|e| *e.borrow_mut() = Some(AtEnd(at, "in a destructor of a thread-local, first used there")));
                        }
                        ctx::thread_done();
                    });
                    let _ = t.join();
                });
                ctx.count("threads whose destructors hash", 1);
                ctx.seen(SECTION * 2 + round * 8 + v as u64);
                if let Some(b) = LATE.lock().ok().and_then(|mut l| l.pop()) {
                    ctx.fail(b);
                }
            }
        }
        // while unwinding
        if ctx.sel(SECTION * 3 + round) {
            let at = ctx.rng().idx(n);
            let _ = std::panic::catch_unwind(|| {
                let _g = AtEnd(at, "while unwinding");
                // no hook
                std::panic::resume_unwind(Box::new(0u8));
            });
            ctx.count("destructors that hash while unwinding", 1);
            ctx.seen(SECTION * 3 + round);
            if let Some(b) = LATE.lock().ok().and_then(|mut l| l.pop()) {
                ctx.fail(b);
            }
        }
        // in a forked child
        if ctx.sel(SECTION * 4 + round) {
            let at = ctx.rng().idx(n);
            let p = unsafe { fork() };
            if p == 0 {
                for i in at..at + n {
                    if again(i).is_some() {
                        unsafe { super::_exit(7) }
                    }
                }
                unsafe { super::_exit(0) }
            }
            if p > 0 {
                let mut s = 0;
                unsafe { waitpid(p, &mut s, 0) };
                ctx.count("forked children that hash", 1);
                ctx.seen(SECTION * 4 + round);
                if s == 7 << 8 {
                    ctx.fail("another result in a forked child".to_string());
                } else if s != 0 {
                    ctx.fail(format!("a forked child that hashes ended with status {:#x}", s));
                }
            }
        }
    }
    // signal handlers that interrupt library calls
    if ctx.sel(SECTION * 5) {
        let a = super::SigAction { handler: on_alarm as *const () as usize, mask: [0; 128], flags: 0x1000_0000, restorer: 0 };
        unsafe { super::sigaction(14, &a, std::ptr::null_mut()) };
        let goal = ctx.p.n.max(1) as usize * 1500;
        let t0 = std::time::Instant::now();
        alarm_in(50);
        let mut i = 0;
        let mut bad = None;
        while NESTED.load(Relaxed) < goal && t0.elapsed().as_secs() < 8 + goal as u64 / 2000 {
            for _ in 0..16 {
                // short and long ones in turn, each kind for a while
                let j = if i & 1 == 0 { i / 2 } else { i / 200 * 13 + 8 + i / 2 % 5 };
                HOT.store(j / 13 * 13 + 8, Relaxed);
                if let Some(w) = again(j) {
                    bad = Some((j, w));
                }
                i += 1;
            }
            if bad.is_some() {
                break;
            }
        }
        STOP.store(true, Relaxed);
        let none = [0isize; 4];
        unsafe { setitimer(0, &none, std::ptr::null_mut()) };
        ctx.count("histories while signal handlers hash", i as u64);
        ctx.count("library calls interrupted by a handler that hashes", NESTED.load(Relaxed) as u64);
        ctx.seen(SECTION * 5);
        if let Some((i, w)) = bad {
            ctx.fail(tell(i, w, "beside signal handlers that hash"));
        }
    }
    unsafe { atexit(on_exit) };
    ctx.count("exits with a handler that hashes", 1);
}
