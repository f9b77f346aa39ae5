//! Workloads that need an operating system: placement, allocation, size, threads.
use crate::{clock, crashed, write};
use mon::w_std::{job, judge, Job, ISOLATED};
use mon::{ctx, Ctx, Params, H};
use std::os::raw::{c_int};
use std::sync::atomic::Ordering::Relaxed;

mod alloc;
#[cfg(not(miri))]
mod env;
mod far;
mod mem;
mod odd;
mod place;
#[cfg(target_arch = "aarch64")]
mod tag;
mod stack;
mod threads;

extern "C" {
    fn signal(s: c_int, h: usize) -> usize;
    fn sigaction(s: c_int, a: *const SigAction, o: *mut SigAction) -> c_int;
    fn sigaltstack(a: *const AltStack, o: *mut AltStack) -> c_int;
    fn _exit(c: c_int) -> !;
}

extern "C" fn on_signal(s: c_int) {
    unsafe { signal(s, 0) };
    let what = match s {
        4 => "SIGILL",
        7 => "SIGBUS",
        8 => "SIGFPE",
        11 => "SIGSEGV",
        6 => "SIGABRT",
        _ => "signal",
    };
    // the process is in no state for more than this
    write(&crashed(what, ctx::in_lib()));
    unsafe { _exit(102) }
}

#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u8; 128],
    flags: c_int,
    restorer: usize,
}
#[repr(C)]
struct AltStack {
    sp: *mut u8,
    flags: c_int,
    size: usize,
}
static mut HANDLERS: bool = false;

pub fn handlers() {
    for s in [4, 6, 7, 8, 11] {
        // on the alternate stack: the handler is to survive an exhausted one
        let a = SigAction { handler: on_signal as *const () as usize, mask: [0; 128], flags: 0x0800_0000, restorer: 0 };
        unsafe { sigaction(s, &a, std::ptr::null_mut()) };
    }
    unsafe { HANDLERS = true };
}

/// Gives the handler of this thread a stack that is large enough for it. For one thread at a time.
pub fn altstack() {
    static mut ROOM: [u64; 16384] = [0; 16384];
    unsafe {
        if HANDLERS {
            let a = AltStack { sp: &raw mut ROOM as *mut u8, flags: 0, size: 16384 * 8 };
            sigaltstack(&a, std::ptr::null_mut());
        }
    }
}

/// Reports a library call of this thread that does not come back.
pub fn watchdog(limit_s: u64) {
    let h = ctx::here_ptr() as usize;
    if limit_s == 0 {
        return;
    }
    std::thread::spawn(move || {
        let h = unsafe { &*(h as *const ctx::Here) };
        let (mut last, mut since) = (h.calls.load(Relaxed), clock());
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let c = h.calls.load(Relaxed);
            if c != last || !h.in_lib.load(Relaxed) {
                last = c;
                since = clock();
            } else if clock() - since > limit_s * 1000 {
                write(&crashed(&format!("a call did not return within {} s", limit_s), true));
                unsafe { _exit(103) };
            }
        }
    });
}

fn isolated(p: &Params, group: u64, id: u64) -> Option<mon::h::R> {
    let kinds: String = p.kinds.iter().map(|k| format!("{:?}", k)).collect();
    let mut c = std::process::Command::new(std::env::current_exe().ok()?);
    c.arg("iso").arg(format!("seed={}", p.seed)).arg(format!("kinds={}", kinds)).arg(group.to_string()).arg(id.to_string());
    if let Ok(f) = std::env::var("MON_DICT") {
        c.arg(format!("dict={}", f));
    }
    let o = c.output().ok()?;
    let s = String::from_utf8_lossy(&o.stdout).to_string();
    let l = s.lines().find(|l| l.starts_with("ISO "))?;
    let v: Vec<u64> = l.split(' ').skip(1).filter_map(|x| u64::from_str_radix(x, 16).ok()).collect();
    <[u64; 4]>::try_from(v).ok()
}

pub fn run(name: &str, p: &Params, rest: &[String]) -> Option<i32> {
    unsafe { ISOLATED = Some(isolated) };
    for a in std::env::args() {
        if let Some(f) = a.strip_prefix("dict=") {
            std::env::set_var("MON_DICT", f);
        }
    }
    let list: [(&'static str, fn(&mut Ctx)); 12] = [
        ("far", far::far),
        ("stack", stack::stack),
        ("place", place::place),
        ("alloc", alloc::alloc),
        ("giant", mem::giant),
        ("threads", threads::threads),
        ("lockstep", threads::lockstep),
        ("first", threads::first_many),
        ("crowd", threads::crowd),
        ("shared", threads::shared),
        ("huge", mem::huge),
        ("odd", odd::odd),
    ];
    for (n, f) in list {
        if n == name {
            let mut c = Ctx::new(n, p.clone());
            f(&mut c);
            return Some((c.finish() != 0) as i32);
        }
    }
    #[cfg(target_arch = "aarch64")]
    if name == "tagged" {
        let mut c = Ctx::new("tagged", p.clone());
        tag::tagged(&mut c);
        return Some((c.finish() != 0) as i32);
    }
    if name == "iso" {
        let (g, i) = (rest[0].parse().unwrap(), rest[1].parse().unwrap());
        let r = job(p, g, i).run();
        write(&format!("ISO {:x} {:x} {:x} {:x}\n", r[0], r[1], r[2], r[3]));
        return Some(0);
    }
    #[cfg(target_arch = "x86_64")]
    if name == "probe" {
        // does `default` of a SIMD type hand out a hasher on this CPU?
        let (a, s) = (std::is_x86_feature_detected!("avx2"), std::is_x86_feature_detected!("sse4.1"));
        write(&format!("CPU avx2={} sse4.1={}\n", a, s));
        let a = rest[0] == "AvxHash";
        mon::ctx::lib(|| {
            if a {
                std::hint::black_box(highway::AvxHash::default());
            } else {
                std::hint::black_box(highway::SseHash::default());
            }
        });
        write(&format!("HANDED {}\n", rest[0]));
        return Some(0);
    }
    if name == "first1" {
        return Some(threads::first_one(p, rest[0].parse().unwrap()));
    }
    if name == "values" {
        // what a fresh process computes: used to compare processes
        return Some(threads::values(p));
    }
    None
}

#[allow(dead_code)]
fn unused(_: &Job, _: &H) {
    let _ = judge;
}
