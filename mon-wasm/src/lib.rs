//! The monitors as a WebAssembly module; run.mjs is the host.
use mon::ctx::{self, SECTION};
use mon::h::*;
use mon::{Ctx, Kind, Params};

#[link(wasm_import_module = "host")]
extern "C" {
    fn host_write(p: *const u8, n: usize);
    fn host_clock() -> f64;
}
fn write(s: &str) {
    unsafe { host_write(s.as_ptr(), s.len()) }
}
fn clock() -> u64 {
    unsafe { host_clock() as u64 }
}

/// Counts what is allocated within library calls.
struct Counting;
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        ctx::count_alloc();
        std::alloc::System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        ctx::count_alloc();
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        ctx::count_alloc();
        std::alloc::System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::alloc::System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Counting = Counting;

#[no_mangle]
pub extern "C" fn room(n: usize) -> *mut u8 {
    let mut v = vec![0u8; n];
    let p = v.as_mut_ptr();
    std::mem::forget(v);
    p
}
#[no_mangle]
pub extern "C" fn crumb_case() -> f64 {
    ctx::case() as f64
}
#[no_mangle]
pub extern "C" fn crumb_lib() -> u32 {
    ctx::in_lib() as u32
}

/// Inputs that end where the linear memory ends.
fn edge(c: &mut Ctx) {
    let old = core::arch::wasm32::memory_grow(0, 2);
    if old == usize::MAX {
        c.count("memory could not be grown", 1);
        return;
    }
    let end = (old + 2) * 65536;
    if core::arch::wasm32::memory_size(0) * 65536 != end {
        return;
    }
    let ks = c.p.kinds.clone();
    for f in 0..=32usize {
        for len in 0..=130usize {
            for k in &ks {
                if !c.sel(SECTION + ((f * 256 + len) * 8 + *k as usize) as u64) {
                    continue;
                }
                let mut r = c.rng();
                let d = c.p.dict.data(0, f + len, [1, 2, 3, 4], &mut r);
                let w = r.idx(3);
                let mut x = H::new(*k, [r.u64(), 2, 3, 4], 0);
                let mut y = x.clone();
                x.append(&d[..f]);
                x.append(&d[f..]);
                let put = |d: &[u8]| unsafe {
                    let p = (end - d.len()) as *mut u8;
                    core::ptr::copy_nonoverlapping(d.as_ptr(), p, d.len());
                    core::slice::from_raw_parts(p as *const u8, d.len())
                };
                y.append(put(&d[..f]));
                y.append(put(&d[f..]));
                c.count("inputs at the end of linear memory", 2);
                c.seen(((f * 256 + len) * 8 + *k as usize) as u64);
                if x.fin(w) != y.fin(w) {
                    c.fail(format!("{:?}: {} then {} bytes at the end of linear memory: result differs", k, f, len));
                }
            }
        }
    }
}

/// `args`: what the native runner takes; then a zero byte and the contents of the input file.
#[no_mangle]
pub extern "C" fn run(args: *const u8, n: usize) -> i32 {
    ctx::init(ctx::Services { write, clock });
    std::panic::set_hook(Box::new(|i| {
        let at = i.location().map_or(String::new(), |l| format!("{}:{}", l.file(), l.line()));
        let msg = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        write(&format!("CRASH {{\"case\":{},\"in_lib\":{},\"msg\":\"{}\"}}\n", ctx::case(), ctx::in_lib(), ctx::esc(&format!("panic: {} at {}", msg, at))));
    }));
    let all = unsafe { std::slice::from_raw_parts(args, n) };
    let cut = all.iter().position(|b| *b == 0).unwrap_or(n);
    let input = if cut < n { all[cut + 1..].to_vec() } else { vec![] };
    let text = String::from_utf8_lossy(&all[..cut]).to_string();
    let mut it = text.split(' ');
    let name = it.next().unwrap_or("").to_string();
    let mut p = Params {
        seed: 1,
        n: 1000,
        scale: 1000,
        shard: (0, 1),
        max: 1 << 20,
        kinds: mon::h::kinds(),
        input,
        ..Default::default()
    };
    for a in it {
        let Some((k, v)) = a.split_once('=') else { continue };
        let num = || v.parse::<u64>().unwrap_or(0);
        match k {
            "seed" => p.seed = num(),
            "n" => p.n = num(),
            "ms" => p.ms = num(),
            "scale" => p.scale = num(),
            "case" => p.only = Some(num()),
            "max" => p.max = num() as usize,
            "digests" => p.digests = num() != 0,
            "allocs" => p.allocs = num() != 0,
            "twin" => p.twin = num() != 0,
            "shard" => {
                if let Some((a, b)) = v.split_once('/') {
                    p.shard = (a.parse().unwrap_or(0), b.parse().unwrap_or(1));
                }
            }
            "kinds" => {
                let want: Vec<Kind> = v.chars().filter_map(Kind::parse).collect();
                p.kinds.retain(|k| want.contains(k));
            }
            "lits" => p.dict.lits = v.split(',').filter_map(|x| x.parse().ok()).collect(),
            _ => {}
        }
    }
    if name == "edge" {
        let mut c = Ctx::new("edge", p);
        edge(&mut c);
        return (c.finish() != 0) as i32;
    }
    match mon::run(&name, p) {
        None => 2,
        Some(0) => 0,
        Some(_) => 1,
    }
}
