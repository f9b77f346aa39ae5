//! Native runner: `mon <workload> [name=value ...]`.
use mon::{ctx, Kind, Params};
use std::alloc::{GlobalAlloc, Layout, System};
use std::io::Write;

#[cfg(target_os = "linux")]
mod native;

struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        ctx::count_alloc();
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        ctx::count_alloc();
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        ctx::count_alloc();
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Counting = Counting;

fn write(s: &str) {
    let _ = std::io::stdout().write_all(s.as_bytes());
}
static mut T0: Option<std::time::Instant> = None;
fn clock() -> u64 {
    #[allow(static_mut_refs)]
    unsafe {
        T0.map_or(0, |t| t.elapsed().as_millis() as u64)
    }
}

pub fn crashed(what: &str, in_lib: bool) -> String {
    format!(
        "CRASH {{\"case\":{},\"in_lib\":{},\"msg\":\"{}\"}}\n",
        ctx::case(),
        in_lib,
        ctx::esc(what)
    )
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 2 {
        eprintln!("usage: mon <workload> [name=value ...]");
        std::process::exit(2);
    }
    unsafe { T0 = Some(std::time::Instant::now()) };
    ctx::init(ctx::Services { write, clock });
    let mut p = Params {
        seed: 1,
        n: 1000,
        scale: 1000,
        shard: (0, 1),
        max: 1 << 20,
        ..Default::default()
    };
    let mut have = mon::h::kinds();
    let mut rest = Vec::new();
    let mut raw = false;
    let mut hang = 120u64;
    for a in &args[2..] {
        let Some((k, v)) = a.split_once('=') else {
            rest.push(a.clone());
            continue;
        };
        let num = || v.parse::<u64>().unwrap_or_else(|_| panic!("bad number {}", a));
        match k {
            "seed" => p.seed = num(),
            "n" => p.n = num(),
            "ms" => p.ms = num(),
            "scale" => p.scale = num(),
            "case" => p.only = Some(num()),
            "max" => p.max = num() as usize,
            "digests" => p.digests = num() != 0,
            "allocs" => p.allocs = num() != 0,
            "twin" => p.twin = num() != 0,
            "raw" => raw = num() != 0,
            "hang" => hang = num(),
            "shard" => {
                let (a, b) = v.split_once('/').unwrap();
                p.shard = (a.parse().unwrap(), b.parse().unwrap());
            }
            "kinds" => {
                let want: Vec<Kind> = v.chars().filter_map(Kind::parse).collect();
                have.retain(|k| want.contains(k));
            }
            "dict" => {
                let s = std::fs::read_to_string(v).unwrap();
                p.dict.lits = s.split_whitespace().filter_map(|x| x.parse().ok()).collect();
            }
            "file" => p.input = std::fs::read(v).unwrap(),
            _ => {
                eprintln!("unknown parameter {}", a);
                std::process::exit(2);
            }
        }
    }
    p.kinds = have;

    std::panic::set_hook(Box::new(|i| {
        let l = ctx::in_lib();
        let at = i.location().map_or(String::new(), |l| format!("{}:{}", l.file(), l.line()));
        let msg = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        write(&crashed(&format!("panic: {} at {}", msg, at), l));
        std::process::exit(101);
    }));

    #[cfg(target_os = "linux")]
    {
        if !raw {
            native::handlers();
        }
        native::watchdog(hang);
        if let Some(code) = native::run(&args[1], &p, &rest) {
            std::process::exit(code);
        }
    }
    let _ = (raw, hang, rest);
    match mon::run(&args[1], p) {
        None => {
            eprintln!("no workload {}", args[1]);
            std::process::exit(2);
        }
        Some(0) => {}
        Some(_) => std::process::exit(1),
    }
}
