//! The monitors without an operating system library (Linux system calls, or what Miri offers), for targets that have none here.
#![no_std]
#![no_main]
extern crate alloc;
use alloc::string::ToString;
use alloc::vec::Vec;
use mon::{ctx, Kind, Params};

#[cfg(not(miri))]
mod sys;
#[cfg(miri)]
#[path = "miri.rs"]
mod sys;
use sys::*;

#[panic_handler]
fn on_panic(i: &core::panic::PanicInfo) -> ! {
    let l = ctx::in_lib();
    write(&alloc::format!("CRASH {{\"case\":{},\"in_lib\":{},\"msg\":\"{}\"}}\n", ctx::case(), l, ctx::esc(&i.to_string())));
    exit(101)
}

/// `argv` without the name of the program
unsafe fn start(argv: *const *const u8, argc: usize) -> usize {
    ctx::init(ctx::Services { write, clock });
    let mut args: Vec<&str> = Vec::new();
    for i in 0..argc {
        let p = *argv.add(i);
        let mut n = 0;
        while *p.add(n) != 0 {
            n += 1;
        }
        args.push(core::str::from_utf8(core::slice::from_raw_parts(p, n)).unwrap_or(""));
    }
    let mut p = Params {
        seed: 1,
        n: 1000,
        scale: 1000,
        shard: (0, 1),
        max: 1 << 20,
        kinds: mon::h::kinds(),
        ..Default::default()
    };
    for a in args.iter().skip(1) {
        let Some((k, v)) = a.split_once('=') else { continue };
        let num = || v.parse::<u64>().unwrap_or(0);
        match k {
            "seed" => p.seed = num(),
            "n" => p.n = num(),
            "ms" => p.ms = num(),
            "scale" => p.scale = num(),
            "case" => p.only = Some(num()),
            "max" => p.max = num() as usize,
            "digests" => p.digests = num() != 0,
            "allocs" => p.allocs = num() != 0,
            "twin" => p.twin = num() != 0,
            "shard" => {
                if let Some((a, b)) = v.split_once('/') {
                    p.shard = (a.parse().unwrap_or(0), b.parse().unwrap_or(1));
                }
            }
            "kinds" => {
                let want: Vec<Kind> = v.chars().filter_map(Kind::parse).collect();
                p.kinds.retain(|k| want.contains(k));
            }
            "dict" => {
                let d = file(v);
                let s = core::str::from_utf8(&d).unwrap_or("").to_string();
                p.dict.lits = s.split_whitespace().filter_map(|x| x.parse().ok()).collect();
            }
            "file" => p.input = file(v),
            _ => {}
        }
    }
    match mon::run(args.first().unwrap_or(&""), p) {
        None => 2,
        Some(0) => 0,
        Some(_) => 1,
    }
}
