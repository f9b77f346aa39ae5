//! System calls and the entry point.
use crate::Vec;
use core::alloc::{GlobalAlloc, Layout};
use core::arch::{asm, global_asm};
use mon::ctx;

#[cfg(target_arch = "aarch64")]
mod arch {
    use super::*;
    pub const EXIT: usize = 93;
    pub const READ: usize = 63;
    pub const WRITE: usize = 64;
    pub const OPENAT: usize = 56;
    pub const CLOCK_GETTIME: usize = 113;
    pub unsafe fn call(n: usize, a: [usize; 6]) -> usize {
        let r;
        asm!("svc 0", in("x8") n, inlateout("x0") a[0] => r, in("x1") a[1], in("x2") a[2], in("x3") a[3], in("x4") a[4], in("x5") a[5]);
        r
    }
    pub unsafe fn pages(m: usize) -> usize {
        call(222, [0, m, 3, 0x22, !0, 0])
    }
    global_asm!(
        ".globl _start",
        "_start:",
        "mov x0, sp",
        "and x1, x0, #-16",
        "mov sp, x1",
        "b bare_main",
    );
}

#[cfg(target_arch = "powerpc")]
mod arch {
    use super::*;
    pub const EXIT: usize = 1;
    pub const READ: usize = 3;
    pub const WRITE: usize = 4;
    pub const OPENAT: usize = 286;
    pub const CLOCK_GETTIME: usize = 246;
    pub unsafe fn call(n: usize, a: [usize; 6]) -> usize {
        let r;
        asm!(
            "sc",
            "bns 2f",
            "neg 3, 3",
            "2:",
            inlateout("r0") n => _, inlateout("r3") a[0] => r, inlateout("r4") a[1] => _, inlateout("r5") a[2] => _,
            inlateout("r6") a[3] => _, inlateout("r7") a[4] => _, inlateout("r8") a[5] => _,
            lateout("r9") _, lateout("r10") _, lateout("r11") _, lateout("r12") _, lateout("cr0") _, lateout("ctr") _,
        );
        r
    }
    pub unsafe fn pages(m: usize) -> usize {
        call(90, [0, m, 3, 0x22, !0, 0])
    }
    global_asm!(
        ".globl _start",
        "_start:",
        "mr 3, 1",
        "rlwinm 1, 1, 0, 0, 27",
        "li 0, 0",
        "stwu 0, -32(1)",
        "b bare_main",
    );
}

#[cfg(target_arch = "s390x")]
mod arch {
    use super::*;
    pub const EXIT: usize = 1;
    pub const READ: usize = 3;
    pub const WRITE: usize = 4;
    pub const OPENAT: usize = 288;
    pub const CLOCK_GETTIME: usize = 260;
    pub unsafe fn call(n: usize, a: [usize; 6]) -> usize {
        let r;
        asm!("svc 0", in("r1") n, inlateout("r2") a[0] => r, in("r3") a[1], in("r4") a[2], in("r5") a[3], in("r6") a[4], in("r7") a[5]);
        r
    }
    pub unsafe fn pages(m: usize) -> usize {
        // the arguments are passed in memory
        let a = [0, m, 3, 0x22, !0, 0];
        call(90, [a.as_ptr() as usize, 0, 0, 0, 0, 0])
    }
    global_asm!(
        ".globl _start",
        "_start:",
        "lgr %r2, %r15",
        "aghi %r15, -160",
        "jg bare_main",
    );
}

#[cfg(target_arch = "riscv32")]
mod arch {
    use super::*;
    pub const EXIT: usize = 93;
    pub const READ: usize = 63;
    pub const WRITE: usize = 64;
    pub const OPENAT: usize = 56;
    pub const CLOCK_GETTIME: usize = 113;
    pub unsafe fn call(n: usize, a: [usize; 6]) -> usize {
        let r;
        asm!("ecall", in("a7") n, inlateout("a0") a[0] => r, in("a1") a[1], in("a2") a[2], in("a3") a[3], in("a4") a[4], in("a5") a[5]);
        r
    }
    pub unsafe fn pages(m: usize) -> usize {
        call(222, [0, m, 3, 0x22, !0, 0])
    }
    global_asm!(
        ".globl _start",
        "_start:",
        "mv a0, sp",
        "andi sp, sp, -16",
        "tail bare_main",
    );
}
use arch::*;

pub fn exit(c: usize) -> ! {
    loop {
        unsafe { call(EXIT, [c, 0, 0, 0, 0, 0]) };
    }
}
pub fn write(s: &str) {
    let mut b = s.as_bytes();
    while !b.is_empty() {
        let n = unsafe { call(WRITE, [1, b.as_ptr() as usize, b.len(), 0, 0, 0]) } as isize;
        if n <= 0 {
            break;
        }
        b = &b[n as usize..];
    }
}
pub fn clock() -> u64 {
    let mut t = [0usize; 2];
    unsafe { call(CLOCK_GETTIME, [1, t.as_mut_ptr() as usize, 0, 0, 0, 0]) };
    t[0] as u64 * 1000 + t[1] as u64 / 1_000_000
}

/// Power-of-two size classes over fresh pages; freed blocks are kept in lists.
struct Classes;
static mut FREE: [usize; 48] = [0; 48];
static mut CUR: usize = 0;
static mut END: usize = 0;
fn class(l: Layout) -> usize {
    l.size().max(l.align()).max(32).next_power_of_two().trailing_zeros() as usize
}
unsafe impl GlobalAlloc for Classes {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        ctx::count_alloc();
        let c = class(l);
        if FREE[c] != 0 {
            let p = FREE[c];
            FREE[c] = *(p as *const usize);
            return p as *mut u8;
        }
        let n = 1usize << c;
        let mut at = (CUR + n - 1) & !(n - 1);
        if CUR == 0 || at + n > END {
            let m = (1usize << 22).max(2 * n);
            CUR = pages(m);
            END = CUR + m;
            at = (CUR + n - 1) & !(n - 1);
        }
        CUR = at + n;
        at as *mut u8
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let c = class(l);
        *(p as *mut usize) = FREE[c];
        FREE[c] = p as usize;
    }
}
#[global_allocator]
static A: Classes = Classes;

#[no_mangle]
unsafe extern "C" fn bare_main(sp: *const usize) -> ! {
    exit(crate::start(sp.add(2) as *const *const u8, *sp - 1))
}

pub unsafe fn file(name: &str) -> Vec<u8> {
    let mut path = name.as_bytes().to_vec();
    path.push(0);
    let fd = call(OPENAT, [-100isize as usize, path.as_ptr() as usize, 0, 0, 0, 0]);
    let mut out = Vec::new();
    let mut b = [0u8; 4096];
    loop {
        let n = call(READ, [fd, b.as_mut_ptr() as usize, 4096, 0, 0, 0]) as isize;
        if n <= 0 {
            break;
        }
        out.extend_from_slice(&b[..n as usize]);
    }
    out
}
