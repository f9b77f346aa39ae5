//! Every operation of the crate in an image that has no allocator, no std and no libc: if any of it needs an
//! allocator, this does not build.
#![no_std]
#![no_main]
#![allow(warnings, clippy::all)]
use core::fmt::Write;
use core::hash::{BuildHasher, BuildHasherDefault, Hasher};
use highway::*;

// ---- the machine ---------------------------------------------------------------------------------
#[cfg(target_arch = "x86_64")]
mod os {
    use core::arch::{asm, global_asm};
    pub unsafe fn sys(n: usize, a: usize, b: usize, c: usize) -> usize {
        let n: usize = if n == 0 { 60 } else { 1 };
        let r;
        asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, out("rcx") _, out("r11") _);
        r
    }
    global_asm!(".globl _start", "_start:", "and rsp, -16", "call noalloc_main");
}
#[cfg(target_arch = "x86")]
mod os {
    use core::arch::{asm, global_asm};
    pub unsafe fn sys(n: usize, a: usize, b: usize, c: usize) -> usize {
        let n: usize = if n == 0 { 1 } else { 4 };
        let r;
        asm!("int 0x80", inlateout("eax") n => r, in("ebx") a, in("ecx") b, in("edx") c);
        r
    }
    global_asm!(".globl _start", "_start:", "and esp, -16", "call noalloc_main");
}
#[cfg(target_arch = "aarch64")]
mod os {
    use core::arch::{asm, global_asm};
    pub unsafe fn sys(n: usize, a: usize, b: usize, c: usize) -> usize {
        let n: usize = if n == 0 { 93 } else { 64 };
        let r;
        asm!("svc 0", in("x8") n, inlateout("x0") a => r, in("x1") b, in("x2") c);
        r
    }
    global_asm!(".globl _start", "_start:", "b noalloc_main");
}
#[cfg(target_arch = "wasm32")]
mod os {
    #[link(wasm_import_module = "os")]
    extern "C" {
        fn call(n: usize, a: usize, b: usize, c: usize) -> usize;
    }
    pub unsafe fn sys(n: usize, a: usize, b: usize, c: usize) -> usize {
        call(n, a, b, c)
    }
}
fn exit(c: usize) -> ! {
    loop {
        unsafe { os::sys(0, c, 0, 0) };
    }
}
struct Out;
impl Write for Out {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        unsafe { os::sys(1, 1, s.as_ptr() as usize, s.len()) };
        Ok(())
    }
}
#[panic_handler]
fn on_panic(i: &core::panic::PanicInfo) -> ! {
    let _ = writeln!(Out, "CRASH {}", i);
    exit(101)
}

// what the compiler expects of any environment (the wasm target brings its own)
#[cfg(not(target_arch = "wasm32"))]
mod mem {
    use core::ptr::{read_volatile as get, write_volatile as put};
    #[no_mangle]
    unsafe extern "C" fn memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
        for i in 0..n {
            put(d.add(i), get(s.add(i)));
        }
        d
    }
    #[no_mangle]
    unsafe extern "C" fn memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
        if (d as usize).wrapping_sub(s as usize) >= n {
            return memcpy(d, s, n);
        }
        for i in (0..n).rev() {
            put(d.add(i), get(s.add(i)));
        }
        d
    }
    #[no_mangle]
    unsafe extern "C" fn memset(d: *mut u8, c: i32, n: usize) -> *mut u8 {
        for i in 0..n {
            put(d.add(i), c as u8);
        }
        d
    }
    #[no_mangle]
    unsafe extern "C" fn memcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
        for i in 0..n {
            let (x, y) = (get(a.add(i)), get(b.add(i)));
            if x != y {
                return x as i32 - y as i32;
            }
        }
        0
    }
    #[no_mangle]
    unsafe extern "C" fn bcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
        memcmp(a, b, n)
    }
}
#[no_mangle]
extern "C" fn rust_eh_personality() {}
#[no_mangle]
extern "C" fn _Unwind_Resume() -> ! {
    exit(3)
}

struct Sink(u64, u64);
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        for b in s.bytes() {
            self.0 = (self.0 ^ b as u64).wrapping_mul(0x100_0000_01b3);
            self.1 += 1;
        }
        Ok(())
    }
}

static DATA: [u8; 4096] = {
    let mut d = [0u8; 4096];
    let mut i = 0;
    let mut x = 88172645463325252u64;
    while i < 4096 {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        d[i] = x as u8;
        i += 1;
    }
    d
};

/// `std::hash::Hasher` where the type has it.
trait Adapter {
    fn w(&mut self, d: &[u8]);
    fn u(&mut self, x: u64);
    fn f(&self) -> u64;
}
macro_rules! adapter {
    ($($t:ty)*) => {$(
        impl Adapter for $t {
            fn w(&mut self, d: &[u8]) {
                Hasher::write(self, d)
            }
            fn u(&mut self, x: u64) {
                self.write_u64(x);
                self.write_u8(7)
            }
            fn f(&self) -> u64 {
                Hasher::finish(self)
            }
        }
    )*};
}
adapter!(PortableHash HighwayHasher);
#[cfg(target_arch = "x86_64")]
adapter!(SseHash AvxHash);
#[cfg(all(target_arch = "wasm32", target_feature = "simd128"))]
adapter!(WasmHash);
#[cfg(target_arch = "aarch64")]
impl Adapter for NeonHash {
    fn w(&mut self, d: &[u8]) {
        self.append(d)
    }
    fn u(&mut self, x: u64) {
        self.append(&x.to_ne_bytes());
        self.append(&[7])
    }
    fn f(&self) -> u64 {
        self.clone().finalize64()
    }
}

fn drive<H: HighwayHash + Adapter + Clone + core::fmt::Debug + Default>(mk: impl Fn() -> H, restore: impl Fn([u8; 164]) -> H, ops: &mut u64) -> u64 {
    let mut s = Sink(0xcbf2_9ce4_8422_2325, 0);
    let mut i = 0;
    while i < 300 {
        let d = &DATA[i % 7..][..i * 13 % 4000];
        let mut h = if i % 5 == 0 { H::default() } else { mk() };
        h.append(&d[..d.len() / 3]);
        h.w(&d[d.len() / 3..]);
        h.u(i as u64);
        let _ = write!(s, "{:x}", h.f());
        let mut c = h.checkpoint();
        let g = restore(c).clone();
        for (j, x) in g.finalize256().iter().enumerate() {
            let _ = write!(s, "{}{:x}", j, x);
        }
        let _ = write!(s, "{:?}{:#?}", h, h);
        c[160] = i as u8;
        c[163] = (i * 3) as u8;
        c[0] ^= 0xff;
        let mut a = restore(c);
        a.append(d);
        let mut b = mk();
        b.clone_from(&a);
        let _ = write!(s, "{:x} {:x} {:x?} {:x?}", a.finalize64(), b.hash64(d), h.clone().finalize128(), h.clone().hash128(d));
        let _ = write!(s, "{:x?}", h.hash256(&[]));
        *ops += 19;
        i += 1;
    }
    s.0
}

#[no_mangle]
unsafe extern "C" fn noalloc_main() -> ! {
    let k = Key([1, 2, 3, 0xdead_beef]);
    let mut ops = 0;
    let p = drive(|| PortableHash::new(k), PortableHash::from_checkpoint, &mut ops);
    let _ = writeln!(Out, "NA P {:x}", p);
    let d = drive(|| HighwayHasher::new(k), HighwayHasher::from_checkpoint, &mut ops);
    let _ = writeln!(Out, "NA D {:x}", d);
    #[cfg(target_arch = "x86_64")]
    {
        let (r2, r1) = (core::arch::x86_64::__cpuid(1).ecx, core::arch::x86_64::__cpuid_count(7, 0).ebx);
        if r2 & (1 << 19) != 0 {
            let s = drive(|| SseHash::force_new(k), |c| SseHash::force_from_checkpoint(c), &mut ops);
            let _ = writeln!(Out, "NA S {:x}", s);
        }
        if r1 & (1 << 5) != 0 && r2 & (1 << 27) != 0 {
            let a = drive(|| AvxHash::force_new(k), |c| AvxHash::force_from_checkpoint(c), &mut ops);
            let _ = writeln!(Out, "NA A {:x}", a);
        }
        let _ = (SseHash::new(k).is_some(), AvxHash::new(k).is_some(), SseHash::from_checkpoint([1; 164]).is_some(), AvxHash::from_checkpoint([1; 164]).is_some());
    }
    #[cfg(target_arch = "aarch64")]
    {
        let n = drive(|| NeonHash::force_new(k), |c| NeonHash::force_from_checkpoint(c), &mut ops);
        let _ = writeln!(Out, "NA N {:x}", n);
    }
    #[cfg(all(target_arch = "wasm32", target_feature = "simd128"))]
    {
        let w = drive(|| WasmHash::new(k), |c| WasmHash::from_checkpoint(c), &mut ops);
        let _ = writeln!(Out, "NA W {:x}", w);
    }
    let b = HighwayBuildHasher::new(k);
    let mut s = Sink(1, 0);
    let _ = write!(s, "{:x} {:x} {:?} {:?}", b.hash_one((1u32, "abc", [7u64; 9])), HighwayBuildHasher::default().hash_one(5u8), b, k);
    let q: BuildHasherDefault<PortableHash> = Default::default();
    let _ = write!(s, "{:x} {:x?}", q.hash_one("xyz"), Key::default());
    ops += 12;
    let _ = writeln!(Out, "OPS {}", ops);
    let _ = writeln!(Out, "DONE noalloc");
    exit(0)
}
