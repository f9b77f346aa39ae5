//! Interpreted by Miri, which offers output and memory to targets without an operating system.
use crate::Vec;
use core::alloc::{GlobalAlloc, Layout};
use core::sync::atomic::{AtomicU32, Ordering::Relaxed};
use mon::ctx;

extern "Rust" {
    fn miri_write_to_stdout(b: &[u8]);
    fn miri_alloc(size: usize, align: usize) -> *mut u8;
    fn miri_dealloc(p: *mut u8, size: usize, align: usize);
}

pub fn exit(c: usize) -> ! {
    mod foreign {
        extern "C" {
            pub fn exit(c: i32) -> !;
        }
    }
    unsafe { foreign::exit(c as i32) }
}
pub fn write(s: &str) {
    unsafe { miri_write_to_stdout(s.as_bytes()) }
}
/// There is no clock.
pub fn clock() -> u64 {
    static T: AtomicU32 = AtomicU32::new(0);
    T.fetch_add(1, Relaxed) as u64
}
pub unsafe fn file(_: &str) -> Vec<u8> {
    Vec::new()
}

struct Heap;
unsafe impl GlobalAlloc for Heap {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        ctx::count_alloc();
        miri_alloc(l.size(), l.align())
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        miri_dealloc(p, l.size(), l.align())
    }
}
#[global_allocator]
static A: Heap = Heap;

#[no_mangle]
fn miri_start(argc: isize, argv: *const *const u8) -> isize {
    unsafe { crate::start(argv.add(1), argc as usize - 1) as isize }
}
