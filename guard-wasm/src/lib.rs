//! Every operation in an image whose panic handler calls an import: the import is there only if the optimiser left a
//! way to panic.
#![no_std]
#![allow(clippy::all)]
use core::hash::{BuildHasher, Hasher};
use core::mem::MaybeUninit;
use highway::*;

#[link(wasm_import_module = "guard")]
extern "C" {
    fn panic_edge() -> !;
}
#[panic_handler]
fn on_panic(_: &core::panic::PanicInfo) -> ! {
    unsafe { panic_edge() }
}

unsafe fn bytes<'a>(p: *const u8, n: usize) -> &'a [u8] {
    core::slice::from_raw_parts(p, n)
}

macro_rules! ops {
    ($($m:ident $t:ty, $new:path, $restore:path;)*) => { $(
        mod $m {
            use super::*;
            type T = $t;
            #[export_name = concat!(stringify!($m), "_new")]
            extern "C" fn new(k: &Key, o: &mut MaybeUninit<T>) {
                o.write($new(Key(k.0)));
            }
            #[export_name = concat!(stringify!($m), "_default")]
            extern "C" fn default(o: &mut MaybeUninit<T>) {
                o.write(T::default());
            }
            #[export_name = concat!(stringify!($m), "_from_checkpoint")]
            extern "C" fn restore(c: &[u8; 164], o: &mut MaybeUninit<T>) {
                o.write($restore(*c));
            }
            #[export_name = concat!(stringify!($m), "_append")]
            unsafe extern "C" fn append(h: &mut T, p: *const u8, n: usize) {
                h.append(bytes(p, n))
            }
            #[export_name = concat!(stringify!($m), "_write")]
            unsafe extern "C" fn write(h: &mut T, p: *const u8, n: usize) {
                Hasher::write(h, bytes(p, n))
            }
            #[export_name = concat!(stringify!($m), "_write_u64")]
            extern "C" fn write_u64(h: &mut T, x: u64) {
                h.write_u64(x)
            }
            #[export_name = concat!(stringify!($m), "_finish")]
            extern "C" fn finish(h: &T) -> u64 {
                h.finish()
            }
            #[export_name = concat!(stringify!($m), "_checkpoint")]
            extern "C" fn checkpoint(h: &T, o: &mut [u8; 164]) {
                *o = h.checkpoint()
            }
            #[export_name = concat!(stringify!($m), "_clone")]
            extern "C" fn clone(h: &T, o: &mut MaybeUninit<T>) {
                o.write(h.clone());
            }
            #[export_name = concat!(stringify!($m), "_finalize64")]
            unsafe extern "C" fn f64(h: *const T) -> u64 {
                h.read().finalize64()
            }
            #[export_name = concat!(stringify!($m), "_finalize128")]
            unsafe extern "C" fn f128(h: *const T, o: &mut [u64; 2]) {
                *o = h.read().finalize128()
            }
            #[export_name = concat!(stringify!($m), "_finalize256")]
            unsafe extern "C" fn f256(h: *const T, o: &mut [u64; 4]) {
                *o = h.read().finalize256()
            }
            #[export_name = concat!(stringify!($m), "_hash64")]
            unsafe extern "C" fn h64(h: *const T, p: *const u8, n: usize) -> u64 {
                h.read().hash64(bytes(p, n))
            }
            #[export_name = concat!(stringify!($m), "_hash128")]
            unsafe extern "C" fn h128(h: *const T, p: *const u8, n: usize, o: &mut [u64; 2]) {
                *o = h.read().hash128(bytes(p, n))
            }
            #[export_name = concat!(stringify!($m), "_hash256")]
            unsafe extern "C" fn h256(h: *const T, p: *const u8, n: usize, o: &mut [u64; 4]) {
                *o = h.read().hash256(bytes(p, n))
            }
        }
    )* };
}

ops! {
    portable PortableHash, PortableHash::new, PortableHash::from_checkpoint;
    auto HighwayHasher, HighwayHasher::new, HighwayHasher::from_checkpoint;
}
#[cfg(target_feature = "simd128")]
ops! {
    simd WasmHash, WasmHash::new, WasmHash::from_checkpoint;
}

#[no_mangle]
extern "C" fn build_hasher(b: &HighwayBuildHasher, o: &mut MaybeUninit<HighwayHasher>) {
    o.write(b.build_hasher());
}

#[cfg(guard_selftest)]
#[no_mangle]
extern "C" fn selftest(d: &[u8; 4], i: usize) -> u8 {
    d[i]
}
