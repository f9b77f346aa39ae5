//! What the environment says to the library: every variable it might ask for is set in some cases
//! and unset in others. Results and selections must not care.
use mon::ctx;
use std::os::raw::c_char;

const VALUES: [Option<&[u8]>; 8] = [None, Some(b"1\0"), Some(b"0\0"), Some(b"\0"), Some(b"portable\0"), Some(b"sse41\0"), Some(b"true\0"), Some(b"off\0")];
pub static ASKED: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

extern "C" {
    static environ: *const *const c_char;
}

/// Takes the place of the C library's.
///
/// # Safety
/// `name` is a C string.
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const c_char) -> *mut c_char {
    let name = std::ffi::CStr::from_ptr(name).to_bytes();
    if ctx::in_lib() && !name.starts_with(b"RUST_") {
        ASKED.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        // not a function of the calls made before, so that a replay sees the same
        let c = ctx::case();
        return match VALUES[((c ^ c >> 40) % 8) as usize] {
            None => std::ptr::null_mut(),
            Some(v) => v.as_ptr() as *mut c_char,
        };
    }
    let mut e = environ;
    while !e.is_null() && !(*e).is_null() {
        let v = std::ffi::CStr::from_ptr(*e).to_bytes();
        if v.len() > name.len() && v.starts_with(name) && v[name.len()] == b'=' {
            return (*e).add(name.len() + 1) as *mut c_char;
        }
        e = e.add(1);
    }
    std::ptr::null_mut()
}
