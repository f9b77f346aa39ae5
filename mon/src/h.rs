//! All hasher types behind one enum. Every call into the crate is bracketed by `lib`.
use crate::ctx::lib;
use core::hash::Hasher;
#[cfg(target_arch = "aarch64")]
use highway::NeonHash;
#[cfg(all(target_family = "wasm", target_feature = "simd128"))]
use highway::WasmHash;
#[cfg(target_arch = "x86_64")]
use highway::{AvxHash, SseHash};
use highway::{HighwayHash, HighwayHasher, Key, PortableHash};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    P,
    S,
    A,
    N,
    W,
    D,
}
pub use Kind::*;

impl Kind {
    pub fn parse(c: char) -> Option<Kind> {
        Some(match c {
            'P' => P,
            'S' => S,
            'A' => A,
            'N' => N,
            'W' => W,
            'D' => D,
            _ => return None,
        })
    }
}

pub enum H {
    P(PortableHash),
    #[cfg(target_arch = "x86_64")]
    S(SseHash),
    #[cfg(target_arch = "x86_64")]
    A(AvxHash),
    #[cfg(target_arch = "aarch64")]
    N(NeonHash),
    #[cfg(all(target_family = "wasm", target_feature = "simd128"))]
    W(WasmHash),
    D(HighwayHasher),
}

#[macro_export]
macro_rules! each {
    ($s:expr, $h:ident => $e:expr) => {
        match $s {
            $crate::H::P($h) => $e,
            #[cfg(target_arch = "x86_64")]
            $crate::H::S($h) => $e,
            #[cfg(target_arch = "x86_64")]
            $crate::H::A($h) => $e,
            #[cfg(target_arch = "aarch64")]
            $crate::H::N($h) => $e,
            #[cfg(all(target_family = "wasm", target_feature = "simd128"))]
            $crate::H::W($h) => $e,
            $crate::H::D($h) => $e,
        }
    };
}

/// Like `each`, for the traits NeonHash does not implement.
#[macro_export]
macro_rules! each_std {
    ($s:expr, $h:ident => $e:expr, $none:expr) => {
        match $s {
            $crate::H::P($h) => $e,
            #[cfg(target_arch = "x86_64")]
            $crate::H::S($h) => $e,
            #[cfg(target_arch = "x86_64")]
            $crate::H::A($h) => $e,
            #[cfg(target_arch = "aarch64")]
            $crate::H::N(_) => $none,
            #[cfg(all(target_family = "wasm", target_feature = "simd128"))]
            $crate::H::W($h) => $e,
            $crate::H::D($h) => $e,
        }
    };
}

#[cfg(target_arch = "x86_64")]
pub fn cpu_sse41() -> bool {
    #[cfg(feature = "std")]
    return std::is_x86_feature_detected!("sse4.1");
    #[cfg(not(feature = "std"))]
    return cfg!(target_feature = "sse4.1");
}
#[cfg(target_arch = "x86_64")]
pub fn cpu_avx2() -> bool {
    #[cfg(feature = "std")]
    return std::is_x86_feature_detected!("avx2");
    #[cfg(not(feature = "std"))]
    return cfg!(target_feature = "avx2");
}

/// The hasher types that exist here, the portable one first.
pub fn kinds() -> alloc::vec::Vec<Kind> {
    let mut v = alloc::vec![P];
    #[cfg(target_arch = "x86_64")]
    {
        if cpu_sse41() {
            v.push(S);
        }
        if cpu_avx2() {
            v.push(A);
        }
    }
    #[cfg(target_arch = "aarch64")]
    v.push(N);
    #[cfg(all(target_family = "wasm", target_feature = "simd128"))]
    v.push(W);
    v.push(D);
    v
}

/// A result of any width, the unused words zero.
pub type R = [u64; 4];
pub const WIDTHS: [usize; 3] = [64, 128, 256];

/// `all` of the model, as one result per width.
pub fn split(a: [u64; 7]) -> [R; 3] {
    [[a[0], 0, 0, 0], [a[1], a[2], 0, 0], [a[3], a[4], a[5], a[6]]]
}

impl Clone for H {
    fn clone(&self) -> H {
        lib(|| match self {
            H::P(h) => H::P(h.clone()),
            #[cfg(target_arch = "x86_64")]
            H::S(h) => H::S(h.clone()),
            #[cfg(target_arch = "x86_64")]
            H::A(h) => H::A(h.clone()),
            #[cfg(target_arch = "aarch64")]
            H::N(h) => H::N(h.clone()),
            #[cfg(all(target_family = "wasm", target_feature = "simd128"))]
            H::W(h) => H::W(h.clone()),
            H::D(h) => H::D(h.clone()),
        })
    }
}

impl H {
    /// `ctor` odd: the unchecked constructors.
    pub fn new(k: Kind, key: [u64; 4], ctor: u64) -> H {
        let _ = ctor;
        lib(|| match k {
            #[cfg(target_arch = "x86_64")]
            S => {
                if ctor & 1 == 0 {
                    if let Some(h) = SseHash::new(Key(key)) {
                        return H::S(h);
                    }
                }
                H::S(unsafe { SseHash::force_new(Key(key)) })
            }
            #[cfg(target_arch = "x86_64")]
            A => {
                if ctor & 1 == 0 {
                    if let Some(h) = AvxHash::new(Key(key)) {
                        return H::A(h);
                    }
                }
                H::A(unsafe { AvxHash::force_new(Key(key)) })
            }
            #[cfg(target_arch = "aarch64")]
            N => H::N(unsafe { NeonHash::force_new(Key(key)) }),
            #[cfg(all(target_family = "wasm", target_feature = "simd128"))]
            W => H::W(WasmHash::new(Key(key))),
            D => H::D(HighwayHasher::new(Key(key))),
            _ => H::P(PortableHash::new(Key(key))),
        })
    }

    pub fn restore(k: Kind, c: [u8; 164], ctor: u64) -> H {
        let _ = ctor;
        lib(|| match k {
            #[cfg(target_arch = "x86_64")]
            S => {
                if ctor & 1 == 0 {
                    if let Some(h) = SseHash::from_checkpoint(c) {
                        return H::S(h);
                    }
                }
                H::S(unsafe { SseHash::force_from_checkpoint(c) })
            }
            #[cfg(target_arch = "x86_64")]
            A => {
                if ctor & 1 == 0 {
                    if let Some(h) = AvxHash::from_checkpoint(c) {
                        return H::A(h);
                    }
                }
                H::A(unsafe { AvxHash::force_from_checkpoint(c) })
            }
            #[cfg(target_arch = "aarch64")]
            N => H::N(unsafe { NeonHash::force_from_checkpoint(c) }),
            #[cfg(all(target_family = "wasm", target_feature = "simd128"))]
            W => H::W(WasmHash::from_checkpoint(c)),
            D => H::D(HighwayHasher::from_checkpoint(c)),
            _ => H::P(PortableHash::from_checkpoint(c)),
        })
    }

    pub fn default(k: Kind) -> H {
        lib(|| match k {
            #[cfg(target_arch = "x86_64")]
            S => H::S(SseHash::default()),
            #[cfg(target_arch = "x86_64")]
            A => H::A(AvxHash::default()),
            #[cfg(target_arch = "aarch64")]
            N => H::N(NeonHash::default()),
            #[cfg(all(target_family = "wasm", target_feature = "simd128"))]
            W => H::W(WasmHash::default()),
            D => H::D(HighwayHasher::default()),
            _ => H::P(PortableHash::default()),
        })
    }

    pub fn kind(&self) -> Kind {
        match self {
            H::P(_) => P,
            #[cfg(target_arch = "x86_64")]
            H::S(_) => S,
            #[cfg(target_arch = "x86_64")]
            H::A(_) => A,
            #[cfg(target_arch = "aarch64")]
            H::N(_) => N,
            #[cfg(all(target_family = "wasm", target_feature = "simd128"))]
            H::W(_) => W,
            H::D(_) => D,
        }
    }

    pub fn append(&mut self, d: &[u8]) {
        lib(|| each!(self, h => h.append(d)))
    }
    pub fn cp(&self) -> [u8; 164] {
        lib(|| each!(self, h => h.checkpoint()))
    }
    /// Finalises at width WIDTHS[w].
    pub fn fin(self, w: usize) -> R {
        lib(|| {
            each!(self, h => match w {
                0 => [h.finalize64(), 0, 0, 0],
                1 => { let r = h.finalize128(); [r[0], r[1], 0, 0] }
                _ => h.finalize256(),
            })
        })
    }
    /// One-shot helper.
    pub fn hash(self, w: usize, d: &[u8]) -> R {
        lib(|| {
            each!(self, h => match w {
                0 => [h.hash64(d), 0, 0, 0],
                1 => { let r = h.hash128(d); [r[0], r[1], 0, 0] }
                _ => h.hash256(d),
            })
        })
    }
    pub fn finish(&self) -> Option<u64> {
        lib(|| each_std!(self, h => Some(Hasher::finish(h)), None))
    }
    pub fn has_std(&self) -> bool {
        each_std!(self, _h => true, false)
    }
    pub fn hwrite(&mut self, d: &[u8]) {
        lib(|| each_std!(self, h => Hasher::write(h, d), self.append(d)))
    }
    pub fn debug(&self, f: &mut dyn core::fmt::Write, alt: bool) -> core::fmt::Result {
        lib(|| {
            each!(self, h => if alt { write!(f, "{:#?}", h) } else { write!(f, "{:?}", h) })
        })
    }

    /// Feeds bytes through entry point `e`; returns what io::Write::write reported, if that was it.
    pub fn enter(&mut self, e: u64, d: &[u8]) {
        match e % 4 {
            0 => self.append(d),
            1 => self.hwrite(d),
            #[cfg(feature = "hwstd")]
            2 => {
                use std::io::Write;
                let mut d = d;
                // what a correct caller of a possibly short write does
                loop {
                    match lib(|| each_std!(self, h => Write::write(h, d), { h_append(self, d); Ok(d.len()) })) {
                        Ok(n) if n < d.len() && n > 0 => d = &d[n..],
                        _ => break,
                    }
                }
            }
            #[cfg(feature = "hwstd")]
            3 => {
                use std::io::Write;
                let _ = lib(|| each_std!(self, h => h.write_all(d), { h_append(self, d); Ok(()) }));
            }
            _ => self.append(d),
        }
    }
}

/// All widths, each from a hasher of its own.
pub fn three(mk: impl Fn() -> H, d: &[u8]) -> [R; 3] {
    [mk().hash(0, d), mk().hash(1, d), mk().hash(2, d)]
}

#[cfg(feature = "hwstd")]
#[allow(dead_code)]
fn h_append(h: &mut H, d: &[u8]) {
    h.append(d)
}

/// A fixed-size text sink.
pub struct Text {
    pub buf: [u8; 2600],
    pub n: usize,
    pub lost: usize,
}
impl Text {
    pub fn new() -> Text {
        Text {
            buf: [0; 2600],
            n: 0,
            lost: 0,
        }
    }
    pub fn get(&self) -> &str {
        core::str::from_utf8(&self.buf[..self.n]).unwrap_or("?")
    }
}
impl core::fmt::Write for Text {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        for b in s.bytes() {
            if self.n < self.buf.len() {
                self.buf[self.n] = b;
                self.n += 1;
            } else {
                self.lost += 1;
            }
        }
        Ok(())
    }
}
