//! Workloads that need std: adapters (C12), selection (C10), interleaved instances (C15).
use crate::ctx::{lib, show, showk, Ctx, SECTION};
use crate::h::*;
use crate::{each, each_std};
use highway::{HighwayBuildHasher, HighwayHash, HighwayHasher, Key};
use monref::{Model, Rng};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::{BuildHasher, BuildHasherDefault, Hash, Hasher};

fn key(ctx: &Ctx, r: &mut Rng) -> [u64; 4] {
    let i = r.below(40);
    ctx.p.dict.key(i, r)
}

// ---- values to be hashed ------------------------------------------------------------------------

#[derive(Hash, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Val {
    Unit,
    Ints(u8, i16, u32, i64, u128, usize),
    Text(String, char, bool),
    Bytes(Vec<u8>),
    Words(Vec<u16>, [u64; 3]),
    Nest(Option<Box<Val>>, Vec<Val>),
    Path(std::path::PathBuf, std::net::IpAddr, std::time::Duration),
    Tree(BTreeMap<u32, String>),
}

/// An integer of up to 128 bits: any, small, one-sided, extreme.
fn int(r: &mut Rng) -> u128 {
    let any = (r.u64() as u128) << 64 | r.u64() as u128;
    match r.below(10) {
        0 => 0,
        1 => r.below(300) as u128,
        2 => !(r.below(300) as u128),
        3 => any >> r.below(128),
        4 => any << r.below(128),
        5 => 1 << r.below(128),
        6 => (1u128 << r.below(128)).wrapping_sub(1),
        7 => (r.u64() as u8 as u128) * 0x0101_0101_0101_0101_0101_0101_0101_0101,
        _ => any,
    }
}

fn val(r: &mut Rng, depth: u32) -> Val {
    let text = |r: &mut Rng, n: usize| -> String { (0..r.idx(n)).map(|_| char::from_u32(0x20 + r.below(0x250) as u32).unwrap_or('x')).collect() };
    match r.below(if depth == 0 { 6 } else { 8 }) {
        0 => Val::Unit,
        1 => Val::Ints(int(r) as u8, int(r) as i16, int(r) as u32, int(r) as i64, int(r), int(r) as usize),
        2 => Val::Text(text(r, 60), 'é', r.chance(1, 2)),
        3 => {
            let mut v = vec![0; r.idx(140)];
            r.fill(&mut v);
            Val::Bytes(v)
        }
        4 => Val::Words((0..r.idx(40)).map(|_| r.u64() as u16).collect(), [r.u64(), 1, r.u64()]),
        5 => Val::Path(text(r, 30).replace('/', "_").into(), std::net::IpAddr::from([r.u64() as u8, 1, 2, 3]), std::time::Duration::from_nanos(r.u64())),
        6 => Val::Tree((0..r.below(5) as u32).map(|i| (i * 3, text(r, 20))).collect()),
        _ => Val::Nest(if r.chance(1, 2) { Some(Box::new(val(r, depth - 1))) } else { None }, (0..r.idx(4)).map(|_| val(r, depth - 1)).collect()),
    }
}

/// Collects what a value feeds to a Hasher.
#[derive(Default, Clone)]
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
    fn finish(&self) -> u64 {
        0
    }
}
fn bytes_of<T: Hash + ?Sized>(v: &T) -> Vec<u8> {
    let mut r = Rec::default();
    v.hash(&mut r);
    r.0
}

// ---- C12 ----------------------------------------------------------------------------------------

/// The 64-bit hash of `b`, by a fresh hasher of the same type.
fn h64(k: Kind, key: [u64; 4], b: &[u8]) -> u64 {
    H::new(k, key, 0).hash(0, b)[0]
}

#[cfg(feature = "hwstd")]
struct Drip<'a>(&'a [u8], Rng);
#[cfg(feature = "hwstd")]
impl std::io::Read for Drip<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = (1 + self.1.idx(70)).min(self.0.len()).min(b.len());
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}

pub fn adapt(ctx: &mut Ctx) {
    let ks = ctx.p.kinds.clone();
    // 1: finish at every length, repeated, between writes
    for n in 0..=130usize {
        for (ki, k) in ks.iter().enumerate() {
            if !ctx.sel(SECTION + (n * 8 + ki) as u64) {
                continue;
            }
            let mut r = ctx.rng();
            let key = key(ctx, &mut r);
            let d = ctx.p.dict.data(r.below(18), n + 40, key, &mut r);
            let mut h = H::new(*k, key, 0);
            if !h.has_std() {
                continue;
            }
            ctx.seen((n * 8 + ki) as u64);
            h.hwrite(&d[..n]);
            let want = h64(*k, key, &d[..n]);
            let got = [h.finish(), h.finish(), h.finish()];
            h.hwrite(&d[n..n + 7]);
            h.hwrite(&d[n + 7..]);
            let (got2, want2) = (h.finish(), h64(*k, key, &d));
            ctx.count("finish compared", 4);
            if got != [Some(want); 3] || got2 != Some(want2) || h.fin(0)[0] != want2 {
                ctx.fail(format!("{:?}: finish after {} bytes: {:x?}, after 40 more {:x?}; want {:x} {:x}; key {} data {}", k, n, got, got2, want, want2, showk(key), show(&d)));
            }
        }
    }
    // 2: every integer write, the special values of each
    for v in 0..480u64 {
        for (ki, k) in ks.iter().enumerate() {
            if !ctx.sel(5 * SECTION + v * 8 + ki as u64) {
                continue;
            }
            let mut r = ctx.rng();
            let key = key(ctx, &mut r);
            let pre = r.idx(66);
            let d = ctx.p.dict.data(r.below(18), pre, key, &mut r);
            let mut h = H::new(*k, key, 0);
            if !h.has_std() {
                continue;
            }
            h.hwrite(&d);
            let mut b = d.clone();
            for i in 0..1 + r.below(3) {
                let x = if i == 0 {
                    match v / 12 {
                        0 => 0,
                        1 => 1,
                        2 => !0,
                        3 => 1 << 127 | 1 << 63 | 1 << 31 | 1 << 15 | 1 << 7,
                        4 => u64::MAX as u128,
                        5 => (u64::MAX as u128) << 64,
                        _ => int(&mut r),
                    }
                } else {
                    int(&mut r)
                };
                macro_rules! one { ($m:ident, $t:ty) => {{ let y = x as $t; lib(|| each_std!(&mut h, h => h.$m(y), ())); b.extend_from_slice(&y.to_ne_bytes()); }} }
                match if i == 0 { v % 12 } else { r.below(12) } {
                    0 => one!(write_u8, u8),
                    1 => one!(write_u16, u16),
                    2 => one!(write_u32, u32),
                    3 => one!(write_u64, u64),
                    4 => one!(write_u128, u128),
                    5 => one!(write_usize, usize),
                    6 => one!(write_i8, i8),
                    7 => one!(write_i16, i16),
                    8 => one!(write_i32, i32),
                    9 => one!(write_i64, i64),
                    10 => one!(write_i128, i128),
                    _ => one!(write_isize, isize),
                }
            }
            ctx.seen(v * 8 + ki as u64);
            ctx.count("integer writes compared", 1);
            let (got, want) = (h.finish(), h64(*k, key, &b));
            if got != Some(want) || h.fin(0)[0] != want {
                ctx.fail(format!("{:?}: {} bytes then integer writes (first kind {}), all bytes {}: finish {:x?} want {:x}; key {}", k, pre, v % 12, show(&b), got, want, showk(key)));
            }
        }
    }
    // 3: any interleaving of everything the traits offer
    let max = ctx.p.max;
    ctx.random(2, |ctx, r| {
        let k = ks[r.idx(ks.len())];
        let key = key(ctx, r);
        let mut h = if r.chance(1, 6) { H::restore(k, H::new(k, key, 0).cp(), 0) } else { H::new(k, key, r.u64()) };
        if !h.has_std() {
            return;
        }
        let mut b: Vec<u8> = Vec::new();
        let mut trace = String::new();
        let mut sig = 0u64;
        for _ in 0..2 + r.idx(25) {
            let cap = if r.chance(1, 60) { max.min(1 << 17) } else { 220 };
            let n = if r.chance(1, 10) { 0 } else { ctx.p.dict.len(cap, r) };
            let s = r.u64();
            let d = ctx.p.dict.data(s, n, key, r);
            let op = r.below(20);
            sig = monref::rng::mix(sig ^ op ^ (n as u64) << 8);
            if trace.len() < 300 {
                trace += &format!(" {}:{}", op, n);
            }
            match op {
                0..=2 => {
                    h.hwrite(&d);
                    b.extend_from_slice(&d);
                }
                3 => {
                    let x = int(r);
                    macro_rules! int { ($m:ident, $t:ty) => {{ let v = x as $t; lib(|| each_std!(&mut h, h => h.$m(v), ())); b.extend_from_slice(&v.to_ne_bytes()); }} }
                    match r.below(12) {
                        0 => int!(write_u8, u8),
                        1 => int!(write_u16, u16),
                        2 => int!(write_u32, u32),
                        3 => int!(write_u64, u64),
                        4 => int!(write_u128, u128),
                        5 => int!(write_usize, usize),
                        6 => int!(write_i8, i8),
                        7 => int!(write_i16, i16),
                        8 => int!(write_i32, i32),
                        9 => int!(write_i64, i64),
                        10 => int!(write_i128, i128),
                        _ => int!(write_isize, isize),
                    }
                }
                4 => {
                    let v = val(r, 2);
                    lib(|| each_std!(&mut h, h => v.hash(h), ()));
                    b.extend_from_slice(&bytes_of(&v));
                }
                5 => {
                    h.append(&d);
                    b.extend_from_slice(&d);
                }
                6..=9 => {
                    let want = h64(k, key, &b);
                    for _ in 0..1 + r.idx(3) {
                        ctx.count("finish compared", 1);
                        let got = h.finish();
                        if got != Some(want) {
                            ctx.fail(format!("{:?}: finish {:x?} want {:x}: key {} history{}", k, got, want, showk(key), trace));
                        }
                    }
                }
                10 => {
                    // through a mutable reference and a box
                    lib(|| each_std!(&mut h, h => { let q = &mut *h; Hasher::write(&mut { q }, &d) }, ()));
                    b.extend_from_slice(&d);
                }
                #[cfg(feature = "hwstd")]
                _ => io_op(ctx, &mut h, &mut b, op, &d, r, &trace),
                #[cfg(not(feature = "hwstd"))]
                _ => {}
            }
            if ctx.stop {
                return;
            }
        }
        ctx.seen(sig);
        ctx.sample(|| format!("{:?} key {} history (op:len){}", k, showk(key), trace));
        let got = h.finish();
        let want = h64(k, key, &b);
        let w = r.idx(3);
        let fin = h.fin(w);
        ctx.count("finish compared", 1);
        ctx.count("whole histories compared", 1);
        if got != Some(want) || fin != H::new(k, key, 0).hash(w, &b) {
            ctx.fail(format!("{:?}: after history{}: key {} {} bytes: finish {:x?} want {:x}", k, trace, showk(key), b.len(), got, want));
        }
        ctx.given_bytes(key, &b);
        ctx.dig(want);
    });
    builders(ctx);
}

#[cfg(feature = "hwstd")]
fn io_op(ctx: &mut Ctx, h: &mut H, b: &mut Vec<u8>, op: u64, d: &[u8], r: &mut Rng, trace: &str) {
    use std::io::{IoSlice, Write};
    let k = h.kind();
    let bad = |ctx: &mut Ctx, what: String| ctx.fail(format!("{:?}: {} with {} bytes, history{}", k, what, d.len(), trace));
    ctx.count("io::Write calls", 1);
    match op {
        11 | 12 => {
            let res = lib(|| each_std!(h, h => Write::write(h, d), Ok(d.len())));
            match res {
                Ok(n) if n == d.len() => {}
                x => bad(ctx, format!("Write::write returned {:?}", x)),
            }
            b.extend_from_slice(d);
        }
        13 => {
            if let Err(e) = lib(|| each_std!(h, h => h.write_all(d), Ok(()))) {
                bad(ctx, format!("write_all failed: {:?}", e.kind()));
            }
            b.extend_from_slice(d);
        }
        14 => {
            for _ in 0..1 + r.idx(3) {
                if let Err(e) = lib(|| each_std!(h, h => h.flush(), Ok(()))) {
                    bad(ctx, format!("flush failed: {:?}", e.kind()));
                }
            }
        }
        15 | 16 => {
            let mut src = Drip(d, r.clone());
            let res = each_std!(h, h => std::io::copy(&mut src, h), Ok(d.len() as u64));
            match res {
                Ok(n) if n == d.len() as u64 => {}
                x => bad(ctx, format!("io::copy returned {:?}", x)),
            }
            b.extend_from_slice(d);
        }
        17 => {
            // from none to very many pieces, empty ones among them
            let parts = match r.below(6) {
                0 => 0,
                1 => 1 + r.idx(3),
                2 => 15 + r.idx(4),
                3 => 60 + r.idx(10),
                4 => [255, 256, 257, 1023, 1024, 1025, 1030][r.idx(7)],
                _ => r.idx(40),
            };
            let d: &[u8] = if parts == 0 { &[] } else { d };
            let mut cuts: Vec<usize> = (1..parts).map(|_| r.idx(d.len() + 1)).collect();
            cuts.sort();
            let mut v = Vec::new();
            let mut at = 0;
            for c in cuts.iter().copied().chain(if parts > 0 { Some(d.len()) } else { None }) {
                v.push(IoSlice::new(&d[at..c]));
                at = c;
            }
            ctx.max("most pieces in one write_vectored", v.len() as u64);
            let res = lib(|| each_std!(h, h => h.write_vectored(&v), Ok(0)));
            match res {
                Ok(w) if w <= d.len() && (w > 0 || d.is_empty()) => b.extend_from_slice(&d[..w]),
                x => bad(ctx, format!("write_vectored returned {:?}", x)),
            }
        }
        18 => {
            // text in pieces, also of totals and parts at which a buffer would be full
            let n = match r.below(4) {
                0 => r.idx(40),
                1 => ((1usize << (3 + r.idx(11))) + r.idx(3)).saturating_sub(1),
                _ => d.len().min(2000),
            };
            let s: String = (0..n).map(|_| (b' ' + r.below(95) as u8) as char).collect();
            let mut cuts: Vec<usize> = (0..r.idx(9)).map(|_| if r.chance(1, 3) { (8 << r.idx(11)).min(n) } else { r.idx(n + 1) }).collect();
            cuts.push(n);
            cuts.sort();
            let res = if r.chance(1, 8) {
                let x = r.u64();
                b.extend_from_slice(format!("{} {:>9} {:?}", x, s, n).as_bytes());
                lib(|| each_std!(h, h => h.write_fmt(format_args!("{} {:>9} {:?}", x, s, n)), Ok(())))
            } else {
                b.extend_from_slice(s.as_bytes());
                let text = Pieces(&s, &cuts);
                ctx.max("most pieces in one write!", cuts.len() as u64);
                lib(|| each_std!(h, h => h.write_fmt(format_args!("{}", text)), Ok(())))
            };
            if res.is_err() {
                bad(ctx, "write! failed".into());
            }
        }
        _ => {
            let cap = 1 + r.idx(100);
            let ok = each_std!(h, h => {
                let mut w = std::io::BufWriter::with_capacity(cap, h.by_ref());
                let mut ok = true;
                let mut at = 0;
                while at < d.len() {
                    let n = (1 + r.idx(50)).min(d.len() - at);
                    ok &= w.write_all(&d[at..at + n]).is_ok();
                    at += n;
                }
                ok & w.flush().is_ok()
            }, true);
            if !ok {
                bad(ctx, "BufWriter over it failed".into());
            }
            b.extend_from_slice(d);
        }
    }
}

fn builders(ctx: &mut Ctx) {
    ctx.random_n(3, ctx.p.n / 2, &mut |ctx, r| {
        let key = key(ctx, r);
        let b1 = lib(|| HighwayBuildHasher::new(Key(key)));
        let b2 = lib(|| HighwayBuildHasher::new(Key(key)));
        let v = val(r, 3);
        let by = bytes_of(&v);
        let want = h64(D, key, &by);
        let x = [lib(|| b1.hash_one(&v)), lib(|| b2.hash_one(&v)), lib(|| b1.hash_one(&v))];
        ctx.seen(monref::digest(key[0], &by));
        ctx.count("hash_one compared", 3);
        ctx.given_bytes(key, &by);
        ctx.dig(x[0]);
        if x != [want; 3] {
            ctx.fail(format!("hash_one {:x?}, dispatcher with that key over the same bytes {:x}: key {} value {:?}", x, want, showk(key), v));
        }
        // two hashers of one builder, interleaved; identical to the dispatcher
        let mut h1 = H::D(lib(|| b1.build_hasher()));
        let mut h2 = H::D(lib(|| b1.build_hasher()));
        let (mut t1, mut t2) = (Vec::new(), Vec::new());
        for _ in 0..r.idx(8) {
            let mut d = vec![0; r.idx(70)];
            r.fill(&mut d);
            if r.chance(1, 2) {
                h1.hwrite(&d);
                t1.extend_from_slice(&d);
            } else {
                h2.append(&d);
                t2.extend_from_slice(&d);
            }
        }
        let w = r.idx(3);
        ctx.count("builder hashers compared", 2);
        if h1.fin(w) != H::new(D, key, 0).hash(w, &t1) || h2.fin(w) != H::new(D, key, 0).hash(w, &t2) {
            ctx.fail(format!("hashers of one builder are not the dispatcher with its key: key {}", showk(key)));
        }
        // the default builder is the zero key
        let d1 = lib(|| HighwayBuildHasher::default());
        if lib(|| d1.hash_one(&v)) != h64(D, [0; 4], &by) {
            ctx.fail(format!("default builder: value {:?}", v));
        }
        let d2 = BuildHasherDefault::<HighwayHasher>::default();
        if lib(|| d2.hash_one(&v)) != h64(D, [0; 4], &by) {
            ctx.fail(format!("BuildHasherDefault<HighwayHasher>: value {:?}", v));
        }
    });
    ctx.random_n(4, ctx.p.n / 40 + 3, &mut |ctx, r| {
        // a collection against an ordered one
        let key = key(ctx, r);
        let mut m: HashMap<Val, u64, HighwayBuildHasher> = HashMap::with_hasher(HighwayBuildHasher::new(Key(key)));
        let mut s: HashSet<u64, HighwayBuildHasher> = HashSet::with_hasher(HighwayBuildHasher::new(Key(key)));
        let mut t: BTreeMap<Val, u64> = BTreeMap::new();
        let mut u: BTreeSet<u64> = BTreeSet::new();
        let vals: Vec<Val> = (0..30).map(|_| val(r, 2)).collect();
        for _ in 0..200 {
            let v = &vals[r.idx(vals.len())];
            let x = r.below(50);
            match r.below(3) {
                0 => {
                    if m.insert(v.clone(), x) != t.insert(v.clone(), x) || s.insert(x) != u.insert(x) {
                        ctx.fail("HashMap with HighwayBuildHasher: insert".into());
                    }
                }
                1 => {
                    if m.remove(v) != t.remove(v) || s.remove(&x) != u.remove(&x) {
                        ctx.fail("HashMap with HighwayBuildHasher: remove".into());
                    }
                }
                _ => {
                    if m.get(v) != t.get(v) || s.contains(&x) != u.contains(&x) {
                        ctx.fail("HashMap with HighwayBuildHasher: get".into());
                    }
                }
            }
            ctx.count("collection operations", 2);
            if ctx.stop {
                return;
            }
        }
        ctx.seen(r.u64());
    });
}

/// C07: the default through std.
pub fn default_std(ctx: &mut Ctx) {
    ctx.random_n(30, ctx.p.n / 4 + 10, &mut |ctx, r| {
        let v = val(r, 2);
        let by = bytes_of(&v);
        let mut m = Model::new([0; 4]);
        m.append(&by);
        let want = m.all();
        ctx.seen(monref::digest(3, &by));
        macro_rules! one {
            ($t:ty) => {{
                let got = lib(|| BuildHasherDefault::<$t>::default().hash_one(&v));
                ctx.count("BuildHasherDefault results compared", 1);
                if got != want[0] {
                    ctx.fail(format!("BuildHasherDefault<{}>: {:x} zero-key HighwayHash {:x} of {}", stringify!($t), got, want[0], show(&by)));
                }
                #[cfg(feature = "hwstd")]
                {
                    let mut h = lib(|| <$t>::default());
                    let n = std::io::copy(&mut &by[..], &mut h);
                    let f = lib(|| Hasher::finish(&h));
                    ctx.count("io::copy into a default hasher", 1);
                    if n.ok() != Some(by.len() as u64) || f != want[0] || lib(|| h.finalize256()) != want[3..] {
                        ctx.fail(format!("io::copy into {}::default(): {:x} want {:x} of {}", stringify!($t), f, want[0], show(&by)));
                    }
                }
            }};
        }
        one!(highway::PortableHash);
        one!(HighwayHasher);
        #[cfg(target_arch = "x86_64")]
        {
            if cpu_sse41() {
                one!(highway::SseHash);
            }
            if cpu_avx2() {
                one!(highway::AvxHash);
            }
        }
        #[cfg(all(target_family = "wasm", target_feature = "simd128"))]
        one!(highway::WasmHash);
        let got = lib(|| HighwayBuildHasher::default().hash_one(&v));
        if got != want[0] {
            ctx.fail(format!("HighwayBuildHasher::default(): {:x} zero-key HighwayHash {:x} of {}", got, want[0], show(&by)));
        }
        #[derive(Default)]
        struct Holder {
            h: Option<HighwayHasher>,
            g: (HighwayHasher, u8),
        }
        let h = lib(|| Holder::default());
        if h.h.is_some() || h.g.1 != 0 || lib(|| h.g.0.hash64(&by)) != want[0] {
            ctx.fail("derived Default of a struct with a HighwayHasher".into());
        }
    });
}

// ---- C10 ----------------------------------------------------------------------------------------

/// Text that is written in pieces.
struct Pieces<'a>(&'a str, &'a [usize]);
impl std::fmt::Display for Pieces<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        use std::fmt::Write;
        let mut at = 0;
        for c in self.1 {
            let p = &self.0[at..*c];
            match p.len() {
                1 => f.write_char(p.as_bytes()[0] as char)?,
                _ => f.write_str(p)?,
            }
            at = *c;
        }
        Ok(())
    }
}

/// (backend name, everything before the state) as Debug shows them.
fn shown(h: &HighwayHasher) -> (&'static str, String) {
    let mut t = Text::new();
    {
        use core::fmt::Write;
        let _ = lib(|| write!(t, "{:?}", h));
    }
    let s = t.get();
    let mut best: (&'static str, usize) = ("?", usize::MAX);
    for n in ["PortableHash", "SseHash", "AvxHash", "NeonHash", "WasmHash"] {
        if let Some(i) = s.find(n) {
            if i < best.1 {
                best = (n, i);
            }
        }
    }
    let pre = if best.1 == usize::MAX { s.to_string() } else { s[..best.1].to_string() };
    (best.0, pre)
}

pub fn select(ctx: &mut Ctx) {
    let _hw_std = cfg!(feature = "hwstd");
    #[cfg(target_arch = "x86_64")]
    let (c_avx, c_sse, d_avx, d_sse) = (cfg!(target_feature = "avx2"), cfg!(target_feature = "sse4.1"), std::is_x86_feature_detected!("avx2"), std::is_x86_feature_detected!("sse4.1"));
    // what the configuration permits, best first
    #[cfg(target_arch = "x86_64")]
    let expect = if c_avx {
        "AvxHash"
    } else if c_sse {
        "SseHash"
    } else if _hw_std && d_avx {
        "AvxHash"
    } else if _hw_std && d_sse {
        "SseHash"
    } else {
        "PortableHash"
    };
    #[cfg(target_arch = "x86_64")]
    let permitted: Vec<&str> = [("AvxHash", c_avx || _hw_std && d_avx), ("SseHash", c_sse || _hw_std && d_sse)].iter().filter(|x| x.1).map(|x| x.0).collect();
    #[cfg(target_arch = "aarch64")]
    let (expect, permitted) = ("NeonHash", vec!["NeonHash"]);
    #[cfg(all(target_family = "wasm", target_feature = "simd128"))]
    let (expect, permitted) = ("WasmHash", vec!["WasmHash"]);
    #[cfg(not(any(target_arch = "x86_64", target_arch = "aarch64", all(target_family = "wasm", target_feature = "simd128"))))]
    let (expect, permitted): (&str, Vec<&str>) = ("PortableHash", vec![]);

    let first = shown(&HighwayHasher::new(Key([1, 2, 3, 4])));
    ctx.count(
        match first.0 {
            "AvxHash" => "selected AvxHash",
            "SseHash" => "selected SseHash",
            "NeonHash" => "selected NeonHash",
            "WasmHash" => "selected WasmHash",
            _ => "selected PortableHash",
        },
        1,
    );
    let check = |ctx: &mut Ctx, h: &HighwayHasher, how: &str| {
        let s = shown(h);
        if s.0 == "?" {
            ctx.count("selections that Debug does not show", 1);
            return;
        }
        ctx.count("selections observed", 1);
        let ok = if permitted.is_empty() { s.0 == "PortableHash" } else { permitted.contains(&s.0) };
        if !ok {
            ctx.fail(format!("{}: selected {}, permitted here: {:?} or else PortableHash", how, s.0, permitted));
        } else if s != first {
            ctx.fail(format!("{}: selected {} ({}), new() selected {} ({})", how, s.0, s.1, first.0, first.1));
        } else if s.0 == "PortableHash" && expect != "PortableHash" {
            // which of two permitted SIMD backends is selected is not judged
            ctx.fail(format!("{}: selected {}, although {:?} are permitted", how, s.0, permitted));
        }
    };

    #[cfg(target_arch = "x86_64")]
    for v in 0..40u64 {
        if !ctx.sel(9 * SECTION + v) {
            continue;
        }
        let mut r = ctx.rng();
        let k = key(ctx, &mut r);
        let count = ctx.p.dict.count(v, &mut r);
        let c = ctx.p.dict.state(count, &mut r);
        let res = [
            ("AvxHash::new", lib(|| highway::AvxHash::new(Key(k)).is_some()), d_avx, c_avx),
            ("AvxHash::from_checkpoint", lib(|| highway::AvxHash::from_checkpoint(c).is_some()), d_avx, c_avx),
            ("SseHash::new", lib(|| highway::SseHash::new(Key(k)).is_some()), d_sse, c_sse),
            ("SseHash::from_checkpoint", lib(|| highway::SseHash::from_checkpoint(c).is_some()), d_sse, c_sse),
        ];
        for (what, got, detected, compiled) in res {
            ctx.count("explicit constructors observed", 1);
            if got && !detected {
                ctx.fail(format!("{} returned a hasher on a CPU without the feature", what));
            }
            if got && !_hw_std && !compiled {
                ctx.fail(format!("{} returned a hasher without detection (no_std, feature not enabled at compile time)", what));
            }
            if !got && _hw_std && detected {
                ctx.fail(format!("{} returned None although the feature is detected", what));
            }
        }
    }

    // every way of obtaining one, with any history, in any place; results as portable
    let case = |ctx: &mut Ctx, r: &mut Rng, way: u64| {
        let k = key(ctx, r);
        let cap = if r.chance(1, 40) { ctx.p.max.min(1 << 16) } else { 300 };
        let len = ctx.p.dict.len(cap, r);
        let s = r.u64();
        let d = ctx.p.dict.data(s, len, k, r);
        let cut = r.idx(len + 1);
        let count = ctx.p.dict.count(99, r);
        let arb = ctx.p.dict.state(count, r);
        let pre = |h: &mut HighwayHasher| lib(|| h.append(&d[..cut]));
        const WAYS: [&str; 14] = ["new", "default", "from_checkpoint(own)", "from_checkpoint(portable's)", "from_checkpoint(arbitrary)", "clone", "clone of clone", "clone_from", "HighwayBuildHasher::build_hasher", "HighwayBuildHasher::default().build_hasher", "BuildHasherDefault", "mem::take", "restored then cloned", "default then restored"];
        let way = (way % 14) as usize;
        let mut zero = false;
        let mut base: Option<[u8; 164]> = None;
        let mut fed = false;
        let h: HighwayHasher = match way {
            0 => lib(|| HighwayHasher::new(Key(k))),
            1 => {
                zero = true;
                lib(|| HighwayHasher::default())
            }
            2 => {
                let mut h = lib(|| HighwayHasher::new(Key(k)));
                pre(&mut h);
                fed = true;
                lib(|| HighwayHasher::from_checkpoint(h.checkpoint()))
            }
            3 => {
                let mut h = lib(|| highway::PortableHash::new(Key(k)));
                lib(|| h.append(&d[..cut]));
                fed = true;
                lib(|| HighwayHasher::from_checkpoint(h.checkpoint()))
            }
            4 => {
                base = Some(arb);
                lib(|| HighwayHasher::from_checkpoint(arb))
            }
            5 | 6 => {
                let mut h = lib(|| HighwayHasher::new(Key(k)));
                pre(&mut h);
                fed = true;
                let mut c = lib(|| h.clone());
                if way == 6 {
                    drop(h);
                    c = lib(|| c.clone());
                }
                c
            }
            7 => {
                let mut h = lib(|| HighwayHasher::new(Key(k)));
                pre(&mut h);
                fed = true;
                let mut t = lib(|| HighwayHasher::default());
                lib(|| t.append(&d));
                lib(|| t.clone_from(&h));
                t
            }
            8 => lib(|| HighwayBuildHasher::new(Key(k)).build_hasher()),
            9 => {
                zero = true;
                lib(|| HighwayBuildHasher::default().build_hasher())
            }
            10 => {
                zero = true;
                lib(|| BuildHasherDefault::<HighwayHasher>::default().build_hasher())
            }
            11 => {
                let mut h = lib(|| HighwayHasher::new(Key(k)));
                pre(&mut h);
                let _ = lib(|| core::mem::take(&mut h));
                zero = true;
                h
            }
            12 => {
                base = Some(arb);
                lib(|| HighwayHasher::from_checkpoint(arb).clone())
            }
            _ => {
                zero = true;
                lib(|| HighwayHasher::from_checkpoint(HighwayHasher::default().checkpoint()))
            }
        };
        let how = WAYS[way];
        ctx.seen(monref::digest(way as u64, &d) ^ len as u64);
        check(ctx, &h, how);
        // the portable twin
        let mk = || match base {
            Some(c) => H::restore(P, c, 0),
            None => {
                let mut p = H::new(P, if zero { [0; 4] } else { k }, 0);
                if fed {
                    p.append(&d[..cut]);
                }
                // portable goes the same way
                match way {
                    2 | 3 | 13 => H::restore(P, p.cp(), 0),
                    5 | 6 | 7 => p.clone(),
                    _ => p,
                }
            }
        };
        let rest = if fed { &d[cut..] } else { &d[..] };
        let mut h = Box::new(h);
        let mid = r.idx(rest.len() + 1);
        lib(|| h.append(&rest[..mid]));
        check(ctx, &h, how);
        let f = lib(|| Hasher::finish(&*h));
        let cp = lib(|| h.checkpoint());
        lib(|| Hasher::write(&mut *h, &rest[mid..]));
        check(ctx, &h, how);
        let w = r.idx(3);
        let mut p = mk();
        p.append(&rest[..mid]);
        let pf = p.finish();
        // restored by portable it goes on as portable's own
        let cont = H::restore(P, cp, 0).hash(w, &rest[mid..]);
        let pcont = H::restore(P, p.cp(), 0).hash(w, &rest[mid..]);
        p.hwrite(&rest[mid..]);
        let want = p.fin(w);
        let one = if r.chance(1, 2) {
            let c = lib(|| h.clone());
            check(ctx, &c, "clone at the end");
            Some(H::D(*c).fin(w))
        } else {
            None
        };
        let got = H::D(*h).fin(w);
        ctx.count("results compared with portable", 4);
        if Some(f) != pf || got != want || cont != pcont || one.map_or(false, |o| o != want) {
            ctx.fail(format!("{}: key {} data {} cut {} mid {} width {}: {:x?} portable {:x?}", how, showk(k), show(&d), cut, mid, WIDTHS[w], got, want));
        }
        // the one-shot helpers
        let w = r.idx(3);
        let nk = if zero { [0; 4] } else { k };
        if H::new(D, nk, 0).hash(w, &d) != H::new(P, nk, 0).hash(w, &d) {
            ctx.fail(format!("one-shot: key {} data {} width {} differs from portable", showk(nk), show(&d), WIDTHS[w]));
        }
    };
    for way in 0..14u64 {
        for v in 0..50u64 {
            if ctx.sel(SECTION + way * 64 + v) {
                let mut r = ctx.rng();
                case(ctx, &mut r, way);
            }
        }
    }
    ctx.random(2, |ctx, r| {
        let way = r.below(14);
        case(ctx, r, way);
    });
}

// ---- C15 ----------------------------------------------------------------------------------------

/// One independent history, as a function of (seed, id): which type, key, bytes, width.
#[derive(Clone, Debug)]
pub struct Job {
    pub kind: Kind,
    pub key: [u64; 4],
    pub how: u64,
    pub data: Vec<u8>,
    pub chunks: Vec<usize>,
    pub w: usize,
    pub peeks: u64,
}

/// `group` decides how the keys and bytes of jobs resemble each other.
pub fn job(p: &crate::Params, group: u64, id: u64) -> Job {
    let mut g = Rng::new(p.seed, group, 0x6a6f62);
    let base = p.dict.key(g.below(40), &mut g);
    let style = g.below(7);
    let cap = [0usize, 8, 40, 100, 300, 300, 2000][g.idx(7)];
    let bseed = g.u64();
    let share = g.chance(1, 3);
    let mut r = Rng::new(p.seed ^ group.rotate_left(32), id, 0x6a6f63);
    let mut key = base;
    match style {
        0 => {}
        1 => key[r.idx(4)] ^= 1 << r.below(64),
        2 => key[3] ^= r.below(4),
        3 => key = [base[r.idx(4)], base[r.idx(4)], base[r.idx(4)], base[r.idx(4)]],
        4 => {
            if r.chance(1, 2) {
                key = [0; 4]
            }
        }
        _ => key = [r.u64(), r.u64(), r.u64(), r.u64()],
    }
    let kind = p.kinds[r.idx(p.kinds.len())];
    let how = r.below(8);
    // a default hasher has the zero key
    if how == 5 {
        key = [0; 4];
    }
    let len = p.dict.len(cap, &mut r);
    let data = if share {
        // the same bytes for all jobs of the group, or nearly
        let mut q = Rng::new(bseed, 0, 0);
        let mut d = p.dict.data(q.u64(), cap.max(len), base, &mut q);
        d.truncate(len);
        if len > 0 && r.chance(1, 2) {
            d[r.idx(len)] ^= 1 << r.below(8);
        }
        d
    } else {
        p.dict.data(r.u64(), len, key, &mut r)
    };
    let mut chunks = p.dict.chunks(len, &mut r);
    if chunks.len() > 60 {
        chunks = vec![len / 2, len - len / 2];
    }
    Job { kind, key, how, data, chunks, w: r.idx(3), peeks: r.u64() }
}

impl Job {
    pub fn start(&self, shared: Option<&HighwayBuildHasher>) -> H {
        match self.how {
            5 => H::default(self.kind),
            6 => H::restore(self.kind, H::new(self.kind, self.key, 0).cp(), self.peeks),
            7 if self.kind == D => match shared {
                Some(b) => H::D(lib(|| b.build_hasher())),
                None => H::D(lib(|| HighwayBuildHasher::new(Key(self.key)).build_hasher())),
            },
            h => H::new(self.kind, self.key, h),
        }
    }
    pub fn step(&self, h: &mut H, i: usize) {
        let at: usize = self.chunks[..i].iter().sum();
        let d = &self.data[at..at + self.chunks[i]];
        h.enter(if self.peeks & 1 == 0 { 0 } else { self.peeks >> (i % 16) }, d);
        if (self.peeks >> (i % 60)) & 7 == 7 {
            let _ = h.finish();
            let _ = h.cp();
        }
    }
    pub fn run(&self) -> R {
        let mut h = self.start(None);
        for i in 0..self.chunks.len() {
            self.step(&mut h, i);
        }
        h.fin(self.w)
    }
    pub fn want(&self) -> R {
        let mut m = Model::new(self.key);
        m.append(&self.data);
        split(m.all())[self.w]
    }
}

/// Asks a fresh process for the result of a job run there alone. Set by the runner.
pub static mut ISOLATED: Option<fn(&crate::Params, u64, u64) -> Option<R>> = None;

/// A result of a job executed among others. The specification's value is only a filter: what decides is the result
/// of the same history executed alone in a process of its own.
pub fn judge(ctx: &mut Ctx, group: u64, id: u64, j: &Job, got: R, how: &str, always: bool) {
    ctx.count("instance results judged", 1);
    if got == j.want() && !always {
        return;
    }
    #[allow(static_mut_refs)]
    let iso = unsafe { ISOLATED.and_then(|f| f(&ctx.p, group, id)) };
    match iso {
        Some(x) => {
            ctx.count("instances executed alone in a fresh process", 1);
            if x != got {
                ctx.fail(format!("{}: group {} job {} ({:?} key {} {} bytes width {}): {:x?}, alone in a fresh process {:x?}", how, group, id, j.kind, showk(j.key), j.data.len(), WIDTHS[j.w], got, x));
            }
        }
        None => ctx.count("isolated execution unavailable", 1),
    }
}

pub fn interleave(ctx: &mut Ctx) {
    // 1: a handful of instances, steps interleaved at random
    ctx.random(1, |ctx, r| {
        let group = ctx.cur;
        let n = match r.below(20) {
            0 => 200,
            1..=4 => 24,
            _ => 2 + r.idx(6),
        };
        let jobs: Vec<Job> = (0..n).map(|i| job(&ctx.p, group, i as u64)).collect();
        let shared = if jobs.iter().all(|j| j.key == jobs[0].key) { Some(HighwayBuildHasher::new(Key(jobs[0].key))) } else { None };
        let mut live: Vec<(usize, usize, Option<H>)> = (0..n).map(|i| (i, 0, None)).collect();
        let early = r.chance(1, 2);
        if early {
            for l in live.iter_mut() {
                l.2 = Some(jobs[l.0].start(shared.as_ref()));
            }
        }
        let burst = 1 + r.idx(4);
        let mut sig = monref::rng::mix(n as u64);
        let mut steps = 0u64;
        while !live.is_empty() {
            let x = r.idx(live.len());
            for _ in 0..1 + r.idx(burst) {
                let (j, s, h) = &mut live[x];
                sig = monref::rng::mix(sig ^ *j as u64);
                steps += 1;
                match h {
                    None => *h = Some(jobs[*j].start(shared.as_ref())),
                    Some(hh) => {
                        if *s < jobs[*j].chunks.len() {
                            jobs[*j].step(hh, *s);
                            *s += 1;
                        }
                    }
                }
            }
            let done = live[x].2.is_some() && live[x].1 == jobs[live[x].0].chunks.len();
            if done {
                let (j, _, h) = live.swap_remove(x);
                let got = h.unwrap().fin(jobs[j].w);
                let always = ctx.p.only.is_none() && ctx.cur % 256 == 0 && j == 0;
                judge(ctx, group, j as u64, &jobs[j], got, "interleaved on one thread", always);
                if ctx.stop {
                    return;
                }
            }
        }
        ctx.seen(sig);
        ctx.count("interleaved steps", steps);
        ctx.max("most instances in one interleaving", n as u64);
        ctx.sample(|| format!("{} instances, {} steps, first job {:?} key {} {} bytes in {:?}", n, steps, jobs[0].kind, showk(jobs[0].key), jobs[0].data.len(), &jobs[0].chunks[..jobs[0].chunks.len().min(20)]));
    });
    // 2: very many instances alive at once
    for v in 0..2u64 {
        if !ctx.sel(2 * SECTION + v) {
            continue;
        }
        let group = ctx.cur;
        let n = if v == 0 { 3000 } else { 30_000.min(ctx.p.max) as u64 };
        let jobs: Vec<Job> = (0..n).map(|i| job(&ctx.p, group + i / 500, i)).collect();
        let mut hs: Vec<H> = jobs.iter().map(|j| j.start(None)).collect();
        let longest = jobs.iter().map(|j| j.chunks.len()).max().unwrap_or(0);
        for s in 0..longest {
            for (j, h) in jobs.iter().zip(hs.iter_mut()) {
                if s < j.chunks.len() {
                    j.step(h, s);
                }
            }
        }
        ctx.max("most instances in one interleaving", n);
        for (i, (j, h)) in jobs.iter().zip(hs).enumerate() {
            let got = h.fin(j.w);
            judge(ctx, group + i as u64 / 500, i as u64, j, got, "many alive at once", false);
            if ctx.stop {
                return;
            }
        }
        ctx.seen(v);
    }
    let _ = each!(&H::new(P, [0; 4], 0), _h => 0);
}
