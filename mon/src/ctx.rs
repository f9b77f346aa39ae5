use alloc::collections::BTreeMap;
use alloc::format;
use alloc::string::String;
use alloc::vec::Vec;
use core::sync::atomic::{AtomicU32, AtomicUsize, Ordering::Relaxed};
use monref::gen::Dict;
use monref::rng::mix;
use monref::Rng;

use crate::h::Kind;

// ---- process-wide services, set by the runner -------------------------------------------------

fn nowrite(_: &str) {}
fn noclock() -> u64 {
    0
}
pub struct Services {
    pub write: fn(&str),
    /// milliseconds
    pub clock: fn() -> u64,
}
static mut SERVICES: Services = Services {
    write: nowrite,
    clock: noclock,
};
/// To be called before anything else.
pub fn init(s: Services) {
    unsafe { SERVICES = s }
}
pub fn out(s: &str) {
    #[allow(static_mut_refs)]
    unsafe {
        (SERVICES.write)(s)
    }
}
pub fn now() -> u64 {
    #[allow(static_mut_refs)]
    unsafe {
        (SERVICES.clock)()
    }
}

// ---- breadcrumbs: what was running when something crashed --------------------------------------

pub static CASE_LO: AtomicU32 = AtomicU32::new(0);
pub static CASE_HI: AtomicU32 = AtomicU32::new(0);
pub fn set_case(c: u64) {
    CASE_LO.store(c as u32, Relaxed);
    CASE_HI.store((c >> 32) as u32, Relaxed);
}
pub fn case() -> u64 {
    CASE_LO.load(Relaxed) as u64 | (CASE_HI.load(Relaxed) as u64) << 32
}

/// What this thread is doing.
pub struct Here {
    pub in_lib: core::sync::atomic::AtomicBool,
    /// library calls made so far
    pub calls: AtomicUsize,
}
const HERE: Here = Here {
    in_lib: core::sync::atomic::AtomicBool::new(false),
    calls: AtomicUsize::new(0),
};
#[cfg(feature = "std")]
std::thread_local! {
    static TLS: Here = const { HERE };
}
#[cfg(not(feature = "std"))]
static TLS: Here = HERE;
/// calls of threads that have ended
pub static DONE_CALLS: AtomicUsize = AtomicUsize::new(0);

#[inline(always)]
fn here<R>(f: impl FnOnce(&Here) -> R) -> R {
    #[cfg(feature = "std")]
    return TLS.with(f);
    #[cfg(not(feature = "std"))]
    return f(&TLS);
}
/// For the watchdog of the thread that calls this.
pub fn here_ptr() -> *const Here {
    here(|h| h as *const Here)
}
pub fn calls() -> usize {
    here(|h| h.calls.load(Relaxed)).wrapping_add(DONE_CALLS.load(Relaxed))
}
/// At the end of a thread other than the main one.
pub fn thread_done() {
    here(|h| DONE_CALLS.fetch_add(h.calls.swap(0, Relaxed), Relaxed));
}

#[inline(always)]
pub fn in_lib() -> bool {
    #[cfg(feature = "std")]
    return TLS.try_with(|h| h.in_lib.load(Relaxed)).unwrap_or(false);
    #[cfg(not(feature = "std"))]
    return TLS.in_lib.load(Relaxed);
}

/// For callbacks and handlers that run inside of a library call.
pub fn set_in_lib(b: bool) {
    here(|h| h.in_lib.store(b, Relaxed));
}

/// Every call into the crate under test goes through here.
#[inline(always)]
pub fn lib<R>(f: impl FnOnce() -> R) -> R {
    here(|h| h.in_lib.store(true, Relaxed));
    let r = f();
    here(|h| {
        h.in_lib.store(false, Relaxed);
        h.calls.store(h.calls.load(Relaxed).wrapping_add(1), Relaxed);
    });
    r
}

/// Allocations seen by the counting allocator while in the library.
pub static LIB_ALLOCS: AtomicUsize = AtomicUsize::new(0);
/// All allocations (to show that the counter works).
pub static ALL_ALLOCS: AtomicUsize = AtomicUsize::new(0);
#[inline]
pub fn count_alloc() {
    ALL_ALLOCS.fetch_add(1, Relaxed);
    if in_lib() {
        LIB_ALLOCS.fetch_add(1, Relaxed);
    }
}

// ---- one run of one workload -------------------------------------------------------------------

#[derive(Clone, Default)]
pub struct Params {
    pub seed: u64,
    /// number of random cases
    pub n: u64,
    /// time limit of the random part, 0 for none
    pub ms: u64,
    /// how many of 1000 enumerated cases to run
    pub scale: u64,
    pub shard: (u64, u64),
    pub only: Option<u64>,
    pub kinds: Vec<Kind>,
    pub dict: Dict,
    /// longest input
    pub max: usize,
    pub digests: bool,
    /// judge against PortableHash taken through the same steps, not against the law itself
    pub twin: bool,
    /// an input file
    pub input: Vec<u8>,
    /// judge nothing but allocations within library calls
    pub allocs: bool,
}

pub struct Ctx {
    pub p: Params,
    pub wl: &'static str,
    pub cur: u64,
    pub stop: bool,
    pub fails: u32,
    cases: u64,
    start: u64,
    counters: BTreeMap<&'static str, u64>,
    distinct: Vec<u64>,
    samples: Vec<String>,
    dig: BTreeMap<u64, (u64, u64)>,
    skipped: u64,
    tries: u64,
    allocs_seen: usize,
}

pub const SECTION: u64 = 1 << 40;

pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' | '\\' => {
                o.push('\\');
                o.push(c)
            }
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o
}

impl Ctx {
    pub fn new(wl: &'static str, p: Params) -> Ctx {
        set_case(0);
        Ctx {
            p,
            wl,
            cur: 0,
            stop: false,
            fails: 0,
            cases: 0,
            start: now(),
            counters: BTreeMap::new(),
            distinct: Vec::new(),
            samples: Vec::new(),
            dig: BTreeMap::new(),
            skipped: 0,
            tries: 0,
            allocs_seen: LIB_ALLOCS.load(Relaxed),
        }
    }

    /// Whether this process runs the given enumerated case.
    pub fn sel(&mut self, case: u64) -> bool {
        if self.stop {
            return false;
        }
        match self.p.only {
            Some(o) => {
                if o != case {
                    return false;
                }
            }
            None => {
                let (i, n) = self.p.shard;
                let m = mix(case);
                if n > 1 && (m >> 32) % n != i {
                    return false;
                }
                if self.p.scale < 1000 && mix(m ^ self.p.seed) % 1000 >= self.p.scale {
                    self.skipped += 1;
                    return false;
                }
            }
        }
        self.begin(case);
        true
    }

    /// Cases that are always enumerated, divided among the processes.
    pub fn sel_always(&mut self, case: u64) -> bool {
        let s = core::mem::replace(&mut self.p.scale, 1000);
        let yes = self.sel(case);
        self.p.scale = s;
        yes
    }

    /// Cases that every process runs, whatever its share of the enumeration.
    pub fn sel_all(&mut self, case: u64) -> bool {
        if self.stop || self.p.only.map_or(false, |o| o != case) {
            return false;
        }
        self.begin(case);
        true
    }

    fn begin(&mut self, case: u64) {
        self.check_allocs();
        self.cur = case;
        set_case(case);
        self.cases += 1;
    }

    fn check_allocs(&mut self) {
        if self.p.allocs {
            let n = LIB_ALLOCS.load(Relaxed);
            let new = n.wrapping_sub(self.allocs_seen);
            self.allocs_seen = n;
            if new > 0 {
                self.report(format!("{} heap allocations within library calls", new));
            }
        }
    }

    pub fn rng(&self) -> Rng {
        Rng::new(self.p.seed, self.cur, self.wl.len() as u64)
    }

    /// The random part: `p.n` cases of a section, each with its own generator.
    pub fn random(&mut self, section: u64, mut f: impl FnMut(&mut Ctx, &mut Rng)) {
        self.random_n(section, self.p.n, &mut f)
    }

    pub fn random_n(&mut self, section: u64, n: u64, f: &mut dyn FnMut(&mut Ctx, &mut Rng)) {
        if let Some(o) = self.p.only {
            if o >> 40 == section && !self.stop {
                self.begin(o);
                let mut r = self.rng();
                f(self, &mut r);
            }
            return;
        }
        let t0 = now();
        let (s, k) = self.p.shard;
        let k = k.max(1);
        let mut i = s;
        while i < n && !self.stop {
            if self.p.ms > 0 && now() - t0 > self.p.ms {
                self.count("random cases cut by the time limit", (n - i) / k);
                break;
            }
            self.begin(section * SECTION + i);
            let mut r = self.rng();
            f(self, &mut r);
            i += k;
        }
    }

    pub fn count(&mut self, what: &'static str, n: u64) {
        *self.counters.entry(what).or_insert(0) += n;
    }
    pub fn max(&mut self, what: &'static str, n: u64) {
        let e = self.counters.entry(what).or_insert(0);
        *e = (*e).max(n);
    }

    /// A non-trivial case, identified by a signature.
    pub fn seen(&mut self, sig: u64) {
        self.tries += 1;
        if self.distinct.len() < 6_000_000 {
            self.distinct.push(sig);
        }
    }

    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 4 && (self.cases.is_power_of_two() || self.cases % 509 == 0) {
            let s = s();
            self.samples.push(s);
        }
    }

    /// An observation to be compared between platforms.
    pub fn dig(&mut self, d: u64) {
        if self.p.digests {
            let e = &mut self.dig.entry(self.cur >> 5).or_insert((0, 0)).1;
            *e = mix(*e ^ mix(self.cur)).wrapping_add(d);
        }
    }

    /// What the monitor itself chose (keys, bytes, cuts): observations are comparable where this agrees.
    /// (A compiler once gave the monitors on one platform other inputs than on the rest.)
    pub fn given(&mut self, d: u64) {
        if self.p.digests {
            let e = &mut self.dig.entry(self.cur >> 5).or_insert((0, 0)).0;
            *e = mix(*e ^ mix(self.cur)).wrapping_add(d);
        }
    }
    pub fn given_bytes(&mut self, key: [u64; 4], d: &[u8]) {
        if self.p.digests {
            self.given(monref::digest(key[0] ^ key[1].rotate_left(17) ^ key[2].rotate_left(31) ^ key[3].rotate_left(47), d));
        }
    }

    pub fn fail(&mut self, msg: String) {
        if self.p.allocs {
            return self.count("disagreements that are for other properties' checks to judge", 1);
        }
        self.report(msg)
    }

    fn report(&mut self, msg: String) {
        self.fails += 1;
        if self.fails >= 4 {
            self.stop = true;
        }
        let mut m = msg;
        if m.len() > 1500 {
            m.truncate(1500);
        }
        out(&format!(
            "FAIL {{\"workload\":\"{}\",\"case\":{},\"seed\":{},\"msg\":\"{}\"}}\n",
            self.wl,
            self.cur,
            self.p.seed,
            esc(&m)
        ));
    }

    pub fn finish(mut self) -> u32 {
        self.check_allocs();
        self.distinct.sort_unstable();
        self.distinct.dedup();
        let mut s = format!(
            "EV {{\"workload\":\"{}\",\"cases\":{},\"tries\":{},\"distinct\":{},\"calls\":{},\"skipped\":{},\"fails\":{},\"ms\":{},\"lib_allocs\":{},\"all_allocs\":{},\"counters\":{{",
            self.wl,
            self.cases,
            self.tries,
            self.distinct.len(),
            calls(),
            self.skipped,
            self.fails,
            now().wrapping_sub(self.start),
            LIB_ALLOCS.load(Relaxed),
            ALL_ALLOCS.load(Relaxed),
        );
        for (i, (k, v)) in self.counters.iter().enumerate() {
            s += &format!("{}\"{}\":{}", if i > 0 { "," } else { "" }, esc(k), v);
        }
        s += "},\"samples\":[";
        for (i, x) in self.samples.iter().enumerate() {
            s += &format!("{}\"{}\"", if i > 0 { "," } else { "" }, esc(x));
        }
        s += "]}\n";
        for (k, v) in &self.dig {
            out(&format!("DIG {} {} {:016x} {:016x}\n", self.wl, k, v.0, v.1));
        }
        out(&s);
        out(&format!("DONE {}\n", self.wl));
        self.fails
    }
}

pub fn show(d: &[u8]) -> String {
    if d.len() <= 160 {
        format!("{}:{}", d.len(), monref::hex(d))
    } else {
        format!("{}:{}..{}", d.len(), monref::hex(&d[..48]), monref::hex(&d[d.len() - 48..]))
    }
}

pub fn showk(k: [u64; 4]) -> String {
    format!("[{:#x},{:#x},{:#x},{:#x}]", k[0], k[1], k[2], k[3])
}
