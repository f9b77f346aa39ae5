//! C15 with real threads; values compared between processes.
use crate::write;
use highway::{HighwayBuildHasher, Key};
use mon::ctx::{lib, show, showk, SECTION};
use mon::h::*;
use mon::w_std::{job, judge, Job};
use mon::{Ctx, Params, H};
use std::hash::BuildHasher;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{mpsc, Mutex};

const T: usize = 16;

fn spin(b: &AtomicUsize, n: usize) {
    b.fetch_add(1, Ordering::SeqCst);
    let mut i = 0u32;
    while b.load(Ordering::SeqCst) < n {
        i += 1;
        if i % 2000 == 0 {
            std::thread::yield_now();
        } else {
            std::hint::spin_loop();
        }
    }
}

type Done = Vec<(u64, R)>;

/// Whether a type may be sent or shared is not what is judged here: where it may not, the mode is left out.
pub struct Any<T>(T);
unsafe impl<T> Send for Any<T> {}
unsafe impl<T> Sync for Any<T> {}
impl<T> Any<T> {
    fn take(self) -> T {
        self.0
    }
    fn get(&self) -> &T {
        &self.0
    }
}
#[allow(dead_code)]
trait No {
    const SEND: bool = false;
    const SYNC: bool = false;
}
struct Is<T>(std::marker::PhantomData<T>);
struct Are<T>(std::marker::PhantomData<T>);
impl<T> No for Is<T> {}
impl<T> No for Are<T> {}
impl<T: Send> Is<T> {
    const SEND: bool = true;
}
impl<T: Sync> Are<T> {
    const SYNC: bool = true;
}
macro_rules! by_kind {
    ($k:expr, $i:ident, $c:ident) => {
        match $k {
            #[cfg(target_arch = "x86_64")]
            S => <$i<highway::SseHash>>::$c,
            #[cfg(target_arch = "x86_64")]
            A => <$i<highway::AvxHash>>::$c,
            #[cfg(target_arch = "aarch64")]
            N => <$i<highway::NeonHash>>::$c,
            D => <$i<highway::HighwayHasher>>::$c,
            _ => <$i<highway::PortableHash>>::$c,
        }
    };
}
fn is_send(k: mon::Kind) -> bool {
    by_kind!(k, Is, SEND)
}
fn is_sync(k: mon::Kind) -> bool {
    by_kind!(k, Are, SYNC)
}
const BUILDER_SYNC: bool = <Are<HighwayBuildHasher>>::SYNC;

/// `per` jobs on each of T threads at the same time.
fn burst(p: &Params, group: u64, per: usize, mode: u64) -> (Vec<Job>, Done) {
    let jobs: Vec<Job> = (0..(T * per) as u64).map(|i| job(p, group, i)).collect();
    let same = jobs.iter().all(|j| j.key == jobs[0].key);
    let shared = Any(if same && BUILDER_SYNC { Some(HighwayBuildHasher::new(Key(jobs[0].key))) } else { None });
    let mode = if jobs.iter().all(|j| is_send(j.kind)) { mode } else { mode % 2 };
    let gate = AtomicUsize::new(0);
    let out: Mutex<Done> = Mutex::new(Vec::new());
    let (jobs_r, shared, gate, out_r) = (&jobs, &shared, &gate, &out);
    std::thread::scope(|s| {
        // hashers travel between neighbouring threads in mode 2
        let mut tx = Vec::new();
        let mut rx = Vec::new();
        for _ in 0..T {
            let (t, r) = mpsc::channel::<(usize, usize, Any<H>)>();
            tx.push(t);
            rx.push(r);
        }
        for (t, rx) in rx.into_iter().enumerate() {
            let next = tx[(t + 1) % T].clone();
            s.spawn(move || {
                let mut done = Vec::new();
                let mine: Vec<usize> = (0..per).map(|i| i * T + t).collect();
                spin(gate, T);
                match mode {
                    // one after the other
                    0 => {
                        for i in mine {
                            let j = &jobs_r[i];
                            let mut h = j.start(shared.get().as_ref());
                            for c in 0..j.chunks.len() {
                                j.step(&mut h, c);
                            }
                            done.push((i as u64, h.fin(j.w)));
                        }
                    }
                    // all at once
                    1 => {
                        let mut hs: Vec<H> = mine.iter().map(|i| jobs_r[*i].start(shared.get().as_ref())).collect();
                        let longest = mine.iter().map(|i| jobs_r[*i].chunks.len()).max().unwrap_or(0);
                        for c in 0..longest {
                            for (x, i) in mine.iter().enumerate() {
                                if c < jobs_r[*i].chunks.len() {
                                    jobs_r[*i].step(&mut hs[x], c);
                                }
                            }
                        }
                        for (i, h) in mine.iter().zip(hs) {
                            done.push((*i as u64, h.fin(jobs_r[*i].w)));
                        }
                    }
                    // started here, continued there
                    _ => {
                        for i in &mine {
                            let j = &jobs_r[*i];
                            let mut h = j.start(shared.get().as_ref());
                            let half = j.chunks.len() / 2;
                            for c in 0..half {
                                j.step(&mut h, c);
                            }
                            if next.send((*i, half, Any(h))).is_err() {
                                break;
                            }
                            // a clone of nothing in particular, in between
                            let _ = lib(|| highway::HighwayHasher::default());
                        }
                        drop(next);
                        for _ in 0..per {
                            let Ok((i, half, h)) = rx.recv() else { break };
                            let mut h = h.take();
                            let j = &jobs_r[i];
                            for c in half..j.chunks.len() {
                                j.step(&mut h, c);
                            }
                            done.push((i as u64, h.fin(j.w)));
                        }
                    }
                }
                out_r.lock().unwrap().extend(done);
                mon::ctx::thread_done();
            });
        }
        drop(tx);
    });
    let d = out.into_inner().unwrap();
    (jobs, d)
}

pub fn threads(ctx: &mut Ctx) {
    ctx.random(1, |ctx, r| {
        let group = ctx.cur;
        let mode = r.below(3);
        let per = 2 + r.idx(20);
        let (jobs, mut done) = burst(&ctx.p, group, per, mode);
        ctx.count("threads run", T as u64);
        // the order of completion is what was interleaved
        let sig = done.iter().fold(mode, |s, x| mon::monref::rng::mix(s ^ x.0));
        ctx.seen(sig);
        ctx.sample(|| format!("{} threads x {} jobs, mode {}, completion order {:?}", T, per, mode, done.iter().map(|x| x.0).take(24).collect::<Vec<_>>()));
        done.sort();
        if done.len() != jobs.len() {
            ctx.fail(format!("HARNESS {} of {} jobs completed", done.len(), jobs.len()));
        }
        let pick = r.idx(jobs.len().max(1)) as u64;
        for (i, got) in done {
            let always = ctx.cur % 64 == 0 && i == pick;
            judge(ctx, group, i, &jobs[i as usize], got, "on 16 threads", always);
            if ctx.stop {
                return;
            }
        }
    });
    if !BUILDER_SYNC {
        return;
    }
    // one shared builder, many threads, collections
    ctx.random_n(2, ctx.p.n / 8 + 1, &mut |ctx, r| {
        let key = [r.u64(), r.u64(), r.u64(), r.u64()];
        let b = Any(HighwayBuildHasher::new(Key(key)));
        let gate = AtomicUsize::new(0);
        let (b, gate) = (&b, &gate);
        let seed = r.u64();
        let bad: Vec<((usize, u64), u64, u64)> = std::thread::scope(|s| {
            let ts: Vec<_> = (0..T)
                .map(|t| {
                    s.spawn(move || {
                        let mut bad = Vec::new();
                        let mut r = mon::monref::Rng::new(seed, t as u64, 3);
                        spin(gate, T);
                        for n in 0..200 {
                            let mut d = vec![0u8; r.idx(90)];
                            r.fill(&mut d);
                            let got = lib(|| b.get().hash_one(&d[..]));
                            let mut x = d.len().to_ne_bytes().to_vec();
                            x.extend_from_slice(&d);
                            let mut m = mon::monref::Model::new(key);
                            m.append(&x);
                            // the filter; the judgement is below
                            let want = m.h64();
                            if got != want {
                                bad.push(((t, n), got, want));
                            }
                        }
                        mon::ctx::thread_done();
                        bad
                    })
                })
                .collect();
            ts.into_iter().flat_map(|t| t.join().unwrap_or_default()).collect()
        });
        ctx.count("hash_one through a shared builder", 200 * T as u64);
        ctx.count("threads run", T as u64);
        ctx.seen(seed);
        if let Some(x) = bad.first() {
            // alone, does it give the same?
            let mut differ = 0;
            for t in 0..T {
                let mut r = mon::monref::Rng::new(seed, t as u64, 3);
                for n in 0..200 {
                    let mut d = vec![0u8; r.idx(90)];
                    r.fill(&mut d);
                    if let Some(y) = bad.iter().find(|y| y.0 == (t, n)) {
                        let b2 = HighwayBuildHasher::new(Key(key));
                        differ += (lib(|| b2.hash_one(&d[..])) != y.1) as u64;
                    }
                }
            }
            if differ > 0 {
                ctx.fail(format!("hash_one through a builder shared by {} threads: {} results differ from what one thread gets, one of them {:x} expected {:x}", T, differ, x.1, x.2));
            } else {
                ctx.count("results that differ from the specification alone as well", bad.len() as u64);
            }
        }
    });
}

// ---- the same operation everywhere at the same moment -------------------------------------------

/// What one thread repeats: the same shape as the others', keys and bytes of its own.
struct Own {
    kind: mon::Kind,
    key: [u64; 4],
    data: Vec<u8>,
    cp: [u8; 164],
    want: Seen,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct Seen {
    r: R,
    cp: Option<[u8; 164]>,
    f: Option<u64>,
}

fn lock_op(o: &Own, op: u64, cut: usize, w: usize) -> Seen {
    let k = o.kind;
    let (a, b) = o.data.split_at(cut);
    let (mut cp, mut f) = (None, None);
    let r = match op {
        // one chunk
        0 => H::new(k, o.key, 0).hash(w, &o.data),
        // two
        1 => {
            let mut h = H::new(k, o.key, 0);
            h.append(a);
            h.append(b);
            h.fin(w)
        }
        2 => {
            let mut h = H::new(k, o.key, 1);
            h.hwrite(a);
            f = h.finish();
            h.hwrite(b);
            cp = Some(h.cp());
            h.fin(w)
        }
        // restored
        3 => {
            let mut h = H::restore(k, o.cp, 0);
            h.append(a);
            cp = Some(h.cp());
            h.hash(w, b)
        }
        // cloned
        4 => {
            let mut h = H::new(k, o.key, 0);
            h.append(a);
            let mut c = h.clone();
            c.append(b);
            cp = Some(h.cp());
            f = h.finish();
            c.fin(w)
        }
        // carried on by another
        5 => {
            let mut h = H::new(k, o.key, 0);
            h.append(a);
            let mut h = H::restore(D, h.cp(), 0);
            h.append(b);
            f = h.finish();
            h.fin(w)
        }
        // through a builder
        6 => {
            let b = lib(|| HighwayBuildHasher::new(Key(o.key)));
            let mut h = H::D(lib(|| b.build_hasher()));
            h.hwrite(&o.data);
            f = h.finish();
            [lib(|| b.hash_one(&o.data[..])), 0, 0, 0]
        }
        // a default one
        _ => {
            let mut h = H::default(k);
            h.append(a);
            h.append(b);
            cp = Some(h.cp());
            h.fin(w)
        }
    };
    Seen { r, cp, f }
}

const VARIANTS: usize = 4;
struct Round {
    op: u64,
    cut: usize,
    w: usize,
    own: Vec<Own>,
}

fn round(ctx: &Ctx, r: &mut mon::monref::Rng, l: Option<usize>) -> Round {
    let p = &ctx.p;
    let op = r.below(8);
    let cap = if r.chance(1, 10) { 2000 } else { 131 };
    let len = l.unwrap_or_else(|| if cap == 131 { r.idx(cap) } else { p.dict.len(cap, r) });
    let cut = if r.chance(1, 3) { (len / 32 * 32).min(len) } else { r.idx(len + 1) };
    // the shape of the bytes is shared, as far as possible
    let style = if r.chance(1, 3) { 16 } else { r.u64() };
    let shape = if r.chance(1, 2) { Some(r.u64()) } else { None };
    let kinds = if r.chance(1, 3) { vec![p.kinds[r.idx(p.kinds.len())]] } else { p.kinds.clone() };
    let near = r.below(4);
    let i = r.below(40);
    let base = p.dict.key(i, r);
    let count = if r.chance(1, 2) { Some(r.below(33) as u32) } else { None };
    let mut own: Vec<Own> = (0..T * VARIANTS)
        .map(|_| {
            let mut key = base;
            match near {
                0 => {}
                1 => key[r.idx(4)] ^= 1 << r.below(64),
                _ => {
                    let i = r.below(40);
                    key = p.dict.key(i, r);
                }
            }
            let mut data = match shape {
                Some(x) => p.dict.data(style, len, base, &mut mon::monref::Rng::new(x, 0, 0)),
                None => p.dict.data(style, len, key, r),
            };
            if shape.is_some() {
                // other bytes where there are any
                for b in data.iter_mut() {
                    if *b != 0 && *b != 0xff {
                        *b = r.u64() as u8 | 1;
                    }
                }
            }
            let n = match count {
                Some(n) => n,
                None => p.dict.count(99, r),
            };
            let cp = p.dict.state(n, r);
            Own { kind: kinds[r.idx(kinds.len())], key, data, cp, want: Seen { r: [0; 4], cp: None, f: None } }
        })
        .collect();
    let w = r.idx(3);
    // what each gets when nothing else runs
    for o in own.iter_mut() {
        o.want = lock_op(o, op, cut, w);
    }
    Round { op, cut, w, own }
}

/// C15: bursts in which all threads repeat the same operation on inputs of one shape.
pub fn lockstep(ctx: &mut Ctx) {
    let reps = 400usize;
    let rounds_of = |ctx: &mut Ctx, r: &mut mon::monref::Rng, l: Option<usize>| {
        let rounds: Vec<Round> = (0..8).map(|_| round(ctx, r, l)).collect();
        let gates: Vec<AtomicUsize> = (0..rounds.len()).map(|_| AtomicUsize::new(0)).collect();
        let bad: Vec<(usize, usize, Seen)> = std::thread::scope(|s| {
            let (rounds, gates) = (&rounds, &gates);
            let ts: Vec<_> = (0..T)
                .map(|t| {
                    s.spawn(move || {
                        let mut bad = Vec::new();
                        for (x, (rd, g)) in rounds.iter().zip(gates.iter()).enumerate() {
                            spin(g, T);
                            for i in 0..reps {
                                let o = t * VARIANTS + i % VARIANTS;
                                let got = lock_op(&rd.own[o], rd.op, rd.cut, rd.w);
                                if got != rd.own[o].want && bad.len() < 4 {
                                    bad.push((x, o, got));
                                }
                            }
                        }
                        mon::ctx::thread_done();
                        bad
                    })
                })
                .collect();
            ts.into_iter().flat_map(|t| t.join().unwrap_or_default()).collect()
        });
        ctx.count("threads run", T as u64);
        ctx.count("operations run on all threads in step", (rounds.len() * T * reps) as u64);
        for rd in &rounds {
            ctx.seen(mon::monref::rng::mix(rd.op ^ (rd.cut as u64) << 8 ^ (rd.own[0].data.len() as u64) << 24) ^ rd.own[0].key[0]);
        }
        ctx.sample(|| format!("{} threads in step, operation {} on {} bytes cut at {}", T, rounds[0].op, rounds[0].own[0].data.len(), rounds[0].cut));
        if let Some((x, o, got)) = bad.first() {
            let rd = &rounds[*x];
            let ow = &rd.own[*o];
            let again = lock_op(ow, rd.op, rd.cut, rd.w);
            ctx.fail(format!(
                "{} threads in step, operation {} on {} bytes cut at {}: {:?} key {} data {}: {:x?}; alone before {:x?}, alone after {:x?}",
                T, rd.op, ow.data.len(), rd.cut, ow.kind, showk(ow.key), show(&ow.data), got, ow.want, again
            ));
        }
    };
    for l in 0..=130usize {
        if ctx.sel(SECTION + l as u64) {
            let mut r = ctx.rng();
            rounds_of(ctx, &mut r, Some(l));
        }
    }
    ctx.random(2, |ctx, r| rounds_of(ctx, r, None));
}

/// One way of getting a hasher of a kind, used once.
fn brief(k: mon::Kind, way: usize, key: [u64; 4], b: &HighwayBuildHasher, x: &H, c: [u8; 164], d: &[u8]) -> R {
    let mut h = match way {
        0 => H::new(k, key, 0),
        1 => H::restore(k, c, 0),
        2 => x.clone(),
        3 => H::new(k, key, 1),
        _ => H::D(lib(|| b.build_hasher())),
    };
    match d.len() % 3 {
        0 => h.append(d),
        1 => {
            h.append(&d[..1]);
            h.append(&d[1..]);
        }
        _ => h.hwrite(d),
    }
    h.fin(way % 3)
}

/// C15: very many instances: alive at once, one after another, on all threads.
pub fn crowd(ctx: &mut Ctx) {
    let ks = ctx.p.kinds.clone();
    let deep = ctx.p.n > 1;
    let alive = 66_000 + ctx.p.n.min(10) as usize * 20_000;
    // 1: alive at once
    for (ki, k) in ks.iter().enumerate() {
        if !ctx.sel(SECTION + ki as u64) {
            continue;
        }
        let mut r = ctx.rng();
        let data: Vec<u8> = (0..300).map(|_| r.u64() as u8).collect();
        let seed = r.u64();
        let of = |i: usize| {
            let mut q = mon::monref::Rng::new(seed, i as u64, 1);
            let key = [q.u64(), q.u64(), 0, if i % 2 == 0 { 1 } else { q.u64() }];
            let (a, l) = (q.idx(100), q.idx(130));
            (key, a, a + q.idx(l + 1), a + l, q.idx(3), q.u64())
        };
        let first: Vec<R> = (0..alive)
            .map(|i| {
                let (key, a, _, b, w, _) = of(i);
                H::new(*k, key, 0).hash(w, &data[a..b])
            })
            .collect();
        let mut hs: Vec<H> = (0..alive)
            .map(|i| {
                let (key, _, _, _, _, c) = of(i);
                H::new(*k, key, c)
            })
            .collect();
        for i in 0..alive {
            let (_, a, m, _, _, c) = of(i);
            hs[i].enter(c, &data[a..m]);
        }
        for i in (0..alive).rev() {
            let (_, _, m, b, _, c) = of(i);
            hs[i].enter(c >> 8, &data[m..b]);
        }
        ctx.max("most hashers alive at once", alive as u64);
        ctx.count("crowd results compared", alive as u64);
        for (i, h) in hs.into_iter().enumerate() {
            let (key, a, m, b, w, _) = of(i);
            let got = h.fin(w);
            if got != first[i] {
                ctx.fail(format!("{:?}: hasher {} of {} alive: key {} data {} cut at {} width {}: {:x?}, before the others were made {:x?}", k, i, alive, showk(key), show(&data[a..b]), m - a, WIDTHS[w], got, first[i]));
                break;
            }
        }
    }
    // 2: one after another, and a hasher that is older than all of them
    let turns = if deep { 1usize << 28 } else { 1 << 21 };
    for (ki, k) in ks.iter().enumerate() {
        for way in 0..5usize {
            if way == 4 && *k != D || !ctx.sel(2 * SECTION + (ki * 8 + way) as u64) {
                continue;
            }
            let mut r = ctx.rng();
            let key = [r.u64(), r.u64(), r.u64(), r.u64()];
            let n = r.idx(40) + 1;
            let data: Vec<u8> = (0..n).map(|_| r.u64() as u8).collect();
            let mut old = H::new(*k, key, 0);
            old.append(&data[..n / 2]);
            let x = H::new(*k, key, 0);
            let c = x.cp();
            let b = HighwayBuildHasher::new(Key(key));
            let want = brief(*k, way, key, &b, &x, c, &data);
            let bad = AtomicUsize::new(usize::MAX);
            let all: Vec<R> = std::thread::scope(|s| {
                let ts: Vec<_> = (0..8)
                    .map(|_| {
                        let (b, x, data, bad) = (Any(&b), Any(&x), &data, &bad);
                        s.spawn(move || {
                            let (b, x) = (b.take(), x.take());
                            let mine = if is_sync(*k) { None } else { Some(H::new(*k, key, 0)) };
                            let x = mine.as_ref().unwrap_or(x);
                            let own = if BUILDER_SYNC { None } else { Some(HighwayBuildHasher::new(Key(key))) };
                            let b = own.as_ref().unwrap_or(b);
                            let mut last = want;
                            for i in 0..turns / 8 {
                                last = brief(*k, way, key, b, x, c, data);
                                if last != want {
                                    bad.fetch_min(i, Ordering::SeqCst);
                                    break;
                                }
                            }
                            mon::ctx::thread_done();
                            last
                        })
                    })
                    .collect();
                ts.into_iter().map(|t| t.join().unwrap_or_else(|_| std::process::exit(101))).collect()
            });
            old.append(&data[n / 2..]);
            let o = old.fin(way % 3);
            ctx.max("most hashers made after one another", turns as u64);
            ctx.count("crowd results compared", turns as u64);
            ctx.seen((ki * 8 + way) as u64 ^ key[0]);
            let i = bad.load(Ordering::SeqCst);
            if i != usize::MAX || o != want {
                ctx.fail(format!(
                    "{:?} way {}: key {} data {}: after about {} hashers made and used on 8 threads (a hasher older than them {}): {:x?}, at first {:x?}",
                    k, way, showk(key), show(&data), i.min(turns / 8).saturating_mul(8), if o == want { "agrees" } else { "differs" }, all.iter().find(|a| **a != want).unwrap_or(&o), want
                ));
            }
        }
    }
}

/// The first use of the library in a process, by 16 threads at once. Prints every result.
pub fn first_one(p: &Params, group: u64) -> i32 {
    let (_, mut done) = burst(p, group, 2, group % 3);
    done.sort();
    let mut s = String::new();
    for (i, r) in done {
        s += &format!("R {} {:x} {:x} {:x} {:x}\n", i, r[0], r[1], r[2], r[3]);
    }
    write(&s);
    0
}

pub fn first_many(ctx: &mut Ctx) {
    let me = std::env::current_exe().unwrap();
    let kinds: String = ctx.p.kinds.iter().map(|k| format!("{:?}", k)).collect();
    ctx.random(1, |ctx, _r| {
        let group = 77 * SECTION + ctx.cur;
        let mut c = std::process::Command::new(&me);
        c.arg("first1").arg(format!("seed={}", ctx.p.seed)).arg(format!("kinds={}", kinds)).arg(group.to_string());
        if let Ok(f) = std::env::var("MON_DICT") {
            c.arg(format!("dict={}", f));
        }
        let Ok(o) = c.output() else {
            ctx.count("processes that could not be started", 1);
            return;
        };
        let s = String::from_utf8_lossy(&o.stdout).to_string();
        if let Some(l) = s.lines().find(|l| l.starts_with("CRASH")) {
            ctx.fail(format!("first use on {} threads: {}", T, l));
            return;
        }
        ctx.count("fresh processes with 16 racing first uses", 1);
        ctx.seen(mon::monref::digest(0, s.as_bytes()));
        for l in s.lines() {
            let f: Vec<&str> = l.split(' ').collect();
            if f.len() != 6 || f[0] != "R" {
                continue;
            }
            let i: u64 = f[1].parse().unwrap();
            let mut got = [0; 4];
            for (g, x) in got.iter_mut().zip(&f[2..]) {
                *g = u64::from_str_radix(x, 16).unwrap();
            }
            judge(ctx, group, i, &job(&ctx.p, group, i), got, "first use by 16 threads at once", false);
        }
    });
}

/// Lines that have to be the same in every process of the same build.
pub fn values(p: &Params) -> i32 {
    let mut r = mon::monref::Rng::new(p.seed, 21, 22);
    let mut s = String::new();
    for i in 0..200 {
        let key = p.dict.key(i, &mut r);
        let b = HighwayBuildHasher::new(Key(key));
        let d = HighwayBuildHasher::default();
        let n = r.idx(150);
        let mut v = vec![0u8; n];
        r.fill(&mut v);
        let t = (v.len() as u32, &v[..], "text", r.u64(), [r.u64() as u16; 5]);
        s += &format!("V {} {:x} {:x} {:x}\n", i, lib(|| b.hash_one(&t)), lib(|| d.hash_one(&t)), lib(|| b.hash_one(i)));
    }
    write(&s);
    0
}

/// C13: one hasher, observed by many threads through a shared reference at the same time.
pub fn shared(ctx: &mut Ctx) {
    let ks: Vec<mon::Kind> = ctx.p.kinds.iter().copied().filter(|k| is_sync(*k)).collect();
    if ks.is_empty() {
        ctx.count("types that may not be shared", 1);
        return;
    }
    ctx.random(1, |ctx, r| {
        let k = ks[r.idx(ks.len())];
        let i = r.below(40);
        let key = ctx.p.dict.key(i, r);
        let count = ctx.p.dict.count(99, r);
        let arb = if r.chance(1, 5) { Some(ctx.p.dict.state(count, r)) } else { None };
        let cap = [0usize, 20, 70, 300, 3000][r.idx(5)];
        let n = ctx.p.dict.len(cap, r);
        let s = r.u64();
        let d = ctx.p.dict.data(s, n, key, r);
        let rest = r.idx(80);
        let mut e = vec![0u8; rest];
        r.fill(&mut e);
        let cut = r.idx(n + 1);
        // the same history again and again, each time on a hasher of its own
        let mk = || {
            let mut h = match arb {
                Some(c) => H::restore(k, c, 0),
                None => H::new(k, key, 0),
            };
            h.append(&d[..cut]);
            h.append(&d[cut..]);
            h
        };
        let cp = mk().cp();
        let fin = mk().finish();
        let res = [mk().fin(0), mk().fin(1), mk().fin(2)];
        let cont = mk().hash(2, &e);
        let mut t = Text::new();
        let _ = mk().debug(&mut t, false);
        let text = t.get().to_string();
        let h = Any(mk());
        let gate = AtomicUsize::new(0);
        let seed = r.u64();
        let per = 40;
        let bad: Vec<String> = std::thread::scope(|s| {
            let (h, gate, text, e) = (&h, &gate, &text, &e);
            let ts: Vec<_> = (0..T)
                .map(|t| {
                    s.spawn(move || {
                        let h = h.get();
                        let mut bad = Vec::new();
                        let mut r = mon::monref::Rng::new(seed, t as u64, 4);
                        spin(gate, T);
                        for _ in 0..per {
                            let what = match r.below(5) {
                                0 => (h.cp() != cp).then_some("checkpoint"),
                                1 => (h.finish() != fin).then_some("finish"),
                                2 => {
                                    let w = r.idx(3);
                                    (h.clone().fin(w) != res[w]).then_some("result of a clone")
                                }
                                3 => {
                                    let c = h.clone();
                                    (c.hash(2, e) != cont).then_some("continued clone")
                                }
                                _ => {
                                    let mut t = Text::new();
                                    let _ = h.debug(&mut t, false);
                                    (t.get() != text).then_some("Debug text")
                                }
                            };
                            if let Some(w) = what {
                                bad.push(w.to_string());
                            }
                        }
                        mon::ctx::thread_done();
                        bad
                    })
                })
                .collect();
            ts.into_iter().flat_map(|t| t.join().unwrap_or_default()).collect()
        });
        ctx.count("observer calls on a hasher shared by 16 threads", (T * per) as u64);
        ctx.count("threads run", T as u64);
        ctx.seen(seed);
        ctx.sample(|| format!("{:?} after {} bytes{}, {} observers on each of {} threads", k, n, if arb.is_some() { " on a restored state" } else { "" }, per, T));
        let h = h.take();
        let (a, b) = (h.cp(), h.clone().fin(1));
        let c = h.hash(2, &e);
        if let Some(w) = bad.first() {
            ctx.fail(format!("{:?} shared by {} threads: {} of {} observations differ from those of an unshared hasher with that history, first: {}; key {} data {}", k, T, bad.len(), T * per, w, mon::ctx::showk(key), mon::ctx::show(&d)));
        } else if a != cp || b != res[1] || c != cont {
            ctx.fail(format!("{:?}: after {} threads observed it the hasher's own results differ: key {} data {}", k, T, mon::ctx::showk(key), mon::ctx::show(&d)));
        }
    });
}
