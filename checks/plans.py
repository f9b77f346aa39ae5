"""What each check runs."""
import json
import os
import re
import shutil
import subprocess
from pathlib import Path

import configs as C
from engine import BUILD, REPO, ROOT, SAN, BuildFailed, Check, Job, build, cargo_cmd, cargo_env, clip, run, sh, Cfg


def shards(n, cfg, wl, **kw):
    return [Job(cfg, wl, shard="%d/%d" % (i, n), **kw) for i in range(n)]


def mk(ck, cfg, wl, cost=1.0, share=None, vary=True, **kw):
    """A job of about the given share of the full effort; other inputs in every configuration."""
    q = ck.quick
    kw.setdefault("seed", ck.seed_for(cfg.name) if vary else ck.seed)
    kw.setdefault("dict", ck.dict)
    return Job(cfg, wl, timeout=kw.pop("timeout", 400 if q else 3000), **kw)


# how much more than its base effort a quick check spends on the inputs of each job
BOOST = {"C01": 150, "C02": 60, "C03": 80, "C04": 100, "C05": 150, "C06": 300, "C07": 120, "C08": 30, "C09": 100, "C10": 200, "C11": 30, "C12": 200,
         "C13": 15, "C14": 200, "C15": 30, "C17": 30, "C18": 200}
if os.environ.get("VERIF_BOOST"):
    BOOST = dict.fromkeys(["C%02d" % i for i in range(1, 19)], int(os.environ["VERIF_BOOST"]))


class Plan:
    def __init__(self, prop, tier, seed, **kw):
        self.ck = Check(prop, tier, seed, **kw)
        self.q = tier == "quick"
        self.jobs = []

    def add(self, cfg, wl, scale=1000, n=3000, sh=1, deep=None, **kw):
        """`deep`: (scale, n, shards) of the thorough tier; default: everything, 20 times the random cases."""
        if wl in ("giant", "huge", "values", "crowd", "big", "odd"):
            self.jobs.append(mk(self.ck, cfg, wl, n=n, **kw))
            return self.jobs[-1:]
        b = BOOST.get(self.ck.prop, 4) if not kw.get("raw") and not wl.startswith("long-") and wl != "large" and n > 7 else 0
        if not self.q:
            # at least four times what the quick tier tries
            scale, n, sh = (lambda s, m, h: (s, max(m, n * b * 4), max(h, 8) if b else h))(*(deep or (1000, n * 20, max(sh, 8))))
        elif b:
            scale, n, sh = min(1000, scale * min(b, 4)), n * b, sh if n * b < 10000 else max(sh, 2)
        kw.setdefault("scale", scale)
        if sh > 1:
            js = [mk(self.ck, cfg, wl, n=n, shard="%d/%d" % (i, sh), **kw) for i in range(sh)]
        else:
            js = [mk(self.ck, cfg, wl, n=n, **kw)]
        self.jobs += js
        return js

    def dev(self, cfg, wl, scale=100, n=600, sh=1, **kw):
        return self.add(cfg, wl, scale, n, sh, deep=kw.pop("deep", (1000, n * 10, 8)), **kw)

    def emu(self, cfg, wl, scale=100, n=500, sh=1, **kw):
        return self.add(cfg, wl, scale, n, sh, deep=kw.pop("deep", (600, n * 10, 8)), **kw)

    def emudev(self, cfg, wl, scale=15, n=120, sh=1, **kw):
        return self.add(cfg, wl, scale, n, sh, deep=kw.pop("deep", (150, n * 10, 8)), **kw)

    def go(self):
        r = self.ck.run_jobs(self.jobs)
        self.last = list(zip(self.jobs, r))
        self.jobs = []
        return r


REL, DEV = "release", "dev"


def large(p, n, **kw):
    """Appends of up to 16 MiB in the middle of everything."""
    for c, sz in ((C.host(), 24), (C.host(REL, True, "sse41noavx2"), 22), (C.host(REL, False), 22), (C.host(DEV), 17), (C.i686(), 22), (C.wasm(), 22), (C.aarch64(), 17)):
        p.add(c, "large", n=n, max=1 << (sz if p.q else sz + 2), deep=(1000, n, 4), **kw)


def epochs(p, host, i686, wasm, arm, **kw):
    """2^n calls of each operation in one process."""
    if not p.q:
        host, i686, wasm, arm = host + 4, i686 + 4, wasm + 4, arm + 3
    for c, n in host and [(C.host(), host)] or []:
        p.add(c, "long-epochs", n=n, sh=2, deep=(1000, n, 8), **kw)
    for c, n in ((C.host(REL, False), host and host - 2), (C.host(REL, True, "avx2"), host and host - 2), (C.i686(), i686), (C.wasm(), wasm), (C.aarch64(), arm)):
        if n:
            p.add(c, "long-epochs", n=n, deep=(1000, n, 4), **kw)


# ---- C01 ----------------------------------------------------------------------------------------

def c01(tier, seed):
    p = Plan("C01", tier, seed)
    h = C.host()
    p.add(h, "selfcheck", n=1)
    p.add(h, "model", n=20000, sh=4)
    p.add(h, "giant", n=1)
    p.add(h, "same", n=100, kinds="P", max=1 << 22)
    p.add(C.i686(), "big", n=1, kinds="P")
    p.add(C.i686(), "big", n=2, kinds="P")
    epochs(p, 23, 20, 0, 0, kinds="P")
    p.dev(C.host(DEV), "model", scale=200, n=2000, sh=2)
    p.add(C.host(REL, False), "model", n=3000, sh=2)
    p.add(C.host(REL, True, "native"), "model", n=3000, sh=2)
    p.emu(C.i686(), "model", scale=500, n=2000)
    if not p.q:
        for f in ("sse41", "avx2", "sse41noavx2"):
            p.add(C.host(REL, True, f), "model", n=3000)
            p.dev(C.host(DEV, False, f), "model", n=1000)
        p.add(C.host("chk"), "model", n=3000)
        p.emu(C.aarch64(), "model")
        p.emu(C.wasm(simd=False), "model", scale=1000, n=5000)
        p.emu(C.i686(DEV), "model")
        for a in C.IMAGES:
            p.emu(C.bare(a), "model")
    p.go()
    return p.ck.finish(
        "Inputs: every length 0..=288 and the source's own literals as lengths, 2^k sizes, random lengths to 1 MiB (and one of more than 4 GiB), each with "
        "random, structured, carry-extreme and state-steered data under special and random keys; all three widths through append+finalize, hash*, and "
        "purity by repetition; every result compared with an independent model of the specification. Distinct: by (length, key class, data class, content) "
        "signature, counted per process; the processes run other cases or other configurations.")


# ---- C02 ----------------------------------------------------------------------------------------

def c02(tier, seed):
    p = Plan("C02", tier, seed, compile_counts=True)
    for c in C.matrix():
        if c.profile == "release":
            p.add(c, "equiv", n=4000)
        else:
            p.dev(c, "equiv", scale=60, n=500)
    for f in C.LEVELS:
        for s in (f == "v3",) if p.q else (True, False):
            p.add(C.host(REL, s, f), "equiv", scale=300, n=1500)
    p.add(C.host(), "giant", n=2)
    p.add(C.host(), "huge", kinds="SA" if p.q else "PSAD")
    epochs(p, 22, 0, 0, 0, kinds="SAD")
    base = C.host()
    for cpu in ("max", "Nehalem", "Conroe") if p.q else C.CPUS:
        p.emu(base, "equiv", scale=60, n=300, pre=C.qemu(cpu), label="qemu-" + cpu)
    if not p.q:
        for cpu in C.CPUS:
            p.emudev(C.host(DEV), "equiv", pre=C.qemu(cpu), label="dev qemu-" + cpu)
            p.emu(C.host(REL, False), "equiv", pre=C.qemu(cpu), label="nostd qemu-" + cpu)
        p.add(C.host("chk"), "equiv")
    p.go()
    return p.ck.finish(
        "Every hasher type available against PortableHash in the same process, for every length 0..=288, literal and 2^k lengths, random lengths; special, random and "
        "state-steered keys and data; three widths; one-shot and appended; in {release, dev} x {std, no_std} x {no flags, +sse4.1, +avx2, +sse4.1,-avx2, native} "
        "and on emulated CPUs with and without SSE4.1/AVX2. Distinct: by input signature per process (a process is one configuration and shard).",
        more={"cpus_emulated": list(C.CPUS) if not p.q else ["max", "Nehalem", "Conroe"]})


# ---- C03, C04 -----------------------------------------------------------------------------------

def exchange(p, cfgs, n=4000, **kw):
    """Checkpoints produced on one platform are restored on the others."""
    ck = p.ck
    prod = [Job(c, "ckpt", label=c.name, seed=ck.seed, dict=ck.dict, scale=30, n=n if p.q else n * 8, digests=1, max=3000, timeout=600, **kw) for c in cfgs]
    rs = ck.run_jobs(prod)
    eat = []
    total = 0
    for j, r in zip(prod, rs):
        if r is None or not r.done:
            continue
        f = ck.scratch / ("ck-" + j.cfg.name)
        ls = [l for l in r.lines if l.startswith("CK ")]
        total += len(ls)
        f.write_text("\n".join(ls) + "\n")
        for c in cfgs:
            if c.name != j.cfg.name:
                eat.append(Job(c, "ckpt", label="%s from %s" % (c.name, j.cfg.name), seed=ck.seed, dict=ck.dict, scale=0, n=0, file=f, timeout=600, **kw))
    ck.add("checkpoints produced for other platforms", total)
    if not ck.stop.is_set() and total == 0:
        ck.tool("no checkpoints were exchanged")
    n = sum(r.ev["counters"].get("checkpoints of other platforms restored", 0) for r in ck.run_jobs(eat) if r is not None and r.ev)
    if not ck.stop.is_set() and n < total:
        ck.tool("of %d checkpoints exchanged only %d were restored" % (total, n))


def c03(tier, seed):
    p = Plan("C03", tier, seed, compile_counts=True, own=("equiv", "ckpt", "chunks", "long-hops", "long-epochs", "big"))
    a, d, be = C.aarch64(), C.aarch64(DEV), C.bare("aarch64_be")
    p.emu(a, "equiv", scale=250, n=2000, sh=3)
    p.emudev(d, "equiv", n=150, sh=2)
    p.emu(C.aarch64(flags=C.SVE), "equiv", scale=60, n=300)
    p.emu(be, "equiv", scale=120, n=700, sh=2)
    p.emu(a, "ckpt", scale=1000, n=1500, twin=1)
    p.emudev(d, "ckpt", scale=200, n=150, twin=1)
    p.emu(be, "ckpt", scale=500, n=500, twin=1)
    p.emu(a, "chunks", scale=300, n=1000, twin=1)
    epochs(p, 0, 0, 0, 16, kinds="ND")
    p.emu(a, "long-hops", n=1, twin=1, kinds="PN")
    for i in range(2):
        p.add(a, "big", n=1, kinds="N", shard="%d/2" % i)
        p.add(a, "big", n=2, kinds="N", shard="%d/2" % i)
    if not p.q:
        p.emu(C.aarch64(REL, False), "equiv")
        p.emu(C.aarch64(DEV, False), "ckpt", twin=1)
        p.emudev(C.bare("aarch64_be", DEV), "equiv")
        p.emu(be, "chunks", twin=1)
    p.go()
    if not p.ck.stop.is_set():
        exchange(p, [C.host(), a, be] + ([] if p.q else [C.i686(), C.wasm(), C.bare("powerpc"), d]), twin=1)
    return p.ck.finish(
        "NeonHash (and the dispatcher, which is NEON there) under qemu-aarch64 (release, dev) and qemu-aarch64_be, against PortableHash in the same image: lengths 0..=288, "
        "literal and 2^k lengths, random; three widths; (source, target, cut, suffix) checkpoint pairs and multi-hop histories; and checkpoints exchanged both ways with "
        "x86_64 images. Distinct: by input signature per process.")


def c04(tier, seed):
    p = Plan("C04", tier, seed, compile_counts=True, own=("equiv", "ckpt", "chunks", "long-hops", "long-epochs", "big"))
    w, d = C.wasm(), C.wasm(DEV)
    p.add(w, "equiv", n=6000, sh=3)
    p.dev(d, "equiv", scale=100, n=600, sh=2)
    p.add(w, "ckpt", n=4000, twin=1)
    p.dev(d, "ckpt", scale=300, n=600, twin=1)
    p.add(w, "chunks", n=4000, twin=1)
    p.add(C.wasm(REL, False), "equiv", n=2000)
    p.add(C.wasm(more=C.RELAXED), "equiv", scale=300, n=1000)
    epochs(p, 0, 0, 21, 0, kinds="WD")
    p.add(w, "long-hops", n=1, twin=1)
    for k in "WD":
        p.add(w, "big", n=1, kinds=k)
    p.add(w, "big", n=2, kinds="WD")
    if not p.q:
        p.dev(C.wasm(DEV, False), "equiv")
        p.add(C.wasm(REL, False), "ckpt", twin=1)
        p.add(w, "model")
    p.go()
    if not p.ck.stop.is_set():
        exchange(p, [C.host(), w] + ([] if p.q else [C.i686(), C.aarch64(), C.bare("powerpc"), d, C.wasm(simd=False)]), twin=1)
    return p.ck.finish(
        "WasmHash (and the dispatcher) as a wasm32 +simd128 module in node, against PortableHash in the same module: lengths 0..=288, literal and 2^k lengths, random; three "
        "widths; (source, target, cut, suffix) checkpoint pairs and multi-hop histories; and checkpoints exchanged both ways with x86_64. Distinct: by input signature per process.")


# ---- C05 ----------------------------------------------------------------------------------------

def c05(tier, seed):
    p = Plan("C05", tier, seed)
    p.add(C.host(), "chunks", n=30000, sh=3)
    p.add(C.host(), "giant", n=4)
    p.dev(C.host(DEV), "chunks", scale=300, n=2000, sh=2)
    p.add(C.host(REL, False), "chunks", n=5000)
    p.add(C.host(REL, True, "avx2"), "chunks", n=5000)
    p.add(C.host(REL, True, "sse41noavx2"), "chunks", n=5000)
    p.add(C.i686(), "chunks", n=3000)
    p.add(C.wasm(), "chunks", n=3000)
    p.emu(C.aarch64(), "chunks", scale=400, n=1500)
    for i in range(4):
        p.add(C.host(), "long-chunks", n=1, shard="%d/4" % i)
    epochs(p, 21, 18, 18, 0, twin=1)
    p.add(C.host("chk"), "long-chunks", n=1)
    p.add(C.wasm(), "long-chunks", n=1)
    p.add(C.i686(), "long-chunks", n=1)
    p.emu(C.aarch64(), "long-chunks", scale=300, n=1)
    p.add(C.host(), "huge", kinds="A")
    for c in (C.host(), C.i686(), C.wasm()):
        p.add(c, "big", n=2, twin=1)
    large(p, 8)
    if not p.q:
        p.add(C.host(), "huge", kinds="PSD")
        p.add(C.host("chk"), "long-chunks", n=2, deep=(1000, 2, 8))
        p.dev(C.host(DEV), "long-chunks", n=1, deep=(1000, 1, 8))
        p.dev(C.wasm(DEV), "chunks")
        p.emudev(C.aarch64(DEV), "chunks")
        for f in ("sse41", "native"):
            p.add(C.host(REL, True, f), "chunks")
        p.emu(C.bare("aarch64_be"), "chunks")
        p.emu(C.bare("powerpc"), "chunks")
        p.dev(C.i686(DEV), "chunks")
        p.add(C.host("chk"), "chunks")
    p.go()
    return p.ck.finish(
        "A stream split into chunks against the one-shot result of the same backend: every pending fill 0..=32 x chunk length x next chunk (skeleton), byte-at-a-time, empty "
        "chunks, multi-packet and >4 GiB chunks, random partitions; each chunk through a randomly chosen entry point (append, io::Write::write/write_all, Hasher::write). "
        "Distinct: by (backend, chunk lengths, entry points) signature per process.")


# ---- C06 ----------------------------------------------------------------------------------------

def c06(tier, seed):
    p = Plan("C06", tier, seed)
    p.add(C.host(), "ckpt", n=30000, sh=3)
    p.dev(C.host(DEV), "ckpt", scale=600, n=2000, sh=2)
    p.add(C.host(REL, False, "avx2"), "ckpt", n=5000)
    p.add(C.host(REL, True, "sse41noavx2"), "ckpt", n=5000)
    p.add(C.i686(), "ckpt", n=4000)
    p.add(C.wasm(), "ckpt", n=2000)
    p.emu(C.aarch64(), "ckpt", scale=1000, n=1500)
    for c in (C.host(), C.host("chk"), C.i686(), C.wasm()):
        p.add(c, "long-hops", n=1)
    epochs(p, 21, 18, 18, 0, twin=1)
    for c in (C.host(), C.i686(), C.wasm()):
        p.add(c, "big", n=1, twin=1)
    large(p, 1)
    if not p.q:
        p.dev(C.host(DEV), "long-hops", n=1)
        p.emu(C.aarch64(), "long-hops", n=1)
        p.add(C.host("chk"), "ckpt")
        p.dev(C.wasm(DEV), "ckpt")
        p.emudev(C.aarch64(DEV), "ckpt")
        p.dev(C.i686(DEV), "ckpt")
        for a in C.IMAGES:
            p.emu(C.bare(a), "ckpt")
        for cpu in ("Conroe", "Nehalem", "max"):
            p.emu(C.host(), "ckpt", pre=C.qemu(cpu), label="qemu-" + cpu)
    p.go()
    if not p.ck.stop.is_set():
        exchange(p, [C.host(), C.aarch64(), C.wasm(), C.i686()] + ([] if p.q else [C.bare("powerpc"), C.bare("aarch64_be"), C.bare("s390x"), C.host(DEV)]))
    return p.ck.finish(
        "A restored hasher against the uninterrupted one: every (source, target) pair of hasher types x every cut 0..=100 x 10 suffix lengths x 3 widths, random multi-hop "
        "histories with chunked suffixes and observers between, and checkpoints carried between x86_64, aarch64, wasm32 and i686 processes. Distinct: by "
        "(pair, cut, suffix) or hop-trace signature per process.")


# ---- C07 ----------------------------------------------------------------------------------------

def c07(tier, seed):
    p = Plan("C07", tier, seed)
    p.add(C.host(), "default", scale=500, n=8000, sh=3)
    p.dev(C.host(DEV), "default", scale=25, n=500, sh=2)
    p.add(C.host(REL, False), "default", scale=200, n=2000)
    for f in ("avx2", "sse41", "sse41noavx2", "native"):
        p.add(C.host(REL, f != "sse41", f), "default", scale=100, n=1000)
    p.add(C.i686(), "default", scale=200, n=1000)
    p.add(C.wasm(), "default", scale=300, n=1500)
    p.emu(C.aarch64(), "default", scale=60, n=300, sh=2)
    p.emu(C.host(), "default", scale=30, n=100, pre=C.qemu("Conroe"), label="qemu-Conroe")
    if not p.q:
        p.add(C.host(REL, False, "avx2"), "default")
        p.dev(C.host(DEV, False), "default")
        p.add(C.wasm(simd=False), "default")
        p.emu(C.host(), "default", pre=C.qemu("Nehalem"), label="qemu-Nehalem")
        for a in C.IMAGES:
            p.emu(C.bare(a), "default", deep=(200, 2000, 8))
    p.go()
    return p.ck.finish(
        "T::default() against T::new(Key::default()) for every hasher type with a Default (and HighwayBuildHasher), over the same data and histories (chunks, observers, "
        "checkpoints, clones), all types against each other and the model under the zero key. Distinct: by history or input signature per process.")


# ---- C08 ----------------------------------------------------------------------------------------

def guard_cfg(std=True, flags="none", target=None, linker=None, self_test=False):
    n = "guard-%s-%s-%s%s" % ((target or "x86_64").split("-")[0], "std" if std else "nostd", flags, "-selftest" if self_test else "")
    fl = C.FLAGS[flags] + (" --cfg guard_selftest" if self_test else "")
    return Cfg(n, crate="guard", profile="release", feats=("hwstd",) if std else (), flags=fl.strip(), target=target, linker=linker)


def guards(ck, cfgs):
    """Links every operation between a marker and a check that the optimiser removes only if no panic edge remains."""
    import concurrent.futures as cf
    try:
        build(guard_cfg(self_test=True), 4)
        ck.tool("the panic-edge guard did not notice a panic edge of its own")
    except BuildFailed as e:
        if "panic_edge_selftest" in e.text:
            ck.add("panic-edge guard self-test")
        else:
            ck.tool("guard self-test: " + clip(e.text[-800:]))

    def one(c):
        try:
            build(c, 3)
            return c, None
        except BuildFailed as e:
            return c, e.text

    with cf.ThreadPoolExecutor(3) as ex:
        for c, text in ex.map(one, cfgs):
            if text is None:
                ck.builds[c.name] = "linked"
                r = sh(list(c.pre) + [str(c.out())]) if not c.target or "i686" in c.target else None
                ops = 0
                if r is not None:
                    m = re.search(r"OPS (\d+)", r.stdout)
                    ops = int(m.group(1)) if m else 0
                ck.add("guarded builds linked without any panic edge")
                ck.add("operations linked under the guard", ops)
                continue
            ck.builds[c.name] = "failed"
            ops = sorted(set(re.findall(r"undefined (?:symbol:|reference to) `?(panic_edge_in_\w+)", text)))
            if ops:
                who = sorted(set(re.findall(r"guard::(\w+)::\w+", text)))
                ck.violate("%s: a panic path remains in the optimised code of: %s (%s)" % (c.describe(), ", ".join(ops), ", ".join(who)),
                           {"config": c.name, "guard": True})
            else:
                ck.tool("guard build %s: %s" % (c.name, clip(text[-1500:])))


IMPORTS = ('const m = new WebAssembly.Module(require("fs").readFileSync(process.argv[1]));'
           'console.log("GUARD", WebAssembly.Module.imports(m).length, WebAssembly.Module.exports(m).length)')


def guard_wasm(ck):
    """The same for wasm, which has no unwinding: is the panic handler still part of the image?"""
    for simd, self_test in ((True, True), (True, False), (False, False)):
        c = Cfg("guard-wasm%s%s" % ("-simd128" if simd else "", "-selftest" if self_test else ""), crate="guard-wasm", profile="release", feats=(),
                flags=((C.SIMD128 if simd else "") + " -Clink-args=--no-entry" + (" --cfg guard_selftest" if self_test else "")).strip(),
                target="wasm32-unknown-unknown", artifact="guard_wasm.wasm")
        try:
            build(c, 3)
        except BuildFailed as e:
            ck.tool("guard build %s: %s" % (c.name, clip(e.text[-1500:])))
            continue
        r = sh(["node", "-e", IMPORTS, str(c.out())])
        m = re.search(r"GUARD (\d+) (\d+)", r.stdout)
        if not m:
            ck.tool("%s cannot be read: %s" % (c.name, clip(r.stderr)))
        elif self_test:
            if m.group(1) == "0":
                ck.tool("the wasm panic guard did not notice a panic of its own")
            else:
                ck.add("panic-edge guard self-test")
        elif m.group(1) != "0":
            ck.builds[c.name] = "panics"
            ck.violate("%s: a panic path remains in the optimised code" % c.describe(), {"config": c.name, "guard": True})
        else:
            ck.builds[c.name] = "linked"
            ck.add("guarded builds linked without any panic edge")
            ck.add("operations linked under the guard", int(m.group(2)) - 1)


def c08(tier, seed):
    p = Plan("C08", tier, seed, own=("panics",))
    for s in (True, False):
        p.dev(C.host(DEV, s), "panics", scale=1000, n=4000, sh=2)
    p.add(C.host("chk"), "panics", n=40000, sh=2)
    p.add(C.host(), "panics", n=40000)
    p.dev(C.host(DEV, True, "avx2"), "panics", scale=1000, n=3000)
    p.dev(C.host(DEV, True, "sse41noavx2"), "panics", scale=1000, n=3000)
    p.dev(C.i686(DEV), "panics", scale=1000, n=3000)
    p.emudev(C.aarch64(DEV), "panics", scale=200, n=600)
    p.dev(C.wasm(DEV), "panics", scale=1000, n=2000)
    p.dev(C.host(DEV), "restore", scale=300, n=600)
    p.dev(C.host(DEV), "chunks", scale=150, n=500)
    p.dev(C.host(DEV), "adapt", scale=300, n=800)
    p.add(C.host("chk"), "giant", n=4)
    p.add(C.host("chk"), "giant", n=8)
    p.add(C.i686("chk"), "big", n=1)
    p.add(C.i686("chk"), "big", n=2)
    p.add(C.wasm("chk"), "big", n=1)
    p.add(C.wasm("chk"), "big", n=2)
    p.dev(C.host(DEV), "stack")
    p.add(C.host(DEV), "odd", n=2)
    p.add(C.host("chk"), "odd", n=2)
    p.add(C.i686(DEV), "odd", n=1)
    p.dev(C.host(DEV, False), "stack", scale=300)
    p.add(C.host("chk"), "stack")
    p.dev(C.i686(DEV), "stack", scale=300)
    p.emudev(C.aarch64(DEV), "stack", scale=60)
    for w in ("chunks", "hops", "observe", "adapt"):
        for c in (C.host(DEV), C.host("chk")):
            p.add(c, "long-" + w, n=1, sh=4 if w == "chunks" else 1, deep=(1000, 1, 4))
    p.add(C.host("chk"), "long-epochs", n=22, sh=2, deep=(1000, 26, 8))
    p.add(C.host(DEV), "long-epochs", n=18, deep=(1000, 22, 4))
    p.add(C.i686("chk"), "long-epochs", n=18, deep=(1000, 22, 4))
    p.add(C.wasm("chk"), "long-epochs", n=18, deep=(1000, 22, 4))
    if not p.q:
        for f in ("none", "sse41", "avx2", "sse41noavx2", "native"):
            for s in (True, False):
                p.dev(C.host(DEV, s, f), "panics", n=3000)
                p.add(C.host("chk", s, f), "panics", n=5000)
        p.add(C.host("chk"), "long-chunks", deep=(1000, 2, 8))
        p.add(C.host("chk"), "huge")
        p.dev(C.host(DEV), "equiv", scale=300)
        p.dev(C.host(DEV), "observe")
        p.dev(C.host(DEV), "interleave")
        for cpu in ("Conroe", "Nehalem", "max"):
            p.emudev(C.host(DEV), "panics", pre=C.qemu(cpu), label="dev qemu-" + cpu)
        for a in C.IMAGES:
            p.emudev(C.bare(a, DEV), "panics")
    p.go()
    ck = p.ck
    if not ck.stop.is_set():
        gs = [guard_cfg(), guard_cfg(False), guard_cfg(True, "avx2"), guard_cfg(True, "sse41"),
              guard_cfg(True, target="aarch64-unknown-linux-gnu", linker="aarch64-linux-gnu-gcc")]
        if not p.q:
            gs += [guard_cfg(True, "native"), guard_cfg(False, "avx2"), guard_cfg(False, "sse41noavx2"),
                   guard_cfg(True, target="i686-unknown-linux-gnu", linker="i686-linux-gnu-gcc")]
        guards(ck, gs)
        guard_wasm(ck)
    return ck.finish(
        "Histories of every safe operation (construct, append, write, flush, finish, clone, checkpoint, restore from produced and arbitrary bytes with extreme pending counts, "
        "Debug, finalize) on every type, watched for panics and signals in dev, optimised+checks and release builds; plus, for optimised builds, the link-time guard: each "
        "operation is bracketed so that any panic edge left by the optimiser is an undefined symbol. Distinct: by history signature per process.")


# ---- C09 ----------------------------------------------------------------------------------------

VALGRIND = ("valgrind", "-q", "--error-exitcode=99", "--num-callers=30", "--track-origins=no", "--exit-on-first-error=yes")


def c09(tier, seed):
    p = Plan("C09", tier, seed, own=("place", "edge", "tagged", "far"))
    h = C.host()
    p.add(h, "far", n=1)
    p.add(C.host(REL, False), "far", n=1)
    p.add(C.host(REL, False, "sse41"), "far", n=1)
    p.dev(C.host(DEV), "far", n=1)
    p.add(C.i686(), "far", n=1)
    p.emu(C.aarch64(), "far", n=1)
    p.add(h, "place", n=6000, sh=4)
    p.dev(C.host(DEV), "place", scale=100, n=500, sh=2)
    p.add(C.host(REL, False, "avx2"), "place", scale=300, n=1000)
    p.add(C.host(REL, True, "sse41noavx2"), "place", scale=300, n=1000)
    p.add(C.host("chk"), "place", scale=300, n=1000)
    p.add(h, "stack")
    p.dev(C.host(DEV), "stack", scale=500)
    p.dev(C.host(DEV, True, "avx2"), "stack", scale=250)
    p.emudev(C.aarch64(DEV), "stack", scale=60)
    a = C.san("address")
    p.add(a, "exact", n=20000, raw=True)
    p.add(h, "exact", scale=100, n=100, max=3000, raw=True, hang=0, pre=VALGRIND, label="valgrind", deep=(1000, 20000, 4))
    for w in ("equiv", "ckpt", "chunks", "restore", "observe", "canon"):
        p.add(a, w, scale=60 if w == "equiv" else 200, n=600, raw=True, deep=(600, 20000, 4))
    for w in ("equiv", "ckpt", "chunks", "restore", "observe"):
        p.add(h, w, scale=4 if w == "equiv" else 30, n=40, max=3000, raw=True, hang=0, pre=VALGRIND, label="valgrind", deep=(60, 2000, 4))
    p.add(C.wasm(), "edge", n=400)
    mte = ("qemu-aarch64", "-cpu", "max", "-L", "/usr/aarch64-linux-gnu")
    p.emu(C.aarch64(), "tagged", scale=1000, n=80, pre=mte, label="memory tags")
    p.emudev(C.aarch64(DEV), "tagged", scale=100, n=10, pre=mte, label="memory tags, dev")
    m, ma, mn, mw = C.miri(), C.miri(flags=C.FLAGS["avx2"]), C.miri_neon(), C.miri_wasm()
    for c, kinds in ((m, "PD"), (ma, "SAD"), (mn, "N"), (mw, "W")):
        p.add(c, "exact", scale=15, n=6, sh=3, max=300, kinds=kinds, raw=True, hang=0, deep=(1000, 300, 6), **({"timeout": 3000} if not p.q else {}))
    for c in (m, ma, mn, mw):
        for w, n in (("ckpt", 3), ("chunks", 3), ("restore", 2), ("observe", 2), ("canon", 2), ("equiv", 2)):
            p.add(c, w, scale=0, n=n, max=150, raw=True, hang=0, deep=(2, 40, 3), **({"timeout": 3000} if not p.q else {}))
    if not p.q:
        p.add(C.host(REL, True, "native"), "place")
        p.add(C.host(REL, False), "place")
        p.emu(C.aarch64(), "place", scale=100, n=300)
        p.emu(h, "place", pre=C.qemu("Nehalem"), label="qemu-Nehalem", scale=100)
        p.add(C.i686(), "place")
        b = C.miri_neon(True)
        for w in ("exact", "ckpt", "chunks", "restore", "observe"):
            p.add(b, w, max=150, raw=True, hang=0, deep=(30, 40, 3), timeout=3000)
        s = C.san("memory")
        for w in ("exact", "equiv", "ckpt", "chunks", "restore", "observe", "canon"):
            p.add(s, w, raw=True, deep=(300, 8000, 4))
        sn = C.san("address", False)
        for w in ("equiv", "ckpt", "chunks"):
            p.add(sn, w, raw=True, deep=(300, 5000, 4))
    p.go()
    if not p.ck.stop.is_set() and not any(r.ev["counters"].get("special addresses with memory around them") for j, r in p.last if j.wl == "far" and r is not None and r.ev):
        p.ck.tool("no memory at special addresses")
    if not p.ck.stop.is_set() and not all(r.ev["counters"].get("memory tagging notices a read one byte too far") for j, r in p.last if j.wl == "tagged" and r is not None and r.ev):
        p.ck.tool("the emulator does not check memory tags")
    if not p.ck.stop.is_set():
        # the monitors have to notice a read one byte behind an allocation
        n = 0
        for j in (Job(a, "overread", raw=True), Job(h, "overread", raw=True, hang=0, pre=VALGRIND, label="valgrind"),
                  Job(m, "overread", raw=True, hang=0), Job(mn, "overread", raw=True, hang=0), Job(mw, "overread")):
            r = run(j)
            if r.bad or not SAN.search(r.err):
                p.ck.tool("%s did not notice a read behind an allocation: %s" % (j.label, clip(r.bad or r.err)))
            n += 1
        p.ck.add("memory monitors that noticed a read one byte too far", n)
    return p.ck.finish(
        "Inputs and hasher objects placed against inaccessible pages (before and behind) at every alignment 0..=63 with every length 0..=130 and larger, the surrounding bytes varied: "
        "results must not depend on the place and the neighbours must not change; data and hashers across addresses that are powers of two, multiples of 4 GiB or the last that a process can map; on aarch64 in tagged memory (MTE), where every read outside of the given bytes faults; plus the same library workloads under AddressSanitizer, valgrind memcheck and Miri "
        "(symbolic alignment, provenance, uninitialised reads) and at the end of a wasm linear memory. Distinct: by (backend, length, alignment, side) signature per process.")


# ---- C10 ----------------------------------------------------------------------------------------

def c10(tier, seed):
    p = Plan("C10", tier, seed, compile_counts=True)
    for c in C.matrix():
        if c.profile == "release":
            p.add(c, "select", n=1500)
        else:
            p.dev(c, "select", scale=400, n=300)
    for f, cpu in (("ssse3", "Conroe"), ("sse42", "Nehalem"), ("avx", "SandyBridge"), ("v3", "Haswell")):
        for s in (True, False):
            c = C.host(REL, s, f)
            p.add(c, "select", scale=500, n=500)
            p.emu(c, "select", scale=100, n=60, pre=C.qemu(cpu), label=c.name + " qemu-" + cpu)
    p.add(C.i686(REL, True, "-Ctarget-feature=+avx2"), "select", scale=300, n=300)
    p.add(C.wasm(more=C.RELAXED), "select", scale=300, n=200)
    p.emu(C.aarch64(flags=C.SVE), "select", scale=100, n=100)
    for cfg in (C.host(), C.host(REL, False)):
        for cpu in (("Haswell", "Nehalem", "Conroe", "SandyBridge", "max,-avx2", "Haswell,-avx2", "Haswell,-xsave", "max,-avx", "max,-avx2,-avx,-sse4.2,-sse4.1", "Nehalem,-sse4.2,-sse4.1", "Conroe,+sse4.1") if p.q else C.CPUS):
            p.emu(cfg, "select", scale=200, n=200, pre=C.qemu(cpu), label=cfg.name + " qemu-" + cpu)
    for cpu in ("Nehalem", "Haswell", "SandyBridge"):
        p.emu(C.host(REL, True, "sse41"), "select", scale=200, n=100, pre=C.qemu(cpu), label="+sse4.1 qemu-" + cpu)
        p.emu(C.host(REL, True, "sse41noavx2"), "select", scale=200, n=100, pre=C.qemu(cpu), label="+sse4.1,-avx2 qemu-" + cpu)
    p.emudev(C.host(DEV), "select", scale=100, n=50, pre=C.qemu("Nehalem"), label="dev qemu-Nehalem")
    p.add(C.i686(), "select", n=800)
    p.emu(C.aarch64(), "select", scale=300, n=300)
    p.add(C.wasm(), "select", n=500)
    p.add(C.wasm(simd=False), "select", n=500)
    # without optimisation, where an arm that must not be reached traps
    p.dev(C.wasm(DEV), "select", scale=200, n=200)
    p.dev(C.wasm(DEV, simd=False), "select", scale=100, n=100)
    p.dev(C.i686(DEV), "select", scale=200, n=200)
    p.emudev(C.aarch64(DEV), "select", scale=60, n=60)
    for w in ("observe", "canon"):
        p.dev(C.wasm(DEV), w, scale=60, n=100, kinds="D")
        p.emudev(C.aarch64(DEV), w, scale=20, n=40, kinds="D")
    if not p.q:
        for cpu in C.CPUS:
            p.emudev(C.host(DEV), "select", pre=C.qemu(cpu), label="dev qemu-" + cpu)
            p.emudev(C.host(DEV, False), "select", pre=C.qemu(cpu), label="dev nostd qemu-" + cpu)
        p.emu(C.aarch64(REL, False), "select")
        for a in C.IMAGES:
            p.emu(C.bare(a), "ckpt", scale=100)
    p.go()
    ck = p.ck
    # Default of the SIMD types on a CPU without the feature
    if not ck.stop.is_set():
        for t, cpu in (("AvxHash", "Nehalem"), ("AvxHash", "Conroe"), ("SseHash", "Conroe")):
            from engine import run
            j = Job(C.host(), "probe", label="qemu-" + cpu, pre=C.qemu(cpu), rest=[t], timeout=60)
            r = run(j)
            ck.extra_eval += 1
            if any(l.startswith("HANDED") for l in r.lines) or (r.crash and r.crash.get("in_lib")):
                ck.violate("%s::default() on a CPU without the feature (%s): %s" % (t, cpu, r.crash or "handed out"), j.spec(), site=t + "::default")
            elif not any(l.startswith("CPU") for l in r.lines):
                ck.tool("probe of %s: %s" % (t, clip(r.err)))
    return ck.finish(
        "The backend that each way of obtaining a dispatcher (new, default, restore, clone, builder, BuildHasherDefault, collections) selects, read from its Debug output, against what "
        "compile-time flags and CPUID permit, and its results against PortableHash; Some/None of the explicit constructors against CPUID; in 28 x86_64 configurations (also of +ssse3, +sse4.2, +avx, x86-64-v3), on emulated "
        "CPUs with {no, SSE4.1, AVX2}, i686, aarch64 and wasm32. Distinct: by (way, arm, history) signature per process.")


# ---- C11 ----------------------------------------------------------------------------------------

def c11(tier, seed):
    p = Plan("C11", tier, seed)
    for c in (C.host(), C.host("chk"), C.host(REL, False, "avx2"), C.host(REL, True, "sse41noavx2"), C.i686()):
        p.add(c, "restore", n=8000, sh=2 if c.name == "x86_64-rel-std-none" else 1)
    p.dev(C.host(DEV), "restore", scale=500, n=2000, sh=2)
    p.dev(C.host(DEV, False), "restore", scale=200, n=600)
    p.dev(C.i686(DEV), "restore", scale=200, n=600)
    p.dev(C.wasm(DEV), "restore", scale=200, n=500)
    p.emudev(C.aarch64(DEV), "restore", scale=60, n=150)
    large(p, 2)
    if not p.q:
        for f in ("sse41", "native"):
            p.add(C.host(REL, True, f), "restore")
        for cpu in ("Conroe", "Nehalem", "max"):
            p.emu(C.host(), "restore", pre=C.qemu(cpu), label="qemu-" + cpu)
        for a in C.IMAGES:
            p.emudev(C.bare(a, DEV), "restore")
    p.go()
    ck = p.ck
    if not ck.stop.is_set():
        plats = [C.host(), C.i686(), C.aarch64(), C.wasm()] + ([] if p.q else [C.bare(a) for a in C.IMAGES])
        same(ck, plats, "restore", dict(scale=600 if p.q else 1000, n=20000 if p.q else 200000), "arbitrary restores")
    return ck.finish(
        "164-byte arrays: produced checkpoints mutated, all fields random or extreme, pending count over {0..40, powers of two +-1, literals, u32::MAX, random} with arbitrary buffer "
        "bytes; restored on every backend and followed by the same histories: equal results and checkpoints on all backends and platforms, empty append changes nothing, streaming "
        "invariance, own checkpoints restore transparently; panics watched in dev and checked builds. Distinct: by (count, history) signature per process.")


def same(ck, cfgs, wl, params, what, sh=1):
    jobs = []
    for c in cfgs:
        for i in range(sh):
            k = dict(params)
            if sh > 1:
                k["shard"] = "%d/%d" % (i, sh)
            if c.kind == "miri":
                k.update(raw=1, hang=0)
            jobs.append(Job(c, wl, label=c.name, seed=ck.seed, dict=ck.dict, digests=1, timeout=800 if ck.quick else 3000, **k))
    rs = ck.run_jobs(jobs)
    for i in range(sh):
        for j in range(1, len(cfgs)):
            ck.same_digests(rs[i], rs[j * sh + i], what)


# ---- C12 ----------------------------------------------------------------------------------------

def c12(tier, seed):
    p = Plan("C12", tier, seed)
    p.add(C.host(), "adapt", n=20000, sh=3)
    p.dev(C.host(DEV), "adapt", scale=500, n=2000, sh=2)
    p.add(C.host(REL, False), "adapt", n=3000)
    p.add(C.host(REL, True, "avx2"), "adapt", n=3000)
    p.add(C.host(REL, True, "sse41noavx2"), "adapt", n=3000)
    p.add(C.i686(), "adapt", n=3000)
    p.add(C.wasm(), "adapt", n=2000)
    p.emu(C.aarch64(), "adapt", scale=200, n=500)
    p.add(C.host(), "giant", n=8)
    p.add(C.host(), "long-adapt", n=1)
    epochs(p, 21, 18, 18, 0, twin=1)
    p.add(C.i686(), "big", n=2, twin=1)
    p.add(C.wasm(), "big", n=2, twin=1)
    p.add(C.host(REL, False), "long-adapt", n=1)
    p.add(C.host("chk"), "long-adapt", n=1)
    p.emu(C.host(), "adapt", scale=50, n=200, pre=C.qemu("Conroe"), label="qemu-Conroe")
    if not p.q:
        p.add(C.host(REL, False, "avx2"), "adapt")
        p.dev(C.i686(DEV), "adapt")
        p.dev(C.wasm(DEV), "adapt")
        p.emu(C.ppc64(), "adapt")
        p.emu(C.host(), "adapt", pre=C.qemu("Nehalem"), label="qemu-Nehalem")
    p.go()
    ck = p.ck
    # across processes
    if not ck.stop.is_set():
        envs = [{}, {"RUST_BACKTRACE": "1", "HOME": "/nonexistent", "LANG": "C"}, {"TZ": "Asia/Tokyo", "MALLOC_PERTURB_": "85"}, {"RUST_MIN_STACK": "99999", "X": "y" * 5000}]
        jobs = []
        for c, pre in [(C.host(), ())] * 1 + [(C.host(DEV), ()), (C.host(REL, True, "avx2"), ()), (C.host(), C.qemu("Conroe")), (C.host(), C.qemu("Nehalem"))]:
            for e in (envs if not pre else envs[:1]):
                for k in range(2 if p.q else 10):
                    jobs.append(Job(c, "values", label="%s %s #%d" % (c.name, " ".join(pre[2:]), k), pre=pre, env=e, seed=ck.seed, timeout=120))
        rs = ck.run_jobs(jobs)
        ref = None
        for j, r in zip(jobs, rs):
            if r is None or r.rc != 0:
                if r is not None and not ck.stop.is_set():
                    ck.tool("values: %s: exit %s %s" % (j.label, r.rc, clip(r.err)))
                continue
            v = [l for l in r.lines if l.startswith("V ")]
            ck.extra_eval += len(v)
            if ref is None:
                ref = v
            elif v != ref:
                d = next((a, b) for a, b in zip(v + [""], ref + [""]) if a != b)
                ck.violate("equal values hash differently in two processes: %s gives %s, %s gave %s" % (j.label, d[0], jobs[0].label, d[1]), {"pair": [jobs[0].spec(), j.spec()]})
                break
        ck.add("processes compared", len([r for r in rs if r is not None and r.rc == 0]))
    return ck.finish(
        "Random interleavings of write, write_all, write_vectored, write!, io::copy, flush, finish, clone with buffers 0..2^16 on every type against the one-shot hash of the bytes so far; "
        "returned lengths; integer writes; HighwayBuildHasher (new/default/clone/BuildHasherDefault), hash_one and collections against the dispatcher built with the key; the same values "
        "hashed in many processes with other environments, build profiles and CPUs. Distinct: by operation-sequence signature per process.")


# ---- C13, C14 -----------------------------------------------------------------------------------

def c13(tier, seed):
    p = Plan("C13", tier, seed)
    p.add(C.host(), "observe", n=30000, sh=3)
    p.dev(C.host(DEV), "observe", scale=1000, n=3000, sh=2)
    p.add(C.host(REL, False), "observe", n=4000)
    for f in ("avx2", "sse41noavx2", "native"):
        p.add(C.host(REL, True, f), "observe", n=5000)
    p.dev(C.host(DEV, True, "avx2"), "observe", scale=600, n=1000)
    p.add(C.i686(), "observe", n=3000)
    p.add(C.wasm(), "observe", n=2000)
    p.emu(C.aarch64(), "observe", scale=1000, n=800)
    for c in (C.host(), C.host("chk"), C.i686(), C.wasm(), C.host(REL, True, "avx2")):
        p.add(c, "long-observe", n=1)
    epochs(p, 22, 18, 18, 0, twin=1)
    for c in (C.host(), C.host(DEV), C.host(REL, True, "avx2"), C.host(REL, True, "sse41noavx2")):
        p.add(c, "shared", n=400)
    p.emu(C.aarch64(), "shared", n=30)
    p.add(C.host(), "odd", n=2)
    p.add(C.host(DEV), "odd", n=1)
    t = C.san("thread")
    p.add(t, "shared", n=100, raw=True, hang=0, deep=(1000, 4000, 8))
    p.add(t, "observe", n=300, scale=100, raw=True, hang=0, deep=(500, 4000, 4))
    for cpu in ("Conroe", "Nehalem"):
        p.emu(C.host(), "observe", scale=300, n=300, pre=C.qemu(cpu), label="qemu-" + cpu)
    large(p, 4)
    if not p.q:
        p.add(C.host("chk"), "observe")
        p.dev(C.wasm(DEV), "observe")
        p.emudev(C.aarch64(DEV), "observe")
        p.add(C.miri(), "observe", raw=True, hang=0, deep=(0, 30, 8), max=200)
        for a in C.IMAGES:
            p.emu(C.bare(a), "observe")
    p.go()
    return p.ck.finish(
        "Histories with checkpoint, finish, clone and Debug inserted at arbitrary positions against the same history without them; trees of clones with divergent continuations, each "
        "branch against its own isolated replay; clone_from; clones outliving originals. Distinct: by (backend, history, observer positions) signature per process.")


def c14(tier, seed):
    p = Plan("C14", tier, seed)
    p.add(C.host(), "canon", n=30000, sh=3)
    p.dev(C.host(DEV), "canon", scale=1000, n=3000, sh=2)
    p.add(C.host(REL, False), "canon", n=5000)
    for f in ("avx2", "sse41noavx2"):
        p.add(C.host(REL, True, f), "canon", n=5000)
    p.add(C.i686(), "canon", n=4000)
    p.add(C.wasm(), "canon", n=2000)
    p.emu(C.aarch64(), "canon", scale=1000, n=800)
    for c in (C.host(), C.i686(), C.wasm()):
        p.add(c, "long-canon", n=1)
    for c, sz in ((C.host(), 26), (C.host(REL, True, "sse41noavx2"), 24), (C.host(REL, False), 24), (C.i686(), 24), (C.wasm(), 24)):
        p.add(c, "canon-big", n=1, max=1 << sz, deep=(1000, 1, 2))
    p.emu(C.aarch64(), "canon-big", n=1, max=1 << 20)
    for i in range(3):
        p.add(C.host(), "giant", n=16, kinds="SAD" if p.q else "PSAD", shard="%d/3" % i)
    if not p.q:
        p.add(C.host("chk"), "canon")
        for cpu in ("Conroe", "Nehalem"):
            p.emu(C.host(), "canon", pre=C.qemu(cpu), label="qemu-" + cpu)
        p.emudev(C.aarch64(DEV), "canon")
    p.go()
    ck = p.ck
    if not ck.stop.is_set():
        plats = [C.host(), C.i686(), C.aarch64(), C.wasm()] + ([] if p.q else [C.bare(a) for a in C.IMAGES])
        same(ck, plats, "canon", dict(scale=1000, n=20000 if p.q else 200000), "checkpoints of the same streams")
    return ck.finish(
        "Checkpoints of the same stream under different chunkings (single appends of 1 KiB to 64 MiB, 2 and 4 GiB against small pieces, too), entry points, restores, clones and backends compared byte for byte, in one process and (by digest) between x86_64, i686, "
        "aarch64 and wasm32; restore-then-checkpoint identity; and a scan of each checkpoint for input bytes that are already absorbed (the same history with other absorbed bytes of the same "
        "state must not show them). Distinct: by (backend pair, chunkings) signature per process.")


# ---- C15 ----------------------------------------------------------------------------------------

def c15(tier, seed):
    p = Plan("C15", tier, seed)
    h = C.host()
    p.add(h, "interleave", n=4000, sh=2)
    p.add(h, "threads", n=150, sh=2)
    p.add(h, "first", n=60)
    p.add(h, "lockstep", n=50)
    p.add(h, "same", n=2000, max=1 << 22, twin=1, sh=2)
    p.dev(C.host(DEV), "same", scale=60, n=200, max=1 << 17, twin=1)
    for c in (C.host(REL, False), C.host(REL, True, "avx2"), C.host(REL, True, "sse41noavx2"), C.i686(), C.wasm()):
        p.add(c, "same", n=300, scale=400, max=1 << 20, twin=1)
    p.emu(C.aarch64(), "same", scale=100, n=100, max=1 << 17, twin=1)
    for c in (h, C.host(DEV), C.host(REL, False), C.host(REL, True, "avx2"), C.host(REL, True, "sse41noavx2"), C.i686(), C.aarch64()):
        p.add(c, "odd", n=(5 if c is h else 2) * (1 if p.q else 30), **({"timeout": 3000} if not p.q else {}))
    epochs(p, 22, 19, 19, 15, twin=1)
    p.add(C.host(REL, True, "avx2"), "lockstep", n=15)
    p.add(C.host(REL, False), "lockstep", n=15)
    p.add(h, "crowd", n=1 if p.q else 2, hang=0)
    p.add(C.host(REL, True, "avx2"), "crowd", n=1)
    p.add(C.host(REL, False), "crowd", n=1)
    p.dev(C.host(DEV), "lockstep", scale=250, n=8)
    p.emu(C.aarch64(), "lockstep", scale=15, n=5, deep=(300, 200, 4))
    p.dev(C.host(DEV), "interleave", scale=500, n=600)
    p.dev(C.host(DEV), "threads", n=40)
    p.add(C.host(REL, True, "avx2"), "interleave", n=1500)
    p.add(C.host(REL, True, "avx2"), "threads", n=60)
    p.add(C.host(REL, True, "sse41noavx2"), "threads", n=60)
    p.add(C.host(REL, False), "threads", n=60)
    t = C.san("thread")
    p.add(t, "threads", n=40, raw=True, hang=0, deep=(1000, 1500, 8))
    p.add(t, "interleave", n=100, raw=True, hang=0, deep=(300, 2000, 2))
    p.add(t, "lockstep", scale=100, n=40, raw=True, hang=0, deep=(1000, 1500, 4))
    p.emu(C.aarch64(), "threads", n=10)
    p.emu(C.aarch64(), "interleave", scale=100, n=200)
    p.emu(h, "threads", n=10, pre=C.qemu("Conroe"), label="qemu-Conroe")
    p.add(C.wasm(), "interleave", n=500)
    if not p.q:
        p.emu(h, "first", n=30, pre=C.qemu("Nehalem"), label="qemu-Nehalem")
        p.add(C.i686(), "threads", n=60)
        p.add(C.host(REL, True, "native"), "threads", n=60)
        p.add(C.miri(), "interleave", raw=True, hang=0, deep=(0, 8, 8), max=200)
        m = C.miri()
        p.add(m, "threads", raw=True, hang=0, deep=(0, 2, 1), max=100)
    p.go()
    return p.ck.finish(
        "Sets of independent histories run interleaved step by step on one thread and concurrently on 16 threads (the same operation repeated in step by all of them on inputs of one shape, one after another, all open at once, hashers moved between threads, one "
        "shared BuildHasher, racing first uses in fresh processes, in sinks, destructors, handlers of signals that interrupt library calls and forked children), and over the same memory with other contents, each result against the same history alone and, on any difference and for a sample, alone in a fresh process; ThreadSanitizer "
        "over the threaded runs. Distinct: by interleaving (completion order for threads) signature per process.")


# ---- C17 ----------------------------------------------------------------------------------------

def c17(tier, seed):
    p = Plan("C17", tier, seed, compile_counts=True, own=("ckpt",))
    ck = p.ck
    q = p.q
    plats = [C.host(), C.i686(), C.bare("powerpc"), C.bare("s390x"), C.wasm(simd=False)]
    if not q:
        plats += [C.bare("aarch64_be"), C.bare("riscv32"), C.ppc64(), C.host(DEV), C.i686(DEV), C.aarch64(), C.wasm()]
    for wl, sc, n in (("portable", 400, 10000), ("canon", 1000, 8000), ("restore", 1000, 8000), ("chunks", 600, 6000)):
        if ck.stop.is_set():
            break
        same(ck, plats, wl, dict(scale=sc if q else 800, n=n if q else n * 20, kinds="P"), "portable events (%s)" % wl, sh=1 if q else 8)
    if not ck.stop.is_set():
        same(ck, [C.host(), C.i686(), C.wasm(simd=False)] + ([] if q else [C.bare("powerpc"), C.bare("s390x")]), "big", dict(n=1, kinds="P", twin=1), "portable events (more than 2^32 bytes)")
        same(ck, [C.host(), C.i686(), C.wasm(simd=False)], "big", dict(n=2, kinds="P", twin=1), "portable events (long slices)")
    if not ck.stop.is_set():
        # unoptimised big-endian code, as a 32-bit and a 64-bit machine sees it
        dv = [C.host()] + [C.bare("powerpc", DEV)] + ([] if q else [C.bare("s390x", DEV), C.bare("aarch64_be", DEV)])
        same(ck, dv, "portable", dict(scale=40 if q else 300, n=400 if q else 8000, kinds="P"), "portable events, unoptimised", sh=1 if q else 8)
    if not ck.stop.is_set() and not q:
        mi = [C.host(), C.miri("powerpc-unknown-linux-gnu"), C.miri("s390x-unknown-linux-gnu")]
        same(ck, mi, "portable", dict(scale=0, n=16, kinds="P", max=150), "portable events in Miri", sh=4)
    if not ck.stop.is_set():
        exchange(p, [C.host(), C.bare("powerpc"), C.bare("s390x"), C.i686(), C.wasm(simd=False)], kinds="P", twin=1)
    return ck.finish(
        "The same deterministic histories of PortableHash (results of all widths, checkpoints, restores of produced and arbitrary bytes) on x86_64 (64-bit little-endian), i686 and wasm32 "
        "(32-bit little-endian), powerpc (32-bit big-endian), s390x and others (64-bit big-endian): digests of all observed events must be equal; checkpoints of one platform restored on "
        "the others. Distinct: by input signature per process (each process is one platform).")


# ---- C18 ----------------------------------------------------------------------------------------

def c18(tier, seed):
    p = Plan("C18", tier, seed, crash_counts=False, compile_counts=True)
    ck = p.ck
    so = ck.scratch / "shim.so"
    r = sh(["gcc", "-O1", "-fPIC", "-shared", "-o", str(so), str(ROOT / "shim/shim.c")])
    if r.returncode != 0:
        ck.tool("shim: " + clip(r.stderr))
    pl = {"LD_PRELOAD": str(so)}
    p.add(C.host(), "alloc", n=20000, max=1 << 24, env=pl, sh=2)
    p.add(C.host(REL, False), "alloc", n=8000, env=pl, sh=1)
    p.dev(C.host(DEV), "alloc", scale=300, n=800, env=pl, sh=2)
    p.dev(C.host(DEV, False), "alloc", scale=200, n=500, env=pl)
    p.add(C.host(REL, True, "avx2"), "alloc", n=5000, env=pl)
    p.add(C.host(REL, True, "sse41noavx2"), "alloc", n=5000, env=pl)
    p.emu(C.host(), "alloc", scale=50, n=200, pre=C.qemu("Conroe"), label="qemu-Conroe")
    p.add(C.i686(), "alloc", n=4000)
    p.emu(C.aarch64(), "alloc", scale=100, n=400)
    epochs(p, 22, 19, 19, 15, allocs=1)
    for c in (C.host(), C.i686(), C.wasm()):
        for w in ("long-hops", "long-observe", "long-adapt") + (("long-chunks", "long-canon") if not p.q else ()):
            p.add(c, w, n=1, allocs=1, deep=(1000, 1, 4))
        p.add(c, "big", n=1, allocs=1, twin=1)
        p.add(c, "big", n=2, allocs=1, twin=1)
    # any workload, judged by nothing but the allocations within library calls
    every = ("exact", "chunks", "ckpt", "observe", "canon", "restore", "default", "adapt")
    for w in every:
        p.dev(C.wasm(), w, scale=60, n=300, allocs=1)
        p.dev(C.host(), w, scale=60, n=300, allocs=1)
        if p.q and w not in ("exact", "observe", "adapt"):
            continue
        p.dev(C.wasm(DEV), w, scale=20, n=60, allocs=1)
        p.dev(C.i686(), w, scale=40, n=100, allocs=1)
        p.emudev(C.aarch64(), w, scale=10, n=60, allocs=1)
        if w != "adapt":
            p.emudev(C.bare("powerpc"), w, scale=10, n=60, allocs=1)
        if not p.q:
            p.dev(C.wasm(simd=False), w, scale=200, n=400, allocs=1)
            p.dev(C.host(DEV), w, scale=200, n=400, allocs=1)
            p.dev(C.i686(DEV), w, scale=100, n=200, allocs=1)
    if not p.q:
        p.add(C.host(REL, True, "native"), "alloc", env=pl)
        p.dev(C.host(DEV, True, "avx2"), "alloc", env=pl)
        p.emu(C.host(), "alloc", pre=C.qemu("Nehalem"), label="qemu-Nehalem")
        p.emudev(C.aarch64(DEV), "alloc")
        p.add(C.host("chk"), "alloc")
    p.go()
    # without std: an image that has no allocator at all
    if not ck.stop.is_set():
        base = "-Clink-args=-nostdlib -Clink-args=-nostartfiles -Clink-args=-static -Crelocation-model=static"
        hashes = {}
        wb = "-Clink-args=--no-entry -Clink-args=--export=noalloc_main"
        lk = {"i686-unknown-linux-gnu": "i686-linux-gnu-gcc", "aarch64-unknown-linux-gnu": "aarch64-linux-gnu-gcc"}
        kinds = [("x86_64-unknown-linux-gnu", f, base, ()) for f in ("none", "avx2", "sse41")] + [
            ("i686-unknown-linux-gnu", "none", base, ("qemu-i386",)), ("aarch64-unknown-linux-gnu", "none", base, ("qemu-aarch64",)),
            ("wasm32-unknown-unknown", "none", wb, ("node", str(ROOT / "noalloc/run.js"))), ("wasm32-unknown-unknown", "simd128", wb, ("node", str(ROOT / "noalloc/run.js")))]
        for prof in ("dev", "release"):
            for t, f, link, runner in kinds:
                wasm = t.startswith("wasm")
                c = Cfg("noalloc-%s-%s%s" % (prof, f, "" if t.startswith("x86_64") else "-" + t.split("-")[0]), crate="noalloc", profile=prof, feats=(),
                        flags=((C.FLAGS[f] if f != "simd128" else "-Ctarget-feature=+simd128") + " " + link).strip(), target=t, linker=lk.get(t), artifact="noalloc.wasm" if wasm else None)
                try:
                    build(c, 8)
                    ck.builds[c.name] = "linked"
                except BuildFailed as e:
                    if re.search(r"no global memory allocator found|`#\[alloc_error_handler\]`|undefined (symbol|reference)[^\n]*(__rust_alloc|__rg_alloc|__rdl_alloc|malloc)", e.text):
                        ck.violate("without std the crate needs an allocator: %s" % clip(e.text[-1500:]), {"config": c.name, "noalloc": True})
                    else:
                        ck.tool("no-allocator image %s: %s" % (c.name, clip(e.text[-1500:])))
                    continue
                r = sh(list(runner) + [str(c.out())])
                m = re.search(r"OPS (\w+)", r.stdout)
                if r.returncode != 0 or "DONE" not in r.stdout:
                    ck.tool("no-allocator image %s: exit %s" % (c.name, r.returncode))
                else:
                    ck.add("images without an allocator that ran")
                    ck.notes["operations in an image without an allocator"] = m.group(1) if m else "?"
    return ck.finish(
        "Every operation of every hasher type between two readings of a counting global allocator and of a preloaded libc allocator monitor (malloc family, mmap), for sizes 0..=100, "
        "2^k +-1 to 16 MiB, literals and random histories, first operations of processes and threads, Debug into accepting and failing sinks; std and no_std; and a freestanding image without "
        "any allocator. Distinct: by (backend, chunk lengths, operations) signature per process.")


def c16(tier, seed):
    import c16 as m
    return m.check(tier, seed)


PLANS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10,
         "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C15": c15, "C16": c16, "C17": c17, "C18": c18}
