"""Builds configurations of the monitors against the working tree, runs them, collects what they observed."""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import threading
import time
from pathlib import Path

ROOT = Path(__file__).resolve().parents[1]
REPO = Path(os.environ.get("VERIF_REPO", "/repo")).resolve()
BUILD = Path(os.environ.get("VERIF_BUILD", ROOT / "build"))
OUT = Path(os.environ.get("VERIF_OUT", ROOT))  # where evidence and replay files go
STABLE = "1.99.1"
LOCAL = ["highway", "lintc", "mon", "monref", "mon-wasm", "mon-bare", "mon_wasm", "mon_bare", "noalloc", "guard"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **kw)


def files_of(d, names=None):
    d = Path(d)
    out = []
    for r, ds, fs in os.walk(d):
        ds[:] = sorted(x for x in ds if x not in ("target", ".git", "node_modules"))
        for f in sorted(fs):
            out.append(Path(r) / f)
    return out


def hash_files(fs):
    h = hashlib.sha256()
    for f in fs:
        h.update(str(f).encode() + b"\0")
        try:
            h.update(f.read_bytes())
        except OSError:
            pass
        h.update(b"\0")
    return h.hexdigest()


_tree = None


def tree_hash():
    """Everything of the repository that reaches the compiler, and the harness."""
    global _tree
    if _tree is None:
        fs = files_of(REPO / "src")
        for x in ("Cargo.toml", "build.rs", "README.md"):
            if (REPO / x).exists():
                fs.append(REPO / x)
        for d in ("mon", "mon-wasm", "mon-bare", "noalloc", "guard", "guard-wasm", "shim"):
            fs += [f for f in files_of(ROOT / d) if f.name != "Cargo.lock"]
        _tree = hash_files(fs)
    return _tree


class Cfg:
    """One way of compiling one of the harness crates."""

    def __init__(self, name, crate="mon", tool=STABLE, profile="dev", feats=("hwstd",), flags="", target=None,
                 env=None, extra=(), pre=(), artifact=None, kind="cargo", nodefault=False, linker=None):
        self.name, self.crate, self.tool, self.profile = name, crate, tool, profile
        self.feats, self.flags, self.target, self.env = tuple(feats), flags, target, dict(env or {})
        self.extra, self.pre, self.kind, self.nodefault = tuple(extra), tuple(pre), kind, nodefault
        if linker:
            self.env["CARGO_TARGET_%s_LINKER" % target.upper().replace("-", "_")] = linker
        self.artifact = artifact or crate

    def dir(self):
        return BUILD / self.name

    def key(self):
        return json.dumps([tree_hash(), self.crate, self.tool, self.profile, self.feats, self.flags, self.target,
                           self.env, self.extra, self.kind, str(REPO)])

    def out(self):
        d = self.dir() / "t"
        if self.target:
            d = d / self.target
        d = d / {"dev": "debug"}.get(self.profile, self.profile)
        return d / self.artifact

    def describe(self):
        f = self.flags or "no flags"
        return "%s %s %s %s %s" % (self.target or "x86_64-unknown-linux-gnu", self.profile,
                                   "std" if "hwstd" in self.feats else "no_std", f, " ".join(self.pre[:3]))


class BuildFailed(Exception):
    def __init__(self, cfg, text):
        self.cfg, self.text = cfg, text
        super().__init__(text)

    def in_repo(self):
        """Is it the repository's source that the compiler rejects?"""
        return "error" in self.text and re.search(r"--> %s/src/" % re.escape(str(REPO)), self.text) is not None and \
            re.search(r"could not compile `highway`", self.text) is not None


def cargo_env(cfg):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO") and k not in ("CARGO_HOME",) or k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTDOCFLAGS", "LD_PRELOAD", "RUSTUP_TOOLCHAIN"):
            e.pop(k)
    e.update(cfg.env)
    e["RUSTFLAGS"] = cfg.flags
    e["CARGO_INCREMENTAL"] = "0"
    e["CARGO_TERM_COLOR"] = "never"
    return e


def cargo_cmd(cfg, verb, jobs=None):
    c = ["cargo", "+" + cfg.tool] + list(verb) + ["--offline", "--manifest-path", str(ROOT / cfg.crate / "Cargo.toml"),
                                                  "--target-dir", str(cfg.dir() / "t")]
    if str(REPO) != "/repo":
        c += ["--config", 'paths=["%s"]' % REPO]
    if cfg.profile == "release":
        c.append("--release")
    elif cfg.profile != "dev":
        c += ["--profile", cfg.profile]
    if cfg.nodefault:
        c.append("--no-default-features")
    if cfg.feats:
        c += ["--features", ",".join(cfg.feats)]
    if cfg.target:
        c += ["--target", cfg.target]
    if jobs:
        c += ["-j", str(jobs)]
    return c + list(cfg.extra)


MIRI_LIB = BUILD / "miri-library"

SHL = """pub fn %(f)s(a: %(t)s, b: %(i)s) -> %(t)s {
    let (a, b): ([%(e)s; %(n)d], [i%(w)d; %(n)d]) = unsafe { (transmute(a), transmute(b)) };
    let mut r = [0 as %(e)s; %(n)d];
    let mut i = 0;
    while i < %(n)d {
        let s = b[i] as i8 as i32;
        r[i] = if s >= %(w)d {
            0
        } else if s >= 0 {
            a[i] << s
        } else if s > -%(w)d {
            a[i] >> (0 - s)
        } else if %(signed)s && (a[i] as i64) < 0 {
            !0
        } else {
            0
        };
        i += 1;
    }
    unsafe { transmute(r) }
}
"""


def miri_lib():
    """The source of the standard library with the vector shifts of NEON, which Miri does not know, written out."""
    MIRI_LIB.mkdir(parents=True, exist_ok=True)
    with open(MIRI_LIB / "lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if (MIRI_LIB / "ready").exists():
            return
        shutil.rmtree(MIRI_LIB / "library", ignore_errors=True)
        root = sh(["rustc", "+nightly", "--print", "sysroot"]).stdout.strip()
        shutil.copytree(root + "/lib/rustlib/src/rust/library", MIRI_LIB / "library", symlinks=True)
        f = MIRI_LIB / "library/stdarch/crates/core_arch/src/arm_shared/neon/generated.rs"
        if f.exists():
            t = f.read_text()
            for q, m in (("", 1), ("q", 2)):
                for w in (8, 16, 32, 64):
                    for u in "us":
                        n = 64 * m // w
                        d = {"f": "vshl%s_%s%d" % (q, u, w), "t": "%sint%dx%d_t" % (u if u == "u" else "", w, n), "i": "int%dx%d_t" % (w, n),
                             "e": "%s%d" % (u if u == "u" else "i", w), "n": n, "w": w, "signed": "true" if u == "s" else "false"}
                        t = re.sub(r"pub fn %s\(a: %s, b: %s\) -> %s \{\n.*?\n\}\n" % (d["f"], d["t"], d["i"], d["t"]), lambda _: SHL % d, t, count=1, flags=re.S)
            f.write_text(t)
        (MIRI_LIB / "ready").write_text("")


def build(cfg, jobs=3, timeout=800):
    """Brings the configuration up to date with the working tree; returns the artifact."""
    d = cfg.dir()
    d.mkdir(parents=True, exist_ok=True)
    with open(d / "lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stamp = d / "stamp"
        key = cfg.key()
        if stamp.exists() and stamp.read_text() == key and (cfg.kind == "miri" or cfg.out().exists()):
            return cfg.out()
        if stamp.exists():
            stamp.unlink()
        # cargo goes by modification times: make it look again at everything that is ours
        for f in d.glob("t/**/.fingerprint/*"):
            if re.sub(r"-[0-9a-f]{16}$", "", f.name) in LOCAL:
                shutil.rmtree(f, ignore_errors=True)
        env = cargo_env(cfg)
        if cfg.kind == "miri":
            if "MIRI_LIB_SRC" in cfg.env:
                miri_lib()
            if cfg.target:
                sysroot = d / "sysroot"
                env["MIRI_SYSROOT"] = str(sysroot)
                if not (sysroot / "lib").exists():
                    shutil.rmtree(sysroot, ignore_errors=True)
                    r = sh(["cargo", "+" + cfg.tool, "miri", "setup", "--target", cfg.target], env=env, timeout=timeout)
                    if r.returncode != 0:
                        raise BuildFailed(cfg, r.stderr)
            cmd = cargo_cmd(cfg, ["miri", "run"], jobs) + ["--", "selfcheck", "n=0", "scale=0", "raw=1", "hang=0"]
        else:
            cmd = cargo_cmd(cfg, ["build"], jobs)
        try:
            r = sh(cmd, env=env, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise BuildFailed(cfg, "the build did not end within %d s" % timeout)
        if r.returncode != 0 and not (cfg.kind == "miri" and re.search("Undefined Behavior|unsupported operation", r.stderr)):
            raise BuildFailed(cfg, r.stderr[-20000:])
        (d / "stderr").write_text(r.stderr[-20000:])
        stamp.write_text(key)
        return cfg.out()


# ---- running ------------------------------------------------------------------------------------

class Job:
    def __init__(self, cfg, wl, label=None, pre=None, env=None, timeout=400, raw=False, cpus=1, **params):
        self.cfg, self.wl, self.params = cfg, wl, params
        self.pre = tuple(cfg.pre if pre is None else pre)
        self.env = dict(env or {})
        self.timeout, self.label = timeout, label or cfg.name
        self.cpus = cpus
        if raw:
            self.params["raw"] = 1

    def argv(self):
        a = [self.wl] + ["%s=%s" % (k.rstrip("_"), v) for k, v in self.params.items() if v is not None and k != "rest"]
        a += [str(x) for x in self.params.get("rest", [])]
        if self.cfg.kind == "miri":
            return cargo_cmd(self.cfg, ["miri", "run"]) + ["--"] + a
        return list(self.pre) + [str(self.cfg.out())] + a

    def spec(self):
        return {"config": self.cfg.name, "workload": self.wl, "params": {k: v for k, v in self.params.items()},
                "pre": list(self.pre), "env": {k: v for k, v in self.env.items()}}


class Res:
    def __init__(self, job):
        self.job = job
        self.fails, self.ev, self.dig, self.crash = [], None, {}, None
        self.rc, self.done, self.lines, self.err, self.timeout = None, False, [], "", False
        self.bad = None  # why nothing can be said

    @property
    def clean(self):
        return self.rc == 0 and self.done and not self.fails and not self.crash and not self.bad


SAN = re.compile(r"(ERROR: AddressSanitizer|WARNING: MemorySanitizer|WARNING: ThreadSanitizer|runtime error:|"
                 r"error: Undefined Behavior|==\d+== (Invalid (read|write)|Conditional jump|Use of uninit|Syscall param|Jump to the invalid|Process terminating with)|"
                 r"ERROR: LeakSanitizer|error: unsupported operation|Data race detected)")


def run(job, stop=None, keep=("CK", "V ", "R ", "NA ", "OPS", "CPU", "HANDED", "SEL")):
    res = Res(job)
    env = dict(os.environ)
    env.pop("LD_PRELOAD", None)
    if job.cfg.kind == "miri":
        env = cargo_env(job.cfg)
        if job.cfg.target:
            env["MIRI_SYSROOT"] = str(job.cfg.dir() / "sysroot")
    env.update(job.env)
    t0 = time.time()
    try:
        p = subprocess.Popen(job.argv(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, start_new_session=True)
    except OSError as e:
        res.bad = "cannot start: %s" % e
        return res

    def kill():
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass

    over = threading.Event()

    def watch():
        end = t0 + job.timeout
        while not over.wait(0.2):
            if time.time() > end:
                res.timeout = True
                kill()
                return
            if stop is not None and stop.is_set():
                res.bad = "stopped"
                kill()
                return

    w = threading.Thread(target=watch, daemon=True)
    w.start()
    errs = []

    def rd():
        for l in p.stderr:
            if len(errs) < 4000:
                errs.append(l)

    e = threading.Thread(target=rd, daemon=True)
    e.start()
    for l in p.stdout:
        l = l.decode(errors="replace").rstrip("\n")
        if l.startswith("DIG "):
            f = l.split(" ")
            res.dig[(f[1], int(f[2]))] = (f[3], f[4])
        elif l.startswith("FAIL "):
            try:
                res.fails.append(json.loads(l[5:]))
            except ValueError:
                res.bad = "unreadable: " + l[:300]
        elif l.startswith("EV "):
            try:
                res.ev = json.loads(l[3:])
            except ValueError:
                res.bad = "unreadable: " + l[:300]
        elif l.startswith("CRASH "):
            try:
                res.crash = json.loads(l[6:])
            except ValueError:
                res.crash = {"case": 0, "in_lib": False, "msg": l}
        elif l.startswith("DONE "):
            res.done = True
        elif l.startswith(keep):
            res.lines.append(l)
    p.wait()
    over.set()
    e.join(5)
    w.join(5)
    res.rc = p.returncode
    res.err = b"".join(errs).decode(errors="replace")
    res.wall = time.time() - t0
    if res.timeout and not res.bad:
        res.bad = "no end within %d s" % job.timeout
    return res


# ---- a dictionary of the numbers in the source --------------------------------------------------

def literals():
    """Integers written in the source: boundaries worth trying as lengths, keys, counts and data."""
    out = set()
    num = r"(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|\d[\d_]*)(?:[iu](?:8|16|32|64|128|size))?"

    def val(s):
        s = s.replace("_", "")
        try:
            return int(s, 0) if not re.fullmatch(r"0\d+", s) else int(s)
        except ValueError:
            return None

    for f in files_of(REPO / "src"):
        if f.suffix != ".rs":
            continue
        t = f.read_text(errors="replace")
        t = re.sub(r"//[^\n]*", "", t)
        t = re.sub(r"#\[cfg\(test\)\]\s*mod\s+\w+\s*\{.*\Z", "", t, flags=re.S)
        for m in re.finditer(r"(?<![\w.])" + num, t):
            v = val(m.group(1))
            if v is not None:
                out.add(v)
        for m in re.finditer(r"(?<![\w.])" + num + r"\s*(<<|\*|-|\+)\s*" + num, t):
            a, b = val(m.group(1)), val(m.group(3))
            if a is None or b is None:
                continue
            op = m.group(2)
            if op == "<<" and b < 64:
                out.add(a << b)
            elif op == "*":
                out.add(a * b)
            elif op == "-" and a >= b:
                out.add(a - b)
            elif op == "+":
                out.add(a + b)
        for m in re.finditer(r"b?\"((?:[^\"\\]|\\.)*)\"", t):
            s = m.group(1).encode()[:8]
            if 1 <= len(s):
                out.add(int.from_bytes(s, "little"))
        for m in re.finditer(r"b?'([^'\\])'", t):
            out.add(ord(m.group(1)))
    out = sorted(v for v in out if 0 <= v < 1 << 64)
    return out[:1500]


# ---- one check ----------------------------------------------------------------------------------

class Check:
    def __init__(self, prop, tier, seed, crash_counts=True, compile_counts=False, own=None):
        # own: the workloads whose comparisons decide this property (None: all); what others find belongs to other checks
        self.own = own
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.stop = threading.Event()
        self.lock = threading.Lock()
        self.violations, self.bad, self.known = [], [], []
        self.results = []
        self.builds = {}
        self.crash_counts, self.compile_counts = crash_counts, compile_counts
        self.counters, self.samples, self.notes = {}, [], {}
        self.extra_eval = 0
        self.extra_distinct = 0
        BUILD.mkdir(parents=True, exist_ok=True)
        self.scratch = BUILD / ("run-%s-%d" % (prop, os.getpid()))
        self.scratch.mkdir(parents=True, exist_ok=True)
        lits = literals()
        self.dict = self.scratch / "dict"
        self.dict.write_text(" ".join(map(str, lits)) + "\n")
        self.notes["literals of the source used in inputs"] = len(lits)

    def seed_for(self, name):
        h = int.from_bytes(hashlib.sha256(name.encode()).digest()[:4], "little")
        return (self.seed * 1000003 + h) % (1 << 40)

    def violate(self, msg, spec=None, **kw):
        with self.lock:
            v = {"property": self.prop, "msg": msg, "spec": spec, "seed": self.seed, "tier": self.tier}
            v.update(kw)
            self.violations.append(v)
        self.stop.set()

    def tool(self, msg):
        with self.lock:
            self.bad.append(msg)

    def judge(self, res):
        """What a finished process means."""
        job = res.job
        if res.bad == "stopped":
            return
        spec = job.spec()
        where = "%s [%s]" % (job.label, job.wl)
        with self.lock:
            self.results.append(res)
        real = [f for f in res.fails if not f["msg"].startswith("HARNESS")]
        for f in res.fails:
            if f["msg"].startswith("HARNESS"):
                self.tool("%s: %s" % (where, f["msg"]))
        other = False
        if real and self.own is not None and job.wl not in self.own:
            self.add("disagreements that are for other properties' checks to judge", len(real))
            self.notes["other properties"] = clip("%s: %s" % (where, real[0]["msg"]))
            real, other = [], True
        for f in real:
            self.violate("%s: %s" % (where, f["msg"]), spec, case=f["case"], workload=f["workload"])
        san = SAN.search(res.err)
        if san and "unsupported operation" in san.group(0):
            # it stops at the first such call and has judged what came before
            self.add("processes that Miri could not interpret to their end", 1)
            self.notes["not interpreted"] = clip("%s: %s" % (where, res.err[san.start():san.start() + 400]))
            return
        if san:
            part = res.err[san.start():]
            lib = re.search(r"(%s/src/|highway::|/highway-)" % re.escape(str(REPO)), part) is not None
            msg = "%s: %s" % (where, clip(part))
            if lib and self.crash_counts:
                self.violate(msg, spec, report=res.err[-6000:])
            else:
                self.tool(msg)
            return
        if res.crash:
            msg = "%s: case %s: %s" % (where, res.crash.get("case"), res.crash.get("msg"))
            if res.crash.get("in_lib") and self.crash_counts:
                self.violate(msg, spec, case=res.crash.get("case"))
            elif self.prop == "C09" and str(res.crash.get("msg", "")).startswith("SIG"):
                self.violate(msg + " (memory damaged)", spec, case=res.crash.get("case"))
            else:
                self.tool("crash outside of what is judged: " + msg)
            return
        if res.bad:
            self.tool("%s: %s" % (where, res.bad))
            return
        if real:
            return
        if other and res.rc == 1:
            return
        if res.rc is not None and res.rc < 0 and -res.rc in (4, 6, 7, 8, 11) and self.crash_counts and job.wl not in ("probe",):
            self.violate("%s: killed by signal %d" % (where, -res.rc), spec)
            return
        if not res.clean and job.wl not in ("values", "probe"):
            self.tool("%s: exit %s without a result: %s" % (where, res.rc, clip(res.err or "")))

    def run_jobs(self, jobs, par=8, builders=3, on_result=None):
        """Builds what the jobs need and runs them; returns the results in order."""
        jobs = list(jobs)
        by = {}
        for i, j in enumerate(jobs):
            by.setdefault(j.cfg.name, []).append(i)
        cfgs = {j.cfg.name: j.cfg for j in jobs}
        results = [None] * len(jobs)
        with cf.ThreadPoolExecutor(builders) as bp, cf.ThreadPoolExecutor(par) as rp:
            bf = {bp.submit(self._build, c, 3 if len(cfgs) > 2 else 8): n for n, c in cfgs.items()}
            rf = {}
            for b in cf.as_completed(bf):
                n = bf[b]
                ok = b.result()
                if not ok or self.stop.is_set():
                    continue
                for i in by[n]:
                    rf[rp.submit(run, jobs[i], self.stop)] = i
                # judge what is there already
                for f in [f for f in rf if f.done() and results[rf[f]] is None]:
                    self._take(f, rf, results)
            for f in cf.as_completed(rf):
                if results[rf[f]] is None:
                    self._take(f, rf, results)
        return results

    def _take(self, f, rf, results):
        r = f.result()
        results[rf[f]] = r
        self.judge(r)

    def _build(self, cfg, jobs):
        if self.stop.is_set():
            return False
        t = time.time()
        try:
            build(cfg, jobs, timeout=600 if self.quick else 2400)
            self.builds[cfg.name] = round(time.time() - t, 1)
            return True
        except BuildFailed as e:
            self.builds[cfg.name] = "failed"
            if e.in_repo() and self.compile_counts and self._default_builds():
                m = re.search(r"(error[^\n]*\n\s*--> %s[^\n]*)" % re.escape(str(REPO)), e.text)
                self.violate("%s does not compile although the default configuration does: %s" % (cfg.describe(), m.group(1) if m else clip(e.text)),
                             {"config": cfg.name, "build": True})
            else:
                self.tool("build of %s failed: %s" % (cfg.name, clip(e.text[-1500:])))
            return False

    def _default_builds(self):
        c = Cfg("plain", crate="lintc")
        r = sh(cargo_cmd(c, ["check"], 4), env=cargo_env(c))
        return r.returncode == 0

    # -- cross-platform comparison --
    def same_digests(self, a, b, what):
        """Two processes that ran the same cases observed the same."""
        if a is None or b is None or not a.done or not b.done:
            return
        ka, kb = set(a.dig), set(b.dig)
        n = other = 0
        for k in sorted(ka & kb):
            if a.dig[k][0] != b.dig[k][0]:
                # the monitors themselves did not make the same inputs
                other += 1
                continue
            n += 1
            if a.dig[k][1] != b.dig[k][1]:
                self.violate("%s: %s: cases %d..%d of %s differ between %s and %s (event digests %s, %s)" % (
                    self.prop, what, k[1] << 5, (k[1] << 5) + 31, k[0], a.job.label, b.job.label, a.dig[k][1], b.dig[k][1]),
                    {"pair": [a.job.spec(), b.job.spec()], "block": [k[0], k[1]]})
                return
        if ka != kb:
            self.tool("%s and %s did not run the same cases (%d, %d blocks)" % (a.job.label, b.job.label, len(ka), len(kb)))
        self.add("event-digest blocks compared between platforms", n)
        if other:
            self.add("event-digest blocks left out (the monitor itself was compiled to other inputs)", other)

    def add(self, k, n=1):
        with self.lock:
            self.counters[k] = self.counters.get(k, 0) + n

    # -- verdict --
    def finish(self, rule, level="exploration", more=None):
        cases = distinct = calls = 0
        runs = []
        for r in self.results:
            if r.ev:
                cases += max(r.ev["cases"], r.ev["tries"])
                distinct += r.ev["distinct"]
                calls += r.ev["calls"]
                for k, v in r.ev["counters"].items():
                    if k.startswith(("longest", "largest", "most")):
                        self.counters[k] = max(self.counters.get(k, 0), v)
                    else:
                        self.counters[k] = self.counters.get(k, 0) + v
                if len(self.samples) < 12:
                    for s in r.ev["samples"][-1:]:
                        self.samples.append("[%s %s] %s" % (r.job.label, r.ev["workload"], s[:600]))
                runs.append("%s %s: %d cases, %d calls, %.1f s%s" % (r.job.label, r.ev["workload"], r.ev["cases"], r.ev["calls"], r.wall,
                                                                   "" if r.clean else " (not clean)"))
        cov = {
            "evaluations": cases + self.extra_eval,
            "distinct_nontrivial": distinct + self.extra_distinct,
            "rule": rule,
            "samples": self.samples or ["none"],
            "library_calls_observed": calls,
            "observed": self.counters,
            "processes": runs[:400],
            "configurations": {n: self.builds[n] for n in self.builds},
            "notes": self.notes,
        }
        cov.update(more or {})
        known = load_known()
        left = []
        for v in self.violations:
            k = next((k for k in known if k["property"] == self.prop and v.get("site") == k["site"]), None)
            if k:
                if k not in self.known:
                    self.known.append(k)
            else:
                left.append(v)
        self.violations = left
        verdict = "violated" if left else ("inconclusive" if self.bad else "held")
        if verdict == "held" and cov["evaluations"] == 0:
            self.bad.append("nothing was observed")
            verdict = "inconclusive"
        cov["verdict"] = verdict
        if self.bad:
            cov["inconclusive"] = self.bad[:20]
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "wall_s": round(time.time() - self.t0, 2)}
        (OUT / "evidence").mkdir(parents=True, exist_ok=True)
        (OUT / "evidence" / (self.prop + ".json")).write_text(json.dumps(ev, indent=1) + "\n")
        shutil.rmtree(self.scratch, ignore_errors=True)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["text"]))
        if left:
            (OUT / "replay").mkdir(parents=True, exist_ok=True)
            for i, v in enumerate(left[:3]):
                f = OUT / "replay" / ("%s-%d.json" % (self.prop, i))
                v["dict"] = literals()
                f.write_text(json.dumps(v, indent=1, default=str) + "\n")
                print("  " + clip(v["msg"], 1500))
                print("VIOLATION property=%s replay=%s" % (self.prop, f))
            return 1
        if self.bad:
            for b in self.bad[:8]:
                print("INCONCLUSIVE property=%s %s" % (self.prop, clip(b, 800)))
            return 2
        print("HELD property=%s tier=%s cases=%d distinct=%d calls=%d configurations=%d wall=%.1fs" % (
            self.prop, self.tier, cov["evaluations"], cov["distinct_nontrivial"], calls, len(self.builds), ev["wall_s"]))
        return 0


def clip(s, n=700):
    s = re.sub(r"\s+", " ", s)
    return s if len(s) <= n else s[:n] + "..."


def load_known():
    """Lines `finding: property=<id> site=<site> <text>` of known-findings.txt."""
    out = []
    f = ROOT / "known-findings.txt"
    if f.exists():
        for l in f.read_text().splitlines():
            m = re.match(r"finding: property=(\S+) site=(\S+) (.*)", l)
            if m:
                out.append({"property": m.group(1), "site": m.group(2), "text": m.group(2) + ": " + m.group(3)})
    return out
