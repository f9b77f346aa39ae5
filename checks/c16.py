"""C16: what the portable path executes, and whether any of it is unsafe code.

Three observations are combined: which functions of the crate run when PortableHash is driven (coverage
instrumentation), where the compiler sees unsafe code after expansion (the unsafe_code lint with --force-warn, which
no allow attribute silences), and the text of the modules for cfg combinations that are not compiled here."""
import concurrent.futures as cf
import json
import re
import shutil
from pathlib import Path

import configs as C
from engine import BUILD, REPO, STABLE, BuildFailed, Cfg, Check, Job, build, cargo_cmd, cargo_env, clip, files_of, run, sh

# the modules named by the property: buffering, key, traits, std adapters, collection builder type, the hasher
ANCHORED = ["portable.rs", "internal.rs", "key.rs", "traits.rs", "macros.rs", "hash.rs"]


def strip(t):
    """Rust source with comments, strings and character literals blanked out (same length, same lines)."""
    o = list(t)
    i, n = 0, len(t)

    def blank(a, b):
        for k in range(a, min(b, n)):
            if o[k] != "\n":
                o[k] = " "

    while i < n:
        c = t[i]
        if t.startswith("//", i):
            e = t.find("\n", i)
            e = n if e < 0 else e
            blank(i, e)
            i = e
        elif t.startswith("/*", i):
            d, k = 1, i + 2
            while k < n and d:
                if t.startswith("/*", k):
                    d, k = d + 1, k + 2
                elif t.startswith("*/", k):
                    d, k = d - 1, k + 2
                else:
                    k += 1
            blank(i, k)
            i = k
        elif (m := re.match(r"(?:b|c)?r(#*)\"", t[i:i + 40])) and not (i and (t[i - 1].isalnum() or t[i - 1] == "_")):
            e = t.find('"' + m.group(1), i + m.end())
            e = n if e < 0 else e + 1 + len(m.group(1))
            blank(i, e)
            i = e
        elif c == '"':
            k = i + 1
            while k < n and t[k] != '"':
                k += 2 if t[k] == "\\" else 1
            blank(i, k + 1)
            i = k + 1
        elif c == "'":
            m = re.match(r"'(\\.[^']*|[^'\\])'", t[i:i + 14])
            if m:
                blank(i, i + m.end())
                i += m.end()
            else:
                i += 1
        else:
            i += 1
    return "".join(o)


def close(t, i):
    """The index behind the bracket that closes the one at i."""
    pair = {"{": "}", "(": ")", "[": "]"}
    d = 0
    for k in range(i, len(t)):
        if t[k] in pair:
            d += 1
        elif t[k] in pair.values():
            d -= 1
            if d == 0:
                return k + 1
    return len(t)


def body(t, i):
    """The index of the brace or semicolon that ends an item's head at i (not those within brackets), or None."""
    while i < len(t):
        if t[i] in "([":
            i = close(t, i)
        elif t[i] in "{;":
            return i
        else:
            i += 1
    return None


def without_tests(t):
    """Blanks items under #[cfg(test)]."""
    while True:
        m = re.search(r"#\s*\[\s*cfg\s*\(\s*test\s*\)\s*\]", t)
        if not m:
            return t
        k = m.end()
        while True:  # further attributes
            a = re.match(r"\s*#\s*\[", t[k:])
            if not a:
                break
            k = close(t, k + a.end() - 1)
        b = body(t, k)
        e = len(t) if b is None else (b + 1 if t[b] == ";" else close(t, b))
        t = t[:m.start()] + re.sub(r"[^\n]", " ", t[m.start():e]) + t[e:]


def code(f):
    try:
        return without_tests(strip(f.read_text(errors="replace")))
    except OSError:
        return ""


OVER = re.compile(r"\b(allow|warn|expect)\s*\(([^()]*\bunsafe_code\b[^()]*)\)")


def offences(t, base=0):
    """Unsafe code and lint overrides in a piece of stripped source: (line, what)."""
    out = []
    for m in re.finditer(r"\bunsafe\b", t):
        out.append((t.count("\n", 0, m.start()) + 1 + base, "unsafe " + (re.match(r"\s*(\w+|\{|\()", t[m.end():]) or [""])[0].strip()))
    for m in OVER.finditer(t):
        out.append((t.count("\n", 0, m.start()) + 1 + base, "%s(unsafe_code)" % m.group(1)))
    for m in re.finditer(r"#\s*!?\s*\[[^\]]*\b(no_mangle|export_name|link_section)\b[^\]]*\]", t):
        out.append((t.count("\n", 0, m.start()) + 1 + base, m.group(1)))
    return out


def line(f, n):
    try:
        return f.read_text(errors="replace").splitlines()[n - 1].strip()
    except (OSError, IndexError):
        return ""


# ---- 1. what runs -------------------------------------------------------------------------------

def tools():
    r = sh(["rustc", "+stable", "--print", "sysroot"])
    d = Path(r.stdout.strip()) / "lib/rustlib/x86_64-unknown-linux-gnu/bin"
    return d / "llvm-profdata", d / "llvm-cov"


def executed(ck, cfg, wls, label):
    """(file, first line, last line, function) of the crate's functions that ran."""
    prof = ck.scratch / ("prof-" + label)
    prof.mkdir(exist_ok=True)
    jobs = [Job(cfg, w, label=label, seed=ck.seed_for(label), dict=ck.dict, env={"LLVM_PROFILE_FILE": str(prof / (w + "-%p-%m.profraw"))}, **k) for w, k in wls]
    rs = ck.run_jobs(jobs)
    raw = list(prof.glob("*.profraw"))
    if ck.stop.is_set() or not all(r is not None and r.done for r in rs) or not raw:
        if not ck.stop.is_set() and not raw:
            ck.tool("no coverage was recorded in %s" % label)
        return []
    pd, lc = tools()
    m = prof / "all.profdata"
    r = sh([str(pd), "merge", "-sparse", "-o", str(m)] + [str(x) for x in raw])
    if r.returncode != 0:
        ck.tool("llvm-profdata: " + clip(r.stderr))
        return []
    r = sh([str(lc), "export", "-format=text", "-instr-profile", str(m), str(cfg.out())])
    if r.returncode != 0:
        ck.tool("llvm-cov: " + clip(r.stderr))
        return []
    out = set()
    for fn in json.loads(r.stdout)["data"][0]["functions"]:
        if fn["count"] == 0:
            continue
        for reg in fn["regions"]:
            # line, column, end line, end column, count, file, expanded file, kind
            f = fn["filenames"][reg[5]]
            if f.startswith(str(REPO) + "/src/") and reg[4] > 0 and reg[7] in (0, 1):
                out.add((f, reg[0], reg[2], fn["name"]))
    return out


def cov_cfg(std, flags, other=None):
    """`other`: a configuration of another platform, whose target and emulator are taken."""
    how = dict(target=other.target, env=other.env, pre=other.pre) if other else {}
    return Cfg("cov-%s-%s%s" % ("std" if std else "nostd", flags, "-" + other.target.split("-")[0] if other else ""), tool=STABLE if other else "stable", profile="dev",
               feats=("hwstd",) if std else (), flags=(MORE.get(flags) or C.FLAGS[flags] + " -Cinstrument-coverage").strip(), **how)


MORE = {"release": "-Cdebug-assertions=off -Coverflow-checks=off -Cinstrument-coverage"}


# ---- 2. where the compiler sees unsafe code -----------------------------------------------------

def lint(ck, name, std, flags="", target=None, tool=STABLE, extra=()):
    """Spans at which the compiler reports unsafe code, whatever the attributes allow."""
    c = Cfg("lint-" + name, crate="lintc", flags=(flags + " --force-warn unsafe_code").strip(), target=target, tool=tool,
            feats=("hwstd",) if std else (), extra=tuple(extra) + ("--message-format=json",))
    for f in c.dir().glob("t/**/.fingerprint/*"):
        if f.name.startswith(("highway-", "lintc-")):
            shutil.rmtree(f, ignore_errors=True)
    cmd = cargo_cmd(c, ["check"], 3)
    r = sh(cmd, env=cargo_env(c))
    if r.returncode != 0:
        return name, None, r.stderr[-1500:]
    sp = []
    for l in r.stdout.splitlines():
        try:
            d = json.loads(l)
        except ValueError:
            continue
        m = d.get("message")
        if d.get("reason") != "compiler-message" or not m or (m.get("code") or {}).get("code") != "unsafe_code":
            continue
        for s in m["spans"]:
            # the place itself and every macro invocation around it
            q, inside = s, False
            while q:
                sp.append((q["file_name"], q["line_start"], q["line_end"], m["message"] + (" (by macro expansion)" if inside else "")))
                q = (q.get("expansion") or {}).get("span")
                inside = True
    return name, sp, None


# ---- 3. references into other modules, whatever the cfg ------------------------------------------

def modules():
    src = REPO / "src"
    out = {}
    for f in files_of(src):
        if f.suffix == ".rs":
            out[f.stem if f.stem != "mod" else f.parent.name] = f
    return out


def item(t, name):
    """Source ranges (start, end) of functions and macros of that name."""
    out = []
    for m in re.finditer(r"\b(?:fn|macro_rules!)\s+%s\b" % re.escape(name), t):
        b = body(t, m.end())
        if b is not None and t[b] == "{":
            # from the attributes and qualifiers in front of it
            s = max(t.rfind("}", 0, m.start()), t.rfind(";", 0, m.start()), t.rfind("{", 0, m.start())) + 1
            out.append((s, close(t, b)))
    return out


def referenced(t, mods):
    """(module, item) named by paths through the crate."""
    out = set()
    for m in re.finditer(r"\b(?:crate|super)((?:\s*::\s*\w+)+)", t):
        p = re.findall(r"\w+", m.group(1))
        for i, x in enumerate(p[:-1]):
            if x in mods:
                out.add((x, p[-1]))
    for m in re.finditer(r"\b(?:crate|super)\s*::\s*(\w+\s*::\s*)*\{", t):
        inner = t[m.end():close(t, m.end() - 1) - 1]
        pre = re.findall(r"\w+", m.group(0))[1:]
        for x in re.finditer(r"((?:\w+\s*::\s*)*)(\w+)", inner):
            p = pre + re.findall(r"\w+", x.group(1))
            for y in p:
                if y in mods:
                    out.add((y, x.group(2)))
    return out


def check(tier, seed):
    ck = Check("C16", tier, seed, crash_counts=False)
    q = ck.quick
    src = REPO / "src"
    mods = modules()
    # -- what runs
    n = 150 if q else 1500
    P = [(w, dict(kinds="P", n=n, scale=s, max=3000)) for w, s in
         (("model", 5), ("chunks", 20), ("canon", 100), ("ckpt", 100), ("restore", 60), ("observe", 200), ("panics", 200), ("portable", 5))]
    B = [("adapt", dict(n=n, scale=100, max=3000)), ("interleave", dict(n=20, scale=20))]
    ran, ran_b = {}, {}
    todo = [(True, "none"), (False, "none"), (True, "avx2")] if q else [(s, f) for s in (True, False) for f in C.FLAGS]
    todo += [(True, "release"), (True, "none", C.aarch64()), (True, "none", C.i686())] + ([] if q else [(False, "release"), (False, "none", C.aarch64()), (False, "none", C.i686())])
    for s, f, *o in todo:
        c = cov_cfg(s, f, *o)
        few = [(w, dict(k, n=20, scale=5)) for w, k in P] if o and o[0].pre else P
        for reg in executed(ck, c, few, c.name):
            ran.setdefault(reg[:3], set()).add(c.name)
        if s:
            for reg in executed(ck, c, B, c.name + "-adapters"):
                ran_b.setdefault(reg[:3], set()).add(c.name)
        if ck.stop.is_set():
            break
    files = sorted({r[0] for r in ran})
    ck.add("source regions of the crate executed by the portable path", len(ran))
    ck.add("source regions of the anchored modules executed through adapters and the builder type",
           len([r for r in ran_b if Path(r[0]).name in ANCHORED]))
    ck.notes["files executed by the portable path"] = [str(Path(f).relative_to(src)) for f in files]
    if not ck.bad and not any(f.endswith("portable.rs") for f in files):
        # the hasher may have moved, but something must have run
        if not ran:
            ck.tool("no region of the crate was seen running")
    scope = {str(src / a) for a in ANCHORED if (src / a).exists()}
    scope |= {str(f) for d in ("portable", "internal", "key", "traits", "macros", "hash") for f in files_of(src / d) if f.suffix == ".rs"}
    lines_run = {}
    for (f, a, b) in ran:
        lines_run.setdefault(f, set()).update(range(a, b + 1))
    for (f, a, b) in ran_b:
        if f in scope:
            lines_run.setdefault(f, set()).update(range(a, b + 1))

    found = {}

    def offend(f, n, what, how):
        found.setdefault((str(f), n), []).append("%s [%s]" % (what, how))

    # -- the executed regions themselves, wherever they are
    for f, ls in lines_run.items():
        t = code(Path(f))
        for n, what in offences(t):
            if n in ls:
                offend(f, n, what, "executed by the portable path")
    # a function that runs and is itself unsafe or in a module that lifts the lint: whole executed functions
    for f in files:
        if f in scope or f.endswith("/lib.rs"):
            continue
        t = code(Path(f))
        for m in re.finditer(r"\bfn\s+\w+", t):
            b = body(t, m.end())
            if b is None or t[b] != "{":
                continue
            s = max(t.rfind("}", 0, m.start()), t.rfind(";", 0, m.start()), t.rfind("{", 0, m.start())) + 1
            e = close(t, b)
            la, lb = t.count("\n", 0, m.start()) + 1, t.count("\n", 0, e) + 1
            if lines_run[f] & set(range(la, lb + 1)):
                for n, what in offences(t[s:e], t.count("\n", 0, s)):
                    offend(f, n, what, "in a function the portable path executes")
    # -- what the compiler sees
    specs = [("x86_64-std", True), ("x86_64-nostd", False), ("x86_64-avx2", True, C.FLAGS["avx2"]), ("x86_64-nostd-avx2", False, C.FLAGS["avx2"]),
             ("x86_64-sse41", True, C.FLAGS["sse41"]), ("aarch64", True, "", "aarch64-unknown-linux-gnu"), ("aarch64-nostd", False, "", "aarch64-unknown-linux-gnu"),
             ("i686", True, "", "i686-unknown-linux-gnu"), ("i686-nostd", False, "", "i686-unknown-linux-gnu"),
             ("wasm", True, "", "wasm32-unknown-unknown"), ("wasm-simd", True, "-Ctarget-feature=+simd128", "wasm32-unknown-unknown"),
             ("wasm-simd-nostd", False, "-Ctarget-feature=+simd128", "wasm32-unknown-unknown"),
             ("release", True, "-Cdebug-assertions=off -Coverflow-checks=off"), ("native", True, C.FLAGS["native"]), ("x86_64-v3", False, C.LEVELS["v3"]), ("aarch64-sve", True, C.SVE, "aarch64-unknown-linux-gnu"),
             ("wasm-relaxed", True, "-Ctarget-feature=+simd128" + C.RELAXED, "wasm32-unknown-unknown")]
    if not q:
        for t in ("aarch64_be", "powerpc", "s390x", "riscv32"):
            specs.append((t, False, "", C.IMAGES[t][0], "nightly", ("-Zbuild-std=core",)))
    ok = 0
    spans = 0
    with cf.ThreadPoolExecutor(4) as ex:
        for name, sp, err in ex.map(lambda a: lint(ck, *a), specs):
            if sp is None:
                ck.notes["not compiled: " + name] = clip(err, 300)
                continue
            ok += 1
            ck.builds["lint-" + name] = "compiled"
            for f, a, b, what in sp:
                f = str((REPO / f).resolve()) if not f.startswith("/") else f
                spans += 1
                if f in scope:
                    t = code(Path(f)).splitlines()
                    if all(not x.strip() for x in t[a - 1:b]):
                        continue  # blanked: a test module
                    offend(f, a, what, "compiler, " + name)
                elif f in lines_run and set(range(a, b + 1)) & lines_run[f] and f in files:
                    offend(f, a, what, "compiler, %s, executed by the portable path" % name)
    ck.add("configurations whose unsafe code the compiler listed", ok)
    ck.add("unsafe places the compiler listed (all modules)", spans)
    if not found and ok < 2:
        ck.tool("the compiler's list of unsafe code could not be obtained: %s" % clip(str(ck.notes)))
    if ok and spans == 0:
        ck.notes["compiler"] = "no unsafe code anywhere in the crate"
    # -- every cfg: the text of the modules and what they refer to
    todo = [(Path(f), None) for f in sorted(scope)]
    seen = set()
    scanned = 0
    while todo:
        f, it = todo.pop()
        if (f, it) in seen:
            continue
        seen.add((f, it))
        t = code(f)
        raw = f.read_text(errors="replace") if f.exists() else ""
        parts = [(0, len(t))] if it is None else item(t, it)
        for a, b in parts:
            scanned += 1
            for n, what in offences(t[a:b], t.count("\n", 0, a)):
                offend(f, n, what, "text" if it is None else "text of %s, which the portable path refers to" % it)
            if f.name != "hash.rs":
                for m, x in referenced(t[a:b], mods):
                    if str(mods[m]) not in scope:
                        todo.append((mods[m], x))
            for m in re.finditer(r"include!\s*\(\s*\"([^\"]+)\"|path\s*=\s*\"([^\"]+)\"", raw):
                g = f.parent / (m.group(1) or m.group(2))
                if g.exists() and g.suffix == ".rs":
                    todo.append((g, None))
    ck.add("pieces of source scanned for every cfg", scanned)
    # -- lib.rs: attributes on these modules, or on the crate
    root = src / "lib.rs"
    t = code(root)
    for m in OVER.finditer(t):
        s = t.rfind("#", 0, m.start())
        n = t.count("\n", 0, m.start()) + 1
        if re.match(r"#\s*!", t[s:]):
            offend(root, n, "%s(unsafe_code) for the whole crate" % m.group(1), "crate attribute")
        else:
            k = close(t, t.find("[", s))
            while (a := re.match(r"\s*#\s*\[", t[k:])):
                k = close(t, k + a.end() - 1)
            d = re.match(r"\s*(?:pub(?:\([^)]*\))?\s+)?mod\s+(\w+)", t[k:])
            if d and (src / (d.group(1) + ".rs")).as_posix() in scope:
                offend(root, n, "%s(unsafe_code) on module %s" % (m.group(1), d.group(1)), "module attribute")
    for (f, n), what in sorted(found.items()):
        ck.violate("%s:%d: %s: %s" % (Path(f).relative_to(REPO) if f.startswith(str(REPO)) else f, n, line(Path(f), n), "; ".join(sorted(set(what))[:4])),
                   {"c16": True})
    for f in files[:6]:
        ls = sorted(lines_run[f])
        ck.samples.append("%s: %d lines executed by the portable path, e.g. %s" % (Path(f).relative_to(src), len(ls), ls[:12]))
    return ck.finish(
        "PortableHash, key, traits, adapters and builder type driven by the library workloads in coverage-instrumented builds: every executed source region of the crate, every unsafe place the "
        "compiler lists in each compiled configuration (lint forced on, after macro expansion), and the text of the portable-path modules and what they refer to under every cfg. "
        "Evaluations: cases run while tracing; distinct by input signature per process.")
