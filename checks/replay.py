"""Runs the failing case of a replay file again."""
import json
import os
import tempfile

import configs as C
import plans
from engine import Cfg, Job, build, run


def every_cfg():
    out = {}
    cs = C.matrix() + [C.host("chk", s, f) for s in (True, False) for f in C.FLAGS]
    cs += [f(p, s) for f in (C.aarch64, C.i686, C.ppc64) for p in ("dev", "release") for s in (True, False)]
    cs += [C.wasm(p, s, d) for p in ("dev", "release") for s in (True, False) for d in (True, False)]
    cs += [C.bare(a, p) for a in C.IMAGES for p in ("dev", "release")]
    cs += [C.miri(), C.miri(flags=C.FLAGS["avx2"])] + [C.miri(t) for t in ("powerpc-unknown-linux-gnu", "s390x-unknown-linux-gnu")] + [C.miri_wasm(), C.miri_neon(), C.miri_neon(True)]
    cs += [C.san(w, s) for w in ("address", "memory", "thread") for s in (True, False)]
    cs += [C.i686("release", True, "-Ctarget-feature=+avx2"), C.i686("chk"), C.wasm("chk"), C.aarch64("chk"), C.aarch64(flags=C.SVE), C.wasm(more=C.RELAXED)]
    cs += [C.host("release", s, f) for s in (True, False) for f in C.LEVELS]
    for c in cs:
        out[c.name] = c
    return out


def main(path):
    v = json.load(open(path))
    prop, spec = v["property"], v.get("spec") or {}
    print("recorded: " + v["msg"][:2000])
    if "workload" not in spec or "file" in spec.get("params", {}):
        # found by comparing runs, or by a build: run the whole check again
        return plans.PLANS[prop](v.get("tier", "quick"), v["seed"])
    cfg = every_cfg()[spec["config"]]
    build(cfg, 8)
    with tempfile.TemporaryDirectory() as d:
        p = dict(spec["params"])
        if "dict" in p:
            p["dict"] = os.path.join(d, "dict")
            open(p["dict"], "w").write(" ".join(map(str, v.get("dict", []))) + "\n")
        if v.get("case"):
            p["case"] = v["case"]
            p.pop("shard", None)
        env = {k: x for k, x in spec.get("env", {}).items() if k != "LD_PRELOAD"}
        r = run(Job(cfg, spec["workload"], pre=spec.get("pre"), env=env, timeout=900, **p))
    for f in r.fails:
        print("observed: " + f["msg"][:2000])
    if r.crash:
        print("observed: crash: %s" % r.crash)
    if r.fails or r.crash or r.rc != 0:
        print(r.err[-1500:])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("not reproduced")
    return 0
