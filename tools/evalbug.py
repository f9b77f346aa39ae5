#!/usr/bin/env python3
"""evalbug.py [--no-tests] [--props C01,C02] [--slot N] ID...: does a planted bug count, and do the checks see it?

Works on a scratch copy of /repo under /tmp/eb; nothing in /repo is touched. Builds and tests the copy with the
patch (against /opt/vp/BASELINE.json), runs demo.sh on the clean and on the patched copy, and runs the property's
quick check against the patched copy."""
import argparse, json, os, re, shutil, subprocess, sys, time
from pathlib import Path

ap = argparse.ArgumentParser()
ap.add_argument("ids", nargs="+")
ap.add_argument("--no-tests", action="store_true")
ap.add_argument("--no-demo", action="store_true")
ap.add_argument("--no-check", action="store_true")
ap.add_argument("--props", default="")
ap.add_argument("--tier", default="quick")
ap.add_argument("--slot", default="0")
ap.add_argument("--dir", default="/verif/seeded")
a = ap.parse_args()

W = Path("/tmp/eb") / a.slot
W.mkdir(parents=True, exist_ok=True)
R = W / "repo"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, errors="replace", **kw)


def clean():
    if not R.exists():
        sh(["git", "clone", "-q", "/repo", str(R)])
    sh(["git", "-C", str(R), "fetch", "-q", "origin"])
    head = sh(["git", "-C", "/repo", "rev-parse", "HEAD"]).stdout.strip()
    sh(["git", "-C", str(R), "checkout", "-q", "-f", "--detach", head])
    sh(["git", "-C", str(R), "clean", "-fdq"])
    for n in ("Cargo.lock", "compare/Cargo.lock"):
        if Path("/repo/" + n).exists():
            shutil.copy("/repo/" + n, R / n)


for n in ("build.sh", "test.sh"):
    s = Path("/opt/vp/" + n).read_text().replace("/repo", str(R))
    (W / n).write_text(s)
base = json.load(open("/opt/vp/BASELINE.json"))


def passed(d):
    """ids that pass, whatever the shape of the file"""
    if isinstance(d, dict):
        for k in ("passed", "pass", "stable", "tests"):
            if k in d:
                v = d[k]
                return set(v if isinstance(v, list) else [x for x, s in v.items() if s in ("pass", "passed", True)])
    return set(d)


def demo(bug):
    t = time.time()
    r = sh(["bash", str(bug / "demo.sh")], cwd=R, timeout=330)
    return r.returncode, round(time.time() - t), (r.stdout + r.stderr)[-600:]


for i in a.ids:
    bug = Path(a.dir) / i
    meta = json.load(open(bug / "meta.json"))
    out = {"id": i, "property": meta["property"]}
    clean()
    if not a.no_demo:
        rc, s, txt = demo(bug)
        out["demo_clean"] = rc
        if rc:
            out["demo_clean_out"] = txt
    r = sh(["git", "-C", str(R), "apply", str(bug / "patch.diff")])
    if r.returncode:
        out["apply"] = r.stderr
        print(json.dumps(out, indent=1))
        continue
    if not a.no_tests:
        r = sh(["bash", str(W / "build.sh")])
        out["build"] = r.returncode
        if r.returncode:
            out["build_out"] = r.stderr[-1500:]
        else:
            sh(["bash", str(W / "test.sh"), str(W / "out.json")])
            got = passed(json.load(open(W / "out.json")))
            out["tests_lost"] = sorted(passed(base) - got)
    if not a.no_demo:
        rc, s, txt = demo(bug)
        out["demo_bug"] = rc
        out["demo_s"] = s
        out["demo_out"] = txt[-300:]
    if not a.no_check:
        for p in (a.props.split(",") if a.props else [meta["property"]]):
            t = time.time()
            env = dict(os.environ, VERIF_REPO=str(R), VERIF_BUILD=str(W / "b"), VERIF_OUT=str(W / "out"))
            r = sh(["python3", os.environ.get("VERIF_SNAP", "/verif") + "/checks/run.py", p, "--tier", a.tier], env=env, cwd=os.environ.get("VERIF_SNAP", "/verif"))
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            out["check_" + p] = {"rc": r.returncode, "s": round(time.time() - t), "violation": v[:2],
                                 "out": r.stdout[-700:] if r.returncode not in (0,) else r.stdout[-120:]}
            if r.returncode not in (0, 1):
                out["check_" + p]["err"] = r.stderr[-800:]
    clean()
    print(json.dumps(out, indent=1), flush=True)
