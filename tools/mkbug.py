#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from a bug description: bug(id, property, edits, needs, breaks, demo, **how).

edits: [(file, old, new)]; demo: a Rust program (exit status 0: the property holds)."""
import json, os, shutil, subprocess, sys, tempfile
from pathlib import Path

OUT = Path("/verif/seeded")

HEAD = '''#!/bin/bash
# Run in /repo after its build: exit 0 if the property holds in this demonstration.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=%(toolchain)s CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
unset CARGO_BUILD_TARGET
export RUSTFLAGS="%(flags)s"
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
export CARGO_TARGET_DIR=$tmp/target
mkdir "$tmp/src"
cp "$here/demo.rs" "$tmp/src/%(src)s"
cat > "$tmp/Cargo.toml" <<END
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
highway = { path = "$repo"%(features)s }
%(lib)s[workspace]
[profile.release]
%(profile)s
END
cd "$tmp"
'''

AARCH = "export CARGO_TARGET_AARCH64_UNKNOWN_LINUX_GNU_LINKER=aarch64-linux-gnu-gcc\n"
I686 = "export CARGO_TARGET_I686_UNKNOWN_LINUX_GNU_LINKER=i686-linux-gnu-gcc\n"


def bug(id, prop, edits, needs, breaks, demo, target=None, run=None, flags="", features="", profile="", dev=False,
        toolchain="1.99.1", lib="", src="main.rs", extra=None):
    d = OUT / id
    if d.exists():
        shutil.rmtree(d)
    d.mkdir(parents=True)
    with tempfile.TemporaryDirectory() as t:
        r = Path(t) / "r"
        subprocess.run(["git", "clone", "-q", "/repo", str(r)], check=True)
        for f, old, new in edits:
            p = r / f
            s = p.read_text()
            if isinstance(old, tuple):
                old, cnt = old
            else:
                cnt = 1
            assert s.count(old) == cnt, (id, f, s.count(old), old)
            p.write_text(s.replace(old, new))
        fm = subprocess.run(["rustfmt", "--edition", "2018", "--check", "-q"] + sorted({str(r / f) for f, _, _ in edits if f.endswith(".rs")}), capture_output=True, text=True)
        diff = subprocess.run(["git", "-C", str(r), "diff"], check=True, capture_output=True, text=True).stdout
    (d / "patch.diff").write_text(diff)
    (d / "meta.json").write_text(json.dumps({"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1) + "\n")
    (d / "demo.rs").write_text(demo)
    for n, c in (extra or {}).items():
        (d / n).write_text(c)
    f = HEAD % dict(toolchain=toolchain, flags=flags, features=features, profile=profile, lib=lib, src=src)
    rel = "" if dev else " --release"
    prof = "debug" if dev else "release"
    if target is None:
        f += run or "cargo build -q --offline%s\n\"$CARGO_TARGET_DIR/%s/demo\"\n" % (rel, prof)
    else:
        if "aarch64" in target:
            f += AARCH
        if "i686" in target:
            f += I686
        f += run or ""
        if not run:
            runner = {"aarch64-unknown-linux-gnu": "qemu-aarch64 -L /usr/aarch64-linux-gnu ", "i686-unknown-linux-gnu": "qemu-i386 -L /usr/i686-linux-gnu "}.get(target, "")
            f += "cargo build -q --offline%s --target %s\n%s\"$CARGO_TARGET_DIR/%s/%s/demo\"\n" % (rel, target, runner, target, prof)
    (d / "demo.sh").write_text(f)
