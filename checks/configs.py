"""The configurations the monitors are built and run in."""
from engine import MIRI_LIB, Cfg

FLAGS = {"none": "", "sse41": "-Ctarget-feature=+sse4.1", "avx2": "-Ctarget-feature=+avx2",
         "sse41noavx2": "-Ctarget-feature=+sse4.1,-avx2", "native": "-Ctarget-cpu=native"}


# levels between and above those that the crate distinguishes
LEVELS = {"ssse3": "-Ctarget-feature=+ssse3", "sse42": "-Ctarget-feature=+sse4.2", "avx": "-Ctarget-feature=+avx", "v3": "-Ctarget-cpu=x86-64-v3"}

SIMD128 = "-Ctarget-feature=+simd128"


def host(profile="release", std=True, flags="none"):
    return Cfg("x86_64-%s-%s-%s" % ({"release": "rel"}.get(profile, profile), "std" if std else "nostd", flags),
               profile=profile, feats=("hwstd",) if std else (), flags=FLAGS.get(flags) or LEVELS.get(flags, ""))


def matrix():
    return [host(p, s, f) for p in ("release", "dev") for s in (True, False) for f in FLAGS]


def aarch64(profile="release", std=True, flags=""):
    return Cfg("aarch64-%s-%s%s" % ({"release": "rel"}.get(profile, profile), "std" if std else "nostd", "-x" if flags else ""), profile=profile, flags=flags,
               feats=("hwstd",) if std else (), target="aarch64-unknown-linux-gnu", linker="aarch64-linux-gnu-gcc",
               pre=("qemu-aarch64", "-L", "/usr/aarch64-linux-gnu"))


def i686(profile="release", std=True, flags=""):
    return Cfg("i686-%s-%s%s" % ({"release": "rel"}.get(profile, profile), "std" if std else "nostd", "-x" if flags else ""), profile=profile,
               feats=("hwstd",) if std else (), target="i686-unknown-linux-gnu", linker="i686-linux-gnu-gcc", flags=flags)


def ppc64(profile="release", std=True):
    return Cfg("powerpc64-%s-%s" % ({"release": "rel"}.get(profile, profile), "std" if std else "nostd"), tool="nightly", profile=profile,
               feats=("hwstd",) if std else (), target="powerpc64-unknown-linux-gnu", linker="powerpc64-linux-gnu-gcc",
               extra=("-Zbuild-std=std,panic_abort",), pre=("qemu-ppc64", "-L", "/usr/powerpc64-linux-gnu"))


BARE = ("-Clinker=rust-lld -Clinker-flavor=ld.lld -Clink-self-contained=no -Clink-args=-nostdlib "
        "-Crelocation-model=static -Ctarget-feature=+crt-static")


# big-endian (and other) targets without a standard library here: freestanding images
IMAGES = {"aarch64_be": ("aarch64_be-unknown-linux-gnu", "qemu-aarch64_be"), "powerpc": ("powerpc-unknown-linux-gnu", "qemu-ppc"),
          "s390x": ("s390x-unknown-linux-gnu", "qemu-s390x"), "riscv32": ("riscv32gc-unknown-linux-gnu", "qemu-riscv32")}


def bare(arch, profile="release"):
    t, q = IMAGES[arch]
    return Cfg("%s-%s" % (arch, {"release": "rel"}.get(profile, profile)), crate="mon-bare", tool="nightly", profile=profile, feats=(),
               flags=BARE, target=t,
               extra=("-Zbuild-std=core,alloc,panic_abort,compiler_builtins", "-Zbuild-std-features=compiler-builtins-mem"), pre=(q,))


def wasm(profile="release", std=True, simd=True, more=""):
    from engine import ROOT
    return Cfg("wasm-%s-%s%s" % ({"release": "rel"}.get(profile, profile), "std" if std else "nostd", ("" if simd else "-nosimd") + ("-x" if more else "")),
               crate="mon-wasm", profile=profile, feats=("hwstd",) if std else (), target="wasm32-unknown-unknown",
               flags=(SIMD128 if simd else "") + more, artifact="mon_wasm.wasm",
               pre=("node", str(ROOT / "mon-wasm/run.mjs")))


def miri(target=None, flags="", std=True, bare=False):
    """Miri; `bare`: of a target whose standard library cannot be built here (only core and alloc)."""
    fl = {"": "", FLAGS["avx2"]: "-avx2", FLAGS["sse41"]: "-sse41", SIMD128: "-simd128"}[flags]
    n = "miri-" + (target or "x86_64").split("-")[0] + ("" if std or bare else "-nostd") + fl
    env = {"MIRIFLAGS": "-Zmiri-disable-isolation -Zmiri-symbolic-alignment-check -Zmiri-ignore-leaks"}
    if (target or "").startswith("aarch64"):
        env["MIRI_LIB_SRC"] = str(MIRI_LIB / "library")
    if bare:
        env["MIRI_NO_STD"] = "1"
    return Cfg(n, crate="mon-bare" if bare else "mon", tool="nightly", profile="dev", feats=("hwstd",) if std and not bare else (),
               flags=flags, target=target, kind="miri", env=env)


def miri_wasm():
    return miri("wasm32-unknown-unknown", SIMD128, bare=True)


def miri_neon(be=False):
    return miri("aarch64_be-unknown-linux-gnu", bare=True) if be else miri("aarch64-unknown-linux-gnu")


def san(which, std=True):
    """address, memory, thread"""
    buildstd = ("-Zbuild-std=std,panic_abort",) if which != "address" else ()
    fl = "-Zsanitizer=" + which + (" -Zsanitizer-memory-track-origins" if which == "memory" else "")
    return Cfg(which + "-sanitizer" + ("" if std else "-nostd"), tool="nightly", profile="release", feats=("hwstd",) if std else (),
               flags=fl, target="x86_64-unknown-linux-gnu", extra=buildstd)


def qemu(cpu):
    return ("qemu-x86_64", "-cpu", cpu)


SVE = "-Ctarget-feature=+sve,+sha3,+aes,+lse"
RELAXED = ",+relaxed-simd"


# emulated CPUs; in some of them (as hypervisors do) a feature is masked that their silicon has. A feature is never
# masked without those that imply it: there is no AVX2 without SSE4.1.
CPUS = ("max", "Haswell", "Nehalem", "Penryn", "SandyBridge", "Conroe", "qemu64", "core2duo", "Haswell,-avx2", "Haswell,-xsave", "max,-xsave", "Haswell,-avx", "max,-avx", "max,-avx2", "max,-avx2,-avx",
        "max,-avx2,-avx,-sse4.2,-sse4.1", "Nehalem,-sse4.2,-sse4.1", "Conroe,+sse4.1", "Conroe,+sse4a")
