#!/usr/bin/env python3
"""Builds the configurations of the quick checks ahead of time. The checks build what is missing themselves."""
import concurrent.futures as cf
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import configs as C  # noqa: E402
from engine import BUILD, BuildFailed, build  # noqa: E402


def main():
    BUILD.mkdir(parents=True, exist_ok=True)
    cs = C.matrix() + [C.host("chk"), C.aarch64(), C.aarch64("dev"), C.i686(), C.i686("dev"), C.wasm(), C.wasm("dev"), C.wasm(simd=False),
                       C.wasm("release", False), C.miri(), C.miri(flags=C.FLAGS["avx2"]), C.miri_neon(), C.miri_wasm(), C.san("address"), C.san("thread")]
    cs += [C.bare(a) for a in ("aarch64_be", "powerpc", "s390x")] + [C.bare("powerpc", "dev"), C.aarch64(flags=C.SVE), C.wasm(more=C.RELAXED)]
    cs += [C.host("release", s, f) for s in (True, False) for f in C.LEVELS]

    def one(c):
        try:
            build(c, 2)
            return True
        except BuildFailed as e:
            print("setup: %s: %s" % (c.name, e.text[-600:]))
            return False

    with cf.ThreadPoolExecutor(5) as ex:
        ok = list(ex.map(one, cs))
    print("setup: %d of %d configurations built" % (sum(ok), len(ok)))
    return 0 if ok[0] else 1


if __name__ == "__main__":
    sys.exit(main())
