#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough] [--seed N] | run.py --replay FILE"""
import json
import os
import signal
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import plans  # noqa: E402


def main(a):
    tier = os.environ.get("VERIF_TIER") or "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED") or "1")
    except ValueError:
        seed = 1
    if "--tier" in a:
        i = a.index("--tier")
        tier = a[i + 1]
        del a[i:i + 2]
    if "--seed" in a:
        i = a.index("--seed")
        seed = int(a[i + 1])
        del a[i:i + 2]
    if a and a[0] == "--replay":
        import replay
        return replay.main(a[1])
    if len(a) != 1 or a[0] not in plans.PLANS or tier not in ("quick", "thorough"):
        print(__doc__)
        return 2
    try:
        return plans.PLANS[a[0]](tier, seed)
    except Exception:
        traceback.print_exc()
        print("INCONCLUSIVE property=%s the check itself failed" % a[0])
        return 2


if __name__ == "__main__":
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(2))
    sys.exit(main(sys.argv[1:]))
