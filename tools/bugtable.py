#!/usr/bin/env python3
"""bugtable.py RESDIR...: the table of planted bugs for DESIGN.md, from evalbug.py results."""
import glob, json, os, sys
res = {}
for d in sys.argv[1:]:
    for f in sorted(glob.glob(d + "/*.json")):
        try:
            j = json.load(open(f))
        except ValueError:
            continue
        res[j["id"]] = j
rows = []
for f in sorted(glob.glob(os.path.dirname(os.path.abspath(__file__)) + "/../seeded/*/meta.json")):
    b = os.path.basename(os.path.dirname(f))
    m = json.load(open(f))
    j = res.get(b, {})
    by = [k[6:] for k, v in sorted(j.items()) if k.startswith("check_") and v["rc"] == 1 and v.get("violation")]
    rows.append("| `%s` | %s | %s |" % (b, m["needs"].replace("|", "\\|"), ", ".join(by) or "**missed**" if j else "not run"))
print("| bug | needs | caught by |\n|---|---|---|\n" + "\n".join(rows))
