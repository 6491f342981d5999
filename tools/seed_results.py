#!/usr/bin/env python3
"""seed_results.json from logs of tools/seedtest.py (documentation only): seed_results.py LOG..."""
import json, os, re, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = H + "/tools/seed_results.json"
r = json.load(open(f)) if os.path.exists(f) else {}
for p in sys.argv[1:]:
    for l in open(p):
        m = re.match(r"(\S+) \| .*? \| check (\S+) rc=(\d)\s+(\S+)", l)
        if m:
            r[m[1]] = "caught by " + m[2] if m[4] == "CAUGHT" else "**missed**"
r = {k: r[k] for k in sorted(r) if os.path.isdir(H + "/seeded/" + k)}
json.dump(r, open(f, "w"), indent=0)
