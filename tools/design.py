#!/usr/bin/env python3
"""Composes DESIGN.md (documentation only; no check uses it)."""
import json, os, re, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = [open(H + "/tools/design_head.md").read()]
out.append("## Properties: what is enumerated, against what, within what bounds\n")
res = json.load(open(H + "/tools/seed_results.json")) if os.path.exists(H + "/tools/seed_results.json") else {}
cost = json.load(open(H + "/tools/cost.json")) if os.path.exists(H + "/tools/cost.json") else {}
for l in open(H + "/properties.jsonl"):
    p = json.loads(l)
    src = open("%s/harness/%s.cpp" % (H, p["id"].lower())).read()
    tag = lambda t: [m.strip() for m in re.findall(r"^//@%s (.*)$" % t, src, re.M)]
    b = {}
    for x in tag("bounds"):
        k, v = x.split(":", 1)
        b[k] = (b[k] + ";" if k in b else "") + v
    out.append("### %s - %s\n" % (p["id"], p["title"]))
    out.append("* Decided by: exhaustive enumeration of %s of the real code (`harness/%s.cpp`)." % ("preemption-bounded schedules, nestings and histories" if p["id"] == "C31" else "executions", p["id"].lower()))
    out.append("* Space, quick:%s." % b.get("quick", ""))
    out.append("* Thorough, additionally:%s." % b.get("thorough", ""))
    out.append("* Oracle: %s." % "; ".join(tag("model")))
    for a in tag("assume"):
        out.append("* Assumption: %s." % a)
    c = cost.get(p["id"], {})
    for t in ("quick", "thorough"):
        if t in c:
            out.append("* Cost, %s: %s." % (t, c[t]))
    out.append("* Beyond the tests: %s" % p["why_tests_cant"])
    out.append("")
out.append("## Genuine defects found\n\nAll were repaired by one small `fix:` commit each (%d); the checks report them again if they return.\n" % sum(l.startswith("fixed:") for l in open(H + "/known_findings.txt")))
for l in open(H + "/known_findings.txt"):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m:
        out.append("* %s (%s): %s" % m.groups())
out.append("\n## Planted bugs\n\nEach was written from the property text and the code, builds, and passes the 56 stable tests; 'missed at first' ones led to the strengthening named.\n")
out.append("| planted bug | property | what it breaks | result |\n|---|---|---|---|")
notes = json.load(open(H + "/tools/seed_notes.json")) if os.path.exists(H + "/tools/seed_notes.json") else {}
for i in sorted(os.listdir(H + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (H, i)))
    out.append("| %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"].replace("|", "/"), res.get(i, "?") + ("; " + notes[i] if i in notes else "")))
out.append("")
out.append(open(H + "/tools/design_tail.md").read())
open(H + "/DESIGN.md", "w").write("\n".join(out))
