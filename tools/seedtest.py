#!/usr/bin/env python3
"""Development helper: seedtest.py [--fast] [--all-checks] ID...  -- plants each bug in a scratch copy (/tmp/seedrepo), builds it, runs the
repository's tests, the demonstration on both trees and the property's quick check (via VERIF_REPO)."""
import json, os, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get("SEEDWORK", "/tmp/seedrepo")
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main():
    fast = "--fast" in sys.argv
    ids = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir(HERE + "/seeded"))
    if not os.path.exists(W):
        sh("git clone -q /repo " + W)
    b = open("/opt/vp/build.sh").read().replace("/repo", W)
    open(W + "-build.sh", "w").write(b)
    base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) or set(json.load(open("/opt/vp/BASELINE.json")).get("passed", []))
    sh("git -C %s fetch -q; git -C %s reset -q --hard $(git -C /repo rev-parse HEAD)" % (W, W))
    for i in ids:
        t = time.time()
        d = HERE + "/seeded/" + i
        m = json.load(open(d + "/meta.json"))
        sh("git -C %s checkout -q -- ." % W)
        r = sh("git -C %s apply %s/patch.diff" % (W, d))
        if r.returncode:
            print(i, "APPLY", r.stdout); continue
        res = []
        d0 = sh("bash %s/demo.sh" % d, cwd="/repo"); d1 = sh("bash %s/demo.sh" % d, cwd=W)
        res.append("demo %d/%d" % (d0.returncode, d1.returncode))
        if d0.returncode != 0 or d1.returncode in (0, 3):
            res.append("DEMO-BAD " + (d0.stdout + d1.stdout)[-1500:])
        c = sh("python3 run.py %s quick" % m["property"], cwd=HERE, env=dict(os.environ, VERIF_REPO=W))
        res.append("check %s rc=%d%s" % (m["property"], c.returncode, " CAUGHT" if c.returncode == 1 and "VIOLATION property=" + m["property"] in c.stdout else "  **MISSED** " + c.stdout[-300:]))
        if not fast:
            bb = sh("bash %s-build.sh" % W)
            if bb.returncode:
                res.append("BUILD FAILS " + bb.stdout[-1500:])
            else:
                sh("ctest --test-dir %s/_build -j8 --timeout 300 --output-junit %s/_build/j.xml" % (W, W))
                sh("python3 /opt/vp/results.py %s-res.json junit:%s/_build/j.xml" % (W, W))
                p = set(json.load(open(W + "-res.json"))["passed"])
                miss = base - p
                res.append("tests " + ("ok %d" % len(p) if not miss else "BROKEN " + str(sorted(miss)[:5])))
        print(i, "|", " | ".join(res), "| %.0fs" % (time.time() - t), flush=True)
    sh("git -C %s checkout -q -- ." % W)
main()
