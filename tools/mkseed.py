#!/usr/bin/env python3
"""Development helper: mkseed.py SPEC.py  -- turns a list SEEDS of planted bugs into seeded/<id>/ (patch.diff, demo.sh,
demo.cpp, meta.json).  The patch is made in a scratch worktree of /repo's HEAD; /repo itself is not touched."""
import json, os, subprocess, sys, tempfile, runpy, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# exit 0: the guarantee holds on this input; 1: it does not.  cwd: the repository
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++17 -O1 -w -pthread -I src -I /usr/include/eigen3 "$here/demo.cpp" -o "$tmp/demo" || exit 3
cd "$tmp" && timeout 60 ./demo
'''
PRE = r'''#include <cassert>
#include <algorithm>
#include <atomic>
#include <chrono>
#include <thread>
#include <cmath>
#include <complex>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <memory>
#include <string>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>
%s
using namespace mathutils;
static int bad = 0;
static void expect(bool ok, const char *what) { if (!ok) { std::printf("FAILED: %%s\n", what); bad = 1; } }
static void near(double got, double want, double tol, const char *what) {
  if (!(std::fabs(got - want) <= tol)) { std::printf("FAILED: %%s: got %%.17g, want %%.17g\n", what, got, want); bad = 1; }
}
int main() {
%s
  return bad;
}
'''
def main():
    seeds = runpy.run_path(sys.argv[1])["SEEDS"]
    wt = tempfile.mkdtemp(prefix="mkseed")
    os.rmdir(wt)
    subprocess.check_call(["git", "clone", "-q", "/repo", wt])
    for s in seeds:
        subprocess.check_call(["git", "-C", wt, "checkout", "-q", "--", "."])
        ok = True
        for f, old, new in s["edits"]:
            p = os.path.join(wt, "src/MathUtils", f)
            t = open(p).read()
            if t.count(old) != 1:
                print("%s: %d matches in %s: %r" % (s["id"], t.count(old), f, old)); ok = False; break
            open(p, "w").write(t.replace(old, new))
        if not ok:
            continue
        d = os.path.join(HERE, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(subprocess.check_output(["git", "-C", wt, "diff"], text=True))
        t = DEMO
        if s.get("flags"):
            t = t.replace(" -O1 -w ", " -O1 -w %s " % s["flags"])
        if s.get("tu2"):
            open(os.path.join(d, "second.cpp"), "w").write(s["tu2"])
            t = t.replace('"$here/demo.cpp" -o "$tmp/demo" || exit 3', '-c "$here/demo.cpp" -o "$tmp/a.o" || exit 3\ng++ -std=c++17 -O1 -w -I src -I /usr/include/eigen3 -c "$here/second.cpp" -o "$tmp/b.o" || exit 3\ng++ -pthread "$tmp/a.o" "$tmp/b.o" -o "$tmp/demo" || exit 1')
        open(os.path.join(d, "demo.sh"), "w").write(t)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        inc = "\n".join(('#include <%s>' if h.startswith('boost/') else '#include "MathUtils/%s"') % h for h in s["inc"])
        open(os.path.join(d, "demo.cpp"), "w").write(s["demo_full"] if "demo_full" in s else PRE % (inc, s["demo"].strip("\n")))
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        # lines removed must be original lines
        print("made", s["id"])
    shutil.rmtree(wt)
main()
