"""C32: the same program in every configuration of the compiler (see harness/c32.cpp).  Explores configurations x operations
x previous contents of memory, compares the answers of every execution with those of the first configuration."""
import hashlib, itertools, json, math, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

PRESET = {"pattern": ["-ftrivial-auto-var-init=pattern"], "zero": ["-ftrivial-auto-var-init=zero"], "none": []}
FILLS = [None, 85, 170]


def configurations(tier):
    """(compiler, optimisation, assertions, standard, preset of local variables, vectorisation)"""
    if tier == "quick":
        c = [("g++", "-O0", 1, "c++17", "none", 1), ("g++", "-O2", 0, "c++17", "pattern", 1), ("g++", "-O3", 1, "c++20", "zero", 0),
             ("clang++", "-O0", 0, "c++20", "pattern", 1), ("clang++", "-O1", 1, "c++17", "zero", 1), ("clang++", "-O2", 0, "c++17", "none", 1)]
    else:
        c = []
        for k, (cc, o, a, s) in enumerate(itertools.product(("g++", "clang++"), ("-O0", "-O1", "-O2", "-O3"), (1, 0), ("c++17", "c++20"))):
            c.append((cc, o, a, s, ("none", "zero", "pattern")[k % 3], 0 if k % 5 == 4 else 1))
    return [x for x in c if shutil.which(x[0])]


def name(c):
    return "%s %s %s -std=%s%s%s" % (c[0], c[1], "with assertions" if c[2] else "-DNDEBUG", c[3],
                                     "" if c[4] == "none" else ", locals preset (%s)" % c[4], "" if c[5] else ", not vectorised")


def flags(c):
    return ["-std=" + c[3], c[1], "-w"] + ([] if c[2] else ["-DNDEBUG"]) + PRESET[c[4]] + ([] if c[5] else ["-DEIGEN_DONT_VECTORIZE"])


def near(a, b):
    m = max([abs(x) for x in b if math.isfinite(x)] or [0.])
    for i, (x, y) in enumerate(zip(a, b)):
        if x == y or (math.isnan(x) and math.isnan(y)):
            continue
        whole = abs(x) <= 1e6 and abs(y) <= 1e6 and x == int(x) and y == int(y)      # counts and yes/no answers
        if whole or not (abs(x - y) <= 1e-9 * abs(y) + 1e-11 * m):
            return "value %d is %.17g instead of %.17g" % (i, x, y)
    return None if len(a) == len(b) else "%d values instead of %d" % (len(a), len(b))


def parse(path):
    r, end = {}, False
    for line in open(path, errors="replace"):
        if line.strip() == "END":
            end = True
            continue
        p = line.rstrip("\n").split("\t")
        if len(p) == 3:
            r[p[0]] = (int(p[1]), [float(x) for x in p[2].split()])
    return r, end


def main(pid, tier, m, here, repo, build, evid, replay):
    t0 = time.time()
    inc = ["-I", os.path.join(here, "lib"), "-I", os.path.join(repo, "src"), "-I", "/usr/include/eigen3"]
    src = os.path.join(here, "harness", pid.lower() + ".cpp")
    units = [["-DPART=%d" % k, os.path.join(here, "harness", f)] for f, n in m["parts"] for k in range(n)] + [[src]]
    conf = configurations(tier)
    work = os.path.join(build, "work-%s-%d" % (pid, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)

    def violation(text):
        os.makedirs(replay, exist_ok=True)
        path = os.path.join(replay, "%s-%s.txt" % (pid, tier))
        with open(path, "w") as f:
            f.write("property=%s tier=%s case=-1\nreplay: cd %s && python3 run.py %s %s\n\n%s\n" % (pid, tier, here, pid, tier, text[:20000]))
        print(text[:2500])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        sys.stdout.flush()

    # heaviest units first
    order = [4, 5, 6, 3, 1, 2, 0] + list(range(7, len(units)))
    jobs = [(ci, ui) for ui in order for ci in range(len(conf))]

    def comp(j):
        ci, ui = j
        o = os.path.join(work, "%d.%d.o" % j)
        r = subprocess.run([conf[ci][0]] + flags(conf[ci]) + inc + units[ui] + ["-c", "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return j, r.returncode, r.stdout.decode(errors="replace")

    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(comp, jobs))
    bad = {}
    for j, rc, out in res:
        if rc:
            bad.setdefault(j[0], []).append((j[1], out))
    rc, text = 0, None
    t1 = time.time()
    ans, ran, checks, ops = {}, 0, 0, 0
    if bad and len(bad) == len(conf):
        print(sorted(bad.items())[0][1][0][1][-3000:])
        print("ERROR property=%s: the operations do not compile in any configuration" % pid)
        rc = 2
    elif bad:
        ci, v = sorted(bad.items())[0]
        e = [l for l in v[0][1].splitlines() if "error" in l][:6]
        text = "compiles with %s, but not with %s:\n%s" % (name(conf[[k for k in range(len(conf)) if k not in bad][0]]), name(conf[ci]), "\n".join(e) or v[0][1][-1500:])
    else:
        def link(ci):
            r = subprocess.run([conf[ci][0]] + [os.path.join(work, "%d.%d.o" % (ci, u)) for u in range(len(units))] + ["-o", os.path.join(work, "exe%d" % ci)],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            return r.returncode, r.stdout.decode(errors="replace")
        with ThreadPoolExecutor(8) as ex:
            ls = list(ex.map(link, range(len(conf))))
        for ci, (k, out) in enumerate(ls):
            if k and text is None:
                e = [l for l in out.splitlines() if "multiple definition" in l or "undefined reference" in l][:6]
                text = "translation units which include the library do not link together (%s):\n%s" % (name(conf[ci]), "\n".join(e) or out[-1500:])
        if text is None:
            def run(j):
                ci, fi = j
                out = os.path.join(work, "ans%d.%d" % j)
                env = dict(os.environ, LC_ALL="C")
                env.pop("MALLOC_PERTURB_", None)
                if FILLS[fi] is not None:
                    env["MALLOC_PERTURB_"] = str(FILLS[fi])
                try:
                    r = subprocess.run([os.path.join(work, "exe%d" % ci), out, str(FILLS[fi] or 0)], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=300, env=env)
                    return j, r.returncode, r.stderr.decode(errors="replace")[-600:]
                except subprocess.TimeoutExpired:
                    return j, -999, "no end within 300 s"
            with ThreadPoolExecutor(8) as ex:
                rs = list(ex.map(run, [(c, f) for c in range(len(conf)) for f in range(len(FILLS))]))
            ok = {}
            for j, k, err in rs:
                p = os.path.join(work, "ans%d.%d" % j)
                a, end = parse(p) if os.path.exists(p) else ({}, False)
                ok[j] = (k == 0 and end, k, err)
                ans[j] = a
            mem = lambda j: name(conf[j[0]]) + ("" if FILLS[j[1]] is None else ", fresh memory filled with 0x%02X" % FILLS[j[1]])
            good = [j for j in sorted(ok) if ok[j][0]]
            if not good:
                print("ERROR property=%s: the operations cannot be set up in any configuration: %s" % (pid, rs[0][2]))
                rc = 2
            elif len(good) < len(ok):
                j = [j for j in sorted(ok) if not ok[j][0]][0]
                text = "the objects of the operations can be built with %s, but not with %s: status %d %s" % (mem(good[0]), mem(j), ok[j][1], ok[j][2])
            else:
                ref = ans[(0, 0)]
                ops = len(ref)
                diff = []
                for j in sorted(ans):
                    ran += len(ans[j])
                    for k in ref:
                        checks += max(1, len(ref[k][1]))
                        if k not in ans[j]:
                            d = "missing"
                        elif k.startswith("refusal:"):
                            d = "answered: %s" % ans[j][k][1][:4] if ans[j][k][0] == 1 else None
                        elif (ans[j][k][0] == 1) != (ref[k][0] == 1):
                            s = {0: "the end of the process", 1: "an answer", 2: "an exception"}
                            d = "%s instead of %s" % (s.get(ans[j][k][0], "signal %d" % (ans[j][k][0] - 100)), s.get(ref[k][0], "signal %d" % (ref[k][0] - 100)))
                        else:
                            d = near(ans[j][k][1], ref[k][1])
                        if d:
                            diff.append("%s\n   with %s: %s (reference: %s)" % (k, mem(j), d, mem((0, 0))))
                if diff:
                    text = "%d differences; the first ones:\n" % len(diff) + "\n".join(diff[:12])
    if text is not None:
        violation(text)
        rc = 1
    cov = {"states": len(conf) * len(FILLS) * ops, "transitions": ran, "traces_validated_against_impl": ran, "model_comparisons": checks,
           "exhaustive": rc == 0, "bounds": m["bounds"].get(tier, m["bounds"].get("quick", "")), "reference_model": " ".join(m["model"]),
           "outcomes": {"configurations": len(conf), "translation units compiled": len(res), "operations x argument sets": ops,
                        "answered": sum(1 for k in ans.get((0, 0), {}).values() if k[0] == 1), "refused": sum(1 for k in ans.get((0, 0), {}).values() if k[0] != 1)},
           "samples": [name(c) for c in conf[:12]]}
    os.makedirs(evid, exist_ok=True)
    with open(os.path.join(evid, pid + ".json"), "w") as f:
        json.dump({"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking", "coverage": cov,
                   "assumptions": m["assume"], "wall_s": round(time.time() - t0, 2), "violations": 1 if rc == 1 else 0}, f, indent=1)
        f.write("\n")
    if rc == 0:
        print("OK property=%s tier=%s configurations=%d executions=%d comparisons=%d compile=%.1fs run=%.1fs" % (pid, tier, len(conf), ran, checks, t1 - t0, time.time() - t1))
    shutil.rmtree(work, ignore_errors=True)
    return rc
