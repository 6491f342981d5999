#!/usr/bin/env python3
"""Runs the model-checking harness of one property.   run.py <id> quick|thorough   |   run.py --replay <file>

Compiles harness/<id>.cpp against the headers of /repo's working tree, explores the whole bounded space of the tier
(sharded over the cores), writes evidence/<id>.json.  Exit 0: property held on everything explored.  Exit 1 and a line
`VIOLATION property=<id> replay=<path>`: counterexample.  Exit 2: the check itself could not run."""
import hashlib, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
EVID = os.path.join(HERE, "evidence")
REPLAY = os.path.join(HERE, "replay")

FLAGS = ["-std=c++17", "-O1", "-g1", "-w", "-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern",
         "-fno-omit-frame-pointer"]
SAN = ["-fsanitize=address"]
INC = ["-I", os.path.join(HERE, "lib"), "-I", os.path.join(REPO, "src"), "-I", "/usr/include/eigen3"]
ENV = dict(os.environ,
           ASAN_OPTIONS="detect_leaks=0:max_malloc_fill_size=1073741824:malloc_fill_byte=190:abort_on_error=0:"
                        "exitcode=88:detect_odr_violation=0:allocator_may_return_null=1",
           LC_ALL="C")


def meta(src):
    m = {"bounds": {}, "assume": [], "model": [], "san": True, "shards": 8, "opt": None, "sched": False, "parts": [], "builds": False}
    for line in open(src):
        g = re.match(r"//@(\w+)\s*(.*)", line)
        if not g:
            continue
        k, v = g.group(1), g.group(2).strip()
        if k == "bounds":
            t, txt = v.split(":", 1)
            m["bounds"][t.strip()] = (m["bounds"].get(t.strip(), "") + " " + txt.strip()).strip()
        elif k == "assume":
            m["assume"].append(v)
        elif k == "model":
            m["model"].append(v)
        elif k == "nosan":
            m["san"] = False
        elif k == "shards":
            m["shards"] = int(v)
        elif k == "opt":
            m["opt"] = v
        elif k == "parts":
            m["parts"].append((v.split()[0], int(v.split()[1])))
        elif k == "builds":
            m["builds"] = True
        elif k == "sched":
            m["sched"], m["san"] = True, False
    return m


# harnesses run under the controlled scheduler of lib/mcsched.cpp: the compiler's thread-sanitizer hooks, our own runtime
WRAP = ["malloc", "free", "calloc", "realloc", "posix_memalign", "aligned_alloc", "pthread_mutex_lock", "pthread_mutex_unlock",
        "pthread_mutex_trylock", "pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "pthread_rwlock_unlock", "pthread_once",
        "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort", "memcpy", "memmove", "memset"]
HOOKS = ["-fsanitize=thread", "-fno-builtin-memcpy", "-fno-builtin-memmove", "-fno-builtin-memset"]


def compile_objects(jobs):
    """jobs: list of (command, object).  Compiles them in parallel -> list of (rc, output)"""
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(lambda j: subprocess.run(j[0] + ["-o", j[1]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT), jobs))
    return [(x.returncode, x.stdout) for x in rs]


def build_sched(flags, src, exe, units):
    """the harness and the operations it runs, with the hooks; the scheduler, without"""
    jobs = [(["g++"] + flags + INC + u + ["-c"], "%s.%d.o" % (exe, i)) for i, u in enumerate(units)]
    jobs.append((["g++", "-std=c++17", "-O1", "-w"] + INC + [os.path.join(HERE, "lib", "mcsched.cpp"), "-c"], exe + ".s.o"))
    res = compile_objects(jobs)
    rc, out = max(x[0] for x in res), b"".join(x[1] for x in res)
    if rc == 0:
        r = subprocess.run(["g++"] + [o for _, o in jobs] + ["-o", exe, "-pthread"] + ["-Wl,--wrap=" + w for w in WRAP],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        rc, out = r.returncode, r.stdout
    for _, o in jobs:
        if os.path.exists(o):
            os.remove(o)
    return rc, out


def compile_harness(pid, m):
    src = os.path.join(HERE, "harness", pid.lower() + ".cpp")
    flags = FLAGS + (SAN if m["san"] else []) + (HOOKS if m["sched"] else [])
    if m["opt"]:
        flags = flags + [m["opt"]]
    os.makedirs(BUILD, exist_ok=True)
    units = [[src]] + [["-DPART=%d" % k, os.path.join(HERE, "harness", f)] for f, n in m["parts"] for k in range(n)]
    text = b""
    for u in units:
        pre = subprocess.run(["g++"] + flags + INC + ["-E", "-P"] + u, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if pre.returncode != 0:
            sys.stdout.write(pre.stderr.decode(errors="replace")[-4000:])
            return None
        text += pre.stdout
    rt = open(os.path.join(HERE, "lib", "mcsched.cpp"), "rb").read() if m["sched"] else b""
    key = hashlib.sha256(" ".join(flags).encode() + text + rt).hexdigest()[:20]
    exe = os.path.join(BUILD, "%s-%s" % (pid.lower(), key))
    if os.path.exists(exe):
        return exe
    for f in os.listdir(BUILD):
        if f.startswith(pid.lower() + "-") and "." not in f:
            try:
                os.remove(os.path.join(BUILD, f))
            except OSError:
                pass
    tmp = exe + ".%d.tmp" % os.getpid()
    if m["sched"]:
        rc, out = build_sched(flags, src, tmp, units)
    else:
        r = subprocess.run(["g++"] + flags + INC + [src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        rc, out = r.returncode, r.stdout
    if rc != 0:
        sys.stdout.write(out.decode(errors="replace")[-6000:])
        return None
    os.rename(tmp, exe)
    return exe


def run_case(exe, tier, n, limit):
    """-> (failed, hung, text)"""
    try:
        r = subprocess.run([exe, "--tier", tier, "--only", str(n)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=limit, env=ENV)
    except subprocess.TimeoutExpired as e:
        return True, True, (e.stdout or b"").decode(errors="replace") + "\n(no answer within %d s)" % limit
    txt = r.stdout.decode(errors="replace")
    ok = r.returncode == 0 and "MCDONE" in txt
    return (not ok), False, txt + ("" if ok else "\n(ended with status %d)" % r.returncode)


def violation(pid, tier, exe, n, text):
    os.makedirs(REPLAY, exist_ok=True)
    path = os.path.join(REPLAY, "%s-%s-case%d.txt" % (pid, tier, n))
    with open(path, "w") as f:
        f.write("property=%s tier=%s case=%d\n" % (pid, tier, n))
        f.write("replay: cd %s && python3 run.py --replay %s\n\n%s\n" % (HERE, path, text[:20000]))
    for line in text.splitlines():
        if line.startswith(("CASE", "MCFAIL", "==", "SUMMARY")) or "Assertion" in line:
            print(line[:600])
    print("VIOLATION property=%s replay=%s" % (pid, path))
    sys.stdout.flush()
    return path


def evidence(pid, tier, m, stats, wall, nviol, samples_extra=()):
    os.makedirs(EVID, exist_ok=True)
    states = stats["states"]
    cov = {
        "states": states,
        "transitions": sum(s["transitions"] for s in stats["shards"]),
        "traces_validated_against_impl": sum(s["executed"] for s in stats["shards"]),
        "model_comparisons": sum(s["checks"] for s in stats["shards"]),
        "exhaustive": bool(stats["complete"]),
        "bounds": m["bounds"].get(tier, m["bounds"].get("quick", "")),
        "reference_model": " ".join(m["model"]),
        "outcomes": {},
        "samples": [],
    }
    for s in stats["shards"]:
        for k, v in s["outcomes"].items():
            cov["outcomes"][k] = cov["outcomes"].get(k, 0) + v
        cov["samples"] += s["samples"][-2:]
    if cov["outcomes"].get("schedule limit reached"):
        cov["exhaustive"] = False
    cov["samples"] = (list(samples_extra) + cov["samples"])[:12]
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
          "coverage": cov, "assumptions": m["assume"] + [
              "deterministic enumeration: VERIF_SEED is recorded but no choice depends on it",
              "harness built with g++ -O1 with assert() enabled, like /opt/vp/build.sh; values outside the alphabet are not covered"],
          "wall_s": round(wall, 2), "violations": nviol}
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")


def count_states(files, fallback):
    try:
        import numpy as np
        arrs = [np.fromfile(f, dtype=np.uint64) for f in files if os.path.exists(f)]
        return int(len(np.unique(np.concatenate(arrs)))) if arrs else 0
    except Exception:
        seen = set()
        import array
        for f in files:
            a = array.array("Q")
            with open(f, "rb") as h:
                a.frombytes(h.read())
            seen.update(a)
        return len(seen)


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        head = open(sys.argv[2]).readline()
        g = re.match(r"property=(\w+) tier=(\w+) case=(-?\d+)", head)
        pid, tier, n = g.group(1), g.group(2), int(g.group(3))
        if meta(os.path.join(HERE, "harness", pid.lower() + ".cpp"))["builds"]:
            return subprocess.call([sys.executable, os.path.abspath(__file__), pid, tier])
        exe = compile_harness(pid, meta(os.path.join(HERE, "harness", pid.lower() + ".cpp")))
        if not exe:
            return 2
        failed, _, txt = run_case(exe, tier, n, 300)
        print(txt)
        return 1 if failed else 0
    pid, tier = sys.argv[1], sys.argv[2]
    limit = 780 if tier == "quick" else int(os.environ.get("VERIF_THOROUGH_LIMIT", "6000"))
    t0 = time.time()
    src = os.path.join(HERE, "harness", pid.lower() + ".cpp")
    m = meta(src)
    if m["builds"]:
        import builds
        os.makedirs(BUILD, exist_ok=True)
        return builds.main(pid, tier, m, HERE, REPO, BUILD, EVID, REPLAY)
    exe = compile_harness(pid, m)
    if not exe:
        print("ERROR property=%s: the harness does not compile against %s" % (pid, REPO))
        return 2
    t1 = time.time()
    n = m["shards"]
    work = os.path.join(BUILD, "work-%s-%d" % (pid, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    procs = []
    for i in range(n):
        out = open(os.path.join(work, "out%d" % i), "wb")
        p = subprocess.Popen([exe, "--tier", tier, "--shard", "%d/%d" % (i, n), "--stats", os.path.join(work, "st%d" % i),
                              "--crumb", os.path.join(work, "crumb%d" % i)], stdout=out, stderr=subprocess.STDOUT, env=ENV,
                             cwd=work)
        procs.append(p)
    hung = [False] * n
    bad = None
    pending = set(range(n))
    while pending:
        for i in sorted(pending):
            rc = procs[i].poll()
            if rc is not None:
                pending.discard(i)
                if not (rc == 0 and os.path.exists(os.path.join(work, "st%d" % i))) and bad is None:
                    bad = i
        if bad is not None:
            break
        if time.time() - t0 > limit:
            bad = sorted(pending)[0]
            hung[bad] = True
            break
        time.sleep(0.02)
    for p in procs:
        if p.poll() is None:
            p.kill()
            p.wait()
    stats = {"complete": bad is None, "shards": [], "states": 0}
    sf = []
    for i in range(n):
        f = os.path.join(work, "st%d" % i)
        if os.path.exists(f):
            stats["shards"].append(json.load(open(f)))
            sf.append(f + ".bin")
    rc = 0
    if bad is None:
        stats["states"] = count_states(sf, 0)
        enum = {s["enumerated"] for s in stats["shards"]}
        ex = sum(s["executed"] for s in stats["shards"])
        if len(enum) != 1 or ex != enum.pop() or ex == 0:
            print("ERROR property=%s: shards enumerated different spaces" % pid)
            rc = 2
        else:
            evidence(pid, tier, m, stats, time.time() - t0, 0)
            print("OK property=%s tier=%s executions=%d states=%d transitions=%d comparisons=%d compile=%.1fs run=%.1fs" % (
                pid, tier, ex, stats["states"], sum(s["transitions"] for s in stats["shards"]),
                sum(s["checks"] for s in stats["shards"]), t1 - t0, time.time() - t1))
    else:
        txt = open(os.path.join(work, "out%d" % bad), errors="replace").read()
        cr = os.path.join(work, "crumb%d" % bad)
        case = -1
        if os.path.exists(cr):
            b = open(cr, "rb").read()
            if len(b) == 8:
                case = int.from_bytes(b, "little", signed=True)
        failed, h, t2 = run_case(exe, tier, case, 120) if case >= 0 else (False, False, "")
        if failed:
            violation(pid, tier, exe, case, t2)
            rc = 1
        elif hung[bad]:
            print("ERROR property=%s: time limit reached in case %d, which ends when run alone" % (pid, case))
            rc = 2
        elif case >= 0:
            # does not fail alone: depends on the executions before it in the same process; replay the whole shard
            r = subprocess.run([exe, "--tier", tier, "--shard", "%d/%d" % (bad, n), "--crumb", cr], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, env=ENV, timeout=limit, cwd=work)
            t3 = r.stdout.decode(errors="replace")
            if r.returncode != 0 or "MCDONE" not in t3:
                violation(pid, tier, exe, case,
                          "fails only after the preceding executions of the same process (state leaks between executions);\n"
                          "reproduce with: %s --tier %s --shard %d/%d\n%s\n%s" % (exe, tier, bad, n, t2, t3[-8000:]))
                rc = 1
            else:
                print("ERROR property=%s: not reproducible: %s" % (pid, txt[-2000:]))
                rc = 2
        else:
            print("ERROR property=%s: harness failed before its first case: %s" % (pid, txt[-2000:]))
            rc = 2
        stats["states"] = sum(s["states"] for s in stats["shards"])
        evidence(pid, tier, m, stats, time.time() - t0, 1 if rc == 1 else 0, [t2[:1500]] if t2 else [])
    shutil.rmtree(work, ignore_errors=True)
    return rc


sys.exit(main())
