#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   decide a property by seeded simulation
   check.py build [quick|thorough]       only build the simulators
   check.py replay FILE                  replay a violation (the file names its build variant)

Exit 0: held on everything explored. Exit 1: violated, with a VIOLATION line. Exit 2: the check itself
could not work (build failure, violation that does not replay)."""
import fcntl, hashlib, json, os, shutil, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
SIM = os.path.join(HERE, "sim")
BUILD = os.path.join(HERE, "build")
EVID = os.path.join(HERE, "evidence")
KNOWN = os.path.join(HERE, "known_findings.txt")

TUS = ["world_b", "world_f", "world_u", "world_w", "world_s", "main", "plan", "alloc"]
LIBS = ["-lboost_coroutine", "-lboost_context", "-lboost_system", "-lboost_thread", "-lpthread"]
COMMON = ["-std=c++1y", "-w", "-no-pie", "-isystem", os.path.join(SIM, "shim"), "-I" + REPO, "-I" + SIM]
VARIANTS = {
    "dbg": ["-O1"],                                   # assertions of the library active
    "rel": ["-O1", "-DNDEBUG"],                       # as shipped to users: no assertions
    "asan": ["-O1", "-g1", "-fsanitize=address", "--param", "asan-stack=0", "--param", "asan-globals=0"],
}
CXX = os.environ.get("CXX", "g++")
JOBS = 8

PLAN = {  # tier -> (variant -> number of workers), seconds of simulation
    "quick": ({"dbg": 5, "rel": 3}, 60),
    "thorough": ({"dbg": 3, "rel": 3, "asan": 2}, 560),
}

FAULTS = {"callback_failure_injected", "allocation_failure_injected", "cache_clear", "cache_clear_inside_callback", "reentrant_request", "stream_failure_injected",
          "incompatible_request", "enumeration_abandoned", "enumeration_interleaved", "init_refused", "init_failed", "restart", "handle_dropped", "address_reused",
          "cache_evictions", "table_growths"}
REAL = ["everything under /repo/sdd (headers compiled unmodified, no hook)", "boost::container, boost::coroutine, boost::multiprecision, libstdc++"]
STUB = ["operator new/delete: replaced by the simulated heap (placement, reuse, failure)", "std::streambuf given to printers: simulated sink that may fail",
        "user callbacks (functions, inductives, initialisers): simulated, may throw or re-enter"]


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def tree_hash():
    h = hashlib.sha256()
    for top in (os.path.join(REPO, "sdd"), SIM):
        for d, sub, files in sorted(os.walk(top)):
            sub.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, top).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
                h.update(b"\0")
    h.update(json.dumps([VARIANTS, TUS, COMMON, LIBS, CXX]).encode())
    return h.hexdigest()[:16]


def build(variants):
    """Build the simulators of these variants from the working tree. Returns variant -> path."""
    os.makedirs(BUILD, exist_ok=True)
    key = tree_hash()
    out = {v: os.path.join(BUILD, key, v, "sim") for v in variants}
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        todo = [v for v in variants if not os.path.exists(out[v])]
        if todo:
            for old in os.listdir(BUILD):             # keep the disk small
                p = os.path.join(BUILD, old)
                if old != key and len(old) == 16 and os.path.isdir(p) and time.time() - os.path.getmtime(p) > 3600:
                    shutil.rmtree(p, ignore_errors=True)
            t0 = time.time()
            jobs = []
            for tu in TUS:
                for v in todo:
                    d = os.path.join(BUILD, key, v)
                    os.makedirs(d, exist_ok=True)
                    jobs.append((v, tu, [CXX] + COMMON + VARIANTS[v] + ["-c", os.path.join(SIM, tu + ".cc"), "-o", os.path.join(d, tu + ".o")]))
            running, failed = [], None
            while (jobs or running) and not failed:
                while jobs and len(running) < JOBS:
                    v, tu, cmd = jobs.pop(0)
                    e = tempfile.TemporaryFile()
                    running.append((v, tu, subprocess.Popen(cmd, stdout=e, stderr=e), e))
                time.sleep(0.05)
                for r in running[:]:
                    rc = r[2].poll()
                    if rc is None:
                        continue
                    running.remove(r)
                    if rc:
                        r[3].seek(0)
                        failed = "%s/%s: %s" % (r[0], r[1], r[3].read().decode(errors="replace")[:4000])
            for r in running:
                r[2].kill(); r[2].wait()
            if failed:
                log("the simulator does not compile against the working tree:\n" + failed)
                sys.exit(2)
            for v in todo:
                d = os.path.join(BUILD, key, v)
                tmp = out[v] + ".tmp"
                cmd = [CXX] + COMMON + VARIANTS[v] + [os.path.join(d, t + ".o") for t in TUS] + ["-o", tmp] + LIBS
                p = subprocess.run(cmd, capture_output=True, text=True)
                if p.returncode:
                    log("link failed:\n" + p.stderr[:4000])
                    sys.exit(2)
                for t in TUS:
                    os.unlink(os.path.join(d, t + ".o"))
                os.rename(tmp, out[v])
            log("built %s in %.0f s" % (",".join(todo), time.time() - t0))
    return out


def env_for(variant):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=0"
    e["SIM_CPU"] = "120" if variant == "asan" else "40"
    e["TZ"] = "UTC"; e["LC_ALL"] = "C"
    return e


def sim(path, variant, *args, timeout=900):
    p = subprocess.run([path] + [str(a) for a in args], capture_output=True, text=True, errors="replace", env=env_for(variant), timeout=timeout)
    res = []
    for l in p.stdout.splitlines():
        if l.startswith("{"):
            try: res.append(json.loads(l))
            except ValueError: pass
    return p.returncode, res, p.stdout


def known(prop):
    """Lines 'finding: property=<id> tag=<tag> match=<text in the message> :: description'."""
    r = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            if l.startswith("finding: property=%s " % prop):
                head, _, desc = l[len("finding: "):].strip().partition(" :: ")
                d = dict(x.split("=", 1) for x in head.split(" ") if "=" in x)
                r.append((d.get("plan"), d.get("tag"), desc))
    return r


def replay(path):
    variant = "dbg"
    for l in open(path):
        if l.startswith("# variant "): variant = l.split()[2]
    b = build([variant])
    rc, res, out = sim(b[variant], variant, "show", path)
    sys.stdout.write(out)
    return rc


def main():
    if len(sys.argv) < 2:
        print(__doc__); return 2
    what = sys.argv[1]
    if what == "replay":
        return replay(sys.argv[2])
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    workers, seconds = PLAN[tier]
    if os.environ.get("SIM_SECONDS"): seconds = float(os.environ["SIM_SECONDS"])
    if what == "build":
        build(list(workers)); return 0
    prop = what
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    bins = build(list(workers))
    build_s = time.time() - t0
    scratch = tempfile.mkdtemp(prefix="sim-", dir=BUILD)
    try:
        return explore(prop, tier, seed, bins, workers, seconds, t0, build_s, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def explore(prop, tier, seed, bins, workers, seconds, t0, build_s, scratch):
    base = (seed % (1 << 31)) * (1 << 32)
    n = sum(workers.values())
    procs, k = [], 0
    t_run = time.time()
    for v, cnt in workers.items():
        for _ in range(cnt):
            f = open(os.path.join(scratch, "out%d" % k), "w+")
            e = env_for(v)
            e["SIM_HASHES"] = os.path.join(scratch, "hash%d" % k)
            p = subprocess.Popen([bins[v], "batch", prop, str(base + k), str(n), str(1 << 40), str(seconds), "1"], stdout=f, stderr=subprocess.DEVNULL, env=e, start_new_session=True)
            procs.append((v, p, f, k)); k += 1
    first_fail = None
    while any(p.poll() is None for _, p, _, _ in procs):
        time.sleep(0.1)
        if first_fail is None and any(p.poll() == 1 for _, p, _, _ in procs):
            first_fail = time.time()
        if first_fail and time.time() - first_fail > 3:
            break
        if time.time() - t_run > seconds + 200:
            break
    for _, p, _, _ in procs:
        if p.poll() is None:
            try: os.killpg(p.pid, 9)
            except OSError: p.kill()
            p.wait()
    run_s = time.time() - t_run

    fails, summaries, nondet = [], [], 0
    per_variant = {}
    states, execs = set(), set()
    broken = []
    for v, p, f, k in procs:
        f.seek(0)
        got = False
        for l in f:
            try: d = json.loads(l)
            except ValueError: continue
            if d["type"] == "run" and d["status"] == 2: fails.append((v, d)); got = True
            if d["type"] == "nondet": nondet += 1
            if d["type"] == "summary":
                summaries.append(d); got = True
                per_variant.setdefault(v, [0, 0.0]); per_variant[v][0] += d["runs"]; per_variant[v][1] += d["seconds"]
        if not got and p.returncode not in (-9,):
            broken.append("%s worker %d ended with %s" % (v, k, p.returncode))
        h = os.path.join(scratch, "hash%d" % k)
        if os.path.exists(h):
            b = open(h, "rb").read(); o = 0
            for s in (states, execs):
                c, = struct.unpack_from("<Q", b, o); o += 8
                s.update(struct.unpack_from("<%dQ" % c, b, o)); o += 8 * c

    violation, unconfirmed = None, []
    fails.sort(key=lambda x: x[1]["steps"])
    # A violation must replay exactly; broken code may also misbehave differently each time (it reads freed
    # or uninitialised memory outside the simulated heap): then replays that all fail are accepted.
    for v, d, exact in [(v, d, True) for v, d in fails] + [(v, d, False) for v, d in fails]:
        r = confirm(prop, bins[v], v, d, scratch, exact)
        if r is None: unconfirmed.append("%s seed %d: %s" % (v, d["seed"], d["msg"][:200])); continue
        violation = r
        break

    ctr = {}
    for s in summaries:
        for a, b in s["counters"].items(): ctr[a] = ctr.get(a, 0) + b
    runs = sum(s["runs"] for s in summaries)
    samples = []
    for i in range(2):
        rc, _, out = sim(bins["dbg"], "dbg", "gen", prop, base + i)
        lines = out.splitlines()
        samples.append({"seed": base + i, "plan_head": lines[:16], "steps": sum(l.startswith("op ") for l in lines)})
    faults = {a: b for a, b in ctr.items() if a in FAULTS}
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(execs),
            "rule": "one evaluation is one simulated run: a seed decides the configuration, the heap behaviour, every step and every fault. Distinct: the hash of its whole event log (steps, results, table and cache sizes, faults fired) differs from every other run. Non-trivial: at least one request of the run produced a set of two or more assignments that was compared with the reference model.",
            "samples": samples,
            "simulated_steps": sum(s["steps"] for s in summaries),
            "simulated_time": "the library has no clock; simulated time is counted in steps (simulated_steps)",
            "runs_per_hour": int(runs / run_s * 3600) if run_s else 0,
            "seeds_per_hour": int(runs / run_s * 3600) if run_s else 0,
            "nontrivial_runs": sum(s["nontrivial_runs"] for s in summaries),
            "distinct_library_states": len(states),
            "state_measure": "hash of (set held by every handle, sizes of the unique tables and caches) after each step, first 256 steps of a run",
            "longest_run_s": max([s["longest_run_s"] for s in summaries] or [0]),
            "faults_injected": faults,
            "other_counters": {a: b for a, b in ctr.items() if a not in faults},
            "determinism_checks": sum(s["determinism_checks"] for s in summaries),
            "nondeterministic_runs": nondet,
            "runs_per_build": {v: x[0] for v, x in per_variant.items()},
            "builds": {v: " ".join(VARIANTS[v]) for v in workers},
            "real_code": REAL, "stubs": STUB,
            "build_s": round(build_s, 1), "simulation_s": round(run_s, 1),
        },
        "assumptions": ["single-threaded use, as the library requires", "user callbacks are pure functions of their arguments (apart from injected failures and re-entrant requests)",
                        "one order per diagram layout (possibly built several times)",
                        "domains of at most 16 values, layouts of at most 10 variables and 3 levels of nesting (larger ones for counting, wide nodes, value sets and orders)"],
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violation else 0,
    }
    os.makedirs(EVID, exist_ok=True)
    def write_evidence():
        ev["wall_s"] = round(time.time() - t0, 2)
        with open(os.path.join(EVID, prop + ".json"), "w") as f: json.dump(ev, f, indent=1)

    for plan, tag, desc in known(prop):
        rc, res, _ = sim(bins["dbg"], "dbg", "replay", os.path.join(HERE, plan))
        if res and res[0]["status"] == 2 and res[0]["tag"] == tag:
            print("KNOWN-FINDING: property=%s %s" % (prop, desc))
    write_evidence()
    if violation:
        path, d = violation
        print("%s: %s" % (d["tag"], d["msg"][:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if unconfirmed:
        log("violations that do not replay exactly:\n  " + "\n  ".join(unconfirmed)); return 2
    if nondet:
        log("%d runs gave different event logs when repeated" % nondet); return 2
    if broken or not runs:
        log("workers failed: " + "; ".join(broken)); return 2
    print("%s held on %d runs (%d distinct), %d steps, %.0f s" % (prop, runs, len(execs), ev["coverage"]["simulated_steps"], run_s))
    return 0


def confirm(prop, path, variant, d, scratch, exact):
    """Replay in fresh processes, minimise, replay again. Returns (file, result) or None."""
    def same(r):
        return r and r[0]["status"] == 2 and (r[0]["tag"] == d["tag"] or not exact)
    seed = d["seed"]
    plan = os.path.join(scratch, "plan")
    rc, _, out = sim(path, variant, "gen", prop, seed)
    open(plan, "w").write(out)
    hashes = set()
    for _ in range(2):
        rc, res, _ = sim(path, variant, "replay", plan)
        if not same(res): return None
        hashes.add(res[0]["evhash"])
    if exact and len(hashes) != 1: return None
    mini = os.path.join(scratch, "mini")
    final, best = plan, res[0]
    try:
        rc, res, _ = sim(path, variant, "minimise", plan, mini, 25, timeout=120)
        if rc == 0 and os.path.exists(mini):
            rc, r1, _ = sim(path, variant, "replay", mini)
            rc, r2, _ = sim(path, variant, "replay", mini)
            if same(r1) and same(r2) and (r1[0]["evhash"] == r2[0]["evhash"] or not exact): final, best = mini, r1[0]
    except subprocess.TimeoutExpired:
        pass
    os.makedirs(os.path.join(BUILD, "replays"), exist_ok=True)
    dest = os.path.join(BUILD, "replays", "%s-%s-%d.plan" % (prop, variant, seed))
    with open(dest, "w") as f:
        f.write("# %s: %s\n" % (best["tag"], best["msg"][:600].replace("\n", " ")))
        f.write("# variant %s   (replay with: python3 /verif/check.py replay THIS_FILE)\n" % variant)
        f.write("# found with profile %s, seed %d\n" % (prop, seed))
        f.write(open(final).read())
    return dest, best


if __name__ == "__main__":
    sys.exit(main())
