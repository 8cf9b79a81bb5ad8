#!/usr/bin/env python3
"""Driver: build a harness from /repo's working tree, run the seeded search, gate and report.

usage: check.py <ID> [--tier quick|thorough]   (VERIF_SEED, VERIF_TIER from the environment)
       check.py --setup                        build everything once (warms nothing the checks depend on)
exit: 0 held, 1 violation (with a VIOLATION line), 2 error of the check
"""
import sys, os, json, subprocess, hashlib, time, fcntl, shutil, re
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
NPROC = min(8, os.cpu_count() or 1)
CONF = json.load(open(os.path.join(HERE, "checks", "config.json")))
WRAPS = ["malloc", "free", "calloc", "realloc", "memcpy", "memmove", "memset", "memcmp", "memchr", "strlen", "wcslen", "wmemcpy", "wmemmove",
         "pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_unlock", "pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "pthread_rwlock_unlock",
         "sched_yield", "usleep", "nanosleep", "clock_nanosleep", "pthread_once",
         "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort", "__cxa_thread_atexit"]
LIBFLAGS = ["-std=c++20", "-O1", "-g1", "-fsanitize=thread", "-fno-builtin", "-fno-pie", "-w", "-DVLPP_SIM", "-I", REPO]
SIMFLAGS = ["-std=c++20", "-O2", "-g1", "-fno-builtin", "-fno-pie", "-w"]

def die(msg, code=2):
    print("ERROR:", msg, flush=True); sys.exit(code)

def sources():
    out = []
    for d, dirs, fs in os.walk(os.path.join(REPO, "Source")):
        dirs.sort()
        for f in sorted(fs):
            if f.endswith((".cpp", ".h")): out.append(os.path.join(d, f))
    return out

def digest(files, extra=()):
    h = hashlib.sha256()
    for f in files:
        h.update(f.encode()); h.update(open(f, "rb").read())
    for e in extra: h.update(str(e).encode())
    return h.hexdigest()[:20]

def compile_one(job):
    src, obj, flags = job
    if os.path.exists(obj): return None
    tmp = obj + ".%d.tmp" % os.getpid()
    r = subprocess.run(["g++"] + flags + ["-c", src, "-o", tmp], capture_output=True, text=True)
    if r.returncode and "/checks/" in src:
        # types the tree no longer accepts (a compiler sees that) must not keep the rest of the check from running
        r = subprocess.run(["g++"] + flags + ["-DSIM_PLAIN", "-c", src, "-o", tmp], capture_output=True, text=True)
        if not r.returncode: print("NOTE: values that cannot be copied do not compile against this tree and are left out", flush=True)
    if r.returncode: return "%s: %s" % (src, r.stderr[-3000:])
    os.rename(tmp, obj)
    return None

def build(pid):
    """Objects are cached under a digest of all inputs, so a changed working tree is always rebuilt."""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        srcs = sources()
        key = digest(srcs, LIBFLAGS)
        lib = os.path.join(BUILD, "lib-" + key); os.makedirs(lib, exist_ok=True)
        for d in os.listdir(BUILD):      # keep the cache small
            if d.startswith(("lib-", "bin-")) and d not in ("lib-" + key, "bin-" + key) and time.time() - os.path.getmtime(os.path.join(BUILD, d)) > 3600:
                shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
        jobs, objs = [], []
        for s in srcs:
            if not s.endswith(".cpp") or s.endswith(".Windows.cpp"): continue
            o = os.path.join(lib, os.path.relpath(s, REPO).replace("/", "_") + ".o")
            objs.append(o); jobs.append((s, o, LIBFLAGS))
        simfiles = [os.path.join(HERE, "sim", f) for f in sorted(os.listdir(os.path.join(HERE, "sim")))]
        commons = [os.path.join(HERE, "checks", f) for f in sorted(os.listdir(os.path.join(HERE, "checks"))) if f.endswith(".h")]
        bind = os.path.join(BUILD, "bin-" + key); os.makedirs(bind, exist_ok=True)
        simo = os.path.join(BUILD, "sim-%s.o" % digest(simfiles, SIMFLAGS))
        jobs.insert(0, (os.path.join(HERE, "sim", "sim.cpp"), simo, SIMFLAGS))
        hs = os.path.join(HERE, "checks", pid + ".cpp")
        hkey = digest([hs] + commons + simfiles, LIBFLAGS + [key])
        ho = os.path.join(bind, "%s-%s.o" % (pid, hkey))
        extra = CONF[pid].get("extra_flags", [])
        jobs.insert(0, (hs, ho, LIBFLAGS + extra))
        exe = os.path.join(bind, "%s-%s" % (pid, hkey))
        if os.path.exists(exe): return exe
        with ThreadPoolExecutor(NPROC) as ex:
            errs = [e for e in ex.map(compile_one, jobs) if e]
        if errs: die("build failed:\n" + "\n".join(errs))
        cmd = ["g++", "-no-pie", "-g1", ho] + objs + [simo] + ["-Wl,--wrap=" + w for w in WRAPS + CONF[pid].get("wraps", [])] + ["-lpthread", "-o", exe + ".tmp"]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode: die("link failed: " + r.stderr[-3000:])
        os.rename(exe + ".tmp", exe)
        return exe
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)

def symbolise(exe, msg):
    def f(m):
        try:
            r = subprocess.run(["addr2line", "-e", exe, "-f", "-C", "-i", "-p", hex(int(m.group(2), 16) - 1)], capture_output=True, text=True, timeout=20)
            t = r.stdout.strip().replace("\n", " ").replace(REPO + "/", "")
            return "%s=%s" % (m.group(1), t[:400]) if t and "??" not in t[:4] else m.group(0)
        except Exception: return m.group(0)
    return re.sub(r"(pc|prev)=(0x[0-9a-f]+)", f, msg)

def main():
    args = sys.argv[1:]
    if args and args[0] == "--setup":
        build(sorted(CONF)[0]); print("ok"); return 0
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args: tier = args[args.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    conf = CONF[pid]
    t0 = time.time()
    exe = build(pid)
    tb = time.time() - t0
    cap = conf.get("limit_" + tier, 20 if tier == "quick" else 600)
    count = conf.get("runs_" + tier, 1000000000)
    known_all = [k for k in json.load(open(os.path.join(HERE, "known_findings.json")))["findings"] if k["property"] == pid]
    known = {k["key"]: k for k in known_all if k["status"] == "known"}
    ev_path = os.path.join(HERE, "evidence", pid + ".json")
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    kn = ["--known", ",".join(known)] if known else []
    # ---- determinism gate: the same seeds, in fresh processes, at two batch sizes --------------------------
    det = conf.get("determinism_runs", 96)
    a = subprocess.run([exe, "hashes", "--base", str(seed), "--count", str(det), "--batch", "1"] + kn, capture_output=True, text=True, timeout=600).stdout
    b = subprocess.run([exe, "hashes", "--base", str(seed), "--count", str(det), "--batch", "1"] + kn, capture_output=True, text=True, timeout=600).stdout
    undet = a != b and ("simulator is not deterministic on this tree:\n" + "\n".join(x + "  |  " + y for x, y in zip(a.splitlines(), b.splitlines()) if x != y)[:2000])
    # ---- search ------------------------------------------------------------------------------------------
    per = max(1, count // NPROC)
    procs = [subprocess.Popen([exe, "run", "--base", str(seed), "--first", str(w), "--stride", str(NPROC), "--count", str(per), "--limit", str(cap), "--batch", str(conf.get("batch", 16))] + kn,
                              stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True) for w in range(NPROC)]
    res = []
    for p in procs:
        try: out, err = p.communicate(timeout=cap + 240)
        except subprocess.TimeoutExpired: p.kill(); die("worker stuck")
        if p.returncode: die("worker failed: " + err[-2000:])
        res.append(json.loads(out))
    wall = time.time() - t0
    viols = sorted([r["violation"] for r in res if r["violation"]], key=lambda v: v["index"])
    tot = lambda k: sum(r[k] for r in res)
    def merge(k):
        m = {}
        for r in res:
            for n, c in r[k].items(): m[n] = m.get(n, 0) + c
        return dict(sorted(m.items()))
    sample_trace = subprocess.run([exe, "trace", "--seed", a.split()[0] if a.split() and a.split()[0] != "V" else "1"] + kn, capture_output=True, text=True, errors="replace").stdout
    runs = tot("runs")
    cov = dict(evaluations=runs, distinct_nontrivial=tot("distinct"),
               rule=conf["rule"] + " Distinct = different 64-bit hash over every choice, simulated memory access, allocation and context switch of the run (counted per worker on disjoint seeds).",
               samples=[sample_trace[:3000]], nontrivial_runs=tot("nontrivial"),
               runs_with_preemption=tot("preempted"), preemptions=tot("preempts"), distinct_interleavings=tot("interleavings"),
               interleaving_measure="hash over (step number, thread switched to) of all context switches of a run",
               simulated_steps=tot("steps"), longest_run_steps=max(r["max_steps"] for r in res), context_switches=tot("switches"), simulated_seconds=round(tot("sim_seconds"), 3),
               runs_per_hour=int(runs / max(0.001, max(r["wall"] for r in res)) * 3600), seeds_per_hour=int(runs / max(0.001, max(r["wall"] for r in res)) * 3600),
               faults_injected=merge("faults"), probes=merge("probes"),
               determinism_check="%d seeds run twice in fresh processes, identical event hashes" % det,
               discarded_runs=tot("errors"), batches_rerun_in_isolation=tot("contaminated"),
               real_code=conf["real"], stubs=conf["stubs"], build_s=round(tb, 1))
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=cov, assumptions=conf.get("assumptions", []), wall_s=round(wall, 2), violations=len(viols))
    def write(): json.dump(ev, open(ev_path, "w"), indent=1)
    kc = merge("known")
    for k in known:
        if kc.get(k): print("KNOWN-FINDING: property=%s %s (seen in %d runs)" % (pid, known[k]["what"], kc[k]))
    if undet and not viols: write(); die(undet)
    if not viols:
        if tot("errors") > runs // 100 + 5: write(); die("too many discarded runs: %d of %d" % (tot("errors"), runs))
        write()
        print("%s: held on %d runs (%d distinct non-trivial, %d interleavings) in %.1f s" % (pid, runs, cov["distinct_nontrivial"], cov["distinct_interleavings"], wall))
        return 0
    # ---- gate, minimise, replay in fresh processes ---------------------------------------------------------
    rd = os.path.join(HERE, "replays"); os.makedirs(rd, exist_ok=True)
    def gate(v):
        path = os.path.join(rd, "%s-%d.replay" % (pid, v["seed"]))
        r = subprocess.run([exe, "shrink", "--seed", str(v["seed"]), "--out", path, "--limit", str(conf.get("shrink_limit", 40))] + kn, capture_output=True, text=True, errors="replace")
        if r.returncode: return None, "violation of seed %d (%s: %s) did not pass the gate: %s" % (v["seed"], v["kind"], v["msg"], r.stderr)
        for _ in range(2):
            q = subprocess.run([exe, "replay", "--file", path] + kn, capture_output=True, text=True, errors="replace")
            if q.returncode: return None, "minimised replay does not reproduce: " + q.stdout
        return path, q.stdout
    for v in viols[:4]:
        path, said = gate(v)
        if path: break
    if not path: write(); die(said)
    txt = open(path, errors="replace").read()
    open(path, "w").write(symbolise(exe, txt))
    msg = symbolise(exe, said.strip())
    ev["coverage"]["violation"] = dict(seed=v["seed"], kind=v["kind"], message=msg, replay=path)
    write()
    print(msg)
    print("first violating seed %d (run index %d); replay with: %s replay --file %s --trace 1" % (v["seed"], v["index"], exe, path))
    print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
    return 1

if __name__ == "__main__":
    sys.exit(main())
