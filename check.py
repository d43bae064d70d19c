#!/usr/bin/env python3
"""Runs the check of one property: build the simulated libdex from /repo's working tree, search seeds on all cores
with both AIO backends, gate and report violations, write the evidence file.

  check.py C01            quick or thorough, as VERIF_TIER says; VERIF_SEED seeds the search
  check.py --setup        only build
  check.py --replay FILE  replay a violation
"""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("DEXSIM_REPO", "/repo")
BUILD = os.environ.get("DEXSIM_BUILD", os.path.join(VERIF, "build"))
SIM = os.path.join(VERIF, "sim")
BIN = os.path.join(BUILD, "dexsim")
NPROC = 8
QUICK = float(os.environ.get("DEXSIM_SECS", "0")) or 60.0
THOROUGH = float(os.environ.get("DEXSIM_SECS", "0")) or 600.0

REAL = ("all of libdex (src/*.c compiled from the working tree, unmodified, with access instrumentation), "
        "GLib/GObject/GIO, libc, ucontext switching, eventfd descriptors")
STUB = ("thread scheduling (one thread at a time, seeded), futex/condition/mutex blocking, clocks and timers, poll(), "
        "the io_uring kernel side, the simulated disk, malloc, number of processors")
RULE = ("one run = one seed: the workload's program is drawn from the seed, then the seeded scheduler decides every thread "
        "switch (random or priority-change-point preemption at any memory access, atomic, lock, wait or system call of libdex), every timer/"
        "completion delay and every fault; a run is non-trivial when it had at least one preemption, fault or thread switch "
        "beyond the first and at least one oracle evaluation; distinct = different hash over program, all switches "
        "(thread, step, target), faults and recorded events")

def sha(p):
    with open(p, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()

def build():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stamp = os.path.join(BUILD, "stamp.json")
        try:
            old = json.load(open(stamp))
        except Exception:
            old = {}
        new = {}
        for pat in (REPO + "/src/*", REPO + "/meson.build", SIM + "/*", SIM + "/wl/*"):
            for p in glob.glob(pat):
                if os.path.isfile(p):
                    new[p] = sha(p)
        # content decides what is rebuilt, not time stamps
        changed = [p for p in set(old) | set(new) if old.get(p) != new.get(p)]
        if not old:
            for d in ("dex", "wl", "gen"):
                shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
            for o in glob.glob(BUILD + "/*.o"):
                os.unlink(o)
        for p in changed:
            if p.endswith(".c") and p.startswith(REPO):
                objs = [os.path.join(BUILD, "dex", os.path.basename(p)[:-2] + ".o")]
            elif p.startswith(SIM) and p.endswith((".cpp", ".c")):
                objs = [os.path.join(BUILD, os.path.relpath(p, SIM).rsplit(".", 1)[0] + ".o")]
            else:
                objs = glob.glob(BUILD + "/dex/*.o") + glob.glob(BUILD + "/*.o") + glob.glob(BUILD + "/wl/*.o") + glob.glob(BUILD + "/gen/*")
            for o in objs:
                if os.path.exists(o):
                    os.unlink(o)
        # objects of sources that are gone
        for o in glob.glob(BUILD + "/dex/*.o"):
            if not os.path.exists(os.path.join(REPO, "src", os.path.basename(o)[:-2] + ".c")):
                os.unlink(o)
        if changed and os.path.exists(BIN):
            os.unlink(BIN)
        if os.path.exists(stamp):
            os.unlink(stamp)
        r = subprocess.run(["make", "-s", "-C", SIM, "-j8", "REPO=" + REPO, "OUT=" + BUILD], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0 or not os.path.exists(BIN):
            print(r.stdout[-6000:])
            print("check.py: the build failed")
            sys.exit(2)
        with open(stamp, "w") as f:
            json.dump(new, f)

def starts(backend):
    """Whether the process gets through the initialisation of libdex (with a backend), which comes before any run."""
    try:
        r = subprocess.run([BIN, "--list"], env=dict(os.environ, DEXSIM_URING="1" if backend == "uring" else "0"), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace", timeout=30)
    except subprocess.TimeoutExpired:
        return "it never ends"
    return "" if r.returncode >= 0 or r.returncode == -9 else f"it ends with signal {-r.returncode}: {r.stderr[-300:]}"

def replay(path, extra=()):
    head = open(path).read()
    if "\nclass startup\n" in head:
        b = re.search(r"^backend (\S+)", head, re.M).group(1)
        why = starts(b)
        return (1 if why else 0), f"class=startup backend={b} {why}"
    r = subprocess.run([BIN, "--replay", path, *extra], stdout=subprocess.PIPE, stderr=None if extra else subprocess.DEVNULL, text=True)
    return r.returncode, r.stdout

def known(prop):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) class=\"([^\"]*)\" match=\"([^\"]*)\" (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append(m.groups())
    return out

def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 64
    if a[0] == "--setup":
        build()
        return 0
    if a[0] == "--replay":
        build()
        rc, o = replay(a[1], a[2:])
        print(o)
        return rc
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    build()
    t_build = time.time() - t0
    secs = QUICK if tier == "quick" else THOROUGH
    scratch = os.path.join(BUILD, "run", prop + "-" + str(os.getpid()))
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    kn = known(prop)
    procs = []
    for i in range(NPROC):
        env = dict(os.environ, DEXSIM_URING="1" if i % 2 == 0 else "0")
        env.pop("DEXSIM_NOREEXEC", None)
        cmd = [BIN, "--search", prop, "--seed0", str(seed * 1000000000 + i + 1), "--stride", str(NPROC), "--secs", str(secs),
               "--out", f"{scratch}/{i}.json", "--hashes", f"{scratch}/{i}.h", "--replay-out", scratch, "--mintime", "45" if tier == "quick" else "120",
               "--cpu", str(sorted(os.sched_getaffinity(0))[i % len(os.sched_getaffinity(0))])]
        for k in kn:
            cmd += ["--known", k[1], k[2]]
        procs.append(subprocess.Popen(cmd, env=env, stdout=subprocess.DEVNULL, stderr=open(f"{scratch}/{i}.err", "w")))
    # the first violation ends the search of the others
    limit = secs + 150 if tier == "quick" else secs + 240
    end = time.time() + limit
    stopped = set()
    while any(p.poll() is None for p in procs) and time.time() < end:
        done = [i for i, p in enumerate(procs) if p.poll() == 1 and i not in stopped]
        if done:
            for i, p in enumerate(procs):
                if p.poll() is None:
                    stopped.add(i)
                    p.kill()
        time.sleep(0.1)
    for i, p in enumerate(procs):
        if p.poll() is None:
            stopped.add(i)
            p.kill()
        p.wait()
    res, errors, viols, seen, kcount, startup = [], [], [], set(), {}, {}
    for i, p in enumerate(procs):
        try:
            r = json.load(open(f"{scratch}/{i}.json"))
        except Exception:
            if i in stopped and any(q.returncode == 1 for q in procs):
                continue
            err = open(f"{scratch}/{i}.err").read()[-1500:]
            backend = "uring" if i % 2 == 0 else "posix"
            why = starts(backend)
            if why:
                startup[backend] = why
                continue
            errors.append(f"worker {i} ended with {p.returncode} without a report: {err}")
            continue
        res.append(r)
        if r["internal"] or r["nondet"]:
            errors.append(f"worker {i}: {r['internal_msg']}")
        if r["violation"]:
            viols.append((i, r))
        for k, v in r.get("known", {}).items():
            kcount[k] = kcount.get(k, 0) + v
        try:
            d = open(f"{scratch}/{i}.h", "rb").read()
            seen.update(d[j:j + 8] for j in range(0, len(d), 8))
        except OSError:
            pass
    tot = lambda k: sum(r[k] for r in res)
    faults, probes = {}, {}
    for r in res:
        for k, v in r["faults"].items():
            f = faults.setdefault(k, {"fired": 0, "opportunities": 0, "runs_with": 0})
            for x in f:
                f[x] += v[x]
        for k, v in r["probes"].items():
            probes[k] = probes.get(k, 0) + v
    samples = [s for r in res for s in r["samples"]][:6]
    reported = []
    for i, r in viols:
        v = r["violation"]
        dst = os.path.join(VERIF, "replays")
        os.makedirs(dst, exist_ok=True)
        path = os.path.join(dst, os.path.basename(v["replay"]))
        shutil.copy(v["replay"], path)
        ok = True
        for n in range(2):   # fresh processes, must reproduce the same failure and the same history
            rc, o = replay(path)
            if rc != 1:
                ok = False
                errors.append(f"replay of {path} did not reproduce (exit {rc}): {o[:600]}")
                break
        if ok:
            reported.append((path, v))
    for backend, why in startup.items():
        path = os.path.join(VERIF, "replays", f"{prop}-{backend}-startup.replay")
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            f.write(f"dexsim-replay 1\nproperty {prop}\nbackend {backend}\nclass startup\n# the initialisation of libdex, before any run: {' '.join(why.split())}\n")
        reported.append((path, {"seed": 0, "class": "startup", "message": "the initialisation of libdex fails: " + why, "program": "", "switches": [0, 0], "faults": [0, 0], "choices": [0, 0]}))
    wall = time.time() - t0
    search = max([r["wall"] for r in res], default=0.0)
    if not samples and reported:
        samples = [reported[0][1]["program"]]
    lv = {}
    try:
        m = json.load(open(os.path.join(VERIF, "MANIFEST.json")))
        lv = next((c for c in m["checks"] if c["property"] == prop), {})
    except Exception:
        pass
    cov = {
        "evaluations": tot("runs"),
        "distinct_nontrivial": len(seen),
        "rule": RULE,
        "samples": samples or ["(no passing run finished)"],
        "runs_per_hour": int(tot("runs") / search * 3600) if search else 0,
        "seeds": f"VERIF_SEED*10^9 + 1 .. {max([r['last_seed'] for r in res], default=0)}",
        "simulated_seconds": round(tot("sim_us") / 1e6, 3),
        "scheduling_points": tot("steps"),
        "thread_switches": tot("switches"),
        "preemptive_switches": tot("preemptions"),
        "threads_started": tot("threads"),
        "oracle_evaluations": tot("evals"),
        "faults": faults,
        "probes": probes,
        "runs_by_backend": {b: sum(r["runs"] for r in res if r["backend"] == b) for b in ("uring", "posix")},
        "distinct_interleavings_measure": "distinct values of a 64-bit hash over (thread, thread-local step, next thread) of every switch, the drawn program, faults and events",
        "real_components": REAL,
        "stub_components": STUB,
        "build_s": round(t_build, 1),
        "workers": len(res),
        "known_findings_seen": kcount,
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": lv.get("level", "exploration"), "coverage": cov,
          "assumptions": ["memory is sequentially consistent except for delayed stores (FIFO store buffers, in half of the runs); reordering of loads, or of stores among each other, is not explored",
                          "accesses inside GLib, GIO and libc are not preemption points except at locks, waits, wakeups, system calls and the containers libdex uses",
                          "sampled, not exhaustive: schedules and fault sequences come from seeded random and priority-based search"],
          "wall_s": round(wall, 2), "violations": len(reported)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", f".{prop}.{os.getpid()}")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", prop + ".json"))
    shutil.rmtree(scratch, ignore_errors=True)
    for k in kn:
        print(f"KNOWN-FINDING: property={prop} {k[3]} (seen {kcount.get(k[1], 0)} times in this run)")
    print(f"{prop}: {cov['evaluations']} runs, {cov['distinct_nontrivial']} distinct non-trivial, {tot('steps')} scheduling points, "
          f"{tot('preemptions')} preemptions, faults { {k: v['fired'] for k, v in faults.items()} }, {wall:.1f} s")
    if reported:
        for path, v in reported:
            print(f"seed {v['seed']}: [{v['class']}] {v['message']}")
            print(f"  program: {v['program']}")
            print(f"  minimised: switches {v['switches'][0]} -> {v['switches'][1]}, faults {v['faults'][0]} -> {v['faults'][1]}, choices {v['choices'][0]} -> {v['choices'][1]}")
        print(f"VIOLATION property={prop} replay={reported[0][0]}")
        return 1
    if errors:
        for e in errors:
            print("check.py: error:", e)
        return 2
    if not tot("runs"):
        print("check.py: no run finished")
        return 2
    return 0

if __name__ == "__main__":
    sys.exit(main())
