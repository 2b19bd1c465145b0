#!/usr/bin/env python3
"""Builds the simulator around /repo's current sources and runs seeded simulation.

  check.py C05               run the check of one property (VERIF_SEED, VERIF_TIER)
  check.py --build           build only (setup)
  check.py --replay FILE     replay a recorded failure in a fresh process
  check.py --selftest        determinism self-test: same seeds, other worker counts
"""
import collections, fcntl, hashlib, json, os, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
SIM = os.path.join(VERIF, "sim")
BUILD = os.path.join(VERIF, "build")
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.txt")
NCPU = 8

CXX = "clang++"
COMMON = ["-std=c++17", "-O1", "-gline-tables-only", "-fno-pie", "-D_GLIBCXX_ASSERTIONS", "-w"]
TSAN = ["-fsanitize=thread"]
VARIANTS = {
    # the shipped compiled library, assertions off
    "release": dict(defs=["-DNDEBUG"], lib=True),
    # the header-only configuration, assertions on
    "debug": dict(defs=["-DSIM_HEADER_ONLY"], lib=False),
    # progress diagnostics compiled in
    "verbose": dict(defs=["-DNDEBUG", "-DINTEGRATORXX_VERBOSITY_LEVEL=1"], lib=True),
    # an application built with assertions on, on the installed (assertion-free) library
    "mixed": dict(defs=[], lib=True),
    # the header-only configuration, assertions and the library's own sanity checks off
    "plain": dict(defs=["-DSIM_HEADER_ONLY", "-DNDEBUG", "-DINTEGRATORXX_DISABLE_SANITY_CHECK"], lib=False),
}
# which builds the workers of a property's check run
PLAN = {p: ["release"] * 5 + ["debug"] * 3 for p in list(range(1, 14)) + [21, 23, 24, 25, 26, 27]}
PLAN[22] = ["release"] * 3 + ["debug"] * 2 + ["verbose"] + ["early"] * 2
PLAN[25] = ["release"] * 4 + ["debug"] * 2 + ["verbose"] * 2
# "@k": the library's static objects are constructed in surroundings number k; each pair runs the same seeds
PLAN[24] = ["release", "release@1", "release", "release@2", "debug", "debug@3", "verbose", "verbose@4"]
# every seed on every build
PLAN[26] = ["release", "debug", "mixed", "verbose", "plain"] * 2
PLAN[27] = ["release"] * 5 + ["debug"] * 3
PLAN[21] = ["release"] * 4 + ["debug"] * 2 + ["verbose"] * 2
PLAN[9] = ["release"] * 3 + ["debug"] * 2 + ["verbose"] * 3

STATS_FAULTS = {
    "oom_nth": "n-th memory request of a call refused",
    "oom_from": "memory requests refused from the n-th on",
    "oom_size": "memory requests above a size refused",
    "oom_prob": "memory requests refused at random",
    "oom_budget": "no more than so many bytes on top of what is held",
    "clock_jumps": "clock jumped forwards or backwards",
    "log_faults": "diagnostics stream refused output",
    "locale_changes": "locale changed",
    "bad_requests": "request that cannot be served",
    "recycled_blocks": "released memory handed out again",
    "fpu_ops": "called in another rounding mode or with denormals flushed",
    "surroundings_read": "environment variable, file, machine property, process identity or entropy answered by the simulator",
    "client_exceptions": "client code called by the library threw",
    "preemptions": "task preempted inside an operation",
}
PROBES = {0: "leak_checks", 1: "failure_sweeps_run_to_success", 2: "injected_failure_survived", 3: "results_compared_with_fresh_process", 4: "grids_in_single_or_extended_precision",
          5: "batchers_built", 6: "batchers_on_empty_grids", 7: "batchers_with_more_than_27_batches", 8: "calls_into_the_library_from_client_code_it_called", 9: "rounds_of_repeated_work",
          58: "requests_in_which_client_code_threw", 59: "programs_run_with_and_without_reading"}


def die(msg):
    print("ERROR: " + msg, file=sys.stderr)
    sys.exit(2)


def listing():
    out = []
    for root in ("include", "src"):
        for d, _, fs in sorted(os.walk(os.path.join(REPO, root))):
            out += [os.path.join(d, f) for f in sorted(fs)]
    out += [os.path.join(SIM, f) for f in sorted(os.listdir(SIM)) if f.endswith((".cpp", ".hpp"))]
    return out


def source_hash():
    h = hashlib.sha256(repr((COMMON, TSAN, VARIANTS)).encode())
    for f in listing():
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    return h.hexdigest()[:20]


def run_jobs(jobs):
    """jobs: list of (args, log) started in order, at most NCPU at a time."""
    running, fail = [], None
    jobs = list(jobs)
    while jobs or running:
        while jobs and len(running) < NCPU:
            a = jobs.pop(0)
            running.append((a, subprocess.Popen(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        a, p = running.pop(0)
        out, _ = p.communicate()
        if p.returncode and not fail:
            fail = (a, out.decode(errors="replace"))
    if fail:
        die("build failed: %s\n%s" % (" ".join(fail[0]), fail[1][:6000]))


def binary(d, v):
    # "early": the release build, simulated before main() is entered
    if "@" in v:
        v, k = v.split("@")
        return ["/usr/bin/env", "SIM_STARTUP=" + k] + binary(d, v)
    return [os.path.join(d, "sim_release"), "--early"] if v == "early" else [os.path.join(d, "sim_" + v)]


def build(variants):
    variants = sorted({"release" if v == "early" else v.split("@")[0] for v in variants})
    os.makedirs(BUILD, exist_ok=True)
    h = source_hash()
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        d = os.path.join(BUILD, h)
        loc = os.path.join(BUILD, "locale")
        if not os.path.isdir(os.path.join(loc, "tr_TR.ISO-8859-9")):
            os.makedirs(loc, exist_ok=True)
            subprocess.run(["localedef", "-c", "-i", "tr_TR", "-f", "ISO-8859-9", os.path.join(loc, "tr_TR.ISO-8859-9")],
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        need = [v for v in variants if not os.path.exists(os.path.join(d, "sim_" + v))]
        if need:
            for o in os.listdir(BUILD):  # keep the two newest other builds
                pass
            olds = sorted((o for o in os.listdir(BUILD) if len(o) == 20 and o != h), key=lambda o: os.path.getmtime(os.path.join(BUILD, o)))
            for o in olds[:-2]:
                shutil.rmtree(os.path.join(BUILD, o), ignore_errors=True)
            os.makedirs(d, exist_ok=True)
            o = lambda n: os.path.join(d, n)
            inc = ["-I" + os.path.join(REPO, "include")]
            jobs = []
            for v in need:
                jobs.append([CXX] + COMMON + TSAN + inc + VARIANTS[v]["defs"] + ['-DSIM_VARIANT="%s"' % v, "-c", os.path.join(SIM, "ops.cpp"), "-o", o("ops_%s.o" % v)])
            libs = [f[:-4] for f in sorted(os.listdir(os.path.join(REPO, "src"))) if f.endswith(".cxx")]
            if any(VARIANTS[v]["lib"] for v in need) and not all(os.path.exists(o("lib_%s.o" % l)) for l in libs):
                for l in libs:
                    jobs.append([CXX] + COMMON + TSAN + inc + ["-DNDEBUG", "-c", os.path.join(REPO, "src", l + ".cxx"), "-o", o("lib_%s.o" % l)])
            if not os.path.exists(o("main.o")):
                jobs.append([CXX, "-std=c++17", "-O2", "-g1", "-fno-pie", "-fno-builtin-malloc", "-w", "-c", os.path.join(SIM, "rt.cpp"), "-o", o("rt.o")])
                for m in ("gen", "main"):
                    jobs.append([CXX, "-std=c++17", "-O1", "-g1", "-fno-pie", "-w", "-c", os.path.join(SIM, m + ".cpp"), "-o", o(m + ".o")])
            run_jobs(jobs)
            links = []
            for v in need:
                # the order matters: the client's static objects are constructed before the library's
                links.append([CXX, "-no-pie", o("rt.o"), o("gen.o"), o("main.o"), o("ops_%s.o" % v)] + ([o("lib_%s.o" % l) for l in libs] if VARIANTS[v]["lib"] else [])
                             + ["-o", o("sim_%s.tmp" % v), "-lpthread", "-ldl"])
            run_jobs(links)
            for v in need:
                os.rename(o("sim_%s.tmp" % v), o("sim_" + v))
        os.utime(d)
    return d, h


def env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("LC_") or k in ("LANG", "LANGUAGE", "LD_PRELOAD", "GCONV_PATH", "MALLOC_PERTURB_"):
            del e[k]
    e["LOCPATH"] = os.path.join(BUILD, "locale")
    return e


def start_of(seed, tier):
    # VERIF_SEED picks the block of simulation seeds; the tiers explore different ones
    return (seed % 1000000) * 1000000000 + (500000000 if tier == "thorough" else 0)


def digests(d, variant, f):
    r = subprocess.run(binary(d, variant) + ["--digest=" + f], env=env(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=300)
    return r.stdout.decode()


def diff_line(a, b):
    for x, y in zip(a.splitlines(), b.splitlines()):
        if x != y:
            return x, y
    return None


def compare_replay(d, variants, text, path):
    with open(path, "w") as f:
        f.write(text)
    tmp = path + ".plan"
    with open(tmp, "w") as f:
        f.write("integratorxx-sim-replay 1\n" + "\n".join(l for l in text.splitlines()[1:] if not l.startswith("#")) + "\n")
    try:
        return diff_line(digests(d, variants[0], tmp), digests(d, variants[1], tmp))
    finally:
        os.unlink(tmp)


def cross_build(d, prop, pairs, outdir):
    """pairs: {seed: {variant: digest}} - results of the same plan must not depend on the build."""
    for seed in sorted(pairs):
        v = pairs[seed]
        if len(v) < 2 or len(set(v.values())) == 1:
            continue
        va = sorted(v)[0]
        vb = next((x for x in sorted(v) if v[x] != v[va]), va)
        cls = "depends-on-startup" if "@" in vb else "depends-on-build"
        plan = subprocess.run(binary(d, va) + ["--prop=%d" % prop, "--start=%d" % seed, "--plan"], env=env(), stdout=subprocess.PIPE).stdout.decode()
        lines = plan.splitlines()[1:]
        head = "integratorxx-sim-compare 1"
        path = os.path.join(outdir, "C%02d-compare-%d.replay" % (prop, seed))
        if not compare_replay(d, (va, vb), "\n".join([head] + lines), path):
            return dict(unreproducible=True, seed=seed, **{"class": cls, "detail": "first comparison differed, second did not"})
        ops = [i for i, l in enumerate(lines) if l.startswith("op ")]
        changed, end = True, time.time() + 20
        while changed and time.time() < end:
            changed = False
            for i in reversed([i for i, l in enumerate(lines) if l.startswith("op ")]):
                t = lines[:i] + lines[i + 1:]
                if time.time() > end:
                    break
                if compare_replay(d, (va, vb), "\n".join([head] + t), path):
                    lines, changed = t, True
        w = compare_replay(d, (va, vb), "\n".join([head, "# builds %s %s" % (va, vb)] + lines), path)
        return dict(seed=seed, replay=path, reproduced=bool(w), ops=len([l for l in lines if l.startswith("op ")]), ops_original=len(ops),
                    **{"class": cls, "detail": ("results differ between the %s and %s builds: %s / %s" if prop in (9, 26) else "results differ between processes started in other surroundings (%s, %s): %s / %s") % (va, vb, w and w[0], w and w[1])})
    return None


def replay(f):
    text = open(f).read()
    if text.startswith("integratorxx-sim-compare 1"):
        va, vb = "release", "verbose"
        for l in text.splitlines():
            if l.startswith("# builds "):
                va, vb = l.split()[2:4]
        d, _ = build([va, vb])
        with tempfile.TemporaryDirectory() as t:
            w = compare_replay(d, (va, vb), text, os.path.join(t, "x"))
        print("REPRODUCED: %s / %s" % w if w else "NOT REPRODUCED")
        return 1 if w else 0
    v = "release"
    for l in text.splitlines():
        if l.startswith("variant "):
            v = l.split()[1]
        if l.startswith("startup "):
            v = v.split("@")[0] + "@" + l.split()[1]
    d, _ = build([v])
    return subprocess.run(binary(d, v) + ["--replay=" + f], env=env()).returncode


def known(prop):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            # known: property=Cxx class=<class> match=<text in detail> :: <what fails>
            if l.startswith("known:") and ("property=%s " % prop) in l:
                sig, _, what = l[6:].partition("::")
                kv = dict(x.split("=", 1) for x in sig.split() if "=" in x)
                out.append((kv.get("class", ""), kv.get("match", ""), what.strip()))
    return out


def check(pid, tier, seed, secs=None):
    t0 = time.time()
    prop = int(pid[1:])
    plan = PLAN[prop]
    if tier == "thorough":
        plan = plan if prop in (9, 21, 22, 24, 26) else ["release"] * 4 + ["debug"] * 3 + ["verbose"]
    d, h = build(sorted(set(plan)))
    t_build = time.time() - t0
    if secs is None:
        secs = float(os.environ.get("SIM_SECONDS", "40" if tier == "quick" else "600"))
    base = start_of(seed, tier)
    rdir = os.path.join(EVID, "replays")
    os.makedirs(rdir, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="simrun.", dir=BUILD)
    ws = []
    idx = collections.Counter()
    for k, v in enumerate(plan):
        # for C09 every build explores the same seeds, so that results can be compared across builds
        # for C24 the two of a pair do
        if prop == 9:
            st, stride = base + idx[v], plan.count(v)
        elif prop == 26:
            st, stride = base + k // 5, len(plan) // 5
        elif prop == 24:
            st, stride = base + k // 2, len(plan) // 2
        else:
            st, stride = base + k, len(plan)
        idx[v] += 1
        js, hs = os.path.join(tmp, "%d.json" % k), os.path.join(tmp, "%d.hash" % k)
        a = binary(d, v) + ["--prop=%d" % prop, "--start=%d" % st, "--stride=%d" % stride, "--time=%g" % secs,
             "--out=" + rdir, "--json=" + js, "--hashes=" + hs, "--mintime=%d" % (20 if tier == "quick" else 90)]
        p = subprocess.Popen(a, env=env(), stdout=subprocess.DEVNULL, stderr=open(os.path.join(tmp, "%d.err" % k), "w"), start_new_session=True)
        ws.append(dict(p=p, v=v, js=js, hs=hs, k=k, rc=None))
    deadline = time.time() + secs * 1.3 + 240
    found, odd = [], []
    res = {}
    while any(w["rc"] is None for w in ws):
        time.sleep(0.1)
        for w in ws:
            if w["rc"] is None and w["p"].poll() is not None:
                w["rc"] = w["p"].returncode
                try:
                    res[w["k"]] = json.load(open(w["js"]))
                except Exception:
                    odd.append("worker %d (%s) ended with %s and no report: %s" % (w["k"], w["v"], w["rc"], open(os.path.join(tmp, "%d.err" % w["k"])).read()[-500:]))
                    continue
                vi = res[w["k"]].get("violation")
                if vi:
                    vi["variant"] = w["v"]
                    (found if w["rc"] == 1 else odd).append(vi)
        if found or time.time() > deadline:
            for w in ws:
                if w["rc"] is None:
                    try:
                        os.killpg(w["p"].pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    w["p"].wait()
                    w["rc"] = -9
                    if not found:
                        odd.append("worker %d (%s) did not end in time" % (w["k"], w["v"]))
            break
    # ---- what was explored
    tot, ops, foreign = collections.Counter(), collections.Counter(), collections.Counter()
    probes = collections.Counter()
    seeds = execs = 0
    maxop = twins = 0
    samples = []
    for k, r in sorted(res.items()):
        seeds += r["seeds"]; execs += r["executions"]; maxop = max(maxop, r["max_op_steps"]); twins += r["twin_runs"]
        for a, b in r["stats"].items():
            if a != "probes":
                tot[a] += b
        for i, b in enumerate(r["stats"]["probes"]):
            if b:
                probes[PROBES.get(i, "bad_request_kind_%02d" % (i - 10) if i >= 10 else "p%d" % i)] += b
        ops.update(r["ops"]); foreign.update(r["foreign_classes"])
        if r["sample"] and len(samples) < 2:
            samples.append(r["sample"])
    distinct, scheds, pairs = set(), set(), collections.defaultdict(dict)
    for w in ws:
        if os.path.exists(w["hs"]):
            for l in open(w["hs"]):
                f = l.split()
                if len(f) < 7:
                    continue
                if f[4] == "1":
                    distinct.add((w["v"].split("@")[0], f[1]))
                scheds.add(f[2])
                if (prop == 9 and f[3] == "1" and f[6] == "0" and w["v"] in ("release", "verbose")) or (prop == 26 and f[3] == "1" and f[6] == "0") or (prop == 24 and f[3] == "1"):
                    pairs[int(f[0])][w["v"]] = f[5]
    ncmp = sum(1 for v in pairs.values() if len(v) >= 2)
    if prop in (9, 24, 26) and not found:
        vi = cross_build(d, prop, pairs, rdir)
        if vi:
            vi["variant"] = "release/verbose" if prop == 9 else "any" if prop == 26 else "same"
            (found if vi.get("reproduced") else odd).append(vi)
    shutil.rmtree(tmp, ignore_errors=True)
    wall = time.time() - t0
    run = max(1e-9, time.time() - t0 - t_build)
    kf = known(pid)
    new = []
    for vi in found:
        m = [k for k in kf if k[0] == vi["class"] and k[1] in vi["detail"]]
        if m:
            print("KNOWN-FINDING: property=%s %s" % (pid, m[0][2]))
        else:
            new.append(vi)
    cov = dict(
        evaluations=execs, distinct_nontrivial=len(distinct),
        rule="One evaluation is one simulated run in its own forked process: a seed generates a plan of client operations on real library objects, the faults "
             "injected into them and the environment (memory contents, addresses and reuse; clock; locale; diagnostics stream; for several tasks the scheduler strategy), "
             "and the simulator executes it, checking models and invariants after every operation. A run is non-trivial if at least two operations took effect and at "
             "least one oracle compared state; runs are distinct by the hash of their trace (operations, results, allocations, faults, switches).",
        samples=samples or ["(no run completed)"],
        seeds=seeds, seeds_per_hour=int(seeds / run * 3600), runs_per_hour=int(execs / run * 3600), twin_runs=twins,
        simulated_seconds=round(tot["sim_ns"] / 1e9, 3), simulated_steps=tot["steps"], longest_operation_steps=maxop,
        operations=dict(attempted=tot["ops"], took_effect=tot["ops_ok"], failed_cleanly=tot["ops_failed"], skipped=tot["ops_skipped"]),
        operations_generated=dict(ops), oracle_checks=tot["checks"],
        faults_fired={t: tot[s] for s, t in STATS_FAULTS.items()},
        memory_requests=tot["allocations"], clock_reads=tot["clock_reads"], diagnostics_bytes=tot["log_bytes"],
        tasks_run=tot["threads"], context_switches=tot["switches"], race_checks=tot["race_checks"], synchronisation_operations=tot["sync_ops"],
        distinct_interleavings=len(scheds) - 1 if tot["switches"] == 0 and scheds else len(scheds),
        interleaving_measure="hash of the sequence (from task, to task, step) of all context switches of a run",
        probes=dict(probes), stopped_by_matters_of_other_properties=dict(foreign),
        builds=dict(collections.Counter(plan)), build_hash=h, build_s=round(t_build, 1), exploration_s=round(run, 1),
        real_components="all of include/ and src/ of /repo, compiled from the working tree; libstdc++ and libm; POSIX threads as carriers of tasks",
        stub_components="operator new/delete and its heap, scheduler, mutexes/condition variables/call_once/static-initialisation guards, sleeping, clocks, the diagnostics stream buffer; all decided by the seed",
    )
    if prop == 9:
        cov["plans_compared_between_plain_and_verbose_builds"] = ncmp
    if prop == 26:
        cov["plans_compared_between_builds"] = ncmp
    if prop == 24:
        cov["plans_compared_between_processes_started_in_other_surroundings"] = ncmp
    cov["distinct_interleavings"] = max(0, cov["distinct_interleavings"])
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=cov, wall_s=round(wall, 2), violations=len(new),
              assumptions=["the simulated heap, scheduler and clocks cover every source of nondeterminism the library uses",
                           "instrumentation by -fsanitize=thread at -O1 with clang preserves the behaviour of the sources",
                           "a clean batch of runs is evidence, not proof"])
    if found:
        ev["coverage"]["violation"] = found[0]
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, pid + ".json.tmp"), "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(os.path.join(EVID, pid + ".json.tmp"), os.path.join(EVID, pid + ".json"))
    print("%s %s seed=%d: %d runs (%d distinct and non-trivial) in %.0f s (build %.0f s), %d operations, faults %s" % (
        pid, tier, seed, execs, len(distinct), wall, t_build, tot["ops"], {s: tot[s] for s in STATS_FAULTS if tot[s]}))
    for vi in new:
        print("seed %s, %s build: %s: %s" % (vi["seed"], vi["variant"], vi["class"], vi["detail"]))
        if vi["class"] not in ("depends-on-build", "depends-on-startup"):
            print("minimised to %s operations from %s, %s context switches" % (vi.get("ops"), vi.get("ops_original"), vi.get("switches")))
        print("VIOLATION property=%s replay=%s" % (pid, vi["replay"]))
    if new:
        return 1
    if odd:
        for o in odd:
            print("ERROR: %s" % (o if isinstance(o, str) else json.dumps(o)))
        return 2
    if execs == 0:
        print("ERROR: nothing was executed")
        return 2
    return 0


def selftest(n=120):
    """The same seeds with one and with many workers, twice: every trace hash must agree."""
    d, _ = build(sorted(VARIANTS))
    bad = 0
    with tempfile.TemporaryDirectory(dir=BUILD) as t:
        for prop in sorted(PLAN):
            logs = {}
            for label, workers in (("1", 1), ("3", 3), ("8a", 8), ("8b", 8)):
                ps = []
                for v in list(VARIANTS) + (["early"] if prop == 22 else []):
                    for k in range(workers):
                        f = os.path.join(t, "%s.%s.%d" % (label, v, k))
                        cnt = len(range(k, n, workers))
                        ps.append((v, f, subprocess.Popen(binary(d, v) + ["--prop=%d" % prop, "--survey", "--start=%d" % (90000 + k), "--stride=%d" % workers,
                                                           "--count=%d" % cnt, "--hashes=" + f], env=env(), stdout=subprocess.DEVNULL)))
                s = set()
                for v, f, p in ps:
                    p.wait()
                    s |= {(v, l) for l in open(f)}
                logs[label] = s
            ref = logs["1"]
            diff = {l: len(s ^ ref) for l, s in logs.items()}
            print("C%02d: %d traces; differences by worker count %s" % (prop, len(ref), diff), flush=True)
            bad += sum(diff.values())
    print("DETERMINISTIC" if not bad else "NOT DETERMINISTIC")
    return 0 if not bad else 2


def main():
    a = sys.argv[1:]
    if not a:
        die("usage: check.py Cxx | --build | --replay FILE | --selftest")
    if a[0] == "--build":
        build(sorted(VARIANTS))
        return 0
    if a[0] == "--replay":
        return replay(a[1])
    if a[0] == "--selftest":
        return selftest(int(a[1]) if len(a) > 1 else 120)
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = int(hashlib.sha256(os.environ["VERIF_SEED"].encode()).hexdigest()[:6], 16)
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    return check(a[0], tier if tier in ("quick", "thorough") else "quick", seed)


if __name__ == "__main__":
    sys.exit(main())
