#!/usr/bin/env python3
"""check.py PROPERTY [SECONDS]: decide one property of /repo by simulation.

Rebuilds the node libraries from /repo's working tree and the simulator from sim/, runs a seeded search on every core,
and reports the first violation that replays exactly.  Exit 0: none found, 1: VIOLATION line, 2: the check itself failed.
Environment: VERIF_SEED (default 1), VERIF_TIER (quick, thorough), SIM_REPO (another tree, for experiments).
"""
import array, glob, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
prop = sys.argv[1]
seed = int(os.environ.get("VERIF_SEED", "1") or 1)
tier = os.environ.get("VERIF_TIER", "quick") or "quick"
BUDGET = {"quick": 30, "thorough": 600}
seconds = float(sys.argv[2]) if len(sys.argv) > 2 else BUDGET.get(tier, 30)
jobs = max(1, min(os.cpu_count() or 1, 16))
repo = os.environ.get("SIM_REPO", "/repo")
t0 = time.time()


def fail(msg):
    print("CHECK ERROR property=%s: %s" % (prop, msg))
    sys.exit(2)


def known_findings():
    out = []
    try:
        for line in open(os.path.join(HERE, "known-findings.txt")):
            m = re.match(r"finding: property=(\S+) match=/(.*)/ (.*)", line)
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), m.group(3)))
    except OSError:
        pass
    return out


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, errors="replace", **kw)


def replay(sim, lib, path):
    r = run([sim, "replay", lib, path, "-q"])
    m = re.search(r"^REPLAY property=(\S+) hash=(\S+) class=(\S+) (.*)$", r.stdout, re.M)
    return (m.group(3), m.group(2), m.group(4)) if m else ("error", "", r.stdout[-300:])


def main():
    work = tempfile.mkdtemp(prefix="sim-%s-" % prop)
    try:
        return decide(work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decide(work):
    lib = os.path.join(work, "lib")
    out = os.path.join(work, "out")
    os.mkdir(lib)
    os.mkdir(out)
    env = dict(os.environ, TMPDIR=work)
    variants = VARIANTS.get(prop)
    if not variants:
        fail("unknown property")
    r = run(["bash", os.path.join(HERE, "sim/build.sh"), lib] + variants, env=env)
    if r.returncode:
        fail("the build failed:\n" + r.stdout[-3000:])
    built = time.time()
    sim = os.path.join(lib, "simrun")
    procs = [subprocess.Popen([sim, "search", prop, lib, str(seed), str(k), str(jobs), str(seconds), tier, out], env=env,
                              stdout=subprocess.DEVNULL, stderr=open(os.path.join(out, "w%d.err" % k), "w")) for k in range(jobs)]
    deadline = built + seconds + 240
    found = None
    while any(p.poll() is None for p in procs):
        time.sleep(0.2)
        found = sorted(f for f in glob.glob(out + "/v*.case"))
        if found:
            grace = time.time() + 3
            while time.time() < grace and any(p.poll() is None for p in procs):
                time.sleep(0.1)
            break
        if time.time() > deadline:
            break
    late = [k for k, p in enumerate(procs) if p.poll() is None]
    for p in procs:
        if p.poll() is None:
            p.kill()
        p.wait()
    searched = time.time()
    cases = sorted(glob.glob(out + "/v*.case"))
    stats, samples = {}, []
    for f in sorted(glob.glob(out + "/w*.json")):
        j = json.load(open(f))
        samples += j.pop("samples", [])
        for k, v in j.items():
            if isinstance(v, dict):
                for a, b in v.items():
                    stats.setdefault(k, {})
                    stats[k][a] = stats[k].get(a, 0) + b
            elif k.startswith("max_"):
                stats[k] = max(stats.get(k, 0), v)
            else:
                stats[k] = stats.get(k, 0) + v
    if not cases and (late or len(glob.glob(out + "/w*.json")) != jobs):
        errs = "".join(open(f, errors="replace").read()[-300:] for f in glob.glob(out + "/w*.err"))
        fail("%d of %d workers gave no answer. %s" % (jobs - len(glob.glob(out + "/w*.json")), jobs, errs))

    def union(ext):
        s = set()
        for f in glob.glob(out + "/w*." + ext):
            a = array.array("Q")
            a.frombytes(open(f, "rb").read())
            s.update(a)
        return len(s)

    # gate: a violation counts when its file replays identically in fresh processes
    verdict, reported, unreproduced, engine = None, [], 0, None
    known, seen_known = known_findings(), {}
    for f in cases[:8]:
        if os.path.exists(f[:-5] + ".flaky"):
            unreproduced += 1
        a, b = replay(sim, lib, f), replay(sim, lib, f)
        if a[0] == "engine":
            engine = a[2]
            continue
        if a[0] in ("none", "error") or a[0] != b[0]:
            unreproduced += 1
            continue
        path = f
        mini = f[:-5] + ".min"
        r = run([sim, "minimise", lib, f, mini, "40"], env=env)
        if r.returncode == 0 and os.path.exists(mini):
            c, d = replay(sim, lib, mini), replay(sim, lib, mini)
            if c[0] == a[0] and c == d:
                path, a, b = mini, c, d
        hit = [w for (rx, w) in known if rx.search("[%s] %s" % (a[0], a[2]))]
        if hit:
            seen_known[hit[0]] = True
            continue
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        dst = os.path.join(HERE, "replays", "%s-%s.case" % (prop, a[1]))
        shutil.copyfile(path, dst)
        verdict = (dst, a[0], a[2], a[1] == b[1])
        break
    for w in [w for (rx, w) in known]:
        print("KNOWN-FINDING: property=%s %s" % (prop, w))
    wall = time.time() - t0
    span = max(0.001, searched - built)
    cover = {
        "evaluations": int(stats.get("cases", 0)),
        "distinct_nontrivial": union("keys"),
        "rule": RULE,
        "samples": samples[:6],
        "simulated_runs": int(stats.get("runs", 0)),
        "runs_per_hour": int(stats.get("runs", 0) / span * 3600),
        "seeds_per_hour": int(stats.get("cases", 0) / span * 3600),
        "simulated_seconds": round(stats.get("sim_ns", 0) / 1e9, 3),
        "scheduling_steps": int(stats.get("steps", 0)),
        "context_switches": int(stats.get("switches", 0)),
        "simulated_threads": int(stats.get("threads", 0)),
        "messages_delivered": int(stats.get("messages", 0)),
        "memory_accesses_checked": int(stats.get("accesses", 0)),
        "distinct_interleavings": union("sched"),
        "distinct_interleavings_measure": "64-bit hash of the sequence of (thread, operation) scheduling steps of one run; capped at 400000 per worker",
        "distinct_states": union("states"),
        "distinct_states_measure": "hash of all threads' positions (blocked on what, holding what) and queue lengths, sampled during runs; capped",
        "choices_by_kind": stats.get("choices", {}),
        "faults_fired": {**stats.get("faults", {}), **stats.get("damage", {})},
        "runs_with_faults": int(stats.get("fault_runs", 0)),
        "outcomes": stats.get("outcomes", {}),
        "strategies": stats.get("strategies", {}),
        "workload_families": stats.get("families", {}),
        "scenarios": stats.get("scenarios", {}),
        "nodes_per_run": stats.get("nodes", {}),
        "cases_without_oracle": int(stats.get("undecided", 0)),
        "determinism": {"runs_repeated_and_replayed": int(stats.get("det_checked", 0)), "event_hash_differed": int(stats.get("det_bad", 0)), "replay_of_recorded_choices_differed": int(stats.get("replay_bad", 0))},
        "most_steps_in_a_run": stats.get("max_steps", 0),
        "longest_case_s": stats.get("max_case_s", 0),
        "unreproduced_alarms": unreproduced,
        "search_s": round(searched - built, 1),
        "build_s": round(built - t0, 1),
        "workers": jobs,
        "real_components": "all of /repo/src except the tests (compiled unchanged, linked as one library per node), libstdc++'s iostreams, containers, std::thread, std::async, std::mutex",
        "stubbed_components": "the scheduler (pthread threads, mutexes, condition variables, futexes, sleeps, yields), clocks, CPU count, malloc/operator new, file and descriptor I/O (open, read, write, lseek, stdio: sim/engine_libc.h), stdout/stderr buffers' sinks" + ("; MPI (sim/mpi/mpi.h: point-to-point and simple collective subset, implemented in sim/engine_mpi.h)" if any(v[0] == "m" for v in variants) else ""),
        "repo": repo,
    }
    ev = {"property": prop, "tier": "thorough" if tier == "thorough" else "quick", "seed": seed, "level": "exploration", "coverage": cover,
          "assumptions": ["schedules are sequentially consistent: weak-memory reorderings are covered only through the data-race detector (P06)",
                          "a clean search is evidence over the sampled schedules, faults and inputs, not a proof"],
          "wall_s": round(wall, 1), "violations": 1 if verdict else 0}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", prop + ".json.tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(HERE, "evidence", prop + ".json"))
    print("property=%s seed=%d tier=%s: %d cases, %d simulated runs, %d distinct non-trivial, %d interleavings, faults %s, %.0f s" % (
        prop, seed, tier, cover["evaluations"], cover["simulated_runs"], cover["distinct_nontrivial"], cover["distinct_interleavings"], json.dumps(cover["faults_fired"]), wall))
    if verdict:
        print("violation [%s] %s" % (verdict[1], verdict[2]))
        if not verdict[3]:
            print("note: the violation class reproduces, the event hash does not")
        print("replay with: %s/check.py replay %s" % (HERE, verdict[0]))
        print("VIOLATION property=%s replay=%s" % (prop, verdict[0]))
        return 1
    if engine:
        fail("simulator error: " + engine)
    if unreproduced:    # only what replays counts; the number is in the evidence file
        print("note: %d alarms of the search did not reproduce from their files and were dropped" % unreproduced)
    if cover["evaluations"] == 0:
        fail("no case was evaluated")
    return 0


def replay_main(path):
    """Builds the libraries from the working tree and replays a case file."""
    work = tempfile.mkdtemp(prefix="sim-replay-")
    try:
        p = re.search(r"^property \d+:(\S+)", open(path, errors="replace").read(), re.M).group(1)
        r = run(["bash", os.path.join(HERE, "sim/build.sh"), work] + VARIANTS[p])
        if r.returncode:
            print(r.stdout[-3000:])
            return 2
        r = subprocess.run([os.path.join(work, "simrun"), "replay", work, path], env=dict(os.environ, TMPDIR=work))
        return r.returncode
    finally:
        shutil.rmtree(work, ignore_errors=True)


RULE = ("A case is drawn from one PRNG seed: a polyhedron family and input text, options, number of nodes and threads, scheduling strategy, buffer and network mode, "
        "and the faults of this property placed inside the run. It counts as non-trivial when more than the main threads ran and either the scheduler switched more often than there are "
        "threads or an injected fault fired (for P24 the damaged file is the fault, also where the run ends before any worker starts), and as distinct by the hash of all events of its runs.")
VARIANTS = {k: v.split() for k, v in (
    ("P01", "sp"), ("P02", "sp"), ("P03", "sp"), ("P04", "mp"), ("P05", "sp mp"), ("P06", "st mt"), ("P07", "sp mp"), ("P08", "sp mp"), ("P09", "sp mp"),
    ("P10", "sp"), ("P11", "sp mp"), ("P12", "sp mp"), ("P13", "sp mp"), ("P14", "mp"), ("P15", "mt mp"), ("P16", "sp mp"), ("P17", "sp mp"), ("P22", "sp mp"), ("P23", "mp"), ("P24", "sp mp"))}
if __name__ == "__main__":
    sys.exit(replay_main(sys.argv[2]) if prop == "replay" else main())
