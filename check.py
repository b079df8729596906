#!/usr/bin/env python3
"""Runs the deterministic-simulation check of one property.

    check.py C01                 search (tier from VERIF_TIER, seeds from VERIF_SEED)
    check.py C01 --replay FILE   replay a recorded violation (exit 1 if it is reproduced)
    check.py C01 --explain FILE  the same, printing the event log
    check.py --setup             build everything

Builds the scenario and the sources it exercises from /repo's working tree
(build/, keyed by content), runs seeded simulations on all cores, minimises and
re-verifies every violation by replay in fresh processes, writes
evidence/<id>.json.  Exit 0: held; 1: violation; 2: the check itself failed.
"""
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
sys.path.insert(0, HERE)
from scenarios import SCENARIOS  # noqa: E402

CXX = "g++"
# the memory accesses of the source are kept: values of shared variables are read back, not forwarded
OPT = ["-O1", "-fno-tree-fre", "-fno-tree-dominator-opts"]
COMMON = ["-g1", "-w", "-I" + os.path.join(HERE, "sim")]
BASE_SOURCES = """CubicHermiteE3Curve.cpp
CubicHermiteSE3Curve.cpp
DiscreteSE3Curve.cpp
KeyGenerator.cpp
SE2Curve.cpp
SE3Curve.cpp
SE3CurveFactory.cpp
SemiDiscreteSE3Curve.cpp
SlerpSE2Curve.cpp
SlerpSE3Curve.cpp
helpers.cpp
polynomial_splines_traits.cpp""".split()
LIBS = ["-lglog", "-lboost_thread", "-lboost_system", "-lpthread", "-ldl"]


def die(msg):
    print("CHECK-ERROR: " + msg, flush=True)
    sys.exit(2)


def tree_files(root, sub):
    out = []
    for s in sub:
        p = os.path.join(root, s)
        if os.path.isfile(p):
            out.append(p)
        for d, dn, fn in os.walk(p):
            dn.sort()
            if os.path.basename(d) in ("_build", "build", ".git", "test"):
                dn[:] = []
                continue
            out += [os.path.join(d, f) for f in fn if not f.endswith(".gch")]
    return sorted(out)


def digest(files, extra):
    h = hashlib.sha256(repr(extra).encode())
    for f in files:
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:24]


def compile_one(job):
    src, obj, flags = job
    r = subprocess.run([CXX] + flags + ["-c", src, "-o", obj], capture_output=True, text=True)
    return src, r.returncode, r.stderr


def build(pid):
    """Builds; where a scenario names a part it can do without, that part is
    left out if (and only if) the whole does not compile and link."""
    sc = SCENARIOS[pid]
    if "fallback" not in sc:
        return build_variant(pid, sc)
    try:
        return build_variant(pid, sc)
    except SystemExit:
        fb = sc["fallback"]
        print("note: retrying without " + ", ".join(fb["drop"]), flush=True)
        reduced = dict(sc, repo_src=[x for x in sc["repo_src"] if x not in fb["drop"]], defs=sc.get("defs", []) + fb["defs"])
        exe = build_variant(pid, reduced)
        sc["assumptions"] = sc.get("assumptions", []) + ["not simulated in this run, as it did not compile: " + ", ".join(fb["drop"])]
        return exe


def build_variant(pid, sc):
    inc = ["-I" + os.path.join(HERE, "sim", "stubs", d) for d in sc.get("stubs", [])]
    inc += ["-I" + REPO + "/curves/include", "-I" + REPO + "/curves_ros/include", "-I/usr/include/eigen3"]
    sut = ["-std=gnu++14"] + sc.get("opt", OPT) + ["-fsanitize=thread"] + COMMON + inc + sc.get("defs", [])
    core = ["-std=gnu++17", "-O2"] + COMMON
    key = digest(tree_files(REPO, ["curves/include", "curves/src", "curves_ros/include", "curves_ros/src"]) +
                 tree_files(HERE, ["sim"]), [pid, sut, core, sc["repo_src"], sc["src"]])
    out = os.path.join(BUILD, pid)
    exe = os.path.join(out, "sim-" + key)
    if os.path.exists(exe):
        return exe
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    corekey = digest(tree_files(HERE, ["sim/sim_core.cpp", "sim/sim.h"]), core)
    coreobj = os.path.join(BUILD, "core-" + corekey + ".o")
    jobs = []
    if not os.path.exists(coreobj):
        jobs.append((os.path.join(HERE, "sim/sim_core.cpp"), coreobj + ".%d.tmp" % os.getpid(), core))
    objs = []
    for s in [os.path.join(HERE, "sim/scn", x) for x in sc["src"]] + [os.path.join(REPO, x) for x in sc["repo_src"]]:
        if not os.path.exists(s):
            continue  # a source that was merged away: what it defined is found elsewhere or the link fails
        o = os.path.join(out, os.path.basename(s).rsplit(".", 1)[0] + ".o")
        objs.append(o)
        jobs.append((s, o, sut))
    # sources the tree has gained (code moved into a new file) are linked in where they compile
    optional = set()
    for s in sorted(glob.glob(os.path.join(REPO, "curves/src/*.cpp"))):
        if os.path.basename(s) not in BASE_SOURCES:
            optional.add(s)
            jobs.append((s, os.path.join(out, "extra-" + os.path.basename(s)[:-4] + ".o"), sut))
    with ThreadPoolExecutor(8) as ex:
        for (src, obj, _), (_, rc, err) in zip(jobs, ex.map(compile_one, jobs)):
            if src in optional:
                objs += [] if rc else [obj]
            elif rc:
                die("compiling %s failed:\n%s" % (src, err[-3000:]))
    if not os.path.exists(coreobj):
        os.rename(jobs[0][1], coreobj)
    r = subprocess.run([CXX, "-rdynamic", "-o", exe + ".tmp"] + objs + [coreobj] + LIBS, capture_output=True, text=True)
    if r.returncode:
        die("linking %s failed:\n%s" % (pid, r.stderr[-3000:]))
    os.rename(exe + ".tmp", exe)
    return exe


# ------------------------------------------------------------------ replaying
def replay_text(exe, text, tmp):
    f = os.path.join(tmp, "try.plan")
    with open(f, "w") as fh:
        fh.write(text)
    return replay(exe, f)


def replay(exe, path, timeout=150):
    """-> (violated, hash, class, message)"""
    try:
        r = subprocess.run([exe, "replay", path], capture_output=True, text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        return (False, "", "timeout", "")
    m = re.findall(r"^(VIOLATED|HELD) ([0-9a-f]+) (\S+) \| (.*)$", r.stdout, re.M)
    if not m:
        return (False, "", "no-result", r.stderr[-200:])
    v, h, c, msg = m[-1]
    return (v == "VIOLATED", h, c, msg)


def minimise(exe, text, cls, tmp, budget):
    """Delta debugging over operations/faults, then over scheduling decisions."""
    t0 = time.time()
    head = [l for l in text.splitlines() if l.split(" ", 1)[0] in ("scenario", "seed", "param")]
    ops = [l for l in text.splitlines() if l.startswith("op ")]
    sched = [l for l in text.splitlines() if l.startswith("sched ")]
    tries = [0]

    def bad(o, s):
        tries[0] += 1
        v, _, c, _ = replay_text(exe, "\n".join(head + o + s) + "\n", tmp)
        return v and c == cls

    def ddmin(items, test):
        n = 2
        while len(items) >= 1 and time.time() - t0 < budget:
            chunk = max(1, len(items) // n)
            reduced = False
            i = 0
            while i < len(items) and time.time() - t0 < budget:
                cand = items[:i] + items[i + chunk:]
                if test(cand):
                    items = cand
                    reduced = True
                else:
                    i += chunk
            if not reduced:
                if chunk == 1:
                    break
                n = min(len(items), n * 2)
            else:
                n = max(2, n - 1)
        return items

    for _ in range(3):
        before = (len(ops), len(sched))
        if sched and bad(ops, []):
            sched = []
        ops = ddmin(ops, lambda o: bad(o, sched))
        sched = ddmin(sched, lambda s: bad(ops, s))
        if (len(ops), len(sched)) == before or time.time() - t0 > budget:
            break
    # arguments: drop trailing pairs of list-valued operations
    for i in range(len(ops)):
        while time.time() - t0 < budget:
            w = ops[i].split(" ")
            if len(w) <= 6:
                break
            cand = ops[:i] + [" ".join(w[:-2])] + ops[i + 1:]
            if not bad(cand, sched):
                break
            ops = cand
    return "\n".join(head + ops + sched) + "\n", tries[0]


# ------------------------------------------------------------- known findings
def known_findings(pid):
    """lines 'known: property=<id> class=<cls> match=<regex> :: <what fails>'"""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) class=(\S+) match=(.*?) :: (.*)$", l.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return out


def main():
    if sys.argv[1:2] == ["--setup"]:
        os.makedirs(BUILD, exist_ok=True)
        first, *rest = sorted(SCENARIOS)
        build(first)  # and the simulator core, which all share
        with ThreadPoolExecutor(6) as ex:
            for pid, _ in zip(rest, ex.map(build, rest)):
                print("built", pid, flush=True)
        return 0
    pid = sys.argv[1]
    if pid not in SCENARIOS:
        die("unknown property " + pid)
    os.makedirs(BUILD, exist_ok=True)
    t_start = time.time()
    exe = build(pid)
    if len(sys.argv) > 3 and sys.argv[2] in ("--replay", "--explain"):
        if sys.argv[2] == "--explain":
            subprocess.run([exe, "explain", sys.argv[3]])
        v, h, c, msg = replay(exe, sys.argv[3])
        print("%s property=%s class=%s hash=%s %s" % ("REPRODUCED" if v else "HELD", pid, c, h, msg))
        return 1 if v else 0
    t_built = time.time()
    sc = SCENARIOS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        vseed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        vseed = 1
    tnum = "1" if tier == "thorough" else "0"
    base = (vseed & 0xffffffff) * 1000003007 + 1
    ncpu = max(1, min(8, len(os.sched_getaffinity(0))))
    count = int(os.environ.get("VERIF_RUNS", sc["thorough_runs" if tier == "thorough" else "quick_runs"]))
    wall = float(os.environ.get("VERIF_WALL", 780 if tier == "thorough" else 90))

    tmp = tempfile.mkdtemp(prefix="curves-sim-")
    try:
        return search(pid, sc, exe, tier, vseed, tnum, base, ncpu, count, wall, tmp, t_start, t_built)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run_hashes(exe, base, n, tnum):
    r = subprocess.run([exe, "hashes", str(base), str(n), tnum], capture_output=True, text=True, timeout=300)
    return r.stdout


def search(pid, sc, exe, tier, vseed, tnum, base, ncpu, count, wall, tmp, t_start, t_built):
    # determinism self-test: the same seeds in two fresh processes
    nd = 48
    with ThreadPoolExecutor(2) as ex:
        a, b = list(ex.map(lambda _: run_hashes(exe, base, nd, tnum), range(2)))
    deterministic = a == b and a.count("\n") == nd
    if not deterministic:
        print("warning: repeated seeds did not give identical executions", flush=True)

    procs = []
    for k in range(ncpu):
        procs.append(subprocess.Popen([exe, "worker", str(base), str(count), str(ncpu), str(k), tnum, tmp, str(wall), "4"],
                                      stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace"))
    errs = []
    for k, p in enumerate(procs):
        _, e = p.communicate()
        if p.returncode:
            errs.append("worker %d ended with %d: %s" % (k, p.returncode, e[-500:]))
    if errs:
        die("; ".join(errs))
    tot, probes, faults, samples = {}, {}, {}, []
    timed_out = False
    for k in range(ncpu):
        d = json.load(open(os.path.join(tmp, "summary-%d.json" % k)))
        timed_out |= d["timed_out"]
        for kk, v in d.items():
            if kk == "probes":
                for n, c in v.items():
                    probes[n] = probes.get(n, 0) + c
            elif kk == "faults":
                for n, c in v.items():
                    faults[n] = faults.get(n, 0) + c
            elif kk == "samples":
                samples += v
            elif kk == "max_steps":
                tot[kk] = max(tot.get(kk, 0), v)
            elif kk != "timed_out":
                tot[kk] = tot.get(kk, 0) + v

    def distinct(kind):
        r = subprocess.run([exe, "distinct"] + sorted(glob.glob(os.path.join(tmp, kind + "-*.bin"))), capture_output=True, text=True)
        return int(r.stdout.strip() or 0)

    n_states, n_inter, n_evs = distinct("states"), distinct("inter"), distinct("evs")
    t_search = time.time() - t_built

    # violations
    viols = {}
    for f in sorted(glob.glob(os.path.join(tmp, "viol-*.plan")), key=lambda f: (os.path.getsize(f), f)):
        text = open(f).read()
        m = re.search(r"^# class (\S+)\n# (.*)$", text, re.M)
        if m:
            viols.setdefault(m.group(1), []).append((f, text, m.group(2)))
    known = known_findings(pid)
    reported, known_hits, unstable = [], {}, []
    for cls in sorted(viols):
        todo = []
        for v in viols[cls]:
            for kc, kre, kwhat in known:
                if kc == cls and kre.search(v[2]):
                    known_hits[kwhat] = known_hits.get(kwhat, 0) + 1
                    break
            else:
                todo.append(v)
        if not todo:
            continue
        done = False
        # exact repetition first; failing that (the tree itself reads something that
        # varies), the same kind of violation in both replays
        for exact, (f, text, msg) in [(True, v) for v in todo[:6]] + [(False, v) for v in todo[:6]]:
            r1, r2 = replay(exe, f), replay(exe, f)
            if r1[0] and r2[0] and r1[2] == r2[2] == cls and (r1 == r2 or not exact):
                mtext, tries = minimise(exe, text, cls, tmp, 40 if tier == "quick" else 120)
                r3, r4 = replay_text(exe, mtext, tmp), replay_text(exe, mtext, tmp)
                if not (r3[0] and r3 == r4 and r3[2] == cls):
                    mtext, r3 = "\n".join(l for l in text.splitlines() if not l.startswith("#")) + "\n", r1
                if any(kc == cls and kre.search(r3[3]) for kc, kre, _ in known) and not any(kc == cls and kre.search(msg) for kc, kre, _ in known):
                    # minimisation slid into a listed finding: report the original
                    mtext, r3 = "\n".join(l for l in text.splitlines() if not l.startswith("#")) + "\n", r1
                os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
                seed = re.search(r"^seed (\d+)", text, re.M).group(1)
                path = os.path.join(HERE, "replays", "%s-%s-%s.plan" % (pid, re.sub(r"\W+", "_", cls), seed))
                with open(path, "w") as fh:
                    fh.write(mtext)
                    fh.write("# class %s\n# %s\n# hash %s\n# replay: python3 check.py %s --replay %s\n" % (cls, r3[3], r3[1], pid, path))
                nops = mtext.count("\nop ")
                ns = mtext.count("\nsched ")
                reported.append({"class": cls, "seed": int(seed), "message": r3[3], "replay": path, "ops": nops, "switches": ns,
                                 "original_ops": text.count("\nop "), "original_switches": text.count("\nsched "), "minimise_replays": tries, "hash": r3[1], "repeats_exactly": r1 == r2})
                done = True
                break
        if not done:
            unstable.append(cls)

    ev = {
        "property": pid, "tier": tier, "seed": vseed, "level": sc.get("level", "exploration"),
        "coverage": {
            "evaluations": tot.get("runs", 0),
            "distinct_nontrivial": n_evs,
            "rule": "one evaluation is one simulated run: the seed determines operations, faults and schedule. Distinct: different hash of the run's full event log "
                    "(operations performed, observed results, faults fired, scheduling decisions); runs that perform no operation share one hash. " + sc["rule"],
            "samples": samples[:2],
            "runs_per_hour": int(3600 * tot.get("runs", 0) / max(1e-6, t_search)),
            "seeds": {"first": base, "requested": count, "run": tot.get("runs", 0), "stopped_by_wall_limit": timed_out},
            "simulated_time_s": tot.get("sim_seconds", 0),
            "simulated_time_note": sc.get("time_note", "sum of the clock advances and stalls delivered to the code"),
            "operations": tot.get("ops", 0),
            "instrumented_steps": tot.get("steps", 0),
            "longest_run_steps": tot.get("max_steps", 0),
            "context_switches": tot.get("switches", 0),
            "shared_memory_accesses": tot.get("shared_accesses", 0),
            "simulated_syscalls": tot.get("fs_calls", 0),
            "simulated_allocations": tot.get("allocations", 0),
            "faults_injected": faults,
            "runs_with_faults": tot.get("fault_runs", 0),
            "distinct_interleavings": n_inter,
            "distinct_interleavings_measure": "hash of the sequence (thread, step, next thread) of context switches of a run",
            "distinct_states": n_states,
            "distinct_states_measure": sc["states"],
            "reach_probes": probes,
            "real_code": sc["real"],
            "stubbed": sc["stub"],
            "determinism_selftest": {"seeds": nd, "processes": 2, "identical": deterministic},
            "build_s": round(t_built - t_start, 2),
            "search_s": round(t_search, 2),
            "violations_reported": reported,
            "known_findings_seen": known_hits,
        },
        "assumptions": sc["assumptions"],
        "wall_s": round(time.time() - t_start, 2),
        "violations": len(reported),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print("%s: %d runs, %d distinct, %d interleavings, %d states, faults %s, %.1f s" %
          (pid, tot.get("runs", 0), n_evs, n_inter, n_states, sum(faults.values()), time.time() - t_start))
    for _, _, what in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    for v in reported:
        print("  class %s, seed %d: %s (minimised to %d operations, %d switches)" % (v["class"], v["seed"], v["message"], v["ops"], v["switches"]))
        print("VIOLATION property=%s replay=%s" % (pid, v["replay"]), flush=True)
    if reported:
        return 1
    if unstable:
        die("violations of class %s did not replay identically" % ", ".join(unstable))
    if tot.get("runs", 0) < min(count, 200):
        die("only %d runs were possible" % tot.get("runs", 0))
    missing = [p for p in sc.get("must_reach", []) if not probes.get(p) and not faults.get(p)]
    if missing:
        print("note: not reached in this run: " + ", ".join(missing))
    if not deterministic:
        die("repeated seeds did not give identical executions")
    return 0


if __name__ == "__main__":
    sys.exit(main())
