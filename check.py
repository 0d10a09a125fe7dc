#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]      decide one property on /repo's working tree
   check.py replay FILE [--trace]                 replay a recorded violation
   check.py setup                                 build everything"""
import array, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(HERE, "build")
WORKERS = max(2, min(8, os.cpu_count() or 2))
sys.path.insert(0, HERE)
from props import PROPS, COMMON_ASSUMPTIONS  # noqa: E402


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build(targets):
    env = dict(os.environ, CC="/usr/bin/gcc", CXX="/usr/bin/g++")
    r = sh(["cmake", "-S", os.path.join(HERE, "sim"), "-B", BUILD, "-G", "Ninja", "-DR=" + REPO], env=env)
    if r.returncode == 0:
        r = sh(["ninja", "-C", BUILD, "-j%d" % WORKERS] + targets, env=env)
    if r.returncode != 0:
        print(r.stdout[-6000:])
        print("the simulator does not build against the current tree of /repo")
        sys.exit(2)


def replay(exe, tape, extra=()):
    r = subprocess.run([os.path.join(BUILD, exe), "--replay", tape, *extra], stdout=subprocess.PIPE, stderr=None, text=True)
    try:
        return json.loads(r.stdout.strip().splitlines()[-1])
    except (ValueError, IndexError):
        return {"kind": -1, "class": "no-report", "message": r.stdout[-300:], "hash": ""}


def run_world(exe, world, base, secs, timeout, tmp, known_ids):
    """All workers on one world. Returns (merged statistics, confirmed violation or None)."""
    procs = []
    m = {"world": world, "runs": 0, "nontrivial": 0, "steps": 0, "switches": 0, "runs_with_switches": 0, "sim_seconds": 0.0,
         "choices": 0, "rechecked": 0, "nondeterministic": 0, "counters": {}, "samples": [], "known": {}, "unconfirmed": 0}
    deadline = time.time() + secs
    traces, scheds = set(), set()

    def start(w, frm, left):
        out = os.path.join(tmp, "%s.%d.json" % (world, w))
        vio = os.path.join(tmp, "%s.%d.tape" % (world, w))
        hs = os.path.join(tmp, "%s.%d.hashes" % (world, w))
        for f in (out, vio, hs):
            if os.path.exists(f):
                os.unlink(f)
        p = subprocess.Popen([os.path.join(BUILD, exe), "--world", world, "--from", str(frm), "--to", str(base + 10**9),
                              "--stride", str(WORKERS), "--time", "%.2f" % left, "--timeout", str(timeout), "--out", out,
                              "--violation", vio, "--hashes", hs], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
        return [p, w, out, vio, hs]

    for w in range(WORKERS):
        procs.append(start(w, base + w, secs))
    found = None
    while procs:
        time.sleep(0.05)
        for e in list(procs):
            p, w, out, vio, hs = e
            if found or p.poll() is None:
                continue
            procs.remove(e)
            err = p.stderr.read()
            if err.strip():
                sys.stderr.write(err[-2000:])
            if not os.path.exists(out):
                print("worker of world %s ended without a report: %s" % (world, err[-500:]))
                sys.exit(2)
            d = json.load(open(out))
            for k in ("runs", "nontrivial", "steps", "switches", "runs_with_switches", "sim_seconds", "choices", "rechecked", "nondeterministic"):
                m[k] += d[k]
            for k, v in d["counters"].items():
                m["counters"][k] = m["counters"].get(k, 0) + v
            m["known"].update(d["known"])
            if len(m["samples"]) < 3:
                m["samples"] += d["samples"][:1]
            a = array.array("Q")
            with open(hs, "rb") as f:
                a.frombytes(f.read())
            z = a.index(0)
            traces.update(a[:z])
            scheds.update(a[z + 1:])
            v = d["violation"]
            if v and not found:
                # a violation counts when two fresh processes reproduce it exactly from its recorded decisions
                r1, r2 = replay(exe, vio), replay(exe, vio)
                if r1["kind"] == 1 and r1["class"] == v["class"] and r2["class"] == r1["class"] and r1["hash"] == r2["hash"]:
                    keep = os.path.join(tmp, "found.tape")
                    shutil.copy(vio, keep)
                    found = dict(v, tape=keep, exe=exe, world=world)
                    for q in procs:
                        q[0].kill()
                else:
                    m["unconfirmed"] += 1
                    print("unconfirmed (not reported): world %s seed %s class %s: replay gives %s" % (world, v["seed"], v["class"], r1["class"]))
                    left = deadline - time.time()
                    if left > 1:
                        procs.append(start(w, d["last_seed"] + WORKERS, left))
        if found:
            for q in procs:
                q[0].wait()
                q[0].stderr.close()
            break
    m["distinct_traces"] = len(traces)
    m["distinct_schedules"] = len(scheds)
    return m, found


def minimise(found, prop):
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    dst = os.path.join(HERE, "replays", "%s-%s-%s.tape" % (prop, found["world"], found["seed"]))
    exe = os.path.join(BUILD, found["exe"])
    small = found["tape"] + ".min"
    subprocess.run([exe, "--shrink", found["tape"], "--out", small, "--budget", "40", "--timeout", "20"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    use = found["tape"]
    if os.path.exists(small):
        r1, r2 = replay(found["exe"], small), replay(found["exe"], small)
        if r1["kind"] == 1 and r1["class"] == found["class"] and r1["hash"] == r2["hash"]:
            use = small
    shutil.copy(use, dst)
    return dst, replay(found["exe"], dst)


def check(prop, tier):
    t0 = time.time()
    P = PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    known = [k for k in json.load(open(os.path.join(HERE, "known_findings.json")))["findings"] if k["property"] == prop]
    known_ids = {k["id"] for k in known}
    build(sorted({w[0] for w in P["worlds"]}))
    t_build = time.time() - t0
    total = P.get(tier, {"quick": 24, "thorough": 600}[tier])
    weights = sum(w[2] for w in P["worlds"])
    stats, found, seen_known = [], None, {}
    with tempfile.TemporaryDirectory(prefix="sim-", dir="/var/tmp") as tmp:
        t1 = time.time()
        for exe, world, weight in P["worlds"]:
            m, found = run_world(exe, world, seed * 10**10 + 1, total * weight / weights, P.get("timeout", 60), tmp, known_ids)
            stats.append(m)
            seen_known.update(m["known"])
            if found:
                break
        t_run = time.time() - t1
        rep = None
        if found:
            rep, r = minimise(found, prop)
    violations = 0
    for k, msg in sorted(seen_known.items()):
        if k not in known_ids:
            violations += 1
            print("a finding that is not listed: %s %s" % (k, msg))
    for k in known:
        print("KNOWN-FINDING: property=%s %s%s" % (prop, k["what"], "" if k["id"] in seen_known else " (not met in this run)"))
    if found:
        violations += 1
        print("class %s: %s" % (r["class"], r["message"]))
        print("seed %s; the minimised replay has %s decisions" % (found["seed"], r.get("choices")))
        print("VIOLATION property=%s replay=%s" % (prop, rep))
    elif violations:
        print("VIOLATION property=%s replay=-" % prop)
    counters = {}
    for m in stats:
        for k, v in m["counters"].items():
            counters[k] = counters.get(k, 0) + v
    runs = sum(m["runs"] for m in stats)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": P.get("level", "exploration"),
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": sum(m["distinct_traces"] for m in stats),
            "rule": P["rule"] + " One run is one seed; two runs are the same when the hash over every decision and every observation of the run is the same.",
            "samples": [s for m in stats for s in m["samples"]],
            "runs_per_hour": int(runs / max(t_run, 1e-3) * 3600),
            "simulated_seconds": round(sum(m["sim_seconds"] for m in stats), 3),
            "simulated_steps": sum(m["steps"] for m in stats),
            "context_switches": sum(m["switches"] for m in stats),
            "distinct_schedules": sum(m["distinct_schedules"] for m in stats),
            "runs_repeated_for_determinism": sum(m["rechecked"] for m in stats),
            "runs_not_reproducible": sum(m["nondeterministic"] for m in stats),
            "unconfirmed_reports": sum(m["unconfirmed"] for m in stats),
            "faults_injected": {k[6:]: v for k, v in sorted(counters.items()) if k.startswith("fault.")},
            "reached": {k: v for k, v in sorted(counters.items()) if not k.startswith("fault.")},
            "per_world": [{k: m[k] for k in ("world", "runs", "nontrivial", "distinct_traces", "distinct_schedules", "steps", "switches")} for m in stats],
            "real_code": P["real"], "stubs": P["stubs"],
            "build_s": round(t_build, 2),
        },
        "assumptions": COMMON_ASSUMPTIONS + P.get("assumptions", []),
        "wall_s": round(time.time() - t0, 3),
        "violations": violations,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    c = ev["coverage"]
    print("%s %s: %d runs (%d distinct non-trivial, %d schedules), %d steps, %d switches, faults %s, build %.1f s, total %.1f s" % (
        prop, tier, runs, c["distinct_nontrivial"], c["distinct_schedules"], c["simulated_steps"], c["context_switches"],
        c["faults_injected"], t_build, time.time() - t0))
    if c["runs_not_reproducible"]:
        print("note: %d of %d repeated runs differed" % (c["runs_not_reproducible"], c["runs_repeated_for_determinism"]))
    return 1 if violations else 0


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "setup":
        build(sorted({w[0] for p in PROPS.values() for w in p["worlds"]}))
        return 0
    if sys.argv[1] == "replay":
        world = re.search(r"^world (\S+)", open(sys.argv[2]).read(), re.M).group(1)
        exe = [w[0] for p in PROPS.values() for w in p["worlds"] if w[1] == world][0]
        build([exe])
        r = replay(exe, sys.argv[2], sys.argv[3:])
        print(json.dumps(r, indent=1))
        return 1 if r["kind"] else 0
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    return check(sys.argv[1], tier)


if __name__ == "__main__":
    sys.exit(main())
