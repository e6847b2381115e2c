#!/usr/bin/env python3
"""Decides one property by seeded simulation: check.py PROPERTY [quick|thorough]"""
import fcntl, glob, hashlib, json, os, re, shutil, struct, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sim"))
import build as B
from props import PROPS, COMPONENTS

def die(msg):
    print("ERROR " + msg)
    sys.exit(2)

def known_entries(prop):
    r = []
    p = os.path.join(HERE, "known-findings.json")
    if os.path.exists(p):
        for e in json.load(open(p)):
            if e["property"] == prop and e["status"] == "known":
                r.append(e)
    return r

def replay(exe, path, log=False):
    p = subprocess.run([exe, "replay", path] + (["--log", "1"] if log else []), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors="replace", timeout=120)
    m = re.search(r"violated=(\d) cls=(\S*) hash=(\w+)", p.stdout)
    return p.returncode, (m.groups() if m else None), p.stdout

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if prop not in PROPS:
        die("unknown property " + prop)
    P = PROPS[prop]
    t0 = time.time()
    os.makedirs(B.OUT, exist_ok=True)
    lock = open(os.path.join(B.OUT, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    exe = B.build()
    fcntl.flock(lock, fcntl.LOCK_UN)
    tb = time.time() - t0
    nw = min(8, os.cpu_count() or 1)
    limit = float(os.environ.get("VERIF_TIME", P.get(tier + "_s", {"quick": 40, "thorough": 600}[tier])))
    work = os.path.join(B.OUT, "run-" + prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    scen = ",".join("%s=%g" % kv for kv in P["scenarios"].items())
    base = seed * 1000003 + int(hashlib.sha256(prop.encode()).hexdigest()[:8], 16)
    ps = []
    for i in range(nw):
        ps.append(subprocess.Popen([exe, "search", "--scenarios", scen, "--seed", str(base), "--first", str(i),
                                    "--stride", str(nw), "--time", str(limit), "--out", "%s/w%d" % (work, i)],
                                   stdout=open("%s/w%d.log" % (work, i), "w"), stderr=subprocess.STDOUT))
    # known findings are replayed while the search runs
    for e in known_entries(prop):
        rc, v, out = replay(exe, os.path.join(HERE, e["replay"]))
        if v and v[0] == "1" and v[1] == e["cls"]:
            print("KNOWN-FINDING: property=%s %s" % (prop, e["what"]))
        else:
            print("note: known finding %s does not reproduce any more" % e["id"])
    for p in ps:
        p.wait()
    tot = {}
    faults, per, samples, sigs, errs, viol = {}, {}, [], set(), [], []
    for i, p in enumerate(ps):
        f = "%s/w%d" % (work, i)
        if p.returncode != 0:
            errs.append("worker %d ended with %d: %s" % (i, p.returncode, open(f + ".log").read()[-300:]))
            continue
        j = json.load(open(f, errors="replace"))
        for k in ("runs", "steps", "switches", "nontrivial", "aborted", "committed", "attempts", "recoveries",
                  "irrevocable", "suspensions", "sim_s", "rechecked", "fault_runs"):
            tot[k] = tot.get(k, 0) + j[k]
        for k, v in j["faults"].items():
            faults[k] = faults.get(k, 0) + v
        for k, v in j["scenarios"].items():
            per[k] = per.get(k, 0) + v
        samples += j["samples"][:1]
        b = open(f + ".sigs", "rb").read()
        sigs.update(struct.unpack("%dQ" % (len(b) // 8), b))
        if j["error"]:
            errs.append("worker %d: %s" % (i, j["error"]))
        if j["violated"]:
            viol.append((f + ".replay", j["cls"], j["what"]))
    search_s = limit
    # gate and minimise
    found = []
    seen = set()
    for path, cls, what in viol:
        if cls in seen and len(found) >= 1:
            continue
        rc, v, out = replay(exe, path)
        rc2, v2, out2 = replay(exe, path)
        if rc != 1 or rc2 != 1 or v != v2:
            errs.append("violation %s (%s) is not reproduced by a fresh process" % (cls, what[:200]))
            continue
        mini = path + ".min"
        try:
            subprocess.run([exe, "minimise", path, mini, "--time", "20"], stdout=subprocess.DEVNULL,
                           stderr=subprocess.DEVNULL, timeout=120)
            rc, v, out = replay(exe, mini)
        except (subprocess.TimeoutExpired, OSError):
            rc = -1
        if rc != 1:
            mini = path
        os.makedirs(os.path.join(B.OUT, "replays"), exist_ok=True)
        dst = os.path.join(B.OUT, "replays", "%s-%s-%s.replay" % (prop, re.sub(r"\W+", "_", cls), v[2][:8] if v else "x"))
        shutil.copy(mini, dst)
        rc, v, out = replay(exe, dst, True)
        seen.add(cls)
        found.append((dst, cls, out))
        if len(found) >= 2:
            break
    wall = time.time() - t0
    runs = tot.get("runs", 0)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(sigs),
            "rule": "One evaluation is one simulated execution of picotm from a fresh process image, made from one seed: "
                    "the seed generates the workload, the scheduling policy, every preemption and every fault. "
                    "Non-trivial: " + P.get("nontrivial", "at least two transactions committed and threads were interleaved "
                    "(more context switches than twice the number of threads)") + ". Distinct: different signature of the "
                    "order in which threads performed atomic operations and lock operations, counted per scenario.",
            "samples": samples[:8] or ["no sample"],
            "seeds": runs,
            "runs_per_hour": int(runs / max(search_s, 0.001) * 3600),
            "nontrivial_runs": tot.get("nontrivial", 0),
            "runs_per_scenario": per,
            "simulated_steps": tot.get("steps", 0),
            "simulated_seconds": round(tot.get("sim_s", 0), 3),
            "context_switches": tot.get("switches", 0),
            "faults_injected": faults,
            "runs_with_faults": tot.get("fault_runs", 0),
            "transactions_committed": tot.get("committed", 0),
            "attempts": tot.get("attempts", 0),
            "recovery_phases": tot.get("recoveries", 0),
            "irrevocable_attempts": tot.get("irrevocable", 0),
            "suspensions_on_locks": tot.get("suspensions", 0),
            "runs_ended_by_documented_non_recoverable_errors": tot.get("aborted", 0),
            "explicit_replays_compared": tot.get("rechecked", 0),
            "workers": nw,
            "search_seconds": search_s,
            "components": dict(COMPONENTS, exercised=P["components"]),
        },
        "assumptions": P.get("assumptions", []) + [
            "sequentially consistent memory: weak-memory reorderings are not simulated",
            "preemption is possible at every memory access and library call of picotm, not between two machine "
            "instructions of one access"],
        "wall_s": round(wall, 2),
        "build_s": round(tb, 2),
        "violations": [{"replay": d, "class": c} for d, c, o in found],
        "errors": errs,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(work, ignore_errors=True)
    print("%s %s: %d runs, %d distinct interleavings, %.0f simulated s, faults %s, %.1f s" %
          (prop, tier, runs, len(sigs), tot.get("sim_s", 0), {k: v for k, v in faults.items() if v}, wall))
    for d, c, o in found:
        print("\n".join(o.strip().splitlines()[-40:]))
        print("VIOLATION property=%s replay=%s" % (prop, d))
    if found:
        sys.exit(1)
    if errs:
        die("; ".join(errs))
    if not runs:
        die("no runs")

if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException as e:
        import traceback
        traceback.print_exc()
        die("internal error: %r" % (e,))
