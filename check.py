#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Builds the simulator from /repo's working tree, searches seeded runs of the
property's scenarios in each library variant, writes evidence/<id>.json.
exit 0: held in every run; exit 1: VIOLATION line printed; other: no answer.
"""
import json, os, subprocess, sys, time, re
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import build as B
from plan import PLAN, REAL, STUB, MEASURE

def sim(exe, *args, timeout=900):
    return subprocess.run([exe] + [str(a) for a in args], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, errors="replace", timeout=timeout)

def known(prop):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r"finding: property=(\S+) oracle=(\S+) match=/(.*?)/ (.*)", l.strip())
        if m and m.group(1) == prop:
            out.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return out

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    plan = PLAN[prop]
    try:
        bins = B.build(list(plan["variants"]))
    except RuntimeError as e:
        print("build failed: %s" % e)
        return 3
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    tb = time.time() - t0
    stats, viol, rc = [], [], 0
    mult = plan.get("thorough", 40) if tier == "thorough" else 1
    cap = (3000 if tier == "thorough" else 150) / len(plan["variants"])
    for v, runs in plan["variants"].items():
        st = os.path.join(VERIF, "build", "stats-%s-%s-%d.json" % (prop, v, os.getpid()))
        rep = os.path.join(VERIF, "replays", "%s-%s-%d.replay" % (prop, v, seed))
        try:
            r = sim(bins[v], "--prop", prop, "--seed", seed, "--runs", runs * mult, "--time", cap, "--jobs", 8,
                    "--stats", st, "--replay-out", rep, "--minimise", 20 if tier == "quick" else 120, timeout=cap + 400)
        except subprocess.TimeoutExpired:
            print("%s/%s: no answer in time" % (prop, v))
            rc = rc or 2
            continue
        s = json.load(open(st)) if os.path.exists(st) else {}
        if os.path.exists(st):
            os.unlink(st)
        stats.append(s)
        if r.returncode == 1:
            viol.append((v, rep, s.get("violation", "")))
            print("\n".join(l for l in r.stdout.splitlines() if not l.startswith("VIOLATION")))
            break
        elif r.returncode != 0:
            print(r.stdout[-3000:])
            rc = 2
    # the same seeds again, with other worker counts, must give the same histories
    det = []
    if not viol and rc == 0:
        n = min(400 if tier == "quick" else 20000, min(plan["variants"].values()))
        for v in plan["variants"]:
            hs = []
            for jobs in (1, 3, 8):
                st = os.path.join(VERIF, "build", "det-%s-%s-%d.json" % (prop, v, os.getpid()))
                r = sim(bins[v], "--prop", prop, "--seed", seed, "--runs", n, "--time", 300, "--jobs", jobs, "--stats", st)
                d = json.load(open(st)) if os.path.exists(st) else {}
                if os.path.exists(st):
                    os.unlink(st)
                hs.append((d.get("runs"), d.get("all_hash")))
            same = len(set(hs)) == 1
            det.append({"variant": v, "runs": n, "worker_counts": [1, 3, 8], "identical": same})
            if not same:
                print("determinism: %s %s differs between repetitions: %s" % (prop, v, hs))
                rc = 2
    wall = time.time() - t0
    def tot(k):
        return sum(s.get(k, 0) for s in stats)
    faults, probes, scen = {}, {}, {}
    for s in stats:
        for k, (n, rr) in s.get("faults", {}).items():
            a = faults.setdefault(k, {"injected": 0, "in_runs": 0})
            a["injected"] += n
            a["in_runs"] += rr
        for k, n in s.get("probes", {}).items():
            probes[k] = probes.get(k, 0) + n
        for k, n in s.get("scenarios", {}).items():
            scen[k] = scen.get(k, 0) + n
    samples = []
    for s in stats:
        samples += ["[%s] %s" % (s["variant"], x) for x in s.get("samples", [])[:6]]
    sw = sum(s.get("wall_s", 0) for s in stats)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": tot("runs"),
            "distinct_nontrivial": tot("distinct_nontrivial"),
            "rule": MEASURE,
            "samples": samples,
            "runs_discarded": tot("discarded"),
            "nontrivial_runs": tot("nontrivial"),
            "distinct_histories": tot("distinct"),
            "runs_per_hour": int(tot("runs") / sw * 3600) if sw else 0,
            "seeds_per_hour": int(tot("runs") / sw * 3600) if sw else 0,
            "simulated_time_s": round(tot("simtime_s"), 3),
            "simulated_steps": tot("steps"),
            "scheduler_and_fault_choices": tot("choices"),
            "instrumented_memory_accesses": tot("accesses"),
            "faults": faults,
            "rare_conditions_hit": probes,
            "scenarios": scen,
            "variants": {s["variant"]: {"runs": s["runs"], "requested": s["requested"], "wall_s": s["wall_s"]} for s in stats},
            "determinism": det,
            "real_code": REAL, "simulated": STUB,
        },
        "assumptions": plan.get("assumptions", []),
        "violations": [{"variant": v, "replay": rep, "what": what} for v, rep, what in viol],
        "wall_s": round(wall, 2),
    }
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    short = [s["variant"] for s in stats if s["runs"] < s["requested"]]
    print("%s %s seed %d: %d runs (%d distinct) over %s in %.1f s (build %.1f s), %d fault kinds fired%s" %
          (prop, tier, seed, tot("runs"), tot("distinct"), "/".join(plan["variants"]), wall, tb, len(faults),
           ", time limit reached in " + ",".join(short) if short and not viol else ""))
    for o, rx, what in known(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    if viol:
        for v, rep, what in viol:
            print("violated (%s): %s" % (v, what))
            print("VIOLATION property=%s replay=%s" % (prop, rep))
        return 1
    return rc

if __name__ == "__main__":
    sys.exit(main())
