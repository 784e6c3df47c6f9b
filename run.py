#!/usr/bin/env python3
"""Check of one property: build the simulator from /repo's working tree, search, write the evidence file."""
import json, os, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
import claims
# seconds of search in the quick tier / thorough tier
QUICK = {"default": 20}
THOROUGH = {"default": 700}
def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv: tier = "thorough"
    if tier not in ("quick", "thorough"): tier = "quick"
    try: seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError: seed = 1
    secs = QUICK.get(pid, QUICK["default"]) if tier == "quick" else THOROUGH.get(pid, THOROUGH["default"])
    if os.environ.get("SIM_SECS"): secs = float(os.environ["SIM_SECS"])
    C, NA = claims.load()
    b = subprocess.run([sys.executable, os.path.join(HERE, "sim", "build.py")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if b.returncode != 0:
        print(b.stdout[-4000:]); print("build of the simulator failed"); return 2
    print(b.stdout.strip().split("\n")[-1])
    out = os.path.join(HERE, "out"); os.makedirs(out, exist_ok=True); os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    stats = os.path.join(out, f"{pid}.stats.json")
    if os.path.exists(stats): os.unlink(stats)
    w = min(8, os.cpu_count() or 8)
    r = subprocess.run([os.path.join(HERE, "build", "sim"), "check", pid, "--seed", str(seed), "--runs", "100000000", "--secs", str(secs), "--workers", str(w),
                        "--known", os.path.join(HERE, "known-findings.txt"), "--out", "out", "--stats", stats, "--minsecs", "20" if tier == "quick" else "60"], cwd=HERE)
    if r.returncode not in (0, 1): return 2
    s = json.load(open(stats)); rule, real, stub, note = C[pid]
    faults = {k: {"times": v, "runs": s["runs_with"].get(k, 0)} for k, v in s["counts"].items() if k.startswith("fault.")}
    other = {k: v for k, v in s["counts"].items() if not k.startswith("fault.")}
    h = max(s["search_s"], 1e-3) / 3600
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(time.time() - t0, 2), "violations": s["violations"],
          "assumptions": claims.ASSUME,
          "coverage": {"evaluations": s["runs"], "distinct_nontrivial": s["distinct_nontrivial"], "rule": rule, "samples": [s["sample"]],
                       "runs_per_hour": round(s["runs"] / h), "seeds_per_hour": round(s["runs"] / h), "simulated_seconds": round(s["sim_us"] / 1e6), "simulated_system_calls": s["steps"],
                       "choices_drawn": s["choices"], "distinct_abstract_states": s["states"], "interleaving_measure": "distinct full-trace hashes of non-trivial runs (distinct_nontrivial); distinct (operation, server phase, fault) tuples noted by the scenarios (distinct_abstract_states)",
                       "runs_executed_twice": s["again"], "of_which_differed": s["differ"], "runs_by_scenario": s["scenarios"], "faults_injected": faults, "other_counts": other, "known_findings_seen": s["known"],
                       "real_components": real, "stubbed_components": stub}}
    if s["violations"]: ev["coverage"]["violation"] = {"signature": s["violation_sig"], "replay": s["replay"]}
    json.dump(ev, open(os.path.join(HERE, "evidence", f"{pid}.json"), "w"), indent=1)
    return r.returncode
sys.exit(main())
