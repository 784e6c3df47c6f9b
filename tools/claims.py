#!/usr/bin/env python3
"""Source of MANIFEST.json (python3 tools/claims.py) and of the descriptive parts of the evidence files."""
import json, os, sys
TECH = "deterministic simulation with fault injection (seeded search over schedules, inputs and faults)"
REAL_NET = ["vmime net/*, platforms/posix socket code, stream filters, message generation and parsing: the sources of /repo, compiled unmodified"]
STUB_NET = ["kernel sockets, poll, name resolution (getaddrinfo_a), clocks and sleeping: simulated, reached through ld --wrap", "mail server: executable reference model in /verif/sim", "randomness: derived from the seed"]
TLS = ["GnuTLS: the installed library, both ends, with simulated time and randomness"]
SASLR = ["GNU SASL: the installed library, both ends"]
FS_STUB = ["kernel file system, directories, pipes, processes: simulated in memory with page cache, fsync and crash semantics, reached through ld --wrap"]
ASSUME = ["the simulated kernel behaves like Linux for the calls used (modelled from the manual pages)", "the search samples the space of runs, it does not exhaust it"]
# property: (rule, real, stub, level note)
C = {}
def c(pid, rule, real, stub, note): C[pid] = (rule, real, stub, note)
def load():
    import runpy
    d = os.path.dirname(os.path.abspath(__file__))
    g = {"c": c, "TLS": TLS, "SASLR": SASLR, "REAL_NET": REAL_NET, "STUB_NET": STUB_NET, "FS_STUB": FS_STUB}
    exec(open(os.path.join(d, "claims_data.py")).read(), g)
    return C, g["NA"]
if __name__ == "__main__":
    C, NA = load()
    m = {"version": 1, "setup_cmd": "python3 sim/build.py", "checks": [], "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
         "notes": "No hooks in /repo: the seams are the system-call boundary (ld --wrap) and vmime's own interfaces. Known findings: known-findings.txt. How it works: DESIGN.md."}
    for k in C:
        m["checks"].append({"property": k, "quick_cmd": f"python3 run.py {k}", "thorough_cmd": f"python3 run.py {k}", "evidence_file": f"evidence/{k}.json",
                            "technique": TECH, "level": "exploration", "level_note": C[k][3]})
    ids = [json.loads(l)["id"] for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"))]
    for i in ids:
        if i not in C and i not in NA: m["not_applicable"].append({"property": i, "reason": "machinery not built yet"})
    json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json"), "w"), indent=1)
    ids = [json.loads(l)["id"] for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"))]
    for i in ids:
        if (i in C) == (i in NA): print("property", i, "claimed" if i in C else "neither claimed nor not applicable", file=sys.stderr)
