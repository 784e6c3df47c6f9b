#!/usr/bin/env python3
"""Which basic blocks of VMime do the simulations reach?  coverage.py [SECS_PER_PROPERTY] [FILE_REGEX]
Runs every property's check for a while with SIM_COV set, then lists, per source file, the lines of the blocks never entered."""
import collections, json, os, re, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
secs = sys.argv[1] if len(sys.argv) > 1 else "10"
pat = sys.argv[2] if len(sys.argv) > 2 else ""
sim = os.path.join(os.environ.get("SIM_BUILD", V + "/build"), "sim")
cov = os.environ.get("SIM_COV") or tempfile.mktemp()
props = [c["property"] if "property" in c else c["property_id"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
if secs != "0":
    for p in props:
        subprocess.run([sim, "check", p, "--seed", "5", "--secs", secs, "--runs", "1000000", "--workers", "8", "--known", V + "/known-findings.txt", "--out", V + "/out", "--stats", "/dev/null"], env=dict(os.environ, SIM_COV=cov))
hit = open(cov, "rb").read()
base = None
for l in subprocess.run(["nm", sim], capture_output=True, text=True).stdout.split("\n"):
    if l.endswith(" __executable_start"): base = int(l.split()[0], 16)
dis = subprocess.Popen(["objdump", "-d", "--no-show-raw-insn", sim], stdout=subprocess.PIPE, text=True)
pcs = []; nxt = False
for l in dis.stdout:
    m = re.match(r"\s+([0-9a-f]+):\t(\S+)\s*(.*)", l)
    if not m: continue
    if nxt: pcs.append(int(m.group(1), 16)); nxt = False
    if m.group(2).startswith(("call", "jmp")) and "__sanitizer_cov_trace_pc>" in m.group(3): nxt = m.group(2).startswith("call")
a = subprocess.run(["addr2line", "-e", sim], input="\n".join(hex(p - 1) for p in pcs), capture_output=True, text=True).stdout.split("\n")
per = collections.defaultdict(lambda: collections.defaultdict(lambda: [0, 0]))
for p, l in zip(pcs, a):
    m = re.match(r"(.*/src/vmime/[^:]+):(\d+)", l)
    if not m: continue
    f = os.path.realpath(m.group(1)).split("/src/vmime/")[1]; e = per[f][int(m.group(2))]; e[0 if hit[p - base] else 1] += 1
T = [0, 0]
for f in sorted(per):
    h = sum(e[0] > 0 for e in per[f].values()); n = len(per[f]); T[0] += h; T[1] += n
    miss = sorted(x for x, e in per[f].items() if not e[0])
    if pat and not re.search(pat, f): continue
    print("%-60s %5d/%-5d %s" % (f, h, n, " ".join(map(str, miss)) if pat else ""))
print("lines with a basic block reached: %d of %d" % tuple(T))
