#!/usr/bin/env python3
"""Builds the simulator from /repo's current working tree and /verif/sim.

Objects are cached in /verif/build/cache by the hash of everything they were compiled from
(source, every header read, flags), so an unchanged file is never recompiled and a changed one
always is, whatever the time stamps say."""
import hashlib, os, subprocess, sys, json, concurrent.futures, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))
SIM = os.path.join(VERIF, "sim")
CXX = "g++"
COMMON = ["-std=c++17", "-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address", "-U_FORTIFY_SOURCE",
          "-D_GLIBCXX_ASSERTIONS", "-DVMIME_STATIC", "-DDEBUG", "-D_REENTRANT=1", "-fno-builtin-time", "-pthread",
          "-D_GNU_SOURCE"]
VM_FLAGS = COMMON + ["-w", "-fsanitize-coverage=trace-pc"]
SIM_FLAGS = COMMON + ["-Wall", "-Wno-misleading-indentation", "-Wno-unused-result"]
EXCL = ("windows/", "openssl/", "charsetConverter_iconv", "charsetConverter_win", "charsetConverter_idna_none")

_hash = {}
def fhash(p):
    if p not in _hash:
        try:
            with open(p, "rb") as f: _hash[p] = hashlib.sha256(f.read()).hexdigest()
        except OSError: _hash[p] = None
    return _hash[p]

def key_of(src, flags, deps):
    h = hashlib.sha256()
    h.update(json.dumps([src, flags]).encode())
    for d in deps:
        x = fhash(d)
        if x is None: return None
        h.update(x.encode())
    return h.hexdigest()

def parse_deps(path):
    with open(path) as f: t = f.read().replace("\\\n", " ")
    return sorted(x for x in t.split(":", 1)[1].split() if not x.startswith("/usr/"))

def compile_one(job):
    src, flags, incs = job
    cache = os.path.join(BUILD, "cache")
    name = hashlib.sha256(src.encode()).hexdigest()[:24]
    man = os.path.join(cache, name + ".json")
    try:
        with open(man) as f: entries = json.load(f)
    except Exception: entries = []
    for e in entries:
        if e["key"] == key_of(src, flags, e["deps"]) and os.path.exists(os.path.join(cache, e["obj"])):
            return os.path.join(cache, e["obj"]), False, ""
    tmp = os.path.join(cache, "%s.%d.tmp.o" % (name, os.getpid()))
    dep = tmp + ".d"
    r = subprocess.run([CXX, "-c", src, "-o", tmp, "-MMD", "-MF", dep] + flags + incs, capture_output=True, text=True)
    if r.returncode != 0:
        return None, True, "%s\n%s" % (src, r.stderr[-3000:])
    deps = parse_deps(dep)
    os.unlink(dep)
    key = key_of(src, flags, deps)
    obj = name + "." + key[:24] + ".o"
    os.replace(tmp, os.path.join(cache, obj))
    entries = [e for e in entries if e["key"] != key][-7:] + [{"key": key, "deps": deps, "obj": obj}]
    with open(man + ".tmp%d" % os.getpid(), "w") as f: json.dump(entries, f)
    os.replace(man + ".tmp%d" % os.getpid(), man)
    return os.path.join(cache, obj), True, r.stderr

def wraps():
    out = []
    for fn in ("wraps.txt",):
        with open(os.path.join(SIM, fn)) as f:
            for l in f:
                l = l.split("#")[0].strip()
                if l: out += l.split()
    return out

def main():
    os.makedirs(os.path.join(BUILD, "cache"), exist_ok=True)
    t0 = time.time()
    jobs = []
    for root, _, files in os.walk(os.path.join(REPO, "src")):
        for f in sorted(files):
            p = os.path.join(root, f)
            if f.endswith(".cpp") and not any(x in p for x in EXCL):
                jobs.append((p, VM_FLAGS, ["-I" + SIM + "/gen", "-I" + REPO + "/src", "-I" + REPO]))
    nvm = len(jobs)
    for f in sorted(os.listdir(SIM)):
        if f.endswith(".cpp"):
            jobs.append((os.path.join(SIM, f), SIM_FLAGS, ["-I" + SIM + "/gen", "-I" + REPO + "/src", "-I" + SIM]))
    # biggest first
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    objs, ncomp, errs = [], 0, []
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("SIM_JOBS", os.cpu_count() or 8))) as ex:
        for obj, did, msg in ex.map(compile_one, jobs):
            ncomp += did
            if obj is None: errs.append(msg)
            else:
                objs.append(obj)
                if msg and os.environ.get("SIM_WARN"): print(msg, file=sys.stderr)
    if errs:
        print("BUILD FAILED", file=sys.stderr)
        for e in errs[:3]: print(e, file=sys.stderr)
        return 2
    objs.sort()
    out = os.path.join(BUILD, "sim")
    stamp = hashlib.sha256(("\n".join(objs) + "|".join(wraps()) + (fhash(__file__) or "")).encode()).hexdigest()
    try:
        if os.path.exists(out) and open(out + ".stamp").read() == stamp:
            print("build: up to date (%d objects, %.1fs)" % (len(objs), time.time() - t0)); return 0
    except OSError: pass
    rsp = os.path.join(BUILD, "link.rsp")
    with open(rsp, "w") as f:
        f.write("\n".join(objs) + "\n" + "\n".join("-Wl,--wrap=" + w for w in wraps()) + "\n")
    tmpo = out + ".%d.tmp" % os.getpid()
    r = subprocess.run([CXX, "-fsanitize=address", "-rdynamic", "-pthread", "-o", tmpo, "@" + rsp, "-lgnutls", "-lgsasl", "-licuuc", "-licudata", "-licui18n", "-lidn2", "-lanl"], capture_output=True, text=True)
    if r.returncode != 0 and "cannot find -lidn2" in r.stderr:
        r = subprocess.run([CXX, "-fsanitize=address", "-rdynamic", "-pthread", "-o", tmpo, "@" + rsp, "-lgnutls", "-lgsasl", "-licuuc", "-licudata", "-licui18n", "-lanl"], capture_output=True, text=True)
    if r.returncode != 0:
        print("LINK FAILED\n" + r.stderr[-4000:], file=sys.stderr)
        return 2
    os.replace(tmpo, out)
    with open(out + ".stamp", "w") as f: f.write(stamp)
    print("build: %d compiled of %d (%d vmime), %.1fs" % (ncomp, len(objs), nvm, time.time() - t0))
    return 0

if __name__ == "__main__":
    sys.exit(main())
