#!/usr/bin/env python3
"""Runs the check of one property against /repo's current working tree.

  check.py C05                 tier from $VERIF_TIER (default quick), seed from $VERIF_SEED
  check.py C05 --tier thorough
  check.py C05 --law NAME      only one law (development)
  check.py --replay FILE       re-executes a replay file on the current tree
  check.py --build [ID ...]    only builds

Exit 0: held on everything explored.  Exit 1 + a VIOLATION line: broken.
Anything else: the check could not run (e.g. the tree does not compile).
"""
import argparse, hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
JOBS = 8

SAN = ["-fsanitize=address",
       "-fsanitize=bounds,shift,integer-divide-by-zero,signed-integer-overflow,bool,enum,return,unreachable",
       "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-D_GLIBCXX_SANITIZE_VECTOR=1"]
FLAVOURS = {
    # asserts on, memory and undefined-behaviour sanitizers
    "debug": ["-O1", "-g1"] + SAN,
    # every undefined-behaviour check and libstdc++'s own assertions
    "hardened": ["-O1", "-g1", "-fsanitize=address", "-fsanitize=undefined", "-fno-sanitize=vptr",
                 "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"],
    # the configuration of a release build: asserts off, optimised, no sanitizer
    "release": ["-O2", "-DNDEBUG", "-g0"],
    # data races
    "tsan": ["-O1", "-g1", "-fsanitize=thread"],
}
COMMON = ["-std=c++14", "-w", "-ffp-contract=off", "-I" + HARNESS, "-I" + REPO + "/include", "-DREPO_TREE"]
PART_INC = ["-I" + REPO + "/modules/partition/include"]
SPS_INC = ["-I" + REPO + "/modules/sparsesolver/include", "-I/usr/include/suitesparse"]
PAR_INC = ["-I" + HARNESS + "/standin", "-I" + REPO + "/modules/parlinalgcpp/include"]   # against the stand-in for MPI and Hypre
LIBS = ["-llapack", "-lblas", "-lpthread"]

ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:malloc_fill_byte=255:max_malloc_fill_size=1073741824:"
                    "hard_rss_limit_mb=3500:max_allocation_size_mb=2500:detect_stack_use_after_return=0:"
                    "handle_abort=0:allocator_may_return_null=0:quarantine_size_mb=64",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66",
    "UBSAN_OPTIONS": "print_stacktrace=1",
    "MALLOC_PERTURB_": "1",
    "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "LC_ALL": "C.UTF-8",
}


def load_config():
    """property id -> dict(source=..., modules=[...])"""
    cfg = {}
    for f in sorted(os.listdir(HARNESS)):
        m = re.match(r"(C\d+)_.*\.cpp$", f)
        if m:
            text = open(os.path.join(HARNESS, f)).read()
            mods = re.findall(r"^// modules:(.*)$", text, re.M)
            fl = re.findall(r"^// flavours:(.*)$", text, re.M)
            cfg[m.group(1)] = dict(source=os.path.join(HARNESS, f),
                                   modules=mods[0].split() if mods else [],
                                   flavours=fl[0].split() if fl else ["debug", "release"])
    return cfg


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def tree_files(*roots):
    out = []
    for r in roots:
        for d, _, fs in os.walk(r):
            for f in fs:
                if f.endswith((".hpp", ".h", ".cpp", ".cc", ".hh", ".tpp", ".inl", ".ipp", ".c")):
                    out.append(os.path.join(d, f))
    return sorted(out)


def read(p):
    with open(p, "rb") as f:
        return f.read()


def build(pid, cfg):
    """builds every flavour of the property's harness; returns {flavour: binary}"""
    c = cfg[pid]
    os.makedirs(BUILD, exist_ok=True)
    inc, libs, srcs = [], [], []
    for f in tree_files(REPO + "/src"):
        if f.endswith((".cpp", ".cc", ".c")):
            srcs.append(f)
    if "partition" in c["modules"]:
        inc += PART_INC
        libs += ["-lmetis"]
        psrc = REPO + "/modules/partition/src"
        srcs += [f for f in tree_files(psrc) if f.endswith((".cpp", ".cc"))]
    if "sparsesolver" in c["modules"]:
        inc += SPS_INC
        libs += ["-lumfpack"]
        srcs += [f for f in tree_files(REPO + "/modules/sparsesolver/src") if f.endswith((".cpp", ".cc"))]
    roots = [REPO + "/include", REPO + "/modules/partition/include", REPO + "/modules/sparsesolver/include"]
    par = "parlinalgcpp" in c["modules"]
    if par:
        inc += PAR_INC
        roots += [REPO + "/modules/parlinalgcpp/include", HARNESS + "/standin"]
        srcs += [f for f in tree_files(REPO + "/modules/parlinalgcpp/src") if f.endswith((".cpp", ".cc"))]
    headers = tree_files(*roots)
    hrepo = sha(*[f + "\0" + sha(read(f)) for f in headers])
    hharn = sha(*[f + "\0" + sha(read(f)) for f in tree_files(HARNESS) if f.endswith(".hpp") and (par or "/standin/" not in f)])
    jobs, bins = [], {}
    for fl in c["flavours"]:
        flags = FLAVOURS[fl] + COMMON + inc
        objs = []
        for s in srcs + [c["source"]]:
            mine = s == c["source"]
            extra = hharn if mine else ""
            key = sha(" ".join(flags), s, sha(read(s)), hrepo, extra)
            obj = os.path.join(BUILD, "obj-%s-%s.o" % (os.path.basename(s).replace(".", "_"), key))
            objs.append(obj)
            if not os.path.exists(obj):
                jobs.append((0 if mine else 1, ["g++"] + flags + ["-c", s, "-o"], obj))
        key = sha(*objs)
        exe = os.path.join(BUILD, "%s-%s-%s" % (pid, fl, key))
        bins[fl] = (exe, objs, [f for f in FLAVOURS[fl] if f.startswith(("-fsanitize", "-fno-sanitize="))])

    def compile_(job):
        _, cmd, obj = job
        tmp = obj + ".%d.tmp" % os.getpid()
        r = subprocess.run(cmd + [tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode == 0:
            os.replace(tmp, obj)
        return r.returncode, cmd, r.stdout.decode("utf8", "replace")

    with ThreadPoolExecutor(JOBS) as ex:
        for rc, cmd, out in ex.map(compile_, sorted(jobs, key=lambda j: j[0])):
            if rc != 0:
                print("BUILD-ERROR: " + " ".join(cmd[-4:]))
                print(out[-4000:])
                sys.exit(2)

    def link(it):
        fl, (exe, objs, san) = it
        if not os.path.exists(exe):
            tmp = exe + ".%d.tmp" % os.getpid()
            r = subprocess.run(["g++"] + san + objs + libs + LIBS + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode != 0:
                return r.stdout.decode("utf8", "replace")
            os.replace(tmp, exe)
        else:
            os.utime(exe)
        return None
    with ThreadPoolExecutor(JOBS) as ex:
        for e in ex.map(link, bins.items()):
            if e:
                print("LINK-ERROR\n" + e[-4000:])
                sys.exit(2)
    for o in [o for b in bins.values() for o in b[1]]:
        try:
            os.utime(o)
        except OSError:
            pass
    return {fl: b[0] for fl, b in bins.items()}


def prune():
    """keeps the local build cache below ~3 GB (oldest first)"""
    try:
        fs = [(os.path.getmtime(p), os.path.getsize(p), p) for p in (os.path.join(BUILD, f) for f in os.listdir(BUILD)) if os.path.isfile(p)]
    except OSError:
        return
    total = sum(f[1] for f in fs)
    for m, s, p in sorted(fs):
        if total < 3 << 30:
            break
        try:
            os.unlink(p)
            total -= s
        except OSError:
            pass


def known_findings(pid):
    """lines 'finding: property=<id> law=<law> <what fails>' of KNOWN_FINDINGS.txt"""
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) finding=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("ids", nargs="*")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--law", default="")
    ap.add_argument("--scale", default="1")
    ap.add_argument("--flavour", default="")
    ap.add_argument("--workers", default="8")
    ap.add_argument("--replay")
    ap.add_argument("--build", action="store_true")
    ap.add_argument("--selftest", action="store_true", help="setup_cmd: toolchain and MANIFEST consistency")
    a = ap.parse_args()
    cfg = load_config()
    env = dict(os.environ)
    env.update(ENV)
    if a.selftest:
        man = json.load(open(os.path.join(VERIF, "MANIFEST.json")))
        ids = [c["property"] for c in man["checks"]]
        missing = [i for i in ids if i not in cfg]
        tools = [t for t in ("g++",) if not shutil.which(t)]
        print("checks: %s; missing harness: %s; missing tools: %s" % (" ".join(ids), missing, tools))
        return 1 if missing or tools else 0
    if a.replay:
        text = open(a.replay).read()
        pid = re.search(r"^property (\S+)", text, re.M).group(1)
        fl = re.search(r"^flavour (\S+)", text, re.M).group(1)
        exe = build(pid, cfg)[fl]
        sys.exit(subprocess.run([exe, "--flavour", fl, "--replay", a.replay], env=env).returncode)
    if a.build:
        for pid in a.ids or sorted(cfg):
            build(pid, cfg)
            print("built", pid)
        prune()
        return 0
    pid = a.ids[0]
    tier = "thorough" if a.tier == "thorough" else "quick"
    try:
        seed = int(a.seed)
    except ValueError:
        seed = int(hashlib.sha256(a.seed.encode()).hexdigest()[:8], 16)
    t0 = time.time()
    bins = build(pid, cfg)
    tb = time.time() - t0
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    res, hashes, rc = {}, set(), 0
    violation = None
    for fl, exe in bins.items():
        if a.flavour and fl != a.flavour:
            continue
        out = os.path.join(BUILD, "stats-%s-%s-%d.json" % (pid, fl, os.getpid()))
        rep = os.path.join(VERIF, "replays", "%s-%s-%s-seed%d.txt" % (pid, fl, tier, seed))
        cmd = [exe, "--seed", str(abs(seed)), "--tier", tier, "--workers", a.workers, "--property", pid, "--flavour", fl,
               "--out", out, "--replay-out", rep, "--scale", a.scale] + (["--law", a.law] if a.law else [])
        ts = time.time()
        r = subprocess.run(cmd, env=env)
        try:
            res[fl] = json.load(open(out))
            res[fl]["wall_s"] = round(time.time() - ts, 2)
            hashes |= set(open(out + ".hashes").read().split())
        except (OSError, ValueError) as e:
            print("harness %s (%s) ended with status %s: %s" % (pid, fl, r.returncode, e))
            sys.exit(3)
        finally:
            for p in (out, out + ".hashes"):
                if os.path.exists(p):
                    os.unlink(p)
        if r.returncode == 1:
            violation = (rep, res[fl])
            break
        if r.returncode != 0:
            print("INCONCLUSIVE: property %s law %s: a failure that could not be reproduced: %s (see %s)"
                  % (pid, res[fl].get("law_failed"), res[fl].get("message"), rep))
            rc = 3
    known = known_findings(pid)
    laws = {}
    for fl, r in res.items():
        for name, l in r["laws"].items():
            t = laws.setdefault(name, {"rule": l["rule"], "evaluations": 0, "discarded": 0, "distinct_nontrivial": 0, "classes": {}})
            for k in ("evaluations", "discarded", "distinct_nontrivial"):
                t[k] += l[k]
            for k, v in l["classes"].items():
                t["classes"][k] = t["classes"].get(k, 0) + v
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in res.values()),
            "distinct_nontrivial": len(hashes),
            "rule": "Each case is one generated choice sequence for one law; it counts as non-trivial by the law's own rule (see laws.*.rule), and as distinct by the hash of its choices.",
            "samples": [s for r in res.values() for s in r["samples"]][:40] or ["(no non-trivial case before the first failure)"],
            "laws": laws,
            "flavours": {fl: {"flags": " ".join(FLAVOURS[fl]), "evaluations": r["evaluations"], "wall_s": r["wall_s"]} for fl, r in res.items()},
        },
        "assumptions": ["reference BLAS/LAPACK, METIS, UMFPACK and libstdc++ of this sandbox behave as documented",
                        "search over generated inputs: absence of a violation is not a proof"],
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violation else 0,
    }
    if known:
        ev["coverage"]["known_findings"] = [k[1] for k in known]
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k, what in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    if violation:
        rep, r = violation
        print("law %s failed:\n%s" % (r["law_failed"], r["message"]))
        print("case: %s" % r["case"][:1500])
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        rc = 1
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, build %.1fs, total %.1fs -> %s"
          % (pid, tier, seed, ev["coverage"]["evaluations"], len(hashes), tb, time.time() - t0, "VIOLATION" if violation else "ok" if rc == 0 else "inconclusive"))
    if a.law or a.flavour or a.scale != "1":
        print("(partial run)")
    prune()
    return rc


if __name__ == "__main__":
    sys.exit(main())
