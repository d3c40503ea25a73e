#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the harnesses present."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
tech, na = {}, {}
for f in sorted(os.listdir(V + "/harness")):
    m = re.match(r"(C\d+)_.*\.cpp$", f)
    if m:
        t = open(V + "/harness/" + f).read()
        q = re.findall(r"^// technique:(.*)$", t, re.M)
        n = re.findall(r"^// note:(.*)$", t, re.M)
        fl = re.findall(r"^// flavours:(.*)$", t, re.M)
        builds = "under ThreadSanitizer and on the optimised NDEBUG build" if fl and "tsan" in fl[0] else "on the sanitized assert-enabled build and on the optimised NDEBUG build"
        tech[m.group(1)] = (q[0].strip() if q else "property-based testing against a reference model", n[0].strip() if n else "", builds)
NA = {}
checks, nas = [], []
for p in props:
    i = p["id"]
    if i in tech:
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i + " --tier quick",
                       "thorough_cmd": "python3 check.py " + i + " --tier thorough",
                       "technique": tech[i][0], "level": "exploration",
                       "level_note": "Search over generated cases (seeded, reproducible, shrunk to a replay file) against an explicit oracle, " + tech[i][2] + ". " + tech[i][1] + (" " if tech[i][1] else "") + "No violation found is evidence, not proof; trusts the compiler, libstdc++, reference BLAS/LAPACK and the oracle in the harness."})
    else:
        nas.append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "python3 check.py --selftest", "checks": checks, "not_applicable": nas,
           "notes": "Checks build /repo's sources (include/, src/, modules/partition, modules/sparsesolver, modules/parlinalgcpp with a stand-in for MPI and Hypre) together with the harness; no hooks are needed. check.py --replay FILE re-executes a replay file."},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(nas), "not applicable")
