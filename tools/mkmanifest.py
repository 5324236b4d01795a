#!/usr/bin/env python3
# MANIFEST.json from spec.py and properties.jsonl
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
import spec
ids = [json.loads(l)["id"] for l in open(H + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "bash engine/build.sh", "checks": [], "not_applicable": [],
     "notes": "All checks are one technique: symbolic execution of the LLVM bitcode of the real headers (engine/symx) with z3 deciding path conditions and assertions; counterexamples are replayed on the natively compiled code. No hooks in /repo."}
for i in ids:
    if i in spec.PROPS:
        p = spec.PROPS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i, "evidence_file": "evidence/%s.json" % i,
            "technique": "bounded symbolic execution of the real code (LLVM bitcode) with an SMT solver (z3), counterexamples replayed natively", "level": p.get("level", "model_checking"),
            "level_note": "Holds for every value of the symbolic inputs within the bounds: " + (p["bounds"]("quick") if callable(p["bounds"]) else p["bounds"]) + " Trusted: clang's translation to bitcode, the engine (sample paths of every run are validated natively), its models of libc/libstdc++ functions, z3."})
    else: m["not_applicable"].append({"property": i, "reason": spec.NOT_APPLICABLE.get(i, "check not built yet")})
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1); print(len(m["checks"]), "checks")
