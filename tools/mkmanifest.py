#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import plan
NA = {"C26": "the two sweep tools take no input and run one fixed parameter set, so there is no value left to quantify over; and they produce their words inside coroutines of the crate generator, whose stack switch is inline assembly without LLVM semantics to encode"}
checks, na = [], []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)["id"]
    if p in plan.PLAN:
        checks.append({"property": p, "quick_cmd": f"python3 run.py check {p} --tier quick", "thorough_cmd": f"python3 run.py check {p} --tier thorough",
                       "evidence_file": f"evidence/{p}.json",
                       "technique": "bounded symbolic execution of the compiled LLVM IR of the real library and tools with an SMT solver (z3) deciding every branch and assertion; counterexamples replayed natively",
                       "level": "model_checking",
                       "level_note": "Bounded: " + plan.PLAN[p]["bounds"] + ". Trusted: rustc's IR, the symbolic executor and its library models (cross-checked against native runs of sampled paths), z3."})
    else:
        na.append({"property": p, "reason": NA.get(p, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks are needed in /repo: the harness uses the public library API and the real main functions of the tools."},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
