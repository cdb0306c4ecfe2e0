#!/usr/bin/env python3
# Generates /verif/MANIFEST.json.
import json
NOTES = {}
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
NOTE = ("Holds for every input within the bounds each entry states (see evidence and DESIGN.md): all paths of the compiled code are "
        "executed symbolically and every branch and assertion is decided by interval reasoning or by z3. Trusts the engine, z3, rustc and LLVM's O2 pipeline; "
        "explored paths are re-run natively on a sample, violations always. Nothing is claimed beyond the bounds.")
checks = []
for p in props:
    i = p["id"]
    checks.append(dict(property=i, quick_cmd="python3 check.py %s --quick" % i, thorough_cmd="python3 check.py %s --thorough" % i,
        evidence_file="evidence/%s.json" % i,
        technique="symbolic execution of the compiled code's LLVM IR, decided by an SMT solver (z3)",
        level="model_checking", level_note=NOTE))
doc = dict(version=1, setup_cmd="python3 check.py --build", checks=checks, not_applicable=[],
  notes="python3 check.py --replay FILE re-runs a reported violation natively. No hooks in /repo: everything is checked through its public interface.")
json.dump(doc, open("/verif/MANIFEST.json", "w"), indent=1)
