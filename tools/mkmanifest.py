#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import registry
V = registry.VERIF
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
checks = []
for i in ids:
    if i not in registry.REG: continue
    P = registry.REG[i]
    t = ["trace validation with TLC of recorded executions against a TLA+ specification"]
    if P.get("sim"): t.append("replay of behaviours drawn from the specification")
    if P.get("mc"): t.append("exhaustive TLC exploration of the model")
    checks.append(dict(property=i, quick_cmd="python3 tools/check.py " + i, thorough_cmd="VERIF_TIER=thorough python3 tools/check.py " + i,
        technique="TLA+: " + "; ".join(t), level="model_checking",
        level_note="Every recorded call of the real library (outcome, results, all reachable object state, memory errors, leaks) must be a step of the TLA+ specification; the specification's laws are checked by TLC within small constants. Executions are sampled (seeded); trusts the driver's projection, gcc/ASan and TLC."))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks,
    not_applicable=[dict(property=i, reason=NA.get(i, "not yet specified: no check is claimed for it")) for i in ids if i not in registry.REG],
    notes="Every check rebuilds the library from /repo with the harness in /verif/harness; no hooks are needed in /repo. Every check accepts VERIF_SEED and VERIF_TIER.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); print(len(checks), "checks")
