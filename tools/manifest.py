#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(l)["id"] for l in open(root + "/properties.jsonl")]
NA = {"H01": "The helper contract is Solidity: no Solidity compiler and no EVM are available offline, and the minter's Rust code does not contain it, so there is nothing executable to explore."}
PURE = {"C01", "C02", "C04", "C05", "C06", "C10"}
def tech(i):
    if i in PURE:
        return "exhaustive enumeration of a bounded input or operation-sequence space on the real code, against an independent reference model"
    if i == "C07":
        return "explicit-state replay: every stored event shape of recorded executions is loaded by, and rewritten by, the real code"
    return "stateless model checking of the real canister code: exhaustive deviation-bounded exploration of schedules, faults, traps, upgrades and operation choices in a simulated host"
def note(i):
    if i in PURE:
        return "The real functions are executed on every element of the bounded space and compared with an independent model; bounds are reported in the evidence."
    if i == "C07":
        return "Bounded by the event shapes that the pinned version writes in the recorded scenarios (all kinds of event)."
    return "Complete within the bounds in the evidence (scenarios, at most K deviations per execution); the host, ledgers, RPC canister and chain are simulated, the minter is the real code."
checks = []
for i in ids:
    if i in NA: continue
    checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                   "evidence_file": f"evidence/{i}.json", "technique": tech(i), "level": "model_checking", "level_note": note(i)})
m = {"version": 1, "setup_cmd": "bash tools/build.sh", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()]}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks")
