"""writes MANIFEST.json from contracts/registry.py (claimed properties) and tools/notapplicable.json"""
import json, os, sys
sys.path.insert(0, "/verif")
from contracts import registry
NA = json.load(open("/verif/tools/notapplicable.json"))
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
checks = []
for i in ids:
    if i not in registry.PROPS:
        continue
    checks.append(dict(property=i, quick_cmd=f"python3-vt check.py {i} quick", thorough_cmd=f"python3-vt check.py {i} thorough", level="proof",
                       technique="contract-based deductive verification: VCs generated from the Python source of /repo on every run, discharged by z3/cvc5",
                       level_note=registry.note(i)))
m = dict(version=1, setup_cmd="python3-vt tools/setup.py", checks=checks,
         not_applicable=[dict(property=i, reason=NA[i]) for i in ids if i not in registry.PROPS],
         notes="No hooks in /repo: the contracts live in /verif/contracts and are bound to the functions of /repo by qualified name.")
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(m["not_applicable"]), "not applicable")
