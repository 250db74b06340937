"""Writes MANIFEST.json from properties.jsonl and bin/plan.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/bin")
from plan import PLAN
checks = []
for l in open(V + "/properties.jsonl"):
    pid = json.loads(l)["id"]
    p = PLAN[pid]
    checks.append(dict(property=pid, quick_cmd=f"python3 bin/check.py {pid} quick", thorough_cmd=f"python3 bin/check.py {pid} thorough", technique=p["technique"],
                       level="model_checking", level_note=p["note"]))
m = dict(version=1, setup_cmd="python3 bin/setup.py", checks=checks, not_applicable=[],
         notes="Specification in TLA+ (spec/), checked with TLC and bound to the code by trace validation and replay. No hooks in /repo. See DESIGN.md and known_findings.txt.")
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
