"""python3 tools/fixed.py PID COMMIT "what failed": record a repaired defect."""
import json, sys, os
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
k = json.load(open(p))
pid, commit, what = sys.argv[1:4]
k.append({"kind": "fixed", "property": pid, "commit": commit, "what": f"fixed: property={pid} {commit} {what}"})
json.dump(k, open(p, "w"), indent=1)
