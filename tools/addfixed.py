"""tools/addfixed.py PID HASH text...: record a repaired defect."""
import json, sys, os
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
k = json.load(open(p))
k["fixed"].append(f"fixed: property={sys.argv[1]} {sys.argv[2]} {' '.join(sys.argv[3:])}")
json.dump(k, open(p, "w"), indent=1)
open(p, "a").write("\n")
