"""addfixed.py PROPERTY COMMIT TEXT: record a repaired defect"""
import json, sys, os
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p))
d["fixed"].append("fixed: property=%s %s %s" % tuple(sys.argv[1:4]))
open(p, "w").write(json.dumps(d, indent=1) + "\n")
