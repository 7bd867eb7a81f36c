"""Record a fix commit in known_findings.json: addfixed.py PROP COMMIT TEXT."""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p))
d["fixed"].append(f"fixed: property={sys.argv[1]} {sys.argv[2]} {sys.argv[3]}")
json.dump(d, open(p, "w"), indent=1)
