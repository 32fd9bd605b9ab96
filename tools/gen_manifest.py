"""Writes MANIFEST.json from lib/plans.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
sys.dont_write_bytecode = True
import plans
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    if p in plans.PLANS:
        checks.append(dict(property=p, quick_cmd="python3 check.py %s quick" % p, thorough_cmd="python3 check.py %s thorough" % p,
                           evidence_file="evidence/%s.json" % p, technique=plans.TECHNIQUE[p], level="model_checking",
                           level_note=plans.NOTE[p]))
m = dict(version=1, setup_cmd="sh setup.sh", checks=checks,
         not_applicable=[dict(property=p, reason="its check is not built yet") for p in props if p not in plans.PLANS],
         notes="TLA+ with TLC; see DESIGN.md. No hooks are needed in /repo: everything is observed through the public "
               "interface and the attributes of fitted forests.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
