"""Writes properties.jsonl and MANIFEST.json from tools/properties.py (run by hand after editing that file)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from properties import PROPS, NOT_APPLICABLE
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(root + "/properties.jsonl", "w") as f:
    for p in PROPS + [n["prop"] for n in NOT_APPLICABLE]:
        q = {k: v for k, v in p.items() if k != "level_note"}
        assert len(q["title"]) <= 80, q["id"]
        f.write(json.dumps(q) + "\n")
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": [{"property": n["prop"]["id"], "reason": n["reason"]} for n in NOT_APPLICABLE]}
for p in PROPS:
    m["checks"].append({"property": p["id"], "quick_cmd": f"bash check.sh {p['id']} quick", "thorough_cmd": f"bash check.sh {p['id']} thorough",
        "technique": "contracts on the real Python functions, deductively verified (path-exploring VC generation over their AST, SMT discharge with z3/cvc5)",
        "level": "proof", "level_note": p["level_note"]})
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
