"""Re-runs a recorded counterexample against the real code (bash replay.sh <file>): exit 1 while it still fails."""
import json
import os
import sys
import tempfile

from .boot import boot
from .run import load


def main():
    with open(sys.argv[1]) as f:
        doc = json.load(f)
    print("property", doc["property"], "contract", doc.get("scenario"), "obligation", doc.get("failed_obligation") or doc.get("obligation"))
    w = doc.get("witness")
    if not w:
        print("no failing input was found; verifier output:")
        print(json.dumps(doc.get("verifier_output") or doc.get("trace"), indent=1))
        return 0
    boot()
    from . import kit
    load(doc["property"])
    scen = next(s for s in kit.SCENARIOS[doc["property"]] if s.name == w["scenario"])
    with tempfile.TemporaryDirectory(prefix="pyvc-replay-") as d:
        os.chdir(d)
        if w["mode"] == "search":
            status, info, inputs, _ = kit.run_concrete(scen, "search", None, w["seed"])
        else:
            status, info, inputs, _ = kit.run_concrete(scen, "replay", dict(w["inputs"]), w["seed"])
        os.chdir("/")
    print("inputs", inputs)
    print(status, json.dumps(info, default=str, indent=1) if info else "")
    return 1 if status == "violated" else 0


if __name__ == "__main__":
    sys.exit(main())
