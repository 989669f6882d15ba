"""Writes MANIFEST.json from claims.py and properties.jsonl."""
import json, os
from claims import CLAIMS, NOT_APPLICABLE, PENDING
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": [], "not_applicable": [],
     "notes": "Each check proves the contracts of one property on /repo's current source with govc (/verif/govc) and runs a bounded replay harness on the real code (/verif/harness). See DESIGN.md."}
for i in ids:
    c = CLAIMS.get(i)
    if c:
        m["checks"].append({"property": i, "quick_cmd": "bash check.sh " + i, "thorough_cmd": "VERIF_TIER=thorough bash check.sh " + i,
                            "evidence_file": "evidence/%s.json" % i, "technique": c["technique"], "level": c["level"],
                            "level_note": c["explanation"] + " Assumes: " + "; ".join(c["assume"]) + "."})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, PENDING)})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
