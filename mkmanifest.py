#!/usr/bin/env python3
"""writes MANIFEST.json from claims.py and properties"""
import json
import os
from claims import CLAIMS, NOT_APPLICABLE, LATER
from mkprops import PROPS
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for r in PROPS:
    c = CLAIMS.get(r["id"])
    if c:
        m["checks"].append({"property": r["id"],
                            "quick_cmd": "python3-vt check.py %s --tier quick" % r["id"],
                            "thorough_cmd": "python3-vt check.py %s --tier thorough" % r["id"],
                            "technique": c["technique"], "level": c["level"], "level_note": c["level_note"]})
    else:
        m["not_applicable"].append({"property": r["id"], "reason": NOT_APPLICABLE.get(r["id"], LATER)})
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "MANIFEST.json"), "w") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")
