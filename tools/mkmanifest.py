#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py, properties.jsonl and the reasons below."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from checks import CHECKS
try:
    from checks import NOT_APPLICABLE
except ImportError:
    NOT_APPLICABLE = {}
try:
    from checks import HOOKS
except ImportError:
    HOOKS = None
ids = [json.loads(l)["id"] for l in open(os.path.join(R, "properties.jsonl")) if l.strip()]
m = {"version": 1, "setup_cmd": "bash setup.sh"}
if HOOKS: m["hooks"] = HOOKS
m["checks"] = [{
    "property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i}",
    "technique": CHECKS[i]["technique"], "level": CHECKS[i].get("level", "exploration"), "level_note": CHECKS[i]["level_note"],
} for i in ids if i in CHECKS]
m["not_applicable"] = [{"property": i, "reason": NOT_APPLICABLE.get(i, "check under construction")} for i in ids if i not in CHECKS]
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(R, "MANIFEST.json"), "a").write("\n")
