"""Writes MANIFEST.json from the table of implemented checks."""
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vf.registry import CHECKS  # noqa: E402

props = [json.loads(l) for l in open(ROOT + "/properties.jsonl")]
man = {"version": 1, "setup_cmd": "/usr/bin/python3 -m vf.build", "checks": [], "not_applicable": []}
for p in props:
    pid = p["id"]
    if pid in CHECKS:
        c = CHECKS[pid]
        man["checks"].append({
            "property": pid,
            "quick_cmd": "/usr/bin/python3 -m vf.check %s" % pid,
            "thorough_cmd": "VERIF_TIER=thorough /usr/bin/python3 -m vf.check %s" % pid,
            "evidence_file": "evidence/%s.json" % pid,
            "technique": c[0], "level": c[2] if len(c) > 2 else "exploration", "level_note": c[1]})
    else:
        man["not_applicable"].append({"property": pid, "reason": "check not built yet"})
man["notes"] = "No hooks in /repo: the checks build /repo's sources with sanitizers and assertions."
json.dump(man, open(ROOT + "/MANIFEST.json", "w"), indent=1)
open(ROOT + "/MANIFEST.json", "a").write("\n")
