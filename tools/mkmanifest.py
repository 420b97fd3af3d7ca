#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of claimed properties."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "bin", "lib"))
import claims
m = {"version": 1, "setup_cmd": "python3 bin/setup.py",
     "checks": [], "not_applicable": claims.NOT_APPLICABLE,
     "notes": "One driver, bin/check.py; models in spec/tla (TLC) and spec/quint (Quint); see DESIGN.md. "
              "No hooks in /repo: everything is observed through the public interface."}
for p, (tech, level, note) in sorted(claims.CLAIMS.items()):
    m["checks"].append({"property": p, "quick_cmd": f"python3 bin/check.py {p} --tier quick",
                        "thorough_cmd": f"python3 bin/check.py {p} --tier thorough",
                        "evidence_file": f"evidence/{p}.json", "technique": tech, "level": level, "level_note": note})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
