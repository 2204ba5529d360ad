"""Writes MANIFEST.json for the checks which exist in zmon/checks (run after adding a check)."""
import json
import sys
from pathlib import Path
V = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V))
TECH = json.loads((V/"tools"/"techniques.json").read_text())
props = [json.loads(x) for x in (V/"properties.jsonl").read_text().splitlines() if x.strip()]
have = [p["id"] for p in props if (V/"zmon"/"checks"/f"{p['id'].lower()}.py").exists()]
checks = [{"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough", "technique": TECH[i][0],
           "level": "exploration", "level_note": TECH[i][1]} for i in have]
man = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
       "not_applicable": [{"property": p["id"], "reason": "its check is not built yet"} for p in props if p["id"] not in have],
       "notes": "No hooks in /repo: monitors wrap the public methods from outside at run time. See DESIGN.md."}
(V/"MANIFEST.json").write_text(json.dumps(man, indent=1, ensure_ascii=False) + "\n")
print(len(checks), "checks")
