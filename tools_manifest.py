"""writes MANIFEST.json from properties.jsonl and the table below"""
import json
import sys; sys.path.insert(0, "harness")
import main
LVL = dict.fromkeys(main.MODULE, "model_checking")
checks, na = [], []
for l in open("properties.jsonl"):
    p = json.loads(l)["id"]
    if p in main.MODULE:
        t, n = main.ABOUT.get(p) or main.ABOUT[main.MODULE[p]]
        checks.append({"property": p, "quick_cmd": f"./check {p} quick", "thorough_cmd": f"./check {p} thorough",
                       "evidence_file": f"evidence/{p}.json", "technique": t, "level": LVL[p], "level_note": n})
    else:
        na.append({"property": p, "reason": main.NOT_YET.get(p, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "TLA+ with TLC. No hooks in /repo: every property is observed at the public API."}, open("MANIFEST.json", "w"), indent=1)
