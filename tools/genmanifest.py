"""Writes /verif/MANIFEST.json from the property modules that exist."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(HERE, "tools", "notes.json")))
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if not os.path.exists(os.path.join(HERE, "vlib", "props", i.lower() + ".py")):
        na.append({"property": i, "reason": "its check is not built yet"})
        continue
    t, n = NOTES[i]
    checks.append({
        "property": i, "quick_cmd": "/opt/venv/bin/python run.py %s quick" % i,
        "thorough_cmd": "/opt/venv/bin/python run.py %s thorough" % i,
        "technique": t, "level": "exploration", "level_note": n,
    })
doc = {
    "version": 1, "setup_cmd": "/opt/venv/bin/python tools/selfcheck.py", "checks": checks, "not_applicable": na,
    "notes": "No hooks in /repo: every check drives the public interface of the working tree in /repo (override with VERIF_REPO). "
             "run.py --replay FILE re-runs one shrunk case. Known and fixed findings: known_findings.json.",
}
json.dump(doc, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
