#!/usr/bin/env python3
"""Single source of truth: writes /verif/properties.jsonl and /verif/MANIFEST.json."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from registry import CHECKS
P = []

def prop(id, title, statement, over, text, why, files, mech, observe=(), state=(), check=None, na=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(check=check, na=na, p={
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
                    "mechanism": [dict(name=n, where=w) for n, w in mech],
                    "observe_at": list(observe), "hook_needed": None}}))

exec(open(os.path.join(ROOT, "tools", "properties.py")).read())

def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for e in P:
            f.write(json.dumps(e["p"], ensure_ascii=False) + "\n")
    checks, nas = [], []
    for e in P:
        pid = e["p"]["id"]
        if pid in CHECKS:
            c = CHECKS[pid]
            checks.append({
                "property": pid,
                "quick_cmd": f"python3 tools/check.py {pid}",
                "thorough_cmd": f"python3 tools/check.py {pid} --tier thorough",
                "evidence_file": f"evidence/{pid}.json",
                "technique": c["technique"],
                "level": "exploration",
                "level_note": c["note"],
            })
        else:
            nas.append({"property": pid, "reason": e["na"] or "check not built yet"})
    m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": nas,
         "notes": "Every check is a rapid (Go property-based testing) search in /verif/harness, run by tools/check.py, "
                  "which rebuilds the harness against /repo's working tree on every run."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False); f.write("\n")

main()
