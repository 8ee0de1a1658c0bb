"""Writes properties.jsonl and MANIFEST.json from one table (run by hand, outputs are committed)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, text, why, files, mech, observe=None, note=None, na=None, level_note="", state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    if state:
        a["state"] = state
    P.append(({"id": pid, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
               "why_tests_cant": why, "anchors": a}, na, level_note))


S = "src/cr/sparse/_src/"
exec(open(os.path.join(HERE, "tools", "table.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
    for p, na, _ in sorted(P, key=lambda t: t[0]["id"]):
        fh.write(json.dumps(p) + "\n")
checks = []
for p, na, ln in sorted(P, key=lambda t: t[0]["id"]):
    if na:
        continue
    pid = p["id"]
    checks.append({"property": pid, "quick_cmd": f"./check.sh {pid} quick", "thorough_cmd": f"./check.sh {pid} thorough",
                   "technique": "deterministic simulation with fault injection: seeded search over plans, replayable, minimised",
                   "level": "exploration", "level_note": ln})
man = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
       "not_applicable": [{"property": p["id"], "reason": na} for p, na, _ in sorted(P, key=lambda t: t[0]["id"]) if na],
       "notes": "No hooks in /repo: the seams used are the operator/callback/tracker arguments, the time module, the file API and "
                "sys.settrace. known_findings.txt lists the defects repaired with fix: commits. Replay: ./check.sh --replay FILE."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
    json.dump(man, fh, indent=1)
    fh.write("\n")
