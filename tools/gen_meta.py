#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json.

`python3 tools/gen_meta.py` rewrites both. A property is claimed when its check
module checks/<id>.py exists; otherwise it is listed under not_applicable.
"""
import json
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
P = []


def prop(pid, title, statement, over, qtext, why, files, mech, state=(), observe=(), level_note="", na=None):
    P.append(dict(
        id=pid, title=title, statement=" ".join(statement.split()),
        quantifier={"over": over, "text": " ".join(qtext.split())},
        why_tests_cant=" ".join(why.split()),
        anchors={
            "files": files,
            "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
            "mechanism": [dict(name=n, where=w) for n, w in mech],
            "observe_at": list(observe),
            "hook_needed": None,
        },
        _note=" ".join(level_note.split()), _na=na,
    ))


exec((ROOT / "tools" / "props.py").read_text())

with open(ROOT / "properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")

checks, na = [], []
for p in P:
    assert len(p["title"]) <= 80, p["title"]
    pid = p["id"]
    if p["_na"]:
        na.append({"property": pid, "reason": p["_na"]})
    elif (ROOT / "checks" / f"{pid.lower()}.py").exists():
        checks.append({
            "property": pid,
            "quick_cmd": f"./check {pid} quick",
            "thorough_cmd": f"./check {pid} thorough",
            "technique": "TLA+ specification model-checked with TLC; spec behaviours replayed in, and recorded traces of, the real code judged by a TLC trace specification",
            "level": "model_checking",
            "level_note": p["_note"] or "TLC explores the specification exhaustively within small constants; the real code is bound to it by replayed and recorded executions, so assurance for the code is over the executions explored.",
        })
    else:
        na.append({"property": pid, "reason": "the check for this property has not been built yet"})
man = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: every check observes the public API. Known findings are in known_findings.json.",
}
with open(ROOT / "MANIFEST.json", "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(P), "properties,", len(checks), "checks")
