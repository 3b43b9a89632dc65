"""usage: kf.py PROPERTY KEY SHA WHAT   -- record a repaired defect"""
import json, sys
from pathlib import Path
p = Path(__file__).resolve().parent.parent / "known_findings.json"
d = json.loads(p.read_text())
pid, key, sha, what = sys.argv[1:]
d["findings"].append({"property": pid, "status": "fixed", "key": key, "what": f"fixed: property={pid} {sha} {what}"})
p.write_text(json.dumps(d, indent=1, ensure_ascii=False) + "\n")
