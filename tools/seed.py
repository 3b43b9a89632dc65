#!/usr/bin/env python3
"""Dev tool: plant a bug.  usage: seed.py NAME PROPERTY "NEEDS" "WHAT" [--keep-demo] FILE OLD NEW [FILE OLD NEW ...]
The demonstration is read from /tmp/demo.py.  Everything is confirmed in a scratch copy of the repository:
the demo passes without and fails with the change, the stable tests pass with it; then the check is run on it."""
import json, os, shutil, subprocess, sys, tempfile
from pathlib import Path
name, pid, needs, what = sys.argv[1:5]
a = sys.argv[5:]
d = Path(tempfile.mkdtemp(prefix="seed_"))
SRC = os.environ.get("SRC", "/repo")
subprocess.run(["cp", "-a", SRC, str(d / "repo")], check=True)
R = d / "repo"
subprocess.run(["git", "-C", str(R), "checkout", "-q", "--", "."], check=True)
for i in range(0, len(a), 3):
    p = R / "cloudnetpy" / a[i]
    s = p.read_text()
    assert s.count(a[i + 1]) == 1, (a[i], a[i + 1], s.count(a[i + 1]))
    p.write_text(s.replace(a[i + 1], a[i + 2]))
patch = subprocess.run(["git", "-C", str(R), "diff"], capture_output=True, text=True, check=True).stdout
out = d / "out"
out.mkdir()
(out / "demo.py").write_text(Path(os.environ.get("DEMO", "/tmp/demo.py")).read_text())
for x in os.environ.get("EXTRA", "").split():
    shutil.copy(x, out)
(out / "demo.sh").write_text('#!/bin/sh\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
os.chmod(out / "demo.sh", 0o755)
(out / "patch.diff").write_text(patch)
(out / "meta.json").write_text(json.dumps({"property": pid, "needs": needs, "what_it_breaks": what}, indent=1) + "\n")
env = {**os.environ, "PYTHONPATH": str(R), "PYTHONDONTWRITEBYTECODE": "1"}
ok = subprocess.run(["sh", str(out / "demo.sh")], cwd=SRC, env={**os.environ, "PYTHONPATH": SRC, "PYTHONDONTWRITEBYTECODE": "1"}, capture_output=True, text=True)
bad = subprocess.run(["sh", str(out / "demo.sh")], cwd=R, env=env, capture_output=True, text=True)
print("demo unchanged rc", ok.returncode, ok.stdout[-300:], ok.stderr[-800:])
print("demo patched   rc", bad.returncode, bad.stdout[-300:], bad.stderr[-300:])
if ok.returncode != 0 or bad.returncode == 0:
    print("REJECTED: demo"); shutil.rmtree(d); sys.exit(1)
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
sh = open("/opt/vp/test.sh").read().replace("cd /repo ", f"cd {R} ")
(d / "test.sh").write_text(sh)
tp = subprocess.Popen(["bash", str(d / "test.sh"), str(d / "t.json")], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
c = subprocess.run(["/verif/check", pid], env={**os.environ, "VERIF_REPO": str(R)}, capture_output=True, text=True)
cl = [x.split("violated:")[1][:110] for x in c.stdout.splitlines() if "violated:" in x]
print(pid, "rc", c.returncode, "CAUGHT" if c.returncode == 1 else "MISSED" if c.returncode == 0 else "ERROR " + c.stdout[-800:], cl[:2])
tp.wait()
fail = sorted(stable - set(json.load(open(d / "t.json"))["passed"]))
print("failing stable tests:", len(fail), fail[:4])
if fail:
    print("REJECTED"); shutil.rmtree(d); sys.exit(1)
dst = Path("/verif/seeded") / name
shutil.rmtree(dst, ignore_errors=True)
shutil.copytree(out, dst)
shutil.rmtree(d)
print("KEPT", dst)
