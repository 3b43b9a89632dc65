#!/usr/bin/env python3
"""Dev tool: mutate a copy of the package and run checks against it.
usage: mutate.py ID[,ID..] FILE OLD NEW  [FILE OLD NEW ...]   (env COUNT=nth occurrence)"""
import os, shutil, subprocess, sys, tempfile
ids = sys.argv[1].split(",")
d = tempfile.mkdtemp(prefix="mut_")
shutil.copytree(os.environ.get("BASE", "/repo") + "/cloudnetpy", d + "/cloudnetpy")
os.symlink("/repo/tests", d + "/tests")
a = sys.argv[2:]
for i in range(0, len(a), 3):
    p = f"{d}/cloudnetpy/{a[i]}"
    s = open(p).read()
    assert a[i + 1] in s, f"pattern not found: {a[i+1]}"
    if s.count(a[i + 1]) > 1 and "COUNT" not in os.environ:
        print("note:", s.count(a[i + 1]), "occurrences, first replaced")
    open(p, "w").write(s.replace(a[i + 1], a[i + 2], 1))
for pid in ids:
    r = subprocess.run(["/verif/check", pid], env={**os.environ, "VERIF_REPO": d}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    cl = [x.split("violated:")[1][:110] for x in r.stdout.splitlines() if "violated:" in x]
    print(pid, "rc", r.returncode, "CAUGHT" if r.returncode == 1 else "MISSED" if r.returncode == 0 else "ERROR\n" + r.stdout[-1500:], cl[:2])
shutil.rmtree(d)
