#!/usr/bin/env python3
"""mutcheck.py FILE LINE OLD NEW CHECK... : full quick checks against one mutant of /repo in scratch copies.  Development aid; no registered check uses it."""
import os
import shutil
import subprocess
import sys
import tempfile

f, line, old, new, *checks = sys.argv[1:]
w = tempfile.mkdtemp(prefix="/tmp/mutc.")
try:
    shutil.copytree("/repo", w + "/repo", symlinks=True)
    os.makedirs(w + "/verif")
    shutil.copytree("/verif/mc", w + "/verif/mc")
    for g in ("check.sh", "known_findings.json"):
        shutil.copy("/verif/" + g, w + "/verif/")
    p = w + "/verif/mc/core.py"
    t = open(p).read().replace('"/repo"', f'"{w}/repo"')
    open(p, "w").write(t)
    p = f"{w}/repo/run_time_assurance/{f}"
    ls = open(p).read().split("\n")
    i = int(line) - 1
    tail = "\n".join(ls[i:])
    assert old in tail[:len(old) + 400], "not found: " + ls[i]
    open(p, "w").write("\n".join(ls[:i]) + "\n" + tail.replace(old, new, 1))
    env = dict(os.environ, PYTHONPATH=w + "/repo", HOME="/root", JAX_PLATFORMS="cpu", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1")
    for c in checks:
        r = subprocess.run([w + "/verif/check.sh", c, "quick"], env=env, cwd=w + "/verif", capture_output=True, text=True)
        print(f, line, repr(old[:50]), "->", repr(new[:50]), c, "rc", r.returncode, [x for x in r.stdout.split("\n") if "VIOLATION" in x][:1], flush=True)
finally:
    shutil.rmtree(w)
