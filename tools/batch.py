#!/usr/bin/env python3
"""batch.py FILE [names] : FILE defines M = [(name, [(file, old, new)...], "C01 C02")]; runs the full quick checks against each mutant of /repo
in scratch copies until one reports it.  Development aid; no registered check uses it."""
import os, runpy, shutil, subprocess, sys, tempfile, time
for name, edits, checks in runpy.run_path(sys.argv[1])["M"]:
    if len(sys.argv) > 2 and name not in sys.argv[2:]:
        continue
    w = tempfile.mkdtemp(prefix="/tmp/mutc.")
    try:
        shutil.copytree("/repo", w + "/repo", symlinks=True)
        os.makedirs(w + "/verif")
        shutil.copytree("/verif/mc", w + "/verif/mc")
        for g in ("check.sh", "known_findings.json"):
            shutil.copy("/verif/" + g, w + "/verif/")
        p = w + "/verif/mc/core.py"
        t = open(p).read().replace('"/repo"', f'"{w}/repo"')
        open(p, "w").write(t)
        for f, old, new in edits:
            p = f"{w}/repo/run_time_assurance/{f}"
            t = open(p).read()
            assert t.count(old) == 1, (name, f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        env = dict(os.environ, PYTHONPATH=w + "/repo", HOME="/root", JAX_PLATFORMS="cpu", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1")
        t0, res = time.time(), []
        for c in checks.split():
            r = subprocess.run([w + "/verif/check.sh", c, "quick"], env=env, cwd=w + "/verif", capture_output=True, text=True)
            v = [x for x in r.stdout.split("\n") if "VIOLATION" in x]
            res.append(c + ":" + ("caught" if r.returncode == 1 and v else "rc%d" % r.returncode))
        print(name, " ".join(res), round(time.time() - t0), flush=True)
    except AssertionError as e:
        print("BAD", e, flush=True)
    finally:
        shutil.rmtree(w)
