"""mkseed.py FILE : creates seeded/<id>/ from a python description: list of dict(id, property, needs, breaks, edits=[(file, old, new)], demo=str)"""
import difflib, json, os, runpy, sys
for s in runpy.run_path(sys.argv[1])["SEEDS"]:
    if len(sys.argv) > 2 and s["id"] not in sys.argv[2:]:
        continue
    d = "/verif/seeded/" + s["id"]
    os.makedirs(d, exist_ok=True)
    files = {}
    for f, old, new in s["edits"]:
        p = "run_time_assurance/" + f
        t = files.get(p) or open("/repo/" + p).read()
        assert t.count(old) == 1, (s["id"], f, t.count(old), old)
        files[p] = t.replace(old, new)
    out = ""
    for p, t in files.items():
        a = open("/repo/" + p).read()
        out += "diff --git a/%s b/%s\n" % (p, p) + "".join(difflib.unified_diff(a.splitlines(1), t.splitlines(1), "a/" + p, "b/" + p))
    open(d + "/patch.diff", "w").write(out)
    open(d + "/demo.sh", "w").write('#!/bin/bash\n# exit 0 on the unchanged tree, nonzero with the planted change\nexport HOME=/root JAX_PLATFORMS=cpu MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\n'
                                    'PYTHONPATH="$PWD" timeout 280 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    open(d + "/demo.py", "w").write(s["demo"].lstrip())
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    print(s["id"])
