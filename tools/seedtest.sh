#!/bin/bash
# seedtest.sh <seed id> [notest] : in scratch copies of /repo and /verif, tries seeded/<id>: patch applies, stable tests pass,
# demo passes without / fails with it, and which check reports it.   Development aid; no registered check uses it.
id=$1; S=/verif/seeded/$id
W=$(mktemp -d /tmp/seed.XXXXXX); trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"; mkdir "$W/verif"; cp -a /verif/mc /verif/check.sh /verif/known_findings.json "$W/verif/"
sed -i "s#\"/repo\"#\"$W/repo\"#g" "$W/verif/mc/core.py"
export PYTHONPATH="$W/repo" HOME=/root JAX_PLATFORMS=cpu MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1
prop=${CHECK:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
cd "$W/repo" || exit 2
mkdir "$W/demo"; cp "$S"/* "$W/demo/"; rm -f "$W/demo/patch.diff" "$W/demo/meta.json"
timeout 300 bash "$W/demo/demo.sh" >"$W/d0" 2>&1; d0=$?
git apply "$S/patch.diff" || { echo "$id: PATCH DOES NOT APPLY"; exit 1; }
timeout 300 bash "$W/demo/demo.sh" >"$W/d1" 2>&1; d1=$?
t=skipped
if [ "$2" != notest ]; then
  sed "s#/repo#$W/repo#g; s#/opt/vp/run_script.py#$W/run_script.py#" /opt/vp/test.sh >"$W/test.sh"; sed "s#/repo#$W/repo#g" /opt/vp/run_script.py >"$W/run_script.py"
  bash "$W/test.sh" "$W/out.json" >"$W/tlog" 2>&1
  t=$(python3 - "$W/out.json" <<'P'
import json,sys
o=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))['stable']
p=set(o.get('passed',o.get('pass',[])))
m=[x for x in b if x not in p]
print('ok' if not m else 'FAILS '+','.join(m))
P
)
fi
c=""
for p in $prop; do
  "$W/verif/check.sh" $p quick >"$W/c.$p" 2>&1; rc=$?
  c="$c $p=rc$rc"
  [ $rc = 1 ] && grep -q "VIOLATION property=$p" "$W/c.$p" && c="$c(caught)"
  [ -n "$V" ] && tail -25 "$W/c.$p"
done
echo "$id: demo clean=$d0 bug=$d1 tests=$t check:$c"
[ $d0 != 0 ] && tail -5 "$W/d0"; [ $d1 = 0 ] && tail -5 "$W/d1"
exit 0
