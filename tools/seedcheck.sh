#!/bin/bash
# tools/seedcheck.sh ID [notest] [nocheck]: confirms a planted bug in a copy of /repo that is mounted over /repo in a
# private mount namespace (the real /repo is never touched), then runs the check of its property against it.
id=$1; shift
here=$(cd "$(dirname "$0")/.." && pwd)
S=/tmp/seedcheck_$id
rm -rf "$S"; mkdir -p "$S/demo"
cp -a /repo "$S/repo"
cp "$here/seeded/$id/"* "$S/demo/"
prop=$(python3 -c "import json;print(json.load(open('$here/seeded/$id/meta.json'))['property'])")
export S here id prop; export opts="$*"
unshare -m bash -c '
mount --bind $S/repo /repo; cd /repo
git status --short | head -3
if [[ $opts != *nodemo* ]]; then
bash /opt/vp/build.sh >$S/b0.log 2>&1 || echo "clean build FAILED"
( timeout 300 bash $S/demo/demo.sh >$S/d0.log 2>&1 ); echo "$id demo clean: $?"
fi
git apply --check $S/demo/patch.diff || { echo "$id DOES NOT APPLY"; exit 1; }
git apply $S/demo/patch.diff
bash /opt/vp/build.sh >$S/b1.log 2>&1 || { echo "$id BUILD FAILED"; tail -5 $S/b1.log; }
if [[ $opts != *nodemo* ]]; then
( timeout 300 bash $S/demo/demo.sh >$S/d1.log 2>&1 ); echo "$id demo patched: $? $(tail -1 $S/d1.log)"
fi
if [[ $opts != *notest* ]]; then
 bash /opt/vp/test.sh $S/t.json >$S/t.log 2>&1
 python3 - <<PY
import json
b=json.load(open("/opt/vp/BASELINE.json")); t=json.load(open("$S/t.json"))
base=set(b["stable"])
print("$id tests: passed", len(t["passed"]), "broken", sorted(base-set(t["passed"]))[:4])
PY
fi
if [[ $opts != *nocheck* ]]; then
 cd $here; VERIF_SEED=${SEED:-1} VERIF_TIER=quick timeout 900 ./run.py ${prop,,} >$S/c.log 2>&1; rc=$?
 echo "$id check $prop: rc=$rc $(grep -c ^VIOLATION $S/c.log) violations; $(grep "^$prop/" $S/c.log | head -1 | cut -c1-200)"; tail -1 $S/c.log
fi
'
rm -rf "$S"
