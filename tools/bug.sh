#!/bin/bash
# bug.sh ID [nocheck]: confirms the planted bug seeded/ID (demo passes without it; with it the tree builds, stable tests pass
# and the demo fails), then runs its property's quick check against it.
id=$1; d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
cd /repo || exit 2
git diff --quiet || { echo "repo dirty"; exit 2; }
bash /opt/vp/build.sh >/dev/null 2>&1
bash $d/demo.sh >/tmp/bug.$id.clean 2>&1 || { echo "$id: DEMO FAILS ON CLEAN"; tail -5 /tmp/bug.$id.clean; exit 1; }
git apply $d/patch.diff || { echo "$id: does not apply"; exit 1; }
bash /opt/vp/build.sh >/tmp/bug.$id.build 2>&1 || { echo "$id: BUILD FAILS"; tail -5 /tmp/bug.$id.build; exit 1; }
t=$(bash /opt/vp/test.sh /tmp/bug.$id.json 2>&1 | tail -1)
bash $d/demo.sh >/tmp/bug.$id.out 2>&1 && { echo "$id: DEMO PASSES WITH BUG"; exit 1; }
echo "$id: $t; demo: $(tail -1 /tmp/bug.$id.out | cut -c1-150)"
[ "$2" = nocheck ] && exit 0
s=$(date +%s); cd /verif; timeout 900 ./run.sh $p >/tmp/bug.$id.chk 2>&1; r=$?
echo "$id: check $p exit $r in $(($(date +%s)-s)) s: $(grep -c ^VIOLATION /tmp/bug.$id.chk) violation(s)"
grep -m1 -A3 ^VIOLATION /tmp/bug.$id.chk
