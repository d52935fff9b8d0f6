#!/bin/bash
# plant.sh ID [CHECK...]: validate seeded/ID in a scratch copy and run checks against it
# (development tool; no registered command uses it)
id=$1; shift
here=/verif; wt=/tmp/wt-$id
rm -rf "/tmp/wt-$id"; cp -a /repo "$wt" || exit 9
export PYTHONDONTWRITEBYTECODE=1
run() { (cd "$wt" && PYTHONPATH=$wt bash "$here/seeded/$id/demo.sh" >/tmp/plant-$id.log 2>&1); echo $?; }
a=$(run)
git -C "$wt" apply "$here/seeded/$id/patch.diff" || { echo "$id: patch does not apply"; rm -rf "$wt"; exit 9; }
b=$(run)
t=skipped
if [ -z "$NOTEST" ]; then
 (cd "$wt" && env HOME=/root LANG=C.UTF-8 LC_ALL=C.UTF-8 LANGUAGE=en_US PATH=/opt/venv/bin:$PATH PYTHONPATH=$wt PYTHONHASHSEED=0 /opt/venv/bin/python -m pytest -q -n 8 -p no:cacheprovider --timeout=300 -W ignore >/tmp/plant-$id-test.log 2>&1)
 t=$(tail -1 /tmp/plant-$id-test.log)
fi
prop=$(python3 -c "import json;print(json.load(open('$here/seeded/$id/meta.json'))['property'])")
echo "$id demo clean=$a patched=$b tests: $t"
for c in ${@:-$prop}; do
  VERIF_NOSHRINK=1 VERIF_REPO=$wt "$here/check" $c > /tmp/plant-$id-$c.log 2>&1; echo "$id check $c rc=$? $(tail -1 /tmp/plant-$id-$c.log)"
done
rm -rf "/tmp/wt-$id"
