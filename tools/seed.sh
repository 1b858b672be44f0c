#!/bin/bash
# For the author: seed.sh ID... plants each bug, runs the demo, the tests and the property's quick check, and undoes it.
for id in "$@"; do
S=/verif/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /repo; [ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
if [ -z "$NODEMO" ]; then bash $S/demo.sh >/tmp/seed.$id.clean 2>&1; c0=$?; else c0=-; fi
git apply $S/patch.diff || { echo "$id: patch does not apply"; continue; }
if [ -z "$NODEMO" ]; then
bash /opt/vp/build.sh >/tmp/seed.$id.build 2>&1; b=$?; bash /opt/vp/test.sh /tmp/seed.out.json >/tmp/seed.$id.test 2>&1; t=$(tail -1 /tmp/seed.$id.test)
bash $S/demo.sh >/tmp/seed.$id.patched 2>&1; c1=$?; fi
s=$(date +%s); bash /verif/check.sh ${CHECK:-$P} >/tmp/seed.$id.check 2>&1; k=$?
git checkout -q -- .
n=$(grep -oP "replay/$P-\K[a-z0-9-]+(?=.json)" /tmp/seed.$id.check | head -1)
grep -v "^$id	" /verif/tools/caught.tsv >/tmp/caught.tsv; printf '%s\t%s\n' $id "$n" >>/tmp/caught.tsv; sort /tmp/caught.tsv >/verif/tools/caught.tsv
echo "$id ($P): demo clean=$c0 patched=$c1 build=$b tests=[$t] check=$k ($(( $(date +%s)-s ))s) $(grep -m1 -E 'VIOLATION|ERROR' /tmp/seed.$id.check | cut -c1-150)"
done
