#!/bin/bash
# tryplant.sh ID [nochk]: demo on the clean tree, then with the patch: build, tests, demo, the property's check; always undone
id=$1; d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo || exit 9
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 9; }
trap 'cd /repo; git checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
bash $d/demo.sh > /tmp/demo.out 2>&1; a=$?
git apply $d/patch.diff || { echo "$id: patch does not apply"; exit 9; }
bash /opt/vp/build.sh > /tmp/plant.build 2>&1 || { echo "$id: does not build"; tail -5 /tmp/plant.build; exit 9; }
bash $d/demo.sh > /tmp/demo2.out 2>&1; b=$?
t=skipped; if [ "$2" != notest ]; then t=$(bash /verif/tools/rt.sh 2>&1 | tail -1); fi
if [ "$2" != nochk ]; then SIM_SECONDS=${SECS:-40} VERIF_SEED=${SEED:-1} python3 /verif/check.py $p > /tmp/plant.chk 2>&1; c=$?; else c=-; fi
echo "$id ($p): demo clean=$a patched=$b; tests: $t; check=$c $(grep -a '^violation' /tmp/plant.chk | cut -c1-160)"
