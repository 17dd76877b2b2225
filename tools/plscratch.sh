#!/bin/bash
# plscratch.sh ID...: like tryplant.sh but in a scratch clone (no test suite): demo clean/patched and the property's check
P=${PL:-/tmp/x/pl}; if [ ! -d $P ]; then git clone -q /repo $P; fi
cd $P || exit 9; git pull -q; git checkout -q -- .
[ -d build ] || cmake -S . -B build > /dev/null 2>&1
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cmake --build build -j4 > /tmp/x/pl.b 2>&1 || tail -3 /tmp/x/pl.b
  bash $d/demo.sh > /tmp/x/pl.d1 2>&1; a=$?
  git apply $d/patch.diff || { echo "$id: no apply"; continue; }
  cmake --build build -j4 > /tmp/x/pl.b 2>&1 || { echo "$id: no build"; tail -5 /tmp/x/pl.b; }
  bash $d/demo.sh > /tmp/x/pl.d2 2>&1; b=$?
  c=-; if [ -z "$NOCHK" ]; then exe=$(SIM_REPO=$P SIM_BUILD=/tmp/x/plbld python3 /verif/sim/build.py | tail -1); $exe --prop $p --seed ${SEED:-1} --seconds ${SECS:-40} --jobs ${JOBS:-8} > /tmp/x/pl.c 2>&1; c=$?; fi
  git checkout -q -- .
  echo "$id ($p): demo clean=$a ($(tail -1 /tmp/x/pl.d1 | cut -c1-80)) patched=$b ($(tail -1 /tmp/x/pl.d2 | cut -c1-100)) check=$c $(grep -a '^violation' /tmp/x/pl.c | cut -c1-160)"
done
