#!/bin/bash
# tools/seedcheck.sh [ids]: which planted bugs does the check of their property notice (in scratch copies)
V=$(cd "$(dirname "$0")/.." && pwd); W=/tmp/vseed; rm -rf /tmp/vseed; mkdir -p $W
for i in ${@:-$(ls $V/seeded)}; do
  rm -rf /tmp/vseed/repo; mkdir -p $W/repo; cp -a /repo/scantool $W/repo/
  (cd $W/repo && patch -s -p1 < $V/seeded/$i/patch.diff) || { echo "$i: patch does not apply"; continue; }
  m=$(python3 -c "import json;print(json.load(open('$V/seeded/$i/meta.json'))['property'])")
  VERIF_REPO=$W/repo VERIF_BUILD=$W/build VERIF_NOMC=1 VERIF_SEED=${SEED:-1} python3 $V/checks/run.py $m > $W/o 2>&1; echo "$i $m rc=$? $(grep -c VIOLATION $W/o)"
done
rm -rf /tmp/vseed
