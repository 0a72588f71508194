#!/bin/bash
# tools/seed.sh ID [PROPS...]: confirm one planted bug (tests pass in a scratch copy, demo 0 clean / nonzero patched)
# and run the check of its property (or of PROPS) against it. Not used by any check.
ID=$1; shift
D=/verif/seeded/$ID
PROP=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
PROPS=${@:-$PROP}
export LANG=C.UTF-8 MPLBACKEND=Agg PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1
[ -n "$(git -C /repo status --porcelain)" ] && { echo "/repo not clean"; exit 2; }
git -C /repo apply --check $D/patch.diff || exit 2
if [ -z "$SKIPTESTS" ]; then
  W=/tmp/seed-$ID; mkdir -p $W; cp -a /repo/. $W/; git -C $W apply $D/patch.diff
  (cd $W && timeout 600 /opt/venv/bin/python -m pytest -q -x --color=no -p no:cacheprovider -p no:warnings tests 2>&1 | tail -2)
  rm -rf "/tmp/seed-$ID"
fi
cd /repo; timeout 300 bash $D/demo.sh >/tmp/demo.out 2>&1; echo "$ID demo clean: $?"; 
git -C /repo apply $D/patch.diff
timeout 300 bash $D/demo.sh >/tmp/demo.out 2>&1; echo "$ID demo patched: $?"; tail -2 /tmp/demo.out
cd /verif
for P in $PROPS; do timeout 900 bash run.sh $P > /tmp/check.out 2>&1; echo "$ID $P exit $?"; grep -E "VIOLATION|^C[0-9]+|HARNESS" /tmp/check.out | cut -c1-300; done
git -C /repo checkout -- .
git -C /repo status --porcelain
