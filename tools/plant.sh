#!/bin/bash
# tools/plant.sh [-c] ID...   for each planted change: demo without it, then with it build, stable tests, demo and the property's check
# -c: check only
verif="$(cd "$(dirname "$0")/.." && pwd)"; only=
[ "$1" = -c ] && { only=1; shift; }
# the checks run from a snapshot, so that work on them can go on
rm -rf /tmp/plant.v; mkdir /tmp/plant.v; cp -a "$verif"/{sim,wl,run.sh,known_findings.txt} /tmp/plant.v/
git -C /repo diff --quiet || { echo "/repo is not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
for id; do
  d="$verif/seeded/$id"; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  line="$id ($prop):"
  if [ -z "$only" ]; then
    ( cd /repo && timeout 300 bash "$d/demo.sh" >/dev/null 2>&1 ); line="$line demo $?"
  fi
  git -C /repo apply "$d/patch.diff" || { echo "$line does not apply"; continue; }
  if [ -z "$only" ]; then
    bash /opt/vp/build.sh >/tmp/plant.build 2>&1; line="$line build $?"
    bash /opt/vp/test.sh /tmp/plant.json >/tmp/plant.test 2>&1
    line="$line tests $(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=json.load(open('/tmp/plant.json'))['passed']
print('ok' if set(b)<=set(o) else sorted(set(b)-set(o)))")"
    ( cd /repo && timeout 300 bash "$d/demo.sh" >/tmp/plant.demo 2>&1 ); line="$line demo $?"
  fi
  SIM_BUILD=/tmp/plant.b timeout 900 /tmp/plant.v/run.sh check "$prop" quick > /tmp/plant.$id.log 2>&1; rc=$?
  line="$line check $rc $(grep -o 'run [0-9]* fails: \[[a-z-]*\]' /tmp/plant.$id.log | head -1)"
  git -C /repo checkout -q -- .
  echo "$line"
done
