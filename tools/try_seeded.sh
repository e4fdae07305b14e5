#!/bin/bash
# runs the check of each seeded bug given (default all) on a patched scratch copy of /repo
cd "$(dirname "$0")/.."
V=$PWD
for id in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  W=/tmp/trys_$id; rm -rf $W; mkdir -p $W; cp -a /repo $W/repo
  git -C $W/repo apply $V/seeded/$id/patch.diff || echo "patch does not apply"
  out=$(RTV_REPO=$W/repo RTV_EVIDENCE=$W python3-vt check.py $p 2>&1); rc=$?
  echo "$id $p exit $rc: $(echo "$out" | tail -3 | tr '\n' ' ' | cut -c1-260)"
  rm -rf $W
done
