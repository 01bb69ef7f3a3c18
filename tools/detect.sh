#!/bin/bash
# detect.sh <seeded id> [property...]: applies a planted bug to /repo, runs the checks of its property (or the given ones), undoes it.
cd "$(dirname "$0")/.."
id=$1; shift
props="$*"; [ -n "$props" ] || props=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
git -C /repo apply "$PWD/seeded/$id/patch.diff" || exit 9
trap 'git -C /repo checkout -q -- .' EXIT
for p in $props; do
  s=$(date +%s); out=$(timeout 900 bash run.sh $p quick 2>/tmp/detect.err); rc=$?
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep -c ^VIOLATION) violation line(s): $(grep -m1 -E '^  [a-z]' /tmp/detect.err | cut -c1-160)"
  [ $rc = 3 ] && tail -5 /tmp/detect.err
done
