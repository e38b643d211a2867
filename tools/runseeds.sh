#!/bin/bash
# runseeds.sh [GLOB]: the quick check of each planted bug's property, on a scratch copy with the bug applied
here=$(cd "$(dirname "$0")/.." && pwd)
d=/tmp/runseeds; rm -rf /tmp/runseeds; cp -a /repo $d
for s in "$here"/seeded/${1:-*}/; do
  id=$(basename "$s"); p=$(python3 -c "import json,sys;print(json.load(open(sys.argv[1]))['property'])" "$s/meta.json")
  git -C $d checkout -q -- .; git -C $d apply "$s/patch.diff" || { echo "$id: patch does not apply"; continue; }
  t=$SECONDS; out=$(cd "$here" && SX_REPO=$d timeout 900 ./check.sh "$p" quick 2>&1); rc=$?
  echo "$id rc=$rc $((SECONDS-t))s $(echo "$out" | grep -m1 '^VIOLATION' | cut -c1-160)"
done
rm -rf /tmp/runseeds
