#!/bin/bash
# tryreplay.sh [ID…]: runs the replay drivers of each planted change's property on a scratch copy with the change.
V=$(cd "$(dirname "$0")/.." && pwd)
for s in ${@:-$(ls "$V/seeded")}; do
  W=$(mktemp -d); cp -a /repo "$W/r"; git -C "$W/r" apply "$V/seeded/$s/patch.diff"
  p=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "$V/seeded/$s/meta.json")
  o=$("$V/tools/replay.sh" -r "$W/r" "^TestVerif$p" 2>&1)
  echo "$s $p: $(echo "$o" | grep -m1 -o 'FAILING-INPUT.*' | cut -c1-300 || true)"
  echo "$o" | grep -q FAILING || echo "   NOT FOUND: $(echo "$o" | tail -3)"
  rm -rf "$W"
done
