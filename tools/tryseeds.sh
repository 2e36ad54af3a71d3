#!/bin/bash
# tryseeds.sh [ID...]: runs the quick check of each planted change's property on a scratch copy with the change.
V=$(cd "$(dirname "$0")/.." && pwd)
cd "$V/seeded" || exit 1
for s in ${@:-*}; do
  W=/tmp/tryseed.$$; cp -a /repo $W
  git -C $W apply "$V/seeded/$s/patch.diff" || echo "$s: patch does not apply"
  p=$(python3 -c "import json,sys;print(json.load(open(sys.argv[1]))['property'])" "$V/seeded/$s/meta.json")
  t0=$(date +%s)
  out=$(GOCV_REPO=$W VERIF_SEED=1 VERIF_TIER=quick timeout 900 "$V/check.sh" $p quick 2>&1); rc=$?
  echo "$s $p rc=$rc $(( $(date +%s) - t0 ))s $(grep -m1 VIOLATION <<<"$out")"
  rm -rf $W
done
