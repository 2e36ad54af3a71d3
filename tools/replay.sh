#!/bin/bash
# replay.sh [-r DIR] PATTERN: runs the replay drivers whose names match on DIR (default /repo).
R=/repo; [ "$1" = -r ] && { R=$2; shift 2; }
V=$(cd "$(dirname "$0")/.." && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
python3 - "$V" "$R" > "$T/o.json" <<'P'
import sys,glob,os,json
v,r=sys.argv[1:]
m={f:"" for f in glob.glob(r+"/*_test.go")}
for f in glob.glob(v+"/replay/d1__*_test.go"): m[r+"/zz_verif_"+os.path.basename(f)[4:]]=f
print(json.dumps({"Replace":m}))
P
cd "$R" && VERIF_TMP=$T TMPDIR=$T GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local go test -overlay "$T/o.json" -vet=off -count=1 -timeout 900s -run "$1" $2 .
