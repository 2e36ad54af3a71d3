#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds the verifier if it is not there and runs one check.
V="$(cd "$(dirname "$0")" && pwd)"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOCV_VERIF="$V" GOCV_REPO="${GOCV_REPO:-/repo}"
exec 9>"$V/.build.lock"; flock 9
if [ ! -x "$V/.bin/gocv" ] || [ -n "$(find "$V/gocv" -name '*.go' -newer "$V/.bin/gocv" | head -1)" ]; then
  mkdir -p "$V/.bin" && (cd "$V/gocv" && go build -o "$V/.bin/gocv.new" . && mv "$V/.bin/gocv.new" "$V/.bin/gocv") || { echo "the verifier does not build" >&2; exit 2; }
fi
flock -u 9
[ "$1" = setup ] && exit 0
cd "$V" && exec "$V/.bin/gocv" check "$@"
