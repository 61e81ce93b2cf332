#!/bin/bash
# Usage: check.sh PROPERTY [quick|thorough]. Builds the engine if needed and runs one property's check.
. /opt/vp/env.sh 2>/dev/null || export GOPROXY=off GOTOOLCHAIN=local
cd "$(dirname "$0")" || exit 2
bin=$PWD/bin/verif
if [ ! -x "$bin" ] || [ -n "$(find engine -newer "$bin" -name '*.go' -print -quit)" ]; then
  mkdir -p bin
  (cd engine && go build -mod=readonly -o "$bin.$$" . && mv -f "$bin.$$" "$bin") || { echo "cannot build the engine"; exit 2; }
fi
[ "$1" = setup ] && exit 0
exec "$bin" check -property "$1" -tier "${2:-quick}"
