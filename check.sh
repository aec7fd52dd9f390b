#!/bin/bash
# usage: check.sh <PROPERTY> [quick|thorough]
# Builds the analyser when it is missing or older than its sources, then analyses /repo's source.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
id="$1"; tier="${2:-${VERIF_TIER:-quick}}"
export VERIF_ROOT="$here" VERIF_TIER="$tier"
bin="$here/bin/molecheck"
build() {
  mkdir -p "$here/bin"
  ( cd "$here/analyzer" && GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0 go build -o "$bin.$$" . && mv "$bin.$$" "$bin" ) >&2
}
if [ ! -x "$bin" ] || [ -n "$(find "$here/analyzer" -newer "$bin" -name '*.go' -print -quit)" ]; then
  build || { echo "cannot build the analyser" >&2; exit 2; }
fi
ulimit -v 24000000 2>/dev/null
exec "$bin" "$id" "$tier"
