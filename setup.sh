#!/bin/bash
set -e
here="$(cd "$(dirname "$0")" && pwd)"
mkdir -p "$here/bin" "$here/evidence"
cd "$here/analyzer" && GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0 go build -o "$here/bin/molecheck" .
