#!/bin/bash
# Builds the symbolic engine and tests its term translation.
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
mkdir -p "$here/bin" "$here/evidence"
cd "$here/engine" && go build -o "$here/bin/ve" . && go test ./...
