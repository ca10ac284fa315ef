#!/bin/bash
# run.sh ID [tier]: decide one property on /repo's current tree.
# Builds the symbolic engine from /verif/engine when its binary is missing or
# stale (every check runs in a throw-away copy), then runs it.
here="$(cd "$(dirname "$0")" && pwd)"
export PATH="/usr/local/go/bin:$PATH"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
bin="$here/bin/ve"
mkdir -p "$here/bin" "$here/evidence"
(cd "$here/engine" && go build -o "$bin" .) || { echo "engine build failed" >&2; exit 2; }
exec "$bin" -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}" -seed "${VERIF_SEED:-1}" -repo /repo -verif "$here"
