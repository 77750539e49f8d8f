#!/bin/bash
# run.sh ID: decides property ID on the source in /repo (or $REPO).
set -u
here=$(cd "$(dirname "$0")" && pwd)
bin=$here/bin/checker
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOWORK=off
if [ ! -x "$bin" ] || [ -n "$(find "$here/checker" -name '*.go' -newer "$bin" -not -path '*/vendor/*' -print -quit)" ]; then
	bash "$here/build.sh" || { echo "VIOLATION property=$1 replay=$here/build.sh"; exit 1; }
fi
exec "$bin" -property "$1" -dir "$here" -repo "${REPO:-/repo}"
