#!/bin/bash
# Builds the checker from the committed files, offline.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=vendor GOWORK=off
mkdir -p "$here/bin"
cd "$here/checker"
go build -o "$here/bin/checker.$$" .
mv -f "$here/bin/checker.$$" "$here/bin/checker"
