#!/bin/bash
# Builds the symbolic executor from engine/ into bin/ (skipped when it is up to date).
here=$(cd "$(dirname "$0")" && pwd)
sum=$(cat "$here"/engine/*.go "$here"/engine/go.mod | sha256sum | cut -c1-16)
if [ -x "$here/bin/gosym" ] && [ "$(cat "$here/bin/stamp" 2>/dev/null)" = "$sum" ]; then exit 0; fi
mkdir -p "$here/bin"
export HOME=${HOME:-/root}
cd "$here/engine" || exit 2
GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local go build -o "$here/bin/gosym.$$" . || exit 2
mv "$here/bin/gosym.$$" "$here/bin/gosym" && echo "$sum" > "$here/bin/stamp"
