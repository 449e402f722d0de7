#!/bin/bash
# Builds the engine from the committed sources.
export HOME=${HOME:-/root}
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
dir=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$dir/bin" "$dir/evidence"
cd "$dir/engine" || exit 2
GOFLAGS=-mod=readonly GOPROXY=off GOSUMDB=off GOWORK=off GOTOOLCHAIN=local go build -o "$dir/bin/symgo" .
