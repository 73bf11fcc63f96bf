#!/bin/bash
# Builds every check once (offline) from the committed files and /repo.
ROOT=$(cd "$(dirname "$0")" && pwd)
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export GOFLAGS=-mod=mod GOTOOLCHAIN=local GOPROXY=off
mkdir -p "$ROOT/build" "$ROOT/evidence" || exit 1
cd "$ROOT/mc" && go build ./mcx ./sched ./vsync ./vtime ./vposeidon && go build -o "$ROOT/build/gen" ./cmd/gen
