#!/bin/bash
# run.sh ID quick|thorough|replay FILE : build the check of property ID from
# /repo's current tree and run it.
ID="$1"; TIER="${2:-quick}"; FILE="$3"
ROOT=$(cd "$(dirname "$0")" && pwd)
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export GOFLAGS=-mod=mod GOTOOLCHAIN=local GOPROXY=off GODEBUG=goindex=0
id=$(echo "$ID" | tr A-Z a-z)
B="$ROOT/build/$ID"
mkdir -p "$B" || exit 2
cd "$ROOT/mc" || exit 2
OPTS=$(cat "cmd/$id/overlay" 2>/dev/null || echo "merkletree:poseidon")
go build -o "$B/gen" ./cmd/gen || exit 2
"$B/gen" -repo /repo -out "$B" $OPTS || exit 2
if [ -f "cmd/$id/race" ]; then
	# the same program with Go's race detector, which ignores the harness
	CGO_ENABLED=1 go build -race -gcflags=verif/mc/...=-race=false $(cat "cmd/$id/buildflags" 2>/dev/null) -overlay "$B/overlay.json" -o "$B/check-race" "./cmd/$id" || exit 2
fi
go build $(cat "cmd/$id/buildflags" 2>/dev/null) -overlay "$B/overlay.json" -o "$B/check" "./cmd/$id" || exit 2
if [ "$TIER" = replay ]; then
	exec "$B/check" -root "$ROOT" -replay "$FILE"
fi
exec "$B/check" -root "$ROOT" -tier "$TIER"
