#!/bin/bash
# Runs demo_test.go against the tree under test, with the
# Groth16 prover (whose keys have to be downloaded) replaced by a stand-in.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
cp "$here/demo_test.go" "$t/demo_test.go"
m=github.com/iden3/go-iden3-core/zzstub
r="\"/repo/zzstub/demo/demo_test.go\":\"$t/demo_test.go\""
for p in prover verifier parsers witnesscalc env; do
	cp "$here/$p.go.txt" "$t/$p.go"
	r="$r,\"/repo/zzstub/$p/$p.go\":\"$t/$p.go\""
done
n=0
for f in $(grep -lE 'go-circom-(prover-verifier/(prover|verifier|parsers)|witnesscalc)"' -r /repo/identity /repo/components /repo/utils --include=*.go | grep -v _test.go); do
	n=$((n+1))
	sed -E "s#\"github.com/iden3/go-circom-prover-verifier/(prover|verifier|parsers)\"#\"$m/\\1\"#; s#\"github.com/iden3/go-circom-witnesscalc\"#\"$m/witnesscalc\"#" "$f" > "$t/f$n.go"
	r="$r,\"$f\":\"$t/f$n.go\""
done
echo "{\"Replace\":{$r}}" > "$t/overlay.json"
cd /repo && timeout 250 go test -c -vet=off @FLAGS@ -overlay "$t/overlay.json" -o "$t/demo" ./zzstub/demo && cd "$t" && timeout 200 ./demo -test.v -test.run TestZZDemo
