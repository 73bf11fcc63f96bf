ID="c10-init-once"; PROP="C10"; ZK=1
NEEDS="the first publication's transaction reverts (or its answer is lost after it was recorded) and is retried"
BREAKS="a retried first publication is sent as a regular update, which the contract refuses for ever"
EDITS=[("identity/issuer/issuer.go","""	if is.idenStateOnChain().Equals(&merkletree.HashZero) {
		// Identity State not present in the Smart Contract. First time
		// publishing it.""","""	if is.ethTxInitState() == nil {
		// Identity State not present in the Smart Contract. First time
		// publishing it.""")]
PKG="identity/issuer"
TEST='''package demo

import (
	"testing"

	"github.com/iden3/go-iden3-core/zzstub/env"
)

func TestZZDemo(t *testing.T) {
	w := env.New(1)
	if err := w.Iss.IssueClaim(env.Claim(1, 1)); err != nil {
		t.Fatal(err)
	}
	if err := w.Iss.PublishState(); err != nil {
		t.Fatal(err)
	}
	w.Chain.Txs[0].Status, w.Chain.Txs[0].Block = 2, 11 // reverted
	if err := w.Iss.SyncIdenStatePublic(); err == nil {
		t.Fatal("a reverted transaction must be reported")
	}
	if err := w.Iss.PublishState(); err != nil {
		t.Fatal(err)
	}
	if n := len(w.Chain.Txs); n != 2 || !w.Chain.Txs[1].Init {
		t.Fatalf("%d submissions; the retry must initialise the identity", n)
	}
}
'''
