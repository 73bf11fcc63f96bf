ID="c10-stale-receipt"; PROP="C10"; ZK=1
NEEDS="a second publication, synchronised after it is mined but before it has the configured confirmations"
BREAKS="confirmations of later publications are counted on the first transaction, so a state is taken as on chain too early"
EDITS=[("identity/issuer/issuer.go","""		if is.idenStateOnChain().Equals(&merkletree.HashZero) {
			ethTx = is.ethTxInitState()""","""		if is.ethTxInitState() != nil {
			ethTx = is.ethTxInitState()""")]
PKG="identity/issuer"
TEST='''package demo

import (
	"testing"

	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/identity/issuer"
	"github.com/iden3/go-iden3-core/zzstub/env"
)

func TestZZDemo(t *testing.T) {
	w := env.New(1)
	w.Store = db.NewMemoryStorage()
	cfg := issuer.ConfigDefault
	cfg.ConfirmBlocks = 3
	if _, err := issuer.Create(cfg, w.Pk, nil, w.Store, w.Keys); err != nil {
		t.Fatal(err)
	}
	w.Load()
	for n := uint64(1); n <= 2; n++ {
		if err := w.Iss.IssueClaim(env.Claim(byte(n), byte(n))); err != nil {
			t.Fatal(err)
		}
		if err := w.Iss.PublishState(); err != nil {
			t.Fatal(err)
		}
		w.Chain.Mine()
		for i := 0; i < 3; i++ {
			if err := w.Iss.SyncIdenStatePublic(); err != nil {
				t.Fatal(err)
			}
			if _, pending := w.Iss.IdenStatePending(); !pending {
				t.Fatalf("publication %d on chain after %d confirmations, 3 are required", n, i)
			}
			w.Chain.Block++
		}
		if err := w.Iss.SyncIdenStatePublic(); err != nil {
			t.Fatal(err)
		}
		if _, pending := w.Iss.IdenStatePending(); pending {
			t.Fatal("not on chain after 3 confirmations")
		}
	}
}
'''
