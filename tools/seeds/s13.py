ID="c11-sync-keeps-pending"; PROP="C11"; ZK=1
NEEDS="a restart after a synchronisation that found the pending state on chain"
BREAKS="the stored record still has the confirmed state as pending, so after a restart nothing can be published any more"
EDITS=[("identity/issuer/issuer.go","""		is.setIdenStatePending(tx, &merkletree.HashZero, false)
		if err := is.setIdenStateDataOnChain(tx, idenStateData); err != nil {
			return err
		}
""","""		if err := is.setIdenStateDataOnChain(tx, idenStateData); err != nil {
			return err
		}
""")]
PKG="identity/issuer"
TEST='''package demo

import (
	"testing"

	"github.com/iden3/go-iden3-core/zzstub/env"
)

func TestZZDemo(t *testing.T) {
	w := env.New(1)
	for n := uint64(1); n <= 2; n++ {
		if err := w.Iss.IssueClaim(env.Claim(byte(n), byte(n))); err != nil {
			t.Fatal(err)
		}
		w.Publish()
		w.Load()
		if _, pending := w.Iss.IdenStatePending(); pending {
			t.Fatal("the published state is pending again after a restart")
		}
	}
}
'''
