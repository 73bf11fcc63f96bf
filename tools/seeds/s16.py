ID="c13-latest-roots"; PROP="C13"; ZK=1
NEEDS="asking for a credential while a newer state, with a revocation, is pending"
BREAKS="the credential names the roots of the pending state together with the state on chain, so no verifier accepts it"
EDITS=[("identity/issuer/issuer.go","""	idenStateTreeRoots, err := is.getIdenStateTreeRoots(tx, idenStateData.IdenState)
	if err != nil {
		return nil, err
	}
	claimEntry""","""	_, idenStateTreeRoots, err := is.getIdenStateByIdx(tx, -1)
	if err != nil {
		return nil, err
	}
	claimEntry""")]
PKG="identity/issuer"
TEST='''package demo

import (
	"testing"

	"github.com/iden3/go-iden3-core/components/verifier"
	"github.com/iden3/go-iden3-core/zzstub/env"
)

func TestZZDemo(t *testing.T) {
	w := env.New(1)
	a := env.Claim(1, 1)
	if err := w.Iss.IssueClaim(a); err != nil {
		t.Fatal(err)
	}
	w.Publish()
	if err := w.Iss.IssueClaim(env.Claim(2, 2)); err != nil {
		t.Fatal(err)
	}
	if err := w.Iss.PublishState(); err != nil { // stays pending
		t.Fatal(err)
	}
	c, err := w.Iss.GenCredentialExistence(a)
	if err != nil {
		t.Fatal(err)
	}
	if err := verifier.New(w.Chain).VerifyCredentialExistence(c); err != nil {
		t.Fatal(err)
	}
}
'''
