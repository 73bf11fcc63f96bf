ID="c14-absence-as-presence"; PROP="C14"; ZK=1
NEEDS="a credential whose tree proof is a proof of absence, made from the proof of another claim on the same path"
BREAKS="the verifier no longer asks that the proof shows presence, so a claim never issued is accepted with a proof of its absence"
EDITS=[("components/verifier/verifier.go","""	if !credExist.MtpClaim.Existence {
		return ErrMtpNonExistence
	}
""","""	if !credExist.MtpClaim.Existence && credExist.MtpClaim.NodeAux == nil {
		return ErrMtpNonExistence
	}
""")]
PKG="components/verifier"
TEST='''package demo

import (
	"testing"

	"github.com/iden3/go-iden3-core/components/verifier"
	"github.com/iden3/go-iden3-core/merkletree"
	"github.com/iden3/go-iden3-core/zzstub/env"
)

func TestZZDemo(t *testing.T) {
	w := env.New(1)
	a := env.Claim(1, 1)
	if err := w.Iss.IssueClaim(a); err != nil {
		t.Fatal(err)
	}
	if err := w.Publish(); err != nil {
		t.Fatal(err)
	}
	c, err := w.Iss.GenCredentialExistence(a)
	if err != nil {
		t.Fatal(err)
	}
	v := verifier.New(w.Chain)
	if err := v.VerifyCredentialExistence(c); err != nil {
		t.Fatal(err)
	}
	hi, hv, err := c.Claim.HiHv()
	if err != nil {
		t.Fatal(err)
	}
	p := *c.MtpClaim
	p.Existence = false
	p.NodeAux = &merkletree.NodeAux{HIndex: hi, HValue: hv}
	// a claim that was never issued
	for i := byte(2); i < 200; i++ {
		f := *c
		f.MtpClaim = &p
		f.Claim = env.Claim(i, 9).Entry()
		if err := v.VerifyCredentialExistence(&f); err == nil {
			t.Fatalf("claim %d was never issued", i)
		}
	}
}
'''
