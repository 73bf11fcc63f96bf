ID="c32-aux-at-root"; PROP="C32"; ZK=1
NEEDS="an issuer that has revoked exactly one claim"
BREAKS="the leaf that proves the absence of a nonce is left out of the inputs when it's the root of the revocations tree: no proof of a valid credential can be made"
EDITS=[("identity/holder/holder.go","""	if credValidData.MtpNotNonce.NodeAux != nil {
""","""	if siblings := credValidData.MtpNotNonce.AllSiblings(); len(siblings) > 0 &&
		credValidData.MtpNotNonce.NodeAux != nil {
""")]
PKG="identity/holder"
SETUP='''package demo

import (
	"testing"

	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/identity/holder"
	"github.com/iden3/go-iden3-core/zzstub/env"
)

func newHolder(t *testing.T, w *env.World) *holder.Holder {
	ks, pk := env.Key(7)
	st := db.NewMemoryStorage()
	if _, err := holder.Create(holder.ConfigDefault, pk, nil, st, ks); err != nil {
		t.Fatal(err)
	}
	h, err := holder.Load(st, ks, w.Chain, nil, nil, w.Off)
	if err != nil {
		t.Fatal(err)
	}
	return h
}
'''
TEST=SETUP+'''
func TestZZDemo(t *testing.T) {
	w := env.New(1)
	a, b := env.Claim(1, 1), env.Claim(2, 1)
	if err := w.Iss.IssueClaim(a); err != nil {
		t.Fatal(err)
	}
	if err := w.Iss.IssueClaim(b); err != nil {
		t.Fatal(err)
	}
	if err := w.Publish(); err != nil {
		t.Fatal(err)
	}
	if err := w.Iss.RevokeClaim(b); err != nil {
		t.Fatal(err)
	}
	if err := w.Publish(); err != nil {
		t.Fatal(err)
	}
	h := newHolder(t, w)
	ce, err := w.Iss.GenCredentialExistence(a)
	if err != nil {
		t.Fatal(err)
	}
	own, err := h.GenIdOwnershipGenesisInputs(8)
	if err != nil {
		t.Fatal(err)
	}
	data, err := h.HolderGetCredentialValidityData(ce)
	if err != nil {
		t.Fatal(err)
	}
	in, err := h.HolderGetCredentialProofInputs(own, ce, data, 16)
	if err != nil {
		t.Fatal(err)
	}
	if in.CredValidRevTreeRoot.Sign() == 0 {
		t.Fatal("nothing is revoked")
	}
	if in.CredValidNotRevMtpNoAux.Sign() != 0 || in.CredValidNotRevMtpAuxHi.Sign() == 0 {
		t.Fatal("the revocations tree has a leaf, but the inputs don't show it")
	}
}
'''
