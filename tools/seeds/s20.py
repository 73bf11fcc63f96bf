ID="c15-time-unchecked"; PROP="C15"; ZK=1
NEEDS="an outdated validity credential whose block time was moved forward"
BREAKS="only the state is compared with the chain, so the block time, on which freshness is judged, can be chosen by whoever presents the credential"
EDITS=[("components/verifier/verifier.go","""	if !reflect.DeepEqual(idenStateDataOnChain, &credValid.IdenStateData) {
""","""	if idenStateDataOnChain.BlockN != credValid.IdenStateData.BlockN ||
		!idenStateDataOnChain.IdenState.Equals(credValid.IdenStateData.IdenState) {
""")]
PKG="components/verifier"
TEST='''package demo

import (
	"testing"
	"time"

	"github.com/iden3/go-iden3-core/components/verifier"
	"github.com/iden3/go-iden3-core/identity/holder"
	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/zzstub/env"
)

func TestZZDemo(t *testing.T) {
	w := env.New(1)
	a := env.Claim(1, 1)
	if err := w.Iss.IssueClaim(a); err != nil {
		t.Fatal(err)
	}
	if err := w.Publish(); err != nil {
		t.Fatal(err)
	}
	ks, pk := env.Key(7)
	st := db.NewMemoryStorage()
	if _, err := holder.Create(holder.ConfigDefault, pk, nil, st, ks); err != nil {
		t.Fatal(err)
	}
	h, err := holder.Load(st, ks, w.Chain, nil, nil, w.Off)
	if err != nil {
		t.Fatal(err)
	}
	ce, err := w.Iss.GenCredentialExistence(a)
	if err != nil {
		t.Fatal(err)
	}
	cv, err := h.HolderGetCredentialValidity(ce)
	if err != nil {
		t.Fatal(err)
	}
	if err := w.Iss.RevokeClaim(a); err != nil {
		t.Fatal(err)
	}
	if err := w.Publish(); err != nil {
		t.Fatal(err)
	}
	now := time.Unix(cv.IdenStateData.BlockTs+10000, 0)
	v := verifier.NewWithTimeNow(w.Chain, func() time.Time { return now })
	if err := v.VerifyCredentialValidity(cv, time.Minute); err == nil {
		t.Fatal("outdated, but accepted")
	}
	cv.IdenStateData.BlockTs = now.Unix() - 1
	if err := v.VerifyCredentialValidity(cv, time.Minute); err == nil {
		t.Fatal("revoked claim accepted with another block time")
	}
}
'''
