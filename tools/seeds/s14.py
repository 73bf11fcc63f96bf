ID="c12-late-nonce"; PROP="C12"; ZK=1
NEEDS="the storage refuses the commit after the claim was added"
BREAKS="the nonce is recorded as used only after the claim is in the tree, so the next claim can get the same one"
EDITS=[("identity/issuer/issuer.go","""	if err := tx.Commit(); err != nil {
		return err
	}
	prevNonce := claim.Metadata().RevNonce
	claim.Metadata().RevNonce = nonce
	err = is.claimsTree.AddClaim(claim)
	if err != nil {
		claim.Metadata().RevNonce = prevNonce
		return err
	}
	return nil
""","""	prevNonce := claim.Metadata().RevNonce
	claim.Metadata().RevNonce = nonce
	err = is.claimsTree.AddClaim(claim)
	if err != nil {
		claim.Metadata().RevNonce = prevNonce
		return err
	}
	return tx.Commit()
""")]
PKG="identity/issuer"
TEST='''package demo

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/identity/issuer"
	"github.com/iden3/go-iden3-core/zzstub/env"
)

type failing struct {
	db.Storage
	left *int
}
type failTx struct {
	db.Tx
	left *int
}

func (f failing) WithPrefix(p []byte) db.Storage { return failing{f.Storage.WithPrefix(p), f.left} }
func (f failing) NewTx() (db.Tx, error) {
	tx, err := f.Storage.NewTx()
	return failTx{tx, f.left}, err
}
func (t failTx) Add(o db.Tx) {
	if f, ok := o.(failTx); ok {
		o = f.Tx
	}
	t.Tx.Add(o)
}
func (t failTx) Commit() error {
	*t.left--
	if *t.left == 0 {
		return fmt.Errorf("commit refused")
	}
	return t.Tx.Commit()
}

func TestZZDemo(t *testing.T) {
	for at := 1; at <= 3; at++ {
		w := env.New(1)
		left := 0
		store := failing{w.Store, &left}
		is, err := issuer.Load(store, w.Keys, w.Chain, w.Zk, w.Off)
		if err != nil {
			t.Fatal(err)
		}
		a, b := env.Claim(1, 1), env.Claim(2, 2)
		left = at
		errA := is.IssueClaim(a)
		if errA != nil {
			left = 0
			errA = is.IssueClaim(a) // may be there already
		}
		left = 0
		if err := is.IssueClaim(b); err != nil {
			t.Fatal(err)
		}
		ea, eb := a.Entry(), b.Entry()
		if bytes.Equal(ea.Data[4][:4], eb.Data[4][:4]) {
			t.Fatalf("failure %d: both claims have nonce %v", at, ea.Data[4][:4])
		}
	}
}
'''
