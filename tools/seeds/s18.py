ID="c16-nonce-outside-lock"; PROP="C16"; ZK=1
NEEDS="two issuances interleaving between reading and storing the nonce"
BREAKS="the nonce is taken before the issuer's lock, so concurrent issuances can get the same nonce"
EDITS=[("identity/issuer/issuer.go","""	is.rw.Lock()
	defer is.rw.Unlock()
	tx, err := is.storage.NewTx()
	if err != nil {
		return err
	}
	nonce, err := is.nonceGen.Next(tx)
	if err != nil {
		return err
	}
	if err := tx.Commit(); err != nil {
		return err
	}
""","""	tx, err := is.storage.NewTx()
	if err != nil {
		return err
	}
	nonce, err := is.nonceGen.Next(tx)
	if err != nil {
		return err
	}
	if err := tx.Commit(); err != nil {
		return err
	}
	is.rw.Lock()
	defer is.rw.Unlock()
""")]
PKG="identity/issuer"
TEST='''package demo

import (
	"testing"
	"time"

	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/identity/issuer"
	"github.com/iden3/go-iden3-core/zzstub/env"
)

// hooked runs a function right before the first commit.
type hooked struct {
	db.Storage
	hook *func()
}
type hookedTx struct {
	db.Tx
	hook *func()
}

func (f hooked) WithPrefix(p []byte) db.Storage { return f.Storage.WithPrefix(p) }
func (f hooked) NewTx() (db.Tx, error) {
	tx, err := f.Storage.NewTx()
	return hookedTx{tx, f.hook}, err
}
func (t hookedTx) Commit() error {
	if h := *t.hook; h != nil {
		*t.hook = nil
		h()
	}
	return t.Tx.Commit()
}

func TestZZDemo(t *testing.T) {
	w := env.New(1)
	var hook func()
	is, err := issuer.Load(hooked{w.Store, &hook}, w.Keys, w.Chain, w.Zk, w.Off)
	if err != nil {
		t.Fatal(err)
	}
	a, b := env.Claim(1, 1), env.Claim(2, 2)
	done := make(chan error, 1)
	hook = func() {
		go func() { done <- is.IssueClaim(b) }()
		time.Sleep(500 * time.Millisecond)
	}
	if err := is.IssueClaim(a); err != nil {
		t.Fatal(err)
	}
	if err := <-done; err != nil {
		t.Fatal(err)
	}
	if na, nb := claims.GetRevocationNonce(a.Entry()), claims.GetRevocationNonce(b.Entry()); na == nb {
		t.Fatalf("both claims have nonce %d", na)
	}
}
'''
