ID="c20-narrow-lock"; PROP="C20"
NEEDS="two publications at the same time, the second reading the cache position before the first has committed"
BREAKS="the cache position is read before the lock is taken, so two concurrent publications use the same slot and one of two acknowledged states is not retained"
EDITS=[("components/idenpuboffchain/writerhttp/writerhttp.go","""	i.rw.Lock()
	defer i.rw.Unlock()

	cacheIdx, err := i.nextCacheIdx(tx)
	if err != nil {
		return err
	}
""","""	cacheIdx, err := i.nextCacheIdx(tx)
	if err != nil {
		return err
	}
	i.rw.Lock()
	defer i.rw.Unlock()
""")]
COMMON='''package writerhttp

import (
	"errors"
	"sync"
	"testing"
	"time"

	"github.com/iden3/go-iden3-core/components/idenpuboffchain"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/merkletree"
)

var _ = errors.New
var _ sync.Mutex
var _ time.Duration

type hookSt struct {
	db.Storage
	commit func() error
}

type hookTx struct {
	db.Tx
	s *hookSt
}

func (s *hookSt) NewTx() (db.Tx, error) {
	tx, err := s.Storage.NewTx()
	return &hookTx{tx, s}, err
}

func (t *hookTx) Commit() error {
	if t.s.commit != nil {
		if err := t.s.commit(); err != nil {
			return err
		}
	}
	return t.Tx.Commit()
}

func demoData(t *testing.T, n int) *idenpuboffchain.PublicData {
	rot, err := merkletree.NewMerkleTree(db.NewMemoryStorage(), 140)
	if err != nil {
		t.Fatal(err)
	}
	ret, err := merkletree.NewMerkleTree(db.NewMemoryStorage(), 140)
	if err != nil {
		t.Fatal(err)
	}
	for i := 1; i <= n; i++ {
		if err := claims.AddLeafRootsTree(rot, &merkletree.Hash{byte(i)}); err != nil {
			t.Fatal(err)
		}
	}
	clr := &merkletree.Hash{byte(n + 1)}
	return &idenpuboffchain.PublicData{IdenState: core.IdenState(clr, ret.RootKey(), rot.RootKey()), ClaimsTreeRoot: clr,
		RevocationsTreeRoot: ret.RootKey(), RevocationsTree: ret, RootsTreeRoot: rot.RootKey(), RootsTree: rot}
}
'''
PKG="components/idenpuboffchain/writerhttp"
TEST=COMMON+'''
func TestZZDemo(t *testing.T) {
	st := &hookSt{Storage: db.NewMemoryStorage()}
	w, err := NewIdenPubOffChainWriteHttp(NewConfigDefault("http://foo.bar"), st)
	if err != nil {
		t.Fatal(err)
	}
	a, b := demoData(t, 1), demoData(t, 2)
	var once sync.Once
	done := make(chan error, 1)
	st.commit = func() error {
		once.Do(func() {
			go func() { done <- w.Publish(&core.ID{}, b) }()
			time.Sleep(500 * time.Millisecond)
		})
		return nil
	}
	if err := w.Publish(&core.ID{}, a); err != nil {
		t.Fatal(err)
	}
	if err := <-done; err != nil {
		t.Fatal(err)
	}
	for i, d := range []*idenpuboffchain.PublicData{a, b} {
		if _, err := w.GetPublicData(d.IdenState); err != nil {
			t.Fatalf("publication %d is lost: %v", i, err)
		}
	}
}
'''
