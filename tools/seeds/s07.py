ID="c07-late-lock"; PROP="C07"
NEEDS="two concurrent insertions interleaved between reading the root and taking the lock"
BREAKS="concurrent insertions are lost: both extend the same root"
EDITS=[("merkletree/merkletree.go","""	mt.Lock()
	defer mt.Unlock()

	newNodeLeaf := NewNodeLeaf(e)
	hIndex, err := e.HIndex()
	if err != nil {
		return err
	}
	path := getPath(mt.maxLevels, hIndex)

	newRootKey, err := mt.addLeaf(tx, newNodeLeaf, mt.rootKey, 0, path)
""","""	rootKey := mt.RootKey()

	newNodeLeaf := NewNodeLeaf(e)
	hIndex, err := e.HIndex()
	if err != nil {
		return err
	}
	path := getPath(mt.maxLevels, hIndex)

	mt.Lock()
	defer mt.Unlock()
	newRootKey, err := mt.addLeaf(tx, newNodeLeaf, rootKey, 0, path)
""")]
PKG="merkletree"
TEST='''package merkletree

import (
	"sync"
	"testing"

	"github.com/iden3/go-iden3-core/db"
)

type gate struct {
	db.Storage
	mu      sync.Mutex
	on      bool
	started chan bool
	release chan bool
}

func (g *gate) NewTx() (db.Tx, error) { return g.Storage.NewTx() }

func (g *gate) Get(k []byte) ([]byte, error) {
	g.mu.Lock()
	on := g.on
	g.on = false
	g.mu.Unlock()
	if on {
		close(g.started)
		<-g.release
	}
	return g.Storage.Get(k)
}

// A second insertion starts while the first one is reading the tree; both
// entries must be there at the end.
func TestZZDemo(t *testing.T) {
	dir := t.TempDir()
	st, err := db.NewLevelDbStorage(dir, false)
	if err != nil {
		t.Fatal(err)
	}
	defer st.Close()
	for round := 0; round < 40; round++ {
		g := &gate{Storage: st.WithPrefix([]byte{byte(round)}), started: make(chan bool), release: make(chan bool)}
		mt, err := NewMerkleTree(g, 140)
		if err != nil {
			t.Fatal(err)
		}
		mk := func(i byte) *Entry { e := &Entry{}; e.Data[0][0] = i; return e }
		if err := mt.AddEntry(mk(1)); err != nil {
			t.Fatal(err)
		}
		g.mu.Lock()
		g.on = true
		g.mu.Unlock()
		var wg sync.WaitGroup
		wg.Add(9)
		go func() {
			defer wg.Done()
			if err := mt.AddEntry(mk(2)); err != nil {
				t.Error(err)
			}
		}()
		<-g.started
		for i := byte(3); i < 11; i++ {
			i := i
			go func() {
				defer wg.Done()
				if err := mt.AddEntry(mk(i)); err != nil {
					t.Error(err)
				}
			}()
		}
		for y := 0; y < 100000; y++ {
			if y%1000 == 0 {
				runtimeGosched()
			}
		}
		close(g.release)
		wg.Wait()
		cl, err := mt.DumpClaims(nil)
		if err != nil {
			t.Fatal(err)
		}
		if len(cl) != 10 {
			t.Fatalf("%d entries, want 10", len(cl))
		}
	}
}

func runtimeGosched() { runtimeSleep() }
'''
TEST=TEST.replace("func runtimeGosched() { runtimeSleep() }","func runtimeGosched() { time.Sleep(100 * time.Microsecond) }").replace('	"testing"\n','	"testing"\n	"time"\n',1)
