// C01: a Merkle tree is an exact set of entries with a canonical root.
package main

import (
	"fmt"
	"sort"
	"strings"
	"sync"

	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/merkletree"
	"verif/mc/mcx"
	"verif/mc/world"
)

type entrier struct{ e *merkletree.Entry }

func (e entrier) Entry() *merkletree.Entry { return e.e }

// roots maps every root seen in the process to its set: the map must stay one-to-one.
var (
	rootsMu  sync.Mutex
	rootSet  = map[merkletree.Hash]string{}
	setRoots = map[string]merkletree.Hash{}
)

type sys struct {
	alpha  *world.Alphabet
	all    []merkletree.Data
	ref    *world.RefTree
	mt     *merkletree.MerkleTree
	st     db.Storage
	reopen func() (db.Storage, error)
	digest func() string
	done   func()
	names  []string
	hist   []string
	levels int
	useSet bool
}

func (s *sys) Ops() []string {
	var r []string
	for _, n := range s.alpha.Names {
		r = append(r, "add "+n)
	}
	return append(r, "reopen")
}

func (s *sys) Do(op string, full bool) error {
	if op == "reopen" {
		st, err := s.reopen()
		if err != nil {
			return err
		}
		s.st = st
		mt, err := merkletree.NewMerkleTree(st, s.levels)
		if err != nil {
			return fmt.Errorf("reopening fails: %v", err)
		}
		s.mt = mt
	} else {
		n := strings.TrimPrefix(op, "add ")
		d := s.alpha.Data[n]
		v := s.ref.Verdict(&d)
		var before string
		if full {
			before = s.digest()
		}
		var err error
		if len(s.hist)%2 == 0 {
			err = s.mt.AddEntry(world.Entry(d))
		} else {
			err = s.mt.AddClaim(entrier{world.Entry(d)})
		}
		if e := world.CheckAdd(err, v); e != nil {
			return e
		}
		if full && v != world.AddOK && s.digest() != before {
			return fmt.Errorf("a refused insertion changed the storage")
		}
		s.ref.Add(&d)
		if v == world.AddOK {
			s.hist = append(s.hist, n)
		}
	}
	if !full {
		return nil
	}
	if err := world.ObserveTree(s.mt, s.ref, nil, s.all); err != nil {
		return err
	}
	names := append([]string{}, s.hist...)
	sort.Strings(names)
	set := strings.Join(names, ",")
	root := *s.mt.RootKey()
	rootsMu.Lock()
	defer rootsMu.Unlock()
	if o, ok := rootSet[root]; ok && o != set {
		return fmt.Errorf("sets {%s} and {%s} have the same root", o, set)
	}
	if o, ok := setRoots[set]; ok && o != root {
		return fmt.Errorf("set {%s} has two roots", set)
	}
	rootSet[root], setRoots[set] = set, root
	return nil
}

func (s *sys) Key() string {
	if s.useSet {
		return strings.Join(s.hist, ">")
	}
	return s.digest() + s.mt.RootKey().Hex()
}
func (s *sys) Close() { s.done() }

func newSys(b world.Backend, a *world.Alphabet, levels int) func() (mcx.Sys, error) {
	return func() (mcx.Sys, error) {
		s := &sys{alpha: a, ref: world.NewRefTree(levels), levels: levels}
		s.st, s.reopen, s.digest, s.done = b.New()
		for _, n := range a.Names {
			s.all = append(s.all, a.Data[n])
		}
		var err error
		s.mt, err = merkletree.NewMerkleTree(s.st, levels)
		if err == nil && s.mt.MaxLevels() != levels {
			err = fmt.Errorf("max levels %d", s.mt.MaxLevels())
		}
		return s, err
	}
}

// deep inserts entries sharing long paths (across byte boundaries of the path)
// in every rotation of three orders.
func deepCase(levels int, order []int) error {
	all := []merkletree.Data{world.BaseEntry()}
	for _, c := range order {
		all = append(all, world.Sharing(c))
	}
	for variant := 0; variant < 3; variant++ {
		seq := append([]merkletree.Data{}, all...)
		switch variant {
		case 1:
			for i, j := 0, len(seq)-1; i < j; i, j = i+1, j-1 {
				seq[i], seq[j] = seq[j], seq[i]
			}
		case 2:
			seq = append(seq[len(seq)/2:], seq[:len(seq)/2]...)
		}
		d := world.NewDisk()
		mt, err := merkletree.NewMerkleTree(d.Storage(), levels)
		if err != nil {
			return err
		}
		ref := world.NewRefTree(levels)
		for i := range seq {
			v := ref.Verdict(&seq[i])
			if e := world.CheckAdd(mt.AddEntry(world.Entry(seq[i])), v); e != nil {
				return fmt.Errorf("variant %d entry %d: %v", variant, i, e)
			}
			ref.Add(&seq[i])
		}
		if err := world.ObserveTree(mt, ref, nil, all); err != nil {
			return err
		}
		mt2, err := merkletree.NewMerkleTree(d.Storage(), levels)
		if err != nil {
			return err
		}
		if err := world.ObserveTree(mt2, ref, nil, all); err != nil {
			return fmt.Errorf("reopened: %v", err)
		}
	}
	return nil
}

func main() {
	defer world.CleanScratch()
	mcx.Main("C01", "model_checking", func(c *mcx.Ctx) {
		c.Rule("breadth-first search over all sequences of insertions (entries sharing 0..6 path bits, duplicate indices with other values, elements outside the field) and reopenings, per depth limit and storage backend; a state is the full storage content; plus pairs/triples of entries sharing up to 23 path bits at every depth limit around them")
		c.Assume("Poseidon is collision free on the explored inputs (checked: distinct sets had distinct roots)")
		lv := []int{0, 1, 2, 3, 4, 5, 6, 8, 140}
		for _, l := range lv {
			a := world.NewAlphabet(0, 1, 2, 4)
			if l == 6 || l == 140 {
				a = world.NewAlphabet(0, 1, 3, 4, 6)
			}
			c.BFS(mcx.BFS{Name: fmt.Sprintf("disk-L%d", l), New: newSys(world.DiskBackend(), a, l), Depth: 14})
		}
		c.BFS(mcx.BFS{Name: "memory-L5", New: newSys(world.MemBackend(), world.NewAlphabet(0, 2, 4), 5), Depth: 12})
		c.BFS(mcx.BFS{Name: "leveldb-L4", New: func() (mcx.Sys, error) {
			s, err := newSys(world.LevelBackend(), world.NewAlphabet(1, 4), 4)()
			return s, err
		}, Depth: c.Pick(4, 8)})
		if c.Thorough() {
			c.BFS(mcx.BFS{Name: "disk-L9-wide", New: newSys(world.DiskBackend(), world.NewAlphabet(0, 1, 2, 3, 5, 7), 9), Depth: 16})
			c.BFS(mcx.BFS{Name: "memory-L7", New: newSys(world.MemBackend(), world.NewAlphabet(0, 1, 2, 4, 5), 7), Depth: 16})
		}
		lens := world.DeepLens()
		type dc struct {
			levels int
			order  []int
		}
		var cs []dc
		for i, a := range lens {
			for _, l := range []int{a, a + 1, a + 2, a + 3, 64, 256} {
				cs = append(cs, dc{l, []int{a}})
				for _, b := range lens[:i] {
					cs = append(cs, dc{l, []int{a, b}})
				}
			}
		}
		cs = append(cs, dc{140, lens}, dc{32, lens}, dc{18, lens}, dc{25, lens}, dc{24, lens})
		c.Each("deep", len(cs), func(i int) string { return fmt.Sprintf("levels=%d shared=%v", cs[i].levels, cs[i].order) }, func(i int) error {
			return deepCase(cs[i].levels, cs[i].order)
		})
		c.DistinctN(len(cs))
		world.CleanScratch()
	})
}
