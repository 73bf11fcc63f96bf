// C05: historic roots stay readable, immutable and read-only.
package main

import (
	"bytes"
	"fmt"

	"github.com/iden3/go-iden3-core/merkletree"
	"verif/mc/mcx"
	"verif/mc/vposeidon"
	"verif/mc/world"
)

type H = merkletree.Hash

type entrier struct{ e *merkletree.Entry }

func (e entrier) Entry() *merkletree.Entry { return e.e }

// past is a root that was reached, with what was seen when it was current.
type past struct {
	root  H
	ref   *world.RefTree
	dump  []byte
	views []*merkletree.MerkleTree
}

func scribble(h *H) {
	if h == nil || h == &merkletree.HashZero {
		return
	}
	for i := range h {
		h[i] ^= 0xa5
	}
}

// abuse overwrites everything queries return.
func abuse(mt *merkletree.MerkleTree, root *H, all []merkletree.Data) error {
	r := *root
	for i := range all {
		hi := world.RefHi(&all[i])
		if d, err := mt.GetDataByIndex(&hi); err == nil {
			for k := range d {
				d[k][0] ^= 0xff
			}
		}
		e := world.Entry(all[i])
		_ = mt.EntryExists(e, &r)
		e.Data[0][0] ^= 1
		p, err := mt.GenerateProof(&hi, &r)
		if err != nil {
			return err
		}
		for _, s := range p.Siblings {
			scribble(s)
		}
		if p.NodeAux != nil {
			scribble(p.NodeAux.HIndex)
			scribble(p.NodeAux.HValue)
		}
		scribble(&hi)
	}
	var ns []*merkletree.Node
	if err := mt.Walk(&r, func(n *merkletree.Node) { ns = append(ns, n) }); err != nil {
		return err
	}
	if n, err := mt.GetNode(&r); err == nil {
		ns = append(ns, n)
	}
	for _, n := range ns {
		if n.Type == merkletree.NodeTypeMiddle {
			scribble(n.ChildL)
			scribble(n.ChildR)
		}
		if n.Type == merkletree.NodeTypeLeaf {
			n.Entry.Data[0][0] ^= 0xff
		}
	}
	rk := mt.RootKey()
	for i := range rk {
		rk[i] ^= 0xa5
	}
	if merkletree.HashZero != (H{}) {
		merkletree.HashZero = H{}
		return fmt.Errorf("overwriting a root key handed out changes the library's zero hash")
	}
	scribble(&r)
	return nil
}

func proofsAt(mt *merkletree.MerkleTree, root *H, ref *world.RefTree, all []merkletree.Data) error {
	for i := range all {
		hi := world.RefHi(&all[i])
		p, err := mt.GenerateProof(&hi, root)
		if err != nil {
			return err
		}
		if err := world.CheckProof(p, ref, hi, nil); err != nil {
			return err
		}
	}
	return nil
}

// checkView compares a read-only view with what its root had.
func checkView(v *merkletree.MerkleTree, p *past, all []merkletree.Data, digest func() string) error {
	if err := world.ObserveTree(v, p.ref, nil, all); err != nil {
		return err
	}
	if err := proofsAt(v, nil, p.ref, all); err != nil {
		return err
	}
	before := digest()
	for i := range all {
		if err := v.AddEntry(world.Entry(all[i])); err == nil {
			return fmt.Errorf("a view accepted an insertion")
		}
		if err := v.AddClaim(entrier{world.Entry(all[i])}); err == nil {
			return fmt.Errorf("a view accepted a claim")
		}
		if err := v.ImportDumpedClaims([]string{fmt.Sprintf("0x%x", world.Entry(all[i]).Bytes())}); err == nil {
			return fmt.Errorf("a view imported entries")
		}
	}
	if err := v.ImportTree(bytes.NewReader(p.dump)); err == nil {
		return fmt.Errorf("a view imported a dump")
	}
	if digest() != before {
		return fmt.Errorf("a modification refused by a view changed the storage")
	}
	if *v.RootKey() != p.root {
		return fmt.Errorf("a view's root changed")
	}
	return nil
}

func history(c *mcx.Ctx, b world.Backend, levels int, ds, all []merkletree.Data, mutate, abandon bool) error {
	st, reopen, digest, done := b.New()
	defer done()
	mt, err := merkletree.NewMerkleTree(st, levels)
	if err != nil {
		return err
	}
	ref := world.NewRefTree(levels)
	var ps []*past
	for step := 0; step <= len(ds); step++ {
		if step > 0 {
			d := ds[step-1]
			v := ref.Verdict(&d)
			e := world.Entry(d)
			if err := world.CheckAdd(mt.AddEntry(e), v); err != nil {
				return err
			}
			ref.Add(&d)
			if mutate {
				e.Data = merkletree.Data{}
			}
		}
		root := *mt.RootKey()
		if root != ref.Root() {
			return fmt.Errorf("root differs from the model after step %d", step)
		}
		var buf bytes.Buffer
		if err := mt.DumpTree(&buf, nil); err != nil {
			return err
		}
		ps = append(ps, &past{root: root, ref: ref.Clone(), dump: append([]byte{}, buf.Bytes()...)})
		before := digest()
		for i, p := range ps {
			// a fresh view of each past root, kept with the older ones
			r := p.root
			v, err := mt.Snapshot(&r)
			if err != nil {
				return fmt.Errorf("view of root %d after step %d: %v", i, step, err)
			}
			scribble(&r)
			vv, err := v.Snapshot(mt.RootKey())
			if err != nil {
				return fmt.Errorf("view taken from a view: %v", err)
			}
			p.views = append(p.views, v)
			ps[step].views = append(ps[step].views, vv)
			if mutate {
				if err := abuse(mt, &p.root, all); err != nil {
					return err
				}
				if err := abuse(v, &p.root, all); err != nil {
					return err
				}
			}
		}
		for i, p := range ps {
			r := p.root
			if err := world.ObserveTree(mt, p.ref, &r, all); err != nil {
				return fmt.Errorf("root %d after step %d: %v", i, step, err)
			}
			if err := proofsAt(mt, &r, p.ref, all); err != nil {
				return fmt.Errorf("root %d after step %d: %v", i, step, err)
			}
			var buf bytes.Buffer
			if err := mt.DumpTree(&buf, &r); err != nil || !bytes.Equal(buf.Bytes(), p.dump) {
				return fmt.Errorf("dump of root %d after step %d differs from the one taken then (%v)", i, step, err)
			}
			for k, v := range p.views {
				if err := checkView(v, p, all, digest); err != nil {
					return fmt.Errorf("view %d of root %d after step %d: %v", k, i, step, err)
				}
			}
			if r != p.root {
				return fmt.Errorf("a query changed its argument")
			}
			c.AddTransitions(1)
		}
		if digest() != before {
			return fmt.Errorf("queries changed the storage")
		}
		if err := world.ObserveTree(mt, ref, nil, all); err != nil {
			return fmt.Errorf("after queries at step %d: %v", step, err)
		}
		// roots that never existed
		bad := root
		bad[5] ^= 0x40
		if _, err := mt.Snapshot(&bad); err == nil {
			return fmt.Errorf("a view of an unknown root")
		}
		hi := world.RefHi(&all[0])
		if _, err := mt.GenerateProof(&hi, &bad); err == nil {
			return fmt.Errorf("a proof against an unknown root")
		}
		if err := mt.EntryExists(world.Entry(all[0]), &bad); err == nil {
			return fmt.Errorf("an entry exists under an unknown root")
		}
		if _, err := mt.DumpClaims(&bad); err == nil {
			return fmt.Errorf("export of an unknown root")
		}
		if err := mt.DumpTree(&bytes.Buffer{}, &bad); err == nil {
			return fmt.Errorf("dump of an unknown root")
		}
		if err := mt.Walk(&bad, func(*merkletree.Node) {}); err == nil {
			return fmt.Errorf("enumeration of an unknown root")
		}
		if abandon {
			st, err = reopen()
			if err != nil {
				return err
			}
			mt, err = merkletree.NewMerkleTree(st, levels)
			if err != nil {
				return err
			}
			for _, p := range ps {
				p.views = nil
			}
		}
	}
	return nil
}

func main() {
	vposeidon.Fast = true
	mcx.Main("C05", "model_checking", func(c *mcx.Ctx) {
		defer world.CleanScratch()
		c.Rule("all orders of all subsets of entries (with duplicates of an index); after every insertion a new view of every root so far (also a view of a view), all older views kept; every query repeated at every root and on every view after every insertion and compared with the model of that root; with and without overwriting everything the queries return; with and without reopening between insertions")
		c.Assume("the hash is collision free: Poseidon is replaced by a SHA-256 based stand-in (C01 binds the real one)")
		a := world.NewAlphabet(0, 1, 2, 4, 6)
		var all []merkletree.Data
		for _, n := range []string{"A", "s0", "s2", "s4", "s6", "A2", "s1"} {
			all = append(all, a.Data[n])
		}
		run := func(name string, b world.Backend, levels, n, max int) {
			os := world.Orders(n, max)
			for m := 0; m < 4; m++ {
				m := m
				c.Each(fmt.Sprintf("%s-%d", name, m), len(os), func(i int) string { return fmt.Sprint(os[i]) }, func(i int) error {
					var ds []merkletree.Data
					for _, k := range os[i] {
						ds = append(ds, all[k])
					}
					return history(c, b, levels, ds, all[:n], m&1 == 1, m&2 == 2)
				})
				c.DistinctN(len(os))
			}
		}
		run("disk", world.DiskBackend(), 9, 6, c.Pick(4, 6))
		run("disk-deep", world.DiskBackend(), 5, 5, c.Pick(4, 5))
		run("memory", world.MemBackend(), 9, 5, c.Pick(3, 4))
		run("leveldb", world.LevelBackend(), 9, 4, c.Pick(2, 3))
	})
}
