// C06: a tree insertion is all-or-nothing under storage faults and crashes.
package main

import (
	"bytes"
	"fmt"

	"github.com/iden3/go-iden3-core/merkletree"
	"verif/mc/mcx"
	"verif/mc/vposeidon"
	"verif/mc/world"
)

type H = merkletree.Hash

// op is an operation on a tree together with the model of its effect.
type op struct {
	name string
	// run executes it and compares a success with the model.
	run func(mt *merkletree.MerkleTree, ref *world.RefTree) error
	// effect gives the possible sets after an unsuccessful or interrupted run.
	effect func(ref *world.RefTree) []*world.RefTree
	// reopen makes the operation an opening of the storage.
	reopen bool
	// refused tells that the model refuses it (so an error is right).
	refused func(ref *world.RefTree) bool
}

// wrong is an answer that contradicts the model (never acceptable).
type wrong struct{ s string }

func (w wrong) Error() string { return w.s }

func wf(f string, a ...interface{}) error { return wrong{fmt.Sprintf(f, a...)} }

func ops(all []merkletree.Data, roots []H, refs []*world.RefTree, dump []byte, dumpRef *world.RefTree, list []merkletree.Data) []op {
	var out []op
	none := func(ref *world.RefTree) []*world.RefTree { return []*world.RefTree{ref} }
	for i := range all {
		d := all[i]
		out = append(out, op{name: fmt.Sprintf("add %d", i), run: func(mt *merkletree.MerkleTree, ref *world.RefTree) error {
			return mt.AddEntry(world.Entry(d))
		}, effect: func(ref *world.RefTree) []*world.RefTree {
			n := ref.Clone()
			n.Add(&d)
			return []*world.RefTree{ref, n}
		}, refused: func(ref *world.RefTree) bool { return ref.Verdict(&d) != world.AddOK }})
		hi := world.RefHi(&d)
		out = append(out, op{name: fmt.Sprintf("lookup %d", i), run: func(mt *merkletree.MerkleTree, ref *world.RefTree) error {
			got, err := mt.GetDataByIndex(&hi)
			w, ok := ref.Entries[hi]
			if err == merkletree.ErrEntryIndexNotFound && ok {
				return wf("lookup reports a present entry as absent")
			}
			if err == nil && (!ok || *got != w) {
				return wf("lookup answers wrongly")
			}
			return err
		}, effect: none, refused: func(ref *world.RefTree) bool { _, ok := ref.Entries[hi]; return !ok }})
		out = append(out, op{name: fmt.Sprintf("exists %d", i), run: func(mt *merkletree.MerkleTree, ref *world.RefTree) error {
			err := mt.EntryExists(world.Entry(d), nil)
			w, ok := ref.Entries[hi]
			if err == merkletree.ErrEntryIndexNotFound && ok {
				return wf("existence check reports a present entry as absent")
			}
			if err == nil && (!ok || d != w) {
				return wf("existence check answers wrongly")
			}
			return err
		}, effect: none, refused: func(ref *world.RefTree) bool { w, ok := ref.Entries[hi]; return !ok || w != d }})
		for ri := range roots {
			ri := ri
			out = append(out, op{name: fmt.Sprintf("proof %d root %d", i, ri), run: func(mt *merkletree.MerkleTree, ref *world.RefTree) error {
				p, err := mt.GenerateProof(&hi, &roots[ri])
				if err == nil {
					if e := world.CheckProof(p, refs[ri], hi, nil); e != nil {
						return wf("proof: %v", e)
					}
				}
				return err
			}, effect: none})
		}
	}
	out = append(out, op{name: "export", run: func(mt *merkletree.MerkleTree, ref *world.RefTree) error {
		cl, err := mt.DumpClaims(nil)
		if err == nil {
			if e := world.SameClaims(cl, ref); e != nil {
				return wf("export: %v", e)
			}
		}
		return err
	}, effect: none})
	out = append(out, op{name: "dump", run: func(mt *merkletree.MerkleTree, ref *world.RefTree) error {
		var b bytes.Buffer
		if err := mt.DumpTree(&b, nil); err != nil {
			return err
		}
		imp, err := merkletree.NewMerkleTree(world.NewDisk().Storage(), mt.MaxLevels())
		if err != nil {
			return wf("%v", err)
		}
		if err := imp.ImportTree(&b); err != nil || *imp.RootKey() != ref.Root() {
			return wf("incomplete dump reported as success")
		}
		cl, err := imp.DumpClaims(nil)
		if err != nil {
			return wf("incomplete dump reported as success: %v", err)
		}
		if e := world.SameClaims(cl, ref); e != nil {
			return wf("dump: %v", e)
		}
		return nil
	}, effect: none})
	out = append(out, op{name: "import dump", run: func(mt *merkletree.MerkleTree, ref *world.RefTree) error {
		return mt.ImportTree(bytes.NewReader(dump))
	}, effect: func(ref *world.RefTree) []*world.RefTree { return []*world.RefTree{ref, dumpRef} }})
	out = append(out, op{name: "import entries", run: func(mt *merkletree.MerkleTree, ref *world.RefTree) error {
		var l []string
		for i := range list {
			l = append(l, fmt.Sprintf("0x%x", world.Entry(list[i]).Bytes()))
		}
		return mt.ImportDumpedClaims(l)
	}, effect: func(ref *world.RefTree) []*world.RefTree {
		rs := []*world.RefTree{ref}
		cur := ref.Clone()
		for i := range list {
			if cur.Verdict(&list[i]) != world.AddOK {
				break
			}
			cur.Add(&list[i])
			rs = append(rs, cur.Clone())
		}
		return rs
	}, refused: func(ref *world.RefTree) bool {
		cur := ref.Clone()
		for i := range list {
			if cur.Add(&list[i]) != world.AddOK {
				return true
			}
		}
		return false
	}})
	for ri := range roots {
		ri := ri
		out = append(out, op{name: fmt.Sprintf("view %d", ri), run: func(mt *merkletree.MerkleTree, ref *world.RefTree) error {
			v, err := mt.Snapshot(&roots[ri])
			if err == nil && *v.RootKey() != roots[ri] {
				return wf("view of another root")
			}
			return err
		}, effect: none})
	}
	out = append(out, op{name: "open", reopen: true, effect: none})
	return out
}

// matches finds which of the possible sets a tree shows.
func matches(mt *merkletree.MerkleTree, rs []*world.RefTree, all []merkletree.Data) (int, error) {
	for i, r := range rs {
		if *mt.RootKey() == r.Root() {
			return i, world.ObserveTree(mt, r, nil, all)
		}
	}
	return -1, fmt.Errorf("root %s is that of none of the %d possible sets (previous root %s)", mt.RootKey().Hex(), len(rs), func() string { r := rs[0].Root(); return r.Hex() }())
}

// attempt runs o with the given fault; returns whether it fired, and the
// resulting set.
func attempt(mt *merkletree.MerkleTree, disk *world.Disk, levels int, ref *world.RefTree, o op, fault func(n int, kind string) bool, all []merkletree.Data) (*merkletree.MerkleTree, *world.RefTree, bool, error) {
	disk.Calls, disk.Faults = 0, 0
	disk.Fault = func(n int, kind string, key []byte) error {
		if fault(n, kind) {
			return world.ErrInjected
		}
		return nil
	}
	before := disk.Digest()
	nlog := len(disk.Log)
	base := disk.Clone()
	var err error
	var opened *merkletree.MerkleTree
	if o.reopen {
		opened, err = merkletree.NewMerkleTree(disk.Storage(), levels)
	} else {
		err = o.run(mt, ref)
	}
	disk.Fault = nil
	fired := disk.Faults > 0
	if w, ok := err.(wrong); ok {
		return mt, ref, fired, w
	}
	rs := o.effect(ref)
	if o.reopen && err == nil {
		mt = opened
	}
	refused := o.refused != nil && o.refused(ref)
	if !fired && err != nil && !refused {
		return mt, ref, fired, fmt.Errorf("fails without any storage fault: %v", err)
	}
	if err == nil && refused {
		return mt, ref, fired, fmt.Errorf("accepted although the model refuses it")
	}
	if err != nil && len(disk.Log) == nlog && disk.Digest() != before {
		return mt, ref, fired, fmt.Errorf("storage changed without a commit")
	}
	k, e := matches(mt, rs, all)
	if e != nil {
		return mt, ref, fired, fmt.Errorf("open tree after the fault (error %v): %v", err, e)
	}
	if o.name != "import entries" {
		if err != nil && k != 0 && rs[k].Root() != rs[0].Root() {
			return mt, ref, fired, fmt.Errorf("reports %v but changed the tree", err)
		}
	}
	if err == nil && rs[k].Root() != rs[len(rs)-1].Root() {
		return mt, ref, fired, fmt.Errorf("reports success (storage fault: %v) but the tree does not show its effect", fired)
	}
	re, e := merkletree.NewMerkleTree(disk.Storage(), levels)
	if e != nil {
		return mt, ref, fired, fmt.Errorf("reopening after the fault: %v", e)
	}
	if *re.RootKey() != rs[k].Root() {
		return mt, ref, fired, fmt.Errorf("after error %v the reopened tree (root %s) differs from the open one (root %s)", err, re.RootKey().Hex(), mt.RootKey().Hex())
	}
	if e := world.ObserveTree(re, rs[k], nil, all); e != nil {
		return mt, ref, fired, fmt.Errorf("reopened: %v", e)
	}
	// crash after each commit of the operation
	for n := nlog; n <= len(disk.Log); n++ {
		d2 := base.Clone()
		for _, b := range disk.Log[nlog:n] {
			for _, kv := range b {
				d2.KV[string(kv.K)] = kv.V
			}
		}
		re, e := merkletree.NewMerkleTree(d2.Storage(), levels)
		if e != nil {
			return mt, ref, fired, fmt.Errorf("reopening after a crash: %v", e)
		}
		if _, e := matches(re, rs, all); e != nil {
			return mt, ref, fired, fmt.Errorf("reopened after a crash at commit %d of the operation: %v", n-nlog, e)
		}
	}
	return mt, rs[k], fired, nil
}

func one(c *mcx.Ctx, levels int, ds, all []merkletree.Data, pairs bool) error {
	_, _, refs, roots, err := world.BuildHistory(levels, ds)
	if err != nil {
		return err
	}
	omt, _, orefs, _, err := world.BuildHistory(levels, all[1:3])
	if err != nil {
		return err
	}
	var dump bytes.Buffer
	if err := omt.DumpTree(&dump, nil); err != nil {
		return err
	}
	list := []merkletree.Data{all[len(all)-2], all[0], all[2]}
	for _, o := range ops(all, roots, refs, dump.Bytes(), orefs[2], list) {
		// faults at call i, then at call j of the retry; j=0: none; i<0: all calls from -i on
		for i := 1; ; i++ {
			more := false
			for mode := 0; mode < 2; mode++ {
				for j := 0; ; j++ {
					mt, disk, _, _, err := world.BuildHistory(levels, ds)
					if err != nil {
						return err
					}
					ref := refs[len(refs)-1]
					mt, ref, fired, err := attempt(mt, disk, levels, ref, o, func(n int, kind string) bool {
						return n == i || mode == 1 && n >= i
					}, all)
					if err != nil {
						return fmt.Errorf("%s, storage failing at call %d (mode %d): %v", o.name, i, mode, err)
					}
					if !fired {
						break
					}
					more = true
					c.AddTransitions(1)
					if j > 0 {
						var f2 bool
						mt, ref, f2, err = attempt(mt, disk, levels, ref, o, func(n int, kind string) bool { return n == j }, all)
						if err != nil {
							return fmt.Errorf("%s, storage failing at call %d, then at call %d of the retry: %v", o.name, i, j, err)
						}
						if !f2 {
							break
						}
					}
					mt, ref, _, err = attempt(mt, disk, levels, ref, o, func(int, string) bool { return false }, all)
					if err != nil {
						return fmt.Errorf("%s retried after faults at %d,%d (mode %d): %v", o.name, i, j, mode, err)
					}
					if o.name == "import dump" && len(ds) > 0 {
						break // importing over entries: only the root is specified
					}
					// and the tree goes on
					for k := range all {
						v := ref.Verdict(&all[k])
						if e := world.CheckAdd(mt.AddEntry(world.Entry(all[k])), v); e != nil {
							return fmt.Errorf("%s: later insertion: %v", o.name, e)
						}
						n := ref.Clone()
						n.Add(&all[k])
						ref = n
					}
					if err := world.ObserveTree(mt, ref, nil, all); err != nil {
						return fmt.Errorf("%s: after later insertions: %v", o.name, err)
					}
					if !pairs {
						break
					}
				}
			}
			if !more {
				break
			}
		}
	}
	return nil
}

// opening checks faults while a storage (empty or with data) is opened.
func opening(levels int, ds, all []merkletree.Data) error {
	for i := 1; i < 10; i++ {
		d := world.NewDisk()
		fired := false
		d.Fault = func(n int, kind string, key []byte) error {
			if n == i {
				fired = true
				return world.ErrInjected
			}
			return nil
		}
		mt, err := merkletree.NewMerkleTree(d.Storage(), levels)
		if fired && err == nil {
			return fmt.Errorf("opening an empty storage that fails at call %d reports success", i)
		}
		if !fired && err != nil {
			return err
		}
		if fired && len(d.KV) != 0 {
			return fmt.Errorf("failed opening wrote to the storage")
		}
		d.Fault = nil
		mt, err = merkletree.NewMerkleTree(d.Storage(), levels)
		if err != nil {
			return err
		}
		ref := world.NewRefTree(levels)
		for k := range ds {
			if err := world.CheckAdd(mt.AddEntry(world.Entry(ds[k])), ref.Add(&ds[k])); err != nil {
				return err
			}
		}
		if err := world.ObserveTree(mt, ref, nil, all); err != nil {
			return err
		}
		if !fired {
			return nil
		}
	}
	return nil
}

func main() {
	vposeidon.Fast = true
	mcx.Main("C06", "fault_enumeration", func(c *mcx.Ctx) {
		c.Rule("for every bounded history and every following operation (insertion, lookup, existence, proof at every root, export, dump, imports, view, opening): the storage fails at every call of it (alone, or from that call on), then at every call of the retry; crash after every commit; open and reopened tree compared with the model, then retried and continued")
		c.Assume("a failed commit leaves the storage as it was (the storage contract, checked for the real backends by C08/C09)")
		c.Assume("importing a list of entries counts as a sequence of insertions")
		a := world.NewAlphabet(0, 1, 2, 4, 6)
		var all []merkletree.Data
		for _, n := range []string{"A", "s0", "s2", "s6", "A2"} {
			all = append(all, a.Data[n])
		}
		os := world.Orders(4, c.Pick(3, 4))
		for _, l := range []int{4, 9} {
			l := l
			c.Each(fmt.Sprintf("faults-L%d", l), len(os), func(i int) string { return fmt.Sprint(os[i]) }, func(i int) error {
				var ds []merkletree.Data
				for _, k := range os[i] {
					ds = append(ds, all[k])
				}
				return one(c, l, ds, all, len(os[i]) < 3 || c.Thorough())
			})
			c.DistinctN(len(os))
			c.Each(fmt.Sprintf("opening-L%d", l), len(os), func(i int) string { return fmt.Sprint(os[i]) }, func(i int) error {
				var ds []merkletree.Data
				for _, k := range os[i] {
					ds = append(ds, all[k])
				}
				return opening(l, ds, all)
			})
		}
	})
}
