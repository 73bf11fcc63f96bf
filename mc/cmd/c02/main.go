// C02: Merkle proofs are complete and sound.
package main

import (
	"fmt"

	"github.com/iden3/go-iden3-core/merkletree"
	"verif/mc/mcx"
	"verif/mc/vposeidon"
	"verif/mc/world"
)

type H = merkletree.Hash

// refRoot is an independent verifier: the root a proof leads to, ok=false if
// it cannot lead anywhere.
func refRoot(r *world.RawProof, hi, hv H) (root H, ok bool) {
	var mid H
	switch {
	case !r.NonEx:
		mid, ok = refLeafKey(hi, hv)
	case !r.HasAux:
		ok = true
	case r.AuxHi == hi:
		return H{}, false
	default:
		mid, ok = refLeafKey(r.AuxHi, r.AuxHv)
	}
	if !ok {
		return H{}, false
	}
	full := r.Full()
	for l := r.Depth - 1; l >= 0; l-- {
		if world.Bit(&hi, l) {
			mid, ok = world.RefHash(full[l][:], mid[:])
		} else {
			mid, ok = world.RefHash(mid[:], full[l][:])
		}
		if !ok {
			return H{}, false
		}
	}
	return mid, true
}

func refLeafKey(hi, hv H) (H, bool) {
	return world.RefHash(hi[:], hv[:], []byte{1})
}

// alterations lists all single alterations of a proof, with siblings drawn
// from pool and neighbour leaves from leaves.
func alterations(r world.RawProof, pool []H, leaves [][2]H, flips bool) []world.RawProof {
	var out []world.RawProof
	cp := func() world.RawProof {
		n := r
		n.Sib = append([]H{}, r.Sib...)
		return n
	}
	// a proof built from a full sibling list
	full := r.Full()
	from := func(f []H) world.RawProof {
		n := r
		n.Depth = len(f)
		n.Map = [30]byte{}
		n.Sib = nil
		for i, s := range f {
			if s != (H{}) {
				world.SetMapBit(&n.Map, i, true)
				n.Sib = append(n.Sib, s)
			}
		}
		return n
	}
	n := cp()
	n.NonEx = !n.NonEx
	out = append(out, n)
	n = cp()
	if n.HasAux {
		n.HasAux = false
		out = append(out, n)
		n.NonEx = false
		out = append(out, n)
	}
	for _, l := range leaves {
		n = cp()
		n.NonEx, n.HasAux, n.AuxHi, n.AuxHv = true, true, l[0], l[1]
		out = append(out, n)
	}
	if r.HasAux {
		n = cp()
		n.AuxHi, n.AuxHv = r.AuxHv, r.AuxHi
		out = append(out, n)
		n = cp()
		n.NonEx = false
		out = append(out, n)
	}
	// siblings: drop (path gets shorter), insert, replace, swap
	for i := range full {
		f := append(append([]H{}, full[:i]...), full[i+1:]...)
		out = append(out, from(f))
		for j := 0; j < i; j++ {
			f := append([]H{}, full...)
			f[i], f[j] = f[j], f[i]
			out = append(out, from(f))
		}
		for _, p := range pool {
			if p == full[i] {
				continue
			}
			f := append([]H{}, full...)
			f[i] = p
			out = append(out, from(f))
		}
		if flips && full[i] != (H{}) {
			for b := 0; b < 32; b++ {
				f := append([]H{}, full...)
				f[i][b] ^= 1
				out = append(out, from(f))
			}
		}
	}
	for i := 0; i <= len(full) && len(full) < 240; i++ {
		for _, p := range pool {
			f := append(append(append([]H{}, full[:i]...), p), full[i:]...)
			out = append(out, from(f))
		}
	}
	for i := 1; i <= len(full); i++ {
		out = append(out, from(full[i:]))
		out = append(out, from(full[:len(full)-i]))
	}
	// header: depth and map changed without touching the sibling list
	for _, d := range []int{r.Depth - 1, r.Depth + 1, r.Depth + 8, 239, 240} {
		if d < 0 || d > 240 {
			continue
		}
		n = cp()
		n.Depth = d
		out = append(out, n)
	}
	for i := 0; i <= r.Depth+1; i++ {
		n = cp()
		world.SetMapBit(&n.Map, i, !world.MapBit(&n.Map, i))
		out = append(out, n)
	}
	n = cp()
	n.Map[0] |= 0x80
	out = append(out, n)
	return out
}

// treeCase checks all proofs of one set of entries.
type treeCase struct {
	levels int
	names  []string
	ds     []merkletree.Data
	pairs  bool
}

func soundness(c *mcx.Ctx, tc treeCase, all []merkletree.Data) error {
	mt, _, refs, roots, err := world.BuildHistory(tc.levels, tc.ds)
	if err != nil {
		return err
	}
	cur := refs[len(refs)-1]
	// pool of node keys of the tree
	pool := []H{{}}
	seen := map[H]bool{{}: true}
	err = mt.Walk(nil, func(n *merkletree.Node) {
		k, e := n.Key()
		if e == nil && !seen[*k] {
			seen[*k] = true
			pool = append(pool, *k)
		}
	})
	if err != nil {
		return err
	}
	var leaves [][2]H
	his := []H{}
	hvs := map[H][]H{}
	for i := range all {
		hi, hv := world.RefHi(&all[i]), world.RefHv(&all[i])
		if _, ok := hvs[hi]; !ok {
			his = append(his, hi)
		}
		hvs[hi] = append(hvs[hi], hv)
		leaves = append(leaves, [2]H{hi, hv})
	}
	allHv := []H{{}}
	s := map[H]bool{}
	for _, l := range leaves {
		if !s[l[1]] {
			s[l[1]] = true
			allHv = append(allHv, l[1])
		}
	}
	nchecks := 0
	check := func(raw *world.RawProof, rts []H, qs []H, vs []H) error {
		b := raw.Encode()
		p, err := merkletree.NewProofFromBytes(b)
		if err != nil {
			return nil
		}
		// what was really parsed
		got := world.DecodeRaw(p.Bytes())
		for _, hi := range qs {
			for _, hv := range vs {
				hi, hv := hi, hv
				rr, rok := refRoot(&got, hi, hv)
				nchecks++
				root, err := merkletree.RootFromProof(p, &hi, &hv)
				if (err == nil) != rok || (rok && *root != rr) {
					return fmt.Errorf("root from an altered proof differs from the reference verifier (err %v)", err)
				}
				for ri := range rts {
					ref := refs[ri]
					rt := roots[ri]
					ok := merkletree.VerifyProof(&rt, p, &hi, &hv)
					if !ok {
						continue
					}
					d, present := ref.Entries[hi]
					if p.Existence && (!present || world.RefHv(&d) != hv) {
						return fmt.Errorf("an altered proof proves the existence of an entry that is not in the set")
					}
					if !p.Existence && present {
						return fmt.Errorf("an altered proof proves the absence of an entry of the set")
					}
				}
			}
		}
		return nil
	}
	_ = cur
	for ri := range roots {
		for _, hi := range his {
			hi := hi
			rk := &roots[ri]
			p, err := mt.GenerateProof(&hi, rk)
			if err != nil {
				return fmt.Errorf("proof generation at root %d fails: %v", ri, err)
			}
			if err := world.CheckProof(p, refs[ri], hi, []int{0, 1, 2, 3, 4, 8, tc.levels, tc.levels + 3, 140}); err != nil {
				return fmt.Errorf("root %d: %v", ri, err)
			}
			raw := world.DecodeRaw(p.Bytes())
			if err := check(&raw, roots, his, allHv); err != nil {
				return err
			}
			if ri != len(roots)-1 && ri != len(roots)/2 {
				continue
			}
			singles := alterations(raw, pool, leaves, true)
			for i := range singles {
				if err := check(&singles[i], roots, his, allHv); err != nil {
					return fmt.Errorf("root %d alteration %d: %v", ri, i, err)
				}
			}
			if !tc.pairs || ri != len(roots)-1 {
				continue
			}
			short := alterations(raw, pool, leaves, false)
			vs := append([]H{{}}, hvs[hi]...)
			for i := range short {
				if c.Expired() {
					return nil
				}
				if short[i].Depth > 20 {
					continue
				}
				second := alterations(short[i], pool, leaves, false)
				for j := range second {
					if err := check(&second[j], roots[len(roots)-1:], []H{hi}, vs); err != nil {
						return fmt.Errorf("alterations %d,%d: %v", i, j, err)
					}
				}
				c.Tick()
			}
		}
	}
	c.AddTransitions(nchecks)
	return nil
}

// complete checks generated proofs at every root of a history given by its order.
func complete(levels int, ds, all []merkletree.Data) error {
	mt, _, refs, roots, err := world.BuildHistory(levels, ds)
	if err != nil {
		return err
	}
	for ri := range roots {
		for i := range all {
			hi := world.RefHi(&all[i])
			p, err := mt.GenerateProof(&hi, &roots[ri])
			if err != nil {
				return fmt.Errorf("root %d: %v", ri, err)
			}
			if err := world.CheckProof(p, refs[ri], hi, []int{levels, levels + 1}); err != nil {
				return fmt.Errorf("root %d index %d: %v", ri, i, err)
			}
			if ri == len(roots)-1 {
				p2, err := mt.GenerateProof(&hi, nil)
				if err != nil {
					return err
				}
				if err := world.EqualProofs(p, p2); err != nil {
					return fmt.Errorf("proof at the current root: %v", err)
				}
			}
		}
	}
	// a root that never existed gives no proof
	bad := roots[len(roots)-1]
	bad[3] ^= 1
	hi := world.RefHi(&all[0])
	if p, err := mt.GenerateProof(&hi, &bad); err == nil {
		return fmt.Errorf("a proof against an unknown root: %v", p)
	}
	return nil
}

func main() {
	vposeidon.Fast = true
	mcx.Main("C02", "model_checking", func(c *mcx.Ctx) {
		defer world.CleanScratch()
		c.Rule("all orders of all subsets of entries sharing chosen path lengths; every root of the history; every index; all single alterations and all pairs of alterations of each proof, verified for every statement of the alphabet and compared with an independent verifier")
		c.Assume("the hash is collision free: Poseidon is replaced by a SHA-256 based stand-in with the same domain and range (C01 binds the real one); alterations draw siblings from the keys of the tree's nodes and single-bit changes")
		a := world.NewAlphabet(0, 1, 2, 4, 6)
		names := []string{"A", "s0", "s1", "s2", "s4", "s6"}
		var all, ins []merkletree.Data
		for _, n := range append(append([]string{}, names...), "A2", "A3") {
			all = append(all, a.Data[n])
		}
		for _, n := range names {
			ins = append(ins, a.Data[n])
		}
		pick := func(o []int) (ds []merkletree.Data) {
			for _, i := range o {
				ds = append(ds, ins[i])
			}
			return
		}
		orders := world.Orders(len(ins), c.Pick(4, 6))
		for _, l := range []int{8, 9, 140, 240} {
			l := l
			os := orders
			if l != 8 && !c.Thorough() {
				os = world.Orders(len(ins), 3)
			}
			c.Each(fmt.Sprintf("complete-L%d", l), len(os), func(i int) string { return fmt.Sprint(os[i]) }, func(i int) error {
				return complete(l, pick(os[i]), all)
			})
			c.DistinctN(len(os))
		}
		lens := world.DeepLens()
		var deep []merkletree.Data
		for _, x := range lens {
			deep = append(deep, world.Sharing(x))
		}
		deep = append(deep, world.BaseEntry())
		c.Each("complete-deep", 4, func(i int) string { return fmt.Sprint(i) }, func(i int) error {
			ds := append(append([]merkletree.Data{}, deep[i*5:]...), deep[:i*5]...)
			return complete([]int{25, 32, 64, 140}[i], ds, deep)
		})
		subs := world.Subsets(len(ins), c.Pick(4, 6))
		c.Each("soundness", len(subs), func(i int) string { return fmt.Sprint(subs[len(subs)-1-i]) }, func(i int) error {
			i = len(subs) - 1 - i
			return soundness(c, treeCase{levels: 8, ds: pick(subs[i]), pairs: len(subs[i]) <= c.Pick(2, 4)}, all)
		})
		c.DistinctN(len(subs))
		deepPairs := [][]int{{8}, {7, 9}, {15, 16}, {16, 17}, {17}, {18}}
		c.Each("soundness-deep", len(deepPairs), func(i int) string { return fmt.Sprint(deepPairs[i]) }, func(i int) error {
			ds := []merkletree.Data{world.BaseEntry()}
			for _, x := range deepPairs[i] {
				ds = append(ds, world.Sharing(x))
			}
			return soundness(c, treeCase{levels: 64, ds: ds}, append(append([]merkletree.Data{}, ds...), a.Data["s2"], a.Data["A2"], world.Sharing(10)))
		})
	})
}
