// C21: tampered public data never yields an accepted state.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"

	"github.com/iden3/go-iden3-core/components/idenpuboffchain"
	"github.com/iden3/go-iden3-core/merkletree"
	"verif/mc/idw"
	"verif/mc/mcx"
	"verif/mc/pub"
	"verif/mc/vposeidon"
	"verif/mc/world"
)

type blobs = idenpuboffchain.PublicDataBlobs

// clone copies blobs.
func clone(b *blobs) *blobs {
	c := *b
	c.RevocationsTree = append([]byte{}, b.RevocationsTree...)
	c.RootsTree = append([]byte{}, b.RootsTree...)
	return &c
}

// nonces and roots to ask about: in the trees, and not
var askRev, askRoot []merkletree.Data

// judge reads the blobs when state number asked was wanted. published lists
// the genuine states.
func judge(b *blobs, published []pub.State) error {
	p, err := idenpuboffchain.NewPublicDataFromBlobs(b)
	if err != nil {
		return nil
	}
	st, ok := world.RefHash(p.ClaimsTreeRoot[:], p.RevocationsTreeRoot[:], p.RootsTreeRoot[:])
	if !ok || st != *p.IdenState {
		return fmt.Errorf("accepted, although the roots do not give the state")
	}
	if *p.RevocationsTree.RootKey() != *p.RevocationsTreeRoot || *p.RootsTree.RootKey() != *p.RootsTreeRoot {
		return fmt.Errorf("accepted, although a tree has another root than announced")
	}
	for k := range published {
		s := &published[k]
		if s.State != st {
			continue
		}
		if s.Rer != *p.RevocationsTreeRoot || s.Ror != *p.RootsTreeRoot || s.Clr != *p.ClaimsTreeRoot {
			return fmt.Errorf("accepted with other roots than were published")
		}
		for _, x := range []struct {
			mt   *merkletree.MerkleTree
			root merkletree.Hash
			ref  *world.RefTree
			ask  []merkletree.Data
		}{{p.RevocationsTree, s.Rer, s.Revs, askRev}, {p.RootsTree, s.Ror, s.Roots, askRoot}} {
			for i := range x.ask {
				d := x.ask[i]
				hi, hv := world.RefHi(&d), world.RefHv(&d)
				root := x.root
				for r := 0; r < 2; r++ {
					ask := &root
					if r == 1 {
						ask = nil
					}
					pr, err := x.mt.GenerateProof(&hi, ask)
					if err != nil {
						continue
					}
					want, in := x.ref.Entries[hi]
					in = in && want == d
					if merkletree.VerifyProof(&root, pr, &hi, &hv) && pr.Existence != in {
						return fmt.Errorf("the tree proves existence=%v of an entry for which it is %v", pr.Existence, in)
					}
				}
				_, _ = x.mt.GetDataByIndex(&hi)
				_ = x.mt.EntryExists(world.Entry(d), nil)
			}
		}
	}
	return nil
}

// record is a key and value of a dump.
type record struct{ k, v []byte }

func parse(b []byte) (r []record) {
	for len(b) > 0 {
		kl, vl := int(b[0]), int(b[1])|int(b[2])<<8
		r = append(r, record{b[3 : 3+kl], b[3+kl : 3+kl+vl]})
		b = b[3+kl+vl:]
	}
	return
}

func format(rs []record) []byte {
	var w bytes.Buffer
	for _, r := range rs {
		w.Write([]byte{byte(len(r.k)), byte(len(r.v)), byte(len(r.v) >> 8)})
		w.Write(r.k)
		w.Write(r.v)
	}
	return w.Bytes()
}

// world of two issuers
type scene struct {
	iss []*pub.Iss
	bs  []*blobs
	st  []pub.State
}

func newScene(n int) (*scene, error) {
	s := &scene{}
	for i := 1; i <= 2; i++ {
		x, err := pub.New(uint64(i))
		if err != nil {
			return nil, err
		}
		for k := 0; k < n; k++ {
			if k > 0 {
				if err := x.Grow(); err != nil {
					return nil, err
				}
			}
			b, err := x.Blobs(k)
			if err != nil {
				return nil, err
			}
			s.bs = append(s.bs, b)
			s.st = append(s.st, x.States[k])
		}
		s.iss = append(s.iss, x)
	}
	for n := uint32(0); n < 9; n++ {
		askRev = append(askRev, pub.RevLeaf(n))
	}
	for _, st := range s.st {
		askRoot = append(askRoot, pub.RootLeaf(st.Clr))
	}
	return s, nil
}

// side selects a tree of the blobs.
func side(b *blobs, rev bool) *[]byte {
	if rev {
		return &b.RevocationsTree
	}
	return &b.RootsTree
}

func main() {
	vposeidon.Fast = true
	mcx.Main("C21", "exploration", func(c *mcx.Ctx) {
		c.Rule("Genuine states: all subsets of revoked nonces and of roots up to the bound, in every one of several orders, rebuilt and compared entry by entry. Tampering with the states of two issuers: every cut, every bit of every byte, every value of every length byte, every removal, duplication, relabelling and exchange of records within a state, between trees, states and issuers, every root record, every combination of hashes and trees of different states, every one-place alteration of the JSON document. Whatever is accepted is asked for every nonce and root, and no verified answer may contradict the state that was published.")
		c.Assume("Answers of an accepted tree count when they verify against the published root, which is what a verifier checks. The stand-in hash is collision free on what is used.")
		// genuine states
		maxN := c.Pick(4, 5)
		var subs [][]int
		for m := 0; m < 1<<uint(maxN); m++ {
			var s []int
			for i := 0; i < maxN; i++ {
				if m>>uint(i)&1 != 0 {
					s = append(s, i)
				}
			}
			subs = append(subs, s)
		}
		nonces := []uint32{0, 1, 2, 1 << 31, 0xffffffff}
		build := func(is []int, rev, back bool) (*merkletree.MerkleTree, *world.RefTree, error) {
			mt, err := merkletree.NewMerkleTree(world.NewDisk().Storage(), pub.Levels)
			ref := world.NewRefTree(pub.Levels)
			for k := range is {
				i := is[k]
				if back {
					i = is[len(is)-1-k]
				}
				d := pub.RevLeaf(nonces[i])
				if !rev {
					d = pub.RootLeaf(pub.H{0: byte(i), 5: 1})
				}
				if err == nil {
					err = mt.AddEntry(world.Entry(d))
				}
				ref.Add(&d)
			}
			return mt, ref, err
		}
		c.Each("genuine", len(subs)*len(subs)*2, func(i int) string { return fmt.Sprint(subs[i%len(subs)], subs[i/2/len(subs)], i%2) }, func(i int) error {
			back := i/len(subs)/len(subs) == 1
			rev, rr, err := build(subs[i%len(subs)], true, back)
			if err != nil {
				return err
			}
			rot, ro, err := build(subs[i/len(subs)%len(subs)], false, back)
			if err != nil {
				return err
			}
			s := pub.State{Clr: pub.H{7}, Rer: rr.Root(), Ror: ro.Root(), Revs: rr, Roots: ro}
			s.State, _ = world.RefHash(s.Clr[:], s.Rer[:], s.Ror[:])
			var w1, w2 bytes.Buffer
			if err := rev.DumpTree(&w1, nil); err != nil {
				return err
			}
			if err := rot.DumpTree(&w2, nil); err != nil {
				return err
			}
			b := &blobs{IdenState: s.State, ClaimsTreeRoot: s.Clr, RevocationsTreeRoot: s.Rer, RootsTreeRoot: s.Ror, RevocationsTree: w1.Bytes(), RootsTree: w2.Bytes()}
			j, err := json.Marshal(b)
			if err != nil {
				return err
			}
			var b2 blobs
			if err := json.Unmarshal(j, &b2); err != nil {
				return err
			}
			if err := s.CheckBlobs(&b2, true); err != nil {
				return err
			}
			return s.CheckBlobs(b, true)
		})
		n := c.Pick(4, 7)
		sc, err := newScene(n)
		if err != nil {
			panic(err)
		}
		for k := range sc.bs {
			k := k
			c.Case("published", fmt.Sprint(k), func() error { return sc.st[k].CheckBlobs(sc.bs[k], true) })
		}
		// bytes
		for k := range sc.bs {
			for _, rev := range []bool{true, false} {
				k, rev := k, rev
				l := len(*side(sc.bs[k], rev))
				c.Each(fmt.Sprintf("bits of state %d, revocations %v", k, rev), l*9, func(i int) string { return fmt.Sprint(i) }, func(i int) error {
					b := clone(sc.bs[k])
					x := side(b, rev)
					if i%9 == 8 {
						*x = (*x)[:i/9]
					} else {
						(*x)[i/9] ^= 1 << uint(i%9)
					}
					return judge(b, sc.st)
				})
				// all values of the length bytes
				var at []int
				o := 0
				for _, r := range parse(*side(sc.bs[k], rev)) {
					at = append(at, o, o+1, o+2)
					o += 3 + len(r.k) + len(r.v)
				}
				c.Each(fmt.Sprintf("lengths of state %d, revocations %v", k, rev), len(at)*256, func(i int) string { return fmt.Sprint(i) }, func(i int) error {
					b := clone(sc.bs[k])
					(*side(b, rev))[at[i/256]] = byte(i)
					return judge(b, sc.st)
				})
			}
		}
		// records
		for k := range sc.bs {
			for _, rev := range []bool{true, false} {
				k, rev := k, rev
				own := parse(*side(sc.bs[k], rev))
				var pool []record
				for _, b := range sc.bs {
					for _, r2 := range []bool{true, false} {
						pool = append(pool, parse(*side(b, r2))...)
					}
				}
				// distinct records only
				seen := map[string]bool{}
				var ps []record
				for _, r := range pool {
					if key := string(r.k) + "|" + string(r.v); !seen[key] {
						seen[key] = true
						ps = append(ps, r)
					}
				}
				root := own[len(own)-1].k // "currentroot" is last
				for _, r := range own {
					if len(r.k) != 32 {
						root = r.k
					}
				}
				ps = append(ps, record{make([]byte, 32), []byte{0}}, record{nil, nil}, record{root, nil}, record{root, make([]byte, 32)}, record{make([]byte, 32), nil}, record{make([]byte, 32), []byte{9}}, record{root, bytes.Repeat([]byte{0xff}, 32)})
				forms := 8
				c.Each(fmt.Sprintf("records of state %d, revocations %v", k, rev), len(own)*len(ps)*forms, func(i int) string { return fmt.Sprint(i) }, func(i int) error {
					f, i := i%forms, i/forms
					o, x := i%len(own), ps[i/len(own)]
					var rs []record
					switch f {
					case 0: // the value of another
						rs = append(append(append(rs, own[:o]...), record{own[o].k, x.v}), own[o+1:]...)
					case 1: // under the key of another
						rs = append(append(append(rs, own[:o]...), record{x.k, own[o].v}), own[o+1:]...)
					case 2: // in place of
						rs = append(append(append(rs, own[:o]...), x), own[o+1:]...)
					case 3: // in addition, before
						rs = append(append(append(rs, own[:o]...), x), own[o:]...)
					case 4: // left out
						rs = append(append(rs, own[:o]...), own[o+1:]...)
					case 5: // left out, and another added
						rs = append(append(append(rs, own[:o]...), own[o+1:]...), x)
					case 6: // in addition, with the value of another, at the end
						rs = append(append(rs, own...), record{own[o].k, x.v})
					case 7: // only these
						rs = []record{own[o], x, {root, own[o].k}}
					}
					b := clone(sc.bs[k])
					*side(b, rev) = format(rs)
					if err := judge(b, sc.st); err != nil {
						return err
					}
					if f == 7 || f == 5 {
						// the announced root follows
						for _, r := range rs {
							if string(r.k) == string(root) && len(r.v) == 32 {
								if rev {
									copy(b.RevocationsTreeRoot[:], r.v)
								} else {
									copy(b.RootsTreeRoot[:], r.v)
								}
							}
						}
						if err := judge(b, sc.st); err != nil {
							return err
						}
						if s, ok := world.RefHash(b.ClaimsTreeRoot[:], b.RevocationsTreeRoot[:], b.RootsTreeRoot[:]); ok {
							b.IdenState = s
							return judge(b, sc.st)
						}
					}
					return nil
				})
			}
		}
		// combinations of states
		hs := make([][]merkletree.Hash, 4)
		for _, st := range sc.st {
			for j, h := range []merkletree.Hash{st.State, st.Clr, st.Rer, st.Ror} {
				dup := false
				for _, o := range hs[j] {
					dup = dup || o == h
				}
				if !dup {
					hs[j] = append(hs[j], h)
				}
			}
		}
		var ff merkletree.Hash
		for i := range ff {
			ff[i] = 0xff
		}
		for j := range hs {
			hs[j] = append(hs[j], ff)
			if hs[j][0] != merkletree.HashZero {
				hs[j] = append(hs[j], merkletree.HashZero)
			}
		}
		tot := len(hs[0]) * len(hs[1]) * len(hs[2]) * len(hs[3])
		c.Each("combinations", tot, func(i int) string { return fmt.Sprint(i) }, func(i int) error {
			b := &blobs{}
			b.IdenState, i = hs[0][i%len(hs[0])], i/len(hs[0])
			b.ClaimsTreeRoot, i = hs[1][i%len(hs[1])], i/len(hs[1])
			b.RevocationsTreeRoot, i = hs[2][i%len(hs[2])], i/len(hs[2])
			b.RootsTreeRoot = hs[3][i]
			// trees: the ones of these roots, and any others
			for r := range sc.bs {
				for o := range sc.bs {
					m1, m2 := sc.st[r].Rer == b.RevocationsTreeRoot, sc.st[o].Ror == b.RootsTreeRoot
					if !m1 && r > 1 || !m2 && o > 1 { // the others are alike: refused at once
						continue
					}
					b.RevocationsTree, b.RootsTree = sc.bs[r].RevocationsTree, sc.bs[o].RootsTree
					if err := judge(b, sc.st); err != nil {
						return err
					}
				}
			}
			b.RevocationsTree, b.RootsTree = nil, []byte{}
			return judge(b, sc.st)
		})
		// documents
		for k := range sc.bs {
			k := k
			ms, err := idw.Mutations(sc.bs[k], []interface{}{sc.bs[(k+1)%len(sc.bs)], sc.bs[(k+n)%len(sc.bs)]})
			if err != nil {
				panic(err)
			}
			c.Each(fmt.Sprintf("document of state %d", k), len(ms), func(i int) string { return ms[i].Name }, func(i int) error {
				var b blobs
				if json.Unmarshal(ms[i].Doc, &b) != nil {
					return nil
				}
				return judge(&b, sc.st)
			})
			j, _ := json.Marshal(sc.bs[k])
			c.Each(fmt.Sprintf("text of state %d", k), len(j)*c.Pick(3, 9), func(i int) string { return fmt.Sprint(i) }, func(i int) error {
				x := append([]byte{}, j...)
				p := i % len(j)
				switch i / len(j) {
				case 0:
					x = x[:p]
				default:
					x[p] ^= 1 << uint(i/len(j)-1)
				}
				var b blobs
				if json.Unmarshal(x, &b) != nil {
					return nil
				}
				return judge(&b, sc.st)
			})
		}
	})
}
