// C03: proof encoding round-trips and rejects hostile bytes without crashing.
package main

import (
	"encoding/json"
	"fmt"
	"strings"

	"github.com/iden3/go-iden3-core/merkletree"
	"verif/mc/mcx"
	"verif/mc/vposeidon"
	"verif/mc/world"
)

type H = merkletree.Hash

type tree struct {
	name string
	ref  *world.RefTree
	root H
	ps   []*merkletree.Proof
	his  []H
	hvs  []H
}

func mkTree(name string, levels int, ds, all []merkletree.Data) (*tree, error) {
	mt, _, refs, roots, err := world.BuildHistory(levels, ds)
	if err != nil {
		return nil, err
	}
	t := &tree{name: name, ref: refs[len(refs)-1], root: roots[len(roots)-1], hvs: []H{{}}}
	for i := range all {
		hi := world.RefHi(&all[i])
		p, err := mt.GenerateProof(&hi, nil)
		if err != nil {
			return nil, err
		}
		t.ps = append(t.ps, p)
		t.his = append(t.his, hi)
		t.hvs = append(t.hvs, world.RefHv(&all[i]))
	}
	return t, nil
}

// use runs every operation on a parsed proof: none may panic, and none may
// prove something false for the tree (about the k-th index, or any if k<0).
func use(p *merkletree.Proof, t *tree, k int) error {
	b := p.Bytes()
	p2, err := merkletree.NewProofFromBytes(b)
	if err != nil {
		return fmt.Errorf("a parsed proof re-serialises to bytes that do not parse: %v", err)
	}
	if err := world.EqualProofs(p, p2); err != nil {
		return fmt.Errorf("a parsed proof re-serialises to another proof: %v", err)
	}
	_ = p.String()
	all := p.AllSiblings()
	for _, l := range []int{0, 8, 140} {
		n := len(p.AllSiblingsCircom(l))
		if n < l+1 || n < len(all) {
			return fmt.Errorf("circuit siblings cut")
		}
	}
	j, err := json.Marshal(p)
	if err != nil {
		return err
	}
	var p3 merkletree.Proof
	if err := json.Unmarshal(j, &p3); err != nil {
		return fmt.Errorf("a parsed proof's JSON does not parse: %v", err)
	}
	if err := world.EqualProofs(p, &p3); err != nil {
		return fmt.Errorf("JSON round trip: %v", err)
	}
	his, hvs := t.his, t.hvs
	if k >= 0 {
		his, hvs = t.his[k:k+1], t.hvs[k+1:k+2]
	}
	for _, hi := range his {
		for _, hv := range hvs {
			hi, hv := hi, hv
			if !merkletree.VerifyProof(&t.root, p, &hi, &hv) {
				continue
			}
			d, present := t.ref.Entries[hi]
			if p.Existence && (!present || world.RefHv(&d) != hv) || !p.Existence && present {
				return fmt.Errorf("the proof verifies a false statement")
			}
		}
	}
	return nil
}

func try(b []byte, t *tree, k int) error {
	cp := append([]byte{}, b...)
	p, err := merkletree.NewProofFromBytes(b)
	if string(cp) != string(b) {
		return fmt.Errorf("parsing changed the input")
	}
	if err != nil {
		if p != nil {
			return fmt.Errorf("error and proof together")
		}
		return nil
	}
	// nothing of the proof may alias the input
	want := p.Bytes()
	for i := range b {
		b[i] ^= 0xff
	}
	if string(p.Bytes()) != string(want) {
		return fmt.Errorf("the parsed proof shares memory with the input")
	}
	copy(b, cp)
	return use(p, t, k)
}

func main() {
	vposeidon.Fast = true
	mcx.Main("C03", "exploration", func(c *mcx.Ctx) {
		c.Rule("every proof of bounded trees: round trips, every truncation and extension, every byte value at every byte of the header and selected values at every other byte; every flag byte x depth x bitmap class x body length, parsed and fully used; malformed JSON")
		a := world.NewAlphabet(0, 1, 2, 4, 6)
		all := []merkletree.Data{}
		for _, n := range []string{"A", "s0", "s1", "s2", "s4", "s6", "A2"} {
			all = append(all, a.Data[n])
		}
		var trees []*tree
		for _, s := range world.Subsets(6, c.Pick(4, 6)) {
			var ds []merkletree.Data
			for _, i := range s {
				ds = append(ds, all[i])
			}
			t, err := mkTree(fmt.Sprint(s), 20, ds, all)
			if err != nil {
				c.Violation(mcx.Replay{Harness: "build", Key: fmt.Sprint(s)}, err)
				return
			}
			trees = append(trees, t)
		}
		deep := []merkletree.Data{world.BaseEntry()}
		for _, x := range world.DeepLens() {
			deep = append(deep, world.Sharing(x))
		}
		t, err := mkTree("deep", 140, deep[:len(deep)-3], deep)
		if err != nil {
			c.Violation(mcx.Replay{Harness: "build", Key: "deep"}, err)
			return
		}
		trees = append(trees, t)
		// round trips
		c.Each("roundtrip", len(trees), func(i int) string { return trees[i].name }, func(i int) error {
			t := trees[i]
			for k, p := range t.ps {
				if err := use(p, t, -1); err != nil {
					return fmt.Errorf("proof %d: %v", k, err)
				}
				q, err := merkletree.NewProofFromBytes(p.Bytes())
				if err != nil {
					return fmt.Errorf("proof %d does not parse back: %v", k, err)
				}
				if err := world.EqualProofs(p, q); err != nil {
					return fmt.Errorf("proof %d: %v", k, err)
				}
				hi := t.his[k]
				if err := world.CheckProof(q, t.ref, hi, []int{20, 140}); err != nil {
					return fmt.Errorf("proof %d parsed back: %v", k, err)
				}
				raw := world.DecodeRaw(p.Bytes())
				if string(raw.Encode()) != string(p.Bytes()) {
					return fmt.Errorf("proof %d: the encoding is not the documented one", k)
				}
			}
			return nil
		})
		c.DistinctN(len(trees))
		// truncation, extension, substitution
		c.Each("mutate", len(trees), func(i int) string { return trees[i].name }, func(i int) error {
			t := trees[i]
			seen := map[string]bool{}
			for k, p := range t.ps {
				b := p.Bytes()
				if seen[string(b)] {
					continue
				}
				seen[string(b)] = true
				for n := 0; n < len(b); n++ {
					kk := k
					if n%32 == 0 {
						kk = -1
					}
					if err := try(append([]byte{}, b[:n]...), t, kk); err != nil {
						return fmt.Errorf("proof %d cut to %d bytes: %v", k, n, err)
					}
				}
				for n := 1; n <= 65; n++ {
					for _, v := range []byte{0, 0xff} {
						e := append([]byte{}, b...)
						for m := 0; m < n; m++ {
							e = append(e, v)
						}
						if err := try(e, t, k); err != nil {
							return fmt.Errorf("proof %d with %d more bytes: %v", k, n, err)
						}
					}
				}
				for n := range b {
					vals := 256
					if n >= 2 {
						vals = 12
					}
					if n >= 32 && len(b) > 300 {
						vals = c.Pick(3, 12)
					}
					for v := 0; v < vals; v++ {
						m := append([]byte{}, b...)
						if n < 2 {
							m[n] = byte(v)
						} else {
							m[n] ^= []byte{1, 2, 4, 8, 16, 32, 64, 128, 0xff, b[n], b[n] ^ 0xff, b[n] ^ 0x30}[v]
						}
						if err := try(m, t, k); err != nil {
							return fmt.Errorf("proof %d byte %d value %d: %v", k, n, m[n], err)
						}
					}
				}
				c.Tick()
			}
			return nil
		})
		c.DistinctN(len(trees))
		// synthetic headers
		maps := map[string][30]byte{"zero": {}}
		var ones [30]byte
		for i := range ones {
			ones[i] = 0xff
		}
		maps["ones"] = ones
		for _, i := range []int{0, 1, 7, 8, 15, 16, 127, 128, 231, 232, 238, 239} {
			var m [30]byte
			m[29-i/8] = 1 << uint(i%8)
			maps[fmt.Sprintf("bit%d", i)] = m
		}
		var mn []string
		for _, n := range []string{"zero", "ones", "bit0", "bit1", "bit7", "bit8", "bit15", "bit16", "bit127", "bit128", "bit231", "bit232", "bit238", "bit239"} {
			if _, ok := maps[n]; ok {
				mn = append(mn, n)
			}
		}
		flags := 256
		c.Each("headers", 256, func(i int) string { return fmt.Sprintf("depth=%d", i) }, func(depth int) error {
			for f := 0; f < flags; f++ {
				if !c.Thorough() && f > 3 && f != 255 {
					continue
				}
				for _, n := range mn {
					m := maps[n]
					bits := 0
					for i := 0; i < depth && i < 240; i++ {
						if world.MapBit(&m, i) {
							bits++
						}
					}
					for _, body := range []int{0, 31, 32, 33, bits * 32, bits*32 - 1, bits*32 + 63, bits*32 + 64, bits*32 + 65} {
						if body < 0 {
							continue
						}
						b := make([]byte, 32+body)
						b[0], b[1] = byte(f), byte(depth)
						copy(b[2:], m[:])
						for i := 32; i < len(b); i++ {
							b[i] = byte(i * 7)
							if i%32 == 31 {
								b[i] = 0
							}
						}
						if err := mcx.Protect(func() error { return try(b, trees[1], 0) }); err != nil {
							return mcx.Sigf(fmt.Sprintf("headers depth>240=%v", depth > 240), "flags %d depth %d map %s body %d: %v", f, depth, n, body, err)
						}
					}
				}
			}
			return nil
		})
		c.DistinctN(256 * flags)
		// JSON
		good, _ := json.Marshal(trees[len(trees)-1].ps[0])
		js := []string{"", "null", `"`, `""`, `"0"`, `"0x"`, `"0x0"`, `"0xzz"`, "1", "-1", "[]", "{}", "true", `["0x"]`, `"\u0030x00"`, `{"a":1}`, `"0X00"`, `"00"`}
		for n := 0; n <= 70; n++ {
			js = append(js, `"0x`+strings.Repeat("0", n)+`"`, `"0x`+strings.Repeat("f", n)+`"`, `"`+strings.Repeat("a", n)+`"`)
		}
		for n := 0; n < len(good); n++ {
			js = append(js, string(good[:n]), string(good[:n])+`"`)
		}
		c.Each("json", len(js), func(i int) string { return fmt.Sprintf("%q", js[i]) }, func(i int) error {
			var p merkletree.Proof
			if err := json.Unmarshal([]byte(js[i]), &p); err == nil && js[i] != "null" {
				if err := use(&p, trees[len(trees)-1], -1); err != nil {
					return err
				}
			}
			var q merkletree.Proof
			if err := q.UnmarshalJSON([]byte(js[i])); err == nil {
				return use(&q, trees[len(trees)-1], -1)
			}
			return nil
		})
		c.DistinctN(len(js))
	})
}
