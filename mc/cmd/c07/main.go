// C07: concurrent use of one tree is linearizable.
package main

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/iden3/go-iden3-core/merkletree"
	"verif/mc/mcx"
	"verif/mc/sched"
	"verif/mc/vposeidon"
	"verif/mc/world"
)

type H = merkletree.Hash

func dig(s string) string { h := sha256.Sum256([]byte(s)); return fmt.Sprintf("%x", h[:5]) }

// op runs one call and returns everything it shows.
type op struct {
	name string
	run  func(mt *merkletree.MerkleTree) string
}

func es(err error) string {
	if err == nil {
		return "ok"
	}
	return "error " + err.Error()
}

func claims(mt *merkletree.MerkleTree, root *H) string {
	cl, err := mt.DumpClaims(root)
	sort.Strings(cl)
	return es(err) + " " + fmt.Sprint(len(cl)) + " " + dig(strings.Join(cl, ","))
}

type entrier struct{ e *merkletree.Entry }

func (e entrier) Entry() *merkletree.Entry { return e.e }

func mkOps(a *world.Alphabet) map[string]op {
	m := map[string]op{}
	add := func(n string, f func(mt *merkletree.MerkleTree) string) { m[n] = op{n, f} }
	for _, n := range a.Names {
		d := a.Data[n]
		hi := world.RefHi(&d)
		if !world.InField(&d) {
			continue
		}
		add("add "+n, func(mt *merkletree.MerkleTree) string { return es(mt.AddEntry(world.Entry(d))) })
		add("claim "+n, func(mt *merkletree.MerkleTree) string { return es(mt.AddClaim(entrier{world.Entry(d)})) })
		add("exists "+n, func(mt *merkletree.MerkleTree) string { return es(mt.EntryExists(world.Entry(d), nil)) })
		add("lookup "+n, func(mt *merkletree.MerkleTree) string {
			g, err := mt.GetDataByIndex(&hi)
			if err != nil {
				return es(err)
			}
			return dig(string(world.Entry(*g).Bytes()))
		})
		add("proof "+n, func(mt *merkletree.MerkleTree) string {
			p, err := mt.GenerateProof(&hi, nil)
			if err != nil {
				return es(err)
			}
			return dig(string(p.Bytes()))
		})
	}
	add("root", func(mt *merkletree.MerkleTree) string { return mt.RootKey().Hex()[:12] })
	add("export", func(mt *merkletree.MerkleTree) string { return claims(mt, nil) })
	add("exportw", func(mt *merkletree.MerkleTree) string {
		var b bytes.Buffer
		err := mt.DumpClaimsIoWriter(&b, nil)
		return es(err) + dig(b.String())
	})
	add("graph", func(mt *merkletree.MerkleTree) string {
		var b bytes.Buffer
		err := mt.GraphViz(&b, nil)
		return es(err) + dig(b.String())
	})
	add("walk", func(mt *merkletree.MerkleTree) string {
		var s []string
		err := mt.Walk(nil, func(n *merkletree.Node) { s = append(s, n.String()) })
		return es(err) + dig(strings.Join(s, ","))
	})
	add("dump", func(mt *merkletree.MerkleTree) string {
		var b bytes.Buffer
		err := mt.DumpTree(&b, nil)
		return es(err) + dig(b.String())
	})
	add("view", func(mt *merkletree.MerkleTree) string {
		v, err := mt.Snapshot(mt.RootKey())
		if err != nil {
			return es(err)
		}
		return v.RootKey().Hex()[:12] + claims(v, nil)
	})
	// import another tree's dump
	src, err := merkletree.NewMerkleTree(world.NewDisk().Storage(), 9)
	if err != nil {
		panic(err)
	}
	d := a.Data["s6"]
	if err := src.AddEntry(world.Entry(d)); err != nil {
		panic(err)
	}
	var b bytes.Buffer
	if err := src.DumpTree(&b, nil); err != nil {
		panic(err)
	}
	add("import", func(mt *merkletree.MerkleTree) string { return es(mt.ImportTree(bytes.NewReader(b.Bytes()))) })
	return m
}

type rec struct {
	op         string
	out        string
	start, end int
	th         int
}

func final(mt *merkletree.MerkleTree, d *world.Disk, levels int) string {
	re, err := merkletree.NewMerkleTree(d.Storage(), levels)
	if err != nil {
		return "reopening: " + err.Error()
	}
	return mt.RootKey().Hex()[:14] + claims(mt, nil) + re.RootKey().Hex()[:14] + claims(re, nil)
}

func build(init []string, a *world.Alphabet, levels int) (*merkletree.MerkleTree, *world.Disk, error) {
	d := world.NewDisk()
	mt, err := merkletree.NewMerkleTree(d.Storage(), levels)
	if err != nil {
		return nil, nil, err
	}
	for _, n := range init {
		if err := mt.AddEntry(world.Entry(a.Data[n])); err != nil {
			return nil, nil, err
		}
	}
	return mt, d, nil
}

// harness is a program: per thread, a sequence of operations.
func harness(init []string, threads [][]string, a *world.Alphabet, levels, bound int, ops map[string]op) sched.Harness {
	var nm []string
	for _, t := range threads {
		nm = append(nm, strings.Join(t, ","))
	}
	// sequential specification, filled lazily per order
	type seqRes struct {
		outs  map[string]string // "thread.index" -> result
		final string
	}
	cache := map[string]seqRes{}
	seq := func(order []rec) seqRes {
		k := ""
		for _, r := range order {
			k += fmt.Sprintf("%d", r.th)
		}
		if r, ok := cache[k]; ok {
			return r
		}
		mt, d, err := build(init, a, levels)
		if err != nil {
			panic(err)
		}
		res := seqRes{outs: map[string]string{}}
		idx := map[int]int{}
		for _, r := range order {
			res.outs[fmt.Sprintf("%d.%d", r.th, idx[r.th])] = ops[r.op].run(mt)
			idx[r.th]++
		}
		res.final = final(mt, d, levels)
		cache[k] = res
		return res
	}
	return sched.Harness{
		Name:  fmt.Sprintf("%v L%d: %s", init, levels, strings.Join(nm, " | ")),
		Bound: bound,
		New: func() ([]func(), func() (string, error), error) {
			mt, d, err := build(init, a, levels)
			if err != nil {
				return nil, nil, err
			}
			d.Points = true
			recs := make([][]rec, len(threads))
			var bodies []func()
			for t := range threads {
				t := t
				bodies = append(bodies, func() {
					for _, o := range threads[t] {
						sched.P()
						s := sched.Now()
						out := ops[o].run(mt)
						recs[t] = append(recs[t], rec{o, out, s, sched.Now(), t})
					}
				})
			}
			check := func() (string, error) {
				d.Points = false
				fin := final(mt, d, levels)
				// search a linearization
				var ok bool
				var order []rec
				var find func(pos []int)
				total := 0
				for _, r := range recs {
					total += len(r)
				}
				find = func(pos []int) {
					if ok {
						return
					}
					if len(order) == total {
						r := seq(order)
						if r.final != fin {
							return
						}
						for t := range recs {
							for i, x := range recs[t] {
								if r.outs[fmt.Sprintf("%d.%d", t, i)] != x.out {
									return
								}
							}
						}
						ok = true
						return
					}
					for t := range recs {
						if pos[t] == len(recs[t]) {
							continue
						}
						c := recs[t][pos[t]]
						// every other pending op must not have ended before c started
						bad := false
						for u := range recs {
							if u != t && pos[u] < len(recs[u]) && recs[u][pos[u]].end < c.start {
								bad = true
							}
						}
						if bad {
							continue
						}
						pos[t]++
						order = append(order, c)
						find(pos)
						order = order[:len(order)-1]
						pos[t]--
					}
				}
				find(make([]int, len(recs)))
				var o []string
				for _, r := range recs {
					for _, x := range r {
						o = append(o, x.op+"="+x.out)
					}
				}
				out := strings.Join(o, " ; ")
				if !ok {
					return out, fmt.Errorf("no sequential order explains the results: %s ; final %s", out, fin)
				}
				return dig(out), nil
			}
			return bodies, check, nil
		},
	}
}

func main() {
	vposeidon.Fast = true
	mcx.Main("C07", "model_checking", func(c *mcx.Ctx) {
		c.Rule("every pair of operations (insertions on the same path, of one index, lookups, existence, proof, exports, dump, view, import) and selected triples and two-operation threads on one tree, under a controlled scheduler with a scheduling point before every statement of the tree's methods, at every lock operation and storage call: all schedules up to the preemption bound, each compared with the sequential runs of the same calls in every order compatible with real time")
		c.Assume("storage calls are atomic (harness storage); interleavings inside one statement are not explored; sequential behaviour is that checked by C01-C06; hash stand-in")
		a := world.NewAlphabet(0, 1, 2, 4, 6)
		ops := mkOps(a)
		var hs []sched.Harness
		b2 := c.Pick(2, 3)
		writers := []string{"add s2", "add s4", "add A2", "claim s2", "import"}
		readers := []string{"exists s2", "exists A", "lookup s2", "proof s2", "proof A", "export", "exportw", "dump", "view", "walk", "root", "graph"}
		for i, w := range writers {
			for _, v := range writers[i:] {
				hs = append(hs, harness([]string{"A"}, [][]string{{w}, {v}}, a, 9, b2, ops))
			}
		}
		for _, r := range readers {
			hs = append(hs, harness([]string{"A"}, [][]string{{"add s2"}, {r}}, a, 9, b2, ops))
			if c.Thorough() {
				hs = append(hs, harness([]string{"A", "s0", "s4"}, [][]string{{"add s6"}, {r}}, a, 9, 2, ops))
				hs = append(hs, harness([]string{"A"}, [][]string{{"import"}, {r}}, a, 9, 2, ops))
			}
			hs = append(hs, harness([]string{"A"}, [][]string{{"add s2", "add s4"}, {r}}, a, 9, 2, ops))
		}
		hs = append(hs,
			harness(nil, [][]string{{"add A"}, {"add s0"}}, a, 9, b2, ops),
			harness(nil, [][]string{{"add A"}, {"add A2"}}, a, 9, b2, ops),
			harness(nil, [][]string{{"add A"}, {"add A"}}, a, 9, b2, ops),
			harness([]string{"A"}, [][]string{{"add s2"}, {"add s4"}, {"add s0"}}, a, 9, 2, ops),
			harness([]string{"A"}, [][]string{{"add s2"}, {"add s4"}, {"proof s2"}}, a, 9, 2, ops),
			harness([]string{"A"}, [][]string{{"add s2"}, {"dump"}, {"add s4"}}, a, 9, 2, ops),
			harness([]string{"A"}, [][]string{{"add s2", "exists s2"}, {"add s4", "exists s4"}}, a, 9, 2, ops),
			harness([]string{"A"}, [][]string{{"add s2", "add s0"}, {"root", "export"}}, a, 9, 2, ops),
			harness([]string{"A"}, [][]string{{"add s2"}, {"view", "proof s2"}}, a, 9, 2, ops),
			harness([]string{"A", "s0"}, [][]string{{"add s6"}, {"add A2"}}, a, 5, 2, ops),
		)
		sched.Explore(c, hs, time.Duration(c.Pick(150, 700))*time.Second)
	})
}
