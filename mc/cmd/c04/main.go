// C04: dumping and importing a tree reproduces exactly that tree.
package main

import (
	"bytes"
	"fmt"
	"io"

	"github.com/iden3/go-iden3-core/merkletree"
	"verif/mc/mcx"
	"verif/mc/vposeidon"
	"verif/mc/world"
)

// sink fails after n bytes (short=true: writes part of the last buffer).
// If once is set only one write fails, the one that reaches n bytes.
type sink struct {
	bytes.Buffer
	left  int
	calls int
	once  bool
}

var errSink = fmt.Errorf("sink is full")

func (s *sink) Write(p []byte) (int, error) {
	s.calls++
	if s.left < 0 {
		return s.Buffer.Write(p)
	}
	if s.left < len(p) {
		n := s.left
		s.Buffer.Write(p[:n])
		s.left = 0
		if s.once {
			s.left = -1
		}
		return n, errSink
	}
	s.left -= len(p)
	return s.Buffer.Write(p)
}

// source fails after n bytes, and hands out at most chunk bytes at a time.
type source struct {
	b     []byte
	fail  int
	chunk int
}

func (s *source) Read(p []byte) (int, error) {
	if s.fail == 0 {
		return 0, errSink
	}
	if len(s.b) == 0 {
		return 0, io.EOF
	}
	n := len(p)
	if s.chunk > 0 && n > s.chunk {
		n = s.chunk
	}
	if n > len(s.b) {
		n = len(s.b)
	}
	if s.fail > 0 && n > s.fail {
		n = s.fail
	}
	copy(p, s.b[:n])
	s.b = s.b[n:]
	if s.fail > 0 {
		s.fail -= n
	}
	return n, nil
}

// same checks that a tree is exactly ref: entries, root, proofs.
func same(mt *merkletree.MerkleTree, ref *world.RefTree, all []merkletree.Data) error {
	if err := world.ObserveTree(mt, ref, nil, all); err != nil {
		return err
	}
	for i := range all {
		hi := world.RefHi(&all[i])
		p, err := mt.GenerateProof(&hi, nil)
		if err != nil {
			return fmt.Errorf("proof %d: %v", i, err)
		}
		if err := world.CheckProof(p, ref, hi, nil); err != nil {
			return fmt.Errorf("proof %d: %v", i, err)
		}
	}
	return nil
}

// goOn inserts everything into the tree and checks each step.
func goOn(mt *merkletree.MerkleTree, ref *world.RefTree, all []merkletree.Data) error {
	for i := range all {
		v := ref.Verdict(&all[i])
		if err := world.CheckAdd(mt.AddEntry(world.Entry(all[i])), v); err != nil {
			return err
		}
		ref.Add(&all[i])
		if err := world.ObserveTree(mt, ref, nil, all); err != nil {
			return err
		}
	}
	return nil
}

func one(c *mcx.Ctx, levels int, ds, all []merkletree.Data, trunc bool, backend world.Backend) error {
	mt, disk, refs, roots, err := world.BuildHistory(levels, ds)
	if err != nil {
		return err
	}
	for ri := range roots {
		last := ri == len(roots)-1
		ref := refs[ri]
		before := disk.Digest()
		dump := func(w io.Writer) error { return mt.DumpTree(w, &roots[ri]) }
		if last {
			dump = func(w io.Writer) error { return mt.DumpTree(w, nil) }
		}
		buf := &sink{left: -1}
		if err := dump(buf); err != nil {
			return fmt.Errorf("dump at root %d: %v", ri, err)
		}
		if disk.Digest() != before {
			return fmt.Errorf("a dump changed the storage")
		}
		b := buf.Bytes()
		if last {
			w2 := &sink{left: -1}
			if err := mt.DumpTree(w2, &roots[ri]); err != nil || !bytes.Equal(w2.Bytes(), b) {
				return fmt.Errorf("dump at the current root differs from the dump naming that root (%v)", err)
			}
		}
		for _, chunk := range []int{0, 1, 7} {
			if chunk > 0 && !last {
				continue
			}
			st, reopen, _, done := backend.New()
			err := func() error {
				imp, err := merkletree.NewMerkleTree(st, levels)
				if err != nil {
					return err
				}
				if err := imp.ImportTree(&source{b: b, fail: -1, chunk: chunk}); err != nil {
					return fmt.Errorf("import of root %d: %v", ri, err)
				}
				if err := same(imp, ref, all); err != nil {
					return fmt.Errorf("imported tree (root %d): %v", ri, err)
				}
				w2 := &sink{left: -1}
				if err := imp.DumpTree(w2, nil); err != nil || !bytes.Equal(w2.Bytes(), b) {
					return fmt.Errorf("the dump of the imported tree differs (%v)", err)
				}
				st2, err := reopen()
				if err != nil {
					return err
				}
				re, err := merkletree.NewMerkleTree(st2, levels)
				if err != nil {
					return fmt.Errorf("reopening the imported storage: %v", err)
				}
				if err := same(re, ref, all); err != nil {
					return fmt.Errorf("reopened imported tree (root %d): %v", ri, err)
				}
				more := ref.Clone()
				if err := goOn(re, more, all); err != nil {
					return fmt.Errorf("insertions after importing root %d: %v", ri, err)
				}
				st3, err := reopen()
				if err != nil {
					return err
				}
				re, err = merkletree.NewMerkleTree(st3, levels)
				if err != nil {
					return err
				}
				if err := same(re, more, all); err != nil {
					return fmt.Errorf("reopened after import and insertions: %v", err)
				}
				return nil
			}()
			done()
			if err != nil {
				return err
			}
		}
		// list of entries
		var lists [][]string
		claims, err := mt.DumpClaims(&roots[ri])
		if err != nil {
			return err
		}
		lists = append(lists, claims)
		var rev []string
		for i := range claims {
			rev = append(rev, claims[len(claims)-1-i])
		}
		lists = append(lists, rev)
		for _, l := range lists {
			d := world.NewDisk()
			imp, err := merkletree.NewMerkleTree(d.Storage(), levels)
			if err != nil {
				return err
			}
			if err := imp.ImportDumpedClaims(l); err != nil {
				return fmt.Errorf("import of entries: %v", err)
			}
			if err := same(imp, ref, all); err != nil {
				return fmt.Errorf("tree from the list of entries: %v", err)
			}
			imp, err = merkletree.NewMerkleTree(d.Storage(), levels)
			if err != nil {
				return err
			}
			if err := goOn(imp, ref.Clone(), all); err != nil {
				return fmt.Errorf("tree from the list of entries, reopened: %v", err)
			}
		}
		if !trunc || !last {
			continue
		}
		// truncated and failing streams
		for _, base := range [][]merkletree.Data{nil, all[:2]} {
			d := world.NewDisk()
			imp, err := merkletree.NewMerkleTree(d.Storage(), levels)
			if err != nil {
				return err
			}
			bref := world.NewRefTree(levels)
			for i := range base {
				if bref.Add(&base[i]) == world.AddOK {
					if err := imp.AddEntry(world.Entry(base[i])); err != nil {
						return err
					}
				}
			}
			dg := d.Digest()
			chk := func(err error, what string, n int) error {
				if err == nil {
					return fmt.Errorf("%s after %d bytes of %d accepted", what, n, len(b))
				}
				if d.Digest() != dg {
					return fmt.Errorf("%s after %d bytes changed the destination's storage", what, n)
				}
				if *imp.RootKey() != bref.Root() {
					return fmt.Errorf("%s after %d bytes changed the destination's root", what, n)
				}
				c.AddTransitions(1)
				return nil
			}
			for n := 0; n < len(b); n++ {
				if err := chk(imp.ImportTree(bytes.NewReader(b[:n])), "dump cut", n); err != nil {
					return err
				}
				if err := chk(imp.ImportTree(&source{b: b, fail: n}), "reader failing", n); err != nil {
					return err
				}
			}
			if err := same(imp, bref, all); err != nil {
				return err
			}
		}
		// a dump that names no root: without the last record
		rec := len(b) - (3 + len("currentroot") + 32)
		if rec < 0 || !bytes.Contains(b[rec:], []byte("currentroot")) {
			return nil // other format: covered by the cuts
		}
		// failing writer
		for n := 0; n < len(b); n++ {
			if err := mt.DumpTree(&sink{left: n}, nil); err == nil {
				return fmt.Errorf("a dump whose writer fails after %d bytes reports success", n)
			}
			if err := mt.DumpTree(&sink{left: n, once: true}, nil); err == nil {
				return fmt.Errorf("a dump whose writer fails once, after %d bytes, reports success", n)
			}
		}
		var text bytes.Buffer
		if err := mt.DumpClaimsIoWriter(&text, nil); err != nil {
			return err
		}
		for n := 0; n < text.Len(); n++ {
			if err := mt.DumpClaimsIoWriter(&sink{left: n}, nil); err == nil {
				return mcx.Sigf("claims-writer", "an export of entries whose writer fails after %d bytes reports success", n)
			}
			if err := mt.DumpClaimsIoWriter(&sink{left: n, once: true}, nil); err == nil {
				return fmt.Errorf("an export of entries whose writer fails once, after %d bytes, reports success", n)
			}
		}
		// read-only
		snap, err := mt.Snapshot(&roots[0])
		if err != nil {
			return err
		}
		before = disk.Digest()
		if err := snap.ImportTree(bytes.NewReader(b)); err == nil || disk.Digest() != before {
			return fmt.Errorf("a read-only tree imported a dump")
		}
		if *snap.RootKey() != roots[0] || *mt.RootKey() != roots[len(roots)-1] {
			return fmt.Errorf("importing into a read-only tree changed a root")
		}
		if len(claims) > 0 {
			if err := snap.ImportDumpedClaims(claims); err == nil || disk.Digest() != before {
				return fmt.Errorf("a read-only tree imported entries")
			}
		}
	}
	return nil
}

// badClaims checks malformed entry lists.
func badClaims(levels int, good string) error {
	d := world.NewDisk()
	mt, err := merkletree.NewMerkleTree(d.Storage(), levels)
	if err != nil {
		return err
	}
	before := d.Digest()
	raw := good[2:]
	for n := 0; n < len(raw); n++ {
		if err := mt.ImportDumpedClaims([]string{"0x" + raw[:n]}); err == nil || d.Digest() != before {
			return fmt.Errorf("entry cut to %d digits accepted", n)
		}
	}
	for _, b := range []string{raw + "0", raw + "00", "zz" + raw[2:], raw[:len(raw)-1] + "g", ""} {
		if err := mt.ImportDumpedClaims([]string{b}); err == nil || d.Digest() != before {
			return fmt.Errorf("malformed entry accepted")
		}
	}
	return nil
}

func main() {
	vposeidon.Fast = true
	mcx.Main("C04", "model_checking", func(c *mcx.Ctx) {
		defer world.CleanScratch()
		c.Rule("all orders of all subsets of entries sharing chosen path lengths; at every root of each history: whole-node dump and list of entries, imported, compared, reopened, extended; every truncation of the dump and every failure position of reader and writer")
		c.Assume("the hash is collision free: Poseidon is replaced by a SHA-256 based stand-in (C01 binds the real one)")
		a := world.NewAlphabet(0, 1, 2, 4, 6)
		var all []merkletree.Data
		for _, n := range []string{"A", "s0", "s1", "s2", "s4", "s6", "A2"} {
			all = append(all, a.Data[n])
		}
		pick := func(o []int) (ds []merkletree.Data) {
			for _, i := range o {
				ds = append(ds, all[i])
			}
			return
		}
		for _, l := range []int{8, 140} {
			l := l
			os := world.Orders(6, c.Pick(4, 6))
			if l == 140 && !c.Thorough() {
				os = world.Orders(6, 3)
			}
			c.Each(fmt.Sprintf("disk-L%d", l), len(os), func(i int) string { return fmt.Sprint(os[i]) }, func(i int) error {
				return one(c, l, pick(os[i]), all, i%c.Pick(25, 3) == 0 || len(os[i]) < 3, world.DiskBackend())
			})
			c.DistinctN(len(os))
		}
		subs := world.Subsets(6, c.Pick(3, 5))
		c.Each("memory", len(subs), func(i int) string { return fmt.Sprint(subs[i]) }, func(i int) error {
			return one(c, 9, pick(subs[i]), all, false, world.MemBackend())
		})
		c.DistinctN(len(subs))
		subs = world.Subsets(4, 3)
		c.Each("leveldb", len(subs), func(i int) string { return fmt.Sprint(subs[i]) }, func(i int) error {
			return one(c, 9, pick(subs[i]), all, false, world.LevelBackend())
		})
		c.DistinctN(len(subs))
		var deep []merkletree.Data
		for _, x := range world.DeepLens() {
			deep = append(deep, world.Sharing(x))
		}
		deep = append(deep, world.BaseEntry())
		c.Case("deep", "all", func() error { return one(c, 30, deep[3:], deep, true, world.DiskBackend()) })
		c.Case("bad entries", "", func() error {
			mt, _, _, _, err := world.BuildHistory(8, all[:1])
			if err != nil {
				return err
			}
			cl, err := mt.DumpClaims(nil)
			if err != nil {
				return err
			}
			return badClaims(8, cl[0])
		})
	})
}
