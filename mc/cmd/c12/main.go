// C12: revocation nonces are never shared and a revocation hits only its claim.
package main

import (
	"encoding/binary"
	"fmt"
	"strings"
	"time"

	"github.com/iden3/go-iden3-core/components/verifier"
	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/identity/holder"
	"github.com/iden3/go-iden3-core/identity/issuer"
	"github.com/iden3/go-iden3-core/merkletree"
	"verif/mc/idw"
	"verif/mc/lin"
	"verif/mc/mcx"
	"verif/mc/sched"
	"verif/mc/vposeidon"
	"verif/mc/world"
)

type sys struct {
	w     *idw.World
	h     *holder.Holder
	v     *verifier.Verifier
	names []string
	high  bool
}

func claim(n string) *idw.Claim {
	switch n {
	case "a":
		return idw.NewClaim(1, 1)
	case "a'":
		return idw.NewClaim(1, 2)
	case "b":
		return idw.NewClaim(2, 1)
	case "c":
		return idw.NewClaim(3, 1)
	case "big":
		return &idw.Claim{Md: idw.NewClaim(4, 4).Md, I: 4, V: 4, Big: true}
	}
	return idw.NewClaim(5, 1) // the genesis claim g
}

func issued(m *idw.Model, n string) *idw.Issued {
	d := claim(n).Data()
	h := world.RefHi(&d)
	return m.Issued[string(h[:])]
}

const issueCalls = 26 // more than an issuance makes

func (s *sys) Ops() []string {
	ops := []string{}
	for _, n := range s.names {
		if issued(s.w.M, n) == nil {
			ops = append(ops, "issue "+n)
			if s.high {
				break
			}
			for k := 1; k <= s.w.Disk.Calls+issueCalls && k <= issueCalls; k++ {
				ops = append(ops, fmt.Sprintf("fail %d issue %s", k, n))
			}
			ops = append(ops, "crash 1 issue "+n, "crash 2 issue "+n, "crash 3 issue "+n)
			break
		}
	}
	if !s.high {
		ops = append(ops, "issue big")
	}
	if issued(s.w.M, "a") != nil {
		ops = append(ops, "issue a'")
	}
	for _, n := range append([]string{"g"}, s.names...) {
		if is := issued(s.w.M, n); is != nil {
			ops = append(ops, "revoke "+n)
		}
	}
	ops = append(ops, "publish", "reload")
	return ops
}

var errNoFault = fmt.Errorf("the fault did not fire")

func (s *sys) Do(op string, full bool) error {
	w := s.w
	var err error
	f := strings.Fields(op)
	switch f[0] {
	case "issue":
		err = w.Issue(claim(f[1]))
	case "fail":
		var k int
		fmt.Sscan(f[1], &k)
		w.Disk.Calls, w.Disk.Faults = 0, 0
		w.Disk.Fault = func(n int, kind string, _ []byte) error {
			if n == k {
				return world.ErrInjected
			}
			return nil
		}
		c := claim(f[3])
		c.Md.RevNonce = 0xabcd0000
		e := w.Iss.IssueClaim(c)
		w.Disk.Fault = nil
		if e == nil {
			err = w.M.Issue(c, 0xabcd0000, nil)
		} else if w.Disk.Faults == 0 {
			err = fmt.Errorf("issuing: %v", e)
		} else if c.Md.RevNonce != 0xabcd0000 {
			err = fmt.Errorf("a failed issuance changed the claim's nonce to %d", c.Md.RevNonce)
		}
	case "crash":
		var k int
		fmt.Sscan(f[1], &k)
		base := w.Disk.Clone()
		w.Disk.Log = nil
		c := claim(f[3])
		e := w.Iss.IssueClaim(c)
		if e != nil {
			return fmt.Errorf("issuing: %v", e)
		}
		if k < len(w.Disk.Log) {
			w.Disk = w.Disk.AtCommit(base, k)
			err = w.Again()
		} else {
			err = w.M.Issue(c, 0, nil)
		}
		w.Disk.Log = nil
	case "revoke":
		err = w.Revoke(claim(f[1]))
	case "publish":
		if err = w.Publish(idw.PubEnv{}); err == nil {
			w.Chain.Mine()
			err = w.Sync(idw.SyncEnv{})
		}
	case "reload":
		err = w.Reload(idw.SyncEnv{})
	}
	if err != nil {
		return err
	}
	if err := w.M.Show(w.Iss); err != nil {
		return err
	}
	if full && f[0] == "publish" && *w.M.OnChain.IdenState != merkletree.HashZero {
		for _, is := range w.M.Issued {
			if is.Data == w.M.KOp {
				continue
			}
			ce, err := w.Iss.GenCredentialExistence(idw.NewRaw(is.Data))
			if err != nil {
				return fmt.Errorf("credential of nonce %d: %v", is.Nonce, err)
			}
			cv, err := s.h.HolderGetCredentialValidity(ce)
			if is.Revoked {
				if err != holder.ErrRevokedClaim {
					return fmt.Errorf("the validity of the revoked claim with nonce %d is answered with %v", is.Nonce, err)
				}
				continue
			}
			if err != nil {
				return fmt.Errorf("the validity of the unrevoked claim with nonce %d is answered with %v", is.Nonce, err)
			}
			if err := s.v.VerifyCredentialValidity(cv, time.Hour); err != nil {
				return fmt.Errorf("the validity of the unrevoked claim with nonce %d: %v", is.Nonce, err)
			}
		}
	}
	return nil
}

func (s *sys) Key() string { return s.w.M.Key() + s.w.Disk.Digest() }
func (s *sys) Close()      {}

func build(names []string, genesis bool) (*sys, error) {
	extra := []*idw.Claim{}
	if genesis {
		extra = append(extra, claim("g"))
	}
	w, err := idw.NewWorld(1, extra, 0)
	if err != nil {
		return nil, err
	}
	h, _, err := w.NewHolder(9, nil)
	if err != nil {
		return nil, err
	}
	return &sys{w: w, h: h, v: verifier.New(&w.Net), names: names}, nil
}

// buildHigh starts where nonces up to from were given out. Where the counter
// isn't stored as expected it starts at the first nonce.
func buildHigh(from uint32) (*sys, error) {
	s, err := build([]string{"a", "b"}, false)
	if err != nil {
		return nil, err
	}
	w := s.w
	for k := range w.Disk.KV {
		if strings.HasSuffix(k, "nonceidx") {
			b := make([]byte, 4)
			binary.LittleEndian.PutUint32(b, from)
			w.Disk.KV[k] = b
		}
	}
	s.high = true
	return s, w.Again()
}

// generator checks the nonce generator up to its end.
func generator() error {
	d := world.NewDisk()
	st := d.Storage()
	v := db.NewStorageValue([]byte("n"))
	tx, _ := st.NewTx()
	g := issuer.NewUniqueNonceGen(v)
	g.Init(tx)
	if err := tx.Commit(); err != nil {
		return err
	}
	for _, from := range []uint32{0, 1, 0xff, 0xffff, 0xffffff, 0x7fffffff, 0xfffffffd} {
		tx, _ := st.NewTx()
		v.Set(tx, from)
		if err := tx.Commit(); err != nil {
			return err
		}
		seen := map[uint32]bool{}
		for i := 0; i < 5; i++ {
			tx, _ := st.NewTx()
			n, err := g.Next(tx)
			if err != nil {
				if from != 0xfffffffd || i < 2 {
					return fmt.Errorf("nonce %d after %#x: %v", i, from, err)
				}
				continue
			}
			if err := tx.Commit(); err != nil {
				return err
			}
			if seen[n] || n < from {
				return fmt.Errorf("nonce %#x after %#x", n, from)
			}
			seen[n] = true
			// a generator over the same value goes on
			g = issuer.NewUniqueNonceGen(v)
		}
	}
	return nil
}

type conc struct {
	w      *idw.World
	claims []*idw.Claim
}

// concurrent issuances get different nonces and none is lost.
func concurrent(name string, threads [][]string, bound int) sched.Harness {
	var th [][]lin.Op
	for _, t := range threads {
		var l []lin.Op
		for _, n := range t {
			n := n
			l = append(l, lin.Op{Name: "issue " + n, Run: func(s interface{}) string {
				c := claim(n)
				c.Md.RevNonce = 0xabcd0000
				err := s.(*conc).w.Iss.IssueClaim(c)
				s.(*conc).claims = append(s.(*conc).claims, c)
				if err == nil && c.Md.RevNonce == 0xabcd0000 || err != nil && c.Md.RevNonce != 0xabcd0000 {
					return fmt.Sprintf("answered %v with nonce %#x", err, c.Md.RevNonce)
				}
				return lin.Err(err)
			}})
		}
		th = append(th, l)
	}
	return lin.Harness(name, lin.Sys{
		New: func() (interface{}, func(), error) {
			w, err := idw.NewWorld(1, nil, 0)
			return &conc{w: w}, nil, err
		},
		Begin: func(s interface{}) { s.(*conc).w.Disk.Points = true },
		End:   func(s interface{}) { s.(*conc).w.Disk.Points = false },
		Final: func(s interface{}) string {
			x := s.(*conc)
			seen := map[uint32]bool{0: true}
			n := 0
			for _, c := range x.claims {
				if c.Md.RevNonce == 0xabcd0000 {
					continue
				}
				n++
				if seen[c.Md.RevNonce] {
					return fmt.Sprintf("nonce %d given twice", c.Md.RevNonce)
				}
				seen[c.Md.RevNonce] = true
				if err := x.w.M.Issue(c, 0, nil); err != nil {
					return err.Error()
				}
			}
			if err := x.w.M.Show(x.w.Iss); err != nil {
				return err.Error()
			}
			if err := x.w.Again(); err != nil {
				return err.Error()
			}
			if err := x.w.M.Show(x.w.Iss); err != nil {
				return "restarted: " + err.Error()
			}
			return fmt.Sprintf("%d issued", n)
		},
	}, th, bound)
}

type gen struct {
	d   *world.Disk
	st  db.Storage
	v   *db.StorageValue
	tx  db.Tx
	g   *issuer.UniqueNonceGen
	got []uint32
}

// one generator may be asked by several threads that write one transaction.
func generators(threads, calls, bound int) sched.Harness {
	var th [][]lin.Op
	for t := 0; t < threads; t++ {
		var l []lin.Op
		for i := 0; i < calls; i++ {
			l = append(l, lin.Op{Name: "next", Run: func(s interface{}) string {
				x := s.(*gen)
				n, err := x.g.Next(x.tx)
				if err != nil {
					return lin.Err(err)
				}
				x.got = append(x.got, n)
				return "ok"
			}})
		}
		th = append(th, l)
	}
	return lin.Harness("one generator", lin.Sys{
		New: func() (interface{}, func(), error) {
			x := &gen{d: world.NewDisk(), v: db.NewStorageValue([]byte("n"))}
			x.st = x.d.Storage()
			x.g = issuer.NewUniqueNonceGen(x.v)
			tx, err := x.st.NewTx()
			if err != nil {
				return nil, nil, err
			}
			x.g.Init(tx)
			if err := tx.Commit(); err != nil {
				return nil, nil, err
			}
			x.tx, err = x.st.NewTx()
			return x, nil, err
		},
		Begin: func(s interface{}) { s.(*gen).d.Points = true },
		End:   func(s interface{}) { s.(*gen).d.Points = false },
		Final: func(s interface{}) string {
			x := s.(*gen)
			n, err := x.g.Next(x.tx)
			if err != nil {
				return err.Error()
			}
			x.got = append(x.got, n)
			if err := x.tx.Commit(); err != nil {
				return err.Error()
			}
			tx, err := x.st.NewTx()
			if err != nil {
				return err.Error()
			}
			n, err = issuer.NewUniqueNonceGen(x.v).Next(tx)
			if err != nil {
				return err.Error()
			}
			seen := map[uint32]bool{}
			for _, k := range append(x.got, n) {
				if seen[k] {
					return fmt.Sprintf("nonce %d given twice", k)
				}
				seen[k] = true
			}
			return fmt.Sprintf("%d given", len(x.got))
		},
	}, th, bound)
}

func main() {
	vposeidon.Fast = true
	defer world.CleanScratch()
	mcx.Main("C12", "model-checking", func(c *mcx.Ctx) {
		c.Rule("exhaustive breadth-first search over histories of issuing (fresh, repeated and invalid claims, failing at every storage call, crashed after every commit), revoking, publishing and restarting: nonces distinct, failed issuances leave the claim alone, after each publication exactly the revoked claims are refused to a holder and all others verify; the nonce generator at every boundary; all schedules of concurrent issuances, and of threads asking one generator within one transaction, within the preemption bound")
		c.Case("generator", "boundaries", generator)
		c.BFS(mcx.BFS{Name: "two claims", New: func() (mcx.Sys, error) { return build([]string{"a", "b"}, false) }, Depth: c.Pick(6, 8)})
		c.BFS(mcx.BFS{Name: "genesis claim", New: func() (mcx.Sys, error) { return build([]string{"a", "b", "c"}, true) }, Depth: c.Pick(5, 7)})
		for _, from := range []uint32{0xff, 0xffff, 0xffffff, 0x7fffffff, 0xfffffff0} {
			from := from
			c.BFS(mcx.BFS{Name: fmt.Sprintf("nonces from %#x", from), New: func() (mcx.Sys, error) { return buildHigh(from) }, Depth: c.Pick(5, 7)})
		}
		sched.Explore(c, []sched.Harness{
			concurrent("issue a|issue b", [][]string{{"a"}, {"b"}}, c.Pick(2, 3)),
			concurrent("issue a|issue a'", [][]string{{"a"}, {"a'"}}, c.Pick(2, 3)),
			concurrent("issue a,c|issue b", [][]string{{"a", "c"}, {"b"}}, c.Pick(1, 2)),
			generators(2, 1, c.Pick(3, 5)),
			generators(2, 2, c.Pick(2, 4)),
			generators(3, 1, c.Pick(2, 4)),
		}, time.Duration(c.Pick(60, 300))*time.Second)
	})
}
