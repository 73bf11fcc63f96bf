// C16: concurrent operations on one identity are serialisable.
package main

import (
	"encoding/json"
	"fmt"
	"strings"
	"time"

	"github.com/iden3/go-iden3-core/merkletree"
	"verif/mc/idw"
	"verif/mc/lin"
	"verif/mc/mcx"
	"verif/mc/sched"
	"verif/mc/vposeidon"
	"verif/mc/world"
)

func claim(n string) *idw.Claim {
	switch n {
	case "a":
		return idw.NewClaim(1, 1)
	case "b":
		return idw.NewClaim(2, 1)
	case "c":
		return idw.NewClaim(3, 1)
	}
	return idw.NewClaim(1, 2) // a', same index as a
}

// the claims as stored when issued in order
var stored = func() map[string]merkletree.Data {
	r := map[string]merkletree.Data{}
	for i, n := range []string{"a", "b", "c"} {
		c := claim(n)
		c.Md.RevNonce = uint32(i + 1)
		r[n] = c.Data()
	}
	return r
}()

func js(v interface{}, err error) string {
	if err != nil {
		return lin.Err(err)
	}
	b, err := json.Marshal(v)
	if err != nil {
		return lin.Err(err)
	}
	return lin.Dig(string(b))
}

func hx(h *merkletree.Hash) string { return fmt.Sprintf("%x", h[:4]) }

// run runs one call and returns everything it shows.
func run(w *idw.World, op string) string {
	is := w.Iss
	f := strings.Fields(op)
	switch f[0] {
	case "issue":
		c := claim(f[1])
		c.Md.RevNonce = 0xabcd0000
		err := is.IssueClaim(c)
		return fmt.Sprintf("%s nonce %#x", lin.Err(err), c.Md.RevNonce)
	case "revoke":
		return lin.Err(is.RevokeClaim(claim(f[1])))
	case "pub":
		return lin.Err(is.PublishState())
	case "sync":
		return lin.Err(is.SyncIdenStatePublic())
	case "mine":
		sched.P()
		w.Chain.Mine()
	case "block":
		sched.P()
		w.Chain.Blocks(1)
	case "state":
		s, r := is.State()
		return fmt.Sprint(hx(s), hx(r.ClaimsTreeRoot), hx(r.RevocationsTreeRoot), hx(r.RootsTreeRoot))
	case "onchain":
		return hx(is.IdenStateOnChain())
	case "data":
		return js(is.StateDataOnChain(), nil)
	case "pending":
		p, t := is.IdenStatePending()
		return fmt.Sprint(hx(p), t)
	case "cred":
		// the stored entry, whatever its nonce
		c, err := is.GenCredentialExistence(idw.NewRaw(stored[f[1]]))
		return js(c, err)
	case "own":
		return js(is.GenIdOwnershipGenesisInputs(idw.OwnLevels))
	case "id":
		return fmt.Sprint(is.ID(), is.KeyOperational())
	case "sign":
		return js(is.SignState(&merkletree.HashZero, &merkletree.HashZero))
	case "zk":
		_, err := is.GenZkProofIdenStateUpdate(&merkletree.HashZero, &merkletree.HashZero)
		return lin.Err(err)
	}
	return ""
}

func final(w *idw.World) string {
	r := ""
	for _, op := range []string{"state", "data", "pending", "onchain", "own"} {
		r += run(w, op) + " "
	}
	for _, t := range w.Chain.Txs {
		r += fmt.Sprintf(" %s %x>%x:%d", t.Kind, t.Old[:4], t.New[:4], t.Status)
	}
	for _, l := range w.Off.Log {
		r += fmt.Sprintf(" off%x", l[:4])
	}
	r += " disk" + lin.Dig(w.Disk.Digest())
	// a restart sees the same
	is, err := w.Load(w.Disk.Clone())
	if err != nil {
		return r + " restart: " + err.Error()
	}
	w = &idw.World{Iss: is}
	for _, op := range []string{"state", "data", "pending", "onchain"} {
		r += " " + run(w, op)
	}
	return r
}

func harness(start []string, threads [][]string, bound int) sched.Harness {
	var th [][]lin.Op
	for _, t := range threads {
		var l []lin.Op
		for _, n := range t {
			n := n
			l = append(l, lin.Op{Name: n, Run: func(s interface{}) string { return run(s.(*idw.World), n) }})
		}
		th = append(th, l)
	}
	points := func(on bool) func(s interface{}) {
		return func(s interface{}) {
			w := s.(*idw.World)
			w.Disk.Points, w.Chain.Points, w.Off.Points = on, on, on
		}
	}
	name := "fresh"
	if len(start) > 0 {
		name = strings.Join(start, ",")
	}
	return lin.Harness("after "+name+": ", lin.Sys{
		New: func() (interface{}, func(), error) {
			w, err := idw.NewWorld(1, nil, 1)
			if err != nil {
				return nil, nil, err
			}
			for _, op := range start {
				if r := run(w, op); strings.Contains(r, "error") {
					return nil, nil, fmt.Errorf("%s: %s", op, r)
				}
			}
			return w, nil, nil
		},
		Begin: points(true),
		End:   points(false),
		Final: func(s interface{}) string { return final(s.(*idw.World)) },
		Check: func(s interface{}) error {
			w := s.(*idw.World)
			// at most one live submission per state, and data published for
			// every submitted state
			seen := map[string]bool{}
			for _, t := range w.Chain.Txs {
				k := fmt.Sprint(t.New, t.Status)
				if t.Status != idw.TxFailed && seen[k] {
					return fmt.Errorf("state %x submitted twice", t.New[:4])
				}
				seen[k] = true
				if _, ok := w.Off.Data[t.Id][t.New]; !ok {
					return fmt.Errorf("state %x submitted but its data are not published", t.New[:4])
				}
			}
			return w.Off.Bad
		},
	}, th, bound)
}

func main() {
	vposeidon.Fast = true
	defer world.CleanScratch()
	mcx.Main("C16", "model-checking", func(c *mcx.Ctx) {
		c.Rule("all schedules within the preemption bound of concurrent issuing, revoking, publishing, synchronising, querying and credential generation on one real identity, with a point before every statement of the issuer's methods, every lock, storage, chain and off-chain call: results, final identity, storage, submissions and publications are those of a sequential order of the same calls respecting real time; no deadlock or panic")
		fresh := []string{}
		one := []string{"issue a"}
		pend := []string{"issue a", "pub", "mine", "block"}
		on := append(append([]string{}, pend...), "sync")
		change := append(append([]string{}, on...), "issue b", "revoke a")
		p := c.Pick(2, 3)
		hs := []sched.Harness{
			harness(fresh, [][]string{{"issue a"}, {"issue b"}}, p),
			harness(fresh, [][]string{{"issue a"}, {"issue a'"}}, p),
			harness(fresh, [][]string{{"issue a"}, {"pub"}}, p),
			harness(one, [][]string{{"pub"}, {"pub"}}, p),
			harness(one, [][]string{{"issue b"}, {"revoke a"}}, p),
			harness(one, [][]string{{"revoke a"}, {"revoke a"}}, p),
			harness(one, [][]string{{"revoke a"}, {"pub"}}, p),
			harness(one, [][]string{{"pub"}, {"state", "state"}}, p),
			harness(one, [][]string{{"pub"}, {"pending", "pending"}}, p),
			harness(one, [][]string{{"pub"}, {"sync"}}, p),
			harness(one, [][]string{{"pub"}, {"mine", "block", "sync"}}, p),
			harness(pend, [][]string{{"sync"}, {"sync"}}, p),
			harness(pend, [][]string{{"sync"}, {"pub"}}, p),
			harness(pend, [][]string{{"sync"}, {"pending", "onchain"}}, p),
			harness(pend, [][]string{{"sync"}, {"onchain", "pending"}}, p),
			harness(pend, [][]string{{"sync"}, {"data", "onchain"}}, p),
			harness(pend, [][]string{{"sync"}, {"cred a"}}, p),
			harness(pend, [][]string{{"sync"}, {"issue b"}}, p),
			harness(on, [][]string{{"issue b"}, {"cred a"}}, p),
			harness(on, [][]string{{"cred b"}, {"issue b", "pub"}}, p),
			harness(change, [][]string{{"pub"}, {"issue c"}}, p),
			harness(change, [][]string{{"pub"}, {"cred a", "cred b"}}, p),
			harness(change, [][]string{{"pub"}, {"own", "state"}}, p),
			harness(change, [][]string{{"zk"}, {"pub"}}, p),
			harness(one, [][]string{{"issue b", "revoke a"}, {"state", "state"}}, p),
			harness(one, [][]string{{"issue b"}, {"pub"}, {"state"}}, p-1),
			harness(one, [][]string{{"issue b"}, {"pub"}, {"revoke a"}}, p-1),
			harness(pend, [][]string{{"sync"}, {"pub"}, {"pending"}}, p-1),
			harness(change, [][]string{{"pub"}, {"issue c"}, {"cred a"}}, p-1),
		}
		// every change with every question, one preemption
		have := map[string]bool{}
		for _, h := range hs {
			have[h.Name] = true
		}
		add := func(start []string, a, b string) {
			if h := harness(start, [][]string{{a}, {b}}, 1); !have[h.Name] {
				have[h.Name] = true
				h.Small = true
				hs = append(hs, h)
			}
		}
		for _, q := range []string{"state", "data", "onchain", "pending", "own", "zk", "id", "sign", "cred a"} {
			add(fresh, "issue a", q)
			add(one, "pub", q)
			add(one, "revoke a", q)
			add(pend, "sync", q)
			add(change, "issue c", q)
			add(change, "pub", q)
		}
		changes := []string{"issue c", "revoke a", "pub", "sync"}
		for i, x := range changes {
			for _, y := range changes[:i+1] {
				add(pend, x, y)
				add(change, x, y)
			}
		}
		sched.Explore(c, hs, time.Duration(c.Pick(120, 660))*time.Second)
	})
}
