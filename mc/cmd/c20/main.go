// C20: the off-chain store serves the published data of the state asked for.
package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/iden3/go-iden3-core/components/idenpuboffchain"
	"github.com/iden3/go-iden3-core/components/idenpuboffchain/local"
	"github.com/iden3/go-iden3-core/components/idenpuboffchain/writerhttp"
	"github.com/iden3/go-iden3-core/core"
	"verif/mc/lin"
	"verif/mc/mcx"
	"verif/mc/pub"
	"verif/mc/sched"
	"verif/mc/vposeidon"
	"verif/mc/world"
)

var ids = []core.ID{core.NewID([2]byte{}, [27]byte{1}), core.NewID([2]byte{}, [27]byte{2})}

const url = "http://foo.bar"

// scribble overwrites what was handed over.
func scribble(p *idenpuboffchain.PublicData) {
	for _, h := range []*pub.H{p.IdenState, p.ClaimsTreeRoot, p.RevocationsTreeRoot, p.RootsTreeRoot} {
		*h = pub.H{9}
	}
	*p = idenpuboffchain.PublicData{}
}

// writer is the store served over HTTP.
type writer struct {
	n    int // cache length
	d    *world.Disk
	w    *writerhttp.IdenPubOffChainWriteHttp
	iss  *pub.Iss
	pubs []int
	dumb bool // compare hashes only
}

func newWriter(n int) (*writer, error) {
	s := &writer{n: n, d: world.NewDisk()}
	var err error
	if s.iss, err = pub.New(3); err != nil {
		return nil, err
	}
	s.w, err = writerhttp.NewIdenPubOffChainWriteHttp(&writerhttp.Config{CacheLen: byte(n), Url: url}, s.d.Storage())
	return s, err
}

func (s *writer) Close() {}

func (s *writer) retained() []int {
	if len(s.pubs) > s.n {
		return s.pubs[len(s.pubs)-s.n:]
	}
	return s.pubs
}

func (s *writer) Key() string {
	return fmt.Sprint(len(s.iss.States), s.retained(), len(s.pubs)%s.n, len(s.pubs) >= s.n)
}

const faults = 5 // storage calls of a publication

func (s *writer) Ops() []string {
	k := len(s.iss.States) - 1
	ops := []string{fmt.Sprint("publish ", k), "reload"}
	if k > 0 {
		ops = append(ops, "publish 0")
	}
	if k > 1 {
		ops = append(ops, fmt.Sprint("publish ", k-1))
	}
	if k < 4 {
		ops = append(ops, "grow")
	}
	for i := 1; i <= faults; i++ {
		ops = append(ops, fmt.Sprintf("fail %d %d", k, i), fmt.Sprintf("fail %d %d", k, -i))
	}
	for i := 1; i <= 3; i++ {
		ops = append(ops, fmt.Sprintf("failtree %d %d", k, i), fmt.Sprintf("failtree %d %d", k, -i), fmt.Sprintf("failload 0 %d", i))
	}
	ops = append(ops, "failtreeafter 0 1", "bad 0 0", "bad 0 1", fmt.Sprintf("crash %d 0", k), fmt.Sprint("failget ", k), "failget 0")
	return ops
}

// nth makes the k-th storage call fail, and for negative k all from there on.
func nth(d *world.Disk, k int) {
	d.Calls, d.Faults = 0, 0
	d.Fault = func(n int, kind string, _ []byte) error {
		if n == k || k < 0 && n >= -k {
			return world.ErrInjected
		}
		return nil
	}
}

func (s *writer) publish(k int) error {
	p := s.iss.Data(k)
	err := s.w.Publish(&ids[0], p)
	if err == nil {
		scribble(p)
	}
	return err
}

func (s *writer) Do(op string, full bool) error {
	var k, n int
	f := strings.Fields(op)
	if len(f) > 1 {
		fmt.Sscan(f[1], &k)
	}
	if len(f) > 2 {
		fmt.Sscan(f[2], &n)
	}
	switch f[0] {
	case "grow":
		if err := s.iss.Grow(); err != nil {
			return err
		}
	case "publish":
		if err := s.publish(k); err != nil {
			return err
		}
		s.pubs = append(s.pubs, k)
	case "reload":
		return s.load()
	case "fail", "failtree", "failtreeafter":
		d := s.d
		if f[0] != "fail" {
			d = s.iss.Disk
		}
		nth(d, n)
		err := s.publish(k)
		d.Fault = nil
		if err == nil && d.Faults > 0 {
			return fmt.Errorf("a storage failure was not reported")
		}
		if err != nil && d.Faults == 0 {
			return err
		}
		if err == nil {
			s.pubs = append(s.pubs, k)
		}
	case "bad": // public data whose trees do not have the root
		p := s.iss.Data(0)
		if n == 0 {
			*p.RootsTreeRoot = pub.H{77}
		} else {
			*p.RevocationsTreeRoot = pub.H{77}
		}
		if err := s.w.Publish(&ids[0], p); err == nil {
			return fmt.Errorf("public data whose tree does not have the root were published")
		}
	case "failget":
		for i := 0; i < 4*20; i++ { // every storage call of both kinds of question
			n, q := i/4+1, -1
			if i&1 == 1 {
				q = k
			}
			if i&2 == 2 {
				n = -n
			}
			nth(s.d, n)
			var st *pub.H
			if q >= 0 {
				x := s.iss.States[q].State
				st = &x
			}
			b, err := s.w.GetPublicData(st)
			s.d.Fault = nil
			if s.d.Faults == 0 {
				continue
			}
			if err == nil {
				return fmt.Errorf("a storage failure was not reported when reading: %v", b.IdenState)
			}
			if err == writerhttp.ErrIdenStateNotFound {
				return fmt.Errorf("a storage failure was taken as absence of the state")
			}
		}
	case "failload":
		nth(s.d, n)
		w, err := writerhttp.LoadIdenPubOffChainWriteHttp(s.d.Storage())
		s.d.Fault = nil
		if err == nil && s.d.Faults > 0 {
			return fmt.Errorf("loading did not report a storage failure")
		}
		if err == nil {
			s.w = w
		}
	case "crash": // the process ends after any commit of a publication
		base := s.d.Clone()
		s.d.Log = nil
		if err := s.publish(k); err != nil {
			return err
		}
		log := len(s.d.Log)
		after := s.d
		for i := 0; i < log; i++ {
			s.d = after.AtCommit(base, i)
			if err := s.load(); err != nil {
				return err
			}
			if err := s.observe(); err != nil {
				return fmt.Errorf("after a crash at commit %d: %v", i, err)
			}
		}
		s.d = after
		s.d.Log = nil
		s.pubs = append(s.pubs, k)
		return s.load()
	}
	if full {
		return s.observe()
	}
	return nil
}

func (s *writer) load() error {
	w, err := writerhttp.LoadIdenPubOffChainWriteHttp(s.d.Storage())
	if err != nil {
		return err
	}
	if w.Url() != url {
		return fmt.Errorf("loaded with URL %q", w.Url())
	}
	s.w = w
	return s.observe()
}

// ask asks for a state (-1: the latest).
func (s *writer) ask(q int, st pub.H) error {
	want := -1
	var p *pub.H
	if q < 0 {
		if len(s.pubs) > 0 {
			want = s.pubs[len(s.pubs)-1]
		}
	} else {
		p = &st
		for _, k := range s.retained() {
			if k == q {
				want = k
			}
		}
	}
	b, err := s.w.GetPublicData(p)
	if want < 0 {
		if err == nil {
			return fmt.Errorf("nothing to be served, got the data of %s", b.IdenState.Hex()[:12])
		}
		if q >= 0 && err != writerhttp.ErrIdenStateNotFound {
			return fmt.Errorf("a state that is not retained is reported as %v", err)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("asking for state %d: %v", q, err)
	}
	if err := s.iss.States[want].CheckBlobs(b, !s.dumb); err != nil {
		return err
	}
	for i := range b.RootsTree {
		b.RootsTree[i] ^= 0xff
	}
	for i := range b.RevocationsTree {
		b.RevocationsTree[i] ^= 0xff
	}
	b.IdenState, b.ClaimsTreeRoot = pub.H{3}, pub.H{4}
	return nil
}

func (s *writer) observe() error {
	for r := 0; r < 2; r++ {
		if err := s.ask(-1, pub.H{}); err != nil {
			return fmt.Errorf("published %v, cache of %d, latest: %v", s.pubs, s.n, err)
		}
		if s.dumb {
			break
		}
	}
	for q := range s.iss.States {
		if s.dumb && q > 2 && q < len(s.iss.States)-s.n-2 {
			continue
		}
		if err := s.ask(q, s.iss.States[q].State); err != nil {
			return fmt.Errorf("published %v, cache of %d, state %d: %v", s.pubs, s.n, q, err)
		}
	}
	for _, h := range []pub.H{{}, {5}} {
		if err := s.ask(1<<20, h); err != nil {
			return err
		}
	}
	return nil
}

// loc is the in-memory store.
type loc struct {
	l    *local.IdenPubOffChain
	iss  []*pub.Iss
	last []int
	have []map[int]bool
}

func newLoc() (mcx.Sys, error) {
	s := &loc{l: local.NewIdenPubOffChain(url), last: []int{-1, -1}, have: []map[int]bool{{}, {}}}
	for i := range ids {
		x, err := pub.New(uint64(i + 1))
		if err != nil {
			return nil, err
		}
		s.iss = append(s.iss, x)
	}
	return s, nil
}

func (s *loc) Close() {}
func (s *loc) Key() string {
	return fmt.Sprint(len(s.iss[0].States), len(s.iss[1].States), s.last, s.have)
}
func (s *loc) Ops() (ops []string) {
	for i := range ids {
		k := len(s.iss[i].States) - 1
		ops = append(ops, fmt.Sprintf("publish %d %d", i, k))
		if k > 0 {
			ops = append(ops, fmt.Sprintf("publish %d 0", i))
		}
		if k < 3 {
			ops = append(ops, fmt.Sprintf("grow %d 0", i))
		}
		ops = append(ops, fmt.Sprintf("bad %d 0", i), fmt.Sprintf("bad %d 1", i))
	}
	return
}
func (s *loc) Do(op string, full bool) error {
	var i, k int
	f := strings.Fields(op)
	fmt.Sscan(f[1], &i)
	fmt.Sscan(f[2], &k)
	switch f[0] {
	case "grow":
		if err := s.iss[i].Grow(); err != nil {
			return err
		}
	case "publish":
		p := s.iss[i].Data(k)
		if err := s.l.Publish(&ids[i], p); err != nil {
			return err
		}
		scribble(p)
		s.last[i] = k
		s.have[i][k] = true
	case "bad":
		p := s.iss[i].Data(0)
		if k == 0 {
			*p.RootsTreeRoot = pub.H{77}
		} else {
			*p.RevocationsTreeRoot = pub.H{77}
		}
		if err := s.l.Publish(&ids[i], p); err == nil {
			return fmt.Errorf("public data whose tree does not have the root were published")
		}
	}
	if !full {
		return nil
	}
	for i := range ids {
		for q := -1; q <= len(s.iss[i].States); q++ {
			want := q
			p := &pub.H{99}
			if q == -1 {
				want, p = s.last[i], nil
			} else if q < len(s.iss[i].States) {
				x := s.iss[i].States[q].State
				p = &x
			}
			d, err := s.l.GetPublicData(url, &ids[i], p)
			if want < 0 || !s.have[i][want] {
				if err == nil {
					return fmt.Errorf("state %d of identity %d was not published, but is served", q, i)
				}
				continue
			}
			if err != nil {
				return fmt.Errorf("state %d of identity %d: %v", q, i, err)
			}
			if err := s.iss[i].States[want].CheckData(d); err != nil {
				return fmt.Errorf("state %d of identity %d: %v", q, i, err)
			}
			if _, err := s.l.GetPublicData(url+"/", &ids[i], p); err == nil {
				return fmt.Errorf("served at another URL")
			}
		}
	}
	return nil
}

func show(iss *pub.Iss, st *pub.H, err error) string {
	if err != nil {
		return err.Error()
	}
	for k := range iss.States {
		if iss.States[k].State == *st {
			return fmt.Sprint(k)
		}
	}
	return "?"
}

// concurrent publications and readings of the HTTP store.
func conc(n int, init []int, threads [][]string, bound int) sched.Harness {
	var th [][]lin.Op
	for _, t := range threads {
		var l []lin.Op
		for _, o := range t {
			var k int
			f := strings.Fields(o)
			fmt.Sscan(f[1], &k)
			l = append(l, lin.Op{Name: o, Run: func(x interface{}) string {
				s := x.(*writer)
				switch f[0] {
				case "publish":
					return lin.Err(s.publish(k))
				case "load":
					w, err := writerhttp.LoadIdenPubOffChainWriteHttp(s.d.Storage())
					if err != nil {
						return err.Error()
					}
					b, err := w.GetPublicData(nil)
					if err != nil {
						return err.Error()
					}
					return show(s.iss, &b.IdenState, s.same(b))
				}
				var st *pub.H
				if k >= 0 {
					h := s.iss.States[k].State
					st = &h
				}
				b, err := s.w.GetPublicData(st)
				if err != nil {
					return err.Error()
				}
				return show(s.iss, &b.IdenState, s.same(b))
			}})
		}
		th = append(th, l)
	}
	return lin.Harness(fmt.Sprintf("cache of %d, published %v", n, init), lin.Sys{
		New: func() (interface{}, func(), error) {
			s, err := newWriter(n)
			for i := 0; err == nil && i < 3; i++ {
				err = s.iss.Grow()
			}
			for _, k := range init {
				if err == nil {
					err = s.publish(k)
				}
			}
			return s, nil, err
		},
		Begin: func(x interface{}) { x.(*writer).d.Points = true },
		End:   func(x interface{}) { x.(*writer).d.Points = false },
		Final: func(x interface{}) string {
			s := x.(*writer)
			r := ""
			for q := -1; q < len(s.iss.States); q++ {
				var st *pub.H
				if q >= 0 {
					h := s.iss.States[q].State
					st = &h
				}
				b, err := s.w.GetPublicData(st)
				if err != nil {
					r += " " + err.Error()
				} else {
					r += " " + show(s.iss, &b.IdenState, s.same(b))
				}
			}
			return r
		},
	}, th, bound)
}

// same checks the blobs against the state they name.
func (s *writer) same(b *idenpuboffchain.PublicDataBlobs) error {
	for k := range s.iss.States {
		if s.iss.States[k].State == b.IdenState {
			return s.iss.States[k].CheckBlobs(b, true)
		}
	}
	return fmt.Errorf("unknown state")
}

func concLocal(threads [][]string, bound int) sched.Harness {
	var th [][]lin.Op
	for _, t := range threads {
		var l []lin.Op
		for _, o := range t {
			var i, k int
			f := strings.Fields(o)
			fmt.Sscan(f[1], &i)
			fmt.Sscan(f[2], &k)
			l = append(l, lin.Op{Name: o, Run: func(x interface{}) string {
				s := x.(*loc)
				if f[0] == "publish" {
					return lin.Err(s.l.Publish(&ids[i], s.iss[i].Data(k)))
				}
				var st *pub.H
				if k >= 0 {
					h := s.iss[i].States[k].State
					st = &h
				}
				d, err := s.l.GetPublicData(url, &ids[i], st)
				if err != nil {
					return err.Error()
				}
				for q := range s.iss[i].States {
					if s.iss[i].States[q].State == *d.IdenState {
						err = s.iss[i].States[q].CheckData(d)
					}
				}
				return show(s.iss[i], d.IdenState, err)
			}})
		}
		th = append(th, l)
	}
	return lin.Harness("local", lin.Sys{
		New: func() (interface{}, func(), error) {
			x, err := newLoc()
			if err != nil {
				return nil, nil, err
			}
			s := x.(*loc)
			for i := range ids {
				for k := 0; k < 2; k++ {
					if err := s.iss[i].Grow(); err != nil {
						return nil, nil, err
					}
				}
			}
			return s, nil, s.l.Publish(&ids[0], s.iss[0].Data(0))
		},
		Final: func(x interface{}) string {
			s := x.(*loc)
			r := ""
			for i := range ids {
				for q := -1; q < 3; q++ {
					var st *pub.H
					if q >= 0 {
						h := s.iss[i].States[q].State
						st = &h
					}
					d, err := s.l.GetPublicData(url, &ids[i], st)
					if err != nil {
						r += " " + err.Error()
					} else {
						r += " " + show(s.iss[i], d.IdenState, nil)
					}
				}
			}
			return r
		},
	}, th, bound)
}

func main() {
	vposeidon.Fast = true
	mcx.Main("C20", "model_checking", func(c *mcx.Ctx) {
		c.Rule("The issuer's trees grow; publications of the current, the previous and the first state, publications that fail at each storage call of the store or of the trees, crashes at each commit, reads and loads with failures, reloads. After every step the latest and every state ever reached is asked for and its trees are rebuilt; what was handed over or handed out is overwritten. Cache lengths up to 6 to a depth, and many up to 255 along long histories. The same for the local store with two identities. Concurrent publications, reads and loads under every schedule within the preemption bound.")
		c.Assume("A store is created once on an empty storage (and loaded afterwards). The stand-in hash is collision free on what is used.")
		var hs []sched.Harness
		b := c.Pick(2, 3)
		for _, n := range []int{1, 2, 3} {
			for _, init := range [][]int{{}, {0}, {0, 1, 0}} {
				hs = append(hs,
					conc(n, init, [][]string{{"publish 1"}, {"publish 2"}}, b),
					conc(n, init, [][]string{{"publish 1"}, {"get -1", "get 0"}}, c.Pick(1, 2)),
					conc(n, init, [][]string{{"publish 1"}, {"get -1"}}, b),
					conc(n, init, [][]string{{"publish 1", "publish 2"}, {"get 1", "get -1"}}, c.Pick(1, 2)),
					conc(n, init, [][]string{{"publish 1", "publish 2"}, {"get 1"}}, b),
					conc(n, init, [][]string{{"publish 1"}, {"publish 2"}, {"get -1"}}, c.Pick(1, 2)))
			}
		}
		for _, p := range [][][]string{
			{{"publish 0 1"}, {"publish 0 2"}, {"get 0 -1"}},
			{{"publish 0 1", "publish 0 0"}, {"get 0 -1", "get 0 1"}},
			{{"publish 1 1"}, {"publish 0 2"}, {"get 1 -1", "get 0 2"}},
			{{"publish 1 1"}, {"publish 1 2"}, {"get 1 -1", "get 1 1"}},
		} {
			hs = append(hs, concLocal(p, c.Pick(2, 3)))
		}
		sched.Explore(c, hs, time.Duration(c.Pick(60, 300))*time.Second)
		if c.Worker() {
			return
		}
		for n := 1; n <= 6; n++ {
			n := n
			c.BFS(mcx.BFS{Name: fmt.Sprintf("cache of %d", n), New: func() (mcx.Sys, error) { return newWriter(n) }, Depth: c.Pick(8, 10)})
		}
		c.BFS(mcx.BFS{Name: "local", New: newLoc, Depth: c.Pick(7, 9)})
		lens := []int{7, 8, 9, 15, 16, 17, 31, 33, 64, 100, 127, 128, 129, 200, 250, 253, 254, 255}
		if c.Thorough() {
			lens = nil
			for n := 7; n < 256; n++ {
				lens = append(lens, n)
			}
		}
		c.Each("long", len(lens), func(i int) string { return fmt.Sprint("cache of ", lens[i]) }, func(i int) error {
			s, err := newWriter(lens[i])
			if err != nil {
				return err
			}
			s.dumb = true
			for k := 0; k < 2*lens[i]+3; k++ {
				if err := s.Do(fmt.Sprint("publish ", k), false); err != nil {
					return err
				}
				if k < 2 || k%37 == 0 || k%lens[i] < 2 || k%lens[i] == lens[i]-1 {
					if err := s.observe(); err != nil {
						return err
					}
				} else if err := s.ask(-1, pub.H{}); err != nil {
					return fmt.Errorf("published %d, cache of %d, latest: %v", k+1, s.n, err)
				}
				if err := s.Do("grow", false); err != nil {
					return err
				}
			}
			return nil
		})
		c.Case("creation", "no room", func() error {
			w, err := writerhttp.NewIdenPubOffChainWriteHttp(&writerhttp.Config{Url: url}, world.NewDisk().Storage())
			if err != nil {
				return nil
			}
			iss, err := pub.New(1)
			if err != nil {
				return err
			}
			if w.Publish(&ids[0], iss.Data(0)) == nil {
				return fmt.Errorf("published into a cache of no length")
			}
			return nil
		})
		for k := 1; k <= 6; k++ {
			k := k
			c.Case("creation", fmt.Sprintf("failure %d", k), func() error {
				d := world.NewDisk()
				nth(d, k)
				w, err := writerhttp.NewIdenPubOffChainWriteHttp(writerhttp.NewConfigDefault(url), d.Storage())
				d.Fault = nil
				if (err == nil) != (d.Faults == 0) {
					return fmt.Errorf("%d failures, reported %v", d.Faults, err)
				}
				if err == nil && w.Url() != url {
					return fmt.Errorf("URL %s", w.Url())
				}
				if err != nil {
					if _, err := writerhttp.LoadIdenPubOffChainWriteHttp(d.Storage()); err == nil {
						return fmt.Errorf("a store whose creation failed can be loaded")
					}
				}
				return nil
			})
		}
	})
}
