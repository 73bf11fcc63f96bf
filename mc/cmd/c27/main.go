// C27: a nonce can be redeemed at most once and only before it expires.
package main

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"

	core "github.com/iden3/go-iden3-core/utils/noncedb"
	"verif/mc/lin"
	"verif/mc/mcx"
	"verif/mc/sched"
	"verif/mc/vtime"
)

const epoch = 1600000000

// clock is held by the history being run: the stand-in clock is global.
var clock sync.Mutex

type rec struct {
	exp    int64
	aux    string
	purged bool // it had expired when the expired ones were purged
}

// sys is a nonce database with its model.
type sys struct {
	db    *core.NonceDb
	now   int64
	live  map[string]*rec
	added []string // (nonce, expiry) of everything added and not surely purged
	n     int
	objs  []*core.NonceObj
	made  string
}

func newSys() (mcx.Sys, error) {
	clock.Lock()
	s := &sys{db: core.NewNonceDb(), now: epoch, live: map[string]*rec{}}
	vtime.Set(s.now * 1e9)
	return s, nil
}

func (s *sys) Close() { clock.Unlock() }

func (s *sys) Key() string {
	var l []string
	for n, r := range s.live {
		l = append(l, fmt.Sprint(n, r.exp-s.now, r.aux != "", r.purged))
	}
	sort.Strings(l)
	var g []string
	for _, a := range s.added {
		var n string
		var e int64
		fmt.Sscan(a, &n, &e) //nolint
		g = append(g, fmt.Sprint(n, e-s.now))
	}
	sort.Strings(g)
	return fmt.Sprint(l, g, s.made != "")
}

func (s *sys) Ops() []string {
	ops := []string{"tick", "purge"}
	for _, n := range []string{"a", "b", "c", "x"} {
		for _, d := range []string{"0", "2", "1", "-1"} {
			if n == "c" && d != "1" {
				continue
			}
			ops = append(ops, "add "+n+" "+d)
		}
		ops = append(ops, "redeem "+n)
	}
	ops = append(ops, "redeem A", "aux a", "searches", "tick 60")
	if s.made == "" {
		ops = append(ops, "new 1")
	} else {
		ops = append(ops, "redeem new")
	}
	return ops
}

func (s *sys) nonce(n string) string {
	if n == "new" {
		return s.made
	}
	return n
}

// want tells whether a nonce can be redeemed now, and with what payload.
func (s *sys) want(n string) (string, bool) {
	r := s.live[n]
	if r == nil || r.exp < s.now {
		return "", false
	}
	return r.aux, true
}

func payload(o *core.NonceObj) string {
	if o == nil {
		return "no object"
	}
	if o.Aux == nil {
		return ""
	}
	return fmt.Sprint(o.Aux)
}

func (s *sys) cmp(what, n string, o *core.NonceObj, ok bool) error {
	aux, want := s.want(n)
	if ok != want {
		return fmt.Errorf("%s %q: %v, expected %v", what, n, ok, want)
	}
	if ok && (o == nil || o.Nonce != n || payload(o) != aux || o.Expiration != s.live[n].exp) {
		return fmt.Errorf("%s %q gives %+v, expected payload %q and expiry %d", what, n, o, aux, s.live[n].exp)
	}
	return nil
}

func (s *sys) Do(op string, full bool) error {
	f := strings.Fields(op)
	switch f[0] {
	case "tick":
		d := int64(1)
		if len(f) > 1 {
			d = 60
		}
		s.now += d
		vtime.Set(s.now * 1e9)
	case "purge":
		s.db.DeleteOld()
		s.purge(true)
	case "searches":
		for i := 0; i < 128; i++ {
			if _, ok := s.db.Search("nope"); ok {
				return fmt.Errorf("a nonce never added is found")
			}
		}
	case "add", "new":
		var d int64
		fmt.Sscan(f[len(f)-1], &d) //nolint
		s.n++
		var aux interface{}
		val := ""
		if f[0] == "new" || f[1] != "a" {
			val = fmt.Sprintf("payload %d", s.n)
			aux = val
		}
		var o *core.NonceObj
		n := ""
		if f[0] == "new" {
			o = s.db.New(d, aux)
			if o == nil || len(o.Nonce) < 32 {
				return fmt.Errorf("no new nonce: %+v", o)
			}
			n = o.Nonce
			s.made = n
		} else {
			n = f[1]
			o = s.db.Add(n, d, aux)
		}
		r := s.live[n]
		if r != nil && r.exp >= s.now && o != nil {
			return fmt.Errorf("a stored nonce is added again")
		}
		if (r == nil || r.purged) && o == nil {
			return fmt.Errorf("a nonce that is not stored is refused")
		}
		if o == nil {
			break // expired, not purged
		}
		if o.Nonce != n || o.Expiration != s.now+d || payload(o) != val {
			return fmt.Errorf("stored as %+v", o)
		}
		s.live[n] = &rec{exp: s.now + d, aux: val}
		s.added = append(s.added, fmt.Sprint(n, " ", s.now+d))
	case "aux":
		r := s.live[f[1]]
		s.n++
		val := fmt.Sprintf("aux %d", s.n)
		ok := s.db.AddAux(f[1], val)
		_, usable := s.want(f[1])
		if ok && (r == nil || r.aux != "") {
			return fmt.Errorf("a payload is added to a nonce that is not stored or has one")
		}
		if !ok && usable && r.aux == "" {
			return fmt.Errorf("a payload is refused")
		}
		if ok {
			r.aux = val
		}
	case "redeem":
		n := s.nonce(f[1])
		o, ok := s.db.SearchAndDelete(n)
		if err := s.cmp("redeeming", n, o, ok); err != nil {
			return err
		}
		r := s.live[n]
		if ok {
			delete(s.live, n)
		} else if r != nil {
			// expired: it may be gone now
			r.exp = s.now - 1
		}
		if o2, ok2 := s.db.SearchAndDelete(n); ok2 {
			return fmt.Errorf("redeemed twice: %+v", o2)
		}
	}
	if full {
		return s.observe()
	}
	return nil
}

func (s *sys) purge(sure bool) {
	for _, r := range s.live {
		if r.exp < s.now {
			r.purged = true
		}
	}
	var rest []string
	for _, a := range s.added {
		var n string
		var e int64
		fmt.Sscan(a, &n, &e) //nolint
		if e >= s.now {
			rest = append(rest, a)
		}
	}
	s.added = rest
}

func (s *sys) observe() error {
	// every nonce is there exactly if it should be; nearby values are not
	for _, n := range []string{"a", "b", "c", s.made} {
		if n == "" {
			continue
		}
		o, ok := s.db.Search(n)
		if err := s.cmp("searching", n, o, ok); err != nil {
			return err
		}
		for _, m := range []string{n + " ", n + "\x00", " " + n, strings.ToUpper(n), n[1:], n + n} {
			if m == n {
				continue
			}
			if o, ok := s.db.Search(m); ok {
				return fmt.Errorf("searching %q finds %+v", m, o)
			}
			if o, ok := s.db.SearchAndDelete(m); ok {
				return fmt.Errorf("redeeming %q finds %+v", m, o)
			}
		}
	}
	return nil
}

// ---- concurrent use

type shared struct {
	db  *core.NonceDb
	now int64
}

func op(name string) lin.Op {
	return lin.Op{Name: name, Run: func(x interface{}) string {
		s := x.(*shared)
		f := strings.Fields(name)
		show := func(o *core.NonceObj, ok bool) string {
			if !ok {
				return "no"
			}
			return fmt.Sprint(o.Nonce, " ", payload(o))
		}
		switch f[0] {
		case "redeem":
			return show(s.db.SearchAndDelete(f[1]))
		case "search":
			o, ok := s.db.Search(f[1])
			if !ok {
				return "no"
			}
			return o.Nonce
		case "add":
			var d int64
			fmt.Sscan(f[2], &d) //nolint
			o := s.db.Add(f[1], d, strings.Join(f[3:], " "))
			return fmt.Sprint(o != nil)
		case "addnil":
			o := s.db.Add(f[1], 1, nil)
			return fmt.Sprint(o != nil)
		case "aux":
			return fmt.Sprint(s.db.AddAux(f[1], f[2]))
		case "purge":
			s.db.DeleteOld()
			return ""
		case "tick":
			s.now++
			vtime.Set(s.now * 1e9)
			return ""
		}
		panic(name)
	}}
}

func final(x interface{}) string {
	s := x.(*shared)
	var l []string
	for k := 0; k < 2; k++ { // now, and with everything expired purged
		for _, n := range []string{"a", "b", "c", "x"} {
			o, ok := s.db.Search(n)
			if ok {
				l = append(l, fmt.Sprint(n, " ", payload(o), " ", o.Expiration-epoch))
			}
		}
		s.db.DeleteOld()
	}
	// what is stored can be redeemed once
	for _, n := range []string{"a", "b", "c", "x"} {
		_, ok := s.db.SearchAndDelete(n)
		_, again := s.db.SearchAndDelete(n)
		l = append(l, fmt.Sprint(ok, again))
	}
	return strings.Join(l, ",")
}

func harnesses(c *mcx.Ctx) []sched.Harness {
	progs := []string{
		"redeem a | redeem a | redeem a",
		"redeem a; add a 1 x | redeem a",
		"redeem a | purge | add a 1 x",
		"add c 0 x | add c 1 y | redeem c",
		"addnil c; aux c p | aux c q; redeem c",
		"addnil c | aux c p | redeem c",
		"purge | purge | redeem a",
		"redeem b; add b 2 x | redeem b; purge",
		"search x | purge; add x 1 n",
		"redeem x | purge; add x 1 n; search x",
		"search x | purge | add x 1 n",
		"aux x q | purge; add x 1 n",
	}
	sys := lin.Sys{
		New: func() (interface{}, func(), error) {
			vtime.Set(epoch * 1e9)
			s := &shared{db: core.NewNonceDb(), now: epoch}
			s.db.Add("b", -1, "old") // expired
			s.db.DeleteOld()
			s.db.Add("a", 1, "pa")
			s.db.Add("b", 0, "pb")
			s.db.Add("x", -1, "px") // expired, not purged
			// the next search but two purges
			for i := 0; i < 126; i++ {
				s.db.Search("nope")
			}
			return s, nil, nil
		},
		Final: final,
	}
	var hs []sched.Harness
	for _, p := range progs {
		var th [][]lin.Op
		for _, t := range strings.Split(p, " | ") {
			var l []lin.Op
			for _, o := range strings.Split(t, "; ") {
				l = append(l, op(o))
			}
			th = append(th, l)
		}
		b := c.Pick(3, 6)
		if len(th) > 2 {
			b = c.Pick(2, 4)
		}
		hs = append(hs, lin.Harness("concurrent", sys, th, b))
	}
	for _, p := range []string{
		"redeem a; add a 1 x | tick; purge | redeem a",
		"redeem b | tick | redeem b",
		"search b; redeem b | tick; purge",
		"add c 0 x; redeem c | purge; tick | purge",
		"purge | add b 2 x; search b | tick",
		"tick; add b 1 x | redeem b; search b | purge",
		"tick; add c 1 x | redeem b; add b 1 y | purge; redeem b",
		"tick; tick | redeem a; add a 2 y | purge",
		"search b | tick; purge; add b 2 x",
		"redeem b | tick; purge; add b 2 x",
		"search b; search b | tick; purge | add b 2 x",
	} {
		ths := strings.Split(p, " | ")
		b := c.Pick(3, 6)
		if len(ths) > 2 {
			b = c.Pick(2, 4)
		}
		hs = append(hs, timed(p, ths, b))
	}
	return hs
}

// done is a call that has been made while time passes.
type done struct {
	op       []string
	from, to int64 // the clock before and after
	ok       bool
	got      string
}

// timed runs threads while time passes.  A call may see the clock at any
// moment of its duration, so the results need not be those of an order of
// instantaneous calls; but no payload may be redeemed twice or after its
// expiry, and none may be lost before it.
func timed(name string, threads []string, bound int) sched.Harness {
	return sched.Harness{Name: "passing time: " + name, Bound: bound, New: func() ([]func(), func() (string, error), error) {
		vtime.Set(epoch * 1e9)
		db, now := core.NewNonceDb(), int64(epoch)
		db.Add("a", 1, "pa")
		db.Add("b", 0, "pb")
		for i := 0; i < 126; i++ {
			db.Search("nope")
		}
		log := []done{
			{[]string{"add", "a", "1", "pa"}, epoch, epoch, true, ""},
			{[]string{"add", "b", "0", "pb"}, epoch, epoch, true, ""},
		}
		var bodies []func()
		for _, t := range threads {
			t := t
			bodies = append(bodies, func() {
				for _, o := range strings.Split(t, "; ") {
					sched.P()
					d := done{op: strings.Fields(o), from: now}
					switch d.op[0] {
					case "tick":
						now++
						vtime.Set(now * 1e9)
					case "purge":
						db.DeleteOld()
					case "add":
						var l int64
						fmt.Sscan(d.op[2], &l) //nolint
						d.ok = db.Add(d.op[1], l, d.op[3]) != nil
					case "redeem", "search":
						f := db.SearchAndDelete
						if d.op[0] == "search" {
							f = db.Search
						}
						var x *core.NonceObj
						if x, d.ok = f(d.op[1]); d.ok {
							d.got = payload(x)
						}
					}
					d.to = now
					log = append(log, d)
				}
			})
		}
		return bodies, func() (string, error) {
			redeemed := map[string]int{}
			out := ""
			type life struct {
				nonce  string
				lo, hi int64
			}
			lives := map[string]life{}
			for _, d := range log {
				if d.op[0] == "add" && d.ok {
					var l int64
					fmt.Sscan(d.op[2], &l) //nolint
					lives[d.op[3]] = life{d.op[1], d.from + l, d.to + l}
				}
			}
			for _, d := range log {
				out += fmt.Sprint(d.op, d.ok, d.got, " ")
				if d.op[0] != "redeem" && d.op[0] != "search" || !d.ok {
					continue
				}
				l, known := lives[d.got]
				if !known || l.nonce != d.op[1] {
					return out, fmt.Errorf("%v gives payload %q", d.op, d.got)
				}
				if d.from > l.hi {
					return out, fmt.Errorf("%v succeeds after the expiry", d.op)
				}
				if d.op[0] == "redeem" {
					redeemed[d.got]++
					if redeemed[d.got] > 1 {
						return out, fmt.Errorf("%q redeemed twice", d.got)
					}
				}
			}
			for k := 0; k < 2; k++ {
				for p, l := range lives {
					if redeemed[p] > 0 || l.lo < now {
						continue
					}
					o, ok := db.Search(l.nonce)
					if !ok || payload(o) != p {
						return out, fmt.Errorf("nonce %s with %q, neither redeemed nor expired, is lost (purged: %v)", l.nonce, p, k > 0)
					}
				}
				for p, l := range lives {
					if o, ok := db.Search(l.nonce); ok && payload(o) == p && (redeemed[p] > 0 || l.hi < now) {
						return out, fmt.Errorf("%q is still there", p)
					}
				}
				db.DeleteOld()
			}
			return out, nil
		}, nil
	}}
}

func main() {
	mcx.Main("C27", "model_checking", func(c *mcx.Ctx) {
		c.Rule("all operation sequences up to the depth over three named nonces and a generated one with lifetimes from -1 to 2 seconds under a controlled clock: add, redeem, add a payload, purge, the 128 searches that purge by themselves, and the passing of time; after each, every nonce and its neighbours are searched; and all interleavings up to the preemption bound of two or three threads redeeming, adding, adding payloads, purging and time passing, compared with the sequential orders")
		c.Assume("the clock does not go backwards; whether a nonce that has expired but was not purged may be added again is left open")
		sched.Explore(c, harnesses(c), time.Duration(c.Pick(60, 400))*time.Second)
		if c.Worker() {
			return
		}
		c.BFS(mcx.BFS{Name: "sequences", New: newSys, Depth: c.Pick(4, 6), MaxStates: c.Pick(200000, 3000000)})
	})
}
