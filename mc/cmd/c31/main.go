// C31: HTTP clients never mistake a failure for an answer.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"net"
	"net/http"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/dghubble/sling"
	"github.com/iden3/go-iden3-core/components/httpclient"
	"github.com/iden3/go-iden3-core/components/idenpuboffchain"
	"github.com/iden3/go-iden3-core/components/idenpuboffchain/readerhttp"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/merkletree"
	"verif/mc/mcx"
	"verif/mc/pub"
	"verif/mc/sched"
	"verif/mc/vposeidon"
)

// ---- the server

// reply is a response, framed in some way.
type reply struct {
	status  int
	header  string // further header lines
	body    []byte
	framing int
}

var framings = []string{"length", "chunked", "until closed", "length too big", "last chunk missing", "chunk cut", "cut in the headers", "closed at once", "reset", "not HTTP"}

// whole tells whether the whole response arrives.
func (r reply) whole() bool { return r.framing <= 2 }

func (r reply) bodyless() bool { return r.status == 204 || r.status == 304 }

type request struct {
	method, uri, body string
	header            string
}

type server struct {
	url string
	mu  sync.Mutex
	h   map[string]func(q request) reply
	n   int64
}

func serve() *server {
	s := &server{h: map[string]func(request) reply{}}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	s.url = "http://" + l.Addr().String()
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go s.conn(c.(*net.TCPConn))
		}
	}()
	return s
}

// on has requests below a new address answered by h; the address is without a
// slash at the end.
func (s *server) on(h func(q request) reply) (prefix string, done func()) {
	id := fmt.Sprintf("/c%d", atomic.AddInt64(&s.n, 1))
	s.mu.Lock()
	s.h[id] = h
	s.mu.Unlock()
	return id, func() {
		s.mu.Lock()
		delete(s.h, id)
		s.mu.Unlock()
	}
}

func (s *server) conn(c *net.TCPConn) {
	defer c.Close() //nolint
	rd := bufio.NewReader(c)
	req, err := http.ReadRequest(rd)
	if err != nil {
		return
	}
	b, err := ioutil.ReadAll(req.Body)
	if err != nil {
		return
	}
	id := req.RequestURI
	if i := strings.IndexAny(id[1:], "/?"); i >= 0 {
		id = id[:i+1]
	}
	s.mu.Lock()
	h := s.h[id]
	s.mu.Unlock()
	if h == nil {
		c.Write([]byte("HTTP/1.1 404 Not Found\r\nContent-Length: 0\r\nConnection: close\r\n\r\n")) //nolint
		return
	}
	r := h(request{req.Method, strings.TrimPrefix(req.RequestURI, id), string(b), headerOf(req, string(b))})
	head := fmt.Sprintf("HTTP/1.1 %03d Status\r\nConnection: close\r\nContent-Type: application/json\r\n%s", r.status, r.header)
	chunk := func(b []byte) string {
		if len(b) == 0 {
			return ""
		}
		return fmt.Sprintf("%x\r\n%s\r\n", len(b), b)
	}
	half := len(r.body) / 2
	switch framings[r.framing] {
	case "length":
		head += fmt.Sprintf("Content-Length: %d\r\n\r\n%s", len(r.body), r.body)
	case "chunked":
		head += "Transfer-Encoding: chunked\r\n\r\n" + chunk(r.body[:half]) + chunk(r.body[half:]) + "0\r\n\r\n"
	case "until closed":
		head += "\r\n" + string(r.body)
	case "length too big":
		head += fmt.Sprintf("Content-Length: %d\r\n\r\n%s", len(r.body)+9, r.body)
	case "last chunk missing":
		head += "Transfer-Encoding: chunked\r\n\r\n" + chunk(r.body)
	case "chunk cut":
		head += "Transfer-Encoding: chunked\r\n\r\n" + fmt.Sprintf("%x\r\n%s", len(r.body)+1, r.body)
	case "cut in the headers":
		head += "Content-Len"
	case "closed at once":
		head = ""
	case "reset":
		c.SetLinger(0) //nolint
		head = ""
	case "not HTTP":
		head = string(r.body) + "\r\n\r\n"
	}
	c.Write([]byte(head)) //nolint
}

var srv *server

// headerOf is what of the headers doesn't go without saying.
func headerOf(req *http.Request, body string) string {
	s := req.Header.Get("X-A") + " " + req.Header.Get("Authorization")
	if body == "" {
		s += " " + req.Header.Get("Content-Type")
	}
	return strings.TrimSpace(s)
}

// ---- the client

type strict struct {
	A string `json:"a" validate:"required"`
	N int    `json:"n" validate:"gt=0"`
}

type loose struct {
	A string `json:"a"`
	N int    `json:"n"`
}

// body is what a server may answer; fit tells for which targets it is a
// well-formed answer.
type body struct {
	text string
	fit  string // letters of targets
	msg  string // the message of an error
}

// targets: s strict struct, l loose struct, m map, i interface, t text, a array, r raw JSON, n none
var targets = "slmitarn"

func target(t byte) (p interface{}) {
	switch t {
	case 's':
		return &strict{}
	case 'l':
		return &loose{}
	case 'm':
		m := map[string]interface{}{}
		return &m
	case 'i':
		var x interface{}
		return &x
	case 't':
		var x string
		return &x
	case 'a':
		var x []int
		return &x
	case 'r':
		var x json.RawMessage
		return &x
	}
	return nil
}

const okText = `{"a":"x","n":7}`

var bodies = []body{
	{okText, "slmir", ""},
	{" \n" + okText + "\r\n\t ", "slmir", ""},
	{`{"a":"x","n":7,"more":[1,{"b":null}]}`, "slmir", ""},
	{`{"a":"<\u00e9\"\\>","n":2147483647}`, "slmir", ""},
	{`{"a":"x"}`, "lmir", ""},
	{`{"n":7}`, "lmir", ""},
	{`{"a":"","n":7}`, "lmir", ""},
	{`{"a":"x","n":-1}`, "lmir", ""},
	{`{"a":null,"n":7}`, "lmir", ""},
	{`{}`, "lmir", ""},
	{`{"a":5,"n":7}`, "mir", ""},
	{`{"a":"x","n":"7"}`, "mir", ""},
	{`{"a":"x","n":7.5}`, "mir", ""},
	{`{"a":["x"],"n":7}`, "mir", ""},
	{`[]`, "air", ""},
	{`[1,2]`, "air", ""},
	{`[` + okText + `]`, "ir", ""},
	{`"x"`, "tir", ""},
	{`7`, "ir", ""},
	{`true`, "ir", ""},
	{`null`, "", ""},
	{``, "", ""},
	{`  `, "", ""},
	{okText[:7], "", ""},
	{okText[:len(okText)-1], "", ""},
	{okText + okText, "", ""},
	{okText + "x", "", ""},
	{okText + "}", "", ""},
	{okText + "null", "", ""},
	{`{"a":"x","n":7,}`, "", ""},
	{`{'a':'x','n':7}`, "", ""},
	{"\xef\xbb\xbf" + okText, "", ""},
	{"x" + okText, "", ""},
	{`<html>oops</html>`, "", ""},
	{`{"error":"no such thing"}`, "lmir", "no such thing"},
	{`{"error":"no such thing","a":"x","n":7}`, "slmir", "no such thing"},
	{`{"error":""}`, "lmir", ""},
	{`{"error":5}`, "lmir", ""},
	{`{"error":null}`, "lmir", ""},
	{`{"error":{"message":"deep"}}`, "lmir", ""},
}

var statuses = []int{200, 201, 202, 203, 204, 205, 206, 226, 299, 300, 301, 302, 303, 304, 305, 307, 308, 400, 401, 403, 404, 405, 409, 410, 418, 429, 451, 499, 500, 501, 502, 503, 504, 599, 600, 700, 999}

// same tells whether p holds what the text says.
func same(p interface{}, text string) bool {
	want := reflect.New(reflect.TypeOf(p).Elem())
	if err := json.Unmarshal([]byte(text), want.Interface()); err != nil {
		return false
	}
	if r, ok := p.(*json.RawMessage); ok {
		return bytes.Equal(bytes.TrimSpace(*r), bytes.TrimSpace(*want.Interface().(*json.RawMessage)))
	}
	return reflect.DeepEqual(p, want.Interface())
}

var verbs = []string{"GET", "POST", "PUT", "DELETE"}

func build(s *sling.Sling, verb, path string) *sling.Sling {
	s = s.Path(path)
	switch verb {
	case "GET":
		return s.Get("")
	case "POST":
		return s.Post("").BodyJSON(loose{"sent", 3})
	case "PUT":
		return s.Put("").BodyJSON(loose{"sent", 3})
	}
	return s.Delete("")
}

func client(c *mcx.Ctx) {
	type cs struct {
		status, body, framing int
		target                byte
		verb                  string
	}
	var l []cs
	for s, st := range statuses {
		for b := range bodies {
			for f := range framings {
				for t := range targets {
					if !c.Thorough() && b != 0 && f != 0 && s%4 != 0 && st != 404 {
						continue
					}
					if f > 5 && (b > 0 || s > 0) {
						continue // nothing of the response arrives
					}
					v := verbs[(s+b+f)%2*(b%2)]
					if c.Thorough() {
						v = verbs[(s+b+f+t)%4]
					}
					l = append(l, cs{st, b, f, targets[t], v})
				}
			}
		}
	}
	c.Each("answers", len(l), func(i int) string {
		x := l[i]
		return fmt.Sprintf("%d %s %q into %c of %s", x.status, framings[x.framing], bodies[x.body].text, x.target, x.verb)
	}, func(i int) error {
		x, b := l[i], bodies[l[i].body]
		r := reply{status: x.status, body: []byte(b.text), framing: x.framing}
		if r.bodyless() {
			r.body = nil
			if x.framing > 2 && x.framing < 6 {
				return nil
			}
		}
		var reqs []request
		prefix, done := srv.on(func(q request) reply { reqs = append(reqs, q); return r })
		defer done()
		cl := httpclient.NewHttpClient(srv.url + prefix)
		p := target(x.target)
		before := cl.UrlBase
		err := cl.DoRequest(build(cl.NewRequest(), x.verb, "some/path"), p)
		success := 200 <= x.status && x.status < 300
		need := success && r.whole() && (x.target == 'n' || strings.IndexByte(b.fit, x.target) >= 0 && !r.bodyless())
		may := need || success && x.target == 'n' && x.framing < 6 // nothing is read of it
		if r.bodyless() && r.whole() == false {
			may = false
		}
		if err == nil && !may {
			return fmt.Errorf("taken for an answer: %+v", p)
		}
		if err != nil && need {
			return fmt.Errorf("a good answer is refused: %v", err)
		}
		if err == nil && p != nil && !same(p, b.text) {
			return fmt.Errorf("the answer is read as %+v", reflect.ValueOf(p).Elem())
		}
		if err != nil && !success && r.whole() && b.msg != "" && !r.bodyless() && !strings.Contains(err.Error(), b.msg) {
			return fmt.Errorf("the message of the server is lost: %v", err)
		}
		if err != nil && err.Error() == "" {
			return fmt.Errorf("an error without text")
		}
		for _, q := range reqs {
			want := request{method: x.verb, uri: "/some/path"}
			if x.verb == "POST" || x.verb == "PUT" {
				want.body = `{"a":"sent","n":3}`
			}
			q.body = strings.TrimSpace(q.body)
			if q != want {
				return fmt.Errorf("the request was %+v", q)
			}
		}
		if len(reqs) == 0 || cl.UrlBase != before {
			return fmt.Errorf("%d requests, address %s", len(reqs), cl.UrlBase)
		}
		// the client is as good as before
		r = reply{status: 200, body: []byte(okText)}
		var again strict
		if err := cl.DoRequest(build(cl.NewRequest(), "GET", "p2"), &again); err != nil || again != (strict{"x", 7}) {
			return fmt.Errorf("the next request: %+v %v", again, err)
		}
		return nil
	})
	// redirections
	type red struct {
		status int
		to     string
		final  int
	}
	var rs []red
	for _, s := range []int{301, 302, 303, 307, 308} {
		for _, to := range []string{"good", "error", "broken", "loop", "nowhere", "::", "ftp://127.0.0.1/x"} {
			rs = append(rs, red{s, to, 0})
		}
	}
	c.Each("redirections", len(rs), func(i int) string { return fmt.Sprintf("%d to %s", rs[i].status, rs[i].to) }, func(i int) error {
		x := rs[i]
		var prefix string
		prefix, done := srv.on(func(q request) reply {
			switch q.uri {
			case "/good":
				return reply{status: 200, body: []byte(okText)}
			case "/error":
				return reply{status: 500, body: []byte(`{"error":"inside"}`)}
			case "/broken":
				return reply{status: 200, body: []byte(okText[:5])}
			}
			to := prefix + "/" + x.to
			switch {
			case x.to == "nowhere":
				to = "http://127.0.0.1:1/"
			case strings.Contains(x.to, ":"):
				to = x.to
			}
			return reply{status: x.status, header: "Location: " + to + "\r\n", body: []byte(okText)}
		})
		defer done()
		cl := httpclient.NewHttpClient(srv.url + prefix + "/")
		var res strict
		err := cl.DoRequest(cl.NewRequest().Path("start").Get(""), &res)
		if (err == nil) != (x.to == "good") || err == nil && res != (strict{"x", 7}) {
			return fmt.Errorf("%+v %v", res, err)
		}
		if x.to == "error" && !strings.Contains(err.Error(), "inside") {
			return fmt.Errorf("the message of the server is lost: %v", err)
		}
		return nil
	})
}

// ---- addresses

// a way to build a request, and what the server is to see of it.
type way struct {
	name  string
	build func(s *sling.Sling) *sling.Sling
	want  request
}

type query struct {
	K string `url:"k"`
}

func ways() []way {
	var l []way
	for _, p := range []string{"x", "a/state/1", "b/state/2"} {
		for _, v := range verbs {
			p, v := p, v
			w := request{method: v, uri: "/" + p}
			if v == "POST" || v == "PUT" {
				w.body = `{"a":"sent","n":3}`
			}
			l = append(l, way{v + " " + p, func(s *sling.Sling) *sling.Sling { return build(s, v, p) }, w})
		}
	}
	return append(l,
		way{"query", func(s *sling.Sling) *sling.Sling { return s.Path("q").QueryStruct(query{"v"}).Get("") }, request{method: "GET", uri: "/q?k=v"}},
		way{"header", func(s *sling.Sling) *sling.Sling { return s.Path("h").Set("X-A", "1").Get("") }, request{method: "GET", uri: "/h", header: "1"}},
		way{"password", func(s *sling.Sling) *sling.Sling { return s.Path("h").SetBasicAuth("u", "p").Get("") }, request{method: "GET", uri: "/h", header: "Basic dTpw"}},
		way{"form", func(s *sling.Sling) *sling.Sling { return s.Post("f").BodyForm(query{"v"}) }, request{method: "POST", uri: "/f", body: "k=v"}},
		way{"nothing", func(s *sling.Sling) *sling.Sling { return s }, request{method: "GET", uri: "/"}},
	)
}

// sequences: the requests of one client are independent, in whatever order
// they are built and done, and whatever the answers to the others.
func sequences(c *mcx.Ctx) {
	ws := ways()
	replies := []reply{{status: 200, body: []byte(okText)}, {status: 404, body: []byte(`{"error":"first"}`)}, {status: 500, body: []byte(`{"error":"other"}`)},
		{status: 200, body: []byte(`{"a":"x"`)}, {status: 200, body: []byte(okText), framing: 3}}
	perms := [][]int{{0, 1}, {1, 0}}
	nw := len(ws)
	if c.Thorough() {
		nw *= len(ws)
		perms = [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}
	}
	nr := len(replies)
	n := len(ws) * nw * nr
	dec := func(i int) (l []int, r int) {
		r, i = i%nr, i/nr
		for k := 0; k < len(perms[0]); k++ {
			l, i = append(l, i%len(ws)), i/len(ws)
		}
		return l, r
	}
	c.Each("sequences", n, func(i int) string {
		l, r := dec(i)
		s := ""
		for _, k := range l {
			s += ws[k].name + ", "
		}
		return fmt.Sprintf("%sreply %d", s, r)
	}, func(i int) error {
		l, r := dec(i)
		for m := 0; m <= len(perms); m++ { // m=0: one after another
			var last *request
			var rep reply
			prefix, done := srv.on(func(q request) reply { last = &q; return rep })
			cl := httpclient.NewHttpClient(srv.url + prefix)
			one := func(k, at int, s *sling.Sling) error {
				last, rep = nil, replies[(r+at)%nr]
				var p strict
				err := cl.DoRequest(s, &p)
				c.AddTraces(1)
				if last == nil {
					return fmt.Errorf("no request: %v", err)
				}
				q := *last
				q.body = strings.TrimSpace(q.body)
				if q != ws[k].want {
					return fmt.Errorf("request %d was %+v instead of %+v", at, q, ws[k].want)
				}
				if (err == nil) != ((r+at)%nr == 0) || err == nil && p != (strict{"x", 7}) {
					return fmt.Errorf("request %d: %+v %v", at, p, err)
				}
				if e := string(rep.body); rep.status >= 400 && !strings.Contains(err.Error(), e[10:15]) {
					return fmt.Errorf("request %d: error %v", at, err)
				}
				return nil
			}
			err := func() error {
				if m == 0 {
					for at, k := range l {
						if err := one(k, at, ws[k].build(cl.NewRequest())); err != nil {
							return err
						}
					}
					return nil
				}
				var ss []*sling.Sling
				for _, k := range l {
					ss = append(ss, ws[k].build(cl.NewRequest()))
				}
				for _, at := range perms[m-1] {
					if err := one(l[at], at, ss[at]); err != nil {
						return err
					}
				}
				return nil
			}()
			done()
			if err != nil {
				return err
			}
		}
		return nil
	})
}

func addresses(c *mcx.Ctx) {
	bases := []string{"", "/", "//", "a", "/a", ":", "::", "http:", "http:/", "http://", "http:///", "http://:0", "http://127.0.0.1:1", "http://127.0.0.1:1/", "http://127.0.0.1:99999", "http://[::1", "http://a b/", "http://\x7f/",
		"ftp://127.0.0.1/", "file:///etc/hosts", "mailto:a@b", "127.0.0.1:1", "localhost", " http://127.0.0.1:1", "%", "http://%zz/", "?", "#"}
	id := core.NewID(core.TypeBJP0, [27]byte{1, 2, 3})
	c.Each("unreachable addresses", len(bases)*3, func(i int) string { return fmt.Sprintf("%q %d", bases[i/3], i%3) }, func(i int) error {
		b := bases[i/3]
		switch i % 3 {
		case 0:
			cl := httpclient.NewHttpClient(b)
			var res loose
			for _, p := range []interface{}{&res, nil} {
				if err := cl.DoRequest(cl.NewRequest().Path("x").Get(""), p); err == nil {
					return fmt.Errorf("an answer from nowhere: %+v", res)
				}
			}
		case 1, 2:
			var st *merkletree.Hash
			if i%3 == 2 {
				st = &merkletree.Hash{1}
			}
			if d, err := readerhttp.NewIdenPubOffChainHttp().GetPublicData(b, &id, st); err == nil || d != nil {
				return fmt.Errorf("data from nowhere: %v %v", d, err)
			}
		}
		return nil
	})
	// exactly the identity and state asked for
	var ids []core.ID
	for _, t := range [][2]byte{core.TypeBJP0, {0, 1}, {255, 255}} {
		for _, g := range [][27]byte{{}, {1}, {26: 255}, {0: 255, 13: 7}} {
			ids = append(ids, core.NewID(t, g))
		}
	}
	var sts []*merkletree.Hash
	sts = append(sts, nil)
	for _, h := range []merkletree.Hash{{}, {1}, {31: 1}, {0: 255, 31: 16}, {15: 0xab}} {
		h := h
		sts = append(sts, &h)
	}
	tails := []string{"", "/", "/a", "/a/", "/a/b.c", "/a/b.c/", "/a%20b", "/~x/"}
	n := len(ids) * len(sts) * len(tails)
	c.Each("addresses", n, func(i int) string {
		return fmt.Sprintf("%v %v %s", ids[i%len(ids)], sts[i/len(ids)%len(sts)], tails[i/len(ids)/len(sts)])
	}, func(i int) error {
		id, st, tail := ids[i%len(ids)], sts[i/len(ids)%len(sts)], tails[i/len(ids)/len(sts)]
		var got []request
		prefix, done := srv.on(func(q request) reply {
			got = append(got, q)
			return reply{status: 404, body: []byte(`{"error":"gone away"}`)}
		})
		defer done()
		id0 := id
		d, err := readerhttp.NewIdenPubOffChainHttp().GetPublicData(srv.url+prefix+tail, &id, st)
		if d != nil || err == nil || !strings.Contains(err.Error(), "gone away") {
			return fmt.Errorf("%v %v", d, err)
		}
		want := strings.TrimSuffix(tail, "/") + "/" + id0.String()
		if st == nil {
			want += "/laststate"
		} else {
			want += "/state/" + st.Hex()
		}
		if len(got) != 1 || got[0] != (request{method: "GET", uri: want}) || id != id0 {
			return fmt.Errorf("the requests were %+v, not %s", got, want)
		}
		return nil
	})
}

// ---- public data

type doc map[string]json.RawMessage

func reader(c *mcx.Ctx) {
	type state struct {
		iss  int
		b    *idenpuboffchain.PublicDataBlobs
		text []byte
	}
	var sts []state
	var ids []*core.ID
	for i := 1; i <= 2; i++ {
		x, err := pub.New(uint64(i))
		if err != nil {
			panic(err)
		}
		id := core.NewID(core.TypeBJP0, [27]byte{byte(i)})
		ids = append(ids, &id)
		for k := 0; k < 3; k++ {
			if k > 0 {
				if err := x.Grow(); err != nil {
					panic(err)
				}
			}
			b, err := x.Blobs(k)
			if err != nil {
				panic(err)
			}
			t, err := json.Marshal(b)
			if err != nil {
				panic(err)
			}
			sts = append(sts, state{i - 1, b, t})
		}
	}
	check := func(d *idenpuboffchain.PublicData, b *idenpuboffchain.PublicDataBlobs) error {
		if *d.IdenState != b.IdenState || *d.ClaimsTreeRoot != b.ClaimsTreeRoot || *d.RevocationsTreeRoot != b.RevocationsTreeRoot || *d.RootsTreeRoot != b.RootsTreeRoot ||
			*d.RevocationsTree.RootKey() != b.RevocationsTreeRoot || *d.RootsTree.RootKey() != b.RootsTreeRoot {
			return fmt.Errorf("other data than the server sent")
		}
		for i, mt := range []*merkletree.MerkleTree{d.RevocationsTree, d.RootsTree} {
			var w bytes.Buffer
			if err := mt.DumpTree(&w, nil); err != nil {
				return err
			}
			if !bytes.Equal(w.Bytes(), [][]byte{b.RevocationsTree, b.RootsTree}[i]) {
				return fmt.Errorf("other trees than the server sent")
			}
		}
		return nil
	}
	get := func(want *state, r reply) (*idenpuboffchain.PublicData, error) {
		prefix, done := srv.on(func(request) reply { return r })
		defer done()
		var st *merkletree.Hash
		if want != nil {
			h := want.b.IdenState
			st = &h
		}
		d, err := readerhttp.NewIdenPubOffChainHttp().GetPublicData(srv.url+prefix, ids[0], st)
		if err == nil && d == nil {
			panic("no data and no error")
		}
		if err != nil && d != nil {
			panic("data along with an error")
		}
		return d, err
	}
	// the answer is that of each state, for each wish, in each framing and status
	type cs struct{ want, ans, status, framing int }
	var l []cs
	for w := -1; w < len(sts); w++ {
		for a := range sts {
			for s := range statuses {
				for f := range framings {
					if f > 5 && s > 0 {
						continue
					}
					l = append(l, cs{w, a, s, f})
				}
			}
		}
	}
	c.Each("public data", len(l), func(i int) string {
		return fmt.Sprintf("asked for %d, got %d with %d %s", l[i].want, l[i].ans, statuses[l[i].status], framings[l[i].framing])
	}, func(i int) error {
		x := l[i]
		r := reply{status: statuses[x.status], body: sts[x.ans].text, framing: x.framing}
		if r.bodyless() {
			r.body = nil
			if !r.whole() {
				return nil
			}
		}
		var want *state
		if x.want >= 0 {
			want = &sts[x.want]
		}
		d, err := get(want, r)
		ok := r.status >= 200 && r.status < 300 && r.whole() && !r.bodyless()
		if err == nil && !ok {
			return fmt.Errorf("taken for an answer")
		}
		if err == nil && want != nil && x.want != x.ans {
			return fmt.Errorf("the data of another state is returned")
		}
		if err != nil && ok && (want == nil || x.want == x.ans) {
			return fmt.Errorf("good data is refused: %v", err)
		}
		if err == nil {
			return check(d, sts[x.ans].b)
		}
		return nil
	})
	// documents with changed members, and others
	type ch struct {
		st   int
		name string
		text []byte
	}
	var chs []ch
	for k, s := range sts[:3] {
		var d doc
		if err := json.Unmarshal(s.text, &d); err != nil {
			panic(err)
		}
		for m := range d {
			vals := []string{"", "null", `""`, "0", "[]", "{}", `"00"`, `"zz"`, "true", `"` + strings.Repeat("0", 64) + `"`, `"0x` + strings.Repeat("0", 64) + `"`, `"0x` + strings.Repeat("1", 63) + `"`, `[0,0,0]`, string(d[m])[:len(d[m])/2] + `"`}
			for m2 := range d {
				if m2 != m {
					vals = append(vals, string(d[m2]))
				}
			}
			for _, o := range sts {
				var d2 doc
				json.Unmarshal(o.text, &d2) //nolint
				vals = append(vals, string(d2[m]))
			}
			for i, v := range vals {
				e := doc{}
				for a, b := range d {
					e[a] = b
				}
				if v == "" {
					delete(e, m)
				} else {
					e[m] = json.RawMessage(v)
				}
				t, err := json.Marshal(e)
				if err != nil {
					continue
				}
				chs = append(chs, ch{k, fmt.Sprintf("%s replaced (%d)", m, i), t})
			}
		}
		for i, b := range bodies {
			chs = append(chs, ch{k, fmt.Sprintf("body %d", i), []byte(b.text)})
		}
		step := c.Pick(7, 1)
		for n := 0; n < len(s.text); n += step {
			chs = append(chs, ch{k, fmt.Sprintf("cut at %d", n), s.text[:n]})
		}
		chs = append(chs, ch{k, "and garbage", append(append([]byte{}, s.text...), 'x')}, ch{k, "twice", append(append([]byte{}, s.text...), s.text...)})
	}
	c.Each("changed public data", 2*len(chs), func(i int) string { return fmt.Sprintf("state %d, %s, last %v", chs[i/2].st, chs[i/2].name, i%2 == 1) }, func(i int) error {
		x := chs[i/2]
		want := &sts[x.st]
		if i%2 == 1 {
			want = nil
		}
		d, err := get(want, reply{status: 200, body: x.text})
		if err != nil {
			return nil
		}
		if strings.HasPrefix(x.name, "cut") || strings.HasPrefix(x.name, "body") || x.name == "and garbage" || x.name == "twice" {
			return fmt.Errorf("taken for an answer")
		}
		for k := range sts {
			if sts[k].b.IdenState == *d.IdenState {
				if want != nil && k != x.st {
					return fmt.Errorf("the data of another state is returned")
				}
				return check(d, sts[k].b)
			}
		}
		return fmt.Errorf("a state that does not exist")
	})
}

func main() {
	vposeidon.Fast = true
	srv = serve()
	mcx.Quiet()
	mcx.Main("C31", "fault_enumeration", func(c *mcx.Ctx) {
		c.Rule("every status class and boundary status, with every body shape (well formed, of another type, incomplete, with garbage, error documents), in every framing (complete, cut at each stage, reset), into every kind of target; redirections; all pairs (thorough: triples) of requests of one client, in each order of building and doing them; all malformed and unreachable addresses; all identities and states against the request the server sees; and for public data the states of two identities against each other, every member replaced, removed and exchanged, and every cut of the document; and all interleavings, up to the preemption bound between the statements of the client and of the reader, of two or three users of one client or reader")
		c.Assume("the server does not answer slower than the client is ready to wait (the client has no time limit); a 2xx answer whose content is not asked for may be cut")
		sched.Explore(c, concurrent(c), time.Duration(c.Pick(60, 400))*time.Second)
		if c.Worker() {
			return
		}
		client(c)
		sequences(c)
		addresses(c)
		reader(c)
	})
}
