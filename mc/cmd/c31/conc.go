package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strings"

	"github.com/iden3/go-iden3-core/components/httpclient"
	"github.com/iden3/go-iden3-core/components/idenpuboffchain/readerhttp"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/merkletree"
	"verif/mc/lin"
	"verif/mc/mcx"
	"verif/mc/pub"
	"verif/mc/sched"
)

// users of one client, or of one reader, at once: each gets the answer to its
// own request
type users struct {
	url  string
	cl   *httpclient.HttpClient
	rd   *readerhttp.IdenPubOffChainReadHttp
	docs map[string][]byte // path to document
}

func (u *users) answer(q request) reply {
	uri := q.uri
	switch {
	case strings.HasPrefix(uri, "/good"):
		return reply{status: 200, body: []byte(fmt.Sprintf(`{"a":%q,"n":%d}`, q.method+uri+q.body+q.header, len(uri)))}
	case strings.HasPrefix(uri, "/part"):
		return reply{status: 200, body: []byte(`{"a":"part"}`)}
	case strings.HasPrefix(uri, "/cut"):
		return reply{status: 200, body: []byte(okText), framing: 3}
	case strings.HasPrefix(uri, "/none"):
		return reply{status: 204}
	case strings.HasPrefix(uri, "/mute"):
		return reply{status: 500, body: []byte(`{}`)}
	case strings.HasPrefix(uri, "/bad"):
		return reply{status: 400, body: []byte(fmt.Sprintf(`{"error":%q}`, "no "+uri))}
	}
	if d, ok := u.docs[uri]; ok {
		return reply{status: 200, body: d}
	}
	return reply{status: 404, body: []byte(fmt.Sprintf(`{"error":%q}`, "unknown "+uri))}
}

func concurrent(c *mcx.Ctx) []sched.Harness {
	docs := map[string][]byte{}
	var ids []*core.ID
	var states [][]string
	for i := 1; i <= 2; i++ {
		x, err := pub.New(uint64(i))
		if err != nil {
			panic(err)
		}
		id := core.NewID(core.TypeBJP0, [27]byte{byte(i)})
		ids = append(ids, &id)
		var l []string
		for k := 0; k < 2; k++ {
			if k > 0 {
				if err := x.Grow(); err != nil {
					panic(err)
				}
			}
			b, err := x.Blobs(k)
			if err != nil {
				panic(err)
			}
			t, err := json.Marshal(b)
			if err != nil {
				panic(err)
			}
			docs[fmt.Sprintf("/%s/state/%s", id.String(), b.IdenState.Hex())] = t
			docs[fmt.Sprintf("/%s/laststate", id.String())] = t
			l = append(l, string(b.IdenState[:]))
		}
		states = append(states, l)
	}
	sys := lin.Sys{
		New: func() (interface{}, func(), error) {
			u := &users{docs: docs, rd: readerhttp.NewIdenPubOffChainHttp()}
			prefix, done := srv.on(u.answer)
			u.url = srv.url + prefix
			u.cl = httpclient.NewHttpClient(u.url)
			return u, done, nil
		},
		// what the client does next is that of a client which did nothing
		Final: func(s interface{}) string {
			u := s.(*users)
			var r loose
			err := u.cl.DoRequest(u.cl.NewRequest().Path("good/last").Get(""), &r)
			return fmt.Sprintf("%v %s", r, lin.Err(err))
		},
	}
	ask := func(verb, path string, t byte) lin.Op {
		return lin.Op{Name: fmt.Sprintf("%s %s %c", verb, path, t), Run: func(s interface{}) string {
			u := s.(*users)
			p := target(t)
			err := u.cl.DoRequest(build(u.cl.NewRequest(), verb, path), p)
			if err != nil {
				return "error " + strings.Replace(err.Error(), u.url, "", -1)
			}
			b, err := json.Marshal(p)
			return string(b) + lin.Err(err)
		}}
	}
	read := func(i, k int) lin.Op {
		return lin.Op{Name: fmt.Sprintf("read %d %d", i, k), Run: func(s interface{}) string {
			u := s.(*users)
			h := hashOf(states, i, k)
			d, err := u.rd.GetPublicData(u.url, ids[i], h)
			if err != nil {
				return "error " + strings.Replace(err.Error(), u.url, "", -1)
			}
			var w bytes.Buffer
			if err := d.RevocationsTree.DumpTree(&w, nil); err != nil {
				return "dump: " + err.Error()
			}
			if err := d.RootsTree.DumpTree(&w, nil); err != nil {
				return "dump: " + err.Error()
			}
			return fmt.Sprintf("%x %x %x %x %s", d.IdenState[:4], d.ClaimsTreeRoot[:4], d.RevocationsTreeRoot[:4], d.RootsTreeRoot[:4], lin.Dig(w.String()))
		}}
	}
	ops := []lin.Op{ask("GET", "good/1", 's'), ask("POST", "good/22", 'l'), ask("GET", "part", 's'), ask("GET", "bad/3", 'm'),
		ask("PUT", "bad/44", 'n'), ask("GET", "mute", 's'), ask("GET", "none", 'l'), ask("GET", "cut", 's')}
	var hs []sched.Harness
	add := func(name string, bound int, th ...[]lin.Op) {
		h := lin.Harness(name, sys, th, bound)
		h.Small = true
		hs = append(hs, h)
	}
	for i := range ops {
		for k := i; k < len(ops); k++ {
			add("one client", c.Pick(2, 3), ops[i:i+1], ops[k:k+1])
		}
	}
	for i := 0; i < 4; i++ {
		add("one client", c.Pick(1, 2), ops[i:i+2], ops[i+2:i+4])
		add("one client", c.Pick(1, 2), ops[i:i+1], ops[i+1:i+2], ops[i+2:i+3])
	}
	reads := []lin.Op{read(0, 0), read(0, 1), read(1, -1), read(0, -1), read(1, 2)}
	for i := range reads {
		for k := i; k < len(reads); k++ {
			add("one reader", c.Pick(2, 3), reads[i:i+1], reads[k:k+1])
		}
	}
	return hs
}

// hashOf is the k-th state of an identity, none for -1, and one that is not
// known for 2.
func hashOf(states [][]string, i, k int) *merkletree.Hash {
	if k < 0 {
		return nil
	}
	var h merkletree.Hash
	if k < len(states[i]) {
		copy(h[:], states[i][k])
	} else {
		h[0] = 7
	}
	return &h
}
