// C28: zero-knowledge artefacts are used only if they match their hash.
package main

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"io/ioutil"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	zk "github.com/iden3/go-iden3-core/utils/zk"
	"github.com/sirupsen/logrus"
	"verif/mc/mcx"
	"verif/mc/sched"
	"verif/mc/vos"
	"verif/mc/vtime"
	"verif/mc/vzk"
	"verif/mc/world"
)

const (
	pk = iota
	vk
	wasm
)

var kinds = []string{"pk", "vk", "wasm"}

func name(kind int, format string) string {
	return []string{"proving_key." + format, "verification_key.json", "circuit.wasm"}[kind]
}

func kindOf(file string) int {
	for i, p := range []string{"proving_key.", "verification_key.json", "circuit.wasm"} {
		if strings.HasPrefix(file, p) {
			return i
		}
	}
	return -1
}

// good and evil are two valid artefacts of each kind; only the hashes of the
// good ones are expected.
var good, evil [3][]byte
var hashes, evilHashes [3]string

func artefacts() {
	vzk.Register(&vzk.Circuit{Name: "good", NPublic: 1})
	vzk.Register(&vzk.Circuit{Name: "evil", NPublic: 1})
	for i, k := range kinds {
		good[i] = vzk.File(k, "good", strings.Repeat("x", 20))
		evil[i] = vzk.File(k, "evil", strings.Repeat("y", 20))
		h := sha256.Sum256(good[i])
		hashes[i] = hex.EncodeToString(h[:])
		h = sha256.Sum256(evil[i])
		evilHashes[i] = hex.EncodeToString(h[:])
	}
}

// ---- the server

// answers: what the server does with a request.
var answers = []string{"good", "evil", "empty", "first half", "all but the last byte", "one byte more", "one bit off", "twice",
	"404 good", "500 good", "500 short", "304", "204", "206 half", "301 to evil", "302 to good", "cut", "cut at once", "cut error", "cut chunks", "reset", "garbage", "other file"}

// complete are the answers that deliver the good artefact.
func complete(a string) bool { return a == "good" || a == "302 to good" }

type server struct {
	url string
	mu  sync.Mutex
	f   map[string]func(file string) string // by id
	n   int64
}

var srv *server

func serve() *server {
	s := &server{f: map[string]func(string) string{}}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	s.url = "http://" + l.Addr().String()
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go s.conn(c.(*net.TCPConn))
		}
	}()
	return s
}

// on has the requests under a new address answered by f.
func (s *server) on(f func(file string) string) (url string, done func()) {
	id := fmt.Sprint(atomic.AddInt64(&s.n, 1))
	s.mu.Lock()
	s.f[id] = f
	s.mu.Unlock()
	return s.url + "/" + id, func() {
		s.mu.Lock()
		delete(s.f, id)
		s.mu.Unlock()
	}
}

func (s *server) conn(c *net.TCPConn) {
	defer c.Close() //nolint
	r := bufio.NewReader(c)
	req, err := http.ReadRequest(r)
	if err != nil {
		return
	}
	p := strings.Split(strings.Trim(req.URL.Path, "/"), "/")
	file := p[len(p)-1]
	k := kindOf(file)
	answer := ""
	switch {
	case len(p) == 3 && k >= 0: // redirected
		answer = p[1]
	case len(p) == 2 && k >= 0:
		s.mu.Lock()
		f := s.f[p[0]]
		s.mu.Unlock()
		if f != nil {
			answer = f(file)
		}
	}
	send := func(status, header string, body []byte, n int) {
		h := fmt.Sprintf("HTTP/1.1 %s\r\nConnection: close\r\n%s", status, header)
		if n >= 0 {
			h += fmt.Sprintf("Content-Length: %d\r\n", n)
		}
		c.Write(append([]byte(h+"\r\n"), body...)) //nolint
	}
	if answer == "" {
		send("404 Not Found", "", nil, 0)
		return
	}
	g := good[k]
	off := append([]byte{}, g...)
	off[len(off)/2] ^= 1
	switch answer {
	case "good":
		send("200 OK", "", g, len(g))
	case "evil":
		send("200 OK", "", evil[k], len(evil[k]))
	case "empty":
		send("200 OK", "", nil, 0)
	case "first half":
		send("200 OK", "", g[:len(g)/2], -1)
	case "all but the last byte":
		send("200 OK", "", g[:len(g)-1], len(g)-1)
	case "one byte more":
		send("200 OK", "", append(append([]byte{}, g...), '\n'), -1)
	case "one bit off":
		send("200 OK", "", off, len(off))
	case "twice":
		send("200 OK", "", append(append([]byte{}, g...), g...), 2*len(g))
	case "404 good":
		send("404 Not Found", "", g, len(g))
	case "500 good":
		send("500 Internal Server Error", "", g, len(g))
	case "500 short":
		send("500 Internal Server Error", "", g[:3], 9)
	case "304":
		send("304 Not Modified", "", nil, -1)
	case "204":
		send("204 No Content", "", nil, -1)
	case "206 half":
		send("206 Partial Content", fmt.Sprintf("Content-Range: bytes 0-%d/%d\r\n", len(g)/2-1, len(g)), g[:len(g)/2], len(g)/2)
	case "301 to evil":
		send("301 Moved Permanently", "Location: /x/evil/"+file+"\r\n", nil, 0)
	case "302 to good":
		send("302 Found", "Location: /x/good/"+file+"\r\n", nil, 0)
	case "cut":
		send("200 OK", "", g[:len(g)/2], len(g))
	case "cut at once":
		send("200 OK", "", nil, len(g))
	case "cut error":
		send("503 Service Unavailable", "", g[:2], len(g))
	case "cut chunks":
		c.Write([]byte(fmt.Sprintf("HTTP/1.1 200 OK\r\nConnection: close\r\nTransfer-Encoding: chunked\r\n\r\n%x\r\n%s\r\n", len(g), g))) //nolint
	case "reset":
		c.SetLinger(0) //nolint
	case "garbage":
		c.Write([]byte("good morning\r\n\r\n")) //nolint
	case "other file":
		o := good[(k+1)%3]
		send("200 OK", "", o, len(o))
	default:
		panic(answer)
	}
}

// ---- what is used

type result struct {
	ok  bool
	err string
}

// use has one artefact loaded, and tells whether what it gets is the good one.
func use(z *zk.ZkFiles, kind int) (bool, error) { return useAs(z, kind, good) }

func useAs(z *zk.ZkFiles, kind int, good [3][]byte) (bool, error) {
	var x, want interface{}
	var err error
	switch kind {
	case pk:
		x, err = z.ProvingKey()
		want, _ = vzk.ParsePk(good[pk])
	case vk:
		x, err = z.VerificationKey()
		want, _ = vzk.ParseVk(good[vk])
	case wasm:
		x, err = z.WitnessCalcWASM()
		want = good[wasm]
	}
	if err != nil {
		if v := reflect.ValueOf(x); v.IsValid() && !v.IsNil() {
			return false, fmt.Errorf("an artefact along with error %v", err)
		}
		return false, nil
	}
	if !reflect.DeepEqual(x, want) {
		return false, fmt.Errorf("another %s is used: %s", kinds[kind], head(x))
	}
	return true, nil
}

func head(x interface{}) string {
	s := fmt.Sprintf("%+v", x)
	if len(s) > 100 {
		s = s[:100]
	}
	return s
}

func load(z *zk.ZkFiles, kind int) error {
	return []func() error{z.LoadProvingKey, z.LoadVerificationKey, z.LoadWitnessCalcWASM}[kind]()
}

func fetch(z *zk.ZkFiles, kind int) error {
	return []func() error{z.DownloadProvingKey, z.DownloadVerificationKey, z.DownloadWitnessCalcWASM}[kind]()
}

type config struct {
	kind   int
	format string
	cache  bool
}

func (g config) String() string {
	if g.kind != pk {
		return kinds[g.kind]
	}
	if g.cache {
		return "pk " + g.format + " kept"
	}
	return "pk " + g.format
}

var configs = []config{
	{pk, "json", true}, {pk, "json", false}, {pk, "bin", true}, {pk, "bin", false}, {pk, "go.bin", true}, {pk, "go.bin", false},
	{vk, "json", true}, {wasm, "json", true},
}

func (g config) files(url, dir string) *zk.ZkFiles { return g.filesAs(url, dir, hashes) }

func (g config) filesAs(url, dir string, hashes [3]string) *zk.ZkFiles {
	return zk.NewZkFiles(url, dir, zk.ProvingKeyFormat(g.format), zk.ZkFilesHashes{ProvingKey: hashes[pk], VerificationKey: hashes[vk], WitnessCalcWASM: hashes[wasm]}, g.cache)
}

var ctr int64

func scratch() string {
	return filepath.Join(world.Scratch(), fmt.Sprintf("d%d", atomic.AddInt64(&ctr, 1)))
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// disk tells what is at the place of an artefact: absent, good, bad.
func disk(dir string, kind int, format string) string {
	b, err := ioutil.ReadFile(filepath.Join(dir, name(kind, format)))
	if os.IsNotExist(err) {
		return "absent"
	}
	if err == nil && bytes.Equal(b, good[kind]) {
		return "good"
	}
	return "bad"
}

// ---- answers and leftovers

var leftovers = []string{"nothing", "good", "evil", "half", "empty", "a directory", "a long unfinished download", "a lock file", "no directory", "a file as directory"}

func attempts(c *mcx.Ctx) {
	type cs struct {
		g    config
		left int
		a    []string
	}
	var l []cs
	for _, g := range configs {
		for i := range leftovers {
			for _, a := range answers {
				l = append(l, cs{g, i, []string{a, "good"}})
				if c.Thorough() || a == "evil" || a == "cut" || a == "500 good" {
					for _, b := range answers {
						l = append(l, cs{g, i, []string{a, b, "good"}})
					}
				}
			}
		}
	}
	c.Each("answers and leftovers", len(l), func(i int) string { return fmt.Sprintf("%v, %s, %v", l[i].g, leftovers[l[i].left], l[i].a) }, func(i int) error {
		g, left := l[i].g, leftovers[l[i].left]
		n, last, asked := 0, "", 0
		var mu sync.Mutex
		url, done := srv.on(func(file string) string {
			mu.Lock()
			defer mu.Unlock()
			if kindOf(file) != g.kind {
				return "good"
			}
			asked++
			return last
		})
		defer done()
		dir := scratch()
		defer os.RemoveAll(dir) //nolint
		path := filepath.Join(dir, name(g.kind, g.format))
		if left == "a file as directory" {
			must(ioutil.WriteFile(dir, nil, 0600))
		} else if left != "no directory" {
			must(os.MkdirAll(dir, 0700))
		}
		switch left {
		case "good":
			must(ioutil.WriteFile(path, good[g.kind], 0600))
		case "evil":
			must(ioutil.WriteFile(path, evil[g.kind], 0600))
		case "half":
			must(ioutil.WriteFile(path, good[g.kind][:20], 0600))
		case "empty":
			must(ioutil.WriteFile(path, nil, 0600))
		case "a directory":
			must(os.MkdirAll(path, 0700))
		case "a long unfinished download":
			must(ioutil.WriteFile(path+".tmp", bytes.Repeat([]byte("z"), 5000), 0600))
		case "a lock file":
			must(ioutil.WriteFile(path+".tmp.lock", []byte("1234"), 0600))
		}
		blocked := left == "a file as directory" || left == "a directory"
		z := g.files(url, dir)
		got := false
		for _, last = range l[i].a {
			n++
			was := disk(dir, g.kind, g.format)
			ok, err := use(z, g.kind)
			if err != nil {
				return fmt.Errorf("attempt %d: %v", n, err)
			}
			may := got && g.cache || was == "good" || complete(last)
			need := !blocked && (got && g.cache || was == "good" || was == "absent" && complete(last))
			if ok && !may {
				return fmt.Errorf("attempt %d: the right artefact out of nothing", n)
			}
			if !ok && need {
				return fmt.Errorf("attempt %d: fails although the artefact is there (%s, %s)", n, was, last)
			}
			got = got || ok
			if is := disk(dir, g.kind, g.format); is == "bad" && was != "bad" {
				return fmt.Errorf("attempt %d: leaves a bad artefact at its place", n)
			} else if ok && is != "good" && !(got && g.cache) {
				return fmt.Errorf("attempt %d: the artefact used is not there", n)
			}
			// somebody else, with all artefacts
			z2 := g.files(url, dir)
			ok2 := z2.LoadAll() == nil
			if ok2 {
				if ok2, err = use(z2, g.kind); err != nil || !ok2 {
					return fmt.Errorf("attempt %d: loaded, and then: %v", n, err)
				}
			}
			if ok2 != ok {
				return fmt.Errorf("attempt %d: succeeds %v, and then with another object %v", n, ok, ok2)
			}
			if is := disk(dir, g.kind, g.format); is == "bad" && was != "bad" {
				return fmt.Errorf("attempt %d: loading everything leaves a bad artefact at its place", n)
			}
		}
		return nil
	})
	// expected hashes that no file has
	bad := []string{"", "00", hashes[pk][:62], hashes[pk] + "00", "zz" + hashes[pk][2:], " " + hashes[pk], hashes[vk][1:] + "0", strings.Repeat("0", 64)}
	c.Each("expected hashes", len(configs)*(len(bad)+1), func(i int) string { return fmt.Sprintf("%v, %d", configs[i/(len(bad)+1)], i%(len(bad)+1)) }, func(i int) error {
		g, b := configs[i/(len(bad)+1)], i%(len(bad)+1)
		h := hashes
		want := b == len(bad)
		if want {
			h[g.kind] = strings.ToUpper(h[g.kind])
		} else {
			h[g.kind] = bad[b]
		}
		url, done := srv.on(func(string) string { return "good" })
		defer done()
		for _, there := range []bool{false, true} {
			dir := scratch()
			defer os.RemoveAll(dir) //nolint
			if there {
				must(os.MkdirAll(dir, 0700))
				must(ioutil.WriteFile(filepath.Join(dir, name(g.kind, g.format)), good[g.kind], 0600))
			}
			z := zk.NewZkFiles(url, dir, zk.ProvingKeyFormat(g.format), zk.ZkFilesHashes{ProvingKey: h[pk], VerificationKey: h[vk], WitnessCalcWASM: h[wasm]}, g.cache)
			for k := 0; k < 2; k++ {
				if (fetch(z, g.kind) == nil) != want || (load(z, g.kind) == nil) != want || (z.LoadAll() == nil) != want || (z.DownloadAll() == nil) != want {
					return fmt.Errorf("not %v", want)
				}
				if ok, err := use(z, g.kind); ok != want || err != nil {
					return fmt.Errorf("%v %v", ok, err)
				}
			}
		}
		return nil
	})
}

// ---- histories

type sys struct {
	g     config
	dir   string
	url   string
	done  func()
	z     *zk.ZkFiles
	srv   string
	taken bool // z has loaded the artefact and keeps it
	seen  bool // z has had the artefact checked, and knows its place
}

func newSys(g config) func() (mcx.Sys, error) {
	return func() (mcx.Sys, error) {
		s := &sys{g: g, dir: scratch(), srv: "good"}
		s.url, s.done = srv.on(func(file string) string {
			if kindOf(file) != g.kind {
				return "good"
			}
			return s.srv
		})
		s.z = g.files(s.url, s.dir)
		return s, nil
	}
}

func (s *sys) Close() {
	s.done()
	os.RemoveAll(s.dir) //nolint
}

func (s *sys) path() string { return filepath.Join(s.dir, name(s.g.kind, s.g.format)) }

func (s *sys) Key() string {
	b, _ := ioutil.ReadFile(s.path())
	others := ""
	for k := range kinds {
		if k != s.g.kind {
			others += disk(s.dir, k, s.g.format) + " "
		}
	}
	return fmt.Sprint(s.srv, s.taken, s.seen, disk(s.dir, s.g.kind, s.g.format), len(b), bytes.Equal(b, evil[s.g.kind]), others)
}

func (s *sys) Ops() []string {
	return []string{"server good", "server evil", "server first half", "server cut", "server 500 good", "server reset",
		"file evil", "file half", "file good", "file gone", "fetch", "load", "use", "load all", "fetch all", "insecure", "restart", "hashes"}
}

func (s *sys) Do(op string, full bool) error {
	was := disk(s.dir, s.g.kind, s.g.format)
	have := was == "good" || was == "absent" && s.srv == "good"
	may := have || s.srv == "good" // a bad file might be replaced
	// an object that knows the place of a file may fail once when the file has
	// been taken away or replaced behind its back
	judge := func(ok, loads bool) error {
		if ok && !may && !s.taken {
			return fmt.Errorf("succeeds without the artefact")
		}
		if !ok && (loads && s.taken || have && !(loads && s.seen && was != "good")) {
			return fmt.Errorf("fails although the artefact is there")
		}
		if !ok && loads {
			s.seen = false
		}
		return nil
	}
	clean := true
	switch op {
	case "file evil", "file half", "file good":
		must(os.MkdirAll(s.dir, 0700))
		b := map[string][]byte{"file evil": evil[s.g.kind], "file half": good[s.g.kind][:30], "file good": good[s.g.kind]}[op]
		// replaced, not written over
		must(ioutil.WriteFile(s.path()+".new", b, 0600))
		must(os.Rename(s.path()+".new", s.path()))
		clean = false
	case "file gone":
		os.Remove(s.path()) //nolint
	case "fetch":
		err := fetch(s.z, s.g.kind)
		if err := judge(err == nil, false); err != nil {
			return err
		}
		s.seen = s.seen || err == nil
		if err == nil && disk(s.dir, s.g.kind, s.g.format) != "good" && !s.taken {
			return fmt.Errorf("succeeds and the artefact is not there")
		}
	case "load", "load all":
		f := func() error { return load(s.z, s.g.kind) }
		if op == "load all" {
			f = s.z.LoadAll
		}
		err := f()
		if s.seen && !s.g.cache && err == nil {
			break // was checked before, is checked again when used
		}
		if err := judge(err == nil, true); err != nil {
			return err
		}
		if err == nil {
			s.seen, s.taken = true, s.g.cache
		}
	case "use":
		ok, err := use(s.z, s.g.kind)
		if err != nil {
			return err
		}
		if err := judge(ok, true); err != nil {
			return err
		}
		if ok {
			s.seen, s.taken = true, s.g.cache
		}
	case "fetch all":
		err := s.z.DownloadAll()
		if err := judge(err == nil, false); err != nil {
			return err
		}
		s.seen = s.seen || err == nil
	case "insecure":
		err := s.z.InsecureDownloadAll()
		whole := s.srv == "good" || s.srv == "evil" || s.srv == "first half"
		if (err == nil) != (was != "absent" || whole) {
			return fmt.Errorf("download: %v", err)
		}
		clean = false
		if is := disk(s.dir, s.g.kind, s.g.format); was == "absent" && (is == "absent") != (err != nil) {
			return fmt.Errorf("download: %v, the file is %s", err, is)
		}
	case "hashes":
		h, err := s.z.InsecureCalcHashes()
		all := true
		var want [3]string
		for k := range kinds {
			b, err := ioutil.ReadFile(filepath.Join(s.dir, name(k, s.g.format)))
			all = all && err == nil
			x := sha256.Sum256(b)
			want[k] = hex.EncodeToString(x[:])
		}
		if (err == nil) != all || all && (h.ProvingKey != want[pk] || h.VerificationKey != want[vk] || h.WitnessCalcWASM != want[wasm]) {
			return fmt.Errorf("the hashes are %v %v", h, err)
		}
	case "restart":
		s.z = s.g.files(s.url, s.dir)
		s.taken, s.seen = false, false
	default: // the server
		s.srv = strings.TrimPrefix(op, "server ")
	}
	if is := disk(s.dir, s.g.kind, s.g.format); clean && is == "bad" && was != "bad" {
		return fmt.Errorf("a bad artefact is left at its place")
	}
	return nil
}

// ---- two circuits

// two has objects that expect different artefacts, from one directory or from
// two, in one process.
type two struct {
	g    config
	dirs [2]string
	url  string
	done func()
	srv  string
	z    [2]*zk.ZkFiles
	st   [2]struct{ taken, seen bool }
}

var both = []string{"good", "evil"}

func newTwo(g config, shared bool) func() (mcx.Sys, error) {
	return func() (mcx.Sys, error) {
		s := &two{g: g, srv: "good"}
		s.dirs[0] = scratch()
		s.dirs[1] = s.dirs[0]
		if !shared {
			s.dirs[1] = scratch()
		}
		s.url, s.done = srv.on(func(file string) string { return s.srv })
		for i := range s.z {
			s.fresh(i)
		}
		return s, nil
	}
}

func (s *two) fresh(i int) {
	s.z[i] = s.g.filesAs(s.url, s.dirs[i], [][3]string{hashes, evilHashes}[i])
	s.st[i].taken, s.st[i].seen = false, false
}

func (s *two) Close() {
	s.done()
	for _, d := range s.dirs {
		os.RemoveAll(d) //nolint
	}
}

// is tells whose artefact is in the directory of an object.
func (s *two) is(i int) string {
	b, err := ioutil.ReadFile(filepath.Join(s.dirs[i], name(s.g.kind, s.g.format)))
	switch {
	case os.IsNotExist(err):
		return "absent"
	case err == nil && bytes.Equal(b, good[s.g.kind]):
		return "good"
	case err == nil && bytes.Equal(b, evil[s.g.kind]):
		return "evil"
	}
	return "bad"
}

func (s *two) Key() string { return fmt.Sprint(s.srv, s.is(0), s.is(1), s.st) }

func (s *two) Ops() []string {
	return []string{"server good", "server evil", "use good", "use evil", "again good", "again evil", "gone good", "gone evil"}
}

func (s *two) Do(op string, full bool) error {
	f := strings.Fields(op)
	i := 0
	if f[1] == "evil" {
		i = 1
	}
	switch f[0] {
	case "server":
		s.srv = f[1]
	case "again":
		s.fresh(i)
	case "gone":
		os.RemoveAll(s.dirs[i]) //nolint
	case "use":
		was := s.is(i)
		have := was == f[1] || was == "absent" && s.srv == f[1]
		ok, err := useAs(s.z[i], s.g.kind, [][3][]byte{good, evil}[i])
		if err != nil {
			return err
		}
		st := &s.st[i]
		if ok && !have && s.srv != f[1] && !st.taken {
			return fmt.Errorf("succeeds without the artefact")
		}
		if !ok && (st.taken || have && !(st.seen && was != f[1])) {
			return fmt.Errorf("fails although the artefact is there")
		}
		st.seen = ok
		st.taken = st.taken || ok && s.g.cache
	}
	for j := range s.dirs {
		if s.is(j) == "bad" {
			return fmt.Errorf("a bad artefact is left at its place")
		}
	}
	return nil
}

// ---- crashes and failing file operations

func crashes(c *mcx.Ctx) {
	scen := []string{"load", "fetch", "insecure", "load again"}
	type cs struct {
		g config
		s string
	}
	var l []cs
	for _, g := range configs {
		for _, s := range scen {
			l = append(l, cs{g, s})
		}
	}
	run := func(z *zk.ZkFiles, s string, kind int) error {
		switch s {
		case "load":
			_, err := use(z, kind)
			return err
		case "fetch":
			z.DownloadAll() //nolint
		case "insecure":
			z.InsecureDownloadAll() //nolint
		}
		return nil
	}
	c.Each("crashes and failures", len(l), func(i int) string { return fmt.Sprintf("%v, %s", l[i].g, l[i].s) }, func(i int) error {
		g, s := l[i].g, l[i].s
		url, done := srv.on(func(string) string { return "good" })
		defer done()
		base := scratch()
		defer os.RemoveAll(base) //nolint
		must(os.MkdirAll(base, 0700))
		dir := filepath.Join(base, "zk")
		after := func(fs *vos.FS, what string) error {
			d := scratch()
			defer os.RemoveAll(d) //nolint
			must(os.MkdirAll(d, 0700))
			must(fs.Write(d))
			for k := range kinds {
				if disk(filepath.Join(d, "zk"), k, g.format) == "bad" {
					return fmt.Errorf("%s: a bad %s is left at its place", what, kinds[k])
				}
			}
			for n := 0; n < 2; n++ {
				z := g.files(url, filepath.Join(d, "zk"))
				if err := z.LoadAll(); err != nil {
					return fmt.Errorf("%s: loading afterwards: %v", what, err)
				}
				if ok, err := use(z, g.kind); !ok || err != nil {
					return fmt.Errorf("%s: using afterwards: %v %v", what, ok, err)
				}
			}
			c.AddTraces(1)
			return nil
		}
		rec := vos.Watch(base)
		defer rec.Stop()
		z := g.files(url, dir)
		if s == "load again" {
			must(z.LoadAll())
			rec.Rebase()
			z = g.files(url, dir)
			if err := run(z, "load", g.kind); err != nil {
				return err
			}
		} else if err := run(z, s, g.kind); err != nil {
			return err
		}
		total := rec.Count()
		for n := 0; n <= rec.Len(); n++ {
			keeps := []int{0}
			if n < rec.Len() {
				for k := 1; k < len(rec.Ops[n].Data); k++ {
					keeps = append(keeps, k)
				}
			}
			for _, k := range keeps {
				fs := rec.At(n, k)
				if err := after(fs, fmt.Sprintf("stop after %d operations and %d bytes", n, k)); err != nil {
					return err
				}
				if k == 0 {
					for _, p := range fs.PowerLoss([]int{0, 50, 100}) {
						if err := after(p, fmt.Sprintf("power loss after %d operations", n)); err != nil {
							return err
						}
					}
				}
			}
		}
		// each operation fails, with part of the data written or none
		for n := 0; n < total; n++ {
			for _, keep := range []int{0, 7} {
				b2 := scratch()
				defer os.RemoveAll(b2) //nolint
				must(os.MkdirAll(b2, 0700))
				d2 := filepath.Join(b2, "zk")
				z := g.files(url, d2)
				if s == "load again" {
					must(z.LoadAll())
					z = g.files(url, d2)
				}
				r2 := vos.Watch(b2)
				r2.NoLog = true
				failed := ""
				r2.Fault = func(m int, o vos.Op) (int, error) {
					if m == n {
						failed = o.Kind
						if len(o.Data) < keep {
							keep = len(o.Data)
						}
						return keep, fmt.Errorf("injected fault")
					}
					return 0, nil
				}
				err := run(z, map[bool]string{true: "load", false: s}[s == "load again"], g.kind)
				r2.Fault = nil
				for k := range kinds {
					if disk(d2, k, g.format) == "bad" && err == nil {
						err = fmt.Errorf("a bad %s is left at its place", kinds[k])
					}
				}
				if err == nil {
					var ok bool
					if ok, err = use(z, g.kind); err == nil && !ok {
						err = fmt.Errorf("the next attempt fails")
					}
				}
				if err == nil {
					z = g.files(url, d2)
					var ok bool
					if ok, err = use(z, g.kind); err == nil && !ok {
						err = fmt.Errorf("the next attempt with another object fails")
					}
				}
				r2.Stop()
				c.AddTraces(1)
				if err != nil {
					return fmt.Errorf("operation %d (%s) fails: %v", n, failed, err)
				}
			}
		}
		return nil
	})
}

// ---- concurrent loads

// harness runs threads; a thread is the number of its object and what it does.
// The n-th download is answered by the n-th answer, and by the last when they
// run out.
func harness(g config, threads []string, script []string, bound int) sched.Harness {
	nm := fmt.Sprintf("%v: %s; server %s", g, strings.Join(threads, " | "), strings.Join(script, ", "))
	return sched.Harness{Name: nm, Bound: bound, New: func() ([]func(), func() (string, error), error) {
		base := scratch()
		must(os.MkdirAll(base, 0700))
		dir := filepath.Join(base, "zk")
		script := script
		n, goods, wrong := 0, 0, 0 // wrong answers while the artefact was missing
		url, done := srv.on(func(file string) string {
			if kindOf(file) != g.kind {
				return "good"
			}
			a := script[len(script)-1]
			if n < len(script) {
				a = script[n]
			}
			n++
			if complete(a) {
				goods++
			} else if disk(dir, g.kind, g.format) != "good" {
				wrong++
			}
			return a
		})
		rec := vos.Watch(base)
		rec.NoLog = true
		rec.Points = true
		steps := 0
		rec.Fault = func(m int, o vos.Op) (int, error) {
			switch o.Kind {
			case "rename", "remove", "funlock":
				steps++
			}
			return 0, nil
		}
		vtime.Set(1600000000 * 1e9)
		vtime.OnSleep = func(time.Duration) {
			if sched.Active() {
				s := steps
				sched.Wait("sleep", func() bool { return steps > s })
			}
		}
		objs := map[byte]*zk.ZkFiles{}
		var outs []string
		var bad error
		oks, errs := 0, 0
		var bodies []func()
		for _, t := range threads {
			t := t
			if objs[t[0]] == nil {
				objs[t[0]] = g.files(url, dir)
			}
			z := objs[t[0]]
			bodies = append(bodies, func() {
				for _, op := range strings.Split(t[2:], ",") {
					sched.P()
					switch op {
					case "use":
						ok, err := use(z, g.kind)
						if err != nil && bad == nil {
							bad = err
						}
						outs = append(outs, fmt.Sprint(t, ok))
						if ok {
							oks++
						} else {
							errs++
						}
					case "fetch", "load", "load all":
						f := func() error { return fetch(z, g.kind) }
						if op == "load" {
							f = func() error { return load(z, g.kind) }
						} else if op == "load all" {
							f = z.LoadAll
						}
						if f() == nil {
							oks++
						} else {
							errs++
						}
					}
					if bad == nil && disk(dir, g.kind, g.format) == "bad" {
						bad = fmt.Errorf("a bad artefact is at its place")
					}
				}
			})
		}
		return bodies, func() (string, error) {
			defer os.RemoveAll(base) //nolint
			defer rec.Stop()
			defer done()
			rec.Points = false
			vtime.Real()
			out := fmt.Sprint(strings.Join(outs, ","), n)
			if bad != nil {
				return out, bad
			}
			if oks > 0 && goods == 0 {
				return out, fmt.Errorf("succeeds without the artefact")
			}
			if errs > 0 && len(script) == 1 && complete(script[0]) {
				return out, fmt.Errorf("fails although the server is fine")
			}
			if errs > wrong {
				return out, fmt.Errorf("%d attempts fail, but only %d answers were wrong while the artefact was missing", errs, wrong)
			}
			if goods > 0 && disk(dir, g.kind, g.format) != "good" {
				return out, fmt.Errorf("the artefact that was downloaded is not there")
			}
			// and from now on it works for everybody
			script = []string{"good"}
			for _, z := range append([]*zk.ZkFiles{g.files(url, dir)}, objs['A'], objs['B']) {
				if z == nil {
					continue
				}
				if ok, err := use(z, g.kind); !ok || err != nil {
					return out, fmt.Errorf("afterwards: %v %v", ok, err)
				}
			}
			return out, nil
		}, nil
	}}
}

func harnesses(c *mcx.Ctx) []sched.Harness {
	var hs []sched.Harness
	b2, b3 := c.Pick(2, 3), c.Pick(1, 2)
	for _, g := range []config{configs[0], configs[1], configs[3], configs[6], configs[7]} {
		if g != configs[1] && g != configs[7] {
			hs = append(hs, harness(g, []string{"A load", "A use"}, []string{"evil", "good"}, b2), harness(g, []string{"A load", "A load all"}, []string{"good"}, b3))
		}
		for _, sc := range [][]string{{"good"}, {"evil", "good"}, {"good", "evil"}, {"cut", "evil", "good"}} {
			hs = append(hs, harness(g, []string{"A use", "B use"}, sc, b2))
			if g == configs[7] || g == configs[1] {
				hs = append(hs,
					harness(g, []string{"A use", "A use,use"}, sc, b2),
					harness(g, []string{"A fetch,use", "B use"}, sc, b2),
					harness(g, []string{"A load", "A use"}, sc, b2),
					harness(g, []string{"A load", "A load", "A use"}, sc, b3),
					harness(g, []string{"A load all", "A fetch"}, sc, b3),
					harness(g, []string{"A use", "B use", "C use"}, sc, b3),
					harness(g, []string{"A use", "B fetch", "C use,use"}, sc, b3))
			}
		}
	}
	return hs
}

func main() {
	logrus.SetOutput(ioutil.Discard)
	artefacts()
	srv = serve()
	mcx.Quiet()
	mcx.Main("C28", "fault_enumeration", func(c *mcx.Ctx) {
		defer world.CleanScratch()
		c.Rule("every server answer (statuses, bodies altered in each way, redirections, connections cut at each stage) for every artefact, key format and leftover on disk, followed by further attempts with the same and with other objects; all histories over server states, files replaced or removed between calls, and calls, up to the depth; every crash point (each file operation, each byte of each write, power loss) and every failing file operation of a download and a load, followed by new attempts; and all interleavings, up to the preemption bound at file operation granularity, of objects and threads loading from the same directory while the server's answers vary. What is used is compared with the artefact whose hash is expected.")
		c.Assume("files are replaced by renaming, not written over while they are read; the parsers of the keys are stand-ins that accept two artefacts; a bad file somebody else left at the place of an artefact may stay there")
		sched.Explore(c, harnesses(c), time.Duration(c.Pick(60, 400))*time.Second)
		if c.Worker() {
			return
		}
		vtime.Real()
		attempts(c)
		crashes(c)
		for _, g := range configs {
			for _, shared := range []bool{true, false} {
				c.BFS(mcx.BFS{Name: fmt.Sprintf("two circuits %s, one directory %v", g, shared), New: newTwo(g, shared), Depth: c.Pick(7, 12), MaxStates: c.Pick(20000, 500000)})
			}
			c.BFS(mcx.BFS{Name: "histories " + g.String(), New: newSys(g), Depth: c.Pick(5, 9), MaxStates: c.Pick(20000, 500000)})
		}
	})
}
