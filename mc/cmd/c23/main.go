// C23: the key store yields exactly the stored keys to the right passphrase.
package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io/ioutil"
	"math/big"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"github.com/iden3/go-iden3-core/keystore"
	"github.com/iden3/go-iden3-crypto/babyjub"
	"verif/mc/lin"
	"verif/mc/mcx"
	"verif/mc/sched"
	"verif/mc/world"
)

var params = keystore.KeyStoreParams{ScryptN: 2, ScryptP: 1}

type pkc = babyjub.PublicKeyComp

func priv(n byte) (k babyjub.PrivateKey) {
	for i := range k {
		k[i] = n*16 + byte(i)
	}
	return k
}

func pub(k babyjub.PrivateKey) pkc { return k.Public().Compress() }

var (
	k1, k2, k3 = priv(1), priv(2), priv(3)
	secrets    = map[string]babyjub.PrivateKey{"k1": k1, "k2": k2, "k3": k3}
	pubs       = map[string]pkc{"k1": pub(k1), "k2": pub(k2), "k3": pub(k3)}
	passes     = map[string]string{"p": "", "q": "secret"}
	errStore   = errors.New("storage failure")
)

// store is a storage whose calls can be made to fail.
type store struct {
	in   keystore.Storage
	fail string // the call that fails: read, write, late (after writing), lock, unlock
	n    int
}

func (s *store) Read() ([]byte, error) {
	if s.fail == "read" {
		return nil, errStore
	}
	return s.in.Read()
}
func (s *store) Write(b []byte) error {
	s.n++
	if s.fail == "write" {
		return errStore
	}
	err := s.in.Write(b)
	for i := range b { // the store is free to reuse what it was given
		b[i] = 'x'
	}
	if err == nil && s.fail == "late" {
		return errStore
	}
	return err
}
func (s *store) TryLock() (bool, error) {
	switch s.fail {
	case "lock":
		return false, errStore
	case "held":
		return false, nil
	}
	return s.in.TryLock()
}
func (s *store) Unlock() error {
	if s.fail == "unlock" {
		return errStore
	}
	return s.in.Unlock()
}

// open opens a key store.  Its finalizer, which would close it at any moment
// from a thread of its own, is taken away.
func open(st keystore.Storage) (*keystore.KeyStore, error) {
	ks, err := keystore.NewKeyStore(st, params)
	if err == nil {
		runtime.SetFinalizer(ks, nil)
	}
	return ks, err
}

type sys struct {
	kind string
	dir  string
	mem  *keystore.MemStorage
	file *keystore.FileStorage
	st   *store
	ks   *keystore.KeyStore
	old  *keystore.KeyStore
	// model
	stored   map[string]string // key name -> pass name, as the open store has it
	disk     map[string]string // as on the storage
	unlocked map[string]bool
	open     bool
	failedUn bool // a close failed
	made     map[string]babyjub.PrivateKey
	madePub  map[string]pkc
	exported []*babyjub.PrivateKey // handed out, each must keep its value
	expVal   []babyjub.PrivateKey
	hist     string
}

var ctr int64

func newSys(kind string) (mcx.Sys, error) {
	s := &sys{kind: kind, stored: map[string]string{}, disk: map[string]string{}, unlocked: map[string]bool{},
		made: map[string]babyjub.PrivateKey{}, madePub: map[string]pkc{}}
	if kind == "mem" {
		m := keystore.MemStorage([]byte{})
		s.mem = &m
		s.st = &store{in: s.mem}
	} else {
		s.dir = filepath.Join(world.Scratch(), fmt.Sprintf("k%d", atomic.AddInt64(&ctr, 1)))
		if err := os.MkdirAll(s.dir, 0700); err != nil {
			return nil, err
		}
		s.file = keystore.NewFileStorage(s.path())
		s.st = &store{in: s.file}
	}
	ks, err := open(s.st)
	if err != nil {
		return nil, err
	}
	s.ks, s.open = ks, true
	return s, nil
}

func (s *sys) path() string { return filepath.Join(s.dir, "keys") }

func (s *sys) Close() {
	s.st.fail = ""
	if s.ks != nil {
		s.ks.Close() //nolint
	}
	if s.dir != "" {
		os.RemoveAll(s.dir) //nolint
	}
}

func (s *sys) Key() string {
	return fmt.Sprint(s.stored, s.disk, s.unlocked, s.open, s.failedUn, s.old != nil, len(s.made), len(s.exported) > 0)
}

func (s *sys) Ops() []string {
	if !s.open {
		return []string{"open", "open!read", "open!lock", "open!held", "close", "old-import", "old-unlock"}
	}
	ops := []string{}
	for _, k := range []string{"k1", "k2"} {
		for _, p := range []string{"p", "q"} {
			ops = append(ops, "import "+k+" "+p)
		}
	}
	ops = append(ops, "unlock k1 p", "unlock k1 q", "unlock k2 p", "unlock k2 q", "unlock k3 p")
	if len(s.made) == 0 {
		ops = append(ops, "new q", "new!write q")
	}
	if s.stored["n1"] != "" {
		ops = append(ops, "unlock n1 q", "unlock n1 p")
	}
	ops = append(ops, "import!write k1 q", "import!late k1 q", "import!write k2 p", "import!late k2 p", "export-spoil", "export-keep", "close", "close!unlock")
	if s.old != nil {
		ops = append(ops, "old-close", "old-import", "old-unlock")
	}
	return ops
}

func (s *sys) secret(n string) babyjub.PrivateKey {
	if k, ok := secrets[n]; ok {
		return k
	}
	return s.made[n]
}
func (s *sys) pk(n string) pkc {
	if k, ok := pubs[n]; ok {
		return k
	}
	return s.madePub[n]
}

func cp(m map[string]string) map[string]string {
	r := map[string]string{}
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (s *sys) Do(op string, full bool) error {
	f := strings.Fields(op)
	name, fail := f[0], ""
	if i := strings.Index(name, "!"); i > 0 {
		name, fail = name[:i], name[i+1:]
	}
	s.st.fail = fail
	var err error
	switch name {
	case "import", "new":
		var key, pass string
		var got *pkc
		buf := []byte{}
		if name == "import" {
			key, pass = f[1], f[2]
			buf = append(buf, passes[pass]...)
			got, err = s.ks.ImportKey(s.secret(key), buf)
		} else {
			key, pass = "n1", f[1]
			buf = append(buf, passes[pass]...)
			got, err = s.ks.NewKey(buf)
		}
		if string(buf) != passes[pass] {
			return fmt.Errorf("the passphrase given was changed")
		}
		if fail != "" {
			if err == nil {
				return fmt.Errorf("a key that could not be saved is acknowledged")
			}
			if fail == "late" {
				s.disk = cp(s.stored)
				s.disk[key] = pass
			}
			break
		}
		if err != nil {
			return fmt.Errorf("fails: %v", err)
		}
		if name == "new" {
			s.madePub["n1"] = *got
		} else if *got != s.pk(key) {
			return fmt.Errorf("answers another public key")
		}
		s.stored[key] = pass
		s.disk = cp(s.stored)
		if name == "new" {
			// learn the secret
			if err := s.ks.UnlockKey(got, []byte(passes[pass])); err != nil {
				return fmt.Errorf("unlocking the new key: %v", err)
			}
			sk, err := s.ks.ExportKey(got)
			if err != nil {
				return fmt.Errorf("exporting the new key: %v", err)
			}
			if pub(*sk) != *got {
				return fmt.Errorf("the new key's secret is not that of its public key")
			}
			for n := range secrets {
				if s.pk(n) == *got {
					return fmt.Errorf("the new key is a known key")
				}
			}
			s.made["n1"] = *sk
			s.unlocked["n1"] = true
		}
		for i := range got { // ours now
			got[i] = 0
		}
	case "unlock":
		pk := s.pk(f[1])
		err = s.ks.UnlockKey(&pk, []byte(passes[f[2]]))
		if (err == nil) != (s.stored[f[1]] == f[2]) {
			return fmt.Errorf("answers %v while the key is stored as %v", err, s.stored)
		}
		if err == nil {
			s.unlocked[f[1]] = true
		}
	case "export-spoil", "export-keep":
		for n := range s.unlocked {
			pk := s.pk(n)
			sk, err := s.ks.ExportKey(&pk)
			if err != nil {
				return err
			}
			if name == "export-spoil" {
				for i := range sk {
					sk[i] ^= 0x55
				}
			}
			s.exported = append(s.exported, sk)
			s.expVal = append(s.expVal, *sk)
		}
	case "close":
		was := s.open
		err = s.ks.Close()
		if fail != "" && err == nil {
			return fmt.Errorf("the storage could not be unlocked, but closing succeeds")
		}
		if fail == "" && err != nil && was {
			return fmt.Errorf("fails: %v", err)
		}
		s.unlocked = map[string]bool{}
		if fail == "" {
			s.open = false
		} else {
			s.failedUn = true
		}
	case "old-close":
		if s.old != nil {
			s.old.Close() //nolint
		}
	case "old-import", "old-unlock":
		o := s.old
		if !s.open {
			o = s.ks
		}
		n := s.st.n
		var err error
		if name == "old-import" {
			_, err = o.ImportKey(k2, []byte(passes["q"]))
		} else {
			pk := s.pk("k1")
			err = o.UnlockKey(&pk, []byte(passes[s.stored["k1"]]))
		}
		if err == nil || s.st.n != n {
			return fmt.Errorf("a closed key store does it (error %v)", err)
		}
	case "open":
		if s.kind == "file" {
			s.st.in = keystore.NewFileStorage(s.path())
		}
		var ks *keystore.KeyStore
		ks, err = open(s.st)
		if fail != "" {
			if err == nil {
				return fmt.Errorf("succeeds although the storage fails")
			}
			break
		}
		if err != nil {
			return fmt.Errorf("fails: %v", err)
		}
		s.old, s.ks, s.open = s.ks, ks, true
		s.stored = cp(s.disk)
		s.unlocked = map[string]bool{}
		s.failedUn = false
	default:
		panic(op)
	}
	s.st.fail = ""
	if full {
		return s.observe()
	}
	return nil
}

var elem = big.NewInt(12345)

func useKey(ks *keystore.KeyStore, pk pkc) error {
	if _, err := ks.SignElem(&pk, elem); err == nil {
		return fmt.Errorf("SignElem")
	}
	if _, _, err := ks.Sign(&pk, []byte("pre"), []byte("msg")); err == nil {
		return fmt.Errorf("Sign")
	}
	if _, err := ks.SignRaw(&pk, []byte("msg")); err == nil {
		return fmt.Errorf("SignRaw")
	}
	if _, err := ks.ExportKey(&pk); err == nil {
		return fmt.Errorf("ExportKey")
	}
	return nil
}

func (s *sys) names() []string {
	l := []string{"k1", "k2", "k3"}
	if len(s.madePub) > 0 {
		l = append(l, "n1")
	}
	return l
}

func (s *sys) view(ks *keystore.KeyStore, stored map[string]string, unlocked map[string]bool, fresh bool) error {
	got := map[pkc]bool{}
	for _, k := range ks.Keys() {
		if got[k] {
			return fmt.Errorf("a key is listed twice")
		}
		got[k] = true
	}
	if len(got) != len(stored) {
		return fmt.Errorf("%d keys are listed, %v are stored", len(got), stored)
	}
	for n := range stored {
		if !got[s.pk(n)] {
			return fmt.Errorf("stored key %s is not listed", n)
		}
	}
	// wrong passphrases first: they must change nothing
	for _, n := range s.names() {
		for p, pass := range passes {
			if stored[n] == p {
				continue
			}
			pk := s.pk(n)
			if err := ks.UnlockKey(&pk, []byte(pass)); err == nil {
				return fmt.Errorf("key %s (stored: %v) is unlocked by passphrase %q", n, stored, pass)
			}
		}
	}
	for _, n := range s.names() {
		pk := s.pk(n)
		if !unlocked[n] {
			if err := useKey(ks, pk); err != nil {
				return fmt.Errorf("key %s, not unlocked, can be used: %v", n, err)
			}
			continue
		}
		sk, err := ks.ExportKey(&pk)
		if err != nil {
			return fmt.Errorf("exporting unlocked key %s: %v", n, err)
		}
		if *sk != s.secret(n) {
			return fmt.Errorf("key %s is exported with another secret", n)
		}
		sig, err := ks.SignElem(&pk, elem)
		if err != nil {
			return fmt.Errorf("signing with unlocked key %s: %v", n, err)
		}
		sig2, date, err := ks.Sign(&pk, []byte("pre"), []byte("msg"))
		if err != nil {
			return fmt.Errorf("signing with unlocked key %s: %v", n, err)
		}
		if d := time.Now().Unix() - date; d < 0 || d > 600 {
			return fmt.Errorf("the date signed is not now")
		}
		for _, m := range s.names() {
			pk2 := s.pk(m)
			if ok, err := keystore.VerifySignatureElem(&pk2, elem, sig); ok != (m == n) || err != nil {
				return fmt.Errorf("signature by %s verifies under %s: %v %v", n, m, ok, err)
			}
			if ok, err := keystore.VerifySignature(&pk2, sig2, []byte("pre"), date, []byte("msg")); ok != (m == n) || err != nil {
				return fmt.Errorf("signature by %s verifies under %s: %v %v", n, m, ok, err)
			}
		}
	}
	return nil
}

// raw is the storage's content.
func (s *sys) raw() ([]byte, error) {
	if s.mem != nil {
		return append([]byte{}, *s.mem...), nil
	}
	b, err := ioutil.ReadFile(s.path())
	if os.IsNotExist(err) {
		return nil, nil
	}
	return b, err
}

func (s *sys) observe() error {
	stored, unlocked := s.stored, s.unlocked
	if !s.open {
		unlocked = nil
		for _, n := range s.names() {
			if err := useKey(s.ks, s.pk(n)); err != nil {
				return fmt.Errorf("after closing, key %s can be used: %v", n, err)
			}
		}
	} else if err := s.view(s.ks, stored, unlocked, false); err != nil {
		return err
	}
	if s.old != nil && s.open {
		for _, n := range s.names() {
			if err := useKey(s.old, s.pk(n)); err != nil {
				return fmt.Errorf("in a closed key store key %s can be used: %v", n, err)
			}
		}
	}
	for i := range s.exported {
		if *s.exported[i] != s.expVal[i] {
			return fmt.Errorf("a key handed out earlier has been changed")
		}
	}
	// what a new key store makes of the storage
	b, err := s.raw()
	if err != nil {
		return err
	}
	for n := range secrets {
		k := secrets[n]
		if strings.Contains(string(b), string(k[:])) || strings.Contains(strings.ToLower(string(b)), fmt.Sprintf("%x", k[:])) {
			return fmt.Errorf("the storage holds the secret of %s in the clear", n)
		}
	}
	m := keystore.MemStorage(b)
	ks, err := open(&m)
	if err != nil {
		return fmt.Errorf("the storage cannot be opened: %v", err)
	}
	defer ks.Close() //nolint
	un := map[string]bool{}
	for n, p := range s.disk {
		pk := s.pk(n)
		if err := ks.UnlockKey(&pk, []byte(passes[p])); err != nil {
			return fmt.Errorf("a new key store on the storage does not unlock %s: %v", n, err)
		}
		un[n] = true
	}
	if err := s.view(ks, s.disk, un, true); err != nil {
		return fmt.Errorf("a new key store on the storage: %v", err)
	}
	return nil
}

// ---- tampered storage

func tamper(c *mcx.Ctx) {
	m := keystore.MemStorage([]byte{})
	ks, err := open(&m)
	if err != nil {
		panic(err)
	}
	for _, n := range []string{"k1", "k2"} {
		if _, err := ks.ImportKey(secrets[n], []byte(passes["q"])); err != nil {
			panic(err)
		}
	}
	if _, err := ks.ImportKey(k3, []byte(passes["p"])); err != nil {
		panic(err)
	}
	base := append([]byte{}, m...)
	type doc = map[string]map[string]interface{}
	parse := func() doc {
		var d doc
		if err := json.Unmarshal(base, &d); err != nil {
			panic(err)
		}
		return d
	}
	if len(parse()) != 3 {
		panic("unexpected storage format")
	}
	type variant struct {
		name string
		b    []byte
		ok   map[string]bool // keys that must still unlock
	}
	var vs []variant
	add := func(name string, d interface{}, ok ...string) {
		b, err := json.Marshal(d)
		if err != nil {
			panic(err)
		}
		o := map[string]bool{}
		for _, k := range ok {
			o[k] = true
		}
		vs = append(vs, variant{name, b, o})
	}
	var ids []string
	name := map[string]string{}
	for id := range parse() {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		for n, pk := range pubs {
			t, err := pk.MarshalText()
			if err != nil {
				panic(err)
			}
			if string(t) == id {
				name[id] = n
			}
		}
		if name[id] == "" {
			panic("unexpected key in the storage: " + id)
		}
	}
	for _, a := range ids {
		var rest []string
		for _, b := range ids {
			if b != a {
				rest = append(rest, name[b])
			}
		}
		for _, b := range ids {
			if a != b {
				d := parse()
				d[a] = d[b]
				add("entry of "+name[b]+" put under "+name[a], d, rest...)
				d = parse()
				d[a], d[b] = d[b], d[a]
				add("entries of "+name[a]+" and "+name[b]+" swapped", d)
			}
		}
		d := parse()
		delete(d, a)
		add("entry of "+name[a]+" removed", d, rest...)
		var fields []string
		for f := range parse()[a] {
			fields = append(fields, f)
		}
		sort.Strings(fields)
		for _, f := range fields {
			vals := []interface{}{nil, "", "0x", "zz", 0, -1, 1, 3, 4, 1.5, true, []int{1}, map[string]int{"a": 1}, "0x00"}
			if v, ok := parse()[a][f].(string); ok {
				for i := range v {
					for _, r := range []byte{'0', 'f', 'g'} {
						if v[i] != r {
							vals = append(vals, v[:i]+string([]byte{r})+v[i+1:])
						}
					}
				}
				for _, k := range []int{1, 2, 3, 4, 8, 16, 31, 32} {
					if k < len(v) {
						vals = append(vals, v[:len(v)-k], v[:2]+v[2+k:])
					}
				}
				vals = append(vals, v+"00", v+v[2:], strings.ToUpper(v))
			}
			for i, v := range vals {
				d := parse()
				d[a][f] = v
				add(fmt.Sprintf("field %s of %s changed (%d)", f, name[a], i), d, rest...)
			}
			d := parse()
			delete(d[a], f)
			add("field "+f+" of "+name[a]+" removed", d, rest...)
		}
		for i := range a {
			d := parse()
			x := []byte(a)
			x[i] ^= 1
			d[string(x)] = d[a]
			delete(d, a)
			add(fmt.Sprintf("name of %s changed at %d", name[a], i), d, rest...)
		}
	}
	for i := 0; i <= len(base); i++ {
		vs = append(vs, variant{fmt.Sprintf("cut at %d", i), base[:i], nil})
	}
	for _, s := range []string{"null", "{}", "[]", "1", `""`, "{}{}", "{", " ", "\x00"} {
		vs = append(vs, variant{"storage " + s, []byte(s), nil})
	}
	c.Each("tampered storage", len(vs), func(i int) string { return vs[i].name }, func(i int) error {
		v := vs[i]
		m := keystore.MemStorage(append([]byte{}, v.b...))
		ks, err := open(&m)
		if err != nil {
			return nil
		}
		defer ks.Close() //nolint
		listed := map[pkc]bool{}
		for _, pk := range ks.Keys() {
			listed[pk] = true
			pk := pk
			for _, p := range passes {
				if ks.UnlockKey(&pk, []byte(p)) != nil {
					continue
				}
				sk, err := ks.ExportKey(&pk)
				if err != nil {
					return fmt.Errorf("exporting an unlocked key: %v", err)
				}
				if pub(*sk) != pk {
					return fmt.Errorf("unlocks a key with a secret that is not the public key's")
				}
				sig, err := ks.SignElem(&pk, elem)
				if err != nil {
					return err
				}
				if ok, err := keystore.VerifySignatureElem(&pk, elem, sig); !ok || err != nil {
					return fmt.Errorf("a signature does not verify under its key: %v", err)
				}
			}
		}
		for n := range v.ok {
			pk := pubs[n]
			p := "q"
			if n == "k3" {
				p = "p"
			}
			if err := ks.UnlockKey(&pk, []byte(passes[p])); err != nil {
				return fmt.Errorf("an untouched key does not unlock: %v", err)
			}
		}
		// a new key can be stored and nothing listed is lost
		if _, err := ks.ImportKey(priv(4), []byte("x")); err != nil {
			return fmt.Errorf("storing another key: %v", err)
		}
		ks2, err := open(&m)
		if err != nil {
			return fmt.Errorf("cannot be opened after storing another key: %v", err)
		}
		listed[pub(priv(4))] = true
		for _, pk := range ks2.Keys() {
			delete(listed, pk)
		}
		if len(listed) > 0 {
			return fmt.Errorf("%d keys are lost by storing another", len(listed))
		}
		return nil
	})
}

// ---- concurrent use

type shared struct {
	ks  *keystore.KeyStore
	m   *keystore.MemStorage
	exp []*babyjub.PrivateKey
}

func op(name string) lin.Op {
	return lin.Op{Name: name, Run: func(x interface{}) string {
		s := x.(*shared)
		f := strings.Fields(name)
		switch f[0] {
		case "import":
			pk, err := s.ks.ImportKey(secrets[f[1]], []byte(passes[f[2]]))
			if err != nil {
				return lin.Err(err)
			}
			return fmt.Sprintf("%x", pk[:3])
		case "unlock":
			pk := pubs[f[1]]
			return lin.Err(s.ks.UnlockKey(&pk, []byte(passes[f[2]])))
		case "export":
			pk := pubs[f[1]]
			sk, err := s.ks.ExportKey(&pk)
			if err != nil {
				return lin.Err(err)
			}
			return fmt.Sprint(*sk == secrets[f[1]])
		case "sign":
			pk := pubs[f[1]]
			sig, err := s.ks.SignElem(&pk, elem)
			if err != nil {
				return lin.Err(err)
			}
			return fmt.Sprintf("%x", sig[:5])
		case "keys":
			return list(s.ks)
		case "close":
			return lin.Err(s.ks.Close())
		}
		panic(name)
	}}
}

func list(ks *keystore.KeyStore) string {
	var l []string
	for _, k := range ks.Keys() {
		l = append(l, fmt.Sprintf("%x", k[:3]))
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

func final(x interface{}) string {
	s := x.(*shared)
	out := list(s.ks)
	for _, n := range []string{"k1", "k2", "k3"} {
		pk := pubs[n]
		_, err := s.ks.SignElem(&pk, elem)
		out += fmt.Sprint(" ", err == nil)
	}
	m := keystore.MemStorage(append([]byte{}, *s.m...))
	ks, err := open(&m)
	if err != nil {
		return "storage: " + err.Error()
	}
	out += " / " + list(ks)
	for _, n := range []string{"k1", "k2", "k3"} {
		for _, p := range []string{"p", "q"} {
			pk := pubs[n]
			out += fmt.Sprint(" ", ks.UnlockKey(&pk, []byte(passes[p])) == nil)
		}
	}
	return out
}

func harnesses(c *mcx.Ctx) []sched.Harness {
	sys := lin.Sys{
		New: func() (interface{}, func(), error) {
			m := keystore.MemStorage([]byte{})
			ks, err := open(&m)
			if err != nil {
				return nil, nil, err
			}
			s := &shared{ks: ks, m: &m}
			if _, err := ks.ImportKey(k1, []byte(passes["p"])); err != nil {
				return nil, nil, err
			}
			pk := pubs["k1"]
			return s, nil, ks.UnlockKey(&pk, []byte(passes["p"]))
		},
		Final: final,
	}
	progs := [][]string{
		{"import k2 p", "import k3 q"},
		{"import k1 q", "unlock k1 p"},
		{"import k2 p; unlock k2 p", "sign k1; keys"},
		{"close", "sign k1; export k1"},
		{"close", "unlock k1 p; sign k1"},
		{"close", "import k2 q; keys"},
		{"close", "close"},
		{"export k1; sign k1", "close", "keys"},
		{"import k2 p", "import k2 q", "unlock k2 q"},
		{"import k2 p", "import k3 q", "keys; unlock k2 p"},
	}
	var hs []sched.Harness
	for _, p := range progs {
		var th [][]lin.Op
		for _, t := range p {
			var l []lin.Op
			for _, o := range strings.Split(t, "; ") {
				l = append(l, op(o))
			}
			th = append(th, l)
		}
		b := c.Pick(3, 5)
		if len(p) > 2 {
			b = c.Pick(2, 3)
		}
		hs = append(hs, lin.Harness("concurrent", sys, th, b))
	}
	return hs
}

func main() {
	mcx.Main("C23", "model_checking", func(c *mcx.Ctx) {
		defer world.CleanScratch()
		c.Rule("all operation sequences up to the depth over {import of 2 keys under 2 passphrases (one empty), creation, unlocking with right and wrong passphrases, exporting (and spoiling what was exported), closing, reopening, use of the closed store} with each storage call failing before or after it took effect, on memory and file storage; all single-field, single-character, cut and swapped-entry alterations of the storage; all interleavings of 2-3 threads on one store up to the preemption bound")
		c.Assume("scrypt with cost parameters N=2, p=1; passphrases that differ only in trailing zero bytes are the same to scrypt and not told apart; huge cost parameters in a tampered storage are not tried")
		sched.Explore(c, harnesses(c), time.Duration(c.Pick(40, 300))*time.Second)
		if c.Worker() {
			return
		}
		tamper(c)
		for _, kind := range []string{"mem", "file"} {
			kind := kind
			c.BFS(mcx.BFS{Name: "sequences on " + kind + " storage", New: func() (mcx.Sys, error) { return newSys(kind) }, Depth: c.Pick(4, 6), MaxStates: c.Pick(1500, 20000)})
		}
	})
}
