// C26: signatures bind signer, prefix, date and message.
package main

import (
	"bytes"
	"crypto/ecdsa"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"strings"

	"github.com/ethereum/go-ethereum/accounts"
	ethks "github.com/ethereum/go-ethereum/accounts/keystore"
	"github.com/ethereum/go-ethereum/common"
	ethcrypto "github.com/ethereum/go-ethereum/crypto"
	"github.com/iden3/go-iden3-core/components/idensigner"
	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/crypto"
	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/identity/issuer"
	"github.com/iden3/go-iden3-core/keystore"
	"github.com/iden3/go-iden3-core/merkletree"
	"github.com/iden3/go-iden3-crypto/babyjub"
	"github.com/iden3/go-iden3-crypto/poseidon"
	"verif/mc/idw"
	"verif/mc/mcx"
	"verif/mc/vtime"
	"verif/mc/world"
)

func priv(n byte) (k babyjub.PrivateKey) {
	for i := range k {
		k[i] = n*16 + byte(i)
	}
	return k
}

var pks []babyjub.PublicKeyComp

func newStore() *keystore.KeyStore {
	m := keystore.MemStorage([]byte{})
	ks, err := keystore.NewKeyStore(&m, keystore.KeyStoreParams{ScryptN: 2, ScryptP: 1})
	if err != nil {
		panic(err)
	}
	pks = nil
	for n := byte(1); n < 4; n++ {
		pk, err := ks.ImportKey(priv(n), nil)
		if err != nil {
			panic(err)
		}
		if err := ks.UnlockKey(pk, nil); err != nil {
			panic(err)
		}
		pks = append(pks, *pk)
	}
	return ks
}

// roomy is b with room behind, filled with a mark.
func roomy(b []byte) []byte {
	buf := make([]byte, len(b)+200)
	copy(buf, b)
	for i := len(b); i < len(buf); i++ {
		buf[i] = 0xee
	}
	return buf[:len(b)]
}

func intact(what string, b, orig []byte) error {
	if !bytes.Equal(b, orig) {
		return fmt.Errorf("%s is changed", what)
	}
	for _, x := range b[len(b):cap(b)] {
		if x != 0xee {
			return fmt.Errorf("the buffer behind %s is written to", what)
		}
	}
	return nil
}

// both checks several buffers.
func both(prefix, p0, msg, m0 []byte) error {
	if err := intact("the prefix given", prefix, p0); err != nil {
		return err
	}
	return intact("the message given", msg, m0)
}

type tuple struct {
	key    int
	prefix []byte
	date   int64
	msg    []byte
	noDate bool // signed raw: no prefix, no date
}

func (t tuple) String() string {
	if t.noDate {
		return fmt.Sprintf("key %d raw %x", t.key, t.msg)
	}
	return fmt.Sprintf("key %d prefix %q date %d msg %x", t.key, t.prefix, t.date, t.msg)
}

func (t tuple) enc() []byte {
	if t.noDate {
		return t.msg
	}
	var d [8]byte
	binary.BigEndian.PutUint64(d[:], uint64(t.date))
	return append(append(append([]byte{}, t.prefix...), d[:]...), t.msg...)
}

// same tells whether two tuples are the same to the signature format: the
// parts are joined without lengths, and the hash does not see trailing zeros
// (recorded as known findings).
func same(a, b tuple) bool {
	return a.key == b.key && bytes.Equal(bytes.TrimRight(a.enc(), "\x00"), bytes.TrimRight(b.enc(), "\x00")) &&
		poseidon.HashBytes(a.enc()).Cmp(poseidon.HashBytes(b.enc())) == 0
}

func ff(n int, b byte) []byte { return bytes.Repeat([]byte{b}, n) }

func tuples(c *mcx.Ctx) []tuple {
	var ts []tuple
	prefixes := [][]byte{nil, []byte("p"), []byte("q"), keystore.PrefixMinorUpdate, ff(31, 'x')}
	msgs := [][]byte{nil, []byte("a"), []byte("b"), []byte("ab"), ff(8, 1), ff(22, 'm'), ff(31, 'm'), ff(32, 'm'), ff(62, 'n'), ff(200, 'o')}
	dates := []int64{0, 1600000000, 1600000001}
	if c.Thorough() {
		prefixes = append(prefixes, []byte("pp"), ff(30, 'x'), ff(32, 'x'), ff(100, 'y'))
		msgs = append(msgs, ff(7, 1), ff(9, 1), ff(23, 'm'), ff(24, 'm'), ff(30, 'm'), ff(61, 'n'), ff(63, 'n'), append([]byte{0}, 'a'))
		dates = append(dates, -1, 1<<32)
	}
	for k := 0; k < 2; k++ {
		for _, p := range prefixes {
			for _, m := range msgs {
				for _, d := range dates {
					ts = append(ts, tuple{k, p, d, m, false})
				}
			}
		}
		for _, m := range msgs {
			ts = append(ts, tuple{k, nil, 0, m, true})
		}
	}
	return ts
}

func sign(ks *keystore.KeyStore, t tuple) (*babyjub.SignatureComp, error) {
	pk := pks[t.key]
	prefix, msg := roomy(t.prefix), roomy(t.msg)
	var sig *babyjub.SignatureComp
	var err error
	if t.noDate {
		sig, err = ks.SignRaw(&pk, msg)
	} else {
		vtime.Set(t.date * 1e9)
		var d int64
		sig, d, err = ks.Sign(&pk, prefix, msg)
		if err == nil && d != t.date {
			return nil, fmt.Errorf("the date told is %d", d)
		}
	}
	if err != nil {
		return nil, err
	}
	if pk != pks[t.key] {
		return nil, fmt.Errorf("the public key given is changed")
	}
	return sig, both(prefix, t.prefix, msg, t.msg)
}

func verify(t tuple, sig *babyjub.SignatureComp) (bool, error) {
	pk := pks[t.key]
	return verifyPk(pk, t, sig)
}

func verifyPk(pk babyjub.PublicKeyComp, t tuple, sig *babyjub.SignatureComp) (ok bool, err error) {
	s := *sig
	prefix, msg := roomy(t.prefix), roomy(t.msg)
	k := pk
	if t.noDate {
		ok, err = keystore.VerifySignatureRaw(&k, &s, msg)
	} else {
		ok, err = keystore.VerifySignature(&k, &s, prefix, t.date, msg)
	}
	if e := both(prefix, t.prefix, msg, t.msg); e != nil {
		panic(e)
	}
	if k != pk || s != *sig {
		panic("the key or signature given is changed")
	}
	if err != nil && ok {
		panic("verifies with an error")
	}
	return ok, err
}

func babyjubs(c *mcx.Ctx) {
	ks := newStore()
	ts := tuples(c)
	sigs := make([]*babyjub.SignatureComp, len(ts))
	c.Case("signing", "all", func() error {
		for i, t := range ts {
			s, err := sign(ks, t)
			if err != nil {
				return fmt.Errorf("signing %v: %v", t, err)
			}
			sigs[i] = s
			again, err := sign(ks, t)
			if err != nil || *again != *s && !t.noDate {
				// a scheme with random nonces would also do; it must verify
				if ok, err := verify(t, again); !ok || err != nil {
					return fmt.Errorf("signing %v again: %v", t, err)
				}
			}
		}
		return nil
	})
	if sigs[len(sigs)-1] == nil {
		return
	}
	c.Each("cross verification", len(ts), func(i int) string { return ts[i].String() }, func(i int) error {
		for j := range ts {
			if !c.Thorough() && (i+j)%8 != 0 {
				differ := 0
				for _, d := range []bool{ts[i].key != ts[j].key, ts[i].date != ts[j].date, ts[i].noDate != ts[j].noDate, !bytes.Equal(ts[i].prefix, ts[j].prefix), !bytes.Equal(ts[i].msg, ts[j].msg)} {
					if d {
						differ++
					}
				}
				if differ > 1 {
					continue // more than one of key, prefix, date and message differ: one in eight
				}
			}
			ok, err := verify(ts[j], sigs[i])
			if ok != same(ts[i], ts[j]) || err != nil {
				return fmt.Errorf("as %v: %v %v", ts[j], ok, err)
			}
		}
		return nil
	})
	// every bit of everything
	var some []int
	for i, t := range ts {
		quick := len(t.msg) == 2 && len(t.prefix) == 1 && t.date == 1600000000 || len(t.msg) == 31 && t.noDate
		if t.key == 0 && (quick || c.Thorough() && t.date != 1600000001 && len(t.msg) < 40 && len(t.prefix) != 31) {
			some = append(some, i)
		}
	}
	type flip struct{ i, part, bit int }
	var fl []flip
	for _, i := range some {
		t := ts[i]
		for p, n := range []int{512, 256, len(t.prefix) * 8, len(t.msg) * 8, 64} {
			if t.noDate && p == 4 {
				continue
			}
			for b := 0; b < n; b++ {
				fl = append(fl, flip{i, p, b})
			}
		}
	}
	bit := func(b []byte, n int) []byte {
		r := append([]byte{}, b...)
		r[n/8] ^= 1 << uint(n%8)
		return r
	}
	parts := []string{"signature", "key", "prefix", "message", "date"}
	c.Each("single bits", len(fl), func(k int) string {
		return fmt.Sprintf("%v, %s bit %d", ts[fl[k].i], parts[fl[k].part], fl[k].bit)
	}, func(k int) error {
		f := fl[k]
		t, sig, pk := ts[f.i], *sigs[f.i], pks[ts[f.i].key]
		switch f.part {
		case 0:
			copy(sig[:], bit(sig[:], f.bit))
		case 1:
			copy(pk[:], bit(pk[:], f.bit))
		case 2:
			t.prefix = bit(t.prefix, f.bit)
		case 3:
			t.msg = bit(t.msg, f.bit)
		case 4:
			t.date ^= int64(uint64(1) << uint(f.bit))
		}
		if ok, _ := verifyPk(pk, t, &sig); ok {
			return fmt.Errorf("still verifies")
		}
		return nil
	})
	// other writings of the same signature
	c.Each("rewritten signatures", len(some)*12, func(k int) string { return fmt.Sprintf("%v, %d", ts[some[k/12]], k%12) }, func(k int) error {
		i, v := some[k/12], k%12
		sig := *sigs[i]
		r, s := le(sig[:32]), le(sig[32:])
		if v < 8 { // S plus a multiple of the order
			s.Add(s, new(big.Int).Mul(babyjub.SubOrder, big.NewInt(int64(1+v*4))))
		} else if v == 8 {
			s.Sub(babyjub.SubOrder, s) // negated
		} else if v == 9 {
			s.Sub(babyjub.SubOrder, s)
			sig[31] ^= 0x80
			r = le(sig[:32])
		} else if v == 10 {
			r.Add(r, q)
		} else {
			r, s = s, r
		}
		if r.BitLen() > 256 || s.BitLen() > 256 {
			return nil
		}
		put(sig[:32], r)
		put(sig[32:], s)
		if sig == *sigs[i] {
			return nil
		}
		if ok, _ := verify(ts[i], &sig); ok {
			return fmt.Errorf("another signature (%d) verifies", v)
		}
		return nil
	})
	// arbitrary keys, signatures and field elements
	var vals [][32]byte
	addv := func(x *big.Int) {
		if x.Sign() < 0 || x.BitLen() > 256 {
			return
		}
		var b [32]byte
		put(b[:], x)
		vals = append(vals, b)
		b[31] ^= 0x80
		vals = append(vals, b)
	}
	one := big.NewInt(1)
	for _, x := range []*big.Int{new(big.Int), one, big.NewInt(2), big.NewInt(3), q, babyjub.SubOrder, babyjub.Order, babyjub.A, babyjub.D, babyjub.B8.X, babyjub.B8.Y,
		new(big.Int).Lsh(one, 253), new(big.Int).Lsh(one, 254), new(big.Int).Lsh(one, 255), new(big.Int).Sub(new(big.Int).Lsh(one, 256), one)} {
		addv(x)
		addv(new(big.Int).Add(x, one))
		addv(new(big.Int).Sub(x, one))
	}
	for _, pk := range pks {
		vals = append(vals, pk)
	}
	if !c.Thorough() {
		for i := 0; i < len(vals); i += 2 {
			vals[i/2] = vals[i]
		}
		vals = vals[:len(vals)/2]
	}
	c.Each("arbitrary values", len(vals)*len(vals), func(k int) string {
		return fmt.Sprintf("%x %x", vals[k/len(vals)], vals[k%len(vals)])
	}, func(k int) error {
		a, b := vals[k/len(vals)], vals[k%len(vals)]
		// as key and point of a signature, and as the halves of a signature
		var sig, sig2 babyjub.SignatureComp
		copy(sig[:32], b[:])
		copy(sig[32:], sigs[0][32:])
		copy(sig2[:32], a[:])
		copy(sig2[32:], b[:])
		for _, t := range []tuple{ts[0], ts[len(ts)-1]} {
			pk := babyjub.PublicKeyComp(a)
			verifyPk(pk, t, &sig) //nolint
			if ok, _ := verify(t, &sig2); ok {
				return fmt.Errorf("an arbitrary signature verifies")
			}
		}
		return nil
	})
	// field elements: each signed and verified as each
	elems := []*big.Int{new(big.Int), one, big.NewInt(2), new(big.Int).Sub(q, one), q, new(big.Int).Add(q, one), new(big.Int).Lsh(one, 255), new(big.Int).Lsh(one, 256), new(big.Int).Add(new(big.Int).Lsh(one, 256), one), big.NewInt(-1), new(big.Int).Neg(q), new(big.Int).Lsh(one, 600)}
	c.Each("field elements", len(elems)*len(elems), func(k int) string { return fmt.Sprintf("%v as %v", elems[k/len(elems)], elems[k%len(elems)]) }, func(k int) error {
		a, b := elems[k/len(elems)], elems[k%len(elems)]
		a0, b0 := new(big.Int).Set(a), new(big.Int).Set(b)
		a1, b1 := new(big.Int).Set(a), new(big.Int).Set(b)
		inField := func(x *big.Int) bool { return x.Sign() >= 0 && x.Cmp(q) < 0 }
		sig, err := ks.SignElem(&pks[0], a1)
		if err != nil {
			if inField(a) {
				return fmt.Errorf("signing a field element: %v", err)
			}
			sig = sigs[0]
		}
		signed := err == nil
		ok, err := keystore.VerifySignatureElem(&pks[0], b1, sig)
		if ok != (signed && a.Cmp(b) == 0) {
			return fmt.Errorf("verifies: %v %v", ok, err)
		}
		if a1.Cmp(a0) != 0 || b1.Cmp(b0) != 0 {
			return fmt.Errorf("the element given is changed")
		}
		return nil
	})
	// the recorded weaknesses of the format, on fixed inputs
	weak := []struct {
		sig  string
		a, b tuple
	}{
		{"parts joined without lengths", tuple{0, []byte("a"), 5, []byte("\x00\x00\x00\x00\x00\x00\x00\x07m"), false}, tuple{0, []byte("a\x00\x00\x00\x00\x00\x00\x00\x05"), 7, []byte("m"), false}},
		{"trailing zeros not hashed", tuple{0, []byte("a"), 5, []byte("m"), false}, tuple{0, []byte("a"), 5, []byte("m\x00"), false}},
		{"trailing zeros not hashed raw", tuple{0, nil, 0, []byte("m"), true}, tuple{0, nil, 0, []byte("m\x00"), true}},
	}
	for _, w := range weak {
		w := w
		c.Case("recorded weaknesses", w.sig, func() error {
			s, err := sign(ks, w.a)
			if err != nil {
				return err
			}
			if ok, _ := verify(w.b, s); ok {
				return mcx.Sigf("format: "+w.sig, "a signature of %v verifies as %v", w.a, w.b)
			}
			return nil
		})
	}
}

var q, _ = new(big.Int).SetString("21888242871839275222246405745257275088548364400416034343698204186575808495617", 10)

func le(b []byte) *big.Int {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(r)
}

func put(b []byte, x *big.Int) {
	for i := range b {
		b[i] = 0
	}
	for i, v := range x.Bytes() {
		b[len(x.Bytes())-1-i] = v
	}
}

// ---- the signing service and the issuer

func services(c *mcx.Ctx) {
	ks := newStore()
	sk := priv(1)
	pub := sk.Public()
	sg := idensigner.New(ks, *pub)
	msgs := [][]byte{nil, []byte("a"), []byte("b"), ff(8, 1), ff(31, 'm'), ff(100, 'z')}
	dates := []int64{0, 1600000000, 1600000001}
	c.Case("signing service", "all", func() error {
		if sg.PublicKey().Compress() != pks[0] {
			return fmt.Errorf("another public key")
		}
		for _, m := range msgs {
			for _, d := range dates {
				vtime.Set(d * 1e9)
				b := roomy(m)
				sig, d2, err := sg.SignEthMsgDate(b)
				if err != nil || d2 != d {
					return fmt.Errorf("%v, date %d", err, d2)
				}
				if err := intact("the message given", b, m); err != nil {
					return mcxErr("SignEthMsgDate", err)
				}
				for _, m2 := range msgs {
					for _, d3 := range dates {
						for k := 0; k < 2; k++ {
							t := tuple{key: k, msg: append(append([]byte{}, m2...), tuple{date: d3}.enc()...), noDate: true}
							want := k == 0 && d3 == d && bytes.Equal(m, m2)
							if ok, err := verify(t, sig); ok != want || err != nil {
								return fmt.Errorf("signature of %x %d verifies as %x %d of key %d: %v %v", m, d, m2, d3, k, ok, err)
							}
						}
					}
				}
				sig, err = sg.SignEthMsg(b)
				if err != nil {
					return err
				}
				if err := intact("the message given", b, m); err != nil {
					return mcxErr("SignEthMsg", err)
				}
				for _, m2 := range msgs {
					if ok, err := verify(tuple{msg: m2, noDate: true}, sig); ok != bytes.Equal(m, m2) || err != nil {
						return fmt.Errorf("signature of %x verifies as %x: %v %v", m, m2, ok, err)
					}
				}
			}
		}
		return nil
	})
	c.Case("issuer", "all", func() error {
		st := db.NewMemoryStorage()
		cfg := issuer.ConfigDefault
		if _, err := issuer.Create(cfg, &pks[0], []claims.Claimer{}, st, ks); err != nil {
			return err
		}
		is, err := issuer.Load(st, ks, idw.NewChain(), idw.TheZk().Conf, idw.NewOff(""))
		if err != nil {
			return err
		}
		prefixes := [][]byte{nil, []byte("p"), []byte("q"), ff(31, 'x')}
		for _, p := range prefixes {
			for _, m := range msgs {
				bp, bm := roomy(p), roomy(m)
				sig, err := is.SignBinary(bp, bm)
				if err != nil {
					return err
				}
				if err := both(bp, p, bm, m); err != nil {
					return mcxErr("SignBinary", err)
				}
				for _, p2 := range prefixes {
					for _, m2 := range msgs {
						for k := 0; k < 2; k++ {
							t := tuple{key: k, msg: append(append([]byte{}, p2...), m2...), noDate: true}
							want := k == 0 && bytes.Equal(t.msg, append(append([]byte{}, p...), m...))
							if ok, err := verify(t, sig); ok != want || err != nil {
								return fmt.Errorf("signature of %x %x verifies as %x %x of key %d: %v %v", p, m, p2, m2, k, ok, err)
							}
						}
					}
				}
			}
		}
		var hs []*merkletree.Hash
		for i := int64(0); i < 4; i++ {
			hs = append(hs, merkletree.NewHashFromBigInt(big.NewInt(i*i*1000)))
		}
		prefix := le(append([]byte("setstate:"), make([]byte, 22)...))
		for _, a := range hs {
			for _, b := range hs {
				a0, b0 := *a, *b
				sig, err := is.SignState(a, b)
				if err != nil {
					return err
				}
				if *a != a0 || *b != b0 {
					return fmt.Errorf("SignState changes the states")
				}
				for _, a2 := range hs {
					for _, b2 := range hs {
						z := func() *big.Int { return new(big.Int) }
						e, err := poseidon.PoseidonHash([poseidon.T]*big.Int{prefix, a2.BigInt(), b2.BigInt(), z(), z(), z()})
						if err != nil {
							return err
						}
						for k := 0; k < 2; k++ {
							ok, err := keystore.VerifySignatureElem(&pks[k], e, sig)
							if want := k == 0 && *a2 == a0 && *b2 == b0; ok != want || err != nil {
								return fmt.Errorf("signature of %v -> %v verifies as %v -> %v of key %d: %v %v", a, b, a2, b2, k, ok, err)
							}
						}
					}
				}
			}
		}
		return nil
	})
}

func mcxErr(f string, err error) error { return fmt.Errorf("%s: %w", f, err) }

// ---- Ethereum messages

func ethereum(c *mcx.Ctx) {
	dir := filepath.Join(world.Scratch(), "eth")
	if err := os.MkdirAll(dir, 0700); err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir) //nolint
	ks := ethks.NewKeyStore(dir, 2, 1)
	var accs []accounts.Account
	for i := byte(1); i < 4; i++ {
		sk, err := ethcrypto.ToECDSA(ff(32, i))
		if err != nil {
			panic(err)
		}
		a, err := ks.ImportECDSA(sk, "p")
		if err != nil {
			panic(err)
		}
		if err := ks.Unlock(a, "p"); err != nil {
			panic(err)
		}
		accs = append(accs, a)
	}
	var msgs [][]byte
	for _, n := range []int{0, 1, 2, 7, 8, 9, 10, 11, 18, 31, 32, 33, 99, 100, 101, 108} {
		msgs = append(msgs, ff(n, 'm'))
		if n > 0 {
			msgs = append(msgs, ff(n, 0), append(ff(n-1, 'm'), 0), append(ff(n-1, 'm'), 'n'))
		}
	}
	dates := []int64{0, 1, 1600000000, 1600000001, -1, 1 << 40}
	type signed struct {
		acc  int
		msg  []byte
		date int64
		dat  bool
		sig  crypto.SignatureEthMsg
	}
	be := func(d int64) []byte {
		var b [8]byte
		binary.BigEndian.PutUint64(b[:], uint64(d))
		return b[:]
	}
	var all []signed
	c.Case("ethereum signing", "all", func() error {
		for a := range accs {
			for i, m := range msgs {
				b := roomy(m)
				s, err := crypto.SignEthMsg(ks, accs[a], b)
				if err != nil {
					return err
				}
				if err := intact("the message given", b, m); err != nil {
					return err
				}
				all = append(all, signed{a, m, 0, false, *s})
				for j, d := range dates {
					if (i+j)%3 != 0 && !c.Thorough() {
						continue
					}
					s, err := crypto.SignEthMsg(ks, accs[a], append(append([]byte{}, m...), be(d)...))
					if err != nil {
						return err
					}
					all = append(all, signed{a, m, d, true, *s})
				}
			}
		}
		return nil
	})
	full := func(s signed) []byte {
		if s.dat {
			return append(append([]byte{}, s.msg...), be(s.date)...)
		}
		return s.msg
	}
	check := func(addr common.Address, sig *crypto.SignatureEthMsg, s signed) bool {
		b := roomy(s.msg)
		g := *sig
		var ok bool
		if s.dat {
			ok = crypto.VerifySigEthMsgDate(addr, &g, b, s.date)
		} else {
			ok = crypto.VerifySigEthMsg(addr, &g, b)
		}
		if err := intact("the message given", b, s.msg); err != nil {
			panic(err)
		}
		if g != *sig {
			panic("the signature given is changed")
		}
		return ok
	}
	c.Each("ethereum cross verification", len(all), func(i int) string { return fmt.Sprintf("%d %x %d %v", all[i].acc, all[i].msg, all[i].date, all[i].dat) }, func(i int) error {
		s := all[i]
		for j, t := range all {
			if !c.Thorough() && i != j && (i*7+j)%8 != 0 && !bytes.Equal(full(s), full(t)) {
				continue
			}
			for a := range accs {
				want := a == s.acc && bytes.Equal(full(s), full(t))
				if got := check(accs[a].Address, &s.sig, t); got != want {
					return fmt.Errorf("verifies as %x %d %v of account %d: %v", t.msg, t.date, t.dat, a, got)
				}
			}
		}
		return nil
	})
	bits := func(n int) []int {
		var l []int
		for i := 0; i < n; i++ {
			l = append(l, i)
		}
		return l
	}
	var few []signed
	for i, s := range all {
		if s.acc == 0 && (i%5 == 0 || c.Thorough()) {
			few = append(few, s)
		}
	}
	n, _ := new(big.Int).SetString("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16)
	c.Each("ethereum changes", len(few), func(i int) string { return fmt.Sprintf("%x %d %v", few[i].msg, few[i].date, few[i].dat) }, func(i int) error {
		s := few[i]
		addr := accs[0].Address
		for _, b := range bits(520) {
			g := s.sig
			g[b/8] ^= 1 << uint(b%8)
			if check(addr, &g, s) {
				return fmt.Errorf("verifies with bit %d of the signature changed", b)
			}
		}
		for _, b := range bits(160) {
			a := addr
			a[b/8] ^= 1 << uint(b%8)
			if check(a, &s.sig, s) {
				return fmt.Errorf("verifies with bit %d of the address changed", b)
			}
		}
		for _, b := range bits(len(s.msg) * 8) {
			t := s
			t.msg = append([]byte{}, s.msg...)
			t.msg[b/8] ^= 1 << uint(b%8)
			if check(addr, &s.sig, t) {
				return fmt.Errorf("verifies with bit %d of the message changed", b)
			}
		}
		if s.dat {
			for b := uint(0); b < 64; b++ {
				t := s
				t.date ^= int64(uint64(1) << b)
				if check(addr, &s.sig, t) {
					return fmt.Errorf("verifies with bit %d of the date changed", b)
				}
			}
		}
		for v := 0; v < 256; v++ {
			g := s.sig
			g[64] = byte(v)
			if got := check(addr, &g, s); got != (g == s.sig) {
				return fmt.Errorf("with the last byte %d: %v", v, got)
			}
		}
		// the other solution of the same equation
		g := s.sig
		sv := new(big.Int).Sub(n, new(big.Int).SetBytes(g[32:64]))
		copy(g[32:64], ff(32, 0))
		copy(g[64-len(sv.Bytes()):64], sv.Bytes())
		g[64] = 27 + 28 - g[64]
		if check(addr, &g, s) {
			return fmt.Errorf("the signature with the other S verifies")
		}
		// through JSON
		js, err := json.Marshal(s.sig)
		if err != nil {
			return err
		}
		var back crypto.SignatureEthMsg
		if err := json.Unmarshal(js, &back); err != nil || back != s.sig {
			return fmt.Errorf("the signature comes back differently from JSON: %v", err)
		}
		for _, t := range []string{"", string(js[:len(js)-3]) + `"`, strings.Replace(string(js), "0x", "", 1), strings.Replace(string(js), "0x", "0x00", 1), "null", "1"} {
			back := s.sig
			if err := json.Unmarshal([]byte(t), &back); err == nil && back != s.sig {
				return fmt.Errorf("JSON %s is read as another signature", t)
			}
		}
		// plain signatures of hashes
		h := crypto.EthHash(full(s))
		raw, err := crypto.Sign(h, ks, accs[0])
		if err != nil {
			return err
		}
		var p crypto.Signature
		copy(p[:], raw)
		for a := range accs {
			if got := crypto.VerifySig(accs[a].Address, &p, h[:]); got != (a == 0) {
				return fmt.Errorf("the signature of the hash verifies for account %d: %v", a, got)
			}
		}
		for _, b := range bits(256) {
			x := h
			x[b/8] ^= 1 << uint(b%8)
			if crypto.VerifySig(addr, &p, x[:]) {
				return fmt.Errorf("verifies with bit %d of the hash changed", b)
			}
		}
		for _, l := range []int{0, 1, 31, 33, 64} {
			x := append([]byte{}, h[:]...)
			if l < len(x) {
				x = x[:l]
			} else {
				x = append(x, make([]byte, l-len(x))...)
			}
			if crypto.VerifySig(addr, &p, x) {
				return fmt.Errorf("verifies with a hash of %d bytes", l)
			}
		}
		return nil
	})
	// arbitrary signatures
	var parts [][]byte
	one := big.NewInt(1)
	for _, x := range []*big.Int{new(big.Int), one, n, new(big.Int).Rsh(n, 1), new(big.Int).Sub(new(big.Int).Lsh(one, 256), one), new(big.Int).Lsh(one, 255)} {
		for d := int64(-1); d < 2; d++ {
			y := new(big.Int).Add(x, big.NewInt(d))
			if y.Sign() >= 0 && y.BitLen() <= 256 {
				b := make([]byte, 32)
				copy(b[32-len(y.Bytes()):], y.Bytes())
				parts = append(parts, b)
			}
		}
	}
	c.Each("ethereum arbitrary signatures", len(parts)*len(parts), func(i int) string { return fmt.Sprintf("%x %x", parts[i/len(parts)], parts[i%len(parts)]) }, func(i int) error {
		for v := 0; v < 256; v++ {
			var g crypto.SignatureEthMsg
			copy(g[:], parts[i/len(parts)])
			copy(g[32:], parts[i%len(parts)])
			g[64] = byte(v)
			for a := range accs {
				if crypto.VerifySigEthMsg(accs[a].Address, &g, []byte("m")) {
					return fmt.Errorf("verifies with last byte %d", v)
				}
			}
		}
		return nil
	})
	c.Case("ethereum keys", "all", func() error {
		for a := range accs {
			pk, err := crypto.GetPkFromKeyStore(ks, accs[a].Address)
			if err != nil {
				return err
			}
			if ethcrypto.PubkeyToAddress(*pk) != accs[a].Address {
				return fmt.Errorf("another public key")
			}
			var _ *ecdsa.PublicKey = pk
			if err := ks.Lock(accs[a].Address); err != nil {
				return err
			}
			if _, err := crypto.GetPkFromKeyStore(ks, accs[a].Address); err == nil {
				return fmt.Errorf("a locked account signs")
			}
			if s, err := crypto.SignEthMsg(ks, accs[a], []byte("m")); err == nil || s != nil {
				return fmt.Errorf("a locked account signs")
			}
		}
		return nil
	})
}

func main() {
	mcx.Quiet()
	mcx.Main("C26", "exploration", func(c *mcx.Ctx) {
		defer world.CleanScratch()
		c.Rule("all combinations of keys, prefixes, dates and messages of lengths around the hash's block size are signed and each signature is verified as each other combination; every single bit of signature, key, prefix, date and message is changed; other encodings of the same signature, all pairs of boundary values as keys and signature halves, and field elements outside the field; all buffers handed over have room behind them that must stay untouched; likewise for Ethereum messages, with all values of the last byte, and for the issuer's and the signing service's signatures")
		c.Assume("discrete logarithms are hard: that no further message verifies is checked on the enumerated ones only; the curve multiplication of the dependency remembers its results")
		babyjubs(c)
		services(c)
		ethereum(c)
	})
}
