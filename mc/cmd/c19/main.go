// C19: claims encode and decode without loss and keep index apart from value.
package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"

	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/merkletree"
	"github.com/iden3/go-iden3-crypto/babyjub"
	"verif/mc/idw"
	"verif/mc/mcx"
)

type data = merkletree.Data

func le(b []byte, v uint64, n int) {
	for i := 0; i < n; i++ {
		b[i] = byte(v >> (8 * uint(i)))
	}
}

// inField compares with the order of the field.
func inField(d *data) bool {
	q, _ := new(big.Int).SetString("21888242871839275222246405745257275088548364400416034343698204186575808495617", 10)
	for i := range d {
		n := new(big.Int)
		for k := 31; k >= 0; k-- {
			n.Lsh(n, 8).Add(n, big.NewInt(int64(d[i][k])))
		}
		if n.Cmp(q) >= 0 {
			return false
		}
	}
	return true
}

// opts are the metadata of a claim.
type opts struct {
	typ      claims.ClaimType
	subj     claims.ClaimSubject
	pos      claims.ClaimSubjectPos
	exp, ver bool
	id       core.ID
	at       int64
	version  uint32
	nonce    uint32
}

func (o *opts) md() claims.Metadata {
	m := claims.NewMetadata(claims.ClaimHeader{Type: o.typ, Subject: o.subj, SubjectPos: o.pos, Expiration: o.exp, Version: o.ver})
	m.RevNonce = o.nonce
	if o.subj != claims.ClaimSubjectSelf {
		x := o.id
		m.Subject = &x
	}
	if o.exp {
		m.Expiration = o.at
	}
	if o.ver {
		m.Version = o.version
	}
	return m
}

// put is the reference encoding of metadata over an entry's content.
func (o *opts) put(d *data) {
	copy(d[0][:8], o.typ[:])
	d[0][8] = byte(o.subj) | byte(o.pos)<<2
	if o.exp {
		d[0][8] |= 8
		le(d[4][4:], uint64(o.at), 8)
	}
	if o.ver {
		d[0][8] |= 16
		le(d[0][12:], uint64(o.version), 4)
	}
	if o.subj != claims.ClaimSubjectSelf {
		at := 1
		if o.pos == claims.ClaimSubjectPosValue {
			at = 5
		}
		copy(d[at][:31], o.id[:])
	}
	le(d[4][:], uint64(o.nonce), 4)
}

// sameMd compares metadata as read with the options.
func (o *opts) same(m *claims.Metadata) error {
	h := m.Header()
	if h.Type != o.typ || m.Type() != o.typ || h.Subject != o.subj || h.SubjectPos != o.pos || h.Expiration != o.exp || h.Version != o.ver {
		return fmt.Errorf("the header is read as %+v", h)
	}
	if o.subj != claims.ClaimSubjectSelf && (m.Subject == nil || *m.Subject != o.id) {
		return fmt.Errorf("the subject is read as %v", m.Subject)
	}
	if o.exp && m.Expiration != o.at || o.ver && m.Version != o.version || m.RevNonce != o.nonce {
		return fmt.Errorf("read as %+v", *m)
	}
	return nil
}

var theID = core.NewID([2]byte{1, 2}, [27]byte{3, 0xff, 5})

// allOpts combines every option with boundary values.
func allOpts() (r []opts) {
	full := core.ID{}
	for i := range full {
		full[i] = 0xff
	}
	for _, t := range []claims.ClaimType{claims.NewClaimTypeNum(0), claims.NewClaimTypeNum(1), claims.NewClaimTypeNum(2), claims.NewClaimTypeNum(7), claims.NewClaimTypeNum(math.MaxUint64), claims.NewClaimType("x")} {
		for _, s := range []claims.ClaimSubject{claims.ClaimSubjectSelf, claims.ClaimSubjectOtherIden, claims.ClaimSubjectObject} {
			for _, p := range []claims.ClaimSubjectPos{claims.ClaimSubjectPosIndex, claims.ClaimSubjectPosValue} {
				for f := 0; f < 4; f++ {
					for _, nonce := range []uint32{0, 1, 0x01020304, math.MaxUint32} {
						for k := 0; k < 5; k++ {
							o := opts{typ: t, subj: s, pos: p, exp: f&1 != 0, ver: f&2 != 0, nonce: nonce}
							o.id = []core.ID{theID, full, {}, core.NewID([2]byte{}, [27]byte{26: 1}), {30: 0x80}}[k]
							o.at = []int64{0, 1, math.MaxInt64, math.MinInt64, 0x0102030405060708}[k]
							o.version = []uint32{0, 1, math.MaxUint32, 0x80000000, 0x01020304}[k]
							if s == claims.ClaimSubjectSelf && f == 0 && k > 0 {
								continue
							}
							r = append(r, o)
						}
					}
				}
			}
		}
	}
	return
}

// contents are entries with something everywhere.
func contents() (r []data) {
	var z, ones, mix data
	for i := range ones {
		for j := 0; j < 31; j++ {
			ones[i][j] = 0xff
			mix[i][j] = byte(i*31+j)*7 + 1
		}
	}
	return []data{z, ones, mix}
}

// md checks options over contents.
func md(o opts, base data) error {
	m := o.md()
	if o.subj != claims.ClaimSubjectSelf && o.id[30] == 0xff {
		base[1][31], base[5][31] = 0, 0
	}
	want := base
	o.put(&want)
	e := &merkletree.Entry{Data: base}
	m.Marshal(e)
	if e.Data != want {
		return fmt.Errorf("encoded as %x, not %x", e.Data, want)
	}
	if claims.GetRevocationNonce(e) != o.nonce {
		return fmt.Errorf("nonce %d", claims.GetRevocationNonce(e))
	}
	var back claims.Metadata
	back.Unmarshal(e)
	if e.Data != want {
		return fmt.Errorf("reading changed the entry")
	}
	if err := o.same(&back); err != nil {
		return err
	}
	// reading into metadata that were used
	used := (&opts{typ: claims.NewClaimTypeNum(9), subj: claims.ClaimSubjectObject, pos: 1, exp: true, ver: true, id: theID, at: 5, version: 6, nonce: 7}).md()
	used.Unmarshal(e)
	if err := o.same(&used); err != nil {
		return fmt.Errorf("into used metadata: %v", err)
	}
	e2 := &merkletree.Entry{Data: want}
	back.Marshal(e2)
	if e2.Data != want {
		return fmt.Errorf("rewriting what was read changed the entry to %x", e2.Data)
	}
	// another nonce changes the nonce only
	for _, n := range []uint32{0, math.MaxUint32, o.nonce + 1} {
		back.RevNonce = n
		back.Marshal(e2)
		w := want
		le(w[4][:], uint64(n), 4)
		if e2.Data != w {
			return fmt.Errorf("with nonce %d: %x", n, e2.Data)
		}
		for i := 0; i < 4; i++ {
			if e2.Data[i] != want[i] {
				return fmt.Errorf("the nonce changed the index")
			}
		}
	}
	// JSON
	j, err := json.Marshal(m)
	if err != nil {
		return err
	}
	known := false
	for i := uint64(0); i < 3; i++ {
		known = known || o.typ == claims.NewClaimTypeNum(i)
	}
	for k := 0; k < 2; k++ {
		var b claims.Metadata
		if k == 1 {
			b = used
		}
		err = json.Unmarshal(j, &b)
		idOk := o.subj == claims.ClaimSubjectSelf || core.CheckChecksum(o.id)
		if known || !idOk {
			// the library's own kinds have one header; a malformed
			// identifier is refused
			h := m.Header()
			right := h == claims.ClaimHeaderBasic || h == claims.ClaimHeaderKeyBabyJub || h == claims.ClaimHeaderOtherIden
			switch {
			case err == nil && known && !right:
				err = fmt.Errorf("a header that isn't the one of its kind was accepted")
			case err == nil:
				err = o.same(&b)
			case !(known && right && idOk):
				err = nil
			}
		} else if err == nil {
			err = o.same(&b)
		}
		if err != nil {
			return fmt.Errorf("JSON %s: %v", j, err)
		}
	}
	// generic claims
	in := &merkletree.Entry{Data: want}
	if _, _, err := in.HiHv(); err != nil && inField(&want) {
		return err
	}
	g := claims.NewClaimGeneric(in)
	if err := o.same(g.Metadata()); err != nil {
		return fmt.Errorf("generic claim: %v", err)
	}
	if g.Entry().Data != want {
		return fmt.Errorf("generic claim encoded as %x", g.Entry().Data)
	}
	first := g.Entry()
	if err := hashes(first); err != nil {
		return err
	}
	g.Metadata().RevNonce++
	w := want
	le(w[4][:], uint64(o.nonce+1), 4)
	second := g.Entry()
	if second.Data != w {
		return fmt.Errorf("generic claim with another nonce encoded as %x", second.Data)
	}
	if err := hashes(second); err != nil {
		return fmt.Errorf("generic claim with another nonce: %v", err)
	}
	if in.Data != want || first.Data != want {
		return fmt.Errorf("changing the claim changed the entry it was made from, or an entry it had handed out")
	}
	// hexadecimal
	hx, err := claims.HexToClaimGeneric(claims.ClaimToHex(g))
	if err != nil {
		return err
	}
	if hx.Metadata().RevNonce != o.nonce+1 || hx.Entry().Data != w {
		return fmt.Errorf("a claim goes through its hexadecimal form as %x with nonce %d", hx.Entry().Data, hx.Metadata().RevNonce)
	}
	return nil
}

// hashes compares an entry's hashes with those of its data.
func hashes(e *merkletree.Entry) error {
	hi, hv, err := e.HiHv()
	wi, wv, werr := (&merkletree.Entry{Data: e.Data}).HiHv()
	if (err == nil) != (werr == nil) {
		return fmt.Errorf("hashing: %v, %v", err, werr)
	}
	if err == nil && (*hi != *wi || *hv != *wv) {
		return fmt.Errorf("the entry's hashes are not those of its data")
	}
	return nil
}

// kind is a claim kind with fields given as bits.
type kind struct {
	name   string
	bits   int // of the fields but the nonce
	vbits  int // how many of the first belong to the value
	make   func(bit func(i int) bool, nonce uint32) merkletree.Entrier
	expect func(bit func(i int) bool, nonce uint32) data
	fixed  bool // single bits are no valid contents
}

func fill(b []byte, bit func(i int) bool, from int) {
	for i := 0; i < len(b)*8; i++ {
		if bit(from + i) {
			b[i/8] |= 1 << uint(i%8)
		}
	}
}

// slots spreads bytes over elements of 31 bytes.
func slots(d *data, at int, skip []int, b []byte) {
	n := 0
	for i := 0; i < 4; i++ {
		if skip[i] < 0 {
			continue
		}
		n += copy(d[at+i][skip[i]:31], b[n:])
	}
}

var kinds = []kind{
	{"basic", (claims.ValueSlotLen + claims.IndexSlotLen) * 8, claims.ValueSlotLen * 8, func(bit func(i int) bool, nonce uint32) merkletree.Entrier {
		var v [claims.ValueSlotLen]byte
		var x [claims.IndexSlotLen]byte
		fill(v[:], bit, 0)
		fill(x[:], bit, len(v)*8)
		c := claims.NewClaimBasic(x, v)
		c.Metadata().RevNonce = nonce
		return c
	}, func(bit func(i int) bool, nonce uint32) (d data) {
		var v [120]byte
		var x [112]byte
		fill(v[:], bit, 0)
		fill(x[:], bit, len(v)*8)
		slots(&d, 0, []int{12, 0, 0, 0}, x[:])
		slots(&d, 4, []int{4, 0, 0, 0}, v[:])
		le(d[4][:], uint64(nonce), 4)
		return
	}, false},
	{"other identity", (claims.ValueSlotLen+claims.IndexSubjectSlotLen)*8 + 31*8, claims.ValueSlotLen * 8, func(bit func(i int) bool, nonce uint32) merkletree.Entrier {
		var v [claims.ValueSlotLen]byte
		var x [claims.IndexSubjectSlotLen]byte
		var id core.ID
		fill(v[:], bit, 0)
		fill(x[:], bit, len(v)*8)
		fill(id[:], bit, len(v)*8+len(x)*8)
		c := claims.NewClaimOtherIden(&id, x, v)
		c.Metadata().RevNonce = nonce
		return c
	}, func(bit func(i int) bool, nonce uint32) (d data) {
		var v [120]byte
		var x [81]byte
		var id [31]byte
		fill(v[:], bit, 0)
		fill(x[:], bit, len(v)*8)
		fill(id[:], bit, len(v)*8+len(x)*8)
		slots(&d, 0, []int{12, -1, 0, 0}, x[:])
		slots(&d, 4, []int{4, 0, 0, 0}, v[:])
		d[0][7], d[0][8] = 2, 2
		copy(d[1][:], id[:])
		le(d[4][:], uint64(nonce), 4)
		return
	}, false},
	{"revocation leaf", 64, 32, func(bit func(i int) bool, _ uint32) merkletree.Entrier {
		var b [8]byte
		fill(b[:], bit, 0)
		v := uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24
		n := uint32(b[4]) | uint32(b[5])<<8 | uint32(b[6])<<16 | uint32(b[7])<<24
		return claims.NewLeafRevocationsTree(n, v)
	}, func(bit func(i int) bool, _ uint32) (d data) {
		fill(d[4][:4], bit, 0)
		fill(d[0][:4], bit, 32)
		return
	}, false},
	{"root leaf", 253, 0, func(bit func(i int) bool, _ uint32) merkletree.Entrier {
		var h merkletree.Hash
		for i := 0; i < 253; i++ {
			if bit(i) {
				h[i/8] |= 1 << uint(i%8)
			}
		}
		return claims.NewLeafRootsTree(h)
	}, func(bit func(i int) bool, _ uint32) (d data) {
		for i := 0; i < 253; i++ {
			if bit(i) {
				d[0][i/8] |= 1 << uint(i%8)
			}
		}
		return
	}, false},
	{"key", 64 + 2*253, 0, func(bit func(i int) bool, nonce uint32) merkletree.Entrier {
		t, x, y := keyFields(bit)
		c := claims.NewClaimKeyBabyJub(&babyjub.PublicKey{X: x, Y: y}, claims.BabyJubKeyType(t))
		c.Metadata().RevNonce = nonce
		return c
	}, func(bit func(i int) bool, nonce uint32) (d data) {
		t, x, y := keyFields(bit)
		for i := 0; i < 8; i++ {
			d[1][7-i] = byte(t >> (8 * uint(i)))
		}
		for k, n := range []*big.Int{x, y} {
			b := n.Bytes()
			for i := range b {
				d[2+k][len(b)-1-i] = b[i]
			}
		}
		d[0][7] = 1
		le(d[4][:], uint64(nonce), 4)
		return
	}, false},
}

func keyFields(bit func(i int) bool) (t uint64, x, y *big.Int) {
	x, y = new(big.Int), new(big.Int)
	for i := 0; i < 64; i++ {
		if bit(i) {
			t |= 1 << uint(i)
		}
	}
	for i := 0; i < 253; i++ {
		if bit(64 + i) {
			x.SetBit(x, i, 1)
		}
		if bit(64 + 253 + i) {
			y.SetBit(y, i, 1)
		}
	}
	return
}

// one checks a claim of a kind.
func (k *kind) one(bit func(i int) bool, nonce uint32) (data, error) {
	c := k.make(bit, nonce)
	want := k.expect(bit, nonce)
	e := c.Entry()
	if e.Data != want {
		return want, fmt.Errorf("encoded as %x, not %x", e.Data, want)
	}
	if merkletree.CheckEntryInField(*e) != inField(&want) {
		return want, fmt.Errorf("field check")
	}
	if !inField(&want) {
		return want, fmt.Errorf("an element is outside the field: %x", want)
	}
	var back merkletree.Entrier
	switch k.name {
	case "revocation leaf":
		back = claims.NewLeafRevocationsTreeFromEntry(e)
	case "root leaf":
		back = claims.NewLeafRootsTreeFromEntry(e)
	default:
		var err error
		back, err = claims.NewClaimFromEntry(e)
		if err != nil {
			return want, err
		}
	}
	if e.Data != want {
		return want, fmt.Errorf("decoding changed the entry")
	}
	if fmt.Sprintf("%#v", deref(back)) != fmt.Sprintf("%#v", deref(c)) {
		return want, fmt.Errorf("decoded as %#v, not %#v", deref(back), deref(c))
	}
	if back.Entry().Data != want {
		return want, fmt.Errorf("encoded again as %x", back.Entry().Data)
	}
	var cl claims.Claimer
	if x, ok := back.(claims.Claimer); ok {
		cl = x
		cl.Metadata().RevNonce = nonce + 1
		w := want
		le(w[4][:], uint64(nonce+1), 4)
		if back.Entry().Data != w {
			return want, fmt.Errorf("with another nonce encoded as %x", back.Entry().Data)
		}
	}
	return want, nil
}

// deref shows a claim's fields, following the pointers in it.
func deref(c merkletree.Entrier) interface{} {
	switch x := c.(type) {
	case *claims.ClaimBasic:
		m := *x.Metadata()
		return []interface{}{m.Header(), m.Subject == nil, m.Expiration, m.Version, m.RevNonce, x.IndexSlot, x.ValueSlot}
	case *claims.ClaimOtherIden:
		m := *x.Metadata()
		return []interface{}{m.Header(), *m.Subject, m.Expiration, m.Version, m.RevNonce, x.IndexSlot, x.ValueSlot}
	case *claims.ClaimKeyBabyJub:
		m := *x.Metadata()
		return []interface{}{m.Header(), m.Subject == nil, m.Expiration, m.Version, m.RevNonce, x.KeyType, x.Ax.String(), x.Ay.String()}
	}
	return fmt.Sprintf("%+v", c)
}

// decode tries all decoders on an entry; what is decoded, encoded and decoded
// again stays the same.
func decode(d data) error {
	e := &merkletree.Entry{Data: d}
	if (merkletree.CheckEntryInField(*e)) != inField(&d) {
		return fmt.Errorf("field check")
	}
	var m claims.Metadata
	m.Unmarshal(e)
	if e.Data != d {
		return fmt.Errorf("reading metadata changed the entry")
	}
	m.Marshal(e)
	w := d
	w[0][8] &= 0x1f // the flags in use
	if e.Data != w {
		return fmt.Errorf("rewriting the metadata gives %x", e.Data)
	}
	e = &merkletree.Entry{Data: d}
	g := claims.NewClaimGeneric(e)
	if g.Entry().Data != w {
		return fmt.Errorf("generic claim encoded as %x", g.Entry().Data)
	}
	if _, err := json.Marshal(m); err != nil && m.Header().Subject != 3 {
		return err
	}
	e = &merkletree.Entry{Data: d}
	c, err := claims.NewClaimFromEntry(e)
	var known bool
	for i := uint64(0); i < 3; i++ {
		t := claims.NewClaimTypeNum(i)
		known = known || string(d[0][:8]) == string(t[:])
	}
	if (err == nil) != (known && inField(&d)) {
		return fmt.Errorf("decoding: %v", err)
	}
	if err == nil {
		x := c.Entry().Data
		c2, err := claims.NewClaimFromEntry(&merkletree.Entry{Data: x})
		if err != nil {
			return fmt.Errorf("decoding what was encoded: %v", err)
		}
		if c2.Entry().Data != x {
			return fmt.Errorf("decoded and encoded twice: %x, %x", x, c2.Entry().Data)
		}
		if cl, ok := c2.(claims.Claimer); ok {
			if cl.Metadata().RevNonce != claims.GetRevocationNonce(&merkletree.Entry{Data: d}) {
				return fmt.Errorf("nonce %d", cl.Metadata().RevNonce)
			}
		}
	}
	_ = claims.NewLeafRootsTreeFromEntry(&merkletree.Entry{Data: d}).Entry()
	_ = claims.NewLeafRevocationsTreeFromEntry(&merkletree.Entry{Data: d}).Entry()
	return nil
}

func main() {
	mcx.Main("C19", "exploration", func(c *mcx.Ctx) {
		c.Rule("all combinations of metadata options and boundary values over three contents: encoding against an independent one, decoding, rewriting, JSON, hexadecimal, generic claims; every claim kind with every single bit and pair of bits of its fields set (and cleared), all encodings distinct, index and value bits kept apart; all flag bytes, types and out-of-field patterns decoded; all one-place mutations of metadata JSON")
		os, cs := allOpts(), contents()
		c.Each("metadata", len(os)*len(cs), func(i int) string { return fmt.Sprintf("%+v over %d", os[i%len(os)], i/len(os)) }, func(i int) error {
			return md(os[i%len(os)], cs[i/len(os)])
		})
		for ki := range kinds {
			k := &kinds[ki]
			type pat struct {
				a, b  int
				neg   bool
				nonce uint32
			}
			var ps []pat
			for a := -1; a < k.bits; a++ {
				for _, neg := range []bool{false, true} {
					if neg && (k.name == "key" || k.name == "root leaf") && a == -1 {
						continue
					}
					for _, n := range []uint32{0, 1, 0x04030201, math.MaxUint32} {
						ps = append(ps, pat{a, -1, neg, n})
					}
				}
				if c.Thorough() || k.bits < 300 {
					for b := 0; b < a; b++ {
						ps = append(ps, pat{a, b, false, 0})
					}
				}
			}
			skip := func(p pat) bool { return false }
			if k.name == "key" || k.name == "root leaf" {
				// all bits set would be outside the field: clear the top
				skip = func(p pat) bool { return false }
			}
			bitOf := func(p pat) func(i int) bool {
				return func(i int) bool {
					v := i == p.a || i == p.b
					if p.neg {
						v = !v
						if k.name == "root leaf" && i == 252 || k.name == "key" && i >= 64 && (i-64)%253 == 252 {
							v = false
						}
					}
					return v
				}
			}
			c.Each("kind "+k.name, len(ps), func(i int) string { return fmt.Sprintf("%+v", ps[i]) }, func(i int) error {
				if skip(ps[i]) {
					return nil
				}
				_, err := k.one(bitOf(ps[i]), ps[i].nonce)
				return err
			})
			c.Case("distinct", k.name, func() error {
				seen := map[data]string{}
				base := k.make(bitOf(pat{-1, -1, false, 0}), 0).Entry().Data
				for _, p := range ps {
					if p.neg || p.b >= 0 && p.nonce != 0 {
						continue
					}
					d := k.make(bitOf(p), p.nonce).Entry().Data
					n := fmt.Sprintf("%+v", p)
					if k.name == "revocation leaf" || k.name == "root leaf" {
						n = fmt.Sprintf("%d %d", p.a, p.b)
					}
					if o, dup := seen[d]; dup && o != n {
						return fmt.Errorf("%s and %s have the same entry", o, n)
					}
					seen[d] = n
					if p.b < 0 && p.a >= 0 && p.nonce == 0 {
						isV := p.a < k.vbits
						for i := 0; i < 8; i++ {
							if d[i] != base[i] && (i >= 4) != isV {
								return fmt.Errorf("bit %d changes element %d", p.a, i)
							}
						}
					}
				}
				c.AddStates(len(seen))
				return nil
			})
		}
		var ds []data
		for t := uint64(0); t < 5; t++ {
			for f := 0; f < 256; f++ {
				for _, base := range contents() {
					typ := claims.NewClaimTypeNum(t)
					copy(base[0][:8], typ[:])
					base[0][8] = byte(f)
					ds = append(ds, base)
					for el := 0; el < 8; el++ { // outside the field, and at its edge
						x := base
						for j := range x[el] {
							x[el][j] = 0xff
						}
						if el == 0 {
							copy(x[0][:8], typ[:])
							x[0][8] = byte(f)
						}
						ds = append(ds, x)
						x = base
						x[el][31] = 0x30
						ds = append(ds, x)
						x[el][31] = 0x31
						ds = append(ds, x)
					}
				}
			}
		}
		for pos := 0; pos < 256; pos++ {
			for bit := uint(0); bit < 8; bit++ {
				for t := uint64(0); t < 4; t++ {
					var x data
					typ := claims.NewClaimTypeNum(t)
					copy(x[0][:8], typ[:])
					x[pos/32][pos%32] ^= 1 << bit
					ds = append(ds, x)
				}
			}
		}
		c.Each("entries", len(ds), func(i int) string { return fmt.Sprintf("%x", ds[i]) }, func(i int) error { return decode(ds[i]) })
		for oi, o := range []opts{{typ: claims.NewClaimTypeNum(7), subj: claims.ClaimSubjectOtherIden, id: theID, exp: true, at: 5, ver: true, version: 3},
			{typ: claims.NewClaimTypeNum(2), subj: claims.ClaimSubjectOtherIden, id: theID}, {typ: claims.NewClaimTypeNum(0)},
			{typ: claims.NewClaimTypeNum(8), subj: claims.ClaimSubjectObject, pos: 1, id: theID, nonce: 9}} {
			m := o.md()
			ms, err := idw.Mutations(m, []interface{}{(&opts{typ: claims.NewClaimTypeNum(1), subj: claims.ClaimSubjectObject, pos: 1, id: core.NewID([2]byte{}, [27]byte{9}), exp: true, at: math.MinInt64}).md()})
			if err != nil {
				panic(err)
			}
			c.Each(fmt.Sprintf("metadata JSON %d", oi), len(ms), func(i int) string { return ms[i].Name }, func(i int) error {
				for k := 0; k < 2; k++ {
					var b claims.Metadata
					if k == 1 {
						b = (&opts{typ: claims.NewClaimTypeNum(9), subj: claims.ClaimSubjectObject, id: theID, exp: true, at: 77, ver: true, version: 5, nonce: 4}).md()
					}
					if json.Unmarshal(ms[i].Doc, &b) != nil {
						continue
					}
					// what is accepted can be encoded, and reads back
					e := &merkletree.Entry{}
					b.Marshal(e)
					var b2 claims.Metadata
					b2.Unmarshal(e)
					j1, err1 := json.Marshal(b)
					j2, err2 := json.Marshal(b2)
					if err1 != nil || err2 != nil || string(j1) != string(j2) {
						return fmt.Errorf("%s %v, through an entry %s %v", j1, err1, j2, err2)
					}
				}
				return nil
			})
		}
		// texts of types, subjects and positions
		var ts []string
		for _, a := range []string{"", "str:", "hex:", "str", "hex", "Str:", "str:str:", "hex:0x", "hex:hex:"} {
			for _, b := range []string{"", "Basic", "KeyBabyJub", "OtherIden", "basic", "Self", "Object", "Index", "Value", "0", "0000000000000000", "0000000000000001", "0102030405060708", "010203040506070", "01020304050607080", "010203040506070809", "zz02030405060708", "ffffffffffffffff", "FFFFFFFFFFFFFFFF", "0x02030405060708"} {
				ts = append(ts, a+b)
			}
		}
		c.Each("texts", len(ts), func(i int) string { return ts[i] }, func(i int) error {
			s := ts[i]
			var t claims.ClaimType
			if t.UnmarshalText([]byte(s)) == nil {
				x, err := t.MarshalText()
				var t2 claims.ClaimType
				if err == nil {
					err = t2.UnmarshalText(x)
				}
				if err != nil || t2 != t {
					return fmt.Errorf("type %x has text %q, which is read as %x %v", t, x, t2, err)
				}
			}
			var cs claims.ClaimSubject
			if err := cs.UnmarshalText([]byte(s)); (err == nil) != (s == "Self" || s == "OtherIden" || s == "Object") {
				return fmt.Errorf("subject: %v", err)
			} else if err == nil {
				if x, err := cs.MarshalText(); err != nil || string(x) != s {
					return fmt.Errorf("subject %q %v", x, err)
				}
			}
			var cp claims.ClaimSubjectPos
			if err := cp.UnmarshalText([]byte(s)); (err == nil) != (s == "Index" || s == "Value") {
				return fmt.Errorf("position: %v", err)
			} else if err == nil {
				if x, err := cp.MarshalText(); err != nil || string(x) != s {
					return fmt.Errorf("position %q %v", x, err)
				}
			}
			g, err := claims.HexToClaimGeneric(s)
			if err == nil {
				return fmt.Errorf("taken as a claim: %x", g.Entry().Data)
			}
			return nil
		})
		c.Case("types", "all bytes", func() error {
			for i := 0; i < 8; i++ {
				for v := 0; v < 256; v++ {
					var t, t2 claims.ClaimType
					t[i] = byte(v)
					x, err := t.MarshalText()
					if err == nil {
						err = t2.UnmarshalText(x)
					}
					if err != nil || t2 != t {
						return fmt.Errorf("type %x: %q %x %v", t, x, t2, err)
					}
					if n := claims.NewClaimTypeNum(uint64(v) << (8 * uint(7-i))); n != t {
						return fmt.Errorf("type number %x: %x", t, n)
					}
				}
			}
			return nil
		})
		c.Case("hexadecimal", "lengths", func() error {
			full := ""
			for i := 0; i < 256; i++ {
				full += fmt.Sprintf("%02x", byte(i%31))
			}
			full += "0102"
			for l := 0; l <= len(full); l++ {
				for _, p := range []string{"", "0x"} {
					g, err := claims.HexToClaimGeneric(p + full[:l])
					if (err == nil) != (l == 512) {
						return fmt.Errorf("%d digits: %v", l, err)
					}
					if err == nil && fmt.Sprintf("%x", g.Entry().Bytes()) != full[:l] {
						d := g.Entry().Bytes()
						w := []byte{}
						fmt.Sscanf(full[:l], "%x", &w)
						w[8] &= 0x1f
						if string(d) != string(w) {
							return fmt.Errorf("read as %x", d)
						}
					}
				}
			}
			gs, err := claims.HexArrayToClaimGenericArray([]string{full[:512], "0x" + full[:512]})
			if err != nil || len(gs) != 2 {
				return fmt.Errorf("array: %v", err)
			}
			hs := claims.ClaimArrayToHexArray([]merkletree.Entrier{&gs[0], &gs[1]})
			if len(hs) != 2 || hs[0] != hs[1] {
				return fmt.Errorf("array: %v", hs)
			}
			if _, err := claims.HexArrayToClaimGenericArray([]string{full[:512], "zz"}); err == nil {
				return fmt.Errorf("a bad claim in an array was accepted")
			}
			return nil
		})
	})
}
