// C29: encoding helpers are exact inverses and total on hostile text.
package main

import (
	"encoding/json"
	"fmt"
	"math/big"

	"github.com/iden3/go-iden3-core/common"
	"github.com/iden3/go-iden3-core/crypto"
	"github.com/iden3/go-iden3-core/merkletree"
	"verif/mc/mcx"
)

// refHex decodes hexadecimal digits.
func refHex(s string) ([]byte, bool) {
	if len(s)%2 != 0 {
		return nil, false
	}
	r := []byte{}
	for i := 0; i < len(s); i++ {
		c := s[i]
		var v byte
		switch {
		case c >= '0' && c <= '9':
			v = c - '0'
		case c >= 'a' && c <= 'f':
			v = c - 'a' + 10
		case c >= 'A' && c <= 'F':
			v = c - 'A' + 10
		default:
			return nil, false
		}
		if i%2 == 0 {
			r = append(r, v<<4)
		} else {
			r[len(r)-1] |= v
		}
	}
	return r, true
}

// ref0x decodes with an optional prefix.
func ref0x(s string) ([]byte, bool) {
	if len(s) >= 2 && s[:2] == "0x" {
		s = s[2:]
	}
	return refHex(s)
}

const digits = "0123456789abcdef"

func refEnc(b []byte) string {
	s := ""
	for _, x := range b {
		s += string(digits[x>>4]) + string(digits[x&15])
	}
	return s
}

const b64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"

// refB64 decodes base64; canonical tells whether it is exactly what an
// encoder writes (with padding or without), open that lenient decoders
// may take it (line breaks, stray bits).
func refB64(s string, padding bool) (r []byte, canonical, open bool) {
	t := ""
	for i := 0; i < len(s); i++ {
		if s[i] == '\n' || s[i] == '\r' {
			open = true
			continue
		}
		t += string(s[i])
	}
	pads := 0
	for len(t) > 0 && t[len(t)-1] == '=' {
		t = t[:len(t)-1]
		pads++
	}
	var acc uint32
	bits := uint(0)
	r = []byte{}
	for i := 0; i < len(t); i++ {
		v := -1
		for k := range b64 {
			if b64[k] == t[i] {
				v = k
			}
		}
		if v < 0 {
			return nil, false, false
		}
		acc = acc<<6 | uint32(v)
		bits += 6
		if bits >= 8 {
			bits -= 8
			r = append(r, byte(acc>>bits))
			acc &= 1<<bits - 1
		}
	}
	if len(t)%4 == 1 {
		return nil, false, false
	}
	want := (4 - len(t)%4) % 4
	if !(padding && pads == want || !padding && pads == 0) {
		return nil, false, false
	}
	if acc != 0 {
		open = true
	}
	return r, !open, open
}

func eq(a, b []byte) bool { return string(a) == string(b) }

// text tries every text decoder on a string.
func text(s string) error {
	w, ok := ref0x(s)
	g, err := common.HexDecode(s)
	if (err == nil) != ok || ok && !eq(g, w) {
		return fmt.Errorf("HexDecode(%q) = %x, %v; want %x %v", s, g, err, w, ok)
	}
	for n := 0; n <= 4; n++ {
		// the target lies inside a larger array
		buf := []byte{0xa5, 0xa5, 0xa5, 0xa5, 0xa5, 0xa5, 0xa5, 0xa5}
		in := []byte(s)
		err := common.HexDecodeInto(buf[2:2+n], in)
		if (err == nil) != (ok && len(w) == n) {
			return fmt.Errorf("HexDecodeInto(%d, %q): %v", n, s, err)
		}
		if err == nil && !eq(buf[2:2+n], w) {
			return fmt.Errorf("HexDecodeInto(%d, %q) = %x", n, s, buf[2:2+n])
		}
		for i, x := range buf {
			if (i < 2 || i >= 2+n) && x != 0xa5 {
				return fmt.Errorf("HexDecodeInto(%d, %q) wrote outside its target", n, s)
			}
		}
		if string(in) != s {
			return fmt.Errorf("HexDecodeInto changed its input")
		}
		j, _ := json.Marshal(s)
		var js string
		if err := json.Unmarshal(j, &js); err != nil {
			return err
		}
		jw, jok := ref0x(js)
		buf2 := make([]byte, n)
		err = common.UnmarshalJSONHexDecodeInto(buf2, j)
		if (err == nil) != (jok && len(jw) == n) || err == nil && !eq(buf2, jw) {
			return fmt.Errorf("UnmarshalJSONHexDecodeInto(%d, %q) = %x %v", n, s, buf2, err)
		}
		if n == 0 {
			g, err := common.UnmarshalJSONHexDecode(j)
			if (err == nil) != jok || err == nil && !eq(g, jw) {
				return fmt.Errorf("UnmarshalJSONHexDecode(%q) = %x %v", s, g, err)
			}
		}
	}
	w, ok = refHex(s)
	for _, start := range []common.Hex{nil, {1, 2, 3, 4, 5, 6, 7}} {
		h := append(common.Hex{}, start...)
		err = h.UnmarshalText([]byte(s))
		if (err == nil) != ok || ok && !eq(h, w) {
			return fmt.Errorf("Hex.UnmarshalText(%q) = %x, %v; want %x %v", s, []byte(h), err, w, ok)
		}
	}
	// base64
	rp, cp, op := refB64(s, true)
	rr, cr, or := refB64(s, false)
	g, err = common.Base64ToBytes(s)
	if cp && (err != nil || !eq(g, rp)) || err == nil && !cp && !op || err == nil && !eq(g, rp) {
		return fmt.Errorf("Base64ToBytes(%q) = %x %v", s, g, err)
	}
	g, err = common.Base64Decode(s)
	if (cp && !eq(g, rp) || cr && !eq(g, rr) || cp || cr) && err != nil || err == nil && !cp && !cr && !op && !or {
		return fmt.Errorf("Base64Decode(%q) = %x %v", s, g, err)
	}
	if err == nil {
		w := rp
		if w == nil {
			w = rr
		}
		if !eq(g, w) {
			return fmt.Errorf("Base64Decode(%q) = %x, not %x", s, g, w)
		}
	}
	// raw documents
	_ = common.UnmarshalJSONHexDecodeInto(make([]byte, 2), []byte(s))
	_, _ = common.UnmarshalJSONHexDecode([]byte(s))
	var h merkletree.Hash
	if h.UnmarshalText([]byte(s)) == nil {
		return fmt.Errorf("%q taken as a hash", s)
	}
	var d merkletree.Data
	if d.UnmarshalText([]byte(s)) == nil {
		return fmt.Errorf("%q taken as data", s)
	}
	var e merkletree.Entry
	if e.UnmarshalText([]byte(s)) == nil {
		return fmt.Errorf("%q taken as an entry", s)
	}
	j, _ := json.Marshal(s)
	var sg crypto.Signature
	if sg.UnmarshalJSON(j) == nil || sg.UnmarshalJSON([]byte(s)) == nil {
		return fmt.Errorf("%q taken as a signature", s)
	}
	var sm crypto.SignatureEthMsg
	if sm.UnmarshalJSON(j) == nil || sm.UnmarshalJSON([]byte(s)) == nil {
		return fmt.Errorf("%q taken as a signature", s)
	}
	var pk crypto.PublicKey
	if pk.UnmarshalJSON(j) == nil || pk.UnmarshalJSON([]byte(s)) == nil {
		return fmt.Errorf("%q taken as a public key", s)
	}
	return nil
}

// inverse encodes bytes with everything and decodes them again.
func inverse(b []byte) error {
	in := append([]byte{}, b...)
	h := common.HexEncode(b)
	if h != "0x"+refEnc(b) {
		return fmt.Errorf("HexEncode(%x) = %q", b, h)
	}
	if g, err := common.HexDecode(h); err != nil || !eq(g, b) {
		return fmt.Errorf("HexDecode(%q) = %x %v", h, g, err)
	}
	d := make([]byte, len(b))
	if err := common.HexDecodeInto(d, []byte(h)); err != nil || !eq(d, b) {
		return fmt.Errorf("HexDecodeInto(%q) = %x %v", h, d, err)
	}
	x := common.Hex(b)
	m, err := x.MarshalText()
	if err != nil || string(m) != refEnc(b) || x.String() != refEnc(b) {
		return fmt.Errorf("Hex(%x) = %q %q", b, m, x.String())
	}
	var y common.Hex
	if err := y.UnmarshalText(m); err != nil || !eq(y, b) {
		return fmt.Errorf("Hex.UnmarshalText(%q) = %x %v", m, []byte(y), err)
	}
	s := common.BytesToBase64(b)
	r, canon, _ := refB64(s, true)
	if !canon || !eq(r, b) {
		return fmt.Errorf("BytesToBase64(%x) = %q", b, s)
	}
	for k := 0; k < 3; k++ {
		if g, err := common.Base64Decode(s); err != nil || !eq(g, b) {
			return fmt.Errorf("Base64Decode(%q) = %x %v", s, g, err)
		}
		if k == 0 {
			if g, err := common.Base64ToBytes(s); err != nil || !eq(g, b) {
				return fmt.Errorf("Base64ToBytes(%q) = %x %v", s, g, err)
			}
		}
		for len(s) > 0 && s[len(s)-1] == '=' {
			s = s[:len(s)-1]
		}
	}
	w := common.SwapEndianness(b)
	for i := range b {
		if w[len(b)-1-i] != b[i] {
			return fmt.Errorf("SwapEndianness(%x) = %x", b, w)
		}
	}
	if len(w) != len(b) || !eq(common.SwapEndianness(w), b) {
		return fmt.Errorf("SwapEndianness(%x) = %x", b, w)
	}
	for i := range w {
		w[i] ^= 0xff
	}
	if !eq(b, in) {
		return fmt.Errorf("the input was changed")
	}
	// as the low bytes of hashes and elements
	if len(b) <= 32 {
		var el merkletree.ElemBytes
		copy(el[:], b)
		n := new(big.Int)
		for k := len(b) - 1; k >= 0; k-- {
			n.Lsh(n, 8).Add(n, big.NewInt(int64(b[k])))
		}
		if el.BigInt().Cmp(n) != 0 {
			return fmt.Errorf("integer of %x is %v", b, el.BigInt())
		}
		if got := merkletree.NewElemBytesFromBigInt(n); got != el {
			return fmt.Errorf("%v as an element is %x", n, got)
		}
		hh := merkletree.Hash(el)
		if got := merkletree.NewHashFromBigInt(n); *got != hh || hh.BigInt().Cmp(n) != 0 {
			return fmt.Errorf("%v as a hash is %x", n, *got)
		}
		t, err := hh.MarshalText()
		if err != nil || string(t) != "0x"+refEnc(el[:]) || hh.Hex() != string(t) || !eq(hh.Bytes(), el[:]) {
			return fmt.Errorf("text of %x is %q", el, t)
		}
		var back merkletree.Hash
		back[0] = 0x77
		if err := back.UnmarshalText(t); err != nil || back != hh || merkletree.HexStringToHash(string(t)) != hh || !back.Equals(&hh) {
			return fmt.Errorf("%q read back as %x %v", t, back, err)
		}
		var data merkletree.Data
		for k := range data {
			data[k] = el
			data[k][31-k] ^= 0x11
		}
		bb := data.Bytes()
		if *merkletree.NewDataFromBytes(bb) != data || !eq(merkletree.ElemsBytesToBytes(data[:]), bb[:]) {
			return fmt.Errorf("data of %x", b)
		}
		t, err = data.MarshalText()
		if err != nil || string(t) != "0x"+refEnc(bb[:]) {
			return fmt.Errorf("text of data is %q", t)
		}
		e := merkletree.Entry{Data: data}
		if t2, err := e.MarshalText(); err != nil || !eq(t, t2) || !eq(e.Bytes(), bb[:]) {
			return fmt.Errorf("text of an entry is %q", t2)
		}
		var e2 merkletree.Entry
		if err := e2.UnmarshalText(t); err != nil || e2.Data != data || !e2.Equal(&e) {
			return fmt.Errorf("an entry is read back as %x %v", e2.Data, err)
		}
		e3, err := merkletree.NewEntryFromBytes(bb[:])
		if err != nil || e3.Data != data {
			return fmt.Errorf("an entry is read back as %x %v", e2.Data, err)
		}
		e4 := e.Clone()
		if e4.Data != data {
			return fmt.Errorf("a clone is %x", e4.Data)
		}
		e4.Data[0][0] ^= 1
		if e.Data != data {
			return fmt.Errorf("a clone shares memory")
		}
	}
	return nil
}

// fixed tries the fixed-length texts at all lengths and corruptions.
func fixed(n int, dec func(text []byte) ([]byte, error), prefix string) error {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*29 + 3)
	}
	good := refEnc(b)
	for _, p := range []string{"", "0x"} {
		if g, err := dec([]byte(p + good)); err != nil || !eq(g, b) {
			return fmt.Errorf("%q%s...: %x %v", p, good[:4], g, err)
		}
		for l := 0; l < 2*n+4; l++ {
			s := good + "abcd"
			if l == 2*n {
				continue
			}
			if g, err := dec([]byte(p + s[:l])); err == nil {
				return fmt.Errorf("length %d with prefix %q accepted as %x", l, p, g)
			}
		}
		for pos := 0; pos < 2*n; pos++ {
			for _, ch := range []string{"g", "G", " ", "\x00", "-", "x", "\xff", "é", "", "A", "F"} {
				s := good[:pos] + ch + good[pos+1:]
				w, ok := refHex(s)
				g, err := dec([]byte(p + s))
				if (err == nil) != (ok && len(w) == n) || err == nil && !eq(g, w) {
					return fmt.Errorf("character %q at %d: %x %v", ch, pos, g, err)
				}
			}
		}
	}
	for _, s := range []string{"0X" + good, "0x0x" + good, " " + good, good + " ", good + "\n", "0x", ""} {
		if g, err := dec([]byte(s)); err == nil {
			return fmt.Errorf("%.10q... accepted as %x", s, g)
		}
	}
	return nil
}

// number checks one element of an entry that was made out of a number.
func number(e merkletree.ElemBytes, n *big.Int, what string) error {
	if n.Sign() < 0 {
		return nil // left open
	}
	var want merkletree.ElemBytes
	fits := len(n.Bytes()) <= 32
	x := new(big.Int).Set(n)
	for i := range want {
		want[i] = byte(new(big.Int).And(x, big.NewInt(255)).Int64())
		x.Rsh(x, 8)
	}
	if fits && e == want {
		return nil
	}
	var known merkletree.ElemBytes
	copy(known[:], n.Bytes())
	if e == known && n.BitLen() > 8 {
		return mcx.Sigf("entries: most significant byte first", "%s: %#x is written as %x, which is the number %#x", what, n, e, e.BigInt())
	}
	return fmt.Errorf("%s: %#x is written as %x", what, n, e)
}

// entries builds entries out of integers, big integers and hexadecimal text,
// with the numbers a and b at the places i and j.
func entries(a, b *big.Int, i, j int) error {
	var ns [8]*big.Int
	var hs [8]string
	var is [8]int64
	small := true
	for k := range ns {
		ns[k] = big.NewInt(int64(k))
		if k == i {
			ns[k] = a
		}
		if k == j {
			ns[k] = b
		}
		small = small && ns[k].IsInt64()
		is[k] = ns[k].Int64()
		hs[k] = "0x" + refEnc(ns[k].Bytes())
		if k%2 == 1 {
			hs[k] = refEnc(ns[k].Bytes())
		}
	}
	var first error
	all := func(d merkletree.Data, what string) {
		for k := range d {
			err := number(d[k], ns[k], fmt.Sprintf("%s, element %d", what, k))
			if _, known := err.(*mcx.SigError); err != nil && (first == nil || !known) {
				first = err
			}
		}
	}
	keep := [2]string{a.String(), b.String()}
	all(merkletree.BigIntsToData(ns[0], ns[1], ns[2], ns[3], ns[4], ns[5], ns[6], ns[7]), "BigIntsToData")
	if keep != [2]string{a.String(), b.String()} {
		return fmt.Errorf("BigIntsToData changed its input")
	}
	if small {
		all(merkletree.IntsToData(is[0], is[1], is[2], is[3], is[4], is[5], is[6], is[7]), "IntsToData")
		all(merkletree.IntArrayToData(is[:]), "IntArrayToData")
		all(merkletree.NewEntryFromInts(is[0], is[1], is[2], is[3], is[4], is[5], is[6], is[7]).Data, "NewEntryFromInts")
		all(merkletree.NewEntryFromIntArray(is[:]).Data, "NewEntryFromIntArray")
	}
	if a.Sign() >= 0 && b.Sign() >= 0 {
		d, err := merkletree.HexsToData(hs[0], hs[1], hs[2], hs[3], hs[4], hs[5], hs[6], hs[7])
		if err != nil {
			return err
		}
		all(d, "HexsToData")
		e, err := merkletree.NewEntryFromHexs(hs[0], hs[1], hs[2], hs[3], hs[4], hs[5], hs[6], hs[7])
		if err != nil {
			return err
		}
		all(e.Data, "NewEntryFromHexs")
		for _, bad := range []string{"0", "0x0", "zz", hs[i] + "g", hs[i] + "0", "0X00", " 00", "-1"} {
			t := hs
			t[i] = bad
			if _, err := merkletree.NewEntryFromHexs(t[0], t[1], t[2], t[3], t[4], t[5], t[6], t[7]); err == nil {
				return fmt.Errorf("NewEntryFromHexs takes %q", bad)
			}
		}
	}
	return first
}

// curve is the independent secp256k1: y² = x³ + 7 mod p.
var curveP, _ = new(big.Int).SetString("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", 16)

func lift(x *big.Int, odd bool) (*big.Int, bool) {
	if x.Sign() < 0 || x.Cmp(curveP) >= 0 {
		return nil, false
	}
	r := new(big.Int).Exp(x, big.NewInt(3), curveP)
	r.Add(r, big.NewInt(7)).Mod(r, curveP)
	y := new(big.Int).Exp(r, new(big.Int).Rsh(new(big.Int).Add(curveP, big.NewInt(1)), 2), curveP)
	if new(big.Int).Exp(y, big.NewInt(2), curveP).Cmp(r) != 0 {
		return nil, false
	}
	if (y.Bit(0) == 1) != odd {
		y.Sub(curveP, y)
	}
	return y, true
}

// publicKey reads a text as a public key and compares with the curve.
func publicKey(text string) error {
	var pk crypto.PublicKey
	pk.X, pk.Y = big.NewInt(5), big.NewInt(6)
	j, _ := json.Marshal(text)
	err := pk.UnmarshalJSON(j)
	b, ok := ref0x(text)
	var y *big.Int
	if ok = ok && len(b) == 33 && (b[0] == 2 || b[0] == 3); ok {
		y, ok = lift(new(big.Int).SetBytes(b[1:]), b[0] == 3)
	}
	if (err == nil) != ok {
		return fmt.Errorf("public key %s: %v", text, err)
	}
	if !ok {
		if pk.X.Cmp(big.NewInt(5)) != 0 || pk.Y.Cmp(big.NewInt(6)) != 0 {
			return fmt.Errorf("the key is changed although %s isn't one", text)
		}
		return nil
	}
	if pk.X.Cmp(new(big.Int).SetBytes(b[1:])) != 0 || pk.Y.Cmp(y) != 0 || pk.Curve == nil || !pk.Curve.IsOnCurve(pk.X, pk.Y) {
		return fmt.Errorf("public key %s is read as %x %x", text, pk.X, pk.Y)
	}
	o, err := json.Marshal(pk)
	if err != nil || string(o) != `"0x`+refEnc(b)+`"` {
		return fmt.Errorf("public key %s is written as %s %v", text, o, err)
	}
	o, err = json.Marshal(&pk)
	if err != nil || string(o) != `"0x`+refEnc(b)+`"` {
		return fmt.Errorf("public key %s is written as %s %v", text, o, err)
	}
	return nil
}

func main() {
	mcx.Main("C29", "exploration", func(c *mcx.Ctx) {
		c.Rule("all strings up to a length over a hostile alphabet through every decoder against independent ones; all byte strings up to a length (and patterned longer ones) through every encoder and back; fixed-length texts at every length and with every character replaced; all integers of 16 bits and boundary values of 32 and 64 bits; all bits of bitmaps up to a length")
		c.Assume("base64 text with line breaks or stray bits in the last character is left to the standard library; JSON null is left open")
		sig := []string{"0", "9", "a", "F", "x", "g", "=", "A", "\n", "/", "\xff", "\""}
		var all []string
		level := []string{""}
		all = append(all, "")
		for l := 0; l < c.Pick(4, 5); l++ {
			var next []string
			for _, s := range level {
				for _, ch := range sig {
					next = append(next, s+ch)
				}
			}
			all = append(all, next...)
			level = next
		}
		level = []string{""}
		for l := 0; l < c.Pick(8, 10); l++ { // deeper, few characters
			var next []string
			for _, s := range level {
				for _, ch := range []string{"Q", "=", "b"} {
					next = append(next, s+ch)
				}
			}
			all = append(all, next...)
			level = next
		}
		for _, s := range append([]string{}, all[:200]...) {
			all = append(all, "0x"+s)
		}
		c.Each("texts", len(all), func(i int) string { return fmt.Sprintf("%q", all[i]) }, func(i int) error { return text(all[i]) })
		var bs [][]byte
		bs = append(bs, []byte{})
		for a := 0; a < 256; a++ {
			bs = append(bs, []byte{byte(a)})
			for b := 0; b < 256; b++ {
				bs = append(bs, []byte{byte(a), byte(b)})
			}
		}
		vals := []byte{0, 1, 0x3f, 0x40, 0x7f, 0x80, 0xfb, 0xff}
		for i := 0; i < 8*8*8*8; i++ {
			x := []byte{vals[i&7], vals[i>>3&7], vals[i>>6&7], vals[i>>9&7]}
			bs = append(bs, x[:3], x)
		}
		for n := 5; n < 70; n++ {
			for _, v := range vals {
				x, y := make([]byte, n), make([]byte, n)
				for i := range x {
					x[i], y[i] = v, byte(i)*v+byte(n)
				}
				z := append([]byte{}, x...)
				z[0], z[n-1] = ^v, v^1
				bs = append(bs, x, y, z)
			}
		}
		c.Each("bytes", len(bs), func(i int) string { return fmt.Sprintf("%x", bs[i]) }, func(i int) error { return inverse(bs[i]) })
		type fx struct {
			n   string
			l   int
			dec func([]byte) ([]byte, error)
		}
		quote := func(t []byte) []byte { j, _ := json.Marshal(string(t)); return j }
		fxs := []fx{
			{"hash", 32, func(t []byte) ([]byte, error) { var h merkletree.Hash; err := h.UnmarshalText(t); return h[:], err }},
			{"hash JSON", 32, func(t []byte) ([]byte, error) {
				var h merkletree.Hash
				err := json.Unmarshal(quote(t), &h)
				return h[:], err
			}},
			{"data", 256, func(t []byte) ([]byte, error) {
				var h merkletree.Data
				err := h.UnmarshalText(t)
				b := h.Bytes()
				return b[:], err
			}},
			{"entry", 256, func(t []byte) ([]byte, error) {
				h := merkletree.Entry{}
				h.Data[3][3] = 9
				err := h.UnmarshalText(t)
				return h.Bytes(), err
			}},
			{"signature", 65, func(t []byte) ([]byte, error) {
				var s crypto.Signature
				err := json.Unmarshal(quote(t), &s)
				return s[:], err
			}},
			{"message signature", 65, func(t []byte) ([]byte, error) {
				var s crypto.SignatureEthMsg
				err := json.Unmarshal(quote(t), &s)
				return s[:], err
			}},
		}
		c.Each("fixed lengths", len(fxs), func(i int) string { return fxs[i].n }, func(i int) error { return fixed(fxs[i].l, fxs[i].dec, "") })
		var ns []*big.Int
		for _, v := range []int64{0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x101, 0x1234, 0xffff, 0x10000, 1 << 40, 1<<63 - 1, -1, -256} {
			ns = append(ns, big.NewInt(v))
		}
		for _, k := range []uint{64, 100, 240, 248, 252} {
			n := new(big.Int).Lsh(big.NewInt(1), k)
			ns = append(ns, n, new(big.Int).Add(n, big.NewInt(0x1f2)), new(big.Int).Sub(n, big.NewInt(1)))
		}
		type en struct{ a, b, i, j int }
		var ens []en
		for a := range ns {
			for b := range ns {
				for i := 0; i < 8; i++ {
					for j := 0; j < 8; j++ {
						if i != j && (c.Thorough() || (a+b+i+j)%3 == 0 || a < 2) {
							ens = append(ens, en{a, b, i, j})
						}
					}
				}
			}
		}
		c.Each("numbers", len(ens), func(i int) string { e := ens[i]; return fmt.Sprint(ns[e.a], ns[e.b], e.i, e.j) }, func(i int) error {
			e := ens[i]
			return entries(ns[e.a], ns[e.b], e.i, e.j)
		})
		var pks []string
		for v := int64(0); v < int64(c.Pick(40, 400)); v++ {
			for _, t := range []byte{0, 1, 2, 3, 4, 5, 6, 7, 0x82, 0xff} {
				for k := uint(0); k < 2; k++ {
					x := make([]byte, 33)
					x[0] = t
					xb := new(big.Int).Lsh(big.NewInt(v), 200*k).Bytes()
					copy(x[33-len(xb):], xb)
					pks = append(pks, "0x"+refEnc(x), refEnc(x))
				}
			}
			// above the field order
			n := new(big.Int).Add(curveP, big.NewInt(v-20)).Bytes()
			pks = append(pks, "0x02"+refEnc(n), "03"+refEnc(n))
		}
		good := "0279be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"
		for l := 0; l < 140; l++ {
			pks = append(pks, (good + good + good)[:l], "0x"+(good + good + good)[:l])
		}
		for i := range good {
			for _, ch := range []string{"g", "x", " ", "0", "1", "2", "3", "4", "A", "f", "", "\x00"} {
				pks = append(pks, good[:i]+ch+good[i+1:], "0x"+good[:i]+ch+good[i+1:])
			}
		}
		c.Each("public keys", len(pks), func(i int) string { return pks[i] }, func(i int) error { return publicKey(pks[i]) })
		c.Case("hashes", "text", func() error {
			for i := 0; i < 32; i++ {
				for v := 0; v < 256; v++ {
					var h crypto.Hash
					h[i], h[31-i] = byte(v), byte(v)^0x0f
					if h.Hex() != "0x"+refEnc(h[:]) {
						return fmt.Errorf("%x is written as %s", h[:], h.Hex())
					}
				}
			}
			return nil
		})
		c.Case("signatures", "all", func() error {
			for i := 0; i < 65; i++ {
				for _, v := range []byte{1, 0x80, 0xff} {
					var s crypto.Signature
					var m crypto.SignatureEthMsg
					s[i], m[i] = v, v
					j1, err1 := json.Marshal(s)
					j2, err2 := json.Marshal(m)
					if err1 != nil || err2 != nil || string(j1) != `"0x`+refEnc(s[:])+`"` || string(j2) != string(j1) {
						return fmt.Errorf("JSON %s %s", j1, j2)
					}
				}
			}
			return nil
		})
		c.Case("integers", "16 bit", func() error {
			for i := 0; i < 1<<16; i++ {
				u := uint16(i)
				b := common.Uint16ToBytes(u)
				if len(b) != 2 || b[0] != byte(i) || b[1] != byte(i>>8) || common.BytesToUint16(b) != u {
					return fmt.Errorf("%d: %x", i, b)
				}
			}
			return nil
		})
		c.Case("integers", "32 and 64 bit", func() error {
			var us []uint64
			for s := uint(0); s < 64; s++ {
				for t := uint(0); t <= s; t++ {
					x := uint64(1)<<s | uint64(1)<<t
					us = append(us, x, x-1, ^x)
				}
			}
			for i := uint64(0); i < 1<<16; i++ {
				us = append(us, i, i<<16, i<<8, i<<32, i<<48)
			}
			for _, v := range us {
				u := uint32(v)
				b := common.Uint32ToBytes(u)
				e := common.Uint32ToEthBytes(u)
				l := common.Uint64ToEthBytes(v)
				if len(b) != 4 || len(e) != 4 || len(l) != 8 {
					return fmt.Errorf("%d: %x %x %x", v, b, e, l)
				}
				for i := uint(0); i < 4; i++ {
					if b[i] != byte(u>>(8*i)) || e[3-i] != b[i] {
						return fmt.Errorf("%d: %x %x", u, b, e)
					}
				}
				for i := uint(0); i < 8; i++ {
					if l[7-i] != byte(v>>(8*i)) {
						return fmt.Errorf("%d: %x", v, l)
					}
				}
				if common.BytesToUint32(b) != u || common.EthBytesToUint32(e) != u || common.EthBytesToUint64(l) != v {
					return fmt.Errorf("%d back", v)
				}
			}
			return nil
		})
		c.Case("bits", "all", func() error {
			for n := 1; n <= 40; n++ {
				for _, fill := range []byte{0, 0xff, 0x5a, 0xa5, 0x0f} {
					for k := uint(0); k < uint(8*n); k++ {
						for big := 0; big < 2; big++ {
							b, w := make([]byte, n+2), make([]byte, n+2)
							for i := range b {
								b[i], w[i] = fill, fill
							}
							at := int(k / 8)
							if big == 1 {
								at = n - 1 - at
							}
							at++
							set, test := common.SetBit, common.TestBit
							if big == 1 {
								set, test = common.SetBitBigEndian, common.TestBitBigEndian
							}
							m := b[1 : n+1]
							if test(m, k) != (fill>>(k%8)&1 == 1) {
								return fmt.Errorf("bit %d of %x", k, m)
							}
							w[at] |= 1 << (k % 8)
							set(m, k)
							if !eq(b, w) || !test(m, k) {
								return fmt.Errorf("bit %d of %d bytes set: %x", k, n, b)
							}
						}
					}
				}
			}
			return nil
		})
	})
}
