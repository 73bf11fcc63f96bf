// C18: identifier encodings are exact inverses and detect corruption.
package main

import (
	"encoding/json"
	"fmt"
	"math/big"

	"github.com/iden3/go-iden3-core/core"
	"verif/mc/mcx"
)

const alphabet = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

// refEncode is base58 by long division.
func refEncode(b []byte) string {
	d := append([]byte{}, b...)
	var out []byte
	for {
		rem, any := 0, false
		for i := range d {
			v := rem*256 + int(d[i])
			d[i] = byte(v / 58)
			rem = v % 58
			if d[i] != 0 {
				any = true
			}
		}
		out = append(out, alphabet[rem])
		if !any {
			break
		}
	}
	for len(out) > 0 && out[len(out)-1] == '1' {
		out = out[:len(out)-1]
	}
	for i := 0; i < len(b) && b[i] == 0; i++ {
		out = append(out, '1')
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return string(out)
}

// refDecode is its inverse.
func refDecode(s string) ([]byte, bool) {
	var out []byte // little endian
	zeros, lead := 0, true
	for i := 0; i < len(s); i++ {
		v := -1
		for k := 0; k < 58; k++ {
			if alphabet[k] == s[i] {
				v = k
			}
		}
		if v < 0 {
			return nil, false
		}
		if lead && v == 0 {
			zeros++
			continue
		}
		lead = false
		for j := range out {
			v += int(out[j]) * 58
			out[j] = byte(v)
			v >>= 8
		}
		for v > 0 {
			out = append(out, byte(v))
			v >>= 8
		}
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return append(make([]byte, zeros), out...), true
}

// wellFormed tells whether bytes are an identifier.
func wellFormed(b []byte) bool {
	if len(b) != 31 {
		return false
	}
	s := 0
	for _, x := range b[:29] {
		s += int(x)
	}
	return s != 0 && int(b[29]) == s>>8 && int(b[30]) == s&0xff
}

func tryBytes(b []byte) error {
	in := append([]byte{}, b...)
	id, err := core.IDFromBytes(b)
	if string(in) != string(b) {
		return fmt.Errorf("the input was changed")
	}
	if (err == nil) != wellFormed(b) {
		return fmt.Errorf("bytes %x: error %v, well formed %v", b, err, wellFormed(b))
	}
	if err != nil {
		return nil
	}
	if string(id[:]) != string(b) {
		return fmt.Errorf("bytes %x parse as %x", b, id)
	}
	for i := range b { // no sharing
		b[i] ^= 0xff
	}
	if string(id[:]) != string(in) {
		return fmt.Errorf("the identifier shares memory with the input")
	}
	copy(b, in)
	return nil
}

func tryText(s string) error {
	b, ok := refDecode(s)
	ok = ok && wellFormed(b)
	id, err := core.IDFromString(s)
	if (err == nil) != ok {
		return fmt.Errorf("text %q: error %v, well formed %v", s, err, ok)
	}
	if ok && string(id[:]) != string(b) {
		return fmt.Errorf("text %q parses as %x", s, id)
	}
	for _, start := range []core.ID{{}, core.NewID([2]byte{1, 2}, [27]byte{3})} {
		x := start
		err = x.UnmarshalText([]byte(s))
		if (err == nil) != ok {
			return fmt.Errorf("UnmarshalText of %q: %v", s, err)
		}
		if ok && string(x[:]) != string(b) {
			return fmt.Errorf("UnmarshalText of %q gives %x", s, x)
		}
		j, _ := json.Marshal(s)
		x = start
		err = json.Unmarshal(j, &x)
		if (err == nil) != (ok && string(j) == `"`+s+`"`) {
			return fmt.Errorf("JSON of %q: %v", s, err)
		}
		if err == nil && string(x[:]) != string(b) {
			return fmt.Errorf("JSON of %q gives %x", s, x)
		}
	}
	return nil
}

type parts struct {
	typ [2]byte
	gen [27]byte
}

func bases(thorough bool) (r []parts) {
	typs := [][2]byte{{0, 0}, {0, 1}, {1, 0}, {0xff, 0xff}, {0x80, 0}}
	var gens [][27]byte
	gens = append(gens, [27]byte{})
	for i := 0; i < 27; i++ {
		for _, v := range []byte{1, 0x80, 0xff} {
			var g [27]byte
			g[i] = v
			gens = append(gens, g)
			if thorough {
				for j := 0; j < i; j++ {
					h := g
					h[j] = 0xff - v
					gens = append(gens, h)
				}
			}
		}
		var p, q [27]byte
		for j := range p {
			if j <= i {
				p[j] = 0xff
			} else {
				q[j] = byte(j*37 + 11)
			}
		}
		gens = append(gens, p, q)
	}
	seen := map[parts]bool{}
	for _, t := range typs {
		for _, g := range gens {
			if p := (parts{t, g}); !seen[p] {
				seen[p] = true
				r = append(r, p)
			}
		}
	}
	return
}

func main() {
	mcx.Main("C18", "exploration", func(c *mcx.Ctx) {
		c.Rule("identifiers of all types and genesis patterns of the alphabet: every encoding against an independent one, all single-byte corruptions, all transpositions, all lengths, all single-character substitutions, deletions, insertions and transpositions of the text; every short string over a hostile alphabet")
		ps := bases(c.Thorough())
		texts, ints := map[string]int{}, map[string]int{}
		var ids []core.ID
		for i, p := range ps {
			id := core.NewID(p.typ, p.gen)
			ids = append(ids, id)
			if j, dup := texts[id.String()]; dup {
				i := i
				c.Case("distinct", fmt.Sprint(i), func() error { return fmt.Errorf("identifiers %v and %v have the same text", ps[j], ps[i]) })
			}
			texts[id.String()] = i
			if j, dup := ints[id.BigInt().String()]; dup {
				i := i
				c.Case("distinct", fmt.Sprint(i), func() error { return fmt.Errorf("identifiers %v and %v have the same integer", ps[j], ps[i]) })
			}
			ints[id.BigInt().String()] = i
		}
		c.Each("identifiers", len(ps), func(i int) string { return fmt.Sprintf("%x %x", ps[i].typ, ps[i].gen) }, func(i int) error {
			p, id := ps[i], ids[i]
			b := append(append([]byte{}, p.typ[:]...), p.gen[:]...)
			s := 0
			for _, x := range b {
				s += int(x)
			}
			b = append(b, byte(s>>8), byte(s))
			if string(id[:]) != string(b) || string(id.Bytes()) != string(b) {
				return fmt.Errorf("the identifier is %x", id)
			}
			t, g, k, err := core.DecomposeID(id)
			if err != nil || t != p.typ || g != p.gen || string(k[:]) != string(b[29:]) {
				return fmt.Errorf("taken apart: %x %x %x %v", t, g, k, err)
			}
			if k != core.CalculateChecksum(t, g) {
				return fmt.Errorf("checksum")
			}
			if core.CheckChecksum(id) != wellFormed(b) {
				return fmt.Errorf("CheckChecksum: %v", !wellFormed(b))
			}
			txt := refEncode(b)
			if id.String() != txt {
				return fmt.Errorf("text %q instead of %q", id.String(), txt)
			}
			m, err := id.MarshalText()
			if err != nil || string(m) != txt {
				return fmt.Errorf("MarshalText %q %v", m, err)
			}
			j, err := json.Marshal(map[string]interface{}{"a": id, "b": &id})
			if err != nil || string(j) != `{"a":"`+txt+`","b":"`+txt+`"}` {
				return fmt.Errorf("JSON %s %v", j, err)
			}
			j, err = json.Marshal(map[core.ID]int{id: 7})
			if err != nil || string(j) != `{"`+txt+`":7}` {
				return fmt.Errorf("JSON key %s %v", j, err)
			}
			var back map[core.ID]int
			if err := json.Unmarshal(j, &back); wellFormed(b) && (err != nil || back[id] != 7) {
				return fmt.Errorf("JSON key back: %v", err)
			}
			n := new(big.Int)
			for k := len(b) - 1; k >= 0; k-- {
				n.Lsh(n, 8).Add(n, big.NewInt(int64(b[k])))
			}
			if id.BigInt().Cmp(n) != 0 {
				return fmt.Errorf("integer %v instead of %v", id.BigInt(), n)
			}
			for k := range ids[:] {
				if id.Equal(&ids[k]) != (k == i) || id.Equals(&ids[k]) != (k == i) {
					return fmt.Errorf("comparison with identifier %d", k)
				}
			}
			// bytes
			for l := 0; l <= 64; l++ {
				x := make([]byte, l)
				copy(x, b)
				if err := tryBytes(x); err != nil {
					return err
				}
				if l > 31 {
					x = append(make([]byte, l-31), b...)
				} else {
					x = append([]byte{}, b[31-l:]...)
				}
				if err := tryBytes(x); err != nil {
					return err
				}
			}
			if err := tryBytes(nil); err != nil {
				return err
			}
			for pos := range b {
				old := b[pos]
				for v := 0; v < 256; v++ {
					if byte(v) == old {
						continue
					}
					b[pos] = byte(v)
					if wellFormed(b) {
						return fmt.Errorf("reference: single corruption undetectable")
					}
					if err := tryBytes(b); err != nil {
						return err
					}
				}
				b[pos] = old
				for q := 0; q < pos; q++ {
					b[pos], b[q] = b[q], b[pos]
					if err := tryBytes(b); err != nil {
						return err
					}
					b[pos], b[q] = b[q], b[pos]
				}
			}
			if err := tryBytes(b); err != nil {
				return err
			}
			// text
			if err := tryText(txt); err != nil {
				return err
			}
			chars := alphabet + "0OIl +/=\n\x00-_"
			if !c.Thorough() {
				chars = "12zZ9A0OIl =\n\x00"
			}
			for pos := 0; pos <= len(txt); pos++ {
				for _, ch := range chars {
					if err := tryText(txt[:pos] + string(ch) + txt[pos:]); err != nil {
						return err
					}
					if pos < len(txt) {
						if err := tryText(txt[:pos] + string(ch) + txt[pos+1:]); err != nil {
							return err
						}
					}
				}
				if pos < len(txt) {
					if err := tryText(txt[:pos] + txt[pos+1:]); err != nil {
						return err
					}
					if err := tryText(txt[:pos]); err != nil {
						return err
					}
					for q := 0; q < pos; q++ {
						x := []byte(txt)
						x[pos], x[q] = x[q], x[pos]
						if err := tryText(string(x)); err != nil {
							return err
						}
					}
				}
			}
			for _, x := range []string{txt + txt, " " + txt, txt + "\n", "0x" + txt, "\xff" + txt, "é" + txt} {
				if err := tryText(x); err != nil {
					return err
				}
			}
			return nil
		})
		// all short strings, and strings of one character
		sig := []string{"1", "2", "z", "0", "l", "", "\x00", "\xff", "é", " "}
		var all []string
		level := []string{""}
		for l := 0; l < c.Pick(4, 5); l++ {
			var next []string
			for _, s := range level {
				for _, ch := range sig {
					next = append(next, s+ch)
				}
			}
			all = append(all, next...)
			level = next
		}
		for n := 1; n < 60; n++ {
			for _, ch := range "12z0" {
				s := ""
				for i := 0; i < n; i++ {
					s += string(ch)
				}
				all = append(all, s, s+"2", "2"+s)
			}
		}
		c.Each("short texts", len(all), func(i int) string { return fmt.Sprintf("%q", all[i]) }, func(i int) error { return tryText(all[i]) })
		docs := []string{"null", "1", "true", "{}", "[]", `""`, `"`, "", `{"a":1}`, `["2"]`, "1.5"}
		c.Each("documents", len(docs), func(i int) string { return docs[i] }, func(i int) error {
			var x core.ID
			err := json.Unmarshal([]byte(docs[i]), &x)
			if docs[i] != "null" && err == nil {
				return fmt.Errorf("accepted as %x", x)
			}
			return nil
		})
	})
}
