package idw

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
)

// path of a JSON value
type jpath []interface{}

func (p jpath) String() string { return strings.Trim(fmt.Sprint([]interface{}(p)), "[]") }

func paths(v interface{}, at jpath) (r []jpath) {
	r = append(r, append(jpath{}, at...))
	switch x := v.(type) {
	case map[string]interface{}:
		var ks []string
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			r = append(r, paths(x[k], append(append(jpath{}, at...), k))...)
		}
	case []interface{}:
		for i := range x {
			r = append(r, paths(x[i], append(append(jpath{}, at...), i))...)
		}
	}
	return
}

func jget(v interface{}, p jpath) interface{} {
	for _, s := range p {
		switch x := v.(type) {
		case map[string]interface{}:
			v = x[s.(string)]
		case []interface{}:
			v = x[s.(int)]
		}
	}
	return v
}

type gone struct{}

// jset returns a copy of v with the value at p replaced (or removed).
func jset(v interface{}, p jpath, n interface{}) interface{} {
	if len(p) == 0 {
		return n
	}
	switch x := v.(type) {
	case map[string]interface{}:
		r := map[string]interface{}{}
		for k, e := range x {
			r[k] = e
		}
		k := p[0].(string)
		if _, del := n.(gone); del && len(p) == 1 {
			delete(r, k)
		} else {
			r[k] = jset(x[k], p[1:], n)
		}
		return r
	case []interface{}:
		r := append([]interface{}{}, x...)
		i := p[0].(int)
		if _, del := n.(gone); del && len(p) == 1 {
			return append(r[:i], r[i+1:]...)
		}
		r[i] = jset(x[i], p[1:], n)
		return r
	}
	return v
}

// Mutation is a changed document.
type Mutation struct {
	Name string
	Doc  []byte
}

// Values every place is replaced with.
var Values = []interface{}{nil, gone{}, "", "0x", "zz", "0xzz", "0x00", 0, -1, 1.5, 1e30, true, []interface{}{}, map[string]interface{}{}, []interface{}{nil},
	"0x" + strings.Repeat("00", 32), "0x" + strings.Repeat("ff", 32), "0x" + strings.Repeat("ff", 31), "0x" + strings.Repeat("01", 33),
	strings.Repeat("00", 32), strings.Repeat("ff", 32), strings.Repeat("7f", 31), "1", strings.Repeat("1", 44), strings.Repeat("z", 44)}

// Mutations lists all documents that differ from base at one place: replaced
// by each of the values, by each value found elsewhere in the donors, text
// with each character replaced or cut.
func Mutations(base interface{}, donors []interface{}) (r []Mutation, err error) {
	b, err := json.Marshal(base)
	if err != nil {
		return nil, err
	}
	var v interface{}
	d := json.NewDecoder(strings.NewReader(string(b)))
	d.UseNumber()
	if err := d.Decode(&v); err != nil {
		return nil, err
	}
	pool := []interface{}{}
	seen := map[string]bool{}
	for _, x := range append([]interface{}{base}, donors...) {
		b, err := json.Marshal(x)
		if err != nil {
			return nil, err
		}
		var y interface{}
		d := json.NewDecoder(strings.NewReader(string(b)))
		d.UseNumber()
		if err := d.Decode(&y); err != nil {
			return nil, err
		}
		for _, p := range paths(y, nil) {
			z := jget(y, p)
			b, _ := json.Marshal(z)
			if !seen[string(b)] {
				seen[string(b)] = true
				pool = append(pool, z)
			}
		}
	}
	add := func(p jpath, n interface{}, what string) {
		b, err := json.Marshal(jset(v, p, n))
		if err == nil {
			r = append(r, Mutation{p.String() + ": " + what, b})
		}
	}
	for _, p := range paths(v, nil) {
		if len(p) == 0 {
			continue
		}
		for i, n := range Values {
			add(p, n, fmt.Sprintf("value %d %v", i, n))
		}
		for i, n := range pool {
			add(p, n, fmt.Sprintf("donated %d", i))
		}
		switch x := jget(v, p).(type) {
		case string:
			for i := range x {
				for _, c := range "0f7z" {
					if rune(x[i]) != c {
						add(p, x[:i]+string(c)+x[i+1:], fmt.Sprintf("char %d %c", i, c))
					}
				}
				add(p, x[:i], fmt.Sprintf("cut at %d", i))
			}
			add(p, x+"0", "longer")
			add(p, x+"00", "longer by two")
			add(p, strings.ToUpper(x), "upper case")
		case json.Number:
			for _, n := range []string{"1", "-1", "18446744073709551615", "18446744073709551616", "9223372036854775807"} {
				add(p, json.Number(n), "number "+n)
			}
			var k int64
			if _, err := fmt.Sscan(x.String(), &k); err == nil {
				add(p, k+1, "number+1")
				add(p, k-1, "number-1")
			}
		}
	}
	return r, nil
}
