ID="c18-short-text"; PROP="C18"
NEEDS="the text of an identifier that lost one or more of its leading characters"
BREAKS="texts that are too short are filled up with zeros instead of being refused, so a truncated identifier is accepted"
EDITS=[("core/id.go","""	b := base58.Decode(s)
	return IDFromBytes(b)
""","""	b := base58.Decode(s)
	if n := len(emptyID) - len(b); n > 0 {
		// leading zeros may be omitted
		b = append(make([]byte, n), b...)
	}
	return IDFromBytes(b)
""")]
PKG="core"
TEST='''package core

import "testing"

func TestZZDemo(t *testing.T) {
	id := NewID(TypeBJP0, [27]byte{1, 2, 3})
	s := id.String()
	if x, err := IDFromString(s); err != nil || x != id {
		t.Fatal(x, err)
	}
	if x, err := IDFromString(s[1:]); err == nil {
		t.Fatalf("%s accepted as %s", s[1:], x.String())
	}
}
'''
