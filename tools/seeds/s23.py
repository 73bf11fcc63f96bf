ID="c29-odd-digit"; PROP="C29"
NEEDS="a hexadecimal text of a fixed-length value with one digit too many"
BREAKS="the text is cut to the length of the target, and since lengths are compared in whole bytes, one digit too many is accepted"
EDITS=[("common/common.go","""	n, err := hex.Decode(dst, h)
""","""	n, err := hex.Decode(dst, h[:2*len(dst)])
""")]
PKG="common"
TEST='''package common

import "testing"

func TestZZDemo(t *testing.T) {
	var d [2]byte
	if err := HexDecodeInto(d[:], []byte("0x0102")); err != nil || d != [2]byte{1, 2} {
		t.Fatal(d, err)
	}
	for _, s := range []string{"0x010", "010", "01020", "0x01021", "0x", "010203"} {
		if err := HexDecodeInto(d[:], []byte(s)); err == nil {
			t.Fatalf("%q accepted", s)
		}
	}
}
'''
