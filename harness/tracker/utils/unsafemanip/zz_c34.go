package unsafemanip

import "github.com/crimist/trakx/zzvnd"

//verif:prop=C34 time=120 reach=done bounds="every string of up to 8 (thorough 16) bytes, including parts of longer ones"
func VC34Bytes() {
	n := zzvnd.Choice("len", zzvnd.Bound(9, 17))
	long := zzvnd.Str("s", n+3)
	s := long[:n]
	if zzvnd.Choice("part", 2) == 1 {
		s = long[3:]
	}
	b := StringToBytes(s)
	zzvnd.Assert(len(b) == n && cap(b) == n, "the bytes have the string's length and nothing beyond it")
	zzvnd.Assert(zzvnd.EqBytes(b, []byte(s)), "the bytes are the string's")
	b = append(b, 'x')
	zzvnd.Assert(zzvnd.EqStr(long, string([]byte(long))) && zzvnd.EqBytes(b[:n], []byte(s)), "appending leaves the string alone")
	zzvnd.Reach("done")
}

//verif:prop=C34 time=120 reach=done bounds="every string of up to 8 (thorough 16) bytes"
func VC34Fast() {
	n := zzvnd.Choice("len", zzvnd.Bound(9, 17))
	s := zzvnd.Str("s", n)
	b := StringToBytesFast(&s)
	zzvnd.Assert(len(b) == n, "the bytes have the string's length")
	zzvnd.Assert(zzvnd.EqBytes(b, []byte(s)), "the bytes are the string's")
	zzvnd.Reach("done")
}

//verif:prop=C34 time=120 reach=done bounds="slices of up to 6 (thorough 10) bytes of capacity and strings of up to as many bytes, every length within them, set twice"
func VC34Length() {
	max := zzvnd.Bound(6, 10)
	c := zzvnd.Choice("cap", max+1)
	all := zzvnd.Bytes("b", c)
	have := zzvnd.Choice("have", c+1)
	b := all[:have]
	str := zzvnd.Str("s", c)
	s := str
	for i := 0; i < 2; i++ {
		l := zzvnd.Choice("to", c+1)
		zzvnd.Assert(SetSliceLen(&b, l) == have, "the previous length is returned")
		zzvnd.Assert(len(b) == l && cap(b) == c, "the slice has the requested length")
		zzvnd.Assert(zzvnd.EqBytes(b, all[:l]), "the slice is the requested prefix")
		have = l
		was := len(s)
		l = zzvnd.Choice("strto", c+1)
		zzvnd.Assert(SetStringLen(&s, l) == was, "the previous length is returned")
		zzvnd.Assert(len(s) == l && zzvnd.EqStr(s, str[:l]), "the string is the requested prefix")
	}
	zzvnd.Reach("done")
}
