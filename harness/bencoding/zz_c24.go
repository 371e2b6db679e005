package bencoding

import (
	"strconv"

	"github.com/crimist/trakx/zzvnd"
)

// zzRef is the reference encoder.
type zzRef struct{ b []byte }

func (r *zzRef) str(s []byte) {
	r.b = append(r.b, strconv.Itoa(len(s))...)
	r.b = append(r.b, ':')
	r.b = append(r.b, s...)
}
func (r *zzRef) raw(s string)    { r.b = append(r.b, s...) }
func (r *zzRef) integer(v int64) { r.raw("i" + strconv.FormatInt(v, 10) + "e") }

func zzLen(l string, deep bool) int {
	if deep {
		return []int{0, 1, 2, 9, 10, 11, 40, 99, 100, 999, 1000}[zzvnd.Choice(l, 11)]
	}
	return []int{0, 1, 10, 100}[zzvnd.Choice(l, 4)]
}

// zzOp performs one write on d and on the reference.
func zzOp(d *Dictionary, r *zzRef, lens func(string) int) {
	op := zzvnd.Choice("op", 7)
	key := zzvnd.Bytes("key", lens("keylen"))
	switch op {
	case 0:
		v := zzvnd.Bytes("val", lens("vallen"))
		d.String(string(key), string(v))
		r.str(key)
		r.str(v)
	case 1:
		v := zzvnd.Bytes("val", lens("vallen"))
		d.StringBytes(string(key), v)
		r.str(key)
		r.str(v)
	case 2:
		v := zzvnd.I64("int")
		d.Int64(string(key), v)
		r.str(key)
		r.integer(v)
	case 3:
		d.StartDictionary(string(key))
		v := zzvnd.Bytes("val", 2)
		d.String("a", string(v))
		d.EndDictionary()
		r.str(key)
		r.raw("d")
		r.str([]byte("a"))
		r.str(v)
		r.raw("e")
	case 4:
		d.StartDictionaryBytes(key)
		d.EndDictionary()
		r.str(key)
		r.raw("de")
	case 5:
		n := zzvnd.Choice("items", 3)
		var l [][]byte
		for i := 0; i < n; i++ {
			l = append(l, zzvnd.Bytes("item", lens("itemlen")))
		}
		d.BytesliceSlice(string(key), l)
		r.str(key)
		r.raw("l")
		for _, x := range l {
			r.str(x)
		}
		r.raw("e")
	case 6:
		in := NewDictionary()
		v := zzvnd.Bytes("val", 1)
		in.String("k", string(v))
		d.Dictionary(string(key), in.Get())
		r.str(key)
		r.raw("d")
		r.str([]byte("k"))
		r.str(v)
		r.raw("e")
	}
}

//verif:prop=C24 time=90 reach=done bounds="one write of every kind; keys and values of 0,1,10,100 (thorough: 0..1000) arbitrary bytes, every 64-bit integer, lists of up to 2 strings"
func VC24One() {
	lens := func(l string) int { return zzLen(l, zzvnd.Deep()) }
	d := NewDictionary()
	r := &zzRef{b: []byte("d")}
	zzOp(d, r, lens)
	r.raw("e")
	b := d.GetBytes()
	zzvnd.Assert(len(b) == len(r.b), "encoding has the right length")
	zzvnd.Assert(zzvnd.EqBytes(b, r.b), "encoding is the bencoding of what was written")
	zzvnd.Observe("b", b)
	zzvnd.Reach("done")
}

//verif:prop=C24 time=90 reach=done bounds="sequences of up to 2 (thorough 3) writes of every kind with 0- or 3-byte keys and values, from a new or a reset encoder"
func VC24Sequence() {
	lens := func(l string) int { return 3 * zzvnd.Choice(l, 2) }
	d := NewDictionary()
	r := &zzRef{b: []byte("d")}
	if zzvnd.Choice("reset", 2) == 1 {
		var junk zzRef
		d.String("junk", zzvnd.Str("junk", 40))
		if zzvnd.Choice("got", 2) == 1 {
			d.GetBytes()
		}
		_ = junk
		d.Reset()
	}
	n := zzvnd.Choice("n", zzvnd.Bound(3, 4))
	if n > 1 && !zzvnd.Deep() {
		lens = func(l string) int { return 3 }
	}
	for i := 0; i < n; i++ {
		zzOp(d, r, lens)
	}
	r.raw("e")
	if zzvnd.Choice("get", 2) == 1 {
		zzvnd.Assert(zzvnd.EqBytes([]byte(d.Get()), r.b), "Get is the bencoding of the writes in order")
	} else {
		zzvnd.Assert(zzvnd.EqBytes(d.GetBytes(), r.b), "GetBytes is the bencoding of the writes in order")
	}
	zzvnd.Reach("done")
}

//verif:prop=C24 time=90 reach=done bounds="the generic writer on every supported type (all integer values; strings, lists and maps of up to 2 short entries) and on unsupported types"
func VC24Any() {
	zzvnd.Flag("maporder", 1)
	d := NewDictionary()
	key := zzvnd.Bytes("key", 2*zzvnd.Choice("keylen", 2))
	k := string(key)
	r := &zzRef{b: []byte("d")}
	r.str(key)
	var alt *zzRef
	var err error
	sgn := func(v int64) { r.integer(v) }
	uns := func(v uint64) { r.raw("i" + strconv.FormatUint(v, 10) + "e") }
	switch zzvnd.Choice("type", 19) {
	case 0:
		s := zzvnd.Bytes("s", 3)
		err = d.Any(k, string(s))
		r.str(s)
	case 1:
		s := zzvnd.Bytes("s", 3)
		err = d.Any(k, s)
		r.str(s)
	case 2:
		var l []string
		r.raw("l")
		for i := zzvnd.Choice("n", 3); i > 0; i-- {
			s := zzvnd.Bytes("s", 2)
			l = append(l, string(s))
			r.str(s)
		}
		r.raw("e")
		err = d.Any(k, l)
	case 3:
		v := int(zzvnd.I64("v"))
		err = d.Any(k, v)
		sgn(int64(v))
	case 4:
		v := int8(zzvnd.U8("v"))
		err = d.Any(k, v)
		sgn(int64(v))
	case 5:
		v := int16(zzvnd.U16("v"))
		err = d.Any(k, v)
		sgn(int64(v))
	case 6:
		v := zzvnd.I32("v")
		err = d.Any(k, v)
		sgn(int64(v))
	case 7:
		v := zzvnd.I64("v")
		err = d.Any(k, v)
		sgn(v)
	case 8:
		v := uint(zzvnd.U64("v"))
		err = d.Any(k, v)
		uns(uint64(v))
	case 9:
		v := zzvnd.U8("v")
		err = d.Any(k, v)
		uns(uint64(v))
	case 10:
		v := zzvnd.U16("v")
		err = d.Any(k, v)
		uns(uint64(v))
	case 11:
		v := zzvnd.U32("v")
		err = d.Any(k, v)
		uns(uint64(v))
	case 12:
		v := zzvnd.U64("v")
		err = d.Any(k, v)
		uns(v)
	case 13:
		a, b := zzvnd.I32("a"), zzvnd.I32("b")
		err = d.Any(k, map[string]int32{"x": a, "yy": b})
		alt = &zzRef{b: append([]byte{}, r.b...)}
		r.raw("d1:x")
		r.integer(int64(a))
		r.raw("2:yy")
		r.integer(int64(b))
		r.raw("e")
		alt.raw("d2:yy")
		alt.integer(int64(b))
		alt.raw("1:x")
		alt.integer(int64(a))
		alt.raw("e")
	case 14:
		a := zzvnd.I32("a")
		err = d.Any(k, map[string]map[string]int32{"f": {"c": a}})
		r.raw("d1:fd1:c")
		r.integer(int64(a))
		r.raw("ee")
	case 15:
		a, s := zzvnd.I64("a"), zzvnd.Bytes("s", 2)
		err = d.Any(k, map[string]interface{}{"n": map[string]interface{}{"i": a}, "s": string(s)})
		alt = &zzRef{b: append([]byte{}, r.b...)}
		r.raw("d1:nd1:i")
		r.integer(a)
		r.raw("e1:s")
		r.str(s)
		r.raw("e")
		alt.raw("d1:s")
		alt.str(s)
		alt.raw("1:nd1:i")
		alt.integer(a)
		alt.raw("ee")
	case 16:
		zzvnd.Assert(d.Any(k, 1.5) != nil, "an unsupported type is reported")
		zzvnd.Reach("unsupported")
		return
	case 17:
		zzvnd.Assert(d.Any(k, true) != nil, "an unsupported type is reported")
		return
	case 18:
		zzvnd.Assert(d.Any(k, nil) != nil, "an unsupported type is reported")
		return
	}
	r.raw("e")
	zzvnd.Assert(err == nil, "a supported type is written")
	b := d.GetBytes()
	ok := zzvnd.EqBytes(b, r.b)
	if alt != nil {
		alt.raw("e")
		ok = zzvnd.Or(ok, zzvnd.EqBytes(b, alt.b))
	}
	zzvnd.Assert(ok, "the generic writer encodes like the typed ones")
	zzvnd.Reach("done")
}
