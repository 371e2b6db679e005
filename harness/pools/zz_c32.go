package pools

import (
	"strings"

	"github.com/crimist/trakx/bencoding"
	"github.com/crimist/trakx/zzvnd"
	"github.com/crimist/trakx/zzw"
)

type zzObj struct {
	serial int
	dirty  bool
}

func zzDrops() { zzw.PoolDrop = func() bool { return zzvnd.Choice("drop", 2) == 1 } }

//verif:prop=C32 time=120 reach=reused,fresh bounds="every sequence of 6 (thorough 8) gets and puts of up to 4 objects in use, recycled objects kept or dropped before each get, with and without a reset function"
func VC32History() {
	zzDrops()
	made := 0
	var reset func(*zzObj)
	if zzvnd.Choice("reset", 2) == 1 {
		reset = func(o *zzObj) { o.dirty = false }
	}
	p := NewPool(func() any { made++; return &zzObj{serial: made} }, reset)
	var held []*zzObj
	seen := 0
	for i := zzvnd.Bound(6, 8); i > 0; i-- {
		zzvnd.Assert(int(p.Created()) == made, "the counter is the number of objects created")
		if k := zzvnd.Choice("op", len(held)+1); k == 0 {
			if len(held) == 4 {
				continue
			}
			o := p.Get()
			zzvnd.Assert(o != nil && o.serial > 0, "an object comes from the pool's constructor")
			for _, h := range held {
				zzvnd.Assert(h != o, "an object has one user at a time")
			}
			if reset != nil {
				zzvnd.Assert(!o.dirty, "a recycled object is reset")
			}
			if o.serial <= seen {
				zzvnd.Reach("reused")
			} else {
				seen = o.serial
				zzvnd.Reach("fresh")
			}
			o.dirty = true
			held = append(held, o)
		} else {
			p.Put(held[k-1])
			held = append(held[:k-1], held[k:]...)
		}
	}
}

//verif:prop=C32 time=120 conc=100000 reach=done bounds="two users taking, using and returning objects of one pool 2 times each, with 0 or 1 recycled objects to begin with, every interleaving at lock and atomic operations, with data races looked for"
func VC32Concurrent() {
	zzvnd.Flag("atomics", 1)
	made := 0
	p := NewPool(func() any { return &zzObj{} }, func(o *zzObj) { o.dirty = false })
	if zzvnd.Choice("recycled", 2) == 1 {
		p.Put(p.Get())
		made = 1
	}
	use := func(n int) func() {
		return func() {
			for i := 0; i < 2; i++ {
				o := p.Get()
				zzvnd.Assert(o.serial == 0, "an object has one user at a time")
				o.serial = n
				zzvnd.Assert(!o.dirty, "a recycled object is reset")
				o.dirty = true
				c := int(p.Created())
				zzvnd.Assert(c >= 1 && c <= 2, "no object is created while one is free")
				zzvnd.Assert(o.serial == n, "an object has one user at a time")
				o.serial = 0
				p.Put(o)
			}
		}
	}
	zzvnd.Par(use(1), use(2))
	zzvnd.Assert(int(p.Created()) >= made, "the counter does not go back")
	zzvnd.Reach("done")
}

//verif:prop=C32 time=120 reach=done bounds="an encoder used in any way (finished or abandoned half way, for up to 5000 bytes) and recycled, then used with arbitrary keys and texts of 3 bytes and any integer: compared with a new encoder"
func VC32Encoder() {
	Initialize(3)
	n := int64(zzvnd.U64("n"))
	key, text := zzvnd.Str("key", 3), zzvnd.Str("text", 3)
	d := Dictionaries.Get()
	for i := 0; i < 2; i++ {
		d.String("junk", zzJunk[:[]int{0, 40, 300, 5000}[zzvnd.Choice("big", 4)]])
		if zzvnd.Choice("open", 2) == 1 {
			d.StartDictionary("half")
		}
		if zzvnd.Choice("finish", 2) == 1 {
			d.GetBytes()
		}
		Dictionaries.Put(d)
		e := Dictionaries.Get()
		zzvnd.Assert(e == d, "the encoder is recycled")
		fresh := bencoding.NewDictionary()
		kind := zzvnd.Choice("kind", 4)
		for _, x := range []*bencoding.Dictionary{e, fresh} {
			zzPut(x, kind, key, text, n)
		}
		zzvnd.Assert(zzvnd.EqBytes(e.GetBytes(), fresh.GetBytes()), "a recycled encoder behaves like a new one")
		d = e
	}
	zzvnd.Reach("done")
}

var zzJunk = strings.Repeat("x", 5000)

func zzPut(d *bencoding.Dictionary, kind int, key, text string, n int64) {
	switch kind {
	case 0:
		d.Int64(key, n&7)
	case 1:
		d.String(key, text)
	case 2:
		d.StartDictionary(key)
		d.Int64("x", 5)
		d.EndDictionary()
	case 3:
		d.StringBytes(key, []byte(text))
		d.BytesliceSlice(text, [][]byte{[]byte(key)})
	}
}

func zzMin(n int) int {
	if n > 4 {
		return 4
	}
	return n
}

//verif:prop=C32 time=120 reach=done bounds="limits of 0 to 4 and 50 peers; buffers of both kinds taken, cut to any length and returned, 3 times, recycled ones kept or dropped"
func VC32Buffers() {
	zzDrops()
	limit := []int{0, 1, 2, 3, 4, 50}[zzvnd.Choice("limit", 6)]
	Initialize(limit)
	for i := 0; i < 3; i++ {
		size, p := 6, Peerlists4
		if zzvnd.Choice("v6", 2) == 1 {
			size, p = 18, Peerlists6
		}
		b := p.Get()
		zzvnd.Assert(cap(b) >= size*limit, "a buffer has room for the most peers a reply can list")
		other := p.Get()
		full, ofull := b[:size*limit], other[:size*limit]
		if limit > 0 {
			zzvnd.Assert(&full[0] != &ofull[0], "two users never share a buffer")
		}
		p.Put(other)
		b = b[:size*zzvnd.Choice("cut", zzMin(limit)+1)]
		p.Put(b)
	}
	zzvnd.Reach("done")
}

//verif:prop=C32 time=120 conc=100000 reach=done bounds="two users taking an encoder from the pool, using and returning it, 1 (thorough 2) times each, with 0 or 1 recycled encoders to begin with, every interleaving at lock and atomic operations, with data races looked for"
func VC32EncoderConcurrent() {
	zzvnd.Flag("atomics", 1)
	Initialize(3)
	if zzvnd.Choice("recycled", 2) == 1 {
		Dictionaries.Put(Dictionaries.Get())
	}
	use := func(text, want string) func() {
		return func() {
			for i := zzvnd.Bound(1, 2); i > 0; i-- {
				d := Dictionaries.Get()
				d.String("k", text)
				zzvnd.Assert(string(d.GetBytes()) == want, "an encoder has one user at a time")
				Dictionaries.Put(d)
			}
		}
	}
	zzvnd.Par(use("a", "d1:k1:ae"), use("bb", "d1:k2:bbe"))
	zzvnd.Reach("done")
}
