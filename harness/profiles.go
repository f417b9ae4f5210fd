package main

import (
	"math/rand"
)

// Profile says which sessions a check wants.
type Profile struct {
	zeroish  int // percent of sessions with many zero and empty values
	blobs    int // percent of sessions with long payloads
	unknown  int // percent of wire fields that are unknown
	bad      int // per mille of wire pieces that are malformed (in bad sessions)
	badSess  int // percent of sessions that have malformed input
	loose    int // percent of sessions with non-minimal varints
	static   int // percent of schemas declared in Go source
	wide     int // percent of schemas with a type of many fields
	deep     int // percent of schemas with messages deep inside each other
	only     func(Field) bool
	scripts  []string
	maxField int
}

func kindIn(ks ...string) func(Field) bool {
	return func(f Field) bool {
		for _, k := range ks {
			if f.K == k || f.C == k {
				return true
			}
		}
		return false
	}
}

var profiles = map[string]*Profile{
	"roundtrip": {wide: 8, deep: 5, zeroish: 25, blobs: 25, loose: 0, static: 10, scripts: []string{"rt", "rt", "rt2", "rtmix"}, maxField: 8},
	"encode":    {wide: 8, deep: 5, zeroish: 20, blobs: 30, static: 10, scripts: []string{"enc", "enc", "enc2"}, maxField: 8},
	"presence":  {wide: 6, deep: 2, zeroish: 80, blobs: 5, static: 5, loose: 20, scripts: []string{"rt", "wire", "wiremsg", "reuse"}, maxField: 8},
	"size":      {wide: 6, deep: 4, zeroish: 15, blobs: 45, static: 10, scripts: []string{"enc", "sizes", "enc2"}, maxField: 10},
	"decode":    {wide: 8, deep: 5, zeroish: 20, blobs: 15, unknown: 12, loose: 50, static: 10, scripts: []string{"wire", "wire", "wiremsg", "wirerep", "rt"}, maxField: 12},
	"merge":     {wide: 6, deep: 4, zeroish: 20, blobs: 5, unknown: 10, loose: 20, static: 15, scripts: []string{"merge", "merge", "merge3", "mergemsg"}, maxField: 6},
	"unknown":   {wide: 6, deep: 4, zeroish: 20, blobs: 15, unknown: 55, loose: 30, static: 5, scripts: []string{"wire", "wire", "wiremsg", "wirebad"}, badSess: 12, bad: 60, maxField: 10},
	"malformed": {wide: 3, deep: 4, zeroish: 10, blobs: 0, unknown: 25, loose: 20, static: 10, scripts: []string{"wirebad", "wirebad", "mutate", "wire"}, badSess: 85, bad: 90, maxField: 8},
	"hostile":   {wide: 2, deep: 3, zeroish: 10, blobs: 0, unknown: 25, loose: 20, static: 10, scripts: []string{"hostile", "mutate", "wirebad", "noise"}, badSess: 90, bad: 200, maxField: 10},
	"isolation": {wide: 3, deep: 2, zeroish: 10, blobs: 5, unknown: 15, loose: 20, static: 5, scripts: []string{"iso", "iso2", "iso3"}, maxField: 6},
	"failed":    {wide: 3, deep: 3, zeroish: 30, unknown: 15, loose: 20, static: 10, scripts: []string{"fail", "fail", "fail2", "wirebad", "leak2"}, badSess: 100, bad: 60, maxField: 8},
	"big":       {zeroish: 60, blobs: 0, static: 3, loose: 10, scripts: []string{"big", "big", "bigmerge"}, maxField: 6, only: kindIn("map", "rep")},
	"huge":      {scripts: []string{"huge"}}, // lengths of five bytes
	"onto":      {zeroish: 75, unknown: 15, loose: 20, static: 10, scripts: []string{"onto"}, maxField: 8, only: kindIn("message")},
	"leak":      {wide: 3, deep: 3, zeroish: 50, blobs: 0, unknown: 10, loose: 20, static: 5, scripts: []string{"leak", "leak2", "reuse", "leak", "hidden", "worn"}, badSess: 70, bad: 80, maxField: 8, only: kindIn("map", "rep", "message")},
}

type sgen struct {
	*G
	pr    *Profile
	m     *mctx
	ops   []Op
	o     *wireOpts
	nodes int
	large *Field // of the last big message
	deep  int    // levels of its messages
}

func (s *sgen) add(op Op) { s.ops = append(s.ops, op) }

func (s *sgen) value(t int) V {
	if s.deep > 0 {
		return s.m.chain(t, s.deep/2+s.Intn(s.deep), nesting)
	}
	s.m.budget = s.nodes
	return s.m.msg(t, 3)
}

func (s *sgen) wireOf(t int) V {
	if s.deep > 0 {
		o := *s.o
		o.bad = (o.bad + 9) / 10
		return s.m.wireChain(t, s.deep/2+s.Intn(s.deep), nesting, &o)
	}
	s.m.budget = s.nodes
	return s.m.wire(s.m.Types[t-1], 3, s.o)
}

func (s *sgen) goodWire(t int) V {
	o := *s.o
	o.bad = 0
	if s.deep > 0 {
		return s.m.wireChain(t, s.deep/2+s.Intn(s.deep), nesting, &o)
	}
	s.m.budget = s.nodes
	return s.m.wire(s.m.Types[t-1], 3, &o)
}

// big is a message with one large collection.
func (s *sgen) big(t, n int) V {
	v := s.value(t)
	s.large = nil
	var at []int
	for i, f := range s.m.Types[t-1] {
		if f.C == "rep" || f.C == "map" {
			at = append(at, i)
		}
	}
	if len(at) == 0 {
		return v
	}
	f := &s.m.Types[t-1][at[s.Intn(len(at))]]
	i := 0
	for j := range s.m.Types[t-1] {
		if f == &s.m.Types[t-1][j] {
			i = j
		}
	}
	s.large = f
	if f.C == "map" && n > 600 {
		n = 513 + s.Intn(80)
	}
	s.m.large = n
	s.m.budget = 4 * n
	v[i] = s.m.field(f, 1, true)
	s.m.large = 0
	return v
}

// source makes a message that is only read: it may have the same message at
// several places.
func (s *sgen) source(o, t int) {
	if s.deep > 0 || !s.p(1, 3) {
		s.add(Op{Op: "new", O: o, T: t, V: s.value(t)})
		return
	}
	s.m.again = map[int][]V{}
	s.add(Op{Op: "new", O: o, T: t, V: s.value(t), X: 1})
	s.m.again = nil
}

func (s *sgen) pickV(vs ...V) V { return vs[s.Intn(len(vs))] }

func (s *sgen) typ() int {
	if s.Intn(3) > 0 {
		return 1
	}
	return 1 + s.Intn(len(s.m.Types))
}

func (s *sgen) script(name string) {
	t := s.typ()
	zero := V{}
	switch name {
	case "rt":
		s.source(1, t)
		s.add(Op{Op: "marshal", O: 1, B: 1})
		s.add(Op{Op: "new", O: 2, T: t, V: zero})
		s.add(Op{Op: "unmarshal", O: 2, B: 1})
		s.add(Op{Op: "marshal", O: 2, B: 2})
		s.add(Op{Op: "new", O: 3, T: t, V: zero})
		s.add(Op{Op: "unmarshal", O: 3, B: 2})
	case "rt2": // into the reused message
		for i := 0; i < 3; i++ {
			s.source(1, t)
			s.add(Op{Op: "marshal", O: 1, B: 1})
			if i == 0 {
				s.add(Op{Op: "new", O: 2, T: t, V: zero})
			} else {
				s.add(Op{Op: "trunc", O: 2})
			}
			s.add(Op{Op: "unmarshal", O: 2, B: 1})
		}
	case "rtmix": // two types in turn
		u := 1 + s.Intn(len(s.m.Types))
		s.source(1, t)
		s.source(2, u)
		s.add(Op{Op: "marshal", O: 2, B: 2})
		s.add(Op{Op: "marshal", O: 1, B: 1})
		s.add(Op{Op: "new", O: 3, T: t, V: zero})
		s.add(Op{Op: "new", O: 4, T: u, V: zero})
		s.add(Op{Op: "unmarshal", O: 3, B: 1})
		s.add(Op{Op: "unmarshal", O: 4, B: 2})
	case "enc":
		for i := 0; i < 3; i++ {
			s.source(1, t)
			s.add(Op{Op: "marshal", O: 1, B: 1})
		}
	case "enc2": // a message that was decoded, then encoded
		s.add(Op{Op: "buf", B: 1, V: s.goodWire(t)})
		s.add(Op{Op: "new", O: 1, T: t, V: s.value(t)})
		s.add(Op{Op: "unmarshal", O: 1, B: 1})
		s.add(Op{Op: "marshal", O: 1, B: 2})
		s.add(Op{Op: "trunc", O: 1})
		s.add(Op{Op: "marshal", O: 1, B: 2})
	case "sizes": // message sizes around the length-prefix boundaries
		s.m.useBlob = true
		for i := 0; i < 2; i++ {
			s.source(1, t)
			s.add(Op{Op: "marshal", O: 1, B: 1})
		}
	case "wire":
		for i := 0; i < 2; i++ {
			s.add(Op{Op: "new", O: 1, T: t, V: zero})
			s.add(Op{Op: "buf", B: 1, V: s.goodWire(t)})
			s.add(Op{Op: "unmarshal", O: 1, B: 1})
		}
		s.add(Op{Op: "marshal", O: 1, B: 2})
	case "wiremsg": // into a message that already has content
		s.add(Op{Op: "new", O: 1, T: t, V: s.value(t)})
		s.add(Op{Op: "buf", B: 1, V: s.goodWire(t)})
		s.add(Op{Op: "unmarshal", O: 1, B: 1})
	case "onto": // over and over into messages that are there already
		s.nodes *= 2
		s.script("wiremsg")
		for i := 0; i < 2; i++ {
			s.add(Op{Op: "buf", B: 2 + i, V: s.goodWire(t)})
			s.add(Op{Op: "unmarshal", O: 1, B: 2 + i})
		}
	case "wirerep": // many elements
		s.o.maxField = 45
		s.m.zeroish = true
		s.nodes *= 2
		s.script("wire")
	case "wirebad":
		for i := 0; i < 3; i++ {
			s.add(Op{Op: "new", O: 1, T: t, V: zero})
			s.add(Op{Op: "buf", B: 1, V: s.wireOf(t)})
			s.add(Op{Op: "unmarshal", O: 1, B: 1})
		}
	case "mutate":
		w := s.goodWire(t)
		for i := 0; i < 4; i++ {
			s.add(Op{Op: "new", O: 1, T: t, V: zero})
			s.add(Op{Op: "buf", B: 1, V: s.mutate(w)})
			s.add(Op{Op: "unmarshal", O: 1, B: 1})
		}
	case "noise":
		for i := 0; i < 4; i++ {
			n := s.Intn(24)
			r := make(V, n)
			for j := range r {
				r[j] = s.pick(s.Intn(256), s.Intn(256), 8*(1+s.Intn(4))+s.pick(0, 1, 2, 5), s.Intn(4), 0x80, 0xff)
			}
			s.add(Op{Op: "new", O: 1, T: t, V: zero})
			s.add(Op{Op: "buf", B: 1, V: r})
			s.add(Op{Op: "unmarshal", O: 1, B: 1})
		}
	case "hostile": // every claim of a length
		fs := s.m.Types[t-1]
		if len(fs) == 0 {
			fs = []Field{{N: 1, K: "bytes", C: "plain"}} // undeclared
		}
		for i := 0; i < 5; i++ {
			f := fs[s.Intn(len(fs))]
			n := s.u64()
			if s.p(1, 2) {
				n = []uint64{1 << 24, 1 << 28, 1<<31 - 1, 1 << 31, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1, 1<<64 - 16, 1<<62 + 1}[s.Intn(10)]
			}
			num := uint64(f.N)
			if s.p(1, 4) {
				num = s.m.unknownNum(fs)
			}
			body := V{}
			if f.K == "message" && s.p(1, 2) {
				body = s.wireOf(f.M)
			} else if f.C == "map" && s.p(1, 2) {
				body = cat(V{s.pick(0x0a, 0x12)}, varint(s.u64()))
				n = uint64(len(body))
			} else {
				body = s.m.fixed(s.Intn(12))
			}
			s.add(Op{Op: "new", O: 1, T: t, V: zero})
			s.add(Op{Op: "buf", B: 1, V: cat(s.wireOf(t), varint(num<<3|2), varint(n), body)})
			s.add(Op{Op: "unmarshal", O: 1, B: 1})
		}
	case "merge":
		a, b := s.goodWire(t), s.goodWire(t)
		s.add(Op{Op: "new", O: 1, T: t, V: zero})
		s.add(Op{Op: "buf", B: 1, V: a})
		s.add(Op{Op: "buf", B: 2, V: b})
		s.add(Op{Op: "unmarshal", O: 1, B: 1})
		s.add(Op{Op: "unmarshal", O: 1, B: 2})
		s.add(Op{Op: "cat", B: 3, F: []int{1, 2}})
		s.add(Op{Op: "new", O: 2, T: t, V: zero})
		s.add(Op{Op: "unmarshal", O: 2, B: 3})
	case "merge3":
		s.add(Op{Op: "new", O: 1, T: t, V: zero})
		for i := 1; i <= 3; i++ {
			s.add(Op{Op: "buf", B: i, V: s.goodWire(t)})
			s.add(Op{Op: "unmarshal", O: 1, B: i})
		}
		s.add(Op{Op: "cat", B: 4, F: []int{1, 2, 3}})
		s.add(Op{Op: "new", O: 2, T: t, V: zero})
		s.add(Op{Op: "unmarshal", O: 2, B: 4})
	case "mergemsg": // encodings of two messages
		s.source(1, t)
		s.source(2, t)
		s.add(Op{Op: "marshal", O: 1, B: 1})
		s.add(Op{Op: "marshal", O: 2, B: 2})
		s.add(Op{Op: "cat", B: 3, F: []int{1, 2}})
		s.add(Op{Op: "new", O: 3, T: t, V: zero})
		s.add(Op{Op: "unmarshal", O: 3, B: 3})
		s.add(Op{Op: "new", O: 4, T: t, V: zero})
		s.add(Op{Op: "unmarshal", O: 4, B: 1})
		s.add(Op{Op: "unmarshal", O: 4, B: 2})
	case "iso":
		s.add(Op{Op: "new", O: 1, T: t, V: zero})
		s.add(Op{Op: "new", O: 2, T: t, V: s.value(t)})
		s.add(Op{Op: "buf", B: 1, V: s.goodWire(t)})
		s.add(Op{Op: "unmarshal", O: 1, B: 1})
		s.add(Op{Op: "pokebuf", B: 1, X: s.Intn(256)})
		s.add(Op{Op: "marshal", O: 2, B: 2})
		s.add(Op{Op: "marshal", O: 2, B: 3})
		s.add(Op{Op: "pokeobj", O: 2, X: s.Intn(256)})
		s.add(Op{Op: "pokebuf", B: 2, X: s.Intn(256)})
		s.add(Op{Op: "new", O: 3, T: t, V: zero})
		s.add(Op{Op: "unmarshal", O: 3, B: 3})
		s.add(Op{Op: "pokebuf", B: 3, X: s.Intn(256)})
		s.add(Op{Op: "gc"})
		s.add(Op{Op: "pokeobj", O: 1, X: s.Intn(256)})
	case "iso3": // several results alive, grown by their owner
		for i := 1; i <= 3; i++ {
			s.add(Op{Op: "new", O: i, T: t, V: s.value(t)})
			s.add(Op{Op: "marshal", O: i, B: i})
		}
		for i := 0; i < 3; i++ {
			b := 1 + s.Intn(3)
			r := make(V, 1+s.Intn(40))
			for j := range r {
				r[j] = s.Intn(256)
			}
			s.add(Op{Op: "append", B: b, V: r})
			if s.p(1, 2) {
				s.add(Op{Op: "pokebuf", B: b, X: s.Intn(256)})
			}
			if s.p(1, 2) {
				s.add(Op{Op: "marshal", O: 1 + s.Intn(3), B: 4})
			}
		}
	case "hidden": // elements a message no longer shows are somebody else's
		s.add(Op{Op: "new", O: 1, T: t, V: s.value(t)})
		if s.p(1, 2) {
			s.add(Op{Op: "buf", B: 1, V: s.goodWire(t)})
			s.add(Op{Op: "unmarshal", O: 1, B: 1})
		}
		s.add(Op{Op: "hide", O: 1, F: []int{2}})
		s.add(Op{Op: "buf", B: 2, V: s.goodWire(t)})
		s.add(Op{Op: "unmarshal", O: 1, B: 2})
		s.add(Op{Op: "hide", O: 1, F: []int{3}})
		s.add(Op{Op: "buf", B: 3, V: s.wireOf(t)})
		s.add(Op{Op: "unmarshal", O: 1, B: 3})
		s.add(Op{Op: "marshal", O: 2, B: 4})
		s.add(Op{Op: "unmarshal", O: 3, B: 4})
	case "big": // a large collection, there and back, and again
		n := s.pick(100, 127, 128, 255, 256, 257, 300, 511, 512, 513, 700, 1000, 1024, 1025, 2048, 3000)
		s.add(Op{Op: "new", O: 1, T: t, V: s.big(t, n)})
		s.add(Op{Op: "marshal", O: 1, B: 1})
		s.add(Op{Op: "new", O: 2, T: t, V: zero})
		s.add(Op{Op: "unmarshal", O: 2, B: 1})
		if s.p(1, 2) {
			s.add(Op{Op: "hide", O: 2, F: []int{3}})
			s.add(Op{Op: "unmarshal", O: 2, B: 1})
		}
	case "bigmerge":
		n := s.pick(60, 100, 128, 200, 256, 300, 500, 513)
		s.add(Op{Op: "new", O: 1, T: t, V: s.big(t, n)})
		s.add(Op{Op: "marshal", O: 1, B: 1})
		if s.p(1, 2) {
			s.add(Op{Op: "new", O: 1, T: t, V: s.big(t, s.pick(1, 20, n))})
			s.add(Op{Op: "marshal", O: 1, B: 2})
		} else {
			w := s.goodWire(t)
			if f := s.large; f != nil { // everything an occurrence can be
				o := *s.o
				o.bad = 0
				s.m.budget = 200
				for i := 0; i < 16; i++ {
					if f.C == "map" {
						w = cat(w, s.m.tag(uint64(f.N), 2, &o), s.m.lenPrefixed(s.m.entry(f, 2, &o), &o))
					} else {
						w = cat(w, s.m.tag(uint64(f.N), wtOf(f.K), &o), s.m.payloadOf(f.K, f.M, 2, &o))
					}
				}
			}
			s.add(Op{Op: "buf", B: 2, V: w})
		}
		s.add(Op{Op: "cat", B: 3, F: []int{1, 2}})
		s.add(Op{Op: "new", O: 2, T: t, V: zero})
		s.add(Op{Op: "unmarshal", O: 2, B: 1})
		s.add(Op{Op: "unmarshal", O: 2, B: 2})
		s.add(Op{Op: "new", O: 3, T: t, V: zero})
		s.add(Op{Op: "unmarshal", O: 3, B: 3})
	case "iso2": // two messages decoded from one buffer
		s.add(Op{Op: "buf", B: 1, V: s.goodWire(t)})
		s.add(Op{Op: "new", O: 1, T: t, V: zero})
		s.add(Op{Op: "new", O: 2, T: t, V: s.value(t)})
		s.add(Op{Op: "unmarshal", O: 1, B: 1})
		s.add(Op{Op: "unmarshal", O: 2, B: 1})
		s.add(Op{Op: "pokeobj", O: 1, X: s.Intn(256)})
		s.add(Op{Op: "unmarshal", O: 1, B: 1})
		s.add(Op{Op: "gc"})
		s.add(Op{Op: "marshal", O: 1, B: 2})
		s.add(Op{Op: "marshal", O: 2, B: 3})
		s.add(Op{Op: "pokebuf", B: 1, X: s.Intn(256)})
		s.add(Op{Op: "pokeobj", O: 2, X: s.Intn(256)})
	case "leak": // what one decode leaves behind must not reach the next
		s.add(Op{Op: "new", O: 1, T: t, V: zero})
		s.add(Op{Op: "new", O: 2, T: t, V: zero})
		for i := 0; i < 4; i++ {
			w := s.wireOf(t)
			if s.p(1, 3) {
				w = s.mutate(w)
			}
			s.add(Op{Op: "buf", B: 1, V: w})
			s.add(Op{Op: "unmarshal", O: 1, B: 1})
			s.add(Op{Op: "buf", B: 2, V: s.goodWire(t)})
			s.add(Op{Op: "unmarshal", O: 2, B: 2})
		}
		s.add(Op{Op: "marshal", O: 2, B: 3})
	case "worn": // however often something failed before
		s.add(Op{Op: "new", O: 1, T: t, V: s.value(t)})
		s.add(Op{Op: "new", O: 2, T: t, V: zero})
		for i := 0; i < 2; i++ {
			w := s.wireOf(t)
			if s.p(1, 2) {
				w = s.mutate(w)
			}
			s.add(Op{Op: "buf", B: 1, V: w})
			s.add(Op{Op: "many", O: 1, B: 1, X: s.pick(3, 300, 3000, 3000, 70000)})
			s.add(Op{Op: "unmarshal", O: 1, B: 1})
			s.add(Op{Op: "buf", B: 2, V: s.goodWire(t)})
			s.add(Op{Op: "unmarshal", O: 2, B: 2})
			s.add(Op{Op: "marshal", O: 2, B: 3})
		}
	case "leak2":
		s.add(Op{Op: "new", O: 1, T: t, V: s.value(t)})
		for i := 0; i < 3; i++ {
			s.add(Op{Op: "buf", B: 1, V: s.mutate(s.wireOf(t))})
			s.add(Op{Op: "unmarshal", O: 1, B: 1})
			s.add(Op{Op: "buf", B: 2, V: s.goodWire(t)})
			s.add(Op{Op: "unmarshal", O: 1, B: 2})
		}
	case "huge":
		s.m.blobs = append(s.m.blobs, Blob{1<<28 - s.Intn(12), s.Int63()})
		r, n := V{-1}, s.Intn(5)
		v := V{V{}, V{}, V{}, V{}, V{}}
		v[n] = []any{r, V{V{r}}, V{V{word(7), r}}, V{V{V{r}, word(1)}}, V{V{V{V{r}, word(0)}}, V{V{V{}, word(2)}}}}[n]
		s.add(Op{Op: "new", O: 1, T: 1, V: v})
		s.add(Op{Op: "marshal", O: 1, B: 1})
		s.add(Op{Op: "new", O: 2, T: 1, V: zero})
		s.add(Op{Op: "unmarshal", O: 2, B: 1})
	case "fail": // half-way, into a message that has content, and on from there
		s.add(Op{Op: "new", O: 1, T: t, V: s.value(t)})
		for i := 0; i < 2; i++ {
			w := cat(s.goodWire(t), s.wireOf(t))
			if s.p(1, 3) {
				w = cat(s.goodWire(t), s.mutate(s.goodWire(t)), s.goodWire(t))
			}
			s.add(Op{Op: "buf", B: 1, V: w})
			s.add(Op{Op: "unmarshal", O: 1, B: 1})
			s.add(Op{Op: "marshal", O: 1, B: 2})
		}
		s.add(Op{Op: "buf", B: 3, V: s.goodWire(t)})
		s.add(Op{Op: "unmarshal", O: 1, B: 3})
		s.add(Op{Op: "marshal", O: 1, B: 2})
	case "fail2": // cut at several places
		w := s.goodWire(t)
		for i := 0; i < 4; i++ {
			s.add(Op{Op: "new", O: 1, T: t, V: s.pickV(zero, s.value(t))})
			cut := len(w)
			if cut > 0 {
				cut = s.Intn(cut)
			}
			s.add(Op{Op: "buf", B: 1, V: w[:cut:cut]})
			s.add(Op{Op: "unmarshal", O: 1, B: 1})
		}
		s.add(Op{Op: "marshal", O: 1, B: 2})
	case "reuse":
		s.add(Op{Op: "new", O: 1, T: t, V: s.value(t)})
		for i := 0; i < 3; i++ {
			s.add(Op{Op: "trunc", O: 1})
			s.add(Op{Op: "buf", B: 1, V: s.goodWire(t)})
			s.add(Op{Op: "unmarshal", O: 1, B: 1})
			if s.p(1, 2) {
				s.add(Op{Op: "buf", B: 2, V: s.mutate(s.wireOf(t))})
				s.add(Op{Op: "unmarshal", O: 1, B: 2})
			}
		}
		s.add(Op{Op: "marshal", O: 1, B: 2})
	default:
		panic("script " + name)
	}
}

// generate makes n sessions of a profile; everything depends only on seed.
func generate(p *Profile, seed int64, n, per, nodes int) (cat []*Schema, out []*Session) {
	g := newG(seed)
	for len(out) < n {
		var sc *Schema
		deep, wide := false, false
		if names := genNames(); len(names) > 0 { // emitted types only
			sc = &Schema{Static: "gen:" + names[len(cat)%len(names)]}
			sc.build()
		} else if p.scripts[0] == "huge" {
			sc = &Schema{Seed: g.Int63(), Types: [][]Field{{{N: 1, K: "string", C: "plain"}, {N: 2, K: "bytes", C: "rep"},
				{N: 3, K: "string", C: "map", KK: "int32"}, {N: 4, K: "message", C: "plain", M: 2}, {N: 5, K: "message", C: "rep", M: 2}},
				{{N: 1, K: "bytes", C: "plain"}, {N: 2, K: "sint32", C: "plain"}}}}
			sc.build()
		} else if g.Intn(100) < p.static {
			sc = &Schema{Static: []string{"Rec", "Mut", "Mut2", "Same", "Emas", "Def"}[g.Intn(6)]}
			sc.build()
		} else if g.Intn(100) < p.deep {
			sc = &Schema{Static: []string{"Rec", "Mut", "Mut2"}[g.Intn(3)]}
			sc.build()
			deep = true
		} else if g.Intn(100) < p.wide {
			sc = g.wide(p.only)
			wide = true
		} else {
			sc = g.schema(p.only)
		}
		cat = append(cat, sc)
		for i := 0; i < per && len(out) < n; i++ {
			sg := &sgen{G: &G{Rand: rand.New(rand.NewSource(g.Int63()))}, pr: p, nodes: nodes}
			o := &wireOpts{unknown: p.unknown, loose: sg.Intn(100) < p.loose, maxField: p.maxField}
			if sg.Intn(100) < p.badSess {
				o.bad = p.bad
			}
			sg.o = o
			sg.m = &mctx{ctx: &ctx{Schema: sc}, g: sg.G, useBlob: sg.Intn(100) < p.blobs, zeroish: sg.Intn(100) < p.zeroish, full: 75}
			if wide {
				sg.m.full = sg.pick(2, 5, 20, 50, 95, 100)
				sg.o.maxField = sg.pick(4, 10, 40)
				if nodes < 14 && sg.m.full > 50 { // small sessions
					sg.m.full = 50
				}
				if sg.m.full == 100 { // as many values as there are fields
					sg.nodes = 400
				}
				sg.m.useBlob = false
			}
			if deep {
				sg.deep = sg.pick(3, 20, 40, 70, 100, 150)
				if nodes < 14 {
					sg.deep = sg.pick(3, 8, 12, 20, 30)
				}
				sg.m.straight = sg.p(1, 2)
				sg.m.useBlob = false
			}
			sg.script(p.scripts[sg.Intn(len(p.scripts))])
			out = append(out, &Session{ID: len(out), Schema: len(cat), Blobs: sg.m.blobs, Ops: sg.ops})
		}
	}
	return
}
