package main

// Random schemas, message values and wire inputs, biased to boundaries.

import (
	"math/rand"
)

type G struct {
	*rand.Rand
	combos []Field // (kind, cardinality, key kind) still to be used, so that every one is
}

func newG(seed int64) *G { return &G{Rand: rand.New(rand.NewSource(seed))} }

func (g *G) pick(xs ...int) int  { return xs[g.Intn(len(xs))] }
func (g *G) p(num, den int) bool { return g.Intn(den) < num }

var allKinds = []string{"bool", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32",
	"fixed64", "sfixed32", "sfixed64", "float", "double", "string", "bytes", "message"}
var keyKinds = []string{"bool", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32",
	"fixed64", "sfixed32", "sfixed64", "string"}

func allCombos() (out []Field) {
	for _, k := range allKinds {
		out = append(out, Field{K: k, C: "plain"}, Field{K: k, C: "rep"})
		if k != "bytes" && k != "message" {
			out = append(out, Field{K: k, C: "opt"}, Field{K: k, C: "ptr"})
		}
		for _, kk := range keyKinds {
			out = append(out, Field{K: k, C: "map", KK: kk})
		}
	}
	return
}

func (g *G) combo() Field {
	// map combinations outnumber the rest: take them less often
	if len(g.combos) == 0 {
		g.combos = allCombos()
		for i := 0; i < 3; i++ {
			for _, f := range allCombos() {
				if f.C != "map" {
					g.combos = append(g.combos, f)
				}
			}
		}
		g.Shuffle(len(g.combos), func(i, j int) { g.combos[i], g.combos[j] = g.combos[j], g.combos[i] })
	}
	f := g.combos[len(g.combos)-1]
	g.combos = g.combos[:len(g.combos)-1]
	return f
}

func (g *G) fieldNumber(used map[int]bool) int {
	for {
		var n int
		switch g.Intn(4) {
		case 0:
			n = 1 + g.Intn(6)
		case 1:
			n = g.pick(15, 16, 17, 127, 128, 2047, 2048, 4095, 262143, 262144, 33554431, 33554432, 536870911)
		case 2:
			n = 1 + g.Intn(40)
		default:
			n = 1 + g.Intn(1<<uint(1+g.Intn(28)))
		}
		if !used[n] {
			used[n] = true
			return n
		}
	}
}

// schema makes 1 to 4 message types; type i refers to later ones only.
func (g *G) schema(filter func(Field) bool) *Schema {
	s := &Schema{}
	nt := 1 + g.Intn(4)
	for i := 1; i <= nt; i++ {
		used := map[int]bool{}
		var fs []Field
		nf := 1 + g.Intn(5)
		if i > 1 {
			nf = 1 + g.Intn(3)
		}
		for len(fs) < nf {
			f := g.combo()
			if filter != nil && !filter(f) {
				if !g.p(1, 6) {
					continue
				}
			}
			if f.K == "message" {
				if i == nt {
					continue
				}
				f.M = i + 1 + g.Intn(nt-i)
			}
			f.N = g.fieldNumber(used)
			fs = append(fs, f)
		}
		s.Types = append(s.Types, fs)
	}
	s.Seed = g.Int63()
	s.build()
	return s
}

// wide makes a type of many fields.
func (g *G) wide(filter func(Field) bool) *Schema {
	s := &Schema{}
	n := g.pick(9, 17, 31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 200, 255, 256, 257, 300)
	style, next := g.Intn(4), 1
	used := map[int]bool{}
	var fs []Field
	only := ""
	if g.p(1, 3) {
		only = allKinds[g.Intn(len(allKinds))]
	}
	for len(fs) < n {
		f := g.combo()
		if filter != nil && !filter(f) && !g.p(1, 6) {
			continue
		}
		if only != "" && f.C != "map" && (f.C == "plain" || f.C == "rep" || only != "bytes" && only != "message") {
			f.K = only
		}
		if f.K == "message" {
			f.M = 2
		}
		switch style {
		case 0: // dense
			f.N = next
			next++
		case 1: // with holes
			f.N = next
			next += 1 + g.Intn(3)
		case 2: // apart
			f.N = next
			next += 1 + g.Intn(g.pick(70, 1000, 1000000))
		default:
			f.N = g.fieldNumber(used)
		}
		fs = append(fs, f)
	}
	if g.p(1, 3) { // declared in any order
		g.Shuffle(n, func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
	}
	s.Types = [][]Field{fs, {{N: 1, K: "int32", C: "plain"}, {N: 2, K: "string", C: "plain"}}}
	s.Seed = g.Int63()
	s.build()
	return s
}

func (g *G) u64() uint64 {
	switch g.Intn(8) {
	case 0:
		return uint64(g.Intn(3))
	case 1:
		return 1 << uint(g.Intn(64))
	case 2:
		return 1<<uint(g.Intn(64)) - 1
	case 3:
		return -(1 << uint(g.Intn(64)))
	case 4:
		return -(1 << uint(g.Intn(64))) - 1
	case 5:
		return 1<<uint(7*g.Intn(10)) + uint64(g.Intn(3)) - 1
	case 6:
		return 1<<31 + uint64(g.Intn(5)) - 2
	}
	return g.Uint64() >> uint(g.Intn(64))
}

// scalar gives a word in the range of the kind.
func (g *G) scalar(k string) V {
	u := g.u64()
	switch k {
	case "bool":
		return word(u & 1)
	case "int32", "sint32", "sfixed32":
		return word(uint64(int64(int32(u))))
	case "uint32", "fixed32":
		return word(uint64(uint32(u)))
	case "float":
		if g.p(1, 2) {
			return word([]uint64{0, 0x80000000, 0x7f800000, 0xff800000, 0x7fc00000, 0x7fa00001, 1, 0x3f800000, 0xff7fffff}[g.Intn(9)])
		}
		return word(uint64(uint32(u)))
	case "double":
		if g.p(1, 2) {
			return word([]uint64{0, 1 << 63, 0x7ff << 52, 0xfff << 52, 0x7ff8 << 48, 0x7ff4<<48 | 1, 1, 0x3ff << 52}[g.Intn(8)])
		}
		return word(u)
	}
	return word(u)
}

// mctx is what message and wire generation need: the schema and the blobs.
type mctx struct {
	*ctx
	g        *G
	useBlob  bool
	budget   int // of values, to bound the event
	zeroish  bool
	large    int         // elements of the next collection
	full     int         // percent of fields that are present
	straight bool        // messages inside plain fields only
	long     bool        // payloads that have memory of their own
	again    map[int][]V // messages made before, to be made again
	blobs    []Blob
}

func (m *mctx) payload() V {
	g := m.g
	if m.useBlob && g.p(1, 3) && len(m.bl) < 3 {
		n := g.pick(100+g.Intn(60), 255+g.Intn(3), 1022+g.Intn(4), 4094+g.Intn(4), 32766+g.Intn(4), 65534+g.Intn(4), 1<<20-1+g.Intn(3), 127, 128, 129, 118+g.Intn(12), 16370+g.Intn(20), 16383, 16384, 200+g.Intn(3000), 1<<21-g.Intn(12), 1<<21+g.Intn(3))
		if n > 1<<20 && !g.p(1, 4) {
			n = 16384
		}
		m.blobs = append(m.blobs, Blob{n, g.Int63()})
		m.bl = append(m.bl, m.blobs[len(m.blobs)-1].make())
		r := V{-len(m.bl)}
		if g.p(1, 4) {
			r = append(V{g.Intn(256)}, r...)
		}
		return r
	}
	n := g.pick(0, 0, 1, 1, 2, 3, g.Intn(8), g.Intn(20))
	if g.p(1, 20) {
		n = g.pick(20+g.Intn(110), 63, 64, 65, 126, 127, 128, 129)
	}
	if m.long {
		n += 16
	}
	r := make(V, n)
	for i := range r {
		r[i] = g.Intn(256)
		if g.p(1, 3) {
			r[i] = g.pick(0, 0x0a, 0x7f, 0x80, 0xff)
		}
	}
	return r
}

func (m *mctx) elem(f *Field, depth int) V {
	g := m.g
	m.budget--
	switch f.K {
	case "string":
		if m.zeroish && g.p(1, 2) {
			return V{}
		}
		return m.payload()
	case "bytes":
		if g.p(1, 5) {
			return V{}
		}
		if m.zeroish && g.p(1, 2) {
			return V{V{}}
		}
		return V{m.payload()}
	case "message":
		if f.C != "rep" && (g.p(1, 5) || depth <= 0) {
			return V{}
		}
		if l := m.again[f.M]; len(l) > 0 && g.p(1, 2) {
			return V{l[g.Intn(len(l))]}
		}
		full := m.full
		if m.zeroish && g.p(1, 4) {
			m.full = 0 // there, and nothing in it
		}
		v := m.msg(f.M, depth-1)
		m.full = full
		if m.again != nil {
			m.again[f.M] = append(m.again[f.M], v)
		}
		return V{v}
	}
	if m.zeroish && g.p(1, 2) {
		return word(0)
	}
	return g.scalar(f.K)
}

func (m *mctx) count() int {
	g := m.g
	if n := m.large; n > 0 {
		m.large = 0
		return n
	}
	if m.budget <= 0 {
		return 0
	}
	n := g.pick(0, 1, 2, 3, g.Intn(6))
	if g.p(1, 25) && m.budget > 60 {
		n = g.pick(8, 9, 10, 11, 16, 17, 20, 21, 33, 41)
	}
	return n
}

func (m *mctx) msg(t, depth int) V {
	g := m.g
	fs := m.Types[t-1]
	out := make(V, len(fs))
	for i := range fs {
		out[i] = m.field(&fs[i], depth, g.Intn(100) < m.full)
	}
	return out
}

// link is a field of type t that holds messages, and t has one.
func (m *mctx) link(t int) int {
	fs := m.Types[t-1]
	var any, plain []int
	for i := range fs {
		if fs[i].K == "message" {
			any = append(any, i)
			if fs[i].C == "plain" {
				plain = append(plain, i)
			}
		}
	}
	if m.straight && len(plain) > 0 {
		any = plain
	}
	return any[m.g.Intn(len(any))]
}

// How deep the projection of a value may be: what TLC reads has a limit of 255.
const nesting = 225

var nests = map[string]int{"plain": 2, "rep": 3, "map": 4}

// chain is a message that has n more inside each other.
func (m *mctx) chain(t, n, nest int) V {
	g := m.g
	m.budget = g.pick(0, 0, 1, 3)
	v := m.msg(t, 1)
	if n <= 0 || nest <= 0 {
		return v
	}
	i := m.link(t)
	f := &m.Types[t-1][i]
	inner := V{m.chain(f.M, n-1, nest-nests[f.C])}
	switch f.C {
	case "plain":
		v[i] = inner
	case "rep":
		v[i] = V{inner}
	default:
		m.budget = 1
		v[i] = V{V{m.elem(&Field{K: f.KK}, 0), inner}}
	}
	return v
}

// wireChain is the encoding of one; any of its levels may have more fields.
func (m *mctx) wireChain(t, n, nest int, o *wireOpts) V {
	g := m.g
	side := func() V {
		if g.p(2, 3) {
			return nil
		}
		m.budget = 2
		o2 := *o
		o2.maxField = 2
		return m.wire(m.Types[t-1], 1, &o2)
	}
	if n <= 0 || nest <= 0 {
		return side()
	}
	f := &m.Types[t-1][m.link(t)]
	body := m.lenPrefixed(m.wireChain(f.M, n-1, nest-nests[f.C], o), o)
	if f.C == "map" {
		m.budget = 2
		body = cat(m.tag(2, 2, o), body)
		key := cat(m.tag(1, wtOf(f.KK), o), m.payloadOf(f.KK, 0, 0, o))
		switch g.Intn(4) {
		case 0:
			body = cat(body, key)
		case 1:
		default:
			body = cat(key, body)
		}
		body = m.lenPrefixed(body, o)
	}
	return cat(side(), m.tag(uint64(f.N), 2, o), body, side())
}

func (m *mctx) field(f *Field, depth int, present bool) V {
	if m.budget <= 0 || depth < 0 {
		present = false
	}
	switch f.C {
	case "plain":
		if !present {
			if isScalar(f.K) {
				return word(0)
			}
			return V{}
		}
		return m.elem(f, depth)
	case "opt", "ptr":
		if !present {
			return V{}
		}
		return V{m.elem(f, depth)}
	case "rep":
		l := V{}
		for n := m.count(); present && n > 0; n-- {
			l = append(l, m.elem(f, depth))
		}
		return l
	}
	l := V{}
	seen := map[string]bool{}
	kf := &Field{K: f.KK}
	zeroish := m.zeroish
	defer func() { m.zeroish = zeroish }()
	n := m.count()
	for tries := n + n/2; present && len(l) < n && tries > 0; tries-- {
		m.zeroish = zeroish && n < 50
		k := m.elem(kf, 0)
		m.zeroish = zeroish
		if n >= 50 && wtOf(f.KK) != 2 && f.KK != "bool" { // distinct
			k[0], k[1] = len(l)%256, len(l)/256
		}
		if s := string(m.bl.bytes(k)); !seen[s] {
			seen[s] = true
			l = append(l, V{k, m.elem(f, depth-1)})
		}
	}
	return l
}

// ------------------------------------------------------------------ wire

func varint(u uint64) V {
	var r V
	for u >= 0x80 {
		r = append(r, int(byte(u)|0x80))
		u >>= 7
	}
	return append(r, int(u))
}

// looseVarint may be longer than needed, and still be valid.
func (g *G) looseVarint(u uint64) V {
	r := varint(u)
	if g.p(1, 4) {
		for n := g.Intn(11 - len(r)); n > 0; n-- {
			r[len(r)-1] = r[len(r)-1].(int) | 0x80
			r = append(r, 0)
		}
	}
	return r
}

// badVarint is none: too long, too large or not ended.
func (g *G) badVarint() V {
	r := V{}
	n := g.pick(9, 9, 10, 11, 14)
	for i := 0; i < n; i++ {
		r = append(r, 0x80|g.Intn(128))
	}
	switch {
	case n == 9:
		r = append(r, g.pick(2, 3, 64, 127))
	case g.p(2, 3):
		r = append(r, g.Intn(2))
	}
	return r
}

func (m *mctx) ropeLen(r V) (n int) {
	for _, it := range r {
		if x := it.(int); x >= 0 {
			n++
		} else {
			n += len(m.bl[-x-1])
		}
	}
	return
}

type wireOpts struct {
	unknown  int // percent of fields that are unknown
	bad      int // per mille of pieces that are malformed
	loose    bool
	maxField int
}

func (m *mctx) tag(n uint64, wt int, o *wireOpts) V {
	u := n<<3 | uint64(wt)
	if o.loose {
		return m.g.looseVarint(u)
	}
	return varint(u)
}

func cat(xs ...V) V {
	r := V{}
	for _, x := range xs {
		r = append(r, x...)
	}
	return r
}

func (m *mctx) lenPrefixed(body V, o *wireOpts) V {
	g := m.g
	n := uint64(m.ropeLen(body))
	if g.Intn(1000) < o.bad {
		switch g.Intn(4) {
		case 0:
			n += uint64(1 + g.Intn(3))
		case 1:
			n = []uint64{1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1, 1<<64 - 2, 1<<64 - 12, 1<<62 + 5, 1<<32 + n, 1<<63 + n}[g.Intn(12)]
		case 2:
			if n > 0 {
				n -= 1
			}
		default:
			n = g.u64()
		}
	}
	if o.loose {
		return cat(g.looseVarint(n), body)
	}
	return cat(varint(n), body)
}

func (m *mctx) fixed(n int) V {
	r := make(V, n)
	for i := range r {
		r[i] = m.g.Intn(256)
		if m.g.p(1, 3) {
			r[i] = m.g.pick(0, 255, 0x80)
		}
	}
	return r
}

func (m *mctx) payloadOf(k string, msgType, depth int, o *wireOpts) V {
	g := m.g
	m.budget--
	switch {
	case k == "message":
		if depth <= 0 || m.budget <= 0 {
			return m.lenPrefixed(V{}, o)
		}
		return m.lenPrefixed(m.wire(m.Types[msgType-1], depth-1, o), o)
	case k == "string" || k == "bytes":
		return m.lenPrefixed(m.payload(), o)
	case wireName(k) == "fixed32":
		return m.fixed(4)
	case wireName(k) == "fixed64":
		return m.fixed(8)
	}
	if g.Intn(1000) < o.bad {
		return g.badVarint()
	}
	u := g.u64()
	if g.p(1, 3) {
		u = uint64(g.Intn(3))
	}
	if o.loose {
		return g.looseVarint(u)
	}
	return varint(u)
}

func wtOf(k string) int {
	switch wireName(k) {
	case "fixed32":
		return 5
	case "fixed64":
		return 1
	case "bytes":
		return 2
	}
	return 0
}

// unknownNum is a field number the type does not have, often an alias of one
// it has under truncation.
func (m *mctx) unknownNum(fs []Field) uint64 {
	g := m.g
	for {
		var n uint64
		switch g.Intn(4) {
		case 0:
			n = uint64(1 + g.Intn(40))
		case 1:
			var f Field
			if len(fs) > 0 {
				f = fs[g.Intn(len(fs))]
			}
			n = uint64(f.N) + []uint64{1 << 29, 1 << 32, 1 << 60, 1 << 16, 1 << 8, 1 << 31, 1 << 61 >> 1, 1}[g.Intn(8)]
		case 2:
			n = g.u64() >> 3
		default:
			n = uint64(g.pick(0, 15, 16, 2047, 2048, 536870911, 536870912, 19000))
		}
		ok := n < 1<<61
		for _, f := range fs {
			if uint64(f.N) == n {
				ok = false
			}
		}
		if ok {
			return n
		}
	}
}

func (m *mctx) unknown(fs []Field, o *wireOpts) V {
	g := m.g
	n := m.unknownNum(fs)
	if g.Intn(1000) < o.bad {
		// groups and reserved wire types, or a bad varint
		if g.p(1, 3) {
			return cat(m.tag(n, 0, o), g.badVarint())
		}
		return cat(m.tag(n, g.pick(3, 4, 6, 7), o), m.fixed(g.Intn(4)))
	}
	switch g.Intn(4) {
	case 0:
		return cat(m.tag(n, 0, o), m.payloadOf("uint64", 0, 0, o))
	case 1:
		return cat(m.tag(n, 1, o), m.fixed(8))
	case 2:
		return cat(m.tag(n, 5, o), m.fixed(4))
	}
	if g.p(1, 3) && len(m.Types) > 0 { // unknown message that would be valid for this type
		b := m.budget
		m.budget = 3
		w := m.wire(m.Types[g.Intn(len(m.Types))], 1, &wireOpts{maxField: 3})
		m.budget = b
		return cat(m.tag(n, 2, o), m.lenPrefixed(w, o))
	}
	return cat(m.tag(n, 2, o), m.lenPrefixed(m.payload(), o))
}

func entryFields(f *Field) []Field {
	return []Field{{N: 1, K: f.KK, C: "plain"}, {N: 2, K: f.K, C: "plain", M: f.M}}
}

// wire makes the encoding of a message with the given fields.
func (m *mctx) wire(fs []Field, depth int, o *wireOpts) V {
	g := m.g
	r := V{}
	n := g.Intn(o.maxField + 1)
	var last *Field
	for ; n > 0 && m.budget > 0; n-- {
		if g.Intn(1000) < o.bad/2 {
			r = append(r, g.badVarint()...)
		}
		if len(fs) == 0 || g.Intn(100) < o.unknown {
			r = append(r, m.unknown(fs, o)...)
			continue
		}
		f := &fs[g.Intn(len(fs))]
		if last != nil && g.p(1, 3) {
			f = last // repeat: last value wins, merge, append
		}
		last = f
		k := f.K
		wt := wtOf(k)
		if f.C == "map" {
			wt = 2
		}
		if g.Intn(1000) < o.bad { // wrong wire type
			w := g.pick(0, 1, 2, 3, 4, 5, 6, 7)
			r = append(r, cat(m.tag(uint64(f.N), w, o), m.fixed(g.Intn(10)))...)
			continue
		}
		r = append(r, m.tag(uint64(f.N), wt, o)...)
		if f.C == "map" {
			r = append(r, m.lenPrefixed(m.entry(f, depth, o), o)...)
		} else {
			r = append(r, m.payloadOf(k, f.M, depth, o)...)
		}
	}
	return r
}

func (m *mctx) entry(f *Field, depth int, o *wireOpts) V {
	g := m.g
	m.budget--
	efs := entryFields(f)
	if g.p(1, 4) { // anything a two-field message can be
		o2 := *o
		o2.maxField = 4
		return m.wire(efs, depth, &o2)
	}
	piece := func(i int) V {
		k := efs[i].K
		if i == 0 && g.p(1, 2) && k != "string" { // few keys: collisions
			return cat(varint(uint64(1<<3|wtOf(k))), map[int]V{0: varint(uint64(g.Intn(3))), 1: {g.Intn(2), 0, 0, 0, 0, 0, 0, 0}, 5: {g.Intn(2), 0, 0, 0}}[wtOf(k)])
		}
		return cat(m.tag(uint64(i+1), wtOf(k), o), m.payloadOf(k, efs[i].M, depth-1, o))
	}
	switch g.Intn(8) {
	case 0:
		return piece(0)
	case 1:
		return piece(1)
	case 2:
		return V{}
	case 3:
		return cat(piece(1), piece(0))
	}
	return cat(piece(0), piece(1))
}

// mutate damages a rope: truncation, byte flips, insertions, deletions.
func (g *G) mutate(r V) V {
	r = append(V{}, r...)
	for n := 1 + g.Intn(2); n > 0 && len(r) > 0; n-- {
		i := g.Intn(len(r))
		switch g.Intn(5) {
		case 0:
			r = r[:i]
		case 1:
			if r[i].(int) >= 0 {
				r[i] = g.Intn(256)
			}
		case 2:
			if r[i].(int) >= 0 {
				r[i] = r[i].(int) ^ 1<<uint(g.Intn(8))
			}
		case 3:
			r = append(r[:i], append(V{g.pick(0, 1, 0x7f, 0x80, 0xff, g.Intn(256))}, r[i:]...)...)
		case 4:
			r = append(r[:i], r[i+1:]...)
		}
	}
	return r
}
