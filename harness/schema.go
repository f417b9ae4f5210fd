package main

// Schemas, their Go types, and the projection between Go messages and the
// abstract values of spec/Wire.tla.  This file is the trusted abstraction
// function: it never looks at wire bytes, and it uses only the public API of
// the package under test (Option).

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unsafe"

	"github.com/RomiChan/protobuf/proto"
)

// Field mirrors the field record of Wire.tla.
type Field struct {
	N  int    `json:"n"`
	K  string `json:"k"`
	C  string `json:"c"`
	M  int    `json:"m"`
	KK string `json:"kk"`

	idx int // index of the Go struct field
}

// Schema is a set of message types with their Go types. Seed decides the
// parts of the Go types that have no meaning (labels, extra tag options,
// fields the library has to leave alone); Static names types declared in
// static.go instead.
type Schema struct {
	Types  [][]Field `json:"types"`
	Seed   int64     `json:"seed"`
	Static string    `json:"static,omitempty"`

	Go  []reflect.Type `json:"-"`
	Aux [][]int        `json:"-"` // per type: indices of Go struct fields that must be left alone
}

var scalarGo = map[string]reflect.Type{
	"bool": reflect.TypeOf(false), "int32": reflect.TypeOf(int32(0)), "int64": reflect.TypeOf(int64(0)),
	"uint32": reflect.TypeOf(uint32(0)), "uint64": reflect.TypeOf(uint64(0)),
	"sint32": reflect.TypeOf(int32(0)), "sint64": reflect.TypeOf(int64(0)),
	"fixed32": reflect.TypeOf(uint32(0)), "fixed64": reflect.TypeOf(uint64(0)),
	"sfixed32": reflect.TypeOf(int32(0)), "sfixed64": reflect.TypeOf(int64(0)),
	"float": reflect.TypeOf(float32(0)), "double": reflect.TypeOf(float64(0)),
	"string": reflect.TypeOf(""), "bytes": reflect.TypeOf([]byte(nil)),
}

var optionGo = map[reflect.Kind]reflect.Type{
	reflect.Bool: reflect.TypeOf(proto.Option[bool]{}), reflect.Int32: reflect.TypeOf(proto.Option[int32]{}),
	reflect.Int64: reflect.TypeOf(proto.Option[int64]{}), reflect.Uint32: reflect.TypeOf(proto.Option[uint32]{}),
	reflect.Uint64: reflect.TypeOf(proto.Option[uint64]{}), reflect.Float32: reflect.TypeOf(proto.Option[float32]{}),
	reflect.Float64: reflect.TypeOf(proto.Option[float64]{}), reflect.String: reflect.TypeOf(proto.Option[string]{}),
}

func wireName(k string) string {
	switch k {
	case "bool", "int32", "int64", "uint32", "uint64":
		return "varint"
	case "sint32":
		return "zigzag32"
	case "sint64":
		return "zigzag64"
	case "fixed32", "sfixed32", "float":
		return "fixed32"
	case "fixed64", "sfixed64", "double":
		return "fixed64"
	}
	return "bytes"
}

func isScalar(k string) bool { return k != "string" && k != "bytes" && k != "message" }

func (s *Schema) goFieldType(f Field) reflect.Type {
	var base reflect.Type
	if f.K == "message" {
		base = reflect.PtrTo(s.Go[f.M-1])
	} else {
		base = scalarGo[f.K]
	}
	switch f.C {
	case "opt":
		return optionGo[base.Kind()]
	case "ptr":
		return reflect.PtrTo(base)
	case "rep":
		return reflect.SliceOf(base)
	case "map":
		return reflect.MapOf(scalarGo[f.KK], base)
	}
	return base
}

// fieldTag is the struct tag of the field, as protoc-gen-golite writes it.
func fieldTag(f Field, label, suffix string) string {
	if f.C == "rep" || f.C == "map" {
		label = "rep"
	}
	t := fmt.Sprintf(`protobuf:"%s,%d,%s%s"`, wireName(map[bool]string{true: "bytes", false: f.K}[f.C == "map"]), f.N, label, suffix)
	if f.C == "map" {
		t += fmt.Sprintf(` protobuf_key:"%s,1,opt" protobuf_val:"%s,2,opt"`, wireName(f.KK), wireName(f.K))
	}
	return t
}

// build makes the Go types of a schema whose messages refer only to later ones.
func (s *Schema) build() {
	if s.Static != "" {
		seed, name := s.Seed, s.Static
		if g := strings.TrimPrefix(name, "gen:"); g != name {
			*s = *genSchema(g)
		} else {
			*s = *schemaOf(staticTypes[name]...)
		}
		s.Seed, s.Static = seed, name
		return
	}
	rnd := rand.New(rand.NewSource(s.Seed)).Intn
	s.Go = make([]reflect.Type, len(s.Types))
	s.Aux = make([][]int, len(s.Types))
	for i := len(s.Types) - 1; i >= 0; i-- {
		var fs []reflect.StructField
		for j := range s.Types[i] {
			f := &s.Types[i][j]
			if rnd(5) == 0 {
				s.Aux[i] = append(s.Aux[i], len(fs))
				fs = append(fs, auxField(len(fs), f.N, rnd))
			}
			label := "opt"
			if rnd(6) == 0 {
				label = "req"
			}
			suffix := ""
			if rnd(6) == 0 {
				suffix = fmt.Sprintf(",name=f_%d,json=f%d,proto3", j, j)
			}
			f.idx = len(fs)
			fs = append(fs, reflect.StructField{
				Name: fmt.Sprintf("F%d", len(fs)), Type: s.goFieldType(*f),
				Tag: reflect.StructTag(fieldTag(*f, label, suffix)),
			})
		}
		if rnd(4) == 0 || len(fs) == 0 {
			s.Aux[i] = append(s.Aux[i], len(fs))
			fs = append(fs, auxField(len(fs), 77, rnd))
		}
		s.Go[i] = reflect.StructOf(fs)
	}
}

type auxStruct struct {
	A int32 `protobuf:"varint,1,opt"`
	B []string
}

func ptr[T any](x T) *T { return &x }

// auxValues makes the contents of fields that must be left alone.
var auxValues = []func() any{
	func() any { return int64(-0x1234567890) },
	func() any { return "sentinel" },
	func() any { return uint8(0xa5) },
	func() any { return []byte("sentinel") },
	func() any { return complex(1.5, -2) },
	func() any { return int(-5) },
	func() any { return uint32(0xdeadbeef) },
	func() any { return true },
	func() any { return float32(2.5) },
	func() any { return ptr(int32(77)) },
	func() any { return ptr("sentinel") },
	func() any { return []int32{3, 1, 4} },
	func() any { return []string{"a", "b"} },
	func() any { return map[int32]string{1: "x", -2: "y"} },
	func() any { return map[string]*auxStruct{"k": {A: 9}} },
	func() any { return &auxStruct{A: 4, B: []string{"q"}} },
	func() any { return auxStruct{A: 5, B: []string{"r", "s"}} },
	func() any { return [3]int16{7, 8, 9} },
	func() any { return []*auxStruct{{A: 1}, nil} },
	func() any { return proto.Some(true) },
	func() any { return proto.Some(int32(-1)) },
	func() any { return proto.Some(uint32(1)) },
	func() any { return proto.Some(int64(-2)) },
	func() any { return proto.Some(uint64(2)) },
	func() any { return proto.Some(float32(1.5)) },
	func() any { return proto.Some(-2.5) },
	func() any { return proto.Some("sentinel") },
}

var auxByType = map[reflect.Type]func() any{}

func init() {
	for _, f := range auxValues {
		auxByType[reflect.TypeOf(f())] = f
	}
}

// auxField is a field without a protobuf tag, or unexported with one.
func auxField(i, n int, rnd func(int) int) reflect.StructField {
	f := reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: reflect.TypeOf(auxValues[rnd(len(auxValues))]())}
	switch rnd(4) {
	case 0:
		f.Tag = `json:"x"`
	case 1, 2:
		f.Name = fmt.Sprintf("f%d", i)
		f.PkgPath = "vharness"
		wire := []string{"varint", "bytes", "fixed32", "fixed64", "zigzag64"}[rnd(5)]
		f.Tag = reflect.StructTag(fmt.Sprintf(`protobuf:"%s,%d,opt"`, wire, n))
	}
	return f
}

func auxAddr(v reflect.Value, i int) reflect.Value {
	f := v.Field(i)
	return reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
}

func setAux(f reflect.Value) { f.Set(reflect.ValueOf(auxByType[f.Type()]())) }

func auxOK(f reflect.Value) bool { return reflect.DeepEqual(f.Interface(), auxByType[f.Type()]()) }

// schemaOf derives a schema from Go struct types by their tags (for types
// declared in Go source: recursive ones, same-named ones, generated ones).
func schemaOf(roots ...reflect.Type) *Schema {
	s := &Schema{}
	index := map[reflect.Type]int{}
	var add func(t reflect.Type) int
	add = func(t reflect.Type) int {
		if i, ok := index[t]; ok {
			return i
		}
		i := len(s.Go)
		index[t] = i + 1
		s.Go = append(s.Go, t)
		s.Types = append(s.Types, nil)
		s.Aux = append(s.Aux, nil)
		var fs []Field
		for j := 0; j < t.NumField(); j++ {
			sf := t.Field(j)
			tag, ok := sf.Tag.Lookup("protobuf")
			if sf.PkgPath != "" || !ok {
				continue
			}
			parts := strings.Split(tag, ",")
			n, _ := strconv.Atoi(parts[1])
			f := Field{N: n, idx: j}
			set := func(ft reflect.Type, wire string) {
				f.K = kindOf(ft, wire)
				if f.K == "message" {
					f.M = add(ft.Elem())
				}
			}
			ft := sf.Type
			switch {
			case ft.Kind() == reflect.Map:
				f.C = "map"
				f.KK = kindOf(ft.Key(), strings.Split(sf.Tag.Get("protobuf_key"), ",")[0])
				set(ft.Elem(), strings.Split(sf.Tag.Get("protobuf_val"), ",")[0])
			case ft.Kind() == reflect.Slice && ft.Elem().Kind() != reflect.Uint8:
				f.C = "rep"
				set(ft.Elem(), parts[0])
			case strings.HasPrefix(ft.Name(), "Option["):
				f.C = "opt"
				m, _ := ft.MethodByName("Unwrap")
				set(m.Type.Out(0), parts[0])
			case ft.Kind() == reflect.Ptr && ft.Elem().Kind() != reflect.Struct:
				f.C = "ptr"
				set(ft.Elem(), parts[0])
			default:
				f.C = "plain"
				set(ft, parts[0])
			}
			fs = append(fs, f)
		}
		s.Types[i] = fs
		return i + 1
	}
	for _, t := range roots {
		add(t)
	}
	return s
}

func kindOf(t reflect.Type, wire string) string {
	switch t.Kind() {
	case reflect.Bool:
		return "bool"
	case reflect.String:
		return "string"
	case reflect.Slice:
		return "bytes"
	case reflect.Ptr:
		return "message"
	case reflect.Float32:
		return "float"
	case reflect.Float64:
		return "double"
	}
	switch wire {
	case "zigzag32":
		return "sint32"
	case "zigzag64":
		return "sint64"
	}
	u := t.Kind() == reflect.Uint32 || t.Kind() == reflect.Uint64
	switch {
	case wire == "fixed32" && u:
		return "fixed32"
	case wire == "fixed32":
		return "sfixed32"
	case wire == "fixed64" && u:
		return "fixed64"
	case wire == "fixed64":
		return "sfixed64"
	}
	return t.Kind().String() // int32 int64 uint32 uint64
}

// ---------------------------------------------------------------- values

// A value is what encoding/json makes of the TLA+ value: []any of ints and []any.
type V = []any

func word(u uint64) V {
	w := make(V, 8)
	for i := range w {
		w[i] = int(byte(u >> (8 * uint(i))))
	}
	return w
}

func unword(v V) uint64 {
	var u uint64
	for i := range v {
		u |= uint64(v[i].(int)) << (8 * uint(i))
	}
	return u
}

// Blobs are payloads too long to enumerate; item -k is blob k.
type Blobs [][]byte

func (bl Blobs) rope(b []byte) V {
	r := make(V, 0, 16)
	for len(b) > 0 {
		best, at := -1, len(b)
		for k, x := range bl {
			if i := indexBytes(b, x); i >= 0 && i < at {
				best, at = k, i
			}
		}
		if at > 1<<14 {
			// Too long to be written out and no blob in it: the code made
			// something we did not give it. Keep it recognisably wrong.
			for _, c := range b[:64] {
				r = append(r, int(c))
			}
			return append(r, int(1000))
		}
		for _, c := range b[:at] {
			r = append(r, int(c))
		}
		if best < 0 {
			break
		}
		r = append(r, -(best + 1))
		b = b[at+len(bl[best]):]
	}
	return r
}

func (bl Blobs) bytes(r V) []byte {
	b := make([]byte, 0, len(r))
	for _, it := range r {
		if n := it.(int); n >= 0 {
			b = append(b, byte(n))
		} else {
			b = append(b, bl[-n-1]...)
		}
	}
	return b
}

func (bl Blobs) lens() V {
	v := make(V, len(bl))
	for i := range bl {
		v[i] = len(bl[i])
	}
	return v
}

func indexBytes(b, x []byte) int {
	if len(b) < len(x) {
		return -1
	}
	return strings.Index(unsafeString(b), unsafeString(x))
}

func unsafeString(b []byte) string { return *(*string)(unsafe.Pointer(&b)) }

// ctx is a schema with blobs.
type ctx struct {
	*Schema
	bl    Blobs
	vary  int                      // counts up if empty collections come in all their forms
	share map[string]reflect.Value // not nil: equal messages are one message
}

// empty says how the next empty collection is made: nil, or with capacity n.
func (c *ctx) empty() (null bool, n int) {
	if c.vary == 0 {
		return true, 0
	}
	c.vary++
	return c.vary%3 != 0, c.vary % 2 * 3
}

// spare is how much more memory than it needs the next collection has.
func (c *ctx) spare(n int) int {
	if c.vary == 0 || n > 1<<14 {
		return 0
	}
	c.vary++
	return []int{0, 3, 0, 20, 0, 1, 200}[c.vary%7]
}

// litter leaves something in the spare memory of a slice.
func litter(s reflect.Value) {
	for i := s.Len(); i < s.Cap(); i++ {
		switch x := s.Slice(0, s.Cap()).Index(i); x.Kind() {
		case reflect.Uint8, reflect.Uint32, reflect.Uint64:
			x.SetUint(0xEE)
		case reflect.Int32, reflect.Int64:
			x.SetInt(-0xEE)
		case reflect.Float32, reflect.Float64:
			x.SetFloat(0xEE)
		case reflect.Bool:
			x.SetBool(true)
		case reflect.String:
			x.SetString("hidden")
		case reflect.Slice:
			x.SetBytes(append(make([]byte, 0, 30), "hidden"...))
		case reflect.Ptr:
			x.Set(reflect.New(x.Type().Elem()))
		}
	}
}

// scalarTo projects a Go scalar or string.
func (c *ctx) scalarTo(v reflect.Value) any {
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			return word(1)
		}
		return word(0)
	case reflect.Int32, reflect.Int64:
		return word(uint64(v.Int()))
	case reflect.Uint32, reflect.Uint64:
		return word(v.Uint())
	case reflect.Float32:
		// not v.Float(): converting would quiet a signalling NaN
		p := reflect.New(v.Type())
		p.Elem().Set(v)
		return word(uint64(math.Float32bits(*(*float32)(unsafe.Pointer(p.Pointer())))))
	case reflect.Float64:
		return word(math.Float64bits(v.Float()))
	case reflect.String:
		return c.bl.rope([]byte(v.String()))
	}
	panic("scalarTo " + v.Type().String())
}

func (c *ctx) setScalar(v reflect.Value, x V) {
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(unword(x) != 0)
	case reflect.Int32, reflect.Int64:
		v.SetInt(int64(unword(x)))
	case reflect.Uint32, reflect.Uint64:
		v.SetUint(unword(x))
	case reflect.Float32:
		p := reflect.New(v.Type())
		*(*uint32)(unsafe.Pointer(p.Pointer())) = uint32(unword(x))
		v.Set(p.Elem())
	case reflect.Float64:
		v.SetFloat(math.Float64frombits(unword(x)))
	case reflect.String:
		v.SetString(string(c.bl.bytes(x)))
	default:
		panic("setScalar " + v.Type().String())
	}
}

// elemTo projects an element: a scalar, string, bytes or message.
func (c *ctx) elemTo(f *Field, v reflect.Value) any {
	switch f.K {
	case "bytes":
		if v.IsNil() {
			return V{}
		}
		return V{c.bl.rope(v.Bytes())}
	case "message":
		if v.IsNil() {
			return V{}
		}
		return V{c.msgTo(f.M, v.Elem())}
	}
	return c.scalarTo(v)
}

func (c *ctx) setElem(f *Field, v reflect.Value, x V) {
	switch f.K {
	case "bytes":
		if len(x) == 0 {
			v.Set(reflect.Zero(v.Type()))
		} else {
			b := c.bl.bytes(x[0].(V))
			if n := c.spare(len(b)); n > 0 {
				s := reflect.MakeSlice(v.Type(), len(b), len(b)+n)
				reflect.Copy(s, reflect.ValueOf(b))
				litter(s)
				v.Set(s)
				return
			}
			v.SetBytes(b)
		}
	case "message":
		if len(x) == 0 {
			v.Set(reflect.Zero(v.Type()))
		} else {
			key := ""
			if c.share != nil {
				key = fmt.Sprint(f.M) + js(x[0])
				if p, ok := c.share[key]; ok {
					v.Set(p)
					return
				}
			}
			p := reflect.New(v.Type().Elem())
			c.setMsg(f.M, p.Elem(), x[0].(V))
			v.Set(p)
			if c.share != nil {
				c.share[key] = p
			}
		}
	default:
		c.setScalar(v, x)
	}
}

// msgTo projects the struct v of message type t (1-based).
func (c *ctx) msgTo(t int, v reflect.Value) V {
	fs := c.Types[t-1]
	out := make(V, len(fs))
	for i := range fs {
		f := &fs[i]
		x := v.Field(f.idx)
		switch f.C {
		case "plain":
			out[i] = c.elemTo(f, x)
		case "opt":
			out[i] = c.optionTo(x)
		case "ptr":
			if x.IsNil() {
				out[i] = V{}
			} else {
				out[i] = V{c.scalarTo(x.Elem())}
			}
		case "rep":
			l := make(V, x.Len())
			for j := range l {
				l[j] = c.elemTo(f, x.Index(j))
			}
			out[i] = l
		case "map":
			type kv struct {
				s string
				p V
			}
			var l []kv
			kf := &Field{K: f.KK}
			for it := x.MapRange(); it.Next(); {
				k := c.elemTo(kf, it.Key())
				s, _ := json.Marshal(k)
				l = append(l, kv{string(s), V{k, c.elemTo(f, it.Value())}})
			}
			sort.SliceStable(l, func(a, b int) bool { return l[a].s < l[b].s })
			m := make(V, len(l))
			for j := range l {
				m[j] = l[j].p
			}
			out[i] = m
		}
	}
	return out
}

// setMsg fills the zero struct v from a value.
func (c *ctx) setMsg(t int, v reflect.Value, x V) {
	fs := c.Types[t-1]
	for _, i := range c.Aux[t-1] {
		setAux(auxAddr(v, i))
	}
	for i := range fs {
		f := &fs[i]
		c.setField(f, v.Field(f.idx), x[i].(V))
	}
}

func (c *ctx) setField(f *Field, g reflect.Value, y V) {
	switch f.C {
	case "plain":
		c.setElem(f, g, y)
	case "opt":
		if len(y) == 0 {
			g.Set(none(g))
		} else {
			g.Set(c.some(f, y[0].(V)))
		}
	case "ptr":
		if len(y) == 0 {
			g.Set(reflect.Zero(g.Type()))
		} else {
			p := reflect.New(g.Type().Elem())
			c.setScalar(p.Elem(), y[0].(V))
			g.Set(p)
		}
	case "rep":
		if len(y) == 0 {
			if null, n := c.empty(); null {
				g.Set(reflect.Zero(g.Type()))
			} else {
				g.Set(reflect.MakeSlice(g.Type(), 0, n))
			}
			return
		}
		s := reflect.MakeSlice(g.Type(), len(y), len(y)+c.spare(len(y)))
		for j := range y {
			c.setElem(f, s.Index(j), y[j].(V))
		}
		litter(s)
		g.Set(s)
	case "map":
		if len(y) == 0 {
			if null, n := c.empty(); null {
				g.Set(reflect.Zero(g.Type()))
			} else {
				g.Set(reflect.MakeMapWithSize(g.Type(), 20*n))
			}
			return
		}
		m := reflect.MakeMap(g.Type())
		kf := &Field{K: f.KK}
		for j := range y {
			p := y[j].(V)
			k := reflect.New(g.Type().Key()).Elem()
			e := reflect.New(g.Type().Elem()).Elem()
			c.setElem(kf, k, p[0].(V))
			c.setElem(f, e, p[1].(V))
			m.SetMapIndex(k, e)
		}
		g.Set(m)
	}
}

// optionTo reads an Option through all of its accessors; if they disagree the
// result is not a value of the specification.
func (c *ctx) optionTo(x reflect.Value) V {
	some := x.MethodByName("IsSome").Call(nil)[0].Bool()
	none := x.MethodByName("IsNone").Call(nil)[0].Bool()
	val := x.MethodByName("Unwrap").Call(nil)[0]
	other := reflect.New(val.Type()).Elem() // a default that is not the value
	switch val.Kind() {
	case reflect.Bool:
		other.SetBool(!val.Bool())
	case reflect.Int32, reflect.Int64:
		other.SetInt(val.Int() ^ 1)
	case reflect.Uint32, reflect.Uint64:
		other.SetUint(val.Uint() ^ 1)
	case reflect.Float32, reflect.Float64:
		other.SetFloat(1234.5)
	case reflect.String:
		other.SetString(val.String() + "?")
	}
	or := c.scalarTo(x.MethodByName("UnwrapOr").Call([]reflect.Value{other})[0])
	v, d := c.scalarTo(val), c.scalarTo(other)
	switch {
	case some && !none && js(or) == js(v):
		return V{v}
	case !some && none && js(or) == js(d) && val.IsZero():
		return V{}
	}
	return V{v, d, or}
}

func none(g reflect.Value) reflect.Value {
	switch g.Interface().(type) {
	case proto.Option[bool]:
		return reflect.ValueOf(proto.None[bool]())
	case proto.Option[int32]:
		return reflect.ValueOf(proto.None[int32]())
	case proto.Option[int64]:
		return reflect.ValueOf(proto.None[int64]())
	case proto.Option[uint32]:
		return reflect.ValueOf(proto.None[uint32]())
	case proto.Option[uint64]:
		return reflect.ValueOf(proto.None[uint64]())
	case proto.Option[float32]:
		return reflect.ValueOf(proto.None[float32]())
	case proto.Option[float64]:
		return reflect.ValueOf(proto.None[float64]())
	case proto.Option[string]:
		return reflect.ValueOf(proto.None[string]())
	}
	panic("none " + g.Type().String())
}

func (c *ctx) some(f *Field, y V) reflect.Value {
	switch scalarGo[f.K].Kind() {
	case reflect.Bool:
		return reflect.ValueOf(proto.Bool(unword(y) != 0))
	case reflect.Int32:
		return reflect.ValueOf(proto.Int32(int32(unword(y))))
	case reflect.Int64:
		return reflect.ValueOf(proto.Int64(int64(unword(y))))
	case reflect.Uint32:
		return reflect.ValueOf(proto.Uint32(uint32(unword(y))))
	case reflect.Uint64:
		return reflect.ValueOf(proto.Uint64(unword(y)))
	case reflect.Float32:
		return reflect.ValueOf(proto.Float32(math.Float32frombits(uint32(unword(y)))))
	case reflect.Float64:
		return reflect.ValueOf(proto.Float64(math.Float64frombits(unword(y))))
	}
	return reflect.ValueOf(proto.String(string(c.bl.bytes(y))))
}

// newMsg makes a *T holding x; auxiliary fields get their sentinels.
func (c *ctx) newMsg(t int, x V) reflect.Value {
	p := reflect.New(c.Go[t-1])
	c.setMsg(t, p.Elem(), x)
	return p
}

// auxIntact reports whether the auxiliary fields of the message still hold
// what they held: the sentinels in a message the harness made, and all of
// them zero in one the library made.
func (c *ctx) auxIntact(t int, v reflect.Value, top bool) bool {
	return c.auxState(t, v, top, "", nil)
}

// auxState is auxIntact, and notes which messages have their sentinels. Those
// that can be told apart by where they are: not the values of maps, which the
// library may replace.
func (c *ctx) auxState(t int, v reflect.Value, top bool, path string, state map[string]bool) bool {
	kept, zero := true, true
	for _, i := range c.Aux[t-1] {
		a := auxAddr(v, i)
		kept = kept && auxOK(a)
		zero = zero && a.IsZero()
	}
	if state != nil && len(c.Aux[t-1]) > 0 {
		state[path] = kept
	}
	if !kept && (top || !zero) {
		return false
	}
	for i := range c.Types[t-1] {
		f := &c.Types[t-1][i]
		if f.K != "message" {
			continue
		}
		x := v.Field(f.idx)
		ok := true
		visit := func(p reflect.Value, j int, state map[string]bool) {
			if p.IsNil() {
				return
			}
			at := ""
			if state != nil {
				at = fmt.Sprintf("%s/%d.%d", path, i, j)
			}
			ok = c.auxState(f.M, p.Elem(), false, at, state) && ok
		}
		switch f.C {
		case "plain":
			visit(x, 0, state)
		case "rep":
			for j := 0; j < x.Len(); j++ {
				visit(x.Index(j), j, state)
			}
		case "map":
			for it := x.MapRange(); it.Next(); {
				visit(it.Value(), 0, nil)
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// zeroV is ZeroMsg of Wire.tla.
func (c *ctx) zeroV(t int) V {
	fs := c.Types[t-1]
	out := make(V, len(fs))
	for i, f := range fs {
		if f.C == "plain" && isScalar(f.K) {
			out[i] = word(0)
		} else {
			out[i] = V{}
		}
	}
	return out
}
