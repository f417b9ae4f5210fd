package main

// Sessions: scripts of calls on messages and buffers, and their execution,
// recorded event by event.

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"strings"
	"sync/atomic"
	"time"

	"github.com/RomiChan/protobuf/proto"
)

// Op is one step of a session.
type Op struct {
	Op string `json:"op"`
	O  int    `json:"o,omitempty"` // object
	B  int    `json:"b,omitempty"` // buffer
	T  int    `json:"t,omitempty"` // type
	V  V      `json:"v,omitempty"` // value or rope
	F  []int  `json:"f,omitempty"` // buffers to concatenate
	I  int    `json:"i,omitempty"` // position
	X  int    `json:"x,omitempty"` // byte
}

type Blob struct {
	Len  int   `json:"len"`
	Seed int64 `json:"seed"`
}

func (b Blob) make() []byte {
	x := make([]byte, b.Len)
	rand.New(rand.NewSource(b.Seed)).Read(x)
	return x
}

// Session refers to a schema by its index in the catalog.
type Session struct {
	ID     int     `json:"id"`
	Schema int     `json:"schema"`
	Blobs  []Blob  `json:"bl,omitempty"`
	Ops    []Op    `json:"ops"`
	Def    *Schema `json:"def,omitempty"` // in replay files: the schema itself
}

// fixInts turns the float64 of encoding/json into ints.
func fixInts(x any) any {
	switch y := x.(type) {
	case float64:
		return int(y)
	case []any:
		for i := range y {
			y[i] = fixInts(y[i])
		}
	}
	return x
}

func (s *Session) fix() {
	for i := range s.Ops {
		fixInts(s.Ops[i].V)
		if s.Ops[i].V == nil {
			s.Ops[i].V = V{}
		}
	}
}

type object struct {
	t   int
	p   reflect.Value
	s   string          // last projection
	aux map[string]bool // which messages in it have their sentinels
}

type buffer struct {
	b []byte
	g bool // ours: with guard bytes between len and cap
	s string
}

type exec struct {
	c    *ctx
	objs map[int]*object
	bufs map[int]*buffer
	out  io.Writer
}

const guard = 0xEE

func guarded(b []byte) []byte {
	g := make([]byte, len(b), len(b)+16)
	copy(g, b)
	t := g[len(b) : len(b)+16]
	for i := range t {
		t[i] = guard
	}
	return g
}

func (e *exec) bufRope(b *buffer) V {
	r := e.c.bl.rope(b.b)
	if b.g {
		for _, x := range b.b[len(b.b):cap(b.b)] {
			if x != guard {
				return append(r, 2000)
			}
		}
	}
	return r
}

func js(x any) string {
	b, err := json.Marshal(x)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// classify projects an error: its class and the fields it passed through.
func classify(err error) (string, V) {
	ch := V{}
	if err == nil {
		return "", ch
	}
	for {
		var fe *proto.UnmarshalFieldError
		if errors.As(err, &fe) && error(fe) == err {
			ch = append(ch, V{word(uint64(fe.FieldNumber)), int(fe.WireType)})
			err = fe.Err
			continue
		}
		break
	}
	switch {
	case errors.Is(err, io.ErrUnexpectedEOF):
		return "eof", ch
	case errors.Is(err, proto.ErrWireTypeUnknown):
		return "unknownwt", ch
	}
	return "other", ch
}

var progress *os.File
var curOp int64 // for the watchdog: unix nano of the running call, 0 when none

func mark(sid, op int) {
	if progress != nil {
		progress.WriteAt([]byte(fmt.Sprintf("%12d %6d\n", sid, op)), 0)
	}
}

// guardCall runs f; a panic becomes "panic".
func guardCall(f func()) (outcome string) {
	defer func() {
		if r := recover(); r != nil {
			outcome = "panic"
			lastPanic.Store(fmt.Sprint(r))
		}
	}()
	atomic.StoreInt64(&curOp, time.Now().UnixNano())
	defer atomic.StoreInt64(&curOp, 0)
	f()
	return ""
}

var lastPanic atomic.Value

func watchdog(limit time.Duration) {
	go func() {
		for {
			time.Sleep(limit / 10)
			if t := atomic.LoadInt64(&curOp); t != 0 && time.Since(time.Unix(0, t)) > limit {
				fmt.Fprintln(os.Stderr, "HANG")
				os.Exit(97)
			}
		}
	}()
}

// snapshot appends what changed since the last event.
func (e *exec) snapshot(ev map[string]any) {
	co, cb := V{}, V{}
	aux := true
	for id := 1; id <= 8; id++ {
		if o := e.objs[id]; o != nil {
			v := e.c.msgTo(o.t, o.p.Elem())
			if s := js(v); s != o.s {
				o.s = s
				co = append(co, V{id, v})
			}
			state := map[string]bool{}
			aux = e.c.auxState(o.t, o.p.Elem(), true, "", state) && aux
			if op := ev["op"]; op == "unmarshal" || op == "marshal" || op == "size" {
				for at, had := range o.aux { // the library makes none and clears none
					if has, there := state[at]; there && has != had {
						aux = false
					}
				}
			}
			o.aux = state
		}
		if b := e.bufs[id]; b != nil {
			r := e.bufRope(b)
			if s := js(r); s != b.s {
				b.s = s
				cb = append(cb, V{id, r})
			}
		}
	}
	ev["co"], ev["cb"], ev["aux"] = co, cb, aux
}

func (e *exec) emit(ev map[string]any) {
	b, err := json.Marshal(ev)
	if err != nil {
		panic(err)
	}
	e.out.Write(append(b, '\n'))
}

// runSession executes and records one session.
func runSession(pos int, s *Session, sc *Schema, out io.Writer, measure bool) {
	c := &ctx{Schema: sc, vary: 1 + s.ID%6}
	for _, b := range s.Blobs {
		c.bl = append(c.bl, b.make())
	}
	e := &exec{c: c, objs: map[int]*object{}, bufs: map[int]*buffer{}, out: out}
	e.emit(map[string]any{"op": "start", "x": s.Schema, "bl": c.bl.lens(), "sid": s.ID})
	for i, op := range s.Ops {
		if pos >= 0 {
			mark(pos, i)
		}
		ev := map[string]any{"op": op.Op, "o": op.O, "b": op.B, "err": "", "ch": V{}}
		if !e.do(&op, ev, measure) {
			continue
		}
		if gcMode && (op.Op == "unmarshal" || op.Op == "marshal") {
			runtime.GC()
			churn()
		}
		e.snapshot(ev)
		e.emit(ev)
		if ev["err"] == "panic" {
			ev["note"] = lastPanic.Load()
			break
		}
	}
}

var sink [64]any

// churn allocates objects of many sizes, so that freed memory is reused.
func churn() {
	for i := range sink {
		b := make([]byte, 8<<(uint(i)%8))
		for j := range b {
			b[j] = 0xAA
		}
		sink[i] = b
	}
}

func (e *exec) do(op *Op, ev map[string]any, measure bool) bool {
	c := e.c
	o, b := e.objs[op.O], e.bufs[op.B]
	switch op.Op {
	case "new":
		v := op.V
		if len(v) == 0 {
			v = c.zeroV(op.T)
		}
		c.share = nil
		if op.X == 1 {
			c.share = map[string]reflect.Value{}
		}
		e.objs[op.O] = &object{t: op.T, p: c.newMsg(op.T, v)}
		c.share = nil
		ev["t"], ev["w"] = op.T, v
	case "buf":
		e.bufs[op.B] = &buffer{b: guarded(c.bl.bytes(op.V)), g: true}
	case "cat":
		var x []byte
		for _, f := range op.F {
			if e.bufs[f] == nil {
				return false
			}
			x = append(x, e.bufs[f].b...)
		}
		e.bufs[op.B] = &buffer{b: guarded(x), g: true}
		ev["f"] = op.F
	case "cut", "ins", "del", "set": // an edited copy of the buffer
		if b == nil {
			return false
		}
		r := c.bl.rope(b.b)
		if len(r) == 0 {
			return false
		}
		i := op.I % len(r)
		switch {
		case op.Op == "cut":
			r = r[:i]
		case op.Op == "ins":
			r = cat(r[:i], V{op.X}, r[i:])
		case op.Op == "del":
			r = cat(r[:i], r[i+1:])
		case r[i].(int) >= 0:
			r[i] = op.X
		}
		e.bufs[op.B] = &buffer{b: guarded(c.bl.bytes(r)), g: true}
		ev["op"] = "buf"
	case "pokebuf": // the caller reuses its buffer
		if b == nil {
			return false
		}
		for i := range b.b {
			b.b[i] ^= byte(op.X) | 1
		}
	case "pokeobj": // the caller changes its message in place
		if o == nil {
			return false
		}
		c.poke(o.t, o.p.Elem(), byte(op.X)|1)
	case "trunc": // the caller empties the message for reuse, keeping memory
		if o == nil {
			return false
		}
		c.trunc(o.t, o.p.Elem())
	case "append": // the caller appends to its buffer
		if b == nil {
			return false
		}
		b.g = false
		b.b = append(b.b, c.bl.bytes(op.V)...)
	case "hide": // a second message gets the elements, the first keeps the memory
		if o == nil {
			return false
		}
		p := c.newMsg(o.t, c.zeroV(o.t))
		c.hide(o.t, o.p.Elem(), p.Elem())
		e.objs[op.F[0]] = &object{t: o.t, p: p}
		ev["f"] = op.F
	case "expect": // the message is this
		if o == nil {
			return false
		}
		ev["w"] = op.V
	case "gc":
		runtime.GC()
	case "marshal":
		if o == nil {
			return false
		}
		var out []byte
		var err error
		size := -1
		ev["size"], ev["size2"] = 0, 0
		before := memoryOf(o.p)
		how := guardCall(func() {
			size = proto.Size(o.p.Interface())
			out, err = proto.Marshal(o.p.Interface())
		})
		ev["err"] = how
		if how == "" && err != nil {
			ev["err"] = "error"
		}
		if how == "" {
			ev["size"] = size
			size2 := 0
			ev["err2"] = guardCall(func() { size2 = proto.Size(o.p.Interface()) })
			ev["size2"] = size2
		}
		e.bufs[op.B] = &buffer{b: out}
		ev["kept"] = memoryOf(o.p) == before
	case "many": // the same call again and again, into messages nobody keeps
		if o == nil || b == nil {
			return false
		}
		t0, same, n := time.Now(), true, 0
		size := -1
		var class string
		var first, last V
		how := guardCall(func() {
			for ; n < op.X && (n%64 != 0 || time.Since(t0) < 80*time.Millisecond); n++ {
				p := c.newMsg(o.t, c.zeroV(o.t))
				k, _ := classify(proto.Unmarshal(b.b, p.Interface()))
				m := proto.Size(o.p.Interface())
				if n == 0 {
					class, size, first = k, m, c.msgTo(o.t, p.Elem())
				}
				if n == op.X-1 || n%1000 == 999 {
					last = c.msgTo(o.t, p.Elem())
					same = same && js(first) == js(last)
				}
				same = same && k == class && m == size
			}
		})
		ev["err"], ev["same"], ev["n"] = how, same, n
	case "unmarshal":
		if o == nil || b == nil {
			return false
		}
		var err error
		var m0, m1 runtime.MemStats
		if measure {
			runtime.ReadMemStats(&m0)
		}
		how := guardCall(func() { err = proto.Unmarshal(b.b, o.p.Interface()) })
		ev["kb"] = 0
		if measure {
			runtime.ReadMemStats(&m1)
			ev["kb"] = int((m1.TotalAlloc - m0.TotalAlloc) >> 10)
		}
		ev["n"] = len(b.b)
		ev["err"], ev["ch"] = classify(err)
		if how != "" {
			ev["err"] = how
		}
		if err != nil {
			_ = err.Error() // must not panic either
		}
	default:
		panic("op " + op.Op)
	}
	return true
}

// poke flips bytes in place wherever the message holds a byte slice, and
// overwrites elements and entries.
func (c *ctx) poke(t int, v reflect.Value, x byte) {
	for i := range c.Types[t-1] {
		f := &c.Types[t-1][i]
		g := v.Field(f.idx)
		var walk func(g reflect.Value)
		walk = func(g reflect.Value) {
			switch g.Kind() {
			case reflect.Slice:
				if g.Type().Elem().Kind() == reflect.Uint8 {
					b := g.Bytes()
					for i := range b {
						b[i] ^= x
					}
					return
				}
				for j := 0; j < g.Len(); j++ {
					walk(g.Index(j))
				}
			case reflect.Map:
				for it := g.MapRange(); it.Next(); {
					walk(it.Value())
				}
			case reflect.Ptr:
				if !g.IsNil() && g.Type().Elem().Kind() == reflect.Struct {
					c.poke(f.M, g.Elem(), x)
				} else if !g.IsNil() {
					walk(g.Elem())
				}
			case reflect.Int32, reflect.Int64:
				if g.CanSet() {
					g.SetInt(g.Int() ^ int64(x))
				}
			case reflect.Uint32, reflect.Uint64:
				if g.CanSet() {
					g.SetUint(g.Uint() ^ uint64(x))
				}
			}
		}
		walk(g)
	}
}

func (c *ctx) trunc(t int, v reflect.Value) {
	for i := range c.Types[t-1] {
		f := &c.Types[t-1][i]
		g := v.Field(f.idx)
		switch {
		case f.C == "rep":
			g.SetLen(0)
		case f.C == "map":
			for _, k := range g.MapKeys() {
				g.SetMapIndex(k, reflect.Value{})
			}
		case f.C == "plain" && f.K == "message":
			if !g.IsNil() {
				c.trunc(f.M, g.Elem())
			}
		case f.C == "plain" && f.K == "bytes":
			if !g.IsNil() {
				g.SetLen(0)
			}
		case f.C == "ptr":
			if !g.IsNil() {
				g.Elem().Set(reflect.Zero(g.Type().Elem()))
			}
		default:
			g.Set(reflect.Zero(g.Type()))
		}
	}
}

// hide moves the elements of the repeated fields of v to w, which keeps them
// in slices of its own; the slices of v are emptied for reuse.
func (c *ctx) hide(t int, v, w reflect.Value) {
	for i := range c.Types[t-1] {
		f := &c.Types[t-1][i]
		if f.C != "rep" {
			continue
		}
		g := v.Field(f.idx)
		l := reflect.MakeSlice(g.Type(), g.Len(), g.Len())
		reflect.Copy(l, g)
		if g.Len() > 0 {
			w.Field(f.idx).Set(l)
		}
		g.SetLen(0)
	}
}

func readLines(path string, f func([]byte)) error {
	b, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	for _, l := range bytes.Split(b, []byte("\n")) {
		if len(strings.TrimSpace(string(l))) > 0 {
			f(l)
		}
	}
	return nil
}
