package main

// Histories of spec/Oneof.tla on the oneofs of emitted messages, recorded for
// spec/TraceOneof.tla.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"sort"
	"strings"
)

// genOneof is a oneof of an emitted message; a file written by the check
// registers them.
type genOneof struct {
	Set, File int
	Path      string // JSON of the path of the message
	Index     int    // of the oneof in the message
	Msg       reflect.Type
	Field     string         // of the struct
	Wrappers  []reflect.Type // of the members, in order
	Kinds     []string
}

var genOneofs []genOneof

type oneofRun struct {
	g    *genOneof
	c    *ctx
	rnd  *rand.Rand
	m    reflect.Value // *T, possibly nil
	set  any           // the wrapper the client has set
	want any           // a message it holds
}

// fill gives the other fields of the message something to lose.
func (r *oneofRun) fill() {
	for i := 0; i < r.g.Msg.NumField(); i++ {
		f := r.m.Elem().Field(i)
		if !f.CanSet() {
			continue
		}
		switch f.Kind() {
		case reflect.Int32, reflect.Int64:
			f.SetInt(77)
		case reflect.Uint32, reflect.Uint64:
			f.SetUint(78)
		case reflect.String:
			f.SetString("kept")
		case reflect.Bool:
			f.SetBool(true)
		case reflect.Slice:
			f.Set(reflect.MakeSlice(f.Type(), 2, 3))
		case reflect.Map:
			f.Set(reflect.MakeMap(f.Type()))
		case reflect.Ptr:
			f.Set(reflect.New(f.Type().Elem()))
		}
	}
}

func (r *oneofRun) term(k string, v reflect.Value) V {
	switch k {
	case "bytes":
		if v.IsNil() {
			return V{}
		}
		return V{r.c.bl.rope(v.Bytes())}
	case "message":
		switch {
		case v.IsNil():
			return V{}
		case v.Interface() == r.want:
			return V{1}
		}
		return V{2}
	}
	return r.c.scalarTo(v).(V)
}

// value sets the field of the wrapper w.
func (r *oneofRun) value(k string, w reflect.Value, zero bool) {
	if zero {
		return
	}
	switch k {
	case "bytes":
		w.SetBytes([]byte{7, byte(r.rnd.Intn(256))}[:r.rnd.Intn(3)])
	case "message":
		w.Set(reflect.New(w.Type().Elem()))
		r.want = w.Interface()
	case "string":
		w.SetString(fmt.Sprint("s", r.rnd.Intn(100)))
	case "bool":
		w.SetBool(true)
	default:
		u := uint64(r.rnd.Uint32())<<32 | uint64(r.rnd.Uint32())
		if w.Type().Bits() == 32 { // sign extended, if it has a sign
			switch w.Kind() {
			case reflect.Int32:
				u = uint64(int64(int32(u)))
			default:
				u = uint64(uint32(u))
			}
		}
		r.c.setScalar(w, word(u))
	}
}

func (r *oneofRun) look() string {
	if r.m.IsNil() {
		return "nil"
	}
	return fmt.Sprintf("%#v", r.m.Interface())
}

func (r *oneofRun) step(op, name string, m int, ev map[string]any) {
	t := reflect.PtrTo(r.g.Msg)
	n := len(r.g.Wrappers)
	ev["op"], ev["m"], ev["v"], ev["err"] = op, 0, V{}, ""
	ev["one"], ev["same"], ev["kept"], ev["gets"] = 0, true, true, V{}
	switch op {
	case "drop":
		r.m, r.set = reflect.Zero(t), nil
	case "make":
		r.m, r.set = reflect.New(r.g.Msg), nil
		r.fill()
	case "clear":
		r.set = nil
		f := r.m.Elem().FieldByName(r.g.Field)
		f.Set(reflect.Zero(f.Type()))
	case "set":
		w := reflect.New(r.g.Wrappers[m-1])
		r.value(r.g.Kinds[m-1], w.Elem().Field(0), name == "zero")
		r.m.Elem().FieldByName(r.g.Field).Set(w)
		r.set = w.Interface()
		ev["m"], ev["v"] = m, r.term(r.g.Kinds[m-1], w.Elem().Field(0))
	}
	before := r.look()
	how := guardCall(func() {
		for round := 0; round < 2; round++ { // accessors in order, and in reverse
			o := r.m.MethodByName("Get" + r.g.Field).Call(nil)[0]
			one := 0
			if !o.IsNil() {
				one = 99
				for i, w := range r.g.Wrappers {
					if o.Elem().Type() == reflect.PtrTo(w) {
						one = i + 1
					}
				}
				ev["same"] = o.Interface() == r.set
			} else {
				ev["same"] = r.set == nil
			}
			gets := make(V, n)
			for k := 0; k < n; k++ {
				i := k
				if round == 1 {
					i = n - 1 - k
				}
				gets[i] = r.term(r.g.Kinds[i], r.m.MethodByName("Get" + r.g.Wrappers[i].Field(0).Name).Call(nil)[0])
			}
			if round == 1 && (js(gets) != js(ev["gets"]) || one != ev["one"]) {
				ev["same"] = false
			}
			ev["one"], ev["gets"] = one, gets
		}
	})
	ev["err"] = how
	ev["kept"] = r.look() == before
}

func init() {
	// oneofs -arg HISTORIES -n histories-per-oneof -trace TRACE
	commands["oneofs"] = func(env *Env) {
		in, err := os.Open(env.Arg)
		must(err)
		sc := bufio.NewScanner(in)
		sc.Buffer(nil, 1<<26)
		var lines []string
		for sc.Scan() {
			if l, ok := unquote(sc.Text()); ok && strings.HasPrefix(l, "CASE ") {
				lines = append(lines, l[5:])
			}
		}
		must(sc.Err())
		sort.Strings(lines)
		type hop struct {
			Op string `json:"op"`
			M  int    `json:"m"`
			V  string `json:"v"`
		}
		var hs [][]hop
		for _, l := range lines {
			var h []hop
			must(json.Unmarshal([]byte(l), &h))
			hs = append(hs, h)
		}
		f, err := os.Create(env.Trace)
		must(err)
		w := bufio.NewWriter(f)
		rnd := rand.New(rand.NewSource(env.Seed))
		calls := 0
		for i := range genOneofs {
			g := &genOneofs[i]
			var path any
			must(json.Unmarshal([]byte(g.Path), &path))
			for k := 0; k < env.N; k++ {
				h := hs[rnd.Intn(len(hs))]
				w.WriteString(js(map[string]any{"op": "start", "k": g.Set, "i": g.File, "p": path, "o": g.Index, "sid": i}) + "\n")
				r := &oneofRun{g: g, c: &ctx{}, rnd: rnd, m: reflect.New(g.Msg)}
				r.fill()
				off := rnd.Intn(len(g.Wrappers))
				for _, o := range h {
					ev := map[string]any{}
					m := o.M
					if m > 0 { // more members than the histories know: in turn
						m = (m-1+off)%len(g.Wrappers) + 1
					}
					r.step(o.Op, o.V, m, ev)
					calls++
					w.WriteString(js(ev) + "\n")
					if ev["err"] == "panic" {
						break
					}
				}
			}
		}
		must(w.Flush())
		must(f.Close())
		fmt.Println(js(map[string]any{"oneofs": len(genOneofs), "steps": calls, "histories": len(hs)}))
	}
}
