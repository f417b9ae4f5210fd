package main

// Replays the call sequences of spec/Api.tla.

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"reflect"
	"sort"
	"strings"
	"unsafe"

	"github.com/RomiChan/protobuf/proto"
)

func init() { commands["api"] = cmdAPI }

type apiCall struct {
	Entry string `json:"entry"`
	Arg   string `json:"arg"`
	Inp   string `json:"inp"`
	O     string `json:"o"`
	Bytes []int  `json:"bytes"`
	A     int    `json:"a"`
	S     []int  `json:"s"`
}

var apiInputs = map[string][]byte{
	"nilbytes": nil, "empty": {}, "A5": {8, 5}, "S": {18, 2, 104, 105}, "unknown": {0x9a, 0x06, 1, 2, 0xa5, 0x06, 1, 2, 3, 4},
	"trunc": {18, 5, 1}, "badtag": {0x80}, "wrongwt": {10, 0},
}

type apiWorld struct {
	t    reflect.Type
	msg  reflect.Value // *T
	keep []any         // what the arguments point to, with how it looked
	look []string
}

func newAPIWorld(n int) *apiWorld {
	t := reflect.StructOf([]reflect.StructField{
		{Name: "A", Type: reflect.TypeOf(int32(0)), Tag: `protobuf:"varint,1,opt"`},
		{Name: "S", Type: reflect.TypeOf(""), Tag: `protobuf:"bytes,2,opt"`},
		{Name: "X", Type: reflect.TypeOf(int64(0)), Tag: reflect.StructTag(fmt.Sprintf(`protobuf:"varint,%d,opt"`, 1000+n))},
	})
	return &apiWorld{t: t, msg: reflect.New(t)}
}

// arg makes the argument, with everything it points to remembered.
func (w *apiWorld) arg(name string) any {
	ptr := func(v any) any { // pointer to a copy of v
		p := reflect.New(reflect.TypeOf(v))
		p.Elem().Set(reflect.ValueOf(v))
		return p.Interface()
	}
	holder := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "P", Type: w.msg.Type(), Tag: `protobuf:"bytes,1,opt"`}}))
	holder.Elem().Field(0).Set(w.msg)
	slice := reflect.MakeSlice(reflect.SliceOf(w.t), 1, 1)
	slice.Index(0).Set(w.msg.Elem())
	m := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(""), w.msg.Type()))
	m.SetMapIndex(reflect.ValueOf("k"), w.msg)
	arr := reflect.New(reflect.ArrayOf(1, w.msg.Type()))
	arr.Elem().Index(0).Set(w.msg)
	var iface any = w.msg.Interface()
	n := 42
	switch name {
	case "msg":
		return w.msg.Interface()
	case "nilmsg":
		return reflect.Zero(w.msg.Type()).Interface()
	case "ptrptr":
		return ptr(w.msg.Interface())
	case "nilptrptr":
		return reflect.Zero(reflect.PtrTo(w.msg.Type())).Interface()
	case "ptrint":
		return ptr(n)
	case "nilptrint":
		return (*int)(nil)
	case "ptrslice":
		return ptr(slice.Interface())
	case "ptrmap":
		return ptr(m.Interface())
	case "ptriface":
		return &iface
	case "ptrfunc":
		f := func() {}
		return &f
	case "ptrstring":
		return ptr("str")
	case "ptrarray":
		return arr.Interface()
	case "nil":
		return nil
	case "int":
		return n
	case "string":
		return "str"
	case "value":
		return w.msg.Elem().Interface()
	case "holder":
		return holder.Elem().Interface()
	case "valueptrfield": // a struct that is a pointer in memory, without tags
		return struct{ P *int }{&n}
	case "slice":
		return slice.Interface()
	case "map":
		return m.Interface()
	case "func":
		return func() {}
	case "chan":
		return make(chan int, 1)
	case "array":
		return arr.Elem().Interface()
	case "nilslice":
		return []int(nil)
	case "nilmap":
		return map[string]int(nil)
	case "nilfunc":
		return (func())(nil)
	case "nilchan":
		return (chan int)(nil)
	case "bool":
		return true
	case "float":
		return 1.5
	case "unsafeptr":
		return unsafe.Pointer(&n)
	case "uintptr":
		return uintptr(unsafe.Pointer(&n))
	}
	panic("arg " + name)
}

func look(v any) string {
	switch reflect.ValueOf(v).Kind() {
	case reflect.Func, reflect.Chan, reflect.UnsafePointer, reflect.Uintptr:
		return ""
	}
	rv := reflect.ValueOf(v)
	for rv.Kind() == reflect.Ptr && !rv.IsNil() {
		rv = rv.Elem()
	}
	if rv.IsValid() && rv.Kind() != reflect.Func {
		return fmt.Sprintf("%#v", rv)
	}
	return fmt.Sprint(v == nil)
}

// do makes one call; "" if it went as specified.
func (w *apiWorld) do(c *apiCall) string {
	if c.Entry == "set" {
		w.msg.Elem().Field(0).SetInt(7)
		w.msg.Elem().Field(1).SetString("")
		return w.compare(c)
	}
	arg := w.arg(c.Arg)
	before := look(arg)
	in := guarded(apiInputs[c.Inp])
	if c.Inp == "nilbytes" {
		in = nil
	}
	got, out := "ok", []byte(nil)
	size := -1
	var err error
	how := guardCall(func() {
		switch c.Entry {
		case "marshal":
			out, err = proto.Marshal(arg)
		case "size":
			size = proto.Size(arg)
		case "unmarshal":
			err = proto.Unmarshal(in, arg)
		}
	})
	if how != "" {
		return fmt.Sprint("panic: ", lastPanic.Load())
	}
	if err != nil {
		got = "error"
		var inv *proto.InvalidUnmarshalError
		if errors.As(err, &inv) {
			got = "invalid"
			if inv.Type != reflect.TypeOf(arg) {
				return fmt.Sprintf("InvalidUnmarshalError.Type = %v", inv.Type)
			}
			if inv.Type != nil && !strings.Contains(err.Error(), inv.Type.String()) {
				return "the error does not name the type: " + err.Error()
			}
		}
		_ = err.Error()
	}
	if got != c.O {
		return "outcome " + got + ", specified " + c.O
	}
	if c.O == "ok" {
		want := make([]byte, len(c.Bytes))
		for i, b := range c.Bytes {
			want[i] = byte(b)
		}
		if c.Entry == "marshal" && string(out) != string(want) {
			return fmt.Sprintf("Marshal returned %v, specified %v", out, want)
		}
		if c.Entry == "size" && size != c.Bytes[0] {
			return fmt.Sprintf("Size returned %d, specified %d", size, c.Bytes[0])
		}
	}
	if c.Arg != "msg" && look(arg) != before {
		return "the argument was changed: " + before + " -> " + look(arg)
	}
	return w.compare(c)
}

func (w *apiWorld) compare(c *apiCall) string {
	s := make([]byte, len(c.S))
	for i, b := range c.S {
		s[i] = byte(b)
	}
	m := w.msg.Elem()
	if m.Field(0).Int() != int64(c.A) || m.Field(1).String() != string(s) || m.Field(2).Int() != 0 {
		return fmt.Sprintf("the message is %+v, specified A=%d S=%q", m.Interface(), c.A, s)
	}
	return ""
}

func cmdAPI(e *Env) {
	in, err := os.Open(e.Arg)
	must(err)
	sc := bufio.NewScanner(in)
	sc.Buffer(nil, 1<<26)
	var lines []string
	for sc.Scan() {
		if l, ok := unquote(sc.Text()); ok && strings.HasPrefix(l, "CASE ") {
			lines = append(lines, l[5:])
		}
	}
	must(sc.Err())
	sort.Strings(lines)
	watchdog(e.Limit)
	progress, err = os.Create(e.Args[0])
	must(err)
	calls, differ := 0, 0
	for i, l := range lines {
		if i < e.N {
			continue
		}
		mark(i, 0)
		var h []apiCall
		must(json.Unmarshal([]byte(l), &h))
		w := newAPIWorld(i)
		for j := range h {
			calls++
			if what := w.do(&h[j]); what != "" {
				if differ++; differ <= 20 {
					fmt.Println(js(map[string]any{"case": i, "call": j, "what": what, "hist": h}))
				}
				break
			}
		}
	}
	fmt.Println(js(map[string]any{"cases": len(lines), "calls": calls, "differ": differ}))
}
