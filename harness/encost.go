package main

// Measured encodes for spec/EncodeCost.tla.

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"time"

	"github.com/RomiChan/protobuf/proto"
)

// CRec is a chain through a field, a list or a map, with a payload.
type CRec struct {
	Nums []int32         `protobuf:"varint,1,rep"`
	Sub  *CRec           `protobuf:"bytes,2,opt"`
	Kids []*CRec         `protobuf:"bytes,3,rep"`
	By   map[int32]*CRec `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

// costTree is a value of spec/EncodeCost.tla.
type costTree struct {
	N, Depth, Work int
	Parent         []int
}

func init() { commands["encost"] = cmdEncost }

// steps is how many statements of the library were executed (see
// instrument.go; 0 where that is not counted).
var steps = func() int64 { return 0 }

// measured calls f up to three times and keeps the cheapest.
func measured(f func()) (how string, kb, ms, st int64) {
	kb, ms, st = 1<<62, 1<<62, 1<<62
	for k := 0; k < 3; k++ {
		var m0, m1 runtime.MemStats
		runtime.GC()
		runtime.ReadMemStats(&m0)
		t := time.Now()
		s0 := steps()
		how = guardCall(f)
		if x := steps() - s0; x < st {
			st = x
		}
		d := time.Since(t).Milliseconds()
		runtime.ReadMemStats(&m1)
		if d < ms {
			ms = d
		}
		if x := int64(m1.TotalAlloc-m0.TotalAlloc+1023) >> 10; x < kb {
			kb = x
		}
		if how != "" {
			break
		}
	}
	return
}

func cmdEncost(e *Env) {
	f, err := os.Create(e.Trace)
	must(err)
	w := bufio.NewWriter(f)
	watchdog(e.Limit)
	progress, err = os.Create(e.Arg)
	must(err)
	debug.SetMaxStack(1000000000)

	// v is measured; back decodes what it was encoded to and counts
	emit := func(name string, reps, depth, work int, v any, back func(b []byte) int) (worst int64) {
		size := 0
		how, kb, ms, st := measured(func() { size = proto.Size(v) })
		w.WriteString(js(map[string]any{"op": "size", "shape": name, "reps": reps, "depth": depth, "err": how,
			"out": size, "size": size, "count": reps, "kb": kb, "ms": ms, "steps": st, "work": work}) + "\n")
		var b []byte
		var err error
		how, kb, ms, st = measured(func() { b, err = proto.Marshal(v) })
		if err != nil && how == "" {
			how = "error"
		}
		n := 0
		if how == "" {
			n = back(b)
		}
		w.WriteString(js(map[string]any{"op": "marshal", "shape": name, "reps": reps, "depth": depth, "err": how,
			"out": len(b), "size": size, "count": n, "kb": kb, "ms": ms, "steps": st, "work": work}) + "\n")
		w.Flush()
		return st
	}
	same := func() {
		v := &DRec{V: 1, Sub: &DRec{V: 2, Kids: []*DRec{{V: 3}}}, By: map[int32]*DRec{4: {}}}
		how, kb, ms, st := measured(func() { proto.Marshal(v) })
		w.WriteString(js(map[string]any{"op": "same", "shape": "a value", "reps": 1, "depth": 3, "err": how,
			"out": 0, "size": 0, "count": 1, "kb": kb, "ms": ms, "steps": st, "work": 0}) + "\n")
	}
	same()
	proto.Marshal(new(resTop)) // analyse the types first
	proto.Marshal(new(CRec))

	for i, s := range shapes {
		// the values that hold all that was sent
		m := new(resTop)
		for reps := 1; reps <= s.max>>uint(e.N); reps *= 2 {
			mark(i, reps)
			var in []byte
			for j := 0; j < reps; j++ {
				in = append(in, s.piece(j)...)
			}
			if s.wrap != 0 {
				in = lv(s.wrap, in)
			}
			m = new(resTop)
			must(proto.Unmarshal(in, m))
			n := s.count(m)
			if n != reps {
				break // -1: not a collection
			}
			emit(s.name, reps, 1, 0, m, func(b []byte) int {
				q := new(resTop)
				if proto.Unmarshal(b, q) != nil {
					return -1
				}
				return s.count(q)
			})
		}
	}
	// depth x payload, through a field, a list and a map
	for num := 2; num <= 4; num++ {
		for _, payload := range []int{1, 1000, 100000} {
			last := int64(0)
			for _, depth := range []int{1, 2, 4, 8, 16, 32, 64, 128} {
				mark(len(shapes)+num, depth)
				m := &CRec{Nums: make([]int32, payload)}
				for d := 0; d < depth; d++ {
					switch num {
					case 2:
						m = &CRec{Sub: m}
					case 3:
						m = &CRec{Kids: []*CRec{m}}
					case 4:
						m = &CRec{By: map[int32]*CRec{1: m}}
					}
				}
				st := emit(fmt.Sprintf("deep %d x %d", num, payload), depth, depth, 0, m, func(b []byte) int {
					q := new(CRec)
					if proto.Unmarshal(b, q) != nil {
						return -1
					}
					d := 0
					for {
						n := q.Sub
						if num == 3 && len(q.Kids) == 1 {
							n = q.Kids[0]
						} else if num == 4 {
							n = q.By[1]
						}
						if n == nil {
							break
						}
						q = n
						d++
					}
					if len(q.Nums) != payload {
						return -1
					}
					return d
				})
				if last > 0 && st > 20*last { // no need to see it explode
					break
				}
				last = st
			}
		}
	}
	// the values of spec/EncodeCost.tla: -arg2 has them, one to a line
	if len(e.Args) > 0 {
		var trees []costTree
		in, err := os.ReadFile(e.Args[0])
		must(err)
		for _, l := range bytes.Split(bytes.TrimSpace(in), []byte{'\n'}) {
			var t costTree
			must(json.Unmarshal(l, &t))
			trees = append(trees, t)
		}
		for i, t := range trees {
			for kind, name := range []string{"tree of lists", "tree of maps", "tree of fields"} {
				mark(len(shapes)+10+kind, i)
				nodes := make([]*CRec, t.N+1)
				for j := t.N; j >= 1; j-- {
					if nodes[j] == nil {
						nodes[j] = new(CRec)
					}
					nodes[j].Nums = make([]int32, 300)
					if j == 1 {
						break
					}
					p := t.Parent[j-1]
					if nodes[p] == nil {
						nodes[p] = new(CRec)
					}
					q := nodes[p]
					switch {
					case kind == 1:
						if q.By == nil {
							q.By = map[int32]*CRec{}
						}
						q.By[int32(j)] = nodes[j]
					case kind == 2 && q.Sub == nil:
						q.Sub = nodes[j]
					default:
						q.Kids = append(q.Kids, nodes[j])
					}
				}
				emit(name, t.N, t.Depth, t.Work, nodes[1], func(b []byte) int {
					q := new(CRec)
					if proto.Unmarshal(b, q) != nil {
						return -1
					}
					return q.count()
				})
			}
		}
	}
	// first uses of types: reps is how many fields they declare altogether
	exp := 0
	first := func(name string, n, fields int, t reflect.Type) {
		v := reflect.New(t).Interface()
		for _, op := range []string{"first", "again"} {
			var m0, m1 runtime.MemStats
			runtime.ReadMemStats(&m0)
			s0, at := steps(), time.Now()
			size := 0
			how := guardCall(func() { size = proto.Size(v) })
			st, d := steps()-s0, time.Since(at).Milliseconds()
			runtime.ReadMemStats(&m1)
			w.WriteString(js(map[string]any{"op": op, "shape": name, "reps": n, "depth": 1, "work": 0, "err": how, "out": fields,
				"size": size, "count": n, "kb": (m1.TotalAlloc - m0.TotalAlloc + 1023) >> 10, "ms": d, "steps": st}) + "\n")
		}
		w.Flush()
	}
	tag := func(kind string, num int) string { return fmt.Sprintf("%s,%d,opt", kind, num) }
	field := func(i int, t reflect.Type, tg string) reflect.StructField {
		return reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: t, Tag: reflect.StructTag("protobuf:\"" + tg + "\" protobuf_key:\"varint,1,opt\" protobuf_val:\"bytes,2,opt\"")}
	}
	i32 := reflect.TypeOf(int32(0))
	for i, l := range layers {
		mark(len(shapes)+20, i)
		first(l.name, l.n, 3*l.n+1, l.t)
	}
	for kind, name := range []string{"dense", "far apart", "backwards"} {
		for n := 1; n <= 512; n *= 2 {
			exp++
			mark(len(shapes)+30+kind, n)
			var fs []reflect.StructField
			for i := 0; i < n; i++ {
				num := exp*1000 + i
				switch kind {
				case 1:
					num = 1<<29 - 1 - exp - i*1000003
				case 2:
					num = exp*1000 - i
				}
				fs = append(fs, field(i, i32, tag("varint", num)))
			}
			first(name, n, n, reflect.StructOf(fs))
		}
	}
	// many other types, some only refused, and many other values
	for i := 1; i <= 2000; i++ {
		t := reflect.StructOf([]reflect.StructField{field(0, i32, tag("varint", 1<<20+i))})
		v := reflect.New(t)
		proto.Size(v.Interface())
		guardCall(func() { proto.Marshal(v.Elem().Interface()) })
		proto.Marshal(&DRec{V: int32(i)})
	}
	same()
	must(w.Flush())
	must(f.Close())
}

func (m *CRec) count() int {
	n := 1
	if m.Sub != nil {
		n += m.Sub.count()
	}
	for _, k := range m.Kids {
		n += k.count()
	}
	for _, k := range m.By {
		n += k.count()
	}
	return n
}
