package main

// Runs what TLC enumerated of spec/Retain.tla and looks at what is left in
// memory after collections, for spec/TraceRetain.tla.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"unsafe"
	"weak"

	"github.com/RomiChan/protobuf/proto"
)

func init() {
	commands["retain"] = cmdRetain
	commands["retainheap"] = cmdRetainHeap
}

type thing = weak.Pointer[byte]

// things calls f with every allocation that v leads to. Small memory without
// pointers is left out: the runtime puts several such things into one block.
func things(v reflect.Value, f func(thing)) {
	add := func(p unsafe.Pointer, size uintptr) bool {
		if p == nil || size < 16 {
			return false
		}
		f(weak.Make((*byte)(p)))
		return true
	}
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			add(v.UnsafePointer(), v.Type().Elem().Size())
			things(v.Elem(), f)
		}
	case reflect.Struct:
		t := v.Type()
		option := strings.HasPrefix(t.Name(), "Option[")
		for i := 0; i < t.NumField(); i++ {
			if _, ok := t.Field(i).Tag.Lookup("protobuf"); option || ok && t.Field(i).PkgPath == "" {
				things(v.Field(i), f)
			}
		}
	case reflect.String:
		s := v.String()
		add(*(*unsafe.Pointer)(unsafe.Pointer(&s)), uintptr(len(s)))
	case reflect.Slice:
		if v.Cap() > 0 {
			add(v.UnsafePointer(), uintptr(v.Cap())*v.Type().Elem().Size())
		}
		if v.Type().Elem().Kind() != reflect.Uint8 {
			for i := 0; i < v.Len(); i++ {
				things(v.Index(i), f)
			}
		}
	case reflect.Map:
		if !v.IsNil() {
			f(weak.Make((*byte)(v.UnsafePointer())))
			for it := v.MapRange(); it.Next(); {
				things(it.Key(), f)
				things(it.Value(), f)
			}
		}
	}
}

// retainRun is one history while it runs.
type retainRun struct {
	hist []Op
	at   int
	n    int // generations
	g    *sgen
	t    int
	m    [2]reflect.Value // zero: not held
	b    [2][]byte
	e    error
	made map[thing]int // the generation of everything ever seen
	err  string

	seen  []V
	loose []int
}

func (r *retainRun) held(f func(thing)) {
	for i := range r.m {
		if r.m[i].IsValid() {
			things(r.m[i], f)
		}
		things(reflect.ValueOf(r.b[i]), f)
	}
}

func (r *retainRun) note() {
	r.held(func(w thing) {
		if _, ok := r.made[w]; !ok {
			r.made[w] = r.n
		}
	})
}

func (r *retainRun) message() reflect.Value {
	c := r.g.m.ctx
	v := c.zeroV(r.t)
	if r.g.p(2, 3) {
		v = r.g.value(r.t)
	}
	return c.newMsg(r.t, v)
}

func (r *retainRun) input(broken bool) []byte {
	c := r.g.m.ctx
	b := c.bl.bytes(r.g.goodWire(r.t))
	if broken { // sometimes deep inside
		switch r.g.Intn(4) {
		case 0:
			b = append(b, 0xc2, 0x3e, 77, 1, 2, 3)
		case 1:
			if len(b) > 1 {
				b = b[:1+r.g.Intn(len(b)-1)]
			}
		default:
			o := *r.g.o
			o.bad = 150
			r.g.m.budget = 12
			b = c.bl.bytes(r.g.m.wire(c.Types[r.t-1], 3, &o))
		}
	}
	return append(make([]byte, 0, len(b)+16), b...)
}

func (r *retainRun) start(c *ctx, seed int64) {
	g := &sgen{G: newG(seed), pr: profiles["roundtrip"], nodes: 10}
	g.o = &wireOpts{unknown: 10, loose: g.p(1, 3), maxField: 8}
	g.m = &mctx{ctx: c, g: g.G, full: 80, long: true}
	r.g, r.t, r.n, r.made = g, 1, 2, map[thing]int{}
	r.m[0], r.b[0] = r.message(), r.input(false)
	r.made = map[thing]int{}
	things(r.m[0], func(w thing) { r.made[w] = 1 })
	things(reflect.ValueOf(r.b[0]), func(w thing) { r.made[w] = 2 })
}

// run goes on to the next collection, or the end.
func (r *retainRun) run() {
	for r.at < len(r.hist) {
		op := r.hist[r.at]
		r.at++
		r.n++
		if op.Op == "gc" {
			return
		}
		if how := guardCall(func() { r.step(op) }); how != "" {
			r.err = how
		}
		r.note()
	}
}

func (r *retainRun) step(op Op) {
	o, b := op.O-1, op.B-1
	switch op.Op {
	case "new":
		r.m[o] = r.message()
	case "drop":
		r.m[o] = reflect.Value{}
	case "input", "broken":
		r.b[b] = r.input(op.Op == "broken")
	case "free":
		r.b[b] = nil
	case "forget":
		r.e = nil
	case "decode":
		r.e = proto.Unmarshal(r.b[b], r.m[o].Interface())
	case "encode":
		r.b[b], _ = proto.Marshal(r.m[o].Interface())
	case "size":
		proto.Size(r.m[o].Interface())
	case "refuse":
		if r.g.p(1, 2) {
			r.e = proto.Unmarshal(r.b[b], r.m[o].Elem().Interface())
		} else {
			r.e = proto.Unmarshal(r.b[b], map[string]any{"x": r.m[o].Interface()})
		}
	}
}

func (r *retainRun) look() {
	held := map[thing]bool{}
	r.held(func(w thing) { held[w] = true })
	gens, loose := map[int]bool{}, 0
	for w, g := range r.made {
		if w.Value() != nil {
			gens[g] = true
			if !held[w] {
				loose++
			}
		}
	}
	var l []int
	for g := range gens {
		l = append(l, g)
	}
	sort.Ints(l)
	s := V{}
	for _, g := range l {
		s = append(s, g)
	}
	r.seen = append(r.seen, s)
	r.loose = append(r.loose, loose)
}

func collect() {
	for i := 0; i < 4; i++ {
		runtime.GC()
	}
}

// alone runs f in a goroutine, whose stack is then gone.
func alone(f func()) {
	done := make(chan bool)
	go func() {
		f()
		close(done)
	}()
	<-done
}

// cmdRetain: the histories of -arg, in batches; each batch is collected at
// once. -n: how many schemas there are; further arguments: goroutines.
func cmdRetain(e *Env) {
	in, err := os.Open(e.Arg)
	must(err)
	var hists [][]Op
	sc := bufio.NewScanner(in)
	sc.Buffer(nil, 1<<26)
	for sc.Scan() {
		if l, ok := unquote(sc.Text()); ok && strings.HasPrefix(l, "CASE ") {
			var h []Op
			must(json.Unmarshal([]byte(l[5:]), &h))
			hists = append(hists, h)
		}
	}
	must(sc.Err())
	sort.Slice(hists, func(i, j int) bool { return js(hists[i]) < js(hists[j]) })
	rand.New(rand.NewSource(e.Seed)).Shuffle(len(hists), func(i, j int) { hists[i], hists[j] = hists[j], hists[i] })
	progress, err = os.Create(e.Args[0])
	must(err)
	watchdog(e.Limit)

	g := newG(e.Seed)
	var cs []*ctx
	for len(cs) < e.N {
		var s *Schema
		switch {
		case len(cs)%6 == 5:
			s = &Schema{Static: []string{"Rec", "Mut", "Mut2", "Same", "Emas"}[len(cs)/6%5]}
			s.build()
		case len(cs)%6 == 4:
			s = g.wide(nil)
		default:
			s = g.schema(kindIn("string", "bytes", "message", "map", "rep"))
		}
		cs = append(cs, &ctx{Schema: s})
	}

	f, err := os.Create(e.Trace)
	must(err)
	w := bufio.NewWriter(f)
	things, collections := 0, 0
	const batch = 400
	for a := 0; a < len(hists); a += batch {
		mark(a, 0)
		rs := []*retainRun{}
		for i := a; i < len(hists) && i < a+batch; i++ {
			rs = append(rs, &retainRun{hist: hists[i]})
		}
		for more, round := true, 0; more; round++ {
			alone(func() {
				var wg sync.WaitGroup
				const p = 4
				for k := 0; k < p; k++ {
					k := k
					part := func() {
						for i := k; i < len(rs); i += p {
							if round == 0 {
								rs[i].start(cs[(a+i)%len(cs)], e.Seed*1000003+int64(a+i))
							}
							rs[i].run()
						}
					}
					if a/batch%2 == 0 {
						part()
					} else {
						wg.Add(1)
						go func() { part(); wg.Done() }()
					}
				}
				wg.Wait()
			})
			collect()
			collections++
			more = false
			alone(func() {
				for _, r := range rs {
					if len(r.seen) < r.passed() {
						r.look()
					}
					more = more || r.at < len(r.hist)
				}
			})
		}
		for _, r := range rs {
			things += len(r.made)
			w.WriteString(js(map[string]any{"op": "history", "hist": opTerms(r.hist), "seen": r.seen, "loose": r.loose, "err": r.err}) + "\n")
		}
	}
	must(w.Flush())
	must(f.Close())
	fmt.Println(js(map[string]any{"cases": len(hists), "things": things, "collections": collections}))
}

// passed is how many collections the history has come to.
func (r *retainRun) passed() (n int) {
	for _, op := range r.hist[:r.at] {
		if op.Op == "gc" {
			n++
		}
	}
	return
}

func opTerms(h []Op) V {
	l := V{}
	for _, op := range h {
		l = append(l, map[string]any{"op": op.Op, "o": op.O, "b": op.B})
	}
	return l
}

// ------------------------------------------------------------- live memory

type heapShape struct {
	name string
	n    int // calls in a round
	do   func(r *rand.Rand, round, i int)
}

func randBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + r.Intn(26))
	}
	return b
}

func distinct(r *rand.Rand) *resTop {
	s := func() string { return string(randBytes(r, 8+r.Intn(30))) }
	return &resTop{S: []string{s(), s()}, B: [][]byte{[]byte(s())}, M: []*resSub{{S: []string{s()}}},
		MI: map[int32]int32{r.Int31(): 1}, MS: map[string]*resSub{s(): {A: r.Int31()}}, MB: map[uint64][]byte{r.Uint64(): []byte(s())},
		One: &resSub{X: &resSub{L: []int32{r.Int31()}}}, Str: s(), Byt: []byte(s()), O: proto.Some(s()), P: ptr(r.Int63()), I: []int32{r.Int31()}}
}

func heapShapes(seed int64, thorough bool) []heapShape {
	g := newG(seed)
	var cs []*ctx
	for i := 0; i < 12; i++ {
		cs = append(cs, &ctx{Schema: g.schema(nil)})
	}
	top := 1 << 22
	if thorough {
		top <<= 2
	}
	sgenOf := func(r *rand.Rand, c *ctx) *sgen {
		s := &sgen{G: &G{Rand: r}, pr: profiles["roundtrip"], nodes: 12}
		s.o = &wireOpts{unknown: 20, loose: true, maxField: 10, bad: 20}
		s.m = &mctx{ctx: c, g: s.G, full: 75}
		return s
	}
	long := func(round int) int {
		if n := 64 << uint(2*round); n < top {
			return n
		}
		return top
	}
	return []heapShape{
		{"distinct contents decoded", 4000, func(r *rand.Rand, round, i int) {
			b, _ := proto.Marshal(distinct(r))
			proto.Unmarshal(b, new(resTop))
		}},
		{"the same message encoded", 4000, func(r *rand.Rand, round, i int) {
			m := distinct(rand.New(rand.NewSource(1)))
			proto.Size(m)
			proto.Marshal(m)
		}},
		{"broken inputs", 6000, func(r *rand.Rand, round, i int) {
			b, _ := proto.Marshal(distinct(r))
			b = b[:r.Intn(len(b))]
			if i%2 == 0 {
				b = append(b, 0xff, 0xff, byte(i), byte(i>>7)&0x7f)
			}
			proto.Unmarshal(b, new(resTop))
		}},
		{"undeclared fields", 6000, func(r *rand.Rand, round, i int) {
			b := lv(uint64(100+r.Intn(1<<28)), randBytes(r, 20))
			proto.Unmarshal(append(b, lv(9, b)...), new(resTop))
		}},
		{"values of other schemas", 1500, func(r *rand.Rand, round, i int) {
			c := cs[i%len(cs)]
			s := sgenOf(r, c)
			if i%2 == 0 {
				proto.Marshal(c.newMsg(1, s.value(1)).Interface())
			} else {
				proto.Unmarshal(c.bl.bytes(s.wireOf(1)), c.newMsg(1, c.zeroV(1)).Interface())
			}
		}},
		{"longer and longer strings", 6, func(r *rand.Rand, round, i int) {
			x := randBytes(r, long(round))
			m := &resTop{Str: string(x), S: []string{string(x)}, Byt: x, MS: map[string]*resSub{string(x): {}}}
			proto.Size(m)
			b, _ := proto.Marshal(m)
			proto.Unmarshal(b, new(resTop))
			proto.Unmarshal(lv(77, b), new(resTop))
			proto.Unmarshal(b[:len(b)-1], new(resTop))
		}},
		{"larger and larger collections", 4, func(r *rand.Rand, round, i int) {
			m := &resTop{MI: map[int32]int32{}}
			for j := 0; j < long(round)/64; j++ {
				m.I = append(m.I, int32(j))
				m.M = append(m.M, &resSub{A: 1})
				m.MI[int32(j)] = 1
			}
			b, _ := proto.Marshal(m)
			proto.Unmarshal(b, new(resTop))
			proto.Unmarshal(b[:len(b)-1], new(resTop))
		}},
		{"deeper and deeper messages", 6, func(r *rand.Rand, round, i int) {
			b := nestInput(8<<uint(3*round/2), byte(2+i%3), 1)
			m := new(DRec)
			proto.Unmarshal(b, m)
			if round < 4 {
				proto.Marshal(m)
			}
		}},
		{"refused arguments", 6000, func(r *rand.Rand, round, i int) {
			x := string(randBytes(r, 24))
			switch i % 6 {
			case 0:
				proto.Unmarshal([]byte(x), resTop{Str: x})
			case 1:
				proto.Unmarshal([]byte(x), (*resTop)(nil))
			case 2:
				proto.Unmarshal([]byte(x), &x)
			case 3:
				proto.Unmarshal([]byte(x), map[string]string{x: x})
			default: // the type is rejected, by a panic
				defer func() { recover() }()
				if i%6 == 4 {
					proto.Marshal(&unsupported{x, nil})
				} else {
					proto.Unmarshal([]byte(x), &unsupported{x, nil})
				}
			}
		}},
		{"calls of new goroutines", 600, func(r *rand.Rand, round, i int) {
			m := distinct(r)
			alone(func() {
				b, _ := proto.Marshal(m)
				proto.Unmarshal(b, new(resTop))
			})
		}},
	}
}

type unsupported struct {
	A string   `protobuf:"bytes,1,opt"`
	C chan int `protobuf:"varint,2,opt"`
}

// cmdRetainHeap: -n: 1 for larger inputs.
func cmdRetainHeap(e *Env) {
	f, err := os.Create(e.Trace)
	must(err)
	progress, err = os.Create(e.Args[0])
	must(err)
	watchdog(e.Limit)
	for k, s := range heapShapes(e.Seed, e.N > 0) {
		var kb, gos []int
		how := ""
		const rounds = 9
		for round := 0; round < rounds; round++ {
			mark(k, round)
			alone(func() {
				r := rand.New(rand.NewSource(e.Seed*1000 + int64(100*k+round)))
				for i := 0; i < s.n; i++ {
					if h := guardCall(func() { s.do(r, round, i) }); h != "" {
						how = h
					}
				}
			})
			if round < 1 { // types are analysed, tables filled
				continue
			}
			collect()
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			kb = append(kb, int(ms.HeapAlloc>>10))
			gos = append(gos, runtime.NumGoroutine())
		}
		fmt.Fprintln(f, js(map[string]any{"op": "heap", "shape": s.name, "rounds": rounds, "calls": rounds * s.n, "kb": kb, "go": gos, "err": how}))
	}
	must(f.Close())
}
