package main

// Histories of first uses of types (spec/PlanCache.tla), in this process's
// fresh caches, one goroutine or many.  The types are Go source generated
// from TLC's declarations (gen_types.go, written by the check).

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/RomiChan/protobuf/proto"
)

func init() { commands["plans"] = cmdPlans }

// graphTypes[g][t-1] is type t of declaration g; filled by gen_types.go.
var graphTypes [][]reflect.Type

type filler struct {
	c *ctx
	n int
}

func (f *filler) num() int {
	f.n++
	return f.n%100 + 1
}

func (f *filler) str() V {
	n := f.num()
	return V{int('s'), '0' + n/10%10, '0' + n%10}
}

func (f *filler) scalar(k string) V {
	switch k {
	case "bool":
		return word(1)
	case "string":
		return f.str()
	}
	return word(uint64(f.num()))
}

// elem: nil when nesting is to end here.
func (f *filler) elem(k string, m, depth int) (V, bool) {
	switch k {
	case "bytes":
		return V{f.str()}, true
	case "message":
		if depth <= 0 {
			return nil, false
		}
		return V{f.value(m, depth-1)}, true
	}
	return f.scalar(k), true
}

// value is a message of type t with every field set, to the given depth.
func (f *filler) value(t, depth int) V {
	out := V{}
	for _, fl := range f.c.Types[t-1] {
		e, ok := f.elem(fl.K, fl.M, depth)
		switch {
		case !ok:
			out = append(out, V{})
		case fl.C == "plain":
			out = append(out, e)
		case fl.C == "opt" || fl.C == "ptr":
			out = append(out, V{e})
		case fl.C == "rep":
			e2, _ := f.elem(fl.K, fl.M, depth)
			out = append(out, V{e, e2})
		case fl.C == "map":
			out = append(out, V{V{f.scalar(fl.KK), e}})
		}
	}
	return out
}

func (f *filler) payload(k string, m, depth int) V {
	n := f.num()
	switch {
	case k == "message":
		b := f.wire(m, depth-1)
		return cat(varint(uint64(len(b))), b)
	case k == "string" || k == "bytes":
		s := f.str()
		return cat(varint(uint64(len(s))), s)
	case wtOf(k) == 5:
		return V{n, 1, 2, 3}
	case wtOf(k) == 1:
		return V{n, 1, 2, 3, 4, 5, 6, 7}
	}
	return varint(uint64(n) * 3)
}

// wire is an encoding of such a message, fields in reverse.
func (f *filler) wire(t, depth int) V {
	out := V{}
	fs := f.c.Types[t-1]
	for i := len(fs) - 1; i >= 0; i-- {
		fl := fs[i]
		if fl.K == "message" && depth <= 0 {
			continue
		}
		n := 1
		if fl.C == "rep" {
			n = 2
		}
		for ; n > 0; n-- {
			if fl.C == "map" {
				e := cat(varint(uint64(1<<3|wtOf(fl.KK))), f.payload(fl.KK, 0, 0), varint(uint64(2<<3|wtOf(fl.K))), f.payload(fl.K, fl.M, depth))
				out = cat(out, varint(uint64(fl.N<<3|2)), varint(uint64(len(e))), e)
				continue
			}
			out = cat(out, varint(uint64(fl.N<<3|wtOf(fl.K))), f.payload(fl.K, fl.M, depth))
		}
	}
	return out
}

type graphInfo struct {
	Ok   []bool  `json:"ok"`   // type supported?
	Hist [][]int `json:"hist"` // sequences of types used
	sc   []*Schema
	at   []int // catalog index
}

var badInput = []byte{0x08, 1, 0x12, 0, 0x9a, 0x06, 0}

// useType uses type t of graph g once, and records it as a session.
func useType(gr *graphInfo, g, t, how int, w *bytes.Buffer) {
	sid := g*1000 + t*10 + how
	if !gr.Ok[t-1] {
		p := reflect.New(graphTypes[g][t-1]).Interface()
		fmt.Fprintln(w, js(map[string]any{"op": "start", "x": 1, "bl": V{}, "sid": sid}))
		calls := []func() error{
			func() error { _, err := proto.Marshal(p); return err },
			func() error { return proto.Unmarshal(badInput, p) },
			func() error { proto.Size(p); return nil },
		}
		for i := range calls {
			f := calls[(i+how)%3]
			var err error
			out := guardCall(func() { err = f() })
			if err != nil {
				out = "error"
			}
			if out != "" {
				out = "rejected" // an error or a panic: the library's choice
			}
			fmt.Fprintln(w, js(map[string]any{"op": "bad", "o": 0, "b": 0, "err": out, "ch": V{}, "co": V{}, "cb": V{}, "aux": true}))
		}
		return
	}
	sc := gr.sc[t-1]
	f := &filler{c: &ctx{Schema: sc}, n: sid}
	s := &Session{ID: sid, Schema: gr.at[t-1]}
	enc := []Op{{Op: "new", O: 1, T: 1, V: f.value(1, 2)}, {Op: "marshal", O: 1, B: 1}, {Op: "new", O: 2, T: 1, V: V{}}, {Op: "unmarshal", O: 2, B: 1}}
	dec := []Op{{Op: "new", O: 3, T: 1, V: V{}}, {Op: "buf", B: 2, V: f.wire(1, 2)}, {Op: "unmarshal", O: 3, B: 2}, {Op: "marshal", O: 3, B: 3}}
	if how%2 == 0 {
		s.Ops = append(enc, dec...)
	} else {
		s.Ops = append(dec, enc...)
	}
	runSession(-1, s, sc, w, false)
}

// cmdPlans: -arg graphs file; args: history number, goroutines, log, catalog ("" for none).
func cmdPlans(e *Env) {
	var gs []*graphInfo
	b, err := os.ReadFile(e.Arg)
	must(err)
	must(json.Unmarshal(b, &gs))
	if len(gs) != len(graphTypes) {
		fatal("graphs and types differ")
	}
	var cat []*Schema
	empty := &Schema{Types: [][]Field{{}}}
	cat = append(cat, empty)
	for g, gr := range gs {
		for t := range graphTypes[g] {
			gr.at = append(gr.at, 0)
			gr.sc = append(gr.sc, nil)
			if gr.Ok[t] {
				gr.sc[t] = schemaOf(graphTypes[g][t])
				cat = append(cat, gr.sc[t])
				gr.at[t] = len(cat)
			}
		}
	}
	if e.Catalog != "" {
		writeCatalog(e.Catalog, cat)
	}
	var h, procs int
	fmt.Sscan(e.Args[0], &h)
	fmt.Sscan(e.Args[1], &procs)
	var perr error
	progress, perr = os.Create(e.Args[2])
	must(perr)
	var beat int64
	go func() { // one declaration should take no time at all
		for {
			time.Sleep(e.Limit / 10)
			if t := atomic.LoadInt64(&beat); t != 0 && time.Since(time.Unix(0, t)) > e.Limit {
				fmt.Fprintln(os.Stderr, "HANG")
				os.Exit(97)
			}
		}
	}()
	logs := map[string]int{}
	uses := 0
	for g, gr := range gs {
		mark(g, h)
		atomic.StoreInt64(&beat, time.Now().UnixNano())
		if procs == 1 {
			for k, t := range gr.Hist[h%len(gr.Hist)] {
				var w bytes.Buffer
				useType(gr, g, t, (h/len(gr.Hist)+k)%4, &w)
				logs[w.String()]++
				uses++
			}
			continue
		}
		out := make([]map[string]int, procs)
		var ready int32
		var wg sync.WaitGroup
		for p := 0; p < procs; p++ {
			wg.Add(1)
			out[p] = map[string]int{}
			hist := gr.Hist[(h+p*(1+h%5))%len(gr.Hist)]
			go func(p int) {
				defer wg.Done()
				atomic.AddInt32(&ready, 1)
				for atomic.LoadInt32(&ready) < int32(procs) {
				}
				for k, t := range hist {
					var w bytes.Buffer
					useType(gr, g, t, (h+p+k)%4, &w)
					out[p][w.String()]++
				}
			}(p)
		}
		wg.Wait()
		for p := range out {
			for l, n := range out[p] {
				logs[l] += n
				uses += n
			}
		}
	}
	atomic.StoreInt64(&beat, 0)
	f, err := os.Create(e.Trace)
	must(err)
	w := bufio.NewWriter(f)
	keys := make([]string, 0, len(logs))
	for l := range logs {
		keys = append(keys, l)
	}
	sort.Strings(keys)
	for _, l := range keys {
		fmt.Fprintln(w, js(l))
	}
	must(w.Flush())
	must(f.Close())
	fmt.Println(js(map[string]any{"uses": uses, "logs": len(logs)}))
}
