package main

// Sessions run by many goroutines at once.  What a session only reads - the
// messages it never decodes into or changes, the buffers it never writes -
// is made once and shared by all goroutines; the rest each makes for itself.
// A goroutine's view of the session is a session: the specification says what
// a call returns when it runs alone, and that is what every call must return.

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"reflect"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"time"
)

func init() { commands["conc"] = cmdConc }

type concSession struct {
	s      *Session
	c      *ctx
	objs   map[int]*object
	bufs   map[int]*buffer
	head   bytes.Buffer // start and the shared creations, as events
	body   []Op
	shared int
	maps   bool // there is a map somewhere: entries may come in any order
}

type concStep struct {
	done  bool
	line  []byte
	err   string
	out   []byte        // marshal
	obj   reflect.Value // unmarshal: the message afterwards
	prevO map[int]string
	prevB map[int]string
}

func newConc(s *Session, sc *Schema) *concSession {
	cs := &concSession{s: s, c: &ctx{Schema: sc}, objs: map[int]*object{}, bufs: map[int]*buffer{}}
	for _, b := range s.Blobs {
		cs.c.bl = append(cs.c.bl, b.make())
	}
	madeO, madeB, wroteO, wroteB := map[int]int{}, map[int]int{}, map[int]bool{}, map[int]bool{}
	for _, op := range s.Ops {
		switch op.Op {
		case "new":
			madeO[op.O]++
		case "unmarshal", "pokeobj", "trunc":
			wroteO[op.O] = true
		case "hide":
			wroteO[op.O], wroteO[op.F[0]] = true, true
		case "buf":
			madeB[op.B]++
		case "marshal", "cat", "cut", "ins", "del", "set", "pokebuf", "append":
			wroteB[op.B] = true
		}
	}
	for _, t := range sc.Types {
		for _, f := range t {
			cs.maps = cs.maps || f.C == "map"
		}
	}
	c := *cs.c // what a goroutine makes messages with is its own
	e := &exec{c: &c, objs: cs.objs, bufs: cs.bufs, out: &cs.head}
	e.emit(map[string]any{"op": "start", "x": s.Schema, "bl": cs.c.bl.lens(), "sid": s.ID})
	for _, op := range s.Ops {
		op := op
		if op.Op == "new" && madeO[op.O] == 1 && !wroteO[op.O] || op.Op == "buf" && madeB[op.B] == 1 && !wroteB[op.B] {
			ev := map[string]any{"op": op.Op, "o": op.O, "b": op.B, "err": "", "ch": V{}}
			e.do(&op, ev, false)
			e.snapshot(ev)
			e.emit(ev)
			cs.shared++
			continue
		}
		cs.body = append(cs.body, op)
	}
	return cs
}

func sameBytes(a, b []byte, anyOrder bool) bool {
	if bytes.Equal(a, b) {
		return true
	}
	if !anyOrder || len(a) != len(b) {
		return false
	}
	var n [256]int
	for i := range a {
		n[a[i]]++
		n[b[i]]--
	}
	return n == [256]int{}
}

// view is one goroutine's state at the start of the body.
func (cs *concSession) view(out io.Writer) *exec {
	c := *cs.c // what a goroutine makes messages with is its own
	e := &exec{c: &c, objs: map[int]*object{}, bufs: map[int]*buffer{}, out: out}
	for i, o := range cs.objs {
		x := *o
		e.objs[i] = &x
	}
	for i, b := range cs.bufs {
		x := *b
		e.bufs[i] = &x
	}
	return e
}

// first runs the body, recorded.
func (cs *concSession) first(log *bytes.Buffer) []concStep {
	log.Write(cs.head.Bytes())
	e := cs.view(log)
	steps := make([]concStep, len(cs.body))
	for i := range cs.body {
		op := &cs.body[i]
		st := &steps[i]
		st.prevO, st.prevB = map[int]string{}, map[int]string{}
		for k, o := range e.objs {
			st.prevO[k] = o.s
		}
		for k, b := range e.bufs {
			st.prevB[k] = b.s
		}
		ev := map[string]any{"op": op.Op, "o": op.O, "b": op.B, "err": "", "ch": V{}}
		if !e.do(op, ev, false) {
			continue
		}
		st.done = true
		st.err = ev["err"].(string)
		e.snapshot(ev)
		at := log.Len()
		e.emit(ev)
		st.line = append([]byte(nil), log.Bytes()[at:]...)
		if op.Op == "marshal" {
			st.out = append([]byte(nil), e.bufs[op.B].b...)
		}
		if op.Op == "unmarshal" { // the message as it is now: later steps may change it
			o := e.objs[op.O]
			st.obj = cs.c.newMsg(o.t, cs.c.msgTo(o.t, o.p.Elem()))
		}
		if st.err == "panic" {
			break
		}
	}
	return steps
}

// again runs the body without recording and compares; from the first
// difference on it records. Returns whether something differed.
func (cs *concSession) again(steps []concStep, log *bytes.Buffer) bool {
	e := cs.view(log)
	for i := range cs.body {
		op, st := &cs.body[i], &steps[i]
		ev := map[string]any{"op": op.Op, "o": op.O, "b": op.B, "err": "", "ch": V{}}
		if !e.do(op, ev, false) {
			continue
		}
		same := st.done && st.err == ev["err"].(string)
		if same && op.Op == "marshal" {
			same = sameBytes(st.out, e.bufs[op.B].b, cs.maps) && ev["size"] == len(st.out) && ev["size2"] == len(st.out)
			if st.err != "" {
				same = true
			}
			same = same && ev["kept"] == true
		}
		if same && op.Op == "unmarshal" && st.err == "" {
			o := e.objs[op.O]
			same = reflect.DeepEqual(o.p.Interface(), st.obj.Interface()) ||
				js(cs.c.msgTo(o.t, o.p.Elem())) == js(cs.c.msgTo(o.t, st.obj.Elem()))
		}
		if same {
			continue
		}
		log.Write(cs.head.Bytes())
		for k := 0; k < i; k++ {
			log.Write(steps[k].line)
		}
		for k, o := range e.objs {
			o.s = st.prevO[k]
		}
		for k, b := range e.bufs {
			b.s = st.prevB[k]
		}
		e.snapshot(ev)
		ev["note"] = "concurrent"
		e.emit(ev)
		return true
	}
	return false
}

// cmdConc: -arg sessions, -trace log, -catalog; args: goroutines per session,
// sessions at once, passes, progress file.
func cmdConc(e *Env) {
	var cat []*Schema
	var ss []*Session
	byKey := map[string]int{}
	must(readLines(e.Arg, func(l []byte) {
		s := &Session{}
		must(json.Unmarshal(l, s))
		s.fix()
		key := js(s.Def)
		if byKey[key] == 0 {
			s.Def.build()
			cat = append(cat, s.Def)
			byKey[key] = len(cat)
		}
		s.Schema = byKey[key]
		ss = append(ss, s)
	}))
	writeCatalog(e.Catalog, cat)
	var gor, wide, passes int
	fmt.Sscan(e.Args[0], &gor)
	fmt.Sscan(e.Args[1], &wide)
	fmt.Sscan(e.Args[2], &passes)
	var err error
	progress, err = os.Create(e.Args[3])
	must(err)
	var beat int64
	go func() {
		for {
			time.Sleep(e.Limit / 10)
			if t := atomic.LoadInt64(&beat); t != 0 && time.Since(time.Unix(0, t)) > e.Limit {
				fmt.Fprintln(os.Stderr, "HANG")
				os.Exit(97)
			}
		}
	}()
	logs := map[string]bool{}
	calls, shared := 0, 0
	for at := 0; at < len(ss); at += wide {
		end := at + wide
		if end > len(ss) {
			end = len(ss)
		}
		mark(at, end)
		atomic.StoreInt64(&beat, time.Now().UnixNano())
		var css []*concSession
		for _, s := range ss[at:end] {
			cs := newConc(s, cat[s.Schema-1])
			shared += cs.shared
			css = append(css, cs)
		}
		out := make([][]string, gor*len(css))
		var wg sync.WaitGroup
		var ready int32
		for g := range out {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				cs := css[g%len(css)]
				atomic.AddInt32(&ready, 1)
				for atomic.LoadInt32(&ready) < int32(len(out)) {
					runtime.Gosched()
				}
				var log bytes.Buffer
				steps := cs.first(&log)
				out[g] = append(out[g], log.String())
				for p := 0; p < passes; p++ {
					log.Reset()
					if cs.again(steps, &log) {
						out[g] = append(out[g], log.String())
						break
					}
				}
			}(g)
		}
		wg.Wait()
		for _, cs := range css {
			calls += len(cs.body) * gor * (passes + 1)
		}
		for _, o := range out {
			for _, l := range o {
				logs[l] = true
			}
		}
	}
	atomic.StoreInt64(&beat, 0)
	f, err := os.Create(e.Trace)
	must(err)
	w := bufio.NewWriter(f)
	keys := make([]string, 0, len(logs))
	for l := range logs {
		keys = append(keys, l)
	}
	sort.Strings(keys)
	for _, l := range keys {
		w.WriteString(l)
	}
	must(w.Flush())
	must(f.Close())
	fmt.Println(js(map[string]any{"sessions": len(ss), "logs": len(logs), "steps": calls, "shared": shared}))
}
