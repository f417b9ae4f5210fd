package main

// Replays what TLC enumerated of spec/Scratch.tla: sequences of decodes of
// messages with maps, and what each of them must give. A sequence that goes
// otherwise is written out as a session, to be judged by TraceSession.tla.
// With -sessions all are written out, several programs in one session, to be
// run by goroutines that share the areas (command conc).

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"
)

func init() {
	commands["scratch"] = func(e *Env) { cmdScratch(e, false) }
	commands["scratchsession"] = func(e *Env) { cmdScratch(e, true) }
	commands["scratchconc"] = cmdScratchConc
}

type scratchCase struct {
	Types [][]Field `json:"types"`
	In    []V       `json:"in"`
	Out   []struct {
		Ok bool `json:"ok"`
		M  V    `json:"m"`
	} `json:"out"`
}

func (sc *scratchCase) ops(o int) []Op {
	var ops []Op
	for d, in := range sc.In {
		ops = append(ops, Op{Op: "buf", B: o + d, V: in}, Op{Op: "new", O: o + d, T: 1}, Op{Op: "unmarshal", O: o + d, B: o + d})
	}
	return ops
}

func (sc *scratchCase) replay(sch *Schema) bool {
	c := &ctx{Schema: sch}
	e := &exec{c: c, objs: map[int]*object{}, bufs: map[int]*buffer{}}
	zero := c.zeroV(1)
	for _, op := range sc.ops(1) {
		ev := map[string]any{"err": ""}
		if op.Op == "new" {
			op.V = zero
		}
		if !e.do(&op, ev, false) {
			return false
		}
		if op.Op == "unmarshal" && (ev["err"] == "") != sc.Out[op.O-1].Ok {
			return false
		}
	}
	for d, out := range sc.Out {
		if out.Ok && js(c.norm(1, c.msgTo(1, e.objs[d+1].p.Elem()))) != js(c.norm(1, out.M)) {
			return false
		}
	}
	return true
}

func readScratch(env *Env) ([]*scratchCase, map[string]*Schema) {
	in, err := os.Open(env.Arg)
	must(err)
	defer in.Close()
	seen := map[string]bool{}
	var lines []string
	s := bufio.NewScanner(in)
	s.Buffer(nil, 1<<26)
	for s.Scan() {
		if l, ok := unquote(s.Text()); ok && strings.HasPrefix(l, "CASE ") && !seen[l] {
			seen[l] = true
			lines = append(lines, l[5:])
		}
	}
	must(s.Err())
	sort.Strings(lines)
	cases, schemas := []*scratchCase{}, map[string]*Schema{}
	for _, l := range lines {
		sc := &scratchCase{}
		must(json.Unmarshal([]byte(l), sc))
		for i := range sc.In {
			fixInts(sc.In[i])
			fixInts(sc.Out[i].M)
		}
		cases = append(cases, sc)
		if k := js(sc.Types); schemas[k] == nil {
			schemas[k] = &Schema{Seed: env.Seed*10 + int64(len(schemas)), Types: sc.Types}
			if m := sc.Types[0][1]; m.K == "message" { // refers to itself
				schemas[k].Static = "SRec" + m.KK
			}
			schemas[k].build()
			if js(schemas[k].Types) != k {
				fatal("static type differs from the schema", js(schemas[k].Types), k)
			}
		}
	}
	return cases, schemas
}

// session of these programs, one after the other.
func scratchSession(id int, sch *Schema, ps ...*scratchCase) *Session {
	zero := (&ctx{Schema: sch}).zeroV(1)
	s := &Session{ID: id, Def: sch}
	n := 1
	for _, p := range ps {
		for _, op := range p.ops(n) {
			if op.Op == "new" {
				op.V = zero
			}
			s.Ops = append(s.Ops, op)
		}
		n += len(p.In)
	}
	return s
}

func cmdScratch(env *Env, one bool) {
	out, err := os.Create(env.Args[0])
	must(err)
	defer out.Close()
	progress, err = os.Create(env.Args[1])
	must(err)
	watchdog(env.Limit)
	cases, schemas := readScratch(env)
	differ, calls := 0, 0
	for i, sc := range cases {
		if i < env.N {
			continue
		}
		mark(i, 0)
		sch := schemas[js(sc.Types)]
		calls += len(sc.In)
		if one || !sc.replay(sch) {
			differ++
			if differ <= 200 {
				fmt.Fprintln(out, js(scratchSession(i, sch, sc)))
			}
		}
		if one {
			return
		}
	}
	fmt.Println(js(map[string]any{"cases": len(cases), "calls": calls, "differ": differ}))
}

// cmdScratchConc: -n sessions, each of two programs of one map type.
func cmdScratchConc(env *Env) {
	out, err := os.Create(env.Args[0])
	must(err)
	defer out.Close()
	cases, schemas := readScratch(env)
	r := rand.New(rand.NewSource(env.Seed))
	by := map[string][]*scratchCase{}
	var keys []string
	for _, c := range cases {
		k := js(c.Types)
		if by[k] == nil {
			keys = append(keys, k)
		}
		by[k] = append(by[k], c)
	}
	sort.Strings(keys)
	id := 0
	// neighbours run at the same moment and must have the same type
	for id < env.N {
		k := keys[(id/4)%len(keys)]
		for j := 0; j < 4; j++ {
			id++
			fmt.Fprintln(out, js(scratchSession(id, schemas[k], by[k][r.Intn(len(by[k]))], by[k][r.Intn(len(by[k]))])))
		}
	}
	fmt.Println(js(map[string]any{"cases": len(cases), "sessions": id}))
}
