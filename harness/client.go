package main

// Replays what TLC enumerated of spec/Client.tla: histories of a client with
// two messages and two slices, and what all of them hold at the end. A
// history that ends otherwise is written out as a session, whose execution is
// then judged by TLC (TraceSession.tla).

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
)

func init() {
	commands["client"] = func(e *Env) { cmdClient(e, false) }
	commands["clientsession"] = func(e *Env) { cmdClient(e, true) }
}

type clientSchema struct {
	S     int       `json:"s"`
	Types [][]Field `json:"types"`
	V     V         `json:"v"`
	W     V         `json:"w"`

	sch *Schema
}

type clientCase struct {
	S    int  `json:"s"`
	Y    V    `json:"y"`
	Hist []Op `json:"hist"`
	Obj  []V  `json:"obj"`
	Buf  []V  `json:"buf"`
}

// ops is the history as operations of a session.
func (cc *clientCase) ops(cs *clientSchema, zero V) []Op {
	ops := []Op{{Op: "new", O: 1, T: 1, V: cs.V}, {Op: "new", O: 2, T: 1, V: zero},
		{Op: "buf", B: 1, V: cs.W}, {Op: "buf", B: 2, V: cc.Y}}
	for _, h := range cc.Hist {
		switch h.Op {
		case "new":
			ops = append(ops, Op{Op: "new", O: h.O, T: 1, V: zero})
		case "fail":
			ops = append(ops, Op{Op: "unmarshal", O: h.O, B: h.B}, Op{Op: "new", O: h.O, T: 1, V: zero})
		case "append":
			ops = append(ops, Op{Op: "append", B: h.B, V: V{200, 1, 7}})
		case "pokebuf", "pokeobj":
			h.X = 255
			ops = append(ops, h)
		case "hide":
			ops = append(ops, Op{Op: "hide", O: h.O, F: []int{3 - h.O}})
		default:
			ops = append(ops, h)
		}
	}
	return ops
}

// replay runs the history; false if it did not go as TLC said.
func (cc *clientCase) replay(cs *clientSchema, ops []Op) bool {
	c := &ctx{Schema: cs.sch}
	e := &exec{c: c, objs: map[int]*object{}, bufs: map[int]*buffer{}}
	for i := range ops {
		ev := map[string]any{"err": ""}
		if !e.do(&ops[i], ev, false) {
			return false
		}
		if gcMode && (ops[i].Op == "unmarshal" || ops[i].Op == "marshal") {
			runtime.GC()
			churn()
		}
		fails := i+1 < len(ops) && ops[i].Op == "unmarshal" && ops[i+1].Op == "new" && ops[i+1].O == ops[i].O
		if err := ev["err"].(string); err == "panic" || (err != "" && !fails) {
			return false
		}
		if ops[i].Op == "marshal" && (ev["size"] != len(e.bufs[ops[i].B].b) || ev["size2"] != ev["size"] || ev["kept"] != true) {
			return false
		}
		if fails && ev["err"] == "" && !cc.accepted(i) {
			return false
		}
	}
	for id := 1; id <= 2; id++ {
		o := e.objs[id]
		if js(c.norm(1, c.msgTo(1, o.p.Elem()))) != js(c.norm(1, cc.Obj[id-1])) || !c.auxIntact(1, o.p.Elem(), true) {
			return false
		}
		if js(e.bufRope(e.bufs[id])) != js(cc.Buf[id-1]) {
			return false
		}
	}
	return true
}

// accepted: the operation at i, of ops, is an unmarshal that has to succeed.
func (cc *clientCase) accepted(i int) bool {
	n := 4
	for _, h := range cc.Hist {
		if n == i {
			return h.Op == "unmarshal"
		}
		n++
		if h.Op == "fail" {
			n++
		}
	}
	return false
}

func cmdClient(env *Env, one bool) {
	in, err := os.Open(env.Arg)
	must(err)
	out, err := os.Create(env.Args[0])
	must(err)
	defer out.Close()
	progress, err = os.Create(env.Args[1])
	must(err)
	watchdog(env.Limit)

	schemas := map[int]*clientSchema{}
	var lines []string
	sc := bufio.NewScanner(in)
	sc.Buffer(nil, 1<<26)
	for sc.Scan() {
		l, ok := unquote(sc.Text())
		if !ok {
			continue
		}
		switch {
		case strings.HasPrefix(l, "SCHEMA "):
			cs := &clientSchema{}
			must(json.Unmarshal([]byte(l[7:]), cs))
			fixInts(cs.V)
			fixInts(cs.W)
			if schemas[cs.S] == nil {
				cs.sch = &Schema{Seed: env.Seed*10 + int64(cs.S), Types: cs.Types}
				cs.sch.build()
				schemas[cs.S] = cs
			}
		case strings.HasPrefix(l, "CASE "):
			lines = append(lines, l[5:])
		}
	}
	must(sc.Err())
	sort.Strings(lines)
	differ, calls := 0, 0
	for i, l := range lines {
		if i < env.N {
			continue
		}
		mark(i, 0)
		cc := &clientCase{}
		must(json.Unmarshal([]byte(l), cc))
		fixInts(cc.Y)
		for k := range cc.Obj {
			fixInts(cc.Obj[k])
			fixInts(cc.Buf[k])
		}
		cs := schemas[cc.S]
		zero := (&ctx{Schema: cs.sch}).zeroV(1)
		ops := cc.ops(cs, zero)
		calls += len(cc.Hist)
		if one || !cc.replay(cs, ops) {
			differ++
			if differ <= 200 {
				fmt.Fprintln(out, js(&Session{ID: i, Def: cs.sch, Ops: ops}))
			}
		}
		if one {
			return
		}
	}
	fmt.Println(js(map[string]any{"cases": len(lines), "calls": calls, "differ": differ}))
}
