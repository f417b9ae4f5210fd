package main

// Replays what TLC enumerated: the states of spec/Decoder.tla (an input and
// the verdict on it) and of spec/Encoder.tla (a message and its encodings).
// The comparison here is only a filter: a case that differs is written out as
// a session, whose execution is then judged by TLC (TraceSession.tla).

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"

	"github.com/RomiChan/protobuf/proto"
)

func init() {
	commands["cases"] = func(e *Env) { cmdCases(e, false) }
	commands["casesession"] = func(e *Env) { cmdCases(e, true) }
}

type tlcCase struct {
	// Decoder
	B  V      `json:"b"`
	E  string `json:"e"`
	Ch V      `json:"ch"`
	M  V      `json:"m"`
	// Encoder
	F    *Field `json:"f"`
	V    V      `json:"v"`
	Size int    `json:"size"`
	Encs []V    `json:"encs"`
}

// norm makes projections comparable: map entries sorted, nil elements of
// repeated bytes and nil bytes map values as empty ones.
func (c *ctx) norm(t int, v V) V {
	out := make(V, len(v))
	elem := func(f *Field, y any) any {
		if f.K == "message" {
			if l := y.(V); len(l) > 0 {
				return V{c.norm(f.M, l[0].(V))}
			}
		}
		if f.K == "bytes" && len(y.(V)) == 0 {
			return V{V{}}
		}
		return y
	}
	for i := range v {
		f := &c.Types[t-1][i]
		x := v[i].(V)
		switch {
		case f.C == "rep":
			l := make(V, len(x))
			for j := range x {
				l[j] = elem(f, x[j])
			}
			out[i] = l
		case f.C == "map":
			l := make(V, len(x))
			for j := range x {
				p := x[j].(V)
				l[j] = V{p[0], elem(f, p[1])}
			}
			sort.SliceStable(l, func(a, b int) bool { return js(l[a].(V)[0]) < js(l[b].(V)[0]) })
			out[i] = l
		case f.C == "plain" && f.K == "message":
			out[i] = elem(f, x)
		default:
			out[i] = x
		}
	}
	return out
}

// unquote undoes what PrintT does to a string.
func unquote(l string) (string, bool) {
	if len(l) < 2 || l[0] != '"' || l[len(l)-1] != '"' {
		return "", false
	}
	return strings.NewReplacer(`\"`, `"`, `\\`, `\`).Replace(l[1 : len(l)-1]), true
}

// cmdCases replays all cases; one: only writes the session of case -n.
func cmdCases(env *Env, one bool) {
	in, err := os.Open(env.Arg)
	must(err)
	out, err := os.Create(env.Args[0])
	must(err)
	defer out.Close()
	static := env.Args[2] // "" or the name of the static type
	progress, err = os.Create(env.Args[1])
	must(err)
	from := env.N
	watchdog(env.Limit)

	var dec *Schema
	var lines []string
	sc := bufio.NewScanner(in)
	sc.Buffer(nil, 1<<26)
	for sc.Scan() {
		l, ok := unquote(sc.Text())
		if !ok {
			continue
		}
		switch {
		case strings.HasPrefix(l, "SCHEMA "):
			dec = &Schema{Seed: env.Seed}
			must(json.Unmarshal([]byte(l[7:]), &dec.Types))
			if static != "" {
				want := js(dec.Types)
				dec.Static = static
				dec.build()
				if js(dec.Types) != want {
					fatal("static type differs from the schema", js(dec.Types), want)
				}
			} else {
				dec.build()
			}
		case strings.HasPrefix(l, "CASE "):
			lines = append(lines, l[5:])
		}
	}
	must(sc.Err())
	sort.Strings(lines)
	enc := map[Field]*Schema{}
	differ, accepted, rejected := 0, 0, 0
	for i, l := range lines {
		if i < from {
			continue
		}
		mark(i, 0)
		var tc tlcCase
		must(json.Unmarshal([]byte(l), &tc))
		fixInts(tc.B)
		fixInts(tc.Ch)
		fixInts(tc.M)
		fixInts(tc.V)
		for _, e := range tc.Encs {
			fixInts(e)
		}
		var s *Session
		if tc.F != nil {
			sch := enc[*tc.F]
			if sch == nil {
				sch = &Schema{Seed: env.Seed + int64(len(enc)), Types: [][]Field{{*tc.F}, {
					{N: 1, K: "int32", C: "plain"}, {N: 2, K: "string", C: "opt"}}}}
				sch.build()
				enc[*tc.F] = sch
			}
			c := &ctx{Schema: sch}
			if one || !encodeCase(c, &tc) {
				s = &Session{Def: sch, Ops: []Op{{Op: "new", O: 1, T: 1, V: tc.V}, {Op: "marshal", O: 1, B: 1},
					{Op: "new", O: 2, T: 1, V: V{}}, {Op: "unmarshal", O: 2, B: 1}}}
			}
		} else {
			if tc.E == "" {
				accepted++
			} else {
				rejected++
			}
			c := &ctx{Schema: dec}
			if one || !decodeCase(c, &tc) {
				s = &Session{Def: dec, Ops: []Op{{Op: "new", O: 1, T: 1, V: V{}}, {Op: "buf", B: 1, V: tc.B},
					{Op: "unmarshal", O: 1, B: 1}}}
			}
		}
		if s != nil {
			differ++
			s.ID = i
			if differ <= 200 {
				fmt.Fprintln(out, js(s))
			}
		}
		if one {
			return
		}
	}
	fmt.Println(js(map[string]any{"cases": len(lines), "differ": differ, "accepted": accepted, "rejected": rejected}))
}

func decodeCase(c *ctx, tc *tlcCase) bool {
	p := c.newMsg(1, c.zeroV(1))
	b := guarded(c.bl.bytes(tc.B))
	var err error
	if how := guardCall(func() { err = proto.Unmarshal(b, p.Interface()) }); how != "" {
		return false
	}
	e, ch := classify(err)
	if e != tc.E {
		return false
	}
	if e != "" && js(ch) != js(tc.Ch) {
		return false
	}
	return js(c.norm(1, c.msgTo(1, p.Elem()))) == js(c.norm(1, tc.M)) && c.auxIntact(1, p.Elem(), true)
}

func encodeCase(c *ctx, tc *tlcCase) bool {
	p := c.newMsg(1, tc.V)
	var out []byte
	var err error
	size := 0
	if how := guardCall(func() { size = proto.Size(p.Interface()); out, err = proto.Marshal(p.Interface()) }); how != "" || err != nil {
		return false
	}
	if size != tc.Size || len(out) != size {
		return false
	}
	ok := false
	for _, e := range tc.Encs {
		ok = ok || string(out) == string(c.bl.bytes(e))
	}
	if !ok {
		return false
	}
	q := c.newMsg(1, c.zeroV(1))
	if how := guardCall(func() { err = proto.Unmarshal(out, q.Interface()) }); how != "" || err != nil {
		return false
	}
	want := js(c.norm(1, tc.V))
	return js(c.norm(1, c.msgTo(1, q.Elem()))) == want && js(c.norm(1, c.msgTo(1, p.Elem()))) == want
}
