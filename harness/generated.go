package main

import (
	"bufio"
	"encoding/json"
	"os"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

// Types emitted by protoc-gen-golite, with what their .proto files say about
// them. A file written by the check registers them.
type genType struct {
	Go     reflect.Type
	Fields string // JSON of the fields, from the .proto file
}

var genSchemas = map[string][]genType{}

func genNames() (l []string) {
	for n := range genSchemas {
		l = append(l, n)
	}
	sort.Slice(l, func(i, j int) bool {
		if len(l[i]) != len(l[j]) {
			return len(l[i]) < len(l[j])
		}
		return l[i] < l[j]
	})
	return
}

func genSchema(name string) *Schema {
	s := &Schema{}
	for _, t := range genSchemas[name] {
		var fs []Field
		must(json.Unmarshal([]byte(t.Fields), &fs))
		for i := range fs {
			fs[i].idx = -1
			for j := 0; j < t.Go.NumField(); j++ {
				p := strings.Split(t.Go.Field(j).Tag.Get("protobuf"), ",")
				if len(p) > 1 && p[1] == strconv.Itoa(fs[i].N) {
					fs[i].idx = j
				}
			}
			if fs[i].idx < 0 {
				fatal("no field", fs[i].N, "in", t.Go)
			}
		}
		s.Types = append(s.Types, fs)
		s.Go = append(s.Go, t.Go)
		s.Aux = append(s.Aux, nil)
	}
	return s
}

func init() {
	// values: random messages of every generated type
	commands["values"] = func(env *Env) {
		f, err := os.Create(env.Trace)
		must(err)
		w := bufio.NewWriter(f)
		for _, name := range genNames() {
			sc := genSchema(name)
			g := newG(env.Seed*1000003 + int64(len(name)) + int64(name[len(name)-1]))
			for t := range sc.Types {
				for k := 0; k < env.N; k++ {
					m := &mctx{ctx: &ctx{Schema: sc}, g: g, budget: 16, zeroish: k%3 == 1, full: 75}
					w.WriteString(js(map[string]any{"set": name, "t": t + 1, "v": m.msg(t+1, 3)}) + "\n")
				}
			}
		}
		must(w.Flush())
		must(f.Close())
	}
}
