package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"runtime"
	"runtime/debug"
	"time"
)

func fatal(a ...any) {
	fmt.Fprintln(os.Stderr, a...)
	os.Exit(2)
}

func must(err error) {
	if err != nil {
		fatal(err)
	}
}

var gcMode bool

// catalogLine is what the specification reads of a schema.
func catalogLine(s *Schema) []byte {
	types := make([]any, len(s.Types))
	for i, fs := range s.Types {
		if fs == nil {
			fs = []Field{}
		}
		types[i] = fs
	}
	return []byte(js(map[string]any{"types": types}))
}

func writeCatalog(path string, cat []*Schema) {
	f, err := os.Create(path)
	must(err)
	w := bufio.NewWriter(f)
	for _, s := range cat {
		w.Write(append(catalogLine(s), '\n'))
	}
	must(w.Flush())
	must(f.Close())
}

func main() {
	if len(os.Args) < 2 {
		fatal("usage: vharness gen|run ...")
	}
	fs := flag.NewFlagSet(os.Args[1], flag.ExitOnError)
	profile := fs.String("profile", "roundtrip", "")
	seed := fs.Int64("seed", 1, "")
	n := fs.Int("n", 100, "")
	per := fs.Int("per", 3, "sessions per schema")
	nodes := fs.Int("nodes", 14, "values per message, roughly")
	trace := fs.String("trace", "", "")
	catalog := fs.String("catalog", "", "")
	sessions := fs.String("sessions", "", "")
	from := fs.Int("from", 0, "first session to run")
	prog := fs.String("progress", "", "")
	measure := fs.Bool("measure", false, "measure allocation")
	limit := fs.Duration("limit", 20*time.Second, "for one call")
	markAs := fs.String("mark", "", "do not run session -from, record this outcome for it")
	stop := fs.Bool("stop", false, "run no session after -from")
	arg := fs.String("arg", "", "")
	fs.BoolVar(&gcMode, "gc", false, "collect garbage all the time")
	fs.Parse(os.Args[2:])
	debug.SetMaxStack(512 << 20)

	switch os.Args[1] {
	case "gen":
		cat, ss := generate(profiles[*profile], *seed, *n, *per, *nodes)
		f, err := os.Create(*sessions)
		must(err)
		w := bufio.NewWriter(f)
		for _, s := range ss {
			s.Def = cat[s.Schema-1]
			w.WriteString(js(s) + "\n")
		}
		must(w.Flush())
		must(f.Close())
	case "run":
		// sessions carry their schema, or an index into -arg's schemas
		var cat []*Schema
		var ss []*Session
		byKey := map[string]int{}
		must(readLines(*sessions, func(l []byte) {
			s := &Session{}
			must(json.Unmarshal(l, s))
			s.fix()
			key := js(s.Def)
			if byKey[key] == 0 {
				s.Def.build()
				cat = append(cat, s.Def)
				byKey[key] = len(cat)
			}
			s.Schema = byKey[key]
			ss = append(ss, s)
		}))
		if *catalog != "" {
			writeCatalog(*catalog, cat)
		}
		out := io.Writer(os.Stdout)
		if *trace != "" {
			f, err := os.OpenFile(*trace, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
			must(err)
			defer f.Close()
			out = f
		}
		if *prog != "" {
			var err error
			progress, err = os.Create(*prog)
			must(err)
		}
		watchdog(*limit)
		if gcMode {
			go func() { // so that calls are interrupted by collections
				for {
					runtime.GC()
				}
			}()
		}
		for i, s := range ss {
			if i < *from {
				continue
			}
			var w bytes.Buffer // a session is written whole, or not at all
			mark(i, -1)
			if i == *from && *markAs != "" {
				c := V{}
				for _, b := range s.Blobs {
					c = append(c, b.Len)
				}
				fmt.Fprintln(&w, js(map[string]any{"op": "start", "x": s.Schema, "bl": c, "sid": s.ID}))
				fmt.Fprintln(&w, js(map[string]any{"op": "crash", "o": 0, "b": 0, "err": *markAs, "ch": V{}, "co": V{}, "cb": V{}, "aux": true}))
				_, err := out.Write(w.Bytes())
				must(err)
				if *stop {
					break
				}
				continue
			}
			runSession(i, s, cat[s.Schema-1], &w, *measure)
			_, err := out.Write(w.Bytes())
			must(err)
		}
		mark(len(ss), -1)
	default:
		if f := commands[os.Args[1]]; f != nil {
			f(&Env{Seed: *seed, N: *n, Trace: *trace, Catalog: *catalog, Arg: *arg, Args: fs.Args(), Limit: *limit})
			return
		}
		fatal("unknown command", os.Args[1])
	}
}

// Env is what the other commands get.
type Env struct {
	Seed                int64
	N                   int
	Trace, Catalog, Arg string
	Args                []string
	Limit               time.Duration
}

var commands = map[string]func(*Env){}
