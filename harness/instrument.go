package main

// A copy of the library's sources with a scheduling point before every
// statement, for go build -overlay: under it a goroutine may lose the
// processor anywhere, or (VERIF_YIELD=gc) garbage is collected there, or (the
// argument "steps") the statements are counted.  Only text is inserted, on the
// lines that are there.

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func init() { commands["instrument"] = cmdInstrument }

const yieldSource = `package %s

import (
	"math/rand/v2"
	"os"
	"runtime"
	"time"
)

var verifYieldOn = os.Getenv("VERIF_YIELD") != ""
var verifYieldGC = os.Getenv("VERIF_YIELD") == "gc"
var verifSink [64][]byte

// verifCollect: what is not alive is gone, and its memory used again.
func verifCollect() {
	runtime.GC()
	for i := range verifSink {
		b := make([]byte, 8<<(uint(i)%%8))
		for j := range b {
			b[j] = 0xAA
		}
		verifSink[i] = b
	}
}

func verifYield() {
	if !verifYieldOn {
		return
	}
	if verifYieldGC {
		if rand.Uint32()%%40 == 0 {
			verifCollect()
		}
		return
	}
	switch x := rand.Uint32(); {
	case x%%5 == 0:
		runtime.Gosched()
	case x%%701 == 1:
		time.Sleep(time.Duration(x>>20) * 50)
	}
}
`

const stepsSource = `package %[1]s

// %[2]s is the number of statements executed.
var %[2]s int64

func verifYield() { %[2]s++ }
`

// cmdInstrument: -arg package directory; args: overlay file, output directory,
// "steps" to count.
func cmdInstrument(e *Env) {
	files, err := filepath.Glob(filepath.Join(e.Arg, "*.go"))
	must(err)
	replace := map[string]string{}
	pkg := ""
	points := 0
	for _, name := range files {
		if strings.HasSuffix(name, "_test.go") {
			continue
		}
		src, err := os.ReadFile(name)
		must(err)
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
		must(err)
		pkg = f.Name.Name
		var at []int
		add := func(list []ast.Stmt) {
			for _, s := range list {
				if _, ok := s.(*ast.EmptyStmt); ok {
					continue
				}
				at = append(at, fset.Position(s.Pos()).Offset)
			}
		}
		clauses := map[*ast.BlockStmt]bool{} // lists of clauses, not of statements
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.FuncDecl:
				if n.Doc != nil {
					for _, c := range n.Doc.List {
						if strings.HasPrefix(c.Text, "//go:nosplit") || strings.HasPrefix(c.Text, "//go:linkname") {
							return false
						}
					}
				}
			case *ast.SwitchStmt:
				clauses[n.Body] = true
			case *ast.TypeSwitchStmt:
				clauses[n.Body] = true
			case *ast.SelectStmt:
				clauses[n.Body] = true
			case *ast.CaseClause:
				add(n.Body)
			case *ast.CommClause:
				add(n.Body)
			case *ast.BlockStmt:
				if !clauses[n] {
					add(n.List)
				}
			}
			return true
		})
		sort.Ints(at)
		var out strings.Builder
		last := 0
		for i, o := range at {
			if i > 0 && o == at[i-1] {
				continue
			}
			out.Write(src[last:o])
			out.WriteString("verifYield();")
			last = o
			points++
		}
		out.Write(src[last:])
		to := filepath.Join(e.Args[1], filepath.Base(name))
		must(os.WriteFile(to, []byte(out.String()), 0o644))
		replace[name] = to
	}
	y := filepath.Join(e.Args[1], "zz_verif_yield.go")
	text := fmt.Sprintf(yieldSource, pkg)
	if len(e.Args) > 2 && e.Args[2] == "steps" {
		name := "verifSteps"
		if pkg == "proto" { // the one that is read
			name = "VerifSteps"
		}
		text = fmt.Sprintf(stepsSource, pkg, name)
	}
	must(os.WriteFile(y, []byte(text), 0o644))
	replace[filepath.Join(e.Arg, "zz_verif_yield.go")] = y
	must(os.WriteFile(e.Args[0], []byte(js(map[string]any{"Replace": replace})), 0o644))
	fmt.Println(js(map[string]any{"points": points}))
}
