package main

// What the Go front end finds in the files protoc-gen-golite emitted.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
)

type inspector struct {
	fset    *token.FileSet
	repo    string
	mu      sync.Mutex
	runtime *types.Package
}

const runtimePath = "github.com/RomiChan/protobuf/proto"

func parseDir(fset *token.FileSet, dir string) (fs []*ast.File, err error) {
	names, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	sort.Strings(names)
	for _, n := range names {
		if strings.HasSuffix(n, "_test.go") {
			continue
		}
		f, err := parser.ParseFile(fset, n, nil, parser.ParseComments)
		if err != nil {
			return nil, err
		}
		fs = append(fs, f)
	}
	return fs, nil
}

type none1 struct{}

func (none1) Import(path string) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	return nil, fmt.Errorf("not needed")
}

// loadRuntime knows the declarations of the runtime, not its code.
func (in *inspector) loadRuntime() {
	fs, err := parseDir(in.fset, filepath.Join(in.repo, "proto"))
	must(err)
	cfg := &types.Config{IgnoreFuncBodies: true, Importer: none1{}, Error: func(error) {}}
	p, _ := cfg.Check(runtimePath, in.fset, fs, nil)
	p.MarkComplete()
	in.runtime = p
}

// genSet is one set of files: import path -> directory.
type genSet struct {
	Dirs  map[string]string `json:"dirs"`
	Files []struct {
		Pkg  string `json:"pkg"`
		Path string `json:"path"`
	} `json:"files"`
}

type setChecker struct {
	in    *inspector
	set   *genSet
	pkgs  map[string]*types.Package
	files map[string]map[string]*ast.File // package -> file name
	info  *types.Info
	errs  map[string][]string // by file name
	fset  *token.FileSet
}

func (c *setChecker) Import(path string) (*types.Package, error) {
	if path == runtimePath {
		return c.in.runtime, nil
	}
	if p := c.pkgs[path]; p != nil {
		return p, nil
	}
	if path == "vg/track" { // an option that has to be imported, and is not used
		p := types.NewPackage(path, "track")
		p.MarkComplete()
		return p, nil
	}
	dir, ok := c.set.Dirs[path]
	if !ok {
		return nil, fmt.Errorf("no package %s", path)
	}
	c.pkgs[path] = types.NewPackage(path, "broken") // a cycle
	var fs []*ast.File
	c.files[path] = map[string]*ast.File{}
	names, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	sort.Strings(names)
	for _, n := range names {
		f, err := parser.ParseFile(c.fset, n, nil, parser.ParseComments)
		if err != nil {
			c.errs[n] = append(c.errs[n], err.Error())
		}
		if f != nil {
			fs = append(fs, f)
			c.files[path][n] = f
		}
	}
	cfg := &types.Config{Importer: c, Error: func(err error) {
		if e, ok := err.(types.Error); ok {
			n := e.Fset.Position(e.Pos).Filename
			c.errs[n] = append(c.errs[n], e.Msg)
		}
	}}
	p, err := cfg.Check(path, c.fset, fs, c.info)
	if err != nil && len(fs) == 0 {
		return nil, err
	}
	c.pkgs[path] = p
	return p, nil
}

func typeTerm(t types.Type) string {
	t = types.Unalias(t)
	switch t := t.(type) {
	case *types.Basic:
		if t.Kind() == types.Uint8 {
			return "uint8"
		}
		return t.Name()
	case *types.Pointer:
		return "*" + typeTerm(t.Elem())
	case *types.Slice:
		if e := typeTerm(t.Elem()); e != "uint8" {
			return "[]" + e
		}
		return "[]byte"
	case *types.Map:
		return "map[" + typeTerm(t.Key()) + "]" + typeTerm(t.Elem())
	case *types.Named:
		s := t.Obj().Name()
		if p := t.Obj().Pkg(); p != nil {
			s = p.Path() + "." + s
		}
		if a := t.TypeArgs(); a.Len() > 0 {
			var l []string
			for i := 0; i < a.Len(); i++ {
				l = append(l, typeTerm(a.At(i)))
			}
			s += "[" + strings.Join(l, ",") + "]"
		}
		return s
	}
	return t.String()
}

func tagTerm(s string, ok bool) V {
	if !ok {
		return V{}
	}
	p := strings.Split(s, ",")
	if len(p) < 3 {
		return V{s}
	}
	n, err := strconv.Atoi(p[1])
	if err != nil {
		return V{s}
	}
	return V{p[0], n, p[2]}
}

// words of a comment, without its marks.
func words(g *ast.CommentGroup) V {
	out := V{}
	if g == nil {
		return out
	}
	for _, c := range g.List {
		t := c.Text
		if strings.HasPrefix(t, "//") {
			t = t[2:]
		} else {
			t = strings.TrimSuffix(strings.TrimPrefix(t, "/*"), "*/")
		}
		for _, w := range strings.Fields(t) {
			out = append(out, w)
		}
	}
	return out
}

// docs lists the comments of the declarations of a file.
func docs(f *ast.File) V {
	out := V{}
	add := func(what, name string, doc, trail *ast.CommentGroup) {
		out = append(out, map[string]any{"what": what, "name": name, "doc": words(doc), "trail": words(trail)})
	}
	head := &ast.CommentGroup{}
	for _, g := range f.Comments {
		if g.Pos() < f.Package {
			head.List = append(head.List, g.List...)
		}
	}
	add("file", "", head, nil)
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			r := ""
			if d.Recv != nil && len(d.Recv.List) == 1 {
				if s, ok := d.Recv.List[0].Type.(*ast.StarExpr); ok {
					r = fmt.Sprint(s.X) + "."
				}
			}
			add("func", r+d.Name.Name, d.Doc, nil)
		case *ast.GenDecl:
			for _, sp := range d.Specs {
				switch sp := sp.(type) {
				case *ast.TypeSpec:
					doc := sp.Doc
					if !d.Lparen.IsValid() {
						doc = d.Doc
					}
					add("type", sp.Name.Name, doc, sp.Comment)
					if st, ok := sp.Type.(*ast.StructType); ok {
						for _, fl := range st.Fields.List {
							for _, n := range fl.Names {
								add("field", sp.Name.Name+"."+n.Name, fl.Doc, fl.Comment)
							}
						}
					}
				case *ast.ValueSpec:
					doc := sp.Doc
					if !d.Lparen.IsValid() {
						doc = d.Doc
					}
					for _, n := range sp.Names {
						add("const", n.Name, doc, sp.Comment)
					}
				}
			}
		}
	}
	return out
}

func (c *setChecker) describe(path, name string, f *ast.File) map[string]any {
	imports, typs, consts := V{}, V{}, V{}
	for _, i := range f.Imports {
		p, _ := strconv.Unquote(i.Path.Value)
		imports = append(imports, p)
	}
	for _, d := range f.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok {
			continue
		}
		for _, sp := range gd.Specs {
			switch sp := sp.(type) {
			case *ast.TypeSpec:
				obj, ok := c.info.Defs[sp.Name].(*types.TypeName)
				if !ok {
					continue
				}
				ev := map[string]any{"name": obj.Name(), "what": "other", "to": "", "comparable": false, "fields": V{}, "methods": V{}}
				if obj.IsAlias() {
					ev["what"], ev["to"] = "alias", typeTerm(obj.Type())
					if a, ok := obj.Type().(*types.Alias); ok {
						if b, ok := a.Rhs().(*types.Alias); ok {
							ev["to"] = b.Obj().Pkg().Path() + "." + b.Obj().Name()
						}
					}
					typs = append(typs, ev)
					continue
				}
				switch u := obj.Type().Underlying().(type) {
				case *types.Struct:
					ev["what"], ev["comparable"] = "struct", types.Comparable(obj.Type())
					fs := V{}
					for i := 0; i < u.NumFields(); i++ {
						fv := u.Field(i)
						tag := reflect.StructTag(u.Tag(i))
						pb, ok1 := tag.Lookup("protobuf")
						k, ok2 := tag.Lookup("protobuf_key")
						v, ok3 := tag.Lookup("protobuf_val")
						fs = append(fs, map[string]any{"name": fv.Name(), "exported": fv.Exported(), "type": typeTerm(fv.Type()),
							"tag": tagTerm(pb, ok1), "key": tagTerm(k, ok2), "val": tagTerm(v, ok3), "oneof": tag.Get("protobuf_oneof")})
					}
					ev["fields"] = fs
					ms := types.NewMethodSet(types.NewPointer(obj.Type()))
					l := V{}
					for i := 0; i < ms.Len(); i++ {
						m := ms.At(i).Obj().(*types.Func)
						r := ""
						if s := m.Type().(*types.Signature); s.Results().Len() == 1 {
							r = typeTerm(s.Results().At(0).Type())
						}
						l = append(l, V{m.Name(), r})
					}
					ev["methods"] = l
				case *types.Interface:
					ev["what"] = "interface"
				default:
					ev["what"] = typeTerm(u)
				}
				typs = append(typs, ev)
			case *ast.ValueSpec:
				for _, id := range sp.Names {
					if obj, ok := c.info.Defs[id].(*types.Const); ok {
						n, _ := constant.Int64Val(obj.Val())
						consts = append(consts, V{obj.Name(), int(n), typeTerm(obj.Type())})
					}
				}
			}
		}
	}
	errs := V{}
	for _, e := range c.errs[name] {
		errs = append(errs, e)
	}
	return map[string]any{"imports": imports, "types": typs, "consts": consts, "errors": errs, "docs": docs(f)}
}

func (in *inspector) inspect(set *genSet) V {
	c := &setChecker{in: in, set: set, pkgs: map[string]*types.Package{}, files: map[string]map[string]*ast.File{},
		info: &types.Info{Defs: map[*ast.Ident]types.Object{}}, errs: map[string][]string{}, fset: token.NewFileSet()}
	for _, f := range set.Files {
		c.Import(f.Pkg)
	}
	out := V{}
	for _, f := range set.Files {
		if a := c.files[f.Pkg][f.Path]; a != nil {
			out = append(out, c.describe(f.Pkg, f.Path, a))
		} else {
			out = append(out, map[string]any{"imports": V{}, "types": V{}, "consts": V{}, "errors": V{"no file"}, "docs": V{}})
		}
	}
	return out
}

func init() {
	commands["geninspect"] = func(env *Env) {
		in := &inspector{fset: token.NewFileSet(), repo: env.Args[0]}
		in.loadRuntime()
		var sets []*genSet
		must(readLines(env.Arg, func(l []byte) {
			s := &genSet{}
			must(json.Unmarshal(l, s))
			sets = append(sets, s)
		}))
		out := make([]string, len(sets))
		var wg sync.WaitGroup
		next := make(chan int)
		for w := 0; w < 8; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := range next {
					out[i] = js(in.inspect(sets[i]))
				}
			}()
		}
		for i := range sets {
			next <- i
		}
		close(next)
		wg.Wait()
		f, err := os.Create(env.Trace)
		must(err)
		w := bufio.NewWriter(f)
		for _, o := range out {
			fmt.Fprintln(w, o)
		}
		must(w.Flush())
		must(f.Close())
	}
}
