package main

import (
	"bytes"
	"embed"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type Config struct {
	GOOS, GOARCH string
	Tags         string
	NoSpec       bool
}

//go:embed spec/*.txt
var specFS embed.FS

// specSource is the specification file that is type-checked along with a
// package (it is never written into the tree).
func specSource(rel, suffix string) []byte {
	name := map[string]string{"": "table", "/runewidth": "runewidth", "/runewidth/uniseg": "uniseg"}[rel] + suffix
	b, err := specFS.ReadFile("spec/" + name + ".go.txt")
	if err != nil {
		return nil
	}
	return b
}

func declares(files []*ast.File, fn string) bool {
	for _, f := range files {
		for _, d := range f.Decls {
			if x, ok := d.(*ast.FuncDecl); ok && x.Recv == nil && x.Name.Name == fn {
				return true
			}
		}
	}
	return false
}

type Pkg struct {
	Path  string
	Dir   string
	Files []*ast.File
	Types *types.Package
	Info  *types.Info
}

type Prog struct {
	Cfg    Config
	Root   string
	Module string
	Fset   *token.FileSet
	Pkgs   []*Pkg // module packages, dependency order
	ByPath map[string]*Pkg
	Decl   map[*types.Func]*ast.FuncDecl
	PkgOf  map[*types.Func]*Pkg
	Globs  map[*types.Var]*Glob
	NFiles int
	alias  *aliasInfo
}

// Glob is what the module does to one package-level variable.
type Glob struct {
	Var    *types.Var
	Pkg    *Pkg
	Init   ast.Expr
	Writes []token.Pos // assignments to it, its elements or fields, or its address taken
}

type listPkg struct {
	ImportPath, Dir, Export string
	Standard                bool
	GoFiles                 []string
	Module                  *struct {
		Path string
		Main bool
	}
	Error *struct{ Err string }
}

func Load(root string, cfg Config) (*Prog, error) {
	args := []string{"list", "-e", "-export", "-deps", "-json=ImportPath,Dir,Export,Standard,GoFiles,Module,Error"}
	if cfg.Tags != "" {
		args = append(args, "-tags", cfg.Tags)
	}
	args = append(args, "./...")
	cmd := exec.Command("go", args...)
	cmd.Dir = root
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOOS=") || strings.HasPrefix(e, "GOARCH=") || strings.HasPrefix(e, "CGO_ENABLED=") {
			continue
		}
		env = append(env, e)
	}
	env = append(env, "GOFLAGS=-mod=readonly", "GOWORK=off", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0")
	if cfg.GOOS != "" {
		env = append(env, "GOOS="+cfg.GOOS, "GOARCH="+cfg.GOARCH)
	}
	cmd.Env = env
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Run(); err != nil {
		return nil, fmt.Errorf("go list: %v\n%s", err, errb.String())
	}
	exports := map[string]string{}
	var mods []listPkg
	dec := json.NewDecoder(&out)
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		if p.Module != nil && p.Module.Main {
			mods = append(mods, p)
		} else {
			exports[p.ImportPath] = p.Export
		}
	}
	pr := &Prog{Cfg: cfg, Root: root, Fset: token.NewFileSet(), ByPath: map[string]*Pkg{},
		Decl: map[*types.Func]*ast.FuncDecl{}, PkgOf: map[*types.Func]*Pkg{}, Globs: map[*types.Var]*Glob{}}
	gc := importer.ForCompiler(pr.Fset, "gc", func(path string) (io.ReadCloser, error) {
		f := exports[path]
		if f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	imp := importerFunc(func(path string) (*types.Package, error) {
		if p, ok := pr.ByPath[path]; ok {
			return p.Types, nil
		}
		return gc.Import(path)
	})
	for _, m := range mods {
		if len(m.GoFiles) == 0 {
			continue
		}
		pr.Module = m.Module.Path
		pk := &Pkg{Path: m.ImportPath, Dir: m.Dir}
		files := append([]string{}, m.GoFiles...)
		sort.Strings(files)
		for _, f := range files {
			af, err := parser.ParseFile(pr.Fset, filepath.Join(m.Dir, f), nil, parser.ParseComments|parser.SkipObjectResolution)
			if err != nil {
				return nil, err
			}
			pk.Files = append(pk.Files, af)
			pr.NFiles++
		}
		for _, suffix := range []string{"", "_posix"} {
			src := specSource(strings.TrimPrefix(m.ImportPath, m.Module.Path), suffix)
			if src == nil || cfg.NoSpec || suffix == "_posix" && !declares(pk.Files, "isEastAsian") {
				continue
			}
			af, err := parser.ParseFile(pr.Fset, filepath.Join(m.Dir, "verif_spec"+suffix+".go"), src, parser.SkipObjectResolution)
			if err != nil {
				return nil, err
			}
			pk.Files = append(pk.Files, af)
		}
		pk.Info = &types.Info{
			Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
			Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{},
			Instances: map[*ast.Ident]types.Instance{}, Scopes: map[ast.Node]*types.Scope{},
		}
		goos, goarch := cfg.GOOS, cfg.GOARCH
		if goos == "" {
			goos, goarch = "linux", "amd64"
		}
		_ = goos
		conf := types.Config{Importer: imp, Sizes: types.SizesFor("gc", goarch), GoVersion: ""}
		tp, err := conf.Check(m.ImportPath, pr.Fset, pk.Files, pk.Info)
		if err != nil {
			return nil, fmt.Errorf("type-check %s: %v", m.ImportPath, err)
		}
		pk.Types = tp
		pr.Pkgs = append(pr.Pkgs, pk)
		pr.ByPath[m.ImportPath] = pk
		for _, f := range pk.Files {
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok {
					if fn, ok := pk.Info.Defs[fd.Name].(*types.Func); ok {
						pr.Decl[fn] = fd
						pr.PkgOf[fn] = pk
					}
				}
			}
		}
	}
	pr.scanGlobals()
	return pr, nil
}

type importerFunc func(string) (*types.Package, error)

func (f importerFunc) Import(p string) (*types.Package, error) { return f(p) }

func (pr *Prog) Pos(p token.Pos) string {
	q := pr.Fset.Position(p)
	if r, err := filepath.Rel(pr.Root, q.Filename); err == nil {
		q.Filename = r
	}
	return fmt.Sprintf("%s:%d", q.Filename, q.Line)
}

// Func finds a function or method: "runewidth.RuneWidth" forms are resolved by
// (package path suffix, receiver type or "", name).
func (pr *Prog) Func(pkgPath, recv, name string) *types.Func {
	p := pr.ByPath[pkgPath]
	if p == nil {
		return nil
	}
	if recv == "" {
		f, _ := p.Types.Scope().Lookup(name).(*types.Func)
		return f
	}
	tn, _ := p.Types.Scope().Lookup(recv).(*types.TypeName)
	if tn == nil {
		return nil
	}
	obj, _, _ := types.LookupFieldOrMethod(types.NewPointer(tn.Type()), true, p.Types, name)
	f, _ := obj.(*types.Func)
	return f
}

func (pr *Prog) Var(pkgPath, name string) *types.Var {
	p := pr.ByPath[pkgPath]
	if p == nil {
		return nil
	}
	v, _ := p.Types.Scope().Lookup(name).(*types.Var)
	return v
}

func rootIdent(e ast.Expr) *ast.Ident {
	for {
		switch x := e.(type) {
		case *ast.Ident:
			return x
		case *ast.ParenExpr:
			e = x.X
		case *ast.SelectorExpr:
			if id, ok := x.X.(*ast.Ident); ok {
				_ = id
			}
			return x.Sel // caller decides (package-qualified) — see rootVar
		case *ast.IndexExpr:
			e = x.X
		case *ast.SliceExpr:
			e = x.X
		case *ast.StarExpr:
			e = x.X
		default:
			return nil
		}
	}
}

// rootVar resolves the package-level variable an lvalue expression writes through.
func rootVar(info *types.Info, e ast.Expr) *types.Var {
	for {
		switch x := e.(type) {
		case *ast.Ident:
			v, _ := info.Uses[x].(*types.Var)
			if v != nil && v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
				return v
			}
			return nil
		case *ast.ParenExpr:
			e = x.X
		case *ast.SelectorExpr:
			if v, ok := info.Uses[x.Sel].(*types.Var); ok && v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
				return v
			}
			e = x.X
		case *ast.IndexExpr:
			e = x.X
		case *ast.SliceExpr:
			e = x.X
		case *ast.StarExpr:
			e = x.X
		default:
			return nil
		}
	}
}

func (pr *Prog) scanGlobals() {
	for _, pk := range pr.Pkgs {
		for _, f := range pk.Files {
			for _, d := range f.Decls {
				gd, ok := d.(*ast.GenDecl)
				if !ok || gd.Tok != token.VAR {
					continue
				}
				for _, s := range gd.Specs {
					vs := s.(*ast.ValueSpec)
					for i, n := range vs.Names {
						v, ok := pk.Info.Defs[n].(*types.Var)
						if !ok {
							continue
						}
						g := &Glob{Var: v, Pkg: pk}
						if len(vs.Values) == len(vs.Names) {
							g.Init = vs.Values[i]
						}
						pr.Globs[v] = g
					}
				}
			}
		}
	}
	elemWrites := map[string]bool{} // types whose elements are written through non-global bases
	for _, pk := range pr.Pkgs {
		for _, f := range pk.Files {
			note := func(e ast.Expr) {
				if v := rootVar(pk.Info, e); v != nil {
					if g := pr.Globs[v]; g != nil {
						g.Writes = append(g.Writes, e.Pos())
					}
				}
				if ix, ok := ast.Unparen(e).(*ast.IndexExpr); ok {
					if rootVar(pk.Info, ix.X) == nil {
						if t := pk.Info.TypeOf(ix.X); t != nil {
							elemWrites[types.TypeString(t, nil)] = true
						}
					}
				}
			}
			ast.Inspect(f, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						for _, l := range x.Lhs {
							note(l)
						}
					}
				case *ast.IncDecStmt:
					note(x.X)
				case *ast.UnaryExpr:
					if x.Op == token.AND {
						if _, lit := ast.Unparen(x.X).(*ast.CompositeLit); !lit {
							note(x.X)
						}
					}
				case *ast.RangeStmt:
					if x.Tok == token.ASSIGN {
						if x.Key != nil {
							note(x.Key)
						}
						if x.Value != nil {
							note(x.Value)
						}
					}
				case *ast.CallExpr:
					if id, ok := ast.Unparen(x.Fun).(*ast.Ident); ok && len(x.Args) > 0 {
						if b, ok := pk.Info.Uses[id].(*types.Builtin); ok && (b.Name() == "delete" || b.Name() == "copy" || b.Name() == "clear") {
							note(x.Args[0])
						}
					}
					// sort.* and slices.* mutate their argument
					if se, ok := ast.Unparen(x.Fun).(*ast.SelectorExpr); ok {
						if fn, ok := pk.Info.Uses[se.Sel].(*types.Func); ok && fn.Pkg() != nil {
							if (fn.Pkg().Path() == "sort" && !strings.HasPrefix(fn.Name(), "Search")) ||
								(fn.Pkg().Path() == "slices" && (strings.HasPrefix(fn.Name(), "Sort") || fn.Name() == "Reverse")) {
								for _, a := range x.Args {
									note(a)
								}
							}
						}
					}
				}
				return true
			})
		}
	}
	for v, g := range pr.Globs {
		if elemWrites[types.TypeString(v.Type(), nil)] {
			g.Writes = append(g.Writes, token.NoPos)
		}
	}
}

// Const: the variable keeps its initial value: nothing in the module assigns it, and
// code outside cannot.
func (pr *Prog) Const(v *types.Var) bool {
	g := pr.Globs[v]
	return g != nil && !v.Exported() && len(g.Writes) == 0 && g.Init != nil
}

// litValue evaluates a constant composite literal to a term.
func (pr *Prog) litValue(pk *Pkg, e ast.Expr) *Term {
	e = ast.Unparen(e)
	if tv, ok := pk.Info.Types[e]; ok && tv.Value != nil {
		return constTerm(tv.Value)
	}
	switch x := e.(type) {
	case *ast.CompositeLit:
		t := pk.Info.TypeOf(x)
		switch u := t.Underlying().(type) {
		case *types.Struct:
			names := make([]string, u.NumFields())
			vals := make([]*Term, u.NumFields())
			for i := range names {
				names[i] = u.Field(i).Name()
				vals[i] = zeroOf(u.Field(i).Type())
			}
			for i, el := range x.Elts {
				if kv, ok := el.(*ast.KeyValueExpr); ok {
					for j := range names {
						if names[j] == kv.Key.(*ast.Ident).Name {
							vals[j] = pr.litValue(pk, kv.Value)
						}
					}
				} else {
					vals[i] = pr.litValue(pk, el)
				}
			}
			for _, v := range vals {
				if v == nil {
					return nil
				}
			}
			return Struct(types.TypeString(t, nil), names, vals)
		case *types.Slice, *types.Array:
			var et types.Type
			n := -1
			if s, ok := u.(*types.Slice); ok {
				et = s.Elem()
			} else {
				et = u.(*types.Array).Elem()
				n = int(u.(*types.Array).Len())
			}
			var vals []*Term
			idx := 0
			for _, el := range x.Elts {
				ve := el
				if kv, ok := el.(*ast.KeyValueExpr); ok {
					tv := pk.Info.Types[kv.Key]
					if tv.Value == nil {
						return nil
					}
					k, _ := constant.Int64Val(tv.Value)
					idx = int(k)
					ve = kv.Value
				}
				for len(vals) <= idx {
					vals = append(vals, zeroOf(et))
				}
				v := pr.litValue(pk, ve)
				if v == nil {
					return nil
				}
				vals[idx] = v
				idx++
			}
			for len(vals) < n {
				vals = append(vals, zeroOf(et))
			}
			return List(vals...)
		}
	}
	return nil
}

// litMap evaluates a constant map literal.
func (pr *Prog) litMap(pk *Pkg, e ast.Expr) (keys, vals []*Term, ok bool) {
	cl, isLit := ast.Unparen(e).(*ast.CompositeLit)
	if !isLit {
		return nil, nil, false
	}
	if _, isMap := pk.Info.TypeOf(cl).Underlying().(*types.Map); !isMap {
		return nil, nil, false
	}
	for _, el := range cl.Elts {
		kv := el.(*ast.KeyValueExpr)
		k, v := pr.litValue(pk, kv.Key), pr.litValue(pk, kv.Value)
		if k == nil || v == nil {
			return nil, nil, false
		}
		keys, vals = append(keys, k), append(vals, v)
	}
	return keys, vals, true
}

func constTerm(v constant.Value) *Term {
	switch v.Kind() {
	case constant.Bool:
		return Bool(constant.BoolVal(v))
	case constant.String:
		return Str(constant.StringVal(v))
	case constant.Int:
		if n, ok := constant.Int64Val(v); ok {
			return Int(n)
		}
	}
	return nil
}

func zeroOf(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return Int(0)
		case u.Info()&types.IsString != 0:
			return Str("")
		case u.Info()&types.IsBoolean != 0:
			return False
		}
	case *types.Struct:
		names := make([]string, u.NumFields())
		vals := make([]*Term, u.NumFields())
		for i := range names {
			names[i] = u.Field(i).Name()
			vals[i] = zeroOf(u.Field(i).Type())
		}
		return Struct(types.TypeString(t, nil), names, vals)
	case *types.Array:
		n := u.Len()
		vals := make([]*Term, n)
		for i := range vals {
			vals[i] = zeroOf(u.Elem())
		}
		return List(vals...)
	}
	return Nil
}

func sortOf(t types.Type) Sort {
	if t == nil {
		return SOther
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return SInt
		case u.Info()&types.IsString != 0:
			return SStr
		case u.Info()&types.IsBoolean != 0:
			return SBool
		}
	case *types.Slice, *types.Array:
		return SList
	}
	return SOther
}

func intRange(t types.Type) (lo, hi *int64) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return nil, nil
	}
	switch b.Kind() {
	case types.Uint8:
		return i64p(0), i64p(255)
	case types.Uint16:
		return i64p(0), i64p(65535)
	case types.Uint32:
		return i64p(0), i64p(1<<32 - 1)
	case types.Uint, types.Uint64, types.Uintptr:
		return i64p(0), nil
	case types.Int8:
		return i64p(-128), i64p(127)
	case types.Int16:
		return i64p(-32768), i64p(32767)
	case types.Int32:
		return i64p(-1 << 31), i64p(1<<31 - 1)
	}
	return nil, nil
}
