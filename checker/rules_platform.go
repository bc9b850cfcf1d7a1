package main

// C26: the platform variants of the module.

import (
	"fmt"
	"go/ast"
	"go/types"
	"sort"
	"strings"
)

type variant struct {
	name string
	cfg  Config
	rule string // posix, windows, never
}

func variants() []variant {
	return []variant{
		{"linux/amd64", Config{GOOS: "linux", GOARCH: "amd64"}, "posix"},
		{"linux/386", Config{GOOS: "linux", GOARCH: "386"}, "posix"},
		{"darwin/arm64", Config{GOOS: "darwin", GOARCH: "arm64"}, "posix"},
		{"windows/amd64", Config{GOOS: "windows", GOARCH: "amd64"}, "windows"},
		{"js/wasm", Config{GOOS: "js", GOARCH: "wasm"}, "never"},
		{"linux/amd64 with appengine", Config{GOOS: "linux", GOARCH: "amd64", Tags: "appengine"}, "never"},
		{"windows/amd64 with appengine", Config{GOOS: "windows", GOARCH: "amd64", Tags: "appengine"}, "never"},
	}
}

// used lists the declarations that the exported functions of the module are
// built from, stopping at the locale detection: name to source position.
func (pr *Prog) used() map[string]string {
	out := map[string]string{}
	seen := map[types.Object]bool{}
	var todo []types.Object
	add := func(o types.Object) {
		if o == nil || seen[o] || o.Pkg() == nil || pr.ByPath[o.Pkg().Path()] == nil || isSpec(o.Name()) {
			return
		}
		switch x := o.(type) {
		case *types.Func:
			o = x.Origin()
			if pr.Decl[x.Origin()] == nil {
				return
			}
		case *types.Var:
			if x.IsField() || x.Parent() != x.Pkg().Scope() {
				return
			}
		case *types.Const, *types.TypeName:
			if o.Parent() != o.Pkg().Scope() {
				return
			}
		default:
			return
		}
		if !seen[o] {
			seen[o] = true
			todo = append(todo, o)
		}
	}
	specs := map[types.Object]ast.Node{}
	for _, pk := range pr.Pkgs {
		for _, f := range pk.Files {
			for _, d := range f.Decls {
				switch x := d.(type) {
				case *ast.FuncDecl:
					o := pk.Info.Defs[x.Name]
					if x.Name.Name == "init" || x.Name.IsExported() {
						add(o)
					}
				case *ast.GenDecl:
					for _, s := range x.Specs {
						switch y := s.(type) {
						case *ast.ValueSpec:
							for _, n := range y.Names {
								specs[pk.Info.Defs[n]] = y
								if n.IsExported() {
									add(pk.Info.Defs[n])
								}
							}
						case *ast.TypeSpec:
							specs[pk.Info.Defs[y.Name]] = y
							if y.Name.IsExported() {
								add(pk.Info.Defs[y.Name])
							}
						}
					}
				}
			}
		}
	}
	for len(todo) > 0 {
		o := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		name := o.Pkg().Path() + "." + o.Name()
		var node ast.Node = specs[o]
		if fn, ok := o.(*types.Func); ok {
			name = fn.FullName()
			node = pr.Decl[fn]
			if fn.Name() == "IsEastAsian" {
				continue
			}
		}
		out[name] = pr.Pos(o.Pos())
		info := pr.ByPath[o.Pkg().Path()].Info
		if node == nil {
			continue
		}
		ast.Inspect(node, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				add(info.Uses[id])
			}
			return true
		})
	}
	return out
}

func init() {
	register("C26", "", func(c *Ctx) {
		var base map[string]string
		first := ""
		for _, v := range variants() {
			cfg := v.cfg
			cfg.NoSpec = true
			pr, err := Load(c.pr.Root, cfg)
			msg := ""
			if err != nil {
				msg = err.Error()
			}
			if !c.ob(err == nil, "the module type-checks for the platform", v.name, "go.mod", msg) {
				continue
			}
			var fns []*types.Func
			for fn := range pr.Decl {
				if fn.Name() == "IsEastAsian" && fn.Type().(*types.Signature).Recv() == nil && strings.HasSuffix(fn.Pkg().Path(), "/runewidth") {
					fns = append(fns, fn)
				}
			}
			if !c.ob(len(fns) == 1, "exactly one locale detection is compiled in", v.name, "runewidth", fmt.Sprintf("%d found", len(fns))) {
				continue
			}
			u := pr.used()
			if base == nil {
				base, first = u, v.name
				c.note("declarations the exported functions are built from: %d", len(u))
			} else {
				diff := diffDecls(base, u)
				c.ob(diff == "", "width logic and tables are those of "+first, v.name, "module", diff)
			}
			c.localeRule(pr, fns[0], v)
		}
	})
}

func diffDecls(a, b map[string]string) string {
	var out []string
	for k, p := range a {
		if b[k] == "" {
			out = append(out, k+" ("+p+") is missing")
		} else if b[k] != p {
			out = append(out, k+" is declared at "+b[k]+" instead of "+p)
		}
	}
	for k, p := range b {
		if a[k] == "" {
			out = append(out, k+" ("+p+") is extra")
		}
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}

// localeRule: what the locale detection of the variant decides.
func (c *Ctx) localeRule(pr *Prog, fn *types.Func, v variant) {
	what, pos := fn.FullName()+" for "+v.name, pr.Pos(fn.Pos())
	if v.rule == "posix" {
		// decided by C23 on the default platform; the source must be the same
		def := c.pr.Func(fn.Pkg().Path(), "", fn.Name())
		same := def != nil && c.pr.Pos(def.Pos()) == pos
		c.ob(same, "POSIX platforms share one locale detection", what, pos, "another function")
		return
	}
	save := c.pr
	c.pr = pr
	defer func() { c.pr = save }()
	r := c.run(fn, nil, nil)
	if !c.covered(r) {
		return
	}
	got := Expand(r.Vals[0])
	if v.rule == "never" {
		ok, why := c.caseEquiv(nil, got, False)
		c.ob(ok, "the locale never selects East-Asian mode", what, pos, why)
		c.pureQuery(r)
		return
	}
	var cp *Term
	n := 0
	eachEffect(r.E.effects, func(ef *Effect, in []*Effect) {
		if ef.Kind != "ecall" {
			return
		}
		n++
		sig := ef.Callee.Type().(*types.Signature)
		k := len(ef.Args) - sig.Results().Len()
		if sig.Results().Len() > 0 && len(ef.PC) == 0 && len(in) == 0 {
			cp = ef.Args[k]
		}
		from := ""
		if k > 0 {
			from = pr.procName(ef.Args[0])
		}
		c.ob(from == "GetConsoleOutputCP", "the code page asked for is the console's", what, pr.Pos(ef.Pos), "calls "+ef.Name+" of "+from)
	})
	if !c.ob(n == 1 && cp != nil, "the console code page is asked for once", what, pos, fmt.Sprintf("%d calls", n)) {
		return
	}
	var any []*Term
	for _, p := range []int64{932, 51932, 936, 949, 950} {
		any = append(any, Eq(cp, Int(p)))
	}
	ok, why := c.caseEquiv(nil, got, Or(any...))
	c.ob(ok, "exactly the code pages 932, 51932, 936, 949 and 950 select East-Asian mode", what, pos, why)
}

// procName: the constant name a system procedure variable was made from.
func (pr *Prog) procName(t *Term) string {
	v, ok := t.Obj.(*types.Var)
	if !ok {
		return tidy(t)
	}
	g := pr.Globs[v]
	if g == nil || g.Init == nil || len(g.Writes) > 0 {
		return v.Name()
	}
	call, ok := ast.Unparen(g.Init).(*ast.CallExpr)
	if !ok || len(call.Args) == 0 {
		return v.Name()
	}
	tv := g.Pkg.Info.Types[call.Args[len(call.Args)-1]]
	if tv.Value == nil {
		return v.Name()
	}
	if t := constTerm(tv.Value); t != nil {
		return t.S
	}
	return v.Name()
}
