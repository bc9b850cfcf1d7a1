package main

// C30: what the operations can reach outside their arguments: the environment,
// the clock, random numbers, files, standard streams, other goroutines, and the
// order in which a map is visited.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/types"
	"sort"
	"strings"
)

// packages whose functions neither read nor change anything but their arguments
// (and memory of their own).
var insidePkgs = map[string]bool{
	"strings": true, "bytes": true, "unicode": true, "unicode/utf8": true, "unicode/utf16": true,
	"strconv": true, "errors": true, "sort": true, "slices": true, "cmp": true, "iter": true,
	"math": true, "math/bits": true, "math/cmplx": true, "math/big": true, "regexp": true, "regexp/syntax": true,
	"sync": true, "sync/atomic": true, "container/list": true, "container/heap": true, "container/ring": true,
	"io": true, "bufio": true, "reflect": true, "text/tabwriter": true, "hash": true, "hash/fnv": true,
	"hash/crc32": true, "hash/crc64": true, "hash/adler32": true, "encoding/binary": true, "encoding/hex": true,
	"encoding/base64": true, "encoding/json": true, "encoding/csv": true, "html": true, "path": true, "net/url": true,
	"unique": true, "unsafe": true, "index/suffixarray": true, "context": true,
	"github.com/ilius/go-lru": true,
}

// outside says why a use of an object of another package reaches outside the
// process ("" if it does not), and whether locale detection may do so.
func outside(o types.Object) (why string, locale bool) {
	switch o.(type) {
	case *types.Func, *types.Var:
	default:
		return "", false
	}
	if v, ok := o.(*types.Var); ok && v.IsField() {
		return "", false
	}
	if o.Pkg() == nil {
		return "", false
	}
	p, n := o.Pkg().Path(), o.Name()
	method := ""
	if f, ok := o.(*types.Func); ok {
		if r := f.Type().(*types.Signature).Recv(); r != nil {
			t := r.Type()
			if types.IsInterface(t) {
				return "", false // the value behind it was made elsewhere
			}
			if q, ok := t.(*types.Pointer); ok {
				t = q.Elem()
			}
			if nm, ok := t.(*types.Named); ok {
				method = nm.Obj().Name()
			}
		}
	}
	in := func(l ...string) bool {
		for _, x := range l {
			if x == n {
				return true
			}
		}
		return false
	}
	switch p {
	case "fmt":
		if in("Print", "Printf", "Println", "Scan", "Scanf", "Scanln") {
			return "uses the standard streams", false
		}
		return "", false
	case "os":
		if method == "" && in("Getenv", "LookupEnv", "Environ", "ExpandEnv") {
			return "reads the environment", true
		}
		if _, ok := o.(*types.Var); ok && strings.HasPrefix(n, "Err") {
			return "", false
		}
		return "uses the operating system", false
	case "syscall", "golang.org/x/sys/windows":
		if method == "LazyProc" || method == "LazyDLL" || in("NewLazyDLL", "NewLazySystemDLL", "Getenv") {
			return "asks the operating system", true
		}
		if method == "Errno" {
			return "", false
		}
		return "uses the operating system", false
	case "time":
		if method == "" && in("Now", "Since", "Until", "Sleep", "After", "AfterFunc", "Tick", "NewTimer", "NewTicker", "Local", "LoadLocation") || method == "Timer" || method == "Ticker" {
			return "depends on the clock", false
		}
		return "", false
	case "math/rand", "math/rand/v2":
		if method != "" || in("New", "NewSource", "NewPCG", "NewChaCha8", "NewZipf") {
			return "", false // a generator with a seed of its own
		}
		return "depends on random numbers", false
	case "runtime":
		if in("KeepAlive") {
			return "", false
		}
		return "depends on the running process", false
	case "maps":
		if in("Keys", "Values", "All") {
			return "visits a map in no particular order", false
		}
		return "", false
	}
	if insidePkgs[p] {
		return "", false
	}
	return "is not known to stay inside the process", false
}

type reachNode struct {
	obj  types.Object
	from *reachNode
}

func (n *reachNode) path() string {
	s := n.obj.Name()
	if f, ok := n.obj.(*types.Func); ok {
		s = shortName(f)
	}
	if n.from != nil {
		return n.from.path() + " -> " + s
	}
	return s
}

func (c *Ctx) outsideRules(pr *Prog, v string) {
	vars := map[types.Object]ast.Expr{}
	var starts, ops []types.Object
	byName := map[string][]types.Object{}
	var inits []ast.Expr
	initPkg := map[ast.Expr]*Pkg{}
	initVar := map[ast.Expr]types.Object{}
	for _, pk := range pr.Pkgs {
		for _, f := range pk.Files {
			for _, d := range f.Decls {
				switch x := d.(type) {
				case *ast.FuncDecl:
					o := pk.Info.Defs[x.Name]
					if o == nil || isSpec(x.Name.Name) {
						continue
					}
					if x.Recv != nil {
						byName[x.Name.Name] = append(byName[x.Name.Name], o)
					}
					switch {
					case x.Name.Name == "init" && x.Recv == nil, x.Name.Name == "IsEastAsian" && x.Recv == nil:
						starts = append(starts, o)
					case x.Name.IsExported():
						ops = append(ops, o)
					}
				case *ast.GenDecl:
					for _, s := range x.Specs {
						y, ok := s.(*ast.ValueSpec)
						if !ok {
							continue
						}
						for i, n := range y.Names {
							if len(y.Values) > 0 && !isSpec(n.Name) {
								e := y.Values[min(i, len(y.Values)-1)]
								vars[pk.Info.Defs[n]] = e
								if initPkg[e] == nil {
									inits = append(inits, e)
									initPkg[e] = pk
									initVar[e] = pk.Info.Defs[n]
								}
							}
						}
					}
				}
			}
		}
	}
	infoOf := func(o types.Object) *types.Info { return pr.ByPath[o.Pkg().Path()].Info }
	nFuncs, nRefs := 0, 0
	reported := map[string]bool{}
	bad := func(n *reachNode, pos, what string) {
		k := v + pos + what
		if !reported[k] {
			reported[k] = true
			c.ob(false, "no operation reaches outside its arguments, its table and the settings", v+": "+n.path(), pos, what)
		}
	}
	// walk looks at one body; it returns the module's functions and variables used there.
	mapLoops := map[*ast.RangeStmt]*reachNode{}
	look := func(n *reachNode, info *types.Info, node ast.Node, locale bool, use func(o types.Object)) {
		sorted := map[*ast.Ident]bool{}
		ast.Inspect(node, func(x ast.Node) bool {
			switch y := x.(type) {
			case *ast.GoStmt:
				bad(n, pr.Pos(y.Pos()), "starts a goroutine")
			case *ast.RangeStmt:
				if _, ok := info.TypeOf(y.X).Underlying().(*types.Map); ok {
					mapLoops[y] = n
				}
			case *ast.CallExpr:
				if f := calleeOf(info, y); f != nil && f.Pkg() != nil {
					full := f.Pkg().Path() + "." + f.Name()
					switch full {
					case "slices.Sorted", "slices.SortedFunc", "maps.Collect":
						for _, a := range y.Args {
							if in, ok := ast.Unparen(a).(*ast.CallExpr); ok {
								switch z := in.Fun.(type) {
								case *ast.SelectorExpr:
									sorted[z.Sel] = true
								}
							}
						}
					}
					if f.Pkg().Path() == "fmt" {
						for _, a := range y.Args {
							if tv := info.Types[a]; tv.Value != nil && tv.Value.Kind() == constant.String && strings.Contains(constant.StringVal(tv.Value), "%p") {
								bad(n, pr.Pos(a.Pos()), "prints an address")
							}
						}
					}
				}
			case *ast.Ident:
				o := info.Uses[y]
				if o == nil {
					return true
				}
				if b, ok := o.(*types.Builtin); ok && (b.Name() == "print" || b.Name() == "println") {
					bad(n, pr.Pos(y.Pos()), b.Name()+" writes to the standard error")
				}
				if o.Pkg() == nil {
					return true
				}
				if pr.ByPath[o.Pkg().Path()] != nil {
					use(o)
					return true
				}
				nRefs++
				why, loc := outside(o)
				if why == "" || loc && locale || sorted[y] {
					return true
				}
				bad(n, pr.Pos(y.Pos()), o.Pkg().Path()+"."+o.Name()+" "+why)
			}
			return true
		})
	}
	run := func(roots []types.Object, locale bool, first func(push func(n *reachNode, o types.Object))) {
		seen := map[types.Object]bool{}
		var todo []*reachNode
		push := func(n *reachNode, o types.Object) {
			add := func(o types.Object) {
				if !seen[o] && !isSpec(o.Name()) {
					seen[o] = true
					todo = append(todo, &reachNode{o, n})
				}
			}
			switch f := o.(type) {
			case *types.Func:
				o = f.Origin()
				if pr.Decl[f.Origin()] != nil {
					add(o)
					return
				}
				// a method called through an interface of the module
				for _, m := range byName[f.Name()] {
					add(m)
				}
			case *types.Var:
				if !f.IsField() && f.Parent() == f.Pkg().Scope() {
					add(o)
				}
			}
		}
		for _, o := range roots {
			push(nil, o)
		}
		if first != nil {
			first(push)
		}
		for len(todo) > 0 {
			n := todo[0]
			todo = todo[1:]
			if f, ok := n.obj.(*types.Func); ok {
				nFuncs++
				d := pr.Decl[f]
				if d.Body != nil {
					look(n, infoOf(f), d.Body, locale, func(o types.Object) { push(n, o) })
				} else {
					bad(n, pr.Pos(d.Pos()), "has no body to analyse")
				}
				continue
			}
			// a variable: its initialiser ran at start-up, but the functions it holds run now
			e := vars[n.obj]
			if e == nil || locale {
				continue
			}
			info := infoOf(n.obj)
			called := map[ast.Node]bool{}
			ast.Inspect(e, func(x ast.Node) bool {
				switch y := x.(type) {
				case *ast.CallExpr:
					switch z := ast.Unparen(y.Fun).(type) {
					case *ast.SelectorExpr:
						called[z.Sel] = true
					default:
						called[z] = true
					}
				case *ast.FuncLit:
					if !called[y] {
						look(n, info, y.Body, locale, func(o types.Object) { push(n, o) })
						return false
					}
				case *ast.Ident:
					o := info.Uses[y]
					if o == nil || called[y] || o.Pkg() == nil {
						return true
					}
					if pr.ByPath[o.Pkg().Path()] != nil {
						push(n, o)
					} else if _, ok := o.(*types.Func); ok {
						if why, _ := outside(o); why != "" {
							bad(n, pr.Pos(y.Pos()), o.Pkg().Path()+"."+o.Name()+" "+why)
						}
					}
				}
				return true
			})
		}
	}
	run(ops, false, nil)
	run(starts, true, func(push func(n *reachNode, o types.Object)) {
		for _, e := range inits {
			n := &reachNode{obj: initVar[e]}
			look(n, initPkg[e].Info, e, true, func(o types.Object) { push(n, o) })
		}
	})
	if len(reported) == 0 {
		c.ob(true, "no operation reaches outside its arguments, its table and the settings", fmt.Sprintf("%s: %d exported operations, %d functions and variables reached, %d uses of other packages", v, len(ops), nFuncs, nRefs), "module", "")
	}
	// maps: what a loop over one computes must not depend on the order
	var loops []*ast.RangeStmt
	for l := range mapLoops {
		loops = append(loops, l)
	}
	sort.Slice(loops, func(i, j int) bool { return loops[i].Pos() < loops[j].Pos() })
	if pr != c.pr {
		return
	}
	for _, l := range loops {
		c.mapOrder(l, mapLoops[l])
	}
}

// mapOrder: one loop over a map.
func (c *Ctx) mapOrder(l *ast.RangeStmt, n *reachNode) {
	const rule = "what a loop over a map computes does not depend on the order of its keys"
	pos := c.pr.Pos(l.Pos())
	fn, ok := n.obj.(*types.Func)
	if !ok {
		c.ob(false, rule, n.path(), pos, "not decided: a function held by a variable")
		return
	}
	if l.Key == nil {
		c.ob(true, rule, n.path(), pos, "")
		return
	}
	r := c.run(fn, nil, nil)
	found := false
	eachEffect(r.E.effects, func(ef *Effect, in []*Effect) {
		if ef.Kind != "loop" || ef.Loop == nil || ef.Loop.Pos != l.Pos() {
			return
		}
		found = true
		why := orderFree(ef, c.sortedLater(fn, l))
		c.ob(why == "", rule, n.path(), pos, why)
	})
	if !found {
		c.ob(false, rule, n.path(), pos, "not decided: the loop was not reached by the evaluation")
	}
}

// sortedLater: the variables of the function that are sorted after the loop.
func (c *Ctx) sortedLater(fn *types.Func, l *ast.RangeStmt) map[string]bool {
	out := map[string]bool{}
	info := c.pr.PkgOf[fn].Info
	ast.Inspect(c.pr.Decl[fn].Body, func(x ast.Node) bool {
		y, ok := x.(*ast.CallExpr)
		if !ok || y.Pos() < l.End() || len(y.Args) == 0 {
			return true
		}
		f := calleeOf(info, y)
		if f == nil || f.Pkg() == nil || f.Pkg().Path() != "sort" && f.Pkg().Path() != "slices" {
			return true
		}
		switch f.Name() {
		case "Strings", "Ints", "Sort", "Stable", "Slice", "SliceStable", "SortFunc", "SortStableFunc":
			ast.Inspect(y.Args[0], func(z ast.Node) bool {
				if id, ok := z.(*ast.Ident); ok {
					if v, ok := info.Uses[id].(*types.Var); ok {
						out[v.Name()] = true
					}
				}
				return true
			})
		}
		return true
	})
	return out
}

func orderFree(ef *Effect, sorted map[string]bool) string {
	l := ef.Loop
	isKey := func(t *Term) bool {
		return t.Op == OpApp && t.S == "mkey" && len(t.Args) == 2 && t.Args[1] == l.K
	}
	for _, x := range l.Exits {
		if x != nil && x.Kind != "header" {
			return "the loop can be left before every key was seen"
		}
	}
	for _, b := range ef.Body {
		if b.Kind == "mapset" && isKey(b.Args[1]) {
			continue
		}
		return "the loop has the effect " + b.Kind + " " + b.Name + " in the order of the keys"
	}
	for _, k := range l.Keys {
		h, b := l.Head[k], l.Back[k]
		if b == nil || h == b || l.Hsym[k] == b {
			continue
		}
		if l.Solved[k] && h.Op == OpApp && (h.S == "mmax" || h.S == "max" || h.S == "sum") {
			continue
		}
		hs := l.Hsym[k]
		own := func(t *Term) bool { // depends on the carried maps only through their entries for this key
			ok := true
			var walk func(t *Term)
			walk = func(t *Term) {
				if t.Op == OpApp && t.S == "mget" && l.isHsym(t.Args[0]) && isKey(t.Args[1]) || isKey(t) {
					return
				}
				if t == l.K || l.isHsym(t) {
					ok = false
					return
				}
				for _, a := range t.Args {
					walk(a)
				}
			}
			walk(t)
			return ok
		}
		var step func(t *Term) bool
		step = func(t *Term) bool {
			if t == hs {
				return true
			}
			if t.Op == OpIte {
				return own(t.Args[0]) && step(t.Args[1]) && step(t.Args[2])
			}
			return t.Op == OpApp && t.S == "mset" && step(t.Args[0]) && isKey(t.Args[1]) && own(t.Args[2])
		}
		// a flag that some key raises (or lowers), or a constant that some key sets
		flag := func(t *Term) bool {
			if t.Op == OpOr || t.Op == OpAnd {
				n := 0
				for _, a := range t.Args {
					if a == hs {
						n++
					} else if !own(a) {
						return false
					}
				}
				return n == 1
			}
			if t.Op != OpIte || !own(t.Args[0]) {
				return false
			}
			v := t.Args[1]
			if v == hs {
				v = t.Args[2]
			} else if t.Args[2] != hs {
				return false
			}
			return v.Op == OpInt || v.Op == OpStr || v.Op == OpBool
		}
		// keys (or what goes with them) collected and sorted afterwards
		if i, j := strings.Index(k, "|"), strings.LastIndex(k, "@"); i > 0 && j > i && sorted[k[i+1:j]] &&
			b.Op == OpApp && b.S == "cat" && len(b.Args) == 2 && b.Args[0] == hs && own(b.Args[1]) {
			continue
		}
		if !step(b) && !flag(b) {
			return "what is carried from one key to the next depends on their order: " + clip(b.String(), 300)
		}
	}
	return ""
}

func init() {
	register("C30", "", func(c *Ctx) {
		for _, v := range variants() {
			cfg := v.cfg
			if v.name == "linux/amd64" {
				c.outsideRules(c.pr, v.name)
				continue
			}
			cfg.NoSpec = true
			pr, err := Load(c.pr.Root, cfg)
			if err != nil {
				c.ob(false, "the module type-checks for the platform", v.name, "go.mod", err.Error())
				continue
			}
			c.outsideRules(pr, v.name)
		}
	})
}

// calleeOf: the function a call names, if it names one.
func calleeOf(info *types.Info, x *ast.CallExpr) *types.Func {
	var id *ast.Ident
	switch y := ast.Unparen(x.Fun).(type) {
	case *ast.Ident:
		id = y
	case *ast.SelectorExpr:
		id = y.Sel
	default:
		return nil
	}
	f, _ := info.Uses[id].(*types.Func)
	return f
}
