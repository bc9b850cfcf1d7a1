package main

// Which slices may share an array. The evaluator gives slices value semantics;
// that is right only where a write cannot be seen through another slice. An
// inclusion-based points-to analysis of slice values (flow- and context-
// insensitive, one node per variable, field and function result) finds the
// writes for which it may not be.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
)

type aliasInfo struct {
	bad  map[token.Pos]string // writes that may be seen through another slice
	solo map[token.Pos]bool   // element writes seen through one variable only
	n    int
}

type aNode struct {
	name string
	pts  map[string]bool
	to   map[*aNode]bool
	v    *types.Var // the variable, field or nil
	of   ast.Node   // the function whose result this is
	hide bool       // a parameter or result of an appending helper, or a temporary
}

type aliasAn struct {
	pr      *Prog
	vars    map[*types.Var]*aNode
	res     map[*types.Func][]*aNode
	litRes  map[*ast.FuncLit][]*aNode
	elems   map[string]*aNode
	all     []*aNode
	lits    []*ast.FuncLit
	litPk   map[*ast.FuncLit]*Pkg
	ext     map[string]bool
	from    map[*aNode][]*aNode
	uses    map[*types.Var][]token.Pos
	again   []ast.Node // loops and closures
	decls   []ast.Node
	resl    map[*aNode]bool // resliced
	recy    map[*aNode]bool // resliced with an upper bound
	recyRes []*aNode        // results of reslicing with an upper bound
	apps    []appendSite
	writes  []writeSite
	pk      *Pkg
	fn      *types.Func
	lit     *ast.FuncLit
}

type appendSite struct {
	pos  token.Pos
	end  token.Pos
	base *aNode
	from ast.Expr
	dest ast.Expr // nil: not assigned
	ret  bool
	fn   *types.Func
	pk   *Pkg
}

type writeSite struct {
	pos  token.Pos
	base *aNode
}

func (a *aliasAn) node(name string) *aNode {
	n := &aNode{name: name, pts: map[string]bool{}, to: map[*aNode]bool{}}
	a.all = append(a.all, n)
	return n
}

func (a *aliasAn) temp(name string) *aNode {
	n := a.node(name)
	n.hide = true
	return n
}

func (a *aliasAn) varNode(v *types.Var) *aNode {
	v = v.Origin()
	if n, ok := a.vars[v]; ok {
		return n
	}
	n := a.node(v.Name())
	n.v = v
	a.vars[v] = n
	return n
}

func (a *aliasAn) elem(t types.Type) *aNode {
	k := types.TypeString(t.Underlying(), nil)
	if n, ok := a.elems[k]; ok {
		return n
	}
	n := a.node("elements of type " + k)
	a.elems[k] = n
	return n
}

func (a *aliasAn) results(fn *types.Func) []*aNode {
	fn = fn.Origin()
	if r, ok := a.res[fn]; ok {
		return r
	}
	rs := fn.Type().(*types.Signature).Results()
	r := make([]*aNode, rs.Len())
	for i := range r {
		r[i] = a.temp(fmt.Sprintf("result %d of %s", i, fn.Name()))
		if d := a.pr.Decl[fn]; d != nil {
			r[i].of = d
		}
	}
	a.res[fn] = r
	return r
}

func (a *aliasAn) litResults(l *ast.FuncLit) []*aNode {
	if r, ok := a.litRes[l]; ok {
		return r
	}
	rs := a.litPk[l].Info.TypeOf(l).(*types.Signature).Results()
	r := make([]*aNode, rs.Len())
	for i := range r {
		r[i] = a.temp("closure result")
		r[i].of = l
	}
	a.litRes[l] = r
	return r
}

func isSliceT(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

func (a *aliasAn) flow(from, to *aNode) {
	if from != nil && to != nil && from != to {
		from.to[to] = true
	}
}

func (a *aliasAn) obj(kind string, p token.Pos, ext bool) *aNode {
	n := a.temp(kind)
	o := fmt.Sprintf("%s@%d", kind, p)
	n.pts[o] = true
	if ext {
		a.ext[o] = true
	}
	return n
}

// expr: the node of a slice-valued expression (nil for others); visits all parts.
func (a *aliasAn) expr(x ast.Expr, dest ast.Expr, ret bool) *aNode {
	if x == nil {
		return nil
	}
	info := a.pk.Info
	x = ast.Unparen(x)
	slice := isSliceT(info.TypeOf(x))
	switch y := x.(type) {
	case *ast.Ident:
		if v, ok := info.Uses[y].(*types.Var); ok && slice {
			return a.varNode(v)
		}
		if v, ok := info.Defs[y].(*types.Var); ok && slice {
			return a.varNode(v)
		}
	case *ast.SelectorExpr:
		a.expr(y.X, nil, false)
		if v, ok := info.Uses[y.Sel].(*types.Var); ok && slice {
			return a.varNode(v)
		}
	case *ast.IndexExpr:
		a.expr(y.X, nil, false)
		a.expr(y.Index, nil, false)
		if slice {
			return a.elem(info.TypeOf(y))
		}
	case *ast.SliceExpr:
		b := a.expr(y.X, nil, false)
		a.expr(y.Low, nil, false)
		a.expr(y.High, nil, false)
		a.expr(y.Max, nil, false)
		if b == nil {
			if slice {
				return a.obj("array", y.Pos(), true)
			}
			return nil
		}
		empty := false // x[:0] shows no element; only appending to it writes again
		if y.High != nil {
			if t := constOf(info, y.High); t != nil && t.Op == OpInt && t.N == 0 {
				empty = true
			}
		}
		if !empty {
			a.resl[b] = true
		}
		if y.Max == nil && y.High != nil {
			a.recy[b] = true
			n := a.temp("slice")
			a.flow(b, n)
			a.recyRes = append(a.recyRes, n)
			return n
		}
		return b
	case *ast.StarExpr:
		a.expr(y.X, nil, false)
		if slice {
			return a.elem(info.TypeOf(y))
		}
	case *ast.UnaryExpr:
		b := a.expr(y.X, nil, false)
		if y.Op == token.AND && b != nil {
			// the variable can be changed through the pointer
			a.flow(b, a.elem(info.TypeOf(y.X)))
			a.flow(a.elem(info.TypeOf(y.X)), b)
		}
	case *ast.BinaryExpr:
		a.expr(y.X, nil, false)
		a.expr(y.Y, nil, false)
	case *ast.KeyValueExpr:
		a.expr(y.Value, nil, false)
	case *ast.TypeAssertExpr:
		a.expr(y.X, nil, false)
		if slice {
			return a.obj("assert", y.Pos(), true)
		}
	case *ast.FuncLit:
		a.lits = append(a.lits, y)
		a.litPk[y] = a.pk
		of, ol := a.fn, a.lit
		a.lit = y
		a.stmt(y.Body)
		a.fn, a.lit = of, ol
	case *ast.CompositeLit:
		t := info.TypeOf(y)
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i, el := range y.Elts {
				var f *types.Var
				v := el
				if kv, ok := el.(*ast.KeyValueExpr); ok {
					f, _ = info.Uses[kv.Key.(*ast.Ident)].(*types.Var)
					v = kv.Value
				} else if i < u.NumFields() {
					f = u.Field(i)
				}
				n := a.expr(v, nil, false)
				if n != nil && f != nil {
					a.flow(n, a.varNode(f))
				}
			}
		default:
			for _, el := range y.Elts {
				v := el
				if kv, ok := el.(*ast.KeyValueExpr); ok {
					a.expr(kv.Key, nil, false)
					v = kv.Value
				}
				if n := a.expr(v, nil, false); n != nil {
					a.flow(n, a.elem(info.TypeOf(v)))
				}
			}
			if slice {
				return a.obj("literal", y.Pos(), false)
			}
		}
	case *ast.CallExpr:
		r := a.call(y, dest, ret)
		if len(r) > 0 {
			return r[0]
		}
	}
	return nil
}

func (a *aliasAn) call(c *ast.CallExpr, dest ast.Expr, ret bool) []*aNode {
	info := a.pk.Info
	slice := isSliceT(info.TypeOf(c))
	fun := ast.Unparen(c.Fun)
	if tv := info.Types[fun]; tv.IsType() {
		n := a.expr(c.Args[0], nil, false)
		if slice {
			if n != nil {
				return []*aNode{n}
			}
			return []*aNode{a.obj("conversion", c.Pos(), false)}
		}
		return nil
	}
	if id, ok := fun.(*ast.Ident); ok {
		if b, ok := info.Uses[id].(*types.Builtin); ok {
			if b.Name() == "append" {
				base := a.expr(c.Args[0], nil, false)
				for i, x := range c.Args[1:] {
					n := a.expr(x, nil, false)
					if n != nil && !(c.Ellipsis.IsValid() && i == len(c.Args)-2) {
						a.flow(n, a.elem(info.TypeOf(x)))
					}
				}
				n := a.obj("append", c.Pos(), false)
				if base != nil {
					a.flow(base, n)
					a.apps = append(a.apps, appendSite{c.Pos(), c.End(), base, c.Args[0], dest, ret && a.lit == nil, a.fn, a.pk})
				}
				return []*aNode{n}
			}
			for _, x := range c.Args {
				if tv := info.Types[x]; !tv.IsType() {
					n := a.expr(x, nil, false)
					if b.Name() == "copy" && n != nil && x == c.Args[0] {
						a.writes = append(a.writes, writeSite{c.Pos(), n})
					}
				}
			}
			if slice {
				return []*aNode{a.obj("make", c.Pos(), false)}
			}
			return nil
		}
	}
	var fn *types.Func
	switch f := fun.(type) {
	case *ast.Ident:
		fn, _ = info.Uses[f].(*types.Func)
	case *ast.SelectorExpr:
		fn, _ = info.Uses[f.Sel].(*types.Func)
		rn := a.expr(f.X, nil, false)
		if fn != nil && rn != nil && a.pr.Decl[fn.Origin()] != nil {
			if r := fn.Origin().Type().(*types.Signature).Recv(); r != nil && isSliceT(r.Type()) {
				a.flow(rn, a.varNode(r))
			}
		}
	case *ast.IndexExpr:
		if id, ok := f.X.(*ast.Ident); ok {
			fn, _ = info.Uses[id].(*types.Func)
		}
	case *ast.FuncLit:
		a.expr(f, nil, false)
	}
	var ns []*aNode
	for _, x := range c.Args {
		ns = append(ns, a.expr(x, nil, false))
	}
	pass := func(sig *types.Signature) {
		ps := sig.Params()
		for i, n := range ns {
			if n == nil {
				continue
			}
			j := i
			if sig.Variadic() && i >= ps.Len()-1 {
				j = ps.Len() - 1
				if !c.Ellipsis.IsValid() {
					a.flow(n, a.elem(info.TypeOf(c.Args[i])))
					continue
				}
			}
			if j < ps.Len() && isSliceT(ps.At(j).Type()) {
				a.flow(n, a.varNode(ps.At(j)))
			}
		}
		if sig.Variadic() && !c.Ellipsis.IsValid() {
			a.flow(a.obj("variadic", c.Pos(), false), a.varNode(ps.At(ps.Len()-1)))
		}
	}
	if fn != nil {
		fn = fn.Origin()
		if a.pr.Decl[fn] != nil {
			pass(fn.Type().(*types.Signature))
			r := a.results(fn)
			// a call of a helper that appends to its parameter
			if d, ok := a.appender(fn); ok && d < len(ns) && ns[d] != nil {
				a.apps = append(a.apps, appendSite{c.Pos(), c.End(), ns[d], c.Args[d], dest, ret && a.lit == nil, a.fn, a.pk})
			}
			return r
		}
	} else if sig, ok := info.TypeOf(c.Fun).Underlying().(*types.Signature); ok {
		// any closure of that type, or a function supplied by the caller
		var out []*aNode
		for i := 0; i < sig.Results().Len(); i++ {
			out = append(out, a.obj("dynamic", c.Pos()+token.Pos(i), true))
		}
		for _, l := range a.allLits() {
			ls, ok := a.litPk[l].Info.TypeOf(l).(*types.Signature)
			if !ok || !types.Identical(ls, sig) {
				continue
			}
			pass(ls)
			for i, n := range a.litResults(l) {
				a.flow(n, out[i])
			}
		}
		return out
	}
	var out []*aNode
	n := 1
	if fn != nil {
		n = fn.Type().(*types.Signature).Results().Len()
	}
	for i := 0; i < n; i++ {
		// a method of an interface hands out the caller's slices; a library function its own
		ext := fn == nil || (fn.Type().(*types.Signature).Recv() != nil && types.IsInterface(fn.Type().(*types.Signature).Recv().Type()))
		o := a.obj("call", c.Pos()+token.Pos(i), ext)
		for j, m := range ns {
			if m != nil && fn != nil && fn.Pkg() != nil && fn.Pkg().Path() == "slices" && isSliceT(info.TypeOf(c.Args[j])) {
				a.flow(m, o)
			}
		}
		out = append(out, o)
	}
	return out
}

var aliasLits map[*Prog][]*ast.FuncLit

func (a *aliasAn) allLits() []*ast.FuncLit {
	if l, ok := aliasLits[a.pr]; ok {
		return l
	}
	var out []*ast.FuncLit
	for _, pk := range a.pr.Pkgs {
		for _, f := range pk.Files {
			ast.Inspect(f, func(n ast.Node) bool {
				if l, ok := n.(*ast.FuncLit); ok {
					out = append(out, l)
					a.litPk[l] = pk
				}
				return true
			})
		}
	}
	if aliasLits == nil {
		aliasLits = map[*Prog][]*ast.FuncLit{}
	}
	aliasLits[a.pr] = out
	return out
}

// appender: the function returns its parameter d with something appended, and
// uses that parameter for nothing else but appending to it and returning it.
func (a *aliasAn) appender(fn *types.Func) (int, bool) {
	d := a.pr.Decl[fn]
	pk := a.pr.PkgOf[fn]
	sig := fn.Type().(*types.Signature)
	if d == nil || d.Body == nil || sig.Results().Len() == 0 {
		return 0, false
	}
	for i := 0; i < sig.Params().Len(); i++ {
		p := sig.Params().At(i)
		if !isSliceT(p.Type()) {
			continue
		}
		found := false
		ast.Inspect(d.Body, func(n ast.Node) bool {
			if c, ok := n.(*ast.CallExpr); ok && len(c.Args) > 0 {
				if id, ok := ast.Unparen(c.Fun).(*ast.Ident); ok {
					if b, ok := pk.Info.Uses[id].(*types.Builtin); ok && b.Name() == "append" {
						if v, ok := ast.Unparen(c.Args[0]).(*ast.Ident); ok && pk.Info.Uses[v] == p {
							found = true
						}
					}
				}
			}
			return true
		})
		if found {
			return i, true
		}
	}
	return 0, false
}

func (a *aliasAn) assign(l ast.Expr, n *aNode) {
	if id, ok := l.(*ast.Ident); ok && id.Name == "_" {
		return
	}
	l = ast.Unparen(l)
	if ix, ok := l.(*ast.IndexExpr); ok {
		b := a.expr(ix.X, nil, false)
		a.expr(ix.Index, nil, false)
		if b != nil {
			a.writes = append(a.writes, writeSite{l.Pos(), b})
		}
		if n != nil {
			a.flow(n, a.elem(a.pk.Info.TypeOf(l)))
		}
		return
	}
	d := a.expr(l, nil, false)
	if d != nil && n != nil {
		a.flow(n, d)
	}
}

func (a *aliasAn) stmt(s ast.Stmt) {
	switch x := s.(type) {
	case nil:
	case *ast.BlockStmt:
		if x == nil {
			return
		}
		for _, y := range x.List {
			a.stmt(y)
		}
	case *ast.AssignStmt:
		if len(x.Lhs) > 1 && len(x.Rhs) == 1 {
			if c, ok := ast.Unparen(x.Rhs[0]).(*ast.CallExpr); ok {
				r := a.call(c, nil, false)
				for i, l := range x.Lhs {
					var n *aNode
					if i < len(r) && a.pk.Info.TypeOf(l) != nil && isSliceT(a.pk.Info.TypeOf(l)) {
						n = r[i]
					}
					a.assign(l, n)
				}
				return
			}
			n := a.expr(x.Rhs[0], nil, false)
			a.assign(x.Lhs[0], n)
			for _, l := range x.Lhs[1:] {
				a.assign(l, nil)
			}
			return
		}
		for i, l := range x.Lhs {
			var n *aNode
			if i < len(x.Rhs) {
				n = a.expr(x.Rhs[i], l, false)
			}
			a.assign(l, n)
		}
	case *ast.IncDecStmt:
		a.assign(x.X, nil)
	case *ast.DeclStmt:
		if g, ok := x.Decl.(*ast.GenDecl); ok {
			a.gen(g)
		}
	case *ast.ReturnStmt:
		var r []*aNode
		if a.lit != nil {
			r = a.litResults(a.lit)
		} else if a.fn != nil {
			r = a.results(a.fn)
		}
		if len(x.Results) == 1 && len(r) > 1 {
			if c, ok := ast.Unparen(x.Results[0]).(*ast.CallExpr); ok {
				for i, n := range a.call(c, nil, true) {
					a.flow(n, r[i])
				}
				return
			}
		}
		for i, y := range x.Results {
			n := a.expr(y, nil, true)
			if n != nil && i < len(r) {
				a.flow(n, r[i])
			}
		}
		if len(x.Results) == 0 && a.lit == nil && a.fn != nil {
			rs := a.fn.Type().(*types.Signature).Results()
			for i := 0; i < rs.Len(); i++ {
				if isSliceT(rs.At(i).Type()) {
					a.flow(a.varNode(rs.At(i)), r[i])
				}
			}
		}
	case *ast.ExprStmt:
		a.expr(x.X, nil, false)
	case *ast.IfStmt:
		a.stmt(x.Init)
		a.expr(x.Cond, nil, false)
		a.stmt(x.Body)
		a.stmt(x.Else)
	case *ast.ForStmt:
		a.stmt(x.Init)
		a.expr(x.Cond, nil, false)
		a.stmt(x.Post)
		a.stmt(x.Body)
	case *ast.RangeStmt:
		b := a.expr(x.X, nil, false)
		_ = b
		for _, l := range []ast.Expr{x.Key, x.Value} {
			if l == nil {
				continue
			}
			t := a.pk.Info.TypeOf(l)
			if isSliceT(t) {
				a.assign(l, a.elem(t))
			} else if x.Tok == token.ASSIGN {
				a.assign(l, nil)
			}
		}
		a.stmt(x.Body)
	case *ast.SwitchStmt:
		a.stmt(x.Init)
		a.expr(x.Tag, nil, false)
		a.stmt(x.Body)
	case *ast.TypeSwitchStmt:
		a.stmt(x.Init)
		a.stmt(x.Body)
	case *ast.CaseClause:
		for _, y := range x.List {
			if tv, ok := a.pk.Info.Types[y]; ok && !tv.IsType() {
				a.expr(y, nil, false)
			}
		}
		for _, y := range x.Body {
			a.stmt(y)
		}
	case *ast.LabeledStmt:
		a.stmt(x.Stmt)
	case *ast.DeferStmt:
		a.expr(x.Call, nil, false)
	case *ast.GoStmt:
		a.expr(x.Call, nil, false)
	}
}

func (a *aliasAn) gen(g *ast.GenDecl) {
	for _, s := range g.Specs {
		vs, ok := s.(*ast.ValueSpec)
		if !ok {
			continue
		}
		for i, v := range vs.Values {
			n := a.expr(v, nil, false)
			if n != nil && i < len(vs.Names) {
				if o, ok := a.pk.Info.Defs[vs.Names[i]].(*types.Var); ok {
					a.flow(n, a.varNode(o))
				}
			}
		}
	}
}

func (pr *Prog) aliases() *aliasInfo {
	if pr.alias != nil {
		return pr.alias
	}
	a := &aliasAn{pr: pr, vars: map[*types.Var]*aNode{}, res: map[*types.Func][]*aNode{}, litRes: map[*ast.FuncLit][]*aNode{}, elems: map[string]*aNode{},
		litPk: map[*ast.FuncLit]*Pkg{}, ext: map[string]bool{}, resl: map[*aNode]bool{}, recy: map[*aNode]bool{}}
	a.allLits()
	for _, l := range aliasLits[pr] {
		if a.litPk[l] == nil {
			for _, pk := range pr.Pkgs {
				if pk.Info.TypeOf(l) != nil {
					a.litPk[l] = pk
				}
			}
		}
	}
	for _, pk := range pr.Pkgs {
		a.pk = pk
		for _, f := range pk.Files {
			for _, d := range f.Decls {
				switch x := d.(type) {
				case *ast.GenDecl:
					a.fn, a.lit = nil, nil
					a.gen(x)
				case *ast.FuncDecl:
					fn, _ := pk.Info.Defs[x.Name].(*types.Func)
					if fn == nil || x.Body == nil || isSpec(fn.Name()) {
						continue
					}
					a.fn, a.lit = fn, nil
					sig := fn.Type().(*types.Signature)
					if fn.Exported() {
						for i := 0; i < sig.Params().Len(); i++ {
							if p := sig.Params().At(i); isSliceT(p.Type()) {
								a.flow(a.obj("argument", p.Pos(), true), a.varNode(p))
							}
						}
					}
					a.stmt(x.Body)
				}
			}
		}
	}
	// exported fields and elements can hold anything
	for v, n := range a.vars {
		if v.IsField() && v.Exported() {
			a.flow(a.obj("field", v.Pos(), true), n)
		}
	}
	for _, n := range a.elems {
		o := "elements:" + n.name
		n.pts[o] = true
		a.ext[o] = true
	}
	for changed := true; changed; {
		changed = false
		for _, n := range a.all {
			for m := range n.to {
				for o := range n.pts {
					if !m.pts[o] {
						m.pts[o] = true
						changed = true
					}
				}
			}
		}
	}
	info := &aliasInfo{bad: map[token.Pos]string{}, solo: map[token.Pos]bool{}}
	info.n = len(a.apps) + len(a.writes)
	// parameters of appending helpers only pass the slice on
	for fn := range pr.Decl {
		if i, ok := a.appender(fn); ok {
			a.varNode(fn.Type().(*types.Signature).Params().At(i)).hide = true
		}
	}
	holders := map[string]int{}
	resl, recy := map[string]bool{}, map[string]bool{}
	for _, n := range a.all {
		for o := range n.pts {
			if !n.hide {
				holders[o]++
			}
			resl[o] = resl[o] || a.resl[n]
			recy[o] = recy[o] || a.recy[n]
		}
	}
	// slices that may be shorter than the array they recycle
	short := map[*aNode]bool{}
	work := append([]*aNode{}, a.recyRes...)
	for len(work) > 0 {
		n := work[0]
		work = work[1:]
		if short[n] {
			continue
		}
		short[n] = true
		for m := range n.to {
			work = append(work, m)
		}
	}
	for _, s := range a.apps {
		same := sameLvalue(s.pk, s.from, s.dest)
		_, isField := fieldOf(s.pk, s.from)
		param := false
		if id, ok := ast.Unparen(s.from).(*ast.Ident); ok && s.ret {
			// return append(p, ...): the caller's use of the helper is what counts
			if i, ok := a.appender(s.fn); ok && s.pk.Info.Uses[id] == s.fn.Type().(*types.Signature).Params().At(i) {
				param = true
			}
		}
		if sl, ok := ast.Unparen(s.from).(*ast.SliceExpr); ok && sl.High != nil && sl.Max == nil {
			// append(x[:n], ...) writes into x, which stays in use
			if id, ok := ast.Unparen(sl.X).(*ast.Ident); ok && !sameLvalue(s.pk, sl.X, s.dest) {
				if v, ok := s.pk.Info.Uses[id].(*types.Var); ok && !a.spent(v, s.end) {
					info.bad[s.pos] = "appends to an array that another slice may share"
				}
			}
		}
		for o := range s.base.pts {
			switch {
			case a.ext[o] && !(same && isField) && !(isHidden(a, s.base) && (same || param)):
				info.bad[s.pos] = "appends to a slice of the caller, whose array may be overwritten"
			case recy[o] && short[s.base] && holders[o] > 1:
				info.bad[s.pos] = "appends to an array that another slice may share"
			case !same && !param && holders[o] > 1:
				// the base stays in use beside the result
				info.bad[s.pos] = "appends to an array that another slice may share"
			case same && holders[o] > 1 && !isHidden(a, s.base) && a.copied(s.base, o, s.pos):
				// the slice was copied from one that stays in use
				info.bad[s.pos] = "appends to an array that another slice may share"
			}
		}
	}
	for _, w := range a.writes {
		solo := true
		for o := range w.base.pts {
			if resl[o] && holders[o] > 1 {
				info.bad[w.pos] = "writes to an array that another slice may share"
			}
			if holders[o] > 1 || a.ext[o] {
				solo = false
			}
		}
		info.solo[w.pos] = solo
	}
	pr.alias = info
	return info
}

// copied: n may hold o because another variable, field or element in use at the
// same time was assigned to it.
func (a *aliasAn) copied(n *aNode, o string, pos token.Pos) bool {
	if a.from == nil {
		a.from = map[*aNode][]*aNode{}
		for _, x := range a.all {
			for y := range x.to {
				a.from[y] = append(a.from[y], x)
			}
		}
	}
	seen := map[*aNode]bool{n: true}
	var dead []ast.Node // functions that have returned
	var visit func(x *aNode) bool
	visit = func(x *aNode) bool {
		if seen[x] || !x.pts[o] {
			return false
		}
		seen[x] = true
		if x.of != nil {
			dead = append(dead, x.of)
			defer func() { dead = dead[:len(dead)-1] }()
		}
		if !x.hide {
			gone := false
			if x.v != nil && !x.v.IsField() {
				for _, d := range dead {
					if d.Pos() <= x.v.Pos() && x.v.Pos() < d.End() {
						gone = true
					}
				}
				gone = gone || a.spent(x.v, pos)
			}
			if !gone {
				return true
			}
		}
		for _, y := range a.from[x] {
			if visit(y) {
				return true
			}
		}
		return false
	}
	for _, y := range a.from[n] {
		if visit(y) {
			return true
		}
	}
	return false
}

// spent: the local variable is not used any more once control is at pos.
func (a *aliasAn) spent(v *types.Var, pos token.Pos) bool {
	if a.uses == nil {
		a.uses = map[*types.Var][]token.Pos{}
		for _, pk := range a.pr.Pkgs {
			for id, o := range pk.Info.Uses {
				if w, ok := o.(*types.Var); ok {
					a.uses[w] = append(a.uses[w], id.Pos())
				}
			}
			for _, f := range pk.Files {
				ast.Inspect(f, func(n ast.Node) bool {
					switch n.(type) {
					case *ast.ForStmt, *ast.RangeStmt, *ast.FuncLit:
						a.again = append(a.again, n)
					case *ast.FuncDecl:
						a.decls = append(a.decls, n)
					}
					return true
				})
			}
		}
	}
	in := func(n ast.Node, p token.Pos) bool { return n.Pos() <= p && p < n.End() }
	here := false
	for _, d := range a.decls {
		if in(d, v.Pos()) && in(d, pos) {
			here = true
			if sig, ok := d.(*ast.FuncDecl); ok && sig.Type.Results != nil && in(sig.Type.Results, v.Pos()) {
				return false
			}
		}
	}
	if !here {
		return false
	}
	for _, p := range a.uses[v] {
		if p >= pos {
			return false
		}
		for _, n := range a.again {
			if in(n, v.Pos()) {
				continue
			}
			if in(n, p) {
				if _, lit := n.(*ast.FuncLit); lit || in(n, pos) {
					return false
				}
			}
		}
	}
	return true
}

func isHidden(a *aliasAn, n *aNode) bool { return n.hide && n.v != nil }

func fieldOf(pk *Pkg, e ast.Expr) (*types.Var, bool) {
	if se, ok := ast.Unparen(e).(*ast.SelectorExpr); ok {
		v, ok := pk.Info.Uses[se.Sel].(*types.Var)
		return v, ok && v.IsField()
	}
	return nil, false
}

// sameLvalue: both are the same variable or field path.
func sameLvalue(pk *Pkg, x, y ast.Expr) bool {
	if x == nil || y == nil {
		return false
	}
	x, y = ast.Unparen(x), ast.Unparen(y)
	if s, ok := x.(*ast.SliceExpr); ok {
		return sameLvalue(pk, s.X, y)
	}
	switch a := x.(type) {
	case *ast.Ident:
		b, ok := y.(*ast.Ident)
		if !ok {
			return false
		}
		o := pk.Info.Uses[a]
		p := pk.Info.Uses[b]
		if p == nil {
			p = pk.Info.Defs[b]
		}
		return o != nil && o == p
	case *ast.SelectorExpr:
		b, ok := y.(*ast.SelectorExpr)
		return ok && pk.Info.Uses[a.Sel] == pk.Info.Uses[b.Sel] && sameLvalue(pk, a.X, b.X)
	case *ast.StarExpr:
		b, ok := y.(*ast.StarExpr)
		return ok && sameLvalue(pk, a.X, b.X)
	}
	return false
}

func constOf(info *types.Info, e ast.Expr) *Term {
	if tv, ok := info.Types[e]; ok && tv.Value != nil {
		return constTerm(tv.Value)
	}
	return nil
}
