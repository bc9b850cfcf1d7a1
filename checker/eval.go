package main

// Forward abstract interpreter over the type-checked syntax tree.  Branches are
// evaluated once each and joined with gated values; in-module callees are
// inlined; loops are summarised (loop.go).  No path is enumerated and nothing of
// the analysed module is executed.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

type unsupported struct {
	pos token.Pos
	msg string
}

type State struct {
	store map[string]*Term
	pc    Facts
}

func (s *State) clone() *State {
	n := &State{store: make(map[string]*Term, len(s.store)), pc: append(Facts{}, s.pc...)}
	for k, v := range s.store {
		n.store[k] = v
	}
	return n
}

type Env struct {
	parent *Env
	vars   map[types.Object]string
}

func (e *Env) lookup(o types.Object) (string, bool) {
	for x := e; x != nil; x = x.parent {
		if l, ok := x.vars[o]; ok {
			return l, true
		}
	}
	return "", false
}

type Closure struct {
	lit *ast.FuncLit
	env *Env
	pkg *Pkg
	fr  *Frame
}

type FuncRef struct {
	fn   *types.Func
	recv *Term // bound receiver, or nil
}

type Ret struct {
	st   *State
	vals []*Term
	pos  token.Pos
}

type Frame struct {
	path    string
	pkg     *Pkg
	fn      *types.Func
	env     *Env
	sig     *types.Signature
	named   []types.Object
	rets    []Ret
	loops   []*loopCtx
	base    int // len(pc) at entry
	depth   int
	basePC  Facts
	parents *Frame
	tp      map[*types.TypeParam]types.Type
	body    []ast.Stmt // the statements of the function itself
	defers  []deferred // deferred calls, in order
}

type deferred struct {
	call *ast.CallExpr
	env  *Env
	rets int // returns that came before
}

type loopCtx struct {
	label    string
	isSwitch bool
	breaks   []*State
	conts    []*State
}

type Effect struct {
	Kind   string // write, mapset, fieldset, elemset, globset, icall, ecall, panic, loop
	Name   string
	Args   []*Term
	PC     Facts
	Pos    token.Pos
	Loop   *LoopRec
	Body   []*Effect
	Callee *types.Func
	Types  []types.Type
}

type Site struct {
	Kind string // div, index, slice, repeat, nilmap, shift
	Pos  token.Pos
	Fn   string
	PC   Facts
	Goal *Term
	OK   bool
	Note string
}

type Engine struct {
	pre     map[ast.Expr]*Term              // operands of deferred calls, evaluated already
	inst    map[*types.TypeParam]types.Type // type arguments of the call being entered
	pr      *Prog
	num     int
	Opaque  func(*types.Func) bool
	Summary func(e *Engine, st *State, fn *types.Func, args []*Term, pos token.Pos) ([]*Term, bool)
	effects []*Effect
	sites   []*Site
	log     bool
	loops   map[string]*LoopRec
	hlen    map[string]*Term // list lengths a loop keeps, by header name
	lorder  []*LoopRec
	ks      []*Term
	kdef    map[string]*Term // default value of a heap key
	ktype   map[string]types.Type
	funcs   map[*types.Func]bool // functions whose bodies were interpreted
	nstmt   int
	maxStmt int
	flips   map[string]bool
	// RetRange: established value ranges of functions kept opaque, by short name.
	RetRange map[string][2]int64
	// OnOpaque is told about the state in which a function kept opaque is called.
	OnOpaque func(st *State, fn *types.Func, pos token.Pos)
	// AutoSum: replace calls of pure scalar functions by summaries.
	AutoSum    bool
	sumStrings bool // string arguments count as scalar
	sumCfg     int
	sums       map[*fnSum]bool
}

var engineCount int

func NewEngine(pr *Prog) *Engine {
	e := &Engine{pr: pr, log: true, loops: map[string]*LoopRec{}, kdef: map[string]*Term{}, ktype: map[string]types.Type{},
		funcs: map[*types.Func]bool{}, sums: map[*fnSum]bool{}, maxStmt: 400000}
	engineCount++
	e.num = engineCount
	e.installHooks()
	return e
}

var litCache = map[*Prog]map[*types.Var]*Term{}

type gmapEnt struct {
	k, v []*Term
	ok   bool
}

var gmapCache = map[*Prog]map[*types.Var]*gmapEnt{}

func (e *Engine) installHooks() {
	pr := e.pr
	if litCache[pr] == nil {
		litCache[pr] = map[*types.Var]*Term{}
		gmapCache[pr] = map[*types.Var]*gmapEnt{}
	}
	constListHook = func(t *Term) []*Term {
		if t.Op != OpApp || !strings.HasPrefix(t.S, "gvar:") || t.Sort != SList {
			return nil
		}
		v, ok := t.Obj.(*types.Var)
		if !ok || !pr.Const(v) {
			return nil
		}
		l := litCache[pr][v]
		if l == nil {
			g := pr.Globs[v]
			l = pr.litValue(g.Pkg, g.Init)
			if l == nil {
				l = Nil
			}
			litCache[pr][v] = l
		}
		if l.S == "list" && len(l.Args) > 0 {
			return l.Args
		}
		return nil
	}
	constMapHook = func(t *Term) ([]*Term, []*Term, bool) {
		if t.Op != OpApp || !strings.HasPrefix(t.S, "gvar:") {
			return nil, nil, false
		}
		v, ok := t.Obj.(*types.Var)
		if !ok || !pr.Const(v) {
			return nil, nil, false
		}
		m := gmapCache[pr][v]
		if m == nil {
			g := pr.Globs[v]
			m = &gmapEnt{}
			m.k, m.v, m.ok = pr.litMap(g.Pkg, g.Init)
			gmapCache[pr][v] = m
		}
		return m.k, m.v, m.ok
	}
}

func (e *Engine) fail(pos token.Pos, f string, a ...any) {
	panic(unsupported{pos, fmt.Sprintf(f, a...)})
}

// typed attaches the value range of a Go integer type to an opaque term.
func typed(t *Term, gt types.Type) *Term {
	if gt == nil {
		return t
	}
	if t.Sort == SInt && (t.Op == OpApp || t.Op == OpSym) && !(t.Op == OpSym && strings.HasPrefix(t.S, "$b")) {
		lo, hi := intRange(gt)
		if t.lo == nil {
			t.lo = lo
		}
		if t.hi == nil {
			t.hi = hi
		}
	}
	if t.Sort == SList && (t.Op == OpApp || t.Op == OpSym) {
		switch u := gt.Underlying().(type) {
		case *types.Slice:
			setElemSort(t, sortOf(u.Elem()))
		case *types.Array:
			setElemSort(t, sortOf(u.Elem()))
			if n := u.Len(); n <= 8 && t.Op == OpApp && !isValueList(t) && constList(t) == nil && !strings.HasPrefix(t.S, "gvar:") && !strings.HasPrefix(t.S, "h:") {
				l := make([]*Term, n)
				for i := range l {
					l[i] = typed(Index(t, Int(int64(i))), u.Elem())
				}
				return List(l...)
			}
		}
	}
	return t
}

// --------------------------------------------------------------------- heap

func (e *Engine) loadField(st *State, p *Term, f string, ft types.Type) *Term {
	if p.Op == OpIte {
		return Ite(p.Args[0], e.loadField(st, p.Args[1], f, ft), e.loadField(st, p.Args[2], f, ft))
	}
	if p.Op == OpApp && strings.HasPrefix(p.S, "addr:") {
		return typed(Field(st.store["v:"+p.S[5:]], f, sortOf(ft)), ft)
	}
	k := fmt.Sprintf("f:%d.%s", p.id, f)
	if v, ok := st.store[k]; ok {
		return v
	}
	// any write to the same field through a different base makes this unknown
	for k2 := range st.store {
		if strings.HasPrefix(k2, "f:") && strings.HasSuffix(k2, "."+f) && k2 != k {
			var id int
			fmt.Sscanf(k2[2:], "%d", &id)
			q := allTerms[id]
			if mayAlias(p, q) {
				return typed(app(fmt.Sprintf("maybe:%s", f), sortOf(ft), p, st.store[k2]), ft)
			}
		}
	}
	return typed(Field(p, f, sortOf(ft)), ft)
}

func isAlloc(p *Term) bool {
	return p.Op == OpApp && (strings.HasPrefix(p.S, "ptr:") || strings.HasPrefix(p.S, "addr:"))
}

var ptrTypes = map[*Term]string{}

func mayAlias(p, q *Term) bool {
	if p == q {
		return true
	}
	if isAlloc(p) || isAlloc(q) {
		return false
	}
	if ptrTypes[p] != "" && ptrTypes[q] != "" && ptrTypes[p] != ptrTypes[q] {
		return false
	}
	return true
}

func (e *Engine) storeField(st *State, p *Term, f string, ft types.Type, v *Term, pos token.Pos) {
	if p.Op == OpIte {
		for i, c := range []*Term{p.Args[0], Not(p.Args[0])} {
			q := p.Args[i+1]
			old := e.loadField(st, q, f, ft)
			e.storeField(st, q, f, ft, Ite(c, v, old), pos)
		}
		return
	}
	if p.Op == OpApp && strings.HasPrefix(p.S, "addr:") {
		k := "v:" + p.S[5:]
		st.store[k] = SetField(st.store[k], f, v)
		return
	}
	if e.makeLate(st, p, f, ft, v) {
		return
	}
	k := fmt.Sprintf("f:%d.%s", p.id, f)
	if _, ok := e.kdef[k]; !ok {
		if isAlloc(p) {
			e.kdef[k] = zeroOf(ft)
		} else {
			e.kdef[k] = typed(Field(p, f, sortOf(ft)), ft)
		}
		e.ktype[k] = ft
	}
	// havoc possible aliases
	for k2 := range st.store {
		if k2 != k && strings.HasPrefix(k2, "f:") && strings.HasSuffix(k2, "."+f) {
			var id int
			fmt.Sscanf(k2[2:], "%d", &id)
			if mayAlias(p, allTerms[id]) {
				st.store[k2] = typed(app("maybe:"+f, sortOf(ft), st.store[k2], v), ft)
			}
		}
	}
	st.store[k] = v
	if !isAlloc(p) {
		e.effect(st, &Effect{Kind: "fieldset", Name: f, Args: []*Term{p, v}, Pos: pos})
	}
}

// contents of a slice value (its elements as a list term).
func (e *Engine) contents(st *State, x *Term) *Term {
	if x.Op == OpIte {
		return Ite(x.Args[0], e.contents(st, x.Args[1]), e.contents(st, x.Args[2]))
	}
	if v, ok := st.store[fmt.Sprintf("e:%d", x.id)]; ok {
		return v
	}
	return x
}

// isValueList: a list created here (value semantics) as opposed to caller-owned storage.
func isValueList(x *Term) bool {
	if x.Op != OpApp {
		return false
	}
	switch x.S {
	case "list", "comp", "flat", "cat", "make", "update", "tab", "nil", "bytes", "runes":
		return true
	}
	return false
}

func (e *Engine) mapContents(st *State, m *Term) *Term {
	if m.Op == OpIte {
		return Ite(m.Args[0], e.mapContents(st, m.Args[1]), e.mapContents(st, m.Args[2]))
	}
	if v, ok := st.store[fmt.Sprintf("m:%d", m.id)]; ok {
		return v
	}
	return m
}

func (e *Engine) effect(st *State, ef *Effect) {
	if !e.log {
		return
	}
	ef.PC = append(Facts{}, st.pc...)
	e.effects = append(e.effects, ef)
}

func (e *Engine) site(st *State, fr *Frame, kind string, pos token.Pos, goal *Term, note string) {
	if !e.log {
		return
	}
	s := &Site{Kind: kind, Pos: pos, Fn: fr.path, PC: append(Facts{}, st.pc...), Goal: goal, Note: note}
	s.OK = goal == True || Prove(s.PC, goal)
	e.sites = append(e.sites, s)
}

// ---------------------------------------------------------------- functions

// Call evaluates fn symbolically on the given arguments and returns the joined
// result values; st is updated in place to the joined exit state.
func (e *Engine) Call(st *State, fn *types.Func, recv *Term, args []*Term, callerPath string, pos token.Pos, depth int) ([]*Term, []Ret) {
	fn = fn.Origin()
	decl := e.pr.Decl[fn]
	pk := e.pr.PkgOf[fn]
	if decl == nil || decl.Body == nil {
		e.fail(pos, "no body for %s", fn.FullName())
	}
	if depth > 14 {
		e.fail(pos, "inlining too deep at %s", fn.FullName())
	}
	if e.log {
		e.funcs[fn] = true
	}
	fr := &Frame{path: callerPath + "/" + fn.Name(), pkg: pk, fn: fn, depth: depth, env: &Env{vars: map[types.Object]string{}}}
	if callerPath == "" {
		fr.path = fmt.Sprintf("%d/%s", e.num, fn.Name())
	} else {
		fr.path = fmt.Sprintf("%s@%d", fr.path, pos)
	}
	sig := fn.Type().(*types.Signature)
	fr.sig = sig
	fr.tp = e.inst
	e.inst = nil
	if r := sig.Recv(); r != nil && recv != nil {
		e.bindParam(st, fr, recvIdent(decl), r, recv)
	}
	e.bindParams(st, fr, decl.Type, sig, args)
	return e.runBody(st, fr, decl.Type, decl.Body)
}

func recvIdent(d *ast.FuncDecl) *ast.Ident {
	if d.Recv != nil && len(d.Recv.List) == 1 && len(d.Recv.List[0].Names) == 1 {
		return d.Recv.List[0].Names[0]
	}
	return nil
}

func (e *Engine) bindParam(st *State, fr *Frame, id *ast.Ident, v *types.Var, val *Term) {
	if id == nil || id.Name == "_" {
		return
	}
	obj := fr.pkg.Info.Defs[id]
	if obj == nil {
		return
	}
	e.declare(st, fr, obj, val)
	if p, ok := v.Type().Underlying().(*types.Pointer); ok && ptrTypes[val] == "" {
		ptrTypes[val] = types.TypeString(p.Elem(), nil)
	}
}

func (e *Engine) declare(st *State, fr *Frame, obj types.Object, val *Term) {
	loc := fmt.Sprintf("%s|%s@%d", fr.path, obj.Name(), obj.Pos())
	fr.env.vars[obj] = loc
	st.store["v:"+loc] = val
	e.ktype["v:"+loc] = substT(obj.Type(), fr.tp)
}

func (e *Engine) bindParams(st *State, fr *Frame, ft *ast.FuncType, sig *types.Signature, args []*Term) {
	i := 0
	if ft.Params != nil {
		for _, f := range ft.Params.List {
			names := f.Names
			if len(names) == 0 {
				i++
				continue
			}
			for _, n := range names {
				e.bindParam(st, fr, n, sig.Params().At(i), args[i])
				i++
			}
		}
	}
	if ft.Results != nil {
		for _, f := range ft.Results.List {
			for _, n := range f.Names {
				obj := fr.pkg.Info.Defs[n]
				if obj == nil {
					continue
				}
				fr.named = append(fr.named, obj)
				e.declare(st, fr, obj, zeroOf(substT(obj.Type(), fr.tp)))
			}
		}
	}
}

func (e *Engine) runBody(st *State, fr *Frame, ft *ast.FuncType, body *ast.BlockStmt) ([]*Term, []Ret) {
	fr.base = len(st.pc)
	fr.basePC = append(Facts{}, st.pc...)
	fr.body = body.List
	nef := len(e.effects)
	end := e.block(st.clone(), fr, body.List)
	if end != nil {
		var vals []*Term
		for _, o := range fr.named {
			vals = append(vals, end.store["v:"+fr.env.vars[o]])
		}
		fr.rets = append(fr.rets, Ret{end, vals, body.Rbrace})
	}
	if len(fr.rets) == 0 {
		// never returns normally
		e.fail(body.Pos(), "function does not return")
	}
	nres := fr.sig.Results().Len()
	vals := make([]*Term, nres)
	states := make([]*State, len(fr.rets))
	conds := make([]*Term, len(fr.rets))
	for i, r := range fr.rets {
		states[i] = r.st
		conds[i] = And(r.st.pc[fr.base:]...)
	}
	for j := 0; j < nres; j++ {
		v := fr.rets[len(fr.rets)-1].vals[j]
		for i := len(fr.rets) - 2; i >= 0; i-- {
			v = roundUp(fr.rets[0].st.pc[:fr.base], Ite(conds[i], fr.rets[i].vals[j], v))
		}
		vals[j] = v
	}
	if len(fr.defers) > 0 {
		states = e.runDefers(fr, states, nef)
	}
	js := e.join(fr.basePC, states)
	st.store = js.store
	st.pc = js.pc
	return vals, fr.rets
}

func panics(efs []*Effect) bool {
	for _, ef := range efs {
		if ef.Kind == "panic" || panics(ef.Body) {
			return true
		}
	}
	return false
}

// runDefers: every return that comes after a deferred call runs it.
func (e *Engine) runDefers(fr *Frame, states []*State, nef int) []*State {
	if panics(e.effects[nef:]) {
		e.fail(fr.defers[0].call.Pos(), "deferred call in a function that panics")
	}
	out := append([]*State{}, states[:fr.defers[0].rets]...)
	saved := fr.env
	for i, d := range fr.defers {
		end := len(states)
		if i+1 < len(fr.defers) {
			end = fr.defers[i+1].rets
		}
		if d.rets >= end {
			continue
		}
		st := e.join(fr.basePC, states[d.rets:end])
		for j := i; j >= 0; j-- {
			fr.env = fr.defers[j].env
			before := st.clone()
			e.call(st, fr, fr.defers[j].call)
			for k, v := range before.store {
				if k[0] == 'v' && v.Sort == SList && st.store[k] != v {
					e.fail(fr.defers[j].call.Pos(), "deferred call changes a slice that may have been returned")
				}
			}
		}
		out = append(out, st)
	}
	fr.env = saved
	return out
}

// deferCall: a call deferred by the function itself (not under a condition or in a
// loop) happens once, after the results are known. Its operands are evaluated now.
func (e *Engine) deferCall(st *State, fr *Frame, d *ast.DeferStmt) {
	own := false
	for _, s := range fr.body {
		own = own || s == ast.Stmt(d)
	}
	if !own || len(fr.loops) > 0 {
		e.fail(d.Pos(), "deferred call on some paths only")
	}
	info := fr.pkg.Info
	ast.Inspect(d.Call, func(n ast.Node) bool {
		id, ok := n.(*ast.Ident)
		if !ok {
			return true
		}
		o := info.Uses[id]
		if b, ok := o.(*types.Builtin); ok && b.Name() == "recover" {
			e.fail(d.Pos(), "recover")
		}
		for _, r := range fr.named {
			if o == r {
				e.fail(d.Pos(), "deferred call uses a result")
			}
		}
		return true
	})
	if _, ok := ast.Unparen(d.Call.Fun).(*ast.FuncLit); !ok {
		if f, ok := typeutilCallee(info, d.Call).(*types.Func); !ok || f.Pkg() == nil {
			e.fail(d.Pos(), "deferred call of an unknown function")
		}
	}
	if e.pre == nil {
		e.pre = map[ast.Expr]*Term{}
	}
	for _, a := range d.Call.Args {
		a = ast.Unparen(a)
		delete(e.pre, a)
		e.pre[a] = e.eval(st, fr, a)
	}
	fr.defers = append(fr.defers, deferred{d.Call, fr.env, len(fr.rets)})
}

func typeutilCallee(info *types.Info, c *ast.CallExpr) types.Object {
	switch f := ast.Unparen(c.Fun).(type) {
	case *ast.Ident:
		return info.Uses[f]
	case *ast.SelectorExpr:
		return info.Uses[f.Sel]
	}
	return nil
}

// roundUp: a quotient plus one if there is a remainder is the quotient rounded up.
func roundUp(f Facts, t *Term) *Term {
	if t.Op != OpIte || t.Sort != SInt {
		return t
	}
	c, hi, lo := t.Args[0], t.Args[1], t.Args[2]
	if Sub(hi, lo) == Int(-1) {
		c, hi, lo = Not(c), lo, hi
	}
	if Sub(hi, lo) != Int(1) {
		return t
	}
	_, ms := monos(lo)
	for _, m := range ms {
		if m.C != 1 || len(m.At) != 1 || m.At[0].Op != OpApp || m.At[0].S != "div" {
			continue
		}
		d := m.At[0]
		n, g := d.Args[0], d.Args[1]
		rem := Mod(n, g)
		if !Prove(f, And(Ge0(n), Ge(g, Int(1)))) {
			continue
		}
		fs := append(append(Facts{}, f...), Ge0(rem), Lt(rem, g))
		if Prove(append(fs, c), Ge(rem, Int(1))) && Prove(append(fs, Not(c)), Le(rem, Int(0))) {
			return Add(Sub(lo, d), Div(Add(n, Sub(g, Int(1))), g))
		}
	}
	return t
}

// join merges mutually exclusive states that all extend base.
func (e *Engine) join(base Facts, ss []*State) *State {
	var live []*State
	for _, s := range ss {
		if s != nil {
			live = append(live, s)
		}
	}
	if len(live) == 0 {
		return nil
	}
	if len(live) == 1 {
		return live[0]
	}
	n := len(base)
	conds := make([]*Term, len(live))
	for i, s := range live {
		conds[i] = And(s.pc[n:]...)
	}
	out := &State{store: map[string]*Term{}, pc: append(Facts{}, base...)}
	keys := map[string]bool{}
	for _, s := range live {
		for k := range s.store {
			keys[k] = true
		}
	}
	for k := range keys {
		var v *Term
		have := true
		for i := len(live) - 1; i >= 0; i-- {
			x, ok := live[i].store[k]
			if !ok {
				if k[0] == 'v' {
					have = false
					break
				}
				x = e.kdef[k]
				if x == nil {
					have = false
					break
				}
			}
			if v == nil {
				v = x
			} else {
				v = roundUp(base, Ite(conds[i], x, v))
			}
		}
		if have {
			out.store[k] = v
		} else if k[0] == 'v' {
			// declared on one side only: out of scope after the join, but a
			// closure may still refer to it
			for i := range live {
				if x, ok := live[i].store[k]; ok {
					out.store[k] = x
				}
			}
		}
	}
	if d := Or(conds...); d != True {
		// keep what all branches share, plus the disjunction
		out.pc = append(out.pc, d)
	}
	return out
}

// -------------------------------------------------------------- statements

func (e *Engine) block(st *State, fr *Frame, list []ast.Stmt) *State {
	saved := fr.env
	fr.env = &Env{parent: saved, vars: map[types.Object]string{}}
	for _, s := range list {
		st = e.stmt(st, fr, s, "")
		if st == nil {
			break
		}
	}
	fr.env = saved
	return st
}

func (e *Engine) stmt(st *State, fr *Frame, s ast.Stmt, label string) *State {
	e.nstmt++
	if e.nstmt > e.maxStmt {
		e.fail(s.Pos(), "analysis budget exhausted")
	}
	info := fr.pkg.Info
	switch x := s.(type) {
	case *ast.EmptyStmt:
		return st
	case *ast.BlockStmt:
		return e.block(st, fr, x.List)
	case *ast.ExprStmt:
		if c, ok := ast.Unparen(x.X).(*ast.CallExpr); ok {
			if id, ok := ast.Unparen(c.Fun).(*ast.Ident); ok {
				if b, ok := info.Uses[id].(*types.Builtin); ok && b.Name() == "panic" {
					v := e.eval(st, fr, c.Args[0])
					e.effect(st, &Effect{Kind: "panic", Args: []*Term{v}, Pos: x.Pos()})
					return nil
				}
			}
		}
		e.evalMulti(st, fr, x.X)
		return st
	case *ast.DeclStmt:
		gd := x.Decl.(*ast.GenDecl)
		if gd.Tok != token.VAR {
			return st
		}
		for _, sp := range gd.Specs {
			vs := sp.(*ast.ValueSpec)
			if len(vs.Values) == 0 {
				for _, n := range vs.Names {
					if o := info.Defs[n]; o != nil && n.Name != "_" {
						e.declare(st, fr, o, e.zeroVar(substT(o.Type(), fr.tp)))
					}
				}
				continue
			}
			vals := e.evalList(st, fr, vs.Values)
			for i, n := range vs.Names {
				if o := info.Defs[n]; o != nil && n.Name != "_" {
					e.declare(st, fr, o, vals[i])
				}
			}
		}
		return st
	case *ast.AssignStmt:
		e.assign(st, fr, x)
		return st
	case *ast.IncDecStmt:
		v := e.eval(st, fr, x.X)
		d := Int(1)
		if x.Tok == token.DEC {
			d = Int(-1)
		}
		e.store(st, fr, x.X, e.fit(st, Add(v, d), e.T(fr, x.X)))
		return st
	case *ast.IfStmt:
		saved := fr.env
		fr.env = &Env{parent: saved, vars: map[types.Object]string{}}
		defer func() { fr.env = saved }()
		if x.Init != nil {
			st = e.stmt(st, fr, x.Init, "")
		}
		c := e.eval(st, fr, x.Cond)
		c = e.decide(st, c)
		base := append(Facts{}, st.pc...)
		var a, b *State
		if c != False {
			a = st.clone()
			if c != True {
				a.pc = append(a.pc, c)
			}
			a = e.block(a, fr, x.Body.List)
		}
		if c != True {
			b = st.clone()
			if c != False {
				b.pc = append(b.pc, Not(c))
			}
			if x.Else != nil {
				b = e.stmt(b, fr, x.Else, "")
			}
		}
		return e.join(base, []*State{a, b})
	case *ast.SwitchStmt:
		return e.switchStmt(st, fr, x, label)
	case *ast.ReturnStmt:
		var vals []*Term
		if len(x.Results) == 0 {
			for _, o := range fr.named {
				vals = append(vals, st.store["v:"+e.loc(fr, o)])
			}
		} else {
			vals = e.evalList(st, fr, x.Results)
			// conversions to interface etc. are transparent
		}
		fr.rets = append(fr.rets, Ret{st, vals, x.Pos()})
		return nil
	case *ast.BranchStmt:
		lab := ""
		if x.Label != nil {
			lab = x.Label.Name
		}
		switch x.Tok {
		case token.BREAK:
			for i := len(fr.loops) - 1; i >= 0; i-- {
				l := fr.loops[i]
				if lab == "" || l.label == lab {
					l.breaks = append(l.breaks, st)
					if lab != "" && i != len(fr.loops)-1 {
						e.checkLabeled(fr, i, x.Pos())
					}
					return nil
				}
			}
		case token.CONTINUE:
			for i := len(fr.loops) - 1; i >= 0; i-- {
				l := fr.loops[i]
				if l.isSwitch {
					continue
				}
				if lab == "" || l.label == lab {
					l.conts = append(l.conts, st)
					if lab != "" {
						e.checkLabeled(fr, i, x.Pos())
					}
					return nil
				}
			}
		}
		e.fail(x.Pos(), "unsupported branch %s", x.Tok)
	case *ast.LabeledStmt:
		return e.stmt(st, fr, x.Stmt, x.Label.Name)
	case *ast.ForStmt:
		return e.forStmt(st, fr, x, label)
	case *ast.RangeStmt:
		return e.rangeStmt(st, fr, x, label)
	case *ast.DeferStmt:
		e.deferCall(st, fr, x)
		return st
	}
	e.fail(s.Pos(), "unsupported statement %T", s)
	return nil
}

// checkLabeled: jumping out of an inner loop to an outer one is only handled
// when everything in between is a switch.
func (e *Engine) checkLabeled(fr *Frame, i int, pos token.Pos) {
	for j := i + 1; j < len(fr.loops); j++ {
		if !fr.loops[j].isSwitch {
			e.fail(pos, "labelled branch across loops")
		}
	}
}

func (e *Engine) loc(fr *Frame, o types.Object) string {
	l, ok := fr.env.lookup(o)
	if !ok {
		e.fail(o.Pos(), "unbound variable %s", o.Name())
	}
	return l
}

// decide resolves a condition under the current facts.
func (e *Engine) decide(st *State, c *Term) *Term {
	if c.Op == OpBool {
		return c
	}
	for _, f := range st.pc {
		if f == c {
			return True
		}
		if f == Not(c) {
			return False
		}
	}
	if Prove(st.pc, c) {
		return True
	}
	if Prove(st.pc, Not(c)) {
		return False
	}
	return c
}

func (e *Engine) switchStmt(st *State, fr *Frame, x *ast.SwitchStmt, label string) *State {
	saved := fr.env
	fr.env = &Env{parent: saved, vars: map[types.Object]string{}}
	defer func() { fr.env = saved }()
	if x.Init != nil {
		st = e.stmt(st, fr, x.Init, "")
	}
	var tag *Term
	if x.Tag != nil {
		tag = e.eval(st, fr, x.Tag)
	}
	base := append(Facts{}, st.pc...)
	lc := &loopCtx{label: label, isSwitch: true}
	fr.loops = append(fr.loops, lc)
	var ends []*State
	cur := st.clone()
	var deflt *ast.CaseClause
	done := false
	for _, cs := range x.Body.List {
		cc := cs.(*ast.CaseClause)
		for _, b := range cc.Body {
			if br, ok := b.(*ast.BranchStmt); ok && br.Tok == token.FALLTHROUGH {
				e.fail(b.Pos(), "fallthrough")
			}
		}
		if cc.List == nil {
			deflt = cc
			continue
		}
		if done {
			continue
		}
		c := False
		for _, ex := range cc.List {
			sub := cur.clone()
			if c != False {
				sub.pc = append(sub.pc, Not(c))
			}
			v := e.eval(sub, fr, ex)
			if tag != nil {
				v = e.equal(tag, v)
			}
			c = Or(c, v)
		}
		c = e.decide(cur, c)
		if c == False {
			continue
		}
		a := cur.clone()
		if c != True {
			a.pc = append(a.pc, c)
		}
		ends = append(ends, e.block(a, fr, cc.Body))
		if c == True {
			done = true
			continue
		}
		cur.pc = append(cur.pc, Not(c))
	}
	if !done {
		if deflt != nil {
			ends = append(ends, e.block(cur, fr, deflt.Body))
		} else {
			ends = append(ends, cur)
		}
	}
	fr.loops = fr.loops[:len(fr.loops)-1]
	ends = append(ends, lc.breaks...)
	return e.join(base, ends)
}

func (e *Engine) zeroVar(t types.Type) *Term {
	if n, ok := t.(*types.Named); ok {
		if o := n.Obj(); o.Pkg() != nil {
			switch o.Pkg().Path() + "." + o.Name() {
			case "strings.Builder", "bytes.Buffer":
				return Str("")
			}
		}
	}
	return zeroOf(t)
}

func (e *Engine) assign(st *State, fr *Frame, x *ast.AssignStmt) {
	info := fr.pkg.Info
	if x.Tok != token.ASSIGN && x.Tok != token.DEFINE {
		// op=
		be := &ast.BinaryExpr{X: x.Lhs[0], Op: assignOp(x.Tok), Y: x.Rhs[0], OpPos: x.TokPos}
		l := e.eval(st, fr, x.Lhs[0])
		r := e.eval(st, fr, x.Rhs[0])
		v := e.binop(st, fr, be.Op, l, r, e.T(fr, x.Lhs[0]), e.T(fr, x.Lhs[0]), x.Pos())
		e.store(st, fr, x.Lhs[0], v)
		return
	}
	var vals []*Term
	if len(x.Rhs) == 1 && len(x.Lhs) > 1 {
		vals = e.evalTuple(st, fr, x.Rhs[0], len(x.Lhs))
	} else {
		vals = e.evalList(st, fr, x.Rhs)
	}
	for i, l := range x.Lhs {
		if id, ok := l.(*ast.Ident); ok {
			if id.Name == "_" {
				continue
			}
			if x.Tok == token.DEFINE {
				if o := info.Defs[id]; o != nil {
					e.declare(st, fr, o, vals[i])
					continue
				}
			}
		}
		e.store(st, fr, l, vals[i])
	}
}

func assignOp(t token.Token) token.Token {
	m := map[token.Token]token.Token{
		token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO,
		token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR,
		token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT,
	}
	return m[t]
}

func (e *Engine) evalList(st *State, fr *Frame, xs []ast.Expr) []*Term {
	if len(xs) == 1 {
		return e.evalMulti(st, fr, xs[0])
	}
	var r []*Term
	for _, x := range xs {
		r = append(r, e.eval(st, fr, x))
	}
	return r
}

// evalMulti evaluates an expression that may be a multi-value call.
func (e *Engine) evalMulti(st *State, fr *Frame, x ast.Expr) []*Term {
	if c, ok := ast.Unparen(x).(*ast.CallExpr); ok {
		return e.call(st, fr, c)
	}
	return []*Term{e.eval(st, fr, x)}
}

func (e *Engine) evalTuple(st *State, fr *Frame, x ast.Expr, n int) []*Term {
	x = ast.Unparen(x)
	switch y := x.(type) {
	case *ast.CallExpr:
		return e.call(st, fr, y)
	case *ast.IndexExpr:
		if mt, ok := e.T(fr, y.X).Underlying().(*types.Map); ok {
			m := e.eval(st, fr, y.X)
			k := e.eval(st, fr, y.Index)
			c := e.mapContents(st, m)
			return []*Term{e.mapGet(c, k, mt.Elem()), MOk(c, k)}
		}
	case *ast.TypeAssertExpr:
		v := e.eval(st, fr, y.X)
		ts := types.TypeString(e.T(fr, y.Type), nil)
		return []*Term{app("as:"+ts, sortOf(e.T(fr, y.Type)), v), app("is:"+ts, SBool, v)}
	}
	e.fail(x.Pos(), "unsupported tuple expression %T", x)
	return nil
}

func (e *Engine) mapGet(c, k *Term, et types.Type) *Term {
	v := typed(MGet(c, k, sortOf(et)), et)
	// a missing key of struct/array element type
	if v == Nil {
		return zeroOf(et)
	}
	return v
}

// store writes v to an lvalue.
func (e *Engine) store(st *State, fr *Frame, l ast.Expr, v *Term) {
	info := fr.pkg.Info
	switch x := ast.Unparen(l).(type) {
	case *ast.Ident:
		if x.Name == "_" {
			return
		}
		o := info.Uses[x]
		if o == nil {
			o = info.Defs[x]
		}
		if gv, ok := o.(*types.Var); ok && gv.Parent() == gv.Pkg().Scope() {
			e.storeGlobal(st, gv, v, x.Pos())
			return
		}
		st.store["v:"+e.loc(fr, o)] = v
		return
	case *ast.SelectorExpr:
		if gv, ok := info.Uses[x.Sel].(*types.Var); ok && !gv.IsField() {
			e.storeGlobal(st, gv, v, x.Pos())
			return
		}
		sel := info.Selections[x]
		if sel == nil {
			break
		}
		base := e.eval(st, fr, x.X)
		bt := e.T(fr, x.X)
		e.followed(st, fr, base, bt, x.Pos())
		idx := sel.Index()
		// walk to the last struct
		for i, fi := range idx {
			stt, isPtr := structOf(bt)
			f := stt.Field(fi)
			if i == len(idx)-1 {
				if isPtr {
					e.storeField(st, base, f.Name(), f.Type(), v, x.Pos())
					return
				}
				// struct value: rewrite the containing lvalue
				if i == 0 {
					e.store(st, fr, x.X, SetField(base, f.Name(), v))
					return
				}
				e.fail(x.Pos(), "store through embedded struct value")
			}
			if isPtr {
				base = e.loadField(st, base, f.Name(), f.Type())
			} else {
				base = Field(base, f.Name(), sortOf(f.Type()))
			}
			bt = f.Type()
		}
	case *ast.IndexExpr:
		switch u := e.T(fr, x.X).Underlying().(type) {
		case *types.Map:
			m := e.eval(st, fr, x.X)
			k := e.eval(st, fr, x.Index)
			e.storeMap(st, fr, m, k, v, x.Pos())
			return
		case *types.Slice, *types.Array, *types.Pointer:
			_ = u
			i := e.eval(st, fr, x.Index)
			base := e.eval(st, fr, x.X)
			c := e.contents(st, base)
			e.site(st, fr, "index", x.Pos(), And(Ge0(i), Lt(i, Len(c))), "")
			if _, isArr := u.(*types.Array); isArr {
				e.store(st, fr, x.X, Update(c, i, v))
				return
			}
			e.storeElem(st, fr, x.X, base, c, i, v, x.Pos())
			return
		}
	case *ast.StarExpr:
		p := e.eval(st, fr, x.X)
		if p.Op == OpApp && strings.HasPrefix(p.S, "addr:") {
			st.store["v:"+p.S[5:]] = v
			return
		}
		if s, _ := structOf(e.T(fr, x.X)); s != nil {
			for i := 0; i < s.NumFields(); i++ {
				f := s.Field(i)
				e.storeField(st, p, f.Name(), f.Type(), Field(v, f.Name(), sortOf(f.Type())), x.Pos())
			}
			return
		}
	}
	e.fail(l.Pos(), "unsupported assignment target")
}

func structOf(t types.Type) (*types.Struct, bool) {
	ptr := false
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
		ptr = true
	}
	s, _ := t.Underlying().(*types.Struct)
	return s, ptr
}

func gvarTerm(v *types.Var) *Term {
	t := appObj("gvar:"+v.Pkg().Path()+"."+v.Name(), sortOf(v.Type()), v)
	typed(t, v.Type())
	if p, ok := v.Type().Underlying().(*types.Pointer); ok && ptrTypes[t] == "" {
		ptrTypes[t] = types.TypeString(p.Elem(), nil)
	}
	return t
}

func (e *Engine) storeGlobal(st *State, v *types.Var, val *Term, pos token.Pos) {
	k := "g:" + v.Pkg().Path() + "." + v.Name()
	e.kdef[k] = gvarTerm(v)
	e.ktype[k] = v.Type()
	st.store[k] = val
	e.effect(st, &Effect{Kind: "globset", Name: v.Pkg().Path() + "." + v.Name(), Args: []*Term{val}, Pos: pos})
}

// mapMade: the map is not nil.
func mapMade(m *Term) *Term {
	switch {
	case m.Op == OpIte:
		return IteB(m.Args[0], mapMade(m.Args[1]), mapMade(m.Args[2]))
	case m == Nil:
		return False
	case m.Op == OpApp && strings.HasPrefix(m.S, "mapalloc:"):
		return True
	}
	return Not(Eq(m, Nil))
}

// made: the map is not nil, or has been made since.
func (e *Engine) made(st *State, m *Term) *Term {
	if m.Op == OpIte {
		return IteB(m.Args[0], e.made(st, m.Args[1]), e.made(st, m.Args[2]))
	}
	if v, ok := st.store[fmt.Sprintf("n:%d", m.id)]; ok {
		return v
	}
	return mapMade(m)
}

// makeLate: a nil map field is given an empty map. Nothing that can be read
// changes but whether the map exists, so the field keeps its value here.
func (e *Engine) makeLate(st *State, p *Term, f string, ft types.Type, v *Term) bool {
	if _, ok := ft.Underlying().(*types.Map); !ok || isAlloc(p) || p.Op == OpIte {
		return false
	}
	if v.Op != OpApp || !strings.HasPrefix(v.S, "mapalloc:") {
		return false
	}
	if c := e.mapContents(st, v); c != v && !(c.Op == OpApp && (c.S == "mempty" || c.S == "mlit" && len(c.Args) == 0)) {
		return false
	}
	m := e.loadField(st, p, f, ft)
	if m.Op != OpApp || m.S != "field:"+f || m.Args[0] != p || st.store[fmt.Sprintf("f:%d.%s", p.id, f)] != nil {
		return false
	}
	if !Prove(st.pc, Not(e.made(st, m))) {
		return false
	}
	for _, x := range st.store {
		if x == m || x == v {
			return false // someone else keeps the nil map, or the new one
		}
	}
	key := fmt.Sprintf("n:%d", m.id)
	if _, ok := e.kdef[key]; !ok {
		e.kdef[key] = mapMade(m)
	}
	st.store[key] = True
	return true
}

func (e *Engine) storeMap(st *State, fr *Frame, m, k, v *Term, pos token.Pos) {
	c := e.mapContents(st, m)
	e.site(st, fr, "map write", pos, e.made(st, m), "")
	key := fmt.Sprintf("m:%d", m.id)
	if _, ok := e.kdef[key]; !ok {
		e.kdef[key] = m
	}
	e.effect(st, &Effect{Kind: "mapset", Args: []*Term{m, k, v, c}, Pos: pos})
	st.store[key] = app("mset", SOther, c, k, v)
}

func (e *Engine) storeElem(st *State, fr *Frame, lx ast.Expr, base, c, i, v *Term, pos token.Pos) {
	if why := e.pr.aliases().bad[pos]; why != "" {
		e.fail(pos, "%s", why)
	}
	nv := Update(c, i, v)
	if hasOpaqueBase(base) {
		// caller-owned storage
		e.effect(st, &Effect{Kind: "elemset", Args: []*Term{base, i, v}, Pos: pos})
		if base.Op != OpIte {
			key := fmt.Sprintf("e:%d", base.id)
			if _, ok := e.kdef[key]; !ok {
				e.kdef[key] = base
			}
			st.store[key] = nv
			return
		}
		// a gate between caller-owned and fresh storage: keep the value view in the
		// variable; the caller-owned alternatives become unknown
		Walk(base, func(x *Term) {
			if x.Sort == SList && x != base && hasOpaqueBase(x) && x.Op != OpIte && x.Op != OpSym {
				key := fmt.Sprintf("e:%d", x.id)
				if _, ok := e.kdef[key]; !ok {
					e.kdef[key] = x
				}
				st.store[key] = app("clobbered", SList, x)
			}
		})
		e.store(st, fr, lx, nv)
		return
	}
	// fresh storage with value semantics: every alias sees the update
	for k2, v2 := range st.store {
		if v2 == base && base.S != "nil" && !e.pr.aliases().solo[pos] {
			st.store[k2] = nv
		}
	}
	e.store(st, fr, lx, nv)
}

func hasOpaqueBase(b *Term) bool {
	switch b.Op {
	case OpIte:
		return hasOpaqueBase(b.Args[1]) || hasOpaqueBase(b.Args[2])
	case OpSym:
		return !strings.HasPrefix(b.S, "h:")
	case OpApp:
		switch b.S {
		case "update", "slice":
			return hasOpaqueBase(b.Args[0])
		case "tab":
			return hasOpaqueBase(b.Args[3])
		}
		if strings.HasPrefix(b.S, "h:") {
			return false
		}
		return !isValueList(b)
	}
	return true
}

// -------------------------------------------------------------- expressions

// fit reduces an ideal integer into the range of its Go type.
func (e *Engine) fit(st *State, t *Term, gt types.Type) *Term {
	if t.Sort != SInt || gt == nil {
		return t
	}
	lo, hi := intRange(gt)
	if lo == nil && hi == nil {
		return t
	}
	l, h := rng(t)
	if (lo == nil || (l != nil && *l >= *lo)) && (hi == nil || (h != nil && *h <= *hi)) {
		return t
	}
	g := True
	if lo != nil {
		g = And(g, Ge(t, Int(*lo)))
	}
	if hi != nil {
		g = And(g, Le(t, Int(*hi)))
	}
	if Prove(st.pc, g) {
		return t
	}
	if hi == nil {
		w := app("wrapu", SInt, t)
		w.lo = i64p(0)
		return w
	}
	return Wrap(t, *lo, *hi)
}

func (e *Engine) eval(st *State, fr *Frame, x ast.Expr) *Term {
	info := fr.pkg.Info
	x = ast.Unparen(x)
	if v, ok := e.pre[x]; ok {
		return v
	}
	if tv, ok := info.Types[x]; ok && tv.Value != nil {
		if t := constTerm(tv.Value); t != nil {
			return t
		}
	}
	switch y := x.(type) {
	case *ast.Ident:
		switch o := info.Uses[y].(type) {
		case *types.Nil:
			return Nil
		case *types.Const:
			if o.Val().Kind() == constant.Bool {
				return Bool(constant.BoolVal(o.Val()))
			}
		case *types.Var:
			return e.loadVar(st, fr, o)
		case *types.Func:
			return e.funcTerm(o, nil)
		}
		if o, ok := info.Defs[y].(*types.Var); ok {
			return e.loadVar(st, fr, o)
		}
	case *ast.FuncLit:
		c := &Closure{y, fr.env, fr.pkg, fr}
		return appObj(fmt.Sprintf("closure:%s@%d", fr.path, y.Pos()), SOther, c, e.ks...)
	case *ast.UnaryExpr:
		switch y.Op {
		case token.SUB:
			return e.fit(st, Neg(e.eval(st, fr, y.X)), e.T(fr, y))
		case token.NOT:
			return Not(e.eval(st, fr, y.X))
		case token.ADD:
			return e.eval(st, fr, y.X)
		case token.AND:
			if cl, ok := ast.Unparen(y.X).(*ast.CompositeLit); ok {
				v := e.eval(st, fr, cl)
				return e.alloc(st, fr, v, e.T(fr, cl), cl.Pos())
			}
			if id, ok := ast.Unparen(y.X).(*ast.Ident); ok {
				if o, ok := info.Uses[id].(*types.Var); ok {
					if l, ok := fr.env.lookup(o); ok {
						return app("addr:"+l, SOther)
					}
				}
			}
		case token.XOR:
			return app("xor", SInt, e.eval(st, fr, y.X))
		}
	case *ast.BinaryExpr:
		if y.Op == token.LAND || y.Op == token.LOR {
			l := e.eval(st, fr, y.X)
			l = e.decide(st, l)
			if (y.Op == token.LAND && l == False) || (y.Op == token.LOR && l == True) {
				return l
			}
			sub := st.clone()
			if y.Op == token.LAND {
				sub.pc = append(sub.pc, l)
			} else {
				sub.pc = append(sub.pc, Not(l))
			}
			r := e.eval(sub, fr, y.Y)
			for k, v := range sub.store {
				if st.store[k] != v && st.store[k] != nil {
					c := l
					if y.Op == token.LOR {
						c = Not(l)
					}
					st.store[k] = Ite(c, v, st.store[k])
				} else if st.store[k] == nil {
					st.store[k] = v
				}
			}
			if y.Op == token.LAND {
				return And(l, r)
			}
			return Or(l, r)
		}
		l := e.eval(st, fr, y.X)
		r := e.eval(st, fr, y.Y)
		return e.binop(st, fr, y.Op, l, r, e.T(fr, y), e.T(fr, y.X), y.OpPos)
	case *ast.SelectorExpr:
		return e.selector(st, fr, y)
	case *ast.IndexExpr:
		if mt, ok := e.T(fr, y.X).Underlying().(*types.Map); ok {
			m := e.eval(st, fr, y.X)
			k := e.eval(st, fr, y.Index)
			return e.mapGet(e.mapContents(st, m), k, mt.Elem())
		}
		if tv := info.Types[y.Index]; tv.IsType() { // generic instantiation
			return e.eval(st, fr, y.X)
		}
		b := e.eval(st, fr, y.X)
		i := e.eval(st, fr, y.Index)
		c := b
		if sortOf(e.T(fr, y.X)) != SStr {
			c = e.contents(st, b)
		}
		e.site(st, fr, "index", y.Pos(), And(Ge0(i), Lt(i, Len(c))), "")
		setElemSort(c, sortOf(e.T(fr, y)))
		return e.typedIdx(st, Index(c, i), e.T(fr, y))
	case *ast.SliceExpr:
		b := e.eval(st, fr, y.X)
		isStr := sortOf(e.T(fr, y.X)) == SStr
		lo := Int(0)
		c := b
		if !isStr {
			c = e.contents(st, b)
		}
		hi := Len(c)
		if y.Low != nil {
			lo = e.eval(st, fr, y.Low)
		}
		if y.High != nil {
			hi = e.eval(st, fr, y.High)
		}
		if isStr {
			e.site(st, fr, "slice", y.Pos(), And(Ge0(lo), Le(lo, hi), Le(hi, Len(c))), "")
			return Slice(c, lo, hi)
		}
		// for slices the upper bound is the capacity; x[:0] and x[a:] with a<=len are fine
		e.site(st, fr, "slice", y.Pos(), And(Ge0(lo), Le(lo, hi), Le(hi, Len(c))), "")
		if isValueList(c) {
			return Slice(c, lo, hi)
		}
		return Slice(b, lo, hi)
	case *ast.StarExpr:
		p := e.eval(st, fr, y.X)
		return e.deref(st, p, e.T(fr, y.X), y.Pos())
	case *ast.CallExpr:
		r := e.call(st, fr, y)
		if len(r) != 1 {
			e.fail(y.Pos(), "multi-value call in single-value context")
		}
		return r[0]
	case *ast.CompositeLit:
		return e.composite(st, fr, y)
	case *ast.TypeAssertExpr:
		v := e.eval(st, fr, y.X)
		ts := types.TypeString(e.T(fr, y.Type), nil)
		return app("as:"+ts, sortOf(e.T(fr, y.Type)), v)
	}
	e.fail(x.Pos(), "unsupported expression %T", x)
	return nil
}

// typedIdx is typed for element reads; values stored in a list under a narrower
// type keep their range.
func (e *Engine) typedIdx(st *State, t *Term, gt types.Type) *Term {
	return typed(t, gt)
}

func (e *Engine) deref(st *State, p *Term, pt types.Type, pos token.Pos) *Term {
	if p.Op == OpIte {
		return Ite(p.Args[0], e.deref(st, p.Args[1], pt, pos), e.deref(st, p.Args[2], pt, pos))
	}
	if p.Op == OpApp && strings.HasPrefix(p.S, "addr:") {
		return st.store["v:"+p.S[5:]]
	}
	if s, _ := structOf(pt); s != nil {
		el := pt.Underlying().(*types.Pointer).Elem()
		var names []string
		var vals []*Term
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			names = append(names, f.Name())
			vals = append(vals, e.loadField(st, p, f.Name(), f.Type()))
		}
		return Struct(types.TypeString(el, nil), names, vals)
	}
	return app("deref", sortOf(pt.Underlying().(*types.Pointer).Elem()), p)
}

func (e *Engine) loadVar(st *State, fr *Frame, o *types.Var) *Term {
	if o.Pkg() != nil && o.Parent() == o.Pkg().Scope() {
		if v, ok := st.store["g:"+o.Pkg().Path()+"."+o.Name()]; ok {
			return v
		}
		if g := e.pr.Globs[o]; g != nil && e.pr.Const(o) {
			if tv, ok := g.Pkg.Info.Types[g.Init]; ok && tv.Value != nil {
				if t := constTerm(tv.Value); t != nil {
					return t
				}
			}
		}
		return gvarTerm(o)
	}
	l, ok := fr.env.lookup(o)
	if !ok {
		e.fail(o.Pos(), "unbound variable %s", o.Name())
	}
	v, ok := st.store["v:"+l]
	if !ok {
		e.fail(o.Pos(), "variable %s has no value here", o.Name())
	}
	return v
}

func (e *Engine) funcTerm(fn *types.Func, recv *Term) *Term {
	if recv != nil {
		return appObj("func:"+fn.FullName(), SOther, &FuncRef{fn, recv}, recv)
	}
	return appObj("func:"+fn.FullName(), SOther, &FuncRef{fn, nil})
}

func (e *Engine) alloc(st *State, fr *Frame, v *Term, t types.Type, pos token.Pos) *Term {
	p := app(fmt.Sprintf("ptr:%s@%d", fr.path, pos), SOther, e.ks...)
	ptrTypes[p] = types.TypeString(t, nil)
	if s, _ := structOf(t); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			k := fmt.Sprintf("f:%d.%s", p.id, f.Name())
			e.kdef[k] = zeroOf(f.Type())
			e.ktype[k] = f.Type()
			st.store[k] = Field(v, f.Name(), sortOf(f.Type()))
		}
	} else {
		e.fail(pos, "address of non-struct literal")
	}
	return p
}

func (e *Engine) composite(st *State, fr *Frame, x *ast.CompositeLit) *Term {
	t := e.T(fr, x)
	switch u := t.Underlying().(type) {
	case *types.Pointer: // elided &T in nested literal
		v := e.compositeOf(st, fr, x, u.Elem())
		return e.alloc(st, fr, v, u.Elem(), x.Pos())
	default:
		return e.compositeOf(st, fr, x, t)
	}
}

func (e *Engine) compositeOf(st *State, fr *Frame, x *ast.CompositeLit, t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		names := make([]string, u.NumFields())
		vals := make([]*Term, u.NumFields())
		for i := range names {
			names[i] = u.Field(i).Name()
			vals[i] = e.zeroVar(u.Field(i).Type())
		}
		for i, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				v := e.eval(st, fr, kv.Value)
				for j := range names {
					if names[j] == kv.Key.(*ast.Ident).Name {
						vals[j] = v
					}
				}
			} else {
				vals[i] = e.eval(st, fr, el)
			}
		}
		return Struct(types.TypeString(t, nil), names, vals)
	case *types.Slice, *types.Array:
		var vals []*Term
		for _, el := range x.Elts {
			if _, ok := el.(*ast.KeyValueExpr); ok {
				e.fail(el.Pos(), "keyed list literal")
			}
			vals = append(vals, e.eval(st, fr, el))
		}
		if a, ok := u.(*types.Array); ok {
			for int64(len(vals)) < a.Len() {
				vals = append(vals, zeroOf(a.Elem()))
			}
		}
		return List(vals...)
	case *types.Map:
		m := app(fmt.Sprintf("mapalloc:%s@%d", fr.path, x.Pos()), SOther, e.ks...)
		c := app("mempty", SOther)
		for _, el := range x.Elts {
			kv := el.(*ast.KeyValueExpr)
			c = app("mset", SOther, c, e.eval(st, fr, kv.Key), e.eval(st, fr, kv.Value))
		}
		key := fmt.Sprintf("m:%d", m.id)
		e.kdef[key] = app("mempty", SOther)
		st.store[key] = c
		return m
	}
	e.fail(x.Pos(), "unsupported literal")
	return nil
}

func (e *Engine) selector(st *State, fr *Frame, y *ast.SelectorExpr) *Term {
	info := fr.pkg.Info
	switch o := info.Uses[y.Sel].(type) {
	case *types.Var:
		if !o.IsField() {
			return e.loadVar(st, fr, o)
		}
	case *types.Func:
		if info.Selections[y] == nil {
			return e.funcTerm(o, nil)
		}
	}
	sel := info.Selections[y]
	if sel == nil {
		e.fail(y.Pos(), "unresolved selector")
	}
	base := e.eval(st, fr, y.X)
	e.followed(st, fr, base, e.T(fr, y.X), y.Pos())
	if sel.Kind() == types.FieldVal {
		return e.walkFields(st, base, e.T(fr, y.X), sel.Index())
	}
	if sel.Kind() == types.MethodVal {
		idx := sel.Index()
		base = e.walkFields(st, base, e.T(fr, y.X), idx[:len(idx)-1])
		return e.funcTerm(sel.Obj().(*types.Func), base)
	}
	e.fail(y.Pos(), "unsupported selector kind")
	return nil
}

// followed: a pointer that is followed is not nil, as far as it comes from a map
// (which gives nil for unknown keys) or is nil outright. Pointers in arguments,
// fields and slices count as well-formed.
func (e *Engine) followed(st *State, fr *Frame, p *Term, t types.Type, pos token.Pos) {
	if _, ok := t.Underlying().(*types.Pointer); !ok || !e.log {
		return
	}
	var goal func(p *Term) *Term
	goal = func(p *Term) *Term {
		switch {
		case p == Nil:
			return False
		case p.Op == OpIte:
			return IteB(p.Args[0], goal(p.Args[1]), goal(p.Args[2]))
		case p.Op == OpApp && p.S == "mget":
			return Not(Eq(p, Nil))
		}
		return True
	}
	if g := goal(p); g != True {
		e.site(st, fr, "pointer", pos, g, "")
	}
}

func (e *Engine) walkFields(st *State, base *Term, bt types.Type, idx []int) *Term {
	for _, fi := range idx {
		s, isPtr := structOf(bt)
		f := s.Field(fi)
		if isPtr {
			base = e.loadField(st, base, f.Name(), f.Type())
		} else {
			base = typed(Field(base, f.Name(), sortOf(f.Type())), f.Type())
		}
		if p, ok := f.Type().Underlying().(*types.Pointer); ok && ptrTypes[base] == "" {
			ptrTypes[base] = types.TypeString(p.Elem(), nil)
		}
		bt = f.Type()
	}
	return base
}

func (e *Engine) equal(a, b *Term) *Term { return Eq(a, b) }

func pow2(n int64) (int, bool) {
	for s := 0; s < 62; s++ {
		if n == int64(1)<<s {
			return s, true
		}
	}
	return 0, false
}

func divisible(t *Term, n int64) bool {
	c, ms := monos(t)
	if c%n != 0 {
		return false
	}
	for _, m := range ms {
		if m.C%n != 0 {
			return false
		}
	}
	return true
}

func (e *Engine) binop(st *State, fr *Frame, op token.Token, l, r *Term, rt, opT types.Type, pos token.Pos) *Term {
	if op == token.EQL || op == token.NEQ {
		eq := e.equal(l, r)
		if (l == Nil) != (r == Nil) {
			m := l
			if l == Nil {
				m = r
			}
			if eq == Eq(m, Nil) && m.Op != OpInt {
				eq = Not(e.made(st, m))
			}
		}
		if op == token.NEQ {
			return Not(eq)
		}
		return eq
	}
	if l.Sort == SStr || r.Sort == SStr {
		if op == token.ADD {
			return Concat(l, r)
		}
		switch op {
		case token.LSS:
			return app("strlt", SBool, l, r)
		case token.GTR:
			return app("strlt", SBool, r, l)
		case token.LEQ:
			return Not(app("strlt", SBool, r, l))
		case token.GEQ:
			return Not(app("strlt", SBool, l, r))
		}
	}
	switch op {
	case token.LSS:
		return Lt(l, r)
	case token.LEQ:
		return Le(l, r)
	case token.GTR:
		return Gt(l, r)
	case token.GEQ:
		return Ge(l, r)
	case token.ADD:
		return e.fit(st, Add(l, r), rt)
	case token.SUB:
		return e.fit(st, Sub(l, r), rt)
	case token.MUL:
		return e.fit(st, Mul(l, r), rt)
	case token.QUO:
		e.site(st, fr, "div", pos, Not(Eq(r, Int(0))), "")
		return e.fit(st, Div(l, r), rt)
	case token.REM:
		e.site(st, fr, "div", pos, Not(Eq(r, Int(0))), "")
		return e.fit(st, Mod(l, r), rt)
	case token.SHL:
		if r.Op == OpInt && r.N >= 0 && r.N < 40 {
			return e.fit(st, Scale(int64(1)<<r.N, l), rt)
		}
		return typed(app("shl", SInt, l, r), rt)
	case token.SHR:
		if r.Op == OpInt && r.N >= 0 && r.N < 62 {
			if Prove(st.pc, Ge0(l)) {
				return e.shrConst(st, l, r.N)
			}
			if r.N < 40 {
				// arithmetic shift rounds down
				m := int64(1) << r.N
				return Ite(Ge0(l), Div(l, Int(m)), Neg(Div(Add(Neg(l), Int(m-1)), Int(m))))
			}
		}
		return typed(app("shr", SInt, l, r), rt)
	case token.AND:
		for i := 0; i < 2; i++ {
			if r.Op == OpInt && r.N >= 0 {
				if s, ok := pow2(r.N + 1); ok && Prove(st.pc, Ge0(l)) {
					if Prove(st.pc, Le(l, r)) {
						return l
					}
					return e.lowBits(st, l, s)
				}
			}
			l, r = r, l
		}
		if l.id > r.id {
			l, r = r, l
		}
		return typed(app("and", SInt, l, r), rt)
	case token.OR:
		for i := 0; i < 2; i++ {
			// r is a multiple of 2^s and 0 <= l < 2^s
			for s := 40; s >= 1; s-- {
				m := int64(1) << s
				if r != Int(0) && divisible(r, m) && Prove(st.pc, And(Ge0(l), Lt(l, Int(m)))) && Prove(st.pc, Ge0(r)) {
					return Add(l, r)
				}
			}
			l, r = r, l
		}
		if l == Int(0) {
			return r
		}
		if r == Int(0) {
			return l
		}
		if l.id > r.id {
			l, r = r, l
		}
		return typed(app("or", SInt, l, r), rt)
	}
	if l.id > r.id && (op == token.XOR) {
		l, r = r, l
	}
	return typed(app("op"+op.String(), SInt, l, r), rt)
}

// split separates the monomials divisible by n from the rest.
func splitDiv(t *Term, n int64) (q, rest *Term) {
	c, ms := monos(t)
	pq, pr := newPoly(), newPoly()
	pr.c = c
	for _, m := range ms {
		if m.C%n == 0 {
			pq.addMono(m.C/n, m.At)
		} else {
			pr.addMono(m.C, m.At)
		}
	}
	return pq.build(), pr.build()
}

func (e *Engine) shrConst(st *State, l *Term, s int64) *Term {
	m := int64(1) << s
	q, rest := splitDiv(l, m)
	if q != Int(0) && Prove(st.pc, And(Ge0(rest), Lt(rest, Int(m)))) {
		return q
	}
	return Div(l, Int(m))
}

func (e *Engine) lowBits(st *State, l *Term, s int) *Term {
	m := int64(1) << s
	q, rest := splitDiv(l, m)
	if q != Int(0) && Prove(st.pc, And(Ge0(rest), Lt(rest, Int(m)))) {
		return rest
	}
	return Mod(l, Int(m))
}

// -------------------------------------------------------------------- calls

func (e *Engine) call(st *State, fr *Frame, c *ast.CallExpr) []*Term {
	info := fr.pkg.Info
	fun := ast.Unparen(c.Fun)
	// conversion
	if tv, ok := info.Types[fun]; ok && tv.IsType() {
		return []*Term{e.convert(st, fr, c, substT(tv.Type, fr.tp))}
	}
	if ix, ok := fun.(*ast.IndexExpr); ok { // explicit instantiation
		if tv := info.Types[ix.Index]; tv.IsType() {
			fun = ast.Unparen(ix.X)
		}
	}
	if ix, ok := fun.(*ast.IndexListExpr); ok {
		fun = ast.Unparen(ix.X)
	}
	if id, ok := fun.(*ast.Ident); ok {
		if b, ok := info.Uses[id].(*types.Builtin); ok {
			return e.builtin(st, fr, c, b.Name())
		}
	}
	// static callee?
	var fn *types.Func
	var recv *Term
	switch f := fun.(type) {
	case *ast.Ident:
		fn, _ = info.Uses[f].(*types.Func)
	case *ast.SelectorExpr:
		if sel := info.Selections[f]; sel != nil {
			if sel.Kind() == types.MethodVal {
				fn = sel.Obj().(*types.Func)
				idx := sel.Index()
				sig := fn.Type().(*types.Signature)
				bt := e.T(fr, f.X)
				_, wantPtr := sig.Recv().Type().Underlying().(*types.Pointer)
				_, havePtr := bt.Underlying().(*types.Pointer)
				_, isIface := bt.Underlying().(*types.Interface)
				if wantPtr && !havePtr && !isIface && len(idx) == 1 {
					// address of an addressable operand
					recv = e.eval(st, fr, &ast.UnaryExpr{Op: token.AND, X: f.X, OpPos: f.Pos()})
				} else {
					recv = e.eval(st, fr, f.X)
					recv = e.walkFields(st, recv, bt, idx[:len(idx)-1])
					if !wantPtr && havePtr && !isIface && len(idx) == 1 {
						recv = e.deref(st, recv, bt, f.Pos())
					}
				}
			}
		} else {
			fn, _ = info.Uses[f.Sel].(*types.Func)
		}
	}
	sigT, _ := e.T(fr, c.Fun).Underlying().(*types.Signature)
	args := e.args(st, fr, c, sigT)
	if fn != nil {
		e.inst = instOf(fr, fun, fn)
		defer func() { e.inst = nil }()
		return e.callFunc(st, fr, fn, recv, args, c)
	}
	fv := e.eval(st, fr, c.Fun)
	return e.callValue(st, fr, fv, args, sigT, c)
}

func (e *Engine) args(st *State, fr *Frame, c *ast.CallExpr, sig *types.Signature) []*Term {
	var vals []*Term
	if len(c.Args) == 1 && sig != nil && sig.Params().Len() > 1 && !sig.Variadic() {
		return e.evalMulti(st, fr, c.Args[0])
	}
	for _, a := range c.Args {
		vals = append(vals, e.eval(st, fr, a))
	}
	if sig != nil && sig.Variadic() && c.Ellipsis == token.NoPos {
		n := sig.Params().Len() - 1
		rest := List(vals[n:]...)
		vals = append(append([]*Term{}, vals[:n]...), rest)
	}
	return vals
}

func (e *Engine) callValue(st *State, fr *Frame, fv *Term, args []*Term, sig *types.Signature, c *ast.CallExpr) []*Term {
	if fv.Op == OpIte {
		cond := e.decide(st, fv.Args[0])
		if cond == True {
			return e.callValue(st, fr, fv.Args[1], args, sig, c)
		}
		if cond == False {
			return e.callValue(st, fr, fv.Args[2], args, sig, c)
		}
		base := append(Facts{}, st.pc...)
		a, b := st.clone(), st.clone()
		a.pc = append(a.pc, cond)
		b.pc = append(b.pc, Not(cond))
		va := e.callValue(a, fr, fv.Args[1], args, sig, c)
		vb := e.callValue(b, fr, fv.Args[2], args, sig, c)
		j := e.join(base, []*State{a, b})
		st.store, st.pc = j.store, base
		r := make([]*Term, len(va))
		for i := range r {
			r[i] = roundUp(st.pc, Ite(cond, va[i], vb[i]))
		}
		return r
	}
	if fv.Op == OpApp {
		switch o := fv.Obj.(type) {
		case *Closure:
			return e.callClosure(st, fr, o, args, c.Pos())
		case *FuncRef:
			return e.callFunc(st, fr, o.fn, o.recv, args, c)
		}
	}
	// unknown function value
	e.site(st, fr, "function call", c.Pos(), mapMade(fv), "")
	e.effect(st, &Effect{Kind: "dyncall", Args: append([]*Term{fv}, args...), Pos: c.Pos()})
	return e.opaque(st, "dyn", append([]*Term{fv}, args...), sig)
}

func (e *Engine) callClosure(st *State, fr *Frame, o *Closure, args []*Term, pos token.Pos) []*Term {
	if fr.depth > 14 {
		e.fail(pos, "inlining too deep")
	}
	sig := o.pkg.Info.TypeOf(o.lit).(*types.Signature)
	nf := &Frame{path: fmt.Sprintf("%s/func@%d@%d", fr.path, o.lit.Pos(), pos), pkg: o.pkg, fn: o.fr.fn, depth: fr.depth + 1,
		env: &Env{parent: o.env, vars: map[types.Object]string{}}, sig: sig, tp: o.fr.tp}
	e.bindParams(st, nf, o.lit.Type, sig, args)
	r, _ := e.runBody(st, nf, o.lit.Type, o.lit.Body)
	return r
}

func (e *Engine) opaque(st *State, name string, args []*Term, sig *types.Signature) []*Term {
	n := sig.Results().Len()
	r := make([]*Term, n)
	for i := range r {
		nm := name
		if n > 1 {
			nm = fmt.Sprintf("%s#%d", name, i)
		}
		t := sig.Results().At(i).Type()
		r[i] = mk(nm, sortOf(t), nil, args...)
		if b, ok := e.RetRange[nm]; ok && r[i].Op == OpApp {
			r[i].lo, r[i].hi = i64p(b[0]), i64p(b[1])
		}
		r[i] = typed(r[i], t)
	}
	return r
}

func (e *Engine) callFunc(st *State, fr *Frame, fn *types.Func, recv *Term, args []*Term, c *ast.CallExpr) []*Term {
	pos := c.Pos()
	fn = fn.Origin()
	sig := fn.Type().(*types.Signature)
	if sig.Recv() != nil {
		if _, ok := sig.Recv().Type().Underlying().(*types.Interface); ok {
			return e.ifaceCall(st, fr, fn, recv, args, sig, pos)
		}
	}
	if _, inMod := e.pr.Decl[fn]; inMod {
		if e.Summary != nil {
			all := args
			if recv != nil {
				all = append([]*Term{recv}, args...)
			}
			if r, ok := e.Summary(e, st, fn, all, pos); ok {
				return r
			}
		}
		if e.Opaque == nil || !e.Opaque(fn) {
			if e.AutoSum {
				inst := e.inst
				s := e.summarise(fn, recv, args, inst)
				if s != nil {
					return e.useSummary(st, s, recv, args, sig)
				}
				e.inst = inst
			}
			r, _ := e.Call(st, fn, recv, args, fr.path, pos, fr.depth+1)
			return r
		}
		if e.OnOpaque != nil && e.log {
			e.OnOpaque(st, fn, pos)
		}
		all := args
		if recv != nil {
			all = append([]*Term{recv}, args...)
		}
		// slices are passed with their current contents
		for i := range all {
			if all[i].Sort == SList {
				all[i] = e.contents(st, all[i])
			}
		}
		if mutatesRecv(sig) && recv != nil && e.pr.writesThroughRecv(fn) {
			key := fmt.Sprintf("o:%d", recv.id)
			if _, ok := e.kdef[key]; !ok {
				e.kdef[key] = Int(0)
			}
			ver := st.store[key]
			if ver == nil {
				ver = Int(0)
			}
			ver = Add(ver, Int(1))
			st.store[key] = ver
			e.effect(st, &Effect{Kind: "mcall", Name: shortName(fn), Args: append(append([]*Term{}, all...), ver), Pos: pos, Callee: fn})
			return e.opaque(st, "mcall:"+shortName(fn), append(append([]*Term{}, all...), ver), sig)
		}
		if recv != nil {
			if ver, ok := st.store[fmt.Sprintf("o:%d", recv.id)]; ok {
				all = append(append([]*Term{}, all...), ver)
			}
		}
		e.effect(st, &Effect{Kind: "call", Name: shortName(fn), Args: all, Pos: pos, Callee: fn})
		return e.opaque(st, "call:"+shortName(fn), all, sig)
	}
	return e.external(st, fr, fn, recv, args, sig, c)
}

func mutatesRecv(sig *types.Signature) bool {
	if sig.Recv() == nil {
		return false
	}
	_, ok := sig.Recv().Type().Underlying().(*types.Pointer)
	return ok
}

// writesThroughRecv: does the method (or anything it calls on the same receiver)
// assign through its receiver?
func (pr *Prog) writesThroughRecv(fn *types.Func) bool {
	return pr.writesRecv(fn, map[*types.Func]bool{})
}

func (pr *Prog) writesRecv(fn *types.Func, seen map[*types.Func]bool) bool {
	if seen[fn] {
		return false
	}
	seen[fn] = true
	d := pr.Decl[fn]
	pk := pr.PkgOf[fn]
	if d == nil || d.Body == nil {
		return true
	}
	id := recvIdent(d)
	if id == nil {
		return false
	}
	ro := pk.Info.Defs[id]
	rootsAtRecv := func(e ast.Expr) bool {
		for {
			switch x := e.(type) {
			case *ast.Ident:
				return pk.Info.Uses[x] == ro
			case *ast.SelectorExpr:
				e = x.X
			case *ast.IndexExpr:
				e = x.X
			case *ast.StarExpr:
				e = x.X
			case *ast.ParenExpr:
				e = x.X
			case *ast.SliceExpr:
				e = x.X
			default:
				return false
			}
		}
	}
	w := false
	ast.Inspect(d.Body, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				if _, plain := l.(*ast.Ident); !plain && rootsAtRecv(l) {
					w = true
				}
			}
		case *ast.IncDecStmt:
			if _, plain := x.X.(*ast.Ident); !plain && rootsAtRecv(x.X) {
				w = true
			}
		case *ast.CallExpr:
			if se, ok := x.Fun.(*ast.SelectorExpr); ok && rootsAtRecv(se.X) {
				if f, ok := pk.Info.Uses[se.Sel].(*types.Func); ok && pr.Decl[f] != nil && mutatesRecv(f.Type().(*types.Signature)) {
					if pr.writesRecv(f, seen) {
						w = true
					}
				}
			}
		}
		return true
	})
	return w
}

func shortName(fn *types.Func) string {
	p := ""
	if fn.Pkg() != nil {
		p = fn.Pkg().Path()
		if i := strings.LastIndex(p, "/"); i >= 0 {
			p = p[i+1:]
		}
		p += "."
	}
	if r := fn.Type().(*types.Signature).Recv(); r != nil {
		t := r.Type()
		if q, ok := t.(*types.Pointer); ok {
			t = q.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			p += n.Obj().Name() + "."
		}
	}
	return p + fn.Name()
}

func (e *Engine) ifaceCall(st *State, fr *Frame, fn *types.Func, recv *Term, args []*Term, sig *types.Signature, pos token.Pos) []*Term {
	name := shortName(fn)
	if name == "io.Writer.Write" {
		b := args[0]
		s := app("string", SStr, b)
		if b.Op == OpApp && b.S == "bytes" {
			s = b.Args[0]
		}
		return e.write(st, fr, recv, s, pos)
	}
	if name == "io.StringWriter.WriteString" {
		return e.write(st, fr, recv, args[0], pos)
	}
	if strings.HasSuffix(name, ".Error") && len(args) == 0 {
		return []*Term{app("errstr", SStr, recv)}
	}
	all := append([]*Term{recv}, args...)
	e.effect(st, &Effect{Kind: "icall", Name: name, Args: all, Pos: pos, Callee: fn})
	r := e.opaque(st, "icall:"+name, all, sig)
	for i := range r {
		// lengths reported by list interfaces are taken to be non-negative
		if r[i].Sort == SInt && fn.Name() == "Len" && r[i].Op == OpApp && (r[i].lo == nil || *r[i].lo < 0) {
			r[i].lo = i64p(0)
		}
	}
	return r
}

func (e *Engine) write(st *State, fr *Frame, out, s *Term, pos token.Pos) []*Term {
	errT := app(fmt.Sprintf("werr:%s@%d", fr.path, pos), SOther, e.ks...)
	n := app(fmt.Sprintf("wn:%s@%d", fr.path, pos), SInt, e.ks...)
	e.effect(st, &Effect{Kind: "write", Args: []*Term{out, s, errT}, Pos: pos})
	return []*Term{n, errT}
}

func (e *Engine) convert(st *State, fr *Frame, c *ast.CallExpr, t types.Type) *Term {
	v := e.eval(st, fr, c.Args[0])
	src := e.T(fr, c.Args[0])
	ds, ss := sortOf(t), sortOf(src)
	switch {
	case ds == SInt && ss == SInt:
		return e.fit(st, v, t)
	case ds == SList && ss == SStr:
		el := t.Underlying().(*types.Slice).Elem()
		if b, ok := el.Underlying().(*types.Basic); ok && b.Kind() == types.Int32 {
			r := app("runes", SList, v)
			setElemSort(r, SInt)
			return r
		}
		r := app("bytes", SList, v)
		setElemSort(r, SInt)
		return r
	case ds == SStr && ss == SList:
		cv := e.contents(st, v)
		if cv.Op == OpApp && cv.S == "bytes" {
			return cv.Args[0]
		}
		return app("string", SStr, cv)
	case ds == SStr && ss == SInt:
		if v.Op == OpInt {
			return Str(string(rune(v.N)))
		}
		return app("runestr", SStr, v)
	}
	return v
}

func (e *Engine) builtin(st *State, fr *Frame, c *ast.CallExpr, name string) []*Term {
	switch name {
	case "len":
		v := e.eval(st, fr, c.Args[0])
		if _, ok := e.T(fr, c.Args[0]).Underlying().(*types.Map); ok {
			m := e.mapContents(st, v)
			if ks, _, ok := constMapHook(m); ok {
				return []*Term{Int(int64(len(ks)))}
			}
			t := app("maplen", SInt, m)
			t.lo = i64p(0)
			return []*Term{t}
		}
		if sortOf(e.T(fr, c.Args[0])) != SStr {
			v = e.contents(st, v)
		}
		return []*Term{Len(v)}
	case "cap":
		v := e.contents(st, e.eval(st, fr, c.Args[0]))
		t := app("cap", SInt, v)
		t.lo = i64p(0)
		return []*Term{t}
	case "append":
		if why := e.pr.aliases().bad[c.Pos()]; why != "" {
			e.fail(c.Pos(), "%s", why)
		}
		v := e.contents(st, e.eval(st, fr, c.Args[0]))
		if c.Ellipsis != token.NoPos {
			w := e.eval(st, fr, c.Args[1])
			if w.Sort == SStr {
				w = app("bytes", SList, w)
			}
			return []*Term{Cat(v, e.contents(st, w))}
		}
		var xs []*Term
		for _, a := range c.Args[1:] {
			xs = append(xs, e.eval(st, fr, a))
		}
		return []*Term{Cat(v, List(xs...))}
	case "make":
		t := e.T(fr, c.Args[0])
		switch u := t.Underlying().(type) {
		case *types.Slice:
			n := e.eval(st, fr, c.Args[1])
			e.site(st, fr, "make", c.Pos(), Ge0(n), "")
			if len(c.Args) > 2 {
				cp := e.eval(st, fr, c.Args[2])
				e.site(st, fr, "make", c.Pos(), And(Ge0(cp), Le(n, cp)), "")
			}
			if n == Int(0) {
				return []*Term{List()}
			}
			r := app("make", SList, n, zeroOf(u.Elem()))
			setElemSort(r, sortOf(u.Elem()))
			return []*Term{r}
		case *types.Map:
			m := app(fmt.Sprintf("mapalloc:%s@%d", fr.path, c.Pos()), SOther, e.ks...)
			key := fmt.Sprintf("m:%d", m.id)
			e.kdef[key] = app("mempty", SOther)
			st.store[key] = app("mempty", SOther)
			return []*Term{m}
		}
	case "new":
		t := e.T(fr, c.Args[0])
		return []*Term{e.alloc(st, fr, e.zeroVar(t), t, c.Pos())}
	case "copy":
		if why := e.pr.aliases().bad[c.Pos()]; why != "" {
			e.fail(c.Pos(), "%s", why)
		}
		lx := ast.Unparen(c.Args[0])
		lo := Int(0)
		var hi *Term
		if sx, ok := lx.(*ast.SliceExpr); ok && sx.Max == nil {
			if sx.Low != nil {
				lo = e.eval(st, fr, sx.Low)
			}
			if sx.High != nil {
				hi = e.eval(st, fr, sx.High)
			}
			lx = ast.Unparen(sx.X)
		}
		if _, ok := lx.(*ast.Ident); !ok {
			e.fail(c.Pos(), "copy to a slice that is not a variable")
		}
		base := e.eval(st, fr, lx)
		d := e.contents(st, base)
		if hi == nil {
			hi = Len(d)
		}
		src := e.eval(st, fr, c.Args[1])
		if src.Sort == SStr {
			src = app("bytes", SList, src)
		} else {
			src = e.contents(st, src)
		}
		e.site(st, fr, "slice", c.Pos(), And(Ge0(lo), Le(lo, hi), Le(hi, Len(d))), "")
		n := Ite(Le(Len(src), Sub(hi, lo)), Len(src), Sub(hi, lo))
		if Prove(st.pc, Le(Len(src), Sub(hi, lo))) {
			n = Len(src)
		} else if Prove(st.pc, Ge(Len(src), Sub(hi, lo))) {
			n = Sub(hi, lo)
		}
		nv := Slice(src, Int(0), n)
		if !(lo == Int(0) && Prove(st.pc, Eq(n, Len(d)))) {
			nv = Cat(Cat(Slice(d, Int(0), lo), nv), Slice(d, Add(lo, n), Len(d)))
		}
		if hasOpaqueBase(base) {
			e.fail(c.Pos(), "copy into storage of the caller")
		}
		if !e.pr.aliases().solo[c.Pos()] {
			for k2, v2 := range st.store {
				if v2 == base && base.S != "nil" {
					st.store[k2] = nv
				}
			}
		}
		e.store(st, fr, lx, nv)
		return []*Term{n}
	case "panic":
		v := e.eval(st, fr, c.Args[0])
		e.effect(st, &Effect{Kind: "panic", Args: []*Term{v}, Pos: c.Pos()})
		return nil
	case "min", "max":
		v := e.eval(st, fr, c.Args[0])
		for _, a := range c.Args[1:] {
			w := e.eval(st, fr, a)
			if v.Sort != SInt {
				e.fail(c.Pos(), "min/max of non-int")
			}
			if name == "min" {
				v = Ite(Lt(w, v), w, v)
			} else {
				v = Ite(Gt(w, v), w, v)
			}
		}
		return []*Term{v}
	case "delete":
		m := e.eval(st, fr, c.Args[0])
		k := e.eval(st, fr, c.Args[1])
		cc := e.mapContents(st, m)
		key := fmt.Sprintf("m:%d", m.id)
		if _, ok := e.kdef[key]; !ok {
			e.kdef[key] = m
		}
		e.effect(st, &Effect{Kind: "mapdelete", Args: []*Term{m, k}, Pos: c.Pos()})
		st.store[key] = app("mdel", SOther, cc, k)
		return nil
	}
	e.fail(c.Pos(), "unsupported builtin %s", name)
	return nil
}

func sortedKeys[V any](m map[string]V) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// T is the type of an expression with the type parameters of the instance that
// is being evaluated replaced.
func (e *Engine) T(fr *Frame, x ast.Expr) types.Type {
	return substT(fr.pkg.Info.TypeOf(x), fr.tp)
}

// instOf: the type arguments of a call of a generic function.
func instOf(fr *Frame, fun ast.Expr, fn *types.Func) map[*types.TypeParam]types.Type {
	var id *ast.Ident
	var recvT types.Type
	switch f := fun.(type) {
	case *ast.Ident:
		id = f
	case *ast.SelectorExpr:
		id = f.Sel
		if fr.pkg.Info.Selections[f] != nil {
			recvT = fr.pkg.Info.TypeOf(f.X)
		}
	}
	sig := fn.Origin().Type().(*types.Signature)
	m := map[*types.TypeParam]types.Type{}
	if id != nil && sig.TypeParams() != nil {
		if in, ok := fr.pkg.Info.Instances[id]; ok {
			for i := 0; i < sig.TypeParams().Len() && i < in.TypeArgs.Len(); i++ {
				m[sig.TypeParams().At(i)] = substT(in.TypeArgs.At(i), fr.tp)
			}
		}
	}
	if recvT != nil && sig.RecvTypeParams() != nil {
		if n := recvNamed(recvT); n != nil && n.TypeArgs() != nil {
			for i := 0; i < sig.RecvTypeParams().Len() && i < n.TypeArgs().Len(); i++ {
				m[sig.RecvTypeParams().At(i)] = substT(n.TypeArgs().At(i), fr.tp)
			}
		}
	}
	if len(m) == 0 {
		return nil
	}
	return m
}

func substT(t types.Type, m map[*types.TypeParam]types.Type) types.Type {
	if len(m) == 0 || t == nil {
		return t
	}
	switch u := t.(type) {
	case *types.TypeParam:
		if r, ok := m[u]; ok {
			return r
		}
	case *types.Slice:
		if x := substT(u.Elem(), m); x != u.Elem() {
			return types.NewSlice(x)
		}
	case *types.Array:
		if x := substT(u.Elem(), m); x != u.Elem() {
			return types.NewArray(x, u.Len())
		}
	case *types.Pointer:
		if x := substT(u.Elem(), m); x != u.Elem() {
			return types.NewPointer(x)
		}
	case *types.Map:
		k, v := substT(u.Key(), m), substT(u.Elem(), m)
		if k != u.Key() || v != u.Elem() {
			return types.NewMap(k, v)
		}
	case *types.Tuple:
		var vs []*types.Var
		ch := false
		for i := 0; i < u.Len(); i++ {
			v := u.At(i)
			if x := substT(v.Type(), m); x != v.Type() {
				v = types.NewVar(v.Pos(), v.Pkg(), v.Name(), x)
				ch = true
			}
			vs = append(vs, v)
		}
		if ch {
			return types.NewTuple(vs...)
		}
	case *types.Signature:
		p, r := substT(u.Params(), m), substT(u.Results(), m)
		if p != types.Type(u.Params()) || r != types.Type(u.Results()) {
			return types.NewSignatureType(nil, nil, nil, p.(*types.Tuple), r.(*types.Tuple), u.Variadic())
		}
	case *types.Named:
		if ta := u.TypeArgs(); ta != nil {
			var as []types.Type
			ch := false
			for i := 0; i < ta.Len(); i++ {
				x := substT(ta.At(i), m)
				ch = ch || x != ta.At(i)
				as = append(as, x)
			}
			if ch {
				if r, err := types.Instantiate(nil, u.Origin(), as, false); err == nil {
					return r
				}
			}
		}
	}
	return t
}
