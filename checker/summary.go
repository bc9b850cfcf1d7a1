package main

// Function summaries. A function of the module that only computes (no effect,
// no store, no possible fault, every loop bounded) from scalar arguments, the
// scalar and slice fields of its pointer arguments and constant tables is
// evaluated once on symbolic inputs; calls of it become applications fn:f(inputs)
// whose definition is put back on demand and which fold on constant inputs.

import (
	"fmt"
	"go/types"
	"strings"
)

type sumField struct {
	param int // index into inputs: receiver first
	name  string
	typ   types.Type
	load  *Term
}

type fnSum struct {
	fn     *types.Func
	name   string
	params []*Term // symbolic parameter, nil when specialised to a ground argument
	scalar []int   // which parameters are inputs
	fields []sumField
	defs   []*Term
	ins    []*Term // the input symbols, in the order of the application's arguments
	run    *Run
	why    string
}

var sumReg = map[string]*fnSum{}   // application name without result number
var sumCache = map[string]*fnSum{} // by function and ground arguments

func groundArg(t *Term) bool {
	if t == Nil {
		return true
	}
	switch t.Op {
	case OpInt, OpStr, OpBool:
		return true
	case OpSym:
		return false
	case OpApp:
		if strings.HasPrefix(t.S, "gvar:") {
			return constList(t) != nil || isConstMap(t)
		}
		if t.S == "list" || strings.HasPrefix(t.S, "struct:") {
			for _, a := range t.Args {
				if !groundArg(a) {
					return false
				}
			}
			return true
		}
	}
	return false
}

func isConstMap(t *Term) bool {
	if constMapHook == nil {
		return false
	}
	_, _, ok := constMapHook(t)
	return ok
}

func (e *Engine) summarise(fn *types.Func, recv *Term, args []*Term, inst map[*types.TypeParam]types.Type) *fnSum {
	all := args
	if recv != nil {
		all = append([]*Term{recv}, args...)
	}
	key := fmt.Sprintf("%d:%s", e.sumCfg, fn.FullName())
	for _, t := range inst {
		key += "|" + types.TypeString(t, nil)
	}
	sig := fn.Type().(*types.Signature)
	var ptypes []types.Type
	if sig.Recv() != nil {
		ptypes = append(ptypes, sig.Recv().Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ptypes = append(ptypes, sig.Params().At(i).Type())
	}
	if len(ptypes) != len(all) || sig.Results().Len() == 0 {
		return nil
	}
	for i := 0; i < sig.Results().Len(); i++ {
		switch sortOf(sig.Results().At(i).Type()) {
		case SInt, SBool:
		default:
			return nil
		}
	}
	kind := make([]int, len(all)) // 0 scalar, 1 pointer, 2 ground
	for i, a := range all {
		t := substT(ptypes[i], inst)
		_, isPtr := t.Underlying().(*types.Pointer)
		switch {
		case isPtr:
			kind[i] = 1
		case a.Sort == SInt || a.Sort == SBool || (a.Sort == SStr && e.sumStrings):
			if b, ok := t.Underlying().(*types.Basic); !ok || b.Info()&(types.IsInteger|types.IsBoolean|types.IsString) == 0 {
				return nil
			}
		case groundArg(a):
			kind[i] = 2
			key += fmt.Sprintf("|%d=%d", i, a.id)
		default:
			return nil
		}
	}
	if s, ok := sumCache[key]; ok {
		if s.name == "" {
			return nil
		}
		return s
	}
	s := &fnSum{fn: fn}
	sumCache[key] = s // recursive calls see an unusable summary
	ne := NewEngine(e.pr)
	ne.Opaque = e.Opaque
	ne.AutoSum, ne.sumCfg, ne.sumStrings = true, e.sumCfg, e.sumStrings
	ne.RetRange = e.RetRange
	pre, ps := ne.symArgs(fn)
	syms := ps
	if pre != nil {
		syms = append([]*Term{pre}, ps...)
	}
	var r *Run
	func() {
		r = &Run{E: ne, Fn: fn}
		defer func() {
			if x := recover(); x != nil {
				if u, ok := x.(unsupported); ok {
					r.Err = u.msg
				} else {
					r.Err = fmt.Sprint(x)
				}
			}
		}()
		in := make([]*Term, len(syms))
		for i := range syms {
			in[i] = syms[i]
			if kind[i] == 2 {
				in[i] = all[i]
			}
		}
		r.St = &State{store: map[string]*Term{}}
		r.Recv, r.Args = pre, ps
		ca := in
		var rc *Term
		if recv != nil {
			rc, ca = in[0], in[1:]
		}
		ne.inst = inst
		r.Vals, r.Rets = ne.Call(r.St, fn, rc, append([]*Term{}, ca...), "", fn.Pos(), 0)
	}()
	s.run = r
	defer func() {
	}()
	if r.Err != "" {
		s.why = r.Err
		return nil
	}
	bad := ""
	eachEffect(ne.effects, func(ef *Effect, in []*Effect) {
		if ef.Kind != "loop" {
			bad = "effect " + ef.Kind
		}
	})
	for k := range r.St.store {
		if heapKey(k) {
			o := keyOwner(k)
			if o == nil || !isFresh(o) {
				bad = "store " + k
			}
		}
	}
	for _, st := range ne.sites {
		if !st.OK && !ProveDeep(st.PC, st.Goal) {
			bad = "site"
		} else {
			st.OK = true
		}
	}
	for _, l := range ne.lorder {
		if l.Rank == "" {
			bad = "loop"
		}
	}
	if bad != "" {
		s.why = bad
		return nil
	}
	isParam := map[*Term]int{}
	for i, p := range syms {
		isParam[p] = i
	}
	tables := false
	fields := map[*Term]*sumField{}
	size := 0
	for i := range r.Vals {
		v := Expand(r.Vals[i])
		var walk func(x *Term, seen map[*Term]bool)
		walk = func(x *Term, seen map[*Term]bool) {
			if seen[x] {
				return
			}
			seen[x] = true
			size++
			if x.Op == OpApp {
				if strings.HasPrefix(x.S, "field:") && len(x.Args) == 1 {
					if pi, ok := isParam[x.Args[0]]; ok && kind[pi] == 1 {
						if x.Sort != SInt && x.Sort != SBool && x.Sort != SList {
							bad = "field sort"
						}
						if fields[x] == nil {
							fields[x] = &sumField{param: pi, name: x.S[6:], load: x}
						}
						return
					}
				}
				if strings.HasPrefix(x.S, "gvar:") {
					if constList(x) == nil && !isConstMap(x) {
						bad = "variable " + x.S
					}
					tables = true
				}
				if strings.HasPrefix(x.S, "fn:") {
					tables = true
				}
				for _, p := range []string{"h:", "x:", "exit:", "k:", "maybe:", "call:", "mcall:"} {
					if strings.HasPrefix(x.S, p) {
						bad = "unsolved " + x.S
					}
				}
			}
			if pi, ok := isParam[x]; ok && kind[pi] == 1 {
				bad = "pointer"
			}
			for _, a := range x.Args {
				walk(a, seen)
			}
			for _, m := range x.Lin {
				for _, a := range m.At {
					walk(a, seen)
				}
			}
		}
		walk(v, map[*Term]bool{})
		s.defs = append(s.defs, v)
	}
	if bad != "" || (!tables && size < 60) {
		s.why = bad
		return nil
	}
	for i, p := range syms {
		if kind[i] == 0 {
			s.scalar = append(s.scalar, i)
			s.ins = append(s.ins, p)
		}
	}
	fk := map[string]*sumField{}
	for _, f := range fields {
		fk[fmt.Sprintf("%d.%s", f.param, f.name)] = f
	}
	for _, k := range sortedKeys(fk) {
		f := fk[k]
		f.typ = fieldType(ptypes[f.param], f.name)
		if f.typ == nil {
			s.why = "field type"
			return nil
		}
		s.fields = append(s.fields, *f)
		s.ins = append(s.ins, f.load)
	}
	name := "fn:" + shortName(fn)
	for n, base := 1, name; sumReg[name] != nil; n++ {
		name = fmt.Sprintf("%s~%d", base, n)
	}
	s.name = name
	sumReg[name] = s
	return s
}

func fieldType(t types.Type, f string) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == f {
			return s.Field(i).Type()
		}
	}
	return nil
}

func (e *Engine) useSummary(st *State, s *fnSum, recv *Term, args []*Term, sig *types.Signature) []*Term {
	all := args
	if recv != nil {
		all = append([]*Term{recv}, args...)
	}
	var in []*Term
	for _, i := range s.scalar {
		in = append(in, all[i])
	}
	for _, f := range s.fields {
		v := e.loadField(st, all[f.param], f.name, f.typ)
		if v.Sort == SList {
			v = e.contents(st, v)
		}
		in = append(in, v)
	}
	if e.log {
		e.sums[s] = true
	}
	var r []*Term
	for i := range s.defs {
		r = append(r, mk(fmt.Sprintf("%s#%d", s.name, i), s.defs[i].Sort, nil, in...))
	}
	return r
}

func sumOfApp(name string) (*fnSum, int) {
	i := strings.LastIndexByte(name, '#')
	if i < 0 {
		return nil, 0
	}
	s := sumReg[name[:i]]
	if s == nil {
		return nil, 0
	}
	n := 0
	fmt.Sscanf(name[i+1:], "%d", &n)
	return s, n
}

func mkFn(name string, srt Sort, a []*Term) *Term {
	s, n := sumOfApp(name)
	ground := s != nil
	for _, x := range a {
		if !groundArg(x) {
			ground = false
		}
	}
	if ground {
		return s.unfold(n, a)
	}
	t := appObj(name, srt, nil, a...)
	if s != nil && srt == SInt && t.lo == nil && t.hi == nil {
		t.lo, t.hi = leafRange(s.defs[n])
	}
	return t
}

func (s *fnSum) unfold(n int, a []*Term) *Term {
	m := map[*Term]*Term{}
	for i := range s.ins {
		m[s.ins[i]] = a[i]
	}
	return Subst(s.defs[n], m)
}

// Unfold puts the definitions of all summarised functions back, as deep as they go.
func Unfold(t *Term) *Term {
	for i := 0; i < 30; i++ {
		m := map[*Term]*Term{}
		Walk(t, func(x *Term) {
			if x.Op == OpApp && strings.HasPrefix(x.S, "fn:") {
				if s, n := sumOfApp(x.S); s != nil && !boundFree(x) {
					m[x] = s.unfold(n, x.Args)
				}
			}
		})
		if len(m) == 0 {
			return t
		}
		t = Subst(t, m)
	}
	return t
}

// leafRange bounds the values of a gated integer over constants and constant tables.
func leafRange(t *Term) (lo, hi *int64) {
	lo, hi = rng(t)
	if lo != nil && hi != nil && *hi-*lo < 1<<20 {
		return
	}
	union := func(al, ah, bl, bh *int64) (*int64, *int64) {
		if al == nil || bl == nil || ah == nil || bh == nil {
			return nil, nil
		}
		return i64p(min(*al, *bl)), i64p(max(*ah, *bh))
	}
	switch {
	case t.Op == OpIte:
		al, ah := leafRange(t.Args[1])
		bl, bh := leafRange(t.Args[2])
		return union(al, ah, bl, bh)
	case t.Op == OpApp && t.S == "index" && t.Args[1].Op == OpInt:
		var els []*Term
		b := t.Args[0]
		if b.Op == OpApp && b.S == "index" {
			els = constList(b.Args[0])
		} else if b.Op == OpApp && b.S == "mget" && constMapHook != nil {
			_, els, _ = constMapHook(b.Args[0])
			els = append(append([]*Term{}, els...), Nil)
		}
		if len(els) == 0 {
			return
		}
		var l, h *int64
		for _, el := range els {
			x := Int(0)
			if el != Nil {
				x = Index(el, t.Args[1])
			}
			if x.Op != OpInt {
				return
			}
			if l == nil {
				l, h = i64p(x.N), i64p(x.N)
			} else {
				l, h = union(l, h, i64p(x.N), i64p(x.N))
			}
		}
		return l, h
	}
	return
}
