package main

// Loop summarisation: induction variables and recurrences are solved to closed
// forms in the iteration number; what cannot be solved stays an opaque function
// of the iteration number with inductively checked invariants.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

type LoopExit struct {
	Kind  string // header, break, return, jump
	Guard *Term  // in terms of K, relative to a running iteration (for header: negated condition)
	Gate  *Term  // condition, after the loop, that this exit was taken
	Pos   token.Pos
	Facts Facts
}

type LoopRec struct {
	ID      string
	Pos     token.Pos
	Fn      string
	K       *Term
	T       *Term // trip count when the loop condition alone decides it
	X       *Term // iteration at which the loop is left
	Cond    *Term
	Keys    []string
	Init    map[string]*Term
	Hsym    map[string]*Term // opaque header symbol
	Head    map[string]*Term // value at iteration K (closed form or symbol)
	Back    map[string]*Term // value at the end of iteration K
	Solved  map[string]bool
	Exits   []*LoopExit
	Inv     Facts
	EntryPC Facts
	Body    Facts // facts at the start of the body
	BackF   Facts
	Rank    string // termination argument, "" if none was found
	Search  *SearchInfo
	NoBack  bool
}

func (r *LoopRec) isHsym(x *Term) bool {
	for _, h := range r.Hsym {
		if h == x {
			return true
		}
	}
	return false
}

type axiom struct {
	formals []*Term
	forms   []*Term
}

// symAxioms: facts about the opaque symbols a loop introduces, by symbol name.
var symAxioms = map[string]*axiom{}

func loopK(id string) *Term {
	t := Sym("k:"+id, SInt)
	t.lo = i64p(0)
	return t
}

// loopBody abstracts over the two loop forms.
type loopBody struct {
	node  ast.Node
	label string
	// head evaluates the loop condition in the given header state and returns
	// it; the state may be changed by side effects of the condition.
	head func(st *State, k *Term) *Term
	// body runs the body (and post statement) and returns the back-edge states.
	body func(st *State, k *Term) []*State
}

type passResult struct {
	cond   *Term
	hs     *State // after evaluating the condition
	back   *State
	breaks []*State
	rets   []Ret
	jumps  []jump
	base   int
}

type jump struct {
	lc   *loopCtx
	cont bool
	st   *State
}

func keyIterLocal(e *Engine, key string, k *Term) bool {
	if len(key) < 3 || key[0] == 'v' || key[0] == 'g' {
		return false
	}
	var id int
	fmt.Sscanf(key[2:], "%d", &id)
	return Contains(allTerms[id], k)
}

func (e *Engine) loopPass(st0 *State, fr *Frame, lb *loopBody, k *Term, head map[string]*Term, inv Facts) passResult {
	st := st0.clone()
	for key, v := range head {
		st.store[key] = v
	}
	st.pc = append(st.pc, inv...)
	savedKs := e.ks
	e.ks = append(append([]*Term{}, e.ks...), k)
	defer func() { e.ks = savedKs }()
	nr := len(fr.rets)
	type lens struct{ b, c int }
	var outer []lens
	for _, l := range fr.loops {
		outer = append(outer, lens{len(l.breaks), len(l.conts)})
	}
	lc := &loopCtx{label: lb.label}
	pre := st.clone()
	c := lb.head(st, k)
	c = e.decide(st, c)
	res := passResult{cond: c}
	for key, v := range st.store {
		if pre.store[key] != v && c != True && c != False && v.Op != OpBool {
			st.store[key] = v
		}
	}
	res.hs = st.clone()
	bs := st.clone()
	if c != True {
		if c != False {
			for key, v := range bs.store {
				if pre.store[key] != v {
					bs.store[key] = assume(v, c, true)
				}
			}
			for key, v := range res.hs.store {
				if pre.store[key] != v {
					res.hs.store[key] = assume(v, c, false)
				}
			}
		}
		bs.pc = append(bs.pc, c)
	}
	res.base = len(bs.pc)
	if c != False {
		fr.loops = append(fr.loops, lc)
		basepc := append(Facts{}, bs.pc...)
		ends := lb.body(bs, k)
		fr.loops = fr.loops[:len(fr.loops)-1]
		_ = basepc
		res.back = nil
		var live []*State
		for _, s := range ends {
			if s != nil {
				live = append(live, s)
			}
		}
		if len(live) > 0 {
			res.back = e.join(basepc, live)
		}
	}
	res.breaks = lc.breaks
	res.rets = append([]Ret{}, fr.rets[nr:]...)
	fr.rets = fr.rets[:nr]
	for i, l := range fr.loops {
		for _, s := range l.breaks[outer[i].b:] {
			res.jumps = append(res.jumps, jump{l, false, s})
		}
		for _, s := range l.conts[outer[i].c:] {
			res.jumps = append(res.jumps, jump{l, true, s})
		}
		l.breaks = l.breaks[:outer[i].b]
		l.conts = l.conts[:outer[i].c]
	}
	return res
}

func (e *Engine) initOf(st *State, key string) *Term {
	if v, ok := st.store[key]; ok {
		return v
	}
	return e.kdef[key]
}

// headerSym makes the opaque value of key at iteration k.
func (e *Engine) headerSym(id, key string, init *Term, k *Term) *Term {
	args := append([]*Term{k}, e.ks...)
	srt := init.Sort
	gt := e.ktype[key]
	if gt != nil && init == Nil {
		srt = sortOf(gt)
	}
	if l := e.hlen[id+":"+key]; l != nil {
		args = append(args, app("lenis", SInt, l))
	}
	t := app("h:"+id+":"+key, srt, args...)
	if gt != nil {
		typed(t, gt)
	}
	if strings.HasPrefix(key, "e:") || init.Sort == SList {
		setElemSort(t, elemSort(init))
	}
	if strings.HasPrefix(key, "o:") {
		t.lo = i64p(0)
	}
	return t
}

// keepLengths finds the lists whose length no iteration changes; their header
// symbols then carry the length they had on entry.
func (e *Engine) keepLengths(rec *LoopRec, res passResult, id string) bool {
	found := false
	if res.back == nil {
		return false
	}
	for _, key := range rec.Keys {
		init := rec.Init[key]
		b := res.back.store[key]
		if b == nil || init.Sort != SList || b.Sort != SList || init == Nil {
			continue
		}
		h := e.headerSym(id, key, init, rec.K)
		lh, l0, lb := Len(h), Len(init), Len(b)
		if lh == l0 || !Contains(lb, lh) || !Prove(res.back.pc, Eq(Subst1(lb, lh, l0), l0)) {
			continue
		}
		if e.hlen == nil {
			e.hlen = map[string]*Term{}
		}
		e.hlen[id+":"+key] = l0
		found = true
	}
	return found
}

// dropStale forgets variables of the loop body left over from an earlier,
// separately analysed execution of the same loop.
func dropStale(st *State, fr *Frame, lb *loopBody) {
	var body *ast.BlockStmt
	switch n := lb.node.(type) {
	case *ast.ForStmt:
		body = n.Body
	case *ast.RangeStmt:
		body = n.Body
	}
	if body == nil {
		return
	}
	pre := "v:" + fr.path
	for key := range st.store {
		if !strings.HasPrefix(key, pre) || len(key) <= len(pre) {
			continue
		}
		rest := key[len(pre):]
		at := -1
		switch rest[0] {
		case '|':
			at = strings.LastIndexByte(rest, '@')
		case '/':
			at = strings.IndexByte(rest, '@')
		}
		if at < 0 {
			continue
		}
		var p int
		if n, _ := fmt.Sscanf(rest[at+1:], "%d", &p); n == 1 && token.Pos(p) > body.Pos() && token.Pos(p) < body.End() {
			delete(st.store, key)
		}
	}
}

func (e *Engine) runLoop(st *State, fr *Frame, lb *loopBody) *State {
	dropStale(st, fr, lb)
	e.nameState(st)
	id := fmt.Sprintf("%s@%d", fr.path, lb.node.Pos())
	for _, k := range e.ks {
		if k.Op == OpInt { // inside an unrolled loop
			id += fmt.Sprintf("#%d", k.N)
		}
	}
	k := loopK(id)
	savedLog := e.log
	rec := &LoopRec{ID: id, Pos: lb.node.Pos(), Fn: fr.path, K: k, Init: map[string]*Term{}, Hsym: map[string]*Term{},
		Head: map[string]*Term{}, Back: map[string]*Term{}, Solved: map[string]bool{}}
	rec.EntryPC = append(Facts{}, st.pc...)

	// 1. which locations does an iteration change?
	e.log = false
	mod := map[string]bool{}
	var res passResult
	// slices that share an array: written through one, changed in all
	peers := map[string]string{}
	pass := func(head map[string]*Term, facts Facts) passResult {
		for p, rep := range peers {
			if h, ok := head[rep]; ok {
				head[p] = h
			}
		}
		r := e.loopPass(st, fr, lb, k, head, facts)
		for p, rep := range peers {
			if r.back != nil && r.back.store[p] != r.back.store[rep] {
				e.fail(lb.node.Pos(), "slices that share an array go different ways")
			}
		}
		return r
	}
	for iter := 0; ; iter++ {
		if iter > 12 {
			e.fail(lb.node.Pos(), "loop state does not stabilise")
		}
		head := map[string]*Term{}
		for key := range mod {
			head[key] = e.headerSym(id, key, rec.Init[key], k)
		}
		res = pass(head, nil)
		grown := false
		if res.back != nil {
			for key, v := range res.back.store {
				if _, peer := peers[key]; peer || mod[key] {
					continue
				}
				old, ok := st.store[key]
				if !ok {
					if key[0] == 'v' || keyIterLocal(e, key, k) {
						continue
					}
					old = e.kdef[key]
					if old == nil {
						continue
					}
				}
				if old != v {
					mod[key] = true
					rec.Init[key] = old
					grown = true
				}
			}
		}
		if iter == 0 {
			for _, x := range sortedKeys(mod) {
				for _, y := range sortedKeys(mod) {
					if _, peer := peers[y]; peer || !mod[y] {
						continue
					}
					if i := rec.Init[x]; x < y && mod[x] && x[0] == 'v' && y[0] == 'v' && i == rec.Init[y] && i.Sort == SList && i.S != "nil" && !hasOpaqueBase(i) && res.back.store[x] == res.back.store[y] && !isAppend(res.back.store[x], i) {
						peers[y] = x
						delete(mod, y)
						delete(rec.Init, y)
					}
				}
			}
		}
		if !grown {
			break
		}
	}
	rec.Keys = sortedKeys(mod)
	if e.keepLengths(rec, res, id) {
		defer func() {
			for _, key := range rec.Keys {
				delete(e.hlen, id+":"+key)
			}
		}()
		head := map[string]*Term{}
		for _, key := range rec.Keys {
			head[key] = e.headerSym(id, key, rec.Init[key], k)
		}
		r2 := pass(head, nil)
		same := r2.back != nil
		if same {
			for _, key := range rec.Keys {
				if l := e.hlen[id+":"+key]; l != nil {
					b, ok := r2.back.store[key]
					if ok && !Prove(r2.back.pc, Eq(Len(b), l)) {
						same = false
					}
				}
			}
			for key, v := range r2.back.store {
				if !mod[key] && key[0] != 'v' && !keyIterLocal(e, key, k) {
					if old := e.initOf(st, key); old != nil && old != v {
						same = false
					}
				}
			}
		}
		if same {
			res = r2
		} else {
			for _, key := range rec.Keys {
				delete(e.hlen, id+":"+key)
			}
		}
	}
	for _, key := range rec.Keys {
		rec.Hsym[key] = e.headerSym(id, key, rec.Init[key], k)
	}
	if res.back == nil {
		// at most one iteration: straight-line code
		e.log = savedLog
		return e.onceLoop(st, fr, lb, rec)
	}

	// 2. recurrences
	inv := Facts{}
	closed := map[string]bool{} // locations already replaced by their closed form
	for round := 0; round < 3; round++ {
		for _, key := range rec.Keys {
			if closed[key] {
				continue
			}
			if v, ok := res.back.store[key]; ok {
				rec.Back[key] = Simp1(res.back.pc, v)
			} else {
				rec.Back[key] = rec.Hsym[key]
			}
		}
		e.solve(rec, res.back.pc)
		inv = e.houdini(rec, st.pc, res)
		head := map[string]*Term{}
		for _, key := range rec.Keys {
			head[key] = rec.Head[key]
		}
		if round == 2 {
			break
		}
		// with closed forms and invariants known, the body may simplify
		allSolved := true
		for _, key := range rec.Keys {
			if !rec.Solved[key] {
				allSolved = false
			}
		}
		for _, key := range rec.Keys {
			if Find(rec.Back[key], func(x *Term) bool {
				return x.Op == OpApp && (strings.HasPrefix(x.S, "x:") || strings.HasPrefix(x.S, "h:") && x.S != rec.Hsym[key].S && !rec.isHsym(x) || strings.HasPrefix(x.S, "wrap"))
			}) != nil {
				allSolved = false
			}
		}
		if allSolved {
			break
		}
		mixed := map[string]*Term{}
		for _, key := range rec.Keys {
			mixed[key] = rec.Hsym[key]
		}
		if round == 1 {
			// a list still depends on an inner loop that found no closed form
			// for an arbitrary value of this loop's counters: try their closed forms
			stuck := false
			for _, key := range rec.Keys {
				if rec.Hsym[key].Sort == SList && Find(rec.Back[key], func(x *Term) bool {
					return x.Op == OpApp && strings.HasPrefix(x.S, "h:") && !rec.isHsym(x)
				}) != nil {
					stuck = true
				}
			}
			if !stuck {
				break
			}
			for _, key := range rec.Keys {
				if rec.Solved[key] && rec.Hsym[key].Sort == SInt && affineIn(rec.Head[key], k) {
					closed[key] = true
					mixed[key] = rec.Head[key]
				}
			}
			if len(closed) == 0 {
				break
			}
		}
		var eqs Facts
		for _, key := range rec.Keys {
			if rec.Solved[key] && rec.Hsym[key].Sort == SInt {
				eqs = append(eqs, Eq(rec.Hsym[key], rec.Head[key]))
			}
		}
		r2 := pass(mixed, append(append(Facts{}, inv...), eqs...))
		if r2.back == nil {
			break
		}
		// the same locations must still be the only ones that change
		ok := true
		for key, v := range r2.back.store {
			if !mod[key] && key[0] != 'v' && !keyIterLocal(e, key, k) {
				if old := e.initOf(st, key); old != nil && old != v {
					ok = false
				}
			}
		}
		if !ok {
			break
		}
		res = r2
	}
	rec.Inv = inv

	// 3. logged pass with the closed forms
	head := map[string]*Term{}
	for _, key := range rec.Keys {
		head[key] = rec.Head[key]
	}
	invK := Facts{}
	for _, f := range inv {
		invK = append(invK, e.closeTerm(rec, f))
	}
	// trip count from the loop condition
	probe := pass(head, invK)
	rec.Cond = probe.cond
	rec.T = e.tripCount(st.pc, rec, probe)
	e.log = savedLog
	if rec.T != nil && rec.T.Op == OpInt && rec.T.N <= unrollMax && len(probe.hs.pc) >= 0 {
		if out, ok := e.unroll(st, fr, lb, int(rec.T.N)); ok {
			return out
		}
	}
	// a loop that also ends early, but after a few iterations at the latest
	if rec.T == nil || rec.T.Op != OpInt {
		for n := int64(0); n <= unrollMax; n++ {
			for _, c := range conjuncts(probe.cond) {
				if Contains(c, k) && Subst1(c, k, Int(n)) == False {
					out, _ := e.unroll(st, fr, lb, int(n))
					return out
				}
			}
		}
	}
	savedEff := e.effects
	e.effects = nil
	invB := append(Facts{}, invK...)
	if rec.T != nil {
		invB = append(invB, Lt(k, rec.T))
	}
	fin := pass(head, invB)
	body := e.effects
	e.effects = savedEff
	bodyFacts := append(Facts{}, fin.hs.pc...)
	if fin.cond != True {
		bodyFacts = append(bodyFacts, fin.cond)
	}
	rec.Body = bodyFacts
	// at the header the loop may also be about to end
	fin.cond, fin.hs = probe.cond, probe.hs
	if fin.back != nil {
		rec.BackF = fin.back.pc
	} else {
		rec.NoBack = true
		rec.BackF = Facts{False}
	}
	e.termination(rec, st.pc, res)

	// 4. exits
	out := e.exits(st, fr, rec, fin, invK)
	if out != nil {
		for p, rep := range peers {
			if v, ok := out.store[rep]; ok {
				out.store[p] = v
			}
		}
	}
	if e.log {
		e.loops[id] = rec
		e.lorder = append(e.lorder, rec)
		ef := &Effect{Kind: "loop", Pos: lb.node.Pos(), Loop: rec, Body: body}
		ef.PC = append(Facts{}, st.pc...)
		e.effects = append(e.effects, ef)
	}
	return out
}

// isAppend: the list is the old one with something appended, so that both stay apart.
func isAppend(v, old *Term) bool {
	return v.Op == OpApp && v.S == "cat" && v.Args[0] == old
}

// Simp1 simplifies only when there is something to gain.
func Simp1(f Facts, t *Term) *Term {
	if Find(t, func(x *Term) bool {
		return x.Op == OpIte || (x.Op == OpApp && (strings.HasPrefix(x.S, "wrap:") || x.S == "wrapu"))
	}) == nil {
		return t
	}
	return Simp(f, t)
}

// onceLoop: no path reaches the end of the body, so at most one iteration runs.
func (e *Engine) onceLoop(st *State, fr *Frame, lb *loopBody, rec *LoopRec) *State {
	base := append(Facts{}, st.pc...)
	outs := e.iterate(st.clone(), fr, lb, 1)
	if e.log {
		rec.Rank = "at most one iteration"
		rec.NoBack = true
		e.lorder = append(e.lorder, rec)
	}
	return e.join(base, outs)
}

// iterate runs n concrete iterations and returns the states that leave the loop.
func (e *Engine) iterate(cur *State, fr *Frame, lb *loopBody, n int) []*State {
	var outs []*State
	for i := 0; i <= n && cur != nil; i++ {
		kk := Int(int64(i))
		lc := &loopCtx{label: lb.label}
		savedKs := e.ks
		e.ks = append(append([]*Term{}, e.ks...), kk)
		c := e.decide(cur, lb.head(cur, kk))
		if c != True {
			ex := cur.clone()
			if c != False {
				ex.pc = append(ex.pc, Not(c))
			}
			outs = append(outs, ex)
		}
		if c == False {
			e.ks = savedKs
			break
		}
		if i == n {
			// the caller guarantees this is unreachable
			e.ks = savedKs
			break
		}
		if c != True {
			cur.pc = append(cur.pc, c)
		}
		bpc := append(Facts{}, cur.pc...)
		fr.loops = append(fr.loops, lc)
		ends := lb.body(cur, kk)
		fr.loops = fr.loops[:len(fr.loops)-1]
		e.ks = savedKs
		outs = append(outs, lc.breaks...)
		var live []*State
		for _, s := range ends {
			if s != nil {
				live = append(live, s)
			}
		}
		if len(live) == 0 {
			cur = nil
			break
		}
		cur = e.join(bpc, live)
	}
	return outs
}

func (e *Engine) unroll(st *State, fr *Frame, lb *loopBody, n int) (*State, bool) {
	base := append(Facts{}, st.pc...)
	outs := e.iterate(st.clone(), fr, lb, n)
	return e.join(base, outs), true
}

// ------------------------------------------------------------- statements

func (e *Engine) forStmt(st *State, fr *Frame, x *ast.ForStmt, label string) *State {
	saved := fr.env
	fr.env = &Env{parent: saved, vars: map[types.Object]string{}}
	defer func() { fr.env = saved }()
	if x.Init != nil {
		st = e.stmt(st, fr, x.Init, "")
	}
	lb := &loopBody{node: x, label: label}
	lb.head = func(s *State, k *Term) *Term {
		if x.Cond == nil {
			return True
		}
		return e.eval(s, fr, x.Cond)
	}
	lb.body = func(s *State, k *Term) []*State {
		lc := fr.loops[len(fr.loops)-1]
		base := append(Facts{}, s.pc...)
		end := e.block(s, fr, x.Body.List)
		ends := append([]*State{end}, lc.conts...)
		var live []*State
		for _, z := range ends {
			if z != nil {
				live = append(live, z)
			}
		}
		if len(live) == 0 {
			return nil
		}
		j := e.join(base, live)
		if x.Post != nil {
			j = e.stmt(j, fr, x.Post, "")
		}
		return []*State{j}
	}
	return e.runLoop(st, fr, lb)
}

func (e *Engine) rangeStmt(st *State, fr *Frame, x *ast.RangeStmt, label string) *State {
	info := fr.pkg.Info
	saved := fr.env
	fr.env = &Env{parent: saved, vars: map[types.Object]string{}}
	defer func() { fr.env = saved }()
	rx := e.eval(st, fr, x.X)
	rt := e.T(fr, x.X)
	u := rt.Underlying()
	if p, ok := u.(*types.Pointer); ok {
		u = p.Elem().Underlying()
	}
	hid := fmt.Sprintf("v:%s|range@%d", fr.path, x.Pos())
	set := func(s *State, lhs ast.Expr, v *Term) {
		if lhs == nil {
			return
		}
		if id, ok := lhs.(*ast.Ident); ok {
			if id.Name == "_" {
				return
			}
			if x.Tok == token.DEFINE {
				if o := info.Defs[id]; o != nil {
					e.declare(s, fr, o, v)
					return
				}
			}
		}
		e.store(s, fr, lhs, v)
	}
	var n *Term
	bind := func(s *State, k *Term) {}
	switch t := u.(type) {
	case *types.Slice, *types.Array:
		var et types.Type
		if sl, ok := t.(*types.Slice); ok {
			et = sl.Elem()
		} else {
			et = t.(*types.Array).Elem()
		}
		st.store[hid] = rx
		n = Len(e.contents(st, rx))
		bind = func(s *State, k *Term) {
			set(s, x.Key, k)
			if x.Value != nil {
				c := e.contents(s, s.store[hid])
				setElemSort(c, sortOf(et))
				v := typed(Index(c, k), et)
				if p, ok := et.Underlying().(*types.Pointer); ok && ptrTypes[v] == "" {
					ptrTypes[v] = types.TypeString(p.Elem(), nil)
				}
				set(s, x.Value, v)
			}
		}
	case *types.Basic:
		if t.Info()&types.IsString != 0 {
			rs := app("runes", SList, rx)
			setElemSort(rs, SInt)
			n = Len(rs)
			bind = func(s *State, k *Term) {
				off := app("runeoff", SInt, rx, k)
				off.lo = i64p(0)
				set(s, x.Key, off)
				if x.Value != nil {
					set(s, x.Value, runeTyped(Index(rs, k)))
				}
			}
		} else {
			n = Ite(Ge0(rx), rx, Int(0))
			if Prove(st.pc, Ge0(rx)) {
				n = rx
			}
			bind = func(s *State, k *Term) { set(s, x.Key, k) }
		}
	case *types.Map:
		c := e.mapContents(st, rx)
		m := app("maplen", SInt, c)
		m.lo = i64p(0)
		n = m
		if ks, vs, ok := constMapHook(c); ok {
			// a constant table: iterate over its entries as a list of pairs
			kl, vl := List(ks...), List(vs...)
			n = Int(int64(len(ks)))
			bind = func(s *State, k *Term) {
				set(s, x.Key, typed(Index(kl, k), t.Key()))
				set(s, x.Value, typed(Index(vl, k), t.Elem()))
			}
			break
		}
		bind = func(s *State, k *Term) {
			key := typed(app("mkey", sortOf(t.Key()), c, k), t.Key())
			set(s, x.Key, key)
			if x.Value != nil {
				set(s, x.Value, e.mapGet(e.mapContents(s, rx), key, t.Elem()))
			}
		}
	default:
		e.fail(x.Pos(), "unsupported range over %s", rt)
	}
	lb := &loopBody{node: x, label: label}
	lb.head = func(s *State, k *Term) *Term { return Lt(k, n) }
	lb.body = func(s *State, k *Term) []*State {
		lc := fr.loops[len(fr.loops)-1]
		bind(s, k)
		end := e.block(s, fr, x.Body.List)
		return append([]*State{end}, lc.conts...)
	}
	if n.Op == OpInt && n.N <= unrollMax {
		out, _ := e.unroll(st, fr, lb, int(n.N))
		return out
	}
	return e.runLoop(st, fr, lb)
}

func runeTyped(t *Term) *Term {
	if t.Op == OpApp && t.lo == nil {
		t.lo, t.hi = i64p(-1<<31), i64p(1<<31-1)
	}
	return t
}

// ------------------------------------------------------------ recurrences

// hasUnsolved: t mentions a header symbol of this loop that has no closed form.
func (e *Engine) hasUnsolved(rec *LoopRec, t *Term, except string) bool {
	pre := "h:" + rec.ID + ":"
	return Find(t, func(x *Term) bool {
		if x.Op != OpApp || !strings.HasPrefix(x.S, pre) {
			return false
		}
		key := x.S[len(pre):]
		return !rec.Solved[key] && key != except
	}) != nil
}

func (e *Engine) mentions(rec *LoopRec, t *Term, key string) bool {
	n := "h:" + rec.ID + ":" + key
	return Find(t, func(x *Term) bool { return x.Op == OpApp && x.S == n }) != nil
}

// closeTerm replaces solved header symbols by their closed forms.
func (e *Engine) closeTerm(rec *LoopRec, t *Term) *Term {
	pre := "h:" + rec.ID + ":"
	for i := 0; i < 6; i++ {
		m := map[*Term]*Term{}
		Walk(t, func(x *Term) {
			if x.Op == OpApp && strings.HasPrefix(x.S, pre) {
				key := x.S[len(pre):]
				if rec.Solved[key] {
					c := rec.Head[key]
					if x.Args[0] != rec.K {
						c = Subst1(c, rec.K, x.Args[0])
					}
					if c != x {
						m[x] = c
					}
				}
			}
		})
		if len(m) == 0 {
			return t
		}
		t = Subst(t, m)
	}
	return t
}

func (e *Engine) solve(rec *LoopRec, backF Facts) {
	rec.Solved = map[string]bool{}
	for _, key := range rec.Keys {
		rec.Head[key] = rec.Hsym[key]
	}
	for changed := true; changed; {
		changed = false
		for _, key := range rec.Keys {
			if rec.Solved[key] {
				continue
			}
			b := e.closeTerm(rec, rec.Back[key])
			if c := e.solveOne(rec, key, b, backF); c != nil {
				rec.Head[key] = c
				rec.Solved[key] = true
				changed = true
			}
		}
		if changed {
			continue
		}
		// copies of other locations
		for _, key := range rec.Keys {
			if rec.Solved[key] {
				continue
			}
			if c := e.uniform(rec, key); c != nil {
				rec.Head[key] = c
				rec.Solved[key] = true
				changed = true
				break
			}
		}
		if changed {
			continue
		}
		for _, key := range rec.Keys {
			if rec.Solved[key] {
				continue
			}
			b := e.closeTerm(rec, rec.Back[key])
			if !e.mentions(rec, b, key) && rec.Hsym[key].Sort != SBool {
				prev := Subst1(b, rec.K, Sub(rec.K, Int(1)))
				if e.mentionsCycle(rec, key, b) {
					continue
				}
				rec.Head[key] = Ite(Eq(rec.K, Int(0)), rec.Init[key], prev)
				rec.Solved[key] = true
				changed = true
				break
			}
		}
	}
	for _, key := range rec.Keys {
		if rec.Solved[key] {
			rec.Head[key] = e.closeTerm(rec, rec.Head[key])
		}
	}
}

// affineIn: t is a sum of terms free of k and of multiples of k.
func affineIn(t, k *Term) bool {
	_, ms := monos(t)
	for _, m := range ms {
		for _, a := range m.At {
			if a != k && Contains(a, k) {
				return false
			}
		}
	}
	return Find(t, func(x *Term) bool { return x.Op == OpApp && strings.HasPrefix(x.S, "h:") }) == nil
}

// mentionsCycle: closing key through b would make another location's recurrence
// mention key again at an earlier iteration.
func (e *Engine) mentionsCycle(rec *LoopRec, key string, b *Term) bool {
	seen := map[string]bool{}
	var rec2 func(t *Term) bool
	pre := "h:" + rec.ID + ":"
	rec2 = func(t *Term) bool {
		hit := false
		Walk(t, func(x *Term) {
			if hit || x.Op != OpApp || !strings.HasPrefix(x.S, pre) {
				return
			}
			k2 := x.S[len(pre):]
			if k2 == key {
				hit = true
				return
			}
			if !seen[k2] {
				seen[k2] = true
				if rec2(rec.Back[k2]) {
					hit = true
				}
			}
		})
		return hit
	}
	return rec2(b)
}

// uniform: key is the same function of another location at every iteration.
func (e *Engine) uniform(rec *LoopRec, key string) *Term {
	b := e.closeTerm(rec, rec.Back[key])
	if r := e.suffixOf(rec, key, b); r != nil {
		return r
	}
	for _, o := range rec.Keys {
		if o == key {
			continue
		}
		bo := e.closeTerm(rec, rec.Back[o])
		ho := rec.Hsym[o]
		if rec.Solved[o] {
			ho = rec.Head[o]
		}
		if bo == rec.Hsym[o] {
			continue
		}
		f := Fresh("$u", bo.Sort)
		t := substExpr(b, bo, f)
		if t == b || Contains(t, rec.K) || e.mentions(rec, t, key) || e.hasUnsolved(rec, t, "") {
			continue
		}
		if Subst1(t, f, rec.Init[o]) == rec.Init[key] {
			return Subst1(t, f, ho)
		}
	}
	return nil
}

// suffixOf: the text loses at its front what a position of the loop advances by,
// so it is always the part of the original text from that position on.
func (e *Engine) suffixOf(rec *LoopRec, key string, b *Term) *Term {
	h, init := rec.Hsym[key], rec.Init[key]
	if h.Sort != SStr || !isSliceOf(b, h) || b.Args[2] != Len(h) {
		return nil
	}
	s, from := init, Int(0)
	if init.Op == OpApp && init.S == "slice" && init.Args[2] == Len(init.Args[0]) {
		s, from = init.Args[0], init.Args[1]
	}
	for _, o := range rec.Keys {
		ho := rec.Hsym[o]
		if o == key || ho.Sort != SInt || rec.Solved[o] {
			continue
		}
		if Sub(e.closeTerm(rec, rec.Back[o]), ho) == b.Args[1] {
			return Slice(s, Add(ho, Sub(from, rec.Init[o])), Len(s))
		}
	}
	return nil
}

// substExpr replaces an expression by a symbol, also inside sums.
func substExpr(t, from, to *Term) *Term {
	if from.Op != OpLin {
		return Subst1(t, from, to)
	}
	// express one atom of the sum through the new symbol
	for _, m := range from.Lin {
		if len(m.At) == 1 && (m.C == 1 || m.C == -1) {
			a := m.At[0]
			if !Contains(t, a) {
				continue
			}
			// to = m.C*a + rest  =>  a = (to - rest)/m.C
			rest := Sub(from, Scale(m.C, a))
			r := Scale(m.C, Sub(to, rest))
			n := Subst1(t, a, r)
			// acceptable only if the other atoms of the sum vanished
			return n
		}
	}
	return t
}

// deltaCat: t = cat(h, L); nil if not of that shape.
func deltaCat(t, h *Term) *Term {
	if t == h {
		return List()
	}
	switch t.Op {
	case OpIte:
		a, b := deltaCat(t.Args[1], h), deltaCat(t.Args[2], h)
		if a == nil || b == nil {
			return nil
		}
		return Ite(t.Args[0], a, b)
	case OpApp:
		if t.S == "cat" && len(t.Args) > 1 {
			if t.Args[0] == h {
				return Cat(t.Args[1:]...)
			}
		}
	}
	return nil
}

func deltaConcat(t, h *Term) *Term {
	if t == h {
		return Str("")
	}
	switch t.Op {
	case OpIte:
		a, b := deltaConcat(t.Args[1], h), deltaConcat(t.Args[2], h)
		if a == nil || b == nil {
			return nil
		}
		return Ite(t.Args[0], a, b)
	case OpApp:
		if t.S == "concat" {
			if t.Args[0] == h {
				return Concat(t.Args[1:]...)
			}
			// a gated head: {c ? h+x : h}+y
			if t.Args[0].Op == OpIte {
				d := deltaConcat(t.Args[0], h)
				if d != nil {
					return Concat(append([]*Term{d}, t.Args[1:]...)...)
				}
			}
		}
	}
	return nil
}

func (e *Engine) solveOne(rec *LoopRec, key string, b *Term, backF Facts) *Term {
	h, k, init := rec.Hsym[key], rec.K, rec.Init[key]
	if b == h {
		return init
	}
	if e.hasUnsolved(rec, b, key) {
		return nil
	}
	j := func() *Term { return FreshNat("$j") }
	switch h.Sort {
	case SInt:
		if g := deltaInt(b, h); g != nil && b.Op != OpIte && !e.mentions(rec, g, key) && g != Sub(b, h) {
			v := j()
			return Add(init, Sum(k, v, Subst1(g, k, v)))
		}
		b = liftIte(b, h)
		d := Sub(b, h)
		// stepping from match to match of a regular expression
		if d.Op == OpApp && d.S == "restart" && init == Int(0) && d.Args[2] == Int(1) {
			if s := d.Args[1]; s.Op == OpApp && s.S == "slice" && s.Args[1] == h && s.Args[2] == Len(s.Args[0]) &&
				!e.mentions(rec, s.Args[0], key) && !Contains(s.Args[0], k) {
				return reStart(d.Args[0], s.Args[0], k)
			}
		}
		if !e.mentions(rec, d, key) {
			if !Contains(d, k) {
				return Add(init, Mul(d, k))
			}
			v := j()
			return Add(init, Sum(k, v, Subst1(d, k, v)))
		}
		if w := maxBody(b, h, init, backF); w != nil && !e.mentions(rec, w, key) {
			v := j()
			return MaxOf(k, v, Subst1(w, k, v), init)
		}
		// gated increment
		if b.Op == OpIte {
			if g := deltaInt(b, h); g != nil && !e.mentions(rec, g, key) {
				v := j()
				return Add(init, Sum(k, v, Subst1(g, k, v)))
			}
			// saturating sum
			if c := satSum(b, h, init, backF); c != nil && !e.mentions(rec, c[0], key) && !e.mentions(rec, c[1], key) && !Contains(c[1], k) {
				v := j()
				s := Add(init, Sum(k, v, Subst1(c[0], k, v)))
				return Ite(Gt(s, c[1]), c[1], s)
			}
		}
	case SList:
		if d := deltaCat(b, h); d != nil && !e.mentions(rec, d, key) {
			v := j()
			fl := Flat(k, v, Subst1(d, k, v))
			if init == Nil {
				// nothing appended leaves the slice nil
				return Ite(Ge(Len(fl), Int(1)), fl, Nil)
			}
			return Cat(init, fl)
		}
		if b.Op == OpApp && b.S == "update" && b.Args[0] == h {
			i, val := b.Args[1], b.Args[2]
			off := Sub(i, k)
			if !Contains(off, k) && !e.mentions(rec, off, key) {
				// reads of the same element see its original value
				val = Subst1(val, Index(h, i), Index(init, i))
				val = Subst1(val, Len(h), Len(init))
				if !e.mentions(rec, val, key) {
					v := j()
					vb := Subst1(val, k, v)
					if off == Int(0) {
						return Tab(k, v, vb, init)
					}
					return Cat(Slice(init, Int(0), off), Comp(k, v, vb), Slice(init, Add(off, k), Len(init)))
				}
			}
		}
		// the same elements changed in every iteration, each from its old value
		if r := e.solveBlock(rec, key, b, backF); r != nil {
			return r
		}
		// a block of C elements replaced per iteration
		if b.Op == OpApp && b.S == "cat" && len(b.Args) == 3 {
			p, l, s := b.Args[0], b.Args[1], b.Args[2]
			if l.Op == OpApp && l.S == "comp" && Contains(l, h) {
				// reads of the block see its original elements
				v := FreshNat("$v")
				at := Add(Mul(k, l.Args[0]), v)
				l = Comp(l.Args[0], v, Subst1(Inst(l, v), Index(h, at), Index(init, at)))
			}
			if isSliceOf(p, h) && isSliceOf(s, h) && p.Args[1] == Int(0) && !e.mentions(rec, l, key) {
				c := Len(l)
				if !Contains(c, k) && p.Args[2] == Mul(k, c) && s.Args[1] == Add(Mul(k, c), c) {
					v := j()
					return Cat(Flat(k, v, Subst1(l, k, v)), Slice(init, Mul(k, c), Len(init)))
				}
			}
		}
	case SStr:
		if isSliceOf(b, h) && b.Args[2] == Len(h) {
			if r := b.Args[1]; r.Op == OpApp && r.S == "restart" && r.Args[1] == h && r.Args[2] == Int(1) {
				return Slice(init, reStart(r.Args[0], init, k), Len(init))
			}
		}
		if d := deltaConcat(b, h); d != nil && !e.mentions(rec, d, key) {
			v := j()
			return Concat(init, SComp(k, v, Subst1(d, k, v)))
		}
	case SOther:
		if strings.HasPrefix(key, "m:") {
			if name, val := e.mapRaise(h, b, backF); name != nil && !e.mentions(rec, name, key) && !e.mentions(rec, val, key) {
				v := j()
				return MMax(k, v, Subst1(name, k, v), Subst1(val, k, v), init)
			}
		}
	case SBool:
		// h' = h | c   or   h' = h & c
		if c, ok := boolDelta(b, h, OpOr); ok && !e.mentions(rec, c, key) {
			v := j()
			return Or(init, Lt(First(k, v, Subst1(c, k, v)), k))
		}
		if c, ok := boolDelta(b, h, OpAnd); ok && !e.mentions(rec, c, key) {
			v := j()
			return And(init, Not(Lt(First(k, v, Subst1(Not(c), k, v)), k)))
		}
	}
	return nil
}

// divMono: t/n when n is a factor of every term of t.
func divMono(t, n *Term) *Term {
	if n == Int(1) {
		return t
	}
	c, ms := monos(t)
	if c != 0 || n.Op == OpInt || n.Op == OpLin {
		return nil
	}
	p := newPoly()
	for _, m := range ms {
		var rest []*Term
		hit := false
		for _, a := range m.At {
			if a == n && !hit {
				hit = true
			} else {
				rest = append(rest, a)
			}
		}
		if !hit {
			return nil
		}
		if len(rest) == 0 {
			p.c += m.C
		} else {
			p.addMono(m.C, rest)
		}
	}
	return p.build()
}

// solveScatter: every iteration raises the block of elements number k mod g, or
// k div g, of a list of zeros to at least given values.
func (e *Engine) solveScatter(rec *LoopRec, key string, from, n, v, el *Term, backF Facts) *Term {
	h, k, init := rec.Hsym[key], rec.K, rec.Init[key]
	if init.Op != OpApp || init.S != "make" || init.Args[1] != Int(0) {
		return nil
	}
	s, G := divMono(from, n), divMono(Len(init), n)
	if s == nil || G == nil {
		return nil
	}
	d := Find(s, func(x *Term) bool { return x.Op == OpApp && x.S == "div" && x.Args[0] == k })
	if d == nil {
		return nil
	}
	g := d.Args[1]
	if Contains(g, k) || e.mentions(rec, g, key) || e.hasUnsolved(rec, g, "") {
		return nil
	}
	mod := s == Sub(k, Mul(g, d))
	if !mod && s != d {
		return nil
	}
	if !Prove(backF, Ge(g, Int(1))) || !(mod && g == G) && !Prove(backF, Lt(s, G)) {
		return nil
	}
	old := Sym("$old", el.Sort)
	el = Subst1(Subst1(el, Index(h, Add(from, v)), old), Len(h), Len(init))
	if e.mentions(rec, el, key) || !Contains(el, old) || el.Sort != SInt {
		return nil
	}
	w := maxBody(el, old, Int(0), backF)
	if w == nil || Contains(w, old) {
		return nil
	}
	q, i, c := FreshNat("$q"), FreshNat("$i"), FreshNat("$c")
	var cnt, at *Term
	if mod {
		cnt, at = Add(Div(Sub(Sub(k, q), Int(1)), g), Int(1)), Add(q, Mul(i, g))
	} else {
		lo, hi := Mul(q, g), Mul(Add(q, Int(1)), g)
		end := Ite(Gt(hi, k), k, hi)
		cnt, at = Ite(Ge(end, lo), Sub(end, lo), Int(0)), Add(Mul(q, g), i)
	}
	if v.Op == OpInt {
		return Comp(G, q, MaxOf(cnt, i, Subst1(w, k, at), Int(0)))
	}
	return Flat(G, q, Comp(n, c, MaxOf(cnt, i, Subst(w, map[*Term]*Term{k: at, v: c}), Int(0))))
}

// solveBlock: elements from..from+n-1 of the list go through the same recurrence
// in every iteration, the others stay.
func (e *Engine) solveBlock(rec *LoopRec, key string, b *Term, backF Facts) *Term {
	h, k, init := rec.Hsym[key], rec.K, rec.Init[key]
	if b.Op != OpApp {
		return nil
	}
	v := FreshNat("$v")
	var from, n, el *Term
	switch b.S {
	case "update":
		if b.Args[0] != h {
			return nil
		}
		from, n, el = b.Args[1], Int(1), b.Args[2]
		v = Int(0)
	case "tab":
		if b.Args[3] != h {
			return nil
		}
		from, n, el = Int(0), b.Args[0], Inst(b, v)
	case "comp":
		if b.Args[0] != Len(h) || b.Args[0] != Len(init) {
			return nil
		}
		from, n, el = Int(0), b.Args[0], Inst(b, v)
	case "cat":
		as := b.Args
		from = Int(0)
		if isSliceOf(as[0], h) && as[0].Args[1] == Int(0) {
			from = as[0].Args[2]
			as = as[1:]
		}
		if len(as) == 0 || as[0].Op != OpApp || as[0].S != "comp" {
			return nil
		}
		n, el = as[0].Args[0], Inst(as[0], v)
		as = as[1:]
		if len(as) != 1 || !isSliceOf(as[0], h) || as[0].Args[1] != Add(from, n) || as[0].Args[2] != Len(h) {
			return nil
		}
	default:
		return nil
	}
	if Contains(n, k) || e.mentions(rec, from, key) || e.mentions(rec, n, key) {
		return nil
	}
	if Contains(from, k) {
		return e.solveScatter(rec, key, from, n, v, el, backF)
	}
	old, ie := Sym("$old", el.Sort), Index(init, Add(from, v))
	el = Subst1(Subst1(el, Index(h, Add(from, v)), old), Len(h), Len(init))
	if e.mentions(rec, el, key) || !Contains(el, old) || el.Sort != SInt {
		return nil
	}
	j := FreshNat("$j")
	var now *Term
	if w := maxBody(el, old, ie, backF); w != nil {
		now = MaxOf(k, j, Subst1(w, k, j), ie)
	} else if d := deltaInt(el, old); d != nil && !Contains(d, old) {
		now = Add(ie, Sum(k, j, Subst1(d, k, j)))
	} else {
		return nil
	}
	if b.S == "update" {
		return Update(init, from, now)
	}
	if b.S == "tab" {
		return Tab(n, v, now, init)
	}
	if b.S == "comp" {
		return Comp(n, v, now)
	}
	return Cat(Slice(init, Int(0), from), Comp(n, v, now), Slice(init, Add(from, n), Len(init)))
}

func isSliceOf(t, h *Term) bool { return t.Op == OpApp && t.S == "slice" && t.Args[0] == h }

func boolDelta(b, h *Term, op Op) (*Term, bool) {
	if b.Op != op {
		return nil, false
	}
	var rest []*Term
	found := false
	for _, a := range b.Args {
		if a == h {
			found = true
		} else {
			rest = append(rest, a)
		}
	}
	if !found {
		return nil, false
	}
	return nary(op, rest), true
}

// liftIte distributes a sum over a gated summand that mentions h.
func liftIte(t, h *Term) *Term {
	if t.Op == OpIte && Contains(t, h) && !Contains(t.Args[0], h) {
		return Ite(t.Args[0], liftIte(t.Args[1], h), liftIte(t.Args[2], h))
	}
	if t.Op != OpLin {
		return t
	}
	for _, m := range t.Lin {
		if len(m.At) == 1 && m.At[0].Op == OpIte && Contains(m.At[0], h) {
			it := m.At[0]
			rest := Sub(t, Scale(m.C, it))
			return Ite(it.Args[0], liftIte(Add(rest, Scale(m.C, it.Args[1])), h), liftIte(Add(rest, Scale(m.C, it.Args[2])), h))
		}
	}
	return t
}

func deltaInt(t, h *Term) *Term {
	if t.Op == OpIte {
		a, b := deltaInt(t.Args[1], h), deltaInt(t.Args[2], h)
		if a == nil || b == nil {
			return nil
		}
		return Ite(t.Args[0], a, b)
	}
	if t.Op == OpLin {
		for _, m := range t.Lin {
			if m.C == 1 && len(m.At) == 1 && m.At[0].Op == OpIte && Contains(m.At[0], h) {
				if rest := Sub(t, m.At[0]); !Contains(rest, h) {
					if d := deltaInt(m.At[0], h); d != nil {
						return Add(rest, d)
					}
				}
				return nil
			}
		}
	}
	d := Sub(t, h)
	if Contains(d, h) {
		return nil
	}
	return d
}

// maxBody: b = max(h, w).
func maxBody(b, h, init *Term, f Facts) *Term {
	if b.Op != OpIte {
		return nil
	}
	c, x, y := b.Args[0], b.Args[1], b.Args[2]
	if x == h {
		c, x, y = Not(c), y, x
	}
	if y != h || Contains(x, h) {
		return nil
	}
	// c <=> x > h (or >=), possibly under a guard
	if c == Gt(x, h) || c == Ge(x, h) {
		return x
	}
	if c.Op == OpAnd {
		var rest []*Term
		found := false
		for _, a := range c.Args {
			if a == Gt(x, h) || a == Ge(x, h) {
				found = true
			} else {
				rest = append(rest, a)
			}
		}
		g := And(rest...)
		if found && !Contains(g, h) {
			return Ite(g, x, init)
		}
	}
	return nil
}

// satSum: b = min(h+w, M), init <= M, w >= 0.
func satSum(b, h, init *Term, f Facts) []*Term {
	c, x, y := b.Args[0], b.Args[1], b.Args[2]
	for i := 0; i < 2; i++ {
		// c ? M : h+w
		w := Sub(y, h)
		if !Contains(x, h) && !Contains(w, h) && (c == Gt(y, x) || c == Ge(y, x)) {
			if Prove(f, Ge0(w)) && Prove(nil, Le(init, x)) {
				return []*Term{w, x}
			}
		}
		c, x, y = Not(c), y, x
	}
	return nil
}

// First: the least k in [0,n) with cond, else max(n,0).
func First(n, k, cond *Term) *Term { b, bd := closeOver(k, cond); return firstRaw(n, b, bd) }

func init() { binderBody["first"] = 2 }

// firstReached: whether a search over [0,n) ends before n (t = n-first-1), where
// the condition, once true, stays true: it ends early exactly if the condition
// holds at n-1.
func firstReached(t *Term) *Term {
	_, ms := monos(t)
	if len(ms) > 6 {
		return nil
	}
	for _, m := range ms {
		if len(m.At) != 1 || m.At[0].Op != OpApp || m.At[0].S != "first" || (m.C != 1 && m.C != -1) {
			continue
		}
		f := m.At[0]
		n, b, body := f.Args[0], f.Args[1], f.Args[2]
		early := Sub(Sub(n, f), Int(1))
		neg := false
		if t != early {
			if t != Sub(f, n) {
				continue
			}
			neg = true
		}
		if body.Op != OpGe0 {
			continue
		}
		g := body.Args[0]
		r := growing(g, b)
		if r == nil {
			continue
		}
		c := And(Ge(n, Int(1)), Ge0(Subst1(r, b, Sub(n, Int(1)))))
		if neg {
			return Not(c)
		}
		return c
	}
	return nil
}

// growing: g, rewritten, if it never decreases as b grows.
func growing(g, b *Term) *Term {
	if lo, _ := rng(b); lo == nil || *lo < 0 {
		return nil
	}
	// sum(b, f) + f(b) = sum(b+1, f)
	_, ms := monos(g)
	for _, m := range ms {
		for _, s := range m.At {
			if s.Op == OpApp && s.S == "sum" && s.Args[0] == b {
				nx := app("sum", SInt, Add(b, Int(1)), s.Args[1], s.Args[2])
				c := Int(m.C)
				for _, a := range m.At {
					if a != s {
						c = Mul(c, a)
					}
				}
				h := Add(g, Mul(c, Sub(Sub(nx, s), Inst(s, b))))
				if _, hs := monos(h); len(hs) < len(ms) {
					g = h
				}
			}
		}
	}
	_, ms = monos(g)
	for _, m := range ms {
		dep := 0
		ok := m.C > 0
		for _, a := range m.At {
			if !Contains(a, b) {
				if lo, _ := rng(a); lo == nil || *lo < 0 {
					ok = false
				}
				continue
			}
			dep++
			switch {
			case a == b:
			case a.Op == OpApp && a.S == "sum" && (a.Args[0] == b || a.Args[0] == Add(b, Int(1))) && !Contains(a.Args[2], b):
				if lo, _ := rng(a.Args[2]); lo == nil || *lo < 0 {
					return nil
				}
			default:
				return nil
			}
		}
		if dep > 0 && (!ok || dep > 1 && len(m.At) != dep) {
			return nil
		}
	}
	return g
}

func firstRaw(n, b, body *Term) *Term {
	if body == False {
		if lo, _ := rng(n); lo != nil && *lo >= 0 {
			return n
		}
		return Ite(Ge0(n), n, Int(0))
	}
	if body == True || n == Int(0) {
		return Int(0)
	}
	if n.Op == OpInt && n.N <= unrollMax {
		r := n
		for i := n.N - 1; i >= 0; i-- {
			r = Ite(Subst1(body, b, Int(i)), Int(i), r)
		}
		return r
	}
	if n.Op == OpInt {
		if r := foldFirst(n.N, b, body); r != nil {
			return r
		}
	}
	t := app("first", SInt, n, b, body)
	t.lo = i64p(0)
	return t
}

// foldFirst evaluates a first-index term whose body compares constants of a
// constant table with a constant.
func foldFirst(n int64, b, body *Term) *Term {
	free := Find(body, func(x *Term) bool {
		if x.Op == OpSym && x != b {
			return true
		}
		return x.Op == OpApp && len(x.Args) == 0 && !(strings.HasPrefix(x.S, "gvar:") && constList(x) != nil) && x.S != "nil" && x.S != "list"
	})
	if free != nil {
		return nil
	}
	// monotone single comparison over a sorted column: binary search
	if body.Op == OpGe0 || (body.Op == OpNot && body.Args[0].Op == OpGe0) {
		g := body
		if g.Op == OpNot {
			g = g.Args[0]
		}
		_, ms := monos(g.Args[0])
		if len(ms) == 1 && len(ms[0].At) == 1 {
			if col := constColumn(ms[0].At[0], b); col != nil && int64(len(col)) >= n && sortedCol(col) {
				lo, hi := int64(0), n
				test := func(i int64) *Term { return Subst1(body, ms[0].At[0], Int(col[i])) }
				if n > 0 && test(0) == False || test(n-1) == True {
					for lo < hi {
						m := (lo + hi) / 2
						v := test(m)
						if v == True {
							hi = m
						} else if v == False {
							lo = m + 1
						} else {
							return nil
						}
					}
					return Int(lo)
				}
			}
		}
	}
	for i := int64(0); i < n; i++ {
		v := Subst1(body, b, Int(i))
		if v == True {
			return Int(i)
		}
		if v != False {
			return nil
		}
	}
	return Int(n)
}

type colKey struct{ t, b *Term }

var colCache = map[colKey][]int64{}
var colSorted = map[*int64]bool{}

// constColumn: the values of accessor(table[b]) for a constant table.
func constColumn(acc, b *Term) []int64 {
	if c, ok := colCache[colKey{acc, b}]; ok {
		return c
	}
	var ix *Term
	Walk(acc, func(x *Term) {
		if x.Op == OpApp && x.S == "index" && x.Args[1] == b && constList(x.Args[0]) != nil {
			ix = x
		}
	})
	var out []int64
	if ix != nil {
		for _, el := range constList(ix.Args[0]) {
			v := Subst1(acc, ix, el)
			if v.Op != OpInt {
				out = nil
				break
			}
			out = append(out, v.N)
		}
	}
	colCache[colKey{acc, b}] = out
	return out
}

func sortedCol(c []int64) bool {
	if len(c) == 0 {
		return true
	}
	if v, ok := colSorted[&c[0]]; ok {
		return v
	}
	r := true
	for i := 1; i < len(c); i++ {
		if c[i] < c[i-1] {
			r = false
		}
	}
	colSorted[&c[0]] = r
	return r
}

// ------------------------------------------------------------- invariants

// houdini keeps the candidate facts about the header that hold on entry and are
// preserved by every iteration.
func (e *Engine) houdini(rec *LoopRec, entry Facts, res passResult) Facts {
	var cands []*Term
	seen := map[*Term]bool{}
	add := func(t *Term) {
		if t.Op != OpBool && !seen[t] {
			seen[t] = true
			cands = append(cands, t)
		}
	}
	unsolved := false
	for _, key := range rec.Keys {
		h := rec.Hsym[key]
		if rec.Solved[key] {
			continue
		}
		unsolved = true
		if h.Sort == SInt {
			add(Ge0(h))
			add(Ge(h, rec.Init[key]))
			add(Le(h, rec.Init[key]))
			add(Ge(h, Int(1)))
		}
		if h.Sort == SList {
			add(Eq(Len(h), Len(rec.Init[key])))
		}
	}
	if !unsolved {
		return nil
	}
	// generalised guards
	var lits []*Term
	collect := func(t *Term) {
		Walk(t, func(x *Term) {
			if x.Op == OpGe0 {
				lits = append(lits, x.Args[0], Sub(Neg(x.Args[0]), Int(1)))
			}
		})
	}
	collect(res.cond)
	if res.back != nil {
		for _, f := range res.back.pc[min(len(entry), len(res.back.pc)):] {
			collect(f)
		}
	}
	for _, b := range res.breaks {
		for _, f := range b.pc[min(len(entry), len(b.pc)):] {
			collect(f)
		}
	}
	for _, p := range lits {
		if len(cands) > 60 {
			break
		}
		if !e.hasUnsolved(rec, p, "") {
			continue
		}
		add(Ge0(p))
		add(Ge0(Add(p, Int(1))))
		// a guard on the next value, stated of the current one
		for _, key := range rec.Keys {
			h := rec.Hsym[key]
			if rec.Solved[key] || h.Sort != SInt {
				continue
			}
			if d := Sub(rec.Back[key], h); d.Op != OpInt && !Contains(d, h) {
				if _, c := linearIn(p, h); c != nil && c.Op == OpInt && c.N != 0 {
					add(Ge0(Sub(p, Mul(c, d))))
				}
			}
		}
	}
	at0 := map[*Term]*Term{rec.K: Int(0)}
	for _, key := range rec.Keys {
		at0[rec.Hsym[key]] = rec.Init[key]
	}
	next := map[*Term]*Term{rec.K: Add(rec.K, Int(1))}
	for _, key := range rec.Keys {
		next[rec.Hsym[key]] = rec.Back[key]
	}
	var keep []*Term
	for _, c := range cands {
		if Prove(entry, Subst(c, at0)) {
			keep = append(keep, c)
		}
	}
	backF := res.back.pc
	for {
		facts := append(append(Facts{}, backF...), keep...)
		var nk []*Term
		for _, c := range keep {
			if Prove(facts, Subst(c, next)) {
				nk = append(nk, c)
			}
		}
		if len(nk) == len(keep) {
			break
		}
		keep = nk
	}
	return keep
}

// ------------------------------------------------------------- trip count

func (e *Engine) tripCount(entry Facts, rec *LoopRec, p passResult) *Term {
	c := p.cond
	if c == True || c == False || c == nil {
		if c == False {
			return Int(0)
		}
		return nil
	}
	if e.hasUnsolved(rec, c, "") {
		return nil
	}
	return countOf(entry, rec.K, c)
}

// firstStop: the first k < n with c, else n.  A condition on the value left by
// the iteration before is stated of that iteration.
func firstStop(n, k, c *Term) *Term {
	if Subst1(c, k, Int(0)) == False && Find(c, func(x *Term) bool { return x.Op == OpIte && (x.Args[0] == Eq(k, Int(0)) || x.Args[0] == Ge(k, Int(1))) }) != nil {
		i := FreshNat("$i")
		z := First(n, i, Subst1(c, k, Add(i, Int(1))))
		return Ite(Lt(z, n), Add(z, Int(1)), n)
	}
	v := FreshNat("$i")
	return First(n, v, Subst1(c, k, v))
}

// countOf: the first k at which c fails.
func countOf(entry Facts, k, c *Term) *Term {
	pol := true
	if c.Op == OpNot {
		c, pol = c.Args[0], false
	}
	if (c.Op == OpAnd && pol) || (c.Op == OpOr && !pol) {
		var t *Term
		var gates, others []*Term
		for _, x := range c.Args {
			if !pol {
				x = Not(x)
			}
			if !Contains(x, k) {
				gates = append(gates, x)
				continue
			}
			n := countOf(entry, k, x)
			switch {
			case n == nil:
				others = append(others, Not(x))
			case t == nil:
				t = n
			case Prove(entry, Le(t, n)):
			case Prove(entry, Le(n, t)):
				t = n
			default:
				t = Ite(Le(t, n), t, n)
			}
		}
		if t == nil {
			return nil
		}
		if len(others) > 0 {
			t = firstStop(t, k, Or(others...))
		}
		return Ite(And(gates...), t, Int(0))
	}
	switch c.Op {
	case OpGe0:
		q := c.Args[0]
		if !Contains(q, k) {
			return nil
		}
		if !pol {
			q = Sub(Neg(q), Int(1))
		}
		a, s := linearIn(q, k)
		if a == nil {
			return nil
		}
		// q = a - step*k
		step := Neg(s)
		if !Prove(entry, Ge(step, Int(1))) {
			return nil
		}
		if step == Int(1) {
			n := Add(a, Int(1))
			if Prove(entry, Ge0(n)) {
				return n
			}
			return Ite(Ge0(n), n, Int(0))
		}
		n := Add(Div(a, step), Int(1))
		if Prove(entry, Ge0(a)) {
			return n
		}
		return Ite(Ge0(a), n, Int(0))
	case OpEq:
		if pol {
			return nil
		}
		a, s := linearIn(c.Args[0], k)
		if a == nil {
			return nil
		}
		if s == Int(1) {
			a, s = Neg(a), Int(-1)
		}
		if s == Int(-1) && Prove(entry, Ge0(a)) {
			return a
		}
	}
	return nil
}

// breakCount: a break guard k >= n that also covers the loop condition's exit.
func (e *Engine) breakCount(rec *LoopRec, fin passResult, invK Facts, guards []*Term) *Term {
	if len(guards) != 1 {
		return nil
	}
	g := guards[0]
	if e.hasUnsolved(rec, g, "") || e.hasUnsolved(rec, fin.cond, "") {
		return nil
	}
	for _, c := range conjuncts(g) {
		q := Not(c)
		var p *Term
		switch {
		case q.Op == OpGe0:
			p = q.Args[0]
		case q.Op == OpNot && q.Args[0].Op == OpGe0:
			p = Sub(Neg(q.Args[0].Args[0]), Int(1))
		default:
			continue
		}
		a, s := linearIn(p, rec.K)
		if a == nil || s != Int(-1) {
			continue
		}
		n := Add(a, Int(1))
		if !Prove(rec.EntryPC, Ge0(n)) {
			continue
		}
		at := func(c *Term) *Term { return Subst1(c, rec.K, n) }
		// it goes on while k < n, and ends at k = n
		run := append(append(Facts{}, rec.EntryPC...), Ge0(rec.K), Lt(rec.K, n))
		if !Prove(run, And(fin.cond, Not(g))) {
			continue
		}
		if !Prove(append(Facts{}, rec.EntryPC...), Or(Not(at(fin.cond)), at(g))) {
			continue
		}
		return n
	}
	return nil
}

func conjuncts(t *Term) []*Term {
	if t.Op == OpAnd {
		return t.Args
	}
	return []*Term{t}
}

// linearIn: t = a + s*k with a, s free of k.
func linearIn(t, k *Term) (a, s *Term) {
	c, ms := monos(t)
	pa, ps := newPoly(), newPoly()
	pa.c = c
	for _, m := range ms {
		n := 0
		var rest []*Term
		for _, x := range m.At {
			if x == k {
				n++
			} else {
				if Contains(x, k) {
					return nil, nil
				}
				rest = append(rest, x)
			}
		}
		switch n {
		case 0:
			pa.addMono(m.C, m.At)
		case 1:
			ps.addMono(m.C, rest)
		default:
			return nil, nil
		}
	}
	s = ps.build()
	if s == Int(0) {
		return nil, nil
	}
	return pa.build(), s
}

// ------------------------------------------------------------------ exits

func substStore(st *State, m map[*Term]*Term) {
	for key, v := range st.store {
		st.store[key] = Subst(v, m)
	}
}

func (e *Engine) exits(st *State, fr *Frame, rec *LoopRec, fin passResult, invK Facts) *State {
	k := rec.K
	base := fin.base
	entryN := len(rec.EntryPC)
	type ex struct {
		x  *LoopExit
		st *State
		rt *Ret
		j  *jump
	}
	var xs []ex
	guard := func(s *State) *Term { return And(s.pc[base:]...) }
	for _, b := range fin.breaks {
		xs = append(xs, ex{x: &LoopExit{Kind: "break", Guard: guard(b), Facts: b.pc}, st: b})
	}
	for i := range fin.rets {
		r := fin.rets[i]
		xs = append(xs, ex{x: &LoopExit{Kind: "return", Guard: guard(r.st), Facts: r.st.pc, Pos: r.pos}, st: r.st, rt: &r})
	}
	for i := range fin.jumps {
		j := fin.jumps[i]
		xs = append(xs, ex{x: &LoopExit{Kind: "jump", Guard: guard(j.st), Facts: j.st.pc}, st: j.st, j: &j})
	}
	hasHeader := fin.cond != True
	var or []*Term
	pure := rec.T != nil
	for _, x := range xs {
		or = append(or, x.x.Guard)
		if e.hasUnsolved(rec, x.x.Guard, "") {
			pure = false
		}
	}
	if len(xs) == 0 {
		if rec.T != nil {
			rec.X = rec.T
		} else {
			rec.X = app("x:"+rec.ID, SInt, e.ks...)
			rec.X.lo = i64p(0)
		}
	} else if pure {
		rec.X = First(rec.T, k, Or(or...))
	} else {
		rec.X = app("x:"+rec.ID, SInt, e.ks...)
		rec.X.lo = i64p(0)
	}
	byBreak := false
	if rec.X.Op == OpApp && rec.X.S == "x:"+rec.ID {
		if t := e.breakCount(rec, fin, invK, or); t != nil {
			rec.X, byBreak = t, true
			rec.Rank = "iteration count is " + short(t)
		}
	}
	X := rec.X
	toX := map[*Term]*Term{k: X}
	// gates
	var anyGate *Term
	if byBreak && len(xs) == 1 {
		// at the last header the loop condition decides which way it ends
		anyGate = Subst(fin.cond, toX)
		xs[0].x.Gate = anyGate
	} else if pure && len(xs) > 0 {
		anyGate = Lt(X, rec.T)
		if len(xs) == 1 {
			xs[0].x.Gate = anyGate
		} else {
			for i := range xs {
				xs[i].x.Gate = And(anyGate, Subst(xs[i].x.Guard, toX))
			}
		}
	} else if len(xs) > 0 {
		if !hasHeader && len(xs) == 1 {
			xs[0].x.Gate = True
			anyGate = True
		} else {
			var gs []*Term
			for i := range xs {
				if !hasHeader && i == len(xs)-1 {
					xs[i].x.Gate = Not(Or(gs...))
					continue
				}
				g := app(fmt.Sprintf("exit:%s:%d", rec.ID, i), SBool, e.ks...)
				// mutually exclusive
				xs[i].x.Gate = And(g, Not(Or(gs...)))
				gs = append(gs, g)
			}
			anyGate = Or(gs...)
			if !hasHeader {
				anyGate = True
			}
		}
	}
	if s := e.searchLoop(rec, fin.hs, func() (gs []*LoopExit, ss []*State) {
		for _, x := range xs {
			gs = append(gs, x.x)
			ss = append(ss, x.st)
		}
		return
	}); s != nil {
		rec.Search = s
		if s.Found != nil {
			anyGate = s.Found
		}
		if len(xs) == 1 {
			xs[0].x.Gate = s.Found
		}
	}
	// axioms about the opaque symbols
	entry := And(rec.EntryPC...)
	reach := Not(entry)
	var forms []*Term
	T := rec.T
	if !pure || len(xs) == 0 {
		if X.Op == OpApp && strings.HasPrefix(X.S, "x:") {
			for _, f := range invK {
				forms = append(forms, Or(reach, Subst(f, toX)))
			}
			if T != nil {
				forms = append(forms, Or(reach, Le(X, T)))
			}
			if anyGate == nil {
				forms = append(forms, Or(reach, Not(Subst(fin.cond, toX))))
			} else if anyGate != True {
				if hasHeader {
					forms = append(forms, Or(reach, anyGate, Not(Subst(fin.cond, toX))))
				}
			}
			for _, x := range xs {
				if x.x.Gate != nil {
					forms = append(forms, Or(reach, Not(x.x.Gate), And(Subst(x.x.Guard, toX), Subst(fin.cond, toX))))
				}
			}
			// the iteration before the last one ran to its end
			prev := map[*Term]*Term{k: Sub(X, Int(1))}
			if fin.back != nil {
				bf := And(fin.back.pc[entryN:]...)
				forms = append(forms, Or(reach, Lt(X, Int(1)), Subst(bf, prev)))
			}
			symAxioms[X.S] = &axiom{append([]*Term{}, e.ks...), forms}
		}
	}
	for _, key := range rec.Keys {
		if rec.Solved[key] {
			continue
		}
		h := rec.Hsym[key]
		var hf []*Term
		for _, f := range invK {
			if Contains(f, h) {
				hf = append(hf, Or(reach, Not(Ge0(k)), Gt(k, X), f))
			}
		}
		if len(hf) > 0 {
			symAxioms[h.S] = &axiom{append([]*Term{k}, e.ks...), hf}
		}
	}
	at := func(s *State, gate *Term) *State {
		n := &State{store: map[string]*Term{}, pc: append(Facts{}, rec.EntryPC...)}
		for key, v := range s.store {
			n.store[key] = e.atExit(rec, v, toX)
		}
		if gate != nil && gate != True {
			n.pc = append(n.pc, gate)
		}
		return n
	}
	var outs []*State
	if hasHeader {
		g := True
		if anyGate != nil {
			g = Not(anyGate)
		}
		if g != False {
			hx := toX
			if pure {
				hx = map[*Term]*Term{k: rec.T}
			}
			n := &State{store: map[string]*Term{}, pc: append(Facts{}, rec.EntryPC...)}
			for key, v := range fin.hs.store {
				n.store[key] = e.atExit(rec, v, hx)
				if pure && n.store[key] != v {
					// the same value wherever the loop ends
					same, any := true, false
					at := e.atExit(rec, v, toX)
					for _, x := range xs {
						if x.x.Kind == "break" {
							any = true
							if w, ok := x.st.store[key]; !ok || e.atExit(rec, w, toX) != at {
								same = false
							}
						}
					}
					if any && same {
						n.store[key] = at
					}
				}
			}
			if g != True {
				n.pc = append(n.pc, g)
			}
			outs = append(outs, n)
		}
	}
	rec.Exits = nil
	if hasHeader {
		g := True
		if anyGate != nil {
			g = Not(anyGate)
		}
		rec.Exits = append(rec.Exits, &LoopExit{Kind: "header", Guard: Not(fin.cond), Gate: g, Pos: rec.Pos})
	}
	for _, x := range xs {
		rec.Exits = append(rec.Exits, x.x)
		n := at(x.st, x.x.Gate)
		switch x.x.Kind {
		case "break":
			outs = append(outs, n)
		case "return":
			r := *x.rt
			r.st = n
			r.vals = make([]*Term, len(x.rt.vals))
			for i, v := range x.rt.vals {
				r.vals[i] = e.atExit(rec, v, toX)
			}
			fr.rets = append(fr.rets, r)
		case "jump":
			if x.j.cont {
				x.j.lc.conts = append(x.j.lc.conts, n)
			} else {
				x.j.lc.breaks = append(x.j.lc.breaks, n)
			}
		}
	}
	if len(outs) == 0 {
		return nil
	}
	return e.join(rec.EntryPC, outs)
}

func (e *Engine) atExit(rec *LoopRec, v *Term, toX map[*Term]*Term) *Term {
	v = Subst(v, toX)
	if rec.Search != nil {
		v = Subst(v, rec.Search.Sub)
	}
	return v
}

// ------------------------------------------------------------ termination

func (e *Engine) termination(rec *LoopRec, entry Facts, res passResult) {
	if rec.T != nil {
		rec.Rank = "iteration count is " + short(rec.T)
		return
	}
	if rec.NoBack {
		rec.Rank = "no path reaches the next iteration"
		return
	}
	backF := append(append(Facts{}, rec.BackF...), rec.Inv...)
	bf := Facts{}
	for _, f := range res.back.pc {
		bf = append(bf, f)
	}
	bf = append(bf, rec.Inv...)
	for _, key := range rec.Keys {
		if rec.Solved[key] && rec.Hsym[key].Sort == SInt {
			bf = append(bf, Eq(rec.Hsym[key], rec.Head[key]))
		}
	}
	next := map[*Term]*Term{rec.K: Add(rec.K, Int(1))}
	for _, key := range rec.Keys {
		next[rec.Hsym[key]] = rec.Back[key]
	}
	try := func(r *Term, f Facts) bool {
		return Prove(f, Ge0(r)) && Prove(f, Ge(Sub(r, Subst(r, next)), Int(1)))
	}
	var cands []*Term
	seen := map[*Term]bool{}
	add := func(t *Term) {
		if !seen[t] && t.Op != OpInt {
			seen[t] = true
			cands = append(cands, t)
		}
	}
	consider := func(fs Facts) {
		for _, f := range fs {
			Walk(f, func(x *Term) {
				if x.Op == OpGe0 {
					add(x.Args[0])
					add(Sub(Neg(x.Args[0]), Int(1)))
				}
			})
		}
	}
	consider(bf)
	consider(backF)
	for _, key := range rec.Keys {
		h := rec.Hsym[key]
		if h.Sort == SStr || h.Sort == SList {
			add(Len(h))
		}
	}
	// bound the iteration number by a loop-invariant quantity
	atoms := map[*Term]bool{}
	for _, f := range append(append(Facts{}, bf...), backF...) {
		Walk(f, func(x *Term) {
			if x.Sort == SInt && (x.Op == OpApp || x.Op == OpSym) && x != rec.K && !Contains(x, rec.K) && x.Op != OpInt && !boundVar(x) {
				atoms[x] = true
			}
		})
	}
	for _, c := range cands {
		if try(c, bf) {
			rec.Rank = "decreases: " + short(c)
			return
		}
	}
	closed := append(Facts{}, backF...)
	for _, f := range rec.Inv {
		closed = append(closed, e.closeTerm(rec, f))
	}
	for _, c := range cands {
		d := e.closeTerm(rec, Sub(c, Subst(c, next)))
		if Prove(closed, Ge0(e.closeTerm(rec, c))) && Prove(closed, Ge(d, Int(1))) {
			rec.Rank = "decreases: " + short(c)
			return
		}
	}
	var as []*Term
	for a := range atoms {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	for _, a := range as {
		r := Sub(a, rec.K)
		if Prove(backF, Ge0(r)) {
			rec.Rank = "iterations bounded by " + short(a)
			return
		}
	}
}

func short(t *Term) string {
	s := t.String()
	if len(s) > 160 {
		s = s[:160] + "…"
	}
	return s
}

// mapRaise: b is the map h with the entry of one key raised to at least val.
func (e *Engine) mapRaise(h, b *Term, f Facts) (name, val *Term) {
	ms := Find(b, func(x *Term) bool { return x.Op == OpApp && x.S == "mset" && x.Args[0] == h })
	if ms == nil || ms.Args[2].Sort != SInt {
		return nil, nil
	}
	name = ms.Args[1]
	q := Sym("$mq", SStr)
	if name.Sort != SStr {
		q = Sym("$mqo", name.Sort)
	}
	other := assume(MGet(b, q, SInt), Eq(name, q), false)
	if other != MGet(h, q, SInt) {
		return nil, nil
	}
	old := MGet(h, name, SInt)
	at := MGet(b, name, SInt)
	var cands []*Term
	var leaves func(x *Term)
	leaves = func(x *Term) {
		if x.Op == OpIte {
			leaves(x.Args[1])
			leaves(x.Args[2])
			return
		}
		if !Contains(x, h) {
			cands = append(cands, x)
		}
	}
	leaves(ms.Args[2])
	for _, c := range cands {
		if Prove(f, Ge0(c)) && Prove(f, Eq(at, Ite(Gt(c, old), c, old))) {
			return name, c
		}
	}
	return nil, nil
}
