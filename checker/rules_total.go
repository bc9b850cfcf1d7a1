package main

// C13 (failed writes), C14 (termination) and C15 (no faulting operation).

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

// roots: the exported functions and methods of the module's packages, and the
// functions that the analysis of others keeps opaque.
func (c *Ctx) roots() []*types.Func {
	var r []*types.Func
	for fn, d := range c.pr.Decl {
		if isSpec(fn.Name()) || d.Body == nil || fn.Pkg() == nil {
			continue
		}
		if strings.HasPrefix(c.pr.Pos(fn.Pos()), "-") {
			continue
		}
		exported := fn.Exported()
		if sig := fn.Type().(*types.Signature); sig.Recv() != nil {
			if n := recvNamed(sig.Recv().Type()); n != nil && !n.Obj().Exported() {
				exported = exported && false
			}
		}
		if exported || fn.Name() == vwName || fn.Name() == "init" || fn.Name() == "handleEnv" || fn.Name() == "isEastAsian" {
			r = append(r, fn)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].FullName() < r[j].FullName() })
	return r
}

// apart: functions other roots are built on; they are analysed once, on their
// own, and kept opaque elsewhere.
var apart = []string{vwName, "RuneWidth", "StringWidth", "StepString", "IsEastAsian", "isEastAsian"}

func (c *Ctx) rootRun(fn *types.Func, hook func(e *Engine, recv *Term)) *Run {
	var op []string
	for _, n := range apart {
		if n != fn.Name() {
			op = append(op, n)
		}
	}
	var eng *Engine
	return c.runWith(fn, op, func(e *Engine, recv *Term, args []*Term) (*State, error) {
		if hook != nil {
			hook(eng, recv)
		}
		return &State{store: map[string]*Term{}}, nil
	}, func(e *Engine) { e.AutoSum = true; eng = e })
}

// allLoops and allSites: of a run and of every function it uses by its summary.
func allRuns(e *Engine) []*Engine {
	out := []*Engine{e}
	seen := map[*fnSum]bool{}
	for i := 0; i < len(out); i++ {
		var ss []*fnSum
		for s := range out[i].sums {
			if !seen[s] {
				seen[s] = true
				ss = append(ss, s)
			}
		}
		sort.Slice(ss, func(a, b int) bool { return ss[a].name < ss[b].name })
		for _, s := range ss {
			out = append(out, s.run.E)
		}
	}
	return out
}

// cycles: chains of functions of the module that mention each other. The
// functions kept opaque are always called with bounded work only if there are none.
func (c *Ctx) cycles() {
	edges := map[*types.Func]map[*types.Func]token.Pos{}
	n := 0
	for fn, d := range c.pr.Decl {
		if d.Body == nil || isSpec(fn.Name()) {
			continue
		}
		pk := c.pr.PkgOf[fn]
		if pk == nil {
			continue
		}
		m := map[*types.Func]token.Pos{}
		ast.Inspect(d.Body, func(x ast.Node) bool {
			if id, ok := x.(*ast.Ident); ok {
				if g, ok := pk.Info.Uses[id].(*types.Func); ok {
					g = g.Origin()
					if _, in := c.pr.Decl[g]; in {
						m[g] = id.Pos()
						n++
					}
				}
			}
			return true
		})
		edges[fn] = m
	}
	var fns []*types.Func
	for fn := range edges {
		fns = append(fns, fn)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].FullName() < fns[j].FullName() })
	state := map[*types.Func]int{}
	var path []string
	var visit func(fn *types.Func)
	found := false
	visit = func(fn *types.Func) {
		state[fn] = 1
		path = append(path, fn.FullName())
		var next []*types.Func
		for g := range edges[fn] {
			next = append(next, g)
		}
		sort.Slice(next, func(i, j int) bool { return next[i].FullName() < next[j].FullName() })
		for _, g := range next {
			if state[g] == 1 {
				found = true
				c.ob(false, "no function calls itself, directly or through others", strings.Join(append(append([]string{}, path...), g.FullName()), " -> "), c.pr.Pos(edges[fn][g]), "recursion: no bound on its depth is known")
			} else if state[g] == 0 {
				visit(g)
			}
		}
		state[fn] = 2
		path = path[:len(path)-1]
	}
	for _, fn := range fns {
		if state[fn] == 0 {
			visit(fn)
		}
	}
	if !found {
		c.ob(true, "no function calls itself, directly or through others", c.pr.Module, "go.mod", "")
	}
	c.note("call graph: %d functions, %d mentions of module functions", len(fns), n)
}

func recvNamed(t types.Type) *types.Named {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := t.(*types.Named)
	return n
}

func init() {
	register("C13", "", func(c *Ctx) {
		for _, d := range []string{"H", "V"} {
			m := c.merge(d)
			if m == nil {
				continue
			}
			m.failedWrites()
		}
	})
	register("C14", "", func(c *Ctx) {
		if !c.stepLemma() {
			return
		}
		c.cycles()
		for _, fn := range c.roots() {
			r := c.rootRun(fn, nil)
			if !c.covered(r) {
				continue
			}
			for _, e := range allRuns(r.E) {
				for _, l := range e.lorder {
					if strings.Contains(l.Fn, specPrefix) {
						continue
					}
					c.ob(l.Rank != "", "the loop has a bound on its number of iterations", fn.FullName()+" reaching the loop", c.pr.Pos(l.Pos), "no bound found")
				}
			}
		}
	})
	register("C27", "", func(c *Ctx) { c.within() })
	register("C28", "", func(c *Ctx) { c.callbacks() })
	register("C15", "", func(c *Ctx) {
		if !c.stepLemma() {
			return
		}
		// the lookup table is absent or covers every code point: assumed on
		// entry, shown on exit and at every call of a function analysed apart
		full := func(l *Term) *Term { return Or(Eq(Len(l), Int(0)), Ge(Len(l), Int((maxRune+1)/2))) }
		x := Sym("lut:of", SOther)
		lemma("field:combinedLut", []*Term{x}, full(app("field:combinedLut", SList, x)))
		n := 0
		var runs []*Run
		for _, fn := range c.roots() {
			what := fn.FullName()
			check := func(e *Engine, st *State, pos, where string) {
				for _, k := range sortedKeys(st.store) {
					if heapKey(k) && strings.HasSuffix(k, ".combinedLut") {
						n++
						l := Expand(e.contents(st, st.store[k]))
						c.ob(proveB(st.pc, full(l), 1500), "the lookup table is empty or covers all code points", what+where, pos, "length "+tidy(Len(l)))
					}
				}
			}
			r := c.rootRun(fn, func(e *Engine, recv *Term) {
				e.OnOpaque = func(st *State, g *types.Func, pos token.Pos) { check(e, st, c.pr.Pos(pos), " calling "+g.Name()) }
				sig := fn.Type().(*types.Signature)
				for i := 0; i < sig.Params().Len(); i++ {
					if it, ok := sig.Params().At(i).Type().Underlying().(*types.Interface); ok && recv != nil {
						c.rowAssumption(e, recv, sig.Params().At(i).Type(), it)
					}
				}
			})
			if !c.covered(r) {
				continue
			}
			check(r.E, r.St, c.fnPos(fn), "")
			runs = append(runs, r)
			for _, e := range allRuns(r.E) {
				eachEffect(e.effects, func(ef *Effect, in []*Effect) {
					if ef.Kind == "panic" && Feasible(ef.PC) {
						c.ob(writeFailure(ef), "a panic statement is reached only after a failed write", what, c.pr.Pos(ef.Pos), "reachable panic")
					}
				})
				for _, s := range e.sites {
					if s.Kind == "map write" {
						continue
					}
					c.ob(s.OK || ProveDeep(s.PC, s.Goal), s.Kind+" cannot fault", what, c.pr.Pos(s.Pos), fmt.Sprint(tidy(s.Goal)))
				}
			}
		}
		c.madeMaps(runs, runs)
		c.note("states in which the lookup table was checked: %d", n)
	})
}

// writeFailure: on every path to the panic a write to the caller's writer failed.
func writeFailure(ef *Effect) bool {
	for _, p := range ef.PC {
		f := Find(p, func(x *Term) bool { return x.Op == OpApp && strings.HasPrefix(x.S, "werr:") })
		if f != nil && proveB(ef.PC, Not(Eq(f, Nil)), 800) {
			return true
		}
	}
	return false
}

// within: the item list is asked only for items it has.
func (c *Ctx) within() {
	n := 0
	for _, fn := range c.roots() {
		sig := fn.Type().(*types.Signature)
		any := false
		for i := 0; i < sig.Params().Len(); i++ {
			if getAndLen(sig.Params().At(i).Type()) != nil {
				any = true
			}
		}
		if !any {
			continue
		}
		r := c.rootRun(fn, nil)
		if !c.covered(r) {
			continue
		}
		for _, e := range allRuns(r.E) {
			eachEffect(e.effects, func(ef *Effect, in []*Effect) {
				if ef.Kind != "icall" || ef.Callee == nil || ef.Callee.Name() != "Get" || len(ef.Args) != 2 {
					return
				}
				sg := ef.Callee.Type().(*types.Signature)
				if sg.Recv() == nil {
					return
				}
				ln := getAndLen(sg.Recv().Type())
				if ln == nil {
					return
				}
				n++
				size := app("icall:"+shortName(ln), SInt, ef.Args[0])
				size.lo = i64p(0)
				goal := And(Ge(ef.Args[1], Int(0)), Lt(ef.Args[1], size))
				c.ob(ProveDeep(ef.PC, goal), "the list is asked only for items it has", fn.FullName(), c.pr.Pos(ef.Pos), tidy(goal))
			})
		}
	}
	c.ob(n > 0, "items of the list are asked for", c.pr.Module, "horizontal.go", "no call found")
	c.note("calls asking for an item: %d", n)
}

// getAndLen: the Len method of an interface with Len and Get, as item lists have.
func getAndLen(t types.Type) *types.Func {
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var ln, get *types.Func
	for i := 0; i < it.NumMethods(); i++ {
		m := it.Method(i)
		sig := m.Type().(*types.Signature)
		switch {
		case m.Name() == "Len" && sig.Params().Len() == 0:
			ln = m
		case m.Name() == "Get" && sig.Params().Len() == 1:
			get = m
		}
	}
	if get == nil {
		return nil
	}
	return ln
}

// madeMaps: maps that are written exist. A map that belongs to an object the
// caller passes in exists if every object the module makes comes with it.
func (c *Ctx) madeMaps(writers, makers []*Run) {
	need := map[string]string{}
	for _, r := range writers {
		for _, e := range allRuns(r.E) {
			for _, s := range e.sites {
				if s.Kind != "map write" {
					continue
				}
				ok := s.OK || ProveDeep(s.PC, s.Goal)
				if !ok {
					// the map of an object from outside
					goal := s.Goal
					var hyp Facts
					for {
						f := Find(goal, func(x *Term) bool {
							if x.Op != OpEq || x.Args[0] != Nil && x.Args[1] != Nil {
								return false
							}
							m := x.Args[0]
							if m == Nil {
								m = x.Args[1]
							}
							return m.Op == OpApp && strings.HasPrefix(m.S, "field:")
						})
						if f == nil {
							break
						}
						m := f.Args[0]
						if m == Nil {
							m = f.Args[1]
						}
						need[m.S[6:]] = c.pr.Pos(s.Pos)
						hyp = append(hyp, Not(f))
						goal = Subst1(goal, f, False)
					}
					ok = goal == True || ProveDeep(append(hyp, s.PC...), goal)
				}
				c.ob(ok, "map write cannot fault", r.Fn.FullName(), c.pr.Pos(s.Pos), tidy(s.Goal))
			}
		}
	}
	n := 0
	for _, r := range makers {
		seen := map[*Term]bool{}
		var reach func(v *Term, pc Facts, depth int)
		reach = func(v *Term, pc Facts, depth int) {
			if v == nil || depth > 8 {
				return
			}
			if v.Op == OpIte {
				reach(v.Args[1], append(append(Facts{}, pc...), v.Args[0]), depth+1)
				reach(v.Args[2], append(append(Facts{}, pc...), Not(v.Args[0])), depth+1)
				return
			}
			if !isFresh(v) || seen[v] {
				return
			}
			seen[v] = true
			pre := fmt.Sprintf("f:%d.", v.id)
			for _, k := range sortedKeys(r.St.store) {
				if !strings.HasPrefix(k, pre) {
					continue
				}
				f, val := k[len(pre):], Expand(r.St.store[k])
				if pos, ok := need[f]; ok {
					n++
					c.ob(ProveDeep(pc, mapMade(val)) || fromCaller(val), "the map "+f+" of a new object exists, because it is written", r.Fn.FullName(), c.fnPos(r.Fn), "nil map, written at "+pos)
				}
				reach(val, pc, depth+1)
			}
		}
		for _, v := range r.Vals {
			reach(v, r.St.pc, 0)
		}
	}
	c.note("objects whose maps were checked: %d", n)
}

// fromCaller: the value is the map of another object from outside, or an argument.
func fromCaller(v *Term) bool {
	return v.Op == OpSym || v.Op == OpApp && (strings.HasPrefix(v.S, "field:") || strings.HasPrefix(v.S, "arg:"))
}

// rowAssumption: every row of the list passed in has at least one cell per column.
func (c *Ctx) rowAssumption(e *Engine, recv *Term, t types.Type, it *types.Interface) {
	var get *types.Func
	for i := 0; i < it.NumMethods(); i++ {
		m := it.Method(i)
		if sig := m.Type().(*types.Signature); m.Name() == "Get" && sig.Params().Len() == 1 && sig.Results().Len() == 1 {
			get = m
		}
	}
	fn := c.pr.Func(c.pr.Module, "Table", specPrefix+"ColCount")
	if get == nil || fn == nil {
		return
	}
	lg := e.log
	e.log = false
	vals, _ := e.Call(&State{store: map[string]*Term{}}, fn, recv, nil, "spec", fn.Pos(), 1)
	e.log = lg
	a, i := Sym("rows:of", SOther), Sym("rows:at", SInt)
	name := "icall:" + shortName(get)
	lemma(name, []*Term{a, i}, Ge(Len(app(name, SList, a, i)), vals[0]))
}

// failedWrites: after every write, control goes on only if it did not fail.
func (m *merge) failedWrites() {
	c := m.c
	type wr struct {
		ef *Effect
		in []*Effect
		n  int
	}
	var ws []wr
	seq := 0
	eachEffect(m.r.E.effects, func(ef *Effect, in []*Effect) {
		seq++
		if ef.Kind == "write" {
			ws = append(ws, wr{ef, in, seq})
		}
	})
	if len(ws) == 0 {
		c.ob(false, "lines are written to the caller's writer", m.fn.FullName(), c.fnPos(m.fn), "no write found")
	}
	for _, w := range ws {
		pos := c.pr.Pos(w.ef.Pos)
		err := w.ef.Args[2]
		c.ob(w.ef.Args[0] == m.r.Args[0], "writes go to the writer the caller gave", m.fn.FullName(), pos, "writes to "+tidy(w.ef.Args[0]))
		// continuing implies that the write did not happen or did not fail
		goOn := func(f Facts) bool {
			var rel []*Term
			for _, p := range w.ef.PC {
				rel = append(rel, p)
			}
			return proveB(f, Or(Not(And(rel...)), Eq(err, Nil)), 1500)
		}
		ok, why := true, ""
		for i := len(w.in) - 1; i >= 0; i-- {
			rec := w.in[i].Loop
			if rec == nil {
				continue
			}
			if !rec.NoBack && !goOn(rec.BackF) {
				ok, why = false, "the next iteration starts after a failed write"
			}
			for _, x := range rec.Exits {
				if x.Kind != "header" && !goOn(x.Facts) {
					ok, why = false, "the loop is left by "+x.Kind+" after a failed write"
				}
			}
			if i > 0 {
				// the enclosing loop runs on only after this one ended
				break
			}
		}
		if len(w.in) == 0 {
			for _, rt := range m.r.Rets {
				if !goOn(rt.st.pc) {
					ok, why = false, "the call returns after a failed write"
				}
			}
		}
		n := 0
		eachEffect(m.r.E.effects, func(ef *Effect, in []*Effect) {
			n++
			if n <= w.n || !ok || ef.Kind == "panic" || ef.Kind == "loop" {
				return
			}
			if (ef.Kind == "write" || hasArg(ef, m.r.Args[0])) && sameIteration(w.in, in) && !goOn(ef.PC) {
				ok, why = false, "something is written at "+c.pr.Pos(ef.Pos)+" after a failed write"
			}
		})
		c.ob(ok, "a failed write is followed by no further step but the panic", m.fn.FullName(), pos, why)
	}
	// the panics carry the error
	np := 0
	eachEffect(m.r.E.effects, func(ef *Effect, in []*Effect) {
		if ef.Kind == "panic" {
			if !Feasible(ef.PC) {
				return
			}
			np++
			ok := false
			for _, w := range ws {
				if len(ef.Args) > 0 && proveB(ef.PC, And(Not(Eq(w.ef.Args[2], Nil))), 800) {
					if e, _ := Equiv(ef.PC, ef.Args[0], w.ef.Args[2]); e {
						ok = true
					}
				}
			}
			c.ob(ok, "panics carry the error of the failed write and happen only then", m.fn.FullName(), c.pr.Pos(ef.Pos), "panic with another value or without a failed write")
		}
		if ef.Kind != "write" && ef.Kind != "loop" && ef.Kind != "panic" && hasArg(ef, m.r.Args[0]) {
			c.ob(false, "nothing but the line writes touches the writer", m.fn.FullName(), c.pr.Pos(ef.Pos), ef.Kind+" "+ef.Name)
		}
	})
}

func hasArg(ef *Effect, x *Term) bool {
	for _, a := range ef.Args {
		if a != nil && Contains(a, x) {
			return true
		}
	}
	return false
}

// sameIteration: the second effect lies inside the innermost loop of the first.
func sameIteration(a, b []*Effect) bool {
	if len(a) > len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
