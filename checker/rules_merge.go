package main

// Rules about the two functions that print several rows per line (C10-C13).
//
// What is written is reconstructed from the write effects: an outer loop over
// lines whose body writes one line.  The number of places per line, G, is read
// off the code (it is whatever makes the obligations true), never assumed.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
)

var debugMerge = os.Getenv("CHECKER_MERGE") != ""

type mergeLoop struct {
	ef   *Effect
	rec  *LoopRec
	line *Term // text written in one iteration
	pre  Facts // facts at the start of an iteration
}

// mcase: one leaf of the decision how many places a line has.
type mcase struct {
	f     Facts
	g     *Term
	wide  bool
	ok    bool
	line  *Term
	lines *Term
}

type merge struct {
	c     *Ctx
	dir   string
	fn    *types.Func
	r     *Run
	n     *Term // number of items
	sep   *Term
	items *Term
	loops []*mergeLoop
}

func isWerr(t *Term) bool {
	return Find(t, func(x *Term) bool { return x.Op == OpApp && len(x.S) > 5 && x.S[:5] == "werr:" }) != nil
}

func hasWrite(efs []*Effect) bool {
	for _, f := range efs {
		if f.Kind == "write" || hasWrite(f.Body) {
			return true
		}
	}
	return false
}

// written: the text the effects write, given that no write fails.
func written(efs []*Effect, base Facts) *Term {
	in := map[*Term]bool{}
	for _, f := range base {
		in[f] = true
	}
	var ps []*Term
	for _, f := range efs {
		if !hasWrite([]*Effect{f}) {
			continue
		}
		var cond []*Term
		for _, p := range f.PC {
			if !in[p] && !isWerr(p) && !Prove(base, p) {
				cond = append(cond, p)
			}
		}
		var s *Term
		if f.Kind == "write" {
			s = f.Args[1]
		} else {
			s = SComp(f.Loop.X, f.Loop.K, written(f.Body, append(append(Facts{}, f.PC...), f.Loop.Body...)))
		}
		ps = append(ps, Ite(And(cond...), s, Str("")))
	}
	return Concat(ps...)
}

func (c *Ctx) merge(dir string) *merge {
	name := map[string]string{"H": "MergeRowsHorizontal", "V": "MergeRowsVertical"}[dir]
	fn := c.need("", "Table", name)
	if fn == nil {
		return nil
	}
	r := c.run(fn, []string{vwName}, nil)
	if !c.covered(r) {
		return nil
	}
	m := &merge{c: c, dir: dir, fn: fn, r: r, items: r.Args[1], sep: r.Args[3]}
	iface := fn.Type().(*types.Signature).Params().At(1).Type()
	m.n = c.itemsLen(r, iface, m.items)
	return m
}

// itemsLen: the term for items.Len().
func (c *Ctx) itemsLen(r *Run, t types.Type, items *Term) *Term {
	fn := c.pr.Func(c.pr.Module, "", specPrefix+"ItemCount")
	vals, _ := r.E.Call(&State{store: map[string]*Term{}}, fn, nil, []*Term{items}, "spec", fn.Pos(), 1)
	return vals[0]
}

func (m *merge) spec(name string, args ...*Term) *Term {
	fn := m.c.pr.Func(m.c.pr.Module, "Table", specPrefix+name+m.dir)
	lg := m.r.E.log
	m.r.E.log = false
	defer func() { m.r.E.log = lg }()
	vals, _ := m.r.E.Call(&State{store: map[string]*Term{}}, fn, m.r.Recv, args, "spec", fn.Pos(), 1)
	return vals[0]
}

// lineLoops finds the loops that write, at the top level of the call.
func (m *merge) lineLoops() bool {
	ok := true
	for _, ef := range m.r.E.effects {
		if !hasWrite([]*Effect{ef}) {
			continue
		}
		if ef.Kind != "loop" {
			m.c.ob(false, "lines are written by a loop over lines", m.fn.FullName(), m.r.E.pr.Pos(ef.Pos), "a write outside the loop over lines")
			ok = false
			continue
		}
		ml := &mergeLoop{ef: ef, rec: ef.Loop}
		ml.pre = append(append(Facts{}, ef.PC...), ef.Loop.Body...)
		ml.line = written(ef.Body, ml.pre)
		m.loops = append(m.loops, ml)
	}
	if len(m.loops) == 0 {
		m.c.ob(false, "lines are written by a loop over lines", m.fn.FullName(), m.c.fnPos(m.fn), "no loop that writes was found")
		return false
	}
	return ok
}

// placeCounts proposes terms for the number of places per line.
func (m *merge) placeCounts(l *mergeLoop) []*Term {
	score := map[*Term]int{}
	add := func(t *Term, n int) {
		if t != nil && t.Sort == SInt && t.Op != OpInt && !boundVar(t) && !Contains(t, l.rec.K) {
			score[t] += n
		}
	}
	isGet := func(x *Term) bool {
		return x.Op == OpApp && len(x.Args) == 2 && x.Args[0] == m.items && x.Sort == SList
	}
	Walk(l.line, func(x *Term) {
		if isGet(x) {
			if a, _ := linearIn(x.Args[1], l.rec.K); a != nil {
				add(a, 5)
			}
		}
		if x.Op == OpApp && binderBody[x.S] != 0 && Contains(x, m.items) {
			add(x.Args[0], 2)
			if y := x.Args[0]; y.Op == OpApp && y.S == "first" {
				add(y.Args[0], 4)
			}
		}
		if _, ok := phiDef[x]; ok {
			add(x, 1)
		}
	})
	Walk(l.rec.X, func(x *Term) {
		if x.Op == OpApp && x.S == "div" {
			add(x.Args[1], 6)
		}
	})
	eachEffect(l.ef.Body, func(ef *Effect, in []*Effect) {
		if ef.Kind == "loop" && ef.Loop.T != nil {
			add(ef.Loop.T, 3)
		}
	})
	var ts []*Term
	for t := range score {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool {
		if score[ts[i]] != score[ts[j]] {
			return score[ts[i]] > score[ts[j]]
		}
		return ts[i].id < ts[j].id
	})
	return ts
}

func (m *merge) what(s string) string { return m.fn.FullName() + ": " + s }

// cases splits the choice of G into its leaves (one level of names).
func (m *merge) cases(l *mergeLoop, g *Term) []*mcase {
	var out []*mcase
	splits := 0
	var rec func(f Facts, v *Term)
	rec = func(f Facts, v *Term) {
		d := v
		if x, ok := phiDef[v]; ok {
			d = x
		}
		if d.Op == OpIte && m.layoutGate(d.Args[0]) {
			for _, pol := range []bool{true, false} {
				lit := d.Args[0]
				if !pol {
					lit = Not(lit)
				}
				nf := append(append(Facts{}, f...), conjuncts(lit)...)
				if Feasible(nf) {
					x := d.Args[1]
					if !pol {
						x = d.Args[2]
					}
					rec(nf, x)
				}
			}
			return
		}
		if Find(v, func(x *Term) bool { return x.Op == OpIte }) != nil {
			v = namePhi(v)
		}
		line := Subst1(l.line, g, v)
		// the text may depend on the choice of the layout without the number of places doing so
		if c := m.openGate(l, f, line); c != nil && splits < 4 {
			splits++
			for _, lit := range []*Term{c, Not(c)} {
				if nf := append(append(Facts{}, f...), conjuncts(lit)...); Feasible(nf) {
					rec(nf, v)
				}
			}
			splits--
			return
		}
		cs := &mcase{g: v, line: line, lines: Subst1(l.rec.X, g, v)}
		for _, x := range f {
			cs.f = append(cs.f, Subst1(x, g, v))
		}
		out = append(out, cs)
	}
	rec(append(Facts{}, l.ef.PC...), g)
	return out
}

// openGate: a condition about the layout on which the text depends and which the
// facts leave open.
func (m *merge) openGate(l *mergeLoop, f Facts, line *Term) *Term {
	var out *Term
	var try func(c *Term)
	try = func(c *Term) {
		switch c.Op {
		case OpNot, OpAnd, OpOr:
			for _, a := range c.Args {
				try(a)
			}
			return
		}
		if out == nil && !Contains(c, l.rec.K) && !Contains(c, m.items) && !boundFree(c) && m.layoutGate(c) && !ProveDeep(f, c) && !ProveDeep(f, Not(c)) {
			out = c
		}
	}
	Walk(line, func(x *Term) {
		if x.Op == OpIte {
			try(x.Args[0])
		}
	})
	return out
}

// layoutGate: a condition about the compact search (an exit iteration) or the
// caller's wish for a compact layout.
func (m *merge) layoutGate(c *Term) bool {
	return Contains(c, m.r.Args[4]) || Find(c, func(x *Term) bool {
		return x.Op == OpApp && len(x.S) > 2 && (x.S[:2] == "x:" || (x.S == "first" && Contains(x, m.items)))
	}) != nil
}

// layout decides C10 and C12 for one direction and returns the decided cases.
func (m *merge) decide(l *mergeLoop) (cs []*mcase, G *Term) {
	c, pos := m.c, m.r.E.pr.Pos(l.ef.Pos)
	T := l.rec.X
	for _, g := range m.placeCounts(l) {
		f := append(append(Facts{}, l.ef.PC...), Ge0(m.n))
		lines := And(Ge(Mul(T, g), m.n), Lt(Sub(Mul(T, g), g), m.n))
		if proveB(f, Ge(g, Int(1)), 2000) && proveB(append(append(Facts{}, f...), Ge(m.n, Int(1))), lines, 3000) &&
			proveB(append(append(Facts{}, f...), Eq(m.n, Int(0))), Le(T, Int(0)), 2000) {
			G = g
			break
		}
	}
	if !c.ob(G != nil, "exactly ceil(items/G) lines are printed for the number G >= 1 of places per line", m.what("loop over lines"), pos,
		fmt.Sprintf("no such number of places was found; the loop runs %s times", tidy(T))) {
		return nil, nil
	}
	if debugMerge {
		for x, d := range phiDef {
			fmt.Println("PHI", tidy(x), "=", clip(tidy(d), 300))
		}
		fmt.Println("G =", tidy(G), "T =", tidy(T))
		fmt.Println("LINE", tidy(l.line))
	}
	cs = m.cases(l, G)
	for _, cs := range cs {
		f := append(append(Facts{}, cs.f...), Ge0(l.rec.K), Lt(l.rec.K, cs.lines), Ge(m.n, Int(1)), Ge(cs.g, Int(1)))
		why := ""
	search:
		for _, wide := range []bool{false, true} {
			for _, trail := range []bool{true, false} {
				want := m.spec("Line", m.items, m.sep, cs.g, cs.lines, Bool(wide), Bool(trail), l.rec.K)
				q := &eqv{budget: 4000}
				if q.eq(f, cs.line, want, 0) {
					cs.ok, cs.wide = true, wide
					break search
				}
				if (why == "" || wide) && trail {
					why = q.why
				}
			}
		}
		c.ob(cs.ok, "each line holds the items of its places in order, each cell aligned to the width of its column and place",
			m.what("line text, case "+clip(tidy(cs.g), 60)), pos, why)
	}
	return cs, G
}

func (m *merge) exclusive() {
	c := m.c
	var or []*Term
	for i, l := range m.loops {
		or = append(or, And(l.ef.PC...))
		for j := 0; j < i; j++ {
			ok := !Feasible(append(append(Facts{}, l.ef.PC...), m.loops[j].ef.PC...))
			c.ob(ok, "one loop over lines runs per call", m.fn.FullName(), m.r.E.pr.Pos(l.ef.Pos), "two loops over lines can run in one call")
		}
	}
	c.ob(proveB(Facts{Ge(m.n, Int(1))}, Or(or...), 2000), "the loop over lines is reached whenever there are items", m.fn.FullName(), m.c.fnPos(m.fn), "a path with items prints nothing")
}

func init() {
	both := func(fn func(c *Ctx, m *merge)) func(c *Ctx) {
		return func(c *Ctx) {
			for _, d := range []string{"H", "V"} {
				if m := c.merge(d); m != nil && m.lineLoops() {
					fn(c, m)
				}
			}
		}
	}
	register("C10", "", both(func(c *Ctx, m *merge) {
		m.exclusive()
		for _, l := range m.loops {
			m.decide(l)
		}
	}))
	register("C11", "", both(func(c *Ctx, m *merge) {
		cf := c.pr.Func(c.pr.Module, "", specPrefix+"ClampWidth")
		v, _ := m.r.E.Call(&State{store: map[string]*Term{}}, cf, nil, []*Term{m.r.Args[2]}, "spec", cf.Pos(), 1)
		for _, l := range m.loops {
			cs, _ := m.decide(l)
			for _, cs := range cs {
				if !cs.ok {
					continue
				}
				fit := m.spec("Fit", m.items, m.sep, cs.g, cs.lines, Bool(cs.wide))
				f := append(append(Facts{}, cs.f...), Ge(m.n, Int(1)), Ge(cs.g, Int(2)), Lt(Len(m.sep), Int(65536)))
				ok := m.proveFit(f, fit, v[0])
				c.ob(ok, "with two or more places the widths used and all separators add up to at most the maximum width",
					m.what("case "+clip(tidy(cs.g), 60)), m.r.E.pr.Pos(l.ef.Pos), "cannot bound "+tidy(fit))
			}
		}
	}))
	register("C29", "", both(func(c *Ctx, m *merge) {
		for _, l := range m.loops {
			m.filled(l)
		}
	}))
	register("C12", "", both(func(c *Ctx, m *merge) {
		for _, l := range m.loops {
			cs, g := m.decide(l)
			if g == nil {
				continue
			}
			pos := m.r.E.pr.Pos(l.ef.Pos)
			g0 := m.withoutCompact(g)
			for _, cs := range cs {
				if !cs.ok {
					continue
				}
				f := append(append(Facts{}, cs.f...), Ge(m.n, Int(1)))
				what := m.what("case " + clip(tidy(cs.g), 60))
				if cs.wide {
					c.ob(ProveDeep(f, m.r.Args[4]), "widths of the compact layout are used only if a compact layout is asked for", what, pos, "")
					c.ob(ProveDeep(f, Gt(cs.g, g0)), "widths of the compact layout are used only if it places more items per line", what, pos, "")
				} else {
					c.ob(ProveDeep(f, Eq(cs.g, g0)), "recorded widths are used only with the number of places they fit", what, pos, "")
				}
			}
		}
	}))
}

// filled: one more place per line than used would not fit, or would stay empty.
func (m *merge) filled(l *mergeLoop) {
	c, pos := m.c, m.r.E.pr.Pos(l.ef.Pos)
	cf := c.pr.Func(c.pr.Module, "", specPrefix+"ClampWidth")
	v, _ := m.r.E.Call(&State{store: map[string]*Term{}}, cf, nil, []*Term{m.r.Args[2]}, "spec", cf.Pos(), 1)
	cs, g := m.decide(l)
	if g == nil {
		return
	}
	compact := m.r.Args[4]
	g0 := m.withoutCompact(g)
	base := Facts{Ge(m.n, Int(1)), Lt(Len(m.sep), Int(65536))}
	// (g-1)*lines >= n and g-1 > (n-1)/lines say the same for lines, n >= 1
	more := func(g *Term, wide bool) (fit, spare *Term) {
		next := Add(g, Int(1))
		lines := m.spec("Lines", m.items, next)
		return m.spec("Fit", m.items, m.sep, next, lines, Bool(wide)), Or(m.spec("Spare", m.items, next, lines), m.spec("Spare2", m.items, next, lines))
	}
	for _, cs := range cs {
		if !cs.ok {
			continue
		}
		what := m.what("case " + clip(tidy(cs.g), 60))
		f := append(append(append(Facts{}, cs.f...), base...), Ge(cs.g, Int(1)))
		// without compact layout
		nf := append(append(Facts{}, f...), Not(compact))
		if Feasible(nf) {
			fit, _ := more(cs.g, false)
			one := m.spec("Fit", m.items, m.sep, Int(2), Int(1), Bool(false))
			goal := Or(Gt(fit, v[0]), Ge(cs.g, m.n), Eq(one, Int(0)))
			c.ob(m.proveFit2(nf, goal), "one more place with the recorded widths would exceed the maximum width", what, pos, tidy(goal))
		}
		nf = append(append(Facts{}, f...), compact)
		if Feasible(nf) {
			fit, spare := more(cs.g, true)
			goal := Gt(fit, v[0])
			c.ob(m.proveFit2(append(nf, conjuncts(Not(spare))...), goal), "one more place with the widths of the compact layout would exceed the maximum width or stay empty", what, pos, tidy(goal))
			c.ob(ProveDeep(nf, Ge(cs.g, g0)), "the compact layout never places fewer items per line", what, pos, "")
		}
	}
}

// withoutCompact: the number of places when no compact layout is asked for.
func (m *merge) withoutCompact(v *Term) *Term {
	for i := 0; i < 8; i++ {
		d := v
		if x, ok := phiDef[v]; ok {
			d = x
		}
		if d.Op != OpIte || !m.layoutGate(d.Args[0]) {
			break
		}
		c := Subst1(Expand(d.Args[0]), m.r.Args[4], False)
		if c == True {
			v = d.Args[1]
		} else if c == False {
			v = d.Args[2]
		} else {
			break
		}
	}
	return v
}

// proveFit proves fit <= max.
func (m *merge) proveFit(f Facts, fit, max *Term) bool { return m.proveFit2(f, Le(fit, max)) }

// proveFit2 proves a goal about the width of a line: sums in it are identified
// with the equal sums the loop facts talk about, named merge values are split
// into their cases.
func (m *merge) proveFit2(f Facts, goal *Term) bool {
	sums := func(ts []*Term) []*Term {
		var r []*Term
		seen := map[*Term]bool{}
		for _, t := range ts {
			Walk(t, func(x *Term) {
				if x.Op == OpApp && x.S == "sum" && !boundFree(x) && !seen[x] {
					seen[x] = true
					r = append(r, x)
				}
			})
		}
		sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
		return r
	}
	for _, x := range f {
		if z := zeroAtom(x); z != nil {
			for _, y := range withAxioms(f) {
				if Contains(y, z) {
					f = append(f[:len(f):len(f)], Subst1(y, z, Int(0)))
				}
			}
		}
	}
	known := sums(withAxioms(f))
	for _, x := range sums([]*Term{goal}) {
		for _, y := range known {
			if x == y {
				break
			}
			q := &eqv{budget: 3000}
			if q.eq(f, x, y, 0) {
				goal = Subst1(goal, x, y)
				break
			}
			if debugMerge {
				fmt.Println("SUM", q.budget, tidy(x), "\n  =?", tidy(y), "\n   ", q.why)
			}
		}
	}
	// below 65536 the separator's length is its 16-bit value
	w := Wrap(Len(m.sep), 0, 65535)
	return proveCases(f, Subst1(goal, Len(m.sep), w), 400) || proveCases(f, goal, 400)
}

// proveCases proves a goal by splitting every named merge value and gate that
// occurs in it (and in the facts about it) into its cases.
func proveCases(f Facts, goal *Term, leaves int) bool {
	n := leaves
	done := map[*Term]bool{}
	val := map[*Term]*Term{}
	var rec func(f Facts, goal *Term) bool
	rec = func(f Facts, goal *Term) bool {
		n--
		if n < 0 {
			return false
		}
		for _, x := range f {
			if z := zeroAtom(x); z != nil && val[z] == nil {
				goal = Subst1(goal, z, Int(0))
				val[z] = Int(0)
				defer delete(val, z)
				// the facts with it being zero, too
				for _, y := range withAxioms(f) {
					if Contains(y, z) {
						f = append(f[:len(f):len(f)], Subst1(y, z, Int(0)))
					}
				}
			}
		}
		if len(val) > 0 {
			goal = Subst(goal, val)
		}
		if goal == True || proveB(f, goal, 150) {
			return true
		}
		// a gate in the goal
		if c := openGate(goal); c != nil {
			for _, v := range []bool{true, false} {
				lit := c
				if !v {
					lit = Not(c)
				}
				nf := append(append(Facts{}, f...), lit)
				if !Feasible(nf) {
					continue
				}
				if !rec(nf, assume(goal, c, v)) {
					return false
				}
			}
			return true
		}
		// a named value in the goal, or in the facts
		var p *Term
		for _, t := range append([]*Term{goal}, f...) {
			if p = Find(t, func(x *Term) bool { _, ok := phiDef[x]; return ok && !done[x] }); p != nil {
				break
			}
		}
		if p == nil {
			r := proveB(f, goal, 1500)
			if !r && debugMerge {
				fmt.Println("LEAF", tidy(goal))
				for _, x := range withAxioms(f) {
					fmt.Println("   ", clip(tidy(x), 600))
				}
			}
			return r
		}
		done[p] = true
		defer func() { delete(done, p); delete(val, p) }()
		cs, ok := Cases(f, phiDef[p], 16)
		if !ok {
			return false
		}
		for _, c := range cs {
			nf := make(Facts, 0, len(c.F))
			for _, x := range c.F {
				nf = append(nf, Subst1(x, p, c.V))
			}
			nf = append(nf, Eq(p, c.V))
			delete(val, p)
			if !Contains(c.V, p) {
				val[p] = c.V
			}
			if !rec(nf, Subst1(goal, p, c.V)) {
				return false
			}
		}
		return true
	}
	return rec(f, goal)
}

// zeroAtom: the literal says that a non-negative atom is zero.
func zeroAtom(lit *Term) *Term {
	if lit.Op != OpNot || lit.Args[0].Op != OpGe0 {
		return nil
	}
	c, ms := monos(lit.Args[0].Args[0])
	if c == -1 && len(ms) == 1 && ms[0].C == 1 && len(ms[0].At) == 1 {
		if a := ms[0].At[0]; nonNeg(a) {
			return a
		}
	}
	return nil
}
