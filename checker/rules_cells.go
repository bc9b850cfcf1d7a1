package main

// C17 (cells of a code point), C18 (lookup table), C19 (cells of a text).

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

const lutLen = (maxRune + 1) / 2

// lutLemma: the lookup table is empty or covers every code point (shown by C15
// and C18 for everything that stores one).
func lutLemma() func(l *Term) *Term {
	full := func(l *Term) *Term { return Or(Eq(Len(l), Int(0)), Ge(Len(l), Int(lutLen))) }
	x := Sym("lut:of", SOther)
	lemma("field:combinedLut", []*Term{x}, full(app("field:combinedLut", SList, x)))
	return full
}

// cells: the width of a code point as a function of the code point, the lookup
// table and the settings.
type cells struct {
	c              *Ctx
	fn             *types.Func
	r              *Run
	arg            *Term
	lut, ea, stric *Term
	val            *Term
}

func (c *Ctx) cells() *cells {
	fn := c.need("runewidth", "Condition", "RuneWidth")
	if fn == nil {
		return nil
	}
	x := &cells{c: c, fn: fn}
	x.r = c.runWith(fn, nil, nil, func(e *Engine) { e.AutoSum = true })
	if !c.covered(x.r) {
		return nil
	}
	what, pos := fn.FullName(), c.fnPos(fn)
	if !c.ob(len(x.r.Args) == 1 && len(x.r.Vals) == 1, "the width is a function of a code point", what, pos, "signature differs") {
		return nil
	}
	bad := ""
	eachEffect(x.r.E.effects, func(ef *Effect, in []*Effect) {
		if ef.Kind != "loop" {
			bad = ef.Kind + " " + ef.Name
		}
	})
	if !c.ob(bad == "", "the width of a code point is only computed", what, pos, "not decided: "+bad) {
		return nil
	}
	x.arg = x.r.Args[0]
	recv := x.r.Recv
	x.lut = app("field:combinedLut", SList, recv)
	x.ea = app("field:EastAsianWidth", SBool, recv)
	x.stric = app("field:StrictEmojiNeutral", SBool, recv)
	x.val = Expand(x.r.Vals[0])
	return x
}

// plain: the width without lookup table under given settings.
func (x *cells) plain(ea, strict *Term) *Term {
	return Subst(x.val, map[*Term]*Term{x.lut: Nil, x.ea: ea, x.stric: strict})
}

func init() {
	register("C17", "", func(c *Ctx) {
		lutLemma()
		x := c.cells()
		if x == nil {
			return
		}
		what, pos := x.fn.FullName(), c.fnPos(x.fn)
		// not code points
		for i, f := range []*Term{Lt(x.arg, Int(0)), Gt(x.arg, Int(maxRune))} {
			ok, why := Equiv(Facts{f}, x.val, Int(0))
			c.ob(ok, "what is not a code point has no width", fmt.Sprintf("%s, %s", what, []string{"negative values", "values above U+10FFFF"}[i]), pos, why)
		}
		ref := refData("width.txt")
		n := 0
		for k := 0; k < 4; k++ {
			ea, st := Bool(k&2 != 0), Bool(k&1 != 0)
			v := Subst1(x.plain(ea, st), x.arg, runeVar)
			tag := fmt.Sprintf("%s, East Asian %v, strict emoji %v", what, k&2 != 0, k&1 != 0)
			set := map[int64]bool{}
			refCuts(ref, set)
			if !c.ob(termCuts(Unfold(v), runeVar, set), "code points are told apart by comparisons and tables alone", tag, pos, "not decided: "+clip(tidy(v), 300)) {
				continue
			}
			bad := 0
			pts := sortedCuts(set, 0, maxRune)
			for i, r := range pts {
				n++
				got := Subst1(v, runeVar, Int(r))
				want := int64(refAt(ref, r)[k] - '0')
				if got != Int(want) && bad < 4 {
					bad++
					hi := int64(maxRune)
					if i+1 < len(pts) {
						hi = pts[i+1] - 1
					}
					c.ob(false, "the width of every code point is the reference one", tag, pos, fmt.Sprintf("U+%04X to U+%04X: width %s, expected %d", r, hi, clip(tidy(got), 200), want))
				}
			}
			if bad == 0 {
				c.ob(true, "the width of every code point is the reference one", tag, pos, "")
			}
		}
		c.note("code-point intervals compared over the four settings: %d", n)
	})
}

func init() {
	register("C18", "", func(c *Ctx) {
		full := lutLemma()
		x := c.cells()
		fn := c.need("runewidth", "Condition", "CreateLUT")
		if x == nil || fn == nil {
			return
		}
		what, pos := fn.FullName(), c.fnPos(fn)
		r := c.runWith(fn, nil, nil, func(e *Engine) { e.AutoSum = true })
		if !c.covered(r) {
			return
		}
		c.tableEqual(x, r, r.Recv, nil, full, what, pos)
		c.settingsKept(r, r.Recv)
		// the package-level function builds the table of the default settings,
		// or leaves one that is in use
		pf := c.need("runewidth", "", "CreateLUT")
		if pf == nil {
			return
		}
		pr := c.runWith(pf, nil, nil, func(e *Engine) { e.AutoSum = true })
		if !c.covered(pr) {
			return
		}
		obj := defaultCond(pr)
		if !c.ob(obj != nil, "the table of the default settings is built", pf.FullName(), c.fnPos(pf), "nothing is stored") {
			return
		}
		old := Len(app("field:combinedLut", SList, obj))
		c.tableEqual(x, pr, obj, Facts{Eq(old, Int(0))}, full, pf.FullName()+", no table in use", c.fnPos(pf))
		now := Expand(pr.E.contents(pr.St, pr.St.store[fmt.Sprintf("f:%d.combinedLut", obj.id)]))
		if e, _ := Equiv(Facts{Ge(old, Int(1))}, now, app("field:combinedLut", SList, obj)); e {
			c.ob(true, "a table in use is kept or rebuilt", pf.FullName(), c.fnPos(pf), "")
		} else {
			c.tableEqual(x, pr, obj, Facts{Ge(old, Int(1))}, full, pf.FullName()+", table in use", c.fnPos(pf))
		}
		c.settingsKept(pr, obj)
	})
}

// defaultCond: the object whose table a run sets, if it is the default condition.
func defaultCond(r *Run) *Term {
	for _, k := range sortedKeys(r.St.store) {
		if strings.HasSuffix(k, ".combinedLut") {
			if o := keyOwner(k); o != nil && strings.HasSuffix(o.S, "runewidth.DefaultCondition") {
				return o
			}
		}
	}
	return nil
}

// settingsKept: a run stores nothing but the lookup table of the object.
func (c *Ctx) settingsKept(r *Run, obj *Term) {
	ok, why := true, ""
	for _, k := range sortedKeys(r.St.store) {
		if !heapKey(k) || k == fmt.Sprintf("f:%d.combinedLut", obj.id) || isFresh(keyOwner(k)) {
			continue
		}
		o := keyOwner(k)
		if k[0] == 'e' && o == app("field:combinedLut", SList, obj) {
			continue // the old table is reused
		}
		if k[0] == 'f' && o != nil {
			f := k[strings.IndexByte(k, '.')+1:]
			if e, _ := Equiv(nil, r.St.store[k], app("field:"+f, r.St.store[k].Sort, o)); e {
				continue
			}
		}
		ok, why = false, "stores into "+k
	}
	c.ob(ok, "building the table changes nothing but the table", r.Fn.FullName(), c.fnPos(r.Fn), why)
}

// tableEqual: the lookup table that a run leaves in an object gives every code
// point the width it has without table under the settings left in the object.
func (c *Ctx) tableEqual(x *cells, r *Run, obj *Term, when Facts, full func(*Term) *Term, what, pos string) {
	get := func(f string, srt Sort) *Term {
		if v, ok := r.St.store[fmt.Sprintf("f:%d.%s", obj.id, f)]; ok {
			if srt == SList {
				v = r.E.contents(r.St, v)
			}
			return Expand(v)
		}
		return app("field:"+f, srt, obj)
	}
	L, ea, st := get("combinedLut", SList), get("EastAsianWidth", SBool), get("StrictEmojiNeutral", SBool)
	base := append(Facts{full(app("field:combinedLut", SList, obj))}, when...)
	c.ob(proveB(base, Ge(Len(L), Int(lutLen)), 1500), "the table covers all code points", what, pos, "length "+tidy(Len(L)))
	P := func(a *Term) *Term { return Subst1(x.plain(ea, st), x.arg, a) }
	lo, hi := leafRange(x.plain(x.ea, x.stric))
	if !c.ob(lo != nil && hi != nil && *lo >= 0 && *hi <= 8, "a width is a small number", what, pos, "not decided: range of a width") {
		return
	}
	good, why := false, ""
	q := SymR("lut:q", i64p(0), i64p(maxRune))
	n := 0
	for _, m := range []int64{2, 1, 4, 8} {
		all := true
		for b := int64(0); b < m && all; b++ {
			a := Add(Scale(m, q), Int(b))
			f := append(append(Facts{}, base...), Ge0(a), Le(a, Int(maxRune)))
			v := unfoldTo(Subst(x.val, map[*Term]*Term{x.lut: L, x.ea: ea, x.stric: st, x.arg: a}), x.fn)
			// widths without table of the code points around
			near := map[*Term]int64{}
			for d := int64(-8); d <= 8; d++ {
				near[Simp(f, P(Add(a, Int(d))))] = d
			}
			sub := map[*Term]*Term{}
			used := map[int64]*Term{}
			sym := func(d int64) *Term {
				t := SymR(fmt.Sprintf("lut:w%d", d), lo, hi)
				used[d] = t
				return t
			}
			Walk(v, func(t *Term) {
				if t.Op != OpApp || !strings.HasPrefix(t.S, "fn:") {
					return
				}
				if d, ok := near[t]; ok {
					sub[t] = sym(d)
					return
				}
				s, _ := sumOfApp(t.S)
				if s == nil || s.fn != x.fn {
					return
				}
				ok := true
				var at *Term
				for i, in := range s.ins {
					g := t.Args[i]
					switch {
					case strings.HasSuffix(in.S, ":combinedLut"):
						ok = ok && proveB(f, Eq(Len(g), Int(0)), 1000)
					case strings.HasSuffix(in.S, ":EastAsianWidth"):
						e, _ := Equiv(f, g, ea)
						ok = ok && e
					case strings.HasSuffix(in.S, ":StrictEmojiNeutral"):
						e, _ := Equiv(f, g, st)
						ok = ok && e
					default:
						ok = ok && at == nil
						at = Simp(f, g)
					}
				}
				if !ok || at == nil {
					return
				}
				if d := Sub(at, a); d.Op == OpInt {
					sub[t] = sym(d.N)
				}
			})
			v = Simp(f, Subst(v, sub))
			w0 := sym(0)
			var ds []int64
			for d := range used {
				ds = append(ds, d)
			}
			sort.Slice(ds, func(i, j int) bool { return ds[i] < ds[j] })
			// every combination of the widths packed together
			var try func(i int, env map[*Term]*Term)
			try = func(i int, env map[*Term]*Term) {
				if !all {
					return
				}
				if i < len(ds) {
					for w := *lo; w <= *hi; w++ {
						env[used[ds[i]]] = Int(w)
						try(i+1, env)
					}
					return
				}
				n++
				e, y := Equiv(f, Subst(v, env), env[w0])
				if !e {
					all = false
					if why == "" {
						why = fmt.Sprintf("code points %d*q+%d: %s", m, b, y)
					}
				}
			}
			if len(ds) > 8 {
				all = false
				continue
			}
			try(0, map[*Term]*Term{})
		}
		if all {
			good = true
			break
		}
	}
	c.ob(good, "a table entry is the width without table", what, pos, why)
	c.note("%s: packed combinations evaluated: %d", what, n)
}

// unfoldTo puts back the definitions of summarised functions that use fn.
func unfoldTo(t *Term, fn *types.Func) *Term {
	uses := map[*fnSum]bool{}
	var reach func(s *fnSum) bool
	reach = func(s *fnSum) bool {
		if r, ok := uses[s]; ok {
			return r
		}
		uses[s] = false
		for _, d := range s.defs {
			Walk(d, func(x *Term) {
				if x.Op == OpApp && strings.HasPrefix(x.S, "fn:") {
					if o, _ := sumOfApp(x.S); o != nil && (o.fn == fn || reach(o)) {
						uses[s] = true
					}
				}
			})
		}
		return uses[s]
	}
	for i := 0; i < 20; i++ {
		m := map[*Term]*Term{}
		Walk(t, func(x *Term) {
			if x.Op == OpApp && strings.HasPrefix(x.S, "fn:") && !boundFree(x) {
				if s, n := sumOfApp(x.S); s != nil && s.fn != fn && reach(s) {
					m[x] = s.unfold(n, x.Args)
				}
			}
		})
		if len(m) == 0 {
			break
		}
		t = Subst(t, m)
	}
	return t
}

func init() {
	register("C19", "", func(c *Ctx) {
		if !c.stepLemma() {
			return
		}
		fn := c.need("runewidth", "Condition", "StringWidth")
		pf := c.need("runewidth", "", "StringWidth")
		if fn == nil || pf == nil {
			return
		}
		c.clusterSum(fn)
		// the package-level function measures under the default settings
		r := c.run(pf, []string{cellsFn}, nil)
		if !c.covered(r) {
			return
		}
		v := Expand(r.Vals[0])
		ok := v.Op == OpApp && v.S == "call:"+cellsFn && len(v.Args) == 2 && strings.HasSuffix(v.Args[0].S, "runewidth.DefaultCondition") && v.Args[1] == r.Args[0]
		c.ob(ok, "the package-level measurement uses the default settings", pf.FullName(), c.fnPos(pf), "computes "+tidy(v))
		c.onlyPrivate(r)
	})
}

// clusterSum: the width of a text is the sum of the widths of its clusters.
func (c *Ctx) clusterSum(fn *types.Func) {
	r := c.runWith(fn, []string{"RuneWidth", "StepString"}, nil, func(e *Engine) {
		e.AutoSum = true
		e.RetRange = map[string][2]int64{"call:runewidth.Condition.RuneWidth": {0, 2}}
	})
	if !c.covered(r) {
		return
	}
	what, pos := fn.FullName(), c.fnPos(fn)
	s := r.Args[0]
	var step *Effect
	var rec *LoopRec
	bad := ""
	eachEffect(r.E.effects, func(ef *Effect, in []*Effect) {
		switch {
		case ef.Kind == "call" && strings.HasSuffix(ef.Name, "StepString"):
			if step != nil && (step.Args[0] != ef.Args[0] || step.Args[1] != ef.Args[1]) {
				bad = "several steps"
			}
			if len(in) != 1 {
				bad = "a step outside the loop over clusters"
			} else {
				rec = in[0].Loop
			}
			step = ef
		case ef.Kind == "call", ef.Kind == "loop", ef.Kind == "fieldset" && isFresh(ef.Args[0]):
		default:
			bad = ef.Kind + " " + ef.Name
		}
	})
	if !c.ob(bad == "" && step != nil && rec != nil, "one loop steps through the clusters", what, pos, "not decided: "+bad) {
		return
	}
	c.onlyPrivate(r)
	lp := c.pr.Pos(rec.Pos)
	st := &stepper{c: c, fn: fn, r: r, rec: rec}
	rest, state := st.toK(step.Args[0]), st.toK(step.Args[1])
	ap := func(i int, srt Sort) *Term {
		return app(fmt.Sprintf("call:uniseg.StepString#%d", i), srt, rest, state)
	}
	// the rest of a step is what follows its cluster
	norm := func(t *Term) *Term {
		m := map[*Term]*Term{}
		Walk(t, func(x *Term) {
			if x.Op == OpApp && x.S == "call:uniseg.StepString#1" {
				cl := app("call:uniseg.StepString#0", SStr, x.Args...)
				m[x] = Slice(x.Args[0], Len(cl), Len(x.Args[0]))
			}
		})
		return Subst(t, m)
	}
	at := func(t, k0 *Term, val func(k string) *Term) *Term {
		m := map[*Term]*Term{}
		for _, k := range rec.Keys {
			if !rec.Solved[k] {
				m[rec.Hsym[k]] = val(k)
			}
		}
		m[rec.K] = k0
		return Subst(t, m)
	}
	initOf := func(k string) *Term { return Expand(rec.Init[k]) }
	backOf := func(k string) *Term { return st.toK(rec.Back[k]) }
	i0 := at(rest, Int(0), initOf)
	ok, why := Equiv(nil, i0, s)
	c.ob(ok, "stepping starts with the whole text", what, lp, why)
	ok, why = Equiv(nil, at(state, Int(0), initOf), Int(-1))
	c.ob(ok, "stepping starts without state", what, lp, why)
	some := Facts{Ge(Len(rest), Int(1)), Ge(ap(3, SInt), Int(0))}
	fb := append(st.facts(rec.BackF), some...)
	same := func(a, b *Term) (bool, string) {
		if o, _ := Equiv(fb, a, b); o {
			return true, ""
		}
		return Equiv(fb, norm(a), norm(b))
	}
	k1 := Add(rec.K, Int(1))
	next := at(rest, k1, backOf)
	ok, why = same(next, ap(1, SStr))
	c.ob(ok, "every step goes on with what the last one left", what, lp, why)
	ok, why = same(at(state, k1, backOf), ap(3, SInt))
	c.ob(ok, "every step goes on with the state of the last one", what, lp, why)
	// the loop ends exactly when nothing is left
	f0 := st.facts(nil)
	for _, x := range rec.Exits {
		g := append(append(Facts{}, f0...), st.toK(x.Guard))
		g = append(g, st.facts(x.Facts)...)
		c.ob(!Feasible(append(append(Facts{}, g...), some...)) || proveB(g, Eq(Len(rest), Int(0)), 1500), "the loop ends only when no text is left", what, c.pr.Pos(max(x.Pos, rec.Pos)), "may end before: "+tidy(st.toK(x.Guard)))
	}
	if !rec.NoBack {
		c.ob(proveB(st.facts(rec.BackF), Ge(Len(rest), Int(1)), 1500), "the loop goes on only while text is left", what, lp, "may go on")
	}
	// the sum
	v := r.Vals[0]
	var key string
	for _, k := range rec.Keys {
		if !rec.Solved[k] && rec.Hsym[k].Sort == SInt && rec.X != nil && Subst1(rec.Hsym[k], rec.K, rec.X) == Expand(v) {
			key = k
		}
	}
	if !c.ob(key != "", "the result is the sum when the loop ends", what, pos, "not decided: returns "+clip(tidy(Expand(v)), 300)) {
		return
	}
	h := rec.Hsym[key]
	ok, why = Equiv(nil, Expand(rec.Init[key]), Int(0))
	c.ob(ok, "the sum starts at zero", what, lp, why)
	sf := c.pr.Func("runewidth", "Condition", specPrefix+"ClusterWidth")
	if sf == nil {
		sf = c.pr.Func(c.pr.Module+"/runewidth", "Condition", specPrefix+"ClusterWidth")
	}
	if !c.ob(sf != nil, "specification evaluates", specPrefix+"ClusterWidth", "-", "missing") {
		return
	}
	lg := r.E.log
	r.E.log = false
	vals, _ := r.E.Call(&State{store: map[string]*Term{}, pc: append(Facts{}, fb...)}, sf, r.Recv, []*Term{ap(0, SStr)}, "spec", sf.Pos(), 1)
	r.E.log = lg
	got := Sub(st.toK(rec.Back[key]), h)
	ok, why = Equiv(fb, got, Expand(vals[0]))
	c.ob(ok, "every cluster adds the width of its first code point that has one", what, lp, why)
	c.noPanics(what, r)
}
