package main

// C23 (locale), C24 (environment override), C26 (platforms).

import (
	"fmt"
	"go/types"
	"strings"
)

// caseEquiv decides equality of two boolean or integer terms by splitting on the
// conditions they are built from, smallest first.
type caseEq struct {
	budget int
	why    string
	done   map[[2]*Term]bool
	leaves int
}

func condAtoms(t *Term, out map[*Term]bool, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	switch t.Op {
	case OpAnd, OpOr, OpNot:
		for _, a := range t.Args {
			condAtoms(a, out, seen)
		}
		return
	case OpIte:
		condAtoms(t.Args[0], out, seen)
		condAtoms(t.Args[1], out, seen)
		condAtoms(t.Args[2], out, seen)
		return
	}
	if t.Sort == SBool && t.Op != OpBool && !boundVar(t) {
		// conditions inside come first
		n := len(out)
		for _, a := range t.Args {
			Walk(a, func(x *Term) {
				if x.Op == OpIte && !boundVar(x.Args[0]) {
					condAtoms(x.Args[0], out, seen)
				}
			})
		}
		if len(out) == n {
			out[t] = true
		}
		return
	}
	for _, a := range t.Args {
		condAtoms(a, out, seen)
	}
	for _, m := range t.Lin {
		for _, a := range m.At {
			condAtoms(a, out, seen)
		}
	}
}

func termSize(t *Term) int {
	n := 0
	Walk(t, func(*Term) { n++ })
	return n
}

func (q *caseEq) eq(f Facts, a, b *Term) bool {
	if a == b {
		return true
	}
	if q.done[[2]*Term{a, b}] {
		return true
	}
	q.budget--
	if q.budget < 0 {
		q.why = "not decided: too many cases"
		return false
	}
	atoms := map[*Term]bool{}
	seen := map[*Term]bool{}
	condAtoms(a, atoms, seen)
	condAtoms(b, atoms, seen)
	var best *Term
	bs := 0
	for x := range atoms {
		if n := termSize(x); best == nil || n < bs || (n == bs && x.id < best.id) {
			best, bs = x, n
		}
	}
	q.leaves++
	if best == nil {
		if !Feasible(f) || proveB(f, False, 2000) {
			return true
		}
		if a.Sort == SInt && proveB(f, Eq(a, b), 1000) {
			return true
		}
		if q.why == "" {
			var cs []string
			for _, x := range f {
				cs = append(cs, clip(tidy(x), 260))
			}
			q.why = "computed " + clip(tidy(a), 200) + ", required " + clip(tidy(b), 200) + ", when " + strings.Join(cs[max(0, len(cs)-12):], " and ")
		}
		return false
	}
	ok := true
	for _, v := range []bool{true, false} {
		lit := best
		if !v {
			lit = Not(best)
		}
		nf := append(append(Facts{}, f...), lit)
		x, y := assume(a, best, v), assume(b, best, v)
		if v && best.Op == OpEq {
			// a text equal to a constant is that constant
			l, r := best.Args[0], best.Args[1]
			if l.Op == OpStr {
				l, r = r, l
			}
			if r.Op == OpStr && l.Op != OpStr {
				sub := map[*Term]*Term{l: r, Len(l): Int(int64(len(r.S)))}
				if l.Op == OpApp && l.S == "slice" {
					for i := 0; i < len(r.S); i++ {
						sub[Index(l.Args[0], Add(l.Args[1], Int(int64(i))))] = Int(int64(r.S[i]))
					}
				}
				x, y = Subst(x, sub), Subst(y, sub)
				bad := false
				for _, g := range f {
					if Subst(g, sub) == False {
						bad = true
					}
				}
				if bad {
					continue
				}
			}
		}
		if best.Op == OpGe0 {
			// a text of length zero is the empty text
			if l := Find(best, func(t *Term) bool { return t.Op == OpApp && t.S == "len" && t.Args[0].Sort == SStr }); l != nil && Prove(nf, Eq(l, Int(0))) {
				sub := map[*Term]*Term{l.Args[0]: Str(""), l: Int(0)}
				x, y = Subst(x, sub), Subst(y, sub)
				for _, g := range f {
					h := Subst(g, sub)
					if h == g {
						continue
					}
					nf = append(nf, h)
					if h.Op == OpNot {
						x, y = assume(x, h.Args[0], false), assume(y, h.Args[0], false)
					} else {
						x, y = assume(x, h, true), assume(y, h, true)
					}
				}
			}
		}
		if x != y && !Feasible(nf) {
			continue
		}
		ok = ok && q.eq(nf, x, y)
		if !ok {
			return false
		}
	}
	if len(f) == 0 {
		q.done[[2]*Term{a, b}] = true
	}
	return ok
}

func (c *Ctx) caseEquiv(f Facts, a, b *Term) (bool, string) {
	q := &caseEq{budget: 20000, done: map[[2]*Term]bool{}}
	ok := q.eq(f, spellTexts(Expand(a)), spellTexts(Expand(b)))
	c.note("cases compared: %d", q.leaves)
	return ok, q.why
}

// spellTexts spells out comparisons of the beginning or end of a text byte by byte.
func spellTexts(t *Term) *Term {
	m := map[*Term]*Term{}
	bytes := func(s, from *Term, k string) *Term {
		var cs []*Term
		for i := 0; i < len(k); i++ {
			cs = append(cs, Eq(Index(s, Add(from, Int(int64(i)))), Int(int64(k[i]))))
		}
		return And(cs...)
	}
	Walk(t, func(x *Term) {
		if boundVar(x) {
			return
		}
		switch {
		case x.Op == OpApp && x.S == "fold:strings.HasPrefix" && x.Args[1].Op == OpStr:
			s, k := x.Args[0], x.Args[1].S
			m[x] = And(Ge(Len(s), Int(int64(len(k)))), bytes(s, Int(0), k))
		case x.Op == OpEq && x.Args[0].Sort == SStr:
			l, r := x.Args[0], x.Args[1]
			if l.Op == OpStr {
				l, r = r, l
			}
			if r.Op == OpStr && l.Op == OpApp && l.S == "slice" && Sub(l.Args[2], l.Args[1]) == Int(int64(len(r.S))) {
				m[x] = bytes(l.Args[0], l.Args[1], r.S)
			}
		}
	})
	return Subst(t, m)
}

// sameRegexps replaces the regular expressions in got by the equivalent ones of
// want, by their patterns.
func (c *Ctx) sameRegexps(got, want *Term, what, pos string) *Term {
	refs := map[string]*Term{}
	Walk(want, func(x *Term) {
		if reSrc[x] != "" {
			refs[reSrc[x]] = x
		}
	})
	sub := map[*Term]*Term{}
	Walk(got, func(x *Term) {
		s := reSrc[x]
		if s == "" || refs[s] == x {
			return
		}
		why := "no reference"
		for _, k := range sortedKeys(refs) {
			ok, w := reEquiv(s, k)
			if ok {
				sub[x] = refs[k]
			}
			why = w
		}
		c.ob(sub[x] != nil, "the regular expression matches and captures as specified", what+": "+tidy(x), pos, why)
	})
	return Subst(got, sub)
}

func init() {
	register("C23", "", func(c *Ctx) {
		fn, pf := c.need("runewidth", "", "isEastAsian"), c.need("runewidth", "", "IsEastAsian")
		if fn == nil || pf == nil {
			return
		}
		spec := func(n string, op []string) *Run {
			sf := c.pr.Func(c.pr.Module+"/runewidth", "", specPrefix+n)
			if sf == nil {
				c.ob(false, "specification evaluates", n, "-", "missing")
				return nil
			}
			r := c.runWith(sf, op, nil, nil)
			if !c.ob(r.Err == "", "specification evaluates", n, "-", r.Err) {
				return nil
			}
			return r
		}
		r, s := c.run(fn, nil, nil), spec("IsEastAsian", nil)
		if !c.covered(r) || s == nil {
			return
		}
		what, pos := fn.FullName(), c.fnPos(fn)
		want := Expand(s.Vals[0])
		got := c.sameRegexps(Expand(r.Vals[0]), want, what, pos)
		ok, why := c.caseEquiv(nil, got, want)
		c.ob(ok, "a locale is East Asian by its character set and language as specified", what, pos, why)
		c.pureQuery(r)
		r, s = c.run(pf, []string{"isEastAsian"}, nil), spec("Locale", []string{"isEastAsian"})
		if !c.covered(r) || s == nil {
			return
		}
		ok, why = c.caseEquiv(nil, Expand(r.Vals[0]), Expand(s.Vals[0]))
		c.ob(ok, "the locale is the first one set, C locales are never East Asian", pf.FullName(), c.fnPos(pf), why)
		c.pureQuery(r)
	})
}

// pureQuery: a run stores and writes nothing.
func (c *Ctx) pureQuery(r *Run) {
	bad := ""
	eachEffect(r.E.effects, func(ef *Effect, in []*Effect) {
		switch ef.Kind {
		case "loop", "call", "env":
		case "panic":
			if Feasible(ef.PC) {
				bad = "panics"
			}
		default:
			bad = ef.Kind + " " + ef.Name
		}
	})
	for _, k := range sortedKeys(r.St.store) {
		if heapKey(k) && !isFresh(keyOwner(k)) {
			bad = "stores " + k
		}
	}
	c.ob(bad == "", "the query only looks", r.Fn.FullName(), c.fnPos(r.Fn), bad)
}

func init() {
	register("C24", "", func(c *Ctx) {
		full := lutLemma()
		x := c.cells()
		he := c.need("runewidth", "", "handleEnv")
		if x == nil || he == nil {
			return
		}
		fns := []*types.Func{he}
		for fn, d := range c.pr.Decl {
			if fn.Name() == "init" && d.Body != nil && strings.HasSuffix(fn.Pkg().Path(), "/runewidth") {
				fns = append(fns, fn)
			}
		}
		if !c.ob(len(fns) == 2, "configuration is read at start-up", "init", c.fnPos(he), "not decided: no single init function") {
			return
		}
		for _, fn := range fns {
			c.readsEnv(x, fn, full)
		}
		c.newCondition(he.Pkg())
	})
}

// newCondition: a new condition has the current settings and no table.
func (c *Ctx) newCondition(pk *types.Package) {
	fn := c.need("runewidth", "", "NewCondition")
	if fn == nil {
		return
	}
	r := c.runWith(fn, nil, nil, nil)
	if !c.covered(r) {
		return
	}
	what, pos := fn.FullName(), c.fnPos(fn)
	if !c.ob(isAlloc(r.Vals[0]), "a new condition is freshly allocated", what, pos, tidy(r.Vals[0])) {
		return
	}
	for _, f := range []string{"EastAsianWidth", "StrictEmojiNeutral"} {
		v, ok := pk.Scope().Lookup(f).(*types.Var)
		got := r.St.store[fmt.Sprintf("f:%d.%s", r.Vals[0].id, f)]
		if !c.ob(ok && got != nil, "the current settings are package variables", what, pos, f) {
			continue
		}
		eq, why := Equiv(nil, Expand(got), gvarTerm(v))
		c.ob(eq, "a new condition has the current settings", what+", "+f, pos, why)
	}
	if l := r.St.store[fmt.Sprintf("f:%d.combinedLut", r.Vals[0].id)]; l != nil {
		c.ob(Prove(nil, Eq(Len(Expand(r.E.contents(r.St, l))), Int(0))), "a new condition has no lookup table", what, pos, tidy(l))
	}
	c.noChange(r)
	c.noPanics(what, r)
}

func (c *Ctx) readsEnv(x *cells, fn *types.Func, full func(*Term) *Term) {
	what, pos := fn.FullName(), c.fnPos(fn)
	r := c.runWith(fn, []string{"IsEastAsian"}, nil, func(e *Engine) { e.AutoSum = true })
	if !c.covered(r) {
		return
	}
	sf := c.pr.Func(c.pr.Module+"/runewidth", "", specPrefix+"Mode")
	s := c.runWith(sf, []string{"IsEastAsian"}, nil, nil)
	if !c.ob(s.Err == "", "specification evaluates", specPrefix+"Mode", "-", s.Err) {
		return
	}
	mode := Expand(s.Vals[0])
	var obj, flag *Term
	for _, k := range sortedKeys(r.St.store) {
		if !heapKey(k) {
			continue
		}
		o := keyOwner(k)
		switch {
		case k[0] == 'g' && strings.HasSuffix(k, ".EastAsianWidth"):
			flag = Expand(r.St.store[k])
		case k[0] == 'f' && o != nil && strings.HasSuffix(o.S, "runewidth.DefaultCondition"):
			obj = o
		case isFresh(o):
		case k[0] == 'e' && o != nil && o.S == "field:combinedLut":
		default:
			c.ob(false, "reading the configuration changes the mode and the table only", what, pos, "stores "+k)
		}
	}
	if !c.ob(obj != nil && flag != nil, "the mode flag and the default settings are set", what, pos, "not decided: not both are stored") {
		return
	}
	ok, why := c.caseEquiv(nil, flag, mode)
	c.ob(ok, "the mode is forced by the environment or taken from the locale", what, pos, why)
	get := func(f string, srt Sort) *Term {
		if v, ok := r.St.store[fmt.Sprintf("f:%d.%s", obj.id, f)]; ok {
			if srt == SList {
				v = r.E.contents(r.St, v)
			}
			return Expand(v)
		}
		return app("field:"+f, srt, obj)
	}
	ok, why = c.caseEquiv(nil, get("EastAsianWidth", SBool), mode)
	c.ob(ok, "the default settings have the mode", what, pos, why)
	ok, why = c.caseEquiv(nil, get("StrictEmojiNeutral", SBool), app("field:StrictEmojiNeutral", SBool, obj))
	c.ob(ok, "the other default settings stay", what, pos, why)
	// the table
	old, oldEA := app("field:combinedLut", SList, obj), app("field:EastAsianWidth", SBool, obj)
	now := get("combinedLut", SList)
	for _, on := range []bool{false, true} {
		for _, was := range []bool{false, true} {
			f := Facts{full(old)}
			m, o := mode, oldEA
			if !on {
				m = Not(mode)
			}
			if !was {
				o = Not(oldEA)
			}
			f = append(f, m, o)
			tag := fmt.Sprintf("%s, mode %v to %v", what, was, on)
			idle, used := append(append(Facts{}, f...), Eq(Len(old), Int(0))), append(append(Facts{}, f...), Ge(Len(old), Int(1)))
			if !proveB(idle, Eq(Len(now), Int(0)), 1500) {
				c.tableEqual(x, r, obj, idle, full, tag+", no table", pos)
			} else {
				c.ob(true, "without a table none is left that is out of date", tag, pos, "")
			}
			if on == was {
				if e, _ := Equiv(used, now, old); e {
					c.ob(true, "a table in use keeps up with the mode", tag, pos, "")
					continue
				}
			}
			if proveB(used, Eq(Len(now), Int(0)), 1500) {
				c.ob(true, "a table in use keeps up with the mode", tag, pos, "")
				continue
			}
			c.tableEqual(x, r, obj, used, full, tag+", table in use", pos)
		}
	}
	c.noPanics(what, r)
}
