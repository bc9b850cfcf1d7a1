package main

// Entailment in the linear-restraint domain: facts and goal are formulas over
// integer polynomials; non-linear monomials are treated as extra variables with
// a few sign lemmas.  Fourier-Motzkin elimination with integer tightening
// decides emptiness of a conjunction; disjunctions, gated values and the sign
// of dividends are split.  "false" always means "not shown".

import (
	"encoding/binary"
	"math"
	"sort"
)

type Facts []*Term

type prover struct {
	budget int
}

func Prove(f Facts, goal *Term) bool {
	return proveB(f, goal, 400)
}

func ProveDeep(f Facts, goal *Term) bool { return proveB(f, goal, 6000) }

func proveB(f Facts, goal *Term, budget int) bool {
	if goal == True {
		return true
	}
	if goal.Op == OpAnd {
		for _, a := range goal.Args {
			if !proveB(f, a, budget) {
				return false
			}
		}
		return true
	}
	fs := append(append(Facts{}, f...), Not(goal))
	key := factKey(fs, budget)
	if r, ok := proveMemo[key]; ok && r.gen == len(symAxioms) {
		return r.ok
	}
	r := false
	if q := quiet(f, goal); len(q) < len(f) {
		p := &prover{budget: 80}
		r = p.refute(withAxioms(append(q, Not(goal))), 0)
	}
	if !r {
		p := &prover{budget: budget}
		r = p.refute(withAxioms(fs), 0)
	}
	if !r {
		r = proveBlock(f, goal)
	}
	proveMemo[key] = memoEnt{r, len(symAxioms)}
	return r
}

// geVal: the value an inequality says is at least zero.
func geVal(x *Term) *Term {
	if x.Op == OpGe0 {
		return x.Args[0]
	}
	if x.Op == OpNot && x.Args[0].Op == OpGe0 {
		return Sub(Neg(x.Args[0].Args[0]), Int(1))
	}
	return nil
}

// proveBlock: place c of block s, with blocks of n elements, lies before the end
// of m blocks: n*s + c < n*m follows from c < n and s < m. In general, a goal is
// some known non-negative value plus n times a non-negative one.
func proveBlock(f Facts, goal *Term) bool {
	t := geVal(goal)
	if t == nil {
		return false
	}
	_, ms := monos(t)
	ns := map[*Term]bool{}
	for _, m := range ms {
		if len(m.At) >= 2 {
			for _, a := range m.At {
				if a.Op == OpApp && a.S == "len" {
					ns[a] = true
				}
			}
		}
	}
	if len(ns) == 0 {
		return false
	}
	for n := range ns {
		for _, x := range f {
			v := geVal(x)
			if v == nil {
				continue
			}
			if q := divMono(Sub(t, v), n); q != nil && q.Op != OpInt && Prove(f, Ge0(q)) {
				return true
			}
		}
		// the rest of the value is at least zero by itself
		_, ms := monos(t)
		for _, m := range ms {
			if len(m.At) == 1 && m.C == 1 && m.At[0] != n {
				if q := divMono(Sub(t, m.At[0]), n); q != nil && Prove(f, Ge0(m.At[0])) && Prove(f, Ge0(q)) {
					return true
				}
			}
		}
	}
	return false
}

// quiet drops facts that would only cause case splits: disjunctions and gated
// values that share no loop symbol with the goal.
func quiet(f Facts, goal *Term) Facts {
	var ga map[*Term]bool
	var out Facts
	for _, x := range f {
		if !splitty(x) {
			out = append(out, x)
			continue
		}
		if ga == nil {
			ga = map[*Term]bool{}
			for _, a := range axiomAtoms(goal) {
				ga[a] = true
			}
		}
		for _, a := range axiomAtoms(x) {
			if ga[a] && a.S != "first" {
				out = append(out, x)
				break
			}
		}
	}
	return out
}

var splitMemo = map[*Term]bool{}

func splitty(x *Term) bool {
	if v, ok := splitMemo[x]; ok {
		return v
	}
	v := Find(x, func(t *Term) bool { return t.Op == OpIte || t.Op == OpOr }) != nil ||
		Find(x, func(t *Term) bool { return t.Op == OpNot && t.Args[0].Op == OpAnd }) != nil
	splitMemo[x] = v
	return v
}

type memoEnt struct {
	ok  bool
	gen int
}

var proveMemo = map[string]memoEnt{}

func factKey(fs Facts, budget int) string {
	ids := make([]int, 0, len(fs))
	for _, f := range fs[:len(fs)-1] {
		ids = append(ids, f.id)
	}
	sort.Ints(ids)
	b := make([]byte, 0, 8*len(fs))
	b = appendInt(b, int64(budget))
	last := -1
	for _, i := range ids {
		if i != last {
			b = append(b, ' ')
			b = appendInt(b, int64(i))
		}
		last = i
	}
	b = append(b, '|')
	b = appendInt(b, int64(fs[len(fs)-1].id))
	return string(b)
}

// Feasible reports whether the facts could hold (true when not refuted).
func Feasible(f Facts) bool {
	p := &prover{budget: 200}
	return !p.refute(withAxioms(f), 0)
}

// lemmas: applications with facts established or assumed by a rule.
var lemmas = map[string]bool{}

func lemma(name string, formals []*Term, forms ...*Term) {
	lemmas[name] = true
	symAxioms[name] = &axiom{formals, forms}
	axAtoms = map[*Term][]*Term{}
}

var axAtoms = map[*Term][]*Term{}

// axiomAtoms: subterms that carry axioms (outside binders).
func axiomAtoms(t *Term) []*Term {
	if r, ok := axAtoms[t]; ok {
		return r
	}
	var r []*Term
	Walk(t, func(x *Term) {
		if x.Op != OpApp {
			return
		}
		if x.S == "first" || x.S == "rehi" || x.S == "relo" || x.S == "recount" || x.S == "reilo" || x.S == "restart" || x.S == "mok" || (len(x.S) > 2 && x.S[1] == ':' && (x.S[0] == 'x' || x.S[0] == 'h' || x.S[0] == 'p')) {
			if !boundVar(x) {
				r = append(r, x)
			}
		} else if lemmas[x.S] && !boundVar(x) {
			r = append(r, x)
		}
	})
	axAtoms[t] = r
	return r
}

// boundFree: the term mentions a bound variable that it does not bind itself.
func boundFree(x *Term) bool {
	var rec func(t *Term, bound map[*Term]int) bool
	rec = func(t *Term, bound map[*Term]int) bool {
		if t.Op == OpSym && len(t.S) > 1 && t.S[:2] == "$b" {
			return bound[t] == 0
		}
		if t.bh == 0 {
			return false
		}
		if t.Op == OpApp && binderBody[t.S] != 0 {
			for i, a := range t.Args {
				if i == 1 || i == 2 {
					continue
				}
				if rec(a, bound) {
					return true
				}
			}
			bound[t.Args[1]]++
			r := rec(t.Args[2], bound)
			bound[t.Args[1]]--
			return r
		}
		for _, a := range t.Args {
			if rec(a, bound) {
				return true
			}
		}
		for _, m := range t.Lin {
			for _, a := range m.At {
				if rec(a, bound) {
					return true
				}
			}
		}
		return false
	}
	return rec(x, map[*Term]int{})
}

// withAxioms adds the defining facts of the loop symbols that occur.
func withAxioms(fs Facts) Facts {
	done := map[*Term]bool{}
	out := fs
	todo := fs
	for round := 0; round < 4; round++ {
		var next Facts
		for _, f := range todo {
			for _, x := range axiomAtoms(f) {
				if done[x] {
					continue
				}
				done[x] = true
				if x.S == "first" {
					n := x.Args[0]
					at := Inst(x, x)
					prev := Inst(x, Sub(x, Int(1)))
					next = append(next,
						Or(Le(x, n), Lt(n, Int(0))),
						Or(Ge(x, n), at),
						Or(Lt(x, Int(1)), Not(prev)),
						Or(Lt(x, n), Lt(n, Int(1)), Not(Inst(x, Sub(n, Int(1))))))
					continue
				}
				if x.S == "mok" {
					// an absent key reads as zero
					next = append(next, Or(x, Eq(app("mget", SInt, x.Args[0], x.Args[1]), Int(0))))
					continue
				}
				if x.S == "rehi" || x.S == "relo" {
					re, s := x.Args[0], x.Args[1]
					lo, hi := app("relo", SInt, re, s), app("rehi", SInt, re, s)
					next = append(next, Ge(hi, lo), Le(hi, Len(s)),
						Or(Not(app("rematch", SBool, re, s)), Ge(hi, Add(lo, Int(reMinLen[re])))))
					continue
				}
				if x.S == "recount" || x.S == "reilo" || x.S == "restart" {
					if rePlain[x.Args[0]] && round < 2 {
						next = append(next, reAxioms(x)...)
					}
					continue
				}
				ax := symAxioms[x.S]
				if ax == nil || len(ax.formals) != len(x.Args) {
					continue
				}
				m := map[*Term]*Term{}
				for i := range ax.formals {
					if ax.formals[i] != x.Args[i] {
						m[ax.formals[i]] = x.Args[i]
					}
				}
				for _, g := range ax.forms {
					next = append(next, Subst(g, m))
				}
			}
		}
		if len(next) == 0 {
			break
		}
		out = append(append(Facts{}, out...), next...)
		todo = next
		if len(out) > 120 {
			break
		}
	}
	return out
}

func (p *prover) refute(fs Facts, depth int) bool {
	p.budget--
	if p.budget < 0 || depth > 24 {
		return false
	}
	// flatten to literals and disjunctions
	lits := map[*Term]bool{} // literal -> polarity
	var ors []*Term
	var order []*Term
	contradiction := false
	var put func(t *Term, pol bool)
	put = func(t *Term, pol bool) {
		switch t.Op {
		case OpBool:
			if (t.N == 1) != pol {
				contradiction = true
			}
		case OpNot:
			put(t.Args[0], !pol)
		case OpAnd:
			if pol {
				for _, a := range t.Args {
					put(a, true)
				}
			} else {
				ors = append(ors, Not(t))
			}
		case OpOr:
			if pol {
				ors = append(ors, t)
			} else {
				for _, a := range t.Args {
					put(a, false)
				}
			}
		default:
			if v, ok := lits[t]; ok {
				if v != pol {
					contradiction = true
				}
				return
			}
			lits[t] = pol
			order = append(order, t)
		}
	}
	for _, f := range fs {
		put(f, true)
	}
	if contradiction {
		return true
	}
	// unit-simplify the disjunctions
	for changed := true; changed; {
		changed = false
		var rest []*Term
		cur := ors
		ors = nil
		for _, o := range cur {
			sat := false
			var left []*Term
			for _, a := range o.Args {
				base, pol := a, true
				if a.Op == OpNot {
					base, pol = a.Args[0], false
				}
				if v, ok := lits[base]; ok {
					if v == pol {
						sat = true
						break
					}
					continue
				}
				left = append(left, a)
			}
			if sat {
				continue
			}
			if len(left) == 0 {
				return true
			}
			if len(left) == 1 {
				put(left[0], true)
				if contradiction {
					return true
				}
				changed = true
				continue
			}
			rest = append(rest, Or(left...))
		}
		// put may have appended to ors
		seen := map[*Term]bool{}
		var u []*Term
		pend := append(rest, ors...)
		ors = nil
		for _, o := range pend {
			if o.Op == OpOr {
				if !seen[o] {
					seen[o] = true
					u = append(u, o)
				}
			} else {
				put(o, true)
				changed = true
			}
		}
		ors = append(u, ors...)
		if contradiction {
			return true
		}
		if changed && len(ors) > 60 {
			break
		}
	}

	// equality substitution for opaque terms: x == y
	for _, l := range order {
		if l.Op == OpEq && lits[l] && l.Args[0].Sort != SInt {
			a, b := l.Args[0], l.Args[1]
			if isConst(a) {
				a, b = b, a
			}
			if a.Op != OpStr && !Contains(b, a) {
				var nf Facts
				ch := false
				if a.Sort == SStr {
					if d := Eq(Len(a), Len(b)); d != True && d != False {
						nf = append(nf, d)
					}
				}
				for _, f := range fs {
					if f == l {
						continue
					}
					g := Subst1(f, a, b)
					if g != f {
						ch = true
					}
					nf = append(nf, g)
				}
				if ch {
					return p.refute(nf, depth+1)
				}
			}
		}
	}

	var cons []*Term // poly >= 0
	var neqs []*Term
	for _, l := range order {
		switch l.Op {
		case OpGe0:
			if lits[l] {
				cons = append(cons, l.Args[0])
			} else {
				cons = append(cons, Sub(Neg(l.Args[0]), Int(1)))
			}
		case OpEq:
			if l.Args[0].Sort == SStr && lits[l] {
				if d := Sub(Len(l.Args[0]), Len(l.Args[1])); d.Op != OpInt {
					cons = append(cons, d, Neg(d))
				}
			}
			if l.Args[0].Sort == SInt {
				if lits[l] {
					cons = append(cons, l.Args[0], Neg(l.Args[0]))
				} else {
					neqs = append(neqs, l.Args[0])
				}
			}
		}
	}
	if infeasible(cons) {
		return true
	}
	litFacts := func() Facts {
		var r Facts
		for _, l := range order {
			if lits[l] {
				r = append(r, l)
			} else {
				r = append(r, Not(l))
			}
		}
		r = append(r, ors...)
		return r
	}
	split := func(c *Term) bool {
		base := litFacts()
		return p.refute(simplifyWith(append(append(Facts{}, base...), c), c), depth+1) &&
			p.refute(simplifyWith(append(append(Facts{}, base...), Not(c)), Not(c)), depth+1)
	}
	// gated atoms inside constraints
	for _, c := range append(append([]*Term{}, cons...), neqs...) {
		if it := Find(c, func(x *Term) bool { return x.Op == OpIte && !underBinder(c, x) }); it != nil {
			cond := innermostCond(it)
			return split(cond)
		}
	}
	// disequalities
	for _, n := range neqs {
		base := litFacts()
		var nb Facts
		e := Eq(n, Int(0))
		for _, f := range base {
			if f != Not(e) {
				nb = append(nb, f)
			}
		}
		if !relevant(n, cons) {
			continue
		}
		return p.refute(append(append(Facts{}, nb...), Gt(n, Int(0))), depth+1) &&
			p.refute(append(append(Facts{}, nb...), Lt(n, Int(0))), depth+1)
	}
	// disjunctions
	if len(ors) > 0 {
		sort.Slice(ors, func(i, j int) bool { return len(ors[i].Args) < len(ors[j].Args) })
		o := ors[0]
		base := litFacts()
		var nb Facts
		for _, f := range base {
			if f != o {
				nb = append(nb, f)
			}
		}
		var prev Facts
		for _, a := range o.Args {
			br := append(append(append(Facts{}, nb...), prev...), a)
			if !p.refute(simplifyWith(br, a), depth+1) {
				return false
			}
			prev = append(prev, Not(a))
		}
		return true
	}
	// sign of dividends
	for _, c := range cons {
		if d := Find(c, func(x *Term) bool {
			if x.Op != OpApp || x.S != "div" {
				return false
			}
			g := Ge0(x.Args[0])
			if g == True || g == False {
				return false
			}
			base, pol := g, true
			if g.Op == OpNot {
				base, pol = g.Args[0], false
			}
			_ = pol
			_, known := lits[base]
			return !known && !boundVar(x)
		}); d != nil {
			return split(Ge0(d.Args[0]))
		}
	}
	return false
}

var bvMemo = map[*Term]bool{}

func boundVar(x *Term) bool {
	if x.bh == 0 {
		return false
	}
	if v, ok := bvMemo[x]; ok {
		return v
	}
	v := boundFree(x)
	bvMemo[x] = v
	return v
}

// underBinder: the ite mentions a bound variable, so its condition cannot be split.
func underBinder(_, x *Term) bool { return boundVar(x.Args[0]) }

func innermostCond(it *Term) *Term {
	for {
		in := Find(it.Args[0], func(x *Term) bool { return x.Op == OpIte && !boundVar(x.Args[0]) })
		if in == nil {
			break
		}
		it = in
	}
	c := it.Args[0]
	for c.Op == OpAnd || c.Op == OpOr || c.Op == OpNot {
		c = c.Args[0]
	}
	return c
}

func relevant(n *Term, cons []*Term) bool {
	_, ms := monos(n)
	for _, m := range ms {
		for _, c := range cons {
			_, cm := monos(c)
			for _, x := range cm {
				if monoKey(x.At) == monoKey(m.At) {
					return true
				}
			}
		}
	}
	return false
}

// simplifyWith rewrites the facts (other than c itself) under c.
func simplifyWith(fs Facts, c *Term) Facts {
	r := make(Facts, 0, len(fs))
	for _, f := range fs {
		if f == c {
			r = append(r, f)
			continue
		}
		r = append(r, assume(f, c, true))
	}
	return r
}

// ------------------------------------------------------- Fourier-Motzkin

type vc struct {
	v int
	c int64
}

type row struct {
	c  int64
	co []vc // sorted by v, no zero coefficients
}

func infeasible(cons []*Term) bool {
	vars := map[string]int{}
	var atomsOf [][]*Term
	var rows []row
	ok := true
	idx := func(at []*Term) int {
		k := monoKey(at)
		if i, o := vars[k]; o {
			return i
		}
		vars[k] = len(atomsOf)
		atomsOf = append(atomsOf, at)
		return len(atomsOf) - 1
	}
	add := func(t *Term) {
		c, ms := monos(t)
		r := row{c: c}
		if abs64(c) > coefLim {
			return
		}
		for _, m := range ms {
			if abs64(m.C) > coefLim {
				return
			}
			r.co = append(r.co, vc{idx(m.At), m.C})
		}
		sort.Slice(r.co, func(i, j int) bool { return r.co[i].v < r.co[j].v })
		rows = append(rows, r)
	}
	for _, c := range cons {
		add(c)
	}
	// atom lemmas, closed under newly introduced atoms
	consSet := map[*Term]bool{}
	for _, c := range cons {
		consSet[c] = true
	}
	// unit bounds: c = (linear part) + k >= 0 gives linear part >= -k
	linKey := func(ms []Mono, sign int64) string {
		b := make([]byte, 0, 64)
		for _, m := range ms {
			b = appendInt(b, sign*m.C)
			for _, a := range m.At {
				b = append(b, ',')
				b = appendInt(b, int64(a.id))
			}
			b = append(b, ';')
		}
		return string(b)
	}
	bound := map[string]int64{}
	for _, c := range cons {
		k, ms := monos(c)
		key := linKey(ms, 1)
		if o, ok := bound[key]; !ok || -k > o {
			bound[key] = -k
		}
	}
	lower := func(t *Term) (int64, bool) { // crude lower bound from unit constraints and ranges
		lo, _ := rng(t)
		b, has := int64(math.MinInt64), false
		if lo != nil {
			b, has = *lo, true
		}
		k, ms := monos(t)
		if o, ok := bound[linKey(ms, 1)]; ok && (!has || o+k > b) {
			b, has = o+k, true
		}
		return b, has
	}
	upper := func(t *Term) (int64, bool) {
		_, hi := rng(t)
		b, has := int64(math.MaxInt64), false
		if hi != nil {
			b, has = *hi, true
		}
		k, ms := monos(t)
		if o, ok := bound[linKey(ms, -1)]; ok && (!has || -o+k < b) {
			b, has = -o+k, true
		}
		return b, has
	}
	done := map[string]bool{}
	muls := map[[2]int]bool{}
	nmul := 0
	for i := 0; i < len(atomsOf) && i < 200; i++ {
		at := atomsOf[i]
		k := monoKey(at)
		if done[k] {
			continue
		}
		done[k] = true
		if len(at) > 1 {
			// products
			if len(at) == 2 {
				la, oka := lower(at[0])
				lb, okb := lower(at[1])
				prod := Mul(at[0], at[1])
				if oka && okb && la >= 0 && lb >= 0 {
					add(prod)
					// (a-la)*(b-lb) >= 0
					add(Add(prod, Scale(-lb, at[0]), Scale(-la, at[1]), Int(la*lb)))
				}
			} else {
				all := true
				for _, a := range at {
					if l, o := lower(a); !o || l < 0 {
						all = false
					}
				}
				if all {
					p := Int(1)
					for _, a := range at {
						p = Mul(p, a)
					}
					add(p)
				}
			}
			for _, a := range at {
				idx([]*Term{a})
			}
			// multiply linear constraints by a non-negative factor of this product
			if len(at) == 2 && nmul < 60 {
				for fi := 0; fi < 2; fi++ {
					f, o := at[fi], at[1-fi]
					lf, okf := lower(f)
					if !okf || lf < 0 {
						continue
					}
					for _, c := range cons {
						_, ms := monos(c)
						hit, lin := false, true
						for _, m := range ms {
							if len(m.At) != 1 {
								lin = false
							} else if m.At[0] == o {
								hit = true
							}
						}
						mk := [2]int{c.id, f.id}
						if hit && lin && !muls[mk] && (len(ms) >= 2 || ms[0].C < 0) {
							muls[mk] = true
							nmul++
							add(Mul(c, f))
						}
					}
				}
			}
			continue
		}
		a := at[0]
		if lo, hi := rng(a); lo != nil || hi != nil {
			if lo != nil {
				add(Sub(a, Int(*lo)))
			}
			if hi != nil {
				add(Sub(Int(*hi), a))
			}
		}
		if a.Op == OpApp {
			switch a.S {
			case "div":
				e, d := a.Args[0], a.Args[1]
				ld, okd := lower(d)
				if okd && ld >= 1 {
					le, oke := lower(e)
					neg := false
					ke, me := monos(e)
					if o, ok := bound[linKey(me, -1)]; ok && -o+ke <= -1 { // e <= -1
						neg = true
					}
					if oke && le >= 0 {
						add(a)
						add(Sub(e, Mul(d, a)))
						add(Sub(Add(Mul(d, a), d, Int(-1)), e))
						add(Sub(e, a))
					} else if neg {
						add(Neg(a))
						add(Sub(a, e))
						if oke && le > -ld {
							add(a)
						}
					} else if oke && le > -ld {
						// truncation: a dividend above -d never gives a negative quotient
						add(a)
						add(Sub(Add(Mul(d, a), d, Int(-1)), e))
						add(Sub(Add(e, Int(-le)), Mul(d, a)))
					}
				}
			case "declen":
				s := a.Args[0]
				add(Sub(Len(s), a))
				if l, o := lower(Len(s)); o && l >= 1 {
					add(Sub(a, Int(1)))
				}
			case "maxof":
				add(Sub(a, a.Args[3]))
				if u, o := upper(a.Args[0]); o && u <= 0 {
					add(Sub(a.Args[3], a))
				}
			case "sum":
				if u, o := upper(a.Args[0]); o && u <= 0 {
					add(Neg(a))
					add(a)
				}
			case "len":
				// sub-slices and the like have been normalised away
			}
			for _, h := range atomLemmas {
				for _, t := range h(a, lower) {
					add(t)
				}
			}
		}
	}
	if !ok {
		return false
	}
	return fm(rows)
}

var atomLemmas []func(a *Term, lower func(*Term) (int64, bool)) []*Term

func (r *row) norm() bool { // reports a contradiction
	g := int64(0)
	for _, x := range r.co {
		g = gcd(g, x.c)
		if g == 1 || g == -1 {
			return false
		}
	}
	if g < 0 {
		g = -g
	}
	if g == 0 {
		return r.c < 0
	}
	n := make([]vc, len(r.co))
	for i, x := range r.co {
		n[i] = vc{x.v, x.c / g}
	}
	r.co = n
	r.c = floorDiv(r.c, g)
	return false
}

func rowKey(r row, buf []byte) []byte {
	b := buf[:0]
	for _, x := range r.co {
		b = binary.AppendVarint(b, int64(x.v))
		b = binary.AppendVarint(b, x.c)
	}
	return b
}

// combine eliminates variable bv from p (coefficient > 0) and n (< 0).
func combine(p, n row, bv int, a, b int64) (row, bool) {
	r := row{co: make([]vc, 0, len(p.co)+len(n.co))}
	// operands are at most 2^40: multipliers above 2^20 could overflow
	if a > 1<<20 || b > 1<<20 {
		return r, false
	}
	r.c = p.c*b + n.c*a
	if abs64(r.c) > coefLim {
		return r, false
	}
	i, j := 0, 0
	put := func(v int, c int64) bool {
		if v != bv && c != 0 {
			if abs64(c) > coefLim {
				return false
			}
			r.co = append(r.co, vc{v, c})
		}
		return true
	}
	for i < len(p.co) || j < len(n.co) {
		var ok bool
		switch {
		case j >= len(n.co) || i < len(p.co) && p.co[i].v < n.co[j].v:
			ok = put(p.co[i].v, p.co[i].c*b)
			i++
		case i >= len(p.co) || n.co[j].v < p.co[i].v:
			ok = put(n.co[j].v, n.co[j].c*a)
			j++
		default:
			ok = put(p.co[i].v, p.co[i].c*b+n.co[j].c*a)
			i++
			j++
		}
		if !ok {
			return r, false
		}
	}
	return r, true
}

func appendInt(b []byte, n int64) []byte {
	if n < 0 {
		b = append(b, '-')
		n = -n
	}
	if n >= 10 {
		b = appendInt(b, n/10)
	}
	return append(b, byte('0'+n%10))
}

const coefLim = int64(1) << 40

const fmRows = 900

func fm(rows []row) bool {
	var buf []byte
	for iter := 0; iter < 400; iter++ {
		// normalise and dedupe
		at := make(map[string]int, len(rows))
		keep := rows[:0:0]
		maxv := 0
		for _, r := range rows {
			if r.norm() {
				return true
			}
			if len(r.co) == 0 {
				continue
			}
			if v := r.co[len(r.co)-1].v; v > maxv {
				maxv = v
			}
			buf = rowKey(r, buf)
			if i, ok := at[string(buf)]; ok {
				if r.c < keep[i].c {
					keep[i].c = r.c
				}
				continue
			}
			at[string(buf)] = len(keep)
			keep = append(keep, r)
		}
		rows = keep
		if len(rows) == 0 || len(rows) > fmRows {
			return false
		}
		pos := make([]int, maxv+1)
		neg := make([]int, maxv+1)
		for _, r := range rows {
			for _, x := range r.co {
				if x.c > 0 {
					pos[x.v]++
				} else {
					neg[x.v]++
				}
			}
		}
		// contradiction between a row and its negation
		for _, r := range rows {
			nr := row{co: make([]vc, len(r.co))}
			for i, x := range r.co {
				nr.co[i] = vc{x.v, -x.c}
			}
			buf = rowKey(nr, buf)
			if i, ok := at[string(buf)]; ok && rows[i].c+r.c < 0 {
				return true
			}
		}
		bv, bc := -1, math.MaxInt
		for v := 0; v <= maxv; v++ {
			if pos[v]+neg[v] == 0 {
				continue
			}
			c := pos[v]*neg[v] - pos[v] - neg[v]
			if c < bc {
				bv, bc = v, c
			}
		}
		if len(rows)+bc > 2*fmRows {
			return false
		}
		var out, P, N []row
		coef := func(r row) int64 {
			for _, x := range r.co {
				if x.v == bv {
					return x.c
				}
			}
			return 0
		}
		for _, r := range rows {
			switch c := coef(r); {
			case c > 0:
				P = append(P, r)
			case c < 0:
				N = append(N, r)
			default:
				out = append(out, r)
			}
		}
		for _, p := range P {
			for _, n := range N {
				a, b := coef(p), -coef(n)
				g := gcd(a, b)
				if g < 0 {
					g = -g
				}
				a, b = a/g, b/g
				r, ok := combine(p, n, bv, a, b)
				if ok {
					out = append(out, r)
				}
			}
		}
		rows = out
	}
	return false
}

// ---------------------------------------------------------- simplification

// Simp rewrites t under facts: gates with a decided condition disappear,
// in-range conversions vanish.
func Simp(f Facts, t *Term) *Term {
	memo := map[*Term]*Term{}
	var s func(*Term) *Term
	s = func(t *Term) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		r := t
		switch t.Op {
		case OpIte:
			c := s(t.Args[0])
			if !boundVar(c) {
				if Prove(f, c) {
					r = s(t.Args[1])
					break
				}
				if Prove(f, Not(c)) {
					r = s(t.Args[2])
					break
				}
			}
			r = Ite(c, s(t.Args[1]), s(t.Args[2]))
		case OpGe0, OpEq:
			n := make([]*Term, len(t.Args))
			for i, a := range t.Args {
				n[i] = s(a)
			}
			r = rebuild(t, n)
			if !boundVar(r) && r.Op != OpBool {
				if Prove(f, r) {
					r = True
				} else if Prove(f, Not(r)) {
					r = False
				}
			}
		case OpLin:
			p := newPoly()
			p.c = t.N
			for _, mo := range t.Lin {
				x := Int(mo.C)
				for _, a := range mo.At {
					x = Mul(x, s(a))
				}
				p.addTerm(1, x)
			}
			r = p.build()
		case OpInt, OpStr, OpBool, OpSym:
		default:
			if t.Op == OpApp && binderBody[t.S] != 0 {
				break
			}
			n := make([]*Term, len(t.Args))
			for i, a := range t.Args {
				n[i] = s(a)
			}
			r = rebuild(t, n)
			if r.Op == OpApp && len(r.S) > 5 && r.S[:5] == "wrap:" && !boundVar(r) {
				x := r.Args[0]
				if r.lo != nil && r.hi != nil && Prove(f, And(Ge(x, Int(*r.lo)), Le(x, Int(*r.hi)))) {
					r = x
				}
			}
		}
		memo[t] = r
		return r
	}
	return s(t)
}

// Case is one leaf of a gated value.
type Case struct {
	F Facts
	V *Term
}

// Cases splits the gates of t (outside binders), keeping only feasible leaves.
func Cases(f Facts, t *Term, limit int) ([]Case, bool) {
	var out []Case
	var rec func(f Facts, t *Term) bool
	rec = func(f Facts, t *Term) bool {
		if len(out) > limit {
			return false
		}
		it := Find(t, func(x *Term) bool { return x.Op == OpIte && !boundVar(x.Args[0]) })
		if it == nil {
			out = append(out, Case{f, t})
			return true
		}
		c := innermostCond(it)
		for _, v := range []bool{true, false} {
			lit := c
			if !v {
				lit = Not(c)
			}
			nf := append(append(Facts{}, f...), lit)
			if !Feasible(nf) {
				continue
			}
			if !rec(nf, assume(t, c, v)) {
				return false
			}
		}
		return true
	}
	ok := rec(f, t)
	return out, ok
}
