package main

// Equality of gated value terms under facts.  Used to compare what a function of
// the analysed tree computes with what its specification says it computes.

import (
	"sort"
	"strings"
)

type eqv struct {
	budget int
	why    string
	ptr    func(q *eqv, f Facts, a, b *Term, depth int) bool
}

// Equiv decides whether two values agree whenever the facts hold.  The second
// result describes the first difference found.
func Equiv(f Facts, a, b *Term) (bool, string) {
	e := &eqv{budget: 4000}
	ok := e.eq(f, Expand(a), Expand(b), 0)
	if ok {
		return true, ""
	}
	if e.budget <= 0 {
		return false, "undecided (budget)"
	}
	return false, e.why
}

func (e *eqv) fail(a, b *Term) bool {
	if e.why == "" {
		e.why = "computed " + clip(tidy(a), 400) + " — required " + clip(tidy(b), 400)
	}
	return false
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func openGate(t *Term) *Term {
	it := Find(t, func(x *Term) bool { return x.Op == OpIte && !boundVar(x.Args[0]) && !hasBinderCond(x.Args[0]) })
	if it == nil {
		it = Find(t, func(x *Term) bool { return x.Op == OpIte && !boundVar(x.Args[0]) })
	}
	if it == nil {
		return nil
	}
	return innermostCond(it)
}

func hasBinderCond(c *Term) bool {
	return Find(c, func(x *Term) bool { return x.Op == OpApp && binderBody[x.S] != 0 && x.S != "first" }) != nil
}

func (e *eqv) eq(f Facts, a, b *Term, depth int) bool {
	if a == b {
		return true
	}
	e.budget--
	if e.budget <= 0 || depth > 40 {
		return e.fail(a, b)
	}
	if a.Sort != b.Sort && a != Nil && b != Nil {
		return e.fail(a, b)
	}
	if depth == 0 {
		a, b = unifyDivs(f, a, b)
		if a == b {
			return true
		}
	}
	if a.Sort == SStr && depth == 0 {
		x, y := a, b
		if hasApp(b, "scomp") && !hasApp(a, "scomp") {
			x = tailForm(a)
		}
		if hasApp(a, "scomp") && !hasApp(b, "scomp") {
			y = tailForm(b)
		}
		if x != a || y != b {
			if x == y {
				return true
			}
			if e.quietly(func() bool { return e.eq(f, x, y, 1) }) {
				return true
			}
		}
	}
	if x, y := normIndex(f, a), normIndex(f, b); x != a || y != b {
		return e.eq(f, x, y, depth)
	}
	switch a.Sort {
	case SInt:
		if proveB(f, Eq(a, b), 300) {
			return true
		}
	case SBool:
		if proveB(append(append(Facts{}, f...), a), b, 400) && proveB(append(append(Facts{}, f...), b), a, 400) {
			return true
		}
	}
	// gates: decide or split the innermost condition
	for _, t := range []*Term{a, b} {
		if c := openGate(t); c != nil {
			if proveB(f, c, 300) {
				return e.eq(append(append(Facts{}, f...), c), assume(a, c, true), assume(b, c, true), depth)
			}
			if proveB(f, Not(c), 300) {
				return e.eq(append(append(Facts{}, f...), Not(c)), assume(a, c, false), assume(b, c, false), depth)
			}
			for _, v := range []bool{true, false} {
				lit := c
				if !v {
					lit = Not(c)
				}
				nf := append(append(Facts{}, f...), lit)
				if !Feasible(nf) {
					continue
				}
				x, y := assume(a, c, v), assume(b, c, v)
				if x == a && y == b {
					return e.fail(a, b)
				}
				if !e.eq(nf, x, y, depth+1) {
					return false
				}
			}
			return true
		}
	}
	// conversions that change nothing
	if hasWrap(a) || hasWrap(b) {
		if x, y := Simp(f, a), Simp(f, b); x != a || y != b {
			return e.eq(f, x, y, depth+1)
		}
	}
	for i, t := range []*Term{a, b} {
		// a maximum or sum over nothing
		if t.Op == OpApp && (t.S == "maxof" || t.S == "sum") && t.Args[0].Op != OpInt && proveB(f, Ge0(Sub(Int(0), t.Args[0])), 300) {
			z := Int(0)
			if t.S == "maxof" {
				z = t.Args[3]
			}
			if i == 0 {
				return e.eq(f, z, b, depth+1)
			}
			return e.eq(f, a, z, depth+1)
		}
		// a sum of zeros
		if o := []*Term{b, a}[i]; o == Int(0) && t.Op == OpApp && t.S == "sum" {
			v := FreshNat("$e")
			nf := append(append(Facts{}, f...), Ge0(v), Lt(v, t.Args[0]))
			if e.quietly(func() bool { return e.eq(nf, Inst(t, v), o, depth+1) }) {
				return true
			}
		}
	}
	if (a == Nil && b.Sort == SList) || (b == Nil && a.Sort == SList) {
		return e.eqList(f, a, b, depth)
	}
	switch a.Sort {
	case SInt, SBool:
		if x, y, ok := e.matchAtoms(f, a, b, depth); ok {
			if x == y {
				return true
			}
			if a.Sort == SInt {
				if proveB(f, Eq(x, y), 600) {
					return true
				}
			} else if proveB(append(append(Facts{}, f...), x), y, 600) && proveB(append(append(Facts{}, f...), y), x, 600) {
				return true
			}
		}
	case SStr:
		a, b = normStr(f, a), normStr(f, b)
		if a == b {
			return true
		}
		if (a.Op == OpApp && a.S == "concat") || (b.Op == OpApp && b.S == "concat") || a.Op == OpStr || b.Op == OpStr ||
			(a.Op == OpApp && a.S == "repeat") || (b.Op == OpApp && b.S == "repeat") {
			return e.eqConcat(f, a, b, depth)
		}
	case SList:
		return e.eqList(f, a, b, depth)
	}
	return e.congruent(f, a, b, depth)
}

func freshPtr(t *Term) bool {
	return isAlloc(t) || (t.Op == OpApp && strings.HasPrefix(t.S, "mapalloc:"))
}

func (e *eqv) congruent(f Facts, a, b *Term, depth int) bool {
	if e.ptr != nil && freshPtr(a) && freshPtr(b) {
		return e.ptr(e, f, a, b, depth)
	}
	if a.Op != b.Op || a.S != b.S || len(a.Args) != len(b.Args) || a.Op == OpSym || a.Op == OpInt || a.Op == OpStr || a.Op == OpBool || a.Op == OpLin {
		return e.fail(a, b)
	}
	if a.Op == OpApp && len(a.Args) == 0 {
		return e.fail(a, b)
	}
	if a.Op == OpApp && binderBody[a.S] != 0 {
		for i := range a.Args {
			if i == 1 || i == 2 {
				continue
			}
			if !e.eq(f, a.Args[i], b.Args[i], depth+1) {
				return false
			}
		}
		v := FreshNat("$e")
		nf := append(append(Facts{}, f...), Ge0(v), Lt(v, a.Args[0]))
		return e.eq(nf, Inst(a, v), Inst(b, v), depth+1)
	}
	for i := range a.Args {
		if !e.eq(f, a.Args[i], b.Args[i], depth+1) {
			return false
		}
	}
	return true
}

func (e *eqv) quietly(fn func() bool) bool {
	w := e.why
	r := fn()
	if !r {
		e.why = w
	}
	return r
}

// matchAtoms rewrites atoms of b into equal atoms of a (same head symbol,
// arguments equal under the facts).
func (e *eqv) matchAtoms(f Facts, a, b *Term, depth int) (*Term, *Term, bool) {
	collect := func(t *Term) []*Term {
		var r []*Term
		seen := map[*Term]bool{}
		var rec func(x *Term)
		rec = func(x *Term) {
			if seen[x] {
				return
			}
			seen[x] = true
			if x.Op == OpApp && (x.Sort == SInt || x.Sort == SBool || x.Sort == SOther || x.Sort == SStr) && len(x.Args) > 0 && x.S != "div" && !boundVar(x) {
				r = append(r, x)
				return
			}
			for _, y := range x.Args {
				rec(y)
			}
			for _, m := range x.Lin {
				for _, y := range m.At {
					rec(y)
				}
			}
		}
		rec(t)
		sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
		return r
	}
	as, bs := collect(a), collect(b)
	inA := map[*Term]bool{}
	for _, x := range as {
		inA[x] = true
	}
	m := map[*Term]*Term{}
	for _, y := range bs {
		if inA[y] {
			continue
		}
		for _, x := range as {
			if x.S == y.S && len(x.Args) == len(y.Args) && e.quietly(func() bool { return e.congruent(f, x, y, depth+1) }) {
				m[y] = x
				break
			}
		}
	}
	if len(m) == 0 {
		return a, b, false
	}
	return a, Subst(b, m), true
}

func (e *eqv) eqList(f Facts, a, b *Term, depth int) bool {
	if isEmptyList(a) && isEmptyList(b) {
		return true
	}
	la, lb := Len(a), Len(b)
	if !e.eq(f, la, lb, depth+1) {
		return e.fail(a, b)
	}
	if a.Op == b.Op && a.S == b.S && len(a.Args) == len(b.Args) && a.Op == OpApp && a.S != "cat" {
		if e.quietly(func() bool { return e.congruent(f, a, b, depth+1) }) {
			return true
		}
	}
	if proveB(f, Eq(la, Int(0)), 200) {
		return true
	}
	if a.Op == OpSym && b.Op == OpSym {
		return e.fail(a, b)
	}
	v := FreshNat("$e")
	nf := append(append(Facts{}, f...), Ge0(v), Lt(v, la))
	x, y := Index(a, v), Index(b, v)
	if x.Op == OpApp && x.S == "index" && y.Op == OpApp && y.S == "index" && x.Args[0] == a && y.Args[0] == b {
		return e.fail(a, b)
	}
	return e.eq(nf, x, y, depth+1)
}

// ------------------------------------------------------------------- strings

func piecesOf(t *Term) []*Term {
	if t.Op == OpApp && t.S == "concat" {
		return append([]*Term{}, t.Args...)
	}
	if t.Op == OpStr && t.S == "" {
		return nil
	}
	return []*Term{t}
}

// run reads a piece as c repeated n times.
func run(t *Term) (c byte, n *Term, ok bool) {
	if t.Op == OpStr && len(t.S) > 0 {
		for i := 1; i < len(t.S); i++ {
			if t.S[i] != t.S[0] {
				return 0, nil, false
			}
		}
		return t.S[0], Int(int64(len(t.S))), true
	}
	if t.Op == OpApp && t.S == "repeat" && t.Args[0].Op == OpStr && len(t.Args[0].S) == 1 {
		return t.Args[0].S[0], t.Args[1], true
	}
	return 0, nil, false
}

// mergeRuns joins neighbouring runs of one character (literals are cut at runs).
func mergeRuns(f Facts, ps []*Term) []*Term {
	var flat []*Term
	for _, p := range ps {
		if p.Op == OpStr {
			for i := 0; i < len(p.S); {
				j := i
				for j < len(p.S) && p.S[j] == p.S[i] {
					j++
				}
				flat = append(flat, Str(p.S[i:j]))
				i = j
			}
			continue
		}
		flat = append(flat, p)
	}
	var out []*Term
	for _, p := range flat {
		if c, n, ok := run(p); ok {
			if p.Op == OpApp && proveB(f, Le(n, Int(0)), 100) {
				continue
			}
			if len(out) > 0 {
				if d, m, ok := run(out[len(out)-1]); ok && c == d && proveB(f, And(Ge0(n), Ge0(m)), 150) {
					out[len(out)-1] = Repeat(Str(string([]byte{c})), Add(m, n))
					continue
				}
			}
		}
		out = append(out, p)
	}
	return out
}

func (e *eqv) eqConcat(f Facts, a, b *Term, depth int) bool {
	ps, qs := mergeRuns(f, piecesOf(a)), mergeRuns(f, piecesOf(b))
	i := 0
	for ; i < len(ps) && i < len(qs); i++ {
		p, q := ps[i], qs[i]
		if p == q {
			continue
		}
		c, n, ok1 := run(p)
		d, m, ok2 := run(q)
		if ok1 && ok2 {
			if c == d && e.quietly(func() bool { return e.eq(f, n, m, depth+1) }) {
				continue
			}
			return e.fail(Concat(ps[i:]...), Concat(qs[i:]...))
		}
		if !e.eq(f, p, q, depth+1) {
			return e.fail(Concat(ps[i:]...), Concat(qs[i:]...))
		}
	}
	for _, rest := range append(append([]*Term{}, ps[i:]...), qs[i:]...) {
		if !proveB(f, Eq(Len(rest), Int(0)), 200) {
			return e.fail(Concat(ps[i:]...), Concat(qs[i:]...))
		}
	}
	return true
}

func hasApp(t *Term, name string) bool {
	return Find(t, func(x *Term) bool { return x.Op == OpApp && x.S == name }) != nil
}

// tailForm: elements joined by a separator with one more separator at the end
// (unless there are none) are elements each followed by the separator.
func tailForm(t *Term) *Term {
	if t.Op == OpIte {
		return Ite(t.Args[0], tailForm(t.Args[1]), tailForm(t.Args[2]))
	}
	ps := piecesOf(t)
	for i := 0; i+1 < len(ps); i++ {
		l, x := ps[i], ps[i+1]
		if l.Op != OpApp || l.S != "join" || x.Op != OpIte {
			continue
		}
		if c := l.Args[0]; c.Op == OpApp && c.S == "comp" && x == Ite(Ge(c.Args[0], Int(1)), l.Args[1], Str("")) {
			r := append([]*Term{}, ps[:i]...)
			r = append(r, scompRaw(c.Args[0], c.Args[1], Concat(c.Args[2], l.Args[1])))
			return tailForm(Concat(append(r, ps[i+2:]...)...))
		}
	}
	return t
}

// normStr brings equal spellings of joined text to one form.
func normStr(f Facts, t *Term) *Term {
	return t
}

// normIndex resolves elements of lists that are built block by block: element
// m*q+r of a concatenation of blocks of length m is element r of block q.
func normIndex(f Facts, t *Term) *Term {
	if t.bh == 0 {
		return t
	}
	m := map[*Term]*Term{}
	Walk(t, func(x *Term) {
		if x.Op != OpApp || x.S != "index" || boundVar(x) || m[x] != nil {
			return
		}
		l, i := x.Args[0], x.Args[1]
		if l.Op == OpApp && l.S == "flat" {
			blk := Len(l.Args[2])
			if Contains(blk, l.Args[1]) || blk.Op != OpApp {
				return
			}
			if q, r := splitBy(i, blk); q != nil && proveB(f, And(Ge0(r), Lt(r, blk), Ge0(q)), 200) {
				m[x] = Index(Inst(l, q), r)
			}
		}
		if l.Op == OpApp && l.S == "cat" {
			n := Len(l.Args[0])
			if proveB(f, Lt(i, n), 200) {
				m[x] = Index(l.Args[0], i)
			} else if proveB(f, Ge(i, n), 200) {
				m[x] = Index(Cat(l.Args[1:]...), Sub(i, n))
			}
		}
	})
	if len(m) == 0 {
		return t
	}
	return Subst(t, m)
}

// splitBy writes i as m*q+r, taking for q everything that has the factor m.
func splitBy(i, m *Term) (q, r *Term) {
	c, ms := monos(i)
	q, r = Int(0), Int(c)
	for _, x := range ms {
		k := -1
		for j, a := range x.At {
			if a == m {
				k = j
			}
		}
		t := Int(x.C)
		for j, a := range x.At {
			if j != k {
				t = Mul(t, a)
			}
		}
		if k >= 0 {
			q = Add(q, t)
		} else {
			r = Add(r, t)
		}
	}
	return q, r
}

// unifyDivs gives quotients that are equal under the facts one spelling.
func unifyDivs(f Facts, a, b *Term) (*Term, *Term) {
	var ds []*Term
	seen := map[*Term]bool{}
	for _, t := range []*Term{b, a} {
		Walk(t, func(x *Term) {
			if x.Op == OpApp && x.S == "div" && !seen[x] && !boundFree(x) {
				seen[x] = true
				ds = append(ds, x)
			}
		})
	}
	sort.Slice(ds, func(i, j int) bool { return ds[i].id < ds[j].id })
	for i := len(ds) - 1; i > 0; i-- {
		for j := 0; j < i; j++ {
			for c := int64(-1); c <= 1; c++ {
				if sameDiv(f, ds[i], ds[j], c) || proveB(f, Eq(Add(ds[j], Int(c)), ds[i]), 400) {
					m := map[*Term]*Term{ds[i]: Add(ds[j], Int(c))}
					a, b = Subst(a, m), Subst(b, m)
					j = i
					break
				}
			}
		}
	}
	return a, b
}

// sameDiv: x = y + c because the numerators differ by c times the common
// divisor and none of them is negative.
func sameDiv(f Facts, x, y *Term, c int64) bool {
	if x.Args[1] != y.Args[1] || Sub(x.Args[0], y.Args[0]) != Scale(c, x.Args[1]) {
		return false
	}
	return proveB(f, And(Ge0(x.Args[0]), Ge0(y.Args[0]), Ge(x.Args[1], Int(1))), 400)
}

func hasWrap(t *Term) bool {
	return Find(t, func(x *Term) bool { return x.Op == OpApp && strings.HasPrefix(x.S, "wrap:") && !boundVar(x) }) != nil
}
