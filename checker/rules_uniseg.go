package main

// C20 (segmentation partitions), C21 (UAX #29 boundaries), C22 (widths of steps).

import (
	"fmt"
	"go/types"
	"strings"
)

const maxRune = 0x10FFFF

// stepper is the transition system extracted from StepString: one loop that
// looks at the code point R at byte position P and either cuts before it, goes
// on behind it, or ends.
type stepper struct {
	c    *Ctx
	fn   *types.Func
	r    *Run
	rec  *LoopRec
	str  *Term // the text
	st   *Term // the incoming state
	n    *Term // len(text)
	R0   *Term // first code point
	R    *Term // code point looked at, in terms of the iteration
	P    *Term // its position
	vals map[*LoopExit][]*Term
	bnd  []*LoopExit // exits that cut before R
	end  []*LoopExit // exits at the end of the text
	head map[*LoopExit]bool
	ok   bool
}

func (c *Ctx) unisegRun(fn *types.Func, opaque []string, pre func(e *Engine, recv *Term, args []*Term) (*State, error)) *Run {
	return c.runWith(fn, opaque, pre, func(e *Engine) { e.AutoSum = true })
}

func (c *Ctx) stepper() *stepper {
	fn := c.need("runewidth/uniseg", "", "StepString")
	if fn == nil {
		return nil
	}
	s := &stepper{c: c, fn: fn, vals: map[*LoopExit][]*Term{}, head: map[*LoopExit]bool{}}
	s.r = c.unisegRun(fn, nil, nil)
	what, pos := fn.FullName(), c.fnPos(fn)
	if !c.ob(s.r.Err == "", "the analysis covers the code", what, pos, "not decided: "+s.r.Err) {
		return nil
	}
	if !c.ob(len(s.r.Args) == 2 && len(s.r.Vals) == 4, "stepping takes a text and a state and returns cluster, rest, width and state", what, pos, "signature differs") {
		return nil
	}
	s.str, s.st = s.r.Args[0], s.r.Args[1]
	s.n = Len(s.str)
	var loops []*LoopRec
	for _, l := range s.r.E.lorder {
		if l.Search == nil {
			loops = append(loops, l)
		}
	}
	if !c.ob(len(loops) == 1, "one loop walks the code points of the text", what, pos, fmt.Sprintf("not decided: %d loops", len(loops))) {
		return nil
	}
	s.rec = loops[0]
	return s
}

// toK expresses a value of the loop in terms of the current iteration and the
// header symbols.
func (s *stepper) toK(t *Term) *Term {
	t = Expand(t)
	if s.rec.X != nil {
		t = Subst1(t, s.rec.X, s.rec.K)
	}
	for i := 0; i < 8; i++ {
		m := map[*Term]*Term{}
		for _, k := range s.rec.Keys {
			if s.rec.Solved[k] && Contains(t, s.rec.Hsym[k]) {
				m[s.rec.Hsym[k]] = s.rec.Head[k]
			}
		}
		if len(m) == 0 {
			break
		}
		t = Expand(Subst(t, m))
	}
	return t
}

func (s *stepper) facts(f Facts) Facts {
	var out Facts
	add := func(fs Facts) {
		for _, x := range fs {
			out = append(out, s.toK(x))
		}
	}
	add(f)
	add(s.rec.Inv)
	add(s.rec.EntryPC)
	return out
}

func (s *stepper) dec(t *Term) []*Term {
	var out []*Term
	Walk(t, func(x *Term) {
		if x.Op == OpApp && x.S == "decrune" {
			out = append(out, x)
		}
	})
	return out
}

// structure establishes where the cuts are.
func (s *stepper) structure(report bool) bool {
	c, rec := s.c, s.rec
	what := s.fn.FullName()
	pos := c.pr.Pos(rec.Pos)
	ob := func(ok bool, rule, what, pos, detail string) bool {
		if report || !ok {
			return c.ob(ok, rule, what, pos, detail)
		}
		return ok
	}
	str, n := s.str, s.n
	// the code point looked at: the only one besides the first
	s.R0 = app("decrune", SInt, str)
	cand := map[*Term]bool{}
	note := func(t *Term) {
		for _, d := range s.dec(s.toK(t)) {
			if d != s.R0 {
				cand[d] = true
			}
		}
	}
	for _, x := range rec.Exits {
		note(x.Guard)
	}
	for _, k := range rec.Keys {
		note(rec.Back[k])
	}
	if !ob(len(cand) == 1, "each iteration looks at one code point", what, pos, fmt.Sprintf("not decided: %d code points", len(cand))) {
		return false
	}
	for d := range cand {
		s.R = d
	}
	rest := s.R.Args[0]
	if !ob(rest.Op == OpApp && rest.S == "slice" && rest.Args[0] == str && rest.Args[2] == n, "the code point is decoded from the text", what, pos, "not decided: decoded from "+tidy(rest)) {
		return false
	}
	s.P = rest.Args[1]
	dl := app("declen", SInt, rest)
	next := Add(s.P, dl)
	f := s.facts(nil)
	at := func(vals func(k string) *Term) *Term {
		m := map[*Term]*Term{}
		for _, k := range rec.Keys {
			if !rec.Solved[k] {
				m[rec.Hsym[k]] = s.toK(vals(k))
			}
		}
		t := Subst(s.P, m)
		return t
	}
	init := at(func(k string) *Term { return Expand(rec.Init[k]) })
	good := ob(Prove(f, Eq(init, app("declen", SInt, str))), "the second code point is looked at first", what, pos, "starts at "+tidy(init))
	back := at(func(k string) *Term { return rec.Back[k] })
	good = ob(proveB(s.facts(rec.BackF), Eq(back, next), 3000), "the next code point looked at follows the current one", what, pos, "goes on at "+tidy(back)) && good
	// text is left at the start of every iteration: by induction, or by the loop condition
	var left Facts
	if Prove(f, Lt(init, n)) && (rec.NoBack || proveB(s.facts(rec.BackF), Lt(next, n), 2000)) {
		left = Facts{Lt(s.P, n)}
	}
	// exits
	for _, x := range rec.Exits {
		fx := append(s.facts(append(append(Facts{}, x.Facts...), x.Guard)), left...)
		gate := s.toK(x.Gate)
		if x.Kind == "header" {
			s.head[x] = true
		}
		fv := append(append(Facts{}, fx...), gate)
		var vs []*Term
		for _, v := range s.r.Vals {
			vs = append(vs, Simp(fv, s.toK(v)))
		}
		s.vals[x] = vs
		xp := c.pr.Pos(x.Pos)
		if x.Pos == 0 {
			xp = pos
		}
		lim := next
		if s.head[x] {
			lim = s.P
		}
		cl, re := vs[0], vs[1]
		if proveB(fx, Ge(lim, n), 2000) {
			s.end = append(s.end, x)
			e1 := cl == str || (cl.Op == OpApp && cl.S == "slice" && cl.Args[0] == str && proveB(fx, Eq(cl.Args[1], Int(0)), 500) && proveB(fx, Eq(cl.Args[2], n), 2000))
			e2 := re == Str("") || proveB(fx, Eq(Len(re), Int(0)), 2000)
			good = ob(e1 && e2, "at the end of the text the cluster is all of it and nothing is left", what, xp, "cluster "+tidy(cl)+" rest "+tidy(re)) && good
			continue
		}
		s.bnd = append(s.bnd, x)
		isSl := func(t, lo, hi *Term) bool {
			return t.Op == OpApp && t.S == "slice" && t.Args[0] == str && proveB(fx, Eq(t.Args[1], lo), 2000) && proveB(fx, Eq(t.Args[2], hi), 2000)
		}
		good = ob(isSl(cl, Int(0), s.P) && isSl(re, s.P, n), "a cut puts what lies before the code point into the cluster and the rest after it", what, xp, "cluster "+tidy(cl)+" rest "+tidy(re)) && good
		good = ob(proveB(fx, And(Ge(s.P, Int(1)), Lt(s.P, n)), 2000), "a cut lies inside the text", what, xp, "the position may be outside") && good
	}
	good = ob(len(s.bnd) > 0 && len(s.end) > 0, "the loop is left at cuts and at the end of the text", what, pos, fmt.Sprintf("not decided: %d cuts, %d ends", len(s.bnd), len(s.end))) && good
	if !rec.NoBack {
		hdr := false
		for _, x := range s.end {
			hdr = hdr || s.head[x]
		}
		if !hdr {
			good = ob(proveB(s.facts(rec.BackF), Lt(next, n), 2000), "the loop goes on only with text left", what, pos, "may go on past the end") && good
		}
	}
	// before the loop
	var ent []*Term
	for _, e := range rec.EntryPC {
		ent = append(ent, Expand(e))
	}
	entry := And(ent...)
	nonempty := Ge(n, Int(1))
	single := Facts{nonempty, Not(entry)}
	good = ob(proveB(single, Ge(app("declen", SInt, str), n), 2000), "only a single code point or no text at all is answered without looking further", what, c.fnPos(s.fn), "a longer text can return early") && good
	if Feasible(single) {
		cl, re := Simp(single, Expand(s.r.Vals[0])), Simp(single, Expand(s.r.Vals[1]))
		good = ob(cl == str && (re == Str("") || proveB(single, Eq(Len(re), Int(0)), 500)), "a single code point is the cluster", what, c.fnPos(s.fn), "cluster "+tidy(cl)+" rest "+tidy(re)) && good
	}
	empty := Facts{Eq(n, Int(0))}
	cl, re := Simp(empty, Expand(s.r.Vals[0])), Simp(empty, Expand(s.r.Vals[1]))
	good = ob(proveB(empty, And(Eq(Len(cl), Int(0)), Eq(Len(re), Int(0))), 500), "no text yields no cluster", what, c.fnPos(s.fn), "cluster "+tidy(cl)+" rest "+tidy(re)) && good
	s.ok = good
	return good
}

// ---------------------------------------------------------------- reference

type refClass struct {
	g    string // grapheme cluster break class, "" for Any
	w    int64  // cells
	vs15 bool
	vs16 bool
	lo   int64 // a witness
}

type refState struct {
	prev string // class of the previous code point
	odd  bool   // an odd number of regional indicators ends here
	pict bool   // ExtendedPictographic Extend* ends here
	zwj  bool   // ExtendedPictographic Extend* ZWJ ends here
}

// uaxBreak is rules GB3 to GB999 of UAX #29.
func uaxBreak(s refState, c string) bool {
	ctl := func(x string) bool { return x == "CR" || x == "LF" || x == "Control" }
	switch {
	case s.prev == "CR" && c == "LF": // GB3
		return false
	case ctl(s.prev), ctl(c): // GB4, GB5
		return true
	case s.prev == "L" && (c == "L" || c == "V" || c == "LV" || c == "LVT"): // GB6
		return false
	case (s.prev == "LV" || s.prev == "V") && (c == "V" || c == "T"): // GB7
		return false
	case (s.prev == "LVT" || s.prev == "T") && c == "T": // GB8
		return false
	case c == "Extend" || c == "ZWJ": // GB9
		return false
	case c == "SpacingMark": // GB9a
		return false
	case s.prev == "Prepend": // GB9b
		return false
	case s.zwj && c == "ExtendedPictographic": // GB11
		return false
	case s.prev == "RegionalIndicator" && c == "RegionalIndicator" && s.odd: // GB12, GB13
		return false
	}
	return true // GB999
}

func uaxNext(s refState, c string) refState {
	return refState{
		prev: c,
		odd:  c == "RegionalIndicator" && !(s.prev == "RegionalIndicator" && s.odd),
		pict: c == "ExtendedPictographic" || (s.pict && c == "Extend"),
		zwj:  s.pict && c == "ZWJ",
	}
}

// ------------------------------------------------------------------ product

type pairCls struct {
	impl int
	ref  refClass
}

type machine struct {
	s       *stepper
	u       []*Term   // maximal subterms over the code point alone
	usym    []*Term   // their stand-ins for R
	usym0   []*Term   // and for R0
	cls     [][]*Term // class -> values of u
	pairs   []pairCls
	V       []string // loop variables the cuts depend on
	W       []string // the other loop variables that matter for widths
	cut     *Term
	newst   *Term
	A       *Term // reported width at a cut
	Aend    *Term // at the end of the text, inside an iteration
	back    map[string]*Term
	init    map[string]*Term
	single  *Term
	steps   int
	configs int
	nintv   int
}

// mixed unfolds summarised functions until each depends on the code point alone
// or not at all.
func mixed(t *Term, rs ...*Term) *Term {
	isR := map[*Term]bool{}
	for _, r := range rs {
		isR[r] = true
	}
	alone := func(x *Term) bool { // no free symbol but one code point
		var only *Term
		ok := true
		freeAtoms(x, isR, func(a *Term) {
			if !isR[a] || (only != nil && only != a) {
				ok = false
			}
			only = a
		})
		return ok
	}
	for i := 0; i < 30; i++ {
		m := map[*Term]*Term{}
		Walk(t, func(x *Term) {
			if x.Op == OpApp && strings.HasPrefix(x.S, "fn:") && !alone(x) {
				if s, n := sumOfApp(x.S); s != nil {
					m[x] = s.unfold(n, x.Args)
				}
			}
		})
		if len(m) == 0 {
			return t
		}
		t = Subst(t, m)
	}
	return t
}

// freeAtoms visits the opaque atoms of a term; the terms in stop are atoms.
func freeAtoms(t *Term, stop map[*Term]bool, f func(*Term)) {
	seen := map[*Term]bool{}
	var rec func(x *Term)
	rec = func(x *Term) {
		if seen[x] {
			return
		}
		seen[x] = true
		if stop[x] {
			f(x)
			return
		}
		if x.Op == OpSym {
			if !strings.HasPrefix(x.S, "$b") {
				f(x)
			}
			return
		}
		if x.Op == OpApp && !strings.HasPrefix(x.S, "gvar:") && (strings.HasPrefix(x.S, "h:") || strings.HasPrefix(x.S, "k:") || strings.HasPrefix(x.S, "x:") || strings.HasPrefix(x.S, "exit:") || strings.HasPrefix(x.S, "call:")) {
			f(x)
			return
		}
		for _, a := range x.Args {
			rec(a)
		}
		for _, m := range x.Lin {
			for _, a := range m.At {
				rec(a)
			}
		}
	}
	rec(t)
}

// split replaces the maximal subterms over R alone by stand-ins.
func (m *machine) split(t, R *Term, syms *[]*Term, tag string) *Term {
	isR := map[*Term]bool{R: true}
	sub := map[*Term]*Term{}
	seen := map[*Term]bool{}
	var rec func(x *Term)
	rec = func(x *Term) {
		if seen[x] {
			return
		}
		seen[x] = true
		if !Contains(x, R) {
			return
		}
		only := true
		freeAtoms(x, isR, func(a *Term) {
			if a != R {
				only = false
			}
		})
		if only && x != R && (x.Sort == SInt || x.Sort == SBool) && !boundVar(x) {
			// normalised to one name for the code point
			u := Subst1(x, R, runeVar)
			i := -1
			for j := range m.u {
				if m.u[j] == u {
					i = j
				}
			}
			if i < 0 {
				i = len(m.u)
				m.u = append(m.u, u)
			}
			sub[x] = Sym(fmt.Sprintf("$u%s%d", tag, i), x.Sort)
			return
		}
		if x == R {
			return
		}
		for _, a := range x.Args {
			rec(a)
		}
		for _, mo := range x.Lin {
			for _, a := range mo.At {
				rec(a)
			}
		}
	}
	rec(t)
	return Subst(t, sub)
}

var runeVar = SymR("$rune", i64p(0), i64p(maxRune))

func (s *stepper) machine() *machine {
	m := &machine{s: s, back: map[string]*Term{}, init: map[string]*Term{}}
	c := s.c
	what, pos := s.fn.FullName(), c.pr.Pos(s.rec.Pos)
	prep := func(t *Term) *Term {
		t = mixed(s.toK(t), s.R, s.R0)
		t = m.split(t, s.R, nil, "")
		return m.split(t, s.R0, nil, "0:")
	}
	var cuts []*Term
	for _, x := range s.bnd {
		cuts = append(cuts, x.Guard)
	}
	m.cut = prep(Or(cuts...))
	for i, x := range s.bnd {
		ns, a := prep(s.vals[x][3]), prep(s.vals[x][2])
		if i == 0 {
			m.newst, m.A = ns, a
		} else if ns != m.newst || a != m.A {
			c.ob(false, "all cuts report alike", what, pos, "not decided: cuts report width and state in different ways")
			return nil
		}
	}
	for _, k := range s.rec.Keys {
		if !s.rec.Solved[k] {
			m.back[k] = prep(s.rec.Back[k])
			m.init[k] = prep(s.rec.Init[k])
		}
	}
	for _, x := range s.end {
		if s.head[x] {
			continue
		}
		a := prep(s.vals[x][2])
		if m.Aend != nil && m.Aend != a {
			c.ob(false, "all ends report alike", what, pos, "not decided: several ends")
			return nil
		}
		m.Aend = a
	}
	single := Facts{Ge(s.n, Int(1)), Ge(app("declen", SInt, s.str), s.n)}
	m.single = prep(Simp(single, Expand(s.r.Vals[2])))
	// the variables the cuts depend on
	in := map[string]bool{}
	var add func(t *Term)
	add = func(t *Term) {
		for _, k := range s.rec.Keys {
			if !s.rec.Solved[k] && !in[k] && Contains(t, s.rec.Hsym[k]) {
				in[k] = true
				add(m.back[k])
			}
		}
	}
	add(m.cut)
	add(m.newst)
	for _, k := range sortedKeys(in) {
		m.V = append(m.V, k)
	}
	for _, k := range s.rec.Keys {
		if !s.rec.Solved[k] && !in[k] && Contains(m.A, s.rec.Hsym[k]) {
			m.W = append(m.W, k)
		}
	}
	// classes of code points
	ctab, wtab, ptab := refData("grapheme.txt"), refData("wide.txt"), refData("emojipres.txt")
	set := map[int64]bool{}
	for _, rs := range [][]refRun{ctab, wtab, ptab} {
		refCuts(rs, set)
	}
	for _, x := range []int64{0x2e3a, 0x2e3b, 0x2e3c, 0xfe0e, 0xfe0f, 0xfe10, 0xd800, 0xe000} {
		set[x] = true
	}
	for _, u := range m.u {
		if !c.ob(termCuts(Unfold(u), runeVar, set), "code points are told apart by comparisons and tables alone", what, pos, "not decided: "+clip(tidy(u), 300)) {
			return nil
		}
	}
	pts := sortedCuts(set, 0, maxRune)
	m.nintv = len(pts)
	ids := map[string]int{}
	seen := map[string]bool{}
	for _, r := range pts {
		if r >= 0xd800 && r < 0xe000 {
			continue // never decoded from text
		}
		var vs []*Term
		key := ""
		for _, u := range m.u {
			v := Subst1(u, runeVar, Int(r))
			if v.Op != OpInt && v.Op != OpBool {
				c.ob(false, "the classification of a code point is decided", fmt.Sprintf("%s U+%04X", what, r), pos, "not decided: "+tidy(v))
				return nil
			}
			vs = append(vs, v)
			key += v.String() + ","
		}
		id, ok := ids[key]
		if !ok {
			id = len(m.cls)
			ids[key] = id
			m.cls = append(m.cls, vs)
		}
		rc := refClass{g: refAt(ctab, r), vs15: r == 0xfe0e, vs16: r == 0xfe0f, lo: r}
		switch {
		case rc.g == "Control" || rc.g == "CR" || rc.g == "LF" || rc.g == "Extend" || rc.g == "ZWJ":
		case rc.g == "RegionalIndicator":
			rc.w = 2
		case rc.g == "ExtendedPictographic":
			rc.w = 1
			if refAt(ptab, r) != "" {
				rc.w = 2
			}
		case r == 0x2e3a:
			rc.w = 3
		case r == 0x2e3b:
			rc.w = 4
		case refAt(wtab, r) != "":
			rc.w = 2
		default:
			rc.w = 1
		}
		pk := fmt.Sprintf("%d/%s/%d/%v/%v", id, rc.g, rc.w, rc.vs15, rc.vs16)
		if !seen[pk] {
			seen[pk] = true
			m.pairs = append(m.pairs, pairCls{id, rc})
		}
	}
	return m
}

type mconfig struct {
	n    int64
	c0   int
	vals string
}

// explore walks all reachable pairs of analysed and reference states.
// widths: also compare the reported widths.
func (m *machine) explore(widths bool) {
	s, c := m.s, m.s.c
	what, pos := s.fn.FullName(), c.pr.Pos(s.rec.Pos)
	type node struct {
		n     int64
		c0    int
		vals  []*Term
		ref   refState
		first string
		path  []int64
	}
	key := func(x node) string {
		k := fmt.Sprintf("%d/%d/%v/%s/", x.n, x.c0, x.ref, x.first)
		for _, v := range x.vals {
			k += v.String() + ","
		}
		return k
	}
	bad := map[string]bool{}
	fail := func(rule string, path []int64, detail string) {
		if bad[rule] || len(bad) > 6 {
			return
		}
		bad[rule] = true
		var p []string
		for _, r := range path {
			p = append(p, fmt.Sprintf("U+%04X", r))
		}
		c.ob(false, rule, what+" on "+strings.Join(p, " "), pos, detail)
	}
	env := func(x node, cl int) map[*Term]*Term {
		e := map[*Term]*Term{s.st: Int(x.n)}
		for i := range m.u {
			srt := m.u[i].Sort
			e[Sym(fmt.Sprintf("$u0:%d", i), srt)] = m.cls[x.c0][i]
			if cl >= 0 {
				e[Sym(fmt.Sprintf("$u%d", i), srt)] = m.cls[cl][i]
			}
		}
		for i, k := range m.V {
			if x.vals != nil {
				e[s.rec.Hsym[k]] = x.vals[i]
			}
		}
		return e
	}
	wtest := func(x node, cl int, vals map[string]*Term) *Term { // A after an assignment of the width variables
		e := env(x, cl)
		for _, k := range m.W {
			e[s.rec.Hsym[k]] = vals[k]
		}
		for i, k := range m.V {
			_ = i
			if v, ok := vals[k]; ok {
				e[s.rec.Hsym[k]] = v
			}
		}
		return Subst(m.A, e)
	}
	w16 := func(w int64) *Term { return Int(w << 4) }
	entry := func(n int64, p pairCls, ref refState, path []int64) (node, bool) {
		x := node{n: n, c0: p.impl, ref: ref, first: p.ref.g, path: path}
		e := env(x, -1)
		nv := map[string]*Term{}
		for _, k := range m.V {
			v := Subst(m.init[k], e)
			if v.Op != OpInt && v.Op != OpBool {
				fail("the state after the first code point is decided", path, "not decided: "+tidy(v))
				return x, false
			}
			x.vals = append(x.vals, v)
			nv[k] = v
		}
		if widths {
			for _, k := range m.W {
				nv[k] = Subst(m.init[k], e)
			}
			if got := wtest(x, -1, nv); got != w16(p.ref.w) {
				fail("a cluster starts with the width of its first code point", path, fmt.Sprintf("width<<4 is %s, expected %d", tidy(got), p.ref.w<<4))
				return x, false
			}
			if got := Subst(m.single, e); got != w16(p.ref.w) {
				fail("a single code point reports its width", path, fmt.Sprintf("width<<4 is %s, expected %d", tidy(got), p.ref.w<<4))
				return x, false
			}
		}
		return x, true
	}
	seen := map[string]bool{}
	var queue []node
	push := func(x node) {
		k := key(x)
		if !seen[k] {
			seen[k] = true
			queue = append(queue, x)
		}
	}
	for _, p := range m.pairs {
		if x, ok := entry(-1, p, uaxNext(refState{}, p.ref.g), []int64{p.ref.lo}); ok {
			push(x)
		}
	}
	for len(queue) > 0 && len(bad) == 0 && len(seen) < 200000 {
		x := queue[0]
		queue = queue[1:]
		m.configs++
		for _, p := range m.pairs {
			m.steps++
			path := append(append([]int64{}, x.path...), p.ref.lo)
			e := env(x, p.impl)
			cut := Subst(m.cut, e)
			if cut != True && cut != False {
				fail("whether there is a cut depends on the code points alone", path, "not decided: "+tidy(cut))
				break
			}
			want := uaxBreak(x.ref, p.ref.g)
			if (cut == True) != want {
				fail("cuts are where UAX #29 puts them", path, fmt.Sprintf("before the last code point: cut=%v, UAX #29 says %v", cut == True, want))
				break
			}
			nref := uaxNext(x.ref, p.ref.g)
			if want {
				ns := Subst(m.newst, e)
				if ns.Op != OpInt || ns.N < 0 {
					fail("the state handed on is decided and not negative", path, "state "+tidy(ns))
					break
				}
				if y, ok := entry(ns.N, p, nref, path); ok {
					push(y)
				}
				continue
			}
			y := node{n: x.n, c0: x.c0, ref: nref, first: x.first, path: path}
			nv := map[string]*Term{}
			okv := true
			for _, k := range m.V {
				v := Subst(m.back[k], e)
				if v.Op != OpInt && v.Op != OpBool {
					fail("the next state is decided", path, "not decided: "+tidy(v))
					okv = false
					break
				}
				y.vals = append(y.vals, v)
				nv[k] = v
			}
			if !okv {
				break
			}
			if widths {
				for _, k := range m.W {
					nv[k] = Subst(m.back[k], e)
				}
				cur := Subst(m.A, env(x, -1))
				got := wtest(y, -1, nv)
				var exp *Term
				switch {
				case p.ref.vs16:
					exp = w16(2)
				case x.first != "ExtendedPictographic" && x.first != "RegionalIndicator" && x.first != "L":
					exp = Add(cur, w16(p.ref.w))
				case x.first == "ExtendedPictographic" && p.ref.vs15:
					exp = w16(1)
				case x.first == "ExtendedPictographic":
					exp = w16(2)
				default:
					exp = cur
				}
				if got != exp {
					fail("a continuation changes the width as described", path, fmt.Sprintf("width<<4 becomes %s, expected %s", tidy(got), tidy(exp)))
					break
				}
				if m.Aend != nil {
					if got := Subst(m.Aend, e); got != exp {
						fail("the last cluster reports its width", path, fmt.Sprintf("width<<4 is %s, expected %s", tidy(got), tidy(exp)))
						break
					}
				}
			}
			push(y)
		}
	}
	if len(bad) == 0 {
		c.ob(true, "cuts are where UAX #29 puts them", what, pos, "")
		if widths {
			for _, r := range []string{"a cluster starts with the width of its first code point", "a single code point reports its width", "a continuation changes the width as described", "the last cluster reports its width"} {
				c.ob(true, r, what, pos, "")
			}
		}
		c.ob(len(seen) < 200000, "the product with the reference is explored completely", what, pos, "too many states")
	}
}

func init() {
	register("C20", "", func(c *Ctx) {
		s := c.stepper()
		if s != nil && s.structure(true) {
			// the state handed on marks the iterator as running
			neg := Facts{Ge(s.n, Int(1))}
			v := Expand(s.r.Vals[3])
			c.ob(proveB(append(neg, s.facts(nil)...), Ge(s.toK(v), Int(0)), 3000) || s.stateNonNeg(), "the state after a cluster is not negative", s.fn.FullName(), c.fnPos(s.fn), "may be negative: "+tidy(v))
		}
		c.iterator()
	})
	register("C21", "", func(c *Ctx) {
		s := c.stepper()
		if s == nil || !s.structure(true) {
			return
		}
		m := s.machine()
		if m == nil {
			return
		}
		m.explore(false)
		c.note("code-point intervals classified: %d; classes: %d; product states: %d; transitions compared: %d", m.nintv, len(m.pairs), m.configs, m.steps)
	})
	register("C22", "", func(c *Ctx) {
		s := c.stepper()
		if s == nil || !s.structure(false) {
			return
		}
		m := s.machine()
		if m == nil {
			return
		}
		m.explore(true)
		c.note("code-point intervals classified: %d; classes: %d; product states: %d; transitions compared: %d", m.nintv, len(m.pairs), m.configs, m.steps)
		for _, x := range s.end {
			if s.head[x] {
				got, want := s.toK(s.vals[x][2]), s.toK(s.vals[s.bnd[0]][2])
				e, why := Equiv(s.facts(x.Facts), got, want)
				c.ob(e, "the end of the text reports the width reached", s.fn.FullName(), c.fnPos(s.fn), why)
			}
		}
	})
}

func (s *stepper) stateNonNeg() bool {
	ok := true
	for _, x := range append(append([]*LoopExit{}, s.bnd...), s.end...) {
		ok = ok && proveB(s.facts(append(append(Facts{}, x.Facts...), x.Guard)), Ge(s.vals[x][3], Int(0)), 3000)
	}
	single := Facts{Ge(s.n, Int(1)), Ge(app("declen", SInt, s.str), s.n)}
	return ok && proveB(single, Ge(Simp(single, Expand(s.r.Vals[3])), Int(0)), 1000)
}

// stepLemma establishes what a step leaves of the text, for the rules that keep
// StepString opaque.
func (c *Ctx) stepLemma() bool {
	s := c.stepper()
	if s == nil || !s.structure(true) {
		return false
	}
	t, st := Sym("step:text", SStr), Sym("step:state", SInt)
	cl, re := app("call:uniseg.StepString#0", SStr, t, st), app("call:uniseg.StepString#1", SStr, t, st)
	forms := []*Term{Eq(Add(Len(cl), Len(re)), Len(t)), Or(Ge(Len(cl), Int(1)), Eq(Len(t), Int(0)))}
	lemma("call:uniseg.StepString#0", []*Term{t, st}, forms...)
	lemma("call:uniseg.StepString#1", []*Term{t, st}, forms...)
	return true
}

// iterator: Graphemes hands the text to StepString piece by piece.
func (c *Ctx) iterator() {
	pkg := "runewidth/uniseg"
	nw, next, runes := c.need(pkg, "", "NewGraphemes"), c.need(pkg, "Graphemes", "Next"), c.need(pkg, "Graphemes", "Runes")
	if nw == nil || next == nil || runes == nil {
		return
	}
	op := []string{"StepString"}
	rn, rx := c.unisegRun(nw, op, nil), c.unisegRun(next, op, nil)
	if !c.covered(rn) || !c.covered(rx) {
		return
	}
	what, pos := next.FullName(), c.fnPos(next)
	var call *Effect
	many := false
	eachEffect(rx.E.effects, func(ef *Effect, in []*Effect) {
		if ef.Kind == "call" && strings.HasSuffix(ef.Name, "StepString") {
			if call != nil && (call.Args[0] != ef.Args[0] || call.Args[1] != ef.Args[1]) {
				many = true
			}
			call = ef
		} else if ef.Kind == "loop" || ef.Kind == "panic" || ef.Kind == "write" || ef.Kind == "globset" {
			c.ob(false, "advancing only steps", what, c.pr.Pos(ef.Pos), "not decided: "+ef.Kind)
		}
	})
	if !c.ob(call != nil && !many, "advancing steps once", what, pos, "not decided: no single call of StepString") {
		return
	}
	rest, state := Expand(call.Args[0]), Expand(call.Args[1])
	recv := rx.Recv
	// value of a term over the receiver's fields in another state
	in := func(t *Term, get func(f string, x *Term) *Term) *Term {
		m := map[*Term]*Term{}
		Walk(t, func(x *Term) {
			if x.Op == OpApp && strings.HasPrefix(x.S, "field:") && len(x.Args) == 1 && x.Args[0] == recv {
				m[x] = get(x.S[6:], x)
			}
		})
		return Subst(t, m)
	}
	obj := rn.Vals[0]
	fresh := func(f string, x *Term) *Term {
		if v, ok := rn.St.store[fmt.Sprintf("f:%d.%s", obj.id, f)]; ok {
			return Expand(v)
		}
		return x
	}
	after := func(f string, x *Term) *Term {
		if v, ok := rx.St.store[fmt.Sprintf("f:%d.%s", recv.id, f)]; ok {
			return Expand(v)
		}
		return x
	}
	c.ob(isAlloc(obj), "a new iterator is a fresh object", nw.FullName(), c.fnPos(nw), "returns "+tidy(obj))
	e, why := Equiv(nil, in(rest, fresh), rn.Args[0])
	c.ob(e, "a new iterator has all of the text before it", nw.FullName(), c.fnPos(nw), why)
	c.ob(Prove(nil, Lt(in(state, fresh), Int(0))), "a new iterator starts without state", nw.FullName(), c.fnPos(nw), "state "+tidy(in(state, fresh)))
	some, none := Facts{Ge(Len(rest), Int(1))}, Facts{Eq(Len(rest), Int(0))}
	res := Expand(rx.Vals[0])
	c.ob(proveB(some, res, 500) && proveB(none, Not(res), 500), "advancing succeeds exactly while text is left", what, pos, "returns "+tidy(res))
	ap := func(i int, s Sort) *Term {
		return app(fmt.Sprintf("call:uniseg.StepString#%d", i), s, rest, state)
	}
	e, why = Equiv(some, in(rest, after), ap(1, SStr))
	c.ob(e, "what is left is the rest of the step", what, pos, why)
	e, why = Equiv(some, in(state, after), ap(3, SInt))
	c.ob(e, "the next step continues with the state of this one", what, pos, why)
	c.ob(proveB(none, Eq(Len(in(rest, after)), Int(0)), 500), "after the end nothing is left", what, pos, "left "+tidy(in(rest, after)))
	// the code points of the current piece
	cont := func(e *Engine, rv *Term, args []*Term) (*State, error) {
		st := &State{store: map[string]*Term{}}
		for k, v := range rx.St.store {
			if heapKey(k) {
				st.store[k] = v
			}
		}
		for k, v := range rx.E.kdef {
			e.kdef[k] = v
		}
		for k, v := range rx.E.ktype {
			e.ktype[k] = v
		}
		return st, nil
	}
	rr := c.unisegRun(runes, op, cont)
	if !c.covered(rr) {
		return
	}
	got := Expand(rr.E.contents(rr.St, rr.Vals[0]))
	e, why = Equiv(append(append(Facts{}, some...), Ge(ap(3, SInt), Int(0))), got, app("runes", SList, ap(0, SStr)))
	c.ob(e, "the code points are those of the current piece", runes.FullName(), c.fnPos(runes), why)
	c.ob(proveB(none, Eq(Len(got), Int(0)), 800), "after the end there are no code points", runes.FullName(), c.fnPos(runes), tidy(got))
	e = true
	for k := range rr.St.store {
		if heapKey(k) && rr.St.store[k] != rx.St.store[k] && !isFresh(keyOwner(k)) {
			e = false
		}
	}
	c.ob(e, "asking for the code points changes nothing", runes.FullName(), c.fnPos(runes), "a field changes")
	// before the first step
	rr0 := c.unisegRun(runes, op, nil)
	if c.covered(rr0) {
		m := in2(Expand(rr0.Vals[0]), rr0.Recv, fresh)
		c.ob(proveB(nil, Eq(Len(m), Int(0)), 500), "before the first step there are no code points", runes.FullName(), c.fnPos(runes), tidy(m))
	}
}

func in2(t, recv *Term, get func(f string, x *Term) *Term) *Term {
	m := map[*Term]*Term{}
	Walk(t, func(x *Term) {
		if x.Op == OpApp && strings.HasPrefix(x.S, "field:") && len(x.Args) == 1 && x.Args[0] == recv {
			m[x] = get(x.S[6:], x)
		}
	})
	return Subst(t, m)
}
