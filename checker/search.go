package main

// Recognition of binary searches over tables of disjoint ascending ranges, by
// checking the search invariant on the loop's own transfer function: everything
// below the lower bound ends before the key, everything above the upper bound
// starts after it.

import "strings"

type SearchInfo struct {
	Found *Term // the key lies in some range
	At    *Term // index of that range (meaningful when Found)
	Table *Term
	Lo    *Term // accessor of the range start, over index $i
	Hi    *Term
	Key   *Term
	Sub   map[*Term]*Term // rewriting of the loop's final state
	Sound bool            // the table is known to be ascending and disjoint
}

// tables that were searched but are not ascending and disjoint.
var searchProblems = map[string]string{}

func (e *Engine) searchLoop(rec *LoopRec, hs *State, exits func() ([]*LoopExit, []*State)) *SearchInfo {
	if rec.T != nil || rec.X == nil || !strings.HasPrefix(rec.X.S, "x:") {
		return nil
	}
	var un []string
	for _, key := range rec.Keys {
		if !rec.Solved[key] {
			if rec.Hsym[key].Sort != SInt {
				return nil
			}
			un = append(un, key)
		}
	}
	if len(un) != 2 || rec.Cond == True {
		return nil
	}
	// the probed element
	var probe *Term
	many := false
	note := func(t *Term) {
		Walk(t, func(x *Term) {
			if x.Op == OpApp && x.S == "index" && x.Args[0].Sort == SList && e.hasUnsolved(rec, x.Args[1], "") && !e.hasUnsolved(rec, x.Args[0], "") {
				if probe != nil && probe != x {
					many = true
				}
				probe = x
			}
		})
	}
	xs, _ := exits()
	for _, f := range rec.BackF {
		note(f)
	}
	for _, x := range xs {
		note(x.Guard)
	}
	for _, k := range un {
		note(rec.Back[k])
	}
	if probe == nil || many {
		return nil
	}
	table, mid := probe.Args[0], probe.Args[1]
	// comparisons of the element with the key
	type cmp struct {
		acc  *Term
		sign int64
	}
	accs := map[*Term]bool{}
	var key *Term
	bad := false
	Walkall := func(f func(*Term)) {
		for _, t := range rec.BackF {
			Walk(t, f)
		}
		for _, x := range xs {
			Walk(x.Guard, f)
		}
		for _, k := range un {
			Walk(rec.Back[k], f)
		}
	}
	Walkall(func(x *Term) {
		if x.Op != OpGe0 || !Contains(x, probe) {
			return
		}
		c, ms := monos(x.Args[0])
		var acc *Term
		sg := int64(0)
		rest := newPoly()
		rest.c = c
		for _, m := range ms {
			if len(m.At) == 1 && Contains(m.At[0], probe) {
				if acc != nil || (m.C != 1 && m.C != -1) {
					bad = true
					return
				}
				acc, sg = m.At[0], m.C
			} else {
				rest.addMono(m.C, m.At)
			}
		}
		if acc == nil {
			bad = true
			return
		}
		accs[acc] = true
		// key up to a constant: ±(key - acc) + c
		r := rest.build()
		if sg > 0 {
			r = Neg(r)
		}
		kc, kms := monos(r)
		_ = kc
		p := newPoly()
		for _, m := range kms {
			p.addMono(m.C, m.At)
		}
		kk := p.build()
		if key == nil {
			key = kk
		} else if key != kk {
			bad = true
		}
	})
	if bad || key == nil || Contains(key, rec.K) || e.hasUnsolved(rec, key, "") || len(accs) < 1 || len(accs) > 2 {
		return nil
	}
	inv := rec.Inv
	facts := func(f Facts) Facts { return append(append(Facts{}, f...), inv...) }
	for i := 0; i < 2; i++ {
		for _, incl := range []int64{0, 1} {
			if s := e.tryLowerBound(rec, un[i], un[1-i], incl, table, mid, probe, facts, xs); s != nil {
				return s
			}
		}
	}
	for lo := range accs {
		for hi := range accs {
			if len(accs) == 2 && lo == hi {
				continue
			}
			for i := 0; i < 2; i++ {
				a, b := un[i], un[1-i]
				for _, incl := range []int64{0, 1} { // 1: upper bound inclusive
					if s := e.trySearch(rec, a, b, incl, table, mid, key, lo, hi, probe, facts, xs); s != nil {
						return s
					}
				}
			}
		}
	}
	return nil
}

func (e *Engine) trySearch(rec *LoopRec, a, b string, incl int64, table, mid, key, lo, hi, probe *Term, facts func(Facts) Facts, xs []*LoopExit) *SearchInfo {
	hA, hB := rec.Hsym[a], rec.Hsym[b]
	n := Len(table)
	entry := rec.EntryPC
	if !Prove(entry, Eq(rec.Init[a], Int(0))) || !Prove(entry, Eq(Add(rec.Init[b], Int(incl)), n)) {
		return nil
	}
	// header exit means the candidate range is empty
	if !Prove(facts(append(append(Facts{}, entry...), Not(rec.Cond))), Ge(hA, Add(hB, Int(incl)))) {
		return nil
	}
	// every way to the next iteration discards only ranges that cannot contain the key
	tup := app("tuple", SOther, rec.Back[a], rec.Back[b])
	cs, ok := Cases(facts(rec.BackF), tup, 40)
	if !ok || len(cs) == 0 {
		return nil
	}
	for _, c := range cs {
		if c.V.Op != OpApp || c.V.S != "tuple" {
			return nil
		}
		na, nb := c.V.Args[0], c.V.Args[1]
		okA := Prove(c.F, Le(na, hA)) || (Prove(c.F, Le(na, Add(mid, Int(1)))) && Prove(c.F, Gt(key, hi)))
		okB := Prove(c.F, Ge(nb, hB)) || (Prove(c.F, Ge(Add(nb, Int(incl)), mid)) && Prove(c.F, Lt(key, lo)))
		if !okA || !okB {
			return nil
		}
	}
	nonHeader := 0
	for _, x := range xs {
		if x.Kind == "header" {
			continue
		}
		nonHeader++
		f := facts(x.Facts)
		if !Prove(f, And(Ge(key, lo), Le(key, hi), Ge0(mid), Lt(mid, n))) {
			return nil
		}
	}
	if nonHeader != 1 {
		return nil
	}
	s := &SearchInfo{Table: table, Lo: lo, Hi: hi, Key: key}
	if g := constList(table); g != nil {
		prev := int64(-1 << 62)
		for i, el := range g {
			l, h := Subst1(lo, probe, el), Subst1(hi, probe, el)
			if l.Op != OpInt || h.Op != OpInt {
				return nil
			}
			if l.N <= prev || h.N < l.N {
				searchProblems[table.S] = sprintf("entry %d (%#x..%#x) of table %s is not above the entry before it", i, l.N, h.N, strings.TrimPrefix(table.S, "gvar:"))
				return nil
			}
			prev = h.N
		}
		s.Sound = true
	} else {
		return nil
	}
	j := FreshNat("$s")
	cond := Ge(Subst1(hi, probe, Index(table, j)), key)
	X := First(n, j, cond)
	s.At = X
	s.Found = And(Lt(X, n), Ge(key, Subst1(lo, probe, Index(table, X))))
	// in the final state of a successful search the probed index is X
	mx := Subst1(mid, rec.K, rec.X)
	s.Sub = map[*Term]*Term{mx: X, Subst1(probe, rec.K, rec.X): Index(table, X)}
	return s
}

// tryLowerBound recognises a search that narrows [a,b) down to the first index
// whose element satisfies a predicate that is monotone over the table.
func (e *Engine) tryLowerBound(rec *LoopRec, a, b string, incl int64, table, mid, probe *Term, facts func(Facts) Facts, xs []*LoopExit) *SearchInfo {
	for _, x := range xs {
		if x.Kind != "header" {
			return nil
		}
	}
	var atom *Term
	many := false
	note := func(x *Term) {
		if x.Op == OpGe0 && Contains(x, probe) {
			if atom != nil && atom != x && atom != Not(x) {
				many = true
			}
			if atom == nil {
				atom = x
			}
		}
	}
	for _, t := range rec.BackF {
		Walk(t, note)
	}
	for _, k := range []string{a, b} {
		Walk(rec.Back[k], note)
	}
	if atom == nil || many {
		return nil
	}
	hA, hB := rec.Hsym[a], rec.Hsym[b]
	n := Len(table)
	entry := rec.EntryPC
	if !Prove(entry, Eq(rec.Init[a], Int(0))) || !Prove(entry, Eq(Add(rec.Init[b], Int(incl)), n)) {
		return nil
	}
	if !Prove(facts(append(append(Facts{}, entry...), Not(rec.Cond))), Ge(hA, Add(hB, Int(incl)))) {
		return nil
	}
	j := FreshNat("$s")
	P := atom
	if !e.monotonePred(Subst1(P, probe, Index(table, j)), j) {
		P = Not(atom)
		if !e.monotonePred(Subst1(P, probe, Index(table, j)), j) {
			return nil
		}
	}
	cs, ok := Cases(facts(rec.BackF), app("tuple", SOther, rec.Back[a], rec.Back[b]), 40)
	if !ok || len(cs) == 0 {
		return nil
	}
	for _, c := range cs {
		if c.V.Op != OpApp || c.V.S != "tuple" {
			return nil
		}
		na, nb := c.V.Args[0], c.V.Args[1]
		okA := Prove(c.F, Le(na, hA)) || (Prove(c.F, Le(na, Add(mid, Int(1)))) && Prove(c.F, Not(P)))
		okB := Prove(c.F, Ge(nb, hB)) || (Prove(c.F, Ge(Add(nb, Int(incl)), mid)) && Prove(c.F, P))
		if !okA || !okB {
			return nil
		}
	}
	X := First(n, j, Subst1(P, probe, Index(table, j)))
	at := func(t *Term) *Term { return Subst1(t, rec.K, rec.X) }
	return &SearchInfo{Table: table, At: X, Sound: true,
		Sub: map[*Term]*Term{at(hA): X, at(hB): Sub(X, Int(incl))}}
}
