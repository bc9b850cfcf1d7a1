package main

// Naming of merge values. A loop-invariant integer that depends on which branch
// was taken is given a name before a loop is analysed, so that the body works
// with one unknown whose definition is available to the prover on demand.

import "fmt"

var phiOf = map[*Term]*Term{}  // value -> name
var phiDef = map[*Term]*Term{} // name -> value

func phiSize(t *Term) int {
	n := 0
	Walk(t, func(x *Term) {
		if x.Op == OpIte {
			n++
		}
	})
	return n
}

func namePhi(t *Term) *Term {
	if p, ok := phiOf[t]; ok {
		return p
	}
	p := app(fmt.Sprintf("p:%d", len(phiOf)), SInt)
	p.lo, p.hi = rng(t)
	for _, m := range []int64{1, 0} {
		if (p.lo == nil || *p.lo < m) && proveB(nil, Ge(t, Int(m)), 60) {
			p.lo = i64p(m)
			break
		}
	}
	if p.hi == nil || *p.hi > 65535 {
		if proveB(nil, Le(t, Int(65535)), 60) {
			p.hi = i64p(65535)
		}
	}
	phiOf[t] = p
	phiDef[p] = t
	symAxioms[p.S] = &axiom{nil, []*Term{Eq(p, t)}}
	return p
}

// closedIte: an integer merge value free of bound variables and of the
// iteration numbers in ks.
func closedIte(t *Term, ks []*Term) bool {
	if t.Op != OpIte || t.Sort != SInt || boundVar(t) {
		return false
	}
	for _, k := range ks {
		if Contains(t, k) {
			return false
		}
	}
	return true
}

func collectIte(t *Term, ks []*Term, out map[*Term]*Term) {
	if t.Op != OpIte && Find(t, func(x *Term) bool { return x.Op == OpIte }) == nil {
		return
	}
	seen := map[*Term]bool{}
	var rec func(x *Term)
	rec = func(x *Term) {
		if seen[x] {
			return
		}
		seen[x] = true
		if closedIte(x, ks) {
			if out[x] == nil {
				// name the merge values inside first
				inner := map[*Term]*Term{}
				for _, a := range x.Args {
					collectIte(a, ks, inner)
				}
				y := x
				if len(inner) > 0 {
					y = Subst(x, inner)
				}
				if closedIte(y, ks) {
					out[x] = namePhi(y)
				} else {
					out[x] = y
				}
			}
			return
		}
		for _, a := range x.Args {
			rec(a)
		}
		for _, m := range x.Lin {
			for _, a := range m.At {
				rec(a)
			}
		}
	}
	rec(t)
}

// nameState replaces the closed merge values in a state by names.
func (e *Engine) nameState(st *State) {
	m := map[*Term]*Term{}
	for _, key := range sortedKeys(st.store) {
		if key[0] != 'v' {
			continue
		}
		collectIte(st.store[key], e.ks, m)
	}
	for _, f := range st.pc {
		collectIte(f, e.ks, m)
	}
	if len(m) == 0 {
		return
	}
	for key, v := range st.store {
		if key[0] == 'v' {
			st.store[key] = Subst(v, m)
		}
	}
	for i, f := range st.pc {
		st.pc[i] = Subst(f, m)
	}
}

// Expand puts the definitions of names back.
func Expand(t *Term) *Term {
	for i := 0; i < 64; i++ {
		m := map[*Term]*Term{}
		Walk(t, func(x *Term) {
			if d, ok := phiDef[x]; ok {
				m[x] = d
			}
		})
		if len(m) == 0 {
			return t
		}
		t = Subst(t, m)
	}
	return t
}
