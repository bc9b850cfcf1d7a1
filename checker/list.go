package main

// Normalising constructors for lists, strings, maps, structs, and the bound
// (comprehension) forms that summarise loops.

import (
	"strconv"
	"strings"
)

func Len(x *Term) *Term {
	switch x.Op {
	case OpStr:
		return Int(int64(len(x.S)))
	case OpIte:
		return Ite(x.Args[0], Len(x.Args[1]), Len(x.Args[2]))
	case OpApp:
		switch x.S {
		case "nil":
			return Int(0)
		case "list":
			return Int(int64(len(x.Args)))
		case "comp":
			return x.Args[0]
		case "flat":
			l := Len(x.Args[2])
			if !Contains(l, x.Args[1]) {
				return Mul(x.Args[0], l)
			}
			return sumRaw(x.Args[0], x.Args[1], l)
		case "scomp":
			l := Len(x.Args[2])
			if !Contains(l, x.Args[1]) {
				return Mul(x.Args[0], l)
			}
			return sumRaw(x.Args[0], x.Args[1], l)
		case "tab":
			return Len(x.Args[3])
		case "update":
			return Len(x.Args[0])
		case "make":
			return x.Args[0]
		case "cat", "concat":
			r := Int(0)
			for _, a := range x.Args {
				r = Add(r, Len(a))
			}
			return r
		case "slice":
			return Sub(x.Args[2], x.Args[1])
		case "repeat":
			return Mul(Len(x.Args[0]), x.Args[1])
		case "bytes":
			return Len(x.Args[0])
		}
		if strings.HasPrefix(x.S, "h:") && len(x.Args) > 0 {
			if l := x.Args[len(x.Args)-1]; l.Op == OpApp && l.S == "lenis" {
				return l.Args[0]
			}
		}
		if g := constList(x); g != nil {
			return Int(int64(len(g)))
		}
	}
	return app("len", SInt, x)
}

// constList is set by the loader: elements of a never-written package-level
// slice or array literal, or nil.
var constListHook func(*Term) []*Term

func constList(x *Term) []*Term {
	if constListHook == nil {
		return nil
	}
	return constListHook(x)
}

func Index(x, i *Term) *Term {
	switch x.Op {
	case OpStr:
		if i.Op == OpInt && i.N >= 0 && i.N < int64(len(x.S)) {
			return Int(int64(x.S[i.N]))
		}
	case OpIte:
		// indexing nil panics, which the index obligation of the access covers
		if isEmptyList(x.Args[1]) {
			return Index(x.Args[2], i)
		}
		if isEmptyList(x.Args[2]) {
			return Index(x.Args[1], i)
		}
		return Ite(x.Args[0], Index(x.Args[1], i), Index(x.Args[2], i))
	case OpApp:
		switch x.S {
		case "list":
			if i.Op == OpInt && i.N >= 0 && i.N < int64(len(x.Args)) {
				return x.Args[i.N]
			}
			if len(x.Args) > 0 && i.Op == OpIte {
				return Ite(i.Args[0], Index(x, i.Args[1]), Index(x, i.Args[2]))
			}
		case "comp":
			return Subst1(x.Args[2], x.Args[1], i)
		case "bytes":
			return Index(x.Args[0], i)
		case "make":
			return x.Args[1]
		case "update":
			d := Sub(i, x.Args[1])
			if d.Op == OpInt {
				if d.N == 0 {
					return x.Args[2]
				}
				return Index(x.Args[0], i)
			}
			if lo, hi := rng(d); (lo != nil && *lo > 0) || (hi != nil && *hi < 0) {
				return Index(x.Args[0], i)
			}
			return Ite(Eq(i, x.Args[1]), x.Args[2], Index(x.Args[0], i))
		case "tab":
			c := Lt(i, x.Args[0])
			return Ite(c, Subst1(x.Args[2], x.Args[1], i), Index(x.Args[3], i))
		case "cat":
			l := Len(x.Args[0])
			c := Lt(i, l)
			if c == True {
				return Index(x.Args[0], i)
			}
			if c == False {
				return Index(Cat(x.Args[1:]...), Sub(i, l))
			}
		case "slice":
			return Index(x.Args[0], Add(x.Args[1], i))
		}
		if g := constList(x); g != nil && i.Op == OpInt && i.N >= 0 && i.N < int64(len(g)) {
			return g[i.N]
		}
	}
	t := app("index", elemSort(x), x, i)
	if t.Sort == SInt && x.Sort == SStr && t.lo == nil {
		t.lo, t.hi = i64p(0), i64p(255)
	}
	return t
}

// elemSortOf records the element sort of opaque list terms.
var elemSorts = map[*Term]Sort{}

func setElemSort(x *Term, s Sort) {
	if x.Op == OpIte {
		setElemSort(x.Args[1], s)
		setElemSort(x.Args[2], s)
		return
	}
	if _, ok := elemSorts[x]; !ok {
		elemSorts[x] = s
	}
}

func elemSort(x *Term) Sort {
	if x.Sort == SStr {
		return SInt
	}
	if s, ok := elemSorts[x]; ok {
		return s
	}
	switch x.Op {
	case OpIte:
		return elemSort(x.Args[1])
	case OpApp:
		switch x.S {
		case "list":
			if len(x.Args) > 0 {
				return x.Args[0].Sort
			}
		case "make", "comp":
			if x.S == "make" {
				return x.Args[1].Sort
			}
			return x.Args[2].Sort
		case "update":
			return x.Args[2].Sort
		case "tab":
			return x.Args[2].Sort
		case "flat":
			return elemSort(x.Args[2])
		case "cat", "slice":
			return elemSort(x.Args[0])
		case "bytes":
			return SInt
		case "index":
			if l := constList(x.Args[0]); len(l) > 0 && l[0].Sort == SList {
				return elemSort(l[0])
			}
		}
	}
	return SOther
}

func Update(x, i, v *Term) *Term {
	if Index(x, i) == v && x.S != "make" {
		return x
	}
	if x.Op == OpApp && x.S == "list" && i.Op == OpInt && i.N >= 0 && i.N < int64(len(x.Args)) {
		n := append([]*Term{}, x.Args...)
		n[i.N] = v
		return List(n...)
	}
	if x.Op == OpApp && x.S == "update" && x.Args[1] == i {
		return Update(x.Args[0], i, v)
	}
	t := app("update", SList, x, i, v)
	return t
}

func List(xs ...*Term) *Term { return app("list", SList, xs...) }

func isEmptyList(x *Term) bool {
	if x.Op != OpApp {
		return false
	}
	return x.S == "nil" || (x.S == "list" && len(x.Args) == 0) || (x.S == "make" && x.Args[0] == Int(0)) ||
		(x.S == "slice" && x.Sort == SList && x.Args[1] == x.Args[2])
}

func Cat(xs ...*Term) *Term {
	var r []*Term
	var put func(x *Term)
	put = func(x *Term) {
		if isEmptyList(x) {
			return
		}
		if x.Op == OpApp && x.S == "cat" {
			for _, a := range x.Args {
				put(a)
			}
			return
		}
		if x.Op == OpApp && x.S == "list" && len(r) > 0 && r[len(r)-1].Op == OpApp && r[len(r)-1].S == "list" {
			r[len(r)-1] = List(append(append([]*Term{}, r[len(r)-1].Args...), x.Args...)...)
			return
		}
		r = append(r, x)
	}
	for _, x := range xs {
		put(x)
	}
	if len(r) == 0 {
		return List()
	}
	if len(r) == 1 {
		return r[0]
	}
	return app("cat", SList, r...)
}

// ------------------------------------------------------------------ strings

func Concat(xs ...*Term) *Term {
	var r []*Term
	var put func(x *Term)
	put = func(x *Term) {
		if x.Op == OpStr && x.S == "" {
			return
		}
		if x.Op == OpApp && x.S == "concat" {
			for _, a := range x.Args {
				put(a)
			}
			return
		}
		if len(r) > 0 {
			l := r[len(r)-1]
			if x.Op == OpStr && l.Op == OpStr {
				r[len(r)-1] = Str(l.S + x.S)
				return
			}
			if x.Op == OpApp && l.Op == OpApp && x.S == l.S {
				if x.S == "repeat" && x.Args[0] == l.Args[0] && nonNeg(x.Args[1]) && nonNeg(l.Args[1]) {
					r[len(r)-1] = Repeat(x.Args[0], Add(l.Args[1], x.Args[1]))
					return
				}
				if x.S == "slice" && x.Args[0] == l.Args[0] && l.Args[2] == x.Args[1] {
					r[len(r)-1] = Slice(x.Args[0], l.Args[1], x.Args[2])
					return
				}
			}
		}
		r = append(r, x)
	}
	for _, x := range xs {
		put(x)
	}
	if len(r) == 0 {
		return Str("")
	}
	if len(r) == 1 {
		return r[0]
	}
	return app("concat", SStr, r...)
}

func nonNeg(t *Term) bool {
	lo, _ := rng(t)
	return lo != nil && *lo >= 0
}

func Repeat(s, n *Term) *Term {
	if n.Op == OpInt {
		if n.N <= 0 {
			return Str("")
		}
		if s.Op == OpStr && n.N*int64(len(s.S)) < 4096 {
			return Str(strings.Repeat(s.S, int(n.N)))
		}
	}
	if s.Op == OpStr && s.S == "" {
		return s
	}
	if n.Op == OpIte {
		return Ite(n.Args[0], Repeat(s, n.Args[1]), Repeat(s, n.Args[2]))
	}
	return app("repeat", SStr, s, n)
}

func Join(l, sep *Term) *Term {
	if l.Op == OpApp && l.S == "list" {
		var r []*Term
		for i, x := range l.Args {
			if i > 0 {
				r = append(r, sep)
			}
			r = append(r, x)
		}
		return Concat(r...)
	}
	if isEmptyList(l) {
		return Str("")
	}
	if l.Op == OpApp && l.S == "cat" {
		if x := l.Args[len(l.Args)-1]; x.Op == OpApp && x.S == "list" && len(x.Args) > 0 {
			a := Cat(l.Args[:len(l.Args)-1]...)
			return Concat(Join(a, sep), Ite(Ge(Len(a), Int(1)), sep, Str("")), Join(x, sep))
		}
		if x := l.Args[0]; x.Op == OpApp && x.S == "list" && len(x.Args) > 0 {
			a := Cat(l.Args[1:]...)
			return Concat(Join(x, sep), Ite(Ge(Len(a), Int(1)), sep, Str("")), Join(a, sep))
		}
	}
	if l.Op == OpIte {
		return Ite(l.Args[0], Join(l.Args[1], sep), Join(l.Args[2], sep))
	}
	return app("join", SStr, l, sep)
}

func Slice(x, lo, hi *Term) *Term {
	if lo == Int(0) && hi == Len(x) {
		return x
	}
	if x.Sort == SStr && lo == hi {
		return Str("")
	}
	if x.Op == OpStr && lo.Op == OpInt && hi.Op == OpInt && lo.N >= 0 && hi.N >= lo.N && hi.N <= int64(len(x.S)) {
		return Str(x.S[lo.N:hi.N])
	}
	if x.Op == OpApp && x.S == "make" {
		return mk("make", SList, nil, Sub(hi, lo), x.Args[1])
	}
	if x.Op == OpApp && x.S == "slice" {
		return Slice(x.Args[0], Add(x.Args[1], lo), Add(x.Args[1], hi))
	}
	if x.Op == OpIte && x.Sort == SStr {
		return Ite(x.Args[0], Slice(x.Args[1], lo, hi), Slice(x.Args[2], lo, hi))
	}
	t := app("slice", x.Sort, x, lo, hi)
	if x.Sort == SList {
		setElemSort(t, elemSort(x))
	}
	return t
}

func ToLower(x *Term) *Term {
	if x.Op == OpStr {
		return Str(strings.ToLower(x.S))
	}
	return app("tolower", SStr, x)
}

// ------------------------------------------------------------------ binders

func bvar(h int) *Term {
	t := SymR("$b"+strconv.Itoa(h), i64p(0), nil)
	t.bh = h
	return t
}

var freshN int

func Fresh(prefix string, s Sort) *Term {
	freshN++
	return Sym(prefix+"#"+strconv.Itoa(freshN), s)
}

func FreshNat(prefix string) *Term {
	t := Fresh(prefix, SInt)
	t.lo = i64p(0)
	return t
}

var binderBody = map[string]int{"comp": 2, "flat": 2, "scomp": 2, "sum": 2, "maxof": 2, "tab": 2, "mmax": 2}

// closeOver replaces k in body by the canonical bound variable.
func closeOver(k, body *Term) (*Term, *Term) {
	b := bvar(body.bh + 1)
	return b, Subst1(body, k, b)
}

func Comp(n, k, body *Term) *Term { b, bd := closeOver(k, body); return compRaw(n, b, bd) }
func Flat(n, k, body *Term) *Term { b, bd := closeOver(k, body); return flatRaw(n, b, bd) }
func SComp(n, k, body *Term) *Term {
	b, bd := closeOver(k, body)
	return scompRaw(n, b, bd)
}
func Sum(n, k, body *Term) *Term { b, bd := closeOver(k, body); return sumRaw(n, b, bd) }
func MaxOf(n, k, body, init *Term) *Term {
	b, bd := closeOver(k, body)
	return maxRaw(n, b, bd, init)
}
func Tab(n, k, body, base *Term) *Term {
	b, bd := closeOver(k, body)
	return tabRaw(n, b, bd, base)
}

const unrollMax = 8

func compRaw(n, b, body *Term) *Term {
	if n.Op == OpInt && n.N <= unrollMax {
		var r []*Term
		for i := int64(0); i < n.N; i++ {
			r = append(r, Subst1(body, b, Int(i)))
		}
		return List(r...)
	}
	// identity comprehension
	if body.Op == OpApp && body.S == "index" && body.Args[1] == b && !Contains(body.Args[0], b) && Len(body.Args[0]) == n {
		return body.Args[0]
	}
	t := app("comp", SList, n, b, body)
	return t
}

func flatRaw(n, b, body *Term) *Term {
	if n.Op == OpInt && n.N <= unrollMax {
		var r []*Term
		for i := int64(0); i < n.N; i++ {
			r = append(r, Subst1(body, b, Int(i)))
		}
		return Cat(r...)
	}
	if body.Op == OpApp && body.S == "list" && len(body.Args) == 1 {
		return compRaw(n, b, body.Args[0])
	}
	if isEmptyList(body) {
		return List()
	}
	return app("flat", SList, n, b, body)
}

func scompRaw(n, b, body *Term) *Term {
	if n.Op == OpInt && n.N <= unrollMax {
		var r []*Term
		for i := int64(0); i < n.N; i++ {
			r = append(r, Subst1(body, b, Int(i)))
		}
		return Concat(r...)
	}
	if body.Op == OpStr && body.S == "" {
		return body
	}
	if !Contains(body, b) {
		return Repeat(body, n)
	}
	// separator-before-all-but-first is a join
	if body.Op == OpApp && body.S == "concat" && len(body.Args) >= 2 {
		h := body.Args[0]
		pos := Ge0(Sub(b, Int(1)))
		if h.Op == OpIte && h.Args[0] == pos && h.Args[2] == Str("") && !Contains(h.Args[1], b) {
			return Join(compRaw(n, b, Concat(body.Args[1:]...)), h.Args[1])
		}
	}
	if body.Op == OpIte && body.Args[0] == Ge0(Sub(b, Int(1))) {
		// {k>0 ? sep+x : x}
		y, x := body.Args[1], body.Args[2]
		if y.Op == OpApp && y.S == "concat" {
			for i := 1; i < len(y.Args); i++ {
				if Concat(y.Args[i:]...) == x {
					sep := Concat(y.Args[:i]...)
					if !Contains(sep, b) {
						return Join(compRaw(n, b, x), sep)
					}
				}
			}
		}
	}
	return app("scomp", SStr, n, b, body)
}

func sumRaw(n, b, body *Term) *Term {
	if n.Op == OpInt && n.N <= unrollMax {
		r := Int(0)
		for i := int64(0); i < n.N; i++ {
			r = Add(r, Subst1(body, b, Int(i)))
		}
		return r
	}
	if !Contains(body, b) {
		return Mul(n, body)
	}
	// elements of a list one after the other
	if body.Op == OpApp && body.S == "index" && body.Args[1] == b && !Contains(body.Args[0], b) && Len(body.Args[0]) == n {
		if t := sumList(body.Args[0]); t != nil {
			return t
		}
	}
	// linear: split monomials without b
	c, ms := monos(body)
	// a term that differs only in the first iteration
	pos := Ge0(Sub(b, Int(1)))
	for i, m := range ms {
		if len(m.At) == 1 && m.At[0].Op == OpIte && m.At[0].Args[0] == pos {
			x, y := m.At[0].Args[1], m.At[0].Args[2]
			p := newPoly()
			p.addTerm(1, Int(c))
			for j, o := range ms {
				if j != i {
					t := Int(o.C)
					for _, a := range o.At {
						t = Mul(t, a)
					}
					p.addTerm(1, t)
				}
			}
			p.addTerm(m.C, x)
			d := Scale(m.C, Subst1(Sub(y, x), b, Int(0)))
			return Add(sumRaw(n, b, p.build()), Ite(Ge(n, Int(1)), d, Int(0)))
		}
	}
	if c != 0 || len(ms) > 1 || (len(ms) == 1 && ms[0].C != 1) {
		p := newPoly()
		p.addTerm(1, Mul(n, Int(c)))
		for _, m := range ms {
			x := Int(1)
			dep := []*Term{}
			for _, a := range m.At {
				if Contains(a, b) {
					dep = append(dep, a)
				} else {
					x = Mul(x, a)
				}
			}
			if len(dep) == 0 {
				p.addTerm(m.C, Mul(n, x))
				continue
			}
			y := Int(1)
			for _, a := range dep {
				y = Mul(y, a)
			}
			p.addTerm(m.C, Mul(x, app("sum", SInt, n, b, y)))
		}
		return p.build()
	}
	b, body = ascending(n, b, body)
	return app("sum", SInt, n, b, body)
}

// ascending: where the order does not matter, a body that counts down is spelled
// counting up (v stands for n-1-v), provided the result is simpler.
func ascending(n, b, body *Term) (*Term, *Term) {
	down := false
	seen := map[*Term]bool{}
	var walk func(x *Term)
	walk = func(x *Term) {
		if seen[x] || down {
			return
		}
		seen[x] = true
		if _, ms := monos(x); x.Sort == SInt {
			for _, m := range ms {
				if m.C == -1 && len(m.At) == 1 && m.At[0] == b {
					down = true
				}
			}
		}
		for _, m := range x.Lin {
			for _, a := range m.At {
				walk(a)
			}
		}
		for _, a := range x.Args {
			walk(a)
		}
	}
	walk(body)
	if !down {
		return b, body
	}
	// the body is only evaluated when there is an element
	for n.Op == OpIte && (n.Args[1] == Int(0) || n.Args[2] == Int(0)) {
		if n.Args[1] == Int(0) {
			n = n.Args[2]
		} else {
			n = n.Args[1]
		}
	}
	v := FreshNat("$s")
	up := Subst1(body, b, Sub(Sub(n, Int(1)), v))
	if termSize(up) < termSize(body) {
		return closeOver(v, up)
	}
	return b, body
}

// sumList: the sum of a list's elements, following its structure.
func sumList(l *Term) *Term {
	if l.Op != OpApp {
		return nil
	}
	switch l.S {
	case "list":
		return Add(l.Args...)
	case "cat":
		r := Int(0)
		for _, a := range l.Args {
			r = Add(r, sumOf(a))
		}
		return r
	case "flat":
		c := FreshNat("$s")
		return Sum(l.Args[0], c, sumOf(Inst(l, c)))
	}
	return nil
}

func sumOf(l *Term) *Term {
	if t := sumList(l); t != nil {
		return t
	}
	v := FreshNat("$s")
	return Sum(Len(l), v, Index(l, v))
}

func maxRaw(n, b, body, init *Term) *Term {
	if n == Int(0) {
		return init
	}
	// alternatives that cannot exceed the start value have one spelling
	if l, _ := rng(init); l != nil && *l >= 0 && init.Op != OpInt {
		var leaf func(x *Term) *Term
		leaf = func(x *Term) *Term {
			if x == init {
				return Int(0)
			}
			if x.Op == OpIte {
				return Ite(x.Args[0], leaf(x.Args[1]), leaf(x.Args[2]))
			}
			return x
		}
		body = leaf(body)
	}
	if body == init || (body == Int(0) && nonNeg(init)) {
		return init
	}
	b, body = ascending(n, b, body)
	return app("maxof", SInt, n, b, body, init)
}

// MMax: the map m0 after raising, for each v < n, the entry of name(v) to at
// least val(v).
func MMax(n, v, name, val, m0 *Term) *Term {
	b, bd := closeOver(v, app("pair", SOther, name, val))
	return mmaxRaw(n, b, bd, m0)
}

func mmaxRaw(n, b, body, m0 *Term) *Term {
	if n == Int(0) {
		return m0
	}
	return app("mmax", SOther, n, b, body, m0)
}

func tabRaw(n, b, body, base *Term) *Term {
	if n == Int(0) {
		return base
	}
	if Len(base) == n {
		return compRaw(n, b, body)
	}
	return app("tab", SList, n, b, body, base)
}

// Inst instantiates a binder term's body.
func Inst(t, i *Term) *Term { return Subst1(t.Args[2], t.Args[1], i) }

// --------------------------------------------------------------------- maps

var constMapHook func(m *Term) (keys, vals []*Term, ok bool)

func MGet(m, k *Term, s Sort) *Term {
	switch m.Op {
	case OpIte:
		return Ite(m.Args[0], MGet(m.Args[1], k, s), MGet(m.Args[2], k, s))
	case OpApp:
		switch m.S {
		case "mset":
			c := Eq(m.Args[1], k)
			return Ite(c, m.Args[2], MGet(m.Args[0], k, s))
		case "mempty", "nil":
			return zeroSort(s)
		case "mdel":
			return Ite(Eq(m.Args[1], k), zeroSort(s), MGet(m.Args[0], k, s))
		case "mmax":
			v := FreshNat("$q")
			p := Inst(m, v)
			return MaxOf(m.Args[0], v, Ite(Eq(p.Args[0], k), p.Args[1], Int(0)), MGet(m.Args[3], k, s))
		}
	}
	if constMapHook != nil && groundConst(k) {
		if ks, vs, ok := constMapHook(m); ok {
			for i := range ks {
				if ks[i] == k {
					return vs[i]
				}
			}
			if len(vs) > 0 {
				return zeroLike(vs[0])
			}
		}
	}
	if ks, vs := smallStrMap(m); ks != nil && k.Sort == SStr && s == SInt {
		r := Int(0)
		for i := len(ks) - 1; i >= 0; i-- {
			r = Ite(Eq(k, ks[i]), vs[i], r)
		}
		return r
	}
	return app("mget", s, m, k)
}

func MOk(m, k *Term) *Term {
	switch m.Op {
	case OpIte:
		return IteB(m.Args[0], MOk(m.Args[1], k), MOk(m.Args[2], k))
	case OpApp:
		switch m.S {
		case "mset":
			return Or(Eq(m.Args[1], k), MOk(m.Args[0], k))
		case "mdel":
			return And(Not(Eq(m.Args[1], k)), MOk(m.Args[0], k))
		case "mempty", "nil":
			return False
		}
	}
	if constMapHook != nil && groundConst(k) {
		if ks, _, ok := constMapHook(m); ok {
			for i := range ks {
				if ks[i] == k {
					return True
				}
			}
			return False
		}
	}
	if ks, _ := smallStrMap(m); ks != nil && k.Sort == SStr {
		var or []*Term
		for _, c := range ks {
			or = append(or, Eq(k, c))
		}
		return Or(or...)
	}
	return app("mok", SBool, m, k)
}

// smallStrMap: the entries of a small constant map with string keys.
func smallStrMap(m *Term) (k, v []*Term) {
	if constMapHook == nil {
		return nil, nil
	}
	ks, vs, ok := constMapHook(m)
	if !ok || len(ks) == 0 || len(ks) > 24 {
		return nil, nil
	}
	for _, c := range ks {
		if c.Op != OpStr {
			return nil, nil
		}
	}
	return ks, vs
}

func groundConst(t *Term) bool {
	if isConst(t) {
		return true
	}
	if t.Op == OpApp && t.S == "list" {
		for _, a := range t.Args {
			if !groundConst(a) {
				return false
			}
		}
		return true
	}
	return false
}

func zeroSort(s Sort) *Term {
	switch s {
	case SInt:
		return Int(0)
	case SStr:
		return Str("")
	case SBool:
		return False
	}
	return Nil
}

func zeroLike(t *Term) *Term {
	if t.Op == OpApp && t.S == "list" {
		n := make([]*Term, len(t.Args))
		for i := range n {
			n[i] = zeroLike(t.Args[i])
		}
		return List(n...)
	}
	return zeroSort(t.Sort)
}

// ------------------------------------------------------------------ structs

func Struct(typ string, fields []string, vals []*Term) *Term {
	return appObj("struct:"+typ, SOther, fields, vals...)
}

func Field(x *Term, f string, s Sort) *Term {
	if x.Op == OpIte {
		return Ite(x.Args[0], Field(x.Args[1], f, s), Field(x.Args[2], f, s))
	}
	if x.Op == OpApp && strings.HasPrefix(x.S, "struct:") {
		for i, n := range x.Obj.([]string) {
			if n == f {
				return x.Args[i]
			}
		}
	}
	return app("field:"+f, s, x)
}

func SetField(x *Term, f string, v *Term) *Term {
	if x.Op == OpApp && strings.HasPrefix(x.S, "struct:") {
		names := x.Obj.([]string)
		n := append([]*Term{}, x.Args...)
		for i := range names {
			if names[i] == f {
				n[i] = v
			}
		}
		return Struct(x.S[7:], names, n)
	}
	if x.Op == OpIte {
		return Ite(x.Args[0], SetField(x.Args[1], f, v), SetField(x.Args[2], f, v))
	}
	return app("setfield:"+f, SOther, x, v)
}

// ------------------------------------------------------------ pure functions

func foldPure(name string, a []*Term) *Term {
	if len(a) == 2 && a[0].Op == OpStr && a[1].Op == OpStr {
		switch name {
		case "strings.HasPrefix":
			return Bool(strings.HasPrefix(a[0].S, a[1].S))
		case "strings.HasSuffix":
			return Bool(strings.HasSuffix(a[0].S, a[1].S))
		case "strings.Contains":
			return Bool(strings.Contains(a[0].S, a[1].S))
		}
	}
	if len(a) == 2 && a[0].Op == OpIte {
		switch name {
		case "strings.HasPrefix", "strings.HasSuffix":
			return IteB(a[0].Args[0], Pure(name, SBool, a[0].Args[1], a[1]), Pure(name, SBool, a[0].Args[2], a[1]))
		}
	}
	if len(a) == 2 && a[1].Op == OpStr && a[1].S == "" && (name == "strings.HasPrefix" || name == "strings.HasSuffix") {
		return True
	}
	return nil
}

// Pure builds an application of a known side-effect-free library function.
func Pure(name string, s Sort, a ...*Term) *Term { return mk("fold:"+name, s, nil, a...) }

// Wrap reduces t into [lo,hi] unless it is provably there already.
func Wrap(t *Term, lo, hi int64) *Term {
	l, h := rng(t)
	if l != nil && h != nil && *l >= lo && *h <= hi {
		return t
	}
	if t.Op == OpInt {
		m := hi - lo + 1
		v := (t.N - lo) % m
		if v < 0 {
			v += m
		}
		return Int(v + lo)
	}
	w := app("wrap:"+strconv.FormatInt(lo, 10)+":"+strconv.FormatInt(hi, 10), SInt, t)
	w.lo, w.hi = i64p(lo), i64p(hi)
	return w
}
