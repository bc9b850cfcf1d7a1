package main

// Hash-consed terms: the value domain of the abstract interpreter.  Integer
// terms are kept as polynomials (linear combinations of monomials over atoms),
// booleans as a small formula language over integer inequalities and opaque
// literals, everything else as applications with normalising constructors.

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

type Sort uint8

const (
	SInt Sort = iota
	SStr
	SBool
	SList
	SOther
)

type Op uint8

const (
	OpInt Op = iota
	OpStr
	OpBool
	OpSym
	OpLin
	OpGe0 // Args[0] (int) >= 0
	OpEq  // Args[0] == Args[1]; for ints Args[0] is a polynomial, Args[1] is 0
	OpNot
	OpAnd
	OpOr
	OpIte
	OpApp
)

type Mono struct {
	C  int64
	At []*Term // sorted by id, non-empty
}

type Term struct {
	Op   Op
	Sort Sort
	S    string
	N    int64
	Args []*Term
	Lin  []Mono // OpLin, with constant N
	Obj  any
	id   int
	bh   int // binder height
	lo   *int64
	hi   *int64
}

var internTab = map[string]*Term{}
var allTerms []*Term

func intern(key string, t *Term) *Term {
	if o, ok := internTab[key]; ok {
		return o
	}
	t.id = len(allTerms)
	for _, a := range t.Args {
		if a.bh > t.bh {
			t.bh = a.bh
		}
	}
	for _, m := range t.Lin {
		for _, a := range m.At {
			if a.bh > t.bh {
				t.bh = a.bh
			}
		}
	}
	allTerms = append(allTerms, t)
	internTab[key] = t
	return t
}

func argKey(args []*Term) string {
	if len(args) == 1 {
		var buf [24]byte
		buf[0] = ','
		return string(strconv.AppendInt(buf[:1], int64(args[0].id), 10))
	}
	b := make([]byte, 0, 64)
	for _, a := range args {
		b = append(b, ',')
		b = strconv.AppendInt(b, int64(a.id), 10)
	}
	return string(b)
}

func Int(n int64) *Term {
	return intern("i"+strconv.FormatInt(n, 10), &Term{Op: OpInt, Sort: SInt, N: n})
}
func Str(s string) *Term { return intern("s"+s, &Term{Op: OpStr, Sort: SStr, S: s}) }
func Bool(b bool) *Term {
	n := int64(0)
	if b {
		n = 1
	}
	return intern("b"+strconv.FormatInt(n, 10), &Term{Op: OpBool, Sort: SBool, N: n})
}

var True, False = Bool(true), Bool(false)

func Sym(name string, s Sort) *Term {
	return intern("y"+strconv.Itoa(int(s))+name, &Term{Op: OpSym, Sort: s, S: name})
}

func i64p(n int64) *int64 { return &n }

func SymR(name string, lo, hi *int64) *Term {
	t := Sym(name, SInt)
	if t.lo == nil {
		t.lo = lo
	}
	if t.hi == nil {
		t.hi = hi
	}
	return t
}

// ---------------------------------------------------------------- integers

func monoKey(at []*Term) string { return argKey(at) }

type polyB struct {
	c  int64
	ms map[string]*Mono
}

func newPoly() *polyB { return &polyB{ms: map[string]*Mono{}} }

func (p *polyB) addMono(c int64, at []*Term) {
	if c == 0 {
		return
	}
	if len(at) == 0 {
		p.c += c
		return
	}
	k := monoKey(at)
	if m, ok := p.ms[k]; ok {
		m.C += c
		if m.C == 0 {
			delete(p.ms, k)
		}
		return
	}
	p.ms[k] = &Mono{c, at}
}

func (p *polyB) addTerm(c int64, t *Term) {
	switch t.Op {
	case OpInt:
		p.c += c * t.N
	case OpLin:
		p.c += c * t.N
		for _, m := range t.Lin {
			p.addMono(c*m.C, m.At)
		}
	default:
		p.addMono(c, []*Term{t})
	}
}

func (p *polyB) build() *Term {
	if len(p.ms) == 0 {
		return Int(p.c)
	}
	ms := make([]Mono, 0, len(p.ms))
	for _, m := range p.ms {
		ms = append(ms, *m)
	}
	sort.Slice(ms, func(i, j int) bool { return lessAt(ms[i].At, ms[j].At) })
	if p.c == 0 && len(ms) == 1 && ms[0].C == 1 && len(ms[0].At) == 1 {
		return ms[0].At[0]
	}
	b := make([]byte, 0, 128)
	b = append(b, 'l')
	b = strconv.AppendInt(b, p.c, 10)
	for _, m := range ms {
		b = append(b, ';')
		b = strconv.AppendInt(b, m.C, 10)
		b = append(b, '*')
		for _, a := range m.At {
			b = append(b, ',')
			b = strconv.AppendInt(b, int64(a.id), 10)
		}
	}
	return intern(string(b), &Term{Op: OpLin, Sort: SInt, N: p.c, Lin: ms})
}

func lessAt(a, b []*Term) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return a[i].id < b[i].id
		}
	}
	return len(a) < len(b)
}

// monos returns constant and monomials of any int term.
func monos(t *Term) (int64, []Mono) {
	switch t.Op {
	case OpInt:
		return t.N, nil
	case OpLin:
		return t.N, t.Lin
	}
	return 0, []Mono{{1, []*Term{t}}}
}

func Add(ts ...*Term) *Term {
	p := newPoly()
	for _, t := range ts {
		p.addTerm(1, t)
	}
	return p.build()
}
func Sub(a, b *Term) *Term {
	p := newPoly()
	p.addTerm(1, a)
	p.addTerm(-1, b)
	return p.build()
}
func Scale(c int64, a *Term) *Term {
	p := newPoly()
	p.addTerm(c, a)
	return p.build()
}
func Neg(a *Term) *Term { return Scale(-1, a) }

func mergeAt(a, b []*Term) []*Term {
	r := append(append([]*Term{}, a...), b...)
	sort.SliceStable(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}

func Mul(a, b *Term) *Term {
	ca, ma := monos(a)
	cb, mb := monos(b)
	p := newPoly()
	p.c = ca * cb
	for _, m := range ma {
		p.addMono(m.C*cb, m.At)
	}
	for _, m := range mb {
		p.addMono(m.C*ca, m.At)
	}
	for _, x := range ma {
		for _, y := range mb {
			p.addMono(x.C*y.C, mergeAt(x.At, y.At))
		}
	}
	return p.build()
}

// Div is Go's truncated division.
func Div(a, b *Term) *Term {
	if b.Op == OpInt && b.N != 0 {
		if a.Op == OpInt {
			return Int(a.N / b.N)
		}
		if b.N == 1 {
			return a
		}
		// exact division
		c, ms := monos(a)
		ok := c%b.N == 0
		for _, m := range ms {
			if m.C%b.N != 0 {
				ok = false
			}
		}
		if !ok && b.N > 1 && c%b.N != 0 {
			// (b*x + r) / b with x >= 0 and 0 <= r < b
			mult := true
			p := newPoly()
			r := ((c % b.N) + b.N) % b.N
			p.c = (c - r) / b.N
			for _, m := range ms {
				mult = mult && m.C%b.N == 0
				p.addMono(m.C/b.N, m.At)
			}
			if mult {
				x := p.build()
				if lo, _ := rng(x); lo != nil && *lo >= 0 {
					return x
				}
			}
		}
		if ok {
			p := newPoly()
			p.c = c / b.N
			for _, m := range ms {
				p.addMono(m.C/b.N, m.At)
			}
			return p.build()
		}
	}
	if a == b && a.Op != OpInt {
		// x/x: keep opaque (x may be 0)
	}
	return app("div", SInt, a, b)
}

func Mod(a, b *Term) *Term {
	if a.Op == OpInt && b.Op == OpInt && b.N != 0 {
		return Int(a.N % b.N)
	}
	return Sub(a, Mul(b, Div(a, b)))
}

// ---------------------------------------------------------------- booleans

func firstCoef(t *Term) int64 {
	_, ms := monos(t)
	if len(ms) == 0 {
		return 0
	}
	return ms[0].C
}

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if (a%b != 0) && ((a < 0) != (b < 0)) {
		q--
	}
	return q
}

// tighten divides a poly>=0 constraint by the gcd of its coefficients.
func tighten(t *Term) *Term {
	c, ms := monos(t)
	g := int64(0)
	for _, m := range ms {
		g = gcd(g, m.C)
	}
	if g <= 1 {
		return t
	}
	p := newPoly()
	p.c = floorDiv(c, g)
	for _, m := range ms {
		p.addMono(m.C/g, m.At)
	}
	return p.build()
}

func Ge0(t *Term) *Term {
	t = tighten(t)
	if t.Op == OpInt {
		return Bool(t.N >= 0)
	}
	if lo, hi := rng(t); lo != nil && *lo >= 0 {
		return True
	} else if hi != nil && *hi < 0 {
		return False
	}
	if r := leafFold(t, Ge0); r != nil {
		return r
	}
	if t.Op == OpLin {
		if r := firstReached(t); r != nil {
			return r
		}
	}
	if firstCoef(t) < 0 {
		// t>=0  <=>  !(-t-1 >= 0)
		n := Sub(Neg(t), Int(1))
		return Not(intern("g"+strconv.Itoa(n.id), &Term{Op: OpGe0, Sort: SBool, Args: []*Term{n}}))
	}
	return intern("g"+strconv.Itoa(t.id), &Term{Op: OpGe0, Sort: SBool, Args: []*Term{t}})
}

// leafFold: a comparison of a gated value whose leaves are all constants is a
// combination of the gates.
func leafFold(t *Term, f func(*Term) *Term) *Term {
	c, ms := monos(t)
	if len(ms) != 1 || len(ms[0].At) != 1 || ms[0].At[0].Op != OpIte {
		return nil
	}
	n := 0
	var ok func(x *Term) bool
	ok = func(x *Term) bool {
		if n++; n > 24 {
			return false
		}
		if x.Op == OpIte {
			return ok(x.Args[1]) && ok(x.Args[2])
		}
		return x.Op == OpInt
	}
	if !ok(ms[0].At[0]) {
		return nil
	}
	var rec func(x *Term) *Term
	rec = func(x *Term) *Term {
		if x.Op == OpIte {
			return IteB(x.Args[0], rec(x.Args[1]), rec(x.Args[2]))
		}
		return f(Int(ms[0].C*x.N + c))
	}
	return rec(ms[0].At[0])
}

func Ge(a, b *Term) *Term { return Ge0(Sub(a, b)) }
func Gt(a, b *Term) *Term { return Ge0(Sub(Sub(a, b), Int(1))) }
func Lt(a, b *Term) *Term { return Gt(b, a) }
func Le(a, b *Term) *Term { return Ge(b, a) }

func isConst(t *Term) bool {
	switch t.Op {
	case OpInt, OpStr, OpBool:
		return true
	}
	return t.Op == OpApp && t.S == "nil"
}

var Nil = app("nil", SOther)

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.Sort == SInt || b.Sort == SInt {
		d := Sub(a, b)
		if d.Op == OpInt {
			return Bool(d.N == 0)
		}
		c, ms := monos(d)
		g := int64(0)
		for _, m := range ms {
			g = gcd(g, m.C)
		}
		if g > 1 {
			if c%g != 0 {
				return False
			}
		}
		if g < 1 {
			g = 1
		}
		if firstCoef(d) < 0 {
			g = -g
		}
		p := newPoly()
		p.c = c / g
		for _, m := range ms {
			p.addMono(m.C/g, m.At)
		}
		d = p.build()
		if r := leafFold(d, func(t *Term) *Term { return Eq(t, Int(0)) }); r != nil {
			return r
		}
		if lo, hi := rng(d); (lo != nil && *lo > 0) || (hi != nil && *hi < 0) {
			return False
		} else if lo != nil && *lo == 0 {
			return Not(Ge0(Sub(d, Int(1))))
		} else if hi != nil && *hi == 0 {
			return Not(Ge0(Sub(Neg(d), Int(1))))
		}
		return intern("e"+strconv.Itoa(d.id)+",0", &Term{Op: OpEq, Sort: SBool, Args: []*Term{d, Int(0)}})
	}
	if a.Sort == SBool && b.Sort == SBool {
		return Or(And(a, b), And(Not(a), Not(b)))
	}
	// nil comparisons of known non-nil things
	for i := 0; i < 2; i++ {
		if a.Op == OpApp && a.S == "nil" {
			if knownNonNil(b) {
				return False
			}
			if b.Op == OpIte {
				return IteB(b.Args[0], Eq(b.Args[1], a), Eq(b.Args[2], a))
			}
		}
		a, b = b, a
	}
	if isConst(a) && isConst(b) {
		return Bool(a == b)
	}
	if a.Op == OpIte && isConst(b) {
		return IteB(a.Args[0], Eq(a.Args[1], b), Eq(a.Args[2], b))
	}
	if b.Op == OpIte && isConst(a) {
		return IteB(b.Args[0], Eq(b.Args[1], a), Eq(b.Args[2], a))
	}
	// string == "" is len == 0
	if a.Op == OpStr && a.S == "" {
		return Eq(Len(b), Int(0))
	}
	if b.Op == OpStr && b.S == "" {
		return Eq(Len(a), Int(0))
	}
	// equal-length list literals compare elementwise
	if a.Op == OpApp && b.Op == OpApp && a.S == "list" && b.S == "list" && len(a.Args) == len(b.Args) {
		r := True
		for i := range a.Args {
			r = And(r, Eq(a.Args[i], b.Args[i]))
		}
		return r
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intern("e"+strconv.Itoa(a.id)+","+strconv.Itoa(b.id), &Term{Op: OpEq, Sort: SBool, Args: []*Term{a, b}})
}

func knownNonNil(t *Term) bool {
	if t.Op != OpApp {
		return false
	}
	switch t.S {
	case "ptr", "closure", "func", "list", "comp", "flat", "cat", "make", "update", "tab", "mapalloc", "addr", "newerr", "struct":
		return true
	}
	return false
}

func Not(a *Term) *Term {
	switch a.Op {
	case OpBool:
		return Bool(a.N == 0)
	case OpNot:
		return a.Args[0]
	case OpAnd:
		n := make([]*Term, len(a.Args))
		for i, x := range a.Args {
			n[i] = Not(x)
		}
		return Or(n...)
	case OpOr:
		n := make([]*Term, len(a.Args))
		for i, x := range a.Args {
			n[i] = Not(x)
		}
		return And(n...)
	}
	return intern("n"+strconv.Itoa(a.id), &Term{Op: OpNot, Sort: SBool, Args: []*Term{a}})
}

func nary(op Op, ts []*Term) *Term {
	unit, zero := True, False
	pre := "&"
	if op == OpOr {
		unit, zero = False, True
		pre = "|"
	}
	set := map[*Term]bool{}
	var list []*Term
	var addAll func(ts []*Term) bool
	addAll = func(ts []*Term) bool {
		for _, t := range ts {
			if t == unit {
				continue
			}
			if t == zero {
				return false
			}
			if t.Op == op {
				if !addAll(t.Args) {
					return false
				}
				continue
			}
			if set[t] {
				continue
			}
			if set[Not(t)] {
				return false
			}
			set[t] = true
			list = append(list, t)
		}
		return true
	}
	if !addAll(ts) {
		return zero
	}
	if len(list) == 0 {
		return unit
	}
	// absorption: a & (a|b) = a ; a & (!a|b) = a & b
	changed := true
	for changed {
		changed = false
		dual := OpOr
		if op == OpOr {
			dual = OpAnd
		}
		for i, t := range list {
			if t.Op != dual {
				continue
			}
			var rest []*Term
			absorbed := false
			for _, a := range t.Args {
				if set[a] && a != t {
					absorbed = true
					break
				}
				if set[Not(a)] {
					continue
				}
				rest = append(rest, a)
			}
			if absorbed {
				delete(set, t)
				list = append(append([]*Term{}, list[:i]...), list[i+1:]...)
				changed = true
				break
			}
			if len(rest) < len(t.Args) {
				delete(set, t)
				nl := append(append([]*Term{}, list[:i]...), list[i+1:]...)
				nl = append(nl, nary(dual, rest))
				return nary(op, nl)
			}
		}
	}
	if len(list) == 1 {
		return list[0]
	}
	sort.Slice(list, func(i, j int) bool { return list[i].id < list[j].id })
	return intern(pre+argKey(list), &Term{Op: op, Sort: SBool, Args: list})
}
func And(ts ...*Term) *Term { return nary(OpAnd, ts) }
func Or(ts ...*Term) *Term  { return nary(OpOr, ts) }

func IteB(c, a, b *Term) *Term {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == b {
		return a
	}
	return Or(And(c, a), And(Not(c), b))
}

// Ite builds a gated value.
func Ite(c, a, b *Term) *Term {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == b {
		return a
	}
	if a.Sort == SBool {
		return IteB(c, a, b)
	}
	if c.Op == OpNot {
		return Ite(c.Args[0], b, a)
	}
	// prune nested conditions
	a = assume(a, c, true)
	b = assume(b, c, false)
	if a == b {
		return a
	}
	// an absent key reads as zero
	if c.Op == OpApp && c.S == "mok" {
		sub := map[*Term]*Term{}
		for _, srt := range []Sort{SInt, SStr, SOther} {
			sub[app("mget", srt, c.Args[0], c.Args[1])] = zeroSort(srt)
		}
		b = Subst(b, sub)
		if Subst(a, sub) == b || (b == zeroSort(a.Sort) && a == MGet(c.Args[0], c.Args[1], a.Sort)) {
			return a
		}
	}
	// ite(c, x, ite(d, x, y)) = ite(c|d, x, y)
	if b.Op == OpIte && b.Args[1] == a {
		return Ite(Or(c, b.Args[0]), a, b.Args[2])
	}
	if b.Op == OpIte && b.Args[2] == a {
		return Ite(Or(c, Not(b.Args[0])), a, b.Args[1])
	}
	if a.Op == OpIte && a.Args[1] == b {
		return Ite(Or(Not(c), a.Args[0]), b, a.Args[2])
	}
	if a.Op == OpIte && a.Args[2] == b {
		return Ite(Or(Not(c), Not(a.Args[0])), b, a.Args[1])
	}
	// gated in-place updates of the same list
	if a.Op == OpApp && a.S == "update" && a.Args[0] == b {
		return Update(b, a.Args[1], Ite(c, a.Args[2], Index(b, a.Args[1])))
	}
	if b.Op == OpApp && b.S == "update" && b.Args[0] == a {
		return Update(a, b.Args[1], Ite(c, Index(a, b.Args[1]), b.Args[2]))
	}
	if a.Op == OpApp && b.Op == OpApp && a.S == "update" && b.S == "update" && a.Args[0] == b.Args[0] && a.Args[1] == b.Args[1] {
		return Update(a.Args[0], a.Args[1], Ite(c, a.Args[2], b.Args[2]))
	}
	// gated tuples/structs of the same shape
	if a.Op == OpApp && b.Op == OpApp && a.S == b.S && len(a.Args) == len(b.Args) &&
		(a.S == "tuple" || strings.HasPrefix(a.S, "struct:")) {
		n := make([]*Term, len(a.Args))
		for i := range n {
			n[i] = Ite(c, a.Args[i], b.Args[i])
		}
		return appObj(a.S, a.Sort, a.Obj, n...)
	}
	if a.Sort == SInt {
		c, a, b = least(c, a, b)
	}
	// nothing is what a text of no parts is anyway
	if n := someOf(c); n != nil {
		if a == n && b == Int(0) {
			return a
		}
		if a.Sort == SStr && b == Str("") && Contains(a, n) && Subst1(a, n, Int(0)) == b {
			return a
		}
	}
	s := a.Sort
	if a.Op == OpApp && a.S == "nil" {
		s = b.Sort
	}
	return intern("?"+argKey([]*Term{c, a, b}), &Term{Op: OpIte, Sort: s, Args: []*Term{c, a, b}})
}

// someOf: the condition says that the count n is not zero.
func someOf(c *Term) *Term {
	if c.Op != OpGe0 {
		return nil
	}
	k, ms := monos(c.Args[0])
	if k == -1 && len(ms) == 1 && ms[0].C == 1 && len(ms[0].At) == 1 && nonNeg(ms[0].At[0]) {
		return ms[0].At[0]
	}
	return nil
}

// least: the smaller of two numbers has one spelling, whatever the comparison says
// about equal numbers and whichever number is named first.
func least(c, a, b *Term) (*Term, *Term, *Term) {
	if c.Op == OpNot || c.Op == OpAnd || c.Op == OpOr || a.Op == OpInt || b.Op == OpInt {
		return c, a, b
	}
	e := Sub(b, a)
	if c != Ge0(e) && c != Ge0(Sub(e, Int(1))) {
		return c, a, b
	}
	if leading(e) < 0 {
		a, b, e = b, a, Sub(a, b)
	}
	return Ge0(e), a, b
}

func leading(t *Term) int64 {
	_, ms := monos(t)
	if len(ms) == 0 {
		return 1
	}
	return ms[0].C
}

// assume simplifies t under a (possibly compound) condition by literal lookup.
func assume(t, c *Term, val bool) *Term {
	lits := map[*Term]*Term{}
	var put func(c *Term, v bool)
	put = func(c *Term, v bool) {
		if c.Op == OpNot {
			put(c.Args[0], !v)
			return
		}
		if c.Op == OpAnd && v {
			for _, a := range c.Args {
				put(a, true)
			}
			return
		}
		if c.Op == OpOr && !v {
			for _, a := range c.Args {
				put(a, false)
			}
			return
		}
		lits[c] = Bool(v)
	}
	put(c, val)
	if !hasIteOrAny(t, lits) {
		return t
	}
	return Subst(t, lits)
}

var containsMemo = map[[2]int]bool{}

func hasIteOrAny(t *Term, lits map[*Term]*Term) bool {
	for l := range lits {
		if Contains(t, l) {
			return true
		}
	}
	return false
}

func Contains(t, x *Term) bool {
	if t == x {
		return true
	}
	if x.id > t.id {
		return false // subterms are always interned first
	}
	k := [2]int{t.id, x.id}
	if v, ok := containsMemo[k]; ok {
		return v
	}
	r := false
	for _, a := range t.Args {
		if Contains(a, x) {
			r = true
			break
		}
	}
	if !r {
	outer:
		for _, m := range t.Lin {
			for _, a := range m.At {
				if Contains(a, x) {
					r = true
					break outer
				}
			}
		}
	}
	containsMemo[k] = r
	return r
}

// Walk visits every distinct subterm.
func Walk(t *Term, f func(*Term)) {
	seen := map[*Term]bool{}
	var w func(*Term)
	w = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		f(t)
		for _, a := range t.Args {
			w(a)
		}
		for _, m := range t.Lin {
			for _, a := range m.At {
				w(a)
			}
		}
	}
	w(t)
}

func Find(t *Term, p func(*Term) bool) *Term {
	var r *Term
	Walk(t, func(x *Term) {
		if r == nil && p(x) {
			r = x
		}
	})
	return r
}

func Subst(t *Term, m map[*Term]*Term) *Term {
	if len(m) == 0 {
		return t
	}
	memo := map[*Term]*Term{}
	minID := -1
	for k := range m {
		if minID < 0 || k.id < minID {
			minID = k.id
		}
	}
	var s func(*Term) *Term
	s = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if t.id < minID {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		r := t
		switch t.Op {
		case OpLin:
			ch := false
		outer:
			for _, mo := range t.Lin {
				for _, a := range mo.At {
					if s(a) != a {
						ch = true
						break outer
					}
				}
			}
			if ch {
				p := newPoly()
				p.c = t.N
				for _, mo := range t.Lin {
					x := Int(mo.C)
					for _, a := range mo.At {
						x = Mul(x, s(a))
					}
					p.addTerm(1, x)
				}
				r = p.build()
			}
		case OpInt, OpStr, OpBool, OpSym:
		default:
			ch := false
			n := make([]*Term, len(t.Args))
			if t.Op == OpApp && binderBody[t.S] != 0 {
				bv, body := t.Args[1], t.Args[2]
				hit := false
				for k := range m {
					if k != bv && Contains(body, k) {
						hit = true
					}
				}
				copy(n, t.Args)
				for i, a := range t.Args {
					if i != 1 && i != 2 {
						n[i] = s(a)
						if n[i] != a {
							ch = true
						}
					}
				}
				if hit {
					m2 := m
					if _, clash := m[bv]; clash {
						m2 = map[*Term]*Term{}
						for k, v := range m {
							if k != bv {
								m2[k] = v
							}
						}
					}
					f := FreshNat("$o")
					nb := Subst(Subst1(body, bv, f), m2)
					b2, nb2 := closeOver(f, nb)
					n[1], n[2] = b2, nb2
					if b2 != bv || nb2 != body {
						ch = true
					}
				}
				if ch {
					r = rebuild(t, n)
				}
				memo[t] = r
				return r
			}
			for i, a := range t.Args {
				n[i] = s(a)
				if n[i] != a {
					ch = true
				}
			}
			if ch {
				r = rebuild(t, n)
			}
		}
		memo[t] = r
		return r
	}
	return s(t)
}

func Subst1(t, from, to *Term) *Term { return Subst(t, map[*Term]*Term{from: to}) }

func rebuild(t *Term, n []*Term) *Term {
	switch t.Op {
	case OpGe0:
		return Ge0(n[0])
	case OpEq:
		return Eq(n[0], n[1])
	case OpNot:
		return Not(n[0])
	case OpAnd:
		return And(n...)
	case OpOr:
		return Or(n...)
	case OpIte:
		return Ite(n[0], n[1], n[2])
	}
	r := mk(t.S, t.Sort, t.Obj, n...)
	if r.Op == OpApp && r.S == t.S {
		if r.lo == nil {
			r.lo = t.lo
		}
		if r.hi == nil {
			r.hi = t.hi
		}
		if s, ok := elemSorts[t]; ok {
			setElemSort(r, s)
		}
	}
	return r
}

// app interns an application without normalisation.
func app(name string, s Sort, args ...*Term) *Term { return appObj(name, s, nil, args...) }

func appObj(name string, s Sort, obj any, args ...*Term) *Term {
	k := "a" + name + "(" + argKey(args)
	t := &Term{Op: OpApp, Sort: s, S: name, Args: args, Obj: obj}
	r := intern(k, t)
	return r
}

// mk interns an application through its normaliser.
func mk(name string, s Sort, obj any, a ...*Term) *Term {
	switch name {
	case "div":
		return Div(a[0], a[1])
	case "shr", "or", "and", "op^", "op&^":
		if len(a) == 2 && a[0].Op == OpInt && a[1].Op == OpInt && a[0].N >= 0 && a[1].N >= 0 {
			x, y := a[0].N, a[1].N
			switch name {
			case "shr":
				if y >= 63 {
					return Int(0)
				}
				return Int(x >> uint(y))
			case "or":
				return Int(x | y)
			case "and":
				return Int(x & y)
			case "op^":
				return Int(x ^ y)
			default:
				return Int(x &^ y)
			}
		}
	case "len":
		return Len(a[0])
	case "index":
		return Index(a[0], a[1])
	case "update":
		return Update(a[0], a[1], a[2])
	case "slice":
		return Slice(a[0], a[1], a[2])
	case "concat":
		return Concat(a...)
	case "repeat":
		return Repeat(a[0], a[1])
	case "join":
		return Join(a[0], a[1])
	case "cat":
		return Cat(a...)
	case "comp":
		return compRaw(a[0], a[1], a[2])
	case "flat":
		return flatRaw(a[0], a[1], a[2])
	case "scomp":
		return scompRaw(a[0], a[1], a[2])
	case "sum":
		return sumRaw(a[0], a[1], a[2])
	case "mget":
		return MGet(a[0], a[1], s)
	case "mok":
		return MOk(a[0], a[1])
	case "tab":
		return tabRaw(a[0], a[1], a[2], a[3])
	case "tolower":
		return ToLower(a[0])
	case "maxof":
		return maxRaw(a[0], a[1], a[2], a[3])
	case "mmax":
		return mmaxRaw(a[0], a[1], a[2], a[3])
	case "first":
		return firstRaw(a[0], a[1], a[2])
	case "list":
		return List(a...)
	case "recount":
		return reCount(a[0], a[1])
	case "reilo":
		return reLo(a[0], a[1], a[2])
	case "restart":
		return reStart(a[0], a[1], a[2])
	}
	if strings.HasPrefix(name, "wrap:") {
		p := strings.Split(name, ":")
		lo, _ := strconv.ParseInt(p[1], 10, 64)
		hi, _ := strconv.ParseInt(p[2], 10, 64)
		return Wrap(a[0], lo, hi)
	}
	if strings.HasPrefix(name, "fn:") {
		return mkFn(name, s, a)
	}
	if strings.HasPrefix(name, "field:") {
		return Field(a[0], name[6:], s)
	}
	if strings.HasPrefix(name, "fold:") {
		if r := foldPure(name[5:], a); r != nil {
			return r
		}
	}
	t := appObj(name, s, obj, a...)
	return t
}

// ---------------------------------------------------------------- ranges

func addp(a, b *int64) *int64 {
	if a == nil || b == nil {
		return nil
	}
	return i64p(*a + *b)
}

const bigLim = int64(1) << 50

func mulRange(alo, ahi, blo, bhi *int64) (*int64, *int64) {
	if alo != nil && ahi != nil && blo != nil && bhi != nil {
		v := []int64{}
		for _, x := range []int64{*alo, *ahi} {
			for _, y := range []int64{*blo, *bhi} {
				if x > bigLim || x < -bigLim || y > bigLim || y < -bigLim {
					return nil, nil
				}
				if (x > 1<<30 || x < -(1<<30)) && (y > 1<<30 || y < -(1<<30)) {
					return nil, nil
				}
				v = append(v, x*y)
			}
		}
		sort.Slice(v, func(i, j int) bool { return v[i] < v[j] })
		return i64p(v[0]), i64p(v[3])
	}
	if alo != nil && blo != nil && *alo >= 0 && *blo >= 0 {
		return i64p(*alo * *blo), nil
	}
	return nil, nil
}

// rng is a quick context-free interval.
func rng(t *Term) (lo, hi *int64) {
	switch t.Op {
	case OpInt:
		return i64p(t.N), i64p(t.N)
	case OpSym:
		return t.lo, t.hi
	case OpLin:
		lo, hi = i64p(t.N), i64p(t.N)
		for _, m := range t.Lin {
			l, h := i64p(m.C), i64p(m.C)
			for _, a := range m.At {
				al, ah := rng(a)
				if l != nil && h != nil && *l == *h && *l < 0 {
					// scale by negative constant
					c := *l
					if ah != nil && abs64(*ah) < bigLim {
						l = i64p(c * *ah)
					} else {
						l = nil
					}
					if al != nil && abs64(*al) < bigLim {
						h = i64p(c * *al)
					} else {
						h = nil
					}
					continue
				}
				if l != nil && h != nil && *l == *h && *l > 0 {
					c := *l
					if al != nil && abs64(*al) < bigLim {
						l = i64p(c * *al)
					} else {
						l = nil
					}
					if ah != nil && abs64(*ah) < bigLim {
						h = i64p(c * *ah)
					} else {
						h = nil
					}
					continue
				}
				l, h = mulRange(l, h, al, ah)
			}
			lo, hi = addp(lo, l), addp(hi, h)
		}
		return
	case OpIte:
		l1, h1 := rng(t.Args[1])
		l2, h2 := rng(t.Args[2])
		if l1 != nil && l2 != nil {
			lo = i64p(min(*l1, *l2))
		}
		if h1 != nil && h2 != nil {
			hi = i64p(max(*h1, *h2))
		}
		return
	case OpApp:
		lo, hi = t.lo, t.hi
		switch t.S {
		case "len":
			if lo == nil {
				lo = i64p(0)
			}
		case "div":
			al, ah := rng(t.Args[0])
			bl, bh := rng(t.Args[1])
			if bl != nil && *bl >= 1 && al != nil && *al >= 0 {
				d := int64(0)
				if bh != nil {
					d = *al / *bh
				}
				lo = i64p(d)
				if ah != nil {
					hi = i64p(*ah / *bl)
				}
			} else if bl != nil && *bl >= 1 && al != nil && *al > -*bl {
				lo = i64p(0)
				if ah != nil {
					hi = i64p(*ah / *bl)
				}
			}
		case "sum":
			l, _ := rng(t.Args[2])
			if l != nil && *l >= 0 {
				lo = i64p(0)
			}
		case "maxof":
			l, h := rng(t.Args[3])
			_, bh := rng(t.Args[2])
			if l != nil {
				lo = l
			}
			if h != nil && bh != nil {
				hi = i64p(max(*h, *bh))
			}
		}
		return
	}
	return nil, nil
}

func abs64(a int64) int64 {
	if a < 0 {
		return -a
	}
	return a
}

// ---------------------------------------------------------------- printing

func (t *Term) String() string { return pr(t, 0) }

func pr(t *Term, d int) string {
	if d > 40 {
		return "…"
	}
	switch t.Op {
	case OpInt:
		return strconv.FormatInt(t.N, 10)
	case OpStr:
		return strconv.Quote(t.S)
	case OpBool:
		return fmt.Sprint(t.N == 1)
	case OpSym:
		return t.S
	case OpLin:
		var sb strings.Builder
		for i, m := range t.Lin {
			if m.C < 0 {
				sb.WriteString("-")
			} else if i > 0 {
				sb.WriteString("+")
			}
			if abs64(m.C) != 1 {
				fmt.Fprintf(&sb, "%d*", abs64(m.C))
			}
			for j, a := range m.At {
				if j > 0 {
					sb.WriteString("*")
				}
				sb.WriteString(pr(a, d+1))
			}
		}
		if t.N != 0 {
			fmt.Fprintf(&sb, "%+d", t.N)
		}
		return "(" + sb.String() + ")"
	case OpGe0:
		return pr(t.Args[0], d+1) + ">=0"
	case OpEq:
		return pr(t.Args[0], d+1) + "==" + pr(t.Args[1], d+1)
	case OpNot:
		return "!" + pr(t.Args[0], d+1)
	case OpAnd, OpOr:
		s := " & "
		if t.Op == OpOr {
			s = " | "
		}
		var p []string
		for _, a := range t.Args {
			p = append(p, pr(a, d+1))
		}
		return "(" + strings.Join(p, s) + ")"
	case OpIte:
		return "{" + pr(t.Args[0], d+1) + " ? " + pr(t.Args[1], d+1) + " : " + pr(t.Args[2], d+1) + "}"
	}
	var p []string
	for _, a := range t.Args {
		p = append(p, pr(a, d+1))
	}
	return t.S + "(" + strings.Join(p, ", ") + ")"
}
