package main

// Equivalence of two regular expressions under Go's leftmost-first matching,
// decided on their automata.

import (
	"fmt"
	"regexp/syntax"
	"sort"
	"unicode"
)

type reAut struct {
	prog *syntax.Prog
}

func reCompile(src string) (*reAut, error) {
	re, err := syntax.Parse(src, syntax.Perl)
	if err != nil {
		return nil, err
	}
	p, err := syntax.Compile(re.Simplify())
	if err != nil {
		return nil, err
	}
	return &reAut{p}, nil
}

// reRunes: one code point of every class that the two expressions tell apart.
func reRunes(as ...*reAut) []rune {
	cut := map[rune]bool{0: true}
	for _, a := range as {
		for i := range a.prog.Inst {
			in := &a.prog.Inst[i]
			switch in.Op {
			case syntax.InstRune, syntax.InstRune1:
				rs := in.Rune
				if len(rs) == 1 {
					r0 := rs[0]
					cut[r0], cut[r0+1] = true, true
					if syntax.Flags(in.Arg)&syntax.FoldCase != 0 {
						for r := unicode.SimpleFold(r0); r != r0; r = unicode.SimpleFold(r) {
							cut[r], cut[r+1] = true, true
						}
					}
					continue
				}
				for j := 0; j+1 < len(rs); j += 2 {
					cut[rs[j]], cut[rs[j+1]+1] = true, true
				}
			case syntax.InstRuneAnyNotNL:
				cut['\n'], cut['\n'+1] = true, true
			}
		}
	}
	var out []rune
	for r := range cut {
		if r <= unicode.MaxRune {
			out = append(out, r)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

// closure: the threads reachable without input, in order of preference; threads
// after a match are dropped. marks adds the capture marks as steps of their own
// (then no thread is dropped). An unsupported assertion gives ok = false.
func (a *reAut) closure(pcs []uint32, begin, marks bool) (list []uint32, match, ok bool) {
	seen := map[uint32]bool{}
	ok = true
	var add func(pc uint32)
	add = func(pc uint32) {
		if seen[pc] || (match && !marks) {
			return
		}
		seen[pc] = true
		in := &a.prog.Inst[pc]
		switch in.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			add(in.Out)
			add(in.Arg)
		case syntax.InstNop:
			add(in.Out)
		case syntax.InstCapture:
			if marks && in.Arg >= 2 {
				list = append(list, pc)
				return
			}
			add(in.Out)
		case syntax.InstEmptyWidth:
			if syntax.EmptyOp(in.Arg) != syntax.EmptyBeginText {
				ok = false
				return
			}
			if begin {
				add(in.Out)
			}
		case syntax.InstMatch:
			match = true
		case syntax.InstFail:
		default:
			list = append(list, pc)
		}
	}
	for _, pc := range pcs {
		add(pc)
	}
	return
}

func (a *reAut) step(list []uint32, r rune) []uint32 {
	var out []uint32
	for _, pc := range list {
		in := &a.prog.Inst[pc]
		if in.Op == syntax.InstCapture {
			continue
		}
		if in.MatchRune(r) {
			out = append(out, in.Out)
		}
	}
	return out
}

func (a *reAut) mark(list []uint32, m uint32) []uint32 {
	var out []uint32
	for _, pc := range list {
		in := &a.prog.Inst[pc]
		if in.Op == syntax.InstCapture && in.Arg == m {
			out = append(out, in.Out)
		}
	}
	return out
}

// reEquiv: the two expressions find the same matches (and captures) in every text.
func reEquiv(sa, sb string) (bool, string) {
	a, err := reCompile(sa)
	if err != nil {
		return false, err.Error()
	}
	b, err := reCompile(sb)
	if err != nil {
		return false, err.Error()
	}
	runes := reRunes(a, b)
	// same preferred end of a match from every start
	for _, begin := range []bool{true, false} {
		type pair struct {
			x, y []uint32
			bg   bool
			w    string
		}
		todo := []pair{{[]uint32{uint32(a.prog.Start)}, []uint32{uint32(b.prog.Start)}, begin, ""}}
		seen := map[string]bool{}
		for len(todo) > 0 {
			p := todo[0]
			todo = todo[1:]
			x, mx, ok1 := a.closure(p.x, p.bg, false)
			y, my, ok2 := b.closure(p.y, p.bg, false)
			if !ok1 || !ok2 {
				return false, "not decided: an assertion other than the start of the text"
			}
			if mx != my {
				return false, fmt.Sprintf("they differ on whether a match ends after %q", p.w)
			}
			k := fmt.Sprint(x, y)
			if seen[k] || (len(x) == 0 && len(y) == 0) {
				continue
			}
			seen[k] = true
			if len(seen) > 20000 {
				return false, "not decided: too many states"
			}
			for _, r := range runes {
				todo = append(todo, pair{a.step(x, r), b.step(y, r), false, p.w + string(r)})
			}
		}
	}
	na, nb := a.prog.NumCap, b.prog.NumCap
	if na != nb {
		return false, "they capture different groups"
	}
	if na <= 2 {
		return true, ""
	}
	// same captures: equal languages with marks, each match marked in one way
	type pair struct {
		x, y []uint32
		bg   bool
	}
	todo := []pair{{[]uint32{uint32(a.prog.Start)}, []uint32{uint32(b.prog.Start)}, true}}
	seen := map[string]bool{}
	for len(todo) > 0 {
		p := todo[0]
		todo = todo[1:]
		x, mx, _ := a.closure(p.x, p.bg, true)
		y, my, _ := b.closure(p.y, p.bg, true)
		if mx != my {
			return false, "they capture different parts"
		}
		k := fmt.Sprint(x, y, p.bg)
		if seen[k] || (len(x) == 0 && len(y) == 0) {
			continue
		}
		seen[k] = true
		if len(seen) > 20000 {
			return false, "not decided: too many states"
		}
		for _, r := range runes {
			todo = append(todo, pair{a.step(x, r), b.step(y, r), false})
		}
		for m := uint32(2); m < uint32(na); m++ {
			todo = append(todo, pair{a.mark(x, m), b.mark(y, m), p.bg})
		}
	}
	if !a.unambiguous(runes) {
		return false, "not decided: captures depend on the order of preference"
	}
	return true, ""
}

// unambiguous: no text has two matches of the same extent with different captures.
func (a *reAut) unambiguous(runes []rune) bool {
	type st struct {
		x, y uint32
		diff bool
		bg   bool
	}
	// positions of marks since the last code point are part of the thread
	type th struct {
		pc    uint32
		marks string
	}
	var expand func(pc uint32, bg bool, marks string, seen map[th]bool, out *[]th)
	expand = func(pc uint32, bg bool, marks string, seen map[th]bool, out *[]th) {
		t := th{pc, marks}
		if seen[t] {
			return
		}
		seen[t] = true
		in := &a.prog.Inst[pc]
		switch in.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			expand(in.Out, bg, marks, seen, out)
			expand(in.Arg, bg, marks, seen, out)
		case syntax.InstNop:
			expand(in.Out, bg, marks, seen, out)
		case syntax.InstCapture:
			if in.Arg >= 2 {
				marks += fmt.Sprint(in.Arg, ",")
			}
			expand(in.Out, bg, marks, seen, out)
		case syntax.InstEmptyWidth:
			if bg {
				expand(in.Out, bg, marks, seen, out)
			}
		case syntax.InstFail:
		default:
			*out = append(*out, t)
		}
	}
	seen := map[st]bool{}
	todo := []st{{uint32(a.prog.Start), uint32(a.prog.Start), false, true}}
	for len(todo) > 0 {
		s := todo[0]
		todo = todo[1:]
		if seen[s] {
			continue
		}
		seen[s] = true
		var xs, ys []th
		expand(s.x, s.bg, "", map[th]bool{}, &xs)
		expand(s.y, s.bg, "", map[th]bool{}, &ys)
		for _, x := range xs {
			for _, y := range ys {
				d := s.diff || x.marks != y.marks
				ix, iy := &a.prog.Inst[x.pc], &a.prog.Inst[y.pc]
				if ix.Op == syntax.InstMatch && iy.Op == syntax.InstMatch {
					if d {
						return false
					}
					continue
				}
				if ix.Op == syntax.InstMatch || iy.Op == syntax.InstMatch {
					continue
				}
				for _, r := range runes {
					if ix.MatchRune(r) && iy.MatchRune(r) {
						todo = append(todo, st{ix.Out, iy.Out, d, false})
					}
				}
			}
		}
	}
	return true
}
