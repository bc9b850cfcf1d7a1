package main

// C28: how often, in which order and until when the caller's getters are asked.

import (
	"strings"
)

var asking = map[string][]string{
	"go-table.Table.FormatItem":      {"Value", "Format"},
	"go-table.Table.FormatItemBasic": {"ValueString"},
}

func getterCall(ef *Effect) bool {
	return ef.Kind == "icall" && strings.HasPrefix(ef.Name, "go-table.Getter.")
}

func (c *Ctx) callbacks() {
	n := 0
	for _, fn := range c.roots() {
		if c.pr.Decl[fn] == nil || !strings.HasPrefix(shortName(fn), "go-table.") {
			continue
		}
		want := asking[shortName(fn)]
		if want == nil {
			r := c.rootRun(fn, nil)
			if !c.covered(r) {
				continue
			}
			for _, e := range allRuns(r.E) {
				eachEffect(e.effects, func(ef *Effect, in []*Effect) {
					if getterCall(ef) && Feasible(ef.PC) {
						c.ob(false, "only formatting asks the getters", fn.FullName(), c.pr.Pos(ef.Pos), "calls "+ef.Name)
					}
				})
			}
			c.ob(true, "only formatting asks the getters", fn.FullName(), c.fnPos(fn), "")
			continue
		}
		n++
		r := c.run(fn, []string{vwName}, nil)
		if c.covered(r) {
			c.asksOnce(r, want)
		}
	}
	c.ob(n == len(asking), "the formatting operations exist", c.pr.Module, "table.go", "missing")
}

type ask struct {
	ef   *Effect
	loop *LoopRec
	ord  int // order of the calls
	top  int // top-level step it belongs to
	meth int
}

func (c *Ctx) asksOnce(r *Run, want []string) {
	what := r.Fn.FullName()
	spec := c.pr.Func(c.pr.Module, "Table", specPrefix+"GetterAt")
	at := func(i *Term) *Term {
		lg := r.E.log
		r.E.log = false
		defer func() { r.E.log = lg }()
		vals, _ := r.E.Call(&State{store: map[string]*Term{}}, spec, r.Recv, []*Term{i}, "spec", spec.Pos(), 1)
		return vals[0]
	}
	var asks []ask
	ok := true
	fail := func(ef *Effect, rule, why string) {
		ok = false
		c.ob(false, rule, what, c.pr.Pos(ef.Pos), why)
	}
	tops := map[int]*Effect{}
	for i, tl := range r.E.effects {
		tops[i] = tl
		eachEffect([]*Effect{tl}, func(ef *Effect, in []*Effect) {
			if !getterCall(ef) || !Feasible(ef.PC) {
				return
			}
			a := ask{ef: ef, ord: len(asks), top: i, meth: -1}
			for m, w := range want {
				if strings.HasSuffix(ef.Name, "."+w) {
					a.meth = m
				}
			}
			if a.meth < 0 {
				fail(ef, "the getter is asked for "+strings.Join(want, " and ")+" only", "calls "+ef.Name)
				return
			}
			switch len(in) {
			case 0:
			case 1:
				a.loop = in[0].Loop
			default:
				fail(ef, "the getter is asked once per column", "called in a loop inside the loop over the columns")
				return
			}
			asks = append(asks, a)
		})
	}
	if len(asks) == 0 {
		c.ob(false, "the getters are asked", what, c.fnPos(r.Fn), "no call found")
		return
	}
	errOf := func(ef *Effect) *Term { return app("icall:"+ef.Name+"#1", SOther, ef.Args...) }
	// goes on only if the call did not happen or did not fail
	goOn := func(f Facts, a ask) bool {
		return proveB(f, Or(Not(And(a.ef.PC...)), Eq(errOf(a.ef), Nil)), 1500)
	}
	// which column: the calls of a method step through the columns
	for m := range want {
		next := Int(0)
		last := -1
		var step *LoopRec
		adv := false
		for _, a := range asks {
			if a.meth != m {
				continue
			}
			if a.top != last && last >= 0 && adv {
				if step == nil {
					next = Add(next, Int(1))
				} else if step.T != nil {
					next = Add(next, step.T)
				} else {
					fail(a.ef, "the getter is asked once per column", "called again after a loop without known end")
				}
			}
			idx := next
			if a.loop != nil {
				idx = Add(next, a.loop.K)
			}
			last, step, adv = a.top, a.loop, true
			if e, why := Equiv(a.ef.PC, a.ef.Args[0], at(idx)); !e {
				fail(a.ef, "the getters are asked in column order", "asks "+tidy(a.ef.Args[0])+" at step "+tidy(idx)+": "+why)
			}
		}
	}
	for i, a := range asks {
		for _, b := range asks[i+1:] {
			if a.top != b.top {
				if a.loop == nil && !goOn(b.ef.PC, a) {
					fail(b.ef, "nothing is asked after a failure", "goes on after "+a.ef.Name+" failed")
				}
				if a.loop != nil {
					for _, x := range a.loop.Exits {
						if x.Kind == "break" && !goOn(x.Facts, a) {
							fail(b.ef, "nothing is asked after a failure", "goes on after "+a.ef.Name+" failed")
						}
					}
				}
				continue
			}
			both := append(append(Facts{}, a.ef.PC...), b.ef.PC...)
			if a.meth == b.meth {
				if Feasible(both) {
					fail(b.ef, "the getter is asked once per column", ef2(a.ef, b.ef))
				}
				continue
			}
			if Feasible(both) {
				if a.meth > b.meth {
					fail(b.ef, "the value is asked for before it is formatted", ef2(a.ef, b.ef))
				}
				if !goOn(b.ef.PC, a) {
					fail(b.ef, "nothing is asked after a failure", "goes on after "+a.ef.Name+" failed")
				}
			}
		}
		if a.loop != nil && !a.loop.NoBack && !goOn(a.loop.BackF, a) {
			fail(a.ef, "nothing is asked after a failure", "the next column is asked after "+a.ef.Name+" failed")
		}
	}
	// column by column: a loop that asks for the value also has it formatted
	for i, a := range asks {
		if a.loop == nil {
			continue
		}
		has := map[int]bool{}
		first := true
		for j, b := range asks {
			if b.loop == a.loop {
				has[b.meth] = true
				first = first && j >= i
			}
		}
		if first && len(has) != len(want) {
			fail(a.ef, "the getters are asked column by column", "the loop calls "+a.ef.Name+" for all columns at once")
		}
	}
	// at least once: every completed step asked for everything
	for i, a := range asks {
		if a.loop == nil || a.loop.NoBack {
			continue
		}
		var alts []*Term
		first := true
		for j, b := range asks {
			if b.loop == a.loop && b.meth == a.meth {
				if j < i {
					first = false
				}
				alts = append(alts, And(b.ef.PC...))
			}
		}
		if first && !proveB(a.loop.BackF, Or(alts...), 3000) {
			fail(a.ef, "the getter is asked once per column", "a column can be passed over")
		}
	}
	if ok {
		for _, a := range asks {
			c.ob(true, "the getters are asked once per column, in column order, until one fails", what+" "+a.ef.Name, c.pr.Pos(a.ef.Pos), "")
		}
	}
}

func ef2(a, b *Effect) string { return "called after " + a.Name }
