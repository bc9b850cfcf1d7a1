package main

// C02 (what a display width is) and C03 (remembered widths).

import (
	"fmt"
	"go/ast"
	"go/types"
	"strings"
)

const cellsFn = "runewidth.Condition.StringWidth"

// measured is the analysis of the display width of a text.
type measured struct {
	c    *Ctx
	fn   *types.Func
	r    *Run
	str  *Term
	gets []*Effect
	sets []*Effect
	miss *Term // the width when nothing is remembered
	bad  bool
}

func cacheType(t types.Type) bool {
	n := recvNamed(t)
	return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "github.com/ilius/go-lru"
}

func (c *Ctx) measured() *measured {
	fn := c.need("", "", vwName)
	if fn == nil {
		return nil
	}
	m := &measured{c: c, fn: fn}
	m.r = c.run(fn, []string{cellsFn}, nil)
	if !c.covered(m.r) {
		return nil
	}
	what := fn.FullName()
	if !c.ob(len(m.r.Args) == 1 && len(m.r.Vals) == 1, "the display width is a function of a text", what, c.fnPos(fn), "signature differs") {
		return nil
	}
	m.str = m.r.Args[0]
	eachEffect(m.r.E.effects, func(ef *Effect, in []*Effect) {
		pos := c.pr.Pos(ef.Pos)
		switch ef.Kind {
		case "loop", "call":
			return
		case "ecall":
			sig := ef.Callee.Type().(*types.Signature)
			if sig.Recv() != nil && cacheType(sig.Recv().Type()) {
				switch ef.Callee.Name() {
				case "Get", "Peek":
					m.gets = append(m.gets, ef)
					return
				case "Set":
					m.sets = append(m.sets, ef)
					return
				case "Delete", "Flush", "Len":
					return
				}
			}
		case "sync":
			return
		}
		m.bad = true
		c.ob(false, "measuring a text only measures and remembers", what, pos, "not decided: "+ef.Kind+" "+ef.Name)
	})
	if m.bad || !c.ob(len(m.gets) <= 4, "measuring a text only measures and remembers", what, c.fnPos(fn), "not decided: too many lookups") {
		return nil
	}
	m.miss = m.with(0, nil, m.r.Vals[0])
	return m
}

// with: t when the lookups in hit give w and the others nothing.
func (m *measured) with(hit int, w, t *Term) *Term {
	s := map[*Term]*Term{}
	for i, g := range m.gets {
		v, ok := g.Args[2], g.Args[3]
		if hit&(1<<i) != 0 {
			s[v], s[ok] = w, True
		} else {
			s[v], s[ok] = Int(0), False
		}
	}
	return Expand(Subst(Expand(t), s))
}

func init() {
	register("C02", "", func(c *Ctx) {
		m := c.measured()
		if m == nil {
			return
		}
		what, pos := m.fn.FullName(), c.fnPos(m.fn)
		var wants []*Term
		for _, n := range []string{"Cells", "Cells2"} {
			sf := c.pr.Func(c.pr.Module, "", specPrefix+n)
			sr := c.run(sf, []string{cellsFn}, nil)
			if !c.ob(sr.Err == "", "specification evaluates", specPrefix+n, "-", sr.Err) {
				return
			}
			wants = append(wants, Subst1(Expand(sr.Vals[0]), sr.Args[0], m.str))
		}
		want := wants[0]
		// the expressions used are the reference one
		var ref *Term
		Walk(want, func(x *Term) {
			if reSrc[x] != "" {
				ref = x
			}
		})
		got := m.miss
		n := 0
		Walk(got, func(x *Term) {
			if s := reSrc[x]; s != "" && x != ref {
				ok, why := reEquiv(s, reSrc[ref])
				c.ob(ok, "the escape sequences looked for are the ANSI ones", tidy(x), pos, why)
				if ok {
					got = Subst1(got, x, ref)
				}
				n++
			}
		})
		if n == 0 {
			c.ob(false, "the escape sequences looked for are the ANSI ones", what, pos, "not decided: no package-level regular expression is used")
			return
		}
		// every escape sequence takes at most the cells it takes in the text
		ok, why := false, ""
		for i, want := range wants {
			f := Facts{Ge(want, Int(0))}
			for _, lim := range []int64{65536, 65535} {
				o, w := Equiv(f, got, Ite(Ge(want, Int(lim)), Int(65535), want))
				ok = ok || o
				if i == 0 && lim == 65536 {
					why = w
				}
			}
		}
		c.ob(ok, "the display width is the width of the text less that of its escape sequences, at most 65535", what, pos, why)
	})
	register("C03", "", func(c *Ctx) {
		m := c.measured()
		if m == nil {
			return
		}
		what, pos := m.fn.FullName(), c.fnPos(m.fn)
		for _, g := range append(append([]*Effect{}, m.gets...), m.sets...) {
			c.ob(g.Args[1] == m.str, "a width is remembered under the text itself", what, c.pr.Pos(g.Pos), "key "+tidy(g.Args[1]))
			_, glob := g.Args[0].Obj.(*types.Var)
			c.ob(glob && g.Args[0] == append(append([]*Effect{}, m.gets...), m.sets...)[0].Args[0], "one memory of widths is used", what, c.pr.Pos(g.Pos), tidy(g.Args[0]))
		}
		// what has been remembered for the text is its width, so in every
		// combination of found and not found the same comes out
		for hit := 0; hit < 1<<len(m.gets); hit++ {
			v := m.with(hit, m.miss, m.r.Vals[0])
			ok, why := Equiv(nil, v, m.miss)
			c.ob(ok, "a remembered width changes nothing", fmt.Sprintf("%s, lookups found: %b", what, hit), pos, why)
			for _, s := range m.sets {
				var f Facts
				for _, p := range s.PC {
					f = append(f, m.with(hit, m.miss, p))
				}
				if !Feasible(f) {
					c.ob(true, "what is remembered is the width", what, c.pr.Pos(s.Pos), "")
					continue
				}
				ok, why := Equiv(f, m.with(hit, m.miss, s.Args[2]), m.miss)
				c.ob(ok, "what is remembered is the width", fmt.Sprintf("%s, lookups found: %b", what, hit), c.pr.Pos(s.Pos), why)
			}
		}
		// the computation itself does not depend on anything that measuring changes
		dep := ""
		Walk(m.miss, func(x *Term) {
			switch {
			case x.Op == OpSym && x != m.str && !strings.HasPrefix(x.S, "$"):
				dep = tidy(x)
			case x.Op == OpApp:
				for _, p := range []string{"h:", "k:", "x:", "exit:", "ext:", "icall:", "dyn", "sync:"} {
					if strings.HasPrefix(x.S, p) {
						dep = tidy(x)
					}
				}
			}
		})
		c.ob(dep == "", "a width depends on the text and the settings only", what, pos, "depends on "+dep)
		c.cacheUses(m)
	})
}

// cacheUses: nothing else stores into the memory of widths.
func (c *Ctx) cacheUses(m *measured) {
	known := map[string]bool{}
	for _, s := range m.sets {
		known[c.pr.Pos(s.Pos)] = true
	}
	vars := map[*types.Var]bool{}
	for v, g := range c.pr.Globs {
		if cacheType(v.Type()) {
			vars[v] = true
			c.ob(c.pr.Const(v), "the memory of widths is never replaced", v.Name(), c.pr.Pos(v.Pos()), "assigned outside its declaration")
			_ = g
		}
	}
	n := 0
	for _, pk := range c.pr.Pkgs {
		for _, f := range pk.Files {
			if strings.HasPrefix(c.pr.Pos(f.Pos()), "-") {
				continue
			}
			calls := map[*ast.Ident]*ast.CallExpr{}
			names := map[*ast.Ident]string{}
			ast.Inspect(f, func(x ast.Node) bool {
				if ce, ok := x.(*ast.CallExpr); ok {
					if se, ok := ast.Unparen(ce.Fun).(*ast.SelectorExpr); ok {
						if id, ok := ast.Unparen(se.X).(*ast.Ident); ok {
							calls[id], names[id] = ce, se.Sel.Name
						}
					}
				}
				id, ok := x.(*ast.Ident)
				if !ok {
					return true
				}
				v, ok := pk.Info.Uses[id].(*types.Var)
				if !ok || !vars[v] {
					return true
				}
				n++
				ce := calls[id]
				ok = ce != nil && (names[id] != "Set" || known[c.pr.Pos(ce.Pos())])
				c.ob(ok, "only measuring a text stores into the memory of widths", v.Name(), c.pr.Pos(id.Pos()), "used in another way")
				return true
			})
		}
	}
	c.note("uses of the memory of widths: %d", n)
}
