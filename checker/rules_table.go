package main

import (
	"fmt"
	"go/types"
	"strings"
)

const vwName = "visualWidth"

func (c *Ctx) cmp(recv, name string, opaque ...string) {
	fn := c.need("", recv, name)
	spec := c.pr.Func(c.pr.Module, recv, specPrefix+name)
	c.compare(fn, spec, cmpOpt{opaque: append([]string{vwName}, opaque...)})
}

// hasColumn: columns are never nil (adding one follows it), so a name has a column
// if it is a key or if its column is not nil.
func (c *Ctx) hasColumn() {
	fn := c.need("", "TableSpec", "HasColumn")
	spec := c.pr.Func(c.pr.Module, "TableSpec", specPrefix+"HasColumn")
	key := c.pr.Func(c.pr.Module, "TableSpec", specPrefix+"HasColumnKey")
	if fn == nil {
		return
	}
	r, k := c.run(fn, nil, nil), c.run(key, nil, nil)
	if r.Err == "" && k.Err == "" && len(r.Vals) == 1 && len(k.Vals) == 1 {
		q := &eqv{budget: 100}
		if q.eq(nil, r.Vals[0], Subst1(Subst1(k.Vals[0], k.Args[0], r.Args[0]), k.Recv, r.Recv), 0) {
			spec = key
		}
	}
	c.compare(fn, spec, cmpOpt{})
}

// privateState: a heap key that belongs to an unexported field of the table; it
// is judged through the exported queries that read it.
func privateState(k string) bool {
	o := keyOwner(k)
	if o == nil {
		return false
	}
	name := ""
	if k[0] == 'f' {
		name = k[strings.Index(k, ".")+1:]
	} else if o.Op == OpApp && strings.HasPrefix(o.S, "field:") {
		name = o.S[6:]
	}
	return name != "" && name[0] >= 'a' && name[0] <= 'z'
}

// onlyPrivate: the run changes nothing the caller can reach except unexported
// state of the receiver.
func (c *Ctx) onlyPrivate(r *Run) {
	bad := ""
	for _, k := range sortedKeys(r.St.store) {
		if !heapKey(k) || isFresh(keyOwner(k)) || privateState(k) {
			continue
		}
		if v := r.St.store[k]; v == r.E.kdef[k] {
			continue
		}
		bad += heapName(k) + "; "
	}
	c.ob(bad == "", "nothing else the caller can reach is changed", r.Fn.FullName(), c.fnPos(r.Fn), "changes "+bad)
}

// observe evaluates a query method on the state a run leaves behind.
func (c *Ctx) observe(r *Run, recv *Term, q *types.Func, args ...*Term) (v *Term) {
	defer func() {
		if x := recover(); x != nil {
			if u, ok := x.(unsupported); ok {
				c.ob(false, "the analysis covers the code", q.FullName(), c.fnPos(q), "not decided: "+u.msg)
				v = nil
				return
			}
			panic(x)
		}
	}()
	r.E.log = false
	vals, _ := r.E.Call(r.St.clone(), q, recv, args, "observe", q.Pos(), 1)
	r.E.log = true
	if len(vals) == 0 {
		return nil
	}
	return vals[0]
}

func (c *Ctx) specRun(recv, name string) *Run {
	fn := c.pr.Func(c.pr.Module, recv, specPrefix+name)
	if fn == nil {
		c.ob(false, "specification evaluates", specPrefix+name, "-", "missing")
		return nil
	}
	r := c.run(fn, []string{vwName}, nil)
	if r.Err != "" {
		c.ob(false, "specification evaluates", specPrefix+name, "-", r.Err)
		return nil
	}
	return r
}

func (c *Ctx) covered(r *Run) bool {
	return c.ob(r.Err == "", "the analysis covers the code", r.Fn.FullName(), c.fnPos(r.Fn), "not decided: "+r.Err)
}

// widthAfter: Width(q) after fn equals the specification for every q.
func (c *Ctx) widthAfter(name string) *Run {
	fn, wf := c.need("", "Table", name), c.need("", "Table", "Width")
	if fn == nil || wf == nil {
		return nil
	}
	r := c.run(fn, []string{vwName}, nil)
	if !c.covered(r) {
		return nil
	}
	s := c.specRun("Table", "WidthAfter"+name)
	if s == nil {
		return nil
	}
	q := s.Args[len(s.Args)-1]
	got := c.observe(r, r.Recv, wf, q)
	if got == nil {
		return nil
	}
	ok, why := Equiv(nil, got, s.Vals[0])
	c.ob(ok, "recorded width of every column afterwards is the maximum of its old value and the new widths", fn.FullName(), c.fnPos(fn), why)
	old := c.observe(s, s.Recv, wf, q)
	c.ob(old != nil && Prove(nil, Ge(Expand(got), Expand(old))), "no recorded width shrinks", fn.FullName(), c.fnPos(fn), "")
	c.onlyPrivate(r)
	c.noPanics(fn.FullName(), r)
	return r
}

func init() {
	register("C01", "", func(c *Ctx) {
		c.cmp("", "AlignmentLeft")
		c.cmp("", "AlignmentRight")
		c.cmp("", "AlignmentCenter")
	})
	register("C04", "", func(c *Ctx) {
		r1, r2 := c.widthAfter("FormatItem"), c.widthAfter("UpdateWidth")
		fn, wf := c.need("", "", "NewTable"), c.need("", "Table", "Width")
		if fn != nil && wf != nil {
			r := c.run(fn, []string{vwName}, nil)
			if c.covered(r) {
				w := c.observe(r, r.Vals[0], wf, Sym("$name", SStr))
				ok := w != nil && Prove(nil, Eq(w, Int(0)))
				c.ob(ok, "a new table has recorded no width", fn.FullName(), c.fnPos(fn), fmt.Sprint("Width gives ", w))
				if r1 != nil && r2 != nil {
					c.madeMaps([]*Run{r1, r2}, []*Run{r})
				}
			}
		}
		if wf != nil {
			r := c.run(wf, nil, nil)
			if c.covered(r) {
				c.noChange(r)
			}
		}
	})
	register("C05", "", func(c *Ctx) {
		fn := c.need("", "Table", "FormatItem")
		s := c.specRun("Table", "FormatItem")
		if fn == nil || s == nil {
			return
		}
		r := c.run(fn, []string{vwName}, nil)
		if c.covered(r) {
			c.sameVals(fn.FullName(), c.fnPos(fn), nil, r, s)
			c.onlyPrivate(r)
			c.noPanics(fn.FullName(), r)
		}
	})
	register("C06", "", func(c *Ctx) { c.cmp("Table", "FormatItemBasic") })
	register("C07", "", func(c *Ctx) { c.cmp("Table", "AlignFormattedItem") })
	register("C08", "", func(c *Ctx) { c.cmp("Table", "FormatHeader") })
	register("C09", "", func(c *Ctx) {
		c.cmp("Table", "TableWidth")
		c.cmp("TableSpec", "ColumnCount")
		c.hasColumn()
		c.cmp("TableSpec", "AddColumn")
		c.cmp("", "NewTableSpec")
		if add, mk := c.need("", "TableSpec", "AddColumn"), c.need("", "", "NewTableSpec"); add != nil && mk != nil {
			ra, rm := c.run(add, nil, nil), c.run(mk, nil, nil)
			if c.covered(ra) && c.covered(rm) {
				c.madeMaps([]*Run{ra}, []*Run{rm})
			}
		}
		fn := c.need("", "", "NewTable")
		s := c.specRun("", "SpecOf")
		if fn != nil && s != nil {
			r := c.run(fn, []string{vwName}, nil)
			if c.covered(r) && c.ob(isAlloc(r.Vals[0]), "a new table is freshly allocated", fn.FullName(), c.fnPos(fn), tidy(r.Vals[0])) {
				got := r.St.store[fmt.Sprintf("f:%d.TableSpec", r.Vals[0].id)]
				q := &eqv{budget: 1000, ptr: deepPtr(r, s, nil)}
				c.ob(got != nil && q.eq(nil, got, s.Vals[0], 0), "a new table uses the given column list, or a fresh empty one", fn.FullName(), c.fnPos(fn), q.why)
				c.noChange(r)
				c.noPanics(fn.FullName(), r)
			}
		}
	})
}

// noChange: a query leaves everything the caller can reach as it was.
func (c *Ctx) noChange(r *Run) {
	bad := ""
	for _, k := range sortedKeys(r.St.store) {
		if !heapKey(k) || isFresh(keyOwner(k)) {
			continue
		}
		if v := r.St.store[k]; v == r.E.kdef[k] {
			continue
		}
		bad += heapName(k) + "; "
	}
	c.ob(bad == "", "a query changes nothing the caller can reach", r.Fn.FullName(), c.fnPos(r.Fn), "changes "+bad)
}
