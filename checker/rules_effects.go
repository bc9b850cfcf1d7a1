package main

// C16 (no unsynchronised shared state) and C25 (operations change only what they
// promise): what every exported operation may store to, call and keep.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// owners: the parameters and package-level variables a reference is reached from.
func owners(r *Run, t *Term) (params map[int]bool, globs map[string]bool) {
	params, globs = map[int]bool{}, map[string]bool{}
	Walk(t, func(x *Term) {
		if r.Recv != nil && x == r.Recv {
			params[-1] = true
		}
		for i, a := range r.Args {
			if x == a {
				params[i] = true
			}
		}
		if x.Op == OpApp && strings.HasPrefix(x.S, "gvar:") {
			globs[x.S[5:]] = true
		}
	})
	return
}

// target: the reference that is written through, without the parts that only
// select a place in it.
func chain(t *Term) *Term {
	for t.Op == OpApp && len(t.Args) > 0 {
		switch {
		case strings.HasPrefix(t.S, "field:"), t.S == "index", t.S == "slice", t.S == "mget", t.S == "update", t.S == "mset":
			t = t.Args[0]
		default:
			return t
		}
	}
	return t
}

// stores: every store, deletion or foreign call an operation may perform on
// memory it did not allocate itself.
type touch struct {
	kind string
	name string
	obj  *Term
	val  *Term
	ef   *Effect
}

func touches(r *Run) []touch {
	var out []touch
	eachEffect(r.E.effects, func(ef *Effect, in []*Effect) {
		if !Feasible(ef.PC) {
			return
		}
		add := func(obj, val *Term, name string) {
			var walk func(o *Term)
			walk = func(o *Term) {
				if o.Op == OpIte {
					walk(o.Args[1])
					walk(o.Args[2])
					return
				}
				if isFresh(o) {
					return
				}
				out = append(out, touch{ef.Kind, name, o, val, ef})
			}
			walk(obj)
		}
		switch ef.Kind {
		case "fieldset":
			add(ef.Args[0], ef.Args[1], ef.Name)
		case "mapset":
			add(ef.Args[0], ef.Args[2], "")
		case "mapdelete":
			add(ef.Args[0], nil, "")
		case "elemset":
			add(ef.Args[0], ef.Args[2], "")
		case "globset":
			out = append(out, touch{"globset", ef.Name, nil, ef.Args[0], ef})
		case "ecall", "sync":
			out = append(out, touch{ef.Kind, ef.Name, nil, nil, ef})
		case "stdout":
			out = append(out, touch{"stdout", ef.Name, nil, nil, ef})
		}
	})
	return out
}

// configuration calls: documented not to be used concurrently, and changing the settings.
func configCall(fn *types.Func) bool {
	switch shortName(fn) {
	case "runewidth.CreateLUT", "runewidth.Condition.CreateLUT", "runewidth.handleEnv", "runewidth.init":
		return true
	}
	return fn.Name() == "init"
}

// synchronised or stateless library calls.
func syncSafe(name string) bool {
	switch {
	case strings.HasPrefix(name, "github.com/ilius/go-lru.SyncCache."):
		return true
	case strings.HasPrefix(name, "regexp.Regexp."):
		return name != "regexp.Regexp.Longest"
	case strings.HasPrefix(name, "syscall.LazyProc."), strings.HasPrefix(name, "syscall.LazyDLL."), strings.HasPrefix(name, "regexp."), strings.HasPrefix(name, "os.Getenv"), strings.HasPrefix(name, "os.LookupEnv"):
		return true
	case strings.HasPrefix(name, "sync.") || strings.HasPrefix(name, "sync/atomic."):
		return true
	}
	return false
}

func refs(t *Term) bool { return t != nil && (t.Sort == SList || t.Sort == SOther) }

// mutable references contained in a value (not merely mentioned in computing it).
func held(t *Term, out *[]*Term, seen map[*Term]bool) {
	if t == nil || seen[t] {
		return
	}
	seen[t] = true
	switch t.Op {
	case OpIte:
		held(t.Args[1], out, seen)
		held(t.Args[2], out, seen)
		return
	case OpApp:
		switch {
		case t.S == "list", t.S == "cat", t.S == "update", strings.HasPrefix(t.S, "struct:"):
			for _, a := range t.Args {
				held(a, out, seen)
			}
			return
		case isValueList(t), strings.HasPrefix(t.S, "closure:"):
			return
		}
	}
	if refs(t) && t != Nil {
		*out = append(*out, t)
	}
}

// kept: the references that stay reachable after the call, with where they stay.
func kept(r *Run) map[string][]*Term {
	out := map[string][]*Term{}
	put := func(where string, t *Term) {
		if !refs(t) {
			return
		}
		var h []*Term
		held(Expand(t), &h, map[*Term]bool{})
		out[where] = append(out[where], h...)
	}
	for _, t := range touches(r) {
		if t.val != nil {
			put(t.kind+" "+t.name, t.val)
		}
	}
	// fields of new objects
	for _, k := range sortedKeys(r.St.store) {
		if !heapKey(k) || k[0] == 'g' || !isAlloc(keyOwner(k)) {
			continue
		}
		put("new object ."+k[strings.Index(k, ".")+1:], r.St.store[k])
	}
	return out
}

// global variables holding state that can change under a reader.
func (c *Ctx) mutableGlob(name string) bool {
	for v, g := range c.pr.Globs {
		if v.Pkg().Path()+"."+v.Name() != name {
			continue
		}
		switch u := v.Type().Underlying().(type) {
		case *types.Map, *types.Slice, *types.Chan:
			_ = u
			return true
		case *types.Pointer:
			if n, ok := u.Elem().(*types.Named); ok && n.Obj().Pkg() != nil {
				if n.Obj().Pkg().Path() == "regexp" {
					return false
				}
			}
			return true
		}
		_ = g
		return false
	}
	return false
}

func init() {
	register("C16", "", func(c *Ctx) {
		if !c.stepLemma() {
			return
		}
		n := 0
		for _, fn := range c.roots() {
			if configCall(fn) {
				continue
			}
			r := c.rootRun(fn, nil)
			if !c.covered(r) {
				continue
			}
			what := fn.FullName()
			bad := false
			fail := func(pos, why string) {
				bad = true
				c.ob(false, "package-level state is touched only through synchronised operations", what, pos, why)
			}
			for _, t := range touches(r) {
				pos := c.pr.Pos(t.ef.Pos)
				n++
				switch t.kind {
				case "globset":
					fail(pos, "assigns the package variable "+t.name)
				case "ecall", "sync":
					for _, a := range t.ef.Args {
						_, gs := owners(r, a)
						if len(gs) > 0 && !syncSafe(t.name) {
							fail(pos, "calls "+t.name+" on the package variable "+join(gs))
						}
					}
				case "stdout":
				default:
					if _, gs := owners(r, chain(t.obj)); len(gs) > 0 {
						fail(pos, t.kind+" "+t.name+" through the package variable "+join(gs))
					}
				}
			}
			// references to shared memory must not get out
			out := kept(r)
			for i, v := range r.Vals {
				var h []*Term
				held(Expand(v), &h, map[*Term]bool{})
				out[fmt.Sprintf("result %d", i)] = h
			}
			for _, w := range sortedKeys(out) {
				for _, h := range out[w] {
					_, gs := owners(r, chain(h))
					for _, g := range sortedKeys(gs) {
						if c.mutableGlob(g) {
							fail(c.fnPos(fn), w+" shares the memory of the package variable "+g)
						}
					}
				}
			}
			if !bad {
				c.ob(true, "package-level state is touched only through synchronised operations", what, c.fnPos(fn), "")
			}
		}
		c.note("stores and library calls classified: %d", n)
		var gl []string
		for v, g := range c.pr.Globs {
			if c.mutableGlob(v.Pkg().Path()+"."+v.Name()) && !isSpec(v.Name()) && len(g.Writes) > 0 {
				gl = append(gl, v.Name())
			}
		}
		sort.Strings(gl)
		c.note("package variables assigned or passed by address somewhere: %s", strings.Join(gl, " "))
	})
	register("C25", "", func(c *Ctx) {
		if !c.stepLemma() {
			return
		}
		widths := c.widthMap()
		n := 0
		for _, fn := range c.roots() {
			r := c.rootRun(fn, nil)
			if !c.covered(r) {
				continue
			}
			what := fn.FullName()
			bad := false
			fail := func(rule, pos, why string) {
				bad = true
				c.ob(false, rule, what, pos, why)
			}
			const only = "nothing but what the operation promises is changed"
			for _, t := range touches(r) {
				n++
				if why := c.allowed(r, t, widths); why != "" {
					fail(only, c.pr.Pos(t.ef.Pos), why)
				}
			}
			if !bad {
				c.ob(true, only, what, c.fnPos(fn), "")
			}
			bad = false
			const ret = "no reference to the caller's data is kept beyond columns and column list"
			k := kept(r)
			for _, w := range sortedKeys(k) {
				for _, h := range k[w] {
					ps, _ := owners(r, h)
					for i := range ps {
						if i < 0 || c.mayKeep(fn, i) {
							continue
						}
						fail(ret, c.fnPos(fn), w+" keeps "+tidy(h))
					}
				}
			}
			if !bad {
				c.ob(true, ret, what, c.fnPos(fn), "")
			}
		}
		c.note("stores and library calls classified: %d", n)
	})
}

func join(m map[string]bool) string { return strings.Join(sortedKeys(m), ", ") }

// widthMap: the field of the table that holds the recorded widths, by reading a width.
func (c *Ctx) widthMap() string {
	fn := c.need("", "Table", "Width")
	if fn == nil {
		return ""
	}
	r := c.run(fn, nil, nil)
	if !c.covered(r) {
		return ""
	}
	f := ""
	Walk(Expand(r.Vals[0]), func(x *Term) {
		if x.Op == OpApp && strings.HasPrefix(x.S, "field:") && len(x.Args) == 1 && x.Args[0] == r.Recv {
			f = x.S
		}
	})
	c.ob(f != "", "recorded widths live in the table", fn.FullName(), c.fnPos(fn), "not decided: no field found")
	return f
}

// mayKeep: the column list and the columns may be kept.
func (c *Ctx) mayKeep(fn *types.Func, i int) bool {
	t := fn.Type().(*types.Signature).Params().At(i).Type()
	n := recvNamed(t)
	return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == c.pr.Module && (n.Obj().Name() == "TableSpec" || n.Obj().Name() == "Column")
}

// allowed: why a store or library call is not covered by what the operation promises.
func (c *Ctx) allowed(r *Run, t touch, widths string) string {
	fn := shortName(r.Fn)
	switch t.kind {
	case "stdout":
		return "prints to the standard output"
	case "ecall", "sync":
		if syncSafe(t.name) {
			return ""
		}
		for _, a := range t.ef.Args {
			ps, gs := owners(r, a)
			if refs(a) && len(ps)+len(gs) > 0 {
				return "passes " + tidy(a) + " to " + t.name
			}
		}
		return ""
	case "globset":
		if configCall(r.Fn) && strings.HasSuffix(t.name, ".EastAsianWidth") {
			return ""
		}
		return "assigns the package variable " + t.name
	}
	what := t.kind + " " + t.name + " of " + tidy(t.obj)
	ps, gs := owners(r, chain(t.obj))
	onlyRecv := len(ps) == 1 && ps[-1] && len(gs) == 0
	switch fn {
	case "go-table.Table.FormatItem", "go-table.Table.UpdateWidth":
		if t.kind == "mapset" && onlyRecv && widths != "" && t.obj.Op == OpApp && t.obj.S == widths && t.obj.Args[0] == r.Recv {
			return ""
		}
	case "go-table.Table.AlignFormattedItem":
		if t.kind == "elemset" && t.obj == r.Args[0] {
			return ""
		}
	case "go-table.TableSpec.AddColumn":
		if onlyRecv && (t.kind == "fieldset" && t.name == "Columns" || t.kind == "mapset" && t.obj.Op == OpApp && t.obj.S == "field:ColumnByName") {
			return ""
		}
	case "uniseg.Graphemes.Next":
		if onlyRecv && t.kind == "fieldset" && t.obj == r.Recv {
			return ""
		}
	case "runewidth.Condition.CreateLUT":
		if onlyRecv && (t.kind == "fieldset" && t.name == "combinedLut" || t.kind == "elemset" && t.obj.Op == OpApp && t.obj.S == "field:combinedLut") {
			return ""
		}
	case "runewidth.CreateLUT", "runewidth.handleEnv", "runewidth.init":
		if len(ps) == 0 && len(gs) == 1 && strings.HasSuffix(sortedKeys(gs)[0], "runewidth.DefaultCondition") {
			if t.kind == "elemset" || t.name == "combinedLut" || (t.name == "EastAsianWidth" && fn != "runewidth.CreateLUT") {
				return ""
			}
		}
	}
	return what
}
