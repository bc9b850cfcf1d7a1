package main

// Models of the standard-library and third-party calls the module makes.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"regexp/syntax"
	"strings"
	"unicode/utf8"
)

func sprintf(f string, a ...any) string { return fmt.Sprintf(f, a...) }

// Pure library functions whose result depends on the arguments only.
var purePkgs = map[string]bool{"strings": true, "unicode/utf8": true, "unicode": true, "strconv": true, "bytes": true, "math/bits": true, "reflect": true, "errors": true, "path": true}

func indexByteTerm(s, c *Term) *Term {
	j := FreshNat("$j")
	n := Len(s)
	f := First(n, j, Eq(Index(s, j), c))
	return Ite(Lt(f, n), f, Int(-1))
}

func (e *Engine) builderLoc(st *State, recv *Term) (string, bool) {
	if recv.Op == OpApp && strings.HasPrefix(recv.S, "addr:") {
		k := "v:" + recv.S[5:]
		if v, ok := st.store[k]; ok && v.Sort == SStr {
			return k, true
		}
	}
	if recv.Op == OpApp && strings.HasPrefix(recv.S, "ptr:") {
		k := fmt.Sprintf("f:%d.$builder", recv.id)
		if _, ok := e.kdef[k]; !ok {
			e.kdef[k] = Str("")
		}
		if _, ok := st.store[k]; !ok {
			st.store[k] = Str("")
		}
		return k, true
	}
	return "", false
}

func (e *Engine) external(st *State, fr *Frame, fn *types.Func, recv *Term, args []*Term, sig *types.Signature, c *ast.CallExpr) []*Term {
	pos := c.Pos()
	pkg := ""
	if fn.Pkg() != nil {
		pkg = fn.Pkg().Path()
	}
	name := pkg + "." + fn.Name()
	tname := ""
	if sig.Recv() != nil {
		t := sig.Recv().Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			tname = n.Obj().Name()
		}
		name = pkg + "." + tname + "." + fn.Name()
	}
	for i := range args {
		if args[i].Sort == SList {
			args[i] = e.contents(st, args[i])
		}
	}
	if recv != nil && recv.Op == OpApp && strings.HasPrefix(recv.S, "addr:") && tname != "Builder" && tname != "Buffer" {
		// a local variable holding an external object: calls may change it
	}
	switch name {
	case "strings.Repeat":
		e.site(st, fr, "repeat", pos, Ge0(args[1]), "")
		return []*Term{Repeat(args[0], args[1])}
	case "strings.Join":
		return []*Term{Join(args[0], args[1])}
	case "strings.ToLower":
		return []*Term{ToLower(args[0])}
	case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains":
		return []*Term{Pure(name, SBool, args[0], args[1])}
	case "strings.IndexByte", "bytes.IndexByte":
		return []*Term{indexByteTerm(args[0], args[1])}
	case "strings.IndexRune":
		if args[1].Op == OpInt && args[1].N >= 0 && args[1].N < 128 {
			return []*Term{indexByteTerm(args[0], args[1])}
		}
	case "strings.Index":
		if args[1].Op == OpStr && len(args[1].S) == 1 {
			return []*Term{indexByteTerm(args[0], Int(int64(args[1].S[0])))}
		}
	case "strings.IndexAny":
		if args[1].Op == OpStr && len(args[1].S) == 1 {
			return []*Term{indexByteTerm(args[0], Int(int64(args[1].S[0])))}
		}
	case "strings.ContainsRune":
		if args[1].Op == OpInt && args[1].N >= 0 && args[1].N < 128 {
			return []*Term{Ge0(indexByteTerm(args[0], args[1]))}
		}
	case "strings.Cut":
		if args[1].Op == OpStr && len(args[1].S) == 1 {
			i := indexByteTerm(args[0], Int(int64(args[1].S[0])))
			ok := Ge0(i)
			s := args[0]
			return []*Term{Ite(ok, Slice(s, Int(0), i), s), Ite(ok, Slice(s, Add(i, Int(1)), Len(s)), Str("")), ok}
		}
	case "strings.SplitN", "strings.Split":
		if args[1].Op == OpStr && len(args[1].S) == 1 && (name == "strings.Split" || (args[2].Op == OpInt && args[2].N >= 2)) {
			// element 0 is everything before the first separator
			i := indexByteTerm(args[0], Int(int64(args[1].S[0])))
			head := Ite(Ge0(i), Slice(args[0], Int(0), i), args[0])
			rest := app("splitrest", SList, args...)
			setElemSort(rest, SStr)
			return []*Term{Cat(List(head), rest)}
		}
	case "strings.EqualFold":
		// fallthrough to opaque
	case "strings.TrimSuffix":
		s, x := args[0], args[1]
		return []*Term{Ite(Pure("strings.HasSuffix", SBool, s, x), Slice(s, Int(0), Sub(Len(s), Len(x))), s)}
	case "strings.TrimPrefix":
		s, x := args[0], args[1]
		return []*Term{Ite(Pure("strings.HasPrefix", SBool, s, x), Slice(s, Len(x), Len(s)), s)}
	case "fmt.Fprintln":
		if s, ok := sprint(e, args[1], " ", c, fr, 1); ok {
			return e.write(st, fr, args[0], Concat(s, Str("\n")), pos)
		}
		return e.write(st, fr, args[0], app("sprintln", SStr, args[1]), pos)
	case "fmt.Fprint":
		if l := args[1]; l.Op == OpApp && l.S == "list" && len(l.Args) == 1 {
			if s, ok := sprint(e, l, "", c, fr, 1); ok {
				return e.write(st, fr, args[0], s, pos)
			}
		}
		// operands are separated by spaces only between two non-strings
		if s, ok := sprint(e, args[1], "", c, fr, 1); ok {
			return e.write(st, fr, args[0], s, pos)
		}
		return e.write(st, fr, args[0], app("sprint", SStr, args[1]), pos)
	case "fmt.Fprintf":
		if s, ok := e.sprintf(args[1], args[2], c, fr, 2); ok {
			return e.write(st, fr, args[0], s, pos)
		}
		return e.write(st, fr, args[0], app("sprintf", SStr, args[1], args[2]), pos)
	case "io.WriteString":
		return e.write(st, fr, args[0], args[1], pos)
	case "fmt.Sprintf":
		if s, ok := e.sprintf(args[0], args[1], c, fr, 1); ok {
			return []*Term{s}
		}
		return []*Term{app("sprintf", SStr, args[0], args[1])}
	case "fmt.Sprint":
		if s, ok := sprint(e, args[0], "", c, fr, 0); ok {
			return []*Term{s}
		}
		return []*Term{app("sprint", SStr, args[0])}
	case "fmt.Sprintln":
		if s, ok := sprint(e, args[0], " ", c, fr, 0); ok {
			return []*Term{Concat(s, Str("\n"))}
		}
		return []*Term{app("sprintln", SStr, args[0])}
	case "fmt.Errorf", "errors.New":
		return []*Term{app("newerr", SOther, args...)}
	case "fmt.Println", "fmt.Printf", "fmt.Print":
		e.effect(st, &Effect{Kind: "stdout", Name: name, Args: args, Pos: pos})
		return e.opaque(st, "stdout", args, sig)
	case "os.Getenv":
		return []*Term{app("getenv", SStr, args[0])}
	case "os.LookupEnv":
		v := app("getenv", SStr, args[0])
		ok := app("envset", SBool, args[0])
		return []*Term{v, Or(ok, Not(Eq(Len(v), Int(0))))}
	case "unicode/utf8.DecodeRuneInString":
		s := args[0]
		r := app("decrune", SInt, s)
		r.lo, r.hi = i64p(0), i64p(0x10FFFF)
		l := app("declen", SInt, s)
		l.lo, l.hi = i64p(0), i64p(4)
		return []*Term{r, l}
	case "unicode/utf8.RuneCountInString":
		rs := app("runes", SList, args[0])
		setElemSort(rs, SInt)
		return []*Term{Len(rs)}
	case "unicode/utf8.RuneLen":
		return e.opaque(st, "pure:"+name, args, sig)
	case "sort.Search":
		if cl, ok := args[1].Obj.(*Closure); ok {
			j := FreshNat("$j")
			sub := st.clone()
			sub.pc = append(sub.pc, Lt(j, args[0]))
			r := e.callClosure(sub, fr, cl, []*Term{j}, pos)
			if len(r) == 1 && e.monotonePred(r[0], j) {
				return []*Term{First(args[0], j, r[0])}
			}
		}
		t := app(fmt.Sprintf("search@%d", pos), SInt, append([]*Term{args[0]}, e.ks...)...)
		t.lo = i64p(0)
		return []*Term{t}
	case "strings.Builder.WriteString", "bytes.Buffer.WriteString":
		if k, ok := e.builderLoc(st, recv); ok {
			st.store[k] = Concat(st.store[k], args[0])
			return []*Term{Len(args[0]), Nil}
		}
	case "strings.Builder.WriteByte", "bytes.Buffer.WriteByte":
		if k, ok := e.builderLoc(st, recv); ok {
			st.store[k] = Concat(st.store[k], byteStr(args[0]))
			return []*Term{Nil}
		}
	case "strings.Builder.WriteRune", "bytes.Buffer.WriteRune":
		if k, ok := e.builderLoc(st, recv); ok {
			s := app("runestr", SStr, args[0])
			if args[0].Op == OpInt {
				s = Str(string(rune(args[0].N)))
			}
			st.store[k] = Concat(st.store[k], s)
			return []*Term{Len(s), Nil}
		}
	case "strings.Builder.Write", "bytes.Buffer.Write":
		if k, ok := e.builderLoc(st, recv); ok {
			s := app("string", SStr, args[0])
			if args[0].Op == OpApp && args[0].S == "bytes" {
				s = args[0].Args[0]
			}
			st.store[k] = Concat(st.store[k], s)
			return []*Term{Len(s), Nil}
		}
	case "strings.Builder.String", "bytes.Buffer.String":
		if k, ok := e.builderLoc(st, recv); ok {
			return []*Term{st.store[k]}
		}
	case "strings.Builder.Len", "bytes.Buffer.Len":
		if k, ok := e.builderLoc(st, recv); ok {
			return []*Term{Len(st.store[k])}
		}
	case "bytes.Buffer.Bytes":
		if k, ok := e.builderLoc(st, recv); ok {
			b := app("bytes", SList, st.store[k])
			setElemSort(b, SInt)
			return []*Term{b}
		}
	case "bytes.Buffer.WriteTo":
		if k, ok := e.builderLoc(st, recv); ok {
			s := st.store[k]
			st.store[k] = Str("")
			return e.write(st, fr, args[0], s, pos)
		}
	case "strings.Builder.Grow", "bytes.Buffer.Grow":
		e.site(st, fr, "repeat", pos, Ge0(args[0]), "")
		return nil
	case "strings.Builder.Reset", "bytes.Buffer.Reset":
		if k, ok := e.builderLoc(st, recv); ok {
			st.store[k] = Str("")
			return nil
		}
	}
	if pkg == "regexp" && tname == "Regexp" {
		if r, ok := e.regexpCall(st, fn.Name(), recv, args, sig); ok {
			return r
		}
	}
	e.keepsArgs(st, fr, fn, name, args, c, pos)
	if purePkgs[pkg] && sig.Recv() == nil {
		return e.opaque(st, "pure:"+name, args, sig)
	}
	if pkg == "sync" {
		e.effect(st, &Effect{Kind: "sync", Name: name, Args: append([]*Term{recv}, args...), Pos: pos, Callee: fn})
		return e.opaqueAt(st, fr, "sync:"+name, sig, pos)
	}
	// anything else is an effect whose result is unknown
	all := args
	if recv != nil {
		all = append([]*Term{recv}, args...)
	}
	r := e.opaqueAt(st, fr, "ext:"+name, sig, pos)
	e.effect(st, &Effect{Kind: "ecall", Name: name, Args: append(append([]*Term{}, all...), r...), Pos: pos, Callee: fn})
	return r
}

// library functions that only read the slices, maps and pointers they are given.
func readsOnly(pkg, fn string) bool {
	switch pkg {
	case "strings", "bytes", "regexp", "reflect", "errors":
		return fn != "As" && fn != "Swapper"
	case "unicode/utf8":
		return fn != "EncodeRune" && fn != "AppendRune"
	case "strconv":
		return !strings.HasPrefix(fn, "Append")
	case "sort":
		return strings.HasPrefix(fn, "Search") || strings.Contains(fn, "Sorted")
	case "slices":
		for _, p := range []string{"Contains", "Index", "Equal", "BinarySearch", "Max", "Min", "Clone", "IsSorted", "Concat", "All", "Values", "Compare"} {
			if strings.HasPrefix(fn, p) {
				return true
			}
		}
		return false
	case "maps":
		return fn != "Copy" && fn != "DeleteFunc" && fn != "Insert"
	case "fmt":
		return strings.HasPrefix(fn, "Sprint") || fn == "Errorf" || strings.HasPrefix(fn, "Print")
	}
	return strings.HasPrefix(pkg, "github.com/ilius/go-lru") || pkg == "syscall" || pkg == "sync"
}

// keepsArgs: a library call without a model must not change what its arguments refer to.
func (e *Engine) keepsArgs(st *State, fr *Frame, fn *types.Func, name string, args []*Term, c *ast.CallExpr, pos token.Pos) {
	if c == nil || fn.Pkg() == nil {
		return
	}
	for _, a := range c.Args {
		t := e.T(fr, a)
		if t == nil {
			continue
		}
		if _, ok := t.Underlying().(*types.Signature); !ok {
			continue
		}
		switch x := ast.Unparen(a).(type) {
		case *ast.FuncLit:
			if id := outerWrite(fr.pkg.Info, x); id != nil {
				e.fail(id.Pos(), "a function handed to %s changes %s", name, id.Name)
			}
		case *ast.Ident:
			if _, ok := fr.pkg.Info.Uses[x].(*types.Var); ok {
				e.fail(pos, "%s is handed a function that may change something", name)
			}
		}
	}
	if n := fn.Name(); fn.Pkg().Path() == "reflect" && (strings.HasPrefix(n, "Set") || strings.HasPrefix(n, "Swap") || strings.HasPrefix(n, "Call") || n == "Copy" || n == "Append" || n == "Clear") {
		e.fail(pos, "%s may change anything", name)
	}
	if readsOnly(fn.Pkg().Path(), fn.Name()) {
		return
	}
	for i, a := range c.Args {
		t := e.T(fr, a)
		if t == nil {
			continue
		}
		switch u := t.Underlying().(type) {
		case *types.Slice, *types.Map, *types.Pointer:
		case *types.Struct:
			refs := false
			for j := 0; j < u.NumFields(); j++ {
				switch u.Field(j).Type().Underlying().(type) {
				case *types.Slice, *types.Map, *types.Pointer, *types.Struct:
					refs = true
				}
			}
			if !refs {
				continue
			}
		default:
			continue
		}
		// the keys of a map, which come in no particular order, put in order
		if i == 0 && i < len(args) && (fn.Pkg().Path() == "sort" || fn.Pkg().Path() == "slices") && strings.HasPrefix(fn.Name(), "S") && mapKeys(e.contents(st, args[0])) {
			return
		}
		e.fail(pos, "%s may change %s", name, types.ExprString(a))
	}
}

// outerWrite: a variable declared outside the literal that it writes to or through.
func outerWrite(info *types.Info, l *ast.FuncLit) *ast.Ident {
	var found *ast.Ident
	see := func(x ast.Expr) {
		id := rootIdent(x)
		if id == nil || id.Name == "_" {
			return
		}
		o := info.Uses[id]
		if o != nil && (o.Pos() < l.Pos() || o.Pos() >= l.End()) {
			found = id
		}
	}
	ast.Inspect(l.Body, func(n ast.Node) bool {
		switch y := n.(type) {
		case *ast.AssignStmt:
			for _, x := range y.Lhs {
				see(x)
			}
		case *ast.IncDecStmt:
			see(y.X)
		}
		return true
	})
	return found
}

// mapKeys: the list of all keys of a map.
func mapKeys(x *Term) bool {
	if x.Op != OpApp || x.S != "comp" && x.S != "tab" {
		return false
	}
	b := x.Args[2]
	return b.Op == OpApp && b.S == "mkey" && b.Args[1] == x.Args[1] && x.Args[0] == app("maplen", SInt, b.Args[0])
}

// opaqueAt: an unknown result, distinct for every dynamic call.
func (e *Engine) opaqueAt(st *State, fr *Frame, name string, sig *types.Signature, pos token.Pos) []*Term {
	n := sig.Results().Len()
	r := make([]*Term, n)
	for i := range r {
		t := sig.Results().At(i).Type()
		r[i] = typed(app(fmt.Sprintf("%s#%d@%s@%d", name, i, fr.path, pos), sortOf(t), e.ks...), t)
	}
	return r
}

func byteStr(b *Term) *Term {
	if b.Op == OpInt && b.N >= 0 && b.N < 128 {
		return Str(string(rune(b.N)))
	}
	return app("bytestr", SStr, b)
}

// monotonePred: a comparison of one column of a constant ascending table with a
// constant of the search; sort.Search then finds the first index satisfying it.
func (e *Engine) monotonePred(p, j *Term) bool {
	g := p
	if g.Op == OpNot {
		g = g.Args[0]
	}
	if g.Op != OpGe0 {
		return false
	}
	var col *Term
	_, ms := monos(g.Args[0])
	sign := int64(0)
	for _, m := range ms {
		if len(m.At) != 1 {
			return false
		}
		if Contains(m.At[0], j) {
			if col != nil {
				return false
			}
			col, sign = m.At[0], m.C
		}
	}
	if col == nil {
		return false
	}
	vals := constColumn(col, j)
	if vals == nil || !sortedCol(vals) {
		return false
	}
	inc := sign > 0
	if p.Op == OpNot {
		inc = !inc
	}
	return inc
}

func fmtArgType(fr *Frame, c *ast.CallExpr, i int) types.Type {
	if c.Ellipsis.IsValid() || i >= len(c.Args) {
		return nil
	}
	return fr.pkg.Info.TypeOf(c.Args[i])
}

// sprint concatenates string operands.
func sprint(e *Engine, l *Term, sep string, c *ast.CallExpr, fr *Frame, off int) (*Term, bool) {
	if l.Op != OpApp || l.S != "list" {
		return nil, false
	}
	var r []*Term
	for i, a := range l.Args {
		if a.Sort != SStr {
			return nil, false
		}
		if i > 0 && sep != "" {
			r = append(r, Str(sep))
		}
		r = append(r, a)
	}
	return Concat(r...), true
}

func (e *Engine) sprintf(f, l *Term, c *ast.CallExpr, fr *Frame, off int) (*Term, bool) {
	if f.Op != OpStr || l.Op != OpApp || l.S != "list" {
		return nil, false
	}
	var r []*Term
	s := f.S
	i := 0
	for {
		p := strings.IndexByte(s, '%')
		if p < 0 {
			r = append(r, Str(s))
			break
		}
		r = append(r, Str(s[:p]))
		if p+1 >= len(s) {
			return nil, false
		}
		switch s[p+1] {
		case '%':
			r = append(r, Str("%"))
		case 's', 'v':
			if i >= len(l.Args) || l.Args[i].Sort != SStr {
				return nil, false
			}
			r = append(r, l.Args[i])
			i++
		default:
			return nil, false
		}
		s = s[p+2:]
	}
	if i != len(l.Args) {
		return nil, false
	}
	return Concat(r...), true
}

// regexpCall models the matching methods as functions of (pattern, subject).
func (e *Engine) regexpCall(st *State, name string, re *Term, args []*Term, sig *types.Signature) ([]*Term, bool) {
	if v, ok := re.Obj.(*types.Var); ok {
		if p, ok := e.pr.regexpOf(v); ok {
			reMinLen[re] = p.minLen
			reSrc[re] = p.src
			rePlain[re] = p.minLen >= 1 && !hasAssertion(p.re)
		}
	}
	match := func(s *Term) (ok, lo, hi *Term) {
		if rePlain[re] {
			return Lt(Int(0), reCount(re, s)), reLo(re, s, Int(0)), reStart(re, s, Int(1))
		}
		ok = app("rematch", SBool, re, s)
		lo = app("relo", SInt, re, s)
		hi = app("rehi", SInt, re, s)
		lo.lo, hi.lo = i64p(0), i64p(0)
		return
	}
	switch name {
	case "FindStringIndex":
		ok, lo, hi := match(args[0])
		return []*Term{Ite(ok, List(lo, hi), Nil)}, true
	case "FindString":
		ok, lo, hi := match(args[0])
		return []*Term{Ite(ok, Slice(args[0], lo, hi), Str(""))}, true
	case "MatchString":
		ok, _, _ := match(args[0])
		return []*Term{ok}, true
	case "FindStringSubmatch":
		n := -1
		if v, ok := re.Obj.(*types.Var); ok {
			if p, ok := e.pr.regexpOf(v); ok {
				n = p.numCap
			}
		}
		if n < 0 || n > 8 {
			return nil, false
		}
		var l []*Term
		for i := 0; i <= n; i++ {
			l = append(l, app("resub", SStr, re, args[0], Int(int64(i))))
		}
		ok, _, _ := match(args[0])
		return []*Term{Ite(ok, List(l...), Nil)}, true
	case "FindAllString", "FindAllStringIndex":
		if args[1].Op == OpInt && args[1].N < 0 && rePlain[re] {
			s := args[0]
			j := FreshNat("$j")
			lo, hi := reLo(re, s, j), reStart(re, s, Add(j, Int(1)))
			if name == "FindAllString" {
				return []*Term{Comp(reCount(re, s), j, Slice(s, lo, hi))}, true
			}
			return []*Term{Comp(reCount(re, s), j, List(lo, hi))}, true
		}
	case "ReplaceAllString", "ReplaceAllLiteralString":
		return []*Term{app("reall", SStr, re, args[0], args[1])}, true
	case "String":
		return []*Term{app("restr", SStr, re)}, true
	}
	return nil, false
}

type rePattern struct {
	src    string
	numCap int
	minLen int64 // of a match, in bytes
	re     *syntax.Regexp
}

// reSrc: the pattern of each regular expression that was used.
var reSrc = map[*Term]string{}

// reMinLen: shortest match of each regular expression that was used.
var reMinLen = map[*Term]int64{}

func reMin(r *syntax.Regexp) int64 {
	switch r.Op {
	case syntax.OpLiteral:
		n := int64(0)
		for _, c := range r.Rune {
			n += int64(utf8.RuneLen(c))
		}
		if r.Flags&syntax.FoldCase != 0 {
			n = int64(len(r.Rune))
		}
		return n
	case syntax.OpCharClass, syntax.OpAnyChar, syntax.OpAnyCharNotNL:
		return 1
	case syntax.OpCapture:
		return reMin(r.Sub[0])
	case syntax.OpPlus:
		return reMin(r.Sub[0])
	case syntax.OpRepeat:
		return int64(r.Min) * reMin(r.Sub[0])
	case syntax.OpConcat:
		n := int64(0)
		for _, s := range r.Sub {
			n += reMin(s)
		}
		return n
	case syntax.OpAlternate:
		n := int64(-1)
		for _, s := range r.Sub {
			if m := reMin(s); n < 0 || m < n {
				n = m
			}
		}
		return max(n, 0)
	}
	return 0
}

// rePlain: no zero-width assertions and no empty matches, so searching a suffix
// that starts where the last match ended finds the next match of the whole.
var rePlain = map[*Term]bool{}

func hasAssertion(r *syntax.Regexp) bool {
	switch r.Op {
	case syntax.OpBeginLine, syntax.OpEndLine, syntax.OpBeginText, syntax.OpEndText, syntax.OpWordBoundary, syntax.OpNoWordBoundary:
		return true
	}
	for _, s := range r.Sub {
		if hasAssertion(s) {
			return true
		}
	}
	return false
}

// For a plain expression the successive non-overlapping matches of a text s are
// numbered from 0: reCount of them; match j occupies [reLo(j), reStart(j+1)),
// and reStart(0) = 0.

// reSuffix: s is the rest of s0 after its first k matches.
func reSuffix(re, s *Term) (s0, k *Term) {
	if s.Op == OpApp && s.S == "slice" && s.Args[2] == Len(s.Args[0]) {
		if r := s.Args[1]; r.Op == OpApp && r.S == "restart" && r.Args[0] == re && r.Args[1] == s.Args[0] {
			return s.Args[0], r.Args[2]
		}
	}
	return nil, nil
}

func reCount(re, s *Term) *Term {
	if s.Op == OpStr && s.S == "" {
		return Int(0)
	}
	if s0, k := reSuffix(re, s); s0 != nil {
		return Sub(reCount(re, s0), k)
	}
	t := app("recount", SInt, re, s)
	t.lo = i64p(0)
	return t
}

func reLo(re, s, j *Term) *Term {
	if s0, k := reSuffix(re, s); s0 != nil {
		return Sub(reLo(re, s0, Add(k, j)), reStart(re, s0, k))
	}
	t := app("reilo", SInt, re, s, j)
	t.lo = i64p(0)
	return t
}

func reStart(re, s, j *Term) *Term {
	if j == Int(0) {
		return Int(0)
	}
	if s0, k := reSuffix(re, s); s0 != nil {
		return Sub(reStart(re, s0, Add(k, j)), reStart(re, s0, k))
	}
	t := app("restart", SInt, re, s, j)
	t.lo = i64p(0)
	return t
}

// reAxioms: facts about one of the terms above.
func reAxioms(x *Term) []*Term {
	re, s := x.Args[0], x.Args[1]
	n, m := reCount(re, s), Int(reMinLen[re])
	var out []*Term
	one := func(j *Term) {
		g := Or(Lt(j, Int(0)), Ge(j, n))
		lo, st, en := reLo(re, s, j), reStart(re, s, j), reStart(re, s, Add(j, Int(1)))
		out = append(out, Or(g, Ge(lo, st)), Or(g, Ge(en, Add(lo, m))), Or(g, Le(en, Len(s))))
	}
	switch x.S {
	case "recount":
		out = append(out, Le(n, Len(s)))
	case "reilo":
		one(x.Args[2])
	case "restart":
		one(x.Args[2])
		one(Sub(x.Args[2], Int(1)))
	}
	return out
}
