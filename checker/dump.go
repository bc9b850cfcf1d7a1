package main

import (
	"fmt"
	"go/types"
	"os"
	"regexp"
	"strings"
)

// entry builds symbolic arguments for a function.
func (e *Engine) symArgs(fn *types.Func) (recv *Term, args []*Term) {
	sig := fn.Type().(*types.Signature)
	mkArg := func(n string, t types.Type) *Term {
		nm := "arg:" + n
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && b.Kind() != types.Int {
			nm += ":" + b.Name() // value ranges are attached to the symbol
		}
		v := Sym(nm, sortOf(t))
		typed(v, t)
		if _, ok := t.Underlying().(*types.Map); ok {
			v = app("argmap:"+n, SOther)
		}
		if p, ok := t.Underlying().(*types.Pointer); ok {
			ptrTypes[v] = types.TypeString(p.Elem(), nil)
		}
		return v
	}
	if r := sig.Recv(); r != nil {
		recv = mkArg("recv", r.Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		p := sig.Params().At(i)
		args = append(args, mkArg(fmt.Sprintf("%d", i), p.Type()))
	}
	return
}

type Run struct {
	E    *Engine
	Fn   *types.Func
	Recv *Term
	Args []*Term
	Vals []*Term
	Rets []Ret
	St   *State
	Err  string
}

func (e *Engine) RunFunc(fn *types.Func, st *State) (r *Run) {
	r = &Run{E: e, Fn: fn}
	defer func() {
		if x := recover(); x != nil {
			if u, ok := x.(unsupported); ok {
				r.Err = e.pr.Pos(u.pos) + ": " + u.msg
				return
			}
			if os.Getenv("CHECKER_PANIC") != "" {
				panic(x)
			}
			r.Err = fmt.Sprint("internal error: ", x)
		}
	}()
	r.Recv, r.Args = e.symArgs(fn)
	if st == nil {
		st = &State{store: map[string]*Term{}}
	}
	r.St = st
	r.Vals, r.Rets = e.Call(st, fn, r.Recv, append([]*Term{}, r.Args...), "", fn.Pos(), 0)
	return r
}

func dumpEffects(e *Engine, efs []*Effect, ind string) {
	for _, f := range efs {
		fmt.Printf("%s%s %s %s\n", ind, f.Kind, f.Name, e.pr.Pos(f.Pos))
		for _, a := range f.Args {
			fmt.Printf("%s    %s\n", ind, tidy(a))
		}
		if f.Kind == "loop" {
			l := f.Loop
			fmt.Printf("%s  T=%v X=%v rank=%s\n", ind, tidy(l.T), tidy(l.X), l.Rank)
			for _, k := range l.Keys {
				fmt.Printf("%s  [%s] solved=%v init=%v head=%v back=%v\n", ind, tidy(k), l.Solved[k], tidy(l.Init[k]), tidy(l.Head[k]), tidy(l.Back[k]))
			}
			for _, v := range l.Inv {
				fmt.Printf("%s  inv %v\n", ind, tidy(v))
			}
			for _, x := range l.Exits {
				fmt.Printf("%s  exit %s guard=%v gate=%v\n", ind, x.Kind, tidy(x.Guard), tidy(x.Gate))
			}
			dumpEffects(e, f.Body, ind+"    ")
		}
	}
}

var tidyRE = regexp.MustCompile(`\d+/[\w/@]+(\||@\d+:|@\d+\b)|github.com/ilius/go-table/?`)

func tidy(x any) string { return tidyRE.ReplaceAllString(fmt.Sprint(x), "") }

func dump(pr *Prog, args []string) {
	pkg := pr.Module
	if args[0] != "." {
		pkg += "/" + args[0]
	}
	fn := pr.Func(pkg, args[1], args[2])
	if fn == nil {
		fmt.Println("no such function")
		return
	}
	op := map[string]bool{}
	for _, o := range args[3:] {
		op[o] = true
	}
	e := NewEngine(pr)
	e.Opaque = func(f *types.Func) bool { return op[f.Name()] }
	e.AutoSum = os.Getenv("CHECKER_SUM") != ""
	r := e.RunFunc(fn, nil)
	if sumDebug != nil {
		sumDebug()
	}
	if r.Err != "" {
		fmt.Println("ERR", r.Err)
	}
	for _, v := range r.Vals {
		fmt.Println("VAL", tidy(v))
	}
	for k, v := range r.St.store {
		if !strings.HasPrefix(k, "v:") {
			fmt.Println("POST", k, tidy(v))
		}
	}
	dumpEffects(e, e.effects, "")
	for _, s := range e.sites {
		fmt.Println("SITE", s.Kind, pr.Pos(s.Pos), s.OK, tidy(s.Goal))
		if debugSites && !s.OK {
			for _, f := range s.PC {
				fmt.Println("   PC", tidy(f))
			}
		}
	}
}

func init() {
	debugSites = os.Getenv("CHECKER_PC") != ""
}

var debugSites bool

func init() {
	if os.Getenv("CHECKER_SUM") != "" {
		sumDebug = func() {
			for k, s := range sumCache {
				fmt.Println("SUM", k, s.name, s.why)
			}
		}
	}
}

var sumDebug func()
