package main

import (
	"go/ast"
	"go/types"
	"regexp/syntax"
)

// regexpOf resolves a never-reassigned package-level regexp to its pattern.
func (pr *Prog) regexpOf(v *types.Var) (*rePattern, bool) {
	g := pr.Globs[v]
	if g == nil || !pr.Const(v) {
		return nil, false
	}
	c, ok := ast.Unparen(g.Init).(*ast.CallExpr)
	if !ok || len(c.Args) != 1 {
		return nil, false
	}
	var fn *types.Func
	if se, ok := ast.Unparen(c.Fun).(*ast.SelectorExpr); ok {
		fn, _ = g.Pkg.Info.Uses[se.Sel].(*types.Func)
	}
	if fn == nil || fn.Pkg() == nil || fn.Pkg().Path() != "regexp" || fn.Name() != "MustCompile" {
		return nil, false
	}
	var src string
	if tv, ok := g.Pkg.Info.Types[c.Args[0]]; ok && tv.Value != nil {
		if t := constTerm(tv.Value); t != nil && t.Op == OpStr {
			src = t.S
		}
	}
	if src == "" {
		return nil, false
	}
	re, err := syntax.Parse(src, syntax.Perl)
	if err != nil {
		return nil, false
	}
	return &rePattern{src, re.MaxCap(), reMin(re), re}, true
}
