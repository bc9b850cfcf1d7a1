package main

// Check framework: a property is a list of obligations, each about a named
// construct of the analysed tree, each discharged or not by a stated rule.

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"
)

type Ob struct {
	Rule   string `json:"rule"`
	What   string `json:"construct"`
	Pos    string `json:"pos"`
	OK     bool   `json:"ok"`
	Detail string `json:"detail,omitempty"`
}

type Ctx struct {
	ID    string
	Tier  string
	pr    *Prog
	obs   []Ob
	funcs map[string]bool
	loops int
	calls int
	memo  map[string]any
	notes []string
	sums  map[*fnSum]bool
}

type Property struct {
	ID    string
	Rules string // the rule applied, one paragraph
	Run   func(c *Ctx)
}

var registry = map[string]*Property{}

func register(id, rules string, run func(c *Ctx)) {
	registry[id] = &Property{id, rules, run}
}

func (c *Ctx) ob(ok bool, rule, what, pos, detail string) bool {
	if ok {
		detail = ""
	}
	c.obs = append(c.obs, Ob{rule, what, pos, ok, clip(detail, 1500)})
	return ok
}

func (c *Ctx) fnPos(fn *types.Func) string {
	if fn == nil {
		return "-"
	}
	return c.pr.Pos(fn.Pos())
}

func (c *Ctx) absorb(e *Engine) {
	for f := range e.funcs {
		if !isSpec(f.Name()) {
			c.funcs[f.FullName()] = true
		}
	}
	for _, l := range e.lorder {
		if !strings.Contains(l.Fn, specPrefix) {
			c.loops++
		}
	}
	var walk func(efs []*Effect)
	walk = func(efs []*Effect) {
		for _, f := range efs {
			c.calls++
			walk(f.Body)
		}
	}
	walk(e.effects)
	for s := range e.sums {
		if !c.sums[s] {
			c.sums[s] = true
			c.absorb(s.run.E)
		}
	}
}

const specPrefix = "verifSpec"

func isSpec(name string) bool { return strings.HasPrefix(name, specPrefix) }

// need looks a function of the public surface up.
func (c *Ctx) need(pkg, recv, name string) *types.Func {
	path := c.pr.Module
	if pkg != "" {
		path += "/" + pkg
	}
	fn := c.pr.Func(path, recv, name)
	if fn == nil || c.pr.Decl[fn.Origin()] == nil {
		n := name
		if recv != "" {
			n = recv + "." + name
		}
		c.ob(false, "the function is there", path+"."+n, "-", "no such function")
		return nil
	}
	return fn
}

func runProperty(root, id, tier, outDir string) int {
	start := time.Now()
	p := registry[id]
	if p == nil {
		fmt.Println("unknown property", id)
		return 2
	}
	if p.Rules == "" {
		p.Rules = ruleText[id]
	}
	c := &Ctx{ID: id, Tier: tier, funcs: map[string]bool{}, memo: map[string]any{}, sums: map[*fnSum]bool{}}
	// an analysis that does not come to an end has not decided the property
	time.AfterFunc(780*time.Second, func() {
		w := &Ctx{ID: id, Tier: tier, funcs: map[string]bool{}, memo: map[string]any{}, sums: map[*fnSum]bool{}}
		w.ob(false, "the analysis covers the code", id, "-", "not decided: the analysis did not finish within 780 s")
		os.Exit(w.finish(p, outDir, time.Since(start)))
	})
	pr, err := Load(root, platform(os.Getenv("CHECKER_PLATFORM")))
	if err != nil {
		c.ob(false, "the tree loads and type-checks", "module", "-", err.Error())
	} else {
		c.pr = pr
		func() {
			defer func() {
				if x := recover(); x != nil {
					if os.Getenv("CHECKER_PANIC") != "" {
						panic(x)
					}
					msg := fmt.Sprint(x)
					if u, ok := x.(unsupported); ok {
						msg = c.pr.Pos(u.pos) + ": " + u.msg
					}
					c.ob(false, "the analysis covers the code", id, "-", "not decided: "+msg+"\n"+string(debug.Stack()))
				}
			}()
			p.Run(c)
		}()
	}
	if len(c.obs) == 0 {
		c.ob(false, "the analysis covers the code", id, "-", "no obligation was generated")
	}
	if tier == "thorough" && os.Getenv("CHECKER_PLATFORM") == "" {
		c.otherPlatforms(root)
	}
	return c.finish(p, outDir, time.Since(start))
}

// platform: a build configuration by name ("GOOS/GOARCH" or "GOOS/GOARCH+tag").
func platform(name string) Config {
	var cfg Config
	name, cfg.Tags, _ = strings.Cut(name, "+")
	cfg.GOOS, cfg.GOARCH, _ = strings.Cut(name, "/")
	return cfg
}

// otherPlatforms decides the property once more for the sources of every other
// supported build.
func (c *Ctx) otherPlatforms(root string) {
	if c.ID == "C26" {
		return // decides across platforms anyway
	}
	names := []string{"linux/386", "darwin/arm64", "freebsd/amd64"}
	if c.ID != "C23" { // the locale rule of POSIX systems
		names = append(names, "windows/amd64", "js/wasm", "linux/amd64+appengine")
	}
	self, err := os.Executable()
	if err != nil {
		c.ob(false, "the analysis covers the code", c.ID, "-", err.Error())
		return
	}
	type res struct {
		ok  bool
		out string
	}
	rs := make([]res, len(names))
	sem := make(chan bool, 3)
	var wg sync.WaitGroup
	for i, n := range names {
		wg.Add(1)
		go func(i int, n string) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			dir, err := os.MkdirTemp("", "checker")
			if err != nil {
				rs[i].out = err.Error()
				return
			}
			defer os.RemoveAll(dir)
			cmd := exec.Command(self, c.ID, "thorough")
			cmd.Env = append(os.Environ(), "CHECKER_PLATFORM="+n, "EVIDENCE_DIR="+dir, "REPO="+root)
			out, err := cmd.CombinedOutput()
			rs[i] = res{err == nil, strings.TrimSpace(string(out))}
		}(i, n)
	}
	wg.Wait()
	for i, n := range names {
		c.ob(rs[i].ok, "the property holds for the sources of every supported build", n, "-", rs[i].out)
		if rs[i].ok {
			c.note("%s: %s", n, rs[i].out)
		}
	}
}

func (c *Ctx) finish(p *Property, outDir string, wall time.Duration) int {
	os.MkdirAll(outDir, 0o755)
	bad := 0
	rules := map[string][2]int{}
	var samples []Ob
	for _, o := range c.obs {
		r := rules[o.Rule]
		r[0]++
		if o.OK {
			r[1]++
			if len(samples) < 12 {
				samples = append(samples, o)
			}
		} else {
			bad++
		}
		rules[o.Rule] = r
	}
	type rc struct {
		Rule        string `json:"rule"`
		Obligations int    `json:"obligations"`
		Discharged  int    `json:"discharged"`
	}
	var rl []rc
	for k, v := range rules {
		rl = append(rl, rc{k, v[0], v[1]})
	}
	sort.Slice(rl, func(i, j int) bool { return rl[i].Rule < rl[j].Rule })
	var fns []string
	for f := range c.funcs {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	var failed []Ob
	for _, o := range c.obs {
		if !o.OK {
			failed = append(failed, o)
		}
	}
	nfiles := 0
	if c.pr != nil {
		nfiles = c.pr.NFiles
	}
	ev := map[string]any{
		"property": c.ID, "tier": c.Tier, "seed": 1, "level": "other", "wall_s": wall.Seconds(),
		"coverage": map[string]any{
			"explanation":           p.Rules,
			"obligations":           len(c.obs),
			"discharged":            len(c.obs) - bad,
			"rules":                 rl,
			"functions_analysed":    fns,
			"loops_summarised":      c.loops,
			"effects_inspected":     c.calls,
			"source_files_analysed": nfiles,
			"samples":               samples,
			"notes":                 c.notes,
			"undischarged":          failed,
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(outDir, c.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
	}
	rep := filepath.Join(outDir, c.ID+".report.txt")
	var w strings.Builder
	fmt.Fprintf(&w, "property %s: %d obligations, %d discharged\n\nrule: %s\n\n", c.ID, len(c.obs), len(c.obs)-bad, p.Rules)
	for _, o := range c.obs {
		s := "ok  "
		if !o.OK {
			s = "FAIL"
		}
		fmt.Fprintf(&w, "%s %s\n     %s (%s)\n", s, o.Rule, o.What, o.Pos)
		if o.Detail != "" {
			fmt.Fprintf(&w, "     %s\n", o.Detail)
		}
	}
	os.WriteFile(rep, []byte(w.String()), 0o644)
	fmt.Printf("%s: %d obligations, %d discharged, %d functions, %.1fs\n", c.ID, len(c.obs), len(c.obs)-bad, len(fns), wall.Seconds())
	if bad > 0 {
		for _, o := range failed {
			fmt.Printf("  not discharged: %s — %s (%s)\n    %s\n", o.Rule, o.What, o.Pos, clip(o.Detail, 700))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, rep)
		return 1
	}
	return 0
}

// ------------------------------------------------------------ spec comparison

type cmpOpt struct {
	opaque     []string // names kept opaque in both runs
	facts      func(r *Run) Facts
	allowPanic bool
	nowrites   bool
}

func opaqueSet(pr *Prog, names []string) func(*types.Func) bool {
	m := map[string]bool{}
	for _, n := range names {
		m[n] = true
	}
	return func(f *types.Func) bool {
		return m[f.Name()] || m[shortName(f)]
	}
}

func (c *Ctx) run(fn *types.Func, opaque []string, pre func(e *Engine, recv *Term, args []*Term) (*State, error)) *Run {
	return c.runWith(fn, opaque, pre, nil)
}

// note adds a line to the evidence.
func (c *Ctx) note(f string, a ...any) { c.notes = append(c.notes, fmt.Sprintf(f, a...)) }

func (c *Ctx) runWith(fn *types.Func, opaque []string, pre func(e *Engine, recv *Term, args []*Term) (*State, error), cfg func(e *Engine)) *Run {
	e := NewEngine(c.pr)
	if cfg != nil {
		cfg(e)
	}
	e.Opaque = opaqueSet(c.pr, opaque)
	var st *State
	if pre != nil {
		recv, args := e.symArgs(fn)
		st, _ = pre(e, recv, args)
	}
	r := e.RunFunc(fn, st)
	c.absorb(e)
	return r
}

// compare proves that fn and its specification return equal values and leave
// equal stores for all arguments.
func (c *Ctx) compare(fn, spec *types.Func, opt cmpOpt) {
	if fn == nil || spec == nil {
		return
	}
	what := fn.FullName()
	r, s := c.run(fn, opt.opaque, nil), c.run(spec, opt.opaque, nil)
	pos := c.fnPos(fn)
	if !c.ob(r.Err == "", "the analysis covers the code", what, pos, "not decided: "+r.Err) {
		return
	}
	if s.Err != "" {
		c.ob(false, "specification evaluates", spec.FullName(), "-", s.Err)
		return
	}
	// the specification may be a plain function taking the receiver first
	if r.Recv != nil && s.Recv == nil {
		c.ob(false, "specification has the same shape", spec.FullName(), "-", "receiver missing")
		return
	}
	var f Facts
	if opt.facts != nil {
		f = opt.facts(r)
	}
	c.sameVals(what, pos, f, r, s)
	c.sameHeap(what, pos, f, r, s)
	c.noPanics(what, r)
}

func (c *Ctx) sameVals(what, pos string, f Facts, r, s *Run) {
	sig := r.Fn.Type().(*types.Signature)
	if len(r.Vals) != len(s.Vals) {
		c.ob(false, "same results as specified", what, pos, "different number of results")
		return
	}
	for i := range r.Vals {
		q := &eqv{budget: 4000, ptr: deepPtr(r, s, sig.Results().At(i).Type())}
		ok := q.eq(f, Expand(r.E.contents(r.St, r.Vals[i])), Expand(s.E.contents(s.St, s.Vals[i])), 0)
		c.ob(ok, "result equals the specified value for every argument", fmt.Sprintf("%s result %d", what, i), pos, q.why)
	}
}

func deepPtr(r, s *Run, t types.Type) func(q *eqv, f Facts, a, b *Term, depth int) bool {
	return func(q *eqv, f Facts, a, b *Term, depth int) bool {
		if strings.HasPrefix(a.S, "mapalloc:") && strings.HasPrefix(b.S, "mapalloc:") {
			return q.eqMap(f, Expand(r.E.mapContents(r.St, a)), Expand(s.E.mapContents(s.St, b)), depth+1)
		}
		if !isAlloc(a) || !isAlloc(b) || ptrTypes[a] != ptrTypes[b] {
			return q.fail(a, b)
		}
		pre := fmt.Sprintf("f:%d.", a.id)
		keys := map[string]bool{}
		for k := range r.St.store {
			if strings.HasPrefix(k, pre) {
				keys[k[len(pre):]] = true
			}
		}
		pre2 := fmt.Sprintf("f:%d.", b.id)
		for k := range s.St.store {
			if strings.HasPrefix(k, pre2) {
				keys[k[len(pre2):]] = true
			}
		}
		for _, k := range sortedKeys(keys) {
			x, y := r.St.store[pre+k], s.St.store[pre2+k]
			if x == nil || y == nil {
				return q.fail(a, b)
			}
			if !q.eq(f, Expand(x), Expand(y), depth+1) {
				return false
			}
		}
		return true
	}
}

// eqMap compares two map values entry by entry.
func (q *eqv) eqMap(f Facts, a, b *Term, depth int) bool {
	if a == b {
		return true
	}
	k := Fresh("$key", SStr)
	srt := SInt
	for _, t := range []*Term{a, b} {
		if m := Find(t, func(x *Term) bool { return x.Op == OpApp && x.S == "mset" }); m != nil {
			srt = m.Args[2].Sort
		}
	}
	if !q.eq(f, MGet(a, k, srt), MGet(b, k, srt), depth+1) {
		return false
	}
	if srt != SInt {
		return q.eq(f, MOk(a, k), MOk(b, k), depth+1)
	}
	return true
}

func heapKey(k string) bool {
	return len(k) > 2 && k[1] == ':' && strings.ContainsRune("fmego", rune(k[0]))
}

// keyOwner: the term a heap key belongs to, nil for globals.
func keyOwner(k string) *Term {
	if k[0] == 'g' {
		return nil
	}
	var id int
	fmt.Sscanf(k[2:], "%d", &id)
	return allTerms[id]
}

func isFresh(t *Term) bool {
	return t != nil && (isAlloc(t) || (t.Op == OpApp && strings.HasPrefix(t.S, "mapalloc:")) || (t.Op == OpApp && isValueList(t)))
}

func (c *Ctx) sameHeap(what, pos string, f Facts, r, s *Run) {
	keys := map[string]bool{}
	for k := range r.St.store {
		keys[k] = heapKey(k)
	}
	for k := range s.St.store {
		keys[k] = heapKey(k)
	}
	n := 0
	for _, k := range sortedKeys(keys) {
		if !keys[k] || isFresh(keyOwner(k)) {
			continue
		}
		n++
		x, y := r.St.store[k], s.St.store[k]
		if x == nil {
			x = s.E.kdef[k]
		}
		if y == nil {
			y = r.E.kdef[k]
		}
		q := &eqv{budget: 4000, ptr: deepPtr(r, s, nil)}
		var ok bool
		if k[0] == 'm' {
			ok = q.eqMap(f, Expand(x), Expand(y), 0)
		} else {
			ok = q.eq(f, Expand(x), Expand(y), 0)
		}
		c.ob(ok, "memory reachable by the caller is left as specified", what+" "+heapName(k), pos, q.why)
	}
	if n == 0 {
		c.ob(true, "memory reachable by the caller is left as specified", what+" (writes none)", pos, "")
	}
}

func heapName(k string) string {
	o := keyOwner(k)
	if o == nil {
		return k[2:]
	}
	i := strings.Index(k, ".")
	if k[0] == 'f' && i > 0 {
		return tidy(o) + k[i:]
	}
	return tidy(o) + " contents"
}

func eachEffect(efs []*Effect, fn func(ef *Effect, in []*Effect)) {
	var walk func(efs []*Effect, in []*Effect)
	walk = func(efs []*Effect, in []*Effect) {
		for _, f := range efs {
			fn(f, in)
			walk(f.Body, append(append([]*Effect{}, in...), f))
		}
	}
	walk(efs, nil)
}

func (c *Ctx) noPanics(what string, r *Run) {
	n := 0
	eachEffect(r.E.effects, func(ef *Effect, in []*Effect) {
		if ef.Kind == "panic" {
			n++
			c.ob(!Feasible(ef.PC), "no reachable panic statement", what, r.E.pr.Pos(ef.Pos), "reachable panic")
		}
		if ef.Kind == "write" {
			c.ob(false, "the function writes no output", what, r.E.pr.Pos(ef.Pos), "unexpected write")
		}
	})
	if n == 0 {
		c.ob(true, "no reachable panic statement", what, c.fnPos(r.Fn), "")
	}
}
