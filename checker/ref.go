package main

// Reference data: interval files under ref/, embedded.

import (
	"embed"
	"fmt"
	"sort"
	"strings"
)

//go:embed ref/*.txt
var refFS embed.FS

type refRun struct {
	lo, hi int64
	val    string
}

func refData(name string) []refRun {
	b, err := refFS.ReadFile("ref/" + name)
	if err != nil {
		panic(err)
	}
	var out []refRun
	for _, l := range strings.Split(string(b), "\n") {
		var r refRun
		if _, err := fmt.Sscanf(l, "%x %x %s", &r.lo, &r.hi, &r.val); err == nil {
			out = append(out, r)
		}
	}
	return out
}

func refAt(rs []refRun, r int64) string {
	i := sort.Search(len(rs), func(i int) bool { return rs[i].hi >= r })
	if i < len(rs) && rs[i].lo <= r {
		return rs[i].val
	}
	return ""
}

// refCuts: the code points at which the value changes.
func refCuts(rs []refRun, cuts map[int64]bool) {
	for _, r := range rs {
		cuts[r.lo] = true
		cuts[r.hi+1] = true
	}
}

// termCuts collects every value of the variable v at which a term over v can
// change, given that v is only compared with constants and constant tables;
// false if v is used in another way.
func termCuts(t, v *Term, cuts map[int64]bool) bool {
	ok := true
	tables := func(x *Term) {
		if l := constList(x); l != nil {
			for _, el := range l {
				Walk(el, func(y *Term) {
					if y.Op == OpInt {
						cuts[y.N] = true
						cuts[y.N+1] = true
					}
				})
			}
		}
	}
	seen := map[*Term]bool{}
	var rec func(x *Term)
	rec = func(x *Term) {
		if seen[x] || !ok {
			return
		}
		seen[x] = true
		if x.Op == OpApp && strings.HasPrefix(x.S, "gvar:") {
			tables(x)
			return
		}
		if x == v {
			ok = false
			return
		}
		if x.Op == OpGe0 || x.Op == OpEq {
			// v alone with coefficient 1 or -1 against things that do not contain it
			var c int64
			var ms []Mono
			if x.Args[0].Sort != SInt {
				for _, a := range x.Args {
					rec(a)
				}
				return
			}
			c, ms = monos(x.Args[0])
			sg := int64(0)
			rest := 0
			for _, m := range ms {
				if len(m.At) == 1 && m.At[0] == v {
					sg = m.C
					continue
				}
				rest++
				for _, a := range m.At {
					rec(a)
				}
			}
			if sg == 0 {
				return
			}
			if sg != 1 && sg != -1 {
				ok = false
				return
			}
			if rest == 0 {
				k := -c * sg // v == k
				cuts[k] = true
				cuts[k+1] = true
				cuts[k-1] = true
			}
			return
		}
		for _, a := range x.Args {
			rec(a)
		}
		for _, m := range x.Lin {
			for _, a := range m.At {
				rec(a)
			}
		}
	}
	rec(t)
	return ok
}

func sortedCuts(cuts map[int64]bool, lo, hi int64) []int64 {
	out := []int64{lo}
	for c := range cuts {
		if c > lo && c <= hi {
			out = append(out, c)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}
