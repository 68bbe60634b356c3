package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
)

// explain prints, for the most populated location, how its states differ (VERIF_DEBUG only).
func (e *Engine) explain() {
	if os.Getenv("VERIF_DEBUG") == "" {
		return
	}
	type lc struct {
		k locKey
		n int
	}
	var l []lc
	for k, m := range e.visited {
		l = append(l, lc{k, len(m)})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].n > l[j].n })
	for i, x := range l {
		if i >= 12 {
			break
		}
		c := e.ctxs[x.k.ctx]
		fmt.Fprintf(os.Stderr, "%6d states at %s ctx %d block %d idx %d\n", x.n, fnName(c.fn), x.k.ctx, x.k.b.Index, x.k.idx)
	}
	if len(l) == 0 {
		return
	}
	parts := map[string]int{}
	n := 0
	for s := range e.visited[l[0].k] {
		n++
		for _, p := range strings.Split(s, ";") {
			parts[p]++
		}
	}
	var ps []string
	for p, c := range parts {
		if c < n {
			ps = append(ps, p)
		}
	}
	sort.Slice(ps, func(i, j int) bool { return parts[ps[i]] > parts[ps[j]] })
	for i, p := range ps {
		if i > 40 && i < len(ps)-10 {
			continue
		}
		fmt.Fprintf(os.Stderr, "  %5d/%d %s\n", parts[p], n, e.pretty(p))
	}
}

func (e *Engine) pretty(s string) string {
	var out strings.Builder
	out.WriteString(s + "   ")
	num := ""
	flush := func() {
		if num != "" {
			i := 0
			fmt.Sscan(num, &i)
			if i < len(e.in.terms) {
				out.WriteString("{" + trunc(e.in.terms[i].String(), 150) + "} ")
			}
			num = ""
		}
	}
	for _, c := range s {
		if c >= '0' && c <= '9' {
			num += string(c)
		} else {
			flush()
		}
	}
	flush()
	return out.String()
}
