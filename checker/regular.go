package main

import (
	"fmt"
	"regexp/syntax"
	"sort"
)

// notCovered decides on the automata of two patterns whether every string the first one matches
// as a whole is matched by the second one (a start of it, if prefix is set). The result is
// a string that is not ("" if there is none).
func notCovered(want, got string, prefix bool) string {
	compile := func(s string) *syntax.Prog {
		re, err := syntax.Parse(s, syntax.Perl)
		if err != nil {
			return nil
		}
		p, err := syntax.Compile(re.Simplify())
		if err != nil {
			return nil
		}
		return p
	}
	w, g := compile(want), compile(got)
	if w == nil || g == nil {
		return "anything"
	}
	var alphabet []rune
	for r := rune(0); r < 128; r++ {
		alphabet = append(alphabet, r)
	}
	alphabet = append(alphabet, 0x85, 0xA0, 0xE9, 0xFFFD)
	type node struct {
		w, g []uint32
		text string
		done bool // the second one has matched a start
	}
	start := node{w: closure(w, []uint32{uint32(w.Start)}), g: closure(g, []uint32{uint32(g.Start)})}
	seen := map[string]bool{}
	todo := []node{start}
	for len(todo) > 0 {
		n := todo[0]
		todo = todo[1:]
		acc := accepts(g, n.g)
		if prefix && acc {
			continue // whatever follows is covered
		}
		if accepts(w, n.w) && !acc {
			return fmt.Sprintf("%q", n.text)
		}
		if len(seen) > 20000 {
			return "something (too large to decide)"
		}
		for _, r := range alphabet {
			nw := advance(w, n.w, r)
			if len(nw) == 0 {
				continue
			}
			m := node{w: nw, g: advance(g, n.g, r), text: n.text + string(r)}
			k := fmt.Sprint(m.w, m.g)
			if !seen[k] {
				seen[k] = true
				todo = append(todo, m)
			}
		}
	}
	return ""
}

// closure follows the instructions that consume nothing. Assertions never hold here.
func closure(p *syntax.Prog, pcs []uint32) []uint32 {
	in := map[uint32]bool{}
	var out []uint32
	var add func(pc uint32)
	add = func(pc uint32) {
		if in[pc] {
			return
		}
		in[pc] = true
		switch i := p.Inst[pc]; i.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			add(i.Out)
			add(i.Arg)
		case syntax.InstCapture, syntax.InstNop:
			add(i.Out)
		case syntax.InstEmptyWidth, syntax.InstFail:
		default:
			out = append(out, pc)
		}
	}
	for _, pc := range pcs {
		add(pc)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func accepts(p *syntax.Prog, pcs []uint32) bool {
	for _, pc := range pcs {
		if p.Inst[pc].Op == syntax.InstMatch {
			return true
		}
	}
	return false
}

func advance(p *syntax.Prog, pcs []uint32, r rune) []uint32 {
	var next []uint32
	for _, pc := range pcs {
		i := &p.Inst[pc]
		switch i.Op {
		case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
			ok := false
			switch i.Op {
			case syntax.InstRuneAny:
				ok = true
			case syntax.InstRuneAnyNotNL:
				ok = r != '\n'
			default:
				ok = i.MatchRune(r)
			}
			if ok {
				next = append(next, i.Out)
			}
		}
	}
	return closure(p, next)
}
