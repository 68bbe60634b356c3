package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp/syntax"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C18"] = &Check{Rule: "every match of the object header pattern gets an entry at its place; for every scanned object loading either adds the missing entry or compares the header at the recorded offset and redirects the entry exactly when it is not the object's", Run: runC18}
}

// scanner finds the function that collects what a pattern finds in the file: results tells its
// result type.
func (p *Program) scanner(result string) *ssa.Function {
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && strings.Contains(commonName(c.Common()), "FindReader") {
				}
			}
		}
	}
	var out []*ssa.Function
	for _, f := range p.Funcs {
		if baselineAPI[calleeName(f)] || f.Parent() != nil || f.Signature.Results().Len() == 0 || typeStr(f.Signature.Results().At(0).Type()) != result {
			continue
		}
		hs := map[*ssa.Function]bool{}
		p.helpers(f, hs)
		hs[f] = true
		found := false
		for h := range hs {
			for _, b := range h.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok && strings.HasSuffix(commonName(c.Common()), "Regexp).FindReaderIndex") {
						found = true
					}
				}
			}
		}
		if found {
			out = append(out, f)
		}
	}
	return p.innermost(out)
}

// innermost is the only function of a list that does not use another one of it.
func (p *Program) innermost(fs []*ssa.Function) *ssa.Function {
	var out []*ssa.Function
	for _, f := range fs {
		hs := map[*ssa.Function]bool{}
		p.helpers(f, hs)
		uses := false
		for _, g := range fs {
			uses = uses || g != f && hs[g]
		}
		if !uses {
			out = append(out, f)
		}
	}
	if len(out) != 1 {
		return nil
	}
	return out[0]
}

// pattern gives the constant a regular expression was compiled from.
func (p *Program) pattern(t *Term) (string, bool) {
	if t == nil {
		return "", false
	}
	if t.hasOp("call:") && strings.HasSuffix(t.op, "MustCompile") && len(t.args) == 1 {
		return t.args[0].strVal()
	}
	c, _ := t.val.(*ssa.Call)
	if t.glob != nil {
		for _, f := range p.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok && s.Addr == ssa.Value(t.glob) {
						c, _ = s.Val.(*ssa.Call)
					}
				}
			}
		}
	}
	if c != nil && strings.HasSuffix(commonName(c.Common()), "MustCompile") {
		if k, ok := c.Call.Args[0].(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
			return constant.StringVal(k.Value), true
		}
	}
	return "", false
}

// scanPass follows a loop that looks for a pattern: each search starts where the previous
// match ended, every match is recorded with its place, and the loop ends when nothing is found.
type scanPass struct {
	p       *Program
	r       *Report
	e       *Engine
	rule    string
	name    string
	pattern string // what must be recognized
	upper   string // what may be recognized
	loops   map[*Loop]bool
	phis    map[string]*ssa.Phi
	found   int
	records int
	find    bool
	edge    func(st *State, ctx *Ctx, from, to *ssa.BasicBlock)
}

func (s *scanPass) ob(st *State, ok bool, pos, msg string) {
	if s.find {
		return
	}
	s.r.ob(ok)
	if !ok {
		s.r.fail(s.rule, s.name, pos, msg, st.Path())
	}
}

// index is position i of the match in the input.
func (s *scanPass) index(st *State, t *Term, i int64) bool {
	e := s.e
	if t == nil || st.pins["match"] == nil {
		return false
	}
	cell := e.in.Pure("iaddr", st.pins["match"], e.in.Int(i))
	el := st.cells[cell]
	if el == nil {
		return false
	}
	for k := 0; ; k++ {
		base := st.pins[fmt.Sprintf("base%d", k)]
		if base == nil {
			return false
		}
		d := e.in.linAdd(t, base, -1, types.Typ[types.Int64])
		if d == nil {
			return false
		}
		if d == el || d.hasOp("conv:") && d.args[0] == el {
			return true
		}
	}
}

// none: nothing was found.
func (s *scanPass) none(st *State) bool {
	e, m := s.e, st.pins["match"]
	if m == nil {
		return false
	}
	return e.Eval(st, e.Cmp(token.EQL, m, e.in.Nil())) == 1 || e.Eval(st, e.Cmp(token.LSS, e.Len(st, m, nil), e.in.Int(2))) == 1
}

func (s *scanPass) run(root *ssa.Function, setup func(e *Engine), after func(st *State, c *Call), upd func(st *State, in *ssa.MapUpdate, m, k, v *Term), ret func(st *State, pos string, res []*Term)) {
	p := s.p
	s.loops, s.phis = map[*Loop]bool{}, map[string]*ssa.Phi{}
	s.name = fnName(root)
	for pass := 0; pass < 2; pass++ {
		s.find = pass == 0
		s.found, s.records = 0, 0
		e := NewEngine(p)
		s.e = e
		e.KeepFacts, e.NoContent, e.NoLookahead = true, true, true
		base := e.Opaque
		e.Opaque = func(f *ssa.Function) bool { return base(f) && calleeName(f) != "NewXrefEntry" }
		if setup != nil {
			setup(e)
		}
		parser := func() *Term { return e.ParamTerm(0) }
		forget := func(st *State) {
			for k := range st.pins {
				if strings.HasPrefix(k, "base") {
					delete(st.pins, k)
				}
			}
			for _, k := range []string{"match", "header"} {
				delete(st.pins, k)
			}
			delete(st.flags, "recorded")
		}
		e.H.After = func(st *State, c *Call) {
			if c.Inlined {
				return
			}
			pos := p.InstrPos(c.In)
			onParser := false
			for _, a := range c.Args {
				onParser = onParser || peel(a) == parser()
			}
			switch {
			case c.Name == "Parser.Seek" && c.Args[0] == parser():
				delete(st.pins, "at")
				delete(st.pins, "res")
				for k := range st.flags {
					if strings.HasPrefix(k, "phi:") {
						delete(st.flags, k)
					}
				}
				if isZeroInt(c.Args[2]) {
					st.pins["at"], st.pins["res"] = c.Args[1], e.valOf(c.Result)
				}
			case strings.HasSuffix(c.Name, "Regexp).FindReaderIndex"):
				lc, l := p.loopAt(c.Ctx, c.In.Block())
				if l != nil && s.find {
					s.loops[l] = true
				}
				_ = lc
				if pat, ok := p.pattern(c.Args[0]); ok && !s.find {
					s.r.ob(true)
					if w := notCovered(s.pattern, pat, true); w != "" {
						s.ob(st, false, pos, "the pattern does not recognize "+w)
					}
					if w := notCovered(pat, s.upper, false); w != "" {
						s.ob(st, false, pos, "the pattern recognizes "+w)
					}
				} else {
					s.ob(st, ok, pos, "the pattern is not known")
				}
				forget(st)
				n := 0
				put := func(t *Term) {
					if t != nil {
						st.pins[fmt.Sprintf("base%d", n)] = t
						n++
					}
				}
				put(st.pins["at"])
				put(st.pins["res"])
				for k := range st.flags {
					if strings.HasPrefix(k, "phi:") {
						put(e.V(st, c.Ctx, s.phis[k]))
					}
				}
				s.ob(st, l != nil && n > 0 && peel(c.Args[1]) == parser(), pos, "the search does not start where the previous match ended")
				st.pins["match"] = c.Result
				s.found++
				delete(st.pins, "at")
				delete(st.pins, "res")
				for k := range st.flags {
					if strings.HasPrefix(k, "phi:") {
						delete(st.flags, k)
					}
				}
			case onParser && c.Name == "Parser.ReadObjectHeader":
				if s.index(st, st.pins["at"], 0) {
					st.pins["header"] = c.Result
				}
				delete(st.pins, "at")
				delete(st.pins, "res")
			case onParser && c.Name != "Parser.CurrentOffset":
				delete(st.pins, "at")
				delete(st.pins, "res")
			}
			if after != nil {
				after(st, c)
			}
		}
		e.H.MapUpd = func(st *State, ctx *Ctx, in *ssa.MapUpdate, m, k, v *Term) {
			if upd != nil {
				upd(st, in, m, k, v)
			}
		}
		e.H.Edge = func(st *State, ctx *Ctx, from, to *ssa.BasicBlock) {
			pos := p.InstrPos(from.Instrs[len(from.Instrs)-1])
			if s.edge != nil {
				s.edge(st, ctx, from, to)
			}
			for _, phi := range phis(to) {
				key := fmt.Sprintf("phi:%d", p.id(phi))
				if in := e.incoming(st, ctx, phi, from); in != nil && isIntType(phi.Type()) {
					if in == st.pins["at"] || in == st.pins["res"] {
						s.phis[key] = phi
						st.flags[key] = "1"
					}
				}
			}
			for _, l := range p.Loops(ctx.fn).Loops {
				if !s.loops[l] {
					continue
				}
				none := s.none(st)
				switch l.kind(from, to) {
				case edgeEnter:
					s.ob(st, st.pins["at"] != nil && isZeroInt(st.pins["at"]), pos, "the search does not start at the first byte")
				case edgeBack:
					s.ob(st, st.flags["recorded"] != "", pos, "a match is not recorded")
					s.ob(st, s.index(st, st.pins["at"], 1) || s.index(st, st.pins["at"], 0), pos, "the search does not go on where the match ended")
					if s.index(st, st.pins["at"], 0) {
						s.ob(st, false, pos, "the same match is found again")
					}
					forget(st)
					delete(st.pins, "at")
					delete(st.pins, "res")
				case edgeExit:
					s.ob(st, none, pos, "the search can be given up while there are matches left")
				}
			}
		}
		e.H.Ret = func(st *State, ctx *Ctx, in *ssa.Return, res []*Term) {
			s.ob(st, s.none(st), p.InstrPos(in), "the search can be given up while there are matches left")
			if ret != nil {
				ret(st, p.InstrPos(in), res)
			}
		}
		e.Run(root, nil)
		if !s.find {
			s.r.finish(e, s.rule)
		}
	}
	s.r.need("searches for "+s.rule, s.found, 1)
	s.r.need("matches recorded: "+s.rule, s.records, 1)
}

const wsOrComment = `([\t\n\f\r \x00]|%[^\r\n]*[\r\n])`
const wsOrAnyComment = `([\t\n\v\f\r \x00]|%[^\r\n]*)`

func scanObjects(p *Program, r *Report) {
	root := p.scanner(entryMap)
	if root == nil {
		r.fail("anchor", "findObjects", "-", "the function that looks for object headers was not found", nil)
		return
	}
	s := &scanPass{p: p, r: r, rule: "scan for objects", pattern: `[0-9]+` + wsOrComment + `+[0-9]+` + wsOrComment + `+obj`, upper: `[0-9]+` + wsOrAnyComment + `+[0-9]+` + wsOrAnyComment + `+obj`}
	s.run(root, nil, nil, func(st *State, in *ssa.MapUpdate, m, k, v *Term) {
		e := s.e
		if typeStr(in.Map.Type()) != entryMap {
			return
		}
		h := st.pins["header"]
		pos := p.InstrPos(in)
		s.ob(st, h != nil && k == e.valOf(h), pos, "a match is not recorded under the number in its header")
		off, gen, typ := e.cellOf(st, "XrefEntry.Offset", v), e.cellOf(st, "XrefEntry.Generation", v), e.cellOf(st, "XrefEntry.Type", v)
		s.ob(st, s.index(st, off, 0), pos, "a match is not recorded with its place")
		s.ob(st, h != nil && gen == e.ext(h, 1), pos, "a match is not recorded with its generation")
		s.ob(st, typ != nil && isInt(typ, 1), pos, "a match is not recorded as an object in use")
		st.flags["recorded"] = "1"
		st.pins["map"] = m
		s.records++
	}, func(st *State, pos string, res []*Term) {
		if m := st.pins["map"]; m != nil {
			s.ob(st, res[0] == m, pos, "what was found is not what is returned")
		}
	})
}

// loadOpaque makes the searches and the section loader opaque.
func (p *Program) loadOpaque(e *Engine, more ...*ssa.Function) (objects, places, loader *ssa.Function) {
	objects, places, loader = p.scanner(entryMap), p.scanner("[]int64"), p.xrefLoader()
	base := e.Opaque
	e.Opaque = func(f *ssa.Function) bool {
		for _, m := range more {
			if f == m {
				return true
			}
		}
		return base(f) || f == objects || f == places || f == loader
	}
	return
}

func runC18(p *Program, r *Report) {
	scanObjects(p, r)
	root := r.anchor(p, "Parser.Load")
	if root == nil {
		return
	}
	compared, redirected, added := 0, 0, 0
	var x *Each
	xref := func(e *Engine, st *State) *Term { return e.cellOf(st, "Parser.Xref", e.ParamTerm(0)) }
	state := func(e *Engine, st *State, el *Elem) (present int, en *Term) {
		m := xref(e, st)
		if m == nil {
			return -1, nil
		}
		if ok := st.cells[e.mapCell("mapok", m, el.Idx)]; ok != nil {
			present = e.Eval(st, ok)
		} else {
			present = -1
		}
		return present, st.cells[e.mapCell("mapel", m, el.Idx)]
	}
	// the header at the recorded offset is the object's
	right := func(e *Engine, st *State, el *Elem) (hok, same *Term) {
		h := st.pins["each.header"]
		if h == nil {
			return nil, nil
		}
		return e.ext(h, 2), e.Cmp(token.EQL, e.valOf(h), el.Idx)
	}
	var objects, loader *ssa.Function
	fail := func(st *State, pos, msg string) {
		if x.pass == 1 {
			r.ob(false)
			r.fail("repair", "Parser.Load", pos, msg, st.Path())
		}
	}
	x = &Each{Name: "repair", Root: root, Msg: "an object found by scanning can end up without an entry or with a wrong one",
		Setup: func(e *Engine) {
			e.KeepFacts, e.NoContent = true, true
			objects, _, loader = p.loadOpaque(e)
			e.H.Store = func(st *State, ctx *Ctx, in *ssa.Store, addr, val *Term) {
				if !addr.hasOp("faddr:XrefEntry.") || addr.is("faddr:XrefEntry.IsEncrypted") {
					return
				}
				pos := p.InstrPos(in)
				el := x.elem(e, st)
				if el == nil || rangeVal(e, el) == nil || !addr.is("faddr:XrefEntry.Offset") {
					fail(st, pos, "an entry is changed other than by redirecting it to the scanned position")
					return
				}
				present, en := state(e, st, el)
				hok, same := right(e, st, el)
				ok := present == 1 && en == addr.args[0] && val == e.cellOf(st, "XrefEntry.Offset", rangeVal(e, el))
				if !ok {
					fail(st, pos, "an entry is redirected to something else than the scanned position of its object")
					return
				}
				if hok == nil || !e.refuted(st, []Cond{{hok, true}, {same, true}}) {
					fail(st, pos, "an entry can be redirected although its object is at the recorded offset")
					return
				}
				r.ob(true)
				redirected++
				st.flags["each.redirected"] = "1"
			}
		},
		Pre:  func(e *Engine) []Cond { return nil },
		Coll: func(e *Engine, st *State) *Term { return st.pins["objects"] },
		After: func(e *Engine, st *State, c *Call, el *Elem) {
			if c.Inlined {
				return
			}
			parser := func() *Term { return e.ParamTerm(0) }
			switch {
			case c.Fn == objects:
				st.pins["objects"] = c.Result
			case c.Fn == loader:
				if st.flags["repaired"] != "" {
					fail(st, p.InstrPos(c.In), "a section can be loaded after the entries have been repaired")
				}
			case c.Name == "builtin delete" && c.Args[0] == xref(e, st):
				fail(st, p.InstrPos(c.In), "an entry is removed")
			case len(c.Args) > 0 && c.Args[0] == parser() && c.Name == "Parser.Seek":
				delete(st.flags, "each.at")
				if el != nil && isZeroInt(c.Args[2]) && st.flags["each.redirected"] == "" {
					if _, en := state(e, st, el); en != nil && c.Args[1] == e.cellOf(st, "XrefEntry.Offset", en) {
						st.flags["each.at"] = "1"
					}
				}
			case len(c.Args) > 0 && c.Args[0] == parser() && c.Name == "Parser.ReadObjectHeader":
				if el != nil && st.flags["each.at"] != "" {
					st.pins["each.header"] = c.Result
					compared++
				}
				delete(st.flags, "each.at")
			case len(c.Args) > 0 && peel(c.Args[0]) == parser() && c.Name != "Parser.CurrentOffset":
				delete(st.flags, "each.at")
			}
			if el != nil {
				st.flags["repaired"] = "1"
			}
		},
		Upd: func(e *Engine, st *State, m, k, v *Term, el *Elem) bool {
			if m != xref(e, st) {
				return false
			}
			st.flags["repaired"] = "1"
			present, _ := state(e, st, el)
			if present == 0 && k == el.Idx && v == rangeVal(e, el) && v != nil {
				added++
				return true
			}
			fail(st, "-", "an entry that exists is replaced, or a missing one is not replaced by what was scanned")
			return false
		},
		// what must not be the case at the end of an iteration
		Conds: func(e *Engine, st *State, el *Elem) []Cond {
			if el.Idx == nil {
				return nil
			}
			ok := false
			present, _ := state(e, st, el)
			if present == 1 {
				hok, same := right(e, st, el)
				ok = st.flags["each.redirected"] != "" || hok != nil && e.Eval(st, hok) == 1 && e.Eval(st, same) == 1
			}
			return []Cond{{e.in.Bool(!ok), true}}
		},
	}
	x.run(p, r)
	r.need("entries compared with the file", compared, 1)
	r.need("entries redirected", redirected, 1)
	r.need("missing entries added", added, 1)
}

// rangeVal is the value that belongs to the key of an element of a map.
func rangeVal(e *Engine, el *Elem) *Term {
	if el.X == nil && el.Idx != nil && el.Idx.is("x:1") && el.Idx.args[0].kind == 'n' {
		return e.in.Pure("x:2", el.Idx.args[0])
	}
	return el.X
}

// ------------------------------------------------------------------ C17

func init() {
	checks["C17"] = &Check{Rule: "sections found by scanning are sorted and loaded in file order, the one named by startxref last; each section loads what its Prev entry names before its own entries and trailer keys, all of which then replace what is there", Run: runC17}
}

// listTrack follows the list of places of sections through appends, joins and variables.
type listTrack struct {
	p    *Program
	phis map[string]phiAt
}

type phiAt struct {
	phi *ssa.Phi
	ctx *Ctx
}

func (l *listTrack) is(e *Engine, st *State, t *Term) bool {
	if t == nil {
		return false
	}
	if t == st.pins["list"] {
		return true
	}
	c := st.pins["listcell"]
	return c != nil && st.cells[c] == t
}

func (l *listTrack) cur(e *Engine, st *State) *Term {
	if c := st.pins["listcell"]; c != nil && st.cells[c] != nil {
		return st.cells[c]
	}
	return st.pins["list"]
}

// instr must be called from the engine's Instr hook.
func (l *listTrack) instr(e *Engine, st *State, ctx *Ctx, in ssa.Instruction) {
	if _, ok := in.(*ssa.Phi); ok {
		return
	}
	for k := range st.flags {
		if strings.HasPrefix(k, "list:") {
			if x := l.phis[k]; x.ctx == ctx && x.phi.Block() == in.Block() {
				st.pins["list"] = e.V(st, ctx, x.phi)
			}
			delete(st.flags, k)
		}
	}
}

func (l *listTrack) set(st *State, t *Term) {
	delete(st.pins, "listcell")
	delete(st.pins, "list")
	if t != nil {
		st.pins["list"] = t
	}
}

func (l *listTrack) store(e *Engine, st *State, addr, val *Term) {
	switch {
	case l.is(e, st, val):
		st.pins["listcell"] = addr
	case addr == st.pins["listcell"]:
		delete(st.pins, "listcell")
	}
}

func (l *listTrack) edge(e *Engine, st *State, ctx *Ctx, from, to *ssa.BasicBlock) {
	var add []string
	carried := false
	for _, phi := range phis(to) {
		key := fmt.Sprintf("list:%d/%d", ctx.id, l.p.id(phi))
		if in := e.incoming(st, ctx, phi, from); in != nil && l.is(e, st, in) {
			l.phis[key] = phiAt{phi, ctx}
			add = append(add, key)
			carried = true
		}
	}
	if l.p.Loops(ctx.fn).ByHeader[to] != nil && (carried || st.pins["listcell"] != nil) {
		delete(st.pins, "list")
	}
	for _, k := range add {
		st.flags[k] = "1"
	}
}

func scanPlaces(p *Program, r *Report) {
	root := p.scanner("[]int64")
	if root == nil {
		r.fail("anchor", "findXrefOffsets", "-", "the function that looks for tables was not found", nil)
		return
	}
	l := &listTrack{p: p, phis: map[string]phiAt{}}
	s := &scanPass{p: p, r: r, rule: "scan for tables", pattern: `xref`, upper: `xref`}
	s.edge = func(st *State, ctx *Ctx, from, to *ssa.BasicBlock) { l.edge(s.e, st, ctx, from, to) }
	s.run(root, func(e *Engine) {
		e.H.Store = func(st *State, ctx *Ctx, in *ssa.Store, addr, val *Term) { l.store(e, st, addr, val) }
		e.H.Instr = func(st *State, ctx *Ctx, in ssa.Instruction) { l.instr(e, st, ctx, in) }
	}, func(st *State, c *Call) {
		if c.Name != "builtin append" || typeStr(c.Com.Args[0].Type()) != "[]int64" {
			return
		}
		e := s.e
		el := e.Varargs(st, c.Args[1])
		first := !l.is(e, st, c.Args[0]) && len(el) == 1 && e.lenIsZero(st, c.Args[0]) && l.cur(e, st) == nil
		if !first && !l.is(e, st, c.Args[0]) {
			return
		}
		s.ob(st, len(el) == 1 && s.index(st, el[0], 0), p.InstrPos(c.In), "a match is not recorded with its place")
		st.flags["recorded"] = "1"
		l.set(st, c.Result)
		s.records++
	}, nil, func(st *State, pos string, res []*Term) {
		s.ob(st, l.cur(s.e, st) == nil && s.e.lenIsZero(st, res[0]) || l.is(s.e, st, res[0]), pos, "what was found is not what is returned")
	})
}

func (e *Engine) lenIsZero(st *State, t *Term) bool {
	return t.isNil() || e.Eval(st, e.Cmp(token.EQL, e.Len(st, t, nil), e.in.Int(0))) == 1
}

func runC17(p *Program, r *Report) {
	loader := p.xrefLoader()
	if loader == nil {
		r.fail("anchor", "loadXref", "-", "the function that loads a cross-reference section was not found", nil)
		return
	}
	x := newXrefPass(p, r, loader, "C17")
	r.need("previous sections", x.counts["prev"], 1)
	mergeRules(p, r, loader, x)
	scanPlaces(p, r)
	startRule(p, r)
	loadOrder(p, r, loader)
}

// startFunc finds the function that gives the place named by startxref.
func (p *Program) startFunc() *ssa.Function {
	var out []*ssa.Function
	for _, f := range p.Funcs {
		res := f.Signature.Results()
		if baselineAPI[calleeName(f)] || f.Parent() != nil || res.Len() != 2 || typeStr(res.At(0).Type()) != "int64" || typeStr(res.At(1).Type()) != "bool" {
			continue
		}
		hs := map[*ssa.Function]bool{}
		p.helpers(f, hs)
		found := false
		for h := range hs {
			for _, b := range h.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok && strings.Contains(commonName(c.Common()), "Regexp).Find") {
						found = true
					}
				}
			}
		}
		if found {
			out = append(out, f)
		}
	}
	return p.innermost(out)
}

// startRule: the last startxref in the tail of the file counts.
func startRule(p *Program, r *Report) {
	root := p.startFunc()
	if root == nil {
		r.sample("startxref: no function searching for it with a pattern was found: not judged")
		return
	}
	name := fnName(root)
	e := NewEngine(p)
	e.KeepFacts, e.NoLookahead = true, true
	found, given := 0, 0
	ob := func(st *State, ok bool, pos, msg string) {
		r.ob(ok)
		if !ok {
			r.fail("startxref", name, pos, msg, st.Path())
		}
	}
	parser := func() *Term { return e.ParamTerm(0) }
	e.H.After = func(st *State, c *Call) {
		if c.Inlined {
			return
		}
		pos := p.InstrPos(c.In)
		switch {
		case c.Name == "Parser.Seek" && c.Args[0] == parser():
			delete(st.pins, "at")
			if w, ok := c.Args[2].intVal(); ok && w == 2 && isZeroInt(c.Args[1]) {
				st.pins["end"] = e.valOf(c.Result)
			} else if ok && w == 0 {
				st.pins["at"] = c.Args[1]
			}
		case (c.Name == "io.ReadFull" || c.Name == "io.ReadAtLeast") && peel(c.Args[0]) == parser():
			at, end := st.pins["at"], st.pins["end"]
			ok := false
			if at != nil && end != nil {
				rest := e.in.linAdd(end, e.Len(st, c.Args[1], nil), -1, types.Typ[types.Int64])
				ok = at == rest || isZeroInt(at) && e.Eval(st, e.Cmp(token.LSS, rest, e.in.Int(0))) == 1
			}
			ob(st, ok, pos, "what is searched does not reach to the end of the file")
			st.pins["buffer"] = c.Args[1]
		case strings.Contains(c.Name, "Regexp).Find"):
			found++
			pat, ok := p.pattern(c.Args[0])
			if !ok {
				ob(st, false, pos, "the pattern is not known")
				return
			}
			const ws = `[\t\n\f\r ]`
			w := notCovered(`startxref`+ws+`*[0-9]+`+ws+`*%%EOF`, pat, false)
			ob(st, w == "", pos, "the pattern does not recognize "+w)
			w = notCovered(pat, `startxref[\t\n\v\f\r \x00]*[0-9]+[\t\n\v\f\r \x00]*%%EOF`, false)
			ob(st, w == "", pos, "the pattern recognizes "+w)
			g := groupOf(pat, 1)
			ob(st, g != "" && notCovered(g, `[0-9]+`, false) == "" && notCovered(`[0-9]+`, g, false) == "", pos, "the first group of the pattern is not the number")
			all := strings.HasSuffix(c.Name, "FindAllSubmatch")
			ob(st, all, pos, "the last startxref is not the one looked for")
			ob(st, st.pins["buffer"] != nil && c.Args[1] == st.pins["buffer"], pos, "the tail of the file is not what is searched")
			if all {
				n, ok := c.Args[2].intVal()
				ob(st, ok && n < 0, pos, "the search is limited to the first matches")
			}
			st.pins["matches"] = c.Result
		case c.Name == "strconv.ParseInt":
			m := st.pins["matches"]
			ok := false
			if m != nil {
				last := st.cells[e.in.Pure("iaddr", m, e.in.linAdd(e.Len(st, m, nil), e.in.Int(1), -1, types.Typ[types.Int]))]
				if last != nil {
					g := st.cells[e.in.Pure("iaddr", last, e.in.Int(1))]
					ok = g != nil && peel(c.Args[0]) == peel(g)
				}
			}
			ob(st, ok, pos, "the number is not that of the last startxref")
			ob(st, isInt(c.Args[1], 10), pos, "the number is not read as a decimal number")
			st.pins["number"] = c.Result
		}
	}
	e.H.Ret = func(st *State, ctx *Ctx, in *ssa.Return, res []*Term) {
		pos := p.InstrPos(in)
		num, m := st.pins["number"], st.pins["matches"]
		given++
		switch e.Eval(st, res[1]) {
		case 1:
			ok := num != nil && res[0] == e.valOf(num) && e.Eval(st, e.Cmp(token.EQL, e.ext(num, 1), e.in.Nil())) == 1
			ob(st, ok, pos, "a place is given that is not the number read")
		case 0:
			ok := m != nil && (e.Eval(st, e.Cmp(token.EQL, m, e.in.Nil())) == 1 || e.lenIsZero(st, m)) || num != nil && e.Eval(st, e.Cmp(token.EQL, e.ext(num, 1), e.in.Nil())) == 0
			ob(st, ok, pos, "the place named by startxref can be ignored")
		default:
			ok := num != nil && res[0] == e.valOf(num) && res[1] == e.Cmp(token.EQL, e.ext(num, 1), e.in.Nil())
			ob(st, ok, pos, "a place is given that is not the number read")
		}
	}
	e.Run(root, nil)
	r.finish(e, "startxref")
	r.need("searches for startxref", found, 1)
	r.need("results of the search for startxref", given, 2)
}

// loadOrder: the places found are sorted and loaded in order, the one named by startxref last.
func loadOrder(p *Program, r *Report, loader *ssa.Function) {
	root := r.anchor(p, "Parser.Load")
	if root == nil {
		return
	}
	start := p.startFunc()
	offI, mapI := -1, -1
	for i, q := range loader.Params {
		if b, ok := q.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Int64 {
			offI = i
		}
		if _, ok := q.Type().Underlying().(*types.Map); ok {
			mapI = i
		}
	}
	if offI < 0 || mapI < 0 {
		return
	}
	sorts, starts := 0, 0
	build := func(name string) (*Each, *listTrack) {
		l := &listTrack{p: p, phis: map[string]phiAt{}}
		x := &Each{Name: name, Root: root}
		var objects, places *ssa.Function
		ob := func(st *State, ok bool, pos, msg string) {
			if x.pass == 0 {
				return
			}
			r.ob(ok)
			if !ok {
				r.fail("order", "Parser.Load", pos, msg, st.Path())
			}
		}
		isStart := func(e *Engine, st *State, t *Term) bool {
			s := st.pins["start"]
			return s != nil && t == e.valOf(s) && e.Eval(st, e.okOf(s)) == 1
		}
		fresh := func(st *State, t *Term) bool {
			_, ok := t.val.(*ssa.MakeMap)
			return ok && t.kind == 'n' && st.zero[t]
		}
		x.Setup = func(e *Engine) {
			e.KeepFacts, e.NoContent = true, true
			objects, places, _ = p.loadOpaque(e, start)
			e.H.Store = func(st *State, ctx *Ctx, in *ssa.Store, addr, val *Term) { l.store(e, st, addr, val) }
		}
		x.Pre = func(e *Engine) []Cond { return nil }
		x.Instr = func(e *Engine, st *State, ctx *Ctx, in ssa.Instruction) { l.instr(e, st, ctx, in) }
		x.Edge = func(e *Engine, st *State, ctx *Ctx, from, to *ssa.BasicBlock) { l.edge(e, st, ctx, from, to) }
		x.Call = func(e *Engine, st *State, c *Call) {
			if c.Fn == loader {
				ob(st, fresh(st, c.Args[mapI]), p.InstrPos(c.In), "sections loaded in one chain are taken for loaded in another")
			}
		}
		x.After = func(e *Engine, st *State, c *Call, el *Elem) {
			if c.Inlined {
				return
			}
			pos := p.InstrPos(c.In)
			switch {
			case c.Fn == objects:
				st.pins["objects"] = c.Result
			case c.Fn == places:
				l.set(st, c.Result)
			case start != nil && c.Fn == start:
				st.pins["start"] = c.Result
			case c.Fn == loader:
				if name == "sections" && el != nil && c.Args[offI] == el.X {
					ob(st, st.flags["direct"] == "", pos, "a section is loaded after the one named by startxref")
					return
				}
				if isStart(e, st, c.Args[offI]) {
					st.flags["direct"], st.flags["started"] = "1", "1"
				} else if name == "sections" {
					ob(st, false, pos, "a section is loaded that is not the next one")
				}
			case c.Name == "builtin append" && l.is(e, st, c.Args[0]):
				els := e.Varargs(st, c.Args[1])
				if st.flags["sorted"] != "" {
					ok := len(els) == 1 && isStart(e, st, els[0])
					ob(st, ok && st.flags["loading"] == "", pos, "a place is added after the places have been sorted that is not the one named by startxref")
					st.flags["started"] = "1"
					starts++
				}
				l.set(st, c.Result)
			case sortCalls[c.Name] && len(c.Args) > 0 && l.is(e, st, peel(c.Args[0])):
				ok := st.flags["started"] == "" && st.flags["loading"] == ""
				ob(st, ok, pos, "the place named by startxref does not stay the last one")
				ob(st, ascending(p, c), pos, "the places are not sorted in file order")
				st.flags["sorted"] = "1"
				sorts++
			}
		}
		return x, l
	}
	x, l := build("sections")
	x.Msg = "a section found in the file may not be loaded"
	x.Coll = func(e *Engine, st *State) *Term {
		if st.flags["sorted"] == "" {
			return nil
		}
		return l.cur(e, st)
	}
	x.Conds = func(e *Engine, st *State, el *Elem) []Cond { return nil }
	x.Done = func(e *Engine, st *State, c *Call, el *Elem) bool {
		if c.Fn == loader && c.Args[offI] == el.X {
			st.flags["loading"] = "1"
			return true
		}
		return false
	}
	x.Returns = func(e *Engine, st *State, pos string, res []*Term) {
		if start == nil {
			return
		}
		s := st.pins["start"]
		ok := s != nil && (st.flags["started"] != "" || e.Eval(st, e.okOf(s)) == 0)
		r.ob(ok)
		if !ok {
			r.fail("order", "Parser.Load", pos, "the section named by startxref may not be loaded last", st.Path())
		}
	}
	x.run(p, r)
	r.need("sorts of the places", sorts, 1)

	y, k := build("streams")
	y.Msg = "a cross-reference stream found by scanning may not be loaded"
	y.Coll = func(e *Engine, st *State) *Term { return st.pins["objects"] }
	y.Conds = func(e *Engine, st *State, el *Elem) []Cond {
		o := rangeVal(e, el)
		if o == nil {
			return nil
		}
		if xs := e.cellOf(st, "XrefEntry.IsXrefStream", o); xs != nil {
			return []Cond{{xs, true}}
		}
		return nil
	}
	y.Done = func(e *Engine, st *State, c *Call, el *Elem) bool {
		o := rangeVal(e, el)
		if c.Name != "builtin append" || o == nil || !k.is(e, st, c.Args[0]) || st.flags["sorted"] != "" {
			return false
		}
		off := e.cellOf(st, "XrefEntry.Offset", o)
		for _, v := range e.Varargs(st, c.Args[1]) {
			if v != nil && v == off {
				return true
			}
		}
		return false
	}
	y.run(p, r)
}

var sortCalls = map[string]bool{"sort.Slice": true, "sort.SliceStable": true, "slices.Sort": true, "slices.SortFunc": true, "slices.SortStableFunc": true}

// ascending: the comparison of a sort says less for a smaller number.
func ascending(p *Program, c *Call) bool {
	if c.Name == "slices.Sort" {
		return true
	}
	if len(c.Args) < 2 {
		return false
	}
	fn := peel(c.Args[1]).fn
	if fn == nil {
		return false
	}
	if calleeName(fn) == "cmp.Compare" {
		return strings.HasPrefix(c.Name, "slices.")
	}
	if !p.InRepo(fn) || len(fn.Params) != 2 {
		return false
	}
	e := NewEngine(p)
	e.KeepFacts = true
	good, n := true, 0
	e.H.Ret = func(st *State, ctx *Ctx, in *ssa.Return, res []*Term) {
		n++
		a, b := e.ParamTerm(0), e.ParamTerm(1)
		if strings.HasPrefix(c.Name, "slices.") {
			k, ok := res[0].intVal()
			switch {
			case ok && k < 0:
				good = good && e.Eval(st, e.Cmp(token.LSS, a, b)) == 1
			case ok && k > 0:
				good = good && e.Eval(st, e.Cmp(token.LSS, b, a)) == 1
			case ok:
				good = good && e.Eval(st, e.Cmp(token.LSS, a, b)) == 0 && e.Eval(st, e.Cmp(token.LSS, b, a)) == 0
			default:
				good = good && strings.HasPrefix(res[0].op, "call:cmp.Compare") && res[0].args[0] == a && res[0].args[1] == b
			}
			return
		}
		ok := false
		for k, x := range st.cells {
			if !k.is("iaddr") || k.args[1] != a {
				continue
			}
			y := st.cells[e.in.Pure("iaddr", k.args[0], b)]
			if y == nil {
				continue
			}
			less := e.Cmp(token.LSS, x, y)
			if res[0] == less || res[0] == e.Cmp(token.LEQ, x, y) || isTrue(res[0]) && e.Eval(st, less) == 1 || isFalse(res[0]) && e.Eval(st, e.Cmp(token.LSS, y, x)) == 1 {
				ok = true
			}
		}
		good = good && ok
	}
	e.Run(fn, nil)
	return good && n > 0
}

// groupOf gives the pattern of a group of a pattern.
func groupOf(pat string, n int) string {
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return ""
	}
	var find func(re *syntax.Regexp) string
	find = func(re *syntax.Regexp) string {
		if re.Op == syntax.OpCapture && re.Cap == n {
			return re.Sub[0].String()
		}
		for _, s := range re.Sub {
			if g := find(s); g != "" {
				return g
			}
		}
		return ""
	}
	return find(re)
}

// mergeRules: every trailer key and every entry of a section replaces what is there.
func mergeRules(p *Program, r *Report, loader *ssa.Function, x *xrefPass) {
	setup := func(e *Engine) {
		e.KeepFacts, e.NoContent, e.PureGetters = true, true, true
		base := e.Opaque
		e.Opaque = func(f *ssa.Function) bool { return base(f) && calleeName(f) != "NewXrefEntry" }
	}
	parser := func(e *Engine) *Term { return e.ParamTerm(0) }
	into := func(field string) (func(e *Engine, st *State, m, k, v *Term, el *Elem) bool, func(e *Engine, st *State, dst *Term) bool) {
		return func(e *Engine, st *State, m, k, v *Term, el *Elem) bool {
				if field == "Parser.Xref" {
				}
				return m == e.cellOf(st, field, parser(e)) && k == el.Idx && v == rangeVal(e, el)
			}, func(e *Engine, st *State, dst *Term) bool {
				return dst == e.cellOf(st, field, parser(e))
			}
	}
	none := func(name string) func(e *Engine, st *State, in *ssa.Return, res []*Term) bool {
		return func(e *Engine, st *State, in *ssa.Return, res []*Term) bool { return st.pins[name] == nil }
	}
	{
		m := &Each{Name: "trailer", Root: loader, Setup: setup, Msg: "a key of the trailer of a section may not replace what older sections say",
			Pre:   func(e *Engine) []Cond { return nil },
			Conds: func(e *Engine, st *State, el *Elem) []Cond { return nil },
			Coll:  func(e *Engine, st *State) *Term { return st.pins["dict"] },
			Ret:   none("dict"),
		}
		m.Upd, m.Copies = into("Parser.trailer")
		m.After = func(e *Engine, st *State, c *Call, el *Elem) {
			if c.Inlined || len(c.Args) == 0 || c.Args[0] != parser(e) {
				return
			}
			switch {
			case c.Name == "Parser.ReadDictionary" && st.pins["object"] == nil:
				st.pins["dict"] = e.valOf(c.Result)
				if c.Result.typ != nil {
					if _, ok := c.Result.typ.(*types.Tuple); !ok {
						st.pins["dict"] = c.Result
					}
				}
			case c.Name == "Parser.GetObject":
				st.pins["object"] = c.Result
			}
		}
		m.Instr = func(e *Engine, st *State, ctx *Ctx, in ssa.Instruction) {
			ta, ok := in.(*ssa.TypeAssert)
			if !ok || st.pins["object"] == nil || st.pins["dict"] != nil {
				return
			}
			v := e.V(st, ctx, ta.X)
			if v != nil && v == e.cellOf(st, "IndirectObject.Value", st.pins["object"]) && typeStr(ta.AssertedType) == "Dictionary" {
				st.pins["dict"] = e.in.PureT(ta.AssertedType, "as:Dictionary", v)
				st.pins["is"] = e.in.PureT(types.Typ[types.Bool], "is:Dictionary", v)
			}
		}
		m.Ret = func(e *Engine, st *State, in *ssa.Return, res []*Term) bool {
			return st.pins["dict"] == nil || st.pins["is"] != nil && e.Eval(st, st.pins["is"]) == 0
		}
		m.run(p, r)
	}
	if x.counts["local"] > 0 {
		m := &Each{Name: "entries", Root: loader, Setup: setup, Msg: "an entry of a section may not replace what older sections say",
			Pre:   func(e *Engine) []Cond { return nil },
			Conds: func(e *Engine, st *State, el *Elem) []Cond { return nil },
			Coll:  func(e *Engine, st *State) *Term { return st.pins["local"] },
			Ret:   none("local"),
		}
		m.Upd, m.Copies = into("Parser.Xref")
		m.Instr = func(e *Engine, st *State, ctx *Ctx, in ssa.Instruction) {
			var vs []ssa.Value
			switch y := in.(type) {
			case *ssa.Range:
				vs = append(vs, y.X)
			case *ssa.Call:
				vs = y.Call.Args
			case *ssa.MapUpdate:
				vs = append(vs, y.Map)
			}
			for _, v := range vs {
				if _, ok := v.Type().Underlying().(*types.Map); !ok {
					continue
				}
				if t := e.V(st, ctx, v); t != nil && t.kind == 'n' {
					if y, ok := t.val.(ssa.Value); ok && x.locals[y] {
						st.pins["local"] = t
					}
				}
			}
		}
		m.run(p, r)
	}
}
