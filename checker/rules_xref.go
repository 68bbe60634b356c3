package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C32"] = &Check{Rule: "every entry put into the cross-reference data is built from the reads of its own iteration: table entries from offset, generation and keyword, stream entries from fields of the widths in W; entry k of a subsection is recorded under its start plus k; sections are read to their end", Run: runC32}
}

const entryMap = "map[int]*XrefEntry"

// xrefLoader is the function that loads a section and, through itself, what precedes it.
func (p *Program) xrefLoader() *ssa.Function {
	var all []*ssa.Function
	writes := func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if u, ok := in.(*ssa.MapUpdate); ok && typeStr(u.Map.Type()) == entryMap {
					return true
				}
			}
		}
		return false
	}
	reaches := func(f, g *ssa.Function) bool {
		seen := map[*ssa.Function]bool{}
		var walk func(h *ssa.Function) bool
		walk = func(h *ssa.Function) bool {
			for c := range p.calleesOf(h) {
				if c == g {
					return true
				}
				if !seen[c] && p.InRepo(c) && !baselineAPI[calleeName(c)] {
					seen[c] = true
					if walk(c) {
						return true
					}
				}
			}
			return false
		}
		return walk(f)
	}
	for _, f := range p.Funcs {
		if baselineAPI[calleeName(f)] || f.Parent() != nil || !reaches(f, f) {
			continue
		}
		hs := map[*ssa.Function]bool{}
		p.helpers(f, hs)
		w := false
		for h := range hs {
			w = w || writes(h)
		}
		if !w {
			continue
		}
		// entered from outside of the cycle
		for _, c := range p.callSites(f) {
			if g := c.Parent(); !reaches(f, g) && g != f {
				all = append(all, f)
				break
			}
		}
	}
	if len(all) != 1 {
		return nil
	}
	return all[0]
}

type xrefPass struct {
	p      *Program
	r      *Report
	e      *Engine
	root   *ssa.Function
	prop   string
	ents   map[*Loop]bool // loops over the entries of a subsection
	subs   map[*Loop]bool // loops over subsections
	counts map[string]int
	find   bool
	locals map[ssa.Value]bool // maps in which the entries of a section are collected
}

func (x *xrefPass) ob(st *State, ok bool, prop, construct, pos, msg string) {
	if x.find || prop != x.prop {
		return
	}
	x.r.ob(ok)
	if !ok {
		x.r.fail("section", construct, pos, msg, st.Path())
	}
}

func runC32(p *Program, r *Report) {
	root := p.xrefLoader()
	if root == nil {
		r.fail("anchor", "loadXref", "-", "the function that loads a cross-reference section was not found", nil)
		return
	}
	x := newXrefPass(p, r, root, "C32")
	for _, k := range []string{"table entries", "stream entries", "table", "stream", "defaults"} {
		r.need(k, x.counts[k], 1)
	}
	if f := p.Func("ReadInt64"); f != nil {
		readIntRule(p, r, f)
	} else {
		r.fail("anchor", "ReadInt64", "-", "not found", nil)
	}
	if f := p.Func("ReadInt"); f != nil {
		readIntWrapper(p, r, f)
	} else {
		r.fail("anchor", "ReadInt", "-", "not found", nil)
	}
}

// readIntWrapper: the reader of ints hands its arguments on and its results back.
func readIntWrapper(p *Program, r *Report, root *ssa.Function) {
	calls := false
	for c := range p.calleesOf(root) {
		calls = calls || calleeName(c) == "ReadInt64"
	}
	if !calls {
		readIntRule(p, r, root)
		return
	}
	e := NewEngine(p)
	e.H.After = func(st *State, c *Call) {
		if c.Name == "ReadInt64" && c.Args[0] == e.ParamTerm(0) && c.Args[1] == e.ParamTerm(1) && st.pins["v"] == nil {
			st.pins["v"] = c.Result
		}
	}
	e.H.Ret = func(st *State, ctx *Ctx, in *ssa.Return, res []*Term) {
		v := st.pins["v"]
		ok := v != nil && (peel(res[0]) == e.valOf(v) || e.Eval(st, e.okOf(v)) == 0) && (res[1] == e.okOf(v) || e.Eval(st, res[1]) >= 0 && e.Eval(st, res[1]) == e.Eval(st, e.okOf(v)))
		r.ob(ok)
		if !ok {
			r.fail("field", fnName(root), p.InstrPos(in), "what is returned is not the field read", st.Path())
		}
	}
	e.Run(root, nil)
	r.finish(e, "wrapper")
}

// newXrefPass runs the pass twice: to find the loops and to judge.
func newXrefPass(p *Program, r *Report, root *ssa.Function, prop string) *xrefPass {
	x := &xrefPass{p: p, r: newReport(prop), root: root, prop: prop, ents: map[*Loop]bool{}, subs: map[*Loop]bool{}, counts: map[string]int{}, find: true}
	x.run()
	x.find, x.r, x.counts = false, r, map[string]int{}
	x.run()
	return x
}

func (x *xrefPass) run() {
	p, root := x.p, x.root
	e := NewEngine(p)
	x.e = e
	e.KeepFacts, e.NoContent, e.NoLookahead, e.PureGetters = true, true, true, true
	base := e.Opaque
	e.Opaque = func(f *ssa.Function) bool { return base(f) && calleeName(f) != "NewXrefEntry" }
	name := fnName(root)
	intT := types.Typ[types.Int]
	offI, mapI := -1, -1
	for i, q := range root.Params {
		if b, ok := q.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Int64 {
			offI = i
		}
		if _, ok := q.Type().Underlying().(*types.Map); ok {
			mapI = i
		}
	}
	if offI < 0 || mapI < 0 {
		x.r.fail("anchor", name, p.Pos(root.Pos()), "the section loader does not take an offset and the sections already loaded", nil)
		return
	}
	parser := func() *Term { return e.ParamTerm(0) }
	add := func(a, b *Term, k int64) *Term { return e.in.linAdd(a, b, k, intT) }
	eval := func(st *State, t *Term) int {
		if t == nil {
			return -1
		}
		return e.Eval(st, t)
	}
	failed := func(st *State, pins ...string) bool { // some read or lookup gave nothing
		for _, k := range pins {
			if t := st.pins[k]; t != nil && eval(st, e.okOf(t)) == 0 {
				return true
			}
		}
		return false
	}
	isTable := func(st *State) bool { return st.flags["mode"] == "table" }
	isStream := func(st *State) bool { return st.pins["object"] != nil }
	dict := func(st *State) *Term { // the trailer dictionary
		if t := st.pins["trailer"]; t != nil {
			if _, ok := t.typ.(*types.Tuple); ok {
				return e.valOf(t)
			}
			return t
		}
		if v := st.pins["value"]; v != nil {
			return e.in.Pure("as:Dictionary", v)
		}
		return nil
	}
	isXref := func(st *State, m *Term) bool { return e.cellOf(st, "Parser.Xref", parser()) == m }
	widths := func(st *State) *Term {
		if dict(st) == nil {
			return e.in.Pure("none")
		}
		return e.valOf(e.get(dict(st), "GetArray", "W"))
	}
	width := func(st *State, k int64) *Term {
		return e.in.Pure("call:Array.GetInt", widths(st), e.in.Int(k))
	}
	start := func(st *State) *Term {
		if st.pins["s0"] == nil {
			return nil
		}
		return e.valOf(st.pins["s0"])
	}
	length := func(st *State) *Term {
		if st.pins["s1"] == nil {
			return nil
		}
		return e.valOf(st.pins["s1"])
	}
	// counts of finished iterations of a loop
	counts := func(st *State, ctx *Ctx, l *Loop) []*Term {
		var out []*Term
		for _, phi := range phis(l.Header) {
			iv := p.inductive(phi)
			if iv == nil || iv.step != 1 {
				continue
			}
			t := e.V(st, ctx, phi)
			if in := st.pins["in:"+fmt.Sprint(p.id(phi))]; in != nil {
				out = append(out, add(t, in, -1))
			}
		}
		return out
	}
	var at func(ctx *Ctx, b *ssa.BasicBlock) (*Ctx, *Loop)
	at = func(ctx *Ctx, b *ssa.BasicBlock) (*Ctx, *Loop) {
		lc, l := p.loopAt(ctx, b)
		if l != nil && x.ents[l] {
			return lc, l
		}
		return nil, nil
	}
	clearEntry := func(st *State) {
		for _, k := range []string{"e0", "e1", "e2", "last"} {
			delete(st.pins, k)
		}
		delete(st.flags, "upd")
	}
	clearSection := func(st *State) {
		clearEntry(st)
		delete(st.pins, "s0")
		delete(st.pins, "s1")
		delete(st.flags, "entered")
	}
	// the entry about to be read exists
	inRange := func(st *State, ctx *Ctx, l *Loop, pos string) {
		ok := false
		for _, c := range counts(st, ctx, l) {
			ok = ok || length(st) != nil && eval(st, e.Cmp(token.LSS, c, length(st))) == 1
		}
		x.ob(st, ok, "C32", "entries", pos, "more entries can be read than the subsection has")
	}
	indexOK := func(st *State, arr *Term) bool {
		d := dict(st)
		if d == nil {
			return false
		}
		g := e.get(d, "GetArray", "Index")
		switch eval(st, e.okOf(g)) {
		case 1:
			return arr == e.valOf(g)
		case 0:
			el := e.Varargs(st, arr)
			if len(el) != 2 || el[0] == nil || el[1] == nil {
				return false
			}
			z := peel(el[0])
			if n, ok := z.intVal(); !(ok && n == 0) && z.String() != "0" {
				return false
			}
			for _, m := range []string{"GetNumber", "GetObject"} {
				if peel(el[1]) == e.valOf(e.get(d, m, "Size")) {
					return true
				}
			}
		}
		return false
	}
	// the dictionary of the stream is what its value is asserted to be
	e.H.Instr = func(st *State, ctx *Ctx, in ssa.Instruction) {
		ta, ok := in.(*ssa.TypeAssert)
		if !ok || st.pins["object"] == nil || st.pins["value"] != nil {
			return
		}
		v := e.V(st, ctx, ta.X)
		if v != nil && v == e.cellOf(st, "IndirectObject.Value", st.pins["object"]) {
			st.pins["value"] = v
		}
	}
	e.H.After = func(st *State, c *Call) {
		if c.Inlined {
			return
		}
		pos := p.InstrPos(c.In)
		lc, l := at(c.Ctx, c.In.Block())
		onParser := len(c.Args) > 0 && c.Args[0] == parser()
		switch {
		case c.Fn == root:
			d := dict(st)
			g, ok := (*Term)(nil), d != nil
			if ok {
				g = e.get(d, "GetInt64", "Prev")
				ok = c.Args[offI] == e.valOf(g) && eval(st, e.okOf(g)) == 1
			}
			x.ob(st, ok, "C17", "previous section", pos, "the section loaded before this one is not the one named by its Prev entry")
			x.ob(st, c.Args[mapI] == e.ParamTerm(mapI) && st.flags["marked"] != "", "C17", "previous section", pos, "the section is not remembered as loaded before the previous one is loaded")
			x.ob(st, st.flags["merged"] == "", "C17", "previous section", pos, "the previous section is loaded over entries of this one")
			st.flags["prev"] = "1"
			x.counts["prev"]++
		case onParser && c.Name == "Parser.Seek":
			delete(st.flags, "at")
			if c.Args[1] == e.ParamTerm(offI) && isZeroInt(c.Args[2]) {
				st.flags["at"] = "1"
			}
		case onParser && (c.Name == "Parser.ReadInt" || c.Name == "Parser.ReadInt64" || c.Name == "Parser.ReadKeyword"):
			kw := c.Name == "Parser.ReadKeyword"
			if st.pins["kw"] == nil && kw && !isStream(st) {
				st.pins["kw"] = c.Result
				x.ob(st, st.flags["at"] != "", "C17", "section", pos, "the section is not read at its offset")
				x.ob(st, st.flags["marked"] != "", "C17", "section", pos, "a section can be loaded again from its own chain")
				delete(st.flags, "at")
				return
			}
			delete(st.flags, "at")
			if st.pins["object"] != nil || st.pins["header"] != nil {
				return
			}
			if l != nil {
				n := 0
				for st.pins[fmt.Sprintf("e%d", n)] != nil {
					n++
				}
				if n == 0 {
					inRange(st, lc, l, pos)
				}
				x.ob(st, n < 3 && kw == (n == 2), "C32", "entries", pos, "an entry of a table is not read as offset, generation and keyword")
				if n < 3 {
					st.pins[fmt.Sprintf("e%d", n)] = c.Result
				}
				delete(st.pins, "last")
				if !kw {
					st.pins["last"] = c.Result
				}
				return
			}
			if kw {
				// the trailer keyword
				st.flags["words"] += "k"
				return
			}
			isX := st.pins["kw"] != nil && eval(st, e.Cmp(token.EQL, st.pins["kw"], e.in.Str("xref"))) == 1
			x.ob(st, isX, "C32", "table", pos, "something that does not start with the keyword xref is read as a table")
			st.flags["mode"] = "table"
			x.counts["table"]++
			st.flags["words"] = ""
			switch {
			case st.pins["s0"] == nil:
				st.pins["s0"] = c.Result
			case st.pins["s1"] == nil:
				st.pins["s1"] = c.Result
			default:
				x.ob(st, false, "C32", "table", pos, "numbers are read between subsections")
			}
		case onParser && c.Name == "Parser.ReadObjectHeader":
			x.ob(st, st.flags["at"] != "", "C17", "section", pos, "the cross-reference stream is not read at its offset")
			delete(st.flags, "at")
			st.pins["header"] = c.Result
		case onParser && c.Name == "Parser.GetObject":
			st.pins["object"] = c.Result
			isX := st.pins["kw"] != nil && eval(st, e.Cmp(token.EQL, st.pins["kw"], e.in.Str("xref"))) == 0
			x.ob(st, isX, "C32", "stream", pos, "a table is read as a cross-reference stream")
			ok := st.pins["header"] != nil && c.Args[1] == e.valOf(st.pins["header"])
			x.ob(st, ok, "C32", "stream", pos, "the object read is not the one at the offset of the section")
			x.counts["stream"]++
		case onParser && c.Name == "Parser.ReadDictionary":
			delete(st.flags, "at")
			if isStream(st) {
				return
			}
			st.pins["trailer"] = c.Result
			st.pins["dictionary"] = c.Result
			ok := isTable(st) && failed(st, "s0", "s1") && st.flags["words"] == "k"
			x.ob(st, ok, "C32", "table", pos, "the trailer can be read before all subsections have been read")
			clearSection(st)
		case c.Name == "maps.Copy":
			if e.cellOf(st, "Parser.trailer", parser()) == c.Args[0] || isXref(st, c.Args[0]) {
				st.flags["merged"] = "1"
			}
		case c.Name == "bytes.NewReader" || c.Name == "bytes.NewBuffer":
			if !isStream(st) {
				return
			}
			o := e.cellOf(st, "IndirectObject.Stream", st.pins["object"])
			_, lp := p.loopAt(c.Ctx, c.In.Block())
			x.ob(st, o != nil && strip(c.Args[0]) == strip(o) && lp == nil && st.pins["reader"] == nil, "C32", "stream", pos, "the fields are not read from the data of the stream from its start on")
			st.pins["reader"] = c.Result
		case c.Name == "ReadInt" || c.Name == "ReadInt64":
			if !isStream(st) {
				return
			}
			role := -1
			for k := int64(0); k < 3; k++ {
				if dict(st) != nil && c.Args[1] == e.valOf(width(st, k)) {
					role = int(k)
				}
			}
			x.ob(st, role >= 0 && l != nil && peel(c.Args[0]) == st.pins["reader"], "C32", "fields", pos, "a field is not read with a width of W from the data of the stream")
			if role < 0 || l == nil {
				return
			}
			ok := st.pins[fmt.Sprintf("e%d", role)] == nil
			any := false
			for k := 0; k < 3; k++ {
				if st.pins[fmt.Sprintf("e%d", k)] != nil {
					any = true
				}
				if k < role && st.pins[fmt.Sprintf("e%d", k)] == nil && eval(st, e.Cmp(token.EQL, e.valOf(width(st, int64(k))), e.in.Int(0))) != 1 {
					ok = false
				}
				if k > role && st.pins[fmt.Sprintf("e%d", k)] != nil {
					ok = false
				}
			}
			if !any {
				inRange(st, lc, l, pos)
			}
			x.ob(st, ok, "C32", "fields", pos, "the fields of an entry are not read in the order type, offset, generation")
			st.pins[fmt.Sprintf("e%d", role)] = c.Result
			st.pins["last"] = c.Result
		case c.Name == "Array.GetInt" || c.Name == "Array.GetInt64":
			if !isStream(st) || dict(st) == nil || c.Args[0] == widths(st) || l != nil {
				return
			}
			// start and length of a subsection
			x.ob(st, indexOK(st, c.Args[0]), "C32", "subsections", pos, "the subsections are not those of Index, or 0 to Size without it")
			st.pins["index"] = c.Args[0]
			switch {
			case st.pins["s0"] == nil:
				st.pins["s0"], st.pins["si"] = c.Result, c.Args[1]
			case st.pins["s1"] == nil:
				x.ob(st, c.Args[1] == add(st.pins["si"], e.in.Int(1), 1), "C32", "subsections", pos, "the length of a subsection is not the number after its start")
				st.pins["s1"] = c.Result
			}
		}
	}
	e.H.MapUpd = func(st *State, ctx *Ctx, in *ssa.MapUpdate, m, k, v *Term) {
		pos := p.InstrPos(in)
		if m == e.ParamTerm(mapI) && k == e.ParamTerm(offI) {
			if ok := st.cells[e.mapCell("mapok", m, k)]; ok != nil && eval(st, ok) == 0 {
				st.flags["marked"] = "1"
			}
			return
		}
		t := typeStr(in.Map.Type())
		if t == "Dictionary" {
			st.flags["merged"] = "1"
			return
		}
		if t != entryMap {
			return
		}
		off, gen, typ := e.cellOf(st, "XrefEntry.Offset", v), e.cellOf(st, "XrefEntry.Generation", v), e.cellOf(st, "XrefEntry.Type", v)
		if v.kind != 'n' || off == nil || gen == nil || typ == nil {
			// taken over from another map
			x.ob(st, isXref(st, m), "C17", "merge", pos, "entries are merged into something else than the cross-reference data")
			st.flags["merged"] = "1"
			return
		}
		own := st.pins["header"] != nil && k == e.valOf(st.pins["header"])
		if !own && st.pins["object"] != nil {
			n := e.cellOf(st, "IndirectObject.Number", st.pins["object"])
			own = n != nil && k == n
		}
		lc, l := p.loopAt(ctx, in.Block())
		if own && (l == nil || !x.ents[l]) {
			x.ob(st, isInt(typ, 1), "C32", "stream", pos, "the cross-reference stream itself is not recorded as an object in use")
			return
		}
		if isXref(st, m) {
			st.flags["merged"] = "1"
			if dict(st) != nil && st.flags["prev"] == "" {
				x.ob(st, eval(st, e.okOf(e.get(dict(st), "GetInt64", "Prev"))) == 0, "C17", "order", pos, "entries are recorded before the previous section has been loaded")
			}
		} else {
			st.pins["local"] = m
			x.counts["local"]++
			if x.locals == nil {
				x.locals = map[ssa.Value]bool{}
			}
			if m.val != nil {
				if v, ok := m.val.(ssa.Value); ok {
					x.locals[v] = true
				}
			}
		}
		if l == nil {
			x.ob(st, false, "C32", "entries", pos, "an entry is recorded that is not part of a subsection")
			return
		}
		if x.find {
			x.ents[l] = true
			oc, ol := lc, l.Parent
			if ol == nil && oc.call != nil {
				oc, ol = p.loopAt(oc.parent, oc.call.Block())
			}
			if ol != nil {
				x.subs[ol] = true
			}
			return
		}
		if !x.ents[l] {
			return
		}
		ok := false
		for _, c := range counts(st, lc, l) {
			ok = ok || start(st) != nil && k == add(start(st), c, 1)
		}
		x.ob(st, ok, "C32", "number", pos, "an entry is not recorded under the start of its subsection plus its index")
		pin := func(k string) *Term {
			if st.pins[k] == nil {
				return nil
			}
			if _, ok := st.pins[k].typ.(*types.Tuple); ok || st.pins[k].typ == nil || k != "e2" || !isTable(st) {
				return e.valOf(st.pins[k])
			}
			return st.pins[k]
		}
		if isTable(st) {
			x.counts["table entries"]++
			x.ob(st, off == pin("e0") && pin("e0") != nil, "C32", "offset", pos, "an entry does not have its own offset")
			x.ob(st, gen == pin("e1") && pin("e1") != nil, "C32", "generation", pos, "an entry does not have its own generation")
			good := false
			if w := st.pins["e2"]; w != nil {
				switch eval(st, e.Cmp(token.EQL, w, e.in.Str("n"))) {
				case 1:
					good = isInt(typ, 1)
				case 0:
					good = isInt(typ, 0)
				}
			}
			x.ob(st, good, "C32", "type", pos, "an entry of a table is not in use exactly when it is marked n")
		} else {
			x.counts["stream entries"]++
			zero := func(k int64) int {
				return eval(st, e.Cmp(token.EQL, e.valOf(width(st, k)), e.in.Int(0)))
			}
			x.ob(st, pin("e1") != nil && off == pin("e1"), "C32", "offset", pos, "an entry does not have its own offset")
			x.ob(st, pin("e2") != nil && gen == pin("e2") || zero(2) == 1 && isZeroInt(gen), "C32", "generation", pos, "an entry does not have its own generation")
			good := false
			switch zero(0) {
			case 1:
				good = isInt(typ, 1)
				x.counts["defaults"]++
			case 0:
				good = pin("e0") != nil && typ == pin("e0")
			}
			x.ob(st, good, "C32", "type", pos, "an entry does not have its own type, or in use without a type field")
			x.ob(st, !failed(st, "e0", "e1", "e2"), "C32", "fields", pos, "an entry that could not be read is recorded")
		}
		st.flags["upd"] += "1"
	}
	e.H.Edge = func(st *State, ctx *Ctx, from, to *ssa.BasicBlock) {
		last := from.Instrs[len(from.Instrs)-1]
		pos := p.InstrPos(last)
		for _, l := range p.Loops(ctx.fn).Loops {
			k := l.kind(from, to)
			if k == edgeEnter {
				for _, phi := range phis(l.Header) {
					if isIntType(phi.Type()) {
						st.pins["in:"+fmt.Sprint(p.id(phi))] = e.incoming(st, ctx, phi, from)
					}
				}
			}
			if x.ents[l] {
				switch k {
				case edgeEnter:
					clearEntry(st)
					ok := st.pins["s0"] != nil && st.pins["s1"] != nil
					x.ob(st, ok && !failed(st, "s0", "s1"), "C32", "subsections", pos, "entries are read before the start and length of their subsection")
					st.flags["entered"] = "1"
				case edgeBack:
					x.ob(st, st.flags["upd"] == "1", "C32", "entries", pos, "an entry can be passed over, or recorded twice")
					clearEntry(st)
				case edgeExit:
					ok := failed(st, "last")
					if !ok && st.flags["upd"] == "" {
						for _, c := range counts(st, ctx, l) {
							ok = ok || length(st) != nil && eval(st, e.Cmp(token.LSS, c, length(st))) == 0
						}
					}
					x.ob(st, ok, "C32", "entries", pos, "a subsection can be left before all of its entries have been read")
					if failed(st, "last") {
						st.flags["broken"] = "1"
					}
					clearEntry(st)
				}
			}
			if x.subs[l] {
				switch k {
				case edgeEnter:
					clearSection(st)
					st.flags["sections"] = "1"
				case edgeBack:
					x.ob(st, st.flags["entered"] != "", "C32", "subsections", pos, "a subsection can be passed over")
					if isStream(st) {
						// every pair of Index
						ok := false
						for _, phi := range phis(l.Header) {
							if iv := p.inductive(phi); iv != nil && iv.step == 2 && iv.startConst != nil && *iv.startConst == 0 && st.pins["si"] == e.V(st, ctx, phi) {
								ok = true
							}
						}
						x.ob(st, ok, "C32", "subsections", pos, "the subsections are not taken from Index two numbers at a time")
					}
					clearSection(st)
					delete(st.pins, "si")
				case edgeExit:
					ok := failed(st, "s0", "s1") || st.flags["broken"] != ""
					if isStream(st) && !ok {
						for _, phi := range phis(l.Header) {
							arr := st.pins["index"]
							if iv := p.inductive(phi); iv != nil && iv.step == 2 {
								for _, v := range p.indexArrays(l) {
									a := e.reTerm(st, ctx, v)
									if indexOK(st, a) {
										arr = a
									}
								}
								if arr != nil {
									t := e.V(st, ctx, phi)
									ok = ok || eval(st, e.Cmp(token.LSS, t, add(e.Len(st, arr, nil), e.in.Int(1), -1))) == 0 || eval(st, e.Cmp(token.LSS, add(t, e.in.Int(1), 1), e.Len(st, arr, nil))) == 0
								}
							}
						}
					}
					x.ob(st, ok, "C32", "subsections", pos, "a section can be left before all of its subsections have been read")
				}
			}
		}
	}
	e.H.Ret = func(st *State, ctx *Ctx, in *ssa.Return, res []*Term) {
		pos := p.InstrPos(in)
		m, o := e.ParamTerm(mapI), e.ParamTerm(offI)
		if st.pins["kw"] == nil {
			ok := st.cells[e.mapCell("mapok", m, o)]
			x.ob(st, ok != nil && eval(st, ok) == 1, "C17", "section", pos, "a section that has not been loaded in this chain is passed over")
			return
		}
		isX := eval(st, e.Cmp(token.EQL, st.pins["kw"], e.in.Str("xref")))
		if isX == 1 {
			x.ob(st, st.flags["sections"] != "" && st.pins["trailer"] != nil, "C32", "table", pos, "a table is not read")
		} else if st.pins["header"] != nil && eval(st, e.okOf(st.pins["header"])) == 1 {
			x.ob(st, st.pins["object"] != nil, "C32", "stream", pos, "a cross-reference stream is not read")
		}
		d := dict(st)
		if d == nil {
			return
		}
		var conds []Cond
		if isStream(st) {
			conds = append(conds, Cond{e.in.PureT(types.Typ[types.Bool], "is:Dictionary", d.args[0]), true})
		}
		okPrev := e.okOf(e.get(d, "GetInt64", "Prev"))
		x.ob(st, st.flags["prev"] != "" || e.refuted(st, append(conds[:len(conds):len(conds)], Cond{okPrev, true})), "C17", "previous section", pos, "the section named by Prev may not be loaded")
		if isStream(st) && st.flags["sections"] == "" {
			idx, size := e.okOf(e.get(d, "GetArray", "Index")), e.okOf(e.get(d, "GetNumber", "Size"))
			conds = append(conds, Cond{e.okOf(e.get(d, "GetArray", "W")), true})
			for k := int64(0); k < 3; k++ {
				conds = append(conds, Cond{e.okOf(width(st, k)), true})
			}
			conds = append(conds, Cond{e.Cmp(token.LSS, e.in.Int(0), e.valOf(width(st, 1))), true})
			ok := e.refuted(st, append(conds[:len(conds):len(conds)], Cond{idx, true})) && e.refuted(st, append(conds[:len(conds):len(conds)], Cond{idx, false}, Cond{size, true}))
			x.ob(st, ok, "C32", "stream", pos, "the entries of a cross-reference stream can be passed over")
		}
	}
	e.Run(root, nil)
	if !x.find {
		x.r.finish(e, "section")
	}
}

// indexArrays lists the arrays whose length the loop's conditions use.
func (p *Program) indexArrays(l *Loop) []ssa.Value {
	var out []ssa.Value
	for b := range l.Body {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok && commonName(c.Common()) == "builtin len" {
				out = append(out, c.Call.Args[0])
			}
		}
	}
	return out
}

// readIntRule: the field reader combines its bytes big endian.
func readIntRule(p *Program, r *Report, root *ssa.Function) {
	data := func(e *Engine, st *State) *Term { return st.pins["data"] }
	foldBytes(p, r, root, "field", func(e *Engine) {
		e.KeepFacts = true
		e.H.After = func(st *State, c *Call) {
			if c.Name == "io.ReadFull" || c.Name == "io.ReadAtLeast" {
				st.pins["data"], st.pins["n"] = c.Args[1], c.Result
				w := e.ParamTerm(1)
				ok := e.Len(st, c.Args[1], nil) == w && peel(c.Args[0]) == e.ParamTerm(0)
				r.ob(ok)
				if !ok {
					r.fail("field", fnName(root), p.InstrPos(c.In), "a field is not read with its width", st.Path())
				}
			}
		}
	}, data, func(e *Engine, st *State, res []*Term) *Term {
		if e.Eval(st, res[1]) == 0 || st.pins["n"] == nil {
			return nil
		}
		n := e.valOf(st.pins["n"])
		full := e.Eval(st, e.Cmp(token.EQL, n, e.ParamTerm(1))) == 1 || e.Eval(st, e.Cmp(token.LSS, n, e.ParamTerm(1))) == 0
		full = full || e.Eval(st, e.Cmp(token.EQL, e.ext(st.pins["n"], 1), e.in.Nil())) == 1
		r.ob(full)
		if !full {
			r.fail("field", fnName(root), p.Pos(root.Pos()), "a field of which bytes are missing is taken for read", st.Path())
		}
		return res[0]
	})
}
