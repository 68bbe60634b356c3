package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C29"] = &Check{
		Rule: "every bfchar and bfrange section of the cmap is read entry by entry; entries store code to destination, ranges every code with the destination incremented by the distance; decoding walks the text in steps of the width and writes the mapped value or the code itself",
		Run:  runC29,
	}
}

func runC29(p *Program, r *Report) {
	bytesToIntRule(p, r)
	decodeRule(p, r)
	inc := cmapRule(p, r)
	for f := range inc {
		incrementRule(p, r, f)
	}
	r.need("functions that increment destinations", len(inc), 1)
}

// incoming is the value a phi of block to gets over the edge from -> to.
func (e *Engine) incoming(st *State, ctx *Ctx, phi *ssa.Phi, from *ssa.BasicBlock) *Term {
	for i, pr := range phi.Block().Preds {
		if pr == from {
			return e.V(st, ctx, phi.Edges[i])
		}
	}
	return nil
}

// lo is the lower bound of a slice.
func (e *Engine) lo(t *Term) *Term {
	if t.args[1].isNil() {
		return e.in.Int(0)
	}
	return t.args[1]
}

func phis(b *ssa.BasicBlock) []*ssa.Phi {
	var out []*ssa.Phi
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		out = append(out, phi)
	}
	return out
}

// shiftIn lists the ways to write cur*256 + x.
func (e *Engine) shiftIn(cur, x *Term, typ types.Type) []*Term {
	sh := e.in.BinOp(token.MUL, cur, e.in.Int(256), typ)
	shl := e.in.BinOp(token.SHL, cur, e.in.Int(8), typ)
	return []*Term{e.in.BinOp(token.ADD, sh, x, typ), e.in.BinOp(token.OR, sh, x, typ), e.in.BinOp(token.OR, shl, x, typ), e.in.BinOp(token.ADD, shl, x, typ)}
}

// foldBytes: the loops of root that visit every byte of data in order combine them big endian; at
// every return accepted by ret the given result is the combined value.
func foldBytes(p *Program, r *Report, root *ssa.Function, rule string, setup func(e *Engine), data func(e *Engine, st *State) *Term, result func(e *Engine, st *State, res []*Term) *Term) {
	e := NewEngine(p)
	e.NoLookahead = true
	if setup != nil {
		setup(e)
	}
	name := fnName(root)
	t := &Traversal{e: e, r: r, name: rule, step: 1, loops: map[string]*travLoop{}}
	badInit, badStep, rets := map[*ssa.Phi]string{}, map[*ssa.Phi]string{}, map[*ssa.Phi]int{}
	total, empty := 0, 0
	e.H.Instr = func(st *State, ctx *Ctx, in ssa.Instruction) {
		ia, ok := in.(*ssa.IndexAddr)
		if !ok {
			return
		}
		if s := e.V(st, ctx, ia.X); s == data(e, st) {
			if t.Visit(st, ctx, ia.Index, s, p.InstrPos(in)) {
				st.pins["elem"] = e.in.Pure("iaddr", s, e.V(st, ctx, ia.Index))
			}
		}
	}
	seen := map[string]bool{}
	e.H.Edge = func(st *State, ctx *Ctx, from, to *ssa.BasicBlock) {
		t.Edge(st, ctx, from, to)
		for _, l := range p.Loops(ctx.fn).ByHeader {
			if ctx.fn != root && !e.Inlined[fnName(ctx.fn)] {
				continue
			}
			k := l.kind(from, to)
			for _, phi := range phis(l.Header) {
				if !isIntType(phi.Type()) {
					continue
				}
				switch k {
				case edgeEnter:
					if v := e.incoming(st, ctx, phi, from); !isZeroInt(v) {
						badInit[phi] = "the value does not start at zero"
					}
				case edgeBack:
					ok := false
					if el := st.pins["elem"]; el != nil && st.cells[el] != nil {
						v := e.incoming(st, ctx, phi, from)
						for _, w := range e.shiftIn(e.V(st, ctx, phi), st.cells[el], phi.Type()) {
							ok = ok || v == w
						}
					}
					if !ok {
						badStep[phi] = "the value is not 256 times the value so far plus the next byte"
					}
				case edgeExit:
					st.pins["acc:"+phi.Name()] = e.V(st, ctx, phi)
					seen[phi.Name()] = true
				}
			}
			if k == edgeBack {
				delete(st.pins, "elem")
			}
		}
	}
	var all []*ssa.Phi
	for _, f := range append([]*ssa.Function{root}, p.calleesIn(root)...) {
		for _, l := range p.Loops(f).ByHeader {
			all = append(all, phis(l.Header)...)
		}
	}
	e.H.Ret = func(st *State, ctx *Ctx, in *ssa.Return, res []*Term) {
		v := result(e, st, res)
		if v == nil {
			return
		}
		total++
		if v.hasOp("conv:") {
			v = v.args[0]
		}
		hit := false
		for _, phi := range all {
			if st.pins["acc:"+phi.Name()] == v && badStep[phi] == "" && badInit[phi] == "" {
				rets[phi]++
				hit = true
			}
		}
		if !hit {
			if n := e.Eval(st, e.Cmp(token.EQL, e.Len(st, data(e, st), nil), e.in.Int(0))); n == 1 && isZeroInt(v) {
				empty++
			} else {
				msg := "the result is not the big endian value of the bytes"
				for _, phi := range all {
					if st.pins["acc:"+phi.Name()] == v {
						if badStep[phi] != "" {
							msg = badStep[phi]
						} else {
							msg = badInit[phi]
						}
					}
				}
				r.ob(false)
				r.fail(rule, name, p.InstrPos(in), msg, st.Path())
				return
			}
		}
		r.ob(true)
	}
	e.Run(root, nil)
	r.finish(e, rule)
	r.need("returns of "+name+" with a value", total-empty, 1)
	r.need("loops over the bytes of "+name, len(t.loops), 1)
}

// calleesIn lists unexported helpers called by f.
func (p *Program) calleesIn(f *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if g := c.Common().StaticCallee(); g != nil && p.InRepo(g) && !baselineAPI[fnName(g)] {
					out = append(out, g)
				}
			}
		}
	}
	return out
}

func bytesToIntRule(p *Program, r *Report) {
	root := r.anchor(p, "BytesToInt")
	if root == nil {
		return
	}
	foldBytes(p, r, root, "big endian", nil, func(e *Engine, st *State) *Term { return e.ParamTerm(0) },
		func(e *Engine, st *State, res []*Term) *Term { return res[0] })
}

// decodeRule: Font.Decode replaces every code of the text.
func decodeRule(p *Program, r *Report) {
	root := r.anchor(p, "Font.Decode")
	if root == nil {
		return
	}
	idx := map[*ssa.Phi]bool{}
	for pass := 0; pass < 2; pass++ {
		e := NewEngine(p)
		e.NoLookahead, e.KeepFacts, e.NoContent = true, true, true
		e.Stable = func(t *Term) bool { return t.is("decoded") }
		fail := func(st *State, in ssa.Instruction, msg string) {
			if pass == 1 {
				r.ob(false)
				r.fail("decode", "Font.Decode", p.InstrPos(in), msg, st.Path())
			}
		}
		width := func(st *State) *Term { return e.cellOf(st, "Font.Width", e.ParamTerm(0)) }
		cmap := func(st *State) *Term { return e.cellOf(st, "Font.Cmap", e.ParamTerm(0)) }
		written, rets := 0, 0
		write := func(st *State, in ssa.Instruction, d *Term) {
			d = strip(d)
			m := cmap(st)
			for k, v := range st.cells {
				if !k.is("mapok") || m == nil || k.args[0] != m || !k.args[1].is("call:BytesToInt") {
					continue
				}
				code := strip(k.args[1].args[0])
				if !code.is("slice") {
					continue
				}
				var good bool
				switch e.Eval(st, v) {
				case 1:
					good = d == st.cells[e.mapCell("mapel", m, k.args[1])]
				case 0:
					good = d == code || d.is("sub") && strip(d.args[0]) == strip(code.args[0]) && e.lo(d) == e.lo(code) && d.args[2] == code.args[2]
				}
				if good {
					if st.flags["written"] != "" {
						fail(st, in, "a code is written twice")
					}
					st.flags["written"] = "1"
					st.pins["code"] = code
					written++
					return
				}
			}
			fail(st, in, "what is written is neither the mapped value of a code nor the unmapped code: "+trunc(d.String(), 90))
		}
		e.H.Call = func(st *State, c *Call) {
			if w := e.asWrite(st, c); w != nil && isBuilder(w.Dest) {
				if len(w.Data) != 1 {
					fail(st, c.In, "what is written is neither the mapped value of a code nor the unmapped code")
					return
				}
				write(st, c.In, w.Data[0])
			}
		}
		e.H.Model = func(st *State, c *Call) *Term {
			if strings.HasSuffix(c.Name, ".String") && len(c.Args) == 1 && isBuilder(c.Args[0]) {
				return e.in.PureT(types.Typ[types.String], "decoded")
			}
			if c.Name == "builtin append" && isByteSlice(c.In.(ssa.Value).Type()) {
				b := c.Args[0]
				if b.is("decoded") || b.isNil() || e.Eval(st, e.Cmp(token.EQL, e.Len(st, b, nil), e.in.Int(0))) == 1 {
					write(st, c.In, c.Args[1])
					return e.in.PureT(c.In.(ssa.Value).Type(), "decoded")
				}
			}
			return nil
		}
		e.H.Instr = func(st *State, ctx *Ctx, in ssa.Instruction) {
			b := in.Block()
			if ctx.fn == root && p.Loops(root).ByHeader[b] != nil && b.Instrs[firstNonPhi(b)] == in {
				for _, phi := range phis(b) {
					st.pins["at:"+phi.Name()] = e.V(st, ctx, phi)
				}
			}
		}
		e.H.Edge = func(st *State, ctx *Ctx, from, to *ssa.BasicBlock) {
			last := from.Instrs[len(from.Instrs)-1]
			for _, l := range p.Loops(ctx.fn).ByHeader {
				if ctx.fn != root {
					continue
				}
				k := l.kind(from, to)
				for _, phi := range phis(l.Header) {
					if pass == 1 && idx[phi] {
						switch k {
						case edgeEnter:
							if v := e.incoming(st, ctx, phi, from); !isZeroInt(v) && v != e.ParamTerm(1) {
								fail(st, last, "decoding does not start at the first byte")
							}
						case edgeExit:
							cur := st.pins["at:"+phi.Name()]
							if cur == nil {
								fail(st, last, "decoding can stop before the last complete code")
							} else if isIntType(phi.Type()) && width(st) != nil {
								end := e.in.linAdd(cur, width(st), 1, types.Typ[types.Int])
								if e.Eval(st, e.Cmp(token.LEQ, end, e.Len(st, e.ParamTerm(1), nil))) != 0 {
									fail(st, last, "decoding can stop before the last complete code")
								}
							} else if width(st) != nil && e.Eval(st, e.Cmp(token.LEQ, width(st), e.Len(st, cur, nil))) != 0 {
								fail(st, last, "decoding can stop before the last complete code")
							}
						}
					}
				}
				if k != edgeBack {
					continue
				}
				code := st.pins["code"]
				if st.flags["written"] == "" || code == nil {
					fail(st, last, "a code can be passed over")
					continue
				}
				moved := false
				for _, phi := range phis(l.Header) {
					cur, nxt := st.pins["at:"+phi.Name()], e.incoming(st, ctx, phi, from)
					switch {
					case cur == nil:
					case isIntType(phi.Type()) && strip(code.args[0]) == e.ParamTerm(1) && e.lo(code) == cur:
						idx[phi] = true
						w := width(st)
						moved = w != nil && code.args[2] == e.in.linAdd(cur, w, 1, types.Typ[types.Int]) && nxt == code.args[2]
					case isByteSlice(phi.Type()) && code.args[0] == cur && isZeroInt(e.lo(code)):
						idx[phi] = true
						w := width(st)
						moved = w != nil && code.args[2] == w && nxt.is("slice") && nxt.args[0] == cur && nxt.args[1] == w
					}
				}
				r.ob(moved || pass == 0)
				if !moved {
					fail(st, last, "decoding does not go through the text in steps of the width of a code")
				}
				delete(st.flags, "written")
				delete(st.pins, "code")
			}
		}
		e.H.Ret = func(st *State, ctx *Ctx, in *ssa.Return, res []*Term) {
			rets++
			d := strip(res[0])
			s, k := d.strVal()
			if !d.is("decoded") && !(k && s == "" && e.Eval(st, e.Cmp(token.EQL, e.Len(st, e.ParamTerm(1), nil), e.in.Int(0))) == 1) {
				fail(st, in, "what was decoded is not returned")
			}
		}
		e.Run(root, nil)
		if pass == 1 {
			r.finish(e, "decode")
			r.need("codes written", written, 2)
			r.need("returns of Font.Decode", rets, 1)
			r.need("positions in the text", len(idx), 1)
			r.Sites += written
		}
	}
}

// cmapRule: NewFont records every entry of the cmap.  It returns the functions that increment
// the destinations of ranges.
func cmapRule(p *Program, r *Report) map[*ssa.Function]bool {
	// loops that read entries, and loops that map the codes of a range
	reads, maps := map[*Loop]bool{}, map[*Loop]bool{}
	cmapPass(p, newReport(r.Prop), reads, maps)
	for l := range reads {
		delete(maps, l)
	}
	return cmapPass(p, r, reads, maps)
}

// loopAt is the innermost loop around a place, looking through calls of inlined functions.
func (p *Program) loopAt(ctx *Ctx, b *ssa.BasicBlock) (*Ctx, *Loop) {
	for ctx != nil && b != nil {
		var best *Loop
		for _, l := range p.Loops(ctx.fn).ByHeader {
			if l.Body[b] && (best == nil || best.Body[l.Header]) {
				best = l
			}
		}
		if best != nil {
			return ctx, best
		}
		if ctx.call == nil {
			break
		}
		b = ctx.call.Block()
		ctx = ctx.parent
	}
	return nil, nil
}

func cmapPass(p *Program, r *Report, reads, maps map[*Loop]bool) map[*ssa.Function]bool {
	incs := map[*ssa.Function]bool{}
	root := r.anchor(p, "NewFont")
	if root == nil {
		return incs
	}
	e := NewEngine(p)
	e.NoLookahead, e.KeepFacts, e.NoContent = true, true, true
	const limit = 65536
	x := &text{p: p, r: r, e: e}
	if g := p.global("ReadError"); g != nil {
		x.readError = e.globalValue(g)
	}
	if x.readError == nil {
		r.fail("anchor", "ReadError", "-", "the end of input mark is not a constant", nil)
		return incs
	}
	base := e.Opaque
	e.Opaque = func(f *ssa.Function) bool {
		// functions of a string and a number give a destination
		s := f.Signature
		if p.InRepo(f) && s.Params().Len() == 2 && s.Results().Len() == 1 && isStringy(s.Params().At(0).Type()) && isIntType(s.Params().At(1).Type()) && isStringy(s.Results().At(0).Type()) {
			return true
		}
		return base(f)
	}
	counts := map[string]int{}
	fail := func(st *State, construct string, in ssa.Instruction, msg string) {
		r.ob(false)
		r.fail("cmap", construct, p.InstrPos(in), msg, st.Path())
	}
	kind := func(st *State) string {
		cmd, _, _ := x.parts(st)
		if cmd == nil {
			return ""
		}
		for _, k := range []string{"beginbfrange", "beginbfchar"} {
			if e.Eval(st, x.is(cmd, k)) == 1 {
				return k
			}
		}
		return ""
	}
	need := map[string]int{"beginbfrange": 3, "beginbfchar": 2}
	hex := func(st *State, i int) *Term { return st.pins[fmt.Sprintf("h%d", i)] }
	read := func(st *State) int {
		n := 0
		for hex(st, n) != nil {
			n++
		}
		return n
	}
	code := func(st *State, i int) *Term {
		if hex(st, i) == nil {
			return nil
		}
		return e.in.Pure("call:BytesToInt", e.in.Pure("bytes", hex(st, i)))
	}
	clear := func(st *State) {
		for _, k := range []string{"h0", "h1", "h2", "h3"} {
			delete(st.pins, k)
		}
		for _, k := range []string{"width", "mapped", "updated", "small"} {
			delete(st.flags, k)
		}
	}
	over := func(st *State) bool {
		_, _, err := x.parts(st)
		return err != nil && e.Eval(st, e.Cmp(token.EQL, err, x.readError)) == 1
	}
	isCmap := func(st *State, m *Term) bool {
		for k, v := range st.cells {
			if k.is("faddr:Font.Cmap") && v == m {
				return true
			}
		}
		return false
	}
	done := func(st *State, in ssa.Instruction) {
		cmd, ops, err := x.parts(st)
		if cmd == nil {
			return
		}
		count := e.valOf(x.operand(st, ops, "GetInt", 1))
		for k := range need {
			ok := st.flags["section"] == k || e.refuted(st, []Cond{{e.Cmp(token.EQL, err, x.readError), false}, {x.is(cmd, k), true}, {e.Cmp(token.LSS, e.in.Int(0), count), true}})
			r.ob(ok)
			if !ok {
				fail(st, k, in, "the entries that follow "+k+" can be passed over")
			}
		}
		delete(st.flags, "section")
		x.forget(st)
	}
	// counters lists the number of completed iterations of a loop
	counters := func(st *State, ctx *Ctx, l *Loop) []*Term {
		var out []*Term
		for _, phi := range phis(l.Header) {
			if iv := p.inductive(phi); iv != nil && iv.startConst != nil && iv.step == 1 {
				t := e.V(st, ctx, phi)
				out = append(out, e.in.linAdd(t, e.in.Int(-*iv.startConst), 1, types.Typ[types.Int]))
			}
		}
		return out
	}
	e.H.Call = func(st *State, c *Call) {
		switch c.Name {
		case "Parser.ReadCommand":
			done(st, c.In)
		case "NewParser":
			t := peel(c.Args[0])
			ok := t.is("reader") && t.args[0] == strip(e.valOf(e.get(e.ParamTerm(0), "GetStream", "ToUnicode")))
			r.ob(ok)
			if !ok {
				fail(st, "source", c.In, "the cmap is not read from the ToUnicode stream")
			}
			counts["source"]++
		}
	}
	e.H.Model = func(st *State, c *Call) *Term {
		switch c.Name {
		case "bytes.NewReader", "bytes.NewBuffer", "strings.NewReader", "bytes.NewBufferString":
			return e.in.PureT(c.In.(ssa.Value).Type(), "reader", strip(c.Args[0]))
		}
		if c.Fn != nil && p.InRepo(c.Fn) && e.Opaque(c.Fn) && !baselineAPI[c.Name] && len(c.Args) == 2 {
			return e.in.PureT(types.Typ[types.String], "call:"+c.Name, c.Args...)
		}
		return nil
	}
	e.H.After = func(st *State, c *Call) {
		switch c.Name {
		case "Parser.ReadCommand":
			st.pins["cmd"] = c.Result
			counts["commands"]++
		case "Parser.ReadHexString":
			k := kind(st)
			n := read(st)
			lc, l := p.loopAt(c.Ctx, c.In.Block())
			if l != nil {
				reads[l] = true
			}
			if l != nil && n == 0 && k != "" {
				_, ops, _ := x.parts(st)
				ok := false
				for _, i := range counters(st, lc, l) {
					ok = ok || e.Eval(st, e.Cmp(token.LSS, i, e.valOf(x.operand(st, ops, "GetInt", 1)))) == 1
				}
				r.ob(ok)
				if !ok {
					fail(st, k, c.In, "more entries can be read than the section has")
				}
			}
			if k == "" || n >= need[k] {
				fail(st, "entry", c.In, "strings are read that belong to no entry")
				return
			}
			st.pins[fmt.Sprintf("h%d", n)] = c.Result
		}
	}
	e.H.Store = func(st *State, ctx *Ctx, in *ssa.Store, addr, val *Term) {
		if !addr.is("faddr:Font.Width") || kind(st) == "" {
			return
		}
		ok := hex(st, 0) != nil && val == e.Len(st, hex(st, 0), nil)
		r.ob(ok)
		if !ok {
			fail(st, "width", in, "the width of the map is not the length of a source code")
			return
		}
		st.flags["width"] = "1"
	}
	e.H.MapUpd = func(st *State, ctx *Ctx, in *ssa.MapUpdate, m, k, v *Term) {
		if !isCmap(st, m) {
			return
		}
		if _, l := p.loopAt(ctx, in.Block()); l != nil && kind(st) == "beginbfrange" {
			maps[l] = true
		}
		switch kind(st) {
		case "beginbfchar":
			ok := read(st) == 2 && k == code(st, 0) && strip(v) == hex(st, 1)
			r.ob(ok)
			counts["char"]++
			if !ok {
				fail(st, "bfchar", in, "an entry does not map its code to its destination")
			}
			st.flags["mapped"] = "1"
		case "beginbfrange":
			counts["range"]++
			st.flags["updated"] = "1"
			st.pins["j"] = k
			if read(st) != 3 {
				fail(st, "bfrange", in, "codes are mapped before the entry has been read")
				return
			}
			d := e.in.linAdd(k, code(st, 0), -1, types.Typ[types.Int])
			v = strip(v)
			ok := false
			if v.hasOp("call:") && len(v.args) == 2 && strip(v.args[0]) == hex(st, 2) && v.args[1] == d {
				if f := p.Func(v.op[5:]); f != nil {
					incs[f] = true
					ok = true
				}
			} else if isZeroInt(d) && v == hex(st, 2) {
				ok = true
			}
			r.ob(ok)
			if !ok {
				fail(st, "bfrange", in, "a code of a range is not mapped to the destination incremented by its distance from the start")
			}
		default:
			fail(st, "entry", in, "a code is mapped outside the sections of the map")
		}
	}
	e.H.Branch = func(st *State, ctx *Ctx, in *ssa.If, cond *Term, taken bool) {
		delete(st.flags, "full")
		c, want := cond, false
		if c.is("!") {
			c, want = c.args[0], true
		}
		if c.is("<") && taken == want {
			if n, ok := c.args[1].intVal(); ok && n >= limit && c.args[0].is("len") && isCmap(st, c.args[0].args[0]) {
				st.flags["full"] = "1"
			}
		}
		if c.is("<") && taken != want {
			if n, ok := c.args[0].intVal(); ok && n >= limit-1 && c.args[1].is("len") && isCmap(st, c.args[1].args[0]) {
				st.flags["full"] = "1"
			}
		}
	}
	e.H.Edge = func(st *State, ctx *Ctx, from, to *ssa.BasicBlock) {
		last := from.Instrs[len(from.Instrs)-1]
		for l := range maps {
			if l.Header.Parent() != ctx.fn || kind(st) != "beginbfrange" {
				continue
			}
			switch l.kind(from, to) {
			case edgeEnter:
				delete(st.flags, "updated")
				ok := false
				for _, phi := range phis(l.Header) {
					ok = ok || e.incoming(st, ctx, phi, from) == code(st, 0) && code(st, 0) != nil
				}
				r.ob(ok)
				if !ok {
					fail(st, "bfrange", last, "the codes of a range are not mapped from its start")
				}
			case edgeBack:
				ok := false
				for _, phi := range phis(l.Header) {
					cur := e.V(st, ctx, phi)
					if st.flags["updated"] != "" && cur == st.pins["j"] {
						ok = ok || e.incoming(st, ctx, phi, from) == e.in.linAdd(cur, e.in.Int(1), 1, types.Typ[types.Int])
					}
				}
				r.ob(ok)
				if !ok {
					fail(st, "bfrange", last, "a code of a range can be passed over")
				}
				delete(st.flags, "updated")
				delete(st.pins, "j")
			case edgeExit:
				// the end of the range or the size limit
				ok := st.flags["full"] != ""
				for _, phi := range phis(l.Header) {
					cur := e.V(st, ctx, phi)
					if end := code(st, 1); end != nil && isIntType(phi.Type()) {
						ok = ok || e.Eval(st, e.Cmp(token.LEQ, cur, end)) == 0
						d := e.in.linAdd(cur, code(st, 0), -1, types.Typ[types.Int])
						ok = ok || e.Eval(st, e.Cmp(token.LSS, d, e.in.Int(limit))) == 0
					}
				}
				r.ob(ok)
				if !ok {
					fail(st, "bfrange", last, "mapping the codes of a range can stop before its end")
				}
				st.flags["mapped"] = "1"
				delete(st.pins, "j")
			}
		}
		for l := range reads {
			if l.Header.Parent() != ctx.fn {
				continue
			}
			k := kind(st)
			_, ops, _ := x.parts(st)
			if ops == nil {
				continue
			}
			count := e.valOf(x.operand(st, ops, "GetInt", 1))
			switch l.kind(from, to) {
			case edgeEnter:
				clear(st)
				if k == "" {
					fail(st, "entry", last, "entries are read outside the sections of the map")
				}
				st.flags["section"] = k
			case edgeBack:
				counts["entries"]++
				ok := read(st) == need[k] && st.flags["width"] != "" && st.flags["mapped"] != ""
				r.ob(ok)
				if !ok {
					fail(st, k, last, "an entry can end without being read, measured and mapped completely")
				}
				clear(st)
			case edgeExit:
				n := read(st)
				ok := false
				if n > 0 {
					// the section breaks off
					ok = e.Eval(st, e.Cmp(token.EQL, hex(st, n-1), e.in.Str(""))) == 1 && st.flags["mapped"] == ""
				} else {
					for _, i := range counters(st, ctx, l) {
						ok = ok || e.Eval(st, e.Cmp(token.LSS, i, count)) == 0
					}
				}
				r.ob(ok)
				if !ok {
					fail(st, k, last, "a section can be left before all of its entries have been read")
				}
				clear(st)
			}
		}
	}
	e.H.Ret = func(st *State, ctx *Ctx, in *ssa.Return, res []*Term) {
		ok := over(st)
		r.ob(ok)
		if !ok {
			fail(st, "commands", in, "reading the cmap can stop before its end")
		}
		done(st, in)
		counts["returns"]++
	}
	e.Run(root, nil)
	r.finish(e, "cmap")
	for _, k := range []string{"commands", "source", "char", "range", "returns"} {
		r.need("cmap "+k, counts[k], 1)
	}
	r.need("cmap entries", counts["entries"], 2)
	return incs
}

func isStringy(t types.Type) bool {
	if b, ok := t.Underlying().(*types.Basic); ok {
		return b.Info()&types.IsString != 0
	}
	return isByteSlice(t)
}

// incrementRule: the function adds a number to the big endian value of a string: from the last
// byte on, every byte becomes the low byte of its sum with the carry, which becomes the rest.
func incrementRule(p *Program, r *Report, root *ssa.Function) {
	e := NewEngine(p)
	e.NoLookahead, e.KeepFacts, e.NoContent = true, true, true
	name := fnName(root)
	fail := func(st *State, in ssa.Instruction, msg string) {
		r.ob(false)
		r.fail("increment", name, p.InstrPos(in), msg, st.Path())
	}
	stores, rets, backs := 0, 0, 0
	isCopy := func(t *Term) bool { return t.is("bytes") && t.args[0] == e.ParamTerm(0) }
	typ := types.Typ[types.Int]
	sum := func(st *State) (*Term, *Term) { // the carry so far and its sum with the byte at hand
		el, carry := st.pins["old"], st.pins["carry"]
		if el == nil || carry == nil {
			return nil, nil
		}
		return carry, e.in.linAdd(carry, el, 1, typ)
	}
	low := func(t, s *Term) bool { // the low byte of s
		for {
			switch {
			case t == s:
				return true
			case t.is("conv:uint8") || t.is("conv:byte"):
				t = t.args[0]
			case t.is("%") && isInt(t.args[1], 256), t.is("&") && (isInt(t.args[1], 255) || isInt(t.args[0], 255)):
				if isInt(t.args[0], 255) {
					t = t.args[1]
				} else {
					t = t.args[0]
				}
			default:
				return false
			}
		}
	}
	high := func(t, s *Term) bool {
		return (t.is("/") && isInt(t.args[1], 256) || t.is(">>") && isInt(t.args[1], 8)) && t.args[0] == s
	}
	var idx, carry *ssa.Phi
	// the counter and the carry
	for _, l := range p.Loops(root).ByHeader {
		for _, phi := range phis(l.Header) {
			if iv := p.inductive(phi); iv != nil && iv.step == -1 {
				idx = phi
			} else if isIntType(phi.Type()) {
				carry = phi
			}
		}
	}
	if idx == nil || carry == nil {
		r.fail("increment", name, p.Pos(root.Pos()), "no loop goes through the bytes from the last to the first with a carry", nil)
		return
	}
	e.H.Instr = func(st *State, ctx *Ctx, in ssa.Instruction) {
		if ctx.fn != root {
			return
		}
		ia, ok := in.(*ssa.IndexAddr)
		if !ok || !isCopy(e.V(st, ctx, ia.X)) {
			return
		}
		st.pins["carry"] = e.V(st, ctx, carry)
	}
	e.H.Store = func(st *State, ctx *Ctx, in *ssa.Store, addr, val *Term) {
		if !addr.is("iaddr") || !isCopy(addr.args[0]) {
			return
		}
		stores++
		st.pins["old"] = st.cells[addr]
		_, s := sum(st)
		ok := s != nil && addr.args[1] == e.V(st, ctx, idx) && low(val, s)
		r.ob(ok)
		if !ok {
			fail(st, in, "a byte is not replaced by the low byte of its sum with the carry")
		}
		st.flags["stored"] = "1"
	}
	e.H.Edge = func(st *State, ctx *Ctx, from, to *ssa.BasicBlock) {
		if ctx.fn != root {
			return
		}
		last := from.Instrs[len(from.Instrs)-1]
		for _, l := range p.Loops(root).ByHeader {
			switch l.kind(from, to) {
			case edgeEnter:
				n := e.incoming(st, ctx, carry, from)
				i := e.incoming(st, ctx, idx, from)
				ok := n == e.ParamTerm(1) && i == e.in.linAdd(e.Len(st, e.ParamTerm(0), nil), e.in.Int(-1), 1, typ)
				r.ob(ok)
				if !ok {
					fail(st, last, "the number is not added starting from the last byte")
				}
			case edgeBack:
				backs++
				_, s := sum(st)
				ok := s != nil && st.flags["stored"] != "" && high(e.incoming(st, ctx, carry, from), s)
				r.ob(ok)
				if !ok {
					fail(st, last, "the carry is not what exceeds the byte of the sum")
				}
				delete(st.flags, "stored")
				delete(st.pins, "old")
				delete(st.pins, "carry")
			case edgeExit:
				ok := e.Eval(st, e.Cmp(token.LSS, e.in.Int(0), e.V(st, ctx, carry))) == 0 || e.Eval(st, e.Cmp(token.EQL, e.V(st, ctx, carry), e.in.Int(0))) == 1 ||
					e.Eval(st, e.Cmp(token.LEQ, e.in.Int(0), e.V(st, ctx, idx))) == 0
				r.ob(ok)
				if !ok {
					fail(st, last, "adding can stop while there is a carry")
				}
			}
		}
	}
	e.H.Ret = func(st *State, ctx *Ctx, in *ssa.Return, res []*Term) {
		rets++
		v := strip(res[0])
		ok := v == e.ParamTerm(0) && stores == 0 || isCopy(res[0])
		for y := in.Results[0]; !ok; {
			switch z := y.(type) {
			case *ssa.Convert:
				y = z.X
				if isEnvValue(y) && st.env[envKey{ctx.id, y}] != nil {
					ok = isCopy(e.V(st, ctx, y))
				}
				continue
			case *ssa.ChangeType:
				y = z.X
				continue
			}
			break
		}
		r.ob(ok)
		if !ok {
			fail(st, in, "the incremented string is not returned: "+trunc(v.String(), 80))
		}
	}
	e.Run(root, nil)
	r.finish(e, "increment")
	r.need("bytes replaced in "+name, stores, 1)
	r.need("iterations of "+name, backs, 1)
	r.need("returns of "+name, rets, 1)
}

func isInt(t *Term, n int64) bool { v, ok := t.intVal(); return ok && v == n }
