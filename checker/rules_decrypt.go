package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C11"] = &Check{Rule: "GetObject builds decryptors from the object's own number and the entry's generation; every reader hands exactly its own decryptor to nested readers and code outside encrypted objects hands the null decryptor; every return of the string and stream readers yields the whole collected data decrypted exactly once before any decode filter", Run: runC11}
	checks["C12"] = &Check{Rule: "every store of a clear flag is justified by the object being a cross-reference stream or the encryption dictionary; scanned streams, streams about to be loaded and the encryption dictionary are marked before they are read or the password is set; all other entries start as encrypted", Run: runC12}
}

// decryptorArg gives the index of a Decryptor parameter of a function signature, receiver included.
func (p *Program) decryptorArg(f *ssa.Function) int {
	d := p.Named("Decryptor")
	for i, prm := range f.Params {
		if d != nil && types.Identical(prm.Type(), d) {
			return i
		}
	}
	return -1
}

// needsRun reports that f or an inlined helper of f calls something that satisfies pred.
func (p *Program) needsRun(f *ssa.Function, pred func(c *ssa.CallCommon) bool) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(g *ssa.Function) bool
	walk = func(g *ssa.Function) bool {
		if seen[g] || !p.InRepo(g) {
			return false
		}
		seen[g] = true
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && walk(mc.Fn.(*ssa.Function)) {
					return true
				}
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				c := ci.Common()
				if pred(c) {
					return true
				}
				if h := c.StaticCallee(); h != nil && !baselineAPI[calleeName(h)] && walk(h) {
					return true
				}
			}
		}
		return false
	}
	return walk(f)
}

// roots lists the operations and every other function that is not looked through from one.
func (p *Program) roots() []*ssa.Function {
	called := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && p.InRepo(g) {
						called[g] = true
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					called[mc.Fn.(*ssa.Function)] = true
				}
			}
		}
	}
	var out []*ssa.Function
	for _, f := range p.Funcs {
		if len(f.Blocks) > 0 && p.InRepo(f) && (baselineAPI[calleeName(f)] || !called[f]) && f.Synthetic == "" {
			out = append(out, f)
		}
	}
	return out
}

func runC11(p *Program, r *Report) {
	// number and generation
	runObject(p, r, &objRun{
		ReadObject: func(x *objRun, st *State, c *Call) { x.ownKey(st, c, c.Args[1], "strings") },
		ReadStream: func(x *objRun, st *State, c *Call, _, _ *Term) { x.ownKey(st, c, c.Args[1], "stream") },
	})
	// propagation
	sites := 0
	for _, f := range p.roots() {
		name := fnName(f)
		if name == "Parser.GetObject" {
			continue
		}
		if !p.needsRun(f, func(c *ssa.CallCommon) bool { h := c.StaticCallee(); return h != nil && p.decryptorArg(h) >= 0 }) {
			continue
		}
		e := NewEngine(p)
		e.NoContent, e.NoLookahead = true, true
		own := p.decryptorArg(f)
		e.H.Call = func(st *State, c *Call) {
			if c.Fn == nil || !baselineAPI[c.Name] {
				return
			}
			i := p.decryptorArg(c.Fn)
			if i < 0 {
				return
			}
			sites++
			ok := false
			if own >= 0 {
				ok = c.Args[i] == e.ParamTerm(own)
			} else {
				ok = c.Args[i].is("iface:*DecryptorNone")
			}
			r.ob(ok)
			if !ok {
				msg := "data outside encrypted objects is read with a decryptor"
				if own >= 0 {
					msg = "a nested value is not read with the decryptor of its object"
				}
				r.fail("propagation", name+" -> "+c.Name, p.InstrPos(c.In), msg, st.Path())
			}
		}
		e.Run(f, nil)
		r.finish(e, name)
	}
	r.need("nested reads", sites, 10)
	r.sample("%d abstract calls that hand on a decryptor", sites)
	for _, n := range []string{"Parser.ReadString", "Parser.ReadHexString", "Parser.ReadStream"} {
		decryptOnce(p, r, n)
	}
	// nothing else decrypts
	allowed := map[*ssa.Function]bool{}
	for _, n := range []string{"Parser.ReadString", "Parser.ReadHexString", "Parser.ReadStream"} {
		if f := p.Func(n); f != nil {
			p.helpers(f, allowed)
		}
	}
	n := 0
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || f.Synthetic != "" {
					continue
				}
				if isDecrypt(p, c.Common()) {
					n++
					r.ob(allowed[f])
					if !allowed[f] {
						r.fail("decrypt site", fnName(f), p.InstrPos(in), "data is decrypted outside the string and stream readers", nil)
					}
				}
			}
		}
	}
	r.need("decrypt sites", n, 3)
}

// helpers collects f and the functions that are looked through when f is analysed.
func (p *Program) helpers(f *ssa.Function, out map[*ssa.Function]bool) {
	if out[f] || !p.InRepo(f) {
		return
	}
	out[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok {
				p.helpers(mc.Fn.(*ssa.Function), out)
			}
			if c, ok := in.(ssa.CallInstruction); ok {
				if h := c.Common().StaticCallee(); h != nil && !baselineAPI[calleeName(h)] {
					p.helpers(h, out)
				}
			}
		}
	}
}

func isDecrypt(p *Program, c *ssa.CallCommon) bool {
	if c.IsInvoke() {
		return c.Method.Name() == "Decrypt" && types.Identical(c.Value.Type(), p.Named("Decryptor"))
	}
	f := c.StaticCallee()
	return f != nil && f.Name() == "Decrypt" && p.InRepo(f)
}

// ownKey: the decryptor of an encrypted object is made from its own number and generation.
func (x *objRun) ownKey(st *State, c *Call, dec *Term, what string) {
	pos := x.p.InstrPos(c.In)
	f, n, g := x.parts(dec)
	enc := x.encrypted(st)
	ob := func(ok bool, msg string) {
		x.r.ob(ok)
		if !ok {
			x.fail(what, pos, msg, st)
		}
	}
	switch {
	case f == nil:
		ob(false, "the decryptor does not come from a crypt filter")
	case enc == 0:
		ob(isNoFilter(f), "an object that is not encrypted is decrypted")
	case enc == -1:
		ob(false, "the "+what+" of an object is read without checking whether it is encrypted")
	default:
		if isNoFilter(f) && n == nil {
			ob(false, "the "+what+" of an encrypted object can be read without decryption")
			return
		}
		ob(n == x.number(), "the key is not made from the number of the object itself")
		gen := x.entryField(st, "Generation")
		ob(gen != nil && g == gen, "the key is not made from the generation of the object itself")
	}
}

// decryptOnce: every return of a reader is its collected data decrypted exactly once.
func decryptOnce(p *Program, r *Report, name string) {
	root := r.anchor(p, name)
	if root == nil {
		return
	}
	e := NewEngine(p)
	e.NoContent, e.NoLookahead = true, true
	dec := e.in.Param("own", p.Named("Decryptor"))
	i := p.decryptorArg(root)
	if i < 0 {
		r.fail("anchor", name, p.Pos(root.Pos()), name+" has no decryptor parameter", nil)
		return
	}
	once := func(t *Term) bool {
		return t.is("dec") && t.args[0] == dec && !t.args[1].anyTerm(func(u *Term) bool { return u.is("dec") || u.is("decoded") })
	}
	e.Stable = func(t *Term) bool { return strip(t).is("decoded") || once(strip(t)) }
	decrypts := 0
	fail := func(pos, msg string, st *State) {
		r.ob(false)
		r.fail("decrypt once", name, pos, msg, st.Path())
	}
	e.H.Model = func(st *State, c *Call) *Term {
		if isDecrypt(p, c.Com) {
			decrypts++
			in := e.Content(st, c.Args[1])
			if in.is("sub") && !isZeroInt(in.args[1]) && !in.args[1].isNil() {
				fail(p.InstrPos(c.In), "only part of the data is decrypted", st)
			}
			st.flags["dec"] = "1"
			return e.in.PureT(c.In.(ssa.Value).Type(), "dec", c.Args[0], in)
		}
		for _, b := range []string{"(*strings.Builder).", "(*bytes.Buffer)."} {
			if m, ok := strings.CutPrefix(c.Name, b); ok {
				switch m {
				case "String", "Bytes":
					return e.in.PureT(c.In.(ssa.Value).Type(), "all", c.Args[0])
				case "Write", "WriteByte", "WriteString", "WriteRune", "ReadFrom":
					st.flags["wrote"] = "1"
					if st.flags["dec"] != "" {
						fail(p.InstrPos(c.In), "data is collected after decryption", st)
					}
				}
			}
		}
		if c.Name == "DecodeStream" {
			d := strip(c.Args[1])
			if once(d) || d.is("decoded") {
				return e.in.PureT(c.In.(ssa.Value).Type(), "decoded", dec)
			}
			fail(p.InstrPos(c.In), "a decode filter is applied to data that is not decrypted", st)
			return e.in.PureT(c.In.(ssa.Value).Type(), "raw")
		}
		return nil
	}
	exits := 0
	e.H.Ret = func(st *State, ctx *Ctx, in *ssa.Return, res []*Term) {
		exits++
		v := strip(res[0])
		if once(v) || v.is("decoded") {
			r.ob(true)
			return
		}
		c := e.Content(st, res[0])
		for c.is("bytesof") || c.is("str") || c.is("bytes") {
			c = c.args[0]
		}
		if once(c) || c.is("decoded") {
			r.ob(true)
			return
		}
		if s, ok := e.constBytes(c); ok && s == "" || c.is("all") && st.flags["wrote"] == "" || e.Eval(st, e.Cmp(token.EQL, e.Len(st, res[0], nil), e.in.Int(0))) == 1 {
			r.ob(true)
			return
		}
		fail(p.InstrPos(in), "data can be returned without having been decrypted exactly once (got "+trunc(c.String(), 100)+")", st)
	}
	e.Run(root, func(st *State, ctx *Ctx) { st.env[envKey{ctx.id, root.Params[i]}] = dec })
	r.finish(e, name)
	r.need(name+" exits", exits, 2)
	r.need(name+" decryptions", decrypts, 1)
	r.sample("%s: %d abstract exits, %d abstract decryptions", name, exits, decrypts)
}

// ------------------------------------------------------------ C12

func runC12(p *Program, r *Report) {
	// entries start as encrypted
	if root := r.anchor(p, "NewXrefEntry"); root != nil {
		e := NewEngine(p)
		e.H.Ret = func(st *State, ctx *Ctx, in *ssa.Return, res []*Term) {
			v := e.cellOf(st, "XrefEntry.IsEncrypted", res[0])
			b, ok := false, false
			if v != nil {
				b, ok = v.boolVal()
			}
			r.ob(ok && b)
			if !(ok && b) {
				r.fail("default", "NewXrefEntry", p.InstrPos(in), "objects do not count as encrypted by default", st.Path())
			}
			x := e.cellOf(st, "XrefEntry.IsXrefStream", res[0])
			if x != nil {
				if b, ok := x.boolVal(); !ok || b {
					r.fail("default", "NewXrefEntry", p.InstrPos(in), "objects count as cross-reference streams by default", st.Path())
				}
			}
		}
		e.Run(root, nil)
		r.finish(e, "NewXrefEntry")
	}
	load := r.anchor(p, "Parser.Load")
	if load == nil {
		return
	}
	// marks and entries are only written while loading
	inLoad := map[*ssa.Function]bool{}
	p.helpers(load, inLoad)
	if f := p.Func("NewXrefEntry"); f != nil {
		inLoad[f] = true
	}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				bad := false
				switch x := in.(type) {
				case *ssa.Store:
					k := storeKey(x.Addr)
					bad = k == "XrefEntry.IsEncrypted" || k == "faddr:XrefEntry.IsEncrypted" || k == "field:XrefEntry.IsEncrypted"
				case *ssa.MapUpdate:
					bad = typeStr(x.Map.Type()) == "map[int]*XrefEntry"
				}
				if bad {
					r.Sites++
					r.ob(inLoad[f])
					if !inLoad[f] {
						r.fail("site", fnName(f), p.InstrPos(in), "cross-reference entries are changed outside loading", nil)
					}
				}
			}
		}
	}
	r.need("writes of cross-reference entries", r.Sites, 6)
	scanMarks(p, r)
	xrefMarks(p, r)
	loadMarks(p, r, load)
}

// cellOf is the value of a field of the object at ptr.
func (e *Engine) cellOf(st *State, field string, ptr *Term) *Term {
	for k, v := range st.cells {
		if k.is("faddr:"+field) && k.args[0] == ptr {
			return v
		}
	}
	return nil
}

func isFalse(t *Term) bool {
	if t == nil {
		return false
	}
	b, ok := t.boolVal()
	return ok && !b
}

func isTrue(t *Term) bool {
	if t == nil {
		return false
	}
	b, ok := t.boolVal()
	return ok && b
}

// unexported helpers that are roots of their own here
func (p *Program) callersOf(name string) *ssa.Function { return p.Func("Parser." + name) }

// scanMarks: an object found by scanning is marked as clear exactly when its dictionary has
// Type XRef.
func scanMarks(p *Program, r *Report) {
	root := r.anchor(p, "Parser.findObjects")
	if root == nil {
		return
	}
	e := NewEngine(p)
	e.KeepFacts, e.NoContent, e.NoLookahead = true, true, true
	added := 0
	judge := func(st *State, pos string) {
		en := st.pins["entry"]
		if en == nil {
			return
		}
		g := st.pins["type"]
		is := 0
		if g != nil {
			is = e.Eval(st, e.Cmp(token.EQL, e.valOf(g), e.in.Str("XRef")))
			if e.Eval(st, e.okOf(g)) == 0 {
				is = 0
			}
		} else {
			is = -1
		}
		clear, mark := isFalse(e.cellOf(st, "XrefEntry.IsEncrypted", en)), isTrue(e.cellOf(st, "XrefEntry.IsXrefStream", en))
		ok := is == 1 && clear && mark || is == 0 && !clear && !mark
		r.ob(ok)
		if !ok {
			r.fail("scan", "Parser.findObjects", pos, "an object found by scanning is not marked as cross-reference stream exactly when its Type is XRef", st.Path())
		}
	}
	e.H.MapUpd = func(st *State, ctx *Ctx, in *ssa.MapUpdate, m, k, v *Term) {
		if typeStr(in.Map.Type()) == "map[int]*XrefEntry" {
			added++
			st.pins["entry"] = v
		}
	}
	e.H.After = func(st *State, c *Call) {
		switch {
		case c.Name == "Parser.ReadDictionary":
			st.pins["dict"] = c.Result
		case c.Name == "Parser.ReadObject":
			st.pins["dict"] = e.in.Pure("as:Dictionary", e.valOf(c.Result))
		case c.Name == "Dictionary.GetName" && c.Args[1] == e.in.Str("Type") && c.Args[0] == st.pins["dict"]:
			st.pins["type"] = c.Result
		case c.Name == "Dictionary.GetName" && c.Args[1] == e.in.Str("Type"):
			if v := e.Resolve(st, c.Args[0]); v == st.pins["dict"] {
				st.pins["type"] = c.Result
			}
		}
	}
	e.H.Edge = func(st *State, ctx *Ctx, from, to *ssa.BasicBlock) {
		if l := p.Loops(ctx.fn).ByHeader[to]; l != nil && ctx.parent == nil && l.kind(from, to) == edgeBack {
			judge(st, p.InstrPos(from.Instrs[len(from.Instrs)-1]))
			for _, k := range []string{"entry", "dict", "type"} {
				delete(st.pins, k)
			}
		}
	}
	e.H.Ret = func(st *State, ctx *Ctx, in *ssa.Return, res []*Term) { judge(st, p.InstrPos(in)) }
	e.Run(root, nil)
	r.finish(e, "findObjects")
	r.need("objects added by scanning", added, 1)
}

// xrefMarks: a cross-reference stream is marked as clear before it is read.
func xrefMarks(p *Program, r *Report) {
	root := r.anchor(p, "Parser.loadXref")
	if root == nil {
		return
	}
	e := NewEngine(p)
	e.KeepFacts, e.NoContent, e.NoLookahead, e.PureGetters = true, true, true, true
	reads, clears := 0, 0
	xref := func(st *State) *Term { return e.cellOf(st, "Parser.Xref", e.ParamTerm(0)) }
	e.H.Call = func(st *State, c *Call) {
		if c.Name != "Parser.GetObject" {
			return
		}
		reads++
		m := xref(st)
		ok := false
		if m != nil {
			if en := st.cells[e.mapCell("mapel", m, c.Args[1])]; en != nil {
				ok = isFalse(e.cellOf(st, "XrefEntry.IsEncrypted", en))
			}
		}
		r.ob(ok)
		if !ok {
			r.fail("section", "Parser.loadXref", p.InstrPos(c.In), "a cross-reference stream can be read before it is marked as not encrypted", st.Path())
		}
	}
	e.H.After = func(st *State, c *Call) {
		if c.Name == "Parser.ReadObjectHeader" {
			st.pins["header"] = c.Result
		}
		if c.Name == "Parser.GetObject" {
			st.pins["object"] = c.Result
		}
	}
	e.H.MapUpd = func(st *State, ctx *Ctx, in *ssa.MapUpdate, m, k, v *Term) {
		if typeStr(in.Map.Type()) == "map[int]*XrefEntry" {
			st.pins["at"], st.pins["added"] = k, v
		}
	}
	e.H.Store = func(st *State, ctx *Ctx, in *ssa.Store, addr, val *Term) {
		if !addr.is("faddr:XrefEntry.IsEncrypted") || isTrue(val) {
			return
		}
		clears++
		// the entry belongs to the object whose header was read, or to the stream itself
		m := xref(st)
		ok := false
		key := []*Term{}
		if h := st.pins["header"]; h != nil {
			key = append(key, e.valOf(h))
		}
		if o := st.pins["object"]; o != nil {
			if n := e.cellOf(st, "IndirectObject.Number", o); n != nil {
				key = append(key, n)
			}
		}
		key = append(key, e.cellKeys(st, m, addr.args[0])...)
		for _, k := range key {
			if m != nil && st.cells[e.mapCell("mapel", m, k)] == addr.args[0] && e.ownNumber(st, k) {
				ok = true
			}
		}
		r.ob(ok && isFalse(val))
		if !ok {
			r.fail("justified", "Parser.loadXref", p.InstrPos(in), "an object other than the cross-reference stream being loaded is marked as not encrypted", st.Path())
		}
	}
	e.Run(root, nil)
	r.finish(e, "loadXref")
	r.need("cross-reference streams read", reads, 1)
	r.need("marks of cross-reference streams", clears, 1)
	// the section's own stream is marked again after its entries have been recorded
}

// cellKeys lists the keys under which a map is known to hold a value.
func (e *Engine) cellKeys(st *State, m, v *Term) []*Term {
	var out []*Term
	for k, x := range st.cells {
		if k.is("mapel") && k.args[0] == m && x == v {
			out = append(out, k.args[1])
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// ownNumber: k is the number of the object whose header was read or which was fetched.
func (e *Engine) ownNumber(st *State, k *Term) bool {
	if h := st.pins["header"]; h != nil && k == e.valOf(h) {
		return true
	}
	if o := st.pins["object"]; o != nil && e.cellOf(st, "IndirectObject.Number", o) == k {
		return true
	}
	return false
}

// loadMarks: Load marks scanned cross-reference streams and the encryption dictionary before
// the password is set.
func loadMarks(p *Program, r *Report, root *ssa.Function) {
	e := NewEngine(p)
	e.KeepFacts, e.NoContent, e.NoLookahead = true, true, true
	iters, sets, clears := 0, 0, 0
	heavy := map[string]bool{"Parser.findXrefOffsets": true, "Parser.findObjects": true, "Parser.getStartXrefOffset": true, "Parser.loadXref": true}
	e.Opaque = func(f *ssa.Function) bool { n := calleeName(f); return baselineAPI[n] || heavy[n] }
	xref := func(st *State) *Term { return e.cellOf(st, "Parser.Xref", e.ParamTerm(0)) }
	var loopNext *ssa.Next
	e.H.Instr = func(st *State, ctx *Ctx, in ssa.Instruction) {
		if nx, ok := in.(*ssa.Next); ok && !nx.IsString {
			if rg, ok := nx.Iter.(*ssa.Range); ok && typeStr(rg.X.Type()) == "map[int]*XrefEntry" {
				loopNext = nx
			}
		}
	}
	e.H.Store = func(st *State, ctx *Ctx, in *ssa.Store, addr, val *Term) {
		if !addr.is("faddr:XrefEntry.IsEncrypted") || isTrue(val) {
			return
		}
		clears++
		en := addr.args[0]
		ok := false
		m := xref(st)
		for _, k := range e.cellKeys(st, m, en) {
			// the encryption dictionary
			for c, n := range st.cells {
				if n == k && c.is("faddr:Reference.Number") && e.isEncryptRef(st, c.args[0]) {
					ok = true
				}
			}
			// a scanned cross-reference stream whose entry points to it
			if k.is("x:1") && k.args[0].kind == 'n' {
				obj := e.in.Pure("x:2", k.args[0])
				xs := e.cellOf(st, "XrefEntry.IsXrefStream", obj)
				same := e.samePlace(st, en, obj)
				if xs != nil && e.Eval(st, xs) == 1 && same == 1 {
					ok = true
				}
			}
		}
		r.ob(ok)
		if !ok {
			r.fail("justified", "Parser.Load", p.InstrPos(in), "an object that is neither a cross-reference stream nor the encryption dictionary is marked as not encrypted", st.Path())
		}
	}
	e.H.Edge = func(st *State, ctx *Ctx, from, to *ssa.BasicBlock) {
		for _, in := range from.Instrs {
			if nx, ok := in.(*ssa.Next); ok && !nx.IsString {
				st.pins["item"] = e.V(st, ctx, nx)
			}
		}
		if loopNext == nil || loopNext.Block() != to || from == to {
			return
		}
		l := p.Loops(ctx.fn).ByHeader[to]
		if l == nil || l.kind(from, to) != edgeBack {
			return
		}
		n := st.pins["item"]
		if n == nil {
			return
		}
		iters++
		m := xref(st)
		if m == nil {
			return
		}
		en := st.cells[e.mapCell("mapel", m, e.in.Pure("x:1", n))]
		obj := e.in.Pure("x:2", n)
		pos := p.InstrPos(from.Instrs[len(from.Instrs)-1])
		if en == nil {
			return // other loops over entries
		}
		if en == obj {
			r.ob(true)
			return
		}
		xs := e.cellOf(st, "XrefEntry.IsXrefStream", obj)
		ok := xs != nil && e.Eval(st, xs) == 0 || e.samePlace(st, en, obj) == 0 || isFalse(e.cellOf(st, "XrefEntry.IsEncrypted", en))
		if ok {
			st.flags["repair"] = "1"
		}
		r.ob(ok)
		if !ok {
			r.fail("scanned stream", "Parser.Load", pos, "the entry of a cross-reference stream found by scanning can stay marked as encrypted", st.Path())
		}
	}
	e.H.Call = func(st *State, c *Call) {
		if c.Name != "Parser.SetPassword" && c.Name != "SecurityHandler.Init" || c.Inlined {
			return
		}
		sets++
		var enc *Term
		for k, v := range st.cells {
			if k.is("mapel") && k.args[1] == e.in.Str("Encrypt") {
				enc = v
			}
		}
		pos := p.InstrPos(c.In)
		if enc == nil {
			r.fail("encryption dictionary", "Parser.Load", pos, "the password is set without looking at the Encrypt entry", st.Path())
			return
		}
		isRef := e.in.Pure("is:*Reference", enc)
		if e.Eval(st, isRef) == 0 {
			r.ob(true)
			return
		}
		ref := e.in.Pure("as:*Reference", enc)
		n := e.cellOf(st, "Reference.Number", ref)
		m := xref(st)
		ok := false
		if n != nil && m != nil {
			okc, en := st.cells[e.mapCell("mapok", m, n)], st.cells[e.mapCell("mapel", m, n)]
			switch {
			case okc != nil && e.Eval(st, okc) == 0:
				ok = true
			case en != nil && e.Eval(st, e.Cmp(token.EQL, en, e.in.Nil())) == 1:
				ok = true
			case en != nil:
				ok = isFalse(e.cellOf(st, "XrefEntry.IsEncrypted", en))
			}
		}
		r.ob(ok)
		if !ok {
			r.fail("encryption dictionary", "Parser.Load", pos, "the password can be set before the encryption dictionary is marked as not encrypted", st.Path())
		}
	}
	e.Run(root, nil)
	r.finish(e, "Load")
	r.need("scanned objects compared with their entries", iters, 1)
	r.need("passwords set", sets, 1)
	r.need("marks in Load", clears, 1)
}

// isEncryptRef: ref is the value of the trailer's Encrypt entry.
func (e *Engine) isEncryptRef(st *State, ref *Term) bool {
	if !ref.is("as:*Reference") {
		return false
	}
	for k, v := range st.cells {
		if v == ref.args[0] && k.is("mapel") && k.args[1] == e.in.Str("Encrypt") {
			return true
		}
	}
	return false
}

// samePlace: two entries have the same offset on this path.
func (e *Engine) samePlace(st *State, a, b *Term) int {
	oa, ob := e.cellOf(st, "XrefEntry.Offset", a), e.cellOf(st, "XrefEntry.Offset", b)
	if oa == nil || ob == nil {
		return -1
	}
	if oa == ob {
		return 1
	}
	return e.Eval(st, e.Cmp(token.EQL, oa, ob))
}
