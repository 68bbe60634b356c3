package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C13"] = &Check{Rule: "on every path of SecurityHandler.Init the filter registered for each CF entry has the type its CFM names and the key length it declares, and the stream, string and file filters are the ones StmF, StrF and EEF name; each decryptor computes its algorithm; GetObject picks the filter the stream declares", Run: runC13}
}

// filterRun analyses the crypt filters SecurityHandler.Init sets up.
type filterRun struct {
	*initRun
	loops map[string]*travLoop
	t     *Traversal
	final bool
	regs  int
}

func (x *filterRun) cf() *Term { return x.e.valOf(x.e.get(x.enc, "GetDictionary", "CF")) }

// kind names the filter type of a value.
func filterKind(v *Term) string {
	for _, k := range []string{"None", "RC4", "AES"} {
		if v.is("iface:*CryptFilter" + k) {
			return k
		}
	}
	return ""
}

// keyLengths lists the candidate lengths of a derived key.
func keyLengths(k *Term) []*Term {
	var out []*Term
	for k != nil && k.kind == 'u' {
		switch {
		case k.is("derived"):
			for _, a := range k.args {
				if a.typ != nil && isIntType(a.typ) || a.isConst() {
					out = append(out, a)
				}
			}
			return out
		case k.is("slice") && (k.args[1].isNil() || isZeroInt(k.args[1])):
			out = append(out, k.args[2])
			k = k.args[0]
		default:
			return out
		}
	}
	return out
}

// cfLengthOK decides that hi is the key length of a crypt filter dictionary.
func (x *filterRun) cfLengthOK(st *State, cfd, hi *Term) bool {
	e := x.e
	g := e.get(cfd, "GetInt", "Length")
	ln, ok := e.valOf(g), e.okOf(g)
	q := e.in.BinOp(token.QUO, ln, e.in.Int(8), types.Typ[types.Int])
	lt := func(t *Term, k int64) int { return e.Eval(st, e.Cmp(token.LSS, t, e.in.Int(k))) }
	switch e.Eval(st, ok) {
	case 0:
		return x.lengthOK(st, hi)
	case -1:
		return false
	}
	big := lt(ln, 17)
	if big == -1 {
		return false
	}
	base := ln
	if big == 0 {
		base = q
	}
	if v, isC := hi.intVal(); isC {
		switch v {
		case 5:
			return lt(base, 6) == 1 || big == 0 && lt(ln, 48) == 1
		case 16:
			return lt(base, 16) == 0 || big == 0 && lt(ln, 128) == 0
		}
		return false
	}
	if hi == base {
		lo, h, hl, hh := e.Range(st, base)
		return hl && lo >= 5 && hh && h <= 16
	}
	return x.clamped(st, hi, base)
}

func (x *filterRun) judgeFilter(st *State, v *Term, kind, pos, what string, lenOK func(hi *Term) bool) {
	got := filterKind(v)
	x.r.ob(got == kind)
	if got != kind {
		x.fail(what, pos, "the crypt filter is "+trunc(v.String(), 60)+" instead of "+kind, st)
		return
	}
	if kind == "None" {
		return
	}
	k := x.e.bytesField(st, "CryptFilter"+kind, v.args[0])
	good := false
	for _, l := range keyLengths(k) {
		good = good || lenOK(l)
	}
	x.r.ob(good)
	if !good {
		s := "nothing"
		if k != nil {
			s = trunc(k.String(), 100)
		}
		x.fail(what+" key", pos, "the key of the crypt filter does not have the declared length (got "+s+")", st)
	}
}

// entry judges what was registered for one CF entry.
func (x *filterRun) entry(st *State, pos string) {
	e := x.e
	k := st.pins["cfkey"]
	reg := st.pins["reg"]
	if k == nil {
		return
	}
	g := e.in.Pure("call:Dictionary.GetDictionary", x.cf(), k)
	cfd := e.valOf(g)
	cfm := e.get(cfd, "GetName", "CFM")
	for _, m := range []struct{ name, kind string }{{"None", "None"}, {"V2", "RC4"}, {"AESV2", "AES"}} {
		conds := []Cond{{e.okOf(g), true}, {e.okOf(cfm), true}, {e.Cmp(token.EQL, e.valOf(cfm), e.in.Str(m.name)), true}}
		if e.refuted(st, conds) {
			continue
		}
		x.regs++
		if reg == nil {
			x.r.ob(false)
			x.fail("crypt filter "+m.name, pos, "a crypt filter with method "+m.name+" can be passed over", st)
			continue
		}
		x.judgeFilter(st, reg, m.kind, pos, "crypt filter "+m.name, func(hi *Term) bool { return x.cfLengthOK(st, cfd, hi) })
	}
}

// forget drops what is known about single CF entries.
func (x *filterRun) forget(st *State) {
	k := x.e.in.Pure("keysof", x.cf())
	delete(st.pins, "cfkey")
	delete(st.pins, "reg")
	one := func(t *Term) bool { return t.hasNode && (t.contains(k) || t.contains(x.cf())) }
	for t := range st.facts {
		if one(t) {
			delete(st.facts, t)
		}
	}
	for c := range st.cells {
		if one(c) || (c.is("mapel") || c.is("mapok")) && c.args[1].kind == 'n' || c.is("iaddr") && c.args[0] == k {
			delete(st.cells, c)
		}
	}
}

func (x *filterRun) field(st *State, name string) *Term {
	for k, v := range st.cells {
		if k.is("faddr:SecurityHandler."+name) && k.args[0] == x.e.ParamTerm(0) {
			return v
		}
	}
	return nil
}

// selected judges the filter chosen by a name in the encryption dictionary.
func (x *filterRun) selected(st *State, pos, key, field string, fallback func(v *Term)) {
	e := x.e
	v := x.field(st, field)
	m := x.field(st, "crypt_filters")
	if v == nil || m == nil {
		x.r.ob(false)
		x.fail(field, pos, "the "+field+" is not set", st)
		return
	}
	g := e.get(x.enc, "GetName", key)
	nok := e.Eval(st, e.okOf(g))
	el, ok := st.cells[e.mapCell("mapel", m, e.valOf(g))], st.cells[e.mapCell("mapok", m, e.valOf(g))]
	have := -1
	if ok != nil {
		have = e.Eval(st, ok)
		if have == -1 && el != nil {
			have = e.Eval(st, e.Cmp(token.NEQ, el, e.in.Nil()))
		}
	}
	switch {
	case nok == 1 && have == 1:
		x.r.ob(v == el)
		if v != el {
			x.fail(key, pos, "the filter named by "+key+" is not used as "+field, st)
		}
	case nok == 0 || have == 0:
		fallback(v)
	default:
		x.r.ob(false)
		x.fail(key, pos, "the "+field+" is chosen without looking up the crypt filter named by "+key, st)
	}
}

func runFilters(p *Program, r *Report) {
	loops := map[string]*travLoop{}
	for pass := 0; pass < 2; pass++ {
		rr := r
		if pass == 0 {
			rr = newReport(r.Prop)
		}
		ir := newInitRun(p, rr)
		if ir == nil {
			return
		}
		e := ir.e
		e.Buffers, e.Skip, e.MaxUnroll = false, nil, 9
		e.MaxDepth, e.NoContent = 12, true
		e.H = Hooks{}
		x := &filterRun{initRun: ir, loops: loops, final: pass == 1}
		x.t = &Traversal{e: e, r: rr, name: "CF entries", first: 0, step: 1, loops: loops}
		if x.final {
			x.t.AtEnd = func(st *State, ctx *Ctx, pos string) {
				x.entry(st, pos)
				delete(st.pins, "reg")
				delete(st.pins, "cfkey")
			}
		}
		e.Opaque = func(f *ssa.Function) bool {
			n := calleeName(f)
			return n != "SecurityHandler.Init" && (baselineAPI[n] || p.hashes(f))
		}
		e.H.Model = func(st *State, c *Call) *Term {
			if c.Fn != nil && p.InRepo(c.Fn) && p.hashes(c.Fn) {
				return e.in.PureT(types.NewSlice(types.Typ[types.Byte]), "derived", c.Args...)
			}
			return nil
		}
		keys := func() *Term { return e.in.Pure("keysof", x.cf()) }
		e.H.Instr = func(st *State, ctx *Ctx, in ssa.Instruction) {
			ia, ok := in.(*ssa.IndexAddr)
			if !ok {
				return
			}
			if s := e.V(st, ctx, ia.X); s.is("keysof") && s.args[0] == x.cf() {
				x.t.Visit(st, ctx, ia.Index, s, p.InstrPos(in))
			}
		}
		_ = keys
		e.H.Call = func(st *State, c *Call) {
			if c.Name == "Dictionary.GetDictionary" && c.Args[0] == x.cf() {
				st.pins["cfkey"] = c.Args[1]
				x.t.VisitKey(st, c.Ctx, c.Args[1], p.InstrPos(c.In))
			}
		}
		e.H.MapUpd = func(st *State, ctx *Ctx, in *ssa.MapUpdate, m, k, v *Term) {
			if typeStr(in.Map.Type()) != "map[string]CryptFilter" {
				return
			}
			if s, ok := k.strVal(); ok {
				if s == "Identity" {
					st.flags["identity"] = filterKind(v)
				}
				return
			}
			if k == st.pins["cfkey"] {
				st.pins["reg"] = v
				return
			}
			x.fail("registration", p.InstrPos(in), "a crypt filter is registered under a name other than its own", st)
		}
		e.H.Edge = func(st *State, ctx *Ctx, from, to *ssa.BasicBlock) {
			x.t.Edge(st, ctx, from, to)
			for _, tl := range loops {
				if k := tl.loop.kind(from, to); tl.loop.Header.Parent() == ctx.fn && (k == edgeBack || k == edgeExit) {
					x.forget(st)
				}
			}
		}
		e.H.Ret = func(st *State, ctx *Ctx, in *ssa.Return, res []*Term) {
			x.exits++
			if !res[len(res)-1].isNil() {
				return
			}
			x.nils++
			pos := p.InstrPos(in)
			if !x.final {
				return
			}
			file := func(what string) func(v *Term) {
				return func(v *Term) {
					x.judgeFilter(st, v, "RC4", pos, what, func(hi *Term) bool { return x.lengthOK(st, hi) })
				}
			}
			r4 := e.Eval(st, e.Cmp(token.EQL, x.num("R"), e.in.Int(4)))
			if r4 == -1 {
				x.fail("revision", pos, "crypt filters are set up without distinguishing revision 4", st)
				return
			}
			if r4 == 0 {
				for _, f := range []string{"stream_filter", "string_filter", "file_filter"} {
					if v := x.field(st, f); v == nil {
						x.fail(f, pos, "the "+f+" is not set", st)
					} else {
						file("default " + f)(v)
					}
				}
				return
			}
			if st.flags["identity"] != "None" {
				x.fail("Identity", pos, "the Identity crypt filter is not registered as a filter that leaves data unchanged", st)
			}
			if st.flags["entered:CF entries"] == "" && !e.refuted(st, []Cond{{e.okOf(e.get(x.enc, "GetDictionary", "CF")), true}}) {
				x.fail("CF entries", pos, "the crypt filters of CF can be passed over", st)
			}
			x.selected(st, pos, "StmF", "stream_filter", file("default stream_filter"))
			x.selected(st, pos, "StrF", "string_filter", file("default string_filter"))
			x.selected(st, pos, "EEF", "file_filter", func(v *Term) {
				ok := v == x.field(st, "stream_filter")
				x.r.ob(ok)
				if !ok {
					x.fail("default file_filter", pos, "embedded files do not fall back to the stream filter", st)
				}
			})
		}
		x.setup = func() {
			if x.final {
				return
			}
		}
		x.run()
		if x.final {
			r.need("registered crypt filters judged", x.regs, 3)
			if len(loops) == 0 {
				r.fail("CF entries", "SecurityHandler.Init", p.Pos(x.root.Pos()), "no loop visits the crypt filters of CF", nil)
			}
		}
	}
}

func runC13(p *Program, r *Report) {
	runFilters(p, r)
	runC13Object(p, r)
	runDecryptors(p, r)
}

// ------------------------------------------------------------ objects

// objRun analyses GetObject: which decryptors and filter lists its readers get.
type objRun struct {
	p    *Program
	r    *Report
	e    *Engine
	root *ssa.Function
	// judgements
	ReadObject func(x *objRun, st *State, c *Call)
	ReadStream func(x *objRun, st *State, c *Call, list, parms *Term)
	keep       map[string]bool // keys whose lookups are remembered
	objects    int
	streams    int
}

func (x *objRun) fail(rule, pos, msg string, st *State) {
	x.r.fail(rule, "Parser.GetObject", pos, msg, st.Path())
}

func (x *objRun) parser() *Term { return x.e.ParamTerm(0) }
func (x *objRun) number() *Term { return x.e.ParamTerm(1) }

// entry is the cross-reference entry of the object.
func (x *objRun) entry(st *State) *Term {
	for k, v := range st.cells {
		if !k.is("mapel") || k.args[1] != x.number() {
			continue
		}
		for f, m := range st.cells {
			if m == k.args[0] && f.is("faddr:Parser.Xref") {
				return v
			}
		}
	}
	return nil
}

func (x *objRun) entryField(st *State, name string) *Term {
	if en := x.entry(st); en != nil {
		for k, v := range st.cells {
			if k.is("faddr:XrefEntry."+name) && k.args[0] == en {
				return v
			}
		}
	}
	return nil
}

// encrypted: 1 the object has to be decrypted, 0 it has to be left alone, -1 not decided.
func (x *objRun) encrypted(st *State) int {
	var sh *Term
	for k, v := range st.cells {
		if k.is("faddr:Parser.security_handler") && k.args[0] == x.parser() {
			sh = v
		}
	}
	en := -1
	if f := x.entryField(st, "IsEncrypted"); f != nil {
		en = x.e.Eval(st, f)
	}
	has := -1
	if sh != nil {
		has = x.e.Eval(st, x.e.Cmp(token.NEQ, sh, x.e.in.Nil()))
	}
	switch {
	case en == 0 || has == 0:
		return 0
	case en == 1 && has != 0:
		return 1
	}
	return -1
}

// handlerField finds the value of a security handler field.
func (x *objRun) handlerField(st *State, name string) *Term {
	for k, v := range st.cells {
		if k.is("faddr:SecurityHandler." + name) {
			for f, sh := range st.cells {
				if f.is("faddr:Parser.security_handler") && sh == k.args[0] {
					return v
				}
			}
		}
	}
	return nil
}

// parts splits a decryptor value into crypt filter, number and generation.
func (x *objRun) parts(dec *Term) (filter, n, g *Term) {
	if dec.is("newdec") {
		return dec.args[0], dec.args[1], dec.args[2]
	}
	if dec.is("iface:*DecryptorNone") {
		return x.e.in.PureT(nil, "iface:*CryptFilterNone", x.e.in.Nil()), nil, nil
	}
	return nil, nil, nil
}

func addrRoot(t *Term) any {
	for t != nil && (t.is("iaddr") || t.is("slice")) {
		t = t.args[0]
	}
	return t.val
}

func runObject(p *Program, r *Report, x *objRun) {
	x.p, x.r = p, r
	x.root = r.anchor(p, "Parser.GetObject")
	if x.root == nil {
		return
	}
	x.e = NewEngine(p)
	e := x.e
	e.KeepFacts, e.NoContent = true, true
	e.H.Model = func(st *State, c *Call) *Term {
		if c.Name == "iface CryptFilter.NewDecryptor" {
			return e.in.PureT(c.In.(ssa.Value).Type(), "newdec", c.Args...)
		}
		if c.Fn != nil && c.Fn.Name() == "NewDecryptor" && c.Fn.Signature.Recv() != nil && len(c.Args) == 3 {
			f := e.in.PureT(c.Args[0].typ, "iface:"+typeStr(c.Fn.Signature.Recv().Type()), c.Args[0])
			return e.in.PureT(c.In.(ssa.Value).Type(), "newdec", f, c.Args[1], c.Args[2])
		}
		return nil
	}
	e.H.After = func(st *State, c *Call) {
		if c.Name == "Parser.ReadObject" {
			st.pins["value"] = c.Result
		}
		if x.keep != nil && len(c.Args) == 2 {
			if k, ok := c.Args[1].strVal(); ok && x.keep[k] {
				st.pins["get:"+c.Name+":"+k] = c.Result
			}
		}
		if v := st.pins["value"]; v != nil && c.Name == "Dictionary.GetName" && c.Args[1] == e.in.Str("Type") {
			if d := c.Args[0]; d.is("as:Dictionary") && d.args[0] == e.valOf(v) || isMake(d) {
				st.pins["type"] = c.Result
			}
		}
	}
	e.H.Store = func(st *State, ctx *Ctx, in *ssa.Store, addr, val *Term) {
		if a, ok := addrRoot(addr).(*ssa.Alloc); ok && x.keep != nil && addr.is("iaddr") && isZeroInt(addr.args[1]) && a.Comment == "slicelit" {
			st.pins[fmt.Sprintf("single:%d", root0(addr.args[0]).id)] = val
		}
	}
	e.H.Call = func(st *State, c *Call) {
		switch c.Name {
		case "Parser.ReadObject":
			x.objects++
			if x.ReadObject != nil {
				x.ReadObject(x, st, c)
			}
		case "Parser.ReadStream":
			x.streams++
			if x.ReadStream != nil {
				x.ReadStream(x, st, c, c.Args[2], c.Args[3])
			}
		}
	}
	e.Run(x.root, nil)
	r.finish(e, "GetObject")
	r.need("objects read", x.objects, 1)
	r.need("streams read", x.streams, 1)
	r.Sites += x.objects + x.streams
	r.sample("Parser.GetObject: %d abstract object reads and %d abstract stream reads judged", x.objects, x.streams)
}

// isMake: a map made here.
func isMake(t *Term) bool {
	if t.kind != 'n' {
		return false
	}
	_, ok := t.val.(*ssa.MakeMap)
	return ok
}

func isNoFilter(f *Term) bool { return f != nil && filterKind(f) == "None" }

// streamDict finds the dictionary whose entries decide about a stream: the receiver of the
// lookups of the Filter entry.
func (x *objRun) getOf(t *Term, name string) *Term {
	if t.hasOp("x:") && len(t.args) == 1 && t.args[0].is("call:"+name) {
		return t.args[0]
	}
	return nil
}

func runStreamFilter(x *objRun, st *State, c *Call, list, parms *Term) {
	e := x.e
	pos := x.p.InstrPos(c.In)
	ob := func(ok bool, rule, msg string) {
		x.r.ob(ok)
		if !ok {
			x.fail(rule, pos, msg, st)
		}
	}
	f, _, _ := x.parts(c.Args[1])
	if f == nil {
		ob(false, "stream decryptor", "the stream is read with a decryptor that does not come from a crypt filter")
		return
	}
	enc := x.encrypted(st)
	if enc == -1 {
		ob(false, "stream decryptor", "the stream is read without checking whether the object is encrypted")
		return
	}
	base, cut := list, false
	if list.is("slice") && list.args[1] == e.in.Int(1) && list.args[2].isNil() {
		base, cut = list.args[0], true
	}
	first := e.in.Pure("call:Array.GetName", base, e.in.Int(0))
	isCrypt := e.Eval(st, e.Cmp(token.EQL, e.valOf(first), e.in.Str("Crypt")))
	if ln := e.Len(st, base, nil); e.Eval(st, e.Cmp(token.LSS, e.in.Int(0), ln)) == 0 || e.Eval(st, e.okOf(first)) == 0 {
		isCrypt = 0
	}
	if cut {
		ob(isCrypt == 1, "filter list", "a filter other than a leading Crypt filter is dropped from the filter list")
	} else if enc == 1 {
		ob(isCrypt == 0, "filter list", "a leading Crypt filter is not dropped from the filter list, or not looked for")
	}
	if enc == 0 {
		ob(isNoFilter(f), "stream decryptor", "the stream of an object that is not encrypted is decrypted")
		return
	}
	// default by type
	def := func() {
		g := st.pins["type"]
		want := -1
		if g != nil {
			want = e.Eval(st, e.Cmp(token.EQL, e.valOf(g), e.in.Str("EmbeddedFile")))
			if e.Eval(st, e.okOf(g)) == 0 {
				want = 0
			}
		}
		switch want {
		case 1:
			ob(f == x.handlerField(st, "file_filter"), "embedded file", "an embedded file stream is not decrypted with the filter for embedded files")
		case 0:
			ob(f == x.handlerField(st, "stream_filter"), "stream", "a stream is not decrypted with the filter for streams")
		default:
			ob(false, "stream", "the crypt filter of a stream is chosen without checking whether it is an embedded file")
		}
	}
	if isCrypt != 1 {
		def()
		return
	}
	// named filter
	pbase, pcut := parms, false
	if parms.is("slice") && parms.args[1] == e.in.Int(1) && parms.args[2].isNil() {
		pbase, pcut = parms.args[0], true
	}
	if !pcut {
		ob(e.Eval(st, e.Cmp(token.LSS, e.in.Int(0), e.Len(st, pbase, nil))) == 0, "parameter list", "the parameters of the Crypt filter are not dropped from the parameter list")
	}
	name := e.get(e.valOf(e.in.Pure("call:Array.GetDictionary", pbase, e.in.Int(0))), "GetName", "Name")
	key := e.valOf(name)
	switch e.Eval(st, e.okOf(name)) {
	case 0:
		key = e.in.Str("Identity")
	case -1:
		ob(false, "crypt filter name", "the Crypt filter's Name is not looked up")
		return
	}
	m := x.handlerField(st, "crypt_filters")
	if m == nil {
		ob(false, "crypt filter", "the crypt filter named by the stream is not looked up")
		return
	}
	el, ok := st.cells[e.mapCell("mapel", m, key)], st.cells[e.mapCell("mapok", m, key)]
	have := -1
	if ok != nil {
		have = e.Eval(st, ok)
		if have == -1 && el != nil {
			have = e.Eval(st, e.Cmp(token.NEQ, el, e.in.Nil()))
		}
	}
	switch have {
	case 1:
		ob(f == el, "crypt filter", "the stream is not decrypted with the crypt filter it names")
	case 0:
		def()
	default:
		ob(false, "crypt filter", "the crypt filter named by the stream is not looked up")
	}
}

func runC13Object(p *Program, r *Report) {
	runObject(p, r, &objRun{
		ReadObject: func(x *objRun, st *State, c *Call) {
			f, _, _ := x.parts(c.Args[1])
			pos := p.InstrPos(c.In)
			ok := false
			switch x.encrypted(st) {
			case 0:
				ok = isNoFilter(f)
			case 1:
				ok = f != nil && f == x.handlerField(st, "string_filter")
			}
			r.ob(ok)
			if !ok {
				x.fail("strings", pos, "the strings of an object are not decrypted with the filter for strings exactly when the object is encrypted", st)
			}
		},
		ReadStream: runStreamFilter,
	})
}

// aesPadding judges the end of decrypted data: a last byte of 1 to 16 is the number of bytes to
// remove, with any other last byte nothing is removed.
func aesPadding(e *Engine, st *State, hi, n *Term) string {
	var last *Term
	for k, v := range st.cells {
		if k.is("iaddr") && e.in.linAdd(e.Len(st, k.args[0], nil), k.args[1], -1, types.Typ[types.Int]) == e.in.Int(1) {
			last = v
		}
	}
	valid := setRange(1, 16)
	if hi == nil {
		if last != nil && e.Bytes(st, last).and(valid).empty() {
			return ""
		}
		return "the padding is not removed"
	}
	cut := e.in.linAdd(e.in.linAdd(n, e.in.Int(16), -1, types.Typ[types.Int]), hi, -1, types.Typ[types.Int])
	for cut.hasOp("conv:") {
		cut = cut.args[0]
	}
	switch {
	case last == nil:
		return "the padding length is not taken from the last byte"
	case isZeroInt(cut):
		if !e.Bytes(st, last).and(valid).empty() {
			return "the padding is not removed"
		}
	case cut == last:
		if !e.Bytes(st, last).subsetOf(setRange(0, 16)) {
			return "more bytes than the padding can have are removed"
		}
	default:
		return "the number of bytes removed is not the padding length"
	}
	return ""
}

// decryptor bodies
func runDecryptors(p *Program, r *Report) {
	if root := r.anchor(p, "CryptFilterNone.NewDecryptor"); root != nil {
		e := NewEngine(p)
		e.Opaque = func(f *ssa.Function) bool { return false }
		n := 0
		e.H.Ret = func(st *State, ctx *Ctx, in *ssa.Return, res []*Term) {
			n++
			ok := res[0].is("iface:*DecryptorNone")
			r.ob(ok)
			if !ok {
				r.fail("identity", "CryptFilterNone.NewDecryptor", p.InstrPos(in), "the Identity filter does not leave data unchanged", st.Path())
			}
		}
		e.Run(root, nil)
		r.finish(e, fnName(root))
	}
	for _, alg := range []string{"None", "RC4", "AES"} {
		name := "Decryptor" + alg + ".Decrypt"
		root := r.anchor(p, name)
		if root == nil {
			continue
		}
		e := NewEngine(p)
		e.KeepFacts, e.Buffers = true, true
		e.Opaque = func(f *ssa.Function) bool { return false }
		var data, key *Term
		exits, full := 0, 0
		e.H.Model = func(st *State, c *Call) *Term {
			switch c.Name {
			case "crypto/aes.NewCipher":
				t := e.in.Pure("aes", e.Content(st, c.Args[0]))
				return e.in.Pure("tuple", t, e.in.Pure("aeserr", e.Content(st, c.Args[0])))
			case "crypto/cipher.NewCBCDecrypter":
				return e.in.Pure("cbc", c.Args[0], e.Content(st, c.Args[1]))
			case "iface crypto/cipher.BlockMode.CryptBlocks", "iface cipher.BlockMode.CryptBlocks":
				st.flags["crypt"] = "1"
				e.SetContent(st, c.Ctx, c.In, c.Args[1], e.in.Pure("cbcdec", c.Args[0], e.Content(st, c.Args[2])))
				return e.in.Nil()
			}
			return nil
		}
		e.H.Ret = func(st *State, ctx *Ctx, in *ssa.Return, res []*Term) {
			exits++
			pos := p.InstrPos(in)
			v := res[0]
			got := e.Content(st, v)
			fail := func(msg string) {
				r.ob(false)
				r.fail("decrypt", name, pos, msg+" (got "+trunc(got.String(), 160)+")", st.Path())
			}
			raw := v == data && st.flags["crypt"] == ""
			switch alg {
			case "None":
				if !raw {
					fail("data is not returned unchanged")
				}
			case "RC4":
				want := e.in.Pure("xor", e.in.Pure("rc4", e.in.Pure("bytesof", key)), e.in.Pure("bytesof", data))
				if got != want {
					fail("data is not decrypted with RC4 and the object's key")
				} else {
					full++
				}
			case "AES":
				n := e.Len(st, data, nil)
				if raw {
					rem := e.in.BinOp(token.REM, n, e.in.Int(16), types.Typ[types.Int])
					if e.Eval(st, e.Cmp(token.LSS, n, e.in.Int(32))) != 1 && e.Eval(st, e.Cmp(token.EQL, rem, e.in.Int(0))) != 0 &&
						e.Eval(st, e.Cmp(token.EQL, e.in.Pure("aeserr", e.in.Pure("bytesof", key)), e.in.Nil())) != 0 {
						fail("encrypted data can be returned without being decrypted")
					}
					return
				}
				c := got
				var hi *Term
				if c.is("sub") && (c.args[1].isNil() || isZeroInt(c.args[1])) {
					hi, c = c.args[2], c.args[0]
				}
				iv := e.sub(e.in.Pure("bytesof", data), e.in.Int(0), e.in.Int(16))
				mode := e.in.Pure("cbc", e.in.Pure("aes", e.in.Pure("bytesof", key)), iv)
				want := e.in.Pure("cbcdec", mode, e.sub(e.in.Pure("bytesof", data), e.in.Int(16), e.in.Nil()))
				if c != want {
					fail("data is not decrypted with AES in CBC mode with the first block as initialization vector")
					return
				}
				full++
				if why := aesPadding(e, st, hi, n); why != "" {
					fail(why)
					return
				}
			}
			r.ob(true)
		}
		e.Run(root, func(st *State, ctx *Ctx) {
			data = e.ParamTerm(1)
			key = e.in.Param("objectkey", types.NewSlice(types.Typ[types.Byte]))
			if alg != "None" {
				seedBytesField(e, st, "Decryptor"+alg, e.ParamTerm(0), key)
			}
		})
		r.finish(e, name)
		r.need(name+" exits", exits, 1)
		if alg != "None" {
			r.need(name+" decrypting exits", full, 1)
		}
		r.sample("%s: %d abstract exits, %d decrypting", name, exits, full)
	}
}
