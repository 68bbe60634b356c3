package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C14"] = &Check{Rule: "byte-level normal form of every hash input, derived key and check value built by the crypt filters and by SecurityHandler.Init, on every path, compared with the standard's recipe", Run: runC14}
	checks["C10"] = &Check{Rule: "on every path of SecurityHandler.Init a nil error implies that every required entry was found, the scheme is supported and the derived check value compared equal with U; each error value is returned only when its reason applies; Load returns Init's error whenever the trailer has Encrypt", Run: runC10}
}

// ------------------------------------------------------------ byte normal form

// nform renders the bytes of a content term in a canonical way: constant bytes, bytes of
// integers and whole unknown strings in order.
type nform struct {
	e  *Engine
	st *State
}

// docPath names a value looked up in the document by its path from the root parameters.
func (n *nform) docPath(t *Term) string {
	t = strip(t)
	if t.hasOp("x:0") && len(t.args) == 1 {
		g := t.args[0]
		if (g.hasOp("call:Dictionary.Get") || g.hasOp("call:Array.Get")) && len(g.args) == 2 {
			key := ""
			if s, ok := g.args[1].strVal(); ok {
				key = s
			} else if i, ok := g.args[1].intVal(); ok {
				key = strconv.FormatInt(i, 10)
			} else {
				key = "#" + strconv.Itoa(g.args[1].id)
			}
			return n.docPath(g.args[0]) + "/" + key
		}
	}
	if t.hasOp("conv:") && len(t.args) == 1 && t.args[0].hasOp("x:0") {
		return n.docPath(t.args[0]) // int(number)
	}
	if t.kind == 'p' {
		return "$" + t.op
	}
	return "t" + strconv.Itoa(t.id)
}

// intByte names byte i (little endian) of an integer term.
func (n *nform) intByte(t *Term, i int) string {
	for t.hasOp("conv:") && len(t.args) == 1 {
		switch t.op {
		case "conv:uint32", "conv:uint64", "conv:uint", "conv:int32", "conv:int64", "conv:int", "conv:uint16":
			if t.op == "conv:uint16" && i >= 2 || strings.HasSuffix(t.op, "32") && i >= 4 {
				return "?"
			}
			if t.args[0].typ != nil {
				if b, ok := t.args[0].typ.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
					return "b" + n.docPath(t) + ":" + strconv.Itoa(i)
				}
			}
			t = t.args[0]
			continue
		}
		break
	}
	if v, ok := t.intVal(); ok {
		return "c" + strconv.Itoa(int(v>>(8*uint(i)))&0xff)
	}
	return "b" + n.docPath(t) + ":" + strconv.Itoa(i)
}

// byteOf names the byte value of a byte-typed term.
func (n *nform) byteOf(t *Term) string {
	if v, ok := t.intVal(); ok {
		return "c" + strconv.Itoa(int(v)&0xff)
	}
	x := t
	if x.hasOp("conv:uint8") || x.hasOp("conv:byte") {
		x = x.args[0]
	}
	for x.is("&") {
		if v, ok := x.args[0].intVal(); ok && v == 255 {
			x = x.args[1]
		} else if v, ok := x.args[1].intVal(); ok && v == 255 {
			x = x.args[0]
		} else {
			break
		}
	}
	sh := 0
	for {
		if x.is(">>") {
			if v, ok := x.args[1].intVal(); ok && v%8 == 0 {
				sh += int(v / 8)
				x = x.args[0]
				continue
			}
		}
		if x.is("/") { // division of a non-negative number
			if v, ok := x.args[1].intVal(); ok && (v == 256 || v == 65536) {
				break
			}
		}
		if x.hasOp("conv:uint32") || x.hasOp("conv:uint64") || x.hasOp("conv:uint") {
			if x.args[0].typ != nil && isIntType(x.args[0].typ) {
				x = x.args[0]
				continue
			}
		}
		break
	}
	return n.intByte(x, sh)
}

// atoms lists the pieces of a content term.
func (n *nform) atoms(t *Term) []string {
	if s, ok := n.e.constBytes(t); ok {
		var out []string
		for i := 0; i < len(s); i++ {
			out = append(out, "c"+strconv.Itoa(int(s[i])))
		}
		return out
	}
	if t.isNil() {
		return nil
	}
	if t.kind == 'u' {
		switch {
		case t.op == "str" || t.op == "bytes" || t.op == "bytesof" || strings.HasPrefix(t.op, "iface:"):
			return n.atoms(t.args[0])
		case t.op == "cat":
			var out []string
			for _, a := range t.args {
				out = append(out, n.atoms(a)...)
			}
			return out
		case t.op == "lit":
			var out []string
			for _, a := range t.args {
				out = append(out, n.byteOf(a))
			}
			return out
		case t.op == "le32" || t.op == "be32":
			out := make([]string, 4)
			for i := range out {
				j := i
				if t.op == "be32" {
					j = 3 - i
				}
				out[i] = n.intByte(t.args[0], j)
			}
			return out
		case t.op == "md5":
			return []string{"md5{" + n.str(t.args[0]) + "}"}
		case t.op == "rc4":
			return []string{"rc4{" + n.str(t.args[0]) + "}"}
		case t.op == "xoreach":
			if isZeroInt(t.args[0]) {
				return n.atoms(t.args[1])
			}
			return []string{"xor" + t.args[0].String() + "{" + n.str(t.args[1]) + "}"}
		case t.op == "xor":
			var keys []string
			d := t
			for d.is("xor") {
				keys = append(keys, n.str(d.args[0]))
				d = d.args[1]
				for d.is("str") || d.is("bytes") || d.is("bytesof") {
					d = d.args[0]
				}
			}
			sort.Strings(keys)
			return []string{"enc{" + strings.Join(keys, "|") + "||" + n.str(d) + "}"}
		case t.op == "sub":
			return n.sub(t)
		}
	}
	return []string{n.docPath(t)}
}

func fixedAtom(a string) int {
	switch {
	case a[0] == 'c' || a[0] == 'b':
		return 1
	case strings.HasPrefix(a, "md5{"):
		return 16
	}
	return -1
}

func (n *nform) sub(t *Term) []string {
	in := n.atoms(t.args[0])
	lo, okL := t.args[1].intVal()
	hi, okH := t.args[2].intVal()
	if t.args[1].isNil() {
		lo, okL = 0, true
	}
	total := int64(0)
	for _, a := range in {
		k := fixedAtom(a)
		if k < 0 {
			total = -1
			break
		}
		total += int64(k)
	}
	if okL && lo == 0 && total >= 0 && (t.args[2].isNil() || okH && hi == total) {
		return in
	}
	if okL && (okH || t.args[2].isNil() && total >= 0) {
		if !okH {
			hi = total
		}
		var out []string
		pos, good := int64(0), true
		for _, a := range in {
			if pos >= hi {
				break
			}
			k := int64(fixedAtom(a))
			if k < 0 {
				good = false
				break
			}
			switch {
			case pos+k <= lo:
			case pos >= lo && pos+k <= hi:
				out = append(out, a)
			default:
				good = false
			}
			pos += k
		}
		if good && pos >= hi {
			return out
		}
	}
	lt := "0"
	if !(okL && lo == 0) {
		lt = t.args[1].String()
	}
	return []string{"sub{" + strings.Join(in, ",") + ";" + lt + ";" + n.bound(t.args[2]) + "}"}
}

func (n *nform) bound(t *Term) string {
	if v, ok := t.intVal(); ok {
		return strconv.FormatInt(v, 10)
	}
	return "#" + strconv.Itoa(t.id)
}

func (n *nform) str(t *Term) string {
	if t.op == "md5" || t.op == "sub" || t.kind == 'u' {
		if s, ok := nfCache[nfKey{n.e, t}]; ok {
			return s
		}
		s := strings.Join(n.atoms(t), ",")
		nfCache[nfKey{n.e, t}] = s
		return s
	}
	return strings.Join(n.atoms(t), ",")
}

type nfKey struct {
	e *Engine
	t *Term
}

var nfCache = map[nfKey]string{}

func constAtoms(s string) []string {
	var out []string
	for i := 0; i < len(s); i++ {
		out = append(out, "c"+strconv.Itoa(int(s[i])))
	}
	return out
}

// eachXor summarises loops that set dst[i] = src[i] ^ k for every index of dst.
func eachXor(e *Engine) {
	prevStore, prevEdge := e.H.Store, e.H.Edge
	loopsOf := map[string]*Loop{}
	e.H.Store = func(st *State, ctx *Ctx, in *ssa.Store, addr, val *Term) {
		if prevStore != nil {
			prevStore(st, ctx, in, addr, val)
		}
		ia, ok := in.Addr.(*ssa.IndexAddr)
		if !ok || !addr.is("iaddr") || !e.byteElem(addr) {
			return
		}
		u := e.p.ivUse(ctx, ia.Index)
		if u == nil || u.Ctx != ctx {
			return
		}
		dst := addr.args[0]
		k := e.in.Int(0)
		el := val
		if val.is("^") {
			if val.args[0].isConst() {
				k, el = val.args[0], val.args[1]
			} else if val.args[1].isConst() {
				k, el = val.args[1], val.args[0]
			} else {
				return
			}
		}
		var src *Term
		for c, v := range st.cells {
			if v == el && c.is("iaddr") && c.args[1] == addr.args[1] {
				src = c.args[0]
				if src != dst {
					break
				}
			}
		}
		if src == nil {
			return
		}
		ok1, _ := e.covers(st, u, dst, 0, 1)
		ok2, _ := e.covers(st, u, src, 0, 1)
		if !ok1 || !ok2 {
			return
		}
		key := fmt.Sprintf("ew:%d:%d", ctx.id, u.Loop.Header.Index)
		loopsOf[key] = u.Loop
		st.pins[key+":dst"], st.pins[key+":k"] = dst, k
		if src != dst {
			st.pins[key+":src"] = e.Content(st, src)
		} else if pre, ok := st.pins[fmt.Sprintf("pre:%d:%d", ctx.id, u.Loop.Header.Index)]; ok {
			st.pins[key+":src"] = pre
		} else {
			delete(st.pins, key+":dst")
		}
	}
	e.H.Edge = func(st *State, ctx *Ctx, from, to *ssa.BasicBlock) {
		if prevEdge != nil {
			prevEdge(st, ctx, from, to)
		}
		ls := e.p.Loops(ctx.fn)
		if l := ls.ByHeader[to]; l != nil && l.kind(from, to) == edgeEnter {
			// content before an in-place update
			key := fmt.Sprintf("pre:%d:%d", ctx.id, l.Header.Index)
			delete(st.pins, key)
			for b := range l.Body {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok {
						if ia, ok := s.Addr.(*ssa.IndexAddr); ok {
							x := e.V(st, ctx, ia.X)
							if c, ok := st.cells[e.in.Pure(contentOp, x)]; ok {
								st.pins[key] = c
							}
						}
					}
				}
			}
		}
		for key, l := range loopsOf {
			if !strings.HasPrefix(key, fmt.Sprintf("ew:%d:", ctx.id)) || l.Header.Parent() != ctx.fn || l.kind(from, to) != edgeExit {
				continue
			}
			dst, src, k := st.pins[key+":dst"], st.pins[key+":src"], st.pins[key+":k"]
			for _, s := range []string{":dst", ":src", ":k"} {
				delete(st.pins, key+s)
			}
			delete(st.pins, strings.Replace(key, "ew:", "pre:", 1))
			if dst == nil || src == nil {
				continue
			}
			natural := false
			for _, in := range l.Header.Instrs {
				if phi, ok := in.(*ssa.Phi); ok {
					if iv := e.p.inductive(phi); iv != nil && e.p.loopBound(ctx.fn, l, iv, from) != nil {
						natural = true
					}
				}
			}
			if natural {
				st.cells[e.in.Pure(contentOp, root(dst))] = e.in.Pure("xoreach", k, src)
				for c := range st.cells {
					if c.is("iaddr") && e.byteElem(c) && (!c.args[1].isConst() || root(c.args[0]) == root(dst)) {
						delete(st.cells, c)
					}
				}
			}
		}
	}
}

// bytesField gives the value of the only byte slice field of the object at ptr.
func (e *Engine) bytesField(st *State, typ string, ptr *Term) *Term {
	for k, v := range st.cells {
		if k.hasOp("faddr:"+typ+".") && k.args[0] == ptr {
			return v
		}
	}
	return nil
}

// keyLimit decides that hi is min(len(key)+5, 16) on this path.
func (e *Engine) keyLimit(st *State, hi, ln *Term) bool {
	n5 := e.in.linAdd(ln, e.in.Int(5), 1, types.Typ[types.Int])
	if v, ok := hi.intVal(); ok {
		return v == 16 && (e.Eval(st, e.Cmp(token.GTR, n5, e.in.Int(16))) == 1 || e.Eval(st, e.Cmp(token.GEQ, n5, e.in.Int(16))) == 1)
	}
	if hi == n5 {
		return e.Eval(st, e.Cmp(token.GTR, n5, e.in.Int(16))) == 0
	}
	if hi.is("call:builtin min") && len(hi.args) == 2 {
		return hi.args[0] == n5 && hi.args[1] == e.in.Int(16) || hi.args[1] == n5 && hi.args[0] == e.in.Int(16)
	}
	return false
}

func runC14(p *Program, r *Report) {
	for _, alg := range []string{"RC4", "AES"} {
		name := "CryptFilter" + alg + ".NewDecryptor"
		root := r.anchor(p, name)
		if root == nil {
			continue
		}
		e := NewEngine(p)
		e.KeepFacts, e.Buffers = true, true
		e.MaxDepth = 40
		e.Opaque = func(f *ssa.Function) bool { return baselineAPI[calleeName(f)] && calleeName(f) != name }
		key := e.in.Param("filekey", types.NewSlice(types.Typ[types.Byte]))
		exits := 0
		e.H.Ret = func(st *State, ctx *Ctx, in *ssa.Return, res []*Term) {
			exits++
			pos := p.InstrPos(in)
			v := res[0]
			if !v.is("iface:*Decryptor" + alg) {
				r.fail("object-key", name, pos, "does not return a "+alg+" decryptor", st.Path())
				return
			}
			k := e.bytesField(st, "Decryptor"+alg, v.args[0])
			if k == nil {
				r.fail("object-key", name, pos, "the decryptor has no key", st.Path())
				return
			}
			c := e.Content(st, k)
			n := &nform{e, st}
			nn, g := n.docPath(e.ParamTerm(1)), n.docPath(e.ParamTerm(2))
			want := []string{n.docPath(key), "b" + nn + ":0", "b" + nn + ":1", "b" + nn + ":2", "b" + g + ":0", "b" + g + ":1"}
			if alg == "AES" {
				want = append(want, constAtoms("sAlT")...)
			}
			hash := "md5{" + strings.Join(want, ",") + "}"
			full := c
			var hi *Term = e.in.Int(16)
			if c.is("sub") && isZeroInt(c.args[1]) {
				full, hi = c.args[0], c.args[2]
			}
			if got := n.str(full); got != hash {
				r.fail("object-key", name, pos, "the object key is not the MD5 of the file key, object number, generation"+map[string]string{"AES": " and salt"}[alg]+" (got "+trunc(got, 200)+", want "+hash+")", st.Path())
			} else if !e.keyLimit(st, hi, e.Len(st, key, nil)) {
				r.fail("object-key", name, pos, "the object key is not cut to min(length of the file key + 5, 16) bytes (got "+trunc(hi.String(), 80)+")", st.Path())
			}
		}
		e.Run(root, func(st *State, ctx *Ctx) { seedBytesField(e, st, "CryptFilter"+alg, e.ParamTerm(0), key) })
		r.finish(e, name)
		_, bad := r.Findings["object-key|"+name]
		r.ob(exits > 0 && !bad)
		r.need(name+" exits", exits, 1)
		r.sample("%s: %d abstract exits, key bytes compared with the recipe", name, exits)
	}
	x := newInitRun(p, r)
	if x == nil {
		return
	}
	x.recipe = true
	x.run()
	r.need("compared check values", x.compares, 2)
}

// seedBytesField makes the byte slice field of the object at ptr a known term.
func seedBytesField(e *Engine, st *State, typ string, ptr, val *Term) {
	s := e.p.Named(typ).Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if sl, ok := s.Field(i).Type().Underlying().(*types.Slice); ok && isByteType(sl.Elem()) {
			st.cells[e.in.PureT(types.NewPointer(s.Field(i).Type()), "faddr:"+typ+"."+s.Field(i).Name(), ptr)] = val
		}
	}
}

// ------------------------------------------------------------ SecurityHandler.Init

const paddingBytes = "\x28\xBF\x4E\x5E\x4E\x75\x8A\x41\x64\x00\x4E\x56\xFF\xFA\x01\x08\x2E\x2E\x00\xB6\xD0\x68\x3E\x80\x2F\x0C\xA9\xFE\x64\x53\x69\x7A"

// initRun analyses SecurityHandler.Init once, with all helpers looked through.
type initRun struct {
	p        *Program
	r        *Report
	e        *Engine
	root     *ssa.Function
	pw, tr   *Term
	enc      *Term
	recipe   bool // judge derivations (C14)
	errors   bool // judge returned errors (C10)
	compares int
	nils     int
	exits    int
	setup    func()
}

func newInitRun(p *Program, r *Report) *initRun {
	root := r.anchor(p, "SecurityHandler.Init")
	if root == nil {
		return nil
	}
	x := &initRun{p: p, r: r, root: root, e: NewEngine(p)}
	e := x.e
	e.KeepFacts, e.Buffers, e.PureGetters = true, true, true
	e.MaxUnroll, e.MaxDepth = 64, 4000
	e.Opaque = func(f *ssa.Function) bool {
		n := calleeName(f)
		return baselineAPI[n] && n != "SecurityHandler.Init"
	}
	eachXor(e)
	e.H.Ret = x.ret
	// once the check value has been compared the file key is not needed again
	e.H.Branch = func(st *State, ctx *Ctx, in *ssa.If, cond *Term, taken bool) {
		if st.flags["compared"] == "" && len(x.comparisons(st)) > 0 {
			st.flags["compared"] = "1"
		}
		if st.flags["compared"] != "" {
			// what is known about single crypt filters does not matter any more
			cf := e.get(x.enc, "GetDictionary", "CF")
			for k := range st.facts {
				if k.hasNode || k.contains(cf) {
					delete(st.facts, k)
				}
			}
			for k := range st.cells {
				if k.is("mapel") || k.is("mapok") || pointsToInterface(k.typ) {
					delete(st.cells, k)
				}
			}
			for k := range st.zero {
				delete(st.zero, k)
			}
		}
	}
	e.Skip = func(st *State, c *Call) bool { return st.flags["compared"] != "" && x.p.hashes(c.Fn) }
	return x
}

func pointsToInterface(t types.Type) bool {
	if t == nil {
		return false
	}
	p, ok := t.Underlying().(*types.Pointer)
	return ok && types.IsInterface(p.Elem())
}

// hashes reports that f computes an MD5 hash itself.
func (p *Program) hashes(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if n := commonName(c.Common()); n == "crypto/md5.New" || n == "crypto/md5.Sum" {
					return true
				}
			}
		}
	}
	return false
}

func (x *initRun) fail(rule, pos, msg string, st *State) {
	x.r.fail(rule, "SecurityHandler.Init", pos, msg, st.Path())
}

func (x *initRun) run() {
	e := x.e
	e.Run(x.root, func(st *State, ctx *Ctx) {
		for i, prm := range x.root.Params {
			switch t := prm.Type().Underlying().(type) {
			case *types.Map:
				x.tr = e.ParamTerm(i)
			case *types.Slice:
				_ = t
				x.pw = e.ParamTerm(i)
			}
		}
		x.enc = e.valOf(e.get(x.tr, "GetDictionary", "Encrypt"))
		if x.setup != nil {
			x.setup()
		}
	})
	x.r.finish(e, "SecurityHandler.Init")
	x.r.need("SecurityHandler.Init exits", x.exits, 5)
	x.r.need("SecurityHandler.Init successful exits", x.nils, 2)
	x.r.Sites += x.exits
	x.r.sample("SecurityHandler.Init: %d abstract exits, %d of them successful, %d compared check values", x.exits, x.nils, x.compares)
}

// okTerm is the success result of the lookup actually used for a key.
func (x *initRun) okTerm(st *State, recv *Term, kind string, key *Term, methods ...string) *Term {
	var first *Term
	for _, m := range methods {
		t := x.e.okOf(x.e.in.Pure("call:"+kind+"."+m, recv, key))
		if first == nil {
			first = t
		}
		if x.e.Eval(st, t) != -1 {
			return t
		}
	}
	return first
}

func (x *initRun) str(s string) *Term { return x.e.in.Str(s) }

// required lists the lookups that must have succeeded.
func (x *initRun) required(st *State) map[string]*Term {
	ids := x.e.valOf(x.e.get(x.tr, "GetArray", "ID"))
	return map[string]*Term{
		"Encrypt": x.okTerm(st, x.tr, "Dictionary", x.str("Encrypt"), "GetDictionary"),
		"O":       x.okTerm(st, x.enc, "Dictionary", x.str("O"), "GetBytes", "GetString"),
		"U":       x.okTerm(st, x.enc, "Dictionary", x.str("U"), "GetBytes", "GetString"),
		"P":       x.okTerm(st, x.enc, "Dictionary", x.str("P"), "GetInt", "GetInt64", "GetNumber"),
		"ID":      x.okTerm(st, x.tr, "Dictionary", x.str("ID"), "GetArray"),
		"ID[0]":   x.okTerm(st, ids, "Array", x.e.in.Int(0), "GetBytes", "GetString"),
	}
}

func (x *initRun) num(key string) *Term { return x.e.valOf(x.e.get(x.enc, "GetInt", key)) }

// scheme lists the conditions of one supported handler.
func (x *initRun) scheme(v, rev int64) []Cond {
	return []Cond{
		{x.e.Cmp(token.EQL, x.e.valOf(x.e.get(x.enc, "GetName", "Filter")), x.str("Standard")), true},
		{x.e.Cmp(token.EQL, x.num("V"), x.e.in.Int(v)), true},
		{x.e.Cmp(token.EQL, x.num("R"), x.e.in.Int(rev)), true},
	}
}

func (x *initRun) path(keys string) string { return "$" + x.tr.op + keys }

// lengthOK decides that hi is the file key length in bytes on this path.
func (x *initRun) lengthOK(st *State, hi *Term) bool {
	e := x.e
	ln := x.num("Length")
	lok := e.okOf(e.get(x.enc, "GetInt", "Length"))
	q := e.in.BinOp(token.QUO, ln, e.in.Int(8), types.Typ[types.Int])
	v1 := e.Eval(st, e.Cmp(token.EQL, x.num("V"), e.in.Int(1)))
	lt := func(t *Term, k int64) int { return e.Eval(st, e.Cmp(token.LSS, t, e.in.Int(k))) }
	if v, ok := hi.intVal(); ok {
		switch v {
		case 5:
			return v1 == 1 || e.Eval(st, lok) == 0 || lt(q, 6) == 1 || lt(ln, 48) == 1
		case 16:
			return v1 == 0 && (lt(q, 16) == 0 || lt(ln, 128) == 0)
		}
		return false
	}
	if v1 != 0 {
		return false
	}
	if hi == q {
		lo, h, hl, hh := e.Range(st, q)
		return hl && lo >= 5 && hh && h <= 16
	}
	return x.clamped(st, hi, q)
}

// clamped recognises max(5, min(16, q)) and its variants.
func (x *initRun) clamped(st *State, hi, q *Term) bool {
	args := func(t *Term, op string) (*Term, int64, bool) {
		if !t.is("call:builtin "+op) || len(t.args) != 2 {
			return nil, 0, false
		}
		for i := 0; i < 2; i++ {
			if v, ok := t.args[i].intVal(); ok {
				return t.args[1-i], v, true
			}
		}
		return nil, 0, false
	}
	lo, h, hl, hh := x.e.Range(st, q)
	if in, v, ok := args(hi, "max"); ok && v == 5 {
		if in == q {
			return hh && h <= 16
		}
		in2, v2, ok2 := args(in, "min")
		return ok2 && v2 == 16 && in2 == q
	}
	if in, v, ok := args(hi, "min"); ok && v == 16 {
		if in == q {
			return hl && lo >= 5
		}
		in2, v2, ok2 := args(in, "max")
		return ok2 && v2 == 5 && in2 == q
	}
	return false
}

// pads lists the valid renderings of the padded password on this path.
func (x *initRun) pads(st *State) []string {
	e := x.e
	n := &nform{e, st}
	pw := n.docPath(x.pw)
	pad := strings.Join(constAtoms(paddingBytes), ",")
	out := []string{"sub{" + pw + "," + pad + ";0;32}"}
	ln := e.Len(st, x.pw, nil)
	lt32, gt32 := e.Eval(st, e.Cmp(token.LSS, ln, e.in.Int(32))), e.Eval(st, e.Cmp(token.LSS, e.in.Int(32), ln))
	if lt32 == 1 || gt32 == 0 {
		rest := e.in.linAdd(e.in.Int(32), ln, -1, types.Typ[types.Int])
		out = append(out, pw+",sub{"+pad+";0;"+n.bound(rest)+"}")
	}
	if lt32 == 0 || gt32 == 1 {
		out = append(out, "sub{"+pw+";0;32}")
	}
	return out
}

// fileKeys lists the valid renderings of the file key for a revision and key length term.
func (x *initRun) fileKeys(st *State, rev int, plainMeta bool, hi *Term) []string {
	n := &nform{x.e, st}
	cut := func(s string) string {
		if v, ok := hi.intVal(); ok && v == 16 {
			return s
		}
		return "sub{" + s + ";0;" + n.bound(hi) + "}"
	}
	p := x.path("/Encrypt/P")
	tail := x.path("/Encrypt/O") + ",b" + p + ":0,b" + p + ":1,b" + p + ":2,b" + p + ":3," + x.path("/ID/0")
	if rev >= 4 && plainMeta {
		tail += ",c255,c255,c255,c255"
	}
	var out []string
	for _, pad := range x.pads(st) {
		k := cut("md5{" + pad + "," + tail + "}")
		if rev >= 3 {
			for i := 0; i < 50; i++ {
				k = cut("md5{" + k + "}")
			}
		}
		out = append(out, k)
	}
	return out
}

// cases runs f for every revision and metadata setting that is possible on this path.
func (x *initRun) cases(st *State, f func(s *State, rev int, plain bool)) {
	e := x.e
	mok, m := e.okOf(e.get(x.enc, "GetBool", "EncryptMetadata")), e.valOf(e.get(x.enc, "GetBool", "EncryptMetadata"))
	for rev := 2; rev <= 4; rev++ {
		s := st.clone()
		if !e.Assume(s, e.Cmp(token.EQL, x.num("R"), e.in.Int(int64(rev))), true) {
			continue
		}
		if rev < 4 {
			f(s, rev, false)
			continue
		}
		a := s.clone()
		if e.Assume(a, mok, false) {
			f(a, rev, false)
		}
		if !e.Assume(s, mok, true) {
			continue
		}
		b := s.clone()
		if e.Assume(b, m, true) {
			f(b, rev, false)
		}
		if e.Assume(s, m, false) {
			f(s, rev, true)
		}
	}
}

// comparison is a decided equality between the stored check value and something else.
type comparison struct {
	u     string // rendering of the U side
	other *Term
	equal bool
}

func (x *initRun) comparisons(st *State) []comparison {
	var out []comparison
	n := &nform{x.e, st}
	u := x.path("/Encrypt/U")
	for t, f := range st.facts {
		if f.eq == nil {
			continue
		}
		val, isB := f.eq.boolVal()
		if !isB {
			continue
		}
		var a, b *Term
		switch {
		case t.is("=="):
			a, b = t.args[0], t.args[1]
			for _, fn := range []struct {
				op string
				k  int64
			}{{"call:bytes.Compare", 0}, {"call:crypto/subtle.ConstantTimeCompare", 1}, {"call:strings.Compare", 0}} {
				if k, ok := b.intVal(); ok && a.is(fn.op) && k == fn.k {
					a, b = a.args[0], a.args[1]
				}
			}
		case t.is("call:bytes.Equal") || t.is("call:crypto/hmac.Equal"):
			a, b = t.args[0], t.args[1]
		default:
			continue
		}
		as, bs := n.str(a), n.str(b)
		isU := func(s string) bool { return s == u || strings.HasPrefix(s, "sub{"+u+";") }
		if isU(as) {
			out = append(out, comparison{as, b, val})
		} else if isU(bs) {
			out = append(out, comparison{bs, a, val})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].u < out[j].u })
	return out
}

// keyIn finds the file key term inside a check value: the innermost RC4 key.
func keyIn(t *Term) *Term {
	for t.is("str") || t.is("bytes") || t.is("bytesof") {
		t = t.args[0]
	}
	for t.is("xor") {
		k := t.args[0]
		if k.is("rc4") {
			c := k.args[0]
			if c.is("xoreach") {
				c = c.args[1]
			}
			return c
		}
		t = t.args[1]
	}
	return nil
}

// derived judges a check value; it returns what is wrong with it ("" if nothing).
func (x *initRun) derived(s *State, rev int, plain bool, c comparison) string {
	e := x.e
	n := &nform{e, s}
	u := x.path("/Encrypt/U")
	if rev == 2 && c.u != u {
		return "revision 2 compares only part of U"
	}
	if rev >= 3 && c.u != "sub{"+u+";0;16}" {
		return "revision 3 and later do not compare the first 16 bytes of U"
	}
	k := keyIn(c.other)
	if k == nil {
		return "the value compared with U is not RC4 output: " + trunc(n.str(c.other), 120)
	}
	hi := e.in.Int(16)
	if k.is("sub") && isZeroInt(k.args[1]) {
		hi = k.args[2]
	}
	if !x.lengthOK(s, hi) {
		return "the file key does not have the declared length (got " + trunc(hi.String(), 80) + ")"
	}
	keys := x.fileKeys(s, rev, plain, hi)
	ks := n.str(k)
	good := false
	for _, w := range keys {
		good = good || w == ks
	}
	if !good {
		return fmt.Sprintf("the file key for revision %d is not derived as the standard says: %s instead of %s", rev, brief(ks), brief(keys[len(keys)-1]))
	}
	var ciphers []string
	data := ""
	pad := strings.Join(constAtoms(paddingBytes), ",")
	if rev == 2 {
		ciphers = []string{"rc4{" + ks + "}"}
		data = pad
	} else {
		for i := 0; i < 20; i++ {
			if i == 0 {
				ciphers = append(ciphers, "rc4{"+ks+"}")
			} else {
				ciphers = append(ciphers, fmt.Sprintf("rc4{xor%d{%s}}", i, ks))
			}
		}
		data = "md5{" + pad + "," + x.path("/ID/0") + "}"
	}
	sort.Strings(ciphers)
	want := "enc{" + strings.Join(ciphers, "|") + "||" + data + "}"
	if got := n.str(c.other); got != want {
		return fmt.Sprintf("the check value for revision %d is not computed as the standard says: %s", rev, brief(strings.ReplaceAll(got, ks, "KEY")))
	}
	return ""
}

// brief shortens the nested hashes of a rendering.
func brief(s string) string {
	n := strings.Count(s, "md5{")
	return fmt.Sprintf("[%d hashes] ", n) + trunc(s, 60) + " ... " + s[max(0, len(s)-260):]
}

func (x *initRun) ret(st *State, ctx *Ctx, in *ssa.Return, res []*Term) {
	x.exits++
	e := x.e
	pos := x.p.InstrPos(in)
	err := res[len(res)-1]
	cmp := x.comparisons(st)
	judged := func(only bool) (why string, ok bool) {
		ok = false
		x.cases(st, func(s *State, rev int, plain bool) {
			good := ""
			found := false
			for _, c := range cmp {
				if c.equal != only {
					continue
				}
				w := x.derived(s, rev, plain, c)
				if w == "" {
					found = true
				} else {
					good = w
				}
			}
			if !found && why == "" {
				why = good
				if why == "" {
					why = "U was not compared with the value derived from the password"
				}
			}
			ok = true
		})
		return why, ok
	}
	if err.isNil() {
		x.nils++
	}
	if x.recipe {
		if err.isNil() {
			why, _ := judged(true)
			x.r.ob(why == "")
			if len(cmp) > 0 {
				x.compares++
			}
			if why != "" {
				x.fail("recipe", pos, why, st)
			}
		}
	}
	if !x.errors {
		return
	}
	req := x.required(st)
	name := ""
	if err.kind == 's' {
		name = shortName(err.op)
	}
	ob := func(ok bool, rule, msg string) {
		x.r.ob(ok)
		if !ok {
			x.fail(rule, pos, msg, st)
		}
	}
	switch {
	case err.isNil():
		for _, k := range sortedKeys(req) {
			ob(e.Eval(st, req[k]) == 1, "required "+k, "the document can be opened although "+k+" was not found")
		}
		ob(e.Eval(st, x.scheme(1, 2)[0].T) == 1, "scheme filter", "the document can be opened although the security handler is not Standard")
		okV, okR := true, true
		for v := int64(-1); v <= 8; v++ {
			if v != 1 && v != 2 && v != 4 && !e.refuted(st, []Cond{{e.Cmp(token.EQL, x.num("V"), e.in.Int(v)), true}}) {
				okV = false
			}
			if (v < 2 || v > 4) && !e.refuted(st, []Cond{{e.Cmp(token.EQL, x.num("R"), e.in.Int(v)), true}}) {
				okR = false
			}
		}
		ob(okV, "scheme V", "the document can be opened with a version other than 1, 2 and 4")
		ob(okR, "scheme R", "the document can be opened with a revision outside 2 to 4")
		why, _ := judged(true)
		ob(why == "", "password", "the document can be opened without a verified password: "+why)
	case name == "EncryptionUnsupported":
		for _, v := range []int64{1, 2, 4} {
			for rev := int64(2); rev <= 4; rev++ {
				ob(e.refuted(st, x.scheme(v, rev)), "unsupported", fmt.Sprintf("the scheme Standard V %d R %d can be rejected as unsupported", v, rev))
			}
		}
		ob(e.Eval(st, req["Encrypt"]) != 0, "unsupported missing", "a missing encryption dictionary is reported as unsupported scheme")
	case name == "EncryptionError":
		var cs []Cond
		for _, k := range sortedKeys(req) {
			cs = append(cs, Cond{req[k], true})
		}
		ulen := e.Len(st, e.valOf(e.get(x.enc, "GetBytes", "U")), nil)
		ulen2 := e.Len(st, e.valOf(e.get(x.enc, "GetString", "U")), nil)
		short := e.Eval(st, e.Cmp(token.LSS, ulen, e.in.Int(16))) == 1 || e.Eval(st, e.Cmp(token.LSS, ulen2, e.in.Int(16))) == 1
		ob(short || e.refuted(st, cs), "missing", "a complete encryption dictionary can be rejected as incomplete")
	case name == "EncryptionPasswordError":
		why, any := judged(false)
		ob(any && why == "", "wrong password", "a password can be rejected without a mismatch of the check value: "+why)
		for _, k := range sortedKeys(req) {
			ob(e.Eval(st, req[k]) == 1, "wrong password "+k, "a missing "+k+" is reported as incorrect password")
		}
	default:
		ob(false, "other error", "an error other than unsupported, incomplete or incorrect password is returned: "+trunc(err.String(), 80))
	}
}

func runC10(p *Program, r *Report) {
	x := newInitRun(p, r)
	if x == nil {
		return
	}
	x.errors = true
	x.run()
	// Load and SetPassword hand the result on
	if root := r.anchor(p, "Parser.SetPassword"); root != nil {
		e := NewEngine(p)
		e.KeepFacts = true
		exits := 0
		e.H.After = func(st *State, c *Call) {
			if c.Name == "SecurityHandler.Init" {
				st.pins["init"] = c.Result
				ok := true
				for _, a := range c.Args[1:] {
					if a.typ == nil {
						continue
					}
					switch a.typ.Underlying().(type) {
					case *types.Slice:
						ok = ok && strip(a) == e.ParamTerm(1)
					case *types.Map:
						good := false
						for k, v := range st.cells {
							if v == a && k.is("faddr:Parser.trailer") && k.args[0] == e.ParamTerm(0) {
								good = true
							}
						}
						ok = ok && good
					}
				}
				if !ok {
					r.fail("unlock", "Parser.SetPassword", p.InstrPos(c.In), "the document is not unlocked with the given password and its own trailer", st.Path())
				}
			}
		}
		e.H.Ret = func(st *State, ctx *Ctx, in *ssa.Return, res []*Term) {
			exits++
			if st.pins["init"] == nil || res[0] != st.pins["init"] && e.Eval(st, e.Cmp(token.EQL, st.pins["init"], res[0])) != 1 {
				r.fail("unlock", "Parser.SetPassword", p.InstrPos(in), "the result of unlocking is not returned", st.Path())
			}
		}
		e.Run(root, nil)
		r.finish(e, "SetPassword")
		r.ob(exits > 0)
	}
	root := r.anchor(p, "Parser.Load")
	if root == nil {
		return
	}
	e := NewEngine(p)
	e.KeepFacts = true
	exits := 0
	e.H.After = func(st *State, c *Call) {
		if (c.Name == "Parser.SetPassword" || c.Name == "SecurityHandler.Init") && !c.Inlined {
			st.pins["unlock"] = c.Result
			if c.Name == "Parser.SetPassword" && c.Args[1] != e.ParamTerm(1) {
				r.fail("unlock", "Parser.Load", p.InstrPos(c.In), "the document is not unlocked with the given password", st.Path())
			}
		}
	}
	e.H.Ret = func(st *State, ctx *Ctx, in *ssa.Return, res []*Term) {
		exits++
		u := st.pins["unlock"]
		v := res[0]
		if u != nil {
			if v == u || e.Eval(st, e.Cmp(token.EQL, u, v)) == 1 {
				return
			}
			if isNil := e.Eval(st, e.Cmp(token.EQL, u, e.in.Nil())); v.isNil() && isNil == 1 {
				return
			}
			r.fail("unlock", "Parser.Load", p.InstrPos(in), "the result of unlocking the document is not returned", st.Path())
			return
		}
		clear := false
		key := e.in.Str("Encrypt")
		for k, okv := range st.cells {
			if k.is("mapok") && k.args[1] == key && e.Eval(st, okv) == 0 {
				clear = true
			}
		}
		if v.isNil() && !clear {
			r.fail("unlock", "Parser.Load", p.InstrPos(in), "a document whose trailer has an Encrypt entry can be loaded without unlocking it", st.Path())
		}
	}
	e.Run(root, nil)
	r.finish(e, "Load")
	r.ob(exits > 0)
}
