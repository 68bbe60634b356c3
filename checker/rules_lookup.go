package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C05"] = &Check{Rule: "for every typed getter, under each of the cases absent / direct value / reference, the success result is equivalent to the exact type test of the resolved value and the value is that value or empty; Resolve and ResolveStream return the value and stream of one object reached by following Number until it is not a reference", Run: runC05}
	checks["C19"] = &Check{Rule: "typestate of the reading position: Resolve and ResolveStream restore the offset saved before any movement, ReadObject restores the offset saved after ReadNumber whenever it returns that number, Parser.Seek always resets the buffer and seeks with its own arguments, CurrentOffset subtracts the buffered bytes", Run: runC19}
}

var getterTypes = map[string]string{
	"GetArray": "Array", "GetBool": "Keyword", "GetBytes": "String", "GetDictionary": "Dictionary", "GetInt": "Number", "GetInt64": "Number",
	"GetName": "Name", "GetNumber": "Number", "GetString": "String", "GetObject": "", "GetReference": "*Reference", "GetStream": "stream",
}

func runC05(p *Program, r *Report) {
	opaque := func(f *ssa.Function) bool {
		n := calleeName(f)
		return n == "Reference.Resolve" || n == "Reference.ResolveStream"
	}
	for _, coll := range []string{"Dictionary", "Array"} {
		for _, g := range sortedKeys(getterTypes) {
			if coll == "Array" && g == "GetReference" {
				continue
			}
			root := r.anchor(p, coll+"."+g)
			if root == nil {
				continue
			}
			cases := []string{"absent", "direct", "reference"}
			if coll == "Array" {
				cases = []string{"below", "above", "direct", "reference"}
			}
			for _, c := range cases {
				getterCase(p, r, root, coll, g, c, opaque)
			}
		}
	}
	for _, n := range []string{"Reference.Resolve", "Reference.ResolveStream"} {
		resolveRule(p, r, n)
	}
}

func getterCase(p *Program, r *Report, root *ssa.Function, coll, g, cs string, opaque func(*ssa.Function) bool) {
	e := NewEngine(p)
	e.KeepFacts = true
	e.Opaque = opaque
	objT := p.Named("Object")
	entry := e.in.Param("entry", objT)
	target := e.in.Param("target", objT)
	stream := e.in.Param("stream", types.NewSlice(types.Typ[types.Byte]))
	ref := e.in.Param("ref", types.NewPointer(p.Named("Reference")))
	e.H.Model = func(st *State, c *Call) *Term {
		if (c.Name == "Reference.Resolve" || c.Name == "Reference.ResolveStream") && len(c.Args) > 0 {
			if strip(c.Args[0]) == ref || c.Args[0].is("as:*Reference") && c.Args[0].args[0] == entry {
				if c.Name == "Reference.Resolve" {
					return target
				}
				return stream
			}
		}
		return nil
	}
	val := entry
	exits := 0
	name := coll + "." + g
	bad := false
	fail := func(pos, msg string, st *State) {
		bad = true
		r.fail("lookup", name, pos, name+" ("+cs+" entry): "+msg, st.Path())
	}
	e.H.Ret = func(st *State, ctx *Ctx, in *ssa.Return, res []*Term) {
		exits++
		pos := p.InstrPos(in)
		if len(res) != 2 {
			fail(pos, "does not return a value and a success result", st)
			return
		}
		v, ok := res[0], res[1]
		present := cs == "direct" || cs == "reference"
		empty := func(s *State, v *Term) bool {
			if x := e.Resolve(s, v); x.isConst() {
				if x.isNil() {
					return true
				}
				if b, k := x.boolVal(); k {
					return !b
				}
				if n, k := x.intVal(); k {
					return n == 0
				}
				str, k := x.strVal()
				return k && str == ""
			}
			if v.hasOp("conv:") {
				return isZeroInt(v.args[0])
			}
			if v.hasOp("as:") { // value of a failed assertion
				return e.Eval(s, e.in.Pure("is:"+v.op[3:], v.args[0])) == 0
			}
			if s.zero[v] {
				n := e.Len(s, v, nil)
				if m, k := v.val.(*ssa.MakeMap); k {
					_ = m
					return true
				}
				return isZeroInt(n) || e.Eval(s, e.Cmp(token.EQL, n, e.in.Int(0))) == 1
			}
			if isZeroInt(e.Len(s, v, nil)) {
				return true
			}
			c := e.Content(s, v)
			str, k := strip(c).strVal()
			return k && str == ""
		}
		// want: condition list and value check for success
		type alt struct {
			conds []Cond
			value func(s *State, v *Term) bool
		}
		var succ []alt
		is := func(t string) Cond { return Cond{e.in.PureT(types.Typ[types.Bool], "is:"+t, val), true} }
		as := func(t string) *Term { return e.in.Pure("as:"+t, val) }
		same := func(t *Term) func(*State, *Term) bool {
			return func(s *State, v *Term) bool { return v == t || strip(v) == strip(t) }
		}
		switch {
		case !present:
		case g == "GetStream":
			if cs == "reference" {
				succ = []alt{{[]Cond{{e.Cmp(token.EQL, stream, e.in.Nil()), false}}, same(stream)}}
			}
		case g == "GetReference":
			if cs == "reference" {
				succ = []alt{{nil, same(ref)}}
			}
		case g == "GetObject":
			succ = []alt{{nil, func(s *State, v *Term) bool { return v == val }}}
		case g == "GetBool":
			kw := as("Keyword")
			for _, w := range []string{"true", "false"} {
				w := w
				succ = append(succ, alt{[]Cond{is("Keyword"), {e.Cmp(token.EQL, kw, e.in.Str(w)), true}}, func(s *State, v *Term) bool {
					want := 0
					if w == "true" {
						want = 1
					}
					return e.Eval(s, v) == want
				}})
			}
		case g == "GetBytes":
			succ = []alt{{[]Cond{is("String")}, func(s *State, v *Term) bool {
				return strip(v) == as("String") || strip(e.Content(s, v)) == as("String")
			}}}
		case g == "GetInt" || g == "GetInt64":
			succ = []alt{{[]Cond{is("Number")}, func(s *State, v *Term) bool {
				return (v.is("conv:int") || v.is("conv:int64")) && v.args[0] == as("Number")
			}}}
		default:
			succ = []alt{{[]Cond{is(getterTypes[g])}, same(as(getterTypes[g]))}}
		}
		// success cases
		for _, a := range succ {
			s := st.clone()
			feas := true
			for _, c := range a.conds {
				feas = feas && e.Assume(s, c.T, c.Want)
			}
			if !feas {
				continue
			}
			if e.Eval(s, ok) != 1 {
				fail(pos, "reports failure although the entry has the requested type", st)
			} else if !a.value(s, v) {
				fail(pos, "does not yield the looked-up value but "+trunc(v.String(), 80), st)
			}
		}
		// failure cases: negate one condition of every alternative
		var neg func(i int, s *State)
		neg = func(i int, s *State) {
			if i == len(succ) {
				if e.Eval(s, ok) != 0 {
					fail(pos, "reports success although there is no entry of the requested type", st)
				} else if g == "GetObject" {
					if !(v.is("iface:Keyword") && v.args[0] == e.in.Str("null")) {
						fail(pos, "does not yield the null object on failure", st)
					}
				} else if !empty(s, v) {
					fail(pos, "yields a value on failure: "+trunc(v.String(), 80), st)
				}
				return
			}
			for j, c := range succ[i].conds {
				t := s.clone()
				feas := true
				for _, d := range succ[i].conds[:j] {
					feas = feas && e.Assume(t, d.T, d.Want)
				}
				if feas && e.Assume(t, c.T, !c.Want) {
					neg(i+1, t)
				}
			}
		}
		neg(0, st.clone())
	}
	e.Run(root, func(st *State, ctx *Ctx) {
		c, k := e.ParamTerm(0), e.ParamTerm(1)
		switch cs {
		case "reference":
			entry = e.in.PureT(ref.typ, "iface:*Reference", ref)
			val = target
			e.Assume(st, e.in.Pure("==", ref, e.in.Nil()), false)
		case "direct":
			e.Assume(st, e.in.PureT(types.Typ[types.Bool], "is:*Reference", entry), false)
			e.Assume(st, e.Cmp(token.EQL, entry, e.in.Nil()), false)
		}
		if coll == "Dictionary" {
			if cs == "absent" {
				st.cells[e.mapCell("mapel", c, k)] = e.in.Nil()
				st.cells[e.mapCell("mapok", c, k)] = e.in.Bool(false)
			} else {
				st.cells[e.mapCell("mapel", c, k)] = entry
				st.cells[e.mapCell("mapok", c, k)] = e.in.Bool(true)
			}
			return
		}
		ln := e.Len(st, c, types.Typ[types.Int])
		switch cs {
		case "below":
			e.Assume(st, e.Cmp(token.LSS, k, e.in.Int(0)), true)
			e.Assume(st, e.Cmp(token.LSS, k, ln), true)
		case "above":
			e.Assume(st, e.Cmp(token.LSS, k, e.in.Int(0)), false)
			e.Assume(st, e.Cmp(token.LSS, k, ln), false)
		default:
			e.Assume(st, e.Cmp(token.LSS, k, e.in.Int(0)), false)
			e.Assume(st, e.Cmp(token.LSS, k, ln), true)
			st.cells[e.in.PureT(types.NewPointer(objT), "iaddr", c, k)] = entry
		}
	})
	r.ob(exits > 0 && !bad)
	if exits == 0 {
		r.fail("lookup", name, p.Pos(root.Pos()), name+" never returns ("+cs+" entry)", nil)
	}
	r.Sites += exits
	r.sample("%s, %s entry: %d abstract exits agree with the type test", name, cs, exits)
	r.finish(e, name+" "+cs)
}

// resolveRule: Resolve/ResolveStream follow references and return Value/Stream of the object reached.
func resolveRule(p *Program, r *Report, name string) {
	root := r.anchor(p, name)
	if root == nil {
		return
	}
	field := "faddr:IndirectObject.Value"
	if name == "Reference.ResolveStream" {
		field = "faddr:IndirectObject.Stream"
	}
	e := NewEngine(p)
	e.KeepFacts = true
	gets, exits := 0, 0
	// isRefOf: term is the receiver or the value of a fetched object that is a reference
	numberOf := func(st *State, n *Term) *Term {
		for k, v := range st.cells {
			if v == n && k.is("faddr:Reference.Number") {
				return k.args[0]
			}
		}
		return nil
	}
	isFetched := func(t *Term) bool {
		if t.kind != 'n' {
			return false
		}
		c, ok := t.val.(*ssa.Call)
		return ok && commonName(c.Common()) == "Parser.GetObject"
	}
	objOf := func(st *State, v *Term) *Term {
		for k, x := range st.cells {
			if x == v && (k.is(field) || k.is("faddr:IndirectObject.Value")) {
				return k.args[0]
			}
		}
		return nil
	}
	chain := func(st *State, ref *Term) bool {
		if ref == e.ParamTerm(0) {
			return true
		}
		if ref != nil && ref.is("as:*Reference") {
			o := objOf(st, ref.args[0])
			return o != nil && isFetched(o) || ref.args[0].kind == 'n'
		}
		return ref != nil && ref.kind == 'n'
	}
	selfName := ""
	e.H.Call = func(st *State, c *Call) {
		if c.Name == "Parser.GetObject" {
			gets++
			if ref := numberOf(st, c.Args[1]); !chain(st, ref) {
				r.fail("resolve", name, p.InstrPos(c.In), "the object fetched is not the one whose number the reference holds", st.Path())
			}
		}
		if c.Fn != nil && p.InRepo(c.Fn) && !c.Inlined && !baselineAPI[c.Name] {
			selfName = c.Name
			if len(c.Args) > 0 && !chain(st, c.Args[0]) {
				r.fail("resolve", name, p.InstrPos(c.In), "resolution continues with something other than the reference found", st.Path())
			}
		}
	}
	e.H.Ret = func(st *State, ctx *Ctx, in *ssa.Return, res []*Term) {
		exits++
		v := res[0]
		o := objOf(st, v)
		pos := p.InstrPos(in)
		switch {
		case v.is("iface:Keyword") && name == "Reference.Resolve", v.isNil() && name == "Reference.ResolveStream":
			// cut cycle
		case o != nil && isFetched(o):
			// must not be a reference
			val := st.cells[e.in.Pure("faddr:IndirectObject.Value", o)]
			if val == nil || e.Eval(st, e.in.Pure("is:*Reference", val)) != 0 {
				r.fail("resolve", name, pos, "the result can come from an object that is itself a reference", st.Path())
			}
		case o != nil && o.kind == 'n':
			c, ok := o.val.(*ssa.Call)
			if !ok || commonName(c.Common()) != selfName {
				r.fail("resolve", name, pos, "the result does not come from the referenced object", st.Path())
			}
		default:
			r.fail("resolve", name, pos, "the result does not come from the referenced object: "+trunc(v.String(), 80), st.Path())
		}
		if o != nil && st.cells[e.in.Pure(field, o)] != v {
			r.fail("resolve", name, pos, "the wrong part of the object is returned", st.Path())
		}
	}
	e.Run(root, nil)
	r.finish(e, name)
	r.ob(exits > 0)
	r.need(name+" object fetches", gets, 1)
}

// touchesInput: the function may change the position of a parser.
func (p *Program) touchesInput(f *ssa.Function) bool {
	if calleeName(f) == "Parser.CurrentOffset" {
		return false
	}
	seen := map[*ssa.Function]bool{}
	var v func(g *ssa.Function) bool
	v = func(g *ssa.Function) bool {
		if seen[g] || !p.InRepo(g) {
			return false
		}
		seen[g] = true
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if movesReader(c.Common()) {
					return true
				}
				fns, _ := p.Callees(c.Common())
				for _, h := range fns {
					if calleeName(h) != "Parser.CurrentOffset" && v(h) {
						return true
					}
				}
			}
		}
		return false
	}
	return v(f)
}

// movesReader: an external call that changes the position of a buffered or seekable reader.
func movesReader(c *ssa.CallCommon) bool {
	n := commonName(c)
	if strings.HasPrefix(n, "(*bufio.Reader).") {
		switch shortName(n) {
		case "Peek", "Buffered", "Size":
			return false
		}
		return true
	}
	if strings.HasSuffix(n, ".Seek") || n == "io.ReadFull" || n == "io.ReadAll" || n == "io.Copy" || n == "io.CopyN" || n == "io.ReadAtLeast" || strings.HasSuffix(n, ".FindReaderIndex") || strings.HasSuffix(n, ".FindReaderSubmatchIndex") || strings.HasSuffix(n, ".MatchReader") {
		return true
	}
	return false
}

func (e *Engine) moving(c *Call) bool {
	if c.Inlined {
		return false
	}
	if c.Fn != nil && e.p.InRepo(c.Fn) {
		return e.p.touchesInput(c.Fn)
	}
	if movesReader(c.Com) {
		return true
	}
	fns, _ := e.p.Callees(c.Com)
	for _, f := range fns {
		if e.p.touchesInput(f) {
			return true
		}
	}
	return false
}

func runC19(p *Program, r *Report) {
	// references
	for _, n := range []string{"Reference.Resolve", "Reference.ResolveStream"} {
		root := r.anchor(p, n)
		if root == nil {
			continue
		}
		e := NewEngine(p)
		e.KeepFacts = true
		exits, moves := 0, 0
		e.H.After = func(st *State, c *Call) {
			if c.Name == "Parser.CurrentOffset" && !c.Inlined && st.flags["moved"] == "" {
				st.pins["offset"] = c.Result
			}
		}
		e.H.Call = func(st *State, c *Call) {
			if !e.moving(c) {
				return
			}
			moves++
			if c.Name == "Parser.Seek" && len(c.Args) == 3 && c.Args[1] == st.pins["offset"] && isZeroInt(c.Args[2]) {
				delete(st.flags, "away")
				return
			}
			st.flags["moved"], st.flags["away"] = "1", "1"
		}
		e.H.Ret = func(st *State, ctx *Ctx, in *ssa.Return, res []*Term) {
			exits++
			if st.flags["away"] != "" {
				r.fail("restore", n, p.InstrPos(in), n+" can return without going back to the position it was called at", st.Path())
			}
		}
		e.Run(root, nil)
		r.finish(e, n)
		r.ob(exits > 0)
		r.need(n+" position changes", moves, 1)
		r.Sites += moves
	}
	// number lookahead
	root := r.anchor(p, "Parser.ReadObject")
	if root != nil {
		e := NewEngine(p)
		e.KeepFacts = true
		e.NoLookahead = true
		nums, refs := 0, 0
		e.H.After = func(st *State, c *Call) {
			if c.Inlined {
				return
			}
			if c.Name == "Parser.ReadNumber" {
				st.pins["number"] = c.Result
				delete(st.flags, "away")
				delete(st.pins, "offset")
			}
			if c.Name == "Parser.CurrentOffset" && st.flags["away"] == "" && st.pins["number"] != nil {
				st.pins["offset"] = c.Result
			}
		}
		e.H.Call = func(st *State, c *Call) {
			if !e.moving(c) || c.Name == "Parser.ReadNumber" || st.pins["number"] == nil {
				return
			}
			if c.Name == "Parser.Seek" && st.pins["offset"] != nil && c.Args[1] == st.pins["offset"] && isZeroInt(c.Args[2]) {
				delete(st.flags, "away")
				return
			}
			st.flags["away"] = c.Name
		}
		e.H.Ret = func(st *State, ctx *Ctx, in *ssa.Return, res []*Term) {
			if len(res) == 0 {
				return
			}
			num := st.pins["number"]
			switch {
			case res[0].is("iface:Number"):
				nums++
				if num == nil || res[0].args[0] != num {
					r.fail("number", "Parser.ReadObject", p.InstrPos(in), "a number is returned that is not the one read", st.Path())
				}
				if st.flags["away"] != "" {
					r.fail("number", "Parser.ReadObject", p.InstrPos(in), "a number can be returned with the position past what followed it", st.Path())
				}
			case res[0].is("iface:*Reference"):
				refs++
				if st.flags["away"] != "Parser.ReadKeyword" {
					r.fail("number", "Parser.ReadObject", p.InstrPos(in), "a reference is returned with the position not after its keyword", st.Path())
				}
			default:
				if num != nil {
					r.fail("number", "Parser.ReadObject", p.InstrPos(in), "a number was read but something else is returned", st.Path())
				}
			}
		}
		e.Run(root, nil)
		r.finish(e, "number lookahead")
		r.need("number results", nums, 1)
		r.need("reference results", refs, 1)
		r.ob(true)
	}
	// Seek and CurrentOffset
	owned := map[ssa.Instruction]bool{}
	root = r.anchor(p, "Parser.Seek")
	if root != nil {
		e := NewEngine(p)
		e.KeepFacts = true
		e.NoLookahead = true
		exits := 0
		e.H.Instr = func(st *State, ctx *Ctx, in ssa.Instruction) { owned[in] = true }
		var rd, sk *Term
		e.H.Call = func(st *State, c *Call) {
			switch {
			case c.Name == "(*bufio.Reader).Reset":
				if c.Args[0] == rd && strip(c.Args[1]) == sk {
					st.flags["reset"] = "1"
				}
			case strings.HasSuffix(c.Name, ".Seek") && !c.Inlined:
				if c.Args[0] == sk && c.Args[1] == e.ParamTerm(1) && c.Args[2] == e.ParamTerm(2) {
					st.flags["seek"] = "1"
				} else {
					st.flags["seek"] = ""
				}
			case e.moving(c):
				st.flags["reset"], st.flags["seek"] = "", ""
			}
		}
		e.H.After = func(st *State, c *Call) {
			if strings.HasSuffix(c.Name, ".Seek") && st.flags["seek"] == "1" {
				st.pins["res"] = c.Result
			}
		}
		e.H.Ret = func(st *State, ctx *Ctx, in *ssa.Return, res []*Term) {
			exits++
			if st.flags["reset"] == "" {
				r.fail("seek", "Parser.Seek", p.InstrPos(in), "Seek can return without discarding the buffered bytes", st.Path())
			}
			if st.flags["seek"] == "" {
				r.fail("seek", "Parser.Seek", p.InstrPos(in), "Seek can return without moving the underlying reader to the requested position", st.Path())
			}
			if x := st.pins["res"]; x != nil && len(res) > 0 && res[0] != e.valOf(x) {
				r.fail("seek", "Parser.Seek", p.InstrPos(in), "Seek does not return the new position", st.Path())
			}
		}
		e.Run(root, func(st *State, ctx *Ctx) { rd, sk = parserFields(e, st, e.ParamTerm(0)) })
		r.finish(e, "Seek")
		r.ob(exits > 0)
	}
	root = r.anchor(p, "Parser.CurrentOffset")
	if root != nil {
		e := NewEngine(p)
		e.KeepFacts = true
		e.NoLookahead = true
		exits := 0
		var rd, sk *Term
		e.H.Instr = func(st *State, ctx *Ctx, in ssa.Instruction) { owned[in] = true }
		e.H.Model = func(st *State, c *Call) *Term {
			if strings.HasSuffix(c.Name, ".Seek") && c.Args[0] == sk {
				if !isZeroInt(c.Args[1]) || c.Args[2] != e.in.Int(1) {
					r.fail("offset", "Parser.CurrentOffset", p.InstrPos(c.In), "reading the position moves it", st.Path())
				}
				return e.in.Pure("position")
			}
			if c.Name == "(*bufio.Reader).Buffered" && c.Args[0] == rd {
				return e.in.PureT(types.Typ[types.Int], "buffered")
			}
			return nil
		}
		e.H.Call = func(st *State, c *Call) {
			if e.moving(c) && !strings.HasSuffix(c.Name, ".Seek") {
				r.fail("offset", "Parser.CurrentOffset", p.InstrPos(c.In), "reading the position changes it", st.Path())
			}
		}
		e.H.Ret = func(st *State, ctx *Ctx, in *ssa.Return, res []*Term) {
			exits++
			pos := e.in.Pure("position")
			want := e.in.linAdd(e.in.PureT(types.Typ[types.Int64], "x:0", pos), e.in.PureT(types.Typ[types.Int], "buffered"), -1, types.Typ[types.Int64])
			if res[0] != want && e.Eval(st, e.Cmp(token.EQL, e.in.Pure("x:1", pos), e.in.Nil())) != 0 {
				r.fail("offset", "Parser.CurrentOffset", p.InstrPos(in), "the reported position is not the reader position minus the buffered bytes", st.Path())
			}
		}
		e.Run(root, func(st *State, ctx *Ctx) { rd, sk = parserFields(e, st, e.ParamTerm(0)) })
		r.finish(e, "CurrentOffset")
		r.ob(exits > 0)
	}
	// nothing else repositions the underlying reader
	n := 0
	for _, x := range p.extRefs() {
		if x.Call == nil || x.Name != "(*bufio.Reader).Reset" && !strings.HasSuffix(x.Name, ".Seek") {
			continue
		}
		n++
		r.ob(owned[x.In])
		if !owned[x.In] {
			r.fail("reposition", fnName(x.Fn)+": "+x.Name, p.InstrPos(x.In), "the reader is repositioned without going through Parser.Seek", nil)
		}
	}
	r.need("repositioning call sites", n, 3)
}

// parserFields names the buffered reader and the seeker of a parser.
func parserFields(e *Engine, st *State, recv *Term) (rd, sk *Term) {
	t := e.p.Named("Parser").Underlying().(*types.Struct)
	for i := 0; i < t.NumFields(); i++ {
		f := t.Field(i)
		tn := types.TypeString(f.Type(), nil)
		a := e.in.PureT(types.NewPointer(f.Type()), "faddr:Parser."+f.Name(), recv)
		switch {
		case tn == "*bufio.Reader":
			rd = e.in.Param("reader", f.Type())
			st.cells[a] = rd
		case strings.HasPrefix(tn, "io.") && strings.Contains(tn, "Seek"):
			sk = e.in.Param("seeker", f.Type())
			st.cells[a] = sk
		}
	}
	return
}
