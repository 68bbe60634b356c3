package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C02"] = &Check{Rule: "on every path to a dereference, interface call, map write, function-value call, unchecked assertion or interface comparison the operand is provably not nil (of the asserted type, comparable), under nil-ness contracts for parameters, results, fields, elements and variables that every function is shown to keep", Run: runC02,
		Assumptions: []string{"library functions return no nil pointer or interface together with a nil error (or a true ok)", "callers outside the repository pass non-nil pointers, except the output of NewParser", "methods of *os.File accept a nil receiver (they return an error)"}}
}

// nilRules is a greatest fixpoint: nothing is assumed to be nil until some function is seen to make it so.
type nilRules struct {
	p     *Program
	r     *Report
	maybe map[string]string // contracts that do not hold: why
	fresh bool              // a contract was broken in this round
	sites map[ssa.Instruction]*nilSite
	fails map[*ssa.Function][]boundFail
	bad   map[ssa.Instruction]bool
	seen  map[ssa.Instruction]bool
	own   map[*ssa.Global]bool // set when its package is initialised
	self  map[*ssa.Function]bool
}

type nilSite struct {
	fn   *ssa.Function
	in   ssa.Instruction
	kind string
	x    ssa.Value // what must not be nil
	i    int       // index of the argument of a call, -1 for the callee or receiver
}

// nilable: values of the type can be nil in a way that matters here.
func nilable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Interface, *types.Signature:
		return true
	}
	return false
}

func isIface(t types.Type) bool {
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

// nilSafe: values of the type may be used when nil.
func nilSafe(t types.Type) bool { return t.String() == "*os.File" }

func (x *nilRules) sitesOf(f *ssa.Function) []*nilSite {
	var out []*nilSite
	add := func(in ssa.Instruction, kind string, v ssa.Value, i int) {
		switch v.(type) {
		case *ssa.Alloc, *ssa.Global, *ssa.FreeVar, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.MakeMap, *ssa.MakeClosure, *ssa.Function, *ssa.MakeInterface:
			return
		}
		out = append(out, &nilSite{f, in, kind, v, i})
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch y := in.(type) {
			case *ssa.FieldAddr:
				add(in, "field access", y.X, -1)
			case *ssa.IndexAddr:
				if _, ok := y.X.Type().Underlying().(*types.Pointer); ok {
					add(in, "element access", y.X, -1)
				}
			case *ssa.Slice:
				if _, ok := y.X.Type().Underlying().(*types.Pointer); ok {
					add(in, "slicing", y.X, -1)
				}
			case *ssa.UnOp:
				if y.Op == token.MUL {
					add(in, "load", y.X, -1)
				}
			case *ssa.Store:
				add(in, "store", y.Addr, -1)
			case *ssa.MapUpdate:
				add(in, "map write", y.Map, -1)
			case *ssa.TypeAssert:
				if !y.CommaOk {
					out = append(out, &nilSite{f, in, "assertion", y.X, -1})
				}
			case *ssa.BinOp:
				if (y.Op == token.EQL || y.Op == token.NEQ) && incomparable(y.X) && incomparable(y.Y) {
					out = append(out, &nilSite{f, in, "comparison", y.X, -1})
				}
			case *ssa.Lookup:
				if mt, ok := y.X.Type().Underlying().(*types.Map); ok && isIface(mt.Key()) && incomparable(y.Index) {
					out = append(out, &nilSite{f, in, "key comparison", y.Index, -1})
				}
			case ssa.CallInstruction:
				c := y.Common()
				if _, ok := c.Value.(*ssa.Builtin); ok {
					continue
				}
				if c.IsInvoke() {
					add(in, "method call", c.Value, -1)
				} else if c.StaticCallee() == nil {
					add(in, "function call", c.Value, -1)
				}
				g := c.StaticCallee()
				if g != nil && x.p.InRepo(g) && len(g.Blocks) > 0 {
					continue
				}
				if g == nil && !c.IsInvoke() {
					continue
				}
				if c.IsInvoke() && len(x.p.implementers(c)) > 0 {
					continue
				}
				for i, a := range c.Args {
					t := a.Type()
					it, isI := t.Underlying().(*types.Interface)
					_, isP := t.Underlying().(*types.Pointer)
					_, isF := t.Underlying().(*types.Signature)
					switch {
					case nilSafe(t):
					case i == 0 && isP && g != nil && g.Signature.Recv() != nil, isF, isI && it.NumMethods() > 0 && !types.Identical(t, errorType):
						add(in, "argument of "+commonName(c), a, i)
					}
				}
			}
		}
	}
	return out
}

var errorType = types.Universe.Lookup("error").Type()

// incomparable: an interface value that may hold a value that can not be compared.
func incomparable(v ssa.Value) bool {
	if !isIface(v.Type()) || types.Identical(v.Type(), errorType) {
		return false
	}
	switch y := v.(type) {
	case *ssa.Const:
		return false
	case *ssa.MakeInterface:
		return !types.Comparable(y.X.Type())
	}
	return true
}

func runC02(p *Program, r *Report) {
	x := &nilRules{p: p, r: r, maybe: map[string]string{}, sites: map[ssa.Instruction]*nilSite{}, own: map[*ssa.Global]bool{}, self: map[*ssa.Function]bool{}}
	reach := map[*ssa.Function]bool{}
	all := 0
	byKind := map[string]int{}
	sites := map[ssa.Instruction][]*nilSite{}
	for _, f := range p.Funcs {
		if len(f.Blocks) == 0 || !p.InRepo(f) || f.Synthetic != "" && f.Name() != "init" {
			continue
		}
		reach[f] = true
		for _, s := range x.sitesOf(f) {
			sites[s.in] = append(sites[s.in], s)
			all++
			byKind[strings.SplitN(s.kind, " of ", 2)[0]]++
			r.Sites++
		}
	}
	r.need("sites that need a value", all, 300)
	x.prepare(reach)
	var queue []*ssa.Function
	for _, f := range p.Funcs {
		if reach[f] && x.unit(f) {
			queue = append(queue, f)
		}
	}
	round := 0
	for {
		round++
		x.fresh = false
		x.fails, x.bad, x.seen = map[*ssa.Function][]boundFail{}, map[ssa.Instruction]bool{}, map[ssa.Instruction]bool{}
		for _, f := range queue {
			x.run(f, sites, round)
		}
		if !x.fresh || round > 30 {
			break
		}
	}
	if os.Getenv("VERIF_DEBUG") != "" {
		for _, k := range sortedKeys(x.maybe) {
			fmt.Fprintln(os.Stderr, "MAYBE", k, x.maybe[k])
		}
	}
	done := map[string]bool{}
	for _, f := range queue {
		for _, b := range x.fails[f] {
			k := b.pos + b.msg
			if !done[k] {
				done[k] = true
				r.fail("nil", b.site.name, b.pos, b.msg, b.path)
			}
		}
	}
	n := map[string]int{}
	var fs []*ssa.Function
	for f := range reach {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fnName(fs[i]) < fnName(fs[j]) })
	for _, f := range fs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, s := range sites[in] {
					n[s.kind]++
					r.ob(!x.bad[in])
				}
			}
		}
	}
	r.sample("%d sites in %d functions, %d rounds to the fixpoint", all, len(queue), round)
	for _, k := range sortedKeys(byKind) {
		r.sample("%s: %d", k, byKind[k])
	}
	r.sample("contracts that do not hold (values that may be nil): %v", sortedKeys(x.maybe))
}

// unit: the function is judged on its own, under its contract.
func (x *nilRules) unit(f *ssa.Function) bool {
	if f.Name() == "init" || f.Parent() != nil || baselineAPI[calleeName(f)] || f.Name() == "main" || x.p.isAddressTaken(f) || x.recursive(f) {
		return true
	}
	return len(x.p.callSites(f)) == 0
}

func (x *nilRules) recursive(f *ssa.Function) bool {
	if v, ok := x.self[f]; ok {
		return v
	}
	v := (&boundRules{p: x.p}).selfCalls(f)
	x.self[f] = v
	return v
}

func (x *nilRules) mark(key, why string) {
	if _, ok := x.maybe[key]; !ok {
		x.maybe[key] = why
		x.fresh = true
	}
}

func structOf(t types.Type) (*types.Struct, bool) {
	s, ok := t.Underlying().(*types.Struct)
	return s, ok
}

// zeroed: values of the struct type exist whose fields were not set.
func (x *nilRules) zeroed(t types.Type, but map[int]bool, why string) {
	s, ok := structOf(t)
	if !ok {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		if but[i] {
			continue
		}
		if nilable(ft) {
			x.mark("field:"+fieldKey(types.NewPointer(t), i), why)
		}
		if _, isS := structOf(ft); isS {
			x.zeroed(ft, nil, why)
		}
	}
}

// prepare takes down what is nil to begin with.
func (x *nilRules) prepare(reach map[*ssa.Function]bool) {
	p := x.p
	for f := range reach {
		if f.Name() == "NewParser" && f.Pkg == p.Pdf {
			for i, prm := range f.Params {
				if strings.HasSuffix(prm.Type().String(), ".Output") {
					x.mark(fmt.Sprintf("param:%s.%d", fnName(f), i), "parsers may be used without output")
				}
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch y := in.(type) {
				case *ssa.Store:
					if g, ok := y.Addr.(*ssa.Global); ok && strings.HasPrefix(f.Name(), "init") && f.Parent() == nil && f.Signature.Recv() == nil && f.Pkg == g.Pkg {
						x.own[g] = true
					}
				case *ssa.Alloc:
					t := deref(y.Type())
					at, isA := t.Underlying().(*types.Array)
					if isA {
						t = at.Elem()
						if nilable(t) && !x.filled(y, at) {
							x.mark("elem:"+t.String(), "an array is made at "+p.InstrPos(in))
						}
					}
					if _, ok := structOf(t); ok && !external(t) {
						x.zeroed(t, x.setAt(y, isA), "a value is made without it at "+p.InstrPos(in))
					}
				case *ssa.MakeSlice:
					t := y.Type().Underlying().(*types.Slice).Elem()
					if c, ok := y.Len.(*ssa.Const); ok && c.Int64() == 0 {
						continue
					}
					if nilable(t) {
						x.mark("elem:"+t.String(), "a slice is made at "+p.InstrPos(in))
					}
					if !external(t) {
						x.zeroed(t, nil, "a slice of values is made at "+p.InstrPos(in))
					}
				case *ssa.Lookup:
					if mt, ok := y.X.Type().Underlying().(*types.Map); ok && !y.CommaOk && !external(mt.Elem()) {
						x.zeroed(mt.Elem(), nil, "a map is read at "+p.InstrPos(in))
					}
				}
			}
		}
	}
}

// external: a type of another module.
func external(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && !strings.Contains(n.Obj().Pkg().Path(), "pdfparser")
}

// filled: every element of the array is set right after it is made.
func (x *nilRules) filled(a *ssa.Alloc, at *types.Array) bool {
	set := map[int64]bool{}
	for _, in := range a.Block().Instrs {
		if s, ok := in.(*ssa.Store); ok {
			if ia, ok := s.Addr.(*ssa.IndexAddr); ok && ia.X == a {
				if c, ok := ia.Index.(*ssa.Const); ok {
					set[c.Int64()] = true
				}
			}
		}
	}
	return int64(len(set)) == at.Len()
}

// setAt: the fields that are set in the block that makes the value.
func (x *nilRules) setAt(a *ssa.Alloc, elems bool) map[int]bool {
	out := map[int]bool{}
	s, ok := structOf(deref(a.Type()))
	if !ok {
		if at, isA := deref(a.Type()).Underlying().(*types.Array); isA && elems {
			// every element is set as a whole
			if es, isS := structOf(at.Elem()); isS && x.filled(a, at) {
				for i := 0; i < es.NumFields(); i++ {
					out[i] = true
				}
			}
		}
		return out
	}
	if s == nil {
		return out
	}
	for _, b := range a.Parent().Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			if st.Addr == a && (b == a.Block() || len(*a.Referrers()) > 0 && !a.Heap) {
				// the whole value comes from somewhere else
				for i := 0; i < s.NumFields(); i++ {
					out[i] = true
				}
			}
			if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fa.X == a && (b == a.Block() || x.straight(a.Block(), b)) {
				out[fa.Field] = true
			}
		}
	}
	return out
}

// straight: control goes from a to b on every path that continues.
func (x *nilRules) straight(a, b *ssa.BasicBlock) bool {
	for n := 0; n < 20; n++ {
		if a == b {
			return true
		}
		if len(a.Succs) != 1 {
			return false
		}
		a = a.Succs[0]
	}
	return false
}

type nilRun struct {
	x     *nilRules
	e     *Engine
	f     *ssa.Function
	sites map[ssa.Instruction][]*nilSite
}

func (x *nilRules) run(f *ssa.Function, sites map[ssa.Instruction][]*nilSite, round int) {
	e := NewEngine(x.p)
	e.KeepNear, e.Coarse, e.NoContent, e.NoLookahead = true, true, true, true
	e.Opaque = x.unit
	n := &nilRun{x, e, f, sites}
	e.Irrelevant = n.irrelevant
	e.H.Instr = n.instr
	e.H.Store = n.store
	e.H.MapUpd = n.update
	e.H.Call = n.call
	e.H.Edge = n.edge
	e.H.Ret = n.ret
	x.r.Functions[fnName(f)] = true
	t0 := time.Now()
	e.Run(f, nil)
	if os.Getenv("VERIF_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, "RUN", round, fnName(f), e.total, len(x.fails[f]), time.Since(t0))
	}
	x.r.finish(e, fnName(f))
}

// irrelevant: comparisons of numbers and strings say nothing about what is nil.
func (n *nilRun) irrelevant(c ssa.Value) bool {
	b, ok := c.(*ssa.BinOp)
	if !ok {
		return false
	}
	return !nilable(b.X.Type()) && !nilable(b.Y.Type())
}

func (n *nilRun) fail(st *State, s *nilSite, msg string) {
	x := n.x
	x.bad[s.in] = true
	for _, q := range x.fails[n.f] {
		if q.site.in == s.in {
			return
		}
	}
	x.fails[n.f] = append(x.fails[n.f], boundFail{&boundSite{fn: s.fn, in: s.in, kind: s.kind, name: fnName(s.fn) + ": " + s.kind}, msg, x.p.InstrPos(s.in), st.Path()})
}

func (n *nilRun) instr(st *State, ctx *Ctx, in ssa.Instruction) {
	if mi, ok := in.(*ssa.MakeInterface); ok && nilable(mi.X.Type()) {
		if ok, why := n.nonNil(st, n.e.V(st, ctx, mi.X)); !ok {
			n.x.mark("make:"+typeStr(mi.X.Type()), why+" at "+n.x.p.InstrPos(in))
		}
	}
	ss := n.sites[in]
	if ss == nil {
		return
	}
	n.x.seen[in] = true
	for c := ctx; c != nil; c = c.parent {
		if recovers(c.fn) {
			return
		}
	}
	for _, s := range ss {
		t := n.e.V(st, ctx, s.x)
		switch s.kind {
		case "assertion":
			ta := in.(*ssa.TypeAssert)
			ts := typeStr(ta.AssertedType)
			if types.IsInterface(ta.AssertedType) {
				ts = "interface " + ts
				// every value of the static type has the methods
				if ok, _ := n.nonNil(st, t); ok && types.Implements(ta.X.Type(), ta.AssertedType.Underlying().(*types.Interface)) {
					continue
				}
			}
			if t.hasOp("iface:") && t.op[6:] == ts {
				continue
			}
			if n.e.Eval(st, n.e.in.PureT(types.Typ[types.Bool], "is:"+ts, t)) != 1 {
				n.fail(st, s, "the value may not be a "+ts+": the assertion is not checked")
			}
		case "comparison":
			b := in.(*ssa.BinOp)
			u := n.e.V(st, ctx, b.Y)
			if n.plain(t) || n.plain(u) || t.isNil() || u.isNil() {
				continue
			}
			n.fail(st, s, "two interface values are compared that may both hold dictionaries or arrays")
		case "key comparison":
			if !n.plain(t) {
				n.fail(st, s, "the key may be a dictionary or an array, which can not be a key")
			}
		default:
			if ok, why := n.nonNil(st, t); !ok {
				n.fail(st, s, "the "+strings.SplitN(s.kind, " of ", 2)[0]+" may be on nil: "+why)
			}
		}
	}
}

// plain: the interface value is known to hold a comparable value.
func (n *nilRun) plain(t *Term) bool {
	return t.hasOp("iface:") && t.typ != nil && types.Comparable(t.typ)
}

func (n *nilRun) holds(key string) (bool, string) {
	if why, ok := n.x.maybe[key]; ok {
		if i := strings.LastIndex(why, " <- "); i > 300 {
			why = why[:300]
		}
		return false, key + " <- " + why
	}
	return true, ""
}

// nonNil proves that the value is not nil.
func (n *nilRun) nonNil(st *State, t *Term) (bool, string) {
	e := n.e
	if t == nil {
		return false, "unknown value"
	}
	if t.isNil() {
		return false, "the value is nil"
	}
	switch t.kind {
	case 's':
		return n.global(t.glob)
	case 'p':
		if e.Eval(st, e.Cmp(token.EQL, t, e.in.Nil())) == 0 {
			return true, ""
		}
		return n.holds("param:" + t.op)
	}
	switch e.Eval(st, e.Cmp(token.EQL, t, e.in.Nil())) {
	case 0:
		return true, ""
	case 1:
		return false, "the value is nil"
	}
	if r := e.Resolve(st, t); r != t {
		return n.nonNil(st, r)
	}
	switch t.kind {
	case 'u':
		return n.pure(st, t)
	case 'n':
		return n.node(st, t)
	}
	return false, "unknown value " + short(t)
}

func short(t *Term) string {
	s := t.String()
	if len(s) > 80 {
		s = s[:80] + "…"
	}
	return s
}

func (n *nilRun) global(g *ssa.Global) (bool, string) {
	if g == nil {
		return false, "unknown variable"
	}
	if g.Pkg != nil && g.Pkg != n.x.p.Pdf && g.Pkg != n.x.p.Main {
		return true, "" // os.Stderr and the like
	}
	if !n.x.own[g] {
		return false, "variable " + g.Name() + " is not set when the package is initialised"
	}
	return n.holds("global:" + g.String())
}

func (n *nilRun) pure(st *State, t *Term) (bool, string) {
	e := n.e
	switch {
	case t.hasOp("as:"):
		ts := t.op[3:]
		if e.Eval(st, e.in.PureT(types.Typ[types.Bool], "is:"+ts, t.args[0])) == 0 {
			return false, "the assertion to " + ts + " fails"
		}
		if e.Eval(st, e.in.PureT(types.Typ[types.Bool], "is:"+ts, t.args[0])) != 1 {
			return false, "the assertion to " + ts + " may fail"
		}
		if strings.HasPrefix(ts, "interface ") {
			return true, ""
		}
		return n.holds("make:" + ts)
	case t.is("rc4"):
		return true, "" // the length of the key is judged by C01 where success is not looked at
	case t.hasOp("field:"):
		return n.structField(t)
	case strings.HasPrefix(t.op, "call:"):
		return n.result(st, t, t, 0, true)
	case t.hasOp("x:"), t.hasOp("mv:"):
		i, _ := strconv.Atoi(t.op[strings.IndexByte(t.op, ':')+1:])
		b := t.args[0]
		if strings.HasPrefix(b.op, "call:") {
			return n.result(st, b, t, i, false)
		}
		if b.kind != 'n' {
			return false, "unknown value " + short(t)
		}
		switch v := b.val.(type) {
		case *ssa.Next:
			rg, ok := v.Iter.(*ssa.Range)
			if ok && i == 2 {
				if mt, ok := rg.X.Type().Underlying().(*types.Map); ok {
					return n.holds("mapel:" + mt.Elem().String())
				}
			}
		case *ssa.Lookup:
			mt, ok := v.X.Type().Underlying().(*types.Map)
			if !ok || i != 0 {
				break
			}
			if e.Eval(st, e.in.PureT(types.Typ[types.Bool], t.op[:strings.IndexByte(t.op, ':')]+":1", b)) == 1 || n.isKey(st, t) {
				return n.holds("mapel:" + mt.Elem().String())
			}
			return false, "the map may not have the key"
		case ssa.CallInstruction:
			return n.result(st, b, t, i, false)
		}
	}
	return false, "unknown value " + short(t)
}

// isKey: the element was looked up with a key of the map.
func (n *nilRun) isKey(st *State, t *Term) bool {
	for c, v := range st.cells {
		if v != t || !c.is("mapel") {
			continue
		}
		m, k := c.args[0], c.args[1]
		if n.e.iterKey(st, m, k) {
			return true
		}
		for c, v := range st.cells {
			if v == k && c.is("iaddr") && (c.args[0].is("keysof") || c.args[0].is("call:Dictionary.keys")) && c.args[0].args[0] == m {
				return true
			}
		}
	}
	return false
}

// structField is a field of a struct value.
func (n *nilRun) structField(t *Term) (bool, string) {
	b := t.args[0]
	if b.kind == 'c' {
		return false, "the struct is zero"
	}
	if b.typ == nil {
		return false, "unknown struct"
	}
	s, ok := structOf(b.typ)
	if !ok {
		return false, "unknown struct"
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == t.op[6:] {
			return n.holds("field:" + fieldKey(types.NewPointer(b.typ), i))
		}
	}
	return false, "unknown field"
}

func (n *nilRun) node(st *State, t *Term) (bool, string) {
	switch v := t.val.(type) {
	case *ssa.UnOp:
		if v.Op == token.MUL {
			return n.loaded(v.X)
		}
	case ssa.CallInstruction:
		return n.result(st, t, t, 0, true)
	case *ssa.Phi:
		return n.holds(phiKey(v))
	case *ssa.Next:
		return false, "unknown iteration value"
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeClosure, *ssa.MakeInterface:
		return true, ""
	case *ssa.FreeVar:
		return true, ""
	case *ssa.Parameter:
		return n.holds(fmt.Sprintf("param:%s.%d", fnName(v.Parent()), paramIndex(v)))
	}
	return false, "unknown value " + short(t)
}

func paramIndex(v *ssa.Parameter) int {
	for i, q := range v.Parent().Params {
		if q == v {
			return i
		}
	}
	return -1
}

func phiKey(v *ssa.Phi) string {
	return fmt.Sprintf("phi:%s.%s", fnName(v.Parent()), v.Name())
}

func (n *nilRun) loaded(addr ssa.Value) (bool, string) {
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		if external(deref(a.X.Type())) {
			return true, ""
		}
		return n.holds("field:" + fieldKey(a.X.Type(), a.Field))
	case *ssa.IndexAddr:
		return n.holds("elem:" + deref(a.Type()).String())
	case *ssa.Global:
		return n.global(a)
	case *ssa.FreeVar:
		return n.variable(a)
	case *ssa.Alloc:
		return n.holds(varKey(a))
	}
	return n.holds("ptr:" + deref(addr.Type()).String())
}

func varKey(a *ssa.Alloc) string { return fmt.Sprintf("var:%s.%s", fnName(a.Parent()), a.Name()) }

// variable is a captured variable: set before it is captured, and never to nil.
func (n *nilRun) variable(fv *ssa.FreeVar) (bool, string) {
	f := fv.Parent()
	k := -1
	for i, v := range f.FreeVars {
		if v == fv {
			k = i
		}
	}
	found := false
	for _, g := range n.x.p.Funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				mc, ok := in.(*ssa.MakeClosure)
				if !ok || mc.Fn != f || k < 0 {
					continue
				}
				found = true
				switch y := mc.Bindings[k].(type) {
				case *ssa.Alloc:
					set := false
					for _, ref := range *y.Referrers() {
						if s, ok := ref.(*ssa.Store); ok && s.Addr == y && (s.Block() != mc.Block() && s.Block().Dominates(mc.Block()) || s.Block() == mc.Block() && before(s, mc)) {
							set = true
						}
					}
					if !set {
						return false, "the captured variable may not be set"
					}
					if ok, why := n.holds(varKey(y)); !ok {
						return false, why
					}
				case *ssa.FreeVar:
					if ok, why := n.variable(y); !ok {
						return false, why
					}
				default:
					return false, "unknown captured variable"
				}
			}
		}
	}
	return found, "unknown captured variable"
}

func before(a, b ssa.Instruction) bool {
	for _, in := range a.Block().Instrs {
		if in == a {
			return true
		}
		if in == b {
			return false
		}
	}
	return false
}

// result: the i-th result of a call.
func (n *nilRun) result(st *State, call, t *Term, i int, single bool) (bool, string) {
	e := n.e
	var fns []*ssa.Function
	var sig *types.Signature
	name := ""
	if strings.HasPrefix(call.op, "call:") && call.kind == 'u' {
		name = call.op[5:]
		if f := n.x.p.Func(name); f != nil {
			fns, sig = []*ssa.Function{f}, f.Signature
		}
	} else if c, ok := call.val.(ssa.CallInstruction); ok {
		com := c.Common()
		sig = com.Signature()
		name = commonName(com)
		if bi, ok := com.Value.(*ssa.Builtin); ok {
			if bi.Name() == "min" || bi.Name() == "max" {
				return true, ""
			}
			return false, "the result of " + bi.Name() + " may be nil"
		}
		all, ok := n.x.p.Callees(com)
		for _, f := range all {
			if n.x.p.InRepo(f) && len(f.Blocks) > 0 {
				fns = append(fns, f)
			}
		}
		if !ok {
			return false, "the called function is not known"
		}
	}
	if sig == nil {
		return true, "" // a pure library function
	}
	res := sig.Results()
	cond := false
	if !single && res.Len() > 1 {
		last := res.At(res.Len() - 1).Type()
		lt := e.in.PureT(last, "x:"+strconv.Itoa(res.Len()-1), call)
		switch {
		case i == res.Len()-1:
		case types.Identical(last, errorType):
			cond = e.Eval(st, e.Cmp(token.EQL, lt, e.in.Nil())) == 1
		case isBoolType(last):
			cond = e.Eval(st, lt) == 1
		default:
			cond = true
		}
	}
	if len(fns) == 0 {
		if single && nilResults[name] {
			return false, "the result of " + name + " may be nil"
		}
		if single && types.Identical(res.At(0).Type(), errorType) || !single && i == res.Len()-1 && types.Identical(res.At(i).Type(), errorType) {
			return false, "the error may be nil"
		}
		if single || cond {
			return true, ""
		}
		return false, "the result of " + name + " is only set when it succeeds"
	}
	for _, f := range fns {
		if ok, why := n.holds(fmt.Sprintf("resok:%s.%d", fnName(f), i)); !ok {
			return false, why
		}
		if !cond {
			if ok, why := n.holds(fmt.Sprintf("res:%s.%d", fnName(f), i)); !ok {
				return false, why
			}
		}
	}
	return true, ""
}

// nilResults are library functions with a single result that may be nil.
var nilResults = map[string]bool{"errors.Unwrap": true, "flag.Lookup": true, "builtin recover": true, "context.Cause": true, "encoding/pem.Decode": true, "runtime.FuncForPC": true}

func (n *nilRun) store(st *State, ctx *Ctx, in *ssa.Store, addr, val *Term) {
	t := in.Val.Type()
	at := " at " + n.x.p.InstrPos(in)
	if _, isS := structOf(t); isS {
		if val.kind == 'c' && !external(t) {
			n.x.zeroed(t, nil, "a zero value is stored"+at)
		}
		return
	}
	if !nilable(t) {
		return
	}
	ok, why := n.nonNil(st, val)
	if ok {
		return
	}
	n.setNil(in.Addr, t, why+at)
}

// setNil: nil may be stored in the place.
func (n *nilRun) setNil(addr ssa.Value, t types.Type, why string) {
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		n.x.mark("field:"+fieldKey(a.X.Type(), a.Field), why)
	case *ssa.IndexAddr:
		n.x.mark("elem:"+t.String(), why)
	case *ssa.Global:
		n.x.mark("global:"+a.String(), why)
	case *ssa.Alloc:
		n.x.mark(varKey(a), why)
		n.x.mark("ptr:"+t.String(), why)
	case *ssa.FreeVar:
		n.x.mark("ptr:"+t.String(), why)
		for _, v := range captured(n.x.p, a, 0) {
			n.x.mark(varKey(v), why)
		}
	default:
		n.x.mark("ptr:"+t.String(), why)
	}
}

// captured lists the variables a free variable stands for.
func captured(p *Program, fv *ssa.FreeVar, depth int) []*ssa.Alloc {
	var out []*ssa.Alloc
	if depth > 5 {
		return nil
	}
	for _, g := range p.Funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				mc, ok := in.(*ssa.MakeClosure)
				if !ok || mc.Fn != fv.Parent() {
					continue
				}
				for i, v := range fv.Parent().FreeVars {
					if v != fv {
						continue
					}
					switch y := mc.Bindings[i].(type) {
					case *ssa.Alloc:
						out = append(out, y)
					case *ssa.FreeVar:
						out = append(out, captured(p, y, depth+1)...)
					}
				}
			}
		}
	}
	return out
}

func (n *nilRun) update(st *State, ctx *Ctx, in *ssa.MapUpdate, m, k, v *Term) {
	if !nilable(in.Value.Type()) {
		return
	}
	if ok, why := n.nonNil(st, v); !ok {
		n.x.mark("mapel:"+in.Value.Type().String(), why+" at "+n.x.p.InstrPos(in))
	}
}

func (n *nilRun) call(st *State, c *Call) {
	if c.Inlined {
		return
	}
	fns := []*ssa.Function{c.Fn}
	skip := 0
	if c.Fn == nil || c.Com.IsInvoke() {
		fns, _ = n.x.p.Callees(c.Com)
		if c.Com.IsInvoke() {
			skip = 1
		}
	}
	for _, f := range fns {
		if f == nil || !n.x.p.InRepo(f) || len(f.Blocks) == 0 {
			continue
		}
		for i, prm := range f.Params {
			if i < skip || i >= len(c.Args) || !nilable(prm.Type()) {
				continue
			}
			if ok, why := n.nonNil(st, c.Args[i]); !ok {
				n.x.mark(fmt.Sprintf("param:%s.%d", fnName(f), i), why+" at "+n.x.p.InstrPos(c.In))
			}
		}
	}
}

func (n *nilRun) edge(st *State, ctx *Ctx, from, to *ssa.BasicBlock) {
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if !nilable(phi.Type()) {
			continue
		}
		if _, ok := n.x.maybe[phiKey(phi)]; ok {
			continue
		}
		if ok, why := n.nonNil(st, n.e.incoming(st, ctx, phi, from)); !ok {
			n.x.mark(phiKey(phi), why)
		}
	}
}

func (n *nilRun) ret(st *State, ctx *Ctx, in *ssa.Return, res []*Term) {
	f := ctx.fn
	rs := f.Signature.Results()
	for i, t := range res {
		if i >= rs.Len() || !nilable(rs.At(i).Type()) {
			continue
		}
		ok, why := n.nonNil(st, t)
		if recovers(f) {
			ok, why = false, "the function may be left through a recovered panic"
		}
		if ok {
			continue
		}
		why += " at " + n.x.p.InstrPos(in)
		n.x.mark(fmt.Sprintf("res:%s.%d", fnName(f), i), why)
		if k := rs.Len() - 1; k > 0 && i < k {
			switch {
			case isBoolType(rs.At(k).Type()):
				if n.e.Eval(st, res[k]) == 0 {
					continue
				}
			case types.Identical(rs.At(k).Type(), errorType):
				if ok, _ := n.nonNil(st, res[k]); ok {
					continue
				}
			}
		}
		n.x.mark(fmt.Sprintf("resok:%s.%d", fnName(f), i), why)
	}
}
