package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C03"] = &Check{
		Rule: "every cycle of the call graph is cut on every path of some call by a bounded counter that is restored, by marking a number that had not been marked before in a map that is passed along or kept until the call returns, or by descending into a part of a finite value",
		Run:  runC03,
	}
}

// calleesOf lists the in-repo functions a function can enter, with the calls that enter them.
func (p *Program) calleesOf(f *ssa.Function) map[*ssa.Function][]ssa.Instruction {
	out := map[*ssa.Function][]ssa.Instruction{}
	add := func(g *ssa.Function, in ssa.Instruction) {
		if g != nil && len(g.Blocks) > 0 && p.InRepo(g) {
			out[g] = append(out[g], in)
		}
	}
	usesFmt := false
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case ssa.CallInstruction:
				fns, _ := p.Callees(x.Common())
				external := false
				for _, g := range fns {
					add(g, in)
					external = external || !p.InRepo(g)
					if !p.InRepo(g) && g.Pkg != nil && (g.Pkg.Pkg.Path() == "fmt" || g.Pkg.Pkg.Path() == "log") {
						usesFmt = true
					}
				}
				if external {
					for _, a := range x.Common().Args {
						switch y := a.(type) {
						case *ssa.MakeClosure:
							add(y.Fn.(*ssa.Function), in)
						case *ssa.Function:
							add(y, in)
						}
					}
				}
			}
		}
	}
	if usesFmt {
		// values that are formatted
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var t types.Type
				switch x := in.(type) {
				case *ssa.MakeInterface:
					t = x.X.Type()
				case *ssa.ChangeInterface:
					t = x.X.Type()
				default:
					continue
				}
				for _, m := range []string{"String", "Error"} {
					if it, ok := t.Underlying().(*types.Interface); ok {
						for i := 0; i < it.NumMethods(); i++ {
							if it.Method(i).Name() == m {
								for _, g := range p.implementers(&ssa.CallCommon{Value: in.(ssa.Value).(*ssa.ChangeInterface).X, Method: it.Method(i)}) {
									add(g, in)
								}
							}
						}
					} else if sel := types.NewMethodSet(t).Lookup(p.Pdf.Pkg, m); sel != nil {
						if fo, ok := sel.Obj().(*types.Func); ok {
							add(p.Prog.FuncValue(fo), in)
						}
					}
				}
			}
		}
	}
	return out
}

// cycles gives the strongly connected components with a cycle.
func cycles(nodes []*ssa.Function, edges map[*ssa.Function]map[*ssa.Function]bool) [][]*ssa.Function {
	index, low := map[*ssa.Function]int{}, map[*ssa.Function]int{}
	on := map[*ssa.Function]bool{}
	var stack []*ssa.Function
	var out [][]*ssa.Function
	n := 0
	var visit func(v *ssa.Function)
	visit = func(v *ssa.Function) {
		n++
		index[v], low[v] = n, n
		stack = append(stack, v)
		on[v] = true
		for w := range edges[v] {
			if index[w] == 0 {
				visit(w)
				low[v] = min(low[v], low[w])
			} else if on[w] {
				low[v] = min(low[v], index[w])
			}
		}
		if low[v] == index[v] {
			var c []*ssa.Function
			for {
				w := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[w] = false
				c = append(c, w)
				if w == v {
					break
				}
			}
			if len(c) > 1 || edges[v][v] {
				sort.Slice(c, func(i, j int) bool { return fnName(c[i]) < fnName(c[j]) })
				out = append(out, c)
			}
		}
	}
	for _, f := range nodes {
		if index[f] == 0 {
			visit(f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return fnName(out[i][0]) < fnName(out[j][0]) })
	return out
}

func names(fs []*ssa.Function) string {
	var s []string
	for _, f := range fs {
		s = append(s, fnName(f))
	}
	return strings.Join(s, " -> ")
}

type recEdge struct{ from, to *ssa.Function }

// recInfo is what was found out about the calls from one function of a cycle to another.
type recInfo struct {
	cut    bool // every call is bounded by itself (counter or marks kept in a field)
	marks  bool // before every call something new is marked in a map that is passed along
	passed bool // every call passes the map parameters along
	down   bool // every call marks something or descends into a part of a value
	weak   bool // every call marks something, descends or hands the same value on
	pos    string
	path   []string
	why    string
	n      int
}

func runC03(p *Program, r *Report) {
	edges := map[*ssa.Function]map[*ssa.Function]bool{}
	calls := 0
	for _, f := range p.Funcs {
		edges[f] = map[*ssa.Function]bool{}
		for g, ins := range p.calleesOf(f) {
			edges[f][g] = true
			calls += len(ins)
		}
	}
	for _, scc := range cycles(p.Funcs, edges) {
		judgeCycle(p, r, scc, edges)
	}
	builtBottomUp(p, r)
	for _, f := range p.Funcs {
		r.Functions[fnName(f)] = true
	}
	r.Sites += calls
	r.sample("%d functions, %d calls between them", len(p.Funcs), calls)
}

// mapParams: the parameters of a function that are maps.
func mapParams(f *ssa.Function) []int {
	var out []int
	for i, q := range f.Params {
		if _, ok := q.Type().Underlying().(*types.Map); ok && !isValueType(q.Type()) {
			out = append(out, i)
		}
	}
	return out
}

func judgeCycle(p *Program, r *Report, scc []*ssa.Function, edges map[*ssa.Function]map[*ssa.Function]bool) {
	in := map[*ssa.Function]bool{}
	for _, f := range scc {
		in[f] = true
	}
	info := map[recEdge]*recInfo{}
	for _, f := range scc {
		for g := range edges[f] {
			if in[g] {
				info[recEdge{f, g}] = &recInfo{pos: p.Pos(f.Pos())}
			}
		}
	}
	graph := func(keep func(i *recInfo) bool) map[*ssa.Function]map[*ssa.Function]bool {
		g := map[*ssa.Function]map[*ssa.Function]bool{}
		for e, i := range info {
			if keep(i) {
				if g[e.from] == nil {
					g[e.from] = map[*ssa.Function]bool{}
				}
				g[e.from][e.to] = true
			}
		}
		return g
	}
	// the functions are looked into one after the other until every cycle is bounded
	analysed := map[*ssa.Function]bool{}
	var open [][]*ssa.Function
	for {
		open = nil
		var next *ssa.Function
		for _, c := range cycles(scc, graph(func(i *recInfo) bool { return !i.cut })) {
			if bounded(c, info) {
				continue
			}
			open = append(open, c)
			for _, f := range c {
				if !analysed[f] && (next == nil || marksSomething(f) && !marksSomething(next)) {
					next = f
				}
			}
		}
		if next == nil {
			break
		}
		analysed[next] = true
		for g := range edges[next] {
			if in[g] {
				info[recEdge{next, g}] = &recInfo{pos: p.Pos(next.Pos()), why: "the call is not seen by the analysis"}
			}
		}
		recursiveCalls(p, r, next, in, info)
	}
	left := 0
	for _, c := range open {
		inner := map[*ssa.Function]bool{}
		for _, f := range c {
			inner[f] = true
		}
		left++
		var es []recEdge
		for e, i := range info {
			if inner[e.from] && inner[e.to] && !i.cut && !(i.down && i.passed) {
				es = append(es, e)
			}
		}
		sort.Slice(es, func(i, j int) bool {
			return fnName(es[i].from)+fnName(es[i].to) < fnName(es[j].from)+fnName(es[j].to)
		})
		for _, e := range es {
			i := info[e]
			r.fail("recursion", fnName(e.from)+" -> "+fnName(e.to), i.pos, "the recursion "+names(c)+" is not bounded here: "+i.why, i.path)
		}
		if len(es) == 0 {
			r.fail("recursion", names(c), p.Pos(c[0].Pos()), "the recursion "+names(c)+" is not bounded", nil)
		}
	}
	r.ob(left == 0)
	var cuts []string
	for e, i := range info {
		if i.cut || i.down {
			cuts = append(cuts, fnName(e.from)+" -> "+fnName(e.to))
		}
	}
	sort.Strings(cuts)
	r.sample("cycle %s: bounded at %s", names(scc), strings.Join(cuts, ", "))
}

// bounded: a cycle of calls cannot be followed for ever. With marks, what is left to be marked gets less with some call of
// each cycle; between two such calls the values get smaller.
func bounded(c []*ssa.Function, info map[recEdge]*recInfo) bool {
	inside := func(c []*ssa.Function) map[recEdge]*recInfo {
		inner := map[*ssa.Function]bool{}
		for _, f := range c {
			inner[f] = true
		}
		out := map[recEdge]*recInfo{}
		for e, i := range info {
			if inner[e.from] && inner[e.to] && !i.cut {
				out[e] = i
			}
		}
		return out
	}
	sub := func(c []*ssa.Function, keep func(i *recInfo) bool) [][]*ssa.Function {
		g := map[*ssa.Function]map[*ssa.Function]bool{}
		for e, i := range inside(c) {
			if keep(i) {
				if g[e.from] == nil {
					g[e.from] = map[*ssa.Function]bool{}
				}
				g[e.from][e.to] = true
			}
		}
		return cycles(c, g)
	}
	passed := true
	for _, i := range inside(c) {
		passed = passed && i.passed
	}
	rest := sub(c, func(i *recInfo) bool { return !passed || !i.marks })
	for _, c := range rest {
		for _, i := range inside(c) {
			if !i.weak || !passed {
				return false
			}
		}
		if len(sub(c, func(i *recInfo) bool { return !i.down })) > 0 {
			return false
		}
	}
	return true
}

// recursiveCalls judges the calls of f that stay in the cycle.
func recursiveCalls(p *Program, r *Report, f *ssa.Function, in map[*ssa.Function]bool, info map[recEdge]*recInfo) {
	e := NewEngine(p)
	e.NoLookahead, e.KeepFacts, e.NoContent = true, true, true
	e.Forget = func(t *Term) bool {
		// what is known about values looked up by name has no bearing on how deep the calls go
		if !t.hasCall {
			return false
		}
		return !t.is("is:*Reference") && !(t.is("x:1") && strings.HasSuffix(t.args[0].op, ".GetReference"))
	}
	def := e.Opaque
	e.Opaque = func(g *ssa.Function) bool { return in[g] || def != nil && def(g) || !smallHelper(g) }
	counters := map[string]bool{}
	fields := p.privateCounters(f)
	judge := func(st *State, in ssa.Instruction, g *ssa.Function, args []*Term) {
		i := info[recEdge{f, g}]
		if i == nil {
			return
		}
		if i.n == 0 {
			*i = recInfo{cut: true, marks: true, passed: true, down: true, weak: true}
		}
		i.n++
		cut := e.counted(st, counters, fields) || e.markedField(st)
		marked, passed := false, true
		for _, j := range mapParams(g) {
			mine := false
			if j < len(args) {
				for _, k := range mapParams(f) {
					mine = mine || args[j] == e.ParamTerm(k)
				}
				marked = marked || mine && st.flags[fmt.Sprintf("marked:%d", args[j].id)] != ""
			}
			passed = passed && mine
		}
		part := e.partOf(st, g, args)
		down := marked || part == 2
		fail := func(why string) {
			if i.why == "" {
				i.pos, i.path, i.why = p.InstrPos(in), st.Path(), why
			}
		}
		if !cut && !passed {
			fail("the marks of what has been visited are not passed along")
		}
		if !cut && !down {
			fail("the call can go deeper without marking anything new, descending into a value or counting")
		}
		i.cut = i.cut && cut
		i.marks = i.marks && marked
		i.down = i.down && down
		i.passed = i.passed && passed
		i.weak = i.weak && (down || part > 0)
	}
	e.H.Call = func(st *State, c *Call) {
		var targets []*ssa.Function
		if c.Fn != nil {
			targets = []*ssa.Function{c.Fn}
		} else {
			targets, _ = p.Callees(c.Com)
		}
		if c.Name == "builtin delete" {
			delete(st.flags, fmt.Sprintf("marked:%d", c.Args[0].id))
		}
		for _, g := range targets {
			judge(st, c.In, g, c.Args)
			if in[g] {
				// what the cycle does not change outside of this function is as before when the call returns
				for k, v := range st.cells {
					if fields[k.op] {
						st.pins["save:"+k.op], st.pins["saved:"+k.op] = k, v
					}
				}
			}
		}
	}
	formatted := map[ssa.Instruction][]*ssa.Function{}
	for g, ins := range p.calleesOf(f) {
		for _, x := range ins {
			switch x.(type) {
			case *ssa.MakeInterface, *ssa.ChangeInterface:
				formatted[x] = append(formatted[x], g)
			}
		}
	}
	e.H.MapUpd = func(st *State, ctx *Ctx, in *ssa.MapUpdate, m, k, v *Term) {
		ok, was := st.cells[e.mapCell("mapok", m, k)], st.cells[e.mapCell("mapel", m, k)]
		// a mark is an entry that was not there, or one that was false and is true now
		if ok != nil && e.Eval(st, ok) == 0 || was != nil && isTrue(v) && e.Eval(st, was) == 0 {
			st.flags[fmt.Sprintf("marked:%d", m.id)] = "1"
			st.pins[fmt.Sprintf("marked:%d", m.id)] = m
		}
	}
	e.H.After = func(st *State, c *Call) {
		for op := range fields {
			if k := st.pins["save:"+op]; k != nil {
				st.cells[k] = st.pins["saved:"+op]
				delete(st.pins, "save:"+op)
				delete(st.pins, "saved:"+op)
			}
		}
		if !c.Inlined && len(c.Args) == 2 && strings.HasSuffix(c.Name, ".GetReference") {
			st.pins[fmt.Sprintf("ref:%d", c.Result.id)] = c.Result
		}
	}
	e.H.Instr = func(st *State, ctx *Ctx, in ssa.Instruction) {
		for _, g := range formatted[in] {
			if ctx.parent == nil {
				judge(st, in, g, []*Term{e.V(st, ctx, *in.Operands(nil)[0])})
			}
		}
		if x, ok := in.(*ssa.TypeAssert); ok && x.CommaOk && typeStr(x.AssertedType) == "*Reference" {
			v := e.V(st, ctx, x.X)
			for k, w := range st.cells {
				if v == w {
					// elements of values never change
					st.pins["asserted:"+p.InstrPos(in)], st.pins["elem:"+p.InstrPos(in)] = v, k
				}
			}
		}
	}
	e.H.Store = func(st *State, ctx *Ctx, in *ssa.Store, addr, v *Term) {
		if fields[addr.op] {
			st.flags["stored:"+addr.op] = "1"
		}
	}
	type lost struct {
		pos  string
		path []string
	}
	unrestored := map[string]lost{}
	e.H.Ret = func(st *State, ctx *Ctx, in *ssa.Return, res []*Term) {
		// counters are restored
		for k, v := range st.cells {
			if !fields[k.op] || st.flags["stored:"+k.op] == "" {
				continue
			}
			if n, d := linOf(e, v); n == nil || d != 0 || !isLoadOf(n, k) {
				if _, ok := unrestored[k.op]; !ok {
					unrestored[k.op] = lost{p.InstrPos(in), st.Path()}
				}
			}
		}
	}
	e.Run(f, nil)
	r.finish(e, fnName(f))
	for c := range counters {
		l, bad := unrestored[c]
		r.ob(!bad)
		if bad {
			r.fail("counter", fnName(f), l.pos, "the recursion counter "+strings.TrimPrefix(c, "faddr:")+" is not restored", l.path)
		}
	}
}

// privateCounters: the integer fields that are not changed outside of a function, its closures and its helpers.
func (p *Program) privateCounters(f *ssa.Function) map[string]bool {
	out := map[string]bool{}
	for _, g := range p.Funcs {
		for _, b := range g.Blocks {
			for _, x := range b.Instrs {
				if fa, ok := x.(*ssa.FieldAddr); ok && isIntType(fa.Type().Underlying().(*types.Pointer).Elem()) {
					k := "faddr:" + fieldKey(fa.X.Type(), fa.Field)
					if _, ok := out[k]; !ok {
						out[k] = true
					}
					for _, u := range *fa.Referrers() {
						if l, ok := u.(*ssa.UnOp); ok && l.Op == token.MUL {
							continue
						}
						if s, ok := u.(*ssa.Store); ok && s.Addr == fa {
							if _, ok := fa.X.(*ssa.Alloc); ok || g == f || g.Parent() == f || p.onlyFrom(g, f) {
								continue
							}
						}
						out[k] = false
					}
				}
			}
		}
	}
	for k, ok := range out {
		if !ok {
			delete(out, k)
		}
	}
	return out
}

// marksSomething: the function changes a map or a field.
func marksSomething(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.MapUpdate:
				return true
			case *ssa.Store:
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
					if _, ok := fa.X.(*ssa.Alloc); !ok {
						return true
					}
				}
			}
		}
	}
	return false
}

// smallHelper: a function without loops that does little; only those are looked into.
func smallHelper(g *ssa.Function) bool {
	n := 0
	for _, b := range g.Blocks {
		n += len(b.Instrs)
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return false
			}
		}
	}
	return n <= 60
}

// memberHelper: a small function whose only loop looks through the elements of something.
func (p *Program) memberHelper(g *ssa.Function) bool {
	n := 0
	for _, b := range g.Blocks {
		n += len(b.Instrs)
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if _, ok := c.Common().Value.(*ssa.Builtin); !ok {
					return false
				}
			}
			switch in.(type) {
			case *ssa.Store, *ssa.MapUpdate:
				return false
			}
		}
	}
	ls := p.Loops(g)
	if n > 60 || len(ls.Loops) != 1 {
		return false
	}
	l := ls.Loops[0]
	for _, phi := range phis(l.Header) {
		iv := p.inductive(phi)
		if iv == nil {
			return false
		}
		for b := range l.Body {
			if be := p.loopBound(g, l, iv, b); be != nil && isLen(be.limit) {
				return true
			}
		}
	}
	return false
}

// onlyFrom: g is a helper called by f only.
func (p *Program) onlyFrom(g, f *ssa.Function) bool {
	for _, h := range p.Funcs {
		if h == f || h.Parent() == f {
			continue
		}
		if _, ok := p.calleesOf(h)[g]; ok {
			return false
		}
	}
	return true
}

// linOf splits a value into a node and a distance.
func linOf(e *Engine, v *Term) (*Term, int64) {
	l := e.in.lin(v)
	if len(l.k) != 1 {
		return nil, 0
	}
	for a, k := range l.k {
		if k == 1 {
			return a, l.c
		}
	}
	return nil, 0
}

// isLoadOf: node n was loaded from a field.
func isLoadOf(n, addr *Term) bool {
	if n.kind != 'n' {
		return false
	}
	u, ok := n.val.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	return ok && "faddr:"+fieldKey(fa.X.Type(), fa.Field) == addr.op
}

// counted: some counter has been increased on this path and was below a constant before.
func (e *Engine) counted(st *State, counters, fields map[string]bool) bool {
	for k, v := range st.cells {
		if k.kind != 'u' || !fields[k.op] || v.typ == nil || !isIntType(v.typ) {
			continue
		}
		n, d := linOf(e, v)
		if n == nil || d < 1 || !isLoadOf(n, k) {
			continue
		}
		if _, hi, _, ok := e.Range(st, n); ok && hi < 1<<20 {
			counters[k.op] = true
			return true
		}
	}
	return false
}

// markedField: something new has been marked in a map kept in a field.
func (e *Engine) markedField(st *State) bool {
	for k, v := range st.cells {
		if k.kind == 'u' && strings.HasPrefix(k.op, "faddr:") && st.flags[fmt.Sprintf("marked:%d", v.id)] != "" {
			return true
		}
	}
	return false
}

// partOf: 2 the value handed on is a proper part of the value that was given, 1 the value itself, 0 neither.
func (e *Engine) partOf(st *State, g *ssa.Function, args []*Term) int {
	i := valueParam(g)
	if i >= len(args) {
		return 0
	}
	return e.part(st, args[i])
}

// valueParam: the parameter that holds the value a function works on.
func valueParam(f *ssa.Function) int {
	for i, q := range f.Params {
		if isValueType(q.Type()) {
			return i
		}
	}
	return 0
}

func (e *Engine) part(st *State, t *Term) int {
	t = peel(t)
	for t.is("as:Dictionary") || t.is("as:Array") {
		t = peel(t.args[0])
	}
	var given *Term
	if len(e.root.Params) > 0 {
		given = e.ParamTerm(valueParam(e.root))
	}
	if t == given && isValueType(given.typ) {
		return 1
	}
	// elements
	for k, v := range st.cells {
		if v != t {
			continue
		}
		switch {
		case k.is("iaddr"), k.is("mapel"):
			if e.part(st, k.args[0]) > 0 {
				return 2
			}
		case strings.HasPrefix(k.op, "faddr:"):
			if k.args[0] == given && e.p.setAtStart(strings.TrimPrefix(k.op, "faddr:")) {
				return 2
			}
		}
	}
	// entries that are known not to be references
	if t.hasOp("x:0") && len(t.args[0].args) == 2 && e.part(st, t.args[0].args[0]) > 0 {
		g := t.args[0]
		direct := false
		element := func(k *Term) *Term {
			for n, w := range st.pins {
				if w == k && strings.HasPrefix(n, "elem:") {
					return st.pins["asserted:"+n[len("elem:"):]]
				}
			}
			return st.cells[k]
		}
		switch {
		case strings.HasPrefix(g.op, "call:Dictionary."):
			direct = e.Eval(st, e.okOf(e.in.Pure("call:Dictionary.GetReference", g.args...))) == 0
			if x := element(e.mapCell("mapel", g.args[0], g.args[1])); x != nil {
				direct = direct || e.Eval(st, e.in.Pure("is:*Reference", x)) == 0
			}
		case strings.HasPrefix(g.op, "call:Array."):
			if x := element(e.in.Pure("iaddr", g.args[0], g.args[1])); x != nil {
				direct = e.Eval(st, e.in.Pure("is:*Reference", x)) == 0
			}
			direct = direct || e.Eval(st, e.okOf(e.in.Pure("call:Array.GetReference", g.args...))) == 0
		}
		if direct {
			return 2
		}
	}
	return 0
}

// setAtStart: a field is only set when its struct is made, to something that existed before.
func (p *Program) setAtStart(field string) bool {
	for _, g := range p.Funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if pt, ok := s.Addr.Type().Underlying().(*types.Pointer); ok && typeStr(pt.Elem()) == field[:strings.Index(field, ".")] {
						return false
					}
				}
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || fieldKey(fa.X.Type(), fa.Field) != field {
					continue
				}
				for _, u := range *fa.Referrers() {
					switch x := u.(type) {
					case *ssa.UnOp:
						continue
					case *ssa.Store:
						if _, ok := fa.X.(*ssa.Alloc); ok && x.Addr == fa {
							switch x.Val.(type) {
							case *ssa.Parameter, *ssa.Const:
								continue
							}
						}
					}
					return false
				}
			}
		}
	}
	return true
}

func isValueType(t types.Type) bool {
	switch typeStr(t) {
	case "Object", "Dictionary", "Array":
		return true
	}
	return false
}

// builtBottomUp: values can only contain values that existed before, so they are finite.
func builtBottomUp(p *Program, r *Report) {
	n := 0
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var c ssa.Value
				switch x := in.(type) {
				case *ssa.MapUpdate:
					if typeStr(x.Map.Type()) == "Dictionary" {
						c = x.Map
					}
				case *ssa.Store:
					if ia, ok := x.Addr.(*ssa.IndexAddr); ok && typeStr(ia.X.Type()) == "Array" {
						c = ia.X
					}
				}
				if c == nil {
					continue
				}
				n++
				ok := madeIn(c, map[ssa.Value]bool{}) || p.neverWrapped(c)
				r.ob(ok)
				if !ok {
					r.fail("finite values", fnName(f), p.InstrPos(in), "a value that was not made here is changed, so that values may contain themselves", nil)
				}
			}
		}
	}
	r.sample("%d updates of dictionaries and arrays, all of values made in the same function or never made part of another value", n)
}

// neverWrapped: a value is kept in a field, and what is kept there is only looked into, never made part of another value.
func (p *Program) neverWrapped(c ssa.Value) bool {
	l, ok := c.(*ssa.UnOp)
	if !ok || l.Op != token.MUL {
		return false
	}
	fa, ok := l.X.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	field := fieldKey(fa.X.Type(), fa.Field)
	seen := map[ssa.Value]bool{}
	var inert func(v ssa.Value) bool
	inert = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		for _, u := range *v.Referrers() {
			switch x := u.(type) {
			case *ssa.Lookup, *ssa.Range, *ssa.DebugRef, *ssa.BinOp:
			case *ssa.MapUpdate:
				if x.Value == v || x.Key == v {
					return false
				}
			case *ssa.Phi:
				if !inert(x) {
					return false
				}
			case *ssa.ChangeType:
				if !inert(x) {
					return false
				}
			case ssa.CallInstruction:
				if b, ok := x.Common().Value.(*ssa.Builtin); ok && b.Name() == "len" {
					continue
				}
				fns, ok := p.Callees(x.Common())
				if !ok || x.Common().IsInvoke() {
					return false
				}
				for _, g := range fns {
					if !p.InRepo(g) || len(g.Blocks) == 0 {
						return false
					}
					for i, a := range x.Common().Args {
						if a == v && (i >= len(g.Params) || !inert(g.Params[i])) {
							return false
						}
					}
				}
			default:
				return false
			}
		}
		return true
	}
	for _, g := range p.Funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || fieldKey(fa.X.Type(), fa.Field) != field {
					continue
				}
				for _, u := range *fa.Referrers() {
					switch x := u.(type) {
					case *ssa.UnOp:
						if !inert(x) {
							return false
						}
					case *ssa.Store:
						if x.Addr != fa || !madeIn(x.Val, map[ssa.Value]bool{}) {
							return false
						}
					default:
						return false
					}
				}
			}
		}
	}
	return true
}

func madeIn(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.MakeMap, *ssa.MakeSlice, *ssa.Alloc:
		return true
	case *ssa.Slice:
		return madeIn(x.X, seen)
	case *ssa.ChangeType:
		return madeIn(x.X, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !madeIn(e, seen) {
				return false
			}
		}
		return true
	case *ssa.Const:
		return true
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return madeIn(x.Call.Args[0], seen)
		}
	case *ssa.UnOp:
		if a, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			for _, ref := range *a.Referrers() {
				if s, ok := ref.(*ssa.Store); ok && s.Addr == a && !madeIn(s.Val, seen) {
					return false
				}
			}
			return true
		}
	}
	return false
}
