package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"maps"
	"os"
	"regexp/syntax"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C04"] = &Check{
		Rule: "on every path around every loop a counter moves towards a limit that is a constant or the size of data in memory and is compared with it, or at least one byte of finite input is consumed, or something new is marked as visited",
		Run:  runC04,
	}
}

func runC04(p *Program, r *Report) {
	x := &loopRules{p: p, r: r, sums: map[string]*readSummary{}, cyc: map[*ssa.Function]bool{}, low: map[*ssa.Phi]int64{}, shrinks: map[*ssa.Phi]bool{}}
	edges := map[*ssa.Function]map[*ssa.Function]bool{}
	callers := map[*ssa.Function][]*ssa.Function{}
	for _, f := range p.Funcs {
		edges[f] = map[*ssa.Function]bool{}
		for g := range p.calleesOf(f) {
			edges[f][g] = true
			callers[g] = append(callers[g], f)
		}
	}
	for _, c := range cycles(p.Funcs, edges) {
		for _, f := range c {
			x.cyc[f] = true
		}
	}
	n, simple := 0, 0
	for _, f := range p.Funcs {
		li := p.Loops(f)
		if li.Irreducible {
			r.fail("loops", fnName(f), p.Pos(f.Pos()), "a cycle of jumps that is not a loop", nil)
		}
		need := map[*Loop]bool{}
		for _, l := range li.Loops {
			n++
			if x.simple(f, l) {
				simple++
				r.ob(true)
				continue
			}
			need[l] = true
		}
		if len(need) == 0 {
			continue
		}
		res := x.judge(f, f, need, nil)
		bad := badLoops(res, need)
		if len(bad) > 0 && !baselineAPI[fnName(f)] && f.Parent() == nil && len(callers[f]) > 0 {
			// what the callers hand over can bound the loops of a helper
			chains := x.chains(f, callers, 3)
			good := map[*Loop]bool{}
			for l := range bad {
				good[l] = len(chains) > 0
			}
			for _, c := range chains {
				inline := map[*ssa.Function]bool{f: true}
				var res *loopResult
				for _, g := range c { // as far up as it takes
					low, shrinks := x.low, x.shrinks
					x.low, x.shrinks = map[*ssa.Phi]int64{}, map[*ssa.Phi]bool{}
					res = x.judge(g, f, bad, inline)
					x.low, x.shrinks = low, shrinks
					settled := true
					for l := range bad {
						settled = settled && res.seen[l] && res.bad[l] == nil
					}
					if settled || baselineAPI[fnName(g)] {
						break
					}
					inline = maps.Clone(inline)
					inline[g] = true
				}
				for l := range bad {
					good[l] = good[l] && res.seen[l] && res.bad[l] == nil
				}
			}
			for l := range good {
				if good[l] {
					delete(bad, l)
				}
			}
		}
		for l := range need {
			r.ob(!bad[l])
			if bad[l] {
				b := res.bad[l]
				if b == nil {
					b = &loopBad{pos: x.posOf(l), why: "the loop is not reached by the analysis"}
				}
				r.fail("loops", fnName(f), b.pos, b.why, b.path)
			}
		}
	}
	if os.Getenv("VERIF_DEBUG") == "3" {
		for k, s := range x.sums {
			for q := range s.rets {
				fmt.Println(k, q)
			}
		}
	}
	r.Sites += n
	r.sample("%d loops, %d of them plain counting loops or ranges", n, simple)
}

// chains lists the ways up from f, caller by caller.
func (x *loopRules) chains(f *ssa.Function, callers map[*ssa.Function][]*ssa.Function, depth int) [][]*ssa.Function {
	var out [][]*ssa.Function
	for _, g := range callers[f] {
		if g == f {
			continue
		}
		var up [][]*ssa.Function
		if depth > 1 && !baselineAPI[fnName(g)] && g.Parent() == nil && !x.cyc[g] {
			up = x.chains(g, callers, depth-1)
		}
		if len(up) == 0 {
			out = append(out, []*ssa.Function{g})
		}
		for _, c := range up {
			out = append(out, append([]*ssa.Function{g}, c...))
		}
	}
	return out
}

func badLoops(res *loopResult, need map[*Loop]bool) map[*Loop]bool {
	bad := map[*Loop]bool{}
	for l := range need {
		if res.bad[l] != nil || !res.seen[l] {
			bad[l] = true
		}
	}
	return bad
}

type loopBad struct {
	pos, why string
	path     []string
}

type loopResult struct {
	seen map[*Loop]bool
	bad  map[*Loop]*loopBad
}

type loopRules struct {
	p    *Program
	r    *Report
	sums map[string]*readSummary
	cyc  map[*ssa.Function]bool
	// loop variables: the least start, and whether they have been seen to shrink
	low     map[*ssa.Phi]int64
	shrinks map[*ssa.Phi]bool
	again   bool
}

// readSummary lists how calls of a function can end: what is known about the results and how many bytes of the
// reader have been consumed at least.
type readSummary struct {
	rets    map[string]bool
	changed bool
	done    bool
}

func (x *loopRules) posOf(l *Loop) string {
	for _, b := range append([]*ssa.BasicBlock{l.Header}, l.Backs...) {
		for _, in := range b.Instrs {
			if in.Pos().IsValid() {
				return x.p.InstrPos(in)
			}
		}
	}
	return x.p.Pos(l.Header.Parent().Pos())
}

// simple: ranges, and counting loops whose limit is a constant or the length of something.
func (x *loopRules) simple(f *ssa.Function, l *Loop) bool {
	always := func(b *ssa.BasicBlock) bool {
		for _, k := range l.Backs {
			if !b.Dominates(k) {
				return false
			}
		}
		return true
	}
	for b := range l.Body {
		if !always(b) {
			continue
		}
		leaves := false
		for _, s := range b.Succs {
			leaves = leaves || !l.Body[s]
		}
		if !leaves {
			continue
		}
		for _, in := range b.Instrs {
			if nx, ok := in.(*ssa.Next); ok {
				if rg, ok := nx.Iter.(*ssa.Range); ok && !l.Body[rg.Block()] {
					return true
				}
			}
		}
		for _, in := range l.Header.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			iv := x.p.inductive(phi)
			if iv == nil {
				continue
			}
			be := x.p.loopBound(f, l, iv, b)
			if be == nil {
				continue
			}
			up := iv.step > 0 && (be.op == token.LSS || be.op == token.LEQ) && iv.startConst != nil && x.sized(l, be.limit)
			down := iv.step < 0 && (be.op == token.GTR || be.op == token.GEQ) && x.constant(be.limit) && x.sized(l, iv.start)
			if up || down {
				return true
			}
		}
	}
	return false
}

func (x *loopRules) constant(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value != nil && c.Value.Kind() == constant.Int && c.Int64() <= 1<<20
}

// sized: a constant or the length of something that is not changed by the loop.
func (x *loopRules) sized(l *Loop, v ssa.Value) bool {
	switch y := v.(type) {
	case *ssa.Const:
		return x.constant(y)
	case *ssa.BinOp:
		return (y.Op == token.ADD || y.Op == token.SUB || y.Op == token.QUO) && x.sized(l, y.X) && x.constant(y.Y)
	case *ssa.Call:
		if b, ok := y.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			a := y.Call.Args[0]
			in, ok := a.(ssa.Instruction)
			return !ok || !l.Body[in.Block()]
		}
	}
	return false
}

// reads: the function can read from a parser or move it, other than by looking something up.
func (x *loopRules) reads(f *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(g *ssa.Function) bool
	walk = func(g *ssa.Function) bool {
		if seen[g] || isGetter(fnName(g)) {
			return false
		}
		seen[g] = true
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				n := commonName(ci.Common())
				if strings.HasPrefix(n, "(*bufio.Reader).") || strings.HasPrefix(n, "io.Read") || strings.HasSuffix(n, ".Seek") || strings.HasPrefix(n, "(*bytes.Reader).") || strings.HasPrefix(n, "(*regexp.Regexp).FindReader") {
					return true
				}
				fns, _ := x.p.Callees(ci.Common())
				for _, h := range fns {
					if x.p.InRepo(h) && walk(h) {
						return true
					}
				}
			}
		}
		return false
	}
	return walk(f)
}

// summarised: a function that reads from the parser it is given and looks nothing up.
func (x *loopRules) summarised(f *ssa.Function) bool {
	return f.Parent() == nil && len(f.Params) > 0 && typeStr(f.Params[0].Type()) == "*Parser" && !x.looksUp(f)
}

// size counts the instructions that looking through a call means to follow.
func (x *loopRules) size(f *ssa.Function, seen map[*ssa.Function]bool) int {
	if seen == nil {
		seen = map[*ssa.Function]bool{}
	}
	if seen[f] || !x.reads(f) {
		return 0
	}
	seen[f] = true
	n := 0
	for _, b := range f.Blocks {
		n += len(b.Instrs)
	}
	for g := range x.p.calleesOf(f) {
		n += x.size(g, seen)
	}
	return n
}

// isGetter: lookups; they leave the reader where it was (C19).
func isGetter(n string) bool {
	return strings.HasPrefix(n, "Dictionary.") || strings.HasPrefix(n, "Array.") || n == "Reference.Resolve" || n == "Reference.ResolveStream"
}

func (x *loopRules) looksUp(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok && isGetter(commonName(ci.Common())) {
				return true
			}
		}
	}
	return false
}

// judge follows every path of root and looks at the loops of target.
func (x *loopRules) judge(root, target *ssa.Function, need map[*Loop]bool, inline map[*ssa.Function]bool) *loopResult {
	res := &loopResult{map[*Loop]bool{}, map[*Loop]*loopBad{}}
	for {
		pr := x.progress(inline)
		pr.target, pr.need, pr.res = target, need, res
		pr.e.Run(root, nil)
		again := x.again
		x.again = false
		if !x.unsettled() && !again {
			x.r.finish(pr.e, fnName(root))
			return res
		}
		*res = loopResult{map[*Loop]bool{}, map[*Loop]*loopBad{}}
	}
}

// unsettled computes the summaries asked for until none changes; it reports whether any did.
func (x *loopRules) unsettled() bool {
	any := false
	for again := true; again; {
		again = false
		var keys []string
		for k := range x.sums {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			s := x.sums[k]
			if s.done {
				continue
			}
			s.done = true
			n := len(s.rets)
			x.summarise(k, s)
			if len(s.rets) != n {
				again, any = true, true
				for _, t := range x.sums {
					t.done = false
				}
			}
		}
		for _, s := range x.sums {
			again = again || !s.done
		}
	}
	return any
}

func (x *loopRules) summarise(k string, s *readSummary) {
	name, mode, _ := strings.Cut(k, "|")
	f := x.p.Func(name)
	pr := x.progress(nil)
	pr.sum = s
	pr.e.Run(f, func(st *State, ctx *Ctx) {
		st.flags["sc:F"] = "1"
		if strings.HasPrefix(mode, "avail") {
			e := pr.e
			rd := e.in.Param("reader", nil)
			st.cells[e.in.Pure("faddr:Parser.Reader", e.ParamTerm(0))] = rd
			st.pins["rd"] = rd
			next := e.in.Param("next", types.Typ[types.Byte])
			st.cells[e.in.Pure("la", rd)] = e.in.Pure("tuple", next, e.in.Nil())
			var set ByteSet
			for i, w := range strings.Split(mode, ":")[1:] {
				set[i], _ = strconv.ParseUint(w, 16, 64)
			}
			st.pins["next"] = next
			st.facts[next] = &Fact{bs: &set}
		}
	})
	x.r.finish(pr.e, name)
}

// progress is one run that keeps track of how far readers have moved since the heads of the loops that are active.
type progress struct {
	x      *loopRules
	e      *Engine
	target *ssa.Function
	need   map[*Loop]bool
	res    *loopResult
	sum    *readSummary
	// the loops that went round before the outcome of the last read was known
	debts map[string]*Loop
}

func (x *loopRules) progress(inline map[*ssa.Function]bool) *progress {
	e := NewEngine(x.p)
	e.NoContent, e.PureGetters, e.MaxUnroll, e.UnrollSets = true, true, 0, true
	pr := &progress{x: x, e: e, debts: map[string]*Loop{}}
	e.Opaque = func(g *ssa.Function) bool {
		switch {
		case inline[g]:
			return false
		case x.cyc[g], fnName(g) == "Parser.Seek", fnName(g) == "Parser.CurrentOffset", isGetter(fnName(g)):
			return true
		}
		if x.reads(g) {
			return x.summarised(g) && x.size(g, nil) > 80
		}
		return !smallHelper(g) && !x.p.memberHelper(g)
	}
	e.H.Model = pr.model
	e.H.Call = pr.call
	e.H.After = pr.after
	e.H.MapUpd = pr.mapUpd
	e.H.Edge = pr.edge
	e.H.Branch = pr.branch
	e.H.Instr = pr.instr
	e.H.Ret = pr.ret
	return pr
}

// ------------------------------------------------------------ how far a reader has moved

func scopes(st *State) []string {
	var out []string
	for k := range st.flags {
		if strings.HasPrefix(k, "sc:") {
			out = append(out, k[3:])
		}
	}
	sort.Strings(out)
	return out
}

func netOf(st *State, scope, key string) int {
	if st.flags["n|"+scope+"|*"] != "" {
		return -2
	}
	n, _ := strconv.Atoi(st.flags["n|"+scope+"|"+key])
	return n
}

func setNet(st *State, scope, key string, n int) {
	k := "n|" + scope + "|" + key
	if n = max(-2, min(3, n)); n == 0 {
		delete(st.flags, k)
	} else {
		st.flags[k] = strconv.Itoa(n)
	}
}

func addNet(st *State, key string, d int) {
	for _, s := range scopes(st) {
		k := d
		if k >= 1 && st.flags["debt|"+s] != "" {
			delete(st.flags, "debt|"+s)
			k--
		}
		if n := netOf(st, s, key); n != -2 {
			setNet(st, s, key, n+k)
		}
	}
}

// lose: nothing is known any more about where readers are.
func (pr *progress) lose(st *State) {
	for _, s := range scopes(st) {
		for k := range st.flags {
			if strings.HasPrefix(k, "n|"+s+"|") {
				delete(st.flags, k)
			}
		}
		st.flags["n|"+s+"|*"] = "1"
	}
	delete(st.pins, "pos")
	for k := range st.pins {
		if strings.HasPrefix(k, "off") {
			delete(st.pins, k)
		}
	}
}

// reader gives the parser (or plain reader) a value reads from.
func (pr *progress) reader(st *State, t *Term) *Term {
	t = peel(t)
	for k, v := range st.cells {
		if v == t && k.is("faddr:Parser.Reader") {
			return k.args[0]
		}
	}
	return t
}

func key(t *Term) string { return strconv.Itoa(t.id) }

func (pr *progress) null(st *State, t *Term) int {
	return pr.e.Eval(st, pr.e.Cmp(token.EQL, t, pr.e.in.Nil()))
}

// settle takes into account what has become known about the last read.
func (pr *progress) settle(st *State) {
	pr.settleReads(st)
	for k := range st.flags {
		if sc, ok := strings.CutPrefix(k, "debt|"); ok {
			delete(st.flags, k)
			if l := pr.debts[sc]; pr.res.bad[l] == nil {
				pr.res.bad[l] = &loopBad{pr.x.posOf(l), "the loop can go round without end: nothing need be consumed", st.Path()}
			}
		}
	}
}

func (pr *progress) pending(st *State) bool {
	return st.pins["rb"] != nil || st.pins["rf"] != nil || st.pins["pc"] != nil
}

func (pr *progress) settleReads(st *State) {
	e := pr.e
	if t := st.pins["rb"]; t != nil {
		if pr.null(st, e.ext(t, 1)) == 1 {
			addNet(st, st.flags["rb"], 1)
			for k, v := range st.cells {
				if v == t && (k.is("la") || k.is("last")) {
					st.cells[k] = e.in.Pure("tuple", e.ext(t, 0), e.in.Nil())
				}
			}
		}
		delete(st.pins, "rb")
		delete(st.flags, "rb")
	}
	if t := st.pins["rf"]; t != nil {
		if pr.filled(st, t) {
			addNet(st, st.flags["rf"], 1)
		}
		delete(st.pins, "rf")
		delete(st.pins, "rflen")
		delete(st.flags, "rf")
	}
	if t := st.pins["pc"]; t != nil {
		d := 3
		for ret := range pr.x.sums[st.flags["pcs"]].rets {
			sig, n, _ := strings.Cut(ret, "#")
			if pr.consistent(st, t, strings.Split(sig, ",")) {
				v, _ := strconv.Atoi(n)
				d = min(d, v)
			}
		}
		if d == -2 {
			pr.lose(st)
		} else {
			addNet(st, st.flags["pck"], d)
		}
		delete(st.pins, "pc")
		delete(st.flags, "pck")
		delete(st.flags, "pcs")
	}
}

// filled: a read has given at least one byte.
func (pr *progress) filled(st *State, t *Term) bool {
	e := pr.e
	if lo, _, ok, _ := e.Range(st, e.ext(t, 0)); ok && lo >= 1 {
		return true
	}
	want, ok := pr.lower(st, st.pins["rflen"])
	return ok && want >= 1 && (pr.null(st, e.ext(t, 1)) == 1 || e.Eval(st, e.Cmp(token.EQL, e.ext(t, 0), st.pins["rflen"])) == 1)
}

// ext takes a tuple apart.
func (e *Engine) ext(t *Term, i int) *Term {
	if t.is("tuple") {
		return t.args[i]
	}
	return e.in.Pure("x:"+strconv.Itoa(i), t)
}

// consistent: a call can have ended with these results.
func (pr *progress) consistent(st *State, t *Term, sig []string) bool {
	e := pr.e
	for i, s := range sig {
		v := t
		if len(sig) > 1 {
			v = e.ext(t, i)
		}
		switch s {
		case "?":
		case "true", "false":
			if x := e.Eval(st, v); x >= 0 && (x == 1) != (s == "true") {
				return false
			}
		case "nil":
			if pr.null(st, v) == 0 {
				return false
			}
		case "empty":
			if e.Eval(st, e.Cmp(token.EQL, v, e.in.Str(""))) == 0 {
				return false
			}
		default:
			for _, g := range e.p.Pdf.Members {
				if g, ok := g.(*ssa.Global); ok && g.Name() == s {
					if e.Eval(st, e.Cmp(token.EQL, v, e.globalTerm(g))) == 0 {
						return false
					}
				}
			}
		}
	}
	return true
}

// globalTerm is the value of a global variable that never changes.
func (e *Engine) globalTerm(g *ssa.Global) *Term {
	if t := e.globalValue(g); t != nil {
		return t
	}
	return e.in.Param("none", nil)
}

// avail: there is a next byte.
func (pr *progress) avail(st *State, rd *Term) *Term {
	e := pr.e
	for k, v := range st.cells {
		if k.is("la") && (k.args[0] == rd || pr.reader(st, k.args[0]) == rd) && pr.null(st, e.ext(v, 1)) == 1 {
			return v
		}
	}
	return nil
}

// peeked turns what a look ahead has shown into the next byte.
func (pr *progress) peeked(st *State) {
	e := pr.e
	b := st.pins["peek"]
	if b == nil {
		return
	}
	s := e.ext(b, 0)
	if lo, _, ok, _ := e.Range(st, e.Len(st, s, nil)); ok && lo >= 1 {
		rd := st.pins["peekr"]
		la := e.in.Pure("la", rd)
		if st.cells[la] == nil {
			el := st.cells[e.in.PureT(types.NewPointer(types.Typ[types.Byte]), "iaddr", s, e.in.Int(0))]
			if el == nil {
				el = e.in.PureT(types.Typ[types.Byte], "first", b)
				st.cells[e.in.PureT(types.NewPointer(types.Typ[types.Byte]), "iaddr", s, e.in.Int(0))] = el
			}
			st.cells[la] = e.in.Pure("tuple", el, e.in.Nil())
		}
	}
	st.pins["peeked"] = b
	delete(st.pins, "peek")
	delete(st.pins, "peekr")
}

func (pr *progress) moved(st *State) {
	delete(st.pins, "pos")
}

func (pr *progress) call(st *State, c *Call) {
	switch {
	case strings.HasPrefix(c.Name, "(*bufio.Reader)."), c.Name == "io.ReadFull", strings.HasPrefix(c.Name, "(*bytes.Reader)."), strings.HasPrefix(c.Name, "(*strings.Reader)."):
		pr.settle(st)
		if c.Name != "(*bufio.Reader).Peek" {
			pr.peeked(st)
		}
	case c.Fn != nil && pr.x.p.InRepo(c.Fn) && pr.x.reads(c.Fn):
		pr.settle(st)
		pr.peeked(st)
	}
}

func (pr *progress) model(st *State, c *Call) *Term {
	e := pr.e
	var typ types.Type
	if v, ok := c.In.(ssa.Value); ok {
		typ = v.Type()
	}
	fresh := func() *Term { return e.fresh(st, c.Ctx, c.In, typ) }
	for i, a := range c.Args {
		if a = peel(a); a.typ != nil && typeStr(a.typ) == "*strings.Builder" {
			switch {
			case i > 0 || c.Name != "(*strings.Builder).String":
				st.flags["bw|"+key(a)] = "1"
			case st.flags["bw|"+key(a)] == "" && a.kind == 'n' && st.zero[a]:
				return e.in.Str("")
			}
		}
	}
	switch c.Name {
	case "builtin append":
		// what is collected does not matter, only that nothing is known about its size
		if s, ok := typ.Underlying().(*types.Slice); !ok || !isByteType(s.Elem()) {
			return nil
		}
		g := c.Args[0]
		if !g.is("grown") {
			g = e.in.PureT(typ, "grown", g)
		}
		for t := range st.facts {
			if t.contains(g) {
				delete(st.facts, t)
			}
		}
		return g
	case "(*bufio.Reader).ReadByte":
		pr.moved(st)
		return nil
	case "(*bufio.Reader).UnreadByte":
		addNet(st, key(pr.reader(st, c.Args[0])), -1)
		pr.moved(st)
		return nil
	case "(*bufio.Reader).Peek":
		rd := c.Args[0]
		la := st.cells[e.in.Pure("la", rd)]
		if la != nil {
			t := fresh()
			la = st.cells[e.in.Pure("la", rd)]
			s := e.ext(t, 0)
			st.pins["peeked"] = t
			st.cells[e.in.PureT(types.NewPointer(types.Typ[types.Byte]), "iaddr", s, e.in.Int(0))] = e.ext(la, 0)
			e.Assume(st, e.Cmp(token.LSS, e.in.Int(0), e.Len(st, s, nil)), true)
			return t
		}
		t := fresh()
		st.pins["peek"], st.pins["peekr"] = t, e.V(st, c.Ctx, c.Com.Args[0])
		return t
	case "(*bufio.Reader).Discard":
		rd := pr.reader(st, c.Args[0])
		if n, ok := c.Args[1].intVal(); ok && n >= 1 && pr.avail(st, rd) != nil {
			addNet(st, key(rd), 1)
		}
		pr.moved(st)
		return nil
	case "io.ReadFull", "io.ReadAtLeast":
		rd := pr.reader(st, c.Args[0])
		pr.moved(st)
		if pr.avail(st, rd) != nil {
			if lo, _, ok, _ := e.Range(st, e.Len(st, c.Args[1], nil)); ok && lo >= 1 {
				addNet(st, key(rd), 1)
			}
			return nil
		}
		if !finite(rd) {
			return nil
		}
		ln := e.Len(st, c.Args[1], nil)
		st.pins["rflen"] = ln
		t := fresh()
		st.pins["rf"], st.flags["rf"] = t, key(pr.reader(st, e.V(st, c.Ctx, c.Com.Args[0])))
		return t
	case "(*bytes.Reader).ReadByte", "(*strings.Reader).ReadByte":
		t := fresh()
		st.pins["rb"], st.flags["rb"] = t, key(e.V(st, c.Ctx, c.Com.Args[0]))
		return t
	case "(*bytes.Reader).UnreadByte", "(*strings.Reader).UnreadByte":
		addNet(st, key(c.Args[0]), -1)
	case "(*bytes.Reader).Seek", "(*bytes.Reader).Reset", "(*strings.Reader).Seek", "(*strings.Reader).Reset", "(*bufio.Reader).Reset":
		pr.lose(st)
	case "(*regexp.Regexp).FindReaderIndex", "(*regexp.Regexp).FindReaderSubmatchIndex":
		n := pr.shortest(c.Com.Args[0])
		base := st.pins["pos"]
		for k := range st.cells {
			if k.is("la") || k.is("last") {
				delete(st.cells, k)
			}
		}
		pr.lose(st)
		if base != nil {
			st.pins["foundbase"] = base
		}
		t := fresh()
		st.pins["found"] = t
		for i, lo := range []int64{0, n} {
			v := e.in.PureT(types.Typ[types.Int], "match:"+strconv.Itoa(i), t)
			st.cells[e.in.PureT(types.NewPointer(types.Typ[types.Int]), "iaddr", t, e.in.Int(int64(i)))] = v
			e.Assume(st, e.Cmp(token.LSS, v, e.in.Int(lo)), false)
			st.pins["match"+strconv.Itoa(i)] = v
		}
		return t
	case "Parser.CurrentOffset":
		pr.settle(st)
		t := fresh()
		rd := pr.reader(st, e.V(st, c.Ctx, c.Com.Args[0]))
		st.pins["off"], st.flags["offk"] = t, key(rd)
		for _, s := range scopes(st) {
			st.flags["off|"+s] = strconv.Itoa(netOf(st, s, key(rd)))
		}
		return t
	case "Parser.Seek":
		rd := pr.reader(st, c.Args[0])
		to := c.Args[1]
		for k := range st.cells {
			if k.is("la") || k.is("last") {
				delete(st.cells, k)
			}
		}
		abs := isZeroInt(c.Args[2])
		if abs && st.pins["off"] != nil && to == st.pins["off"] && st.flags["offk"] == key(rd) {
			for _, s := range scopes(st) {
				if v, ok := st.flags["off|"+s]; ok {
					n, _ := strconv.Atoi(v)
					if st.flags["n|"+s+"|*"] == "" {
						setNet(st, s, key(rd), n)
					}
				} else {
					setNet(st, s, key(rd), -2)
				}
			}
		} else {
			off, keep := st.pins["off"], map[string]string{}
			for k, v := range st.flags {
				if strings.HasPrefix(k, "off") {
					keep[k] = v
				}
			}
			pr.lose(st)
			if off != nil {
				st.pins["off"] = off
			}
		}
		pr.moved(st)
		if !abs {
			return fresh()
		}
		t := fresh()
		to = e.V(st, c.Ctx, c.Com.Args[1])
		st.pins["pos"] = to
		return e.in.Pure("tuple", to, e.in.PureT(nil, "x:1", t))
	}
	if c.Fn == nil || !pr.x.p.InRepo(c.Fn) || isGetter(c.Name) || !pr.x.reads(c.Fn) {
		if c.Com.IsInvoke() && strings.HasSuffix(c.Name, ".Seek") {
			pr.lose(st)
		}
		return nil
	}
	// reading functions that are not looked through
	if !pr.x.summarised(c.Fn) {
		pr.lose(st)
		return nil
	}
	rd := pr.reader(st, c.Args[0])
	k := c.Name + "|"
	if la := pr.avail(st, rd); la != nil {
		k += "avail"
		set := e.Bytes(st, e.ext(la, 0))
		for _, w := range set {
			k += fmt.Sprintf(":%x", w)
		}
	}
	if pr.x.sums[k] == nil {
		pr.x.sums[k] = &readSummary{rets: map[string]bool{}}
	}
	pr.moved(st)
	e.havoc(st, []*ssa.Function{c.Fn})
	t := fresh()
	st.pins["pc"], st.flags["pcs"], st.flags["pck"] = t, k, key(pr.reader(st, e.V(st, c.Ctx, c.Com.Args[0])))
	return t
}

// finite: a reader over data in memory, or the parser.
func finite(t *Term) bool {
	if t.typ == nil {
		return false
	}
	switch typeStr(t.typ) {
	case "*bytes.Reader", "*strings.Reader", "*Parser":
		return true
	}
	return false
}

// shortest: the length of the shortest text a regular expression matches.
func (pr *progress) shortest(v ssa.Value) int64 {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return 0
	}
	g, ok := u.X.(*ssa.Global)
	if !ok {
		return 0
	}
	n := int64(-1)
	for _, f := range pr.x.p.Funcs {
		n = max(n, storedPattern(f, g))
	}
	if f := g.Pkg.Func("init"); f != nil && n < 0 {
		n = storedPattern(f, g)
	}
	return max(n, 0)
}

func storedPattern(f *ssa.Function, g *ssa.Global) int64 {
	n := int64(-1)
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok || s.Addr != ssa.Value(g) {
				continue
			}
			c, ok := s.Val.(*ssa.Call)
			if !ok || commonName(&c.Call) != "regexp.MustCompile" {
				return 0
			}
			k, ok := c.Call.Args[0].(*ssa.Const)
			if !ok {
				return 0
			}
			re, err := syntax.Parse(constant.StringVal(k.Value), syntax.Perl)
			if err != nil {
				return 0
			}
			n = int64(minLen(re))
		}
	}
	return n
}

func minLen(re *syntax.Regexp) int {
	switch re.Op {
	case syntax.OpLiteral:
		return len(re.Rune)
	case syntax.OpCharClass, syntax.OpAnyChar, syntax.OpAnyCharNotNL:
		return 1
	case syntax.OpCapture, syntax.OpPlus:
		return minLen(re.Sub[0])
	case syntax.OpRepeat:
		return re.Min * minLen(re.Sub[0])
	case syntax.OpConcat:
		n := 0
		for _, s := range re.Sub {
			n += minLen(s)
		}
		return n
	case syntax.OpAlternate:
		n := minLen(re.Sub[0])
		for _, s := range re.Sub[1:] {
			n = min(n, minLen(s))
		}
		return n
	}
	return 0
}

func (pr *progress) after(st *State, c *Call) {
	if c.Name == "(*bufio.Reader).ReadByte" {
		st.pins["rb"], st.flags["rb"] = c.Result, key(pr.reader(st, pr.e.V(st, c.Ctx, c.Com.Args[0])))
	}
}

func (pr *progress) ret(st *State, ctx *Ctx, in *ssa.Return, res []*Term) {
	if pr.sum == nil {
		return
	}
	e := pr.e
	// the results of the last call can be handed on
	if t := st.pins["pc"]; t != nil {
		for i, v := range res {
			if isBoolType(ctx.fn.Signature.Results().At(i).Type()) && e.Eval(st, v) < 0 {
				for _, val := range []bool{true, false} {
					with := st.clone()
					if e.Assume(with, v, val) {
						to := append([]*Term{}, res...)
						to[i] = e.in.Bool(val)
						pr.ret(with, ctx, in, to)
					}
				}
				return
			}
		}
		for ret := range pr.x.sums[st.flags["pcs"]].rets {
			sig, n, _ := strings.Cut(ret, "#")
			parts := strings.Split(sig, ",")
			if !pr.consistent(st, t, parts) {
				continue
			}
			with := st.clone()
			d, _ := strconv.Atoi(n)
			if d == -2 {
				pr.lose(with)
			} else {
				addNet(with, with.flags["pck"], d)
			}
			delete(with.pins, "pc")
			pr.record(with, res, func(r *Term) string {
				for i, s := range parts {
					if r == t && len(parts) == 1 || len(parts) > 1 && r == e.ext(t, i) {
						return s
					}
				}
				return "?"
			})
		}
		return
	}
	pr.settle(st)
	pr.record(st, res, func(*Term) string { return "?" })
}

func (pr *progress) record(st *State, res []*Term, of func(*Term) string) {
	e := pr.e
	var sig []string
	for _, t := range res {
		s := of(t)
		t = e.Resolve(st, t)
		if b, ok := t.boolVal(); ok {
			s = fmt.Sprint(b)
		} else if t.isNil() || t.typ != nil && types.IsInterface(t.typ) && pr.null(st, t) == 1 {
			s = "nil"
		} else if t == e.in.Str("") {
			s = "empty"
		} else {
			for _, g := range e.p.Pdf.Members {
				if g, ok := g.(*ssa.Global); ok && e.globalValue(g) == t {
					s = g.Name()
				}
			}
		}
		sig = append(sig, s)
	}
	n := netOf(st, "F", key(e.ParamTerm(0)))
	pr.sum.rets[strings.Join(sig, ",")+"#"+strconv.Itoa(n)] = true
}

// ------------------------------------------------------------ loops

func (pr *progress) mine(ctx *Ctx, l *Loop) bool {
	return l != nil && ctx.fn == pr.target && pr.need[l]
}

func scopeOf(ctx *Ctx, l *Loop) string { return fmt.Sprintf("%d.%d", ctx.id, l.Header.Index) }

func (pr *progress) mapUpd(st *State, ctx *Ctx, in *ssa.MapUpdate, m, k, v *Term) {
	e := pr.e
	ok, was := st.cells[e.mapCell("mapok", m, k)], st.cells[e.mapCell("mapel", m, k)]
	if !(ok != nil && e.Eval(st, ok) == 0 || was != nil && isTrue(v) && e.Eval(st, was) == 0) {
		return
	}
	for _, l := range pr.x.p.Loops(ctx.fn).Loops {
		if mk, ok := m.val.(*ssa.MakeMap); m.kind == 'n' && ok && l.Body[mk.Block()] {
			continue
		}
		if l.Body[in.Block()] && pr.mine(ctx, l) {
			st.flags["mk|"+scopeOf(ctx, l)] = "1"
		}
	}
}

func (pr *progress) branch(st *State, ctx *Ctx, in *ssa.If, cond *Term, taken bool) {
	e := pr.e
	if t := st.pins["rb"]; t != nil && pr.null(st, e.ext(t, 1)) == 1 {
		pr.settle(st)
	}
	if t := st.pins["rf"]; t != nil && pr.filled(st, t) {
		pr.settle(st)
	}
	if b := st.pins["peek"]; b != nil {
		if lo, _, ok, _ := e.Range(st, e.Len(st, e.ext(b, 0), nil)); ok && lo >= 1 {
			pr.peeked(st)
		}
	}
	c := cond
	if c.is("!") {
		c, taken = c.args[0], !taken
	}
	if !c.is("<") && !c.is("==") {
		return
	}
	lo, hi := c.args[0], c.args[1] // lo <= hi
	if c.is("==") {
		if taken {
			return
		}
	} else if !taken {
		lo, hi = hi, lo
	}
	for n, q := range st.pins {
		if !strings.HasPrefix(n, "iv|") {
			continue
		}
		start := st.pins["start|"+n[3:]]
		if c.is("==") {
			// i != limit
			for _, pair := range [][2]*Term{{c.args[0], c.args[1]}, {c.args[1], c.args[0]}} {
				if pair[0] == q && start != nil && isConstUpTo(start, 0) && pr.sized(st, pair[1]) {
					st.flags["ne|"+n[3:]] = "1"
				}
			}
			continue
		}
		if pr.upTo(st, lo, hi, q, start) {
			st.flags["up|"+n[3:]] = "1"
		}
		l := e.in.lin(hi)
		if _, has := l.k[q]; has && l.k[q] == 1 && len(l.k) == 1 && lo.isConst() && start != nil && pr.sized(st, start) {
			st.flags["down|"+n[3:]] = "1"
		}
	}
}

// upTo: lo <= hi limits how far q can get.
func (pr *progress) upTo(st *State, lo, hi, q, start *Term) bool {
	e := pr.e
	if pr.atLeast(st, lo, q, start) && pr.sized(st, hi) {
		return true
	}
	if start == nil || e.in.lin(lo).k[q] == 0 && !q.isConst() {
		return false
	}
	most := e.in.linAdd(e.in.linAdd(hi, lo, -1, types.Typ[types.Int]), q, 1, types.Typ[types.Int])
	if l, ok := pr.lower(st, start); ok && l >= -1<<20 && pr.sized(st, most) {
		return true
	}
	return pr.sized(st, e.in.linAdd(most, start, -1, types.Typ[types.Int]))
}

func isConstUpTo(t *Term, v int64) bool {
	n, ok := t.intVal()
	return ok && n <= v
}

// atLeast: t >= q (where q does not start far below zero), or t counts the steps since the start.
func (pr *progress) atLeast(st *State, t, q, start *Term) bool {
	e := pr.e
	low := func() bool {
		if start == nil {
			return false
		}
		lo, ok := pr.lower(st, start)
		return ok && lo >= -1<<20
	}
	rest := func(l linForm) bool { // every summand is not negative
		if l.c < -1<<20 {
			return false
		}
		for a, k := range l.k {
			// (what a helper is given is added to a counter to get a place; C01 minds that it is not negative)
			if k < 0 || !pr.nonNeg(st, a) && !(a.kind == 'p' && strings.HasPrefix(a.op, fnName(pr.target)+".") && !baselineAPI[fnName(pr.target)]) {
				return false
			}
		}
		return true
	}
	minus := func(a linForm, b *Term, k int64) linForm {
		out := linForm{c: a.c, k: map[*Term]int64{}}
		for t, n := range a.k {
			out.k[t] += n
		}
		m := e.in.lin(b)
		out.c += k * m.c
		for t, n := range m.k {
			out.k[t] += k * n
		}
		for t, n := range out.k {
			if n == 0 {
				delete(out.k, t)
			}
		}
		return out
	}
	if c, ok := q.intVal(); ok && c >= -1<<20 {
		lo, ok := pr.lower(st, t)
		return ok && lo >= c
	}
	l := e.in.lin(t)
	if l.k[q] >= 1 {
		d := minus(l, q, -1)
		if rest(d) && low() {
			return true
		}
		if start != nil && rest(minus(d, start, 1)) {
			return true
		}
	}
	// products
	if !low() || l.c < -1<<20 {
		return false
	}
	found := false
	for a, k := range l.k {
		if k < 0 {
			return false
		}
		if a.is("*") {
			for i := 0; i < 2; i++ {
				lo, _, ok, _ := e.Range(st, a.args[1-i])
				if !ok || lo < 1 {
					lo, ok = pr.lower(st, a.args[1-i])
				}
				if pr.atLeast(st, a.args[i], q, start) && ok && lo >= 1 && pr.nonNeg(st, q) {
					found = true
				}
			}
		}
		if !pr.nonNeg(st, a) {
			return false
		}
	}
	return found
}

func (pr *progress) nonNeg(st *State, t *Term) bool {
	lo, ok := pr.lower(st, t)
	return ok && lo >= 0
}

// lower bounds a value from below.
func (pr *progress) lower(st *State, t *Term) (int64, bool) {
	e := pr.e
	if lo, _, ok, _ := e.Range(st, t); ok {
		return lo, true
	}
	if t.is("*") {
		a, ok1 := pr.lower(st, t.args[0])
		b, ok2 := pr.lower(st, t.args[1])
		if ok1 && ok2 && a >= 0 && b >= 0 {
			return a * b, a < 1<<20 && b < 1<<20
		}
		return 0, false
	}
	if t.is("/") || t.is(">>") {
		a, ok1 := pr.lower(st, t.args[0])
		return 0, ok1 && a >= 0
	}
	if n, ok := pr.e.convertedByte(t); ok {
		lo, _, _, _ := e.Range(st, n)
		return lo, true
	}
	l := e.in.lin(t)
	if len(l.k) == 1 && l.k[t] == 1 {
		if t.kind == 'n' {
			if f, ok := pr.x.fieldLower(t); ok {
				return f, true
			}
			if phi, ok := t.val.(*ssa.Phi); ok {
				if lo, ok := pr.lowest(phi); ok {
					return lo, true
				}
				if pr.x != nil && !pr.x.shrinks[phi] {
					lo, ok := pr.x.low[phi]
					return lo, ok
				}
			}
		}
		return 0, false
	}
	sum := l.c
	for a, k := range l.k {
		if k < 0 {
			_, hi, _, ok := e.Range(st, a)
			if b, isB := e.convertedByte(a); isB {
				_, hi, _, ok = e.Range(st, b)
			}
			if !ok {
				return 0, false
			}
			sum += k * hi
			continue
		}
		v, ok := pr.lower(st, a)
		if !ok {
			return 0, false
		}
		sum += k * v
	}
	return sum, true
}

// lowest: the start of a variable that only grows in its loop.
func (pr *progress) lowest(phi *ssa.Phi) (int64, bool) {
	least, back := int64(1<<40), false
	for i, v := range phi.Edges {
		if phi.Block().Dominates(phi.Block().Preds[i]) {
			back = true
			if d, ok := pr.grows(v, phi, map[ssa.Value]bool{}); !ok || d < 0 {
				return 0, false
			}
			continue
		}
		c, ok := v.(*ssa.Const)
		if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
			return 0, false
		}
		least = min(least, c.Int64())
	}
	return least, back
}

// convertedByte: an integer made from a byte.
func (e *Engine) convertedByte(t *Term) (*Term, bool) {
	if strings.HasPrefix(t.op, "conv") && len(t.args) == 1 && isByteType(t.args[0].typ) {
		return t.args[0], true
	}
	return nil, false
}

// sized: a value that is a constant or no greater than the size of something in memory.
func (pr *progress) sized(st *State, t *Term) bool {
	e := pr.e
	if _, hi, _, ok := e.Range(st, t); ok && hi <= 1<<20 {
		return true
	}
	switch {
	case t.is("len"), t.is("cap"):
		return true
	case t.is("call:builtin min"):
		for _, a := range t.args {
			if pr.sized(st, a) {
				return true
			}
		}
		return false
	case t.is("/"):
		// n/d is no larger than n, and (n+d-1)/d hardly so
		if pr.sized(st, t.args[0]) {
			return true
		}
		l, d := e.in.lin(t.args[0]), e.in.lin(t.args[1])
		for a, k := range d.k {
			if l.k[a] != k {
				return false
			}
		}
		return len(d.k) > 0 && pr.sized(st, e.in.linAdd(t.args[0], t.args[1], -1, t.typ))
	case t.is(">>"):
		return pr.sized(st, t.args[0])
	}
	if _, ok := e.convertedByte(t); ok {
		return true
	}
	l := e.in.lin(t)
	if len(l.k) == 1 && l.k[t] == 1 || l.c > 1<<20 {
		return false
	}
	for a, k := range l.k {
		if k > 64 || k > 0 && !pr.sized(st, a) || k < 0 && !pr.nonNeg(st, a) {
			return false
		}
	}
	return true
}

func (pr *progress) instr(st *State, ctx *Ctx, in ssa.Instruction) {
	b := in.Block()
	if ctx.fn != pr.target || b == nil {
		return
	}
	if ia, ok := in.(*ssa.IndexAddr); ok && st.pins["found"] != nil {
		// the result of a search that has elements is not nil
		if t := pr.e.V(st, ctx, ia.X); t == st.pins["found"] {
			pr.e.Assume(st, pr.e.Cmp(token.EQL, t, pr.e.in.Nil()), false)
		}
	}
	i := firstNonPhi(b)
	if i >= len(b.Instrs) || b.Instrs[i] != in {
		return
	}
	l := pr.x.p.Loops(ctx.fn).ByHeader[b]
	if !pr.mine(ctx, l) {
		return
	}
	sc := scopeOf(ctx, l)
	for k, ph := range b.Instrs[:i] {
		if phi := ph.(*ssa.Phi); isIntType(phi.Type()) {
			n := fmt.Sprintf("%s|%d", sc, k)
			t := pr.e.V(st, ctx, phi)
			st.pins["iv|"+n] = t
			if st.flags["at|"+n] != "" {
				st.pins["pos"] = t
				delete(st.flags, "at|"+n)
			}
		}
	}
}

func (pr *progress) edge(st *State, ctx *Ctx, from, to *ssa.BasicBlock) {
	if st.pins["peek"] == nil && st.pins["peeked"] == nil {
		for k, v := range st.cells {
			if k.is("iaddr") && v.typ != nil && isByteType(v.typ) {
				delete(st.cells, k)
			}
		}
	}
	if ctx.fn != pr.target {
		return
	}
	for _, l := range pr.x.p.Loops(ctx.fn).Loops {
		if !pr.mine(ctx, l) {
			continue
		}
		sc := scopeOf(ctx, l)
		switch l.kind(from, to) {
		case edgeExit:
			delete(st.flags, "debt|"+sc)
			pr.drop(st, sc, true)
		case edgeEnter, edgeBack:
			if l.kind(from, to) == edgeBack {
				if st.flags["debt|"+sc] != "" {
					pr.settle(st)
				}
				owed := ""
				if pr.pending(st) {
					// what was read last may only be looked at the next time round
					now := st.clone()
					pr.settle(now)
					if pr.back(now, ctx, l, from, sc) != nil {
						owed = "1"
					}
				}
				if owed == "" {
					pr.settle(st)
					if bad := pr.back(st, ctx, l, from, sc); bad != nil && pr.res.bad[l] == nil {
						pr.res.bad[l] = bad
					}
				} else {
					pr.debts[sc] = l
					st.flags["debt|"+sc] = "1"
				}
			} else {
				pr.settle(st)
				pr.drop(st, sc, true)
			}
			for t, f := range st.facts {
				// bounds that get tighter every time round do not matter
				if (f.hasLo && f.lo > 2 || f.hasHi && f.hi < -2) && !isByteType(t.typ) {
					g := f.clone()
					if g.hasLo {
						g.lo = min(g.lo, 2)
					}
					if g.hasHi {
						g.hi = max(g.hi, -2)
					}
					st.facts[t] = g
				}
			}
			pos := st.pins["pos"]
			for k, ph := range to.Instrs {
				phi, ok := ph.(*ssa.Phi)
				if !ok {
					break
				}
				n := fmt.Sprintf("%s|%d", sc, k)
				in := pr.incoming(st, ctx, phi, from)
				if l.kind(from, to) == edgeEnter && isIntType(phi.Type()) {
					st.pins["start|"+n] = in
					pr.x.started(phi, pr, st, in)
				}
				if pos != nil && pos == in {
					st.flags["at|"+n] = "1"
				}
			}
			pr.drop(st, sc, false)
			st.flags["sc:"+sc] = "1"
		}
	}
}

func (pr *progress) incoming(st *State, ctx *Ctx, phi *ssa.Phi, from *ssa.BasicBlock) *Term {
	for i, b := range phi.Block().Preds {
		if b == from {
			return pr.e.V(st, ctx, phi.Edges[i])
		}
	}
	return pr.e.in.Nil()
}

// started takes down the least start of a loop variable.
func (x *loopRules) started(phi *ssa.Phi, pr *progress, st *State, in *Term) {
	if x.shrinks[phi] {
		return
	}
	lo, ok := pr.lower(st, in)
	was, had := x.low[phi]
	switch {
	case !ok:
		x.shrinks[phi], x.again = true, true
	case !had || lo < was:
		x.low[phi] = lo
		x.again = x.again || had
	}
}

// drop forgets what was found out in an iteration, or about a loop.
func (pr *progress) drop(st *State, sc string, all bool) {
	for k := range st.flags {
		for _, pre := range []string{"n|", "mk|", "up|", "down|", "ne|", "off|", "sc:"} {
			if strings.HasPrefix(k, pre+sc) && (len(k) == len(pre+sc) || k[len(pre+sc)] == '|') {
				delete(st.flags, k)
			}
		}
		if all && strings.HasPrefix(k, "at|"+sc+"|") {
			delete(st.flags, k)
		}
	}
	for k := range st.pins {
		if strings.HasPrefix(k, "iv|"+sc+"|") || all && strings.HasPrefix(k, "start|"+sc+"|") {
			delete(st.pins, k)
		}
	}
	for _, k := range []string{"found", "foundbase", "match0", "match1"} {
		delete(st.pins, k)
	}
}

// back judges one path around a loop.
func (pr *progress) back(st *State, ctx *Ctx, l *Loop, from *ssa.BasicBlock, sc string) *loopBad {
	e := pr.e
	pr.res.seen[l] = true
	for k, ph := range l.Header.Instrs {
		phi, ok := ph.(*ssa.Phi)
		if !ok {
			break
		}
		if q := st.pins[fmt.Sprintf("iv|%s|%d", sc, k)]; q != nil && isIntType(phi.Type()) && !pr.x.shrinks[phi] {
			d, ok := pr.lower(st, e.in.linAdd(pr.incoming(st, ctx, phi, from), q, -1, types.Typ[types.Int]))
			if !ok || d < 0 {
				if _, grows := pr.lowest(phi); !grows {
					pr.x.shrinks[phi], pr.x.again = true, true
				}
			}
		}
	}
	if st.flags["mk|"+sc] != "" {
		return nil
	}
	for k := range st.flags {
		if rest, ok := strings.CutPrefix(k, "n|"+sc+"|"); ok && rest != "*" && netOf(st, sc, rest) >= 1 {
			return nil
		}
	}
	why := "nothing makes progress"
	if st.flags["n|"+sc+"|*"] == "" {
		why = "no input need be consumed and no counter moves towards a limit set by data in memory"
	}
	for k, ph := range l.Header.Instrs {
		phi, ok := ph.(*ssa.Phi)
		if !ok {
			break
		}
		if !isIntType(phi.Type()) {
			continue
		}
		n := fmt.Sprintf("%s|%d", sc, k)
		q := st.pins["iv|"+n]
		if q == nil {
			continue
		}
		next := pr.incoming(st, ctx, phi, from)
		d := e.in.linAdd(next, q, -1, types.Typ[types.Int])
		up, _ := pr.lower(st, d)
		step := int64(0)
		if up < 1 {
			if v, ok := pr.grows(phi.Edges[predIndex(phi.Block(), from)], phi, map[ssa.Value]bool{}); ok {
				up, step = v, v
			}
		}
		neg, isNeg := pr.lower(st, e.in.linAdd(q, next, -1, types.Typ[types.Int]))
		if c, ok := d.intVal(); ok {
			step = c
		}
		switch {
		case up >= 1 && st.flags["up|"+n] != "":
			return nil
		case up >= 1 && q == st.pins["start|"+n]: // the first time round
			return nil
		case isNeg && neg >= 1 && st.flags["down|"+n] != "":
			return nil
		case step == 1 && st.flags["ne|"+n] != "":
			return nil
		case up >= 1 && st.pins["foundbase"] == q && st.pins["found"] != nil && pr.null(st, st.pins["found"]) == 0:
			return nil
		case up >= 1 || isNeg && neg >= 1:
			why = "the counter is not compared with a limit set by data in memory on every path"
		}
	}
	return &loopBad{pr.x.posOf(l), "the loop can go round without end: " + why, st.Path()}
}

// grows: by how much a value exceeds the counter at least, when it is made from it by additions alone.
func (pr *progress) grows(v ssa.Value, q *ssa.Phi, seen map[ssa.Value]bool) (int64, bool) {
	if v == ssa.Value(q) {
		return 0, true
	}
	switch y := v.(type) {
	case *ssa.BinOp:
		if c, ok := y.Y.(*ssa.Const); ok && (y.Op == token.ADD || y.Op == token.SUB) {
			d, ok := pr.grows(y.X, q, seen)
			if y.Op == token.SUB {
				return d - c.Int64(), ok
			}
			return d + c.Int64(), ok
		}
	case *ssa.Phi:
		if seen[y] {
			return 1 << 40, true
		}
		seen[y] = true
		best := int64(1 << 40)
		for i, ed := range y.Edges {
			if y.Block().Dominates(y.Block().Preds[i]) {
				// around an inner loop the value must not get smaller
				if d, ok := pr.grows(ed, y, map[ssa.Value]bool{}); !ok || d < 0 {
					return 0, false
				}
				continue
			}
			d, ok := pr.grows(ed, q, seen)
			if !ok {
				return 0, false
			}
			best = min(best, d)
		}
		delete(seen, y)
		return best, true
	}
	return 0, false
}

// fieldLower: the least value a field is ever given, for fields that are only given values that are known.
func (x *loopRules) fieldLower(t *Term) (int64, bool) {
	u, ok := t.val.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return 0, false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		return 0, false
	}
	return x.p.fieldMin(fieldKey(fa.X.Type(), fa.Field))
}

// fieldMin: the least value stored into a field anywhere.
func (p *Program) fieldMin(field string) (int64, bool) {
	if p.mins == nil {
		p.mins = map[string]*int64{}
	}
	if m, ok := p.mins[field]; ok {
		if m == nil {
			return 0, false
		}
		return *m, true
	}
	p.mins[field] = nil // while it is being computed
	typ, _, _ := strings.Cut(field, ".")
	var in []*ssa.Function
	for _, f := range p.Funcs {
		stores := false
		for _, b := range f.Blocks {
			given := map[ssa.Value]bool{}
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.Store:
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok && fieldKey(fa.X.Type(), fa.Field) == field {
						stores = true
						given[fa.X] = true
					}
					if typeStr(x.Val.Type()) == typ {
						return 0, false // copies of whole values
					}
				case *ssa.FieldAddr:
					if fieldKey(x.X.Type(), x.Field) != field {
						continue
					}
					for _, u := range *x.Referrers() {
						s, isStore := u.(*ssa.Store)
						l, isLoad := u.(*ssa.UnOp)
						if !(isStore && s.Addr == ssa.Value(x)) && !(isLoad && l.Op == token.MUL) {
							return 0, false // its address goes elsewhere
						}
					}
				}
			}
			for _, i := range b.Instrs {
				if a, ok := i.(*ssa.Alloc); ok && typeStr(a.Type()) == "*"+typ && !given[a] {
					return 0, false // starts as zero
				}
			}
		}
		if stores {
			in = append(in, f)
		}
	}
	least, all := int64(1<<40), true
	for _, f := range in {
		e := NewEngine(p)
		e.NoContent, e.PureGetters = true, true
		pr := &progress{e: e}
		e.Opaque = func(g *ssa.Function) bool { return !smallHelper(g) }
		seen := map[ssa.Instruction]bool{}
		e.H.Store = func(st *State, ctx *Ctx, s *ssa.Store, addr, val *Term) {
			if !addr.is("faddr:"+field) || ctx.fn != f {
				return
			}
			seen[s] = true
			v, ok := pr.lower(st, val)
			if !ok {
				all = false
			}
			least = min(least, v)
		}
		e.Run(f, nil)
		if len(e.Undecided) > 0 {
			return 0, false
		}
	}
	if !all || len(in) == 0 {
		return 0, false
	}
	p.mins[field] = &least
	return least, true
}
