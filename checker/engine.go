package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Ctx is one inlined activation.
type Ctx struct {
	id      int
	fn      *ssa.Function
	parent  *Ctx
	call    ssa.CallInstruction // nil for the root
	block   *ssa.BasicBlock     // block of the caller to return to
	idx     int                 // index of the instruction to resume at
	isDefer bool
	depth   int
}

type Loc struct {
	ctx *Ctx
	b   *ssa.BasicBlock
	idx int
}

// Call describes one call event.
type Call struct {
	Ctx     *Ctx
	In      ssa.CallInstruction
	Com     *ssa.CallCommon
	Name    string        // canonical callee name
	Fn      *ssa.Function // static callee, if any
	Args    []*Term       // receiver first
	Result  *Term         // bound after opaque calls
	Defer   bool          // executed as a deferred call
	Inlined bool
}

type Hooks struct {
	Call   func(st *State, c *Call)
	After  func(st *State, c *Call)
	Store  func(st *State, ctx *Ctx, in *ssa.Store, addr, val *Term)
	MapUpd func(st *State, ctx *Ctx, in *ssa.MapUpdate, m, k, v *Term)
	Edge   func(st *State, ctx *Ctx, from, to *ssa.BasicBlock)
	Branch func(st *State, ctx *Ctx, in *ssa.If, cond *Term, taken bool)
	Ret    func(st *State, ctx *Ctx, in *ssa.Return, res []*Term)
	Exit   func(st *State, ctx *Ctx) // return from an inlined context
	Instr  func(st *State, ctx *Ctx, in ssa.Instruction)
	Panic  func(st *State, ctx *Ctx, in *ssa.Panic)
	// Model may supply the result of a call; it returns nil to decline.
	Model func(st *State, c *Call) *Term
}

type Engine struct {
	p           *Program
	in          *Interner
	H           Hooks
	Opaque      func(fn *ssa.Function) bool // exported baseline functions by default
	MaxStates   int
	Undecided   []string
	Steps       int
	Inlined     map[string]bool
	visited     map[locKey]map[string]bool
	work        []workItem
	ctxs        []*Ctx
	ctxOf       map[ctxKey]*Ctx
	total       int
	root        *ssa.Function
	liveCache   map[locKey]map[ssa.Value]bool
	selfPhi     map[*ssa.Phi]bool
	NoLookahead bool
	Keep        []*Term                       // terms whose facts survive pruning
	Forget      func(t *Term) bool            // facts that are of no interest
	Irrelevant  func(c ssa.Value) bool        // conditions whose outcome is of no interest
	KeepBased   bool                          // facts over live values survive pruning
	ForgetCell  func(a *Term) bool            // memory cells that are of no interest
	KeepNear    bool                          // facts about the other results of live values survive pruning
	Coarse      bool                          // numbers, strings and byte slices that are computed are not followed
	KeepFacts   bool                          // keep every fact about terms that can still be named
	Exact       bool                          // integer arithmetic that may overflow has an unknown value
	UnrollSets  bool                          // loops over constant byte sets are followed element by element
	MaxUnroll   int64                         // constant loop counters are followed up to this value
	MaxDepth    int                           // depth of content terms
	Buffers     bool                          // track the content of byte buffers and string builders
	KeepStale   bool                          // facts about values of earlier iterations are kept as long as they can be named
	NoContent   bool                          // do not track the content of memory
	PureGetters bool                          // typed lookups cannot change byte slices of the analysed object
	Skip        func(st *State, c *Call) bool // calls treated as opaque on this path
	Stable      func(t *Term) bool            // values that do not grow when a loop carries them
}

type ctxKey struct {
	parent int
	call   ssa.Instruction
	at     ssa.Instruction
	fn     *ssa.Function
}
type locKey struct {
	ctx int
	b   *ssa.BasicBlock
	idx int
}
type workItem struct {
	loc Loc
	st  *State
}

func NewEngine(p *Program) *Engine {
	e := &Engine{p: p, in: newInterner(), MaxStates: 60000, MaxUnroll: 9, MaxDepth: 12, Inlined: map[string]bool{},
		visited: map[locKey]map[string]bool{}, ctxOf: map[ctxKey]*Ctx{}, liveCache: map[locKey]map[ssa.Value]bool{}, selfPhi: map[*ssa.Phi]bool{}}
	e.Opaque = func(fn *ssa.Function) bool { return baselineAPI[calleeName(fn)] }
	return e
}

func (e *Engine) undecided(format string, a ...any) {
	m := fmt.Sprintf(format, a...)
	for _, x := range e.Undecided {
		if x == m {
			return
		}
	}
	e.Undecided = append(e.Undecided, m)
}

// Run analyses fn from its entry.  The initial state can be adjusted by init.
func (e *Engine) Run(fn *ssa.Function, init func(st *State, ctx *Ctx)) {
	e.root = fn
	root := &Ctx{id: len(e.ctxs), fn: fn}
	e.ctxs = append(e.ctxs, root)
	st := newState()
	for i, prm := range fn.Params {
		st.env[envKey{root.id, prm}] = e.in.Param(fmt.Sprintf("%s.%d", fnName(fn), i), prm.Type())
	}
	for i, fv := range fn.FreeVars {
		st.env[envKey{root.id, fv}] = e.in.Param(fmt.Sprintf("%s.free%d", fnName(fn), i), fv.Type())
	}
	if init != nil {
		init(st, root)
	}
	e.push(Loc{root, fn.Blocks[0], 0}, st)
	for len(e.work) > 0 {
		it := e.work[len(e.work)-1]
		e.work = e.work[:len(e.work)-1]
		e.exec(it.loc, it.st)
		if e.total > e.MaxStates {
			e.undecided("state limit reached while analysing %s", fnName(fn))
			e.explain()
			e.work = nil
			return
		}
	}
}

// ParamTerm is the term of the i-th parameter (receiver first) of the root function.
func (e *Engine) ParamTerm(i int) *Term {
	return e.in.Param(fmt.Sprintf("%s.%d", fnName(e.root), i), e.root.Params[i].Type())
}

func (e *Engine) liveSet(ctx *Ctx, b *ssa.BasicBlock, idx int) map[ssa.Value]bool {
	k := locKey{ctx.id, b, idx}
	if s, ok := e.liveCache[k]; ok {
		return s
	}
	s := e.p.liveAt(ctx.fn, e.p.Liveness(ctx.fn), b, idx)
	e.liveCache[k] = s
	return s
}

func (e *Engine) prune(loc Loc, st *State) {
	// environment
	live := map[int]map[ssa.Value]bool{}
	live[loc.ctx.id] = e.liveSet(loc.ctx, loc.b, loc.idx)
	for c := loc.ctx; c.parent != nil; c = c.parent {
		live[c.parent.id] = e.liveSet(c.parent, c.block, c.idx)
	}
	for k := range st.env {
		if s, ok := live[k.ctx]; !ok || !s[k.v] {
			delete(st.env, k)
		}
	}
	if e.ForgetCell != nil {
		for a := range st.cells {
			if e.ForgetCell(a) {
				delete(st.cells, a)
				base := a
				for base.kind == 'u' && (base.hasOp("faddr:") || base.op == "iaddr") {
					base = root(base.args[0])
				}
				delete(st.zero, base)
			}
		}
	}
	// reachable terms
	reach := map[*Term]bool{}
	var mark func(t *Term)
	mark = func(t *Term) {
		if reach[t] {
			return
		}
		reach[t] = true
		for _, a := range t.args {
			mark(a)
		}
	}
	for _, v := range st.env {
		mark(v)
	}
	for _, v := range st.pins {
		mark(v)
		for i := 0; i < 3; i++ {
			if t, ok := e.in.m["u|x:"+strconv.Itoa(i)+"|"+strconv.Itoa(v.id)]; ok {
				mark(t)
			}
		}
	}
	for _, v := range e.Keep {
		mark(v)
	}
	for _, d := range st.defers {
		for _, a := range d.args {
			mark(a)
		}
	}
	var leavesOK func(t *Term) bool
	leavesOK = func(t *Term) bool {
		if t.kind == 'n' {
			return reach[t]
		}
		if !t.hasNode {
			return true
		}
		for _, a := range t.args {
			if !leavesOK(a) {
				return false
			}
		}
		return true
	}
	kept := map[*Term]bool{}
	for changed := true; changed; {
		changed = false
		for a, v := range st.cells {
			if kept[a] || !leavesOK(a) {
				continue
			}
			kept[a] = true
			changed = true
			mark(a)
			mark(v)
		}
	}
	for a := range st.cells {
		if !kept[a] {
			delete(st.cells, a)
		}
	}
	for t := range st.facts {
		if !reach[t] && !(e.KeepFacts && leavesOK(t)) && !(e.KeepBased && based(t, reach)) && !(e.KeepNear && near(t, reach)) || e.Forget != nil && e.Forget(t) {
			delete(st.facts, t)
		}
	}
	for t := range st.zero {
		if !leavesOK(t) {
			delete(st.zero, t)
		}
	}
}

// near: t says something about a live value, or about what it was taken from.
func near(t *Term, reach map[*Term]bool) bool {
	if t.kind != 'u' || len(t.args) == 0 || !t.is("==") && !t.hasOp("x:") && !t.hasOp("mv:") && !t.hasOp("is:") && !t.is("!") {
		return false
	}
	for _, a := range t.args {
		if !a.isConst() && !a.isNil() && !reach[a] && !near(a, reach) {
			return false
		}
	}
	return true
}

// coarse: values of the type are not followed.
func coarse(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsBoolean == 0
	case *types.Slice:
		_, ok := u.Elem().Underlying().(*types.Basic)
		return ok
	}
	return false
}

// based: t is arithmetic, a comparison or a length over reachable values only.
func based(t *Term, reach map[*Term]bool) bool {
	if reach[t] || t.isConst() {
		return true
	}
	if t.kind != 'u' || len(t.args) == 0 {
		return t.kind == 'f' || t.kind == 'g'
	}
	if strings.HasPrefix(t.op, "wrap") || strings.Contains(t.op, "call:") || t.hasOp("x:") || t.is("mapel") || t.is("mapok") || t.hasOp("as:") {
		return false
	}
	for _, a := range t.args {
		if !based(a, reach) {
			return false
		}
	}
	return true
}

func (e *Engine) push(loc Loc, st *State) {
	e.prune(loc, st)
	k := locKey{loc.ctx.id, loc.b, loc.idx}
	m := e.visited[k]
	if m == nil {
		m = map[string]bool{}
		e.visited[k] = m
	}
	key := e.key(st)
	if m[key] {
		return
	}
	m[key] = true
	e.total++
	e.work = append(e.work, workItem{loc, st})
}

// V gives the term of an SSA value in a context.
func (e *Engine) V(st *State, ctx *Ctx, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constTerm(x)
	case *ssa.Global:
		return e.in.mk("g|"+x.String(), func() *Term { return &Term{kind: 'g', op: x.String(), typ: x.Type(), glob: x} })
	case *ssa.Function:
		return e.in.mk("f|"+x.String(), func() *Term { return &Term{kind: 'f', op: x.String(), typ: x.Type(), fn: x} })
	case *ssa.Builtin:
		return e.in.mk("f|builtin "+x.Name(), func() *Term { return &Term{kind: 'f', op: "builtin " + x.Name(), typ: x.Type()} })
	}
	t := st.env[envKey{ctx.id, v}]
	if t == nil {
		// not reached on this path (or dead): an unknown value
		t = e.in.Node(ctx.id, v, e.p.id(v), 0, v.Type())
	}
	return t
}

func (e *Engine) constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return e.in.Zero(c.Type())
	}
	return e.in.Const(c.Value)
}

func (e *Engine) set(st *State, ctx *Ctx, v ssa.Value, t *Term) {
	st.env[envKey{ctx.id, v}] = t
}

// fresh creates the value of an instruction that yields a new value on each execution;
// an older value of the same instruction still in the state becomes "stale".
func (e *Engine) fresh(st *State, ctx *Ctx, label any, typ types.Type) *Term {
	id := 0
	switch x := label.(type) {
	case string:
		id = -1 - len(x)
		for i := 0; i < len(x); i++ {
			id = id*31 + int(x[i])
		}
		if id > 0 {
			id = -id
		}
	default:
		id = e.p.id(label)
	}
	maxGen := 4
	if e.Buffers {
		maxGen = 40 // element-wise loops of constant length
	}
	live := func() int {
		top := -1
		for g := 0; g <= maxGen; g++ {
			n := e.in.Node(ctx.id, label, id, g, typ)
			if !e.occurs(st, n) {
				break
			}
			top = g
		}
		return top
	}
	top := live()
	if top == maxGen {
		// forget what memory holds about old values
		for g := 2; g <= maxGen; g++ {
			e.forget(st, e.in.Node(ctx.id, label, id, g, typ))
		}
		top = live()
	}
	if top == maxGen {
		e.undecided("more than %d live generations of %s in %s", maxGen, fmt.Sprint(label), fnName(ctx.fn))
		top = maxGen - 1
		if os.Getenv("VERIF_DEBUG") == "2" {
			for k, v := range st.cells {
				fmt.Fprintln(os.Stderr, "CELL", trunc(k.String(), 150), "=", trunc(v.String(), 150))
			}
			for k, v := range st.env {
				fmt.Fprintln(os.Stderr, "ENV", k.ctx, k.v.Name(), "=", trunc(v.String(), 150))
			}
		}
	}
	for g := top; g >= 0; g-- {
		e.subst(st, e.in.Node(ctx.id, label, id, g, typ), e.in.Node(ctx.id, label, id, g+1, typ))
	}
	return e.in.Node(ctx.id, label, id, 0, typ)
}

// forget drops everything memory is known to hold about a value.
func (e *Engine) forget(st *State, n *Term) {
	for k, v := range st.cells {
		if k.contains(n) || v.contains(n) {
			delete(st.cells, k)
			for z := range st.zero {
				if k.contains(z) {
					delete(st.zero, z)
				}
			}
		}
	}
	for k := range st.facts {
		if k.contains(n) {
			delete(st.facts, k)
		}
	}
}

func (e *Engine) occurs(st *State, n *Term) bool {
	for _, v := range st.env {
		if v.contains(n) {
			return true
		}
	}
	for k, v := range st.cells {
		if k.contains(n) || v.contains(n) {
			return true
		}
	}
	for k := range st.facts {
		if k.contains(n) {
			return true
		}
	}
	for k := range st.zero {
		if k == n {
			return true
		}
	}
	for _, v := range st.pins {
		if v.contains(n) {
			return true
		}
	}
	for _, d := range st.defers {
		for _, a := range d.args {
			if a.contains(n) {
				return true
			}
		}
	}
	return false
}

func (e *Engine) subst(st *State, from, to *Term) {
	memo := map[*Term]*Term{}
	var sub func(t *Term) *Term
	sub = func(t *Term) *Term {
		if t == from {
			return to
		}
		if !t.hasNode || t.kind != 'u' {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		var args []*Term
		ch := false
		for _, a := range t.args {
			b := sub(a)
			ch = ch || a != b
			args = append(args, b)
		}
		r := t
		if ch {
			r = e.rebuild(t, args)
		}
		memo[t] = r
		return r
	}
	for k, v := range st.env {
		st.env[k] = sub(v)
	}
	nc := map[*Term]*Term{}
	for k, v := range st.cells {
		nc[sub(k)] = sub(v)
	}
	st.cells = nc
	nf := map[*Term]*Fact{}
	for k, f := range st.facts {
		nf[sub(k)] = f
	}
	st.facts = nf
	nz := map[*Term]bool{}
	for k := range st.zero {
		nz[sub(k)] = true
	}
	st.zero = nz
	for k, v := range st.pins {
		st.pins[k] = sub(v)
	}
	for i, d := range st.defers {
		args := make([]*Term, len(d.args))
		for j, a := range d.args {
			args[j] = sub(a)
		}
		st.defers[i].args = args
	}
}

// rebuild re-creates a pure term with new arguments keeping canonical argument order.
func (e *Engine) rebuild(t *Term, args []*Term) *Term {
	switch {
	case strings.HasPrefix(t.op, "lin:"):
		l := e.in.lin(t)
		r := linForm{l.c, map[*Term]int64{}}
		for i, a := range t.args {
			r.k[args[i]] += l.k[a]
		}
		return e.in.fromLin(r, t.typ)
	case t.op == "==":
		return e.Cmp(token.EQL, args[0], args[1])
	case t.op == "+" || t.op == "*" || t.op == "^" || t.op == "|" || t.op == "&":
		if t.typ != nil {
			if bt, ok := t.typ.Underlying().(*types.Basic); ok && bt.Info()&types.IsNumeric != 0 && args[0].id > args[1].id {
				args[0], args[1] = args[1], args[0]
			}
		}
	}
	return e.in.PureT(t.typ, t.op, args...)
}

// ------------------------------------------------------------ memory

const contentOp = "content"

// root strips slicing from a slice term.
func root(t *Term) *Term {
	for t.is("slice") {
		t = t.args[0]
	}
	return t
}

// Content gives the term of the bytes held by slice or string t now.
func (e *Engine) Content(st *State, t *Term) *Term {
	if t.typ != nil {
		if b, ok := t.typ.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return t
		}
	}
	if t.kind == 'c' || t.is("str") {
		return t
	}
	if c, ok := st.cells[e.in.Pure(contentOp, t)]; ok {
		return c
	}
	if t.is("slice") {
		return e.sub(e.Content(st, t.args[0]), t.args[1], t.args[2])
	}
	if c, ok := st.cells[t]; ok && c.is("md5") { // an array variable holding a hash
		return c
	}
	if t.is("md5") {
		return t
	}
	if t.kind == 's' {
		return t
	}
	return e.in.Pure("bytesof", t)
}

func (e *Engine) sub(c, lo, hi *Term) *Term {
	if lo.isNil() || isZeroInt(lo) {
		lo = e.in.Int(0)
	}
	if isZeroInt(lo) && hi.isNil() {
		return c
	}
	return e.in.Pure("sub", c, lo, hi)
}

func isZeroInt(t *Term) bool { v, ok := t.intVal(); return ok && v == 0 }

// SetContent records new content for the memory behind t.
func (e *Engine) SetContent(st *State, ctx *Ctx, in ssa.Instruction, t, c *Term) {
	if c.depth > e.MaxDepth && !e.NoContent {
		c = e.fresh(st, ctx, fmt.Sprintf("content@%d", e.p.id(in)), nil)
	}
	r := root(t)
	// drop element cells and content of other slices of the same memory
	for k := range st.cells {
		if k.is("iaddr") && root(k.args[0]) == r || k.is(contentOp) && root(k.args[0]) == r {
			delete(st.cells, k)
		}
	}
	delete(st.zero, r)
	if e.NoContent {
		for k := range st.facts {
			if k.contains(r) {
				delete(st.facts, k)
			}
		}
		return
	}
	if t == r {
		st.cells[e.in.Pure(contentOp, r)] = c
	} else {
		st.cells[e.in.Pure(contentOp, r)] = e.fresh(st, ctx, fmt.Sprintf("content@%d", e.p.id(in)), nil)
		st.cells[e.in.Pure(contentOp, t)] = c
	}
}

func (e *Engine) isAllocLike(t *Term) bool {
	if t.kind != 'n' {
		return false
	}
	switch t.val.(type) {
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap:
		return true
	}
	return false
}

func (e *Engine) distinct(a, b *Term) bool {
	if a == b {
		return false
	}
	if e.isAllocLike(a) && e.isAllocLike(b) {
		return true
	}
	al, bl := e.isAllocLike(a), e.isAllocLike(b)
	if al && (b.kind == 'p' || b.kind == 'g' || b.kind == 's') || bl && (a.kind == 'p' || a.kind == 'g' || a.kind == 's') {
		return true
	}
	if a.kind == 'g' && b.kind == 'g' {
		return true
	}
	return false
}

func (e *Engine) mayAlias(a, b *Term) bool {
	if a == b {
		return true
	}
	switch {
	case a.hasOp("faddr:") && b.hasOp("faddr:"):
		return a.op == b.op && !e.distinct(a.args[0], b.args[0])
	case a.is("iaddr") && b.is("iaddr"):
		if a.typ != nil && b.typ != nil && typeKey(a.typ) != typeKey(b.typ) {
			return false
		}
		ra, rb := root(a.args[0]), root(b.args[0])
		if ra == rb {
			if x, ok := a.args[1].intVal(); ok && a.args[0] == b.args[0] {
				if y, ok := b.args[1].intVal(); ok {
					return x == y
				}
			}
			return true
		}
		return !e.distinct(ra, rb)
	}
	return false
}

func (e *Engine) store(st *State, ctx *Ctx, in *ssa.Store, addr, val *Term) {
	for k := range st.cells {
		if k != addr && e.mayAlias(k, addr) {
			delete(st.cells, k)
		}
	}
	if addr.is("iaddr") {
		r := root(addr.args[0])
		for k := range st.cells {
			if k.is(contentOp) && (root(k.args[0]) == r || !e.distinct(root(k.args[0]), r) && k.args[0].kind != 'n') {
				delete(st.cells, k)
			}
		}
		if e.byteElem(addr) {
			st.cells[e.in.Pure(contentOp, r)] = e.fresh(st, ctx, fmt.Sprintf("content@%d", e.p.id(in)), nil)
		}
	}
	st.cells[addr] = val
}

func (e *Engine) byteElem(addr *Term) bool {
	if addr.typ == nil {
		return false
	}
	p, ok := addr.typ.Underlying().(*types.Pointer)
	return ok && isByteType(p.Elem())
}

// load reads memory.
func (e *Engine) load(st *State, ctx *Ctx, in ssa.Instruction, addr *Term, typ types.Type) *Term {
	if v, ok := st.cells[addr]; ok {
		return v
	}
	if addr.kind == 'g' {
		if t := e.globalValue(addr.glob); t != nil {
			return t
		}
	}
	if addr.is("iaddr") {
		if k, ok := addr.args[1].intVal(); ok {
			if s, ok := e.constBytes(addr.args[0]); ok && k >= 0 && k < int64(len(s)) {
				return e.in.Int(int64(s[k]))
			}
		}
	}
	// zero value of a fresh allocation
	base := addr
	for base.kind == 'u' && (base.hasOp("faddr:") || base.op == "iaddr") {
		base = root(base.args[0])
	}
	if st.zero[base] {
		// an element with a non-constant index may have been written through another index
		if addr.is("iaddr") {
			for k := range st.cells {
				if k.is("iaddr") && e.mayAlias(k, addr) {
					return e.memo(st, ctx, in, addr, typ)
				}
			}
		}
		if _, isStruct := typ.Underlying().(*types.Struct); !isStruct {
			return e.in.Zero(typ)
		}
	}
	return e.memo(st, ctx, in, addr, typ)
}

func (e *Engine) memo(st *State, ctx *Ctx, in ssa.Instruction, addr *Term, typ types.Type) *Term {
	t := e.fresh(st, ctx, in, typ)
	if !addr.contains(t) {
		st.cells[addr] = t
	}
	return t
}

// havoc applies the effects of an opaque in-repo callee.
func (e *Engine) havoc(st *State, fns []*ssa.Function) {
	for _, f := range fns {
		if !e.p.InRepo(f) {
			continue
		}
		m := e.p.Mods(f)
		for k := range st.cells {
			switch {
			case k.hasOp("faddr:"):
				if m.W["field:"+k.op[6:]] && !e.privateAlloc(st, k.args[0]) {
					delete(st.cells, k)
				}
			case k.is("iaddr"):
				if k.typ != nil && m.W["elem:"+typeKey(k.typ.Underlying().(*types.Pointer).Elem())] && !e.privateAlloc(st, root(k.args[0])) {
					delete(st.cells, k)
				}
			case k.kind == 'g':
				if m.W["global:"+k.op] {
					delete(st.cells, k)
				}
			case k.is("mapel"), k.is("mapok"):
				mt := k.args[0].typ
				if mt == nil || m.W["map:"+typeKey(mt)] {
					if !(e.isAllocLike(k.args[0]) && e.privateAlloc(st, k.args[0])) {
						delete(st.cells, k)
					}
				}
			case k.is(contentOp):
				if m.W["elem:uint8"] && !e.privateAlloc(st, root(k.args[0])) {
					delete(st.cells, k)
				}
			case k.is("la"), k.is("last"):
				delete(st.cells, k)
			case k.kind == 'n':
				// captured variable cells are written only by closures that capture them
				if a, ok := k.val.(*ssa.Alloc); ok && a.Heap && m.W["local"] {
					for _, g := range fns {
						if g.Parent() != nil {
							delete(st.cells, k)
						}
					}
				}
			}
		}
		for z := range st.zero {
			if !e.privateAlloc(st, z) && len(m.W) > 0 {
				delete(st.zero, z)
			}
		}
	}
}

// privateAlloc reports that the allocation cannot have been reached by callees: its SSA
// value is only loaded, stored to, indexed, sliced for local use or compared.
func (e *Engine) privateAlloc(st *State, t *Term) bool {
	if t.kind != 'n' {
		return false
	}
	v, ok := t.val.(ssa.Value)
	if !ok || !e.isAllocLike(t) {
		return false
	}
	return !e.p.escapes(v)
}

var escCache = map[ssa.Value]bool{}

// escapes reports whether an allocation may be visible to an in-repo callee.
func (p *Program) escapes(v ssa.Value) bool {
	if r, ok := escCache[v]; ok {
		return r
	}
	escCache[v] = false // recursion guard
	r := p.escapes1(v, map[ssa.Value]bool{})
	escCache[v] = r
	return r
}

func (p *Program) escapes1(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	refs := v.Referrers()
	if refs == nil {
		return true
	}
	for _, r := range *refs {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Val == v {
				return true
			}
		case *ssa.UnOp, *ssa.BinOp, *ssa.DebugRef, *ssa.Range, *ssa.Next:
		case *ssa.Return:
			for _, c := range p.callSites(x.Parent()) {
				cv, ok := c.(ssa.Value)
				if !ok {
					return true
				}
				if p.escapes1(cv, seen) {
					return true
				}
			}
			if p.isAddressTaken(x.Parent()) {
				return true
			}
		case *ssa.Extract:
			if p.escapes1(x, seen) {
				return true
			}
		case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Slice, *ssa.ChangeType, *ssa.Convert, *ssa.Phi, *ssa.MakeInterface, *ssa.ChangeInterface:
			if p.escapes1(r.(ssa.Value), seen) {
				return true
			}
		case *ssa.MapUpdate:
			if x.Value == v || x.Key == v {
				return true
			}
		case *ssa.Lookup:
		case ssa.CallInstruction:
			c := x.Common()
			if bi, ok := c.Value.(*ssa.Builtin); ok {
				if bi.Name() == "append" && c.Args[0] == v {
					if p.escapes1(x.(ssa.Value), seen) {
						return true
					}
				}
				continue
			}
			if c.IsInvoke() {
				if len(p.implementers(c)) > 0 {
					return true
				}
				continue
			}
			if f := c.StaticCallee(); f != nil && !p.InRepo(f) {
				continue // external code does not hand our memory to in-repo code (io callbacks aside)
			}
			return true
		default:
			return true
		}
	}
	return false
}

var sitesCache map[*ssa.Function][]ssa.CallInstruction
var takenCache map[*ssa.Function]bool

// callSites lists the static calls of f in the repository.
func (p *Program) callSites(f *ssa.Function) []ssa.CallInstruction {
	if sitesCache == nil {
		sitesCache = map[*ssa.Function][]ssa.CallInstruction{}
		for _, g := range p.Funcs {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok {
						if h := c.Common().StaticCallee(); h != nil {
							sitesCache[h] = append(sitesCache[h], c)
						}
					}
				}
			}
		}
	}
	return sitesCache[f]
}

func (p *Program) isAddressTaken(f *ssa.Function) bool {
	if takenCache == nil {
		takenCache = map[*ssa.Function]bool{}
		for _, g := range p.addressTaken() {
			takenCache[g] = true
		}
	}
	return takenCache[f]
}

// ------------------------------------------------------------ constant globals

type globalConst struct {
	ok    bool
	bytes *string // content of a []byte or string variable
	val   constant.Value
	ctor  string
}

func (e *Engine) globalValue(g *ssa.Global) *Term {
	gc := e.p.globalConst(g)
	if !gc.ok {
		return nil
	}
	if gc.val != nil {
		return e.in.Const(gc.val)
	}
	return e.in.mk("s|"+g.String(), func() *Term {
		return &Term{kind: 's', op: g.String(), typ: g.Type().Underlying().(*types.Pointer).Elem(), glob: g}
	})
}

// constBytes gives the content of a term known to be a constant string or byte slice.
func (e *Engine) constBytes(t *Term) (string, bool) {
	if s, ok := t.strVal(); ok {
		return s, true
	}
	if t.kind == 's' {
		if gc := e.p.globalConst(t.glob); gc.bytes != nil {
			return *gc.bytes, true
		}
	}
	if t.is("bytes") || t.is("str") {
		return e.constBytes(t.args[0])
	}
	return "", false
}

var gcCache = map[*ssa.Global]*globalConst{}

// globalConst decides whether a package variable keeps its initial value for ever.
func (p *Program) globalConst(g *ssa.Global) *globalConst {
	if c, ok := gcCache[g]; ok {
		return c
	}
	c := &globalConst{}
	gcCache[g] = c
	if g.Pkg != p.Pdf && g.Pkg != p.Main {
		// exported sentinels of the standard library (io.EOF)
		c.ok = true
		return c
	}
	var init ssa.Value
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops [16]*ssa.Value
				for _, op := range in.Operands(ops[:0]) {
					if *op != g {
						continue
					}
					switch x := in.(type) {
					case *ssa.UnOp:
						// a load: fine unless the loaded slice is written through
						if !p.readOnlyUse(x, map[ssa.Value]bool{}) {
							return c
						}
					case *ssa.Store:
						if x.Addr != g || f.Synthetic == "" || f.Name() != "init" || init != nil {
							return c
						}
						init = x.Val
					case *ssa.DebugRef:
					default:
						return c
					}
				}
			}
		}
	}
	if init == nil {
		return c
	}
	switch v := init.(type) {
	case *ssa.Const:
		if v.Value != nil {
			c.ok, c.val = true, v.Value
		}
		return c
	case *ssa.Convert:
		if k, ok := v.X.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
			s := constant.StringVal(k.Value)
			c.ok, c.bytes = true, &s
		}
		return c
	case *ssa.Call:
		if f := v.Call.StaticCallee(); f != nil {
			c.ctor = calleeName(f)
		}
		c.ok = true
		return c
	case *ssa.Slice:
		// composite literal []byte{...}
		if a, ok := v.X.(*ssa.Alloc); ok {
			if at, ok := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok && isByteType(at.Elem()) {
				buf := make([]byte, at.Len())
				for _, r := range *a.Referrers() {
					if ia, ok := r.(*ssa.IndexAddr); ok {
						k, ok1 := ia.Index.(*ssa.Const)
						for _, rr := range *ia.Referrers() {
							if s, ok := rr.(*ssa.Store); ok && ok1 {
								if val, ok := s.Val.(*ssa.Const); ok {
									buf[k.Int64()] = byte(val.Int64())
								}
							}
						}
					}
				}
				s := string(buf)
				c.ok, c.bytes = true, &s
			}
		}
		return c
	case *ssa.Alloc:
		c.ok = true
		c.ctor = "new " + v.Type().String()
		return c
	case *ssa.MakeInterface:
		c.ok = true
		return c
	}
	return c
}

// readOnlyUse reports that a slice loaded from a global is never written through.
func (p *Program) readOnlyUse(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	if _, ok := v.Type().Underlying().(*types.Slice); !ok {
		return true
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.IndexAddr:
			for _, rr := range *x.Referrers() {
				if s, ok := rr.(*ssa.Store); ok && s.Addr == ssa.Value(x) {
					return false
				}
			}
		case *ssa.Slice:
			if !p.readOnlyUse(x, seen) {
				return false
			}
		case ssa.CallInstruction:
			c := x.Common()
			name := ""
			if c.IsInvoke() {
				name = c.Method.Name()
			} else if f := c.StaticCallee(); f != nil {
				name = f.Name()
			} else if b, ok := c.Value.(*ssa.Builtin); ok {
				name = b.Name()
			}
			pos := -1
			for i, a := range c.Args {
				if a == v {
					pos = i
				}
			}
			first := 0
			if f := c.StaticCallee(); f != nil && f.Signature.Recv() != nil {
				first = 1
			}
			if name == "copy" && pos == 0 {
				return false
			}
			if mutatesArgs[name] {
				if (name == "XORKeyStream" || name == "CryptBlocks") && pos != first {
					continue
				}
				return false
			}
			_ = c
		}
	}
	return true
}

// ------------------------------------------------------------ execution

func (e *Engine) exec(loc Loc, st *State) {
	ctx, b := loc.ctx, loc.b
	for i := loc.idx; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		e.Steps++
		if e.H.Instr != nil {
			e.H.Instr(st, ctx, in)
		}
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.If:
			cond := e.V(st, ctx, x.Cond)
			for k, succ := range b.Succs {
				want := k == 0
				s2 := st.clone()
				if !e.Assume(s2, cond, want) {
					continue
				}
				if e.Irrelevant != nil && e.Irrelevant(x.Cond) {
					s2 = st.clone()
				}
				s2.trace = &traceNode{prev: st.trace, pos: fmt.Sprintf("%s %v=%v", e.p.InstrPos(in), trunc(cond.String(), 120), want)}
				if st.trace != nil {
					s2.trace.n = st.trace.n + 1
				}
				if e.H.Branch != nil {
					e.H.Branch(s2, ctx, x, cond, want)
				}
				e.edge(s2, ctx, b, succ, k)
			}
			return
		case *ssa.Jump:
			e.edge(st, ctx, b, b.Succs[0], 0)
			return
		case *ssa.Return:
			var res []*Term
			for _, r := range x.Results {
				res = append(res, e.V(st, ctx, r))
			}
			e.ret(st, ctx, x, res)
			return
		case *ssa.Panic:
			if e.H.Panic != nil {
				e.H.Panic(st, ctx, x)
			}
			return
		case *ssa.RunDefers:
			n := len(st.defers)
			if n == 0 || st.defers[n-1].ctx != ctx.id {
				continue
			}
			d := st.defers[n-1]
			st.defers = st.defers[:n-1]
			done := e.call(st, ctx, d.in, d.args, b, i, true, in)
			if !done {
				return
			}
			i-- // run the remaining ones
		case *ssa.Call:
			if !e.call(st, ctx, x, nil, b, i+1, false, in) {
				return
			}
		case *ssa.Defer:
			var args []*Term
			c := x.Common()
			if c.IsInvoke() {
				args = append(args, e.V(st, ctx, c.Value))
			} else if _, ok := c.Value.(*ssa.Builtin); !ok {
				args = append(args, e.V(st, ctx, c.Value))
			} else {
				args = append(args, e.V(st, ctx, c.Value))
			}
			for _, a := range c.Args {
				args = append(args, e.V(st, ctx, a))
			}
			st.defers = append(st.defers, deferred{ctx.id, x, args})
			if len(st.defers) > 12 {
				e.undecided("deferred calls accumulate in %s", fnName(ctx.fn))
				return
			}
		case *ssa.Go:
			e.undecided("goroutine started at %s", e.p.InstrPos(in))
		default:
			e.step(st, ctx, in)
		}
	}
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func (e *Engine) ret(st *State, ctx *Ctx, in *ssa.Return, res []*Term) {
	if ctx.parent == nil {
		if e.H.Ret != nil {
			e.H.Ret(st, ctx, in, res)
		}
		return
	}
	if e.H.Exit != nil {
		e.H.Exit(st, ctx)
	}
	if !ctx.isDefer {
		var t *Term
		switch len(res) {
		case 0:
			t = e.in.Nil()
		case 1:
			t = res[0]
		default:
			t = e.in.Pure("tuple", res...)
		}
		if v, ok := ctx.call.(ssa.Value); ok {
			e.set(st, ctx.parent, v, t)
		}
		if e.H.After != nil {
			c := e.mkCall(st, ctx.parent, ctx.call, nil)
			c.Inlined = true
			c.Result = t
			e.H.After(st, c)
		}
	}
	e.push(Loc{ctx.parent, ctx.block, ctx.idx}, st)
}

func (e *Engine) edge(st *State, ctx *Ctx, from, to *ssa.BasicBlock, succIdx int) {
	if e.H.Edge != nil {
		e.H.Edge(st, ctx, from, to)
	}
	// which predecessor slot (a block can appear twice)
	pi := -1
	cnt := 0
	for k := 0; k < succIdx; k++ {
		if from.Succs[k] == to {
			cnt++
		}
	}
	for i, p := range to.Preds {
		if p == from {
			if cnt == 0 {
				pi = i
				break
			}
			cnt--
		}
	}
	e.collectKeys(st, ctx, from, to)
	back := to.Dominates(from)
	type upd struct {
		phi *ssa.Phi
		t   *Term
		old *Term
	}
	var ups []upd
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ups = append(ups, upd{phi, e.V(st, ctx, phi.Edges[pi]), st.env[envKey{ctx.id, phi}]})
	}
	for i := range ups {
		phi := ups[i].phi
		if back && e.growing(phi, from) {
			e.set(st, ctx, phi, ups[i].t) // keep the incoming value alive for fact transfer
		}
	}
	for i := range ups {
		if e.Exact && !back && defaultPhi(ups[i].phi) || e.Coarse && coarse(ups[i].phi.Type()) {
			ups[i].t = e.fresh(st, ctx, ups[i].phi, ups[i].phi.Type())
		}
	}
	for i := range ups {
		phi := ups[i].phi
		t := ups[i].t
		if back && e.growing(phi, from) && !e.p.directConst(phi, t) && !e.smallLoop(st, ctx, phi, t) && !(e.Stable != nil && e.Stable(t)) {
			var carried func(nt *Term)
			if e.Exact {
				carried = e.carry(st, ctx, phi, t, ups[i].old)
			}
			lo, hi, hl, hh := e.Range(st, t)
			nt := e.fresh(st, ctx, phi, phi.Type())
			// terms collected before the renaming may mention the old node
			for j := i + 1; j < len(ups); j++ {
				ups[j].t = e.refresh(ups[j].t, nt)
			}
			ups[i].t = nt
			f := &Fact{}
			if iv := e.p.inductive(phi); iv != nil && iv.startConst != nil {
				if iv.step > 0 && (!hl || lo < *iv.startConst+iv.step) {
					lo, hl = *iv.startConst+iv.step, true
				}
				if iv.step < 0 && (!hh || hi > *iv.startConst+iv.step) {
					hi, hh = *iv.startConst+iv.step, true
				}
			}
			_ = hi
			if iv := e.p.inductive(phi); iv != nil {
				if iv.step > 0 && iv.startConst != nil {
					f.lo, f.hasLo = *iv.startConst+iv.step, true
				}
				if iv.step < 0 && iv.startConst != nil {
					f.hi, f.hasHi = *iv.startConst+iv.step, true
				}
			}
			if carried != nil {
				carried(nt)
			} else if f.hasLo || f.hasHi {
				st.facts[nt] = f
			}
		}
		e.set(st, ctx, phi, ups[i].t)
	}
	if back && e.Exact {
		st.coarsen()
	}
	if back && e.Buffers {
		// element cells of earlier iterations
		for k := range st.cells {
			if k.is("iaddr") && e.byteElem(k) && staleNode(k.args[1]) {
				delete(st.cells, k)
			}
		}
		for k := range st.facts {
			if staleNode(k) && !e.KeepStale {
				delete(st.facts, k)
			}
		}
	}
	e.push(Loc{ctx, to, firstNonPhi(to)}, st)
}

// collectKeys summarises a loop that collects all keys of a map into an empty slice: on the
// natural exit the slice is known to hold exactly the keys of the map.
func (e *Engine) collectKeys(st *State, ctx *Ctx, from, to *ssa.BasicBlock) {
	l := e.p.Loops(ctx.fn).ByHeader[from]
	if l == nil || l.Body[to] {
		return
	}
	var next *ssa.Next
	for _, in := range from.Instrs {
		if n, ok := in.(*ssa.Next); ok {
			next = n
		}
	}
	if next == nil {
		return
	}
	rg, ok := next.Iter.(*ssa.Range)
	if !ok {
		return
	}
	mt, ok := rg.X.Type().Underlying().(*types.Map)
	if !ok {
		return
	}
	coll := e.V(st, ctx, rg.X)
	if rt := e.V(st, ctx, rg); rt.is("range") {
		coll = rt.args[0]
	}
	for _, in := range from.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		sl, ok := phi.Type().Underlying().(*types.Slice)
		if !ok || !types.Identical(sl.Elem(), mt.Key()) || !e.p.collects(phi, next) {
			continue
		}
		e.set(st, ctx, phi, e.in.PureT(phi.Type(), "keysof", coll))
	}
}

// collects reports that phi starts empty and gets the key of next appended on every iteration.
func (p *Program) collects(phi *ssa.Phi, next *ssa.Next) bool {
	for i, pr := range phi.Block().Preds {
		v := phi.Edges[i]
		if !phi.Block().Dominates(pr) {
			switch x := v.(type) {
			case *ssa.Const:
				if x.Value != nil {
					return false
				}
			case *ssa.MakeSlice:
				if k, ok := x.Len.(*ssa.Const); !ok || k.Int64() != 0 {
					return false
				}
			case *ssa.Slice:
				a, ok := x.X.(*ssa.Alloc)
				if !ok {
					return false
				}
				n := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
				if k, ok := x.High.(*ssa.Const); n != 0 && !(ok && k.Int64() == 0) {
					return false
				}
			default:
				return false
			}
			continue
		}
		c, ok := v.(*ssa.Call)
		if !ok {
			return false
		}
		if b, ok := c.Call.Value.(*ssa.Builtin); !ok || b.Name() != "append" || c.Call.Args[0] != ssa.Value(phi) {
			return false
		}
		s, ok := c.Call.Args[1].(*ssa.Slice)
		if !ok {
			return false
		}
		a, ok := s.X.(*ssa.Alloc)
		if !ok || a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len() != 1 {
			return false
		}
		good := false
		for _, r := range *a.Referrers() {
			ia, ok := r.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			for _, rr := range *ia.Referrers() {
				if st, ok := rr.(*ssa.Store); ok {
					ex, ok := st.Val.(*ssa.Extract)
					good = ok && ex.Tuple == ssa.Value(next) && ex.Index == 1
				}
			}
		}
		if !good {
			return false
		}
	}
	return true
}

// staleNode reports that t mentions a value of an earlier iteration.
func staleNode(t *Term) bool {
	if t.kind == 'n' {
		return t.gen > 0
	}
	if t.hasNode {
		for _, a := range t.args {
			if staleNode(a) {
				return true
			}
		}
	}
	return false
}

// refresh renames the generation-0 node in t to generation 1 after a fresh().
func (e *Engine) refresh(t, fresh *Term) *Term {
	if !t.contains(fresh) {
		return t
	}
	s := newState()
	s.pins["x"] = t
	id, _ := strconv.Atoi(fresh.op)
	e.subst(s, fresh, e.in.Node(fresh.ctx, fresh.val, id, 1, fresh.typ))
	return s.pins["x"]
}

func firstNonPhi(b *ssa.BasicBlock) int {
	for i, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			return i
		}
	}
	return len(b.Instrs)
}

// smallLoop reports that phi counts a loop up to a small constant bound, which is unrolled.
func (e *Engine) smallLoop(st *State, ctx *Ctx, phi *ssa.Phi, t *Term) bool {
	max := e.MaxUnroll
	if e.UnrollSets {
		max = 64
	}
	v, ok := t.intVal()
	if !ok || v < -1 || v > max {
		return false
	}
	iv := e.p.inductive(phi)
	if iv == nil || iv.step != 1 || iv.startConst == nil {
		return false
	}
	l := e.p.Loops(ctx.fn).ByHeader[phi.Block()]
	if l == nil || e.Buffers && storesBytes(l) {
		return false
	}
	for b := range l.Body {
		for _, s := range b.Succs {
			if l.Body[s] {
				continue
			}
			be := e.p.loopBound(ctx.fn, l, iv, b)
			if be == nil || be.op != token.LSS && be.op != token.LEQ && be.op != token.NEQ {
				continue
			}
			lim, ok := e.reTerm(st, ctx, be.limit).intVal()
			if ok && lim >= 0 && lim <= e.MaxUnroll || ok && lim <= max && e.setLength(be.limit) {
				return true
			}
		}
	}
	return false
}

// setLength: v is the length of something; it is followed when that is constant.
func (e *Engine) setLength(v ssa.Value) bool {
	return e.UnrollSets && isLen(v)
}

func isLen(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "len"
}

// storesBytes reports that the loop itself (not an inner one) writes single bytes of a slice.
func storesBytes(l *Loop) bool {
	n := 0
	for b := range l.Body {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
					if pt, ok := ia.Type().Underlying().(*types.Pointer); ok && isByteType(pt.Elem()) {
						n++
					}
				}
			case ssa.CallInstruction:
				if _, ok := x.Common().Value.(*ssa.Builtin); !ok {
					return false
				}
			}
		}
	}
	return n > 0
}

// directConst reports that constant t is assigned to the phi as such on a back edge,
// or that the phi counts a loop with a small constant bound.
func (p *Program) directConst(phi *ssa.Phi, t *Term) bool {
	if !t.isConst() {
		return false
	}
	seen := map[ssa.Value]bool{}
	found := false
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] || found {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				walk(e)
			}
		case *ssa.Const:
			if x.Value == nil {
				found = found || !(t.cv != nil)
			} else if t.cv != nil && t.cv.Kind() == x.Value.Kind() && constant.Compare(t.cv, token.EQL, x.Value) {
				found = true
			}
		}
	}
	for i, pr := range phi.Block().Preds {
		if phi.Block().Dominates(pr) {
			walk(phi.Edges[i])
		}
	}
	return found
}

// growing reports whether the back-edge value of a loop phi is computed from the phi
// itself through operations that would build ever larger terms.
func (e *Engine) growing(phi *ssa.Phi, from *ssa.BasicBlock) bool {
	if r, ok := e.selfPhi[phi]; ok {
		return r
	}
	res := false
	for i, p := range phi.Block().Preds {
		if !phi.Block().Dominates(p) {
			continue
		}
		v := phi.Edges[i]
		if v == ssa.Value(phi) {
			continue
		}
		seen := map[ssa.Value]int{}
		var dep func(v ssa.Value, op bool) bool
		dep = func(v ssa.Value, op bool) bool {
			if v == ssa.Value(phi) {
				return op
			}
			bit := 1
			if op {
				bit = 2
			}
			if seen[v]&bit != 0 {
				return false
			}
			seen[v] |= bit
			switch x := v.(type) {
			case *ssa.Phi:
				for _, ed := range x.Edges {
					if dep(ed, op) {
						return true
					}
				}
			case *ssa.BinOp:
				return dep(x.X, true) || dep(x.Y, true)
			case *ssa.UnOp:
				if x.Op == token.MUL {
					return false
				}
				return dep(x.X, true)
			case *ssa.Convert:
				return dep(x.X, true)
			case *ssa.ChangeType:
				return dep(x.X, op)
			case *ssa.MakeInterface:
				return dep(x.X, true)
			case *ssa.Slice:
				return dep(x.X, true)
			case *ssa.TypeAssert:
				return dep(x.X, true)
			case *ssa.Extract:
				return dep(x.Tuple, op)
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "append" || bi.Name() == "min" || bi.Name() == "max") {
					for _, a := range x.Call.Args {
						if dep(a, true) {
							return true
						}
					}
				} else if f := x.Call.StaticCallee(); f != nil {
					// pure or inlined callees may return their argument
					for _, a := range x.Call.Args {
						if dep(a, true) {
							return true
						}
					}
				}
			}
			return false
		}
		if dep(v, false) {
			res = true
		}
	}
	e.selfPhi[phi] = res
	return res
}

type inductive struct {
	phi        *ssa.Phi
	start      ssa.Value
	startConst *int64
	step       int64
	next       ssa.Value
}

// inductive recognises phi = [start, phi+c].
func (p *Program) inductive(phi *ssa.Phi) *inductive {
	b := phi.Block()
	iv := &inductive{phi: phi}
	for i, pr := range b.Preds {
		v := phi.Edges[i]
		if b.Dominates(pr) {
			bo, ok := v.(*ssa.BinOp)
			if !ok || (bo.Op != token.ADD && bo.Op != token.SUB) || bo.X != ssa.Value(phi) {
				return nil
			}
			c, ok := bo.Y.(*ssa.Const)
			if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
				return nil
			}
			s := c.Int64()
			if bo.Op == token.SUB {
				s = -s
			}
			if iv.next != nil && iv.step != s {
				return nil
			}
			iv.step, iv.next = s, bo
		} else {
			if iv.start != nil && iv.start != v {
				return nil
			}
			iv.start = v
		}
	}
	if iv.start == nil || iv.next == nil || iv.step == 0 {
		return nil
	}
	if c, ok := iv.start.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
		k := c.Int64()
		iv.startConst = &k
	}
	return iv
}

func typeStr(t types.Type) string {
	return types.TypeString(types.Unalias(t), func(p *types.Package) string {
		if p.Path() == pdfPath {
			return ""
		}
		return p.Path()
	})
}

// step executes a straight-line instruction.
func (e *Engine) step(st *State, ctx *Ctx, in ssa.Instruction) {
	v := func(x ssa.Value) *Term { return e.V(st, ctx, x) }
	set := func(t *Term) { e.set(st, ctx, in.(ssa.Value), t) }
	switch x := in.(type) {
	case *ssa.Alloc:
		t := e.fresh(st, ctx, x, x.Type())
		for k := range st.cells { // no cells of a new allocation
			if k.contains(t) {
				delete(st.cells, k)
			}
		}
		st.zero[t] = true
		et := x.Type().Underlying().(*types.Pointer).Elem()
		switch et.Underlying().(type) {
		case *types.Struct, *types.Array:
		default:
			st.cells[t] = e.in.Zero(et)
		}
		set(t)
	case *ssa.BinOp:
		a, b := v(x.X), v(x.Y)
		switch x.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			set(e.Cmp(x.Op, a, b))
		default:
			var t *Term
			if e.Coarse && coarse(x.Type()) {
				set(e.fresh(st, ctx, x, x.Type()))
				break
			}
			if e.Exact {
				t = e.exactBin(st, x, a, b)
			} else {
				t = e.in.BinOp(x.Op, a, b, x.Type())
			}
			if t.depth > 14 {
				t = e.fresh(st, ctx, x, x.Type())
			}
			set(t)
		}
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			set(e.load(st, ctx, x, v(x.X), x.Type()))
		case token.NOT:
			set(e.Not(v(x.X)))
		case token.SUB:
			if isWideInt(x.Type()) && (!e.Exact || e.ival(st, v(x.X)).lo > -maxInt) {
				set(e.in.linAdd(e.in.Int(0), v(x.X), -1, x.Type()))
			} else if c := v(x.X); c.cv != nil && c.cv.Kind() != constant.String {
				set(e.in.Const(constant.UnaryOp(token.SUB, c.cv, 0)))
			} else {
				set(e.in.PureT(x.Type(), "neg", c))
			}
		default:
			set(e.in.PureT(x.Type(), "un"+x.Op.String(), v(x.X)))
		}
	case *ssa.Store:
		a, val := v(x.Addr), v(x.Val)
		if e.H.Store != nil {
			e.H.Store(st, ctx, x, a, val)
		}
		e.store(st, ctx, x, a, val)
	case *ssa.FieldAddr:
		set(e.in.PureT(x.Type(), "faddr:"+fieldKey(x.X.Type(), x.Field), v(x.X)))
	case *ssa.Field:
		s := x.X.Type().Underlying().(*types.Struct)
		set(e.in.PureT(x.Type(), "field:"+s.Field(x.Field).Name(), v(x.X)))
	case *ssa.IndexAddr:
		set(e.in.PureT(x.Type(), "iaddr", v(x.X), v(x.Index)))
	case *ssa.Index:
		set(e.in.PureT(x.Type(), "index", v(x.X), v(x.Index)))
	case *ssa.Slice:
		base := v(x.X)
		lo, hi := e.in.Nil(), e.in.Nil()
		if x.Low != nil {
			lo = v(x.Low)
			if isZeroInt(lo) {
				lo = e.in.Nil()
			}
		}
		if x.High != nil {
			hi = v(x.High)
		}
		if lo.isNil() && hi.isNil() {
			set(base)
			return
		}
		if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok && lo.isNil() {
			// new [n]T (makeslice) with full length
			if at, ok := pt.Elem().Underlying().(*types.Array); ok {
				if k, ok := hi.intVal(); ok && k == at.Len() {
					set(base)
					return
				}
			}
		}
		set(e.in.PureT(x.Type(), "slice", base, lo, hi))
	case *ssa.MakeSlice:
		t := e.fresh(st, ctx, x, x.Type())
		st.zero[t] = true
		st.cells[e.in.Pure("lenof", t)] = v(x.Len)
		set(t)
	case *ssa.MakeMap:
		t := e.fresh(st, ctx, x, x.Type())
		st.zero[t] = true
		set(t)
	case *ssa.MakeChan:
		set(e.fresh(st, ctx, x, x.Type()))
	case *ssa.MakeInterface:
		set(e.in.PureT(x.X.Type(), "iface:"+typeStr(x.X.Type()), v(x.X)))
	case *ssa.ChangeInterface:
		set(v(x.X))
	case *ssa.ChangeType:
		set(v(x.X))
	case *ssa.Convert:
		set(e.convert(st, ctx, x, v(x.X)))
	case *ssa.MultiConvert:
		set(e.fresh(st, ctx, x, x.Type()))
	case *ssa.SliceToArrayPointer:
		set(v(x.X))
	case *ssa.TypeAssert:
		o := v(x.X)
		ts := typeStr(x.AssertedType)
		if types.IsInterface(x.AssertedType) {
			ts = "interface " + ts
		}
		var val, ok *Term
		if o.hasOp("iface:") && o.op[6:] == ts {
			val, ok = o.args[0], e.in.Bool(true)
		} else {
			val = e.in.PureT(x.AssertedType, "as:"+ts, o)
			ok = e.in.PureT(types.Typ[types.Bool], "is:"+ts, o)
		}
		if x.CommaOk {
			set(e.in.Pure("tuple", val, ok))
		} else {
			set(val)
		}
	case *ssa.Extract:
		t := v(x.Tuple)
		if t.is("tuple") {
			set(t.args[x.Index])
		} else {
			set(e.in.PureT(x.Type(), "x:"+strconv.Itoa(x.Index), t))
		}
	case *ssa.Lookup:
		set(e.lookup(st, ctx, x, v(x.X), v(x.Index)))
	case *ssa.MapUpdate:
		m, k, val := v(x.Map), v(x.Key), v(x.Value)
		if e.H.MapUpd != nil {
			e.H.MapUpd(st, ctx, x, m, k, val)
		}
		e.mapKill(st, m, k)
		for z := range st.zero {
			// keys are only remembered while they can be named
			if z == m && !e.constLike(k) || z != m && !e.distinct(z, m) {
				delete(st.zero, z)
			}
		}
		st.cells[e.mapCell("mapel", m, k)] = val
		st.cells[e.mapCell("mapok", m, k)] = e.in.Bool(true)
	case *ssa.Range:
		set(e.in.PureT(x.Type(), "range", v(x.X)))
	case *ssa.Next:
		set(e.fresh(st, ctx, x, x.Type()))
	case *ssa.MakeClosure:
		var b []*Term
		for _, y := range x.Bindings {
			b = append(b, v(y))
		}
		t := e.in.PureT(x.Type(), "closure:"+x.Fn.String(), b...)
		t.fn = x.Fn.(*ssa.Function)
		set(t)
	case *ssa.Select, *ssa.Send:
		e.undecided("channel operation at %s", e.p.InstrPos(in))
		if val, ok := in.(ssa.Value); ok {
			e.set(st, ctx, val, e.fresh(st, ctx, in, val.Type()))
		}
	default:
		e.undecided("unsupported instruction %T at %s", in, e.p.InstrPos(in))
		if val, ok := in.(ssa.Value); ok {
			e.set(st, ctx, val, e.fresh(st, ctx, in, val.Type()))
		}
	}
}

func (e *Engine) mapCell(op string, m, k *Term) *Term { return e.in.Pure(op, m, k) }

func (e *Engine) mapKill(st *State, m, k *Term) {
	for c := range st.cells {
		if (c.is("mapel") || c.is("mapok")) && !e.distinct(c.args[0], m) {
			if c.args[0].typ != nil && m.typ != nil && typeKey(c.args[0].typ) != typeKey(m.typ) {
				continue
			}
			if c.args[1] == k && c.args[0] == m {
				delete(st.cells, c)
				continue
			}
			if e.constLike(c.args[1]) && e.constLike(k) && c.args[1] != k {
				continue
			}
			delete(st.cells, c)
		}
	}
}

// iterKey: k is the key of an iteration over m, which then has it.
func (e *Engine) iterKey(st *State, m, k *Term) bool {
	if !k.is("x:1") || k.args[0].kind != 'n' {
		return false
	}
	nx, ok := k.args[0].val.(*ssa.Next)
	return ok && int(k.args[0].ctx) < len(e.ctxs) && e.ranged(st, e.ctxs[k.args[0].ctx], nx) == m
}

func (e *Engine) lookup(st *State, ctx *Ctx, x *ssa.Lookup, m, k *Term) *Term {
	if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
		return e.in.PureT(x.Type(), "index", m, k) // string index
	}
	vt := x.X.Type().Underlying().(*types.Map).Elem()
	ce, co := e.mapCell("mapel", m, k), e.mapCell("mapok", m, k)
	val, ok := st.cells[ce]
	okt := st.cells[co]
	if !ok || okt == nil {
		empty := st.zero[m] && !e.iterKey(st, m, k)
		if empty {
			for c := range st.cells {
				if c.is("mapok") && c.args[0] == m && !(e.constLike(c.args[1]) && e.constLike(k)) {
					empty = false
				}
			}
		}
		if empty {
			val, okt = e.in.Zero(vt), e.in.Bool(false)
		} else {
			n := e.fresh(st, ctx, x, x.Type())
			if k.contains(n) || m.contains(n) {
				val, okt = e.in.PureT(vt, "x:0", n), e.in.PureT(types.Typ[types.Bool], "x:1", n)
			} else {
				val, okt = e.in.PureT(vt, "mv:0", n), e.in.PureT(types.Typ[types.Bool], "mv:1", n)
				// the terms of m and k may have been renamed by fresh
				m, k = e.V(st, ctx, x.X), e.V(st, ctx, x.Index)
				st.cells[e.mapCell("mapel", m, k)] = val
				st.cells[e.mapCell("mapok", m, k)] = okt
			}
		}
	}
	if x.CommaOk {
		return e.in.Pure("tuple", val, okt)
	}
	return val
}

func (e *Engine) convert(st *State, ctx *Ctx, x *ssa.Convert, a *Term) *Term {
	from, to := x.X.Type().Underlying(), x.Type().Underlying()
	fb, fok := from.(*types.Basic)
	tb, tok := to.(*types.Basic)
	if fok && tok {
		if a.cv != nil && fb.Info()&types.IsNumeric != 0 && tb.Info()&types.IsNumeric != 0 {
			if v := foldBin(token.ADD, a.cv, constant.MakeInt64(0), x.Type()); v != nil {
				if tb.Info()&types.IsInteger != 0 && v.Kind() == constant.Int || tb.Info()&types.IsFloat != 0 {
					return e.in.Const(v)
				}
			}
		}
		if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
			f, fu := intBits(fb)
			t, tu := intBits(tb)
			// value preserving conversions keep the term
			if f == t && fu == tu || fu && t > f || !fu && !tu && t >= f {
				return a
			}
			if isByteType(a.typ) && t >= 8 && !(t == 8 && !tu) {
				return a // a byte that was widened before
			}
			return e.in.PureT(x.Type(), "conv:"+tb.Name(), a)
		}
		if fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0 {
			return a
		}
		if fb.Kind() == tb.Kind() {
			return a
		}
		return e.in.PureT(x.Type(), "conv:"+tb.Name(), a)
	}
	if fok && fb.Info()&types.IsString != 0 {
		// string -> []byte: a new buffer
		if _, ok := to.(*types.Slice); ok && isByteType(to.(*types.Slice).Elem()) {
			if a.isConst() {
				t := e.fresh(st, ctx, x, x.Type())
				st.cells[e.in.Pure(contentOp, t)] = a
				if e.Exact {
					st.cells[e.in.Pure("lenof", t)] = e.Len(st, a, nil)
				}
				return t
			}
			return e.in.PureT(x.Type(), "bytes", a)
		}
	}
	if tok && tb.Info()&types.IsString != 0 {
		if s, ok := from.(*types.Slice); ok && isByteType(s.Elem()) {
			c := e.Content(st, a)
			if c.is("bytesof") {
				if c.args[0].is("bytes") {
					return c.args[0].args[0]
				}
				return e.in.PureT(x.Type(), "str", c.args[0])
			}
			if c.typ == nil {
				return e.in.PureT(x.Type(), "str", c)
			}
			if _, ok := c.strVal(); ok {
				return c
			}
			return e.in.PureT(x.Type(), "str", c)
		}
	}
	return e.in.PureT(x.Type(), "conv:"+typeStr(x.Type()), a)
}

// ------------------------------------------------------------ calls

func commonName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return "iface " + typeStr(c.Value.Type()) + "." + c.Method.Name()
	}
	if f := c.StaticCallee(); f != nil {
		return calleeName(f)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return "builtin " + b.Name()
	}
	return "dynamic"
}

func (e *Engine) mkCall(st *State, ctx *Ctx, in ssa.CallInstruction, pre []*Term) *Call {
	com := in.Common()
	c := &Call{Ctx: ctx, In: in, Com: com, Name: commonName(com), Fn: com.StaticCallee()}
	if pre != nil {
		if com.IsInvoke() {
			c.Args = pre
		} else {
			c.Args = pre[1:]
			if pre[0].fn != nil {
				c.Fn = pre[0].fn
				c.Name = calleeName(c.Fn)
			}
		}
		return c
	}
	if com.IsInvoke() {
		c.Args = append(c.Args, e.V(st, ctx, com.Value))
		// resolve the interface when the dynamic type is known
		if r := c.Args[0]; r.hasOp("iface:") && r.typ != nil {
			if sel := types.NewMethodSet(r.typ).Lookup(com.Method.Pkg(), com.Method.Name()); sel != nil {
				if f := e.p.Prog.MethodValue(sel); f != nil && e.p.InRepo(f) && f.Synthetic == "" {
					c.Fn = f
					c.Name = calleeName(f)
					c.Args[0] = r.args[0]
				}
			}
		}
	} else if c.Fn == nil || isClosureVal(com.Value) {
		if _, isB := com.Value.(*ssa.Builtin); !isB {
			ft := e.V(st, ctx, com.Value)
			if ft.fn != nil {
				c.Fn = ft.fn
				c.Name = calleeName(c.Fn)
			}
		}
	}
	for _, a := range com.Args {
		c.Args = append(c.Args, e.V(st, ctx, a))
	}
	return c
}

func nodeOf(t *Term, label any) *Term {
	if t.kind == 'n' && t.val == label {
		return t
	}
	return nil
}

func isClosureVal(v ssa.Value) bool { _, ok := v.(*ssa.MakeClosure); return ok }

// call executes a call; it reports false when control has moved into an inlined callee.
func (e *Engine) call(st *State, ctx *Ctx, in ssa.CallInstruction, pre []*Term, b *ssa.BasicBlock, resume int, isDefer bool, at ssa.Instruction) bool {
	c := e.mkCall(st, ctx, in, pre)
	c.Defer = isDefer
	inline := false
	if c.Fn != nil && e.p.InRepo(c.Fn) && !e.Opaque(c.Fn) && ctx.depth < 12 {
		inline = true
		for p := ctx; p != nil; p = p.parent {
			if p.fn == c.Fn {
				inline = false
			}
		}
	}
	if inline && e.Skip != nil && e.Skip(st, c) {
		inline = false
	}
	c.Inlined = inline
	if e.H.Call != nil {
		e.H.Call(st, c)
	}
	if inline {
		fn := c.Fn
		e.Inlined[fnName(fn)] = true
		k := ctxKey{ctx.id, in, at, fn}
		ch := e.ctxOf[k]
		if ch == nil {
			ch = &Ctx{id: len(e.ctxs), fn: fn, parent: ctx, call: in, block: b, idx: resume, isDefer: isDefer, depth: ctx.depth + 1}
			e.ctxs = append(e.ctxs, ch)
			e.ctxOf[k] = ch
		}
		args := c.Args
		for i, prm := range fn.Params {
			if i < len(args) {
				e.set(st, ch, prm, args[i])
			}
		}
		if len(fn.FreeVars) > 0 {
			var ft *Term
			if pre != nil {
				ft = pre[0]
			} else {
				ft = e.V(st, ctx, in.Common().Value)
			}
			for i, fv := range fn.FreeVars {
				if i < len(ft.args) {
					e.set(st, ch, fv, ft.args[i])
				}
			}
		}
		e.push(Loc{ch, fn.Blocks[0], 0}, st)
		return false
	}
	res := e.opaque(st, ctx, c)
	c.Result = res
	if n := nodeOf(res, c.In); n != nil && res == n {
		for i := range c.Args {
			c.Args[i] = e.refresh(c.Args[i], n)
		}
	}
	if v, ok := in.(ssa.Value); ok && !isDefer {
		e.set(st, ctx, v, res)
	}
	if e.H.After != nil {
		e.H.After(st, c)
	}
	return true
}

// pureExternal names external functions whose result depends only on their arguments.
var pureExternal = map[string]bool{
	"slices.Contains": true, "slices.Index": true, "bytes.ContainsAny": true, "strings.ContainsAny": true, "bytes.IndexAny": true, "strings.IndexAny": true, "bytes.Contains": true,
	"bytes.IndexByte": true, "strings.IndexByte": true, "strings.IndexRune": true, "bytes.IndexRune": true, "strings.ContainsRune": true, "bytes.ContainsRune": true,
	"math.Abs": true, "math.Pow10": true, "math.Pow": true, "path.Join": true, "path/filepath.Join": true, "strconv.ParseUint": true, "strconv.ParseInt": true, "strconv.Atoi": true,
	"strings.HasPrefix": true, "strings.HasSuffix": true, "strings.Contains": true, "strings.TrimSpace": true, "strings.ToLower": true, "strings.ToUpper": true,
	"errors.Is": true, "os.IsNotExist": true, "os.IsExist": true, "flag.Arg": true, "fmt.Sprintf": true, "fmt.Sprint": true, "fmt.Sprintln": true,
	"path.Base": true, "path/filepath.Base": true, "path.Clean": true, "path/filepath.Clean": true, "strconv.Itoa": true, "strconv.FormatInt": true, "strings.Join": true, "strings.Repeat": true,
	"bytes.Equal": true, "bytes.Compare": true, "strings.Compare": true, "crypto/subtle.ConstantTimeCompare": true, "crypto/hmac.Equal": true, "bytes.HasPrefix": true, "bytes.HasSuffix": true, "path.Dir": true, "path/filepath.Dir": true, "os.Getenv": true, "flag.NArg": true,
}

// pureInRepo names in-repo functions (opaque ones) whose result depends only on their arguments
// and on the immutable document.
func pureInRepo(name string) bool {
	switch name {
	case "IsHex", "BytesToInt", "NewKeyword":
		return true
	}
	return strings.HasPrefix(name, "Dictionary.Get") || strings.HasPrefix(name, "Array.Get") || name == "Dictionary.keys" ||
		strings.HasSuffix(name, ".String") && !strings.HasPrefix(name, "(")
}

func (e *Engine) opaque(st *State, ctx *Ctx, c *Call) *Term {
	var typ types.Type
	if v, ok := c.In.(ssa.Value); ok {
		typ = v.Type()
	}
	if e.H.Model != nil {
		if t := e.H.Model(st, c); t != nil {
			return t
		}
	}
	if t := e.model(st, ctx, c, typ); t != nil {
		return t
	}
	if c.Fn != nil && e.p.InRepo(c.Fn) {
		if e.PureGetters && pureInRepo(c.Name) {
			for k := range st.cells {
				if k.is("la") || k.is("last") || k.hasOp("faddr:Parser.") {
					delete(st.cells, k)
				}
			}
			return e.in.PureT(typ, "call:"+c.Name, c.Args...)
		}
		e.havoc(st, []*ssa.Function{c.Fn})
		if pureInRepo(c.Name) {
			args := c.Args
			return e.in.PureT(typ, "call:"+c.Name, args...)
		}
		return e.fresh(st, ctx, c.In, typ)
	}
	// interface or function value calls may reach in-repo code
	fns, _ := e.p.Callees(c.Com)
	e.havoc(st, fns)
	if pureExternal[c.Name] {
		args := append([]*Term(nil), c.Args...)
		if c.In.Common().Signature().Variadic() && len(args) > 0 {
			va := e.Varargs(st, args[len(args)-1])
			if va != nil {
				args = append(args[:len(args)-1], va...)
			}
		}
		for i := range args {
			if args[i].typ != nil {
				if _, ok := args[i].typ.Underlying().(*types.Slice); ok && args[i].kind != 's' {
					if ct := e.Content(st, args[i]); !ct.is("bytesof") {
						args[i] = ct
					}
				}
			}
		}
		return e.in.PureT(typ, "call:"+c.Name, args...)
	}
	e.externalEffects(st, ctx, c)
	return e.fresh(st, ctx, c.In, typ)
}

// Varargs returns the elements of a variadic argument slice, or nil.
func (e *Engine) Varargs(st *State, t *Term) []*Term {
	if t.isNil() {
		return []*Term{}
	}
	r := root(t)
	if r.kind != 'n' {
		return nil
	}
	a, ok := r.val.(*ssa.Alloc)
	if !ok {
		return nil
	}
	at, ok := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok {
		return nil
	}
	out := make([]*Term, at.Len())
	for i := range out {
		for k, v := range st.cells {
			if k.is("iaddr") && k.args[0] == r {
				if n, ok := k.args[1].intVal(); ok && n == int64(i) {
					out[i] = v
				}
			}
		}
		if out[i] == nil {
			out[i] = e.in.Zero(at.Elem())
		}
	}
	return out
}

func (e *Engine) externalEffects(st *State, ctx *Ctx, c *Call) {
	name := c.Name
	short := name[strings.LastIndexByte(name, '.')+1:]
	if mutatesArgs[short] {
		for _, a := range c.Args {
			if a.hasOp("iface:") {
				a = a.args[0]
			}
			if a.typ == nil {
				continue
			}
			if s, ok := a.typ.Underlying().(*types.Slice); ok || e.isAllocLike(root(a)) {
				if ok && !isByteType(s.Elem()) {
					r := root(a)
					for k := range st.cells {
						if k.is("iaddr") && root(k.args[0]) == r {
							delete(st.cells, k)
						}
					}
					delete(st.zero, r)
					continue
				}
				e.SetContent(st, ctx, c.In, a, e.fresh(st, ctx, fmt.Sprintf("ext@%d", e.p.id(c.In)), nil))
			}
		}
	}
	// reader state: any other method on a reader invalidates look-ahead
	if short != "ReadByte" && short != "UnreadByte" {
		for k := range st.cells {
			if k.is("la") || k.is("last") {
				for _, a := range c.Args {
					if e.sameReader(st, a, k.args[0]) {
						delete(st.cells, k)
						break
					}
				}
			}
		}
	}
}

// sameReader: does argument a give access to reader r (itself, or the parser that embeds it)?
func (e *Engine) sameReader(st *State, a, r *Term) bool {
	if a.hasOp("iface:") {
		a = a.args[0]
	}
	if a == r {
		return true
	}
	for k, v := range st.cells {
		if v == r && k.hasOp("faddr:") && k.args[0] == a {
			return true
		}
	}
	return false
}

// model implements the calls the engine understands; nil means not modelled.
func (e *Engine) model(st *State, ctx *Ctx, c *Call, typ types.Type) *Term {
	in := e.in
	switch c.Name {
	case "builtin len", "builtin cap":
		if e.Exact && c.Name == "builtin cap" {
			return in.PureT(typ, "cap", c.Args[0])
		}
		return e.Len(st, c.Args[0], typ)
	case "builtin min", "builtin max":
		return in.PureT(typ, "call:"+c.Name, c.Args...)
	case "builtin append":
		base, add := c.Args[0], c.Args[1]
		t := e.fresh(st, ctx, c.In, typ)
		base, add = e.V(st, ctx, c.Com.Args[0]), e.V(st, ctx, c.Com.Args[1])
		if s, ok := typ.Underlying().(*types.Slice); ok && isByteType(s.Elem()) && !e.NoContent {
			ca, cb := e.Content(st, base), e.appended(st, add)
			if base.isNil() || st.zero[base] && isZeroInt(e.Len(st, base, nil)) {
				ca = in.Str("")
			}
			nc := e.cat(ca, cb)
			if nc.depth < e.MaxDepth && !nc.contains(t) {
				st.cells[in.Pure(contentOp, t)] = nc
			}
			// appending may write into the spare capacity of base; its visible bytes stay
		}
		return t
	case "builtin copy":
		if e.Buffers {
			// copy(buf[n:], more) after n := copy(buf, first)
			dst := c.Args[0]
			r := root(dst)
			ls := e.Len(st, c.Args[1], nil)
			if dst.is("slice") && dst.args[2].isNil() && dst.args[0] == r && dst.args[1].is("copyn") {
				cur, ok := st.cells[in.Pure(contentOp, r)]
				ld, isC := dst.args[1].args[0].intVal()
				k, isK := ls.intVal()
				if ok && cur.is("copied") && isC && isK && k >= ld && e.Len(st, r, nil) == dst.args[1].args[0] {
					e.SetContent(st, ctx, c.In, r, e.sub(e.cat(cur.args[1], e.Content(st, c.Args[1])), in.Int(0), in.Int(ld)))
					return e.fresh(st, ctx, c.In, typ)
				}
			}
			ld := e.Len(st, dst, nil)
			if ld != ls {
				e.SetContent(st, ctx, c.In, dst, in.Pure("copied", e.Content(st, dst), e.Content(st, c.Args[1])))
				return in.PureT(types.Typ[types.Int], "copyn", ld, ls)
			}
		}
		if la, lb := e.Len(st, c.Args[0], nil), e.Len(st, c.Args[1], nil); la == lb {
			e.SetContent(st, ctx, c.In, c.Args[0], e.Content(st, c.Args[1]))
			return la
		}
		e.SetContent(st, ctx, c.In, c.Args[0], in.Pure("copied", e.Content(st, c.Args[0]), e.Content(st, c.Args[1])))
		return e.fresh(st, ctx, c.In, typ)
	case "builtin delete":
		e.mapKill(st, c.Args[0], c.Args[1])
		st.cells[e.mapCell("mapok", c.Args[0], c.Args[1])] = in.Bool(false)
		if mt, ok := c.Com.Args[0].Type().Underlying().(*types.Map); ok {
			st.cells[e.mapCell("mapel", c.Args[0], c.Args[1])] = in.Zero(mt.Elem())
		}
		return in.Nil()
	case "builtin recover":
		return e.fresh(st, ctx, c.In, typ)
	case "(*bufio.Reader).ReadByte":
		if e.NoLookahead {
			return nil
		}
		r := c.Args[0]
		la, last := in.Pure("la", r), in.Pure("last", r)
		if t, ok := st.cells[la]; ok {
			delete(st.cells, la)
			st.cells[last] = t
			return t
		}
		t := e.fresh(st, ctx, c.In, typ)
		r = e.readerArg(st, ctx, c)
		st.cells[in.Pure("last", r)] = t
		if false {
			_ = last
		}
		return t
	case "(*bufio.Reader).UnreadByte":
		if e.NoLookahead {
			return nil
		}
		r := c.Args[0]
		la, last := in.Pure("la", r), in.Pure("last", r)
		if t, ok := st.cells[last]; ok {
			delete(st.cells, last)
			if e.Eval(st, e.Cmp(token.EQL, e.ext(t, 1), in.Nil())) == 1 {
				st.cells[la] = t
			}
		}
		return e.fresh(st, ctx, c.In, typ)
	case "crypto/md5.New":
		t := e.fresh(st, ctx, c.In, typ)
		st.cells[in.Pure(contentOp, t)] = in.Str("")
		return t
	case "iface hash.Hash.Write":
		h := c.Args[0]
		if cur, ok := st.cells[in.Pure(contentOp, h)]; ok {
			nc := e.cat(cur, e.Content(st, c.Args[1]))
			e.SetContent(st, ctx, c.In, h, nc)
		}
		return e.fresh(st, ctx, c.In, typ)
	case "io.WriteString":
		h := c.Args[0]
		if cur, ok := st.cells[in.Pure(contentOp, h)]; ok {
			e.SetContent(st, ctx, c.In, h, e.cat(cur, c.Args[1]))
		}
		return e.fresh(st, ctx, c.In, typ)
	case "iface hash.Hash.Sum":
		h := c.Args[0]
		if cur, ok := st.cells[in.Pure(contentOp, h)]; ok {
			res := in.Pure("md5", cur)
			if !c.Args[1].isNil() {
				res = e.cat(e.Content(st, c.Args[1]), res)
			}
			t := e.fresh(st, ctx, c.In, typ)
			if !res.contains(t) && res.depth < e.MaxDepth {
				st.cells[in.Pure(contentOp, t)] = res
			}
			return t
		}
	case "crypto/md5.Sum":
		return in.PureT(typ, "md5", e.Content(st, c.Args[0]))
	case "(encoding/binary.littleEndian).PutUint32", "(encoding/binary.bigEndian).PutUint32":
		k := "le32"
		if strings.Contains(c.Name, "big") {
			k = "be32"
		}
		e.SetContent(st, ctx, c.In, c.Args[1], in.Pure(k, c.Args[2]))
		return in.Nil()
	case "(*crypto/rc4.Cipher).XORKeyStream":
		e.SetContent(st, ctx, c.In, c.Args[1], in.Pure("xor", c.Args[0], e.Content(st, c.Args[2])))
		return in.Nil()
	case "crypto/rc4.NewCipher":
		t := e.fresh(st, ctx, c.In, typ)
		return in.Pure("tuple", in.Pure("rc4", e.Content(st, e.V(st, ctx, c.Com.Args[0]))), in.PureT(nil, "x:1", t))
	case "(encoding/binary.littleEndian).AppendUint32", "(encoding/binary.bigEndian).AppendUint32":
		k := "le32"
		if strings.Contains(c.Name, "big") {
			k = "be32"
		}
		t := e.fresh(st, ctx, c.In, typ)
		base := e.V(st, ctx, c.Com.Args[1])
		ca := e.Content(st, base)
		if base.isNil() || st.zero[base] && isZeroInt(e.Len(st, base, nil)) {
			ca = in.Str("")
		}
		st.cells[in.Pure(contentOp, t)] = e.cat(ca, in.Pure(k, e.V(st, ctx, c.Com.Args[2])))
		return t
	case "encoding/hex.EncodeToString":
		return in.PureT(typ, "hex", e.Content(st, c.Args[0]))
	}
	if e.Buffers {
		return e.modelBuffer(st, ctx, c, typ)
	}
	return nil
}

// modelBuffer tracks what is written to byte buffers and string builders.
func (e *Engine) modelBuffer(st *State, ctx *Ctx, c *Call, typ types.Type) *Term {
	in := e.in
	if c.Name == "bytes.NewBuffer" || c.Name == "bytes.NewBufferString" {
		t := e.fresh(st, ctx, c.In, typ)
		a := e.V(st, ctx, c.Com.Args[0])
		ct := e.appended(st, a)
		if a.isNil() || st.zero[a] && isZeroInt(e.Len(st, a, nil)) {
			ct = in.Str("")
		}
		st.cells[in.Pure(contentOp, t)] = ct
		return t
	}
	m, ok := strings.CutPrefix(c.Name, "(*bytes.Buffer).")
	if !ok {
		if m, ok = strings.CutPrefix(c.Name, "(*strings.Builder)."); !ok {
			return nil
		}
	}
	b := c.Args[0]
	cell := in.Pure(contentOp, b)
	cur, ok := st.cells[cell]
	if !ok && st.zero[b] {
		cur, ok = in.Str(""), true
	}
	if !ok {
		return nil
	}
	switch m {
	case "Write", "WriteString", "WriteByte":
		add := c.Args[1]
		if m == "WriteByte" {
			add = in.Pure("lit", add)
		} else {
			add = e.appended(st, add)
		}
		delete(st.zero, b)
		st.cells[cell] = e.cat(cur, add)
		return e.fresh(st, ctx, c.In, typ)
	case "Bytes":
		t := e.fresh(st, ctx, c.In, typ)
		if cur := st.cells[cell]; cur != nil && !cur.contains(t) {
			st.cells[in.Pure(contentOp, t)] = cur
		}
		return t
	case "String":
		return in.PureT(typ, "str", cur)
	case "Reset":
		st.cells[cell] = in.Str("")
		return in.Nil()
	case "Grow":
		return in.Nil()
	case "Len":
		n := int64(0)
		for _, x := range append([]*Term{}, catArgs(cur)...) {
			if s, ok := x.strVal(); ok {
				n += int64(len(s))
			} else if x.is("lit") {
				n += int64(len(x.args))
			} else {
				return nil
			}
		}
		return in.Int(n)
	}
	return nil
}

func catArgs(t *Term) []*Term {
	if t.is("cat") {
		return t.args
	}
	return []*Term{t}
}

func (e *Engine) readerArg(st *State, ctx *Ctx, c *Call) *Term {
	if len(c.Com.Args) > 0 {
		return e.V(st, ctx, c.Com.Args[0])
	}
	return c.Args[0]
}

// appended is the content of the appended operand (a slice or a string).
func (e *Engine) appended(st *State, t *Term) *Term {
	if el := e.Varargs(st, t); el != nil && t.kind == 'n' {
		if _, ok := t.val.(*ssa.Alloc); ok {
			if t.typ != nil && strings.Contains(t.typ.String(), "byte") && st.cells[e.in.Pure(contentOp, t)] != nil {
				// a byte literal built element by element
				args := append([]*Term{}, el...)
				for _, a := range args {
					if a == nil {
						return e.Content(st, t)
					}
				}
				return e.in.Pure("lit", args...)
			}
		}
	}
	return e.Content(st, t)
}

func (e *Engine) cat(a, b *Term) *Term {
	if s, ok := a.strVal(); ok && s == "" {
		return b
	}
	var args []*Term
	for _, x := range []*Term{a, b} {
		if x.is("cat") {
			args = append(args, x.args...)
		} else {
			args = append(args, x)
		}
	}
	return e.in.Pure("cat", args...)
}

// Len is the length of a slice, string, map or array.
func (e *Engine) Len(st *State, t *Term, typ types.Type) *Term {
	in := e.in
	if typ == nil {
		typ = types.Typ[types.Int]
	}
	if s, ok := t.strVal(); ok {
		return in.Int(int64(len(s)))
	}
	if t.isNil() {
		return in.Int(0)
	}
	if v, ok := st.cells[in.Pure("lenof", t)]; ok {
		return v
	}
	if s, ok := e.constBytes(t); ok {
		return in.Int(int64(len(s)))
	}
	if t.kind == 'n' {
		if a, ok := t.val.(*ssa.Alloc); ok {
			if at, ok := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
				return in.Int(at.Len())
			}
		}
	}
	if t.is("bytes") || t.is("str") || e.Exact && (t.is(contentOp) || t.is("bytesof")) {
		return e.Len(st, t.args[0], typ)
	}
	if t.is("slice") {
		lo, hi := t.args[1], t.args[2]
		if lo.isNil() {
			lo = in.Int(0)
		}
		if hi.isNil() {
			hi = e.Len(st, t.args[0], typ)
		}
		return in.linAdd(hi, lo, -1, typ)
	}
	return in.PureT(typ, "len", t)
}

// Path renders the branch trace of a state for a report.
func (st *State) Path() []string {
	var out []string
	for t := st.trace; t != nil && len(out) < 40; t = t.prev {
		out = append(out, t.pos)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
