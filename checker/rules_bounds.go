package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"regexp/syntax"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C01"] = &Check{Rule: "on every path to an index, slice, allocation, division, shift or length-checked library call the operands are provably within bounds", Run: runC01,
		Assumptions: []string{"slices and strings are shorter than 2^48 bytes", "documented results of the standard library (read counts, match counts, hash sizes)", "a loop that counts in steps of at most 16 ends before 2^50 iterations"}}
}

// boundSite is an instruction that panics when an operand is out of range.
type boundSite struct {
	fn   *ssa.Function
	in   ssa.Instruction
	kind string
	name string
}

// boundSites lists the instructions of a function that need a bound.
func (p *Program) boundSites(f *ssa.Function) []*boundSite {
	var out []*boundSite
	n := map[string]int{}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			k := ""
			switch x := in.(type) {
			case *ssa.IndexAddr:
				k = "index of " + typeStr(x.X.Type())
				if at, ok := deref(x.X.Type()).Underlying().(*types.Array); ok {
					if c, ok := x.Index.(*ssa.Const); ok && c.Int64() >= 0 && c.Int64() < at.Len() {
						continue
					}
				}
			case *ssa.Index:
				k = "index of " + typeStr(x.X.Type())
			case *ssa.Lookup:
				if _, ok := x.X.Type().Underlying().(*types.Map); ok {
					continue
				}
				k = "index of " + typeStr(x.X.Type())
			case *ssa.Slice:
				if x.Low == nil && x.High == nil && x.Max == nil {
					continue
				}
				k = "slice of " + typeStr(x.X.Type())
			case *ssa.MakeSlice:
				k = "allocation of " + typeStr(x.Type())
			case *ssa.BinOp:
				switch {
				case (x.Op == token.QUO || x.Op == token.REM) && isIntType(x.Type()):
					k = "division"
				case x.Op == token.SHL || x.Op == token.SHR:
					if _, uns := intBits(x.Y.Type()); uns {
						continue
					}
					k = "shift"
				default:
					continue
				}
				if c, ok := x.Y.(*ssa.Const); ok && c.Int64() > 0 {
					continue
				}
			case *ssa.SliceToArrayPointer:
				k = "conversion to " + typeStr(x.Type())
			case *ssa.Store:
				fa, ok := x.Addr.(*ssa.FieldAddr)
				if !ok || !p.cipherKeyFields()[fieldKey(fa.X.Type(), fa.Field)] {
					continue
				}
				k = "cipher key"
			case ssa.CallInstruction:
				if uncheckedCipher(in) && p.keyField(in) == "" {
					k = "cipher key"
				} else if k = boundCall(x.Common()); k == "" {
					continue
				}
			default:
				continue
			}
			n[k]++
			name := fnName(f) + ": " + k
			if n[k] > 1 {
				name += fmt.Sprintf(" #%d", n[k])
			}
			out = append(out, &boundSite{f, in, k, name})
		}
	}
	return out
}

// uncheckedCipher: an RC4 cipher is made and whether that succeeded is not looked at: the cipher is nil
// unless the key has 1 to 256 bytes.
func uncheckedCipher(in ssa.Instruction) bool {
	c, ok := in.(*ssa.Call)
	if !ok || commonName(c.Common()) != "crypto/rc4.NewCipher" {
		return false
	}
	for _, u := range *c.Referrers() {
		if ex, ok := u.(*ssa.Extract); ok && ex.Index == 1 && len(*ex.Referrers()) > 0 {
			return false
		}
	}
	return true
}

// keyField: the key of the cipher comes from a field that is set elsewhere.
func (p *Program) keyField(in ssa.Instruction) string {
	ld, ok := in.(*ssa.Call).Call.Args[0].(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return ""
	}
	fa, ok := ld.X.(*ssa.FieldAddr)
	if !ok {
		return ""
	}
	k := fieldKey(fa.X.Type(), fa.Field)
	for _, b := range in.Parent().Blocks {
		for _, i := range b.Instrs {
			if s, ok := i.(*ssa.Store); ok {
				if sa, ok := s.Addr.(*ssa.FieldAddr); ok && fieldKey(sa.X.Type(), sa.Field) == k {
					return ""
				}
			}
		}
	}
	return k
}

// cipherKeyFields are the fields that hold keys of ciphers made elsewhere.
func (p *Program) cipherKeyFields() map[string]bool {
	if p.keyFields == nil {
		p.keyFields = map[string]bool{}
		for _, f := range p.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if uncheckedCipher(in) {
						if k := p.keyField(in); k != "" {
							p.keyFields[k] = true
						}
					}
				}
			}
		}
	}
	return p.keyFields
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// boundCall names library calls that panic for operands of the wrong size.
func boundCall(c *ssa.CallCommon) string {
	switch n := commonName(c); n {
	case "strings.Repeat", "bytes.Repeat", "(*bytes.Buffer).Grow", "(*strings.Builder).Grow", "(*bytes.Buffer).Truncate",
		"(*crypto/rc4.Cipher).XORKeyStream", "slices.Grow", "crypto/cipher.NewCBCDecrypter", "iface crypto/cipher.BlockMode.CryptBlocks":
		return n
	default:
		if strings.HasPrefix(n, "(encoding/binary.littleEndian).") || strings.HasPrefix(n, "(encoding/binary.bigEndian).") {
			if m := n[strings.LastIndex(n, ".")+1:]; strings.HasPrefix(m, "Put") || strings.HasPrefix(m, "Uint") {
				return n
			}
		}
	}
	return ""
}

// recovers: panics inside f are caught by a deferred function of f itself.
func recovers(f *ssa.Function) bool {
	if f == nil {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			d, ok := in.(*ssa.Defer)
			if !ok || b.Index != 0 {
				continue
			}
			g := d.Call.StaticCallee()
			if g == nil {
				if mc, ok := d.Call.Value.(*ssa.MakeClosure); ok {
					g, _ = mc.Fn.(*ssa.Function)
				}
			}
			if g == nil {
				continue
			}
			for _, gb := range g.Blocks {
				for _, gi := range gb.Instrs {
					if c, ok := gi.(*ssa.Call); ok && commonName(c.Common()) == "builtin recover" && gb.Index == 0 {
						return true
					}
				}
			}
		}
	}
	return false
}

type boundRules struct {
	p     *Program
	r     *Report
	site  map[ssa.Instruction]*boundSite
	has   map[*ssa.Function]bool // contains sites (itself or through helpers)
	open  map[*ssa.Function]bool // needs the context of its callers
	fails map[*ssa.Function][]boundFail
	seen  map[ssa.Instruction]bool
	reach map[*ssa.Function]bool
	want  map[*ssa.Function]bool                         // needs to know its arguments
	args  map[*ssa.Function]map[*ssa.Function][]interval // unit -> callee -> ranges of the arguments
}

type boundFail struct {
	site *boundSite
	msg  string
	pos  string
	path []string
}

func runC01(p *Program, r *Report) {
	x := &boundRules{p: p, r: r, site: map[ssa.Instruction]*boundSite{}, has: map[*ssa.Function]bool{}, open: map[*ssa.Function]bool{},
		fails: map[*ssa.Function][]boundFail{}, seen: map[ssa.Instruction]bool{}, want: map[*ssa.Function]bool{}, args: map[*ssa.Function]map[*ssa.Function][]interval{}}
	reach := p.reachable()
	x.reach = reach
	all := 0
	for _, f := range p.Funcs {
		if !reach[f] {
			continue
		}
		for _, s := range p.boundSites(f) {
			x.site[s.in] = s
			all++
			r.Sites++
		}
	}
	r.need("sites that need a bound", all, 60)
	for _, f := range p.Funcs {
		x.has[f] = x.contains(f, map[*ssa.Function]bool{})
	}
	var queue []*ssa.Function
	for _, f := range p.Funcs {
		if reach[f] && len(f.Blocks) > 0 && (x.unit(f) || f.Parent() != nil) {
			queue = append(queue, f)
		}
	}
	only := os.Getenv("VERIF_ONLY")
	if w := os.Getenv("VERIF_WANT"); w != "" {
		for _, f := range p.Funcs {
			if fnName(f) == w {
				x.want[f] = true
			}
		}
	}
	done := map[*ssa.Function]bool{}
	runAll := func() {
		for _, f := range queue {
			if only != "" && only != fnName(f) || done[f] || !x.contains(f, map[*ssa.Function]bool{}) {
				continue
			}
			done[f] = true
			x.run(f)
		}
	}
	failed := func() []*ssa.Function {
		var out []*ssa.Function
		for _, f := range queue {
			if len(x.fails[f]) > 0 && x.canOpen(f) {
				out = append(out, f)
			}
		}
		return out
	}
	callers := func(fs []*ssa.Function) {
		var units []*ssa.Function
		once := map[*ssa.Function]bool{}
		for _, g := range p.Funcs {
			for _, f := range fs {
				if _, calls := p.calleesOf(g)[f]; calls && reach[g] {
					for _, u := range x.unitsOf(g, map[*ssa.Function]bool{}) {
						if !once[u] {
							once[u] = true
							units = append(units, u)
						}
					}
				}
			}
		}
		for _, u := range units {
			x.run(u)
		}
	}
	runAll()
	if only != "" {
		return
	}
	// a function that fails for arbitrary arguments is judged for the arguments it is given
	for round := 0; round < 3; round++ {
		fs := failed()
		for _, f := range fs {
			x.want[f] = true
		}
		callers(fs)
		for _, f := range fs {
			x.run(f)
		}
		if len(failed()) == 0 {
			break
		}
	}
	// or else as a part of its callers
	for n := 0; n < 20; n++ {
		fs := failed()
		if len(fs) == 0 {
			break
		}
		for _, f := range fs {
			x.open[f] = true
			x.fails[f] = nil
		}
		callers(fs)
	}
	for in, s := range x.site {
		if recovers(s.fn) {
			r.ob(true)
			continue
		}
		bad := false
		for _, fs := range x.fails {
			for _, b := range fs {
				if b.site == s {
					bad = true
					r.fail("bound", s.name, b.pos, b.msg, b.path)
				}
			}
		}
		if !x.seen[in] && !bad && !x.dead(s) {
			bad = true
			r.fail("bound", s.name, p.InstrPos(in), "the site was not reached by the analysis", nil)
		}
		r.ob(!bad)
	}
	r.sample("%d sites: indexes, slices, allocations, divisions, shifts and length-checked library calls", all)
}

// dead: the site's block is unreachable.
func (x *boundRules) dead(s *boundSite) bool {
	for _, b := range s.fn.Blocks {
		if b == s.in.Block() {
			return false
		}
	}
	return true
}

// unit: the function is analysed on its own.
func (x *boundRules) unit(f *ssa.Function) bool {
	if f.Synthetic != "" {
		return false
	}
	if baselineAPI[calleeName(f)] || f.Name() == "main" || f.Name() == "init" || x.p.isAddressTaken(f) || x.selfCalls(f) {
		return true
	}
	return len(x.p.callSites(f)) == 0
}

func (x *boundRules) selfCalls(f *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(g *ssa.Function) bool
	walk = func(g *ssa.Function) bool {
		for h := range x.p.calleesOf(g) {
			if h == f {
				return true
			}
			if !seen[h] && x.p.InRepo(h) {
				seen[h] = true
				if walk(h) {
					return true
				}
			}
		}
		return false
	}
	return walk(f)
}

// canOpen: every use of f is a direct call that can be looked into.
func (x *boundRules) canOpen(f *ssa.Function) bool {
	return !x.p.isAddressTaken(f) && !x.selfCalls(f) && len(x.p.callSites(f)) > 0 && f.Parent() == nil && f.Name() != "Parse"
}

func (x *boundRules) unitsOf(f *ssa.Function, seen map[*ssa.Function]bool) []*ssa.Function {
	if seen[f] {
		return nil
	}
	seen[f] = true
	if (x.unit(f) || f.Parent() != nil) && !x.open[f] {
		return []*ssa.Function{f}
	}
	var out []*ssa.Function
	for _, g := range x.p.Funcs {
		if _, ok := x.p.calleesOf(g)[f]; ok {
			out = append(out, x.unitsOf(g, seen)...)
		}
	}
	return out
}

func (x *boundRules) opaque(g *ssa.Function) bool {
	if x.open[g] {
		return false
	}
	return x.unit(g)
}

// contains: f or a helper it runs has a site.
func (x *boundRules) contains(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if x.site[in] != nil {
				return true
			}
		}
	}
	for g := range x.p.calleesOf(f) {
		if x.want[g] {
			return true
		}
	}
	for g := range x.p.calleesOf(f) {
		if x.p.InRepo(g) && !x.opaque(g) && x.contains(g, seen) {
			return true
		}
	}
	return false
}

func (x *boundRules) callsOpen(f *ssa.Function) bool {
	return x.contains(f, map[*ssa.Function]bool{})
}

// inlined lists f and the functions that are looked into from it.
func (x *boundRules) inlined(f *ssa.Function) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	var walk func(g *ssa.Function)
	walk = func(g *ssa.Function) {
		if out[g] {
			return
		}
		out[g] = true
		for h := range x.p.calleesOf(g) {
			if x.p.InRepo(h) && !x.opaque(h) {
				walk(h)
			}
		}
	}
	walk(f)
	return out
}

func (x *boundRules) run(f *ssa.Function) {
	e := NewEngine(x.p)
	e.Exact, e.KeepFacts, e.NoContent, e.NoLookahead, e.MaxUnroll, e.UnrollSets = true, os.Getenv("VERIF_KF") != "", true, true, 4, true
	e.Opaque = x.opaque
	b := &boundRun{x: x, e: e, f: f, bad: map[ssa.Instruction]bool{}}
	e.KeepBased = true
	rel := newRelevance(x.p, x.opaque, x.inlined(f), x.want)
	e.Irrelevant = func(c ssa.Value) bool { return !rel.cond[c] }
	e.ForgetCell = func(a *Term) bool { return !rel.keepsCell(a) }
	e.H.Instr = b.instr
	e.H.After = b.after
	e.H.Model = b.model
	e.H.Branch = b.branch
	x.r.Functions[fnName(f)] = true
	x.fails[f] = nil
	x.args[f] = map[*ssa.Function][]interval{}
	t0 := time.Now()
	if n, _ := strconv.Atoi(os.Getenv("VERIF_MAX")); n > 0 {
		e.MaxStates = n
	}
	e.Run(f, b.init)
	if os.Getenv("VERIF_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, "RUN", fnName(f), e.total, len(b.bad), time.Since(t0))
		for _, q := range x.fails[f] {
			fmt.Fprintln(os.Stderr, "   FAIL", q.site.name, q.pos, q.msg)
		}
	}
	x.r.finish(e, fnName(f))
}

type boundRun struct {
	x   *boundRules
	e   *Engine
	f   *ssa.Function
	bad map[ssa.Instruction]bool
}

func (b *boundRun) fail(st *State, in ssa.Instruction, msg string) {
	if b.bad[in] {
		return
	}
	b.bad[in] = true
	s := b.x.site[in]
	if os.Getenv("VERIF_DEBUG") == "2" {
		fmt.Fprintln(os.Stderr, "AT", s.name, msg)
		for f, v := range st.facts {
			fmt.Fprintln(os.Stderr, "    fact", f, v)
		}
		for f, v := range st.cells {
			fmt.Fprintln(os.Stderr, "    cell", f, v)
		}
	}
	b.x.fails[b.f] = append(b.x.fails[b.f], boundFail{s, msg, b.x.p.InstrPos(in), st.Path()})
}

// lengthTest: the function only succeeds if its first argument is at least as long as its second.
func lengthTest(name string) bool {
	switch name {
	case "bytes.HasPrefix", "bytes.HasSuffix", "bytes.Contains", "strings.HasPrefix", "strings.HasSuffix", "strings.Contains", "bytes.Equal":
		return true
	}
	return false
}

// branch: what a successful comparison of contents says about lengths.
func (b *boundRun) branch(st *State, ctx *Ctx, in *ssa.If, cond *Term, taken bool) {
	v := in.Cond
	for {
		n, ok := v.(*ssa.UnOp)
		if !ok || n.Op != token.NOT {
			break
		}
		v, taken = n.X, !taken
	}
	c, ok := v.(*ssa.Call)
	if !ok || !taken {
		return
	}
	e := b.e
	if !lengthTest(commonName(c.Common())) {
		return
	}
	long, short := e.Len(st, e.V(st, ctx, c.Call.Args[0]), nil), e.Len(st, e.V(st, ctx, c.Call.Args[1]), nil)
	e.Assume(st, e.Cmp(token.LSS, long, short), false)
	if commonName(c.Common()) == "bytes.Equal" {
		e.Assume(st, e.Cmp(token.LSS, short, long), false)
	}
}

func (b *boundRun) instr(st *State, ctx *Ctx, in ssa.Instruction) {
	s := b.x.site[in]
	if s == nil {
		return
	}
	b.x.seen[in] = true
	if b.bad[in] {
		return
	}
	for c := ctx; c != nil; c = c.parent {
		if recovers(c.fn) {
			return
		}
	}
	e := b.e
	v := func(x ssa.Value) *Term { return e.V(st, ctx, x) }
	ge := func(a, c *Term) bool { return e.Prove(st, e.in.linAdd(a, c, -1, nil)) }
	zero := e.in.Int(0)
	// searches for all matches give at least one match, or nil
	if ia, ok := in.(*ssa.IndexAddr); ok {
		if m := v(ia.X); m.kind == 'n' && e.nonNil(st, m) {
			if c, ok := m.val.(*ssa.Call); ok && strings.HasPrefix(commonName(c.Common()), "(*regexp.Regexp).FindAll") {
				e.Assume(st, e.Cmp(token.LSS, e.Len(st, m, nil), e.in.Int(1)), false)
			}
		}
	}
	if s.kind == "cipher key" {
		var key ssa.Value
		switch y := in.(type) {
		case *ssa.Store:
			key = y.Val
		case *ssa.Call:
			key = y.Call.Args[0]
		}
		if ln := b.length(st, v(key), key.Type()); !ge(ln, e.in.Int(1)) || !ge(e.in.Int(256), ln) {
			b.fail(st, in, fmt.Sprintf("the key may have %s bytes: no cipher can be made, and that is not noticed", ln))
		}
		return
	}
	switch y := in.(type) {
	case *ssa.IndexAddr:
		b.index(st, in, v(y.Index), b.length(st, v(y.X), y.X.Type()))
	case *ssa.Index:
		b.index(st, in, v(y.Index), b.length(st, v(y.X), y.X.Type()))
	case *ssa.Lookup:
		b.index(st, in, v(y.Index), b.length(st, v(y.X), y.X.Type()))
	case *ssa.Slice:
		ln := b.length(st, v(y.X), y.X.Type())
		lo, hi := zero, ln
		if y.Low != nil {
			lo = v(y.Low)
		}
		if y.High != nil {
			hi = v(y.High)
		}
		limit := ln
		if _, ok := y.X.Type().Underlying().(*types.Slice); ok && y.High != nil && !ge(ln, hi) {
			limit = e.in.PureT(types.Typ[types.Int], "cap", v(y.X))
			if t := v(y.X); t.is("slice") && t.args[2].isNil() {
				limit = ln
			}
		}
		if y.Max != nil {
			limit = v(y.Max)
			if !ge(ln, limit) {
				b.fail(st, in, fmt.Sprintf("the capacity bound %s may exceed the length %s", limit, ln))
				return
			}
		}
		switch {
		case !ge(lo, zero):
			b.fail(st, in, fmt.Sprintf("the lower bound %s may be negative", lo))
		case !ge(hi, lo):
			b.fail(st, in, fmt.Sprintf("the upper bound %s may be below the lower bound %s", hi, lo))
		case !ge(limit, hi):
			b.fail(st, in, fmt.Sprintf("the upper bound %s may exceed the length %s", hi, ln))
		}
	case *ssa.MakeSlice:
		n, c := v(y.Len), v(y.Cap)
		switch {
		case !ge(n, zero):
			b.fail(st, in, fmt.Sprintf("the length %s may be negative", n))
		case !ge(c, n):
			b.fail(st, in, fmt.Sprintf("the capacity %s may be below the length %s", c, n))
		case !b.modest(st, c):
			b.fail(st, in, fmt.Sprintf("the size %s is not limited by the size of data at hand", c))
		}
	case *ssa.BinOp:
		d := v(y.Y)
		if y.Op == token.SHL || y.Op == token.SHR {
			if !ge(d, zero) {
				b.fail(st, in, fmt.Sprintf("the shift count %s may be negative", d))
			}
		} else if !ge(d, e.in.Int(1)) && !ge(e.in.Int(-1), d) {
			b.fail(st, in, fmt.Sprintf("the divisor %s may be zero", d))
		}
	case *ssa.SliceToArrayPointer:
		at := deref(y.Type()).Underlying().(*types.Array)
		if ln := b.length(st, v(y.X), y.X.Type()); !ge(ln, e.in.Int(at.Len())) {
			b.fail(st, in, fmt.Sprintf("the length %s may be below %d", ln, at.Len()))
		}
	}
}

func (b *boundRun) index(st *State, in ssa.Instruction, i, ln *Term) {
	e := b.e
	switch growing := b.x.growing(in); {
	case growing && e.in.lin(i).k[ln] == 1:
		// counted from the end of a buffer that is still being filled by the loop the site is in
	case !e.Prove(st, i):
		b.fail(st, in, fmt.Sprintf("the index %s may be negative", i))
	case growing:
		// the buffer is still being filled by the loop the site is in
	case !e.Prove(st, e.in.linAdd(e.in.linAdd(ln, i, -1, nil), e.in.Int(1), -1, nil)):
		b.fail(st, in, fmt.Sprintf("the index %s may reach or exceed the length %s", i, ln))
	}
}

// growing: the slice is appended to by a loop around the site.
func (x *boundRules) growing(in ssa.Instruction) bool {
	ia, ok := in.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	var loops []*Loop
	for _, l := range x.p.Loops(in.Parent()).Loops {
		if l.Body[in.Block()] {
			loops = append(loops, l)
		}
	}
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		switch y := v.(type) {
		case *ssa.Phi:
			for _, q := range y.Edges {
				if walk(q) {
					return true
				}
			}
		case *ssa.Call:
			if commonName(y.Common()) == "builtin append" {
				for _, l := range loops {
					if l.Body[y.Block()] {
						return true
					}
				}
				return walk(y.Call.Args[0])
			}
		}
		return false
	}
	return walk(ia.X)
}

// length of an indexable value.
func (b *boundRun) length(st *State, t *Term, typ types.Type) *Term {
	if at, ok := deref(typ).Underlying().(*types.Array); ok {
		return b.e.in.Int(at.Len())
	}
	if n, exact := b.matchLen(st, t); exact {
		return b.e.in.Int(n)
	}
	return b.e.Len(st, t, nil)
}

// modest: a size is a small constant or a small multiple of the size of existing data.
func (b *boundRun) modest(st *State, t *Term) bool {
	e := b.e
	if e.ival(st, t).hi <= 1<<26 {
		return true
	}
	l := e.in.lin(t)
	if l.c > 1<<26 {
		return false
	}
	for a, k := range l.k {
		if k <= 0 && e.ival(st, a).lo >= 0 || a.is("len") && k <= 16 || e.ival(st, a).hi <= 1<<20 && k <= 16 && k > 0 {
			continue
		}
		if e.ival(st, a).hi <= maxLen && k > 0 && k <= 16 {
			// bounded by a length on this path
			ok := false
			for f := range st.facts {
				f.anyTerm(func(u *Term) bool {
					if !ok && u.is("len") && e.Prove(st, e.in.linAdd(u, a, -1, nil)) {
						ok = true
					}
					return ok
				})
			}
			if ok {
				continue
			}
		}
		return false
	}
	return true
}

// regexpOf gives the constant expression of a *regexp.Regexp value.
func (b *boundRun) regexpOf(v ssa.Value) string {
	for n := 0; n < 4; n++ {
		switch y := v.(type) {
		case *ssa.UnOp:
			if g, ok := y.X.(*ssa.Global); ok && y.Op == token.MUL {
				var val ssa.Value
				cnt := 0
				for _, f := range b.x.p.Funcs {
					for _, bl := range f.Blocks {
						for _, in := range bl.Instrs {
							if s, ok := in.(*ssa.Store); ok && s.Addr == ssa.Value(g) {
								val = s.Val
								cnt++
							}
						}
					}
				}
				if cnt != 1 {
					return ""
				}
				v = val
				continue
			}
			return ""
		case *ssa.Call:
			if n := commonName(y.Common()); n == "regexp.MustCompile" || n == "regexp.MustCompilePOSIX" {
				if c, ok := y.Call.Args[0].(*ssa.Const); ok {
					s, _ := constString(c)
					return s
				}
			}
			return ""
		default:
			return ""
		}
	}
	return ""
}

func constString(c *ssa.Const) (string, bool) {
	if c.Value == nil {
		return "", false
	}
	t := newInterner().Const(c.Value)
	return t.strVal()
}

// matchLen knows the lengths of what regular expression searches return.
func (b *boundRun) matchLen(st *State, t *Term) (int64, bool) {
	e := b.e
	groups := func(c *ssa.Call) int64 {
		re, err := syntax.Parse(b.regexpOf(c.Call.Args[0]), syntax.Perl)
		if err != nil || b.regexpOf(c.Call.Args[0]) == "" {
			return 0
		}
		return int64(re.MaxCap())
	}
	call := func(t *Term) (*ssa.Call, string) {
		if t.kind != 'n' {
			return nil, ""
		}
		c, ok := t.val.(*ssa.Call)
		if !ok {
			return nil, ""
		}
		m, ok := strings.CutPrefix(commonName(c.Common()), "(*regexp.Regexp).Find")
		if !ok {
			return nil, ""
		}
		return c, m
	}
	if c, m := call(t); c != nil && !strings.HasPrefix(m, "All") && e.nonNil(st, t) {
		switch m {
		case "Index", "StringIndex", "ReaderIndex":
			return 2, true
		case "Submatch", "StringSubmatch":
			return groups(c) + 1, true
		case "SubmatchIndex", "StringSubmatchIndex", "ReaderSubmatchIndex":
			return 2*groups(c) + 2, true
		}
	}
	for a, v := range st.cells {
		if v != t || !a.is("iaddr") {
			continue
		}
		if c, m := call(a.args[0]); c != nil && strings.HasPrefix(m, "All") {
			switch m {
			case "AllSubmatch", "AllStringSubmatch":
				return groups(c) + 1, true
			case "AllSubmatchIndex", "AllStringSubmatchIndex":
				return 2*groups(c) + 2, true
			case "AllIndex", "AllStringIndex":
				return 2, true
			}
		}
	}
	return 0, false
}

// bufLen is the cell holding the length of a buffer.
func (b *boundRun) bufLen(st *State, buf *Term) *Term { return b.e.in.Pure("buflen", buf) }

func (b *boundRun) bump(st *State, c *Call, buf *Term, n *Term) {
	e := b.e
	cell := b.bufLen(st, buf)
	cur := st.cells[cell]
	if cur == nil {
		return
	}
	if sum := e.in.linAdd(cur, n, 1, types.Typ[types.Int]); sum.isConst() {
		if v, _ := sum.intVal(); v <= 4 {
			st.cells[cell] = sum
			return
		}
	}
	lo := min(satAdd(e.ival(st, cur).lo, max(0, e.ival(st, n).lo)), 4)
	t := e.fresh(st, c.Ctx, fmt.Sprintf("buflen@%d", e.p.id(c.In)), types.Typ[types.Int])
	st.facts[t] = &Fact{lo: lo, hasLo: true, hi: maxLen, hasHi: true}
	st.cells[b.bufLen(st, buf)] = t
}

func (b *boundRun) model(st *State, c *Call) *Term {
	e := b.e
	intT := types.Typ[types.Int]
	b.record(st, c)
	m, isBuf := strings.CutPrefix(c.Name, "(*bytes.Buffer).")
	if !isBuf {
		m, isBuf = strings.CutPrefix(c.Name, "(*strings.Builder).")
	}
	if s := b.x.site[c.In]; s != nil {
		b.call(st, c, m)
	}
	switch {
	case isBuf:
		buf := c.Args[0]
		cell := b.bufLen(st, buf)
		cur := st.cells[cell]
		if cur == nil && st.zero[buf] {
			cur = e.in.Int(0)
		}
		delete(st.zero, buf)
		if cur == nil {
			cur = e.fresh(st, c.Ctx, fmt.Sprintf("buflen?%d", e.p.id(c.In)), intT)
			st.facts[cur] = &Fact{lo: 0, hasLo: true, hi: maxLen, hasHi: true}
		}
		st.cells[cell] = cur
		switch m {
		case "Len":
			return cur
		case "Bytes", "String":
			t := e.fresh(st, c.Ctx, c.In, c.In.(ssa.Value).Type())
			st.cells[e.in.Pure("lenof", t)] = st.cells[b.bufLen(st, buf)]
			return t
		case "WriteByte":
			b.bump(st, c, buf, e.in.Int(1))
		case "Write", "WriteString":
			b.bump(st, c, buf, e.Len(st, c.Args[1], nil))
		case "WriteRune":
			b.bump(st, c, buf, e.in.Int(1))
		case "Truncate":
			st.cells[cell] = c.Args[1]
			return e.in.Nil()
		case "Reset":
			st.cells[cell] = e.in.Int(0)
			return e.in.Nil()
		case "Grow":
			return e.in.Nil()
		default:
			delete(st.cells, cell)
		}
		if v, ok := c.In.(ssa.Value); ok {
			return e.fresh(st, c.Ctx, c.In, v.Type())
		}
		return e.in.Nil()
	case c.Name == "bytes.NewBuffer" || c.Name == "bytes.NewBufferString":
		t := e.fresh(st, c.Ctx, c.In, c.In.(ssa.Value).Type())
		st.cells[b.bufLen(st, t)] = e.Len(st, e.V(st, c.Ctx, c.Com.Args[0]), nil)
		return t
	case lengthTest(c.Name) && len(c.Com.Args) == 2:
		long, short := e.Len(st, e.V(st, c.Ctx, c.Com.Args[0]), nil), e.Len(st, e.V(st, c.Ctx, c.Com.Args[1]), nil)
		if e.Prove(st, e.in.linAdd(e.in.linAdd(short, long, -1, nil), e.in.Int(1), -1, nil)) {
			return e.in.Bool(false)
		}
	case c.Name == "builtin append":
		t := e.fresh(st, c.Ctx, c.In, c.In.(ssa.Value).Type())
		base, add := e.V(st, c.Ctx, c.Com.Args[0]), e.V(st, c.Ctx, c.Com.Args[1])
		sum := e.in.linAdd(e.Len(st, base, nil), e.Len(st, add, nil), 1, intT)
		if base.kind == 'n' && base.val == c.In.(ssa.Value) {
			// grown in a loop through memory: keep a lower bound only
			lo := min(satAdd(e.ival(st, e.Len(st, base, nil)).lo, max(0, e.ival(st, e.Len(st, add, nil)).lo)), 2)
			e.Assume(st, e.Cmp(token.LSS, e.Len(st, t, nil), e.in.Int(lo)), false)
		} else if !sum.contains(t) && sum.depth < 10 {
			st.cells[e.in.Pure("lenof", t)] = sum
		}
		return t
	case c.Name == "builtin copy":
		e.SetContent(st, c.Ctx, c.In, c.Args[0], e.in.Nil())
		return e.in.PureT(intT, "copyn", e.Len(st, c.Args[0], nil), e.Len(st, c.Args[1], nil))
	case c.Name == "iface hash.Hash.Sum":
		t := e.fresh(st, c.Ctx, c.In, c.In.(ssa.Value).Type())
		if h := e.V(st, c.Ctx, c.Com.Value); h.kind == 'n' {
			if hc, ok := h.val.(*ssa.Call); ok {
				if n := hashSize[commonName(hc.Common())]; n > 0 {
					st.cells[e.in.Pure("lenof", t)] = e.in.linAdd(e.Len(st, e.V(st, c.Ctx, c.Com.Args[0]), nil), e.in.Int(n), 1, intT)
				}
			}
		}
		return t
	case c.Name == "encoding/hex.EncodeToString":
		t := e.fresh(st, c.Ctx, c.In, c.In.(ssa.Value).Type())
		st.cells[e.in.Pure("lenof", t)] = e.in.linAdd(e.in.Int(0), e.Len(st, e.V(st, c.Ctx, c.Com.Args[0]), nil), 2, intT)
		return t
	}
	return nil
}

var hashSize = map[string]int64{"crypto/md5.New": 16, "crypto/sha1.New": 20, "crypto/sha256.New": 32, "crypto/sha512.New": 64}

// after records what library functions promise about their results.
func (b *boundRun) after(st *State, c *Call) {
	e := b.e
	v, ok := c.In.(ssa.Value)
	if !ok {
		return
	}
	res := e.V(st, c.Ctx, v)
	le := func(x, y *Term) { e.Assume(st, e.Cmp(token.LSS, y, x), false) }
	arg := func(i int) *Term {
		if i < len(c.Com.Args) {
			return e.V(st, c.Ctx, c.Com.Args[i])
		}
		return e.in.Nil()
	}
	ext := func(i int) *Term { return e.ext(res, i) }
	switch n := c.Name; n {
	case "io.ReadFull", "io.ReadAtLeast":
		le(e.in.Int(0), ext(0))
		le(ext(0), e.Len(st, arg(1), nil))
	case "(*bufio.Reader).Read", "(*bytes.Reader).Read", "(*strings.Reader).Read", "(*os.File).Read":
		le(e.in.Int(0), ext(0))
		le(ext(0), e.Len(st, arg(1), nil))
	case "(*bufio.Reader).Peek":
		if k, ok := arg(1).intVal(); ok && k >= 0 {
			le(e.Len(st, ext(0), nil), arg(1))
		}
	case "(*bufio.Reader).Buffered", "(*bytes.Reader).Len", "(*strings.Reader).Len":
		le(e.in.Int(0), res)
		le(res, e.in.Int(maxLen))
	case "(*bufio.Reader).Discard":
		le(e.in.Int(0), ext(0))
	case "bytes.IndexByte", "strings.IndexByte", "bytes.IndexRune", "strings.IndexRune", "bytes.LastIndexByte", "strings.LastIndexByte",
		"bytes.IndexAny", "strings.IndexAny", "bytes.LastIndexAny", "strings.LastIndexAny", "slices.Index", "slices.IndexFunc", "bytes.IndexFunc", "strings.IndexFunc":
		le(e.in.Int(-1), res)
		le(res, e.in.linAdd(e.Len(st, arg(0), nil), e.in.Int(1), -1, types.Typ[types.Int]))
	case "bytes.Index", "strings.Index", "bytes.LastIndex", "strings.LastIndex":
		le(e.in.Int(-1), res)
		le(res, e.Len(st, arg(0), nil))
	case "sort.Search", "sort.SearchInts":
		le(e.in.Int(0), res)
	case "bytes.TrimRight", "bytes.TrimLeft", "bytes.TrimSpace", "bytes.Trim", "strings.TrimSpace", "strings.Trim", "strings.TrimRight", "strings.TrimLeft":
		le(e.Len(st, res, nil), e.Len(st, arg(0), nil))
	}
	// element loads of constant functions need nothing here
}

// call checks the operands of a length-checked library call.
func (b *boundRun) call(st *State, c *Call, m string) {
	b.x.seen[c.In] = true
	if b.bad[c.In] || c.Name == "crypto/rc4.NewCipher" {
		return
	}
	for k := c.Ctx; k != nil; k = k.parent {
		if recovers(k.fn) {
			return
		}
	}
	e := b.e
	arg := func(i int) *Term { return e.V(st, c.Ctx, c.Com.Args[i]) }
	ge := func(x, y *Term) bool { return e.Prove(st, e.in.linAdd(x, y, -1, nil)) }
	switch {
	case m == "Truncate":
		cur := st.cells[b.bufLen(st, c.Args[0])]
		if cur == nil || !ge(cur, c.Args[1]) || !ge(c.Args[1], e.in.Int(0)) {
			b.fail(st, c.In, fmt.Sprintf("the buffer may be truncated to %s, outside its length", c.Args[1]))
		}
	case m == "Grow":
		if !ge(c.Args[1], e.in.Int(0)) || !b.modest(st, c.Args[1]) {
			b.fail(st, c.In, fmt.Sprintf("the buffer may grow by %s", c.Args[1]))
		}
	case c.Name == "slices.Grow":
		if !ge(arg(1), e.in.Int(0)) || !b.modest(st, arg(1)) {
			b.fail(st, c.In, fmt.Sprintf("the slice may grow by %s", arg(1)))
		}
	case strings.HasSuffix(c.Name, ".Repeat"):
		if !ge(arg(1), e.in.Int(0)) || !b.modest(st, arg(1)) {
			b.fail(st, c.In, fmt.Sprintf("the repeat count may be %s", arg(1)))
		}
	case strings.HasSuffix(c.Name, "XORKeyStream"):
		if !ge(e.Len(st, arg(1), nil), e.Len(st, arg(2), nil)) {
			b.fail(st, c.In, "the output may be shorter than the input")
		}
	case strings.HasPrefix(c.Name, "(encoding/binary."):
		n := int64(8)
		switch {
		case strings.HasSuffix(c.Name, "16"):
			n = 2
		case strings.HasSuffix(c.Name, "32"):
			n = 4
		}
		if !ge(e.Len(st, arg(1), nil), e.in.Int(n)) {
			b.fail(st, c.In, fmt.Sprintf("the buffer of length %s may be shorter than %d", e.Len(st, arg(1), nil), n))
		}
	default:
		b.fail(st, c.In, "the operands of "+c.Name+" are not known to have the required sizes")
	}
}

// record joins the ranges of the arguments a function is given.
func (b *boundRun) record(st *State, c *Call) {
	g := c.Com.StaticCallee()
	if g == nil || !b.x.want[g] {
		return
	}
	e := b.e
	recs := b.x.args[b.f]
	old, seen := recs[g]
	now := make([]interval, len(g.Params))
	for i, a := range c.Com.Args {
		t := e.V(st, c.Ctx, a)
		if _, ok := a.Type().Underlying().(*types.Slice); ok {
			t = e.Len(st, t, nil)
		} else if !isIntType(a.Type()) {
			continue
		}
		r := e.ival(st, t)
		for _, k := range []int64{1, 0} {
			if r.lo >= k || seen && old[i].lo < k {
				continue
			}
			if e.Prove(st, e.in.linAdd(t, e.in.Int(k), -1, nil)) {
				r.lo = k
				break
			}
		}
		if r.lo < 0 && os.Getenv("VERIF_DEBUG") == "2" {
			fmt.Fprintln(os.Stderr, "ARG", fnName(g), i, t, r)
			for f, v := range st.facts {
				fmt.Fprintln(os.Stderr, "    fact", f, v)
			}
		}
		now[i] = r
		if seen {
			now[i] = interval{min(r.lo, old[i].lo), max(r.hi, old[i].hi)}
		}
	}
	recs[g] = now
}

// given assumes the ranges of the arguments f is called with.
func (b *boundRun) given(st *State, ctx *Ctx) {
	f := ctx.fn
	if !b.x.want[f] {
		return
	}
	var all []interval
	n := 0
	for _, recs := range b.x.args {
		r, ok := recs[f]
		if !ok {
			continue
		}
		if n++; n == 1 {
			all = append([]interval{}, r...)
			continue
		}
		for i := range all {
			all[i] = interval{min(all[i].lo, r[i].lo), max(all[i].hi, r[i].hi)}
		}
	}
	if os.Getenv("VERIF_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, "GIVEN", fnName(f), all)
	}
	for i, r := range all {
		t := b.e.V(st, ctx, f.Params[i])
		if _, ok := f.Params[i].Type().Underlying().(*types.Slice); ok {
			t = b.e.Len(st, t, nil)
		} else if !isIntType(f.Params[i].Type()) {
			continue
		}
		if r.lo > -maxInt {
			b.e.Assume(st, b.e.Cmp(token.LSS, t, b.e.in.Int(r.lo)), false)
		}
		if r.hi < maxInt {
			b.e.Assume(st, b.e.Cmp(token.LSS, b.e.in.Int(r.hi), t), false)
		}
	}
}

// init gives the arguments of comparison functions passed to sort.Slice their range.
func (b *boundRun) init(st *State, ctx *Ctx) {
	f := ctx.fn
	b.given(st, ctx)
	if f.Parent() == nil {
		return
	}
	e := b.e
	for _, bl := range f.Parent().Blocks {
		for _, in := range bl.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok || !strings.HasPrefix(commonName(c.Common()), "sort.Slice") || len(c.Call.Args) != 2 {
				continue
			}
			mc, ok := c.Call.Args[1].(*ssa.MakeClosure)
			if !ok || mc.Fn != ssa.Value(f) {
				continue
			}
			mi, ok := c.Call.Args[0].(*ssa.MakeInterface)
			if !ok {
				continue
			}
			for i, bind := range mc.Bindings {
				fv := e.V(st, ctx, f.FreeVars[i])
				var s *Term
				if ld, ok := mi.X.(*ssa.UnOp); ok && ld.Op == token.MUL && ld.X == bind {
					s = e.fresh(st, ctx, "sorted", ld.Type())
					st.cells[fv] = s
				} else if mi.X == bind {
					s = fv
				} else {
					continue
				}
				for _, prm := range f.Params {
					pt := e.V(st, ctx, prm)
					e.Assume(st, e.Cmp(token.LSS, pt, e.in.Int(0)), false)
					e.Assume(st, e.Cmp(token.LSS, pt, e.Len(st, s, nil)), true)
				}
			}
		}
	}
}

// reachable lists the functions the program can run, starting from main and Parse.
func (p *Program) reachable() map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || out[f] || !p.InRepo(f) {
			return
		}
		out[f] = true
		for g := range p.calleesOf(f) {
			walk(g)
		}
		for _, a := range f.AnonFuncs {
			walk(a)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				for _, o := range in.Operands(ops) {
					if g, ok := (*o).(*ssa.Function); ok {
						walk(g)
					}
				}
			}
		}
	}
	var fs []*ssa.Function
	fs = append(fs, p.Funcs...)
	sort.Slice(fs, func(i, j int) bool { return fnName(fs[i]) < fnName(fs[j]) })
	for _, f := range fs {
		// methods of dynamic types are reached through interfaces
		if f.Name() == "main" || f.Name() == "init" || fnName(f) == "Parse" || p.isAddressTaken(f) || f.Signature.Recv() != nil && f.Name() == "String" {
			walk(f)
		}
	}
	return out
}
