package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C16"] = &Check{Rule: "on every path through one step of the predictor loops the byte put out is the raw byte plus exactly the neighbours its method uses, the neighbours lie one pixel, one row, or both back, rows and columns are covered, and predictors that are not known leave the data alone", Run: runC16,
		Assumptions: []string{"GetBits and SetBits read and write the bits they are asked to", "parameters are those the code accepts; products of them do not overflow (C01)"}}
}

// poly is a polynomial over terms: sum k*monomial + c.
type poly = ineq

// pval is the value of an instruction on a path.
type pval struct {
	kind byte // 'i' number, 'b' condition, 's' slice, 't' tuple, 0 unknown
	p    poly
	cond *pcond
	base *Term // slice
	tup  []pval
}

// pcond is p >= 0 ('g'), p == 0 ('e'), a constant or something unknown.
type pcond struct {
	op  byte // 'g', 'e', 'c', 'u'
	p   poly
	val bool // for 'c'
	neg bool
	at  *Term // for 'u'
}

type patom struct {
	op   string
	ps   []poly
	base *Term
}

type pevent struct {
	kind string // "out", "set"
	base *Term
	pos  *poly // nil: at the end
	val  poly
	n    poly
	in   ssa.Instruction
	loop []*ploop // the loops around it
}

// ploop is a loop being walked once.
type ploop struct {
	l      *Loop
	fr     *pframe
	phis   map[*ssa.Phi]*Term
	init   map[*Term]poly
	events int // number of events when it was entered
	row    *prow
	span   *pspan
	inside []*ploop        // with it the loops around it
	done   *ssa.BasicBlock // where an iteration has done its work
	far    bool            // the work is done in another function
}

// pspan says when a loop over the values of a row is done: count values after the start, or past the data.
type pspan struct {
	count poly
	width poly
	pos   poly // in bits
	rows  bool
}

type pframe struct {
	f     *ssa.Function
	up    *pframe
	depth int
	id    int
}

type ppath struct {
	env    map[pkey]pval
	qs     []ineq
	ne     []poly
	lits   map[*Term]bool
	loops  []*ploop
	events []pevent
	past   bool // everything that follows lies behind the data
	looped bool
	tiff   bool // went through a loop that changes the data
	trail  []string
}

type pkey struct {
	fr *pframe
	v  ssa.Value
}

func (p *ppath) clone() *ppath {
	n := &ppath{env: make(map[pkey]pval, len(p.env)), lits: make(map[*Term]bool, len(p.lits))}
	for k, v := range p.env {
		n.env[k] = v
	}
	for k, v := range p.lits {
		n.lits[k] = v
	}
	n.qs = append([]ineq{}, p.qs...)
	n.ne = append([]poly{}, p.ne...)
	n.tiff, n.past, n.looped = p.tiff, p.past, p.looped
	n.loops = append([]*ploop{}, p.loops...)
	n.events = append([]pevent{}, p.events...)
	n.trail = append([]string{}, p.trail...)
	return n
}

type predictor struct {
	p       *Program
	r       *Report
	in      *Interner
	info    map[*Term]*patom
	root    *ssa.Function
	data    *Term
	missing string // the parameter that is absent
	frames  int
	paths   int
	steps   int
	outs    map[string]int
	unknown map[string]bool
	found   map[string]bool
	judged  map[ssa.Instruction]bool
	methods map[int64]bool
	rows    map[*Loop]*prow
	puts    map[*Term]bool // buffers bytes are put in
	made    map[*Term]poly // their length at the start
	tiffs   map[*Loop]bool // loops that change the data
	pass    int
	cur     *ppath
}

// prow is what is known of a nest of loops that puts bytes out.
type prow struct{ R, M, W poly }

func runC16(p *Program, r *Report) {
	f := p.Func("ReversePredictor")
	if f == nil || len(f.Blocks) == 0 {
		r.anchor(p, "ReversePredictor")
		return
	}
	r.Functions[fnName(f)] = true
	unknown := map[string]bool{}
	judged := map[ssa.Instruction]bool{}
	methods := map[int64]bool{}
	found := map[string]bool{}
	in := NewEngine(p).in
	info, puts, tiffs := map[*Term]*patom{}, map[*Term]bool{}, map[*Loop]bool{}
	for _, missing := range []string{"", "Predictor", "BitsPerComponent", "Colors", "Columns"} {
		x := &predictor{p: p, r: r, in: in, info: info, root: f, missing: missing, outs: map[string]int{}, unknown: unknown, found: found, judged: judged, methods: methods, rows: map[*Loop]*prow{}, puts: puts, made: map[*Term]poly{}, tiffs: tiffs}
		for x.pass = 1; x.pass <= 2; x.pass++ {
			x.paths = 0
			x.run()
		}
		r.sample("%s missing: %d paths, %v", map[bool]string{true: "nothing", false: missing}[missing == ""], x.paths, x.outs)
		if x.paths >= maxPaths {
			unknown["too many paths"] = true
		}
	}
	r.Sites += len(judged)
	for _, k := range sortedKeys(unknown) {
		r.sample("not judged: %s", k)
	}
	r.sample("%d places put bytes out or change them, methods judged %v", len(judged), len(methods))
	r.ob(true)
}

const maxPaths = 60000

func (x *predictor) run() {
	fr := &pframe{f: x.root}
	pa := &ppath{env: map[pkey]pval{}, lits: map[*Term]bool{}}
	for i, prm := range x.root.Params {
		t := x.in.Param(fmt.Sprintf("%s.%d", fnName(x.root), i), prm.Type())
		if i == 0 {
			x.data = t
		}
		pa.env[pkey{fr, prm}] = x.value(t, prm.Type())
	}
	x.block(fr, x.root.Blocks[0], nil, pa, func(pa *ppath, in *ssa.Return, res []pval) { x.returned(pa, in, res) })
}

// ---------------------------------------------------------------- polynomials

func (x *predictor) num(v int64) poly { return poly{map[*Term]int64{}, v} }

func (x *predictor) atom(t *Term) poly {
	if v, ok := t.intVal(); ok {
		return x.num(v)
	}
	return poly{map[*Term]int64{t: 1}, 0}
}

func (x *predictor) add(a, b poly, k int64) poly {
	out := poly{map[*Term]int64{}, a.c + k*b.c}
	for t, v := range a.k {
		out.k[t] = v
	}
	for t, v := range b.k {
		out.k[t] += k * v
		if out.k[t] == 0 {
			delete(out.k, t)
		}
	}
	return out
}

func (x *predictor) factors(t *Term) []*Term {
	if t.is("mon") {
		return t.args
	}
	return []*Term{t}
}

func (x *predictor) mul(a, b poly) poly {
	out := x.num(a.c * b.c)
	put := func(t *Term, k int64) {
		out.k[t] += k
		if out.k[t] == 0 {
			delete(out.k, t)
		}
	}
	for t, v := range a.k {
		if b.c != 0 {
			put(t, v*b.c)
		}
		for u, w := range b.k {
			fs := append(append([]*Term{}, x.factors(t)...), x.factors(u)...)
			sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
			put(x.in.Pure("mon", fs...), v*w)
		}
	}
	for u, w := range b.k {
		if a.c != 0 {
			put(u, w*a.c)
		}
	}
	return out
}

func isConst(p poly) (int64, bool) { return p.c, len(p.k) == 0 }

func samePoly(a, b poly) bool {
	if a.c != b.c || len(a.k) != len(b.k) {
		return false
	}
	for t, k := range a.k {
		if b.k[t] != k {
			return false
		}
	}
	return true
}

func (x *predictor) polyKey(p poly) string { return linKey(p) + itoa(p.c) }

// app is an operation whose result is not a polynomial of its operands.
func (x *predictor) app(op string, base *Term, ps ...poly) poly {
	key := op
	for _, p := range ps {
		key += "|" + x.polyKey(p)
	}
	var t *Term
	if base != nil {
		t = x.in.Pure("app:"+key, base)
	} else {
		t = x.in.Pure("app:" + key)
	}
	if x.info[t] == nil {
		x.info[t] = &patom{op, ps, base}
	}
	return x.atom(t)
}

func (x *predictor) div(a, b poly) poly {
	if k, ok := isConst(b); ok && k > 0 {
		if v, ok := isConst(a); ok {
			return x.num(v / k)
		}
		if k == 1 {
			return a
		}
	}
	if u, ok := isConst(a); ok && u == 0 {
		return a
	}
	return x.app("div", nil, a, b)
}

func (x *predictor) mod(a, b poly) poly {
	if k, ok := isConst(b); ok && k > 0 {
		if v, ok := isConst(a); ok {
			return x.num(v % k)
		}
		if k == 1 {
			return x.num(0)
		}
		if k == 256 {
			return x.wrap(a)
		}
	}
	return x.app("mod", nil, a, b)
}

// wrap reduces to a byte.
func (x *predictor) wrap(a poly) poly {
	if v, ok := isConst(a); ok {
		return x.num(((v % 256) + 256) % 256)
	}
	if t := single(a); t != nil && x.isByte(t) {
		return a
	}
	return x.app("wrap", nil, x.strip(a))
}

// single: the polynomial is an atom.
func single(a poly) *Term {
	if a.c != 0 || len(a.k) != 1 {
		return nil
	}
	for t, k := range a.k {
		if k == 1 && !t.is("mon") {
			return t
		}
	}
	return nil
}

func (x *predictor) isByte(t *Term) bool {
	i := x.info[t]
	return i != nil && (i.op == "load" || i.op == "wrap")
}

// strip removes reductions to a byte from a sum that is going to be reduced.
func (x *predictor) strip(a poly) poly {
	out := x.num(a.c)
	for t, k := range a.k {
		if i := x.info[t]; i != nil && i.op == "wrap" {
			out = x.add(out, x.strip(i.ps[0]), k)
			continue
		}
		out = x.add(out, x.atom(t), k)
	}
	return out
}

func (x *predictor) abs(a poly) poly {
	if v, ok := isConst(a); ok {
		return x.num(max(v, -v))
	}
	neg := false
	for _, t := range sortedTerms(a.k) {
		neg = a.k[t] < 0
		break
	}
	if neg {
		a = x.add(x.num(0), a, -1)
	}
	return x.app("abs", nil, a)
}

func (x *predictor) load(base *Term, i poly) poly { return x.app("load", base, i) }

// subst replaces atoms.
func (x *predictor) subst(a poly, f func(t *Term) (poly, bool)) poly {
	out := x.num(a.c)
	for t, k := range a.k {
		m := x.num(k)
		for _, u := range x.factors(t) {
			m = x.mul(m, x.substAtom(u, f))
		}
		out = x.add(out, m, 1)
	}
	return out
}

func (x *predictor) substAtom(t *Term, f func(t *Term) (poly, bool)) poly {
	if p, ok := f(t); ok {
		return p
	}
	i := x.info[t]
	if i == nil || len(i.ps) == 0 {
		return x.atom(t)
	}
	ps := make([]poly, len(i.ps))
	same := true
	for j, p := range i.ps {
		ps[j] = x.subst(p, f)
		same = same && samePoly(ps[j], p)
	}
	if same {
		return x.atom(t)
	}
	switch i.op {
	case "div":
		return x.div(ps[0], ps[1])
	case "mod":
		return x.mod(ps[0], ps[1])
	case "wrap":
		return x.wrap(ps[0])
	case "abs":
		return x.abs(ps[0])
	case "max", "min":
		if x.polyKey(ps[0]) > x.polyKey(ps[1]) {
			ps[0], ps[1] = ps[1], ps[0]
		}
	}
	return x.app(i.op, i.base, ps...)
}

// atoms lists all atoms of a polynomial, those inside others too.
func (x *predictor) atoms(a poly, out map[*Term]bool) {
	for t := range a.k {
		for _, u := range x.factors(t) {
			if out[u] {
				continue
			}
			out[u] = true
			if i := x.info[u]; i != nil {
				for _, p := range i.ps {
					x.atoms(p, out)
				}
			}
		}
	}
}

// axioms are the inequalities that hold because of how the atoms are made.
func (x *predictor) axioms(qs []ineq) []ineq {
	set := map[*Term]bool{}
	for _, q := range qs {
		x.atoms(q, set)
	}
	var out []ineq
	for t := range set {
		i := x.info[t]
		if i == nil {
			if t.hasOp("parm:") {
				continue
			}
			if t.hasOp("len:") || t.hasOp("byte:") || t.hasOp("round:") {
				out = append(out, x.atom(t))
			}
			if t.hasOp("byte:") {
				out = append(out, x.add(x.num(255), x.atom(t), -1))
			}
			continue
		}
		switch i.op {
		case "load", "wrap":
			out = append(out, x.atom(t), x.add(x.num(255), x.atom(t), -1))
		case "abs":
			out = append(out, x.atom(t), x.add(x.atom(t), i.ps[0], -1), x.add(x.atom(t), i.ps[0], 1))
		case "mod":
			if k, ok := isConst(i.ps[1]); ok && k > 0 {
				out = append(out, x.atom(t), x.add(x.num(k-1), x.atom(t), -1)) // of a value that is not negative
			}
		case "max":
			out = append(out, x.ge(x.atom(t), i.ps[0]), x.ge(x.atom(t), i.ps[1]))
		case "min":
			out = append(out, x.ge(i.ps[0], x.atom(t)), x.ge(i.ps[1], x.atom(t)))
		case "div":
			if k, ok := isConst(i.ps[1]); ok && k > 0 && x.natural(i.ps[0]) {
				d := x.add(i.ps[0], x.atom(t), -k)
				out = append(out, d, x.add(x.num(k-1), d, -1))
			}
		}
	}
	return out
}

// natural: the polynomial has no negative value (sums of things that have none).
func (x *predictor) natural(p poly) bool {
	if p.c < 0 {
		return false
	}
	for t, k := range p.k {
		if k < 0 {
			return false
		}
		for _, u := range x.factors(t) {
			if i := x.info[u]; i == nil && !u.hasOp("byte:") && !u.hasOp("parm:") && !u.hasOp("len:") || i != nil && i.op != "load" && i.op != "wrap" && i.op != "div" && i.op != "abs" && i.op != "mod" {
				return false
			}
		}
	}
	return true
}

func (x *predictor) no(qs []ineq, more ...ineq) bool {
	all := append(append([]ineq{}, qs...), more...)
	return x.split(all, map[*Term]bool{})
}

// split looks at both cases of minima and maxima.
func (x *predictor) split(all []ineq, done map[*Term]bool) bool {
	full := append(append([]ineq{}, all...), x.axioms(all)...)
	if infeasible(full) {
		return true
	}
	if len(done) >= 3 {
		return false
	}
	set := map[*Term]bool{}
	for _, q := range all {
		x.atoms(q, set)
	}
	for _, t := range sortedSet(set) {
		i := x.info[t]
		if i == nil || i.op != "min" && i.op != "max" || done[t] {
			continue
		}
		nd := map[*Term]bool{t: true}
		for u := range done {
			nd[u] = true
		}
		e := x.atom(t)
		for n, p := range i.ps {
			q := i.ps[1-n]
			o := x.ge(q, p)
			if i.op == "max" {
				o = x.ge(p, q)
			}
			if !x.split(append(append([]ineq{}, all...), x.ge(e, p), x.ge(p, e), o), nd) {
				return false
			}
		}
		return true
	}
	return false
}

func sortedSet(m map[*Term]bool) []*Term {
	k := map[*Term]int64{}
	for t := range m {
		k[t] = 1
	}
	return sortedTerms(k)
}

// ge is a >= b, lt is a < b.
func (x *predictor) ge(a, b poly) ineq { return x.add(a, b, -1) }
func (x *predictor) lt(a, b poly) ineq { return x.add(x.add(b, a, -1), x.num(1), -1) }

// ---------------------------------------------------------------- walking

func (x *predictor) value(t *Term, typ types.Type) pval {
	switch u := typ.Underlying().(type) {
	case *types.Slice:
		return pval{kind: 's', base: t}
	case *types.Basic:
		if u.Info()&(types.IsInteger|types.IsFloat) != 0 {
			return pval{kind: 'i', p: x.atom(t)}
		}
		if u.Info()&types.IsBoolean != 0 {
			return pval{kind: 'b', cond: &pcond{op: 'u', at: t}}
		}
	}
	return pval{base: t}
}

func (x *predictor) get(pa *ppath, fr *pframe, v ssa.Value) pval {
	switch c := v.(type) {
	case *ssa.Const:
		if c.Value == nil {
			return pval{base: x.in.Nil()}
		}
		switch c.Value.Kind() {
		case constant.Int, constant.Float:
			if k, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
				return pval{kind: 'i', p: x.num(k)}
			}
		case constant.Bool:
			return pval{kind: 'b', cond: &pcond{op: 'c', val: constant.BoolVal(c.Value)}}
		case constant.String:
			return pval{base: x.in.Const(c.Value)}
		}
		return x.value(x.in.Pure("const:"+c.String()), c.Type())
	case *ssa.Function, *ssa.Builtin, *ssa.Global:
		return pval{base: x.in.Pure("static:" + v.String())}
	}
	if pv, ok := pa.env[pkey{fr, v}]; ok {
		return pv
	}
	return x.value(x.in.Pure(fmt.Sprintf("v%d:%s", fr.id, v.Name())), v.Type())
}

func (x *predictor) opaque(fr *pframe, v ssa.Value) pval {
	return x.value(x.in.Pure(fmt.Sprintf("o%d:%s", fr.id, v.Name())), v.Type())
}

type pcont func(pa *ppath, in *ssa.Return, res []pval)

// block walks a path from the start of a block.
func (x *predictor) block(fr *pframe, b, from *ssa.BasicBlock, pa *ppath, k pcont) {
	if x.paths >= maxPaths {
		return
	}
	// loops that are left
	for len(pa.loops) > 0 {
		l := pa.loops[len(pa.loops)-1]
		if l.fr != fr || l.l.Body[b] {
			break
		}
		x.left(pa, l, from)
		pa.loops = pa.loops[:len(pa.loops)-1]
	}
	li := x.p.Loops(fr.f)
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		if phi, ok := in.(*ssa.Phi); ok {
			phis = append(phis, phi)
		}
	}
	edge := -1
	for i, q := range b.Preds {
		if q == from {
			edge = i
		}
	}
	vals := make([]pval, len(phis))
	for i, phi := range phis {
		if edge >= 0 {
			vals[i] = x.get(pa, fr, phi.Edges[edge])
		}
	}
	if l := li.ByHeader[b]; l != nil {
		if from != nil && l.Body[from] {
			x.paths++
			if n := len(pa.loops); n > 0 && pa.loops[n-1].l == l && pa.loops[n-1].fr == fr {
				x.back(pa, pa.loops[n-1], phis, vals)
			}
			return
		}
		pl := &ploop{l: l, fr: fr, phis: map[*ssa.Phi]*Term{}, init: map[*Term]poly{}, events: len(pa.events)}
		for i, phi := range phis {
			t := x.in.Pure(fmt.Sprintf("phi%d:%s", fr.id, phi.Name()))
			pv := x.value(t, phi.Type())
			if vals[i].kind == 's' && x.stays(phi, phi, l, map[ssa.Value]bool{}) {
				pv = vals[i] // checked on the way back
			}
			pl.phis[phi] = t
			if vals[i].kind == 'i' && pv.kind == 'i' {
				pl.init[t] = vals[i].p
				if x.grows(pa, fr, phi, l) {
					pa.qs = append(pa.qs, x.ge(pv.p, vals[i].p))
				}
			}
			vals[i] = pv
		}
		for i, phi := range phis {
			if c := vals[i].cond; c != nil && c.op == 'u' && c.at == pl.phis[phi] {
				if t, first := x.firstOnly(pa, fr, phi, l, pl); t != nil {
					vals[i] = pval{kind: 'b', cond: &pcond{op: 'e', p: x.atom(t), neg: !first}}
				}
			}
		}
		pl.inside = append(append([]*ploop{}, pa.loops...), pl)
		pa.loops = append(pa.loops, pl)
		pa.looped = true
		pa.tiff = pa.tiff || x.tiffs[l]
	}
	for i, phi := range phis {
		pa.env[pkey{fr, phi}] = vals[i]
	}
	x.instrs(fr, b, len(phis), pa, k)
}

// firstOnly: the flag has one value in the first iteration and the other later; a counter from zero tells which it is.
func (x *predictor) firstOnly(pa *ppath, fr *pframe, phi *ssa.Phi, l *Loop, pl *ploop) (*Term, bool) {
	var first, later *bool
	for i, e := range phi.Edges {
		c, ok := e.(*ssa.Const)
		if !ok || c.Value == nil || c.Value.Kind() != constant.Bool {
			return nil, false
		}
		v := constant.BoolVal(c.Value)
		if l.Body[phi.Block().Preds[i]] {
			if later != nil && *later != v {
				return nil, false
			}
			later = &v
		} else {
			if first != nil && *first != v {
				return nil, false
			}
			first = &v
		}
	}
	if first == nil || later == nil || *first == *later {
		return nil, false
	}
	for q, t := range pl.phis {
		if i, ok := pl.init[t]; ok {
			x.cur = pa
			if v, ok := isConst(i); ok && v == 0 {
				if d, ok := x.stride(pl, x.atom(t)); ok && x.no(pa.qs, x.lt(d, x.num(1))) && x.grows(pa, fr, q, l) {
					return t, *first
				}
			}
		}
	}
	return nil, false
}

// stays: the slice of the loop is the same buffer, perhaps longer, in every iteration.
func (x *predictor) stays(v ssa.Value, phi *ssa.Phi, l *Loop, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch y := v.(type) {
	case *ssa.Phi:
		if !l.Body[y.Block()] {
			return false
		}
		for i, e := range y.Edges {
			if y == phi && !l.Body[y.Block().Preds[i]] {
				continue
			}
			if e != phi && !x.stays(e, phi, l, seen) {
				return false
			}
		}
		return true
	case *ssa.Call:
		if commonName(&y.Call) == "builtin append" {
			return y.Call.Args[0] == phi || x.stays(y.Call.Args[0], phi, l, seen)
		}
		g := y.Call.StaticCallee()
		return g != nil && x.p.InRepo(g) && !baselineAPI[calleeName(g)]
	}
	return false
}

// grows: the variable is only ever increased.
func (x *predictor) grows(pa *ppath, fr *pframe, phi *ssa.Phi, l *Loop) bool {
	for i, e := range phi.Edges {
		if !l.Body[phi.Block().Preds[i]] {
			continue
		}
		b, ok := e.(*ssa.BinOp)
		if !ok || b.Op != token.ADD {
			return false
		}
		o := b.Y
		if b.X != phi {
			if b.Y != phi {
				return false
			}
			o = b.X
		}
		v := x.invariant(pa, fr, l, o)
		if v.kind != 'i' || !x.no(pa.qs, x.lt(v.p, x.num(0))) {
			return false
		}
	}
	return true
}

func (x *predictor) instrs(fr *pframe, b *ssa.BasicBlock, i int, pa *ppath, k pcont) {
	for ; i < len(b.Instrs); i++ {
		x.steps++
		in := b.Instrs[i]
		switch y := in.(type) {
		case *ssa.If:
			v := x.get(pa, fr, y.Cond)
			order := []bool{true, false}
			if l := x.p.Loops(fr.f).Inner[b]; l != nil && !l.Body[b.Succs[0]] && l.Body[b.Succs[1]] {
				order = []bool{false, true} // what stays in the loop first
			}
			for n, taken := range order {
				np, j := pa, 0
				if !taken {
					j = 1
				}
				if n == 0 {
					np = pa.clone()
				}
				np.trail = append(np.trail, fmt.Sprintf("%s %v", x.p.InstrPos(y), taken))
				if x.assume(np, v.cond, taken) {
					x.block(fr, b.Succs[j], b, np, k)
				}
			}
			return
		case *ssa.Jump:
			x.block(fr, b.Succs[0], b, pa, k)
			return
		case *ssa.Return:
			var res []pval
			for _, r := range y.Results {
				res = append(res, x.get(pa, fr, r))
			}
			k(pa, y, res)
			return
		case *ssa.Panic:
			return
		case *ssa.Store:
			x.store(pa, fr, y)
		case *ssa.Call:
			if x.inline(fr, y) {
				g := y.Call.StaticCallee()
				x.frames++
				nf := &pframe{f: g, up: fr, depth: fr.depth + 1, id: x.frameID(fr, y)}
				for j, prm := range g.Params {
					pa.env[pkey{nf, prm}] = x.get(pa, fr, y.Call.Args[j])
				}
				x.block(nf, g.Blocks[0], nil, pa, func(pa *ppath, _ *ssa.Return, res []pval) {
					pa = pa.clone()
					for len(pa.loops) > 0 && pa.loops[len(pa.loops)-1].fr == nf {
						x.left(pa, pa.loops[len(pa.loops)-1], nil)
						pa.loops = pa.loops[:len(pa.loops)-1]
					}
					switch len(res) {
					case 0:
					case 1:
						pa.env[pkey{fr, y}] = res[0]
					default:
						pa.env[pkey{fr, y}] = pval{kind: 't', tup: res}
					}
					x.instrs(fr, b, i+1, pa, k)
				})
				return
			}
			pa.env[pkey{fr, y}] = x.call(pa, fr, y)
		case ssa.Value:
			pa.env[pkey{fr, y}] = x.eval(pa, fr, y)
		}
	}
}

// frameID names the frame of a call the same way on every path.
func (x *predictor) frameID(fr *pframe, c *ssa.Call) int {
	t := x.in.Pure(fmt.Sprintf("frame%d:%s:%s", fr.id, fnName(fr.f), c.Name()))
	return int(t.id)
}

func (x *predictor) inline(fr *pframe, c *ssa.Call) bool {
	g := c.Call.StaticCallee()
	if g == nil || c.Call.IsInvoke() || !x.p.InRepo(g) || len(g.Blocks) == 0 || fr.depth > 6 || baselineAPI[calleeName(g)] || len(g.FreeVars) > 0 {
		return false
	}
	for q := fr; q != nil; q = q.up {
		if q.f == g {
			return false
		}
	}
	x.r.Functions[fnName(g)] = true
	return true
}

func (x *predictor) eval(pa *ppath, fr *pframe, v ssa.Value) pval {
	switch y := v.(type) {
	case *ssa.BinOp:
		return x.binop(pa, fr, y)
	case *ssa.UnOp:
		a := x.get(pa, fr, y.X)
		switch y.Op {
		case token.NOT:
			if a.cond != nil {
				c := *a.cond
				c.neg = !c.neg
				return pval{kind: 'b', cond: &c}
			}
		case token.SUB:
			if a.kind == 'i' {
				return pval{kind: 'i', p: x.fit(x.add(x.num(0), a.p, -1), y.Type())}
			}
		case token.MUL:
			if ia, ok := y.X.(*ssa.IndexAddr); ok {
				s, i := x.get(pa, fr, ia.X), x.get(pa, fr, ia.Index)
				if s.kind == 's' && i.kind == 'i' && isByteType(y.Type()) {
					return pval{kind: 'i', p: x.load(s.base, x.add(s.p, i.p, 1))}
				}
			}
			if g, ok := y.X.(*ssa.Global); ok {
				return x.value(x.in.Pure("global:"+g.Name()), y.Type())
			}
		}
	case *ssa.Convert:
		a := x.get(pa, fr, y.X)
		if b, ok := y.Type().Underlying().(*types.Basic); ok && a.kind == 'i' && b.Info()&(types.IsInteger|types.IsFloat) != 0 {
			return pval{kind: 'i', p: x.fit(a.p, y.Type())}
		}
	case *ssa.ChangeType:
		return x.get(pa, fr, y.X)
	case *ssa.Slice:
		a := x.get(pa, fr, y.X)
		if a.kind == 's' {
			if y.Low != nil {
				lo := x.get(pa, fr, y.Low)
				if lo.kind != 'i' {
					break
				}
				a.p = x.add(a.p, lo.p, 1)
			}
			return pval{kind: 's', base: a.base, p: a.p, tup: nil, cond: sliced(a, y)}
		}
	case *ssa.MakeSlice:
		t := x.in.Pure(fmt.Sprintf("make%d:%s", fr.id, y.Name()))
		if n := x.get(pa, fr, y.Len); n.kind == 'i' {
			x.made[t] = n.p
		}
		return pval{kind: 's', base: t, p: x.num(0)}
	case *ssa.Extract:
		t := x.get(pa, fr, y.Tuple)
		if t.kind == 't' && y.Index < len(t.tup) {
			return t.tup[y.Index]
		}
	case *ssa.Alloc:
		if a, ok := deref(y.Type()).Underlying().(*types.Array); ok && isByteType(a.Elem()) {
			t := x.in.Pure(fmt.Sprintf("arr%d:%s", fr.id, y.Name()))
			return pval{kind: 's', base: t, p: x.num(0)}
		}
	case *ssa.Phi:
		return x.get(pa, fr, v)
	}
	return x.opaque(fr, v)
}

// sliced marks a slice whose end was cut: its length is not that of the base.
func sliced(a pval, y *ssa.Slice) *pcond {
	if y.High != nil || y.Max != nil || a.cond != nil {
		return &pcond{op: 'u'}
	}
	return nil
}

// fit takes the value into the type.
func (x *predictor) fit(p poly, t types.Type) poly {
	if isByteType(t) {
		return x.wrap(p)
	}
	return p
}

func (x *predictor) binop(pa *ppath, fr *pframe, y *ssa.BinOp) pval {
	a, b := x.get(pa, fr, y.X), x.get(pa, fr, y.Y)
	if a.kind == 'i' && b.kind == 'i' {
		if v := x.arith(y, a, b); v.kind != 0 {
			return v
		}
	}
	return x.opaque(fr, y)
}

// arith is an operation on numbers.
func (x *predictor) arith(y *ssa.BinOp, a, b pval) pval {
	{
		num := func(p poly) pval { return pval{kind: 'i', p: x.fit(p, y.Type())} }
		isF := false
		if bt, ok := y.X.Type().Underlying().(*types.Basic); ok {
			isF = bt.Info()&types.IsFloat != 0
		}
		cmp := func(op byte, p poly, neg bool) pval {
			return pval{kind: 'b', cond: &pcond{op: op, p: p, neg: neg}}
		}
		kb, cb := isConst(b.p)
		switch y.Op {
		case token.ADD:
			return num(x.add(a.p, b.p, 1))
		case token.SUB:
			return num(x.add(a.p, b.p, -1))
		case token.MUL:
			return num(x.mul(a.p, b.p))
		case token.QUO:
			if !isF {
				return num(x.div(a.p, b.p))
			}
		case token.REM:
			return num(x.mod(a.p, b.p))
		case token.SHR:
			if cb && kb >= 0 && kb < 31 {
				return num(x.div(a.p, x.num(1<<kb)))
			}
		case token.SHL:
			if cb && kb >= 0 && kb < 31 {
				return num(x.mul(a.p, x.num(1<<kb)))
			}
		case token.AND:
			if cb && kb > 0 && kb&(kb+1) == 0 {
				return num(x.mod(a.p, x.num(kb+1)))
			}
		case token.GEQ:
			return cmp('g', x.ge(a.p, b.p), false)
		case token.LSS:
			return cmp('g', x.ge(a.p, b.p), true)
		case token.LEQ:
			return cmp('g', x.ge(b.p, a.p), false)
		case token.GTR:
			return cmp('g', x.ge(b.p, a.p), true)
		case token.EQL:
			return cmp('e', x.ge(a.p, b.p), false)
		case token.NEQ:
			return cmp('e', x.ge(a.p, b.p), true)
		}
	}
	return pval{}
}

// assume adds a condition; false: the path can not be taken.
func (x *predictor) assume(pa *ppath, c *pcond, taken bool) bool {
	if c == nil {
		return true
	}
	v := taken != c.neg
	switch c.op {
	case 'c':
		return c.val == v
	case 'u':
		if c.at == nil {
			return true
		}
		if old, ok := pa.lits[c.at]; ok {
			return old == v
		}
		pa.lits[c.at] = v
		if c.at.hasOp("has:") {
			return v == (c.at.op[4:] != x.missing)
		}
	case 'g':
		q := c.p
		if !v {
			q = x.lt(c.p, x.num(0))
		}
		return x.know(pa, q)
	case 'e':
		if v {
			return x.know(pa, c.p) && x.know(pa, x.add(x.num(0), c.p, -1))
		}
		if k, ok := isConst(c.p); ok {
			return k != 0
		}
		switch {
		case x.no(pa.qs, x.lt(c.p, x.num(0))):
			return x.know(pa, x.add(c.p, x.num(1), -1))
		case x.no(pa.qs, x.lt(x.num(0), c.p)):
			return x.know(pa, x.lt(c.p, x.num(0)))
		}
		pa.ne = append(pa.ne, c.p)
	}
	return true
}

func (x *predictor) know(pa *ppath, q ineq) bool {
	if k, ok := isConst(q); ok {
		return k >= 0
	}
	if x.no(pa.qs, q) {
		return false
	}
	pa.qs = append(pa.qs, q)
	// values that were ruled out
	for _, n := range pa.ne {
		if x.no(pa.qs, x.add(n, x.num(1), -1)) && x.no(pa.qs, x.lt(n, x.num(0))) {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- events

func (x *predictor) length(pa *ppath, s pval) pval {
	if s.kind != 's' || s.cond != nil {
		return pval{kind: 'i', p: x.atom(x.in.Pure("len:cut", s.base))}
	}
	return pval{kind: 'i', p: x.add(x.atom(x.in.Pure("len:"+s.base.String(), s.base)), s.p, -1)}
}

func (x *predictor) call(pa *ppath, fr *pframe, y *ssa.Call) pval {
	c := &y.Call
	name := commonName(c)
	var args []pval
	for _, a := range c.Args {
		args = append(args, x.get(pa, fr, a))
	}
	switch name {
	case "builtin len":
		return x.length(pa, args[0])
	case "builtin append":
		if len(args) == 2 && args[0].kind == 's' {
			ev := pevent{kind: "out", base: args[0].base, in: y, loop: append([]*ploop{}, pa.loops...)}
			if args[1].kind == 's' && args[1].base.hasOp("arr") {
				if v, ok := pa.env[pkey{nil, argArray(c.Args[1])}]; ok && v.kind == 'i' {
					ev.val = v.p
					pa.events = append(pa.events, ev)
					return args[0]
				}
			}
			ev.kind = "many"
			pa.events = append(pa.events, ev)
			return args[0]
		}
	case "builtin max", "builtin min":
		if len(args) == 2 && args[0].kind == 'i' && args[1].kind == 'i' {
			a, b := args[0].p, args[1].p
			if x.polyKey(a) > x.polyKey(b) {
				a, b = b, a
			}
			return pval{kind: 'i', p: x.app(strings.TrimPrefix(name, "builtin "), nil, a, b)}
		}
	case "math.Abs":
		if args[0].kind == 'i' {
			return pval{kind: 'i', p: x.abs(args[0].p)}
		}
	}
	g := c.StaticCallee()
	if g != nil && x.p.InRepo(g) {
		switch {
		case g.Name() == "GetInt" && len(args) == 2 && args[1].base != nil && args[1].base.cv != nil:
			key := constant.StringVal(args[1].base.cv)
			return pval{kind: 't', tup: []pval{{kind: 'i', p: x.atom(x.in.Pure("parm:" + key))}, {kind: 'b', cond: &pcond{op: 'u', at: x.in.Pure("has:" + key)}}}}
		case g.Name() == "GetBits" && len(args) == 3 && args[0].kind == 's' && args[1].kind == 'i' && args[2].kind == 'i':
			return pval{kind: 'i', p: x.app("bits", args[0].base, x.add(args[1].p, x.mul(args[0].p, x.num(8)), 1), args[2].p)}
		case g.Name() == "SetBits" && len(args) == 4 && args[0].kind == 's' && args[1].kind == 'i' && args[2].kind == 'i' && args[3].kind == 'i':
			pos := x.add(args[1].p, x.mul(args[0].p, x.num(8)), 1)
			pa.events = append(pa.events, pevent{kind: "set", base: args[0].base, pos: &pos, n: args[2].p, val: args[3].p, in: y, loop: append([]*ploop{}, pa.loops...)})
			return pval{}
		}
	}
	for _, a := range args {
		if a.kind == 's' && (a.base == x.data || a.base.hasOp("make")) && name != "builtin cap" {
			pa.events = append(pa.events, pevent{kind: "many", base: a.base, in: y})
		}
	}
	return x.opaque(fr, y)
}

// argArray is the array behind the variable arguments of append.
func argArray(v ssa.Value) ssa.Value {
	if s, ok := v.(*ssa.Slice); ok {
		return s.X
	}
	return v
}

func (x *predictor) store(pa *ppath, fr *pframe, y *ssa.Store) {
	ia, ok := y.Addr.(*ssa.IndexAddr)
	if !ok {
		return
	}
	s, i, v := x.get(pa, fr, ia.X), x.get(pa, fr, ia.Index), x.get(pa, fr, y.Val)
	if s.kind != 's' {
		return
	}
	if s.base.hasOp("arr") {
		if at, ok := deref(ia.X.Type()).Underlying().(*types.Array); ok && at.Len() == 1 {
			pa.env[pkey{nil, ia.X}] = v
		} else {
			delete(pa.env, pkey{nil, ia.X})
		}
		return
	}
	if i.kind != 'i' || v.kind != 'i' {
		pa.events = append(pa.events, pevent{kind: "many", base: s.base, in: y})
		return
	}
	pos := x.add(s.p, i.p, 1)
	pa.events = append(pa.events, pevent{kind: "out", base: s.base, pos: &pos, val: v.p, in: y, loop: append([]*ploop{}, pa.loops...)})
}

// ---------------------------------------------------------------- judging

func (x *predictor) fail(pa *ppath, in ssa.Instruction, msg string) {
	pos := x.p.InstrPos(in)
	key := pos + msg
	x.r.ob(false)
	if x.found[key] {
		return
	}
	x.found[key] = true
	x.r.fail("predictor", fnName(in.Parent()), pos, msg, pa.trail)
}

func (x *predictor) skip(format string, a ...any) {
	x.unknown[fmt.Sprintf(format, a...)] = true
}

func (x *predictor) parm(name string, dflt int64) poly {
	if x.missing == name {
		return x.num(dflt)
	}
	return x.atom(x.in.Pure("parm:" + name))
}

func (x *predictor) bpc() poly     { return x.parm("BitsPerComponent", 8) }
func (x *predictor) colors() poly  { return x.parm("Colors", 1) }
func (x *predictor) columns() poly { return x.parm("Columns", 1) }

// ofParms: the value depends on the parameters alone.
func (x *predictor) ofParms(p poly) bool {
	set := map[*Term]bool{}
	x.atoms(p, set)
	for t := range set {
		if i := x.info[t]; i != nil && (i.op == "div" || i.op == "mod" || i.op == "max" || i.op == "min") {
			continue
		}
		if !t.hasOp("parm:") {
			return false
		}
	}
	return true
}

// upTo8 decides w == ceil(bits/8) on the path.
func (x *predictor) upTo8(pa *ppath, w, bits poly) bool {
	if samePoly(w, x.div(x.add(bits, x.num(7), 1), x.num(8))) {
		return true
	}
	q, m := x.div(bits, x.num(8)), x.mod(bits, x.num(8))
	if samePoly(w, x.add(x.div(x.add(bits, x.num(-1), 1), x.num(8)), x.num(1), 1)) {
		return true
	}
	if samePoly(w, q) && x.no(pa.qs, x.ge(m, x.num(1))) {
		return true
	}
	if samePoly(w, x.add(q, x.num(1), 1)) && x.no(pa.qs, x.lt(m, x.num(1))) {
		return true
	}
	if t := single(w); t != nil && x.info[t] != nil && x.info[t].op == "max" {
		for n, p := range x.info[t].ps {
			if v, ok := isConst(p); ok && v <= 1 && x.upTo8(pa, x.info[t].ps[1-n], bits) {
				return true
			}
		}
	}
	// decided by the size
	if v, ok := isConst(w); ok && v >= 1 && x.no(pa.qs, x.lt(bits, x.num(8*v-7))) && x.no(pa.qs, x.lt(x.num(8*v), bits)) {
		return true
	}
	return false
}

// back is reached at the end of an iteration.
func (x *predictor) back(pa *ppath, l *ploop, phis []*ssa.Phi, vals []pval) {
	// the buffer stays the same
	for i, phi := range phis {
		if vals[i].kind == 's' {
			if was := pa.env[pkey{l.fr, phi}]; was.kind != 's' || was.base != vals[i].base || !samePoly(was.p, vals[i].p) {
				x.skip("%s: a slice moves through a loop", x.p.InstrPos(phi))
			}
		}
	}
	step := map[*Term]poly{}
	for i, phi := range phis {
		if vals[i].kind == 'i' {
			step[l.phis[phi]] = vals[i].p
		}
	}
	x.cur = pa
	evs := pa.events[min(l.events, len(pa.events)):]
	for n, ev := range evs {
		if ev.base == x.data {
			for _, q := range pa.loops {
				x.tiffs[q.l] = true
			}
		}
		if len(ev.loop) == 0 || ev.loop[len(ev.loop)-1] != l {
			continue
		}
		switch ev.kind {
		case "out":
			x.png(pa, l, step, ev, n == 0 && len(evs) == 1)
		case "set":
			x.tiff(pa, l, step, ev)
		}
	}
	x.nested(pa, l, step)
}

func (x *predictor) at(p poly, m map[*Term]poly) poly {
	return x.subst(p, func(t *Term) (poly, bool) { v, ok := m[t]; return v, ok })
}

// png judges a byte that is put out.
func (x *predictor) png(pa *ppath, l *ploop, step map[*Term]poly, ev pevent, alone bool) {
	if ev.base == x.data {
		x.skip("%s: bytes of the data are changed in place", x.p.InstrPos(ev.in))
		return
	}
	if len(ev.loop) < 2 || len(x.unknown) > 50 {
		x.skip("%s: a byte is put out outside of loops over rows and columns", x.p.InstrPos(ev.in))
		return
	}
	val := x.strip(ev.val)
	var raws, near []*Term
	set := map[*Term]bool{}
	x.atoms(val, set)
	for t := range set {
		i := x.info[t]
		if i == nil {
			continue
		}
		switch {
		case i.op == "load" && i.base == x.data:
			raws = append(raws, t)
		case i.op == "load" && i.base == ev.base:
			near = append(near, t)
		case i.op == "load":
			x.skip("%s: a byte comes from another buffer", x.p.InstrPos(ev.in))
			return
		}
	}
	for t := range set {
		if x.info[t] == nil && !t.hasOp("parm:") && !t.hasOp("phi") && !t.hasOp("len:") {
			x.skip("%s: the byte is made of something unknown", x.p.InstrPos(ev.in))
			return
		}
	}
	if len(raws) != 1 || val.k[raws[0]] != 1 {
		if len(raws) == 0 {
			x.skip("%s: the byte has no raw byte", x.p.InstrPos(ev.in))
		} else {
			x.fail(pa, ev.in, "the byte put out is not one raw byte plus a prediction")
		}
		return
	}
	R := x.info[raws[0]].ps[0]
	outer := ev.loop[len(ev.loop)-2]
	// the first raw byte of the row comes after the tag
	first := x.at(R, l.init)
	inner := false
	for t := range l.init {
		if R.k[t] != 0 {
			inner = true
		}
	}
	if !inner {
		x.skip("%s: the raw byte does not move with the loop", x.p.InstrPos(ev.in))
		return
	}
	M := x.add(first, x.num(1), -1)
	for t := range l.init {
		ms := map[*Term]bool{}
		x.atoms(M, ms)
		if ms[t] {
			x.skip("%s: the place of the tag is not clear", x.p.InstrPos(ev.in))
			return
		}
	}
	if d := x.add(x.at(R, step), R, -1); !samePoly(d, x.num(1)) {
		if _, ok := isConst(d); ok {
			x.fail(pa, ev.in, "the columns of a row are not taken one by one")
		} else {
			x.skip("%s: steps of the columns", x.p.InstrPos(ev.in))
		}
		return
	}
	if !alone {
		x.fail(pa, ev.in, "more than one byte is put out for a raw byte")
		return
	}
	x.rows[l.l] = &prow{R: R, M: M}
	x.puts[ev.base] = true
	if n, ok := x.made[ev.base]; ok && ev.pos == nil {
		if v, ok := isConst(n); !ok || v != 0 {
			x.fail(pa, ev.in, "bytes are appended to a buffer that is not empty at the start")
			return
		}
	}
	// the width of a row
	rw, ok := x.stride(outer, M)
	if !ok {
		x.skip("%s: the rows are not at a fixed distance", x.p.InstrPos(ev.in))
		return
	}
	W := x.add(rw, x.num(1), -1)
	bits := x.mul(x.mul(x.bpc(), x.colors()), x.columns())
	if !x.upTo8(pa, W, bits) {
		if x.ofParms(W) {
			x.fail(pa, ev.in, "a row does not have a tag and as many bytes as its columns need: "+x.polyKeyString(rw))
		} else {
			x.skip("%s: width of a row", x.p.InstrPos(ev.in))
		}
		return
	}
	l.row, outer.row = &prow{R: R, M: M, W: W}, &prow{M: M, W: W}
	x.work(ev)
	if v, ok := isConst(x.at(M, outer.init)); ok && v != 0 {
		x.fail(pa, ev.in, "the first row does not start at the first byte")
		return
	}
	col := x.add(x.add(R, M, -1), x.num(1), -1)
	// where the byte goes
	var rowStarts []poly
	if t := single(M); t != nil {
		rowStarts = append(rowStarts, x.mul(x.div(M, rw), W), x.add(M, x.div(M, rw), -1))
	}
	var rowVar *Term
	for t, i := range outer.init {
		if v, ok := isConst(i); !ok || v != 0 {
			continue
		}
		if d, ok := x.stride(outer, x.atom(t)); ok && samePoly(d, x.num(1)) {
			rowVar = t
			rowStarts = append(rowStarts, x.mul(x.atom(t), W), x.add(M, x.atom(t), -1))
		}
	}
	for t, i := range outer.init {
		// a variable that moves with the rows
		if v, ok := isConst(i); ok && v == 0 {
			if d, ok := x.stride(outer, x.atom(t)); ok && samePoly(d, W) {
				rowStarts = append(rowStarts, x.atom(t))
			}
		}
	}
	outlen := x.atom(x.in.Pure("len:"+ev.base.String(), ev.base))
	// a count of the bytes put out
	var running, begun *Term
	for phi, t := range l.phis {
		if u, ok := l.init[t]; ok && samePoly(step[t], x.add(x.atom(t), x.num(1), 1)) && single(u) != nil {
			for q, w := range outer.phis {
				if i, ok := outer.init[w]; !ok || w != single(u) || len(i.k) > 0 || i.c != 0 {
					continue
				}
				all := true
				for n, e := range q.Edges {
					if outer.l.Body[q.Block().Preds[n]] && e != phi {
						all = false
					}
				}
				if all && outer.fr == l.fr {
					running, begun = t, w
					rowStarts = append(rowStarts, x.atom(w))
				}
			}
		}
	}
	var places []poly
	for _, s := range rowStarts {
		places = append(places, x.add(s, col, 1))
	}
	if running != nil {
		places = append(places, x.atom(running))
	}
	if ev.pos == nil {
		places = append(places, outlen)
	} else {
		ok := false
		for _, q := range places {
			ok = ok || samePoly(q, *ev.pos)
		}
		if !ok {
			places = []poly{*ev.pos}
			x.skip("%s: place of the byte", x.p.InstrPos(ev.in))
			return
		}
	}
	bc := x.mul(x.bpc(), x.colors())
	// the neighbours
	A, B, C := x.in.Pure("byte:left"), x.in.Pure("byte:up"), x.in.Pure("byte:upleft")
	class := map[*Term]*Term{}
	var all []*Term
	for _, q := range append(append([]ineq{}, pa.qs...), val) {
		as := map[*Term]bool{}
		x.atoms(q, as)
		for t := range as {
			if i := x.info[t]; i != nil && i.op == "load" && i.base == ev.base {
				all = append(all, t)
			}
		}
	}
	rho := x.in.Pure("row")
	norm := func(p poly) poly {
		return x.subst(p, func(t *Term) (poly, bool) {
			switch t {
			case rowVar:
				return x.atom(rho), true
			case begun:
				return x.mul(x.atom(rho), W), true
			case running:
				return x.add(x.mul(x.atom(rho), W), col, 1), true
			}
			if samePoly(x.atom(t), x.div(M, rw)) {
				return x.atom(rho), true
			}
			if t == single(M) {
				return x.mul(x.atom(rho), rw), true
			}
			return poly{}, false
		})
	}
	bad := false
	for _, t := range append(all, near...) {
		if class[t] != nil {
			continue
		}
		I := x.info[t].ps[0]
		wrong := false
		for _, P := range places {
			d := norm(x.add(P, I, -1))
			switch {
			case samePoly(d, W):
				class[t] = B // in rows of one pixel nothing is to the left
			case x.upTo8(pa, d, bc):
				class[t] = A
			case x.upTo8(pa, x.add(d, W, -1), bc):
				class[t] = C
			default:
				wrong = wrong || x.ofParms(x.subst(d, func(t *Term) (poly, bool) { return x.num(1), t == rho }))
				continue
			}
			break
		}
		if class[t] == nil {
			if wrong {
				used := false
				for _, u := range near {
					used = used || u == t
				}
				if used || val.k[t] != 0 {
					x.fail(pa, ev.in, "a neighbour is used that is not one pixel, one row or both back")
					return
				}
			}
			bad = true
		}
	}
	if bad {
		x.skip("%s: a neighbour can not be placed", x.p.InstrPos(ev.in))
		return
	}
	ren := func(t *Term) (poly, bool) {
		if c := class[t]; c != nil {
			return x.atom(c), true
		}
		return poly{}, false
	}
	got := x.strip(x.subst(val, ren))
	var qs []ineq
	for _, q := range pa.qs {
		qs = append(qs, x.subst(q, ren))
	}
	var px poly
	px = x.div(x.add(bc, x.num(7), 1), x.num(8))
	// the same in the form of the path
	pxq, pxm := x.div(bc, x.num(8)), x.mod(bc, x.num(8))
	eq := func(a, b poly) []ineq { return []ineq{x.ge(a, b), x.ge(b, a)} }
	if x.mentions(qs, pxq) || x.mentions(qs, pxm) {
		// ceil = quotient, plus one if there is a rest
		if x.no(qs, x.ge(pxm, x.num(1))) {
			qs = append(qs, eq(px, pxq)...)
		} else if x.no(qs, x.lt(pxm, x.num(1))) {
			qs = append(qs, eq(px, x.add(pxq, x.num(1), 1))...)
		}
	}
	qs = append(qs, x.ge(px, x.num(1)), x.ge(col, x.num(0)), x.ge(x.add(W, x.num(1), -1), col), x.ge(W, x.num(1)), x.ge(x.bpc(), x.num(1)), x.ge(x.colors(), x.num(1)), x.ge(bc, x.num(1)))
	forms := map[*Term]bool{}
	for _, q := range qs {
		x.atoms(q, forms)
	}
	for t := range forms {
		if i := x.info[t]; i != nil && i.op == "max" && x.upTo8(pa, x.atom(t), bc) {
			qs = append(qs, eq(px, x.atom(t))...)
		}
	}
	zeroes := func(p poly) []ineq {
		out := eq(x.num(p.c), x.num(0))
		for t := range p.k {
			out = append(out, eq(x.atom(t), x.num(0))...)
		}
		return out
	}
	if len(rowStarts) > 0 {
		qs = append(qs, eq(outlen, x.add(rowStarts[0], col, 1))...)
		for _, s := range rowStarts[1:] {
			qs = append(qs, eq(rowStarts[0], s)...)
		}
	}
	if running != nil {
		qs = append(qs, eq(x.atom(running), x.add(x.atom(begun), col, 1))...)
	}
	above := []ineq{x.ge(M, rw)}
	none := zeroes(M)
	for _, s := range rowStarts {
		above = append(above, x.ge(s, W))
		none = append(none, zeroes(s)...)
	}
	if len(rowStarts) == 0 {
		above = append(above, x.ge(outlen, x.add(W, col, 1)))
		none = append(none, eq(outlen, col)...)
	}
	if rowVar != nil {
		above = append(above, x.ge(x.atom(rowVar), x.num(1)))
		none = append(none, eq(x.atom(rowVar), x.num(0))...)
	}
	// a bool kept for the first row is not understood: the tests of the path must decide
	raw := x.atom(raws[0])
	method := x.load(x.data, M)
	x.judged[ev.in] = true
	x.outs["bytes"]++
	for m := int64(0); m <= 4; m++ {
		mq := append(append([]ineq{}, qs...), eq(method, x.num(m))...)
		skipped := false
		for _, n := range pa.ne {
			d := x.add(n, method, -1)
			if v, ok := isConst(d); ok && v == -m {
				skipped = true
			}
			d = x.add(n, method, 1)
			if v, ok := isConst(d); ok && v == m {
				skipped = true
			}
		}
		if skipped || x.no(mq) {
			continue
		}
		x.methods[m] = true
		for _, L := range []bool{true, false} {
			for _, U := range []bool{true, false} {
				fs := append([]ineq{}, mq...)
				if L {
					fs = append(fs, x.ge(col, px))
				} else {
					fs = append(fs, x.lt(col, px))
				}
				if U {
					fs = append(fs, above...)
				} else {
					fs = append(fs, none...)
				}
				if x.no(fs) {
					continue
				}
				a, b, c := x.num(0), x.num(0), x.num(0)
				if L {
					a = x.atom(A)
				}
				if U {
					b = x.atom(B)
				}
				if L && U {
					c = x.atom(C)
				}
				if why := x.predict(fs, m, x.add(got, raw, -1), a, b, c); why != "" {
					if what := x.unclear(pa, ev, rowStarts, M); what != "" {
						x.skip("%s: a test is not understood: %s", x.p.InstrPos(ev.in), what)
						return
					}
					where := map[bool]string{true: "inside the row", false: "at its start"}[L] + map[bool]string{true: "", false: ", in the first row"}[U]
					x.fail(pa, ev.in, fmt.Sprintf("method %d, %s: %s", m, where, why))
					return
				}
				x.r.ob(true)
			}
		}
	}
}

// mentions: the atom of p occurs in the inequalities.
func (x *predictor) mentions(qs []ineq, p poly) bool {
	t := single(p)
	if t == nil {
		return false
	}
	for _, q := range qs {
		as := map[*Term]bool{}
		x.atoms(q, as)
		if as[t] {
			return true
		}
	}
	return false
}

func (x *predictor) polyKeyString(p poly) string {
	var parts []string
	for _, t := range sortedTerms(p.k) {
		parts = append(parts, fmt.Sprintf("%d*%s", p.k[t], x.show(t)))
	}
	parts = append(parts, itoa(p.c))
	return strings.Join(parts, " + ")
}

func (x *predictor) show(t *Term) string {
	if i := x.info[t]; i != nil {
		var s []string
		for _, p := range i.ps {
			s = append(s, x.polyKeyString(p))
		}
		return i.op + "(" + strings.Join(s, ", ") + ")"
	}
	if t.is("mon") {
		var s []string
		for _, u := range t.args {
			s = append(s, x.show(u))
		}
		return strings.Join(s, "*")
	}
	return strings.TrimPrefix(t.op, "parm:")
}

// predict compares the prediction with what the method says ("" when it agrees).
func (x *predictor) predict(qs []ineq, m int64, got, a, b, c poly) string {
	same := func(fs []ineq, want poly) bool {
		d := x.strip(x.add(got, want, -1))
		if v, ok := isConst(d); ok {
			return v%256 == 0
		}
		return x.no(fs, x.add(d, x.num(1), -1)) && x.no(fs, x.lt(d, x.num(0)))
	}
	switch m {
	case 0:
		if !same(qs, x.num(0)) {
			return "the raw byte is not taken over as it is"
		}
	case 1:
		if !same(qs, a) {
			return "the prediction is not the left neighbour (or 0 where there is none)"
		}
	case 2:
		if !same(qs, b) {
			return "the prediction is not the upper neighbour (or 0 where there is none)"
		}
	case 3:
		if !same(qs, x.div(x.add(a, b, 1), x.num(2))) {
			return "the prediction is not half the sum of the left and upper neighbours"
		}
	case 4:
		ds := []poly{x.add(b, c, -1), x.add(a, c, -1), x.add(x.add(a, b, 1), c, -2)}
		ab := []poly{x.abs(ds[0]), x.abs(ds[1]), x.abs(ds[2])}
		for s := 0; s < 8; s++ {
			fs := append([]ineq{}, qs...)
			for i := range ds {
				if s>>i&1 == 0 {
					fs = append(fs, x.ge(ds[i], x.num(0)), x.ge(ab[i], ds[i]), x.ge(ds[i], ab[i]))
				} else {
					n := x.add(x.num(0), ds[i], -1)
					fs = append(fs, x.ge(n, x.num(1)), x.ge(ab[i], n), x.ge(n, ab[i]))
				}
			}
			if x.no(fs) {
				continue
			}
			pa, pb, pc := ab[0], ab[1], ab[2]
			for _, cs := range []struct {
				w  poly
				qs []ineq
			}{
				{a, []ineq{x.ge(pb, pa), x.ge(pc, pa)}},
				{b, []ineq{x.lt(pb, pa), x.ge(pc, pb)}},
				{b, []ineq{x.lt(pc, pa), x.ge(pc, pb)}},
				{c, []ineq{x.lt(pb, pa), x.lt(pc, pb)}},
				{c, []ineq{x.lt(pc, pa), x.lt(pc, pb)}},
			} {
				gs := append(append([]ineq{}, fs...), cs.qs...)
				if x.no(gs) {
					continue
				}
				if !same(gs, cs.w) {
					return "the prediction is not the neighbour the Paeth rule chooses (nearest to left + up - upper left; left before up before upper left)"
				}
			}
		}
	}
	return ""
}

// moves gives the values in the next iteration of the variables that move by a fixed distance.
func (x *predictor) moves(l *ploop) map[*Term]poly {
	moved := map[*Term]poly{}
	for phi, t := range l.phis {
		for i, e := range phi.Edges {
			if !l.l.Body[phi.Block().Preds[i]] {
				continue
			}
			if d, ok := x.distance(l, e, phi, 0); ok {
				moved[t] = x.add(x.atom(t), d, 1)
			}
		}
	}
	return moved
}

// distance is v - phi.
func (x *predictor) distance(l *ploop, v ssa.Value, phi *ssa.Phi, depth int) (poly, bool) {
	if v == phi {
		return x.num(0), true
	}
	b, ok := v.(*ssa.BinOp)
	if !ok || b.Op != token.ADD && b.Op != token.SUB || depth > 5 {
		return poly{}, false
	}
	if d, ok := x.distance(l, b.X, phi, depth+1); ok {
		if k, ok := x.fixed(l, b.Y); ok {
			if b.Op == token.SUB {
				k = x.add(x.num(0), k, -1)
			}
			return x.add(d, k, 1), true
		}
	}
	if b.Op == token.ADD {
		if d, ok := x.distance(l, b.Y, phi, depth+1); ok {
			if k, ok := x.fixed(l, b.X); ok {
				return x.add(d, k, 1), true
			}
		}
	}
	return poly{}, false
}

// stride is how far a place moves in one iteration of a loop.
func (x *predictor) stride(l *ploop, p poly) (poly, bool) {
	moved := x.moves(l)
	for t := range p.k {
		for _, u := range x.factors(t) {
			for _, q := range l.phis {
				if u == q {
					if _, ok := moved[u]; !ok {
						return poly{}, false
					}
				}
			}
		}
	}
	d := x.add(x.at(p, moved), p, -1)
	set := map[*Term]bool{}
	x.atoms(d, set)
	for t := range set {
		if t.hasOp("phi") || t.hasOp("round:") {
			return poly{}, false
		}
	}
	return d, true
}

// expand writes the variables of the loops as what they start with plus so many steps.
func (x *predictor) expand(p poly, loops []*ploop) poly {
	for n := len(loops) - 1; n >= 0; n-- {
		l := loops[n]
		m := map[*Term]poly{}
		for t, next := range x.moves(l) {
			if i, ok := l.init[t]; ok {
				m[t] = x.add(i, x.mul(x.round(l), x.add(next, x.atom(t), -1)), 1)
			}
		}
		p = x.at(p, m)
	}
	return p
}

// round counts the iterations of a loop.
func (x *predictor) round(l *ploop) poly {
	return x.atom(x.in.Pure(fmt.Sprintf("round:%d:%d", l.fr.id, l.l.Header.Index)))
}

// fixed is the value of something that does not change in the loop.
func (x *predictor) fixed(l *ploop, v ssa.Value) (poly, bool) {
	pv := x.invariant(x.cur, l.fr, l.l, v)
	return pv.p, pv.kind == 'i'
}

func (x *predictor) invariant(pa *ppath, fr *pframe, l *Loop, v ssa.Value) pval {
	in, ok := v.(ssa.Instruction)
	if !ok || !l.Body[in.Block()] {
		return x.get(pa, fr, v)
	}
	switch y := v.(type) {
	case *ssa.BinOp:
		a, b := x.invariant(pa, fr, l, y.X), x.invariant(pa, fr, l, y.Y)
		if a.kind == 'i' && b.kind == 'i' {
			return x.arith(y, a, b)
		}
	case *ssa.Convert:
		a := x.invariant(pa, fr, l, y.X)
		if b, ok := y.Type().Underlying().(*types.Basic); ok && a.kind == 'i' && b.Info()&types.IsInteger != 0 {
			return pval{kind: 'i', p: x.fit(a.p, y.Type())}
		}
	}
	return pval{}
}

// nested judges the end of an iteration of an outer loop.
func (x *predictor) nested(pa *ppath, l *ploop, step map[*Term]poly) {
	row := x.rows[l.l]
	if row == nil {
		return
	}
	for _, ev := range pa.events[min(l.events, len(pa.events)):] {
		if ev.kind == "out" || ev.kind == "many" {
			return
		}
	}
	x.fail(pa, l.l.Header.Instrs[0], "an iteration over the columns may put out nothing")
}

// unclear names a test of the path that can not be related to rows and columns.
func (x *predictor) unclear(pa *ppath, ev pevent, starts []poly, M poly) string {
	for t := range pa.lits {
		if !t.hasOp("has:") {
			return t.String()
		}
	}
	known := map[*Term]bool{}
	for _, p := range append(append([]poly{}, starts...), M, ev.val) {
		x.atoms(p, known)
	}
	for _, q := range append(append([]ineq{}, pa.qs...), pa.ne...) {
		as := map[*Term]bool{}
		x.atoms(q, as)
		for t := range as {
			i := x.info[t]
			switch {
			case i != nil && (i.op == "div" || i.op == "mod" || i.op == "wrap" || i.op == "abs" || i.op == "max" || i.op == "min"):
			case i != nil && i.op == "load" && (i.base == x.data || i.base == ev.base):
			case t.hasOp("parm:"), known[t], t.hasOp("len:") && len(t.args) == 1 && (t.args[0] == x.data || t.args[0] == ev.base) && !t.is("len:cut"), t.hasOp("global:"):
			default:
				return x.show(t)
			}
		}
	}
	return ""
}

func (x *predictor) dataLen() poly { return x.atom(x.in.Pure("len:"+x.data.String(), x.data)) }

func (x *predictor) clear(pa *ppath) bool {
	for t := range pa.lits {
		if !t.hasOp("has:") {
			return false
		}
	}
	return true
}

// left is reached when a loop is left.
func (x *predictor) left(pa *ppath, l *ploop, from *ssa.BasicBlock) {
	in := l.l.Header.Instrs[len(l.l.Header.Instrs)-1]
	n := x.dataLen()
	if l.row == nil && l.span == nil || !x.clear(pa) {
		return
	}
	x.cur = pa
	next := func(p poly) poly { return p }
	worked := false // the iteration that is left has done its work
	for _, ev := range pa.events[min(l.events, len(pa.events)):] {
		worked = worked || len(ev.loop) > 0 && ev.loop[len(ev.loop)-1] == l && from != l.l.Header
	}
	if from != nil && from != l.l.Header && from.Parent() == l.fr.f {
		if l.far {
			return
		}
		if worked || l.done != nil && l.done.Dominates(from) {
			moved := x.moves(l)
			next = func(p poly) poly { return x.at(p, moved) }
		}
	}
	if l.row != nil {
		R, M, W := l.row.R, next(l.row.M), l.row.W
		if R.k != nil {
			R = next(R)
			col := x.add(x.add(R, M, -1), x.num(1), -1)
			if !x.no(pa.qs, x.lt(R, n), x.lt(col, W)) {
				x.fail(pa, in, "columns of a row may be left out")
				return
			}
		} else if !x.no(append(x.rowCount(pa, l, x.add(W, x.num(1), 1)), pa.qs...), x.lt(M, n)) {
			x.fail(pa, in, "rows may be left out")
			return
		}
		x.r.ob(true)
	}
	if s := l.span; s != nil {
		var qs []ineq
		for _, q := range append(x.rowCount(pa, l, s.width), pa.qs...) {
			qs = append(qs, x.expand(q, l.inside))
		}
		for _, d := range x.divided(qs, s.width) {
			for _, e := range []poly{x.round(l), x.add(x.round(l), x.num(1), 1)} {
				if x.no(qs, x.lt(e, d)) {
					qs = append(qs, x.mul(x.add(e, d, -1), s.width))
				}
			}
		}
		next = func(p poly) poly { return p }
		if worked || l.done != nil && from != nil && from != l.l.Header {
			k := single(x.round(l))
			next = func(p poly) poly { return x.at(p, map[*Term]poly{k: x.add(x.atom(k), x.num(1), 1)}) }
		}
		past := pa.past || x.no(qs, x.lt(s.pos, x.mul(n, x.num(8)))) || x.no(qs, x.lt(next(s.pos), x.mul(n, x.num(8))))
		pa.past = past
		if s.rows && !past {
			x.fail(pa, in, "rows of the image may be left out")
		} else if !s.rows && !past && !x.no(qs, x.lt(next(x.round(l)), s.count)) && !x.no(qs, x.lt(x.round(l), s.count)) {
			x.fail(pa, in, "values of a row may be left out")
		} else {
			x.r.ob(true)
		}
	}
}

// divided lists the numbers of rows that were divided out.
func (x *predictor) divided(qs []ineq, rw poly) []poly {
	set := map[*Term]bool{}
	for _, q := range qs {
		x.atoms(q, set)
	}
	var out []poly
	for _, d := range sortedSet(set) {
		if i := x.info[d]; i != nil && i.op == "div" && samePoly(i.ps[1], rw) {
			out = append(out, x.atom(d))
		}
	}
	return out
}

// work notes where an iteration of each loop has done its work.
func (x *predictor) work(ev pevent) {
	for n, q := range ev.loop {
		b := ev.in.Block()
		if n+1 < len(ev.loop) {
			b = ev.loop[n+1].l.Header
		}
		if q.fr.f == b.Parent() {
			q.done = b
		} else {
			q.far = true
		}
	}
}

// rowCount relates a number of rows that was divided out to the length it came from.
func (x *predictor) rowCount(pa *ppath, l *ploop, rw poly) []ineq {
	var out []ineq
	for _, D := range x.divided(pa.qs, rw) {
		low := x.add(x.info[single(D)].ps[0], x.mul(D, rw), -1)
		out = append(out, low, x.add(x.add(rw, x.num(1), -1), low, -1))
		for t := range l.init {
			if x.no(pa.qs, x.lt(x.atom(t), D)) {
				out = append(out, x.mul(x.add(x.atom(t), D, -1), rw))
			}
		}
	}
	return out
}

// tiff judges a value that is changed in place.
func (x *predictor) tiff(pa *ppath, l *ploop, step map[*Term]poly, ev pevent) {
	if ev.base != x.data {
		x.skip("%s: values of another buffer are changed", x.p.InstrPos(ev.in))
		return
	}
	for _, q := range ev.loop {
		x.tiffs[q.l] = true
	}
	x.judged[ev.in] = true
	bpc, px := x.bpc(), x.mul(x.bpc(), x.colors())
	if !samePoly(ev.n, bpc) {
		if x.ofParms(ev.n) {
			x.fail(pa, ev.in, "the value changed does not have the bits of a component")
		} else {
			x.skip("%s: size of the value", x.p.InstrPos(ev.in))
		}
		return
	}
	rest := x.add(ev.val, x.app("bits", x.data, *ev.pos, bpc), -1)
	prev := single(rest)
	if prev == nil || x.info[prev] == nil || x.info[prev].op != "bits" || x.info[prev].base != x.data {
		for t := range ev.val.k {
			if i := x.info[t]; i == nil || i.op != "bits" {
				x.skip("%s: the value is made of something unknown", x.p.InstrPos(ev.in))
				return
			}
		}
		x.fail(pa, ev.in, "the new value is not the sum of the old one and that of the pixel to the left")
		return
	}
	i := x.info[prev]
	back := x.add(*ev.pos, i.ps[0], -1)
	if !samePoly(i.ps[1], bpc) || !samePoly(back, px) {
		if x.ofParms(i.ps[1]) && x.ofParms(back) {
			x.fail(pa, ev.in, "the value added is not the same component of the pixel to the left")
		} else {
			x.skip("%s: place of the value added", x.p.InstrPos(ev.in))
		}
		return
	}
	x.r.ob(true)
	x.outs["values"]++
	// the loops around it
	if len(ev.loop) < 2 || len(ev.loop) > 3 {
		x.skip("%s: nest of loops", x.p.InstrPos(ev.in))
		return
	}
	pos := x.expand(*ev.pos, ev.loop)
	zero := map[*Term]poly{}
	var strides []poly
	for _, q := range ev.loop {
		k := single(x.round(q))
		zero[k] = x.num(0)
		d := x.add(x.at(pos, map[*Term]poly{k: x.add(x.atom(k), x.num(1), 1)}), pos, -1)
		if !x.ofParms(d) {
			x.skip("%s: steps of the place", x.p.InstrPos(ev.in))
			return
		}
		strides = append(strides, d)
	}
	start := x.at(pos, zero)
	if !samePoly(start, px) {
		if x.ofParms(start) {
			x.fail(pa, ev.in, "the first value changed is not that of the second pixel of a row")
		} else {
			x.skip("%s: first place", x.p.InstrPos(ev.in))
		}
		return
	}
	W, whole := x.add(strides[0], x.num(0), 1), true
	for t, k := range W.k {
		whole = whole && k%8 == 0
		W.k[t] = k / 8
	}
	whole = whole && W.c%8 == 0
	W.c /= 8
	bits := x.mul(px, x.columns())
	if !whole || !x.upTo8(pa, W, bits) {
		x.fail(pa, ev.in, "the rows changed are not as many bytes apart as their columns need")
		return
	}
	x.work(ev)
	delete(zero, single(x.round(ev.loop[0])))
	ev.loop[0].span = &pspan{pos: x.add(x.at(pos, zero), px, -1), rows: true, width: W}
	for n := 1; n < len(ev.loop); n++ {
		var count poly
		switch {
		case len(ev.loop) == 2 && samePoly(strides[n], bpc):
			count = x.mul(x.colors(), x.add(x.columns(), x.num(1), -1))
		case len(ev.loop) == 3 && samePoly(strides[n], px) && (!samePoly(px, bpc) || n == 1):
			count = x.add(x.columns(), x.num(1), -1)
		case len(ev.loop) == 3 && samePoly(strides[n], bpc):
			count = x.colors()
		default:
			x.fail(pa, ev.in, "the values changed are not one component or one pixel apart")
			return
		}
		ev.loop[n].span = &pspan{count: count, pos: pos, width: W}
	}
}

// returned judges what the whole function gives back.
func (x *predictor) returned(pa *ppath, in *ssa.Return, res []pval) {
	x.paths++
	for len(pa.loops) > 0 {
		l := pa.loops[len(pa.loops)-1]
		x.left(pa, l, in.Block())
		pa.loops = pa.loops[:len(pa.loops)-1]
	}
	if x.pass < 2 || len(res) != 1 || res[0].kind != 's' || !x.clear(pa) {
		return
	}
	changed := false
	for _, ev := range pa.events {
		changed = changed || ev.base == x.data
	}
	same := res[0].base == x.data && len(res[0].p.k) == 0 && res[0].p.c == 0 && res[0].cond == nil
	for _, q := range pa.qs {
		as := map[*Term]bool{}
		x.atoms(q, as)
		for t := range as {
			if i := x.info[t]; i != nil && i.op == "div" {
				if _, ok := isConst(i.ps[1]); !ok {
					return // a number of rows
				}
			}
		}
	}
	some := !x.no(pa.qs, x.ge(x.dataLen(), x.num(1)))
	lo, hi := int64(-1), int64(20)
	if x.missing == "Predictor" {
		lo, hi = 1, 1
	}
	for v := lo; v <= hi; v++ {
		if !x.possible(pa, v) {
			continue
		}
		x.r.ob(true)
		switch {
		case v == 2:
			if same && some && !changed && !pa.tiff && (!pa.looped || len(x.tiffs) > 0) {
				x.fail(pa, in, "predictor 2 leaves the data as it is")
				return
			}
			if x.puts[res[0].base] {
				x.fail(pa, in, "predictor 2 is taken for a PNG predictor")
				return
			}
		case v >= 10 && v <= 15:
			if res[0].base == x.data && some && !changed && (!pa.looped || len(x.puts) > 0) {
				x.fail(pa, in, fmt.Sprintf("predictor %d does not decode the rows", v))
				return
			}
		default:
			if x.puts[res[0].base] || same && (changed || pa.tiff) || res[0].base == x.data && !same {
				x.fail(pa, in, fmt.Sprintf("predictor %d changes the data", v))
				return
			}
		}
	}
}

// possible: the path may be taken with the predictor and usual parameters.
func (x *predictor) possible(pa *ppath, v int64) bool {
	for _, bpc := range []int64{1, 2, 4, 8, 16} {
		for _, colors := range []int64{1, 3, 4} {
			for _, columns := range []int64{1, 7, 5000} {
				vals := map[string]int64{"parm:Predictor": v, "parm:BitsPerComponent": bpc, "parm:Colors": colors, "parm:Columns": columns}
				f := func(t *Term) (poly, bool) {
					k, ok := vals[t.op]
					return x.num(k), ok
				}
				ok := true
				for _, q := range pa.qs {
					if k, c := isConst(x.subst(q, f)); c && k < 0 {
						ok = false
						break
					}
				}
				for _, q := range pa.ne {
					if k, c := isConst(x.subst(q, f)); c && k == 0 {
						ok = false
						break
					}
				}
				if ok {
					return true
				}
			}
		}
	}
	return false
}
