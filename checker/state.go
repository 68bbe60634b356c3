package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Fact is what is known about a term on a path.
type Fact struct {
	eq           *Term   // equal to this constant-like term
	neq          []*Term // different from these constant-like terms (sorted by id)
	lo, hi       int64
	hasLo, hasHi bool
	bs           *ByteSet
}

func (f *Fact) clone() *Fact {
	if f == nil {
		return &Fact{}
	}
	g := *f
	g.neq = append([]*Term(nil), f.neq...)
	if f.bs != nil {
		b := *f.bs
		g.bs = &b
	}
	return &g
}

type envKey struct {
	ctx int
	v   ssa.Value
}

type deferred struct {
	ctx  int
	in   *ssa.Defer
	args []*Term // callee value first for dynamic/invoke calls
}

// State is one abstract path state.
type State struct {
	env    map[envKey]*Term
	cells  map[*Term]*Term
	facts  map[*Term]*Fact
	zero   map[*Term]bool // allocations whose unwritten cells still hold the zero value
	defers []deferred
	flags  map[string]string
	pins   map[string]*Term
	trace  *traceNode
}

// traceNode records the branch decisions of the path for diagnostics (not part of the state identity).
type traceNode struct {
	prev *traceNode
	pos  string
	n    int
}

func newState() *State {
	return &State{env: map[envKey]*Term{}, cells: map[*Term]*Term{}, facts: map[*Term]*Fact{}, zero: map[*Term]bool{},
		flags: map[string]string{}, pins: map[string]*Term{}}
}

func (s *State) clone() *State {
	n := &State{env: make(map[envKey]*Term, len(s.env)), cells: make(map[*Term]*Term, len(s.cells)),
		facts: make(map[*Term]*Fact, len(s.facts)), zero: make(map[*Term]bool, len(s.zero)),
		flags: make(map[string]string, len(s.flags)), pins: make(map[string]*Term, len(s.pins)), trace: s.trace}
	for k, v := range s.env {
		n.env[k] = v
	}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	for k, v := range s.zero {
		n.zero[k] = v
	}
	for k, v := range s.flags {
		n.flags[k] = v
	}
	for k, v := range s.pins {
		n.pins[k] = v
	}
	n.defers = append([]deferred(nil), s.defers...)
	return n
}

func (e *Engine) key(s *State) string {
	var parts []string
	for k, v := range s.env {
		parts = append(parts, "e"+strconv.Itoa(k.ctx)+"."+strconv.Itoa(e.p.id(k.v))+"="+strconv.Itoa(v.id))
	}
	for k, v := range s.cells {
		parts = append(parts, "c"+strconv.Itoa(k.id)+"="+strconv.Itoa(v.id))
	}
	for k, f := range s.facts {
		parts = append(parts, "f"+strconv.Itoa(k.id)+"="+f.key())
	}
	for k := range s.zero {
		parts = append(parts, "z"+strconv.Itoa(k.id))
	}
	for k, v := range s.flags {
		parts = append(parts, "g"+k+"="+v)
	}
	for k, v := range s.pins {
		parts = append(parts, "p"+k+"="+strconv.Itoa(v.id))
	}
	for i, d := range s.defers {
		x := "d" + strconv.Itoa(i) + ":" + strconv.Itoa(d.ctx) + "." + strconv.Itoa(e.p.id(d.in))
		for _, a := range d.args {
			x += "," + strconv.Itoa(a.id)
		}
		parts = append(parts, x)
	}
	sort.Strings(parts)
	return strings.Join(parts, ";")
}

func (f *Fact) key() string {
	var sb strings.Builder
	if f.eq != nil {
		sb.WriteString("=" + strconv.Itoa(f.eq.id))
	}
	for _, n := range f.neq {
		sb.WriteString("!" + strconv.Itoa(n.id))
	}
	if f.hasLo {
		sb.WriteString("l" + strconv.FormatInt(f.lo, 10))
	}
	if f.hasHi {
		sb.WriteString("h" + strconv.FormatInt(f.hi, 10))
	}
	if f.bs != nil {
		fmt.Fprintf(&sb, "b%x", *f.bs)
	}
	return sb.String()
}

// ------------------------------------------------------------ comparisons

// Cmp builds the canonical term of a comparison; the result may be negated with Not.
func (e *Engine) Cmp(op token.Token, x, y *Term) *Term {
	in := e.in
	switch op {
	case token.NEQ:
		return e.Not(e.Cmp(token.EQL, x, y))
	case token.GEQ:
		return e.Not(e.Cmp(token.LSS, x, y))
	case token.GTR:
		return e.Cmp(token.LSS, y, x)
	case token.LEQ:
		return e.Not(e.Cmp(token.LSS, y, x))
	}
	if x.cv != nil && y.cv != nil && x.cv.Kind() == y.cv.Kind() {
		if op == token.EQL {
			return in.Bool(constant.Compare(x.cv, token.EQL, y.cv))
		}
		if x.cv.Kind() != constant.Bool {
			return in.Bool(constant.Compare(x.cv, op, y.cv))
		}
	}
	if x == y {
		return in.Bool(op == token.EQL)
	}
	// move constants of linear forms to one side
	if k, ok := y.intVal(); ok && strings.HasPrefix(x.op, "lin:") && x.kind == 'u' {
		l := in.lin(x)
		if l.c != 0 {
			c := l.c
			l.c = 0
			return e.Cmp(op, in.fromLin(l, x.typ), in.Int(k-c))
		}
	}
	if k, ok := x.intVal(); ok && strings.HasPrefix(y.op, "lin:") && y.kind == 'u' {
		l := in.lin(y)
		if l.c != 0 {
			c := l.c
			l.c = 0
			return e.Cmp(op, in.Int(k-c), in.fromLin(l, y.typ))
		}
	}
	// x - y == 0  ->  x == y
	if op == token.EQL {
		if x.isConst() || (!y.isConst() && x.id > y.id) {
			x, y = y, x
		}
		if b, ok := y.boolVal(); ok {
			if b {
				return x
			}
			return e.Not(x)
		}
		if x.isNil() && y.isNil() {
			return in.Bool(true)
		}
		return in.Pure("==", x, y)
	}
	return in.Pure("<", x, y)
}

func (e *Engine) Not(t *Term) *Term {
	if b, ok := t.boolVal(); ok {
		return e.in.Bool(!b)
	}
	if t.is("!") {
		return t.args[0]
	}
	return e.in.Pure("!", t)
}

// constLike reports whether two different such terms are certainly different values.
func (e *Engine) constLike(t *Term) bool {
	return t.kind == 'c' || t.kind == 's' || t.kind == 'g' || t.kind == 'f'
}

// nonNil reports whether t is certainly not nil.
func (e *Engine) nonNil(st *State, t *Term) bool {
	switch t.kind {
	case 'g', 'f':
		return true
	case 's':
		return true
	case 'c':
		return !t.isNil()
	case 'n':
		switch x := t.val.(type) {
		case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeClosure, *ssa.MakeChan:
			return true
		case *ssa.Convert:
			return false
		case *ssa.Call:
			if nonNilResults[commonName(x.Common())] {
				return true
			}
			if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
				return false
			}
		}
	case 'u':
		if strings.HasPrefix(t.op, "iface:") || strings.HasPrefix(t.op, "faddr:") || t.op == "iaddr" || strings.HasPrefix(t.op, "closure:") {
			return true
		}
	}
	if st != nil {
		if f := st.facts[t]; f != nil {
			for _, n := range f.neq {
				if n.isNil() {
					return true
				}
			}
			if f.eq != nil && !f.eq.isNil() {
				return true
			}
		}
		if t.typ != nil && (t.kind == 'n' || t.kind == 'u') {
			switch t.typ.Underlying().(type) {
			case *types.Slice, *types.Map:
				// what has elements is not nil
				if f := st.facts[e.in.PureT(types.Typ[types.Int], "len", t)]; f != nil && (f.hasLo && f.lo >= 1 || f.eq != nil && !isZeroInt(f.eq)) {
					return true
				}
			}
		}
	}
	return false
}

var nonNilResults = map[string]bool{
	"errors.New": true, "fmt.Errorf": true, "bytes.NewReader": true, "bytes.NewBuffer": true, "bufio.NewReader": true, "crypto/md5.New": true,
	"strings.NewReader": true, "regexp.MustCompile": true, "bufio.NewReaderSize": true, "bytes.NewBufferString": true,
}

// Resolve returns the constant a term is known to equal, or the term.
func (e *Engine) Resolve(st *State, t *Term) *Term {
	if t.isConst() {
		return t
	}
	if f := st.facts[t]; f != nil {
		if f.eq != nil {
			return f.eq
		}
		if f.bs != nil && f.bs.count() == 1 {
			for i := 0; i < 256; i++ {
				if f.bs.has(i) {
					return e.in.Int(int64(i))
				}
			}
		}
	}
	return t
}

// Bytes returns the set of values a byte-typed term can have.
func (e *Engine) Bytes(st *State, t *Term) ByteSet {
	if v, ok := t.intVal(); ok {
		if v >= 0 && v < 256 {
			return setRange(int(v), int(v))
		}
		return ByteSet{}
	}
	b := fullSet()
	if f := st.facts[t]; f != nil {
		if f.eq != nil {
			if v, ok := f.eq.intVal(); ok && v >= 0 && v < 256 {
				return setRange(int(v), int(v))
			}
		}
		if f.bs != nil {
			b = *f.bs
		}
	}
	return b
}

// Range returns the known integer bounds of a term.
func (e *Engine) Range(st *State, t *Term) (lo, hi int64, hasLo, hasHi bool) {
	if v, ok := t.intVal(); ok {
		return v, v, true, true
	}
	if t.is("len") || t.is("cap") {
		lo, hasLo = 0, true
		if f := st.facts[t.args[0]]; f != nil && t.is("len") {
			for _, n := range f.neq {
				if s, ok := n.strVal(); ok && s == "" {
					lo = 1
				}
			}
		}
	}
	if e.Exact && t.kind != 's' && !isByteType(t.typ) {
		if t.is("len") || t.is("cap") {
			hi, hasHi = maxLen, true
		} else if e.intTerm(t) {
			r := e.ival(st, t)
			return r.lo, r.hi, r.lo > -maxInt, r.hi < maxInt
		}
	}
	if isByteType(t.typ) {
		bs := e.Bytes(st, t)
		lo, hi, hasLo, hasHi = 0, 255, true, true
		for lo < 255 && !bs.has(int(lo)) {
			lo++
		}
		for hi > 0 && !bs.has(int(hi)) {
			hi--
		}
		return
	}
	if f := st.facts[t]; f != nil {
		if f.eq != nil {
			if v, ok := f.eq.intVal(); ok {
				return v, v, true, true
			}
		}
		if f.hasLo && (!hasLo || f.lo > lo) {
			lo, hasLo = f.lo, true
		}
		if f.hasHi {
			hi, hasHi = f.hi, true
		}
	}
	return
}

// membership recognises "byte b is in constant set" tests: it returns the byte term
// and the set for which the boolean term t is true.
func (e *Engine) membership(t *Term) (b *Term, set ByteSet, ok bool) {
	setArg := func(x *Term) (ByteSet, bool) {
		if s, ok := e.constBytes(x); ok {
			return setOf(s), true
		}
		return ByteSet{}, false
	}
	in := func(u *Term) (*Term, ByteSet, bool) {
		s, ok := setArg(u.args[0])
		b := u.args[1]
		if ok && b.hasOp("conv:") && isByteType(b.args[0].typ) && s.subsetOf(setRange(0, 127)) {
			b = b.args[0] // as a rune
		}
		if ok && isByteType(b.typ) {
			return b, s, true
		}
		return nil, ByteSet{}, false
	}
	if t.kind != 'u' {
		return
	}
	switch t.op {
	case "!":
		b, set, ok = e.membership(t.args[0])
		return b, set.not(), ok
	case "<", "==":
		x, y := t.args[0], t.args[1]
		idx := func(u *Term) (*Term, ByteSet, bool) {
			switch {
			case u.is("call:bytes.IndexByte"), u.is("call:strings.IndexByte"), u.is("call:slices.Index"), u.is("call:strings.IndexRune"), u.is("call:bytes.IndexRune"):
				return in(u)
			}
			return nil, ByteSet{}, false
		}
		if t.op == "<" {
			if v, k := y.intVal(); k && v == 0 { // idx < 0
				if b, s, k := idx(x); k {
					return b, s.not(), true
				}
			}
			if v, k := x.intVal(); k && v == -1 { // -1 < idx
				if b, s, k := idx(y); k {
					return b, s, true
				}
			}
		} else if v, k := y.intVal(); k && v == -1 {
			if b, s, k := idx(x); k {
				return b, s.not(), true
			}
		}
		// plain comparison with a constant
		if isByteType(x.typ) {
			if v, k := y.intVal(); k {
				var s ByteSet
				for i := 0; i < 256; i++ {
					if (t.op == "<" && int64(i) < v) || (t.op == "==" && int64(i) == v) {
						s.add(i)
					}
				}
				return x, s, true
			}
		}
		if isByteType(y.typ) && t.op == "<" {
			if v, k := x.intVal(); k {
				var s ByteSet
				for i := 0; i < 256; i++ {
					if v < int64(i) {
						s.add(i)
					}
				}
				return y, s, true
			}
		}
	case "call:strings.ContainsRune", "call:bytes.ContainsRune", "call:slices.Contains":
		return in(t)
	}
	return
}

// Eval decides a boolean term: 1 true, 0 false, -1 unknown.
func (e *Engine) Eval(st *State, t *Term) int {
	if b, ok := t.boolVal(); ok {
		if b {
			return 1
		}
		return 0
	}
	if f := st.facts[t]; f != nil && f.eq != nil {
		if b, ok := f.eq.boolVal(); ok {
			if b {
				return 1
			}
			return 0
		}
	}
	if t.kind != 'u' {
		return -1
	}
	if t.op == "!" {
		r := e.Eval(st, t.args[0])
		if r >= 0 {
			return 1 - r
		}
		return -1
	}
	if b, set, ok := e.membership(t); ok {
		cur := e.Bytes(st, b)
		if cur.subsetOf(set) {
			return 1
		}
		if cur.and(set).empty() {
			return 0
		}
		return -1
	}
	switch {
	case t.op == "==":
		x, y := e.Resolve(st, t.args[0]), e.Resolve(st, t.args[1])
		if x == y {
			return 1
		}
		if e.constLike(x) && e.constLike(y) {
			return 0
		}
		if y.isNil() && e.nonNil(st, x) || x.isNil() && e.nonNil(st, y) {
			return 0
		}
		for _, pr := range [][2]*Term{{t.args[0], y}, {t.args[1], x}} {
			if f := st.facts[pr[0]]; f != nil {
				for _, n := range f.neq {
					if n == pr[1] {
						return 0
					}
				}
			}
		}
		if v, ok := y.intVal(); ok {
			lo, hi, hl, hh := e.Range(st, x)
			if hl && v < lo || hh && v > hi {
				return 0
			}
		}
		if s, ok := y.strVal(); ok && s != "" && x.is("str") { // empty slices
			_ = s
		}
	case t.op == "<":
		l1, h1, hl1, hh1 := e.Range(st, t.args[0])
		l2, h2, hl2, hh2 := e.Range(st, t.args[1])
		if hh1 && hl2 && h1 < l2 {
			return 1
		}
		if hl1 && hh2 && l1 >= h2 {
			return 0
		}
		return e.entails(st, t)
	case strings.HasPrefix(t.op, "is:"):
		x := e.Resolve(st, t.args[0])
		if x.isNil() {
			return 0
		}
		if x.hasOp("iface:") {
			if x.op[6:] == t.op[3:] {
				return 1
			}
			if !strings.HasPrefix(t.op, "is:interface") {
				return 0
			}
		}
		for g, f := range st.facts {
			if g != t && g.hasOp("is:") && g.args[0] == t.args[0] && f.eq != nil {
				if b, ok := f.eq.boolVal(); ok && b {
					return 0
				}
			}
		}
	}
	return -1
}

// entails decides x < y from other known comparisons over the same linear form.
func (e *Engine) entails(st *State, t *Term) int {
	diff := func(t *Term) (string, string, int64, bool) {
		x, y := t.args[0], t.args[1]
		for _, a := range t.args {
			if a.typ != nil && !isWideInt(a.typ) || a.cv != nil && a.cv.Kind() != constant.Int {
				return "", "", 0, false
			}
		}
		l := e.in.lin(e.in.linAdd(x, y, -1, types.Typ[types.Int]))
		var ts []*Term
		for u := range l.k {
			if l.k[u] != 0 {
				ts = append(ts, u)
			}
		}
		sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
		pos, neg := "", ""
		for _, u := range ts {
			pos += fmt.Sprintf("%d*%d,", l.k[u], u.id)
			neg += fmt.Sprintf("%d*%d,", -l.k[u], u.id)
		}
		return pos, neg, l.c, pos != ""
	}
	pos, neg, c, ok := diff(t) // D + c < 0 ?
	if !ok {
		return -1
	}
	for g, f := range st.facts {
		if g == t || f.eq == nil || !g.is("<") && !g.is("==") {
			continue
		}
		b, isB := f.eq.boolVal()
		if !isB || g.is("==") && !b {
			continue
		}
		gp, _, cg, ok := diff(g)
		if !ok {
			continue
		}
		if gp == pos {
			if g.is("==") { // D = -cg
				if c < cg {
					return 1
				}
				return 0
			}
			if b && c <= cg { // D < -cg
				return 1
			}
			if !b && c >= cg { // D >= -cg
				return 0
			}
		} else if gp == neg {
			if g.is("==") { // D = cg
				if cg+c < 0 {
					return 1
				}
				return 0
			}
			if b && cg+1+c >= 0 { // D > cg
				return 0
			}
			if !b && cg+c < 0 { // D <= cg
				return 1
			}
		}
	}
	return -1
}

// Assume refines st with t==val; it reports false when that is contradictory.
func (e *Engine) Assume(st *State, t *Term, val bool) bool {
	switch r := e.Eval(st, t); r {
	case 0:
		return !val
	case 1:
		return val
	}
	if t.is("!") {
		return e.Assume(st, t.args[0], !val)
	}
	f := st.facts[t].clone()
	f.eq = e.in.Bool(val)
	st.facts[t] = f
	if b, set, ok := e.membership(t); ok {
		if !val {
			set = set.not()
		}
		g := st.facts[b].clone()
		cur := e.Bytes(st, b).and(set)
		if cur.empty() {
			return false
		}
		g.bs = &cur
		st.facts[b] = g
		return true
	}
	if t.kind != 'u' {
		return true
	}
	switch t.op {
	case "==":
		x, y := t.args[0], t.args[1]
		rx, ry := e.Resolve(st, x), e.Resolve(st, y)
		if e.constLike(rx) && !e.constLike(ry) {
			x, y, rx, ry = y, x, ry, rx
		}
		if e.constLike(ry) {
			g := st.facts[x].clone()
			if val {
				g.eq = ry
				g.neq = nil
				st.facts[x] = g
			} else {
				g.neq = insTerm(g.neq, ry)
				if v, ok := ry.intVal(); ok {
					if g.hasLo && g.lo == v {
						g.lo++
					}
					if g.hasHi && g.hi == v {
						g.hi--
					}
				}
				st.facts[x] = g
				// a length or a boundary excluded
				if v, ok := ry.intVal(); ok && x.is("len") && v == 0 {
					return e.bound(st, x, 1, true)
				}
			}
		}
	case "<":
		x, y := t.args[0], t.args[1]
		// bounds between two unknowns are coarse in exact mode: the comparison itself is kept
		low := func(v int64) int64 {
			if e.Exact && !x.isConst() && !y.isConst() {
				return min(v, 1)
			}
			return v
		}
		high := func(v int64) int64 {
			if e.Exact && !x.isConst() && !y.isConst() && v > 1<<40 {
				if v <= maxTrip {
					return maxTrip
				}
				return maxInt
			}
			return v
		}
		if val { // x < y
			if _, hi, _, hh := e.Range(st, y); hh {
				if !e.bound(st, x, high(hi-1), false) {
					return false
				}
			}
			if lo, _, hl, _ := e.Range(st, x); hl {
				if !e.bound(st, y, low(lo+1), true) {
					return false
				}
			}
		} else { // x >= y
			if lo, _, hl, _ := e.Range(st, y); hl {
				if !e.bound(st, x, low(lo), true) {
					return false
				}
			}
			if _, hi, _, hh := e.Range(st, x); hh {
				if !e.bound(st, y, high(hi), false) {
					return false
				}
			}
		}
	}
	return true
}

// bound records lo <= t (lower) or t <= v.
func (e *Engine) bound(st *State, t *Term, v int64, lower bool) bool {
	if t.isConst() {
		return true
	}
	if b, ok := t.typ, isByteType(t.typ); ok {
		_ = b
		set := setRange(0, int(min(v, 255)))
		if lower {
			set = setRange(int(max(v, 0)), 255)
		}
		cur := e.Bytes(st, t).and(set)
		if cur.empty() {
			return false
		}
		g := st.facts[t].clone()
		g.bs = &cur
		st.facts[t] = g
		return true
	}
	if t.typ != nil {
		if bt, ok := t.typ.Underlying().(*types.Basic); ok && bt.Info()&types.IsFloat != 0 {
			return true
		}
	}
	lo, hi, hl, hh := e.Range(st, t)
	g := st.facts[t].clone()
	if lower {
		if hh && v > hi {
			return false
		}
		if !g.hasLo || v > g.lo {
			g.lo, g.hasLo = v, true
		}
		for contains(g.neq, e.in.Int(g.lo)) {
			g.lo++
		}
	} else {
		if hl && v < lo {
			return false
		}
		if e.Exact && v >= maxInt {
			return true
		}
		if !g.hasHi || v < g.hi {
			g.hi, g.hasHi = v, true
		}
		for contains(g.neq, e.in.Int(g.hi)) {
			g.hi--
		}
	}
	if g.hasLo && g.hasHi && g.lo > g.hi {
		return false
	}
	if g.hasLo && g.hasHi && g.lo == g.hi {
		g.eq = e.in.Int(g.lo)
	}
	st.facts[t] = g
	return true
}

func contains(l []*Term, t *Term) bool {
	for _, x := range l {
		if x == t {
			return true
		}
	}
	return false
}

func insTerm(l []*Term, t *Term) []*Term {
	if contains(l, t) {
		return l
	}
	l = append(append([]*Term(nil), l...), t)
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	return l
}
