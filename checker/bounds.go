package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/bits"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Exact integer reasoning: arithmetic keeps its mathematical meaning only where it provably
// cannot overflow, and inequalities are decided by eliminating variables from what is known
// on the path.

const (
	maxLen  = int64(1) << 48 // no slice, string or map is longer
	maxTrip = int64(1) << 50 // no loop that counts in small steps runs longer
	maxInt  = int64(1) << 62
)

type interval struct{ lo, hi int64 } // saturated at +-maxInt

var full = interval{-maxInt, maxInt}

func sat(v int64) int64 { return max(-maxInt, min(maxInt, v)) }

func satAdd(a, b int64) int64 {
	if a == maxInt || b == maxInt {
		return maxInt
	}
	if a == -maxInt || b == -maxInt {
		return -maxInt
	}
	return sat(a + b)
}

func satMul(a, b int64) int64 {
	if a == 0 || b == 0 {
		return 0
	}
	neg := (a < 0) != (b < 0)
	ua, ub := uint64(max(a, -a)), uint64(max(b, -b))
	hi, lo := bits.Mul64(ua, ub)
	if hi != 0 || lo > uint64(maxInt) {
		lo = uint64(maxInt)
	}
	if neg {
		return -int64(lo)
	}
	return int64(lo)
}

func (i interval) add(j interval) interval {
	return interval{satAdd(i.lo, j.lo), satAddHi(i.hi, j.hi)}
}

func satAddHi(a, b int64) int64 {
	if a == -maxInt && b != maxInt || b == -maxInt && a != maxInt {
		return -maxInt
	}
	return satAdd(a, b)
}

func (i interval) mul(j interval) interval {
	a, b, c, d := satMul(i.lo, j.lo), satMul(i.lo, j.hi), satMul(i.hi, j.lo), satMul(i.hi, j.hi)
	return interval{min(a, b, c, d), max(a, b, c, d)}
}

func (i interval) meet(j interval) interval { return interval{max(i.lo, j.lo), min(i.hi, j.hi)} }

func (i interval) small() bool { return i.lo > -maxInt && i.hi < maxInt }

func typeInterval(t types.Type) interval {
	if t == nil {
		return full
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return full
	}
	n, uns := intBits(t)
	switch {
	case n == 0 || n == 64 && !uns:
		return full
	case uns && n == 64:
		return interval{0, maxInt}
	case uns:
		return interval{0, 1<<uint(n) - 1}
	}
	return interval{-(1 << uint(n-1)), 1<<uint(n-1) - 1}
}

// ival bounds an integer term.
func (e *Engine) ival(st *State, t *Term) interval {
	if v, ok := t.intVal(); ok {
		return interval{sat(v), sat(v)}
	}
	r := typeInterval(t.typ)
	if f := st.facts[t]; f != nil {
		if f.eq != nil {
			if v, ok := f.eq.intVal(); ok {
				return interval{sat(v), sat(v)}
			}
		}
		if f.hasLo {
			r.lo = max(r.lo, f.lo)
		}
		if f.hasHi {
			r.hi = min(r.hi, f.hi)
		}
	}
	if isByteType(t.typ) {
		lo, hi, _, _ := e.Range(st, t)
		return r.meet(interval{lo, hi})
	}
	if t.kind == 'n' && e.Exact {
		if ld, ok := t.val.(*ssa.UnOp); ok && ld.Op == token.MUL {
			if fa, ok := ld.X.(*ssa.FieldAddr); ok && isIntType(ld.Type()) {
				r = r.meet(e.p.fieldRange(fieldKey(fa.X.Type(), fa.Field), ld.Type()))
			}
		}
	}
	if t.kind != 'u' || t.depth > 40 {
		return r
	}
	switch {
	case t.is("len"), t.is("cap"):
		lo := int64(0)
		if l, _, hl, _ := e.Range(st, t); hl {
			lo = max(0, l)
		}
		return r.meet(interval{lo, maxLen})
	case strings.HasPrefix(t.op, "lin:"):
		l := e.in.lin(t)
		s := interval{l.c, l.c}
		for a, k := range l.k {
			s = s.add(e.ival(st, a).mul(interval{k, k}))
		}
		return r.meet(s)
	case t.op == "*" && e.Exact && isWideInt(t.typ):
		s := interval{1, 1}
		for _, a := range t.args {
			s = s.mul(e.ival(st, a))
		}
		return r.meet(s)
	case t.op == "/":
		a, b := e.ival(st, t.args[0]), e.ival(st, t.args[1])
		if b.lo >= 1 {
			s := interval{min(a.lo, 0), max(a.hi, 0)}
			if a.lo >= 0 {
				s.lo = a.lo / max(b.hi, 1)
				if b.hi == maxInt {
					s.lo = 0
				}
			} else if a.lo > -maxInt {
				s.lo = a.lo / b.lo
			}
			if a.hi >= 0 {
				s.hi = a.hi / b.lo
				if a.hi >= maxInt {
					s.hi = min(maxInt, math.MaxInt64/b.lo)
				}
			}
			if a.lo <= -maxInt {
				s.lo = max(-maxInt, math.MinInt64/b.lo)
			}
			return r.meet(s)
		}
	case t.op == "%":
		a, b := e.ival(st, t.args[0]), e.ival(st, t.args[1])
		if b.lo >= 1 && b.hi < maxInt {
			s := interval{-(b.hi - 1), b.hi - 1}
			if a.lo >= 0 {
				s.lo = 0
				s.hi = min(s.hi, a.hi)
			}
			return r.meet(s)
		}
	case t.op == "<<":
		a, b := e.ival(st, t.args[0]), e.ival(st, t.args[1])
		if a.lo >= 0 && b.lo >= 0 && b.hi < 62 && a.hi < 1<<62>>uint(b.hi) && a.hi<<uint(b.hi) <= r.hi {
			return r.meet(interval{a.lo << uint(b.lo), a.hi << uint(b.hi)})
		}
	case t.op == ">>":
		a := e.ival(st, t.args[0])
		if a.lo >= 0 {
			return r.meet(interval{0, a.hi})
		}
	case t.op == "&":
		for _, x := range t.args {
			if a := e.ival(st, x); a.lo >= 0 {
				r = r.meet(interval{0, a.hi})
			}
		}
	case t.is("call:builtin min"), t.is("call:builtin max"):
		s := e.ival(st, t.args[0])
		for _, x := range t.args[1:] {
			a := e.ival(st, x)
			if t.is("call:builtin min") {
				s = interval{min(s.lo, a.lo), min(s.hi, a.hi)}
			} else {
				s = interval{max(s.lo, a.lo), max(s.hi, a.hi)}
			}
		}
		return r.meet(s)
	case t.is("copyn"):
		return r.meet(interval{0, maxLen})
	case t.hasOp("conv:") && t.typ != nil && isIntType(t.typ):
		if a := t.args[0]; a.typ != nil && isIntType(a.typ) {
			if s := e.ival(st, a); s.small() && r.lo <= s.lo && s.hi <= r.hi {
				return s // the value is kept
			}
		}
	}
	return r
}

// mathTerm builds a op b as a mathematical expression (products are distributed).
func (e *Engine) mathTerm(op token.Token, a, b *Term, typ types.Type) *Term {
	switch op {
	case token.ADD:
		return e.in.linAdd(a, b, 1, typ)
	case token.SUB:
		return e.in.linAdd(a, b, -1, typ)
	case token.SHL:
		if k, ok := b.intVal(); ok && k >= 0 && k < 40 {
			return e.mathTerm(token.MUL, a, e.in.Int(1<<uint(k)), typ)
		}
		return nil
	}
	la, lb := e.in.lin(a), e.in.lin(b)
	if len(la.k) > 6 || len(lb.k) > 6 {
		return nil
	}
	res := linForm{la.c * lb.c, map[*Term]int64{}}
	for x, k := range la.k {
		res.k[x] += k * lb.c
	}
	for x, k := range lb.k {
		res.k[x] += k * la.c
	}
	for x, k := range la.k {
		for y, m := range lb.k {
			res.k[e.mono(x, y, typ)] += k * m
		}
	}
	for _, k := range res.k {
		if k > 1<<40 || k < -(1<<40) {
			return nil
		}
	}
	return e.in.fromLin(res, typ)
}

// mono is the product of two atoms.
func (e *Engine) mono(x, y *Term, typ types.Type) *Term {
	var fs []*Term
	for _, a := range []*Term{x, y} {
		if a.is("*") {
			fs = append(fs, a.args...)
		} else {
			fs = append(fs, a)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
	return e.in.PureT(typ, "*", fs...)
}

// exactBin gives the value of an integer operation, keeping its mathematical form when the
// operation provably stays in range.
func (e *Engine) exactBin(st *State, x *ssa.BinOp, a, b *Term) *Term {
	typ := x.Type()
	if a.cv != nil && b.cv != nil || !isWideInt(typ) {
		return e.in.BinOp(x.Op, a, b, typ)
	}
	switch x.Op {
	case token.ADD, token.SUB, token.MUL, token.SHL:
	default:
		return e.in.BinOp(x.Op, a, b, typ)
	}
	t := e.mathTerm(x.Op, a, b, typ)
	if t == nil {
		return e.in.PureT(typ, "wrap"+x.Op.String(), a, b)
	}
	if e.fits(st, t) {
		return t
	}
	if x.Op == token.MUL {
		for _, p := range [][2]*Term{{a, b}, {b, a}} {
			if q := e.underQuotient(st, p[0], p[1]); q != nil {
				// n < q/m: n*m <= q-m
				e.Assume(st, e.in.Pure("<", q, e.in.linAdd(t, p[1], 1, typ)), false)
				return t
			}
		}
	}
	return e.in.PureT(typ, "wrap"+x.Op.String(), a, b)
}

// underQuotient finds q, not large, such that 0 <= n < q/m is known and m is positive.
func (e *Engine) underQuotient(st *State, n, m *Term) *Term {
	if e.ival(st, n).lo < 0 || e.ival(st, m).lo < 1 {
		return nil
	}
	var best *Term
	for f, v := range st.facts {
		if !f.is("<") || f.args[0] != n || v.eq == nil || f.args[1].op != "/" || f.args[1].kind != 'u' || f.args[1].args[1] != m {
			continue
		}
		if b, ok := v.eq.boolVal(); !ok || !b {
			continue
		}
		if q := f.args[1].args[0]; e.ival(st, q).small() && e.ival(st, q).lo >= 0 && (best == nil || q.id < best.id) {
			best = q
		}
	}
	return best
}

func (e *Engine) fits(st *State, t *Term) bool {
	r := e.ival(st, t)
	if r.small() {
		return true
	}
	if l := e.in.lin(t); l.c == 0 && len(l.k) == 1 {
		for a, k := range l.k { // c*(x/c) is not larger than x
			if a.is("/") && a.args[0].cv == nil {
				if c, ok := a.args[1].intVal(); ok && k > 0 && k <= c {
					return true
				}
			}
		}
	}
	lim := maxInt / 4
	if r.hi == maxInt && !e.Prove(st, e.in.linAdd(e.in.Int(lim), t, -1, t.typ)) {
		return false
	}
	return r.lo > -maxInt || e.Prove(st, e.in.linAdd(t, e.in.Int(lim), 1, t.typ))
}

// ------------------------------------------------------------ linear reasoning

// ineq is sum k*x + c >= 0.
type ineq struct {
	k map[*Term]int64
	c int64
}

// Prove decides t >= 0 (t is an exact term).
func (e *Engine) Prove(st *State, t *Term) bool {
	if e.ival(st, t).lo >= 0 {
		return true
	}
	l := e.in.lin(t)
	goal := ineq{map[*Term]int64{}, -l.c - 1}
	for a, k := range l.k {
		goal.k[a] = -k
	}
	known := e.inequalities(st, goal)
	return infeasible(append(known, goal))
}

// inequalities collects what is known about the terms that matter for the goal.
func (e *Engine) inequalities(st *State, goal ineq) []ineq {
	var pool []ineq
	for t, f := range st.facts {
		if f.eq != nil {
			if b, ok := f.eq.boolVal(); ok && (t.is("<") || t.is("==") && b) {
				x, y := t.args[0], t.args[1]
				if !e.intTerm(x) || !e.intTerm(y) {
					continue
				}
				switch {
				case t.is("=="):
					pool = append(pool, e.ineqOf(e.in.linAdd(y, x, -1, nil), 0), e.ineqOf(e.in.linAdd(x, y, -1, nil), 0))
				case b: // y - x - 1 >= 0
					pool = append(pool, e.ineqOf(e.in.linAdd(y, x, -1, nil), -1))
				default: // x - y >= 0
					pool = append(pool, e.ineqOf(e.in.linAdd(x, y, -1, nil), 0))
				}
				continue
			}
		}
		if strings.HasPrefix(t.op, "lin:") && t.kind == 'u' {
			if f.hasLo && f.lo > -maxInt {
				pool = append(pool, e.ineqOf(t, -f.lo))
			}
			if f.hasHi && f.hi < maxInt {
				pool = append(pool, e.ineqOf(e.in.linAdd(e.in.Int(0), t, -1, nil), f.hi))
			}
			if f.eq != nil {
				if v, ok := f.eq.intVal(); ok {
					pool = append(pool, e.ineqOf(t, -v), e.ineqOf(e.in.linAdd(e.in.Int(0), t, -1, nil), v))
				}
			}
		}
	}
	keys := make([]string, len(pool))
	idx := make([]int, len(pool))
	for i, q := range pool {
		keys[i], idx[i] = ineqKey(q), i
	}
	sort.Slice(idx, func(i, j int) bool { return keys[idx[i]] < keys[idx[j]] })
	sorted := make([]ineq, len(pool))
	for i, k := range idx {
		sorted[i] = pool[k]
	}
	pool = sorted
	atoms := map[*Term]bool{}
	var order []*Term
	var add func(t *Term)
	add = func(t *Term) {
		if !atoms[t] {
			atoms[t] = true
			order = append(order, t)
		}
	}
	for _, t := range sortedTerms(goal.k) {
		add(t)
	}
	var out []ineq
	used := make([]bool, len(pool))
	for round := 0; round < 4; round++ {
		n := len(order)
		for i, q := range pool {
			if used[i] {
				continue
			}
			hit := false
			for a := range q.k {
				if atoms[a] {
					hit = true
				}
			}
			if !hit || len(q.k) > 6 {
				continue
			}
			used[i] = true
			out = append(out, q)
			for _, a := range sortedTerms(q.k) {
				add(a)
			}
		}
		// smaller ones and quotients of what is at hand
		for i, q := range pool {
			if used[i] {
				continue
			}
			for _, a := range sortedTerms(q.k) {
				if a.kind != 'u' || atoms[a] || !a.is("call:builtin min") && a.op != "/" || len(order) > 40 {
					continue
				}
				near := false
				for _, x := range a.args {
					for b := range e.in.lin(x).k {
						near = near || atoms[b]
					}
				}
				if near {
					add(a)
				}
			}
		}
		// what the shape of the atoms says
		for i := 0; i < len(order) && len(order) < 40; i++ {
			for _, q := range e.shape(st, order[i]) {
				for _, a := range sortedTerms(q.k) {
					add(a)
				}
			}
		}
		if len(order) == n {
			break
		}
	}
	out = append(out, e.monotone(st, sortedTerms(goal.k))...)
	for _, a := range order {
		out = append(out, e.shape(st, a)...)
		r := e.ival(st, a)
		if r.lo > -maxInt {
			out = append(out, ineq{map[*Term]int64{a: 1}, -r.lo})
		}
		if r.hi < maxInt {
			out = append(out, ineq{map[*Term]int64{a: -1}, r.hi})
		}
	}
	return out
}

// monotone compares products that differ in one factor.
func (e *Engine) monotone(st *State, order []*Term) []ineq {
	var out []ineq
	for _, a := range order {
		if a.op != "*" || a.kind != 'u' || !isWideInt(a.typ) {
			continue
		}
		for _, b := range order {
			if b == a || b.op != "*" || b.kind != 'u' || len(a.args) != len(b.args) {
				continue
			}
			x, y, rest, ok := onlyDifference(a, b)
			if !ok || e.ival(st, rest).lo < 0 {
				continue
			}
			for _, f := range a.args {
				ok = ok && (f == x || e.ival(st, f).lo >= 0)
			}
			if !ok {
				continue
			}
			if e.Eval(st, e.in.Pure("<", x, y)) == 0 || e.Eval(st, e.in.Pure("<", y, x)) == 1 { // x >= y
				out = append(out, ineq{map[*Term]int64{a: 1, b: -1}, 0})
			}
		}
	}
	return out
}

// onlyDifference: the products have the same factors except for x in a and y in b.
func onlyDifference(a, b *Term) (x, y, rest *Term, ok bool) {
	left := append([]*Term{}, b.args...)
	for _, f := range a.args {
		found := false
		for i, g := range left {
			if f == g {
				left = append(left[:i:i], left[i+1:]...)
				rest, found = f, true
				break
			}
		}
		if !found {
			if x != nil {
				return nil, nil, nil, false
			}
			x = f
		}
	}
	if x == nil || len(left) != 1 || rest == nil {
		return nil, nil, nil, false
	}
	return x, left[0], rest, true
}

func sortedTerms(m map[*Term]int64) []*Term {
	var out []*Term
	for t := range m {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

func (e *Engine) intTerm(t *Term) bool {
	if _, ok := t.intVal(); ok {
		return true
	}
	return t.typ != nil && isIntType(t.typ)
}

func (e *Engine) ineqOf(t *Term, c int64) ineq {
	l := e.in.lin(t)
	q := ineq{map[*Term]int64{}, l.c + c}
	for a, k := range l.k {
		if k != 0 {
			q.k[a] = k
		}
	}
	return q
}

// shape gives the inequalities that follow from how an atom is built.
func (e *Engine) shape(st *State, t *Term) []ineq {
	if t.kind != 'u' {
		return nil
	}
	ge := func(x *Term, kx int64, y *Term, ky, c int64) ineq { // kx*x + ky*y + c >= 0
		q := ineq{map[*Term]int64{}, c}
		for _, p := range []struct {
			t *Term
			k int64
		}{{x, kx}, {y, ky}} {
			if p.t == nil {
				continue
			}
			l := e.in.lin(p.t)
			q.c += p.k * l.c
			for a, k := range l.k {
				q.k[a] += p.k * k
			}
		}
		return q
	}
	switch {
	case t.op == "/":
		a, k := t.args[0], t.args[1]
		if e.ival(st, a).lo < 0 {
			return nil
		}
		if d, ok := k.intVal(); ok && d >= 1 && d < 1<<32 {
			return []ineq{ge(a, 1, t, -d, 0), ge(t, d, a, -1, d-1)}
		}
		if e.ival(st, k).lo >= 1 {
			out := []ineq{ge(a, 1, t, -1, 0)}
			if pr := e.mathTerm(token.MUL, t, k, t.typ); pr != nil { // quotient * divisor <= dividend
				out = append(out, ge(a, 1, pr, -1, 0))
			}
			return out
		}
	case t.op == "%":
		a, k := t.args[0], t.args[1]
		if e.ival(st, k).lo >= 1 && e.ival(st, a).lo >= 0 {
			return []ineq{ge(k, 1, t, -1, -1), ge(a, 1, t, -1, 0)}
		}
	case t.op == ">>", t.op == "&":
		if a := t.args[0]; e.ival(st, a).lo >= 0 {
			return []ineq{ge(a, 1, t, -1, 0)}
		}
	case t.is("call:builtin min"):
		var out []ineq
		for _, a := range t.args {
			out = append(out, ge(a, 1, t, -1, 0))
		}
		return out
	case t.is("call:builtin max"):
		var out []ineq
		for _, a := range t.args {
			out = append(out, ge(t, 1, a, -1, 0))
		}
		return out
	case t.is("copyn"):
		return []ineq{ge(t.args[0], 1, t, -1, 0), ge(t.args[1], 1, t, -1, 0)}
	case t.is("cap"):
		return []ineq{ge(t, 1, e.Len(st, t.args[0], nil), -1, 0)}
	case t.op == "*" && isWideInt(t.typ):
		// (x-lx)*(y-ly) >= 0 for each way of splitting off a factor
		var out []ineq
		for i, x := range t.args {
			if i > 0 && t.args[i-1] == x {
				continue
			}
			rest := append(append([]*Term{}, t.args[:i]...), t.args[i+1:]...)
			var y *Term
			if len(rest) == 1 {
				y = rest[0]
			} else {
				y = e.in.PureT(t.typ, "*", rest...)
			}
			rx, ry := e.ival(st, x), e.ival(st, y)
			if rx.lo > -maxInt && ry.lo > -maxInt && rx.lo < 1<<30 && ry.lo < 1<<30 && rx.lo > -(1<<30) && ry.lo > -(1<<30) {
				q := ineq{map[*Term]int64{t: 1}, rx.lo * ry.lo}
				q.k[x] -= ry.lo
				q.k[y] -= rx.lo
				out = append(out, q)
			}
		}
		return out
	}
	return nil
}

func ineqKey(q ineq) string {
	var sb strings.Builder
	for _, t := range sortedTerms(q.k) {
		sb.WriteString(t.cachedString())
	}
	return sb.String()
}

// infeasible decides that no integers satisfy all inequalities (sound, not complete).
func infeasible(qs []ineq) bool {
	var cur []ineq
	seen := map[string]int{}
	add := func(q ineq) bool { // false: contradiction
		g := uint64(0)
		for t, k := range q.k {
			if k == 0 {
				delete(q.k, t)
				continue
			}
			g = gcd(g, uint64(max(k, -k)))
		}
		if len(q.k) == 0 {
			return q.c >= 0
		}
		if g > 1 {
			for t := range q.k {
				q.k[t] /= int64(g)
			}
			q.c = floorDiv(q.c, int64(g))
		}
		key := linKey(q)
		if i, ok := seen[key]; ok {
			if cur[i].c > q.c {
				cur[i].c = q.c
			}
			return true
		}
		seen[key] = len(cur)
		cur = append(cur, q)
		return true
	}
	for _, q := range qs {
		c := ineq{map[*Term]int64{}, q.c}
		for t, k := range q.k {
			c.k[t] = k
		}
		if !add(c) {
			return true
		}
	}
	for {
		// the variable whose elimination creates the fewest new inequalities
		pos, neg := map[*Term]int{}, map[*Term]int{}
		for _, q := range cur {
			for t, k := range q.k {
				if k > 0 {
					pos[t]++
				} else {
					neg[t]++
				}
			}
		}
		var best *Term
		cost := math.MaxInt
		for t := range pos {
			if neg[t] == 0 {
				if cost > -1 || best == nil || t.id < best.id {
					best, cost = t, -1
				}
				continue
			}
			if c := pos[t]*neg[t] - pos[t] - neg[t]; c < cost || c == cost && t.id < best.id {
				best, cost = t, c
			}
		}
		for t := range neg {
			if pos[t] == 0 && (cost > -1 || t.id < best.id) {
				best, cost = t, -1
			}
		}
		if best == nil {
			return false
		}
		old := cur
		cur = nil
		seen = map[string]int{}
		var ps, ns []ineq
		for _, q := range old {
			switch k := q.k[best]; {
			case k > 0:
				ps = append(ps, q)
			case k < 0:
				ns = append(ns, q)
			default:
				if !add(q) {
					return true
				}
			}
		}
		if len(ps)*len(ns) > 3000 {
			continue // drop the variable
		}
		for _, p := range ps {
			for _, n := range ns {
				if q, ok := combine(p, n, best); ok && !add(q) {
					return true
				}
			}
		}
		if len(cur) > 4000 {
			return false
		}
	}
}

// combine eliminates t from p (positive) and n (negative).
func combine(p, n ineq, t *Term) (ineq, bool) {
	a, b := -n.k[t], p.k[t] // a*p + b*n
	g := int64(gcd(uint64(a), uint64(b)))
	a, b = a/g, b/g
	q := ineq{map[*Term]int64{}, 0}
	ok := true
	mul := func(x, y int64) int64 {
		v := satMul(x, y)
		if v >= maxInt || v <= -maxInt {
			ok = false
		}
		return v
	}
	sum := func(x, y int64) int64 {
		v := x + y
		if v >= maxInt || v <= -maxInt {
			ok = false
		}
		return v
	}
	q.c = sum(mul(a, p.c), mul(b, n.c))
	for x, k := range p.k {
		if x != t {
			q.k[x] = sum(q.k[x], mul(a, k))
		}
	}
	for x, k := range n.k {
		if x != t {
			q.k[x] = sum(q.k[x], mul(b, k))
		}
	}
	return q, ok
}

func linKey(q ineq) string {
	var sb strings.Builder
	for _, t := range sortedTerms(q.k) {
		if q.k[t] == 0 {
			continue
		}
		sb.WriteString(itoa(int64(t.id)))
		sb.WriteByte('*')
		sb.WriteString(itoa(q.k[t]))
		sb.WriteByte(' ')
	}
	return sb.String()
}

func gcd(a, b uint64) uint64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

func itoa(v int64) string { return strconv.FormatInt(v, 10) }

// ------------------------------------------------------------ loops

// carry gives the renamed loop variable nt the bounds that its value t provably has.
func (e *Engine) carry(st *State, ctx *Ctx, phi *ssa.Phi, t, old *Term) func(nt *Term) {
	if !isIntType(phi.Type()) {
		return func(*Term) {}
	}
	f := &Fact{}
	if iv := e.p.inductive(phi); iv != nil && iv.step >= -16 && iv.step <= 16 {
		if iv.step > 0 {
			f.hi, f.hasHi = maxTrip, true
			if iv.startConst != nil {
				f.lo, f.hasLo = *iv.startConst+iv.step, true
			}
		} else {
			f.lo, f.hasLo = -maxTrip, true
			if iv.startConst != nil {
				f.hi, f.hasHi = *iv.startConst+iv.step, true
			}
		}
	}
	r := e.ival(st, t)
	for _, c := range []int64{1, 0, -1} {
		if f.hasLo && f.lo >= c {
			break
		}
		if r.lo >= c || e.Prove(st, e.in.linAdd(t, e.in.Int(c), -1, nil)) {
			f.lo, f.hasLo = c, true
			break
		}
	}
	for _, h := range []int64{maxTrip} {
		if f.hasHi && f.hi <= h {
			break
		}
		if r.hi <= h {
			f.hi, f.hasHi = h, true
			break
		}
	}
	// limits the loop compares the variable with
	var le []*Term
	var prods [][2]*Term
	l := e.p.Loops(ctx.fn).ByHeader[phi.Block()]
	if l != nil {
		for b := range l.Body {
			for _, in := range b.Instrs {
				bo, ok := in.(*ssa.BinOp)
				if !ok {
					continue
				}
				switch bo.Op {
				case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
				default:
					continue
				}
				for k, x := range []ssa.Value{bo.X, bo.Y} {
					y := []ssa.Value{bo.Y, bo.X}[k]
					if !l.invariant(y) {
						continue
					}
					if linearIn(x, phi) {
						lim := e.reTerm(st, ctx, y)
						if e.intTerm(lim) && !contains(le, lim) && e.Prove(st, e.in.linAdd(lim, t, -1, nil)) {
							le = append(le, lim)
						}
					}
					if m, ok := x.(*ssa.BinOp); ok && m.Op == token.MUL {
						for j, p := range []ssa.Value{m.X, m.Y} {
							w := []ssa.Value{m.Y, m.X}[j]
							if p == ssa.Value(phi) && l.invariant(w) {
								wt, lim := e.reTerm(st, ctx, w), e.reTerm(st, ctx, y)
								if len(e.in.lin(wt).k) == 1 {
									tw := e.mathTerm(token.MUL, t, wt, phi.Type())
									if tw != nil && e.Prove(st, e.in.linAdd(e.in.linAdd(lim, wt, 1, nil), tw, -1, nil)) {
										prods = append(prods, [2]*Term{wt, e.in.linAdd(lim, wt, 1, phi.Type())})
									}
								}
							}
						}
					}
				}
			}
		}
	}
	var ge []*Term
	if old != nil && l != nil && old != t {
		outside := func(lim *Term) bool {
			return !lim.anyTerm(func(u *Term) bool {
				if u.kind != 'n' || u.val == nil {
					return false
				}
				in, ok := u.val.(ssa.Instruction)
				return ok && l.Body[in.Block()]
			})
		}
		var cand []*Term
		if old.kind != 'n' || old.val != ssa.Value(phi) {
			cand = append(cand, old)
		} else {
			for f := range st.facts {
				if f.is("<") && len(f.args) == 2 {
					for k := range f.args {
						if f.args[k] == old {
							cand = appendTerm(cand, f.args[1-k])
						}
					}
				}
			}
		}
		sort.Slice(cand, func(i, j int) bool { return cand[i].id < cand[j].id })
		if os.Getenv("VERIF_CARRY") != "" {
			fmt.Fprintln(os.Stderr, "CARRY", old, t, cand, ctx.id, ge, le)
		}
		for _, lim := range cand {
			if lim.isConst() || !e.intTerm(lim) || !outside(lim) {
				continue
			}
			if !contains(le, lim) && e.Prove(st, e.in.linAdd(lim, t, -1, nil)) {
				le = append(le, lim)
			} else if e.Prove(st, e.in.linAdd(t, lim, -1, nil)) {
				ge = append(ge, lim)
			}
		}
	}
	return func(nt *Term) {
		if f.hasLo || f.hasHi {
			st.facts[nt] = f
		}
		for _, lim := range ge {
			if !lim.contains(nt) {
				e.Assume(st, e.Cmp(token.LSS, nt, lim), false)
			}
		}
		for _, lim := range le {
			if !lim.contains(nt) {
				e.Assume(st, e.Cmp(token.LSS, lim, nt), false)
			}
		}
		for _, p := range prods {
			if m := e.mathTerm(token.MUL, nt, p[0], phi.Type()); m != nil && !p[1].contains(nt) {
				e.Assume(st, e.Cmp(token.LSS, p[1], m), false)
			}
		}
	}
}

// invariant: v does not change while the loop runs.
func (l *Loop) invariant(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const, *ssa.Parameter, *ssa.FreeVar, *ssa.Global, *ssa.Function:
		return true
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return l.invariant(x.Call.Args[0])
		}
		return !l.Body[x.Block()]
	case *ssa.BinOp:
		return !l.Body[x.Block()] || l.invariant(x.X) && l.invariant(x.Y)
	case ssa.Instruction:
		return !l.Body[x.Block()]
	}
	return false
}

// linearIn: x is the loop variable plus something.
func linearIn(x ssa.Value, phi *ssa.Phi) bool {
	for n := 0; n < 6; n++ {
		if x == ssa.Value(phi) {
			return true
		}
		b, ok := x.(*ssa.BinOp)
		if !ok || b.Op != token.ADD && b.Op != token.SUB {
			return false
		}
		if linearIn(b.Y, phi) && b.Op == token.ADD {
			return true
		}
		x = b.X
	}
	return false
}

// fieldRange bounds an integer field by what is stored in it anywhere (and its zero value).
func (p *Program) fieldRange(field string, typ types.Type) interval {
	if p.ranges == nil {
		p.ranges = map[string]interval{}
	}
	if r, ok := p.ranges[field]; ok {
		return r
	}
	all := typeInterval(typ)
	p.ranges[field] = all // while it is being computed
	r := interval{0, 0}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || fieldKey(fa.X.Type(), fa.Field) != field {
					continue
				}
				for _, u := range *fa.Referrers() {
					switch y := u.(type) {
					case *ssa.Store:
						if y.Addr != ssa.Value(fa) {
							return all
						}
						v := p.ssaRange(y.Val, map[ssa.Value]bool{})
						r = interval{min(r.lo, v.lo), max(r.hi, v.hi)}
					case *ssa.UnOp, *ssa.DebugRef:
					default:
						return all // its address goes elsewhere
					}
				}
			}
		}
	}
	p.ranges[field] = r.meet(all)
	return p.ranges[field]
}

// ssaRange bounds a value by its definition alone.
func (p *Program) ssaRange(v ssa.Value, seen map[ssa.Value]bool) interval {
	all := typeInterval(v.Type())
	if !isIntType(v.Type()) || seen[v] {
		return all
	}
	seen[v] = true
	defer delete(seen, v)
	switch y := v.(type) {
	case *ssa.Const:
		if y.Value != nil {
			if k, ok := constant.Int64Val(constant.ToInt(y.Value)); ok {
				return interval{k, k}
			}
		}
	case *ssa.Convert:
		if isIntType(y.X.Type()) {
			if r := p.ssaRange(y.X, seen); r.small() && r.lo >= all.lo && r.hi <= all.hi {
				return r
			}
		}
	case *ssa.Phi:
		r := interval{maxInt, -maxInt}
		for _, q := range y.Edges {
			s := p.ssaRange(q, seen)
			r = interval{min(r.lo, s.lo), max(r.hi, s.hi)}
		}
		return r.meet(all)
	case *ssa.UnOp:
		if fa, ok := y.X.(*ssa.FieldAddr); ok && y.Op == token.MUL {
			return p.fieldRange(fieldKey(fa.X.Type(), fa.Field), y.Type()).meet(all)
		}
	case *ssa.Call:
		switch commonName(y.Common()) {
		case "builtin len", "builtin cap", "builtin copy":
			return interval{0, maxLen}
		case "builtin min", "builtin max":
			r := p.ssaRange(y.Call.Args[0], seen)
			for _, a := range y.Call.Args[1:] {
				s := p.ssaRange(a, seen)
				if commonName(y.Common()) == "builtin min" {
					r = interval{min(r.lo, s.lo), min(r.hi, s.hi)}
				} else {
					r = interval{max(r.lo, s.lo), max(r.hi, s.hi)}
				}
			}
			return r
		}
		if g := y.Call.StaticCallee(); g != nil && p.InRepo(g) && g.Signature.Results().Len() == 1 && len(g.Blocks) > 0 {
			r := interval{maxInt, -maxInt}
			for _, b := range g.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					s := p.ssaRange(ret.Results[0], seen)
					r = interval{min(r.lo, s.lo), max(r.hi, s.hi)}
				}
			}
			return r.meet(all)
		}
	case *ssa.BinOp:
		switch y.Op {
		case token.REM, token.AND, token.QUO, token.SHR:
			a, b := p.ssaRange(y.X, seen), p.ssaRange(y.Y, seen)
			if a.lo >= 0 && b.lo > 0 || a.lo >= 0 && y.Op != token.REM && y.Op != token.QUO {
				hi := a.hi
				if y.Op == token.REM {
					hi = min(hi, b.hi-1)
				}
				if y.Op == token.AND && b.lo >= 0 {
					hi = min(hi, b.hi)
				}
				return interval{0, hi}.meet(all)
			}
		}
	}
	return all
}

// defaultPhi: the value of a call, or a constant when its success flag is not set. Which of the
// two it is seldom matters, and following both doubles the states.
func defaultPhi(phi *ssa.Phi) bool {
	if !isIntType(phi.Type()) || len(phi.Edges) != 2 {
		return false
	}
	for i, v := range phi.Edges {
		x, ok := v.(*ssa.Extract)
		if !ok || x.Index != 0 {
			continue
		}
		if _, ok := phi.Edges[1-i].(*ssa.Const); !ok {
			continue
		}
		from := phi.Block().Preds[i]
		if len(from.Instrs) == 0 {
			continue
		}
		c, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cond := c.Cond
		if n, ok := cond.(*ssa.UnOp); ok && n.Op == token.NOT {
			cond = n.X
		}
		if f, ok := cond.(*ssa.Extract); ok && f.Tuple == x.Tuple && f.Index == 1 {
			return true
		}
	}
	return false
}

func (t *Term) cachedString() string {
	if t.str == "" {
		t.str = t.String()
	}
	return t.str
}

// coarsen keeps intervals from shrinking one by one while a loop goes round: limits that are not small are moved
// outwards to a power of two or the number before it.
func (st *State) coarsen() {
	for t, f := range st.facts {
		lo, hi := f.lo, f.hi
		if f.hasHi {
			hi = outwards(f.hi)
		}
		if f.hasLo {
			lo = -outwards(-f.lo)
		}
		if lo != f.lo || hi != f.hi {
			g := *f
			g.lo, g.hi = lo, hi
			st.facts[t] = &g
		}
	}
}

// outwards is the least of the limits that are kept that is not below v.
func outwards(v int64) int64 {
	if -16 <= v && v <= 16 || v > 1<<20 || v < -1<<20 {
		return v
	}
	if v < 0 {
		k := int64(1)
		for k <= -v/2 {
			k *= 2
		}
		return -k
	}
	k := int64(1)
	for k < v {
		k *= 2
	}
	if v == k-1 {
		return v
	}
	return k
}
