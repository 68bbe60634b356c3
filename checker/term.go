package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A Term is a hash-consed value class.  Two program values with the same term are
// equal on the path that computed them.
type Term struct {
	id    int
	str   string
	kind  byte // 'c' const, 'p' parameter, 'g' global address, 'f' function, 's' constant global value, 'n' node, 'u' pure
	op    string
	args  []*Term
	typ   types.Type
	depth int
	// for kind 'n'
	ctx int
	val any // the instruction (ssa.Instruction) or a label
	gen int
	// for kind 'c'
	cv      constant.Value
	glob    *ssa.Global
	fn      *ssa.Function
	hasNode bool
	hasCall bool // contains the result of a call
}

type Interner struct {
	m     map[string]*Term
	terms []*Term
}

func newInterner() *Interner { return &Interner{m: map[string]*Term{}} }

func (in *Interner) mk(key string, f func() *Term) *Term {
	if t, ok := in.m[key]; ok {
		return t
	}
	t := f()
	t.id = len(in.terms)
	in.terms = append(in.terms, t)
	in.m[key] = t
	return t
}

func (in *Interner) Pure(op string, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString("u|")
	sb.WriteString(op)
	for _, a := range args {
		sb.WriteByte('|')
		sb.WriteString(strconv.Itoa(a.id))
	}
	return in.mk(sb.String(), func() *Term {
		t := &Term{kind: 'u', op: op, hasCall: strings.HasPrefix(op, "call:"), args: append([]*Term(nil), args...)}
		for _, a := range args {
			if a.depth >= t.depth {
				t.depth = a.depth + 1
			}
			t.hasNode = t.hasNode || a.hasNode
			t.hasCall = t.hasCall || a.hasCall
		}
		return t
	})
}

func (in *Interner) PureT(typ types.Type, op string, args ...*Term) *Term {
	t := in.Pure(op, args...)
	if t.typ == nil {
		t.typ = typ
	}
	return t
}

func (in *Interner) Int(v int64) *Term  { return in.Const(constant.MakeInt64(v)) }
func (in *Interner) Str(s string) *Term { return in.Const(constant.MakeString(s)) }
func (in *Interner) Bool(b bool) *Term  { return in.Const(constant.MakeBool(b)) }
func (in *Interner) Nil() *Term {
	return in.mk("c|nil", func() *Term { return &Term{kind: 'c', op: "nil"} })
}
func (in *Interner) Const(v constant.Value) *Term {
	if v.Kind() == constant.Float {
		if i := constant.ToInt(v); i.Kind() == constant.Int {
			v = i
		}
	}
	return in.mk("c|"+v.Kind().String()+"|"+v.ExactString(), func() *Term { return &Term{kind: 'c', op: "k", cv: v} })
}
func (in *Interner) Zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return in.Bool(false)
		case u.Info()&types.IsString != 0:
			return in.Str("")
		case u.Info()&types.IsNumeric != 0:
			return in.Int(0)
		}
		return in.Nil()
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return in.Nil()
	}
	key := "c|zero|" + types.TypeString(t, nil)
	return in.mk(key, func() *Term { return &Term{kind: 'c', op: "zero", typ: t} })
}
func (in *Interner) Node(ctx int, label any, id int, gen int, typ types.Type) *Term {
	return in.mk(fmt.Sprintf("n|%d|%d|%d", ctx, id, gen), func() *Term {
		return &Term{kind: 'n', ctx: ctx, val: label, gen: gen, typ: typ, hasNode: true, op: strconv.Itoa(id)}
	})
}
func (in *Interner) Param(name string, typ types.Type) *Term {
	return in.mk("p|"+name, func() *Term { return &Term{kind: 'p', op: name, typ: typ} })
}

func (t *Term) isConst() bool { return t.kind == 'c' }
func (t *Term) intVal() (int64, bool) {
	if t.kind == 'c' && t.cv != nil && t.cv.Kind() == constant.Int {
		return constant.Int64Val(t.cv)
	}
	return 0, false
}
func (t *Term) strVal() (string, bool) {
	if t.kind == 'c' && t.cv != nil && t.cv.Kind() == constant.String {
		return constant.StringVal(t.cv), true
	}
	return "", false
}
func (t *Term) boolVal() (bool, bool) {
	if t.kind == 'c' && t.cv != nil && t.cv.Kind() == constant.Bool {
		return constant.BoolVal(t.cv), true
	}
	return false, false
}
func (t *Term) isNil() bool              { return t.kind == 'c' && t.op == "nil" }
func (t *Term) is(op string) bool        { return t.kind == 'u' && t.op == op }
func (t *Term) hasOp(prefix string) bool { return t.kind == 'u' && strings.HasPrefix(t.op, prefix) }

// contains reports whether sub occurs in t.
func (t *Term) contains(sub *Term) bool {
	if t == sub {
		return true
	}
	if sub.hasNode && !t.hasNode || sub.depth >= t.depth {
		return false
	}
	for _, a := range t.args {
		if a.contains(sub) {
			return true
		}
	}
	return false
}

func (t *Term) anyTerm(f func(*Term) bool) bool {
	if f(t) {
		return true
	}
	for _, a := range t.args {
		if a.anyTerm(f) {
			return true
		}
	}
	return false
}

func (t *Term) String() string {
	switch t.kind {
	case 'c':
		if t.cv != nil {
			return t.cv.ExactString()
		}
		return t.op
	case 'p':
		return "$" + t.op
	case 'g':
		return "&" + t.op
	case 's':
		return t.op
	case 'f':
		return "func " + t.op
	case 'n':
		s := ""
		switch x := t.val.(type) {
		case ssa.Instruction:
			if v, ok := x.(ssa.Value); ok {
				if c, ok := x.(*ssa.Call); ok {
					s = "call " + commonName(c.Common())
				} else {
					s = fmt.Sprintf("%s=%s", v.Name(), v.String())
				}
			} else {
				s = x.String()
			}
		default:
			s = fmt.Sprint(x)
		}
		if t.gen > 0 {
			s += strings.Repeat("'", t.gen)
		}
		return "<" + s + ">"
	}
	if len(t.args) == 0 {
		return t.op
	}
	var sb strings.Builder
	sb.WriteString(t.op)
	sb.WriteByte('(')
	for i, a := range t.args {
		if i > 0 {
			sb.WriteString(", ")
		}
		sb.WriteString(a.String())
	}
	sb.WriteByte(')')
	return sb.String()
}

// ------------------------------------------------------------ byte sets

type ByteSet [4]uint64

func (b *ByteSet) has(i int) bool { return b[i>>6]&(1<<(uint(i)&63)) != 0 }
func (b *ByteSet) add(i int)      { b[i>>6] |= 1 << (uint(i) & 63) }
func (b ByteSet) and(o ByteSet) ByteSet {
	for i := range b {
		b[i] &= o[i]
	}
	return b
}
func (b ByteSet) or(o ByteSet) ByteSet {
	for i := range b {
		b[i] |= o[i]
	}
	return b
}
func (b ByteSet) not() ByteSet {
	for i := range b {
		b[i] = ^b[i]
	}
	return b
}
func (b ByteSet) empty() bool { return b == ByteSet{} }
func (b ByteSet) count() int {
	n := 0
	for i := 0; i < 256; i++ {
		if b.has(i) {
			n++
		}
	}
	return n
}
func (b ByteSet) subsetOf(o ByteSet) bool { return b.and(o.not()).empty() }
func fullSet() ByteSet                    { return ByteSet{}.not() }
func setOf(s string) ByteSet {
	var b ByteSet
	for i := 0; i < len(s); i++ {
		b.add(int(s[i]))
	}
	return b
}
func setRange(lo, hi int) ByteSet {
	var b ByteSet
	for i := max(lo, 0); i <= hi && i < 256; i++ {
		b.add(i)
	}
	return b
}
func (b ByteSet) String() string {
	var parts []string
	for i := 0; i < 256; {
		if !b.has(i) {
			i++
			continue
		}
		j := i
		for j+1 < 256 && b.has(j+1) {
			j++
		}
		q := func(c int) string { return strconv.QuoteRuneToASCII(rune(c)) }
		if j == i {
			parts = append(parts, q(i))
		} else {
			parts = append(parts, q(i)+"-"+q(j))
		}
		i = j + 1
	}
	return "{" + strings.Join(parts, " ") + "}"
}

// ------------------------------------------------------------ arithmetic

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isBoolType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isWideInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return false
	}
	return b.Kind() == types.Int || b.Kind() == types.Int64
}
func isByteType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}
func intBits(t types.Type) (bits int, unsigned bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, false
	case types.Int16:
		return 16, false
	case types.Int32:
		return 32, false
	case types.Int, types.Int64, types.UntypedInt:
		return 64, false
	case types.Uint8:
		return 8, true
	case types.Uint16:
		return 16, true
	case types.Uint32:
		return 32, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, true
	case types.UntypedRune:
		return 32, false
	}
	return 0, false
}

type linForm struct {
	c int64
	k map[*Term]int64
}

func (in *Interner) lin(t *Term) linForm {
	if v, ok := t.intVal(); ok {
		return linForm{v, map[*Term]int64{}}
	}
	if t.kind == 'u' && strings.HasPrefix(t.op, "lin:") {
		parts := strings.Split(t.op[4:], ",")
		c, _ := strconv.ParseInt(parts[0], 10, 64)
		k := map[*Term]int64{}
		for i, a := range t.args {
			k[a], _ = strconv.ParseInt(parts[i+1], 10, 64)
		}
		return linForm{c, k}
	}
	return linForm{0, map[*Term]int64{t: 1}}
}

func (in *Interner) fromLin(l linForm, typ types.Type) *Term {
	var ts []*Term
	for t, k := range l.k {
		if k != 0 {
			ts = append(ts, t)
		}
	}
	if len(ts) == 0 {
		return in.Int(l.c)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	if len(ts) == 1 && l.c == 0 && l.k[ts[0]] == 1 {
		return ts[0]
	}
	op := "lin:" + strconv.FormatInt(l.c, 10)
	for _, t := range ts {
		op += "," + strconv.FormatInt(l.k[t], 10)
	}
	return in.PureT(typ, op, ts...)
}

func (in *Interner) linAdd(a, b *Term, kb int64, typ types.Type) *Term {
	la, lb := in.lin(a), in.lin(b)
	r := linForm{la.c + kb*lb.c, map[*Term]int64{}}
	for t, k := range la.k {
		r.k[t] += k
	}
	for t, k := range lb.k {
		r.k[t] += kb * k
	}
	return in.fromLin(r, typ)
}

// BinOp builds the term of an arithmetic operation of result type typ.
func (in *Interner) BinOp(op token.Token, a, b *Term, typ types.Type) *Term {
	if a.cv != nil && b.cv != nil {
		if v := foldBin(op, a.cv, b.cv, typ); v != nil {
			return in.Const(v)
		}
	}
	if isWideInt(typ) {
		switch op {
		case token.ADD:
			return in.linAdd(a, b, 1, typ)
		case token.SUB:
			return in.linAdd(a, b, -1, typ)
		case token.MUL:
			if k, ok := b.intVal(); ok {
				return in.linAdd(in.Int(0), a, k, typ)
			}
			if k, ok := a.intVal(); ok {
				return in.linAdd(in.Int(0), b, k, typ)
			}
		case token.SHL:
			if k, ok := b.intVal(); ok && k >= 0 && k < 62 {
				return in.linAdd(in.Int(0), a, 1<<uint(k), typ)
			}
		}
	}
	if (op == token.ADD || op == token.MUL || op == token.XOR || op == token.OR || op == token.AND) && a.id > b.id {
		if bt, ok := typ.Underlying().(*types.Basic); ok && bt.Info()&types.IsNumeric != 0 {
			a, b = b, a
		}
	}
	t := in.PureT(typ, op.String(), a, b)
	return t
}

func foldBin(op token.Token, a, b constant.Value, typ types.Type) (res constant.Value) {
	defer func() {
		if recover() != nil {
			res = nil
		}
	}()
	bits, uns := intBits(typ)
	switch op {
	case token.SHL, token.SHR:
		n, ok := constant.Uint64Val(b)
		if !ok || n > 64 {
			return nil
		}
		res = constant.Shift(a, op, uint(n))
	case token.QUO:
		if bits > 0 {
			if constant.Sign(b) == 0 {
				return nil
			}
			res = constant.BinaryOp(a, token.QUO_ASSIGN, b)
		} else {
			res = constant.BinaryOp(a, op, b)
		}
	case token.REM:
		if constant.Sign(b) == 0 {
			return nil
		}
		res = constant.BinaryOp(a, op, b)
	case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR, token.AND_NOT:
		res = constant.BinaryOp(a, op, b)
	default:
		return nil
	}
	if bits > 0 && res.Kind() == constant.Int {
		if v, ok := constant.Int64Val(res); ok {
			switch {
			case bits == 64 && !uns:
				return res
			case uns && bits < 64:
				return constant.MakeInt64(v & (1<<uint(bits) - 1))
			case uns:
				if v < 0 {
					return nil
				}
				return res
			default:
				sh := uint(64 - bits)
				return constant.MakeInt64(v << sh >> sh)
			}
		}
		return nil
	}
	return res
}
