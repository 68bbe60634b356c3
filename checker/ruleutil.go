package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// finish folds an engine run into the report.
func (r *Report) finish(e *Engine, what string) {
	r.States += e.total
	r.Steps += e.Steps
	if e.root != nil {
		r.Functions[fnName(e.root)] = true
	}
	for f := range e.Inlined {
		r.Functions[f] = true
	}
	for _, u := range e.Undecided {
		r.fail("undecided", what, "-", u, nil)
	}
}

// fn resolves an anchor; a missing anchor is a finding.
func (r *Report) anchor(p *Program, name string) *ssa.Function {
	f := p.Func(name)
	if f == nil {
		r.fail("anchor", name, "-", "anchor "+name+" not found in package pdf", nil)
	}
	return f
}

// strip removes wrappers that do not change the bytes of a value.
func strip(t *Term) *Term {
	for t.kind == 'u' && len(t.args) > 0 && (strings.HasPrefix(t.op, "iface:") || t.op == "str" || t.op == "bytes" || t.op == "bytesof") {
		t = t.args[0]
	}
	return t
}

// okOf and valOf are the results of a two-result lookup.
func (e *Engine) okOf(t *Term) *Term  { return e.in.PureT(types.Typ[types.Bool], "x:1", t) }
func (e *Engine) valOf(t *Term) *Term { return e.in.Pure("x:0", t) }

// getter recognises a typed lookup: receiver, key term.
func getter(c *Call, name string) bool {
	return c.Name == name
}

// outputField tells which file of the output object a term is ("" if none).
func (e *Engine) outputField(st *State, t *Term) string {
	t = strip(t)
	for k, v := range st.cells {
		if v == t && k.hasOp("faddr:Output.") {
			return strings.TrimPrefix(k.op, "faddr:Output.")
		}
	}
	return ""
}

// Write is a write event to a file, writer or builder.
type Write struct {
	Dest   *Term
	Data   []*Term // pieces in order, constants included
	Format string
}

// asWrite recognises formatted and plain writes.
func (e *Engine) asWrite(st *State, c *Call) *Write {
	last := func(n int) []*Term {
		if len(c.Args) <= n {
			return nil
		}
		va := e.Varargs(st, c.Args[n])
		if va == nil {
			return []*Term{c.Args[n]}
		}
		return va
	}
	flat := func(ts []*Term) []*Term {
		var out []*Term
		for _, t := range ts {
			out = append(out, e.pieces(st, t)...)
		}
		return out
	}
	switch c.Name {
	case "fmt.Fprintln", "fmt.Fprint":
		return &Write{Dest: strip(c.Args[0]), Data: flat(last(1))}
	case "fmt.Fprintf":
		f, _ := c.Args[1].strVal()
		return &Write{Dest: strip(c.Args[0]), Data: e.formatPieces(st, f, last(2)), Format: f}
	case "io.WriteString":
		return &Write{Dest: strip(c.Args[0]), Data: e.pieces(st, c.Args[1])}
	case "(*os.File).WriteString", "(*os.File).Write", "iface io.Writer.Write", "iface io.StringWriter.WriteString",
		"(*strings.Builder).WriteString", "(*strings.Builder).Write", "(*bytes.Buffer).WriteString", "(*bytes.Buffer).Write",
		"(*strings.Builder).WriteByte", "(*bytes.Buffer).WriteByte", "(*bufio.Writer).WriteString", "(*bufio.Writer).Write":
		return &Write{Dest: strip(c.Args[0]), Data: e.pieces(st, c.Args[1])}
	}
	return nil
}

// pieces splits concatenations and formatted strings.
func (e *Engine) pieces(st *State, t *Term) []*Term {
	t = strip(t)
	if t.is("+") && len(t.args) == 2 {
		return append(e.pieces(st, t.args[0]), e.pieces(st, t.args[1])...)
	}
	if t.is("cat") {
		var out []*Term
		for _, a := range t.args {
			out = append(out, e.pieces(st, a)...)
		}
		return out
	}
	if t.is("call:fmt.Sprintf") {
		if f, ok := t.args[0].strVal(); ok {
			return e.formatPieces(st, f, t.args[1:])
		}
	}
	if t.is("call:encoding/hex.EncodeToString") {
		return []*Term{e.in.Pure("hex", t.args[0])}
	}
	if t.is("call:fmt.Sprint") || t.is("call:fmt.Sprintln") {
		var out []*Term
		for _, a := range t.args {
			out = append(out, e.pieces(st, a)...)
		}
		if t.op == "call:fmt.Sprintln" {
			out = append(out, e.in.Str("\n"))
		}
		return out
	}
	return []*Term{t}
}

func (e *Engine) formatPieces(st *State, f string, args []*Term) []*Term {
	var out []*Term
	lit := ""
	flush := func() {
		if lit != "" {
			out = append(out, e.in.Str(lit))
			lit = ""
		}
	}
	for i := 0; i < len(f); i++ {
		if f[i] != '%' || i+1 >= len(f) {
			lit += string(f[i])
			continue
		}
		i++
		switch f[i] {
		case '%':
			lit += "%"
		case 's', 'v', 'd':
			flush()
			if len(args) > 0 {
				out = append(out, e.pieces(st, args[0])...)
				args = args[1:]
			}
		default:
			flush()
			if len(args) > 0 {
				a := strip(args[0])
				if f[i] == 'x' && a.typ != nil && !isIntType(a.typ) || f[i] == 'x' && a.is("md5") {
					out = append(out, e.in.Pure("hex", e.Content(st, a)))
				} else {
					out = append(out, e.in.Pure("fmt%"+string(f[i]), args[0]))
				}
				args = args[1:]
			}
		}
	}
	flush()
	return out
}

func hasPiece(ps []*Term, t *Term) bool {
	t = strip(t)
	for _, p := range ps {
		if strip(p) == t {
			return true
		}
	}
	return false
}

// ------------------------------------------------------------ SSA origins and loops

// origin follows parameters of inlined functions to the caller's argument and removes
// representation-only conversions.
func origin(ctx *Ctx, v ssa.Value) (*Ctx, ssa.Value) {
	for {
		switch x := v.(type) {
		case *ssa.Parameter:
			if ctx.parent == nil || ctx.call == nil {
				return ctx, v
			}
			com := ctx.call.Common()
			idx := -1
			for i, p := range ctx.fn.Params {
				if p == x {
					idx = i
				}
			}
			args := com.Args
			if com.IsInvoke() {
				if idx == 0 {
					return ctx.parent, com.Value
				}
				idx--
			}
			if idx < 0 || idx >= len(args) {
				return ctx, v
			}
			ctx, v = ctx.parent, args[idx]
		case *ssa.ChangeType:
			v = x.X
		case *ssa.FreeVar:
			return ctx, v
		default:
			return ctx, v
		}
	}
}

// IVUse describes an index expression phi+off in a counting loop.
type IVUse struct {
	Ctx   *Ctx
	Loop  *Loop
	IV    *inductive
	Off   int64  // index = phi + Off
	First *int64 // first index value when the start is constant
}

// ivUse recognises v as an affine function of a loop counter.
func (p *Program) ivUse(ctx *Ctx, v ssa.Value) *IVUse {
	ctx, v = origin(ctx, v)
	off := int64(0)
	for {
		if bo, ok := v.(*ssa.BinOp); ok && (bo.Op == token.ADD || bo.Op == token.SUB) {
			if c, ok := bo.Y.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
				if bo.Op == token.ADD {
					off += c.Int64()
				} else {
					off -= c.Int64()
				}
				ctx, v = origin(ctx, bo.X)
				continue
			}
			if c, ok := bo.X.(*ssa.Const); ok && bo.Op == token.ADD && c.Value != nil && c.Value.Kind() == constant.Int {
				off += c.Int64()
				ctx, v = origin(ctx, bo.Y)
				continue
			}
		}
		break
	}
	phi, ok := v.(*ssa.Phi)
	if !ok {
		return nil
	}
	iv := p.inductive(phi)
	if iv == nil {
		return nil
	}
	l := p.Loops(ctx.fn).ByHeader[phi.Block()]
	if l == nil {
		return nil
	}
	u := &IVUse{Ctx: ctx, Loop: l, IV: iv, Off: off}
	if iv.startConst != nil {
		f := *iv.startConst + off
		u.First = &f
	}
	return u
}

// boundExit reports whether the edge from->to leaves the loop because the counter reached
// the end: the branch compares counter+k with limit.  It returns the SSA limit operand, the
// offset k of the compared value, and whether the loop continues while counter+k < limit
// (false: continues while <=, != etc. are returned as op).
type boundExit struct {
	k     int64
	limit ssa.Value
	op    token.Token // loop continues while phi+k op limit
}

func (p *Program) loopBound(fn *ssa.Function, l *Loop, iv *inductive, from *ssa.BasicBlock) *boundExit {
	if len(from.Instrs) == 0 {
		return nil
	}
	iff, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	stayTrue := l.Body[from.Succs[0]]
	if stayTrue == l.Body[from.Succs[1]] {
		return nil
	}
	cond := iff.Cond
	for {
		if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
			cond = u.X
			stayTrue = !stayTrue
			continue
		}
		break
	}
	bo, ok := cond.(*ssa.BinOp)
	if !ok {
		return nil
	}
	op := bo.Op
	x, y := bo.X, bo.Y
	off := func(v ssa.Value) (int64, bool) {
		o := int64(0)
		for {
			if v == ssa.Value(iv.phi) {
				return o, true
			}
			b, ok := v.(*ssa.BinOp)
			if !ok || b.Op != token.ADD && b.Op != token.SUB {
				return 0, false
			}
			c, ok := b.Y.(*ssa.Const)
			if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
				return 0, false
			}
			if b.Op == token.ADD {
				o += c.Int64()
			} else {
				o -= c.Int64()
			}
			v = b.X
		}
	}
	k, okx := off(x)
	if !okx {
		k2, oky := off(y)
		if !oky {
			return nil
		}
		k = k2
		x, y = y, x
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.GEQ:
			op = token.LEQ
		}
	}
	if !stayTrue {
		switch op {
		case token.LSS:
			op = token.GEQ
		case token.GEQ:
			op = token.LSS
		case token.GTR:
			op = token.LEQ
		case token.LEQ:
			op = token.GTR
		case token.EQL:
			op = token.NEQ
		case token.NEQ:
			op = token.EQL
		}
	}
	return &boundExit{k, y, op}
}

// covers decides whether the counting loop visits every index in [first, length) with the
// given step: index = phi+Off runs from First while index < length.
func (e *Engine) covers(st *State, u *IVUse, coll *Term, first, step int64) (bool, string) {
	if u.First == nil || *u.First != first {
		return false, "the loop does not start at the first element"
	}
	if u.IV.step != step {
		return false, fmt.Sprintf("the loop advances by %d instead of %d", u.IV.step, step)
	}
	ln := e.Len(st, coll, nil)
	found := false
	for b := range u.Loop.Body {
		for _, s := range b.Succs {
			if u.Loop.Body[s] {
				continue
			}
			be := e.p.loopBound(u.Ctx.fn, u.Loop, u.IV, b)
			if be == nil {
				continue
			}
			lim := e.reTerm(st, u.Ctx, be.limit)
			// continue while phi+k op lim must equal: index < len  <=>  phi+Off < len
			d := e.in.lin(e.in.linAdd(lim, ln, -1, types.Typ[types.Int]))
			if len(d.k) != 0 {
				return false, "the loop bound " + trunc(lim.String(), 80) + " is not the length of the collection"
			}
			// phi + k < ln + d.c  <=> phi + (k - d.c) < ln
			k := be.k - d.c
			switch be.op {
			case token.LSS:
			case token.LEQ:
				k--
			case token.NEQ:
				if step != 1 {
					return false, "the loop ends by inequality with a step other than one"
				}
			default:
				return false, "the loop condition has the wrong direction"
			}
			// for step s, a loop that stops at an incomplete last group still visits all full groups
			if k != u.Off {
				if !(step > 1 && k > u.Off && k < u.Off+step-first%step) {
					return false, "the loop stops before or after the last element"
				}
			}
			found = true
		}
	}
	if !found {
		return false, "the loop is not bounded by the length of the collection"
	}
	return true, ""
}

// loopOf gives the loop of the edge target when the edge enters a loop header or stays in it.
type edgeKind int

const (
	edgeOther edgeKind = iota
	edgeEnter          // from outside to header
	edgeBack           // back to header
	edgeBody           // from header/inside to inside
	edgeExit           // leaves the loop
)

func (l *Loop) kind(from, to *ssa.BasicBlock) edgeKind {
	in, out := l.Body[from], l.Body[to]
	switch {
	case !in && to == l.Header:
		return edgeEnter
	case in && to == l.Header:
		return edgeBack
	case in && !out:
		return edgeExit
	case in && out:
		return edgeBody
	}
	return edgeOther
}

// reTerm gives the term of a value, recomputing dead pure values from their operands.
func (e *Engine) reTerm(st *State, ctx *Ctx, v ssa.Value) *Term {
	if !isEnvValue(v) || st.env[envKey{ctx.id, v}] != nil {
		return e.V(st, ctx, v)
	}
	switch x := v.(type) {
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
			return e.Len(st, e.reTerm(st, ctx, x.Call.Args[0]), nil)
		}
	case *ssa.BinOp:
		return e.in.BinOp(x.Op, e.reTerm(st, ctx, x.X), e.reTerm(st, ctx, x.Y), x.Type())
	case *ssa.ChangeType:
		return e.reTerm(st, ctx, x.X)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			a := e.reTerm(st, ctx, x.X)
			if c, ok := st.cells[a]; ok {
				return c
			}
			if a.kind == 'g' {
				if t := e.globalValue(a.glob); t != nil {
					return t
				}
			}
		}
	case *ssa.FieldAddr:
		return e.in.PureT(x.Type(), "faddr:"+fieldKey(x.X.Type(), x.Field), e.reTerm(st, ctx, x.X))
	case *ssa.Extract:
		t := e.reTerm(st, ctx, x.Tuple)
		if t.is("tuple") {
			return t.args[x.Index]
		}
		return e.in.PureT(x.Type(), "x:"+fmt.Sprint(x.Index), t)
	}
	return e.V(st, ctx, v)
}
