package main

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// relevance is a backward slice of the program from the integer operands and the containers
// of the sites that need a bound. What is outside the slice can be forgotten: forgetting only
// loses precision.
type relevance struct {
	p    *Program
	val  map[ssa.Value]bool
	mem  map[string]bool // fields, element types, variables
	work []ssa.Value
	st   map[string][]ssa.Value // stores by place
	cond map[ssa.Value]bool
	opaq func(*ssa.Function) bool
	full bool
}

func place(addr ssa.Value) string {
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		return "faddr:" + fieldKey(a.X.Type(), a.Field)
	case *ssa.IndexAddr:
		return "elem:" + typeKey(deref(a.Type()))
	case *ssa.Global:
		return "global:" + a.String()
	case *ssa.Alloc, *ssa.FreeVar, *ssa.Parameter, *ssa.Phi:
		return "ptr:" + typeKey(deref(a.Type()))
	}
	return "ptr:" + typeKey(deref(addr.Type()))
}

func newRelevance(p *Program, opaque func(*ssa.Function) bool, reach, want map[*ssa.Function]bool) *relevance {
	x := &relevance{p: p, val: map[ssa.Value]bool{}, mem: map[string]bool{}, st: map[string][]ssa.Value{}, opaq: opaque}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					k := place(s.Addr)
					x.st[k] = append(x.st[k], s.Val)
				}
			}
		}
	}
	for f := range reach {
		for _, s := range p.boundSites(f) {
			switch y := s.in.(type) {
			case ssa.CallInstruction:
				c := y.Common()
				x.add(c.Value)
				for _, a := range c.Args {
					x.add(a)
				}
			case *ssa.BinOp:
				x.add(y.Y)
			default:
				var ops []*ssa.Value
				for _, o := range y.Operands(ops) {
					x.add(*o)
				}
			}
		}
	}
	for f := range reach {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() != nil && want[c.Common().StaticCallee()] {
					for _, a := range c.Common().Args {
						x.add(a)
					}
				}
			}
		}
	}
	for {
		for len(x.work) > 0 {
			v := x.work[len(x.work)-1]
			x.work = x.work[:len(x.work)-1]
			x.visit(v)
		}
		x.cond = map[ssa.Value]bool{}
		for f := range reach {
			for _, b := range f.Blocks {
				if len(b.Instrs) == 0 {
					continue
				}
				if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
					x.condition(i.Cond, map[ssa.Value]bool{})
				}
			}
		}
		if len(x.work) == 0 {
			break
		}
	}
	return x
}

func (x *relevance) add(v ssa.Value) {
	if v == nil || x.val[v] {
		return
	}
	switch v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Builtin, *ssa.Global:
		return
	}
	x.val[v] = true
	x.work = append(x.work, v)
}

func (x *relevance) addMem(k string) {
	if x.mem[k] {
		return
	}
	x.mem[k] = true
	for _, v := range x.st[k] {
		x.add(v)
	}
}

// visit adds what the value of v depends on, and the parameters it becomes.
func (x *relevance) visit(v ssa.Value) {
	switch y := v.(type) {
	case *ssa.UnOp:
		if y.Op == token.MUL {
			x.addMem(place(y.X))
			x.add(y.X)
		} else {
			x.add(y.X)
		}
	case *ssa.FieldAddr:
		x.addMem(place(y))
	case *ssa.IndexAddr:
		if !isByteType(deref(y.Type())) {
			x.addMem(place(y))
		}
	case *ssa.Lookup, *ssa.TypeAssert:
	case *ssa.Call:
		c := y.Common()
		callees, _ := x.p.Callees(c)
		inlined := false
		for _, g := range callees {
			if x.p.InRepo(g) && !x.opaq(g) && len(g.Blocks) > 0 {
				inlined = true
				for _, b := range g.Blocks {
					if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
						for _, q := range r.Results {
							x.add(q)
						}
					}
				}
			}
		}
		if !inlined && len(callees) > 0 && x.p.InRepo(callees[0]) {
			break
		}
		if !inlined {
			for _, a := range c.Args {
				x.add(a)
			}
			if c.IsInvoke() {
				x.add(c.Value)
			}
		}
	case *ssa.Parameter:
		i := -1
		for k, q := range y.Parent().Params {
			if q == y {
				i = k
			}
		}
		for _, c := range x.p.callSites(y.Parent()) {
			if a := c.Common().Args; i >= 0 && i < len(a) {
				x.add(a[i])
			}
		}
	case *ssa.FreeVar:
		for i, q := range y.Parent().FreeVars {
			if q != y {
				continue
			}
			for _, f := range x.p.Funcs {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(y.Parent()) {
							x.add(mc.Bindings[i])
						}
					}
				}
			}
		}
	case *ssa.Alloc:
		x.addMem(place(y))
	case ssa.Instruction:
		var ops []*ssa.Value
		for _, o := range y.Operands(ops) {
			if *o != nil {
				x.add(*o)
			}
		}
	}
	// a relevant argument is a relevant parameter
	if refs := v.Referrers(); refs != nil {
		for _, r := range *refs {
			c, ok := r.(ssa.CallInstruction)
			if !ok {
				continue
			}
			for _, g := range x.callees(c.Common()) {
				if !x.p.InRepo(g) || x.opaq(g) {
					continue
				}
				for i, a := range c.Common().Args {
					if a == v && i < len(g.Params) && c.Common().StaticCallee() != nil {
						x.add(g.Params[i])
					}
				}
			}
		}
	}
}

// roots of an arithmetic expression.
func (x *relevance) leaves(v ssa.Value, seen map[ssa.Value]bool, f func(ssa.Value)) {
	if seen[v] {
		return
	}
	seen[v] = true
	f(v)
	switch y := v.(type) {
	case *ssa.BinOp:
		x.leaves(y.X, seen, f)
		x.leaves(y.Y, seen, f)
	case *ssa.Convert:
		x.leaves(y.X, seen, f)
	case *ssa.ChangeType:
		x.leaves(y.X, seen, f)
	case *ssa.UnOp:
		if y.Op != token.MUL {
			x.leaves(y.X, seen, f)
		}
	case *ssa.Call:
		if n := commonName(y.Common()); strings.HasPrefix(n, "builtin ") {
			for _, a := range y.Call.Args {
				x.leaves(a, seen, f)
			}
		}
	}
}

func (x *relevance) touches(v ssa.Value) bool {
	hit := false
	x.leaves(v, map[ssa.Value]bool{}, func(w ssa.Value) {
		if x.val[w] {
			hit = true
		}
		switch y := w.(type) {
		case *ssa.UnOp:
			if y.Op == token.MUL && x.mem[place(y.X)] && !strings.HasPrefix(place(y.X), "elem:") {
				hit = true
			}
		case *ssa.Extract:
			if x.val[y.Tuple] {
				hit = true
			}
			for _, r := range *y.Tuple.Referrers() {
				if z, ok := r.(*ssa.Extract); ok && x.val[z] {
					hit = true
				}
			}
		}
	})
	return hit
}

// condition reports whether the outcome of c bears on relevant values; the other operand of a
// comparison becomes relevant.
func (x *relevance) condition(c ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[c] {
		return x.cond[c]
	}
	seen[c] = true
	ok := false
	switch y := c.(type) {
	case *ssa.Const:
		return true
	case *ssa.BinOp:
		switch y.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			tx, ty := x.touches(y.X), x.touches(y.Y)
			ok = tx || ty
			if ok && isIntType(y.X.Type()) {
				if x.full || !tx {
					x.leaves(y.X, map[ssa.Value]bool{}, x.add)
				}
				if x.full || !ty {
					x.leaves(y.Y, map[ssa.Value]bool{}, x.add)
				}
			}
		default:
			ok = x.touches(y)
		}
	case *ssa.UnOp:
		if y.Op == token.NOT {
			ok = x.condition(y.X, seen)
		} else {
			ok = x.touches(y)
		}
	case *ssa.Phi:
		for _, v := range y.Edges {
			if _, k := v.(*ssa.Const); !k && x.condition(v, seen) {
				ok = true
			}
		}
	case *ssa.Extract:
		ok = x.touches(y)
		if call, k := y.Tuple.(*ssa.Call); k && x.callRelevant(call, y.Index, seen) {
			ok = true
		}
	case *ssa.Call:
		ok = x.touches(y) || x.callRelevant(y, 0, seen)
	default:
		ok = x.touches(c)
	}
	x.cond[c] = ok
	return ok
}

// callRelevant: the result of a helper is decided by relevant conditions.
func (x *relevance) callRelevant(c *ssa.Call, idx int, seen map[ssa.Value]bool) bool {
	for _, g := range x.callees(c.Common()) {
		if !x.p.InRepo(g) || x.opaq(g) {
			continue
		}
		for _, b := range g.Blocks {
			if len(b.Instrs) == 0 {
				continue
			}
			switch l := b.Instrs[len(b.Instrs)-1].(type) {
			case *ssa.Return:
				if idx < len(l.Results) {
					if _, k := l.Results[idx].(*ssa.Const); !k && x.condition(l.Results[idx], seen) {
						return true
					}
				}
			case *ssa.If:
				if x.condition(l.Cond, seen) {
					return true
				}
			}
		}
	}
	return false
}

// keepsCell: the contents of a memory cell bear on relevant values.
func (x *relevance) keepsCell(a *Term) bool {
	switch {
	case a.hasOp("faddr:"):
		return x.mem[a.op]
	case a.is("iaddr"):
		if a.typ == nil {
			return true
		}
		return x.mem["elem:"+typeKey(deref(a.typ))]
	case a.is("mapel"), a.is("mapok"):
		return false
	}
	return true
}

func (x *relevance) callees(c *ssa.CallCommon) []*ssa.Function {
	fs, _ := x.p.Callees(c)
	return fs
}
