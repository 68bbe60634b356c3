package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Cond is a boolean term with the truth value a requirement needs.
type Cond struct {
	T    *Term
	Want bool
}

// Req is "whenever no condition is refuted when the root returns, the event has happened".
type Req struct {
	Name  string
	Conds []Cond
	Done  func(st *State, c *Call) bool
	Msg   string
	Flag  string // state flag that must be set for the requirement to apply
}

// runReq analyses root once for one requirement.
func runReq(p *Program, r *Report, root *ssa.Function, opaque func(*ssa.Function) bool, init func(e *Engine, st *State, ctx *Ctx), mk func(e *Engine) *Req) {
	e := NewEngine(p)
	if opaque != nil {
		e.Opaque = opaque
	}
	var q *Req
	exits, hits := 0, 0
	e.H.Call = func(st *State, c *Call) {
		if c.Inlined && e.p.InRepo(c.Fn) && !baselineAPI[c.Name] {
			return
		}
		if q.Done(st, c) {
			st.flags["done"] = "1"
			hits++
		}
	}
	e.H.Ret = func(st *State, ctx *Ctx, in *ssa.Return, res []*Term) {
		exits++
		if e.refuted(st, q.Conds) {
			return
		}
		if st.flags["done"] == "" && (q.Flag == "" || st.flags[q.Flag] != "") {
			r.fail(q.Name, fnName(root), p.InstrPos(in), q.Msg, st.Path())
		}
	}
	e.Run(root, func(st *State, ctx *Ctx) {
		if init != nil {
			init(e, st, ctx)
		}
		q = mk(e)
		for _, c := range q.Conds {
			e.Keep = append(e.Keep, c.T)
		}
	})
	_, bad := r.Findings[q.Name+"|"+fnName(root)]
	r.ob(!bad && exits > 0)
	if exits == 0 {
		r.fail(q.Name, fnName(root), p.Pos(root.Pos()), "no return of "+fnName(root)+" was reached by the analysis", nil)
	}
	r.Sites += hits
	r.sample("%s: %d abstract exits of %s checked, event sites matched %d times", q.Name, exits, fnName(root), hits)
	r.finish(e, q.Name)
}

// refuted reports whether some condition is known to be false on this path.
func (e *Engine) refuted(st *State, cs []Cond) bool {
	s := st.clone()
	for _, c := range cs {
		if !e.Assume(s, c.T, c.Want) {
			return true
		}
	}
	return false
}

// agrees reports whether boolean term t equals the conjunction of conds on this path.
func (e *Engine) agrees(st *State, t *Term, conds []Cond) bool {
	s := st.clone()
	feasible := true
	for _, c := range conds {
		feasible = feasible && e.Assume(s, c.T, c.Want)
	}
	if feasible && e.Assume(s.clone(), t, false) {
		return false
	}
	for _, c := range conds {
		s := st.clone()
		if e.Assume(s, c.T, !c.Want) && e.Assume(s, t, true) {
			return false
		}
	}
	return true
}

// terms for typed lookups
func (e *Engine) get(recv *Term, method, key string) *Term {
	kind := "Dictionary."
	return e.in.Pure("call:"+kind+method, recv, e.in.Str(key))
}

// ------------------------------------------------------------ traversals

// Traversal checks that a loop visits every element of a collection.
type Traversal struct {
	e           *Engine
	r           *Report
	name        string
	first, step int64
	loops       map[string]*travLoop
	// AtEnd is called when an iteration ends (back edge) or the loop is left from inside
	AtEnd      func(st *State, ctx *Ctx, pos string)
	AllowEarly func(st *State, ctx *Ctx, from, to *ssa.BasicBlock) bool
	checked    map[string]bool
	only       map[string]bool // loops to be judged (nil: all)
	last       string          // the loop of the latest visit
}

type travLoop struct {
	ctxID int
	ctx   *Ctx
	loop  *Loop
	iv    *inductive // nil for map ranges
}

func (t *Traversal) key(ctx *Ctx, l *Loop) string {
	return fmt.Sprintf("%s#%d", fnName(ctx.fn), l.Header.Index)
}

func (t *Traversal) nextInstr(l *Loop) *ssa.Next {
	for _, in := range l.Header.Instrs {
		if n, ok := in.(*ssa.Next); ok {
			return n
		}
	}
	return nil
}

// Visit records that the element of coll at index idx is being handled.
func (t *Traversal) Visit(st *State, ctx *Ctx, idx ssa.Value, coll *Term, pos string) bool {
	u := t.e.p.ivUse(ctx, idx)
	if u == nil {
		return false
	}
	ok, why := t.e.covers(st, u, coll, t.first, t.step)
	k := t.key(u.Ctx, u.Loop)
	if t.only != nil && !t.only[k] {
		return false
	}
	t.last = k
	if !ok {
		t.r.fail(t.name, fnName(u.Ctx.fn), pos, "not every element is visited: "+why, st.Path())
	}
	t.loops[k] = &travLoop{u.Ctx.id, u.Ctx, u.Loop, u.IV}
	st.flags["visit:"+t.name] = "1"
	return true
}

// VisitKey records that the entry with key term k (from ranging over map coll) is handled.
func (t *Traversal) VisitKey(st *State, ctx *Ctx, key *Term, pos string) bool {
	if !key.hasOp("x:1") && !key.hasOp("x:2") {
		return false
	}
	n := key.args[0]
	if n.kind != 'n' {
		return false
	}
	nx, ok := n.val.(*ssa.Next)
	if !ok {
		return false
	}
	c := t.e.ctxs[n.ctx]
	l := t.e.p.Loops(c.fn).ByHeader[nx.Block()]
	if l == nil {
		return false
	}
	k := t.key(c, l)
	if t.only != nil && !t.only[k] {
		return false
	}
	t.last = k
	t.loops[k] = &travLoop{c.id, c, l, nil}
	st.flags["visit:"+t.name] = "1"
	return true
}

// Edge must be called from the engine's Edge hook.
func (t *Traversal) Edge(st *State, ctx *Ctx, from, to *ssa.BasicBlock) {
	for _, tl := range t.loops {
		if tl.loop.Header.Parent() != ctx.fn {
			continue
		}
		pos := t.e.p.InstrPos(from.Instrs[len(from.Instrs)-1])
		switch tl.loop.kind(from, to) {
		case edgeEnter:
			delete(st.flags, "visit:"+t.name)
			st.flags["entered:"+t.name] = "1"
		case edgeBack:
			if st.flags["visit:"+t.name] == "" {
				t.r.fail(t.name, fnName(ctx.fn), pos, "an iteration of the loop can end without handling its element", st.Path())
			}
			if t.AtEnd != nil {
				t.AtEnd(st, ctx, pos)
			}
			delete(st.flags, "visit:"+t.name)
		case edgeExit:
			natural := false
			if tl.iv != nil {
				natural = t.e.p.loopBound(ctx.fn, tl.loop, tl.iv, from) != nil
			} else {
				natural = from == tl.loop.Header
			}
			if natural {
				delete(st.flags, "visit:"+t.name)
				continue
			}
			if t.AllowEarly != nil && t.AllowEarly(st, ctx, from, to) {
				continue
			}
			t.r.fail(t.name, fnName(ctx.fn), pos, "the loop can be left before every element has been handled", st.Path())
			if t.AtEnd != nil {
				t.AtEnd(st, ctx, pos)
			}
		}
	}
}

func shortName(s string) string {
	if i := strings.LastIndexByte(s, '.'); i >= 0 {
		return s[i+1:]
	}
	return s
}
