package main

import (
	"go/token"
	"go/types"
	"slices"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Each is the rule "every element of a collection is handled": some loop of the root (or of a
// function looked through) visits all indexes or keys, and every iteration either refutes the
// element's conditions or contains the event.
type Each struct {
	Name        string
	Root        *ssa.Function
	Init        func(e *Engine, st *State, ctx *Ctx)
	Setup       func(e *Engine)                  // engine modes
	Coll        func(e *Engine, st *State) *Term // the slice or map to be visited (nil: not known yet)
	Pre         func(e *Engine) []Cond           // the collection matters only under these conditions
	First, Step int64
	Conds       func(e *Engine, st *State, el *Elem) []Cond // elements that must be handled
	Done        func(e *Engine, st *State, c *Call, el *Elem) bool
	Ret         func(e *Engine, st *State, in *ssa.Return, res []*Term) bool // returns to be ignored
	Returns     func(e *Engine, st *State, pos string, res []*Term)
	Early       func(e *Engine, st *State, ctx *Ctx, from, to *ssa.BasicBlock) bool
	Call        func(e *Engine, st *State, c *Call)
	After       func(e *Engine, st *State, c *Call, el *Elem)
	Model       func(e *Engine, st *State, c *Call) *Term
	Upd         func(e *Engine, st *State, m, k, v *Term, el *Elem) bool // map updates that handle the element
	Copies      func(e *Engine, st *State, dst *Term) bool               // maps.Copy of the whole collection to dst handles it
	Instr       func(e *Engine, st *State, ctx *Ctx, in ssa.Instruction) // further hooks
	Edge        func(e *Engine, st *State, ctx *Ctx, from, to *ssa.BasicBlock)
	MapUpd      func(e *Engine, st *State, ctx *Ctx, in *ssa.MapUpdate, m, k, v *Term)
	Msg         string
	pass        int // 0: finding the loops, 1: judging them
}

// Elem is the element being visited.
type Elem struct {
	Coll *Term // slice or map
	Idx  *Term // index or key
	X    *Term // the element itself, once it has been loaded
}

func isMapTerm(t *Term) bool {
	if t == nil || t.typ == nil {
		return false
	}
	_, ok := t.typ.Underlying().(*types.Map)
	return ok
}

// elem gives the element visited in the current iteration.
func (x *Each) elem(e *Engine, st *State) *Elem {
	coll, idx := st.pins["each.coll"], st.pins["each.idx"]
	if coll == nil || idx == nil {
		return nil
	}
	if coll.is("keysof") {
		k := st.pins["each.key"]
		if k == nil {
			if k = st.cells[e.in.Pure("iaddr", coll, idx)]; k == nil {
				return nil
			}
			st.pins["each.key"] = k
		}
		return &Elem{coll.args[0], k, x.pinned(st, e.mapCell("mapel", coll.args[0], k))}
	}
	if isMapTerm(coll) {
		return &Elem{coll, idx, x.pinned(st, e.mapCell("mapel", coll, idx))}
	}
	return &Elem{coll, idx, x.pinned(st, e.in.Pure("iaddr", coll, idx))}
}

// pinned is the element as it was first seen in this iteration.
func (x *Each) pinned(st *State, cell *Term) *Term {
	v := st.pins["each.x"]
	if v == nil {
		if v = st.cells[cell]; v != nil {
			st.pins["each.x"] = v
		}
	}
	return v
}

// clear forgets what was noted about the current iteration.
func (x *Each) clear(st *State, but ...string) {
	for k := range st.pins {
		if strings.HasPrefix(k, "each.") && !slices.Contains(but, k) {
			delete(st.pins, k)
		}
	}
	for k := range st.flags {
		if strings.HasPrefix(k, "each.") && k != "each.loop" {
			delete(st.flags, k)
		}
	}
	delete(st.flags, "done:"+x.Name)
}

func (x *Each) run(p *Program, r *Report) {
	loops := map[string]*travLoop{}
	before := len(r.Findings)
	if x.Step == 0 {
		x.Step = 1
	}
	hits, exits, copies := 0, 0, 0
	handling := map[string]bool{}
	for pass := 0; pass < 2; pass++ {
		x.pass = pass
		e := NewEngine(p)
		e.NoLookahead = true
		if x.Setup != nil {
			x.Setup(e)
		}
		rr := r
		if pass == 0 {
			rr = newReport(r.Prop)
		}
		t := &Traversal{e: e, r: rr, name: x.Name, first: x.First, step: x.Step, loops: loops}
		if pass == 1 {
			t.only = handling
			for k := range loops {
				if !handling[k] {
					delete(loops, k)
				}
			}
		}
		isColl := func(st *State, s *Term) bool {
			c := x.Coll(e, st)
			if c == nil {
				return false
			}
			return s == c || s.is("keysof") && s.args[0] == c
		}
		visit := func(st *State, ctx *Ctx, coll, idx *Term) {
			st.flags["each.loop"] = t.last
			if st.pins["each.idx"] != idx {
				st.pins["each.coll"], st.pins["each.idx"] = coll, idx
				x.clear(st, "each.coll", "each.idx")
			}
		}
		if pass == 1 {
			t.AtEnd = func(st *State, ctx *Ctx, pos string) {
				el := x.elem(e, st)
				if st.flags["done:"+x.Name] == "" {
					ok := false
					if el != nil {
						ok = e.refuted(st, x.Conds(e, st, el))
					} else {
						ok = e.refuted(st, x.Conds(e, st, &Elem{}))
					}
					rr.ob(ok)
					if !ok {
						rr.fail(x.Name, fnName(x.Root), pos, x.Msg, st.Path())
					}
				} else {
					rr.ob(true)
				}
				x.clear(st)
			}
		}
		if x.Early != nil {
			t.AllowEarly = func(st *State, ctx *Ctx, from, to *ssa.BasicBlock) bool { return x.Early(e, st, ctx, from, to) }
		}
		e.H.Instr = func(st *State, ctx *Ctx, in ssa.Instruction) {
			if x.Instr != nil {
				x.Instr(e, st, ctx, in)
			}
			switch y := in.(type) {
			case *ssa.IndexAddr:
				if s := e.V(st, ctx, y.X); isColl(st, s) {
					if t.Visit(st, ctx, y.Index, s, p.InstrPos(in)) {
						visit(st, ctx, s, e.V(st, ctx, y.Index))
					}
				}
			case *ssa.Extract:
				nx, ok := y.Tuple.(*ssa.Next)
				if !ok || nx.IsString || y.Index == 0 {
					return
				}
				if m := e.ranged(st, ctx, nx); m != nil && isColl(st, m) {
					k := e.in.Pure("x:1", e.V(st, ctx, nx))
					if t.VisitKey(st, ctx, k, p.InstrPos(in)) {
						visit(st, ctx, m, k)
					}
				}
			}
		}
		e.H.Call = func(st *State, c *Call) {
			if x.Call != nil {
				x.Call(e, st, c)
			}
			if el := x.elem(e, st); el != nil && x.Done != nil && x.Done(e, st, c, el) {
				st.flags["done:"+x.Name] = "1"
				handling[st.flags["each.loop"]] = true
				hits++
			}
		}
		if x.Upd != nil {
			e.H.MapUpd = func(st *State, ctx *Ctx, in *ssa.MapUpdate, m, k, v *Term) {
				if x.MapUpd != nil {
					x.MapUpd(e, st, ctx, in, m, k, v)
				}
				if el := x.elem(e, st); el != nil && x.Upd(e, st, m, k, v, el) {
					st.flags["done:"+x.Name] = "1"
					handling[st.flags["each.loop"]] = true
					hits++
				}
			}
		}
		e.H.After = func(st *State, c *Call) {
			if !c.Inlined && len(c.Args) == 2 && (len(c.Name) > 9 && c.Name[:9] == "Array.Get") && len(c.Com.Args) == 2 && isColl(st, c.Args[0]) {
				if t.Visit(st, c.Ctx, c.Com.Args[1], c.Args[0], p.InstrPos(c.In)) {
					visit(st, c.Ctx, c.Args[0], c.Args[1])
				}
			}
			if el := x.elem(e, st); el != nil && !c.Inlined && len(c.Args) == 2 && strings.Contains(c.Name, ".Get") && c.Args[0] == el.Coll && c.Args[1] == el.Idx {
				st.pins["each.get:"+c.Name] = c.Result // keep what is known about it
			}
			if x.Copies != nil && c.Name == "maps.Copy" && isColl(st, c.Args[1]) && x.Copies(e, st, c.Args[0]) {
				st.flags["entered:"+x.Name] = "1"
				hits++
				copies++
			}
			if x.After != nil {
				x.After(e, st, c, x.elem(e, st))
			}
		}
		if x.Model != nil {
			e.H.Model = func(st *State, c *Call) *Term { return x.Model(e, st, c) }
		}
		e.H.Edge = func(st *State, ctx *Ctx, from, to *ssa.BasicBlock) {
			if x.Edge != nil {
				x.Edge(e, st, ctx, from, to)
			}
			t.Edge(st, ctx, from, to)
		}
		e.H.Ret = func(st *State, ctx *Ctx, in *ssa.Return, res []*Term) {
			if pass == 0 {
				return
			}
			exits++
			if x.Returns != nil {
				x.Returns(e, st, p.InstrPos(in), res)
			}
			if x.Ret != nil && x.Ret(e, st, in, res) || st.flags["entered:"+x.Name] != "" {
				return
			}
			cs := x.Pre(e)
			if c := x.Coll(e, st); c != nil {
				cs = append(cs[:len(cs):len(cs)], Cond{e.Cmp(token.LSS, e.in.Int(0), e.Len(st, c, nil)), true})
			}
			ok := e.refuted(st, cs)
			rr.ob(ok)
			if !ok {
				rr.fail(x.Name, fnName(x.Root), p.InstrPos(in), x.Msg+" (the loop over them can be passed over)", st.Path())
			}
		}
		e.Run(x.Root, func(st *State, ctx *Ctx) {
			if x.Init != nil {
				x.Init(e, st, ctx)
			}
			for _, c := range x.Pre(e) {
				e.Keep = append(e.Keep, c.T)
			}
		})
		if pass == 1 {
			r.finish(e, x.Name)
		}
	}
	r.Sites += hits
	r.sample("%s: loops %v, %d abstract handling events, %d exits", x.Name, sortedKeys(loops), hits, exits)
	if len(loops) == 0 && copies == 0 {
		r.fail(x.Name, fnName(x.Root), p.Pos(x.Root.Pos()), "no loop visits every element: "+x.Msg, nil)
	}
	if hits == 0 && len(r.Findings) == before {
		r.fail(x.Name, fnName(x.Root), p.Pos(x.Root.Pos()), "no element is ever handled: "+x.Msg, nil)
	}
}

// ranged is the map an iterator goes over.
func (e *Engine) ranged(st *State, ctx *Ctx, nx *ssa.Next) *Term {
	if it := e.V(st, ctx, nx.Iter); it != nil && it.is("range") {
		return it.args[0]
	}
	if rg, ok := nx.Iter.(*ssa.Range); ok {
		return e.V(st, ctx, rg.X)
	}
	return nil
}
