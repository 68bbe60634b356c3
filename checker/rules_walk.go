package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C27"] = &Check{
		Rule: "loops over the loaded entries, nested values, additional actions, name trees, page trees, form parts and dictionary entries visit every element, and every iteration that does not refute the element's condition contains the handling event",
		Run:  runC27,
	}
}

func noPre(e *Engine) []Cond { return nil }

func runC27(p *Program, r *Report) {
	walkObjects(p, r)
	walkValue(p, r)
	walkTrees(p, r)
	walkDump(p, r)
}

// xrefOf finds the map of cross-reference entries a path has loaded.
func xrefOf(e *Engine, st *State) *Term {
	var out *Term
	for k, v := range st.cells {
		if k.is("faddr:Parser.Xref") && (out == nil || v.id < out.id) {
			out = v
		}
	}
	return out
}

// walkObjects: Parse extracts and dumps every in-use object.
func walkObjects(p *Program, r *Report) {
	root := r.anchor(p, "Parse")
	if root == nil {
		return
	}
	inUse := func(e *Engine, st *State, el *Elem) []Cond {
		if el.Coll == nil {
			return nil
		}
		var cs []Cond
		if ok := st.cells[e.mapCell("mapok", el.Coll, el.Idx)]; ok != nil {
			cs = append(cs, Cond{ok, true})
		}
		if el.X != nil {
			if t := e.cellOf(st, "XrefEntry.Type", el.X); t != nil {
				cs = append(cs, Cond{e.Cmp(token.EQL, t, e.in.Int(1)), true})
			}
			cs = append(cs, Cond{e.Cmp(token.NEQ, el.X, e.in.Nil()), true})
		}
		return cs
	}
	failed := func(e *Engine, st *State, in *ssa.Return, res []*Term) bool {
		return e.Eval(st, e.Cmp(token.EQL, res[0], e.in.Nil())) != 1
	}
	own := func(e *Engine, st *State, c *Call, el *Elem) {
		if c.Name == "Parser.GetObject" && el != nil && c.Args[1] == el.Idx {
			st.pins["object"] = c.Result
		}
		if c.Name == "NewOutput" {
			st.pins["output"] = e.valOf(c.Result)
		}
	}
	setup := func(e *Engine) { e.KeepFacts, e.NoContent = true, true }
	(&Each{Name: "in-use objects are extracted", Root: root, Setup: setup, Coll: xrefOf, Pre: noPre, Conds: inUse, Ret: failed, After: own,
		Done: func(e *Engine, st *State, c *Call, el *Elem) bool {
			return c.Name == "IndirectObject.Extract" && st.pins["object"] != nil && c.Args[0] == st.pins["object"] && c.Args[1] == st.pins["output"]
		},
		Msg: "an in-use object can be passed over without being extracted"}).run(p, r)
	(&Each{Name: "in-use objects are dumped", Root: root, Setup: setup, Coll: xrefOf, Pre: noPre, Conds: inUse, Ret: failed, After: own,
		Done: func(e *Engine, st *State, c *Call, el *Elem) bool {
			o := st.pins["object"]
			if o == nil {
				return false
			}
			// fmt writes a Stringer as its String
			stringer := c.Name == "fmt.Fprint" || c.Name == "fmt.Fprintln"
			return e.writeTo(st, c, "Raw", e.in.Pure("call:IndirectObject.String", o)) || stringer && e.writeTo(st, c, "Raw", o)
		},
		Msg: "an in-use object can be passed over without being written to the raw dump"}).run(p, r)
}

// walkValue: the extraction of a value visits everything nested in it.
func walkValue(p *Program, r *Report) {
	root := r.anchor(p, "IndirectObject.Extract")
	if root == nil {
		return
	}
	var o, d, a, out *Term
	init := func(e *Engine, st *State, ctx *Ctx) {
		o = objectValue(e, st)
		d, a = e.in.PureT(p.Named("Dictionary"), "as:Dictionary", o), e.in.PureT(p.Named("Array"), "as:Array", o)
		out = e.ParamTerm(1)
	}
	isDict := func(e *Engine) []Cond { return []Cond{{e.in.Pure("is:Dictionary", o), true}} }
	isArr := func(e *Engine) []Cond {
		return []Cond{{e.in.Pure("is:Dictionary", o), false}, {e.in.Pure("is:Array", o), true}}
	}
	// functions entered with the whole value
	whole := map[*ssa.Function]int{}
	{
		e := NewEngine(p)
		e.NoLookahead = true
		e.H.Call = func(st *State, c *Call) {
			if c.Inlined {
				for i, x := range c.Args {
					if x == o {
						whole[c.Fn] = i
					}
				}
			}
		}
		e.Run(root, func(st *State, ctx *Ctx) { init(e, st, ctx) })
	}
	again := func(st *State, c *Call, x *Term) bool {
		i, ok := whole[c.Fn]
		if !ok || c.Inlined || x == nil || i >= len(c.Args) || c.Args[i] != x {
			return false
		}
		for j, y := range c.Args {
			if j != i && y == out {
				return true
			}
		}
		return false
	}
	for _, kind := range []string{"Dictionary", "Array"} {
		nested := func(e *Engine, st *State, el *Elem) []Cond {
			if el.X == nil {
				return nil
			}
			return []Cond{{e.in.Pure("is:"+kind, el.X), true}}
		}
		(&Each{Name: "dictionary values (" + kind + ")", Root: root, Init: init, Pre: isDict, Coll: func(e *Engine, st *State) *Term { return d }, Conds: nested,
			Done: func(e *Engine, st *State, c *Call, el *Elem) bool { return again(st, c, el.X) },
			Msg:  "a value nested in a dictionary can be passed over"}).run(p, r)
		(&Each{Name: "array elements (" + kind + ")", Root: root, Init: init, Pre: isArr, Coll: func(e *Engine, st *State) *Term { return a }, Conds: nested,
			Done: func(e *Engine, st *State, c *Call, el *Elem) bool { return again(st, c, el.X) },
			Msg:  "a value nested in an array can be passed over"}).run(p, r)
	}
	walkActions(p, r)
	walkPages(p, r)
	// embedded files
	tree := func(e *Engine) *Term { return e.get(d, "GetNameTreeMap", "EmbeddedFiles") }
	item := func(e *Engine, el *Elem, m string) *Term {
		if el.Coll == nil {
			return nil
		}
		return e.in.Pure("call:Array."+m, el.Coll, el.Idx)
	}
	(&Each{Name: "embedded files", Root: root, Init: init, Pre: isDict, First: 1, Step: 2,
		Coll: func(e *Engine, st *State) *Term { return tree(e) },
		Conds: func(e *Engine, st *State, el *Elem) []Cond {
			if el.Coll == nil {
				return nil
			}
			return []Cond{{e.okOf(item(e, el, "GetDictionary")), true}, {e.okOf(item(e, el, "GetString")), false}}
		},
		Done: func(e *Engine, st *State, c *Call, el *Elem) bool {
			if c.Name != "File.Extract" || c.Args[0] != e.valOf(item(e, el, "GetDictionary")) || c.Args[1] != out {
				return false
			}
			return e.Eval(st, c.Args[2]) == 0 || isFalse(c.Args[2])
		},
		Msg: "an embedded file can be passed over"}).run(p, r)
	(&Each{Name: "embedded file names", Root: root, Init: init, Pre: isDict, First: 1, Step: 2,
		Coll: func(e *Engine, st *State) *Term { return tree(e) },
		Conds: func(e *Engine, st *State, el *Elem) []Cond {
			if el.Coll == nil {
				return nil
			}
			return []Cond{{e.okOf(item(e, el, "GetString")), true}}
		},
		Done: func(e *Engine, st *State, c *Call, el *Elem) bool {
			return e.listed(st, c, e.valOf(item(e, el, "GetString")))
		},
		Msg: "the name of an external embedded file can be passed over"}).run(p, r)
	// forms
	runReq(p, r, root, nil, init, func(e *Engine) *Req {
		g := e.get(d, "GetStream", "XFA")
		return &Req{Name: "form stream", Conds: append(isDict(e), Cond{e.okOf(g), true}), Msg: "a form can be passed over without being dumped",
			Done: func(st *State, c *Call) bool {
				return c.Name == "Output.DumpFile" && c.Args[0] == out && strip(c.Args[2]) == strip(e.valOf(g))
			}}
	})
	xfa := func(e *Engine) *Term { return e.get(d, "GetArray", "XFA") }
	formPre := func(e *Engine) []Cond {
		return append(isDict(e), Cond{e.okOf(xfa(e)), true}, Cond{e.okOf(e.get(d, "GetStream", "XFA")), false})
	}
	part := func(e *Engine, el *Elem) *Term { return item(e, el, "GetStream") }
	(&Each{Name: "form parts", Root: root, Init: init, Pre: formPre, Setup: func(e *Engine) { e.NoContent = true; e.Stable = func(t *Term) bool { return t.is("parts") } },
		Coll: func(e *Engine, st *State) *Term { return e.valOf(xfa(e)) },
		Conds: func(e *Engine, st *State, el *Elem) []Cond {
			if el.Coll == nil {
				return nil
			}
			return []Cond{{e.okOf(part(e, el)), true}}
		},
		Model: formModel,
		Done: func(e *Engine, st *State, c *Call, el *Elem) bool {
			w := e.asWrite(st, c)
			v := strip(e.valOf(part(e, el)))
			if w != nil && len(w.Data) == 1 && strip(w.Data[0]) == v && isBuilder(w.Dest) {
				st.pins["form"] = w.Dest
				return true
			}
			if c.Name == "builtin append" && strip(c.Args[1]) == v {
				st.flags["form"] = "append"
				return true
			}
			return false
		},
		Msg: "a part of a form can be left out"}).run(p, r)
	// and the collected form is what is dumped
	e := NewEngine(p)
	e.NoLookahead, e.NoContent = true, true
	e.Stable = func(t *Term) bool { return t.is("parts") }
	e.H.Model = func(st *State, c *Call) *Term { return formModel(e, st, c) }
	e.H.Call = func(st *State, c *Call) {
		if c.Name == "Output.DumpFile" && c.Args[0] == out {
			v := strip(c.Args[2])
			st.flags["dumped"] = "1"
			if e.refuted(st, formPre(e)) {
				return
			}
			ok := v.is("all") || v.is("parts")
			if ci, is := c.In.(ssa.CallInstruction); !ok && is && len(ci.Common().Args) == len(c.Args) {
				ok = appended(ci.Common().Args[2])
			}
			r.ob(ok)
			if !ok {
				r.fail("form", "IndirectObject.Extract", p.InstrPos(c.In), "the form that is dumped is not made of the parts of the form", st.Path())
			}
		}
		if w := e.asWrite(st, c); w != nil && isBuilder(w.Dest) && len(w.Data) == 1 && e.source(w.Data[0]) == "elem GetStream of GetArray:XFA" {
			if old := st.pins["form"]; old != nil && old != w.Dest {
				r.fail("form", "IndirectObject.Extract", p.InstrPos(c.In), "the parts of a form are collected in different places", st.Path())
			}
			st.pins["form"] = w.Dest
		}
	}
	e.H.Ret = func(st *State, ctx *Ctx, in *ssa.Return, res []*Term) {
		if st.flags["dumped"] == "" && !e.refuted(st, formPre(e)) {
			r.fail("form", "IndirectObject.Extract", p.InstrPos(in), "a form made of several parts can be passed over without being dumped", st.Path())
		}
	}
	e.Run(root, func(st *State, ctx *Ctx) {
		init(e, st, ctx)
		for _, c := range formPre(e) {
			e.Keep = append(e.Keep, c.T)
		}
	})
	r.finish(e, "form")
	// embedded data of file specifications
	if file := r.anchor(p, "File.Extract"); file != nil {
		runReq(p, r, file, nil, nil, func(e *Engine) *Req {
			d := e.ParamTerm(0)
			fs, ef := e.get(d, "GetString", "FS"), e.get(d, "GetDictionary", "EF")
			s := e.get(e.valOf(ef), "GetStream", "F")
			return &Req{Name: "embedded data", Msg: "the data of an embedded file can be passed over without being dumped",
				Conds: []Cond{{e.Cmp(token.EQL, e.valOf(fs), e.in.Str("URL")), false}, {e.okOf(ef), true}},
				Done: func(st *State, c *Call) bool {
					return c.Name == "Output.DumpFile" && c.Args[0] == e.ParamTerm(1) && strip(c.Args[2]) == strip(e.valOf(s))
				}}
		})
	}
}

// walkActions: the actions of a value are extracted.
func walkActions(p *Program, r *Report) {
	root := r.anchor(p, "IndirectObject.Extract")
	if root == nil {
		return
	}
	var o, d, out *Term
	init := func(e *Engine, st *State, ctx *Ctx) {
		o = objectValue(e, st)
		d, out = e.in.PureT(p.Named("Dictionary"), "as:Dictionary", o), e.ParamTerm(1)
	}
	isDict := func(e *Engine) []Cond { return []Cond{{e.in.Pure("is:Dictionary", o), true}} }
	for _, key := range []string{"A", "OpenAction"} {
		runReq(p, r, root, nil, init, func(e *Engine) *Req {
			g := e.get(d, "GetDictionary", key)
			return &Req{Name: "action " + key, Conds: append(isDict(e), Cond{e.okOf(g), true}), Msg: "the action in " + key + " can be passed over",
				Done: func(st *State, c *Call) bool {
					return c.Name == "Action.Extract" && c.Args[0] == e.valOf(g) && c.Args[1] == out
				}}
		})
	}
	aa := func(e *Engine) *Term { return e.get(d, "GetDictionary", "AA") }
	aaDict := func(e *Engine, el *Elem) *Term {
		return e.in.Pure("call:Dictionary.GetDictionary", el.Coll, el.Idx)
	}
	(&Each{Name: "additional actions", Root: root, Init: init,
		Pre:  func(e *Engine) []Cond { return append(isDict(e), Cond{e.okOf(aa(e)), true}) },
		Coll: func(e *Engine, st *State) *Term { return e.valOf(aa(e)) },
		Conds: func(e *Engine, st *State, el *Elem) []Cond {
			if el.Coll == nil {
				return nil
			}
			return []Cond{{e.okOf(aaDict(e, el)), true}}
		},
		Done: func(e *Engine, st *State, c *Call, el *Elem) bool {
			return c.Name == "Action.Extract" && c.Args[0] == e.valOf(aaDict(e, el)) && c.Args[1] == out
		},
		Msg: "an additional action can be passed over"}).run(p, r)
}

// walkPages: the pages of a value are extracted.
func walkPages(p *Program, r *Report) {
	root := r.anchor(p, "IndirectObject.Extract")
	if root == nil {
		return
	}
	var o, d, out *Term
	init := func(e *Engine, st *State, ctx *Ctx) {
		o = objectValue(e, st)
		d, out = e.in.PureT(p.Named("Dictionary"), "as:Dictionary", o), e.ParamTerm(1)
	}
	isDict := func(e *Engine) []Cond { return []Cond{{e.in.Pure("is:Dictionary", o), true}} }
	pages := func(e *Engine) *Term { return e.get(d, "GetPageTree", "Pages") }
	(&Each{Name: "pages", Root: root, Init: init,
		Pre:   func(e *Engine) []Cond { return append(isDict(e), Cond{e.okOf(pages(e)), true}) },
		Coll:  func(e *Engine, st *State) *Term { return e.valOf(pages(e)) },
		Conds: func(e *Engine, st *State, el *Elem) []Cond { return nil },
		Done: func(e *Engine, st *State, c *Call, el *Elem) bool {
			return c.Name == "Page.Extract" && el.X != nil && c.Args[0] == el.X && c.Args[1] == out
		},
		Msg: "a page can be passed over"}).run(p, r)
}

// formModel gives collected data a name of its own.
func formModel(e *Engine, st *State, c *Call) *Term {
	for _, b := range []string{"(*strings.Builder).", "(*bytes.Buffer)."} {
		if m, ok := strings.CutPrefix(c.Name, b); ok && (m == "Reset" || m == "Truncate") {
			st.flags["dropped"] = "1" // what was collected so far is lost
		} else if ok && (m == "String" || m == "Bytes") && st.flags["dropped"] == "" {
			return e.in.PureT(c.In.(ssa.Value).Type(), "all", c.Args[0])
		}
	}
	if c.Name == "builtin append" && isByteSlice(c.In.(ssa.Value).Type()) {
		b := c.Args[0]
		if b.is("parts") || b.isNil() || e.Eval(st, e.Cmp(token.EQL, e.Len(st, b, nil), e.in.Int(0))) == 1 {
			return e.in.PureT(c.In.(ssa.Value).Type(), "parts")
		}
	}
	return nil
}

// appended: v starts empty before a loop and is only ever appended to inside of it.
func appended(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Phi:
		grows := false
		for i, pred := range v.Block().Preds {
			if !v.Block().Dominates(pred) {
				if !emptySlice(v.Edges[i]) {
					return false
				}
				continue
			}
			seen := map[ssa.Value]bool{}
			var from func(x ssa.Value) bool
			from = func(x ssa.Value) bool {
				if x == v || seen[x] {
					return true
				}
				seen[x] = true
				switch x := x.(type) {
				case *ssa.Phi:
					for _, y := range x.Edges {
						if !from(y) {
							return false
						}
					}
					return true
				case *ssa.Call:
					if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
						grows = true
						return from(x.Call.Args[0])
					}
				}
				return false
			}
			if !from(v.Edges[i]) {
				return false
			}
		}
		return grows
	case *ssa.Convert:
		return appended(v.X)
	case *ssa.ChangeType:
		return appended(v.X)
	}
	return false
}

// emptySlice: v is nil or a slice made with no elements.
func emptySlice(v ssa.Value) bool {
	zero := func(x ssa.Value) bool {
		c, ok := x.(*ssa.Const)
		return ok && c.Value != nil && c.Int64() == 0
	}
	switch v := v.(type) {
	case *ssa.Const:
		return v.Value == nil
	case *ssa.MakeSlice:
		return zero(v.Len)
	case *ssa.Slice:
		if a, ok := v.X.(*ssa.Alloc); ok {
			if t, ok := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
				return t.Len() == 0 || v.High != nil && zero(v.High)
			}
		}
	}
	return false
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isByteType(s.Elem())
}

func isBuilder(t *Term) bool {
	t = strip(t)
	if t.typ == nil {
		return false
	}
	s := typeStr(t.typ)
	return s == "*strings.Builder" || s == "*bytes.Buffer"
}

// isBoolMap: m is a set kept as a map to bool.
func isBoolMap(m *Term) bool {
	if m == nil || m.typ == nil {
		return false
	}
	mt, ok := m.typ.Underlying().(*types.Map)
	return ok && typeStr(mt.Elem()) == "bool"
}

// fresh: nothing has been stored in map m yet.
func fresh(st *State, m *Term) bool {
	for k := range st.cells {
		if k.is("mapok") && k.args[0] == m {
			return false
		}
	}
	return st.zero[m]
}

// walkTrees: name trees and page trees are followed completely.
func walkTrees(p *Program, r *Report) {
	walkPageTree(p, r)
	if root := r.anchor(p, "Dictionary.GetNameTreeMap"); root != nil {
		walkTree(p, r, root, "name tree", "", func(e *Engine) *Term {
			return e.valOf(e.in.Pure("call:Dictionary.GetDictionary", e.ParamTerm(0), e.ParamTerm(1)))
		}, true)
	}
}

// walkPageTree: a page tree is followed to every page.
func walkPageTree(p *Program, r *Report) {
	if root := r.anchor(p, "Dictionary.ResolveKids"); root != nil {
		walkTree(p, r, root, "page tree", "Dictionary.ResolveKids", func(e *Engine) *Term { return e.ParamTerm(0) }, false)
	}
	// a page tree is followed from its root with nothing visited
	if root := r.anchor(p, "Dictionary.GetPageTree"); root != nil {
		e := NewEngine(p)
		e.NoLookahead = true
		n := 0
		e.H.Model = func(st *State, c *Call) *Term {
			if c.Name == "Dictionary.ResolveKids" {
				ok := fresh(st, c.Args[1]) && c.Args[0] == e.valOf(e.in.Pure("call:Dictionary.GetDictionary", e.ParamTerm(0), e.ParamTerm(1)))
				r.ob(ok)
				if !ok {
					r.fail("page tree root", "Dictionary.GetPageTree", p.InstrPos(c.In), "the page tree is not followed from its root with nothing visited yet", st.Path())
				}
				return e.in.PureT(c.In.(ssa.Value).Type(), "kids", c.Args[0])
			}
			return nil
		}
		e.H.Ret = func(st *State, ctx *Ctx, in *ssa.Return, res []*Term) {
			g := e.in.Pure("call:Dictionary.GetDictionary", e.ParamTerm(0), e.ParamTerm(1))
			ok := e.Eval(st, e.okOf(g)) == 0 || res[0].is("kids")
			if res[0].is("kids") {
				n++
			}
			r.ob(ok)
			if !ok {
				r.fail("page tree root", "Dictionary.GetPageTree", p.InstrPos(in), "the page tree can be passed over", st.Path())
			}
		}
		e.Run(root, func(st *State, ctx *Ctx) {
			e.Keep = append(e.Keep, e.okOf(e.in.Pure("call:Dictionary.GetDictionary", e.ParamTerm(0), e.ParamTerm(1))))
		})
		r.finish(e, "GetPageTree")
		r.need("page trees followed", n, 1)
	}
}

// walkTree: the result of following a tree contains the node's own part and everything found
// below each kid that has not been visited before.
func walkTree(p *Program, r *Report, root *ssa.Function, what, rec string, node func(e *Engine) *Term, names bool) {
	name := fnName(root)
	var handling *Each
	kids := func(e *Engine) *Term { return e.get(node(e), "GetArray", "Kids") }
	setup := func(e *Engine) {
		e.KeepFacts, e.NoContent = true, true
		e.Stable = func(t *Term) bool {
			if t.is("acc") || t.isNil() {
				return true
			}
			_, lit := root0(t).val.(*ssa.Alloc)
			return lit
		}
		e.H.Store = func(st *State, ctx *Ctx, in *ssa.Store, addr, val *Term) {
			if !names && addr.is("iaddr") && isZeroInt(addr.args[1]) && val == node(e) {
				st.pins["own"] = root0(addr.args[0]) // the node itself
			}
		}
	}
	own := func(e *Engine, st *State, t *Term) bool {
		if names {
			return t == e.valOf(e.get(node(e), "GetArray", "Names"))
		}
		return st.pins["own"] != nil && root0(t) == st.pins["own"] && e.Eval(st, e.Cmp(token.EQL, e.Len(st, t, nil), e.in.Int(1))) == 1
	}
	empty := func(e *Engine, st *State, t *Term) bool {
		return t.isNil() || e.Eval(st, e.Cmp(token.EQL, e.Len(st, t, nil), e.in.Int(0))) == 1
	}
	isAcc := func(e *Engine, st *State, t *Term) bool {
		return t.is("acc") || st.flags["acc"] == "" && (empty(e, st, t) || own(e, st, t))
	}
	isRec := func(e *Engine, c *Call) bool {
		if c.Inlined || c.Fn == nil {
			return false
		}
		if rec != "" && c.Name == rec {
			return true
		}
		for x := c.Ctx; x != nil; x = x.parent {
			if x.fn == c.Fn {
				return true
			}
		}
		return false
	}
	model := func(e *Engine, st *State, c *Call) *Term {
		if c.Name == "builtin append" && !isByteSlice(c.In.(ssa.Value).Type()) {
			if own(e, st, c.Args[1]) || own(e, st, c.Args[0]) {
				st.flags["own"] = "1"
			}
			if !isAcc(e, st, c.Args[0]) {
				return nil
			}
			st.flags["acc"] = "1" // from here on there is something to be lost
			return e.in.PureT(c.In.(ssa.Value).Type(), "acc")
		}
		return nil
	}
	// the kid below an element
	kid := func(e *Engine, st *State, el *Elem) *Term {
		if k := st.pins["each.resolved"]; k != nil {
			return e.in.Pure("as:Dictionary", k)
		}
		if el.Coll == nil {
			return nil
		}
		return e.valOf(e.in.Pure("call:Array.GetDictionary", el.Coll, el.Idx))
	}
	number := func(e *Engine, st *State, el *Elem) *Term {
		if el == nil || el.X == nil {
			return nil
		}
		return e.cellOf(st, "Reference.Number", e.in.Pure("as:*Reference", el.X))
	}
	listNumber := func(e *Engine, st *State) *Term {
		return e.cellOf(st, "Reference.Number", e.valOf(e.get(node(e), "GetReference", "Kids")))
	}
	x := &Each{Name: what + " kids", Root: root, Setup: func(e *Engine) {
		setup(e)
		seen := func(st *State, n *Term) bool {
			for k, v := range st.cells {
				if n != nil && (k.is("mapok") || k.is("mapel") && isBoolMap(k.args[0])) && k.args[1] == n && e.Eval(st, v) == 1 {
					return true
				}
			}
			return false
		}
		e.H.Branch = func(st *State, ctx *Ctx, in *ssa.If, cond *Term, taken bool) {
			// found to be visited already, and not because this path has just marked it
			if st.flags["each.marked"] == "" && seen(st, number(e, st, handling.elem(e, st))) {
				st.flags["each.visited"] = "1"
			}
			if st.flags["listmarked"] == "" && seen(st, listNumber(e, st)) {
				st.flags["listvisited"] = "1"
			}
		}
		e.H.MapUpd = func(st *State, ctx *Ctx, in *ssa.MapUpdate, m, k, v *Term) {
			// marking as visited
			if n := number(e, st, handling.elem(e, st)); n != nil && n == k {
				st.flags["each.marked"] = "1"
				return
			}
			if k == listNumber(e, st) {
				st.flags["listmarked"] = "1"
				return
			}
			r.fail("visited", name, p.InstrPos(in), "something other than the kid being followed is marked as visited", st.Path())
		}
	},
		Pre: func(e *Engine) []Cond {
			cs := []Cond{{e.okOf(kids(e)), true}}
			if names {
				cs = append(cs, Cond{e.okOf(e.in.Pure("call:Dictionary.GetDictionary", e.ParamTerm(0), e.ParamTerm(1))), true})
			}
			return cs
		},
		Coll: func(e *Engine, st *State) *Term { return e.valOf(kids(e)) },
		Ret: func(e *Engine, st *State, in *ssa.Return, res []*Term) bool {
			return st.flags["listvisited"] != "" // the list of kids itself
		},
		Conds: func(e *Engine, st *State, el *Elem) []Cond {
			if st.flags["each.visited"] != "" {
				return []Cond{{e.in.Bool(false), true}}
			}
			if el.X == nil {
				return nil
			}
			var cs []Cond
			ref := e.in.Pure("is:*Reference", el.X)
			if !names {
				cs = append(cs, Cond{ref, true}) // kids are references
			}
			if k := st.pins["each.resolved"]; k != nil {
				cs = append(cs, Cond{e.in.Pure("is:Dictionary", k), true})
			} else if !names {
				cs = append(cs, Cond{e.okOf(e.in.Pure("call:Array.GetDictionary", el.Coll, el.Idx)), true})
			}
			return cs
		},
		Model: model,
		Call: func(e *Engine, st *State, c *Call) {
			if names && c.Inlined && c.Ctx.parent == nil {
				for _, m := range c.Args {
					if isMapTerm(m) && strings.HasPrefix(typeStr(m.typ), "map[int]") && !fresh(st, m) {
						r.fail("visited", name, p.InstrPos(c.In), "kids can be marked as visited from the start", st.Path())
					}
				}
			}
		},
		After: func(e *Engine, st *State, c *Call, el *Elem) {
			if el != nil && el.X != nil && c.Name == "Reference.Resolve" && c.Args[0] == e.in.Pure("as:*Reference", el.X) {
				st.pins["each.resolved"] = c.Result
			}
			if el != nil && isRec(e, c) && len(c.Args) > 0 && c.Args[0] == kid(e, st, el) {
				st.pins["each.below"] = c.Result
			}
		},
		Done: func(e *Engine, st *State, c *Call, el *Elem) bool {
			return c.Name == "builtin append" && st.pins["each.below"] != nil && c.Args[1] == st.pins["each.below"] && isAcc(e, st, c.Args[0])
		},
		Msg: "what is below a kid of a " + what + " can be left out"}
	handling = x
	x.run(p, r)
	// own part and returned value
	e := NewEngine(p)
	e.NoLookahead = true
	setup(e)
	e.H.Model = func(st *State, c *Call) *Term { return model(e, st, c) }
	exits := 0
	e.H.Ret = func(st *State, ctx *Ctx, in *ssa.Return, res []*Term) {
		exits++
		if names && e.Eval(st, e.okOf(e.in.Pure("call:Dictionary.GetDictionary", e.ParamTerm(0), e.ParamTerm(1)))) == 0 {
			return
		}
		has := st.flags["own"] != "" || own(e, st, res[0])
		if names && e.Eval(st, e.okOf(e.get(node(e), "GetArray", "Names"))) == 0 {
			has = true
		}
		ok := isAcc(e, st, res[0]) && has
		r.ob(ok)
		if !ok {
			r.fail(what+" result", name, p.InstrPos(in), "the result can lack the node's own part or what was collected", st.Path())
		}
	}
	e.Run(root, func(st *State, ctx *Ctx) {
		if names {
			e.Keep = append(e.Keep, e.okOf(e.in.Pure("call:Dictionary.GetDictionary", e.ParamTerm(0), e.ParamTerm(1))), e.okOf(e.get(node(e), "GetArray", "Names")))
		}
	})
	r.finish(e, what)
	r.need(what+" exits", exits, 1)
}

func root0(t *Term) *Term {
	for t.is("slice") {
		t = t.args[0]
	}
	return t
}

// walkDump: the text of a dictionary, array or object contains all of its parts.
func walkDump(p *Program, r *Report) {
	textOf := func(e *Engine, st *State, c *Call, el *Elem) {
		if el != nil && el.X != nil && strings.HasSuffix(c.Name, ".String") && len(c.Args) == 1 && c.Args[0] == el.X {
			st.pins["each.text"] = c.Result
		}
	}
	written := func(e *Engine, st *State, c *Call, ts ...*Term) bool {
		w := e.asWrite(st, c)
		if w == nil || !isBuilder(w.Dest) {
			return false
		}
		for _, t := range ts {
			if t != nil && hasPiece(w.Data, t) {
				return true
			}
		}
		return false
	}
	setup := func(e *Engine) { e.NoContent = true }
	all := func(e *Engine, st *State, c *Call) *Term { return formModel(e, st, c) }
	type part struct {
		root, what string
		key        bool
	}
	for _, d := range []part{{"Dictionary.String", "keys in the dump", true}, {"Dictionary.String", "values in the dump", false}, {"Array.String", "elements in the dump", false}} {
		root := r.anchor(p, d.root)
		if root == nil {
			continue
		}
		(&Each{Name: d.what, Root: root, Setup: setup, Pre: noPre, After: textOf, Model: all,
			Coll:  func(e *Engine, st *State) *Term { return e.ParamTerm(0) },
			Conds: func(e *Engine, st *State, el *Elem) []Cond { return nil },
			Done: func(e *Engine, st *State, c *Call, el *Elem) bool {
				if d.key {
					return written(e, st, c, el.Idx)
				}
				return written(e, st, c, el.X, st.pins["each.text"])
			},
			Msg: "a part of a value can be left out of the raw dump"}).run(p, r)
	}
	root := r.anchor(p, "IndirectObject.String")
	if root == nil {
		return
	}
	e := NewEngine(p)
	e.NoContent, e.NoLookahead, e.KeepFacts = true, true, true
	e.H.Model = func(st *State, c *Call) *Term { return formModel(e, st, c) }
	exits := 0
	fields := map[string]*Term{}
	e.H.Call = func(st *State, c *Call) {
		w := e.asWrite(st, c)
		if w == nil {
			return
		}
		for _, d := range w.Data {
			for n, t := range fields {
				if strip(d) == t {
					st.flags["part:"+n] = "1"
				}
			}
			if strip(d).kind == 'n' && st.pins["text"] == strip(d) {
				st.flags["part:Value"] = "1"
			}
		}
	}
	e.H.After = func(st *State, c *Call) {
		if c.Name == "iface Object.String" && c.Args[0] == fields["Value"] {
			st.pins["text"] = c.Result
		}
	}
	e.H.Ret = func(st *State, ctx *Ctx, in *ssa.Return, res []*Term) {
		exits++
		for _, n := range []string{"Number", "Generation", "Value", "Stream"} {
			ok := st.flags["part:"+n] != ""
			if n == "Stream" && (e.Eval(st, e.Cmp(token.EQL, fields["Stream"], e.in.Nil())) == 1 || e.Eval(st, e.Cmp(token.EQL, e.Len(st, fields["Stream"], nil), e.in.Int(0))) == 1) {
				ok = true
			}
			r.ob(ok)
			if !ok {
				r.fail("object dump", "IndirectObject.String "+n, p.InstrPos(in), "the "+strings.ToLower(n)+" of an object can be left out of the raw dump", st.Path())
			}
		}
		ok := res[0].is("all")
		r.ob(ok)
		if !ok {
			r.fail("object dump", "IndirectObject.String", p.InstrPos(in), "the text that is returned is not the text that was collected", st.Path())
		}
	}
	e.Run(root, func(st *State, ctx *Ctx) {
		ty := p.Named("IndirectObject").Underlying().(*types.Struct)
		for i := 0; i < ty.NumFields(); i++ {
			f := ty.Field(i)
			t := e.in.Param(f.Name(), f.Type())
			fields[f.Name()] = t
			st.cells[e.in.Pure("faddr:IndirectObject."+f.Name(), e.ParamTerm(0))] = t
		}
		e.Keep = append(e.Keep, e.Cmp(token.EQL, fields["Stream"], e.in.Nil()))
	})
	r.finish(e, "IndirectObject.String")
	r.need("object dump exits", exits, 1)
}
