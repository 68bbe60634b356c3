package main

import (
	"fmt"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// source classifies the document value a written term comes from.
func (e *Engine) source(t *Term) string {
	t = strip(t)
	if t.hasOp("x:0") && len(t.args) == 1 {
		g := t.args[0]
		if g.hasOp("call:Dictionary.") && len(g.args) == 2 {
			k, _ := g.args[1].strVal()
			return strings.TrimPrefix(g.op, "call:Dictionary.") + ":" + k
		}
		if g.hasOp("call:Array.") && len(g.args) == 2 {
			return "elem " + strings.TrimPrefix(g.op, "call:Array.") + " of " + e.source(g.args[0])
		}
	}
	if t.hasOp("call:Dictionary.GetNameTreeMap") {
		k, _ := t.args[1].strVal()
		return "tree:" + k
	}
	if t.kind == 'c' {
		return "const"
	}
	if t.kind == 's' {
		return "global " + t.op
	}
	if t.is("hex") {
		return "hex"
	}
	if t.kind == 'n' {
		if c, ok := t.val.(*ssa.Call); ok {
			return "call " + commonName(c.Common())
		}
	}
	if t.hasOp("call:") {
		return t.op
	}
	return t.String()
}

// objectValue makes object.Value of the root IndirectObject.Extract a known term.
func objectValue(e *Engine, st *State) *Term {
	o := e.in.Param("value", e.p.Named("Object"))
	st.cells[e.in.Pure("faddr:IndirectObject.Value", e.ParamTerm(0))] = o
	return o
}

// writeTo: the call writes every given value, in order, to the output file field.
func (e *Engine) writeTo(st *State, c *Call, field string, vals ...*Term) bool {
	w := e.asWrite(st, c)
	if w == nil || e.outputField(st, w.Dest) != field {
		return false
	}
	i := 0
	for _, p := range w.Data {
		if i < len(vals) && strip(p) == strip(vals[i]) {
			i++
		}
	}
	return i == len(vals)
}

// sinkRule checks that only values from allowed sources reach the named output files.
func sinkRule(p *Program, r *Report, roots []string, allowed map[string][]string) {
	for _, rn := range roots {
		root := r.anchor(p, rn)
		if root == nil {
			continue
		}
		e := NewEngine(p)
		n := map[string]bool{}
		e.H.Call = func(st *State, c *Call) {
			w := e.asWrite(st, c)
			if w == nil {
				return
			}
			f := e.outputField(st, w.Dest)
			ok, watched := allowed[f]
			if !watched {
				return
			}
			n[p.InstrPos(c.In)] = true
			for _, d := range w.Data {
				s := e.source(d)
				if s == "const" || strings.HasPrefix(s, "global ") {
					continue
				}
				good := false
				for _, a := range ok {
					good = good || a == s
				}
				if !good {
					r.fail("sink", fnName(c.Ctx.fn)+" -> "+f, p.InstrPos(c.In), "data from "+trunc(s, 100)+" is written to "+f+", where it does not belong", st.Path())
				}
			}
		}
		e.Run(root, func(st *State, ctx *Ctx) {
			if rn == "IndirectObject.Extract" {
				objectValue(e, st)
			}
		})
		for range n {
			r.ob(true)
		}
		r.Sites += len(n)
		r.finish(e, "sink "+rn)
	}
}

func init() {
	checks["C25"] = &Check{
		Rule: "on every path of the extraction entry points, whenever a lookup of JS/URI/Base/URLS/FS=URL is not refuted, its value has been written to the right output file; only values from those lookups reach javascript.js and urls.txt",
		Run:  runC25,
	}
	checks["C24"] = &Check{
		Rule: "on every path of action and file specification extraction, the F, Win and P lookups that are not refuted reach commands.txt and files.txt, and the launch flag handed to the file specification equals S == Launch",
		Run:  runC24,
	}
}

func runC25(p *Program, r *Report) {
	root := r.anchor(p, "IndirectObject.Extract")
	file := r.anchor(p, "File.Extract")
	if root == nil || file == nil {
		return
	}
	var o, d *Term
	initObj := func(e *Engine, st *State, ctx *Ctx) {
		o = objectValue(e, st)
		d = e.in.Pure("as:Dictionary", o)
	}
	isDict := func(e *Engine) Cond { return Cond{e.in.Pure("is:Dictionary", o), true} }
	simple := func(name, sink string, mk func(e *Engine) ([]Cond, *Term)) {
		runReq(p, r, root, nil, initObj, func(e *Engine) *Req {
			cs, val := mk(e)
			return &Req{Name: name, Conds: append([]Cond{isDict(e)}, cs...), Msg: "a " + name + " can be passed over without being written to " + sink,
				Done: func(st *State, c *Call) bool { return e.writeTo(st, c, sink, val) }}
		})
	}
	simple("JS string", "Javascript", func(e *Engine) ([]Cond, *Term) {
		g := e.get(d, "GetString", "JS")
		return []Cond{{e.okOf(g), true}}, e.valOf(g)
	})
	simple("JS stream", "Javascript", func(e *Engine) ([]Cond, *Term) {
		g, s := e.get(d, "GetStream", "JS"), e.get(d, "GetString", "JS")
		return []Cond{{e.okOf(s), false}, {e.okOf(g), true}}, e.valOf(g)
	})
	simple("URI string", "URLs", func(e *Engine) ([]Cond, *Term) {
		g := e.get(d, "GetString", "URI")
		return []Cond{{e.okOf(g), true}}, e.valOf(g)
	})
	simple("URI base", "URLs", func(e *Engine) ([]Cond, *Term) {
		s, g := e.get(d, "GetString", "URI"), e.get(d, "GetDictionary", "URI")
		b := e.get(e.valOf(g), "GetString", "Base")
		return []Cond{{e.okOf(s), false}, {e.okOf(g), true}, {e.okOf(b), true}}, e.valOf(b)
	})
	// URLS name tree: every second entry starting with the first
	treeLoop(p, r, root, initObj, func() *Term { return d }, isDict, "URLS", 0, func(e *Engine, t *Traversal) {
		t.AtEnd = func(st *State, ctx *Ctx, pos string) {
			g := st.pins["elem"]
			if g != nil && st.flags["written"] == "" && e.Eval(st, e.okOf(g)) != 0 {
				r.fail("URLS entry", fnName(ctx.fn), pos, "a URL of the URLS name tree can be passed over without being written", st.Path())
			}
			delete(st.pins, "elem")
			delete(st.flags, "written")
		}
	}, func(e *Engine, st *State, c *Call) {
		if g := st.pins["elem"]; g != nil && e.writeTo(st, c, "URLs", e.valOf(g)) {
			st.flags["written"] = "1"
		}
	}, []string{"GetString"})
	// URL file specifications
	runReq(p, r, file, nil, nil, func(e *Engine) *Req {
		d := e.ParamTerm(0)
		fs, f := e.get(d, "GetString", "FS"), e.get(d, "GetString", "F")
		return &Req{Name: "URL file specification", Msg: "the target of a URL file specification can be passed over without being written to URLs",
			Conds: []Cond{{e.Cmp(token.EQL, e.valOf(fs), e.in.Str("URL")), true}, {e.okOf(f), true}},
			Done:  func(st *State, c *Call) bool { return e.writeTo(st, c, "URLs", e.valOf(f)) }}
	})
	sinkRule(p, r, []string{"IndirectObject.Extract", "Action.Extract", "File.Extract", "Page.Extract", "Output.DumpFile"}, map[string][]string{
		"Javascript": {"GetString:JS", "GetStream:JS"},
		"URLs":       {"GetString:URI", "GetString:Base", "GetString:F", "elem GetString of tree:URLS"},
	})
	r.need("write sites", r.Sites, 8)
}

// treeLoop checks the traversal of a name tree map: index first, first+2, ...
func treeLoop(p *Program, r *Report, root *ssa.Function, init func(*Engine, *State, *Ctx), d func() *Term, isDict func(*Engine) Cond, key string, first int64,
	setup func(*Engine, *Traversal), onCall func(*Engine, *State, *Call), getters []string) {
	loops := map[string]*travLoop{}
	name := key + " name tree"
	before := len(r.Findings)
	for pass := 0; pass < 2; pass++ {
		e := NewEngine(p)
		rr := r
		if pass == 0 {
			rr = newReport(r.Prop)
		}
		t := &Traversal{e: e, r: rr, name: name, first: first, step: 2, loops: loops}
		if pass == 1 {
			setup(e, t)
		}
		var coll *Term
		e.H.Call = func(st *State, c *Call) { onCall(e, st, c) }
		e.H.After = func(st *State, c *Call) {
			for _, g := range getters {
				if c.Name == "Array."+g && c.Args[0] == coll && c.Result != nil {
					if t.Visit(st, c.Ctx, c.Com.Args[1], coll, p.InstrPos(c.In)) {
						st.pins["elem"+strings.TrimPrefix(g, "GetString")] = c.Result
					}
				}
			}
		}
		e.H.Edge = t.Edge
		e.H.Ret = func(st *State, ctx *Ctx, in *ssa.Return, res []*Term) {
			if !e.refuted(st, []Cond{isDict(e)}) && st.flags["entered:"+name] == "" {
				rr.fail(name, fnName(root), p.InstrPos(in), "the entries of "+key+" can be passed over", st.Path())
			}
		}
		e.Run(root, func(st *State, ctx *Ctx) {
			init(e, st, ctx)
			coll = e.get(d(), "GetNameTreeMap", key)
			e.Keep = append(e.Keep, isDict(e).T)
		})
		if pass == 1 {
			r.finish(e, name)
		}
	}
	r.ob(len(r.Findings) == before)
	r.sample("%s: traversal loops %v", name, sortedKeys(loops))
	if len(loops) == 0 {
		r.fail(name, fnName(root), p.Pos(root.Pos()), "no loop visits the entries of "+key, nil)
	}
}

func runC24(p *Program, r *Report) {
	act := r.anchor(p, "Action.Extract")
	file := r.anchor(p, "File.Extract")
	if act == nil || file == nil {
		return
	}
	walkActions(p, r)
	launch := func(e *Engine) []Cond {
		s := e.get(e.ParamTerm(0), "GetName", "S")
		return []Cond{{e.okOf(s), true}, {e.Cmp(token.EQL, e.valOf(s), e.in.Str("Launch")), true}}
	}
	getF := func(e *Engine) *Term { return e.get(e.ParamTerm(0), "GetString", "F") }
	runReq(p, r, act, nil, nil, func(e *Engine) *Req {
		f := getF(e)
		return &Req{Name: "launch target", Msg: "the target of a launch action can be passed over without being written to Commands",
			Conds: append(launch(e), Cond{e.okOf(f), true}),
			Done:  func(st *State, c *Call) bool { return e.writeTo(st, c, "Commands", e.valOf(f)) }}
	})
	runReq(p, r, act, nil, nil, func(e *Engine) *Req {
		f := getF(e)
		return &Req{Name: "action target", Msg: "the external file of an action can be passed over without being listed in Files",
			Conds: []Cond{{e.okOf(f), true}},
			Done:  func(st *State, c *Call) bool { return e.listed(st, c, e.valOf(f)) }}
	})
	for _, key := range []string{"F", "Win"} {
		runReq(p, r, act, nil, nil, func(e *Engine) *Req {
			g := e.get(e.ParamTerm(0), "GetDictionary", key)
			cs := []Cond{{e.okOf(g), true}}
			if key == "F" {
				cs = append(cs, Cond{e.okOf(getF(e)), false})
			}
			for _, l := range launch(e) {
				e.Keep = append(e.Keep, l.T)
			}
			return &Req{Name: "file specification " + key, Msg: "the file specification in " + key + " can be passed over", Conds: cs,
				Done: func(st *State, c *Call) bool {
					if c.Name != "File.Extract" || c.Args[0] != e.valOf(g) {
						return false
					}
					if c.Args[1] != e.ParamTerm(1) {
						return false
					}
					if !e.agrees(st, c.Args[2], launch(e)) {
						r.fail("launch flag", fnName(act)+" "+key, p.InstrPos(c.In), "the file specification is not handled as a command exactly when the action is a Launch action", st.Path())
					}
					return true
				}}
		})
	}
	// file specifications
	fileConds := func(e *Engine) (cs []Cond, f, pp *Term) {
		d := e.ParamTerm(0)
		fs, ef := e.get(d, "GetString", "FS"), e.get(d, "GetDictionary", "EF")
		f, pp = e.get(d, "GetString", "F"), e.get(d, "GetString", "P")
		return []Cond{{e.Cmp(token.EQL, e.valOf(fs), e.in.Str("URL")), false}, {e.okOf(ef), false}, {e.okOf(f), true}}, f, pp
	}
	runReq(p, r, file, nil, nil, func(e *Engine) *Req {
		cs, f, pp := fileConds(e)
		return &Req{Name: "command with parameters", Msg: "a file specification with parameters can be passed over without its command and parameters being written to Commands",
			Conds: append(cs, Cond{e.okOf(pp), true}),
			Done:  func(st *State, c *Call) bool { return e.writeTo(st, c, "Commands", e.valOf(f), e.valOf(pp)) }}
	})
	runReq(p, r, file, nil, nil, func(e *Engine) *Req {
		cs, f, _ := fileConds(e)
		return &Req{Name: "command file", Msg: "the file of a launch action's file specification can be passed over without being written to Commands",
			Conds: append(cs, Cond{e.ParamTerm(2), true}),
			Done:  func(st *State, c *Call) bool { return e.writeTo(st, c, "Commands", e.valOf(f)) }}
	})
	runReq(p, r, file, nil, nil, func(e *Engine) *Req {
		cs, f, _ := fileConds(e)
		return &Req{Name: "external file", Msg: "an external file can be passed over without being listed in Files", Conds: cs,
			Done: func(st *State, c *Call) bool { return e.listed(st, c, e.valOf(f)) }}
	})
	sinkRule(p, r, []string{"IndirectObject.Extract", "Action.Extract", "File.Extract", "Page.Extract", "Output.DumpFile"}, map[string][]string{
		"Commands": {"GetString:F", "GetString:P"},
	})
	r.need("write sites", r.Sites, 5)
	_ = fmt.Sprint
}

// listed: the call writes "00...0:name" to the manifest.
func (e *Engine) listed(st *State, c *Call, name *Term) bool {
	w := e.asWrite(st, c)
	if w == nil || e.outputField(st, w.Dest) != "Files" {
		return false
	}
	var lit string
	for i, p := range w.Data {
		if strip(p) == strip(name) {
			return lit == strings.Repeat("0", 32)+":" && i <= len(w.Data)-1
		}
		s, ok := p.strVal()
		if !ok {
			return false
		}
		lit += s
	}
	return false
}
