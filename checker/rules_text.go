package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C28"] = &Check{
		Rule: "every content stream of a page is read to its end command by command; between BT and ET every show operator writes its operand decoded with the font of the last Tf; the fonts of the page are registered under their names; TJ joins every string of its array in order",
		Run:  runC28,
	}
}

func (p *Program) global(name string) *ssa.Global {
	g, _ := p.Pdf.Members[name].(*ssa.Global)
	return g
}

func runC28(p *Program, r *Report) {
	walkPages(p, r)
	walkPageTree(p, r)
	maps := map[any]bool{}
	fontsRule(p, r, maps)
	contentsRule(p, r)
	textRule(p, r, maps)
	joinRule(p, r)
	commandRule(p, r)
}

func isFontMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	return ok && typeStr(m.Elem()) == "*Font"
}

// pageFonts is the font dictionary of the page's resources.
func pageFonts(e *Engine) *Term {
	return e.valOf(e.get(e.valOf(e.get(e.ParamTerm(0), "GetDictionary", "Resources")), "GetDictionary", "Font"))
}

// fontsRule: every font of the page is registered under its name.
func fontsRule(p *Program, r *Report, maps map[any]bool) {
	root := r.anchor(p, "Page.Extract")
	if root == nil {
		return
	}
	(&Each{Name: "fonts", Root: root, Pre: noPre,
		Coll:  func(e *Engine, st *State) *Term { return pageFonts(e) },
		Conds: func(e *Engine, st *State, el *Elem) []Cond { return nil },
		Upd: func(e *Engine, st *State, m, k, v *Term, el *Elem) bool {
			if m.typ != nil && isFontMap(m.typ) && k == el.Idx && v == st.pins["each.font"] && v != nil {
				maps[m.val] = true
				return true
			}
			return false
		},
		After: func(e *Engine, st *State, c *Call, el *Elem) {
			if el != nil && c.Name == "NewFont" && strip(c.Args[0]) == e.valOf(e.in.Pure("call:Dictionary.GetDictionary", el.Coll, el.Idx)) {
				st.pins["each.font"] = c.Result
			}
		},
		Msg: "a font of the page is not registered under its name"}).run(p, r)
}

// contentsRule: every content stream is read.
func contentsRule(p *Program, r *Report) {
	root := p.Func("Page.Extract")
	if root == nil {
		return
	}
	model := func(e *Engine, st *State, c *Call) *Term {
		switch c.Name {
		case "bytes.NewReader", "bytes.NewBuffer", "strings.NewReader", "bytes.NewBufferString":
			if len(c.Args) == 1 {
				return e.in.PureT(c.In.(ssa.Value).Type(), "reader", strip(c.Args[0]))
			}
		}
		return nil
	}
	reads := func(c *Call, data *Term) bool {
		if c.Name != "NewParser" {
			return false
		}
		t := peel(c.Args[0])
		return t.is("reader") && t.args[0] == strip(data)
	}
	e := NewEngine(p)
	e.NoLookahead, e.KeepFacts, e.NoContent = true, true, true
	e.H.Model = func(st *State, c *Call) *Term { return model(e, st, c) }
	e.H.Call = func(st *State, c *Call) {
		if reads(c, e.valOf(e.get(e.ParamTerm(0), "GetStream", "Contents"))) {
			st.flags["read"] = "1"
		}
	}
	exits := 0
	e.H.Ret = func(st *State, ctx *Ctx, in *ssa.Return, res []*Term) {
		exits++
		g := e.get(e.ParamTerm(0), "GetStream", "Contents")
		ok := st.flags["read"] != "" || e.refuted(st, []Cond{{e.okOf(g), true}})
		r.ob(ok)
		if !ok {
			r.fail("contents", fnName(root), p.InstrPos(in), "the content stream of a page can be passed over", st.Path())
		}
	}
	e.Run(root, func(st *State, ctx *Ctx) {
		e.Keep = append(e.Keep, e.okOf(e.get(e.ParamTerm(0), "GetStream", "Contents")))
	})
	r.finish(e, "contents")
	r.need("exits of Page.Extract", exits, 1)
	arr := func(e *Engine) *Term { return e.get(e.ParamTerm(0), "GetArray", "Contents") }
	part := func(e *Engine, el *Elem) *Term { return e.in.Pure("call:Array.GetStream", el.Coll, el.Idx) }
	(&Each{Name: "content streams", Root: root, Model: model, Setup: func(e *Engine) { e.NoContent = true },
		Pre: func(e *Engine) []Cond {
			return []Cond{{e.okOf(arr(e)), true}, {e.okOf(e.get(e.ParamTerm(0), "GetStream", "Contents")), false}}
		},
		Coll: func(e *Engine, st *State) *Term { return e.valOf(arr(e)) },
		Conds: func(e *Engine, st *State, el *Elem) []Cond {
			if el.Coll == nil {
				return nil
			}
			return []Cond{{e.okOf(part(e, el)), true}}
		},
		Done: func(e *Engine, st *State, c *Call, el *Elem) bool { return reads(c, e.valOf(part(e, el))) },
		Msg:  "a content stream of a page can be passed over"}).run(p, r)
}

var showOps = []string{"Tj", "'", "\""}

// text follows the commands of a content stream.
type text struct {
	p                *Program
	r                *Report
	e                *Engine
	readError, deflt *Term
	shown, commands  int
	fonts            int
	maps             map[any]bool // where fonts are registered
}

func (x *text) fail(st *State, construct, pos, msg string) {
	x.r.ob(false)
	x.r.fail("text", construct, pos, msg, st.Path())
}

func (x *text) parts(st *State) (cmd, ops, err *Term) {
	n := st.pins["cmd"]
	if n == nil {
		return
	}
	return x.e.ext(n, 0), x.e.ext(n, 1), x.e.ext(n, 2)
}

// operand is the result of looking up the operand k places before the end.
func (x *text) operand(st *State, ops *Term, m string, k int64) *Term {
	return x.e.in.Pure("call:Array."+m, ops, x.e.in.linAdd(x.e.Len(st, ops, nil), x.e.in.Int(-k), 1, types.Typ[types.Int]))
}

func (x *text) is(cmd *Term, op string) *Term { return x.e.Cmp(token.EQL, cmd, x.e.in.Str(op)) }

// done closes the current command: what it asked for has to have happened.
func (x *text) done(st *State, pos string) {
	e := x.e
	cmd, ops, err := x.parts(st)
	if cmd == nil {
		return
	}
	over := Cond{e.Cmp(token.EQL, err, x.readError), false}
	if e.Eval(st, over.T) == 1 {
		st.flags["over"] = "1"
	}
	if st.flags["over"] != "" {
		// nothing follows the end of the stream
		delete(st.flags, "shown")
		x.forget(st)
		return
	}
	some := Cond{e.Cmp(token.LSS, e.in.Int(0), e.Len(st, ops, nil)), true}
	if st.flags["text"] == "" {
		if !e.refuted(st, []Cond{over, {x.is(cmd, "BT"), true}}) {
			ok := e.Eval(st, x.is(cmd, "BT")) == 1
			x.r.ob(ok)
			if !ok {
				x.fail(st, "BT", pos, "a command is passed over without finding out whether it starts a text object")
			}
			st.flags["text"] = "1"
			st.pins["font"] = x.deflt
		}
	} else {
		for _, op := range showOps {
			g := x.operand(st, ops, "GetString", 1)
			ok := st.flags["shown"] != "" || e.refuted(st, []Cond{over, some, {x.is(cmd, op), true}, {e.okOf(g), true}, {e.Cmp(token.EQL, e.valOf(g), e.in.Str("")), false}})
			x.r.ob(ok)
			if !ok {
				x.fail(st, op, pos, "the text shown by "+op+" is not written decoded with the font in effect")
			}
		}
		g := x.operand(st, ops, "GetArray", 1)
		ok := st.flags["shown"] != "" || e.refuted(st, []Cond{over, some, {x.is(cmd, "TJ"), true}, {e.okOf(g), true}, {e.Cmp(token.LSS, e.in.Int(0), e.Len(st, e.valOf(g), nil)), true}})
		x.r.ob(ok)
		if !ok {
			x.fail(st, "TJ", pos, "the text shown by TJ is not written decoded with the font in effect")
		}
		if !e.refuted(st, []Cond{over, {x.is(cmd, "Tf"), true}}) {
			x.font(st, cmd, ops, pos)
		}
		if !e.refuted(st, []Cond{over, {x.is(cmd, "ET"), true}}) {
			ok := e.Eval(st, x.is(cmd, "ET")) == 1
			x.r.ob(ok)
			if !ok {
				x.fail(st, "ET", pos, "a command is passed over without finding out whether it ends the text object")
			}
			delete(st.flags, "text")
			delete(st.pins, "font")
		}
	}
	delete(st.flags, "shown")
	x.forget(st)
}

func (x *text) forget(st *State) {
	for k := range st.pins {
		if k == "cmd" || strings.HasPrefix(k, "cmd.") {
			delete(st.pins, k)
		}
	}
}

// font is the font a Tf command selects.
func (x *text) font(st *State, cmd, ops *Term, pos string) {
	e := x.e
	x.fonts++
	name := e.valOf(x.operand(st, ops, "GetName", 2))
	var val *Term
	known := -1
	for k, v := range st.cells {
		if k.is("mapel") && isFontMap(k.args[0].typ) && k.args[1] == name && len(x.maps) == 1 && x.maps[k.args[0].val] {
			val = v
			if ok := st.cells[e.mapCell("mapok", k.args[0], name)]; ok != nil {
				known = e.Eval(st, ok)
			}
			if known < 0 {
				switch e.Eval(st, e.Cmp(token.EQL, v, e.in.Nil())) {
				case 0:
					known = 1
				case 1:
					known = 0
				}
			}
		}
	}
	switch {
	case e.Eval(st, x.is(cmd, "Tf")) != 1:
		x.fail(st, "Tf", pos, "a command is passed over without finding out whether it selects a font")
	case val == nil || known < 0:
		x.fail(st, "Tf", pos, "the font named by Tf is not looked up among the fonts of the page")
	case known == 1:
		st.pins["font"] = val
	default:
		st.pins["font"] = x.deflt
	}
}

// textRule follows the commands of every content stream.
func textRule(p *Program, r *Report, maps map[any]bool) {
	root := p.Func("Page.Extract")
	if root == nil {
		return
	}
	e := NewEngine(p)
	e.NoLookahead, e.KeepFacts, e.NoContent = true, true, true
	e.Stable = func(t *Term) bool { return t.is("joined") }
	x := &text{p: p, r: r, e: e, maps: maps}
	if g := p.global("ReadError"); g != nil {
		x.readError = e.globalValue(g)
	}
	if g := p.global("FontDefault"); g != nil {
		x.deflt = e.globalValue(g)
	}
	if x.readError == nil || x.deflt == nil {
		r.fail("anchor", "ReadError, FontDefault", "-", "the end of input mark or the default font is not a constant", nil)
		return
	}
	e.H.Model = func(st *State, c *Call) *Term {
		switch c.Name {
		case "Font.Decode":
			return e.in.PureT(types.Typ[types.String], "decoded", c.Args[0], strip(c.Args[1]))
		case "(*strings.Builder).String", "(*bytes.Buffer).String", "(*bytes.Buffer).Bytes":
			if st.flags["stale"] == "" && st.pins["cmd"] != nil {
				return e.in.PureT(c.In.(ssa.Value).Type(), "joined", c.Args[0], st.pins["cmd"])
			}
		case "builtin append":
			if isByteSlice(c.In.(ssa.Value).Type()) && st.pins["cmd"] != nil {
				b := c.Args[0]
				if x.element(st, c.Args[1]) && b.is("joined") && b.args[1] == st.pins["cmd"] || x.element(st, c.Args[1]) && (b.isNil() || e.Eval(st, e.Cmp(token.EQL, e.Len(st, b, nil), e.in.Int(0))) == 1) {
					return e.in.PureT(c.In.(ssa.Value).Type(), "joined", e.in.Nil(), st.pins["cmd"])
				}
			}
		}
		return nil
	}
	e.H.Call = func(st *State, c *Call) {
		pos := p.InstrPos(c.In)
		switch c.Name {
		case "Parser.ReadCommand":
			x.done(st, pos)
		case "NewParser":
			x.end(st, pos)
		}
		w := e.asWrite(st, c)
		if w == nil {
			return
		}
		if isBuilder(w.Dest) {
			if st.pins["cmd"] == nil {
				return
			}
			if b := st.pins["cmd.buf"]; b != nil && b != strip(w.Dest) {
				x.fail(st, "TJ", pos, "the strings of an array are collected in different places")
			} else if b == nil && !st.zero[strip(w.Dest)] && st.pins["cmd.reset"] != strip(w.Dest) {
				x.fail(st, "TJ", pos, "text of an earlier command is still there when the strings of an array are collected")
			}
			st.pins["cmd.buf"] = strip(w.Dest)
			for _, d := range w.Data {
				if !x.element(st, d) {
					x.fail(st, "TJ", pos, "something other than the strings of the array is collected")
				}
			}
			return
		}
		for _, d := range w.Data {
			d = strip(d)
			if !d.is("decoded") {
				if d.isConst() {
					continue
				}
				if e.outputField(st, w.Dest) == "Text" {
					x.fail(st, "text", pos, "something other than text decoded with a font is written to the text output")
				}
				continue
			}
			x.show(st, w, d, pos)
		}
	}
	e.H.After = func(st *State, c *Call) {
		if strings.HasSuffix(c.Name, ".Reset") && len(c.Args) == 1 && isBuilder(c.Args[0]) {
			st.pins["cmd.reset"] = strip(c.Args[0])
			delete(st.pins, "cmd.buf")
		}
		if c.Name == "Parser.ReadCommand" {
			x.commands++
			st.pins["cmd"] = c.Result
			if st.flags["over"] != "" { // the end of the stream stays its end
				e.Assume(st, e.Cmp(token.EQL, e.ext(c.Result, 2), x.readError), true)
			}
		}
	}
	e.H.Ret = func(st *State, ctx *Ctx, in *ssa.Return, res []*Term) { x.end(st, p.InstrPos(in)) }
	e.Run(root, nil)
	r.finish(e, "text")
	r.Sites += x.shown + x.commands + x.fonts
	r.need("commands read", x.commands, 2)
	r.need("text written", x.shown, 2)
	r.need("fonts selected", x.fonts, 1)
}

// end: a content stream may be left only when nothing more can be read from it.
func (x *text) end(st *State, pos string) {
	e := x.e
	_, _, err := x.parts(st)
	ok := err == nil || st.flags["over"] != "" || e.Eval(st, e.Cmp(token.EQL, err, x.readError)) == 1
	x.r.ob(ok)
	if !ok {
		x.fail(st, "stream", pos, "reading a content stream can stop before its end")
	}
	x.done(st, pos)
	delete(st.flags, "text")
	delete(st.flags, "over")
	delete(st.pins, "font")
}

// show checks text that is written.
func (x *text) show(st *State, w *Write, d *Term, pos string) {
	e := x.e
	x.shown++
	cmd, ops, _ := x.parts(st)
	if cmd == nil || st.flags["text"] == "" {
		x.fail(st, "text", pos, "text is written outside a text object")
		return
	}
	if e.outputField(st, w.Dest) != "Text" {
		x.fail(st, "text", pos, "text is not written to the text output")
		return
	}
	if d.args[0] != st.pins["font"] {
		x.fail(st, "font", pos, "text is decoded with a font other than the one in effect: "+d.args[0].String()+" instead of "+fmt.Sprint(st.pins["font"]))
		return
	}
	if st.flags["shown"] != "" {
		x.fail(st, "text", pos, "the text of a command is written twice")
		return
	}
	st.flags["shown"] = "1"
	data := d.args[1]
	show := false
	for _, op := range showOps {
		show = show || e.Eval(st, x.is(cmd, op)) == 1
	}
	tj := e.Eval(st, x.is(cmd, "TJ")) == 1
	ok := show && data == strip(e.valOf(x.operand(st, ops, "GetString", 1))) || tj && (data.is("joined") && data.args[1] == st.pins["cmd"] || data.isNil() || e.Eval(st, e.Cmp(token.EQL, e.Len(st, data, nil), e.in.Int(0))) == 1)
	x.r.ob(ok)
	if !ok {
		x.fail(st, "operand", pos, "what is written is not the text operand of the command: "+trunc(data.String(), 80))
	}
}

// element recognises a string of the array operand.
func (x *text) element(st *State, d *Term) bool {
	d = strip(d)
	a := x.shownArray(st)
	if d.is("x:0") {
		d = d.args[0]
		return d.is("call:Array.GetString") && d.args[0] == a
	}
	if d.is("as:String") {
		for k, v := range st.cells {
			if k.is("iaddr") && k.args[0] == a && v == d.args[0] {
				return true
			}
		}
	}
	s, ok := d.strVal()
	return ok && s == ""
}

// shownArray is the array operand of the current command.
func (x *text) shownArray(st *State) *Term {
	_, ops, _ := x.parts(st)
	if ops == nil {
		return nil
	}
	return x.e.valOf(x.operand(st, ops, "GetArray", 1))
}

// joinRule: TJ shows every string of its array.
func joinRule(p *Program, r *Report) {
	root := p.Func("Page.Extract")
	if root == nil {
		return
	}
	const name = "strings of TJ"
	str := func(e *Engine, el *Elem) *Term { return e.in.Pure("call:Array.GetString", el.Coll, el.Idx) }
	decodes := 0
	isStr := func(e *Engine, d *Term, el *Elem) bool {
		d = strip(d)
		return d == strip(e.valOf(str(e, el))) || el.X != nil && d.is("as:String") && d.args[0] == el.X
	}
	var each *Each
	each = &Each{Name: name, Root: root, Pre: noPre,
		Setup: func(e *Engine) { e.KeepFacts, e.NoContent = true, true },
		Coll:  func(e *Engine, st *State) *Term { return (&text{e: e}).shownArray(st) },
		Ret:   func(e *Engine, st *State, in *ssa.Return, res []*Term) bool { return true },
		Conds: func(e *Engine, st *State, el *Elem) []Cond {
			if el.Coll == nil {
				return nil
			}
			cs := []Cond{{e.okOf(str(e, el)), true}, {e.Cmp(token.EQL, e.valOf(str(e, el)), e.in.Str("")), false}}
			if el.X != nil {
				cs = append(cs, Cond{e.in.Pure("is:String", el.X), true})
			}
			return cs
		},
		Call: func(e *Engine, st *State, c *Call) {
			x := &text{e: e}
			if cmd, _, _ := x.parts(st); each.pass == 1 && cmd != nil && c.Name == "Font.Decode" && e.Eval(st, x.is(cmd, "TJ")) == 1 {
				decodes++
				ok := st.flags["entered:"+name] != ""
				r.ob(ok)
				if !ok {
					r.fail(name, fnName(root), p.InstrPos(c.In), "the array of TJ is shown without visiting its elements", st.Path())
				}
			}
		},
		Done: func(e *Engine, st *State, c *Call, el *Elem) bool {
			if c.Name == "Font.Decode" {
				return isStr(e, c.Args[1], el)
			}
			if c.Name == "builtin append" {
				return isStr(e, c.Args[1], el)
			}
			w := e.asWrite(st, c)
			return w != nil && isBuilder(w.Dest) && len(w.Data) == 1 && isStr(e, w.Data[0], el)
		},
		After: func(e *Engine, st *State, c *Call, el *Elem) {
			if c.Name == "Parser.ReadCommand" {
				delete(st.flags, "entered:"+name)
				st.pins["cmd"] = c.Result
			}
		},
		Msg: "a string of the array of TJ can be left out"}
	each.run(p, r)
	r.need("arrays decoded", decodes, 1)
}

// commandRule: a command is the next keyword with everything that was read before it.
func commandRule(p *Program, r *Report) {
	root := r.anchor(p, "Parser.ReadCommand")
	if root == nil {
		return
	}
	e := NewEngine(p)
	e.NoLookahead, e.KeepFacts, e.NoContent = true, true, true
	e.Stable = func(t *Term) bool { return t.is("operands") }
	fail := func(st *State, in ssa.Instruction, msg string) {
		r.ob(false)
		r.fail("command", "Parser.ReadCommand", p.InstrPos(in), msg, st.Path())
	}
	empty := func(st *State, t *Term) bool {
		return t.isNil() || e.Eval(st, e.Cmp(token.EQL, e.Len(st, t, nil), e.in.Int(0))) == 1
	}
	e.H.Model = func(st *State, c *Call) *Term {
		if c.Name == "builtin append" && typeStr(c.In.(ssa.Value).Type()) == "Array" {
			va := e.Varargs(st, c.Args[1])
			ok := len(va) == 1 && st.pins["obj"] != nil && va[0] == e.ext(st.pins["obj"], 0) && st.flags["taken"] == "" &&
				(c.Args[0].is("operands") && st.flags["some"] != "" || empty(st, c.Args[0]) && st.flags["some"] == "")
			if ok {
				st.flags["taken"], st.flags["some"] = "1", "1"
				return e.in.PureT(c.In.(ssa.Value).Type(), "operands")
			}
			fail(st, c.In, "the operands of a command are not exactly the objects read before it, in order")
		}
		return nil
	}
	e.H.Call = func(st *State, c *Call) {
		o := st.pins["obj"]
		if c.Name != "Parser.ReadObject" || o == nil {
			return
		}
		isNil := e.Cmp(token.EQL, e.ext(o, 1), e.in.Nil())
		ok := st.flags["taken"] != "" && e.Eval(st, e.in.Pure("is:Keyword", e.ext(o, 0))) == 0 ||
			e.refuted(st, []Cond{{isNil, true}})
		r.ob(ok)
		if !ok {
			fail(st, c.In, "a command or operand can be passed over")
		}
	}
	reads, rets := 0, 0
	e.H.After = func(st *State, c *Call) {
		if c.Name == "Parser.ReadObject" {
			reads++
			st.pins["obj"] = c.Result
			delete(st.flags, "taken")
		}
	}
	e.H.Ret = func(st *State, ctx *Ctx, in *ssa.Return, res []*Term) {
		rets++
		o := st.pins["obj"]
		if o == nil {
			fail(st, in, "returns without reading anything")
			return
		}
		errT := e.ext(o, 1)
		failed := e.Eval(st, e.Cmp(token.EQL, errT, e.in.Nil()))
		if g := p.global("ReadError"); failed < 0 && g != nil && e.globalValue(g) != nil && e.Eval(st, e.Cmp(token.EQL, errT, e.globalValue(g))) == 0 {
			failed = 1 // closing delimiters stand for a null keyword
		}
		switch {
		case failed == 0:
			r.ob(res[2] == errT)
			if res[2] != errT {
				fail(st, in, "the end of the input is not reported as it was found")
			}
		case failed != 1:
			fail(st, in, "returns without finding out whether there was anything to read")
		default:
			ok := e.Resolve(st, res[2]) == e.in.Nil() || res[2] == errT
			ok = ok && res[0] == e.in.Pure("as:Keyword", e.ext(o, 0)) && e.Eval(st, e.in.Pure("is:Keyword", e.ext(o, 0))) == 1
			ok = ok && (res[1].is("operands") || st.flags["some"] == "" && empty(st, res[1]))
			r.ob(ok)
			if !ok {
				fail(st, in, "a command is not returned as its keyword with all its operands")
			}
		}
	}
	e.Run(root, nil)
	r.finish(e, "command")
	r.need("objects read by ReadCommand", reads, 1)
	r.need("returns of ReadCommand", rets, 2)
}
