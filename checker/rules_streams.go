package main

import (
	"fmt"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C15"] = &Check{
		Rule: "DecodeStream returns the result of the decoder its filter name stands for and the data otherwise; the compression decoders read everything, fall back to the data only if nothing could be read, and reverse the predictor; ReadStream applies every filter of its list in order with the parameters of the same position; GetObject passes the declared lists",
		Run:  runC15,
	}
}

func runC15(p *Program, r *Report) {
	dispatchRule(p, r)
	compressionRule(p, r, "FlateDecode")
	compressionRule(p, r, "LZWDecode")
	chainRule(p, r)
	runObject(p, r, &objRun{ReadStream: declaredFilters, keep: map[string]bool{"Filter": true, "DecodeParms": true}})
}

var decoderOf = []struct {
	filter, decoder string
	parms           bool
}{
	{"ASCIIHexDecode", "ASCIIHexDecode", false}, {"ASCII85Decode", "ASCII85Decode", false}, {"RunLengthDecode", "RunLengthDecode", false},
	{"FlateDecode", "FlateDecode", true}, {"LZWDecode", "LZWDecode", true},
}

// dispatchRule: filter names select their decoders.
func dispatchRule(p *Program, r *Report) {
	root := r.anchor(p, "DecodeStream")
	if root == nil {
		return
	}
	e := NewEngine(p)
	e.NoLookahead = true
	exits := map[string]int{}
	var filter, data, parms *Term
	e.H.Model = func(st *State, c *Call) *Term {
		for _, d := range decoderOf {
			if c.Name == d.decoder && len(c.Args) >= 1 {
				st.flags["decoded"] += d.decoder + ";"
				return e.in.PureT(c.In.(ssa.Value).Type(), "decode:"+d.decoder, c.Args...)
			}
		}
		return nil
	}
	e.H.Ret = func(st *State, ctx *Ctx, in *ssa.Return, res []*Term) {
		empty := e.Eval(st, e.Cmp(token.EQL, e.Len(st, data, nil), e.in.Int(0))) == 1
		known := false
		for _, d := range decoderOf {
			want := []Cond{{e.Cmp(token.EQL, filter, e.in.Str(d.filter)), true}}
			got := res[0].is("decode:"+d.decoder) && res[0].args[0] == data && (!d.parms || res[0].args[1] == parms)
			if res[0].is("decode:" + d.decoder) {
				known = true
				exits[d.filter]++
				ok := got && (e.Eval(st, want[0].T) == 1 || empty)
				r.ob(ok)
				if !ok {
					r.fail("dispatch", "DecodeStream "+d.decoder, p.InstrPos(in), d.decoder+" is applied to data of another filter, or not to the given data and parameters", st.Path())
				}
				continue
			}
			ok := empty || e.refuted(st, want)
			r.ob(ok)
			if !ok {
				r.fail("dispatch", "DecodeStream "+d.filter, p.InstrPos(in), "data can be returned without applying "+d.decoder+" although the filter may be "+d.filter, st.Path())
			}
		}
		if !known {
			ok := res[0] == data
			r.ob(ok)
			if !ok {
				r.fail("dispatch", "DecodeStream", p.InstrPos(in), "the data of an unknown filter is not passed through unchanged", st.Path())
			}
		}
	}
	e.Run(root, func(st *State, ctx *Ctx) {
		filter, data, parms = e.ParamTerm(0), e.ParamTerm(1), e.ParamTerm(2)
		for _, d := range decoderOf {
			e.Keep = append(e.Keep, e.Cmp(token.EQL, filter, e.in.Str(d.filter)))
		}
		e.Keep = append(e.Keep, filter, e.Len(st, data, nil), e.Cmp(token.EQL, e.Len(st, data, nil), e.in.Int(0)))
	})
	r.finish(e, "DecodeStream")
	for _, d := range decoderOf {
		r.need("returns of "+d.decoder, exits[d.filter], 1)
	}
	r.Sites += len(exits)
}

// peel removes interface wrappers.
func peel(t *Term) *Term {
	for t != nil && strings.HasPrefix(t.op, "iface:") && len(t.args) == 1 {
		t = t.args[0]
	}
	return strip(t)
}

// compressionRule: everything the decompressor yields is decoded further; the raw data is
// returned if and only if nothing can be decompressed.
func compressionRule(p *Program, r *Report, name string) {
	root := r.anchor(p, name)
	if root == nil {
		return
	}
	e := NewEngine(p)
	e.NoLookahead = true
	var data, parms *Term
	e.H.Model = func(st *State, c *Call) *Term {
		v, ok := c.In.(ssa.Value)
		if !ok {
			return nil
		}
		read := func(dst, src *Term) *Term {
			t := e.in.PureT(v.Type(), "readfrom", src)
			if st.pins["read"] != nil {
				st.flags["twice"] = "1"
			}
			st.pins["read"] = t
			if dst != nil {
				if !st.zero[dst] {
					st.flags["dirty"] = "1"
				}
				st.pins["buf"] = dst
			}
			return t
		}
		switch c.Name {
		case "bytes.NewReader", "bytes.NewBuffer":
			if len(c.Args) == 1 && strip(c.Args[0]) == data {
				return e.in.PureT(v.Type(), "reader", data)
			}
		case "compress/zlib.NewReader":
			return e.in.PureT(v.Type(), "zlib", peel(c.Args[0]))
		case "compress/lzw.NewReader":
			return e.in.PureT(v.Type(), "lzw", peel(c.Args[0]), c.Args[1], c.Args[2])
		case "golang.org/x/image/tiff/lzw.NewReader":
			return e.in.PureT(v.Type(), "tifflzw", peel(c.Args[0]), c.Args[1], c.Args[2])
		case "(*bytes.Buffer).ReadFrom":
			return read(c.Args[0], peel(c.Args[1]))
		case "io.Copy":
			return read(peel(c.Args[0]), peel(c.Args[1]))
		case "io.ReadAll":
			return read(nil, peel(c.Args[0]))
		case "(*bytes.Buffer).Bytes":
			return e.in.PureT(v.Type(), "all", c.Args[0])
		case "ReversePredictor":
			return e.in.PureT(v.Type(), "unpredicted", c.Args...)
		}
		return nil
	}
	exits := map[string]int{}
	e.H.Ret = func(st *State, ctx *Ctx, in *ssa.Return, res []*Term) {
		bad := func(msg string) {
			r.ob(false)
			r.fail("decompression", name, p.InstrPos(in), msg, st.Path())
		}
		isNil := func(t *Term) int { return e.Eval(st, e.Cmp(token.EQL, t, e.in.Nil())) }
		// the reader that has to be used
		src := e.in.Pure("reader", data)
		var zr *Term
		if name == "FlateDecode" {
			z := e.in.Pure("zlib", src)
			switch isNil(e.in.Pure("x:1", z)) {
			case 0:
				r.ob(res[0] == data)
				exits["undecodable"]++
				if res[0] != data {
					bad("data that is not compressed is not passed through unchanged")
				}
				return
			}
			zr = e.in.Pure("x:0", z)
		} else {
			g := e.get(parms, "GetInt", "EarlyChange")
			old := e.Cmp(token.EQL, e.valOf(g), e.in.Int(0))
			// compress/lzw changes the code width late, the TIFF variant early
			op := ""
			switch {
			case e.Eval(st, e.okOf(g)) == 0:
				op = "tifflzw"
			case e.Eval(st, old) == 1 && e.Eval(st, e.okOf(g)) == 1:
				op = "lzw"
			case e.Eval(st, old) == 0:
				op = "tifflzw"
			default:
				bad("the variant of the algorithm is chosen without looking at EarlyChange")
				return
			}
			zr = e.in.Pure(op, src, e.in.Int(1), e.in.Int(8))
		}
		rd := st.pins["read"]
		if rd == nil || rd.args[0] != zr || st.flags["twice"] != "" || st.flags["dirty"] != "" {
			bad("the data is not decompressed completely and exactly once with the right algorithm")
			return
		}
		n, err := e.in.Pure("x:0", rd), e.in.Pure("x:1", rd)
		all := n
		if b := st.pins["buf"]; b != nil {
			all = e.in.Pure("all", b)
		} else {
			n = e.Len(st, n, nil)
		}
		nothing := []Cond{{e.Cmp(token.EQL, err, e.in.Nil()), false}, {e.Cmp(token.EQL, n, e.in.Int(0)), true}}
		switch {
		case res[0] == data:
			exits["undecodable"]++
			ok := isNil(err) == 0 && (e.Eval(st, nothing[1].T) == 1 || e.Eval(st, e.Cmp(token.EQL, e.Len(st, all, nil), e.in.Int(0))) == 1)
			r.ob(ok)
			if !ok {
				bad("the raw data is returned although something may have been decompressed")
			}
		case res[0].is("unpredicted") && res[0].args[0] == all && res[0].args[1] == parms:
			exits["decoded"]++
			ok := e.refuted(st, nothing) || e.refuted(st, []Cond{nothing[0], {e.Cmp(token.EQL, e.Len(st, all, nil), e.in.Int(0)), true}})
			r.ob(ok)
			if !ok {
				bad("undecodable data is not passed through unchanged")
			}
		default:
			bad("what is returned is not the decompressed data with its predictor reversed")
		}
	}
	e.Run(root, func(st *State, ctx *Ctx) {
		data, parms = e.ParamTerm(0), e.ParamTerm(1)
		z := e.in.Pure("zlib", e.in.Pure("reader", data))
		g := e.get(parms, "GetInt", "EarlyChange")
		e.Keep = append(e.Keep, e.in.Pure("x:1", z), e.okOf(g), e.valOf(g))
	})
	r.finish(e, name)
	r.need(name+": decoded data returned", exits["decoded"], 1)
	r.need(name+": undecodable data returned", exits["undecodable"], 1)
	r.Sites += 2
}

// chainRule: the filters of a stream are applied one after the other.
func chainRule(p *Program, r *Report) {
	root := r.anchor(p, "Parser.ReadStream")
	if root == nil {
		return
	}
	setup := func(e *Engine) {
		e.KeepFacts, e.NoContent = true, true
		e.Stable = func(t *Term) bool { return t.is("chain") }
	}
	list := func(e *Engine) *Term { return e.ParamTerm(2) }
	name := func(e *Engine, el *Elem) *Term { return e.in.Pure("call:Array.GetName", list(e), el.Idx) }
	// the data is the one produced last
	cur := func(st *State, t *Term) bool {
		return t.is("chain") && t.args[0].String() == "\""+st.flags["version"]+"\""
	}
	next := func(e *Engine, st *State, c *Call) *Term {
		if st.flags["version"] == "a" {
			st.flags["version"] = "b"
		} else {
			st.flags["version"] = "a"
		}
		return e.in.PureT(c.In.(ssa.Value).Type(), "chain", e.in.Str(st.flags["version"]))
	}
	applies := func(e *Engine, st *State, c *Call, el *Elem) bool {
		return el != nil && el.Coll != nil && c.Name == "DecodeStream" && c.Args[0] == e.valOf(name(e, el)) && cur(st, c.Args[1]) &&
			c.Args[2] == e.valOf(e.in.Pure("call:Array.GetDictionary", e.ParamTerm(3), el.Idx))
	}
	x := &Each{Name: "filter chain", Root: root, Setup: setup, Pre: noPre,
		Coll: func(e *Engine, st *State) *Term { return list(e) },
		Conds: func(e *Engine, st *State, el *Elem) []Cond {
			if el.Coll == nil {
				return nil
			}
			return []Cond{{e.okOf(name(e, el)), true}}
		},
		Model: func(e *Engine, st *State, c *Call) *Term {
			if c.Name == "iface Decryptor.Decrypt" {
				st.flags["decrypted"] = "1"
				return next(e, st, c)
			}
			if c.Name == "DecodeStream" {
				return next(e, st, c)
			}
			return nil
		},
		Done: func(e *Engine, st *State, c *Call, el *Elem) bool {
			if c.Name != "DecodeStream" {
				return false
			}
			ok := applies(e, st, c, el) && st.flags["each.applied"] == ""
			st.flags["each.applied"] = "1"
			if !ok {
				r.fail("filter chain", "Parser.ReadStream", p.InstrPos(c.In), "a filter is not applied to the result of the filters before it with the name and parameters of its own position", st.Path())
			}
			return ok
		},
		Ret: func(e *Engine, st *State, in *ssa.Return, res []*Term) bool {
			return st.flags["decrypted"] == "" || !cur(st, res[0]) // judged by C11 and below
		},
		Msg: "a filter can be passed over",
	}
	x.Returns = func(e *Engine, st *State, pos string, res []*Term) {
		ok := st.flags["decrypted"] == "" || cur(st, res[0])
		r.ob(ok)
		if !ok {
			r.fail("filter chain", "Parser.ReadStream", pos, "what is returned is not the result of the last filter", st.Path())
		}
	}
	x.run(p, r)
}

// declaredFilters: the lists given to ReadStream are the declared ones.
func declaredFilters(x *objRun, st *State, c *Call, list, parms *Term) {
	e := x.e
	pos := x.p.InstrPos(c.In)
	var d *Term
	if v := st.pins["value"]; v != nil {
		d = e.in.Pure("as:Dictionary", e.valOf(v))
		if e.Eval(st, e.in.Pure("is:Dictionary", e.valOf(v))) == 0 {
			d = nil // not a dictionary: nothing is declared
		}
	}
	cut := func(t *Term) *Term {
		if t.is("slice") && t.args[1] == e.in.Int(1) && t.args[2].isNil() {
			return t.args[0]
		}
		return nil
	}
	empty := func(t *Term) bool {
		return t.isNil() || e.Eval(st, e.Cmp(token.EQL, e.Len(st, t, nil), e.in.Int(0))) == 1
	}
	judge := func(what string, t *Term, key, single string, dropped bool) {
		if b := cut(t); b != nil && dropped {
			t = b
		}
		ok := false
		if d == nil {
			ok = empty(t) || x.listOfNil(st, t)
		} else {
			arr, one := e.get(d, "GetArray", key), e.get(d, single, key)
			switch {
			case t == e.valOf(arr):
				ok = e.Eval(st, e.okOf(arr)) == 1 || e.Eval(st, e.okOf(one)) == 0
			case empty(t):
				ok = e.Eval(st, e.okOf(arr)) == 0 && e.Eval(st, e.okOf(one)) == 0
			default:
				v := x.single(st, t)
				ok = v != nil && peel(v) == e.valOf(one) && e.Eval(st, e.okOf(arr)) == 0
			}
		}
		x.r.ob(ok)
		if !ok {
			x.fail(what, pos, "the "+what+" used for a stream is not the one declared in "+key, st)
		}
	}
	// a leading Crypt filter does nothing here and may be left out together with its parameters
	dropped := cut(list) != nil
	if dropped {
		base := cut(list)
		first := e.in.Pure("call:Array.GetName", base, e.in.Int(0))
		ok := e.Eval(st, e.Cmp(token.EQL, e.valOf(first), e.in.Str("Crypt"))) == 1
		if ok && cut(parms) == nil {
			ok = e.Eval(st, e.Cmp(token.LSS, e.in.Int(0), e.Len(st, parms, nil))) == 0
		}
		x.r.ob(ok)
		if !ok {
			x.fail("filter list", pos, "a filter is dropped without its parameters, or one that is not a Crypt filter", st)
		}
	}
	judge("filter list", list, "Filter", "GetName", dropped)
	judge("parameter list", parms, "DecodeParms", "GetDictionary", dropped)
}

// single gives the element of a list made with one element.
func (x *objRun) single(st *State, t *Term) *Term {
	if v := st.pins[fmt.Sprintf("single:%d", root0(t).id)]; v != nil && x.e.Eval(st, x.e.Cmp(token.EQL, x.e.Len(st, t, nil), x.e.in.Int(1))) == 1 {
		return v
	}
	return nil
}

// listOfNil: a list looked up in a dictionary that was made empty.
func (x *objRun) listOfNil(st *State, t *Term) bool {
	if v := x.single(st, t); v != nil {
		t = peel(v)
	}
	return t.hasOp("x:0") && strings.HasPrefix(t.args[0].op, "call:Dictionary.") && isMake(t.args[0].args[0])
}
