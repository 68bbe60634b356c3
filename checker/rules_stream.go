package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The data of a stream: the line that starts it is compared with an automaton, after that the bytes that are
// read move through a window of nine bytes to the data. Every path has to move each byte exactly once, to look
// for the end marker whenever a byte joins the window, and to take one line end away before the marker.

const streamMarker = "endstream"

func streamSpec() *lexSpec {
	return &lexSpec{name: "stream", start: "line", stream: true, rows: func(x *lex, st *State, q string) []lexRow {
		eof := lexRow{eof: true, logs: []string{errUnStream}, end: true}
		if q == "cr" {
			return []lexRow{eof, {set: setOf("\n"), next: "data"}, {set: setOf("\n").not(), unread: 1, next: "data"}}
		}
		return []lexRow{eof, {set: setOf("\n"), next: "data"}, {set: setOf("\r"), next: "cr"}, {set: setOf("\r\n").not(), next: "line"}}
	}}
}

// byteStores: the function or its helpers handle the data in a way that is not followed.
func (x *lex) byteStores(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch y := in.(type) {
			case *ssa.Store:
				if ia, ok := y.Addr.(*ssa.IndexAddr); ok && isByteType(y.Val.Type()) {
					if s, ok := ia.X.Type().Underlying().(*types.Pointer); !ok || s == nil {
						return true
					}
				}
			case ssa.CallInstruction:
				if bi, ok := y.Common().Value.(*ssa.Builtin); ok {
					if (bi.Name() == "append" || bi.Name() == "copy") && isByteSlice(y.Common().Args[0].Type()) {
						return true
					}
				}
				if g := y.Common().StaticCallee(); g != nil && x.p.InRepo(g) && !x.e.Opaque(g) && x.byteStores(g, seen) {
					return true
				}
			}
		}
	}
	return false
}

func (x *lex) reader(c *Call) bool {
	return strings.HasPrefix(c.Name, "(*bufio.Reader).") || c.Name == "io.ReadFull" || c.Name == "io.ReadAtLeast" || c.Name == "io.ReadAll"
}

func (x *lex) sfail(st *State, in ssa.Instruction, msg string) {
	x.fail(st, in, false, "stream: "+msg)
}

func (x *lex) streamCall(st *State, c *Call) bool {
	e := x.e
	q := st.flags["q"]
	if q == "dead" || q == "done" || x.pass == 0 {
		return true
	}
	if x.reader(c) && q != "data" {
		if c.Name == "(*bufio.Reader).UnreadByte" {
			return false
		}
		x.judge(st, c.In, false)
		if q = st.flags["q"]; q == "dead" {
			return true
		}
		if q != "data" {
			if c.Name != "(*bufio.Reader).ReadByte" {
				x.sfail(st, c.In, "the data starts before the end of the line of the stream keyword")
			}
			return true
		}
	}
	if q != "data" {
		if strings.HasSuffix(c.Name, ".Decrypt") && st.pins["cur"] != nil {
			// the line may have ended with the last byte
			x.judge(st, c.In, false)
			if st.flags["q"] == "data" {
				x.dead(st)
			}
			return true
		}
		return false
	}
	switch {
	case c.Name == "io.ReadFull":
		if st.pins["chunk"] != nil || st.flags["filled"] != "" {
			x.dead(st)
			return true
		}
		if !isInt(e.Len(st, c.Args[1], nil), int64(len(streamMarker))) {
			x.sfail(st, c.In, "the window does not have the length of the end marker")
			return true
		}
		st.pins["chunk"] = c.Args[1]
	case c.Name == "(*bufio.Reader).ReadByte":
		switch {
		case st.pins["chunk"] != nil:
			x.sfail(st, c.In, "the first bytes are dropped")
		case st.pins["next"] != nil:
			x.sfail(st, c.In, "a byte that was read is dropped")
		case st.flags["filled"] == "":
			x.dead(st)
		}
	case x.reader(c):
		x.dead(st)
	case strings.HasSuffix(c.Name, ".Decrypt") && len(c.Args) == 2:
		x.streamEnd(st, c.In, c.Args[1])
	case c.Name == "Output.Error":
		return false
	}
	return true
}

func (x *lex) streamAfter(st *State, c *Call) {
	if st.flags["q"] != "data" {
		return
	}
	switch c.Name {
	case "io.ReadFull":
		st.pins["n"] = x.e.ext(c.Result, 0)
		st.flags["filled"] = "1"
	case "(*bufio.Reader).ReadByte":
		st.pins["next"] = c.Result
	}
}

// moved: the window has changed.
func (x *lex) moved(st *State) { delete(st.pins, "wtext") }

func (x *lex) streamModel(st *State, c *Call, typ types.Type) *Term {
	e := x.e
	if x.pass == 0 {
		if len(c.Args) > 0 && isBuilder(peel(c.Args[0])) && (strings.HasSuffix(c.Name, ".ReadByte") || strings.HasSuffix(c.Name, ".Next")) {
			x.toks[peel(c.Args[0]).val] = true
		}
		return nil
	}
	q := st.flags["q"]
	if q == "dead" || q == "done" {
		return nil
	}
	if (c.Name == "bytes.Equal" || c.Name == "bytes.HasPrefix") && st.pins["wbytes"] != nil && c.Args[0] == st.pins["wbytes"] {
		if lit, ok := x.literal(st, c.Args[1]); ok && (c.Name == "bytes.Equal" || len(lit) == len(streamMarker)) {
			return e.Cmp(token.EQL, e.text(st, c.Args[0]), e.in.Str(lit))
		}
	}
	if strings.HasPrefix(c.Name, "bytes.") && len(c.Args) > 0 && st.pins["dbytes"] != nil && c.Args[0].contains(st.pins["dbytes"]) {
		return x.suffix(st, c, typ)
	}
	if len(c.Args) == 0 || !isBuilder(peel(c.Args[0])) {
		return nil
	}
	b := peel(c.Args[0])
	if b.kind != 'n' {
		return nil
	}
	dot := strings.LastIndexByte(c.Name, '.')
	if !strings.HasPrefix(c.Name, "(*bytes.Buffer)") && !strings.HasPrefix(c.Name, "(*strings.Builder)") {
		return nil
	}
	m := c.Name[dot+1:]
	if q != "data" {
		if m == "Bytes" || m == "String" || m == "Len" {
			return nil
		}
		x.dead(st)
		return nil
	}
	if x.toks[b.val] {
		return x.window(st, c, typ, m)
	}
	return x.data(st, c, typ, m)
}

// window: the bytes that may be the end marker.
func (x *lex) window(st *State, c *Call, typ types.Type, m string) *Term {
	e := x.e
	switch m {
	case "Write":
		if ch := st.pins["chunk"]; ch != nil {
			a := c.Args[1]
			full := a == ch
			if a.is("slice") && a.args[0] == ch && (a.args[1].isNil() || isInt(a.args[1], 0)) {
				if a.args[2] == st.pins["n"] {
					delete(st.pins, "chunk")
					x.moved(st)
					return e.fresh(st, c.Ctx, c.In, typ)
				}
				full = true
			}
			if full || a.contains(ch) {
				x.sfail(st, c.In, "what is put in the window is not what was read")
				return nil
			}
		}
		x.dead(st)
	case "WriteByte":
		n := st.pins["next"]
		switch {
		case st.pins["chunk"] != nil:
			x.sfail(st, c.In, "the first bytes are dropped")
		case n == nil || c.Args[1] != lexByte(e, n):
			x.sfail(st, c.In, "what is put in the window is not the byte that was read")
		case x.null(st, e.ext(n, 1)) != 1:
			x.sfail(st, c.In, "a byte is put in the window though none was read")
		default:
			delete(st.pins, "next")
			x.moved(st)
			return e.in.Nil()
		}
	case "ReadByte":
		switch {
		case !x.unwritten(st):
			x.sfail(st, c.In, "the first bytes are dropped")
		case st.pins["head"] != nil:
			x.sfail(st, c.In, "a byte taken from the window is dropped")
		case st.pins["wtext"] == nil || e.Eval(st, e.Cmp(token.EQL, st.pins["wtext"], e.in.Str(streamMarker))) != 0:
			x.sfail(st, c.In, "a byte leaves the window without a look for the end marker")
		default:
			t := e.fresh(st, c.Ctx, c.In, typ)
			st.pins["head"] = t
			x.moved(st)
			return t
		}
	case "String", "Bytes":
		if !x.unwritten(st) {
			x.sfail(st, c.In, "the first bytes are dropped")
			return nil
		}
		t := e.fresh(st, c.Ctx, c.In, typ)
		if m == "String" {
			st.pins["wtext"] = t
		} else {
			st.pins["wbytes"], st.pins["wtext"] = t, e.text(st, t)
		}
		return t
	default:
		x.dead(st)
	}
	return nil
}

// unwritten: the first bytes have arrived in the window, or there were none.
func (x *lex) unwritten(st *State) bool {
	if st.pins["chunk"] == nil {
		return true
	}
	e := x.e
	if e.Eval(st, e.Cmp(token.LSS, e.in.Int(0), st.pins["n"])) == 0 || e.Eval(st, e.Cmp(token.EQL, st.pins["n"], e.in.Int(0))) == 1 {
		delete(st.pins, "chunk")
		return true
	}
	return false
}

// data: the bytes before the window.
func (x *lex) data(st *State, c *Call, typ types.Type, m string) *Term {
	e := x.e
	switch m {
	case "WriteByte":
		h := st.pins["head"]
		switch {
		case h == nil || c.Args[1] != lexByte(e, h):
			x.sfail(st, c.In, "what is added to the data is not the byte that left the window")
		case x.null(st, e.ext(h, 1)) != 1:
			x.sfail(st, c.In, "a byte is added to the data though none was left in the window")
		case st.pins["dlen"] != nil:
			x.dead(st)
		default:
			delete(st.pins, "head")
			return e.in.Nil()
		}
	case "Write", "WriteString":
		a := c.Args[1]
		if w := st.pins["wtext"]; w != nil && (a == w || a == st.pins["wbytes"]) && st.pins["head"] == nil {
			if st.flags["drained"] != "" {
				x.sfail(st, c.In, "the rest of the input is added twice")
				return nil
			}
			st.flags["drained"] = "1"
			return e.fresh(st, c.Ctx, c.In, typ)
		}
		x.dead(st)
	case "Len":
		return x.length(st, c)
	case "Bytes", "String":
		x.length(st, c)
		return st.pins["dbytes"]
	case "Truncate":
		k := c.Args[1]
		for j := int64(0); j <= 4; j++ {
			if x.length(st, c); e.in.linAdd(st.pins["dlen"], e.in.Int(j), -1, types.Typ[types.Int]) == k {
				st.flags["trunc"] = strconv.FormatInt(j, 10)
				return e.in.Nil()
			}
		}
		x.sfail(st, c.In, "the data is cut at "+trunc(k.String(), 60))
	default:
		x.dead(st)
	}
	return nil
}

// length gives the length of the data, and sets up its last bytes.
func (x *lex) length(st *State, c *Call) *Term {
	e := x.e
	in := e.in
	if st.pins["dlen"] == nil {
		d := in.PureT(types.Typ[types.Int], "datalen", st.pins["rd"])
		b := in.PureT(types.NewSlice(types.Typ[types.Byte]), "data", st.pins["rd"])
		e.Assume(st, e.Cmp(token.LEQ, in.Int(0), d), true)
		st.cells[in.Pure("lenof", b)] = d
		for j := int64(0); j < 2; j++ {
			el := in.PureT(types.Typ[types.Byte], fmt.Sprintf("e%d", j), b)
			st.pins[fmt.Sprintf("e%d", j)] = el
			st.cells[in.PureT(types.NewPointer(types.Typ[types.Byte]), "iaddr", b, in.linAdd(d, in.Int(j+1), -1, types.Typ[types.Int]))] = el
		}
		st.pins["dlen"], st.pins["dbytes"] = d, b
	}
	return in.linAdd(st.pins["dlen"], in.Int(int64(x.count(st, "trunc"))), -1, types.Typ[types.Int])
}

// suffix handles the functions of package bytes that look at the end of the data.
func (x *lex) suffix(st *State, c *Call, typ types.Type) *Term {
	e := x.e
	lit, ok := "", false
	if c.Name == "bytes.Clone" {
		return c.Args[0]
	}
	if isByteSlice(typ) && len(c.Args) == 1 {
		return e.in.PureT(typ, "call:"+c.Name, c.Args[0])
	}
	if len(c.Args) == 2 {
		lit, ok = x.literal(st, c.Args[1])
	}
	if !ok || lit == "" {
		x.dead(st)
		return nil
	}
	switch c.Name {
	case "bytes.TrimSuffix", "bytes.TrimRight":
		return e.in.PureT(typ, "call:"+c.Name, c.Args[0], e.in.Str(lit))
	case "bytes.HasSuffix":
		off, ok := x.cut(st, c.Args[0], "")
		if !ok || off > 1 && len(lit) == 1 || off > 0 && len(lit) > 1 {
			break
		}
		switch {
		case len(lit) == 1:
			return e.Cmp(token.EQL, st.pins[fmt.Sprintf("e%d", off)], e.in.Int(int64(lit[0])))
		case lit == "\r\n":
			st.pins["crlf"] = e.in.PureT(types.Typ[types.Bool], "crlf", st.pins["dbytes"])
			return st.pins["crlf"]
		}
	}
	x.dead(st)
	return nil
}

// cut tells how many bytes are missing at the end of the data in a given case ("" when it must not matter).
func (x *lex) cut(st *State, t *Term, last string) (int, bool) {
	e := x.e
	for t.is("bytes") || t.is("str") || t.is("bytesof") || t.hasOp("conv:") || t.is("content") {
		t = t.args[0]
	}
	switch {
	case t == st.pins["dbytes"]:
		return x.count(st, "trunc"), true
	case t.is("slice") || t.is("sub"):
		if !t.args[1].isNil() && !isInt(t.args[1], 0) {
			return 0, false
		}
		if t.args[2].isNil() {
			return x.cut(st, t.args[0], last)
		}
		if k, ok := e.in.linAdd(st.pins["dlen"], t.args[2], -1, types.Typ[types.Int]).intVal(); ok && k >= 0 {
			return int(k), true
		}
	case t.is("call:bytes.TrimSuffix") && last != "":
		k, ok := x.cut(st, t.args[0], last)
		lit, _ := t.args[1].strVal()
		if ok && k <= len(last) && strings.HasSuffix(last[:len(last)-k], lit) {
			k += len(lit)
		}
		return k, ok
	case t.is("call:bytes.TrimRight") && last != "":
		k, ok := x.cut(st, t.args[0], last)
		lit, _ := t.args[1].strVal()
		for ok && k < len(last) && strings.IndexByte(lit, last[len(last)-k-1]) >= 0 {
			k++
		}
		return k, ok
	}
	return 0, false
}

// streamEnd judges the data that is handed over.
func (x *lex) streamEnd(st *State, in ssa.Instruction, arg *Term) {
	e := x.e
	marker := st.pins["wtext"] != nil && e.Eval(st, e.Cmp(token.EQL, st.pins["wtext"], e.in.Str(streamMarker))) == 1
	eof, empty := false, false
	if n := st.pins["next"]; n != nil && x.null(st, e.ext(n, 1)) == 0 {
		eof = true
	}
	if h := st.pins["head"]; h != nil && x.null(st, e.ext(h, 1)) == 0 {
		eof, empty = true, true
	}
	log := st.flags["log"]
	want := ""
	if !marker {
		want = errUnStream
	}
	if log != want && (marker || eof) {
		x.fail(st, in, true, fmt.Sprintf("stream: at the end the messages logged are %q where %q belong", log, want))
		return
	}
	x.bytes++
	switch {
	case !marker && !eof:
		x.sfail(st, in, "the data ends before the end marker and the end of the input")
		return
	case !x.unwritten(st):
		x.sfail(st, in, "the first bytes are dropped")
		return
	case st.pins["head"] != nil && !empty:
		x.sfail(st, in, "a byte taken from the window is dropped")
		return
	case marker && st.pins["next"] != nil:
		x.sfail(st, in, "a byte that was read is dropped")
		return
	case !marker && !empty && st.flags["drained"] == "":
		x.sfail(st, in, "the last bytes of the input are dropped")
		return
	case marker && st.flags["drained"] != "":
		x.sfail(st, in, "the end marker becomes part of the data")
		return
	}
	if st.pins["dlen"] == nil {
		x.sfail(st, in, "it is not the data that is handed over")
		return
	}
	// the last bytes as far as they have been looked at through other slices
	for k, v := range st.cells {
		if k.is("iaddr") && k.args[0] != st.pins["dbytes"] && root(k.args[0]) == st.pins["dbytes"] {
			if j, ok := e.in.linAdd(st.pins["dlen"], k.args[1], -1, types.Typ[types.Int]).intVal(); ok && j >= 1 && j <= 2 {
				s := e.Bytes(st, v)
				for b := 0; b < 256; b++ {
					if !s.has(b) {
						e.Assume(st, e.Cmp(token.EQL, st.pins[fmt.Sprintf("e%d", j-1)], e.in.Int(int64(b))), false)
					}
				}
			}
		}
	}
	crlf := -1
	if t := st.pins["crlf"]; t != nil {
		crlf = e.Eval(st, t)
	}
	atLeast := func(n int64) bool {
		return e.Eval(st, e.Cmp(token.LSS, st.pins["dlen"], e.in.Int(n))) != 1
	}
	for _, c1 := range "x\n\r" {
		for _, c0 := range "x\n\r" {
			set := func(c rune) ByteSet {
				if c == 'x' {
					return setOf("\n\r").not()
				}
				return setOf(string(c))
			}
			if set(c0).and(e.Bytes(st, st.pins["e0"])).empty() || set(c1).and(e.Bytes(st, st.pins["e1"])).empty() ||
				c0 != 'x' && !atLeast(1) || c1 != 'x' && !atLeast(2) {
				continue
			}
			isCRLF := c1 == '\r' && c0 == '\n'
			if crlf == 1 && !isCRLF || crlf == 0 && isCRLF {
				continue
			}
			want := 0
			switch {
			case !marker:
			case isCRLF:
				want = 2
			case c0 != 'x':
				want = 1
			}
			got, ok := x.cut(st, arg, string(c1)+string(c0))
			if !ok {
				x.sfail(st, in, "it is not the data that is handed over but "+trunc(arg.String(), 80))
				return
			}
			if got != want {
				x.sfail(st, in, fmt.Sprintf("%d bytes are taken off data that ends in %q instead of %d", got, strings.ReplaceAll(string(c1)+string(c0), "x", "?"), want))
				return
			}
		}
	}
	x.r.ob(true)
	x.ends++
	x.dead(st)
	st.flags["q"] = "done"
}

func (x *lex) streamRet(st *State, in ssa.Instruction, res []*Term) {
	if q := st.flags["q"]; q == "dead" || q == "done" || x.pass == 0 {
		return
	}
	if st.flags["q"] == "data" {
		x.sfail(st, in, "the data is not handed over")
		return
	}
	x.judge(st, in, true)
}

func init() {
	checks["C33"] = &Check{
		Rule: "every path of the stream reader skips the line of the stream keyword, moves every byte that is read through the window into the data exactly once, looks for the end marker at every position, and takes exactly one line end off the data before it",
		Run:  func(p *Program, r *Report) { lexRule(p, r, "Parser.ReadStream", streamSpec(), false) },
	}
}

// literal gives the value of constant bytes.
func (x *lex) literal(st *State, t *Term) (string, bool) {
	if s, ok := x.e.constBytes(t); ok {
		return s, true
	}
	if s, ok := x.e.constBytes(x.e.Content(st, t)); ok {
		return s, true
	}
	d := x.digits(st, t)
	var lit []byte
	for _, c := range d {
		k, ok := c.intVal()
		if !ok {
			return "", false
		}
		lit = append(lit, byte(k))
	}
	return string(lit), d != nil
}
