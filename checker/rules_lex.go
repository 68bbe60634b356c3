package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The token readers are compared with reference automata: every path of a reader is followed together with
// the automaton, which says for every byte that is read what has to be written to the token, what has to be
// logged, whether the byte has to be put back and whether the token ends.

const (
	errHexChar    = "invalid hex string character"
	errNameEsc    = "invalid name escape character"
	errOctal      = "invalid octal in string"
	errUnHex      = "unclosed hex string"
	errUnString   = "unclosed string"
	errUnEscape   = "unclosed escape in string"
	errUnOctal    = "unclosed octal in string"
	errNeedlessN  = "unnecessary espace sequence in name"
	errNeedlessS  = "unnecessary espace sequence in string"
	errUnArray    = "unclosed array"
	errUnDict     = "unclosed dictionary"
	errUnStream   = "unclosed stream"
	errKeyType    = "invalid dictionary key type"
	errMissingVal = "missing dictionary value"
)

var (
	lexSpace   = setOf("\x00\t\n\f\r ")
	lexDelim   = setOf("()<>[]/%")
	lexHex     = setRange('0', '9').or(setRange('a', 'f')).or(setRange('A', 'F'))
	lexOctal   = setRange('0', '7')
	lexPrint   = setRange('!', '~')
	lexRegular = lexSpace.or(lexDelim).not()
)

// lexOut is one byte written to the token.
type lexOut struct {
	kind   byte // 'b' the byte read, 'c' a constant, 'x' hex digits, 'o' octal digits, '?' anything
	c      byte
	digits []*Term
}

// lexRow is what has to happen for some of the bytes that can be read in a state.
type lexRow struct {
	set      ByteSet
	eof      bool
	out      []lexOut
	maybe    bool // nothing may be written as well
	logs     []string
	needless string  // message for values that need not be escaped
	plain    ByteSet // those values
	unread   int     // 0 never, 1 always, 2 allowed
	alias    string  // when the byte is not put back it is treated as in this state
	next     string
	end      bool
	depth    int // change of the nesting depth
	digit    int // the byte becomes this digit of a code (1, 2, 3)
	undec    bool
	any      bool // not judged
	// what an object that was read has to be
	obj bool
	cls []string // the errors it comes with ("nil": none)
	typ string   // its type
	not bool     // ... or rather not that type
	ret string   // what has to be returned: "err" the error, "val" the value
}

type lexSpec struct {
	name     string
	start    string
	rows     func(x *lex, st *State, q string) []lexRow
	objects  bool   // it consists of objects
	stream   bool   // it is the data of a stream
	dispatch bool   // it is read by the reader its first bytes name
	open2    string // the two bytes it starts with
}

type lex struct {
	p    *Program
	r    *Report
	e    *Engine
	root *ssa.Function
	spec *lexSpec
	pass int
	toks map[any]bool
	logs bool // judge what is logged, otherwise everything else
	// what was judged
	bytes, ends, written int
	peeked               int
	ending               bool
}

func (x *lex) fail(st *State, in ssa.Instruction, log bool, msg string) {
	peeked := st.flags["peeked"]
	x.dead(st)
	if peeked != "" {
		// a byte that was looked at may stand for any later one: not judged
		x.peeked++
		return
	}
	if x.pass == 0 || log != x.logs {
		return
	}
	x.r.ob(false)
	x.r.fail("lexer", fnName(x.root), x.p.InstrPos(in), msg, st.Path())
}

// dead: the path is not followed any more.
func (x *lex) dead(st *State) {
	for k := range st.flags {
		delete(st.flags, k)
	}
	for k := range st.pins {
		if k != "rd" && k != "out" {
			delete(st.pins, k)
		}
	}
	st.flags["q"] = "dead"
}

func lexByte(e *Engine, t *Term) *Term {
	if t.is("tuple") {
		return t.args[0]
	}
	return e.in.PureT(types.Typ[types.Byte], "x:0", t)
}

func (x *lex) null(st *State, t *Term) int {
	return x.e.Eval(st, x.e.Cmp(token.EQL, t, x.e.in.Nil()))
}

func (x *lex) count(st *State, k string) int {
	n, _ := strconv.Atoi(st.flags[k])
	return n
}

// settled forgets the byte that has been judged.
func (x *lex) settled(st *State) {
	for i := 0; i < x.count(st, "em"); i++ {
		delete(st.pins, fmt.Sprintf("em%d", i))
	}
	for _, k := range []string{"em", "log", "un", "cancel", "close", "obj"} {
		delete(st.flags, k)
	}
	delete(st.pins, "cur")
}

// feasible lists the rows that apply to the byte read last.
func (x *lex) feasible(st *State, q string) []lexRow {
	e := x.e
	cur := st.pins["cur"]
	b := lexByte(e, cur)
	null := x.null(st, e.ext(cur, 1))
	var out []lexRow
	if st.flags["obj"] != "" {
		return x.feasibleObj(st, q)
	}
	if st.flags["eof"] != "" && null == 1 {
		return nil // there is nothing after the end
	}
	for _, row := range x.spec.rows(x, st, q) {
		if row.eof {
			if null != 1 {
				out = append(out, row)
			}
			continue
		}
		if null == 0 || st.flags["eof"] != "" {
			continue
		}
		s := row.set.and(e.Bytes(st, b))
		if s.empty() {
			continue
		}
		row.set = s
		if row.alias != "" && st.flags["un"] == "" {
			out = append(out, x.feasibleIn(st, row.alias, s)...)
			continue
		}
		out = append(out, row)
	}
	return out
}

func (x *lex) feasibleIn(st *State, q string, set ByteSet) []lexRow {
	var out []lexRow
	for _, row := range x.spec.rows(x, st, q) {
		if s := row.set.and(set); !row.eof && !s.empty() {
			row.set = s
			out = append(out, row)
		}
	}
	return out
}

func (x *lex) what(row lexRow) string {
	if row.eof {
		return "the end of the input"
	}
	if row.obj {
		return row.describe()
	}
	return row.set.String()
}

// judge compares what was done since the last byte was read with what the automaton says.
func (x *lex) judge(st *State, in ssa.Instruction, end bool) {
	q := st.flags["q"]
	if q == "dead" || q == "" {
		return
	}
	if st.pins["cur"] == nil {
		if x.count(st, "em") > 0 || st.flags["log"] != "" {
			x.fail(st, in, x.count(st, "em") == 0, "something is written or logged before anything is read")
		} else if end {
			x.fail(st, in, false, "returns without reading")
		}
		return
	}
	x.ending = end
	rows := x.feasible(st, q)
	x.ending = false
	if len(rows) == 0 {
		x.dead(st)
		return
	}
	x.bytes++
	next := ""
	var first lexRow
	for i, row := range rows {
		if row.any {
			x.dead(st)
			return
		}
		if !x.row(st, in, q, row, end) {
			return
		}
		if i > 0 && (row.next != next || row.depth != first.depth || row.digit != first.digit || row.end != first.end) {
			x.fail(st, in, false, fmt.Sprintf("after %s: %s and %s are not told apart", x.spec.name, x.what(first), x.what(row)))
			return
		}
		next, first = row.next, row
	}
	x.r.ob(true)
	cur := st.pins["cur"]
	if first.eof {
		st.flags["eof"] = "1"
	}
	if first.depth != 0 {
		st.pins["depth"] = x.e.in.linAdd(st.pins["depth"], x.e.in.Int(int64(first.depth)), 1, types.Typ[types.Int])
	}
	if first.digit > 0 {
		st.pins[fmt.Sprintf("d%d", first.digit)] = lexByte(x.e, cur)
	}
	if first.obj && first.typ == "Name" && !first.not {
		st.pins["key"] = x.e.ext(cur, 0)
	} else {
		delete(st.pins, "key")
	}
	x.deep(st)
	st.flags["q"] = next
	if !strings.Contains(next, "+") {
		for i := 1; i <= 3; i++ {
			delete(st.pins, fmt.Sprintf("d%d", i))
		}
		delete(st.pins, "octerr")
	}
	x.settled(st)
	if first.end {
		x.ends++
	}
}

func (x *lex) row(st *State, in ssa.Instruction, q string, row lexRow, end bool) bool {
	e := x.e
	what := x.what(row)
	if row.undec {
		x.fail(st, in, false, fmt.Sprintf("%s: what to do at %s depends on the nesting, which is not kept", x.spec.name, what))
		return false
	}
	got := strings.Split(st.flags["log"], ";")
	if st.flags["log"] == "" {
		got = nil
	}
	sort.Strings(got)
	if x.logs && row.needless == "" {
		sort.Strings(row.logs)
		if strings.Join(got, ";") != strings.Join(row.logs, ";") {
			x.fail(st, in, true, fmt.Sprintf("%s: at %s the messages logged are %q where %q belong", x.spec.name, what, got, row.logs))
			return false
		}
	}
	un := st.flags["un"]
	switch {
	case row.unread == 1 && un == "" && !row.eof:
		x.fail(st, in, false, fmt.Sprintf("%s: %s is not put back", x.spec.name, what))
		return false
	case row.unread == 0 && un != "" && !(row.eof && un == "soft"):
		x.fail(st, in, false, fmt.Sprintf("%s: %s is put back", x.spec.name, what))
		return false
	}
	if row.end && !end {
		x.fail(st, in, false, fmt.Sprintf("%s: reading goes on after the token ends with %s", x.spec.name, what))
		return false
	}
	if !row.end && end {
		x.fail(st, in, false, fmt.Sprintf("%s: the token ends at %s", x.spec.name, what))
		return false
	}
	n := x.count(st, "em")
	if n != len(row.out) && !(row.maybe && n == 0) {
		msg := "%s: %s is dropped"
		if n > len(row.out) {
			msg = "%s: too much is written for %s"
		}
		x.fail(st, in, false, fmt.Sprintf(msg, x.spec.name, what))
		return false
	}
	logs := append([]string{}, row.logs...)
	for i := 0; i < n; i++ {
		v := st.pins[fmt.Sprintf("em%d", i)]
		if !x.matches(st, v, row, row.out[i]) {
			x.fail(st, in, false, fmt.Sprintf("%s: for %s the wrong byte is written: %s", x.spec.name, what, trunc(v.String(), 80)))
			return false
		}
		if row.needless != "" {
			s := e.Bytes(st, v)
			switch {
			case s.subsetOf(row.plain):
				logs = append(logs, row.needless)
			case !s.and(row.plain).empty():
				if x.logs {
					x.fail(st, in, true, fmt.Sprintf("%s: whether %q is logged does not depend on whether the escape was needed (%s)", x.spec.name, row.needless, s.and(row.plain)))
					return false
				}
				return true
			}
		}
	}
	sort.Strings(logs)
	if strings.Join(got, ";") != strings.Join(logs, ";") && x.logs {
		x.fail(st, in, true, fmt.Sprintf("%s: at %s the messages logged are %q where %q belong", x.spec.name, what, got, logs))
		return false
	}
	return true
}

// matches: the byte written is the one that has to be written.
func (x *lex) matches(st *State, v *Term, row lexRow, o lexOut) bool {
	e := x.e
	switch o.kind {
	case '?':
		return true
	case 'v':
		return v == e.ext(st.pins["cur"], 0)
	case 'e':
		return v.is("entry") && x.keyOf(st, v.args[0]) == st.pins["key"] && v.args[1] == e.ext(st.pins["cur"], 0)
	case 'b':
		b := lexByte(e, st.pins["cur"])
		if v == b {
			return true
		}
		s, t := e.Bytes(st, v), e.Bytes(st, b)
		return s.count() == 1 && s == t.and(row.set)
	case 'c':
		return e.Bytes(st, v) == setRange(int(o.c), int(o.c))
	}
	w := v
	for w.hasOp("conv:") {
		w = w.args[0]
	}
	if w.is("digits") {
		base, _ := w.args[0].intVal()
		if base != map[byte]int64{'x': 16, 'o': 8}[o.kind] {
			return false
		}
		got := w.args[1:]
		want := append([]*Term{}, o.digits...)
		if len(got) != len(want) {
			return false
		}
		for i := range got {
			a, b := e.Bytes(st, got[i]), e.Bytes(st, want[i])
			if got[i] != want[i] && !(a == b && a.count() == 1) {
				return false
			}
		}
		return true
	}
	// some other way to work out the value: it has to depend on all of the digits
	for _, d := range o.digits {
		if !d.isConst() && !v.contains(d) {
			return false
		}
	}
	return true
}

// digits gives the characters of a string that is converted to a number.
func (x *lex) digits(st *State, t *Term) []*Term {
	e := x.e
	for t.is("str") || t.is("bytesof") {
		t = t.args[0]
	}
	if t.is("sub") {
		in := x.digits(st, t.args[0])
		lo, ok1 := t.args[1].intVal()
		if t.args[1].isNil() {
			lo, ok1 = 0, true
		}
		hi, ok2 := t.args[2].intVal()
		if t.args[2].isNil() {
			hi, ok2 = int64(len(in)), true
		}
		if in == nil || !ok1 || !ok2 || lo < 0 || hi > int64(len(in)) || lo > hi {
			return nil
		}
		return in[lo:hi]
	}
	if s, ok := e.constBytes(t); ok {
		out := []*Term{}
		for i := 0; i < len(s); i++ {
			out = append(out, e.in.Int(int64(s[i])))
		}
		return out
	}
	if t.is("lit") {
		return t.args
	}
	if t.is("cat") {
		var out []*Term
		for _, a := range t.args {
			d := x.digits(st, a)
			if d == nil {
				return nil
			}
			out = append(out, d...)
		}
		return out
	}
	if t.is("slice") {
		return x.digits(st, e.in.Pure("sub", e.Content(st, t.args[0]), t.args[1], t.args[2]))
	}
	if va := e.Varargs(st, t); va != nil {
		return va
	}
	if c := e.Content(st, t); c != t && !c.is("bytesof") {
		return x.digits(st, c)
	}
	for k, v := range st.cells {
		if v == t && k.is(contentOp) && k.args[0].kind == 'n' {
			if va := e.Varargs(st, k.args[0]); va != nil {
				return va
			}
		}
	}
	return nil
}

func (x *lex) mine(t *Term) bool {
	return t.kind == 'n' && (x.pass == 0 || x.toks[t.val])
}

// emit takes down a byte written to the token.
func (x *lex) emit(st *State, v *Term) {
	n := x.count(st, "em")
	if n > 4 || st.flags["q"] == "dead" {
		return
	}
	st.pins[fmt.Sprintf("em%d", n)] = v
	st.flags["em"] = strconv.Itoa(n + 1)
	st.flags["any"] = "1"
	delete(st.flags, "taken")
	x.written++
}

func (x *lex) emitContent(st *State, c *Term) {
	if d := x.digits(st, c); d != nil {
		for _, b := range d {
			x.emit(st, b)
		}
		return
	}
	x.emit(st, c)
}

func (x *lex) call(st *State, c *Call) {
	e := x.e
	switch {
	case x.spec.dispatch && x.dispatchCall(st, c):
	case x.spec.stream && x.streamCall(st, c):
	case c.Name == "(*bufio.Reader).Peek" && isInt(c.Args[1], 1):
		if st.flags["q"] != "dead" {
			st.flags["peeked"] = "1"
		}
		if st.cells[e.in.Pure("la", c.Args[0])] == nil {
			x.judge(st, c.In, false)
		}
	case c.Name == "(*bufio.Reader).ReadByte", c.Name == "(*bufio.Reader).Discard" && isInt(c.Args[1], 1):
		la := st.cells[e.in.Pure("la", c.Args[0])]
		if la != nil && la == st.pins["cur"] && st.flags["un"] != "" && x.count(st, "em") == 0 && st.flags["log"] == "" && st.flags["q"] != "dead" {
			cancel := true
			for _, row := range x.feasible(st, st.flags["q"]) {
				cancel = cancel && row.unread == 0
			}
			if cancel {
				st.flags["cancel"] = "1"
				return
			}
		}
		x.judge(st, c.In, false)
	case c.Name == "(*bufio.Reader).UnreadByte":
		if st.flags["q"] == "dead" {
			return
		}
		if st.pins["cur"] == nil || st.flags["un"] == "hard" {
			x.fail(st, c.In, false, x.spec.name+": a byte is put back twice")
			return
		}
		st.flags["un"] = "hard"
	case c.Name == "io.ReadFull" && isInt(e.Len(st, c.Args[1], nil), 2) && x.spec.open2 != "" && st.flags["q"] != "dead":
		x.judge(st, c.In, false)
		if st.flags["q"] != "first" || st.pins["cur"] != nil {
			x.dead(st)
			return
		}
		st.flags["q"] = "opened"
		st.pins["mark"] = c.Args[1]
	case strings.HasPrefix(c.Name, "(*bufio.Reader)."), c.Name == "io.ReadFull":
		x.dead(st)
	case c.Name == "Parser.ReadObject" && st.flags["q"] != "dead":
		if st.flags["q"] == "opened" {
			x.opened(st, c.In, false)
		} else {
			x.judge(st, c.In, false)
		}
		if q := st.flags["q"]; q != "dead" && !strings.HasPrefix(q, "obj") {
			x.fail(st, c.In, false, x.spec.name+": an object is read before the construct has started")
		}
	case c.Name == "Output.Error" && st.flags["q"] != "dead":
		msg, ok := e.constBytes(c.Args[1])
		if !ok {
			msg = "?" + c.Args[1].String()
		}
		if st.flags["log"] != "" {
			msg = st.flags["log"] + ";" + msg
		}
		st.flags["log"] = msg
	case c.Fn != nil && x.p.InRepo(c.Fn) && !c.Inlined && len(c.Args) > 0 && typeStr(c.Com.Args[0].Type()) == "*Parser" && !c.Com.IsInvoke():
		x.dead(st)
	}
}

func (x *lex) after(st *State, c *Call) {
	if st.flags["disp"] != "" {
		x.dispatchAfter(st, c)
		return
	}
	if x.spec.stream && st.flags["q"] == "data" {
		x.streamAfter(st, c)
		return
	}
	if c.Name == "io.ReadFull" && st.flags["q"] == "opened" {
		st.pins["markerr"] = x.e.ext(c.Result, 1)
	}
	if c.Name == "Parser.ReadObject" && st.flags["q"] != "dead" {
		st.pins["cur"], st.flags["obj"] = c.Result, "1"
		return
	}
	if c.Name == "(*bufio.Reader).ReadByte" {
		if st.flags["cancel"] != "" {
			delete(st.flags, "cancel")
			delete(st.flags, "un")
			return
		}
		if st.flags["q"] != "dead" {
			st.pins["cur"] = c.Result
		}
	}
}

func (x *lex) model(st *State, c *Call) *Term {
	e := x.e
	var typ types.Type
	if v, ok := c.In.(ssa.Value); ok {
		typ = v.Type()
	}
	if st.flags["disp"] != "" {
		return x.dispatchModel(st, c, typ)
	}
	if x.spec.stream {
		return x.streamModel(st, c, typ)
	}
	if len(c.Args) > 0 && isBuilder(peel(c.Args[0])) && x.mine(peel(c.Args[0])) {
		b := peel(c.Args[0])
		switch m := c.Name[strings.LastIndexByte(c.Name, '.')+1:]; m {
		case "WriteByte":
			x.emit(st, c.Args[1])
			return e.in.Nil()
		case "WriteRune":
			if e.Bytes(st, c.Args[1]).subsetOf(setRange(0, 127)) && isByteType(c.Args[1].typ) {
				x.emit(st, c.Args[1])
			} else {
				x.emit(st, e.in.Pure("rune", c.Args[1]))
			}
			return e.in.Pure("tuple", e.in.Int(1), e.in.Nil())
		case "Write", "WriteString":
			x.emitContent(st, e.appended(st, c.Args[1]))
			return e.in.Pure("tuple", e.in.Int(1), e.in.Nil())
		case "String", "Bytes":
			if st.flags["q"] != "dead" {
				st.flags["taken"] = "1"
			}
			return e.in.PureT(typ, "tok", b)
		case "Grow":
			return e.in.Nil()
		default:
			if x.pass == 1 {
				return e.fresh(st, c.Ctx, c.In, typ)
			}
		}
	}
	switch {
	case (c.Name == "(*bufio.Reader).Peek" || c.Name == "(*bufio.Reader).Discard") && isInt(c.Args[1], 1):
		la := e.in.Pure("la", c.Args[0])
		if strings.HasSuffix(c.Name, "Discard") {
			t := st.cells[la]
			if t == nil {
				return nil
			}
			delete(st.cells, la)
			st.cells[e.in.Pure("last", c.Args[0])] = t
			if st.flags["cancel"] != "" {
				delete(st.flags, "cancel")
				delete(st.flags, "un")
			} else if st.flags["q"] != "dead" {
				st.pins["cur"] = t
			}
			return e.fresh(st, c.Ctx, c.In, typ)
		}
		t := e.fresh(st, c.Ctx, c.In, typ)
		slice := e.in.PureT(types.NewSlice(types.Typ[types.Byte]), "x:0", t)
		err := e.in.PureT(types.Universe.Lookup("error").Type(), "x:1", t)
		cell := e.in.PureT(types.NewPointer(types.Typ[types.Byte]), "iaddr", slice, e.in.Int(0))
		la = e.in.Pure("la", e.V(st, c.Ctx, c.Com.Args[0]))
		st.pins["peek"] = t
		if was := st.cells[la]; was != nil {
			st.cells[cell] = lexByte(e, was)
			if x.null(st, e.ext(was, 1)) == 1 {
				e.Assume(st, e.Cmp(token.EQL, err, e.in.Nil()), true)
				e.Assume(st, e.Cmp(token.LSS, e.in.Int(0), e.Len(st, slice, nil)), true)
			}
			return t
		}
		el := e.in.PureT(types.Typ[types.Byte], "first", t)
		st.cells[cell] = el
		st.cells[la] = e.in.Pure("tuple", el, err)
		if st.flags["q"] != "dead" {
			st.pins["cur"], st.flags["un"] = st.cells[la], "soft"
		}
		return t
	case c.Name == "strconv.ParseUint" || c.Name == "strconv.ParseInt":
		d := x.digits(st, c.Args[0])
		if d == nil || len(d) == 0 || len(d) > 3 {
			return nil
		}
		v := e.in.PureT(types.Typ[types.Uint64], "digits", append([]*Term{c.Args[1]}, d...)...)
		base, _ := c.Args[1].intVal()
		var lit []byte
		for _, c := range d {
			if k, ok := c.intVal(); ok {
				lit = append(lit, byte(k))
			}
		}
		if k, err := strconv.ParseUint(string(lit), int(base), 8); err == nil && len(lit) == len(d) {
			return e.in.Pure("tuple", e.in.Int(int64(k)), e.in.Nil())
		}
		bits, _ := c.Args[2].intVal()
		err := e.in.Nil()
		if base == 8 && len(d) == 3 && bits == 8 || base != 8 && base != 16 {
			switch s := e.Bytes(st, d[0]); {
			case base == 8 && s.subsetOf(setRange('0', '3')):
			default:
				n := e.fresh(st, c.Ctx, c.In, typ)
				err = e.in.PureT(types.Universe.Lookup("error").Type(), "x:1", n)
				if st.flags["q"] != "dead" {
					st.pins["octerr"] = err
				}
				d = x.digits(st, c.Args[0])
			}
		}
		return e.in.Pure("tuple", v, err)
	case c.Name == "errors.Is":
		return e.Cmp(token.EQL, c.Args[0], c.Args[1])
	case c.Name == "builtin append" && x.spec.objects:
		if v, ok := c.In.(ssa.Value); ok && x.p.flowsToReturn(v, x.root, map[ssa.Value]bool{}) {
			va := e.Varargs(st, c.Args[1])
			if va == nil {
				x.dead(st)
				return nil
			}
			if !x.extends(st, c) {
				return nil
			}
			for _, v := range va {
				x.emit(st, v)
			}
			if st.flags["q"] != "dead" {
				st.flags["taken"] = "1"
			}
			return e.in.PureT(typ, "tok", e.in.Nil())
		}
	case strings.HasSuffix(c.Name, ".Decrypt") && len(c.Args) == 2:
		return e.in.PureT(typ, "decrypted", c.Args[1])
	case c.Name == "builtin append" && isByteSlice(typ):
		if v, ok := c.In.(ssa.Value); ok && x.p.flowsToReturn(v, x.root, map[ssa.Value]bool{}) {
			if !x.extends(st, c) {
				return nil
			}
			x.emitContent(st, e.appended(st, c.Args[1]))
			if st.flags["q"] != "dead" {
				st.flags["taken"] = "1"
			}
			return e.in.PureT(typ, "tok", e.in.Nil())
		}
	}
	return nil
}

// extends: what is appended goes after everything that was written before.
func (x *lex) extends(st *State, c *Call) bool {
	if st.flags["any"] == "" || peel(c.Args[0]).is("tok") || x.pass == 0 || st.flags["q"] == "dead" {
		return true
	}
	x.fail(st, c.In, false, x.spec.name+": what was read before is not kept but "+trunc(c.Args[0].String(), 80))
	return false
}

// branch: looking at one byte gives an error exactly when there is none.
func (x *lex) branch(st *State, ctx *Ctx, in *ssa.If, cond *Term, taken bool) {
	e := x.e
	if st.flags["disp"] != "" {
		x.dispatchBranch(st)
	}
	t := st.pins["peek"]
	if t == nil {
		return
	}
	err, n := e.Cmp(token.EQL, e.ext(t, 1), e.in.Nil()), e.Cmp(token.EQL, e.Len(st, e.ext(t, 0), nil), e.in.Int(0))
	if v := e.Eval(st, err); v >= 0 {
		e.Assume(st, n, v == 0)
	} else if v := e.Eval(st, n); v >= 0 {
		e.Assume(st, err, v == 0)
	}
}

// flowsToReturn: the value is returned by root, possibly converted or after more has been added to it.
func (p *Program) flowsToReturn(v ssa.Value, root *ssa.Function, seen map[ssa.Value]bool) bool {
	if seen[v] || v.Referrers() == nil {
		return false
	}
	seen[v] = true
	for _, in := range *v.Referrers() {
		switch y := in.(type) {
		case *ssa.Phi, *ssa.Convert, *ssa.ChangeType, *ssa.Slice, *ssa.Extract, *ssa.MakeInterface:
			if p.flowsToReturn(y.(ssa.Value), root, seen) {
				return true
			}
		case *ssa.Return:
			f := y.Parent()
			if f == root {
				return true
			}
			for _, site := range p.callSites(f) {
				if sv, ok := site.(ssa.Value); ok && p.flowsToReturn(sv, root, seen) {
					return true
				}
			}
		case *ssa.Call:
			com := y.Common()
			if b, ok := com.Value.(*ssa.Builtin); ok {
				if b.Name() == "append" && com.Args[0] == v && p.flowsToReturn(y, root, seen) {
					return true
				}
				continue
			}
			if com.IsInvoke() && com.Method.Name() == "Decrypt" && p.flowsToReturn(y, root, seen) {
				return true
			}
			if f := com.StaticCallee(); f != nil && p.InRepo(f) {
				for i, a := range com.Args {
					if a == v && i < len(f.Params) && p.flowsToReturn(f.Params[i], root, seen) {
						return true
					}
				}
			}
		}
	}
	return false
}

func (x *lex) ret(st *State, ctx *Ctx, in *ssa.Return, res []*Term) {
	if x.pass == 0 && !x.spec.stream {
		res[0].anyTerm(func(t *Term) bool {
			if t.is("tok") && t.args[0].kind == 'n' {
				x.toks[t.args[0].val] = true
			}
			return false
		})
		return
	}
	if x.spec.dispatch {
		x.dispatchRet(st, in, res)
		return
	}
	if x.spec.stream {
		x.streamRet(st, in, res)
		return
	}
	want := ""
	cur := st.pins["cur"]
	if st.flags["q"] == "opened" {
		x.opened(st, in, true)
	} else {
		if st.flags["obj"] != "" {
			for _, row := range x.feasible(st, st.flags["q"]) {
				want = row.ret
			}
		}
		x.judge(st, in, true)
	}
	if st.flags["q"] == "dead" || x.logs {
		return
	}
	t := res[0]
	if x.spec.objects {
		if len(res) == 3 {
			t = res[1]
			switch want {
			case "err":
				if res[2] != x.e.ext(cur, 1) && x.e.Eval(st, x.e.Cmp(token.EQL, res[2], x.e.ext(cur, 1))) != 1 {
					x.fail(st, in, false, x.spec.name+": the error is not returned")
					return
				}
			case "val":
				if peel(res[0]) != x.e.in.Pure("as:Keyword", x.e.ext(cur, 0)) || !res[2].isNil() {
					x.fail(st, in, false, x.spec.name+": the keyword that was read is not returned")
					return
				}
			}
		}
		if d := st.pins["dict"]; d != nil {
			if peel(t) != d {
				x.fail(st, in, false, x.spec.name+": what was read is not returned but "+trunc(t.String(), 80))
			}
			return
		}
		if st.flags["any"] == "" && t.kind == 'n' {
			return
		}
	}
	for {
		if s, ok := e2str(x.e, t); ok && s == "" {
			if st.flags["any"] != "" {
				x.fail(st, in, false, x.spec.name+": what was read is not returned")
			}
			return
		}
		if t.is("tok") {
			if st.flags["taken"] == "" && st.flags["any"] != "" {
				x.fail(st, in, false, x.spec.name+": part of what was read is not returned")
			}
			return
		}
		if t.is("bytes") || t.is("str") || t.is("bytesof") || t.is("decrypted") || t.hasOp("conv:") {
			t = t.args[0]
			continue
		}
		if c := x.e.Content(st, t); c != t && !c.is("bytesof") {
			t = c
			continue
		}
		if st.flags["any"] == "" && (t.isNil() || x.e.Eval(st, x.e.Cmp(token.EQL, x.e.Len(st, t, nil), x.e.in.Int(0))) == 1) {
			return
		}
		x.fail(st, in, false, x.spec.name+": what was read is not returned but "+trunc(t.String(), 80))
		return
	}
}

func e2str(e *Engine, t *Term) (string, bool) { return e.constBytes(t) }

// closes: the parenthesis that was read closes the outermost one.
func (x *lex) closes(st *State) int {
	e := x.e
	v := e.Eval(st, e.Cmp(token.EQL, e.in.linAdd(st.pins["depth"], e.in.Int(1), -1, types.Typ[types.Int]), e.in.Int(0)))
	if v < 0 && st.flags["close"] != "" {
		v = x.count(st, "close")
	}
	return v
}

// edge and instr follow the nesting depth through loop variables.
func (x *lex) edge(st *State, ctx *Ctx, from, to *ssa.BasicBlock) {
	d := st.pins["depth"]
	l := x.p.Loops(ctx.fn).ByHeader[to]
	if d == nil || l == nil || l.kind(from, to) != edgeBack {
		return
	}
	// the depth counts the byte that is pending
	if st.flags["q"] != "dead" && st.pins["cur"] != nil {
		if v := x.closes(st); v >= 0 {
			st.flags["close"] = strconv.Itoa(v)
		}
		for _, row := range x.feasible(st, st.flags["q"]) {
			if row.depth != 0 {
				d = x.e.in.linAdd(d, x.e.in.Int(int64(row.depth)), 1, types.Typ[types.Int])
				st.flags["pend"] = strconv.Itoa(row.depth)
			}
			break
		}
	}
	best := -1
	for i, phi := range phis(to) {
		if !isIntType(phi.Type()) {
			continue
		}
		if v := x.e.incoming(st, ctx, phi, from); v != nil {
			if k, ok := x.e.in.linAdd(d, v, -1, types.Typ[types.Int]).intVal(); ok {
				if best < 0 || x.p.inductive(phis(to)[best]) != nil {
					best = i
					st.flags["dk"] = strconv.FormatInt(k, 10)
				}
			}
		}
	}
	if best >= 0 {
		st.flags["dphi"] = strconv.Itoa(best)
	}
}

func (x *lex) instr(st *State, ctx *Ctx, in ssa.Instruction) {
	b := in.Block()
	if st.flags["dphi"] == "" || b == nil || x.p.Loops(ctx.fn).ByHeader[b] == nil || b.Instrs[firstNonPhi(b)] != in {
		return
	}
	i, k, pend := x.count(st, "dphi"), x.count(st, "dk"), x.count(st, "pend")
	st.pins["depth"] = x.e.in.linAdd(x.e.V(st, ctx, phis(b)[i]), x.e.in.Int(int64(k-pend)), 1, types.Typ[types.Int])
	for _, n := range []string{"dphi", "dk", "pend"} {
		delete(st.flags, n)
	}
	x.deep(st)
}

// deep: inside a token the nesting depth is at least one, or the token would have ended.
func (x *lex) deep(st *State) {
	if d := st.pins["depth"]; d != nil && !d.isConst() {
		x.e.Assume(st, x.e.Cmp(token.LEQ, x.e.in.Int(1), d), true)
	}
}

// lexRule compares one reader with its automaton.
func lexRule(p *Program, r *Report, name string, spec *lexSpec, logs bool) {
	root := r.anchor(p, name)
	if root == nil {
		return
	}
	x := &lex{p: p, r: r, root: root, spec: spec, toks: map[any]bool{}, logs: logs}
	for x.pass = 0; x.pass < 2; x.pass++ {
		e := NewEngine(p)
		x.e = e
		e.KeepFacts, e.KeepStale, e.Buffers = true, true, true
		e.Stable = func(t *Term) bool {
			k, ok := t.intVal()
			return t.is("tok") || ok && k >= 0 && k <= 3
		}
		e.H.Call, e.H.After, e.H.Model, e.H.Ret, e.H.Edge, e.H.Instr, e.H.Branch = x.call, x.after, x.model, x.ret, x.edge, x.instr, x.branch
		if spec.objects {
			e.H.MapUpd = x.mapUpd
		}
		if spec.stream && x.byteStores(root, map[*ssa.Function]bool{}) {
			r.sample("%s: the data is handled in a way that is not followed: not judged", name)
			return
		}
		e.Run(root, func(st *State, ctx *Ctx) {
			rd, out := e.in.Param("reader", nil), e.in.Param("output", nil)
			st.cells[e.in.Pure("faddr:Parser.Reader", e.ParamTerm(0))] = rd
			st.cells[e.in.Pure("faddr:Parser.output", e.ParamTerm(0))] = out
			st.pins["rd"], st.pins["out"], st.pins["depth"] = rd, out, e.in.Int(0)
			e.Assume(st, e.Cmp(token.EQL, out, e.in.Nil()), false)
			st.flags["q"] = spec.start
			if x.pass == 0 && !spec.stream {
				st.flags["q"] = "dead"
			}
		})
		if x.pass == 1 {
			r.finish(e, name)
		}
	}
	if logs && spec.name == "keyword" {
		return
	}
	r.need("ends of tokens in "+name, x.ends+x.peeked, 1)
	r.Sites += x.bytes
	r.sample("%s: %d bytes compared with the automaton, %d written, %d ends", name, x.bytes, x.written, x.ends)
}

// lead gives the rows for white space and comments before a token or inside one; back is the state to go on in.
func leadRows(q, base, then string) []lexRow {
	switch strings.TrimPrefix(q, base) {
	case "":
		return []lexRow{
			{set: lexSpace, next: base},
			{set: setOf("%"), next: base + "%"},
			{set: lexSpace.or(setOf("%")).not(), unread: 2, alias: then, next: then},
		}
	case "%":
		return []lexRow{
			{eof: true, next: base},
			{set: setOf("\n"), next: base},
			{set: setOf("\r"), next: base + "%r"},
			{set: setOf("\r\n").not(), next: base + "%"},
		}
	case "%r":
		return append([]lexRow{{eof: true, next: base}, {set: setOf("\n"), next: base}, {set: lexSpace.and(setOf("\n").not()), unread: 2, next: base}, {set: setOf("%"), unread: 2, alias: base, next: base}},
			lexRow{set: lexSpace.or(setOf("%")).not(), unread: 2, alias: base, next: base})
	}
	return nil
}

func nameSpec() *lexSpec {
	needless := lexPrint.and(lexDelim.not()).and(setOf("#").not())
	return &lexSpec{name: "name", start: "lead", rows: func(x *lex, st *State, q string) []lexRow {
		zero := x.e.in.Int('0')
		d1 := st.pins["d1"]
		switch q {
		case "first":
			return []lexRow{{eof: true, end: true}, {set: setOf("/"), next: "n"}, {set: setOf("/").not(), unread: 2, end: true}}
		case "n":
			return []lexRow{
				{eof: true, end: true},
				{set: lexSpace.or(lexDelim), unread: 1, end: true},
				{set: setOf("#"), next: "n+0"},
				{set: lexRegular.and(setOf("#").not()), out: []lexOut{{kind: 'b'}}, next: "n"},
			}
		case "n+0":
			return []lexRow{
				{eof: true, out: []lexOut{{kind: '?'}}, maybe: true, next: "n"},
				{set: lexHex, digit: 1, next: "n+1"},
				{set: lexHex.not(), unread: 1, out: []lexOut{{kind: '?'}}, maybe: true, logs: []string{errNameEsc}, next: "n"},
			}
		case "n+1":
			return []lexRow{
				{eof: true, out: []lexOut{{kind: 'x', digits: []*Term{d1, zero}}}, needless: errNeedlessN, plain: needless, next: "n"},
				{set: lexHex, out: []lexOut{{kind: 'x', digits: []*Term{d1, lexByte(x.e, st.pins["cur"])}}}, needless: errNeedlessN, plain: needless, next: "n"},
				{set: lexHex.not(), unread: 1, out: []lexOut{{kind: 'x', digits: []*Term{d1, zero}}}, needless: errNeedlessN, plain: needless, logs: []string{errNameEsc}, next: "n"},
			}
		}
		rows := leadRows(q, "lead", "first")
		if q == "lead" {
			rows = append(rows, lexRow{eof: true, next: "first"})
		}
		return rows
	}}
}

func keywordSpec() *lexSpec {
	return &lexSpec{name: "keyword", start: "lead", rows: func(x *lex, st *State, q string) []lexRow {
		if q == "k" {
			return []lexRow{
				{eof: true, end: true},
				{set: lexSpace.or(lexDelim), unread: 1, end: true},
				{set: lexRegular, out: []lexOut{{kind: 'b'}}, next: "k"},
			}
		}
		rows := leadRows(q, "lead", "k")
		if q == "lead" {
			rows = append(rows, lexRow{eof: true, next: "k"})
		}
		return rows
	}}
}

func hexStringSpec() *lexSpec {
	return &lexSpec{name: "hex string", start: "lead", rows: func(x *lex, st *State, q string) []lexRow {
		zero := x.e.in.Int('0')
		d1 := st.pins["d1"]
		more := func(self string, out []lexOut, digit lexRow) []lexRow {
			digit.set = lexHex
			last := lexRow{eof: true, out: out, logs: []string{errUnHex}, end: true}
			if !x.ending && x.count(st, "em") == 0 && st.flags["log"] == "" {
				// looking ahead for more white space
				last = lexRow{eof: true, next: self}
			}
			return []lexRow{
				last,
				{set: setOf(">"), out: out, end: true},
				digit,
				{set: lexSpace, next: self},
				{set: setOf("%"), next: self + "%"},
				{set: lexHex.or(lexSpace).or(setOf(">%")).not(), logs: []string{errHexChar}, next: self},
			}
		}
		var rows []lexRow
		switch q {
		case "first":
			return []lexRow{{eof: true, end: true}, {set: setOf("<"), next: "h"}, {set: setOf("<").not(), unread: 2, end: true}}
		case "h":
			rows = more("h", nil, lexRow{digit: 1, next: "h+"})
		case "h+":
			rows = more("h+", []lexOut{{kind: 'x', digits: []*Term{d1, zero}}}, lexRow{out: []lexOut{{kind: 'x', digits: []*Term{d1, lexByte(x.e, st.pins["cur"])}}}, next: "h"})
		case "h%", "h%r":
			return leadRows(q, "h", "h")
		case "h+%", "h+%r":
			return leadRows(q, "h+", "h+")
		default:
			rows = leadRows(q, "lead", "first")
			if q == "lead" {
				rows = append(rows, lexRow{eof: true, next: "first"})
			}
			return rows
		}
		// white space can be skipped by looking at the next byte and putting it back
		if st.flags["un"] != "" && x.count(st, "em") == 0 {
			return []lexRow{{eof: true, unread: 2, next: q}, {set: lexSpace.or(setOf("%")).not(), unread: 2, next: q}, {set: lexSpace.or(setOf("%")), next: q}}
		}
		return rows
	}}
}

func stringSpec() *lexSpec {
	needless := lexPrint.and(setOf("\\()").not())
	return &lexSpec{name: "string", start: "lead", rows: func(x *lex, st *State, q string) []lexRow {
		e := x.e
		out := []lexOut{{kind: 'b'}}
		d1, d2 := st.pins["d1"], st.pins["d2"]
		var cur *Term
		if st.pins["cur"] != nil {
			cur = lexByte(e, st.pins["cur"])
		}
		oct := func(d ...*Term) []lexOut { return []lexOut{{kind: 'o', digits: d}} }
		switch q {
		case "first":
			return []lexRow{{eof: true, end: true}, {set: setOf("("), next: "s", depth: 1}, {set: setOf("(").not(), unread: 2, end: true}}
		case "s":
			last := lexRow{set: setOf(")"), undec: true}
			switch x.closes(st) {
			case 1:
				last = lexRow{set: setOf(")"), depth: -1, end: true}
			case 0:
				last = lexRow{set: setOf(")"), depth: -1, out: out, next: "s"}
			}
			return []lexRow{
				{eof: true, logs: []string{errUnString}, end: true},
				{set: setOf("\\"), next: "esc"},
				{set: setOf("("), out: out, depth: 1, next: "s"},
				last,
				{set: setOf("\\()").not(), out: out, next: "s"},
			}
		case "esc":
			rows := []lexRow{
				{eof: true, out: []lexOut{{kind: 'c', c: '\\'}}, maybe: true, logs: []string{errUnEscape}, end: true},
				{set: setOf("\n"), next: "s"},
				{set: setOf("\r"), next: "escr"},
				{set: lexOctal, digit: 1, next: "o+1"},
				{set: lexOctal.or(setOf("\n\rnrtbf")).not(), out: out, next: "s"},
			}
			for i, c := range "nrtbf" {
				rows = append(rows, lexRow{set: setOf(string(c)), out: []lexOut{{kind: 'c', c: "\n\r\t\b\f"[i]}}, next: "s"})
			}
			return rows
		case "escr":
			return []lexRow{
				{eof: true, logs: []string{errUnEscape}, end: true},
				{set: setOf("\n"), next: "s"},
				{set: setOf("\n").not(), unread: 2, alias: "s", next: "s"},
			}
		case "o+1":
			return []lexRow{
				{eof: true, out: oct(d1), needless: errNeedlessS, plain: needless, logs: []string{errUnOctal}, next: "s"},
				{set: lexOctal, digit: 2, next: "o+2"},
				{set: lexOctal.not(), unread: 1, out: oct(d1), needless: errNeedlessS, plain: needless, next: "s"},
			}
		case "o+2":
			over := -1
			if s := e.Bytes(st, d1); s.subsetOf(setRange('0', '3')) {
				over = 0
			} else if s.subsetOf(setRange('4', '7')) {
				over = 1
			} else if st.pins["octerr"] != nil {
				over = x.null(st, st.pins["octerr"])
				if over >= 0 {
					over = 1 - over
				}
			}
			third := lexRow{set: lexOctal, out: []lexOut{{kind: '?'}}, unread: 2, next: "s"}
			switch over {
			case 0:
				third = lexRow{set: lexOctal, out: oct(d1, d2, cur), needless: errNeedlessS, plain: needless, next: "s"}
			case 1:
				third = lexRow{set: lexOctal, unread: 1, out: oct(d1, d2), needless: errNeedlessS, plain: needless, logs: []string{errOctal}, next: "s"}
			}
			return []lexRow{
				{eof: true, out: oct(d1, d2), needless: errNeedlessS, plain: needless, logs: []string{errUnOctal}, next: "s"},
				third,
				{set: lexOctal.not(), unread: 1, out: oct(d1, d2), needless: errNeedlessS, plain: needless, next: "s"},
			}
		}
		rows := leadRows(q, "lead", "first")
		if q == "lead" {
			rows = append(rows, lexRow{eof: true, next: "first"})
		}
		return rows
	}}
}

func lexRules(p *Program, r *Report, logs bool) {
	lexRule(p, r, "Parser.ReadName", nameSpec(), logs)
	lexRule(p, r, "Parser.ReadKeyword", keywordSpec(), logs)
	lexRule(p, r, "Parser.ReadHexString", hexStringSpec(), logs)
	lexRule(p, r, "Parser.ReadString", stringSpec(), logs)
}

func init() {
	checks["C22"] = &Check{
		Rule: "every path of every token reader does for every byte what the reference automaton of the token says: what is written, whether the byte is put back, where the token ends, and what is returned",
		Run:  func(p *Program, r *Report) { lexRules(p, r, false) },
	}
	checks["C21"] = &Check{
		Rule: "every path of every reader logs for every byte or object exactly the messages the reference automaton of the construct says",
		Run: func(p *Program, r *Report) {
			lexRules(p, r, true)
			objectRules(p, r, true)
			logRules(p, r)
			lexRule(p, r, "Parser.ReadStream", streamSpec(), true)
		},
	}
}
