package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Arrays, dictionaries and commands are compared with automata whose input is the objects that are read.

var readErrors = []string{"nil", "ReadError", "EndOfArray", "EndOfDictionary", "EndOfString", "EndOfHexString"}

func (row lexRow) describe() string {
	s := "an object"
	if row.typ != "" {
		s = "a " + row.typ
		if row.not {
			s = "what is not a " + row.typ
		}
	}
	if len(row.cls) > 0 && row.cls[0] != "nil" {
		s = strings.Join(row.cls, " or ")
	}
	return s
}

// errIs: the error an object was read with is the given one (1 yes, 0 no, -1 not known).
func (x *lex) errIs(st *State, err *Term, name string) int {
	e := x.e
	eq := func(name string) int {
		if name == "nil" {
			return x.null(st, err)
		}
		v := e.globalValue(x.p.global(name))
		if v == nil {
			return -1
		}
		return e.Eval(st, e.Cmp(token.EQL, err, v))
	}
	switch eq(name) {
	case 0:
		return 0
	case 1:
		return 1
	}
	for _, other := range readErrors {
		if other != name && eq(other) == 1 {
			return 0
		}
	}
	return -1
}

func (x *lex) feasibleObj(st *State, q string) []lexRow {
	e := x.e
	val, err := e.ext(st.pins["cur"], 0), e.ext(st.pins["cur"], 1)
	var out []lexRow
	for _, row := range x.spec.rows(x, st, q) {
		if !row.obj {
			continue
		}
		var cls []string
		for _, c := range row.cls {
			if x.errIs(st, err, c) != 0 {
				cls = append(cls, c)
			}
		}
		if len(cls) == 0 {
			continue
		}
		if row.typ != "" {
			is := e.Eval(st, e.in.Pure("is:"+row.typ, val))
			if is == 0 && !row.not || is == 1 && row.not {
				continue
			}
		}
		row.cls = cls
		out = append(out, row)
	}
	return out
}

// keyOf gives the name a dictionary key was made of.
func (x *lex) keyOf(st *State, k *Term) *Term {
	for k.hasOp("conv:") || k.hasOp("as:") || k.is("str") {
		k = k.args[0]
	}
	return k
}

func (x *lex) mapUpd(st *State, ctx *Ctx, in *ssa.MapUpdate, m, k, v *Term) {
	if !strings.Contains(typeStr(in.Map.Type()), "Dictionary") || st.flags["q"] == "dead" {
		return
	}
	if d := st.pins["dict"]; d != nil && d != m {
		x.fail(st, in, false, x.spec.name+": entries are put in different dictionaries")
		return
	}
	st.pins["dict"] = m
	x.emit(st, x.e.in.Pure("entry", k, v))
}

// opened judges what follows from the first two bytes.
func (x *lex) opened(st *State, in ssa.Instruction, end bool) {
	e := x.e
	is := e.Eval(st, e.Cmp(token.EQL, e.text(st, st.pins["mark"]), e.in.Str(x.spec.open2)))
	if is < 0 {
		is = 1
		for i := 0; i < len(x.spec.open2); i++ {
			c := st.cells[e.in.Pure("iaddr", st.pins["mark"], e.in.Int(int64(i)))]
			if c == nil || e.Bytes(st, c) != setOf(x.spec.open2[i:i+1]) {
				is = -1
				break
			}
		}
	}
	switch {
	case end && is == 1 && x.readOK(st):
		x.fail(st, in, false, x.spec.name+": returns after the opening marker")
	case !end && is != 1:
		x.fail(st, in, false, x.spec.name+": the opening marker is not required")
	default:
		x.bytes++
		x.r.ob(true)
		if end {
			x.ends++
		}
		st.flags["q"] = "obj"
		delete(st.pins, "mark")
		delete(st.pins, "markerr")
	}
}

// readOK: reading the marker is known to have succeeded.
func (x *lex) readOK(st *State) bool {
	return st.pins["markerr"] != nil && x.null(st, st.pins["markerr"]) == 1
}

var goOn = []string{"nil", "EndOfArray", "EndOfDictionary", "EndOfString", "EndOfHexString"}

func without(list []string, drop ...string) []string {
	var out []string
	for _, s := range list {
		keep := true
		for _, d := range drop {
			keep = keep && s != d
		}
		if keep {
			out = append(out, s)
		}
	}
	return out
}

func objLead(q string) []lexRow {
	rows := leadRows(q, "lead", "first")
	if q == "lead" {
		rows = append(rows, lexRow{eof: true, next: "first"})
	}
	return rows
}

func arraySpec() *lexSpec {
	return &lexSpec{name: "array", start: "lead", objects: true, rows: func(x *lex, st *State, q string) []lexRow {
		switch q {
		case "first":
			return []lexRow{{eof: true, end: true}, {set: setOf("["), next: "obj"}, {set: setOf("[").not(), unread: 2, end: true}}
		case "obj":
			return []lexRow{
				{obj: true, cls: []string{"ReadError"}, logs: []string{errUnArray}, end: true},
				{obj: true, cls: []string{"EndOfArray"}, end: true},
				{obj: true, cls: []string{"nil"}, out: []lexOut{{kind: 'v'}}, next: "obj"},
				{obj: true, cls: without(goOn, "nil", "EndOfArray"), out: []lexOut{{kind: 'v'}}, maybe: true, next: "obj"},
			}
		}
		return objLead(q)
	}}
}

func dictSpec() *lexSpec {
	return &lexSpec{name: "dictionary", start: "lead", objects: true, open2: "<<", rows: func(x *lex, st *State, q string) []lexRow {
		switch q {
		case "first":
			return []lexRow{{eof: true, end: true}, {set: setOf("<"), next: "first2"}, {set: setOf("<").not(), unread: 2, end: true}}
		case "first2":
			return []lexRow{{eof: true, end: true}, {set: setOf("<"), next: "obj"}, {set: setOf("<").not(), unread: 2, end: true}}
		case "obj":
			return []lexRow{
				{obj: true, cls: []string{"ReadError"}, logs: []string{errUnDict}, end: true},
				{obj: true, cls: []string{"EndOfDictionary"}, end: true},
				{obj: true, cls: without(goOn, "EndOfDictionary"), typ: "Name", next: "obj+"},
				{obj: true, cls: without(goOn, "EndOfDictionary"), typ: "Name", not: true, logs: []string{errKeyType}, next: "obj"},
			}
		case "obj+":
			return []lexRow{
				{obj: true, cls: []string{"ReadError", "EndOfDictionary"}, logs: []string{errMissingVal}, end: true},
				{obj: true, cls: []string{"nil"}, out: []lexOut{{kind: 'e'}}, next: "obj"},
				{obj: true, cls: without(goOn, "nil", "EndOfDictionary"), out: []lexOut{{kind: 'e'}}, maybe: true, next: "obj"},
			}
		}
		return objLead(q)
	}}
}

func commandSpec() *lexSpec {
	return &lexSpec{name: "command", start: "obj", objects: true, rows: func(x *lex, st *State, q string) []lexRow {
		return []lexRow{
			{obj: true, cls: without(readErrors, "nil"), ret: "err", end: true},
			{obj: true, cls: []string{"nil"}, typ: "Keyword", ret: "val", end: true},
			{obj: true, cls: []string{"nil"}, typ: "Keyword", not: true, out: []lexOut{{kind: 'v'}}, next: "obj"},
		}
	}}
}

func objectRules(p *Program, r *Report, logs bool) {
	lexRule(p, r, "Parser.ReadArray", arraySpec(), logs)
	lexRule(p, r, "Parser.ReadDictionary", dictSpec(), logs)
	if !logs {
		lexRule(p, r, "Parser.ReadCommand", commandSpec(), logs)
	}
}

func init() {
	checks["C23"] = &Check{
		Rule: "the object reader dispatches on the leading bytes, and every path of the readers of arrays, dictionaries and commands does with every object what the reference automaton says",
		Run: func(p *Program, r *Report) {
			lexRule(p, r, "Parser.ReadObject", &lexSpec{name: "object", start: "lead", dispatch: true, rows: func(x *lex, st *State, q string) []lexRow {
				return objLead(q)
			}}, false)
			objectRules(p, r, false)
		},
	}
}

// The dispatch on the leading bytes.

// lead0 is a class of objects told by its first bytes.
type leadClass struct {
	first  ByteSet
	second string // the second byte as well
	not    string // ... is not this one
	empty  bool
	reader string // the reader of these objects
	eat    int    // the bytes taken otherwise
	err    string
	deep   bool // may be skipped when nested too deeply
}

var leadClasses = []leadClass{
	{empty: true, err: "ReadError"},
	{first: setOf("/"), reader: "Parser.ReadName"},
	{first: setOf("["), reader: "Parser.ReadArray", deep: true},
	{first: setOf("]"), eat: 1, err: "EndOfArray"},
	{first: setOf("("), reader: "Parser.ReadString"},
	{first: setOf(")"), eat: 1, err: "EndOfString"},
	{first: setOf("<"), second: "<", reader: "Parser.ReadDictionary", deep: true},
	{first: setOf("<"), not: "<", reader: "Parser.ReadHexString"},
	{first: setOf(">"), second: ">", eat: 2, err: "EndOfDictionary"},
	{first: setOf(">"), not: ">", eat: 1, err: "EndOfHexString"},
	{first: setRange('0', '9').or(setOf("+-.")), reader: "Parser.ReadNumber"},
	{first: setRange('0', '9').or(setOf("+-./[]()<>%")).not().and(lexSpace.not()), reader: "Parser.ReadKeyword"},
}

func (c leadClass) String() string {
	switch {
	case c.empty:
		return "the end of the input"
	case c.second != "":
		return c.first.String() + " followed by " + c.second
	case c.not != "":
		return c.first.String() + " not followed by " + c.not
	}
	return c.first.String()
}

func (x *lex) dispatchCall(st *State, c *Call) bool {
	if st.flags["q"] == "dead" {
		return true
	}
	if st.flags["disp"] == "" {
		if c.Name != "(*bufio.Reader).Peek" {
			return false
		}
		x.judge(st, c.In, false)
		if q := st.flags["q"]; q == "lead" && st.pins["cur"] == nil {
			// nothing has been read
			x.fail(st, c.In, false, "object: leading white space is not skipped")
		} else if q != "dead" {
			if q != "first" {
				x.fail(st, c.In, false, "object: the first bytes are looked at in the middle of white space or a comment")
				return true
			}
			st.flags["disp"] = "1"
			st.flags["any"] = ""
		}
	}
	if !strings.HasPrefix(c.Name, "Parser.Read") || c.Inlined {
		return true
	}
	if st.flags["reader"] == "" {
		st.flags["reader"] = c.Name
	}
	return true
}

func (x *lex) dispatchModel(st *State, c *Call, typ types.Type) *Term {
	e := x.e
	switch {
	case c.Name == "(*bufio.Reader).Peek":
		n, ok := c.Args[1].intVal()
		if !ok || n < 1 || n > 2 || st.flags["reader"] != "" {
			x.dead(st)
			return nil
		}
		t := e.fresh(st, c.Ctx, c.In, typ)
		s := e.in.PureT(types.NewSlice(types.Typ[types.Byte]), "x:0", t)
		e.Assume(st, e.Cmp(token.LEQ, e.Len(st, s, nil), c.Args[1]), true)
		for i := 0; i < int(n); i++ {
			k := fmt.Sprintf("p%d", i)
			if st.pins[k] == nil {
				st.pins[k] = e.in.PureT(types.Typ[types.Byte], k, t)
			}
			st.cells[e.in.PureT(types.NewPointer(types.Typ[types.Byte]), "iaddr", s, e.in.Int(int64(i)))] = st.pins[k]
		}
		st.pins[fmt.Sprintf("peek%d", n)] = t
		return t
	case (c.Name == "bytes.HasPrefix" || c.Name == "bytes.Equal") && st.pins["peek2"] != nil && c.Args[0] == e.ext(st.pins["peek2"], 0):
		if lit, ok := x.literal(st, c.Args[1]); ok && (len(lit) == 2 || c.Name == "bytes.Equal") {
			return e.Cmp(token.EQL, e.text(st, c.Args[0]), e.in.Str(lit))
		}
		if d := x.digits(st, c.Args[1]); len(d) == 2 {
			a, ok1 := d[0].intVal()
			b, ok2 := d[1].intVal()
			if ok1 && ok2 {
				return e.Cmp(token.EQL, e.text(st, c.Args[0]), e.in.Str(string([]byte{byte(a), byte(b)})))
			}
		}
	case c.Name == "errors.Is":
		return e.Cmp(token.EQL, c.Args[0], c.Args[1])
	}
	return nil
}

func (x *lex) dispatchAfter(st *State, c *Call) {
	if st.flags["q"] == "dead" {
		return
	}
	switch {
	case c.Name == "(*bufio.Reader).ReadByte":
		st.flags["eat"] = strconv.Itoa(x.count(st, "eat") + 1)
	case c.Name == "(*bufio.Reader).Discard":
		if n, ok := c.Args[1].intVal(); ok {
			st.flags["eat"] = strconv.Itoa(x.count(st, "eat") + int(n))
		} else {
			x.dead(st)
		}
	case c.Name == "(*bufio.Reader).UnreadByte":
		st.flags["eat"] = strconv.Itoa(x.count(st, "eat") - 1)
	case c.Inlined || c.Fn == nil || !x.p.InRepo(c.Fn):
	case c.Name == st.flags["reader"] && st.pins["val"] == nil:
		st.pins["val"] = c.Result
	case c.Name == "Parser.ReadInt", c.Name == "Parser.ReadInt64":
		st.pins["gen"] = c.Result
	case c.Name == "Parser.ReadKeyword":
		st.pins["kw"] = c.Result
	case c.Name == "NewReference":
		st.pins["ref"] = c.Result
		for i, a := range c.Args {
			st.pins[fmt.Sprintf("ref%d", i)] = a
		}
	}
}

// dispatchBranch: looking at one byte gives an error exactly when there is none, and looking at two gives none
// when both are there.
func (x *lex) dispatchBranch(st *State) {
	e := x.e
	for n := 1; n <= 2; n++ {
		t := st.pins[fmt.Sprintf("peek%d", n)]
		if t == nil {
			continue
		}
		l := e.Len(st, e.ext(t, 0), nil)
		switch x.null(st, e.ext(t, 1)) {
		case 1:
			e.Assume(st, e.Cmp(token.EQL, l, e.in.Int(int64(n))), true)
		case 0:
			e.Assume(st, e.Cmp(token.EQL, l, e.in.Int(int64(n))), false)
		}
	}
	if t := st.pins["peek2"]; t != nil {
		for _, lit := range []string{"<<", ">>"} {
			if e.Eval(st, e.Cmp(token.EQL, e.text(st, e.ext(t, 0)), e.in.Str(lit))) == 1 {
				for i := 0; i < 2; i++ {
					e.Assume(st, e.Cmp(token.EQL, st.pins[fmt.Sprintf("p%d", i)], e.in.Int(int64(lit[i]))), true)
				}
			}
		}
	}
}

// second tells whether the second byte is the given one, the first being known to be the same.
func (x *lex) second(st *State, c string) int {
	e := x.e
	t := st.pins["peek2"]
	if t == nil {
		return -1
	}
	if v := e.Eval(st, e.Cmp(token.EQL, e.text(st, e.ext(t, 0)), e.in.Str(c+c))); v >= 0 {
		return v
	}
	if e.Eval(st, e.Cmp(token.LSS, e.Len(st, e.ext(t, 0), nil), e.in.Int(2))) == 1 {
		return 0
	}
	s := e.Bytes(st, st.pins["p1"])
	switch {
	case s.and(setOf(c)).empty():
		return 0
	case s == setOf(c):
		return 1
	}
	return -1
}

func (x *lex) dispatchRet(st *State, in *ssa.Return, res []*Term) {
	e := x.e
	if st.flags["q"] == "dead" || x.logs {
		return
	}
	if st.flags["disp"] == "" {
		x.fail(st, in, false, "object: returns before looking at the first bytes")
		return
	}
	empty, depth := -1, false
	for n := 1; n <= 2; n++ {
		if t := st.pins[fmt.Sprintf("peek%d", n)]; t != nil {
			if v := e.Eval(st, e.Cmp(token.EQL, e.Len(st, e.ext(t, 0), nil), e.in.Int(0))); v >= 0 {
				empty = v
			}
		}
	}
	if d := e.cellOf(st, "Parser.depth", e.ParamTerm(0)); d != nil {
		lo, _, ok, _ := e.Range(st, d)
		depth = ok && lo >= 32
	}
	first := e.Bytes(st, st.pins["p0"])
	for _, c := range leadClasses {
		if c.empty {
			if empty == 0 {
				continue
			}
		} else if empty == 1 || c.first.and(first).empty() ||
			c.second != "" && x.second(st, c.second) == 0 || c.not != "" && x.second(st, c.not) == 1 {
			continue
		} else {
			c.first = c.first.and(first)
		}
		x.bytes++
		if msg := x.outcome(st, res, c, depth); msg != "" {
			x.fail(st, in, false, "object: at "+c.String()+" "+msg)
			return
		}
		x.r.ob(true)
	}
	x.ends++
}

// outcome compares what was done with an object of the class.
func (x *lex) outcome(st *State, res []*Term, c leadClass, deep bool) string {
	e := x.e
	reader, eat := st.flags["reader"], x.count(st, "eat")
	if c.deep && deep && reader == "" && x.null(st, res[1]) == 1 {
		return "" // nested too deeply
	}
	if c.err != "" {
		switch {
		case reader != "":
			return "an object is read with " + reader
		case x.errIs(st, res[1], c.err) != 1:
			return c.err + " is not returned"
		case eat != c.eat && !c.empty:
			return fmt.Sprintf("%d bytes are taken instead of %d", eat, c.eat)
		}
		return ""
	}
	switch {
	case reader != c.reader:
		if reader == "" {
			reader = "nothing"
		}
		return "the object is read with " + strings.TrimPrefix(reader, "Parser.") + " instead of " + strings.TrimPrefix(c.reader, "Parser.")
	case x.null(st, res[1]) != 1:
		return "an error is returned"
	case eat != 0:
		return "the marker is taken away"
	}
	val := strip(res[0])
	if c.reader != "Parser.ReadNumber" {
		if val != st.pins["val"] {
			return "what was read is not returned"
		}
		return ""
	}
	must, not := false, false
	if gen := st.pins["gen"]; gen != nil {
		ok, kw := e.Eval(st, e.ext(gen, 1)), -1
		if st.pins["kw"] != nil {
			kw = e.Eval(st, e.Cmp(token.EQL, st.pins["kw"], e.in.Str("R")))
		}
		must = ok == 1 && kw == 1
		not = ok == 0 || kw == 0
	}
	if st.pins["ref"] == nil && val.typ != nil && typeStr(val.typ) == "*Reference" {
		st.pins["ref"], st.pins["ref1"], st.pins["ref2"] = val, e.cellOf(st, "Reference.Number", val), e.cellOf(st, "Reference.Generation", val)
	}
	if st.pins["ref"] != nil && val == st.pins["ref"] {
		num := st.pins["ref1"]
		for num != nil && num.hasOp("conv:") {
			num = num.args[0]
		}
		switch {
		case !must:
			return "a number that is not followed by an integer and R becomes a reference"
		case num != st.pins["val"] || st.pins["ref2"] != e.ext(st.pins["gen"], 0):
			return "the reference does not have the numbers that were read"
		}
		return ""
	}
	switch {
	case val != st.pins["val"]:
		return "the number that was read is not returned"
	case must:
		return "a number followed by an integer and R does not become a reference"
	case !not:
		return "whether a reference follows is not looked at"
	}
	return ""
}

// text is a byte slice as a string.
func (e *Engine) text(st *State, t *Term) *Term {
	c := e.Content(st, t)
	if c.is("bytesof") {
		c = c.args[0]
	}
	return e.in.PureT(types.Typ[types.String], "str", c)
}

// logRules: what is logged goes to the error log of the output the document is parsed with.
func logRules(p *Program, r *Report) {
	if root := r.anchor(p, "Output.Error"); root != nil {
		e := NewEngine(p)
		ends := 0
		e.H.Call = func(st *State, c *Call) {
			w := e.asWrite(st, c)
			if w == nil {
				return
			}
			dest := e.outputField(st, w.Dest)
			for _, d := range w.Data {
				if strip(d) == e.ParamTerm(1) {
					switch {
					case dest != "Errors":
						r.fail("log", fnName(root), p.InstrPos(c.In), "the message is written to "+dest+" instead of the error log", st.Path())
					case st.flags["logged"] != "":
						r.fail("log", fnName(root), p.InstrPos(c.In), "the message is written twice", st.Path())
					}
					st.flags["logged"] = "1"
				}
			}
		}
		e.H.Ret = func(st *State, ctx *Ctx, in *ssa.Return, res []*Term) {
			f := e.cellOf(st, "Output.Errors", e.ParamTerm(0))
			none := f != nil && e.Eval(st, e.Cmp(token.EQL, f, e.in.Nil())) == 1 || e.Eval(st, e.Cmp(token.EQL, e.ParamTerm(0), e.in.Nil())) == 1
			r.ob(none || st.flags["logged"] != "")
			if !none && st.flags["logged"] == "" {
				r.fail("log", fnName(root), p.InstrPos(in), "the message is not written", st.Path())
			}
			ends++
		}
		e.Run(root, nil)
		r.finish(e, "Output.Error")
		r.need("ends of Output.Error", ends, 1)
	}
	if root := r.anchor(p, "NewParser"); root != nil {
		e := NewEngine(p)
		e.H.Ret = func(st *State, ctx *Ctx, in *ssa.Return, res []*Term) {
			ok := e.cellOf(st, "Parser.output", res[0]) == e.ParamTerm(1)
			r.ob(ok)
			if !ok {
				r.fail("log", fnName(root), p.InstrPos(in), "the parser does not get the output it was given", st.Path())
			}
		}
		e.Run(root, nil)
		r.finish(e, "NewParser")
	}
	if root := r.anchor(p, "Parse"); root != nil {
		e := NewEngine(p)
		e.H.After = func(st *State, c *Call) {
			if c.Name == "NewOutput" {
				st.pins["out"] = e.ext(c.Result, 0)
			}
		}
		n := 0
		e.H.Call = func(st *State, c *Call) {
			if c.Name != "NewParser" {
				return
			}
			n++
			ok := st.pins["out"] != nil && c.Args[1] == st.pins["out"]
			r.ob(ok)
			if !ok {
				r.fail("log", fnName(root), p.InstrPos(c.In), "the document is not parsed with the output that was opened", st.Path())
			}
		}
		e.Run(root, nil)
		r.finish(e, "Parse")
		r.need("documents opened by Parse", n, 1)
	}
}
