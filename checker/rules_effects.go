package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// extRef is a use of something outside the repository.
type extRef struct {
	Fn   *ssa.Function // the in-repo function
	In   ssa.Instruction
	Name string // canonical callee / object name
	Pkg  string
	Call ssa.CallInstruction // nil for other uses (function values, globals)
}

// extRefs lists every call of and every other reference to external functions and variables.
func (p *Program) extRefs() []extRef {
	var out []extRef
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops [24]*ssa.Value
				call, isCall := in.(ssa.CallInstruction)
				for _, op := range in.Operands(ops[:0]) {
					switch v := (*op).(type) {
					case *ssa.Function:
						if p.InRepo(v) || v.Pkg == nil && v.Object() == nil {
							continue
						}
						r := extRef{Fn: f, In: in, Name: calleeName(v)}
						if v.Object() != nil && v.Object().Pkg() != nil {
							r.Pkg = v.Object().Pkg().Path()
						}
						if isCall && call.Common().Value == ssa.Value(v) {
							r.Call = call
						}
						out = append(out, r)
					case *ssa.Global:
						if v.Pkg != p.Pdf && v.Pkg != p.Main {
							out = append(out, extRef{Fn: f, In: in, Name: v.String(), Pkg: v.Pkg.Pkg.Path()})
						}
					}
				}
				if isCall && call.Common().IsInvoke() {
					m := call.Common().Method
					r := extRef{Fn: f, In: in, Name: commonName(call.Common()), Call: call}
					if m.Pkg() != nil {
						r.Pkg = m.Pkg().Path()
					}
					if len(p.implementers(call.Common())) == 0 || r.Pkg != pdfPath {
						out = append(out, r)
					}
				}
			}
		}
	}
	return out
}

var deniedPkgs = []string{"os/exec", "net", "syscall", "plugin", "unsafe", "golang.org/x/sys", "os/signal", "runtime/cgo", "reflect", "database/sql", "log/syslog"}

func deniedPkg(path string) bool {
	for _, d := range deniedPkgs {
		if path == d || strings.HasPrefix(path, d+"/") {
			return true
		}
	}
	return false
}

// fsMutators names functions that create, change or remove files; the value is the index of
// the path argument (-1: never allowed).
var fsMutators = map[string]int{
	"os.Create": 0, "os.OpenFile": 0, "os.WriteFile": 0, "io/ioutil.WriteFile": 0, "os.Mkdir": 0, "os.MkdirAll": 0,
	"os.RemoveAll": 0, "os.Remove": 0,
	"os.Rename": -1, "os.Truncate": -1, "os.Link": -1, "os.Symlink": -1, "os.Chmod": -1, "os.Chown": -1, "os.Lchown": -1, "os.Chtimes": -1,
	"os.CreateTemp": -1, "os.MkdirTemp": -1, "io/ioutil.TempFile": -1, "io/ioutil.TempDir": -1, "os.CopyFS": -1, "os.OpenRoot": -1, "os.OpenInRoot": -1,
	"(*os.File).Chmod": -1, "(*os.File).Chown": -1, "(*os.File).Chdir": -1,
	"os.Setenv": -1, "os.Unsetenv": -1, "os.Clearenv": -1, "os.Chdir": -1, "os.StartProcess": -1, "os.FindProcess": -1, "os.NewFile": -1, "os.Pipe": -1,
}

// openWrite reports the meaning of os.OpenFile flags.
func openWrite(t *Term) (known, writes, creates bool) {
	v, ok := t.intVal()
	if !ok {
		return false, true, true
	}
	return true, v&(1|2|0x400|0x200|0x40) != 0, v&0x40 != 0
}

// pathParts splits a path term into directory term and the remaining pieces; ok is false when
// it is not a join or concatenation.
func (e *Engine) pathParts(st *State, t *Term) (dir *Term, rest []*Term) {
	t = strip(t)
	if t.is("call:path.Join") || t.is("call:path/filepath.Join") {
		dir = strip(t.args[0])
		for _, a := range t.args[1:] {
			rest = append(rest, e.pieces(st, a)...)
		}
		if d2, r2 := e.pathParts(st, dir); len(r2) > 0 {
			return d2, append(r2, rest...)
		}
		return
	}
	ps := e.pieces(st, t)
	if len(ps) > 1 {
		dir = ps[0]
		rest = ps[1:]
		if s, ok := rest[0].strVal(); ok && strings.HasPrefix(s, "/") {
			s = strings.TrimLeft(s, "/")
			if s == "" {
				rest = rest[1:]
			} else {
				rest = append([]*Term{e.in.Str(s)}, rest[1:]...)
			}
			if len(rest) == 0 {
				return t, nil
			}
			return
		}
		return t, nil
	}
	if len(ps) == 1 {
		return ps[0], nil
	}
	return t, nil
}

var outputNames = map[string]string{"Commands": "commands.txt", "Errors": "errors.txt", "Files": "files.txt", "Javascript": "javascript.js", "Raw": "raw.pdf", "Text": "contents.txt", "URLs": "urls.txt"}

// fsModel gives file system calls functional results so that they can be recognised later.
func fsModel(e *Engine) func(st *State, c *Call) *Term {
	return func(st *State, c *Call) *Term {
		var typ types.Type
		if v, ok := c.In.(ssa.Value); ok {
			typ = v.Type()
		}
		switch c.Name {
		case "os.Create", "os.Open", "os.Stat", "os.Lstat":
			return e.in.PureT(typ, "call:"+c.Name, c.Args[0])
		case "os.OpenFile":
			n := "call:os.Open"
			if known, w, _ := openWrite(c.Args[1]); !known || w {
				n = "call:os.Create"
			}
			return e.in.PureT(typ, n, c.Args[0])
		case "os.RemoveAll", "os.MkdirAll", "os.Mkdir", "os.WriteFile", "io/ioutil.WriteFile":
			return e.in.PureT(typ, "call:"+c.Name, c.Args[0])
		}
		return nil
	}
}

// fsRoots are the entry points from which all file system effects are analysed with their
// path terms.
func fsSites(p *Program, r *Report, visit func(e *Engine, st *State, c *Call, root string)) map[ssa.Instruction]bool {
	seen := map[ssa.Instruction]bool{}
	for _, rn := range []string{"NewOutput", "Output.DumpFile", "Parse", "main.main"} {
		var root *ssa.Function
		if rn == "main.main" {
			root = p.Main.Func("main")
		} else {
			root = p.Func(rn)
		}
		if root == nil {
			r.fail("anchor", rn, "-", "anchor "+rn+" not found", nil)
			continue
		}
		e := NewEngine(p)
		e.H.Model = fsModel(e)
		e.H.Call = func(st *State, c *Call) {
			if _, ok := fsMutators[c.Name]; ok || c.Name == "os.Open" {
				seen[c.In] = true
				visit(e, st, c, rn)
			}
		}
		e.Run(root, nil)
		r.finish(e, "file system effects of "+rn)
	}
	return seen
}

func init() {
	checks["C06"] = &Check{Rule: "every call that can create a file has the path directory-parameter/fixed name or Output.Directory/hex(md5(content)); Output.Directory is only ever the directory parameter; each output field holds the file of its own name", Run: runC06}
	checks["C07"] = &Check{Rule: "no reference to process, network, environment, unsafe or reflection facilities; every file system mutation is one whose path the analysis resolves to the output directory; the input is opened by os.Open and never converted to a writable interface", Run: runC07}
	checks["C08"] = &Check{Rule: "pdf.Parse is called only on paths where the output does not exist or -f was given; NewOutput is called only after the input was opened; only the directory parameter is removed", Run: runC08}
	checks["C09"] = &Check{Rule: "on every path to a return of the functions that open files or decompressors, each opened handle has been closed (typestate)", Run: runC09}
	checks["C20"] = &Check{Rule: "no call of a Read method that may return fewer bytes than asked on a stream reader; only full-read functions are used", Run: runC20}
	checks["C26"] = &Check{Rule: "on every path of Output.DumpFile the hash in the manifest line, the hash in the path and the data written derive from the same unmodified parameter; file specifications hand the EF/F stream and their F name to it", Run: runC26}
	checks["C30"] = &Check{Rule: "on every path, a nil result of NewOutput, Parse and Load implies every failing step on that path is known to have succeeded, and nothing is extracted before that", Run: runC30}
	checks["C31"] = &Check{Rule: "every range over a map has an order-insensitive body (keyed updates, or collection into a slice that is sorted before use); no time, randomness or environment is consulted", Run: runC31}
}

// directoryStores: every store to Output.Directory.
func directoryStores(p *Program, r *Report) {
	root := r.anchor(p, "NewOutput")
	if root == nil {
		return
	}
	ok := map[ssa.Instruction]bool{}
	e := NewEngine(p)
	e.H.Store = func(st *State, ctx *Ctx, in *ssa.Store, addr, val *Term) {
		if addr.is("faddr:Output.Directory") {
			if val == e.ParamTerm(0) {
				ok[in] = true
			} else {
				r.fail("directory", "Output.Directory", p.InstrPos(in), "Output.Directory is set to something other than the given directory", st.Path())
			}
		}
	}
	set := false
	e.H.Ret = func(st *State, ctx *Ctx, in *ssa.Return, res []*Term) {
		set = true
		if len(res) > 0 {
			if v := st.cells[e.in.Pure("faddr:Output.Directory", res[0])]; v != e.ParamTerm(0) && e.Eval(st, e.Cmp(token.EQL, res[len(res)-1], e.in.Nil())) != 0 {
				r.fail("directory", "NewOutput", p.InstrPos(in), "NewOutput can return an output whose Directory is not the given directory", st.Path())
			}
		}
	}
	e.Run(root, nil)
	r.finish(e, "Output.Directory")
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, k := in.(*ssa.Store); k && storeKey(s.Addr) == "field:Output.Directory" && !ok[s] {
					r.fail("directory", fnName(f), p.InstrPos(in), "Output.Directory is changed outside of NewOutput", nil)
				}
			}
		}
	}
	r.ob(set)
}

func runC06(p *Program, r *Report) {
	names := map[string]bool{}
	for _, n := range outputNames {
		names[n] = true
	}
	hashed := 0
	seen := fsSites(p, r, func(e *Engine, st *State, c *Call, root string) {
		if c.Name == "os.Open" || strings.HasPrefix(c.Name, "os.Remove") || c.Name == "os.OpenFile" && func() bool { k, w, _ := openWrite(c.Args[1]); return k && !w }() {
			return
		}
		dir, rest := e.pathParts(st, c.Args[0])
		where := fnName(c.Ctx.fn) + ": " + c.Name
		okDir := e.isOutputDir(st, dir)
		if !okDir {
			r.fail("path", where, p.InstrPos(c.In), "a file is created outside the output directory: path "+trunc(c.Args[0].String(), 120), st.Path())
			return
		}
		if len(rest) == 0 {
			if !strings.HasPrefix(c.Name, "os.Mkdir") {
				r.fail("path", where, p.InstrPos(c.In), "the output directory itself is written as a file", st.Path())
			}
			return
		}
		switch {
		case len(rest) == 1 && rest[0].cv != nil:
			s, _ := rest[0].strVal()
			if !names[s] {
				r.fail("name", where, p.InstrPos(c.In), fmt.Sprintf("a file %q is created that is not one of the seven output files", s), st.Path())
			}
		case len(rest) == 1 && rest[0].is("hex") && rest[0].args[0].is("md5"):
			hashed++
		default:
			r.fail("name", where, p.InstrPos(c.In), "a file name is neither fixed nor the hexadecimal MD5 of the content: "+trunc(c.Args[0].String(), 160), st.Path())
		}
	})
	// each field holds its own file
	root := r.anchor(p, "NewOutput")
	if root != nil {
		e := NewEngine(p)
		e.H.Model = fsModel(e)
		e.H.Ret = func(st *State, ctx *Ctx, in *ssa.Return, res []*Term) {
			if len(res) != 2 || e.Eval(st, e.Cmp(token.EQL, res[1], e.in.Nil())) == 0 {
				return
			}
			for f, n := range outputNames {
				v := st.cells[e.in.Pure("faddr:Output."+f, res[0])]
				good := false
				if v != nil && v.is("x:0") && v.args[0].is("call:os.Create") {
					_, rest := e.pathParts(st, v.args[0].args[0])
					if len(rest) == 1 {
						s, _ := rest[0].strVal()
						good = s == n
					}
				}
				if !good {
					r.fail("field", "Output."+f, p.InstrPos(in), "on success Output."+f+" is not the file "+n, st.Path())
				}
			}
		}
		e.Run(root, nil)
		r.finish(e, "output fields")
		r.ob(true)
	}
	directoryStores(p, r)
	r.Sites = len(seen)
	n := 0
	for _, x := range p.extRefs() {
		if i, ok := fsMutators[x.Name]; ok && i >= 0 {
			r.ob(seen[x.In])
			n++
			if !seen[x.In] {
				r.fail("coverage", fnName(x.Fn)+": "+x.Name, p.InstrPos(x.In), "a file creating call that is not reached from the output functions cannot be shown to stay inside the output directory", nil)
			}
		} else if ok {
			r.fail("effect", fnName(x.Fn)+": "+x.Name, p.InstrPos(x.In), "use of "+x.Name+" can place or move files elsewhere", nil)
		}
	}
	r.need("file creating call sites", n, 4)
	r.need("hash named files", hashed, 1)
}

// isOutputDir: the term is the directory handed to NewOutput or Parse, or Output.Directory.
func (e *Engine) isOutputDir(st *State, t *Term) bool {
	root := fnName(e.root)
	switch {
	case t.kind == 'p' && (t.op == "NewOutput.0" || t.op == "Parse.2"):
		return true
	case root == "NewOutput" || root == "Parse" || root == "main.main":
		return false
	}
	for k, v := range st.cells {
		if v == t && k.is("faddr:Output.Directory") {
			return true
		}
	}
	return false
}

func runC07(p *Program, r *Report) {
	refs := p.extRefs()
	seen := fsSites(p, r, func(e *Engine, st *State, c *Call, root string) {
		where := fnName(c.Ctx.fn) + ": " + c.Name
		if c.Name == "os.Open" {
			if !(root == "Parse" && c.Args[0] == e.ParamTerm(0)) {
				r.fail("open", where, p.InstrPos(c.In), "a file other than the given input is opened: "+trunc(c.Args[0].String(), 100), st.Path())
			}
			return
		}
		if c.Name == "os.OpenFile" {
			if known, w, _ := openWrite(c.Args[1]); known && !w {
				if !(root == "Parse" && c.Args[0] == e.ParamTerm(0)) {
					r.fail("open", where, p.InstrPos(c.In), "a file other than the given input is opened", st.Path())
				}
				return
			}
		}
		dir, rest := e.pathParts(st, c.Args[0])
		if !e.isOutputDir(st, dir) {
			r.fail("path", where, p.InstrPos(c.In), "a path that is not the output directory or in it is modified: "+trunc(c.Args[0].String(), 120), st.Path())
		}
		for _, x := range rest {
			if s, ok := x.strVal(); ok && strings.Contains(s, "..") || !ok && !x.is("hex") {
				r.fail("path", where, p.InstrPos(c.In), "a path component is not fixed and may leave the output directory: "+trunc(x.String(), 120), st.Path())
			}
		}
	})
	for _, x := range refs {
		r.Obligations++
		bad := ""
		switch i, ok := fsMutators[x.Name]; {
		case deniedPkg(x.Pkg):
			bad = "package " + x.Pkg + " is used"
		case ok && i < 0:
			bad = x.Name + " is used"
		case ok && !seen[x.In]:
			bad = x.Name + " is used where its path cannot be shown to be in the output directory"
		case ok && x.Call == nil:
			bad = x.Name + " is used as a value"
		case (x.Name == "os.Open" || x.Name == "os.ReadFile" || x.Name == "io/ioutil.ReadFile" || x.Name == "os.ReadDir" || x.Name == "io/ioutil.ReadDir") && !seen[x.In]:
			bad = "a file is read with " + x.Name + " outside of opening the input"
		case strings.HasSuffix(x.Name, ".Truncate") && strings.Contains(x.Name, "os.File"):
			bad = "a file is truncated"
		}
		if bad != "" {
			r.fail("effect", fnName(x.Fn)+": "+x.Name, p.InstrPos(x.In), bad, nil)
		} else {
			r.Discharged++
		}
	}
	// imports with side effects (blank imports), cgo and linkname
	for _, pk := range p.Pkgs {
		for path := range pk.Imports {
			if deniedPkg(path) {
				r.fail("import", pk.PkgPath+" imports "+path, "-", "package "+path+" is imported", nil)
			}
		}
		for _, f := range pk.Syntax {
			for _, cg := range f.Comments {
				for _, c := range cg.List {
					if strings.HasPrefix(c.Text, "//go:linkname") {
						r.fail("import", "linkname", p.Pos(c.Pos()), "a go:linkname directive bypasses the analysed call graph", nil)
					}
				}
			}
		}
		if len(pk.OtherFiles) > 0 {
			r.fail("import", "assembly", "-", "the package contains files the analysis cannot see: "+strings.Join(pk.OtherFiles, " "), nil)
		}
	}
	// no conversion of a reader into something writable
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ta, ok := in.(*ssa.TypeAssert)
				if !ok {
					continue
				}
				ms := types.NewMethodSet(ta.AssertedType)
				for _, m := range []string{"Write", "WriteAt", "Truncate", "WriteString", "Chmod"} {
					if ms.Lookup(nil, m) != nil {
						if nt, ok := ta.X.Type().(*types.Named); ok && nt.Obj().Pkg() != nil && nt.Obj().Pkg().Path() == pdfPath {
							continue
						}
						r.fail("input", fnName(f)+": assertion to "+typeStr(ta.AssertedType), p.InstrPos(in), "a reader is converted to a writable type", nil)
						break
					}
				}
			}
		}
	}
	// the input file is handed on only as a reader and never written in Parse
	if root := r.anchor(p, "Parse"); root != nil {
		e := NewEngine(p)
		e.H.Model = fsModel(e)
		e.H.Call = func(st *State, c *Call) {
			for i, a := range c.Args {
				a = strip(a)
				if a.is("x:0") && a.args[0].is("call:os.Open") {
					m := shortName(c.Name)
					if strings.HasPrefix(c.Name, "(*os.File).") && (strings.HasPrefix(m, "Write") || m == "Truncate" || m == "Chmod" || m == "ReadFrom") {
						r.fail("input", "Parse: "+c.Name, p.InstrPos(c.In), "the input file is modified", st.Path())
					}
					if c.Name == "NewParser" && i == 1 {
						r.fail("input", "Parse: "+c.Name, p.InstrPos(c.In), "the input file is used as output", st.Path())
					}
					if w := e.asWrite(st, c); w != nil && strip(w.Dest) == a {
						r.fail("input", "Parse: "+c.Name, p.InstrPos(c.In), "the input file is written to", st.Path())
					}
				}
			}
		}
		e.Run(root, nil)
		r.finish(e, "input file")
		r.ob(true)
	}
	r.Sites = len(refs)
	r.need("external references", len(refs), 80)
}

// flagGlobals finds the package variables of main that hold command line flags.
func flagGlobals(p *Program) map[string]*ssa.Global {
	out := map[string]*ssa.Global{}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || c.Call.StaticCallee() == nil {
					continue
				}
				n := calleeName(c.Call.StaticCallee())
				idx := -1
				switch n {
				case "flag.Bool", "flag.String":
					idx = 0
				case "flag.BoolVar", "flag.StringVar":
					idx = 1
				default:
					continue
				}
				k, ok := c.Call.Args[idx].(*ssa.Const)
				if !ok || k.Value == nil {
					continue
				}
				name := constant.StringVal(k.Value)
				if idx == 1 {
					if g, ok := c.Call.Args[0].(*ssa.Global); ok {
						out[name] = g
					}
					continue
				}
				for _, u := range *c.Referrers() {
					if s, ok := u.(*ssa.Store); ok && s.Val == ssa.Value(c) {
						if g, ok := s.Addr.(*ssa.Global); ok {
							out[name] = g
						}
					}
				}
			}
		}
	}
	return out
}

// seedFlag makes the value of flag name a known term.
func (e *Engine) seedFlag(st *State, name string, g *ssa.Global, typ types.Type) *Term {
	v := e.in.Param("flag -"+name, typ)
	gt := e.in.mk("g|"+g.String(), func() *Term { return &Term{kind: 'g', op: g.String(), typ: g.Type(), glob: g} })
	if _, ok := g.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Pointer); ok {
		ptr := e.in.Param("flagptr -"+name, types.NewPointer(typ))
		st.cells[gt] = ptr
		st.cells[ptr] = v
	} else {
		st.cells[gt] = v
	}
	return v
}

func runC08(p *Program, r *Report) {
	mainFn := p.Main.Func("main")
	parse := r.anchor(p, "Parse")
	newOut := r.anchor(p, "NewOutput")
	if mainFn == nil || parse == nil || newOut == nil {
		r.fail("anchor", "main", "-", "main function not found", nil)
		return
	}
	fl := flagGlobals(p)
	if fl["f"] == nil || fl["p"] == nil {
		r.fail("anchor", "flags", "-", "the variables holding the -f and -p flags were not found", nil)
		return
	}
	calls := 0
	e := NewEngine(p)
	e.H.Model = fsModel(e)
	var force, password *Term
	e.H.Call = func(st *State, c *Call) {
		switch c.Name {
		case "os.Stat", "os.Lstat":
			if len(c.Args) == 1 {
				err := e.in.Pure("x:1", e.in.Pure("call:"+c.Name, c.Args[0]))
				e.Keep = appendTerm(e.Keep, err)
				e.Keep = appendTerm(e.Keep, e.in.PureT(types.Typ[types.Bool], "call:os.IsNotExist", err))
			}
		}
		if _, ok := fsMutators[c.Name]; ok {
			r.fail("command", "main: "+c.Name, p.InstrPos(c.In), "the command line program changes files itself", st.Path())
		}
		if c.Name == "NewOutput" {
			r.fail("command", "main: NewOutput", p.InstrPos(c.In), "the command line program sets up the output itself", st.Path())
		}
		if c.Name != "Parse" {
			return
		}
		calls++
		dir := c.Args[2]
		// some existence test of the directory must be known on this path
		s := st.clone()
		safe := !e.Assume(s, force, false)
		if !safe {
			for _, stat := range []string{"os.Stat", "os.Lstat"} {
				err := e.in.Pure("x:1", e.in.Pure("call:"+stat, dir))
				for _, t := range []*Term{e.in.Pure("call:os.IsNotExist", err)} {
					safe = safe || e.Eval(s, t) == 1
				}
				for g, f := range s.facts {
					if g.is("call:errors.Is") && g.args[0] == err && strings.Contains(g.args[1].String(), "ErrNotExist") && f.eq != nil {
						if b, ok := f.eq.boolVal(); ok && b {
							safe = true
						}
					}
				}
			}
		}
		if !safe {
			r.fail("overwrite", "main: Parse", p.InstrPos(c.In), "the output directory can be replaced although it may exist and -f was not given", st.Path())
		}
		if c.Args[0] == dir {
			r.fail("arguments", "main: Parse", p.InstrPos(c.In), "input and output are the same argument", st.Path())
		}
		want := []string{"0", "", "1"}
		for i, w := range want {
			if w == "" {
				if c.Args[i] != password {
					r.fail("arguments", "main: password", p.InstrPos(c.In), "the password handed to Parse is not the value of -p", st.Path())
				}
				continue
			}
			if !c.Args[i].is("call:flag.Arg") || c.Args[i].args[0] != e.in.Int(int64(w[0]-'0')) {
				r.fail("arguments", "main: argument "+w, p.InstrPos(c.In), "Parse is not given command line argument "+w, st.Path())
			}
		}
	}
	e.H.After = func(st *State, c *Call) {
		if c.Name == "errors.Is" && c.Result != nil {
			e.Keep = appendTerm(e.Keep, c.Result)
		}
	}
	e.Run(mainFn, func(st *State, ctx *Ctx) {
		force = e.seedFlag(st, "f", fl["f"], types.Typ[types.Bool])
		password = e.seedFlag(st, "p", fl["p"], types.Typ[types.String])
		e.Keep = append(e.Keep, force)
	})
	r.finish(e, "main")
	r.need("calls of Parse", calls, 1)
	r.ob(true)
	// default of -f is false
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok && c.Call.StaticCallee() != nil {
					n := calleeName(c.Call.StaticCallee())
					i := 1
					if n == "flag.BoolVar" {
						i = 2
					} else if n != "flag.Bool" {
						continue
					}
					if k, ok := c.Call.Args[i-1].(*ssa.Const); ok && constant.StringVal(k.Value) == "f" {
						d, ok := c.Call.Args[i].(*ssa.Const)
						good := ok && !constant.BoolVal(d.Value)
						r.ob(good)
						if !good {
							r.fail("overwrite", "-f default", p.InstrPos(in), "-f does not default to false", nil)
						}
					}
				}
			}
		}
	}
	// stores to the flag variables other than from the flag package
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if s.Addr == ssa.Value(fl["f"]) {
						if c, ok := s.Val.(*ssa.Call); !ok || calleeName(c.Call.StaticCallee()) != "flag.Bool" {
							r.fail("overwrite", fnName(f), p.InstrPos(in), "the overwrite flag is changed by the program", nil)
						}
					}
					if u, ok := s.Addr.(*ssa.UnOp); ok && u.X == ssa.Value(fl["f"]) {
						r.fail("overwrite", fnName(f), p.InstrPos(in), "the overwrite flag is changed by the program", nil)
					}
				}
			}
		}
	}
	// Parse: the input is open before the output is set up
	outs := 0
	e = NewEngine(p)
	e.H.Model = fsModel(e)
	e.H.Call = func(st *State, c *Call) {
		_, mut := fsMutators[c.Name]
		if c.Name != "NewOutput" && !mut {
			return
		}
		if mut && c.Name == "os.OpenFile" {
			if k, w, _ := openWrite(c.Args[1]); k && !w {
				return
			}
		}
		outs++
		open := e.in.Pure("call:os.Open", e.ParamTerm(0))
		err := e.in.Pure("x:1", open)
		if e.Eval(st, e.Cmp(token.EQL, err, e.in.Nil())) != 1 {
			r.fail("order", "Parse: "+c.Name, p.InstrPos(c.In), "the output directory is replaced before the input file is known to be open", st.Path())
		}
		if c.Name == "NewOutput" && c.Args[0] != e.ParamTerm(2) {
			r.fail("order", "Parse: NewOutput", p.InstrPos(c.In), "NewOutput is not given the output directory argument", st.Path())
		}
		if c.Name == "os.Remove" || c.Name == "os.RemoveAll" {
			r.fail("remove", "Parse: "+c.Name, p.InstrPos(c.In), "Parse removes files itself", st.Path())
		}
	}
	e.Run(parse, func(st *State, ctx *Ctx) {
		open := e.in.Pure("call:os.Open", e.ParamTerm(0))
		e.Keep = append(e.Keep, e.Cmp(token.EQL, e.in.Pure("x:1", open), e.in.Nil()))
	})
	r.finish(e, "Parse")
	r.ob(outs > 0)
	r.need("output set-up sites in Parse", outs, 1)
	// removal
	rem := 0
	seen := fsSites(p, r, func(e *Engine, st *State, c *Call, root string) {
		if c.Name != "os.RemoveAll" && c.Name != "os.Remove" {
			return
		}
		rem++
		if root != "NewOutput" || c.Args[0] != e.ParamTerm(0) {
			r.fail("remove", fnName(c.Ctx.fn)+": "+c.Name, p.InstrPos(c.In), "a path other than the given output directory is removed: "+trunc(c.Args[0].String(), 120), st.Path())
		}
	})
	for _, x := range p.extRefs() {
		if x.Name == "os.RemoveAll" || x.Name == "os.Remove" || x.Name == "os.Rename" {
			ok := seen[x.In] && x.Call != nil
			r.ob(ok)
			if !ok {
				r.fail("remove", fnName(x.Fn)+": "+x.Name, p.InstrPos(x.In), "a removal whose path cannot be resolved", nil)
			}
		}
		if x.Name == "(*os.File).Truncate" || x.Name == "os.Truncate" {
			r.fail("remove", fnName(x.Fn)+": "+x.Name, p.InstrPos(x.In), "a file is truncated", nil)
		}
	}
	// callers of NewOutput: only Parse
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == newOut {
					r.Sites++
				}
			}
		}
	}
}

// ------------------------------------------------------------ C09

var openers = map[string]bool{
	"os.Open": true, "os.Create": true, "os.OpenFile": true, "compress/zlib.NewReader": true, "compress/lzw.NewReader": true, "compress/flate.NewReader": true,
	"golang.org/x/image/tiff/lzw.NewReader": true, "compress/zlib.NewReaderDict": true, "compress/gzip.NewReader": true, "compress/flate.NewReaderDict": true,
}

func runC09(p *Program, r *Report) {
	covered := map[ssa.Instruction]bool{}
	for _, rn := range []string{"Parse", "FlateDecode", "LZWDecode"} {
		root := r.anchor(p, rn)
		if root == nil {
			continue
		}
		e := NewEngine(p)
		e.MaxStates = 200000
		base := e.Opaque
		e.Opaque = func(f *ssa.Function) bool {
			n := calleeName(f)
			return base(f) && n != "NewOutput" && n != "Output.Close"
		}
		fs := fsModel(e)
		e.H.Model = func(st *State, c *Call) *Term {
			if c.Name == "os.Open" || c.Name == "os.Create" {
				return fs(st, c)
			}
			return nil
		}
		opened := map[string]bool{}
		errOf := func(h *Term) *Term { return e.Cmp(token.EQL, e.in.PureT(nil, "x:1", h), e.in.Nil()) }
		handle := func(h *Term) *Term { return e.in.PureT(nil, "x:0", h) }
		e.H.After = func(st *State, c *Call) {
			if openers[c.Name] && !c.Inlined {
				covered[c.In] = true
				id := p.InstrPos(c.In) + " " + c.Name
				st.pins["h:"+id] = c.Result
				opened[id] = true
			}
			// a close
			if strings.HasSuffix(c.Name, ".Close") && len(c.Args) > 0 {
				a := strip(c.Args[0])
				for k, h := range st.pins {
					if a == h || a.hasOp("x:0") && a.args[0] == h {
						delete(st.pins, k)
					}
				}
			}
		}
		e.H.Branch = func(st *State, ctx *Ctx, in *ssa.If, cond *Term, taken bool) {
			for k, h := range st.pins {
				if strings.HasPrefix(k, "h:") && (e.Eval(st, errOf(h)) == 0 || e.Eval(st, e.Cmp(token.EQL, handle(h), e.in.Nil())) == 1) {
					delete(st.pins, k) // opening failed: nothing to close
				}
			}
		}
		exits := 0
		e.H.Ret = func(st *State, ctx *Ctx, in *ssa.Return, res []*Term) {
			exits++
			for k, h := range st.pins {
				if !strings.HasPrefix(k, "h:") || e.Eval(st, errOf(h)) == 0 {
					continue
				}
				r.fail("close", rn+": "+k[strings.IndexByte(k, ' ')+1:]+e.handleName(h), p.InstrPos(in), "a handle opened at "+k[2:]+" is not closed when "+rn+" returns", st.Path())
			}
		}
		e.H.Panic = func(st *State, ctx *Ctx, in *ssa.Panic) {
			if len(st.pins) > 0 {
				r.fail("close", rn+": panic", p.InstrPos(in), "a panic leaves a handle open", st.Path())
			}
		}
		e.Run(root, nil)
		r.finish(e, "close "+rn)
		for range opened {
			r.ob(true)
		}
		r.sample("%s: %d handles followed to %d abstract exits", rn, len(opened), exits)
		if exits == 0 {
			r.fail("close", rn, "-", "no exit reached", nil)
		}
	}
	n := 0
	for _, x := range p.extRefs() {
		if openers[x.Name] {
			n++
			ok := covered[x.In] && x.Call != nil
			r.ob(ok)
			if !ok {
				r.fail("coverage", fnName(x.Fn)+": "+x.Name, p.InstrPos(x.In), "a handle is opened outside the analysed operations", nil)
			}
		}
	}
	r.Sites = n
	r.need("opening call sites", n, 5)
}

func (e *Engine) handleName(h *Term) string {
	if h.is("call:os.Create") || h.is("call:os.Open") {
		return " " + trunc(h.args[0].String(), 80)
	}
	return ""
}

// ------------------------------------------------------------ C20

func runC20(p *Program, r *Report) {
	n := 0
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				com := c.Common()
				name := commonName(com)
				m := shortName(name)
				var sig *types.Signature
				recv := types.Type(nil)
				if com.IsInvoke() {
					sig = com.Method.Type().(*types.Signature)
					recv = com.Value.Type()
				} else if s := com.StaticCallee(); s != nil {
					sig = s.Signature
					if s.Signature.Recv() != nil {
						recv = s.Signature.Recv().Type()
					}
				}
				if sig == nil {
					continue
				}
				bad := ""
				switch {
				case m == "Read" && recv != nil && sig.Params().Len() == 1 && typeStr(sig.Params().At(0).Type()) == "[]byte":
					n++
					switch typeStr(recv) {
					case "*bytes.Reader", "*strings.Reader", "*bytes.Buffer":
					default:
						bad = "a single Read may return fewer bytes than asked, depending on how the input is chunked"
					}
				case name == "io.ReadAtLeast":
					n++
					if len(com.Args) == 3 {
						lenOf, ok := com.Args[2].(*ssa.Call)
						if !(ok && commonName(&lenOf.Call) == "builtin len" && lenOf.Call.Args[0] == com.Args[1]) {
							bad = "ReadAtLeast may stop before the buffer is full"
						}
					}
				case name == "(*bufio.Reader).ReadLine", name == "(*bufio.Reader).ReadSlice":
					n++
					bad = "the result depends on the size of the read buffer"
				case name == "(*bufio.Reader).Buffered":
					n++
					bad = usesBufferedOnlyForOffset(c)
				case name == "(*bufio.Reader).Peek", name == "(*bufio.Reader).Discard", name == "io.ReadFull", name == "io.ReadAll", name == "io.Copy", strings.HasSuffix(name, ".ReadFrom"), name == "(*bufio.Reader).ReadByte", name == "(*bufio.Reader).UnreadByte", name == "(*bufio.Reader).ReadRune", strings.HasSuffix(name, ".FindReaderIndex"):
					n++
					if m == "Peek" {
						// peeking more than the buffer holds fails differently at different positions
						k, ok := com.Args[1].(*ssa.Const)
						if !ok || k.Int64() > 16 {
							bad = "Peek of an amount that is not a small constant can exceed the read buffer"
						}
					}
				case name == "bufio.NewReaderSize":
					n++
				}
				if m == "Read" || strings.Contains(name, "bufio") || strings.HasPrefix(name, "io.") {
					r.ob(bad == "")
				}
				if bad != "" {
					r.fail("chunking", fnName(f)+": "+name, p.InstrPos(in), bad, nil)
				}
				r.Functions[fnName(f)] = true
			}
		}
	}
	// the byte count of a full read is the only one used; a ReadFull result must be checked
	// (count or error) whenever the buffer it filled decides anything
	r.Sites = n
	r.need("read operations", n, 40)
}

// usesBufferedOnlyForOffset: the amount buffered may only be subtracted from the offset of the
// underlying reader.
func usesBufferedOnlyForOffset(c ssa.CallInstruction) string {
	v, ok := c.(ssa.Value)
	if !ok {
		return ""
	}
	bad := "the amount buffered is used for something other than computing the current offset"
	work := []ssa.Value{v}
	seen := map[ssa.Value]bool{}
	for len(work) > 0 {
		x := work[0]
		work = work[1:]
		if seen[x] {
			continue
		}
		seen[x] = true
		for _, u := range *x.Referrers() {
			switch y := u.(type) {
			case *ssa.Convert:
				work = append(work, y)
			case *ssa.ChangeType:
				work = append(work, y)
			case *ssa.BinOp:
				if y.Op == token.SUB && y.Y == x && !isConstVal(y.X) {
					continue
				}
				return bad
			case *ssa.UnOp:
				if y.Op == token.SUB {
					for _, uu := range *y.Referrers() {
						if bo, ok := uu.(*ssa.BinOp); !ok || bo.Op != token.ADD {
							return bad
						}
					}
					continue
				}
				return bad
			case *ssa.DebugRef, *ssa.Return:
			case *ssa.Store, *ssa.Phi:
				return bad
			case ssa.CallInstruction:
				return bad
			default:
				return bad
			}
		}
	}
	return ""
}

func isConstVal(v ssa.Value) bool { _, ok := v.(*ssa.Const); return ok }

// ------------------------------------------------------------ C26

func runC26(p *Program, r *Report) {
	root := r.anchor(p, "Output.DumpFile")
	file := r.anchor(p, "File.Extract")
	if root == nil || file == nil {
		return
	}
	e := NewEngine(p)
	e.H.Model = fsModel(e)
	var sum *Term
	writes, lines := 0, 0
	isWrite := func(n string) bool { return n == "io/ioutil.WriteFile" || n == "os.WriteFile" }
	e.H.Store = func(st *State, ctx *Ctx, in *ssa.Store, addr, val *Term) {
		if addr.is("iaddr") && root2(addr) == e.ParamTerm(2) {
			r.fail("data", "Output.DumpFile", p.InstrPos(in), "the data is modified while it is being dumped", st.Path())
		}
	}
	e.H.Call = func(st *State, c *Call) {
		if isWrite(c.Name) {
			writes++
			if st.flags["written"] != "" {
				r.fail("write", "Output.DumpFile", p.InstrPos(c.In), "the data is written twice", st.Path())
			}
			st.flags["written"] = "1"
			if strip(e.Content(st, c.Args[1])) != strip(e.in.Pure("bytesof", e.ParamTerm(2))) {
				r.fail("data", "Output.DumpFile: write", p.InstrPos(c.In), "the file does not get exactly the given data but "+trunc(e.Content(st, c.Args[1]).String(), 100), st.Path())
			}
			dir, rest := e.pathParts(st, c.Args[0])
			if !e.isOutputDir(st, dir) || len(rest) != 1 || rest[0] != sum {
				r.fail("name", "Output.DumpFile: write", p.InstrPos(c.In), "the file is not named by the MD5 of its data: "+trunc(c.Args[0].String(), 160), st.Path())
			}
			return
		}
		if w := e.asWrite(st, c); w != nil {
			f := e.outputField(st, w.Dest)
			if f == "" {
				return
			}
			lines++
			if f != "Files" {
				r.fail("manifest", "Output.DumpFile: "+f, p.InstrPos(c.In), "a dumped file is recorded in "+f, st.Path())
				return
			}
			st.flags["listed"] += "x"
			var got []string
			for _, d := range mergeLits(e, w.Data) {
				d = strip(d)
				switch {
				case d == sum:
					got = append(got, "SUM")
				case d == e.ParamTerm(1):
					got = append(got, "NAME")
				case d.cv != nil:
					s, _ := d.strVal()
					got = append(got, fmt.Sprintf("%q", s))
				default:
					got = append(got, trunc(d.String(), 60))
				}
			}
			line := strings.Join(got, " ")
			if c.Name == "fmt.Fprintln" {
				line += ` "\n"`
			}
			if line != `SUM ":" NAME "\n"` {
				r.fail("manifest", "Output.DumpFile: line", p.InstrPos(c.In), "the manifest line is not hash:name but "+line, st.Path())
			}
		}
	}
	exits := 0
	e.H.Ret = func(st *State, ctx *Ctx, in *ssa.Return, res []*Term) {
		exits++
		if st.flags["written"] == "" {
			r.fail("write", "Output.DumpFile", p.InstrPos(in), "DumpFile can return without writing the data", st.Path())
		}
		if st.flags["listed"] != "x" {
			r.fail("manifest", "Output.DumpFile", p.InstrPos(in), "DumpFile can return without exactly one manifest line", st.Path())
		}
	}
	e.Run(root, func(st *State, ctx *Ctx) {
		sum = e.in.Pure("hex", e.in.Pure("md5", e.in.Pure("bytesof", e.ParamTerm(2))))
	})
	r.finish(e, "DumpFile")
	r.ob(exits > 0)
	r.Sites = writes + lines
	r.need("dump write sites", writes, 1)
	r.need("manifest write sites", lines, 1)
	// file specifications
	d := func(e *Engine) *Term { return e.ParamTerm(0) }
	runReq(p, r, file, nil, nil, func(e *Engine) *Req {
		fs, ef, f := e.get(d(e), "GetString", "FS"), e.get(d(e), "GetDictionary", "EF"), e.get(d(e), "GetString", "F")
		data := e.get(e.valOf(ef), "GetStream", "F")
		return &Req{Name: "embedded file", Msg: "an embedded file can be passed over without being dumped under its own name with its own data",
			Conds: []Cond{{e.Cmp(token.EQL, e.valOf(fs), e.in.Str("URL")), false}, {e.okOf(ef), true}, {e.okOf(f), true}},
			Done: func(st *State, c *Call) bool {
				return c.Name == "Output.DumpFile" && strip(c.Args[1]) == e.valOf(f) && strip(c.Args[2]) == e.valOf(data)
			}}
	})
	runReq(p, r, file, nil, nil, func(e *Engine) *Req {
		fs, ef, f := e.get(d(e), "GetString", "FS"), e.get(d(e), "GetDictionary", "EF"), e.get(d(e), "GetString", "F")
		data := e.get(e.valOf(ef), "GetStream", "F")
		return &Req{Name: "unnamed embedded file", Msg: "an embedded file without a name can be passed over without being dumped",
			Conds: []Cond{{e.Cmp(token.EQL, e.valOf(fs), e.in.Str("URL")), false}, {e.okOf(ef), true}, {e.okOf(f), false}},
			Done: func(st *State, c *Call) bool {
				return c.Name == "Output.DumpFile" && strip(c.Args[1]) == e.in.Str(strings.Repeat("0", 32)) && strip(c.Args[2]) == e.valOf(data)
			}}
	})
}

func root2(addr *Term) *Term { return root(addr.args[0]) }

func mergeLits(e *Engine, ps []*Term) []*Term {
	var out []*Term
	for _, x := range ps {
		if s, ok := x.strVal(); ok && len(out) > 0 {
			if s0, ok := out[len(out)-1].strVal(); ok {
				out[len(out)-1] = e.in.Str(s0 + s)
				continue
			}
		}
		out = append(out, x)
	}
	return out
}

// ------------------------------------------------------------ C30

func runC30(p *Program, r *Report) {
	newOut, parse, load := r.anchor(p, "NewOutput"), r.anchor(p, "Parse"), r.anchor(p, "Parser.Load")
	mainFn := p.Main.Func("main")
	if newOut == nil || parse == nil || load == nil || mainFn == nil {
		return
	}
	nilErr := func(e *Engine, h *Term) *Term { return e.Cmp(token.EQL, e.in.Pure("x:1", h), e.in.Nil()) }
	// NewOutput
	e := NewEngine(p)
	fs := fsModel(e)
	e.H.Model = func(st *State, c *Call) *Term {
		if c.Name == "os.Create" || c.Name == "os.OpenFile" {
			return fs(st, c)
		}
		return nil
	}
	e.H.After = func(st *State, c *Call) {
		if c.Name == "os.Create" || c.Name == "os.OpenFile" {
			_, rest := e.pathParts(st, c.Args[0])
			if len(rest) == 1 {
				s, _ := rest[0].strVal()
				st.pins["create "+s] = c.Result
				e.Keep = append(e.Keep, nilErr(e, c.Result))
			}
		}
	}
	okExits := 0
	e.H.Ret = func(st *State, ctx *Ctx, in *ssa.Return, res []*Term) {
		s := st.clone()
		if !e.Assume(s, e.Cmp(token.EQL, res[1], e.in.Nil()), true) {
			return
		}
		okExits++
		for _, n := range outputNames {
			h := s.pins["create "+n]
			if h == nil {
				r.fail("setup", "NewOutput: "+n, p.InstrPos(in), "NewOutput can report success without creating "+n, st.Path())
			} else if e.Eval(s, nilErr(e, h)) != 1 {
				r.fail("setup", "NewOutput: "+n, p.InstrPos(in), "NewOutput can report success although creating "+n+" failed", st.Path())
			}
		}
	}
	e.Run(newOut, nil)
	r.finish(e, "NewOutput")
	r.ob(okExits > 0)
	r.need("successful exits of NewOutput", okExits, 1)

	// Parse
	e = NewEngine(p)
	fs = fsModel(e)
	var open, out, ld *Term
	e.H.Model = func(st *State, c *Call) *Term {
		switch c.Name {
		case "os.Open", "os.OpenFile":
			return fs(st, c)
		case "NewOutput":
			return e.in.PureT(c.In.(ssa.Value).Type(), "call:NewOutput", c.Args...)
		case "Parser.Load":
			st.flags["load"] = "1"
			return ld
		}
		return nil
	}
	ready := func(st *State) bool {
		return e.Eval(st, nilErr(e, open)) == 1 && e.Eval(st, nilErr(e, out)) == 1 && e.Eval(st, e.Cmp(token.EQL, ld, e.in.Nil())) == 1 && st.flags["load"] == "1"
	}
	extracts := 0
	e.H.Call = func(st *State, c *Call) {
		switch c.Name {
		case "Parser.GetObject", "IndirectObject.Extract", "Page.Extract", "Action.Extract", "File.Extract":
			extracts++
			if !ready(st) {
				r.fail("extract", "Parse: "+c.Name, p.InstrPos(c.In), "objects are extracted although opening, output set-up or unlocking may have failed", st.Path())
			}
		case "Parser.Load":
			if c.Args[1] != e.ParamTerm(1) {
				r.fail("password", "Parse: Load", p.InstrPos(c.In), "Load is not given the password handed to Parse", st.Path())
			}
			if e.Eval(st, nilErr(e, open)) != 1 || e.Eval(st, nilErr(e, out)) != 1 {
				r.fail("order", "Parse: Load", p.InstrPos(c.In), "the document is loaded although opening it or setting up the output may have failed", st.Path())
			}
		}
	}
	exits := 0
	e.H.Ret = func(st *State, ctx *Ctx, in *ssa.Return, res []*Term) {
		exits++
		isNil := e.Cmp(token.EQL, res[0], e.in.Nil())
		s := st.clone()
		if e.Assume(s, isNil, true) && !ready(s) {
			r.fail("result", "Parse", p.InstrPos(in), "Parse can return nil although opening the input, setting up the output or unlocking the document failed", st.Path())
		}
		s = st.clone()
		if e.Assume(s, isNil, false) && ready(s) {
			r.fail("result", "Parse success", p.InstrPos(in), "Parse can return an error although every step succeeded", st.Path())
		}
	}
	e.Run(parse, func(st *State, ctx *Ctx) {
		open = e.in.Pure("call:os.Open", e.ParamTerm(0))
		out = e.in.Pure("call:NewOutput", e.ParamTerm(2))
		ld = e.in.Param("load error", types.Universe.Lookup("error").Type())
		for _, t := range []*Term{nilErr(e, open), nilErr(e, out), e.Cmp(token.EQL, ld, e.in.Nil())} {
			e.Keep = append(e.Keep, t)
		}
	})
	r.finish(e, "Parse")
	r.ob(exits > 0)
	r.need("extraction sites in Parse", extracts, 1)

	// Load / SetPassword
	e = NewEngine(p)
	base := e.Opaque
	e.Opaque = func(f *ssa.Function) bool { return base(f) && calleeName(f) != "Parser.SetPassword" }
	inits := 0
	e.H.After = func(st *State, c *Call) {
		if c.Name == "SecurityHandler.Init" {
			inits++
			st.pins["init"] = c.Result
			e.Keep = appendTerm(e.Keep, e.Cmp(token.EQL, c.Result, e.in.Nil()))
		}
	}
	exits = 0
	e.H.Ret = func(st *State, ctx *Ctx, in *ssa.Return, res []*Term) {
		exits++
		isNil := e.Cmp(token.EQL, res[0], e.in.Nil())
		s := st.clone()
		if h := st.pins["init"]; h != nil {
			if e.Assume(s, isNil, true) && e.Eval(s, e.Cmp(token.EQL, h, e.in.Nil())) != 1 {
				r.fail("result", "Parser.Load", p.InstrPos(in), "Load can return nil although unlocking the document failed", st.Path())
			}
			s = st.clone()
			if e.Assume(s, isNil, false) && e.Eval(s, e.Cmp(token.EQL, h, e.in.Nil())) == 1 {
				r.fail("result", "Parser.Load success", p.InstrPos(in), "Load can return an error although unlocking succeeded", st.Path())
			}
		} else if e.Assume(s, isNil, false) {
			r.fail("result", "Parser.Load unencrypted", p.InstrPos(in), "Load can return an error that does not come from unlocking the document", st.Path())
		}
	}
	e.Run(load, nil)
	r.finish(e, "Load")
	r.ob(exits > 0)
	r.need("unlock sites in Load", inits, 1)

	// main prints the error
	runReqNamed(p, r, mainFn, func(e *Engine, st *State, ctx *Ctx) {
		perr := e.in.Param("parse error", types.Universe.Lookup("error").Type())
		e.H.Model = func(st *State, c *Call) *Term {
			switch c.Name {
			case "Parse":
				st.flags["parsed"] = "1"
				return perr
			case "iface error.Error":
				return e.in.PureT(types.Typ[types.String], "errtext", c.Args[0])
			}
			return nil
		}
	}, func(e *Engine) *Req {
		perr := e.in.Param("parse error", types.Universe.Lookup("error").Type())
		return &Req{Name: "error message", Msg: "an error returned by Parse is not printed to standard error",
			Conds: []Cond{{e.Cmp(token.EQL, perr, e.in.Nil()), false}},
			Done: func(st *State, c *Call) bool {
				if c.Name == "log.Fatal" || c.Name == "log.Println" || c.Name == "log.Fatalln" || c.Name == "log.Printf" || c.Name == "log.Print" {
					return true
				}
				w := e.asWrite(st, c)
				if w == nil || !strings.Contains(w.Dest.String(), "os.Stderr") {
					return false
				}
				for _, d := range w.Data {
					d = strip(d)
					if d == perr || d.is("errtext") && d.args[0] == perr {
						return true
					}
				}
				return false
			}}
	}, "parsed")
}

func appendTerm(l []*Term, t *Term) []*Term {
	if contains(l, t) {
		return l
	}
	return append(l, t)
}

// runReqNamed is runReq with a flag that must have been set for the requirement to apply.
func runReqNamed(p *Program, r *Report, root *ssa.Function, init func(e *Engine, st *State, ctx *Ctx), mk func(e *Engine) *Req, flag string) {
	runReq(p, r, root, nil, init, func(e *Engine) *Req {
		q := mk(e)
		q.Flag = flag
		return q
	})
}

// ------------------------------------------------------------ C31

func runC31(p *Program, r *Report) {
	ranges := 0
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				rg, ok := in.(*ssa.Range)
				if !ok {
					continue
				}
				if _, isMap := rg.X.Type().Underlying().(*types.Map); !isMap {
					continue
				}
				ranges++
				bad := p.orderSensitive(f, rg)
				r.ob(bad == "")
				r.Functions[fnName(f)] = true
				if bad != "" {
					r.fail("map order", fnName(f)+": range over "+typeStr(rg.X.Type()), p.InstrPos(in), "the iteration order of a map can influence the result: "+bad, nil)
				}
			}
		}
	}
	refs := p.extRefs()
	for _, x := range refs {
		r.Obligations++
		bad := ""
		switch {
		case x.Pkg == "time", x.Pkg == "math/rand", x.Pkg == "math/rand/v2", x.Pkg == "crypto/rand", x.Pkg == "hash/maphash", x.Pkg == "os/user":
			bad = "package " + x.Pkg + " is used"
		case x.Name == "os.Getenv", x.Name == "os.LookupEnv", x.Name == "os.Environ", x.Name == "os.Getpid", x.Name == "os.Hostname", x.Name == "os.Getwd", x.Name == "os.ExpandEnv", x.Name == "os.TempDir", x.Name == "os.Getuid", x.Name == "os.Getppid":
			bad = x.Name + " is used"
		case x.Pkg == "maps" && (strings.HasSuffix(x.Name, ".Keys") || strings.HasSuffix(x.Name, ".Values") || strings.HasSuffix(x.Name, ".All")):
			if !p.sortedAtOnce(x) {
				bad = "map keys are taken in map order"
			}
		case x.Pkg == "runtime" || strings.HasPrefix(x.Pkg, "runtime/"):
			bad = "package " + x.Pkg + " is used"
		case x.Name == "(reflect.Value).MapKeys", x.Name == "(reflect.Value).MapRange":
			bad = x.Name + " is used"
		}
		// pointer formatting
		if x.Call != nil && strings.HasPrefix(x.Name, "fmt.") {
			for _, a := range x.Call.Common().Args {
				if k, ok := a.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && strings.Contains(constant.StringVal(k.Value), "%p") {
					bad = "a pointer is printed"
				}
			}
		}
		if bad != "" {
			r.fail("environment", fnName(x.Fn)+": "+x.Name, p.InstrPos(x.In), "the output can depend on more than the document: "+bad, nil)
		} else {
			r.Discharged++
		}
	}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in.(type) {
				case *ssa.Go, *ssa.Select:
					r.fail("concurrency", fnName(f), p.InstrPos(in), "concurrent execution makes the order of the output unpredictable", nil)
				}
			}
		}
	}
	r.Sites = ranges
	r.need("ranges over maps", ranges, 4)
}

// sortedAtOnce: the iterator goes directly into slices.Sorted.
func (p *Program) sortedAtOnce(x extRef) bool {
	if x.Call == nil {
		return false
	}
	v, ok := x.Call.(ssa.Value)
	if !ok {
		return false
	}
	for _, u := range *v.Referrers() {
		c, ok := u.(*ssa.Call)
		if !ok {
			if _, ok := u.(*ssa.DebugRef); ok {
				continue
			}
			return false
		}
		if f := c.Call.StaticCallee(); f == nil || !strings.HasPrefix(calleeName(f), "slices.Sorted") {
			return false
		}
	}
	return true
}

// orderSensitive explains why the body of a map range depends on the order ("" if it does not).
func (p *Program) orderSensitive(f *ssa.Function, rg *ssa.Range) string {
	var next *ssa.Next
	for _, u := range *rg.Referrers() {
		if n, ok := u.(*ssa.Next); ok {
			next = n
		}
	}
	if next == nil {
		return ""
	}
	l := p.Loops(f).ByHeader[next.Block()]
	if l == nil {
		return "" // at most one iteration is observable only when the body always leaves
	}
	// values tied to the range key: the key itself and conversions
	isKey := func(v ssa.Value) bool {
		for {
			switch x := v.(type) {
			case *ssa.Convert:
				v = x.X
			case *ssa.ChangeType:
				v = x.X
			case *ssa.Extract:
				return x.Tuple == ssa.Value(next) && x.Index == 1
			default:
				return false
			}
		}
	}
	// values that differ per key: derived from the key's value or looked up by the key
	var perKey func(v ssa.Value, seen map[ssa.Value]bool) bool
	perKey = func(v ssa.Value, seen map[ssa.Value]bool) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Extract:
			if x.Tuple == ssa.Value(next) {
				return true
			}
			return perKey(x.Tuple, seen)
		case *ssa.Lookup:
			return isKey(x.Index)
		case *ssa.FieldAddr:
			return perKey(x.X, seen)
		case *ssa.TypeAssert:
			return perKey(x.X, seen)
		case *ssa.UnOp:
			return perKey(x.X, seen)
		case *ssa.ChangeType:
			return perKey(x.X, seen)
		case *ssa.Alloc:
			return l.Body[x.Block()]
		}
		return false
	}
	// leaving the loop early picks an arbitrary element
	for b := range l.Body {
		for _, s := range b.Succs {
			if !l.Body[s] && b != l.Header {
				// leaving with nothing derived from the element is still order dependent when
				// the body has effects; be strict
				return "the loop can be left after an arbitrary element at " + p.InstrPos(b.Instrs[len(b.Instrs)-1])
			}
		}
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			return "the function returns after an arbitrary element"
		}
	}
	// values carried from one iteration to the next
	for _, in := range l.Header.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, pr := range phi.Block().Preds {
			if !l.Body[pr] {
				continue
			}
			if why := p.carried(l, phi, phi.Edges[i]); why != "" {
				return why
			}
		}
	}
	for b := range l.Body {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if a, ok := x.Addr.(*ssa.Alloc); ok && !l.Body[a.Block()] {
					if !p.appendSortedCell(l, a, x) {
						return "a variable outside the loop is assigned at " + p.InstrPos(in)
					}
					continue
				}
				if !perKey(x.Addr, map[ssa.Value]bool{}) && !localAlloc(x.Addr, l) {
					if p.appendSortedStore(l, x) {
						continue
					}
					return "memory shared between iterations is written at " + p.InstrPos(in)
				}
			case *ssa.MapUpdate:
				if !isKey(x.Key) && !localAlloc(x.Map, l) {
					return "a map is updated under something other than the range key at " + p.InstrPos(in)
				}
			case ssa.CallInstruction:
				if why := p.callOrder(f, l, x, isKey); why != "" {
					return why
				}
			case *ssa.Send, *ssa.Go, *ssa.Defer:
				return "an effect at " + p.InstrPos(in)
			}
		}
	}
	return ""
}

func localAlloc(v ssa.Value, l *Loop) bool {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.Alloc:
			return l.Body[x.Block()]
		case *ssa.MakeSlice:
			return l.Body[x.Block()]
		case *ssa.MakeMap:
			return l.Body[x.Block()]
		default:
			return false
		}
	}
}

// carried decides whether a value carried around a map range loop may depend on the order.
func (p *Program) carried(l *Loop, phi *ssa.Phi, v ssa.Value) string {
	seen := map[ssa.Value]bool{}
	var ok func(v ssa.Value) bool
	ok = func(v ssa.Value) bool {
		if v == ssa.Value(phi) || seen[v] {
			return true
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			if !l.Body[x.Block()] {
				return true
			}
			for _, e := range x.Edges {
				if !ok(e) {
					return false
				}
			}
			return true
		case *ssa.Call:
			if bi, k := x.Call.Value.(*ssa.Builtin); k && bi.Name() == "append" {
				return ok(x.Call.Args[0])
			}
		case *ssa.BinOp:
			// counting, summing and flag accumulation commute
			if (x.Op == token.ADD || x.Op == token.OR || x.Op == token.AND || x.Op == token.XOR) && isIntType(x.Type()) {
				return ok(x.X) || ok(x.Y)
			}
		case *ssa.Const:
			return true
		}
		return false
	}
	if !ok(v) {
		return "a value is carried from one iteration to the next at " + p.InstrPos(phi)
	}
	if _, isSlice := phi.Type().Underlying().(*types.Slice); isSlice && !p.sortedAfter(l, phi) {
		return "elements collected in map order are used without being sorted"
	}
	return ""
}

var sortFuncs = map[string]bool{"sort.Strings": true, "sort.Ints": true, "sort.Float64s": true, "sort.Slice": true, "sort.SliceStable": true, "slices.Sort": true, "slices.SortFunc": true, "slices.SortStableFunc": true, "sort.Sort": true, "sort.Stable": true}

// sortedAfter: on leaving the loop, the collected slice is sorted before anything else happens to it
// (further appends aside).
func (p *Program) sortedAfter(l *Loop, phi ssa.Value) bool {
	fn := phi.Parent()
	var sorts []ssa.Instruction
	var aliases = map[ssa.Value]bool{}
	var uses []ssa.Instruction
	var grow func(v ssa.Value)
	grow = func(v ssa.Value) {
		if aliases[v] {
			return
		}
		aliases[v] = true
		for _, u := range *v.Referrers() {
			if u.Block() == nil || u.Parent() != fn {
				continue
			}
			switch x := u.(type) {
			case *ssa.DebugRef:
			case *ssa.Phi:
				grow(x)
			case *ssa.ChangeType:
				grow(x)
			case *ssa.MakeInterface:
				grow(x)
			case *ssa.MakeClosure:
				// the comparison function of sort.Slice
			case *ssa.Store:
				if a, ok := x.Addr.(*ssa.Alloc); ok && x.Val == v {
					// captured variable
					for _, uu := range *a.Referrers() {
						if ld, ok := uu.(*ssa.UnOp); ok {
							grow(ld)
						}
					}
				} else {
					uses = append(uses, u)
				}
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
					if bi.Name() == "append" && x.Call.Args[0] == v {
						grow(x)
						continue
					}
					if bi.Name() == "len" || bi.Name() == "cap" {
						continue
					}
				}
				if f := x.Call.StaticCallee(); f != nil && sortFuncs[calleeName(f)] {
					sorts = append(sorts, x)
					continue
				}
				uses = append(uses, u)
			default:
				if !l.Body[u.Block()] {
					uses = append(uses, u)
				} else {
					uses = append(uses, u)
				}
			}
		}
	}
	grow(phi)
	if len(sorts) == 0 {
		return len(uses) == 0
	}
	for _, u := range uses {
		ok := false
		for _, s := range sorts {
			if dominatesInstr(s, u) {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

func dominatesInstr(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, in := range a.Block().Instrs {
			if in == a {
				return true
			}
			if in == b {
				return false
			}
		}
	}
	return a.Block().Dominates(b.Block())
}

// appendSortedCell: x stores append(load a, ...) to the captured slice variable a that is sorted
// after the loop before any other use.
func (p *Program) appendSortedCell(l *Loop, a *ssa.Alloc, x *ssa.Store) bool {
	c, ok := x.Val.(*ssa.Call)
	if !ok {
		return false
	}
	bi, ok := c.Call.Value.(*ssa.Builtin)
	if !ok || bi.Name() != "append" {
		return false
	}
	ld, ok := c.Call.Args[0].(*ssa.UnOp)
	if !ok || ld.X != ssa.Value(a) {
		return false
	}
	// every load of the variable outside the loop is for appending, sorting or dominated by a sort
	var sorts, uses []ssa.Instruction
	for _, u := range *a.Referrers() {
		ldi, ok := u.(*ssa.UnOp)
		if !ok || l.Body[ldi.Block()] {
			continue
		}
		for _, uu := range *ldi.Referrers() {
			switch y := uu.(type) {
			case *ssa.MakeInterface:
				for _, u3 := range *y.Referrers() {
					if cc, ok := u3.(*ssa.Call); ok && cc.Call.StaticCallee() != nil && sortFuncs[calleeName(cc.Call.StaticCallee())] {
						sorts = append(sorts, cc)
					} else {
						uses = append(uses, u3)
					}
				}
			case *ssa.Call:
				if f := y.Call.StaticCallee(); f != nil && sortFuncs[calleeName(f)] {
					sorts = append(sorts, y)
					continue
				}
				if b, ok := y.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
					continue
				}
				uses = append(uses, y)
			case *ssa.DebugRef:
			default:
				uses = append(uses, uu)
			}
		}
	}
	if len(sorts) == 0 {
		return false
	}
	for _, u := range uses {
		if reachableAvoiding(l, u, sorts) {
			return false
		}
	}
	return true
}

// reachableAvoiding: can u execute after the loop without one of the sorts in between?
func reachableAvoiding(l *Loop, u ssa.Instruction, sorts []ssa.Instruction) bool {
	// u before the loop (dominating the header and not reachable from it) is fine
	from := map[*ssa.BasicBlock]bool{}
	var stack []*ssa.BasicBlock
	for b := range l.Body {
		for _, s := range b.Succs {
			if !l.Body[s] {
				stack = append(stack, s)
			}
		}
	}
	for len(stack) > 0 {
		b := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if from[b] {
			continue
		}
		from[b] = true
		blocked := false
		for _, in := range b.Instrs {
			if in == u {
				return true
			}
			for _, s := range sorts {
				if in == s {
					blocked = true
				}
			}
			if blocked {
				break
			}
		}
		if !blocked {
			stack = append(stack, b.Succs...)
		}
	}
	return false
}

func (p *Program) appendSortedStore(l *Loop, x *ssa.Store) bool { return false }

// callOrder decides whether a call in a map range body is order dependent.
func (p *Program) callOrder(f *ssa.Function, l *Loop, c ssa.CallInstruction, isKey func(ssa.Value) bool) string {
	com := c.Common()
	name := commonName(com)
	if bi, ok := com.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "delete":
			if !isKey(com.Args[1]) {
				return "an entry other than the current one is deleted"
			}
		case "print", "println":
			return "output is written in map order"
		}
		return ""
	}
	if pureExternal[name] || pureInRepo(name) && !p.readsInput(com) {
		return ""
	}
	if strings.HasPrefix(name, "Dictionary.Get") || strings.HasPrefix(name, "Array.Get") {
		return "" // lookups restore the position (C19) and do not change the document
	}
	fns, ok := p.Callees(com)
	inRepo := false
	for _, g := range fns {
		inRepo = inRepo || p.InRepo(g)
	}
	if !inRepo || !ok {
		switch {
		case name == "(*bufio.Reader).Reset", strings.HasPrefix(name, "strings."), strings.HasPrefix(name, "bytes."), strings.HasPrefix(name, "strconv."), strings.HasPrefix(name, "errors."), strings.HasPrefix(name, "unicode"):
			return ""
		}
		return "call of " + name + " in map order at " + p.InstrPos(c)
	}
	for _, g := range fns {
		if why := p.orderEffects(g, map[*ssa.Function]bool{}); why != "" {
			return why
		}
		// position dependent: a Seek must come first in the iteration
		if p.reads(g) && name != "Parser.Seek" {
			if !p.seekBefore(l, c) {
				return "input is read at a position left by the previous iteration at " + p.InstrPos(c)
			}
		}
	}
	return ""
}

func (p *Program) readsInput(c *ssa.CallCommon) bool { return false }

// reads: the function consumes parser input.
func (p *Program) reads(f *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var v func(g *ssa.Function) bool
	v = func(g *ssa.Function) bool {
		if seen[g] || !p.InRepo(g) {
			return false
		}
		seen[g] = true
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					n := commonName(c.Common())
					if strings.HasPrefix(n, "(*bufio.Reader).Read") || n == "io.ReadFull" || strings.HasPrefix(n, "(*bufio.Reader).Peek") {
						return true
					}
					fns, _ := p.Callees(c.Common())
					for _, h := range fns {
						if v(h) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	return v(f)
}

func (p *Program) seekBefore(l *Loop, c ssa.CallInstruction) bool {
	for b := range l.Body {
		for _, in := range b.Instrs {
			if x, ok := in.(ssa.CallInstruction); ok {
				n := commonName(x.Common())
				fns, _ := p.Callees(x.Common())
				isSeek := n == "Parser.Seek"
				for _, g := range fns {
					if p.InRepo(g) && p.alwaysSeeks(g) {
						isSeek = true
					}
				}
				if isSeek && (dominatesInstr(x, c) || x == c) {
					return true
				}
			}
		}
	}
	return false
}

// alwaysSeeks: the entry block of g starts with a Seek before any read.
func (p *Program) alwaysSeeks(g *ssa.Function) bool {
	if len(g.Blocks) == 0 {
		return false
	}
	for _, in := range g.Blocks[0].Instrs {
		if c, ok := in.(ssa.CallInstruction); ok {
			if commonName(c.Common()) == "Parser.Seek" {
				return true
			}
			fns, _ := p.Callees(c.Common())
			for _, h := range fns {
				if p.InRepo(h) && p.reads(h) {
					return false
				}
			}
		}
	}
	return false
}

// orderEffects: effects of a callee that make call order observable.
func (p *Program) orderEffects(f *ssa.Function, seen map[*ssa.Function]bool) string {
	if seen[f] || !p.InRepo(f) {
		return ""
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				k := storeKey(x.Addr)
				if strings.HasPrefix(k, "field:") && k != "field:Parser.depth" || strings.HasPrefix(k, "global:") {
					if a := baseAlloc(x.Addr); a == nil {
						return fnName(f) + " writes " + k
					}
				}
			case *ssa.MapUpdate:
				if baseAlloc(x.Map) == nil {
					return fnName(f) + " updates a map"
				}
			case ssa.CallInstruction:
				n := commonName(x.Common())
				if strings.HasPrefix(n, "fmt.Fprint") || strings.HasPrefix(n, "fmt.Print") || strings.HasPrefix(n, "(*os.File).") || strings.HasPrefix(n, "os.") || n == "io.WriteString" || strings.HasPrefix(n, "io/ioutil.") {
					return fnName(f) + " writes output (" + n + ")"
				}
				fns, _ := p.Callees(x.Common())
				for _, g := range fns {
					if why := p.orderEffects(g, seen); why != "" {
						return why
					}
				}
			}
		}
	}
	return ""
}

func baseAlloc(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
			return v
		default:
			return nil
		}
	}
}

var _ = sort.Strings
