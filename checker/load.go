package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the type-checked, SSA-built program under analysis.
type Program struct {
	conv  map[string]map[string]bool // what is converted to an interface
	Dir   string
	Fset  *token.FileSet
	Prog  *ssa.Program
	Pkgs  []*packages.Package
	Pdf   *ssa.Package    // the library package
	Main  *ssa.Package    // the command
	Funcs []*ssa.Function // every function with a body in the two packages (incl. closures, init)

	ids       map[any]int
	loops     map[*ssa.Function]*LoopInfo
	live      map[*ssa.Function]*Liveness
	mods      map[*ssa.Function]*ModSet
	conds     map[*ssa.Global]globalConst
	gcDone    bool
	mins      map[string]*int64
	ranges    map[string]interval
	keyFields map[string]bool
}

const pdfPath = "github.com/KarmaPenny/pdfparser/pdf"
const mainPath = "github.com/KarmaPenny/pdfparser"

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func loadProgram() (*Program, error) {
	dir := repoDir()
	cfg := &packages.Config{
		Mode:  packages.LoadSyntax,
		Dir:   dir,
		Tests: false,
		Env:   os.Environ(),
	}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, fmt.Errorf("loading %s: %v", dir, err)
	}
	var errs []string
	for _, p := range ps {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("type checking %s: %s", dir, strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{Dir: dir, Prog: prog, Fset: prog.Fset, Pkgs: ps,
		ids: map[any]int{}, loops: map[*ssa.Function]*LoopInfo{}, live: map[*ssa.Function]*Liveness{}, mods: map[*ssa.Function]*ModSet{}}
	inRepo := map[*ssa.Package]bool{}
	for _, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("a package of %s was not built", dir)
		}
		inRepo[sp] = true
		switch sp.Pkg.Path() {
		case pdfPath:
			p.Pdf = sp
		case mainPath:
			p.Main = sp
		}
	}
	if p.Pdf == nil || p.Main == nil {
		return nil, fmt.Errorf("packages %s and %s not both found in %s", pdfPath, mainPath, dir)
	}
	for f := range ssautil.AllFunctions(prog) {
		if f.Pkg != nil && inRepo[f.Pkg] && len(f.Blocks) > 0 {
			p.Funcs = append(p.Funcs, f)
		}
	}
	// closures and wrappers have Pkg set as well; order deterministically
	sort.Slice(p.Funcs, func(i, j int) bool {
		a, b := p.Funcs[i], p.Funcs[j]
		if a.Pos() != b.Pos() {
			pa, pb := p.Fset.Position(a.Pos()), p.Fset.Position(b.Pos())
			if pa.Filename != pb.Filename {
				return pa.Filename < pb.Filename
			}
			return pa.Offset < pb.Offset
		}
		return a.String() < b.String()
	})
	n := 0
	for _, f := range p.Funcs {
		for _, prm := range f.Params {
			p.ids[prm] = n
			n++
		}
		for _, fv := range f.FreeVars {
			p.ids[fv] = n
			n++
		}
		for _, b := range f.Blocks {
			p.ids[b] = n
			n++
			for _, in := range b.Instrs {
				p.ids[in] = n
				n++
			}
		}
	}
	return p, nil
}

func (p *Program) id(x any) int {
	i, ok := p.ids[x]
	if !ok {
		i = len(p.ids) + 1000000
		p.ids[x] = i
	}
	return i
}

// InRepo reports whether fn is defined (with a body) in the code under analysis.
func (p *Program) InRepo(fn *ssa.Function) bool {
	return fn != nil && len(fn.Blocks) > 0 && (fn.Pkg == p.Pdf || fn.Pkg == p.Main)
}

// Func resolves "Name" or "Type.Method" in the library package.
func (p *Program) Func(name string) *ssa.Function {
	if t, m, ok := strings.Cut(name, "."); ok {
		tn, _ := p.Pdf.Members[t].(*ssa.Type)
		if tn == nil {
			return nil
		}
		for _, typ := range []types.Type{types.NewPointer(tn.Type()), tn.Type()} {
			ms := types.NewMethodSet(typ)
			for i := 0; i < ms.Len(); i++ {
				sel := ms.At(i)
				if sel.Obj().Name() == m && len(sel.Index()) == 1 {
					if f := p.Prog.FuncValue(sel.Obj().(*types.Func)); f != nil && len(f.Blocks) > 0 {
						return f
					}
				}
			}
		}
		return nil
	}
	f, _ := p.Pdf.Members[name].(*ssa.Function)
	return f
}

// Named resolves a named type of the library package.
func (p *Program) Named(name string) types.Type {
	tn, _ := p.Pdf.Members[name].(*ssa.Type)
	if tn == nil {
		return nil
	}
	return tn.Type()
}

// calleeName gives a canonical name of a function: "os.Open", "(*bufio.Reader).ReadByte",
// and for the library package "NewParser", "Parser.Load", "Dictionary.GetName".
func calleeName(fn *ssa.Function) string {
	if fn == nil {
		return ""
	}
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	obj, _ := fn.Object().(*types.Func)
	if obj == nil {
		return fn.String()
	}
	return funcObjName(obj)
}

func funcObjName(obj *types.Func) string {
	sig := obj.Type().(*types.Signature)
	path := ""
	if obj.Pkg() != nil {
		path = obj.Pkg().Path()
	}
	if r := sig.Recv(); r != nil {
		t := r.Type()
		ptr := false
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
			ptr = true
		}
		nt, ok := types.Unalias(t).(*types.Named)
		tn := t.String()
		if ok {
			tn = nt.Obj().Name()
		}
		if path == pdfPath {
			return tn + "." + obj.Name()
		}
		if ptr {
			return "(*" + path + "." + tn + ")." + obj.Name()
		}
		return "(" + path + "." + tn + ")." + obj.Name()
	}
	if path == pdfPath {
		return obj.Name()
	}
	if path == mainPath {
		return "main." + obj.Name()
	}
	return path + "." + obj.Name()
}

func (p *Program) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	q := p.Fset.Position(pos)
	rel, err := filepath.Rel(p.Dir, q.Filename)
	if err != nil {
		rel = q.Filename
	}
	return fmt.Sprintf("%s:%d", rel, q.Line)
}

// InstrPos gives the best known source position of an instruction.
func (p *Program) InstrPos(in ssa.Instruction) string {
	if in == nil {
		return "-"
	}
	if in.Pos().IsValid() {
		return p.Pos(in.Pos())
	}
	b := in.Block()
	if b != nil {
		idx := -1
		for i, x := range b.Instrs {
			if x == in {
				idx = i
			}
		}
		for d := 1; d < len(b.Instrs)+1; d++ {
			for _, j := range []int{idx - d, idx + d} {
				if j >= 0 && j < len(b.Instrs) && b.Instrs[j].Pos().IsValid() {
					return p.Pos(b.Instrs[j].Pos())
				}
			}
		}
		return p.Pos(in.Parent().Pos())
	}
	return "-"
}

func fnName(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	if f.Parent() != nil {
		return fnName(f.Parent()) + "$" + strings.TrimPrefix(f.Name(), f.Parent().Name()+"$")
	}
	return calleeName(f)
}

// ---------------------------------------------------------------- loops

type Loop struct {
	Header *ssa.BasicBlock
	Body   map[*ssa.BasicBlock]bool
	Backs  []*ssa.BasicBlock
	Parent *Loop
}

type LoopInfo struct {
	Loops       []*Loop
	ByHeader    map[*ssa.BasicBlock]*Loop
	Inner       map[*ssa.BasicBlock]*Loop // innermost loop containing the block
	Irreducible bool
}

func (p *Program) Loops(f *ssa.Function) *LoopInfo {
	if li, ok := p.loops[f]; ok {
		return li
	}
	li := &LoopInfo{ByHeader: map[*ssa.BasicBlock]*Loop{}, Inner: map[*ssa.BasicBlock]*Loop{}}
	p.loops[f] = li
	// a retreating edge in DFS whose target does not dominate the source is irreducible
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := li.ByHeader[s]
				if l == nil {
					l = &Loop{Header: s, Body: map[*ssa.BasicBlock]bool{s: true}}
					li.ByHeader[s] = l
					li.Loops = append(li.Loops, l)
				}
				l.Backs = append(l.Backs, b)
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if l.Body[x] {
						continue
					}
					l.Body[x] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	// cycles not covered by natural loops: remove back edges and look for a cycle
	color := map[*ssa.BasicBlock]int{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		color[b] = 1
		for _, s := range b.Succs {
			if s.Dominates(b) {
				continue
			}
			if color[s] == 1 {
				li.Irreducible = true
			} else if color[s] == 0 {
				dfs(s)
			}
		}
		color[b] = 2
	}
	if len(f.Blocks) > 0 {
		dfs(f.Blocks[0])
	}
	sort.Slice(li.Loops, func(i, j int) bool { return len(li.Loops[i].Body) < len(li.Loops[j].Body) })
	for i, l := range li.Loops {
		for b := range l.Body {
			if li.Inner[b] == nil {
				li.Inner[b] = l
			}
		}
		for _, m := range li.Loops[i+1:] {
			if m.Body[l.Header] {
				l.Parent = m
				break
			}
		}
	}
	return li
}

// ---------------------------------------------------------------- liveness

// Liveness holds, per block, the SSA values live on entry (phi operands count as
// live at the end of the predecessor).
type Liveness struct {
	In map[*ssa.BasicBlock]map[ssa.Value]bool
}

func isEnvValue(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return false
	}
	return v != nil
}

func (p *Program) Liveness(f *ssa.Function) *Liveness {
	if l, ok := p.live[f]; ok {
		return l
	}
	l := &Liveness{In: map[*ssa.BasicBlock]map[ssa.Value]bool{}}
	p.live[f] = l
	for _, b := range f.Blocks {
		l.In[b] = map[ssa.Value]bool{}
	}
	changed := true
	for changed {
		changed = false
		for i := len(f.Blocks) - 1; i >= 0; i-- {
			b := f.Blocks[i]
			in := p.liveAt(f, l, b, 0)
			if len(in) != len(l.In[b]) {
				l.In[b] = in
				changed = true
			}
		}
	}
	return l
}

// liveAt computes the values live just before instruction idx of block b.
func (p *Program) liveAt(f *ssa.Function, l *Liveness, b *ssa.BasicBlock, idx int) map[ssa.Value]bool {
	live := map[ssa.Value]bool{}
	for _, s := range b.Succs {
		for v := range l.In[s] {
			live[v] = true
		}
		pi := predIndex(s, b)
		for _, in := range s.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			delete(live, phi)
		}
		for _, in := range s.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			for k, pr := range s.Preds {
				if pr == b && k >= pi {
					if isEnvValue(phi.Edges[k]) {
						live[phi.Edges[k]] = true
					}
				}
			}
		}
	}
	for i := len(b.Instrs) - 1; i >= idx; i-- {
		in := b.Instrs[i]
		if _, ok := in.(*ssa.Phi); ok {
			// a phi is bound on the edge into the block: live here when used later
			continue
		}
		if v, ok := in.(ssa.Value); ok {
			delete(live, v)
		}
		var ops [16]*ssa.Value
		for _, op := range in.Operands(ops[:0]) {
			if *op != nil && isEnvValue(*op) {
				live[*op] = true
			}
		}
	}
	return live
}

func predIndex(s, b *ssa.BasicBlock) int {
	for i, p := range s.Preds {
		if p == b {
			return i
		}
	}
	return -1
}

// ---------------------------------------------------------------- mod sets

// ModSet is the set of memory a function may write, transitively, by kind:
// "field:T.f", "global:pkg.g", "elem:T", "map:T".
type ModSet struct {
	W       map[string]bool
	Dynamic bool // calls a function value that could not be resolved
}

func typeKey(t types.Type) string {
	return types.TypeString(types.Unalias(t).Underlying(), nil)
}

func fieldKey(ptr types.Type, idx int) string {
	t := ptr
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	st := t.Underlying().(*types.Struct)
	name := types.TypeString(t, func(p *types.Package) string {
		if p.Path() == pdfPath {
			return ""
		}
		return p.Path()
	})
	return name + "." + st.Field(idx).Name()
}

// storeKey classifies the target of a store through addr.
func storeKey(addr ssa.Value) string {
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		return "field:" + fieldKey(a.X.Type(), a.Field)
	case *ssa.IndexAddr:
		return "elem:" + typeKey(a.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.Global:
		return "global:" + a.String()
	case *ssa.Alloc:
		return "local"
	}
	return "elem:" + typeKey(addr.Type().Underlying().(*types.Pointer).Elem())
}

// Callees resolves the possible in-repo callees of a call; ok is false when the
// call goes through a function value that is not resolved.
func (p *Program) Callees(c *ssa.CallCommon) (fns []*ssa.Function, ok bool) {
	if c.IsInvoke() {
		for _, f := range p.implementers(c) {
			fns = append(fns, f)
		}
		return fns, true
	}
	switch v := c.Value.(type) {
	case *ssa.Function:
		return []*ssa.Function{v}, true
	case *ssa.Builtin:
		return nil, true
	case *ssa.MakeClosure:
		return []*ssa.Function{v.Fn.(*ssa.Function)}, true
	}
	// a function value: any address-taken in-repo function of that signature
	sig := c.Value.Type().Underlying().(*types.Signature)
	for _, f := range p.addressTaken() {
		fs := f.Signature
		if types.Identical(types.NewSignatureType(nil, nil, nil, fs.Params(), fs.Results(), fs.Variadic()),
			types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic())) {
			fns = append(fns, f)
		}
	}
	return fns, len(fns) > 0
}

// converted: values of type t can end up in interface type i. For interfaces of this repository only those can
// that are converted to it, or to an interface that is converted to it.
func (p *Program) converted(t, i types.Type) bool {
	n, ok := i.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg() != p.Pdf.Pkg && n.Obj().Pkg() != p.Main.Pkg {
		return true
	}
	if p.conv == nil {
		p.conv = map[string]map[string]bool{}
		add := func(to, from types.Type) {
			k := to.String()
			if p.conv[k] == nil {
				p.conv[k] = map[string]bool{}
			}
			p.conv[k][from.String()] = true
		}
		for _, f := range p.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.MakeInterface:
						add(x.Type(), x.X.Type())
					case *ssa.ChangeInterface:
						add(x.Type(), x.X.Type())
					case *ssa.TypeAssert:
						if types.IsInterface(x.AssertedType) {
							add(x.AssertedType, x.X.Type())
						}
					}
				}
			}
		}
		for changed := true; changed; {
			changed = false
			for _, from := range p.conv {
				for k := range from {
					for l := range p.conv[k] {
						if !from[l] {
							from[l], changed = true, true
						}
					}
				}
			}
		}
	}
	return p.conv[i.String()][t.String()]
}

func (p *Program) implementers(c *ssa.CallCommon) []*ssa.Function {
	var out []*ssa.Function
	it, _ := c.Value.Type().Underlying().(*types.Interface)
	if it == nil {
		return nil
	}
	for _, pkg := range []*ssa.Package{p.Pdf, p.Main} {
		var names []string
		for n := range pkg.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			tn, ok := pkg.Members[n].(*ssa.Type)
			if !ok {
				continue
			}
			if _, isI := tn.Type().Underlying().(*types.Interface); isI {
				continue
			}
			for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
				if !types.Implements(t, it) || !p.converted(t, c.Value.Type()) {
					continue
				}
				sel := types.NewMethodSet(t).Lookup(c.Method.Pkg(), c.Method.Name())
				if sel == nil {
					continue
				}
				f := p.Prog.FuncValue(sel.Obj().(*types.Func))
				if f != nil && len(f.Blocks) > 0 {
					dup := false
					for _, g := range out {
						dup = dup || g == f
					}
					if !dup {
						out = append(out, f)
					}
				}
			}
		}
	}
	return out
}

func (p *Program) addressTaken() []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	add := func(v ssa.Value) {
		if mc, ok := v.(*ssa.MakeClosure); ok {
			v = mc.Fn
		}
		if f, ok := v.(*ssa.Function); ok && p.InRepo(f) && !seen[f] {
			seen[f] = true
			out = append(out, f)
		}
	}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					for _, a := range c.Common().Args {
						add(a)
					}
					if _, ok := c.Common().Value.(*ssa.MakeClosure); ok {
						add(c.Common().Value)
					}
					continue
				}
				var ops [16]*ssa.Value
				for _, op := range in.Operands(ops[:0]) {
					if *op != nil {
						add(*op)
					}
				}
			}
		}
	}
	return out
}

func (p *Program) Mods(f *ssa.Function) *ModSet {
	if m, ok := p.mods[f]; ok {
		return m
	}
	// fixpoint over the reachable in-repo call graph
	seen := map[*ssa.Function]bool{}
	m := &ModSet{W: map[string]bool{}}
	var visit func(g *ssa.Function)
	visit = func(g *ssa.Function) {
		if seen[g] || !p.InRepo(g) {
			return
		}
		seen[g] = true
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if !newObject(x.Addr) {
						m.W[storeKey(x.Addr)] = true
					}
				case *ssa.MapUpdate:
					if !newObject(x.Map) {
						m.W["map:"+typeKey(x.Map.Type())] = true
					}
				case ssa.CallInstruction:
					c := x.Common()
					fns, ok := p.Callees(c)
					if !ok {
						m.Dynamic = true
					}
					for _, h := range fns {
						visit(h)
					}
					for _, w := range externalWrites(c) {
						m.W[w] = true
					}
					if bi, ok := c.Value.(*ssa.Builtin); ok && bi.Name() == "delete" {
						m.W["map:"+typeKey(c.Args[0].Type())] = true
					}
					if bi, ok := c.Value.(*ssa.Builtin); ok && (bi.Name() == "copy" || bi.Name() == "append" || bi.Name() == "clear") {
						if st, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
							m.W["elem:"+typeKey(st.Elem())] = true
						}
					}
				case *ssa.MakeClosure:
					visit(x.Fn.(*ssa.Function))
				}
			}
		}
	}
	visit(f)
	p.mods[f] = m
	return m
}

// newObject: v is a part of an object made by the function itself, which no caller knows.
func newObject(v ssa.Value) bool {
	part := false
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v, part = x.X, true
		case *ssa.IndexAddr:
			v, part = x.X, true
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Alloc:
			return part
		case *ssa.MakeSlice, *ssa.MakeMap:
			return true
		default:
			return false
		}
	}
}

// externalWrites lists the element kinds an external callee writes through its arguments.
func externalWrites(c *ssa.CallCommon) []string {
	name := ""
	if c.IsInvoke() {
		name = c.Method.Name()
	} else if f := c.StaticCallee(); f != nil && len(f.Blocks) == 0 {
		name = f.Name()
	} else {
		return nil
	}
	if mutatesArgs[name] {
		return []string{"elem:uint8"}
	}
	return nil
}

// mutatesArgs names external functions and methods that write through a slice argument.
var mutatesArgs = map[string]bool{
	"Read": true, "ReadFull": true, "ReadAtLeast": true, "ReadAt": true,
	"XORKeyStream": true, "CryptBlocks": true, "PutUint16": true, "PutUint32": true, "PutUint64": true,
	"Encrypt": true, "Decrypt": true, "Decode": true,
	"Slice": true, "Ints": true, "Strings": true, "Sort": true, "SliceStable": true, "Stable": true, "SortFunc": true,
}
