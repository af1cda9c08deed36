package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the type-checked, SSA-converted module under analysis.
type Program struct {
	privates map[*ssa.Alloc]bool
	inPlace  map[*ssa.UnOp]bool
	helpers  map[string]bool // small packages of the standard library that are analysed where they are used
	Dir      string
	Fset     *token.FileSet
	Pkgs     []*packages.Package
	Prog     *ssa.Program
	ModPath  string
	Root     *types.Package            // package zmq4
	ByPath   map[string]*types.Package // module packages
	Funcs    []*ssa.Function           // every function of the module with a body
	FuncSet  map[*ssa.Function]bool

	// derived
	impls      map[*types.Func][]*ssa.Function
	fieldFuncs map[FieldKey][]*ssa.Function
	funcVals   *FuncFlow
	ls         *Lockset
	mutable    map[FieldKey]bool
	dynTypes   map[string]types.Type
	globals    map[string]*globalInfo
	chClosed   map[FieldKey]bool
	stick      map[string]constant.Value
	ioFns      map[*ssa.Function]bool
	files      int
	lines      int
}

// FieldKey names a field of a module struct type, or a package variable
// (Owner == nil, Name is the variable).
type FieldKey struct {
	Owner string // "pkg.Type"
	Field string
}

func (k FieldKey) String() string {
	if k.Owner == "" {
		return k.Field
	}
	return k.Owner + "." + k.Field
}

func fatalf(f string, a ...any) { panic(analysisError(fmt.Sprintf(f, a...))) }

type analysisError string

func isDir(d string) bool {
	fi, err := os.Stat(d)
	return err == nil && fi.IsDir()
}

func load(dir string) *Program {
	// the go command that fits the analyzer
	if d := "/opt/veriftools/" + runtime.Version() + "/bin"; isDir(d) {
		os.Setenv("PATH", d+":"+os.Getenv("PATH"))
	}
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "CGO_ENABLED=") || strings.HasPrefix(e, "GOWORK=") ||
			strings.HasPrefix(e, "GOOS=") || strings.HasPrefix(e, "GOARCH=") {
			continue
		}
		env = append(env, e)
	}
	env = append(env, "CGO_ENABLED=0", "GOFLAGS=", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local")
	cfg := &packages.Config{
		Mode:  packages.LoadSyntax | packages.NeedModule,
		Dir:   dir,
		Env:   env,
		Tests: false,
	}
	pkgs, err := packages.Load(cfg, "./...", "slices", "maps", "cmp", "container/list")
	if err != nil {
		fatalf("cannot load %s: %v", dir, err)
	}
	p := &Program{Dir: dir, ByPath: map[string]*types.Package{}, FuncSet: map[*ssa.Function]bool{}}
	var keep, helpers []*packages.Package
	for _, pk := range pkgs {
		for _, e := range pk.Errors {
			fatalf("the tree does not type-check: %v", e)
		}
		if pk.Name == "main" || strings.Contains(pk.PkgPath, "/example") {
			continue
		}
		if len(pk.Syntax) == 0 {
			continue
		}
		if pk.Module == nil {
			helpers = append(helpers, pk)
			continue
		}
		keep = append(keep, pk)
		if pk.Module != nil {
			p.ModPath = pk.Module.Path
		}
	}
	if len(keep) == 0 {
		fatalf("no packages found in %s", dir)
	}
	p.Pkgs = keep
	p.Fset = keep[0].Fset
	prog, _ := ssautil.Packages(append(append([]*packages.Package{}, keep...), helpers...), ssa.InstantiateGenerics)
	prog.Build()
	p.Prog = prog
	p.helpers = map[string]bool{}
	for _, pk := range helpers {
		p.helpers[pk.PkgPath] = true
	}
	for _, pk := range keep {
		p.ByPath[pk.PkgPath] = pk.Types
		if pk.PkgPath == p.ModPath {
			p.Root = pk.Types
		}
		for _, f := range pk.Syntax {
			p.files++
			p.lines += p.Fset.File(f.Pos()).LineCount()
		}
	}
	if p.Root == nil {
		fatalf("package %s not found", p.ModPath)
	}
	for fn := range ssautil.AllFunctions(prog) {
		if len(fn.Blocks) == 0 {
			continue
		}
		if !p.inModule(fn) {
			continue
		}
		p.Funcs = append(p.Funcs, fn)
		p.FuncSet[fn] = true
	}
	sort.Slice(p.Funcs, func(i, j int) bool {
		a, b := p.Funcs[i], p.Funcs[j]
		if a.String() != b.String() {
			return a.String() < b.String()
		}
		return a.Pos() < b.Pos()
	})
	return p
}

func (p *Program) inModule(fn *ssa.Function) bool {
	pkg := fnPkg(fn)
	if pkg == nil {
		return false
	}
	_, ok := p.ByPath[pkg.Path()]
	return ok
}

func fnPkg(fn *ssa.Function) *types.Package {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg
		}
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return o.Pkg()
		}
		if f.Origin() != nil && f.Origin().Pkg != nil {
			return f.Origin().Pkg.Pkg
		}
	}
	return nil
}

func (p *Program) pos(ps token.Pos) string {
	if !ps.IsValid() {
		return "?"
	}
	q := p.Fset.Position(ps)
	f := q.Filename
	if r, err := filepath.Rel(p.Dir, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// instrPos finds a source position for an instruction (or the nearest one before it in its block).
func (p *Program) instrPos(i ssa.Instruction) string {
	if i == nil {
		return "?"
	}
	if i.Pos().IsValid() {
		return p.pos(i.Pos())
	}
	b := i.Block()
	if b != nil {
		at := -1
		for k, x := range b.Instrs {
			if x == i {
				at = k
			}
		}
		for k := at; k >= 0; k-- {
			if b.Instrs[k].Pos().IsValid() {
				return p.pos(b.Instrs[k].Pos())
			}
		}
		for k := at + 1; k < len(b.Instrs); k++ {
			if b.Instrs[k].Pos().IsValid() {
				return p.pos(b.Instrs[k].Pos())
			}
		}
	}
	return p.pos(i.Parent().Pos())
}

// fnName is a short, stable name: pkg.(*T).m or pkg.f$1.
func (p *Program) fnName(fn *ssa.Function) string {
	s := fn.String()
	s = strings.ReplaceAll(s, p.ModPath+"/", "")
	s = strings.ReplaceAll(s, p.ModPath+".", "zmq4.")
	return s
}

func (p *Program) shortPkg(pk *types.Package) string {
	if pk == nil {
		return ""
	}
	if pk.Path() == p.ModPath {
		return "zmq4"
	}
	return strings.TrimPrefix(pk.Path(), p.ModPath+"/")
}

func (p *Program) typeName(t types.Type) string {
	t = deref(t)
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return p.shortPkg(n.Obj().Pkg()) + "." + n.Obj().Name()
	}
	return types.TypeString(t, func(pk *types.Package) string { return p.shortPkg(pk) })
}

func deref(t types.Type) types.Type {
	if pt, ok := types.Unalias(t).Underlying().(*types.Pointer); ok {
		return pt.Elem()
	}
	return t
}

func named(t types.Type) *types.Named {
	if t == nil {
		return nil
	}
	n, _ := types.Unalias(deref(t)).(*types.Named)
	return n
}

func isNamed(t types.Type, pkg, name string) bool {
	n := named(t)
	return n != nil && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg
}

func structOf(t types.Type) *types.Struct {
	s, _ := types.Unalias(deref(t)).Underlying().(*types.Struct)
	return s
}

// lookupType finds a named type of the root package.
func (p *Program) lookupType(name string) *types.Named {
	o := p.Root.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := types.Unalias(o.Type()).(*types.Named)
	return n
}

func (p *Program) mustType(name string) *types.Named {
	n := p.lookupType(name)
	if n == nil {
		fatalf("anchor not found: type %s in package %s", name, p.ModPath)
	}
	return n
}

// methodFn returns the SSA function of method name of T or *T (following
// promotion is not needed here), or nil.
func (p *Program) methodFn(n *types.Named, name string) *ssa.Function {
	for i := 0; i < n.NumMethods(); i++ {
		m := n.Method(i)
		if m.Name() == name {
			return p.Prog.FuncValue(m)
		}
	}
	return nil
}

func (p *Program) mustMethod(n *types.Named, name string) *ssa.Function {
	f := p.methodFn(n, name)
	if f == nil || len(f.Blocks) == 0 {
		fatalf("anchor not found: method %s.%s", p.typeName(n), name)
	}
	return f
}

func (p *Program) pkgFunc(pkg *types.Package, name string) *ssa.Function {
	if pkg == nil {
		return nil
	}
	if o, ok := pkg.Scope().Lookup(name).(*types.Func); ok {
		return p.Prog.FuncValue(o)
	}
	return nil
}

func (p *Program) mustFunc(pkg *types.Package, name string) *ssa.Function {
	f := p.pkgFunc(pkg, name)
	if f == nil || len(f.Blocks) == 0 {
		fatalf("anchor not found: function %s", name)
	}
	return f
}

// allNamed lists the named (non-interface) types declared in the module, at package level.
func (p *Program) allNamed() []*types.Named {
	var out []*types.Named
	var paths []string
	for k := range p.ByPath {
		paths = append(paths, k)
	}
	sort.Strings(paths)
	for _, k := range paths {
		sc := p.ByPath[k].Scope()
		for _, nm := range sc.Names() {
			tn, ok := sc.Lookup(nm).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			if n, ok := tn.Type().(*types.Named); ok {
				out = append(out, n)
			}
		}
	}
	return out
}

// implementers returns the module's implementations of interface method m
// (invoked on interface type it).
func (p *Program) implementers(it types.Type, m *types.Func) []*ssa.Function {
	if p.impls == nil {
		p.impls = map[*types.Func][]*ssa.Function{}
	}
	if r, ok := p.impls[m]; ok {
		return r
	}
	iface, _ := it.Underlying().(*types.Interface)
	var out []*ssa.Function
	if iface != nil {
		for _, n := range p.allNamed() {
			if types.IsInterface(n) {
				continue
			}
			var recv types.Type
			if types.Implements(n, iface) {
				recv = n
			} else if types.Implements(types.NewPointer(n), iface) {
				recv = types.NewPointer(n)
			} else {
				continue
			}
			sel := p.Prog.MethodSets.MethodSet(recv).Lookup(m.Pkg(), m.Name())
			if sel == nil {
				continue
			}
			if f := p.Prog.MethodValue(sel); f != nil {
				// skip promotion/deref wrappers: use the declared function
				if o, ok := sel.Obj().(*types.Func); ok {
					if d := p.Prog.FuncValue(o); d != nil && len(d.Blocks) > 0 {
						f = d
					}
				}
				if len(f.Blocks) > 0 {
					out = append(out, f)
				}
			}
		}
	}
	p.impls[m] = out
	return out
}

// fieldOf resolves a FieldAddr/Field to its key.
func (p *Program) fieldKey(structT types.Type, idx int) FieldKey {
	st := structOf(structT)
	if st == nil {
		return FieldKey{"?", fmt.Sprint(idx)}
	}
	return FieldKey{p.typeName(structT), st.Field(idx).Name()}
}
