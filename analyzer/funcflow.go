package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// FuncFlow resolves calls of function values and interface methods: a
// flow-insensitive points-to analysis of functions through parameters,
// closures, fields, variables and returns.
type FuncFlow struct {
	p       *Program
	callers map[*ssa.Function][]ssa.CallInstruction // static + invoke (CHA) call sites
	stores  map[FieldKey][]ssa.Value
	gstores map[*ssa.Global][]ssa.Value
	mkclos  map[*ssa.Function][]*ssa.MakeClosure
	addrTkn map[string][]*ssa.Function // by signature
	memo    map[ssa.Value]*FuncSetResult
}

// FuncSetResult is a set of possible functions; External: also a function supplied by a user.
type FuncSetResult struct {
	Fns      map[*ssa.Function]bool
	External bool
}

func (r *FuncSetResult) list() []*ssa.Function {
	var out []*ssa.Function
	for f := range r.Fns {
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].String() != out[j].String() {
			return out[i].String() < out[j].String()
		}
		return out[i].Pos() < out[j].Pos()
	})
	return out
}

func sigKey(s *types.Signature) string {
	return types.TypeString(types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic()), nil)
}

func newFuncFlow(p *Program) *FuncFlow {
	ff := &FuncFlow{p: p,
		callers: map[*ssa.Function][]ssa.CallInstruction{},
		stores:  map[FieldKey][]ssa.Value{},
		gstores: map[*ssa.Global][]ssa.Value{},
		mkclos:  map[*ssa.Function][]*ssa.MakeClosure{},
		addrTkn: map[string][]*ssa.Function{},
		memo:    map[ssa.Value]*FuncSetResult{},
	}
	taken := map[*ssa.Function]bool{}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				var callee ssa.Value
				if c, ok := ins.(ssa.CallInstruction); ok {
					cc := c.Common()
					callee = cc.Value
					if cc.IsInvoke() {
						for _, t := range p.implementers(cc.Value.Type(), cc.Method) {
							ff.callers[t] = append(ff.callers[t], c)
						}
					} else if sc := cc.StaticCallee(); sc != nil {
						ff.callers[sc] = append(ff.callers[sc], c)
					}
				}
				switch x := ins.(type) {
				case *ssa.Store:
					switch a := x.Addr.(type) {
					case *ssa.FieldAddr:
						k := p.fieldKey(a.X.Type(), a.Field)
						ff.stores[k] = append(ff.stores[k], x.Val)
					case *ssa.Global:
						ff.gstores[a] = append(ff.gstores[a], x.Val)
					}
				case *ssa.MakeClosure:
					f := x.Fn.(*ssa.Function)
					ff.mkclos[f] = append(ff.mkclos[f], x)
					taken[f] = true
				}
				for _, op := range ins.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok && *op != callee {
						taken[f] = true
					}
				}
			}
		}
	}
	for f := range taken {
		if len(f.Blocks) > 0 {
			k := sigKey(f.Signature)
			ff.addrTkn[k] = append(ff.addrTkn[k], f)
		}
	}
	for _, v := range ff.addrTkn {
		sort.Slice(v, func(i, j int) bool { return v[i].String() < v[j].String() })
	}
	return ff
}

func (ff *FuncFlow) resolve(v ssa.Value) *FuncSetResult {
	r := &FuncSetResult{Fns: map[*ssa.Function]bool{}}
	ff.walk(v, r, map[ssa.Value]bool{})
	return r
}

func (ff *FuncFlow) exportedAPI(fn *ssa.Function) bool {
	if fn.Parent() != nil {
		return false
	}
	o, ok := fn.Object().(*types.Func)
	if !ok || !o.Exported() {
		return false
	}
	return true
}

func (ff *FuncFlow) walk(v ssa.Value, r *FuncSetResult, seen map[ssa.Value]bool) {
	if v == nil || seen[v] {
		return
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Function:
		r.Fns[x] = true
	case *ssa.MakeClosure:
		r.Fns[x.Fn.(*ssa.Function)] = true
	case *ssa.Parameter:
		fn := x.Parent()
		idx := -1
		for i, q := range fn.Params {
			if q == x {
				idx = i
			}
		}
		if ff.exportedAPI(fn) {
			if n := named(x.Type()); n != nil && n.Obj().Pkg() != nil && onlyModuleFuncs(n) {
				ff.bySig(x.Type(), r)
			} else {
				r.External = true
			}
		}
		for _, c := range ff.callers[fn] {
			cc := c.Common()
			if cc.IsInvoke() {
				if idx == 0 {
					continue
				}
				if idx-1 < len(cc.Args) {
					ff.walk(cc.Args[idx-1], r, seen)
				}
			} else if idx < len(cc.Args) {
				ff.walk(cc.Args[idx], r, seen)
			}
		}
		if fn.Parent() != nil && len(ff.callers[fn]) == 0 {
			// a closure called through a function value
			ff.bySig(x.Type(), r)
		}
	case *ssa.FreeVar:
		fn := x.Parent()
		for i, q := range fn.FreeVars {
			if q == x {
				for _, mc := range ff.mkclos[fn] {
					ff.walk(mc.Bindings[i], r, seen)
				}
			}
		}
	case *ssa.UnOp:
		ff.walkAddr(x.X, r, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			ff.walk(e, r, seen)
		}
	case *ssa.ChangeType:
		ff.walk(x.X, r, seen)
	case *ssa.MakeInterface:
		ff.walk(x.X, r, seen)
	case *ssa.TypeAssert:
		ff.walk(x.X, r, seen)
	case *ssa.Field:
		k := ff.p.fieldKey(x.X.Type(), x.Field)
		for _, s := range ff.stores[k] {
			ff.walk(s, r, seen)
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			ff.walkResult(c, x.Index, r, seen)
		} else {
			ff.bySig(x.Type(), r)
		}
	case *ssa.Call:
		ff.walkResult(x, 0, r, seen)
	case *ssa.Const:
	default:
		ff.bySig(v.Type(), r)
	}
}

// onlyModuleFuncs: the function type has a parameter of an unexported named type, so that
// programs outside the package cannot write a function of this type.
func onlyModuleFuncs(n *types.Named) bool {
	s, ok := n.Underlying().(*types.Signature)
	if !ok {
		return false
	}
	for i := 0; i < s.Params().Len(); i++ {
		if m := named(s.Params().At(i).Type()); m != nil && !m.Obj().Exported() && m.Obj().Pkg() != nil {
			return true
		}
	}
	return false
}

func (ff *FuncFlow) bySig(t types.Type, r *FuncSetResult) {
	s, ok := t.Underlying().(*types.Signature)
	if !ok {
		return
	}
	for _, f := range ff.addrTkn[sigKey(s)] {
		r.Fns[f] = true
	}
	if n := named(t); n == nil || !onlyModuleFuncs(n) {
		r.External = true
	}
}

func (ff *FuncFlow) walkResult(c *ssa.Call, idx int, r *FuncSetResult, seen map[ssa.Value]bool) {
	var fns []*ssa.Function
	if c.Call.IsInvoke() {
		fns = ff.p.implementers(c.Call.Value.Type(), c.Call.Method)
	} else if sc := c.Call.StaticCallee(); sc != nil {
		fns = []*ssa.Function{sc}
	}
	if len(fns) == 0 {
		// e.g. context.WithCancel's cancel function, AfterFunc's stop: library code, not a user's
		return
	}
	for _, f := range fns {
		for _, b := range f.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(ret.Results) {
				ff.walk(ret.Results[idx], r, seen)
			}
		}
	}
}

func (ff *FuncFlow) walkAddr(a ssa.Value, r *FuncSetResult, seen map[ssa.Value]bool) {
	switch x := a.(type) {
	case *ssa.FieldAddr:
		k := ff.p.fieldKey(x.X.Type(), x.Field)
		for _, s := range ff.stores[k] {
			ff.walk(s, r, seen)
		}
		st := structOf(x.X.Type())
		n := named(x.X.Type())
		if n != nil && n.Obj().Exported() && st.Field(x.Field).Exported() {
			r.External = true
		}
	case *ssa.Global:
		for _, s := range ff.gstores[x] {
			ff.walk(s, r, seen)
		}
	case *ssa.Alloc:
		ff.walkStores(x, r, seen)
	case *ssa.FreeVar:
		fn := x.Parent()
		for i, q := range fn.FreeVars {
			if q == x {
				for _, mc := range ff.mkclos[fn] {
					ff.walkAddr(mc.Bindings[i], r, seen)
				}
			}
		}
		ff.walkStores(x, r, seen)
	case *ssa.IndexAddr:
		// elements of a slice: a variadic parameter or a container
		if pt, ok := x.Type().Underlying().(*types.Pointer); ok {
			ff.bySig(pt.Elem(), r)
		}
	default:
		if pt, ok := a.Type().Underlying().(*types.Pointer); ok {
			ff.bySig(pt.Elem(), r)
		}
	}
}

func (ff *FuncFlow) walkStores(v ssa.Value, r *FuncSetResult, seen map[ssa.Value]bool) {
	if v.Referrers() == nil {
		return
	}
	for _, ref := range *v.Referrers() {
		switch x := ref.(type) {
		case *ssa.Store:
			if x.Addr == v {
				ff.walk(x.Val, r, seen)
			}
		case *ssa.MakeClosure:
			f := x.Fn.(*ssa.Function)
			for i, b := range x.Bindings {
				if b == v && i < len(f.FreeVars) {
					fv := f.FreeVars[i]
					if !seen[fv] {
						seen[fv] = true
						ff.walkStores(fv, r, seen)
					}
				}
			}
		}
	}
}

// CallTargets are the possible callees of a call.
type CallTargets struct {
	Fns      []*ssa.Function // module functions with bodies
	Ext      *types.Func     // the declared function or interface method outside the module (or without body)
	User     bool            // may call a function supplied by the user
	FuncVal  bool            // the call is through a function value
	Builtin  string
	NilConst bool
}

func (p *Program) flow() *FuncFlow {
	if p.funcVals == nil {
		p.funcVals = newFuncFlow(p)
	}
	return p.funcVals
}

func (p *Program) targets(cc *ssa.CallCommon) CallTargets {
	var t CallTargets
	if cc.IsInvoke() {
		t.Fns = p.implementers(cc.Value.Type(), cc.Method)
		t.Ext = cc.Method
		return t
	}
	switch v := cc.Value.(type) {
	case *ssa.Builtin:
		t.Builtin = v.Name()
		return t
	case *ssa.Function:
		if len(v.Blocks) > 0 && p.FuncSet[v] {
			t.Fns = []*ssa.Function{v}
		} else if o, ok := v.Object().(*types.Func); ok {
			t.Ext = o
		}
		return t
	}
	t.FuncVal = true
	if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
		t.Fns = []*ssa.Function{mc.Fn.(*ssa.Function)}
		return t
	}
	r := p.flow().resolve(cc.Value)
	for _, f := range r.list() {
		if len(f.Blocks) > 0 && p.FuncSet[f] {
			t.Fns = append(t.Fns, f)
		}
	}
	t.User = r.External
	return t
}

// extName is "pkg.Func" or "pkg.Type.Method" for a function outside the module.
func extName(f *types.Func) string {
	if f == nil {
		return ""
	}
	sig := f.Type().(*types.Signature)
	pkg := ""
	if f.Pkg() != nil {
		pkg = f.Pkg().Path()
	}
	if r := sig.Recv(); r != nil {
		if n := named(r.Type()); n != nil {
			if n.Obj().Pkg() != nil {
				pkg = n.Obj().Pkg().Path()
			} else {
				pkg = ""
			}
			return strings.TrimPrefix(pkg+"."+n.Obj().Name()+"."+f.Name(), ".")
		}
		return pkg + ".?." + f.Name()
	}
	return pkg + "." + f.Name()
}

func extOf(p *Program, cc *ssa.CallCommon) string {
	return extName(p.targets(cc).Ext)
}
