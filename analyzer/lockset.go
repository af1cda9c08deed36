package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Interprocedural lockset and ownership analysis.
//
// Every function is analysed, by a forward data-flow analysis over its
// control-flow graph, once per calling context: the locks that must and may be
// held on entry, and which parameters point to objects no other goroutine can
// reach yet. Events (accesses to shared locations, lock acquisitions, waits)
// are recorded with the locksets of the contexts they are reached in.

type tokKey struct {
	v     ssa.Value
	idx   int
	child string
}

type tstate struct {
	pub      bool
	pend     map[string]bool
	assigned map[string]bool
	children map[string]map[tokKey]bool
}

func (t *tstate) clone() *tstate {
	n := &tstate{pub: t.pub, pend: cloneSet(t.pend), assigned: cloneSet(t.assigned), children: map[string]map[tokKey]bool{}}
	for k, v := range t.children {
		m := map[tokKey]bool{}
		for x := range v {
			m[x] = true
		}
		n.children[k] = m
	}
	return n
}

func cloneSet(m map[string]bool) map[string]bool {
	n := make(map[string]bool, len(m))
	for k := range m {
		n[k] = true
	}
	return n
}

type mayLock struct {
	mode  byte
	sites map[string]bool
}

type lsState struct {
	must     map[string]byte
	may      map[string]*mayLock
	defers   []*ssa.Defer
	tok      map[tokKey]*tstate
	detached map[ssa.Value]bool
	epoch    map[string]string // lock class -> acquisition site of the current critical section (must)
}

func newLsState() *lsState {
	return &lsState{must: map[string]byte{}, may: map[string]*mayLock{}, tok: map[tokKey]*tstate{}, detached: map[ssa.Value]bool{}, epoch: map[string]string{}}
}

func (s *lsState) clone() *lsState {
	n := newLsState()
	for k, v := range s.must {
		n.must[k] = v
	}
	for k, v := range s.may {
		n.may[k] = &mayLock{v.mode, cloneSet(v.sites)}
	}
	n.defers = append([]*ssa.Defer(nil), s.defers...)
	for k, v := range s.tok {
		n.tok[k] = v.clone()
	}
	for k := range s.detached {
		n.detached[k] = true
	}
	for k, v := range s.epoch {
		n.epoch[k] = v
	}
	return n
}

// join merges o into s and reports whether s changed.
func (s *lsState) join(o *lsState) bool {
	ch := false
	for k, v := range s.must {
		ov, ok := o.must[k]
		if !ok {
			delete(s.must, k)
			ch = true
		} else if v == 'W' && ov == 'R' {
			s.must[k] = 'R'
			ch = true
		}
	}
	for k, v := range o.may {
		m, ok := s.may[k]
		if !ok {
			s.may[k] = &mayLock{v.mode, cloneSet(v.sites)}
			ch = true
			continue
		}
		if v.mode == 'W' && m.mode == 'R' {
			m.mode = 'W'
			ch = true
		}
		for x := range v.sites {
			if !m.sites[x] {
				m.sites[x] = true
				ch = true
			}
		}
	}
	for _, d := range o.defers {
		found := false
		for _, e := range s.defers {
			if e == d {
				found = true
			}
		}
		if !found {
			s.defers = append(s.defers, d)
			ch = true
		}
	}
	for k, v := range o.tok {
		t, ok := s.tok[k]
		if !ok {
			s.tok[k] = v.clone()
			ch = true
			continue
		}
		if v.pub && !t.pub {
			t.pub = true
			ch = true
		}
		for x := range v.pend {
			if !t.pend[x] {
				t.pend[x] = true
				ch = true
			}
		}
		for x := range v.assigned {
			if !t.assigned[x] {
				t.assigned[x] = true
				ch = true
			}
		}
		for f, c := range v.children {
			if t.children[f] == nil {
				t.children[f] = map[tokKey]bool{}
			}
			for x := range c {
				if !t.children[f][x] {
					t.children[f][x] = true
					ch = true
				}
			}
		}
	}
	for k := range s.detached {
		if !o.detached[k] {
			delete(s.detached, k)
			ch = true
		}
	}
	for k, v := range s.epoch {
		if ov, ok := o.epoch[k]; !ok || ov != v {
			if v != "*" {
				s.epoch[k] = "*"
				ch = true
			}
		}
	}
	return ch
}

// lorigin says that a slice or map holds the contents of a shared location.
type lorigin struct {
	loc  string
	load ssa.Value // the load in this function, nil if it came from the context
	base ssa.Value // pointer the location hangs off
	own  bool      // (from the context) owned
}

type paramCtx struct {
	owned    bool
	assigned string
	children string
	loc      string
	origins  string
	from     string
}

type lsCtx struct {
	fn     *ssa.Function
	must   string
	may    string
	params string
	inInit bool
	async  string
}

type resAV struct {
	fresh    bool
	assigned map[string]bool
	children map[string]bool
	origins  []string
	from     string
}

type lsSummary struct {
	exitMust map[string]byte
	exitMay  map[string]*mayLock
	params   []*tstate // final states of owned params (nil otherwise)
	results  []resAV
	returns  bool
	done     bool
}

type lsAccess struct {
	loc    string
	write  bool
	atomic bool
	locks  map[string]byte
	fn     *ssa.Function
	ins    ssa.Instruction
	root   string
	async  string
}

type lsEdge struct {
	from, to string
	fn       *ssa.Function
	pos      string
	root     string
	fromSite string
}

type lsWait struct {
	kind  string
	desc  string
	owner string // type owning the stream, for stream I/O
	held  map[string]*mayLock
	must  map[string]byte
	epoch map[string]string
	fn    *ssa.Function
	ins   ssa.Instruction
	root  string
	chans []string // channels waited on, for channel operations
}

type lsClose struct{ ch, root, async string }

type lsProblem struct {
	kind, class, msg string
	fn               *ssa.Function
	pos              string
}

// Lockset is the result of the whole analysis.
type Lockset struct {
	p        *Program
	memo     map[lsCtx]*lsSummary
	accesses []lsAccess
	edges    map[string]lsEdge
	waits    []lsWait
	problems []lsProblem
	acquires map[string]map[string]bool // class -> sites
	roots    map[string]bool
	contexts int
	queue    []rootJob
	queued   map[string]bool
	visited  map[*ssa.Function]bool
	shared   map[string]bool
	curRoot  string
	condL    map[string]string
	frozen   map[string]bool
	closes   []lsClose
	locksIn  map[string]bool // entry points that take a lock
}

type rootJob struct {
	fn    *ssa.Function
	name  string
	async string
	ctx   []paramCtx
}

func (p *Program) lockset() *Lockset {
	if p.ls != nil {
		return p.ls
	}
	ls := &Lockset{p: p, memo: map[lsCtx]*lsSummary{}, edges: map[string]lsEdge{}, acquires: map[string]map[string]bool{},
		roots: map[string]bool{}, locksIn: map[string]bool{}, queued: map[string]bool{}, visited: map[*ssa.Function]bool{}, condL: map[string]string{}}
	p.ls = ls
	ls.sharedTypes()
	ls.run()
	return ls
}

// sharedTypes: the struct types whose objects the library shares between goroutines.
func (ls *Lockset) sharedTypes() {
	p := ls.p
	ls.shared = map[string]bool{}
	var add func(t types.Type, depth int)
	seen := map[types.Type]bool{}
	add = func(t types.Type, depth int) {
		t = types.Unalias(t)
		if seen[t] {
			return
		}
		seen[t] = true
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			add(u.Elem(), depth)
			return
		case *types.Slice:
			if _, ok := types.Unalias(u.Elem()).Underlying().(*types.Struct); !ok {
				add(u.Elem(), depth)
			}
			return
		case *types.Map:
			add(u.Key(), depth)
			add(u.Elem(), depth)
			return
		case *types.Interface:
			if n := named(t); n != nil && n.Obj().Pkg() != nil {
				if _, ok := p.ByPath[n.Obj().Pkg().Path()]; ok {
					for _, m := range p.allNamed() {
						if types.IsInterface(m) {
							continue
						}
						if types.Implements(types.NewPointer(m), u) {
							add(m, depth+1)
						}
					}
				}
			}
			return
		}
		n := named(t)
		st := structOf(t)
		if st == nil {
			return
		}
		if n != nil {
			if n.Obj().Pkg() == nil {
				return
			}
			if _, ok := p.ByPath[n.Obj().Pkg().Path()]; !ok {
				return
			}
			ls.shared[p.typeName(n)] = true
		}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i).Type()
			if _, isStruct := types.Unalias(f).Underlying().(*types.Struct); isStruct {
				// an embedded or nested struct value belongs to its owner
				add(f, depth+1)
				continue
			}
			add(f, depth+1)
		}
	}
	for _, n := range p.allNamed() {
		if types.IsInterface(n) {
			continue
		}
		st := structOf(n)
		if st == nil {
			continue
		}
		root := false
		if hasSync(st) {
			root = true
		}
		for _, nm := range []string{"Conn", "Listener", "Addr"} {
			if o := netType(p, nm); o != nil && nm != "Addr" {
				if types.Implements(types.NewPointer(n), o) {
					root = true
				}
			}
		}
		if it := p.lookupType("Socket"); it != nil {
			if iface, ok := it.Underlying().(*types.Interface); ok && types.Implements(types.NewPointer(n), iface) {
				root = true
			}
		}
		if root {
			add(n, 0)
		}
	}
}

func hasSync(st *types.Struct) bool {
	for i := 0; i < st.NumFields(); i++ {
		t := deref(st.Field(i).Type())
		if n := named(t); n != nil && n.Obj().Pkg() != nil {
			if pp := n.Obj().Pkg().Path(); pp == "sync" || pp == "sync/atomic" {
				return true
			}
		}
	}
	return false
}

// netType finds an interface of package net among the imports.
func netType(p *Program, name string) *types.Interface {
	for _, pk := range p.Prog.AllPackages() {
		if pk.Pkg.Path() == "net" {
			if o := pk.Pkg.Scope().Lookup(name); o != nil {
				if it, ok := o.Type().Underlying().(*types.Interface); ok {
					return it
				}
			}
		}
	}
	return nil
}

func isInit(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if f.Parent() == nil {
			return f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")
		}
	}
	return false
}

func (ls *Lockset) run() {
	p := ls.p
	ff := p.flow()
	for _, fn := range p.Funcs {
		if fn.Parent() != nil || fn.Synthetic != "" {
			continue
		}
		if isInit(fn) {
			ls.addRoot(rootJob{fn: fn, name: p.fnName(fn)})
			continue
		}
		if ff.exportedAPI(fn) && !ls.callback(fn) {
			ls.addRoot(rootJob{fn: fn, name: p.fnName(fn)})
		} else if len(ff.callers[fn]) == 0 && !ls.addressTaken(fn) {
			ls.addRoot(rootJob{fn: fn, name: p.fnName(fn)})
		}
	}
	for len(ls.queue) > 0 {
		j := ls.queue[0]
		ls.queue = ls.queue[1:]
		ls.curRoot = j.name
		st := newLsState()
		sum := ls.analyze(j.fn, st, j.ctx, isInit(j.fn), j.async)
		for c, m := range sum.exitMay {
			ls.problem("leak", c, j.fn, p.pos(j.fn.Pos()), fmt.Sprintf("lock %s, taken at %s, may still be held when %s returns", c, strings.Join(sortedKeys(m.sites), ", "), p.fnName(j.fn)))
		}
	}
}

// callback: the method implements an interface through which the library
// calls the user's code (Security, Transport): the library decides when it runs.
func (ls *Lockset) callback(fn *ssa.Function) bool {
	r := fn.Signature.Recv()
	if r == nil || len(ls.p.flow().callers[fn]) == 0 {
		return false
	}
	n := ls.p.lookupType("Security")
	if n == nil {
		return false
	}
	it, ok := n.Underlying().(*types.Interface)
	if !ok || !types.Implements(r.Type(), it) {
		return false
	}
	for i := 0; i < it.NumMethods(); i++ {
		if it.Method(i).Name() == fn.Name() {
			return true
		}
	}
	return false
}

func (ls *Lockset) addressTaken(fn *ssa.Function) bool {
	for _, v := range ls.p.flow().addrTkn {
		for _, f := range v {
			if f == fn {
				return true
			}
		}
	}
	return false
}

func (ls *Lockset) addRoot(j rootJob) {
	k := fmt.Sprintf("%p|%s|%v", j.fn, j.async, j.ctx)
	if ls.queued[k] {
		return
	}
	ls.queued[k] = true
	ls.roots[j.name] = true
	ls.queue = append(ls.queue, j)
}

func (ls *Lockset) problem(kind, class string, fn *ssa.Function, pos, msg string) {
	for _, q := range ls.problems {
		if q.kind == kind && q.class == class && q.fn == fn && q.pos == pos {
			return
		}
	}
	ls.problems = append(ls.problems, lsProblem{kind, class, msg, fn, pos})
}

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func mustKey(m map[string]byte) string {
	var sb strings.Builder
	for _, k := range sortedKeys(m) {
		fmt.Fprintf(&sb, "%s:%c;", k, m[k])
	}
	return sb.String()
}

func mayKey(m map[string]*mayLock) string {
	var sb strings.Builder
	for _, k := range sortedKeys(m) {
		fmt.Fprintf(&sb, "%s:%c%v;", k, m[k].mode, sortedKeys(m[k].sites))
	}
	return sb.String()
}

// fa is the analysis of one function in one context.
type fa struct {
	following map[ssa.Value]bool // loads whose address is being looked at
	ls        *Lockset
	p         *Program
	fn        *ssa.Function
	pctx      map[ssa.Value]paramCtx
	inInit    bool
	async     string
	record    bool
	callRes   map[ssa.Value][]resAV
	sum       *lsSummary
	entry     *lsState
}

func (ls *Lockset) analyze(fn *ssa.Function, entry *lsState, pcs []paramCtx, inInit bool, async string) *lsSummary {
	var ps strings.Builder
	for _, c := range pcs {
		fmt.Fprintf(&ps, "%v|", c)
	}
	key := lsCtx{fn, mustKey(entry.must) + "#" + fmt.Sprint(entry.epoch), mayKey(entry.may), ps.String(), inInit, async}
	if s, ok := ls.memo[key]; ok {
		return s
	}
	s := &lsSummary{exitMust: map[string]byte{}, exitMay: map[string]*mayLock{}}
	// for recursive calls: as if nothing happened
	for k, v := range entry.must {
		s.exitMust[k] = v
	}
	for k, v := range entry.may {
		s.exitMay[k] = &mayLock{v.mode, cloneSet(v.sites)}
	}
	s.params = make([]*tstate, len(pcs))
	s.results = make([]resAV, fn.Signature.Results().Len())
	s.returns = true
	ls.memo[key] = s
	ls.contexts++
	ls.visited[fn] = true

	f := &fa{ls: ls, p: ls.p, fn: fn, pctx: map[ssa.Value]paramCtx{}, inInit: inInit, async: async, callRes: map[ssa.Value][]resAV{}, sum: s}
	st := newLsState()
	for k, v := range entry.must {
		st.must[k] = v
	}
	for k, v := range entry.may {
		st.may[k] = &mayLock{v.mode, cloneSet(v.sites)}
	}
	for k, v := range entry.epoch {
		st.epoch[k] = v
	}
	vals := f.params()
	for i, v := range vals {
		if i < len(pcs) {
			f.pctx[v] = pcs[i]
			if pcs[i].owned {
				t := &tstate{pend: map[string]bool{}, assigned: setOf(pcs[i].assigned), children: map[string]map[tokKey]bool{}}
				for c := range setOf(pcs[i].children) {
					ck := tokKey{v, 0, c}
					st.tok[ck] = newTok()
					t.children[c] = map[tokKey]bool{ck: true}
				}
				st.tok[tokKey{v, 0, ""}] = t
			}
		}
	}
	f.entry = st

	in := map[*ssa.BasicBlock]*lsState{fn.Blocks[0]: st.clone()}
	work := []*ssa.BasicBlock{fn.Blocks[0]}
	inWork := map[*ssa.BasicBlock]bool{fn.Blocks[0]: true}
	for iter := 0; len(work) > 0; iter++ {
		if iter > 20000 {
			fatalf("lockset analysis of %s does not converge", ls.p.fnName(fn))
		}
		b := work[0]
		work = work[1:]
		inWork[b] = false
		out := f.block(b, in[b].clone())
		for _, su := range b.Succs {
			if in[su] == nil {
				in[su] = out.clone()
			} else if !in[su].join(out) {
				continue
			}
			if !inWork[su] {
				inWork[su] = true
				work = append(work, su)
			}
		}
	}
	// record
	f.record = true
	first := true
	s.returns = false
	var final *lsState
	resInit := make([]bool, len(s.results))
	for _, b := range fn.Blocks {
		if in[b] == nil {
			continue
		}
		out := f.block(b, in[b].clone())
		last := b.Instrs[len(b.Instrs)-1]
		if ret, ok := last.(*ssa.Return); ok {
			s.returns = true
			if first {
				final = out.clone()
				first = false
			} else {
				final.join(out)
			}
			for i, rv := range ret.Results {
				ra := f.resultAV(rv, out)
				if !resInit[i] {
					s.results[i] = ra
					resInit[i] = true
				} else {
					s.results[i] = joinRes(s.results[i], ra)
				}
			}
		}
	}
	if final != nil {
		s.exitMust = final.must
		s.exitMay = final.may
		for i, v := range vals {
			if i < len(pcs) && pcs[i].owned {
				s.params[i] = final.tok[tokKey{v, 0, ""}]
			}
		}
	} else {
		s.exitMust = map[string]byte{}
		s.exitMay = map[string]*mayLock{}
	}
	s.done = true
	return s
}

func joinRes(a, b resAV) resAV {
	if a.fresh && !b.fresh && b.from == "const" {
		return a
	}
	if b.fresh && !a.fresh && a.from == "const" {
		return b
	}
	r := resAV{fresh: a.fresh && b.fresh, assigned: cloneSet(a.assigned), children: map[string]bool{}, from: a.from}
	for k := range b.assigned {
		r.assigned[k] = true
	}
	for k := range a.children {
		if b.children[k] {
			r.children[k] = true
		}
	}
	if r.from == "" || r.from == "const" {
		r.from = b.from
	}
	seen := map[string]bool{}
	for _, o := range append(append([]string{}, a.origins...), b.origins...) {
		if !seen[o] {
			seen[o] = true
			r.origins = append(r.origins, o)
		}
	}
	return r
}

func newTok() *tstate {
	return &tstate{pend: map[string]bool{}, assigned: map[string]bool{}, children: map[string]map[tokKey]bool{}}
}

func setOf(s string) map[string]bool {
	m := map[string]bool{}
	for _, x := range strings.Split(s, ",") {
		if x != "" {
			m[x] = true
		}
	}
	return m
}

func (f *fa) params() []ssa.Value {
	var out []ssa.Value
	for _, q := range f.fn.Params {
		out = append(out, q)
	}
	for _, q := range f.fn.FreeVars {
		out = append(out, q)
	}
	return out
}

// toks are the tracked objects a value points to; complete is false if it may
// also point to something else.
func (f *fa) toks(v ssa.Value, st *lsState) (map[tokKey]bool, bool) {
	out := map[tokKey]bool{}
	ok := f.toks1(v, st, out, map[ssa.Value]bool{})
	return out, ok
}

func (f *fa) toks1(v ssa.Value, st *lsState, out map[tokKey]bool, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	has := func(k tokKey) bool {
		if _, ok := st.tok[k]; ok {
			out[k] = true
			return true
		}
		return false
	}
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan, *ssa.Parameter, *ssa.FreeVar:
		return has(tokKey{v, 0, ""})
	case *ssa.Const:
		return true
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			if b.Name() == "append" {
				ok := true
				for _, a := range x.Call.Args {
					if !f.toks1(a, st, out, seen) {
						ok = false
					}
				}
				return ok
			}
			return false
		}
		return has(tokKey{v, 0, ""})
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return has(tokKey{c, x.Index, ""})
		}
		return false
	case *ssa.MakeInterface:
		return f.toks1(x.X, st, out, seen)
	case *ssa.ChangeType:
		return f.toks1(x.X, st, out, seen)
	case *ssa.ChangeInterface:
		return f.toks1(x.X, st, out, seen)
	case *ssa.TypeAssert:
		return f.toks1(x.X, st, out, seen)
	case *ssa.Slice:
		return f.toks1(x.X, st, out, seen)
	case *ssa.FieldAddr:
		return f.toks1(x.X, st, out, seen)
	case *ssa.IndexAddr:
		return f.toks1(x.X, st, out, seen)
	case *ssa.Phi:
		ok := true
		for _, e := range x.Edges {
			if !f.toks1(e, st, out, seen) {
				ok = false
			}
		}
		return ok
	case *ssa.MakeClosure:
		for _, b := range x.Bindings {
			f.toks1(b, st, out, seen)
		}
		return false
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false
		}
		field := ""
		base := x.X
		switch a := x.X.(type) {
		case *ssa.FieldAddr:
			field = structOf(a.X.Type()).Field(a.Field).Name()
			base = a.X
		case *ssa.IndexAddr:
			base = a.X
		}
		// what is reached by way of itself, as in a list, is not known
		if f.following[v] {
			return false
		}
		if f.following == nil {
			f.following = map[ssa.Value]bool{}
		}
		f.following[v] = true
		bt, complete := f.toks(base, st)
		delete(f.following, v)
		if !complete || len(bt) == 0 {
			return false
		}
		ok := true
		for k := range bt {
			t := st.tok[k]
			if t == nil || t.pub {
				ok = false
				continue
			}
			cs := t.children[field]
			if len(cs) == 0 {
				ok = false
				continue
			}
			for c := range cs {
				out[c] = true
			}
		}
		return ok
	}
	return false
}

// ownedBase: v points only to objects that no other goroutine can reach.
func (f *fa) ownedBase(v ssa.Value, st *lsState) bool {
	ts, complete := f.toks(v, st)
	if !complete || len(ts) == 0 {
		return false
	}
	for k := range ts {
		if st.tok[k] == nil || st.tok[k].pub {
			return false
		}
	}
	return true
}

type locInfo struct {
	loc  string
	base ssa.Value // pointer whose ownership decides
	vari bool      // a captured local variable
}

// locOf names the locations an address may refer to.
func (f *fa) locOf(a ssa.Value, st *lsState) []locInfo {
	switch x := a.(type) {
	case *ssa.FieldAddr:
		path := ""
		cur := ssa.Value(x)
		for {
			fa, ok := cur.(*ssa.FieldAddr)
			if !ok {
				break
			}
			nm := structOf(fa.X.Type()).Field(fa.Field).Name()
			if path == "" {
				path = nm
			} else if !strings.HasPrefix(path, "=") {
				path = nm + "." + path
			}
			if n := named(fa.X.Type()); n != nil && !strings.HasPrefix(path, "=") {
				path = "=" + f.p.typeName(n) + "." + path
			}
			cur = fa.X
		}
		if !strings.HasPrefix(path, "=") {
			// fields of an anonymous struct: local or global variable
			bs := f.locOf(cur, st)
			var out []locInfo
			for _, b := range bs {
				out = append(out, locInfo{b.loc + "." + path, b.base, b.vari})
			}
			return out
		}
		root := cur
		if ia, ok := cur.(*ssa.IndexAddr); ok {
			if _, isSlice := ia.X.Type().Underlying().(*types.Slice); isSlice {
				// element of a slice of structs: owned like the slice
				return []locInfo{{path[1:], ia.X, false}}
			}
			root = ia.X
		}
		return []locInfo{{path[1:], root, false}}
	case *ssa.Global:
		pkg := ""
		if x.Pkg != nil {
			pkg = f.p.shortPkg(x.Pkg.Pkg)
			if _, ok := f.p.ByPath[x.Pkg.Pkg.Path()]; !ok {
				return nil // of another module
			}
		}
		return []locInfo{{"var " + pkg + "." + x.Name(), nil, false}}
	case *ssa.Alloc:
		return []locInfo{{f.varName(x), x, true}}
	case *ssa.FreeVar, *ssa.Parameter:
		if pc, ok := f.pctx[a]; ok && pc.loc != "" {
			var out []locInfo
			for _, l := range strings.Split(pc.loc, ",") {
				out = append(out, locInfo{l, a, strings.HasPrefix(l, "local ")})
			}
			return out
		}
		return nil
	case *ssa.IndexAddr:
		if _, ok := x.X.Type().Underlying().(*types.Slice); ok {
			var out []locInfo
			for _, o := range f.origins(x.X, st) {
				out = append(out, locInfo{o.loc, o.base, false})
			}
			return out
		}
		return f.locOf(x.X, st)
	case *ssa.Phi:
		var out []locInfo
		for _, e := range x.Edges {
			if e != a {
				if _, ok := e.(*ssa.Phi); ok {
					continue
				}
				out = append(out, f.locOf(e, st)...)
			}
		}
		return out
	case *ssa.ChangeType:
		return f.locOf(x.X, st)
	}
	return nil
}

func (f *fa) varName(a *ssa.Alloc) string {
	return fmt.Sprintf("local %s of %s", a.Comment, f.p.fnName(a.Parent()))
}

// origins: the shared locations whose contents a slice or map value is.
func (f *fa) origins(v ssa.Value, st *lsState) []lorigin {
	var out []lorigin
	f.origins1(v, st, &out, map[ssa.Value]bool{})
	return out
}

func (f *fa) origins1(v ssa.Value, st *lsState, out *[]lorigin, seen map[ssa.Value]bool) {
	if seen[v] {
		return
	}
	seen[v] = true
	switch v.Type().Underlying().(type) {
	case *types.Slice, *types.Map:
	case *types.Interface, *types.Tuple:
	default:
		return
	}
	switch x := v.(type) {
	case *ssa.Parameter, *ssa.FreeVar:
		if pc, ok := f.pctx[v]; ok && pc.origins != "" {
			for _, l := range strings.Split(pc.origins, ",") {
				*out = append(*out, lorigin{loc: l, base: v})
			}
		}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return
		}
		if st != nil && st.detached[x] {
			return
		}
		for _, l := range f.locOf(x.X, st) {
			if l.vari {
				// a local variable: the values stored in it
				if al, ok := l.base.(*ssa.Alloc); ok && al.Referrers() != nil {
					for _, r := range *al.Referrers() {
						if s, ok := r.(*ssa.Store); ok && s.Addr == al {
							f.origins1(s.Val, st, out, seen)
						}
					}
				}
				continue
			}
			*out = append(*out, lorigin{loc: l.loc, load: x, base: l.base})
		}
	case *ssa.Slice:
		f.origins1(x.X, st, out, seen)
	case *ssa.ChangeType:
		f.origins1(x.X, st, out, seen)
	case *ssa.MakeInterface:
		f.origins1(x.X, st, out, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			f.origins1(e, st, out, seen)
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			if rs := f.callRes[c]; x.Index < len(rs) {
				for _, l := range rs[x.Index].origins {
					*out = append(*out, lorigin{loc: l})
				}
			}
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			if b.Name() == "append" {
				f.origins1(x.Call.Args[0], st, out, seen)
			}
			return
		}
		if rs := f.callRes[x]; len(rs) > 0 {
			for _, l := range rs[0].origins {
				*out = append(*out, lorigin{loc: l})
			}
			return
		}
		switch n := extOf(f.p, &x.Call); n {
		case "slices.Delete", "slices.DeleteFunc", "slices.Insert", "slices.Grow", "slices.Compact", "slices.Replace", "slices.Clip":
			f.origins1(x.Call.Args[0], st, out, seen)
		}
	}
}

// from: the location a value was loaded from (for streams and channels).
func (f *fa) from(v ssa.Value, st *lsState, seen map[ssa.Value]bool) string {
	if seen[v] {
		return ""
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		return "const"
	case *ssa.Parameter, *ssa.FreeVar:
		return f.pctx[v].from
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if g, ok := x.X.(*ssa.Global); ok && g.Pkg != nil {
				if _, mod := f.p.ByPath[g.Pkg.Pkg.Path()]; !mod {
					return "ext " + g.Pkg.Pkg.Path() + "." + g.Name()
				}
			}
			for _, l := range f.locOf(x.X, st) {
				if l.vari {
					if al, ok := l.base.(*ssa.Alloc); ok && al.Referrers() != nil {
						for _, r := range *al.Referrers() {
							if s, ok := r.(*ssa.Store); ok && s.Addr == al {
								if z := f.from(s.Val, st, seen); z != "" {
									return z
								}
							}
						}
					}
					if pc, ok := f.pctx[x.X]; ok && pc.from != "" {
						return pc.from
					}
					continue
				}
				return l.loc
			}
		}
	case *ssa.MakeInterface:
		if z := f.from(x.X, st, seen); z != "" {
			return z
		}
		return "type " + f.p.typeName(x.X.Type())
	case *ssa.ChangeInterface:
		return f.from(x.X, st, seen)
	case *ssa.ChangeType:
		return f.from(x.X, st, seen)
	case *ssa.TypeAssert:
		return f.from(x.X, st, seen)
	case *ssa.Phi:
		r := ""
		for _, e := range x.Edges {
			if seen[e] {
				continue
			}
			z := f.from(e, st, seen)
			if z == "" || z == "const" {
				continue
			}
			if r != "" && r != z {
				return ""
			}
			r = z
		}
		return r
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			if rs := f.callRes[c]; x.Index < len(rs) {
				return rs[x.Index].from
			}
		}
	case *ssa.Call:
		if rs := f.callRes[x]; len(rs) > 0 {
			return rs[0].from
		}
	case *ssa.Alloc:
		return "type " + f.p.typeName(x.Type())
	}
	return ""
}

func (f *fa) resultAV(v ssa.Value, st *lsState) resAV {
	r := resAV{assigned: map[string]bool{}, children: map[string]bool{}}
	r.from = f.from(v, st, map[ssa.Value]bool{})
	for _, o := range f.origins(v, st) {
		if o.base != nil && f.ownedBase(o.base, st) {
			continue
		}
		r.origins = append(r.origins, o.loc)
	}
	if pt, ok := deref2ptr(v.Type()); ok && pt {
		ts, complete := f.toks(v, st)
		if complete && len(ts) > 0 {
			fresh := true
			for k := range ts {
				t := st.tok[k]
				if t == nil || t.pub || len(t.pend) > 0 {
					fresh = false
					continue
				}
				if _, isParam := k.v.(*ssa.Parameter); isParam {
					fresh = false // the caller's own object: it keeps its token
				}
				if _, isFV := k.v.(*ssa.FreeVar); isFV {
					fresh = false
				}
				for a := range t.assigned {
					r.assigned[a] = true
				}
				for c, cs := range t.children {
					own := len(cs) > 0
					for ck := range cs {
						if st.tok[ck] == nil || st.tok[ck].pub {
							own = false
						}
					}
					if own {
						r.children[c] = true
					}
				}
			}
			r.fresh = fresh
		}
	}
	return r
}

func deref2ptr(t types.Type) (bool, bool) {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Slice, *types.Map:
		return true, true
	}
	return false, true
}

// publish makes objects reachable for other goroutines.
func (f *fa) publish(k tokKey, st *lsState, pend map[string]byte) {
	t := st.tok[k]
	if t == nil || t.pub {
		return
	}
	if len(pend) > 0 {
		ch := false
		for c := range pend {
			if !t.pend[c] {
				t.pend[c] = true
				ch = true
			}
		}
		if !ch {
			return
		}
	} else {
		t.pub = true
	}
	for _, cs := range t.children {
		for c := range cs {
			f.publish(c, st, pend)
		}
	}
}

func (f *fa) publishVal(v ssa.Value, st *lsState, pend map[string]byte) {
	ts, _ := f.toks(v, st)
	for k := range ts {
		f.publish(k, st, pend)
	}
}

func writeHeld(st *lsState) map[string]byte {
	m := map[string]byte{}
	for k, v := range st.must {
		if v == 'W' {
			m[k] = v
		}
	}
	return m
}

// storeInto: val becomes reachable from the object(s) at base (field name).
func (f *fa) storeInto(base ssa.Value, field string, val ssa.Value, st *lsState) {
	vts, _ := f.toks(val, st)
	isFunc := false
	if _, ok := val.Type().Underlying().(*types.Signature); ok {
		isFunc = true
		if c, ok := val.(*ssa.Const); ok && c.IsNil() {
			isFunc = false
		}
	}
	if base != nil {
		bts, complete := f.toks(base, st)
		if complete && len(bts) > 0 {
			owned := true
			for k := range bts {
				if st.tok[k] == nil || st.tok[k].pub {
					owned = false
				}
			}
			if owned {
				for k := range bts {
					t := st.tok[k]
					if isFunc {
						t.assigned[field] = true
					}
					if len(vts) > 0 {
						if t.children[field] == nil {
							t.children[field] = map[tokKey]bool{}
						}
						for v := range vts {
							if v != k {
								t.children[field][v] = true
							}
						}
						if len(t.pend) > 0 {
							pend := map[string]byte{}
							for c := range t.pend {
								pend[c] = 'W'
							}
							for v := range vts {
								f.publish(v, st, pend)
							}
						}
					}
				}
				return
			}
		}
	}
	if len(vts) > 0 {
		pend := writeHeld(st)
		for k := range vts {
			f.publish(k, st, pend)
		}
	}
}

func (f *fa) release(class string, st *lsState) {
	for _, t := range st.tok {
		if t.pend[class] {
			t.pub = true
			t.pend = map[string]bool{}
		}
	}
}

// ---- transfer ----

func (f *fa) block(b *ssa.BasicBlock, st *lsState) *lsState {
	for _, ins := range b.Instrs {
		f.instr(ins, st)
	}
	return st
}

func (f *fa) access(loc string, base ssa.Value, write, atomic bool, ins ssa.Instruction, st *lsState) {
	if !f.record || f.inInit {
		return
	}
	if base != nil && f.ownedBase(base, st) {
		return
	}
	if strings.HasPrefix(loc, "local ") {
		// only matters when captured by a goroutine
	} else if !strings.HasPrefix(loc, "var ") {
		owner := loc
		if i := strings.LastIndex(loc, "."); i >= 0 {
			owner = ownerType(loc)
		}
		if !f.ls.shared[owner] {
			return
		}
	}
	locks := map[string]byte{}
	for k, v := range st.must {
		locks[k] = v
	}
	f.ls.accesses = append(f.ls.accesses, lsAccess{loc, write, atomic, locks, f.fn, ins, f.ls.curRoot, f.async})
}

// ownerType of "pkg.Type.field[.sub]" is "pkg.Type".
func ownerType(loc string) string {
	parts := strings.SplitN(loc, ".", 3)
	// package paths such as internal/inproc contain no dots
	if len(parts) >= 2 {
		return parts[0] + "." + parts[1]
	}
	return loc
}

func isSyncType(t types.Type) bool {
	n := named(t)
	if n == nil || n.Obj().Pkg() == nil {
		return false
	}
	pp := n.Obj().Pkg().Path()
	return pp == "sync" || pp == "sync/atomic"
}

func (f *fa) instr(ins ssa.Instruction, st *lsState) {
	switch x := ins.(type) {
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
		st.tok[tokKey{x.(ssa.Value), 0, ""}] = newTok()
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			delete(st.detached, x)
			if isSyncType(x.Type()) {
				return
			}
			for _, l := range f.locOf(x.X, st) {
				f.access(l.loc, l.base, false, false, x, st)
			}
		case token.ARROW:
			f.join(x.X, st)
			f.wait("channel receive", "receive from "+f.chanName(x.X, st), "", x, st)
		}
	case *ssa.Store:
		if !isSyncType(x.Val.Type()) {
			for _, l := range f.locOf(x.Addr, st) {
				f.access(l.loc, l.base, true, false, x, st)
				// contents handed out under the lock are detached when the field is replaced
				if len(writeHeld(st)) > 0 {
					same := false
					for _, o := range f.origins(x.Val, st) {
						if o.loc == l.loc {
							same = true
						}
					}
					if !same {
						f.detach(l.loc, st)
					}
				}
			}
		}
		switch a := x.Addr.(type) {
		case *ssa.FieldAddr:
			f.storeInto(a.X, structOf(a.X.Type()).Field(a.Field).Name(), x.Val, st)
		case *ssa.IndexAddr:
			f.storeInto(a.X, "", x.Val, st)
		default:
			f.storeInto(x.Addr, "", x.Val, st)
		}
	case *ssa.MapUpdate:
		for _, o := range f.origins(x.Map, st) {
			f.access(o.loc, o.base, true, false, x, st)
		}
		f.storeMap(x.Map, x.Key, st)
		f.storeMap(x.Map, x.Value, st)
	case *ssa.Lookup:
		for _, o := range f.origins(x.X, st) {
			f.access(o.loc, o.base, false, false, x, st)
		}
	case *ssa.Range:
		for _, o := range f.origins(x.X, st) {
			f.access(o.loc, o.base, false, false, x, st)
		}
	case *ssa.Next:
		if r, ok := x.Iter.(*ssa.Range); ok {
			for _, o := range f.origins(r.X, st) {
				f.access(o.loc, o.base, false, false, x, st)
			}
		}
	case *ssa.Send:
		f.publishVal(x.X, st, nil)
		f.wait("channel send", "send to "+f.chanName(x.Chan, st), "", x, st)
	case *ssa.Select:
		for _, s := range x.States {
			if s.Dir == types.SendOnly {
				f.publishVal(s.Send, st, nil)
			}
		}
		if x.Blocking {
			f.wait("select", "select without default", "", x, st)
		}
	case *ssa.Defer:
		for _, d := range st.defers {
			if d == x {
				return
			}
		}
		st.defers = append(st.defers, x)
	case *ssa.RunDefers:
		for i := len(st.defers) - 1; i >= 0; i-- {
			f.call(st.defers[i], st.defers[i].Common(), nil, st)
		}
	case *ssa.Go:
		f.async_(x, x.Common(), "go statement", st)
	case *ssa.Call:
		f.call(x, x.Common(), x, st)
	}
}

func (f *fa) storeMap(m, v ssa.Value, st *lsState) {
	f.storeInto(m, "", v, st)
}

func (f *fa) detach(loc string, st *lsState) {
	for _, b := range f.fn.Blocks {
		for _, ins := range b.Instrs {
			if u, ok := ins.(*ssa.UnOp); ok && u.Op == token.MUL {
				for _, l := range f.locOf(u.X, st) {
					if l.loc == loc {
						st.detached[u] = true
					}
				}
			}
		}
	}
}

// join: after a join the goroutines' accesses to local variables are over.
func (f *fa) join(ch ssa.Value, st *lsState) {
	for k, t := range st.tok {
		if _, ok := k.v.(*ssa.Alloc); ok && t.pub {
			t.pub = false
		}
	}
}

func (f *fa) chanName(v ssa.Value, st *lsState) string {
	if n := f.from(v, st, map[ssa.Value]bool{}); n != "" {
		return n
	}
	return v.Name()
}

func (f *fa) wait(kind, desc, owner string, ins ssa.Instruction, st *lsState) {
	if !f.record {
		return
	}
	held := map[string]*mayLock{}
	for k, v := range st.may {
		held[k] = &mayLock{v.mode, cloneSet(v.sites)}
	}
	must := map[string]byte{}
	for k, v := range st.must {
		must[k] = v
	}
	ep := map[string]string{}
	for k, v := range st.epoch {
		ep[k] = v
	}
	var chans []string
	switch x := ins.(type) {
	case *ssa.Select:
		for _, s := range x.States {
			chans = append(chans, f.from(s.Chan, st, map[ssa.Value]bool{}))
		}
	case *ssa.UnOp:
		chans = append(chans, f.from(x.X, st, map[ssa.Value]bool{}))
	case *ssa.Send:
		chans = append(chans, f.from(x.Chan, st, map[ssa.Value]bool{}))
	}
	f.ls.waits = append(f.ls.waits, lsWait{kind, desc, owner, held, must, ep, f.fn, ins, f.ls.curRoot, chans})
}

// lockClass names the lock behind a *sync.Mutex, *sync.RWMutex or sync.Locker value.
func (f *fa) lockClass(v ssa.Value, st *lsState) string {
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			ls := f.locOf(x.X, st)
			if len(ls) == 0 {
				return "?"
			}
			// a Locker loaded from a Cond?
			if fa, ok := x.X.(*ssa.FieldAddr); ok && isNamed(fa.X.Type(), "sync", "Cond") {
				return f.condClass(fa.X, st)
			}
			if ls[0].vari {
				// a variable holding a pointer to a lock
				if al, ok := ls[0].base.(*ssa.Alloc); ok && al.Referrers() != nil {
					for _, r := range *al.Referrers() {
						if s, ok := r.(*ssa.Store); ok && s.Addr == al {
							return f.lockClass(s.Val, st)
						}
					}
				}
			}
			return ls[0].loc
		}
	case *ssa.FieldAddr, *ssa.Global, *ssa.Alloc, *ssa.FreeVar, *ssa.Parameter, *ssa.IndexAddr:
		if fa, ok := x.(*ssa.FieldAddr); ok && isNamed(fa.X.Type(), "sync", "Cond") {
			return f.condClass(fa.X, st)
		}
		ls := f.locOf(v, st)
		if len(ls) > 0 {
			return ls[0].loc
		}
	case *ssa.MakeInterface:
		return f.lockClass(x.X, st)
	case *ssa.ChangeInterface:
		return f.lockClass(x.X, st)
	case *ssa.ChangeType:
		return f.lockClass(x.X, st)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if c := f.lockClass(e, st); c != "?" {
				return c
			}
		}
	case *ssa.Call:
		if n := extOf(f.p, &x.Call); n == "sync.RWMutex.RLocker" {
			return f.lockClass(x.Call.Args[0], st)
		}
		if rs := f.callRes[x]; len(rs) > 0 && rs[0].from != "" {
			return rs[0].from
		}
	}
	return "?"
}

// condClass is the lock of a condition variable.
func (f *fa) condClass(c ssa.Value, st *lsState) string {
	// name of the condition variable
	name := ""
	switch x := c.(type) {
	case *ssa.UnOp:
		if ls := f.locOf(x.X, st); len(ls) > 0 {
			name = ls[0].loc
		}
	default:
		if ls := f.locOf(c, st); len(ls) > 0 {
			name = ls[0].loc
		}
	}
	if name == "" {
		return "?"
	}
	if r, ok := f.ls.condL[name]; ok {
		return r
	}
	f.ls.condL[name] = name + ".L"
	// find the assignment of its lock
	for _, fn := range f.p.Funcs {
		g := &fa{ls: f.ls, p: f.p, fn: fn, pctx: map[ssa.Value]paramCtx{}}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				s, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok && isNamed(fa.X.Type(), "sync", "Cond") {
					if ls := g.locOf(fa.X, nil); len(ls) > 0 && ls[0].loc == name {
						if cl := g.lockClass(s.Val, nil); cl != "?" && !strings.HasPrefix(cl, "local ") {
							f.ls.condL[name] = cl
						}
					}
					continue
				}
				if ls := g.locOf(s.Addr, nil); len(ls) > 0 && ls[0].loc == name {
					if call, ok := s.Val.(*ssa.Call); ok && extOf(f.p, &call.Call) == "sync.NewCond" {
						if cl := g.lockClass(call.Call.Args[0], nil); cl != "?" && !strings.HasPrefix(cl, "local ") {
							f.ls.condL[name] = cl
						}
					}
				}
			}
		}
	}
	return f.ls.condL[name]
}

func (f *fa) acquire(class string, mode byte, ins ssa.Instruction, st *lsState) {
	pos := f.p.instrPos(ins)
	if f.record {
		f.ls.locksIn[f.ls.curRoot] = true
		if f.ls.acquires[class] == nil {
			f.ls.acquires[class] = map[string]bool{}
		}
		f.ls.acquires[class][pos] = true
		for h, m := range st.may {
			site := strings.Join(sortedKeys(m.sites), ", ")
			if h == class {
				f.ls.problem("reacquire", class, f.fn, pos, fmt.Sprintf("lock %s is taken at %s while it may be held already (taken at %s)", class, pos, site))
				continue
			}
			k := h + " -> " + class
			if _, ok := f.ls.edges[k]; !ok {
				f.ls.edges[k] = lsEdge{h, class, f.fn, pos, f.ls.curRoot, site}
			}
		}
		if class == "?" {
			f.ls.problem("unresolved", class, f.fn, pos, "cannot tell which lock is taken at "+pos)
		}
	}
	st.must[class] = mode
	st.epoch[class] = pos
	m := st.may[class]
	if m == nil {
		m = &mayLock{mode, map[string]bool{}}
		st.may[class] = m
	}
	if mode == 'W' {
		m.mode = 'W'
	}
	m.sites[pos] = true
}

func (f *fa) releaseLock(class string, ins ssa.Instruction, st *lsState) {
	if _, ok := st.may[class]; !ok && f.record {
		pos := f.p.instrPos(ins)
		f.ls.problem("unlock", class, f.fn, pos, fmt.Sprintf("lock %s is released at %s without having been taken", class, pos))
	}
	delete(st.must, class)
	delete(st.may, class)
	delete(st.epoch, class)
	f.release(class, st)
}

// async functions of libraries: the function runs in another goroutine.
var asyncFuncs = map[string]int{
	"context.AfterFunc":                      1,
	"time.AfterFunc":                         1,
	"golang.org/x/sync/errgroup.Group.Go":    1,
	"golang.org/x/sync/errgroup.Group.TryGo": 1,
	"sync.WaitGroup.Go":                      1,
}

func (f *fa) async_(ins ssa.Instruction, cc *ssa.CallCommon, how string, st *lsState) {
	var fnv ssa.Value = cc.Value
	if !cc.IsInvoke() {
		f.publishVal(fnv, st, nil)
	} else {
		f.publishVal(cc.Value, st, nil)
	}
	for _, a := range cc.Args {
		f.publishVal(a, st, nil)
	}
	t := f.p.targets(cc)
	if !f.record {
		return
	}
	for _, fn := range t.Fns {
		pcs := f.paramCtxs(fn, cc, st)
		for i := range pcs {
			pcs[i].owned = false
			pcs[i].assigned = ""
			pcs[i].children = ""
		}
		f.ls.addRoot(rootJob{fn: fn, name: f.p.fnName(fn) + " (" + how + ")", async: how, ctx: pcs})
	}
}

// asyncValue: the function value runs in another goroutine.
func (f *fa) asyncValue(v ssa.Value, how string, st *lsState) {
	f.publishVal(v, st, nil)
	if !f.record {
		return
	}
	for _, fn := range f.funcsOf(v) {
		var pcs []paramCtx
		cc := ssa.CallCommon{Value: v}
		pcs = f.paramCtxs(fn, &cc, st)
		for i := range pcs {
			pcs[i].owned = false
			pcs[i].assigned = ""
			pcs[i].children = ""
		}
		f.ls.addRoot(rootJob{fn: fn, name: f.p.fnName(fn) + " (" + how + ")", async: how, ctx: pcs})
	}
}

func (f *fa) funcsOf(v ssa.Value) []*ssa.Function {
	if mc, ok := v.(*ssa.MakeClosure); ok {
		return []*ssa.Function{mc.Fn.(*ssa.Function)}
	}
	if fn, ok := v.(*ssa.Function); ok {
		if len(fn.Blocks) > 0 && f.p.FuncSet[fn] {
			return []*ssa.Function{fn}
		}
		return nil
	}
	var out []*ssa.Function
	for _, fn := range f.p.flow().resolve(v).list() {
		if len(fn.Blocks) > 0 && f.p.FuncSet[fn] {
			out = append(out, fn)
		}
	}
	return out
}

// paramCtxs describes the arguments (and captured variables) for a callee.
func (f *fa) paramCtxs(fn *ssa.Function, cc *ssa.CallCommon, st *lsState) []paramCtx {
	var args []ssa.Value
	if cc.IsInvoke() {
		args = append(args, cc.Value)
	}
	args = append(args, cc.Args...)
	var out []paramCtx
	for i := range fn.Params {
		if i < len(args) {
			out = append(out, f.pc(args[i], st))
		} else {
			out = append(out, paramCtx{})
		}
	}
	if len(fn.FreeVars) > 0 {
		mc, _ := cc.Value.(*ssa.MakeClosure)
		if mc == nil {
			// the closure was made elsewhere: use its only making site if it is in this function
			sites := f.p.flow().mkclos[fn]
			if len(sites) == 1 && sites[0].Parent() == f.fn {
				mc = sites[0]
			}
		}
		for i := range fn.FreeVars {
			if mc != nil {
				out = append(out, f.pc(mc.Bindings[i], st))
			} else {
				out = append(out, f.farBinding(fn, i))
			}
		}
	}
	return out
}

// farBinding: context of a captured variable of a closure made in another function.
func (f *fa) farBinding(fn *ssa.Function, i int) paramCtx {
	var pc paramCtx
	locs, orgs := map[string]bool{}, map[string]bool{}
	for _, mc := range f.p.flow().mkclos[fn] {
		g := &fa{ls: f.ls, p: f.p, fn: mc.Parent(), pctx: map[ssa.Value]paramCtx{}, callRes: map[ssa.Value][]resAV{}}
		b := mc.Bindings[i]
		if _, ok := b.Type().Underlying().(*types.Pointer); ok {
			for _, l := range g.locOf(b, newLsState()) {
				locs[l.loc] = true
			}
		}
		for _, o := range g.origins(b, newLsState()) {
			orgs[o.loc] = true
		}
		if z := g.from(b, newLsState(), map[ssa.Value]bool{}); z != "" {
			pc.from = z
		}
	}
	pc.loc = strings.Join(sortedKeys(locs), ",")
	pc.origins = strings.Join(sortedKeys(orgs), ",")
	return pc
}

func (f *fa) pc(v ssa.Value, st *lsState) paramCtx {
	var pc paramCtx
	if f.ownedBase(v, st) {
		pc.owned = true
		as, ch := map[string]bool{}, map[string]bool{}
		ts, _ := f.toks(v, st)
		firstT := true
		for k := range ts {
			t := st.tok[k]
			for a := range t.assigned {
				as[a] = true
			}
			cur := map[string]bool{}
			for c, cs := range t.children {
				own := len(cs) > 0 && c != ""
				for ck := range cs {
					if st.tok[ck] == nil || st.tok[ck].pub || len(st.tok[ck].pend) > 0 {
						own = false
					}
				}
				if own {
					cur[c] = true
				}
			}
			if firstT {
				ch = cur
				firstT = false
			} else {
				for c := range ch {
					if !cur[c] {
						delete(ch, c)
					}
				}
			}
			if len(t.pend) > 0 {
				// reachable for others as soon as the lock is released: the callee may release it
				pc.owned = true
			}
		}
		pc.assigned = strings.Join(sortedKeys(as), ",")
		pc.children = strings.Join(sortedKeys(ch), ",")
	}
	if _, ok := v.Type().Underlying().(*types.Pointer); ok {
		locs := map[string]bool{}
		switch v.(type) {
		case *ssa.FieldAddr, *ssa.Global, *ssa.IndexAddr, *ssa.Alloc, *ssa.FreeVar, *ssa.Parameter, *ssa.Phi:
			for _, l := range f.locOf(v, st) {
				locs[l.loc] = true
			}
		}
		pc.loc = strings.Join(sortedKeys(locs), ",")
	}
	orgs := map[string]bool{}
	for _, o := range f.origins(v, st) {
		if o.base != nil && f.ownedBase(o.base, st) {
			continue
		}
		orgs[o.loc] = true
	}
	pc.origins = strings.Join(sortedKeys(orgs), ",")
	pc.from = f.from(v, st, map[ssa.Value]bool{})
	if pc.from == "const" {
		pc.from = ""
	}
	return pc
}

var mutatingExt = map[string]bool{
	"slices.Delete": true, "slices.DeleteFunc": true, "slices.Insert": true, "slices.Replace": true, "slices.Compact": true,
	"slices.Sort": true, "slices.SortFunc": true, "slices.Reverse": true, "sort.Strings": true, "sort.Slice": true, "sort.Sort": true,
	"maps.Copy": true, "maps.DeleteFunc": true, "crypto/rand.Read": true,
}

var mutatingArg = map[string]int{"io.ReadFull": 1, "io.ReadAtLeast": 1, "net.Conn.Read": 0, "io.Reader.Read": 0}

// nilField: the function value is loaded from a field of an owned object that nothing was stored in.
func (f *fa) nilField(v ssa.Value, st *lsState) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	a, ok := u.X.(*ssa.FieldAddr)
	if !ok || !f.ownedBase(a.X, st) {
		return false
	}
	field := structOf(a.X.Type()).Field(a.Field).Name()
	ts, _ := f.toks(a.X, st)
	for k := range ts {
		if st.tok[k].assigned[field] {
			return false
		}
	}
	return true
}

func (f *fa) call(ins ssa.CallInstruction, cc *ssa.CallCommon, res ssa.Value, st *lsState) {
	t := f.p.targets(cc)
	if t.Builtin != "" {
		f.builtin(t.Builtin, ins, cc, st)
		return
	}
	name := ""
	if len(t.Fns) == 0 || cc.IsInvoke() {
		name = extName(t.Ext)
	}
	recv := func() ssa.Value {
		if cc.IsInvoke() {
			return cc.Value
		}
		return cc.Args[0]
	}
	// locks
	switch name {
	case "sync.Mutex.Lock", "sync.RWMutex.Lock", "sync.Locker.Lock":
		f.acquire(f.lockClass(recv(), st), 'W', ins, st)
		return
	case "sync.RWMutex.RLock":
		f.acquire(f.lockClass(recv(), st), 'R', ins, st)
		return
	case "sync.Mutex.Unlock", "sync.RWMutex.Unlock", "sync.Locker.Unlock", "sync.RWMutex.RUnlock":
		f.releaseLock(f.lockClass(recv(), st), ins, st)
		return
	case "sync.Mutex.TryLock", "sync.RWMutex.TryLock", "sync.RWMutex.TryRLock":
		f.ls.problem("trylock", f.lockClass(recv(), st), f.fn, f.p.instrPos(ins), "TryLock is not supported by the analysis")
		return
	case "sync.Cond.Wait":
		class := f.condClass(recv(), st)
		f.release(class, st)
		saved := st.may[class]
		delete(st.may, class)
		f.wait("condition variable", "wait on the condition variable of "+class, "", ins, st)
		if saved != nil {
			st.may[class] = saved
		}
		st.epoch[class] = f.p.instrPos(ins)
		return
	case "sync.WaitGroup.Wait", "golang.org/x/sync/errgroup.Group.Wait":
		f.wait("join", "wait for goroutines", "", ins, st)
		f.join(nil, st)
		return
	case "time.Sleep":
		f.wait("sleep", "time.Sleep", "", ins, st)
		return
	case "sync.Once.Do":
		for _, fn := range f.funcsOf(cc.Args[1]) {
			f.enter(fn, &ssa.CallCommon{Value: cc.Args[1]}, nil, st)
		}
		return
	}
	if i, ok := asyncFuncs[name]; ok && i < len(cc.Args) {
		f.asyncValue(cc.Args[i], name, st)
		return
	}
	if t.FuncVal && f.nilField(cc.Value, st) {
		return
	}
	if t.User && t.FuncVal {
		f.wait("user callback", "call of a function supplied by the user", "", ins, st)
	}
	t.Fns = f.restrict(t.Fns, cc, st)
	// streams
	f.streamIO(name, ins, cc, t, st)

	if len(t.Fns) > 0 {
		base := st
		var joined *lsState
		anyRet := false
		var results []resAV
		for _, fn := range t.Fns {
			s := base.clone()
			sum := f.enter(fn, cc, res, s)
			if !sum.returns {
				continue
			}
			anyRet = true
			if joined == nil {
				joined = s
				results = sum.results
			} else {
				joined.join(s)
				var rr []resAV
				for i := range results {
					rr = append(rr, joinRes(results[i], sum.results[i]))
				}
				results = rr
			}
		}
		if joined != nil {
			*st = *joined
		}
		_ = anyRet
		if t.User && !cc.IsInvoke() {
			results = nil
		}
		if res != nil {
			f.setResults(res, results, st)
		}
		return
	}
	// a library function: its arguments are read, some are written
	f.external(name, ins, cc, st)
	if res != nil {
		switch name {
		case "sync.NewCond", "container/list.New":
			st.tok[tokKey{res, 0, ""}] = newTok()
		}
	}
}

// restrict drops the targets of a dynamic call that the origin of the value rules out.
func (f *fa) restrict(fns []*ssa.Function, cc *ssa.CallCommon, st *lsState) []*ssa.Function {
	if !cc.IsInvoke() || len(fns) == 0 {
		return fns
	}
	fr := f.from(cc.Value, st, map[ssa.Value]bool{})
	if fr == "" {
		return fns
	}
	var out []*ssa.Function
	if strings.HasPrefix(fr, "type ") {
		for _, fn := range fns {
			if r := fn.Signature.Recv(); r != nil && "type "+f.p.typeName(r.Type()) == fr {
				out = append(out, fn)
			}
		}
		return out
	}
	it := f.p.locType(fr)
	if it == nil {
		return fns
	}
	for _, fn := range fns {
		if r := fn.Signature.Recv(); r != nil && types.Implements(r.Type(), it) {
			out = append(out, fn)
		}
	}
	return out
}

// locType is the interface type of a named location ("pkg.Type.field"), if it is one.
func (p *Program) locType(loc string) *types.Interface {
	parts := strings.Split(loc, ".")
	if len(parts) != 3 {
		return nil
	}
	for _, n := range p.allNamed() {
		if p.typeName(n) != parts[0]+"."+parts[1] {
			continue
		}
		st := structOf(n)
		if st == nil {
			return nil
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == parts[2] {
				it, _ := st.Field(i).Type().Underlying().(*types.Interface)
				return it
			}
		}
	}
	return nil
}

func (f *fa) setResults(res ssa.Value, results []resAV, st *lsState) {
	f.callRes[res] = results
	for i, r := range results {
		k := tokKey{res, i, ""}
		delete(st.tok, k)
		if r.fresh {
			t := newTok()
			t.assigned = cloneSet(r.assigned)
			for c := range r.children {
				ck := tokKey{res, i, c}
				st.tok[ck] = newTok()
				t.children[c] = map[tokKey]bool{ck: true}
			}
			st.tok[k] = t
		}
	}
}

// enter analyses the callee in the current context and applies its summary to st.
func (f *fa) enter(fn *ssa.Function, cc *ssa.CallCommon, res ssa.Value, st *lsState) *lsSummary {
	pcs := f.paramCtxs(fn, cc, st)
	entry := newLsState()
	for k, v := range st.must {
		entry.must[k] = v
	}
	for k, v := range st.may {
		entry.may[k] = &mayLock{v.mode, cloneSet(v.sites)}
	}
	for k, v := range st.epoch {
		entry.epoch[k] = v
	}
	sum := f.ls.analyze(fn, entry, pcs, f.inInit, f.async)
	if !sum.returns {
		return sum
	}
	for k := range st.must {
		if _, ok := sum.exitMust[k]; !ok {
			f.release(k, st)
		}
	}
	st.must = map[string]byte{}
	for k, v := range sum.exitMust {
		st.must[k] = v
	}
	st.may = map[string]*mayLock{}
	for k, v := range sum.exitMay {
		st.may[k] = &mayLock{v.mode, cloneSet(v.sites)}
	}
	for k := range st.epoch {
		if _, ok := st.may[k]; !ok {
			delete(st.epoch, k)
		}
	}
	// the callee's effects on the objects it was given
	var args []ssa.Value
	if cc.IsInvoke() {
		args = append(args, cc.Value)
	}
	args = append(args, cc.Args...)
	for len(args) < len(fn.Params) {
		args = append(args, nil)
	}
	args = args[:len(fn.Params)]
	if len(fn.FreeVars) > 0 {
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			args = append(args, mc.Bindings...)
		}
	}
	for i, a := range args {
		if a == nil || i >= len(pcs) || !pcs[i].owned || i >= len(sum.params) || sum.params[i] == nil {
			continue
		}
		ts, _ := f.toks(a, st)
		for k := range ts {
			t := st.tok[k]
			ps := sum.params[i]
			for x := range ps.assigned {
				t.assigned[x] = true
			}
			if ps.pub {
				f.publish(k, st, nil)
			} else if len(ps.pend) > 0 {
				pend := map[string]byte{}
				for c := range ps.pend {
					pend[c] = 'W'
				}
				f.publish(k, st, pend)
			}
			for c := range ps.children {
				if _, ok := t.children[c]; !ok && c != "" {
					ck := tokKey{k.v, k.idx, k.child + "/" + c}
					own := len(ps.children[c]) > 0
					if own {
						st.tok[ck] = newTok()
						t.children[c] = map[tokKey]bool{ck: true}
					}
				}
			}
		}
	}
	return sum
}

func (f *fa) builtin(name string, ins ssa.CallInstruction, cc *ssa.CallCommon, st *lsState) {
	switch name {
	case "close":
		if f.record {
			f.ls.closes = append(f.ls.closes, lsClose{f.from(cc.Args[0], st, map[ssa.Value]bool{}), f.ls.curRoot, f.async})
		}
	case "append":
		for _, o := range f.origins(cc.Args[0], st) {
			f.access(o.loc, o.base, true, false, ins, st)
		}
		if len(cc.Args) > 1 {
			for _, o := range f.origins(cc.Args[1], st) {
				f.access(o.loc, o.base, false, false, ins, st)
			}
		}
	case "copy":
		for _, o := range f.origins(cc.Args[0], st) {
			f.access(o.loc, o.base, true, false, ins, st)
		}
		for _, o := range f.origins(cc.Args[1], st) {
			f.access(o.loc, o.base, false, false, ins, st)
		}
	case "delete", "clear":
		for _, o := range f.origins(cc.Args[0], st) {
			f.access(o.loc, o.base, true, false, ins, st)
		}
	case "len":
		if _, ok := cc.Args[0].Type().Underlying().(*types.Map); ok {
			for _, o := range f.origins(cc.Args[0], st) {
				f.access(o.loc, o.base, false, false, ins, st)
			}
		}
	}
}

func (f *fa) external(name string, ins ssa.CallInstruction, cc *ssa.CallCommon, st *lsState) {
	atomicFn := strings.HasPrefix(name, "sync/atomic.") && !strings.Contains(strings.TrimPrefix(name, "sync/atomic."), ".")
	for i, a := range cc.Args {
		if atomicFn && i == 0 {
			for _, l := range f.locOf(a, st) {
				f.access(l.loc, l.base, !strings.Contains(name, "Load"), true, ins, st)
			}
			continue
		}
		for _, o := range f.origins(a, st) {
			w := mutatingExt[name] && i == 0
			if j, ok := mutatingArg[name]; ok {
				w = i == j
			}
			f.access(o.loc, o.base, w, false, ins, st)
		}
		switch x := a.(type) {
		case *ssa.FieldAddr:
			if !isSyncType(deref(x.Type())) {
				if n := named(deref(x.Type())); n != nil && n.Obj().Pkg() != nil && i == 0 && cc.Signature().Recv() != nil {
					// method of a library type held by value (net.Dialer, bytes.Buffer ...)
					w := !strings.Contains(name, "net.Dialer")
					for _, l := range f.locOf(a, st) {
						f.access(l.loc, l.base, w, false, ins, st)
					}
				} else {
					for _, l := range f.locOf(a, st) {
						f.access(l.loc, l.base, false, false, ins, st)
					}
				}
			}
		}
		// functions handed to library code are called in place
		if _, ok := a.Type().Underlying().(*types.Signature); ok {
			for _, fn := range f.funcsOf(a) {
				f.enter(fn, &ssa.CallCommon{Value: a}, nil, st)
			}
		}
	}
}

// streamIO recognises reads and writes that wait for the other end of a stream.
func (f *fa) streamIO(name string, ins ssa.CallInstruction, cc *ssa.CallCommon, t CallTargets, st *lsState) {
	isStream := func(v ssa.Value) (string, bool) {
		ty := v.Type()
		if _, ok := ty.Underlying().(*types.Interface); !ok {
			return "", false
		}
		fr := f.from(v, st, map[ssa.Value]bool{})
		if strings.HasPrefix(fr, "type ") {
			switch strings.TrimPrefix(fr, "type ") {
			case "bytes.Buffer", "bytes.Reader", "strings.Reader", "strings.Builder", "bufio.Writer", "bufio.Reader", "os.File":
				return "", false
			}
			return fr, true
		}
		if strings.HasPrefix(fr, "ext ") {
			return "", false
		}
		return fr, true
	}
	own := func(fr string) string {
		if fr == "" || strings.HasPrefix(fr, "type ") || strings.HasPrefix(fr, "ext ") || strings.HasPrefix(fr, "var ") {
			return fr
		}
		return ownerType(fr)
	}
	switch name {
	case "net.Conn.Read", "net.Conn.Write", "io.Reader.Read", "io.Writer.Write", "io.ReadWriter.Read", "io.ReadWriter.Write", "io.ReadWriteCloser.Read", "io.ReadWriteCloser.Write":
		if cc.IsInvoke() {
			if fr, ok := isStream(cc.Value); ok {
				f.wait("stream I/O", name+" on "+fr, own(fr), ins, st)
			}
		}
		return
	case "net.Listener.Accept":
		f.wait("accept", "Accept on a listener", "", ins, st)
		return
	case "net.Dialer.DialContext", "net.Dialer.Dial", "net.Dial", "net.DialTimeout":
		f.wait("dial", name, "", ins, st)
		return
	}
	if cc.IsInvoke() && cc.Method.Name() == "DialContext" {
		f.wait("dial", "DialContext", "", ins, st)
		return
	}
	if len(t.Fns) == 0 && !cc.IsInvoke() && t.Ext != nil && t.Ext.Pkg() != nil {
		switch t.Ext.Pkg().Path() {
		case "io", "bufio", "net", "encoding/binary", "encoding/json", "encoding/gob":
			for _, a := range cc.Args {
				if isNetConnish(a.Type()) {
					if fr, ok := isStream(a); ok {
						f.wait("stream I/O", name+" on "+fr, own(fr), ins, st)
						return
					}
				}
			}
		}
	}
}

// isNetConnish: an interface value that reads or writes.
func isNetConnish(t types.Type) bool {
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	for i := 0; i < it.NumMethods(); i++ {
		if n := it.Method(i).Name(); n == "Read" || n == "Write" {
			return true
		}
	}
	return false
}
