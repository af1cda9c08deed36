package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The flow engine is a path-sensitive dataflow analysis over SSA form
// (property simulation): abstract states hold value numbers of the live
// variables and memory cells, the branch conditions that led here, and the
// typestate of the client. Calls into the module are analysed in place. A
// loop is analysed until its abstract state is stable: whatever an iteration
// changed is forgotten at the loop head. States that agree on everything but
// the conditions they imply are merged.

// Flow is one analysis.
type Flow struct {
	p       *Program
	ts      *Terms
	c       Client
	frozenK map[FieldKey]bool // fields written after construction
	settled map[*Term]bool    // captured variables that do not change any more
	work    []*State
	visited map[string][]*seenState
	loops   map[*ssa.Function]*loopInfo
	live    map[*ssa.Function]*liveInfo
	steps   int
	states  int
	MaxSt   int
	Problem []string // what could not be analysed
	Paths   int      // paths that reached a return
	Fns     map[*ssa.Function]bool
	stopped bool
	trace   bool
}

// Client is what a check plugs into the engine.
type Client struct {
	// Call decides the effect of a call; nil: the engine's own treatment.
	Call func(st *State, ci *CallInfo) []Out
	// Targets chooses the callees of an interface call of unknown dynamic type.
	Targets func(st *State, ci *CallInfo) []*ssa.Function
	// Inline: analyse the callee in place (default: every function of the module).
	Inline func(st *State, fn *ssa.Function) bool
	// Model decides the effect of a call that leaves the module, before the built-in models.
	Model func(st *State, ci *CallInfo) []Out
	// RecvVal is the value received from a channel.
	RecvVal func(st *State, ch *Term, typ types.Type) *Term
	// RecvOk is told what was received and whether the channel was open.
	RecvOk func(st *State, ch, v, ok *Term)
	// Load overrides the value of a cell.
	Load func(st *State, addr *Term, typ types.Type) *Term
	// Queued is the number of values in a channel, or its capacity, if the client knows it.
	Queued func(st *State, ch *Term, room bool) *Term
	// Range yields the entries of a map, if the client knows them all.
	Range func(st *State, m *Term) (keys, vals []*Term, ok bool)
	// Store is told of each write.
	Store func(st *State, addr, val *Term, ins ssa.Instruction)
	// Event is told of channel operations, go statements, allocations, locks.
	Event func(st *State, ev *Event)
	// Branch may decide a condition.
	Branch func(st *State, cond *Term, ins *ssa.If) (val, known bool)
	// Return is told of each return of the root function.
	Return func(st *State, res []*Term, ins ssa.Instruction)
	// Panic is told of panics.
	Panic func(st *State, ins ssa.Instruction)
	// Ready: whether a channel operation can proceed (1 yes, 0 unknown, -1 no).
	Ready func(st *State, ch *Term, send bool) int
	// RunGo analyses goroutines in place, as if they ran at once.
	RunGo bool
	// RunGoIf does so for some of them.
	RunGoIf func(st *State, fn *ssa.Function) bool
	// NoKill: other goroutines do not change memory (single-threaded view).
	NoKill bool
	// Zeros: new objects get their zero values as they are made, so that they
	// are known even when others know the object.
	Zeros bool
	// Frozen: the cell belongs to nobody else, whatever goroutines do.
	Frozen func(addr *Term) bool
	// RunGroups analyses the functions given to an errgroup in place (implied by RunGo).
	RunGroups bool
	// Unroll: loops whose counters are known are followed iteration by iteration, up to this many.
	Elements int // how many elements of a list are followed (40)
	Unroll   int
	// Follow: loops are followed iteration by iteration up to this many whatever controls them.
	Follow int
	// Loop is told when a loop may go on for ever as far as its state is concerned:
	// the state at its head is covered by an earlier one.
	Loop     func(st *State, head *ssa.BasicBlock)
	MaxDepth int
}

type Event struct {
	Kind string // send recv close go lock unlock makeslice index slice assert select deref mapupdate delete
	Ins  ssa.Instruction
	Args []*Term
	Fn   *ssa.Function
	Sel  *ssa.Select
	Case int
}

// CallInfo describes a call.
type CallInfo struct {
	Ins  ssa.CallInstruction
	Fn   *ssa.Function // callee with a body in the module
	Ext  string        // name of a callee outside the module, or of the interface method
	Args []*Term       // receiver first
	Clos *Term         // the called function value
	Go   bool
	Dfr  bool
	Meth *types.Func
	Seen bool // for hooks that are both Call and Model: already consulted
}

// Out is one outcome of a call.
type Out struct {
	St  *State
	Res *Term
}

type Frame struct {
	fn     *ssa.Function
	key    string
	env    map[ssa.Value]*Term
	blk    *ssa.BasicBlock
	prev   *ssa.BasicBlock
	idx    int
	defers []deferred
	caller *Frame
	call   ssa.CallInstruction // in the caller
	isGo   bool
	isDfr  bool
	visits map[*ssa.BasicBlock]int
	snaps  map[*ssa.BasicBlock]*snap
	ret    func(st *State, res *Term) *Term
	depth  int
}

type deferred struct {
	ins  *ssa.Defer
	fn   *Term
	args []*Term
}

type snap struct {
	phis   map[*ssa.Phi]*Term
	heap   map[*Term]*Term
	props  map[string]*Term
	allocs map[*Term]bool
	epoch  string
	gen    map[*Term]bool // generalised cells
	genPhi map[*ssa.Phi]bool
	inv    map[*ssa.Phi][]bound // bounds of generalised counters that held so far
	signs  map[string]bool      // what was known of generalised variables in earlier iterations that are alike otherwise
	skip   int                  // iterations told apart before
	past   []*snap              // earlier ones
}

type Trail struct {
	prev *Trail
	text string
}

type State struct {
	f      *Flow
	top    *Frame
	heap   map[*Term]*Term
	facts  map[*Term]bool
	vals   map[*Term]*Term
	esc    map[*Term]bool
	allocs map[*Term]bool
	props  map[string]*Term
	epoch  string
	trail  *Trail
	res    *Term   // pending result
	pins   []*Term // values that stay of interest when no frame refers to them
}

type seenState struct {
	facts map[*Term]bool
	esc   map[*Term]bool
}

func (p *Program) newFlow(c Client) *Flow {
	f := &Flow{p: p, ts: newTerms(), c: c, visited: map[string][]*seenState{}, loops: map[*ssa.Function]*loopInfo{},
		live: map[*ssa.Function]*liveInfo{}, MaxSt: 80000, Fns: map[*ssa.Function]bool{}}
	f.frozenK = p.mutableFields()
	if f.c.MaxDepth == 0 {
		f.c.MaxDepth = 24
	}
	f.trace = os.Getenv("FLOWTRACE") != ""
	return f
}

// mutableFields are the fields that are written when others can see them.
func (p *Program) mutableFields() map[FieldKey]bool {
	if p.mutable != nil {
		return p.mutable
	}
	m := map[FieldKey]bool{}
	for _, a := range p.lockset().accesses {
		if !a.write {
			continue
		}
		mark := func(v ssa.Value) {
			for v != nil {
				switch x := v.(type) {
				case *ssa.FieldAddr:
					m[p.fieldKey(x.X.Type(), x.Field)] = true
					v = x.X
					continue
				case *ssa.IndexAddr:
					v = x.X
					continue
				case *ssa.Global:
					m[FieldKey{"", p.globalName(x)}] = true
				}
				return
			}
		}
		switch x := a.ins.(type) {
		case *ssa.Store:
			mark(x.Addr)
		case ssa.CallInstruction:
			for _, v := range x.Common().Args {
				if _, ok := v.Type().Underlying().(*types.Pointer); ok {
					mark(v)
				}
			}
		}
	}
	p.mutable = m
	return m
}

func (f *Flow) problem(format string, a ...any) {
	s := fmt.Sprintf(format, a...)
	for _, o := range f.Problem {
		if o == s {
			return
		}
	}
	if len(f.Problem) < 50 {
		f.Problem = append(f.Problem, s)
	}
}

// ---- states

func (f *Flow) newState() *State {
	return &State{f: f, heap: map[*Term]*Term{}, facts: map[*Term]bool{}, vals: map[*Term]*Term{}, esc: map[*Term]bool{},
		allocs: map[*Term]bool{}, props: map[string]*Term{}}
}

func cp[K comparable, V any](m map[K]V) map[K]V {
	o := make(map[K]V, len(m)+2)
	for k, v := range m {
		o[k] = v
	}
	return o
}

func (fr *Frame) clone() *Frame {
	n := *fr
	n.env = cp(fr.env)
	n.visits = cp(fr.visits)
	n.snaps = cp(fr.snaps)
	n.defers = append([]deferred(nil), fr.defers...)
	return &n
}

// Fork copies the state.
func (s *State) Fork() *State {
	n := *s
	if s.top != nil {
		n.top = s.top.clone()
	}
	n.heap, n.facts, n.vals = cp(s.heap), cp(s.facts), cp(s.vals)
	n.esc, n.allocs, n.props = cp(s.esc), cp(s.allocs), cp(s.props)
	return &n
}

func (s *State) ts() *Terms { return s.f.ts }

func (s *State) note(format string, a ...any) {
	s.trail = &Trail{s.trail, fmt.Sprintf(format, a...)}
}

// Trace lists the decisions on the way to this state.
func (s *State) Trace() []string {
	var out []string
	for t := s.trail; t != nil; t = t.prev {
		out = append(out, t.text)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	if len(out) > 40 {
		out = append(append(append([]string{}, out[:10]...), "..."), out[len(out)-29:]...)
	}
	return out
}

// Where is the position of the instruction under analysis, in the innermost frame.
func (s *State) Where() string {
	if s.top == nil {
		return "?"
	}
	return s.f.p.instrPos(s.top.blk.Instrs[max(0, min(s.top.idx, len(s.top.blk.Instrs)-1))])
}

func (s *State) InStack(fn *ssa.Function) bool {
	for fr := s.top; fr != nil; fr = fr.caller {
		if fr.fn == fn {
			return true
		}
	}
	return false
}

// name is a name for what ins computes here: the same for all paths that
// reach it in the same calls and loop iterations.
func (s *State) name(ins ssa.Instruction) string { return s.top.name(s.f, ins) }
func (fr *Frame) name(f *Flow, ins ssa.Instruction) string {
	return fr.key + ":" + f.site(ins) + fr.suffix(f, ins.Block())
}

func (fr *Frame) suffix(f *Flow, b *ssa.BasicBlock) string {
	li := f.loopInfo(fr.fn)
	sfx := ""
	for _, h := range li.of[b] {
		sfx += fmt.Sprintf("'%d", fr.visits[h])
	}
	return sfx
}

var siteNames = map[ssa.Instruction]string{}

func (f *Flow) site(ins ssa.Instruction) string {
	if n, ok := siteNames[ins]; ok {
		return n
	}
	b := ins.Block()
	for i, x := range b.Instrs {
		siteNames[x] = fmt.Sprintf("%d.%d", b.Index, i)
	}
	return siteNames[ins]
}

// ---- loops and liveness

type loopInfo struct {
	back map[[2]int]bool
	of   map[*ssa.BasicBlock][]*ssa.BasicBlock // headers of the loops a block is in
	head map[*ssa.BasicBlock]bool
}

func (f *Flow) loopInfo(fn *ssa.Function) *loopInfo {
	if li, ok := f.loops[fn]; ok {
		return li
	}
	li := &loopInfo{back: map[[2]int]bool{}, of: map[*ssa.BasicBlock][]*ssa.BasicBlock{}, head: map[*ssa.BasicBlock]bool{}}
	body := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	// Retreating edges of a depth-first search (natural loops have dominating headers; the
	// graphs of Go functions with goto may be irreducible, where any retreating edge will do).
	state := map[*ssa.BasicBlock]int{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		state[b] = 1
		for _, t := range b.Succs {
			if state[t] == 1 {
				li.back[[2]int{b.Index, t.Index}] = true
				li.head[t] = true
				if body[t] == nil {
					body[t] = map[*ssa.BasicBlock]bool{t: true}
				}
				// nodes that reach b without passing t
				st := []*ssa.BasicBlock{b}
				for len(st) > 0 {
					x := st[len(st)-1]
					st = st[:len(st)-1]
					if body[t][x] {
						continue
					}
					body[t][x] = true
					st = append(st, x.Preds...)
				}
			} else if state[t] == 0 {
				dfs(t)
			}
		}
		state[b] = 2
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
		if fn.Recover != nil && state[fn.Recover] == 0 {
			dfs(fn.Recover)
		}
	}
	var heads []*ssa.BasicBlock
	for h := range body {
		heads = append(heads, h)
	}
	sort.Slice(heads, func(i, j int) bool { return heads[i].Index < heads[j].Index })
	for _, h := range heads {
		for b := range body[h] {
			li.of[b] = append(li.of[b], h)
		}
	}
	f.loops[fn] = li
	return li
}

type liveInfo struct {
	in    map[*ssa.BasicBlock]map[ssa.Value]bool
	after map[ssa.Instruction]map[ssa.Value]bool
}

func isReg(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin:
		return false
	}
	return v != nil
}

func (f *Flow) liveInfo(fn *ssa.Function) *liveInfo {
	if l, ok := f.live[fn]; ok {
		return l
	}
	l := &liveInfo{in: map[*ssa.BasicBlock]map[ssa.Value]bool{}, after: map[ssa.Instruction]map[ssa.Value]bool{}}
	for _, b := range fn.Blocks {
		l.in[b] = map[ssa.Value]bool{}
	}
	step := func(b *ssa.BasicBlock, rec bool) map[ssa.Value]bool {
		out := map[ssa.Value]bool{}
		for _, t := range b.Succs {
			for v := range l.in[t] {
				out[v] = true
			}
			pi := -1
			for i, pr := range t.Preds {
				if pr == b {
					pi = i
				}
			}
			for _, ins := range t.Instrs {
				ph, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				delete(out, ph)
				if pi >= 0 && isReg(ph.Edges[pi]) {
					out[ph.Edges[pi]] = true
				}
			}
		}
		for i := len(b.Instrs) - 1; i >= 0; i-- {
			ins := b.Instrs[i]
			if rec {
				switch ins.(type) {
				case ssa.CallInstruction, *ssa.RunDefers:
					l.after[ins] = cp(out)
				}
			}
			if v, ok := ins.(ssa.Value); ok {
				delete(out, v)
			}
			if _, ok := ins.(*ssa.Phi); ok {
				continue
			}
			for _, op := range ins.Operands(nil) {
				if *op != nil && isReg(*op) {
					out[*op] = true
				}
			}
		}
		return out
	}
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			n := step(b, false)
			// phis are defined on entry
			if len(n) != len(l.in[b]) {
				l.in[b] = n
				changed = true
			}
		}
	}
	for _, b := range fn.Blocks {
		step(b, true)
	}
	f.live[fn] = l
	return l
}

// ---- conditions

// Eval decides a condition from what is known.
func (s *State) Eval(t *Term) (val, known bool) {
	if b, ok := t.boolVal(); ok {
		return b, true
	}
	if v, ok := s.facts[t]; ok {
		return v, true
	}
	if c, ok := s.vals[t]; ok {
		if b, ok := c.boolVal(); ok {
			return b, true
		}
	}
	ts := s.ts()
	switch t.op {
	case "not":
		v, k := s.Eval(t.args[0])
		return !v, k
	case "and":
		all := true
		for _, a := range t.args {
			v, k := s.Eval(a)
			if k && !v {
				return false, true
			}
			if !k {
				all = false
			}
		}
		if all {
			return true, true
		}
	case "ge":
		l := s.subst(t.args[0])
		if n, ok := l.intVal(); ok {
			return n >= 0, true
		}
		if s.Prove(l) {
			return true, true
		}
		if s.Prove(ts.linComb(l, -1, nil, 0, -1)) {
			return false, true
		}
	case "eq0":
		l := s.subst(t.args[0])
		if n, ok := l.intVal(); ok {
			return n == 0, true
		}
		if s.Prove(ts.linComb(l, 1, nil, 0, -1)) || s.Prove(ts.linComb(l, -1, nil, 0, -1)) {
			return false, true
		}
		if s.Prove(l) && s.Prove(ts.linComb(l, -1, nil, 0, 0)) {
			return true, true
		}
	case "eq":
		a, b := t.args[0], t.args[1]
		na, nb := a, b
		if v, ok := s.vals[a]; ok {
			na = v
		}
		if v, ok := s.vals[b]; ok {
			nb = v
		}
		if na != a || nb != b {
			return s.Eval(ts.eq(na, nb))
		}
		// a string that equals a constant has that constant's length
		if c, ok := b.strVal(); ok || func() bool { c, ok = a.strVal(); return ok }() {
			x := a
			if a.isConst() {
				x = b
			}
			if v, k := s.Eval(ts.eq(s.lenOf(x), ts.integer(int64(len(c))))); k && !v {
				return false, true
			}
			if len(c) == 0 {
				return s.Eval(ts.eq(s.lenOf(x), ts.Zero))
			}
		}
		if v, k := s.sameText(a, b); k {
			return v, true
		}
		// x == y and x == z is false where y == z is
		if a.isNil() || b.isNil() {
			x := a
			if a.isNil() {
				x = b
			}
			if s.NonNil(x) {
				return false, true
			}
		}
	}
	return false, false
}

// NonNil: the value is known not to be nil.
func (s *State) NonNil(x *Term) bool {
	if x.nonNil() {
		return true
	}
	if v, ok := s.facts[s.ts().eq(x, s.ts().Nil)]; ok && !v {
		return true
	}
	// a slice with elements
	switch x.op {
	case "sub", "seq", "bytes", "str":
		if s.Prove(s.ts().linComb(s.lenOf(x), 1, nil, 0, -1)) {
			return true
		}
	}
	return false
}

// IsNil: the value is known to be nil.
func (s *State) IsNil(x *Term) bool {
	if x.isNil() {
		return true
	}
	v, k := s.Eval(s.ts().eq(x, s.ts().Nil))
	return k && v
}

func (s *State) subst(l *Term) *Term {
	if l.op == "const" {
		return l
	}
	m, k := linOf(l)
	changed := false
	out := map[*Term]int64{}
	for a, c := range m {
		if v, ok := s.vals[a]; ok {
			if n, ok := v.intVal(); ok {
				k += c * n
				changed = true
				continue
			}
		}
		out[a] += c
	}
	if !changed {
		return l
	}
	return s.ts().mkLin(out, k, l.typ)
}

// Assume records that a condition holds (or does not); false: it cannot.
func (s *State) Assume(t *Term, val bool) bool {
	if v, k := s.Eval(t); k {
		if v == val && t.op != "const" {
			s.record(t, val)
		}
		return v == val
	}
	s.record(t, val)
	return true
}

func (s *State) record(t *Term, val bool) {
	ts := s.ts()
	switch t.op {
	case "const":
		return
	case "not":
		s.record(t.args[0], !val)
		return
	case "and":
		if val {
			for _, a := range t.args {
				s.record(a, true)
			}
			return
		}
	case "ge":
		if !val {
			s.record(ts.ge(ts.linComb(t.args[0], -1, nil, 0, -1)), true)
			return
		}
	case "eq0":
		if val {
			l := s.subst(t.args[0])
			if m, k := linOf(l); len(m) == 1 {
				for a, c := range m {
					if k%c == 0 {
						s.vals[a] = ts.integer(-k / c)
					}
				}
			}
		} else if _, done := s.facts[t]; !done {
			// not zero and on one side of it
			if l := t.args[0]; s.Prove(l) {
				s.record(ts.ge(ts.linComb(l, 1, nil, 0, -1)), true)
			} else if s.Prove(ts.linComb(l, -1, nil, 0, 0)) {
				s.record(ts.ge(ts.linComb(l, -1, nil, 0, -1)), true)
			}
		}
	case "eq":
		if !val {
			a, b := t.args[0], t.args[1]
			if c, ok := a.strVal(); ok && c == "" {
				s.record(ts.ge(ts.linComb(s.lenOf(b), 1, nil, 0, -1)), true)
			} else if c, ok := b.strVal(); ok && c == "" {
				s.record(ts.ge(ts.linComb(s.lenOf(a), 1, nil, 0, -1)), true)
			}
		}
		if val {
			a, b := t.args[0], t.args[1]
			if b.isConst() || b.isNil() {
				s.vals[a] = b
			} else if a.isConst() || a.isNil() {
				s.vals[b] = a
			}
		}
	case "call":
		// a prefix or a suffix is no longer than the whole
		switch t.aux {
		case "strings.HasPrefix", "strings.HasSuffix", "bytes.HasPrefix", "bytes.HasSuffix":
			if val && len(t.args) == 2 {
				s.record(ts.ge(ts.linComb(s.lenOf(t.args[0]), 1, s.lenOf(t.args[1]), -1, 0)), true)
			}
		}
	}
	s.facts[t] = val
}

// Prove tries to show L >= 0 from the linear facts by elimination.
func (s *State) Prove(l *Term) bool {
	l = s.subst(l)
	if n, ok := l.intVal(); ok {
		return n >= 0
	}
	m, k := linOf(l)
	// quick: ranges of the atoms
	lo := k
	ok := true
	for a, c := range m {
		alo, ahi, hl, hh := rangeOf(a)
		switch {
		case c > 0 && hl && alo < 1<<40:
			lo += c * alo
		case c < 0 && hh && (ahi < 1<<40 || c == -1 && len(m) <= 3 && ahi < 1<<60):
			lo += c * ahi
		default:
			ok = false
		}
	}
	if ok && lo >= 0 {
		return true
	}
	if len(s.facts) == 0 || k > 1<<61 || k < -1<<61 {
		return false
	}
	// constraints: facts connected with the atoms of l; each is sum >= 0
	type con struct {
		m map[*Term]int64
		k int64
	}
	neg := con{map[*Term]int64{}, -k - 1}
	atoms := map[*Term]bool{}
	for a, c := range m {
		neg.m[a] = -c
		atoms[a] = true
	}
	var facts []*Term
	for t, v := range s.facts {
		if t.op == "ge" && v || t.op == "eq0" && v {
			facts = append(facts, t)
		}
	}
	if len(facts) == 0 && !ok {
		// only ranges
		return false
	}
	sort.Slice(facts, func(i, j int) bool { return facts[i].id < facts[j].id })
	cons := []con{neg}
	used := map[*Term]bool{}
	for changed := true; changed && len(atoms) < 16; {
		changed = false
		for _, t := range facts {
			if used[t] {
				continue
			}
			fm, fk := linOf(s.subst(t.args[0]))
			if fk > 1<<61 || fk < -1<<61 {
				continue // nothing gained but overflow
			}
			hit := false
			for a := range fm {
				if atoms[a] {
					hit = true
				}
			}
			if !hit {
				continue
			}
			used[t] = true
			changed = true
			for a := range fm {
				atoms[a] = true
			}
			cons = append(cons, con{cp(fm), fk})
			if t.op == "eq0" {
				nm := map[*Term]int64{}
				for a, c := range fm {
					nm[a] = -c
				}
				cons = append(cons, con{nm, -fk})
			}
		}
	}
	for a := range atoms {
		alo, ahi, hl, hh := rangeOf(a)
		if hl && alo < 1<<40 {
			cons = append(cons, con{map[*Term]int64{a: 1}, -alo})
		}
		if hh && ahi < 1<<40 {
			cons = append(cons, con{map[*Term]int64{a: -1}, ahi})
		}
	}
	var as []*Term
	for a := range atoms {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	for len(as) > 0 {
		// the cheapest variable next
		best, cost := 0, -1
		for i, x := range as {
			np, nn := 0, 0
			for _, c := range cons {
				switch v := c.m[x]; {
				case v > 0:
					np++
				case v < 0:
					nn++
				}
			}
			if d := np * nn; cost < 0 || d < cost {
				best, cost = i, d
			}
		}
		x := as[best]
		as = append(as[:best:best], as[best+1:]...)
		var pos, ng, rest []con
		for _, c := range cons {
			switch v := c.m[x]; {
			case v > 0:
				pos = append(pos, c)
			case v < 0:
				ng = append(ng, c)
			default:
				rest = append(rest, c)
			}
		}
		if len(pos)*len(ng) > 400 {
			return false
		}
		for _, a := range pos {
			for _, b := range ng {
				ca, cb := a.m[x], -b.m[x]
				if ca > 1<<20 || cb > 1<<20 {
					continue
				}
				nm := map[*Term]int64{}
				for t, c := range a.m {
					nm[t] += c * cb
				}
				for t, c := range b.m {
					nm[t] += c * ca
				}
				nk := a.k*cb + b.k*ca
				for t, c := range nm {
					if c == 0 {
						delete(nm, t)
					}
				}
				if len(nm) == 0 {
					if nk < 0 {
						return true
					}
					continue
				}
				rest = append(rest, con{nm, nk})
			}
		}
		// of constraints that differ in their constant only the tightest counts
		if len(rest) > 8 {
			at := map[string]int{}
			n := 0
			for _, c := range rest {
				ids := make([]int, 0, len(c.m))
				for t := range c.m {
					ids = append(ids, t.id)
				}
				sort.Ints(ids)
				var key strings.Builder
				byID := map[int]int64{}
				for t, v := range c.m {
					byID[t.id] = v
				}
				for _, id := range ids {
					fmt.Fprintf(&key, "%d*%d,", id, byID[id])
				}
				if j, ok := at[key.String()]; ok {
					if c.k < rest[j].k {
						rest[j] = c
					}
					continue
				}
				at[key.String()] = n
				rest[n] = c
				n++
			}
			rest = rest[:n]
		}
		cons = rest
		for _, c := range cons {
			if len(c.m) == 0 && c.k < 0 {
				return true
			}
		}
	}
	return false
}

// ---- memory

// base is the object an address lies in.
func base(addr *Term) *Term {
	for {
		switch addr.op {
		case "fa", "ia", "mp", "ct", "chq", "obj":
			addr = addr.args[0]
		case "slc", "sub":
			addr = addr.args[0]
		default:
			return addr
		}
	}
}

func isObj(t *Term) bool { return t.op == "alloc" || t.op == "mkmap" || t.op == "mkchan" }

// owned: the address lies in an object that nobody else knows, or changes.
func (s *State) owned(addr *Term) bool {
	b := base(addr)
	return isObj(b) && (!s.esc[b] || b.site != nil && s.f.p.private(b.site))
}

// private: a variable that function literals capture but only read, and that
// its function does not change any more once they exist.
func (p *Program) private(ins ssa.Instruction) bool {
	x, ok := ins.(*ssa.Alloc)
	if !ok {
		return false
	}
	if v, ok := p.privates[x]; ok {
		return v
	}
	if p.privates == nil {
		p.privates = map[*ssa.Alloc]bool{}
	}
	p.privates[x] = computePrivate(x)
	return p.privates[x]
}

// Free is the term of a captured variable of the function analysed.
func (f *Flow) Free(fv *ssa.FreeVar) *Term {
	v := f.Param("free:"+fv.Name(), fv.Type())
	if f.p.freePrivate(fv) {
		if f.settled == nil {
			f.settled = map[*Term]bool{}
		}
		f.settled[v] = true
	}
	return v
}

// freePrivate: the captured variable does not change any more.
func (p *Program) freePrivate(fv *ssa.FreeVar) bool {
	fn := fv.Parent()
	idx := -1
	for i, v := range fn.FreeVars {
		if v == fv {
			idx = i
		}
	}
	if fn.Parent() == nil || idx < 0 {
		return false
	}
	n := 0
	for _, b := range fn.Parent().Blocks {
		for _, ins := range b.Instrs {
			mc, ok := ins.(*ssa.MakeClosure)
			if !ok || mc.Fn != ssa.Value(fn) {
				continue
			}
			n++
			switch x := mc.Bindings[idx].(type) {
			case *ssa.Alloc:
				if !p.private(x) {
					return false
				}
			case *ssa.FreeVar:
				if !p.freePrivate(x) {
					return false
				}
			default:
				return false
			}
		}
	}
	return n > 0
}

func computePrivate(x *ssa.Alloc) bool {
	var stores []ssa.Instruction
	var closures []ssa.Instruction
	var onlyRead func(v ssa.Value) bool
	onlyRead = func(v ssa.Value) bool {
		for _, r := range *v.Referrers() {
			switch u := r.(type) {
			case *ssa.DebugRef:
			case *ssa.UnOp:
				if u.Op != token.MUL {
					return false
				}
			case *ssa.Store:
				if v != ssa.Value(x) || u.Addr != v || u.Val == v {
					return false
				}
				stores = append(stores, u)
			case *ssa.MakeClosure:
				if v == ssa.Value(x) {
					closures = append(closures, u)
				}
				for i, b := range u.Bindings {
					if b == v && !onlyRead(u.Fn.(*ssa.Function).FreeVars[i]) {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	if !onlyRead(x) || len(closures) == 0 {
		return false
	}
	// no store can follow a closure, short of making the variable anew
	for _, c := range closures {
		seen := map[*ssa.BasicBlock]bool{}
		var scan func(b *ssa.BasicBlock, from int) bool
		scan = func(b *ssa.BasicBlock, from int) bool {
			for _, i := range b.Instrs[from:] {
				if i == ssa.Instruction(x) {
					return true
				}
				for _, s := range stores {
					if i == s {
						return false
					}
				}
			}
			for _, n := range b.Succs {
				if !seen[n] {
					seen[n] = true
					if !scan(n, 0) {
						return false
					}
				}
			}
			return true
		}
		if !scan(c.Block(), idxIn(c)+1) {
			return false
		}
	}
	return true
}

func idxIn(i ssa.Instruction) int {
	for k, x := range i.Block().Instrs {
		if x == i {
			return k
		}
	}
	return 0
}

// frozen: the cell is never written once others can see it.
func (s *State) frozen(addr *Term) bool {
	if s.f.c.Frozen != nil && s.f.c.Frozen(addr) || s.f.settled[addr] {
		return true
	}
	for addr.op == "fa" {
		if strings.HasPrefix(addr.aux, "sync/atomic.") {
			return false
		}
		if s.f.frozenK[FieldKey{addr.aux[:strings.LastIndex(addr.aux, ".")], addr.aux[strings.LastIndex(addr.aux, ".")+1:]}] {
			return false
		}
		if in := addr.args[0]; in.op == "fa" {
			addr = in
			continue
		}
		return true
	}
	if addr.op == "ia" && addr.args[0].op == "global" {
		addr = addr.args[0]
	}
	if addr.op == "global" {
		return !s.f.frozenK[FieldKey{"", addr.aux}] && !s.f.p.globalWritten(addr.aux)
	}
	return false
}

func (s *State) fa(structT types.Type, x *Term, i int) *Term {
	k := s.f.p.fieldKey(structT, i)
	st := structOf(structT)
	t := s.ts().mk("fa", k.Owner+"."+k.Field, types.NewPointer(st.Field(i).Type()), x)
	t.k = int64(i)
	return t
}

func (s *State) ia(x, i *Term, elem types.Type) *Term {
	ts := s.ts()
	switch x.op {
	case "slc":
		return s.ia(x.args[0], ts.add(x.args[1], i), elem)
	case "sub":
		return s.ia(x.args[0], ts.add(x.args[1], i), elem)
	}
	return ts.mk("ia", "", types.NewPointer(elem), x, i)
}

func (s *State) field(x *Term, structT types.Type, i int) *Term {
	if x.op == "agg" {
		return x.args[i]
	}
	st := structOf(structT)
	k := s.f.p.fieldKey(structT, i)
	t := s.ts().mk("fld", k.Owner+"."+k.Field, st.Field(i).Type(), x)
	t.k = int64(i)
	return t
}

// el is element i of an array value, string or memory region.
func (s *State) el(x *Term, i *Term, typ types.Type) *Term {
	ts := s.ts()
	n, isC := i.intVal()
	switch x.op {
	case "agg":
		if isC && n >= 0 && int(n) < len(x.args) {
			return x.args[n]
		}
	case "const":
		if str, ok := x.strVal(); ok && isC && n >= 0 && int(n) < len(str) {
			return ts.integer(int64(str[n]))
		}
	case "zero":
		return s.zero(typ)
	case "seg": // prev, lo, n, src
		lo, ok1 := x.args[1].intVal()
		ln, ok2 := x.args[2].intVal()
		if isC && ok1 && ok2 {
			if n >= lo && n < lo+ln {
				return s.el(x.args[3], ts.integer(n-lo), typ)
			}
			return s.el(x.args[0], i, typ)
		}
	case "slc":
		return s.load(s.ia(x, i, typ), typ)
	case "str", "bytes":
		return s.el(x.args[0], i, typ)
	case "seq":
		if isC {
			at := int64(0)
			for _, part := range x.args {
				if part.op == "elem" {
					if at == n {
						return part.args[0]
					}
					at++
					continue
				}
				l, ok := s.lenOf(part.args[0]).intVal()
				if !ok {
					// inside or behind a part of unknown length
					return ts.mk("el", "", typ, ts.mk("seq", "", x.typ, x.args...), ts.integer(n))
				}
				if n < at+l {
					return s.el(part.args[0], ts.integer(n-at), typ)
				}
				at += l
			}
		}
	case "fill":
		if isC {
			at := ts.Zero
			for _, part := range x.args {
				d := s.subst(ts.sub(i, at))
				l := s.partLen(part)
				if s.Prove(d) && s.Prove(ts.linComb(l, 1, d, -1, -1)) {
					if part.op == "elem" {
						return part.args[0]
					}
					return s.el(part.args[0], d, typ)
				}
				at = ts.add(at, l)
			}
		}
	case "sub":
		return s.el(x.args[0], ts.add(x.args[1], i), typ)
	}
	return ts.mk("el", "", typ, x, i)
}

const maxAgg = 64

// zeros writes the zero values of a new object of the library's types.
func (s *State) zeros(addr *Term, t types.Type) {
	u, ok := t.Underlying().(*types.Struct)
	if !ok {
		if _, ok := t.Underlying().(*types.Array); !ok {
			s.heap[addr] = s.zero(t)
		}
		return
	}
	if n := named(t); n != nil && n.Obj().Pkg() != nil && !isAtomicType(t) && s.f.p.ByPath[n.Obj().Pkg().Path()] == nil {
		return
	}
	for i := 0; i < u.NumFields(); i++ {
		s.zeros(s.fa(t, addr, i), u.Field(i).Type())
	}
}

func (s *State) zero(t types.Type) *Term {
	ts := s.ts()
	if t == nil {
		return ts.Nil
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return ts.Fals
		case u.Info()&types.IsString != 0:
			return ts.str("")
		case u.Info()&types.IsNumeric != 0:
			return ts.constant(constant.MakeInt64(0), t)
		}
		return ts.Nil
	case *types.Struct:
		var fs []*Term
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, s.zero(u.Field(i).Type()))
		}
		return ts.mk("agg", s.f.p.typeName(t), t, fs...)
	case *types.Array:
		if u.Len() <= maxAgg {
			var fs []*Term
			for i := int64(0); i < u.Len(); i++ {
				fs = append(fs, s.zero(u.Elem()))
			}
			return ts.mk("agg", "array", t, fs...)
		}
		return ts.mk("zero", types.TypeString(t, nil), t)
	case *types.Tuple:
		var fs []*Term
		for i := 0; i < u.Len(); i++ {
			fs = append(fs, s.zero(u.At(i).Type()))
		}
		return ts.mk("agg", "tuple", t, fs...)
	}
	return ts.Nil
}

// unknown is a value of type t that nothing is known about, under a given name.
func (s *State) unknown(name string, t types.Type) *Term {
	ts := s.ts()
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if u.NumFields() == 0 {
			return ts.mk("agg", s.f.p.typeName(t), t)
		}
		var fs []*Term
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, s.unknown(name+"."+u.Field(i).Name(), u.Field(i).Type()))
		}
		return ts.mk("agg", s.f.p.typeName(t), t, fs...)
	case *types.Tuple:
		if u.Len() == 0 {
			return ts.mk("agg", "tuple", t)
		}
		var fs []*Term
		for i := 0; i < u.Len(); i++ {
			fs = append(fs, s.unknown(fmt.Sprintf("%s#%d", name, i), u.At(i).Type()))
		}
		return ts.mk("agg", "tuple", t, fs...)
	}
	return ts.sym(name, t)
}

// Load reads the cell at addr.
func (s *State) Load(addr *Term, t types.Type) *Term { return s.load(addr, t) }
func (s *State) load(addr *Term, t types.Type) *Term {
	ts := s.ts()
	if s.f.c.Load != nil {
		if v := s.f.c.Load(s, addr, t); v != nil {
			return v
		}
	}
	if v, ok := s.heap[addr]; ok {
		return v
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if u.NumFields() > 0 {
			var fs []*Term
			for i := 0; i < u.NumFields(); i++ {
				fs = append(fs, s.load(s.fa(t, addr, i), u.Field(i).Type()))
			}
			return ts.mk("agg", s.f.p.typeName(t), t, fs...)
		}
		return ts.mk("agg", s.f.p.typeName(t), t)
	case *types.Array:
		if u.Len() <= maxAgg {
			var fs []*Term
			for i := int64(0); i < u.Len(); i++ {
				fs = append(fs, s.load(s.ia(addr, ts.integer(i), u.Elem()), u.Elem()))
			}
			return ts.mk("agg", "array", t, fs...)
		}
	}
	if addr.op == "ia" {
		x, i := addr.args[0], addr.args[1]
		switch x.op {
		case "seq", "str", "bytes", "const":
			return s.el(x, i, t)
		}
		if r, ok := s.heap[ts.mk("ct", "", nil, x)]; ok {
			return s.el(r, i, t)
		}
		if isObj(base(x)) && !s.esc[base(x)] {
			if _, c := i.intVal(); c || !s.hasCells(x) {
				return s.zero(t)
			}
			return ts.mk("el", "", t, ts.mk("arr", s.cellsKey(x), nil, x), i)
		}
	}
	if addr.op == "fa" {
		if v := s.partOf(addr); v != nil {
			return v
		}
	}
	if s.owned(addr) || isObj(base(addr)) && addr.op != "ia" && addr.op != "mp" && s.frozen(addr) {
		return s.zero(t)
	}
	ep := s.epoch
	if s.frozen(addr) || s.owned(addr) {
		ep = ""
	}
	if addr.op == "global" && s.frozen(addr) {
		if s.f.p.sentinel(addr.aux) {
			return ts.mk("newerr", "global "+addr.aux, t)
		}
		if c := s.f.p.globalConst(addr.aux); c != nil {
			return ts.constant(c, t)
		}
	}
	if addr.op == "ia" && addr.args[0].op == "global" {
		if c := s.f.p.globalElem(addr.args[0].aux, addr.args[1]); c != nil {
			return ts.constant(c, t)
		}
	}
	return ts.mk("ld", ep, t, addr)
}

// partOf is the part of an element of a list whose elements are known.
func (s *State) partOf(addr *Term) *Term {
	switch addr.op {
	case "fa":
		if v := s.partOf(addr.args[0]); v != nil && v.op == "agg" && int(addr.k) < len(v.args) {
			return v.args[addr.k]
		}
	case "ia":
		if x := addr.args[0]; x.op == "seq" {
			if v := s.el(x, addr.args[1], cellType(addr)); v.op == "agg" {
				return v
			}
		}
	}
	return nil
}

func (s *State) hasCells(x *Term) bool {
	for a := range s.heap {
		if a.op == "ia" && a.args[0] == x {
			return true
		}
	}
	return false
}

func (s *State) cellsKey(x *Term) string {
	var ks []string
	for a, v := range s.heap {
		if a.op == "ia" && a.args[0] == x {
			ks = append(ks, fmt.Sprintf("%d=%d", a.id, v.id))
		}
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}

// Store writes the cell at addr.
func (s *State) Store(addr *Term, t types.Type, v *Term) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		delete(s.heap, addr)
		for i := 0; i < u.NumFields(); i++ {
			s.Store(s.fa(t, addr, i), u.Field(i).Type(), s.field(v, t, i))
		}
		return
	case *types.Array:
		if u.Len() <= maxAgg && v.op == "agg" {
			delete(s.heap, s.ts().mk("ct", "", nil, addr))
			for i := int64(0); i < u.Len(); i++ {
				s.Store(s.ia(addr, s.ts().integer(i), u.Elem()), u.Elem(), v.args[i])
			}
			return
		}
		s.forgetArray(addr)
		s.heap[s.ts().mk("ct", "", nil, addr)] = v
		return
	}
	if addr.op == "ia" && isObj(addr.args[0]) {
		b := addr.args[0]
		ct := s.ts().mk("ct", "", nil, b)
		c := s.heap[ct]
		_, isC := addr.args[1].intVal()
		if c != nil && c.op == "fill" || c == nil && !isC {
			if s.fillWrite(b, addr.args[1], s.ts().integer(1), s.ts().mk("elem", "", nil, v)) {
				if s.esc[b] {
					s.escape(v)
				}
				return
			}
			if c != nil {
				s.heap[ct] = s.ts().mk("region", fmt.Sprint(addr.id, v.id), nil, c)
				return
			}
		}
	}
	s.killAlias(addr)
	if c, ok := s.vals[v]; ok && (c.isNil() || c.isConst()) {
		v = c
	}
	s.heap[addr] = v
	if b := base(addr); !isObj(b) || s.esc[b] {
		s.escape(v)
	}
}

func (s *State) forgetArray(x *Term) {
	for a := range s.heap {
		if a.op == "ia" && a.args[0] == x {
			delete(s.heap, a)
		}
	}
}

// killAlias forgets the cells that a write to addr may change.
func (s *State) killAlias(addr *Term) {
	switch addr.op {
	case "fa":
		b := base(addr)
		own := isObj(b) && !s.esc[b]
		if own {
			return
		}
		for a := range s.heap {
			if a == addr || a.op != "fa" || a.aux != addr.aux {
				continue
			}
			ab := base(a)
			if isObj(ab) && (!s.esc[ab] || isObj(b)) {
				continue // another object
			}
			delete(s.heap, a)
		}
	case "ia":
		x, i := addr.args[0], addr.args[1]
		_, isC := i.intVal()
		for a := range s.heap {
			if a == addr || a.op != "ia" {
				continue
			}
			if a.args[0] == x {
				if _, c := a.args[1].intVal(); c && isC {
					continue
				}
				if v, k := s.Eval(s.ts().eq(a.args[1], i)); k && !v {
					continue
				}
				delete(s.heap, a)
				if isObj(base(x)) && !s.esc[base(x)] {
					// no longer zero: unknown
					s.heap[s.ts().mk("ct", "", nil, x)] = s.ts().sym(fmt.Sprintf("ct%d@%d", x.id, addr.id), nil)
				}
				continue
			}
			bx, ba := base(x), base(a)
			if isObj(bx) && !s.esc[bx] || isObj(ba) && !s.esc[ba] || isObj(bx) && isObj(ba) {
				continue
			}
			if types.Identical(deref(a.typ), deref(addr.typ)) {
				delete(s.heap, a)
			}
		}
		if !isC && isObj(base(x)) && !s.esc[base(x)] {
			ct := s.ts().mk("ct", "", nil, x)
			if _, ok := s.heap[ct]; !ok {
				s.heap[ct] = s.ts().sym(fmt.Sprintf("ct%d@%d", x.id, addr.id), nil)
			}
		}
	case "mp":
		m, k := addr.args[0], addr.args[1]
		for a := range s.heap {
			if a == addr || a.op != "mp" {
				continue
			}
			if a.args[0] != m && (isObj(base(m)) || isObj(base(a.args[0]))) {
				continue
			}
			if v, kn := s.Eval(s.eqKeys(a.args[1], k)); kn && !v {
				continue
			}
			delete(s.heap, a)
			if o := a.args[0]; o.op == "mkmap" {
				s.heap[s.ts().mk("ct", "", nil, o)] = s.ts().sym("some", nil)
			}
		}
	}
}

// escape: others may know v from now on.
func (s *State) escape(v *Term) {
	if v == nil {
		return
	}
	seen := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if isObj(t) && !s.esc[t] {
			s.esc[t] = true
			for a, val := range s.heap {
				if base(a) == t {
					visit(val)
					if a.op == "mp" {
						visit(a.args[1])
					}
				}
			}
		}
		for _, x := range t.args {
			visit(x)
		}
	}
	visit(v)
}

// kill forgets what other goroutines may have changed.
func (s *State) kill(why string) {
	if s.f.c.NoKill {
		return
	}
	for t, v := range s.facts {
		if t.op == "ld" && (t.aux == s.epoch || t.aux == "") {
			a := t.args[0]
			if c := s.f.p.stickyOf(a); c != nil && c.Kind() == constant.Bool && constant.BoolVal(c) == v && s.heap[a] == nil {
				s.heap[a] = s.ts().constant(c, cellType(a))
			}
		}
	}
	s.epoch = why
	for a := range s.heap {
		if s.owned(a) || s.frozen(a) {
			continue
		}
		if a.op == "chq" {
			continue
		}
		if c := s.f.p.stickyOf(a); c != nil {
			v := s.heap[a]
			if v.isConst() && constant.Compare(v.c, token.EQL, c) {
				continue // never anything else again
			}
			if c.Kind() == constant.Bool {
				if b, k := s.Eval(v); k && b == constant.BoolVal(c) {
					s.heap[a] = s.ts().constant(c, cellType(a))
					continue
				}
			}
		}
		if (a.op == "ia" || a.op == "ct") && (isObj(base(a)) || a.args[0].op == "seq") {
			// elements of slices are values: the library replaces slices, it does not write into shared ones
			continue
		}
		delete(s.heap, a)
	}
}

// lenOf is the length of a slice, string, array value or map.
func (s *State) lenOf(x *Term) *Term {
	ts := s.ts()
	switch x.op {
	case "nil":
		return ts.Zero
	case "const":
		if str, ok := x.strVal(); ok {
			return ts.integer(int64(len(str)))
		}
	case "slc", "sub":
		return ts.sub(x.args[2], x.args[1])
	case "seq":
		n := ts.Zero
		for _, p := range x.args {
			if p.op == "elem" {
				n = ts.add(n, ts.integer(1))
			} else {
				n = ts.add(n, s.lenOf(p.args[0]))
			}
		}
		return n
	case "str", "bytes":
		return s.lenOf(x.args[0])
	case "concat":
		n := ts.Zero
		for _, p := range x.args {
			n = ts.add(n, s.lenOf(p))
		}
		return n
	case "be64":
		return ts.integer(8)
	case "be32":
		return ts.integer(4)
	case "be16":
		return ts.integer(2)
	case "agg":
		return ts.integer(int64(len(x.args)))
	}
	if v, ok := s.vals[x]; ok && v != x {
		return s.lenOf(v)
	}
	if x.op == "mkmap" && !s.esc[x] {
		n := 0
		for a := range s.heap {
			if a.op == "mp" && a.args[0] == x {
				n++
			}
		}
		if n == 0 && s.heap[ts.mk("ct", "", nil, x)] == nil {
			return ts.Zero
		}
		return ts.mk("len", s.epoch+fmt.Sprint(n), types.Typ[types.Int], x)
	}
	aux := ""
	if x.typ != nil {
		if _, ok := x.typ.Underlying().(*types.Map); ok {
			aux = s.epoch
		}
	}
	return ts.mk("len", aux, types.Typ[types.Int], x)
}

// Elems are the elements of a slice of known length.
func (s *State) Elems(x *Term, elem types.Type) ([]*Term, bool) {
	n, ok := s.subst(s.lenOf(x)).intVal()
	if !ok || n > maxAgg || n < 0 {
		return nil, false
	}
	var out []*Term
	for i := int64(0); i < n; i++ {
		out = append(out, s.load(s.ia(x, s.ts().integer(i), elem), elem))
	}
	return out, true
}

// Parts splits a slice into single elements and stretches of other slices.
func (s *State) Parts(x *Term, elem types.Type) []*Term {
	ts := s.ts()
	switch x.op {
	case "nil":
		return nil
	case "seq":
		return x.args
	case "const":
		if str, _ := x.strVal(); str == "" {
			return nil
		}
	case "slc":
		if n, ok := s.subst(s.lenOf(x)).intVal(); ok && n <= 16 && n >= 0 {
			var out []*Term
			for i := int64(0); i < n; i++ {
				out = append(out, ts.mk("elem", "", nil, s.load(s.ia(x, ts.integer(i), elem), elem)))
			}
			return out
		}
		if c := s.heap[ts.mk("ct", "", nil, x.args[0])]; c != nil && c.op == "fill" {
			if ps := s.piece(ts.mk("sub", "", x.typ, c, x.args[1], x.args[2])); ps != nil {
				return ps
			}
		}
	}
	if n, ok := s.subst(s.lenOf(x)).intVal(); ok && n == 0 {
		return nil
	}
	return []*Term{ts.mk("spread", "", nil, x)}
}

func (s *State) seq(parts []*Term, typ types.Type) *Term {
	if len(parts) == 0 {
		return s.ts().Nil
	}
	return s.ts().mk("seq", "", typ, parts...)
}

// isZero: the integer is known to be 0.
func (s *State) isZero(d *Term) bool {
	d = s.subst(d)
	if n, ok := d.intVal(); ok {
		return n == 0
	}
	return s.Prove(d) && s.Prove(s.ts().linComb(d, -1, nil, 0, 0))
}

// fillWrite follows an array of the analysed function that is filled piece by
// piece: a write of n elements at lo that continues what was written so far, or
// that replaces one piece of it.
func (s *State) fillWrite(b, lo, n, part *Term) bool {
	ts := s.ts()
	if !isObj(b) || s.esc[b] || b.op != "alloc" {
		return false
	}
	ct := ts.mk("ct", "", nil, b)
	var parts []*Term
	switch c := s.heap[ct]; {
	case c != nil && c.op == "fill":
		parts = c.args
	case c != nil:
		return false
	default:
		cells := map[int64]*Term{}
		for a, v := range s.heap {
			if a.op == "ia" && a.args[0] == b {
				i, ok := a.args[1].intVal()
				if !ok {
					return false
				}
				cells[i] = v
			}
		}
		for i := int64(0); i < int64(len(cells)); i++ {
			v, ok := cells[i]
			if !ok {
				return false
			}
			parts = append(parts, ts.mk("elem", "", nil, v))
		}
	}
	at := ts.Zero
	for i := 0; ; i++ {
		if s.isZero(ts.sub(lo, at)) {
			// here; what is replaced must end where a piece ends
			end := at
			j := i
			for j < len(parts) && !s.isZero(ts.sub(ts.add(lo, n), end)) {
				end = ts.add(end, s.partLen(parts[j]))
				j++
			}
			if !s.isZero(ts.sub(ts.add(lo, n), end)) && !(j == len(parts) && s.Prove(ts.sub(ts.add(lo, n), end))) {
				return false
			}
			np := append(append(append([]*Term(nil), parts[:i]...), part), parts[j:]...)
			s.forgetArray(b)
			s.heap[ct] = ts.mk("fill", "", nil, np...)
			return true
		}
		if i == len(parts) {
			// elements that were skipped are still zero
			gap, ok := s.subst(ts.sub(lo, at)).intVal()
			et := arrayElem(b.typ)
			if !ok || gap < 1 || gap > 16 || et == nil {
				return false
			}
			for ; gap > 0; gap-- {
				parts = append(parts[:len(parts):len(parts)], ts.mk("elem", "", nil, s.zero(et)))
				at = ts.add(at, ts.integer(1))
			}
			i = len(parts) - 1
			continue
		}
		at = ts.add(at, s.partLen(parts[i]))
	}
}

// arrayElem is the element type of the array a pointer points to.
func arrayElem(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if sl, ok := t.Underlying().(*types.Slice); ok {
		return sl.Elem()
	}
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	at, ok := pt.Elem().Underlying().(*types.Array)
	if !ok {
		return nil
	}
	return at.Elem()
}

func (s *State) partLen(p *Term) *Term {
	if p.op == "elem" {
		return s.ts().integer(1)
	}
	return s.lenOf(p.args[0])
}

// writeRegion: the elements lo..lo+n of the slice dst are overwritten with those of src.
func (s *State) writeRegion(dst *Term, n *Term, src *Term, name string) {
	ts := s.ts()
	b := dst
	lo := ts.Zero
	if dst.op == "slc" || dst.op == "sub" {
		b, lo = dst.args[0], dst.args[1]
	}
	if b.isNil() {
		return
	}
	ct := ts.mk("ct", "", nil, b)
	l, ok1 := lo.intVal()
	k, ok2 := s.subst(n).intVal()
	if c := s.heap[ct]; (!ok1 || !ok2 || c != nil && c.op == "fill") && src != nil && !(ok1 && l == 0 && dst.op == "slc" && dst.args[2] == n) {
		x := src
		if !s.isZero(ts.sub(s.lenOf(src), n)) {
			x = ts.mk("sub", "", types.NewSlice(types.Typ[types.Byte]), src, ts.Zero, n)
		}
		if s.fillWrite(b, lo, n, ts.mk("spread", "", nil, x)) {
			return
		}
	}
	if !ok1 || !ok2 {
		s.forgetArray(b)
		if src != nil && ok1 && l == 0 {
			// the whole of a buffer of unknown size
			if dst.op == "slc" && dst.args[2] == n {
				s.heap[ct] = src
				return
			}
		}
		s.heap[ct] = ts.sym("region:"+name, nil)
		return
	}
	for a := range s.heap {
		if a.op == "ia" && a.args[0] == b {
			if i, ok := a.args[1].intVal(); ok && (i < l || i >= l+k) {
				continue
			}
			delete(s.heap, a)
		}
	}
	prev := s.heap[ct]
	if prev == nil {
		if isObj(base(b)) && !s.esc[base(b)] {
			prev = ts.mk("zero", "", nil)
		} else {
			prev = ts.mk("ld", s.epoch, nil, ct)
		}
	}
	s.heap[ct] = ts.mk("seg", "", nil, prev, lo, ts.integer(k), src)
}

// ---- the fixpoint

// Run analyses fn from the given state and arguments.
func (f *Flow) Run(st *State, fn *ssa.Function, args []*Term, free []*Term) {
	f.RunKey("", st, fn, args, free)
}

// RunKey is Run with a prefix that keeps the names of the run apart from others.
func (f *Flow) RunKey(key string, st *State, fn *ssa.Function, args []*Term, free []*Term) {
	f.visited = map[string][]*seenState{}
	st.top = nil
	f.enter(st, fn, args, free, nil, key)
	f.push(st)
	from := f.states
	f.loop()
	if os.Getenv("STATES") != "" {
		fmt.Fprintf(os.Stderr, "STATES %s %s: %d\n", key, fn, f.states-from)
	}
}

func (f *Flow) push(st *State) { f.work = append(f.work, st) }

func (f *Flow) loop() {
	for len(f.work) > 0 {
		if f.stopped {
			f.work = nil
			return
		}
		st := f.work[len(f.work)-1]
		f.work = f.work[:len(f.work)-1]
		f.states++
		if f.states > f.MaxSt {
			f.problem("more than %d abstract states", f.MaxSt)
			f.work = nil
			return
		}
		f.run(st)
	}
}

// enter pushes a frame for fn.
func (f *Flow) enter(st *State, fn *ssa.Function, args, free []*Term, call ssa.CallInstruction, key string) {
	f.Fns[fn] = true
	d := 0
	if st.top != nil {
		d = st.top.depth + 1
	}
	fr := &Frame{fn: fn, key: key, env: map[ssa.Value]*Term{}, blk: fn.Blocks[0], caller: st.top, call: call,
		visits: map[*ssa.BasicBlock]int{}, snaps: map[*ssa.BasicBlock]*snap{}, depth: d}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		} else {
			fr.env[p] = st.unknown(key+":param:"+p.Name(), p.Type())
		}
	}
	for i, v := range fn.FreeVars {
		if i < len(free) {
			fr.env[v] = free[i]
		} else {
			fr.env[v] = f.ts.sym(key+":free:"+fn.String()+"."+v.Name(), v.Type())
		}
	}
	st.top = fr
}

// Param is the value of a parameter of a root.
func (f *Flow) Param(name string, t types.Type) *Term {
	return (&State{f: f}).unknown(name, t)
}

func (s *State) val(v ssa.Value) *Term {
	ts := s.ts()
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return s.zero(x.Type())
		}
		return ts.constant(x.Value, x.Type())
	case *ssa.Function:
		t := ts.mk("fn", x.String(), x.Type())
		t.fn = x
		return t
	case *ssa.Global:
		return ts.mk("global", s.f.p.globalName(x), x.Type())
	case *ssa.Builtin:
		return ts.mk("builtin", x.Name(), x.Type())
	}
	if t, ok := s.top.env[v]; ok {
		return t
	}
	return ts.sym(s.top.key+":undef:"+s.top.fn.String()+"."+v.Name(), v.Type())
}

// jump moves to block b from the current one; false: the path ends here.
func (f *Flow) jump(st *State, b *ssa.BasicBlock) bool {
	fr := st.top
	from := fr.blk
	li := f.loopInfo(fr.fn)
	pi := -1
	for i, p := range b.Preds {
		if p == from {
			pi = i
		}
	}
	// phis are assigned simultaneously
	var phis []*ssa.Phi
	var vals []*Term
	for _, ins := range b.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, st.val(ph.Edges[pi]))
	}
	for i, ph := range phis {
		fr.env[ph] = vals[i]
	}
	back := li.back[[2]int{from.Index, b.Index}]
	fr.prev, fr.blk, fr.idx = from, b, len(phis)
	if li.head[b] {
		st.prune()
		if !back {
			fr.visits[b] = 1
			// inner loops start anew
			fr.snaps[b] = f.snapshot(st, phis)
		} else {
			if !f.backEdge(st, b, phis) {
				return false
			}
		}
	}
	if len(b.Preds) > 1 || back {
		return f.merge(st, "b")
	}
	return true
}

func sameProps(a, b map[string]*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || w != v {
			return false
		}
	}
	return true
}

func (f *Flow) snapshot(st *State, phis []*ssa.Phi) *snap {
	sn := &snap{phis: map[*ssa.Phi]*Term{}, heap: cp(st.heap), props: cp(st.props), allocs: cp(st.allocs), epoch: st.epoch,
		gen: map[*Term]bool{}, genPhi: map[*ssa.Phi]bool{}}
	for _, ph := range phis {
		sn.phis[ph] = st.top.env[ph]
	}
	return sn
}

// backEdge: another iteration begins. What the last one changed is forgotten;
// when it changed nothing that was still known, the iteration to come is
// already analysed.
func (f *Flow) backEdge(st *State, h *ssa.BasicBlock, phis []*ssa.Phi) bool {
	fr := st.top
	sn := fr.snaps[h]
	fr.visits[h]++
	n := fr.visits[h]
	v := n - sn.skip
	first := v == 2
	tag := fmt.Sprintf("%s:loop%d%s@", fr.key, h.Index, fr.suffix(f, h))
	gen, genPhi := cp(sn.gen), cp(sn.genPhi)
	changed := false
	// states the client tells apart are compared with their like
	last := sn
	if !sameProps(st.props, sn.props) {
		for i := len(last.past) - 1; i >= 0; i-- {
			if o := last.past[i]; sameProps(st.props, o.props) {
				sn = o
				changed = len(o.gen) != len(last.gen) || len(o.genPhi) != len(last.genPhi)
				for ph, bs := range o.inv {
					changed = changed || len(bs) != len(last.inv[ph])
				}
				break
			}
		}
	}
	if n <= f.c.Follow {
		fr.snaps[h] = f.snapshot(st, phis)
		fr.snaps[h].skip = n - 1
		return true
	}
	if n <= f.c.Unroll {
		for _, ph := range phis {
			old, a := sn.phis[ph].intVal()
			now, b := fr.env[ph].intVal()
			if _, sl := ph.Type().Underlying().(*types.Slice); sl && sn.phis[ph] != fr.env[ph] {
				// or by the length of what is left of a list
				old, a = st.subst(st.lenOf(sn.phis[ph])).intVal()
				now, b = st.subst(st.lenOf(fr.env[ph])).intVal()
				if a && b && now < old {
					fr.snaps[h] = f.snapshot(st, phis)
					fr.snaps[h].skip = n - 1
					return true
				}
			}
			if a && b && isInt(ph.Type()) && now != old {
				// the iterations are told apart by a counter
				fr.snaps[h] = f.snapshot(st, phis)
				fr.snaps[h].skip = n - 1
				return true
			}
		}
	}
	// of a variable that changes it is still known whether it is nil, or true
	var signs []string
	// a value the client follows keeps its identity
	followed := func(name string, old *Term) bool {
		if v > 7 || old == nil || old.isConst() {
			return false
		}
		for _, pv := range st.props {
			if pv == old {
				signs = append(signs, fmt.Sprintf("%s=#%d", name, old.id))
				return true
			}
		}
		return false
	}
	sign := func(name string, old, nv *Term, typ types.Type) {
		if v > 7 || old == nil || nv.isConst() {
			return
		}
		q, w := nv, old
		switch u := typ.Underlying().(type) {
		case *types.Interface, *types.Pointer, *types.Signature, *types.Chan:
			q, w = f.ts.eq(nv, f.ts.Nil), f.ts.eq(old, f.ts.Nil)
			if st.NonNil(old) {
				w = f.ts.Fals
			} else if st.IsNil(old) {
				w = f.ts.True
			}
		case *types.Basic:
			if u.Info()&types.IsBoolean == 0 {
				return
			}
		default:
			return
		}
		b, k := st.Eval(w)
		if !k || q.isConst() {
			return
		}
		st.record(q, b)
		signs = append(signs, fmt.Sprintf("%s=%v", name, b))
	}
	invs := map[*ssa.Phi][]bound{}
	keep := func(ph *ssa.Phi, cur, nv *Term) {
		if !isInt(ph.Type()) || cur == nv || nv.op != "sym" {
			return
		}
		cands := last.inv[ph]
		if !last.genPhi[ph] {
			cands = f.bounds(st, last, phis, ph)
		}
		for _, b := range cands {
			if st.Prove(b.of(f.ts, cur)) {
				invs[ph] = append(invs[ph], b)
			}
		}
		if last.genPhi[ph] && len(invs[ph]) != len(cands) {
			changed = true
		}
	}
	defer func() {
		for ph, bs := range invs {
			for _, b := range bs {
				if nv := fr.env[ph]; nv.op == "sym" {
					st.record(f.ts.ge(b.of(f.ts, nv)), true)
				}
			}
		}
	}()
	for i, ph := range phis {
		if genPhi[ph] {
			old := fr.env[ph]
			if followed(fmt.Sprintf("p%d", i), old) {
				continue
			}
			fr.env[ph] = st.unknown(fmt.Sprintf("%sphi%d", tag, i), ph.Type())
			keep(ph, old, fr.env[ph])
			sign(fmt.Sprintf("p%d", i), old, fr.env[ph], ph.Type())
			continue
		}
		if fr.env[ph] != sn.phis[ph] {
			changed = true
			if f.trace {
				fmt.Fprintf(os.Stderr, "CHANGEDPHI %d %s: %v -> %v\n", v, f.p.instrPos(h.Instrs[0]), sn.phis[ph], fr.env[ph])
			}
			genPhi[ph] = true
			old := sn.phis[ph]
			nv := st.unknown(fmt.Sprintf("%sphi%d", tag, i), ph.Type())
			// a counter that only grows stays above where it began
			if isInt(ph.Type()) && isC(old) && f.grows(st, ph, h) {
				st.facts[f.ts.ge(f.ts.sub(nv, old))] = true
			}
			cur := fr.env[ph]
			if followed(fmt.Sprintf("p%d", i), cur) {
				continue
			}
			fr.env[ph] = nv
			keep(ph, cur, nv)
			sign(fmt.Sprintf("p%d", i), cur, nv, ph.Type())
		}
	}
	// counters that were generalised before keep their lower bound
	for i, ph := range phis {
		if last.genPhi[ph] && isInt(ph.Type()) && f.grows(st, ph, h) {
			if init := f.initOf(ph, h); init != nil {
				st.facts[f.ts.ge(f.ts.sub(st.unknown(fmt.Sprintf("%sphi%d", tag, i), ph.Type()), init))] = true
			}
		}
	}
	if st.epoch != sn.epoch {
		st.kill(tag)
	}
	addrs := map[*Term]bool{}
	for a := range st.heap {
		addrs[a] = true
	}
	for a := range sn.heap {
		addrs[a] = true
	}
	var as []*Term
	for a := range addrs {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	// an element at an index that differs from iteration to iteration
	dropVar := func(a *Term) {
		delete(st.heap, a)
		ct := f.ts.mk("ct", "", nil, a.args[0])
		if !gen[ct] {
			gen[ct] = true
			changed = true
		}
		st.generalise(ct, tag)
	}
	for _, a := range as {
		b := base(a)
		if isObj(b) && (!sn.allocs[b] || !st.allocs[b]) {
			continue // made in the last iteration, or out of reach by now
		}
		nv, ok1 := st.heap[a]
		ov, ok2 := sn.heap[a]
		generalise := func() {
			t := cellType(a)
			if ok1 && followed(fmt.Sprintf("c%d", a.id), nv) {
				return
			}
			st.generalise(a, tag)
			if n := st.heap[a]; ok1 && t != nil && n.op == "sym" && st.owned(a) {
				sign(fmt.Sprintf("c%d", a.id), nv, n, t)
			}
		}
		if gen[a] {
			generalise()
			continue
		}
		if ok1 && ok2 && nv == ov {
			continue
		}
		if !ok1 && ok2 {
			if !st.owned(a) && !st.frozen(a) {
				continue // forgotten already
			}
			if a.op == "mp" && !a.args[1].isConst() {
				dropVar(a)
				continue
			}
			if a.op == "ia" || a.op == "mp" {
				if f.trace {
					fmt.Fprintf(os.Stderr, "GONE %v (%v)\n", a, ov)
				}
				gen[a] = true
				changed = true
				st.generalise(a, tag)
			}
			continue
		}
		if ok1 && !ok2 {
			// the value before the iteration
			switch a.op {
			case "ct", "chq", "obj":
			default:
				pre := &State{f: f, heap: sn.heap, facts: st.facts, vals: st.vals, esc: st.esc, allocs: sn.allocs, epoch: sn.epoch}
				if t := cellType(a); t != nil && pre.loadPlain(a, t) == nv {
					continue
				}
			}
		}
		if ok1 && !ok2 && v >= 3 && a.op == "fa" && !isObj(b) && !st.owned(a) && !st.frozen(a) {
			// something met in every iteration anew
			delete(st.heap, a)
			continue
		}
		if ok1 && (a.op == "ia" || a.op == "mp") && !a.args[1].isConst() {
			dropVar(a)
			continue
		}
		gen[a] = true
		changed = true
		if f.trace && v > 3 {
			fmt.Fprintf(os.Stderr, "CHANGED %s: %v -> %v (%v %v)\n", f.p.instrPos(h.Instrs[0]), a, nv, ov, ok2)
		}
		generalise()
	}
	changed = changed || !sameProps(st.props, sn.props)
	sort.Strings(signs)
	sg := strings.Join(signs, ",")
	known := sn.signs
	if changed || known == nil {
		known = map[string]bool{}
	}
	if !known[sg] {
		known = cp(known)
		known[sg] = true
		if len(sn.signs) > 0 || sg != "" {
			changed = true
		}
	}
	if f.trace {
		fmt.Fprintf(os.Stderr, "BACK %d %v %v %v sg=%s\n", v, changed, f.p.instrPos(h.Instrs[0]), st.props, sg)
	}
	if !changed && !first {
		if f.c.Loop != nil {
			f.c.Loop(st, h)
		}
		return false // covered by the state analysed before
	}
	if v > 12 {
		f.problem("loop at %s does not stabilise", f.p.instrPos(h.Instrs[0]))
		return false
	}
	ns := f.snapshot(st, phis)
	ns.gen, ns.genPhi, ns.signs, ns.inv = gen, genPhi, known, invs
	ns.skip = last.skip
	ns.past = append(append([]*snap(nil), last.past...), last)
	fr.snaps[h] = ns
	return true
}

// bound is a bound of a counter: it stays on one side of a value that does
// not change while the loop runs.
type bound struct {
	lim *Term
	up  bool
}

// of yields what is not negative while c keeps to the bound.
func (b bound) of(ts *Terms, c *Term) *Term {
	if b.up {
		return ts.sub(b.lim, c)
	}
	return ts.sub(c, b.lim)
}

// bounds are the bounds a counter may keep to.
func (f *Flow) bounds(st *State, sn *snap, phis []*ssa.Phi, ph *ssa.Phi) []bound {
	out := []bound{{f.ts.Zero, false}}
	seen := map[*Term]bool{f.ts.Zero: true}
	if old := sn.phis[ph]; !isC(old) {
		out = append(out, bound{old, false}, bound{old, true})
		seen[old] = true
	}
	inLoop := map[ssa.Value]bool{}
	for _, q := range phis {
		inLoop[q] = true
	}
	h := ph.Block()
	li := f.loopInfo(h.Parent())
	var ts []*Term
	for v, t := range st.top.env {
		if inLoop[v] || t == nil {
			continue
		}
		if ins, ok := v.(ssa.Instruction); ok {
			in := false
			for _, x := range li.of[ins.Block()] {
				in = in || x == h
			}
			if in {
				continue
			}
		}
		switch u := v.Type().Underlying().(type) {
		case *types.Slice:
			t = st.lenOf(t)
		case *types.Basic:
			if u.Info()&types.IsString != 0 {
				t = st.lenOf(t)
			} else if u.Info()&types.IsInteger == 0 {
				continue
			}
		default:
			continue
		}
		if !seen[t] && !isC(t) {
			seen[t] = true
			ts = append(ts, t)
		}
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	for i, t := range ts {
		if i < 8 {
			out = append(out, bound{t, true})
		}
	}
	// lengths that the path compared something with
	ts = nil
	for fact := range st.facts {
		if fact.op != "ge" || len(fact.args) != 1 {
			continue
		}
		parts := []*Term{fact.args[0]}
		if parts[0].op == "lin" {
			parts = parts[0].args
		}
		for _, t := range parts {
			if t.op == "len" && !seen[t] {
				seen[t] = true
				ts = append(ts, t)
			}
		}
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id > ts[j].id })
	for i, t := range ts {
		if i < 6 {
			out = append(out, bound{t, true})
		}
	}
	return out
}

func isC(t *Term) bool { _, ok := t.intVal(); return ok }

func (s *State) loadPlain(a *Term, t types.Type) *Term {
	if c := s.f.c.Load; c != nil {
		s.f.c.Load = nil
		defer func() { s.f.c.Load = c }()
	}
	return s.load(a, t)
}

func cellType(a *Term) types.Type {
	if a.typ == nil {
		return nil
	}
	if p, ok := a.typ.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

func (s *State) generalise(a *Term, tag string) {
	name := fmt.Sprintf("%scell%d", tag, a.id)
	if t := cellType(a); t != nil && a.op == "mp" {
		s.heap[a] = s.ts().mk("maybe", "", nil, s.unknown(name, t), s.ts().sym(name+":ok", types.Typ[types.Bool]))
		return
	}
	if t := cellType(a); t != nil && a.op != "ct" {
		s.heap[a] = s.unknown(name, t)
		return
	}
	s.heap[a] = s.ts().sym(name, nil)
}

// grows: in every iteration the counter is left alone or increased by a constant.
func (f *Flow) grows(st *State, ph *ssa.Phi, h *ssa.BasicBlock) bool {
	li := f.loopInfo(h.Parent())
	for i, p := range h.Preds {
		if !li.back[[2]int{p.Index, h.Index}] {
			continue
		}
		seen := map[ssa.Value]bool{}
		var ok func(v ssa.Value) bool
		ok = func(v ssa.Value) bool {
			if v == ssa.Value(ph) || seen[v] {
				return true
			}
			seen[v] = true
			switch x := v.(type) {
			case *ssa.Phi:
				for _, e := range x.Edges {
					if !ok(e) {
						return false
					}
				}
				return true
			case *ssa.BinOp:
				if x.Op == token.ADD {
					c, isC := x.Y.(*ssa.Const)
					if isC && c.Value != nil && constant.Sign(c.Value) >= 0 {
						return ok(x.X)
					}
					if nonNegCall(x.Y) {
						return ok(x.X)
					}
				}
			}
			return false
		}
		if !ok(ph.Edges[i]) {
			return false
		}
	}
	return true
}

// nonNegCall: the value is a length or a copied count.
func nonNegCall(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && (b.Name() == "len" || b.Name() == "copy" || b.Name() == "cap")
}

func (f *Flow) initOf(ph *ssa.Phi, h *ssa.BasicBlock) *Term {
	li := f.loopInfo(h.Parent())
	var r *Term
	for i, p := range h.Preds {
		if li.back[[2]int{p.Index, h.Index}] {
			continue
		}
		c, ok := ph.Edges[i].(*ssa.Const)
		if !ok || c.Value == nil {
			return nil
		}
		t := f.ts.constant(c.Value, c.Type())
		if r != nil && r != t {
			return nil
		}
		r = t
	}
	return r
}

// merge drops what is dead and ends the path when its state is already covered.
func (f *Flow) merge(st *State, kind string) bool {
	st.prune()
	key := st.key(kind)
	for _, o := range f.visited[key] {
		cov := true
		for t, v := range o.facts {
			if w, ok := st.facts[t]; !ok || w != v {
				if ev, k := st.Eval(t); !k || ev != v {
					cov = false
					break
				}
			}
		}
		if cov {
			return false
		}
	}
	if n := len(f.visited[key]); n >= 12 {
		// widen: keep what all agree on
		common := cp(st.facts)
		for _, o := range f.visited[key] {
			for t, v := range common {
				if w, ok := o.facts[t]; !ok || w != v {
					delete(common, t)
				}
			}
		}
		st.facts = common
		nv := map[*Term]*Term{}
		for t, v := range st.vals {
			if fv, ok := common[f.ts.eq(t, v)]; ok && fv {
				nv[t] = v
			}
		}
		st.vals = nv
	}
	f.visited[key] = append(f.visited[key], &seenState{facts: cp(st.facts)})
	return true
}

func (s *State) key(kind string) string {
	var b strings.Builder
	b.WriteString(kind)
	for fr := s.top; fr != nil; fr = fr.caller {
		fmt.Fprintf(&b, "|%s@%d.%d<%d", fr.key, fr.blk.Index, fr.idx, idxOf(fr.prev))
		if fr.fn.Blocks[0] == fr.blk || fr.caller == nil {
			b.WriteString(fr.fn.String())
		}
		vs := make([]string, 0, len(fr.visits))
		for h, n := range fr.visits {
			vs = append(vs, fmt.Sprintf("%d:%d", h.Index, n))
		}
		sort.Strings(vs)
		b.WriteString(strings.Join(vs, ","))
		es := make([]string, 0, len(fr.env))
		for v, t := range fr.env {
			es = append(es, fmt.Sprintf("%s=%d", v.Name(), t.id))
		}
		sort.Strings(es)
		b.WriteString(strings.Join(es, ","))
		for _, d := range fr.defers {
			fmt.Fprintf(&b, "d%d", d.fn.id)
			for _, a := range d.args {
				fmt.Fprintf(&b, ",%d", a.id)
			}
		}
	}
	hs := make([]string, 0, len(s.heap))
	for a, v := range s.heap {
		hs = append(hs, fmt.Sprintf("%d=%d", a.id, v.id))
	}
	sort.Strings(hs)
	b.WriteString("#")
	b.WriteString(strings.Join(hs, ","))
	ps := make([]string, 0, len(s.props))
	for k, v := range s.props {
		ps = append(ps, fmt.Sprintf("%s=%d", k, v.id))
	}
	sort.Strings(ps)
	b.WriteString("#")
	b.WriteString(strings.Join(ps, ","))
	b.WriteString("#" + s.epoch)
	var es []string
	for t := range s.esc {
		if s.allocs[t] {
			es = append(es, fmt.Sprint(t.id))
		}
	}
	sort.Strings(es)
	b.WriteString("#" + strings.Join(es, ","))
	return b.String()
}

func idxOf(b *ssa.BasicBlock) int {
	return 0
}

// prune drops dead variables, unreachable cells and facts about forgotten values.
func (s *State) prune() {
	f := s.f
	li := f.liveInfo(s.top.fn)
	live := li.in[s.top.blk]
	nPhi := 0
	for _, ins := range s.top.blk.Instrs {
		if _, ok := ins.(*ssa.Phi); !ok {
			break
		}
		nPhi++
	}
	if s.top.idx == nPhi {
		for v := range s.top.env {
			if _, ok := v.(*ssa.Phi); ok && v.(*ssa.Phi).Block() == s.top.blk {
				continue
			}
			if !live[v] {
				delete(s.top.env, v)
			}
		}
		for _, ins := range s.top.blk.Instrs[:nPhi] {
			ph := ins.(*ssa.Phi)
			if refs := ph.Referrers(); refs == nil || len(*refs) == 0 {
				delete(s.top.env, ph)
			}
		}
	} else {
		// after a call
		ins := s.top.blk.Instrs[s.top.idx-1]
		if la, ok := li.after[ins]; ok {
			for v := range s.top.env {
				if !la[v] {
					delete(s.top.env, v)
				}
			}
		}
	}
	reach := map[*Term]bool{}
	var work []*Term
	var mark func(t *Term)
	mark = func(t *Term) {
		if t == nil || reach[t] {
			return
		}
		reach[t] = true
		work = append(work, t)
		for _, a := range t.args {
			mark(a)
		}
	}
	for fr := s.top; fr != nil; fr = fr.caller {
		var la map[ssa.Value]bool
		if fr != s.top {
			if fr.idx >= 0 {
				la = f.liveInfo(fr.fn).after[fr.blk.Instrs[fr.idx]]
			}
		}
		dead := 0
		for v, t := range fr.env {
			if la != nil && !la[v] {
				dead++
				continue
			}
			mark(t)
		}
		_ = dead
		for _, d := range fr.defers {
			mark(d.fn)
			for _, a := range d.args {
				mark(a)
			}
		}
	}
	for _, t := range s.props {
		mark(t)
	}
	for _, t := range s.pins {
		mark(t)
	}
	for a, v := range s.heap {
		if base(a).op == "global" {
			mark(v)
		}
	}
	// cells
	byBase := map[*Term][]*Term{}
	for a := range s.heap {
		byBase[base(a)] = append(byBase[base(a)], a)
	}
	for t := range s.esc {
		if s.props["$keepesc"] != nil {
			mark(t)
		}
	}
	for len(work) > 0 {
		t := work[len(work)-1]
		work = work[:len(work)-1]
		for _, a := range byBase[t] {
			mark(s.heap[a])
			for _, x := range a.args {
				mark(x)
			}
		}
	}
	for a := range s.heap {
		if base(a).op != "global" && !reach[base(a)] {
			delete(s.heap, a)
		}
	}
	for len(work) > 0 {
		t := work[len(work)-1]
		work = work[:len(work)-1]
		for _, a := range byBase[t] {
			mark(s.heap[a])
		}
	}
	for t := range s.allocs {
		if !reach[t] {
			delete(s.allocs, t)
			delete(s.esc, t)
		}
	}
	var alive func(t *Term) bool
	memo := map[*Term]bool{}
	alive = func(t *Term) bool {
		if reach[t] {
			return true
		}
		if r, ok := memo[t]; ok {
			return r
		}
		r := true
		switch t.op {
		case "sym":
			r = strings.HasPrefix(t.aux, "param:")
		case "alloc", "mkmap", "mkchan":
			r = false
		case "const", "nil", "global", "fn":
		default:
			for _, a := range t.args {
				if !alive(a) {
					r = false
				}
			}
			if len(t.args) == 0 {
				r = false
			}
			if t.op == "ld" && t.aux != "" && t.aux != s.epoch {
				r = false
			}
		}
		memo[t] = r
		return r
	}
	for t := range s.facts {
		if !alive(t) {
			delete(s.facts, t)
		}
	}
	for t := range s.vals {
		if !alive(t) {
			delete(s.vals, t)
		}
	}
}

// run executes one state until it ends or forks.
func (f *Flow) run(st *State) {
	for {
		fr := st.top
		if fr == nil {
			return
		}
		if fr.idx >= len(fr.blk.Instrs) {
			return
		}
		ins := fr.blk.Instrs[fr.idx]
		f.steps++
		if f.trace {
			fmt.Fprintf(os.Stderr, "%s%s: %s\n", strings.Repeat(" ", fr.depth), f.p.instrPos(ins), ins)
		}
		if !f.step(st, ins) {
			return
		}
	}
}

func (s *State) set(v ssa.Value, t *Term) { s.top.env[v] = t }

func (f *Flow) event(st *State, kind string, ins ssa.Instruction, args ...*Term) {
	if f.c.Event != nil {
		f.c.Event(st, &Event{Kind: kind, Ins: ins, Args: args})
	}
}

// step executes one instruction; false: the state ended (or was replaced by others).
func (f *Flow) step(st *State, ins ssa.Instruction) bool {
	ts := f.ts
	fr := st.top
	next := func() bool { fr.idx++; return true }
	switch x := ins.(type) {
	case *ssa.Phi:
		return next()
	case *ssa.DebugRef:
		return next()
	case *ssa.Alloc:
		t := ts.mk("alloc", st.name(x), x.Type())
		t.site = x
		st.clearObj(t)
		st.allocs[t] = true
		delete(st.esc, t)
		st.set(x, t)
		if f.c.Zeros {
			st.zeros(t, deref(x.Type()))
		}
	case *ssa.UnOp:
		v := st.val(x.X)
		switch x.Op {
		case token.MUL:
			f.event(st, "deref", x, v)
			if v.isNil() {
				f.event(st, "nilderef", x, v)
				return false
			}
			st.set(x, st.load(v, x.Type()))
			if l := st.val(x); l.op == "seq" && f.p.writtenInPlace(x) {
				st.set(x, st.ownList(x, v, l))
			}
		case token.NOT:
			st.set(x, ts.not(v))
		case token.SUB:
			st.set(x, ts.linComb(v, -1, nil, 0, 0))
		case token.XOR:
			if v.isConst() {
				st.set(x, ts.constant(wrapInt(constant.UnaryOp(token.XOR, v.c, 0), x.Type()), x.Type()))
			} else {
				st.set(x, ts.mk("compl", "", x.Type(), v))
			}
		case token.ARROW:
			return f.recv(st, x, v)
		default:
			st.set(x, ts.mk("un"+x.Op.String(), "", x.Type(), v))
		}
	case *ssa.BinOp:
		a, b := st.val(x.X), st.val(x.Y)
		switch x.Op {
		case token.QUO, token.REM:
			f.event(st, "div", x, a, b)
		}
		st.set(x, f.arith(st, x, a, b))
	case *ssa.ChangeType:
		st.set(x, st.val(x.X))
	case *ssa.ChangeInterface:
		st.set(x, st.val(x.X))
	case *ssa.Convert:
		v := st.val(x.X)
		if str, ok := v.strVal(); ok && str == "" {
			if _, ok := x.Type().Underlying().(*types.Slice); ok {
				st.set(x, ts.mk("bytes", "", x.Type(), v))
				return next()
			}
		}
		if x.Type().Underlying() != nil && v.op == "slc" {
			// string(bytes): the content now
			if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				st.set(x, st.content(v, x.Type()))
				return next()
			}
		}
		st.set(x, st.convert(x.X.Type(), x.Type(), v))
	case *ssa.MultiConvert:
		st.set(x, ts.mk("conv", x.Type().String(), x.Type(), st.val(x.X)))
	case *ssa.SliceToArrayPointer:
		st.set(x, ts.mk("s2a", "", x.Type(), st.val(x.X)))
	case *ssa.MakeInterface:
		st.set(x, st.iface(x.X.Type(), st.val(x.X), x.Type()))
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range x.Bindings {
			bs = append(bs, st.val(b))
		}
		fn := x.Fn.(*ssa.Function)
		t := ts.mk("clos", fn.String()+"@"+fmt.Sprint(fn.Pos()), x.Type(), bs...)
		t.fn = fn
		st.set(x, t)
	case *ssa.MakeMap:
		t := ts.mk("mkmap", st.name(x), x.Type())
		st.clearObj(t)
		st.allocs[t] = true
		delete(st.esc, t)
		st.set(x, t)
	case *ssa.MakeChan:
		t := ts.mk("mkchan", st.name(x), x.Type(), st.val(x.Size))
		t.site = x
		st.clearObj(t)
		st.allocs[t] = true
		delete(st.esc, t)
		st.set(x, t)
		f.event(st, "makechan", x, t, st.val(x.Size))
	case *ssa.MakeSlice:
		n := st.val(x.Len)
		f.event(st, "makeslice", x, n, st.val(x.Cap))
		t := ts.mk("alloc", st.name(x), x.Type())
		t.site = x
		st.clearObj(t)
		st.allocs[t] = true
		delete(st.esc, t)
		st.set(x, ts.mk("slc", "", x.Type(), t, ts.Zero, n))
	case *ssa.FieldAddr:
		v := st.val(x.X)
		f.event(st, "deref", x, v)
		if v.isNil() {
			f.event(st, "nilderef", x, v)
			return false
		}
		st.set(x, st.fa(x.X.Type(), v, x.Field))
	case *ssa.Field:
		st.set(x, st.field(st.val(x.X), x.X.Type(), x.Field))
	case *ssa.IndexAddr:
		v, i := st.val(x.X), st.val(x.Index)
		n := st.lenOf(v)
		if at, ok := deref(x.X.Type()).Underlying().(*types.Array); ok {
			n = ts.integer(at.Len())
		}
		f.event(st, "index", x, v, i, n)
		elem := deref(x.Type())
		st.set(x, st.ia(v, i, elem))
		// what follows runs only if the index is in range
		if !st.Assume(ts.ge(i), true) || !st.Assume(ts.ge(ts.linComb(n, 1, i, -1, -1)), true) {
			return false
		}
	case *ssa.Index:
		v, i := st.val(x.X), st.val(x.Index)
		n := st.lenOf(v)
		if at, ok := x.X.Type().Underlying().(*types.Array); ok {
			n = ts.integer(at.Len())
		}
		f.event(st, "index", x, v, i, n)
		st.set(x, st.el(v, i, x.Type()))
		if !st.Assume(ts.ge(i), true) || !st.Assume(ts.ge(ts.linComb(n, 1, i, -1, -1)), true) {
			return false
		}
	case *ssa.Slice:
		r, ok := f.slice(st, x)
		if !ok {
			return false
		}
		st.set(x, r)
	case *ssa.Lookup:
		m, k := st.val(x.X), st.val(x.Index)
		if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
			f.event(st, "index", x, m, k, st.lenOf(m))
			st.set(x, st.el(m, k, x.Type()))
			if !st.Assume(ts.ge(k), true) || !st.Assume(ts.ge(ts.linComb(st.lenOf(m), 1, k, -1, -1)), true) {
				return false
			}
			return next()
		}
		v, ok := st.lookup(m, k, x.X.Type().Underlying().(*types.Map).Elem())
		if x.CommaOk {
			st.set(x, ts.mk("agg", "tuple", x.Type(), v, ok))
		} else {
			st.set(x, v)
		}
	case *ssa.MapUpdate:
		m, k, v := st.val(x.Map), st.val(x.Key), st.val(x.Value)
		f.event(st, "mapupdate", x, m, k, v)
		st.mapStore(m, k, v, x.Map.Type().Underlying().(*types.Map).Elem(), true)
	case *ssa.Range:
		// it starts anew, even if it was left early before
		for _, u := range *x.Referrers() {
			if n, ok := u.(*ssa.Next); ok {
				delete(st.props, "range:"+st.f.site(n)+fmt.Sprint(st.val(x.X).id))
			}
		}
		st.set(x, ts.mk("range", st.name(x), x.Type(), st.val(x.X)))
	case *ssa.Next:
		f.next(st, x)
	case *ssa.TypeAssert:
		return f.typeAssert(st, x)
	case *ssa.Extract:
		t := st.val(x.Tuple)
		if t.op == "agg" && x.Index < len(t.args) {
			st.set(x, t.args[x.Index])
		} else {
			st.set(x, ts.mk("ext", fmt.Sprint(x.Index), x.Type(), t))
		}
	case *ssa.Store:
		a, v := st.val(x.Addr), st.val(x.Val)
		f.event(st, "deref", x, a)
		if a.isNil() {
			f.event(st, "nilderef", x, a)
			return false
		}
		if f.c.Store != nil {
			f.c.Store(st, a, v, x)
		}
		st.Store(a, x.Val.Type(), v)
	case *ssa.Send:
		return f.send(st, x, st.val(x.Chan), st.val(x.X))
	case *ssa.Select:
		return f.sel(st, x)
	case *ssa.Go:
		return f.goStmt(st, x)
	case *ssa.Defer:
		fnT, args := f.callParts(st, &x.Call)
		fr.defers = append(fr.defers, deferred{x, fnT, args})
	case *ssa.RunDefers:
		if n := len(fr.defers); n > 0 {
			d := fr.defers[n-1]
			fr.defers = fr.defers[:n-1]
			fr.idx-- // come back here
			return f.call(st, d.ins, d.fn, d.args, true)
		}
	case *ssa.Call:
		fnT, args := f.callParts(st, &x.Call)
		return f.call(st, x, fnT, args, false)
	case *ssa.Jump:
		return f.jump(st, fr.blk.Succs[0])
	case *ssa.If:
		return f.branch(st, x)
	case *ssa.Return:
		var rs []*Term
		for _, r := range x.Results {
			rs = append(rs, st.val(r))
		}
		return f.ret(st, rs, x)
	case *ssa.Panic:
		f.event(st, "panic", x, st.val(x.X))
		if f.c.Panic != nil {
			f.c.Panic(st, x)
		}
		return false
	default:
		f.problem("%s: instruction %T is not modelled", f.p.instrPos(ins), ins)
		if v, ok := ins.(ssa.Value); ok {
			st.set(v, st.unknown(st.name(ins), v.Type()))
		}
	}
	return next()
}

// ownList gives the list at addr, known by its elements, an array of its own:
// it is about to be changed in place.
func (s *State) ownList(x *ssa.UnOp, addr, l *Term) *Term {
	t, ok := x.Type().Underlying().(*types.Slice)
	if !ok || len(l.args) == 0 || len(l.args) > maxAgg {
		return l
	}
	for _, a := range l.args {
		if a.op != "elem" {
			return l
		}
	}
	ts := s.ts()
	arr := ts.mk("alloc", s.name(x)+":list", x.Type())
	s.clearObj(arr)
	s.allocs[arr] = true
	if !s.owned(addr) {
		s.esc[arr] = true
	}
	for i, a := range l.args {
		s.heap[s.ia(arr, ts.integer(int64(i)), t.Elem())] = a.args[0]
	}
	v := ts.mk("slc", "", x.Type(), arr, ts.Zero, ts.integer(int64(len(l.args))))
	s.Store(addr, x.Type(), v)
	return v
}

// writtenInPlace: elements of the list that is loaded are assigned.
func (p *Program) writtenInPlace(x *ssa.UnOp) bool {
	if v, ok := p.inPlace[x]; ok {
		return v
	}
	seen := map[ssa.Value]bool{}
	var written func(v ssa.Value) bool
	written = func(v ssa.Value) bool {
		if seen[v] || v.Referrers() == nil {
			return false
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch u := r.(type) {
			case *ssa.Slice:
				if u.X == v && written(u) {
					return true
				}
			case *ssa.Phi:
				if written(u) {
					return true
				}
			case *ssa.ChangeType:
				if written(u) {
					return true
				}
			case *ssa.IndexAddr:
				for _, w := range *u.Referrers() {
					if st, ok := w.(*ssa.Store); ok && st.Addr == u {
						return true
					}
				}
			case *ssa.Call:
				if b, ok := u.Call.Value.(*ssa.Builtin); ok && (b.Name() == "copy" || b.Name() == "clear") && u.Call.Args[0] == v {
					return true
				}
				if c := u.Call.StaticCallee(); c != nil && len(c.Blocks) > 0 && (p.isHelper(c) || p.inModule(c)) {
					for i, a := range u.Call.Args {
						if a == v && i < len(c.Params) && written(c.Params[i]) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	_, isSlice := x.Type().Underlying().(*types.Slice)
	w := isSlice && written(x)
	if p.inPlace == nil {
		p.inPlace = map[*ssa.UnOp]bool{}
	}
	p.inPlace[x] = w
	return w
}

// convert is ts.conv, keeping an integer whose value is known to fit.
func (s *State) convert(from, to types.Type, x *Term) *Term {
	t := s.ts().conv(from, to, x)
	if t.op != "conv" || x.op == "conv" {
		return t
	}
	fb, fok := from.Underlying().(*types.Basic)
	tb, tok := to.Underlying().(*types.Basic)
	if !fok || !tok || fb.Info()&types.IsInteger == 0 || tb.Info()&types.IsInteger == 0 {
		return t
	}
	bits, signed := intBits(tb)
	lo, hi := int64(0), int64(1)<<61
	switch {
	case bits == 0:
		return t
	case signed && bits < 64:
		lo, hi = -(1 << uint(bits-1)), 1<<uint(bits-1)-1
	case signed:
		lo = -(1 << 61)
	case bits < 64:
		hi = 1<<uint(bits) - 1
	}
	ts := s.ts()
	if s.Prove(ts.linComb(x, 1, x, 0, -lo)) && s.Prove(ts.linComb(x, -1, x, 0, hi)) {
		return x
	}
	return t
}

// content is the string with the bytes that a slice holds now.
func (s *State) content(v *Term, typ types.Type) *Term {
	ts := s.ts()
	if elems, ok := s.Elems(v, types.Typ[types.Byte]); ok {
		if len(elems) == 0 {
			return ts.str("")
		}
		all := true
		var bs []byte
		for _, e := range elems {
			n, ok := e.intVal()
			if !ok {
				all = false
				break
			}
			bs = append(bs, byte(n))
		}
		if all {
			return ts.str(string(bs))
		}
		// elements of one source, in order
		return ts.mk("str", "", typ, ts.mk("agg", "array", nil, elems...))
	}
	b := v.args[0]
	if r, ok := s.heap[ts.mk("ct", "", nil, b)]; ok {
		return ts.mk("str", "", typ, ts.mk("sub", "", types.NewSlice(types.Typ[types.Byte]), r, v.args[1], v.args[2]))
	}
	return ts.mk("str", s.cellsKey(b), typ, v)
}

func (s *State) clearObj(t *Term) {
	for a := range s.heap {
		if base(a) == t {
			delete(s.heap, a)
		}
	}
}

func (s *State) iface(T types.Type, v *Term, it types.Type) *Term {
	if _, ok := T.Underlying().(*types.Interface); ok {
		return v
	}
	if v.op == "newerr" {
		return v
	}
	t := s.ts().mk("iface", types.TypeString(T, nil), it, v)
	if s.f.p.dynTypes == nil {
		s.f.p.dynTypes = map[string]types.Type{}
	}
	s.f.p.dynTypes[t.aux] = T
	return t
}

// arith is the value of a binary operation; linear terms are used only where
// the operation cannot wrap around.
func (f *Flow) arith(st *State, x *ssa.BinOp, a, b *Term) *Term {
	ts := f.ts
	switch x.Op {
	case token.ADD, token.SUB, token.MUL:
		if bt, ok := x.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 && !(a.isConst() && b.isConst()) {
			bits, signed := intBits(bt)
			if bits < 64 || !signed {
				return ts.mk("bin"+x.Op.String(), bt.Name(), x.Type(), a, b)
			}
		}
	}
	return ts.binop(x.Op, a, b, x.Type())
}

func (s *State) lookup(m, k *Term, elem types.Type) (v, ok *Term) {
	ts := s.ts()
	if m.isNil() {
		return s.zero(elem), ts.Fals
	}
	addr := ts.mk("mp", "", types.NewPointer(elem), m, k)
	if s.f.c.Load != nil {
		if v := s.f.c.Load(s, addr, elem); v != nil {
			return v, ts.mk("mok", s.epoch, types.Typ[types.Bool], m, k)
		}
	}
	if c, has := s.heap[addr]; has {
		if c.op == "absent" {
			return s.zero(elem), ts.Fals
		}
		if c.op == "maybe" {
			return c.args[0], c.args[1]
		}
		return c, ts.True
	}
	if m.op == "mkmap" && (!s.esc[m] || s.f.c.NoKill) {
		some := s.heap[ts.mk("ct", "", nil, m)] != nil
		for a := range s.heap {
			if a.op == "mp" && a.args[0] == m {
				if v, kn := s.Eval(s.eqKeys(a.args[1], k)); !kn || v {
					some = true
				}
			}
		}
		if !some {
			return s.zero(elem), ts.Fals
		}
	}
	vt := s.unknown(fmt.Sprintf("map%d[%d]%s", m.id, k.id, s.epoch), elem)
	okt := ts.mk("mok", s.epoch, types.Typ[types.Bool], m, k)
	if m.op != "mkmap" {
		vt = ts.mk("mv", s.epoch, elem, m, k)
	}
	return vt, okt
}

// eqKeys is the condition that two map keys are the same.
func (s *State) eqKeys(a, b *Term) *Term {
	if isText(a.typ) && isText(b.typ) {
		return s.eqBytes(a, b)
	}
	return s.ts().eq(a, b)
}

func isText(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (s *State) mapStore(m, k, v *Term, elem types.Type, present bool) {
	ts := s.ts()
	addr := ts.mk("mp", "", types.NewPointer(elem), m, k)
	s.killAlias(addr)
	if !present {
		v = ts.mk("absent", "", nil)
	}
	s.heap[addr] = v
	if b := base(addr); !isObj(b) || s.esc[b] {
		s.escape(v)
		s.escape(k)
	}
	if present && m.op == "mkmap" && !k.isConst() && k.op != "iface" && !s.f.c.NoKill {
		s.heap[ts.mk("ct", "", nil, m)] = ts.sym("some", nil)
	}
}

func (f *Flow) next(st *State, x *ssa.Next) {
	ts := f.ts
	it := st.val(x.Iter)
	nm := st.name(x)
	tup := x.Type().(*types.Tuple)
	src := it
	if it.op == "range" {
		src = it.args[0]
	}
	ok := ts.sym(nm+":more", types.Typ[types.Bool])
	if n, isC := st.lenOf(src).intVal(); isC && n == 0 {
		ok = ts.Fals
	}
	kt, vt := tup.At(1).Type(), tup.At(2).Type()
	if x.IsString {
		k := ts.sym(nm+":i", types.Typ[types.Int])
		st.set(x, ts.mk("agg", "tuple", tup, ok, k, ts.sym(nm+":r", types.Typ[types.Rune])))
		return
	}
	if st.f.c.Range != nil {
		if ks, vs, known := st.f.c.Range(st, src); known {
			c := "range:" + st.f.site(x) + fmt.Sprint(src.id)
			i := 0
			if n := st.props[c]; n != nil {
				k, _ := n.intVal()
				i = int(k)
			}
			if i < len(ks) {
				st.props[c] = ts.integer(int64(i + 1))
				st.set(x, ts.mk("agg", "tuple", tup, ts.True, ks[i], vs[i]))
			} else {
				delete(st.props, c)
				st.set(x, ts.mk("agg", "tuple", tup, ts.Fals, st.unknown(nm+":key", tup.At(1).Type()), st.unknown(nm+":val", tup.At(2).Type())))
			}
			return
		}
	}
	mt, _ := x.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
	if b, isB := kt.Underlying().(*types.Basic); mt != nil && isB && b.Kind() == types.Invalid {
		kt = mt.Key()
	}
	if b, isB := vt.Underlying().(*types.Basic); mt != nil && isB && b.Kind() == types.Invalid {
		vt = mt.Elem()
	}
	k := st.unknown(nm+":key", kt)
	addr := ts.mk("mp", "", types.NewPointer(vt), src, k)
	v := ts.mk("mv", st.epoch, vt, src, k)
	if st.f.c.Load != nil {
		if w := st.f.c.Load(st, addr, vt); w != nil {
			v = w
		}
	}
	_ = addr
	st.facts[ts.mk("mok", st.epoch, types.Typ[types.Bool], src, k)] = true
	st.set(x, ts.mk("agg", "tuple", tup, ok, k, v))
}

func (f *Flow) slice(st *State, x *ssa.Slice) (*Term, bool) {
	ts := f.ts
	v := st.val(x.X)
	lo, hi := ts.Zero, (*Term)(nil)
	if x.Low != nil {
		lo = st.val(x.Low)
	}
	if x.High != nil {
		hi = st.val(x.High)
	}
	var n *Term
	isArr := false
	if at, ok := deref(x.X.Type()).Underlying().(*types.Array); ok {
		n = ts.integer(at.Len())
		isArr = true
	} else {
		n = st.lenOf(v)
	}
	given := hi != nil
	if hi == nil {
		hi = n
	}
	f.event(st, "slice", x, v, lo, hi, n, ts.boolean(given))
	// what follows runs only if the bounds are in range
	if !st.Assume(ts.ge(lo), true) || !st.Assume(ts.ge(ts.sub(hi, lo)), true) {
		return nil, false
	}
	if _, str := x.X.Type().Underlying().(*types.Basic); str || isArr {
		if !st.Assume(ts.ge(ts.sub(n, hi)), true) {
			return nil, false
		}
	}
	return st.Sub(v, lo, hi, x.Type(), isArr), true
}

// Sub is v[lo:hi].
func (s *State) Sub(v, lo, hi *Term, typ types.Type, isArr bool) *Term {
	ts := s.ts()
	if isArr {
		return ts.mk("slc", "", typ, v, lo, hi)
	}
	if l, ok := lo.intVal(); ok && l == 0 && hi == s.lenOf(v) {
		return v
	}
	if hi.op == "stridx" && hi.args[0] == v && lo == ts.Zero {
		return ts.mk("strbefore", hi.aux, typ, v)
	}
	if m, k := linOf(lo); len(m) == 1 && hi == s.lenOf(v) {
		for x := range m {
			if x.op == "stridx" && x.args[0] == v && m[x] == 1 && k == int64(len(x.aux)) {
				return ts.mk("strafter", x.aux, typ, v)
			}
		}
	}
	switch v.op {
	case "slc":
		return ts.mk("slc", "", typ, v.args[0], ts.add(v.args[1], lo), ts.add(v.args[1], hi))
	case "sub":
		return ts.mk("sub", "", typ, v.args[0], ts.add(v.args[1], lo), ts.add(v.args[1], hi))
	case "seq":
		l, ok := lo.intVal()
		if ok && hi == s.lenOf(v) {
			parts := v.args
			for l > 0 && len(parts) > 0 && parts[0].op == "elem" {
				parts = parts[1:]
				l--
			}
			if l == 0 {
				return s.seq(parts, typ)
			}
		}
		if h, ok2 := hi.intVal(); ok && ok2 && l <= h && int(h) <= len(v.args) {
			all := true
			for _, p := range v.args[:h] {
				if p.op != "elem" {
					all = false
				}
			}
			if all {
				if l == h {
					return ts.mk("sub", "", typ, v, lo, hi)
				}
				return s.seq(v.args[l:h], typ)
			}
		}
		if ps := s.piece(ts.mk("sub", "", typ, v, lo, hi)); len(ps) > 0 {
			if len(ps) == 1 && ps[0].op == "spread" {
				if x := ps[0].args[0]; isStr(x.typ) == isStr(typ) {
					return x
				}
			}
			return s.seq(ps, typ)
		}
	case "nil":
		return v
	case "const":
		if str, ok := v.strVal(); ok {
			l, ok1 := lo.intVal()
			h, ok2 := hi.intVal()
			if ok1 && ok2 && l >= 0 && l <= h && int(h) <= len(str) {
				return ts.str(str[l:h])
			}
		}
	}
	return ts.mk("sub", "", typ, v, lo, hi)
}

func (f *Flow) typeAssert(st *State, x *ssa.TypeAssert) bool {
	ts := f.ts
	v := st.val(x.X)
	var val, ok *Term
	if v.isNil() {
		ok = ts.Fals
		val = st.zero(x.AssertedType)
	} else if v.op == "iface" {
		T := f.p.dynTypes[v.aux]
		if types.IsInterface(x.AssertedType) {
			ok = ts.boolean(types.Implements(T, x.AssertedType.Underlying().(*types.Interface)))
			val = v
		} else {
			ok = ts.boolean(types.Identical(T, x.AssertedType))
			val = v.args[0]
		}
		if b, _ := ok.boolVal(); !b {
			val = st.zero(x.AssertedType)
		}
	} else {
		name := types.TypeString(x.AssertedType, nil)
		ok = ts.mk("is", name, types.Typ[types.Bool], v)
		if types.IsInterface(x.AssertedType) {
			val = ts.mk("as", name, x.AssertedType, v)
		} else {
			val = ts.mk("as", name, x.AssertedType, v)
			if _, isS := x.AssertedType.Underlying().(*types.Struct); isS {
				val = st.unknown(fmt.Sprintf("as%d:%s", v.id, name), x.AssertedType)
			}
		}
	}
	if !x.CommaOk {
		f.event(st, "assert", x, v, ok)
		if !st.Assume(ok, true) {
			return false
		}
		st.set(x, val)
		st.top.idx++
		return true
	}
	// ok and not ok are told apart at once: the value is zero where ok is false
	known, k := st.Eval(ok)
	tup := func(s *State, o bool) {
		w := val
		if !o {
			w = s.zero(x.AssertedType)
		}
		s.Assume(ok, o)
		s.top.env[x] = ts.mk("agg", "tuple", x.Type(), w, ts.boolean(o))
		s.top.idx++
	}
	if k {
		tup(st, known)
		return true
	}
	n := st.Fork()
	tup(n, false)
	f.push(n)
	tup(st, true)
	return true
}

func (f *Flow) branch(st *State, x *ssa.If) bool {
	c := st.val(x.Cond)
	v, k := st.Eval(c)
	if !k && f.c.Branch != nil {
		v, k = f.c.Branch(st, c, x)
		if k {
			st.Assume(c, v)
		}
	}
	at := f.p.instrPos(x)
	if k {
		if v {
			return f.jump(st, st.top.blk.Succs[0])
		}
		return f.jump(st, st.top.blk.Succs[1])
	}
	n := st.Fork()
	if n.Assume(c, false) {
		n.note("%s: not %s", at, c.show(3))
		if f.jump(n, n.top.blk.Succs[1]) {
			f.push(n)
		}
	}
	if st.Assume(c, true) {
		st.note("%s: %s", at, c.show(3))
		return f.jump(st, st.top.blk.Succs[0])
	}
	return false
}

func (f *Flow) ret(st *State, rs []*Term, ins ssa.Instruction) bool {
	fr := st.top
	if fr.caller == nil {
		f.Paths++
		if f.c.Return != nil {
			f.c.Return(st, rs, ins)
		}
		return false
	}
	var res *Term
	switch {
	case fr.fn.Signature.Results().Len() == 1:
		res = rs[0]
	default:
		res = f.ts.mk("agg", "tuple", fr.fn.Signature.Results(), rs...)
	}
	call := fr.call
	isDfr, isGo, hook := fr.isDfr, fr.isGo, fr.ret
	st.top = fr.caller.clone()
	if hook != nil {
		res = hook(st, res)
	}
	if v, ok := call.(*ssa.Call); ok && !isDfr && !isGo {
		st.top.env[v] = res
	}
	st.top.idx++
	return f.merge(st, "r")
}

// Finish completes a call with a result.
func (f *Flow) finish(st *State, ins ssa.CallInstruction, res *Term, dfr bool) {
	if v, ok := ins.(*ssa.Call); ok && !dfr {
		if res == nil {
			res = st.unknown(st.name(ins), v.Type())
		}
		st.top.env[v] = res
	}
	st.top.idx++
}
