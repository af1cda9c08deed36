package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A Term is a hash-consed value number: two occurrences of the same Term hold
// the same value.
type Term struct {
	op   string
	aux  string
	args []*Term
	id   int
	typ  types.Type
	fn   *ssa.Function   // fn, clos
	c    constant.Value  // const
	lin  []int64         // lin: coefficients of args
	k    int64           // lin: constant; fa: field index
	site ssa.Instruction // alloc, sym: where it comes from
}

// Terms is the table of value numbers of one analysis.
type Terms struct {
	tab  map[string]*Term
	Nil  *Term
	True *Term
	Fals *Term
	Zero *Term
}

func newTerms() *Terms {
	t := &Terms{tab: map[string]*Term{}}
	t.Nil = t.mk("nil", "", nil)
	t.True = t.constant(constant.MakeBool(true), types.Typ[types.Bool])
	t.Fals = t.constant(constant.MakeBool(false), types.Typ[types.Bool])
	t.Zero = t.integer(0)
	return t
}

func termKey(op, aux string, args []*Term) string {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(aux)
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	return b.String()
}

func (ts *Terms) mk(op, aux string, typ types.Type, args ...*Term) *Term {
	key := termKey(op, aux, args)
	if t, ok := ts.tab[key]; ok {
		return t
	}
	t := &Term{op: op, aux: aux, args: args, typ: typ, id: len(ts.tab) + 1}
	ts.tab[key] = t
	return t
}

func (ts *Terms) constant(c constant.Value, typ types.Type) *Term {
	if c == nil {
		return ts.Nil
	}
	if c.Kind() == constant.Float {
		if i := constant.ToInt(c); i.Kind() == constant.Int {
			c = i
		}
	}
	key := c.ExactString()
	if c.Kind() == constant.String {
		key = "s" + key
	}
	t := ts.mk("const", key, typ)
	t.c = c
	return t
}

func (ts *Terms) integer(n int64) *Term {
	return ts.constant(constant.MakeInt64(n), types.Typ[types.Int])
}
func (ts *Terms) str(s string) *Term {
	return ts.constant(constant.MakeString(s), types.Typ[types.String])
}
func (ts *Terms) boolean(b bool) *Term {
	if b {
		return ts.True
	}
	return ts.Fals
}

func (ts *Terms) sym(name string, typ types.Type) *Term {
	t := ts.mk("sym", name, typ)
	return t
}

func (t *Term) isConst() bool { return t.op == "const" }
func (t *Term) isNil() bool   { return t.op == "nil" }
func (t *Term) intVal() (int64, bool) {
	if t.op != "const" || t.c.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(t.c)
}
func (t *Term) strVal() (string, bool) {
	if t.op != "const" || t.c.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(t.c), true
}
func (t *Term) boolVal() (bool, bool) {
	if t.op != "const" || t.c.Kind() != constant.Bool {
		return false, false
	}
	return constant.BoolVal(t.c), true
}

func (t *Term) String() string { return t.show(4) }
func (t *Term) show(d int) string {
	switch t.op {
	case "const":
		s := t.c.String()
		return s
	case "nil":
		return "nil"
	case "sym":
		return t.aux
	case "lin":
		if d < 0 {
			return "…"
		}
		var b []string
		for i, a := range t.args {
			s := a.show(d - 1)
			if t.lin[i] != 1 {
				s = fmt.Sprintf("%d*%s", t.lin[i], s)
			}
			b = append(b, s)
		}
		if t.k != 0 {
			b = append(b, fmt.Sprint(t.k))
		}
		return strings.Join(b, "+")
	}
	if d <= 0 {
		return "…"
	}
	var b []string
	for _, a := range t.args {
		b = append(b, a.show(d-1))
	}
	s := t.op
	if t.aux != "" {
		s += "[" + t.aux + "]"
	}
	if len(b) > 0 {
		s += "(" + strings.Join(b, ", ") + ")"
	}
	return s
}

// ---- integers

func isInt(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// linOf splits an integer term into atoms with coefficients and a constant.
func linOf(t *Term) (map[*Term]int64, int64) {
	if n, ok := t.intVal(); ok {
		return nil, n
	}
	if t.op == "lin" {
		m := map[*Term]int64{}
		for i, a := range t.args {
			m[a] = t.lin[i]
		}
		return m, t.k
	}
	return map[*Term]int64{t: 1}, 0
}

func (ts *Terms) mkLin(m map[*Term]int64, k int64, typ types.Type) *Term {
	var atoms []*Term
	for a, c := range m {
		if c != 0 {
			atoms = append(atoms, a)
		}
	}
	if len(atoms) == 0 {
		return ts.integer(k)
	}
	sort.Slice(atoms, func(i, j int) bool { return atoms[i].id < atoms[j].id })
	if len(atoms) == 1 && m[atoms[0]] == 1 && k == 0 {
		return atoms[0]
	}
	var co []int64
	var b strings.Builder
	for _, a := range atoms {
		co = append(co, m[a])
		b.WriteString(strconv.FormatInt(m[a], 10))
		b.WriteByte(';')
	}
	b.WriteString(strconv.FormatInt(k, 10))
	t := ts.mk("lin", b.String(), typ, atoms...)
	t.lin, t.k = co, k
	return t
}

// linComb is a*ca + b*cb + k.
func (ts *Terms) linComb(a *Term, ca int64, b *Term, cb int64, k int64) *Term {
	m := map[*Term]int64{}
	ma, ka := linOf(a)
	for t, c := range ma {
		m[t] += c * ca
	}
	if b != nil {
		mb, kb := linOf(b)
		for t, c := range mb {
			m[t] += c * cb
		}
		k += kb * cb
	}
	k += ka * ca
	return ts.mkLin(m, k, a.typ)
}

func (ts *Terms) add(a, b *Term) *Term { return ts.linComb(a, 1, b, 1, 0) }
func (ts *Terms) sub(a, b *Term) *Term { return ts.linComb(a, 1, b, -1, 0) }

// ge is the condition L >= 0.
func (ts *Terms) ge(l *Term) *Term {
	if n, ok := l.intVal(); ok {
		return ts.boolean(n >= 0)
	}
	return ts.mk("ge", "", types.Typ[types.Bool], l)
}

func (ts *Terms) not(t *Term) *Term {
	if b, ok := t.boolVal(); ok {
		return ts.boolean(!b)
	}
	switch t.op {
	case "not":
		return t.args[0]
	case "ge":
		return ts.ge(ts.linComb(t.args[0], -1, nil, 0, -1))
	}
	return ts.mk("not", "", types.Typ[types.Bool], t)
}

func (ts *Terms) and(args ...*Term) *Term {
	var keep []*Term
	for _, a := range args {
		if b, ok := a.boolVal(); ok {
			if !b {
				return ts.Fals
			}
			continue
		}
		keep = append(keep, a)
	}
	switch len(keep) {
	case 0:
		return ts.True
	case 1:
		return keep[0]
	}
	return ts.mk("and", "", types.Typ[types.Bool], keep...)
}

// nonNil: the term can never be nil.
func (t *Term) nonNil() bool {
	switch t.op {
	case "alloc", "global", "fn", "clos", "iface", "newerr", "fa", "ia", "mkmap", "mkchan", "slc":
		return true
	case "const":
		return true
	case "ld":
		// the errors of the standard library
		if len(t.args) > 0 && t.args[0].op == "global" && t.typ != nil && isErrType(t.typ) {
			switch pkg, _, _ := strings.Cut(t.args[0].aux, "."); pkg {
			case "context", "io", "net", "os", "errors", "net/http", "io/fs":
				return true
			}
		}
	case "seq":
		for _, a := range t.args {
			if a.op == "elem" {
				return true
			}
		}
	}
	return false
}

func (ts *Terms) eq(a, b *Term) *Term {
	if a == b {
		return ts.True
	}
	if a.op == "const" && b.op == "const" {
		if a.c.Kind() == b.c.Kind() {
			return ts.boolean(constant.Compare(a.c, token.EQL, b.c))
		}
		return ts.Fals
	}
	if a.isNil() && b.nonNil() || b.isNil() && a.nonNil() {
		return ts.Fals
	}
	if a.op == "const" && a.c.Kind() == constant.Bool {
		if v, _ := a.boolVal(); v {
			return b
		}
		return ts.not(b)
	}
	if b.op == "const" && b.c.Kind() == constant.Bool {
		return ts.eq(b, a)
	}
	if a.op == "iface" && b.op == "iface" {
		if a.aux != b.aux {
			return ts.Fals
		}
		return ts.eq(a.args[0], b.args[0])
	}
	fresh := func(t *Term) bool { return t.op == "alloc" || t.op == "mkchan" || t.op == "mkmap" || t.op == "newerr" }
	if (fresh(a) || a.op == "global" || a.op == "fn") && (fresh(b) || b.op == "global" || b.op == "fn") {
		return ts.Fals
	}
	// a field of one object is not another object
	if a.op == "fa" && (b.op == "alloc" || b.op == "global") || b.op == "fa" && (a.op == "alloc" || a.op == "global") {
		x, y := a, b
		for x.op == "fa" {
			x = x.args[0]
		}
		for y.op == "fa" {
			y = y.args[0]
		}
		if x != y && (x.op == "alloc" || x.op == "global") && (y.op == "alloc" || y.op == "global") {
			return ts.Fals
		}
	}
	if a.op == "agg" && b.op == "agg" && len(a.args) == len(b.args) {
		var cs []*Term
		for i := range a.args {
			cs = append(cs, ts.eq(a.args[i], b.args[i]))
		}
		return ts.and(cs...)
	}
	if isInt(a.typ) && isInt(b.typ) || a.op == "lin" || b.op == "lin" {
		d := ts.sub(a, b)
		if n, ok := d.intVal(); ok {
			return ts.boolean(n == 0)
		}
		// canonical sign: the first atom has a positive coefficient
		m, k := linOf(d)
		if d.op == "lin" && d.lin[0] < 0 {
			for t := range m {
				m[t] = -m[t]
			}
			d = ts.mkLin(m, -k, a.typ)
		}
		return ts.mk("eq0", "", types.Typ[types.Bool], d)
	}
	if b.id < a.id {
		a, b = b, a
	}
	return ts.mk("eq", "", types.Typ[types.Bool], a, b)
}

// binop is the value of a binary operation.
func (ts *Terms) binop(op token.Token, a, b *Term, typ types.Type) *Term {
	bothConst := a.op == "const" && b.op == "const"
	switch op {
	case token.EQL:
		return ts.eq(a, b)
	case token.NEQ:
		return ts.not(ts.eq(a, b))
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		if bothConst && a.c.Kind() == b.c.Kind() {
			return ts.boolean(constant.Compare(a.c, op, b.c))
		}
		switch op {
		case token.GTR:
			a, b, op = b, a, token.LSS
		case token.GEQ: // a >= b : not a < b
			return ts.not(ts.binop(token.LSS, a, b, typ))
		case token.LEQ:
			return ts.not(ts.binop(token.LSS, b, a, typ))
		}
		if isInt(a.typ) || isInt(b.typ) || a.op == "lin" || b.op == "lin" {
			return ts.ge(ts.linComb(b, 1, a, -1, -1))
		}
		return ts.mk("lt", "", types.Typ[types.Bool], a, b)
	}
	if bothConst {
		ak, bk := a.c.Kind(), b.c.Kind()
		if ak == constant.Int && bk == constant.Int || ak == constant.String && bk == constant.String {
			switch op {
			case token.SHL, token.SHR:
				if n, ok := constant.Uint64Val(b.c); ok && n < 256 {
					return ts.constant(wrapInt(constant.Shift(a.c, op, uint(n)), typ), typ)
				}
			case token.QUO:
				if n, _ := constant.Int64Val(b.c); n != 0 {
					return ts.constant(constant.BinaryOp(a.c, token.QUO_ASSIGN, b.c), typ)
				}
			case token.REM:
				if n, _ := constant.Int64Val(b.c); n != 0 {
					return ts.constant(constant.BinaryOp(a.c, op, b.c), typ)
				}
			case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR, token.AND_NOT:
				return ts.constant(wrapInt(constant.BinaryOp(a.c, op, b.c), typ), typ)
			}
		}
	}
	if isInt(typ) {
		switch op {
		case token.ADD:
			return ts.typed(ts.add(a, b), typ)
		case token.SUB:
			return ts.typed(ts.sub(a, b), typ)
		case token.MUL:
			if n, ok := a.intVal(); ok {
				return ts.linComb(b, n, nil, 0, 0)
			}
			if n, ok := b.intVal(); ok {
				return ts.linComb(a, n, nil, 0, 0)
			}
		case token.OR, token.XOR:
			if n, ok := b.intVal(); ok && n == 0 {
				return a
			}
			if n, ok := a.intVal(); ok && n == 0 {
				return b
			}
		}
	}
	if typ != nil {
		if bt, ok := typ.Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 && op == token.ADD {
			if s, ok := a.strVal(); ok && s == "" {
				return b
			}
			if s, ok := b.strVal(); ok && s == "" {
				return a
			}
			// flatten
			var parts []*Term
			for _, x := range []*Term{a, b} {
				if x.op == "concat" {
					parts = append(parts, x.args...)
				} else {
					parts = append(parts, x)
				}
			}
			return ts.mk("concat", "", typ, parts...)
		}
	}
	switch op {
	case token.AND, token.OR, token.XOR, token.MUL:
		if b.id < a.id {
			a, b = b, a
		}
	}
	return ts.mk("bin"+op.String(), "", typ, a, b)
}

func (ts *Terms) typed(t *Term, typ types.Type) *Term { return t }

// wrapInt reduces a constant to the range of its type.
func wrapInt(c constant.Value, typ types.Type) constant.Value {
	if typ == nil || c.Kind() != constant.Int {
		return c
	}
	b, ok := typ.Underlying().(*types.Basic)
	if !ok {
		return c
	}
	bits, signed := intBits(b)
	if bits == 0 {
		return c
	}
	mod := constant.Shift(constant.MakeInt64(1), token.SHL, uint(bits))
	mask := constant.BinaryOp(mod, token.SUB, constant.MakeInt64(1))
	r := constant.BinaryOp(c, token.AND, mask)
	if signed {
		half := constant.Shift(constant.MakeInt64(1), token.SHL, uint(bits-1))
		if constant.Compare(r, token.GEQ, half) {
			r = constant.BinaryOp(r, token.SUB, mod)
		}
	}
	return r
}

func intBits(b *types.Basic) (int, bool) {
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32:
		return 32, true
	case types.Int64, types.Int:
		return 64, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false
	}
	return 0, false
}

// rangeOf is the range of values of an atom that its type (or kind) gives.
func rangeOf(t *Term) (lo, hi int64, hasLo, hasHi bool) {
	switch t.op {
	case "len", "cap", "copied":
		return 0, 1<<59 - 1, true, true
	}
	if t.typ == nil {
		return
	}
	b, ok := t.typ.Underlying().(*types.Basic)
	if !ok {
		return
	}
	bits, signed := intBits(b)
	switch {
	case bits == 0:
	case !signed && bits < 64:
		return 0, 1<<uint(bits) - 1, true, true
	case !signed:
		return 0, 0, true, false
	case bits < 64:
		return -(1 << uint(bits-1)), 1<<uint(bits-1) - 1, true, true
	}
	return
}

// conv converts between integer, string and byte slice types.
func (ts *Terms) conv(from, to types.Type, x *Term) *Term {
	tb, tok := to.Underlying().(*types.Basic)
	fb, fok := from.Underlying().(*types.Basic)
	if tok && fok && tb.Info()&types.IsInteger != 0 && fb.Info()&types.IsInteger != 0 {
		if x.op == "const" {
			return ts.constant(wrapInt(x.c, to), to)
		}
		tbits, tsig := intBits(tb)
		fbits, fsig := intBits(fb)
		if tbits > fbits && (tsig || !fsig) || tbits == fbits && tsig == fsig {
			return x
		}
		if tbits == fbits || tbits > fbits {
			// same width, other sign: the same value where the source is known not to be negative
			if lo, hi, hasLo, hasHi := rangeOf(x); x.op != "lin" && hasLo && lo >= 0 && (!tsig || hasHi && hi >= 0) {
				return x
			}
		}
		return ts.mk("conv", tb.Name(), to, x)
	}
	if tok && tb.Info()&types.IsString != 0 {
		if fok && fb.Info()&types.IsString != 0 {
			return x
		}
		if _, ok := from.Underlying().(*types.Slice); ok {
			if x.op == "bytes" {
				return x.args[0]
			}
			if x.isNil() {
				return ts.str("")
			}
			return ts.mk("str", "", to, x)
		}
	}
	if _, ok := to.Underlying().(*types.Slice); ok && fok && fb.Info()&types.IsString != 0 {
		if x.op == "str" {
			// a copy with the same content
			return ts.mk("bytes", "", to, x)
		}
		return ts.mk("bytes", "", to, x)
	}
	if tok && fok {
		if x.op == "const" {
			if tb.Info()&types.IsFloat != 0 {
				return ts.constant(constant.ToFloat(x.c), to)
			}
		}
		return ts.mk("conv", tb.Name(), to, x)
	}
	return x
}

// leaves calls f for every subterm.
func (t *Term) walk(f func(*Term)) { t.walkSeen(f, map[*Term]bool{}) }
func (t *Term) walkSeen(f func(*Term), seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	f(t)
	for _, a := range t.args {
		a.walkSeen(f, seen)
	}
}

func (t *Term) contains(f func(*Term) bool) bool {
	r := false
	t.walk(func(x *Term) {
		if f(x) {
			r = true
		}
	})
	return r
}
func (t *Term) has(x *Term) bool { return t.contains(func(y *Term) bool { return x == y }) }
