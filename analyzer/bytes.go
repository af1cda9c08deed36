package main

import (
	"go/types"
	"strings"
)

// ---- sequences of bytes

// normBytes brings a sequence of bytes into a normal form.
func (st *State) normBytes(parts []*Term) []*Term {
	ts := st.ts()
	var out []*Term
	for _, p := range parts {
		if p.op == "elem" {
			out = append(out, ts.mk("elem", "", nil, st.plainByte(p.args[0])))
			continue
		}
		x := p.args[0]
		for {
			switch x.op {
			case "str", "bytes":
				x = x.args[0]
				continue
			case "sub":
				if lo, ok := x.args[1].intVal(); ok && lo == 0 {
					d := ts.sub(st.lenOf(x.args[0]), st.subst(x.args[2]))
					if n, ok := st.subst(d).intVal(); ok && n == 0 || st.Prove(d) && st.Prove(ts.linComb(d, -1, nil, 0, 0)) {
						x = x.args[0]
						continue
					}
				}
			}
			break
		}
		switch x.op {
		case "nil":
			continue
		case "be64", "be32", "be16", "le64", "le32", "le16":
			x = ts.mk(x.op, "", bytesT, st.unconv(x.args[0]))
		case "seq":
			out = append(out, st.normBytes(x.args)...)
			continue
		case "agg":
			for _, e := range x.args {
				out = append(out, ts.mk("elem", "", nil, st.plainByte(e)))
			}
			continue
		case "slc":
			if y := st.bytesNow(x); y != x && !(y.op == "str" && y.args[0] == x) {
				out = append(out, st.normBytes([]*Term{ts.mk("spread", "", nil, y)})...)
				continue
			}
		case "sub":
			// a piece of a sequence
			if y := st.piece(x); y != nil {
				out = append(out, st.normBytes(y)...)
				continue
			}
		}
		if n, ok := st.subst(st.lenOf(x)).intVal(); ok && n >= 0 && n <= 64 {
			for i := int64(0); i < n; i++ {
				out = append(out, ts.mk("elem", "", nil, st.plainByte(st.el(x, ts.integer(i), byteT))))
			}
			continue
		}
		out = append(out, ts.mk("spread", "", nil, x))
	}
	return out
}

// piece cuts a part out of a sequence whose parts line up with the bounds.
func (st *State) piece(x *Term) []*Term {
	ts := st.ts()
	src := x.args[0]
	for src.op == "str" || src.op == "bytes" {
		src = src.args[0]
	}
	if src.op != "seq" && src.op != "fill" {
		return nil
	}
	same := func(a, b *Term) bool {
		d := ts.sub(st.subst(a), st.subst(b))
		if n, ok := d.intVal(); ok {
			return n == 0
		}
		return st.Prove(d) && st.Prove(ts.linComb(d, -1, nil, 0, 0))
	}
	at := ts.Zero
	var out []*Term
	in := false
	parts := src.args
	for i := 0; ; i++ {
		if !in && same(at, x.args[1]) {
			in = true
		}
		if in && same(at, x.args[2]) {
			return out
		}
		if i == len(parts) {
			return nil
		}
		if in {
			out = append(out, parts[i])
		}
		if parts[i].op == "elem" {
			at = ts.add(at, ts.integer(1))
		} else {
			at = ts.add(at, st.lenOf(parts[i].args[0]))
		}
	}
}

// unconv leaves out conversions that do not change the value.
func (st *State) unconv(v *Term) *Term {
	for v.op == "conv" {
		x := v.args[0]
		if !isInt(x.typ) && x.op != "lin" || !st.Prove(x) {
			break
		}
		tb, ok := v.typ.Underlying().(*types.Basic)
		if !ok || tb.Info()&types.IsInteger == 0 {
			break
		}
		bits, signed := intBits(tb)
		fits := false
		if fb, ok := x.typ.Underlying().(*types.Basic); ok && x.op != "lin" {
			fbits, fsig := intBits(fb)
			if fsig {
				fbits--
			}
			if signed {
				fits = fbits <= bits-1
			} else {
				fits = fbits <= bits
			}
		}
		if bits == 64 && x.op == "lin" {
			fits = true // lengths and indices
		}
		if signed {
			bits--
		}
		if !fits && (bits > 62 || !st.Prove(st.ts().linComb(x, -1, nil, 0, int64(1)<<bits-1))) {
			break
		}
		v = x
	}
	return v
}

// plainByte: conversions to byte that do not change the value are left out.
func (st *State) plainByte(b *Term) *Term {
	ts := st.ts()
	if b.op == "el" && strings.HasPrefix(b.args[0].op, "be") && len(b.args[0].args) == 1 {
		return ts.mk("el", "", b.typ, ts.mk(b.args[0].op, "", bytesT, st.unconv(b.args[0].args[0])), b.args[1])
	}
	for b.op == "conv" {
		x := b.args[0]
		if !isInt(x.typ) && x.op != "lin" {
			break
		}
		if !st.Prove(x) || !st.Prove(ts.linComb(x, -1, nil, 0, 255)) {
			break
		}
		b = x
	}
	return st.subst(b)
}

func isByteSeq(t *Term) bool {
	switch t.op {
	case "str", "bytes", "sub", "seq", "fill":
		return true
	case "agg":
		return t.aux == "array"
	}
	return false
}

// asStr is the content of a slice of bytes, as a string.
func (st *State) asStr(v *Term) *Term {
	if isStr(v.typ) && v.op != "slc" && !isByteSeq(v) {
		return v
	}
	x := st.bytesNow(v)
	ps := st.normBytes([]*Term{st.ts().mk("spread", "", nil, x)})
	return st.ofParts(ps)
}

// ofParts is the string made of the parts.
func (st *State) ofParts(ps []*Term) *Term {
	ts := st.ts()
	strT := types.Typ[types.String]
	if len(ps) == 0 {
		return ts.str("")
	}
	if len(ps) == 1 && ps[0].op == "spread" {
		x := ps[0].args[0]
		if isStr(x.typ) {
			return x
		}
		return ts.conv(bytesT, strT, x)
	}
	lit := make([]byte, 0, len(ps))
	for _, p := range ps {
		if p.op != "elem" {
			return ts.conv(bytesT, strT, st.seq(ps, bytesT))
		}
		n, ok := p.args[0].intVal()
		if !ok {
			return ts.conv(bytesT, strT, st.seq(ps, bytesT))
		}
		lit = append(lit, byte(n))
	}
	return ts.str(string(lit))
}

// sameText compares two strings by their parts.
func (st *State) sameText(a, b *Term) (val, known bool) {
	if !isByteSeq(a) && !isByteSeq(b) {
		return false, false
	}
	ts := st.ts()
	sp := func(t *Term) []*Term { return st.normBytes([]*Term{ts.mk("spread", "", nil, t)}) }
	pa, pb := sp(a), sp(b)
	// common ends cancel
	for len(pa) > 0 && len(pb) > 0 && pa[0] == pb[0] {
		pa, pb = pa[1:], pb[1:]
	}
	for len(pa) > 0 && len(pb) > 0 && pa[len(pa)-1] == pb[len(pb)-1] {
		pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
	}
	if len(pa) == 0 && len(pb) == 0 {
		return true, true
	}
	elems := func(ps []*Term) bool {
		for _, p := range ps {
			if p.op != "elem" {
				return false
			}
		}
		return true
	}
	all := elems(pa) && elems(pb)
	if all && len(pa) != len(pb) {
		return false, true
	}
	same := all
	for i := 0; i < len(pa) && i < len(pb) && pa[i].op == "elem" && pb[i].op == "elem"; i++ {
		v, k := st.Eval(ts.eq(pa[i].args[0], pb[i].args[0]))
		if k && !v {
			return false, true
		}
		if !k {
			same = false
		}
	}
	if all {
		return same, same
	}
	na, nb := st.ofParts(pa), st.ofParts(pb)
	if na == a && nb == b || na == b && nb == a || isByteSeq(na) && na.op != "str" || isByteSeq(nb) && nb.op != "str" {
		return false, false
	}
	if e := ts.eq(na, nb); e != ts.eq(a, b) {
		if na.op == "str" && nb.op == "str" && na == a && nb == b {
			return false, false
		}
		if v, ok := st.facts[e]; ok {
			return v, true
		}
		if v, ok := e.boolVal(); ok {
			return v, true
		}
	}
	return false, false
}

// bytesModel: searching and comparing bytes.
func (f *Flow) bytesModel(st *State, ci *CallInfo, ext, nm string, rt types.Type) []Out {
	ts := f.ts
	a := ci.Args
	one := func(t *Term) []Out { return []Out{{St: st, Res: t}} }
	switch ext {
	case "bytes.Equal":
		return one(st.eqBytes(a[0], a[1]))
	case "crypto/subtle.ConstantTimeCompare":
		c := st.eqBytes(a[0], a[1])
		n := st.Fork()
		var out []Out
		if n.Assume(c, false) {
			out = append(out, Out{n, ts.Zero})
		}
		if st.Assume(c, true) {
			out = append(out, Out{st, ts.integer(1)})
		}
		return out
	case "bytes.TrimRight", "strings.TrimRight", "bytes.TrimLeft", "strings.TrimLeft", "bytes.Trim", "strings.Trim":
		cut, ok := st.subst(a[1]).strVal()
		if !ok {
			return nil
		}
		x := st.bytesNow(a[0])
		ps := st.normBytes([]*Term{ts.mk("spread", "", nil, x)})
		lo, hi := 0, len(ps)
		in := func(p *Term) (bool, bool) {
			if p.op != "elem" {
				return false, false
			}
			n, ok := p.args[0].intVal()
			return ok && n < 128 && strings.IndexByte(cut, byte(n)) >= 0, ok
		}
		if !strings.HasSuffix(ext, "Left") {
			for hi > lo {
				y, k := in(ps[hi-1])
				if !k {
					return nil
				}
				if !y {
					break
				}
				hi--
			}
		}
		if !strings.HasSuffix(ext, "Right") {
			for lo < hi {
				y, k := in(ps[lo])
				if !k {
					return nil
				}
				if !y {
					break
				}
				lo++
			}
		}
		if isStr(rt) {
			return one(st.ofParts(ps[lo:hi]))
		}
		for _, p := range ps[:lo] {
			if p.op != "elem" {
				return nil
			}
		}
		n := ts.sub(st.lenOf(a[0]), ts.integer(int64(len(ps)-hi)))
		return one(st.Sub(a[0], ts.integer(int64(lo)), n, rt, false))
	case "bytes.IndexByte", "strings.IndexByte":
		ps := st.normBytes([]*Term{ts.mk("spread", "", nil, st.bytesNow(a[0]))})
		fixed := len(ps) <= 64
		for _, p := range ps {
			fixed = fixed && p.op == "elem"
		}
		if !fixed {
			r := ts.sym(nm, types.Typ[types.Int])
			st.facts[ts.ge(ts.linComb(r, 1, nil, 0, 1))] = true
			st.facts[ts.ge(ts.linComb(st.lenOf(a[0]), 1, r, -1, -1))] = true
			return one(r)
		}
		var out []Out
		for i, p := range ps {
			c := ts.eq(p.args[0], a[1])
			n := st.Fork()
			if n.Assume(c, true) {
				out = append(out, Out{n, ts.integer(int64(i))})
			}
			if !st.Assume(c, false) {
				return out
			}
		}
		return append(out, Out{st, ts.integer(-1)})
	}
	return nil
}

func (st *State) eqBytes(a, b *Term) *Term {
	x, y := st.asStr(a), st.asStr(b)
	if v, k := st.sameText(x, y); k {
		return st.ts().boolean(v)
	}
	if v, k := st.Eval(st.ts().eq(st.lenOf(a), st.lenOf(b))); k && !v {
		return st.ts().Fals
	}
	return st.ts().eq(x, y)
}
