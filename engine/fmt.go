package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"
)

// symFlt is a float64 holding a symbolic integer small enough to be exact.
type symFlt struct{ t *Term }

func (x *X) symFloat(t *Term, signed bool) value {
	if t.w < 64 {
		if signed {
			t = x.T.SExt(t, 64)
		} else {
			t = x.T.ZExt(t, 64)
		}
	}
	const lim = 1 << 53
	if x.branch(x.T.Cmp(OUle, x.T.Bin(OAdd, t, x.T.Int(lim)), x.T.Int(2*lim))) {
		return &symFlt{t}
	}
	panic(unsupported{"large symbolic integer as float"})
}

// fltOp computes on floats at least one of which is symbolic (nil: cannot).
func (x *X) fltOp(op token.Token, a, b value) value {
	const lim = 1 << 52
	small := func(v value) *Term {
		switch v := v.(type) {
		case *symFlt:
			if x.branch(x.T.Cmp(OUle, x.T.Bin(OAdd, v.t, x.T.Int(lim)), x.T.Int(2*lim))) {
				return v.t
			}
		case float64:
			if v == math.Floor(v) && math.Abs(v) < lim {
				return x.T.Int(int(v))
			}
		}
		return nil
	}
	switch op {
	case token.ADD, token.SUB:
		s, t := small(a), small(b)
		if s == nil || t == nil {
			return nil
		}
		if op == token.ADD {
			return &symFlt{x.T.Bin(OAdd, s, t)}
		}
		return &symFlt{x.T.Bin(OSub, s, t)}
	}
	if r := x.fltCmp(op, a, b); r != nil {
		return r
	}
	return nil
}

// fltCmp compares floats at least one of which is symbolic (nil: cannot).
func (x *X) fltCmp(op token.Token, a, b value) *Term {
	if f, ok := a.(float64); ok {
		s, ok := b.(*symFlt)
		if !ok {
			return nil
		}
		switch op {
		case token.LSS:
			op = token.GTR
		case token.LEQ:
			op = token.GEQ
		case token.GTR:
			op = token.LSS
		case token.GEQ:
			op = token.LEQ
		}
		a, b = s, f
	}
	s, ok := a.(*symFlt)
	if !ok {
		return nil
	}
	var t *Term
	whole := true
	switch v := b.(type) {
	case *symFlt:
		t = v.t
	case float64:
		if math.IsNaN(v) {
			return x.T.Bool(op == token.NEQ)
		}
		if math.Abs(v) > 1<<53 { // beyond every symbolic value
			switch op {
			case token.EQL:
				return x.T.False
			case token.NEQ:
				return x.T.True
			case token.LSS, token.LEQ:
				return x.T.Bool(v > 0)
			}
			return x.T.Bool(v < 0)
		}
		t, whole = x.T.Int(int(math.Floor(v))), v == math.Floor(v)
	default:
		return nil
	}
	switch op {
	case token.EQL:
		return x.T.And(x.T.Bool(whole), x.T.Eq(s.t, t))
	case token.NEQ:
		return x.T.Not(x.T.And(x.T.Bool(whole), x.T.Eq(s.t, t)))
	case token.LSS:
		if whole {
			return x.T.Cmp(OSlt, s.t, t)
		}
		return x.T.Cmp(OSle, s.t, t)
	case token.LEQ:
		return x.T.Cmp(OSle, s.t, t)
	case token.GTR:
		return x.T.Cmp(OSlt, t, s.t)
	case token.GEQ:
		if whole {
			return x.T.Cmp(OSle, t, s.t)
		}
		return x.T.Cmp(OSlt, t, s.t)
	}
	return nil
}

// decimal prints a symbolic integer: the number of digits is branched on,
// the digits stay symbolic.
func (x *X) decimal(t *Term, signed bool) *Str {
	neg := false
	if signed && x.branch(x.T.Cmp(OSlt, t, x.T.Const(0, t.w))) {
		neg = true
		t = x.T.Neg(t)
	}
	n, p := 1, uint64(10)
	for ; n < 20; n++ {
		if t.w < 64 && p >= 1<<t.w {
			break
		}
		if x.branch(x.T.Cmp(OUlt, t, x.T.Const(p, t.w))) {
			break
		}
		p *= 10
	}
	if n > 10 {
		v := x.concretize(t, "formatting an integer")
		return mkStr(fmt.Sprint(v))
	}
	w := uint8(1)
	for uint64(1)<<w < p {
		w++
	}
	if w < t.w {
		t = x.T.Trunc(t, w)
	}
	ds := make([]*Term, n)
	for i := n - 1; i >= 0; i-- {
		ten := x.T.Const(10, t.w)
		if t.w < 4 {
			t = x.T.ZExt(t, 4)
			ten = x.T.Const(10, 4)
		}
		d := x.T.Bin(OURem, t, ten)
		if d.w < 8 {
			d = x.T.ZExt(d, 8)
		} else {
			d = x.T.Trunc(d, 8)
		}
		ds[i] = x.T.Bin(OAdd, d, x.T.Const('0', 8))
		t = x.T.Bin(OUDiv, t, ten)
	}
	r := x.symStr(ds)
	if neg {
		r = x.strCat(mkStr("-"), r)
	}
	return r
}

// toGo converts a fully concrete value to a native Go value for formatting.
func (x *X) toGo(t types.Type, v value) (interface{}, bool) {
	switch v := v.(type) {
	case *Term:
		if !v.isConst() {
			return nil, false
		}
		b, ok := under(t).(*types.Basic)
		if !ok {
			return nil, false
		}
		switch b.Kind() {
		case types.Bool, types.UntypedBool:
			return v.k != 0, true
		case types.Int, types.UntypedInt:
			return int(v.k), true
		case types.Int8:
			return int8(v.k), true
		case types.Int16:
			return int16(v.k), true
		case types.Int32, types.UntypedRune:
			return int32(v.k), true
		case types.Int64:
			return int64(v.k), true
		case types.Uint:
			return uint(v.k), true
		case types.Uint8:
			return uint8(v.k), true
		case types.Uint16:
			return uint16(v.k), true
		case types.Uint32:
			return uint32(v.k), true
		case types.Uint64, types.Uintptr:
			return v.k, true
		}
	case *Str:
		v = x.fix(v)
		if !v.sym {
			return v.c, true
		}
	case float64:
		return v, true
	case []value:
		st, ok := under(t).(*types.Slice)
		if !ok {
			return nil, false
		}
		if bs, isB := under(st.Elem()).(*types.Basic); isB {
			switch bs.Kind() {
			case types.Uint8:
				b, ok := concBytes(x.bytesOf(v))
				return b, ok
			case types.String:
				r := make([]string, len(v))
				for i, e := range v {
					s := x.fix(e.(*Str))
					if s.sym {
						return nil, false
					}
					r[i] = s.c
				}
				return r, true
			case types.Int:
				r := make([]int, len(v))
				for i, e := range v {
					tm := e.(*Term)
					if !tm.isConst() {
						return nil, false
					}
					r[i] = int(tm.k)
				}
				return r, true
			}
		}
	}
	return nil, false
}

// textOf renders arg with verb 's' semantics, returning ok=false when arg has
// no string-like rendering.
func (x *X) textOf(a iface) (*Str, bool) {
	if a.t == nil {
		return nil, false
	}
	if _, ok := a.v.(nativeObj); ok {
		return nil, false
	}
	if m := x.methodByName(a.t, "Error"); m != nil && m.Signature.Params().Len() == 0 {
		if isNilVal(a.v) {
			return mkStr("<nil>"), true
		}
		return x.callFn(x.cur, m, []value{a.v}, nil).(*Str), true
	}
	if m := x.methodByName(a.t, "String"); m != nil && m.Signature.Params().Len() == 0 && m.Signature.Results().Len() == 1 {
		if isNilVal(a.v) {
			if _, ok := a.v.(*value); ok {
				return mkStr("<nil>"), true
			}
		}
		if s, ok := x.callFn(x.cur, m, []value{a.v}, nil).(*Str); ok {
			return s, true
		}
	}
	if s, ok := a.v.(*Str); ok {
		return s, true
	}
	return nil, false
}

func (x *X) quote(s *Str) *Str {
	s = x.fix(s)
	if !s.sym {
		return mkStr(fmt.Sprintf("%q", s.c))
	}
	return x.callFn(x.cur, x.P.fn("strconv", "Quote"), []value{s}, nil).(*Str)
}

func (x *X) fmtArg(a iface, spec string, verb byte) *Str {
	if a.t == nil {
		return mkStr(fmt.Sprintf(spec, nil))
	}
	switch verb {
	case 's', 'v', 'q', 'w', 'x', 'X':
		if verb == 'v' && strings.Contains(spec, "#") {
			break
		}
		if s, ok := x.textOf(a); ok {
			s = x.fix(s)
			if !s.sym {
				sp := spec
				if verb == 'w' {
					sp = strings.Replace(spec, "w", "v", 1)
				}
				return mkStr(fmt.Sprintf(sp, s.c))
			}
			if spec == "%s" || spec == "%v" || spec == "%w" {
				return s
			}
			if spec == "%q" {
				return x.quote(s)
			}
			panic(unsupported{"formatting symbolic string with " + spec})
		}
		if sl, ok := a.v.([]value); ok && (verb == 's' || verb == 'x') {
			if b, ok := x.fmtBytes(sl, verb); ok && len(spec) == 2 {
				return b
			}
		}
		if sl, ok := a.v.([]value); ok && verb == 'v' && spec == "%v" {
			// slice of strings, possibly symbolic
			if st, ok := under(a.t).(*types.Slice); ok {
				r := mkStr("[")
				for i, e := range sl {
					if i > 0 {
						r = x.strCat(r, mkStr(" "))
					}
					r = x.strCat(r, x.fmtArg(iface{t: st.Elem(), v: e}, "%v", 'v'))
				}
				return x.strCat(r, mkStr("]"))
			}
		}
		if m, ok := a.v.(*mapv); ok && verb == 'v' && spec == "%v" {
			// map with concrete string keys, in key order
			mt := under(a.t).(*types.Map)
			var ks []string
			vals := map[string]value{}
			conc := true
			if m != nil {
				for _, e := range m.ents {
					if e.dead {
						continue
					}
					k, ok := e.key.(*Str)
					if !ok || x.fix(k).sym {
						conc = false
						break
					}
					ks = append(ks, k.c)
					vals[k.c] = e.val
				}
			}
			if conc {
				sort.Strings(ks)
				r := mkStr("map[")
				for i, k := range ks {
					if i > 0 {
						k = " " + k
					}
					r = x.strCat(r, mkStr(k+":"))
					r = x.strCat(r, x.fmtArg(iface{t: mt.Elem(), v: vals[ks[i]]}, "%v", 'v'))
				}
				return x.strCat(r, mkStr("]"))
			}
		}
	}
	if i, ok := a.v.(iface); ok {
		return x.fmtArg(i, spec, verb)
	}
	if g, ok := x.toGo(a.t, a.v); ok {
		return mkStr(fmt.Sprintf(spec, g))
	}
	if t, ok := a.v.(*Term); ok && t.w == 0 {
		if x.branch(t) {
			return mkStr(fmt.Sprintf(spec, true))
		}
		return mkStr(fmt.Sprintf(spec, false))
	}
	if t, ok := a.v.(*Term); ok && (spec == "%d" || spec == "%v") {
		if _, signed, ok := widthOf(under(a.t)); ok {
			return x.decimal(t, signed)
		}
	}
	if t, ok := a.v.(*Term); ok {
		v := x.concretize(t, "formatting an integer")
		g, ok := x.toGo(a.t, x.T.Const(v, t.w))
		if ok {
			return mkStr(fmt.Sprintf(spec, g))
		}
	}
	panic(unsupported{fmt.Sprintf("formatting %s with %s", a.t, spec)})
}

func (x *X) fmtBytes(sl []value, verb byte) (*Str, bool) {
	for _, e := range sl {
		t, ok := e.(*Term)
		if !ok || t.w != 8 {
			return nil, false
		}
	}
	if verb == 's' {
		return x.symStr(x.bytesOf(sl)), true
	}
	hexd := make([]uint64, 16)
	for i := range hexd {
		hexd[i] = uint64("0123456789abcdef"[i])
	}
	var out []*Term
	for _, e := range sl {
		t := e.(*Term)
		out = append(out, x.T.Tab(hexd, 8, x.T.Extract(t, 4, 4)), x.T.Tab(hexd, 8, x.T.Extract(t, 0, 4)))
	}
	return x.symStr(out), true
}

// sprintf implements the fmt verbs over possibly symbolic arguments.
func (x *X) sprintf(f *Str, args []value) *Str {
	f = x.fix(f)
	if f.sym {
		panic(unsupported{"symbolic format string"})
	}
	out := emptyStr
	s := f.c
	ai := 0
	for i := 0; i < len(s); {
		j := strings.IndexByte(s[i:], '%')
		if j < 0 {
			out = x.strCat(out, mkStr(s[i:]))
			break
		}
		out = x.strCat(out, mkStr(s[i:i+j]))
		i += j
		k := i + 1
		for k < len(s) && strings.IndexByte("+-# 0123456789.[]*", s[k]) >= 0 {
			if s[k] == '*' || s[k] == '[' {
				panic(unsupported{"format spec " + s[i:]})
			}
			k++
		}
		if k >= len(s) {
			out = x.strCat(out, mkStr("%!(NOVERB)"))
			break
		}
		verb := s[k]
		spec := s[i : k+1]
		i = k + 1
		if verb == '%' {
			out = x.strCat(out, mkStr("%"))
			continue
		}
		if ai >= len(args) {
			out = x.strCat(out, mkStr("%!"+string(verb)+"(MISSING)"))
			continue
		}
		a := args[ai].(iface)
		ai++
		if verb == 'T' {
			out = x.strCat(out, mkStr(types.TypeString(a.t, func(p *types.Package) string { return p.Name() })))
			continue
		}
		out = x.strCat(out, x.fmtArg(a, spec, verb))
	}
	if ai < len(args) {
		out = x.strCat(out, mkStr("%!(EXTRA)"))
	}
	return out
}

func (x *X) sprint(args []value, ln bool) *Str {
	out := emptyStr
	prevStr := true
	for i, v := range args {
		a := v.(iface)
		_, isS := a.v.(*Str)
		if i > 0 && (ln || (!isS && !prevStr)) {
			out = x.strCat(out, mkStr(" "))
		}
		out = x.strCat(out, x.fmtArg(a, "%v", 'v'))
		prevStr = isS
	}
	if ln {
		out = x.strCat(out, mkStr("\n"))
	}
	return out
}

func (x *X) varargs(v value) []value {
	s, _ := v.([]value)
	return s
}

// writeTo calls w.Write(b).
func (x *X) writeTo(w value, s *Str) value {
	i := w.(iface)
	if i.t == nil {
		x.rtPanic("invalid memory address or nil pointer dereference")
	}
	b := x.mkBytes(x.strBytes(s))
	if no, ok := i.v.(nativeObj); ok {
		return no.callMethod(x, "Write", []value{b})
	}
	m := x.methodByName(i.t, "Write")
	return x.callFn(x.cur, m, []value{i.v, b}, nil)
}

func initFmt(I map[string]intrinsic) {
	I["fmt.Sprintf"] = func(x *X, c *frame, a []value) value { return x.sprintf(a[0].(*Str), x.varargs(a[1])) }
	I["fmt.Sprint"] = func(x *X, c *frame, a []value) value { return x.sprint(x.varargs(a[0]), false) }
	I["fmt.Sprintln"] = func(x *X, c *frame, a []value) value { return x.sprint(x.varargs(a[0]), true) }
	I["fmt.Fprintf"] = func(x *X, c *frame, a []value) value {
		return x.writeTo(a[0], x.sprintf(a[1].(*Str), x.varargs(a[2])))
	}
	I["fmt.Fprint"] = func(x *X, c *frame, a []value) value { return x.writeTo(a[0], x.sprint(x.varargs(a[1]), false)) }
	I["fmt.Fprintln"] = func(x *X, c *frame, a []value) value { return x.writeTo(a[0], x.sprint(x.varargs(a[1]), true)) }
	I["fmt.Appendf"] = func(x *X, c *frame, a []value) value {
		pre, _ := a[0].([]value)
		return append(append([]value{}, pre...), x.mkBytes(x.strBytes(x.sprintf(a[1].(*Str), x.varargs(a[2]))))...)
	}
	for _, n := range []string{"fmt.Printf", "fmt.Println", "fmt.Print"} {
		I[n] = func(x *X, c *frame, a []value) value { return tuple{x.T.Int(0), iface{}} }
	}
	I["fmt.Errorf"] = func(x *X, c *frame, a []value) value {
		f := a[0].(*Str)
		args := x.varargs(a[1])
		msg := x.sprintf(f, args)
		// find a %w operand
		idx, n := -1, 0
		for i := 0; i+1 < len(f.c); i++ {
			if f.c[i] != '%' {
				continue
			}
			j := i + 1
			for j < len(f.c) && strings.IndexByte("+-# 0123456789.", f.c[j]) >= 0 {
				j++
			}
			if j < len(f.c) {
				if f.c[j] == 'w' {
					idx = n
				}
				if f.c[j] != '%' {
					n++
				}
			}
			i = j
		}
		if idx >= 0 && idx < len(args) {
			wt := x.P.ext["fmt"].Type("wrapError")
			if wt != nil {
				p := new(value)
				*p = structure{msg, args[idx]}
				return iface{t: types.NewPointer(wt.Type()), v: p}
			}
		}
		return x.mkError(msg)
	}
}
