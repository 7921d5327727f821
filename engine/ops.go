package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// symPtr is an element address with a symbolic (in-range) index.
type symPtr struct {
	el  []value
	idx *Term
}

func (x *X) ptr(v value) *value {
	switch p := v.(type) {
	case *value:
		return p
	case *symPtr:
		return &p.el[x.concretize(p.idx, "symbolic element address")]
	case nil:
		return nil
	}
	panic(unsupported{fmt.Sprintf("dereference of %T", v)})
}

func (x *X) concInt(v value, what string) int {
	t := v.(*Term)
	if t.isConst() {
		return int(sext(t.k, t.w))
	}
	return int(sext(x.concretize(t, what), t.w))
}

func (x *X) toInt64(v value, typ types.Type) *Term {
	t := v.(*Term)
	if t.w == 64 {
		return t
	}
	_, signed, _ := widthOf(typ)
	if signed {
		return x.T.SExt(t, 64)
	}
	return x.T.ZExt(t, 64)
}

func (x *X) binop(op token.Token, t types.Type, a, b value, bt types.Type) value {
	T := x.T
	switch av := a.(type) {
	case *Term:
		bv, ok := b.(*Term)
		if !ok {
			break
		}
		w, signed, ok := widthOf(t)
		if !ok {
			break
		}
		if w == 0 {
			switch op {
			case token.EQL:
				return T.Eq(av, bv)
			case token.NEQ:
				return T.Not(T.Eq(av, bv))
			case token.AND, token.LAND:
				return T.And(av, bv)
			case token.OR, token.LOR:
				return T.Or(av, bv)
			case token.XOR:
				return T.Not(T.Eq(av, bv))
			}
			break
		}
		switch op {
		case token.ADD:
			return T.Bin(OAdd, av, bv)
		case token.SUB:
			return T.Bin(OSub, av, bv)
		case token.MUL:
			return T.Bin(OMul, av, bv)
		case token.QUO, token.REM:
			if x.branch(T.Eq(bv, T.Const(0, w))) {
				x.rtPanic("integer divide by zero")
			}
			if op == token.QUO {
				if signed {
					return T.Bin(OSDiv, av, bv)
				}
				return T.Bin(OUDiv, av, bv)
			}
			if signed {
				return T.Bin(OSRem, av, bv)
			}
			return T.Bin(OURem, av, bv)
		case token.AND:
			return T.Bin(OAnd, av, bv)
		case token.OR:
			return T.Bin(OOr, av, bv)
		case token.XOR:
			return T.Bin(OXor, av, bv)
		case token.AND_NOT:
			return T.Bin(OAnd, av, T.BVNot(bv))
		case token.SHL, token.SHR:
			_, bs, _ := widthOf(bt)
			if bs && x.branch(T.Cmp(OSlt, bv, T.Const(0, bv.w))) {
				x.rtPanic("negative shift amount")
			}
			// bring the count to width w, saturating
			var cnt *Term
			if bv.w <= w {
				cnt = T.ZExt(bv, w)
			} else {
				big := T.Cmp(OUle, T.Const(uint64(w), bv.w), bv)
				cnt = T.Ite(big, T.Const(uint64(w), w), T.Trunc(bv, w))
			}
			if op == token.SHL {
				return T.Bin(OShl, av, cnt)
			}
			if signed {
				return T.Bin(OAShr, av, cnt)
			}
			return T.Bin(OLShr, av, cnt)
		case token.EQL:
			return T.Eq(av, bv)
		case token.NEQ:
			return T.Not(T.Eq(av, bv))
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			lt, le := OUlt, OUle
			if signed {
				lt, le = OSlt, OSle
			}
			switch op {
			case token.LSS:
				return T.Cmp(lt, av, bv)
			case token.LEQ:
				return T.Cmp(le, av, bv)
			case token.GTR:
				return T.Cmp(lt, bv, av)
			default:
				return T.Cmp(le, bv, av)
			}
		}
	case *Str:
		bv, ok := b.(*Str)
		if !ok {
			break
		}
		switch op {
		case token.ADD:
			return x.strCat(av, bv)
		case token.EQL:
			return x.strEq(av, bv)
		case token.NEQ:
			return T.Not(x.strEq(av, bv))
		case token.LSS:
			return x.strLess(av, bv)
		case token.GTR:
			return x.strLess(bv, av)
		case token.LEQ:
			return T.Not(x.strLess(bv, av))
		case token.GEQ:
			return T.Not(x.strLess(av, bv))
		}
	case *symFlt:
		if r := x.fltOp(op, a, b); r != nil {
			return r
		}
	case float64:
		bv, ok := b.(float64)
		if !ok {
			if r := x.fltOp(op, a, b); r != nil {
				return r
			}
			break
		}
		switch op {
		case token.ADD:
			return av + bv
		case token.SUB:
			return av - bv
		case token.MUL:
			return av * bv
		case token.QUO:
			return av / bv
		case token.EQL:
			return T.Bool(av == bv)
		case token.NEQ:
			return T.Bool(av != bv)
		case token.LSS:
			return T.Bool(av < bv)
		case token.LEQ:
			return T.Bool(av <= bv)
		case token.GTR:
			return T.Bool(av > bv)
		case token.GEQ:
			return T.Bool(av >= bv)
		}
	}
	switch op {
	case token.EQL:
		return x.equals(t, a, b)
	case token.NEQ:
		return T.Not(x.equals(t, a, b))
	}
	panic(unsupported{fmt.Sprintf("binop %s on %T,%T", op, a, b)})
}

func isNilVal(v value) bool {
	switch v := v.(type) {
	case nil:
		return true
	case *value:
		return v == nil
	case []value:
		return v == nil
	case *mapv:
		return v == nil
	case *chanv:
		return v == nil
	case *ssa.Function:
		return v == nil
	case *closure:
		return v == nil
	case iface:
		return v.t == nil
	}
	return false
}

func identical(a, b types.Type) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil {
		return false
	}
	return types.Identical(a, b)
}

// equals builds the (possibly symbolic) equality of two values.
func (x *X) equals(t types.Type, a, b value) *Term {
	T := x.T
	switch av := a.(type) {
	case *Term:
		if bv, ok := b.(*Term); ok {
			return T.Eq(av, bv)
		}
	case *Str:
		if bv, ok := b.(*Str); ok {
			return x.strEq(av, bv)
		}
	case float64:
		if bv, ok := b.(float64); ok {
			return T.Bool(av == bv)
		}
		if r := x.fltCmp(token.EQL, a, b); r != nil {
			return r
		}
	case *symFlt:
		if r := x.fltCmp(token.EQL, a, b); r != nil {
			return r
		}
	case *value:
		switch bv := b.(type) {
		case *value:
			return T.Bool(av == bv)
		case *symPtr:
			return T.Bool(av == x.ptr(bv))
		}
	case *symPtr:
		if bv, ok := b.(*value); ok {
			if bv == nil {
				return T.False
			}
			return T.Bool(bv == x.ptr(av))
		}
	case structure:
		bv, ok := b.(structure)
		if !ok {
			break
		}
		st, _ := under(t).(*types.Struct)
		r := T.True
		for i := range av {
			if st != nil && st.Field(i).Name() == "_" {
				continue
			}
			var ft types.Type
			if st != nil {
				ft = st.Field(i).Type()
			}
			r = T.And(r, x.equals(ft, av[i], bv[i]))
		}
		return r
	case array:
		bv, ok := b.(array)
		if !ok {
			break
		}
		r := T.True
		var et types.Type
		if at, ok := under(t).(*types.Array); ok {
			et = at.Elem()
		}
		for i := range av {
			r = T.And(r, x.equals(et, av[i], bv[i]))
		}
		return r
	case iface:
		bv, ok := b.(iface)
		if !ok {
			break
		}
		if av.t == nil || bv.t == nil {
			return T.Bool(av.t == nil && bv.t == nil)
		}
		if !identical(av.t, bv.t) {
			return T.False
		}
		if no, ok := av.v.(nativeObj); ok {
			bo, ok2 := bv.v.(nativeObj)
			return T.Bool(ok2 && no == bo)
		}
		if !types.Comparable(av.t) {
			x.rtPanic("comparing uncomparable type " + av.t.String())
		}
		return x.equals(av.t, av.v, bv.v)
	case *chanv:
		if bv, ok := b.(*chanv); ok {
			return T.Bool(av == bv)
		}
	}
	if isNilVal(a) || isNilVal(b) {
		return T.Bool(isNilVal(a) && isNilVal(b))
	}
	panic(unsupported{fmt.Sprintf("equality of %T and %T", a, b)})
}

func (x *X) unop(in *ssa.UnOp, v value) value {
	T := x.T
	switch in.Op {
	case token.MUL:
		if sp, ok := v.(*symPtr); ok {
			return x.loadSym(sp)
		}
		p, ok := v.(*value)
		if !ok {
			panic(unsupported{fmt.Sprintf("load through %T", v)})
		}
		x.checkGuardLoad(p)
		r := x.load(p)
		if in.CommaOk {
			panic(unsupported{"commaok load"})
		}
		return r
	case token.NOT:
		return T.Not(v.(*Term))
	case token.SUB:
		if f, ok := v.(float64); ok {
			return -f
		}
		return T.Neg(v.(*Term))
	case token.XOR:
		return T.BVNot(v.(*Term))
	case token.ARROW:
		ch, _ := v.(*chanv)
		el := under(in.X.Type()).(*types.Chan).Elem()
		r, ok := x.recv(ch, el)
		if in.CommaOk {
			return tuple{r, T.Bool(ok)}
		}
		return r
	}
	panic(unsupported{"unop " + in.Op.String()})
}

// loadSym reads el[idx] for a symbolic, in-range idx.
func (x *X) loadSym(sp *symPtr) value {
	n := len(sp.el)
	all := true
	var w uint8
	for i, e := range sp.el {
		t, ok := e.(*Term)
		if !ok {
			return copyVal(sp.el[x.concretize(sp.idx, "symbolic index")])
		}
		if i == 0 {
			w = t.w
		}
		if !t.isConst() || t.op == OJSON {
			all = false
		}
	}
	if all {
		if w == 0 {
			vals := make([]uint64, n)
			for i, e := range sp.el {
				vals[i] = e.(*Term).k
			}
			tb := x.T.Tab(vals, 8, sp.idx)
			return x.T.Not(x.T.Eq(tb, x.T.Const(0, 8)))
		}
		vals := make([]uint64, n)
		for i, e := range sp.el {
			vals[i] = e.(*Term).k
		}
		return x.T.Tab(vals, w, sp.idx)
	}
	if n <= 64 {
		r := sp.el[n-1].(*Term)
		for i := n - 2; i >= 0; i-- {
			r = x.T.Ite(x.T.Eq(sp.idx, x.T.Const(uint64(i), sp.idx.w)), sp.el[i].(*Term), r)
		}
		return r
	}
	return sp.el[x.concretize(sp.idx, "symbolic index")]
}

func (x *X) boundsOK(idx *Term, n int) {
	T := x.T
	if idx.isConst() {
		if idx.k < uint64(n) {
			return
		}
		x.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(idx.k), n))
	}
	if idx.maxVal() < uint64(n) {
		return
	}
	if !x.branch(T.Cmp(OUlt, idx, T.Int(n))) {
		x.rtPanic(fmt.Sprintf("index out of range with length %d", n))
	}
}

func (x *X) elems(v value) []value {
	switch v := v.(type) {
	case []value:
		return v
	case array:
		return v
	case *value:
		if v == nil {
			x.rtPanic("invalid memory address or nil pointer dereference")
		}
		if a, ok := (*v).(array); ok {
			return a
		}
		if p, ok := (*v).(poison); ok {
			panic(unsupported{"poison: " + p.msg})
		}
	case *symPtr:
		return x.elems(x.ptr(v))
	}
	panic(unsupported{fmt.Sprintf("elements of %T", v)})
}

func (x *X) indexAddr(v, i value, it types.Type) value {
	el := x.elems(v)
	idx := x.toInt64(i, it)
	x.boundsOK(idx, len(el))
	if idx.isConst() {
		return &el[idx.k]
	}
	return &symPtr{el, idx}
}

func (x *X) index(v, i value, it types.Type) value {
	idx := x.toInt64(i, it)
	switch v := v.(type) {
	case array:
		x.boundsOK(idx, len(v))
		if idx.isConst() {
			return copyVal(v[idx.k])
		}
		return x.loadSym(&symPtr{v, idx})
	case *Str:
		return x.strIndex(v, idx)
	}
	panic(unsupported{fmt.Sprintf("index of %T", v)})
}

func (x *X) strIndex(s *Str, idx *Term) value {
	n := x.strLen(s)
	x.boundsOK(idx, n)
	s = x.fix(s)
	if idx.isConst() {
		return x.rawByte(s, int(idx.k))
	}
	b := x.strBytes(s)
	el := make([]value, len(b))
	for i := range b {
		el[i] = b[i]
	}
	return x.loadSym(&symPtr{el, idx})
}

func (x *X) lookup(in *ssa.Lookup, m, k value) value {
	switch m := m.(type) {
	case *Str:
		return x.strIndex(m, x.toInt64(k, in.Index.Type()))
	case *mapv:
		var v value
		ok := false
		if m != nil {
			x.checkGuard(m, false)
			if e := x.find(m, k); e != nil {
				v, ok = copyVal(e.val), true
			}
		}
		if !ok {
			et := under(in.X.Type()).(*types.Map).Elem()
			v = x.zero(et)
		}
		if in.CommaOk {
			return tuple{v, x.T.Bool(ok)}
		}
		return v
	}
	panic(unsupported{fmt.Sprintf("lookup in %T", m)})
}

func (x *X) sliceBound(v value, def int, what string) int {
	if v == nil {
		return def
	}
	return x.concInt(v, what)
}

func (x *X) slice(v, lo, hi, mx value) value {
	if s, ok := v.(*Str); ok {
		n := x.strLen(s)
		l := x.sliceBound(lo, 0, "slice low")
		h := x.sliceBound(hi, n, "slice high")
		if l < 0 || h < l || h > n {
			x.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", l, h, n))
		}
		return x.strSlice(s, l, h)
	}
	var el []value
	switch p := v.(type) {
	case []value:
		el = p
	case *value:
		if p == nil {
			x.rtPanic("invalid memory address or nil pointer dereference")
		}
		a, ok := (*p).(array)
		if !ok {
			panic(unsupported{fmt.Sprintf("slice of pointer to %T", *p)})
		}
		el = []value(a)
	case array:
		el = p
	default:
		panic(unsupported{fmt.Sprintf("slice of %T", v)})
	}
	l := x.sliceBound(lo, 0, "slice low")
	h := x.sliceBound(hi, len(el), "slice high")
	c := x.sliceBound(mx, cap(el), "slice max")
	if l < 0 || h < l || c < h || c > cap(el) {
		x.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", l, h, c, cap(el)))
	}
	if el == nil {
		return []value(nil)
	}
	return el[l:h:c]
}

func (x *X) sliceToArrayPtr(in *ssa.SliceToArrayPointer, v value) value {
	s := v.([]value)
	n := int(under(under(in.Type()).(*types.Pointer).Elem()).(*types.Array).Len())
	if len(s) < n {
		x.rtPanic(fmt.Sprintf("cannot convert slice with length %d to array or pointer to array with length %d", len(s), n))
	}
	if s == nil {
		return (*value)(nil)
	}
	p := new(value)
	*p = array(s[:n:n])
	return p
}

func (x *X) implements(t types.Type, it *types.Interface) bool {
	k := implKey{t, it}
	if v, ok := x.impl[k]; ok {
		return v
	}
	v := types.Implements(t, it)
	x.impl[k] = v
	return v
}

type implKey struct {
	t  types.Type
	it *types.Interface
}

func (x *X) typeAssert(in *ssa.TypeAssert, v value) value {
	i, ok := v.(iface)
	if !ok {
		panic(unsupported{fmt.Sprintf("type assert on %T", v)})
	}
	good := false
	var r value
	if it, isI := under(in.AssertedType).(*types.Interface); isI {
		if i.t != nil {
			if _, nat := i.v.(nativeObj); nat {
				good = types.AssertableTo(it, i.t) && (x.implements(i.t, it) || it.NumMethods() == 0)
			} else {
				good = x.implements(i.t, it)
			}
		}
		r = i
	} else {
		good = i.t != nil && identical(i.t, in.AssertedType)
		r = i.v
	}
	if good {
		if in.CommaOk {
			return tuple{copyVal(r), x.T.True}
		}
		return copyVal(r)
	}
	if in.CommaOk {
		return tuple{x.zero(in.AssertedType), x.T.False}
	}
	x.rtPanic(fmt.Sprintf("interface conversion: interface is %v, not %s", i.t, in.AssertedType))
	return nil
}

func (x *X) next(in *ssa.Next, itv value) value {
	T := x.T
	switch it := itv.(type) {
	case *strIter:
		n := x.strLen(it.s)
		if it.i >= n {
			return tuple{T.False, T.Int(0), T.Const(0, 32)}
		}
		k := it.i
		b := x.rawByte(it.s, k)
		if b.isConst() && b.k < 0x80 {
			it.i++
			return tuple{T.True, T.Int(k), T.ZExt(b, 32)}
		}
		if !b.isConst() {
			if x.branch(T.Cmp(OUlt, b, T.Const(0x80, 8))) {
				it.i++
				return tuple{T.True, T.Int(k), T.ZExt(b, 32)}
			}
		}
		// decode with the real utf8 decoder
		fn := x.P.fn("unicode/utf8", "DecodeRuneInString")
		rest := x.strSlice(it.s, k, n)
		if !rest.sym {
			r, sz := utf8.DecodeRuneInString(rest.c)
			it.i += sz
			return tuple{T.True, T.Int(k), T.Const(uint64(r), 32)}
		}
		res := x.callFn(x.cur, fn, []value{rest}, nil).(tuple)
		it.i += x.concInt(res[1], "rune size")
		return tuple{T.True, T.Int(k), res[0]}
	case *mapIter:
		mt, _ := under(in.Iter.(*ssa.Range).X.Type()).(*types.Map)
		for {
			var live []*mapEntry
			for _, e := range it.rem {
				if !e.dead {
					live = append(live, e)
				}
			}
			it.rem = live
			if len(live) == 0 {
				return tuple{T.False, x.zero(mt.Key()), x.zero(mt.Elem())}
			}
			x.checkGuard(it.m, false)
			i := 0
			if it.mode == 1 && len(live) > 1 {
				i = x.choose(len(live), "map iteration order")
			}
			e := live[i]
			nr := make([]*mapEntry, 0, len(live)-1)
			nr = append(append(nr, live[:i]...), live[i+1:]...)
			it.rem = nr
			return tuple{T.True, copyVal(e.key), copyVal(e.val)}
		}
	}
	panic(unsupported{fmt.Sprintf("next on %T", itv)})
}

func (x *X) convert(dst, src types.Type, v value) value {
	T := x.T
	ud, us := under(dst), under(src)
	if tp, ok := ud.(*types.TypeParam); ok {
		ud = tp
	}
	if dw, _, ok := widthOf(ud); ok && dw != 0 {
		switch v := v.(type) {
		case *Term:
			_, signed, _ := widthOf(us)
			if dw <= v.w {
				return T.Trunc(v, dw)
			}
			if signed {
				return T.SExt(v, dw)
			}
			return T.ZExt(v, dw)
		case *symFlt:
			return T.Trunc(v.t, dw)
		case float64:
			_, signed, _ := widthOf(ud)
			if signed || v < 0 {
				return T.Const(uint64(int64(v)), dw)
			}
			return T.Const(uint64(v), dw)
		}
		if b, ok := us.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
			panic(unsupported{"unsafe.Pointer to uintptr"})
		}
	}
	switch d := ud.(type) {
	case *types.Basic:
		switch d.Kind() {
		case types.String:
			switch v := v.(type) {
			case *Str:
				return v
			case *Term: // rune
				if !v.isConst() {
					// ASCII fast path, otherwise the real encoder
					if x.branch(T.Cmp(OUlt, v, T.Const(0x80, v.w))) {
						return x.symStr([]*Term{T.Trunc(v, 8)})
					}
					return x.encodeRunes([]*Term{x.rune32(v, us)})
				}
				return mkStr(string(rune(sext(v.k, v.w))))
			case []value:
				el := under(us.(*types.Slice).Elem())
				if w, _, ok := widthOf(el); ok && w == 8 {
					return x.symStr(x.bytesOf(v))
				}
				rs := make([]*Term, len(v))
				for i, e := range v {
					rs[i] = e.(*Term)
				}
				return x.encodeRunes(rs)
			}
		case types.Float32, types.Float64:
			switch v := v.(type) {
			case float64:
				if d.Kind() == types.Float32 {
					return float64(float32(v))
				}
				return v
			case *symFlt:
				return v
			case *Term:
				if !v.isConst() {
					_, signed, _ := widthOf(us)
					return x.symFloat(v, signed)
				}
				_, signed, _ := widthOf(us)
				if signed {
					return float64(sext(v.k, v.w))
				}
				return float64(v.k)
			}
		case types.UnsafePointer:
			return v
		}
	case *types.Slice:
		if s, ok := v.(*Str); ok {
			w, _, _ := widthOf(d.Elem())
			if w == 8 {
				return x.mkBytes(x.strBytes(s))
			}
			// []rune
			it := &strIter{s: x.fix(s)}
			var out []value
			for it.i < x.strLen(it.s) {
				r := x.next(nil, it).(tuple)
				out = append(out, r[2])
			}
			if out == nil {
				out = []value{}
			}
			return out
		}
		if sl, ok := v.([]value); ok {
			return sl
		}
	case *types.Pointer:
		if b, ok := us.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
			return x.unsafeCast(d, v)
		}
		return v
	}
	panic(unsupported{fmt.Sprintf("conversion %s -> %s of %T", src, dst, v)})
}

// unsafeCast supports identity casts only.
func (x *X) unsafeCast(d *types.Pointer, v value) value {
	p, ok := v.(*value)
	if !ok {
		panic(unsupported{"unsafe cast"})
	}
	if p == nil {
		return p
	}
	// allow casts between representations with the same shape
	switch (*p).(type) {
	case structure:
		if st, ok := under(d.Elem()).(*types.Struct); ok && st.NumFields() == len((*p).(structure)) {
			return p
		}
	case *Str:
		if b, ok := under(d.Elem()).(*types.Basic); ok && b.Kind() == types.String {
			return p
		}
	case []value:
		if _, ok := under(d.Elem()).(*types.Slice); ok {
			return p
		}
		if b, ok := under(d.Elem()).(*types.Basic); ok && b.Kind() == types.String {
			// *(*string)(unsafe.Pointer(&bytes))
			np := new(value)
			*np = x.symStr(x.bytesOf(*p))
			return np
		}
	case *Term:
		if w, _, ok := widthOf(d.Elem()); ok && w == (*p).(*Term).w {
			return p
		}
	case *value:
		if _, ok := under(d.Elem()).(*types.Pointer); ok {
			return p
		}
		if b, ok := under(d.Elem()).(*types.Basic); ok && b.Kind() == types.UnsafePointer {
			return p
		}
	}
	panic(unsupported{"unsafe pointer cast to " + d.String()})
}

func (x *X) rune32(v *Term, us types.Type) *Term {
	if v.w == 32 {
		return v
	}
	if v.w > 32 {
		return x.T.Trunc(v, 32)
	}
	_, signed, _ := widthOf(us)
	if signed {
		return x.T.SExt(v, 32)
	}
	return x.T.ZExt(v, 32)
}

func (x *X) encodeRunes(rs []*Term) *Str {
	fn := x.P.fn("unicode/utf8", "AppendRune")
	var buf value = []value{}
	for _, r := range rs {
		buf = x.callFn(x.cur, fn, []value{buf, r}, nil)
	}
	return x.symStr(x.bytesOf(buf))
}

// builtin implements Go builtins.
func (x *X) builtin(fr *frame, b *ssa.Builtin, args []value, call *ssa.Call) value {
	T := x.T
	switch b.Name() {
	case "len":
		switch v := args[0].(type) {
		case *Str:
			return x.strLenTerm(v)
		case []value:
			return T.Int(len(v))
		case *mapv:
			if v == nil {
				return T.Int(0)
			}
			x.checkGuard(v, false)
			return T.Int(v.live)
		case array:
			return T.Int(len(v))
		case *value:
			return T.Int(len((*v).(array)))
		case *chanv:
			if v == nil {
				return T.Int(0)
			}
			return T.Int(len(v.buf))
		}
	case "cap":
		switch v := args[0].(type) {
		case []value:
			return T.Int(cap(v))
		case array:
			return T.Int(len(v))
		case *value:
			return T.Int(len((*v).(array)))
		case *chanv:
			if v == nil {
				return T.Int(0)
			}
			return T.Int(v.cap)
		}
	case "append":
		s, ok := args[0].([]value)
		if !ok {
			panic(unsupported{fmt.Sprintf("append to %T", args[0])})
		}
		var add []value
		if len(args) > 1 {
			switch a := args[1].(type) {
			case []value:
				add = a
			case *Str:
				add = x.mkBytes(x.strBytes(a))
			default:
				panic(unsupported{fmt.Sprintf("append of %T", args[1])})
			}
		}
		if len(add) == 0 {
			return s
		}
		n := len(s)
		if n+len(add) <= cap(s) {
			r := s[:n+len(add)]
			for i, a := range add {
				x.checkGuardStore(fr, &r[n+i])
				if _, isS := a.(structure); isS {
					a = copyVal(a)
				}
				if x.initDepth == 0 {
					x.journal = append(x.journal, undo{addr: &r[n+i], old: r[n+i]})
				}
				r[n+i] = a
			}
			return r
		}
		nc := cap(s) * 2
		if nc < n+len(add) {
			nc = n + len(add)
		}
		if nc < 4 && n+len(add) > 1 {
			nc = 4
		}
		r := make([]value, n+len(add), nc)
		for i := range s {
			x.checkGuardLoad(&s[i])
			r[i] = copyVal(s[i])
		}
		for i, a := range add {
			r[n+i] = copyVal(a)
		}
		// zero the spare capacity lazily: give it the zero of the element kind
		if len(r) < cap(r) {
			full := r[:cap(r)]
			z := zeroLike(x, r[0])
			for i := len(r); i < cap(r); i++ {
				full[i] = copyVal(z)
			}
		}
		return r
	case "copy":
		d := args[0].([]value)
		var s []value
		switch a := args[1].(type) {
		case []value:
			s = a
		case *Str:
			s = x.mkBytes(x.strBytes(a))
		}
		n := len(d)
		if len(s) < n {
			n = len(s)
		}
		tmp := make([]value, n)
		for i := 0; i < n; i++ {
			x.checkGuardLoad(&s[i])
			tmp[i] = copyVal(s[i])
		}
		for i := 0; i < n; i++ {
			x.checkGuardStore(fr, &d[i])
			x.store(&d[i], tmp[i])
		}
		return T.Int(n)
	case "delete":
		x.mapDelete(args[0].(*mapv), args[1])
		return nil
	case "clear":
		switch v := args[0].(type) {
		case *mapv:
			if v != nil {
				x.checkGuard(v, true)
				for _, e := range append([]*mapEntry{}, v.ents...) {
					if !e.dead {
						x.kill(v, e)
					}
				}
			}
			return nil
		case []value:
			for i := range v {
				x.store(&v[i], zeroLike(x, v[i]))
			}
			return nil
		}
	case "close":
		ch := args[0].(*chanv)
		if ch == nil || ch.closed {
			panic(targetPanic{iface{t: x.runtimeErrT, v: mkStr("close of closed channel")}})
		}
		x.yield(nil)
		x.hbBoth(ch)
		ch.closed = true
		x.onUndo(func() { ch.closed = false })
		return nil
	case "panic":
		panic(targetPanic{args[0]})
	case "recover":
		return x.doRecover(fr)
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			switch rv := r.(type) {
			case *Term:
				_, signed, _ := widthOf(call.Call.Args[0].Type())
				lt := OUlt
				if signed {
					lt = OSlt
				}
				c := T.Cmp(lt, a.(*Term), rv)
				if b.Name() == "max" {
					c = T.Cmp(lt, rv, a.(*Term))
				}
				r = T.Ite(c, a.(*Term), rv)
			case float64:
				if b.Name() == "min" {
					r = math.Min(rv, a.(float64))
				} else {
					r = math.Max(rv, a.(float64))
				}
			default:
				panic(unsupported{"min/max"})
			}
		}
		return r
	case "ssa:wrapnilchk":
		if isNilVal(args[0]) {
			x.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "String": // unsafe.String
		n := x.concInt(args[1], "unsafe.String length")
		return x.unsafeString(args[0], n)
	case "StringData":
		s := args[0].(*Str)
		b := x.mkBytes(x.strBytes(s))
		if len(b) == 0 {
			return (*value)(nil)
		}
		p := &b[0]
		x.backing[p] = b
		return p
	case "SliceData":
		s := args[0].([]value)
		if cap(s) == 0 {
			return (*value)(nil)
		}
		s1 := s[:cap(s)]
		p := &s1[0]
		x.backing[p] = s1
		return p
	case "Slice":
		n := x.concInt(args[1], "unsafe.Slice length")
		if n == 0 {
			return []value{}
		}
		p := x.ptr(args[0])
		if b, ok := x.backing[p]; ok && len(b) >= n {
			return b[:n:n]
		}
	}
	panic(unsupported{fmt.Sprintf("builtin %s(%T)", b.Name(), args[0])})
}

func (x *X) unsafeString(pv value, n int) value {
	if n == 0 {
		return emptyStr
	}
	p := x.ptr(pv)
	if b, ok := x.backing[p]; ok && len(b) >= n {
		return x.symStr(x.bytesOf([]value(b[:n])))
	}
	panic(unsupported{"unsafe.String of unknown backing"})
}

func zeroLike(x *X, v value) value {
	switch v := v.(type) {
	case *Term:
		return x.T.Const(0, v.w)
	case *Str:
		return emptyStr
	case float64:
		return float64(0)
	case *value:
		return (*value)(nil)
	case *symPtr:
		return (*value)(nil)
	case []value:
		return []value(nil)
	case *mapv:
		return (*mapv)(nil)
	case *chanv:
		return (*chanv)(nil)
	case iface:
		return iface{}
	case structure:
		n := make(structure, len(v))
		for i := range v {
			n[i] = zeroLike(x, v[i])
		}
		return n
	case array:
		n := make(array, len(v))
		for i := range v {
			n[i] = zeroLike(x, v[i])
		}
		return n
	case *ssa.Function, *closure, *nativeFn:
		return (*ssa.Function)(nil)
	}
	return nil
}

// fn looks up a package-level function by import path.
func (p *Prog) fn(path, name string) *ssa.Function {
	pk := p.ext[path]
	if pk == nil {
		panic(unsupported{"package " + path + " not loaded"})
	}
	f := pk.Func(name)
	if f == nil {
		panic(unsupported{"function " + path + "." + name + " not found"})
	}
	return f
}
