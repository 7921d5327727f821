package main

// Bit-vector/boolean term DAG with hash-consing, local simplification,
// concrete evaluation under a model, and SMT-LIB2 printing.

import (
	"fmt"
	"math/bits"
	"strconv"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OAnd
	OOr
	OXor
	OShl
	OLShr
	OAShr
	ONot
	ONeg
	OZExt
	OSExt
	OExtract // k = lo
	OConcat
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OBAnd
	OBOr
	OBNot
	OIte
	OTab  // table lookup: tab[a]
	OJSON // opaque one-"byte" JSON document
)

var opSMT = map[Op]string{OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem",
	OAnd: "bvand", OOr: "bvor", OXor: "bvxor", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", ONot: "bvnot", ONeg: "bvneg",
	OConcat: "concat", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OBAnd: "and", OBOr: "or", OBNot: "not", OIte: "ite"}

// Term is a node; w==0 means boolean.
type Term struct {
	op      Op
	w       uint8
	k       uint64
	a, b, c *Term
	tab     *table
	name    string
	id      int
	sent    bool
	epoch   int
	ev      uint64
	hasVar  bool
	json    *jdoc
	fv      *Term // the only variable, when fvk is fvOne
	fvk     uint8
}

type table struct {
	id    int
	w     uint8
	vals  []uint64
	key   string
	sentW [65]bool
}

type tkey struct {
	op      Op
	w       uint8
	k       uint64
	a, b, c *Term
	tab     *table
	name    string
}

// Terms is a per-worker term factory.
type Terms struct {
	m      map[tkey]*Term
	n      int
	tabs   map[string]*table
	True   *Term
	False  *Term
	small8 [256]*Term
	small  [1024]*Term
	epoch  int
	model  map[string]uint64
	tt     map[*Term]*bset
}

func NewTerms() *Terms {
	t := &Terms{m: map[tkey]*Term{}, tabs: map[string]*table{}, tt: map[*Term]*bset{}}
	t.False = t.mk(tkey{op: OConst, w: 0, k: 0})
	t.True = t.mk(tkey{op: OConst, w: 0, k: 1})
	for i := range t.small8 {
		t.small8[i] = t.mk(tkey{op: OConst, w: 8, k: uint64(i)})
	}
	for i := range t.small {
		t.small[i] = t.mk(tkey{op: OConst, w: 64, k: uint64(i)})
	}
	return t
}

func (t *Terms) mk(k tkey) *Term {
	if x, ok := t.m[k]; ok {
		return x
	}
	t.n++
	x := &Term{op: k.op, w: k.w, k: k.k, a: k.a, b: k.b, c: k.c, tab: k.tab, name: k.name, id: t.n}
	x.hasVar = k.op == OVar || (k.a != nil && k.a.hasVar) || (k.b != nil && k.b.hasVar) || (k.c != nil && k.c.hasVar)
	t.m[k] = x
	return x
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	if w == 0 {
		return 1
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

func (t *Terms) Const(v uint64, w uint8) *Term {
	v &= mask(w)
	if w == 8 {
		return t.small8[v]
	}
	if w == 64 && v < 1024 {
		return t.small[v]
	}
	if w == 0 {
		if v != 0 {
			return t.True
		}
		return t.False
	}
	return t.mk(tkey{op: OConst, w: w, k: v})
}
func (t *Terms) Int(v int) *Term { return t.Const(uint64(v), 64) }
func (t *Terms) Bool(b bool) *Term {
	if b {
		return t.True
	}
	return t.False
}
func (t *Terms) Var(name string, w uint8) *Term { return t.mk(tkey{op: OVar, w: w, name: name}) }
func (t *Terms) JSON(d *jdoc) *Term {
	t.n++
	return &Term{op: OJSON, w: 8, json: d, id: t.n, hasVar: true}
}

func (x *Term) isConst() bool { return x.op == OConst }
func (x *Term) isTrue() bool  { return x.op == OConst && x.w == 0 && x.k == 1 }
func (x *Term) isFalse() bool { return x.op == OConst && x.w == 0 && x.k == 0 }

func foldBin(op Op, w uint8, a, b uint64) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (a + b) & m
	case OSub:
		return (a - b) & m
	case OMul:
		return (a * b) & m
	case OUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case OURem:
		if b == 0 {
			return a
		}
		return a % b
	case OSDiv:
		sa, sb := sext(a, w), sext(b, w)
		if sb == 0 {
			if sa >= 0 {
				return m
			}
			return 1
		}
		if sb == -1 {
			return uint64(-sa) & m
		}
		return uint64(sa/sb) & m
	case OSRem:
		sa, sb := sext(a, w), sext(b, w)
		if sb == 0 {
			return a
		}
		if sb == -1 {
			return 0
		}
		return uint64(sa%sb) & m
	case OAnd:
		return a & b
	case OOr:
		return a | b
	case OXor:
		return a ^ b
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case OLShr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAShr:
		sa := sext(a, w)
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sa>>b) & m
	}
	panic("foldBin")
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func foldCmp(op Op, w uint8, a, b uint64) bool {
	switch op {
	case OEq:
		return a == b
	case OUlt:
		return a < b
	case OUle:
		return a <= b
	case OSlt:
		return sext(a, w) < sext(b, w)
	case OSle:
		return sext(a, w) <= sext(b, w)
	}
	panic("foldCmp")
}

// maxVal gives a cheap unsigned upper bound.
func (x *Term) maxVal() uint64 {
	switch x.op {
	case OConst:
		return x.k
	case OZExt:
		return x.a.maxVal()
	case OAnd:
		l, r := x.a.maxVal(), x.b.maxVal()
		if l < r {
			return l
		}
		return r
	case OOr, OXor:
		l, r := x.a.maxVal(), x.b.maxVal()
		n := bits.Len64(l | r)
		if n >= 64 {
			return mask(x.w)
		}
		return ((uint64(1) << n) - 1) & mask(x.w)
	case OLShr:
		if x.b.isConst() {
			if x.b.k >= uint64(x.w) {
				return 0
			}
			return x.a.maxVal() >> x.b.k
		}
	case OTab:
		m := uint64(0)
		for _, v := range x.tab.vals {
			if v > m {
				m = v
			}
		}
		return m
	case OIte:
		l, r := x.b.maxVal(), x.c.maxVal()
		if l > r {
			return l
		}
		return r
	case OShl:
		if x.b.isConst() && x.b.k < 64 {
			m := x.a.maxVal()
			if bits.Len64(m)+int(x.b.k) <= int(x.w) {
				return m << x.b.k
			}
		}
	case OAdd:
		l, r := x.a.maxVal(), x.b.maxVal()
		if bits.Len64(l) < int(x.w) && bits.Len64(r) < int(x.w) && l+r <= mask(x.w) {
			return l + r
		}
	case OMul:
		hi, lo := bits.Mul64(x.a.maxVal(), x.b.maxVal())
		if hi == 0 && lo <= mask(x.w) {
			return lo
		}
	case OURem:
		if x.b.isConst() && x.b.k > 0 {
			return x.b.k - 1
		}
	case OSRem:
		if x.b.isConst() && sext(x.b.k, x.w) > 0 && x.a.maxVal() < uint64(1)<<(x.w-1) {
			return x.b.k - 1
		}
	case OUDiv:
		if x.b.isConst() && x.b.k > 0 {
			return x.a.maxVal() / x.b.k
		}
	case OSDiv:
		if m := x.a.maxVal(); x.b.isConst() && sext(x.b.k, x.w) > 0 && m < uint64(1)<<(x.w-1) {
			return m / x.b.k
		}
	}
	return mask(x.w)
}

// divSplit writes x as c*q + r with 0 <= r < c for non-negative,
// overflow-free sums of products with constants.
func (t *Terms) divSplit(x *Term, c uint64) (q, r *Term, ok bool) {
	m := x.maxVal()
	if m >= uint64(1)<<(x.w-1) {
		return nil, nil, false
	}
	if m < c {
		return t.Const(0, x.w), x, true
	}
	switch x.op {
	case OConst:
		return t.Const(x.k/c, x.w), t.Const(x.k%c, x.w), true
	case OMul:
		if x.b.isConst() && x.b.k%c == 0 {
			return t.Bin(OMul, x.a, t.Const(x.b.k/c, x.w)), t.Const(0, x.w), true
		}
	case OAdd:
		qa, ra, ok1 := t.divSplit(x.a, c)
		if !ok1 {
			return nil, nil, false
		}
		qb, rb, ok2 := t.divSplit(x.b, c)
		if !ok2 || ra.maxVal() >= c || rb.maxVal() >= c-ra.maxVal() {
			return nil, nil, false
		}
		return t.Bin(OAdd, qa, qb), t.Bin(OAdd, ra, rb), true
	}
	return nil, nil, false
}

func (t *Terms) Bin(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("width mismatch %d %d op %s", a.w, b.w, opSMT[op]))
	}
	w := a.w
	if a.isConst() && b.isConst() {
		return t.Const(foldBin(op, w, a.k, b.k), w)
	}
	switch op {
	case OAdd, OMul, OAnd, OOr, OXor:
		if a.isConst() || (!b.isConst() && a.id > b.id) {
			a, b = b, a
		}
	}
	m := mask(w)
	if b.isConst() {
		switch {
		case b.k == 0:
			switch op {
			case OAdd, OSub, OOr, OXor, OShl, OLShr, OAShr:
				return a
			case OAnd, OMul:
				return b
			}
		case b.k == m && op == OAnd:
			return a
		case b.k == m && op == OOr:
			return b
		case b.k == 1 && (op == OMul || op == OUDiv || op == OSDiv):
			return a
		}
		if op == OAnd {
			// mask no-op
			mv := a.maxVal()
			n := bits.Len64(mv)
			lowmask := uint64(0)
			if n >= 64 {
				lowmask = ^uint64(0)
			} else {
				lowmask = uint64(1)<<n - 1
			}
			if b.k&lowmask == lowmask {
				return a
			}
			if a.op == OTab {
				nv := make([]uint64, len(a.tab.vals))
				for i, v := range a.tab.vals {
					nv[i] = v & b.k
				}
				return t.Tab(nv, w, a.a)
			}
			if a.op == OAnd && a.b.isConst() {
				return t.Bin(OAnd, a.a, t.Const(a.b.k&b.k, w))
			}
			if a.op == OZExt && bits.Len64(b.k) <= int(a.a.w) {
				return t.ZExt(t.Bin(OAnd, a.a, t.Const(b.k, a.a.w)), w)
			}
		}
		if (op == OLShr || op == OShl) && b.k >= uint64(w) {
			return t.Const(0, w)
		}
		if op == OLShr {
			mv := a.maxVal()
			if b.k < 64 && mv>>b.k == 0 {
				return t.Const(0, w)
			}
		}
		if op == OAdd && a.op == OAdd && a.b.isConst() {
			return t.Bin(OAdd, a.a, t.Const(a.b.k+b.k, w))
		}
		if op == OSub {
			return t.Bin(OAdd, a, t.Const(-b.k, w))
		}
		if op == OXor && a.op == OXor && a.b.isConst() {
			return t.Bin(OXor, a.a, t.Const(a.b.k^b.k, w))
		}
		if (op == OSDiv || op == OUDiv || op == OSRem || op == OURem) && w > 1 && sext(b.k, w) > 1 {
			if q, r, ok := t.divSplit(a, b.k); ok {
				if op == OSDiv || op == OUDiv {
					return q
				}
				return r
			}
		}
		if (op == OURem) && a.maxVal() < b.k {
			return a
		}
		if (op == OSRem) && sext(b.k, w) > 0 && a.maxVal() < b.k {
			return a
		}
		if (op == OUDiv) && b.k != 0 && a.maxVal() < b.k {
			return t.Const(0, w)
		}
		if (op == OSDiv) && sext(b.k, w) > 0 && a.maxVal() < b.k {
			return t.Const(0, w)
		}
	}
	if a == b {
		switch op {
		case OSub, OXor:
			return t.Const(0, w)
		case OAnd, OOr:
			return a
		}
	}
	return t.mk(tkey{op: op, w: w, a: a, b: b})
}

func (t *Terms) Eq(a, b *Term) *Term {
	if a == b {
		return t.True
	}
	if a.w == 0 {
		if a.isConst() {
			a, b = b, a
		}
		if b.isTrue() {
			return a
		}
		if b.isFalse() {
			return t.Not(a)
		}
		if a.isConst() && b.isConst() {
			return t.Bool(a.k == b.k)
		}
		if a.id > b.id {
			a, b = b, a
		}
		return t.mk(tkey{op: OEq, a: a, b: b})
	}
	if a.w != b.w {
		panic("eq width")
	}
	if a.isConst() && b.isConst() {
		return t.Bool(a.k == b.k)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.k > a.maxVal() {
			return t.False
		}
		switch a.op {
		case OZExt:
			return t.Eq(a.a, t.Const(b.k, a.a.w))
		case OIte:
			if a.b.isConst() && a.c.isConst() {
				l, r := a.b.k == b.k, a.c.k == b.k
				switch {
				case l && r:
					return t.True
				case l:
					return a.a
				case r:
					return t.Not(a.a)
				default:
					return t.False
				}
			}
		case OXor:
			if a.b.isConst() {
				return t.Eq(a.a, t.Const(a.b.k^b.k, a.w))
			}
		case OAdd:
			if a.b.isConst() {
				return t.Eq(a.a, t.Const(b.k-a.b.k, a.w))
			}
		}
	} else {
		if a.op == OZExt && b.op == OZExt && a.a.w == b.a.w {
			return t.Eq(a.a, b.a)
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return t.mk(tkey{op: OEq, a: a, b: b})
}

func (t *Terms) Cmp(op Op, a, b *Term) *Term {
	if op == OEq {
		return t.Eq(a, b)
	}
	if a.w != b.w {
		panic("cmp width")
	}
	if a.isConst() && b.isConst() {
		return t.Bool(foldCmp(op, a.w, a.k, b.k))
	}
	if a == b {
		return t.Bool(op == OUle || op == OSle)
	}
	// bounds
	half := uint64(1) << (a.w - 1)
	am, bm := a.maxVal(), b.maxVal()
	if (op == OSlt || op == OSle) && am < half && bm < half {
		if op == OSlt {
			op = OUlt
		} else {
			op = OUle
		}
	} else if op == OSlt || op == OSle {
		if b.isConst() && b.k == 0 && am < half { // a < 0
			if op == OSlt {
				return t.False
			}
		}
		if b.isConst() && sext(b.k, b.w) < 0 && am < half {
			return t.False
		}
		if a.isConst() && sext(a.k, a.w) < 0 && bm < half {
			return t.True
		}
	}
	if op == OUlt {
		if b.isConst() && b.k > am {
			return t.True
		}
		if b.isConst() && b.k == 0 {
			return t.False
		}
		if a.isConst() && a.k >= bm {
			return t.False
		}
	}
	if op == OUle {
		if b.isConst() && b.k >= am {
			return t.True
		}
		if a.isConst() && a.k == 0 {
			return t.True
		}
		if a.isConst() && a.k > bm {
			return t.False
		}
	}
	if op == OUlt || op == OUle {
		if a.op == OZExt && b.isConst() && b.k <= mask(a.a.w) {
			return t.Cmp(op, a.a, t.Const(b.k, a.a.w))
		}
		if b.op == OZExt && a.isConst() && a.k <= mask(b.a.w) {
			return t.Cmp(op, t.Const(a.k, b.a.w), b.a)
		}
		if a.op == OZExt && b.op == OZExt && a.a.w == b.a.w {
			return t.Cmp(op, a.a, b.a)
		}
	}
	return t.mk(tkey{op: op, a: a, b: b})
}

func (t *Terms) Not(a *Term) *Term {
	if a.isConst() {
		return t.Bool(a.k == 0)
	}
	if a.op == OBNot {
		return a.a
	}
	return t.mk(tkey{op: OBNot, a: a})
}
func (t *Terms) And(a, b *Term) *Term {
	if a.isFalse() || b.isFalse() {
		return t.False
	}
	if a.isTrue() || a == b {
		return b
	}
	if b.isTrue() {
		return a
	}
	if t.Not(a) == b {
		return t.False
	}
	return t.mk(tkey{op: OBAnd, a: a, b: b})
}
func (t *Terms) Or(a, b *Term) *Term {
	if a.isTrue() || b.isTrue() {
		return t.True
	}
	if a.isFalse() || a == b {
		return b
	}
	if b.isFalse() {
		return a
	}
	if t.Not(a) == b {
		return t.True
	}
	return t.mk(tkey{op: OBOr, a: a, b: b})
}
func (t *Terms) Ite(c, a, b *Term) *Term {
	if c.isTrue() || a == b {
		return a
	}
	if c.isFalse() {
		return b
	}
	if a.w == 0 {
		if a.isTrue() {
			return t.Or(c, b)
		}
		if a.isFalse() {
			return t.And(t.Not(c), b)
		}
		if b.isTrue() {
			return t.Or(t.Not(c), a)
		}
		if b.isFalse() {
			return t.And(c, a)
		}
	}
	return t.mk(tkey{op: OIte, w: a.w, a: c, b: a, c: b})
}
func (t *Terms) BVNot(a *Term) *Term {
	if a.isConst() {
		return t.Const(^a.k, a.w)
	}
	if a.op == ONot {
		return a.a
	}
	return t.mk(tkey{op: ONot, w: a.w, a: a})
}
func (t *Terms) Neg(a *Term) *Term {
	if a.isConst() {
		return t.Const(-a.k, a.w)
	}
	return t.mk(tkey{op: ONeg, w: a.w, a: a})
}
func (t *Terms) ZExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return t.Const(a.k, w)
	}
	if a.op == OZExt {
		return t.ZExt(a.a, w)
	}
	return t.mk(tkey{op: OZExt, w: w, a: a})
}
func (t *Terms) SExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return t.Const(uint64(sext(a.k, a.w)), w)
	}
	if a.maxVal() < uint64(1)<<(a.w-1) {
		return t.ZExt(a, w)
	}
	return t.mk(tkey{op: OSExt, w: w, a: a})
}

// Trunc keeps the low w bits.
func (t *Terms) Trunc(a *Term, w uint8) *Term { return t.Extract(a, 0, w) }
func (t *Terms) Extract(a *Term, lo, w uint8) *Term {
	if lo == 0 && a.w == w {
		return a
	}
	if a.isConst() {
		return t.Const(a.k>>lo, w)
	}
	switch a.op {
	case OZExt:
		if lo == 0 {
			if a.a.w <= w {
				return t.ZExt(a.a, w)
			}
			return t.Extract(a.a, 0, w)
		}
		if lo >= a.a.w {
			return t.Const(0, w)
		}
		if lo+w <= a.a.w {
			return t.Extract(a.a, lo, w)
		}
	case OSExt:
		if lo == 0 && a.a.w == w {
			return a.a
		}
		if lo == 0 && a.a.w > w {
			return t.Extract(a.a, 0, w)
		}
		if lo == 0 {
			return t.SExt(a.a, w)
		}
	case OExtract:
		return t.Extract(a.a, uint8(a.k)+lo, w)
	case OAnd, OOr, OXor:
		return t.Bin(a.op, t.Extract(a.a, lo, w), t.Extract(a.b, lo, w))
	case OAdd, OSub, OMul:
		if lo == 0 {
			return t.Bin(a.op, t.Extract(a.a, 0, w), t.Extract(a.b, 0, w))
		}
	case OShl:
		if a.b.isConst() {
			s := uint8(a.b.k)
			if s >= lo+w {
				return t.Const(0, w)
			}
			if s <= lo {
				return t.Extract(a.a, lo-s, w)
			}
			if lo == 0 && a.b.k < uint64(w) {
				return t.Bin(OShl, t.Extract(a.a, 0, w), t.Const(a.b.k, w))
			}
		}
	case OLShr:
		if a.b.isConst() && uint64(lo)+a.b.k+uint64(w) <= uint64(a.w) {
			return t.Extract(a.a, lo+uint8(a.b.k), w)
		}
	case OIte:
		if a.b.isConst() || a.c.isConst() {
			return t.Ite(a.a, t.Extract(a.b, lo, w), t.Extract(a.c, lo, w))
		}
	case OTab:
		nv := make([]uint64, len(a.tab.vals))
		for i, v := range a.tab.vals {
			nv[i] = (v >> lo) & mask(w)
		}
		return t.Tab(nv, w, a.a)
	}
	return t.mk(tkey{op: OExtract, w: w, k: uint64(lo), a: a})
}

// Tab builds vals[idx]; the caller guarantees idx < len(vals).
func (t *Terms) Tab(vals []uint64, w uint8, idx *Term) *Term {
	if idx.isConst() {
		return t.Const(vals[idx.k], w)
	}
	all := true
	for _, v := range vals {
		if v != vals[0] {
			all = false
			break
		}
	}
	if all {
		return t.Const(vals[0], w)
	}
	// strip zero extension / compose with inner table
	for idx.op == OZExt {
		idx = idx.a
	}
	if uint64(len(vals)) > mask(idx.w)+1 && idx.w < 16 {
		vals = vals[:mask(idx.w)+1]
	}
	if idx.op == OTab {
		inner := idx.tab.vals
		nv := make([]uint64, len(inner))
		ok := true
		for i, v := range inner {
			if v >= uint64(len(vals)) {
				ok = false
				break
			}
			nv[i] = vals[v]
		}
		if ok {
			return t.Tab(nv, w, idx.a)
		}
	}
	// identity?
	ident := true
	mv := idx.maxVal()
	for i, v := range vals {
		if uint64(i) > mv {
			break
		}
		if v != uint64(i) {
			ident = false
			break
		}
	}
	if ident && mv < uint64(len(vals)) {
		if idx.w <= w {
			return t.ZExt(idx, w)
		}
		return t.Extract(idx, 0, w)
	}
	var sb strings.Builder
	sb.WriteString(strconv.Itoa(int(w)))
	for _, v := range vals {
		sb.WriteByte(',')
		sb.WriteString(strconv.FormatUint(v, 16))
	}
	key := sb.String()
	tb := t.tabs[key]
	if tb == nil {
		tb = &table{id: len(t.tabs), w: w, vals: vals, key: key}
		t.tabs[key] = tb
	}
	return t.mk(tkey{op: OTab, w: w, a: idx, tab: tb})
}

// Eval evaluates under model (missing variables are 0).
func (t *Terms) SetModel(m map[string]uint64) { t.model = m; t.epoch++ }
func (t *Terms) Eval(x *Term) uint64 {
	if x.op == OConst {
		return x.k
	}
	if x.epoch == t.epoch {
		return x.ev
	}
	var r uint64
	switch x.op {
	case OVar:
		r = t.model[x.name]
	case OEq, OUlt, OUle, OSlt, OSle:
		r = b2u(foldCmp(x.op, x.a.w, t.Eval(x.a), t.Eval(x.b)))
	case OBAnd:
		r = t.Eval(x.a)
		if r != 0 {
			r = t.Eval(x.b)
		}
	case OBOr:
		r = t.Eval(x.a)
		if r == 0 {
			r = t.Eval(x.b)
		}
	case OBNot:
		r = 1 - t.Eval(x.a)
	case OIte:
		if t.Eval(x.a) != 0 {
			r = t.Eval(x.b)
		} else {
			r = t.Eval(x.c)
		}
	case ONot:
		r = ^t.Eval(x.a) & mask(x.w)
	case ONeg:
		r = -t.Eval(x.a) & mask(x.w)
	case OZExt:
		r = t.Eval(x.a)
	case OSExt:
		r = uint64(sext(t.Eval(x.a), x.a.w)) & mask(x.w)
	case OExtract:
		r = (t.Eval(x.a) >> x.k) & mask(x.w)
	case OConcat:
		r = t.Eval(x.a)<<x.b.w | t.Eval(x.b)
	case OTab:
		i := t.Eval(x.a)
		if i < uint64(len(x.tab.vals)) {
			r = x.tab.vals[i]
		}
	case OJSON:
		panic(unsupported{"evaluating opaque JSON byte"})
	default:
		r = foldBin(x.op, x.w, t.Eval(x.a), t.Eval(x.b))
	}
	x.epoch = t.epoch
	x.ev = r
	return r
}

// --- SMT-LIB printing ---

func sortStr(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(int(w)) + ")"
}

func constStr(v uint64, w uint8) string {
	if w == 0 {
		if v != 0 {
			return "true"
		}
		return "false"
	}
	return "(_ bv" + strconv.FormatUint(v, 10) + " " + strconv.Itoa(int(w)) + ")"
}

func (x *Term) ref() string {
	switch x.op {
	case OConst:
		return constStr(x.k, x.w)
	case OVar:
		return "|" + x.name + "|"
	}
	return "t" + strconv.Itoa(x.id)
}

// emit writes declarations/definitions needed for x into sb.
func (x *Term) emit(sb *strings.Builder, vars *[]*Term) {
	if x.sent || x.op == OConst {
		return
	}
	x.sent = true
	if x.op == OJSON {
		panic(unsupported{"opaque JSON byte reached the solver"})
	}
	if x.op == OVar {
		fmt.Fprintf(sb, "(declare-const %s %s)\n", x.ref(), sortStr(x.w))
		*vars = append(*vars, x)
		return
	}
	for _, y := range []*Term{x.a, x.b, x.c} {
		if y != nil {
			y.emit(sb, vars)
		}
	}
	if x.op == OTab {
		key := fmt.Sprintf("tab%d_%d", x.tab.id, x.a.w)
		if !x.tab.sentW[x.a.w] {
			x.tab.sentW[x.a.w] = true
			fmt.Fprintf(sb, "(define-fun %s ((x %s)) %s %s)\n", key, sortStr(x.a.w), sortStr(x.w), x.tab.smt(x.a.w))
		}
		fmt.Fprintf(sb, "(define-fun %s () %s (%s %s))\n", x.ref(), sortStr(x.w), key, x.a.ref())
		return
	}
	fmt.Fprintf(sb, "(define-fun %s () %s ", x.ref(), sortStr(x.w))
	switch x.op {
	case OZExt:
		fmt.Fprintf(sb, "((_ zero_extend %d) %s)", x.w-x.a.w, x.a.ref())
	case OSExt:
		fmt.Fprintf(sb, "((_ sign_extend %d) %s)", x.w-x.a.w, x.a.ref())
	case OExtract:
		fmt.Fprintf(sb, "((_ extract %d %d) %s)", int(x.k)+int(x.w)-1, x.k, x.a.ref())
	default:
		sb.WriteString("(" + opSMT[x.op])
		for _, y := range []*Term{x.a, x.b, x.c} {
			if y != nil {
				sb.WriteString(" " + y.ref())
			}
		}
		sb.WriteString(")")
	}
	sb.WriteString(")\n")
}

// smt renders the table as a run-compressed ite chain over x.
func (tb *table) smt(iw uint8) string {
	type run struct {
		hi   int
		affn bool
		v    uint64 // const or delta
	}
	var runs []run
	n := len(tb.vals)
	if uint64(n) > mask(iw)+1 && iw < 64 {
		n = int(mask(iw) + 1)
	}
	m := mask(tb.w)
	for i := 0; i < n; {
		// constant run
		j := i + 1
		for j < n && tb.vals[j] == tb.vals[i] {
			j++
		}
		d := (tb.vals[i] - uint64(i)) & m
		k := i + 1
		for k < n && (tb.vals[k]-uint64(k))&m == d {
			k++
		}
		if k > j {
			runs = append(runs, run{k - 1, true, d})
			i = k
		} else {
			runs = append(runs, run{j - 1, false, tb.vals[i]})
			i = j
		}
	}
	conv := "x"
	if iw < tb.w {
		conv = fmt.Sprintf("((_ zero_extend %d) x)", tb.w-iw)
	} else if iw > tb.w {
		conv = fmt.Sprintf("((_ extract %d 0) x)", tb.w-1)
	}
	expr := func(r run) string {
		if !r.affn {
			return constStr(r.v, tb.w)
		}
		return fmt.Sprintf("(bvadd %s %s)", conv, constStr(r.v, tb.w))
	}
	out := expr(runs[len(runs)-1])
	for i := len(runs) - 2; i >= 0; i-- {
		out = fmt.Sprintf("(ite (bvule x %s) %s %s)", constStr(uint64(runs[i].hi), iw), expr(runs[i]), out)
	}
	return out
}
