package main

import (
	"sync"
	"unicode"
)

// Functions of package unicode on symbolic runes: one term instead of a
// binary search over the tables. The table is computed from the real function
// on every code point.

type uniRun struct{ lo, hi, d0, d1 uint32 }

type uniFn struct {
	once sync.Once
	f    func(r rune) uint32
	runs []uniRun
}

func (u *uniFn) build() {
	u.once.Do(func() {
		const max = unicode.MaxRune
		d := make([]uint32, max+2)
		for r := rune(0); r <= max; r++ {
			d[r] = u.f(r)
		}
		for s := 0; s <= max; {
			d0 := d[s]
			// longest constant run
			e := s
			for e+1 <= max && d[e+1] == d0 {
				e++
			}
			d1 := d0
			if e == s && s+1 <= max {
				// alternating run
				a1, a := d[s+1], s+1
				for a+1 <= max && d[a+1] == []uint32{d0, a1}[(a+1-s)&1] {
					a++
				}
				if a > s+2 {
					d1, e = a1, a
				}
			}
			u.runs = append(u.runs, uniRun{uint32(s), uint32(e), d0, d1})
			s = e + 1
		}
	})
}

func (u *uniFn) term(x *X, r *Term) *Term {
	u.build()
	T := x.T
	var tree func(lo, hi int) *Term
	leaf := func(i int) *Term {
		n := u.runs[i]
		if n.d0 == n.d1 {
			return T.Const(uint64(n.d0), 32)
		}
		odd := T.Eq(T.Extract(r, 0, 1), T.Const(uint64(n.lo&1), 1))
		return T.Ite(odd, T.Const(uint64(n.d0), 32), T.Const(uint64(n.d1), 32))
	}
	tree = func(lo, hi int) *Term {
		if lo == hi {
			return leaf(lo)
		}
		m := (lo + hi + 1) / 2
		return T.Ite(T.Cmp(OUlt, r, T.Const(uint64(u.runs[m].lo), 32)), tree(lo, m-1), tree(m, hi))
	}
	in := T.Cmp(OUlt, r, T.Const(unicode.MaxRune+1, 32))
	return T.Ite(in, tree(0, len(u.runs)-1), T.Const(uint64(u.f(unicode.MaxRune+1)), 32))
}

func initUnicode(I map[string]intrinsic) {
	for n, f := range map[string]func(rune) rune{"ToLower": unicode.ToLower, "ToUpper": unicode.ToUpper, "ToTitle": unicode.ToTitle} {
		f := f
		u := &uniFn{f: func(r rune) uint32 {
			if r > unicode.MaxRune {
				return 0
			}
			return uint32(f(r) - r)
		}}
		I["unicode."+n] = func(x *X, c *frame, a []value) value {
			r := a[0].(*Term)
			if r.isConst() {
				return x.T.Const(uint64(uint32(f(rune(int32(r.k))))), 32)
			}
			return x.T.Bin(OAdd, r, u.term(x, r))
		}
	}
	for n, f := range map[string]func(rune) bool{"IsSpace": unicode.IsSpace, "IsLetter": unicode.IsLetter, "IsUpper": unicode.IsUpper, "IsLower": unicode.IsLower,
		"IsDigit": unicode.IsDigit, "IsNumber": unicode.IsNumber, "IsControl": unicode.IsControl, "IsPrint": unicode.IsPrint, "IsGraphic": unicode.IsGraphic,
		"IsPunct": unicode.IsPunct, "IsSymbol": unicode.IsSymbol, "IsMark": unicode.IsMark, "IsTitle": unicode.IsTitle} {
		f := f
		u := &uniFn{f: func(r rune) uint32 {
			if f(r) {
				return 1
			}
			return 0
		}}
		I["unicode."+n] = func(x *X, c *frame, a []value) value {
			r := a[0].(*Term)
			if r.isConst() {
				return x.T.Bool(f(rune(int32(r.k))))
			}
			return x.T.Eq(u.term(x, r), x.T.Const(1, 32))
		}
	}
}
