package main

// Byte-domain reasoning: path conditions over a single variable of at most
// eight bits are kept as exact value sets. They decide branch feasibility
// without a solver call; assertions always go to the solver.

type bset [4]uint64

func (s *bset) has(i int) bool { return s[i>>6]>>(uint(i)&63)&1 != 0 }
func (s *bset) set(i int)      { s[i>>6] |= 1 << (uint(i) & 63) }

func fullSet(w uint8) bset {
	var s bset
	n := 2
	if w > 0 {
		n = 1 << w
	}
	for i := 0; i < n; i++ {
		s.set(i)
	}
	return s
}

const (
	fvUnknown = iota
	fvNone
	fvOne
	fvMany
)

// single returns the only variable of x when there is exactly one.
func (x *Term) single() *Term {
	x.scanVars()
	if x.fvk == fvOne {
		return x.fv
	}
	return nil
}

func (x *Term) scanVars() {
	if x.fvk != fvUnknown {
		return
	}
	switch {
	case x.op == OVar:
		x.fvk, x.fv = fvOne, x
		return
	case x.op == OJSON:
		x.fvk = fvMany
		return
	case !x.hasVar && x.a == nil:
		x.fvk = fvNone
		return
	}
	k := uint8(fvNone)
	var v *Term
	for _, c := range [3]*Term{x.a, x.b, x.c} {
		if c == nil {
			continue
		}
		c.scanVars()
		switch c.fvk {
		case fvMany:
			k = fvMany
		case fvOne:
			if k == fvNone {
				k, v = fvOne, c.fv
			} else if k == fvOne && v != c.fv {
				k = fvMany
			}
		}
	}
	x.fvk, x.fv = k, v
}

// truth is the set of values of v (the single variable of c) that satisfy c.
func (t *Terms) truth(c, v *Term) *bset {
	if s, ok := t.tt[c]; ok {
		return s
	}
	n := 2
	if v.w > 0 {
		n = 1 << v.w
	}
	memo := map[*Term][]uint64{}
	vec := t.vec(c, v, n, memo)
	s := &bset{}
	for i := 0; i < n; i++ {
		if vec[i] != 0 {
			s.set(i)
		}
	}
	t.tt[c] = s
	return s
}

func (t *Terms) vec(x, v *Term, n int, memo map[*Term][]uint64) []uint64 {
	if r, ok := memo[x]; ok {
		return r
	}
	r := make([]uint64, n)
	memo[x] = r
	var a, b, c []uint64
	if x.a != nil {
		a = t.vec(x.a, v, n, memo)
	}
	if x.b != nil {
		b = t.vec(x.b, v, n, memo)
	}
	if x.c != nil {
		c = t.vec(x.c, v, n, memo)
	}
	for i := range r {
		switch x.op {
		case OConst:
			r[i] = x.k
		case OVar:
			r[i] = uint64(i)
		case OEq, OUlt, OUle, OSlt, OSle:
			r[i] = b2u(foldCmp(x.op, x.a.w, a[i], b[i]))
		case OBAnd:
			r[i] = a[i] & b[i]
		case OBOr:
			r[i] = a[i] | b[i]
		case OBNot:
			r[i] = 1 - a[i]
		case OIte:
			if a[i] != 0 {
				r[i] = b[i]
			} else {
				r[i] = c[i]
			}
		case ONot:
			r[i] = ^a[i] & mask(x.w)
		case ONeg:
			r[i] = -a[i] & mask(x.w)
		case OZExt:
			r[i] = a[i]
		case OSExt:
			r[i] = uint64(sext(a[i], x.a.w)) & mask(x.w)
		case OExtract:
			r[i] = (a[i] >> x.k) & mask(x.w)
		case OConcat:
			r[i] = a[i]<<x.b.w | b[i]
		case OTab:
			if a[i] < uint64(len(x.tab.vals)) {
				r[i] = x.tab.vals[a[i]]
			}
		default:
			r[i] = foldBin(x.op, x.w, a[i], b[i])
		}
	}
	return r
}

func (x *X) dom(v *Term) *bset {
	d := x.doms[v]
	if d == nil {
		s := fullSet(v.w)
		d = &s
		x.doms[v] = d
	}
	return d
}

// note records a condition that holds on the current path.
func (x *X) note(c *Term) {
	if x.NoDomains || c.isConst() {
		return
	}
	switch {
	case c.op == OBAnd:
		x.note(c.a)
		x.note(c.b)
		return
	case c.op == OBNot && c.a.op == OBOr:
		x.note(x.T.Not(c.a.a))
		x.note(x.T.Not(c.a.b))
		return
	}
	if v := c.single(); v != nil && v.w <= 8 {
		tt := x.T.truth(c, v)
		d := x.dom(v)
		for i := range d {
			d[i] &= tt[i]
		}
		return
	}
	x.entangle(c)
}

func (x *X) entangle(c *Term) {
	if c.op == OConst {
		return
	}
	if c.op == OVar {
		x.ent[c] = true
		return
	}
	if c.op == OJSON {
		x.entAll = true
		return
	}
	if c.fvk == fvOne {
		x.ent[c.fv] = true
		return
	}
	if x.entSeen[c] {
		return
	}
	x.entSeen[c] = true
	for _, k := range [3]*Term{c.a, c.b, c.c} {
		if k != nil {
			x.entangle(k)
		}
	}
}

// quick decides whether c is satisfiable together with the path when that
// only depends on one unentangled byte.
func (x *X) quick(c *Term) (map[string]uint64, Result, bool) {
	if x.NoDomains {
		return nil, Unknown, false
	}
	v := c.single()
	if v == nil || v.w > 8 {
		return nil, Unknown, false
	}
	tt := x.T.truth(c, v)
	d := x.dom(v)
	pick := -1
	for i := 0; i < 4; i++ {
		if w := d[i] & tt[i]; w != 0 {
			for j := 0; j < 64; j++ {
				if w>>uint(j)&1 != 0 {
					pick = i*64 + j
					break
				}
			}
			break
		}
	}
	if pick < 0 {
		x.domUnsat++
		return nil, Unsat, true
	}
	if x.entAll || x.ent[v] || x.model == nil {
		return nil, Unknown, false
	}
	x.domSat++
	m := make(map[string]uint64, len(x.model)+1)
	for k, val := range x.model {
		m[k] = val
	}
	m[v.name] = uint64(pick)
	return m, Sat, true
}

// feasible decides path and c, by domains or by the solver.
func (x *X) feasible(c *Term) (map[string]uint64, Result) {
	if m, r, ok := x.quick(c); ok {
		return m, r
	}
	return x.S.CheckModel(c)
}
