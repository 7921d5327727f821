package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type value interface{}
type tuple []value
type structure []value
type array []value
type iface struct {
	t types.Type
	v value
}
type closure struct {
	fn  *ssa.Function
	env []value
}

// nativeFn is an engine-implemented func value.
type nativeFn struct {
	name string
	f    func(x *X, args []value) value
}

// nativeObj is an engine-implemented object reached through interfaces.
type nativeObj interface {
	callMethod(x *X, name string, args []value) value
}

// Str is a Go string: concrete (sym=false) or a byte vector with an optional
// symbolic length n <= len(b).
type Str struct {
	c   string
	sym bool
	b   []*Term
	n   *Term
}

type mapEntry struct {
	key, val value
	dead     bool
}
type mapv struct {
	ents  []*mapEntry
	idx   map[interface{}]*mapEntry // concrete keys only
	nsym  int                       // live entries with symbolic keys
	live  int
	ktype types.Type
	guard *value // mutex cell guarding this map (lock discipline monitor)
}

type chanv struct {
	buf            []value
	cap            int
	closed         bool
	taken, waiting int
}

type unsupported struct{ msg string }
type engineError struct{ msg string }
type pathEnd struct{ kind string } // infeasible, bound, stop
type targetPanic struct{ v value }

type poison struct{ msg string }

func isPkgInit(fn *ssa.Function) bool {
	return fn.Name() == "init" && fn.Synthetic == "package initializer"
}

func under(t types.Type) types.Type { return t.Underlying() }

func widthOf(t types.Type) (uint8, bool, bool) { // width, signed, ok
	b, ok := under(t).(*types.Basic)
	if !ok {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, true
	case types.Int8:
		return 8, true, true
	case types.Uint8:
		return 8, false, true
	case types.Int16:
		return 16, true, true
	case types.Uint16:
		return 16, false, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint32:
		return 32, false, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func (x *X) zero(t types.Type) value {
	switch u := t.(type) {
	case *types.Basic:
		if w, _, ok := widthOf(u); ok {
			return x.T.Const(0, w)
		}
		switch u.Kind() {
		case types.String, types.UntypedString:
			return emptyStr
		case types.Float32, types.Float64, types.UntypedFloat:
			return float64(0)
		case types.Complex64, types.Complex128:
			return complex128(0)
		case types.UnsafePointer:
			return (*value)(nil)
		case types.UntypedNil:
			return (*value)(nil)
		}
		panic(unsupported{"zero of " + u.String()})
	case *types.Pointer:
		return (*value)(nil)
	case *types.Array:
		a := make(array, u.Len())
		if len(a) > 0 {
			switch under(u.Elem()).(type) {
			case *types.Struct, *types.Array:
				for i := range a {
					a[i] = x.zero(u.Elem())
				}
			default:
				z := x.zero(u.Elem())
				for i := range a {
					a[i] = z
				}
			}
		}
		return a
	case *types.Named, *types.Alias:
		return x.zero(t.Underlying())
	case *types.Interface:
		return iface{}
	case *types.Slice:
		return []value(nil)
	case *types.Struct:
		s := make(structure, u.NumFields())
		for i := range s {
			s[i] = x.zero(u.Field(i).Type())
		}
		return s
	case *types.Tuple:
		if u.Len() == 1 {
			return x.zero(u.At(0).Type())
		}
		s := make(tuple, u.Len())
		for i := range s {
			s[i] = x.zero(u.At(i).Type())
		}
		return s
	case *types.Chan:
		return (*chanv)(nil)
	case *types.Map:
		return (*mapv)(nil)
	case *types.Signature:
		return (*ssa.Function)(nil)
	case *types.TypeParam:
		panic(unsupported{"zero of type param"})
	}
	panic(unsupported{fmt.Sprintf("zero of %T", t)})
}

func copyVal(v value) value {
	switch v := v.(type) {
	case structure:
		n := make(structure, len(v))
		for i, e := range v {
			n[i] = copyVal(e)
		}
		return n
	case array:
		n := make(array, len(v))
		for i, e := range v {
			n[i] = copyVal(e)
		}
		return n
	}
	return v
}

func (x *X) load(addr *value) value {
	if addr == nil {
		x.rtPanic("invalid memory address or nil pointer dereference")
	}
	if p, ok := (*addr).(poison); ok {
		panic(unsupported{"use of value the model could not initialise: " + p.msg})
	}
	return copyVal(*addr)
}

type undo struct {
	addr *value
	old  value
	fn   func()
}

func (x *X) store(addr *value, v value) {
	if addr == nil {
		x.rtPanic("invalid memory address or nil pointer dereference")
	}
	switch nv := v.(type) {
	case structure:
		if ov, ok := (*addr).(structure); ok && len(ov) == len(nv) {
			for i := range nv {
				x.store(&ov[i], nv[i])
			}
			return
		}
		v = copyVal(nv)
	case array:
		if ov, ok := (*addr).(array); ok && len(ov) == len(nv) {
			for i := range nv {
				x.store(&ov[i], nv[i])
			}
			return
		}
		v = copyVal(nv)
	}
	if x.initDepth == 0 {
		x.journal = append(x.journal, undo{addr: addr, old: *addr})
	}
	*addr = v
}

func (x *X) onUndo(f func()) {
	if x.initDepth == 0 {
		x.journal = append(x.journal, undo{fn: f})
	}
}

func (x *X) rollback() {
	for i := len(x.journal) - 1; i >= 0; i-- {
		u := x.journal[i]
		if u.fn != nil {
			u.fn()
		} else {
			*u.addr = u.old
		}
	}
	x.journal = x.journal[:0]
}

// ---- strings ----

var emptyStr = &Str{}

func mkStr(s string) *Str { return &Str{c: s} }

func (x *X) symStr(b []*Term) *Str {
	for _, t := range b {
		if !t.isConst() {
			return &Str{sym: true, b: b}
		}
	}
	bs := make([]byte, len(b))
	for i, t := range b {
		bs[i] = byte(t.k)
	}
	return &Str{c: string(bs)}
}

func (x *X) strLenTerm(s *Str) *Term {
	if !s.sym {
		return x.T.Int(len(s.c))
	}
	if s.n != nil {
		if v, ok := x.fixed[s.n]; ok {
			return x.T.Int(v)
		}
		return s.n
	}
	return x.T.Int(len(s.b))
}

// fix returns s with a concrete length, forking over feasible lengths.
func (x *X) fix(s *Str) *Str {
	if !s.sym || s.n == nil {
		return s
	}
	if v, ok := x.fixed[s.n]; ok {
		return x.symStr(s.b[:v])
	}
	v := int(x.concretize(s.n, "string length"))
	x.fixed[s.n] = v
	return x.symStr(s.b[:v])
}

func (s *Str) isConcrete() bool { return !s.sym }

func (x *X) strBytes(s *Str) []*Term {
	s = x.fix(s)
	if s.sym {
		return s.b
	}
	r := make([]*Term, len(s.c))
	for i := 0; i < len(s.c); i++ {
		r[i] = x.T.small8[s.c[i]]
	}
	return r
}

func (x *X) strLen(s *Str) int {
	s = x.fix(s)
	if s.sym {
		return len(s.b)
	}
	return len(s.c)
}

func (x *X) strSlice(s *Str, lo, hi int) *Str {
	s = x.fix(s)
	if !s.sym {
		return &Str{c: s.c[lo:hi]}
	}
	return x.symStr(s.b[lo:hi:hi])
}

func (x *X) strCat(a, b *Str) *Str {
	if !a.sym && !b.sym {
		return &Str{c: a.c + b.c}
	}
	if !a.sym && a.c == "" {
		return b
	}
	if !b.sym && b.c == "" {
		return a
	}
	ab, bb := x.strBytes(a), x.strBytes(b)
	r := make([]*Term, 0, len(ab)+len(bb))
	r = append(append(r, ab...), bb...)
	return x.symStr(r)
}

func (x *X) strEq(a, b *Str) *Term {
	if !a.sym && !b.sym {
		return x.T.Bool(a.c == b.c)
	}
	T := x.T
	la, lb := x.strLenTerm(a), x.strLenTerm(b)
	if la.isConst() && lb.isConst() {
		if la.k != lb.k {
			return T.False
		}
		r := T.True
		for i := 0; i < int(la.k); i++ {
			r = T.And(r, T.Eq(x.rawByte(a, i), x.rawByte(b, i)))
			if r.isFalse() {
				return r
			}
		}
		return r
	}
	// at least one symbolic length
	ca, cb := x.rawCap(a), x.rawCap(b)
	m := ca
	if cb < m {
		m = cb
	}
	r := T.And(T.Eq(la, lb), T.Cmp(OUle, la, T.Int(m)))
	for i := 0; i < m; i++ {
		// i < len => bytes equal (len is known equal)
		l := la
		if lb.isConst() {
			l = lb
		}
		in := T.Cmp(OUlt, T.Int(i), l)
		r = T.And(r, T.Or(T.Not(in), T.Eq(x.rawByte(a, i), x.rawByte(b, i))))
		if r.isFalse() {
			return r
		}
	}
	return r
}

func (x *X) rawByte(s *Str, i int) *Term {
	if !s.sym {
		return x.T.small8[s.c[i]]
	}
	return s.b[i]
}
func (x *X) rawCap(s *Str) int {
	if !s.sym {
		return len(s.c)
	}
	return len(s.b)
}

// strLess builds the lexicographic comparison a<b.
func (x *X) strLess(a, b *Str) *Term {
	if !a.sym && !b.sym {
		return x.T.Bool(a.c < b.c)
	}
	ab, bb := x.strBytes(a), x.strBytes(b)
	T := x.T
	var rec func(i int) *Term
	rec = func(i int) *Term {
		if i >= len(bb) {
			return T.False
		}
		if i >= len(ab) {
			return T.True
		}
		return T.Or(T.Cmp(OUlt, ab[i], bb[i]), T.And(T.Eq(ab[i], bb[i]), rec(i+1)))
	}
	return rec(0)
}

func (x *X) show(s *Str) string {
	if !s.sym {
		return s.c
	}
	var sb strings.Builder
	for _, t := range s.b {
		if t.isConst() {
			sb.WriteByte(byte(t.k))
		} else {
			sb.WriteString("?")
		}
	}
	return sb.String()
}

// mustConc returns the concrete Go string, forking over bytes if needed is
// not attempted: symbolic content is unsupported here.
func (x *X) mustConc(s *Str, what string) string {
	s = x.fix(s)
	if s.sym {
		panic(unsupported{"symbolic string in " + what})
	}
	return s.c
}

func (x *X) bytesOf(v value) []*Term {
	sl := v.([]value)
	r := make([]*Term, len(sl))
	for i, e := range sl {
		r[i] = e.(*Term)
	}
	return r
}
func (x *X) mkBytes(b []*Term) []value {
	r := make([]value, len(b))
	for i, t := range b {
		r[i] = t
	}
	return r
}

// ---- maps ----

func concKey(v value) (interface{}, bool) {
	switch v := v.(type) {
	case *Term:
		if v.isConst() {
			return v.k, true
		}
	case *Str:
		if !v.sym {
			return v.c, true
		}
	case *value:
		return v, true
	case float64:
		return v, true
	case structure:
		// encode small structs of concrete fields
		key := "s"
		for _, f := range v {
			k, ok := concKey(f)
			if !ok {
				return nil, false
			}
			key += fmt.Sprintf("|%T:%v", k, k)
		}
		return key, true
	case array:
		key := "a"
		for _, f := range v {
			k, ok := concKey(f)
			if !ok {
				return nil, false
			}
			key += fmt.Sprintf("|%T:%v", k, k)
		}
		return key, true
	case iface:
		if v.t == nil {
			return "inil", true
		}
		k, ok := concKey(v.v)
		if !ok {
			return nil, false
		}
		return fmt.Sprintf("i%s|%T:%v", v.t, k, k), true
	case *chanv:
		return v, true
	}
	return nil, false
}

func newMap(kt types.Type) *mapv { return &mapv{idx: map[interface{}]*mapEntry{}, ktype: kt} }

// find locates the live entry for key, forking on symbolic equality.
func (x *X) find(m *mapv, key value) *mapEntry {
	if m == nil {
		return nil
	}
	ck, conc := concKey(key)
	if conc {
		if e := m.idx[ck]; e != nil {
			return e
		}
		if m.nsym == 0 {
			return nil
		}
	}
	for _, e := range m.ents {
		if e.dead {
			continue
		}
		if conc {
			if _, ec := concKey(e.key); ec {
				continue
			}
		}
		if x.branch(x.equals(m.ktype, e.key, key)) {
			return e
		}
	}
	return nil
}

func (x *X) mapSet(m *mapv, key, val value) {
	if m == nil {
		x.rtPanic("assignment to entry in nil map")
	}
	x.checkGuard(m, true)
	val = copyVal(val)
	if e := x.find(m, key); e != nil {
		old := e.val
		e.val = val
		x.onUndo(func() { e.val = old })
		return
	}
	e := &mapEntry{key: copyVal(key), val: val}
	m.ents = append(m.ents, e)
	m.live++
	ck, conc := concKey(key)
	if conc {
		m.idx[ck] = e
	} else {
		m.nsym++
	}
	x.onUndo(func() {
		// entries are undone in reverse order, so e is last
		m.ents = m.ents[:len(m.ents)-1]
		if !e.dead {
			m.live--
			if conc {
				delete(m.idx, ck)
			} else {
				m.nsym--
			}
		}
	})
}

func (x *X) mapDelete(m *mapv, key value) {
	if m == nil {
		return
	}
	x.checkGuard(m, true)
	e := x.find(m, key)
	if e == nil {
		return
	}
	x.kill(m, e)
}

func (x *X) kill(m *mapv, e *mapEntry) {
	e.dead = true
	m.live--
	ck, conc := concKey(e.key)
	if conc {
		delete(m.idx, ck)
	} else {
		m.nsym--
	}
	x.onUndo(func() {
		e.dead = false
		m.live++
		if conc {
			m.idx[ck] = e
		} else {
			m.nsym++
		}
	})
}

type mapIter struct {
	m    *mapv
	rem  []*mapEntry
	mode int // 0 insertion order, 1 arbitrary order
}

type strIter struct {
	s *Str
	i int
}
