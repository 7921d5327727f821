package main

import (
	"fmt"
	"go/types"
)

// Package testing and testify's assertions: a test is a function run with a
// fresh *testing.T; what counts is whether it was marked as failed. Equality
// of symbolic values is decided by the solver like any other branch.

type goexitVal struct{} // unwinds a test goroutine (FailNow, SkipNow)

func (x *X) newT() value {
	tt := x.P.ext["testing"].Pkg.Scope().Lookup("T").Type()
	p := new(value)
	*p = x.zero(tt)
	return p
}

// runTest runs fn(t); it reports whether the test failed. A panic of the
// test unwinds further, as it ends the process.
func (x *X) runTest(fn value) (failed bool) {
	saved := x.testFailed
	depth := len(x.cleanups)
	x.testFailed = false
	cur := x.cur
	call := func(f value, args []value) {
		defer func() {
			if r := recover(); r != nil {
				if tp, ok := r.(targetPanic); ok {
					if _, ok := tp.v.(goexitVal); ok {
						x.cur = cur
						return
					}
				}
				panic(r)
			}
		}()
		x.callValue(x.cur, f, args)
	}
	call(fn, []value{x.newT()})
	for len(x.cleanups) > depth {
		f := x.cleanups[len(x.cleanups)-1]
		x.cleanups = x.cleanups[:len(x.cleanups)-1]
		call(f, nil)
	}
	failed = x.testFailed
	x.testFailed = saved || failed
	return failed
}

// deepEq is reflect.DeepEqual on interface values.
func (x *X) deepEq(a, b iface) *Term {
	if a.t == nil || b.t == nil {
		return x.T.Bool(a.t == nil && b.t == nil)
	}
	if !identical(a.t, b.t) {
		return x.T.False
	}
	return x.deepEqT(a.t, a.v, b.v)
}

func (x *X) deepEqT(t types.Type, a, b value) *Term {
	switch u := under(t).(type) {
	case *types.Interface:
		return x.deepEq(a.(iface), b.(iface))
	case *types.Slice:
		as, aok := a.([]value)
		bs, bok := b.([]value)
		if !aok || !bok || (as == nil) != (bs == nil) || len(as) != len(bs) {
			return x.T.Bool(isNilVal(a) && isNilVal(b))
		}
		r := x.T.True
		for i := range as {
			r = x.T.And(r, x.deepEqT(u.Elem(), as[i], bs[i]))
		}
		return r
	case *types.Array:
		r := x.T.True
		for i, e := range a.(array) {
			r = x.T.And(r, x.deepEqT(u.Elem(), e, b.(array)[i]))
		}
		return r
	case *types.Struct:
		r := x.T.True
		for i, e := range a.(structure) {
			r = x.T.And(r, x.deepEqT(u.Field(i).Type(), e, b.(structure)[i]))
		}
		return r
	case *types.Map:
		am, _ := a.(*mapv)
		bm, _ := b.(*mapv)
		if am == nil || bm == nil {
			return x.T.Bool(am == nil && bm == nil)
		}
		if am.live != bm.live {
			return x.T.False
		}
		r := x.T.True
		for _, e := range am.ents {
			if e.dead {
				continue
			}
			o := x.find(bm, e.key)
			if o == nil {
				return x.T.False
			}
			r = x.T.And(r, x.deepEqT(u.Elem(), e.val, o.val))
		}
		return r
	case *types.Pointer:
		if isNilVal(a) || isNilVal(b) {
			return x.T.Bool(isNilVal(a) && isNilVal(b))
		}
		pa, pb := x.ptr(a), x.ptr(b)
		if pa == pb {
			return x.T.True
		}
		return x.deepEqT(u.Elem(), x.load(pa), x.load(pb))
	case *types.Signature:
		return x.T.Bool(isNilVal(a) && isNilVal(b))
	}
	return x.equals(t, a, b)
}

// tEmpty is testify's isEmpty.
func (x *X) tEmpty(a iface) *Term {
	if a.t == nil {
		return x.T.True
	}
	switch v := a.v.(type) {
	case *Str:
		return x.T.Eq(x.strLenTerm(v), x.T.Int(0))
	case []value:
		return x.T.Bool(len(v) == 0)
	case *mapv:
		return x.T.Bool(v == nil || v.live == 0)
	case array:
		return x.T.Bool(len(v) == 0)
	case *value:
		if v == nil {
			return x.T.True
		}
		return x.tEmpty(iface{under(a.t).(*types.Pointer).Elem(), x.load(v)})
	}
	return x.deepEqT(a.t, a.v, x.zero(a.t))
}

func (x *X) tConv(a iface, t types.Type) (iface, bool) {
	if a.t == nil || !types.ConvertibleTo(a.t, t) {
		return iface{}, false
	}
	return iface{t, x.convert(t, a.t, a.v)}, true
}

func init() {
	fail := func(x *X, fr *frame, a []value) value { x.testFailed = true; return nil }
	exit := func(x *X) { panic(targetPanic{goexitVal{}}) }
	reg := func(name string, f intrinsic) {
		testingIntr["(*testing.common)."+name] = f
		testingIntr["(*testing.T)."+name] = f
	}
	for _, n := range []string{"Error", "Errorf", "Fail"} {
		reg(n, fail)
	}
	for _, n := range []string{"FailNow", "Fatal", "Fatalf"} {
		reg(n, func(x *X, _ *frame, a []value) value { x.testFailed = true; exit(x); return nil })
	}
	for _, n := range []string{"SkipNow", "Skip", "Skipf"} {
		reg(n, func(x *X, _ *frame, a []value) value { exit(x); return nil })
	}
	for _, n := range []string{"Helper", "Log", "Logf", "Parallel"} {
		reg(n, nop())
	}
	reg("Name", func(x *X, _ *frame, a []value) value { return mkStr("test") })
	reg("Failed", func(x *X, _ *frame, a []value) value { return x.T.Bool(x.testFailed) })
	reg("Skipped", func(x *X, _ *frame, a []value) value { return x.T.False })
	reg("Cleanup", func(x *X, _ *frame, a []value) value { x.cleanups = append(x.cleanups, a[1]); return nil })
	testingIntr["(*testing.T).Run"] = func(x *X, _ *frame, a []value) value { return x.T.Bool(!x.runTest(a[2])) }
	testingIntr["testing.RunTests"] = func(x *X, _ *frame, a []value) value {
		ok := true
		for _, t := range a[1].([]value) {
			if x.runTest(t.(structure)[1]) {
				ok = false
			}
		}
		return x.T.Bool(ok)
	}
	testingIntr["testing.Verbose"] = func(x *X, _ *frame, a []value) value { return x.T.False }
	testingIntr["testing.Short"] = func(x *X, _ *frame, a []value) value { return x.T.False }
	testingIntr["reflect.DeepEqual"] = func(x *X, _ *frame, a []value) value { return x.deepEq(a[0].(iface), a[1].(iface)) }

	const as = "github.com/stretchr/testify/assert."
	testingIntr[as+"ObjectsAreEqual"] = func(x *X, _ *frame, a []value) value { return x.deepEq(a[0].(iface), a[1].(iface)) }
	testingIntr[as+"ObjectsAreEqualValues"] = func(x *X, _ *frame, a []value) value {
		e, c := a[0].(iface), a[1].(iface)
		if e.t != nil && c.t != nil && !identical(e.t, c.t) {
			if f, ok := x.tConv(e, c.t); ok {
				e = f
			}
		}
		return x.deepEq(e, c)
	}
	testingIntr[as+"isEmpty"] = func(x *X, _ *frame, a []value) value { return x.tEmpty(a[0].(iface)) }
	testingIntr[as+"isNil"] = func(x *X, _ *frame, a []value) value {
		i := a[0].(iface)
		return x.T.Bool(i.t == nil || isNilVal(i.v))
	}
	testingIntr[as+"getLen"] = func(x *X, _ *frame, a []value) value {
		i := a[0].(iface)
		n := 0
		switch v := i.v.(type) {
		case *Str:
			return tuple{x.T.True, x.strLenTerm(v)}
		case []value:
			n = len(v)
		case *mapv:
			if v != nil {
				n = v.live
			}
		case array:
			n = len(v)
		default:
			return tuple{x.T.False, x.T.Int(0)}
		}
		return tuple{x.T.True, x.T.Int(n)}
	}
	testingIntr[as+"includeElement"] = func(x *X, _ *frame, a []value) value {
		l, e := a[0].(iface), a[1].(iface)
		switch v := l.v.(type) {
		case *Str:
			s, ok := e.v.(*Str)
			if !ok {
				break
			}
			return tuple{x.T.True, x.T.Bool(x.idxSub(x.strBytes(v), x.strBytes(s)) >= 0)}
		case []value:
			r := x.T.False
			et := under(l.t).(*types.Slice).Elem()
			for _, i := range v {
				el, ok := i.(iface)
				if !ok {
					el = iface{et, i}
				}
				r = x.T.Or(r, x.deepEq(el, e))
			}
			return tuple{x.T.True, r}
		case *mapv:
			for _, en := range v.ents {
				if !en.dead && x.branch(x.deepEq(iface{under(l.t).(*types.Map).Key(), en.key}, e)) {
					return tuple{x.T.True, x.T.True}
				}
			}
			return tuple{x.T.True, x.T.False}
		}
		panic(unsupported{fmt.Sprintf("assert.Contains on %T", l.v)})
	}
	isZero := func(x *X, a value) *Term {
		i := a.(iface)
		if i.t == nil {
			return x.T.True
		}
		return x.deepEq(i, iface{i.t, x.zero(i.t)})
	}
	testingIntr[as+"Zero"] = func(x *X, fr *frame, a []value) value {
		if x.branch(isZero(x, a[1])) {
			return x.T.True
		}
		return testingIntr[as+"Fail"](x, fr, []value{a[0], mkStr(""), a[2]})
	}
	testingIntr[as+"NotZero"] = func(x *X, fr *frame, a []value) value {
		if !x.branch(isZero(x, a[1])) {
			return x.T.True
		}
		return testingIntr[as+"Fail"](x, fr, []value{a[0], mkStr(""), a[2]})
	}
	testingIntr[as+"validateEqualArgs"] = func(x *X, _ *frame, a []value) value { return iface{} }
	testingIntr[as+"diff"] = func(x *X, _ *frame, a []value) value { return mkStr("") }
	testingIntr[as+"formatUnequalValues"] = func(x *X, _ *frame, a []value) value { return tuple{mkStr(""), mkStr("")} }
	testingIntr[as+"messageFromMsgAndArgs"] = func(x *X, _ *frame, a []value) value { return mkStr("") }
	afail := func(x *X, _ *frame, a []value) value {
		t := a[0].(iface)
		m := x.methodByName(t.t, "Errorf")
		x.callFn(x.cur, m, []value{t.v, mkStr("assertion failed"), []value(nil)}, nil)
		return x.T.False
	}
	testingIntr[as+"Fail"] = afail
	testingIntr[as+"FailNow"] = func(x *X, fr *frame, a []value) value {
		afail(x, fr, a)
		t := a[0].(iface)
		if m := x.methodByName(t.t, "FailNow"); m != nil {
			x.callFn(x.cur, m, []value{t.v}, nil)
		}
		return x.T.False
	}
}

var testingIntr = map[string]intrinsic{}
