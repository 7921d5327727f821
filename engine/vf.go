package main

// Harness API (intercepted vf* functions) and byte-function tabulation.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

func (x *X) uname(n string) string {
	k := x.names[n]
	x.names[n]++
	return fmt.Sprintf("%s#%d", n, k)
}

func (x *X) vfBytesVar(un string, n int, charset string) []*Term {
	T := x.T
	b := make([]*Term, n)
	ascii := charset != ""
	for i := 0; i < len(charset); i++ {
		if charset[i] >= 0x80 {
			ascii = false
		}
	}
	for i := range b {
		if ascii {
			v := T.Var(fmt.Sprintf("%s.%d.7", un, i), 7)
			b[i] = T.ZExt(v, 8)
		} else {
			b[i] = T.Var(fmt.Sprintf("%s.%d", un, i), 8)
		}
		if charset != "" {
			x.assume(x.inSet(b[i], charset))
		}
	}
	return b
}

// inSet builds membership as a union of ranges.
func (x *X) inSet(b *Term, set string) *Term {
	T := x.T
	var in [256]bool
	for i := 0; i < len(set); i++ {
		in[set[i]] = true
	}
	r := T.False
	for i := 0; i < 256; {
		if !in[i] {
			i++
			continue
		}
		j := i
		for j < 256 && in[j] {
			j++
		}
		r = T.Or(r, T.And(T.Cmp(OUle, T.Const(uint64(i), 8), b), T.Cmp(OUle, b, T.Const(uint64(j-1), 8))))
		i = j
	}
	return r
}

func (x *X) vfStr(name string, min, max int, charset string) *Str {
	T := x.T
	un := x.uname(name)
	b := x.vfBytesVar(un, max, charset)
	in := &Input{Name: un, Kind: "string", b: b}
	x.inputs = append(x.inputs, in)
	if min == max {
		if max == 0 {
			return emptyStr
		}
		return &Str{sym: true, b: b}
	}
	lv := T.Var(un+".len", 8)
	n := T.ZExt(lv, 64)
	in.n = n
	x.assume(T.And(T.Cmp(OUle, T.Const(uint64(min), 8), lv), T.Cmp(OUle, lv, T.Const(uint64(max), 8))))
	return &Str{sym: true, b: b, n: n}
}

func cstr(v value) string {
	s := v.(*Str)
	if s.sym {
		panic(engineError{"symbolic harness label"})
	}
	return s.c
}
func cint(v value) int {
	t := v.(*Term)
	if !t.isConst() {
		panic(engineError{"symbolic harness bound"})
	}
	return int(int64(t.k))
}

func initVF() {
	V := map[string]intrinsic{}
	vfIntrinsics = V
	V["vfBool"] = func(x *X, c *frame, a []value) value {
		un := x.uname(cstr(a[0]))
		t := x.T.Var(un+".b", 0)
		x.inputs = append(x.inputs, &Input{Name: un, Kind: "bool", t: t})
		return t
	}
	V["vfByte"] = func(x *X, c *frame, a []value) value {
		un := x.uname(cstr(a[0]))
		t := x.T.Var(un+".8", 8)
		x.inputs = append(x.inputs, &Input{Name: un, Kind: "int", t: t})
		return t
	}
	V["vfInt"] = func(x *X, c *frame, a []value) value {
		un := x.uname(cstr(a[0]))
		lo, hi := cint(a[1]), cint(a[2])
		n := uint64(hi - lo)
		w := uint8(1)
		for w < 63 && mask(w) < n {
			w++
		}
		v := x.T.Var(fmt.Sprintf("%s.i%d", un, w), w)
		if mask(w) != n {
			x.assume(x.T.Cmp(OUle, v, x.T.Const(n, w)))
		}
		x.inputs = append(x.inputs, &Input{Name: un, Kind: "int", t: v, lo: int64(lo)})
		return x.T.Bin(OAdd, x.T.ZExt(v, 64), x.T.Const(uint64(int64(lo)), 64))
	}
	V["vfChoice"] = func(x *X, c *frame, a []value) value {
		un := x.uname(cstr(a[0]))
		n := cint(a[1])
		k := x.choose(n, un)
		x.inputs = append(x.inputs, &Input{Name: un, Kind: "choice", lo: int64(k)})
		return x.T.Int(k)
	}
	V["vfString"] = func(x *X, c *frame, a []value) value {
		return x.vfStr(cstr(a[0]), cint(a[1]), cint(a[2]), "")
	}
	V["vfStringIn"] = func(x *X, c *frame, a []value) value {
		return x.vfStr(cstr(a[0]), cint(a[1]), cint(a[2]), cstr(a[3]))
	}
	V["vfBytes"] = func(x *X, c *frame, a []value) value {
		un := x.uname(cstr(a[0]))
		b := x.vfBytesVar(un, cint(a[1]), "")
		x.inputs = append(x.inputs, &Input{Name: un, Kind: "bytes", b: b})
		return x.mkBytes(b)
	}
	V["vfAssume"] = func(x *X, c *frame, a []value) value { x.assume(a[0].(*Term)); return nil }
	V["vfAssert"] = func(x *X, c *frame, a []value) value {
		x.assertProp(a[0].(*Term), cstr(a[1]))
		return nil
	}
	V["vfReach"] = func(x *X, c *frame, a []value) value { x.reached[cstr(a[0])] = true; return nil }
	V["vfNote"] = func(x *X, c *frame, a []value) value {
		x.notes = append(x.notes, note{cstr(a[0]), a[1].(*Str)})
		return nil
	}
	V["vfThorough"] = func(x *X, c *frame, a []value) value { return x.T.Bool(x.ex.Tier == "thorough") }
	V["vfNative"] = func(x *X, c *frame, a []value) value { return x.T.False }
	V["vfAdvance"] = func(x *X, c *frame, a []value) value {
		k := x.clk()
		old := k.off
		x.onUndo(func() { k.off = old })
		k.off = x.T.Bin(OAdd, k.off, a[0].(*Term))
		return nil
	}
	V["vfMapOrder"] = func(x *X, c *frame, a []value) value {
		x.mapOrder = 0
		if a[0].(*Term).isTrue() {
			x.mapOrder = 1
		}
		return nil
	}

	// vfConcurrent runs its arguments as threads: every schedule with at most
	// the given number of pre-emptions.
	V["vfConcurrent"] = func(x *X, c *frame, a []value) value {
		s := x.ensureSched()
		s.pre = x.preBound
		var l []*thr
		for i, f := range a[0].([]value) {
			f := f
			l = append(l, x.spawn(fmt.Sprintf("thread %d", i), func() { x.callValue(nil, f, nil) }))
		}
		x.joinThreads(l)
		s.pre = 0
		return nil
	}
	V["vfPreempt"] = func(x *X, c *frame, a []value) value {
		x.preBound = x.concInt(a[0], "preemptions")
		return nil
	}
	V["vfCTCompares"] = func(x *X, c *frame, a []value) value { return x.T.Int(x.ctCompares) }
	V["vfJSONStr"] = func(x *X, c *frame, a []value) value {
		d, ok := x.jTop(a[0])
		key := cstr(a[1])
		if !ok {
			return tuple{emptyStr, x.T.False}
		}
		for i := len(d.fields) - 1; i >= 0; i-- {
			f := d.fields[i]
			if f.name == key && f.nsym == nil {
				if f.v.kind == 's' {
					return tuple{f.v.str, x.T.True}
				}
				return tuple{emptyStr, x.T.False}
			}
		}
		return tuple{emptyStr, x.T.False}
	}
	V["vfJSONInt"] = func(x *X, c *frame, a []value) value {
		d, ok := x.jTop(a[0])
		key := cstr(a[1])
		if ok {
			for i := len(d.fields) - 1; i >= 0; i-- {
				f := d.fields[i]
				if f.name == key && f.v.kind == 'n' {
					if f.v.num != nil {
						if f.v.signed {
							return tuple{x.T.SExt(f.v.num, 64), x.T.True}
						}
						return tuple{x.T.ZExt(f.v.num, 64), x.T.True}
					}
					var n int64
					if _, err := fmt.Sscanf(f.v.lit, "%d", &n); err == nil && fmt.Sprint(n) == f.v.lit {
						return tuple{x.T.Const(uint64(n), 64), x.T.True}
					}
				}
			}
		}
		return tuple{x.T.Int(0), x.T.False}
	}
	V["vfJSONBool"] = func(x *X, c *frame, a []value) value {
		d, ok := x.jTop(a[0])
		key := cstr(a[1])
		if ok {
			for i := len(d.fields) - 1; i >= 0; i-- {
				f := d.fields[i]
				if f.name == key && f.v.kind == 'b' {
					return tuple{f.v.b, x.T.True}
				}
			}
		}
		return tuple{x.T.False, x.T.False}
	}
	// vfJSONKeys returns the sorted member names joined by commas ("!" when not an object)
	V["vfJSONKeys"] = func(x *X, c *frame, a []value) value {
		d, ok := x.jTop(a[0])
		if !ok {
			return mkStr("!")
		}
		seen := map[string]bool{}
		var ks []string
		for _, f := range d.fields {
			if f.nsym != nil {
				panic(unsupported{"symbolic JSON key"})
			}
			if !seen[f.name] {
				seen[f.name] = true
				ks = append(ks, f.name)
			}
		}
		sortStrings(ks)
		return mkStr(strings.Join(ks, ","))
	}
}

func sortStrings(s []string) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

func (x *X) jTop(v value) (*jdoc, bool) {
	d, err := x.jParse(x.bytesOf(v))
	if err != nil || d.kind != 'o' {
		return nil, false
	}
	return d, true
}

// ---------- tabulation of pure byte functions ----------

var pureCache sync.Map

func (p *Prog) isPure(fn *ssa.Function, depth int) bool {
	if v, ok := pureCache.Load(fn); ok {
		return v.(bool)
	}
	if depth > 4 || fn.Blocks == nil {
		return false
	}
	pureCache.Store(fn, false) // recursion guard
	r := p.purity(fn, depth)
	pureCache.Store(fn, r)
	return r
}

func (p *Prog) purity(fn *ssa.Function, depth int) bool {
	if len(fn.FreeVars) > 0 {
		return false
	}
	under := fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), underTest)
	n := 0
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			n++
			switch in := in.(type) {
			case *ssa.BinOp, *ssa.Phi, *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Convert, *ssa.ChangeType,
				*ssa.Index, *ssa.Extract, *ssa.Field, *ssa.DebugRef, *ssa.Lookup, *ssa.Range, *ssa.Next:
			case *ssa.Slice:
				if _, ok := in.X.Type().Underlying().(*types.Basic); !ok {
					return false
				}
			case *ssa.Alloc:
				if in.Heap {
					return false
				}
			case *ssa.IndexAddr, *ssa.FieldAddr:
			case *ssa.UnOp:
				if in.Op == token.ARROW {
					return false
				}
				if in.Op == token.MUL && under && rootGlobal(in.X) {
					return false
				}
			case *ssa.Store:
				if a, ok := rootOf(in.Addr).(*ssa.Alloc); !ok || a.Heap {
					return false
				}
			case *ssa.Call:
				if bl, ok := in.Call.Value.(*ssa.Builtin); ok {
					if bl.Name() != "len" && bl.Name() != "min" && bl.Name() != "max" {
						return false
					}
					continue
				}
				f, ok := in.Call.Value.(*ssa.Function)
				if !ok || in.Call.IsInvoke() || !p.isPure(f, depth+1) {
					return false
				}
			default:
				return false
			}
		}
	}
	return n < 400
}

func rootOf(v ssa.Value) ssa.Value {
	for {
		switch u := v.(type) {
		case *ssa.IndexAddr:
			v = u.X
		case *ssa.FieldAddr:
			v = u.X
		default:
			return v
		}
	}
}

func rootGlobal(v ssa.Value) bool {
	_, ok := rootOf(v).(*ssa.Global)
	return ok
}

// tabulate evaluates a pure function of one symbolic byte on all its values.
func (x *X) tabulate(caller *frame, fi *funcInfo, args []value) (value, bool) {
	fn := fi.fn
	res := fn.Signature.Results()
	if res.Len() != 1 {
		return nil, false
	}
	w, _, ok := widthOf(res.At(0).Type())
	if !ok {
		return nil, false
	}
	sym := -1
	for i, a := range args {
		switch a := a.(type) {
		case *Term:
			if a.isConst() {
				continue
			}
			if sym >= 0 || a.op == OJSON {
				return nil, false
			}
			sym = i
		case *Str:
			if a.sym {
				return nil, false
			}
		default:
			return nil, false
		}
	}
	if sym < 0 {
		return nil, false
	}
	at := args[sym].(*Term)
	base := at
	for base.op == OZExt {
		base = base.a
	}
	if base.w > 8 || base.w == 0 {
		return nil, false
	}
	if !x.P.isPure(fn, 0) {
		return nil, false
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "%p|%d|%d", fn, sym, base.w)
	for i, a := range args {
		if i == sym {
			continue
		}
		switch a := a.(type) {
		case *Term:
			fmt.Fprintf(&sb, "|%d", a.k)
		case *Str:
			fmt.Fprintf(&sb, "|%q", a.c)
		}
	}
	key := sb.String()
	tv, have := x.tabCache[key]
	if !have {
		tv = x.tabCompute(caller, fi, args, sym, at.w, base.w)
		x.tabCache[key] = tv
	}
	vals, ok := tv.([]uint64)
	if !ok {
		return nil, false
	}
	if w == 0 {
		return x.T.Not(x.T.Eq(x.T.Tab(vals, 8, base), x.T.Const(0, 8))), true
	}
	return x.T.Tab(vals, w, base), true
}

func (x *X) tabCompute(caller *frame, fi *funcInfo, args []value, sym int, aw, bw uint8) (out value) {
	save := x.inTab
	saveSteps := x.steps
	x.inTab = true
	defer func() {
		x.inTab = save
		x.steps = saveSteps
		if r := recover(); r != nil {
			if ee, ok := r.(engineError); ok {
				panic(ee)
			}
			out = false
		}
	}()
	n := 1 << bw
	vals := make([]uint64, n)
	na := append([]value{}, args...)
	for i := 0; i < n; i++ {
		na[sym] = x.T.Const(uint64(i), aw)
		r := x.callBody(caller, fi, na, nil).(*Term)
		if !r.isConst() {
			return false
		}
		vals[i] = r.k
	}
	return vals
}
