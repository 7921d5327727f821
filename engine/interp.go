package main

// Symbolic interpreter for go/ssa.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// opnd is a pre-resolved operand.
type opnd struct {
	slot int32 // >=0: frame register
	glob *ssa.Global
	cst  *ssa.Const
	fn   value // *ssa.Function or *ssa.Builtin
}

type cinstr struct {
	in   ssa.Instruction
	dst  int32
	ops  []opnd // instruction specific order
	merg *mergeInfo
}

type cblock struct {
	ins []cinstr
	phi int // number of leading phis
	b   *ssa.BasicBlock
}

type funcInfo struct {
	fn     *ssa.Function
	nslots int
	params []int32
	free   []int32
	blocks []cblock
	intr   intrinsic
	name   string
	raw    bool
	once   sync.Once
}

type intrinsic func(x *X, caller *frame, args []value) value

// Prog is shared (read-only after load) by all workers.
type Prog struct {
	prog  *ssa.Program
	fset  *token.FileSet
	mu    sync.Mutex
	infos sync.Map // *ssa.Function -> *funcInfo
	under string   // import path prefix of the code under test
	pkg   *ssa.Package
	ext   map[string]*ssa.Package
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil && o != fn {
		return o.String()
	}
	return fn.String()
}

func (p *Prog) info(fn *ssa.Function) *funcInfo {
	if v, ok := p.infos.Load(fn); ok {
		fi := v.(*funcInfo)
		fi.once.Do(func() { fi.build(p) })
		return fi
	}
	v, _ := p.infos.LoadOrStore(fn, &funcInfo{fn: fn})
	fi := v.(*funcInfo)
	fi.once.Do(func() { fi.build(p) })
	return fi
}

func (fi *funcInfo) build(p *Prog) {
	fn := fi.fn
	fi.name = fnName(fn)
	fi.intr = lookupIntrinsic(fi.name, fn)
	if fi.raw {
		fi.intr = nil
	}
	if fi.intr != nil || fn.Blocks == nil {
		return
	}
	slots := map[ssa.Value]int32{}
	n := int32(0)
	add := func(v ssa.Value) int32 {
		slots[v] = n
		n++
		return n - 1
	}
	for _, v := range fn.Params {
		fi.params = append(fi.params, add(v))
	}
	for _, v := range fn.FreeVars {
		fi.free = append(fi.free, add(v))
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	res := func(v ssa.Value) opnd {
		switch v := v.(type) {
		case nil:
			return opnd{slot: -1}
		case *ssa.Const:
			return opnd{slot: -1, cst: v}
		case *ssa.Global:
			return opnd{slot: -1, glob: v}
		case *ssa.Function:
			return opnd{slot: -1, fn: v}
		case *ssa.Builtin:
			return opnd{slot: -1, fn: v}
		}
		s, ok := slots[v]
		if !ok {
			panic(engineError{"no slot for " + v.Name() + " in " + fn.String()})
		}
		return opnd{slot: s}
	}
	fi.blocks = make([]cblock, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		cb := &fi.blocks[bi]
		cb.b = b
		cb.ins = make([]cinstr, len(b.Instrs))
		for i, in := range b.Instrs {
			ci := &cb.ins[i]
			ci.in = in
			ci.dst = -1
			if v, ok := in.(ssa.Value); ok {
				ci.dst = slots[v]
			}
			var ops []ssa.Value
			switch in := in.(type) {
			case *ssa.Phi:
				cb.phi = i + 1
				ops = in.Edges
			case *ssa.BinOp:
				ops = []ssa.Value{in.X, in.Y}
			case *ssa.UnOp:
				ops = []ssa.Value{in.X}
			case *ssa.Call:
				ops = callOps(&in.Call)
			case *ssa.Defer:
				ops = callOps(&in.Call)
			case *ssa.Go:
				ops = callOps(&in.Call)
			case *ssa.ChangeInterface:
				ops = []ssa.Value{in.X}
			case *ssa.ChangeType:
				ops = []ssa.Value{in.X}
			case *ssa.Convert:
				ops = []ssa.Value{in.X}
			case *ssa.MultiConvert:
				ops = []ssa.Value{in.X}
			case *ssa.Extract:
				ops = []ssa.Value{in.Tuple}
			case *ssa.Field:
				ops = []ssa.Value{in.X}
			case *ssa.FieldAddr:
				ops = []ssa.Value{in.X}
			case *ssa.If:
				ops = []ssa.Value{in.Cond}
			case *ssa.Index:
				ops = []ssa.Value{in.X, in.Index}
			case *ssa.IndexAddr:
				ops = []ssa.Value{in.X, in.Index}
			case *ssa.Lookup:
				ops = []ssa.Value{in.X, in.Index}
			case *ssa.MakeChan:
				ops = []ssa.Value{in.Size}
			case *ssa.MakeClosure:
				ops = append([]ssa.Value{in.Fn}, in.Bindings...)
			case *ssa.MakeInterface:
				ops = []ssa.Value{in.X}
			case *ssa.MakeMap:
				ops = []ssa.Value{in.Reserve}
			case *ssa.MakeSlice:
				ops = []ssa.Value{in.Len, in.Cap}
			case *ssa.MapUpdate:
				ops = []ssa.Value{in.Map, in.Key, in.Value}
			case *ssa.Next:
				ops = []ssa.Value{in.Iter}
			case *ssa.Panic:
				ops = []ssa.Value{in.X}
			case *ssa.Range:
				ops = []ssa.Value{in.X}
			case *ssa.Return:
				ops = in.Results
			case *ssa.Send:
				ops = []ssa.Value{in.Chan, in.X}
			case *ssa.Slice:
				ops = []ssa.Value{in.X, in.Low, in.High, in.Max}
			case *ssa.SliceToArrayPointer:
				ops = []ssa.Value{in.X}
			case *ssa.Store:
				ops = []ssa.Value{in.Addr, in.Val}
			case *ssa.TypeAssert:
				ops = []ssa.Value{in.X}
			case *ssa.Select:
				for _, st := range in.States {
					ops = append(ops, st.Chan, st.Send)
				}
			}
			ci.ops = make([]opnd, len(ops))
			for k, o := range ops {
				// avoid typed-nil interface surprises
				if o == nil {
					ci.ops[k] = opnd{slot: -1}
					continue
				}
				ci.ops[k] = res(o)
			}
		}
	}
	fi.nslots = int(n)
	for bi := range fi.blocks {
		cb := &fi.blocks[bi]
		if len(cb.ins) > 0 {
			if _, ok := cb.ins[len(cb.ins)-1].in.(*ssa.If); ok {
				cb.ins[len(cb.ins)-1].merg = findMerge(fn, cb.b)
			}
		}
	}
}

func callOps(c *ssa.CallCommon) []ssa.Value {
	return append([]ssa.Value{c.Value}, c.Args...)
}

// mergeInfo describes a pure triangle/diamond below an If.
type mergeInfo struct {
	t, f *ssa.BasicBlock // side blocks to evaluate (nil: edge goes to join directly)
	join *ssa.BasicBlock
}

func pureBlock(b *ssa.BasicBlock) bool {
	if len(b.Instrs) > 12 || len(b.Preds) != 1 || len(b.Succs) != 1 {
		return false
	}
	for i, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.Jump:
			return i == len(b.Instrs)-1
		case *ssa.BinOp:
			switch in.Op {
			case token.QUO, token.REM, token.SHL, token.SHR:
				return false
			}
			if _, _, ok := widthOf(in.X.Type()); !ok {
				return false
			}
		case *ssa.UnOp:
			if in.Op == token.MUL || in.Op == token.ARROW {
				return false
			}
		case *ssa.Convert:
			if _, _, ok := widthOf(in.X.Type()); !ok {
				return false
			}
			if _, _, ok := widthOf(in.Type()); !ok {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return false
}

func findMerge(fn *ssa.Function, b *ssa.BasicBlock) *mergeInfo {
	t, f := b.Succs[0], b.Succs[1]
	if t == f {
		return nil
	}
	var mi *mergeInfo
	switch {
	case pureBlock(t) && t.Succs[0] == f:
		mi = &mergeInfo{t: t, join: f}
	case pureBlock(f) && f.Succs[0] == t:
		mi = &mergeInfo{f: f, join: t}
	case pureBlock(t) && pureBlock(f) && t.Succs[0] == f.Succs[0]:
		mi = &mergeInfo{t: t, f: f, join: t.Succs[0]}
	default:
		return nil
	}
	nphi := 0
	for _, in := range mi.join.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		nphi++
		if _, _, ok := widthOf(p.Type()); !ok {
			return nil
		}
	}
	if nphi == 0 {
		return nil
	}
	return mi
}

type deferred struct {
	fn     value
	args   []value
	instr  *ssa.Defer
	invoke bool
}

type frame struct {
	fi        *funcInfo
	regs      []value
	caller    *frame
	defers    []deferred
	result    value
	panicking bool
	panicVal  value
	depth     int
	inInit    bool
	pos       ssa.Instruction
	deferOf   *frame // set when this frame runs as a deferred call of deferOf
}

func (x *X) get(fr *frame, o opnd) value {
	if o.slot >= 0 {
		v := fr.regs[o.slot]
		if p, ok := v.(poison); ok && !fr.inInit {
			panic(unsupported{"poison: " + p.msg})
		}
		return v
	}
	if o.cst != nil {
		return x.constVal(o.cst)
	}
	if o.glob != nil {
		return x.global(o.glob)
	}
	return o.fn
}

func (x *X) constVal(c *ssa.Const) value {
	if v, ok := x.consts[c]; ok {
		return v
	}
	v := x.mkConst(c)
	x.consts[c] = v
	return v
}

func (x *X) mkConst(c *ssa.Const) value {
	t := c.Type()
	if c.Value == nil {
		return x.zero(t)
	}
	if b, ok := under(t).(*types.Basic); ok {
		if w, _, ok := widthOf(b); ok {
			if w == 0 {
				return x.T.Bool(constant.BoolVal(c.Value))
			}
			v := constant.ToInt(c.Value)
			if i, ok := constant.Int64Val(v); ok {
				return x.T.Const(uint64(i), w)
			}
			u, _ := constant.Uint64Val(v)
			return x.T.Const(u, w)
		}
		switch b.Kind() {
		case types.String, types.UntypedString:
			if c.Value.Kind() == constant.String {
				return mkStr(constant.StringVal(c.Value))
			}
			return mkStr(string(rune(c.Int64())))
		case types.Float32, types.Float64, types.UntypedFloat:
			f, _ := constant.Float64Val(c.Value)
			return f
		}
	}
	panic(unsupported{"const " + c.String()})
}

func (x *X) global(g *ssa.Global) *value {
	if p, ok := x.globals[g]; ok {
		return p
	}
	x.initPackage(g.Pkg)
	if p, ok := x.globals[g]; ok {
		return p
	}
	p := new(value)
	*p = x.zero(g.Type().(*types.Pointer).Elem())
	x.globals[g] = p
	return p
}

// initPackage runs the package initialiser lazily, tolerating unsupported
// initialisers (their values become poison).
func (x *X) initPackage(pkg *ssa.Package) {
	if pkg == nil || x.inited[pkg] {
		return
	}
	x.inited[pkg] = true
	for _, m := range pkg.Members {
		if g, ok := m.(*ssa.Global); ok {
			if _, have := x.globals[g]; !have {
				p := new(value)
				*p = x.zero(g.Type().(*types.Pointer).Elem())
				x.globals[g] = p
			}
		}
	}
	init := pkg.Func("init")
	if init == nil || init.Blocks == nil {
		return
	}
	if skipInit[pkg.Pkg.Path()] {
		return
	}
	saveSteps := x.steps
	x.initDepth++
	defer func() {
		x.initDepth--
		x.steps = saveSteps
	}()
	if t := globalOverrides[pkg.Pkg.Path()]; t != nil {
		defer t(x, pkg)
	}
	fr := &frame{fi: x.P.info(init), inInit: true, depth: 0}
	fr.regs = make([]value, fr.fi.nslots)
	x.runInit(fr)
}

func (x *X) runInit(fr *frame) {
	// package init bodies are almost straight-line; tolerate failures per instruction
	bi, prev := 0, -1
	for {
		cb := &fr.fi.blocks[bi]
		for k := 0; k < cb.phi; k++ {
			ci := &cb.ins[k]
			for pi, pb := range cb.b.Preds {
				if pb.Index == prev {
					fr.regs[ci.dst] = x.get(fr, ci.ops[pi])
				}
			}
		}
		next := -1
		for k := cb.phi; k < len(cb.ins); k++ {
			ci := &cb.ins[k]
			switch in := ci.in.(type) {
			case *ssa.Jump:
				next = cb.b.Succs[0].Index
			case *ssa.If:
				c := fr.regs[0]
				_ = c
				cv := x.get(fr, ci.ops[0])
				t, ok := cv.(*Term)
				if !ok || !t.isConst() {
					next = cb.b.Succs[1].Index
				} else if t.isTrue() {
					next = cb.b.Succs[0].Index
				} else {
					next = cb.b.Succs[1].Index
				}
				// init guard: "if init$guard goto done else start": guard is false
			case *ssa.Return:
				return
			case *ssa.Call:
				if f, ok := in.Call.Value.(*ssa.Function); ok && isPkgInit(f) {
					continue // imported packages are initialised lazily
				}
				x.tolerant(fr, ci)
			default:
				x.tolerant(fr, ci)
			}
		}
		if next < 0 {
			return
		}
		prev, bi = bi, next
	}
}

func (x *X) tolerant(fr *frame, ci *cinstr) {
	defer func() {
		if r := recover(); r != nil {
			var msg string
			switch r := r.(type) {
			case unsupported:
				msg = r.msg
			case targetPanic:
				msg = "panic during init"
			case engineError:
				panic(r)
			case pathEnd:
				msg = r.kind
			case error:
				msg = "engine: " + r.Error()
			default:
				msg = fmt.Sprint(r)
			}
			if ci.dst >= 0 {
				fr.regs[ci.dst] = poison{msg}
			} else if st, ok := ci.in.(*ssa.Store); ok {
				if g, ok := st.Addr.(*ssa.Global); ok {
					*x.globals[g] = poison{msg}
				}
			}
		}
	}()
	// operands that are poison propagate
	for _, o := range ci.ops {
		if o.slot >= 0 {
			if p, ok := fr.regs[o.slot].(poison); ok {
				if ci.dst >= 0 {
					fr.regs[ci.dst] = p
					return
				}
				if st, ok := ci.in.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok {
						*x.globals[g] = p
					}
				}
				return
			}
		}
	}
	x.exec(fr, ci)
}

// callFn calls a target function with arguments.
func (x *X) callFn(caller *frame, fn *ssa.Function, args []value, env []value) value {
	fi := x.P.info(fn)
	if fi.intr != nil {
		return fi.intr(x, caller, args)
	}
	if fn.Blocks == nil {
		panic(unsupported{"external function " + fi.name})
	}
	if v, ok := x.tabulate(caller, fi, args); ok {
		return v
	}
	return x.callBody(caller, fi, args, env)
}

func (x *X) callBody(caller *frame, fi *funcInfo, args []value, env []value) value {
	if x.initDepth == 0 && !x.inTab {
		x.funcsRun[fi] = true
	}
	fr := &frame{fi: fi, caller: caller}
	if caller != nil {
		fr.depth = caller.depth + 1
		if fr.depth > 300 {
			panic(pathEnd{"call depth bound"})
		}
	}
	fr.regs = make([]value, fi.nslots)
	for i, s := range fi.params {
		fr.regs[s] = args[i]
	}
	for i, s := range fi.free {
		fr.regs[s] = env[i]
	}
	x.cur = fr
	x.runFrame(fr)
	x.cur = caller
	return fr.result
}

func (x *X) runFrame(fr *frame) {
	if fr.fi.fn.Recover == nil && !hasDefer(fr.fi.fn) {
		x.loop(fr, 0)
		return
	}
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			tp, ok := r.(targetPanic)
			if !ok {
				panic(r) // engine-level unwinding
			}
			fr.panicking = true
			fr.panicVal = tp.v
			x.runDefers(fr) // re-panics unless recovered
			if fr.fi.fn.Recover != nil {
				x.cur = fr
				x.loop(fr, fr.fi.fn.Recover.Index)
				return
			}
			fr.result = x.zeroResults(fr.fi.fn)
		}()
		x.loop(fr, 0)
	}()
}

func (x *X) zeroResults(fn *ssa.Function) value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return x.zero(r.At(0).Type())
	}
	t := make(tuple, r.Len())
	for i := range t {
		t[i] = x.zero(r.At(i).Type())
	}
	return t
}

var deferCache sync.Map

func hasDefer(fn *ssa.Function) bool {
	if v, ok := deferCache.Load(fn); ok {
		return v.(bool)
	}
	r := false
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Defer); ok {
				r = true
			}
		}
	}
	deferCache.Store(fn, r)
	return r
}

func (x *X) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				r := recover()
				if r == nil {
					return
				}
				tp, ok := r.(targetPanic)
				if !ok {
					panic(r)
				}
				fr.panicking = true
				fr.panicVal = tp.v
			}()
			x.curDefer = append(x.curDefer, fr)
			defer func() { x.curDefer = x.curDefer[:len(x.curDefer)-1] }()
			x.callValue(fr, d.fn, d.args)
		}()
	}
	if fr.panicking {
		panic(targetPanic{fr.panicVal})
	}
}

// doRecover implements recover(): caller is the frame executing recover.
func (x *X) doRecover(fr *frame) value {
	// fr must have been called directly by a frame running its defers
	if fr.caller != nil && fr.caller.panicking && len(x.curDefer) > 0 && x.curDefer[len(x.curDefer)-1] == fr.caller {
		if _, ok := fr.caller.panicVal.(goexitVal); ok {
			return iface{}
		}
		fr.caller.panicking = false
		v := fr.caller.panicVal
		fr.caller.panicVal = nil
		if i, ok := v.(iface); ok {
			return i
		}
		return iface{}
	}
	return iface{}
}

// callValue calls a func value.
func (x *X) callValue(caller *frame, fn value, args []value) value {
	switch f := fn.(type) {
	case *ssa.Function:
		if f == nil {
			x.rtPanic("invalid memory address or nil pointer dereference")
		}
		return x.callFn(caller, f, args, nil)
	case *closure:
		if f == nil {
			x.rtPanic("invalid memory address or nil pointer dereference")
		}
		return x.callFn(caller, f.fn, args, f.env)
	case *nativeFn:
		return f.f(x, args)
	case *ssa.Builtin:
		return x.builtin(caller, f, args, nil)
	case nil:
		x.rtPanic("invalid memory address or nil pointer dereference")
	}
	panic(unsupported{fmt.Sprintf("call of %T", fn)})
}

// prepareCall resolves callee and arguments.
func (x *X) prepareCall(fr *frame, ci *cinstr, c *ssa.CallCommon) (value, []value) {
	v := x.get(fr, ci.ops[0])
	if c.IsInvoke() {
		recv, ok := v.(iface)
		if !ok {
			panic(unsupported{fmt.Sprintf("invoke on %T", v)})
		}
		if recv.t == nil {
			x.rtPanic("invalid memory address or nil pointer dereference")
		}
		if no, ok := recv.v.(nativeObj); ok {
			args := make([]value, len(c.Args))
			for i := range c.Args {
				args[i] = x.get(fr, ci.ops[i+1])
			}
			name := c.Method.Name()
			return &nativeFn{name: name, f: func(x *X, a []value) value { return no.callMethod(x, name, a) }}, args
		}
		fn := x.lookupMethod(recv.t, c.Method)
		args := make([]value, 0, len(c.Args)+1)
		args = append(args, recv.v)
		for i := range c.Args {
			args = append(args, x.get(fr, ci.ops[i+1]))
		}
		return fn, args
	}
	args := make([]value, len(c.Args))
	for i := range c.Args {
		args[i] = x.get(fr, ci.ops[i+1])
	}
	return v, args
}

type methKey struct {
	t types.Type
	m string
}

func (x *X) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m.Id()}
	if f, ok := x.meths[k]; ok {
		return f
	}
	f := x.P.prog.LookupMethod(t, m.Pkg(), m.Name())
	if f == nil {
		panic(unsupported{"no method " + m.Name() + " on " + t.String()})
	}
	x.meths[k] = f
	return f
}

// methodByName finds an (exported) method on dynamic type t, or nil.
func (x *X) methodByName(t types.Type, name string) *ssa.Function {
	k := methKey{t, "?" + name}
	if f, ok := x.meths[k]; ok {
		return f
	}
	var f *ssa.Function
	ms := x.P.prog.MethodSets.MethodSet(t)
	if sel := ms.Lookup(nil, name); sel != nil {
		f = x.P.prog.MethodValue(sel)
	}
	x.meths[k] = f
	return f
}

func (x *X) loop(fr *frame, bi int) {
	prev := -1
	for {
		cb := &fr.fi.blocks[bi]
		if cb.phi > 0 && prev >= 0 {
			pi := -1
			for i, p := range cb.b.Preds {
				if p.Index == prev {
					pi = i
					break
				}
			}
			if cb.phi == 1 {
				fr.regs[cb.ins[0].dst] = x.get(fr, cb.ins[0].ops[pi])
			} else {
				tmp := make([]value, cb.phi)
				for k := 0; k < cb.phi; k++ {
					tmp[k] = x.get(fr, cb.ins[k].ops[pi])
				}
				for k := 0; k < cb.phi; k++ {
					fr.regs[cb.ins[k].dst] = tmp[k]
				}
			}
		}
	rescan:
		next := -1
		for k := cb.phi; k < len(cb.ins); k++ {
			ci := &cb.ins[k]
			x.steps++
			if x.steps > x.maxSteps {
				if x.inTab {
					panic(unsupported{"tabulation step bound"})
				}
				panic(pathEnd{"step bound"})
			}
			switch in := ci.in.(type) {
			case *ssa.Jump:
				next = cb.b.Succs[0].Index
			case *ssa.If:
				fr.pos = in
				c := x.get(fr, ci.ops[0]).(*Term)
				if c.isConst() {
					if c.isTrue() {
						next = cb.b.Succs[0].Index
					} else {
						next = cb.b.Succs[1].Index
					}
					break
				}
				if ci.merg != nil && x.tryMerge(fr, cb, ci.merg, c) {
					cb = &fr.fi.blocks[ci.merg.join.Index]
					bi = ci.merg.join.Index
					prev = -2
					goto rescan
				}
				if x.branch(c) {
					next = cb.b.Succs[0].Index
				} else {
					next = cb.b.Succs[1].Index
				}
			case *ssa.Return:
				switch len(ci.ops) {
				case 0:
				case 1:
					fr.result = x.get(fr, ci.ops[0])
				default:
					t := make(tuple, len(ci.ops))
					for i, o := range ci.ops {
						t[i] = x.get(fr, o)
					}
					fr.result = t
				}
				return
			case *ssa.Panic:
				fr.pos = in
				panic(targetPanic{x.get(fr, ci.ops[0])})
			case *ssa.RunDefers:
				x.runDefers(fr)
			default:
				x.exec(fr, ci)
			}
		}
		if next < 0 {
			panic(engineError{"fell off block in " + fr.fi.name})
		}
		prev, bi = bi, next
	}
}

// tryMerge evaluates both pure sides of an If and writes the join's phis as
// ite terms. It reports whether merging was possible.
func (x *X) tryMerge(fr *frame, cb *cblock, mi *mergeInfo, c *Term) bool {
	if x.noMerge {
		return false
	}
	join := &fr.fi.blocks[mi.join.Index]
	edge := func(side *ssa.BasicBlock) int {
		from := cb.b
		if side != nil {
			from = side
		}
		for i, p := range join.b.Preds {
			if p == from {
				return i
			}
		}
		return -1
	}
	// With duplicate direct edges the first matching index is right: both
	// successors equal was excluded.
	for _, side := range []*ssa.BasicBlock{mi.t, mi.f} {
		if side == nil {
			continue
		}
		sb := &fr.fi.blocks[side.Index]
		for k := range sb.ins {
			ci := &sb.ins[k]
			if _, ok := ci.in.(*ssa.Jump); ok {
				break
			}
			x.steps++
			x.exec(fr, ci)
		}
	}
	et, ef := edge(mi.t), edge(mi.f)
	if et < 0 || ef < 0 {
		return false
	}
	tmp := make([]value, join.phi)
	for k := 0; k < join.phi; k++ {
		a, ok1 := x.get(fr, join.ins[k].ops[et]).(*Term)
		b, ok2 := x.get(fr, join.ins[k].ops[ef]).(*Term)
		if !ok1 || !ok2 {
			return false
		}
		tmp[k] = x.T.Ite(c, a, b)
	}
	for k := 0; k < join.phi; k++ {
		fr.regs[join.ins[k].dst] = tmp[k]
	}
	x.merges++
	return true
}

func (x *X) exec(fr *frame, ci *cinstr) {
	fr.pos = ci.in
	switch in := ci.in.(type) {
	case *ssa.DebugRef:
	case *ssa.BinOp:
		fr.regs[ci.dst] = x.binop(in.Op, in.X.Type(), x.get(fr, ci.ops[0]), x.get(fr, ci.ops[1]), in.Y.Type())
	case *ssa.UnOp:
		fr.regs[ci.dst] = x.unop(in, x.get(fr, ci.ops[0]))
	case *ssa.Call:
		fn, args := x.prepareCall(fr, ci, &in.Call)
		var r value
		if b, ok := fn.(*ssa.Builtin); ok {
			r = x.builtin(fr, b, args, in)
		} else {
			r = x.callValue(fr, fn, args)
		}
		x.cur = fr
		fr.regs[ci.dst] = r
	case *ssa.Defer:
		fn, args := x.prepareCall(fr, ci, &in.Call)
		fr.defers = append(fr.defers, deferred{fn: fn, args: args, instr: in})
	case *ssa.Go:
		fn, args := x.prepareCall(fr, ci, &in.Call)
		x.goStmt(fr, fn, args)
	case *ssa.ChangeInterface:
		fr.regs[ci.dst] = x.get(fr, ci.ops[0])
	case *ssa.ChangeType:
		fr.regs[ci.dst] = x.get(fr, ci.ops[0])
	case *ssa.Convert:
		fr.regs[ci.dst] = x.convert(in.Type(), in.X.Type(), x.get(fr, ci.ops[0]))
	case *ssa.MultiConvert:
		fr.regs[ci.dst] = x.convert(in.Type(), in.X.Type(), x.get(fr, ci.ops[0]))
	case *ssa.Extract:
		fr.regs[ci.dst] = x.get(fr, ci.ops[0]).(tuple)[in.Index]
	case *ssa.Field:
		fr.regs[ci.dst] = x.get(fr, ci.ops[0]).(structure)[in.Field]
	case *ssa.FieldAddr:
		p := x.ptr(x.get(fr, ci.ops[0]))
		if p == nil {
			x.rtPanic("invalid memory address or nil pointer dereference")
		}
		s, ok := (*p).(structure)
		if !ok {
			if po, ok := (*p).(poison); ok {
				panic(unsupported{"poison: " + po.msg})
			}
			panic(unsupported{fmt.Sprintf("field address of %T in %s", *p, fr.fi.name)})
		}
		fr.regs[ci.dst] = &s[in.Field]
	case *ssa.Index:
		fr.regs[ci.dst] = x.index(x.get(fr, ci.ops[0]), x.get(fr, ci.ops[1]), in.Index.Type())
	case *ssa.IndexAddr:
		fr.regs[ci.dst] = x.indexAddr(x.get(fr, ci.ops[0]), x.get(fr, ci.ops[1]), in.Index.Type())
	case *ssa.Lookup:
		fr.regs[ci.dst] = x.lookup(in, x.get(fr, ci.ops[0]), x.get(fr, ci.ops[1]))
	case *ssa.MakeChan:
		fr.regs[ci.dst] = &chanv{cap: x.concInt(x.get(fr, ci.ops[0]), "channel size")}
	case *ssa.MakeClosure:
		env := make([]value, len(ci.ops)-1)
		for i := range env {
			env[i] = x.get(fr, ci.ops[i+1])
		}
		fr.regs[ci.dst] = &closure{fn: ci.ops[0].fn.(*ssa.Function), env: env}
	case *ssa.MakeInterface:
		fr.regs[ci.dst] = iface{t: in.X.Type(), v: copyVal(x.get(fr, ci.ops[0]))}
	case *ssa.MakeMap:
		fr.regs[ci.dst] = newMap(under(in.Type()).(*types.Map).Key())
	case *ssa.MakeSlice:
		n := x.concInt(x.get(fr, ci.ops[0]), "make length")
		c := n
		if ci.ops[1].slot >= 0 || ci.ops[1].cst != nil {
			c = x.concInt(x.get(fr, ci.ops[1]), "make capacity")
		}
		if n < 0 || n > 1<<40 {
			x.rtPanic("makeslice: len out of range")
		}
		if c < n || c > 1<<40 {
			x.rtPanic("makeslice: cap out of range")
		}
		if c > 1<<20 {
			panic(unsupported{"large allocation"})
		}
		el := under(in.Type()).(*types.Slice).Elem()
		s := make([]value, c)
		switch under(el).(type) {
		case *types.Struct, *types.Array:
			for i := range s {
				s[i] = x.zero(el)
			}
		default:
			z := x.zero(el)
			for i := range s {
				s[i] = z
			}
		}
		fr.regs[ci.dst] = s[:n]
	case *ssa.MapUpdate:
		x.mapSet(x.get(fr, ci.ops[0]).(*mapv), x.get(fr, ci.ops[1]), x.get(fr, ci.ops[2]))
	case *ssa.Next:
		fr.regs[ci.dst] = x.next(in, x.get(fr, ci.ops[0]))
	case *ssa.Range:
		switch v := x.get(fr, ci.ops[0]).(type) {
		case *mapv:
			it := &mapIter{m: v, mode: x.mapOrder}
			if v != nil {
				x.checkGuard(v, false)
				for _, e := range v.ents {
					if !e.dead {
						it.rem = append(it.rem, e)
					}
				}
			}
			fr.regs[ci.dst] = it
		case *Str:
			fr.regs[ci.dst] = &strIter{s: x.fix(v)}
		default:
			panic(unsupported{fmt.Sprintf("range over %T", v)})
		}
	case *ssa.Send:
		ch, _ := x.get(fr, ci.ops[0]).(*chanv)
		x.send(ch, x.get(fr, ci.ops[1]))
	case *ssa.Slice:
		var lo, hi, mx value
		if in.Low != nil {
			lo = x.get(fr, ci.ops[1])
		}
		if in.High != nil {
			hi = x.get(fr, ci.ops[2])
		}
		if in.Max != nil {
			mx = x.get(fr, ci.ops[3])
		}
		fr.regs[ci.dst] = x.slice(x.get(fr, ci.ops[0]), lo, hi, mx)
	case *ssa.SliceToArrayPointer:
		fr.regs[ci.dst] = x.sliceToArrayPtr(in, x.get(fr, ci.ops[0]))
	case *ssa.Store:
		a := x.get(fr, ci.ops[0])
		p := x.ptr(a)
		x.checkGuardStore(fr, p)
		x.store(p, x.get(fr, ci.ops[1]))
	case *ssa.TypeAssert:
		fr.regs[ci.dst] = x.typeAssert(in, x.get(fr, ci.ops[0]))
	case *ssa.Select:
		fr.regs[ci.dst] = x.selectStmt(fr, in, ci)
	case *ssa.Alloc:
		p := new(value)
		*p = x.zero(under(in.Type()).(*types.Pointer).Elem())
		fr.regs[ci.dst] = p
	default:
		panic(unsupported{fmt.Sprintf("instruction %T", in)})
	}
}

func (x *X) selectStmt(fr *frame, in *ssa.Select, ci *cinstr) value {
	r := tuple{x.T.Const(^uint64(0), 64), x.T.False}
	for _, st := range in.States {
		if st.Dir == types.RecvOnly {
			r = append(r, x.zero(under(st.Chan.Type()).(*types.Chan).Elem()))
		}
	}
	chans := make([]*chanv, len(in.States))
	for i := range in.States {
		chans[i], _ = x.get(fr, ci.ops[2*i]).(*chanv)
	}
	ready := func() []int {
		var l []int
		for i, st := range in.States {
			ch := chans[i]
			if ch == nil {
				continue
			}
			if st.Dir == types.RecvOnly {
				if x.chanReady(ch) {
					l = append(l, i)
				}
			} else if ch.closed || len(ch.buf) < ch.cap || (ch.cap == 0 && ch.waiting > 0 && len(ch.buf) == 0) {
				l = append(l, i)
			}
		}
		return l
	}
	if in.Blocking {
		if len(ready()) == 0 && !x.blockable() {
			panic(unsupported{"blocking select"})
		}
		for _, ch := range chans {
			if ch != nil {
				ch.waiting++
			}
		}
		func() {
			defer func() {
				for _, ch := range chans {
					if ch != nil {
						ch.waiting--
					}
				}
			}()
			x.yield(func() bool { return len(ready()) > 0 })
		}()
	} else {
		x.yield(nil)
	}
	l := ready()
	if len(l) == 0 {
		return r
	}
	i := l[x.choose(len(l), "select")]
	st := in.States[i]
	r[0] = x.T.Int(i)
	if st.Dir == types.RecvOnly {
		ri := 2
		for k := 0; k < i; k++ {
			if in.States[k].Dir == types.RecvOnly {
				ri++
			}
		}
		v, ok := x.recvReady(chans[i], x.zero(under(st.Chan.Type()).(*types.Chan).Elem()))
		r[1] = x.T.Bool(ok)
		r[ri] = v
		return r
	}
	if chans[i].closed {
		x.rtPanic("send on closed channel")
	}
	x.hbBoth(chans[i])
	x.chanBuf(chans[i], append(append([]value{}, chans[i].buf...), x.get(fr, ci.ops[2*i+1])))
	return r
}

func (x *X) recv(ch *chanv, el types.Type) (value, bool) {
	if ch == nil {
		panic(unsupported{"receive from a nil channel"})
	}
	if !x.chanReady(ch) && !x.blockable() {
		panic(unsupported{"blocking channel receive"})
	}
	ch.waiting++
	func() {
		defer func() { ch.waiting-- }()
		x.yield(func() bool { return x.chanReady(ch) })
	}()
	return x.recvReady(ch, x.zero(el))
}

// goStmt starts a thread; whether it runs at once or later is a decision.
func (x *X) goStmt(fr *frame, fn value, args []value) {
	x.goStmts++
	if x.initDepth > 0 {
		x.callValue(fr, fn, args)
		return
	}
	t := x.spawn("goroutine", func() { x.callValue(nil, fn, args) })
	if x.choose(2, "go") == 0 {
		s := x.sched
		me := s.thr[s.cur]
		me.cond = nil
		s.cur = t.id
		x.park(me)
	}
}

// rtPanic raises a Go runtime error in the target.
func (x *X) rtPanic(msg string) {
	x.lastPanicAt = x.where()
	panic(targetPanic{iface{t: x.runtimeErrT, v: mkStr(msg)}})
}

func (x *X) where() string {
	var sb strings.Builder
	n := 0
	for fr := x.cur; fr != nil && n < 6; fr = fr.caller {
		if fr.pos != nil {
			p := x.P.fset.Position(fr.pos.Pos())
			if p.IsValid() {
				fn := p.Filename
				if i := strings.LastIndexByte(fn, '/'); i >= 0 {
					fn = fn[i+1:]
				}
				fmt.Fprintf(&sb, "%s:%d(%s) < ", fn, p.Line, fr.fi.fn.Name())
			} else {
				fmt.Fprintf(&sb, "%s < ", fr.fi.fn.Name())
			}
		}
		n++
	}
	return strings.TrimSuffix(sb.String(), " < ")
}
