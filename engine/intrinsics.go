package main

import (
	"bytes"
	"crypto/hmac"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"fmt"
	"go/token"
	"go/types"
	"net/textproto"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// skipInit lists packages whose initialiser is not needed.
var skipInit = map[string]bool{
	"runtime": true, "internal/cpu": true, "internal/runtime/sys": true, "crypto/internal/fips140": true,
	"crypto/internal/fips140/drbg": true, "crypto/internal/sysrand": true, "os": true, "syscall": true, "internal/poll": true,
	"crypto/tls": true, "crypto/x509": true, "log": false, "testing": true, "flag": true, "reflect": true,
}

var globalOverrides = map[string]func(x *X, pkg *ssa.Package){}

var vfTag = ".vf"

var intrinsics map[string]intrinsic
var vfIntrinsics map[string]intrinsic
var underTest string // import path of the package under test

func lookupIntrinsic(name string, fn *ssa.Function) intrinsic {
	if fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), underTest) && fn.Signature.Recv() == nil {
		if f, ok := vfIntrinsics[fn.Name()]; ok {
			return f
		}
	}
	if f, ok := intrinsics[name]; ok {
		return f
	}
	if f, ok := testingIntr[name]; ok {
		return f
	}
	return nil
}

func wrap0(f func(x *X, a []value) value) intrinsic {
	return func(x *X, _ *frame, a []value) value { return f(x, a) }
}

func nop(r ...value) intrinsic {
	return func(x *X, _ *frame, a []value) value {
		switch len(r) {
		case 0:
			return nil
		case 1:
			return r[0]
		}
		return tuple(r)
	}
}

// errorIface builds an error value via errors.New.
func (x *X) mkError(msg *Str) value {
	return x.callFn(x.cur, x.P.fn("errors", "New"), []value{msg}, nil)
}

func (x *X) nilErr() value { return iface{} }

// ---------- byte search helpers ----------

func (x *X) idxByte(b []*Term, c *Term, from int) int {
	for i := from; i < len(b); i++ {
		if x.branch(x.T.Eq(b[i], c)) {
			return i
		}
	}
	return -1
}

func (x *X) matchAt(b, sub []*Term, i int) *Term {
	r := x.T.True
	for k := range sub {
		r = x.T.And(r, x.T.Eq(b[i+k], sub[k]))
	}
	return r
}

func (x *X) idxSub(b, sub []*Term) int {
	for i := 0; i+len(sub) <= len(b); i++ {
		if x.branch(x.matchAt(b, sub, i)) {
			return i
		}
	}
	return -1
}

func (x *X) lastIdxSub(b, sub []*Term) int {
	for i := len(b) - len(sub); i >= 0; i-- {
		if x.branch(x.matchAt(b, sub, i)) {
			return i
		}
	}
	return -1
}

// termsOf accepts *Str or []byte.
func (x *X) termsOf(v value) []*Term {
	switch v := v.(type) {
	case *Str:
		return x.strBytes(v)
	case []value:
		return x.bytesOf(v)
	}
	panic(unsupported{fmt.Sprintf("bytes of %T", v)})
}

func concBytes(b []*Term) ([]byte, bool) {
	r := make([]byte, len(b))
	for i, t := range b {
		if !t.isConst() {
			return nil, false
		}
		r[i] = byte(t.k)
	}
	return r, true
}

func (x *X) bytesEqual(a, b []*Term) *Term {
	if len(a) != len(b) {
		return x.T.False
	}
	return x.matchAt(a, b, 0)
}

func (x *X) constBytes(b []byte) []*Term {
	r := make([]*Term, len(b))
	for i := range b {
		r[i] = x.T.small8[b[i]]
	}
	return r
}

// ---------- ideal hash / MAC ----------

type macRec struct {
	tag      string
	key, msg []*Term
	out      []*Term
}

func (x *X) ideal(tag string, size int, key, msg []*Term, real func(k, m []byte) []byte) []*Term {
	kc, ok1 := concBytes(key)
	mc, ok2 := concBytes(msg)
	T := x.T
	var rec *macRec
	if ok1 && ok2 {
		rec = &macRec{tag, key, msg, x.constBytes(real(kc, mc))}
		for _, r := range x.macs {
			if r.tag == tag && x.bytesEqual(r.key, key).isTrue() && x.bytesEqual(r.msg, msg).isTrue() {
				return r.out
			}
		}
	} else {
		for _, r := range x.macs {
			if r.tag == tag && x.bytesEqual(r.key, key).isTrue() && x.bytesEqual(r.msg, msg).isTrue() {
				return r.out
			}
		}
		rec = &macRec{tag: tag, key: key, msg: msg}
		id := len(x.macs)
		for i := 0; i < size; i++ {
			rec.out = append(rec.out, T.Var(fmt.Sprintf("%s#%d.%d", tag, id, i), 8))
		}
	}
	for _, r := range x.macs {
		if r.tag != tag {
			continue
		}
		same := T.And(x.bytesEqual(r.key, key), x.bytesEqual(r.msg, msg))
		oeq := x.bytesEqual(r.out, rec.out)
		if same.isFalse() && oeq.isFalse() {
			continue
		}
		x.assume(T.Eq(same, oeq))
	}
	x.macs = append(x.macs, rec)
	return rec.out
}

type hashObj struct {
	tag  string
	size int
	key  []*Term
	buf  []*Term
	real func(k, m []byte) []byte
}

var fakeHashType = types.NewPointer(types.NewNamed(types.NewTypeName(token.NoPos, nil, "vfHash", nil), types.NewStruct(nil, nil), nil))

func (h *hashObj) callMethod(x *X, name string, a []value) value {
	switch name {
	case "Write":
		old := h.buf
		x.onUndo(func() { h.buf = old })
		b := x.bytesOf(a[0])
		h.buf = append(append([]*Term{}, h.buf...), b...)
		return tuple{x.T.Int(len(b)), iface{}}
	case "WriteString":
		old := h.buf
		x.onUndo(func() { h.buf = old })
		b := x.strBytes(a[0].(*Str))
		h.buf = append(append([]*Term{}, h.buf...), b...)
		return tuple{x.T.Int(len(b)), iface{}}
	case "Sum":
		out := x.ideal(h.tag, h.size, h.key, h.buf, h.real)
		pre, _ := a[0].([]value)
		return append(append([]value{}, pre...), x.mkBytes(out)...)
	case "Reset":
		old := h.buf
		x.onUndo(func() { h.buf = old })
		h.buf = nil
		return nil
	case "Size":
		return x.T.Int(h.size)
	case "BlockSize":
		return x.T.Int(64)
	}
	panic(unsupported{"hash method " + name})
}

func newHash(x *X, tag string) *hashObj {
	switch tag {
	case "sha256":
		return &hashObj{tag: tag, size: 32, real: func(_, m []byte) []byte { s := sha256.Sum256(m); return s[:] }}
	case "sha1":
		return &hashObj{tag: tag, size: 20, real: func(_, m []byte) []byte { s := sha1.Sum(m); return s[:] }}
	case "sha512":
		return &hashObj{tag: tag, size: 64, real: func(_, m []byte) []byte { s := sha512.Sum512(m); return s[:] }}
	}
	panic(unsupported{"hash " + tag})
}

func iHmacNew(x *X, caller *frame, a []value) value {
	// identify the hash constructor by calling it
	hv := x.callValue(caller, a[0], nil)
	h, ok := hv.(iface).v.(*hashObj)
	if !ok {
		panic(unsupported{"hmac over unknown hash"})
	}
	key := x.bytesOf(a[1])
	block := 64
	if h.tag == "sha512" {
		block = 128
	}
	if len(key) > block {
		key = x.ideal(h.tag, h.size, nil, key, h.real)
	}
	// HMAC zero-pads keys to the block size: strip trailing zeros so that
	// equivalent keys share a representation, then pad.
	kc, conc := concBytes(key)
	if conc {
		for len(kc) > 0 && kc[len(kc)-1] == 0 {
			kc = kc[:len(kc)-1]
		}
	}
	pad := append([]*Term{}, key...)
	for len(pad) < block {
		pad = append(pad, x.T.small8[0])
	}
	tag := h.tag
	real := func(k, m []byte) []byte {
		switch tag {
		case "sha256":
			hh := hmac.New(sha256.New, k)
			hh.Write(m)
			return hh.Sum(nil)
		case "sha1":
			hh := hmac.New(sha1.New, k)
			hh.Write(m)
			return hh.Sum(nil)
		}
		hh := hmac.New(sha512.New, k)
		hh.Write(m)
		return hh.Sum(nil)
	}
	return iface{t: fakeHashType, v: &hashObj{tag: "hmac-" + tag, size: h.size, key: pad, real: real}}
}

// ---------- clock ----------

type clockState struct {
	off *Term // seconds since the base instant
	ns  int   // sub-second part
}

const clockBaseUnix = 946684800 // 2000-01-01T00:00:00Z, testing/synctest's start
const unixToInternal = 62135596800

func (x *X) clk() *clockState {
	if x.clock == nil {
		x.clock = &clockState{off: x.T.Int(0)}
	}
	return x.clock
}

func iNow(x *X, caller *frame, a []value) value {
	if x.initDepth > 0 {
		return structure{x.T.Const(0, 64), x.T.Const(clockBaseUnix+unixToInternal, 64), (*value)(nil)}
	}
	c := x.clk()
	loc := x.load(x.global(x.P.ext["time"].Var("Local")))
	ext := x.T.Bin(OAdd, x.T.Const(clockBaseUnix+unixToInternal, 64), c.off)
	return structure{x.T.Int(c.ns), ext, loc}
}

// ---------- atomics ----------

func atomicAddr(x *X, v value) *value {
	p := x.ptr(v)
	if p == nil {
		x.rtPanic("invalid memory address or nil pointer dereference")
	}
	return p
}

func sortedMembers(pkg *ssa.Package) []string {
	var l []string
	for n := range pkg.Members {
		l = append(l, n)
	}
	sort.Strings(l)
	return l
}

// ---------- errors ----------

func (x *X) unwrapOne(e iface) iface {
	if e.t == nil {
		return iface{}
	}
	if no, ok := e.v.(nativeObj); ok {
		_ = no
		return iface{}
	}
	m := x.methodByName(e.t, "Unwrap")
	if m == nil || m.Signature.Results().Len() != 1 {
		return iface{}
	}
	r, ok := x.callFn(x.cur, m, []value{e.v}, nil).(iface)
	if !ok {
		return iface{}
	}
	return r
}

func iErrorsIs(x *X, caller *frame, a []value) value {
	e, tgt := a[0].(iface), a[1].(iface)
	if e.t == nil || tgt.t == nil {
		return x.T.Bool(e.t == nil && tgt.t == nil)
	}
	for e.t != nil {
		if identical(e.t, tgt.t) && types.Comparable(e.t) {
			if x.branch(x.equals(e.t, e.v, tgt.v)) {
				return x.T.True
			}
		}
		if m := x.methodByName(e.t, "Is"); m != nil {
			if x.branch(x.callFn(caller, m, []value{e.v, tgt}, nil).(*Term)) {
				return x.T.True
			}
		}
		e = x.unwrapOne(e)
	}
	return x.T.False
}

func iErrorsAs(x *X, caller *frame, a []value) value {
	e, tgt := a[0].(iface), a[1].(iface)
	if tgt.t == nil {
		x.rtPanic("errors: target cannot be nil")
	}
	pt, ok := under(tgt.t).(*types.Pointer)
	if !ok {
		x.rtPanic("errors: target must be a non-nil pointer")
	}
	el := pt.Elem()
	for e.t != nil {
		match := false
		it, isI := under(el).(*types.Interface)
		if isI {
			match = x.implements(e.t, it)
		} else {
			match = identical(e.t, el)
		}
		if match {
			if isI {
				x.store(x.ptr(tgt.v), e)
			} else {
				x.store(x.ptr(tgt.v), e.v)
			}
			return x.T.True
		}
		if m := x.methodByName(e.t, "As"); m != nil {
			if x.branch(x.callFn(caller, m, []value{e.v, tgt}, nil).(*Term)) {
				return x.T.True
			}
		}
		e = x.unwrapOne(e)
	}
	return x.T.False
}

// ---------- sort.Slice ----------

func iSortSlice(x *X, caller *frame, a []value) value {
	s := a[0].(iface).v.([]value)
	less := a[1]
	// stable insertion sort with the caller's comparison
	for i := 1; i < len(s); i++ {
		for j := i; j > 0; j-- {
			if !x.branch(x.callValue(caller, less, []value{x.T.Int(j), x.T.Int(j - 1)}).(*Term)) {
				break
			}
			p, q := copyVal(s[j]), copyVal(s[j-1])
			x.store(&s[j], q)
			x.store(&s[j-1], p)
		}
	}
	return nil
}

func (x *X) strArg(v value) *Str { return x.fix(v.(*Str)) }

// lowerTab maps ASCII upper to lower.
var lowerTab = func() []uint64 {
	r := make([]uint64, 256)
	for i := range r {
		r[i] = uint64(i)
		if i >= 'A' && i <= 'Z' {
			r[i] = uint64(i) + 32
		}
	}
	return r
}()

func iEqualFold(x *X, caller *frame, a []value) value {
	s, t := x.strArg(a[0]), x.strArg(a[1])
	if !s.sym && !t.sym {
		return x.T.Bool(strings.EqualFold(s.c, t.c))
	}
	T := x.T
	sb, tb := x.strBytes(s), x.strBytes(t)
	ascii := T.True
	for _, b := range append(append([]*Term{}, sb...), tb...) {
		ascii = T.And(ascii, T.Cmp(OUlt, b, T.Const(0x80, 8)))
	}
	if x.branch(ascii) {
		if len(sb) != len(tb) {
			return T.False
		}
		r := T.True
		for i := range sb {
			r = T.And(r, T.Eq(T.Tab(lowerTab, 8, sb[i]), T.Tab(lowerTab, 8, tb[i])))
		}
		return r
	}
	fi := x.P.info(x.P.fn("strings", "EqualFold"))
	return x.callBodyRaw(caller, fi, a)
}

// callBodyRaw runs a function body although an intrinsic exists for it.
func (x *X) callBodyRaw(caller *frame, fi *funcInfo, a []value) value {
	v, ok := x.P.infos.Load(rawKey{fi.fn})
	if !ok {
		nf := &funcInfo{fn: fi.fn}
		nf.buildRaw(x.P)
		v, _ = x.P.infos.LoadOrStore(rawKey{fi.fn}, nf)
	}
	return x.callBody(caller, v.(*funcInfo), a, nil)
}

type rawKey struct{ fn *ssa.Function }

func (fi *funcInfo) buildRaw(p *Prog) {
	fi.raw = true
	fi.build(p)
	fi.intr = nil
}

func (x *X) freshRand(n int) []byte {
	x.fresh++
	var out []byte
	for i := 0; len(out) < n; i++ {
		var b [16]byte
		binary.LittleEndian.PutUint64(b[:], uint64(x.fresh))
		binary.LittleEndian.PutUint64(b[8:], uint64(i))
		s := sha256.Sum256(append([]byte("vf-rand"), b[:]...))
		out = append(out, s[:]...)
	}
	return out[:n]
}

func iRandRead(x *X, caller *frame, a []value) value {
	buf := a[len(a)-1].([]value)
	b := x.freshRand(len(buf))
	for i := range buf {
		x.store(&buf[i], x.T.small8[b[i]])
	}
	return tuple{x.T.Int(len(buf)), iface{}}
}

func init() {
	I := map[string]intrinsic{}
	intrinsics = I

	// crypto
	mkh := func(tag string) intrinsic {
		return func(x *X, c *frame, a []value) value { return iface{t: fakeHashType, v: newHash(x, tag)} }
	}
	I["crypto/sha256.New"] = mkh("sha256")
	I["crypto/sha1.New"] = mkh("sha1")
	I["crypto/sha512.New"] = mkh("sha512")
	I["crypto/hmac.New"] = iHmacNew
	I["crypto/sha256.Sum256"] = func(x *X, c *frame, a []value) value {
		h := newHash(x, "sha256")
		out := x.ideal(h.tag, h.size, nil, x.bytesOf(a[0]), h.real)
		return array(x.mkBytes(out))
	}
	eqBytes := func(x *X, c *frame, a []value) value { return x.bytesEqual(x.termsOf(a[0]), x.termsOf(a[1])) }
	I["crypto/hmac.Equal"] = func(x *X, c *frame, a []value) value { x.ctCompares++; return eqBytes(x, c, a) }
	I["crypto/subtle.ConstantTimeCompare"] = func(x *X, c *frame, a []value) value {
		x.ctCompares++
		return x.T.Ite(x.bytesEqual(x.termsOf(a[0]), x.termsOf(a[1])), x.T.Int(1), x.T.Int(0))
	}
	I["bytes.Equal"] = eqBytes
	I["internal/bytealg.Equal"] = eqBytes
	I["(*crypto/rand.reader).Read"] = iRandRead
	I["crypto/rand.Read"] = iRandRead
	I["(crypto/internal/rand.reader).Read"] = iRandRead
	I["crypto/internal/fips140/drbg.Read"] = func(x *X, c *frame, a []value) value { iRandRead(x, c, a); return nil }
	I["crypto/rand.Text"] = func(x *X, c *frame, a []value) value {
		b := x.freshRand(26)
		for i := range b {
			b[i] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"[b[i]%32]
		}
		return mkStr(string(b))
	}

	// non-cryptographic randomness: a fixed arbitrary stream
	rr := func(x *X, c *frame, a []value) value {
		return x.T.Const(binary.LittleEndian.Uint64(x.freshRand(8)), 64)
	}
	I["math/rand.runtime_rand"] = rr
	I["math/rand/v2.runtime_rand"] = rr
	I["internal/rand.runtime_rand"] = rr

	// time
	I["time.Now"] = iNow
	I["time.Sleep"] = func(x *X, c *frame, a []value) value {
		d := x.concInt(a[0], "sleep")
		k := x.clk()
		old, oldNs := k.off, k.ns
		x.onUndo(func() { k.off, k.ns = old, oldNs })
		if d > 0 {
			n := k.ns + d%1000000000
			k.off = x.T.Bin(OAdd, k.off, x.T.Int(d/1000000000+n/1000000000))
			k.ns = n % 1000000000
		}
		return nil
	}
	I["time.runtimeNano"] = func(x *X, c *frame, a []value) value { return x.T.Int(1) }
	I["time.runtimeNow"] = nil
	delete(I, "time.runtimeNow")

	// sync
	initThreads(I)

	// runtime & friends
	for _, n := range []string{"runtime.KeepAlive", "runtime.SetFinalizer", "runtime.Gosched", "runtime.GC", "runtime.LockOSThread",
		"internal/race.Acquire", "internal/race.Release", "internal/race.ReleaseMerge", "internal/race.Enable", "internal/race.Disable", "internal/race.Read", "internal/race.Write",
		"internal/race.ReadRange", "internal/race.WriteRange", "internal/msan.Read", "internal/asan.Read",
		"(*internal/godebug.Setting).IncNonDefault", "(*internal/godebug.Setting).register", "internal/godebug.registerMetric", "internal/godebug.setUpdate", "internal/godebug.setNewIncNonDefault",
		"(*strings.Builder).copyCheck", "crypto/internal/fips140only.Enabled", "crypto/internal/boring/sig.StandardCrypto", "crypto/internal/fips140.RecordApproved", "crypto/internal/fips140.RecordNonApproved",
		"runtime.AddCleanup", "log.Printf", "log.Println", "log.Print", "runtime/debug.SetGCPercent", "internal/synctest.Run"} {
		I[n] = nop()
	}
	I["(*internal/godebug.Setting).Value"] = nop(emptyStr)
	I["internal/godebug.New"] = func(x *X, c *frame, a []value) value {
		p := new(value)
		*p = x.zero(x.P.ext["internal/godebug"].Type("Setting").Type())
		return p
	}
	I["internal/abi.NoEscape"] = func(x *X, c *frame, a []value) value { return a[0] }
	I["internal/abi.Escape"] = func(x *X, c *frame, a []value) value { return a[0] }
	I["os.Getenv"] = nop(emptyStr)
	I["syscall.Getenv"] = func(x *X, c *frame, a []value) value { return tuple{emptyStr, x.T.False} }
	I["runtime.GOMAXPROCS"] = func(x *X, c *frame, a []value) value { return x.T.Int(8) }
	I["runtime.NumCPU"] = func(x *X, c *frame, a []value) value { return x.T.Int(8) }
	I["runtime.Caller"] = func(x *X, c *frame, a []value) value {
		return tuple{x.T.Const(0, 64), emptyStr, x.T.Int(0), x.T.False}
	}

	// strings/bytes search
	I["internal/bytealg.MakeNoZero"] = func(x *X, c *frame, a []value) value {
		n := x.concInt(a[0], "MakeNoZero")
		r := make([]value, n)
		for i := range r {
			r[i] = x.T.small8[0]
		}
		return r
	}
	idxB := func(x *X, c *frame, a []value) value {
		ct := a[1].(*Term)
		if s, ok := a[0].(*Str); ok && ct.isConst() {
			s = x.fix(s)
			if !s.sym {
				return x.T.Int(strings.IndexByte(s.c, byte(ct.k)))
			}
		}
		return x.T.Int(x.idxByte(x.termsOf(a[0]), x.T.Trunc(ct, 8), 0))
	}
	for _, n := range []string{"strings.IndexByte", "bytes.IndexByte", "internal/bytealg.IndexByte", "internal/bytealg.IndexByteString", "internal/stringslite.IndexByte"} {
		I[n] = idxB
	}
	lastB := func(x *X, c *frame, a []value) value {
		ct := a[1].(*Term)
		b := x.termsOf(a[0])
		for i := len(b) - 1; i >= 0; i-- {
			if x.branch(x.T.Eq(b[i], x.T.Trunc(ct, 8))) {
				return x.T.Int(i)
			}
		}
		return x.T.Int(-1)
	}
	for _, n := range []string{"strings.LastIndexByte", "bytes.LastIndexByte", "internal/bytealg.LastIndexByte", "internal/bytealg.LastIndexByteString"} {
		I[n] = lastB
	}
	idx := func(x *X, c *frame, a []value) value {
		s, ok1 := a[0].(*Str)
		t, ok2 := a[1].(*Str)
		if ok1 && ok2 {
			s, t = x.fix(s), x.fix(t)
			if !s.sym && !t.sym {
				return x.T.Int(strings.Index(s.c, t.c))
			}
		}
		return x.T.Int(x.idxSub(x.termsOf(a[0]), x.termsOf(a[1])))
	}
	for _, n := range []string{"strings.Index", "bytes.Index", "internal/bytealg.Index", "internal/bytealg.IndexString", "internal/stringslite.Index"} {
		I[n] = idx
	}
	I["strings.LastIndex"] = func(x *X, c *frame, a []value) value {
		return x.T.Int(x.lastIdxSub(x.termsOf(a[0]), x.termsOf(a[1])))
	}
	I["bytes.LastIndex"] = I["strings.LastIndex"]
	cnt := func(x *X, c *frame, a []value) value {
		b := x.termsOf(a[0])
		ct := x.T.Trunc(a[1].(*Term), 8)
		n := 0
		for i := range b {
			if x.branch(x.T.Eq(b[i], ct)) {
				n++
			}
		}
		return x.T.Int(n)
	}
	I["internal/bytealg.Count"] = cnt
	I["internal/bytealg.CountString"] = cnt
	cmp := func(x *X, c *frame, a []value) value {
		as, bs := x.symStr(x.termsOf(a[0])), x.symStr(x.termsOf(a[1]))
		if !as.sym && !bs.sym {
			return x.T.Int(strings.Compare(as.c, bs.c))
		}
		if x.branch(x.strEq(as, bs)) {
			return x.T.Int(0)
		}
		if x.branch(x.strLess(as, bs)) {
			return x.T.Int(-1)
		}
		return x.T.Int(1)
	}
	for _, n := range []string{"strings.Compare", "bytes.Compare", "internal/bytealg.Compare", "internal/bytealg.CompareString"} {
		I[n] = cmp
	}
	hasP := func(x *X, c *frame, a []value) value {
		b, p := x.termsOf(a[0]), x.termsOf(a[1])
		if len(b) < len(p) {
			return x.T.False
		}
		return x.matchAt(b, p, 0)
	}
	I["strings.HasPrefix"] = hasP
	I["bytes.HasPrefix"] = hasP
	I["internal/stringslite.HasPrefix"] = hasP
	hasS := func(x *X, c *frame, a []value) value {
		b, p := x.termsOf(a[0]), x.termsOf(a[1])
		if len(b) < len(p) {
			return x.T.False
		}
		return x.matchAt(b, p, len(b)-len(p))
	}
	I["strings.HasSuffix"] = hasS
	I["bytes.HasSuffix"] = hasS
	I["internal/stringslite.HasSuffix"] = hasS
	I["strings.EqualFold"] = iEqualFold
	I["strings.Clone"] = func(x *X, c *frame, a []value) value { return a[0] }
	I["internal/stringslite.Clone"] = I["strings.Clone"]
	I["unique.Make"] = nil
	delete(I, "unique.Make")

	// native fast paths on concrete arguments
	I["net/textproto.CanonicalMIMEHeaderKey"] = func(x *X, c *frame, a []value) value {
		s := x.strArg(a[0])
		if !s.sym {
			return mkStr(textproto.CanonicalMIMEHeaderKey(s.c))
		}
		return x.callBodyRaw(c, x.P.info(x.P.fn("net/textproto", "CanonicalMIMEHeaderKey")), a)
	}
	concInt := func(pkg, name string) intrinsic {
		return func(x *X, c *frame, a []value) value {
			t := a[0].(*Term)
			if !t.isConst() {
				v := x.concretize(t, name)
				a = append([]value{x.T.Const(v, t.w)}, a[1:]...)
			}
			return x.callBodyRaw(c, x.P.info(x.P.fn(pkg, name)), a)
		}
	}
	I["strconv.Itoa"] = concInt("strconv", "Itoa")
	I["strconv.FormatInt"] = concInt("strconv", "FormatInt")
	I["strconv.FormatUint"] = concInt("strconv", "FormatUint")
	I["strings.ToLower"] = caseMap(true)
	I["strings.ToUpper"] = caseMap(false)
	I["sort.Strings"] = func(x *X, c *frame, a []value) value {
		s := a[0].([]value)
		all := true
		for _, e := range s {
			if e.(*Str).sym {
				all = false
			}
		}
		if all {
			t := make([]string, len(s))
			for i, e := range s {
				t[i] = e.(*Str).c
			}
			sort.Strings(t)
			for i := range s {
				x.store(&s[i], mkStr(t[i]))
			}
			return nil
		}
		for i := 1; i < len(s); i++ {
			for j := i; j > 0; j-- {
				if !x.branch(x.strLess(s[j].(*Str), s[j-1].(*Str))) {
					break
				}
				p, q := s[j], s[j-1]
				x.store(&s[j], q)
				x.store(&s[j-1], p)
			}
		}
		return nil
	}

	// errors, sort
	I["errors.Is"] = iErrorsIs
	I["errors.is"] = nil
	delete(I, "errors.is")
	I["errors.As"] = iErrorsAs
	I["sort.Slice"] = iSortSlice
	I["sort.SliceStable"] = iSortSlice

	initFmt(I)
	initUnicode(I)
	initJSON(I)
	initVF()
	for k, v := range I {
		if v == nil {
			delete(I, k)
		}
	}
	_ = bytes.Equal
}

func caseMap(lower bool) intrinsic {
	name := "ToUpper"
	if lower {
		name = "ToLower"
	}
	tab := make([]uint64, 256)
	for i := range tab {
		tab[i] = uint64(i)
		if lower && i >= 'A' && i <= 'Z' {
			tab[i] = uint64(i) + 32
		}
		if !lower && i >= 'a' && i <= 'z' {
			tab[i] = uint64(i) - 32
		}
	}
	return func(x *X, c *frame, a []value) value {
		s := x.strArg(a[0])
		if !s.sym {
			if lower {
				return mkStr(strings.ToLower(s.c))
			}
			return mkStr(strings.ToUpper(s.c))
		}
		T := x.T
		ascii := T.True
		for _, b := range s.b {
			ascii = T.And(ascii, T.Cmp(OUlt, b, T.Const(0x80, 8)))
		}
		if x.branch(ascii) {
			r := make([]*Term, len(s.b))
			for i, b := range s.b {
				r[i] = T.Tab(tab, 8, b)
			}
			return x.symStr(r)
		}
		raw := x.P.info(x.P.fn("strings", name))
		const win = 3
		nsym := 0
		for _, b := range s.b {
			if !b.isConst() {
				nsym++
			}
		}
		if nsym <= win+1 {
			return x.callBodyRaw(c, raw, a)
		}
		// longer ones: bytes beyond ASCII only within one window
		x.incomplete["strings."+name+": non-ASCII bytes more than 3 apart"]++
		p := x.choose(len(s.b), "case window")
		end := p + win
		if end > len(s.b) {
			end = len(s.b)
		}
		cond := T.Not(T.Cmp(OUlt, s.b[p], T.Const(0x80, 8)))
		for i, b := range s.b {
			if i < p || i >= end {
				cond = T.And(cond, T.Cmp(OUlt, b, T.Const(0x80, 8)))
			}
		}
		x.assume(cond)
		mid := x.termsOf(x.callBodyRaw(c, raw, []value{x.symStr(s.b[p:end])}))
		var r []*Term
		for _, b := range s.b[:p] {
			r = append(r, T.Tab(tab, 8, b))
		}
		r = append(r, mid...)
		for _, b := range s.b[end:] {
			r = append(r, T.Tab(tab, 8, b))
		}
		return x.symStr(r)
	}
}
