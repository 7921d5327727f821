package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Threads. Every thread of the program under test is a goroutine of the
// engine; exactly one of them holds the baton at any time. Threads switch at
// synchronisation operations only: where a thread blocks or ends, to any
// enabled thread, and before an operation at the cost of one pre-emption.
// Which thread goes on is a decision of the path like any other. Between
// synchronisation operations a thread runs alone, which loses no behaviour as
// long as there is no data race; data races are detected on the same paths
// with vector clocks (happens-before).

type thr struct {
	id       int
	done     bool
	cond     func() bool // nil: enabled
	wake     chan struct{}
	end      chan struct{}
	vc       []int
	cur      *frame
	curDefer []*frame
	what     string
}

type sched struct {
	thr     []*thr
	cur     int
	pre     int // pre-emptions left
	abort   interface{}
	killed  bool
	pending map[*value]int // writers waiting for a read-write lock
}

// threadPanic is an uncaught panic of a thread other than the main one.
type threadPanic struct{ p targetPanic }

func (x *X) ensureSched() *sched {
	if x.sched == nil {
		x.sched = &sched{pending: map[*value]int{}}
		x.sched.thr = []*thr{{id: 0, wake: make(chan struct{}), vc: []int{1}, what: "main"}}
	}
	return x.sched
}

func (s *sched) live() int {
	n := 0
	for _, t := range s.thr {
		if !t.done {
			n++
		}
	}
	return n
}

func vcJoin(a, b []int) []int {
	for len(a) < len(b) {
		a = append(a, 0)
	}
	for i, v := range b {
		if v > a[i] {
			a[i] = v
		}
	}
	return a
}

func vcCopy(a []int) []int { return append([]int{}, a...) }

// spawn creates a thread; it does not run before a switch.
func (x *X) spawn(what string, f func()) *thr {
	s := x.ensureSched()
	parent := s.thr[s.cur]
	t := &thr{id: len(s.thr), wake: make(chan struct{}), end: make(chan struct{}), what: what}
	if t.id > 16 {
		panic(pathEnd{"thread bound"})
	}
	t.vc = vcCopy(parent.vc)
	for len(t.vc) <= t.id {
		t.vc = append(t.vc, 0)
	}
	t.vc[t.id] = 1
	parent.vc[parent.id]++
	s.thr = append(s.thr, t)
	go func() {
		<-t.wake
		if s.killed {
			close(t.end)
			return
		}
		x.cur, x.curDefer = nil, nil
		func() {
			defer func() {
				if r := recover(); r != nil && s.abort == nil && !s.killed {
					if tp, ok := r.(targetPanic); ok {
						r = threadPanic{tp}
					}
					if x.abortAt == "" {
						x.abortAt = x.where()
					}
					s.abort = r
				}
			}()
			f()
		}()
		t.done = true
		if s.killed {
			close(t.end)
			return
		}
		if s.abort == nil {
			func() {
				defer func() {
					if r := recover(); r != nil {
						s.abort = r
					}
				}()
				x.pickNext(t)
			}()
		}
		if s.abort != nil {
			s.cur = 0
		}
		n := s.thr[s.cur]
		close(t.end)
		n.wake <- struct{}{}
	}()
	return t
}

func (s *sched) enabled(t *thr) bool { return !t.done && (t.cond == nil || t.cond()) }

// pickNext chooses the thread that goes on after t has blocked or ended.
func (x *X) pickNext(t *thr) {
	s := x.sched
	var en []int
	for _, o := range s.thr {
		if o != t && s.enabled(o) {
			en = append(en, o.id)
		}
	}
	if len(en) == 0 {
		x.deadlock()
	}
	s.cur = en[x.choose(len(en), "thread")]
}

func (x *X) deadlock() {
	var l []string
	if x.sched != nil {
		for _, t := range x.sched.thr {
			if !t.done {
				l = append(l, fmt.Sprintf("%s at %s", t.what, x.thrWhere(t)))
			}
		}
	}
	x.lastPanicAt = "deadlock: " + strings.Join(l, "; ")
	x.assertProp(x.T.False, "no-deadlock")
	panic(pathEnd{"infeasible"})
}

func (x *X) thrWhere(t *thr) string {
	if t.id == x.sched.cur {
		return x.where()
	}
	old := x.cur
	x.cur = t.cur
	w := x.where()
	x.cur = old
	return w
}

// yield is called before a synchronisation operation that can proceed when
// cond holds (nil: always). It returns when the operation may proceed.
func (x *X) yield(cond func() bool) {
	if x.initDepth > 0 {
		return
	}
	s := x.sched
	if s == nil || s.live() == 1 {
		if cond != nil && !cond() {
			x.deadlock()
		}
		return
	}
	t := s.thr[s.cur]
	if cond == nil || cond() {
		// may go on; or be pre-empted
		if s.pre <= 0 {
			return
		}
		var en []int
		for _, o := range s.thr {
			if o != t && s.enabled(o) {
				en = append(en, o.id)
			}
		}
		if len(en) == 0 {
			return
		}
		k := x.choose(1+len(en), "preempt")
		if k == 0 {
			return
		}
		s.pre--
		t.cond = cond
		s.cur = en[k-1]
		x.park(t)
	} else {
		t.cond = cond
		x.pickNext(t)
		x.park(t)
	}
	t.cond = nil
}

// park hands the baton to s.cur and waits for it to come back.
func (x *X) park(t *thr) {
	s := x.sched
	t.cur, t.curDefer = x.cur, x.curDefer
	s.thr[s.cur].wake <- struct{}{}
	<-t.wake
	if s.killed {
		panic(pathEnd{"killed"})
	}
	if s.abort != nil && t.id == 0 {
		panic(s.abort)
	}
	x.cur, x.curDefer = t.cur, t.curDefer
}

// killThreads ends the threads of a finished path.
func (x *X) killThreads() {
	s := x.sched
	if s == nil {
		return
	}
	s.killed = true
	for _, t := range s.thr[1:] {
		if !t.done {
			t.wake <- struct{}{}
		}
		<-t.end
	}
	x.sched = nil
}

// joinThreads blocks the main thread until the given ones are done.
func (x *X) joinThreads(l []*thr) {
	s := x.sched
	x.yieldBlock(func() bool {
		for _, t := range l {
			if !t.done {
				return false
			}
		}
		return true
	})
	m := s.thr[s.cur]
	for _, t := range l {
		m.vc = vcJoin(m.vc, t.vc)
	}
}

// yieldBlock waits for cond without being a pre-emption point.
func (x *X) yieldBlock(cond func() bool) {
	if cond() {
		return
	}
	s := x.sched
	if s == nil {
		x.deadlock()
	}
	t := s.thr[s.cur]
	t.cond = cond
	x.pickNext(t)
	x.park(t)
	t.cond = nil
}

// ---- happens-before ----

type hbAcc struct {
	tid, clk int
	at       *frame
	pos      ssa.Instruction
}

func (x *X) hbWhere(a hbAcc) string {
	if a.at == nil || a.pos == nil {
		return "?"
	}
	p := x.P.fset.Position(a.pos.Pos())
	fn := p.Filename
	if i := strings.LastIndexByte(fn, '/'); i >= 0 {
		fn = fn[i+1:]
	}
	return fmt.Sprintf("%s:%d(%s)", fn, p.Line, a.at.fi.fn.Name())
}

type hbCell struct {
	w     hbAcc
	reads []hbAcc
}

type hbState struct {
	cells map[interface{}]*hbCell
	syncW map[interface{}][]int // released by writers and everybody else
	syncR map[interface{}][]int // released by readers
}

func (x *X) hb() *hbState {
	if x.hbs == nil {
		x.hbs = &hbState{cells: map[interface{}]*hbCell{}, syncW: map[interface{}][]int{}, syncR: map[interface{}][]int{}}
	}
	return x.hbs
}

func (x *X) racing() bool { return x.sched != nil && x.initDepth == 0 && x.sched.live() > 1 }

func (x *X) me() *thr {
	if x.sched == nil {
		return nil
	}
	return x.sched.thr[x.sched.cur]
}

func (x *X) hbRelease(k interface{}, reader bool) {
	if t := x.me(); t != nil {
		h := x.hb()
		m := h.syncW
		if reader {
			m = h.syncR
		}
		m[k] = vcJoin(vcCopy(m[k]), t.vc)
		t.vc[t.id]++
	}
}

func (x *X) hbAcquire(k interface{}, readersToo bool) {
	if t := x.me(); t != nil {
		h := x.hb()
		t.vc = vcJoin(t.vc, h.syncW[k])
		if readersToo {
			t.vc = vcJoin(t.vc, h.syncR[k])
		}
	}
}

func (x *X) hbBoth(k interface{}) {
	x.hbAcquire(k, false)
	x.hbRelease(k, false)
}

// access records a read or write of a memory cell or map.
func (x *X) access(k interface{}, write bool) {
	t := x.me()
	h := x.hb()
	c := h.cells[k]
	if c == nil {
		c = &hbCell{w: hbAcc{tid: -1}}
		h.cells[k] = c
	}
	after := func(a hbAcc) bool { // a happened before now
		return a.tid < 0 || a.tid == t.id || (a.tid < len(t.vc) && a.clk <= t.vc[a.tid])
	}
	var bad *hbAcc
	if !after(c.w) {
		bad = &c.w
	}
	if write {
		for i := range c.reads {
			if !after(c.reads[i]) {
				bad = &c.reads[i]
			}
		}
	}
	if bad != nil {
		x.lastPanicAt = "race: " + x.hbWhere(*bad) + " / " + x.where()
		x.assertProp(x.T.False, "data-race")
		panic(pathEnd{"infeasible"})
	}
	a := hbAcc{tid: t.id, clk: t.vc[t.id], at: x.cur}
	if x.cur != nil {
		a.pos = x.cur.pos
	}
	if write {
		c.w = a
		c.reads = nil
		return
	}
	for i := range c.reads {
		if c.reads[i].tid == t.id {
			c.reads[i] = a
			return
		}
	}
	c.reads = append(c.reads, a)
}

func (x *X) accessCell(p *value, write bool, depth int) {
	switch s := (*p).(type) {
	case structure:
		if depth < 4 {
			for i := range s {
				x.accessCell(&s[i], write, depth+1)
			}
		}
		return
	case array:
		if depth < 4 && len(s) <= 64 {
			for i := range s {
				x.accessCell(&s[i], write, depth+1)
			}
		}
		return
	}
	x.access(p, write)
}

func (x *X) checkGuard(m *mapv, write bool) {
	if m == nil || !x.racing() {
		return
	}
	x.access(m, write)
}

func (x *X) checkGuardLoad(p *value) {
	if p == nil || !x.racing() {
		return
	}
	x.accessCell(p, false, 0)
}

func (x *X) checkGuardStore(fr *frame, p *value) {
	if p == nil || !x.racing() {
		return
	}
	x.accessCell(p, true, 0)
}

func (x *X) checkGuardSlice(s []value) {
	if !x.racing() {
		return
	}
	for i := range s {
		x.accessCell(&s[i], false, 0)
	}
}

// ---- locks ----

func iLock(write bool) intrinsic {
	return func(x *X, caller *frame, a []value) value {
		p := atomicAddr(x, a[0])
		if write {
			free := func() bool { return x.held[p] == 0 }
			if x.sched != nil && x.held[p] > 0 {
				// readers inside: new readers wait from now on
				s := x.sched
				s.pending[p]++
				x.yield(free)
				s.pending[p]--
			} else {
				x.yield(free)
			}
			x.held[p] = -1
		} else {
			x.yield(func() bool { return x.held[p] >= 0 && (x.sched == nil || x.sched.pending[p] == 0) })
			x.held[p]++
		}
		x.hbAcquire(p, write)
		x.acqs++
		return nil
	}
}

func iUnlock(write bool) intrinsic {
	return func(x *X, caller *frame, a []value) value {
		p := atomicAddr(x, a[0])
		h := x.held[p]
		if (write && h != -1) || (!write && h <= 0) {
			x.assertProp(x.T.False, "unlock-of-unlocked")
			panic(pathEnd{"infeasible"})
		}
		x.hbRelease(p, !write)
		if write || h == 1 {
			delete(x.held, p)
		} else {
			x.held[p] = h - 1
		}
		return nil
	}
}

func iTryLock(write bool) intrinsic {
	return func(x *X, caller *frame, a []value) value {
		p := atomicAddr(x, a[0])
		x.yield(nil)
		h := x.held[p]
		if h < 0 || (write && h > 0) {
			return x.T.False
		}
		if write {
			x.held[p] = -1
		} else {
			x.held[p] = h + 1
		}
		x.hbAcquire(p, write)
		return x.T.True
	}
}

func initThreads(I map[string]intrinsic) {
	I["(*sync.Mutex).Lock"] = iLock(true)
	I["(*sync.Mutex).Unlock"] = iUnlock(true)
	I["(*sync.Mutex).TryLock"] = iTryLock(true)
	I["(*sync.RWMutex).Lock"] = iLock(true)
	I["(*sync.RWMutex).Unlock"] = iUnlock(true)
	I["(*sync.RWMutex).RLock"] = iLock(false)
	I["(*sync.RWMutex).RUnlock"] = iUnlock(false)
	I["(*sync.RWMutex).TryLock"] = iTryLock(true)
	I["(*sync.RWMutex).TryRLock"] = iTryLock(false)
	for _, n := range []string{"Lock", "Unlock", "TryLock"} {
		I["(*internal/sync.Mutex)."+n] = I["(*sync.Mutex)."+n]
	}
	add := func(x *X, p *value, n int) {
		old := x.wgs[p]
		x.wgs[p] = old + n
		x.onUndo(func() { x.wgs[p] = old })
	}
	I["(*sync.WaitGroup).Add"] = func(x *X, c *frame, a []value) value {
		p := atomicAddr(x, a[0])
		n := x.concInt(a[1], "waitgroup delta")
		if n < 0 {
			x.hbRelease(p, false)
		}
		add(x, p, n)
		return nil
	}
	I["(*sync.WaitGroup).Done"] = func(x *X, c *frame, a []value) value {
		p := atomicAddr(x, a[0])
		x.hbRelease(p, false)
		add(x, p, -1)
		return nil
	}
	I["(*sync.WaitGroup).Wait"] = func(x *X, c *frame, a []value) value {
		p := atomicAddr(x, a[0])
		x.yield(func() bool { return x.wgs[p] <= 0 })
		x.hbAcquire(p, false)
		return nil
	}
	I["(*sync.WaitGroup).Go"] = func(x *X, c *frame, a []value) value {
		p := atomicAddr(x, a[0])
		add(x, p, 1)
		x.goStmt(c, &nativeFn{name: "wg", f: func(x *X, _ []value) value {
			x.callValue(nil, a[1], nil)
			x.hbRelease(p, false)
			add(x, p, -1)
			return nil
		}}, nil)
		return nil
	}
	I["(*sync.Once).Do"] = func(x *X, c *frame, a []value) value {
		p := atomicAddr(x, a[0])
		if x.onces[p] == 1 && x.sched != nil {
			x.yield(func() bool { return x.onces[p] != 1 })
		}
		if x.onces[p] != 0 {
			x.hbAcquire(p, false)
			return nil
		}
		x.onces[p] = 1
		x.onUndo(func() { delete(x.onces, p) })
		defer func() {
			x.onces[p] = 2
			x.hbRelease(p, false)
		}()
		return x.callValue(c, a[1], nil)
	}
	I["(*sync.Pool).Get"] = func(x *X, c *frame, a []value) value {
		p := atomicAddr(x, a[0])
		if l := x.pools[p]; len(l) > 0 && x.initDepth == 0 {
			x.hbAcquire(p, false)
			v := l[len(l)-1]
			x.pools[p] = l[: len(l)-1 : len(l)-1]
			return v
		}
		s := (*p).(structure)
		nf := s[len(s)-1]
		if isNilVal(nf) {
			return iface{}
		}
		return x.callValue(c, nf, nil)
	}
	I["(*sync.Pool).Put"] = func(x *X, c *frame, a []value) value {
		p := atomicAddr(x, a[0])
		if x.initDepth > 0 || isNilVal(a[1]) {
			return nil
		}
		x.hbRelease(p, false)
		x.pools[p] = append(x.pools[p], a[1])
		return nil
	}
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		I["sync/atomic.Load"+ty] = func(x *X, c *frame, a []value) value {
			p := atomicAddr(x, a[0])
			x.yield(nil)
			x.hbAcquire(p, false)
			return x.load(p)
		}
		I["sync/atomic.Store"+ty] = func(x *X, c *frame, a []value) value {
			p := atomicAddr(x, a[0])
			x.yield(nil)
			x.hbBoth(p)
			x.store(p, a[1])
			return nil
		}
		I["sync/atomic.Swap"+ty] = func(x *X, c *frame, a []value) value {
			p := atomicAddr(x, a[0])
			x.yield(nil)
			x.hbBoth(p)
			old := x.load(p)
			x.store(p, a[1])
			return old
		}
		I["sync/atomic.Add"+ty] = func(x *X, c *frame, a []value) value {
			p := atomicAddr(x, a[0])
			x.yield(nil)
			x.hbBoth(p)
			nv := x.T.Bin(OAdd, x.load(p).(*Term), a[1].(*Term))
			x.store(p, nv)
			return nv
		}
		for op, o := range map[string]Op{"And": OAnd, "Or": OOr} {
			o := o
			I["sync/atomic."+op+ty] = func(x *X, c *frame, a []value) value {
				p := atomicAddr(x, a[0])
				x.yield(nil)
				x.hbBoth(p)
				old := x.load(p).(*Term)
				x.store(p, x.T.Bin(o, old, a[1].(*Term)))
				return old
			}
		}
		I["sync/atomic.CompareAndSwap"+ty] = func(x *X, c *frame, a []value) value {
			p := atomicAddr(x, a[0])
			x.yield(nil)
			x.hbBoth(p)
			if x.branch(x.equals(nil, x.load(p), a[1])) {
				x.store(p, a[2])
				return x.T.True
			}
			return x.T.False
		}
	}
	I["(*sync/atomic.Value).Load"] = func(x *X, c *frame, a []value) value {
		p := atomicAddr(x, a[0])
		x.yield(nil)
		x.hbAcquire(p, false)
		return x.load(p).(structure)[0]
	}
	I["(*sync/atomic.Value).Store"] = func(x *X, c *frame, a []value) value {
		p := atomicAddr(x, a[0])
		x.yield(nil)
		x.hbBoth(p)
		s := (*p).(structure)
		x.store(&s[0], a[1])
		return nil
	}
}

// ---- channels ----

func (x *X) chanBuf(ch *chanv, b []value) {
	old := ch.buf
	x.onUndo(func() { ch.buf = old })
	ch.buf = b
}

func (x *X) blockable() bool { return x.sched != nil && x.sched.live() > 1 }

func (x *X) send(ch *chanv, v value) {
	if ch == nil {
		panic(unsupported{"send on a nil channel"})
	}
	ready := func() bool { return ch.closed || len(ch.buf) < ch.cap || (ch.cap == 0 && len(ch.buf) == 0) }
	if !x.blockable() && (ch.cap == 0 || !ready()) && !ch.closed {
		if x.sched == nil {
			x.deadlock()
		}
	}
	x.yield(ready)
	if ch.closed {
		x.rtPanic("send on closed channel")
	}
	x.hbBoth(ch)
	x.chanBuf(ch, append(append([]value{}, ch.buf...), v))
	if ch.cap == 0 {
		n := ch.taken
		x.yieldBlock(func() bool { return ch.taken > n })
		x.hbAcquire(ch, false)
	}
}

func (x *X) chanReady(ch *chanv) bool { return len(ch.buf) > 0 || ch.closed }

func (x *X) recvReady(ch *chanv, zero value) (value, bool) {
	x.hbBoth(ch)
	if len(ch.buf) == 0 {
		return zero, false
	}
	v := ch.buf[0]
	x.chanBuf(ch, ch.buf[1:])
	ch.taken++
	x.onUndo(func() { ch.taken-- })
	return v, true
}
