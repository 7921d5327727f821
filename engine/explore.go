package main

// Path exploration: replay-based depth-first search, one incremental solver
// per worker, work shared by handing out shallow alternatives.

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type decKind uint8

const (
	dBranch decKind = iota
	dChoice
	dValue
)

type dec struct {
	kind   decKind
	val    uint64 // branch: 0/1; choice: index; value: the value tested
	taken  bool   // value: equality taken?
	n      int    // choice: arity
	hi     uint64 // choice: end of the range still owned here
	forced bool   // no constraint needs to be asserted
	// exploration state (not part of a job)
	alt      bool              // an alternative is pending
	altModel map[string]uint64 // model for the pending alternative
}

type job struct {
	decs  []dec
	model map[string]uint64
}

// Input is a named harness input.
type Input struct {
	Name string
	Kind string // bool,int,bytes,string,choice
	lo   int64
	t    *Term
	b    []*Term
	n    *Term
}

// Violation is a failed assertion with a concrete assignment.
type Violation struct {
	Harness string                 `json:"harness"`
	ID      string                 `json:"assert"`
	Where   string                 `json:"where"`
	Msg     string                 `json:"msg"`
	Inputs  map[string]interface{} `json:"inputs"`
	Order   []int                  `json:"map_order,omitempty"`
	Trace   []string               `json:"trace,omitempty"`
}

type Sample struct {
	Harness string                 `json:"harness"`
	Inputs  map[string]interface{} `json:"inputs"`
	Reached []string               `json:"reached"`
	Notes   []string               `json:"notes,omitempty"`
	Panic   string                 `json:"panic,omitempty"`
}

const maxViol = 4

// X is one worker.
type X struct {
	P *Prog
	T *Terms
	S *Solver

	globals map[*ssa.Global]*value
	inited  map[*ssa.Package]bool
	consts  map[*ssa.Const]value
	meths   map[methKey]*ssa.Function
	impl    map[implKey]bool

	// per path
	fixed       map[*Term]int
	journal     []undo
	initDepth   int
	steps       int
	maxSteps    int
	cur         *frame
	curDefer    []*frame
	backing     map[*value][]value
	decs        []dec
	pos         int // next decision in decs to replay
	asserted    int // decisions whose constraints are on the solver stack
	model       map[string]uint64
	inputs      []*Input
	names       map[string]int
	reached     map[string]bool
	notes       []note
	macs        []*macRec
	fresh       int
	clock       *clockState
	mapOrder    int
	orders      []int
	noMerge     bool
	inTab       bool
	held        map[*value]int
	NoDomains   bool
	doms        map[*Term]*bset
	ent         map[*Term]bool
	entSeen     map[*Term]bool
	entAll      bool
	domSat      int
	domUnsat    int
	lastPanicAt string
	testFailed  bool
	cleanups    []value
	acqs        int
	sched       *sched
	hbs         *hbState
	abortAt     string
	wgs         map[*value]int
	pools       map[*value][]value
	preBound    int
	ctCompares  int
	onces       map[*value]int
	encs        map[*value]*jenc

	runtimeErrT types.Type
	tabCache    map[string]value

	// stats
	ex         *Explorer
	merges     int
	goStmts    int
	funcsRun   map[*funcInfo]bool
	instrs     int64
	forcedN    int
	incomplete map[string]int
	harness    *ssa.Function
	pathStart  time.Time
}

type note struct {
	k string
	v *Str
}

// Explorer runs one harness.
type Explorer struct {
	P         *Prog
	Harness   *ssa.Function
	HName     string
	Tier      string
	Workers   int
	MaxSteps  int
	MaxPaths  int
	Deadline  time.Time
	TimeoutMs int
	Solver    string
	Verbose   bool
	SampleN   int
	NoDomains bool
	domSat    int
	domUnsat  int

	mu                 sync.Mutex
	cond               *sync.Cond
	queue              []*job
	idle               int
	active             int
	closed             bool
	paths              int
	infeasible         int
	bounded            map[string]int
	unsup              map[string]int
	decisions          int64
	instrs             int64
	asserts            int64
	assertQ            int64
	unkAsserts         int
	trivAsserts        int64
	reached            map[string]int
	viol               map[string][]*Violation
	samples            []*Sample
	queries            int
	sats, unsats, unks int
	solverTime         time.Duration
	funcs              map[string]bool
	merges             int
	errs               []string
	assertIDs          map[string]int
	pending            int
	branchSites        map[string]int
	vars               int
}

func newX(e *Explorer) (*X, error) {
	s, err := NewSolver(e.Solver, e.TimeoutMs)
	if err != nil {
		return nil, err
	}
	x := &X{P: e.P, T: NewTerms(), S: s, ex: e, NoDomains: e.NoDomains}
	x.globals = map[*ssa.Global]*value{}
	x.inited = map[*ssa.Package]bool{}
	x.consts = map[*ssa.Const]value{}
	x.meths = map[methKey]*ssa.Function{}
	x.impl = map[implKey]bool{}
	x.tabCache = map[string]value{}
	x.onces = map[*value]int{}
	x.funcsRun = map[*funcInfo]bool{}
	x.fixed = map[*Term]int{}
	x.backing = map[*value][]value{}
	x.maxSteps = 1 << 40
	if rt := e.P.ext["runtime"]; rt != nil {
		x.runtimeErrT = rt.Type("errorString").Type()
	}
	return x, nil
}

// ---- decisions ----

func (x *X) assertTop(c *Term) {
	if c.isTrue() {
		return
	}
	x.S.Assert(c)
}

// replaying reports whether the next decision comes from the prefix.
func (x *X) replaying() bool { return x.pos < len(x.decs) }

func (x *X) solverHas() bool { return x.pos < x.asserted }

func (x *X) branchSite() {
	if x.ex.Verbose {
		w := x.where()
		x.ex.mu.Lock()
		x.ex.branchSites[w]++
		x.ex.mu.Unlock()
	}
}

func (x *X) branch(c *Term) bool {
	if c.isConst() {
		return c.k != 0
	}
	if x.initDepth > 0 || x.inTab {
		panic(unsupported{"symbolic branch during initialisation/tabulation"})
	}
	if x.replaying() {
		d := &x.decs[x.pos]
		if d.kind != dBranch {
			panic(engineError{"replay divergence (branch) at " + x.where()})
		}
		if !d.forced && !x.solverHas() {
			x.S.Push()
			x.assertTop(x.side(c, d.val != 0))
		}
		x.pos++
		x.endReplay()
		if !d.forced {
			x.note(x.side(c, d.val != 0))
		}
		return d.val != 0
	}
	x.evalModel()
	side := x.T.Eval(c) != 0
	other := x.side(c, !side)
	x.branchSite()
	m, r := x.feasible(other)
	d := dec{kind: dBranch, val: b2u(side)}
	switch r {
	case Unsat:
		d.forced = true
		x.forcedN++
	case Unknown:
		x.incomplete["solver unknown at branch"]++
	case Sat:
		d.alt = true
		d.altModel = m
	}
	x.pushDec(d, x.side(c, side))
	if !d.forced {
		x.note(x.side(c, side))
	}
	return side
}

func (x *X) side(c *Term, b bool) *Term {
	if b {
		return c
	}
	return x.T.Not(c)
}

func (x *X) pushDec(d dec, c *Term) {
	if !d.forced {
		x.S.Push()
		if c != nil {
			x.assertTop(c)
		}
	}
	x.decs = append(x.decs, d)
	x.pos++
	x.asserted = x.pos
	x.ex.offer(x)
}

// endReplay restores a model once the whole prefix has been replayed.
func (x *X) endReplay() {
	if x.pos < len(x.decs) {
		return
	}
	if x.asserted < x.pos {
		x.asserted = x.pos
	}
}

func (x *X) evalModel() {
	if x.model == nil {
		m := x.S.Model(nil)
		if m == nil {
			panic(pathEnd{"infeasible"})
		}
		x.setModel(m)
	}
}

func (x *X) setModel(m map[string]uint64) {
	x.model = m
	x.T.SetModel(m)
}

// choose makes an unconstrained n-way choice.
func (x *X) choose(n int, what string) int {
	if n <= 1 {
		return 0
	}
	if x.replaying() {
		d := &x.decs[x.pos]
		if d.kind != dChoice || d.n != n {
			panic(engineError{"replay divergence (choice) at " + x.where()})
		}
		if !x.solverHas() {
			x.S.Push()
		}
		x.pos++
		x.endReplay()
		return int(d.val)
	}
	d := dec{kind: dChoice, val: 0, n: n, hi: uint64(n), alt: true, altModel: x.model}
	x.pushDec(d, nil)
	return 0
}

// concretize picks every feasible value of t in turn.
func (x *X) concretize(t *Term, what string) uint64 {
	if t.isConst() {
		return t.k
	}
	if x.initDepth > 0 || x.inTab {
		panic(unsupported{"symbolic value in " + what})
	}
	for n := 0; ; n++ {
		if x.replaying() {
			d := &x.decs[x.pos]
			if d.kind != dValue {
				panic(engineError{"replay divergence (value) at " + x.where()})
			}
			c := x.T.Eq(t, x.T.Const(d.val, t.w))
			if !d.forced && !x.solverHas() {
				x.S.Push()
				x.assertTop(x.side(c, d.taken))
			}
			x.pos++
			x.endReplay()
			if !d.forced {
				x.note(x.side(c, d.taken))
			}
			if d.taken {
				return d.val
			}
			continue
		}
		if n > 300 {
			panic(unsupported{"too many values for " + what})
		}
		x.evalModel()
		v := x.T.Eval(t)
		c := x.T.Eq(t, x.T.Const(v, t.w))
		if c.isTrue() {
			return v
		}
		x.branchSite()
		m, r := x.feasible(x.T.Not(c))
		d := dec{kind: dValue, val: v, taken: true}
		switch r {
		case Unsat:
			d.forced = true
		case Unknown:
			x.incomplete["solver unknown at concretisation"]++
		case Sat:
			d.alt = true
			d.altModel = m
		}
		x.pushDec(d, c)
		if !d.forced {
			x.note(c)
		}
		return v
	}
}

// assume restricts the path.
func (x *X) assume(c *Term) {
	if c.isTrue() {
		return
	}
	if c.isFalse() {
		panic(pathEnd{"infeasible"})
	}
	if x.solverHas() || x.pos < x.asserted {
		x.note(c)
		return
	}
	if x.replaying() {
		x.note(c)
		x.assertTop(c)
		return
	}
	if x.model != nil && x.T.Eval(c) != 0 {
		x.note(c)
		x.assertTop(c)
		return
	}
	m, r, ok := x.quick(c)
	x.note(c)
	x.assertTop(c)
	if ok && r == Unsat {
		panic(pathEnd{"infeasible"})
	}
	if ok && r == Sat {
		x.setModel(m)
		return
	}
	x.model = nil
	x.evalModel()
}

// assertProp checks a property.
func (x *X) assertProp(c *Term, id string) {
	e := x.ex
	e.mu.Lock()
	e.asserts++
	e.assertIDs[id]++
	if c.isTrue() {
		e.trivAsserts++
	}
	e.mu.Unlock()
	if c.isTrue() {
		return
	}
	if x.solverHas() || x.replaying() {
		// already checked on the path that produced this prefix
		x.assume(c)
		return
	}
	neg := x.T.Not(c)
	e.mu.Lock()
	e.assertQ++
	e.mu.Unlock()
	x.evalModel()
	if x.T.Eval(c) == 0 {
		x.report(id, x.model)
	} else {
		m, r := x.S.CheckModel(neg)
		switch r {
		case Sat:
			x.report(id, m)
		case Unknown:
			e.mu.Lock()
			e.unkAsserts++
			e.mu.Unlock()
			x.incomplete["solver unknown at assertion "+id]++
		}
	}
	x.assume(c)
}

func (x *X) report(id string, m map[string]uint64) {
	e := x.ex
	e.mu.Lock()
	defer e.mu.Unlock()
	if len(e.viol[id]) >= maxViol {
		return
	}
	v := &Violation{Harness: e.HName, ID: id, Where: x.where(), Inputs: x.inputVals(m), Order: append([]int{}, x.orders...)}
	if x.lastPanicAt != "" {
		v.Trace = append(v.Trace, "last runtime panic at "+x.lastPanicAt)
	}
	for _, n := range x.notes {
		v.Trace = append(v.Trace, n.k+"="+x.showUnder(n.v, m))
	}
	e.viol[id] = append(e.viol[id], v)
}

func (x *X) showUnder(s *Str, m map[string]uint64) (out string) {
	defer func() {
		if recover() != nil {
			out = "?"
		}
	}()
	if !s.sym {
		return s.c
	}
	old := x.model
	x.T.SetModel(m)
	defer x.T.SetModel(old)
	n := len(s.b)
	if s.n != nil {
		n = int(x.T.Eval(s.n))
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(x.T.Eval(s.b[i]))
	}
	return string(b)
}

func (x *X) inputVals(m map[string]uint64) map[string]interface{} {
	old := x.model
	x.T.SetModel(m)
	defer x.T.SetModel(old)
	r := map[string]interface{}{}
	for _, in := range x.inputs {
		switch in.Kind {
		case "bool":
			r[in.Name] = x.T.Eval(in.t) != 0
		case "int":
			r[in.Name] = in.lo + int64(x.T.Eval(in.t))
		case "choice":
			r[in.Name] = in.lo
		case "string", "bytes":
			n := len(in.b)
			if in.n != nil {
				n = int(x.T.Eval(in.n))
			}
			bs := make([]byte, n)
			for i := range bs {
				bs[i] = byte(x.T.Eval(in.b[i]))
			}
			r[in.Name] = fmt.Sprintf("%x", bs)
		}
	}
	return r
}

// ---- running paths ----

func (x *X) resetPath() {
	x.killThreads()
	x.rollback()
	x.fixed = map[*Term]int{}
	x.backing = map[*value][]value{}
	x.steps = 0
	x.maxSteps = x.ex.MaxSteps
	x.cur = nil
	x.curDefer = nil
	x.pos = 0
	x.inputs = nil
	x.names = map[string]int{}
	x.reached = map[string]bool{}
	x.notes = nil
	x.macs = nil
	x.fresh = 0
	x.clock = nil
	x.mapOrder = 0
	x.orders = nil
	x.held = map[*value]int{}
	x.hbs = nil
	x.abortAt = ""
	x.preBound = 2
	if x.ex.Tier == "thorough" {
		x.preBound = 3
	}
	x.wgs = map[*value]int{}
	x.testFailed, x.cleanups = false, nil
	x.pools = map[*value][]value{}
	x.lastPanicAt = ""
	x.acqs = 0
	x.encs = map[*value]*jenc{}
	x.ctCompares = 0
	x.initDepth = 0
	x.inTab = false
	x.incomplete = map[string]int{}
	x.doms = map[*Term]*bset{}
	x.ent = map[*Term]bool{}
	x.entSeen = map[*Term]bool{}
	x.entAll = false
}

// runPath executes the harness once following x.decs.
func (x *X) runPath() (kind string, msg string) {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case pathEnd:
				kind, msg = "end", r.kind
			case unsupported:
				kind, msg = "unsupported", r.msg+" @ "+x.where()
			case engineError:
				kind, msg = "error", r.msg
			case threadPanic:
				kind, msg = "panic", x.panicString(r.p.v)+" @ "+x.lastPanicAt
			case targetPanic:
				kind, msg = "panic", x.panicString(r.v)+" @ "+x.lastPanicAt
			default:
				kind, msg = "unsupported", fmt.Sprintf("engine: %v @ %s", r, x.where())
				if os.Getenv("VF_DEBUG") != "" {
					fmt.Fprintf(os.Stderr, "%v\n%s\n", r, debug.Stack())
				}
			}
		}
	}()
	x.callFn(nil, x.harness, nil, nil)
	return "ok", ""
}

func (x *X) panicString(v value) string {
	if i, ok := v.(iface); ok {
		if s, ok := i.v.(*Str); ok {
			return x.show(s)
		}
		if i.t != nil {
			return i.t.String()
		}
	}
	return "?"
}

func (x *X) work() {
	e := x.ex
	for {
		j := e.take()
		if j == nil {
			return
		}
		x.runJob(j)
		e.done()
	}
}

func (x *X) runJob(j *job) {
	e := x.ex
	// fresh solver stack
	x.S.Pop(x.S.level)
	x.S.Push() // base level for assumptions before the first decision
	x.decs = append([]dec{}, j.decs...)
	for i := range x.decs {
		d := &x.decs[i]
		d.alt = i == len(x.decs)-1 && d.kind == dChoice && d.val+1 < d.hi
		d.altModel = nil
		if d.alt {
			d.altModel = j.model
		}
	}
	x.asserted = 0
	if j.model == nil {
		x.model = map[string]uint64{}
	} else {
		x.model = j.model
	}
	x.T.SetModel(x.model)
	for {
		e.mu.Lock()
		stop := e.closed
		e.mu.Unlock()
		if stop {
			return
		}
		x.resetPath()
		kind, msg := x.runPath()
		x.instrs += int64(x.steps)
		e.finish(x, kind, msg)
		if kind == "error" {
			x.killThreads()
			x.rollback()
			return
		}
		// backtrack
		i := len(x.decs) - 1
		e.mu.Lock()
		for i >= 0 && !x.decs[i].alt {
			i--
		}
		if i < 0 {
			e.mu.Unlock()
			x.killThreads()
			x.rollback()
			return
		}
		d := x.decs[i]
		e.mu.Unlock()
		// count pushes beyond and including i
		pops := 0
		for k := i; k < len(x.decs); k++ {
			if !x.decs[k].forced && k < x.asserted {
				pops++
			}
		}
		x.S.Pop(pops)
		x.decs = x.decs[:i]
		nd := dec{kind: d.kind, n: d.n}
		switch d.kind {
		case dBranch:
			nd.val = 1 - d.val
		case dValue:
			nd.val, nd.taken = d.val, false
		case dChoice:
			nd.val, nd.hi = d.val+1, d.hi
			nd.alt = nd.val+1 < nd.hi
			nd.altModel = d.altModel
		}
		x.decs = append(x.decs, nd)
		x.asserted = i
		if d.altModel != nil {
			x.setModel(d.altModel)
		} else {
			x.model = nil
		}
	}
}

func (e *Explorer) take() *job {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.closed {
			return nil
		}
		if len(e.queue) > 0 {
			j := e.queue[0]
			e.queue = e.queue[1:]
			e.active++
			return j
		}
		if e.active == 0 {
			e.closed = true
			e.cond.Broadcast()
			return nil
		}
		e.idle++
		e.cond.Wait()
		e.idle--
	}
}

func (e *Explorer) done() {
	e.mu.Lock()
	e.active--
	if e.active == 0 && len(e.queue) == 0 {
		e.closed = true
	}
	e.cond.Broadcast()
	e.mu.Unlock()
}

// offer hands the shallowest pending alternative to an idle worker.
func (e *Explorer) offer(x *X) {
	if e.idle == 0 {
		return
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	if e.idle <= len(e.queue) {
		return
	}
	for i := range x.decs {
		d := &x.decs[i]
		if !d.alt {
			continue
		}
		nd := dec{kind: d.kind, n: d.n}
		switch d.kind {
		case dBranch:
			nd.val = 1 - d.val
			d.alt = false
		case dValue:
			nd.val, nd.taken = d.val, false
			d.alt = false
		case dChoice:
			// hand out the upper half of the remaining range
			mid := d.val + 1 + (d.hi-d.val-1)/2
			nd.val, nd.hi = mid, d.hi
			d.hi = mid
			d.alt = d.val+1 < d.hi
		}
		nj := &job{decs: append(append([]dec{}, x.decs[:i]...), nd), model: d.altModel}
		if d.kind != dChoice {
			d.altModel = nil
		}
		e.queue = append(e.queue, nj)
		e.cond.Signal()
		return
	}
}

func (e *Explorer) finish(x *X, kind, msg string) {
	var smp *Sample
	if kind == "panic" && x.model == nil {
		if m := x.S.Model(nil); m != nil {
			x.setModel(m)
		}
	}
	if kind == "ok" || kind == "panic" {
		e.mu.Lock()
		want := false
		key := x.reachKey()
		if len(e.samples) < e.SampleN {
			want = true
			cnt := 0
			for _, s := range e.samples {
				if strings.Join(s.Reached, ",") == key {
					cnt++
				}
			}
			if cnt >= 4 {
				want = false
			}
		}
		e.mu.Unlock()
		if want {
			m := x.model
			func() {
				defer func() { recover() }()
				if m == nil {
					m = x.S.Model(nil)
					x.model = m
				}
			}()
			if m != nil {
				smp = &Sample{Harness: e.HName, Inputs: x.inputVals(m), Reached: x.reachedList()}
				for _, n := range x.notes {
					smp.Notes = append(smp.Notes, n.k+"="+fmt.Sprintf("%x", x.showUnder(n.v, m)))
				}
				if kind == "panic" {
					smp.Panic = msg
				}
			}
		}
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	if smp != nil {
		e.samples = append(e.samples, smp)
	}
	e.decisions += int64(len(x.decs))
	switch kind {
	case "ok":
		e.paths++
	case "end":
		if msg == "infeasible" {
			e.infeasible++
		} else {
			e.bounded[msg]++
		}
	case "unsupported":
		e.unsup[msg]++
	case "error":
		e.errs = append(e.errs, msg)
		e.closed = true
	case "panic":
		// an escaped panic is a violation of the harness's implicit assertion
		e.paths++
		id := "no-panic"
		if len(e.viol[id]) < maxViol {
			m := x.model
			if m == nil {
				m = map[string]uint64{}
			}
			e.viol[id] = append(e.viol[id], &Violation{Harness: e.HName, ID: id, Msg: msg, Inputs: x.inputVals(m), Order: append([]int{}, x.orders...)})
		}
	}
	for k, n := range x.incomplete {
		e.bounded[k] += n
	}
	if kind == "ok" || kind == "panic" || kind == "end" && msg != "infeasible" {
		for k := range x.reached {
			e.reached[k]++
		}
	}
	if e.MaxPaths > 0 && e.paths >= e.MaxPaths {
		e.bounded["path budget"]++
		e.closed = true
		e.cond.Broadcast()
	}
	if !e.Deadline.IsZero() && time.Now().After(e.Deadline) {
		if !e.closed {
			e.bounded["time budget"]++
		}
		e.closed = true
		e.cond.Broadcast()
	}
}

func (x *X) reachedList() []string {
	var r []string
	for k := range x.reached {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
func (x *X) reachKey() string { return strings.Join(x.reachedList(), ",") }

// Run explores the harness.
func (e *Explorer) Run() {
	e.cond = sync.NewCond(&e.mu)
	e.bounded = map[string]int{}
	e.unsup = map[string]int{}
	e.reached = map[string]int{}
	e.viol = map[string][]*Violation{}
	e.funcs = map[string]bool{}
	e.assertIDs = map[string]int{}
	e.branchSites = map[string]int{}
	e.queue = []*job{{}}
	var wg sync.WaitGroup
	for i := 0; i < e.Workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			x, err := newX(e)
			if err != nil {
				e.mu.Lock()
				e.errs = append(e.errs, err.Error())
				e.closed = true
				e.cond.Broadcast()
				e.mu.Unlock()
				return
			}
			x.harness = e.Harness
			defer func() {
				if r := recover(); r != nil {
					e.mu.Lock()
					e.errs = append(e.errs, fmt.Sprintf("worker: %v", r))
					if os.Getenv("VF_DEBUG") != "" {
						fmt.Fprintf(os.Stderr, "%v\n%s\n", r, debug.Stack())
					}
					e.closed = true
					e.cond.Broadcast()
					e.mu.Unlock()
				}
				x.S.Close()
				e.mu.Lock()
				e.queries += x.S.queries
				e.sats += x.S.sats
				e.domSat += x.domSat
				e.domUnsat += x.domUnsat
				e.unsats += x.S.unsats
				e.unks += x.S.unk
				e.solverTime += x.S.dur
				e.instrs += x.instrs
				e.merges += x.merges
				e.vars += len(x.S.vars)
				for f := range x.funcsRun {
					e.funcs[f.name] = true
				}
				e.mu.Unlock()
			}()
			x.work()
		}()
	}
	wg.Wait()
}
