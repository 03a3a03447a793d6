package main

// Path exploration: every path is a fresh execution of the harness guided by a
// prefix of decisions; new decisions are made with the solver.

import (
	"fmt"
	"go/types"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type Engine struct {
	prog      *ssa.Program
	sizes     types.Sizes
	std       map[*types.Package]bool
	solverBin string
	workers   int
	tier      string
	seed      int64
	errType   types.Type
	msgType   types.Type
	repoPath  string
	target    []*packages.Package // the packages of the code under test

	mu      sync.Mutex
	bounds  map[string]int
	methods sync.Map

	stepFull   int
	pathCap    int64
	maxPreempt int
}

type task struct {
	dec   []uint64
	model map[string]uint64
}

type Violation struct {
	Kind   string            `json:"kind"`
	Msg    string            `json:"msg"`
	Where  string            `json:"where"`
	Inputs map[string]uint64 `json:"inputs"`
	Sched  []int             `json:"sched"`
	MapOrd bool              `json:"map_order"`
	Races  bool              `json:"race"`
	Racy   bool              `json:"-"` // the interleaving needs a data race
	dec    []uint64
}

type Sample struct {
	Inputs map[string]uint64 `json:"inputs"`
	Sched  []int             `json:"sched"`
	Obs    []string          `json:"obs"`
	MapOrd bool              `json:"map_order"`
}

// Run is one exploration of one harness function.
type Run struct {
	eng      *Engine
	fn       *ssa.Function
	deadline time.Time

	mu       sync.Mutex
	cond     *sync.Cond
	queues   [][]task
	busy     int
	stopped  bool
	timedOut bool
	viol     []Violation
	long     []Violation
	violKey  map[string]bool
	samples  []Sample
	nsample  int
	rng      *rand.Rand
	covers   map[string]int
	reduced  map[string]int
	fatal    string
	funcs    map[string]int
	partial  map[string]string
	racySeen map[ssa.Instruction]bool // accesses found without happens-before
	racy     map[ssa.Instruction]bool // scheduling points because of that
	dumps    []string
	dumpRes  []Result
	Paths    int64
	Pruned   int64
	Asserts  int64
	Decs     int64
	Steps    int64
	Queries  int64
	SatN     int64
	UnsatN   int64
	UnkN     int64
	SolveT   time.Duration
	SolveMax time.Duration
	Elapsed  time.Duration
	Complete bool
	maxTh    int
	abortN   int
	deepDec  int
}

type Worker struct {
	run     *Run
	eng     *Engine
	idx     int
	c       *Ctx
	sol     *Solver
	funcs   map[*ssa.Function]*cfunc
	errType types.Type

	stdGlobals map[*ssa.Global]*Value
	stdInit    map[*ssa.Package]int
	msets      typeutil.MethodSetCache
	rts        *rtypes
	methCache  map[methKey]*ssa.Function
	implCache  map[implKey]bool
	identCache map[[2]types.Type]bool
	preds      map[string]func(*Term) *Term
	tabRanges  map[*Value][][2]uint64
	aux        map[string]any
	diagrams   map[applied]*Term

	nAsserts, nDecs, nSteps int64
	maxTh, deepDec          int
}

type methKey struct {
	t    types.Type
	name string
	pkg  *types.Package
}
type implKey struct {
	t types.Type
	i *types.Interface
}

func (w *Worker) identical(a, b types.Type) bool {
	if a == b {
		return true
	}
	k := [2]types.Type{a, b}
	if r, ok := w.identCache[k]; ok {
		return r
	}
	r := types.Identical(a, b)
	w.identCache[k] = r
	return r
}

func (w *Worker) implements(t types.Type, i *types.Interface) bool {
	k := implKey{t, i}
	if r, ok := w.implCache[k]; ok {
		return r
	}
	r := types.Implements(t, i)
	w.implCache[k] = r
	return r
}

func (w *Worker) method(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m.Name(), m.Pkg()}
	if f, ok := w.methCache[k]; ok {
		return f
	}
	f := w.eng.prog.LookupMethod(t, m.Pkg(), m.Name())
	w.methCache[k] = f
	return f
}

func (w *Worker) methodByName(t types.Type, name string) *ssa.Function {
	ms := w.msets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		s := ms.At(i)
		if s.Obj().Name() == name {
			return w.eng.prog.MethodValue(s)
		}
	}
	return nil
}

// ---- paths ----

type Path struct {
	uniq  []Iface // values of unique.Make and the cells that stand for them
	w     *Worker
	c     *Ctx
	pc    []*Term
	vars  []*Term
	model Model
	seedM map[string]uint64
	known map[*Term]bool
	cst   map[*Term]uint64

	dec []uint64
	pos int

	steps, maxSteps int
	globals         map[*ssa.Global]*Value
	inited          map[*ssa.Package]bool
	uptrs           map[*Term]UPtr
	mapOrder        bool
	mapOrderReduced bool
	mapPerm         int
	nondet          bool
	names           map[string]int
	inputs          []input
	obs             []obsRec
	schedLog        []int

	sched *Sched
	races bool
	locks map[*Value]*lockState
	aux   map[any]any
	ended bool
}

type input struct {
	name string
	t    *Term
}

type obsRec struct {
	name string
	v    []Value
}

func (p *Path) unsupported(msg string) pathEnd { return pathEnd{"unsupported", msg} }

// constOf reports the value t is fixed to on this path, if known.
func (p *Path) constOf(t *Term) (uint64, bool) {
	if t.IsConst() {
		return t.val, true
	}
	v, ok := p.cst[t]
	return v, ok
}

func (p *Path) lookupKnown(cond *Term) (bool, bool) {
	return p.knownRec(cond, 4)
}

func (p *Path) knownRec(cond *Term, depth int) (bool, bool) {
	if cond.IsConst() {
		return cond.val == 1, true
	}
	if v, ok := p.known[cond]; ok {
		return v, true
	}
	switch cond.op {
	case ONot:
		v, ok := p.knownRec(cond.a, depth)
		return !v, ok
	case OAnd, OOr:
		if depth == 0 {
			return false, false
		}
		short := cond.op == OOr
		a, oka := p.knownRec(cond.a, depth-1)
		if oka && a == short {
			return short, true
		}
		b, okb := p.knownRec(cond.b, depth-1)
		if okb && b == short {
			return short, true
		}
		if oka && okb {
			return !short, true
		}
	}
	return false, false
}

func (p *Path) setKnown(cond *Term, v bool) {
	for cond.op == ONot {
		cond, v = cond.a, !v
	}
	if cond.IsConst() {
		return
	}
	if _, ok := p.known[cond]; ok {
		return
	}
	p.known[cond] = v
	if v && cond.op == OAnd {
		p.setKnown(cond.a, true)
		p.setKnown(cond.b, true)
	}
	if !v && cond.op == OOr {
		p.setKnown(cond.a, false)
		p.setKnown(cond.b, false)
	}
	if v && cond.op == OEq && cond.b.IsConst() {
		p.cst[cond.a] = cond.b.val
	}
}

func (p *Path) addPC(lit *Term) {
	if lit.IsTrue() {
		return
	}
	p.pc = append(p.pc, lit)
	p.setKnown(lit, true)
}

const (
	dForkF = 0
	dForkT = 1
	dImplF = 2
	dImplT = 3
	dVal   = 8 // dVal+v: chosen value
)

func (p *Path) next() (uint64, bool) {
	if p.pos < len(p.dec) {
		d := p.dec[p.pos]
		p.pos++
		return d, true
	}
	return 0, false
}

func (p *Path) push(d uint64) {
	p.dec = append(p.dec, d)
	p.pos = len(p.dec)
}

func (p *Path) modelNames(m Model) map[string]uint64 {
	r := make(map[string]uint64, len(m))
	for t, v := range m {
		r[t.name] = v
	}
	return r
}

// branch decides a condition on this path.
func (p *Path) branch(cond *Term) bool {
	if cond.IsConst() {
		return cond.val == 1
	}
	if v, ok := p.lookupKnown(cond); ok {
		return v
	}
	if d, ok := p.next(); ok {
		v := d&1 == 1
		if d > 3 {
			panic(fmt.Sprintf("nondeterministic re-execution: decision %d at a branch", d))
		}
		if d <= 1 {
			if v {
				p.addPC(cond)
			} else {
				p.addPC(p.c.Not(cond))
			}
		} else {
			p.setKnown(cond, v)
		}
		return v
	}
	p.w.nDecs++
	v := p.c.Eval(cond, p.model) == 1
	lit := cond
	if !v {
		lit = p.c.Not(cond)
	}
	res, m := p.w.sol.Check(p.pc, p.vars, p.c.Not(lit))
	switch res {
	case Unsat:
		p.setKnown(cond, v)
		p.push(dImplF + b2u(v))
		return v
	case Sat:
		nd := make([]uint64, len(p.dec)+1)
		copy(nd, p.dec)
		nd[len(p.dec)] = b2u(!v)
		p.w.run.submit(p.w, task{dec: nd, model: p.modelNames(m)})
	default:
		p.w.run.note("solver gave no answer on a branch; that side not explored")
	}
	p.push(b2u(v))
	p.addPC(lit)
	return v
}

// choose makes an unconstrained n-way choice, represented by a fresh variable.
func (p *Path) choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	v := p.newVar(name, 32, 0, uint64(n-1), name != "sched")
	pick := 0
	if d, ok := p.next(); ok {
		if d < dVal {
			panic("nondeterministic re-execution: branch decision at a choice")
		}
		pick = int(d - dVal)
	} else {
		p.w.nDecs++
		pick = int(p.c.Eval(v, p.model))
		for i := n - 1; i >= 0; i-- {
			if i == pick {
				continue
			}
			nd := make([]uint64, len(p.dec)+1)
			copy(nd, p.dec)
			nd[len(p.dec)] = dVal + uint64(i)
			mn := p.modelNames(p.model)
			mn[v.name] = uint64(i)
			p.w.run.submit(p.w, task{dec: nd, model: mn})
		}
		p.push(dVal + uint64(pick))
		p.model[v] = uint64(pick)
	}
	p.addPC(p.c.Eq(v, p.c.Const(32, uint64(pick))))
	return pick
}

// concretize forks until t has one value.
func (p *Path) concretize(t *Term) uint64 {
	for {
		if v, ok := p.constOf(t); ok {
			return v
		}
		var v uint64
		if d, ok := p.next(); ok {
			v = d - dVal
		} else {
			v = p.c.Eval(t, p.model)
			p.push(dVal + v)
		}
		if p.branch(p.c.Eq(t, p.c.Const(t.w, v))) {
			return v
		}
	}
}

func (p *Path) newVar(name string, w uint8, lo, hi uint64, isInput bool) *Term {
	k := p.names[name]
	p.names[name] = k + 1
	full := fmt.Sprintf("%s#%d", name, k)
	t := p.c.Var(full, w, lo, hi)
	if v, ok := p.seedM[t.name]; ok {
		p.model[t] = v
	}
	p.vars = append(p.vars, t)
	if isInput {
		p.inputs = append(p.inputs, input{full, t})
	}
	if w == 0 {
		return t
	}
	if r := p.c.Range(t); r != nil {
		p.addPC(r)
	}
	return t
}

func (p *Path) replaying() bool { return p.pos < len(p.dec) }

func (p *Path) assume(c *Term) {
	if c.IsTrue() {
		return
	}
	if c.IsFalse() {
		panic(pathEnd{"assume", ""})
	}
	if v, ok := p.lookupKnown(c); ok {
		if v {
			return
		}
		panic(pathEnd{"assume", ""})
	}
	if p.c.Eval(c, p.model) == 1 {
		p.addPC(c)
		return
	}
	res, m := p.w.sol.Check(p.pc, p.vars, c)
	switch res {
	case Sat:
		p.model = m
	case Unsat:
		panic(pathEnd{"assume", ""})
	default:
		p.w.run.note("solver gave no answer on an assumption; path dropped")
		panic(pathEnd{"assume", ""})
	}
	p.addPC(c)
}

func (p *Path) assert(th *Thread, c *Term, msg string) {
	if c.IsTrue() {
		p.w.nAsserts++
		return
	}
	if v, ok := p.lookupKnown(c); ok && v {
		p.w.nAsserts++
		return
	}
	if p.replaying() {
		// decided on the path this one was forked from
		p.addPC(c)
		return
	}
	p.w.nAsserts++
	res, m := p.w.sol.Check(p.pc, p.vars, p.c.Not(c))
	switch res {
	case Unsat:
		p.setKnown(c, true)
		return
	case Sat:
		p.violation(th, "assert", msg, m)
	default:
		p.w.run.note("solver gave no answer on an assertion")
	}
	// carry on with the inputs for which it holds
	p.assume(c)
}

// seek looks for a counterexample for a short time; that none was found within
// it decides nothing, and is said in the evidence, but the run is complete.
func (p *Path) seek(th *Thread, c *Term, msg string) {
	if v, ok := p.lookupKnown(c); c.IsTrue() || ok && v || p.replaying() {
		return
	}
	p.w.sol.brief = true
	res, m := p.w.sol.Check(p.pc, p.vars, p.c.Not(c))
	p.w.sol.brief = false
	switch res {
	case Unsat:
		p.w.nAsserts++
		p.setKnown(c, true)
	case Sat:
		p.violation(th, "assert", msg, m)
	default:
		r := p.w.run
		r.mu.Lock()
		r.covers["not decided: "+msg]++
		r.mu.Unlock()
	}
}

func (p *Path) violation(th *Thread, kind, msg string, m Model) {
	in := map[string]uint64{}
	for _, i := range p.inputs {
		v, ok := m[i.t]
		if !ok {
			v = i.t.lo
		}
		in[i.name] = v
	}
	v := Violation{Kind: kind, Msg: msg, Inputs: in, Sched: append([]int(nil), p.schedLog...), MapOrd: p.nondet, dec: append([]uint64(nil), p.dec...)}
	v.Races = kind == "race"
	v.Racy = p.w.run.racy != nil
	if th != nil {
		v.Where = th.where()
	}
	p.w.run.addViolation(v)
}

// ---- globals and package initialisation ----

func (p *Path) isStd(pkg *ssa.Package) bool { return p.w.eng.std[pkg.Pkg] }

func (p *Path) global(th *Thread, g *ssa.Global) Value {
	if p.isStd(g.Pkg) {
		p.initPkg(th, g.Pkg)
		cell := p.w.stdGlobals[g]
		if cell == nil {
			cell = new(Value)
			*cell = p.w.zero(under(g.Type()).(*types.Pointer).Elem())
			p.w.stdGlobals[g] = cell
		}
		return cell
	}
	p.initPkg(th, g.Pkg)
	cell := p.globals[g]
	if cell == nil {
		cell = new(Value)
		*cell = p.w.zero(under(g.Type()).(*types.Pointer).Elem())
		p.globals[g] = cell
	}
	return cell
}

// packages whose initialisers only set up runtime plumbing that is modelled
var skipInit = map[string]bool{"runtime": true, "os": true, "syscall": true, "internal/poll": true, "time": true,
	"internal/godebug": true, "internal/cpu": true, "reflect": true, "internal/reflectlite": true, "sync": true, "internal/sync": true,
	"internal/runtime/maps": true, "log": true, "testing": true, "net": true, "math/rand": true, "math/rand/v2": true, "unique": true, "crypto": true, "internal/oserror": false}

func (p *Path) initPkg(th *Thread, pkg *ssa.Package) {
	if pkg == nil {
		return
	}
	std := p.isStd(pkg)
	if std {
		if p.w.stdInit[pkg] != 0 {
			return
		}
		p.w.stdInit[pkg] = 1
		if skipInit[pkg.Pkg.Path()] {
			return
		}
	} else {
		if p.inited[pkg] {
			return
		}
		p.inited[pkg] = true
	}
	init := pkg.Func("init")
	if init == nil || init.Blocks == nil {
		return
	}
	steps, mo, quiet, depth, top, nInit := p.steps, p.mapOrder, th.quiet, th.depth, th.top, len(th.initFn)
	p.steps = -1 << 40
	p.mapOrder = false
	th.quiet = true
	defer func() {
		p.steps, p.mapOrder, th.quiet, th.depth, th.top = steps, mo, quiet, depth, top
		th.initFn = th.initFn[:nInit]
	}()
	if std {
		defer func() {
			if r := recover(); r != nil {
				msg := fmt.Sprint(r)
				if pe, ok := r.(pathEnd); ok {
					if pe.kind != "unsupported" {
						panic(r)
					}
					msg = pe.msg
				}
				p.w.run.notePartial(pkg.Pkg.Path(), msg)
			}
		}()
	}
	th.initFn = append(th.initFn, init)
	th.call(init, nil, nil)
}

// ---- run control ----

func (r *Run) note(s string) {
	r.mu.Lock()
	r.reduced[s]++
	r.mu.Unlock()
}

func (r *Run) notePartial(pkg, msg string) {
	r.mu.Lock()
	r.partial[pkg] = msg
	r.mu.Unlock()
}

func (r *Run) addViolation(v Violation) {
	r.mu.Lock()
	defer r.mu.Unlock()
	k := v.Kind + "|" + v.Msg
	if r.violKey[k] || len(r.viol) >= 12 {
		// keep a few alternatives of the same kind for the replay to try
		n := 0
		for _, x := range r.viol {
			if x.Kind+"|"+x.Msg == k {
				n++
			}
		}
		if n >= 3 || len(r.viol) >= 12 {
			return
		}
	}
	r.violKey[k] = true
	r.viol = append(r.viol, v)
	if len(r.viol) >= 8 {
		r.stopped = true
		r.cond.Broadcast()
	}
	// do not look much longer once something is found
	if d := time.Now().Add(6 * time.Second); d.Before(r.deadline) {
		r.deadline = d
	}
}

func (r *Run) submit(w *Worker, t task) {
	r.mu.Lock()
	r.queues[w.idx] = append(r.queues[w.idx], t)
	r.mu.Unlock()
	r.cond.Signal()
}

func (r *Run) take(idx int) (task, bool) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for {
		if r.stopped {
			return task{}, false
		}
		if q := r.queues[idx]; len(q) > 0 {
			t := q[len(q)-1]
			r.queues[idx] = q[:len(q)-1]
			r.busy++
			return t, true
		}
		best := -1
		for i, q := range r.queues {
			if len(q) > 0 && (best < 0 || len(q[0].dec) < len(r.queues[best][0].dec)) {
				best = i
			}
		}
		if best >= 0 {
			t := r.queues[best][0]
			r.queues[best] = append([]task(nil), r.queues[best][1:]...)
			r.busy++
			return t, true
		}
		if r.busy == 0 {
			r.cond.Broadcast()
			return task{}, false
		}
		r.cond.Wait()
	}
}

func (e *Engine) explore(fn *ssa.Function, budget time.Duration, dumpEvery, dumpN int) *Run {
	return e.exploreAt(fn, budget, dumpEvery, dumpN, nil)
}

// exploreAt explores with the given instructions as additional scheduling points.
func (e *Engine) exploreAt(fn *ssa.Function, budget time.Duration, dumpEvery, dumpN int, racy map[ssa.Instruction]bool) *Run {
	r := &Run{eng: e, racySeen: map[ssa.Instruction]bool{}, racy: racy, fn: fn, deadline: time.Now().Add(budget), violKey: map[string]bool{}, covers: map[string]int{},
		reduced: map[string]int{}, funcs: map[string]int{}, partial: map[string]string{}, rng: rand.New(rand.NewSource(e.seed))}
	r.cond = sync.NewCond(&r.mu)
	r.queues = make([][]task, e.workers)
	r.queues[0] = []task{{}}
	start := time.Now()
	var wg sync.WaitGroup
	for i := 0; i < e.workers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() {
				if x := recover(); x != nil {
					r.mu.Lock()
					if r.fatal == "" {
						r.fatal = fmt.Sprintf("%v", x)
						if os.Getenv("SYMGO_DEBUG") != "" {
							r.fatal += "\n" + string(debug.Stack())
						}
					}
					r.stopped = true
					r.mu.Unlock()
					r.cond.Broadcast()
				}
			}()
			r.worker(i, dumpEvery, dumpN)
		}(i)
	}
	stop := make(chan bool)
	go func() {
		for {
			select {
			case <-stop:
				return
			case <-time.After(100 * time.Millisecond):
				r.mu.Lock()
				if time.Now().After(r.deadline) && !r.stopped {
					left := 0
					for _, q := range r.queues {
						left += len(q)
					}
					if left+r.busy > 0 {
						r.reduced[fmt.Sprintf("time budget reached with paths left to explore")] = left + r.busy
						r.timedOut = true
					}
					r.stopped = true
				}
				r.mu.Unlock()
				r.cond.Broadcast()
			}
		}
	}()
	wg.Wait()
	close(stop)
	r.Elapsed = time.Since(start)
	r.Complete = len(r.reduced) == 0 && r.fatal == "" && !r.stopped
	return r
}

func (r *Run) newWorker(idx, dumpEvery, dumpN int) *Worker {
	c := NewCtx()
	sol, err := NewSolver(c, r.eng.solverBin)
	if err != nil {
		panic(err)
	}
	sol.dumpEvr, sol.dumpN = dumpEvery, dumpN
	w := &Worker{run: r, eng: r.eng, idx: idx, c: c, sol: sol, funcs: map[*ssa.Function]*cfunc{}, errType: r.eng.errType,
		stdGlobals: map[*ssa.Global]*Value{}, stdInit: map[*ssa.Package]int{}, methCache: map[methKey]*ssa.Function{},
		implCache: map[implKey]bool{}, identCache: map[[2]types.Type]bool{}, preds: map[string]func(*Term) *Term{},
		tabRanges: map[*Value][][2]uint64{}, aux: map[string]any{}, diagrams: map[applied]*Term{}}
	return w
}

func (r *Run) retire(w *Worker) {
	r.mu.Lock()
	r.Asserts += w.nAsserts
	r.Decs += w.nDecs
	r.Steps += w.nSteps
	r.Queries += int64(w.sol.Queries)
	r.SatN += int64(w.sol.NSat)
	r.UnsatN += int64(w.sol.NUnsat)
	r.UnkN += int64(w.sol.NUnk)
	r.SolveT += w.sol.Time
	r.SolveMax = max(r.SolveMax, w.sol.Max)
	r.dumps = append(r.dumps, w.sol.dump...)
	r.dumpRes = append(r.dumpRes, w.sol.dumpRes...)
	r.maxTh = max(r.maxTh, w.maxTh)
	r.deepDec = max(r.deepDec, w.deepDec)
	for f, c := range w.funcs {
		if c.execs > 0 {
			r.funcs[f.String()] += c.execs
		}
	}
	r.mu.Unlock()
	w.sol.Close()
}

func (r *Run) worker(idx, dumpEvery, dumpN int) {
	var w *Worker
	defer func() {
		if w != nil {
			r.retire(w)
		}
	}()
	for {
		t, ok := r.take(idx)
		if !ok {
			return
		}
		if w != nil && w.c.next > 4_000_000 {
			r.retire(w)
			w = nil
		}
		if w == nil {
			w = r.newWorker(idx, dumpEvery, dumpN)
		}
		r.runTask(w, t)
		r.mu.Lock()
		r.busy--
		if r.busy == 0 {
			r.cond.Broadcast()
		}
		r.mu.Unlock()
	}
}

func (r *Run) runTask(w *Worker, t task) {
	p := &Path{w: w, c: w.c, model: Model{}, seedM: t.model, known: map[*Term]bool{}, cst: map[*Term]uint64{}, dec: t.dec,
		maxSteps: r.stepLimit(), globals: map[*ssa.Global]*Value{}, inited: map[*ssa.Package]bool{}, names: map[string]int{},
		mapPerm: 3, locks: map[*Value]*lockState{}, aux: map[any]any{}}
	p.sched = newSched(p)
	end := p.sched.runMain(r.fn)
	w.nSteps += int64(p.steps)
	w.maxTh = max(w.maxTh, len(p.sched.threads))
	w.deepDec = max(w.deepDec, len(p.dec))
	switch end.kind {
	case "":
		atomic.AddInt64(&r.Paths, 1)
		r.sample(p)
	case "assume":
		atomic.AddInt64(&r.Pruned, 1)
	case "violation":
		atomic.AddInt64(&r.Paths, 1)
	case "unsupported":
		atomic.AddInt64(&r.Pruned, 1)
		r.note("not encodable: " + end.msg)
	case "steps":
		atomic.AddInt64(&r.Pruned, 1)
		r.note("step limit reached in " + strings.SplitN(end.msg, " < ", 2)[0])
		r.longPath(p, end.msg)
	case "fatal":
		panic(end.msg)
	}
	if p.mapOrderReduced {
		r.mu.Lock()
		r.covers["(map orders reduced to forward and reverse for large maps)"]++
		r.mu.Unlock()
	}
	if r.eng.pathCap > 0 && atomic.LoadInt64(&r.Paths) > r.eng.pathCap {
		r.note("path limit")
		r.mu.Lock()
		r.stopped = true
		r.mu.Unlock()
		r.cond.Broadcast()
	}
}

// stepLimit is generous until paths that do not end turn up.
func (r *Run) stepLimit() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.long) > 0 {
		return r.eng.stepFull / 10
	}
	return r.eng.stepFull
}

// longPath keeps a few of the paths that did not end within the step limit; the
// real code is run with their inputs to see whether it returns.
func (r *Run) longPath(p *Path, where string) {
	v := Violation{Kind: "hang", Msg: "the operation does not return", Where: where, Inputs: map[string]uint64{}, Sched: append([]int(nil), p.schedLog...)}
	for _, i := range p.inputs {
		v.Inputs[i.name] = p.c.Eval(i.t, p.model)
	}
	r.mu.Lock()
	if len(r.long) < 2 {
		r.long = append(r.long, v)
	}
	r.mu.Unlock()
}

const maxSamples = 24

func (r *Run) sample(p *Path) {
	r.mu.Lock()
	r.nsample++
	n := r.nsample
	k := -1
	if len(r.samples) < maxSamples {
		r.samples = append(r.samples, Sample{})
		k = len(r.samples) - 1
	} else if j := r.rng.Intn(n); j < maxSamples {
		k = j
	}
	r.mu.Unlock()
	if k < 0 {
		return
	}
	s := Sample{Inputs: map[string]uint64{}, Sched: append([]int(nil), p.schedLog...), MapOrd: p.nondet}
	for _, i := range p.inputs {
		s.Inputs[i.name] = p.c.Eval(i.t, p.model)
	}
	for _, o := range p.obs {
		s.Obs = append(s.Obs, o.name+"="+p.renderObs(o.v))
	}
	r.mu.Lock()
	r.samples[k] = s
	r.mu.Unlock()
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
