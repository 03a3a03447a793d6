package main

// Threads of the interpreted program. Exactly one runs at a time; at every
// scheduling point the choice of the next one is a decision of the path.

import (
	"fmt"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type vclock []int

func (v vclock) get(i int) int {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func (v *vclock) join(o vclock) {
	for len(*v) < len(o) {
		*v = append(*v, 0)
	}
	for i, x := range o {
		if x > (*v)[i] {
			(*v)[i] = x
		}
	}
}

func (v vclock) clone() vclock { return append(vclock(nil), v...) }

type Thread struct {
	p          *Path
	w          *Worker
	id         int
	top        *frame
	depth      int
	deferFrame *frame
	initFn     []*ssa.Function
	quiet      bool // package initialisation: no races, no scheduling

	wake    chan bool
	blocked func() bool
	why     string
	done    bool
	clock   vclock
	name    string
}

type Sched struct {
	p        *Path
	threads  []*Thread
	cur      *Thread
	preempts int
	bound    int
	policy   int
	end      pathEnd
	ended    bool
	mainDone chan bool
	abort    chan bool
	wg       sync.WaitGroup
	shadow   map[*Value]*cellHist
	active   bool

	// Time passes only when no thread can go on.
	now    int64
	timers []*vtimer
	timed  bool // there has been a timer
	made   map[*Value]*vtimer
}

// vtimer is a pending timer, or a sleeping thread (no fn).
type vtimer struct {
	at, period int64
	cell       *Value
	fn         Value
	args       []Value
}

// sleep waits for d to pass. Without timers it is only a scheduling point.
func (th *Thread) sleep(d int64) {
	s := th.p.sched
	if !s.timed || d <= 0 {
		th.point()
		s.now += max(d, 0)
		return
	}
	at := s.now + d
	s.timers = append(s.timers, &vtimer{at: at})
	th.wait("the end of a sleep", func() bool { return s.now >= at })
}

// elapse lets time pass until the next timer or sleeper.
func (s *Sched) elapse(me *Thread) bool {
	k := -1
	for i, t := range s.timers {
		if k < 0 || t.at < s.timers[k].at {
			k = i
		}
	}
	if k < 0 {
		return false
	}
	t := s.timers[k]
	s.timers = append(append([]*vtimer(nil), s.timers[:k]...), s.timers[k+1:]...)
	s.now = max(s.now, t.at)
	s.p.nondet = true
	if t.fn != nil {
		if t.period > 0 {
			n := *t
			n.at += t.period
			s.timers = append(s.timers, &n)
		}
		me.spawn(t.fn, t.args, nil)
	}
	return true
}

func (s *Sched) stopTimer(cell *Value) (was bool) {
	for i, t := range s.timers {
		if t.cell == cell && t.fn != nil {
			s.timers = append(append([]*vtimer(nil), s.timers[:i]...), s.timers[i+1:]...)
			return true
		}
	}
	return false
}

type abortT struct{}

func newSched(p *Path) *Sched {
	return &Sched{p: p, mainDone: make(chan bool, 1), abort: make(chan bool), shadow: map[*Value]*cellHist{}, made: map[*Value]*vtimer{}}
}

func (s *Sched) newThread() *Thread {
	t := &Thread{p: s.p, w: s.p.w, id: len(s.threads), wake: make(chan bool, 1)}
	t.clock = make(vclock, t.id+1)
	t.clock[t.id] = 1
	s.threads = append(s.threads, t)
	return t
}

// runMain executes fn as thread 0 and returns how the path ended.
func (s *Sched) runMain(fn *ssa.Function) pathEnd {
	t := s.newThread()
	s.cur = t
	s.body(t, func() { t.call(fn, nil, nil) })
	// unwind the threads left behind
	close(s.abort)
	s.wg.Wait()
	return s.end
}

func (s *Sched) finish(e pathEnd) {
	if !s.ended {
		s.ended = true
		s.end = e
	}
}

// body runs f and turns the way it ended into a path end where needed.
func (s *Sched) body(t *Thread, f func()) (ok bool) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch r := r.(type) {
		case abortT:
		case pathEnd:
			s.finish(r)
		case targetPanic:
			if !s.ended {
				s.p.violation(nil, "panic", r.msg+" at "+shortWhere(r.where), s.p.model)
				s.finish(pathEnd{"violation", r.msg})
			}
		default:
			msg := fmt.Sprintf("internal error: %v in %s", r, t.where())
			if debugOn {
				msg += "\n" + stack()
			}
			s.finish(pathEnd{"fatal", msg})
		}
	}()
	f()
	return true
}

func shortWhere(w string) string {
	parts := strings.Split(w, " < ")
	for _, p := range parts {
		if strings.Contains(p, "visigoth") {
			return p
		}
	}
	return parts[0]
}

func (th *Thread) spawn(fv Value, args []Value, in ssa.Instruction) *Thread {
	s := th.p.sched
	t := s.newThread()
	s.active = true
	t.clock.join(th.clock)
	t.clock[t.id] = 1
	th.clock[th.id]++
	if len(s.threads) > 5000 {
		panic(th.p.unsupported("more than 5000 goroutines"))
	}
	s.wg.Add(1)
	go func() {
		defer s.wg.Done()
		select {
		case <-t.wake:
		case <-s.abort:
			return
		}
		ok := s.body(t, func() { t.callFn(nil, fv, args, in) })
		t.done = true
		if !ok || s.ended {
			s.toMain()
			return
		}
		s.body(t, func() { s.next(t, false) })
		if s.ended {
			s.toMain()
		}
	}()
	return t
}

// toMain wakes thread 0 so that it can end the path.
func (s *Sched) toMain() {
	m := s.threads[0]
	select {
	case m.wake <- true:
	default:
	}
}

func (t *Thread) runnable() bool {
	return !t.done && (t.blocked == nil || t.blocked())
}

// next hands control to another thread; me is finished or waits.
func (s *Sched) next(me *Thread, canStay bool) {
	var opts []*Thread
again:
	if canStay {
		opts = append(opts, me)
	}
	for _, t := range s.threads {
		if t != me && t.runnable() {
			opts = append(opts, t)
		}
	}
	if !canStay && me.runnable() {
		opts = append(opts, me)
	}
	if len(opts) == 0 {
		if s.elapse(me) {
			goto again
		}
		s.deadlock()
	}
	k := 0
	if len(opts) > 1 {
		switch s.policy {
		case 0:
			k = s.p.choose("sched", len(opts))
		case 2:
			k = len(opts) - 1
		case 3, 4:
			for i, t := range opts {
				if t.id < opts[k].id == (s.policy == 3) && t != opts[k] {
					k = i
				}
			}
		}
		s.p.schedLog = append(s.p.schedLog, k)
	}
	t := opts[k]
	if t == me {
		return
	}
	if canStay {
		s.preempts++
	}
	s.cur = t
	t.wake <- true
	if me.done {
		return
	}
	select {
	case <-me.wake:
	case <-s.abort:
		panic(abortT{})
	}
	if s.ended {
		panic(abortT{})
	}
}

func (s *Sched) deadlock() {
	var parts []string
	for _, t := range s.threads {
		if !t.done {
			parts = append(parts, fmt.Sprintf("goroutine %d waits for %s in %s", t.id, t.why, shortWhere(t.where())))
		}
	}
	s.p.violation(nil, "deadlock", "deadlock: "+strings.Join(parts, "; "), s.p.model)
	s.finish(pathEnd{"violation", "deadlock"})
	panic(abortT{})
}

// point is a scheduling point: another thread may run first.
func (th *Thread) point() {
	s := th.p.sched
	bound := s.bound
	if th.w.run.racy != nil {
		bound = max(bound, 2)
	}
	if th.quiet || !s.active || s.policy < 3 && s.preempts >= bound {
		return
	}
	n := 0
	for _, t := range s.threads {
		if t != th && t.runnable() {
			n++
		}
	}
	if n > 0 {
		s.next(th, true)
	}
}

// wait blocks until cond holds.
func (th *Thread) wait(why string, cond func() bool) {
	if cond() {
		return
	}
	if th.quiet {
		panic(th.p.unsupported("blocking during package initialisation"))
	}
	s := th.p.sched
	for !cond() {
		th.blocked, th.why = cond, why
		s.next(th, false)
		th.blocked, th.why = nil, ""
	}
}

// ---- happens-before ----

// site is where an access happens: the instruction, and for reports the
// innermost position in the code under test.
type site struct {
	fn, in   *ssa.Function
	instr    ssa.Instruction
	inInstr  ssa.Instruction
	internal bool // the access is one of the harness itself
}

type cellHist struct {
	wt, wc int // last write: thread, clock
	wpos   site
	reads  []readRec
	// atomic accesses conflict with plain ones only
	awrites, areads []readRec
}

type readRec struct {
	t, c int
	pos  site
}

func (th *Thread) acquire(c vclock) { th.clock.join(c) }

func (th *Thread) release(c *vclock) {
	c.join(th.clock)
	for len(th.clock) <= th.id {
		th.clock = append(th.clock, 0)
	}
	th.clock[th.id]++
}

func (th *Thread) accessDeep(a *Value, write bool) {
	if !th.p.sched.active || th.quiet {
		return
	}
	switch v := (*a).(type) {
	case Struct:
		for i := range v {
			th.accessDeep(&v[i], write)
		}
		return
	case Array:
		for i := range v {
			th.accessDeep(&v[i], write)
		}
		return
	}
	th.access(a, write)
}

func (th *Thread) access(a *Value, write bool) {
	s := th.p.sched
	if !s.active || th.quiet {
		return
	}
	h := s.shadow[a]
	if h == nil {
		h = &cellHist{wt: -1}
		s.shadow[a] = h
	}
	if h.wt >= 0 && h.wt != th.id && th.clock.get(h.wt) < h.wc {
		th.race(write, "write", h.wpos)
	}
	for _, r := range h.awrites {
		if r.t != th.id && th.clock.get(r.t) < r.c {
			th.race(write, "atomic write", r.pos)
		}
	}
	me := th.clock.get(th.id)
	if write {
		for _, r := range h.reads {
			if r.t != th.id && th.clock.get(r.t) < r.c {
				th.race(write, "read", r.pos)
			}
		}
		for _, r := range h.areads {
			if r.t != th.id && th.clock.get(r.t) < r.c {
				th.race(write, "atomic read", r.pos)
			}
		}
		h.awrites, h.areads = nil, nil
		h.wt, h.wc, h.wpos = th.id, me, th.here()
		h.reads = h.reads[:0]
		return
	}
	h.reads = th.record(h.reads, me)
}

func (th *Thread) record(l []readRec, me int) []readRec {
	for i := range l {
		if r := &l[i]; r.t == th.id {
			if r.c != me {
				r.c, r.pos = me, th.here()
			}
			return l
		}
	}
	return append(l, readRec{th.id, me, th.here()})
}

// accessAtomic is an access by sync/atomic: it needs to be ordered with plain
// accesses only.
func (th *Thread) accessAtomic(a *Value, write bool) {
	s := th.p.sched
	if !s.active || th.quiet {
		return
	}
	h := s.shadow[a]
	if h == nil {
		h = &cellHist{wt: -1}
		s.shadow[a] = h
	}
	if h.wt >= 0 && h.wt != th.id && th.clock.get(h.wt) < h.wc {
		th.race(write, "write", h.wpos)
	}
	me := th.clock.get(th.id)
	if !write {
		h.areads = th.record(h.areads, me)
		return
	}
	for _, r := range h.reads {
		if r.t != th.id && th.clock.get(r.t) < r.c {
			th.race(write, "read", r.pos)
		}
	}
	h.awrites = th.record(h.awrites, me)
}

// here is the site of the current access.
func (th *Thread) here() site {
	var st site
	if th.top == nil {
		return st
	}
	st.fn, st.instr = th.top.cf.fn, th.top.cur
	st.internal = st.fn.Pkg == th.p.w.run.fn.Pkg
	for f := th.top; f != nil; f = f.caller {
		fn := f.cf.fn
		for fn.Parent() != nil {
			fn = fn.Parent()
		}
		if fn.Pkg != nil && strings.HasSuffix(fn.Pkg.Pkg.Path(), "visigoth") {
			st.in, st.inInstr = f.cf.fn, f.cur
			break
		}
	}
	return st
}

func (th *Thread) siteName(st site) string {
	if st.in == nil {
		return "outside the code under test"
	}
	pkg := st.in.Pkg
	for f := st.in; pkg == nil && f.Parent() != nil; f = f.Parent() {
		pkg = f.Parent().Pkg
	}
	pos := ""
	if st.inInstr != nil && st.inInstr.Pos().IsValid() {
		ps := th.w.eng.prog.Fset.Position(st.inInstr.Pos())
		pos = fmt.Sprintf(" (%s:%d)", shortFile(ps.Filename), ps.Line)
	}
	if pkg == nil {
		return st.in.String() + pos
	}
	return st.in.RelString(pkg.Pkg) + pos
}

// race is called for two accesses without happens-before. Where races are the
// property it is a violation; elsewhere the accesses become scheduling points
// of a second exploration.
func (th *Thread) race(write bool, other string, pos site) {
	cur := th.here()
	if !th.p.races {
		if !cur.internal && !pos.internal {
			r := th.w.run
			r.mu.Lock()
			r.racySeen[cur.instr] = true
			r.racySeen[pos.instr] = true
			r.mu.Unlock()
		}
		return
	}
	me := "read"
	if write {
		me = "write"
	}
	a, b := me+" in "+th.siteName(cur), other+" in "+th.siteName(pos)
	if a > b {
		a, b = b, a
	}
	th.p.violation(th, "race", "data race: "+a+" and "+b, th.p.model)
	th.p.sched.finish(pathEnd{"violation", "race"})
	panic(pathEnd{"violation", "race"})
}

// ---- locks ----

type lockState struct {
	writer  *Thread
	readers map[*Thread]int
	nread   int
	pending []*Thread // writers waiting: new readers queue behind them
	rel     vclock    // released by writers
	rrel    vclock    // released by readers
	cnt     int64     // wait group
	doneOn  bool      // once
	busy    *Thread
	store   []Value // pool
	m       *Map
}

func (th *Thread) lockOf(a Value) *lockState {
	ptr, ok := a.(*Value)
	if !ok || ptr == nil {
		th.runtimePanic("invalid memory address or nil pointer dereference")
	}
	l := th.p.locks[ptr]
	if l == nil {
		l = &lockState{readers: map[*Thread]int{}}
		th.p.locks[ptr] = l
	}
	return l
}

func (th *Thread) lock(l *lockState) {
	th.point()
	free := func() bool { return l.writer == nil && l.nread == 0 }
	if !free() {
		l.pending = append(l.pending, th)
		th.wait("a lock", free)
		for i, t := range l.pending {
			if t == th {
				l.pending = append(l.pending[:i:i], l.pending[i+1:]...)
				break
			}
		}
	}
	l.writer = th
	th.acquire(l.rel)
	th.acquire(l.rrel)
}

func (th *Thread) unlock(l *lockState) {
	if l.writer == nil {
		th.fatalError("sync: unlock of unlocked mutex")
	}
	th.release(&l.rel)
	l.writer = nil
	th.pointAfter()
}

func (th *Thread) tryLock(l *lockState) bool {
	th.point()
	if l.writer != nil || l.nread > 0 {
		return false
	}
	l.writer = th
	th.acquire(l.rel)
	th.acquire(l.rrel)
	return true
}

func (th *Thread) rlock(l *lockState) {
	th.point()
	th.wait("a read lock", func() bool { return l.writer == nil && !l.writerWaiting() })
	l.readers[th]++
	l.nread++
	th.acquire(l.rel)
}

// a reader already queued when the writer arrived gets in first in Go; a
// writer that waits blocks the readers that come later.
func (l *lockState) writerWaiting() bool { return len(l.pending) > 0 && l.nread > 0 }

func (th *Thread) tryRLock(l *lockState) bool {
	th.point()
	if l.writer != nil || len(l.pending) > 0 {
		return false
	}
	l.readers[th]++
	l.nread++
	th.acquire(l.rel)
	return true
}

func (th *Thread) runlock(l *lockState) {
	if l.nread == 0 {
		th.fatalError("sync: RUnlock of unlocked RWMutex")
	}
	th.release(&l.rrel)
	l.nread--
	if l.readers[th] > 0 {
		l.readers[th]--
	}
	th.pointAfter()
}

func (th *Thread) pointAfter() {}

func (th *Thread) fatalError(msg string) {
	th.p.violation(th, "panic", "fatal error: "+msg, th.p.model)
	th.p.sched.finish(pathEnd{"violation", msg})
	panic(pathEnd{"violation", msg})
}

// ---- channels ----

type Chan struct {
	cap    int
	buf    []Value
	closed bool
	elem   types.Type
	// rendezvous for unbuffered channels
	sendq []*sendItem
	nrecv int // receivers waiting
	rel   vclock
}

type sendItem struct {
	v     Value
	taken bool
	clock vclock
}

func newChan(n int, el types.Type) *Chan { return &Chan{cap: n, elem: el} }

func (th *Thread) chanSend(c *Chan, v Value) {
	th.point()
	if c == nil {
		th.wait("a nil channel", func() bool { return false })
	}
	if c.closed {
		th.runtimePanic("send on closed channel")
	}
	if c.cap > 0 {
		th.wait("a channel send", func() bool { return len(c.buf) < c.cap || c.closed })
		if c.closed {
			th.runtimePanic("send on closed channel")
		}
		th.release(&c.rel)
		c.buf = append(c.buf, copyVal(v))
		return
	}
	it := &sendItem{v: copyVal(v)}
	th.release(&c.rel)
	c.sendq = append(c.sendq, it)
	th.wait("a channel send", func() bool { return it.taken || c.closed })
	if !it.taken {
		th.runtimePanic("send on closed channel")
	}
	th.acquire(c.rel)
}

func (c *Chan) ready() bool { return len(c.buf) > 0 || len(c.sendq) > 0 || c.closed }

func (th *Thread) chanRecv(c *Chan) (Value, bool) {
	th.point()
	if c == nil {
		th.wait("a nil channel", func() bool { return false })
	}
	c.nrecv++
	th.wait("a channel receive", c.ready)
	c.nrecv--
	return th.recvNow(c)
}

func (th *Thread) recvNow(c *Chan) (Value, bool) {
	th.acquire(c.rel)
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = append([]Value(nil), c.buf[1:]...)
		th.release(&c.rel)
		return v, true
	}
	if len(c.sendq) > 0 {
		it := c.sendq[0]
		c.sendq = append([]*sendItem(nil), c.sendq[1:]...)
		it.taken = true
		th.release(&c.rel)
		return it.v, true
	}
	return th.w.zero(c.elem), false
}

func (th *Thread) chanClose(c *Chan) {
	if c == nil {
		th.runtimePanic("close of nil channel")
	}
	if c.closed {
		th.runtimePanic("close of closed channel")
	}
	th.point()
	th.release(&c.rel)
	c.closed = true
}

// sel executes a select statement.
func (fr *frame) sel(in *ssa.Select, ci *cinstr) Value {
	th := fr.th
	th.point()
	type st struct {
		c    *Chan
		send bool
		v    Value
	}
	var sts []st
	for i, s := range in.States {
		c, _ := fr.get(&ci.ops[2*i]).(*Chan)
		x := st{c: c, send: s.Dir == types.SendOnly}
		if x.send {
			x.v = fr.get(&ci.ops[2*i+1])
		}
		sts = append(sts, x)
	}
	can := func(x st) bool {
		if x.c == nil {
			return false
		}
		if x.send {
			return x.c.closed || len(x.c.buf) < x.c.cap || (x.c.cap == 0 && x.c.nrecv > len(x.c.sendq))
		}
		return x.c.ready()
	}
	any := func() bool {
		for _, x := range sts {
			if can(x) {
				return true
			}
		}
		return false
	}
	idx := -1
	if in.Blocking || any() {
		if !any() {
			for _, x := range sts {
				if x.c != nil && !x.send {
					x.c.nrecv++
				}
			}
			th.wait("a select", any)
			for _, x := range sts {
				if x.c != nil && !x.send {
					x.c.nrecv--
				}
			}
		}
		var ready []int
		for i, x := range sts {
			if can(x) {
				ready = append(ready, i)
			}
		}
		k := 0
		if len(ready) > 1 {
			k = th.p.choose("select", len(ready))
			th.p.nondet = true
		}
		idx = ready[k]
	}
	r := Tuple{th.w.c.Int(int64(idx)), th.w.c.False}
	for i, x := range sts {
		if x.send {
			if i == idx {
				th.chanSend(x.c, x.v)
			}
			continue
		}
		el := under(in.States[i].Chan.Type()).(*types.Chan).Elem()
		if i == idx {
			v, ok := th.recvNow(x.c)
			r[1] = th.w.c.Bool(ok)
			r = append(r, v)
		} else {
			r = append(r, th.w.zero(el))
		}
	}
	return r
}
