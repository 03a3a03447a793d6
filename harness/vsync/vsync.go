// Package vsync stands in for package sync when a schedule found by the
// symbolic executor is replayed natively: the same scheduling points, with the
// recorded choices. With control off it is plain sync.
package vsync

import (
	"fmt"
	"math/rand/v2"
	"runtime"
	"sync"
	"time"
)

type (
	Pool   = sync.Pool
	Locker = sync.Locker
)

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var w U
	return func() (T, U) {
		o.Do(func() { v, w = f() })
		return v, w
	}
}

type thread struct {
	id      int
	wake    chan bool
	blocked func() bool
	done    bool
}

type Deadlock struct{}

type world struct {
	threads   []*thread
	cur       *thread
	sched     []int
	pos       int
	bound     int
	unbounded bool
	preempts  int
	dead      chan bool
	failed    any
}

var (
	on  bool
	cur *world
	hg  []*thread
	hwg sync.WaitGroup
)

// Begin starts a native run.
func Begin(sched []int, control bool) {
	on = control
	hg = nil
	chans = map[uintptr]*chanState{}
	w := &world{sched: sched, dead: make(chan bool)}
	w.newThread()
	w.cur = w.threads[0]
	cur = w
}

func SetBound(n int) { cur.bound = n }

// SetUnbounded makes every scheduling point one at which the schedule is followed.
func SetUnbounded(b bool) { cur.unbounded = b }

func (w *world) newThread() *thread {
	t := &thread{id: len(w.threads), wake: make(chan bool, 1)}
	w.threads = append(w.threads, t)
	return t
}

func (t *thread) runnable() bool { return !t.done && (t.blocked == nil || t.blocked()) }

// Failed reports a panic that happened on another goroutine.
func Failed() any { return cur.failed }

func (w *world) fail(v any) {
	if w.failed == nil {
		w.failed = v
	}
	m := w.threads[0]
	select {
	case m.wake <- true:
	default:
	}
}

func (w *world) next(me *thread, canStay bool) {
	var opts []*thread
	if canStay {
		opts = append(opts, me)
	}
	for _, t := range w.threads {
		if t != me && t.runnable() {
			opts = append(opts, t)
		}
	}
	if !canStay && me.runnable() {
		opts = append(opts, me)
	}
	if len(opts) == 0 {
		if me.id == 0 {
			panic(Deadlock{})
		}
		w.fail(Deadlock{})
		if me.done {
			return
		}
		select {}
	}
	k := 0
	if len(opts) > 1 {
		if w.pos < len(w.sched) && w.sched[w.pos] < len(opts) {
			k = w.sched[w.pos]
		}
		w.pos++
	}
	t := opts[k]
	if t == me {
		return
	}
	if canStay {
		w.preempts++
	}
	w.cur = t
	t.wake <- true
	if me.done {
		return
	}
	<-me.wake
	if me.id == 0 && w.failed != nil {
		panic(w.failed)
	}
}

// Point is a scheduling point of its own.
func Point() { point() }

// Jitter, without control, yields at random at the scheduling points.
var Jitter bool

func jitter() {
	if !Jitter {
		return
	}
	switch n := rand.Uint32() % 16; {
	case n < 6:
		runtime.Gosched()
	case n == 6:
		time.Sleep(time.Duration(rand.Uint32()%50) * time.Microsecond)
	}
}

func point() {
	if !on {
		jitter()
		return
	}
	w := cur
	if len(w.threads) < 2 || !w.unbounded && w.preempts >= w.bound {
		return
	}
	me := w.cur
	for _, t := range w.threads {
		if t != me && t.runnable() {
			w.next(me, true)
			return
		}
	}
}

func wait(cond func() bool) {
	w := cur
	me := w.cur
	for !cond() {
		me.blocked = cond
		w.next(me, false)
		me.blocked = nil
	}
}

// Go replaces the go statement.
func Go(f func()) {
	if !on {
		jitter()
		go f()
		return
	}
	spawn(f)
}

func spawn(f func()) *thread {
	w := cur
	t := w.newThread()
	go func() {
		<-t.wake
		defer func() {
			if r := recover(); r != nil {
				t.done = true
				w.fail(r)
			}
		}()
		f()
		t.done = true
		w.next(t, false)
	}()
	return t
}

func HarnessGo(f func()) {
	if !on {
		hwg.Add(1)
		w := cur
		go func() {
			defer hwg.Done()
			defer func() {
				if r := recover(); r != nil {
					failMu.Lock()
					if w.failed == nil {
						w.failed = r
					}
					failMu.Unlock()
				}
			}()
			f()
		}()
		return
	}
	hg = append(hg, spawn(f))
}

var failMu sync.Mutex

func HarnessJoin() {
	if !on {
		hwg.Wait()
		failMu.Lock()
		f := cur.failed
		failMu.Unlock()
		if f != nil {
			panic(f)
		}
		return
	}
	ts := hg
	wait(func() bool {
		for _, t := range ts {
			if !t.done {
				return false
			}
		}
		return true
	})
	hg = nil
}

// ---- Mutex ----

type Mutex struct {
	mu      sync.Mutex
	held    bool
	pending int
}

func (m *Mutex) Lock() {
	if !on {
		jitter()
		m.mu.Lock()
		return
	}
	point()
	wait(func() bool { return !m.held })
	m.held = true
}

func (m *Mutex) Unlock() {
	if !on {
		jitter()
		m.mu.Unlock()
		return
	}
	if !m.held {
		panic(fmt.Errorf("sync: unlock of unlocked mutex"))
	}
	m.held = false
}

func (m *Mutex) TryLock() bool {
	if !on {
		return m.mu.TryLock()
	}
	point()
	if m.held {
		return false
	}
	m.held = true
	return true
}

// ---- RWMutex ----

type RWMutex struct {
	mu      sync.RWMutex
	held    bool
	nread   int
	pending int
}

func (m *RWMutex) Lock() {
	if !on {
		jitter()
		m.mu.Lock()
		return
	}
	point()
	free := func() bool { return !m.held && m.nread == 0 }
	if !free() {
		m.pending++
		wait(free)
		m.pending--
	}
	m.held = true
}

func (m *RWMutex) Unlock() {
	if !on {
		jitter()
		m.mu.Unlock()
		return
	}
	if !m.held {
		panic(fmt.Errorf("sync: Unlock of unlocked RWMutex"))
	}
	m.held = false
}

func (m *RWMutex) TryLock() bool {
	if !on {
		return m.mu.TryLock()
	}
	point()
	if m.held || m.nread > 0 {
		return false
	}
	m.held = true
	return true
}

func (m *RWMutex) RLock() {
	if !on {
		jitter()
		m.mu.RLock()
		return
	}
	point()
	wait(func() bool { return !m.held && !(m.pending > 0 && m.nread > 0) })
	m.nread++
}

func (m *RWMutex) RUnlock() {
	if !on {
		jitter()
		m.mu.RUnlock()
		return
	}
	if m.nread == 0 {
		panic(fmt.Errorf("sync: RUnlock of unlocked RWMutex"))
	}
	m.nread--
}

func (m *RWMutex) TryRLock() bool {
	if !on {
		return m.mu.TryRLock()
	}
	point()
	if m.held || m.pending > 0 {
		return false
	}
	m.nread++
	return true
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// ---- WaitGroup ----

type WaitGroup struct {
	wg sync.WaitGroup
	n  int
}

func (w *WaitGroup) Add(n int) {
	if !on {
		w.wg.Add(n)
		return
	}
	w.n += n
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

func (w *WaitGroup) Done() {
	if !on {
		w.wg.Done()
		return
	}
	w.Add(-1)
}

func (w *WaitGroup) Wait() {
	if !on {
		w.wg.Wait()
		return
	}
	wait(func() bool { return w.n == 0 })
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() {
		f()
		w.Done()
	})
}

// ---- Once ----

type Once struct {
	o    sync.Once
	busy bool
	done bool
}

func (o *Once) Do(f func()) {
	if !on {
		o.o.Do(f)
		return
	}
	point()
	wait(func() bool { return !o.busy })
	if o.done {
		return
	}
	o.busy = true
	defer func() { o.busy, o.done = false, true }()
	f()
}

// ---- Map ----

type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool)           { point(); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { point(); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { point(); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { point(); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { point(); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { point(); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool  { point(); return m.m.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o any) bool   { point(); return m.m.CompareAndDelete(k, o) }
func (m *Map) Clear()                           { point(); m.m.Clear() }
func (m *Map) Range(f func(k, v any) bool)      { point(); m.m.Range(f) }

// ---- Cond ----

type Cond struct {
	L       Locker
	c       *sync.Cond
	waits   int
	signals int
}

func NewCond(l Locker) *Cond { return &Cond{L: l, c: sync.NewCond(l)} }

func (c *Cond) Wait() {
	if !on {
		c.c.Wait()
		return
	}
	t := c.waits
	c.waits++
	c.L.Unlock()
	wait(func() bool { return c.signals > t })
	c.L.Lock()
}

func (c *Cond) Signal() {
	if !on {
		c.c.Signal()
		return
	}
	if c.signals < c.waits {
		c.signals++
	}
}

func (c *Cond) Broadcast() {
	if !on {
		c.c.Broadcast()
		return
	}
	c.signals = c.waits
}
