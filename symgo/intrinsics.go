package main

// Functions that are not run from their source: the harness interface, the
// synchronisation primitives, functions without a Go body, and a few whose
// exact result is cheaper to state as a term (character classes).

import (
	"fmt"
	"go/types"
	"math"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

var debugOn = os.Getenv("SYMGO_DEBUG") != ""

func stack() string { return string(debug.Stack()) }

type intrinsic func(th *Thread, fn *ssa.Function, args []Value) Value

var intrinsics map[string]intrinsic

const svPkg = "svharness/sv"

func lookupIntrinsic(fn *ssa.Function) intrinsic {
	f := fn
	if o := fn.Origin(); o != nil {
		f = o
	}
	if h, ok := intrinsics[f.String()]; ok {
		return h
	}
	if f.Pkg != nil && f.Pkg.Pkg.Path() == svPkg && f.Name() != "init" {
		return func(th *Thread, fn *ssa.Function, args []Value) Value {
			panic(th.p.unsupported("harness function " + fn.String()))
		}
	}
	return nil
}

func (th *Thread) str(v Value) string {
	s := v.(Str)
	if s.b == nil {
		return s.s
	}
	b := make([]byte, len(s.b))
	for i, t := range s.b {
		b[i] = byte(th.p.concretize(t))
	}
	return string(b)
}

func tb(v Value) *Term { return v.(*Term) }

func reg(name string, f intrinsic) { intrinsics[name] = f }

func svf(name string, f intrinsic) { intrinsics[svPkg+"."+name] = f }

func init() {
	intrinsics = map[string]intrinsic{}
	regHarness()
	regSync()
	regText()
	regMisc()
	regReflect()
}

func regHarness() {
	svf("Byte", func(th *Thread, _ *ssa.Function, a []Value) Value {
		return th.p.newVar(th.str(a[0]), 8, uint64(th.concInt(a[1])), uint64(th.concInt(a[2])), true)
	})
	svf("Bool", func(th *Thread, _ *ssa.Function, a []Value) Value {
		v := th.p.newVar(th.str(a[0]), 8, 0, 1, true)
		return th.p.c.Eq(v, th.p.c.Const(8, 1))
	})
	svf("Int", func(th *Thread, _ *ssa.Function, a []Value) Value {
		lo, hi := th.concInt(a[1]), th.concInt(a[2])
		if lo < 0 {
			// signed range: shift a non-negative variable
			v := th.p.newVar(th.str(a[0]), 64, 0, uint64(hi)-uint64(lo), true)
			return th.p.c.Bin(OAdd, v, th.p.c.Int(int64(lo)))
		}
		return th.p.newVar(th.str(a[0]), 64, uint64(lo), uint64(hi), true)
	})
	svf("Int64", func(th *Thread, _ *ssa.Function, a []Value) Value {
		return th.p.newVar(th.str(a[0]), 64, 0, ^uint64(0), true)
	})
	svf("Rune", func(th *Thread, _ *ssa.Function, a []Value) Value {
		lo, hi := th.concInt(a[1]), th.concInt(a[2])
		return th.p.newVar(th.str(a[0]), 32, uint64(lo), uint64(hi), true)
	})
	svf("Choose", func(th *Thread, _ *ssa.Function, a []Value) Value {
		n := th.concInt(a[1])
		return th.p.c.Int(int64(th.p.choose(th.str(a[0]), n)))
	})
	svf("Str", func(th *Thread, _ *ssa.Function, a []Value) Value {
		name, n := th.str(a[0]), th.concInt(a[1])
		return th.symStr(name, n, 0, 255)
	})
	svf("StrIn", func(th *Thread, _ *ssa.Function, a []Value) Value {
		name, n := th.str(a[0]), th.concInt(a[1])
		return th.symStr(name, n, uint64(th.concInt(a[2])), uint64(th.concInt(a[3])))
	})
	svf("Pick", func(th *Thread, _ *ssa.Function, a []Value) Value {
		// one of several strings; equal lengths give one symbolic string
		name := th.str(a[0])
		ss := a[1].(Slice)
		n := ss[0].(Str).Len()
		for _, s := range ss {
			if s.(Str).Len() != n {
				return ss[th.p.choose(name, len(ss))]
			}
		}
		v := th.p.newVar(name, 32, 0, uint64(len(ss)-1), true)
		r := Value(ss[len(ss)-1])
		for i := len(ss) - 2; i >= 0; i-- {
			r = th.p.merge(th.p.c.Eq(v, th.p.c.Const(32, uint64(i))), ss[i], r)
		}
		return r
	})
	svf("Assume", func(th *Thread, _ *ssa.Function, a []Value) Value {
		th.p.assume(tb(a[0]))
		return nil
	})
	svf("Assert", func(th *Thread, _ *ssa.Function, a []Value) Value {
		th.p.assert(th, tb(a[0]), th.str(a[1]))
		return nil
	})
	svf("Seek", func(th *Thread, _ *ssa.Function, a []Value) Value {
		th.p.seek(th, tb(a[0]), th.str(a[1]))
		return nil
	})
	svf("Cover", func(th *Thread, _ *ssa.Function, a []Value) Value {
		n := th.str(a[0])
		r := th.p.w.run
		r.mu.Lock()
		r.covers[n]++
		r.mu.Unlock()
		return nil
	})
	svf("Observe", func(th *Thread, _ *ssa.Function, a []Value) Value {
		th.p.obs = append(th.p.obs, obsRec{th.str(a[0]), th.snapshot(a[1].(Slice))})
		return nil
	})
	svf("And", func(th *Thread, _ *ssa.Function, a []Value) Value {
		r := th.p.c.True
		for _, x := range a[0].(Slice) {
			r = th.p.c.And(r, tb(x))
		}
		return r
	})
	svf("Or", func(th *Thread, _ *ssa.Function, a []Value) Value {
		r := th.p.c.False
		for _, x := range a[0].(Slice) {
			r = th.p.c.Or(r, tb(x))
		}
		return r
	})
	svf("Not", func(th *Thread, _ *ssa.Function, a []Value) Value { return th.p.c.Not(tb(a[0])) })
	svf("Imp", func(th *Thread, _ *ssa.Function, a []Value) Value {
		return th.p.c.Or(th.p.c.Not(tb(a[0])), tb(a[1]))
	})
	svf("Iff", func(th *Thread, _ *ssa.Function, a []Value) Value { return th.p.c.Eq(tb(a[0]), tb(a[1])) })
	svf("IteInt", func(th *Thread, _ *ssa.Function, a []Value) Value { return th.p.c.Ite(tb(a[0]), tb(a[1]), tb(a[2])) })
	svf("EqStrs", func(th *Thread, _ *ssa.Function, a []Value) Value {
		x, y := a[0].(Slice), a[1].(Slice)
		if len(x) != len(y) {
			return th.p.c.False
		}
		r := th.p.c.True
		for i := range x {
			r = th.p.c.And(r, th.p.strEq(x[i].(Str), y[i].(Str)))
		}
		return r
	})
	svf("EqInts", func(th *Thread, _ *ssa.Function, a []Value) Value {
		x, y := a[0].(Slice), a[1].(Slice)
		if len(x) != len(y) {
			return th.p.c.False
		}
		r := th.p.c.True
		for i := range x {
			r = th.p.c.And(r, th.p.c.Eq(tb(x[i]), tb(y[i])))
		}
		return r
	})
	svf("LessStr", func(th *Thread, _ *ssa.Function, a []Value) Value { return th.p.strLess(a[0].(Str), a[1].(Str)) })
	svf("Fix", func(th *Thread, _ *ssa.Function, a []Value) Value {
		return th.p.c.Int(int64(th.concInt(a[0])))
	})
	svf("Bound", func(th *Thread, _ *ssa.Function, a []Value) Value {
		name := th.str(a[0])
		v := th.concInt(a[1])
		if th.w.eng.tier == "thorough" {
			v = th.concInt(a[2])
		}
		e := th.w.eng
		e.mu.Lock()
		e.bounds[th.w.run.fn.Name()+"."+name] = v
		e.mu.Unlock()
		return th.p.c.Int(int64(v))
	})
	svf("MapOrder", func(th *Thread, _ *ssa.Function, a []Value) Value {
		th.p.mapOrder = tb(a[0]).IsTrue()
		return nil
	})
	svf("Preempt", func(th *Thread, _ *ssa.Function, a []Value) Value {
		th.p.sched.bound = th.concInt(a[0])
		return nil
	})
	svf("Order", func(th *Thread, _ *ssa.Function, a []Value) Value {
		th.p.sched.policy = th.concInt(a[0])
		return nil
	})
	svf("Tick", func(th *Thread, _ *ssa.Function, a []Value) Value {
		n, _ := th.p.aux["tick"].(int)
		n++
		th.p.aux["tick"] = n
		return th.p.c.Int(int64(n))
	})
	svf("DetectRaces", func(th *Thread, _ *ssa.Function, a []Value) Value {
		th.p.races = true
		return nil
	})
	svf("Go", func(th *Thread, _ *ssa.Function, a []Value) Value {
		t := th.spawn(a[0], nil, nil)
		ts, _ := th.p.aux["svgo"].([]*Thread)
		th.p.aux["svgo"] = append(ts, t)
		return nil
	})
	svf("Join", func(th *Thread, _ *ssa.Function, a []Value) Value {
		ts, _ := th.p.aux["svgo"].([]*Thread)
		th.wait("the harness threads", func() bool {
			for _, t := range ts {
				if !t.done {
					return false
				}
			}
			return true
		})
		for _, t := range ts {
			th.acquire(t.clock)
		}
		th.p.aux["svgo"] = []*Thread(nil)
		return nil
	})
	svf("Symbolic", func(th *Thread, _ *ssa.Function, a []Value) Value { return th.p.c.True })
	svf("IsLetter", func(th *Thread, _ *ssa.Function, a []Value) Value {
		return th.runePred("IsLetter", unicode.IsLetter, tb(a[0]))
	})
	svf("IsNumber", func(th *Thread, _ *ssa.Function, a []Value) Value {
		return th.runePred("IsNumber", unicode.IsNumber, tb(a[0]))
	})
	svf("Lower", func(th *Thread, _ *ssa.Function, a []Value) Value {
		return th.runeMap("ToLower", unicode.ToLower, tb(a[0]))
	})
}

func (th *Thread) symStr(name string, n int, lo, hi uint64) Value {
	if n == 0 {
		return Str{}
	}
	b := make([]*Term, n)
	for i := range b {
		b[i] = th.p.newVar(name+"."+strconv.Itoa(i), 8, lo, hi, true)
	}
	return Str{b: b}
}

// snapshot copies what is observed, so that later changes do not show.
func (th *Thread) snapshot(vs Slice) []Value {
	var cp func(v Value) Value
	cp = func(v Value) Value {
		switch v := v.(type) {
		case Iface:
			return Iface{v.t, cp(v.v)}
		case Slice:
			if v == nil {
				return v
			}
			n := make(Slice, len(v))
			for i := range v {
				n[i] = cp(v[i])
			}
			return n
		}
		return copyVal(v)
	}
	r := make([]Value, len(vs))
	for i := range vs {
		r[i] = cp(vs[i])
	}
	return r
}

// renderObs prints observed values under the path's model, in the same form
// as the native harness library.
func (p *Path) renderObs(vs []Value) string {
	var parts []string
	for _, v := range vs {
		i := v.(Iface)
		parts = append(parts, p.renderVal(i.t, i.v))
	}
	return strings.Join(parts, " ")
}

func (p *Path) renderVal(t types.Type, v Value) string {
	switch v := v.(type) {
	case nil:
		return "nil"
	case *Term:
		x := p.c.Eval(v, p.model)
		if v.w == 0 {
			return strconv.FormatBool(x == 1)
		}
		if _, sg, _ := intInfo(t); sg {
			return strconv.FormatInt(sext64(x, v.w), 10)
		}
		return strconv.FormatUint(x, 10)
	case Str:
		b := make([]byte, v.Len())
		for i := range b {
			b[i] = byte(p.c.Eval(p.byteAt(v, i), p.model))
		}
		return strconv.Quote(string(b))
	case Slice:
		var el types.Type
		if sl, ok := under(t).(*types.Slice); ok {
			el = sl.Elem()
		}
		var parts []string
		for _, x := range v {
			parts = append(parts, p.renderVal(el, x))
		}
		return "[" + strings.Join(parts, " ") + "]"
	}
	return fmt.Sprintf("?%T", v)
}

// ---- synchronisation ----

func regSync() {
	for _, m := range []string{"sync", "internal/sync"} {
		reg("(*"+m+".Mutex).Lock", func(th *Thread, _ *ssa.Function, a []Value) Value { th.lock(th.lockOf(a[0])); return nil })
		reg("(*"+m+".Mutex).Unlock", func(th *Thread, _ *ssa.Function, a []Value) Value { th.unlock(th.lockOf(a[0])); return nil })
		reg("(*"+m+".Mutex).TryLock", func(th *Thread, _ *ssa.Function, a []Value) Value {
			return th.p.c.Bool(th.tryLock(th.lockOf(a[0])))
		})
	}
	reg("(*sync.RWMutex).Lock", func(th *Thread, _ *ssa.Function, a []Value) Value { th.lock(th.lockOf(a[0])); return nil })
	reg("(*sync.RWMutex).Unlock", func(th *Thread, _ *ssa.Function, a []Value) Value { th.unlock(th.lockOf(a[0])); return nil })
	reg("(*sync.RWMutex).TryLock", func(th *Thread, _ *ssa.Function, a []Value) Value {
		return th.p.c.Bool(th.tryLock(th.lockOf(a[0])))
	})
	reg("(*sync.RWMutex).RLock", func(th *Thread, _ *ssa.Function, a []Value) Value { th.rlock(th.lockOf(a[0])); return nil })
	reg("(*sync.RWMutex).RUnlock", func(th *Thread, _ *ssa.Function, a []Value) Value { th.runlock(th.lockOf(a[0])); return nil })
	reg("(*sync.RWMutex).TryRLock", func(th *Thread, _ *ssa.Function, a []Value) Value {
		return th.p.c.Bool(th.tryRLock(th.lockOf(a[0])))
	})

	wgAdd := func(th *Thread, l *lockState, n int64) {
		if n < 0 {
			th.release(&l.rel)
		}
		l.cnt += n
		if l.cnt < 0 {
			panic(targetPanic{v: Iface{t: types.Typ[types.String], v: Str{s: "sync: negative WaitGroup counter"}}, msg: "panic: sync: negative WaitGroup counter", where: th.where()})
		}
	}
	reg("(*sync.WaitGroup).Add", func(th *Thread, _ *ssa.Function, a []Value) Value {
		wgAdd(th, th.lockOf(a[0]), int64(th.concInt(a[1])))
		return nil
	})
	reg("(*sync.WaitGroup).Done", func(th *Thread, _ *ssa.Function, a []Value) Value {
		wgAdd(th, th.lockOf(a[0]), -1)
		return nil
	})
	reg("(*sync.WaitGroup).Wait", func(th *Thread, _ *ssa.Function, a []Value) Value {
		l := th.lockOf(a[0])
		th.wait("a wait group", func() bool { return l.cnt == 0 })
		th.acquire(l.rel)
		return nil
	})
	reg("(*sync.WaitGroup).Go", func(th *Thread, _ *ssa.Function, a []Value) Value {
		l := th.lockOf(a[0])
		wgAdd(th, l, 1)
		f := a[1]
		th.spawn(&Native{"wg.Go", func(th *Thread, _ []Value) Value {
			th.callValue(f, nil)
			wgAdd(th, l, -1)
			return nil
		}}, nil, nil)
		return nil
	})
	reg("(*sync.Once).Do", func(th *Thread, _ *ssa.Function, a []Value) Value {
		l := th.lockOf(a[0])
		th.point()
		th.wait("a sync.Once", func() bool { return l.busy == nil })
		if l.doneOn {
			th.acquire(l.rel)
			return nil
		}
		l.busy = th
		defer func() {
			l.busy = nil
			l.doneOn = true
			th.release(&l.rel)
		}()
		th.callValue(a[1], nil)
		return nil
	})
	reg("(*sync.Pool).Get", func(th *Thread, fn *ssa.Function, a []Value) Value {
		l := th.lockOf(a[0])
		if n := len(l.store); n > 0 {
			v := l.store[n-1]
			l.store = l.store[:n-1]
			th.acquire(l.rel)
			return v
		}
		st := under(under(fn.Signature.Recv().Type()).(*types.Pointer).Elem()).(*types.Struct)
		pool := (*(a[0].(*Value))).(Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "New" && !isNilVal(pool[i]) {
				return th.callValue(pool[i], nil)
			}
		}
		return Iface{}
	})
	reg("(*sync.Pool).Put", func(th *Thread, _ *ssa.Function, a []Value) Value {
		if a[1].(Iface).t == nil {
			return nil
		}
		l := th.lockOf(a[0])
		th.release(&l.rel)
		l.store = append(l.store, a[1])
		return nil
	})
	// sync.Map
	sm := func(th *Thread, a Value) *lockState {
		l := th.lockOf(a)
		if l.m == nil {
			l.m = newMap(nil, nil)
		}
		th.point()
		th.acquire(l.rel)
		return l
	}
	smGet := func(th *Thread, l *lockState, k Value) (Value, bool) {
		if e := th.find(l.m, k); e != nil {
			return e.v, true
		}
		return Iface{}, false
	}
	smSet := func(th *Thread, l *lockState, k, v Value) {
		th.release(&l.rel)
		q := th.quiet
		th.quiet = true
		th.mapUpdate(l.m, k, v)
		th.quiet = q
	}
	smDel := func(th *Thread, l *lockState, k Value) {
		th.release(&l.rel)
		if e := th.find(l.m, k); e != nil {
			l.m.remove(e)
		}
	}
	reg("(*sync.Map).Load", func(th *Thread, _ *ssa.Function, a []Value) Value {
		v, ok := smGet(th, sm(th, a[0]), a[1])
		return Tuple{v, th.p.c.Bool(ok)}
	})
	reg("(*sync.Map).Store", func(th *Thread, _ *ssa.Function, a []Value) Value {
		smSet(th, sm(th, a[0]), a[1], a[2])
		return nil
	})
	reg("(*sync.Map).LoadOrStore", func(th *Thread, _ *ssa.Function, a []Value) Value {
		l := sm(th, a[0])
		if v, ok := smGet(th, l, a[1]); ok {
			return Tuple{v, th.p.c.True}
		}
		smSet(th, l, a[1], a[2])
		return Tuple{a[2], th.p.c.False}
	})
	reg("(*sync.Map).LoadAndDelete", func(th *Thread, _ *ssa.Function, a []Value) Value {
		l := sm(th, a[0])
		v, ok := smGet(th, l, a[1])
		smDel(th, l, a[1])
		return Tuple{v, th.p.c.Bool(ok)}
	})
	reg("(*sync.Map).Delete", func(th *Thread, _ *ssa.Function, a []Value) Value {
		smDel(th, sm(th, a[0]), a[1])
		return nil
	})
	reg("(*sync.Map).Swap", func(th *Thread, _ *ssa.Function, a []Value) Value {
		l := sm(th, a[0])
		v, ok := smGet(th, l, a[1])
		smSet(th, l, a[1], a[2])
		return Tuple{v, th.p.c.Bool(ok)}
	})
	reg("(*sync.Map).CompareAndSwap", func(th *Thread, _ *ssa.Function, a []Value) Value {
		l := sm(th, a[0])
		v, ok := smGet(th, l, a[1])
		if ok && th.p.branch(th.equal(v, a[2])) {
			smSet(th, l, a[1], a[3])
			return th.p.c.True
		}
		return th.p.c.False
	})
	reg("(*sync.Map).CompareAndDelete", func(th *Thread, _ *ssa.Function, a []Value) Value {
		l := sm(th, a[0])
		v, ok := smGet(th, l, a[1])
		if ok && th.p.branch(th.equal(v, a[2])) {
			smDel(th, l, a[1])
			return th.p.c.True
		}
		return th.p.c.False
	})
	reg("(*sync.Map).Clear", func(th *Thread, _ *ssa.Function, a []Value) Value {
		l := sm(th, a[0])
		th.release(&l.rel)
		l.m.clear()
		return nil
	})
	reg("(*sync.Map).Range", func(th *Thread, _ *ssa.Function, a []Value) Value {
		l := sm(th, a[0])
		q := th.quiet
		th.quiet = true
		it := th.newMapIter(l.m)
		for {
			ok, e := it.next(th)
			if !ok {
				break
			}
			th.quiet = q
			r := th.callValue(a[1], []Value{e.k, e.v}).(*Term)
			th.quiet = true
			if !th.p.branch(r) {
				break
			}
		}
		th.quiet = q
		return nil
	})
	// sync.Cond
	reg("(*sync.Cond).Wait", func(th *Thread, fn *ssa.Function, a []Value) Value {
		l := th.lockOf(a[0])
		lk := condLock(fn, a[0]).(Iface)
		call := func(n string) { th.callValue(th.w.methodByName(lk.t, n), []Value{lk.v}) }
		tk := l.cnt
		l.cnt++
		call("Unlock")
		th.wait("a sync.Cond", func() bool { return int64(len(l.store)) > tk })
		th.acquire(l.rel)
		call("Lock")
		return nil
	})
	reg("(*sync.Cond).Signal", func(th *Thread, _ *ssa.Function, a []Value) Value {
		l := th.lockOf(a[0])
		th.release(&l.rel)
		if int64(len(l.store)) < l.cnt {
			l.store = append(l.store, nil)
		}
		return nil
	})
	reg("(*sync.Cond).Broadcast", func(th *Thread, _ *ssa.Function, a []Value) Value {
		l := th.lockOf(a[0])
		th.release(&l.rel)
		for int64(len(l.store)) < l.cnt {
			l.store = append(l.store, nil)
		}
		return nil
	})
	// atomics
	ld := func(th *Thread, _ *ssa.Function, a []Value) Value {
		th.point()
		th.acquire(th.lockOf(a[0]).rel)
		th.accessAtomic(a[0].(*Value), false)
		return copyVal(*(a[0].(*Value)))
	}
	st := func(th *Thread, _ *ssa.Function, a []Value) Value {
		th.point()
		th.accessAtomic(a[0].(*Value), true)
		th.release(&th.lockOf(a[0]).rel)
		*(a[0].(*Value)) = a[1]
		return nil
	}
	sw := func(th *Thread, _ *ssa.Function, a []Value) Value {
		th.point()
		l := th.lockOf(a[0])
		th.acquire(l.rel)
		th.accessAtomic(a[0].(*Value), true)
		th.release(&l.rel)
		p := a[0].(*Value)
		o := *p
		*p = a[1]
		return o
	}
	add := func(th *Thread, _ *ssa.Function, a []Value) Value {
		th.point()
		l := th.lockOf(a[0])
		th.acquire(l.rel)
		th.accessAtomic(a[0].(*Value), true)
		th.release(&l.rel)
		p := a[0].(*Value)
		*p = th.p.c.Bin(OAdd, (*p).(*Term), tb(a[1]))
		return *p
	}
	cas := func(th *Thread, _ *ssa.Function, a []Value) Value {
		th.point()
		l := th.lockOf(a[0])
		th.acquire(l.rel)
		p := a[0].(*Value)
		th.accessAtomic(p, true)
		if th.p.branch(th.equal(*p, a[1])) {
			th.release(&l.rel)
			*p = a[2]
			return th.p.c.True
		}
		return th.p.c.False
	}
	bit := func(op Op) intrinsic {
		return func(th *Thread, _ *ssa.Function, a []Value) Value {
			th.point()
			l := th.lockOf(a[0])
			th.acquire(l.rel)
			th.accessAtomic(a[0].(*Value), true)
			th.release(&l.rel)
			p := a[0].(*Value)
			o := *p
			*p = th.p.c.Bin(op, o.(*Term), tb(a[1]))
			return o
		}
	}
	for _, pk := range []string{"sync/atomic", "internal/runtime/atomic"} {
		for _, k := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
			reg(pk+".Load"+k, ld)
			reg(pk+".Store"+k, st)
			reg(pk+".Swap"+k, sw)
			reg(pk+".Add"+k, add)
			reg(pk+".CompareAndSwap"+k, cas)
			reg(pk+".And"+k, bit(OBand))
			reg(pk+".Or"+k, bit(OBor))
		}
	}
	reg("(*sync/atomic.Value).Load", func(th *Thread, _ *ssa.Function, a []Value) Value {
		th.point()
		l := th.lockOf(a[0])
		th.acquire(l.rel)
		if len(l.store) == 0 {
			return Iface{}
		}
		return l.store[0]
	})
	reg("(*sync/atomic.Value).Store", func(th *Thread, _ *ssa.Function, a []Value) Value {
		th.point()
		l := th.lockOf(a[0])
		th.release(&l.rel)
		l.store = []Value{a[1]}
		return nil
	})
	reg("runtime.Gosched", func(th *Thread, _ *ssa.Function, a []Value) Value { th.point(); return nil })
	reg("time.Sleep", func(th *Thread, _ *ssa.Function, a []Value) Value { th.sleep(int64(th.concInt(a[0]))); return nil })
	reg("time.syncTimer", func(th *Thread, fn *ssa.Function, a []Value) Value {
		return th.w.zero(fn.Signature.Results().At(0).Type())
	})
	reg("time.runtimeNano", func(th *Thread, _ *ssa.Function, a []Value) Value { return th.p.c.Int(th.p.sched.now) })
	reg("time.newTimer", func(th *Thread, fn *ssa.Function, a []Value) Value {
		s := th.p.sched
		cell := new(Value)
		st := th.w.zero(under(fn.Signature.Results().At(0).Type()).(*types.Pointer).Elem()).(Struct)
		st[1] = th.p.c.True
		*cell = st
		s.timed = true
		zero := th.p.c.Int(0)
		s.timers = append(s.timers, &vtimer{at: int64(th.concInt(a[0])), period: int64(th.concInt(a[1])), cell: cell, fn: a[2], args: []Value{a[3], zero, zero}})
		s.made[cell] = s.timers[len(s.timers)-1]
		return cell
	})
	reg("time.stopTimer", func(th *Thread, _ *ssa.Function, a []Value) Value {
		return th.p.c.Bool(th.p.sched.stopTimer(a[0].(*Value)))
	})
	reg("time.resetTimer", func(th *Thread, _ *ssa.Function, a []Value) Value {
		s := th.p.sched
		was := s.stopTimer(a[0].(*Value))
		if t := s.made[a[0].(*Value)]; t != nil {
			n := *t
			n.at, n.period = int64(th.concInt(a[1])), int64(th.concInt(a[2]))
			s.timers = append(s.timers, &n)
		}
		return th.p.c.Bool(was)
	})
	reg("time.Now", func(th *Thread, fn *ssa.Function, a []Value) Value {
		t := th.w.zero(fn.Signature.Results().At(0).Type()).(Struct)
		now := th.p.sched.now
		t[0], t[1] = th.p.c.Const(64, uint64(now%1e9)), th.p.c.Int(63_900_000_000+now/1e9)
		return t
	})
}

func condLock(fn *ssa.Function, c Value) Value {
	st := under(under(fn.Signature.Recv().Type()).(*types.Pointer).Elem()).(*types.Struct)
	v := (*(c.(*Value))).(Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "L" {
			return v[i]
		}
	}
	return Iface{}
}

// ---- characters and text ----

type runeRange struct{ lo, hi uint32 }
type caseRun struct {
	lo, hi uint32
	stride uint32
	delta  int32
}

var (
	rrMu   sync.Mutex
	rrTab  = map[string][]runeRange{}
	crTab  = map[string][]caseRun{}
	maxRun = uint32(unicode.MaxRune)
)

func rangesOf(name string, f func(rune) bool) []runeRange {
	rrMu.Lock()
	defer rrMu.Unlock()
	if r, ok := rrTab[name]; ok {
		return r
	}
	var rs []runeRange
	in := false
	var lo uint32
	for r := uint32(0); r <= maxRun+1; r++ {
		v := r <= maxRun && f(rune(r))
		if v && !in {
			lo, in = r, true
		}
		if !v && in {
			rs = append(rs, runeRange{lo, r - 1})
			in = false
		}
	}
	rrTab[name] = rs
	return rs
}

func caseRunsOf(name string, f func(rune) rune) []caseRun {
	rrMu.Lock()
	defer rrMu.Unlock()
	if r, ok := crTab[name]; ok {
		return r
	}
	var rs []caseRun
	for r := uint32(0); r <= maxRun; r++ {
		d := int32(f(rune(r))) - int32(r)
		if d == 0 {
			continue
		}
		if n := len(rs); n > 0 {
			l := &rs[n-1]
			if l.delta == d {
				gap := r - l.hi
				if l.lo == l.hi && gap <= 2 {
					l.stride, l.hi = gap, r
					continue
				}
				if gap == l.stride {
					l.hi = r
					continue
				}
			}
		}
		rs = append(rs, caseRun{r, r, 1, d})
	}
	crTab[name] = rs
	return rs
}

// narrow returns r at the smallest width that holds its range.
func (c *Ctx) narrow(r *Term) *Term {
	switch {
	case r.IsConst():
		return r
	case r.op == OZext:
		return c.narrow(r.a)
	case r.hi <= 0xFF && r.w > 8:
		return c.Extract(r, 0, 8)
	case r.hi <= 0xFFF && r.w > 12:
		return c.Extract(r, 0, 12)
	case r.hi <= 0xFFFF && r.w > 16:
		return c.Extract(r, 0, 16)
	case r.hi <= 0x1FFFFF && r.w > 21:
		return c.Extract(r, 0, 21)
	}
	return r
}

// A decision diagram over the bits of a value, from the sorted segments of a
// piecewise constant function.
type segment struct {
	lo, hi uint32
	v      uint32
}

type ddNode struct {
	bit    int // -1: leaf
	lo, hi int
	v      uint32
}

type diagram struct {
	nodes []ddNode
	root  int
}

func buildDiagram(segs []segment, width int) *diagram {
	d := &diagram{}
	leafs := map[uint32]int{}
	inner := map[[3]int]int{}
	leaf := func(v uint32) int {
		if i, ok := leafs[v]; ok {
			return i
		}
		d.nodes = append(d.nodes, ddNode{bit: -1, v: v})
		leafs[v] = len(d.nodes) - 1
		return len(d.nodes) - 1
	}
	var rec func(base uint64, k int, segs []segment) int
	rec = func(base uint64, k int, segs []segment) int {
		end := base + 1<<uint(k) - 1
		for len(segs) > 0 && uint64(segs[0].hi) < base {
			segs = segs[1:]
		}
		for len(segs) > 0 && uint64(segs[len(segs)-1].lo) > end {
			segs = segs[:len(segs)-1]
		}
		if len(segs) == 0 {
			return leaf(0)
		}
		if len(segs) == 1 && uint64(segs[0].lo) <= base && uint64(segs[0].hi) >= end {
			return leaf(segs[0].v)
		}
		lo := rec(base, k-1, segs)
		hi := rec(base+1<<uint(k-1), k-1, segs)
		if lo == hi {
			return lo
		}
		key := [3]int{k - 1, lo, hi}
		if i, ok := inner[key]; ok {
			return i
		}
		d.nodes = append(d.nodes, ddNode{bit: k - 1, lo: lo, hi: hi})
		inner[key] = len(d.nodes) - 1
		return len(d.nodes) - 1
	}
	d.root = rec(0, width, segs)
	return d
}

// apply instantiates a diagram for n; w is the width of the result, 0 for bool.
func (d *diagram) apply(c *Ctx, n *Term, w uint8) *Term {
	memo := make([]*Term, len(d.nodes))
	for i, x := range d.nodes {
		switch {
		case x.bit >= 0:
			b := c.Eq(c.Extract(n, uint8(x.bit), 1), c.Const(1, 1))
			memo[i] = c.Ite(b, memo[x.hi], memo[x.lo])
		case w == 0:
			memo[i] = c.Bool(x.v != 0)
		default:
			memo[i] = c.Const(w, uint64(x.v))
		}
	}
	return memo[d.root]
}

type applied struct {
	key string
	t   *Term
}

func (th *Thread) applySegs(name string, segs []segment, r *Term, w uint8) *Term {
	n := th.p.c.narrow(r)
	k := applied{name, n}
	if t, ok := th.w.diagrams[k]; ok {
		return t
	}
	rrMu.Lock()
	dk := fmt.Sprint(name, "/", n.w)
	d := ddTab[dk]
	if d == nil {
		d = buildDiagram(segs, int(n.w))
		ddTab[dk] = d
	}
	rrMu.Unlock()
	t := d.apply(th.p.c, n, w)
	th.w.diagrams[k] = t
	return t
}

var ddTab = map[string]*diagram{}

func (th *Thread) inRanges(name string, rs []runeRange, r *Term) *Term {
	c := th.p.c
	n := c.narrow(r)
	var sel []runeRange
	for _, x := range rs {
		if uint64(x.hi) < r.lo || uint64(x.lo) > r.hi {
			continue
		}
		sel = append(sel, x)
	}
	if len(sel) > 6 {
		var segs []segment
		for _, x := range rs {
			segs = append(segs, segment{x.lo, x.hi, 1})
		}
		return th.applySegs(name, segs, r, 0)
	}
	k := func(v uint32) *Term { return c.Const(n.w, uint64(v)) }
	res := c.False
	for _, x := range sel {
		in := c.Ule(n, k(x.hi))
		if uint64(x.lo) > r.lo {
			in = c.And(c.Ule(k(x.lo), n), in)
		}
		res = c.Or(res, in)
	}
	return res
}

func (th *Thread) runePred(name string, f func(rune) bool, r *Term) *Term {
	if r.IsConst() {
		return th.p.c.Bool(f(rune(int32(uint32(r.val)))))
	}
	return th.inRanges(name, rangesOf(name, f), r)
}

func (th *Thread) runeMap(name string, f func(rune) rune, r *Term) *Term {
	c := th.p.c
	if r.IsConst() {
		return c.Const(32, uint64(uint32(f(rune(int32(uint32(r.val)))))))
	}
	rs := caseRunsOf(name, f)
	var sel []caseRun
	for _, x := range rs {
		if uint64(x.hi) < r.lo || uint64(x.lo) > r.hi {
			continue
		}
		sel = append(sel, x)
	}
	if len(sel) <= 4 {
		n := c.narrow(r)
		k := func(v uint32) *Term { return c.Const(n.w, uint64(v)) }
		res := r
		for _, x := range sel {
			in := c.And(c.Ule(k(x.lo), n), c.Ule(n, k(x.hi)))
			if x.stride == 2 {
				in = c.And(in, c.Eq(c.Bin(OBand, n, k(1)), k(x.lo&1)))
			}
			res = c.Ite(in, c.Bin(OAdd, r, c.Const(32, uint64(uint32(x.delta)))), res)
		}
		return res
	}
	var segs []segment
	for _, x := range rs {
		if x.stride == 1 {
			segs = append(segs, segment{x.lo, x.hi, uint32(x.delta)})
			continue
		}
		for v := x.lo; v <= x.hi; v += x.stride {
			segs = append(segs, segment{v, v, uint32(x.delta)})
		}
	}
	sort.Slice(segs, func(i, j int) bool { return segs[i].lo < segs[j].lo })
	return c.Bin(OAdd, r, th.applySegs("map:"+name, segs, r, 32))
}

func regText() {
	for name, f := range map[string]func(rune) bool{"IsLetter": unicode.IsLetter, "IsNumber": unicode.IsNumber, "IsDigit": unicode.IsDigit,
		"IsSpace": unicode.IsSpace, "IsUpper": unicode.IsUpper, "IsLower": unicode.IsLower, "IsPunct": unicode.IsPunct, "IsSymbol": unicode.IsSymbol,
		"IsControl": unicode.IsControl, "IsGraphic": unicode.IsGraphic, "IsPrint": unicode.IsPrint, "IsMark": unicode.IsMark, "IsTitle": unicode.IsTitle} {
		reg("unicode."+name, func(th *Thread, _ *ssa.Function, a []Value) Value { return th.runePred(name, f, tb(a[0])) })
	}
	for name, f := range map[string]func(rune) rune{"ToLower": unicode.ToLower, "ToUpper": unicode.ToUpper, "ToTitle": unicode.ToTitle, "SimpleFold": unicode.SimpleFold} {
		reg("unicode."+name, func(th *Thread, _ *ssa.Function, a []Value) Value { return th.runeMap(name, f, tb(a[0])) })
	}
	reg("unicode.Is", func(th *Thread, _ *ssa.Function, a []Value) Value { return th.inTable(a[0], tb(a[1])) })
	reg("unicode.In", func(th *Thread, _ *ssa.Function, a []Value) Value {
		r := th.p.c.False
		for _, t := range a[1].(Slice) {
			r = th.p.c.Or(r, th.inTable(t, tb(a[0])))
		}
		return r
	})
	reg("unicode.IsOneOf", func(th *Thread, _ *ssa.Function, a []Value) Value {
		r := th.p.c.False
		for _, t := range a[0].(Slice) {
			r = th.p.c.Or(r, th.inTable(t, tb(a[1])))
		}
		return r
	})
	dec := func(th *Thread, b []*Term) Value {
		if len(b) == 0 {
			return Tuple{th.p.c.Const(32, 0xFFFD), th.p.c.Int(0)}
		}
		r, n := th.decodeRune(b)
		return Tuple{r, th.p.c.Int(int64(n))}
	}
	reg("unicode/utf8.DecodeRuneInString", func(th *Thread, _ *ssa.Function, a []Value) Value {
		return dec(th, th.p.strWindow(a[0].(Str), 0))
	})
	reg("unicode/utf8.DecodeRune", func(th *Thread, _ *ssa.Function, a []Value) Value {
		s := a[0].(Slice)
		return dec(th, terms(s[:min(4, len(s))]))
	})
	valid := func(th *Thread, s Str) *Term {
		for i := 0; i < s.Len(); {
			r, n := th.decodeRune(th.p.strWindow(s, i))
			if n == 1 && r.IsConst() && r.val == 0xFFFD {
				return th.p.c.False
			}
			i += n
		}
		return th.p.c.True
	}
	count := func(th *Thread, s Str) *Term {
		k := 0
		for i := 0; i < s.Len(); k++ {
			_, n := th.decodeRune(th.p.strWindow(s, i))
			i += n
		}
		return th.p.c.Int(int64(k))
	}
	reg("unicode/utf8.ValidString", func(th *Thread, _ *ssa.Function, a []Value) Value { return valid(th, a[0].(Str)) })
	reg("unicode/utf8.Valid", func(th *Thread, _ *ssa.Function, a []Value) Value { return valid(th, mkStr(terms(a[0].(Slice)))) })
	reg("unicode/utf8.RuneCountInString", func(th *Thread, _ *ssa.Function, a []Value) Value { return count(th, a[0].(Str)) })
	reg("unicode/utf8.RuneCount", func(th *Thread, _ *ssa.Function, a []Value) Value { return count(th, mkStr(terms(a[0].(Slice)))) })

	ascii := func(name string, lo, hi uint64, flip uint64, full func(th *Thread, fn *ssa.Function, s Str) Value) {
		reg("strings."+name, func(th *Thread, fn *ssa.Function, a []Value) Value {
			s := a[0].(Str)
			c := th.p.c
			b := th.p.strBytes(s)
			all := c.True
			for _, t := range b {
				all = c.And(all, c.Ult(t, c.Const(8, 0x80)))
			}
			if !th.p.branch(all) {
				return full(th, fn, s)
			}
			r := make([]*Term, len(b))
			for i, t := range b {
				up := c.And(c.Ule(c.Const(8, lo), t), c.Ule(t, c.Const(8, hi)))
				r[i] = c.Ite(up, c.Bin(OBxor, t, c.Const(8, flip)), t)
			}
			return mkStr(r)
		})
	}
	viaMap := func(op string) func(th *Thread, fn *ssa.Function, s Str) Value {
		return func(th *Thread, fn *ssa.Function, s Str) Value {
			m := fn.Pkg.Func("Map")
			u := fn.Prog.ImportedPackage("unicode").Func(op)
			return th.call(m, []Value{u, s}, nil)
		}
	}
	ascii("ToLower", 'A', 'Z', 0x20, viaMap("ToLower"))
	ascii("ToUpper", 'a', 'z', 0x20, viaMap("ToUpper"))

	// which text of constants holds something unknown: one value, no forks
	reg("strings.IndexRune", func(th *Thread, _ *ssa.Function, a []Value) Value {
		s, r := a[0].(Str), tb(a[1])
		if s.b != nil || r.IsConst() {
			return declined{}
		}
		c := th.p.c
		type at struct{ i, r int }
		var all []at
		for i, x := range s.s {
			all = append(all, at{i, int(x)})
		}
		v := c.Int(-1)
		for i := len(all) - 1; i >= 0; i-- {
			v = c.Ite(c.Eq(r, c.Const(32, uint64(all[i].r))), c.Int(int64(all[i].i)), v)
		}
		return v
	})
	indexByte := func(th *Thread, b []*Term, x *Term, last bool) Value {
		c := th.p.c
		known := !x.IsConst()
		for _, t := range b {
			known = known && t.IsConst()
		}
		if known {
			v := c.Int(-1)
			for k := range b {
				i := k
				if !last {
					i = len(b) - 1 - k
				}
				v = c.Ite(c.Eq(b[i], x), c.Int(int64(i)), v)
			}
			return v
		}
		for k := range b {
			i := k
			if last {
				i = len(b) - 1 - k
			}
			if th.p.branch(c.Eq(b[i], x)) {
				return c.Int(int64(i))
			}
		}
		return c.Int(-1)
	}
	bs := func(th *Thread, v Value) []*Term {
		switch v := v.(type) {
		case Str:
			return th.p.strBytes(v)
		case Slice:
			return terms(v)
		}
		return nil
	}
	for _, n := range []string{"internal/bytealg.IndexByte", "internal/bytealg.IndexByteString", "strings.IndexByte", "bytes.IndexByte", "internal/stringslite.IndexByte"} {
		reg(n, func(th *Thread, _ *ssa.Function, a []Value) Value {
			return indexByte(th, bs(th, a[0]), tb(a[1]), false)
		})
	}
	for _, n := range []string{"internal/bytealg.LastIndexByte", "internal/bytealg.LastIndexByteString"} {
		reg(n, func(th *Thread, _ *ssa.Function, a []Value) Value { return indexByte(th, bs(th, a[0]), tb(a[1]), true) })
	}
	for _, n := range []string{"internal/bytealg.Count", "internal/bytealg.CountString"} {
		reg(n, func(th *Thread, _ *ssa.Function, a []Value) Value {
			c := th.p.c
			r := c.Int(0)
			for _, t := range bs(th, a[0]) {
				r = c.Bin(OAdd, r, c.Ite(c.Eq(t, tb(a[1])), c.Int(1), c.Int(0)))
			}
			return r
		})
	}
	index := func(th *Thread, x, y []*Term) Value {
		c := th.p.c
		for i := 0; i+len(y) <= len(x); i++ {
			m := c.True
			for j := range y {
				m = c.And(m, c.Eq(x[i+j], y[j]))
			}
			if th.p.branch(m) {
				return c.Int(int64(i))
			}
		}
		return c.Int(-1)
	}
	for _, n := range []string{"internal/bytealg.Index", "internal/bytealg.IndexString", "strings.Index", "bytes.Index", "internal/stringslite.Index", "internal/bytealg.IndexRabinKarp"} {
		reg(n, func(th *Thread, _ *ssa.Function, a []Value) Value { return index(th, bs(th, a[0]), bs(th, a[1])) })
	}
	cmp := func(th *Thread, _ *ssa.Function, a []Value) Value {
		c := th.p.c
		x, y := mkStr(bs(th, a[0])), mkStr(bs(th, a[1]))
		return c.Ite(th.p.strLess(x, y), c.Int(-1), c.Ite(th.p.strEq(x, y), c.Int(0), c.Int(1)))
	}
	for _, n := range []string{"internal/bytealg.Compare", "internal/bytealg.CompareString", "strings.Compare", "bytes.Compare", "runtime.cmpstring"} {
		reg(n, cmp)
	}
	reg("bytes.Equal", func(th *Thread, _ *ssa.Function, a []Value) Value {
		return th.p.strEq(mkStr(bs(th, a[0])), mkStr(bs(th, a[1])))
	})
	reg("internal/bytealg.Equal", intrinsics["bytes.Equal"])
	reg("internal/bytealg.MakeNoZero", func(th *Thread, _ *ssa.Function, a []Value) Value {
		n := th.concInt(a[0])
		s := make(Slice, n, max(n, roundupsize(n, true)))
		full := s[:cap(s)]
		for i := range full {
			full[i] = th.p.c.Const(8, 0)
		}
		return s
	})
	reg("internal/abi.NoEscape", func(th *Thread, _ *ssa.Function, a []Value) Value { return a[0] })
	reg("github.com/mailru/easyjson/jlexer.bytesToStr", func(th *Thread, _ *ssa.Function, a []Value) Value { return mkStr(terms(a[0].(Slice))) })
	reg("github.com/josharian/intern.String", func(th *Thread, _ *ssa.Function, a []Value) Value { return a[0] })
	reg("github.com/josharian/intern.Bytes", func(th *Thread, _ *ssa.Function, a []Value) Value { return mkStr(terms(a[0].(Slice))) })
	reg("strings.Clone", func(th *Thread, _ *ssa.Function, a []Value) Value { return a[0] })
	reg("internal/stringslite.Clone", func(th *Thread, _ *ssa.Function, a []Value) Value { return a[0] })
}

func terms(s Slice) []*Term {
	r := make([]*Term, len(s))
	for i := range s {
		r[i] = s[i].(*Term)
	}
	return r
}

func (th *Thread) inTable(tab Value, r *Term) *Term {
	p, ok := tab.(*Value)
	if !ok || p == nil {
		th.runtimePanic("invalid memory address or nil pointer dereference")
	}
	rs, ok := th.w.tabRanges[p]
	if !ok {
		st := (*p).(Struct)
		for _, f := range []int{0, 1} {
			for _, e := range st[f].(Slice) {
				x := e.(Struct)
				lo, hi, stride := tb(x[0]).val, tb(x[1]).val, tb(x[2]).val
				if stride == 1 {
					rs = append(rs, [2]uint64{lo, hi})
					continue
				}
				for v := lo; v <= hi; v += stride {
					rs = append(rs, [2]uint64{v, v})
				}
			}
		}
		th.w.tabRanges[p] = rs
	}
	if r.IsConst() {
		for _, x := range rs {
			if x[0] <= r.val && r.val <= x[1] {
				return th.p.c.True
			}
		}
		return th.p.c.False
	}
	var rr []runeRange
	for _, x := range rs {
		if n := len(rr); n > 0 && uint64(rr[n-1].hi)+1 == x[0] {
			rr[n-1].hi = uint32(x[1])
			continue
		}
		rr = append(rr, runeRange{uint32(x[0]), uint32(x[1])})
	}
	return th.inRanges(fmt.Sprint("table:", rr), rr, r)
}

// ---- miscellaneous ----

func regMisc() {
	reg("runtime.KeepAlive", func(th *Thread, _ *ssa.Function, a []Value) Value { return nil })
	reg("runtime.GC", func(th *Thread, _ *ssa.Function, a []Value) Value { return nil })
	reg("runtime.SetFinalizer", func(th *Thread, _ *ssa.Function, a []Value) Value { return nil })
	reg("runtime.NumCPU", func(th *Thread, _ *ssa.Function, a []Value) Value { return th.p.c.Int(8) })
	reg("runtime.GOMAXPROCS", func(th *Thread, _ *ssa.Function, a []Value) Value { return th.p.c.Int(8) })
	reg("maps.clone", func(th *Thread, _ *ssa.Function, a []Value) Value {
		i := a[0].(Iface)
		m, _ := i.v.(*Map)
		if m == nil {
			return i
		}
		th.access(&m.shadow, false)
		n := newMap(m.keyT, m.valT)
		for _, e := range m.entries {
			x := &mapEntry{k: copyVal(e.k), v: copyVal(e.v), ck: e.ck, conc: e.conc}
			n.entries = append(n.entries, x)
			n.live++
			if x.conc {
				n.conc[x.ck] = x
			} else {
				n.nsym++
			}
		}
		return Iface{i.t, n}
	})
	sortSlice := func(inner string) intrinsic {
		return func(th *Thread, fn *ssa.Function, a []Value) Value {
			s := a[0].(Iface).v.(Slice)
			n := len(s)
			swap := &Native{"swap", func(th *Thread, x []Value) Value {
				i, j := th.concInt(x[0]), th.concInt(x[1])
				th.accessDeep(&s[i], true)
				th.accessDeep(&s[j], true)
				t := copyVal(s[i])
				storeVal(&s[i], copyVal(s[j]))
				storeVal(&s[j], t)
				return nil
			}}
			ls := Struct{a[1], swap}
			c := th.p.c
			if inner == "stable_func" {
				th.call(fn.Pkg.Func(inner), []Value{ls, c.Int(int64(n))}, nil)
			} else {
				lim := 0
				for x := n; x > 0; x >>= 1 {
					lim++
				}
				th.call(fn.Pkg.Func(inner), []Value{ls, c.Int(0), c.Int(int64(n)), c.Int(int64(lim))}, nil)
			}
			return nil
		}
	}
	reg("sort.Slice", sortSlice("pdqsort_func"))
	reg("sort.SliceStable", sortSlice("stable_func"))
	reg("sort.SliceIsSorted", func(th *Thread, fn *ssa.Function, a []Value) Value {
		n := len(a[0].(Iface).v.(Slice))
		for i := n - 1; i > 0; i-- {
			if th.p.branch(th.callValue(a[1], []Value{th.p.c.Int(int64(i)), th.p.c.Int(int64(i - 1))}).(*Term)) {
				return th.p.c.False
			}
		}
		return th.p.c.True
	})
	// next calls f for the errors that e wraps until it returns true
	wrapped := func(th *Thread, e Iface, f func(Iface) bool) bool {
		u := th.w.methodByName(e.t, "Unwrap")
		if u == nil {
			return false
		}
		switch r := th.call(u, []Value{e.v}, nil).(type) {
		case Iface:
			return r.t != nil && f(r)
		case Slice:
			for _, x := range r {
				if i := x.(Iface); i.t != nil && f(i) {
					return true
				}
			}
		}
		return false
	}
	reg("errors.Is", func(th *Thread, fn *ssa.Function, a []Value) Value {
		e, t := a[0].(Iface), a[1].(Iface)
		if e.t == nil || t.t == nil {
			return th.p.c.Bool(e.t == nil && t.t == nil)
		}
		var is func(e Iface) bool
		is = func(e Iface) bool {
			if th.w.identical(e.t, t.t) && types.Comparable(e.t) && th.p.branch(th.equal(e, t)) {
				return true
			}
			if m := th.w.methodByName(e.t, "Is"); m != nil && len(m.Params) == 2 {
				if th.p.branch(th.call(m, []Value{e.v, t}, nil).(*Term)) {
					return true
				}
			}
			return wrapped(th, e, is)
		}
		return th.p.c.Bool(is(e))
	})
	reg("errors.As", func(th *Thread, fn *ssa.Function, a []Value) Value {
		e, t := a[0].(Iface), a[1].(Iface)
		if e.t == nil {
			return th.p.c.False
		}
		pt, ok := under(t.t).(*types.Pointer)
		if !ok {
			th.runtimePanic("errors: target must be a non-nil pointer")
		}
		it, isIface := under(pt.Elem()).(*types.Interface)
		var as func(e Iface) bool
		as = func(e Iface) bool {
			if isIface && th.w.implements(e.t, it) {
				th.store(t.v, e)
				return true
			}
			if !isIface && th.w.identical(e.t, pt.Elem()) {
				th.store(t.v, copyVal(e.v))
				return true
			}
			if m := th.w.methodByName(e.t, "As"); m != nil && len(m.Params) == 2 {
				if th.p.branch(th.call(m, []Value{e.v, t}, nil).(*Term)) {
					return true
				}
			}
			return wrapped(th, e, as)
		}
		return th.p.c.Bool(as(e))
	})
	reg("(*errors.joinError).Error", func(th *Thread, fn *ssa.Function, a []Value) Value {
		r := Str{}
		for i, x := range (*a[0].(*Value)).(Struct)[0].(Slice) {
			if i > 0 {
				r = th.p.strCat(r, Str{s: "\n"})
			}
			r = th.p.strCat(r, th.format('v', "", x.(Iface), 0))
		}
		return r
	})
	reg("context.WithValue", func(th *Thread, fn *ssa.Function, a []Value) Value {
		cell := new(Value)
		*cell = Struct{a[0], a[1], a[2]}
		return Iface{types.NewPointer(fn.Pkg.Type("valueCtx").Type()), cell}
	})
	reg("unique.Make", func(th *Thread, fn *ssa.Function, a []Value) Value {
		t := fn.Signature.Params().At(0).Type()
		for _, u := range th.p.uniq {
			if th.w.identical(u.t, t) && th.p.branch(th.equal(*u.v.(*Value), a[0])) {
				return Struct{u.v}
			}
		}
		cell := new(Value)
		*cell = copyVal(a[0])
		th.p.uniq = append(th.p.uniq, Iface{t, cell})
		return Struct{cell}
	})
	for n, f := range map[string]func(float64) float64{"Sqrt": math.Sqrt, "Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Round": math.Round,
		"Log": math.Log, "Log2": math.Log2, "Log10": math.Log10, "Log1p": math.Log1p, "Exp": math.Exp, "Abs": math.Abs, "Sin": math.Sin, "Cos": math.Cos} {
		reg("math."+n, func(th *Thread, fn *ssa.Function, a []Value) Value { return f(a[0].(float64)) })
	}
	for n, f := range map[string]func(x, y float64) float64{"Pow": math.Pow, "Mod": math.Mod, "Max": math.Max, "Min": math.Min} {
		reg("math."+n, func(th *Thread, fn *ssa.Function, a []Value) Value { return f(a[0].(float64), a[1].(float64)) })
	}
	reg("math.Float64bits", func(th *Thread, fn *ssa.Function, a []Value) Value {
		return th.p.c.Const(64, math.Float64bits(a[0].(float64)))
	})
	reg("math.Float64frombits", func(th *Thread, fn *ssa.Function, a []Value) Value {
		return math.Float64frombits(th.p.concretize(a[0].(*Term)))
	})
	// formatted printing
	reg("fmt.Sprintf", func(th *Thread, _ *ssa.Function, a []Value) Value { return th.sprintf(a[0].(Str), a[1].(Slice)) })
	reg("fmt.Sprint", func(th *Thread, _ *ssa.Function, a []Value) Value { return th.sprint(a[0].(Slice), false) })
	reg("fmt.Sprintln", func(th *Thread, _ *ssa.Function, a []Value) Value { return th.sprint(a[0].(Slice), true) })
	reg("fmt.Errorf", func(th *Thread, fn *ssa.Function, a []Value) Value {
		s := th.sprintf(a[0].(Str), a[1].(Slice))
		var errs Slice // the operands of %w
		f, ai, ws := th.str(a[0].(Str)), 0, 0
		for i := 0; i < len(f); i++ {
			if f[i] != '%' {
				continue
			}
			for i++; i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0; i++ {
			}
			if i < len(f) && f[i] != '%' {
				if f[i] == 'w' && ai < len(a[1].(Slice)) {
					ws++
					x := a[1].(Slice)[ai].(Iface)
					if x.t == nil || th.w.methodByName(x.t, "Error") == nil {
						x = Iface{}
					}
					if x.t != nil || ws == 1 {
						errs = append(errs, x)
					}
				}
				ai++
			}
		}
		t := "wrapError"
		if ws == 0 {
			ep := fn.Prog.ImportedPackage("errors")
			return th.call(ep.Func("New"), []Value{s}, nil)
		}
		cell := new(Value)
		*cell = Struct{s, errs}
		if ws == 1 {
			*cell = Struct{s, errs[0]}
		} else {
			t += "s"
		}
		return Iface{types.NewPointer(fn.Pkg.Type(t).Type()), cell}
	})
	wr := func(th *Thread, w Value, s Str) Value {
		i := w.(Iface)
		f := th.w.methodByName(i.t, "Write")
		b := th.p.strBytes(s)
		sl := make(Slice, len(b))
		for k := range b {
			sl[k] = b[k]
		}
		return th.call(f, []Value{i.v, sl}, nil)
	}
	reg("fmt.Fprintf", func(th *Thread, _ *ssa.Function, a []Value) Value {
		return wr(th, a[0], th.sprintf(a[1].(Str), a[2].(Slice)))
	})
	reg("fmt.Fprint", func(th *Thread, _ *ssa.Function, a []Value) Value {
		return wr(th, a[0], th.sprint(a[1].(Slice), false))
	})
	reg("fmt.Fprintln", func(th *Thread, _ *ssa.Function, a []Value) Value { return wr(th, a[0], th.sprint(a[1].(Slice), true)) })
	nop := func(th *Thread, fn *ssa.Function, a []Value) Value {
		if fn.Signature.Results().Len() == 0 {
			return nil
		}
		return th.w.zero(fn.Signature.Results())
	}
	for _, n := range []string{"fmt.Printf", "fmt.Println", "fmt.Print", "log.Printf", "log.Println", "log.Print", "os.Getenv"} {
		reg(n, nop)
	}
	reg("math/rand.Intn", func(th *Thread, _ *ssa.Function, a []Value) Value {
		n := th.concInt(a[0])
		th.p.nondet = true
		return th.p.newVar("rand", 64, 0, uint64(n-1), true)
	})
	reg("math/rand/v2.IntN", intrinsics["math/rand.Intn"])
	reg("hash/maphash.String", nil)
	delete(intrinsics, "hash/maphash.String")
}

// describe renders a panic value for messages.
func (th *Thread) describe(v Iface) string {
	switch x := v.v.(type) {
	case Str:
		if x.b == nil {
			return x.s
		}
		return "(symbolic string)"
	case *Term:
		return x.String()
	}
	if v.t != nil {
		if f := th.w.methodByName(v.t, "Error"); f != nil {
			return v.t.String()
		}
		return v.t.String()
	}
	return "nil"
}

func (th *Thread) lit(s string) Str { return Str{s: s} }

func (th *Thread) sprint(args Slice, ln bool) Str {
	r := Str{}
	for i, a := range args {
		_, s := a.(Iface).v.(Str)
		if i > 0 {
			_, ps := args[i-1].(Iface).v.(Str)
			if ln || (!s && !ps) {
				r = th.p.strCat(r, Str{s: " "})
			}
		}
		r = th.p.strCat(r, th.format('v', "", a.(Iface), 0))
	}
	if ln {
		r = th.p.strCat(r, Str{s: "\n"})
	}
	return r
}

func (th *Thread) sprintf(f Str, args Slice) Str {
	format := th.str(f)
	r := Str{}
	ai := 0
	for i := 0; i < len(format); {
		j := strings.IndexByte(format[i:], '%')
		if j < 0 {
			r = th.p.strCat(r, Str{s: format[i:]})
			break
		}
		r = th.p.strCat(r, Str{s: format[i : i+j]})
		i += j + 1
		k := i
		for k < len(format) && strings.IndexByte("+-# 0123456789.", format[k]) >= 0 {
			k++
		}
		if k >= len(format) {
			r = th.p.strCat(r, Str{s: "%!(NOVERB)"})
			break
		}
		flags, verb := format[i:k], format[k]
		i = k + 1
		if verb == '%' {
			r = th.p.strCat(r, Str{s: "%"})
			continue
		}
		if ai >= len(args) {
			r = th.p.strCat(r, Str{s: "%!" + string(verb) + "(MISSING)"})
			continue
		}
		r = th.p.strCat(r, th.format(rune(verb), flags, args[ai].(Iface), 0))
		ai++
	}
	for k := ai; k < len(args); k++ {
		x := args[k].(Iface)
		s := Str{s: "%!(EXTRA "}
		if k > ai {
			s = Str{s: ", "}
		}
		if x.t != nil {
			s = th.p.strCat(s, Str{s: fmtType(x.t) + "="})
		}
		r = th.p.strCat(r, th.p.strCat(s, th.format('v', "", x, 0)))
		if k == len(args)-1 {
			r = th.p.strCat(r, Str{s: ")"})
		}
	}
	return r
}

func (th *Thread) intStr(t *Term, signed bool) Str {
	v := th.p.concretize(t)
	if signed {
		return Str{s: strconv.FormatInt(sext64(v, t.w), 10)}
	}
	return Str{s: strconv.FormatUint(v, 10)}
}

// noMethods, as a depth, is that of a field whose methods fmt cannot call.
const noMethods = 1000

func fmtType(t types.Type) string {
	return strings.ReplaceAll(types.TypeString(t, (*types.Package).Name), "interface{}", "interface {}")
}

func (th *Thread) format(verb rune, flags string, v Iface, depth int) Str {
	if v.t == nil {
		switch verb {
		case 'v':
			return Str{s: "<nil>"}
		case 'T':
			return Str{s: "<nil>"}
		}
		return Str{s: "%!" + string(verb) + "(<nil>)"}
	}
	switch verb {
	case 'v', 's', 'd', 'q', 'w', 't', 'x', 'X', 'c', 'o', 'b', 'e', 'E', 'f', 'F', 'g', 'G', 'U':
	case 'T':
		return Str{s: fmtType(v.t)}
	default:
		panic(th.p.unsupported("format verb %" + string(verb)))
	}
	sharp := strings.Contains(flags, "#")
	if depth < noMethods && strings.ContainsRune("vsqwxX", verb) && !sharp {
		for _, m := range []string{"Error", "String"} {
			if f := th.w.methodByName(v.t, m); f != nil && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 1 {
				if isNilVal(v.v) {
					return Str{s: "<nil>"}
				}
				if s, ok := th.call(f, []Value{v.v}, nil).(Str); ok {
					return th.format(verb, flags, Iface{types.Typ[types.String], s}, depth)
				}
			}
		}
	}
	w := verb
	if w == 'w' {
		w = 'v'
	}
	list := func(l, r string, n int, f func(i int) Str) Str {
		s := Str{s: l}
		for i := 0; i < n; i++ {
			if i > 0 {
				s = th.p.strCat(s, Str{s: " "})
			}
			s = th.p.strCat(s, f(i))
		}
		return th.p.strCat(s, Str{s: r})
	}
	switch x := v.v.(type) {
	case *Term:
		plain := flags == "" || flags == "+" && w == 'v' || flags == "#" && w == 'v'
		switch {
		case plain && x.w == 0 && (w == 'v' || w == 't'):
			return Str{s: strconv.FormatBool(th.p.branch(x))}
		case plain && x.w != 0 && w == 'c':
			return mkStr(th.encodeRune(th.p.c.Extract(th.p.c.Zext(x, 64), 0, 32)))
		case plain && x.w != 0 && (w == 'v' || w == 'd') && !(sharp && !isSigned(v.t)):
			return th.intStr(x, isSigned(v.t))
		}
		c := th.p.concretize(x)
		if x.w == 0 {
			return Str{s: fmt.Sprintf("%"+flags+string(w), c == 1)}
		}
		if isSigned(v.t) {
			return Str{s: fmt.Sprintf("%"+flags+string(w), sext64(c, x.w))}
		}
		if x.w == 8 {
			return Str{s: fmt.Sprintf("%"+flags+string(w), uint8(c))}
		}
		return Str{s: fmt.Sprintf("%"+flags+string(w), c)}
	case Str:
		if (w == 'v' || w == 's') && (flags == "" || flags == "+") {
			return x
		}
		return Str{s: fmt.Sprintf("%"+flags+string(w), th.str(x))}
	case float64:
		if b, ok := under(v.t).(*types.Basic); ok && b.Kind() == types.Float32 {
			return Str{s: fmt.Sprintf("%"+flags+string(w), float32(x))}
		}
		return Str{s: fmt.Sprintf("%"+flags+string(w), x)}
	case complex128:
		return Str{s: fmt.Sprintf("%"+flags+string(w), x)}
	case Slice:
		sl, ok := under(v.t).(*types.Slice)
		if !ok {
			break
		}
		if b, isb := under(sl.Elem()).(*types.Basic); isb && b.Kind() == types.Uint8 && strings.ContainsRune("sxXq", w) {
			return th.format(w, flags, Iface{types.Typ[types.String], mkStr(terms(x))}, noMethods)
		}
		if sharp {
			if _, isb := under(sl.Elem()).(*types.Basic); !isb || w != 'v' {
				break
			}
			if x == nil {
				return Str{s: fmtType(v.t) + "(nil)"}
			}
			s := Str{s: fmtType(v.t) + "{"}
			for i := range x {
				if i > 0 {
					s = th.p.strCat(s, Str{s: ", "})
				}
				s = th.p.strCat(s, th.format(w, flags, elemIface(sl.Elem(), x[i]), depth+1))
			}
			return th.p.strCat(s, Str{s: "}"})
		}
		return list("[", "]", len(x), func(i int) Str { return th.format(w, flags, elemIface(sl.Elem(), x[i]), depth+1) })
	case Array:
		if at, ok := under(v.t).(*types.Array); ok && !sharp {
			return list("[", "]", len(x), func(i int) Str { return th.format(w, flags, elemIface(at.Elem(), x[i]), depth+1) })
		}
	case Struct:
		st, ok := under(v.t).(*types.Struct)
		if ok && !sharp {
			return list("{", "}", len(x), func(i int) Str {
				d := depth + 1
				if !st.Field(i).Exported() {
					d += noMethods
				}
				r := th.format(w, flags, elemIface(st.Field(i).Type(), x[i]), d)
				if strings.Contains(flags, "+") && w == 'v' {
					r = th.p.strCat(Str{s: st.Field(i).Name() + ":"}, r)
				}
				return r
			})
		}
	case *Value:
		if x == nil {
			return Str{s: "<nil>"}
		}
		if pt, ok := under(v.t).(*types.Pointer); ok && depth == 0 {
			switch (*x).(type) {
			case Struct, Slice, Array, *Map:
				return th.p.strCat(Str{s: "&"}, th.format(w, flags, Iface{pt.Elem(), *x}, depth+1))
			}
		}
		return Str{s: "0xc000010000"}
	case *Map:
		if sharp {
			break
		}
		if x == nil || x.live == 0 {
			return Str{s: "map[]"}
		}
		th.access(&x.shadow, false)
		var es []*mapEntry
		for _, e := range x.entries {
			if e.dead {
				continue
			}
			k := len(es)
			for ; k > 0 && th.fmtLess(x.keyT, e.k, es[k-1].k); k-- {
			}
			es = append(es, nil)
			copy(es[k+1:], es[k:])
			es[k] = e
		}
		return list("map[", "]", len(es), func(i int) Str {
			k := th.format(w, flags, elemIface(x.keyT, es[i].k), depth+1)
			return th.p.strCat(k, th.p.strCat(Str{s: ":"}, th.format(w, flags, elemIface(x.valT, es[i].v), depth+1)))
		})
	case Iface:
		return th.format(w, flags, x, depth)
	}
	if isNilVal(v.v) && w == 'v' {
		return Str{s: "<nil>"}
	}
	panic(th.p.unsupported(fmt.Sprintf("formatting %s", v.t)))
}

// fmtLess is the order in which fmt prints the keys of a map.
func (th *Thread) fmtLess(t types.Type, a, b Value) bool {
	switch x := a.(type) {
	case Str:
		return th.p.branch(th.p.strLess(x, b.(Str)))
	case *Term:
		if x.w == 0 {
			return !th.p.branch(x) && th.p.branch(b.(*Term))
		}
		p, q := th.p.concretize(x), th.p.concretize(b.(*Term))
		if isSigned(t) {
			return sext64(p, x.w) < sext64(q, x.w)
		}
		return p < q
	case float64:
		return x < b.(float64)
	case Array:
		for i := range x {
			e := under(t).(*types.Array).Elem()
			if th.fmtLess(e, x[i], b.(Array)[i]) {
				return true
			}
			if th.fmtLess(e, b.(Array)[i], x[i]) {
				return false
			}
		}
		return false
	case Struct:
		for i := range x {
			e := under(t).(*types.Struct).Field(i).Type()
			if th.fmtLess(e, x[i], b.(Struct)[i]) {
				return true
			}
			if th.fmtLess(e, b.(Struct)[i], x[i]) {
				return false
			}
		}
		return false
	}
	panic(th.p.unsupported(fmt.Sprintf("order of keys %s", t)))
}

func elemIface(t types.Type, v Value) Iface {
	if i, ok := v.(Iface); ok {
		if _, isI := under(t).(*types.Interface); isI {
			return i
		}
	}
	return Iface{t, v}
}
