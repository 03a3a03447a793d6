package main

// The SSA interpreter.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

// ---- compiled functions ----

type opnd struct {
	reg  int // >= 0: register
	val  Value
	glob *ssa.Global
}

type cinstr struct {
	in   ssa.Instruction
	ops  []opnd
	dst  int
	t    types.Type // result type
	aux  any
	tchk int8
	racy bool // a scheduling point of its own
}

type cblock struct {
	phis  []*ssa.Phi
	pdst  []int
	pops  [][]opnd
	ins   []cinstr
	succs []int
	preds []int
	chain *chain
}

// chain is a sequence of conditional branches to one block, as compiled from a
// case with several values or from || and &&, whose conditions have no effects.
// It is decided as one branch.
type chain struct {
	side  int // the side of the first branch that goes to the common block
	steps []chainStep
	last  int // the last block of the chain
	other int // where it goes if no condition holds
}

type chainStep struct {
	ins  []cinstr
	cond opnd
	side int
}

type cfunc struct {
	fn     *ssa.Function
	nregs  int
	blocks []cblock
	nparam int
	recov  int
	native func(th *Thread, fn *ssa.Function, args []Value) Value
	execs  int
}

func (w *Worker) compile(fn *ssa.Function) *cfunc {
	if c, ok := w.funcs[fn]; ok {
		return c
	}
	c := &cfunc{fn: fn, recov: -1}
	w.funcs[fn] = c
	if n := lookupIntrinsic(fn); n != nil {
		c.native = n
		if !mayDecline[fn.String()] {
			return c
		}
	}
	if fn.Blocks == nil {
		return c
	}
	regs := map[ssa.Value]int{}
	add := func(v ssa.Value) int {
		r := len(regs)
		regs[v] = r
		return r
	}
	for _, p := range fn.Params {
		add(p)
	}
	c.nparam = len(fn.Params)
	for _, f := range fn.FreeVars {
		add(f)
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
		}
	}
	mkop := func(v ssa.Value) opnd {
		switch v := v.(type) {
		case nil:
			return opnd{reg: -1}
		case *ssa.Const:
			return opnd{reg: -1, val: w.constVal(v)}
		case *ssa.Global:
			return opnd{reg: -1, glob: v}
		case *ssa.Function, *ssa.Builtin:
			return opnd{reg: -1, val: v}
		}
		r, ok := regs[v]
		if !ok {
			panic(fmt.Sprintf("no register for %s in %s", v.Name(), fn))
		}
		return opnd{reg: r}
	}
	c.blocks = make([]cblock, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		cb := &c.blocks[bi]
		for _, s := range b.Succs {
			cb.succs = append(cb.succs, s.Index)
		}
		for _, s := range b.Preds {
			cb.preds = append(cb.preds, s.Index)
		}
		for _, i := range b.Instrs {
			if ph, ok := i.(*ssa.Phi); ok {
				cb.phis = append(cb.phis, ph)
				cb.pdst = append(cb.pdst, regs[ph])
				var ops []opnd
				for _, e := range ph.Edges {
					ops = append(ops, mkop(e))
				}
				cb.pops = append(cb.pops, ops)
				continue
			}
			if _, ok := i.(*ssa.DebugRef); ok {
				continue
			}
			ci := cinstr{in: i, dst: -1, racy: w.run.racy[i]}
			if v, ok := i.(ssa.Value); ok {
				ci.dst = regs[v]
				ci.t = v.Type()
			}
			var buf [10]*ssa.Value
			for _, o := range i.Operands(buf[:0]) {
				if *o == nil {
					ci.ops = append(ci.ops, opnd{reg: -1})
				} else {
					ci.ops = append(ci.ops, mkop(*o))
				}
			}
			switch i := i.(type) {
			case *ssa.Alloc:
				ci.aux = under(i.Type()).(*types.Pointer).Elem()
			case *ssa.Defer:
				// the last operand is the defer stack, not an argument
				ds := ci.ops[len(ci.ops)-1]
				ci.ops = ci.ops[:len(ci.ops)-1]
				ci.aux = &ds
			}
			cb.ins = append(cb.ins, ci)
		}
	}
	if fn.Recover != nil {
		c.recov = fn.Recover.Index
	}
	for bi := range c.blocks {
		c.blocks[bi].chain = c.findChain(bi)
	}
	c.nregs = len(regs)
	return c
}

func isScalar(t types.Type) bool {
	_, _, ok := intInfo(t)
	return ok
}

func (ci *cinstr) pure() bool {
	switch in := ci.in.(type) {
	case *ssa.BinOp:
		switch in.Op {
		case token.QUO, token.REM, token.SHL, token.SHR:
			return false
		}
		return isScalar(in.X.Type()) && isScalar(in.Y.Type())
	case *ssa.Convert:
		return isScalar(in.Type()) && isScalar(in.X.Type())
	}
	return false
}

func (c *cfunc) ifOf(b int) *cinstr {
	ins := c.blocks[b].ins
	if len(ins) == 0 {
		return nil
	}
	ci := &ins[len(ins)-1]
	if _, ok := ci.in.(*ssa.If); !ok {
		return nil
	}
	return ci
}

func sameOpnd(a, b *opnd) bool {
	if a.reg >= 0 || b.reg >= 0 {
		return a.reg == b.reg
	}
	if a.glob != nil || b.glob != nil {
		return a.glob == b.glob
	}
	x, ok1 := a.val.(*Term)
	y, ok2 := b.val.(*Term)
	return ok1 && ok2 && x == y
}

func (c *cfunc) findChain(b int) *chain {
	if c.ifOf(b) == nil {
		return nil
	}
	for side := 0; side < 2; side++ {
		common := c.blocks[b].succs[side]
		ch := &chain{side: side, last: b, other: c.blocks[b].succs[1-side]}
		if ch.other == common {
			return nil
		}
		edge := func(from int) int {
			for i, p := range c.blocks[common].preds {
				if p == from {
					return i
				}
			}
			return -1
		}
	grow:
		for len(ch.steps) < 64 {
			e := &c.blocks[ch.other]
			br := c.ifOf(ch.other)
			if br == nil || len(e.preds) != 1 || len(e.phis) > 0 || e.succs[0] == e.succs[1] {
				break
			}
			k := -1
			if e.succs[0] == common {
				k = 0
			} else if e.succs[1] == common {
				k = 1
			}
			if k < 0 {
				break
			}
			for i := range e.ins[:len(e.ins)-1] {
				if !e.ins[i].pure() {
					break grow
				}
			}
			x, y := edge(b), edge(ch.other)
			for i := range c.blocks[common].phis {
				ops := c.blocks[common].pops[i]
				if !sameOpnd(&ops[x], &ops[y]) {
					break grow
				}
			}
			ch.steps = append(ch.steps, chainStep{ins: e.ins[:len(e.ins)-1], cond: br.ops[0], side: k})
			ch.last = ch.other
			ch.other = e.succs[1-k]
			if ch.other == b {
				return nil
			}
		}
		if len(ch.steps) > 0 {
			return ch
		}
	}
	return nil
}

// runChain decides a chain whose first condition is cond and reports whether
// the common block is next.
func (fr *frame) runChain(ch *chain, cond *Term) bool {
	c, p := fr.th.w.c, fr.th.p
	if ch.side == 1 {
		cond = c.Not(cond)
	}
	for i := range ch.steps {
		st := &ch.steps[i]
		for j := range st.ins {
			ci := &st.ins[j]
			p.steps++
			switch in := ci.in.(type) {
			case *ssa.BinOp:
				fr.regs[ci.dst] = fr.binop(in.Op, in.X.Type(), in.Y.Type(), fr.get(&ci.ops[0]), fr.get(&ci.ops[1]))
			case *ssa.Convert:
				fr.regs[ci.dst] = fr.th.convert(in.Type(), in.X.Type(), fr.get(&ci.ops[0]))
			}
		}
		x := fr.get(&st.cond).(*Term)
		if st.side == 1 {
			x = c.Not(x)
		}
		cond = c.Or(cond, x)
	}
	return p.branch(cond)
}

func (w *Worker) constVal(k *ssa.Const) Value {
	if k.Value == nil {
		return w.zero(k.Type())
	}
	t := under(k.Type())
	if tp, ok := k.Type().(*types.TypeParam); ok {
		panic("const of type parameter " + tp.String())
	}
	b, ok := t.(*types.Basic)
	if !ok {
		panic(fmt.Sprintf("const of type %s", k.Type()))
	}
	if wd, signed, ok := intInfo(b); ok {
		if wd == 0 {
			return w.c.Bool(constant.BoolVal(k.Value))
		}
		if signed {
			return w.c.Const(wd, uint64(k.Int64()))
		}
		return w.c.Const(wd, k.Uint64())
	}
	switch b.Kind() {
	case types.String, types.UntypedString:
		if k.Value.Kind() == constant.String {
			return Str{s: constant.StringVal(k.Value)}
		}
		return Str{s: string(rune(k.Int64()))}
	case types.Float32:
		return float64(float32(k.Float64()))
	case types.Float64, types.UntypedFloat:
		return k.Float64()
	case types.Complex64, types.Complex128, types.UntypedComplex:
		return k.Complex128()
	}
	panic(fmt.Sprintf("const %s", k))
}

// ---- frames ----

type deferred struct {
	fn   Value
	args []Value
	in   ssa.Instruction
	tail *deferred
}

type frame struct {
	th        *Thread
	cf        *cfunc
	caller    *frame
	regs      []Value
	block     int
	prev      int
	defers    *deferred
	result    Value
	panicking bool
	panicVal  any
	recovered bool
	cur       ssa.Instruction
	resume    int
}

type targetPanic struct {
	v     Iface
	msg   string
	where string
}

type pathEnd struct{ kind, msg string }

func (th *Thread) runtimePanic(msg string) {
	panic(targetPanic{v: Iface{t: th.w.errType, v: Str{s: msg}}, msg: "runtime error: " + msg, where: th.where()})
}

func (th *Thread) where() string {
	var parts []string
	for f := th.top; f != nil && len(parts) < 6; f = f.caller {
		pos := token.NoPos
		if f.cur != nil {
			pos = f.cur.Pos()
		}
		s := f.cf.fn.String()
		if pos.IsValid() {
			ps := th.w.eng.prog.Fset.Position(pos)
			s += fmt.Sprintf(" (%s:%d)", shortFile(ps.Filename), ps.Line)
		}
		parts = append(parts, s)
	}
	return strings.Join(parts, " < ")
}

func shortFile(f string) string {
	if i := strings.LastIndexByte(f, '/'); i >= 0 {
		return f[i+1:]
	}
	return f
}

func (fr *frame) get(o *opnd) Value {
	if o.reg >= 0 {
		return fr.regs[o.reg]
	}
	if o.glob != nil {
		return fr.th.p.global(fr.th, o.glob)
	}
	return o.val
}

// declined is what the native version of a function in mayDecline returns for
// arguments it leaves to the source.
type declined struct{}

var mayDecline = map[string]bool{"strings.IndexRune": true}

// callValue calls any function value.
func (th *Thread) callValue(fv Value, args []Value) Value {
	switch fn := fv.(type) {
	case *ssa.Function:
		if fn == nil {
			th.runtimePanic("invalid memory address or nil pointer dereference")
		}
		return th.call(fn, args, nil)
	case *Closure:
		if fn == nil {
			th.runtimePanic("invalid memory address or nil pointer dereference")
		}
		return th.call(fn.fn, args, fn.env)
	case *Native:
		return fn.fn(th, args)
	case nil:
		th.runtimePanic("invalid memory address or nil pointer dereference")
	}
	panic(th.p.unsupported(fmt.Sprintf("call of %T", fv)))
}

const maxDepth = 2000

func (th *Thread) call(fn *ssa.Function, args []Value, env []Value) Value {
	w := th.w
	cf := w.compile(fn)
	if fn.Synthetic == "package initializer" && (len(th.initFn) == 0 || th.initFn[len(th.initFn)-1] != fn) {
		return nil // packages are initialised when first used
	}
	if cf.native == nil && fn.Pkg != nil {
		th.p.initPkg(th, fn.Pkg)
	} else if cf.native == nil && fn.Origin() != nil && fn.Origin().Pkg != nil {
		th.p.initPkg(th, fn.Origin().Pkg)
	}
	if cf.native != nil {
		v := cf.native(th, fn, args)
		if _, ok := v.(declined); !ok {
			return v
		}
		th.p.initPkg(th, fn.Pkg)
	}
	if cf.blocks == nil {
		panic(th.p.unsupported("no body: " + fn.String()))
	}
	cf.execs++
	th.depth++
	if th.depth > maxDepth {
		panic(targetPanic{v: Iface{t: w.errType, v: Str{s: "stack overflow"}}, msg: "stack overflow", where: th.where()})
	}
	fr := &frame{th: th, cf: cf, caller: th.top, regs: make([]Value, cf.nregs), prev: -1}
	copy(fr.regs, args)
	copy(fr.regs[cf.nparam:], env)
	th.top = fr
	lenient := fn.Synthetic == "package initializer" && th.p.isStd(fn.Pkg)
	for fr.block >= 0 {
		if lenient {
			fr.runInit()
		} else {
			fr.run()
		}
	}
	th.top = fr.caller
	th.depth--
	return fr.result
}

func (fr *frame) run() {
	if fr.cf.fn.Recover == nil && !hasDefer(fr.cf) {
		fr.exec()
		return
	}
	defer func() {
		if fr.block < 0 {
			return
		}
		r := recover()
		if r == nil {
			return
		}
		tp, ok := r.(targetPanic)
		if !ok {
			panic(r) // path end: unwind everything
		}
		fr.panicking = true
		fr.panicVal = tp
		fr.th.top = fr
		fr.th.depth = fr.depthNow()
		fr.runDefers()
		// recovered
		if fr.cf.recov >= 0 {
			fr.prev = -1
			fr.block = fr.cf.recov
			return
		}
		fr.block = -1
		fr.result = fr.zeroResults()
	}()
	fr.exec()
}

// poison is the value of an initialiser of the standard library that cannot be
// executed. Nothing can be done with it, so its use stops the exploration.
type poison struct{ why string }

// runInit executes a package initialiser; an instruction that cannot be
// executed yields poison and the ones after it are executed all the same.
func (fr *frame) runInit() {
	th := fr.th
	depth := th.depth
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		msg := fmt.Sprint(r)
		switch r := r.(type) {
		case pathEnd:
			if r.kind != "unsupported" {
				panic(r)
			}
			msg = r.msg
		case targetPanic:
			msg = r.msg
		}
		th.p.w.run.notePartial(fr.cf.fn.Pkg.Pkg.Path(), msg)
		th.top, th.depth = fr, depth
		cb := &fr.cf.blocks[fr.block]
		for i := range cb.ins {
			if cb.ins[i].in == fr.cur {
				switch fr.cur.(type) {
				case *ssa.If, *ssa.Jump, *ssa.Return:
					panic(r)
				}
				if _, ok := fr.cur.(ssa.Value); ok {
					fr.regs[cb.ins[i].dst] = poison{msg}
				}
				fr.resume = i + 1
				return
			}
		}
		panic(r)
	}()
	fr.exec()
}

func (fr *frame) depthNow() int {
	n := 0
	for f := fr; f != nil; f = f.caller {
		n++
	}
	return n
}

func (fr *frame) zeroResults() Value {
	r := fr.cf.fn.Signature.Results()
	if r.Len() == 0 {
		return nil
	}
	return fr.th.w.zero(r)
}

func hasDefer(c *cfunc) bool {
	switch c.hasD() {
	case 1:
		return true
	}
	return false
}

func (c *cfunc) hasD() int {
	for bi := range c.blocks {
		for ii := range c.blocks[bi].ins {
			switch c.blocks[bi].ins[ii].in.(type) {
			case *ssa.Defer, *ssa.RunDefers:
				return 1
			}
		}
	}
	return 0
}

func (fr *frame) runDefers() {
	for fr.defers != nil {
		d := fr.defers
		fr.defers = d.tail
		fr.runDefer(d)
	}
	if fr.panicking {
		panic(fr.panicVal)
	}
}

func (fr *frame) runDefer(d *deferred) {
	ok := false
	defer func() {
		if !ok {
			r := recover()
			tp, is := r.(targetPanic)
			if !is {
				panic(r)
			}
			fr.panicking = true
			fr.panicVal = tp
			fr.th.top = fr
		}
	}()
	saved := fr.th.deferFrame
	fr.th.deferFrame = fr
	fr.th.callFn(fr, d.fn, d.args, d.in)
	fr.th.deferFrame = saved
	ok = true
}

// callFn calls a function value that may be a builtin.
func (th *Thread) callFn(fr *frame, fv Value, args []Value, in ssa.Instruction) Value {
	if b, ok := fv.(*ssa.Builtin); ok {
		return th.builtin(fr, b, args, in)
	}
	return th.callValue(fv, args)
}

func (fr *frame) prepareCall(ci *cinstr, call *ssa.CallCommon) (Value, []Value) {
	th := fr.th
	ops := ci.ops
	if call.IsInvoke() {
		recv := fr.get(&ops[0]).(Iface)
		if recv.t == nil {
			th.runtimePanic("invalid memory address or nil pointer dereference")
		}
		if nt, ok := recv.v.(nativeObj); ok {
			return nt.method(call.Method.Name()), fr.args(ops[1:], nil)
		}
		f := th.w.method(recv.t, call.Method)
		if f == nil {
			panic(th.p.unsupported(fmt.Sprintf("method %s of %s", call.Method.Name(), recv.t)))
		}
		return f, fr.args(ops[1:], recv.v)
	}
	fv := fr.get(&ops[0])
	return fv, fr.args(ops[1:], nil)
}

type nativeObj interface {
	method(name string) Value
}

func (fr *frame) args(ops []opnd, recv Value) []Value {
	n := len(ops)
	var a []Value
	if recv != nil {
		a = make([]Value, 0, n+1)
		a = append(a, recv)
	} else {
		a = make([]Value, 0, n)
	}
	for i := range ops {
		a = append(a, fr.get(&ops[i]))
	}
	return a
}

func (th *Thread) load(addr Value) Value {
	switch a := addr.(type) {
	case *Value:
		if a == nil {
			th.runtimePanic("invalid memory address or nil pointer dereference")
		}
		th.accessDeep(a, false)
		return copyVal(*a)
	case SPtr:
		if len(a.s) > 0 {
			th.accessDeep(&a.s[0], false)
			return copyVal(a.s[0])
		}
		if a.str != nil && a.str.Len() > 0 {
			return th.p.byteAt(*a.str, 0)
		}
	case symPtr:
		return a.load(th)
	case nil:
		th.runtimePanic("invalid memory address or nil pointer dereference")
	}
	panic(th.p.unsupported(fmt.Sprintf("load through %T", addr)))
}

func (th *Thread) store(addr Value, v Value) {
	switch a := addr.(type) {
	case *Value:
		if a == nil {
			th.runtimePanic("invalid memory address or nil pointer dereference")
		}
		th.accessDeep(a, true)
		storeVal(a, v)
		return
	case SPtr:
		if len(a.s) > 0 {
			th.accessDeep(&a.s[0], true)
			storeVal(&a.s[0], v)
			return
		}
	case symPtr:
		p := a.resolve(th)
		th.accessDeep(p, true)
		storeVal(p, v)
		return
	case nil:
		th.runtimePanic("invalid memory address or nil pointer dereference")
	}
	panic(th.p.unsupported(fmt.Sprintf("store through %T", addr)))
}

// symPtr is the address of an element at a symbolic (in-range) index; reads of
// scalars become an if-then-else over the elements, everything else forks.
type symPtr struct {
	elems []Value
	idx   *Term
}

func (s symPtr) resolve(th *Thread) *Value {
	return &s.elems[th.p.concretize(s.idx)]
}

func (s symPtr) load(th *Thread) Value {
	for i := range s.elems {
		th.accessDeep(&s.elems[i], false)
	}
	return th.selectElem(s.elems, s.idx)
}

// selectElem reads elems[idx] for a symbolic in-range index.
func (th *Thread) selectElem(elems []Value, idx *Term) Value {
	p := th.p
	lo, hi := int(idx.lo), int(idx.hi)
	if idx.hi >= uint64(len(elems)) {
		hi = len(elems) - 1
	}
	for i := lo + 1; i <= hi; i++ {
		if !mergeable(elems[lo], elems[i]) {
			return copyVal(elems[p.concretize(idx)])
		}
	}
	// runs of identical constants are compared with one range test
	if _, ok := elems[lo].(*Term); ok {
		r := elems[hi].(*Term)
		i := hi
		for i >= lo {
			j := i
			for j > lo && elems[j-1].(*Term) == elems[i].(*Term) {
				j--
			}
			v := elems[i].(*Term)
			if i == hi {
				r = v
			} else {
				r = p.c.Ite(p.c.Ule(idx, p.c.Const(idx.w, uint64(i))), v, r)
			}
			i = j - 1
		}
		return r
	}
	r := copyVal(elems[hi])
	for i := hi - 1; i >= lo; i-- {
		r = p.merge(p.c.Eq(idx, p.c.Const(idx.w, uint64(i))), elems[i], r)
	}
	return r
}

// index checks 0 <= idx < n (panicking in the target otherwise) and returns
// either a concrete index or a symbolic term.
func (th *Thread) index(iv Value, n int, signed bool) (int, *Term) {
	t := iv.(*Term)
	p := th.p
	if t.IsConst() {
		var i int64
		if signed {
			i = sext64(t.val, t.w)
		} else {
			i = int64(t.val)
		}
		if i < 0 || i >= int64(n) {
			th.runtimePanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return int(i), nil
	}
	if t.w < 64 {
		if signed {
			t = p.c.Sext(t, 64)
		} else {
			t = p.c.Zext(t, 64)
		}
	}
	if !p.branch(p.c.Ult(t, p.c.Const(64, uint64(n)))) {
		th.runtimePanic(fmt.Sprintf("index out of range [symbolic] with length %d", n))
	}
	if t.IsConst() {
		return int(t.val), nil
	}
	if v, ok := p.constOf(t); ok {
		return int(v), nil
	}
	return 0, t
}

func isSigned(t types.Type) bool {
	_, s, _ := intInfo(t)
	return s
}

func (fr *frame) exec() {
	th := fr.th
	w := th.w
	p := th.p
	c := w.c
	for {
		cb := &fr.cf.blocks[fr.block]
		if n := len(cb.phis); n > 0 {
			pi := 0
			for i, pr := range cb.preds {
				if pr == fr.prev {
					pi = i
					break
				}
			}
			var tmp [8]Value
			vals := tmp[:0]
			for i := range cb.phis {
				vals = append(vals, fr.get(&cb.pops[i][pi]))
			}
			for i := range cb.phis {
				fr.regs[cb.pdst[i]] = vals[i]
			}
		}
		jumped := false
		ii := fr.resume
		fr.resume = 0
		for ; ii < len(cb.ins); ii++ {
			ci := &cb.ins[ii]
			fr.cur = ci.in
			if ci.racy {
				th.point()
			}
			p.steps++
			if p.steps > p.maxSteps {
				panic(pathEnd{"steps", th.where()})
			}
			switch in := ci.in.(type) {
			case *ssa.Jump:
				fr.prev, fr.block = fr.block, cb.succs[0]
				jumped = true
			case *ssa.If:
				cond := fr.get(&ci.ops[0]).(*Term)
				k := 1
				if ch := cb.chain; ch != nil && !cond.IsConst() {
					if _, known := p.lookupKnown(cond); !known {
						if fr.runChain(ch, cond) {
							fr.prev, fr.block = fr.block, cb.succs[ch.side]
						} else {
							fr.prev, fr.block = ch.last, ch.other
						}
						jumped = true
						break
					}
				}
				if p.branch(cond) {
					k = 0
				}
				fr.prev, fr.block = fr.block, cb.succs[k]
				jumped = true
			case *ssa.Return:
				switch len(ci.ops) {
				case 0:
				case 1:
					fr.result = fr.get(&ci.ops[0])
				default:
					t := make(Tuple, len(ci.ops))
					for i := range ci.ops {
						t[i] = fr.get(&ci.ops[i])
					}
					fr.result = t
				}
				fr.block = -1
				return
			case *ssa.Call:
				if in.Call.IsInvoke() || true {
					fv, args := fr.prepareCall(ci, &in.Call)
					r := th.callFn(fr, fv, args, in)
					fr.regs[ci.dst] = r
				}
			case *ssa.Go:
				fv, args := fr.prepareCall(ci, &in.Call)
				th.spawn(fv, args, in)
			case *ssa.Defer:
				fv, args := fr.prepareCall(ci, &in.Call)
				target := fr
				if in.DeferStack != nil {
					if f, ok := fr.get(ci.aux.(*opnd)).(*deferStack); ok {
						target = f.fr
					}
				}
				target.defers = &deferred{fn: fv, args: args, in: in, tail: target.defers}
			case *ssa.RunDefers:
				fr.runDefers()
			case *ssa.Panic:
				v := fr.get(&ci.ops[0]).(Iface)
				if v.t == nil {
					th.runtimePanic("panic called with nil argument")
				}
				panic(targetPanic{v: v, msg: "panic: " + th.describe(v), where: th.where()})
			case *ssa.Store:
				th.store(fr.get(&ci.ops[0]), fr.get(&ci.ops[1]))
			case *ssa.MapUpdate:
				th.mapUpdate(fr.get(&ci.ops[0]).(*Map), fr.get(&ci.ops[1]), fr.get(&ci.ops[2]))
			case *ssa.Send:
				th.chanSend(fr.get(&ci.ops[0]).(*Chan), fr.get(&ci.ops[1]))
			case *ssa.Alloc:
				cell := new(Value)
				*cell = w.zero(ci.aux.(types.Type))
				fr.regs[ci.dst] = cell
			case *ssa.UnOp:
				fr.regs[ci.dst] = fr.unop(in, fr.get(&ci.ops[0]))
			case *ssa.BinOp:
				fr.regs[ci.dst] = fr.binop(in.Op, in.X.Type(), in.Y.Type(), fr.get(&ci.ops[0]), fr.get(&ci.ops[1]))
			case *ssa.ChangeType:
				fr.regs[ci.dst] = fr.get(&ci.ops[0])
			case *ssa.Convert:
				fr.regs[ci.dst] = th.convert(in.Type(), in.X.Type(), fr.get(&ci.ops[0]))
			case *ssa.MultiConvert:
				fr.regs[ci.dst] = th.convert(in.Type(), in.X.Type(), fr.get(&ci.ops[0]))
			case *ssa.ChangeInterface:
				fr.regs[ci.dst] = fr.get(&ci.ops[0])
			case *ssa.SliceToArrayPointer:
				s := fr.get(&ci.ops[0]).(Slice)
				n := int(under(under(in.Type()).(*types.Pointer).Elem()).(*types.Array).Len())
				if len(s) < n {
					th.runtimePanic("cannot convert slice to array pointer")
				}
				cell := new(Value)
				*cell = Array(s[:n:n])
				fr.regs[ci.dst] = cell
			case *ssa.MakeInterface:
				fr.regs[ci.dst] = Iface{t: in.X.Type(), v: fr.get(&ci.ops[0])}
			case *ssa.MakeClosure:
				env := make([]Value, len(ci.ops)-1)
				for i := range env {
					env[i] = fr.get(&ci.ops[i+1])
				}
				fr.regs[ci.dst] = &Closure{fn: in.Fn.(*ssa.Function), env: env}
			case *ssa.MakeMap:
				mt := under(in.Type()).(*types.Map)
				fr.regs[ci.dst] = newMap(mt.Key(), mt.Elem())
			case *ssa.MakeChan:
				n := th.concInt(fr.get(&ci.ops[0]))
				fr.regs[ci.dst] = newChan(n, under(in.Type()).(*types.Chan).Elem())
			case *ssa.MakeSlice:
				l := th.concInt(fr.get(&ci.ops[0]))
				cp := th.concInt(fr.get(&ci.ops[1]))
				if l < 0 || l > 1<<24 {
					th.runtimePanic("makeslice: len out of range")
				}
				if cp < l || cp > 1<<24 {
					th.runtimePanic("makeslice: cap out of range")
				}
				s := make(Slice, cp)
				z := w.zero(under(in.Type()).(*types.Slice).Elem())
				_, st := z.(Struct)
				_, ar := z.(Array)
				for i := range s {
					if st || ar {
						s[i] = copyVal(z)
					} else {
						s[i] = z
					}
				}
				fr.regs[ci.dst] = s[:l]
			case *ssa.Slice:
				fr.regs[ci.dst] = fr.slice(in, ci)
			case *ssa.FieldAddr:
				switch x := fr.get(&ci.ops[0]).(type) {
				case *Value:
					if x == nil {
						th.runtimePanic("invalid memory address or nil pointer dereference")
					}
					fr.regs[ci.dst] = &(*x).(Struct)[in.Field]
				case symPtr:
					fr.regs[ci.dst] = &(*x.resolve(th)).(Struct)[in.Field]
				case SPtr:
					fr.regs[ci.dst] = &x.s[0].(Struct)[in.Field]
				case nil:
					th.runtimePanic("invalid memory address or nil pointer dereference")
				default:
					panic(p.unsupported(fmt.Sprintf("FieldAddr of %T", x)))
				}
			case *ssa.Field:
				fr.regs[ci.dst] = fr.get(&ci.ops[0]).(Struct)[in.Field]
			case *ssa.IndexAddr:
				fr.regs[ci.dst] = fr.indexAddr(in, ci)
			case *ssa.Index:
				iv := fr.get(&ci.ops[1])
				sg := isSigned(in.Index.Type())
				switch x := fr.get(&ci.ops[0]).(type) {
				case Array:
					i, t := th.index(iv, len(x), sg)
					if t != nil {
						fr.regs[ci.dst] = th.selectElem(x, t)
					} else {
						fr.regs[ci.dst] = x[i]
					}
				case Str:
					fr.regs[ci.dst] = th.strIndex(x, iv, sg)
				case Slice:
					i, t := th.index(iv, len(x), sg)
					if t != nil {
						fr.regs[ci.dst] = th.selectElem(x, t)
					} else {
						fr.regs[ci.dst] = copyVal(x[i])
					}
				default:
					panic(p.unsupported(fmt.Sprintf("Index of %T", x)))
				}
			case *ssa.Lookup:
				x := fr.get(&ci.ops[0])
				switch x := x.(type) {
				case Str:
					fr.regs[ci.dst] = th.strIndex(x, fr.get(&ci.ops[1]), isSigned(in.Index.Type()))
				case *Map:
					v, ok := th.mapLookup(x, fr.get(&ci.ops[1]), under(in.X.Type()).(*types.Map).Elem())
					if in.CommaOk {
						fr.regs[ci.dst] = Tuple{v, ok}
					} else {
						fr.regs[ci.dst] = v
					}
				default:
					panic(p.unsupported(fmt.Sprintf("Lookup of %T", x)))
				}
			case *ssa.Range:
				switch x := fr.get(&ci.ops[0]).(type) {
				case *Map:
					fr.regs[ci.dst] = th.newMapIter(x)
				case Str:
					fr.regs[ci.dst] = &strIter{s: x}
				default:
					panic(p.unsupported(fmt.Sprintf("range over %T", x)))
				}
			case *ssa.Next:
				switch it := fr.get(&ci.ops[0]).(type) {
				case *mapIter:
					ok, e := it.next(th)
					if !ok {
						fr.regs[ci.dst] = Tuple{c.False, w.zeroOrNil(ci.t, 1), w.zeroOrNil(ci.t, 2)}
					} else {
						fr.regs[ci.dst] = Tuple{c.True, copyVal(e.k), copyVal(e.v)}
					}
				case *strIter:
					if it.i >= it.s.Len() {
						fr.regs[ci.dst] = Tuple{c.False, c.Int(0), c.Const(32, 0)}
					} else {
						r, n := th.decodeRune(p.strWindow(it.s, it.i))
						fr.regs[ci.dst] = Tuple{c.True, c.Int(int64(it.i)), r}
						it.i += n
					}
				}
			case *ssa.TypeAssert:
				fr.regs[ci.dst] = fr.typeAssert(in, fr.get(&ci.ops[0]).(Iface))
			case *ssa.Extract:
				fr.regs[ci.dst] = fr.get(&ci.ops[0]).(Tuple)[in.Index]
			case *ssa.Select:
				fr.regs[ci.dst] = fr.sel(in, ci)
			default:
				panic(p.unsupported(fmt.Sprintf("instruction %T", in)))
			}
		}
		if !jumped {
			panic(p.unsupported("fell off block in " + fr.cf.fn.String()))
		}
	}
}

type deferStack struct{ fr *frame }

func (w *Worker) zeroOrNil(t types.Type, i int) Value {
	tt := t.(*types.Tuple).At(i).Type()
	if b, ok := tt.(*types.Basic); ok && b.Kind() == types.Invalid {
		return nil
	}
	return w.zero(tt)
}

type strIter struct {
	s Str
	i int
}

// strWindow returns up to 4 bytes starting at i.
func (p *Path) strWindow(s Str, i int) []*Term {
	n := min(s.Len()-i, 4)
	r := make([]*Term, n)
	for k := range r {
		r[k] = p.byteAt(s, i+k)
	}
	return r
}

func (th *Thread) strIndex(x Str, iv Value, signed bool) Value {
	i, t := th.index(iv, x.Len(), signed)
	if t == nil {
		return th.p.byteAt(x, i)
	}
	el := make([]Value, x.Len())
	for k := range el {
		el[k] = th.p.byteAt(x, k)
	}
	return th.selectElem(el, t)
}

func (fr *frame) indexAddr(in *ssa.IndexAddr, ci *cinstr) Value {
	th := fr.th
	iv := fr.get(&ci.ops[1])
	sg := isSigned(in.Index.Type())
	var el []Value
	switch x := fr.get(&ci.ops[0]).(type) {
	case Slice:
		el = x
	case *Value:
		if x == nil {
			th.runtimePanic("invalid memory address or nil pointer dereference")
		}
		el = (*x).(Array)
	case symPtr:
		el = (*x.resolve(th)).(Array)
	default:
		panic(th.p.unsupported(fmt.Sprintf("IndexAddr of %T", x)))
	}
	i, t := th.index(iv, len(el), sg)
	if t != nil {
		return symPtr{el, t}
	}
	return &el[i]
}

func (th *Thread) concInt(v Value) int {
	t := v.(*Term)
	if t.IsConst() {
		return int(sext64(t.val, t.w))
	}
	return int(sext64(th.p.concretize(t), t.w))
}

func (fr *frame) slice(in *ssa.Slice, ci *cinstr) Value {
	th := fr.th
	x := fr.get(&ci.ops[0])
	lo, hi, mx := -1, -1, -1
	k := 1
	if in.Low != nil {
		lo = th.concInt(fr.get(&ci.ops[k]))
		k++
	} else {
		k++
	}
	if in.High != nil {
		hi = th.concInt(fr.get(&ci.ops[k]))
		k++
	} else {
		k++
	}
	if in.Max != nil {
		mx = th.concInt(fr.get(&ci.ops[k]))
	}
	haveLo, haveHi, haveMx := in.Low != nil, in.High != nil, in.Max != nil
	if !haveLo {
		lo = 0
	}
	switch x := x.(type) {
	case Str:
		if !haveHi {
			hi = x.Len()
		}
		if lo < 0 || hi < lo || hi > x.Len() {
			th.runtimePanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", lo, hi, x.Len()))
		}
		return th.p.strSub(x, lo, hi)
	case Slice:
		if !haveHi {
			hi = len(x)
		}
		if !haveMx {
			mx = cap(x)
		}
		if lo < 0 || hi < lo || mx < hi || mx > cap(x) {
			th.runtimePanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", lo, hi, mx, cap(x)))
		}
		return x[lo:hi:mx]
	case *Value:
		if x == nil {
			th.runtimePanic("invalid memory address or nil pointer dereference")
		}
		a := (*x).(Array)
		if !haveHi {
			hi = len(a)
		}
		if !haveMx {
			mx = len(a)
		}
		if lo < 0 || hi < lo || mx < hi || mx > len(a) {
			th.runtimePanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", lo, hi, mx, len(a)))
		}
		return Slice(a[lo:hi:mx])
	}
	panic(th.p.unsupported(fmt.Sprintf("slice of %T", x)))
}

func (fr *frame) unop(in *ssa.UnOp, x Value) Value {
	th := fr.th
	c := th.w.c
	switch in.Op {
	case token.MUL:
		return th.load(x)
	case token.NOT:
		return c.Not(x.(*Term))
	case token.SUB:
		switch x := x.(type) {
		case *Term:
			return c.Bin(OSub, c.Const(x.w, 0), x)
		case float64:
			return -x
		case complex128:
			return -x
		}
	case token.XOR:
		return c.Bnot(x.(*Term))
	case token.ARROW:
		v, ok := th.chanRecv(x.(*Chan))
		if in.CommaOk {
			return Tuple{v, c.Bool(ok)}
		}
		return v
	}
	panic(th.p.unsupported(fmt.Sprintf("unop %s on %T", in.Op, x)))
}

func (fr *frame) binop(op token.Token, xt, yt types.Type, x, y Value) Value {
	th := fr.th
	c := th.w.c
	switch op {
	case token.EQL:
		return th.equal(x, y)
	case token.NEQ:
		return c.Not(th.equal(x, y))
	}
	switch a := x.(type) {
	case Str:
		b := y.(Str)
		switch op {
		case token.ADD:
			return th.p.strCat(a, b)
		case token.LSS:
			return th.p.strLess(a, b)
		case token.GTR:
			return th.p.strLess(b, a)
		case token.LEQ:
			return c.Not(th.p.strLess(b, a))
		case token.GEQ:
			return c.Not(th.p.strLess(a, b))
		}
	case float64:
		b := y.(float64)
		f32 := false
		if bt, ok := under(xt).(*types.Basic); ok && bt.Kind() == types.Float32 {
			f32 = true
		}
		rd := func(f float64) Value {
			if f32 {
				return float64(float32(f))
			}
			return f
		}
		switch op {
		case token.ADD:
			return rd(a + b)
		case token.SUB:
			return rd(a - b)
		case token.MUL:
			return rd(a * b)
		case token.QUO:
			return rd(a / b)
		case token.LSS:
			return c.Bool(a < b)
		case token.GTR:
			return c.Bool(a > b)
		case token.LEQ:
			return c.Bool(a <= b)
		case token.GEQ:
			return c.Bool(a >= b)
		}
	case *Term:
		b := y.(*Term)
		_, signed, _ := intInfo(xt)
		if a.w == 0 {
			switch op {
			case token.AND, token.LAND:
				return c.And(a, b)
			case token.OR, token.LOR:
				return c.Or(a, b)
			}
		}
		switch op {
		case token.ADD:
			return c.Bin(OAdd, a, b)
		case token.SUB:
			return c.Bin(OSub, a, b)
		case token.MUL:
			return c.Bin(OMul, a, b)
		case token.QUO, token.REM:
			if !b.IsConst() || b.val == 0 {
				if th.p.branch(c.Eq(b, c.Const(b.w, 0))) {
					th.runtimePanic("integer divide by zero")
				}
			}
			switch {
			case op == token.QUO && signed:
				return c.Bin(OSdiv, a, b)
			case op == token.QUO:
				return c.Bin(OUdiv, a, b)
			case signed:
				return c.Bin(OSrem, a, b)
			default:
				return c.Bin(OUrem, a, b)
			}
		case token.AND:
			return c.Bin(OBand, a, b)
		case token.OR:
			return c.Bin(OBor, a, b)
		case token.XOR:
			return c.Bin(OBxor, a, b)
		case token.AND_NOT:
			return c.Bin(OBand, a, c.Bnot(b))
		case token.SHL, token.SHR:
			_, ysigned, _ := intInfo(yt)
			if ysigned {
				if b.IsConst() {
					if sext64(b.val, b.w) < 0 {
						th.runtimePanic("negative shift amount")
					}
				} else if th.p.branch(c.Slt(b, c.Const(b.w, 0))) {
					th.runtimePanic("negative shift amount")
				}
			}
			var cnt *Term // shift count at width a.w, saturated
			big := c.False
			if b.w > a.w {
				big = c.Not(c.Ult(b, c.Const(b.w, uint64(a.w))))
				cnt = c.Extract(b, 0, a.w)
			} else {
				cnt = c.Zext(b, a.w)
				big = c.Not(c.Ult(cnt, c.Const(a.w, uint64(a.w))))
				if a.w > 6 && uint64(a.w) > mask(a.w) {
					big = c.False
				}
			}
			switch {
			case op == token.SHL:
				return c.Ite(big, c.Const(a.w, 0), c.Bin(OShl, a, cnt))
			case signed:
				return c.Ite(big, c.Bin(OAshr, a, c.Const(a.w, uint64(a.w-1))), c.Bin(OAshr, a, cnt))
			default:
				return c.Ite(big, c.Const(a.w, 0), c.Bin(OLshr, a, cnt))
			}
		}
		lt := c.Ult
		if signed {
			lt = c.Slt
		}
		switch op {
		case token.LSS:
			return lt(a, b)
		case token.GTR:
			return lt(b, a)
		case token.LEQ:
			return c.Not(lt(b, a))
		case token.GEQ:
			return c.Not(lt(a, b))
		}
	}
	panic(th.p.unsupported(fmt.Sprintf("binop %s on %T", op, x)))
}

func (th *Thread) convert(dst, src types.Type, x Value) Value {
	c := th.w.c
	p := th.p
	ud, us := under(dst), under(src)
	// unsafe pointers
	if b, ok := ud.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		if u, ok := x.(UPtr); ok {
			return u
		}
		if t, ok := x.(*Term); ok {
			if t.IsConst() && t.val == 0 {
				return UPtr{(*Value)(nil)}
			}
			if bx, ok := th.p.uptrs[t]; ok {
				return bx
			}
			panic(p.unsupported("uintptr to unsafe.Pointer"))
		}
		return UPtr{x}
	}
	if b, ok := us.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		if _, ok := ud.(*types.Pointer); ok {
			return x.(UPtr).v
		}
		// unsafe.Pointer -> uintptr: an opaque address
		u := x.(UPtr)
		if isNilVal(u.v) {
			return c.Const(64, 0)
		}
		t := c.Const(64, 0xc000000000+uint64(len(p.uptrs))*64)
		if p.uptrs == nil {
			p.uptrs = map[*Term]UPtr{}
		}
		for k, v := range p.uptrs {
			if v.v == u.v {
				return k
			}
		}
		p.uptrs[t] = u
		return t
	}
	switch d := ud.(type) {
	case *types.Basic:
		if wd, _, ok := intInfo(d); ok && wd > 0 {
			switch x := x.(type) {
			case *Term:
				_, ssg, _ := intInfo(us)
				switch {
				case wd == x.w:
					return x
				case wd < x.w:
					return c.Extract(x, 0, wd)
				case ssg:
					return c.Sext(x, wd)
				default:
					return c.Zext(x, wd)
				}
			case float64:
				if _, sg, _ := intInfo(d); sg {
					return c.Const(wd, uint64(int64(x)))
				}
				return c.Const(wd, uint64(x))
			}
		}
		switch d.Kind() {
		case types.Float32, types.Float64, types.UntypedFloat:
			var f float64
			switch x := x.(type) {
			case float64:
				f = x
			case *Term:
				v := p.concretize(x)
				if isSigned(us) {
					f = float64(sext64(v, x.w))
				} else {
					f = float64(v)
				}
			}
			if d.Kind() == types.Float32 {
				f = float64(float32(f))
			}
			return f
		case types.Complex128, types.Complex64:
			return x
		case types.String, types.UntypedString:
			switch x := x.(type) {
			case Str:
				return x
			case *Term: // rune to string
				_, sg, _ := intInfo(us)
				if x.w > 32 {
					ok := c.And(c.Sle(c.Const(x.w, 0), x), c.Sle(x, c.Const(x.w, 0x10FFFF)))
					if !sg {
						ok = c.Ule(x, c.Const(x.w, 0x10FFFF))
					}
					if !p.branch(ok) {
						return Str{s: "\uFFFD"}
					}
					x = c.Extract(x, 0, 32)
				} else if sg {
					x = c.Sext(x, 32)
				} else {
					x = c.Zext(x, 32)
				}
				return mkStr(th.encodeRune(x))
			case Slice:
				el := under(us.(*types.Slice).Elem()).(*types.Basic)
				if el.Kind() == types.Uint8 {
					b := make([]*Term, len(x))
					for i := range x {
						th.access(&x[i], false)
						b[i] = x[i].(*Term)
					}
					return mkStr(b)
				}
				var b []*Term
				for i := range x {
					th.access(&x[i], false)
					b = append(b, th.encodeRune(x[i].(*Term))...)
				}
				return mkStr(b)
			}
		}
	case *types.Slice:
		if s, ok := x.(Str); ok {
			el := under(d.Elem()).(*types.Basic)
			if el.Kind() == types.Uint8 {
				b := p.strBytes(s)
				r := make(Slice, len(b), byteCap(len(b)))
				for i := range b {
					r[i] = b[i]
				}
				full := r[:cap(r)]
				for i := len(r); i < len(full); i++ {
					full[i] = c.Const(8, 0)
				}
				return r
			}
			r := Slice{}
			for i := 0; i < s.Len(); {
				rn, n := th.decodeRune(p.strWindow(s, i))
				r = append(r, rn)
				i += n
			}
			return r[:len(r):len(r)]
		}
		return x
	}
	return x
}

func byteCap(n int) int {
	if n <= 32 {
		return 32
	}
	return roundupsize(n, true)
}

func (fr *frame) typeAssert(in *ssa.TypeAssert, x Iface) Value {
	th := fr.th
	w := th.w
	ok := false
	var v Value
	if it, is := under(in.AssertedType).(*types.Interface); is {
		if x.t != nil && (w.implements(x.t, it)) {
			ok = true
			v = x
		}
	} else if x.t != nil && w.identical(x.t, in.AssertedType) {
		ok = true
		v = x.v
	}
	if !ok {
		if !in.CommaOk {
			d := "nil"
			if x.t != nil {
				d = x.t.String()
			}
			th.runtimePanic(fmt.Sprintf("interface conversion: interface is %s, not %s", d, in.AssertedType))
		}
		v = w.zero(in.AssertedType)
	}
	if in.CommaOk {
		return Tuple{copyVal(v), w.c.Bool(ok)}
	}
	return copyVal(v)
}

// decodeRune decodes the first rune of b (1..4 bytes available), forking on
// the encoding class.
func (th *Thread) decodeRune(b []*Term) (*Term, int) {
	p := th.p
	c := th.w.c
	k8 := func(v uint64) *Term { return c.Const(8, v) }
	in := func(t *Term, lo, hi uint64) *Term { return c.And(c.Ule(k8(lo), t), c.Ule(t, k8(hi))) }
	z := func(t *Term) *Term { return c.Zext(t, 32) }
	sh := func(t *Term, n uint64, m uint64) *Term {
		return c.Bin(OShl, c.Bin(OBand, z(t), c.Const(32, m)), c.Const(32, n))
	}
	b0 := b[0]
	if p.branch(c.Ult(b0, k8(0x80))) {
		return z(b0), 1
	}
	if len(b) >= 2 {
		if p.branch(c.And(in(b0, 0xC2, 0xDF), in(b[1], 0x80, 0xBF))) {
			return c.Bin(OBor, sh(b0, 6, 0x1F), sh(b[1], 0, 0x3F)), 2
		}
	}
	if len(b) >= 3 {
		lead := c.Or(c.And(c.Eq(b0, k8(0xE0)), in(b[1], 0xA0, 0xBF)),
			c.Or(c.And(c.Or(in(b0, 0xE1, 0xEC), in(b0, 0xEE, 0xEF)), in(b[1], 0x80, 0xBF)),
				c.And(c.Eq(b0, k8(0xED)), in(b[1], 0x80, 0x9F))))
		if p.branch(c.And(lead, in(b[2], 0x80, 0xBF))) {
			return c.Bin(OBor, c.Bin(OBor, sh(b0, 12, 0x0F), sh(b[1], 6, 0x3F)), sh(b[2], 0, 0x3F)), 3
		}
	}
	if len(b) >= 4 {
		lead := c.Or(c.And(c.Eq(b0, k8(0xF0)), in(b[1], 0x90, 0xBF)),
			c.Or(c.And(in(b0, 0xF1, 0xF3), in(b[1], 0x80, 0xBF)),
				c.And(c.Eq(b0, k8(0xF4)), in(b[1], 0x80, 0x8F))))
		if p.branch(c.And(lead, c.And(in(b[2], 0x80, 0xBF), in(b[3], 0x80, 0xBF)))) {
			return c.Bin(OBor, c.Bin(OBor, sh(b0, 18, 0x07), sh(b[1], 12, 0x3F)), c.Bin(OBor, sh(b[2], 6, 0x3F), sh(b[3], 0, 0x3F))), 4
		}
	}
	return c.Const(32, 0xFFFD), 1
}

// encodeRune returns the UTF-8 bytes of r, forking on the size class.
func (th *Thread) encodeRune(r *Term) []*Term {
	p := th.p
	c := th.w.c
	if r.IsConst() {
		s := string(rune(int32(uint32(r.val))))
		out := make([]*Term, len(s))
		for i := range out {
			out[i] = c.Const(8, uint64(s[i]))
		}
		return out
	}
	k := func(v uint64) *Term { return c.Const(32, v) }
	part := func(sft uint64, m, or uint64) *Term {
		t := c.Bin(OLshr, r, k(sft))
		t = c.Bin(OBand, t, k(m))
		return c.Extract(c.Bin(OBor, t, k(or)), 0, 8)
	}
	if p.branch(c.Ult(r, k(0x80))) {
		return []*Term{c.Extract(r, 0, 8)}
	}
	if p.branch(c.Ult(r, k(0x800))) {
		return []*Term{part(6, 0x1F, 0xC0), part(0, 0x3F, 0x80)}
	}
	bad := c.Or(c.And(c.Ule(k(0xD800), r), c.Ule(r, k(0xDFFF))), c.Ult(k(0x10FFFF), r))
	if p.branch(bad) {
		return []*Term{c.Const(8, 0xEF), c.Const(8, 0xBF), c.Const(8, 0xBD)}
	}
	if p.branch(c.Ult(r, k(0x10000))) {
		return []*Term{part(12, 0x0F, 0xE0), part(6, 0x3F, 0x80), part(0, 0x3F, 0x80)}
	}
	return []*Term{part(18, 0x07, 0xF0), part(12, 0x3F, 0x80), part(6, 0x3F, 0x80), part(0, 0x3F, 0x80)}
}

// ---- builtins ----

func (th *Thread) builtin(fr *frame, b *ssa.Builtin, args []Value, in ssa.Instruction) Value {
	c := th.w.c
	p := th.p
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case Str:
			return c.Int(int64(x.Len()))
		case Slice:
			return c.Int(int64(len(x)))
		case Array:
			return c.Int(int64(len(x)))
		case *Value:
			if x == nil {
				return c.Int(under(under(b.Type().(*types.Signature).Params().At(0).Type()).(*types.Pointer).Elem()).(*types.Array).Len())
			}
			return c.Int(int64(len((*x).(Array))))
		case *Map:
			if x == nil {
				return c.Int(0)
			}
			th.access(&x.shadow, false)
			return c.Int(int64(x.live))
		case *Chan:
			if x == nil {
				return c.Int(0)
			}
			return c.Int(int64(len(x.buf)))
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return c.Int(int64(cap(x)))
		case Array:
			return c.Int(int64(len(x)))
		case *Value:
			return c.Int(int64(len((*x).(Array))))
		case *Chan:
			if x == nil {
				return c.Int(0)
			}
			return c.Int(int64(x.cap))
		}
	case "append":
		x := args[0].(Slice)
		if len(args) == 1 {
			return x
		}
		var el types.Type
		if sl, ok := under(b.Type().(*types.Signature).Params().At(0).Type()).(*types.Slice); ok {
			el = sl.Elem()
		}
		switch y := args[1].(type) {
		case Str:
			bs := p.strBytes(y)
			ys := make(Slice, len(bs))
			for i := range bs {
				ys[i] = bs[i]
			}
			return th.appendSlice(x, ys, types.Typ[types.Uint8], false)
		case Slice:
			return th.appendSlice(x, y, el, true)
		}
	case "copy":
		d := args[0].(Slice)
		switch y := args[1].(type) {
		case Str:
			n := min(len(d), y.Len())
			for i := 0; i < n; i++ {
				th.access(&d[i], true)
				d[i] = p.byteAt(y, i)
			}
			return c.Int(int64(n))
		case Slice:
			n := min(len(d), len(y))
			tmp := make([]Value, n)
			for i := 0; i < n; i++ {
				th.accessDeep(&y[i], false)
				tmp[i] = copyVal(y[i])
			}
			for i := 0; i < n; i++ {
				th.accessDeep(&d[i], true)
				storeVal(&d[i], tmp[i])
			}
			return c.Int(int64(n))
		}
	case "delete":
		th.mapDelete(args[0].(*Map), args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x != nil {
				th.access(&x.shadow, true)
				x.clear()
			}
		case Slice:
			el := under(b.Type().(*types.Signature).Params().At(0).Type()).(*types.Slice).Elem()
			for i := range x {
				th.accessDeep(&x[i], true)
				storeVal(&x[i], th.w.zero(el))
			}
		}
		return nil
	case "panic":
		v := args[0].(Iface)
		panic(targetPanic{v: v, msg: "panic: " + th.describe(v), where: th.where()})
	case "recover":
		return th.doRecover(fr)
	case "print", "println":
		return nil
	case "close":
		th.chanClose(args[0].(*Chan))
		return nil
	case "min", "max":
		r := args[0]
		for _, y := range args[1:] {
			switch a := r.(type) {
			case *Term:
				t := b.Type().(*types.Signature).Params().At(0).Type()
				lt := c.Ult
				if isSigned(t) {
					lt = c.Slt
				}
				bb := y.(*Term)
				if b.Name() == "min" {
					r = c.Ite(lt(bb, a), bb, a)
				} else {
					r = c.Ite(lt(a, bb), bb, a)
				}
			case float64:
				if b.Name() == "min" {
					r = math.Min(a, y.(float64))
				} else {
					r = math.Max(a, y.(float64))
				}
			case Str:
				bb := y.(Str)
				l := p.strLess(bb, a)
				if b.Name() == "max" {
					l = p.strLess(a, bb)
				}
				if p.branch(l) {
					r = bb
				}
			}
		}
		return r
	case "ssa:wrapnilchk":
		if isNilVal(args[0]) {
			th.runtimePanic("value method called using nil pointer")
		}
		return args[0]
	case "ssa:deferstack":
		return &deferStack{fr}
	case "String": // unsafe.String
		n := th.concInt(args[1])
		if n == 0 {
			return Str{}
		}
		switch x := args[0].(type) {
		case SPtr:
			if x.str != nil {
				return p.strSub(*x.str, 0, n)
			}
			bs := make([]*Term, n)
			for i := range bs {
				bs[i] = x.s[i].(*Term)
			}
			return mkStr(bs)
		case *Value:
			if x != nil { // an element of a slice
				bs := make([]*Term, n)
				for i, v := range unsafe.Slice(x, n) {
					bs[i] = v.(*Term)
				}
				return mkStr(bs)
			}
		}
	case "StringData":
		s := args[0].(Str)
		return SPtr{str: &s}
	case "SliceData":
		s := args[0].(Slice)
		if s == nil {
			return (*Value)(nil)
		}
		return SPtr{s: s[:cap(s)]}
	case "Slice": // unsafe.Slice
		n := th.concInt(args[1])
		switch x := args[0].(type) {
		case SPtr:
			if x.str != nil {
				bs := p.strBytes(*x.str)
				r := make(Slice, n)
				for i := range r {
					r[i] = bs[i]
				}
				return r
			}
			return x.s[:n:n]
		case *Value:
			if x == nil {
				return Slice(nil)
			}
			if n == 0 {
				return Slice{}
			}
		}
	case "real":
		return real(args[0].(complex128))
	case "imag":
		return imag(args[0].(complex128))
	}
	panic(p.unsupported("builtin " + b.Name() + fmt.Sprintf(" on %T", args[0])))
}

func (th *Thread) doRecover(fr *frame) Value {
	// recover is effective only when called directly by a deferred function
	df := th.deferFrame
	if df != nil && df.panicking && fr != nil && fr.caller == df {
		df.panicking = false
		return df.panicVal.(targetPanic).v
	}
	return Iface{}
}

func (th *Thread) appendSlice(x, y Slice, el types.Type, fromMem bool) Slice {
	if len(y) == 0 {
		return x
	}
	tmp := make([]Value, len(y))
	for i := range y {
		if fromMem {
			th.accessDeep(&y[i], false)
		}
		tmp[i] = copyVal(y[i])
	}
	n := len(x) + len(y)
	if n <= cap(x) {
		r := x[:n]
		for i := range tmp {
			th.accessDeep(&r[len(x)+i], true)
			storeVal(&r[len(x)+i], tmp[i])
		}
		return r
	}
	sz := int64(8)
	if el != nil {
		sz = th.w.eng.sizes.Sizeof(el)
	}
	nc := growCap(cap(x), n, int(sz), el != nil && !hasPointers(el))
	r := make(Slice, nc)
	for i := range x {
		th.accessDeep(&x[i], false)
		r[i] = copyVal(x[i])
	}
	for i := range tmp {
		r[len(x)+i] = tmp[i]
	}
	if nc > n && el != nil {
		z := th.w.zero(el)
		for i := n; i < nc; i++ {
			r[i] = copyVal(z)
		}
	}
	return r[:n]
}

// growCap follows runtime.growslice.
func growCap(old, need, size int, noscan bool) int {
	nc := old
	dbl := old + old
	if need > dbl {
		nc = need
	} else {
		const threshold = 256
		if old < threshold {
			nc = dbl
		} else {
			for {
				nc += (nc + 3*threshold) >> 2
				if nc >= need {
					break
				}
			}
		}
	}
	if size == 0 {
		return need
	}
	return roundupsize(nc*size, noscan) / size
}

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundupsize(n int, noscan bool) int {
	if n <= 32768-8 {
		h := 0
		if !noscan && n > 512 {
			h = 8
		}
		for _, s := range sizeClasses {
			if s >= n+h {
				return s - h
			}
		}
	}
	return (n + 8191) &^ 8191
}

func hasPointers(t types.Type) bool {
	switch t := under(t).(type) {
	case *types.Basic:
		return t.Kind() == types.String || t.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < t.NumFields(); i++ {
			if hasPointers(t.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return t.Len() > 0 && hasPointers(t.Elem())
	}
	return true
}
