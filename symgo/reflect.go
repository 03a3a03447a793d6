package main

// Model of package reflect: types are interned *rtype pointers, a
// reflect.Value is (type, cell, flags).

import (
	"fmt"
	"go/types"
	"reflect"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

const (
	rfValid = 1
	rfAddr  = 2
	rfRO    = 4
)

type rtypes struct {
	of    typeutil.Map
	back  map[*Value]types.Type
	rtype types.Type // *reflect.rtype
	pkg   *ssa.Package
}

func (w *Worker) rt() *rtypes {
	if w.rts == nil {
		pk := w.eng.prog.ImportedPackage("reflect")
		w.rts = &rtypes{back: map[*Value]types.Type{}, pkg: pk, rtype: types.NewPointer(pk.Type("rtype").Type())}
	}
	return w.rts
}

// typeOf returns the reflect.Type of t.
func (w *Worker) typeOf(t types.Type) Iface {
	if t == nil {
		return Iface{}
	}
	r := w.rt()
	t = types.Unalias(t)
	if v := r.of.At(t); v != nil {
		return Iface{r.rtype, v.(*Value)}
	}
	cell := new(Value)
	*cell = w.zero(under(r.rtype).(*types.Pointer).Elem())
	r.of.Set(t, cell)
	r.back[cell] = t
	return Iface{r.rtype, cell}
}

func (th *Thread) goType(v Value) types.Type {
	if i, ok := v.(Iface); ok {
		v = i.v
	}
	p, _ := v.(*Value)
	if p == nil {
		th.runtimePanic("invalid memory address or nil pointer dereference")
	}
	return th.w.rt().back[p]
}

type rval struct {
	t    types.Type
	cell *Value
	fl   uint64
}

func (th *Thread) mkRval(r rval) Value {
	if r.t == nil {
		return Struct{(*Value)(nil), UPtr{(*Value)(nil)}, th.p.c.Const(64, 0)}
	}
	return Struct{th.w.typeOf(r.t).v, UPtr{r.cell}, th.p.c.Const(64, r.fl|rfValid)}
}

func (th *Thread) rvalOf(v Value) rval {
	s := v.(Struct)
	p, _ := s[0].(*Value)
	if p == nil {
		return rval{}
	}
	return rval{th.w.rt().back[p], s[1].(UPtr).v.(*Value), s[2].(*Term).val}
}

func (th *Thread) boxed(t types.Type, v Value, fl uint64) rval {
	cell := new(Value)
	*cell = copyVal(v)
	return rval{t, cell, fl}
}

func (th *Thread) rvalIface(i Iface) rval {
	if i.t == nil {
		return rval{}
	}
	return th.boxed(i.t, i.v, 0)
}

func (r rval) iface(th *Thread) Iface {
	v := th.load(r.cell)
	if i, ok := v.(Iface); ok {
		return i
	}
	return Iface{r.t, v}
}

var basicKinds = map[types.BasicKind]reflect.Kind{
	types.Bool: reflect.Bool, types.Int: reflect.Int, types.Int8: reflect.Int8, types.Int16: reflect.Int16, types.Int32: reflect.Int32,
	types.Int64: reflect.Int64, types.Uint: reflect.Uint, types.Uint8: reflect.Uint8, types.Uint16: reflect.Uint16, types.Uint32: reflect.Uint32,
	types.Uint64: reflect.Uint64, types.Uintptr: reflect.Uintptr, types.Float32: reflect.Float32, types.Float64: reflect.Float64,
	types.Complex64: reflect.Complex64, types.Complex128: reflect.Complex128, types.String: reflect.String, types.UnsafePointer: reflect.UnsafePointer,
}

func kindOf(t types.Type) reflect.Kind {
	if t == nil {
		return reflect.Invalid
	}
	switch u := under(t).(type) {
	case *types.Basic:
		return basicKinds[u.Kind()]
	case *types.Pointer:
		return reflect.Pointer
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Map:
		return reflect.Map
	case *types.Chan:
		return reflect.Chan
	case *types.Struct:
		return reflect.Struct
	case *types.Interface:
		return reflect.Interface
	case *types.Signature:
		return reflect.Func
	}
	return reflect.Invalid
}

func elemType(t types.Type) types.Type {
	switch u := under(t).(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Chan:
		return u.Elem()
	}
	return nil
}

func typeName(t types.Type) string {
	switch t := types.Unalias(t).(type) {
	case *types.Named:
		return t.Obj().Name()
	case *types.Basic:
		return types.Typ[t.Kind()].Name()
	}
	return ""
}

func typeString(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (w *Worker) exportedMethods(t types.Type) int {
	if it, ok := under(t).(*types.Interface); ok {
		return it.NumMethods()
	}
	ms := w.msets.MethodSet(t)
	n := 0
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Exported() {
			n++
		}
	}
	return n
}

func (th *Thread) structField(st *types.Struct, i int) Value {
	f := st.Field(i)
	c := th.p.c
	pkg := ""
	if !f.Exported() {
		pkg = f.Pkg().Path()
	}
	return Struct{Str{s: f.Name()}, Str{s: pkg}, th.w.typeOf(f.Type()), Str{s: st.Tag(i)}, c.Const(64, uint64(8*i)),
		Slice{c.Int(int64(i))}, c.Bool(f.Anonymous())}
}

func (th *Thread) isZero(t types.Type, v Value) *Term {
	switch x := v.(type) {
	case Slice, *Map, *Chan, *Value, *ssa.Function, *Closure, *Native, Iface, UPtr:
		return th.p.c.Bool(isNilVal(x))
	}
	return th.equal(v, th.w.zero(t))
}

// assignable reports the value of v (of type from) as a value of type to.
func (th *Thread) assign(to types.Type, r rval) Value {
	v := th.load(r.cell)
	if _, isI := under(to).(*types.Interface); isI {
		if i, ok := v.(Iface); ok {
			return i
		}
		return Iface{r.t, v}
	}
	return v
}

type reflIter struct {
	m   rval
	it  *mapIter
	cur *mapEntry
}

func (th *Thread) deepEqual(t types.Type, x, y Value, depth int) *Term {
	c := th.p.c
	if depth > 200 {
		panic(th.p.unsupported("reflect.DeepEqual on a deep structure"))
	}
	switch x := x.(type) {
	case Struct:
		st := under(t).(*types.Struct)
		r := c.True
		for i := range x {
			r = c.And(r, th.deepEqual(st.Field(i).Type(), x[i], y.(Struct)[i], depth+1))
			if r.IsFalse() {
				break
			}
		}
		return r
	case Array:
		r := c.True
		for i := range x {
			r = c.And(r, th.deepEqual(elemType(t), x[i], y.(Array)[i], depth+1))
		}
		return r
	case Slice:
		ys, _ := y.(Slice)
		if (x == nil) != (ys == nil) || len(x) != len(ys) {
			return c.False
		}
		r := c.True
		for i := range x {
			r = c.And(r, th.deepEqual(elemType(t), th.load(&x[i]), th.load(&ys[i]), depth+1))
			if r.IsFalse() {
				break
			}
		}
		return r
	case *Map:
		ym, _ := y.(*Map)
		if (x == nil) != (ym == nil) {
			return c.False
		}
		if x == nil || x == ym {
			return c.True
		}
		if x.live != ym.live {
			return c.False
		}
		th.access(&x.shadow, false)
		for _, e := range append([]*mapEntry(nil), x.entries...) {
			if e.dead {
				continue
			}
			o := th.find(ym, e.k)
			if o == nil {
				return c.False
			}
			if !th.p.branch(th.deepEqual(x.valT, e.v, o.v, depth+1)) {
				return c.False
			}
		}
		return c.True
	case Iface:
		yi := y.(Iface)
		if x.t == nil || yi.t == nil {
			return c.Bool(x.t == nil && yi.t == nil)
		}
		if !th.w.identical(x.t, yi.t) {
			return c.False
		}
		return th.deepEqual(x.t, x.v, yi.v, depth+1)
	case *Value:
		yp, ok := y.(*Value)
		if !ok {
			return c.False
		}
		if x == yp {
			return c.True
		}
		if x == nil || yp == nil {
			return c.False
		}
		return th.deepEqual(elemType(t), th.load(x), th.load(yp), depth+1)
	}
	return th.equal(x, y)
}

func regReflect() {
	type fnT = func(th *Thread, r rval, a []Value) Value
	val := func(name string, f fnT) {
		reg("(reflect.Value)."+name, func(th *Thread, _ *ssa.Function, a []Value) Value {
			return f(th, th.rvalOf(a[0]), a[1:])
		})
	}
	typ := func(name string, f func(th *Thread, t types.Type, a []Value) Value) {
		reg("(*reflect.rtype)."+name, func(th *Thread, _ *ssa.Function, a []Value) Value { return f(th, th.goType(a[0]), a[1:]) })
	}
	bl := func(th *Thread, b bool) Value { return th.p.c.Bool(b) }
	must := func(th *Thread, r rval) {
		if r.t == nil {
			th.runtimePanic("reflect: call of a method on a zero Value")
		}
	}
	mustSet := func(th *Thread, r rval) {
		must(th, r)
		if r.fl&rfAddr == 0 || r.fl&rfRO != 0 {
			th.runtimePanic("reflect: setting an unaddressable or unexported value")
		}
	}
	// types
	reg("reflect.TypeOf", func(th *Thread, _ *ssa.Function, a []Value) Value { return th.w.typeOf(a[0].(Iface).t) })
	reg("reflect.TypeFor", func(th *Thread, fn *ssa.Function, a []Value) Value { return th.w.typeOf(fn.TypeArgs()[0]) })
	pt := func(th *Thread, _ *ssa.Function, a []Value) Value {
		return th.w.typeOf(types.NewPointer(th.goType(a[0])))
	}
	reg("reflect.PointerTo", pt)
	reg("reflect.PtrTo", pt)
	reg("reflect.SliceOf", func(th *Thread, _ *ssa.Function, a []Value) Value {
		return th.w.typeOf(types.NewSlice(th.goType(a[0])))
	})
	reg("reflect.MapOf", func(th *Thread, _ *ssa.Function, a []Value) Value {
		return th.w.typeOf(types.NewMap(th.goType(a[0]), th.goType(a[1])))
	})
	typ("Kind", func(th *Thread, t types.Type, a []Value) Value { return th.p.c.Const(64, uint64(kindOf(t))) })
	typ("Elem", func(th *Thread, t types.Type, a []Value) Value { return th.w.typeOf(elemType(t)) })
	typ("Key", func(th *Thread, t types.Type, a []Value) Value { return th.w.typeOf(under(t).(*types.Map).Key()) })
	typ("Name", func(th *Thread, t types.Type, a []Value) Value { return Str{s: typeName(t)} })
	typ("String", func(th *Thread, t types.Type, a []Value) Value { return Str{s: typeString(t)} })
	typ("PkgPath", func(th *Thread, t types.Type, a []Value) Value {
		if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
			return Str{s: n.Obj().Pkg().Path()}
		}
		return Str{}
	})
	typ("NumField", func(th *Thread, t types.Type, a []Value) Value {
		return th.p.c.Int(int64(under(t).(*types.Struct).NumFields()))
	})
	typ("Field", func(th *Thread, t types.Type, a []Value) Value {
		return th.structField(under(t).(*types.Struct), th.concInt(a[0]))
	})
	typ("NumMethod", func(th *Thread, t types.Type, a []Value) Value { return th.p.c.Int(int64(th.w.exportedMethods(t))) })
	typ("Len", func(th *Thread, t types.Type, a []Value) Value { return th.p.c.Int(under(t).(*types.Array).Len()) })
	typ("Implements", func(th *Thread, t types.Type, a []Value) Value {
		return bl(th, th.w.implements(t, under(th.goType(a[0])).(*types.Interface)))
	})
	typ("AssignableTo", func(th *Thread, t types.Type, a []Value) Value {
		return bl(th, types.AssignableTo(t, th.goType(a[0])))
	})
	typ("ConvertibleTo", func(th *Thread, t types.Type, a []Value) Value {
		return bl(th, types.ConvertibleTo(t, th.goType(a[0])))
	})
	typ("Comparable", func(th *Thread, t types.Type, a []Value) Value { return bl(th, types.Comparable(t)) })
	typ("Bits", func(th *Thread, t types.Type, a []Value) Value { return th.p.c.Int(8 * th.w.eng.sizes.Sizeof(t)) })
	typ("Size", func(th *Thread, t types.Type, a []Value) Value {
		return th.p.c.Const(64, uint64(th.w.eng.sizes.Sizeof(t)))
	})

	// constructors
	reg("reflect.ValueOf", func(th *Thread, _ *ssa.Function, a []Value) Value { return th.mkRval(th.rvalIface(a[0].(Iface))) })
	reg("reflect.Zero", func(th *Thread, _ *ssa.Function, a []Value) Value {
		t := th.goType(a[0])
		return th.mkRval(th.boxed(t, th.w.zero(t), 0))
	})
	reg("reflect.New", func(th *Thread, _ *ssa.Function, a []Value) Value {
		t := th.goType(a[0])
		cell := new(Value)
		*cell = th.w.zero(t)
		return th.mkRval(th.boxed(types.NewPointer(t), cell, 0))
	})
	mkMap := func(th *Thread, _ *ssa.Function, a []Value) Value {
		t := th.goType(a[0])
		m := under(t).(*types.Map)
		return th.mkRval(th.boxed(t, newMap(m.Key(), m.Elem()), 0))
	}
	reg("reflect.MakeMap", mkMap)
	reg("reflect.MakeMapWithSize", mkMap)
	reg("reflect.MakeSlice", func(th *Thread, _ *ssa.Function, a []Value) Value {
		t := th.goType(a[0])
		n, m := th.concInt(a[1]), th.concInt(a[2])
		s := make(Slice, m)
		for i := range s {
			s[i] = th.w.zero(elemType(t))
		}
		return th.mkRval(th.boxed(t, s[:n], 0))
	})
	reg("reflect.Indirect", func(th *Thread, _ *ssa.Function, a []Value) Value {
		r := th.rvalOf(a[0])
		if kindOf(r.t) != reflect.Pointer {
			return a[0]
		}
		return intrinsics["(reflect.Value).Elem"](th, nil, a)
	})
	reg("reflect.TypeAssert", func(th *Thread, fn *ssa.Function, a []Value) Value {
		r := th.rvalOf(a[0])
		must(th, r)
		to := fn.TypeArgs()[0]
		i := r.iface(th)
		if it, ok := under(to).(*types.Interface); ok {
			if i.t != nil && th.w.implements(i.t, it) {
				return Tuple{i, th.p.c.True}
			}
		} else if i.t != nil && th.w.identical(i.t, to) {
			return Tuple{copyVal(i.v), th.p.c.True}
		}
		return Tuple{th.w.zero(to), th.p.c.False}
	})
	reg("reflect.DeepEqual", func(th *Thread, _ *ssa.Function, a []Value) Value {
		return th.deepEqual(nil, a[0], a[1], 0)
	})
	reg("reflect.Append", func(th *Thread, _ *ssa.Function, a []Value) Value {
		r := th.rvalOf(a[0])
		s := th.load(r.cell).(Slice)
		var y Slice
		for _, e := range a[1].(Slice) {
			y = append(y, th.assign(elemType(r.t), th.rvalOf(e)))
		}
		return th.mkRval(th.boxed(r.t, th.appendSlice(s, y, elemType(r.t), false), 0))
	})

	// values
	val("IsValid", func(th *Thread, r rval, a []Value) Value { return bl(th, r.t != nil) })
	val("Kind", func(th *Thread, r rval, a []Value) Value { return th.p.c.Const(64, uint64(kindOf(r.t))) })
	val("Type", func(th *Thread, r rval, a []Value) Value { must(th, r); return th.w.typeOf(r.t) })
	val("CanAddr", func(th *Thread, r rval, a []Value) Value { return bl(th, r.fl&rfAddr != 0) })
	val("CanSet", func(th *Thread, r rval, a []Value) Value { return bl(th, r.fl&(rfAddr|rfRO) == rfAddr) })
	val("CanInterface", func(th *Thread, r rval, a []Value) Value { must(th, r); return bl(th, r.fl&rfRO == 0) })
	val("Interface", func(th *Thread, r rval, a []Value) Value {
		must(th, r)
		if r.fl&rfRO != 0 {
			th.runtimePanic("reflect.Value.Interface: cannot return value obtained from unexported field or method")
		}
		return r.iface(th)
	})
	val("Addr", func(th *Thread, r rval, a []Value) Value {
		if r.fl&rfAddr == 0 {
			th.runtimePanic("reflect.Value.Addr of unaddressable value")
		}
		return th.mkRval(th.boxed(types.NewPointer(r.t), r.cell, r.fl&rfRO))
	})
	val("IsNil", func(th *Thread, r rval, a []Value) Value { must(th, r); return bl(th, isNilVal(th.load(r.cell))) })
	val("IsZero", func(th *Thread, r rval, a []Value) Value { must(th, r); return th.isZero(r.t, th.load(r.cell)) })
	val("NumMethod", func(th *Thread, r rval, a []Value) Value {
		must(th, r)
		return th.p.c.Int(int64(th.w.exportedMethods(r.t)))
	})
	val("Elem", func(th *Thread, r rval, a []Value) Value {
		must(th, r)
		v := th.load(r.cell)
		if i, ok := v.(Iface); ok && kindOf(r.t) == reflect.Interface {
			x := th.rvalIface(i)
			x.fl |= r.fl & rfRO
			return th.mkRval(x)
		}
		p, ok := v.(*Value)
		if !ok {
			panic(th.p.unsupported(fmt.Sprintf("reflect.Value.Elem of %T", v)))
		}
		if p == nil {
			return th.mkRval(rval{})
		}
		return th.mkRval(rval{elemType(r.t), p, rfAddr | r.fl&rfRO})
	})
	val("NumField", func(th *Thread, r rval, a []Value) Value {
		return th.p.c.Int(int64(under(r.t).(*types.Struct).NumFields()))
	})
	val("Field", func(th *Thread, r rval, a []Value) Value {
		st := under(r.t).(*types.Struct)
		i := th.concInt(a[0])
		s := (*r.cell).(Struct)
		fl := r.fl
		if !st.Field(i).Exported() {
			fl |= rfRO
		}
		return th.mkRval(rval{st.Field(i).Type(), &s[i], fl})
	})
	val("FieldByName", func(th *Thread, r rval, a []Value) Value {
		st := under(r.t).(*types.Struct)
		n := th.str(a[0])
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				fl := r.fl
				if !st.Field(i).Exported() {
					fl |= rfRO
				}
				return th.mkRval(rval{st.Field(i).Type(), &(*r.cell).(Struct)[i], fl})
			}
		}
		return th.mkRval(rval{})
	})
	val("Len", func(th *Thread, r rval, a []Value) Value {
		n := 0
		switch v := th.load(r.cell).(type) {
		case Slice:
			n = len(v)
		case Array:
			n = len(v)
		case Str:
			n = v.Len()
		case *Map:
			if v != nil {
				th.access(&v.shadow, false)
				n = v.live
			}
		default:
			panic(th.p.unsupported(fmt.Sprintf("reflect.Value.Len of %T", v)))
		}
		return th.p.c.Int(int64(n))
	})
	val("Cap", func(th *Thread, r rval, a []Value) Value {
		switch v := th.load(r.cell).(type) {
		case Slice:
			return th.p.c.Int(int64(cap(v)))
		case Array:
			return th.p.c.Int(int64(len(v)))
		}
		panic(th.p.unsupported("reflect.Value.Cap"))
	})
	val("Index", func(th *Thread, r rval, a []Value) Value {
		i := th.concInt(a[0])
		switch v := (*r.cell).(type) {
		case Slice:
			th.access(r.cell, false)
			if i < 0 || i >= len(v) {
				th.runtimePanic("reflect: slice index out of range")
			}
			return th.mkRval(rval{elemType(r.t), &v[i], rfAddr | r.fl&rfRO})
		case Array:
			if i < 0 || i >= len(v) {
				th.runtimePanic("reflect: array index out of range")
			}
			return th.mkRval(rval{elemType(r.t), &v[i], r.fl})
		case Str:
			if i < 0 || i >= v.Len() {
				th.runtimePanic("reflect: string index out of range")
			}
			return th.mkRval(th.boxed(types.Typ[types.Uint8], th.p.byteAt(v, i), r.fl&rfRO))
		}
		panic(th.p.unsupported("reflect.Value.Index"))
	})
	val("Grow", func(th *Thread, r rval, a []Value) Value {
		mustSet(th, r)
		s := th.load(r.cell).(Slice)
		n := th.concInt(a[0])
		if len(s)+n > cap(s) {
			y := make(Slice, n)
			for i := range y {
				y[i] = th.w.zero(elemType(r.t))
			}
			th.store(r.cell, th.appendSlice(s, y, elemType(r.t), false)[:len(s)])
		}
		return nil
	})
	val("SetLen", func(th *Thread, r rval, a []Value) Value {
		mustSet(th, r)
		s := th.load(r.cell).(Slice)
		n := th.concInt(a[0])
		if n < 0 || n > cap(s) {
			th.runtimePanic("reflect: slice length out of range in SetLen")
		}
		th.store(r.cell, s[:n])
		return nil
	})
	val("Slice", func(th *Thread, r rval, a []Value) Value {
		i, j := th.concInt(a[0]), th.concInt(a[1])
		switch v := th.load(r.cell).(type) {
		case Slice:
			if i < 0 || j < i || j > cap(v) {
				th.runtimePanic("reflect.Value.Slice: slice index out of bounds")
			}
			return th.mkRval(th.boxed(r.t, v[i:j], r.fl&rfRO))
		case Str:
			if i < 0 || j < i || j > v.Len() {
				th.runtimePanic("reflect.Value.Slice: string slice index out of bounds")
			}
			return th.mkRval(th.boxed(r.t, th.p.strSub(v, i, j), r.fl&rfRO))
		}
		panic(th.p.unsupported("reflect.Value.Slice"))
	})
	val("Set", func(th *Thread, r rval, a []Value) Value {
		mustSet(th, r)
		th.store(r.cell, th.assign(r.t, th.rvalOf(a[0])))
		return nil
	})
	val("SetZero", func(th *Thread, r rval, a []Value) Value {
		mustSet(th, r)
		th.store(r.cell, th.w.zero(r.t))
		return nil
	})
	direct := func(th *Thread, r rval, a []Value) Value {
		mustSet(th, r)
		th.store(r.cell, a[0])
		return nil
	}
	for _, n := range []string{"SetString", "SetBool", "SetBytes", "SetFloat"} {
		val(n, direct)
	}
	num := func(th *Thread, r rval, a []Value) Value {
		mustSet(th, r)
		w, _, _ := intInfo(under(r.t))
		th.store(r.cell, th.p.c.Extract(a[0].(*Term), 0, w))
		return nil
	}
	val("SetInt", num)
	val("SetUint", num)
	over := func(th *Thread, r rval, a []Value) Value {
		w, sg, _ := intInfo(under(r.t))
		t := a[0].(*Term)
		if w == 64 {
			return th.p.c.False
		}
		lo := th.p.c.Extract(t, 0, w)
		if sg {
			return th.p.c.Not(th.p.c.Eq(th.p.c.Sext(lo, 64), t))
		}
		return th.p.c.Not(th.p.c.Eq(th.p.c.Zext(lo, 64), t))
	}
	val("OverflowInt", over)
	val("OverflowUint", over)
	val("OverflowFloat", func(th *Thread, r rval, a []Value) Value {
		return bl(th, kindOf(r.t) == reflect.Float32 && reflect.ValueOf(float32(0)).OverflowFloat(a[0].(float64)))
	})
	get := func(th *Thread, r rval, a []Value) Value { must(th, r); return th.load(r.cell) }
	for _, n := range []string{"Bool", "Float", "Bytes", "Complex"} {
		val(n, get)
	}
	val("String", func(th *Thread, r rval, a []Value) Value {
		if r.t == nil {
			return Str{s: "<invalid Value>"}
		}
		if s, ok := th.load(r.cell).(Str); ok {
			return s
		}
		return Str{s: "<" + typeString(r.t) + " Value>"}
	})
	val("Int", func(th *Thread, r rval, a []Value) Value { return th.p.c.Sext(th.load(r.cell).(*Term), 64) })
	val("Uint", func(th *Thread, r rval, a []Value) Value { return th.p.c.Zext(th.load(r.cell).(*Term), 64) })
	val("UnsafePointer", func(th *Thread, r rval, a []Value) Value {
		p, _ := th.load(r.cell).(*Value)
		return UPtr{p}
	})
	val("Comparable", func(th *Thread, r rval, a []Value) Value { return bl(th, r.t == nil || types.Comparable(r.t)) })
	val("Equal", func(th *Thread, r rval, a []Value) Value {
		return th.equal(r.iface(th), th.rvalOf(a[0]).iface(th))
	})
	val("Convert", func(th *Thread, r rval, a []Value) Value {
		to := th.goType(a[0])
		if _, isI := under(to).(*types.Interface); isI {
			return th.mkRval(th.boxed(to, r.iface(th), 0))
		}
		return th.mkRval(th.boxed(to, th.convert(to, r.t, th.load(r.cell)), 0))
	})
	// maps
	val("MapRange", func(th *Thread, r rval, a []Value) Value {
		m, _ := th.load(r.cell).(*Map)
		cell := new(Value)
		*cell = &reflIter{m: r, it: th.newMapIter(m)}
		return cell
	})
	iter := func(name string, f func(th *Thread, it *reflIter) Value) {
		reg("(*reflect.MapIter)."+name, func(th *Thread, _ *ssa.Function, a []Value) Value { return f(th, (*a[0].(*Value)).(*reflIter)) })
	}
	iter("Next", func(th *Thread, it *reflIter) Value {
		ok, e := it.it.next(th)
		it.cur = e
		return bl(th, ok)
	})
	iter("Key", func(th *Thread, it *reflIter) Value {
		return th.mkRval(th.boxed(under(it.m.t).(*types.Map).Key(), it.cur.k, it.m.fl&rfRO))
	})
	iter("Value", func(th *Thread, it *reflIter) Value {
		return th.mkRval(th.boxed(under(it.m.t).(*types.Map).Elem(), it.cur.v, it.m.fl&rfRO))
	})
	val("MapKeys", func(th *Thread, r rval, a []Value) Value {
		m, _ := th.load(r.cell).(*Map)
		res := Slice{}
		it := th.newMapIter(m)
		for {
			ok, e := it.next(th)
			if !ok {
				return res
			}
			res = append(res, th.mkRval(th.boxed(under(r.t).(*types.Map).Key(), e.k, 0)))
		}
	})
	val("MapIndex", func(th *Thread, r rval, a []Value) Value {
		m, _ := th.load(r.cell).(*Map)
		mt := under(r.t).(*types.Map)
		if m == nil {
			return th.mkRval(rval{})
		}
		th.access(&m.shadow, false)
		e := th.find(m, th.assign(mt.Key(), th.rvalOf(a[0])))
		if e == nil {
			return th.mkRval(rval{})
		}
		return th.mkRval(th.boxed(mt.Elem(), e.v, 0))
	})
	val("SetMapIndex", func(th *Thread, r rval, a []Value) Value {
		must(th, r)
		m, _ := th.load(r.cell).(*Map)
		mt := under(r.t).(*types.Map)
		k, e := th.assign(mt.Key(), th.rvalOf(a[0])), th.rvalOf(a[1])
		if e.t == nil {
			th.mapDelete(m, k)
			return nil
		}
		th.mapUpdate(m, k, th.assign(mt.Elem(), e))
		return nil
	})
}
