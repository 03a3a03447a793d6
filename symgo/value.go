package main

// Run-time values of the interpreted program. Scalars are terms; heap shape,
// lengths, pointers and dynamic types are concrete on every path.

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value = any

// *Term                booleans and integers
// float64              float32/float64 (concrete only)
// complex128           concrete only
// Str                  strings
// *Value               pointers (address of a cell)
// Struct, Array        aggregates
// Slice                slices
// *Map                 maps
// Iface                interfaces
// *ssa.Function, *Closure, *Native, *ssa.Builtin   functions
// *Chan                channels
// Tuple                multiple results
// UPtr                 unsafe.Pointer
// SPtr                 pointer obtained from unsafe.SliceData / StringData

type Str struct {
	s string
	b []*Term // nil when concrete
}

type Struct []Value
type Array []Value
type Tuple []Value

type Slice []Value

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn  *ssa.Function
	env []Value
}

type Native struct {
	name string
	fn   func(th *Thread, args []Value) Value
}

type UPtr struct{ v Value }
type SPtr struct {
	s   Slice
	str *Str
}

func (s Str) Len() int {
	if s.b != nil {
		return len(s.b)
	}
	return len(s.s)
}

func (p *Path) byteAt(s Str, i int) *Term {
	if s.b != nil {
		return s.b[i]
	}
	return p.c.Const(8, uint64(s.s[i]))
}

func (p *Path) strBytes(s Str) []*Term {
	if s.b != nil {
		return s.b
	}
	r := make([]*Term, len(s.s))
	for i := range r {
		r[i] = p.c.Const(8, uint64(s.s[i]))
	}
	return r
}

func mkStr(b []*Term) Str {
	conc := true
	for _, t := range b {
		if !t.IsConst() {
			conc = false
			break
		}
	}
	if conc {
		x := make([]byte, len(b))
		for i, t := range b {
			x[i] = byte(t.val)
		}
		return Str{s: string(x)}
	}
	return Str{b: b}
}

func (p *Path) strSub(s Str, lo, hi int) Str {
	if s.b == nil {
		return Str{s: s.s[lo:hi]}
	}
	return mkStr(s.b[lo:hi])
}

func (p *Path) strCat(a, b Str) Str {
	if a.b == nil && b.b == nil {
		return Str{s: a.s + b.s}
	}
	if a.Len() == 0 {
		return b
	}
	if b.Len() == 0 {
		return a
	}
	x := make([]*Term, 0, a.Len()+b.Len())
	x = append(x, p.strBytes(a)...)
	x = append(x, p.strBytes(b)...)
	return Str{b: x}
}

func (p *Path) strEq(a, b Str) *Term {
	if a.Len() != b.Len() {
		return p.c.False
	}
	if a.b == nil && b.b == nil {
		return p.c.Bool(a.s == b.s)
	}
	r := p.c.True
	for i := 0; i < a.Len(); i++ {
		r = p.c.And(r, p.c.Eq(p.byteAt(a, i), p.byteAt(b, i)))
		if r.IsFalse() {
			return r
		}
	}
	return r
}

func (p *Path) strLess(a, b Str) *Term {
	if a.b == nil && b.b == nil {
		return p.c.Bool(a.s < b.s)
	}
	n := min(a.Len(), b.Len())
	r := p.c.Bool(a.Len() < b.Len())
	for i := n - 1; i >= 0; i-- {
		x, y := p.byteAt(a, i), p.byteAt(b, i)
		r = p.c.Or(p.c.Ult(x, y), p.c.And(p.c.Eq(x, y), r))
	}
	return r
}

func under(t types.Type) types.Type { return t.Underlying() }

// width and signedness of a basic integer type; w==0 for bool.
func intInfo(t types.Type) (w uint8, signed bool, ok bool) {
	b, isb := under(t).(*types.Basic)
	if !isb {
		if tp, is := t.(*types.TypeParam); is {
			_ = tp
		}
		return 0, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

func (w *Worker) zero(t types.Type) Value {
	switch t := t.(type) {
	case *types.Named, *types.Alias:
		return w.zero(t.Underlying())
	case *types.Basic:
		if wd, _, ok := intInfo(t); ok {
			if wd == 0 {
				return w.c.False
			}
			return w.c.Const(wd, 0)
		}
		switch t.Kind() {
		case types.String, types.UntypedString:
			return Str{}
		case types.Float32, types.Float64, types.UntypedFloat:
			return float64(0)
		case types.Complex64, types.Complex128, types.UntypedComplex:
			return complex128(0)
		case types.UnsafePointer:
			return UPtr{(*Value)(nil)}
		case types.UntypedNil:
			return nil
		}
		panic(fmt.Sprintf("zero of %s", t))
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Slice:
		return Slice(nil)
	case *types.Map:
		return (*Map)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*ssa.Function)(nil)
	case *types.Struct:
		s := make(Struct, t.NumFields())
		for i := range s {
			s[i] = w.zero(t.Field(i).Type())
		}
		return s
	case *types.Array:
		s := make(Array, t.Len())
		if len(s) > 0 {
			z := w.zero(t.Elem())
			s[0] = z
			for i := 1; i < len(s); i++ {
				s[i] = copyVal(z)
			}
		}
		return s
	case *types.Tuple:
		if t.Len() == 1 {
			return w.zero(t.At(0).Type())
		}
		s := make(Tuple, t.Len())
		for i := range s {
			s[i] = w.zero(t.At(i).Type())
		}
		return s
	case *types.TypeParam:
		panic("zero of type parameter")
	}
	panic(fmt.Sprintf("zero of %T", t))
}

func copyVal(v Value) Value {
	switch v := v.(type) {
	case Struct:
		n := make(Struct, len(v))
		for i := range v {
			n[i] = copyVal(v[i])
		}
		return n
	case Array:
		n := make(Array, len(v))
		for i := range v {
			n[i] = copyVal(v[i])
		}
		return n
	}
	return v
}

// storeVal writes v into the cell in place, so that pointers to parts of an
// aggregate stay valid.
func storeVal(addr *Value, v Value) {
	switch v := v.(type) {
	case Struct:
		if d, ok := (*addr).(Struct); ok && len(d) == len(v) {
			for i := range v {
				storeVal(&d[i], v[i])
			}
			return
		}
		*addr = copyVal(v)
	case Array:
		if d, ok := (*addr).(Array); ok && len(d) == len(v) {
			for i := range v {
				storeVal(&d[i], v[i])
			}
			return
		}
		*addr = copyVal(v)
	default:
		*addr = v
	}
}

// equal returns the term for v == o, both of static type t (interfaces are
// compared by dynamic type first). It panics in the target for uncomparable
// dynamic types.
func (th *Thread) equal(x, y Value) *Term {
	p := th.p
	switch x := x.(type) {
	case *Term:
		return p.c.Eq(x, y.(*Term))
	case Str:
		return p.strEq(x, y.(Str))
	case float64:
		return p.c.Bool(x == y.(float64))
	case complex128:
		return p.c.Bool(x == y.(complex128))
	case Struct:
		r := p.c.True
		ys := y.(Struct)
		for i := range x {
			r = p.c.And(r, th.equal(x[i], ys[i]))
			if r.IsFalse() {
				return r
			}
		}
		return r
	case Array:
		r := p.c.True
		ys := y.(Array)
		for i := range x {
			r = p.c.And(r, th.equal(x[i], ys[i]))
			if r.IsFalse() {
				return r
			}
		}
		return r
	case Iface:
		yi := y.(Iface)
		if x.t == nil || yi.t == nil {
			return p.c.Bool(x.t == nil && yi.t == nil)
		}
		if !th.w.identical(x.t, yi.t) {
			return p.c.False
		}
		if !types.Comparable(x.t) {
			th.runtimePanic("comparing uncomparable type " + x.t.String())
		}
		return th.equal(x.v, yi.v)
	case *Value:
		switch y := y.(type) {
		case *Value:
			return p.c.Bool(x == y)
		case SPtr:
			return p.c.Bool(len(y.s) > 0 && x == &y.s[0])
		}
		return p.c.False
	case SPtr:
		if len(x.s) > 0 {
			if y, ok := y.(*Value); ok {
				return p.c.Bool(y == &x.s[0])
			}
			if y, ok := y.(SPtr); ok {
				return p.c.Bool(len(y.s) > 0 && &x.s[0] == &y.s[0])
			}
		}
		return p.c.False
	case UPtr:
		return th.equal(x.v, y.(UPtr).v)
	case *Map:
		ym, _ := y.(*Map)
		return p.c.Bool(x == ym)
	case *Chan:
		ym, _ := y.(*Chan)
		return p.c.Bool(x == ym)
	case Slice:
		// only comparison with nil is legal
		ys, _ := y.(Slice)
		return p.c.Bool(x == nil && ys == nil)
	case nil:
		return p.c.Bool(isNilVal(y))
	case *ssa.Function, *Closure, *Native:
		return p.c.Bool(isNilVal(x) && isNilVal(y))
	}
	panic(p.unsupported(fmt.Sprintf("equality of %T", x)))
}

func isNilVal(v Value) bool {
	switch v := v.(type) {
	case nil:
		return true
	case *Value:
		return v == nil
	case *ssa.Function:
		return v == nil
	case *Closure:
		return v == nil
	case *Native:
		return v == nil
	case Slice:
		return v == nil
	case *Map:
		return v == nil
	case *Chan:
		return v == nil
	case Iface:
		return v.t == nil
	case UPtr:
		return isNilVal(v.v)
	}
	return false
}

// mergeable reports whether two values can be combined with an if-then-else.
func mergeable(a, b Value) bool {
	switch a := a.(type) {
	case *Term:
		return true
	case Str:
		bs, ok := b.(Str)
		return ok && bs.Len() == a.Len()
	case Struct:
		bs, ok := b.(Struct)
		if !ok || len(bs) != len(a) {
			return false
		}
		for i := range a {
			if !mergeable(a[i], bs[i]) {
				return false
			}
		}
		return true
	case Array:
		bs, ok := b.(Array)
		if !ok || len(bs) != len(a) {
			return false
		}
		for i := range a {
			if !mergeable(a[i], bs[i]) {
				return false
			}
		}
		return true
	case float64:
		bf, ok := b.(float64)
		return ok && bf == a
	case *Value:
		bp, ok := b.(*Value)
		return ok && bp == a
	}
	return false
}

func (p *Path) merge(cond *Term, a, b Value) Value {
	switch a := a.(type) {
	case *Term:
		return p.c.Ite(cond, a, b.(*Term))
	case Str:
		bs := b.(Str)
		x := make([]*Term, a.Len())
		for i := range x {
			x[i] = p.c.Ite(cond, p.byteAt(a, i), p.byteAt(bs, i))
		}
		return mkStr(x)
	case Struct:
		bs := b.(Struct)
		n := make(Struct, len(a))
		for i := range a {
			n[i] = p.merge(cond, a[i], bs[i])
		}
		return n
	case Array:
		bs := b.(Array)
		n := make(Array, len(a))
		for i := range a {
			n[i] = p.merge(cond, a[i], bs[i])
		}
		return n
	}
	return a
}

// concKey renders a concrete map key canonically; ok is false if any part is
// symbolic.
func concKey(v Value, sb *strings.Builder) bool {
	switch v := v.(type) {
	case *Term:
		if !v.IsConst() {
			return false
		}
		sb.WriteString(strconv.FormatUint(v.val, 36))
		sb.WriteByte(',')
		return true
	case Str:
		if v.b != nil {
			return false
		}
		sb.WriteString(strconv.Itoa(len(v.s)))
		sb.WriteByte(':')
		sb.WriteString(v.s)
		return true
	case Struct:
		sb.WriteByte('{')
		for _, x := range v {
			if !concKey(x, sb) {
				return false
			}
		}
		return true
	case Array:
		sb.WriteByte('[')
		for _, x := range v {
			if !concKey(x, sb) {
				return false
			}
		}
		return true
	case Iface:
		if v.t == nil {
			sb.WriteString("nil")
			return true
		}
		sb.WriteString(v.t.String())
		sb.WriteByte('/')
		return concKey(v.v, sb)
	case *Value:
		fmt.Fprintf(sb, "%p", v)
		return true
	case *Chan:
		fmt.Fprintf(sb, "%p", v)
		return true
	case float64:
		if v != v {
			return false
		}
		fmt.Fprintf(sb, "f%v", v)
		return true
	}
	return false
}

type mapEntry struct {
	k, v Value
	ck   string
	conc bool
	dead bool
}

type Map struct {
	entries []*mapEntry // insertion order, dead ones skipped
	conc    map[string]*mapEntry
	nsym    int
	live    int
	shadow  Value // cell used for race detection
	keyT    types.Type
	valT    types.Type
}

func newMap(k, v types.Type) *Map {
	return &Map{conc: map[string]*mapEntry{}, keyT: k, valT: v}
}

func (th *Thread) keyOf(k Value) (string, bool) {
	var sb strings.Builder
	ok := concKey(k, &sb)
	return sb.String(), ok
}

// candidates returns the entries that may equal k, with their conditions.
func (th *Thread) candidates(m *Map, k Value) (es []*mapEntry, cs []*Term) {
	th.checkHashable(k)
	ck, conc := th.keyOf(k)
	if conc {
		if e := m.conc[ck]; e != nil && !e.dead {
			return []*mapEntry{e}, []*Term{th.p.c.True}
		}
		if m.nsym == 0 {
			return nil, nil
		}
	}
	for _, e := range m.entries {
		if e.dead || (conc && e.conc) {
			continue
		}
		c := th.equal(e.k, k)
		if c.IsFalse() {
			continue
		}
		if c.IsTrue() {
			return []*mapEntry{e}, []*Term{c}
		}
		if v, ok := th.p.known[c]; ok {
			if !v {
				continue
			}
			return []*mapEntry{e}, []*Term{th.p.c.True}
		}
		es, cs = append(es, e), append(cs, c)
	}
	return
}

func (th *Thread) checkHashable(k Value) {
	if i, ok := k.(Iface); ok && i.t != nil && !types.Comparable(i.t) {
		th.runtimePanic("hash of unhashable type " + i.t.String())
	}
}

// find forks until it is decided which entry, if any, equals k.
func (th *Thread) find(m *Map, k Value) *mapEntry {
	es, cs := th.candidates(m, k)
	for i, e := range es {
		if th.p.branch(cs[i]) {
			return e
		}
	}
	return nil
}

func (th *Thread) mapLookup(m *Map, k Value, vt types.Type) (Value, *Term) {
	if m == nil {
		th.checkHashable(k)
		return th.w.zero(vt), th.p.c.False
	}
	th.access(&m.shadow, false)
	es, cs := th.candidates(m, k)
	z := th.w.zero(vt)
	if len(es) == 0 {
		return z, th.p.c.False
	}
	if len(es) == 1 && cs[0].IsTrue() {
		return copyVal(es[0].v), cs[0]
	}
	all := true
	for _, e := range es {
		if !mergeable(e.v, z) {
			all = false
			break
		}
	}
	if all {
		r, ok := z, th.p.c.False
		for i := len(es) - 1; i >= 0; i-- {
			r = th.p.merge(cs[i], es[i].v, r)
			ok = th.p.c.Or(cs[i], ok)
		}
		return r, ok
	}
	for i, e := range es {
		if th.p.branch(cs[i]) {
			return copyVal(e.v), th.p.c.True
		}
	}
	return z, th.p.c.False
}

func (th *Thread) mapUpdate(m *Map, k, v Value) {
	if m == nil {
		th.runtimePanic("assignment to entry in nil map")
	}
	th.access(&m.shadow, true)
	if e := th.find(m, k); e != nil {
		e.v = copyVal(v)
		return
	}
	ck, conc := th.keyOf(k)
	e := &mapEntry{k: copyVal(k), v: copyVal(v), ck: ck, conc: conc}
	m.entries = append(m.entries, e)
	m.live++
	if conc {
		m.conc[ck] = e
	} else {
		m.nsym++
	}
}

func (th *Thread) mapDelete(m *Map, k Value) {
	if m == nil {
		return
	}
	th.access(&m.shadow, true)
	if e := th.find(m, k); e != nil {
		m.remove(e)
	}
}

func (m *Map) remove(e *mapEntry) {
	e.dead = true
	m.live--
	if e.conc {
		delete(m.conc, e.ck)
	} else {
		m.nsym--
	}
	for i, x := range m.entries {
		if x == e {
			m.entries = append(m.entries[:i:i], m.entries[i+1:]...)
			break
		}
	}
}

func (m *Map) clear() {
	for _, e := range m.entries {
		e.dead = true
	}
	m.entries, m.conc, m.nsym, m.live = nil, map[string]*mapEntry{}, 0, 0
}

type mapIter struct {
	m    *Map
	seen map[*mapEntry]bool
	rev  bool
	perm bool
}

func (th *Thread) newMapIter(m *Map) *mapIter {
	it := &mapIter{m: m, seen: map[*mapEntry]bool{}}
	if m == nil {
		return it
	}
	th.access(&m.shadow, false)
	p := th.p
	if p.mapOrder && m.live > 1 {
		if m.live <= p.mapPerm {
			it.perm = true
		} else {
			p.mapOrderReduced = true
			it.rev = p.choose("maporder", 2) == 1
		}
		p.nondet = true
	}
	return it
}

func (it *mapIter) next(th *Thread) (bool, *mapEntry) {
	if it.m == nil {
		return false, nil
	}
	th.access(&it.m.shadow, false)
	var cand []*mapEntry
	for _, e := range it.m.entries {
		if !it.seen[e] {
			cand = append(cand, e)
		}
	}
	if len(cand) == 0 {
		return false, nil
	}
	i := 0
	if it.perm && len(cand) > 1 {
		i = th.p.choose("maporder", len(cand))
	} else if it.rev {
		i = len(cand) - 1
	}
	e := cand[i]
	it.seen[e] = true
	return true, e
}
