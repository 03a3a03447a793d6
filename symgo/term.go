package main

// Hash-consed SMT terms over booleans (w == 0) and bit-vectors (w in 1..64),
// with local simplification and an unsigned range per bit-vector term.

import (
	"fmt"
	"math/bits"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OIte
	OAdd
	OSub
	OMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OBand
	OBor
	OBxor
	OBnot
	OShl
	OLshr
	OAshr
	OZext
	OSext
	OExtract // val = lo
	ORng     // a within its declared range (kept as an explicit literal)
)

var opNames = [...]string{"const", "var", "not", "and", "or", "=", "bvult", "bvule", "bvslt", "bvsle", "ite",
	"bvadd", "bvsub", "bvmul", "bvudiv", "bvurem", "bvsdiv", "bvsrem", "bvand", "bvor", "bvxor", "bvnot",
	"bvshl", "bvlshr", "bvashr", "zext", "sext", "extract", "inrange"}

type Term struct {
	op      Op
	w       uint8
	val     uint64
	lo, hi  uint64 // unsigned range (bit-vectors)
	a, b, c *Term
	name    string
	id      int32
	defined bool // already sent to the solver as a definition
	hasVar  bool
}

type tkey struct {
	op      Op
	w       uint8
	val     uint64
	a, b, c int32
}

type Ctx struct {
	tab    map[tkey]*Term
	vars   map[string]*Term
	next   int32
	small  [65][]*Term
	True   *Term
	False  *Term
	evalS  []uint64
	evalE  []uint32
	epoch  uint32
	ranges map[string]*Term
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[tkey]*Term{}, vars: map[string]*Term{}}
	c.True = &Term{op: OConst, w: 0, val: 1, id: c.newID()}
	c.False = &Term{op: OConst, w: 0, val: 0, id: c.newID()}
	return c
}

func (c *Ctx) newID() int32 { c.next++; return c.next }

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

const smallN = 1200

func (c *Ctx) Const(w uint8, v uint64) *Term {
	v &= mask(w)
	if v < smallN {
		s := c.small[w]
		if s == nil {
			s = make([]*Term, smallN)
			c.small[w] = s
		}
		if t := s[v]; t != nil {
			return t
		}
		t := &Term{op: OConst, w: w, val: v, lo: v, hi: v, id: c.newID()}
		s[v] = t
		return t
	}
	k := tkey{op: OConst, w: w, val: v}
	if t := c.tab[k]; t != nil {
		return t
	}
	t := &Term{op: OConst, w: w, val: v, lo: v, hi: v, id: c.newID()}
	c.tab[k] = t
	return t
}

func (c *Ctx) Int(v int64) *Term { return c.Const(64, uint64(v)) }

// Var returns the variable of that name. lo..hi is asserted by the caller as
// part of the path condition (declared with the variable).
func (c *Ctx) Var(name string, w uint8, lo, hi uint64) *Term {
	full := fmt.Sprintf("%s.%d.%x.%x", name, w, lo, hi)
	if t := c.vars[full]; t != nil {
		return t
	}
	t := &Term{op: OVar, w: w, name: full, lo: lo, hi: hi, id: c.newID(), hasVar: true}
	c.vars[full] = t
	return t
}

// Range returns the literal that confines a variable to its declared range, or
// nil when the range is the whole type.
func (c *Ctx) Range(v *Term) *Term {
	if v.lo == 0 && v.hi == mask(v.w) {
		return nil
	}
	return c.mk(ORng, 0, 0, v, nil, nil)
}

func (t *Term) IsConst() bool { return t.op == OConst }
func (t *Term) IsTrue() bool  { return t.op == OConst && t.w == 0 && t.val == 1 }
func (t *Term) IsFalse() bool { return t.op == OConst && t.w == 0 && t.val == 0 }

func sext64(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

func id(t *Term) int32 {
	if t == nil {
		return 0
	}
	return t.id
}

func (c *Ctx) mk(op Op, w uint8, val uint64, a, b, d *Term) *Term {
	k := tkey{op, w, val, id(a), id(b), id(d)}
	if t := c.tab[k]; t != nil {
		return t
	}
	t := &Term{op: op, w: w, val: val, a: a, b: b, c: d, id: c.newID(), hasVar: true}
	t.lo, t.hi = 0, mask(w)
	if w > 0 {
		c.setRange(t)
	}
	c.tab[k] = t
	return t
}

func (c *Ctx) setRange(t *Term) {
	a, b := t.a, t.b
	m := mask(t.w)
	switch t.op {
	case OZext:
		t.lo, t.hi = a.lo, a.hi
	case OSext:
		if a.hi <= mask(a.w)>>1 {
			t.lo, t.hi = a.lo, a.hi
		}
	case OIte:
		t.lo, t.hi = min(b.lo, t.c.lo), max(b.hi, t.c.hi)
	case OAdd:
		s, carry := bits.Add64(a.hi, b.hi, 0)
		if carry == 0 && s <= m {
			t.lo, t.hi = a.lo+b.lo, s
		}
	case OSub:
		if a.lo >= b.hi {
			t.lo, t.hi = a.lo-b.hi, a.hi-b.lo
		}
	case OMul:
		h, l := bits.Mul64(a.hi, b.hi)
		if h == 0 && l <= m {
			t.lo, t.hi = a.lo*b.lo, l
		}
	case OBand:
		t.hi = min(a.hi, b.hi)
	case OBor:
		n := bits.Len64(a.hi | b.hi)
		t.hi = mask(uint8(n))
		if n == 0 {
			t.hi = 0
		}
		t.lo = max(a.lo, b.lo)
	case OBxor:
		n := bits.Len64(a.hi | b.hi)
		t.hi = mask(uint8(n))
		if n == 0 {
			t.hi = 0
		}
	case OUdiv:
		if b.lo > 0 {
			t.lo, t.hi = a.lo/b.hi, a.hi/b.lo
		}
	case OUrem:
		if b.lo > 0 {
			t.hi = min(a.hi, b.hi-1)
		}
	case OLshr:
		if b.IsConst() && b.val < 64 {
			t.lo, t.hi = a.lo>>b.val, a.hi>>b.val
		}
	case OShl:
		if b.IsConst() && b.val < uint64(t.w) && bits.Len64(a.hi)+int(b.val) <= int(t.w) {
			t.lo, t.hi = a.lo<<b.val, a.hi<<b.val
		}
	case OExtract:
		if t.val == 0 && a.hi <= m {
			t.lo, t.hi = a.lo, a.hi
		}
	}
}

func (c *Ctx) Not(a *Term) *Term {
	if a.IsConst() {
		return c.Bool(a.val == 0)
	}
	if a.op == ONot {
		return a.a
	}
	return c.mk(ONot, 0, 0, a, nil, nil)
}

func (c *Ctx) And(a, b *Term) *Term {
	if a.IsFalse() || b.IsFalse() {
		return c.False
	}
	if a.IsTrue() {
		return b
	}
	if b.IsTrue() || a == b {
		return a
	}
	if c.Not(a) == b {
		return c.False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OAnd, 0, 0, a, b, nil)
}

func (c *Ctx) Or(a, b *Term) *Term {
	if a.IsTrue() || b.IsTrue() {
		return c.True
	}
	if a.IsFalse() {
		return b
	}
	if b.IsFalse() || a == b {
		return a
	}
	if c.Not(a) == b {
		return c.True
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OOr, 0, 0, a, b, nil)
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d", a.w, b.w))
	}
	if a.IsConst() && b.IsConst() {
		return c.Bool(a.val == b.val)
	}
	if a.w == 0 {
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsTrue() {
			return a
		}
		if b.IsFalse() {
			return c.Not(a)
		}
		if c.Not(a) == b {
			return c.False
		}
	} else {
		if a.hi < b.lo || b.hi < a.lo {
			return c.False
		}
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() {
			switch a.op {
			case OZext:
				if b.val > mask(a.a.w) {
					return c.False
				}
				return c.Eq(a.a, c.Const(a.a.w, b.val))
			case OSext:
				in := c.Const(a.a.w, b.val)
				if uint64(sext64(in.val, in.w))&mask(a.w) != b.val {
					return c.False
				}
				return c.Eq(a.a, in)
			case OIte:
				if a.b.IsConst() && a.c.IsConst() {
					e1, e2 := a.b.val == b.val, a.c.val == b.val
					switch {
					case e1 && e2:
						return c.True
					case e1:
						return a.a
					case e2:
						return c.Not(a.a)
					default:
						return c.False
					}
				}
				if a.b.IsConst() || a.c.IsConst() {
					return c.Or(c.And(a.a, c.Eq(a.b, b)), c.And(c.Not(a.a), c.Eq(a.c, b)))
				}
			case OAdd:
				if a.b.IsConst() {
					return c.Eq(a.a, c.Const(a.w, b.val-a.b.val))
				}
			case OSub:
				if a.b.IsConst() {
					return c.Eq(a.a, c.Const(a.w, b.val+a.b.val))
				}
			}
		} else if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
			return c.Eq(a.a, b.a)
		} else if a.op == b.op && a.b != nil && a.b == b.b && a.b.IsConst() {
			// steps that keep different values different, as those of FNV
			switch a.op {
			case OAdd, OSub, OBxor:
				return c.Eq(a.a, b.a)
			case OMul:
				if a.b.val&1 == 1 {
					return c.Eq(a.a, b.a)
				}
			}
		}
	}
	if a.id > b.id && !b.IsConst() {
		a, b = b, a
	}
	return c.mk(OEq, 0, 0, a, b, nil)
}

func (c *Ctx) Ult(a, b *Term) *Term {
	if a == b {
		return c.False
	}
	if a.hi < b.lo {
		return c.True
	}
	if a.lo >= b.hi {
		return c.False
	}
	if a.op == OZext && b.IsConst() {
		return c.Ult(a.a, c.Const(a.a.w, b.val)) // b.val <= a.hi here
	}
	if b.op == OZext && a.IsConst() {
		return c.Ult(c.Const(b.a.w, a.val), b.a)
	}
	if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return c.Ult(a.a, b.a)
	}
	return c.mk(OUlt, 0, 0, a, b, nil)
}

func (c *Ctx) Ule(a, b *Term) *Term { return c.Not(c.Ult(b, a)) }

func (c *Ctx) Slt(a, b *Term) *Term {
	if a == b {
		return c.False
	}
	if a.IsConst() && b.IsConst() {
		return c.Bool(sext64(a.val, a.w) < sext64(b.val, b.w))
	}
	if b.IsConst() && a.op == OIte && a.b.IsConst() {
		return c.Or(c.And(a.a, c.Slt(a.b, b)), c.And(c.Not(a.a), c.Slt(a.c, b)))
	}
	if a.IsConst() && b.op == OIte && b.b.IsConst() {
		return c.Or(c.And(b.a, c.Slt(a, b.b)), c.And(c.Not(b.a), c.Slt(a, b.c)))
	}
	h := mask(a.w) >> 1
	if a.hi <= h && b.hi <= h { // both non-negative
		return c.Ult(a, b)
	}
	if a.lo > h && b.lo > h {
		return c.Ult(a, b)
	}
	if a.lo > h && b.hi <= h {
		return c.True
	}
	if a.hi <= h && b.lo > h {
		return c.False
	}
	return c.mk(OSlt, 0, 0, a, b, nil)
}

func (c *Ctx) Sle(a, b *Term) *Term { return c.Not(c.Slt(b, a)) }

func (c *Ctx) Ite(cond, a, b *Term) *Term {
	if cond.IsTrue() {
		return a
	}
	if cond.IsFalse() || a == b {
		return b
	}
	if a.w == 0 {
		return c.Or(c.And(cond, a), c.And(c.Not(cond), b))
	}
	if cond.op == ONot {
		return c.Ite(cond.a, b, a)
	}
	if b.op == OIte && b.a == cond {
		b = b.c
	}
	if a.op == OIte && a.a == cond {
		a = a.b
	}
	if a == b {
		return a
	}
	return c.mk(OIte, a.w, 0, cond, a, b)
}

func (c *Ctx) Bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.w != b.w {
		panic(fmt.Sprintf("Bin %s width mismatch %d %d", opNames[op], a.w, b.w))
	}
	if a.IsConst() && b.IsConst() {
		return c.Const(w, evalBin(op, w, a.val, b.val))
	}
	switch op {
	case OAdd:
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() {
			if b.val == 0 {
				return a
			}
			if a.op == OAdd && a.b.IsConst() {
				return c.Bin(OAdd, a.a, c.Const(w, a.b.val+b.val))
			}
		}
	case OSub:
		if b.IsConst() {
			return c.Bin(OAdd, a, c.Const(w, -b.val))
		}
		if a == b {
			return c.Const(w, 0)
		}
	case OMul:
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() {
			if b.val == 0 {
				return b
			}
			if b.val == 1 {
				return a
			}
		}
	case OBand:
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() {
			if b.val == 0 {
				return b
			}
			if b.val == mask(w) {
				return a
			}
			n := bits.Len64(a.hi)
			if b.val&mask(uint8(n)) == mask(uint8(n)) && n > 0 {
				return a
			}
		}
		if a == b {
			return a
		}
	case OBor:
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() && b.val == 0 {
			return a
		}
		if a == b {
			return a
		}
	case OBxor:
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() && b.val == 0 {
			return a
		}
		if a == b {
			return c.Const(w, 0)
		}
	case OShl, OLshr, OAshr:
		if b.IsConst() && b.val == 0 {
			return a
		}
		if b.IsConst() && b.val >= uint64(w) && op != OAshr {
			return c.Const(w, 0)
		}
	case OUdiv, OSdiv:
		if b.IsConst() && b.val == 1 {
			return a
		}
		if op == OSdiv && a.hi <= mask(w)>>1 && b.hi <= mask(w)>>1 {
			return c.Bin(OUdiv, a, b)
		}
		if op == OUdiv && b.IsConst() && b.val != 0 && b.val&(b.val-1) == 0 {
			return c.Bin(OLshr, a, c.Const(w, uint64(bits.TrailingZeros64(b.val))))
		}
	case OSrem:
		if a.hi <= mask(w)>>1 && b.hi <= mask(w)>>1 {
			return c.Bin(OUrem, a, b)
		}
	case OUrem:
		if b.IsConst() && b.val != 0 && b.val&(b.val-1) == 0 {
			return c.Bin(OBand, a, c.Const(w, b.val-1))
		}
		if b.lo > a.hi {
			return a
		}
	}
	t := c.mk(op, w, 0, a, b, nil)
	if t.lo == t.hi {
		return c.Const(w, t.lo)
	}
	return t
}

func (c *Ctx) Bnot(a *Term) *Term {
	if a.IsConst() {
		return c.Const(a.w, ^a.val)
	}
	return c.mk(OBnot, a.w, 0, a, nil, nil)
}

func (c *Ctx) Zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.IsConst() {
		return c.Const(w, a.val)
	}
	if a.op == OZext {
		return c.Zext(a.a, w)
	}
	if a.op == OIte && a.b.IsConst() && a.c.IsConst() {
		return c.Ite(a.a, c.Const(w, a.b.val), c.Const(w, a.c.val))
	}
	return c.mk(OZext, w, 0, a, nil, nil)
}

func (c *Ctx) Sext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.IsConst() {
		return c.Const(w, uint64(sext64(a.val, a.w)))
	}
	if a.hi <= mask(a.w)>>1 {
		return c.Zext(a, w)
	}
	return c.mk(OSext, w, 0, a, nil, nil)
}

// Extract the low w bits starting at lo.
func (c *Ctx) Extract(a *Term, lo uint8, w uint8) *Term {
	if lo == 0 && w == a.w {
		return a
	}
	if a.IsConst() {
		return c.Const(w, a.val>>lo)
	}
	if lo == 0 && (a.op == OZext || a.op == OSext) {
		if a.a.w == w {
			return a.a
		}
		if a.a.w > w {
			return c.Extract(a.a, 0, w)
		}
		if a.op == OZext {
			return c.Zext(a.a, w)
		}
		return c.Sext(a.a, w)
	}
	if lo == 0 && a.op == OIte {
		return c.Ite(a.a, c.Extract(a.b, 0, w), c.Extract(a.c, 0, w))
	}
	return c.mk(OExtract, w, uint64(lo), a, nil, nil)
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func evalBin(op Op, w uint8, a, b uint64) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (a + b) & m
	case OSub:
		return (a - b) & m
	case OMul:
		return (a * b) & m
	case OUdiv:
		if b == 0 {
			return m
		}
		return a / b
	case OUrem:
		if b == 0 {
			return a
		}
		return a % b
	case OSdiv:
		x, y := sext64(a, w), sext64(b, w)
		if y == 0 {
			if x >= 0 {
				return m
			}
			return 1
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OSrem:
		x, y := sext64(a, w), sext64(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OBand:
		return a & b
	case OBor:
		return a | b
	case OBxor:
		return a ^ b
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case OLshr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAshr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sext64(a, w)>>b) & m
	}
	panic("evalBin")
}

// Model assigns values to variables; missing variables take their lower bound.
type Model map[*Term]uint64

func (c *Ctx) Eval(t *Term, m Model) uint64 {
	c.epoch++
	if int(c.next) >= len(c.evalS) {
		n := int(c.next)*2 + 1024
		c.evalS = make([]uint64, n)
		c.evalE = make([]uint32, n)
		c.epoch = 1
	}
	return c.eval(t, m)
}

func (c *Ctx) eval(t *Term, m Model) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OVar:
		if v, ok := m[t]; ok {
			return v
		}
		return t.lo
	}
	if c.evalE[t.id] == c.epoch {
		return c.evalS[t.id]
	}
	var r uint64
	switch t.op {
	case ONot:
		r = 1 - c.eval(t.a, m)
	case OAnd:
		if c.eval(t.a, m) != 0 {
			r = c.eval(t.b, m)
		}
	case OOr:
		if c.eval(t.a, m) != 0 {
			r = 1
		} else {
			r = c.eval(t.b, m)
		}
	case OEq:
		r = b2u(c.eval(t.a, m) == c.eval(t.b, m))
	case OUlt:
		r = b2u(c.eval(t.a, m) < c.eval(t.b, m))
	case OSlt:
		r = b2u(sext64(c.eval(t.a, m), t.a.w) < sext64(c.eval(t.b, m), t.a.w))
	case OIte:
		if c.eval(t.a, m) != 0 {
			r = c.eval(t.b, m)
		} else {
			r = c.eval(t.c, m)
		}
	case ORng:
		v := c.eval(t.a, m)
		r = b2u(t.a.lo <= v && v <= t.a.hi)
	case OBnot:
		r = ^c.eval(t.a, m) & mask(t.w)
	case OZext:
		r = c.eval(t.a, m)
	case OSext:
		r = uint64(sext64(c.eval(t.a, m), t.a.w)) & mask(t.w)
	case OExtract:
		r = (c.eval(t.a, m) >> t.val) & mask(t.w)
	default:
		r = evalBin(t.op, t.w, c.eval(t.a, m), c.eval(t.b, m))
	}
	c.evalE[t.id] = c.epoch
	c.evalS[t.id] = r
	return r
}

func smtName(t *Term) string {
	if t.op == OVar {
		return "|" + t.name + "|"
	}
	return fmt.Sprintf("t%d", t.id)
}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func constSMT(t *Term) string {
	if t.w == 0 {
		if t.val == 1 {
			return "true"
		}
		return "false"
	}
	return fmt.Sprintf("(_ bv%d %d)", t.val, t.w)
}

// Define emits definitions for t and everything below it that the solver has
// not seen yet, and returns the name to use for t.
func (t *Term) Define(sb *strings.Builder) string {
	if t.op == OConst {
		return constSMT(t)
	}
	if t.defined {
		return smtName(t)
	}
	if t.op == OVar {
		fmt.Fprintf(sb, "(declare-const %s %s)\n", smtName(t), sortName(t.w))
		t.defined = true
		return smtName(t)
	}
	var a, b, d string
	a = t.a.Define(sb)
	if t.b != nil {
		b = t.b.Define(sb)
	}
	if t.c != nil {
		d = t.c.Define(sb)
	}
	var e string
	switch t.op {
	case ONot, OBnot:
		e = fmt.Sprintf("(%s %s)", opNames[t.op], a)
	case ORng:
		e = fmt.Sprintf("(and (bvule (_ bv%d %d) %s) (bvule %s (_ bv%d %d)))", t.a.lo, t.a.w, a, a, t.a.hi, t.a.w)
	case OIte:
		e = fmt.Sprintf("(ite %s %s %s)", a, b, d)
	case OZext:
		e = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, a)
	case OSext:
		e = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, a)
	case OExtract:
		e = fmt.Sprintf("((_ extract %d %d) %s)", uint64(t.w)+t.val-1, t.val, a)
	default:
		e = fmt.Sprintf("(%s %s %s)", opNames[t.op], a, b)
	}
	fmt.Fprintf(sb, "(define-fun %s () %s %s)\n", smtName(t), sortName(t.w), e)
	t.defined = true
	return smtName(t)
}

// String prints a term for humans (bounded size).
func (t *Term) String() string {
	s := t.str(6)
	return s
}

func (t *Term) str(d int) string {
	if t == nil {
		return "<nil>"
	}
	switch t.op {
	case OConst:
		if t.w == 0 {
			return fmt.Sprint(t.val == 1)
		}
		return fmt.Sprint(sext64(t.val, t.w))
	case OVar:
		return t.name
	}
	if d == 0 {
		return "..."
	}
	s := "(" + opNames[t.op]
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			s += " " + x.str(d-1)
		}
	}
	return s + ")"
}
