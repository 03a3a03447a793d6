// Package sv is the interface between the harnesses and the symbolic
// executor. The executor intercepts these functions; the bodies below are used
// when a counterexample or a sampled path is replayed natively, with the
// inputs the solver chose.
package sv

import (
	"fmt"
	"strconv"
	"strings"
	"sync/atomic"
	"unicode"

	"svharness/vsync"
)

type Failure struct{ Msg string }

type assumeFailed struct{}

var (
	inputs map[string]uint64
	counts map[string]int
	obs    []string
	tier   = "quick"
)

// Begin starts a native run with the given inputs.
func Begin(in map[string]uint64, sched []int, control bool, t string) {
	inputs, counts, obs, tier = in, map[string]int{}, nil, t
	vsync.Begin(sched, control)
}

func Observations() []string { return obs }

// IsAssume tells whether a recovered panic value is a failed assumption.
func IsAssume(r any) bool { _, ok := r.(assumeFailed); return ok }

func val(name string, lo uint64) uint64 {
	k := counts[name]
	counts[name] = k + 1
	if v, ok := inputs[fmt.Sprintf("%s#%d", name, k)]; ok {
		return v
	}
	return lo
}

// Byte is a symbolic byte in lo..hi.
func Byte(name string, lo, hi int) byte { return byte(val(name, uint64(lo))) }

func Bool(name string) bool { return val(name, 0) == 1 }

// Int is a symbolic int in lo..hi.
func Int(name string, lo, hi int) int {
	if lo < 0 {
		return int(val(name, 0)) + lo
	}
	return int(val(name, uint64(lo)))
}

// Int64 ranges over every int64.
func Int64(name string) int64 { return int64(val(name, 0)) }

func Rune(name string, lo, hi int) rune { return rune(val(name, uint64(lo))) }

// Choose is an n-way choice that forks the exploration.
func Choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	return int(val(name, 0))
}

// Str is a string of n arbitrary bytes.
func Str(name string, n int) string { return StrIn(name, n, 0, 255) }

// StrIn is a string of n bytes in lo..hi.
func StrIn(name string, n, lo, hi int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(val(name+"."+strconv.Itoa(i), uint64(lo)))
	}
	return string(b)
}

// Pick is one of the given strings.
func Pick(name string, from []string) string {
	for _, s := range from {
		if len(s) != len(from[0]) {
			if len(from) == 1 {
				return from[0]
			}
			break
		}
	}
	return from[val(name, 0)]
}

func Assume(c bool) {
	if !c {
		panic(assumeFailed{})
	}
}

func Assert(c bool, msg string) {
	if !c {
		panic(Failure{msg})
	}
}

// Seek is an assertion for which the solver has a short time only: a violation
// that it finds counts, but that it finds none decides nothing. It comes last.
func Seek(c bool, msg string) { Assert(c, msg) }

// Cover records that the point is reachable.
func Cover(name string) {}

// Observe records values that the native run must reproduce exactly.
func Observe(name string, vs ...any) {
	var parts []string
	for _, v := range vs {
		parts = append(parts, render(v))
	}
	obs = append(obs, name+"="+strings.Join(parts, " "))
}

func render(v any) string {
	switch v := v.(type) {
	case nil:
		return "nil"
	case bool:
		return strconv.FormatBool(v)
	case string:
		return strconv.Quote(v)
	case []string:
		var p []string
		for _, s := range v {
			p = append(p, strconv.Quote(s))
		}
		return "[" + strings.Join(p, " ") + "]"
	case []int:
		var p []string
		for _, s := range v {
			p = append(p, strconv.Itoa(s))
		}
		return "[" + strings.Join(p, " ") + "]"
	case []byte:
		var p []string
		for _, s := range v {
			p = append(p, strconv.Itoa(int(s)))
		}
		return "[" + strings.Join(p, " ") + "]"
	case []bool:
		var p []string
		for _, s := range v {
			p = append(p, strconv.FormatBool(s))
		}
		return "[" + strings.Join(p, " ") + "]"
	}
	return fmt.Sprint(v)
}

// Connectives that do not fork.
func And(cs ...bool) bool {
	for _, c := range cs {
		if !c {
			return false
		}
	}
	return true
}

func Or(cs ...bool) bool {
	for _, c := range cs {
		if c {
			return true
		}
	}
	return false
}

func Not(a bool) bool    { return !a }
func Imp(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool { return a == b }

func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

func EqStrs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func EqInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func LessStr(a, b string) bool { return a < b }

// Fix forks until the value is concrete.
func Fix(n int) int { return n }

// Bound is a size limit of the exploration; it is reported as such.
func Bound(name string, quick, thorough int) int {
	if tier == "thorough" {
		return thorough
	}
	return quick
}

// MapOrder switches arbitrary map iteration orders on or off.
func MapOrder(on bool) {}

// Preempt allows up to n preemptive context switches.
func Preempt(n int) { vsync.SetBound(n) }

func DetectRaces() {}

// Order fixes who runs next when a thread ends or waits: 0 anyone (all choices
// are explored), 1 the oldest, 2 the youngest; 3 and 4 the oldest and the
// youngest at every scheduling point. A recorded schedule has it all.
func Order(policy int) { vsync.SetUnbounded(policy >= 3) }

var ticks atomic.Int64

// Tick returns a number larger than all before.
func Tick() int { return int(ticks.Add(1)) }

// Go starts a thread of the harness; Join waits for all of them.
func Go(f func()) { vsync.HarnessGo(f) }
func Join()       { vsync.HarnessJoin() }

func Symbolic() bool { return false }

// Reference character classes.
func IsLetter(r rune) bool { return unicode.IsLetter(r) }
func IsNumber(r rune) bool { return unicode.IsNumber(r) }
func Lower(r rune) rune    { return unicode.ToLower(r) }
