package vsync

// Channels and go statements of rewritten code.

import (
	"iter"
	"reflect"
)

func Go0[R any](f func() R)                { Go(func() { f() }) }
func Go1[A any](f func(A), a A)            { Go(func() { f(a) }) }
func Go2[A, B any](f func(A, B), a A, b B) { Go(func() { f(a, b) }) }
func Go3[A, B, C any](f func(A, B, C), a A, b B, c C) {
	Go(func() { f(a, b, c) })
}
func Go4[A, B, C, D any](f func(A, B, C, D), a A, b B, c C, d D) {
	Go(func() { f(a, b, c, d) })
}
func Go5[A, B, C, D, E any](f func(A, B, C, D, E), a A, b B, c C, d D, e E) {
	Go(func() { f(a, b, c, d, e) })
}

type chanState struct {
	buf    []any
	closed bool
	sendq  []*sendItem
	nrecv  int
}

type sendItem struct {
	v     any
	taken bool
}

var chans map[uintptr]*chanState

// keep the channels reachable so that their addresses stay unique
var keepChans []any

func stateOf(ch any) *chanState {
	p := reflect.ValueOf(ch).Pointer()
	s := chans[p]
	if s == nil {
		s = &chanState{}
		chans[p] = s
		keepChans = append(keepChans, ch)
	}
	return s
}

func Send[T any](ch chan<- T, v T) {
	if !on {
		jitter()
		ch <- v
		return
	}
	point()
	if ch == nil {
		wait(func() bool { return false })
	}
	s := stateOf(ch)
	if s.closed {
		panic("send on closed channel")
	}
	if cap(ch) > 0 {
		wait(func() bool { return len(s.buf) < cap(ch) || s.closed })
		if s.closed {
			panic("send on closed channel")
		}
		s.buf = append(s.buf, v)
		return
	}
	it := &sendItem{v: v}
	s.sendq = append(s.sendq, it)
	wait(func() bool { return it.taken || s.closed })
	if !it.taken {
		panic("send on closed channel")
	}
}

func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

func Recv2[T any](ch <-chan T) (T, bool) {
	if !on {
		jitter()
		v, ok := <-ch
		return v, ok
	}
	point()
	if ch == nil {
		wait(func() bool { return false })
	}
	s := stateOf(ch)
	s.nrecv++
	wait(func() bool { return len(s.buf) > 0 || len(s.sendq) > 0 || s.closed })
	s.nrecv--
	var x any
	switch {
	case len(s.buf) > 0:
		x = s.buf[0]
		s.buf = s.buf[1:]
	case len(s.sendq) > 0:
		it := s.sendq[0]
		s.sendq = s.sendq[1:]
		it.taken = true
		x = it.v
	default:
		var z T
		return z, false
	}
	t, _ := x.(T)
	return t, true
}

func Range[T any](ch <-chan T) iter.Seq[T] {
	return func(yield func(T) bool) {
		for {
			v, ok := Recv2(ch)
			if !ok || !yield(v) {
				return
			}
		}
	}
}

func Close[T any](ch chan<- T) {
	if !on {
		close(ch)
		return
	}
	if ch == nil {
		panic("close of nil channel")
	}
	s := stateOf(ch)
	if s.closed {
		panic("close of closed channel")
	}
	point()
	s.closed = true
}

func Len[T any](ch <-chan T) int {
	if !on || ch == nil {
		return len(ch)
	}
	return len(stateOf(ch).buf)
}
