package simrt

import (
	"runtime"
	"sync"
	"unsafe"
)

// Simulated channel operations, for code under test that uses channels.
// Values go through the real channel when it is buffered, from hand to hand otherwise.

type waiter struct {
	val  unsafe.Pointer
	done bool
	ok   bool
	sel  *selector // for a case of a select statement
	idx  int
}

// fire tells that the operation was done by the other side.
func (w *waiter) fire(ok bool) {
	w.done, w.ok = true, ok
	if w.sel != nil {
		w.sel.fired = w.idx
		Wake(unsafe.Pointer(w.sel))
		return
	}
	Wake(unsafe.Pointer(w))
}

// first takes the first waiter which may still be served.
func first(l *[]*waiter, not *selector) *waiter {
	for i, w := range *l {
		if w.sel != nil && (w.sel.fired >= 0 || w.sel == not) {
			continue
		}
		*l = append(append([]*waiter{}, (*l)[:i]...), (*l)[i+1:]...)
		return w
	}
	return nil
}

type chanQueue struct {
	recv, send []*waiter
}

var (
	chanMu sync.Mutex // never contended: orders memory for the race detector
	queues = map[unsafe.Pointer]*chanQueue{}
)

// noQueues forgets the channels of earlier runs.
func noQueues() { queues = map[unsafe.Pointer]*chanQueue{} }

func queueOf(p unsafe.Pointer) *chanQueue {
	q := queues[p]
	if q == nil {
		q = &chanQueue{}
		queues[p] = q
	}
	return q
}

func wakeAll(l []*waiter) {
	for _, w := range l {
		if w.sel != nil {
			Wake(unsafe.Pointer(w.sel))
			continue
		}
		Wake(unsafe.Pointer(w))
	}
}

func remove(l []*waiter, w *waiter) []*waiter {
	for i, x := range l {
		if x == w {
			return append(append([]*waiter{}, l[:i]...), l[i+1:]...)
		}
	}
	return l
}

// Send v on ch.
func Send[C ~chan T | ~chan<- T, T any](c C, v T) {
	ch := (chan<- T)(c)
	YH(-11)
	if !Active() {
		outside()
		ch <- v
		return
	}
	p := *(*unsafe.Pointer)(unsafe.Pointer(&c))
	for {
		if p == nil {
			Block(nil)
			continue
		}
		chanMu.Lock()
		q := queueOf(p)
		if trySend(ch, v) {
			wakeAll(q.recv)
			chanMu.Unlock()
			return
		}
		if cap(ch) == 0 {
			if w := first(&q.recv, nil); w != nil {
				*(*T)(w.val) = v
				w.fire(true)
				chanMu.Unlock()
				return
			}
		}
		w := &waiter{val: unsafe.Pointer(&v)}
		q.send = append(q.send, w)
		chanMu.Unlock()
		Block(unsafe.Pointer(w))
		chanMu.Lock()
		q.send = remove(q.send, w)
		done := w.done
		chanMu.Unlock()
		if done {
			return
		}
	}
}

func trySend[T any](ch chan<- T, v T) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			chanMu.Unlock()
			panic(r)
		}
	}()
	select {
	case ch <- v:
		return true
	default:
		return false
	}
}

// Recv2 receives from ch.
func Recv2[C ~chan T | ~<-chan T, T any](c C) (T, bool) {
	ch := (<-chan T)(c)
	YH(-11)
	if !Active() {
		outside()
		v, ok := <-ch
		return v, ok
	}
	p := *(*unsafe.Pointer)(unsafe.Pointer(&c))
	for {
		if p == nil {
			Block(nil)
			continue
		}
		chanMu.Lock()
		q := queueOf(p)
		select {
		case v, ok := <-ch:
			wakeAll(q.send)
			chanMu.Unlock()
			return v, ok
		default:
		}
		if cap(ch) == 0 {
			if w := first(&q.send, nil); w != nil {
				v := *(*T)(w.val)
				w.fire(true)
				chanMu.Unlock()
				return v, true
			}
		}
		var v T
		w := &waiter{val: unsafe.Pointer(&v)}
		q.recv = append(q.recv, w)
		chanMu.Unlock()
		Block(unsafe.Pointer(w))
		chanMu.Lock()
		q.recv = remove(q.recv, w)
		done := w.done
		chanMu.Unlock()
		if done {
			return v, true
		}
	}
}

// Recv receives from ch.
func Recv[C ~chan T | ~<-chan T, T any](c C) T {
	v, _ := Recv2[C, T](c)
	return v
}

// selector is a select statement being executed.
type selector struct{ fired int }

// SelCase is a case of a select statement.
type SelCase interface {
	// try does the operation if it can be done at once.
	try(s *selector) bool
	// wait registers the case with its channel.
	wait(s *selector, idx int)
	// done takes it off; it tells if the other side did the operation.
	done() bool
}

type recvCase[T any] struct {
	ch <-chan T
	p  unsafe.Pointer
	v  T
	ok bool
	w  *waiter
}

// RecvCase is a receiving case.
func RecvCase[C ~chan T | ~<-chan T, T any](c C) *recvCase[T] {
	return &recvCase[T]{ch: (<-chan T)(c), p: *(*unsafe.Pointer)(unsafe.Pointer(&c))}
}

// Val is what was received.
func (c *recvCase[T]) Val() T { return c.v }

// Val2 also tells if the channel was open.
func (c *recvCase[T]) Val2() (T, bool) { return c.v, c.ok }

func (c *recvCase[T]) try(s *selector) bool {
	if c.p == nil {
		return false
	}
	q := queueOf(c.p)
	select {
	case c.v, c.ok = <-c.ch:
		wakeAll(q.send)
		return true
	default:
	}
	if cap(c.ch) == 0 {
		if w := first(&q.send, s); w != nil {
			c.v, c.ok = *(*T)(w.val), true
			w.fire(true)
			return true
		}
	}
	return false
}

func (c *recvCase[T]) wait(s *selector, idx int) {
	if c.p == nil {
		return
	}
	c.w = &waiter{val: unsafe.Pointer(&c.v), sel: s, idx: idx}
	q := queueOf(c.p)
	q.recv = append(q.recv, c.w)
}

func (c *recvCase[T]) done() bool {
	if c.w == nil {
		return false
	}
	q := queueOf(c.p)
	q.recv = remove(q.recv, c.w)
	if c.w.done {
		c.ok = c.w.ok
	}
	return c.w.done
}

type sendCase[T any] struct {
	ch chan<- T
	p  unsafe.Pointer
	v  T
	w  *waiter
}

// SendCase is a sending case.
func SendCase[C ~chan T | ~chan<- T, T any](c C, v T) *sendCase[T] {
	return &sendCase[T]{ch: (chan<- T)(c), p: *(*unsafe.Pointer)(unsafe.Pointer(&c)), v: v}
}

func (c *sendCase[T]) try(s *selector) bool {
	if c.p == nil {
		return false
	}
	q := queueOf(c.p)
	if trySend(c.ch, c.v) {
		wakeAll(q.recv)
		return true
	}
	if cap(c.ch) == 0 {
		if w := first(&q.recv, s); w != nil {
			*(*T)(w.val) = c.v
			w.fire(true)
			return true
		}
	}
	return false
}

func (c *sendCase[T]) wait(s *selector, idx int) {
	if c.p == nil {
		return
	}
	c.w = &waiter{val: unsafe.Pointer(&c.v), sel: s, idx: idx}
	q := queueOf(c.p)
	q.send = append(q.send, c.w)
}

func (c *sendCase[T]) done() bool {
	if c.w == nil {
		return false
	}
	q := queueOf(c.p)
	q.send = remove(q.send, c.w)
	return c.w.done
}

// Select executes a select statement: it yields the index of the case that was executed, -1 for the default.
func Select(def bool, cases ...SelCase) int {
	YH(-12)
	for {
		chanMu.Lock()
		// from a case decided by the simulator
		from := 0
		if len(cases) > 1 {
			from = int(Draw(uint64(len(cases))))
		}
		for k := range cases {
			i := (from + k) % len(cases)
			if cases[i].try(nil) {
				chanMu.Unlock()
				return i
			}
		}
		if def {
			chanMu.Unlock()
			return -1
		}
		if !Active() {
			chanMu.Unlock()
			Block(nil)
			continue
		}
		s := &selector{fired: -1}
		for i, c := range cases {
			c.wait(s, i)
		}
		chanMu.Unlock()
		Block(unsafe.Pointer(s))
		chanMu.Lock()
		fired := -1
		for i, c := range cases {
			if c.done() {
				fired = i
			}
		}
		chanMu.Unlock()
		if fired >= 0 {
			return fired
		}
	}
}

// Forever blocks.
func Forever() {
	for {
		Block(nil)
	}
}

// outside ends a task which unwinds rather than letting it block.
//
//go:norace
func outside() {
	if unwind {
		runtime.Goexit()
	}
}

// Close ch.
func Close[C ~chan T | ~chan<- T, T any](c C) {
	YH(-11)
	close((chan<- T)(c))
	if !Active() {
		return
	}
	chanMu.Lock()
	q := queueOf(*(*unsafe.Pointer)(unsafe.Pointer(&c)))
	wakeAll(q.recv)
	wakeAll(q.send)
	chanMu.Unlock()
}
