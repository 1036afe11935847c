// Package sync is the simulated counterpart of the standard package: blocking is decided by the simulator,
// while real primitives provide the memory ordering that the race detector observes.
package sync

import (
	"sync"
	"sync/atomic"
	"unsafe"

	"github.com/fredbi/go-typeset/zsim/simrt"
)

// Locker is sync.Locker.
type Locker = sync.Locker

// Mutex is a simulated mutex.
type Mutex struct {
	mu     sync.Mutex
	locked bool
}

//go:norace
func (m *Mutex) set(v bool) { m.locked = v }

//go:norace
func (m *Mutex) isLocked() bool { return m.locked }

// Lock the mutex.
func (m *Mutex) Lock() {
	simrt.YH(-3)
	for !m.mu.TryLock() {
		simrt.Block(unsafe.Pointer(m))
	}
	m.set(true)
}

// TryLock the mutex.
func (m *Mutex) TryLock() bool {
	simrt.YH(-3)
	if !m.mu.TryLock() {
		return false
	}
	m.set(true)
	return true
}

// Unlock the mutex.
func (m *Mutex) Unlock() {
	if !m.isLocked() {
		panic("sync: unlock of unlocked mutex")
	}
	m.set(false)
	m.mu.Unlock()
	simrt.Wake(unsafe.Pointer(m))
	simrt.YH(-3)
}

// RWMutex is a simulated reader/writer mutex. A waiting writer holds back new readers.
type RWMutex struct {
	mu      sync.RWMutex
	readers int
	writer  bool
	waiting int
}

//go:norace
func (m *RWMutex) st() (int, bool, int) { return m.readers, m.writer, m.waiting }

//go:norace
func (m *RWMutex) add(r int, w bool, q int) { m.readers += r; m.writer = w; m.waiting += q }

// Lock for writing.
func (m *RWMutex) Lock() {
	simrt.YH(-3)
	m.add(0, m.isWriter(), 1)
	for {
		if r, w, _ := m.st(); r == 0 && !w {
			break
		}
		simrt.Block(unsafe.Pointer(m))
	}
	m.mu.Lock()
	m.add(0, true, -1)
}

//go:norace
func (m *RWMutex) isWriter() bool { return m.writer }

// TryLock for writing.
func (m *RWMutex) TryLock() bool {
	simrt.YH(-3)
	if r, w, _ := m.st(); r != 0 || w {
		return false
	}
	m.mu.Lock()
	m.add(0, true, 0)
	return true
}

// Unlock for writing.
func (m *RWMutex) Unlock() {
	if !m.isWriter() {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.add(0, false, 0)
	m.mu.Unlock()
	simrt.Wake(unsafe.Pointer(m))
	simrt.YH(-3)
}

// RLock for reading.
func (m *RWMutex) RLock() {
	simrt.YH(-3)
	for {
		if _, w, q := m.st(); !w && q == 0 {
			break
		}
		simrt.Block(unsafe.Pointer(m))
	}
	m.mu.RLock()
	m.add(1, false, 0)
}

// TryRLock for reading.
func (m *RWMutex) TryRLock() bool {
	simrt.YH(-3)
	if _, w, q := m.st(); w || q != 0 {
		return false
	}
	m.mu.RLock()
	m.add(1, false, 0)
	return true
}

// RUnlock after reading.
func (m *RWMutex) RUnlock() {
	if r, _, _ := m.st(); r <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.add(-1, m.isWriter(), 0)
	m.mu.RUnlock()
	simrt.Wake(unsafe.Pointer(m))
	simrt.YH(-3)
}

// RLocker yields the reading side.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once is a simulated once.
type Once struct {
	m    Mutex
	done atomic.Uint32 // the real ordering: release when done, acquire on the fast path
}

// Do calls f once.
func (o *Once) Do(f func()) {
	simrt.YH(-4)
	if o.done.Load() != 0 {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if o.done.Load() == 0 {
		defer o.done.Store(1)
		f()
	}
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var (
		once  Once
		valid bool
		p     interface{}
	)
	g := func() {
		defer func() {
			p = recover()
			if !valid {
				panic(p)
			}
		}()
		f()
		f = nil
		valid = true
	}
	return func() {
		once.Do(g)
		if !valid {
			panic(p)
		}
	}
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var r T
	once := OnceFunc(func() { r = f() })
	return func() T { once(); return r }
}

// OnceValues is sync.OnceValues.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var (
		r1 T1
		r2 T2
	)
	once := OnceFunc(func() { r1, r2 = f() })
	return func() (T1, T2) { once(); return r1, r2 }
}

// WaitGroup is a simulated wait group.
type WaitGroup struct {
	wg sync.WaitGroup
	n  int
}

//go:norace
func (w *WaitGroup) inc(d int) int { w.n += d; return w.n }

// Add to the counter.
func (w *WaitGroup) Add(d int) {
	simrt.YH(-5)
	w.wg.Add(d)
	if w.inc(d) == 0 {
		simrt.Wake(unsafe.Pointer(w))
	}
}

// Done decrements the counter.
func (w *WaitGroup) Done() { w.Add(-1) }

// Wait until the counter is 0.
func (w *WaitGroup) Wait() {
	simrt.YH(-5)
	for w.inc(0) != 0 {
		simrt.Block(unsafe.Pointer(w))
	}
	w.wg.Wait()
}

// Go runs f in a task.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() {
		defer w.Done()
		f()
	})
}

// Cond is a simulated condition.
type Cond struct {
	L Locker
	w []*byte
}

// NewCond builds a condition.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait for a signal.
func (c *Cond) Wait() {
	k := new(byte)
	c.push(k)
	c.L.Unlock()
	for c.has(k) {
		simrt.Block(unsafe.Pointer(k))
	}
	c.L.Lock()
}

//go:norace
func (c *Cond) push(k *byte) {
	n := make([]*byte, len(c.w)+1)
	for i := range c.w {
		n[i] = c.w[i]
	}
	n[len(c.w)] = k
	c.w = n
}

//go:norace
func (c *Cond) has(k *byte) bool {
	for _, x := range c.w {
		if x == k {
			return true
		}
	}
	return false
}

//go:norace
func (c *Cond) pop() *byte {
	if len(c.w) == 0 {
		return nil
	}
	k := c.w[0]
	c.w = c.w[1:]
	return k
}

// Signal one waiter.
func (c *Cond) Signal() {
	simrt.YH(-6)
	if k := c.pop(); k != nil {
		simrt.Wake(unsafe.Pointer(k))
	}
}

// Broadcast to all waiters.
func (c *Cond) Broadcast() {
	simrt.YH(-6)
	for k := c.pop(); k != nil; k = c.pop() {
		simrt.Wake(unsafe.Pointer(k))
	}
}

// Pool is a simulated pool: which item is handed out, if any, is decided by the simulator.
type Pool struct {
	New   func() any
	items []*pooled
}

type pooled struct {
	mu sync.Mutex
	v  any
}

//go:norace
func newPooled() *pooled { return new(pooled) }

//go:norace
func (p *Pool) push(x *pooled) {
	n := make([]*pooled, len(p.items)+1)
	for i := range p.items {
		n[i] = p.items[i]
	}
	n[len(p.items)] = x
	p.items = n
}

//go:norace
func (p *Pool) pop() *pooled {
	k := len(p.items)
	if k == 0 {
		return nil
	}
	i := k - 1 - int(simrt.Draw(uint64(k+1)))
	if i < 0 {
		return nil // pools may forget
	}
	x := p.items[i]
	n := make([]*pooled, 0, k)
	n = n[:k-1]
	for j, w := 0, 0; j < k; j++ {
		if j != i {
			n[w] = p.items[j]
			w++
		}
	}
	p.items = n
	return x
}

// Get an item.
func (p *Pool) Get() any {
	simrt.YH(-7)
	if x := p.pop(); x != nil {
		x.mu.Lock()
		defer x.mu.Unlock()
		return x.v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put an item.
func (p *Pool) Put(v any) {
	if v == nil {
		return
	}
	x := newPooled()
	x.mu.Lock()
	x.v = v
	x.mu.Unlock()
	p.push(x)
	simrt.YH(-7)
}

// Map is a simulated concurrent map.
type Map struct {
	m sync.Map
}

// Load a value.
func (m *Map) Load(key any) (any, bool) { simrt.YH(-8); return m.m.Load(key) }

// Store a value.
func (m *Map) Store(key, value any) { simrt.YH(-8); m.m.Store(key, value) }

// LoadOrStore a value.
func (m *Map) LoadOrStore(key, value any) (any, bool) {
	simrt.YH(-8)
	return m.m.LoadOrStore(key, value)
}

// LoadAndDelete a value.
func (m *Map) LoadAndDelete(key any) (any, bool) { simrt.YH(-8); return m.m.LoadAndDelete(key) }

// Delete a value.
func (m *Map) Delete(key any) { simrt.YH(-8); m.m.Delete(key) }

// Swap a value.
func (m *Map) Swap(key, value any) (any, bool) { simrt.YH(-8); return m.m.Swap(key, value) }

// CompareAndSwap a value.
func (m *Map) CompareAndSwap(key, old, new any) bool {
	simrt.YH(-8)
	return m.m.CompareAndSwap(key, old, new)
}

// CompareAndDelete a value.
func (m *Map) CompareAndDelete(key, old any) bool {
	simrt.YH(-8)
	return m.m.CompareAndDelete(key, old)
}

// Clear the map.
func (m *Map) Clear() { simrt.YH(-8); m.m.Clear() }

// Range over the map in an order decided by the simulator.
func (m *Map) Range(f func(key, value any) bool) {
	all := map[any]any{}
	m.m.Range(func(k, v any) bool { all[k] = v; return true })
	for k, _, it := simrt.MapIter(all); it.Next(&k, nil); {
		simrt.YH(-8)
		if v, ok := m.m.Load(k); ok && !f(k, v) {
			return
		}
	}
}
