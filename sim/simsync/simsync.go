// Package simsync stands in for package sync in instrumented code: blocking
// is cooperative and the contents of pools are choices of the run.
package simsync

import (
	"sync"

	"verifsim/simrt"
)

type Locker = sync.Locker

type Mutex struct{ locked bool }

func (m *Mutex) Lock() {
	simrt.Yield()
	simrt.Block(func() bool { return !m.locked })
	m.locked = true
}
func (m *Mutex) TryLock() bool {
	simrt.Yield()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}
func (m *Mutex) Unlock() {
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
	simrt.Yield()
}

type RWMutex struct {
	w bool
	r int
}

func (m *RWMutex) Lock() {
	simrt.Yield()
	simrt.Block(func() bool { return !m.w && m.r == 0 })
	m.w = true
}
func (m *RWMutex) TryLock() bool {
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}
func (m *RWMutex) Unlock() {
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	simrt.Yield()
}
func (m *RWMutex) RLock() {
	simrt.Yield()
	simrt.Block(func() bool { return !m.w })
	m.r++
}
func (m *RWMutex) TryRLock() bool {
	if m.w {
		return false
	}
	m.r++
	return true
}
func (m *RWMutex) RUnlock() {
	if m.r <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	simrt.Yield()
}

type rlocker struct{ m *RWMutex }

func (l rlocker) Lock()   { l.m.RLock() }
func (l rlocker) Unlock() { l.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	simrt.Yield()
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) { o.Do(func() { a, b = f() }); return a, b }
}

type WaitGroup struct{ n int }

func (w *WaitGroup) Add(d int) {
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1); simrt.Yield() }
func (w *WaitGroup) Wait() { simrt.Yield(); simrt.Block(func() bool { return w.n == 0 }) }
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() { defer w.Done(); f() })
}

type Cond struct {
	L    Locker
	wait []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	f := new(bool)
	c.wait = append(c.wait, f)
	c.L.Unlock()
	simrt.Block(func() bool { return *f })
	c.L.Lock()
}
func (c *Cond) Signal() {
	if len(c.wait) > 0 {
		*c.wait[0] = true
		c.wait = c.wait[1:]
	}
}
func (c *Cond) Broadcast() {
	for _, f := range c.wait {
		*f = true
	}
	c.wait = nil
}

// Map delegates to the real one, which is not contended under the simulator.
type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool)           { simrt.Yield(); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { simrt.Yield(); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { simrt.Yield(); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { simrt.Yield(); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { simrt.Yield(); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { simrt.Yield(); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool  { simrt.Yield(); return m.m.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o any) bool   { simrt.Yield(); return m.m.CompareAndDelete(k, o) }
func (m *Map) Range(f func(k, v any) bool) {
	simrt.Yield()
	all := map[any]any{}
	m.m.Range(func(k, v any) bool { all[k] = v; return true })
	for k, v := range simrt.MapIter(all) {
		if !f(k, v) {
			return
		}
	}
}
func (m *Map) Clear() { simrt.Yield(); m.m.Clear() }

// Pool models everything sync.Pool may do: hand out any item, lose any item
// at any time, and miss although it holds items.
type Pool struct {
	New   func() any
	items []any
	run   *simrt.Run
}

func (p *Pool) sync() {
	// Items do not survive from one simulated run to the next.
	if p.run != simrt.R {
		p.items, p.run = nil, simrt.R
	}
}

func (p *Pool) Get() any {
	simrt.Yield()
	p.sync()
	r := simrt.R
	if r != nil && len(p.items) > 0 {
		k := r.N(len(p.items) + 1) // 0 is the most recent item
		if k < len(p.items) {
			i := len(p.items) - 1 - k
			v := p.items[i]
			p.items = append(p.items[:i:i], p.items[i+1:]...)
			r.Count("pool_reuse")
			r.Ev(11, uint64(k))
			simrt.Yield()
			return v
		}
		r.Count("fault_pool_miss")
	} else if r == nil && len(p.items) > 0 {
		v := p.items[len(p.items)-1]
		p.items = p.items[:len(p.items)-1]
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	simrt.Yield()
	p.sync()
	r := simrt.R
	if r != nil {
		if r.Chance(1, 12) {
			r.Count("fault_pool_drop_on_put")
			return
		}
		if len(p.items) > 0 && r.Chance(1, 24) {
			r.Count("fault_pool_gc_drop")
			p.items = p.items[:r.N(len(p.items))]
		}
	}
	p.items = append(p.items, x)
	simrt.Yield()
}
