package vsync

import (
	"sync"
	"unsafe"
)

type Locker = sync.Locker

// Mutex is a sync.Mutex under control of the scheduler.
type Mutex struct {
	mu    sync.Mutex
	owner int // 0: free
}

//go:norace
func (m *Mutex) free() bool { return m.owner == 0 }

//go:norace
func (m *Mutex) Lock() {
	if active {
		block(m)
		m.owner = turn + 1
	}
	m.mu.Lock()
}

//go:norace
func (m *Mutex) TryLock() bool {
	if active {
		Point()
		if m.owner != 0 {
			spins[turn]++
			return false
		}
		m.owner = turn + 1
	}
	return m.mu.TryLock()
}

//go:norace
func (m *Mutex) Unlock() {
	m.mu.Unlock()
	m.owner = 0
}

// RWMutex is a sync.RWMutex under control of the scheduler.
type RWMutex struct {
	mu      sync.RWMutex
	owner   int
	readers int
}

type rwReader struct{ m *RWMutex }

//go:norace
func (r rwReader) free() bool { return r.m.owner == 0 }

//go:norace
func (m *RWMutex) free() bool { return m.owner == 0 && m.readers == 0 }

//go:norace
func (m *RWMutex) Lock() {
	if active {
		block(m)
		m.owner = turn + 1
	}
	m.mu.Lock()
}

//go:norace
func (m *RWMutex) TryLock() bool {
	if active {
		Point()
		if !m.free() {
			spins[turn]++
			return false
		}
		m.owner = turn + 1
	}
	return m.mu.TryLock()
}

//go:norace
func (m *RWMutex) Unlock() {
	m.mu.Unlock()
	m.owner = 0
}

//go:norace
func (m *RWMutex) RLock() {
	if active {
		block(rwReader{m})
		m.readers++
	}
	m.mu.RLock()
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	if active {
		Point()
		if m.owner != 0 {
			spins[turn]++
			return false
		}
		m.readers++
	}
	return m.mu.TryRLock()
}

//go:norace
func (m *RWMutex) RUnlock() {
	m.mu.RUnlock()
	if active && m.readers > 0 {
		m.readers--
	}
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

// Once is a sync.Once under control of the scheduler.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v T1
	var w T2
	return func() (T1, T2) {
		o.Do(func() { v, w = f() })
		return v, w
	}
}

// WaitGroup is a sync.WaitGroup under control of the scheduler.
type WaitGroup struct {
	wg    sync.WaitGroup
	count int
}

//go:norace
func (w *WaitGroup) free() bool { return w.count == 0 }

//go:norace
func (w *WaitGroup) Add(d int) {
	w.count += d
	w.wg.Add(d)
}

func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) Wait() {
	if active {
		block(w)
	}
	w.wg.Wait()
}

// Cond is a sync.Cond under control of the scheduler.
type Cond struct {
	L       Locker
	waiters [64]*signal
	n       int
	hb      byte
}
type signal struct{ set bool }

//go:norace
func (s *signal) free() bool { return s.set }

func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) Wait() {
	s := &signal{}
	c.waiters[c.n] = s
	c.n++
	c.L.Unlock()
	block(s)
	raceAcquire(unsafe.Pointer(&c.hb))
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() {
	raceRelease(unsafe.Pointer(&c.hb))
	if c.n > 0 {
		c.waiters[0].set = true
		for i := 1; i < c.n; i++ {
			c.waiters[i-1] = c.waiters[i]
		}
		c.n--
	}
}

//go:norace
func (c *Cond) Broadcast() {
	raceRelease(unsafe.Pointer(&c.hb))
	for i := 0; i < c.n; i++ {
		c.waiters[i].set = true
	}
	c.n = 0
}

// Pool hands out the element returned last, by whichever thread: the most
// eager re-use sync.Pool permits. It is emptied before every execution.
type Pool struct {
	New   func() any
	items [64]any
	hb    [64]byte
	n     int
	gen   int
}

//go:norace
func (p *Pool) take() (any, bool) {
	if p.gen != gen {
		p.gen, p.n = gen, 0
	}
	if p.n == 0 {
		return nil, false
	}
	p.n--
	x := p.items[p.n]
	p.items[p.n] = nil
	raceAcquire(unsafe.Pointer(&p.hb[p.n]))
	return x, true
}

//go:norace
func (p *Pool) Get() any {
	Point()
	if x, ok := p.take(); ok {
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

//go:norace
func (p *Pool) Put(x any) {
	Point()
	if p.gen != gen {
		p.gen, p.n = gen, 0
	}
	if x == nil || p.n == len(p.items) {
		return
	}
	raceRelease(unsafe.Pointer(&p.hb[p.n]))
	p.items[p.n] = x
	p.n++
	Point()
}

// Map is a sync.Map whose operations are scheduling points.
type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool)           { Point(); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { Point(); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { Point(); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { Point(); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { Point(); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { Point(); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, v any) bool  { Point(); return m.m.CompareAndSwap(k, o, v) }
func (m *Map) CompareAndDelete(k, o any) bool   { Point(); return m.m.CompareAndDelete(k, o) }
func (m *Map) Range(f func(k, v any) bool)      { Point(); m.m.Range(f) }
