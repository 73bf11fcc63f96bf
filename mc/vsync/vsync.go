// Package vsync stands in for sync: under a controlled execution its locks are
// scheduling points, otherwise it behaves like sync.
package vsync

import (
	"sync"
	"unsafe"

	"verif/mc/sched"
)

type Locker = sync.Locker
type Pool = sync.Pool
type Map = sync.Map

// Mutex stands in for sync.Mutex.
type Mutex struct {
	n    sync.Mutex
	held bool
}

func (m *Mutex) Lock() {
	if !sched.Active() {
		m.n.Lock()
		return
	}
	sched.P()
	if m.held {
		sched.Wait("mutex", func() bool { return !m.held })
	}
	m.held = true
	sched.Acquire(unsafe.Pointer(m))
}

func (m *Mutex) TryLock() bool {
	if !sched.Active() {
		return m.n.TryLock()
	}
	sched.P()
	if m.held {
		return false
	}
	m.held = true
	sched.Acquire(unsafe.Pointer(m))
	return true
}

func (m *Mutex) Unlock() {
	if !sched.Active() {
		if m.held {
			m.held = false
			return
		}
		m.n.Unlock()
		return
	}
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	sched.Release(unsafe.Pointer(m))
	m.held = false
	sched.P()
}

// RWMutex stands in for sync.RWMutex (a waiting writer blocks new readers).
type RWMutex struct {
	n       sync.RWMutex
	writer  bool
	readers int
	waiting int
}

func (m *RWMutex) Lock() {
	if !sched.Active() {
		m.n.Lock()
		return
	}
	sched.P()
	if m.writer || m.readers > 0 {
		m.waiting++
		sched.Wait("write lock", func() bool { return !m.writer && m.readers == 0 })
		m.waiting--
	}
	m.writer = true
	sched.Acquire(unsafe.Pointer(&m.writer))
	sched.Acquire(unsafe.Pointer(&m.readers))
}

func (m *RWMutex) TryLock() bool {
	if !sched.Active() {
		return m.n.TryLock()
	}
	sched.P()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	sched.Acquire(unsafe.Pointer(&m.writer))
	sched.Acquire(unsafe.Pointer(&m.readers))
	return true
}

func (m *RWMutex) Unlock() {
	if !sched.Active() {
		if m.writer {
			m.writer = false
			return
		}
		m.n.Unlock()
		return
	}
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	sched.Release(unsafe.Pointer(&m.writer))
	m.writer = false
	sched.P()
}

func (m *RWMutex) RLock() {
	if !sched.Active() {
		m.n.RLock()
		return
	}
	sched.P()
	if m.writer || m.waiting > 0 {
		sched.Wait("read lock", func() bool { return !m.writer && m.waiting == 0 })
	}
	m.readers++
	sched.Acquire(unsafe.Pointer(&m.writer))
}

func (m *RWMutex) TryRLock() bool {
	if !sched.Active() {
		return m.n.TryRLock()
	}
	sched.P()
	if m.writer || m.waiting > 0 {
		return false
	}
	m.readers++
	sched.Acquire(unsafe.Pointer(&m.writer))
	return true
}

func (m *RWMutex) RUnlock() {
	if !sched.Active() {
		if m.readers > 0 {
			m.readers--
			return
		}
		m.n.RUnlock()
		return
	}
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	sched.ReleaseMerge(unsafe.Pointer(&m.readers))
	m.readers--
	sched.P()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup stands in for sync.WaitGroup.
type WaitGroup struct {
	n     sync.WaitGroup
	count int
}

func (w *WaitGroup) Add(d int) {
	if !sched.Active() {
		w.n.Add(d)
		return
	}
	sched.ReleaseMerge(unsafe.Pointer(w))
	w.count += d
	if w.count < 0 {
		panic("sync: negative WaitGroup counter")
	}
	sched.P()
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	if !sched.Active() {
		w.n.Wait()
		return
	}
	sched.Wait("wait group", func() bool { return w.count == 0 })
	sched.Acquire(unsafe.Pointer(w))
}

// Once stands in for sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// Cond stands in for sync.Cond.
type Cond struct {
	L   Locker
	n   *sync.Cond
	gen int
	wt  int
}

func NewCond(l Locker) *Cond { return &Cond{L: l, n: sync.NewCond(l)} }
func (c *Cond) Wait() {
	if !sched.Active() {
		c.n.Wait()
		return
	}
	c.wt++
	g := c.gen
	c.L.Unlock()
	sched.Wait("condition", func() bool { return c.gen > g })
	sched.Acquire(unsafe.Pointer(c))
	c.L.Lock()
}
func (c *Cond) Signal() {
	if !sched.Active() {
		c.n.Signal()
		return
	}
	sched.ReleaseMerge(unsafe.Pointer(c))
	c.gen++
	sched.P()
}
func (c *Cond) Broadcast() {
	if !sched.Active() {
		c.n.Broadcast()
		return
	}
	sched.ReleaseMerge(unsafe.Pointer(c))
	c.gen++
	sched.P()
}

func OnceFunc(f func()) func() { var o Once; return func() { o.Do(f) } }
