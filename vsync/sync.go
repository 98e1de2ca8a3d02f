// Package vsync stands in for sync in the code under test: the same API, with
// scheduling points, and locks whose contention the scheduler sees.
package vsync

import (
	"sync"
	"sync/atomic"
	"unsafe"

	"verif3mf/vsched"
)

type (
	Locker = sync.Locker
	Map    = sync.Map
	Cond   = sync.Cond
)

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

func OnceFunc(f func()) func() { return sync.OnceFunc(f) }

func OnceValue[T any](f func() T) func() T { return sync.OnceValue(f) }

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) { return sync.OnceValues(f) }

// Mutex is a mutual exclusion lock.
type Mutex struct {
	mu    sync.Mutex
	owner atomic.Pointer[vsched.Sched]
}

func (m *Mutex) TryLock() bool {
	vsched.Point(0)
	if m.mu.TryLock() {
		m.owner.Store(vsched.Controlled())
		return true
	}
	return false
}

func (m *Mutex) Lock() {
	s := vsched.Controlled()
	if s == nil {
		m.mu.Lock()
		m.owner.Store(nil)
		return
	}
	vsched.Point(0)
	for !m.mu.TryLock() {
		if m.owner.Load() == s {
			vsched.WaitFor(unsafe.Pointer(m))
		} else { // held by another execution, which goes on meanwhile
			m.mu.Lock()
			break
		}
	}
	m.owner.Store(s)
}

func (m *Mutex) Unlock() {
	m.owner.Store(nil)
	m.mu.Unlock()
	vsched.Wake(unsafe.Pointer(m))
	vsched.Point(0)
}

// RWMutex is a reader/writer lock.
type RWMutex struct {
	mu    sync.RWMutex
	owner atomic.Pointer[vsched.Sched]
}

func (m *RWMutex) TryLock() bool {
	vsched.Point(0)
	if m.mu.TryLock() {
		m.owner.Store(vsched.Controlled())
		return true
	}
	return false
}

func (m *RWMutex) TryRLock() bool {
	vsched.Point(1)
	if m.mu.TryRLock() {
		if s := vsched.Controlled(); s != nil {
			m.owner.Store(s)
		}
		return true
	}
	return false
}

func (m *RWMutex) Lock() {
	s := vsched.Controlled()
	if s == nil {
		m.mu.Lock()
		return
	}
	vsched.Point(0)
	for !m.mu.TryLock() {
		if m.owner.Load() == s {
			vsched.WaitFor(unsafe.Pointer(m))
		} else {
			m.mu.Lock()
			break
		}
	}
	m.owner.Store(s)
}

func (m *RWMutex) RLock() {
	s := vsched.Controlled()
	if s == nil {
		m.mu.RLock()
		return
	}
	vsched.Point(1)
	for !m.mu.TryRLock() {
		if m.owner.Load() == s {
			vsched.WaitFor(unsafe.Pointer(m))
		} else {
			m.mu.RLock()
			break
		}
	}
	m.owner.Store(s)
}

func (m *RWMutex) Unlock() {
	m.mu.Unlock()
	vsched.Wake(unsafe.Pointer(m))
	vsched.Point(0)
}

func (m *RWMutex) RUnlock() {
	m.mu.RUnlock()
	vsched.Wake(unsafe.Pointer(m))
	vsched.Point(1)
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once runs a function once.
type Once struct {
	done atomic.Uint32
	m    Mutex
}

func (o *Once) Do(f func()) {
	vsched.Point(0)
	if o.done.Load() == 0 {
		o.m.Lock()
		defer o.m.Unlock()
		if o.done.Load() == 0 {
			defer o.done.Store(1)
			f()
		}
	}
}

// WaitGroup waits for goroutines.
type WaitGroup struct{ wg sync.WaitGroup }

func (w *WaitGroup) Add(n int) {
	vsched.Point(0)
	w.wg.Add(n)
}

func (w *WaitGroup) Done() {
	vsched.Point(0)
	w.wg.Done()
}

func (w *WaitGroup) Wait() {
	vsched.Point(0)
	w.wg.Wait()
	vsched.Point(0)
}

func (w *WaitGroup) Go(f func()) {
	w.wg.Add(1)
	g := vsched.Spawn()
	go func() {
		g.Enter()
		defer g.Exit()
		defer w.wg.Done()
		f()
	}()
	vsched.Point(0)
}
