// Package sync stands in for sync in rewritten packages.
package sync

import (
	rs "sync"
	"unsafe"

	"gxv/sched"
)

type (
	Locker = rs.Locker
	Pool   = rs.Pool
	Map    = rs.Map
)

type Mutex struct{ held bool }

func (m *Mutex) Lock() {
	sched.Point()
	sched.Block(func() bool { return !m.held })
	m.held = true
	sched.Acquire(unsafe.Pointer(m))
	sched.Changed()
}
func (m *Mutex) TryLock() bool {
	sched.Point()
	if m.held {
		return false
	}
	m.held = true
	sched.Acquire(unsafe.Pointer(m))
	sched.Changed()
	return true
}
func (m *Mutex) Unlock() {
	sched.Point()
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	m.held = false
	sched.Release(unsafe.Pointer(m))
	sched.Changed()
}

type RWMutex struct {
	w       bool
	pending int
	r       int
}

func (m *RWMutex) Lock() {
	sched.Point()
	m.pending++
	sched.Block(func() bool { return !m.w && m.r == 0 })
	m.pending--
	m.w = true
	sched.Acquire(unsafe.Pointer(m))
	sched.Changed()
}
func (m *RWMutex) TryLock() bool {
	sched.Point()
	if m.w || m.r != 0 {
		return false
	}
	m.w = true
	sched.Acquire(unsafe.Pointer(m))
	sched.Changed()
	return true
}
func (m *RWMutex) Unlock() {
	sched.Point()
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	sched.Release(unsafe.Pointer(m))
	sched.Changed()
}
func (m *RWMutex) RLock() {
	sched.Point()
	sched.Block(func() bool { return !m.w && m.pending == 0 })
	m.r++
	sched.Acquire(unsafe.Pointer(m))
	sched.Changed()
}
func (m *RWMutex) TryRLock() bool {
	sched.Point()
	if m.w || m.pending > 0 {
		return false
	}
	m.r++
	sched.Acquire(unsafe.Pointer(m))
	sched.Changed()
	return true
}
func (m *RWMutex) RUnlock() {
	sched.Point()
	if m.r == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	sched.Release(unsafe.Pointer(m))
	sched.Changed()
}
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

type WaitGroup struct{ n int }

func (w *WaitGroup) Add(d int) {
	sched.Point()
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	sched.Release(unsafe.Pointer(w))
	sched.Changed()
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	sched.Point()
	sched.Block(func() bool { return w.n == 0 })
	sched.Acquire(unsafe.Pointer(w))
}
