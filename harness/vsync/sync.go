// Package vsync stands in for package sync in the code under test.  Outside an
// exploration its types behave like sync's; inside one, every operation that
// may block is a scheduling point of the exploring scheduler (sched.go), which
// alone decides who goes on.  The scheduler's own hand-overs are hidden from
// the race detector, which so sees exactly the orderings that the code's
// synchronisation establishes.
package vsync

import (
	"sync"
	"unsafe"
)

type (
	Locker = sync.Locker
	Pool   = sync.Pool
	Map    = sync.Map
	Cond   = sync.Cond
)

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

// Mutex is sync.Mutex.
type Mutex struct {
	real sync.Mutex
	held bool
	addr byte
}

//go:norace
func (m *Mutex) Lock() {
	if !active() {
		m.real.Lock()
		return
	}
	await(opLock, unsafe.Pointer(m), &m.held, nil, nil)
	raceAcquire(unsafe.Pointer(&m.addr))
}

//go:norace
func (m *Mutex) TryLock() bool {
	if !active() {
		return m.real.TryLock()
	}
	await(opPoint, nil, nil, nil, nil)
	if m.held {
		return false
	}
	m.held = true
	raceAcquire(unsafe.Pointer(&m.addr))
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	if !active() {
		m.real.Unlock()
		return
	}
	if !m.held {
		if aborting() {
			return
		}
		panic("sync: unlock of unlocked mutex")
	}
	raceRelease(unsafe.Pointer(&m.addr))
	m.held = false
}

// RWMutex is sync.RWMutex; like there, a waiting writer keeps new readers out.
type RWMutex struct {
	real    sync.RWMutex
	held    bool
	readers int
	writers int // waiting
	r, w    byte
}

//go:norace
func (m *RWMutex) Lock() {
	if !active() {
		m.real.Lock()
		return
	}
	await(opWLock, unsafe.Pointer(m), &m.held, &m.readers, &m.writers)
	raceAcquire(unsafe.Pointer(&m.r))
	raceAcquire(unsafe.Pointer(&m.w))
}

//go:norace
func (m *RWMutex) TryLock() bool {
	if !active() {
		return m.real.TryLock()
	}
	await(opPoint, nil, nil, nil, nil)
	if m.held || m.readers > 0 {
		return false
	}
	m.held = true
	raceAcquire(unsafe.Pointer(&m.r))
	raceAcquire(unsafe.Pointer(&m.w))
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	if !active() {
		m.real.Unlock()
		return
	}
	if !m.held {
		if aborting() {
			return
		}
		panic("sync: Unlock of unlocked RWMutex")
	}
	raceRelease(unsafe.Pointer(&m.r))
	m.held = false
}

//go:norace
func (m *RWMutex) RLock() {
	if !active() {
		m.real.RLock()
		return
	}
	await(opRLock, unsafe.Pointer(m), &m.held, &m.readers, &m.writers)
	raceAcquire(unsafe.Pointer(&m.r))
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	if !active() {
		return m.real.TryRLock()
	}
	await(opPoint, nil, nil, nil, nil)
	if m.held || m.writers > 0 {
		return false
	}
	m.readers++
	raceAcquire(unsafe.Pointer(&m.r))
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	if !active() {
		m.real.RUnlock()
		return
	}
	if m.readers <= 0 {
		if aborting() {
			return
		}
		panic("sync: RUnlock of unlocked RWMutex")
	}
	raceReleaseMerge(unsafe.Pointer(&m.w))
	m.readers--
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker is sync.RWMutex.RLocker.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup is sync.WaitGroup.
type WaitGroup struct{ wg sync.WaitGroup }

func (w *WaitGroup) Add(n int) { w.wg.Add(n) }
func (w *WaitGroup) Done()     { w.wg.Done() }
func (w *WaitGroup) Wait()     { Point(); w.wg.Wait() }
func (w *WaitGroup) Go(f func()) {
	w.wg.Add(1)
	Go(func() {
		defer w.wg.Done()
		f()
	})
}

// Once is sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if o.done {
		return
	}
	defer func() { o.done = true }()
	f()
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}
