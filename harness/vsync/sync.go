// Package verifsync stands in for package sync in the code under test: acquiring a mutex asks the scheduler first, if there is one.
package verifsync

import (
	"sync"
	"sync/atomic"
)

// Hook acquires a lock by means of try, waiting as it sees fit.
type Hook struct {
	Lock   func(try func() bool)
	Unlock func()
}

var hook atomic.Pointer[Hook]

func SetHook(h *Hook) { hook.Store(h) }

func acquire(try func() bool, lock func()) {
	if h := hook.Load(); h != nil {
		h.Lock(try)
		return
	}
	lock()
}

func released() {
	if h := hook.Load(); h != nil {
		h.Unlock()
	}
}

type Mutex struct{ m sync.Mutex }

func (m *Mutex) Lock()         { acquire(m.m.TryLock, m.m.Lock) }
func (m *Mutex) Unlock()       { m.m.Unlock(); released() }
func (m *Mutex) TryLock() bool { return m.m.TryLock() }

type RWMutex struct{ m sync.RWMutex }

func (m *RWMutex) Lock()          { acquire(m.m.TryLock, m.m.Lock) }
func (m *RWMutex) Unlock()        { m.m.Unlock(); released() }
func (m *RWMutex) RLock()         { acquire(m.m.TryRLock, m.m.RLock) }
func (m *RWMutex) RUnlock()       { m.m.RUnlock(); released() }
func (m *RWMutex) TryLock() bool  { return m.m.TryLock() }
func (m *RWMutex) TryRLock() bool { return m.m.TryRLock() }
func (m *RWMutex) RLocker() Locker {
	return (*rlocker)(m)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type (
	Locker    = sync.Locker
	WaitGroup = sync.WaitGroup
	Once      = sync.Once
	Map       = sync.Map
	Pool      = sync.Pool
	Cond      = sync.Cond
)

func NewCond(l Locker) *Cond                             { return sync.NewCond(l) }
func OnceFunc(f func()) func()                           { return sync.OnceFunc(f) }
func OnceValue[T any](f func() T) func() T               { return sync.OnceValue(f) }
func OnceValues[A, B any](f func() (A, B)) func() (A, B) { return sync.OnceValues(f) }
