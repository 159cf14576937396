// Package verifsched is added to the module under test by the checks' build
// overlay; it isn't part of the repository. Instrumented statements call Y
// before they run, which lets the harness count, delay and reorder them.
package verifsched

import "sync"

// Site describes one instrumented statement.
type Site struct {
	File string
	Line int
	Func string
}

// Sites is the table of instrumented statements, by site number.
var Sites []Site

// Hook, if not nil, is called in front of every instrumented statement. It
// must be set before any code under test runs, and not changed afterwards.
var Hook func(site int)

// Y is called in front of every instrumented statement.
func Y(site int) {
	if Hook != nil {
		Hook(site)
	}
}

// RWMutex stands in for sync.RWMutex. Goroutines that wait for it are blocked
// on a channel, which testing/synctest recognises, so that a delay injected
// in a critical section or a lock that is never released shows up in virtual
// time rather than hanging the run.
type RWMutex struct {
	mu      sync.Mutex
	writer  bool
	readers int
	waiters []chan struct{}
}

func (m *RWMutex) acquire(try bool, ok func() bool, take func()) bool {
	for {
		m.mu.Lock()
		if ok() {
			take()
			m.mu.Unlock()
			return true
		}
		if try {
			m.mu.Unlock()
			return false
		}
		ch := make(chan struct{})
		m.waiters = append(m.waiters, ch)
		m.mu.Unlock()
		<-ch
	}
}

func (m *RWMutex) wake() {
	for _, ch := range m.waiters {
		close(ch)
	}
	m.waiters = nil
}

// Lock is like sync.RWMutex.Lock.
func (m *RWMutex) Lock() { m.lock(false) }

// TryLock is like sync.RWMutex.TryLock.
func (m *RWMutex) TryLock() bool { return m.lock(true) }

func (m *RWMutex) lock(try bool) bool {
	return m.acquire(try,
		func() bool { return !m.writer && m.readers == 0 },
		func() { m.writer = true })
}

// Unlock is like sync.RWMutex.Unlock.
func (m *RWMutex) Unlock() {
	m.mu.Lock()
	defer m.mu.Unlock()
	if !m.writer {
		panic("sync: unlock of unlocked mutex")
	}
	m.writer = false
	m.wake()
}

// RLock is like sync.RWMutex.RLock.
func (m *RWMutex) RLock() { m.rlock(false) }

// TryRLock is like sync.RWMutex.TryRLock.
func (m *RWMutex) TryRLock() bool { return m.rlock(true) }

func (m *RWMutex) rlock(try bool) bool {
	return m.acquire(try,
		func() bool { return !m.writer },
		func() { m.readers++ })
}

// RUnlock is like sync.RWMutex.RUnlock.
func (m *RWMutex) RUnlock() {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.readers == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	if m.readers == 0 {
		m.wake()
	}
}

// RLocker is like sync.RWMutex.RLocker.
func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Mutex stands in for sync.Mutex.
type Mutex struct{ rw RWMutex }

// Lock is like sync.Mutex.Lock.
func (m *Mutex) Lock() { m.rw.Lock() }

// TryLock is like sync.Mutex.TryLock.
func (m *Mutex) TryLock() bool { return m.rw.TryLock() }

// Unlock is like sync.Mutex.Unlock.
func (m *Mutex) Unlock() { m.rw.Unlock() }

// Once stands in for sync.Once.
type Once struct {
	m    Mutex
	done bool
}

// Do is like sync.Once.Do.
func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc is like sync.OnceFunc.
func OnceFunc(f func()) func() {
	g := OnceValue(func() struct{} {
		f()
		return struct{}{}
	})
	return func() { g() }
}

// OnceValue is like sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var (
		once  Once
		valid bool
		p     any
		value T
	)
	g := func() {
		defer func() {
			p = recover()
			if !valid {
				panic(p)
			}
		}()
		value = f()
		valid = true
	}
	return func() T {
		once.Do(g)
		if !valid {
			panic(p)
		}
		return value
	}
}

// OnceValues is like sync.OnceValues.
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	type both struct {
		t T
		u U
	}
	g := OnceValue(func() both {
		t, u := f()
		return both{t, u}
	})
	return func() (T, U) {
		b := g()
		return b.t, b.u
	}
}
