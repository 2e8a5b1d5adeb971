// Package vsync stands in for package sync in instrumented packages: locks are scheduling points, and waiting
// for one lets other goroutines go on.  The real locks are still taken, so that the race detector sees them.
package vsync

import (
	"sync"
	"sync/atomic"
	"unsafe"

	"github.com/datawire/ocibuild/verifmc/vsched"
)

type (
	Locker    = sync.Locker
	WaitGroup = sync.WaitGroup
	Map       = sync.Map
	Pool      = sync.Pool
	Cond      = sync.Cond
)

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

type Mutex struct {
	real sync.Mutex
	held bool
}

//go:norace
func (m *Mutex) acquire() {
	vsched.Point()
	for m.held {
		vsched.Block(unsafe.Pointer(m))
	}
	m.held = true
}

//go:norace
func (m *Mutex) try() bool {
	vsched.Point()
	if m.held {
		return false
	}
	m.held = true
	return true
}

//go:norace
func (m *Mutex) release() {
	m.held = false
	vsched.Wake(unsafe.Pointer(m))
}

func (m *Mutex) Lock() {
	if vsched.Active() {
		m.acquire()
	}
	if !vsched.Aborted() {
		m.real.Lock()
	}
}

func (m *Mutex) TryLock() bool {
	if vsched.Active() && !m.try() {
		return false
	}
	return m.real.TryLock()
}

func (m *Mutex) Unlock() {
	if vsched.Aborted() {
		return
	}
	m.real.Unlock()
	m.release()
}

type RWMutex struct {
	real    sync.RWMutex
	writer  bool
	readers int
	waiting int // writers that wait: new readers have to wait for them
}

//go:norace
func (m *RWMutex) acquire() {
	vsched.Point()
	for m.writer || m.readers > 0 {
		m.waiting++
		vsched.Block(unsafe.Pointer(m))
		m.waiting--
	}
	m.writer = true
}

//go:norace
func (m *RWMutex) racquire() {
	vsched.Point()
	for m.writer || m.waiting > 0 {
		vsched.Block(unsafe.Pointer(m))
	}
	m.readers++
}

//go:norace
func (m *RWMutex) release() {
	m.writer = false
	vsched.Wake(unsafe.Pointer(m))
}

//go:norace
func (m *RWMutex) rrelease() {
	if m.readers > 0 {
		m.readers--
	}
	vsched.Wake(unsafe.Pointer(m))
}

func (m *RWMutex) Lock() {
	if vsched.Active() {
		m.acquire()
	}
	if !vsched.Aborted() {
		m.real.Lock()
	}
}

func (m *RWMutex) Unlock() {
	if vsched.Aborted() {
		return
	}
	m.real.Unlock()
	m.release()
}

func (m *RWMutex) RLock() {
	if vsched.Active() {
		m.racquire()
	}
	if !vsched.Aborted() {
		m.real.RLock()
	}
}

func (m *RWMutex) RUnlock() {
	if vsched.Aborted() {
		return
	}
	m.real.RUnlock()
	m.rrelease()
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Once struct {
	m    Mutex
	done uint32
}

func (o *Once) Do(f func()) {
	if atomic.LoadUint32(&o.done) == 0 {
		o.m.Lock()
		defer o.m.Unlock()
		if o.done == 0 {
			defer atomic.StoreUint32(&o.done, 1)
			f()
		}
	}
}
