// Package sync stands in for the standard package in the concurrent replay
// build: its locks give other goroutines a chance before every acquisition,
// so that few runs suffice to meet a schedule found by the solver.
package sync

import (
	"math/rand"
	"runtime"
	rs "sync"
)

func yield() {
	for n := rand.Intn(4); n > 0; n-- {
		runtime.Gosched()
	}
}

type (
	Once      = rs.Once
	WaitGroup = rs.WaitGroup
	Pool      = rs.Pool
	Cond      = rs.Cond
	Map       = rs.Map
	Locker    = rs.Locker
)

func NewCond(l Locker) *Cond { return rs.NewCond(l) }

type Mutex struct{ m rs.Mutex }

func (m *Mutex) Lock()         { yield(); m.m.Lock() }
func (m *Mutex) Unlock()       { m.m.Unlock() }
func (m *Mutex) TryLock() bool { yield(); return m.m.TryLock() }

type RWMutex struct{ m rs.RWMutex }

func (m *RWMutex) Lock()           { yield(); m.m.Lock() }
func (m *RWMutex) Unlock()         { m.m.Unlock() }
func (m *RWMutex) TryLock() bool   { yield(); return m.m.TryLock() }
func (m *RWMutex) RLock()          { yield(); m.m.RLock() }
func (m *RWMutex) RUnlock()        { m.m.RUnlock() }
func (m *RWMutex) TryRLock() bool  { yield(); return m.m.TryRLock() }
func (m *RWMutex) RLocker() Locker { return m.m.RLocker() }
