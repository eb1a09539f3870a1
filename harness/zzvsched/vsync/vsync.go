// Package vsync stands in for package sync in instrumented code.
package vsync

import (
	"sync"

	zz "github.com/spacemonkeygo/monkit/v3/zzvsched"
)

type (
	Locker = sync.Locker
	Pool   = sync.Pool
)

type Mutex struct {
	real sync.Mutex
	held bool
}

func (m *Mutex) Lock() {
	if zz.S == nil {
		m.real.Lock()
		return
	}
	zz.Sync()
	for m.held {
		zz.Block(m)
	}
	m.held = true
}

func (m *Mutex) TryLock() bool {
	if zz.S == nil {
		return m.real.TryLock()
	}
	zz.Sync()
	if m.held {
		return false
	}
	m.held = true
	return true
}

func (m *Mutex) Unlock() {
	if zz.S == nil {
		m.real.Unlock()
		return
	}
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	m.held = false
	zz.Wake(m)
	zz.Sync()
}

type RWMutex struct {
	real    sync.RWMutex
	w       bool
	readers int
}

func (m *RWMutex) Lock() {
	if zz.S == nil {
		m.real.Lock()
		return
	}
	zz.Sync()
	for m.w || m.readers > 0 {
		zz.Block(m)
	}
	m.w = true
}

func (m *RWMutex) TryLock() bool {
	if zz.S == nil {
		return m.real.TryLock()
	}
	zz.Sync()
	if m.w || m.readers > 0 {
		return false
	}
	m.w = true
	return true
}

func (m *RWMutex) Unlock() {
	if zz.S == nil {
		m.real.Unlock()
		return
	}
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	zz.Wake(m)
	zz.Sync()
}

func (m *RWMutex) RLock() {
	if zz.S == nil {
		m.real.RLock()
		return
	}
	zz.Sync()
	for m.w {
		zz.Block(m)
	}
	m.readers++
}

func (m *RWMutex) TryRLock() bool {
	if zz.S == nil {
		return m.real.TryRLock()
	}
	zz.Sync()
	if m.w {
		return false
	}
	m.readers++
	return true
}

func (m *RWMutex) RUnlock() {
	if zz.S == nil {
		m.real.RUnlock()
		return
	}
	if m.readers == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	zz.Wake(m)
	zz.Sync()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once has the same stack shape as sync.Once (Do, doSlow, f), because callers
// are counted through it.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	zz.Sync()
	if !o.done {
		o.doSlow(f)
	}
}

//go:noinline
func (o *Once) doSlow(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) {
		o.Do(func() { v1, v2 = f() })
		return v1, v2
	}
}

type WaitGroup struct {
	real sync.WaitGroup
	n    int
}

func (w *WaitGroup) Add(d int) {
	if zz.S == nil {
		w.real.Add(d)
		return
	}
	zz.Sync()
	w.n += d
	if w.n == 0 {
		zz.Wake(w)
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	if zz.S == nil {
		w.real.Wait()
		return
	}
	zz.Sync()
	for w.n > 0 {
		zz.Block(w)
	}
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	zz.Go(func() { defer w.Done(); f() })
}

type Cond struct {
	L    Locker
	real *sync.Cond
	seq  int
}

func NewCond(l Locker) *Cond { return &Cond{L: l, real: sync.NewCond(l)} }
func (c *Cond) Wait() {
	if zz.S == nil {
		c.real.Wait()
		return
	}
	seq := c.seq
	c.L.Unlock()
	for c.seq == seq {
		zz.Block(c)
	}
	c.L.Lock()
}
func (c *Cond) Signal() { c.Broadcast() }
func (c *Cond) Broadcast() {
	if zz.S == nil {
		c.real.Broadcast()
		return
	}
	c.seq++
	zz.Wake(c)
	zz.Sync()
}

// Map wraps sync.Map with scheduling points.
type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool)           { zz.Sync(); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { zz.Sync(); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { zz.Sync(); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { zz.Sync(); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { zz.Sync(); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { zz.Sync(); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool  { zz.Sync(); return m.m.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o any) bool   { zz.Sync(); return m.m.CompareAndDelete(k, o) }
func (m *Map) Range(f func(k, v any) bool) {
	zz.Sync()
	m.m.Range(func(k, v any) bool { zz.Sync(); return f(k, v) })
}
