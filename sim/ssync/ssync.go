// Package ssync replaces sync in code under simulation.
package ssync

import (
	"unsafe"

	"verif.local/sim/simrt"
)

// Locker is sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

// Mutex is sync.Mutex under the simulator.
type Mutex struct {
	run    uint64
	locked bool
	tok    byte
}

func (m *Mutex) fresh() {
	if r := simrt.RunID(); m.run != r {
		m.run, m.locked = r, false
	}
}

func (m *Mutex) Lock() {
	if simrt.Aborting() {
		return
	}
	simrt.Op()
	m.fresh()
	for m.locked {
		simrt.BlockOn(unsafe.Pointer(m), "lock")
	}
	m.locked = true
	simrt.RaceAcquire(unsafe.Pointer(&m.tok))
}

func (m *Mutex) TryLock() bool {
	simrt.Op()
	m.fresh()
	if m.locked {
		return false
	}
	m.locked = true
	simrt.RaceAcquire(unsafe.Pointer(&m.tok))
	return true
}

func (m *Mutex) Unlock() {
	if simrt.Aborting() {
		return
	}
	m.fresh()
	if !m.locked {
		simrt.Crash("sync: unlock of unlocked mutex")
	}
	simrt.RaceRelease(unsafe.Pointer(&m.tok))
	m.locked = false
	simrt.Wake(unsafe.Pointer(m))
	simrt.Op()
}

// RWMutex is sync.RWMutex under the simulator.
type RWMutex struct {
	run     uint64
	writer  bool
	readers int
	waiting int // writers waiting: they keep new readers out
	wtok    byte
	rtok    byte
}

func (m *RWMutex) fresh() {
	if r := simrt.RunID(); m.run != r {
		m.run, m.writer, m.readers, m.waiting = r, false, 0, 0
	}
}

func (m *RWMutex) Lock() {
	if simrt.Aborting() {
		return
	}
	simrt.Op()
	m.fresh()
	m.waiting++
	for m.writer || m.readers > 0 {
		simrt.BlockOn(unsafe.Pointer(m), "lock")
	}
	m.waiting--
	m.writer = true
	simrt.RaceAcquire(unsafe.Pointer(&m.wtok))
	simrt.RaceAcquire(unsafe.Pointer(&m.rtok))
}

func (m *RWMutex) TryLock() bool {
	simrt.Op()
	m.fresh()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	simrt.RaceAcquire(unsafe.Pointer(&m.wtok))
	simrt.RaceAcquire(unsafe.Pointer(&m.rtok))
	return true
}

func (m *RWMutex) Unlock() {
	if simrt.Aborting() {
		return
	}
	m.fresh()
	if !m.writer {
		simrt.Crash("sync: Unlock of unlocked RWMutex")
	}
	simrt.RaceRelease(unsafe.Pointer(&m.wtok))
	m.writer = false
	simrt.Wake(unsafe.Pointer(m))
	simrt.Op()
}

func (m *RWMutex) RLock() {
	if simrt.Aborting() {
		return
	}
	simrt.Op()
	m.fresh()
	for m.writer || m.waiting > 0 {
		simrt.BlockOn(unsafe.Pointer(m), "rlock")
	}
	m.readers++
	simrt.RaceAcquire(unsafe.Pointer(&m.wtok))
}

func (m *RWMutex) TryRLock() bool {
	simrt.Op()
	m.fresh()
	if m.writer || m.waiting > 0 {
		return false
	}
	m.readers++
	simrt.RaceAcquire(unsafe.Pointer(&m.wtok))
	return true
}

func (m *RWMutex) RUnlock() {
	if simrt.Aborting() {
		return
	}
	m.fresh()
	if m.readers <= 0 {
		simrt.Crash("sync: RUnlock of unlocked RWMutex")
	}
	simrt.RaceRelease(unsafe.Pointer(&m.rtok))
	m.readers--
	simrt.Wake(unsafe.Pointer(m))
	simrt.Op()
}

// RLocker returns a Locker for the read side.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// WaitGroup is sync.WaitGroup under the simulator.
type WaitGroup struct {
	run uint64
	n   int
	tok byte
}

func (w *WaitGroup) Add(d int) {
	if simrt.Aborting() {
		return
	}
	if r := simrt.RunID(); w.run != r {
		w.run, w.n = r, 0
	}
	if d < 0 {
		simrt.RaceRelease(unsafe.Pointer(&w.tok))
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		simrt.Wake(unsafe.Pointer(w))
	}
	simrt.Op()
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	if simrt.Aborting() {
		return
	}
	simrt.Op()
	for w.run == simrt.RunID() && w.n > 0 {
		simrt.BlockOn(unsafe.Pointer(w), "wait group")
	}
	simrt.RaceAcquire(unsafe.Pointer(&w.tok))
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() {
		defer w.Done()
		f()
	})
}

// Once is sync.Once under the simulator.
type Once struct {
	done bool
	m    Mutex
	tok  byte
}

func (o *Once) Do(f func()) {
	simrt.Op()
	if o.done {
		simrt.RaceAcquire(unsafe.Pointer(&o.tok))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			if simrt.Aborting() {
				return
			}
			o.done = true
			simrt.RaceRelease(unsafe.Pointer(&o.tok))
		}()
		f()
	}
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var (
		o     Once
		valid bool
		p     any
	)
	return func() {
		o.Do(func() {
			defer func() {
				p = recover()
				if !valid {
					panic(p)
				}
			}()
			f()
			f = nil
			valid = true
		})
		if !valid {
			panic(p)
		}
	}
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var v T
	o := OnceFunc(func() { v = f() })
	return func() T { o(); return v }
}

// OnceValues is sync.OnceValues.
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var (
		v T
		u U
	)
	o := OnceFunc(func() { v, u = f() })
	return func() (T, U) { o(); return v, u }
}

// Cond is sync.Cond under the simulator.
type Cond struct {
	L     Locker
	seq   uint64
	woken uint64
	tok   byte
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	c.seq++
	ticket := c.seq
	c.L.Unlock()
	for c.woken < ticket {
		simrt.BlockOn(unsafe.Pointer(c), "condition")
	}
	simrt.RaceAcquire(unsafe.Pointer(&c.tok))
	c.L.Lock()
}

func (c *Cond) Signal() {
	simrt.Op()
	simrt.RaceRelease(unsafe.Pointer(&c.tok))
	if c.woken < c.seq {
		c.woken++
	}
	simrt.Wake(unsafe.Pointer(c))
}

func (c *Cond) Broadcast() {
	simrt.Op()
	simrt.RaceRelease(unsafe.Pointer(&c.tok))
	c.woken = c.seq
	simrt.Wake(unsafe.Pointer(c))
}

// Pool is sync.Pool under the simulator: Get may return any stored item, or a
// new one.
type Pool struct {
	New   func() any
	run   uint64
	items []poolItem
}

type poolItem struct {
	v   any
	tok *byte
}

func (p *Pool) Get() any {
	simrt.Op()
	if r := simrt.RunID(); p.run != r {
		p.run, p.items = r, nil
	}
	if n := len(p.items); n > 0 {
		// Most recent first; the last option is a new item.
		if i := simrt.Draw(n + 1); i < n {
			i = n - 1 - i
			it := p.items[i]
			for j := i; j+1 < n; j++ {
				p.items[j] = p.items[j+1]
			}
			p.items = p.items[:n-1]
			simrt.RaceAcquire(unsafe.Pointer(it.tok))
			return it.v
		}
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(v any) {
	if v == nil || !simrt.Active() || simrt.Aborting() {
		return
	}
	simrt.Op()
	if r := simrt.RunID(); p.run != r {
		p.run, p.items = r, nil
	}
	it := poolItem{v, new(byte)}
	simrt.RaceRelease(unsafe.Pointer(it.tok))
	p.items = append(p.items, it)
}

// Map is sync.Map under the simulator: an atomic map kept in insertion order.
type Map struct {
	e   []mapEntry
	tok byte
}

type mapEntry struct{ k, v any }

func (m *Map) begin() {
	simrt.Op()
	simrt.RaceAcquire(unsafe.Pointer(&m.tok))
}

func (m *Map) end() { simrt.RaceRelease(unsafe.Pointer(&m.tok)) }

func (m *Map) find(k any) int {
	for i := range m.e {
		if m.e[i].k == k {
			return i
		}
	}
	return -1
}

func (m *Map) remove(i int) {
	var e []mapEntry
	for j := range m.e {
		if j != i {
			e = append(e, m.e[j])
		}
	}
	m.e = e
}

func (m *Map) Load(k any) (any, bool) {
	m.begin()
	if i := m.find(k); i >= 0 {
		return m.e[i].v, true
	}
	return nil, false
}

func (m *Map) Store(k, v any) { m.Swap(k, v) }

func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.begin()
	if i := m.find(k); i >= 0 {
		return m.e[i].v, true
	}
	m.e = append(m.e, mapEntry{k, v})
	m.end()
	return v, false
}

func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.begin()
	i := m.find(k)
	if i < 0 {
		return nil, false
	}
	v := m.e[i].v
	m.remove(i)
	m.end()
	return v, true
}

func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

func (m *Map) Swap(k, v any) (any, bool) {
	m.begin()
	defer m.end()
	if i := m.find(k); i >= 0 {
		o := m.e[i].v
		m.e[i].v = v
		return o, true
	}
	m.e = append(m.e, mapEntry{k, v})
	return nil, false
}

func (m *Map) CompareAndSwap(k, old, v any) bool {
	m.begin()
	if i := m.find(k); i >= 0 && m.e[i].v == old {
		m.e[i].v = v
		m.end()
		return true
	}
	return false
}

func (m *Map) CompareAndDelete(k, old any) bool {
	m.begin()
	if i := m.find(k); i >= 0 && m.e[i].v == old {
		m.remove(i)
		m.end()
		return true
	}
	return false
}

func (m *Map) Range(f func(k, v any) bool) {
	m.begin()
	var ks []any
	for i := range m.e {
		ks = append(ks, m.e[i].k)
	}
	for _, k := range ks {
		v, ok := m.Load(k)
		if ok && !f(k, v) {
			return
		}
	}
}

func (m *Map) Clear() {
	m.begin()
	m.e = nil
	m.end()
}
