package simrt

import (
	"reflect"
	"runtime"
	"unsafe"
)

// Simulated channels. The code under test still makes real channels; they only
// serve as identities. Their contents and waiters live in a chanState.

type chanItem struct {
	val unsafe.Pointer
	tok *byte // released by the sender
}

type chanState struct {
	key      unsafe.Pointer
	keep     any // the real channel, kept alive so that its address stays unique
	capacity int
	buf      []chanItem
	slots    []*byte // released by the receivers that freed the buffer's slots
	sent     uint64
	recvd    uint64
	recvq    []*wcase
	sendq    []*wcase
	closed   bool
	was      bool // closed before the simulation
	closeTok byte
}

// wcase is one channel operation a task waits for.
type wcase struct {
	cs   *chanState
	send bool
	val  unsafe.Pointer
	ok   bool
	task *Task
	idx  int
	tok  byte // released by the waiter before it waits
	ack  byte // released by the one who completes the operation
}

type rtError string

func (e rtError) Error() string { return string(e) }
func (e rtError) RuntimeError() {}

func (s *simState) lookup(key unsafe.Pointer) *chanState {
	if len(s.table) == 0 {
		return nil
	}
	m := uintptr(len(s.table) - 1)
	for i := (uintptr(key) >> 4) * 0x9e3779b1 & m; ; i = (i + 1) & m {
		c := s.table[i]
		if c == nil || c.key == key {
			return c
		}
	}
}

func (s *simState) insert(c *chanState) {
	if (s.nchans+1)*2 > len(s.table) {
		old := s.table
		n := 2 * len(old)
		if n < 64 {
			n = 64
		}
		s.table = make([]*chanState, n)
		for _, o := range old {
			if o != nil {
				s.put(o)
			}
		}
	}
	s.nchans++
	s.put(c)
}

func (s *simState) put(c *chanState) {
	m := uintptr(len(s.table) - 1)
	i := (uintptr(c.key) >> 4) * 0x9e3779b1 & m
	for s.table[i] != nil {
		i = (i + 1) & m
	}
	s.table[i] = c
}

// Chan is a handle on a channel.
type Chan[T any] struct {
	ch chan T
	cs *chanState
}

// S returns a handle for sending on ch.
//
//go:norace
func S[T any](ch chan<- T) Chan[T] { return handle(*(*chan T)(unsafe.Pointer(&ch))) }

// R returns a handle for receiving from ch.
//
//go:norace
func R[T any](ch <-chan T) Chan[T] { return handle(*(*chan T)(unsafe.Pointer(&ch))) }

//go:norace
func handle[T any](ch chan T) Chan[T] {
	if ch == nil || sim == nil {
		return Chan[T]{ch: ch}
	}
	key := *(*unsafe.Pointer)(unsafe.Pointer(&ch))
	cs := sim.lookup(key)
	if cs == nil {
		cs = &chanState{key: key, keep: ch, capacity: cap(ch)}
		sim.insert(cs)
		// Take over what happened to the channel before the simulation.
		raceDisable()
		for n := len(ch); n > 0; n-- {
			v := <-ch
			ch <- v
			p := new(T)
			*p = v
			cs.push(unsafe.Pointer(p))
		}
		if cap(ch) == 0 || len(ch) == 0 {
			select {
			case _, ok := <-ch:
				cs.closed = !ok
				cs.was = !ok
			default:
			}
		}
		raceEnable()
	}
	return Chan[T]{ch: ch, cs: cs}
}

// export leaves the state of the channels in the real ones, for the next
// simulation to take over: those that package variables hold live on. What is
// in them stays there only if the simulation ended with nothing going on.
func (s *simState) export(clean bool) {
	for _, c := range s.table {
		if c == nil {
			continue
		}
		ch := reflect.ValueOf(c.keep)
		if c.capacity > 0 && clean && (len(c.buf) > 0 || ch.Len() > 0) {
			for ch.Len() > 0 {
				ch.Recv()
			}
			for _, it := range c.buf {
				ch.Send(reflect.NewAt(ch.Type().Elem(), it.val).Elem())
			}
		}
		if c.closed && !c.was {
			ch.Close()
		}
	}
}

func (c *chanState) push(val unsafe.Pointer) {
	it := chanItem{val: val, tok: new(byte)}
	if n := c.sent; n >= uint64(c.capacity) && len(c.slots) > 0 {
		RaceAcquire(unsafe.Pointer(c.slots[0]))
		c.slots = c.slots[1:]
	}
	c.sent++
	RaceRelease(unsafe.Pointer(it.tok))
	c.buf = append(c.buf, it)
}

func (c *chanState) pop() unsafe.Pointer {
	it := c.buf[0]
	c.buf = c.buf[1:]
	c.recvd++
	RaceAcquire(unsafe.Pointer(it.tok))
	t := new(byte)
	RaceRelease(unsafe.Pointer(t))
	c.slots = append(c.slots, t)
	return it.val
}

func dequeue(q *[]*wcase) *wcase {
	if len(*q) == 0 {
		return nil
	}
	w := (*q)[0]
	*q = (*q)[1:]
	return w
}

func without(q []*wcase, t *Task) []*wcase {
	out := q[:0:0]
	for _, w := range q {
		if w.task != t {
			out = append(out, w)
		}
	}
	return out
}

// complete finishes the waiting operation w and makes its task ready.
func (s *simState) complete(w *wcase) {
	RaceRelease(unsafe.Pointer(&w.ack))
	t := w.task
	for _, o := range t.cases {
		if o.cs == nil {
			continue
		}
		if o.send {
			o.cs.sendq = without(o.cs.sendq, t)
		} else {
			o.cs.recvq = without(o.cs.recvq, t)
		}
	}
	t.cases = nil
	t.fired = w
	t.state = stReady
}

func (w *wcase) ready() bool {
	c := w.cs
	if c == nil {
		return false
	}
	if w.send {
		return c.closed || len(c.recvq) > 0 || len(c.buf) < c.capacity
	}
	return c.closed || len(c.buf) > 0 || len(c.sendq) > 0
}

// perform executes an operation that is ready.
func (s *simState) perform(w *wcase) {
	c := w.cs
	if w.send {
		if c.closed {
			panic(rtError("send on closed channel"))
		}
		if r := dequeue(&c.recvq); r != nil {
			RaceAcquire(unsafe.Pointer(&r.tok))
			r.val, r.ok = w.val, true
			s.complete(r)
			return
		}
		c.push(w.val)
		return
	}
	if len(c.buf) > 0 {
		w.val, w.ok = c.pop(), true
		if o := dequeue(&c.sendq); o != nil {
			// The waiting sender's value enters the freed slot.
			it := chanItem{val: o.val, tok: &o.tok}
			c.buf = append(c.buf, it)
			c.sent++
			o.ok = true
			s.complete(o)
		}
		return
	}
	if o := dequeue(&c.sendq); o != nil {
		RaceAcquire(unsafe.Pointer(&o.tok))
		w.val, w.ok = o.val, true
		o.ok = true
		s.complete(o)
		return
	}
	RaceAcquire(unsafe.Pointer(&c.closeTok))
	w.val, w.ok = nil, false
}

// wait performs one of the operations, waiting for it if need be. It returns its
// index, or -1 if none is ready and there is a default.
func (s *simState) wait(cases []*wcase, hasDefault bool, what string) int {
	if s.aborting {
		runtime.Goexit()
	}
	s.stats.ChanOps++
	s.op()
	n := 0
	for _, w := range cases {
		if w.ready() {
			n++
		}
	}
	if n > 0 {
		k := s.decide(n, func() int { return s.rng.Intn(n) })
		for i, w := range cases {
			if w.ready() {
				if k == 0 {
					s.perform(w)
					return i
				}
				k--
			}
		}
	}
	if hasDefault {
		return -1
	}
	t := s.cur
	for i, w := range cases {
		w.task, w.idx = t, i
		if w.cs == nil {
			continue
		}
		RaceRelease(unsafe.Pointer(&w.tok))
		if w.send {
			w.cs.sendq = append(w.cs.sendq, w)
		} else {
			w.cs.recvq = append(w.cs.recvq, w)
		}
	}
	t.cases = cases
	t.what = what
	s.park(t)
	t.what = ""
	w := t.fired
	t.fired = nil
	RaceAcquire(unsafe.Pointer(&w.ack))
	if w.send && !w.ok {
		panic(rtError("send on closed channel"))
	}
	return w.idx
}

func (s *simState) closeChan(c *chanState) {
	if s.aborting {
		return
	}
	s.stats.ChanOps++
	s.op()
	if c.closed {
		panic(rtError("close of closed channel"))
	}
	c.closed = true
	RaceRelease(unsafe.Pointer(&c.closeTok))
	for {
		w := dequeue(&c.recvq)
		if w == nil {
			break
		}
		w.val, w.ok = nil, false
		s.complete(w)
	}
	for {
		w := dequeue(&c.sendq)
		if w == nil {
			break
		}
		w.ok = false
		s.complete(w)
	}
}

// Send sends v.
//
//go:norace
func (c Chan[T]) Send(v T) {
	if sim == nil {
		c.ch <- v
		return
	}
	p := new(T)
	*p = v
	w := &wcase{cs: c.cs, send: true, val: unsafe.Pointer(p)}
	sim.wait([]*wcase{w}, false, "sending")
}

// Recv receives a value.
//
//go:norace
func (c Chan[T]) Recv() T {
	v, _ := c.Recv2()
	return v
}

// Recv2 receives a value and reports whether the channel is still open.
//
//go:norace
func (c Chan[T]) Recv2() (v T, ok bool) {
	if sim == nil {
		v, ok = <-c.ch
		return
	}
	w := &wcase{cs: c.cs}
	sim.wait([]*wcase{w}, false, "receiving")
	if w.val != nil {
		v = *(*T)(w.val)
	}
	return v, w.ok
}

// Zero returns the zero value of the channel's elements.
//
//go:norace
func (c Chan[T]) Zero() (v T) { return }

// Close closes the channel.
//
//go:norace
func (c Chan[T]) Close() {
	if sim == nil || c.ch == nil {
		close(c.ch)
		return
	}
	sim.closeChan(c.cs)
}

// Len returns the number of buffered elements.
//
//go:norace
func (c Chan[T]) Len() int {
	if sim == nil || c.ch == nil {
		return len(c.ch)
	}
	return len(c.cs.buf)
}

// Case is one case of a select statement.
type Case interface{ waitCase() *wcase }

// SelCase is a case with elements of type T.
type SelCase[T any] struct {
	w wcase
}

//go:norace
func (c *SelCase[T]) waitCase() *wcase { return &c.w }

// SendCase returns a case that sends v.
//
//go:norace
func (c Chan[T]) SendCase(v T) *SelCase[T] {
	p := new(T)
	*p = v
	return &SelCase[T]{w: wcase{cs: c.cs, send: true, val: unsafe.Pointer(p)}}
}

// RecvCase returns a case that receives.
//
//go:norace
func (c Chan[T]) RecvCase() *SelCase[T] {
	return &SelCase[T]{w: wcase{cs: c.cs}}
}

// Val returns the value received.
//
//go:norace
func (c *SelCase[T]) Val() (v T) {
	if c.w.val != nil {
		v = *(*T)(c.w.val)
	}
	return
}

// Val2 returns the value received and whether the channel was open.
//
//go:norace
func (c *SelCase[T]) Val2() (T, bool) { return c.Val(), c.w.ok }

// Select performs one of the cases.
func Select(hasDefault bool, cases ...Case) int {
	s := sim
	if s == nil {
		panic("simrt: select outside the simulation")
	}
	ws := make([]*wcase, len(cases))
	for i, c := range cases {
		ws[i] = c.waitCase()
	}
	return s.wait(ws, hasDefault, "select")
}

// trySend delivers a value from the simulator itself (a timer), or drops it.
func (s *simState) trySend(c *chanState, val unsafe.Pointer, tok *byte) {
	if c == nil || c.closed {
		return
	}
	if r := dequeue(&c.recvq); r != nil {
		r.val, r.ok = val, true
		s.complete(r)
		return
	}
	if len(c.buf) < c.capacity {
		c.sent++
		c.buf = append(c.buf, chanItem{val: val, tok: tok})
	}
}
