package simrt

import (
	"runtime"
	"unsafe"
)

// Simulated time: nanoseconds since the start of the run. It advances only when
// nothing can run, to the next timer.

// Timer is a pending event of the simulated clock.
type Timer struct {
	when   int64
	seq    uint64
	active bool
	fire   func()
	tok    byte
}

// NowNanos returns the simulated time.
func NowNanos() int64 {
	if sim == nil {
		return 0
	}
	return sim.now
}

// NewTimer arranges for fire to be called when d has passed. fire runs inside
// the scheduler: it must not block.
func NewTimer(d int64, fire func()) *Timer {
	t := &Timer{fire: fire}
	t.Arm(d)
	return t
}

// Arm (re)starts the timer.
func (t *Timer) Arm(d int64) {
	s := sim
	if s == nil || s.aborting {
		return
	}
	if d < 0 {
		d = 0
	}
	RaceRelease(unsafe.Pointer(&t.tok))
	s.tseq++
	t.when, t.seq = s.now+d, s.tseq
	if !t.active {
		t.active = true
		s.timers = append(s.timers, t)
	}
}

// Stop cancels the timer and reports whether it was pending.
func (t *Timer) Stop() bool {
	if !t.active || sim == nil {
		return false
	}
	t.active = false
	var keep []*Timer
	for _, o := range sim.timers {
		if o != t {
			keep = append(keep, o)
		}
	}
	sim.timers = keep
	return true
}

// fireTimers advances the clock to the next timer and fires it.
func (s *simState) fireTimers() bool {
	if len(s.timers) == 0 {
		return false
	}
	var b *Timer
	for _, t := range s.timers {
		if b == nil || t.when < b.when || t.when == b.when && t.seq < b.seq {
			b = t
		}
	}
	b.Stop()
	if b.when > s.now {
		s.now = b.when
	}
	s.stats.Timers++
	if s.stats.Timers > 100_000+s.cfg.Budget/20 {
		s.setFail("budget", "timers keep firing", nil)
		return false
	}
	b.fire()
	return true
}

// Sleep blocks the current task for d simulated nanoseconds.
func Sleep(d int64) {
	s := sim
	if s == nil {
		return
	}
	if s.aborting {
		runtime.Goexit()
	}
	if d <= 0 {
		s.op()
		return
	}
	t := s.cur
	NewTimer(d, func() { t.state = stReady })
	t.what = "sleeping"
	s.park(t)
	t.what = ""
}

// TimerChan delivers *val() on ch after d.
//
//go:norace
func TimerChan[T any](ch chan T, val func() unsafe.Pointer, period int64) *ChanTimer {
	return newChanTimer(handle(ch).cs, val, period)
}

func newChanTimer(c *chanState, val func() unsafe.Pointer, period int64) *ChanTimer {
	ct := &ChanTimer{}
	ct.t = &Timer{fire: func() {
		sim.trySend(c, val(), &ct.t.tok)
		if period > 0 {
			ct.t.Arm(period)
		}
	}}
	return ct
}

// ChanTimer is a timer that sends on a channel.
type ChanTimer struct{ t *Timer }

// Arm (re)starts it.
func (c *ChanTimer) Arm(d int64) { c.t.Arm(d) }

// Stop cancels it.
func (c *ChanTimer) Stop() bool { return c.t.Stop() }

// FuncTimer runs f in a task of its own after d.
type FuncTimer struct {
	t *Timer
	f func()
	k *Task
}

// NewFuncTimer makes a timer that runs f.
func NewFuncTimer(f func()) *FuncTimer {
	ft := &FuncTimer{f: f}
	ft.t = &Timer{fire: func() {
		ft.k.target = true
		ft.k.state = stReady
	}}
	return ft
}

// Arm (re)starts it. The task is created now, so that what precedes the call
// happens before f, and waits for the timer.
func (ft *FuncTimer) Arm(d int64) {
	s := sim
	if s == nil || s.aborting {
		return
	}
	ft.k = s.spawn("timer", false, ft.f)
	ft.k.state = stBlocked
	ft.t.Arm(d)
}

// Stop cancels it.
func (ft *FuncTimer) Stop() bool { return ft.t.Stop() }
