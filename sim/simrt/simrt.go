// Package simrt is the simulator: one process, many tasks, exactly one of which
// runs at any instant. Code rewritten by /verif/instr calls into it at every
// statement, goroutine start, channel operation, lock, clock read and map
// iteration; a single seeded generator decides what happens there.
//
// The package is compiled without race instrumentation and hands control from
// task to task with the race detector's synchronisation tracking switched off,
// so that the simulator's own hand-offs create no happens-before edges: in a
// race build the detector sees exactly the ordering that the simulated channel
// operations and locks establish. For the same reason it keeps no Go maps
// (their run-time functions report accesses even from uninstrumented code).
package simrt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
	"unsafe"
)

// Task states.
const (
	stReady = iota
	stRunning
	stBlocked
	stDone
)

// Task is one simulated thread.
type Task struct {
	id      int
	name    string
	target  bool // started by the code under test
	gate    chan struct{}
	state   int
	prio    int
	waitKey unsafe.Pointer // lock or condition waited on
	cases   []*wcase       // channel operations waited on
	fired   *wcase
	quiesce bool
	endTok  byte
	tag     int    // inherited by the tasks it starts
	what    string // description of what it is blocked on
}

// ID returns the task's number in order of creation.
func (t *Task) ID() int { return t.id }

// Done reports whether the task has finished.
func (t *Task) Done() bool { return t.state == stDone }

// Choice is one recorded non-default decision: at decision point P, take V.
type Choice struct {
	P uint64 `json:"p"`
	V int    `json:"v"`
}

// Failure is what stopped a run.
type Failure struct {
	Kind string `json:"kind"` // crash, budget, deadlock, race, check
	Msg  string `json:"msg"`
}

// Scheduling policies.
const (
	PolicyRandom = iota // preempt at random statements
	PolicyPCT           // priorities with a few change points
	PolicySerial        // run each task until it blocks
)

// Config configures one run.
type Config struct {
	Seed     uint64
	Budget   uint64 // statements executed before the run counts as hung
	Policy   int
	MeanGap  int     // PolicyRandom: mean number of statements between preemptions
	OpSwitch float64 // probability of a switch at a channel or lock operation
	Depth    int     // PolicyPCT: number of priority change points
	Horizon  uint64  // PolicyPCT: range of the change points
	CPUs     int     // processors the code under test believes it has
	Holds    int     // times the whole process is held up while its clock goes on
	MapOrder bool    // permute map iteration (otherwise sorted order)
	Replay   bool
	Trace    []Choice // decisions to replay; others take the default
	Log      bool
}

// Stats are measured on the run.
type Stats struct {
	Steps, Points, Switches, ChanOps, Maps, Spawns, Timers, Held uint64
	SimTime                                                      int64 // simulated nanoseconds
}

// Result of a run.
type Result struct {
	Fail  *Failure
	Trace []Choice
	Stats Stats
	Hash  uint64 // hash of all decisions, switches and events
	Log   []LogEntry
	Races int
}

// LogEntry is one line of the event log.
type LogEntry struct {
	Step uint64
	Time int64
	Task int
	Kind string
	A, B int
}

type simState struct {
	cfg      Config
	rng      Rand
	tasks    []*Task
	cur      *Task
	root     *Task
	stats    Stats
	point    uint64 // decision points passed
	nextP    uint64 // next decision point at which something happens at a statement
	polP     uint64 // next one at which the policy may preempt it
	holds    []uint64
	trace    []Choice
	ti       int
	rec      []Choice
	now      int64
	timers   []*Timer
	tseq     uint64
	pcts     []uint64
	lowPrio  int
	aborting bool
	fail     *Failure
	ctl      chan struct{}
	hash     uint64
	log      []LogEntry
	seq      int
	nextID   int
	scratch  []*Task
	table    []*chanState
	nchans   int
	run      uint64
}

var (
	sim  *simState
	runs uint64
)

const never = ^uint64(0)

// Active reports whether a simulation is running.
func Active() bool { return sim != nil }

// Run executes main as task 0 under the simulator and returns when main and all
// tasks have finished or can never run again.
func Run(cfg Config, main func()) *Result {
	if sim != nil {
		panic("simrt: nested Run")
	}
	if cfg.Budget == 0 {
		cfg.Budget = 2_000_000
	}
	s := &simState{cfg: cfg, rng: Rand{s: cfg.Seed}, trace: cfg.Trace, ctl: make(chan struct{}), hash: 14695981039346656037}
	s.nextP, s.polP = never, never
	runs++
	s.run = runs
	if !cfg.Replay {
		s.trace = nil
		switch cfg.Policy {
		case PolicyRandom:
			s.polP = s.gap()
		case PolicyPCT:
			h := cfg.Horizon
			if h == 0 {
				h = 2000
			}
			for i := 0; i < cfg.Depth; i++ {
				s.pcts = append(s.pcts, 1+s.rng.Uint64()%h)
			}
			sortPoints(s.pcts)
			s.pctArm()
		}
		for i := 0; i < cfg.Holds; i++ {
			s.holds = append(s.holds, 1+s.rng.Uint64()%(8<<uint(s.rng.Intn(14))))
		}
		sortPoints(s.holds)
		s.next()
	} else {
		s.arm()
	}
	races := raceErrors()
	sim = s
	s.root = s.spawn("main", false, main)
	for _, f := range pending {
		s.spawn("target", true, f)
	}
	pending = nil
	// Start the root task and wait until the simulation is over.
	s.cur = s.root
	s.root.state = stRunning
	poolTask(s.run, s.root)
	raceDisable()
	s.root.gate <- struct{}{}
	<-s.ctl
	if s.fail == nil && s.root.state != stDone {
		s.cur = nil
		s.fail = &Failure{Kind: "deadlock", Msg: "nothing can run: " + strings.Join(BlockedInfo(), "; ")}
	}
	clean := s.fail == nil
	for _, t := range s.tasks {
		clean = clean && t.state == stDone
	}
	s.export(clean)
	// Unwind whatever is left.
	s.aborting = true
	poolTask(s.run, nil)
	for i := 0; i < len(s.tasks); i++ { // tasks may grow while unwinding
		t := s.tasks[i]
		for t.state != stDone {
			s.cur = t
			t.gate <- struct{}{}
			<-s.ctl
		}
	}
	raceEnable()
	for _, t := range s.tasks {
		RaceAcquire(unsafe.Pointer(&t.endTok))
	}
	sim = nil
	s.stats.Points = s.point
	s.stats.SimTime = s.now
	r := &Result{Fail: s.fail, Trace: s.rec, Stats: s.stats, Hash: s.hash, Log: s.log, Races: raceErrors() - races}
	return r
}

func sortPoints(p []uint64) {
	for i := range p {
		for j := i; j > 0 && p[j] < p[j-1]; j-- {
			p[j], p[j-1] = p[j-1], p[j]
		}
	}
}

// next sets nextP to the next point at which a statement is not just passed.
func (s *simState) next() {
	s.nextP = s.polP
	if len(s.holds) > 0 && s.holds[0] < s.nextP {
		s.nextP = s.holds[0]
	}
}

func (s *simState) gap() uint64 {
	g := s.cfg.MeanGap
	if g <= 0 {
		return never
	}
	return s.point + 1 + s.rng.Uint64()%uint64(2*g)
}

func (s *simState) pctArm() {
	s.polP = never
	for len(s.pcts) > 0 && s.pcts[0] <= s.point {
		s.pcts = s.pcts[1:]
	}
	if len(s.pcts) > 0 {
		s.polP = s.pcts[0]
	}
}

// arm sets nextP to the next replayed decision.
func (s *simState) arm() {
	for s.ti < len(s.trace) && s.trace[s.ti].P < s.point {
		s.ti++
	}
	if s.ti < len(s.trace) {
		s.nextP = s.trace[s.ti].P
	} else {
		s.nextP = never
	}
}

func (s *simState) mix(v uint64) {
	s.hash = (s.hash ^ v) * 1099511628211
	s.hash ^= s.hash >> 29
}

// decide passes a decision point with n options; option 0 is the default. want
// is called in exploring runs to pick the option.
func (s *simState) decide(n int, want func() int) int {
	p := s.point
	s.point++
	v := 0
	if s.cfg.Replay {
		for s.ti < len(s.trace) && s.trace[s.ti].P < p {
			s.ti++
		}
		if s.ti < len(s.trace) && s.trace[s.ti].P == p {
			v = s.trace[s.ti].V
			s.ti++
			if v < 0 {
				v = 0
			}
			if n > 0 {
				v %= n
			}
		}
		s.arm()
	} else if n > 1 {
		v = want()
	}
	if v != 0 {
		s.rec = append(s.rec, Choice{p, v})
		s.mix(p<<8 ^ uint64(v))
	}
	return v
}

// ---------------------------------------------------------------- tasks

func (s *simState) spawn(name string, target bool, f func()) *Task {
	t := &Task{id: s.nextID, name: name, target: target, gate: make(chan struct{}), state: stReady}
	s.nextID++
	if s.cur != nil {
		t.tag = s.cur.tag
	}
	if s.cfg.Policy == PolicyPCT && !s.cfg.Replay {
		t.prio = 1000 + s.rng.Intn(1000)
	}
	s.tasks = append(s.tasks, t)
	s.stats.Spawns++
	go taskMain(s, t, f)
	return t
}

func taskMain(s *simState, t *Task, f func()) {
	raceDisable()
	<-t.gate
	raceEnable()
	clean := false
	defer func() {
		if !clean {
			if p := recover(); p != nil {
				s.setFail("crash", fmt.Sprintf("task %d (%s) panicked: %v", t.id, t.name, p), debug.Stack())
			}
		}
		RaceRelease(unsafe.Pointer(&t.endTok))
		t.state = stDone
		raceDisable()
		if s.aborting || s.fail != nil || t == s.root {
			s.ctl <- struct{}{}
		} else {
			Wake(unsafe.Pointer(t))
			s.passOn()
		}
		raceEnable()
	}()
	if !s.aborting {
		f()
	}
	clean = true
}

func (s *simState) setFail(kind, msg string, stack []byte) {
	if s.fail == nil && !s.aborting {
		if stack != nil {
			msg += "\n" + string(stack)
		}
		s.fail = &Failure{Kind: kind, Msg: msg}
	}
}

// passOn gives control to another task when the current one cannot go on.
// Called with race tracking disabled.
func (s *simState) passOn() {
	n := s.pickBlocked()
	if n == nil {
		s.ctl <- struct{}{}
		return
	}
	s.handTo(n)
}

func (s *simState) handTo(n *Task) {
	n.state = stRunning
	s.cur = n
	poolTask(s.run, n)
	s.stats.Switches++
	s.mix(uint64(n.id)<<32 ^ 0x5151)
	n.gate <- struct{}{}
}

// ready lists the runnable tasks other than except, in order of creation.
func (s *simState) ready(except *Task) []*Task {
	r := s.scratch[:0]
	for _, t := range s.tasks {
		if t.state == stReady && t != except {
			r = append(r, t)
		}
	}
	s.scratch = r
	return r
}

// pickBlocked chooses who runs when the current task cannot: a ready task, else
// the next timer's owner, else a task waiting for quiescence.
func (s *simState) pickBlocked() *Task {
	for {
		r := s.ready(nil)
		if len(r) > 0 {
			i := s.decide(len(r), func() int {
				if s.cfg.Policy == PolicyPCT {
					return maxPrio(r)
				}
				if s.cfg.Policy == PolicySerial {
					return 0
				}
				return s.rng.Intn(len(r))
			})
			return r[i]
		}
		if s.fireTimers() {
			continue
		}
		for _, t := range s.tasks {
			if t.state == stBlocked && t.quiesce {
				t.quiesce = false
				return t
			}
		}
		return nil
	}
}

func maxPrio(r []*Task) int {
	b := 0
	for i, t := range r {
		if t.prio > r[b].prio {
			b = i
		}
	}
	return b
}

// park blocks the current task until it is made ready and chosen.
func (s *simState) park(t *Task) {
	t.state = stBlocked
	raceDisable()
	n := s.pickBlocked()
	if n == t {
		t.state = stRunning
		s.cur = t
		raceEnable()
		return
	}
	if n == nil {
		s.ctl <- struct{}{}
	} else {
		s.handTo(n)
	}
	<-t.gate
	raceEnable()
	if s.aborting {
		runtime.Goexit()
	}
}

// switchTo preempts the current task in favour of n.
func (s *simState) switchTo(n *Task) {
	t := s.cur
	t.state = stReady
	raceDisable()
	s.handTo(n)
	<-t.gate
	raceEnable()
	if s.aborting {
		runtime.Goexit()
	}
}

// Y marks a statement of the code under test: a possible preemption point.
func Y() {
	s := sim
	if s == nil {
		return
	}
	s.stats.Steps++
	if s.stats.Steps > s.cfg.Budget {
		s.overBudget()
	}
	p := s.point
	s.point++
	if p < s.nextP {
		return
	}
	s.yieldSlow(p)
}

func (s *simState) overBudget() {
	if s.aborting {
		runtime.Goexit()
	}
	s.setFail("budget", fmt.Sprintf("no end after %d steps (task %d %s)", s.stats.Steps, s.cur.id, s.cur.name), debug.Stack())
	s.stop()
}

// stop ends the run from within a task.
func (s *simState) stop() {
	t := s.cur
	t.state = stBlocked
	raceDisable()
	s.ctl <- struct{}{}
	<-t.gate
	raceEnable()
	runtime.Goexit()
}

func (s *simState) yieldSlow(p uint64) {
	if s.aborting {
		return
	}
	r := s.ready(s.cur)
	v := 0
	if s.cfg.Replay {
		for s.ti < len(s.trace) && s.trace[s.ti].P < p {
			s.ti++
		}
		if s.ti < len(s.trace) && s.trace[s.ti].P == p {
			v = s.trace[s.ti].V
			s.ti++
			if v > len(r) {
				v = 0
			}
		}
		s.arm()
		if v < 0 {
			s.hold(p, v)
			return
		}
	} else if len(s.holds) > 0 && s.holds[0] <= p {
		s.holds = s.holds[1:]
		s.next()
		s.hold(p, -1-s.rng.Intn(holdKinds))
		return
	} else if s.cfg.Policy == PolicyPCT {
		if len(r) > 0 {
			s.lowPrio++
			s.cur.prio = 500 - s.lowPrio
			b := maxPrio(r)
			if r[b].prio > s.cur.prio {
				v = b + 1
			}
		}
		s.pctArm()
		s.next()
	} else {
		if len(r) > 0 {
			v = 1 + s.rng.Intn(len(r))
		}
		s.polP = s.gap()
		s.next()
	}
	if v != 0 {
		s.rec = append(s.rec, Choice{p, v})
		s.mix(p<<8 ^ uint64(v))
		s.switchTo(r[v-1])
	}
}

const holdKinds = 10

// hold lets time pass while nothing runs, as when the machine is suspended or
// the process stopped: what was to happen in the meantime happens at once. It
// is recorded as a negative choice.
func (s *simState) hold(p uint64, v int) {
	d := int64(1000)
	for i := 1; i < -v && i < holdKinds; i++ {
		d *= 10
	}
	s.rec = append(s.rec, Choice{p, v})
	s.mix(p<<8 ^ uint64(-v))
	s.stats.Held++
	s.now += d
	raceDisable()
	for s.due() && s.fireTimers() {
	}
	raceEnable()
	if s.fail != nil {
		s.stop()
	}
}

// due reports whether a timer's time has come.
func (s *simState) due() bool {
	for _, t := range s.timers {
		if t.when <= s.now {
			return true
		}
	}
	return false
}

// op is a scheduling point at a synchronisation operation.
func (s *simState) op() {
	if s.aborting {
		return
	}
	s.stats.Steps++
	if s.stats.Steps > s.cfg.Budget {
		s.overBudget()
	}
	r := s.ready(s.cur)
	v := s.decide(len(r)+1, func() int {
		switch s.cfg.Policy {
		case PolicyPCT:
			b := maxPrio(r)
			if r[b].prio > s.cur.prio {
				return b + 1
			}
			return 0
		case PolicySerial:
			return 0
		}
		if !s.rng.Bool(s.cfg.OpSwitch) {
			return 0
		}
		return 1 + s.rng.Intn(len(r))
	})
	if v != 0 {
		s.switchTo(r[v-1])
	}
}

// Op is a scheduling point for synchronisation primitives built on this package.
func Op() {
	if s := sim; s != nil {
		s.op()
	}
}

// Go starts a task on behalf of the code under test.
func Go(f func()) {
	s := sim
	if s == nil {
		// A package that starts a thread when it is loaded: the thread gets to
		// run in the next simulation.
		pending = append(pending, f)
		return
	}
	if s.aborting {
		return
	}
	s.spawn("target", true, f)
	s.op()
}

var pending []func()

// Settle runs what was started outside the simulation until it ends or waits.
func Settle() {
	if len(pending) > 0 {
		Run(Config{Policy: PolicySerial, Budget: 1 << 32}, func() {
			for _, t := range sim.tasks[1:] {
				if t.state != stBlocked && t.state != stDone {
					Join(t)
				}
			}
		})
	}
}

// Spawn starts a client task of the harness.
func Spawn(name string, f func()) *Task {
	s := sim
	if s.aborting {
		runtime.Goexit()
	}
	return s.spawn(name, false, f)
}

// Join blocks until t has finished.
func Join(t *Task) {
	s := sim
	for t.state != stDone {
		if s.aborting {
			runtime.Goexit()
		}
		BlockOn(unsafe.Pointer(t), "join")
	}
	RaceAcquire(unsafe.Pointer(&t.endTok))
}

// Exit ends the current task, as if its thread had died.
func Exit() { runtime.Goexit() }

// BlockOn parks the current task until Wake is called with the same key, or, if
// it is the key of a task, until the task ends.
func BlockOn(key unsafe.Pointer, what string) {
	s := sim
	if s == nil {
		panic("simrt: blocking outside the simulation: " + what)
	}
	if s.aborting {
		runtime.Goexit()
	}
	t := s.cur
	t.waitKey = key
	t.what = what
	s.park(t)
	t.waitKey = nil
	t.what = ""
}

// Wake makes every task blocked on key ready.
func Wake(key unsafe.Pointer) {
	s := sim
	if s == nil {
		return
	}
	for _, t := range s.tasks {
		if t.state == stBlocked && t.waitKey == key {
			t.state = stReady
		}
	}
}

// Aborting reports whether the run is being unwound.
func Aborting() bool { return sim != nil && sim.aborting }

// Quiesce blocks the current task until no other task can run and no timer is
// pending.
func Quiesce() {
	s := sim
	if s.aborting {
		runtime.Goexit()
	}
	t := s.cur
	t.quiesce = true
	t.what = "quiesce"
	s.park(t)
	t.what = ""
}

// LiveTarget counts unfinished tasks started by the code under test.
func LiveTarget() int {
	n := 0
	for _, t := range sim.tasks {
		if t.target && t.state != stDone {
			n++
		}
	}
	return n
}

// TargetTasks counts all tasks started so far by the code under test.
func TargetTasks() int {
	n := 0
	for _, t := range sim.tasks {
		if t.target {
			n++
		}
	}
	return n
}

// SetTag labels the current task, and the tasks it will start, and returns the
// previous label.
func SetTag(tag int) int {
	old := sim.cur.tag
	sim.cur.tag = tag
	return old
}

// LiveTagged counts unfinished tasks of the code under test with a label.
func LiveTagged(tag int) int {
	n := 0
	for _, t := range sim.tasks {
		if t.target && t.state != stDone && t.tag == tag {
			n++
		}
	}
	return n
}

// BlockedInfo describes the unfinished tasks other than the current one.
func BlockedInfo() []string {
	var out []string
	for _, t := range sim.tasks {
		if t != sim.cur && t.state != stDone {
			out = append(out, fmt.Sprintf("task %d (%s) %s", t.id, t.name, t.what))
		}
	}
	return out
}

// CurID returns the current task's number.
func CurID() int {
	if sim == nil {
		return -1
	}
	return sim.cur.id
}

// Fail records a violated check and ends the run.
func Fail(kind, msg string) {
	s := sim
	if s == nil {
		panic("simrt: Fail outside the simulation: " + msg)
	}
	if s.aborting {
		runtime.Goexit()
	}
	s.setFail(kind, msg, nil)
	s.stop()
}

// Ev records an event of the harness.
func Ev(kind string, a, b int) {
	s := sim
	if s == nil || s.aborting {
		return
	}
	h := uint64(1469598103)
	for i := 0; i < len(kind); i++ {
		h = (h ^ uint64(kind[i])) * 1099511628211
	}
	s.mix(h ^ uint64(a)<<40 ^ uint64(b)<<20 ^ uint64(s.cur.id))
	if s.cfg.Log {
		s.log = append(s.log, LogEntry{s.stats.Steps, s.now, s.cur.id, kind, a, b})
	}
}

// Seq returns the next number of the global event sequence.
func Seq() int {
	sim.seq++
	return sim.seq
}

// Draw passes a decision point with n options, for randomness that the code
// under test asks for.
func Draw(n int) int {
	s := sim
	if s == nil {
		return 0
	}
	return s.decide(n, func() int { return s.rng.Intn(n) })
}

// Run identity, for primitives whose state must not outlive a run.

// RunID returns the number of the current run, or 0 outside one.
func RunID() uint64 {
	if sim == nil {
		return 0
	}
	return sim.run
}

// Crash ends the run with an unrecoverable error of the code under test.
func Crash(msg string) {
	s := sim
	if s == nil {
		panic(msg)
	}
	if s.aborting {
		runtime.Goexit()
	}
	s.setFail("crash", "fatal error: "+msg, debug.Stack())
	s.stop()
}

// NumCPU replaces runtime.NumCPU.
func NumCPU() int {
	if s := sim; s != nil && s.cfg.CPUs > 0 {
		return s.cfg.CPUs
	}
	return 4
}

// GOMAXPROCS replaces runtime.GOMAXPROCS.
func GOMAXPROCS(n int) int {
	old := NumCPU()
	if s := sim; s != nil && n > 0 {
		s.cfg.CPUs = n
	}
	return old
}

// NumGoroutine replaces runtime.NumGoroutine.
func NumGoroutine() int {
	s := sim
	if s == nil {
		return 1
	}
	n := 0
	for _, t := range s.tasks {
		if t.state != stDone {
			n++
		}
	}
	return n
}

// Gosched replaces runtime.Gosched.
func Gosched() {
	s := sim
	if s == nil {
		return
	}
	if s.aborting {
		runtime.Goexit()
	}
	s.stats.Steps++
	if s.stats.Steps > s.cfg.Budget {
		s.overBudget()
	}
	// Like the real one it lets somebody else run if anybody can.
	r := s.ready(s.cur)
	if len(r) == 0 {
		return
	}
	s.switchTo(r[s.decide(len(r), func() int { return s.rng.Intn(len(r)) })])
}
