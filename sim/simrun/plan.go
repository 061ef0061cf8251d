package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strings"
	"unicode/utf8"

	"verif.local/sim/simrt"
)

// A Plan is one execution: what the clients do, which faults strike, how the
// scheduler behaves and, in a replay file, which scheduling decisions it takes.
// Everything in it derives from one seed.
type Plan struct {
	Prop   string         `json:"property"`
	Seed   uint64         `json:"seed"`
	Engine string         `json:"engine"`
	Sched  Sched          `json:"sched"`
	Cfg    map[string]int `json:"cfg,omitempty"`
	Docs   []Doc          `json:"docs,omitempty"`
	Ops    []Op           `json:"ops"`

	Replay bool           `json:"replay,omitempty"`
	Trace  []simrt.Choice `json:"trace,omitempty"`
	Prefix *Prefix        `json:"prefix,omitempty"`

	Expect string   `json:"expect,omitempty"`
	Detail []string `json:"detail,omitempty"`
}

// Prefix lists the runs that must precede this one in the same process, when the
// violation depends on what the process did before.
type Prefix struct {
	Seeds []uint64 `json:"seeds"`
}

// Sched configures the scheduler.
type Sched struct {
	Seed    uint64  `json:"seed"`
	Policy  int     `json:"policy"`
	Gap     int     `json:"gap,omitempty"`
	Op      float64 `json:"op,omitempty"`
	Depth   int     `json:"depth,omitempty"`
	Horizon uint64  `json:"horizon,omitempty"`
	Maps    bool    `json:"maps,omitempty"`
	Holds   int     `json:"holds,omitempty"`
	CPUs    int     `json:"cpus,omitempty"`
	Budget  uint64  `json:"budget"`
}

// Op is one operation of one client thread.
type Op struct {
	T int    `json:"t"`
	K string `json:"k"`
	A int    `json:"a,omitempty"`
	B int    `json:"b,omitempty"`
	C int    `json:"c,omitempty"`
	S string `json:"s,omitempty"`
}

func (o Op) String() string {
	s := fmt.Sprintf("thread %d: %s %d %d %d", o.T, o.K, o.A, o.B, o.C)
	if o.S != "" {
		s += " " + o.S
	}
	return s
}

// Doc is an input document. Bytes that are not valid UTF-8 survive as base64.
type Doc struct {
	Text  string   `json:"text,omitempty"`
	Bytes []byte   `json:"bytes,omitempty"`
	Marks []string `json:"marks,omitempty"`
	Unit  string   `json:"unit,omitempty"` // repeated N times after the text
	N     int      `json:"n,omitempty"`
}

func (d *Doc) data() []byte {
	if d.Bytes != nil {
		return d.Bytes
	}
	if d.N > 0 {
		return []byte(d.Text + strings.Repeat(d.Unit, d.N))
	}
	return []byte(d.Text)
}

// Outcome is the result of executing a plan.
type Outcome struct {
	Class   string         `json:"class"` // "" when nothing was violated
	Msg     string         `json:"msg,omitempty"`
	Foreign string         `json:"foreign,omitempty"` // a violation of another property
	Hash    uint64         `json:"hash,string"`
	Stats   simrt.Stats    `json:"stats"`
	Trace   []simrt.Choice `json:"trace,omitempty"`
	Races   int            `json:"races,omitempty"`

	log []simrt.LogEntry
}

var scenarios = map[string]func(*env){}

// env is what a scenario works with.
type env struct {
	plan  *Plan
	after []func() // checks once the simulation is over
}

func (e *env) cfg(name string) int { return e.plan.Cfg[name] }

// Counters of faults, probes and operations, filled in while runs proceed. They
// are kept in a slice because several simulated threads touch them.
type counter struct {
	name string
	n    uint64
}

var counters []counter

func count(name string) { countN(name, 1) }

func countN(name string, n uint64) {
	for i := range counters {
		if counters[i].name == name {
			counters[i].n += n
			return
		}
	}
	counters = append(counters, counter{name, n})
}

// execute runs a plan to its end.
func execute(p *Plan, log bool) *Outcome {
	e := &env{plan: p}
	f := scenarios[p.Engine]
	if f == nil {
		fatal("unknown engine %q", p.Engine)
	}
	cfg := simrt.Config{
		Seed: p.Sched.Seed, Policy: p.Sched.Policy, MeanGap: p.Sched.Gap, OpSwitch: p.Sched.Op,
		Depth: p.Sched.Depth, Horizon: p.Sched.Horizon, MapOrder: p.Sched.Maps, Budget: p.Sched.Budget,
		Holds:  p.Sched.Holds,
		Replay: p.Replay, Trace: p.Trace, Log: log,
	}
	if p.Prop != "E03" { // there, the start of the process is part of the run
		simrt.Settle()
	}
	late, judged = nil, p.Prop
	r := simrt.Run(cfg, func() { f(e) })
	if r.Stats.Held > 0 {
		countN("fault.process_held", r.Stats.Held)
	}
	o := &Outcome{Hash: r.Hash, Stats: r.Stats, Trace: r.Trace, Races: r.Races, log: r.Log}
	if r.Fail != nil {
		o.Class, o.Msg = r.Fail.Kind, r.Fail.Msg
	}
	if o.Class == "" {
		for _, f := range e.after {
			if f(); late != nil && owns(judged, late.Kind) {
				break
			}
		}
		if late != nil {
			o.Class, o.Msg = late.Kind, late.Msg
		}
	}
	if o.Class != "" && !owns(p.Prop, o.Class) {
		// Something is wrong, but not with this property: the run says nothing.
		count("foreign." + o.Class)
		o.Foreign, o.Class = o.Class, ""
		return o
	}
	if o.Class == "" && r.Races > 0 && owns(p.Prop, "race") {
		o.Class = "race"
		o.Msg = "the race detector reported unsynchronised accesses to shared memory"
	}
	return o
}

var (
	late   *simrt.Failure
	judged string // the property of the current run
)

// fail reports a violated check, during or after the simulation.
func fail(class, format string, a ...any) {
	msg := fmt.Sprintf(format, a...)
	if simrt.Active() {
		simrt.Fail(class, msg)
	}
	// What says something about the property goes before what does not.
	if late == nil || !owns(judged, late.Kind) && owns(judged, class) {
		late = &simrt.Failure{Kind: class, Msg: msg}
	}
}

// failSoft reports a violated check; if it is about another property, the run
// goes on.
func failSoft(class, format string, a ...any) {
	if owns(judged, class) {
		fail(class, format, a...)
		return
	}
	if late == nil {
		late = &simrt.Failure{Kind: class, Msg: fmt.Sprintf(format, a...)}
	}
}

func readPlan(path string) *Plan {
	b, err := os.ReadFile(path)
	if err != nil {
		fatal("%v", err)
	}
	p := new(Plan)
	if err := json.Unmarshal(b, p); err != nil {
		fatal("%s: %v", path, err)
	}
	return p
}

func writeJSON(path string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		fatal("%v", err)
	}
	b = append(b, '\n')
	if path == "-" {
		os.Stdout.Write(b)
		return
	}
	if err := os.WriteFile(path, b, 0o644); err != nil {
		fatal("%v", err)
	}
}

func fatal(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "simrun: "+format+"\n", a...)
	os.Exit(2)
}

func clone(p *Plan) *Plan {
	q := *p
	q.Ops = append([]Op(nil), p.Ops...)
	q.Docs = append([]Doc(nil), p.Docs...)
	q.Cfg = map[string]int{}
	for k, v := range p.Cfg {
		q.Cfg[k] = v
	}
	return &q
}

// sameClass reports whether two failures are the same kind of violation.
func sameClass(a, b string) bool { return a == b && a != "" }

func oneLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 400 {
		s = s[:400]
	}
	return s
}

// newDoc makes a document of any bytes.
func newDoc(b []byte) Doc {
	if utf8.Valid(b) && len(b) > 0 {
		return Doc{Text: string(b)}
	}
	return Doc{Bytes: append([]byte{}, b...)}
}

// stall draws a length of time, short ones as likely as very long ones: up to
// ten to the given power.
func stall(r *simrt.Rand, power int) int {
	n := 1
	for i := r.Intn(power + 1); i > 0; i-- {
		n *= 10
	}
	return 1 + r.Intn(n)
}
