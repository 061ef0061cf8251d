package main

import (
	"flag"
	"sort"
	"time"

	"verif.local/sim/simrt"
)

// minimiseCmd shrinks a failing plan while it keeps failing in the same way. It
// works inside one process; the caller confirms the result in a fresh one.
func minimiseCmd(args []string) {
	fs := flag.NewFlagSet("minimise", flag.ExitOnError)
	plan := fs.String("plan", "", "")
	out := fs.String("out", "-", "")
	ms := fs.Int("ms", 20000, "")
	fs.Parse(args)
	p := readPlan(*plan)
	m := &minimiser{class: p.Expect, deadline: time.Now().Add(time.Duration(*ms) * time.Millisecond)}
	if !m.try(p) {
		fatal("the plan does not fail with %q", p.Expect)
	}
	m.run()
	writeJSON(*out, m.best)
}

type minimiser struct {
	class    string
	deadline time.Time
	best     *Plan
	tries    int
}

func (m *minimiser) over() bool { return time.Now().After(m.deadline) }

// try executes a candidate: with its trace, and with fresh schedules. If it
// fails as required it becomes the best plan.
func (m *minimiser) try(p *Plan) bool {
	m.tries++
	if p.Replay || len(p.Trace) > 0 {
		q := clone(p)
		q.Replay = true
		if m.check(q) {
			return true
		}
	}
	for i := uint64(0); i < 12 && !m.over(); i++ {
		q := clone(p)
		q.Replay, q.Trace = false, nil
		if i > 0 {
			q.Sched.Seed = simrt.Mix(p.Sched.Seed, i)
		}
		if m.check(q) {
			return true
		}
	}
	return false
}

func (m *minimiser) check(q *Plan) bool {
	o := execute(q, false)
	if !sameClass(o.Class, m.class) {
		return false
	}
	q.Replay = true
	q.Trace = o.Trace
	q.Detail = []string{oneLine(o.Msg)}
	m.best = q
	return true
}

// exact executes a candidate with its trace only.
func (m *minimiser) exact(p *Plan) bool {
	q := clone(p)
	q.Replay = true
	return m.check(q)
}

func (m *minimiser) run() {
	for round := 0; round < 6 && !m.over(); round++ {
		before := m.size()
		m.ops()
		m.docs()
		m.ints()
		m.trace()
		if m.size() >= before {
			break
		}
	}
}

func (m *minimiser) size() int {
	n := 10*len(m.best.Ops) + len(m.best.Trace)
	for _, o := range m.best.Ops {
		n += abs(o.A) + abs(o.B) + abs(o.C)
	}
	for i := range m.best.Docs {
		n += len(m.best.Docs[i].data())
	}
	return n
}

func abs(n int) int {
	if n < 0 {
		return -n
	}
	return n
}

// ops removes chunks of operations.
func (m *minimiser) ops() {
	for size := len(m.best.Ops) / 2; size >= 1; size /= 2 {
		for i := 0; i < len(m.best.Ops) && !m.over(); {
			j := i + size
			if j > len(m.best.Ops) {
				j = len(m.best.Ops)
			}
			q := clone(m.best)
			q.Ops = append(append([]Op(nil), m.best.Ops[:i]...), m.best.Ops[j:]...)
			if !m.try(q) {
				i += size
			}
		}
	}
}

// docs removes parts of the documents, by lines and then by bytes.
func (m *minimiser) docs() {
	for d := range m.best.Docs {
		if len(m.best.Docs[d].Marks) > 0 && len(m.best.Docs[d].data()) < 40 {
			continue
		}
		for size := len(m.best.Docs[d].data()) / 2; size >= 1; size /= 2 {
			for i := 0; i < len(m.best.Docs[d].data()) && !m.over(); {
				b := m.best.Docs[d].data()
				j := i + size
				if j > len(b) {
					j = len(b)
				}
				q := clone(m.best)
				nb := append(append([]byte(nil), b[:i]...), b[j:]...)
				q.Docs[d] = newDoc(nb)
				if !m.try(q) {
					i += size
				}
			}
		}
	}
}

func (m *minimiser) ints() {
	set := func(i, f, v int) bool {
		q := clone(m.best)
		p := []*int{&q.Ops[i].A, &q.Ops[i].B, &q.Ops[i].C}[f]
		if *p == v || abs(v) >= abs(*p) {
			return false
		}
		*p = v
		return m.try(q)
	}
	for i := 0; i < len(m.best.Ops); i++ {
		for f := 0; f < 3; f++ {
			cur := []int{m.best.Ops[i].A, m.best.Ops[i].B, m.best.Ops[i].C}[f]
			if cur == 0 || m.over() {
				continue
			}
			if set(i, f, 0) || set(i, f, 1) {
				continue
			}
			for cur > 2 && set(i, f, cur/2) {
				cur /= 2
			}
		}
	}
	var names []string
	for k := range m.best.Cfg {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		if m.best.Cfg[k] == 0 || m.over() {
			continue
		}
		q := clone(m.best)
		q.Cfg[k] = 0
		m.try(q)
	}
}

// trace drops scheduling decisions: what remains are the preemptions, message
// orders and faults that matter.
func (m *minimiser) trace() {
	for size := (len(m.best.Trace) + 1) / 2; size >= 1; size /= 2 {
		for i := 0; i < len(m.best.Trace) && !m.over(); {
			j := i + size
			if j > len(m.best.Trace) {
				j = len(m.best.Trace)
			}
			n := len(m.best.Trace)
			q := clone(m.best)
			q.Trace = append(append([]simrt.Choice(nil), m.best.Trace[:i]...), m.best.Trace[j:]...)
			if !m.exact(q) || len(m.best.Trace) >= n {
				i += size
			}
		}
	}
}
