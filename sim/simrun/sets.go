package main

import (
	"fmt"
	"sort"

	"verif.local/sim/dagx"
	"verif.local/sim/simrt"
)

func init() {
	scenarios["sets"] = runSets
	generators["G11"] = genG11
}

// The set engine. A few shared sets are filled before the client threads start
// and never changed afterwards; every thread computes with them and with its own
// results, and changes its own results at will.
//
// Registers 0..shared-1 name the shared sets, the others the thread's own.

const ownRegs = 4

type reg struct {
	s    dagx.Set
	want map[int]bool // nil when the register is empty
}

type setThread struct {
	id   int
	ops  []Op
	regs []*reg
}

type setEnv struct {
	*env
	kind   int
	max    int
	shared []*reg
}

type callbackError struct{ n int }

func runSets(e *env) {
	d := &setEnv{env: e, kind: e.cfg("kind"), max: universe(e.cfg("max"))}
	n := e.cfg("shared")
	if n < 1 {
		n = 1
	}
	for i := 0; i < n; i++ {
		absent := e.cfg(fmt.Sprintf("absent%d", i)) != 0
		d.shared = append(d.shared, &reg{dagx.NewSet(d.kind, d.max, absent), map[int]bool{}})
	}
	var threads []*setThread
	for _, o := range e.plan.Ops {
		if o.T < 0 {
			r := d.shared[mod(o.A, n)]
			if !r.s.Nil() {
				d.basic(r, o)
			}
			continue
		}
		for o.T >= len(threads) {
			t := &setThread{id: len(threads)}
			t.regs = append(t.regs, d.shared...)
			for i := 0; i < ownRegs; i++ {
				t.regs = append(t.regs, &reg{dagx.NewSet(d.kind, d.max, i == 0), map[int]bool{}})
			}
			threads = append(threads, t)
		}
		threads[o.T].ops = append(threads[o.T].ops, o)
	}
	var tasks []*simrt.Task
	for _, t := range threads {
		t := t
		tasks = append(tasks, simrt.Spawn("thread", func() { d.thread(t) }))
	}
	for _, t := range tasks {
		simrt.Join(t)
	}
	for i, r := range d.shared {
		d.same("set-operand-changed", fmt.Sprintf("shared set %d at the end", i), r.s, r.want)
	}
	for _, t := range threads {
		for i, r := range t.regs[n:] {
			d.same("set-result-changed", fmt.Sprintf("result %d of thread %d at the end", i, t.id), r.s, r.want)
		}
	}
	if simrt.LiveTarget() > 0 {
		fail("set-leak", "a set operation left a background thread")
	}
}

func (d *setEnv) basic(r *reg, o Op) {
	k := 1 + mod(o.B, d.max-1)
	if o.B%17 == 16 {
		k = 0
	}
	switch o.K {
	case "add":
		r.s.Add(k)
		r.want[k] = true
	case "del":
		r.s.Delete(k)
		delete(r.want, k)
	}
}

func (d *setEnv) same(class, what string, s dagx.Set, want map[int]bool) {
	got := s.Elems()
	ok := len(got) == len(want) && s.Len() == len(want)
	for _, k := range got {
		ok = ok && want[k]
	}
	if !ok {
		fail(class, "%s: elements %v, want %v", what, got, keysOf(want))
	}
	if !s.Consistent() {
		fail(class, "%s: an element is stored under another one's name", what)
	}
}

func keysOf(m map[int]bool) []int {
	var out []int
	for k := range m {
		out = append(out, k)
	}
	sort.Ints(out)
	return out
}

func (d *setEnv) thread(t *setThread) {
	n := len(d.shared)
	for _, o := range t.ops {
		simrt.Op()
		simrt.Ev(o.K, o.A, o.B)
		nr := len(t.regs)
		a, b := t.regs[mod(o.A, nr)], t.regs[mod(o.B, nr)]
		out := n + mod(o.C, ownRegs)
		what := fmt.Sprintf("%s of %v and %v", o.K, keysOf(a.want), keysOf(b.want))
		want := map[int]bool{}
		var res dagx.Set
		switch o.K {
		case "int":
			res = a.s.Intersection(b.s)
			for k := range a.want {
				if b.want[k] {
					want[k] = true
				}
			}
		case "dif":
			res = a.s.Difference(b.s)
			for k := range a.want {
				if !b.want[k] {
					want[k] = true
				}
			}
		case "cpy":
			res = a.s.Copy()
			for k := range a.want {
				want[k] = true
			}
		case "fil":
			pred := func(k int) bool { return (k*7+o.B)%3 != 0 }
			calls := 0
			failing := o.S == "panic"
			nested := o.S == "nested"
			failed := false
			func() {
				defer func() {
					if p := recover(); p != nil {
						if _, ok := p.(callbackError); !ok {
							panic(p)
						}
						failed = true
						fault("callback_panic")
					}
				}()
				res = a.s.Filter(func(k int) bool {
					calls++
					if k < 0 {
						fail("set-wrong", "%s: the callback got an element that is not in the set", what)
					}
					if !a.want[k] {
						fail("set-wrong", "%s: the callback got %d, which is not in the set", what, k)
					}
					if failing && calls > mod(o.B, 4) {
						panic(callbackError{calls})
					}
					if nested {
						d.same("set-wrong", "a nested intersection", a.s.Intersection(a.s), a.want)
						fault("callback_reentry")
					}
					simrt.Op()
					return pred(k)
				})
			}()
			if failed {
				d.same("set-operand-changed", "operand of a failed filter", a.s, a.want)
				continue
			}
			for k := range a.want {
				if pred(k) {
					want[k] = true
				}
			}
		case "lst":
			l, isNil, scribble := a.s.List()
			if len(l) != len(a.want) {
				fail("set-wrong", "%s: list %v, want %v", what, l, keysOf(a.want))
			}
			for i, k := range l {
				if !a.want[k] || i > 0 && l[i-1] == k {
					fail("set-wrong", "%s: list %v, want %v", what, l, keysOf(a.want))
				}
			}
			_ = isNil
			scribble()
			fault("scribble")
			continue
		case "inc":
			for k := 0; k < d.max; k++ {
				if a.s.Includes(k) != a.want[k] {
					fail("set-wrong", "%s: Includes(%d) is wrong", what, k)
				}
			}
			continue
		case "add", "del":
			r := t.regs[out]
			if r.s.Nil() && o.K == "add" {
				continue
			}
			d.basic(r, o)
			fault("result_modified")
			continue
		case "yi":
			simrt.Gosched()
			continue
		default:
			continue
		}
		if res == nil || res.Nil() {
			fail("set-wrong", "%s: no set was returned", what)
		}
		d.same("set-wrong", what, res, want)
		t.regs[out] = &reg{res, want}
		d.same("set-operand-changed", what+": first operand", a.s, a.want)
		d.same("set-operand-changed", what+": second operand", b.s, b.want)
	}
}

func genG11(p *Plan, r *simrt.Rand) {
	p.Engine = "sets"
	n := 1 + r.Intn(4)
	p.Cfg["shared"] = n
	p.Cfg["kind"] = r.Intn(dagx.SetKinds)
	span := 18
	large := r.Intn(30) == 0
	if large {
		span = []int{40, 80, 150, 300, 1100, 1100}[r.Intn(6)]
		p.Cfg["max"] = span + 2
		p.Sched.Budget *= 25
	}
	for i := 0; i < n; i++ {
		if r.Intn(5) == 0 {
			p.Cfg["absent"+string(rune('0'+i))] = 1
		}
		sz := r.Intn(9)
		if r.Intn(4) == 0 {
			sz = r.Intn(19)
		}
		if large {
			sz = r.Intn(2 * span)
		}
		for j := 0; j < sz; j++ {
			p.Ops = append(p.Ops, Op{T: -1, K: "add", A: i, B: r.Intn(span)})
		}
	}
	nt := 1 + r.Intn(4)
	if r.Intn(40) == 0 {
		nt += r.Intn(20)
	}
	for t := 0; t < nt; t++ {
		for j := 3 + r.Intn(12); j > 0; j-- {
			o := Op{T: t, A: r.Intn(n + ownRegs), B: r.Intn(n + ownRegs), C: r.Intn(ownRegs)}
			if r.Intn(2) == 0 {
				o.A = r.Intn(n)
			}
			switch x := r.Intn(20); {
			case x < 5:
				o.K = "int"
			case x < 9:
				o.K = "dif"
			case x < 11:
				o.K = "cpy"
			case x < 14:
				o.K = "fil"
				o.S = []string{"", "", "panic", "nested"}[r.Intn(4)]
			case x < 16:
				o.K = "lst"
			case x < 17:
				o.K = "inc"
			default:
				o.K = []string{"add", "del"}[r.Intn(2)]
				o.B = r.Intn(span)
			}
			p.Ops = append(p.Ops, o)
		}
	}
}
