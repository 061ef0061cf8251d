package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"
	"unsafe"

	"github.com/hexbee-net/etxe/pkg/dag"

	"verif.local/sim/dagx"
	"verif.local/sim/simrt"
)

func init() { scenarios["dag"] = runDag }

// The dag engine. Thread t < graphs owns graph t: it alone changes and queries
// it and opens walks on it. The other threads consume walks. Owners change a
// graph only when every walk on it has been seen to end; a graph with an
// abandoned walk is never changed again.

type dagEnv struct {
	*env
	graphs  []*gstate
	slots   []*slot
	threads []*cthread
	max     int // number of keys there are
}

type gstate struct {
	id      int
	g       dagx.Graph
	m       *gmodel
	frozen  bool
	results []*result
	nextVal int
}

type result struct {
	what     string
	c        dagx.Coll
	want     []dagx.Entry
	scribble bool
}

type cthread struct {
	id      int
	ops     []Op
	waiting bool // for a walk to be opened
	ended   bool
}

// slot is one walk.
type slot struct {
	id       int
	owner    *gstate
	consumer *cthread
	opened   bool
	dead     bool // never to be opened, or refused
	w        dagx.Walk
	key      int
	down     bool
	dist     []int
	seen     []bool
	got      int
	total    int // identifiers to deliver
	last     int
	closed   bool
	left     bool
	stopping bool // a stop request has been or is being sent
	stopped  bool // it has been sent
	after    int  // identifiers received by receives begun after that
	tok      byte
	otok     byte
}

const walkTag = 1000

func runDag(e *env) {
	d := &dagEnv{env: e, max: universe(e.cfg("max"))}
	ng := e.cfg("graphs")
	if ng < 1 {
		ng = 1
	}
	nt := ng
	maxSlot := -1
	for _, o := range e.plan.Ops {
		if o.T+1 > nt {
			nt = o.T + 1
		}
		switch o.K {
		case "wo":
			if o.C > maxSlot {
				maxSlot = o.C
			}
		case "wr", "ws", "wd", "wl", "wt":
			if o.A > maxSlot {
				maxSlot = o.A
			}
		}
	}
	for i := 0; i < nt; i++ {
		d.threads = append(d.threads, &cthread{id: i})
	}
	for i := 0; i <= maxSlot; i++ {
		d.slots = append(d.slots, &slot{id: i, dead: true})
	}
	for i := 0; i < ng; i++ {
		kind := e.cfg("kind")
		if e.cfg("mixed") != 0 {
			kind += i
		}
		d.graphs = append(d.graphs, &gstate{id: i, g: dagx.New(kind, d.max), m: newModel(d.max), nextVal: 1})
	}
	for _, o := range e.plan.Ops {
		if o.T < 0 {
			continue
		}
		d.threads[o.T].ops = append(d.threads[o.T].ops, o)
		switch o.K {
		case "wo":
			if o.T < ng {
				d.slots[o.C].dead = false
			}
		case "wr", "wd", "ws", "wl":
			if s := d.slots[o.A]; s.consumer == nil {
				s.consumer = d.threads[o.T]
			}
		}
	}
	var tasks []*simrt.Task
	for i, t := range d.threads {
		t := t
		name := "consumer"
		if i < ng {
			name = "owner"
		}
		tasks = append(tasks, simrt.Spawn(name, func() { d.thread(t) }))
	}
	for _, t := range tasks {
		simrt.Join(t)
	}
	simrt.Quiesce()
	abandoned := 0
	for _, s := range d.slots {
		if !s.opened {
			continue
		}
		live := simrt.LiveTagged(walkTag + s.id)
		if s.closed || s.stopped || s.got == s.total {
			if live > 0 {
				how := "was read to its end"
				if s.stopped {
					how = "was asked to stop"
				} else if !s.closed {
					how = "has delivered its last identifier"
				}
				fail("walk-leak", "walk %d (from key %d) %s, yet its background thread never finishes: %s", s.id, s.key, how, strings.Join(simrt.BlockedInfo(), "; "))
			}
		} else {
			abandoned += live
		}
	}
	if n := simrt.LiveTarget() - abandoned; n > 0 {
		fail("leak", "%d background threads are left that belong to no open walk: %s", n, strings.Join(simrt.BlockedInfo(), "; "))
	}
	for _, g := range d.graphs {
		d.snapshot(g, "at the end")
		d.recheck(g)
	}
}

// universe returns how many keys there are.
func universe(max int) int {
	if max < dagx.MaxKeys {
		return dagx.MaxKeys
	}
	return max
}

func (d *dagEnv) thread(t *cthread) {
	for _, o := range t.ops {
		simrt.Op()
		simrt.Ev(o.K, o.A, o.B)
		if t.id < len(d.graphs) && d.owner(d.graphs[t.id], t, o) {
			continue
		}
		d.consumer(t, o)
	}
	t.ended = true
	for _, s := range d.slots {
		if s.consumer == t && s.opened && !s.closed {
			d.leave(s)
		}
		if !s.opened && !s.dead && d.openedBy(s.id) == t.id {
			s.dead = true
			simrt.Wake(unsafe.Pointer(s))
		}
	}
	d.wakeOwners()
}

// openedBy returns the thread whose script opens the slot.
func (d *dagEnv) openedBy(id int) int {
	for _, o := range d.plan.Ops {
		if o.K == "wo" && o.C == id {
			return o.T
		}
	}
	return -1
}

func (d *dagEnv) wakeOwners() {
	for _, g := range d.graphs {
		simrt.Wake(unsafe.Pointer(g))
	}
}

// leave is called when the consumer of a walk will not read it any more.
func (d *dagEnv) leave(s *slot) {
	if s.left || s.closed {
		return
	}
	s.left = true
	s.owner.frozen = true
	if s.stopping {
		fault("stop_and_leave")
	} else {
		fault("abandon")
	}
	d.wakeOwners()
}

// mayChange waits until the graph may be changed, and reports false if it never
// may, or not now.
func (d *dagEnv) mayChange(g *gstate, t *cthread) bool {
	for {
		if g.frozen {
			return false
		}
		var open *slot
		for _, s := range d.slots {
			if s.owner == g && s.opened && !s.closed && !s.dead {
				open = s
				if s.consumer == nil {
					d.leave(s)
					return false
				}
				if s.consumer == t || s.consumer.waiting || s.consumer.ended {
					return false
				}
			}
		}
		if open == nil {
			// What the consumers did to the end of their walks happened before.
			for _, s := range d.slots {
				if s.owner == g && s.closed {
					simrt.RaceAcquire(unsafe.Pointer(&s.tok))
				}
			}
			return true
		}
		simrt.BlockOn(unsafe.Pointer(g), "a walk to end")
	}
}

// errCheck compares an operation's error with the conditions that hold. It
// reports whether the operation was rightly accepted.
func (d *dagEnv) errCheck(class, what string, err error, allowed []string) bool {
	if len(allowed) == 0 {
		if err != nil {
			if class == "change" && errors.Is(err, dag.ErrEdgeLoop) {
				class = "loop"
			}
			fail(class+"-refused", "%s was refused with %q although nothing stands against it", what, err)
		}
		return true
	}
	if err == nil {
		if allowed[0] == "EdgeLoop" {
			class = "loop"
		}
		fail(class+"-accepted", "%s was accepted; it must be refused (%s)", what, strings.Join(allowed, " or "))
	}
	for _, a := range allowed {
		for i := range dagx.Errors {
			if dagx.Errors[i].Name == a && errors.Is(err, dagx.Errors[i].Err) {
				return false
			}
		}
	}
	fail(class+"-error", "%s was refused with %q instead of %s", what, err, strings.Join(allowed, " or "))
	return false
}

func (d *dagEnv) collCheck(class, what string, c dagx.Coll, want []dagx.Entry) {
	got := c.Entries()
	if !sameEntries(got, want) {
		fail("wrong-"+class, "%s: got %v, want %v", what, got, want)
	}
}

func sameEntries(a, b []dagx.Entry) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (d *dagEnv) keep(g *gstate, what string, c dagx.Coll) {
	if len(g.results) < 200 {
		g.results = append(g.results, &result{what: what, c: c, want: c.Entries()})
	}
}

// recheck verifies that results handed out earlier have not changed.
func (d *dagEnv) recheck(g *gstate) {
	for _, r := range g.results {
		if r.scribble {
			continue
		}
		if got := r.c.Entries(); !sameEntries(got, r.want) {
			fail("result-changed", "the collection returned earlier by %s was %v and has become %v", r.what, r.want, got)
		}
	}
}

// orderCheck verifies a breadth-first listing.
func orderCheck(class, what string, got []dagx.Entry, dist []int, start int, complete bool) {
	seen := make([]bool, len(dist))
	last := 0
	for _, x := range got {
		if x.K < 0 || x.K >= len(dist) || x.K == start || dist[x.K] <= 0 {
			fail(class+"-extra", "%s contains key %d, which is not among the relatives of key %d: %v", what, x.K, start, got)
		}
		if seen[x.K] {
			fail(class+"-duplicate", "%s contains key %d twice: %v", what, x.K, got)
		}
		seen[x.K] = true
		if dist[x.K] < last {
			fail(class+"-order", "%s lists key %d (distance %d) after one at distance %d: %v", what, x.K, dist[x.K], last, got)
		}
		last = dist[x.K]
	}
	if complete {
		for k, x := range dist {
			if x > 0 && !seen[k] {
				fail(class+"-missing", "%s lacks key %d (distance %d from key %d): %v", what, k, x, start, got)
			}
		}
	}
}

// owner performs an operation of a graph's owner.
func (d *dagEnv) owner(g *gstate, t *cthread, o Op) bool {
	a, b := mod(o.A, d.max), mod(o.B, d.max)
	what := fmt.Sprintf("%s(%d,%d) on graph %d", opNames[o.K], a, b, g.id)
	switch o.K {
	case "av", "dv", "ae", "de", "red":
		if !d.mayChange(g, t) {
			count("probe.change_skipped")
			return true
		}
		d.change(g, o.K, a, b, what)
		if d.cfg("snap") != 0 {
			d.snapshot(g, "after "+what)
		}
	case "qv", "qe", "qo", "ql", "qr", "qV", "qp", "qc", "qa", "qd", "oa", "od", "str":
		if c := d.query(g, o.K, a, b, what); c != nil {
			d.keep(g, what, c)
		}
	case "snap":
		d.snapshot(g, "")
	case "scr":
		if n := len(g.results); n > 0 {
			r := g.results[n-1-mod(o.A, n)]
			r.scribble = true
			r.c.Scribble(o.B)
			fault("scribble")
		}
	case "rck":
		d.recheck(g)
	case "wo":
		d.open(g, t, a, o.B != 0, d.slots[o.C])
	default:
		return false
	}
	return true
}

var opNames = map[string]string{
	"av": "AddVertex", "dv": "DeleteVertex", "ae": "AddEdge", "de": "DeleteEdge", "red": "ReduceTransitively",
	"qv": "GetVertex", "qe": "IsEdge", "qo": "GetOrder/GetSize", "ql": "GetLeaves", "qr": "GetRoots", "qV": "GetVertices",
	"qp": "GetParents", "qc": "GetChildren", "qa": "GetAncestors", "qd": "GetDescendants",
	"oa": "GetOrderedAncestors", "od": "GetOrderedDescendants", "str": "String",
}

func mod(a, n int) int {
	a %= n
	if a < 0 {
		a += n
	}
	return a
}

func (d *dagEnv) change(g *gstate, k string, a, b int, what string) {
	m := g.m
	switch k {
	case "av":
		v := g.nextVal
		if v%11 == 0 {
			v = 0 // the zero value is a value like any other
		} else if g.g.Own() && v%5 != 0 {
			v = a
		}
		if d.errCheck("change", what, g.g.AddVertex(a, v), m.addVertexErrs(a)) {
			g.nextVal++
			m.has[a], m.val[a] = true, v
		} else {
			fault("refused_change")
		}
	case "dv":
		if d.errCheck("change", what, g.g.DeleteVertex(a), m.vertexErrs(a)) {
			m.deleteVertex(a)
		} else {
			fault("refused_change")
		}
	case "ae":
		if d.errCheck("change", what, g.g.AddEdge(a, b), m.addEdgeErrs(a, b)) {
			m.setEdge(a, b, true)
		} else {
			fault("refused_change")
		}
	case "de":
		if d.errCheck("change", what, g.g.DeleteEdge(a, b), m.deleteEdgeErrs(a, b)) {
			m.setEdge(a, b, false)
		} else {
			fault("refused_change")
		}
	case "red":
		g.g.Reduce()
		if n := m.reduce(); n > 0 {
			count("probe.reduction_cut_edges")
		}
	}
}

// query asks one question and checks the answer; it returns the collection
// handed out, if any.
func (d *dagEnv) query(g *gstate, k string, a, b int, what string) dagx.Coll {
	m := g.m
	var c dagx.Coll
	var err error
	switch k {
	case "qv":
		v, isNil, err := g.g.Vertex(a)
		if d.errCheck("listing", what, err, m.vertexErrs(a)) {
			if v != m.val[a] {
				fail("wrong-listing", "%s: value %d, want %d", what, v, m.val[a])
			}
		} else if !isNil {
			fail("wrong-listing", "%s: a value came with the error", what)
		}
		return nil
	case "qe":
		is, err := g.g.IsEdge(a, b)
		if d.errCheck("listing", what, err, m.edgeErrs(a, b)) {
			if is != m.edge(a, b) {
				fail("wrong-listing", "%s: %v, want %v", what, is, m.edge(a, b))
			}
		} else if is {
			fail("wrong-listing", "%s: true together with an error", what)
		}
		return nil
	case "qo":
		if n := g.g.Order(); n != m.order() {
			fail("wrong-listing", "GetOrder on graph %d: %d, want %d", g.id, n, m.order())
		}
		if n := g.g.Size(); n != m.size() {
			fail("wrong-listing", "GetSize on graph %d: %d, want %d", g.id, n, m.size())
		}
		return nil
	case "str":
		d.stringCheck(g)
		return nil
	case "ql":
		c = g.g.Leaves()
		d.collCheck("listing", what, c, m.vertices(func(k int) bool { return len(m.neighbours(k, true)) == 0 }))
		return c
	case "qr":
		c = g.g.Roots()
		d.collCheck("listing", what, c, m.vertices(func(k int) bool { return len(m.neighbours(k, false)) == 0 }))
		return c
	case "qV":
		c = g.g.Vertices()
		d.collCheck("listing", what, c, m.vertices(func(k int) bool { return true }))
		return c
	}
	var want []dagx.Entry
	errs := m.vertexErrs(a)
	down := false
	class := "listing"
	switch k {
	case "qa", "qd":
		class = "reach"
	case "oa", "od":
		class = "list"
	}
	switch k {
	case "qp":
		c, err = g.g.Parents(a)
	case "qc":
		c, err = g.g.Children(a)
		down = true
	case "qa":
		c, err = g.g.Ancestors(a)
	case "qd":
		c, err = g.g.Descendants(a)
		down = true
	case "oa":
		c, err = g.g.OrderedAncestors(a)
	case "od":
		c, err = g.g.OrderedDescendants(a)
		down = true
	}
	if !d.errCheck(class, what, err, errs) {
		if len(c.Entries()) != 0 {
			fail("wrong-"+class, "%s: a collection came with the error", what)
		}
		return nil
	}
	switch k {
	case "qp", "qc":
		want = m.neighbours(a, down)
	case "qa", "qd":
		want = m.relatives(a, down)
	case "oa", "od":
		orderCheck("list", what, c.Entries(), m.dist(a, down), a, true)
		return c
	}
	d.collCheck(class, what, c, want)
	return c
}

// stringCheck compares what the graph prints, as a multiset of lines.
func (d *dagEnv) stringCheck(g *gstate) {
	s := g.g.String()
	vs, es := g.m.lines(g.g.KeyText)
	var gv, ge []string
	sect := 0
	for i, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		switch {
		case i == 0:
			want := fmt.Sprintf("DAG Vertices: %d - Edges: %d", g.m.order(), g.m.size())
			if l != want {
				fail("wrong-listing", "graph %d prints %q, want %q", g.id, l, want)
			}
		case l == "Vertices:":
			sect = 1
		case l == "Edges:":
			sect = 2
		case l == "":
		case sect == 1:
			gv = append(gv, l)
		default:
			ge = append(ge, l)
		}
	}
	sort.Strings(gv)
	sort.Strings(ge)
	if strings.Join(gv, "|") != strings.Join(vs, "|") || strings.Join(ge, "|") != strings.Join(es, "|") {
		fail("wrong-listing", "graph %d prints vertices %v and edges %v, want %v and %v", g.id, gv, ge, vs, es)
	}
}

// snapshot compares everything that can be observed about a graph with the
// model, and looks for cycles in what the graph itself reports.
func (d *dagEnv) snapshot(g *gstate, when string) {
	for _, k := range []string{"qo", "ql", "qr", "qV", "str"} {
		d.query(g, k, 0, 0, opNames[k]+" "+when)
	}
	n := d.cfg("keys") + 2
	if n < 4 || n > d.max {
		n = d.max
	}
	children := make([][]int, d.max)
	for a := 0; a < n; a++ {
		ks := []string{"qv", "qp", "qc", "qa", "qd"}
		if n > 200 && a%16 != 3 {
			ks = ks[:3] // of a huge graph, a sample
		}
		for _, k := range ks {
			what := fmt.Sprintf("%s(%d) %s", opNames[k], a, when)
			c := d.query(g, k, a, 0, what)
			if k == "qc" && c != nil {
				for _, e := range c.Entries() {
					children[a] = append(children[a], e.K)
				}
			}
		}
		for b := 0; b < n; b++ {
			if n > 24 && (a*31+b)%(n/4) != 0 && !g.m.edge(a, b) && !g.m.edge(b, a) {
				continue
			}
			d.query(g, "qe", a, b, fmt.Sprintf("IsEdge(%d,%d) %s", a, b, when))
		}
	}
	color := make([]int, d.max)
	var visit func(k int)
	visit = func(k int) {
		color[k] = 1
		for _, c := range children[k] {
			if color[c] == 1 {
				fail("cycle", "the graph holds a cycle through key %d %s", c, when)
			}
			if color[c] == 0 {
				visit(c)
			}
		}
		color[k] = 2
	}
	for k := range children {
		if color[k] == 0 {
			visit(k)
		}
	}
}

// open starts a walk.
func (d *dagEnv) open(g *gstate, t *cthread, key int, down bool, s *slot) {
	if s.opened || s.dead {
		return
	}
	old := simrt.SetTag(walkTag + s.id)
	var w dagx.Walk
	var err error
	if down {
		w, err = g.g.WalkDescendants(key)
	} else {
		w, err = g.g.WalkAncestors(key)
	}
	simrt.SetTag(old)
	what := fmt.Sprintf("walk from key %d on graph %d", key, g.id)
	if !d.errCheck("walk", what, err, g.m.vertexErrs(key)) {
		if w != nil {
			fail("walk-refused", "%s: a channel came with the error", what)
		}
		if n := simrt.LiveTagged(walkTag + s.id); n > 0 {
			fail("walk-refused", "%s was refused but started a background thread", what)
		}
		s.dead = true
		simrt.Wake(unsafe.Pointer(s))
		return
	}
	s.w, s.key, s.down, s.owner = w, key, down, g
	s.dist = g.m.dist(key, down)
	s.seen = make([]bool, len(s.dist))
	for _, x := range s.dist {
		if x > 0 {
			s.total++
		}
	}
	s.opened = true
	simrt.RaceRelease(unsafe.Pointer(&s.otok))
	simrt.Wake(unsafe.Pointer(s))
	n := 0
	for _, o := range d.slots {
		if o.opened && !o.closed && !o.left {
			n++
		}
	}
	if n > 1 {
		count("probe.concurrent_walks")
	}
	if s.consumer != nil && s.consumer.ended || s.consumer == nil {
		d.leave(s)
	}
}

// waitOpen waits until a walk has been opened.
func (d *dagEnv) waitOpen(t *cthread, s *slot) bool {
	for !s.opened && !s.dead {
		t.waiting = true
		d.wakeOwners()
		simrt.BlockOn(unsafe.Pointer(s), "a walk to be opened")
		t.waiting = false
	}
	if s.opened {
		simrt.RaceAcquire(unsafe.Pointer(&s.otok))
		return true
	}
	return false
}

func (d *dagEnv) recv(s *slot) {
	if s.closed || s.left {
		return
	}
	counted := s.stopped
	k, ok := s.w.Recv()
	simrt.Ev("got", k, s.id)
	what := fmt.Sprintf("walk %d from key %d on graph %d", s.id, s.key, s.owner.id)
	if !ok {
		s.closed = true
		simrt.RaceRelease(unsafe.Pointer(&s.tok))
		if !s.stopping {
			for k, x := range s.dist {
				if x > 0 && !s.seen[k] {
					fail("walk-missing", "%s ended without key %d (distance %d)", what, k, x)
				}
			}
		} else {
			count("probe.stopped_walk_closed")
		}
		d.wakeOwners()
		return
	}
	if counted {
		s.after++
		if s.after > 1 {
			fail("walk-after-stop", "%s delivered %d identifiers after it had been asked to stop", what, s.after)
		}
	}
	if k < 0 || k >= len(s.dist) || k == s.key || s.dist[k] <= 0 {
		fail("walk-extra", "%s delivered key %d, which is not a relative of it", what, k)
	}
	if s.seen[k] {
		fail("walk-duplicate", "%s delivered key %d twice", what, k)
	}
	s.seen[k] = true
	if s.dist[k] < s.last {
		fail("walk-order", "%s delivered key %d (distance %d) after one at distance %d", what, k, s.dist[k], s.last)
	}
	s.last = s.dist[k]
	s.got++
}

func (d *dagEnv) stop(s *slot, by string, how int) {
	if s.stopping {
		return
	}
	s.stopping = true
	switch {
	case s.closed:
		fault(by + "_after_end")
	case s.got == 0:
		fault(by + "_before_first")
	default:
		fault(by + "_midway")
	}
	s.w.Stop(how)
	s.stopped = true
	simrt.Ev("stopped", s.id, 0)
}

// consumer performs an operation on a walk.
func (d *dagEnv) consumer(t *cthread, o Op) {
	switch o.K {
	case "sl":
		fault("stall")
		simrt.Sleep(int64(o.A) * 1000)
		return
	case "yi":
		simrt.Gosched()
		return
	case "wr", "wd", "ws", "wl", "wt":
	default:
		return
	}
	s := d.slots[o.A]
	if t.id < len(d.graphs) && !s.opened && d.openedBy(s.id) == t.id {
		return // an owner cannot wait for itself
	}
	if !d.waitOpen(t, s) {
		return
	}
	if o.K == "wt" {
		d.stop(s, "third_party_stop", o.B)
		return
	}
	if s.consumer != t {
		return
	}
	switch o.K {
	case "wr":
		for i := 0; i < o.B; i++ {
			d.recv(s)
		}
	case "wd":
		for !s.closed && !s.left {
			d.recv(s)
		}
	case "ws":
		d.stop(s, "stop", o.B)
	case "wl":
		d.leave(s)
	}
}
