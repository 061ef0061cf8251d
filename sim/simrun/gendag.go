package main

import (
	"math/bits"

	"verif.local/sim/dagx"
	"verif.local/sim/simrt"
)

var generators = map[string]func(p *Plan, r *simrt.Rand){
	"G01": genG01, "G02": genG02, "G03": genG03, "G04": genG04, "G05": genG05, "G06": genG06,
	"G07": genG07, "G08": genG08, "G09": genG09, "G10": genG10, "G12": genG12,
}

// dgen writes the scripts of the graph engine. It keeps a model of each graph,
// so that most of the operations it writes do something.
type dgen struct {
	p    *Plan
	r    *simrt.Rand
	m    []*gmodel
	nval int
	slot int
	lo   []int // per graph: first key in use
	n    []int // per graph: number of keys in use
	q    []string

	large bool
	deep  bool // one long chain, longer than recursion limits people choose
	wide  bool // one vertex with more relatives than buffers people choose
	hubs  []int
	cost  int  // of answering about all vertices of a large graph
	dense bool // large, with an edge between most vertices
	long  int  // histories have so many times the usual number of operations
	still int  // in long histories, percentage of the questions not asked
}

var allQueries = []string{"qv", "qe", "qo", "ql", "qr", "qV", "qp", "qc", "qa", "qd", "oa", "od", "str"}
var reachQueries = []string{"qa", "qd"}

// deepRuns says how many runs there are of a property for each with a very deep
// graph.
var deepRuns = map[string]int{"G01": 600, "G03": 600, "G04": 300, "G05": 600, "G06": 400, "G07": 600}

// wideRuns says the same of very wide graphs.
var wideRuns = map[string]int{"G01": 300, "G02": 600, "G03": 300, "G05": 600, "G06": 600, "G09": 600}

func newDgen(p *Plan, r *simrt.Rand, graphs int) *dgen {
	p.Engine = "dag"
	p.Cfg["graphs"] = graphs
	p.Cfg["kind"] = r.Intn(dagx.Kinds)
	d := &dgen{p: p, r: r, q: allQueries, long: 1}
	large := 0
	if every := deepRuns[p.Prop]; graphs == 1 && every > 0 && r.Intn(every) == 0 {
		large = 1<<10 + r.Intn(1<<uint(4+r.Intn(5))) - 8
		p.Cfg["kind"] = r.Intn(2) // other keys take longer to hash
		p.Cfg["max"] = large + 3
		p.Sched.Budget *= 15
		d.large, d.deep = true, true
	} else if every := wideRuns[p.Prop]; graphs == 1 && every > 0 && r.Intn(every) == 0 {
		large = 1<<uint(10+r.Intn(3)) + r.Intn(1<<uint(4+r.Intn(5))) - 8
		p.Cfg["kind"] = r.Intn(2)
		p.Cfg["max"] = large + 3
		p.Sched.Budget *= 15
		d.large, d.wide = true, true
	} else if graphs == 1 && r.Intn(40) == 0 {
		switch r.Intn(40) {
		case 0:
			large = 600 + r.Intn(600)
			if p.Cfg["kind"] == dagx.U8Kind {
				p.Cfg["kind"] = 0
			}
		case 1, 2, 3, 4, 5, 6, 7:
			large = 70 + r.Intn(160)
		case 8, 9, 10, 11, 12:
			large = 28 + r.Intn(22)
			d.dense = true
		default:
			large = 18 + r.Intn(60)
		}
		p.Cfg["max"] = large + 3
		p.Sched.Budget *= 15
		d.large = true
	} else if r.Intn(60) == 0 {
		d.long = 5 + r.Intn(16)
		if r.Intn(4) == 0 {
			d.long += r.Intn(40)
		}
		d.still = r.Intn(100)
		p.Sched.Budget *= uint64(d.long)
	}
	for i := 0; i < graphs; i++ {
		d.m = append(d.m, newModel(universe(p.Cfg["max"])))
		n := 2 + r.Intn(9)
		if r.Intn(6) == 0 {
			n = 10 + r.Intn(8)
		}
		if large > 0 {
			n = large
		}
		d.n = append(d.n, n)
		if n > p.Cfg["keys"] {
			p.Cfg["keys"] = n
		}
	}
	return d
}

func (d *dgen) op(t int, k string, a, b, c int) {
	d.p.Ops = append(d.p.Ops, Op{T: t, K: k, A: a, B: b, C: c})
}

// change appends a change and applies it to the model if it will be accepted.
func (d *dgen) change(g int, k string, a, b int) {
	m := d.m[g]
	d.op(g, k, a, b, 0)
	switch k {
	case "av":
		if m.addVertexErrs(a) == nil {
			m.has[a] = true
		}
	case "dv":
		if m.vertexErrs(a) == nil {
			m.deleteVertex(a)
		}
	case "ae":
		if m.addEdgeErrs(a, b) == nil {
			m.setEdge(a, b, true)
		}
	case "de":
		if m.deleteEdgeErrs(a, b) == nil {
			m.setEdge(a, b, false)
		}
	case "red":
		m.reduce()
	}
}

func (d *dgen) key(g int) int {
	if d.r.Intn(40) == 0 {
		return 0
	}
	return 1 + d.r.Intn(d.n[g])
}

// known returns a vertex of the graph, if there is one.
func (d *dgen) known(g int) int {
	var ks []int
	for k, h := range d.m[g].has {
		if h {
			ks = append(ks, k)
		}
	}
	if len(ks) == 0 {
		return d.key(g)
	}
	return ks[d.r.Intn(len(ks))]
}

// rich returns a vertex with many relatives in the given direction.
func (d *dgen) rich(g int, down bool) int {
	best, bn := d.known(g), -1
	for i := 0; i < 3; i++ {
		k := d.known(g)
		if n := len(d.m[g].relatives(k, down)); n > bn {
			best, bn = k, n
		}
	}
	return best
}

// build appends the construction of a graph, now and then asking something on
// the way.
func (d *dgen) build(g int, ask float64) {
	r := d.r
	n := d.n[g]
	perm := make([]int, n)
	for i := range perm {
		perm[i] = i + 1
	}
	for i := n - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		perm[i], perm[j] = perm[j], perm[i]
	}
	type e struct{ a, b int }
	var es []e
	shape := r.Intn(8)
	dens := 0.1 + 0.5*r.Float()
	bound := 60
	width := 2 + r.Intn(1+n/3)
	drop := 20 // one edge in so many is left out
	if d.large {
		drop = 20 * n
		bound = 2*n + 100
		shape = 10 + r.Intn(10)
		switch {
		case d.deep:
			shape = 10
		case d.wide:
			shape = 13 + r.Intn(3)
			d.hubs = []int{perm[0], perm[n-1]}
		case d.dense:
			shape = 4
			drop = 3 + r.Intn(30)
			bound = 1200
		}
		dens = (1 + 3*r.Float()) / float64(n)
		if n > 200 {
			ask = 0
		} else {
			ask /= 10
		}
	}
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			in := false
			switch shape {
			case 0: // chain with shortcuts
				in = j == i+1 || r.Bool(.15)
			case 1: // layers of two
				in = j/2 == i/2+1
			case 2: // tree
				in = (j-1)/2 == i
			case 3: // star outwards, and back in
				in = i == 0 || j == n-1
			case 4: // complete
				in = true
			case 5: // layers of three, with some jumps
				in = j/3 == i/3+1 && r.Bool(.7) || j/3 == i/3+2 && r.Bool(.3)
			case 10: // chain
				in = j == i+1
			case 11: // wide layers, each vertex with a few neighbours in the next
				in = j/width == i/width+1 && r.Intn(width) < 2
			case 12: // wide tree
				in = (j-1)/width == i
			case 13: // star outwards
				in = i == 0
			case 14: // star inwards
				in = j == n-1
			case 15: // star outwards, and back in
				in = i == 0 || j == n-1
			case 16: // a few long chains from one vertex
				in = i == 0 && j <= width || j == i+width
			case 17: // a hub and its peers, each going on to others
				h := 3 + (n-3)*2/3
				in = i == 0 && j < 3 || i == 1 && j >= 3 && j < h || i >= 2 && i < h && j >= h && (j-h == i%(n-h) || r.Intn(4*n) == 0)
			case 18: // the same the other way round
				h := (n - 3) / 3
				in = j == n-1 && i >= n-3 || j == n-2 && i >= h && i < n-3 || j >= h && i < h && (i == j%(h+1) || r.Intn(4*n) == 0)
			default:
				in = r.Bool(dens)
			}
			if in && (d.deep || r.Intn(drop) != 0) {
				es = append(es, e{perm[i], perm[j]})
			}
		}
	}
	if len(es) > bound {
		es = es[:bound]
	}
	order := 2
	if d.large {
		order = r.Intn(5)
	}
	if d.deep {
		order = 3
	}
	if order == 0 { // from the end
		for i, j := 0, len(es)-1; i < j; i, j = i+1, j-1 {
			es[i], es[j] = es[j], es[i]
		}
	}
	for i := len(es) - 1; i > 0 && order > 1; i-- {
		j := r.Intn(i + 1)
		es[i], es[j] = es[j], es[i]
	}
	if d.deep {
		// The link at one end comes last, and what was known about all the others
		// no longer holds.
		end, at := r.Intn(2), 0
		for i, x := range es {
			if end == 0 && x.a == perm[0] || end == 1 && x.b == perm[n-1] {
				at = i
			}
		}
		x := es[at]
		es = append(append(es[:at:at], es[at+1:]...), x)
	}
	lazy := r.Intn(3) == 0 // vertices are added when first needed
	if !lazy {
		for _, k := range perm {
			d.change(g, "av", k, 0)
		}
	}
	var work *effort
	if d.large {
		work = newEffort(d.m[g])
	}
	for _, x := range es {
		if work != nil && work.edge(x.a, x.b) > 5_000_000 {
			break
		}
		for _, k := range []int{x.a, x.b} {
			if !d.m[g].has[k] {
				d.change(g, "av", k, 0)
			}
		}
		d.change(g, "ae", x.a, x.b)
		if r.Bool(ask) {
			d.query(g)
		}
	}
	if d.deep || d.wide {
		for i := 1 + r.Intn(4); i > 0; i-- {
			x := r.Intn(1 + r.Intn(20))
			if r.Intn(2) == 0 {
				d.op(g, d.q[r.Intn(len(d.q))], perm[n-1-x], perm[x], 0)
			} else {
				d.op(g, d.q[r.Intn(len(d.q))], perm[x], perm[n-1-x], 0)
			}
		}
	}
	if work != nil {
		d.cost = work.all()
		if d.wide && d.cost < n*n/4 {
			d.cost = n * n / 4 // of the model
		}
	}
	for _, k := range perm {
		if !d.m[g].has[k] && r.Intn(2) == 0 {
			d.change(g, "av", k, 0)
		}
	}
}

// effort estimates what it takes to build a large graph and to answer about its
// vertices, so that no single run takes minutes. It imitates an implementation
// that, after each change, finds out the relatives of the vertices concerned anew.
type effort struct {
	m     *gmodel
	sets  [2][][]uint64 // ancestors, descendants
	count [2][]int
	total int
}

func newEffort(m *gmodel) *effort {
	w := &effort{m: m}
	for dir := range w.sets {
		w.sets[dir] = make([][]uint64, m.n)
		w.count[dir] = make([]int, m.n)
		for k := range w.sets[dir] {
			w.sets[dir][k] = make([]uint64, (m.n+63)/64)
		}
	}
	return w
}

func (w *effort) next(dir, k int) []int {
	if dir == 1 {
		return w.m.out[k]
	}
	return w.m.in[k]
}

// of returns the cost of finding all relatives of k.
func (w *effort) of(dir, k int) int {
	cost := 0
	w.each(dir, k, func(v int) {
		for _, x := range w.next(dir, v) {
			cost += w.count[dir][x] + 1
		}
	})
	return cost
}

// each visits k and its relatives.
func (w *effort) each(dir, k int, f func(v int)) {
	f(k)
	for i, x := range w.sets[dir][k] {
		for ; x != 0; x &= x - 1 {
			f(64*i + bits.TrailingZeros64(x))
		}
	}
}

// edge accounts for a new edge and returns the total so far.
func (w *effort) edge(a, b int) int {
	w.total += w.of(1, b) + w.of(0, a)
	join := func(dir, to, from int) {
		s := w.sets[dir][to]
		n := 0
		for i, x := range w.sets[dir][from] {
			s[i] |= x
			if i == from/64 {
				s[i] |= 1 << uint(from%64)
			}
			n += bits.OnesCount64(s[i])
		}
		w.count[dir][to] = n
	}
	w.each(0, a, func(v int) { join(1, v, b) })
	w.each(1, b, func(v int) { join(0, v, a) })
	return w.total
}

// all returns the cost of finding all relatives of all vertices in one direction.
func (w *effort) all() int {
	cost := 0
	for k := range w.m.out {
		for _, x := range w.m.out[k] {
			cost += w.count[1][x] + 1
		}
	}
	return cost
}

// query appends a question.
func (d *dgen) query(g int) {
	if d.still > 0 && d.r.Intn(100) < d.still {
		return
	}
	k := d.q[d.r.Intn(len(d.q))]
	a := d.known(g)
	if d.r.Intn(12) == 0 {
		a = d.key(g)
	}
	b := d.known(g)
	if d.r.Intn(12) == 0 {
		b = d.key(g)
	}
	if len(d.hubs) > 0 && d.r.Intn(2) == 0 {
		a = d.hubs[d.r.Intn(2)]
	}
	d.op(g, k, a, b, 0)
}

// mutate appends a change of the given mix: weights of av, dv, ae, de, red.
func (d *dgen) mutate(g int, w [5]int, bad float64) {
	r := d.r
	m := d.m[g]
	tot := 0
	for _, x := range w {
		tot += x
	}
	x := r.Intn(tot)
	k := 0
	for x >= w[k] {
		x -= w[k]
		k++
	}
	wrong := r.Bool(bad)
	switch k {
	case 0:
		a := d.key(g)
		for i := 0; i < 8 && m.has[a] != wrong; i++ {
			a = d.key(g)
		}
		d.change(g, "av", a, 0)
	case 1:
		a := d.known(g)
		if wrong {
			a = d.key(g)
		}
		d.change(g, "dv", a, 0)
	case 2:
		a, b := d.known(g), d.known(g)
		if wrong {
			switch r.Intn(4) {
			case 0: // unknown, empty, identical
				a, b = d.key(g), d.key(g)
			case 1: // duplicate
				a, b = d.edge(g)
			default: // loop
				if a = d.rich(g, false); true {
					if rel := m.relatives(a, false); len(rel) > 0 {
						b = rel[r.Intn(len(rel))].K
					}
				}
			}
		} else {
			for i := 0; i < 12 && m.addEdgeErrs(a, b) != nil; i++ {
				a, b = d.known(g), d.known(g)
			}
		}
		d.change(g, "ae", a, b)
	case 3:
		a, b := d.edge(g)
		if wrong {
			switch r.Intn(3) {
			case 0:
				a, b = b, a
			case 1:
				a, b = d.key(g), d.key(g)
			default:
				a, b = d.known(g), d.known(g)
			}
		}
		d.change(g, "de", a, b)
	case 4:
		d.change(g, "red", 0, 0)
	}
}

func (d *dgen) edge(g int) (int, int) {
	m := d.m[g]
	type e struct{ a, b int }
	var es []e
	for a := range m.out {
		for _, b := range m.out[a] {
			es = append(es, e{a, b})
		}
	}
	if len(es) == 0 {
		return d.known(g), d.known(g)
	}
	x := es[d.r.Intn(len(es))]
	return x.a, x.b
}

// churn asks about every vertex, makes a certain number of changes that mostly
// cancel out, and asks again.
func (d *dgen) churn(g int) {
	r := d.r
	m := d.m[g]
	var ks []int
	for k, h := range m.has {
		if h {
			ks = append(ks, k)
		}
	}
	ask := func() {
		for _, k := range ks {
			for _, q := range d.q {
				if q == "qa" || q == "qd" {
					d.op(g, q, k, 0, 0)
				}
			}
		}
	}
	n := 1<<(5+r.Intn(4)) + r.Intn(5) - 2
	switch r.Intn(24) {
	case 0:
		n = 1<<(9+r.Intn(3)) + r.Intn(3) - 1
	case 1, 2, 3:
		n = 1 + r.Intn(300)
	}
	d.p.Sched.Budget += uint64(n) * 40_000
	a, b := d.known(g), d.known(g)
	for i := 0; i < 30 && m.addEdgeErrs(a, b) != nil; i++ {
		a, b = d.known(g), d.known(g)
	}
	kind := r.Intn(4)
	if m.addEdgeErrs(a, b) != nil && kind < 2 {
		kind = 2
	}
	fresh := 0
	for k := 1; k <= d.n[g]; k++ {
		if !m.has[k] {
			fresh = k
		}
	}
	if kind == 2 && fresh == 0 {
		kind = 3
	}
	ask()
	at := r.Intn(n)
	for i := 0; i < n; i++ {
		if i == at {
			d.mutate(g, [5]int{0, 0, 3, 3, 0}, 0)
			continue
		}
		switch kind {
		case 0, 1:
			if m.addEdgeErrs(a, b) == nil {
				d.change(g, "ae", a, b)
			} else {
				d.change(g, "de", a, b)
			}
		case 2:
			if m.addVertexErrs(fresh) == nil {
				d.change(g, "av", fresh, 0)
			} else {
				d.change(g, "dv", fresh, 0)
			}
		default:
			d.mutate(g, [5]int{0, 0, 4, 4, 0}, 0)
		}
	}
	ask()
}

// period asks about a few vertices, asks about others a certain number of times,
// and asks about the few again: whatever counts the questions has come round.
func (d *dgen) period(g, c int) {
	r := d.r
	m := d.m[g]
	power := []int{8, 8, 8, 7, 6, 5, 4}[r.Intn(7)]
	n := 1<<uint(power) + r.Intn(3) - 1
	if r.Intn(3) == 0 {
		n = 1 << uint(power)
	}
	d.p.Sched.Budget += uint64(n) * 60_000
	dir := r.Intn(2)
	kind := r.Intn(3) // walks, ordered lists, walks and other questions
	ask := func(k, dir int) {
		if kind == 1 {
			d.op(g, []string{"oa", "od"}[dir], k, 0, 0)
			return
		}
		s := d.slot
		d.slot++
		d.op(g, "wo", k, dir, s)
		d.op(c, "wd", s, 0, 0)
	}
	var ks, others []int
	for i := 1 + r.Intn(3); i > 0; i-- {
		ks = append(ks, d.rich(g, dir == 1))
	}
	least := -1
	for k, h := range m.has {
		if h {
			if x := len(m.relatives(k, dir == 1)); least < 0 || x <= least {
				if x < least {
					others = nil
				}
				least = x
				others = append(others, k)
			}
		}
	}
	if least < 0 {
		return
	}
	mixed := r.Intn(2) == 0
	for _, k := range ks {
		ask(k, dir)
	}
	for i := len(ks); i < n; i++ {
		k := others[r.Intn(len(others))]
		x := dir
		if mixed && r.Intn(2) == 0 {
			x = 1 - dir
			k = ks[r.Intn(len(ks))]
		}
		ask(k, x)
		if kind == 2 && r.Intn(4) == 0 {
			d.query(g)
		}
	}
	for _, k := range ks {
		ask(k, dir)
	}
}

// Ways to read a walk.
const (
	wDrain      = 1 << iota // read to the end
	wStop                   // stop part-way, read to the end
	wStopLeave              // stop part-way and read no more
	wAbandon                // read part and read no more
	wLate                   // read to the end, then stop
	wThird                  // another thread sends the stop request
	wExact                  // read all identifiers but not the end
	wLastStop               // stop when the last identifier has been read
	wUnreadStop             // ask to stop at once
)

// walk appends a walk of graph g, read by thread c in the given way.
func (d *dgen) walk(g, c int, ways int, third int) {
	r := d.r
	down := r.Intn(2)
	key := d.rich(g, down == 1)
	if d.wide {
		for _, k := range d.hubs {
			if len(d.m[g].relatives(k, down == 1)) > len(d.m[g].relatives(key, down == 1)) {
				key = k
			}
		}
	} else if d.large {
		for i := 0; i < 40; i++ {
			if k := d.rich(g, down == 1); len(d.m[g].relatives(k, down == 1)) > len(d.m[g].relatives(key, down == 1)) {
				key = k
			}
		}
	}
	if r.Intn(15) == 0 {
		key = d.key(g)
	}
	s := d.slot
	d.slot++
	d.op(g, "wo", key, down, s)
	n := len(d.m[g].relatives(key, down == 1))
	var ws []int
	for w := 1; w <= wUnreadStop; w <<= 1 {
		if ways&w != 0 && (w != wThird || third >= 0) {
			ws = append(ws, w)
		}
	}
	part := 0
	if n > 0 {
		part = r.Intn(n + 1)
	}
	read := func(k int) {
		for k > 0 {
			x := 1 + r.Intn(k)
			d.op(c, "wr", s, x, 0)
			k -= x
			d.pause(c)
		}
	}
	switch ws[r.Intn(len(ws))] {
	case wDrain:
		read(part)
		d.op(c, "wd", s, 0, 0)
	case wStop:
		read(part)
		d.op(c, "ws", s, d.how(), 0)
		d.pause(c)
		d.op(c, "wd", s, 0, 0)
	case wStopLeave:
		read(part)
		d.op(c, "ws", s, d.how(), 0)
		if r.Intn(3) == 0 {
			d.op(c, "wr", s, 1, 0)
		}
		d.op(c, "wl", s, 0, 0)
	case wAbandon:
		read(part)
		d.op(c, "wl", s, 0, 0)
	case wLate:
		read(part)
		d.op(c, "wd", s, 0, 0)
		d.pause(c)
		d.op(c, "ws", s, d.how(), 0)
	case wThird:
		read(part)
		d.pause(third)
		d.op(third, "wt", s, d.how(), 0)
		d.op(c, "wd", s, 0, 0)
	case wExact:
		d.op(c, "wr", s, n, 0)
		d.op(c, "wl", s, 0, 0)
	case wLastStop:
		d.op(c, "wr", s, n, 0)
		d.pause(c)
		d.op(c, "ws", s, d.how(), 0)
		if r.Intn(2) == 0 {
			d.op(c, "wd", s, 0, 0)
		}
	case wUnreadStop:
		d.op(c, "ws", s, d.how(), 0)
		if r.Intn(3) != 0 {
			d.op(c, "wd", s, 0, 0)
		}
	}
}

// crowd starts many walks before any of them is read.
func (d *dgen) crowd(g, nc, ways int) {
	r := d.r
	n := 4<<r.Intn(6) + r.Intn(6)
	if r.Intn(12) == 0 {
		n = 100 + r.Intn(300)
	}
	d.p.Sched.Budget += uint64(n) * 60_000
	type w struct{ slot, of, c int }
	var ws []w
	for i := 0; i < n; i++ {
		down := r.Intn(2)
		key := d.known(g)
		s := d.slot
		d.slot++
		d.op(g, "wo", key, down, s)
		c := g
		if nc > 0 && r.Intn(3) > 0 {
			c = len(d.m) + r.Intn(nc)
		}
		ws = append(ws, w{s, len(d.m[g].relatives(key, down == 1)), c})
		if r.Intn(6) == 0 {
			d.query(g)
		}
	}
	for i := n - 1; i > 0; i-- {
		if j := r.Intn(i + 1); r.Intn(3) > 0 {
			ws[i], ws[j] = ws[j], ws[i]
		}
	}
	keep := r.Intn(100)
	for _, w := range ws {
		switch {
		case r.Intn(100) < keep && w.of > 0:
			d.op(w.c, "wr", w.slot, 1+r.Intn(w.of), 0)
		case ways&wStop != 0 && r.Intn(2) == 0:
			if r.Intn(2) == 0 {
				d.op(w.c, "wr", w.slot, 1, 0)
			}
			d.op(w.c, "ws", w.slot, d.how(), 0)
			if ways&wStopLeave == 0 || r.Intn(2) == 0 {
				d.op(w.c, "wd", w.slot, 0, 0)
			}
		default:
			d.op(w.c, "wd", w.slot, 0, 0)
		}
		if r.Intn(6) == 0 {
			d.query(g)
		}
	}
	for _, w := range ws {
		if ways&(wAbandon|wStopLeave) == 0 || r.Intn(2) == 0 {
			d.op(w.c, "wd", w.slot, 0, 0)
		}
	}
}

// how draws the value of a stop request: true, now and then false.
func (d *dgen) how() int {
	if d.r.Intn(8) == 0 {
		return 1
	}
	return 0
}

func (d *dgen) pause(t int) {
	switch d.r.Intn(5) {
	case 0:
		d.op(t, "sl", stall(d.r, 11), 0, 0)
	case 1:
		d.op(t, "yi", 0, 0, 0)
	}
}

// rounds returns how many rounds a history has that usually has n.
func (d *dgen) rounds(n int) int {
	if most := 2_000_000 / (1 + d.cost); d.large && n > 1+most {
		return 1 + n%(1+most)
	}
	return d.long * n
}

var mixAny = [5]int{3, 3, 6, 4, 1}

func genG01(p *Plan, r *simrt.Rand) {
	d := newDgen(p, r, 1)
	d.q = reachQueries
	d.build(0, .05)
	nc := 1 + r.Intn(4)
	if !d.large && r.Intn(60) == 0 {
		d.crowd(0, nc, wDrain)
	}
	if !d.large && r.Intn(25) == 0 {
		d.period(0, r.Intn(2))
	}
	for i := d.rounds(1 + r.Intn(6)); i > 0; i-- {
		c := r.Intn(nc + 1) // 0 is the owner
		d.walk(0, c, wDrain, -1)
		if r.Intn(2) == 0 {
			for j := r.Intn(4); j > 0; j-- {
				d.mutate(0, mixAny, .1)
			}
		}
	}
}

func genG02(p *Plan, r *simrt.Rand) {
	d := newDgen(p, r, 1)
	d.q = reachQueries
	d.build(0, 0)
	nc := 1 + r.Intn(3)
	if !d.large && r.Intn(60) == 0 {
		d.crowd(0, nc, wStop|wStopLeave)
	}
	for i := d.rounds(1 + r.Intn(4)); i > 0; i-- {
		c := r.Intn(nc + 1)
		third := r.Intn(nc + 1)
		if third == c {
			third = -1
		}
		d.walk(0, c, wDrain|wStop|wStopLeave|wLate|wThird|wExact|wLastStop|wUnreadStop, third)
	}
	if r.Intn(3) == 0 {
		for j := r.Intn(4); j > 0; j-- {
			d.mutate(0, mixAny, .1)
		}
	}
}

func genG03(p *Plan, r *simrt.Rand) {
	d := newDgen(p, r, 1)
	d.build(0, 0)
	d.q = []string{"oa", "od"}
	nc := r.Intn(3)
	if !d.large && r.Intn(40) == 0 {
		d.period(0, 0)
	}
	for i := d.rounds(2 + r.Intn(8)); i > 0; i-- {
		if nc > 0 && r.Intn(3) == 0 {
			d.walk(0, 1+r.Intn(nc), wDrain, -1)
		}
		d.query(0)
		for j := r.Intn(4); j > 0; j-- {
			d.mutate(0, mixAny, .1)
		}
	}
}

func genG04(p *Plan, r *simrt.Rand) {
	d := newDgen(p, r, 1)
	if r.Intn(2) == 0 {
		d.build(0, .2)
	}
	d.q = []string{"qa", "qd", "qd", "oa", "od"}
	mix := [5]int{2, 2, 10, 4, 1}
	if !d.large && r.Intn(80) == 0 {
		d.churn(0)
	}
	for i := d.rounds(10 + r.Intn(30)); i > 0; i-- {
		d.mutate(0, mix, .35)
		if r.Intn(3) == 0 {
			d.query(0)
		}
		if r.Intn(12) == 0 {
			d.op(0, "snap", 0, 0, 0)
		}
	}
	if r.Intn(3) == 0 {
		d.walk(0, 1, wDrain, -1)
	}
}

func genG05(p *Plan, r *simrt.Rand) {
	d := newDgen(p, r, 1)
	if r.Intn(3) != 0 {
		d.build(0, .1)
	}
	if !d.large && r.Intn(200) == 0 {
		d.period(0, 0)
	}
	for i := d.rounds(8 + r.Intn(30)); i > 0; i-- {
		d.mutate(0, mixAny, .25)
		for r.Intn(2) == 0 {
			d.query(0)
		}
		if r.Intn(10) == 0 {
			d.op(0, "snap", 0, 0, 0)
		}
	}
	if r.Intn(4) == 0 && !d.large {
		p.Cfg["snap"] = 1
	}
}

func genG06(p *Plan, r *simrt.Rand) {
	d := newDgen(p, r, 1)
	d.q = reachQueries
	d.build(0, .1)
	mix := [5]int{3, 3, 6, 6, 1}
	if r.Intn(2) == 0 {
		mix[4] = 0
	}
	if !d.large && r.Intn(25) == 0 {
		d.churn(0)
		if r.Intn(2) == 0 {
			return
		}
	}
	for i := d.rounds(5 + r.Intn(25)); i > 0; i-- {
		for j := r.Intn(5); j > 0; j-- {
			d.query(0)
		}
		d.mutate(0, mix, .1)
		for j := r.Intn(3); j > 0; j-- {
			d.query(0)
		}
	}
	if r.Intn(5) == 0 && !d.large {
		p.Cfg["snap"] = 1
	}
}

func genG07(p *Plan, r *simrt.Rand) {
	d := newDgen(p, r, 1)
	d.q = []string{"qa", "qd", "qa", "qd", "oa", "od", "qe", "qo"}
	d.build(0, []float64{0, 0, .1, .4}[r.Intn(4)])
	for round := d.rounds(1 + r.Intn(3)); round > 0; round-- {
		if r.Intn(2) == 0 {
			for j := r.Intn(6); j > 0; j-- {
				d.mutate(0, [5]int{2, 1, 8, 2, 0}, .05)
			}
		}
		for j := r.Intn(5); j > 0; j-- {
			d.query(0)
		}
		d.change(0, "red", 0, 0)
		for j := r.Intn(5); j > 0; j-- {
			d.query(0)
		}
		switch r.Intn(4) {
		case 0:
			d.op(0, "snap", 0, 0, 0)
		case 1:
			d.change(0, "red", 0, 0)
		case 2:
			d.walk(0, 1, wDrain, -1)
		}
		for j := r.Intn(5); j > 0; j-- {
			d.mutate(0, mixAny, .2)
		}
	}
}

func genG08(p *Plan, r *simrt.Rand) {
	d := newDgen(p, r, 1)
	d.q = []string{"qa", "qd", "qa", "qd", "qp", "qc", "ql", "qr", "qV", "oa", "od"}
	d.build(0, .2)
	nc := r.Intn(3)
	for i := d.rounds(8 + r.Intn(25)); i > 0; i-- {
		switch x := r.Intn(10); {
		case x < 4:
			d.query(0)
		case x < 7:
			d.op(0, "scr", r.Intn(4), r.Intn(4), 0)
		case x < 8:
			d.mutate(0, mixAny, .05)
		case x < 9:
			d.op(0, "rck", 0, 0, 0)
		default:
			if nc > 0 {
				d.walk(0, 1+r.Intn(nc), wDrain|wStop, -1)
			} else {
				d.query(0)
			}
		}
	}
}

func genG09(p *Plan, r *simrt.Rand) {
	d := newDgen(p, r, 1)
	d.build(0, []float64{0, 0, .3}[r.Intn(3)])
	nc := 1 + r.Intn(4)
	if r.Intn(40) == 0 {
		nc += r.Intn(20)
	}
	if !d.large && r.Intn(40) == 0 {
		ways := wDrain | wStop
		if r.Intn(4) == 0 {
			d.crowd(0, nc, ways|wStopLeave|wAbandon)
			return
		}
		d.crowd(0, nc, ways)
	}
	if !d.large && r.Intn(200) == 0 {
		d.period(0, r.Intn(2))
	}
	for i := d.rounds(2 + r.Intn(5)); i > 0; i-- {
		c := r.Intn(nc + 1)
		ways := wDrain | wStop
		if i == 1 {
			ways |= wStopLeave | wAbandon
		}
		third := r.Intn(nc + 1)
		if third != c && r.Intn(4) == 0 {
			ways |= wThird
		} else {
			third = -1
		}
		if c == 0 {
			// The owner reads a walk of its own between questions.
			at := len(p.Ops)
			d.walk(0, 0, ways&^wThird, -1)
			tail := append([]Op(nil), p.Ops[at:]...)
			p.Ops = p.Ops[:at]
			for _, o := range tail {
				p.Ops = append(p.Ops, o)
				if r.Intn(2) == 0 {
					d.query(0)
				}
			}
		} else {
			d.walk(0, c, ways, third)
		}
		for j := r.Intn(6); j > 0; j-- {
			d.query(0)
		}
		if r.Intn(2) == 0 {
			for j := 1 + r.Intn(3); j > 0; j-- {
				d.mutate(0, mixAny, .1)
			}
		}
	}
}

func genG10(p *Plan, r *simrt.Rand) {
	ng := 2 + r.Intn(3)
	if r.Intn(40) == 0 {
		ng += r.Intn(15)
	}
	d := newDgen(p, r, ng)
	if r.Intn(3) == 0 {
		p.Cfg["mixed"] = 1
	}
	nc := r.Intn(3)
	for g := 0; g < ng; g++ {
		if d.n[g] > 8 {
			d.n[g] = 8
		}
		if ng > 4 && d.n[g] > 4 {
			d.n[g] = 4
		}
		d.build(g, .2)
		for i := d.rounds(3 + r.Intn(12)); i > 0; i-- {
			switch x := r.Intn(10); {
			case x < 4:
				d.query(g)
			case x < 8:
				d.mutate(g, [5]int{3, 3, 6, 4, 2}, .25)
			default:
				c := ng + r.Intn(nc+1)
				if nc == 0 || r.Intn(2) == 0 {
					c = g
				}
				d.walk(g, c, wDrain|wStop, -1)
			}
		}
	}
}

func genG12(p *Plan, r *simrt.Rand) {
	d := newDgen(p, r, 1)
	d.build(0, .1)
	for i := d.rounds(6 + r.Intn(20)); i > 0; i-- {
		switch x := r.Intn(10); {
		case x < 6:
			d.mutate(0, [5]int{3, 3, 8, 4, 1}, .6)
			if r.Intn(5) == 0 {
				d.op(0, "snap", 0, 0, 0)
			}
		case x < 9:
			a, b := d.key(0), d.key(0)
			k := allQueries[r.Intn(len(allQueries))]
			d.op(0, k, a, b, 0)
		default:
			d.walk(0, r.Intn(2), wDrain, -1)
		}
	}
}
