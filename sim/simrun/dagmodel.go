package main

import (
	"sort"

	"verif.local/sim/dagx"
)

// gmodel is the reference model of a graph: sorted adjacency lists.
type gmodel struct {
	n       int
	has     []bool
	val     []int
	out, in [][]int
}

func newModel(n int) *gmodel {
	return &gmodel{n: n, has: make([]bool, n), val: make([]int, n), out: make([][]int, n), in: make([][]int, n)}
}

func (m *gmodel) edge(a, b int) bool {
	l, x := m.out[a], b
	if len(m.in[b]) < len(l) {
		l, x = m.in[b], a
	}
	for _, y := range l {
		if y == x {
			return true
		}
	}
	return false
}

func (m *gmodel) setEdge(a, b int, on bool) {
	m.out[a] = with(m.out[a], b, on)
	m.in[b] = with(m.in[b], a, on)
}

// with adds an element to a sorted list, or takes it out.
func with(l []int, x int, on bool) []int {
	i := sort.SearchInts(l, x)
	there := i < len(l) && l[i] == x
	switch {
	case on && !there:
		l = append(l, 0)
		copy(l[i+1:], l[i:])
		l[i] = x
	case !on && there:
		l = append(l[:i], l[i+1:]...)
	}
	return l
}

// dist returns the distances from k over outgoing (or incoming) edges, -1 for
// unreachable vertices; the start has distance 0 only in the sense of not being
// its own relative.
func (m *gmodel) dist(k int, down bool) []int {
	d := make([]int, m.n)
	for i := range d {
		d[i] = -1
	}
	if !m.has[k] {
		return d
	}
	adj := m.out
	if !down {
		adj = m.in
	}
	queue := []int{k}
	d[k] = 0
	for len(queue) > 0 {
		x := queue[0]
		queue = queue[1:]
		for _, y := range adj[x] {
			if d[y] < 0 {
				d[y] = d[x] + 1
				queue = append(queue, y)
			}
		}
	}
	return d
}

func (m *gmodel) reaches(a, b int) bool { return a != b && m.dist(a, true)[b] > 0 }

func (m *gmodel) relatives(k int, down bool) []dagx.Entry {
	var out []dagx.Entry
	for i, d := range m.dist(k, down) {
		if d > 0 {
			out = append(out, dagx.Entry{K: i, V: m.val[i]})
		}
	}
	return out
}

func (m *gmodel) neighbours(k int, down bool) []dagx.Entry {
	adj := m.in
	if down {
		adj = m.out
	}
	var out []dagx.Entry
	for _, i := range adj[k] {
		out = append(out, dagx.Entry{K: i, V: m.val[i]})
	}
	return out
}

func (m *gmodel) vertices(keep func(k int) bool) []dagx.Entry {
	var out []dagx.Entry
	for i := 0; i < m.n; i++ {
		if m.has[i] && keep(i) {
			out = append(out, dagx.Entry{K: i, V: m.val[i]})
		}
	}
	return out
}

func (m *gmodel) order() int { return len(m.vertices(func(int) bool { return true })) }

func (m *gmodel) size() int {
	n := 0
	for _, l := range m.out {
		n += len(l)
	}
	return n
}

func (m *gmodel) deleteVertex(k int) {
	m.has[k] = false
	for _, i := range append([]int(nil), m.out[k]...) {
		m.setEdge(k, i, false)
	}
	for _, i := range append([]int(nil), m.in[k]...) {
		m.setEdge(i, k, false)
	}
}

// reduce removes every edge whose ends are joined by another path.
func (m *gmodel) reduce() int {
	type e struct{ a, b int }
	var cut []e
	from := make([][]int, m.n)
	for a := 0; a < m.n; a++ {
		for _, b := range m.out[a] {
			for _, c := range m.out[a] {
				if c == b {
					continue
				}
				if from[c] == nil {
					from[c] = m.dist(c, true)
				}
				if from[c][b] > 0 {
					cut = append(cut, e{a, b})
					break
				}
			}
		}
	}
	for _, x := range cut {
		m.setEdge(x.a, x.b, false)
	}
	return len(cut)
}

// lines returns what String must list.
func (m *gmodel) lines(text func(int) string) (vs, es []string) {
	for i := 0; i < m.n; i++ {
		if m.has[i] {
			vs = append(vs, text(i))
		}
		for _, j := range m.out[i] {
			es = append(es, text(i)+" -> "+text(j))
		}
	}
	sort.Strings(vs)
	sort.Strings(es)
	return
}

// Conditions under which an operation must be refused, by error name.

func (m *gmodel) vertexErrs(k int) []string {
	switch {
	case k == 0:
		return []string{"VertexIDEmpty"}
	case !m.has[k]:
		return []string{"VertexNotFound"}
	}
	return nil
}

func (m *gmodel) addVertexErrs(k int) []string {
	switch {
	case k == 0:
		return []string{"VertexIDEmpty"}
	case m.has[k]:
		return []string{"VertexDuplicate"}
	}
	return nil
}

func (m *gmodel) edgeErrs(a, b int) []string {
	var out []string
	if a == 0 {
		out = append(out, "EdgeSourceIDEmpty")
	}
	if b == 0 {
		out = append(out, "EdgeTargetIDEmpty")
	}
	if a == b {
		out = append(out, "EdgeSourceTargetIdentical")
	}
	if a != 0 && !m.has[a] {
		out = append(out, "EdgeSourceIDNotFound")
	}
	if b != 0 && !m.has[b] {
		out = append(out, "EdgeTargetIDNotFound")
	}
	return out
}

func (m *gmodel) addEdgeErrs(a, b int) []string {
	if e := m.edgeErrs(a, b); e != nil {
		return e
	}
	if m.edge(a, b) {
		return []string{"EdgeDuplicate"}
	}
	if m.reaches(b, a) {
		return []string{"EdgeLoop"}
	}
	return nil
}

func (m *gmodel) deleteEdgeErrs(a, b int) []string {
	if e := m.edgeErrs(a, b); e != nil {
		return e
	}
	if !m.edge(a, b) {
		return []string{"EdgeNotFound"}
	}
	return nil
}
