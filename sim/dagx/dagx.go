// Package dagx gives the harness a uniform, non-generic view of graphs and sets
// over several key and value types. It is compiled with race instrumentation:
// the bodies of generic types are compiled where they are instantiated, so the
// code under test is instantiated here and nowhere else in the harness.
package dagx

import (
	"sort"
	"strconv"

	"github.com/hexbee-net/etxe/pkg/dag"

	"verif.local/sim/simrt"
)

// Entry is an element of a collection: the numbers of its key and value, -1 for
// ones that were never handed to the graph.
type Entry struct{ K, V int }

// Coll is a collection returned by a query.
type Coll interface {
	Nil() bool
	Entries() []Entry  // sorted by key; for a list, in order, with V = 0
	Scribble(mode int) // modify it in place
	IsList() bool
}

// Walk is a walk in progress.
type Walk interface {
	Recv() (k int, ok bool)
	Stop(how int)
}

// Graph is a graph whose vertices are numbered; number 0 is the empty key.
type Graph interface {
	AddVertex(k, v int) error
	DeleteVertex(k int) error
	AddEdge(a, b int) error
	DeleteEdge(a, b int) error
	Reduce()

	Vertex(k int) (v int, isNil bool, err error)
	IsEdge(a, b int) (bool, error)
	Order() int
	Size() int
	Leaves() Coll
	Roots() Coll
	Vertices() Coll
	Parents(k int) (Coll, error)
	Children(k int) (Coll, error)
	Ancestors(k int) (Coll, error)
	Descendants(k int) (Coll, error)
	OrderedAncestors(k int) (Coll, error)
	OrderedDescendants(k int) (Coll, error)
	WalkAncestors(k int) (Walk, error)
	WalkDescendants(k int) (Walk, error)
	String() string

	KeyText(k int) string // what %v prints for the key
	Own() bool            // whether vertices are to carry their own identifiers
}

// Errors of the package under test, by name.
var Errors = []struct {
	Name string
	Err  error
}{
	{"VertexIDEmpty", dag.ErrVertexIDEmpty},
	{"VertexDuplicate", dag.ErrVertexDuplicate},
	{"VertexNotFound", dag.ErrVertexNotFound},
	{"EdgeSourceIDEmpty", dag.ErrEdgeSourceIDEmpty},
	{"EdgeTargetIDEmpty", dag.ErrEdgeTargetIDEmpty},
	{"EdgeSourceIDNotFound", dag.ErrEdgeSourceIDNotFound},
	{"EdgeTargetIDNotFound", dag.ErrEdgeTargetIDNotFound},
	{"EdgeSourceTargetIdentical", dag.ErrEdgeSourceTargetIdentical},
	{"EdgeDuplicate", dag.ErrEdgeDuplicate},
	{"EdgeNotFound", dag.ErrEdgeNotFound},
	{"EdgeLoop", dag.ErrEdgeLoop},
}

// MaxKeys is the number of keys of each kind, unless there are to be more.
const MaxKeys = 20

// U8Kind is the kind with the fewest keys, 256.
const U8Kind = 5

// Kinds is the number of graph kinds.
const Kinds = 13

type pair struct {
	A string
	B int
}

type named string

func (n named) String() string { return "<" + string(n) + ">" }

type boxed struct{ N int }

// New makes a graph of the given kind with n possible keys.
func New(kind, n int) Graph {
	switch kind % Kinds {
	case 0:
		return graphOf(n, strKey, intVal, intIdx)
	case 1:
		return graphOf(n, intKey, strVal, strIdx)
	case 2:
		return graphOf(n, pairKey, ptrVal, ptrIdx)
	case 3:
		return graphOf(n, arrKey, anyVal, anyIdx)
	case 4:
		return graphOf(n, namedKey, intVal, intIdx)
	case 5:
		return graphOf(n, u8Key, setVal, setIdx)
	case 6:
		return graphOf(n, strKey, anyVal, anyIdx)
	case 7:
		return graphOf(n, anyKey, nilVal, nilIdx)
	case 8:
		return graphOf(n, nodeKey, strVal, strIdx)
	case 9:
		return graphOf(n, floatKey, funcVal, funcIdx)
	case 10:
		return graphOf(n, secretKey, ptrVal, ptrIdx)
	case 11:
		return graphOf(n, strKey, strKey, func(v string) int {
			if v == "" {
				return 0
			}
			return strIdx(v)
		}).own()
	default:
		return graphOf(n, intKey, intKey, func(v int) int {
			if v < 0 {
				return -v
			}
			return v
		}).own()
	}
}

func strKey(i int) string {
	if i == 0 {
		return ""
	}
	return "k" + strconv.Itoa(i)
}
func intKey(i int) int {
	if i%2 == 1 {
		return -i
	}
	return i
}
func pairKey(i int) pair {
	switch {
	case i == 0:
		return pair{}
	case i%2 == 1:
		return pair{"", i}
	}
	return pair{"p" + strconv.Itoa(i), 0}
}
func arrKey(i int) [2]int { return [2]int{i % 3, i / 3} }
func namedKey(i int) named {
	if i == 0 {
		return ""
	}
	return named("n" + strconv.Itoa(i))
}
func u8Key(i int) uint8 { return uint8(i * 7) }

func floatKey(i int) float64 {
	if i%2 == 1 {
		return -float64(i) / 2
	}
	return float64(i) / 2
}

// secret prints alike whatever it is.
type secret struct {
	n    int
	text string
}

func (secret) String() string { return "***" }

func secretKey(i int) secret {
	switch {
	case i == 0:
		return secret{}
	case i%2 == 1:
		return secret{n: i}
	}
	return secret{text: strconv.Itoa(i)}
}

// node is used by reference. Its number gives the references an order that does
// not depend on where they are.
type node struct{ n int }

func (n *node) String() string { return "node" + strconv.Itoa(n.n) }

// SimKey is used by the simulator to put map keys into a canonical order.
func (n *node) SimKey() uint64 { return uint64(n.n) }

var nodes = func() (l [1 << 12]*node) {
	for i := range l {
		l[i] = &node{i}
	}
	return l
}()

func nodeKey(i int) *node {
	if i == 0 {
		return nil
	}
	return nodes[i]
}

// anyKey gives identifiers of several types; equal contents of different types
// are different identifiers.
func anyKey(i int) any {
	if i == 0 {
		return nil
	}
	switch j := (i + 4) / 5; i % 5 {
	case 0:
		return j
	case 1:
		return strconv.Itoa(j)
	case 2:
		return named(strconv.Itoa(j))
	case 3:
		return pair{"", j}
	default:
		return nodeKey(j)
	}
}

func intVal(i int) int { return i }
func intIdx(v int) int { return v }
func strVal(i int) string {
	if i == 0 {
		return ""
	}
	return "v" + strconv.Itoa(i)
}
func strIdx(v string) int {
	if v == "" {
		return 0
	}
	n, err := strconv.Atoi(v[1:])
	if err != nil {
		return -1
	}
	return n
}
func ptrVal(i int) *boxed {
	if i == 0 {
		return nil
	}
	return &boxed{i}
}
func ptrIdx(v *boxed) int {
	if v == nil {
		return 0
	}
	return v.N
}
func anyVal(i int) any {
	switch i % 3 {
	case 0:
		return i
	case 1:
		return strVal(i)
	}
	return boxed{i}
}
func anyIdx(v any) int {
	switch x := v.(type) {
	case int:
		return x
	case string:
		return strIdx(x)
	case boxed:
		return x.N
	}
	return -1
}
func nilVal(i int) any {
	if i == 0 {
		return nil
	}
	return anyVal(i)
}
func nilIdx(v any) int {
	if v == nil {
		return 0
	}
	return anyIdx(v)
}
func funcVal(i int) func() int {
	if i == 0 {
		return nil
	}
	return func() int { return i }
}
func funcIdx(v func() int) int {
	if v == nil {
		return 0
	}
	return v()
}
func setVal(i int) []int {
	if i == 0 {
		return nil
	}
	return []int{i}
}
func setIdx(v []int) int {
	if v == nil {
		return 0
	}
	return v[0]
}

type graph[K comparable, V any] struct {
	g    *dag.AcyclicGraph[K, V]
	keys []K
	num  map[K]int
	val  func(int) V
	vidx func(V) int
	self bool
}

// own marks a graph whose vertices mostly carry their own identifiers as values.
func (g *graph[K, V]) own() *graph[K, V] {
	g.self = true
	return g
}

func (g *graph[K, V]) Own() bool { return g.self }

func graphOf[K comparable, V any](n int, key func(int) K, val func(int) V, vidx func(V) int) *graph[K, V] {
	g := &graph[K, V]{g: dag.NewAcyclicGraph[K, V](), val: val, vidx: vidx, num: make(map[K]int, n)}
	for i := 0; i < n; i++ {
		g.keys = append(g.keys, key(i))
		g.num[key(i)] = i
	}
	return g
}

func (g *graph[K, V]) idx(k K) int {
	if i, ok := g.num[k]; ok {
		return i
	}
	return -1
}

func (g *graph[K, V]) AddVertex(k, v int) error  { return g.g.AddVertex(g.keys[k], g.val(v)) }
func (g *graph[K, V]) DeleteVertex(k int) error  { return g.g.DeleteVertex(g.keys[k]) }
func (g *graph[K, V]) AddEdge(a, b int) error    { return g.g.AddEdge(g.keys[a], g.keys[b]) }
func (g *graph[K, V]) DeleteEdge(a, b int) error { return g.g.DeleteEdge(g.keys[a], g.keys[b]) }
func (g *graph[K, V]) Reduce()                   { g.g.ReduceTransitively() }
func (g *graph[K, V]) Order() int                { return g.g.GetOrder() }
func (g *graph[K, V]) Size() int                 { return g.g.GetSize() }
func (g *graph[K, V]) String() string            { return g.g.String() }

func (g *graph[K, V]) Vertex(k int) (int, bool, error) {
	v, err := g.g.GetVertex(g.keys[k])
	if err != nil {
		return 0, v == nil, err
	}
	x, ok := v.(V)
	if _, iface := any((*V)(nil)).(*any); iface && v == nil {
		ok = true
	}
	if !ok {
		return -1, v == nil, nil
	}
	return g.vidx(x), v == nil, nil
}

func (g *graph[K, V]) IsEdge(a, b int) (bool, error) { return g.g.IsEdge(g.keys[a], g.keys[b]) }
func (g *graph[K, V]) Leaves() Coll                  { return &mapColl[K, V]{g, g.g.GetLeaves()} }
func (g *graph[K, V]) Roots() Coll                   { return &mapColl[K, V]{g, g.g.GetRoots()} }
func (g *graph[K, V]) Vertices() Coll                { return &mapColl[K, V]{g, g.g.GetVertices()} }

func (g *graph[K, V]) Parents(k int) (Coll, error) {
	m, err := g.g.GetParents(g.keys[k])
	return &mapColl[K, V]{g, m}, err
}
func (g *graph[K, V]) Children(k int) (Coll, error) {
	m, err := g.g.GetChildren(g.keys[k])
	return &mapColl[K, V]{g, m}, err
}
func (g *graph[K, V]) Ancestors(k int) (Coll, error) {
	m, err := g.g.GetAncestors(g.keys[k])
	return &mapColl[K, V]{g, m}, err
}
func (g *graph[K, V]) Descendants(k int) (Coll, error) {
	m, err := g.g.GetDescendants(g.keys[k])
	return &mapColl[K, V]{g, m}, err
}
func (g *graph[K, V]) OrderedAncestors(k int) (Coll, error) {
	l, err := g.g.GetOrderedAncestors(g.keys[k])
	return &listColl[K, V]{g, l}, err
}
func (g *graph[K, V]) OrderedDescendants(k int) (Coll, error) {
	l, err := g.g.GetOrderedDescendants(g.keys[k])
	return &listColl[K, V]{g, l}, err
}

func (g *graph[K, V]) WalkAncestors(k int) (Walk, error) {
	ids, sig, err := g.g.AncestorsWalker(g.keys[k])
	if err != nil {
		if ids != nil || sig != nil {
			return &walk[K, V]{g, ids, sig}, err
		}
		return nil, err
	}
	return &walk[K, V]{g, ids, sig}, nil
}

func (g *graph[K, V]) WalkDescendants(k int) (Walk, error) {
	ids, sig, err := g.g.DescendantsWalker(g.keys[k])
	if err != nil {
		if ids != nil || sig != nil {
			return &walk[K, V]{g, ids, sig}, err
		}
		return nil, err
	}
	return &walk[K, V]{g, ids, sig}, nil
}

type walk[K comparable, V any] struct {
	g   *graph[K, V]
	ids chan K
	sig chan bool
}

func (w *walk[K, V]) Recv() (int, bool) {
	k, ok := simrt.R(w.ids).Recv2()
	if !ok {
		return 0, false
	}
	return w.g.idx(k), true
}

// Stop asks the walk to stop, in one way or the other: both values do.
func (w *walk[K, V]) Stop(how int) { simrt.S(w.sig).Send(how == 0) }

func (g *graph[K, V]) KeyText(k int) string { return text(g.keys[k]) }

type mapColl[K comparable, V any] struct {
	g *graph[K, V]
	m map[K]V
}

func (c *mapColl[K, V]) Nil() bool    { return c.m == nil }
func (c *mapColl[K, V]) IsList() bool { return false }
func (c *mapColl[K, V]) Entries() []Entry {
	out := make([]Entry, 0, len(c.m))
	for k, v := range c.m {
		out = append(out, Entry{c.g.idx(k), c.g.vidx(v)})
	}
	sort.Slice(out, func(i, j int) bool {
		return out[i].K < out[j].K || out[i].K == out[j].K && out[i].V < out[j].V
	})
	return out
}

func (c *mapColl[K, V]) Scribble(mode int) {
	if c.m == nil {
		return
	}
	switch mode % 4 {
	case 0: // empty it
		for k := range c.m {
			delete(c.m, k)
		}
	case 1: // overwrite every value
		for k := range c.m {
			c.m[k] = c.g.val(900)
		}
	case 2: // fill it with everything
		for _, k := range c.g.keys {
			c.m[k] = c.g.val(901)
		}
	case 3: // replace an entry
		for _, k := range c.g.keys {
			if _, ok := c.m[k]; ok {
				delete(c.m, k)
				break
			}
		}
		c.m[c.g.keys[len(c.g.keys)-1]] = c.g.val(902)
	}
}

type listColl[K comparable, V any] struct {
	g *graph[K, V]
	l []K
}

func (c *listColl[K, V]) Nil() bool    { return c.l == nil }
func (c *listColl[K, V]) IsList() bool { return true }
func (c *listColl[K, V]) Entries() []Entry {
	out := make([]Entry, 0, len(c.l))
	for _, k := range c.l {
		out = append(out, Entry{K: c.g.idx(k)})
	}
	return out
}

func (c *listColl[K, V]) Scribble(mode int) {
	l := c.l
	if mode%2 == 1 {
		l = l[:cap(l)]
	}
	for i := range l {
		l[i] = c.g.keys[len(c.g.keys)-1-i%3]
	}
	c.l = append(c.l, c.g.keys[1])
}
