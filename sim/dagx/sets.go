package dagx

import (
	"fmt"
	"sort"

	"github.com/hexbee-net/etxe/pkg/dag"
)

func text(k any) string { return fmt.Sprintf("%v", k) }

// Set is a set of numbered elements.
type Set interface {
	Nil() bool
	Add(i int)
	Delete(i int)
	Includes(i int) bool
	Intersection(o Set) Set
	Difference(o Set) Set
	Filter(f func(i int) bool) Set
	List() (l []int, isNil bool, scribble func())
	Copy() Set
	Elems() []int     // sorted
	Consistent() bool // every key maps to itself
	Len() int
}

// SetKinds is the number of set kinds.
const SetKinds = 7

// NewSet makes an empty (or absent) set of the given kind, with n possible
// elements.
func NewSet(kind, n int, absent bool) Set {
	switch kind % SetKinds {
	case 0:
		return setOf(n, strKey, absent)
	case 1:
		return setOf(n, intKey, absent)
	case 2:
		return setOf(n, pairKey, absent)
	case 3:
		return setOf(n, arrKey, absent)
	case 4:
		return setOf(n, anyKey, absent)
	case 5:
		return setOf(n, nodeKey, absent)
	default:
		return setOf(n, floatKey, absent)
	}
}

type set[T comparable] struct {
	s    dag.Set[T]
	keys []T
	num  map[T]int
}

func setOf[T comparable](n int, key func(int) T, absent bool) Set {
	s := &set[T]{num: make(map[T]int, n)}
	if !absent {
		s.s = make(dag.Set[T])
	}
	for i := 0; i < n; i++ {
		s.keys = append(s.keys, key(i))
		s.num[key(i)] = i
	}
	return s
}

func (s *set[T]) idx(k T) int {
	if i, ok := s.num[k]; ok {
		return i
	}
	return -1
}

func (s *set[T]) wrap(r dag.Set[T]) Set { return &set[T]{r, s.keys, s.num} }

func (s *set[T]) Nil() bool              { return s.s == nil }
func (s *set[T]) Add(i int)              { s.s.Add(s.keys[i]) }
func (s *set[T]) Delete(i int)           { s.s.Delete(s.keys[i]) }
func (s *set[T]) Includes(i int) bool    { return s.s.Includes(s.keys[i]) }
func (s *set[T]) Intersection(o Set) Set { return s.wrap(s.s.Intersection(o.(*set[T]).s)) }
func (s *set[T]) Difference(o Set) Set   { return s.wrap(s.s.Difference(o.(*set[T]).s)) }
func (s *set[T]) Copy() Set              { return s.wrap(s.s.Copy()) }
func (s *set[T]) Len() int               { return len(s.s) }

func (s *set[T]) Filter(f func(i int) bool) Set {
	return s.wrap(s.s.Filter(func(v T) bool { return f(s.idx(v)) }))
}

func (s *set[T]) List() ([]int, bool, func()) {
	l := s.s.List()
	var out []int
	for _, k := range l {
		out = append(out, s.idx(k))
	}
	sort.Ints(out)
	return out, l == nil, func() {
		l = l[:cap(l)]
		for i := range l {
			l[i] = s.keys[len(s.keys)-1]
		}
	}
}

func (s *set[T]) Elems() []int {
	var out []int
	for k := range s.s {
		out = append(out, s.idx(k))
	}
	sort.Ints(out)
	return out
}

func (s *set[T]) Consistent() bool {
	for k, v := range s.s {
		if k != v {
			return false
		}
	}
	return true
}
