// Package shash replaces hash/maphash in code under simulation: seeds come from
// the simulator.
package shash

import (
	"fmt"
	"hash/fnv"

	"verif.local/sim/simrt"
)

// Seed is maphash.Seed.
type Seed struct{ s uint64 }

// MakeSeed draws a seed.
func MakeSeed() Seed { return Seed{1 + uint64(simrt.Draw(1<<30))} }

func sum(seed Seed, b []byte) uint64 {
	if seed.s == 0 {
		panic("maphash: use of uninitialized Seed")
	}
	h := fnv.New64a()
	h.Write([]byte{byte(seed.s), byte(seed.s >> 8), byte(seed.s >> 16), byte(seed.s >> 24)})
	h.Write(b)
	return simrt.Mix(h.Sum64(), seed.s)
}

// Bytes is maphash.Bytes.
func Bytes(seed Seed, b []byte) uint64 { return sum(seed, b) }

// String is maphash.String.
func String(seed Seed, s string) uint64 { return sum(seed, []byte(s)) }

// Comparable is maphash.Comparable.
func Comparable[T comparable](seed Seed, v T) uint64 {
	return sum(seed, []byte(fmt.Sprintf("%T %#v", v, v)))
}

// WriteComparable is maphash.WriteComparable.
func WriteComparable[T comparable](h *Hash, x T) { fmt.Fprintf(h, "%T %#v", x, x) }

// Hash is maphash.Hash.
type Hash struct {
	seed Seed
	b    []byte
}

func (h *Hash) init() {
	if h.seed.s == 0 {
		h.seed = MakeSeed()
	}
}

func (h *Hash) Write(b []byte) (int, error)       { h.b = append(h.b, b...); return len(b), nil }
func (h *Hash) WriteString(s string) (int, error) { h.b = append(h.b, s...); return len(s), nil }
func (h *Hash) WriteByte(b byte) error            { h.b = append(h.b, b); return nil }
func (h *Hash) Sum64() uint64                     { h.init(); return sum(h.seed, h.b) }
func (h *Hash) Reset()                            { h.b = nil }
func (h *Hash) Seed() Seed                        { h.init(); return h.seed }
func (h *Hash) SetSeed(s Seed)                    { h.seed, h.b = s, nil }
func (h *Hash) Size() int                         { return 8 }
func (h *Hash) BlockSize() int                    { return 128 }
func (h *Hash) Sum(b []byte) []byte {
	x := h.Sum64()
	for i := 56; i >= 0; i -= 8 {
		b = append(b, byte(x>>uint(i)))
	}
	return b
}
