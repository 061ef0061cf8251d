// Package srand replaces math/rand and math/rand/v2 in code under simulation:
// the global functions draw from the simulator.
package srand

import (
	"math/rand"

	"verif.local/sim/simrt"
)

type (
	Rand   = rand.Rand
	Source = rand.Source
	Zipf   = rand.Zipf
)

var (
	New       = rand.New
	NewSource = rand.NewSource
	NewZipf   = rand.NewZipf
)

type src struct{}

func (src) Int63() int64 {
	return int64(simrt.Draw(1<<31))<<32 | int64(simrt.Draw(1<<31))<<1&0x7fffffff | int64(simrt.Draw(2))
}
func (src) Seed(int64) {}

var g = rand.New(src{})

func Seed(int64)                      {}
func Int() int                        { return g.Int() }
func Intn(n int) int                  { return g.Intn(n) }
func IntN(n int) int                  { return g.Intn(n) }
func N(n int) int                     { return g.Intn(n) }
func Int31() int32                    { return g.Int31() }
func Int31n(n int32) int32            { return g.Int31n(n) }
func Int32() int32                    { return g.Int31() }
func Int32N(n int32) int32            { return g.Int31n(n) }
func Int63() int64                    { return g.Int63() }
func Int63n(n int64) int64            { return g.Int63n(n) }
func Int64() int64                    { return g.Int63() }
func Int64N(n int64) int64            { return g.Int63n(n) }
func Uint32() uint32                  { return g.Uint32() }
func Uint64() uint64                  { return g.Uint64() }
func Float32() float32                { return g.Float32() }
func Float64() float64                { return g.Float64() }
func Perm(n int) []int                { return g.Perm(n) }
func Shuffle(n int, f func(i, j int)) { g.Shuffle(n, f) }
