// Package rand replaces math/rand/v2 in the simulated build.
package rand

import "math/rand/v2"

type (
	Rand    = rand.Rand
	Source  = rand.Source
	PCG     = rand.PCG
	ChaCha8 = rand.ChaCha8
)

var g = rand.New(rand.NewPCG(1, 2))

// SeedRun reseeds the global generator at the start of a run.
func SeedRun(seed uint64) { g = rand.New(rand.NewPCG(seed, 2)) }

func New(s Source) *Rand                 { return rand.New(s) }
func NewPCG(a, b uint64) *PCG            { return rand.NewPCG(a, b) }
func NewChaCha8(s [32]byte) *ChaCha8     { return rand.NewChaCha8(s) }
func Int() int                           { return g.Int() }
func IntN(n int) int                     { return g.IntN(n) }
func Int32() int32                       { return g.Int32() }
func Int32N(n int32) int32               { return g.Int32N(n) }
func Int64() int64                       { return g.Int64() }
func Int64N(n int64) int64               { return g.Int64N(n) }
func Uint() uint                         { return g.Uint() }
func UintN(n uint) uint                  { return g.UintN(n) }
func Uint32() uint32                     { return g.Uint32() }
func Uint32N(n uint32) uint32            { return g.Uint32N(n) }
func Uint64() uint64                     { return g.Uint64() }
func Uint64N(n uint64) uint64            { return g.Uint64N(n) }
func Float32() float32                   { return g.Float32() }
func Float64() float64                   { return g.Float64() }
func Perm(n int) []int                   { return g.Perm(n) }
func Shuffle(n int, swap func(i, j int)) { g.Shuffle(n, swap) }
func N[T interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}](n T) T {
	return T(g.Uint64N(uint64(n)))
}
