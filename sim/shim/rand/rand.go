// Package rand replaces math/rand in the simulated build: the global generator is seeded per run.
package rand

import "math/rand"

type (
	Rand     = rand.Rand
	Source   = rand.Source
	Source64 = rand.Source64
	Zipf     = rand.Zipf
)

var g = rand.New(rand.NewSource(1))

// SeedRun reseeds the global generator at the start of a run.
func SeedRun(seed int64) { g = rand.New(rand.NewSource(seed)) }

func New(s Source) *Rand                               { return rand.New(s) }
func NewSource(seed int64) Source                      { return rand.NewSource(seed) }
func NewZipf(r *Rand, s, v float64, imax uint64) *Zipf { return rand.NewZipf(r, s, v, imax) }
func Seed(int64)                                       {}
func Int() int                                         { return g.Int() }
func Intn(n int) int                                   { return g.Intn(n) }
func Int31() int32                                     { return g.Int31() }
func Int31n(n int32) int32                             { return g.Int31n(n) }
func Int63() int64                                     { return g.Int63() }
func Int63n(n int64) int64                             { return g.Int63n(n) }
func Uint32() uint32                                   { return g.Uint32() }
func Uint64() uint64                                   { return g.Uint64() }
func Float32() float32                                 { return g.Float32() }
func Float64() float64                                 { return g.Float64() }
func NormFloat64() float64                             { return g.NormFloat64() }
func ExpFloat64() float64                              { return g.ExpFloat64() }
func Perm(n int) []int                                 { return g.Perm(n) }
func Shuffle(n int, swap func(i, j int))               { g.Shuffle(n, swap) }
func Read(p []byte) (int, error)                       { return g.Read(p) }
