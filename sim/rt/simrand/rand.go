// Package simrand replaces the global (randomly seeded) generators of
// math/rand and math/rand/v2 in the instrumented library.
package simrand

import "math/rand"

var global = rand.New(rand.NewSource(1))

// Reset starts a new run.
func Reset(seed int64) { global = rand.New(rand.NewSource(seed)) }

func Seed(s int64)                       { Reset(s) }
func Int() int                           { return global.Int() }
func Intn(n int) int                     { return global.Intn(n) }
func IntN(n int) int                     { return global.Intn(n) }
func Int31() int32                       { return global.Int31() }
func Int31n(n int32) int32               { return global.Int31n(n) }
func Int63() int64                       { return global.Int63() }
func Int63n(n int64) int64               { return global.Int63n(n) }
func Int32() int32                       { return global.Int31() }
func Int32N(n int32) int32               { return global.Int31n(n) }
func Int64() int64                       { return global.Int63() }
func Int64N(n int64) int64               { return global.Int63n(n) }
func Uint32() uint32                     { return global.Uint32() }
func Uint32N(n uint32) uint32            { return global.Uint32() % n }
func Uint64() uint64                     { return global.Uint64() }
func Uint64N(n uint64) uint64            { return global.Uint64() % n }
func Float32() float32                   { return global.Float32() }
func Float64() float64                   { return global.Float64() }
func NormFloat64() float64               { return global.NormFloat64() }
func ExpFloat64() float64                { return global.ExpFloat64() }
func Perm(n int) []int                   { return global.Perm(n) }
func Shuffle(n int, swap func(i, j int)) { global.Shuffle(n, swap) }
func Read(p []byte) (int, error)         { return global.Read(p) }
