// Package rand stands in for math/rand: every drawn number is an arbitrary one.
package rand

import "trypo/zzverif/sym"

func Seed(seed int64) {}

func Intn(n int) int {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	return sym.Pick("rand", 0, n-1)
}

func Int31n(n int32) int32 { return int32(Intn(int(n))) }
func Int63n(n int64) int64 { return int64(Intn(int(n))) }
func Int() int             { return sym.Int("rand", 0, 1<<62) }
func Float64() float64     { return sym.Float("randf", 0, 0.9999) }

func Perm(n int) []int {
	m := make([]int, n)
	for i := 0; i < n; i++ {
		j := Intn(i + 1)
		m[i] = m[j]
		m[j] = i
	}
	return m
}

func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, Intn(i+1))
	}
}

// Rand is a source of arbitrary numbers.
type Rand struct{}

type Source interface {
	Int63() int64
	Seed(seed int64)
}

type source struct{}

func (source) Int63() int64    { return int64(Int()) }
func (source) Seed(seed int64) {}

func NewSource(seed int64) Source { return source{} }
func New(src Source) *Rand        { return &Rand{} }

func (r *Rand) Seed(seed int64)                    {}
func (r *Rand) Intn(n int) int                     { return Intn(n) }
func (r *Rand) Int() int                           { return Int() }
func (r *Rand) Float64() float64                   { return Float64() }
func (r *Rand) Perm(n int) []int                   { return Perm(n) }
func (r *Rand) Shuffle(n int, swap func(i, j int)) { Shuffle(n, swap) }
