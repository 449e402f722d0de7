package vecs

import (
	"math"
	"trypo/pkg/mathutils"
	"trypo/zzverif/hx"
	"trypo/zzverif/sym"
)

func bound(quick, thorough int) int {
	if sym.Thorough() {
		return thorough
	}
	return quick
}

func dot(a, b []float64) float64 {
	s := 0.0
	for i := range a {
		s += a[i] * b[i]
	}
	return s
}

// Euclid: two vectors of any lengths in 0..3 (4) with components in [-100,100]; exact arithmetic.
//
//sym:prop=C05 reach=equal-length
func Euclid() {
	a := hx.Vec("a", sym.Pick("na", 0, bound(3, 4)))
	b := hx.Vec("b", sym.Pick("nb", 0, bound(3, 4)))
	d, err := mathutils.EuclideanDistance(a, b)
	sym.Assert((err != nil) == (len(a) != len(b)), "length-error")
	if len(a) != len(b) {
		return
	}
	sum := 0.0
	for i := range a {
		sum += (a[i] - b[i]) * (a[i] - b[i])
	}
	sym.Assert(d >= 0, "non-negative")
	sym.Assert(sym.Near(d*d, sum), "root-of-sum-of-squares")
	sym.Reach("equal-length")
	sym.Observe("d", d)
}

// EuclidLong: two vectors of the same length in 4..9 (17); exact arithmetic.
//
//sym:prop=C05
func EuclidLong() {
	n := sym.Pick("n", 4, bound(9, 17))
	a, b := hx.Vec("a", n), hx.Vec("b", n)
	d, err := mathutils.EuclideanDistance(a, b)
	sym.Assert(err == nil, "length-error")
	sum := 0.0
	for i := range a {
		sum += (a[i] - b[i]) * (a[i] - b[i])
	}
	sym.Assert(d >= 0, "non-negative")
	sym.Assert(sym.Near(d*d, sum), "root-of-sum-of-squares")
}

// CosineLong: two vectors of the same length in 3..9 (17) with components in [-100,100]; exact arithmetic.
//
//sym:prop=C05
func CosineLong() {
	n := sym.Pick("n", 3, bound(9, 17))
	a, b := hx.Vec("a", n), hx.Vec("b", n)
	s, err := mathutils.CosineSimilarity(a, b)
	sym.Assert(err == nil, "length-error")
	aa, bb, ab := dot(a, a), dot(b, b), dot(a, b)
	if aa == 0 || bb == 0 {
		return
	}
	sym.Assert(sym.Near(s*math.Sqrt(aa)*math.Sqrt(bb), ab), "dot-over-norms")
}

// EuclidMetric: two vectors of length 0..2 (3) with components in [-100,100]; exact arithmetic.
//
//sym:prop=C05
func EuclidMetric() {
	n := sym.Pick("n", 0, bound(2, 3))
	a, b := hx.Vec("a", n), hx.Vec("b", n)
	d, _ := mathutils.EuclideanDistance(a, b)
	e, _ := mathutils.EuclideanDistance(b, a)
	sym.Assert(sym.Near(d, e), "symmetric")
	if sym.Symbolic() || !sym.FpMode() {
		sym.Assert(sym.Iff(d == 0, hx.VecSame(a, b)), "zero-iff-equal")
	}
	f, _ := mathutils.EuclideanDistance(a, append([]float64{}, a...))
	sym.Assert(f == 0, "zero-for-equal")
}

// Cosine: two vectors of any lengths in 0..2 (3) with components in [-100,100]; exact arithmetic.
//
//sym:prop=C05 reach=both-nonzero,zero
func Cosine() {
	a := hx.Vec("a", sym.Pick("na", 0, bound(2, 3)))
	b := hx.Vec("b", sym.Pick("nb", 0, bound(2, 3)))
	s, err := mathutils.CosineSimilarity(a, b)
	sym.Assert((err != nil) == (len(a) != len(b)), "length-error")
	if len(a) != len(b) {
		return
	}
	sym.Assert(sym.IsFinite(s), "finite")
	aa, bb, ab := dot(a, a), dot(b, b), dot(a, b)
	if aa == 0 || bb == 0 {
		sym.Assert(s == 0, "zero-vector")
		sym.Reach("zero")
		return
	}
	sym.Assert(sym.Near(s*math.Sqrt(aa)*math.Sqrt(bb), ab), "dot-over-norms")
	sym.Assert(sym.And(sym.Iff(s > 0, ab > 0), sym.Iff(s < 0, ab < 0)), "sign")
	sym.Reach("both-nonzero")
	sym.Observe("s", s)
}

// CosineRange: two vectors of length 1..2 with components in [-100,100]; exact arithmetic.
//
//sym:prop=C05
func CosineRange() {
	n := sym.Pick("n", 1, 2)
	a, b := hx.Vec("a", n), hx.Vec("b", n)
	s, _ := mathutils.CosineSimilarity(a, b)
	t, _ := mathutils.CosineSimilarity(b, a)
	sym.Assert(sym.Near(s, t), "symmetric")
	sym.Assert(sym.And(s <= 1+1e-9, s >= -1-1e-9), "range")
}

// SpecialFloat: bit-exact floats: vectors of length 1 (1..2) whose components are zeros, units and powers of two from
// 2^-1074 to 2^500; neither measure is ever not-a-number, nor is it outside its range.
//
//sym:prop=C05 mode=fp
func SpecialFloat() {
	vals := []float64{0, math.Copysign(0, -1), 1, -1, math.Ldexp(1, -1074), math.Ldexp(1, -600), math.Ldexp(-1, 500)}
	n := sym.Pick("n", 1, bound(1, 2))
	a, b := make([]float64, n), make([]float64, n)
	for i := range a {
		a[i] = vals[sym.Pick("a", 0, len(vals)-1)]
		b[i] = vals[sym.Pick("b", 0, len(vals)-1)]
	}
	d, err := mathutils.EuclideanDistance(a, b)
	sym.Assert(err == nil && !math.IsNaN(d) && d >= 0, "euclidean")
	s, err := mathutils.CosineSimilarity(a, b)
	sym.Assert(err == nil && !math.IsNaN(s), "cosine")
}

// EuclidZeroFp: bit-exact floats: the distance of any finite vector of length 1..2 to itself is zero.
//
//sym:prop=C05 mode=fp
func EuclidZeroFp() {
	n := sym.Pick("n", 1, 2)
	a := make([]float64, n)
	for i := range a {
		a[i] = sym.AnyFloat("a")
		sym.Assume(sym.IsFinite(a[i]))
	}
	d, err := mathutils.EuclideanDistance(a, append([]float64{}, a...))
	sym.Assert(err == nil && d == 0, "zero-for-equal")
}

func anyVec(name string, n int) []float64 {
	v := make([]float64, n)
	for i := range v {
		v[i] = sym.AnyFloat(name)
	}
	return v
}

// bits holds when two floats are the same number or both not-a-number.
func same(a, b float64) bool { return sym.Or(a == b, sym.And(a != a, b != b)) }

func unchanged(v, old []float64) bool {
	if len(v) != len(old) {
		return false
	}
	r := true
	for i := range v {
		r = sym.And(r, same(v[i], old[i]))
	}
	return r
}

func cp(v []float64) []float64 { return append([]float64{}, v...) }

// fresh holds when writing to res does not change in.
func fresh(res, in []float64) bool {
	if len(res) == 0 || len(in) == 0 {
		return true
	}
	old := in[0]
	keep := res[0]
	res[0] = 12345
	r := same(in[0], old)
	res[0] = keep
	return r
}

// Binary: bit-exact addition, subtraction and equality of any two vectors (infinities and not-a-number included) of
// lengths 0..2 (3).
//
//sym:prop=C23 mode=fp reach=same-length
func Binary() {
	a := anyVec("a", sym.Pick("na", 0, bound(2, 3)))
	b := anyVec("b", sym.Pick("nb", 0, bound(2, 3)))
	a0, b0 := cp(a), cp(b)
	add, ok1 := mathutils.VecAdd(a, b)
	sub, ok2 := mathutils.VecSub(a, b)
	eq := mathutils.VecEq(a, b)
	match := len(a) == len(b)
	sym.Assert(ok1 == match, "add-ok")
	sym.Assert(ok2 == match, "sub-ok")
	sym.Assert(sym.And(unchanged(a, a0), unchanged(b, b0)), "inputs-unchanged")
	if !match {
		sym.Assert(!eq, "eq-length")
		return
	}
	sym.Reach("same-length")
	sym.Assert(len(add) == len(a) && len(sub) == len(a), "result-length")
	all := true
	for i := range a {
		sym.Assert(same(add[i], a[i]+b[i]), "add")
		sym.Assert(same(sub[i], a[i]-b[i]), "sub")
		all = sym.And(all, a[i] == b[i])
	}
	sym.Assert(sym.Iff(eq, all), "eq")
	sym.Assert(fresh(add, a) && fresh(add, b) && fresh(sub, a) && fresh(sub, b), "fresh")
}

// BinaryLong: as Binary, for lengths 3..9 (17), the second vector being as long or one shorter or longer.
//
//sym:prop=C23 mode=fp
func BinaryLong() {
	n := sym.Pick("n", 3, bound(9, 17))
	a, b := anyVec("a", n), anyVec("b", n+sym.Pick("more", -1, 1))
	a0, b0 := cp(a), cp(b)
	add, ok1 := mathutils.VecAdd(a, b)
	sub, ok2 := mathutils.VecSub(a, b)
	match := len(a) == len(b)
	sym.Assert(ok1 == match, "add-ok")
	sym.Assert(ok2 == match, "sub-ok")
	sym.Assert(sym.And(unchanged(a, a0), unchanged(b, b0)), "inputs-unchanged")
	s := sym.AnyFloat("s")
	mul, div := mathutils.VecMulScalar(a, s), mathutils.VecDivScalar(a, s)
	sym.Assert(unchanged(a, a0), "input-unchanged")
	sym.Assert(len(mul) == n && len(div) == n, "result-length")
	for i := range a {
		sym.Assert(same(mul[i], a[i]*s), "mul")
		sym.Assert(same(div[i], a[i]/s), "div")
	}
	if match {
		sym.Assert(len(add) == n && len(sub) == n, "result-length")
		for i := range a {
			sym.Assert(same(add[i], a[i]+b[i]), "add")
			sym.Assert(same(sub[i], a[i]-b[i]), "sub")
		}
	}
}

// EqualLong: bit-exact equality of two vectors of the same length in 3..9 (17).
//
//sym:prop=C23 mode=fp
func EqualLong() {
	n := sym.Pick("n", 3, bound(9, 17))
	a, b := anyVec("a", n), anyVec("b", n)
	all := true
	for i := range a {
		all = sym.And(all, a[i] == b[i])
	}
	sym.Assert(sym.Iff(mathutils.VecEq(a, b), all), "eq")
	sym.Assert(sym.Iff(mathutils.VecIn(a, [][]float64{{1}, b}), all), "member")
}

// MeanLong: averages of 1..3 vectors of the same length in 3..9 (17); exact arithmetic.
//
//sym:prop=C23
func MeanLong() {
	n, l := sym.Pick("n", 1, 3), sym.Pick("l", 3, bound(9, 17))
	var vs [][]float64
	for i := 0; i < n; i++ {
		vs = append(vs, hx.Vec("v", l))
	}
	m, ok := mathutils.VecMean(gen(vs))
	sym.Assert(ok && len(m) == l, "mean-ok")
	for j := range m {
		s := 0.0
		for i := range vs {
			s += vs[i][j]
		}
		sym.Assert(sym.Near(m[j], s/float64(n)), "mean")
	}
}

// Scalar: bit-exact scaling and division of any vector of length 0..2 (3) by any number.
//
//sym:prop=C23 mode=fp
func Scalar() {
	a := anyVec("a", sym.Pick("na", 0, bound(2, 3)))
	s := sym.AnyFloat("s")
	a0 := cp(a)
	mul := mathutils.VecMulScalar(a, s)
	sym.Assert(unchanged(a, a0), "mul-input-unchanged")
	div := mathutils.VecDivScalar(a, s)
	sym.Assert(unchanged(a, a0), "div-input-unchanged")
	sym.Assert(len(mul) == len(a) && len(div) == len(a), "result-length")
	for i := range a {
		sym.Assert(same(mul[i], a[i]*s), "mul")
		sym.Assert(same(div[i], a[i]/s), "div")
	}
	sym.Assert(fresh(mul, a) && fresh(div, a), "fresh")
}

// MakeVec: bit-exact copies of 0..3 (4) numbers.
//
//sym:prop=C23 mode=fp
func MakeVec() {
	a := anyVec("a", sym.Pick("na", 0, bound(3, 4)))
	v := mathutils.Vec(a...)
	sym.Assert(unchanged(v, a), "vec")
	sym.Assert(fresh(v, a), "fresh")
}

func gen(vs [][]float64) func() ([]float64, bool) {
	i := 0
	return func() ([]float64, bool) {
		if i >= len(vs) {
			return nil, false
		}
		i++
		return vs[i-1], true
	}
}

// MeanOf: averages of 0..3 (5) vectors of lengths 0..2 each; exact arithmetic.
//
//sym:prop=C23 reach=averaged,refused
func MeanOf() {
	n := sym.Pick("n", 0, bound(3, 5))
	var vs, old [][]float64
	match := true
	for i := 0; i < n; i++ {
		l := 2
		if i < 3 {
			l = sym.Pick("len", 0, 2)
		}
		v := hx.Vec("v", l)
		vs = append(vs, v)
		old = append(old, cp(v))
		match = match && len(v) == len(vs[0])
	}
	m, ok := mathutils.VecMean(gen(vs))
	sym.Assert(ok == (n > 0 && match), "mean-ok")
	for i := range vs {
		sym.Assert(hx.VecSame(vs[i], old[i]), "mean-inputs-unchanged")
	}
	if !ok {
		sym.Reach("refused")
		return
	}
	sym.Reach("averaged")
	sym.Assert(len(m) == len(vs[0]), "mean-length")
	for j := range m {
		s := 0.0
		for i := range vs {
			s += vs[i][j]
		}
		sym.Assert(sym.Near(m[j], s/float64(n)), "mean")
	}
	for i := range vs {
		sym.Assert(fresh(m, vs[i]), "fresh")
	}
}

// Membership: a vector of length 0..2 among 0..3 vectors of lengths 0..2, bit-exact.
//
//sym:prop=C23 mode=fp reach=in,out
func Membership() {
	v := anyVec("v", sym.Pick("nv", 0, 2))
	n := sym.Pick("n", 0, bound(2, 3))
	var vs [][]float64
	want := false
	for i := 0; i < n; i++ {
		w := anyVec("w", sym.Pick("nw", 0, 2))
		vs = append(vs, w)
		if len(w) == len(v) {
			eq := true
			for j := range w {
				eq = sym.And(eq, w[j] == v[j])
			}
			want = sym.Or(want, eq)
		}
	}
	got := mathutils.VecIn(v, vs)
	sym.Assert(sym.Iff(got, want), "member")
	if got {
		sym.Reach("in")
	} else {
		sym.Reach("out")
	}
}
