package knn

import (
	"errors"
	"math"
	"trypo/pkg/mathutils"
	"trypo/pkg/searchutils"
	"trypo/zzverif/sym"
)

func bound(quick, thorough int) int {
	if sym.Thorough() {
		return thorough
	}
	return quick
}

// check states that idx is an exact selection of the k best of the candidates with the given scores; ok marks the
// comparable ones.
func check(idx []int, scores []float64, ok []bool, k int, asc bool) {
	m := 0
	for _, b := range ok {
		if b {
			m++
		}
	}
	if k < m {
		m = k
	}
	sym.Assert(len(idx) == m, "count")
	seen := make([]bool, len(scores))
	for _, i := range idx {
		sym.Assert(i >= 0 && i < len(scores), "index-range")
		sym.Assert(!seen[i], "distinct")
		sym.Assert(ok[i], "comparable")
		seen[i] = true
	}
	better := func(a, b float64) bool {
		if asc {
			return a < b
		}
		return a > b
	}
	for i := 1; i < len(idx); i++ {
		sym.Assert(!better(scores[idx[i]], scores[idx[i-1]]), "sorted")
	}
	if m > 0 {
		last := scores[idx[m-1]]
		for i := range scores {
			if ok[i] && !seen[i] {
				sym.Assert(!better(scores[i], last), "none-better-omitted")
			}
		}
		sym.Reach("found")
	}
}

var errNo = errors.New("cannot compare")

// Select: bit-exact: up to 4 (5) candidates with arbitrary finite scores, each comparable, failing to compare or
// scoring not-a-number; k in 0..3 (0..6), both directions.
//
//sym:prop=C04 mode=fp reach=found
func Select() {
	n := sym.Pick("n", 0, bound(4, 5))
	k := sym.Pick("k", 0, bound(3, 6))
	asc := sym.Pick("asc", 0, 1) == 1
	scores := make([]float64, n)
	kind := make([]int, n)
	ok := make([]bool, n)
	bad := 0
	for i := 0; i < n; i++ {
		kind[i] = 0
		if bad < 2 {
			kind[i] = sym.Pick("kind", 0, 2)
		}
		if kind[i] != 0 {
			bad++
		}
		ok[i] = kind[i] == 0
		if ok[i] {
			scores[i] = sym.AnyFloat("s")
			sym.Assume(sym.And(scores[i] < math.MaxFloat64, scores[i] > -math.MaxFloat64))
		}
	}
	c, d := 0, 0
	pool := make([][]float64, n)
	for i := range pool {
		pool[i] = []float64{float64(i)}
	}
	idx := searchutils.KNNBrute(searchutils.KNNBruteArgs{
		TargetVec: []float64{-1},
		VecPoolGenerator: func() ([]float64, bool) {
			if c >= n {
				return nil, false
			}
			c++
			return pool[c-1], true
		},
		K:         k,
		Ascending: asc,
		DistFunc: func(a, b []float64) (float64, error) {
			i := int(b[0])
			if a[0] >= 0 {
				i = int(a[0])
			}
			d++
			switch kind[i] {
			case 1:
				return 0, errNo
			case 2:
				return math.NaN(), nil
			}
			return scores[i], nil
		},
	})
	check(idx, scores, ok, k, asc)
	sym.Observe("n", len(idx))
	for _, i := range idx {
		sym.Observe("i", i)
	}
}

func gen(vs [][]float64) func() ([]float64, bool) {
	i := 0
	return func() ([]float64, bool) {
		if i >= len(vs) {
			return nil, false
		}
		i++
		return vs[i-1], true
	}
}

// SelectMore: 5 (6) candidates with arbitrary scores, k in 0..6 (7), both directions; exact arithmetic.
//
//sym:prop=C04 reach=found
func SelectMore() {
	n := bound(5, 6)
	k := sym.Pick("k", 0, n+1)
	asc := sym.Pick("asc", 0, 1) == 1
	scores, pool, ok := make([]float64, n), make([][]float64, n), make([]bool, n)
	for i := range scores {
		scores[i] = sym.Float("s", -100, 100)
		pool[i], ok[i] = []float64{scores[i], 1}, true
	}
	idx := searchutils.KNNBrute(searchutils.KNNBruteArgs{
		TargetVec: []float64{0, 0}, VecPoolGenerator: gen(pool), K: k, Ascending: asc,
		DistFunc: func(a, b []float64) (float64, error) {
			if a[1] == 1 {
				return a[0], nil
			}
			return b[0], nil
		},
	})
	check(idx, scores, ok, k, asc)
}

// Euclid: the two Euclidean searches over up to 3 (4) vectors of length 1 or 2 for a target of length 1, k in 0..3;
// exact arithmetic.
//
//sym:prop=C04 reach=found
func Euclid() {
	n := sym.Pick("n", 0, bound(3, 4))
	k := sym.Pick("k", 0, 3)
	q := []float64{sym.Float("q", -100, 100)}
	vs := make([][]float64, n)
	scores := make([]float64, n)
	ok := make([]bool, n)
	for i := range vs {
		x := sym.Float("v", -100, 100)
		vs[i] = []float64{x}
		ok[i] = true
		if sym.Pick("long", 0, 1) == 1 {
			vs[i] = []float64{x, 1}
			ok[i] = false
		}
		scores[i] = math.Abs(x - q[0])
	}
	near := sym.Pick("near", 0, 1) == 1
	var idx []int
	if near {
		idx = searchutils.KNNEuc(q, gen(vs), k)
	} else {
		idx = searchutils.KFNEuc(q, gen(vs), k)
	}
	check(idx, scores, ok, k, near)
}

// Cosine: the two cosine searches over up to 3 (4) vectors of length 2 chosen among 7 directions and lengths (the zero
// vector included) or of length 3, target one of the 7; k in 0..3.
//
//sym:prop=C04 mode=fp reach=found
func Cosine() {
	dirs := [][]float64{{1, 0}, {3, 0}, {1, 1}, {0, 2}, {-1, 1}, {-2, 0}, {0, 0}}
	n := sym.Pick("n", 0, bound(3, 4))
	k := sym.Pick("k", 0, bound(2, 3))
	q := dirs[sym.Pick("q", 0, bound(2, 6))]
	if sym.Pick("qz", 0, 1) == 1 {
		q = dirs[6]
	}
	vs := make([][]float64, n)
	scores := make([]float64, n)
	ok := make([]bool, n)
	for i := range vs {
		j := sym.Pick("v", 0, 7)
		if j == 7 {
			vs[i] = []float64{1, 1, 1}
			continue
		}
		vs[i] = dirs[j]
		ok[i] = true
		scores[i], _ = mathutils.CosineSimilarity(q, vs[i])
	}
	near := sym.Pick("near", 0, 1) == 1
	var idx []int
	if near {
		idx = searchutils.KNNCos(q, gen(vs), k)
	} else {
		idx = searchutils.KFNCos(q, gen(vs), k)
	}
	check(idx, scores, ok, k, !near)
}

// SelectLarge: the nearest and furthest searches over 130 fixed vectors and one arbitrary one, for any k >= 0.
//
//sym:prop=C04 reach=found
func SelectLarge() {
	const n = 130
	k := sym.Int("k", 0, 1<<62)
	at := sym.Pick("at", 0, 2) * 64
	vs, scores, ok := make([][]float64, n), make([]float64, n), make([]bool, n)
	for i := range vs {
		vs[i], ok[i] = []float64{float64(i * 37 % 101)}, i%11 != 5
		if !ok[i] {
			vs[i] = append(vs[i], 1)
		}
		if i == at {
			vs[i] = []float64{[]float64{-3, 50.5, 101}[sym.Pick("v", 0, 2)]}
			ok[i] = true
		}
		scores[i] = math.Abs(vs[i][0] + 5)
	}
	near := sym.Pick("near", 0, 1) == 1
	var idx []int
	if near {
		idx = searchutils.KNNEuc([]float64{-5}, gen(vs), k)
	} else {
		idx = searchutils.KFNEuc([]float64{-5}, gen(vs), k)
	}
	check(idx, scores, ok, k, near)
}
