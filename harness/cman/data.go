package cman

import (
	"trypo/pkg/kmeans/common"
	"trypo/zzverif/hx"
	"trypo/zzverif/sym"
)

// ---- maintenance ----

// KeepSweep: one expiry sweep, memory trim or centre recomputation of any namespace of 0..2 (3) clusters of 0..2 (3)
// points, at most 3 (4) altogether, arbitrary expiries.
//
//sym:prop=C06,C14
func KeepSweep() {
	w := world()
	cm := w.State(hx.Shape{MaxC: hx.Bound(2, 3), MaxP: hx.Bound(2, 3), Exp: true, Total: hx.Bound(3, 4)})
	before := w.Contents(cm)
	op := sym.Pick("op", 0, 2)
	switch op {
	case 0:
		cm.Expire()
	case 1:
		cm.MemTrim()
	case 2:
		cm.MoveVector()
	}
	after := w.Contents(cm)
	w.Kept(before, after, "sweep")
	if op < 2 {
		for i := range after {
			if after[i] > 0 {
				sym.Assert(!w.Expired(i), "expired-removed")
			}
		}
	}
	if op == 1 {
		for _, c := range cm.Centroids {
			sym.Assert(len(c.DataPoints) > 0, "empty-clusters-removed")
		}
	}
	hx.ObserveCM(cm)
}

// KeepSplitMerge: one split or merge with an arbitrary selection of clusters, of any namespace of 0..2 (3) clusters of
// 0..2 (3) points, at most 3 altogether, arbitrary expiries.
//
//sym:prop=C06,C14
func KeepSplitMerge() {
	w := world()
	cm := w.State(hx.Shape{MaxC: hx.Bound(2, 3), MaxP: hx.Bound(2, 3), Exp: true, Total: 3})
	before := w.Contents(cm)
	if sym.Pick("op", 0, 1) == 0 {
		cm.SplitCentroids(anyPred)
	} else {
		cm.MergeCentroids(anyPred)
	}
	w.Kept(before, w.Contents(cm), "split-merge")
	hx.ObserveCM(cm)
}

// KeepBigMerge: one merge or split with an arbitrary selection of clusters, of any namespace of 2..3 (4) clusters of 0..3
// points, at most 3 (5) altogether, none expiring.
//
//sym:prop=C06
func KeepBigMerge() {
	w := world()
	cm := w.State(hx.Shape{MinC: 2, MaxC: hx.Bound(3, 4), MaxP: 3, Total: hx.Bound(3, 5)})
	before := w.Contents(cm)
	if sym.Pick("op", 0, 1) == 0 {
		cm.SplitCentroids(anyPred)
	} else {
		cm.MergeCentroids(anyPred)
	}
	w.Kept(before, w.Contents(cm), "split-merge")
	hx.ObserveCM(cm)
}

// KeepInternal: redistribution of 0..4 points inside any namespace of 0..2 (3) clusters of 0..2 (3) points, at most 3 (4)
// altogether, arbitrary expiries.
//
//sym:prop=C06,C14
func KeepInternal() {
	w := world()
	cm := w.State(hx.Shape{MaxC: hx.Bound(2, 3), MaxP: hx.Bound(2, 3), Exp: true, Total: hx.Bound(3, 4)})
	before := w.Contents(cm)
	cm.DistributeDataPointsInternal(sym.Pick("k", 0, hx.Bound(3, 4)))
	w.Kept(before, w.Contents(cm), "internal")
	hx.ObserveCM(cm)
}

// KeepDistribute: redistribution of 0..2 (3) points of any namespace of 0..2 clusters of 0..2 points (2 (3) altogether, arbitrary
// expiries) to 0..2 receivers: another namespace, a cluster, or one of another vector length.
//
//sym:prop=C06,C14
func KeepDistribute() {
	w := world()
	cm := w.State(hx.Shape{MaxC: 2, MaxP: 2, Exp: true, Total: hx.Bound(2, 3)})
	other := hx.NewCM([]*hx.Centroid{hx.Cluster([]hx.DataPoint{w.New("o", false)}, 1)}, 1, 0)
	cl := hx.Cluster([]hx.DataPoint{w.New("o", false)}, 1)
	wrong := hx.ClusterAt([]float64{1, 2}, nil)
	var rs []common.DataPointReceiver
	switch sym.Pick("receivers", 0, 4) {
	case 1:
		rs = []common.DataPointReceiver{other}
	case 2:
		rs = []common.DataPointReceiver{wrong}
	case 3:
		rs = []common.DataPointReceiver{wrong, cl}
	case 4:
		rs = []common.DataPointReceiver{cl, other}
	}
	n := sym.Pick("k", 0, hx.Bound(2, 3))
	total := func() []int {
		r := w.Contents(cm)
		w.Count(r, hx.All(other), "moved")
		w.Count(r, cl.DataPoints, "moved")
		w.Count(r, wrong.DataPoints, "moved")
		return r
	}
	before := total()
	cm.DistributeDataPoints(n, rs)
	w.Kept(before, total(), "distribute")
	sym.Assert(cl.LenDP()+other.LenDP() <= 2+n, "at-most-n-moved")
	sym.Assert(wrong.LenDP() == 0, "length-mismatch-refused")
	for _, dp := range append(append([]hx.DataPoint{}, hx.All(other)...), cl.DataPoints...) {
		sym.Assert(!w.Expired(hx.ID(dp)), "expired-not-moved")
	}
	hx.ObserveCM(cm)
}

// ---- queries ----

// Lookup: one query for 0..3 points, with or without removal, of any namespace of 0..2 (3) clusters of 0..2 points, at
// most 2 (3) altogether, with arbitrary expiries.
//
//sym:prop=C02,C14,C06
func Lookup() {
	w := world()
	cm := w.State(hx.Shape{MaxC: hx.Bound(2, 3), MaxP: 2, Exp: true, Total: hx.Bound(2, 3)})
	k := sym.Pick("k", 0, 3)
	drain := sym.Pick("drain", 0, 1) == 1
	before := w.Contents(cm)
	got := cm.KNNLookup(hx.Vec("q", 1), k, drain)
	checkQuery(w, before, w.Contents(cm), got, k, drain)
	hx.ObserveCM(cm)
}

func checkQuery(w *hx.World, before, after []int, got []hx.DataPoint, k int, drain bool) {
	sym.Assert(len(got) <= k, "at-most-n")
	res := make([]int, len(w.Pts))
	w.Count(res, got, "returned")
	for i := range w.Pts {
		sym.Assert(res[i] <= before[i], "stored-and-distinct")
		if res[i] > 0 {
			sym.Assert(!w.Expired(i), "expired-not-returned")
		}
		want := before[i]
		if drain {
			want -= res[i]
		}
		sym.Assert(after[i] <= want, "removed-exactly")
		if after[i] < want {
			sym.Assert(w.Expired(i), "only-returned-removed")
		}
	}
}

// LookupMany: one query for 0..2 (4) points, with or without removal, of any namespace of 1..3 clusters of 0..2 (3)
// points, at most 3 (4) altogether, none expiring: the answer has min(n, m) points, nearest cluster first, nearest
// points first.
//
//sym:prop=C03,C02
func LookupMany() {
	w := world()
	cm := w.State(hx.Shape{MinC: 1, MaxC: 3, MaxP: hx.Bound(2, 3), Total: hx.Bound(3, 4)})
	k := sym.Pick("k", 0, hx.Bound(2, 4))
	drain := sym.Bool("drain")
	q := hx.Vec("q", 1)
	checkFill(w, cm, q, k, drain, false)
}

// LookupSpare: as LookupMany with 1..2 clusters of 0..2 points with arbitrary expiries.
//
//sym:prop=C03
func LookupSpare() {
	w := world()
	cm := w.State(hx.Shape{MinC: 1, MaxC: 2, MaxP: 2, Total: hx.Bound(2, 3), Exp: true})
	k := sym.Pick("k", 0, 2)
	q := hx.Vec("q", 1)
	checkFill(w, cm, q, k, sym.Bool("drain"), true)
}

func checkFill(w *hx.World, cm *hx.CentroidManager, q []float64, k int, drain, exp bool) {
	type cl struct {
		vec []float64
		ids []int
	}
	var cls []cl
	owner := make([]int, len(w.Pts))
	before := w.Contents(cm)
	for i, c := range cm.Centroids {
		x := cl{vec: append([]float64{}, c.Vec()...)}
		for _, dp := range c.DataPoints {
			id := hx.ID(dp)
			owner[id] = i
			x.ids = append(x.ids, id)
		}
		cls = append(cls, x)
	}
	m := 0
	alive := make([]bool, len(w.Pts))
	for i := range w.Pts {
		if before[i] > 0 && (!exp || !w.Expired(i)) {
			alive[i] = true
			m++
		}
	}
	got := cm.KNNLookup(q, k, drain)
	if k < m {
		m = k
	}
	sym.Assert(len(got) == m, "filled")
	taken := make([]bool, len(w.Pts))
	used := make([]bool, len(cls))
	prev := -1
	for _, dp := range got {
		id := w.Genuine(dp, "returned")
		sym.Assert(!taken[id], "distinct")
		taken[id] = true
		o := owner[id]
		if o == prev {
			continue
		}
		sym.Assert(!used[o], "clusters-one-after-the-other")
		used[o] = true
		if prev >= 0 {
			// A further cluster is used only once the nearer one is exhausted.
			for _, j := range cls[prev].ids {
				sym.Assert(taken[j] || !alive[j], "nearer-cluster-exhausted-first")
			}
		}
		prev = o
	}
	for _, dp := range got {
		o := owner[hx.ID(dp)]
		for j := range cls {
			full := true // cluster j cannot supply more
			for _, id := range cls[j].ids {
				full = full && (taken[id] || !alive[id])
			}
			if j != o && !full && !exp {
				sym.Assert(hx.D(cls[o].vec, q) <= hx.D(cls[j].vec, q), "nearest-cluster-first")
			}
		}
	}
	for i := 1; i < len(got); i++ {
		a, b := hx.ID(got[i-1]), hx.ID(got[i])
		if owner[a] == owner[b] {
			sym.Assert(hx.D(w.Pts[a].Vec, q) <= hx.D(w.Pts[b].Vec, q), "best-point-first")
		} else if !exp {
			sym.Assert(hx.D(cls[owner[a]].vec, q) <= hx.D(cls[owner[b]].vec, q), "clusters-in-order")
		}
	}
	for i := range w.Pts {
		for _, dp := range got {
			id := hx.ID(dp)
			if alive[i] && !taken[i] && owner[i] == owner[id] {
				sym.Assert(hx.D(w.Pts[id].Vec, q) <= hx.D(w.Pts[i].Vec, q), "most-similar-points")
			}
		}
	}
	hx.ObserveCM(cm)
}

// ---- drains ----

// DrainCount: a drain of 0..5 points, ordered or not, of any namespace of 0..3 clusters of 0..2 (3) points, at most 4 (6)
// altogether, none expiring.
//
//sym:prop=C09,C02 reach=some
func DrainCount() {
	w := world()
	cm := w.State(hx.Shape{MaxC: 3, MaxP: 3, Total: hx.Bound(4, 5)})
	n := sym.Pick("k", 0, 5)
	ordered := sym.Pick("ordered", 0, 1) == 1
	drain(w, cm, n, ordered, false)
}

// DrainExpired: a drain of 0..3 points, ordered or not, of any namespace of 0..2 clusters of 0..2 points, at most 3
// altogether, arbitrary expiries.
//
//sym:prop=C09,C14,C06
func DrainExpired() {
	w := world()
	cm := w.State(hx.Shape{MaxC: 2, MaxP: 2, Total: 3, Exp: true})
	n := sym.Pick("k", 0, 3)
	drain(w, cm, n, sym.Pick("ordered", 0, 1) == 1, true)
}

func drain(w *hx.World, cm *hx.CentroidManager, n int, ordered, exp bool) {
	before := w.Contents(cm)
	owner := make([]int, len(w.Pts))
	var vecs [][]float64
	size := make([]int, len(cm.Centroids))
	for i, c := range cm.Centroids {
		vecs = append(vecs, append([]float64{}, c.Vec()...))
		for _, dp := range c.DataPoints {
			owner[hx.ID(dp)] = i
			size[i]++
		}
	}
	var got []hx.DataPoint
	if ordered {
		got = cm.DrainOrdered(n)
	} else {
		got = cm.DrainUnordered(n)
	}
	after := w.Contents(cm)
	res := make([]int, len(w.Pts))
	w.Count(res, got, "drained")
	total := 0
	from := make([]int, len(vecs))
	for i := range w.Pts {
		total += before[i]
		sym.Assert(after[i]+res[i] <= before[i], "each-in-one-place")
		if after[i]+res[i] < before[i] {
			sym.Assert(w.Expired(i), "only-drained-removed")
		}
		if res[i] > 0 {
			sym.Assert(!w.Expired(i), "expired-not-drained")
			from[owner[i]]++
		}
	}
	sym.Assert(len(got) <= n, "at-most-n")
	if !exp {
		if n < total {
			total = n
		}
		sym.Assert(len(got) == total, "exactly-n")
		for i := range from {
			for j := range from {
				if from[i] < size[i] {
					sym.Assert(from[j] <= from[i]+1, "even")
				}
			}
		}
		if len(got) > 0 {
			sym.Reach("some")
		}
	}
	if ordered {
		for i := range w.Pts {
			for j := range w.Pts {
				if res[i] > 0 && after[j] > 0 && owner[i] == owner[j] {
					far := hx.D(w.Pts[i].Vec, vecs[owner[i]]) >= hx.D(w.Pts[j].Vec, vecs[owner[i]])
					if exp {
						continue // dropping expired points moves the centre in between
					}
					sym.Assert(far, "furthest-first")
				}
			}
		}
	}
	hx.ObserveCM(cm)
}

// ---- expiry with a running clock ----

// RunningClock: any one operation on a cluster pair holding up to 2 (3) points with arbitrary expiries while the clock
// advances arbitrarily between its readings: nothing expired before the start is returned or moved, nothing unexpired
// at the end is lost.
//
//sym:prop=C14
func RunningClock() {
	w := world()
	cm := w.State(hx.Shape{MinC: 1, MaxC: 2, MaxP: hx.Bound(1, 2), Total: hx.Bound(2, 3), Exp: true})
	before := w.Contents(cm)
	now := hx.RunningClock(999, 1001)
	var got []hx.DataPoint
	switch sym.Pick("op", 0, 7) {
	case 0:
		got = cm.KNNLookup(hx.Vec("q", 1), 2, false)
	case 1:
		got = cm.KNNLookup(hx.Vec("q", 1), 2, true)
	case 2:
		got = cm.DrainUnordered(2)
	case 3:
		got = cm.DrainOrdered(2)
	case 4:
		cm.Expire()
	case 5:
		cm.MemTrim()
	case 6:
		cm.MergeCentroids(func(*hx.Centroid) bool { return true })
	case 7:
		cm.DistributeDataPointsInternal(2)
	}
	start, end := now()
	after := w.Contents(cm)
	w.Count(after, got, "returned")
	for _, dp := range got {
		id := hx.ID(dp)
		sym.Assert(!w.ExpiredAt(id, start), "expired-before-start-not-returned")
	}
	for i := range before {
		if after[i] < before[i] {
			sym.Assert(w.ExpiredAt(i, end), "unexpired-at-end-not-lost")
		}
	}
}

// ExpireKinds: one put of a point with an arbitrary expiry into an arbitrary namespace while the clock advances.
//
//sym:prop=C14,C01
func ExpireKinds() {
	w := world()
	cm := w.State(hx.Shape{MaxC: 1, MaxP: 1})
	dp := w.New("new", true)
	id := len(w.Pts) - 1
	now := hx.RunningClock(999, 1001)
	ok := cm.AddDataPoint(dp)
	start, end := now()
	after := w.Contents(cm)
	sym.Assert(ok == (after[id] == 1), "acknowledged-iff-stored")
	if ok {
		sym.Assert(!w.ExpiredAt(id, start), "expired-not-accepted")
	} else {
		sym.Assert(w.ExpiredAt(id, end), "unexpired-accepted")
	}
}

// ---- split and merge ----

// SplitExact: splitting by arbitrary size bounds, of any namespace of 0..3 clusters of 0..4 (6) points, at most 7 (9)
// altogether.
//
//sym:prop=C21 reach=split
func SplitExact() {
	w := world()
	cm := w.State(hx.Shape{MaxC: 3, MaxP: hx.Bound(4, 6), Total: hx.Bound(6, 9)})
	splitExact(cm)
}

func splitExact(cm *hx.CentroidManager) {
	p, lo, hi := rangePred()
	type was struct {
		ids  []int
		half bool
	}
	var old []was
	for _, c := range cm.Centroids {
		x := was{ids: ids(c)}
		x.half = len(x.ids) >= 2 && len(x.ids) > lo && len(x.ids) < hi
		old = append(old, x)
	}
	cm.SplitCentroids(p)
	parts := make([][]int, len(old)) // sizes of what became of each cluster
	for _, c := range cm.Centroids {
		now := ids(c)
		for i := range old {
			if len(now) > 0 && has(old[i].ids, now[0]) {
				for _, id := range now {
					sym.Assert(has(old[i].ids, id), "clusters-not-mixed")
				}
				parts[i] = append(parts[i], len(now))
			}
		}
	}
	extra := 0
	for i := range old {
		if old[i].half {
			sym.Reach("split")
			extra++
			sym.Assert(len(parts[i]) == 2, "two-parts")
			d := parts[i][0] - parts[i][1]
			sym.Assert(d >= -1 && d <= 1, "halves")
			sym.Assert(parts[i][0]+parts[i][1] == len(old[i].ids), "complete")
		} else if len(old[i].ids) > 0 {
			sym.Assert(len(parts[i]) == 1 && parts[i][0] == len(old[i].ids), "others-untouched")
		}
	}
	sym.Assert(len(cm.Centroids) <= len(old)+extra, "no-further-clusters")
	hx.ObserveCM(cm)
}

func ids(c *hx.Centroid) []int {
	var r []int
	for _, dp := range c.DataPoints {
		r = append(r, hx.ID(dp))
	}
	return r
}

func has(s []int, x int) bool {
	for _, y := range s {
		if y == x {
			return true
		}
	}
	return false
}

// Threshold: one put into any namespace of 0..2 clusters of 0..3 (4) points, below the threshold of 2..4 (5).
//
//sym:prop=C21 reach=split
func Threshold() {
	w := world()
	t := sym.Pick("t", 2, hx.Bound(4, 5))
	threshold(w, w.State(hx.Shape{MaxC: 2, MaxP: t - 1, Threshold: t}), t)
}

func threshold(w *hx.World, cm *hx.CentroidManager, t int) {
	before := w.Contents(cm)
	n := len(cm.Centroids)
	sizes := map[*hx.Centroid][]int{}
	for _, c := range cm.Centroids {
		sizes[c] = ids(c)
	}
	sym.Assert(cm.AddDataPoint(w.New("new", false)), "accepted")
	after := w.Contents(cm)
	before = append(before, 1)
	w.Kept(before, after, "put")
	sym.Assert(after[len(after)-1] == 1, "stored")
	grown := 0
	for _, c := range cm.Centroids {
		sym.Assert(c.LenDP() < t, "below-threshold")
		was, old := sizes[c]
		now := ids(c)
		switch {
		case !old:
			grown++
		case len(was)+1 == t && len(now) < t && (len(now) != len(was) || len(now) > 0 && now[0] != was[0]):
			sym.Reach("split")
			for _, id := range now {
				sym.Assert(has(was, id) || id == len(w.Pts)-1, "clusters-not-mixed")
			}
		default:
			sym.Assert(len(now) >= len(was), "split-only-at-threshold")
			sym.Assert(len(now) <= len(was)+1, "others-untouched")
			for _, id := range was {
				sym.Assert(has(now, id), "others-untouched")
			}
		}
	}
	if n > 0 {
		sym.Assert(grown <= 1, "one-new-cluster")
	}
	hx.ObserveCM(cm)
}

// MergeExact: merging by arbitrary size bounds, of any namespace of 0..3 clusters of 0..2 (3) points, at most 4 (5)
// altogether.
//
//sym:prop=C21 reach=merged
func MergeExact() {
	w := world()
	cm := w.State(hx.Shape{MaxC: hx.Bound(3, 4), MaxP: hx.Bound(2, 3), Total: hx.Bound(4, 5)})
	mergeExact(cm)
}

func mergeExact(cm *hx.CentroidManager) {
	p, lo, hi := rangePred()
	sel := func(n int) bool { return n > lo && n < hi }
	old := append([]*hx.Centroid{}, cm.Centroids...)
	was := make([][]int, len(old))
	vecs := make([][]float64, len(old))
	for i, c := range old {
		was[i] = ids(c)
		vecs[i] = append([]float64{}, c.Vec()...)
	}
	cm.MergeCentroids(p)
	// What must have happened, cluster by cluster.
	cur := make([][]int, len(old))
	gone := make([]bool, len(old))
	for i := range old {
		cur[i] = append([]int{}, was[i]...)
	}
	// Which cluster does each point live in now, and where is it?
	at, vec := map[int]int{}, map[int][]float64{}
	alive := make([]bool, len(old))
	for i, c := range old {
		for _, d := range cm.Centroids {
			if c == d {
				alive[i] = true
				for _, id := range ids(d) {
					at[id] = i
				}
				for _, dp := range c.DataPoints {
					vec[hx.ID(dp)] = dp.Vec
				}
			}
		}
	}
	ties := false
	sym.Assert(len(cm.Centroids) <= len(old), "no-new-clusters")
	for i := range old {
		if gone[i] || !sel(len(cur[i])) {
			continue
		}
		left := 0
		for j := range old {
			if j != i && !gone[j] {
				left++
			}
		}
		for left > 0 && sel(len(cur[i])) {
			// The next one absorbed is a nearest one of those left when the absorbing began.
			best, tie := -1, false
			for j := range old {
				if j == i || gone[j] {
					continue
				}
				if best < 0 || hx.D(vecs[j], vecs[i]) < hx.D(vecs[best], vecs[i]) {
					best, tie = j, false
				} else if hx.D(vecs[j], vecs[i]) == hx.D(vecs[best], vecs[i]) {
					tie = true
				}
			}
			ties = ties || tie
			gone[best] = true
			cur[i] = append(cur[i], cur[best]...)
			cur[best] = nil
			left--
			sym.Reach("merged")
		}
		// The centre has moved with it.
		if len(cur[i]) > len(was[i]) {
			vecs[i] = make([]float64, len(vecs[i]))
			for _, id := range cur[i] {
				for x, v := range vec[id] {
					vecs[i][x] += v / float64(len(cur[i]))
				}
			}
		}
	}
	// Which one comes first of those equally near is not said.
	sym.Assume(!ties)
	for i := range old {
		sym.Assert(alive[i] == !gone[i], "absorbed-disappear-others-stay")
		if !gone[i] {
			sym.Assert(old[i].LenDP() == len(cur[i]), "absorbs-until-satisfied")
			for _, id := range cur[i] {
				sym.Assert(at[id] == i, "points-kept-together")
			}
		}
	}
	hx.ObserveCM(cm)
}

// Handout: handing out 0..3 clusters, with or without removal, of any namespace of 0..3 clusters of 0..1 points: the nearest
// ones, all their points, removed or kept exactly.
//
//sym:prop=C11,C06
func Handout() {
	w := world()
	cm := w.State(hx.Shape{MaxC: 3, MaxP: 1})
	q := hx.Vec("q", 1)
	k := sym.Pick("k", 0, 3)
	drain := sym.Pick("drain", 0, 1) == 1
	old := append([]*hx.Centroid{}, cm.Centroids...)
	vecs := make([][]float64, len(old))
	for i, c := range old {
		vecs[i] = append([]float64{}, c.Vec()...)
	}
	before := w.Contents(cm)
	cs, ok := cm.NearestCentroids(q, k, drain)
	m := k
	if len(old) < m {
		m = len(old)
	}
	sym.Assert(len(cs) == m, "as-many-as-asked")
	sym.Assert(ok == (m > 0), "flag")
	after := w.Contents(cm)
	taken := make([]bool, len(old))
	for _, c := range cs {
		for i := range old {
			if old[i] == c {
				sym.Assert(!taken[i], "distinct-clusters")
				taken[i] = true
			}
		}
		if drain {
			w.Count(after, c.DataPoints, "handed-out")
		}
	}
	w.Kept(before, after, "handout")
	n := 0
	for i := range old {
		in := false
		for _, c := range cm.Centroids {
			in = in || c == old[i]
		}
		sym.Assert(in == !(drain && taken[i]), "exactly-those-removed")
		if taken[i] {
			n++
			for j := range old {
				if !taken[j] {
					sym.Assert(hx.D(vecs[i], q) <= hx.D(vecs[j], q), "nearest")
				}
			}
		}
	}
	sym.Assert(n == m, "clusters-of-the-namespace")
	hx.ObserveCM(cm)
}

// Count: the reported number of points equals the number stored, in any namespace of 0..3 clusters of 0..3 points, and
// reading it changes nothing.
//
//sym:prop=C22
func Count() {
	w := world()
	cm := w.State(hx.Shape{MaxC: 3, MaxP: 3, Exp: false})
	n := 0
	for _, c := range cm.Centroids {
		n += len(c.DataPoints)
	}
	before := w.Contents(cm)
	sym.Assert(cm.LenDP() == n, "count")
	after := w.Contents(cm)
	for i := range before {
		sym.Assert(after[i] == before[i], "reading-changes-nothing")
	}
}

// Twins: any one operation on a namespace of 1..2 clusters holding a point twice (same vector, payload and expiry) and
// up to 1 other point, or a put of a third one: equal points are distinct points.
//
//sym:prop=C01,C02,C03,C06,C09
func Twins() {
	w := world()
	x := w.New("x", false)
	twin := func() hx.DataPoint {
		d := x
		d.Vec = append([]float64{}, x.Vec...)
		d.Payload = append([]byte{}, x.Payload...)
		return d
	}
	var cs []*hx.Centroid
	switch sym.Pick("layout", 0, 3) {
	case 0:
		cs = []*hx.Centroid{hx.Cluster([]hx.DataPoint{x, twin()}, 1)}
	case 1:
		cs = []*hx.Centroid{hx.Cluster([]hx.DataPoint{x}, 1), hx.Cluster([]hx.DataPoint{twin()}, 1)}
	case 2:
		cs = []*hx.Centroid{hx.Cluster([]hx.DataPoint{x, twin()}, 1), hx.Cluster([]hx.DataPoint{w.New("y", false)}, 1)}
	case 3:
		cs = []*hx.Centroid{hx.Cluster([]hx.DataPoint{x}, 1), hx.Cluster([]hx.DataPoint{w.New("y", false), twin()}, 1)}
	}
	cm := hx.NewCM(cs, 1, []int{0, 3}[sym.Pick("t", 0, 1)])
	before := w.Contents(cm)
	n, total := sym.Pick("n", 1, 3), 0
	for _, b := range before {
		total += b
	}
	var got []hx.DataPoint
	op := sym.Pick("op", 0, 8)
	switch op {
	case 0:
		sym.Assert(cm.AddDataPoint(twin()), "accepted")
		before[0]++
	case 1, 2:
		got = cm.KNNLookup(hx.Vec("q", 1), n, op == 2)
	case 3:
		got = cm.DrainUnordered(n)
	case 4:
		got = cm.DrainOrdered(n)
	case 5:
		cm.MemTrim()
	case 6:
		cm.SplitCentroids(func(*hx.Centroid) bool { return true })
	case 7:
		cm.MergeCentroids(func(*hx.Centroid) bool { return true })
	case 8:
		cm.DistributeDataPointsInternal(n)
	}
	after := w.Contents(cm)
	res := make([]int, len(w.Pts))
	w.Count(res, got, "returned")
	if op >= 1 && op <= 4 {
		if total < n {
			n = total
		}
		sym.Assert(len(got) == n, "as-many-as-asked")
	}
	for i := range before {
		sym.Assert(res[i] <= before[i], "no-more-often-than-stored")
		if op == 1 {
			sym.Assert(after[i] == before[i], "each-kept")
		} else {
			sym.Assert(after[i]+res[i] == before[i], "each-in-one-place")
		}
	}
}
