package cman

import (
	"time"
	"trypo/zzverif/hx"
	"trypo/zzverif/sym"
)

// Larger namespaces: the contents are fixed, the request's numbers arbitrary.

// crowd is a namespace of clusters of the given sizes, in which every third point has expired if exp.
func crowd(w *hx.World, exp bool, threshold int, sizes ...int) *hx.CentroidManager {
	var cs []*hx.Centroid
	for i, n := range sizes {
		at := float64(64 * i * i)
		var dps []hx.DataPoint
		for j := 0; j < n; j++ {
			dp := hx.DataPoint{Vec: []float64{at + float64(j*7%n)/2}}
			if exp && len(w.Pts)%3 == 1 {
				dp.ExpireEnabled, dp.Expires = true, time.Unix(900, 0)
			}
			dps = append(dps, w.Register(dp))
		}
		if n == 0 {
			cs = append(cs, hx.ClusterAt([]float64{at}, nil))
		} else {
			cs = append(cs, hx.Cluster(dps, 1))
		}
	}
	return hx.NewCM(cs, 1, threshold)
}

// QueryLarge: a query for any number of points, draining or not, near or far, of a namespace of 4 clusters of 32, 0, 41 and 30
// points, none or every third of them expired.
//
//sym:prop=C03,C02
func QueryLarge() {
	w := world()
	exp := sym.Pick("exp", 0, 1) == 1
	cm := crowd(w, exp, 0, 32, 0, 41, 30)
	checkFill(w, cm, []float64{[]float64{0, 100, 5000}[sym.Pick("q", 0, 2)]}, sym.Int("k", 0, 1<<62), sym.Bool("drain"), exp)
}

// QueryLargeGone: as QueryLarge, for what is removed.
//
//sym:prop=C02,C14
func QueryLargeGone() {
	w := world()
	cm := crowd(w, sym.Pick("exp", 0, 1) == 1, 0, 32, 0, 41, 30)
	before := w.Contents(cm)
	k, drain := sym.Int("k", 0, 1<<62), sym.Pick("drain", 0, 1) == 1
	got := cm.KNNLookup([]float64{100}, k, drain)
	checkQuery(w, before, w.Contents(cm), got, k, drain)
}

// DrainLarge: a drain of any number of points, ordered or not, of the same namespace, or of one of 9 clusters of 0..12 points.
//
//sym:prop=C09,C14,C02 maporder=0
func DrainLarge() {
	w := world()
	exp := sym.Pick("exp", 0, 1) == 1
	var cm *hx.CentroidManager
	if sym.Pick("many", 0, 1) == 0 {
		cm = crowd(w, exp, 0, 32, 0, 41, 30)
	} else {
		cm = crowd(w, exp, 0, 3, 1, 0, 12, 5, 2, 9, 1, 4)
	}
	drain(w, cm, sym.Int("k", 0, 1<<62), sym.Pick("ordered", 0, 1) == 1, exp)
}

// KeepLarge: any one maintenance request, with any numbers, on a namespace of 9 clusters of 0..21 points, none or every third
// of them expired.
//
//sym:prop=C06,C07,C08,C14 reach=centre maporder=0
func KeepLarge() {
	w := world()
	exp := sym.Pick("exp", 0, 1) == 1
	cm := crowd(w, exp, 0, 3, 1, 0, 21, 5, 2, 13, 1, 4)
	before := w.Contents(cm)
	op := sym.Pick("op", 0, 5)
	switch op {
	case 0:
		cm.Expire()
	case 1:
		cm.MemTrim()
	case 2:
		cm.MoveVector()
	case 3:
		p, _, _ := rangePred()
		cm.SplitCentroids(p)
	case 4:
		p, _, _ := rangePred()
		cm.MergeCentroids(p)
	case 5:
		cm.DistributeDataPointsInternal(sym.Int("k", 0, 1<<62))
	}
	after := w.Contents(cm)
	w.Kept(before, after, "maintained")
	for i := range after {
		if op < 2 && w.Expired(i) {
			sym.Assert(after[i] == 0, "expired-removed")
		}
	}
	centres(cm, "maintenance")
}

// SplitLarge: splitting by any bounds of 9 clusters of 0..21 points.
//
//sym:prop=C21 reach=split
func SplitLarge() { splitExact(crowd(world(), false, 0, 3, 1, 0, 21, 5, 2, 13, 1, 4)) }

// MergeLarge: merging by any bounds of 9 clusters of 0..21 points.
//
//sym:prop=C21 reach=merged
func MergeLarge() { mergeExact(crowd(world(), false, 0, 3, 1, 0, 21, 5, 2, 13, 1, 4)) }

// ThresholdLarge: one put into a namespace of 3 clusters of 49, 20 and 0 points, the threshold being 50 or 64.
//
//sym:prop=C21,C08,C07
func ThresholdLarge() {
	w := world()
	t := []int{50, 64}[sym.Pick("t", 0, 1)]
	cm := crowd(w, false, t, 49, 20, 0)
	threshold(w, cm, t)
	centres(cm, "put")
}
