package cman

import (
	"trypo/pkg/kmeans/common"
	"trypo/zzverif/hx"
	"trypo/zzverif/sym"
)

func world() *hx.World { return hx.NewWorld(1) }

func anyPred(*hx.Centroid) bool { return sym.Bool("select") }

// rangePred selects by size, strictly between arbitrary bounds, as requests over the network do.
func rangePred() (func(*hx.Centroid) bool, int, int) {
	lo, hi := sym.Int("min", -1<<62, 1<<62), sym.Int("max", -1<<62, 1<<62)
	return func(c *hx.Centroid) bool { return c.LenDP() > lo && c.LenDP() < hi }, lo, hi
}

func centres(cm *hx.CentroidManager, what string) {
	hx.CentreOK(cm, "namespace-centre-after-"+what)
	hx.ClusterCentresOK(cm, "cluster-centre-after-"+what)
	hx.ObserveCM(cm)
}

// CMPut: one put, with threshold splits at 0, 2 or 3 points, into any namespace of 0..2 (3) clusters of 0..2 (3)
// points in 1 dimension.
//
//sym:prop=C08,C07 reach=centre
func CMPut() {
	w := world()
	cm := w.State(hx.Shape{MaxC: hx.Bound(2, 3), MaxP: hx.Bound(2, 3), Threshold: []int{0, 2, 3}[sym.Pick("t", 0, 2)]})
	cm.AddDataPoint(w.New("new", true))
	centres(cm, "put")
}

// CMDrain: one drain of 0..4 points, ordered or not, from any namespace of 0..2 (3) clusters of 0..2 points, arbitrary
// expiries when unordered.
//
//sym:prop=C08,C07 reach=centre
func CMDrain() {
	w := world()
	ordered := sym.Pick("ordered", 0, 1) == 1
	cm := w.State(hx.Shape{MaxC: hx.Bound(2, 3), MaxP: 2, Exp: !ordered})
	n := sym.Pick("k", 0, 4)
	if ordered {
		cm.DrainOrdered(n)
	} else {
		cm.DrainUnordered(n)
	}
	centres(cm, "drain")
}

// CMSweep: one expiry sweep, memory trim or centre recomputation of any namespace of 0..3 clusters of 0..2 (3) points
// with arbitrary expiries.
//
//sym:prop=C08,C07 reach=centre
func CMSweep() {
	w := world()
	cm := w.State(hx.Shape{MaxC: 3, MaxP: hx.Bound(2, 3), Exp: true, Total: hx.Bound(4, 5)})
	switch sym.Pick("op", 0, 2) {
	case 0:
		cm.Expire()
		centres(cm, "expire")
	case 1:
		cm.MemTrim()
		centres(cm, "memtrim")
	case 2:
		cm.MoveVector()
		centres(cm, "movevector")
	}
}

// CMSplitMerge: one split or merge, with clusters selected by arbitrary size bounds, of any namespace of 0..3 clusters
// of 0..2 (3) points, 4 (6) altogether.
//
//sym:prop=C08,C07 reach=centre
func CMSplitMerge() {
	w := world()
	cm := w.State(hx.Shape{MaxC: 3, MaxP: hx.Bound(2, 3), Total: hx.Bound(4, 6)})
	p, _, _ := rangePred()
	if sym.Pick("op", 0, 1) == 0 {
		cm.SplitCentroids(p)
		centres(cm, "split")
	} else {
		cm.MergeCentroids(p)
		centres(cm, "merge")
	}
}

// CMLookup: one query of 0..3 points, with or without removal, of any namespace of 0..2 (3) clusters of 0..2 points,
// 2 (3) altogether, with arbitrary expiries.
//
//sym:prop=C08,C07 reach=centre
func CMLookup() {
	w := world()
	cm := w.State(hx.Shape{MaxC: hx.Bound(2, 3), MaxP: 2, Exp: true, Total: hx.Bound(2, 3)})
	cm.KNNLookup(hx.Vec("q", 1), sym.Pick("k", 0, 3), sym.Bool("drain"))
	centres(cm, "lookup")
}

// CMHandOut: handing out 0..3 clusters, with or without removal, of any namespace of 0..3 clusters of 0..1 (2) points.
//
//sym:prop=C08,C07 reach=centre
func CMHandOut() {
	w := world()
	cm := w.State(hx.Shape{MaxC: 3, MaxP: hx.Bound(1, 2)})
	cm.NearestCentroids(hx.Vec("q", 1), sym.Pick("k", 0, 3), sym.Bool("drain"))
	centres(cm, "handout")
}

// CMDistribute: redistribution of 0..3 points inside any namespace of 0..2 (3) clusters of 0..2 points, or to another
// namespace's cluster.
//
//sym:prop=C08,C07 reach=centre
func CMDistribute() {
	w := world()
	cm := w.State(hx.Shape{MaxC: hx.Bound(2, 3), MaxP: 2, Total: hx.Bound(3, 4)})
	n := sym.Pick("k", 0, 3)
	if sym.Pick("op", 0, 1) == 0 {
		cm.DistributeDataPointsInternal(n)
		centres(cm, "internal-distribution")
	} else {
		other := hx.Cluster([]hx.DataPoint{w.New("o", false)}, 1)
		cm.DistributeDataPoints(n, []common.DataPointReceiver{other})
		centres(cm, "distribution")
	}
}

// CMWide: any one operation on any namespace of 1..2 clusters of 0..2 points, 2 (3) altogether, in 3..5 dimensions.
//
//sym:prop=C08,C07 reach=centre
func CMWide() {
	w := hx.NewWorld(sym.Pick("dim", 3, 5))
	cm := w.State(hx.Shape{MinC: 1, MaxC: 2, MaxP: 2, Total: hx.Bound(2, 3), Threshold: []int{0, 2}[sym.Pick("t", 0, 1)]})
	switch sym.Pick("op", 0, 8) {
	case 0:
		cm.AddDataPoint(w.New("new", false))
	case 1:
		cm.DrainUnordered(1)
	case 2:
		cm.DrainOrdered(1)
	case 3:
		cm.MemTrim()
	case 4:
		cm.KNNLookup(hx.Vec("q", w.Dim), 1, true)
	case 5:
		cm.SplitCentroids(func(*hx.Centroid) bool { return true })
	case 6:
		cm.MergeCentroids(func(*hx.Centroid) bool { return true })
	case 7:
		cm.DistributeDataPointsInternal(2)
	case 8:
		cm.NearestCentroids(hx.Vec("q", w.Dim), 1, true)
	}
	centres(cm, "operation")
}
