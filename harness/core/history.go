package core

import (
	"net/http"
	"trypo/core/dps"
	"trypo/core/nodes"
	"trypo/zzverif/hx"
	"trypo/zzverif/sym"
)

// prelude is what happened in the network before the operation that is checked.
var prelude = func() {}

// running is the API that has been started already, if it is to be kept.
var running map[string]http.Handler

// usable makes every node either unreachable or holding something.
func usable(int) int { return []int{absent, holding}[sym.Pick("kind", 0, 1)] }

// former lets one earlier operation happen in a network of 2 nodes, of which any is unreachable and any one connection or request
// may fail; then the nodes are replaced.
func former(api bool) {
	w := hx.NewWorld(1)
	kind := usable
	if api {
		one := sym.Pick("former holder", 0, 1)
		kind = func(i int) int { return []int{absent, holding}[(i+one)%2] }
	}
	x := build(w, 2, kind, func() *hx.CentroidManager {
		return hx.NewCM([]*hx.Centroid{hx.Cluster([]hx.DataPoint{w.Register(hx.DataPoint{Vec: []float64{float64(1 + 8*len(w.Pts))}})}, 1)}, 1, 0)
	})
	v := []float64{3}
	a := append([]nodes.Addr{}, addrs[:2]...)
	rank := nodes.BestFitNodesArgs{AddrOpts: a, Namespace: "a", Vec: v, KNNSearchFunc: hx.KNN}
	put := dps.PutDataPointArgs{AddrOptions: a, Namespace: "a", DataPoint: w.Register(hx.DataPoint{Vec: v}), KNNSearchFunc: hx.KNN}
	get := dps.GetDataPointsArgs{AddrOptions: a, Namespace: "a", QueryVec: v, N: 1, Drain: true, KNNSearchFunc: hx.KNN}
	if api {
		running = map[string]http.Handler{}
	}
	accurate := false
	if !api {
		x.faults(1)
		accurate = sym.Bool("former accurate")
	}
	least := 0
	if api {
		least = 1
	}
	switch op := sym.Pick("former op", least, 2); {
	case api && op == 1:
		apiPut(2, "a", put.DataPoint, accurate)
	case api:
		apiQuery(2, "a", v, 1, true, accurate)
	case op == 0 && accurate:
		nodes.BestFitNodesAccurate(rank)
	case op == 0:
		nodes.BestFitNodesFast(rank)
	case op == 1 && accurate:
		dps.PutDataPointAccurate(put)
	case op == 1:
		dps.PutDataPointFast(put)
	case accurate:
		dps.GetDataPointsAccurate(get)
	default:
		dps.GetDataPointsFast(get)
	}
	x.calm()
}

// RankAfter: ranking of 2 nodes, each unreachable or with 1 cluster at an arbitrary 1-component centre, after any one operation
// on the nodes that had their addresses before, which were unreachable or held a point, a connection or request failing or not.
//
//sym:prop=C18 preempt=0 order=0 reach=several
func RankAfter() {
	prelude = func() { former(false) }
	rank(sym.Pick("accurate", 0, 1) == 1, 2, usable, 1, 0)
}

// PutAfter: as Put over 2 nodes, each unreachable or with a cluster of 0..1 points, after an operation as in RankAfter.
//
//sym:prop=C19 preempt=0 order=0 reach=stored,failed
func PutAfter() {
	prelude = func() { former(false) }
	put(2, usable, 0, false)
}

// GetAfter: as Get over 2 nodes, each unreachable or with a cluster of 0..1 points, after an operation as in RankAfter.
//
//sym:prop=C19 preempt=0 order=0
func GetAfter() {
	prelude = func() { former(false) }
	get(2, usable, 2, 0, false, true)
}

// APIPutAfter: as APIPut over 2 nodes, each unreachable, without the namespace or with a cluster of 0..1 points, after a put or a draining query
// through the same API to the nodes that had their addresses before, of which one was unreachable and the other held a point.
//
//sym:prop=C20 preempt=0 order=0 reach=stored,failed
func APIPutAfter() {
	prelude = func() { former(true) }
	put(2, func(int) int { return []int{absent, without, holding}[sym.Pick("kind", 0, 2)] }, 0, true)
}

// APIQueryAfter: as APIQuery over 2 nodes, each unreachable or with a cluster of 0..1 points, after an operation as in
// APIPutAfter.
//
//sym:prop=C20 preempt=0 order=0
func APIQueryAfter() {
	prelude = func() { former(true) }
	get(2, usable, 2, 0, true, true)
}
