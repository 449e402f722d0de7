package net

import (
	"fmt"
	"math"
	netrpc "net/rpc"
	"trypo/pkg/kmeans/rpc"
	"trypo/pkg/searchutils"
	"trypo/zzverif/hx"
	"trypo/zzverif/sym"
)

// faults makes any of the first max connections that are not to the given nodes fail, when dialling or before the request
// arrives. It returns how many failed.
func faults(max int, spared ...string) *int {
	n, failed := 0, new(int)
	netrpc.Fault = func(addr, method string, phase int) bool {
		if phase == netrpc.Replying || n >= max || hx.Has(spared, addr) {
			return false
		}
		n++
		if sym.Bool("fault") {
			*failed++
			return true
		}
		return false
	}
	return failed
}

func calm() { netrpc.Fault = func(string, string, int) bool { return false } }

var dom2 = [][]float64{{1, 0}, {1, 2}, {-1, 1}}

func cosSpace(w *hx.World, dim int, pts ...hx.DataPoint) *hx.CentroidManager {
	cm := hx.Factory(searchutils.KNNCos, searchutils.KFNCos, 0)(make([]float64, dim))
	for _, dp := range pts {
		c := hx.ClusterWith(searchutils.KNNCos, searchutils.KFNCos, dp.Vec)
		c.DataPoints = append(c.DataPoints, dp)
		cm.Centroids = append(cm.Centroids, c)
	}
	cm.MoveVector()
	return cm
}

// candidate sets up node addr in one of the ways a candidate can be: 0 absent, 1 without the namespace, 2 with a namespace
// of no clusters, 3 holding a point, 4 holding a point of another dimension.
func candidate(w *hx.World, addr string, kind int, v []float64) *rpc.KMeansServer {
	s := hx.NodeWith(addr, searchutils.KNNCos, searchutils.KFNCos, 0)
	switch kind {
	case 0:
		delete(netrpc.Nodes, addr)
	case 2:
		hx.Install(s, "a", cosSpace(w, 2))
	case 3:
		hx.Install(s, "a", cosSpace(w, 2, w.Register(hx.DataPoint{Vec: v})))
	case 4:
		hx.Install(s, "a", cosSpace(w, 1, w.Register(hx.DataPoint{Vec: []float64{1}})))
	}
	return s
}

var lists = [][]string{nil, {"n2"}, {"n2", "n3"}, {"n1"}, {"n1", "n2"}, {"n2", "n2"}, {"nowhere", "n2"}}

func redistribute(kinds, maxFaults, points int) {
	w := hx.NewWorld(2)
	w.Dom = dom2[hx.Bound(1, 0):]
	s1 := hx.NodeWith("n1", searchutils.KNNCos, searchutils.KFNCos, 0)
	// 1..2 clusters
	c1 := hx.ClusterWith(searchutils.KNNCos, searchutils.KFNCos, []float64{1, 0})
	c2 := hx.ClusterWith(searchutils.KNNCos, searchutils.KFNCos, []float64{0, 1})
	cm := cosSpace(w, 2)
	cm.Centroids = append(cm.Centroids, c1)
	if sym.Pick("clusters", 1, 2) == 2 {
		cm.Centroids = append(cm.Centroids, c2)
	}
	for i, k := 0, sym.Pick("points", 0, points); i < k; i++ {
		to := c1
		if len(cm.Centroids) > 1 && i%2 == 1 {
			to = c2
		}
		to.DataPoints = append(to.DataPoints, w.New("p", i == 0))
	}
	cm.MoveVector()
	hx.Install(s1, "a", cm)
	other := hx.Image(otherSpace(w, s1))

	list := lists[sym.Pick("list", 0, len(lists)-1)]
	k2, k3 := 0, 0
	if hx.Has(list, "n2") {
		k2 = sym.Pick("n2", 0, kinds)
	}
	if hx.Has(list, "n3") {
		k3 = sym.Pick("n3", hx.Bound(2, 0), kinds)
	}
	s2, s3 := candidate(w, "n2", k2, dom2[1]), candidate(w, "n3", k3, dom2[2])
	all := []*rpc.KMeansServer{s1, s2, s3}
	before := w.Holds("a", all...)
	mine := w.Holds("a", s1)
	n := sym.Int("n", -1, points+1)
	faults(maxFaults, "n1")
	var err error
	c := rpc.KMeansClient("n1", "a", &err)
	if sym.Pick("accurate", 0, 1) == 1 {
		c.DistributeDataPointsAccurate(list, n)
	} else {
		c.DistributeDataPointsFast(list, n)
	}
	calm()
	sym.Assert(err == nil, "redistribution-is-answered")
	w.Kept(before, w.Holds("a", all...), "redistributed")
	moved := 0
	for i, x := range w.Holds("a", s2, s3) {
		if mine[i] > 0 && x > 0 {
			moved += x
			sym.Assert(!w.Expired(i), "expired-not-moved")
			sym.Reach("moved")
		}
	}
	sym.Assert(sym.Or(moved == 0, moved <= n), "at-most-n-moved")
	other.Same(hx.Space(s1, "b"), "other-namespace-untouched")
	for _, s := range all[1:] {
		sym.Assert(hx.Space(s, "b") == nil, "other-namespace-not-created")
	}
	sym.Observe("moved", moved)
}

func otherSpace(w *hx.World, s *rpc.KMeansServer) *hx.CentroidManager {
	hx.Install(s, "b", cosSpace(w, 1, w.Register(hx.DataPoint{Vec: []float64{1}}), w.Register(hx.DataPoint{Vec: []float64{-1}})))
	return hx.Space(s, "b")
}

// Redistribute: one redistribution, fast or accurate, of any number n of -1..3 points of a node with 1..2 clusters and 0..2
// points (2-component vectors out of 2 (3), the first with an arbitrary expiry), to an empty list of nodes, itself, or 1..2 others that are
// unreachable, lack the namespace, have it without clusters, hold a point, or hold points of another vector length; no
// failing connections besides; every order of answers.
//
//sym:prop=C10,C13 preempt=0 maporder=0 reach=moved
func Redistribute() { redistribute(4, 0, 2) }

// RedistributeFaults: as Redistribute with candidates that are unreachable or hold a point, where any of the first 3 (5)
// connections and requests to other nodes may fail.
//
//sym:prop=C10 preempt=0 maporder=0 reach=moved
func RedistributeFaults() {
	w := hx.NewWorld(2)
	w.Dom = dom2
	s1 := hx.NodeWith("n1", searchutils.KNNCos, searchutils.KFNCos, 0)
	c1 := hx.ClusterWith(searchutils.KNNCos, searchutils.KFNCos, []float64{1, 0})
	cm := cosSpace(w, 2)
	cm.Centroids = append(cm.Centroids, c1)
	for i, k := 0, sym.Pick("points", 1, 2); i < k; i++ {
		c1.DataPoints = append(c1.DataPoints, w.Register(hx.DataPoint{Vec: dom2[i]}))
	}
	cm.MoveVector()
	hx.Install(s1, "a", cm)
	s2, s3 := candidate(w, "n2", 3, dom2[1]), candidate(w, "n3", 3, dom2[2])
	all := []*rpc.KMeansServer{s1, s2, s3}
	before := w.Holds("a", all...)
	mine := w.Holds("a", s1)
	faults(hx.Bound(3, 5), "n1")
	args := rpc.DistribDPArgs{NameSpace: "a", N: 2, AddrOptions: [][]string{{"n2"}, {"n2", "n3"}}[sym.Pick("list", 0, 1)]}
	ignored := 0
	if sym.Pick("accurate", 0, 1) == 1 {
		s1.DistributeDataPointsAccurate(args, &ignored)
	} else {
		s1.DistributeDataPointsFast(args, &ignored)
	}
	calm()
	w.Kept(before, w.Holds("a", all...), "redistributed")
	for i, x := range w.Holds("a", s2, s3) {
		if mine[i] > 0 && x > 0 {
			sym.Reach("moved")
		}
	}
}

// Steal: one take-over of clusters, any limit, by a node whose namespace is unused or has 0..1 clusters of 0..1 points, from
// another node whose namespace is unused or has 0..2 (3) clusters of 0..2 points, 2 (3) altogether; arbitrary 1-component
// vectors, fixed clock with arbitrary expiries; any of the first 3 (4) connections and requests to the other node may
// fail.
//
//sym:prop=C11,C13,C08 reach=moved,failed,left
func Steal() {
	w := hx.NewWorld(1)
	s1, s2 := hx.Node("n1", 0), hx.Node("n2", 0)
	local := sym.Pick("local", 0, 1) == 1
	if local {
		hx.Install(s1, "a", w.State(hx.Shape{MaxC: 1, MaxP: 1}))
	}
	known := sym.Pick("remote", 0, 1) == 1
	if known {
		hx.Install(s2, "a", w.State(hx.Shape{MaxC: hx.Bound(2, 3), MaxP: 2, Total: hx.Bound(2, 3), Exp: true}))
	}
	o1, o2 := hx.Image(otherSpace(w, s1)), hx.Image(otherSpace(w, s2))
	mine := w.Holds("a", s1)
	before := w.Holds("a", s1, s2)
	var largest, clusters int
	if cm := hx.Space(s2, "a"); cm != nil {
		clusters = len(cm.Centroids)
		for _, c := range cm.Centroids {
			if len(c.DataPoints) > largest {
				largest = len(c.DataPoints)
			}
		}
	}
	limit := sym.Int("limit", -1<<62, 1<<62)
	failed := faults(hx.Bound(3, 4), "n1")
	var r rpc.StealCentroidsResp
	var err error
	r.TransferredN, r.OK = rpc.KMeansClient("n1", "a", &err).StealCentroids("n2", limit)
	calm()
	sym.Assert(err == nil, "take-over-is-answered")
	after := w.Holds("a", s1, s2)
	w.Kept(before, after, "taken-over")
	moved := 0
	for i, x := range w.Holds("a", s1) {
		if x > mine[i] {
			moved += x - mine[i]
			sym.Assert(!w.Expired(i), "expired-not-moved")
		}
	}
	sym.Assert(r.TransferredN == moved, "reported-number-is-true")
	if moved > 0 {
		sym.Reach("moved")
	}
	asked := sym.Or(limit > 0, !local)
	if known && *failed == 0 {
		sym.Assert(r.OK, "success-reported")
		left := len(hx.Space(s2, "a").Centroids)
		sym.Assert(sym.Or(moved >= limit, left == 0), "stops-only-at-the-limit-or-when-empty")
		// before the last taken cluster the limit was not reached
		sym.Assert(sym.Or(moved == 0, moved-largest < limit), "stops-at-the-limit")
		sym.Assert(sym.Implies(limit <= 0, left == clusters), "nothing-taken-without-need")
		if left > 0 {
			sym.Reach("left")
		}
	}
	if *failed > 0 || !known && asked {
		sym.Assert(!r.OK, "failure-reported")
		sym.Reach("failed")
	}
	if cm := hx.Space(s1, "a"); cm != nil && moved > 0 {
		hx.CentreOK(cm, "namespace-centre-after-take-over")
		hx.ClusterCentresOK(cm, "cluster-centre-after-take-over")
	}
	if cm := hx.Space(s2, "a"); cm != nil && len(cm.Centroids) > 0 {
		hx.CentreOK(cm, "namespace-centre-after-giving")
	}
	o1.Same(hx.Space(s1, "b"), "other-namespace-untouched")
	o2.Same(hx.Space(s2, "b"), "other-namespace-untouched")
	sym.Observe("moved", moved)
	sym.Observe("ok", r.OK)
}

func cosine(a, b []float64) float64 {
	dot, x, y := 0.0, 0.0, 0.0
	for i := range a {
		dot += a[i] * b[i]
		x += a[i] * a[i]
		y += b[i] * b[i]
	}
	if x == 0 || y == 0 {
		return 0
	}
	return dot / math.Sqrt(x*y)
}

var dirs = [][]float64{{1, 0}, {1, 2}, {-1, 1}, {-2, -1}, {0, -3}}

// place redistributes to the given number of candidates, each holding one cluster.
func place(candidates, points int, accurate bool, lowest int, any bool) {
	w := hx.NewWorld(2)
	w.Dom = dirs[:hx.Bound(4, 5)]
	s1 := hx.NodeWith("n1", searchutils.KNNCos, searchutils.KFNCos, 0)
	cm := cosSpace(w, 2)
	for i := 0; i < points; i++ {
		var dp hx.DataPoint
		if any {
			dp = w.Register(hx.DataPoint{Vec: []float64{1, sym.Float("p", -hx.Lim, hx.Lim)}})
		} else {
			dp = w.New("p", false)
		}
		c := hx.ClusterWith(searchutils.KNNCos, searchutils.KFNCos, dp.Vec)
		c.DataPoints = append(c.DataPoints, dp)
		cm.Centroids = append(cm.Centroids, c)
	}
	cm.MoveVector()
	hx.Install(s1, "a", cm)
	var list []string
	var nodes []*rpc.KMeansServer
	var centre [][]float64
	takers := 0
	for i := 0; i < candidates; i++ {
		addr := fmt.Sprint("n", 2+i)
		list = append(list, addr)
		kind := sym.Pick("kind", lowest, 1)
		var v []float64
		s := candidate(w, addr, 3*kind, dirs[len(dirs)-1-i])
		if kind == 1 {
			takers++
			v = dirs[len(dirs)-1-i]
		}
		nodes, centre = append(nodes, s), append(centre, v)
	}
	before := w.Holds("a", append(nodes, s1)...)
	n := sym.Int("n", 0, points+1)
	var err error
	c := rpc.KMeansClient("n1", "a", &err)
	if accurate {
		c.DistributeDataPointsAccurate(list, n)
	} else {
		c.DistributeDataPointsFast(list, n)
	}
	sym.Assert(err == nil, "redistribution-is-answered")
	w.Kept(before, w.Holds("a", append(nodes, s1)...), "redistributed")
	moved := 0
	for i, s := range nodes {
		for id, x := range w.Holds("a", s) {
			if id >= points || x == 0 {
				continue
			}
			moved++
			sym.Observe("at", i)
			sym.Assert(centre[i] != nil, "moved-to-a-node-having-the-namespace")
			if accurate && points > 1 {
				continue
			}
			for _, o := range centre {
				if o != nil {
					sym.Assert(cosine(w.Pts[id].Vec, centre[i]) >= cosine(w.Pts[id].Vec, o)-1e-9, "moved-to-the-best-fit")
				}
			}
		}
	}
	sym.Assert(sym.Or(takers == 0, sym.Or(moved == n, moved == points)), "as-many-as-asked-for-move")
	sym.Assert(sym.Implies(moved > n, false), "at-most-n-moved")
	if moved > 1 || points == 1 && moved == 1 {
		sym.Reach("moved")
	}
}

// Placement: redistribution, fast or accurate, of any number n of 0..3 of 2 points (2-component vectors out of 4 (5)) to 2
// candidates that are absent or hold a point each; every order of answers.
//
//sym:prop=C10 preempt=0 maporder=0 reach=moved
func Placement() { place(2, 2, sym.Pick("accurate", 0, 1) == 1, 0, false) }

// PlacementMany: redistribution, fast or accurate, of 1 (2) points to 5 candidates that are absent or hold a point each;
// answers arriving in order.
//
//sym:prop=C10 preempt=0 maporder=0 order=0 reach=moved
func PlacementMany() { place(5, hx.Bound(1, 2), sym.Pick("accurate", 0, 1) == 1, 0, false) }

// PlacementAny: redistribution, fast or accurate, of 1 point with an arbitrary vector (1, y) to 2 candidates that hold a point
// each; answers arriving in order.
//
//sym:prop=C10 preempt=0 maporder=0 order=0 reach=moved
func PlacementAny() { place(2, 1, sym.Pick("accurate", 0, 1) == 1, 1, true) }
