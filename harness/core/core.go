// Package core checks how the network of nodes is used by its clients: ranking nodes, cross-node puts and gets.
package core

import (
	netrpc "net/rpc"
	"trypo/core/dps"
	"trypo/core/nodes"
	"trypo/pkg/kmeans/rpc"
	"trypo/zzverif/hx"
	"trypo/zzverif/sym"
)

var addrs = []nodes.Addr{{IP: "n", Port: "1"}, {IP: "n", Port: "2"}, {IP: "n", Port: "3"}, {IP: "n", Port: "4"}, {IP: "n", Port: "5"}}

// What a candidate node is like.
const (
	absent  = iota // not reachable
	without        // lacks the namespace
	hollow         // has the namespace without clusters, its centre anywhere
	other          // its points have 2 components
	holding        // has clusters
	nKinds
)

type net struct {
	w      *hx.World
	kind   []int
	node   []*rpc.KMeansServer
	broken map[string]bool // nodes for which a connection or request failed
	api    bool            // through the JSON API, which ranks nodes by cosine similarity
}

// faults makes any of the first max connections and requests fail.
func (x *net) faults(max int) {
	x.broken = map[string]bool{}
	n := 0
	netrpc.Fault = func(addr, method string, phase int) bool {
		if phase == netrpc.Replying || n >= max {
			return false
		}
		n++
		if sym.Bool("fault") {
			x.broken[addr] = true
			return true
		}
		return false
	}
}

func (x *net) calm() { netrpc.Fault = func(string, string, int) bool { return false } }

// from lets every node be of any kind from lowest on.
func from(lowest int) func(int) int {
	return func(int) int { return sym.Pick("kind", lowest, nKinds-1) }
}

// only makes one node, any, hold something, and all others of one kind, any that is of no use.
func only(n int) func(int) int {
	able, rest := -1, 0
	return func(i int) int {
		if i == 0 {
			able, rest = sym.Pick("able", 0, n-1), []int{absent, other}[sym.Pick("rest", 0, 1)]
		}
		if i == able {
			return holding
		}
		return rest
	}
}

// build sets up one node per address; fill makes the content of the holding ones.
func build(w *hx.World, n int, kind func(i int) int, fill func() *hx.CentroidManager) *net {
	x := &net{w: w, broken: map[string]bool{}}
	for i := 0; i < n; i++ {
		a := addrs[i].ToStr()
		k := kind(i)
		s := hx.Node(a, 0)
		switch k {
		case absent:
			delete(netrpc.Nodes, a)
		case hollow:
			cm := hx.Factory(hx.KNN, hx.KFN, 0)(hx.Vec("h", w.Dim))
			hx.Install(s, "a", cm)
		case other:
			hx.Install(s, "a", hx.NewCM([]*hx.Centroid{hx.Cluster([]hx.DataPoint{w.Register(hx.DataPoint{Vec: []float64{1, 1}})}, 2)}, 2, 0))
		case holding:
			hx.Install(s, "a", fill())
		}
		x.kind = append(x.kind, k)
		x.node = append(x.node, s)
	}
	return x
}

// d compares 1-component vectors.
func (x *net) d(a, b []float64) float64 {
	if !x.api {
		return hx.D(a, b)
	}
	switch p := a[0] * b[0]; {
	case p == 0:
		return 0
	case p > 0:
		return -1
	}
	return 1
}

// score is how far the centre node i reports is from v; it reports one only if ok.
func (x *net) score(i int, v []float64, accurate bool) (d float64, ok bool) {
	cm := hx.Space(x.node[i], "a")
	switch x.kind[i] {
	case hollow:
		return x.d(cm.Vec(), v), !accurate
	case holding:
		if !accurate {
			return x.d(cm.Vec(), v), true
		}
		for _, c := range cm.Centroids {
			e := x.d(c.Vec(), v)
			if !ok || e < d {
				d, ok = e, true
			}
		}
		return d, ok
	}
	return 0, false
}

func index(a nodes.Addr) int {
	for i, b := range addrs {
		if a == b {
			return i
		}
	}
	sym.Assert(false, "unknown-node-listed")
	return -1
}

func rank(accurate bool, n int, kind func(i int) int, clusters, maxFaults int) {
	prelude()
	w := hx.NewWorld(1)
	x := build(w, n, kind, func() *hx.CentroidManager {
		var cs []*hx.Centroid
		for i, k := 0, sym.Pick("clusters", 1, clusters); i < k; i++ {
			cs = append(cs, hx.ClusterAt(hx.Vec("c", 1), nil))
		}
		return hx.NewCM(cs, 1, 0)
	})
	before := make([]*hx.Copy, n)
	for i, s := range x.node {
		before[i] = hx.Image(hx.Space(s, "a"))
	}
	v := hx.Vec("v", 1)
	args := nodes.BestFitNodesArgs{AddrOpts: append([]nodes.Addr{}, addrs[:n]...), Namespace: "a", Vec: v, KNNSearchFunc: hx.KNN}
	x.faults(maxFaults)
	var got []nodes.Addr
	if accurate {
		got = nodes.BestFitNodesAccurate(args)
	} else {
		got = nodes.BestFitNodesFast(args)
	}
	x.calm()
	listed := make([]bool, n)
	last := 0.0
	for k, a := range got {
		i := index(a)
		sym.Assert(!listed[i], "listed-once")
		listed[i] = true
		d, ok := x.score(i, v, accurate)
		sym.Assert(ok, "listed-node-has-a-comparable-centre")
		sym.Assert(k == 0 || last <= d, "best-first")
		last = d
		sym.Observe("listed", i)
	}
	for i := range listed {
		_, ok := x.score(i, v, accurate)
		sym.Assert(listed[i] == (ok && !x.broken[addrs[i].ToStr()]), "usable-nodes-listed")
		before[i].Same(hx.Space(x.node[i], "a"), "ranking-changes-nothing")
	}
	if len(got) > 1 {
		sym.Reach("several")
	}
}

// Rank: ranking of 2 nodes, each unreachable, without the namespace, with a namespace without clusters, with one of
// another vector length, or with 1..2 clusters at arbitrary 1-component centres, for any vector, by the centres of the
// nodes or by their nearest clusters; any of the first 3 (4) connections and requests may fail; every order of answers.
//
//sym:prop=C18 preempt=0 reach=several
func Rank() { rank(sym.Pick("accurate", 0, 1) == 1, 2, from(absent), 2, hx.Bound(3, 4)) }

// RankThree: ranking of 3 nodes, each with one of another vector length, or with 1 cluster at
// an arbitrary 1-component centre, for any vector, as Rank; no failing connections.
//
//sym:prop=C18 preempt=0 reach=several
func RankThree() { rank(sym.Pick("accurate", 0, 1) == 1, 3, from(other), 1, 0) }

// RankThreeFaults: ranking of 3 nodes with 1 cluster each, any of the first 3 connections and requests may fail.
//
//sym:prop=C18 preempt=0 reach=several tiers=thorough
func RankThreeFaults() { rank(sym.Pick("accurate", 0, 1) == 1, 3, from(holding), 1, 3) }

func oneCluster(w *hx.World, lo, hi int) func() *hx.CentroidManager {
	return func() *hx.CentroidManager {
		var pts []hx.DataPoint
		for i, k := 0, sym.Pick("points", lo, hi); i < k; i++ {
			pts = append(pts, w.New("p", false))
		}
		if len(pts) == 0 {
			return hx.NewCM([]*hx.Centroid{hx.ClusterAt(hx.Vec("c", w.Dim), nil)}, w.Dim, 0)
		}
		return hx.NewCM([]*hx.Centroid{hx.Cluster(pts, w.Dim)}, w.Dim, 0)
	}
}

func put(n int, kind func(i int) int, maxFaults int, api bool) {
	prelude()
	w := hx.NewWorld(1)
	x := build(w, n, kind, oneCluster(w, 0, 1))
	x.api = api
	dp := w.New("new", true)
	id := hx.ID(dp)
	before := w.Holds("a", x.node...)
	least := 0
	if api {
		least = 1
	}
	mode := sym.Pick("mode", least, 2)
	dist := make([]float64, n)
	cand := make([]bool, n) // is considered and would accept
	fits := make([]bool, n) // is considered by similarity and would accept
	for i, k := range x.kind {
		if mode > 0 {
			dist[i], fits[i] = x.score(i, dp.Vec, mode == 2)
		}
		cand[i] = fits[i]
		if mode == 0 || api {
			cand[i] = k == without || k == hollow || k == holding
		}
	}
	args := dps.PutDataPointArgs{AddrOptions: append([]dps.Addr{}, addrs[:n]...), Namespace: "a", DataPoint: dp, KNNSearchFunc: hx.KNN}
	x.faults(maxFaults)
	ok := false
	switch {
	case api:
		ok = apiPut(n, "a", dp, mode == 2)
	case mode == 0:
		ok = dps.PutDataPointRand(args)
	case mode == 1:
		ok = dps.PutDataPointFast(args)
	case mode == 2:
		ok = dps.PutDataPointAccurate(args)
	}
	x.calm()
	after := w.Holds("a", x.node...)
	sym.Assert(sym.Implies(ok, after[id] == 1), "success-means-stored-once")
	sym.Assert(sym.Implies(!ok, after[id] == 0), "failure-means-not-stored")
	before[id] = after[id]
	w.Kept(before, after, "others")
	if ok {
		sym.Assert(!w.Expired(id), "expired-refused")
		sym.Reach("stored")
		at := -1
		for i, s := range x.node {
			if w.Holds("a", s)[id] == 1 {
				at = i
			}
		}
		sym.Assert(cand[at], "stored-on-a-candidate")
		if mode > 0 {
			for i := range cand {
				if fits[i] && !x.broken[addrs[i].ToStr()] {
					sym.Assert(fits[at] && dist[at] <= dist[i], "stored-on-the-best-fit")
				}
			}
		}
		sym.Observe("at", at)
	} else {
		for i := range cand {
			sym.Assert(!cand[i] || w.Expired(id) || x.broken[addrs[i].ToStr()], "fails-only-if-no-candidate-can-take-it")
		}
		sym.Reach("failed")
	}
	sym.Observe("ok", ok)
}

// Put: a put of a point with an arbitrary 1-component vector and expiry, random, fast or accurate, over 2 (3) candidate
// nodes that are unreachable, without the namespace, with a namespace without clusters, with one of another vector length,
// or with a cluster of 0..1 points; no failing connections besides; every random order and order of answers.
//
//sym:prop=C19,C01 preempt=0 reach=stored,failed
func Put() { put(hx.Bound(2, 3), from(absent), 0, false) }

// PutFaults: as Put with 2 nodes, where any of the first 4 (8) connections and requests may fail.
//
//sym:prop=C19 preempt=0 reach=stored,failed
func PutFaults() { put(2, from(absent), hx.Bound(4, 8), false) }

func get(n int, kind func(i int) int, total, maxFaults int, api, spread bool) {
	prelude()
	w := hx.NewWorld(1)
	left := total
	x := build(w, n, kind, func() *hx.CentroidManager {
		cm := hx.NewCM([]*hx.Centroid{hx.Cluster([]hx.DataPoint{w.Register(hx.DataPoint{Vec: []float64{float64(left * left)}})}, 1)}, 1, 0)
		if !spread {
			cm = oneCluster(w, 0, min(2, left))()
		}
		left -= cm.LenDP()
		return cm
	})
	x.api = api
	before := make([][]int, n)
	for i, s := range x.node {
		before[i] = w.Holds("a", s)
	}
	q := hx.Vec("q", 1)
	first := 0
	if api {
		first = 1
	}
	mode := sym.Pick("mode", first, 2)
	dist := make([]float64, n)
	for i := range dist {
		dist[i], _ = x.score(i, q, mode == 2)
	}
	drain := sym.Bool("drain")
	want := sym.Int("n", -1, total+1)
	args := dps.GetDataPointsArgs{AddrOptions: append([]dps.Addr{}, addrs[:n]...), Namespace: "a", QueryVec: q, N: want, Drain: drain, KNNSearchFunc: hx.KNN}
	x.faults(maxFaults)
	var got []hx.DataPoint
	switch {
	case api:
		got = apiQuery(n, "a", q, want, drain, mode == 2)
	case mode == 0:
		got = dps.GetDataPointsRand(args)
	case mode == 1:
		got = dps.GetDataPointsFast(args)
	case mode == 2:
		got = dps.GetDataPointsAccurate(args)
	}
	x.calm()
	times := make([]int, len(w.Pts))
	w.Count(times, got, "result")
	sym.Assert(sym.Or(len(got) == 0, len(got) <= want), "at-most-n")
	available := 0
	taken := make([]int, n)
	held := make([]int, n)
	for i, s := range x.node {
		now := w.Holds("a", s)
		for j, b := range before[i] {
			if b == 0 {
				sym.Assert(now[j] == 0, "nothing-moved")
				continue
			}
			sym.Assert(times[j] <= 1, "each-point-once")
			sym.Assert(sym.Implies(drain, now[j] == 1-times[j]), "drained-exactly-when-returned")
			sym.Assert(sym.Implies(!drain, now[j] == 1), "nothing-removed-without-drain")
			taken[i] += times[j]
			held[i]++
		}
		if x.kind[i] == holding && !x.broken[addrs[i].ToStr()] {
			available += held[i]
		}
	}
	sym.Assert(sym.Or(len(got) >= want, len(got) >= available), "gathers-up-to-n")
	if len(got) > 1 {
		sym.Reach("several")
	}
	if mode > 0 {
		for i := range taken {
			for j := range taken {
				// a node is used only when every strictly better one has been exhausted
				if taken[j] > 0 && x.kind[i] == holding && !x.broken[addrs[i].ToStr()] && taken[i] < held[i] {
					sym.Assert(sym.Or(i == j, dist[j] <= dist[i]), "best-node-first")
				}
			}
		}
		// the result lists the nodes best first
		last := -1
		for _, dp := range got {
			at := -1
			for i := range before {
				if before[i][hx.ID(dp)] > 0 {
					at = i
				}
			}
			sym.Assert(last < 0 || last == at || dist[last] <= dist[at], "result-in-node-order")
			last = at
			sym.Observe("from", at)
		}
	}
	sym.Observe("got", len(got))
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// Get: a query for any number of -1..4 points, draining or not, random, fast or accurate, with an arbitrary 1-component
// vector, over 2 (3) candidate nodes that are unreachable, without the namespace, with a namespace without clusters, with
// one of another vector length, or with a cluster of 0..2 points, 3 altogether; no failing connections besides; every random order
// and order of answers.
//
//sym:prop=C19 preempt=0 reach=several
func Get() { get(hx.Bound(2, 3), from(absent), 3, 0, false, false) }

// GetFaults: as Get with 2 nodes that hold 0..2 points, 2 (3) altogether, where any of the first 3 (5)
// connections and requests may fail.
//
//sym:prop=C19 preempt=0 reach=several
func GetFaults() { get(2, from(holding), hx.Bound(2, 3), hx.Bound(3, 5), false, false) }

// RankMany: ranking of 4 (5) nodes with 1 cluster each at an arbitrary 1-component centre, for any vector; answers in order.
//
//sym:prop=C18 preempt=0 order=0 reach=several
func RankMany() { rank(sym.Pick("accurate", 0, 1) == 1, hx.Bound(4, 5), from(holding), 1, 0) }

// PutMany: as Put over 4 (5) nodes, of which any one holds a cluster of one point and the others are unreachable or have a
// namespace of another vector length; answers in order.
//
//sym:prop=C19 preempt=0 order=0 reach=stored
func PutMany() { put(hx.Bound(4, 5), only(hx.Bound(4, 5)), 0, false) }

// GetMany: as Get with any number of -1..5 (6) points over 4 (5) nodes that hold 1 point each, at 1, 4, 9 and so on, draining or not; answers in order.
//
//sym:prop=C19 preempt=0 order=0 reach=several
func GetMany() { get(hx.Bound(4, 5), from(holding), hx.Bound(4, 5), 0, false, true) }

// GetLarge: a query for any number of points, draining or not, random, fast or accurate, over 3 nodes holding 30, 1 and 50 (90)
// points in 2 clusters each; answers in order.
//
//sym:prop=C19 preempt=0 order=0 reach=several
func GetLarge() {
	w := hx.NewWorld(1)
	sizes := []int{30, 1, hx.Bound(50, 90)}
	var nodes []*rpc.KMeansServer
	total := 0
	for i, k := range sizes {
		var cs [2][]hx.DataPoint
		for j := 0; j < k; j++ {
			cs[j%2] = append(cs[j%2], w.Register(hx.DataPoint{Vec: []float64{float64(100*(i+1) + j%2)}}))
		}
		s := hx.Node(addrs[i].ToStr(), 0)
		far := hx.ClusterAt([]float64{1000}, cs[1])
		hx.Install(s, "a", hx.NewCM([]*hx.Centroid{hx.Cluster(cs[0], 1), far}, 1, 0))
		nodes = append(nodes, s)
		total += k
	}
	n, drain := sym.Int("n", -1<<63, 1<<63-1), sym.Bool("drain")
	args := dps.GetDataPointsArgs{AddrOptions: append([]dps.Addr{}, addrs[:3]...), Namespace: "a", QueryVec: []float64{300}, N: n, Drain: drain, KNNSearchFunc: hx.KNN}
	var got []hx.DataPoint
	mode := sym.Pick("mode", 0, 2)
	switch mode {
	case 0:
		got = dps.GetDataPointsRand(args)
	case 1:
		got = dps.GetDataPointsFast(args)
	case 2:
		got = dps.GetDataPointsAccurate(args)
	}
	sym.Assert(sym.Implies(n <= 0, len(got) == 0), "at-most-n")
	sym.Assert(sym.Implies(n > 0, sym.Or(len(got) == n, sym.And(n > total, len(got) == total))), "as-many-as-asked-for")
	times := make([]int, len(w.Pts))
	w.Count(times, got, "result")
	left := w.Holds("a", nodes...)
	for i, k := range times {
		sym.Assert(k <= 1, "each-point-once")
		sym.Assert(left[i] == sym.IteInt(drain, 1-k, 1), "removed-exactly-when-returned")
	}
	if mode == 2 {
		// node 3 has the nearest cluster, then node 2, then node 1
		taken := []int{0, 0, 0}
		id := 0
		for i, k := range sizes {
			for j := 0; j < k; j++ {
				taken[i] += times[id]
				id++
			}
		}
		sym.Assert(sym.And(sym.Implies(taken[1] > 0, taken[2] == sizes[2]), sym.Implies(taken[0] > 0, taken[1] == sizes[1])), "best-node-first")
	}
	if len(got) > sizes[2]+1 {
		sym.Reach("several")
	}
}
