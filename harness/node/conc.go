package node

import (
	"sort"
	"sync"
	"trypo/pkg/kmeans/rpc"
	"trypo/zzverif/hx"
	"trypo/zzverif/sym"
)

// outcome is everything observable: the replies and the stored points.
type outcome []float64

func (o *outcome) add(x ...float64) { *o = append(*o, x...) }

func (o *outcome) ids(dps []hx.DataPoint, ordered bool) {
	var r []int
	for _, dp := range dps {
		r = append(r, hx.ID(dp))
	}
	if !ordered {
		sort.Ints(r)
	}
	o.add(float64(len(r)))
	for _, id := range r {
		o.add(float64(id))
	}
}

func flag(b bool) float64 {
	if b {
		return 1
	}
	return 0
}

func pt(id int, v float64) hx.DataPoint {
	return hx.DataPoint{Vec: []float64{v}, Payload: []byte{byte(id)}}
}

// values are the arbitrary vectors of the requests.
type values struct {
	put []float64 // by sender
	q   float64
}

// anyValues makes the vectors the requests need: all arbitrary for two requests, only the first put's for three.
func anyValues(ops []int) *values {
	v := &values{q: 1}
	asked := false
	for i, op := range ops {
		x := float64(3 * i)
		if op == 0 && (i == 0 || len(ops) < 3) {
			x = sym.Float("put", -20, 20)
		}
		v.put = append(v.put, x)
		switch op {
		case 1, 3, 4, 9, 18:
			if len(ops) < 3 && !asked {
				asked = true
				v.q = sym.Float("q", -20, 20)
			}
		}
	}
	return v
}

// serve sends request op on namespace "a" of node n1; who distinguishes the senders.
func (v *values) serve(op, who int) outcome {
	var o outcome
	var err error
	c := rpc.KMeansClient(addr, "a", &err)
	switch op {
	case 0:
		o.add(flag(c.AddDataPoint(pt(10+who, v.put[who]))))
	case 1:
		o.ids(c.KNNLookup([]float64{v.q}, 2, true), true)
	case 2:
		o.ids(c.DrainUnordered(2), false)
	case 3:
		cs, _ := c.NearestCentroids([]float64{v.q}, 1, true)
		for _, k := range cs {
			o.ids(k.DataPoints, false)
		}
	case 4:
		cs, _ := c.NearestCentroids([]float64{v.q}, 2, false)
		for _, k := range cs {
			o.ids(k.DataPoints, false)
		}
	case 5:
		n, ok := c.StealCentroids("n2", 1)
		o.add(float64(n), flag(ok))
	case 6:
		c.MergeCentroids(-1, 99)
	case 7:
		o.add(float64(c.LenDP()))
	case 8:
		m := c.Meta()
		n, ok := m.DPs["a"]
		o.add(float64(n), flag(ok), float64(m.Centroids["a"]))
	case 9:
		o.ids(c.KNNLookup([]float64{v.q}, 3, false), true)
	case 10:
		o.ids(c.DrainOrdered(1), false)
	case 11:
		c.SplitCentroids(1, 99)
	case 12:
		c.MemTrim()
	case 13:
		c.DistributeDataPointsInternal(1)
	case 14:
		ns := c.Namespaces()
		o.add(float64(len(ns)))
	case 15:
		c.Expire()
	case 16:
		o.add(flag(c.MoveVector()))
	case 17:
		o.add(c.Vec()...)
	case 18:
		o.add(c.NearestCentroidVec([]float64{v.q})...)
	}
	o.add(flag(err != nil))
	return o
}

const nServe = 19

// node makes the node and its neighbour: namespace "a" unused, or of 1..2 clusters.
func fresh(shape int) *rpc.KMeansServer {
	s := hx.Node(addr, 3)
	w := hx.NewWorld(1)
	var cs []*hx.Centroid
	if shape > 0 {
		cs = append(cs, hx.Cluster([]hx.DataPoint{pt(0, 0), pt(1, 2)}, 1))
	}
	if shape > 1 {
		cs = append(cs, hx.Cluster([]hx.DataPoint{pt(2, 7)}, 1))
	}
	if shape > 0 {
		hx.Install(s, "a", hx.NewCM(cs, 1, 3))
	}
	_ = w
	n2 := hx.Node("n2", 0)
	hx.Install(n2, "a", hx.NewCM([]*hx.Centroid{hx.Cluster([]hx.DataPoint{pt(5, 4)}, 1)}, 1, 0))
	return s
}

func stored(s *rpc.KMeansServer) outcome {
	var o outcome
	cm := hx.Space(s, "a")
	o.add(flag(cm != nil))
	if cm != nil {
		o.ids(hx.All(cm), false)
	}
	return o
}

func concurrently(ops []int, shape int) {
	if shape == 0 {
		// A take-over creates an unused namespace before it takes anything; only requests that do not observe the
		// difference are compared with it.
		steal, other := false, false
		for _, op := range ops {
			steal = steal || op == 5
			other = other || op != 0 && op != 5
		}
		if steal && other {
			return
		}
	}
	v := anyValues(ops)
	s := fresh(shape)
	got := make([]outcome, len(ops))
	var wg sync.WaitGroup
	for i, op := range ops {
		wg.Add(1)
		go func(i, op int) {
			got[i] = v.serve(op, i)
			wg.Done()
		}(i, op)
	}
	wg.Wait()
	final := stored(s)
	for _, x := range final {
		sym.Observe("stored", x)
	}
	match := false
	permute(len(ops), func(order []int) {
		if match {
			return
		}
		s := fresh(shape)
		alike := true
		for _, i := range order {
			if alike {
				alike = hx.VecSame(v.serve(ops[i], i), got[i])
			}
		}
		match = alike && hx.VecSame(stored(s), final)
	})
	sym.Assert(match, "outcome-of-some-one-at-a-time-order")
}

func permute(n int, f func([]int)) {
	var rec func(pre []int)
	rec = func(pre []int) {
		if len(pre) == n {
			f(pre)
			return
		}
	next:
		for i := 0; i < n; i++ {
			for _, x := range pre {
				if x == i {
					continue next
				}
			}
			rec(append(append([]int{}, pre...), i))
		}
	}
	rec(nil)
}

// Pairs: any two of 18 requests sent to a node at the same time, over connections of their own, namespace unused or with 2
// (1..2) clusters of 1..2 points, the vectors of puts and queries arbitrary: every interleaving at locks, network calls and replies, every memory access checked for missing
// synchronisation.
//
//sym:prop=C12 race=1 por=1 maporder=0 timeout=300
func Pairs() {
	a := sym.Pick("a", 0, nServe-1)
	b := sym.Pick("b", a, nServe-1)
	if a == 5 || b == 5 {
		return
	}
	shape := 2 * sym.Pick("shape", 0, 1)
	if sym.Thorough() && shape == 2 {
		shape -= sym.Pick("fewer", 0, 1)
	}
	concurrently([]int{a, b}, shape)
}

// TakeOver: a take-over from another node together with any other request, another take-over included, interleaved with
// at most 2 preemptions, namespace unused or with 1 cluster of 2 points.
//
//sym:prop=C12 race=1 maporder=0 preempt=2 timeout=300
func TakeOver() {
	concurrently([]int{5, sym.Pick("b", 0, nServe-1)}, sym.Pick("shape", 0, 1))
}

// TakeOver3: as TakeOver, with at most 3 preemptions.
//
//sym:prop=C12 race=1 maporder=0 preempt=3 tiers=thorough timeout=600 maxpaths=2000000
func TakeOver3() { TakeOver() }

// Triples: three concurrent requests to a node, two of them puts or queries that remove, the third any of 5 (18), the first put's vector
// arbitrary, interleaved
// with at most 2 preemptions.
//
//sym:prop=C12 race=1 maporder=0 preempt=2 timeout=300
func Triples() {
	a := sym.Pick("a", 0, 1)
	b := sym.Pick("b", a, 1)
	c := sym.Pick("c", 0, hx.Bound(4, nServe-1)) // includes the draining of a cluster
	if c == 5 {
		return
	}
	concurrently([]int{a, b, c}, sym.Pick("shape", 0, 1))
}

// Triples3: as Triples, with at most 3 preemptions.
//
//sym:prop=C12 race=1 maporder=0 preempt=3 tiers=thorough timeout=700 maxpaths=3000000
func Triples3() { Triples() }

// TakeOverTriples: a put, a take-over and a put, removing query or take-over at the same time, with at most 1
// preemption, the first put's vector arbitrary.
//
//sym:prop=C12 race=1 maporder=0 preempt=1
func TakeOverTriples() {
	concurrently([]int{0, 5, []int{0, 1, 5}[sym.Pick("c", 0, 2)]}, sym.Pick("shape", 0, 1))
}
