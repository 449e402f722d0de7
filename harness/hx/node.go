package hx

import (
	netrpc "net/rpc"
	"sort"
	"time"
	"trypo/pkg/kmeans/centroidmanager"
	"trypo/pkg/kmeans/rpc"
	"trypo/zzverif/sym"
)

type Search = func([]float64, func() ([]float64, bool), int) []int

// Factory makes the namespaces of a node.
func Factory(knn, kfn Search, threshold int) func([]float64) *CentroidManager {
	return func(vec []float64) *CentroidManager {
		cm, ok := centroidmanager.NewCentroidManager(centroidmanager.NewCentroidManagerArgs{
			InitVec: vec, InitCap: 1, CentroidDPThreshold: threshold, KNNSearchFunc: knn, KFNSearchFunc: kfn})
		sym.Assert(ok, "new-centroid-manager")
		return &cm
	}
}

// Node is a server comparing vectors by the distance of their first components, reachable at addr.
func Node(addr string, threshold int) *rpc.KMeansServer {
	return NodeWith(addr, KNN, KFN, threshold)
}

func NodeWith(addr string, knn, kfn Search, threshold int) *rpc.KMeansServer {
	s := rpc.NewKMeansServer(addr, Factory(knn, kfn, threshold))
	netrpc.Nodes[addr] = s
	return s
}

// Install makes cm the namespace ns of s.
func Install(s *rpc.KMeansServer, ns string, cm *CentroidManager) {
	now := time.NowFunc
	time.NowFunc = func() time.Time { return time.Unix(0, 0) }
	ok := false
	sym.Assert(s.AddDataPoint(rpc.AddDataPointArgs{NameSpace: ns, DP: DataPoint{Vec: []float64{1}}}, &ok) == nil, "install")
	sym.Assert(s.Table.Access(ns, func(c *CentroidManager) { *c = *cm }), "install")
	time.NowFunc = now
}

// Space is the namespace ns of s, nil when there is none.
func Space(s *rpc.KMeansServer, ns string) *CentroidManager {
	var r *CentroidManager
	s.Table.Access(ns, func(c *CentroidManager) { r = c })
	return r
}

// Spaces lists the namespaces of s in order.
func Spaces(s *rpc.KMeansServer) []string {
	r := append([]string{}, s.Table.Namespaces()...)
	sort.Strings(r)
	return r
}

// Holds counts how often each point is stored in namespace ns, over the given nodes.
func (w *World) Holds(ns string, nodes ...*rpc.KMeansServer) []int {
	n := make([]int, len(w.Pts))
	for _, s := range nodes {
		if cm := Space(s, ns); cm != nil {
			w.Count(n, All(cm), "stored")
		}
	}
	return n
}

// Copy is a frozen image of a namespace.
type Copy struct {
	Vec  []float64
	Vecs [][]float64
	Pts  [][]DataPoint
}

func Image(cm *CentroidManager) *Copy {
	if cm == nil {
		return nil
	}
	r := &Copy{Vec: append([]float64{}, cm.Vec()...)}
	for _, c := range cm.Centroids {
		r.Vecs = append(r.Vecs, append([]float64{}, c.Vec()...))
		ps := append([]DataPoint{}, c.DataPoints...)
		for i := range ps {
			ps[i].Vec = append([]float64{}, ps[i].Vec...)
			ps[i].Payload = append([]byte{}, ps[i].Payload...)
		}
		r.Pts = append(r.Pts, ps)
	}
	return r
}

// Same asserts that nothing changed.
func (c *Copy) Same(cm *CentroidManager, what string) {
	if c == nil {
		sym.Assert(cm == nil, what)
		return
	}
	sym.Assert(cm != nil, what)
	sym.Assert(VecSame(c.Vec, cm.Vec()), what)
	sym.Assert(len(c.Vecs) == len(cm.Centroids), what)
	for i, k := range cm.Centroids {
		sym.Assert(VecSame(c.Vecs[i], k.Vec()), what)
		sym.Assert(len(c.Pts[i]) == len(k.DataPoints), what)
		for j, dp := range k.DataPoints {
			o := c.Pts[i][j]
			sym.Assert(ID(dp) == ID(o), what)
			sym.Assert(sym.And(VecSame(dp.Vec, o.Vec), sym.And(dp.ExpireEnabled == o.ExpireEnabled, dp.Expires.Equal(o.Expires))), what)
		}
	}
}

func SameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func Has(a []string, s string) bool {
	for _, x := range a {
		if x == s {
			return true
		}
	}
	return false
}

// Fixed gives the clock and the world's clock the same instant.
func (w *World) Fixed() *World {
	SetNow(w.Now)
	return w
}
