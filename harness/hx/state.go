package hx

import (
	"math"
	"time"
	"trypo/pkg/kmeans/centroidmanager"
	"trypo/zzverif/sym"
)

type CentroidManager = centroidmanager.CentroidManager

func Bound(quick, thorough int) int {
	if sym.Thorough() {
		return thorough
	}
	return quick
}

// World remembers every point that was ever created, by identity.
type World struct {
	Pts []DataPoint
	Now time.Time // the fixed clock
	Dim int
	Dom [][]float64 // when set, vectors are chosen from it instead of being arbitrary
}

func NewWorld(dim int) *World { return &World{Now: time.Unix(1000, 500000000), Dim: dim} }

// New makes a point; its expiry is arbitrary if exp.
func (w *World) New(name string, exp bool) DataPoint {
	var v []float64
	if w.Dom != nil {
		v = append([]float64{}, w.Dom[sym.Pick(name+".v", 0, len(w.Dom)-1)]...)
	} else {
		v = Vec(name, w.Dim)
	}
	dp := DataPoint{Vec: v, Payload: payload(len(w.Pts))}
	if exp {
		return w.record(Expiring(name, dp))
	}
	return w.Register(dp)
}

// Register records dp and gives it its identity. A point without an expiry gets one of several settings that don't expire.
func (w *World) Register(dp DataPoint) DataPoint {
	if !dp.ExpireEnabled {
		switch len(w.Pts) % 3 {
		case 1:
			dp.ExpireEnabled, dp.Expires = true, time.Unix(4000000000, 123456789)
		case 2:
			dp.Expires = time.Unix(900, 987654321)
		}
	}
	return w.record(dp)
}

func (w *World) record(dp DataPoint) DataPoint {
	dp.Payload = payload(len(w.Pts))
	keep := dp
	keep.Vec = append([]float64{}, dp.Vec...)
	keep.Payload = append([]byte{}, dp.Payload...)
	w.Pts = append(w.Pts, keep)
	return dp
}

// Expired states that point i has expired at the fixed clock.
func (w *World) Expired(i int) bool {
	return sym.And(w.Pts[i].ExpireEnabled, w.Now.After(w.Pts[i].Expires))
}

// Genuine asserts that dp is one of the recorded points, unmodified, and returns its identity.
func (w *World) Genuine(dp DataPoint, what string) int {
	id := ID(dp)
	sym.Assert(id >= 0 && id < len(w.Pts), what+"-genuine")
	o := w.Pts[id]
	sym.Assert(VecSame(dp.Vec, o.Vec), what+"-vector-unmodified")
	sym.Assert(sym.And(dp.ExpireEnabled == o.ExpireEnabled, dp.Expires.Equal(o.Expires)), what+"-expiry-unmodified")
	return id
}

// Count adds the identities of dps to n.
func (w *World) Count(n []int, dps []DataPoint, what string) {
	for _, dp := range dps {
		n[w.Genuine(dp, what)]++
	}
}

// Contents counts how often each point is stored in cm.
func (w *World) Contents(cm *CentroidManager) []int {
	n := make([]int, len(w.Pts))
	for _, c := range cm.Centroids {
		w.Count(n, c.DataPoints, "stored")
	}
	return n
}

// Kept asserts that every unexpired point counted in before is counted as often in after, and none more often.
func (w *World) Kept(before, after []int, what string) {
	for i := range w.Pts {
		b := 0
		if i < len(before) {
			b = before[i]
		}
		sym.Assert(after[i] <= b, what+"-not-duplicated")
		if after[i] < b {
			sym.Assert(w.Expired(i), what+"-not-lost")
		}
	}
}

// NewCM is a namespace holding the given clusters, with its centre at the mean of theirs.
func NewCM(cs []*Centroid, dim, threshold int) *CentroidManager {
	v := make([]float64, dim)
	for i := range v {
		s := 0.0
		for _, c := range cs {
			s += c.Vec()[i]
		}
		if len(cs) > 0 {
			v[i] = s / float64(len(cs))
		}
	}
	cm, ok := centroidmanager.NewCentroidManager(centroidmanager.NewCentroidManagerArgs{
		InitVec: v, InitCap: 1, CentroidDPThreshold: threshold, KNNSearchFunc: KNN, KFNSearchFunc: KFN})
	sym.Assert(ok, "new-centroid-manager")
	cm.Centroids = append(make([]*Centroid, 0, len(cs)), cs...)
	return &cm
}

// Shape describes the namespaces State builds.
type Shape struct {
	MinC, MaxC int  // clusters
	MinP, MaxP int  // points per cluster
	Total      int  // points altogether, 0: no limit
	Exp        bool // arbitrary expiries
	Threshold  int
	Centre     bool // an emptied cluster has an arbitrary centre, otherwise zero
}

// State is an arbitrary valid namespace of the given shape: any number of clusters and points, arbitrary vectors and
// expiries, every cluster's centre at the mean of its points (an empty cluster's anywhere), the namespace's centre at
// the mean of the clusters' centres.
func (w *World) State(s Shape) *CentroidManager {
	n := sym.Pick("clusters", s.MinC, s.MaxC)
	var cs []*Centroid
	total := 0
	for i := 0; i < n; i++ {
		hi := s.MaxP
		if s.Total > 0 && s.Total-total < hi {
			hi = s.Total - total
		}
		m := 0
		if hi >= s.MinP {
			m = sym.Pick("points", s.MinP, hi)
		}
		total += m
		var dps []DataPoint
		for j := 0; j < m; j++ {
			dps = append(dps, w.New("p", s.Exp))
		}
		if m == 0 && w.Dom == nil {
			cs = append(cs, ClusterAt(Vec("c", w.Dim), nil))
		} else {
			cs = append(cs, Cluster(dps, w.Dim))
		}
	}
	return NewCM(cs, w.Dim, s.Threshold)
}

// CentreOK asserts that the namespace's centre is the mean of the centres of its clusters.
func CentreOK(cm *CentroidManager, what string) {
	for _, x := range cm.Vec() {
		sym.Assert(sym.IsFinite(x), what+"-finite")
	}
	if len(cm.Centroids) == 0 {
		return
	}
	dim := len(cm.Centroids[0].Vec())
	sym.Assert(len(cm.Vec()) == dim, what)
	for i := 0; i < dim; i++ {
		s := 0.0
		for _, c := range cm.Centroids {
			s += c.Vec()[i]
		}
		sym.Assert(sym.Near(cm.Vec()[i], s/float64(len(cm.Centroids))), what)
	}
	sym.Reach("centre")
}

// ClusterCentresOK asserts that each cluster's centre is the mean of its points.
func ClusterCentresOK(cm *CentroidManager, what string) {
	for _, c := range cm.Centroids {
		if len(c.DataPoints) > 0 {
			sym.Assert(VecNear(c.Vec(), Mean(c.DataPoints)), what)
		}
	}
}

// D is the distance the searches use.
func D(a, b []float64) float64 { return math.Abs(a[0] - b[0]) }

// All lists the points of cm.
func All(cm *CentroidManager) []DataPoint {
	var r []DataPoint
	for _, c := range cm.Centroids {
		r = append(r, c.DataPoints...)
	}
	return r
}

// ObserveCM records the shape of cm.
func ObserveCM(cm *CentroidManager) {
	sym.Observe("clusters", len(cm.Centroids))
	for _, c := range cm.Centroids {
		sym.Observe("points", len(c.DataPoints))
		for _, dp := range c.DataPoints {
			sym.Observe("id", ID(dp))
		}
	}
	for _, x := range cm.Vec() {
		sym.Observe("v", x)
	}
}

// RunningClock makes the clock advance arbitrarily, from second lo up to second hi, at every reading. The function it
// returns yields the first and the last instant shown so far.
func RunningClock(lo, hi int) func() (start, end time.Time) {
	cur := Instant("start", lo, hi)
	start := cur
	time.NowFunc = func() time.Time {
		next := Instant("now", lo, hi)
		sym.Assume(!next.Before(cur))
		cur = next
		return cur
	}
	return func() (time.Time, time.Time) { return start, cur }
}

// ExpiredAt states that point i has expired at the given instant.
func (w *World) ExpiredAt(i int, now time.Time) bool {
	return sym.And(w.Pts[i].ExpireEnabled, now.After(w.Pts[i].Expires))
}
