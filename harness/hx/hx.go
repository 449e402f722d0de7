// Package hx holds what the harnesses share.
package hx

import (
	"math"
	"time"
	"trypo/pkg/kmeans/centroid"
	"trypo/pkg/kmeans/common"
	"trypo/pkg/searchutils"
	"trypo/zzverif/sym"
)

type DataPoint = common.DataPoint
type Centroid = centroid.Centroid

// Lim bounds the magnitude of symbolic coordinates.
const Lim = 100

// Vec is a vector of arbitrary components.
func Vec(name string, dim int) []float64 {
	v := make([]float64, dim)
	for i := range v {
		v[i] = sym.Float(name+string(rune('x'+i)), -Lim, Lim)
	}
	return v
}

// Point is an unexpiring data point with arbitrary components; id identifies it through its payload.
func Point(name string, dim int, id int) DataPoint {
	return DataPoint{Vec: Vec(name, dim), Payload: payload(id)}
}

// PointAt is an unexpiring data point with the given vector.
func PointAt(id int, v ...float64) DataPoint {
	return DataPoint{Vec: v, Payload: payload(id)}
}

// Expiring gives dp an arbitrary expiry setting.
func Expiring(name string, dp DataPoint) DataPoint {
	dp.ExpireEnabled = sym.Bool(name + ".ee")
	dp.Expires = Instant(name+".exp", -62135596800, 253402300799)
	return dp
}

// Instant is an arbitrary instant within the given seconds.
func Instant(name string, lo, hi int) time.Time {
	return time.Unix(int64(sym.Int(name, lo, hi)), int64(sym.Int(name+".ns", 0, 999999999)))
}

// Blank is the identity of the point without a payload, if there is one.
var Blank = -1

// payload is the payload of the point with the given identity; its length varies.
func payload(id int) []byte {
	switch {
	case id == Blank:
		return nil
	case id%2 == 0:
		return []byte{byte(id)}
	case id%8 != 7:
		return []byte{byte(id), 0, 0xff, byte(id)}
	}
	p := make([]byte, 70)
	p[0], p[1], p[69] = byte(id), '"', byte(id)
	return p
}

// ID is the identity of a data point, or -1.
func ID(dp DataPoint) int {
	if len(dp.Payload) == 0 {
		return Blank
	}
	if string(dp.Payload) != string(payload(int(dp.Payload[0]))) {
		return -1
	}
	return int(dp.Payload[0])
}

// Dist1 compares vectors of equal length by their first component.
func Dist1(a, b []float64) (float64, error) {
	if len(a) != len(b) {
		return 0, errLen{}
	}
	if len(a) == 0 {
		return 0, nil
	}
	return math.Abs(a[0] - b[0]), nil
}

type errLen struct{}

func (errLen) Error() string { return "length" }

func KNN(target []float64, vecs func() ([]float64, bool), k int) []int {
	return searchutils.KNNBrute(searchutils.KNNBruteArgs{TargetVec: target, VecPoolGenerator: vecs, K: k, Ascending: true, DistFunc: Dist1})
}

func KFN(target []float64, vecs func() ([]float64, bool), k int) []int {
	return searchutils.KNNBrute(searchutils.KNNBruteArgs{TargetVec: target, VecPoolGenerator: vecs, K: k, Ascending: false, DistFunc: Dist1})
}

// Mean is the component-wise mean of the vectors of dps.
func Mean(dps []DataPoint) []float64 {
	if len(dps) == 0 {
		return nil
	}
	m := make([]float64, len(dps[0].Vec))
	for i := range m {
		s := 0.0
		for _, dp := range dps {
			s += dp.Vec[i]
		}
		m[i] = s / float64(len(dps))
	}
	return m
}

// VecNear holds when two vectors are equal up to rounding.
func VecNear(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = sym.And(r, sym.Near(a[i], b[i]))
	}
	return r
}

// VecSame holds when two vectors have the same components.
func VecSame(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = sym.And(r, a[i] == b[i])
	}
	return r
}

// Cluster is a centroid holding dps with its centre at their mean.
func Cluster(dps []DataPoint, dim int) *Centroid {
	v := Mean(dps)
	if v == nil {
		v = make([]float64, dim)
	}
	return ClusterAt(v, dps)
}

// ClusterAt is a centroid holding dps with the given centre.
func ClusterAt(v []float64, dps []DataPoint) *Centroid {
	c, ok := centroid.NewCentroid(centroid.NewCentroidArgs{InitVec: v, InitCap: 1, KNNSearchFunc: KNN, KFNSearchFunc: KFN})
	sym.Assert(ok, "new-centroid")
	c.DataPoints = append(make([]DataPoint, 0, len(dps)), dps...)
	return &c
}

// SetNow fixes the clock.
func SetNow(now time.Time) {
	time.NowFunc = func() time.Time { return now }
}

// ClusterWith is an empty centroid with the given searches.
func ClusterWith(knn, kfn Search, v []float64) *Centroid {
	c, ok := centroid.NewCentroid(centroid.NewCentroidArgs{InitVec: v, InitCap: 1, KNNSearchFunc: knn, KFNSearchFunc: kfn})
	sym.Assert(ok, "new-centroid")
	return &c
}
