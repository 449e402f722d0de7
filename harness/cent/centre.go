package cent

import (
	"trypo/pkg/kmeans/common"
	"trypo/zzverif/hx"
	"trypo/zzverif/sym"
)

func checkCentre(c *hx.Centroid, id string) {
	if len(c.DataPoints) == 0 {
		return
	}
	sym.Assert(hx.VecNear(c.Vec(), hx.Mean(c.DataPoints)), id)
	sym.Reach("nonempty")
}

// cluster is an arbitrary valid cluster of up to max points.
func cluster(max, dim int, expiring bool) *hx.Centroid {
	n := sym.Pick("n", 0, max)
	var dps []hx.DataPoint
	for i := 0; i < n; i++ {
		dp := hx.Point("p", dim, i)
		if expiring {
			dp = hx.Expiring("p", dp)
		}
		dps = append(dps, dp)
	}
	return hx.Cluster(dps, dim)
}

func bound(quick, thorough int) int {
	if sym.Thorough() {
		return thorough
	}
	return quick
}

// CentreAdd: from any cluster of up to 5 (thorough 8) points in 2 dimensions whose centre is their mean, one point
// added, with arbitrary expiry; coordinates are arbitrary reals in [-100,100].
//
//sym:prop=C07 reach=nonempty
func CentreAdd() {
	c := cluster(bound(5, 8), 2, false)
	before := c.LenDP()
	ok := c.AddDataPoint(hx.Expiring("new", hx.Point("new", sym.Pick("dim", 1, 3), 99)))
	checkCentre(c, "centre-after-add")
	if !ok {
		sym.Assert(c.LenDP() == before, "refused-add-unchanged")
	}
	observeCentre(c)
}

func observeCentre(c *hx.Centroid) {
	sym.Observe("len", c.LenDP())
	if c.LenDP() > 0 {
		sym.Observe("c0", c.Vec()[0])
	}
}

// CentreDrain: one unordered drain of n in 0..5 (8) from any cluster of up to 4 (6) points in 2 dimensions with
// arbitrary expiries around the fixed clock.
//
//sym:prop=C07 reach=nonempty
func CentreDrain() {
	c := cluster(bound(4, 6), 2, true)
	c.DrainUnordered(sym.Pick("k", 0, bound(5, 8)))
	checkCentre(c, "centre-after-drain")
	observeCentre(c)
}

// CentreDrainOrdered: one ordered drain of n in 0..4 (5) from any cluster of up to 3 (4) points in 2 dimensions;
// distances between first components.
//
//sym:prop=C07 reach=nonempty
func CentreDrainOrdered() {
	c := cluster(bound(3, 4), 2, true)
	c.DrainOrdered(sym.Pick("k", 0, bound(4, 5)))
	checkCentre(c, "centre-after-ordered-drain")
	observeCentre(c)
}

// CentreExpire: one expiry sweep over any cluster of up to 5 (7) points in 2 dimensions with arbitrary expiries.
//
//sym:prop=C07 reach=nonempty
func CentreExpire() {
	c := cluster(bound(5, 7), 2, true)
	c.Expire()
	checkCentre(c, "centre-after-expire")
	observeCentre(c)
}

// CentreMemTrim: one memory trim of any cluster of up to 5 (7) points in 2 dimensions with arbitrary expiries.
//
//sym:prop=C07 reach=nonempty
func CentreMemTrim() {
	c := cluster(bound(5, 7), 2, true)
	c.MemTrim()
	checkCentre(c, "centre-after-memtrim")
	observeCentre(c)
}

// CentreMove: one explicit recomputation from an arbitrary, possibly wrong centre; up to 5 (7) points.
//
//sym:prop=C07 reach=nonempty
func CentreMove() {
	n := sym.Pick("n", 0, bound(5, 7))
	var dps []hx.DataPoint
	for i := 0; i < n; i++ {
		dps = append(dps, hx.Expiring("p", hx.Point("p", 2, i)))
	}
	c := hx.ClusterAt(hx.Vec("v", 2), dps)
	ok := c.MoveVector()
	if ok || c.LenDP() > 0 {
		checkCentre(c, "centre-after-move")
	}
	observeCentre(c)
}

// CentreLookup: one lookup of k in 0..3 (4) with or without removal in any cluster of up to 3 (4) points.
//
//sym:prop=C07 reach=nonempty
func CentreLookup() {
	c := cluster(bound(3, 4), 2, true)
	c.KNNLookup(hx.Vec("q", 2), sym.Pick("k", 0, bound(3, 4)), sym.Bool("drain"))
	checkCentre(c, "centre-after-lookup")
	observeCentre(c)
}

// CentreDistribute: one redistribution of n in 0..3 points of any cluster of up to 3 points (no expiries) to two
// receivers, one of them possibly the cluster itself or a cluster of another dimension.
//
//sym:prop=C07 reach=nonempty
func CentreDistribute() {
	c := cluster(bound(2, 3), 1, false)
	a := hx.Cluster([]hx.DataPoint{hx.Point("a", 1, 50)}, 1)
	var b common.DataPointReceiver
	switch sym.Pick("b", 0, 2) {
	case 0:
		b = c
	case 1:
		b = hx.Cluster([]hx.DataPoint{hx.Point("b", 2, 60)}, 2)
	case 2:
		b = hx.Cluster([]hx.DataPoint{hx.Point("b", 1, 60)}, 1)
	}
	c.DistributeDataPoints(sym.Pick("k", 0, 3), []common.DataPointReceiver{a, b})
	checkCentre(c, "centre-after-distribute")
	checkCentre(a, "receiver-centre-after-distribute")
	checkCentre(b.(*hx.Centroid), "receiver-centre-after-distribute")
	observeCentre(c)
	observeCentre(a)
}

// CentreWide: any one operation on any cluster of up to 2 (3) points in 3..6 (9) dimensions; removals and additions of points at
// arbitrary positions.
//
//sym:prop=C07 reach=nonempty
func CentreWide() {
	dim := sym.Pick("dim", 3, bound(6, 9))
	c := cluster(bound(2, 3), dim, true)
	switch sym.Pick("op", 0, 5) {
	case 0:
		c.AddDataPoint(hx.Point("new", dim, 99))
	case 1:
		c.DrainUnordered(1)
	case 2:
		c.DrainOrdered(1)
	case 3:
		c.MemTrim()
	case 4:
		c.KNNLookup(hx.Vec("q", dim), 1, true)
	case 5:
		c.MoveVector()
	}
	checkCentre(c, "centre-after-operation")
	observeCentre(c)
}
