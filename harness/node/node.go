package node

import (
	"math"
	"sort"
	"trypo/pkg/kmeans/rpc"
	"trypo/pkg/searchutils"
	"trypo/zzverif/hx"
	"trypo/zzverif/sym"
)

const addr = "n1"

func world() *hx.World { return hx.NewWorld(1) }

func client(ns string, err *error) interface {
	Namespaces() []string
	AddDataPoint(hx.DataPoint) bool
	LenDP() int
	Meta() rpc.MetaResp
} {
	return rpc.KMeansClient(addr, ns, err)
}

// acceptable states whether a point with a vector of dim components is to be accepted by cm (nil: unused namespace).
func acceptable(w *hx.World, cm *hx.CentroidManager, id int) bool {
	if cm != nil && len(cm.Centroids) > 0 && len(cm.Centroids[0].Vec()) != len(w.Pts[id].Vec) {
		return false
	}
	return !w.Expired(id)
}

func put(w *hx.World, s *rpc.KMeansServer, ns string, dp hx.DataPoint, direct bool) {
	before, spaces := w.Holds(ns, s), hx.Spaces(s)
	want := acceptable(w, hx.Space(s, ns), hx.ID(dp))
	var ok bool
	var err error
	if direct {
		err = s.AddDataPoint(rpc.AddDataPointArgs{NameSpace: ns, DP: dp}, &ok)
	} else {
		ok = client(ns, &err).AddDataPoint(dp)
	}
	sym.Assert(err == nil, "put-is-answered")
	after := w.Holds(ns, s)
	id := hx.ID(dp)
	sym.Assert(sym.Iff(ok, want), "acknowledged-exactly-when-acceptable")
	sym.Assert(sym.Iff(ok, after[id] == before[id]+1), "acknowledged-exactly-when-stored")
	sym.Assert(sym.Implies(!ok, after[id] == before[id]), "refused-means-not-stored")
	before[id] = after[id]
	w.Kept(before, after, "others")
	if ok {
		if !hx.Has(spaces, ns) {
			sym.Assert(len(hx.Spaces(s)) == len(spaces)+1 && hx.Space(s, ns) != nil, "first-put-creates-namespace")
			sym.Reach("created")
		}
	} else {
		sym.Assert(hx.SameStrings(spaces, hx.Spaces(s)), "refused-put-creates-nothing")
		sym.Reach("refused")
	}
	sym.Observe("ok", ok)
	if cm := hx.Space(s, ns); cm != nil {
		hx.ObserveCM(cm)
	}
}

// Put: one put of a point with a vector of 0..2 components, with or without payload, and arbitrary expiry, over the network or directly, into a
// namespace that is unused or holds 0..2 (3) clusters of 0..2 points (3 (4) altogether, arbitrary expiries), split
// threshold 0, 2 or 3.
//
//sym:prop=C01,C14 reach=created,refused
func Put() {
	w := world()
	th := []int{0, 2, 3}[sym.Pick("threshold", 0, 2)]
	s := hx.Node(addr, th)
	if sym.Pick("exists", 0, 1) == 1 {
		hx.Install(s, "a", w.State(hx.Shape{MaxC: hx.Bound(2, 3), MaxP: 2, Exp: true, Total: hx.Bound(3, 4), Threshold: th}))
	}
	w.Dim = sym.Pick("dim", 0, 2)
	if sym.Pick("payload", 0, 1) == 0 {
		hx.Blank = len(w.Pts)
	}
	put(w, s, "a", w.New("new", true), sym.Pick("direct", 0, 1) == 1)
}

// Puts: 2 (3) puts of points with a vector of 1..2 components and arbitrary expiry into 2 namespaces of a new node, split
// threshold 0, 2 or 3.
//
//sym:prop=C01 reach=created,refused
func Puts() {
	w := world()
	s := hx.Node(addr, []int{0, 2, 3}[sym.Pick("threshold", 0, 2)])
	for i, n := 0, hx.Bound(2, 3); i < n; i++ {
		w.Dim = sym.Pick("dim", 1, 2)
		put(w, s, []string{"a", "b"}[sym.Pick("ns", 0, 1)], w.New("new", true), false)
	}
}

// Reports: the reports of a node with 0..2 (3) namespaces, each of 0..2 clusters of 0..2 points with arbitrary expiries,
// reached over the network.
//
//sym:prop=C22
func Reports() {
	w := world()
	s := hx.Node(addr, 0)
	names := []string{"a", "b", ""}[:sym.Pick("namespaces", 0, hx.Bound(2, 3))]
	for _, ns := range names {
		hx.Install(s, ns, w.State(hx.Shape{MaxC: 2, MaxP: 2, Exp: true, Total: hx.Bound(3, 4)}))
	}
	var images []*hx.Copy
	for _, ns := range names {
		images = append(images, hx.Image(hx.Space(s, ns)))
	}
	var err error
	got := client("a", &err).Namespaces()
	sym.Assert(err == nil && len(got) == len(names), "namespaces-listed-once")
	for _, ns := range names {
		sym.Assert(hx.Has(got, ns), "namespace-listed")
	}
	m := client("a", &err).Meta()
	sym.Assert(err == nil && len(m.DPs) == len(names) && len(m.Centroids) == len(names), "metadata-for-each-namespace")
	for i, ns := range names {
		dps, ok := m.DPs[ns]
		total := 0
		for _, ps := range images[i].Pts {
			total += len(ps)
		}
		sym.Assert(ok && dps == total, "metadata-counts-points")
		cs, ok := m.Centroids[ns]
		sym.Assert(ok && cs == len(images[i].Pts), "metadata-counts-clusters")
		n := client(ns, &err).LenDP()
		sym.Assert(err == nil && n == total, "count-of-points")
	}
	client("nope", &err).LenDP()
	sym.Assert(err != nil, "unknown-namespace-is-reported")
	for i, ns := range names {
		images[i].Same(hx.Space(s, ns), "reading-changes-nothing")
	}
	sym.Assert(len(hx.Spaces(s)) == len(names), "reading-creates-nothing")
}

// ---- every request ----

const nOps = 19

type result struct {
	err   error
	dps   []hx.DataPoint
	owner bool // only puts and take-overs create namespaces
}

// request sends request number op to a node.
func request(at, ns string, op int, vec []float64, n int, flag bool, dp hx.DataPoint, others []string) (r result) {
	c := rpc.KMeansClient(at, ns, &r.err)
	switch op {
	case 0:
		c.Namespaces()
	case 1:
		c.Vec()
	case 2:
		c.AddDataPoint(dp)
		r.owner = true
	case 3:
		r.dps = c.DrainUnordered(n)
	case 4:
		r.dps = c.DrainOrdered(n)
	case 5:
		c.Expire()
	case 6:
		c.LenDP()
	case 7:
		c.MemTrim()
	case 8:
		c.MoveVector()
	case 9:
		c.DistributeDataPointsFast(others, n)
	case 10:
		c.DistributeDataPointsAccurate(others, n)
	case 11:
		c.DistributeDataPointsInternal(n)
	case 12:
		r.dps = c.KNNLookup(vec, n, flag)
	case 13:
		cs, _ := c.NearestCentroids(vec, n, flag)
		for _, k := range cs {
			r.dps = append(r.dps, k.DataPoints...)
		}
	case 14:
		c.NearestCentroidVec(vec)
	case 15:
		c.SplitCentroids(-1, n)
	case 16:
		c.MergeCentroids(-1, n)
	case 17:
		from := addr
		if len(others) > 0 {
			from = others[0]
		}
		c.StealCentroids(from, n)
		r.owner = true
	case 18:
		c.Meta()
	}
	return r
}

// Isolated: any of the 19 requests, for 1..2 points, on namespace "a" (unused, or 0..2 clusters of 0..2 points, 2 (3)
// altogether) of a node that also has namespace "b" (1 cluster of 2 points): "b" and the list of namespaces stay as
// they are.
//
//sym:prop=C13 reach=unknown maporder=0
func Isolated() {
	w := world()
	s := hx.Node(addr, 2)
	op := sym.Pick("op", 0, nOps-1)
	exists := sym.Pick("exists", 0, 1) == 1
	if exists {
		hx.Install(s, "a", w.State(hx.Shape{MaxC: 2, MaxP: 2, Exp: op == 5 || op == 7 || op == 12, Total: hx.Bound(2, 3), Threshold: 2}))
	}
	hx.Install(s, "b", hx.NewCM([]*hx.Centroid{hx.Cluster([]hx.DataPoint{w.New("b", false), w.New("b", false)}, 1)}, 1, 2))
	n := 1
	if exists {
		n = sym.Pick("n", 1, 2)
	}
	flag := (op == 12 || op == 13) && sym.Pick("flag", 0, 1) == 1
	isolated(w, s, "a", "b", op, n, flag)
}

// IsolatedNames: any of the 19 requests on a namespace (unused, or 1 cluster of 1 point) of a node that also has a
// namespace with 1 cluster of 1 point and a similar name: names are compared exactly.
//
//sym:prop=C13 reach=unknown maporder=0
func IsolatedNames() {
	w := world()
	s := hx.Node(addr, 2)
	own, other := "a", "b"
	switch sym.Pick("names", 0, 7) {
	case 0:
		own, other = "a", "A"
	case 1:
		own, other = "a ", "a"
	case 2:
		own, other = "", "a"
	case 3:
		own, other = "a", ""
	case 4:
		own, other = "a/b", "a"
	case 5:
		own, other = "a", "ab"
	case 6:
		own, other = "ab", "a"
	case 7:
		own, other = "\u00c4", "\u00e4"
	}
	op := sym.Pick("op", 0, nOps-1)
	if sym.Pick("exists", 0, 1) == 1 {
		hx.Install(s, own, hx.NewCM([]*hx.Centroid{hx.Cluster([]hx.DataPoint{w.New("a", false)}, 1)}, 1, 2))
	}
	hx.Install(s, other, hx.NewCM([]*hx.Centroid{hx.Cluster([]hx.DataPoint{w.New("b", false)}, 1)}, 1, 2))
	isolated(w, s, own, other, op, 1, op == 12)
}

func isolated(w *hx.World, s *rpc.KMeansServer, own, other string, op, n int, flag bool) {
	theirs := w.Holds(other, s)
	image, spaces := hx.Image(hx.Space(s, other)), hx.Spaces(s)
	r := request(addr, own, op, hx.Vec("q", 1), n, flag, w.New("new", false), []string{addr})
	image.Same(hx.Space(s, other), "other-namespace-untouched")
	for _, dp := range r.dps {
		id := w.Genuine(dp, "result")
		sym.Assert(theirs[id] == 0, "other-namespace-not-returned")
	}
	now := hx.Spaces(s)
	if !hx.Has(spaces, own) && op != 0 && op != 18 {
		sym.Reach("unknown")
		if !r.owner {
			sym.Assert(r.err != nil, "unknown-namespace-is-reported")
			sym.Assert(hx.SameStrings(spaces, now), "unknown-namespace-not-created")
		}
	}
	for _, ns := range now {
		sym.Assert(ns == own || hx.Has(spaces, ns), "no-other-namespace-created")
	}
	for _, ns := range spaces {
		sym.Assert(hx.Has(now, ns), "no-namespace-removed")
	}
}

// ---- robustness ----

func anyVec(name string) []float64 {
	switch sym.Pick(name, 0, 6) {
	case 5:
		return []float64{math.NaN()}
	case 6:
		return []float64{math.Inf(1)}
	case 0:
		return nil
	case 1:
		return []float64{0}
	case 2:
		return []float64{1}
	case 3:
		return []float64{1, -1}
	}
	return []float64{0, 0}
}

// Robust: any of the 19 requests with any 64-bit n and a vector of 0..2 components, zero, not-a-number and infinity included,
// to a node with cosine search whose namespace is unused or holds 0..2 clusters of 0..2 points each (vectors of 1..2
// components, zero and not-a-number included, cluster by cluster), with an empty list of other nodes, itself, an unreachable one, or one
// with an emptied namespace.
//
//sym:prop=C15 maporder=0 preempt=1
func Robust() {
	w := world()
	s := hx.NodeWith(addr, searchutils.KNNCos, searchutils.KFNCos, 2)
	op := sym.Pick("op", 0, nOps-1)
	if sym.Pick("exists", 0, 1) == 1 {
		hx.Install(s, "a", mixed(w))
	}
	var others []string
	if op == 9 || op == 10 || op == 17 {
		switch sym.Pick("others", 0, 3) {
		case 1:
			others = []string{addr}
		case 2:
			others = []string{"nowhere", addr}
		case 3:
			others = []string{"n2"}
			o := hx.NodeWith("n2", searchutils.KNNCos, searchutils.KFNCos, 2)
			hx.Install(o, "a", mixed(w))
		}
	}
	n := 1
	switch op {
	case 3, 4, 9, 10, 11, 12, 13, 15, 16, 17:
		n = sym.Int("n", -1<<63, 1<<63-1)
	}
	var vec []float64
	var dp hx.DataPoint
	flag := false
	switch op {
	case 12, 13:
		flag = sym.Pick("flag", 0, 1) == 1
		vec = anyVec("q")
	case 14:
		vec = anyVec("q")
	case 2:
		dp.Vec = anyVec("new")
	}
	request(addr, "a", op, vec, n, flag, dp, others)
	// the node is still in service
	var err error
	rpc.KMeansClient(addr, "a", &err).Meta()
	sym.Assert(err == nil, "still-answering")
	if hx.Space(s, "a") != nil {
		rpc.KMeansClient(addr, "a", &err).LenDP()
		sym.Assert(err == nil, "still-answering")
	}
}

// mixed is a namespace of 0..2 clusters of 0..2 points; different clusters may have vectors of different lengths.
func mixed(w *hx.World) *hx.CentroidManager {
	cm := hx.Factory(searchutils.KNNCos, searchutils.KFNCos, 2)([]float64{0})
	for i, k := 0, sym.Pick("clusters", 0, 2); i < k; i++ {
		dim := 1
		if i > 0 {
			dim = sym.Pick("dim", 1, 2)
		}
		zero := make([]float64, dim)
		one := make([]float64, dim)
		one[dim-1] = 1
		c := hx.ClusterWith(searchutils.KNNCos, searchutils.KFNCos, zero)
		for j, m := 0, sym.Pick("points", 0, 2-i); j < m; j++ {
			v := one
			if j > 0 {
				v = zero
				if sym.Pick("nan", 0, 1) == 1 {
					v = append([]float64{}, zero...)
					v[dim-1] = math.NaN()
				}
			}
			c.AddDataPoint(w.Register(hx.DataPoint{Vec: v}))
		}
		cm.Centroids = append(cm.Centroids, c)
	}
	cm.MoveVector()
	return cm
}

// Select: splitting and merging requested over the network, with any 64-bit bounds, of a namespace of 1..2 clusters of
// 0..3 (4) points: a cluster is selected when its number of points lies strictly between the bounds.
//
//sym:prop=C21 reach=selected,left
func Select() {
	w := world()
	s := hx.Node(addr, 0)
	cm := w.State(hx.Shape{MinC: 1, MaxC: 2, MaxP: hx.Bound(3, 4), Total: hx.Bound(5, 8)})
	hx.Install(s, "a", cm)
	lo, hi := sym.Int("min", -1<<63, 1<<63-1), sym.Int("max", -1<<63, 1<<63-1)
	sel := func(n int) bool { return n > lo && n < hi }
	var sizes, want []int
	for _, c := range cm.Centroids {
		sizes = append(sizes, len(c.DataPoints))
	}
	before := w.Contents(cm)
	var err error
	c := rpc.KMeansClient(addr, "a", &err)
	if sym.Pick("op", 0, 1) == 0 {
		for _, n := range sizes {
			if n >= 2 && sel(n) {
				want = append(want, n/2, n-n/2)
				sym.Reach("selected")
			} else if n > 0 {
				want = append(want, n)
				sym.Reach("left")
			}
		}
		c.SplitCentroids(lo, hi)
	} else {
		for _, n := range sizes {
			want = append(want, n)
		}
		if len(sizes) == 2 && (sel(sizes[0]) || sel(sizes[1])) {
			want = []int{sizes[0] + sizes[1]}
			sym.Reach("selected")
		}
		c.MergeCentroids(lo, hi)
	}
	sym.Assert(err == nil, "answered")
	cm = hx.Space(s, "a")
	w.Kept(before, w.Contents(cm), "select")
	var got []int
	for _, c := range cm.Centroids {
		if n := len(c.DataPoints); n > 0 {
			got = append(got, n)
		}
	}
	sizes = nil
	for _, n := range want {
		if n > 0 {
			sizes = append(sizes, n)
		}
	}
	sort.Ints(got)
	sort.Ints(sizes)
	sym.Assert(len(got) == len(sizes), "exactly-the-selected-clusters")
	for i := range got {
		sym.Assert(got[i] == sizes[i], "exactly-the-selected-clusters")
	}
}
