package node

import (
	"time"
	"trypo/pkg/kmeans/rpc"
	"trypo/zzverif/hx"
	"trypo/zzverif/sym"
)

// Histories: the state is what earlier requests to new nodes left behind, not one that was set up.

// past is a node (and another one) after some puts and requests.
type past struct {
	w    *hx.World
	s, o *rpc.KMeansServer
}

func (p *past) holds() []int { return p.w.Holds("a", p.s, p.o) }

// history puts 1..2 (3) points, which may expire later, into a new node; another node has 1 point.
func history(exp bool) *past {
	w := world().Fixed()
	th := []int{0, 2}[sym.Pick("threshold", 0, 1)]
	p := &past{w: w, s: hx.Node(addr, th), o: hx.Node("n2", 0)}
	var err error
	sym.Assert(rpc.KMeansClient("n2", "a", &err).AddDataPoint(w.Register(hx.DataPoint{Vec: []float64{0}})), "put-is-acknowledged")
	for i, n := 0, sym.Pick("puts", 1, hx.Bound(2, 3)); i < n; i++ {
		dp := hx.DataPoint{Vec: hx.Vec("p", 1)}
		if exp && i == 0 {
			dp.ExpireEnabled = sym.Bool("expires")
			dp.Expires = time.Unix(1500, 0)
		}
		sym.Assert(client("a", &err).AddDataPoint(w.Register(dp)), "put-is-acknowledged")
	}
	w.Now = time.Unix(2000, 0)
	w.Fixed()
	return p
}

// ask sends the node one of the 19 requests.
func (p *past) ask() result { return p.request(sym.Pick("op", 0, nOps-1)) }

func (p *past) request(op int) result {
	n := 1
	flag := false
	switch op {
	case 3, 4, 9, 10, 11, 12, 13, 17:
		n = sym.Pick("n", 1, 2)
	case 15, 16:
		n = sym.Pick("n", 2, 3)
	}
	if op == 12 || op == 13 {
		flag = sym.Pick("flag", 0, 1) == 1
	}
	var vec []float64
	if op >= 12 && op <= 14 {
		vec = hx.Vec("q", 1)
	}
	var dp hx.DataPoint
	if op == 2 {
		dp = p.w.New("new", false)
	}
	return request(addr, "a", op, vec, n, flag, dp, []string{"n2"})
}

// CentresAfter: 1..2 (3) puts and any two requests to a new node: the centres are the means.
//
//sym:prop=C07,C08 reach=centre maporder=0 preempt=0
func CentresAfter() {
	p := history(true)
	p.ask()
	p.ask()
	cm := hx.Space(p.s, "a")
	hx.ClusterCentresOK(cm, "cluster-centre-after-requests")
	hx.CentreOK(cm, "namespace-centre-after-requests")
}

// ReportsAfter: the reports after 1..2 (3) puts and any two requests to a new node.
//
//sym:prop=C22 reach=none,some maporder=0 preempt=0
func ReportsAfter() {
	p := history(true)
	p.ask()
	p.ask()
	cm := hx.Space(p.s, "a")
	n := len(hx.All(cm))
	if n == 0 {
		sym.Reach("none")
	} else {
		sym.Reach("some")
	}
	var err error
	got := client("a", &err).Namespaces()
	sym.Assert(err == nil && len(got) == 1 && got[0] == "a", "namespaces-listed-once")
	sym.Assert(client("a", &err).LenDP() == n && err == nil, "count-of-points")
	m := client("a", &err).Meta()
	sym.Assert(err == nil && len(m.DPs) == 1 && len(m.Centroids) == 1, "metadata-for-each-namespace")
	sym.Assert(m.DPs["a"] == n, "metadata-counts-points")
	sym.Assert(m.Centroids["a"] == len(cm.Centroids), "metadata-counts-clusters")
}

// KeptAfter: 1..2 (3) puts, any request and a maintenance request to a new node: no unexpired point is lost or duplicated.
//
//sym:prop=C06 maporder=0 preempt=0
func KeptAfter() {
	p := history(true)
	p.ask()
	before := p.holds()
	p.request([]int{5, 7, 8, 9, 10, 11, 15, 16}[sym.Pick("maintenance", 0, 7)])
	p.w.Kept(before, p.holds(), "maintained")
}

// PutAfter: 1..2 (3) puts, any request and another put to a new node.
//
//sym:prop=C01 maporder=0 preempt=0
func PutAfter() {
	p := history(true)
	p.ask()
	p.w.Dim = sym.Pick("dim", 1, 2)
	put(p.w, p.s, "a", p.w.New("new", true), false)
}

// QueryAfter: 1..2 (3) puts, any request and a query to a new node.
//
//sym:prop=C02,C03,C14 maporder=0 preempt=0
func QueryAfter() {
	p := history(true)
	p.ask()
	before := p.w.Holds("a", p.s)
	n, drain := sym.Pick("k", 0, 3), sym.Pick("drain", 0, 1) == 1
	var err error
	q := hx.Vec("query", 1)
	got := rpc.KMeansClient(addr, "a", &err).KNNLookup(q, n, drain)
	sym.Assert(err == nil && len(got) <= n, "at-most-n")
	after, res := p.w.Holds("a", p.s), make([]int, len(p.w.Pts))
	p.w.Count(res, got, "returned")
	m := 0
	for i := range res {
		sym.Assert(res[i] <= before[i], "no-more-often-than-stored")
		want := before[i]
		if drain {
			want -= res[i]
		}
		if p.w.Expired(i) {
			sym.Assert(res[i] == 0, "expired-not-returned")
			sym.Assert(after[i] <= want, "stored-or-returned")
			continue
		}
		m += before[i]
		sym.Assert(after[i] == want, "removed-exactly-when-returned")
	}
	if m > n {
		m = n
	}
	sym.Assert(len(got) == m, "filled")
}

// DrainAfter: 1..2 (3) puts, any request and a drain of any number of points of a new node.
//
//sym:prop=C09 maporder=0 preempt=0
func DrainAfter() {
	p := history(false)
	p.ask()
	before := p.w.Holds("a", p.s)
	n := sym.Int("k", 0, 1<<62)
	var err error
	c := rpc.KMeansClient(addr, "a", &err)
	var got []hx.DataPoint
	if sym.Pick("ordered", 0, 1) == 1 {
		got = c.DrainOrdered(n)
	} else {
		got = c.DrainUnordered(n)
	}
	total := 0
	for _, b := range before {
		total += b
	}
	sym.Assert(err == nil && sym.Or(sym.And(n <= total, len(got) == n), sym.And(n > total, len(got) == total)), "exactly-n")
	after, res := p.w.Holds("a", p.s), make([]int, len(p.w.Pts))
	p.w.Count(res, got, "drained")
	for i := range res {
		sym.Assert(after[i]+res[i] == before[i], "each-in-one-place")
	}
}

// StealAfter: 1..2 (3) puts and any request to a new node, then another node takes its clusters over, any limit.
//
//sym:prop=C11 maporder=0 preempt=0 reach=moved
func StealAfter() {
	p := history(true)
	p.ask()
	mine, before := p.w.Holds("a", p.o), p.holds()
	limit := sym.Int("limit", -1<<62, 1<<62)
	var err error
	n, ok := rpc.KMeansClient("n2", "a", &err).StealCentroids(addr, limit)
	sym.Assert(err == nil && ok, "success-reported")
	p.w.Kept(before, p.holds(), "taken-over")
	moved := 0
	for i, x := range p.w.Holds("a", p.o) {
		if x > mine[i] {
			moved += x - mine[i]
			sym.Assert(!p.w.Expired(i), "expired-not-moved")
			sym.Reach("moved")
		}
	}
	sym.Assert(n == moved, "reported-number-is-true")
	sym.Assert(sym.Or(moved >= limit, len(hx.Space(p.s, "a").Centroids) == 0), "stops-only-at-the-limit-or-when-empty")
}
