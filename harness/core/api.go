package core

import (
	"bytes"
	"io"
	"net/http"
	"time"
	"trypo/core/api"
	"trypo/pkg/searchutils"
	"trypo/zzverif/hx"
	"trypo/zzverif/sym"
)

// answer records what a handler replies.
type answer struct {
	code int
	body []byte
	head http.Header
}

func (a *answer) Header() http.Header {
	if a.head == nil {
		a.head = http.Header{}
	}
	return a.head
}

func (a *answer) WriteHeader(code int) {
	if a.code == 0 {
		a.code = code
	}
}

func (a *answer) Write(b []byte) (int, error) {
	a.WriteHeader(200)
	a.body = append(a.body, b...)
	return len(b), nil
}

// post sends a body to the API serving the first n nodes.
func post(n int, route string, body []byte) *answer {
	h := running[route]
	if h != nil {
		return send(h, body)
	}
	started := ""
	http.Started = func(addr string) { started = addr }
	cfg := api.APIConfig{Addr: api.Addr{IP: "n", Port: "9"}, RPCAddrs: append([]api.Addr{}, addrs[:n]...)}
	sym.Assert(api.Start(cfg) == nil && started == "n:9", "api-starts-at-its-address")
	h = http.Routes[route]
	sym.Assert(h != nil, "route-served")
	if running != nil {
		for r, h := range http.Routes {
			running[r] = h
		}
	}
	return send(h, body)
}

func send(h http.Handler, body []byte) *answer {
	a := &answer{}
	h.ServeHTTP(a, &http.Request{Method: "POST", Body: io.NopCloser(bytes.NewReader(body))})
	a.WriteHeader(200)
	return a
}

type jsonPoint struct {
	Vec           []float64 `json:"vec"`
	Payload       []byte    `json:"payload"`
	Expires       time.Time `json:"expires"`
	ExpireEnabled bool      `json:"expireEnabled"`
}

func apiPut(n int, ns string, dp hx.DataPoint, accurate bool) bool {
	a := post(n, "/api/dp/put", sym.JSON(struct {
		Namespace string    `json:"namespace"`
		Accurate  bool      `json:"accurate"`
		DP        jsonPoint `json:"dp"`
	}{ns, accurate, jsonPoint{dp.Vec, dp.Payload, dp.Expires, dp.ExpireEnabled}}))
	sym.Assert(a.code >= 200 && a.code < 300 || a.code >= 400, "status-tells-success-or-failure")
	return a.code < 300
}

func apiQuery(n int, ns string, q []float64, want int, drain, accurate bool) []hx.DataPoint {
	a := post(n, "/api/dp/query", sym.JSON(struct {
		Namespace string    `json:"namespace"`
		Accurate  bool      `json:"accurate"`
		QueryVec  []float64 `json:"queryVec"`
		N         int       `json:"n"`
		Drain     bool      `json:"drain"`
	}{ns, accurate, q, want, drain}))
	sym.Assert(a.code == 200, "query-answered")
	var ps []jsonPoint
	sym.Assert(sym.UnJSON(a.body, &ps) == nil, "reply-is-a-list-of-points")
	r := make([]hx.DataPoint, len(ps))
	for i, p := range ps {
		r[i] = hx.DataPoint{Vec: p.Vec, Payload: p.Payload, Expires: p.Expires, ExpireEnabled: p.ExpireEnabled}
	}
	return r
}

// APIPut: as Put, through the JSON API (ranking by cosine similarity, else random) over 2 nodes.
//
//sym:prop=C20 preempt=0 order=0 reach=stored,failed
func APIPut() { put(2, from(absent), 0, true) }

// APIPutFaults: as APIPut, where any of the first 2 (6) connections and requests may fail.
//
//sym:prop=C20 preempt=0 order=0 reach=stored,failed
func APIPutFaults() { put(2, from(absent), hx.Bound(2, 6), true) }

// APIQuery: as Get, through the JSON API (ranking by cosine similarity) over 2 nodes holding 2 (3) points altogether.
//
//sym:prop=C20 preempt=0 order=0 reach=several
func APIQuery() { get(2, from(absent), hx.Bound(2, 3), 0, true, false) }

// APIQueryFaults: as APIQuery with nodes that hold points, where any of the first 2 (4) connections and requests may fail.
//
//sym:prop=C20 preempt=0 order=0 reach=several
func APIQueryFaults() { get(2, from(holding), hx.Bound(2, 3), hx.Bound(2, 4), true, false) }

// APIBad: bodies that are no JSON, are cut off, have something after the document, or have a field of another type, sent
// to either route with 2 nodes holding 0..1 points or lacking the namespace: a bad request without effect.
//
//sym:prop=C20 preempt=0 order=0 reach=refused
func APIBad() {
	w := hx.NewWorld(1)
	x := build(w, 2, from(without), oneCluster(w, 0, 1))
	dp := jsonPoint{Vec: []float64{1}, Payload: []byte{1}}
	type put struct {
		Namespace string    `json:"namespace"`
		Accurate  bool      `json:"accurate"`
		DP        jsonPoint `json:"dp"`
	}
	type query struct {
		Namespace string    `json:"namespace"`
		Accurate  bool      `json:"accurate"`
		QueryVec  []float64 `json:"queryVec"`
		N         int       `json:"n"`
		Drain     bool      `json:"drain"`
	}
	type word struct {
		Vec string `json:"vec"`
	}
	good := [][]byte{sym.JSON(put{"a", false, dp}), sym.JSON(query{"a", true, []float64{1}, 2, true})}
	bodies := func(k int) [][]byte {
		r := [][]byte{nil, []byte("{"), []byte("nonsense"), []byte("{]"), good[k][:len(good[k])-1]}
		for _, tail := range []string{"}", "x", " {}", "\n]", ","} {
			r = append(r, append(append([]byte{}, good[k]...), tail...))
		}
		r = append(r, sym.JSON(5), sym.JSON("text"), sym.JSON([]float64{1}), sym.JSON(true), sym.JSON(struct {
			Namespace int `json:"namespace"`
		}{5}))
		return r
	}
	route := []string{"/api/dp/put", "/api/dp/query"}[sym.Pick("route", 0, 1)]
	var list [][]byte
	if route == "/api/dp/put" {
		list = append(bodies(0), sym.JSON(struct {
			Namespace string `json:"namespace"`
			DP        word   `json:"dp"`
		}{"a", word{"1"}}), sym.JSON(struct {
			Namespace string    `json:"namespace"`
			DP        jsonPoint `json:"dp"`
			Accurate  string    `json:"accurate"`
		}{"a", dp, "yes"}), sym.JSON(struct {
			Namespace string    `json:"namespace"`
			DP        []float64 `json:"dp"`
		}{"a", []float64{1}}))
	} else {
		list = append(bodies(1), sym.JSON(struct {
			Namespace string    `json:"namespace"`
			QueryVec  []float64 `json:"queryVec"`
			N         string    `json:"n"`
			Drain     bool      `json:"drain"`
		}{"a", []float64{1}, "2", true}), sym.JSON(struct {
			Namespace string    `json:"namespace"`
			QueryVec  []float64 `json:"queryVec"`
			N         int       `json:"n"`
			Drain     int       `json:"drain"`
		}{"a", []float64{1}, 2, 1}), sym.JSON(struct {
			Namespace string  `json:"namespace"`
			QueryVec  float64 `json:"queryVec"`
			N         int     `json:"n"`
			Drain     bool    `json:"drain"`
		}{"a", 1, 2, true}))
	}
	body := list[sym.Pick("body", 0, len(list)-1)]
	var before []*hx.Copy
	var spaces [][]string
	for _, s := range x.node {
		before = append(before, hx.Image(hx.Space(s, "a")))
		spaces = append(spaces, hx.Spaces(s))
	}
	a := post(2, route, body)
	sym.Assert(a.code == 400, "bad-request")
	for i, s := range x.node {
		before[i].Same(hx.Space(s, "a"), "bad-request-without-effect")
		sym.Assert(hx.SameStrings(spaces[i], hx.Spaces(s)), "bad-request-without-effect")
	}
	sym.Reach("refused")
}

// APIAbsent: a put and a query of the same or another namespace, of several spellings, to an empty node, with absent
// fields: a point without expiry, payload or vector (arbitrary otherwise), a query without number or drain flag.
//
//sym:prop=C20,C13 preempt=0 order=0 reach=found,hidden
func APIAbsent() {
	names := []string{"a", "A", "", " a", "a/b", "\u00e4"}
	ns := names[sym.Pick("ns", 0, len(names)-1)]
	asked := names[sym.Pick("asked", 0, len(names)-1)]
	s := hx.Node(addrs[0].ToStr(), 0)
	v, payload := []float64{sym.Float("v", -1000, 1000)}, []byte{sym.Byte("p"), 0, sym.Byte("q")}
	var body []byte
	switch sym.Pick("put", 0, 2) {
	case 0:
		body = sym.JSON(struct {
			Namespace string `json:"namespace"`
			DP        struct {
				Vec     []float64 `json:"vec"`
				Payload []byte    `json:"payload"`
			} `json:"dp"`
		}{Namespace: ns, DP: struct {
			Vec     []float64 `json:"vec"`
			Payload []byte    `json:"payload"`
		}{v, payload}})
	case 1:
		body = sym.JSON(struct {
			Namespace string    `json:"namespace"`
			Accurate  bool      `json:"accurate"`
			DP        jsonPoint `json:"dp"`
		}{ns, true, jsonPoint{Vec: v, Expires: time.Unix(5, 0)}})
		payload = nil
	case 2:
		if ns != "" {
			ns = ""
			asked = ""
		}
		body = sym.JSON(struct {
			DP jsonPoint `json:"dp"`
		}{jsonPoint{Vec: v, Payload: payload}})
	}
	a := post(1, "/api/dp/put", body)
	sym.Assert(a.code == 200, "put-succeeds")
	sym.Assert(hx.SameStrings(hx.Spaces(s), []string{ns}), "stored-under-the-given-namespace")
	stored := hx.All(hx.Space(s, ns))
	same := func(v2 []float64, p2 []byte, enabled bool) bool {
		if len(v2) != 1 || len(p2) != len(payload) || enabled {
			return false
		}
		r := v2[0] == v[0]
		for i := range payload {
			r = sym.And(r, p2[i] == payload[i])
		}
		return r
	}
	sym.Assert(len(stored) == 1, "stored-once")
	sym.Assert(same(stored[0].Vec, stored[0].Payload, stored[0].ExpireEnabled), "stored-unmodified")

	form := sym.Pick("query", 0, 2)
	q := []float64{sym.Float("q", -1000, 1000)}
	switch form {
	case 0: // no drain flag
		body = sym.JSON(struct {
			Namespace string    `json:"namespace"`
			QueryVec  []float64 `json:"queryVec"`
			N         int       `json:"n"`
		}{asked, q, 1})
	case 1: // no number
		body = sym.JSON(struct {
			Namespace string    `json:"namespace"`
			QueryVec  []float64 `json:"queryVec"`
			Drain     bool      `json:"drain"`
		}{asked, q, true})
	case 2:
		body = sym.JSON(struct {
			Namespace string    `json:"namespace"`
			Accurate  bool      `json:"accurate"`
			QueryVec  []float64 `json:"queryVec"`
			N         int       `json:"n"`
			Drain     bool      `json:"drain"`
		}{asked, true, q, 7, true})
	}
	a = post(1, "/api/dp/query", body)
	sym.Assert(a.code == 200, "query-answered")
	var ps []jsonPoint
	sym.Assert(sym.UnJSON(a.body, &ps) == nil, "reply-is-a-list-of-points")
	left := len(hx.All(hx.Space(s, ns)))
	if asked == ns && form != 1 {
		sym.Assert(len(ps) == 1, "found")
		sym.Assert(same(ps[0].Vec, ps[0].Payload, ps[0].ExpireEnabled), "returned-unmodified")
		sym.Reach("found")
	} else {
		sym.Assert(len(ps) == 0, "nothing-found-elsewhere")
		sym.Reach("hidden")
	}
	if form == 2 && asked == ns {
		sym.Assert(left == 0, "drained")
	} else {
		sym.Assert(left == 1, "kept-without-drain")
	}
}

// APIMany: a query for any 64-bit number of points, draining or not, fast or accurate, by the vector (1, 1), to a node holding 3
// clusters of 40 (120) points each: min(n, stored) are returned, each once, and exactly these are gone when draining.
//
//sym:prop=C20 preempt=0 order=0 reach=all,some
func APIMany() {
	w := hx.NewWorld(2)
	s := hx.NodeWith(addrs[0].ToStr(), searchutils.KNNCos, searchutils.KFNCos, 0)
	var cs []*hx.Centroid
	each := hx.Bound(40, 120)
	for i := 0; i < 3; i++ {
		c := hx.ClusterWith(searchutils.KNNCos, searchutils.KFNCos, []float64{1, float64(i)})
		for j := 0; j < each; j++ {
			c.DataPoints = append(c.DataPoints, w.Register(hx.DataPoint{Vec: []float64{1, float64(i)}}))
		}
		cs = append(cs, c)
	}
	cm := hx.Factory(searchutils.KNNCos, searchutils.KFNCos, 0)([]float64{1, 1})
	cm.Centroids = cs
	hx.Install(s, "a", cm)
	n := sym.Int("n", -1<<63, 1<<63-1)
	drain := sym.Bool("drain")
	got := apiQuery(1, "a", []float64{1, 1}, n, drain, sym.Bool("accurate"))
	sym.Assert(sym.Implies(n <= 0, len(got) == 0), "at-most-n")
	sym.Assert(sym.Implies(n > 0, sym.Or(len(got) == n, sym.And(n > 3*each, len(got) == 3*each))), "as-many-as-asked-for")
	times := make([]int, len(w.Pts))
	w.Count(times, got, "result")
	left := w.Holds("a", s)
	for i, k := range times {
		sym.Assert(k <= 1, "each-point-once")
		sym.Assert(left[i] == sym.IteInt(drain, 1-k, 1), "drained-exactly-when-returned")
	}
	if len(got) == 3*each {
		sym.Reach("all")
	} else if len(got) > 0 {
		sym.Reach("some")
	}
}

// APIReply: a query for 0..4 points, fast or accurate, draining or not, to a node holding 3 points of which 2 have arbitrary
// expiry settings: the points come back as they were put, expired ones don't.
//
//sym:prop=C20,C14 preempt=0 order=0 reach=all
func APIReply() {
	w := hx.NewWorld(1)
	w.Dom = [][]float64{{-2.5}}
	s := hx.NodeWith(addrs[0].ToStr(), searchutils.KNNCos, searchutils.KFNCos, 0)
	live := 0
	var pts []hx.DataPoint
	for i := 0; i < 3; i++ {
		pts = append(pts, w.New("p", i > 0))
		live += sym.IteInt(w.Expired(i), 0, 1)
	}
	hx.Install(s, "a", hx.NewCM([]*hx.Centroid{hx.Cluster(pts, 1)}, 1, 0))
	n := sym.Int("n", 0, 4)
	drain := sym.Bool("drain")
	got := apiQuery(1, "a", []float64{1}, n, drain, sym.Pick("accurate", 0, 1) == 1)
	times := make([]int, len(w.Pts))
	w.Count(times, got, "result")
	left := w.Holds("a", s)
	sym.Assert(len(got) == sym.IteInt(n < live, n, live), "as-many-as-asked-for")
	for i, k := range times {
		sym.Assert(sym.And(k <= 1, sym.Implies(k == 1, !w.Expired(i))), "each-unexpired-point-once")
		sym.Assert(sym.Implies(!w.Expired(i), left[i] == sym.IteInt(drain, 1-k, 1)), "drained-exactly-when-returned")
	}
	if len(got) == 3 {
		sym.Reach("all")
	}
}
