// Package listen checks servers that listen for connections, and stopping them.
package listen

import (
	netrpc "net/rpc"
	"sync/atomic"
	"trypo/pkg/kmeans/rpc"
	"trypo/zzverif/hx"
	"trypo/zzverif/sym"
)

const at = "n:1"

func put(c *netrpc.Client, w *hx.World, i int) bool {
	ok := false
	err := c.Call("KMeansServer.AddDataPoint", rpc.AddDataPointArgs{NameSpace: "a", DP: w.Pts[i]}, &ok)
	if err == nil {
		sym.Assert(ok, "a request gets its own answer")
	}
	return err == nil
}

// stored tells how often point i is stored.
func stored(s *rpc.KMeansServer, w *hx.World, i int) int { return w.Holds("a", s)[i] }

// served states that point i was stored exactly when that was acknowledged.
func served(s *rpc.KMeansServer, w *hx.World, i int, ok bool) {
	n := 0
	if ok {
		n = 1
	}
	sym.Assert(stored(s, w, i) == n, "a request is answered when it is served and only then")
}

// nobody asserts that nothing is served at the address.
func nobody(s *rpc.KMeansServer, w *hx.World) {
	c, err := netrpc.Dial("tcp", at)
	if err != nil {
		return
	}
	p := w.New("late", false)
	_ = p
	i := len(w.Pts) - 1
	sym.Assert(!put(c, w, i), "no connection is accepted after stopping")
	served(s, w, i, false)
	c.Close()
}

// Listen: a server with 0..2 (3) connections, each used 0..1 times once all are open and possibly closed by its
// opener, is stopped, with connections just being made or ended or not: nothing is served any more over any of them.
//
//sym:prop=C26 race=1 preempt=0 por=1 maxpaths=600000 timeout=400
func Listen() {
	w := hx.NewWorld(1).Fixed()
	s := rpc.NewKMeansServer(at, hx.Factory(hx.KNN, hx.KFN, 50))
	stop, err := rpc.StartListen(s)
	sym.Assert(err == nil && stop != nil, "a server starts listening")
	k := sym.Pick("connections", 0, hx.Bound(2, 3))
	var cs []*netrpc.Client
	for j := 0; j < k; j++ {
		cs = append(cs, dial())
	}
	for _, c := range cs {
		if sym.Bool("used") {
			use(c, s, w)
		}
		if sym.Bool("closed") {
			c.Close()
		}
	}
	if sym.Bool("settled") {
		sym.Idle()
	}
	stop()
	for _, c := range cs {
		w.New("q", false)
		i := len(w.Pts) - 1
		sym.Assert(!put(c, w, i), "no request is served after stopping")
		served(s, w, i, false)
	}
	nobody(s, w)
	sym.Idle()
}

// ListenAgain: an address is listened at once at a time; when its server has been stopped, once or twice, with or
// without a connection, it is free again at once, and the next server serves until it is stopped itself.
//
//sym:prop=C26 race=1 preempt=0 por=1
func ListenAgain() {
	w := hx.NewWorld(1).Fixed()
	s := rpc.NewKMeansServer(at, hx.Factory(hx.KNN, hx.KFN, 50))
	stop, err := rpc.StartListen(s)
	sym.Assert(err == nil && stop != nil, "a server starts listening")
	_, err = rpc.StartListen(s)
	sym.Assert(err != nil, "an address is listened at once")
	if sym.Bool("connection") {
		use(dial(), s, w)
	}
	stop()
	if sym.Bool("twice") {
		stop()
	}
	if sym.Bool("settled") {
		sym.Idle()
	}
	again, err := rpc.StartListen(s)
	sym.Assert(err == nil, "an address is free again after stopping")
	if sym.Bool("late") {
		stop()
	}
	c, d := dial(), dial()
	use(c, s, w)
	use(d, s, w)
	again()
	w.New("r", false)
	sym.Assert(!put(c, w, len(w.Pts)-1) && !put(d, w, len(w.Pts)-1), "no request is served after stopping")
	nobody(s, w)
	sym.Idle()
}

func dial() *netrpc.Client {
	c, err := netrpc.Dial("tcp", at)
	sym.Assert(err == nil, "a running server can be connected to")
	return c
}

func use(c *netrpc.Client, s *rpc.KMeansServer, w *hx.World) {
	w.New("p", false)
	i := len(w.Pts) - 1
	ok := put(c, w, i)
	sym.Assert(ok, "a running server serves every connection")
	served(s, w, i, ok)
}

// ListenAccept: stopping a server at any moment of its accepting 1..2 connections, with at most 2 preemptions.
//
//sym:prop=C26 race=1 preempt=2 por=1 tiers=quick
func ListenAccept() { acceptStop() }

// ListenAcceptMore: as ListenAccept, with at most 3 preemptions.
//
//sym:prop=C26 race=1 preempt=3 por=1 tiers=thorough maxpaths=600000 timeout=300
func ListenAcceptMore() { acceptStop() }

func acceptStop() {
	w := hx.NewWorld(1).Fixed()
	s := rpc.NewKMeansServer(at, hx.Factory(hx.KNN, hx.KFN, 50))
	stop, err := rpc.StartListen(s)
	sym.Assert(err == nil && stop != nil, "a server starts listening")
	c := dial()
	d := c
	if sym.Bool("two") {
		d = dial()
	}
	stop()
	for _, x := range []*netrpc.Client{c, d} {
		w.New("q", false)
		i := len(w.Pts) - 1
		sym.Assert(!put(x, w, i), "no request is served after stopping")
		served(s, w, i, false)
	}
	sym.Idle()
}

// ListenRace: stopping a server at any moment of a connection's being made and used twice, while another connection
// is idle or being used, with at most 1 preemption: what is asked after stopping is not served, what is acknowledged
// was done.
//
//sym:prop=C26 race=1 preempt=1 por=1 tiers=quick
func ListenRace() { raceStop() }

// ListenRaceMore: as ListenRace, with at most 2 preemptions.
//
//sym:prop=C26 race=1 preempt=2 por=1 tiers=thorough maxpaths=600000 timeout=400
func ListenRaceMore() { raceStop() }

func raceStop() {
	w := hx.NewWorld(1).Fixed()
	s := rpc.NewKMeansServer(at, hx.Factory(hx.KNN, hx.KFN, 50))
	stop, err := rpc.StartListen(s)
	sym.Assert(err == nil, "a server starts listening")
	for i := 0; i < 4; i++ {
		w.New("p", false)
	}
	idle := sym.Bool("another")
	var other *netrpc.Client
	if idle {
		other, err = netrpc.Dial("tcp", at)
		sym.Assert(err == nil && put(other, w, 3), "a running server serves every connection")
	}
	var stopped, done int32
	var ok, late [3]bool
	go func() {
		c, err := netrpc.Dial("tcp", at)
		if err == nil {
			for i := 0; i < 2; i++ {
				late[i] = atomic.LoadInt32(&stopped) == 1
				ok[i] = put(c, w, i)
			}
			c.Close()
		}
		atomic.StoreInt32(&done, 1)
	}()
	stop()
	atomic.StoreInt32(&stopped, 1)
	if idle {
		sym.Assert(!put(other, w, 2), "no request is served after stopping")
	}
	sym.Idle()
	sym.Assert(atomic.LoadInt32(&done) == 1, "clients are answered or cut off")
	late[2] = true
	for i, n := range w.Holds("a", s)[:3] {
		sym.Assert(n <= 1 && (n == 1 || !ok[i]), "what is acknowledged was done once")
		sym.Assert(n == 0 || !late[i], "no request is served after stopping")
	}
	nobody(s, w)
}
