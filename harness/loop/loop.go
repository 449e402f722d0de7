// Package loop checks the background event loop of a node.
package loop

import (
	netrpc "net/rpc"
	"time"
	"trypo/core/eventloop"
	"trypo/pkg/kmeans/rpc"
	"trypo/zzverif/hx"
	"trypo/zzverif/sym"
)

// Tasks of the loop.
const (
	meta = iota
	expire
	memTrim
	merge
	split
	internal
	fast
	accurate
	balance
	nTasks
)

var methods = map[string]int{
	"Expire": expire, "MemTrim": memTrim, "MergeCentroids": merge, "SplitCentroids": split,
	"DistributeDataPointsInternal": internal, "DistributeDataPointsFast": fast, "DistributeDataPointsAccurate": accurate,
	"LenDP": balance, "StealCentroid": balance,
}

// watch records what the loop does.
type watch struct {
	round int // number of the running round
	ran   [][nTasks]int
	at    func(round, task int, addr string, args interface{})
	begin func(round int) // what happens before a round
}

func (x *watch) note(task int, addr string, args interface{}) {
	for len(x.ran) <= x.round {
		x.ran = append(x.ran, [nTasks]int{})
	}
	x.ran[x.round][task]++
	if x.at != nil {
		x.at(x.round, task, addr, args)
	}
}

func (x *watch) LogTask(string)               {}
func (x *watch) LogMeta(m eventloop.MetaData) { x.note(meta, "", m) }

const (
	loopSleep = 7 * time.Second
	stepSleep = 3 * time.Second
)

var self = eventloop.Addr{IP: "n", Port: "1"}
var peer = eventloop.Addr{IP: "n", Port: "2"}
var third = eventloop.Addr{IP: "m", Port: "2"}

func config(x *watch, remotes ...eventloop.Addr) *eventloop.EventLoopConfig {
	netrpc.Trace = func(addr, method string, args interface{}) {
		if task, ok := methods[method]; ok {
			x.note(task, addr, args)
		}
	}
	return &eventloop.EventLoopConfig{
		LocalAddr: self, RemoteAddrs: remotes, TimeoutLoop: loopSleep, TimeoutStep: stepSleep, L: x,
		DistributeDataPointsFastN: 11, DistributeDataPointsAccurateN: 12, DistributeDataPointsInternalN: 13,
		SplitCentroidsMin: 14, SplitCentroidsMax: 15, MergeCentroidsMin: 16, MergeCentroidsMax: 17,
	}
}

// run runs the given number of rounds of the loop; what a step started is done before the next one begins.
func (x *watch) run(cfg *eventloop.EventLoopConfig, rounds int) {
	x.round = -1
	var stop func()
	running := 1
	time.SleepFunc = func(d time.Duration) {
		sym.Idle()
		if d == loopSleep {
			x.round++
			if x.begin != nil {
				x.begin(x.round)
			}
			if x.round == rounds {
				stop()
				running = 0
			}
		}
	}
	stop = eventloop.EventLoop(cfg)
	sym.WaitZero(&running)
	sym.Idle()
	for len(x.ran) <= rounds {
		x.ran = append(x.ran, [nTasks]int{})
	}
	for _, n := range x.ran[rounds] {
		sym.Assert(n == 0, "no-task-after-stop")
	}
}

func cadence(cfg *eventloop.EventLoopConfig, task int) *int {
	s := &cfg.TaskSkip
	return []*int{&s.Meta, &s.Expire, &s.MemTrim, &s.MergeCentroids, &s.SplitCentroids, &s.DistributeDataPointsInternal,
		&s.DistributeDataPointsFast, &s.DistributeDataPointsAccurate, &s.LoadBalancing}[task]
}

func effective(c int) int {
	return sym.IteInt(c < 1, 1, sym.IteInt(c > 1000, 1000, c))
}

func space(v float64) *hx.CentroidManager {
	return hx.NewCM([]*hx.Centroid{hx.Cluster([]hx.DataPoint{hx.PointAt(0, v)}, 1)}, 1, 0)
}

// cadences lets one task have an arbitrary cadence in lo..hi and all others the same one, and checks every round.
func cadences(lo, hi int, others []int, rounds int, spaces ...string) {
	s := hx.Node(self.ToStr(), 0)
	hx.Node(peer.ToStr(), 0)
	for _, ns := range spaces {
		hx.Install(s, ns, space(1))
	}
	x := &watch{}
	cfg := config(x, self)
	task := sym.Pick("task", 0, nTasks-1)
	rest := others[sym.Pick("others", 0, len(others)-1)]
	c := sym.Int("cadence", lo, hi)
	for i := 0; i < nTasks; i++ {
		*cadence(cfg, i) = rest
	}
	*cadence(cfg, task) = c
	want := map[int]int{}
	for i := 0; i < nTasks; i++ {
		want[i] = effective(rest)
	}
	want[task] = effective(c)
	x.run(cfg, rounds)
	for r := 0; r < rounds; r++ {
		for i := 0; i < nTasks; i++ {
			n := x.ran[r][i]
			due := r%want[i] == 0
			if n > 0 {
				sym.Assert(due, "task-runs-only-when-due")
				if i == task && r > 0 {
					sym.Reach("due-again")
				}
				if i != meta && i != balance {
					sym.Assert(n == len(spaces), "task-runs-once-for-each-namespace")
				}
			} else {
				sym.Assert(!due, "task-runs-when-due")
			}
		}
	}
}

// Cadence: the first 7 (13) rounds of the loop of a node with 1 namespace, any one task having any 64-bit cadence at all,
// the others unset, 3 or 1001.
//
//sym:prop=C16 preempt=0 order=0 maporder=0 reach=due-again
func Cadence() { cadences(-1<<63, 1<<63-1, []int{0, 3, 1001}, hx.Bound(7, 13), "a") }

// CadenceLate: the first 1003 (2005) rounds, any one task having any cadence of 998 or more, the others 1000.
//
//sym:prop=C16 preempt=0 order=0 maporder=0 reach=due-again steps=100000000
func CadenceLate() { cadences(998, 1<<63-1, []int{1000}, hx.Bound(1003, 2005), "a") }

// scene is which node has which namespaces.
type scene struct{ here, there, other []string }

var names = []string{"a", "b", "c"}

// arrange sets the network up: the node itself has 0..3 namespaces, one other has 0..2 or is unreachable, and one has 0..1; or,
// when small, 0..2, 0..1 and none.
func arrange(small bool) *scene {
	s, p := hx.Node(self.ToStr(), 0), hx.Node(peer.ToStr(), 0)
	q := hx.Node(third.ToStr(), 0)
	if small {
		z := &scene{here: names[:sym.Pick("here", 0, 2)], there: names[1 : 1+sym.Pick("there", 0, 1)]}
		for _, ns := range z.here {
			hx.Install(s, ns, space(1))
		}
		for _, ns := range z.there {
			hx.Install(p, ns, space(2))
		}
		return z
	}
	z := &scene{here: names[:sym.Pick("here", 0, 3)]}
	for _, ns := range z.here {
		hx.Install(s, ns, space(1))
	}
	first := sym.Pick("first", 0, 1)
	z.there = names[first:sym.Pick("there", first, 2)]
	for _, ns := range z.there {
		hx.Install(p, ns, space(2))
	}
	if sym.Pick("other", 0, 1) == 1 {
		z.other = names[1:2]
		hx.Install(q, "b", space(3))
	}
	if sym.Pick("reachable", 0, 1) == 0 {
		delete(netrpc.Nodes, peer.ToStr())
		z.there = nil
	}
	return z
}

// Requests: one round of the loop of a node with 0..3 namespaces in a network with two others, one having 0..2
// namespaces or being unreachable, one having 0..1: every task addresses the node itself, each of its namespaces once and no other, with the
// configured (arbitrary) amounts and bounds, and candidates for redistribution are the nodes having the namespace.
//
//sym:prop=C16,C13 preempt=0 order=0 maporder=0 reach=candidates
func Requests() { requests(0) }

// RequestsAfter: as Requests, in the round after one in which the node itself had 1 or 3 namespaces and another one none or 2, or
// was unreachable; the node itself then has 0..2, the other one 0..1 and the third none.
//
//sym:prop=C16,C13 preempt=0 order=0 maporder=0 reach=candidates
func RequestsAfter() { requests(1) }

func requests(last int) {
	var z *scene
	if last == 0 {
		z = arrange(false)
	} else {
		s, p := hx.Node(self.ToStr(), 0), hx.Node(peer.ToStr(), 0)
		hx.Install(s, "a", space(1))
		if sym.Pick("former", 0, 1) == 1 {
			hx.Install(s, "b", space(1))
			hx.Install(s, "c", space(1))
		}
		switch sym.Pick("former peer", 0, 2) {
		case 0:
			delete(netrpc.Nodes, peer.ToStr())
		case 1:
			hx.Install(p, "a", space(1))
			hx.Install(p, "b", space(1))
		}
	}
	x := &watch{}
	cfg := config(x, self, peer, third)
	cfg.LogLocalOnly = sym.Pick("localonly", 0, 1) == 1
	num := func(name string) int { return sym.Int(name, -1<<63, 1<<63-1) }
	cfg.DistributeDataPointsFastN, cfg.DistributeDataPointsAccurateN, cfg.DistributeDataPointsInternalN = num("fast"), num("accurate"), num("internal")
	cfg.SplitCentroidsMin, cfg.SplitCentroidsMax = num("smin"), num("smax")
	cfg.MergeCentroidsMin, cfg.MergeCentroidsMax = num("mmin"), num("mmax")
	seen := map[string]int{}
	x.begin = func(round int) {
		if round == last && last > 0 {
			z = arrange(true)
		}
	}
	candidates := func(ns string, list []string) {
		want := 0
		if hx.Has(z.here, ns) {
			want++
			sym.Assert(hx.Has(list, self.ToStr()), "own-address-among-candidates")
		}
		if hx.Has(z.there, ns) {
			want++
			sym.Assert(hx.Has(list, peer.ToStr()), "nodes-with-the-namespace-are-candidates")
			sym.Reach("candidates")
		}
		if hx.Has(z.other, ns) {
			want++
			sym.Assert(hx.Has(list, third.ToStr()), "nodes-with-the-namespace-are-candidates")
		}
		sym.Assert(len(list) == want, "only-nodes-with-the-namespace-are-candidates")
	}
	x.at = func(round, task int, addr string, args interface{}) {
		if round != last {
			return
		}
		ns := ""
		switch a := args.(type) {
		case eventloop.MetaData:
			got := len(a.Items)
			sym.Assert(got == 3 || got == 1 && cfg.LogLocalOnly, "metadata-of-the-nodes")
			own, ok := a.Items[self]
			sym.Assert(ok && len(own.LenDP) == len(z.here) && len(own.LenCentroids) == len(z.here), "own-metadata")
			return
		case string:
			ns = a
		case rpc.DistribDPArgs:
			ns = a.NameSpace
			candidates(ns, a.AddrOptions)
			if task == fast {
				sym.Assert(a.N == cfg.DistributeDataPointsFastN, "configured-amount")
			} else {
				sym.Assert(a.N == cfg.DistributeDataPointsAccurateN, "configured-amount")
			}
		case rpc.DistribDPIArgs:
			ns = a.NameSpace
			sym.Assert(a.N == cfg.DistributeDataPointsInternalN, "configured-amount")
		case rpc.SplitCentroidsArgs:
			ns = a.NameSpace
			if task == split {
				sym.Assert(sym.And(a.DPRangeMin == cfg.SplitCentroidsMin, a.DPRangeMax == cfg.SplitCentroidsMax), "configured-bounds")
			} else {
				sym.Assert(sym.And(a.DPRangeMin == cfg.MergeCentroidsMin, a.DPRangeMax == cfg.MergeCentroidsMax), "configured-bounds")
			}
		}
		if task == balance {
			return
		}
		sym.Assert(addr == self.ToStr(), "tasks-address-the-node-itself")
		sym.Assert(hx.Has(z.here, ns), "tasks-address-own-namespaces")
		seen[ns+string(rune('0'+task))]++
	}
	x.run(cfg, last+1)
	for _, ns := range z.here {
		for i := expire; i < balance; i++ {
			sym.Assert(seen[ns+string(rune('0'+i))] == 1, "every-namespace-once")
		}
	}
	sym.Assert(x.ran[last][meta] == 1, "metadata-logged-once")
}

// Stop: stopping the loop at any of the first 25 moments it sleeps: it starts nothing afterwards and ends.
//
//sym:prop=C16 preempt=0 order=0 maporder=0 reach=stopped
func Stop() {
	s := hx.Node(self.ToStr(), 0)
	hx.Install(s, "a", space(1))
	x := &watch{}
	cfg := config(x, self)
	moment := sym.Pick("moment", 0, 24)
	var stop func()
	running := 1
	x.at = func(round, task int, addr string, args interface{}) {
		sym.Assert(running == 1, "no-task-after-stop")
	}
	k := 0
	time.SleepFunc = func(d time.Duration) {
		sym.Idle()
		if k == moment {
			stop()
			running = 0
			sym.Reach("stopped")
		}
		k++
		sym.Assert(k < 60, "loop-ends-after-stop")
	}
	stop = eventloop.EventLoop(cfg)
	sym.WaitZero(&running)
	sym.Idle()
}

// StopRace: stopping the loop from outside at any moment of its first rounds: the loop ends, without unsynchronised
// memory accesses.
//
//sym:prop=C16 preempt=-1 race=1 por=1 reach=ended
func StopRace() {
	x := &watch{}
	cfg := config(x)
	for i := 1; i < nTasks; i++ {
		*cadence(cfg, i) = 1000
	}
	time.SleepFunc = func(d time.Duration) {
		if d == loopSleep {
			x.round++
			sym.Assume(x.round < 3)
			sym.Yield()
		}
	}
	stop := eventloop.EventLoop(cfg)
	sym.Yield()
	stop()
	sym.Idle()
	sym.Reach("ended")
}
