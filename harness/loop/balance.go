package loop

import (
	netrpc "net/rpc"
	"time"
	"trypo/core/eventloop"
	"trypo/pkg/kmeans/rpc"
	"trypo/zzverif/hx"
	"trypo/zzverif/sym"
)

// stub is a node of which only the number of points per namespace matters.
type stub struct {
	addr string
	n    map[string]int // points per namespace
	mute bool           // does not report its numbers
	x    *network
}

type network struct {
	self   *stub
	nodes  []*stub
	former bool // in a round before the one of interest
}

type silent struct{}

func (silent) Error() string { return "no answer" }

func (s *stub) Namespaces(_ int, resp *[]string) error {
	for _, ns := range []string{"a", "b"} {
		if _, ok := s.n[ns]; ok {
			*resp = append(*resp, ns)
		}
	}
	return nil
}

func (s *stub) LenDP(ns string, resp *int) error {
	if s.mute {
		return silent{}
	}
	*resp = s.n[ns]
	return nil
}

func (s *stub) Meta(_ int, resp *rpc.MetaResp) error                  { return nil }
func (s *stub) Expire(ns string, _ *int) error                        { return nil }
func (s *stub) MemTrim(ns string, _ *int) error                       { return nil }
func (s *stub) MergeCentroids(a rpc.SplitCentroidsArgs, _ *int) error { return nil }
func (s *stub) SplitCentroids(a rpc.SplitCentroidsArgs, _ *int) error { return nil }
func (s *stub) DistributeDataPointsInternal(a rpc.DistribDPIArgs, _ *int) error {
	return nil
}
func (s *stub) DistributeDataPointsFast(a rpc.DistribDPArgs, _ *int) error     { return nil }
func (s *stub) DistributeDataPointsAccurate(a rpc.DistribDPArgs, _ *int) error { return nil }

// StealCentroid checks a request to take points over and carries out any part of it, or more than was asked for.
func (s *stub) StealCentroid(a rpc.StealCentroidArgs, r *rpc.StealCentroidsResp) error {
	x := s.x
	sym.Assert(s == x.self, "asks-only-for-itself")
	sym.Assert(a.FromAddr != s.addr, "asks-only-other-nodes")
	total, k, have := 0, 0, 0
	var from *stub
	for _, o := range x.nodes {
		n, ok := o.n[a.NameSpace]
		if !ok {
			continue
		}
		have++
		if o.addr == a.FromAddr {
			from = o
		}
		if !o.mute {
			total += n
			k++
		}
	}
	sym.Assert(from != nil, "asks-nodes-having-the-namespace")
	sym.Assert(!from.mute, "asks-nodes-that-report")
	asked, lacks, other := a.TransferDPLimit, s.n[a.NameSpace], from.n[a.NameSpace]
	sym.Assert(asked > 0, "amount-positive")
	sym.Assert(lacks*k < total, "only-below-the-mean")
	sym.Assert((lacks+asked)*k <= total, "amount-within-what-is-lacking")
	if have > 1 {
		sym.Assert((other-asked)*k >= total, "other-node-stays-at-the-mean")
	}
	n := asked // all of it in a former round
	if !x.former {
		n = sym.Int("moved", 0, most)
		sym.Assume(n <= other)
	}
	s.n[a.NameSpace], from.n[a.NameSpace] = lacks+n, other-n
	sym.Reach("asked")
	r.TransferredN = n
	r.OK = true
	return nil
}

var most = hx.Bound(120, 300) // points per namespace and node

// balanced runs one round on node 1 of a network of up to size nodes.
func balanced(size int, absent bool, mute int, two bool, former []int) {
	x := &network{}
	cfg := config(&watch{})
	for i := 0; i < size; i++ {
		a := eventloop.Addr{IP: "n", Port: string(rune('1' + i))}
		s := &stub{addr: a.ToStr(), n: map[string]int{"a": sym.Int("n", 0, most)}, mute: i > 0 && i <= mute, x: x}
		x.nodes = append(x.nodes, s)
		cfg.RemoteAddrs = append(cfg.RemoteAddrs, a)
		netrpc.Nodes[s.addr] = s
	}
	x.self = x.nodes[0]
	x.self.mute = mute > 0 && sym.Pick("selfmute", 0, 1) == 1
	if absent {
		delete(x.self.n, "a")
	}
	if two {
		// A second namespace, with fixed numbers for which the balance differs from node to node.
		turn := sym.Pick("turn", 0, 2)
		for i, s := range x.nodes {
			s.n["b"] = []int{30, 90, 3}[(i+turn)%3]
		}
	}
	var later []stub
	for i := range former {
		s := x.nodes[i]
		x.former = true
		later = append(later, *s)
		s.n, s.mute = map[string]int{"a": former[i]}, false
	}
	round := 0
	var stop func()
	running := 1
	time.SleepFunc = func(d time.Duration) {
		sym.Idle()
		if d == loopSleep {
			if round == 1 && former != nil {
				for i, s := range x.nodes {
					s.n, s.mute = later[i].n, later[i].mute
				}
				former, x.former = nil, false
				return
			}
			if round == 1 {
				stop()
				running = 0
			}
			round++
		}
	}
	stop = eventloop.EventLoop(cfg)
	sym.WaitZero(&running)
	sym.Idle()
}

// Balance: one load-balancing round in a network of 2..3 (4) nodes with up to 120 (300) points each, the node itself having the
// namespace or not; a take-over reports any number of moved points.
//
//sym:prop=C17 preempt=0 order=0 reach=asked
func Balance() {
	balanced(2+sym.Pick("others", 0, hx.Bound(1, 2)), sym.Pick("absent", 0, 1) == 1, 0, false, nil)
}

// BalanceAfter: a round after one in which the 2..3 nodes had any other numbers of points; in the later round the
// node may not have the namespace and one or two nodes may not report their number.
//
//sym:prop=C17 preempt=0 order=0 maporder=0 reach=asked
func BalanceAfter() {
	size := sym.Pick("size", 2, 3)
	var former []int
	for i := 0; i < size; i++ {
		former = append(former, sym.Int("former n", 0, most))
	}
	change := sym.Pick("change", 0, 2)
	balanced(size, change == 1, change/2, false, former)
}

// BalanceMute: a network of 5 nodes, two of which do not report their number of points.
//
//sym:prop=C17 preempt=0 order=0 maporder=0 reach=asked
func BalanceMute() { balanced(5, false, 2, false, nil) }

// BalanceTwo: a network of 3 nodes with two namespaces, which are balanced independently.
//
//sym:prop=C17,C13 preempt=0 order=0 maporder=0 reach=asked
func BalanceTwo() {
	most = 20
	balanced(3, false, 0, true, nil)
}

// BalanceNone: no node reports its number of points, or only the node itself or one other does.
//
//sym:prop=C17,C16 preempt=0 order=0
func BalanceNone() {
	size := sym.Pick("size", 1, 3)
	balanced(size, false, 2, false, nil)
}
