package loop

import (
	netrpc "net/rpc"
	"trypo/core/eventloop"
	"trypo/pkg/kmeans/rpc"
	"trypo/zzverif/hx"
	"trypo/zzverif/sym"
)

// LoopMeta: the monitoring data the loop hands to its logger in a network of 3 nodes, the last possibly unreachable, each with
// 0..2 namespaces of 0..2 clusters of 0..2 points, 2 (3) altogether, of the node itself or of all nodes,
// in a round before which every node got another namespace and further points.
//
//sym:prop=C22 preempt=0 order=0 maporder=0 reach=own,all,unreachable
func LoopMeta() {
	w := hx.NewWorld(1)
	w.Dom = [][]float64{{1}}
	addrs := []eventloop.Addr{self, peer, third}
	var nodes []*rpc.KMeansServer
	left := hx.Bound(2, 3)
	for _, addr := range addrs {
		s := hx.Node(addr.ToStr(), 0)
		nodes = append(nodes, s)
		for _, ns := range names[:2][:sym.Pick("namespaces", 0, 2)] {
			cm := w.State(hx.Shape{MaxC: hx.Bound(1, 2), MaxP: left})
			left -= len(hx.All(cm))
			hx.Install(s, ns, cm)
		}
	}
	if sym.Pick("reachable", 0, 1) == 0 {
		delete(netrpc.Nodes, third.ToStr())
	}
	x := &watch{}
	cfg := config(x, addrs...)
	for i := 1; i < nTasks; i++ {
		*cadence(cfg, i) = 1000
	}
	cfg.LogLocalOnly = sym.Pick("localonly", 0, 1) == 1
	x.at = func(round, task int, addr string, args interface{}) {
		m, ok := args.(eventloop.MetaData)
		if !ok || round == 0 {
			return
		}
		if cfg.LogLocalOnly {
			sym.Assert(len(m.Items) == 1, "data-of-the-node-itself-only")
			sym.Reach("own")
		} else {
			sym.Assert(len(m.Items) <= len(addrs), "data-of-the-nodes-only")
			sym.Reach("all")
		}
		for i, addr := range addrs {
			it, ok := m.Items[addr]
			if !ok {
				sym.Assert(cfg.LogLocalOnly && i > 0 || netrpc.Nodes[addr.ToStr()] == nil, "data-of-every-node")
				continue
			}
			if netrpc.Nodes[addr.ToStr()] == nil {
				sym.Assert(len(it.LenDP) == 0 && len(it.LenCentroids) == 0, "no-data-of-an-unreachable-node")
				sym.Reach("unreachable")
				continue
			}
			spaces := hx.Spaces(nodes[i])
			sym.Assert(len(it.LenDP) == len(spaces) && len(it.LenCentroids) == len(spaces), "data-of-each-namespace")
			for _, ns := range spaces {
				cm := hx.Space(nodes[i], ns)
				n, ok := it.LenDP[ns]
				sym.Assert(ok && n == len(hx.All(cm)), "counts-points")
				n, ok = it.LenCentroids[ns]
				sym.Assert(ok && n == len(cm.Centroids), "counts-clusters")
			}
		}
	}
	x.begin = func(round int) {
		for i, s := range nodes { // every node has got a namespace and points since the first round
			if round == 1 {
				hx.Install(s, "c", space(1))
				for k := 0; k <= i; k++ {
					ok := false
					sym.Assert(s.AddDataPoint(rpc.AddDataPointArgs{NameSpace: "a", DP: hx.PointAt(20+k, 1)}, &ok) == nil && ok, "more points")
				}
			}
		}
	}
	x.run(cfg, 2)
	sym.Assert(x.ran[1][meta] == 1, "data-once-a-round")
}
