#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long JSON lines stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

CM = "pkg/kmeans/centroidmanager/cmanager.go"
CE = "pkg/kmeans/centroid/centroid.go"
SV = "pkg/kmeans/rpc/server.go"
CL = "pkg/kmeans/rpc/client.go"
RP = "pkg/kmeans/rpc/rpc.go"
SU = "pkg/kmeans/rpc/serverutils.go"
KN = "pkg/searchutils/knn.go"
MD = "pkg/mathutils/distance.go"
MV = "pkg/mathutils/vectools.go"
DPF = "pkg/kmeans/common/datapoint.go"
EL = "core/eventloop/eltask.go"

prop("C01", "A put is acknowledged exactly when the point was stored",
 "A put of a point, its vector made of finite numbers, into a node's namespace is acknowledged as successful exactly when the namespace afterwards holds that point, unmodified, one more time than before and everything else as before. It is refused, with nothing stored, exactly when the point has already expired or its vector length differs from that of the namespace's clusters. The first accepted put to an unused namespace creates the namespace.",
 ["inputs", "histories"],
 "every data point (vector incl. zero vectors, payload, expiry instant, expiry flag) and every namespace content: absent, empty, one or more clusters, some of them empty, auto-split thresholds",
 "The tests add a handful of fixed 2-d points and only look at accepted ones; none compares the acknowledgement with what was stored for refused, expired, zero or mismatching points.",
 [SV, CM, CE, DPF, KN, MD],
 [("KMeansServer.AddDataPoint", SV), ("CentroidManager.AddDataPoint", CM), ("Centroid.AddDataPoint", CE)],
 [("clusters", "points held per namespace", CM)],
 ["RPC reply of a put", "points reachable by draining the namespace"])

prop("C02", "Query results are genuine, distinct and bounded; draining is exact",
 "A query for n points on a node returns at most n points, each of them an unexpired point stored in the queried namespace, returned unmodified and no more often than it is stored. A draining query removes exactly the returned points, a non-draining query removes none; points that had expired may be dropped by either.",
 ["inputs", "histories"],
 "every query vector, n, drain flag, and every namespace content with any number of clusters, duplicate vectors, expired points in any position",
 "Tests query fixed clusters of at most three points per cluster with n=1 and never with expired or duplicate points in between, nor across clusters with drain.",
 [CM, CE, SV, CL],
 [("CentroidManager.KNNLookup", CM), ("Centroid.KNNLookup", CE), ("KMeansServer.KNNLookup", SV)],
 [("DataPoints", "points per cluster, removed by index after a search", CE)],
 ["query result", "contents of the namespace after the query"])

prop("C03", "A query is filled, nearest cluster first and nearest points first",
 "A node holding m unexpired points in a namespace, all comparable with the query vector, answers a query for n of them with min(n, m) points. The points are taken from the clusters in order of the similarity of their centres to the query, a further cluster being used only once the nearer ones cannot supply more. Within one cluster the returned points are the most similar ones, best first.",
 ["inputs", "histories"],
 "every query vector and n, every distribution of points over clusters including empty and fully expired clusters",
 "Tests ask for one point from well separated clusters, none of them empty; the fill and order guarantees quantify over all cluster contents and n.",
 [CM, CE, KN],
 [("CentroidManager.KNNLookup", CM), ("Centroid.KNNLookup", CE), ("KNNBrute", KN)],
 (), ["query result order and size"])

prop("C04", "Nearest/furthest-k search returns an exact best-k selection in order",
 "For every candidate sequence and every k >= 0, the k-nearest and k-furthest search returns the positions of min(k, number of comparable candidates) distinct candidates, sorted best first, such that no omitted comparable candidate scores strictly better than a returned one. Candidates that cannot be compared (comparison error, not-a-number score) are skipped without disturbing the positions of the others. Scores are finite and smaller in magnitude than the largest float.",
 ["inputs"],
 "every sequence of float64 scores (ties, negative, NaN), every comparison failure pattern, every k, both orders, all four exported prefabs",
 "Tests use one fixed list of vectors per prefab, without ties, failing candidates or k larger than the pool.",
 [KN],
 [("KNNBrute", KN), ("bubble", KN), ("resItems2Indexes", KN)],
 (), ["returned index slice"])

prop("C05", "Distance and similarity measures match their mathematical definition",
 "For vectors of equal length the Euclidean distance is the square root of the sum of squared component differences, hence zero exactly for equal vectors, symmetric and non-negative. The cosine similarity is the dot product over the product of norms, lies in [-1, 1], is symmetric, does not change under positive scaling and is 0, never not-a-number, when either vector is zero. Vectors of different lengths give an error instead of a number.",
 ["inputs"],
 "all pairs of vectors with finite components whose squares neither overflow nor underflow, up to rounding",
 "There is no test for the measures; the searches using them are tested with vectors for which several wrong measures give the same order.",
 [MD],
 [("EuclideanDistance", MD), ("CosineSimilarity", MD)],
 (), ["returned number and error"])

prop("C06", "Maintenance never loses, duplicates or alters an unexpired point",
 "Expiry sweeps, memory trimming, splitting, merging, internal redistribution and centre recomputation leave the collection of unexpired points of a namespace exactly as it was: each keeps its vector, payload and expiry, none disappears and none is duplicated. Redistribution to an explicit list of receivers moves points, so that each ends up in exactly one place.",
 ["inputs", "histories"],
 "every namespace content (clusters of any size incl. empty, expired points anywhere, duplicates), every operation argument, every outcome of the similarity search",
 "Tests run each operation once on two or three fixed clusters and check counts, with no expired point involved; conservation is a statement about all contents, arguments and operation sequences.",
 [CM, CE],
 [("CentroidManager.MergeCentroids / SplitCentroids / MemTrim / Expire / DistributeDataPointsInternal / DistributeDataPoints / MoveVector", CM), ("Centroid.DistributeDataPoints / MemTrim / Expire / MoveVector", CE)],
 [("Centroids", "clusters of a namespace", CM), ("DataPoints", "points of a cluster", CE)],
 ["contents of the namespace before and after"])

prop("C07", "A cluster's centre is the mean of its points",
 "After every operation on a non-empty cluster (adding, removing, draining, expiring, looking up with or without removal, trimming, redistributing, merging into it, splitting it off) its centre equals, up to rounding, the component-wise mean of the points it then holds, provided it did before. An operation that leaves a cluster's points unchanged leaves its centre unchanged.",
 ["inputs", "histories"],
 "every cluster content satisfying the invariant, every operation and argument: one inductive step from an arbitrary valid state, so histories of any length",
 "Tests check the centre after single fixed operations, mostly on two points; nothing is checked with expired points being dropped on the way or after trimming.",
 [CE, MV],
 [("addDataPoint / rmDataPoint incremental mean", CE), ("VecMean", MV)],
 [("vec", "centre of a cluster", CE)],
 ["Vec() of the cluster"])

prop("C08", "A namespace's centre is the mean of its cluster centres",
 "After every operation on a namespace that holds at least one cluster (puts with or without automatic split, drains, queries, expiry, trimming, splitting, merging, internal redistribution, handing out or taking in clusters) the namespace's centre equals, up to rounding, the mean of the centres of the clusters it then has, provided it did before. The centre never becomes infinite or not-a-number for finite data.",
 ["inputs", "histories"],
 "every namespace content satisfying the invariant, every operation and argument, every outcome of the similarity search; one inductive step",
 "Tests compare the automatically adjusted centre with the recomputed one on one fixed example per operation, chosen such that several wrong updates agree, and never after a split, or after removing the last cluster.",
 [CM, MV, SV],
 [("prepVecUpdate", CM), ("CentroidManager.MoveVector", CM), ("NearestCentroids drain, MemTrim and MergeCentroids centre adjustment", CM)],
 [("vec", "centre of a namespace on a node", CM)],
 ["Vec() of the namespace"])

prop("C09", "A drain hands out the requested number of points, evenly and worst-first",
 "Draining n >= 0 points from a namespace or cluster without expired points removes and returns exactly min(n, stored) points, and never any expired point otherwise. From a namespace, the numbers taken from any two clusters differ by at most one unless the smaller contributor has been emptied. An ordered drain takes from each cluster those points that are furthest from its centre.",
 ["inputs", "histories"],
 "every n including 0 and more than stored, every distribution of points over clusters, every iteration order of internal tables",
 "Tests drain one or two points from two or three clusters; n=0, exhaustion and uneven clusters are not sampled.",
 [CM, CE, KN],
 [("centroidDataPointPortions", CM), ("DrainOrdered/DrainUnordered", CM), ("DrainOrdered/DrainUnordered", CE)],
 (), ["returned points", "remaining contents"])

prop("C10", "Redistribution between nodes conserves data under connection failures",
 "When a node redistributes up to n of its points to a list of candidate nodes, fast or accurate, every unexpired point is afterwards stored exactly once over all nodes, in the same namespace and unmodified, whichever of the candidates are unreachable, lack the namespace or refuse the point, and also when the list is empty or contains the node itself. No more than n points move, and none leaves when no candidate can take it; as many as asked move when there are that many and a comparable candidate takes them, each to the most similar candidate that takes it.",
 ["inputs", "fault_sequences", "schedules"],
 "every n, every content of the nodes, every pattern of connection failures per call, every arrival order of the candidates' answers",
 "Tests run the redistribution on a healthy network with fixed points; failure patterns, refusals and empty candidate lists are not sampled.",
 [SV, SU, CL, CM],
 [("DistributeDataPointsFast / DistributeDataPointsAccurate", SV), ("distributeDP", SV), ("fetchVecs / collect", SU)],
 (), ["contents of all nodes before and after"])

prop("C11", "Stealing clusters conserves data and reports truthfully",
 "When a node takes clusters over from another node, every unexpired point stored on the two nodes before is stored afterwards exactly once in the same namespace, if no reply is lost. The taking stops once the requested number of points is reached or the other node has no comparable cluster left (taking over from itself moves nothing), the reported number is the number of points that moved, and the success flag is false exactly when the other node could not be asked or answered with an error.",
 ["inputs", "fault_sequences"],
 "every limit, every content of both nodes (several clusters, empty clusters, namespace missing on either side), every failure point of the connection before a request is delivered",
 "Tests steal once between two nodes with fixed single-point clusters.",
 [SV, CL, CM],
 [("StealCentroid", SV), ("kmeansClient.NearestCentroids", CL), ("CentroidManager.NearestCentroids", CM)],
 (), ["contents of both nodes", "reported count and flag"])

prop("C12", "Concurrent requests to a node behave as if run one at a time",
 "Whatever the interleaving of concurrent requests to one node, the outcome (replies and stored points) equals that of some one-at-a-time order of the same requests; in particular no acknowledged put is lost, including puts that both create the same namespace, and no point is handed out twice. A reply is a consistent snapshot that later requests do not change, and no request leaves a lock held or deadlocks another. A take-over or redistribution involving another node counts as a series of requests.",
 ["schedules", "inputs"],
 "every interleaving, at lock granularity, of two or three concurrent requests (puts, draining and plain queries, drains, cluster hand-outs, merges, trims, metadata) on existing and new namespaces",
 "Tests issue requests one after the other; the schedules in which two requests overlap are not exercised.",
 [RP, SV],
 [("CManagerTable.Access / CManagerSlot.Access locking", RP), ("AddDataPoint namespace creation", SV), ("StealCentroid namespace creation", SV)],
 [("slots", "namespace table guarded by a mutex", RP)],
 ["replies", "final contents"])

prop("C13", "Namespaces are isolated from each other",
 "An operation addressed to one namespace neither reads, returns, changes, moves nor removes any point, cluster or centre of another namespace, on the addressed node or any other. Requests other than puts and take-overs on a namespace unknown to the node report that, and do not create it.",
 ["inputs", "histories"],
 "every pair of distinct namespaces, every request type and argument, every content",
 "All tests use a single namespace.",
 [SV, RP, CL, "core/nodes/vecs.go", "core/dps/getdps.go", "core/dps/putdps.go"],
 [("CManagerTable.Access", RP), ("handleNamespaceErr", SV)],
 (), ["contents and replies of the other namespace"])

prop("C14", "Expired points are never served, unexpired ones never expire",
 "A point with expiry enabled whose expiry instant lies before the start of a request is never accepted, stored again, returned or moved by that request; a point with expiry disabled, or whose instant lies after the end of the request, is never dropped for being expired. An expiry sweep or memory trim removes every point that expired before it started.",
 ["inputs", "schedules"],
 "every assignment of expiry flags and instants, every progress of the clock between and during requests",
 "Tests use one expired point and real sleeps; instants that fall between two clock readings of the same request are not sampled.",
 [DPF, CE, CM],
 [("DataPoint.Expired", DPF), ("dataPointVecGenerator", CE), ("Expire / MemTrim / DrainUnordered", CE)],
 (), ["returned points", "contents after the request"])

prop("C15", "No request can crash a node or a client",
 "Every request a client can send to a node is answered with a result or an error, without a panic or an endless loop in the node: for any numbers (zero, negative, larger than what is stored), any vectors (empty, zero, of differing lengths), unknown namespaces and any stored contents including emptied clusters and namespaces. The same holds for the client library interpreting any reply a node can send.",
 ["inputs", "histories"],
 "every request type with arbitrary argument values, every content",
 "Tests send well-formed requests with positive numbers and matching vectors only.",
 [SV, CL, CM, CE, KN, MV],
 [("request handlers", SV), ("bounds guards in CentroidManager/Centroid/KNNBrute", CM)],
 (), ["panics", "termination"])

prop("C16", "Background tasks run at their configured cadence for any configuration",
 "For every configuration, including unset or out-of-range cadences, the maintenance loop never fails; a task with cadence c (values clamped to 1..1000) runs exactly in those loop rounds whose number is a multiple of c, and in round 0. When due, a maintenance task is carried out once for every namespace of the node itself, with the configured amounts and bounds, redistribution being offered the nodes having that namespace. Once stopped, the loop starts no further task.",
 ["configurations", "schedules"],
 "every integer cadence for each task, every round, every point at which stop is called",
 "The event loop has no test that runs.",
 ["core/eventloop/el.go", EL, "core/eventloop/cfg.go"],
 [("withSkip", EL), ("EventLoopTaskSkipConfig.clamp", "core/eventloop/cfg.go"), ("elStep / EventLoop", "core/eventloop/el.go")],
 (), ["requests the loop issues per round"])

prop("C17", "Load balancing only pulls from above-average to below-average nodes",
 "A load-balancing round of a node asks for clusters only for itself, only from other nodes and only while it holds fewer points of the namespace than the mean over the nodes having it that report their number; the amount asked for is positive and never more than what it lacks to the mean. It asks a node only if that node would still hold at least the mean after giving the asked amount, unless it is the only one having the namespace.",
 ["inputs", "configurations"],
 "all point counts of the nodes, all network sizes within the bound, namespace present or absent on the local node, every iteration order",
 "The event loop has no test that runs.",
 [EL, "core/eventloop/eltaskutils.go"],
 [("eltLoadBalancing", EL), ("fetchRemoteLenDPs", "core/eventloop/eltaskutils.go")],
 (), ["take-over requests issued"])

prop("C18", "Node ranking lists each usable node once, best first",
 "Ranking candidate nodes for a vector yields exactly those nodes that answered with a comparable centre for the namespace, each once, in order of the similarity of the centre that very node reported, whatever the order in which the answers arrive. Unreachable nodes and nodes lacking the namespace are left out without affecting the others.",
 ["inputs", "schedules", "fault_sequences"],
 "every set of reported centres, every arrival order, every pattern of failures, fast and accurate variant",
 "Tests use three healthy local nodes whose answers arrive in whatever order the scheduler gives.",
 ["core/nodes/nodes.go", "core/nodes/vecs.go"],
 [("bestFitNodes", "core/nodes/nodes.go"), ("fetchVecs / collect / intoAddrs", "core/nodes/vecs.go")],
 (), ["returned address list"])

prop("C19", "Cross-node put stores once; cross-node get gathers up to n",
 "A put through the network reports success exactly when one node stored the point, and then exactly one did; it fails only if no candidate could take it. A get for n gathers at most n points, asking the candidate nodes best first until n are found and thus returning min(n, available on the reachable candidates); with drain each returned point is gone from its node and no other is, and an unreachable node does not keep the others from being asked. The fast and accurate variants consider the nodes that answer with a comparable centre, and a put goes to the best of them that takes it. Candidate addresses are distinct and no reply is lost.",
 ["inputs", "fault_sequences", "schedules"],
 "every n, drain flag, content, failure pattern and random node order, for the random, fast and accurate variants",
 "Tests use three healthy nodes with one point each and n of one or two.",
 ["core/dps/dps.go", "core/dps/putdps.go", "core/dps/getdps.go", "core/nodes/nodes.go"],
 [("putDataPoint", "core/dps/putdps.go"), ("getDataPoints", "core/dps/getdps.go"), ("shuffleAddrs", "core/dps/dps.go")],
 (), ["reported success", "points returned", "contents of all nodes"])

prop("C20", "The JSON API stores and returns exactly what the caller sent",
 "A put request stores the given vector, payload, expiry and expiry flag unchanged under the given namespace, and the reply is a success status exactly when it was stored. A query request is carried out with exactly the given namespace, vector, n and drain flag, and the reply lists the found points with all four fields unchanged in best-first node order; a body that is not valid JSON for the request is answered as a bad request and has no effect.",
 ["inputs", "fault_sequences"],
 "every field value, accurate or not, absent fields, malformed bodies, every node failure pattern",
 "The API's test posts one point and is not part of the reliable suite; nothing compares the fields.",
 ["core/api/handler.go", "core/api/conv.go", "core/api/api.go"],
 [("putDataPoint / queryDataPoint", "core/api/handler.go"), ("toDataPoint / DataPointsToDPs", "core/api/conv.go")],
 (), ["HTTP status and body", "contents of the nodes"])

prop("C21", "Split and merge act on exactly the selected clusters",
 "Splitting divides each selected cluster with at least two points into two whose sizes differ by at most one, and leaves the others alone; a put that brings a cluster to the configured threshold of two or more splits it, so that clusters stay below it. Merging absorbs, into each selected cluster that was not absorbed itself, its nearest other clusters one by one until it is no longer selected or none is left; absorbed clusters disappear and all others keep their points. Over the network a cluster is selected if its point count lies strictly between the given bounds.",
 ["inputs", "histories"],
 "every cluster size distribution, bounds, threshold, and similarity order",
 "Tests split one cluster of four and merge one triple; the selection and order statements quantify over all distributions.",
 [CM, SV],
 [("SplitCentroids / splitCentroid", CM), ("MergeCentroids", CM), ("AddDataPoint threshold split", CM)],
 (), ["clusters and their points before and after"])

prop("C22", "Reported namespaces and counts match the stored contents",
 "The namespaces a node lists are exactly those that exist on it, each once; the point count it reports for a namespace equals the number of points stored there, and its metadata report lists for every namespace exactly that count and the number of its clusters. Reading them changes nothing. The monitoring data the maintenance loop hands to its logger are these reports of the node itself or, as configured, of all nodes.",
 ["inputs", "histories"],
 "every set of namespaces and contents, including emptied ones",
 "Tests compare counts for one namespace with one or two points; the metadata request has no test.",
 [SV, RP, CM],
 [("Namespaces / LenDP / Meta", SV), ("LenDP", CM)],
 (), ["replies"])

prop("C23", "Vector helpers compute component-wise and never modify their inputs",
 "Vector addition, subtraction, scaling and averaging return the component-wise result in a fresh vector of the same length and leave their inputs untouched; addition, subtraction and averaging of vectors of different lengths report failure. Equality and membership tests hold exactly when all components are equal.",
 ["inputs"],
 "all vectors up to the bounded length, all scalars, all float64 values for equality, arithmetic up to rounding",
 "The package has no tests of its own.",
 [MV],
 [("VecAdd / VecSub / VecMulScalar / VecDivScalar / VecMean / VecEq / VecIn / Vec", MV)],
 (), ["returned vectors", "inputs after the call"])

prop("C24", "Arbiter result helpers summarise all nodes' answers",
 "The error summary of an arbitration round reports an error exactly when at least one node had one, and then a node together with that node's own error. The status summary is positive exactly when every node reported the given status.",
 ["inputs"],
 "every assignment of errors and status codes to nodes, every iteration order",
 "The helpers are used with all-success maps only.",
 ["pkg/arbiter/arbiter.go"],
 [("ArbErrs.CheckAll / ArbStats.UniformStatus", "pkg/arbiter/arbiter.go")],
 (), ["return values"])

prop("C25", "Arbiter election reaches at most one arbiter per session",
 "In every voting session all members that accept an arbiter accept the same one, whatever the votes and message delays, and an arbiter is no longer accepted after its term.",
 ["schedules", "fault_sequences", "histories"],
 "every vote, message delay, loss and clock progress",
 "Votes are random and the tests that run elections are flaky (left out of the reliable suite).",
 ["pkg/arbiter/arbiter.go"],
 [("go-narb session members", "github.com/crunchypi/go-narb/apsa")],
 (), ["arbiter accepted by each node"])

prop("C26", "Stopping a node's server ends service on all its connections",
 "A node's started server serves the requests of every connection. After it has been stopped it accepts no further connection and serves no further request on connections opened earlier; its address is free for another server.",
 ["schedules", "fault_sequences"],
 "every number of open connections and every moment of stopping",
 "Tests stop the servers only at their very end.",
 [RP],
 [("StartListen", RP)],
 (), ["requests sent after stop"])

prop("C27", "The network works itself into an accurate placement over time",
 "With the background loop running on all nodes and no further changes, points migrate until each is held by a node whose centre is nearest to it, and the distribution of points stays balanced.",
 ["histories", "schedules"],
 "every initial placement, every fair schedule of the loops",
 "A nine-minute monitoring loop exists, but is not run and has no pass criterion.",
 [EL, SV],
 [("event loop tasks", EL)],
 (), ["placement in the limit"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
