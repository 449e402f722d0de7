From a0690e9c1a9d124a548a21164a64142963f5f627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:58 +0000
Subject: [PATCH 01/23] fix: keep a cluster's centre at the mean of its points
 when trimming memory

Centroid.MemTrim drained every point to rebuild the slice; rmDataPoint moved
the centre along, so that it ended up at the vector of the last point.
---
 pkg/kmeans/centroid/centroid.go | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/pkg/kmeans/centroid/centroid.go b/pkg/kmeans/centroid/centroid.go
index 98819de..3b2946c 100644
--- a/pkg/kmeans/centroid/centroid.go
+++ b/pkg/kmeans/centroid/centroid.go
@@ -180,16 +180,13 @@ func (c *Centroid) Expire() {
 // LenDP returns the number of DataPoints stored internally.
 func (c *Centroid) LenDP() int { return len(c.DataPoints) }
 
-// MemTrim creates a new internal DataPoint slice where capacity equals len.
+// MemTrim removes expired DataPoints and creates a new internal DataPoint slice
+// where capacity equals len. The internal vector follows the removed DataPoints
+// and is otherwise unchanged.
 func (c *Centroid) MemTrim() {
-	dps := make([]common.DataPoint, 0)
-	// Using DrainUnordered because it removes expired dps with c.rmDataPoint,
-	// which adjusts c.vec as well. Also, not using len(c.DataPoints) as arg
-	// to c.DrainUnordered(...) because that would create a slice of that cap,
-	// which would make this method (MemTrim) pointless, as it reduces cap.
-	for len(c.DataPoints) > 0 {
-		dps = append(dps, c.DrainUnordered(1)...)
-	}
+	c.Expire()
+	dps := make([]common.DataPoint, len(c.DataPoints))
+	copy(dps, c.DataPoints)
 	c.DataPoints = dps
 }
 
-- 
2.43.0


From 2c33ddd0a56dd0d1c71225c52e8d3d70077be076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:14 +0000
Subject: [PATCH 02/23] fix: take the root of the summed squares in
 EuclideanDistance

---
 pkg/mathutils/distance.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/mathutils/distance.go b/pkg/mathutils/distance.go
index f618267..9690876 100644
--- a/pkg/mathutils/distance.go
+++ b/pkg/mathutils/distance.go
@@ -19,9 +19,9 @@ func EuclideanDistance(v1, v2 []float64) (float64, error) {
 	}
 	var r float64
 	for i := 0; i < len(v1); i++ {
-		r += math.Sqrt((v1[i] - v2[i]) * (v1[i] - v2[i]))
+		r += (v1[i] - v2[i]) * (v1[i] - v2[i])
 	}
-	return r, nil
+	return math.Sqrt(r), nil
 }
 
 // norm computes the norm (math) of a vec.
-- 
2.43.0


From 219be1b0b4110d6fa1a6429b07c6e196deacab2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:19 +0000
Subject: [PATCH 03/23] fix: define the cosine similarity with a zero vector as
 0

---
 pkg/mathutils/distance.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/mathutils/distance.go b/pkg/mathutils/distance.go
index 9690876..82a903b 100644
--- a/pkg/mathutils/distance.go
+++ b/pkg/mathutils/distance.go
@@ -40,7 +40,7 @@ func CosineSimilarity(vec1, vec2 []float64) (float64, error) {
 		return 0, errors.New("similarity measurement attempt failed: vectors are of different lengths")
 	}
 	norm1, norm2 := norm(vec1), norm(vec2)
-	if norm1 == 0 && norm2 == 0 {
+	if norm1 == 0 || norm2 == 0 {
 		return 0, nil
 	}
 	var dot float64
-- 
2.43.0


From 65a96916d3bc9c52d651bca0957c09615e010d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:15 +0000
Subject: [PATCH 04/23] fix: recompute a namespace's centre when trimming
 removes clusters

---
 pkg/kmeans/centroidmanager/cmanager.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/pkg/kmeans/centroidmanager/cmanager.go b/pkg/kmeans/centroidmanager/cmanager.go
index d37fe8b..ff91860 100644
--- a/pkg/kmeans/centroidmanager/cmanager.go
+++ b/pkg/kmeans/centroidmanager/cmanager.go
@@ -218,6 +218,14 @@ func (cm *CentroidManager) prepVecUpdate(v1 []float64) func([]float64) {
 	}
 }
 
+// meanVec sets cm.vec to the mean of the vectors of all cm.Centroids. It is left
+// as it is when there are none.
+func (cm *CentroidManager) meanVec() {
+	if vec, ok := mathutils.VecMean(cm.centroidVecGenerator()); ok {
+		cm.vec = vec
+	}
+}
+
 // Vec exposes the internal vector of a CentroidManager.
 func (km *CentroidManager) Vec() []float64 { return km.vec }
 
@@ -352,17 +360,10 @@ func (cm *CentroidManager) MemTrim() {
 		if centroid.LenDP() != 0 {
 			centroids = append(centroids, centroid)
 		}
-
-		// Will not be included in new centroids slice, so effectively deleted.
-		// In this case, the internal vec must be updated a bit differently
-		// than what cm.prepVecUpdate does. Note bounds check.
-		if centroid.LenDP() == 1 && len(cm.Centroids) > 1 {
-			cm.vec = mathutils.VecMulScalar(cm.vec, float64(len(cm.Centroids)))
-			cm.vec, _ = mathutils.VecSub(cm.vec, centroid.Vec())
-			cm.vec = mathutils.VecDivScalar(cm.vec, float64(len(cm.Centroids)-1))
-		}
 	}
 	cm.Centroids = centroids
+	// Done in bulk here, because cm.prepVecUpdate does not support deletion.
+	cm.meanVec()
 }
 
 // MoveVector sets the internal vector to the average of all internal Centroids.
-- 
2.43.0


From 5f169fda26ebfc02a8fe02ee8b29c6f3ffc52d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:02 +0000
Subject: [PATCH 05/23] fix: follow cluster splits with the namespace's centre

---
 pkg/kmeans/centroidmanager/cmanager.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/kmeans/centroidmanager/cmanager.go b/pkg/kmeans/centroidmanager/cmanager.go
index ff91860..b7e70eb 100644
--- a/pkg/kmeans/centroidmanager/cmanager.go
+++ b/pkg/kmeans/centroidmanager/cmanager.go
@@ -274,6 +274,7 @@ func (cm *CentroidManager) AddDataPoint(dp common.DataPoint) bool {
 		newCentroid, splitOK := cm.splitCentroid(indexes[0], cm.centroidDPThreshold/2)
 		if splitOK {
 			cm.Centroids = append(cm.Centroids, newCentroid)
+			cm.meanVec()
 		}
 	}
 	return true
@@ -513,6 +514,7 @@ func (cm *CentroidManager) SplitCentroids(split func(*centroid.Centroid) bool) {
 		}
 	}
 	cm.Centroids = append(cm.Centroids, newCentroids...)
+	cm.meanVec()
 }
 
 // MergeCentroids iterates through all internal Centroids and passes them to
-- 
2.43.0


From 80fe2a93fad4f0531940501594d8852eb1f5c2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:06 +0000
Subject: [PATCH 06/23] fix: keep the namespace's centre finite when its last
 cluster is handed out

---
 pkg/kmeans/centroidmanager/cmanager.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/kmeans/centroidmanager/cmanager.go b/pkg/kmeans/centroidmanager/cmanager.go
index b7e70eb..70f6a6f 100644
--- a/pkg/kmeans/centroidmanager/cmanager.go
+++ b/pkg/kmeans/centroidmanager/cmanager.go
@@ -482,8 +482,9 @@ func (cm *CentroidManager) NearestCentroids(vec []float64, n int, drain bool) (
 		sort.Ints(indexes)
 		for i := len(indexes) - 1; i > -1; i-- {
 			j := indexes[i] // Abbreviation for actual centroid index.
-			// Auto-adjust internal vec.
-			if len(cm.Centroids) > 0 {
+			// Auto-adjust internal vec. Nothing to adjust to when deleting
+			// the last one (zero div).
+			if len(cm.Centroids) > 1 {
 				cm.vec = mathutils.VecMulScalar(cm.vec, float64(len(cm.Centroids)))
 				cm.vec, _ = mathutils.VecSub(cm.vec, cm.Centroids[j].Vec())
 				cm.vec = mathutils.VecDivScalar(cm.vec, float64(len(cm.Centroids)-1))
-- 
2.43.0


From 00eb77b48fd2de40090d221d94b34ae8c381de41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:10 +0000
Subject: [PATCH 07/23] fix: account for the drained cluster's moved vector
 when merging

---
 pkg/kmeans/centroidmanager/cmanager.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/kmeans/centroidmanager/cmanager.go b/pkg/kmeans/centroidmanager/cmanager.go
index 70f6a6f..304845e 100644
--- a/pkg/kmeans/centroidmanager/cmanager.go
+++ b/pkg/kmeans/centroidmanager/cmanager.go
@@ -558,9 +558,12 @@ func (cm *CentroidManager) MergeCentroids(merge func(*centroid.Centroid) bool) {
 			// Merge other _completely_ into candidate.
 			delMarks[centroidIndex] = true
 			other := cm.Centroids[centroidIndex]
+			// Draining changes the vector of 'other' as well.
+			updateVecOther := cm.prepVecUpdate(other.Vec())
 			for _, dp := range other.DrainUnordered(other.LenDP()) {
 				candidate.AddDataPoint(dp)
 			}
+			updateVecOther(other.Vec())
 			if !merge(candidate) { // Check if satisfied.
 				break
 			}
-- 
2.43.0


From 2f71d5a217a5b29d3655c8864ca3a77b0698f599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:46 +0000
Subject: [PATCH 08/23] fix: drain nothing when no points are asked for

---
 pkg/kmeans/centroidmanager/cmanager.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/kmeans/centroidmanager/cmanager.go b/pkg/kmeans/centroidmanager/cmanager.go
index 304845e..413e007 100644
--- a/pkg/kmeans/centroidmanager/cmanager.go
+++ b/pkg/kmeans/centroidmanager/cmanager.go
@@ -127,6 +127,9 @@ func (cm *CentroidManager) newCentroid(vec []float64) *centroid.Centroid {
 // of common.DataPoint contained in each centroid is uncertain.
 func (cm *CentroidManager) centroidDataPointPortions(n int) map[int]int {
 	portions := make(map[int]int)
+	if n <= 0 {
+		return portions
+	}
 	// This is essentially the total sum of all v in portions.
 	assigned := 0
 	for {
-- 
2.43.0


From 3dcf2d8dc71ae53813f46dc83ea1a89a9ea9e412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:54 +0000
Subject: [PATCH 09/23] fix: fall back to further clusters when the nearest
 ones cannot fill a query

---
 pkg/kmeans/centroidmanager/cmanager.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/kmeans/centroidmanager/cmanager.go b/pkg/kmeans/centroidmanager/cmanager.go
index 413e007..ca46afd 100644
--- a/pkg/kmeans/centroidmanager/cmanager.go
+++ b/pkg/kmeans/centroidmanager/cmanager.go
@@ -430,7 +430,8 @@ func (cm *CentroidManager) KNNLookup(vec []float64, k int, drain bool) []common.
 	res := make([]common.DataPoint, 0, k)
 
 	gen := cm.centroidVecGenerator() // Brevity.
-	for _, centroidIndex := range cm.knnSearchFunc(vec, gen, k) {
+	// All centroids are candidates, as any of them can be empty.
+	for _, centroidIndex := range cm.knnSearchFunc(vec, gen, len(cm.Centroids)) {
 		if len(res) >= k {
 			break
 		}
-- 
2.43.0


From 3320b9f8117018ee66b5e9f0cf9af2ffc86a7bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:59 +0000
Subject: [PATCH 10/23] fix: refuse a first point that expires while it is
 being added

---
 pkg/kmeans/centroidmanager/cmanager.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/kmeans/centroidmanager/cmanager.go b/pkg/kmeans/centroidmanager/cmanager.go
index ca46afd..371e3e0 100644
--- a/pkg/kmeans/centroidmanager/cmanager.go
+++ b/pkg/kmeans/centroidmanager/cmanager.go
@@ -250,7 +250,9 @@ func (cm *CentroidManager) AddDataPoint(dp common.DataPoint) bool {
 	// Add first centroid.
 	if len(cm.Centroids) == 0 {
 		c := cm.newCentroid(dp.Vec)
-		c.AddDataPoint(dp)
+		if !c.AddDataPoint(dp) {
+			return false
+		}
 		cm.Centroids = append(cm.Centroids, c)
 		cm.vec = c.Vec()
 		return true
-- 
2.43.0


From 17f362986c15059ee376a31b7c528986e5f1a12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:09 +0000
Subject: [PATCH 11/23] fix: acknowledge a put only when the point was stored

---
 pkg/kmeans/rpc/server.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pkg/kmeans/rpc/server.go b/pkg/kmeans/rpc/server.go
index 0a045cd..c5bba92 100644
--- a/pkg/kmeans/rpc/server.go
+++ b/pkg/kmeans/rpc/server.go
@@ -53,17 +53,18 @@ func (s *KMeansServer) AddDataPoint(args AddDataPointArgs, resp *bool) error {
 	lookupOK := s.Table.Access(args.NameSpace, func(cm *CentroidManager) {
 		*resp = cm.AddDataPoint(args.DP)
 	})
-	// Namespace doesn't exist, create one + add dp there.
+	// Namespace doesn't exist, create one + add dp there. It isn't created for
+	// a dp that is refused.
 	if !lookupOK {
 		centroidManager := s.CentroidManagerFactoryFunc(args.DP.Vec)
-		centroidManager.AddDataPoint(args.DP)
+		if *resp = centroidManager.AddDataPoint(args.DP); !*resp {
+			return nil
+		}
 		slot := CManagerSlot{cManager: centroidManager}
 		// Returns a false if a slot is the containec CentroidManager is
 		// nil, but it is assumed that it works here.
 		s.Table.AddSlot(args.NameSpace, &slot)
 	}
-
-	*resp = true
 	return nil
 }
 
-- 
2.43.0


From fd1b5f944e6a84571284ecd161fa613e40c03195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:44 +0000
Subject: [PATCH 12/23] fix: keep a namespace that is created concurrently

---
 pkg/kmeans/rpc/rpc.go    | 16 ++++++++++++++++
 pkg/kmeans/rpc/server.go | 15 ++++++++++-----
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/pkg/kmeans/rpc/rpc.go b/pkg/kmeans/rpc/rpc.go
index 179228b..5b1869e 100644
--- a/pkg/kmeans/rpc/rpc.go
+++ b/pkg/kmeans/rpc/rpc.go
@@ -181,6 +181,22 @@ func (t *CManagerTable) AddSlot(namespace string, cms *CManagerSlot) bool {
 	return true
 }
 
+// addSlotIfNew is like AddSlot but also aborts and returns false if the namespace
+// is in use, for instance because it was created concurrently.
+func (t *CManagerTable) addSlotIfNew(namespace string, cms *CManagerSlot) bool {
+	if cms == nil || cms.cManager == nil {
+		return false
+	}
+
+	t.Lock()
+	defer t.Unlock()
+	if _, ok := t.slots[namespace]; ok {
+		return false
+	}
+	t.slots[namespace] = cms
+	return true
+}
+
 // CentroidManagerFactoryF is whatever creates a CentroidManager.
 type CentroidManagerFactoryF = func(vec []float64) *CentroidManager
 
diff --git a/pkg/kmeans/rpc/server.go b/pkg/kmeans/rpc/server.go
index c5bba92..1339751 100644
--- a/pkg/kmeans/rpc/server.go
+++ b/pkg/kmeans/rpc/server.go
@@ -50,9 +50,10 @@ type AddDataPointArgs struct {
 // (pkg kmeans/CentroidManager). Will createa a new CentroidManager instance if
 // the namespace is not currently in use.
 func (s *KMeansServer) AddDataPoint(args AddDataPointArgs, resp *bool) error {
-	lookupOK := s.Table.Access(args.NameSpace, func(cm *CentroidManager) {
+	add := func(cm *CentroidManager) {
 		*resp = cm.AddDataPoint(args.DP)
-	})
+	}
+	lookupOK := s.Table.Access(args.NameSpace, add)
 	// Namespace doesn't exist, create one + add dp there. It isn't created for
 	// a dp that is refused.
 	if !lookupOK {
@@ -62,8 +63,11 @@ func (s *KMeansServer) AddDataPoint(args AddDataPointArgs, resp *bool) error {
 		}
 		slot := CManagerSlot{cManager: centroidManager}
 		// Returns a false if a slot is the containec CentroidManager is
-		// nil, but it is assumed that it works here.
-		s.Table.AddSlot(args.NameSpace, &slot)
+		// nil, but it is assumed that it works here. Also returns a false
+		// if another request created the namespace in the meantime.
+		if !s.Table.addSlotIfNew(args.NameSpace, &slot) {
+			s.Table.Access(args.NameSpace, add)
+		}
 	}
 	return nil
 }
@@ -371,7 +375,8 @@ func (s *KMeansServer) StealCentroid(args StealCentroidArgs, r *StealCentroidsRe
 			return nil
 		}
 		cm := s.CentroidManagerFactoryFunc(localVec)
-		s.Table.AddSlot(args.NameSpace, &CManagerSlot{cManager: cm})
+		// Aborts if the namespace was created in the meantime.
+		s.Table.addSlotIfNew(args.NameSpace, &CManagerSlot{cManager: cm})
 	}
 
 	for r.TransferredN < args.TransferDPLimit && clientErr == nil {
-- 
2.43.0


From 7436bcd85b917d834cc7c6f22baa9e4931c4ec32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:33 +0000
Subject: [PATCH 13/23] fix: copy the points of clusters that are sent but not
 handed out

---
 pkg/kmeans/rpc/server.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/kmeans/rpc/server.go b/pkg/kmeans/rpc/server.go
index 1339751..d922efb 100644
--- a/pkg/kmeans/rpc/server.go
+++ b/pkg/kmeans/rpc/server.go
@@ -276,7 +276,15 @@ type NearestCentroidArgs struct {
 // lead to an instance.
 func (s *KMeansServer) NearestCentroids(args NearestCentroidArgs, r *[]*Centroid) error {
 	return s.handleNamespaceErr(args.NameSpace, func(cm *CentroidManager) {
-		*r, _ = cm.NearestCentroids(args.Vec, args.N, args.Drain)
+		centroids, _ := cm.NearestCentroids(args.Vec, args.N, args.Drain)
+		// The response is encoded after the lock is released, so it can't
+		// share datapoints with Centroids that stay in use.
+		for i := 0; i < len(centroids) && !args.Drain; i++ {
+			c := *centroids[i]
+			c.DataPoints = append([]DataPoint{}, c.DataPoints...)
+			centroids[i] = &c
+		}
+		*r = centroids
 	})
 }
 
-- 
2.43.0


From 88c4ed0f02f10508c8382f07d03917c31d80c94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:28 +0000
Subject: [PATCH 14/23] fix: filter out consecutive empty clusters of a reply

---
 pkg/kmeans/rpc/client.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/kmeans/rpc/client.go b/pkg/kmeans/rpc/client.go
index b680383..8044fff 100644
--- a/pkg/kmeans/rpc/client.go
+++ b/pkg/kmeans/rpc/client.go
@@ -214,8 +214,8 @@ func (c *kmeansClient) NearestCentroids(vec []float64, n int, drain bool) (
 		return nil, false
 	}
 
-	// Remove nil/empty(no dps) centroids.
-	for i := 0; i < len(resp); i++ {
+	// Remove nil/empty(no dps) centroids. Backwards because of index shifting.
+	for i := len(resp) - 1; i > -1; i-- {
 		if resp[i] == nil || resp[i].LenDP() == 0 {
 			resp = append(resp[:i], resp[i+1:]...)
 		}
-- 
2.43.0


From a9b846930a95a7d5feec3e12f323b2897fdc0759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:14 +0000
Subject: [PATCH 15/23] fix: accept any number of wanted points

---
 core/dps/getdps.go                     |  2 +-
 pkg/kmeans/centroid/centroid.go        |  6 +++---
 pkg/kmeans/centroidmanager/cmanager.go |  8 ++++----
 pkg/kmeans/rpc/client.go               |  2 +-
 pkg/kmeans/rpc/server.go               |  4 ++--
 pkg/searchutils/knn.go                 | 17 +++++++----------
 6 files changed, 18 insertions(+), 21 deletions(-)

diff --git a/core/dps/getdps.go b/core/dps/getdps.go
index 81dd8a4..a10ed7e 100644
--- a/core/dps/getdps.go
+++ b/core/dps/getdps.go
@@ -17,7 +17,7 @@ type getDataPointsArgs struct {
 }
 
 func getDataPoints(args getDataPointsArgs) []DataPoint {
-	res := make([]DataPoint, 0, args.n)
+	res := make([]DataPoint, 0)
 	for _, addr := range args.addrOpts {
 		client := rpc.KMeansClient(addr.ToStr(), args.namespace, nil)
 		dps := client.KNNLookup(args.queryVec, args.n-len(res), args.drain)
diff --git a/pkg/kmeans/centroid/centroid.go b/pkg/kmeans/centroid/centroid.go
index 3b2946c..1e97a3b 100644
--- a/pkg/kmeans/centroid/centroid.go
+++ b/pkg/kmeans/centroid/centroid.go
@@ -131,7 +131,7 @@ func (c *Centroid) dataPointVecGenerator() func() ([]float64, bool) {
 // DrainUnordered drains n internal datapoints in a manner that has no particylar.
 // significance, specifically by how they are stored internally -- in no order.
 func (c *Centroid) DrainUnordered(n int) []common.DataPoint {
-	res := make([]common.DataPoint, 0, n)
+	res := make([]common.DataPoint, 0)
 	for len(c.DataPoints) != 0 && len(res) < n {
 		if !c.DataPoints[0].Expired() {
 			res = append(res, c.DataPoints[0])
@@ -148,7 +148,7 @@ func (c *Centroid) DrainUnordered(n int) []common.DataPoint {
 // net-means/searchutils.KNFCos, then drain away data that has lowest cosine
 // similarity to this Centroid.
 func (c *Centroid) DrainOrdered(n int) []common.DataPoint {
-	res := make([]common.DataPoint, 0, n)
+	res := make([]common.DataPoint, 0)
 	// Furthest neigh.
 	indexes := c.kfnSearchFunc(c.vec, c.dataPointVecGenerator(), n)
 	for _, index := range indexes {
@@ -240,7 +240,7 @@ func (c *Centroid) DistributeDataPoints(n int, receivers []common.DataPointRecei
 // crating a new Centroid with 'NewCentroid'. If that field is for instance
 // net-means/searchutils.KNNCos, then best fit equals best cosine similarity.
 func (c *Centroid) KNNLookup(vec []float64, k int, drain bool) []common.DataPoint {
-	res := make([]common.DataPoint, 0, k)
+	res := make([]common.DataPoint, 0)
 
 	indexes := c.knnSearchFunc(vec, c.dataPointVecGenerator(), k)
 	for _, i := range indexes {
diff --git a/pkg/kmeans/centroidmanager/cmanager.go b/pkg/kmeans/centroidmanager/cmanager.go
index 371e3e0..f4e0b40 100644
--- a/pkg/kmeans/centroidmanager/cmanager.go
+++ b/pkg/kmeans/centroidmanager/cmanager.go
@@ -291,7 +291,7 @@ func (cm *CentroidManager) AddDataPoint(dp common.DataPoint) bool {
 // centroids, i.e if n=2 and there are 2 centroids with at least 1 dp each, then
 // both of them will drain 1 dp. Note, will update CentroidManager vector.
 func (cm *CentroidManager) DrainUnordered(n int) []common.DataPoint {
-	res := make([]common.DataPoint, 0, n)
+	res := make([]common.DataPoint, 0)
 	for centroidIndex, portion := range cm.centroidDataPointPortions(n) {
 		centroid := cm.Centroids[centroidIndex]
 		// Prep for internal vec update.
@@ -314,7 +314,7 @@ func (cm *CentroidManager) DrainUnordered(n int) []common.DataPoint {
 // least 1 dp each, then both of them will drain 1 dp. Note, will update
 // CentroidManager vector.
 func (cm *CentroidManager) DrainOrdered(n int) []common.DataPoint {
-	res := make([]common.DataPoint, 0, n)
+	res := make([]common.DataPoint, 0)
 	for centroidIndex, portion := range cm.centroidDataPointPortions(n) {
 		centroid := cm.Centroids[centroidIndex]
 		// Prep for internal vec update.
@@ -429,7 +429,7 @@ func (cm *CentroidManager) DistributeDataPointsInternal(n int) {
 // with the same name (KNNLookup) will be called on those Centroids.
 // Note, will update internal CentroidManager vector.
 func (cm *CentroidManager) KNNLookup(vec []float64, k int, drain bool) []common.DataPoint {
-	res := make([]common.DataPoint, 0, k)
+	res := make([]common.DataPoint, 0)
 
 	gen := cm.centroidVecGenerator() // Brevity.
 	// All centroids are candidates, as any of them can be empty.
@@ -480,7 +480,7 @@ func (cm *CentroidManager) NearestCentroids(vec []float64, n int, drain bool) (
 	if len(indexes) == 0 {
 		return nil, false
 	}
-	centroids := make([]*centroid.Centroid, 0, n)
+	centroids := make([]*centroid.Centroid, 0, len(indexes))
 	for _, index := range indexes {
 		centroids = append(centroids, cm.Centroids[index])
 	}
diff --git a/pkg/kmeans/rpc/client.go b/pkg/kmeans/rpc/client.go
index 8044fff..44c618b 100644
--- a/pkg/kmeans/rpc/client.go
+++ b/pkg/kmeans/rpc/client.go
@@ -181,7 +181,7 @@ func (c *kmeansClient) DistributeDataPointsInternal(n int) {
 // (T of pkg/kmeans/centroidmanager, se that method name for more documentation),
 // using the addr and namespace specified while setting up this client.
 func (c *kmeansClient) KNNLookup(vec []float64, k int, drain bool) []DataPoint {
-	resp := make([]DataPoint, 0, k)
+	resp := make([]DataPoint, 0)
 
 	c.client(func(rc *rpc.Client) {
 		args := KNNLookupArgs{NameSpace: c.namespace, Vec: vec, K: k, Drain: drain}
diff --git a/pkg/kmeans/rpc/server.go b/pkg/kmeans/rpc/server.go
index d922efb..ac943db 100644
--- a/pkg/kmeans/rpc/server.go
+++ b/pkg/kmeans/rpc/server.go
@@ -158,7 +158,7 @@ func distributeDP(dp DataPoint, gen vecGenerator, addrs []string, namespace stri
 // method called, then those dps will be sent to remote nodes that are most
 // similar to those dps (similarity is caluclated by remote CentroidManager.Vec()).
 func (s *KMeansServer) DistributeDataPointsFast(args DistribDPArgs, _ *int) error {
-	dps := make([]DataPoint, 0, args.N)
+	var dps []DataPoint
 
 	// Not wrapping the code below with this because it locks the CentroidManager.
 	nsErr := s.handleNamespaceErr(args.NameSpace, func(cm *CentroidManager) {
@@ -200,7 +200,7 @@ func (s *KMeansServer) DistributeDataPointsFast(args DistribDPArgs, _ *int) erro
 // This is _a_lot_ slower due to many network calls, but has the benefit of
 // placing distribute dps precisely.
 func (s *KMeansServer) DistributeDataPointsAccurate(args DistribDPArgs, _ *int) error {
-	dps := make([]DataPoint, 0, args.N)
+	var dps []DataPoint
 
 	// Not wrapping the code below with this because it locks the CentroidManager.
 	nsErr := s.handleNamespaceErr(args.NameSpace, func(cm *CentroidManager) {
diff --git a/pkg/searchutils/knn.go b/pkg/searchutils/knn.go
index be9bc50..b1118a2 100644
--- a/pkg/searchutils/knn.go
+++ b/pkg/searchutils/knn.go
@@ -86,7 +86,8 @@ type KNNBruteArgs struct {
 // (or furthest) neighs of a vector, and then returning their index.
 // See KNNBruteArgs (accepted argument) for more info.
 func KNNBrute(args KNNBruteArgs) []int {
-	res := make([]resultItem, args.K)
+	// Grows as elements are found, args.K can be any number.
+	res := make([]resultItem, 0)
 	// This represents the lowest/highest score found so far.
 	// Defining a cap of highest/lowest number representing similarity
 	// is done here by simply using the (near) min/max allowed float.
@@ -94,10 +95,6 @@ func KNNBrute(args KNNBruteArgs) []int {
 	if !args.Ascending {
 		similarity *= -1
 	}
-	// Apply worst score to all resultItems.
-	for i := 0; i < args.K; i++ {
-		res[i].score = similarity
-	}
 	i := 0
 	for {
 		// Next vector.
@@ -113,11 +110,11 @@ func KNNBrute(args KNNBruteArgs) []int {
 		}
 		// Evaluate inclusion of current vector.
 		newSlot := &resultItem{i, score, true}
-		if args.Ascending && score < similarity {
-			bubble(newSlot, res, true)
-		}
-		if !args.Ascending && score > similarity {
-			bubble(newSlot, res, false)
+		if args.Ascending && score < similarity || !args.Ascending && score > similarity {
+			if len(res) < args.K {
+				res = append(res, resultItem{score: similarity})
+			}
+			bubble(newSlot, res, args.Ascending)
 		}
 		i++
 	}
-- 
2.43.0


From cb6b19fa0e3ee887cf738bae19f88197c7e99b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:08 +0000
Subject: [PATCH 16/23] fix: take nothing over from the node itself

---
 pkg/kmeans/rpc/server.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/kmeans/rpc/server.go b/pkg/kmeans/rpc/server.go
index ac943db..60a4bdc 100644
--- a/pkg/kmeans/rpc/server.go
+++ b/pkg/kmeans/rpc/server.go
@@ -364,6 +364,12 @@ type StealCentroidsResp struct {
 // Note, cannot return a NamespaceErr, as a new namespace will be created if node
 // A does not have that namespace.
 func (s *KMeansServer) StealCentroid(args StealCentroidArgs, r *StealCentroidsResp) error {
+	// Everything would come back, so the limit might never be reached.
+	if args.FromAddr == s.addr {
+		r.OK = s.Table.Access(args.NameSpace, func(*CentroidManager) {})
+		return nil
+	}
+
 	// Not wrapping the code below with this because it locks the CentroidManager
 	// just for this one thing (getting a vec).
 	var localVec []float64
-- 
2.43.0


From b44f24a9ceb24bfdb15a0da663eb9eb555f0fee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:40 +0000
Subject: [PATCH 17/23] fix: drain nothing for redistribution to an empty list
 of nodes

---
 pkg/kmeans/rpc/server.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pkg/kmeans/rpc/server.go b/pkg/kmeans/rpc/server.go
index 60a4bdc..4792235 100644
--- a/pkg/kmeans/rpc/server.go
+++ b/pkg/kmeans/rpc/server.go
@@ -160,12 +160,17 @@ func distributeDP(dp DataPoint, gen vecGenerator, addrs []string, namespace stri
 func (s *KMeansServer) DistributeDataPointsFast(args DistribDPArgs, _ *int) error {
 	var dps []DataPoint
 
+	// Nothing can be drained if there is nowhere to put it.
+	if len(args.AddrOptions) == 0 {
+		return s.handleNamespaceErr(args.NameSpace, func(*CentroidManager) {})
+	}
+
 	// Not wrapping the code below with this because it locks the CentroidManager.
 	nsErr := s.handleNamespaceErr(args.NameSpace, func(cm *CentroidManager) {
 		dps = append(dps, cm.DrainOrdered(args.N)...)
 	})
 
-	if nsErr != nil || len(dps) == 0 || len(args.AddrOptions) == 0 {
+	if nsErr != nil || len(dps) == 0 {
 		return nsErr
 	}
 
@@ -202,12 +207,17 @@ func (s *KMeansServer) DistributeDataPointsFast(args DistribDPArgs, _ *int) erro
 func (s *KMeansServer) DistributeDataPointsAccurate(args DistribDPArgs, _ *int) error {
 	var dps []DataPoint
 
+	// Nothing can be drained if there is nowhere to put it.
+	if len(args.AddrOptions) == 0 {
+		return s.handleNamespaceErr(args.NameSpace, func(*CentroidManager) {})
+	}
+
 	// Not wrapping the code below with this because it locks the CentroidManager.
 	nsErr := s.handleNamespaceErr(args.NameSpace, func(cm *CentroidManager) {
 		dps = append(dps, cm.DrainOrdered(args.N)...)
 	})
 
-	if nsErr != nil || len(dps) == 0 || len(args.AddrOptions) == 0 {
+	if nsErr != nil || len(dps) == 0 {
 		return nsErr
 	}
 
-- 
2.43.0


From c647957c9af96429f9fbf02e6ddd6886908ee25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:44 +0000
Subject: [PATCH 18/23] fix: go on taking clusters over after an empty one

---
 pkg/kmeans/rpc/server.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/kmeans/rpc/server.go b/pkg/kmeans/rpc/server.go
index 4792235..c1425cb 100644
--- a/pkg/kmeans/rpc/server.go
+++ b/pkg/kmeans/rpc/server.go
@@ -407,9 +407,13 @@ func (s *KMeansServer) StealCentroid(args StealCentroidArgs, r *StealCentroidsRe
 		// Can be improved. One at a time for convenience + readability.
 		centroids, cOK := client.NearestCentroids(localVec, 1, true)
 
-		if !cOK || len(centroids) == 0 {
+		if !cOK {
 			break
 		}
+		// Was taken but without any dps, the remote can have more.
+		if len(centroids) == 0 {
+			continue
+		}
 
 		s.Table.Access(args.NameSpace, func(cm *CentroidManager) {
 			// @ unsafe, this is assuming cm has similar properties as centroids
-- 
2.43.0


From d0d35e2d4ea3c659b621d74ef49a9ee1db4fc8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:01 +0000
Subject: [PATCH 19/23] fix: keep the event loop from failing when the meta
 interval is unset

---
 core/eventloop/cfg.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/eventloop/cfg.go b/core/eventloop/cfg.go
index d4f421f..1da55c7 100644
--- a/core/eventloop/cfg.go
+++ b/core/eventloop/cfg.go
@@ -67,6 +67,7 @@ func (cfg *EventLoopTaskSkipConfig) clamp(min, max int) {
 		&cfg.SplitCentroids,
 		&cfg.MergeCentroids,
 		&cfg.LoadBalancing,
+		&cfg.Meta,
 	}
 	for _, v := range items {
 		if *v < min {
-- 
2.43.0


From 571960e233b04118cecb54082c2d51cd77e33f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:01 +0000
Subject: [PATCH 20/23] fix: keep the intervals of event loop tasks beyond 1000
 rounds

---
 core/eventloop/el.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/core/eventloop/el.go b/core/eventloop/el.go
index 6ea71e5..5fa8ce1 100644
--- a/core/eventloop/el.go
+++ b/core/eventloop/el.go
@@ -44,11 +44,9 @@ func EventLoop(cfg *EventLoopConfig) func() {
 
 			elStep(cfg, eltLoadBalancing)
 
-			// Tick & wraparound.
+			// Tick. No wraparound: that would break up the cadence of
+			// all tasks with an interval that doesn't divide the limit.
 			cfg.internal.iter++
-			if cfg.internal.iter > 1000 {
-				cfg.internal.iter = 0
-			}
 		}
 	}()
 
-- 
2.43.0


From 37c6882b6fd041c6546ca5ab46f96bcb51775a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:23 +0000
Subject: [PATCH 21/23] fix: synchronise stopping the event loop with the loop

---
 core/eventloop/cfg.go | 12 ++++++++++--
 core/eventloop/el.go  |  8 ++++----
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/core/eventloop/cfg.go b/core/eventloop/cfg.go
index 1da55c7..8ee3eff 100644
--- a/core/eventloop/cfg.go
+++ b/core/eventloop/cfg.go
@@ -1,6 +1,9 @@
 package eventloop
 
-import "time"
+import (
+	"sync/atomic"
+	"time"
+)
 
 // Each task in the event loop will be skippable such that not everything has
 // to run in each loop iteration. This is useful when some tasks are recource
@@ -80,10 +83,15 @@ func (cfg *EventLoopTaskSkipConfig) clamp(min, max int) {
 }
 
 type eventLoopInternal struct {
-	stopped bool
+	// Not 0 when stopped; accessed atomically since the
+	// loop is stopped from other goroutines.
+	stopped int32
 	iter    int
 }
 
+func (i *eventLoopInternal) stop()           { atomic.StoreInt32(&i.stopped, 1) }
+func (i *eventLoopInternal) isStopped() bool { return atomic.LoadInt32(&i.stopped) != 0 }
+
 // EventLoopConfig is a config type for the event loop in this pkg.
 type EventLoopConfig struct {
 	LocalAddr Addr
diff --git a/core/eventloop/el.go b/core/eventloop/el.go
index 5fa8ce1..e451b20 100644
--- a/core/eventloop/el.go
+++ b/core/eventloop/el.go
@@ -10,13 +10,13 @@ type Addr = arbiter.Addr
 // Intended to be used for each event loop task in the event loop.
 func elStep(cfg *EventLoopConfig, task func(*EventLoopConfig)) {
 	// For quickly aborting all steps in eventloop.
-	if cfg.internal.stopped {
+	if cfg.internal.isStopped() {
 		return
 	}
 	time.Sleep(cfg.TimeoutStep)
 
 	// Neat in case timeout is long.
-	if cfg.internal.stopped {
+	if cfg.internal.isStopped() {
 		return
 	}
 	task(cfg)
@@ -27,7 +27,7 @@ func EventLoop(cfg *EventLoopConfig) func() {
 
 	go func() {
 		// Note: tasks are _not_ arbitrarily ordered.
-		for cfg.internal.stopped == false {
+		for !cfg.internal.isStopped() {
 			time.Sleep(cfg.TimeoutLoop)
 
 			elStep(cfg, eltMeta)
@@ -51,6 +51,6 @@ func EventLoop(cfg *EventLoopConfig) func() {
 	}()
 
 	return func() {
-		cfg.internal.stopped = true
+		cfg.internal.stop()
 	}
 }
-- 
2.43.0


From 3ed4796ee3b82def534d5b2b615a70af3bb97ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:53 +0000
Subject: [PATCH 22/23] fix: don't mistake unreachable nodes for empty ones
 when balancing load

---
 core/eventloop/eltask.go      | 12 +++++++++++-
 core/eventloop/eltaskutils.go |  9 ++++-----
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/core/eventloop/eltask.go b/core/eventloop/eltask.go
index db3712f..50bbdf3 100644
--- a/core/eventloop/eltask.go
+++ b/core/eventloop/eltask.go
@@ -159,9 +159,19 @@ func eltLoadBalancing(cfg *EventLoopConfig) {
 			for _, ns := range table.namespaces() {
 				addrs := table.addrsWithNamespace(ns)
 				addrsLens := fetchRemoteLenDPs(addrs, ns)
-
 				local := cfg.LocalAddr // Abbreviation.
 
+				// Can't tell what local is lacking if it doesn't answer.
+				localUnknown := false
+				for _, addr := range addrs {
+					if _, ok := addrsLens[addr]; !ok && local.Comp(addr) {
+						localUnknown = true
+					}
+				}
+				if localUnknown || len(addrsLens) == 0 {
+					continue
+				}
+
 				dpTotal := 0
 				for _, dpLen := range addrsLens {
 					dpTotal += dpLen
diff --git a/core/eventloop/eltaskutils.go b/core/eventloop/eltaskutils.go
index ff93af2..8a34a5c 100644
--- a/core/eventloop/eltaskutils.go
+++ b/core/eventloop/eltaskutils.go
@@ -45,7 +45,8 @@ func (t *addrNamespaceTable) namespaces() []string {
 	return r
 }
 
-// Simply fetch the amount of datapoints nodes have in a namespace.
+// Simply fetch the amount of datapoints nodes have in a namespace. Nodes that
+// don't answer are left out.
 func fetchRemoteLenDPs(addrs []Addr, namespace string) map[Addr]int {
 	type nodeDPLen struct {
 		addr  Addr
@@ -60,10 +61,8 @@ func fetchRemoteLenDPs(addrs []Addr, namespace string) map[Addr]int {
 			var err error
 			client := rpc.KMeansClient(addr.ToStr(), namespace, &err)
 			lenDP := client.LenDP()
-			// NamespaceErr can be interpreted as dp len = 0.
-			_, castOK := err.(rpc.NamespaceErr)
-			ok := err == nil || (err != nil && !castOK)
-			ch <- nodeDPLen{addr, lenDP, ok}
+			// Nodes that can't tell must not be mistaken for empty ones.
+			ch <- nodeDPLen{addr, lenDP, err == nil}
 		}(addr)
 	}
 
-- 
2.43.0


From d3f7a37155baf3fba9a830e3bf3b55c71ecee1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:06 +0000
Subject: [PATCH 23/23] fix: stopping a server closed only the latest of its
 connections, without synchronisation

Requests on connections opened earlier were still served after stop, and stop
read the latest connection while it was being written.
---
 pkg/kmeans/rpc/rpc.go | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/pkg/kmeans/rpc/rpc.go b/pkg/kmeans/rpc/rpc.go
index 5b1869e..9c7f515 100644
--- a/pkg/kmeans/rpc/rpc.go
+++ b/pkg/kmeans/rpc/rpc.go
@@ -237,22 +237,41 @@ func StartListen(s *KMeansServer) (stop func(), err error) {
 		return nil, err
 	}
 
-	var conn net.Conn
+	// Open connections, such that all of them can be closed.
+	var mx sync.Mutex
+	var stopped bool
+	conns := make(map[net.Conn]bool)
 	stop = func() {
 		ln.Close()
-		if conn != nil {
+		mx.Lock()
+		defer mx.Unlock()
+		stopped = true
+		for conn := range conns {
 			conn.Close()
 		}
 	}
 
 	go func() {
 		for {
-			cxn, err := ln.Accept()
-			conn = cxn
+			conn, err := ln.Accept()
 			if err != nil {
 				break
 			}
-			go handler.ServeConn(cxn)
+			mx.Lock()
+			if stopped {
+				mx.Unlock()
+				conn.Close()
+				break
+			}
+			conns[conn] = true
+			mx.Unlock()
+
+			go func() {
+				handler.ServeConn(conn)
+				mx.Lock()
+				defer mx.Unlock()
+				delete(conns, conn)
+			}()
 		}
 	}()
 	return stop, nil
-- 
2.43.0

