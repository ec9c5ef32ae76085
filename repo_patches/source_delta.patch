From fe483c938f0f23b147469345b7a5c2e9fa526283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:01 +0000
Subject: [PATCH 01/30] fix: copy whole nodes when storing split nodes and root
 copies

Only vectorLength bytes (not the node size) were copied, so stored split
planes were truncated and, for short vectors, the children were lost.
---
 index/annoyindex.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/index/annoyindex.go b/index/annoyindex.go
index 3fad753..0d61c27 100644
--- a/index/annoyindex.go
+++ b/index/annoyindex.go
@@ -202,7 +202,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Build(numberOfTrees, numWorkers int) {
 		dst := idx.getNode(idx._n_nodes + i)
 		src := idx.getNode(idx._roots[i])
 
-		utils.CopyNode(dst, src, idx.vectorLength)
+		utils.CopyNode(dst, src, idx.nodeSize)
 
 		if idx.logVerbose {
 			fmt.Printf(
@@ -444,7 +444,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) makeTree(
 	idx.buildPolicy.LockSharedNodes()
 	dst := idx.getNode(item)
 
-	utils.CopyNode(dst, m, idx.vectorLength)
+	utils.CopyNode(dst, m, idx.nodeSize)
 	idx.buildPolicy.UnlockSharedNodes()
 
 	if idx.logVerbose {
-- 
2.43.0


From 83b4c68490b8081e8afbae805bfb60bb614cd240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:01 +0000
Subject: [PATCH 02/30] fix: build each tree with the worker's own random
 generator

All workers drew from the shared generator of the index without a lock: a
data race, and the trees depended on how the workers were interleaved.
---
 index/annoyindex.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/index/annoyindex.go b/index/annoyindex.go
index 0d61c27..599e474 100644
--- a/index/annoyindex.go
+++ b/index/annoyindex.go
@@ -363,7 +363,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) makeTree(
 		children_indices[0] = nil
 		children_indices[1] = nil
 
-		idx.distance.CreateSplit(children, idx.nodeSize, idx.random, m)
+		idx.distance.CreateSplit(children, idx.nodeSize, rnd, m)
 
 		for _, j := range indices {
 			// TODO: original code did a check: Node* n = _get(j); if (n) {...}
@@ -372,7 +372,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) makeTree(
 			side := idx.distance.Side(
 				m,
 				n.GetVector(idx.vectorLength),
-				idx.random,
+				rnd,
 			)
 
 			children_indices[side] = append(children_indices[side], j)
@@ -403,7 +403,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) makeTree(
 
 		for _, j := range indices {
 			// Just randomize...
-			side := idx.random.NextSide()
+			side := rnd.NextSide()
 			children_indices[side] = append(children_indices[side], j)
 		}
 	}
-- 
2.43.0


From d37e0c5ed4f7c4a4b80ba46169120270ae778f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:01 +0000
Subject: [PATCH 03/30] fix: explore the most promising node first when
 searching

The priority queue pops its smallest element, so a search spent its budget
on the nodes farthest from the query vector.
---
 index/annoyindex_search.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/index/annoyindex_search.go b/index/annoyindex_search.go
index 7a2419d..9b050a5 100644
--- a/index/annoyindex_search.go
+++ b/index/annoyindex_search.go
@@ -84,8 +84,10 @@ func (idx *AnnoyIndexImpl[TV, TIX]) GetNnsByVector(
 		numNodesToInspect = numReturn * len(idx._roots)
 	}
 
+	// The queue pops the smallest element first, hence push the negated priority
+	// in order to explore the most promising node first.
 	for i := range idx._roots {
-		q.Push(idx.distance.PQInitialValue(), idx._roots[i])
+		q.Push(-idx.distance.PQInitialValue(), idx._roots[i])
 	}
 
 	cnt := 0
@@ -93,7 +95,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) GetNnsByVector(
 	for cnt < numNodesToInspect && !q.Empty() {
 		top := q.Top()
 
-		d := top.First
+		d := -top.First
 		i := top.Second
 		nd := idx.distance.MapNodeToMemory(idx._nodes, i)
 
@@ -118,12 +120,12 @@ func (idx *AnnoyIndexImpl[TV, TIX]) GetNnsByVector(
 			children := nd.GetChildren()
 
 			q.Push(
-				idx.distance.PQDistance(d, margin, interfaces.SideRight),
+				-idx.distance.PQDistance(d, margin, interfaces.SideRight),
 				children[interfaces.SideRight],
 			)
 
 			q.Push(
-				idx.distance.PQDistance(d, margin, interfaces.SideLeft),
+				-idx.distance.PQDistance(d, margin, interfaces.SideLeft),
 				children[interfaces.SideLeft],
 			)
 		}
-- 
2.43.0


From 9429e8b5adec17ab372be78e3a0d0b65303f9358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:01 +0000
Subject: [PATCH 04/30] fix: angular distance of (nearly) parallel vectors must
 not be NaN

Rounding can make the squared distance slightly negative.
---
 distance/angular/distance.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distance/angular/distance.go b/distance/angular/distance.go
index 59cf15e..964139b 100644
--- a/distance/angular/distance.go
+++ b/distance/angular/distance.go
@@ -162,7 +162,7 @@ func (a *angularDistanceImpl[TV, TIX]) CreateSplit(
 }
 
 func (a *angularDistanceImpl[TV, _]) NormalizedDistance(distance TV) TV {
-	return TV(math.Sqrt(float64(distance)))
+	return TV(math.Sqrt(math.Max(float64(distance), 0)))
 }
 
 func (a *angularDistanceImpl[TV, TIX]) PQDistance(distance, margin TV, side interfaces.Side) TV {
-- 
2.43.0


From 933bcc5672fd5770e2297b96f4b580621bd0b53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:01 +0000
Subject: [PATCH 05/30] fix: let the batch context grow with the inspected
 candidates

The pre-computed size does not count items reached through several trees,
so a search with a large enough budget panicked with index out of range.
---
 index/annoyindex_search.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/index/annoyindex_search.go b/index/annoyindex_search.go
index 9b050a5..30b0b92 100644
--- a/index/annoyindex_search.go
+++ b/index/annoyindex_search.go
@@ -104,15 +104,10 @@ func (idx *AnnoyIndexImpl[TV, TIX]) GetNnsByVector(
 		nDescendants := nd.GetNumberOfDescendants()
 
 		if nDescendants == 1 && i < idx._n_items {
-			bc.nns[cnt] = i
+			bc.nns = append(bc.nns[:cnt], i)
 			cnt++
 		} else if nDescendants <= idx.maxDescendants {
-			dst := nd.GetChildren()
-			if len(dst) == int(nDescendants) {
-				copy(bc.nns[TIX(cnt):], dst)
-			} else {
-				copy(bc.nns[TIX(cnt):], dst[:nDescendants])
-			}
+			bc.nns = append(bc.nns[:cnt], nd.GetChildren()...)
 			cnt += int(nDescendants)
 		} else {
 			// Node is normal of the split plane.
@@ -134,6 +129,10 @@ func (idx *AnnoyIndexImpl[TV, TIX]) GetNnsByVector(
 	// Get distances for all items
 	// To avoid calculating distance multiple times for any items, sort by id
 	nns := bc.nns[:cnt]
+	for len(bc.nns_dist) < cnt {
+		bc.nns_dist = append(bc.nns_dist, &interfaces.Pair[TV, TIX]{})
+	}
+
 	idx.sorter.SortSlice(nns)
 
 	mem := make([]byte, idx.nodeSize) // Allocate mem on gcheap
-- 
2.43.0


From 0147ffc71ad592375a962dbf234ca249f5306684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:01 +0000
Subject: [PATCH 06/30] fix: build with one worker when the number of workers
 is 0, as documented

No worker was started and the index ended up without any tree.
---
 index/policy/index_policy_multi.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/index/policy/index_policy_multi.go b/index/policy/index_policy_multi.go
index d3528d7..f91dc8e 100644
--- a/index/policy/index_policy_multi.go
+++ b/index/policy/index_policy_multi.go
@@ -27,6 +27,10 @@ func (p *annoyIndexMultiThreadedBuildPolicy) Build(
 		numberOfWorkers = int(utils.Max(uint32(1), uint32(runtime.NumCPU())))
 	}
 
+	if numberOfWorkers == 0 {
+		numberOfWorkers = 1
+	}
+
 	var wg sync.WaitGroup
 	wg.Add(numberOfWorkers)
 
-- 
2.43.0


From f403e3ae5413b7cf3488a53e2ca86380b694181a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:04 +0000
Subject: [PATCH 07/30] fix: load exactly the roots that were built

The scan for roots ran past the first node (unsigned wrap-around) when all
nodes have the same number of descendants, e.g. an index with one item, and
crashed. With several workers, or trees of one node, a root was also loaded
twice, so that a loaded index answered differently than the saved one.
---
 index/annoyindex.go    |  3 +++
 index/annoyindex_io.go | 48 ++++++++++++++++++++++++------------------
 2 files changed, 30 insertions(+), 21 deletions(-)

diff --git a/index/annoyindex.go b/index/annoyindex.go
index 599e474..9bb29e2 100644
--- a/index/annoyindex.go
+++ b/index/annoyindex.go
@@ -194,6 +194,9 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Build(numberOfTrees, numWorkers int) {
 
 	idx.buildPolicy.Build(idx, numberOfTrees, numWorkers)
 
+	// Workers finish in any order, have the roots in the same order as their nodes
+	idx.sorter.SortSlice(idx._roots)
+
 	// Also, copy the roots into the last segment of the array
 	// This way we can load them faster without reading the whole file
 	idx.allocateSize(idx._n_nodes+TIX(len(idx._roots)), nil)
diff --git a/index/annoyindex_io.go b/index/annoyindex_io.go
index c777480..33cdff7 100644
--- a/index/annoyindex_io.go
+++ b/index/annoyindex_io.go
@@ -1,6 +1,7 @@
 package index
 
 import (
+	"bytes"
 	"fmt"
 	"os"
 	"unsafe"
@@ -61,33 +62,33 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Load(fileName string) error {
 	idx._roots = nil
 	idx._n_nodes = TIX(idx.indexMemory.Size()) / idx.nodeSize
 
-	var (
-		mset bool
-		m    TIX
-	)
+	// The last node is a copy of a root, hence it knows the number of items
+	m := idx.getNode(idx._n_nodes - 1).GetNumberOfDescendants()
 
-	for i := idx._n_nodes - 1; i >= 0; i-- {
-
-		n := idx.getNode(i)
-		k := n.GetNumberOfDescendants()
-
-		if !mset || k == m {
-			idx._roots = append(idx._roots, i)
-			m = k
-			mset = true
-		} else {
+	for i := idx._n_nodes; i > m; i-- {
+		if idx.getNode(i-1).GetNumberOfDescendants() != m {
 			break
 		}
-	}
 
-	// hacky fix: since the last root precedes the copy of all roots, delete it
-	if len(idx._roots) > 1 {
-		fn := idx.getNode(idx._roots[0])
-		ln := idx.getNode(idx._roots[len(idx._roots)-1])
+		idx._roots = append(idx._roots, i-1)
+	}
 
-		if fn.GetChildren()[0] == ln.GetChildren()[0] {
-			idx._roots = idx._roots[:len(idx._roots)-1]
+	// The copies of the roots are preceded by the last root or, when all the trees
+	// consist of a single node, by all the roots. Keep the copies only.
+	if half := len(idx._roots) / 2; half > 0 {
+		copies := half
+
+		for i := 0; i < half; i++ {
+			if !bytes.Equal(
+				idx.nodeBytes(idx._roots[i]),
+				idx.nodeBytes(idx._roots[len(idx._roots)-half+i]),
+			) {
+				copies = len(idx._roots) - 1
+				break
+			}
 		}
+
+		idx._roots = idx._roots[:copies]
 	}
 
 	idx.indexBuilt = true
@@ -122,3 +123,8 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Load(fileName string) error {
 
 	return nil
 }
+
+// nodeBytes returns the memory occupied by the node at _index_.
+func (idx *AnnoyIndexImpl[TV, TIX]) nodeBytes(index TIX) []byte {
+	return unsafe.Slice((*byte)(utils.GetPtr(idx.getNode(index))), idx.nodeSize)
+}
-- 
2.43.0


From ec55439906a3cf88cbdad838053e8f51f8687c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:06 +0000
Subject: [PATCH 08/30] fix: save to a temporary file that replaces the old one
 when complete

Save truncated the file first: an error or a crash while writing destroyed
the index saved before, and saving to the file the index is mapped from
crashed with SIGBUS and lost both.
---
 index/annoyindex_io.go | 41 ++++++++++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/index/annoyindex_io.go b/index/annoyindex_io.go
index 33cdff7..f6272a9 100644
--- a/index/annoyindex_io.go
+++ b/index/annoyindex_io.go
@@ -14,13 +14,6 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Save(fileName string) error {
 		return fmt.Errorf("can't save an index that hasn't been built")
 	}
 
-	file, err := os.Create(fileName)
-	if err != nil {
-		return err
-	}
-
-	defer file.Close()
-
 	if idx.logVerbose {
 		fmt.Println("Saving index to file", fileName, "with", idx._n_nodes, "nodes")
 		for i := TIX(0); i < idx._n_nodes; i++ {
@@ -31,13 +24,43 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Save(fileName string) error {
 
 	data := unsafe.Slice((*byte)(idx._nodes), idx._n_nodes*idx.nodeSize)
 
-	_, err = file.Write(data)
+	if err := replaceFile(fileName, data); err != nil {
+		return err
+	}
+
+	return idx.Load(fileName)
+}
+
+// replaceFile writes _data_ to a temporary file, next to _fileName_, that replaces _fileName_
+// when completely written. Hence, an existing file is never seen half written and may be
+// mapped into memory (even by the index that is being saved).
+func replaceFile(fileName string, data []byte) error {
+	tmpName := fileName + ".tmp"
 
+	file, err := os.Create(tmpName)
 	if err != nil {
 		return err
 	}
 
-	return idx.Load(fileName)
+	_, err = file.Write(data)
+
+	if err == nil {
+		err = file.Sync()
+	}
+
+	if err2 := file.Close(); err == nil {
+		err = err2
+	}
+
+	if err == nil {
+		err = os.Rename(tmpName, fileName)
+	}
+
+	if err != nil {
+		os.Remove(tmpName)
+	}
+
+	return err
 }
 
 func (idx *AnnoyIndexImpl[TV, TIX]) Load(fileName string) error {
-- 
2.43.0


From 57772a17abb2503f3fd3a72acffb7168a1f110ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:06 +0000
Subject: [PATCH 09/30] fix: report read errors and empty files as errors when
 loading to memory

Both made the allocator, and thereby Load, panic.
---
 index/memory/index_allocator_gcmem.go | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/index/memory/index_allocator_gcmem.go b/index/memory/index_allocator_gcmem.go
index 76c0244..4b17beb 100644
--- a/index/memory/index_allocator_gcmem.go
+++ b/index/memory/index_allocator_gcmem.go
@@ -64,21 +64,14 @@ func (mm *fileIndexerAllocator) Open(fqFile string) (interfaces.AllocatedIndex,
 		return nil, err
 	}
 
-	data := make([]byte, fileInfo.Size())
-
-	var bytesRead int64
-
-	for bytesRead < fileInfo.Size() {
-		n, err := io.ReadFull(file, data[bytesRead:])
-		if err != nil && err != io.ErrUnexpectedEOF {
-			panic(fmt.Sprintf("Failed to read file: %v", err))
-		}
-		bytesRead += int64(n)
+	if fileInfo.Size() == 0 {
+		return nil, fmt.Errorf("file %s is empty", fqFile)
 	}
 
-	if err != nil {
-		file.Close()
-		return nil, err
+	data := make([]byte, fileInfo.Size())
+
+	if _, err := io.ReadFull(file, data); err != nil {
+		return nil, fmt.Errorf("failed to read file: %w", err)
 	}
 
 	fi := &fileIndexAllocation{
-- 
2.43.0


From 29d9c329fbc22dbf4bad0a6800a5c39a5bd9e64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:07 +0000
Subject: [PATCH 10/30] fix: a closed index is not built anymore

Saving a closed index (also: one whose Load failed) replaced the file with an
empty one, and it could be filled with items but not built again.
---
 index/annoyindex.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/index/annoyindex.go b/index/annoyindex.go
index 9bb29e2..0da8b9f 100644
--- a/index/annoyindex.go
+++ b/index/annoyindex.go
@@ -128,6 +128,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Close() error {
 
 	idx._nodes = nil
 	idx.indexLoaded = false
+	idx.indexBuilt = false
 	idx._n_items = 0
 	idx._n_nodes = 0
 	idx._nodes_size = 0
-- 
2.43.0


From 5ecd667e7f46d6d18670e1cf28c08a32cc026262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:08 +0000
Subject: [PATCH 11/30] fix: address indexes larger than 4 GiB when the index
 type is uint32

Sizes and offsets in bytes were computed in the index type and wrapped.
---
 distance/angular/distance.go    | 2 +-
 distance/dotproduct/distance.go | 2 +-
 index/annoyindex.go             | 4 ++--
 index/annoyindex_io.go          | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/distance/angular/distance.go b/distance/angular/distance.go
index 964139b..b2d7c82 100644
--- a/distance/angular/distance.go
+++ b/distance/angular/distance.go
@@ -53,7 +53,7 @@ func (a *angularDistanceImpl[TV, TIX]) MapNodeToMemory(
 	mem unsafe.Pointer,
 	itemIndex TIX,
 ) interfaces.Node[TV, TIX] {
-	pos := unsafe.Add(mem, itemIndex*a.nodeSize)
+	pos := unsafe.Add(mem, uintptr(itemIndex)*uintptr(a.nodeSize))
 
 	return (*AngularNodeImpl[TV, TIX])(pos)
 }
diff --git a/distance/dotproduct/distance.go b/distance/dotproduct/distance.go
index 0d635a3..51231f0 100644
--- a/distance/dotproduct/distance.go
+++ b/distance/dotproduct/distance.go
@@ -53,7 +53,7 @@ func (dp *dotProductDistanceImpl[TV, TIX]) MapNodeToMemory(
 	mem unsafe.Pointer,
 	itemIndex TIX,
 ) interfaces.Node[TV, TIX] {
-	pos := unsafe.Add(mem, itemIndex*dp.nodeSize)
+	pos := unsafe.Add(mem, uintptr(itemIndex)*uintptr(dp.nodeSize))
 
 	return (*DotProductNodeImpl[TV, TIX])(pos)
 }
diff --git a/index/annoyindex.go b/index/annoyindex.go
index 0da8b9f..d437a7e 100644
--- a/index/annoyindex.go
+++ b/index/annoyindex.go
@@ -107,7 +107,7 @@ func New[
 
 	// Pre-allocate memory for the index if hintNumIndexes is set > 0
 	if hintNumIndexes > 0 {
-		allocator.Reallocate(int(float64(distance.NodeSize()*hintNumIndexes) * reallocation_factor))
+		allocator.Reallocate(int(float64(distance.NodeSize()) * float64(hintNumIndexes) * reallocation_factor))
 	}
 
 	return index
@@ -478,7 +478,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) allocateSize(
 		}
 
 		new_node_size := utils.Max(numNodes, TIX(float64(idx._nodes_size+1)*reallocation_factor))
-		idx._nodes = idx.allocator.Reallocate(int(new_node_size * idx.nodeSize))
+		idx._nodes = idx.allocator.Reallocate(int(new_node_size) * int(idx.nodeSize))
 		idx._nodes_size = new_node_size
 
 		if threadedBuildPolicy != nil {
diff --git a/index/annoyindex_io.go b/index/annoyindex_io.go
index f6272a9..fc8f22a 100644
--- a/index/annoyindex_io.go
+++ b/index/annoyindex_io.go
@@ -22,7 +22,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Save(fileName string) error {
 		}
 	}
 
-	data := unsafe.Slice((*byte)(idx._nodes), idx._n_nodes*idx.nodeSize)
+	data := unsafe.Slice((*byte)(idx._nodes), int(idx._n_nodes)*int(idx.nodeSize))
 
 	if err := replaceFile(fileName, data); err != nil {
 		return err
@@ -83,7 +83,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Load(fileName string) error {
 
 	idx._nodes = idx.indexMemory.Ptr()
 	idx._roots = nil
-	idx._n_nodes = TIX(idx.indexMemory.Size()) / idx.nodeSize
+	idx._n_nodes = TIX(idx.indexMemory.Size() / int64(idx.nodeSize))
 
 	// The last node is a copy of a root, hence it knows the number of items
 	m := idx.getNode(idx._n_nodes - 1).GetNumberOfDescendants()
-- 
2.43.0


From c84033f1b991332a0f79c1639e8ea414d4f411e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:26 +0000
Subject: [PATCH 12/30] fix: default random generator for uint64 indexes

The builder left it nil, and Build and Close of the index crashed.
---
 builder/index.go       | 3 ++-
 random/kiss64random.go | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/builder/index.go b/builder/index.go
index 7db4da8..231b59a 100644
--- a/builder/index.go
+++ b/builder/index.go
@@ -96,7 +96,8 @@ func (bld *AnnoyIndexBuilderImpl[TV, TIX]) Build() interfaces.AnnoyIndex[TV, TIX
 			k := random.NewKiss32Random(uint32(0))
 			bld.random = any(k).(interfaces.Random[TIX]) // Ugly hack to get around type system
 		case uint64:
-			// TODO: Need to completely refactor random!!
+			k := random.NewKiss64Random(uint64(0))
+			bld.random = any(k).(interfaces.Random[TIX])
 		}
 	}
 
diff --git a/random/kiss64random.go b/random/kiss64random.go
index 28958c6..d143bc0 100644
--- a/random/kiss64random.go
+++ b/random/kiss64random.go
@@ -73,6 +73,6 @@ func (r *Kiss64Random) GetSeed() uint64 {
 	return r.seed
 }
 
-func (r *Kiss64Random) CloneAndReset() *Kiss64Random {
+func (r *Kiss64Random) CloneAndReset() interfaces.Random[uint64] {
 	return NewKiss64Random(r.seed)
 }
-- 
2.43.0


From c5b9576288c9dbdd67443be3bfb036d899203b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:27 +0000
Subject: [PATCH 13/30] fix: reject query vectors of the wrong length

A longer vector was copied past the end of the node allocated for it, for a
shorter one memory past its end was read.
---
 index/annoyindex_search.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/index/annoyindex_search.go b/index/annoyindex_search.go
index 30b0b92..ecb0ff8 100644
--- a/index/annoyindex_search.go
+++ b/index/annoyindex_search.go
@@ -1,6 +1,7 @@
 package index
 
 import (
+	"fmt"
 	"unsafe"
 
 	"github.com/mariotoffia/goannoy/interfaces"
@@ -77,6 +78,10 @@ func (idx *AnnoyIndexImpl[TV, TIX]) GetNnsByVector(
 	numReturn, numNodesToInspect int,
 	ctx interfaces.AnnoyIndexContext[TV, TIX],
 ) (result []TIX, distances []TV) {
+	if idx.vectorLength != TIX(len(vector)) {
+		panic(fmt.Sprintf("Vector length mismatch: %d != %d", idx.vectorLength, len(vector)))
+	}
+
 	bc := ctx.(*BatchContext[TV, TIX])
 	q := sort.NewPriorityQueue[TV, TIX]()
 
-- 
2.43.0


From 86e3132efac7ede1f9f036c686f5b238b1833b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:27 +0000
Subject: [PATCH 14/30] fix: adding a new item to a built index must not
 overwrite its trees

The nodes of the trees are stored right after the items.
---
 index/annoyindex.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/index/annoyindex.go b/index/annoyindex.go
index d437a7e..49a1540 100644
--- a/index/annoyindex.go
+++ b/index/annoyindex.go
@@ -152,6 +152,10 @@ func (idx *AnnoyIndexImpl[TV, TIX]) AddItem(itemIndex TIX, v []TV) {
 		panic("Can't add items to a loaded index")
 	}
 
+	if idx.indexBuilt && itemIndex >= idx._n_items {
+		panic("Can't add new items to a built index")
+	}
+
 	if idx.vectorLength != TIX(len(v)) {
 		panic(fmt.Sprintf("Vector length mismatch: %d != %d", idx.vectorLength, len(v)))
 	}
-- 
2.43.0


From 54f536f5a0aa63ec92f64654f65f8307ffd5ff6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:20 +0000
Subject: [PATCH 15/30] fix: log nodes while building only as long as their
 memory is locked

---
 index/annoyindex.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/index/annoyindex.go b/index/annoyindex.go
index 49a1540..48130f1 100644
--- a/index/annoyindex.go
+++ b/index/annoyindex.go
@@ -341,12 +341,12 @@ func (idx *AnnoyIndexImpl[TV, TIX]) makeTree(
 			m.SetChildren(children)
 		}
 
-		threadedBuildPolicy.UnlockSharedNodes()
-
 		if idx.logVerbose {
 			fmt.Printf("added 1:node[item=%d] - %s\n", item, utils.DumpNode(idx.distance, m))
 		}
 
+		threadedBuildPolicy.UnlockSharedNodes()
+
 		return item
 	}
 
@@ -453,12 +453,13 @@ func (idx *AnnoyIndexImpl[TV, TIX]) makeTree(
 	dst := idx.getNode(item)
 
 	utils.CopyNode(dst, m, idx.nodeSize)
-	idx.buildPolicy.UnlockSharedNodes()
 
 	if idx.logVerbose {
 		fmt.Printf("added 2:node[item=%d] - %s\n", item, utils.DumpNode(idx.distance, dst))
 	}
 
+	idx.buildPolicy.UnlockSharedNodes()
+
 	return item
 }
 
-- 
2.43.0


From 211badd4ba49f663ac67874c3f07a261a9e486b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:03 +0000
Subject: [PATCH 16/30] fix: load exactly the roots also when trees were built
 concurrently

Roots of concurrently built trees may be adjacent. The copies of the roots were
then not told apart from the roots, and with two trees one of them was lost.
---
 index/annoyindex_io.go | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/index/annoyindex_io.go b/index/annoyindex_io.go
index fc8f22a..737bff5 100644
--- a/index/annoyindex_io.go
+++ b/index/annoyindex_io.go
@@ -96,22 +96,24 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Load(fileName string) error {
 		idx._roots = append(idx._roots, i-1)
 	}
 
-	// The copies of the roots are preceded by the last root or, when all the trees
-	// consist of a single node, by all the roots. Keep the copies only.
-	if half := len(idx._roots) / 2; half > 0 {
-		copies := half
-
-		for i := 0; i < half; i++ {
-			if !bytes.Equal(
+	// The copies of the roots are preceded by the last root or, when trees were built
+	// concurrently or consist of a single node, by several of the roots in the same
+	// order. Keep the copies only.
+	for n := len(idx._roots) / 2; n > 0; n-- {
+		copies := len(idx._roots) - n
+		same := true
+
+		for i := 0; i < n && same; i++ {
+			same = bytes.Equal(
 				idx.nodeBytes(idx._roots[i]),
-				idx.nodeBytes(idx._roots[len(idx._roots)-half+i]),
-			) {
-				copies = len(idx._roots) - 1
-				break
-			}
+				idx.nodeBytes(idx._roots[copies+i]),
+			)
 		}
 
-		idx._roots = idx._roots[:copies]
+		if same {
+			idx._roots = idx._roots[:copies]
+			break
+		}
 	}
 
 	idx.indexBuilt = true
-- 
2.43.0


From 530c83739e5e7a4f01f9e3a41652899e3665ee07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:03 +0000
Subject: [PATCH 17/30] fix: initialise the centroids of a split with the whole
 item

Only vectorLength bytes of the node were copied, hence the centroids started
(and, as their distance to any item did not differ, stayed) at zero for short
vectors, and were truncated for long ones: items were split at random.
---
 distance/two_means.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distance/two_means.go b/distance/two_means.go
index 8ccba10..a1aed4d 100644
--- a/distance/two_means.go
+++ b/distance/two_means.go
@@ -34,8 +34,8 @@ func TwoMeans[TV interfaces.VectorType, TIX interfaces.IndexTypes](
 		j++ // ensure that i != j
 	}
 
-	utils.CopyNode(p, nodes[i], vectorLength)
-	utils.CopyNode(q, nodes[j], vectorLength)
+	utils.CopyNode(p, nodes[i], distance.NodeSize())
+	utils.CopyNode(q, nodes[j], distance.NodeSize())
 
 	if cosine {
 		distance.Normalize(p)
-- 
2.43.0


From fe14893562d634926fea25b556d76665a23cab31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:29 +0000
Subject: [PATCH 18/30] fix: the dot product index ranks by dot product instead
 of angle

---
 distance/dotproduct/distance.go | 26 ++------------------------
 1 file changed, 2 insertions(+), 24 deletions(-)

diff --git a/distance/dotproduct/distance.go b/distance/dotproduct/distance.go
index 51231f0..3a4b2f5 100644
--- a/distance/dotproduct/distance.go
+++ b/distance/dotproduct/distance.go
@@ -149,31 +149,9 @@ func (dp *dotProductDistanceImpl[TV, TIX]) PQInitialValue() TV {
 	return TV(math.Inf(1))
 }
 
+// Distance is the negated dot product, hence the largest dot product is the smallest distance.
 func (dp *dotProductDistanceImpl[TV, TIX]) Distance(x interfaces.Node[TV, TIX], y interfaces.Node[TV, TIX]) TV {
-	pp := x.GetNorm()
-	qq := y.GetNorm()
-	xv := x.GetRawVector()
-	yv := y.GetRawVector()
-
-	if pp == 0 {
-		pp = vector.DotUnsafe(xv, xv, dp.vectorLength)
-	}
-
-	if qq == 0 {
-		qq = vector.DotUnsafe(yv, yv, dp.vectorLength)
-	}
-
-	var ppqq TV
-
-	if pp != 0 {
-		ppqq = pp * qq
-	}
-
-	if ppqq > 0 {
-		pq := vector.DotUnsafe(xv, yv, dp.vectorLength)
-		return 2.0 - 2.0*pq/TV(math.Sqrt(float64(ppqq)))
-	}
-	return 2.0
+	return -vector.DotUnsafe(x.GetRawVector(), y.GetRawVector(), dp.vectorLength)
 }
 
 func (dp *dotProductDistanceImpl[TV, TIX]) PreProcess(nodes unsafe.Pointer, node_count TIX) {
-- 
2.43.0


From d74594cc04ef4a2ceec213dc21516bf7eab868b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:38 +0000
Subject: [PATCH 19/30] fix: KISS32 multiplies with carry as published

---
 random/kiss32random.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/random/kiss32random.go b/random/kiss32random.go
index 3cfa124..65bcc02 100644
--- a/random/kiss32random.go
+++ b/random/kiss32random.go
@@ -40,7 +40,7 @@ func (r *Kiss32Random[TIX]) Next() TIX {
 	r.y ^= r.y >> 17
 	r.y ^= r.y << 5
 
-	t := uint64(698769069) + uint64(r.z) + uint64(r.c)
+	t := uint64(698769069)*uint64(r.z) + uint64(r.c)
 
 	r.c = TIX(t >> 32)
 	r.z = TIX(t)
-- 
2.43.0


From be33c07299159247863cc6b3b95e73a36a460391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:23 +0000
Subject: [PATCH 20/30] fix: split the items of a dot product index with their
 extra dimension

The items are extended by a dimension such that their angles rank them as the
dot product does, but neither splits nor sides considered that dimension. Thus,
items with the largest products were in other regions than those searched first.
---
 distance/angular/distance.go    |  4 ++--
 distance/dotproduct/distance.go | 36 ++++++++++++++-------------------
 index/annoyindex.go             |  2 +-
 interfaces/distance.go          |  4 ++--
 4 files changed, 20 insertions(+), 26 deletions(-)

diff --git a/distance/angular/distance.go b/distance/angular/distance.go
index b2d7c82..29ece17 100644
--- a/distance/angular/distance.go
+++ b/distance/angular/distance.go
@@ -117,12 +117,12 @@ func (a *angularDistanceImpl[TV, TIX]) Margin(n interfaces.Node[TV, TIX], y []TV
 }
 
 func (a *angularDistanceImpl[TV, TIX]) Side(
+	m interfaces.Node[TV, TIX],
 	n interfaces.Node[TV, TIX],
-	y []TV,
 	random interfaces.Random[TIX],
 ) interfaces.Side {
 
-	dot := a.Margin(n, y)
+	dot := a.Margin(m, n.GetVector(a.vectorLength))
 
 	if dot != 0 {
 		if dot > 0 {
diff --git a/distance/dotproduct/distance.go b/distance/dotproduct/distance.go
index 3a4b2f5..0559376 100644
--- a/distance/dotproduct/distance.go
+++ b/distance/dotproduct/distance.go
@@ -4,7 +4,7 @@ import (
 	"math"
 	"unsafe"
 
-	"github.com/mariotoffia/goannoy/distance"
+	"github.com/mariotoffia/goannoy/distance/angular"
 	"github.com/mariotoffia/goannoy/interfaces"
 	"github.com/mariotoffia/goannoy/vector"
 )
@@ -64,24 +64,18 @@ func (dp *dotProductDistanceImpl[TV, TIX]) CreateSplit(
 	random interfaces.Random[TIX],
 	n interfaces.Node[TV, TIX],
 ) {
-	// Allocate memory for two nodes, and use them as temporary nodes
-	p_mem := make([]byte, nodeSize)
-	q_mem := make([]byte, nodeSize)
-
-	p := (*DotProductNodeImpl[TV, TIX])(unsafe.Pointer(unsafe.SliceData(p_mem)))
-	q := (*DotProductNodeImpl[TV, TIX])(unsafe.Pointer(unsafe.SliceData(q_mem)))
-
-	distance.TwoMeans[TV, TIX](nodes, dp.vectorLength, random, true, p, q, dp)
-
-	nv := n.GetVector(dp.vectorLength)
-	qv := q.GetVector(dp.vectorLength)
-	pv := p.GetVector(dp.vectorLength)
+	// With the extra dimension, that directly precedes the vector, the space is angular
+	// and a node is an angular node with one more dimension.
+	extended := func(node interfaces.Node[TV, TIX]) interfaces.Node[TV, TIX] {
+		return (*angular.AngularNodeImpl[TV, TIX])(unsafe.Pointer(node.(*DotProductNodeImpl[TV, TIX])))
+	}
 
-	for z := TIX(0); z < dp.vectorLength; z++ {
-		nv[z] = pv[z] - qv[z]
+	extendedNodes := make([]interfaces.Node[TV, TIX], len(nodes))
+	for i, node := range nodes {
+		extendedNodes[i] = extended(node)
 	}
 
-	dp.Normalize(n)
+	angular.Distance[TV](dp.vectorLength+1).CreateSplit(extendedNodes, nodeSize, random, extended(n))
 }
 
 func (dp *dotProductDistanceImpl[TV, TIX]) Normalize(node interfaces.Node[TV, TIX]) {
@@ -106,22 +100,22 @@ func (dp *dotProductDistanceImpl[TV, TIX]) Margin(n interfaces.Node[TV, TIX], y
 		panic("y is empty")
 	}
 
-	df := n.(*DotProductNodeImpl[TV, TIX]).dot_factor
-
+	// The extra dimension of a vector to search for is zero
 	return vector.DotUnsafe(
 		n.GetRawVector(),
 		(*TV)(unsafe.Pointer(unsafe.SliceData(y))),
 		dp.vectorLength,
-	) + (df * df)
+	)
 }
 
 func (dp *dotProductDistanceImpl[TV, TIX]) Side(
+	m interfaces.Node[TV, TIX],
 	n interfaces.Node[TV, TIX],
-	y []TV,
 	random interfaces.Random[TIX],
 ) interfaces.Side {
 
-	dot := dp.Margin(n, y)
+	dot := dp.Margin(m, n.GetVector(dp.vectorLength)) +
+		m.(*DotProductNodeImpl[TV, TIX]).dot_factor*n.(*DotProductNodeImpl[TV, TIX]).dot_factor
 
 	if dot != 0 {
 		if dot > 0 {
diff --git a/index/annoyindex.go b/index/annoyindex.go
index 48130f1..a926b7d 100644
--- a/index/annoyindex.go
+++ b/index/annoyindex.go
@@ -379,7 +379,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) makeTree(
 
 			side := idx.distance.Side(
 				m,
-				n.GetVector(idx.vectorLength),
+				n,
 				rnd,
 			)
 
diff --git a/interfaces/distance.go b/interfaces/distance.go
index 0e425c8..36cb288 100644
--- a/interfaces/distance.go
+++ b/interfaces/distance.go
@@ -35,10 +35,10 @@ type Distance[TV VectorType, TIX IndexTypes] interface {
 		random Random[TIX],
 		m Node[TV, TIX],
 	)
-	// Side determines which side of the children indices to use when a split is made.
+	// Side determines which side of the split node _m_ the node _n_ belongs to when a split is made.
 	Side(
 		m Node[TV, TIX],
-		v []TV,
+		n Node[TV, TIX],
 		random Random[TIX],
 	) Side
 	// MapNodeToMemory will map the node to existing memory and use that for storage.
-- 
2.43.0


From 22567d0dc56e408de0fdfd7066a86efedb44a68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:21 +0000
Subject: [PATCH 21/30] fix: indexes made by one builder do not share their
 memory

---
 builder/index.go | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/builder/index.go b/builder/index.go
index 231b59a..ae8b1fb 100644
--- a/builder/index.go
+++ b/builder/index.go
@@ -76,37 +76,41 @@ func (bld *AnnoyIndexBuilderImpl[TV, TIX]) VerboseLogging() *AnnoyIndexBuilderIm
 
 func (bld *AnnoyIndexBuilderImpl[TV, TIX]) Build() interfaces.AnnoyIndex[TV, TIX] {
 
-	if bld.buildPolicy == nil {
-		bld.buildPolicy = policy.SingleWorker()
+	// The builder itself is left as it is: what is created here belongs to this index only.
+	rnd, buildPolicy := bld.random, bld.buildPolicy
+	allocator, indexMemoryAllocator := bld.allocator, bld.indexMemoryAllocator
+
+	if buildPolicy == nil {
+		buildPolicy = policy.SingleWorker()
 	}
 
-	if bld.allocator == nil {
-		bld.allocator = memory.GoGCIndexAllocator()
+	if allocator == nil {
+		allocator = memory.GoGCIndexAllocator()
 	}
 
-	if bld.indexMemoryAllocator == nil {
-		bld.indexMemoryAllocator = memory.MmapIndexAllocator()
+	if indexMemoryAllocator == nil {
+		indexMemoryAllocator = memory.MmapIndexAllocator()
 	}
 
-	if bld.random == nil {
+	if rnd == nil {
 		var t TIX
 
 		switch any(t).(type) {
 		case uint32:
 			k := random.NewKiss32Random(uint32(0))
-			bld.random = any(k).(interfaces.Random[TIX]) // Ugly hack to get around type system
+			rnd = any(k).(interfaces.Random[TIX]) // Ugly hack to get around type system
 		case uint64:
 			k := random.NewKiss64Random(uint64(0))
-			bld.random = any(k).(interfaces.Random[TIX])
+			rnd = any(k).(interfaces.Random[TIX])
 		}
 	}
 
 	return index.New(
-		bld.random,
+		rnd,
 		bld.distance,
-		bld.buildPolicy,
-		bld.allocator,
-		bld.indexMemoryAllocator,
+		buildPolicy,
+		allocator,
+		indexMemoryAllocator,
 		bld.sorter,
 		bld.logVerbose,
 		bld.allocHint,
-- 
2.43.0


From 02dff8c2ae3cba4c9d567fa7b06439f72c9d7869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:28 +0000
Subject: [PATCH 22/30] fix: file allocators may be shared by indexes that load
 and close at the same time

---
 index/memory/index_allocator_gcmem.go | 14 +++++++++++++-
 index/memory/index_allocator_mmap.go  | 14 +++++++++++++-
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/index/memory/index_allocator_gcmem.go b/index/memory/index_allocator_gcmem.go
index 4b17beb..0edad79 100644
--- a/index/memory/index_allocator_gcmem.go
+++ b/index/memory/index_allocator_gcmem.go
@@ -4,12 +4,14 @@ import (
 	"fmt"
 	"io"
 	"os"
+	"sync"
 	"unsafe"
 
 	"github.com/mariotoffia/goannoy/interfaces"
 )
 
 type fileIndexerAllocator struct {
+	mu      sync.Mutex
 	indexes map[string]*fileIndexAllocation
 }
 
@@ -31,7 +33,11 @@ func (fi *fileIndexAllocation) Size() int64 {
 
 // Implements `io.Closer` interface
 func (fi *fileIndexAllocation) Close() error {
-	delete(fi.parent.indexes, fi.fqFile)
+	fi.parent.mu.Lock()
+	if fi.parent.indexes[fi.fqFile] == fi {
+		delete(fi.parent.indexes, fi.fqFile)
+	}
+	fi.parent.mu.Unlock()
 
 	fi.data = nil
 	fi.ptr = nil
@@ -46,6 +52,9 @@ func FileIndexMemoryAllocator() *fileIndexerAllocator {
 }
 
 func (mm *fileIndexerAllocator) Get(fqFile string) (interfaces.AllocatedIndex, bool) {
+	mm.mu.Lock()
+	defer mm.mu.Unlock()
+
 	index, ok := mm.indexes[fqFile]
 	return index, ok
 }
@@ -82,6 +91,9 @@ func (mm *fileIndexerAllocator) Open(fqFile string) (interfaces.AllocatedIndex,
 		data:   data,
 	}
 
+	mm.mu.Lock()
 	mm.indexes[fqFile] = fi
+	mm.mu.Unlock()
+
 	return fi, nil
 }
diff --git a/index/memory/index_allocator_mmap.go b/index/memory/index_allocator_mmap.go
index aa320df..a7f28f4 100644
--- a/index/memory/index_allocator_mmap.go
+++ b/index/memory/index_allocator_mmap.go
@@ -2,6 +2,7 @@ package memory
 
 import (
 	"os"
+	"sync"
 	"syscall"
 	"unsafe"
 
@@ -9,6 +10,7 @@ import (
 )
 
 type mmapIndexAllocator struct {
+	mu      sync.Mutex
 	indexes map[string]*mmapIndexAllocation
 }
 
@@ -31,7 +33,11 @@ func (mi *mmapIndexAllocation) Size() int64 {
 
 // Implements `io.Closer` interface
 func (mi *mmapIndexAllocation) Close() error {
-	delete(mi.parent.indexes, mi.fqFile)
+	mi.parent.mu.Lock()
+	if mi.parent.indexes[mi.fqFile] == mi {
+		delete(mi.parent.indexes, mi.fqFile)
+	}
+	mi.parent.mu.Unlock()
 
 	var err error
 
@@ -59,6 +65,9 @@ func MmapIndexAllocator() *mmapIndexAllocator {
 }
 
 func (mm *mmapIndexAllocator) Get(fqFile string) (interfaces.AllocatedIndex, bool) {
+	mm.mu.Lock()
+	defer mm.mu.Unlock()
+
 	index, ok := mm.indexes[fqFile]
 	return index, ok
 }
@@ -99,6 +108,9 @@ func (mm *mmapIndexAllocator) Open(fqFile string) (interfaces.AllocatedIndex, er
 		data:   data,
 	}
 
+	mm.mu.Lock()
 	mm.indexes[fqFile] = mi
+	mm.mu.Unlock()
+
 	return mi, nil
 }
-- 
2.43.0


From 8cadfe9a1edaec6a03f5b90bcc7e11b143193864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:06 +0000
Subject: [PATCH 23/30] fix: ids of items that do not exist are refused instead
 of read from foreign memory

---
 index/annoyindex.go        | 10 ++++++++++
 index/annoyindex_search.go |  4 ++++
 2 files changed, 14 insertions(+)

diff --git a/index/annoyindex.go b/index/annoyindex.go
index a926b7d..bec1159 100644
--- a/index/annoyindex.go
+++ b/index/annoyindex.go
@@ -144,9 +144,19 @@ func (idx *AnnoyIndexImpl[TV, TIX]) VectorLength() TIX {
 }
 
 func (idx *AnnoyIndexImpl[TV, TIX]) GetItem(itemIndex TIX) []TV {
+	idx.checkItem(itemIndex)
+
 	return idx.getNode(itemIndex).GetVector(idx.vectorLength)
 }
 
+// checkItem panics when there is no item at _itemIndex_, it would be read from memory that
+// does not belong to the items.
+func (idx *AnnoyIndexImpl[TV, TIX]) checkItem(itemIndex TIX) {
+	if itemIndex >= idx._n_items {
+		panic(fmt.Sprintf("Item index out of range: %d >= %d", itemIndex, idx._n_items))
+	}
+}
+
 func (idx *AnnoyIndexImpl[TV, TIX]) AddItem(itemIndex TIX, v []TV) {
 	if idx.indexLoaded {
 		panic("Can't add items to a loaded index")
diff --git a/index/annoyindex_search.go b/index/annoyindex_search.go
index ecb0ff8..f135dee 100644
--- a/index/annoyindex_search.go
+++ b/index/annoyindex_search.go
@@ -42,6 +42,9 @@ func (idx *AnnoyIndexImpl[TV, TIX]) CreateContext() interfaces.AnnoyIndexContext
 
 // GetDistance returns the distance between the two indexes.
 func (idx *AnnoyIndexImpl[TV, TIX]) GetDistance(i, j TIX) TV {
+	idx.checkItem(i)
+	idx.checkItem(j)
+
 	ni := idx.distance.MapNodeToMemory(idx._nodes, i)
 	nj := idx.distance.MapNodeToMemory(idx._nodes, j)
 
@@ -57,6 +60,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) GetNnsByItem(
 	numReturn, numNodesToInspect int,
 	ctx interfaces.AnnoyIndexContext[TV, TIX],
 ) (result []TIX, distances []TV) {
+	idx.checkItem(item)
 
 	node := idx.distance.MapNodeToMemory(
 		idx._nodes,
-- 
2.43.0


From 56fa0c79399be892b5d589dbb99169ea3515b69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:06 +0000
Subject: [PATCH 24/30] fix: an index without trees is refused by Save instead
 of saved as another one

---
 index/annoyindex_io.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/index/annoyindex_io.go b/index/annoyindex_io.go
index 737bff5..6a131d8 100644
--- a/index/annoyindex_io.go
+++ b/index/annoyindex_io.go
@@ -14,6 +14,11 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Save(fileName string) error {
 		return fmt.Errorf("can't save an index that hasn't been built")
 	}
 
+	// The roots at the end of the file tell how many items there are
+	if len(idx._roots) == 0 {
+		return fmt.Errorf("can't save an index that has no trees")
+	}
+
 	if idx.logVerbose {
 		fmt.Println("Saving index to file", fileName, "with", idx._n_nodes, "nodes")
 		for i := TIX(0); i < idx._n_nodes; i++ {
-- 
2.43.0


From 89fdb6ec0f34944ac104b13017a06fb4de3bfd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:21 +0000
Subject: [PATCH 25/30] fix: workers use the locks of the policy they were
 handed, also for split nodes

---
 index/annoyindex.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/index/annoyindex.go b/index/annoyindex.go
index bec1159..66b67bf 100644
--- a/index/annoyindex.go
+++ b/index/annoyindex.go
@@ -453,13 +453,13 @@ func (idx *AnnoyIndexImpl[TV, TIX]) makeTree(
 
 	m.SetChildren(child_first)
 
-	idx.buildPolicy.LockNNodes()
+	threadedBuildPolicy.LockNNodes()
 	idx.allocateSize(idx._n_nodes+1, threadedBuildPolicy)
 	item := idx._n_nodes
 	idx._n_nodes++
-	idx.buildPolicy.UnlockNNodes()
+	threadedBuildPolicy.UnlockNNodes()
 
-	idx.buildPolicy.LockSharedNodes()
+	threadedBuildPolicy.LockSharedNodes()
 	dst := idx.getNode(item)
 
 	utils.CopyNode(dst, m, idx.nodeSize)
@@ -468,7 +468,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) makeTree(
 		fmt.Printf("added 2:node[item=%d] - %s\n", item, utils.DumpNode(idx.distance, dst))
 	}
 
-	idx.buildPolicy.UnlockSharedNodes()
+	threadedBuildPolicy.UnlockSharedNodes()
 
 	return item
 }
-- 
2.43.0


From 36cf6440f0c161a340b0cc320e5910a1a37a6184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:23 +0000
Subject: [PATCH 26/30] fix: a search for any number of items with the default
 budget finds all of them

---
 index/annoyindex_search.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/index/annoyindex_search.go b/index/annoyindex_search.go
index f135dee..0e112e2 100644
--- a/index/annoyindex_search.go
+++ b/index/annoyindex_search.go
@@ -2,6 +2,7 @@ package index
 
 import (
 	"fmt"
+	"math"
 	"unsafe"
 
 	"github.com/mariotoffia/goannoy/interfaces"
@@ -90,7 +91,11 @@ func (idx *AnnoyIndexImpl[TV, TIX]) GetNnsByVector(
 	q := sort.NewPriorityQueue[TV, TIX]()
 
 	if numNodesToInspect == -1 {
-		numNodesToInspect = numReturn * len(idx._roots)
+		if roots := len(idx._roots); roots > 0 && numReturn > math.MaxInt/roots {
+			numNodesToInspect = math.MaxInt
+		} else {
+			numNodesToInspect = numReturn * roots
+		}
 	}
 
 	// The queue pops the smallest element first, hence push the negated priority
-- 
2.43.0


From 9b0e5b97b17c6abd469672a86de397fd4bd451a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:36 +0000
Subject: [PATCH 27/30] fix: AddItem refuses ids whose memory cannot be
 addressed instead of writing elsewhere

---
 index/annoyindex.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/index/annoyindex.go b/index/annoyindex.go
index 66b67bf..7f85ad6 100644
--- a/index/annoyindex.go
+++ b/index/annoyindex.go
@@ -170,6 +170,11 @@ func (idx *AnnoyIndexImpl[TV, TIX]) AddItem(itemIndex TIX, v []TV) {
 		panic(fmt.Sprintf("Vector length mismatch: %d != %d", idx.vectorLength, len(v)))
 	}
 
+	// The memory up to the node, and its growth, must be addressable
+	if uint64(itemIndex) >= math.MaxInt/2/uint64(idx.nodeSize) || itemIndex+1 == 0 {
+		panic(fmt.Sprintf("Item index out of range: %d", itemIndex))
+	}
+
 	// Ensure that we have enough memory for the new node
 	idx.allocateSize(itemIndex+1, nil)
 
-- 
2.43.0


From 969841c59bc8e3a7cf7d29fca89d18b7e3c142cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:48 +0000
Subject: [PATCH 28/30] fix: the precision tool reports that it could not write
 the results

---
 cmd/precision/main.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cmd/precision/main.go b/cmd/precision/main.go
index ff076ef..b7200e4 100644
--- a/cmd/precision/main.go
+++ b/cmd/precision/main.go
@@ -142,9 +142,15 @@ func main() {
 			panic(fmt.Sprintf("Error creating file: %s", err.Error()))
 		}
 
-		defer f.Close()
-		f.WriteString(buffer.(*bytes.Buffer).String())
+		_, err = f.WriteString(buffer.(*bytes.Buffer).String())
 
+		if err2 := f.Close(); err == nil {
+			err = err2
+		}
+
+		if err != nil {
+			panic(fmt.Sprintf("Error writing file: %s", err.Error()))
+		}
 	}()
 
 	if justGenerate {
-- 
2.43.0


From 29d7216fa25782420d9d4e56b3275a3f5c78fd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:54 +0000
Subject: [PATCH 29/30] fix: Save uses a temporary file of its own instead of
 any file with that name

---
 index/annoyindex_io.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/index/annoyindex_io.go b/index/annoyindex_io.go
index 6a131d8..01d4b18 100644
--- a/index/annoyindex_io.go
+++ b/index/annoyindex_io.go
@@ -40,13 +40,13 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Save(fileName string) error {
 // when completely written. Hence, an existing file is never seen half written and may be
 // mapped into memory (even by the index that is being saved).
 func replaceFile(fileName string, data []byte) error {
-	tmpName := fileName + ".tmp"
-
-	file, err := os.Create(tmpName)
+	file, err := createTemporary(fileName)
 	if err != nil {
 		return err
 	}
 
+	tmpName := file.Name()
+
 	_, err = file.Write(data)
 
 	if err == nil {
@@ -68,6 +68,19 @@ func replaceFile(fileName string, data []byte) error {
 	return err
 }
 
+// createTemporary creates a file, next to _fileName_, that neither is an existing file nor
+// in use by another one that saves to _fileName_.
+func createTemporary(fileName string) (*os.File, error) {
+	for i := 0; ; i++ {
+		tmpName := fmt.Sprintf("%s.%d.tmp", fileName, i)
+
+		file, err := os.OpenFile(tmpName, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0o666)
+		if !os.IsExist(err) {
+			return file, err
+		}
+	}
+}
+
 func (idx *AnnoyIndexImpl[TV, TIX]) Load(fileName string) error {
 	// Close any existing index and free resources
 	idx.Close()
-- 
2.43.0


From 19879bb74d579c7953fec59d846efaf44db461eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:27 +0000
Subject: [PATCH 30/30] fix: a seeded GoRandom draws from its seed

---
 random/gorand.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/random/gorand.go b/random/gorand.go
index b237298..3041a17 100644
--- a/random/gorand.go
+++ b/random/gorand.go
@@ -17,7 +17,7 @@ func NewGoRandom() *GoRandom {
 }
 
 func NewGoRandomWithSeed(seed uint32) *GoRandom {
-	src := rand.NewSource(time.Now().UnixNano())
+	src := rand.NewSource(int64(seed))
 	return &GoRandom{
 		rng:  rand.New(src),
 		seed: seed,
@@ -53,6 +53,7 @@ func (r *GoRandom) GetSeed() uint32 {
 
 func (r *GoRandom) SetSeed(seed uint32) {
 	r.rng.Seed(int64(seed))
+	r.seed = seed
 }
 
 func (r *GoRandom) CloneAndReset() *GoRandom {
-- 
2.43.0

