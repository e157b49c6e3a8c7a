From 4e9de08964cba0b6677efa8fa7298eab03b3537a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:21 +0000
Subject: [PATCH 01/16] fix: use the thread index within the own team when
 generating edges

Called from inside a parallel region of the application, the sequential
code paths used the thread number of that outer region to select the
random generator and the edge buffer: irreproducible at best, out of
bounds at worst. Pass the index down from where the team is created.
---
 source/girgs/include/girgs/SpatialTree.h      | 31 +++++++------
 source/girgs/include/girgs/SpatialTree.inl    | 31 +++++++------
 .../include/hypergirgs/HyperbolicTree.h       |  8 ++--
 .../include/hypergirgs/HyperbolicTree.inl     | 43 +++++++++----------
 4 files changed, 56 insertions(+), 57 deletions(-)

diff --git a/source/girgs/include/girgs/SpatialTree.h b/source/girgs/include/girgs/SpatialTree.h
index 714c9d0..dec4e8b 100644
--- a/source/girgs/include/girgs/SpatialTree.h
+++ b/source/girgs/include/girgs/SpatialTree.h
@@ -66,21 +66,24 @@ protected:
      *  The reverse edges sampled by this function are not stored.
      * @param level
      *  The level from which A and B are, meaning cellA and cellB must be in the same level.
+     * @param threadId
+     *  The index of the calling thread within generateEdges(int) (0 outside of its parallel part).
+     *  Selects the random generator and is passed on to the edge callback.
      */
-    void visitCellPair(unsigned int cellA, unsigned int cellB, unsigned int level);
+    void visitCellPair(unsigned int cellA, unsigned int cellB, unsigned int level, int threadId);
 
     /**
      * @brief
-     *  Same as visitCellPair(unsigned int, unsigned int, unsigned int) but stops recursion before first_parallel_level.
+     *  Same as visitCellPair(unsigned int, unsigned int, unsigned int, int) but stops recursion before first_parallel_level.
      *  Instead, the calls that would be made in this level are saved in parallel_calls.
      *  The saved calls are grouped by their (level local) cellA parameter.
      *
      * @param cellA
-     *  Same as in visitCellPair(unsigned int, unsigned int, unsigned int).
+     *  Same as in visitCellPair(unsigned int, unsigned int, unsigned int, int).
      * @param cellB
-     *  Same as in visitCellPair(unsigned int, unsigned int, unsigned int).
+     *  Same as in visitCellPair(unsigned int, unsigned int, unsigned int, int).
      * @param level
-     *  Same as in visitCellPair(unsigned int, unsigned int, unsigned int).
+     *  Same as in visitCellPair(unsigned int, unsigned int, unsigned int, int).
      * @param first_parallel_level
      *  The level before which we "saw off" the recursion.
      *  To get sufficient parallel cells (the outer size of parallel_calls) this should be computed as
@@ -89,7 +92,7 @@ protected:
      * @param parallel_calls
      */
     void visitCellPair_sequentialStart(unsigned int cellA, unsigned int cellB, unsigned int level,
-            unsigned int first_parallel_level, std::vector<std::vector<unsigned int>>& parallel_calls);
+            unsigned int first_parallel_level, std::vector<std::vector<unsigned int>>& parallel_calls, int threadId);
 
     /**
      * @brief
@@ -97,17 +100,17 @@ protected:
      *  Type 1 means the cells A and B must touch or be identical.
      *
      * @param cellA
-     *  Same as in visitCellPair(unsigned int, unsigned int, unsigned int).
+     *  Same as in visitCellPair(unsigned int, unsigned int, unsigned int, int).
      * @param cellB
-     *  Same as in visitCellPair(unsigned int, unsigned int, unsigned int).
+     *  Same as in visitCellPair(unsigned int, unsigned int, unsigned int, int).
      * @param level
-     *  Same as in visitCellPair(unsigned int, unsigned int, unsigned int).
+     *  Same as in visitCellPair(unsigned int, unsigned int, unsigned int, int).
      * @param i
      *  The weight layer for all considered nodes in cellA.
      * @param j
      *  The weight layer for all considered nodes in cellB.
      */
-    void sampleTypeI(unsigned int cellA, unsigned int cellB, unsigned int level, unsigned int i, unsigned int j);
+    void sampleTypeI(unsigned int cellA, unsigned int cellB, unsigned int level, unsigned int i, unsigned int j, int threadId);
 
     /**
      * @brief
@@ -115,17 +118,17 @@ protected:
      *  Type 2 means the cells A and B must not touch.
      *
      * @param cellA
-     *  Same as in visitCellPair(unsigned int, unsigned int, unsigned int).
+     *  Same as in visitCellPair(unsigned int, unsigned int, unsigned int, int).
      * @param cellB
-     *  Same as in visitCellPair(unsigned int, unsigned int, unsigned int).
+     *  Same as in visitCellPair(unsigned int, unsigned int, unsigned int, int).
      * @param level
-     *  Same as in visitCellPair(unsigned int, unsigned int, unsigned int).
+     *  Same as in visitCellPair(unsigned int, unsigned int, unsigned int, int).
      * @param i
      *  The weight layer for all considered nodes in cellA.
      * @param j
      *  The weight layer for all considered nodes in cellB.
      */
-    void sampleTypeII(unsigned int cellA, unsigned int cellB, unsigned int level, unsigned int i, unsigned int j);
+    void sampleTypeII(unsigned int cellA, unsigned int cellB, unsigned int level, unsigned int i, unsigned int j, int threadId);
 
     /**
      * @brief
diff --git a/source/girgs/include/girgs/SpatialTree.inl b/source/girgs/include/girgs/SpatialTree.inl
index 90579ce..11119de 100644
--- a/source/girgs/include/girgs/SpatialTree.inl
+++ b/source/girgs/include/girgs/SpatialTree.inl
@@ -57,7 +57,7 @@ void SpatialTree<D, EdgeCallback>::generateEdges(int seed) {
     // sample all edges
 	if (num_threads == 1) { 
         // sequential
-		visitCellPair(0, 0, 0);
+		visitCellPair(0, 0, 0, 0);
 		assert(m_type1_checks + m_type2_checks == m_n*(m_n - 1ll));
 		return;
     }
@@ -69,14 +69,14 @@ void SpatialTree<D, EdgeCallback>::generateEdges(int seed) {
 
     // saw off recursion before "first_parallel_level" and save all calls that would be made
     auto parallel_calls = std::vector<std::vector<unsigned int>>(parallel_cells);
-    visitCellPair_sequentialStart(0, 0, 0, first_parallel_level, parallel_calls);
+    visitCellPair_sequentialStart(0, 0, 0, first_parallel_level, parallel_calls, 0);
 
     // do the collected calls in parallel
     #pragma omp parallel for schedule(static), num_threads(num_threads) // dynamic scheduling would be better but not reproducible
     for (int i = 0; i < parallel_cells; ++i) {
         auto current_cell = first_parallel_cell + i;
         for (auto each : parallel_calls[i])
-            visitCellPair(current_cell, each, first_parallel_level);
+            visitCellPair(current_cell, each, first_parallel_level, omp_get_thread_num());
     }
 
     assert(m_type1_checks + m_type2_checks == m_n*(m_n - 1ll));
@@ -84,7 +84,7 @@ void SpatialTree<D, EdgeCallback>::generateEdges(int seed) {
 
 
 template<unsigned int D, typename EdgeCallback>
-void SpatialTree<D, EdgeCallback>::visitCellPair(unsigned int cellA, unsigned int cellB, unsigned int level) {
+void SpatialTree<D, EdgeCallback>::visitCellPair(unsigned int cellA, unsigned int cellB, unsigned int level, int threadId) {
     if(!CoordinateHelper::touching(cellA, cellB, level)) { // not touching
         // sample all type 2 occurrences with this cell pair
         #ifdef NDEBUG
@@ -92,14 +92,14 @@ void SpatialTree<D, EdgeCallback>::visitCellPair(unsigned int cellA, unsigned in
         #endif // NDEBUG
         for(auto l=level; l<m_levels; ++l)
             for(auto& layer_pair : m_layer_pairs[l])
-                sampleTypeII(cellA, cellB, level, layer_pair.first, layer_pair.second);
+                sampleTypeII(cellA, cellB, level, layer_pair.first, layer_pair.second, threadId);
         return;
     }
 
     // sample all type 1 occurrences with this cell pair
     for(auto& layer_pair : m_layer_pairs[level]){
         if(cellA != cellB || layer_pair.first <= layer_pair.second)
-            sampleTypeI(cellA, cellB, level, layer_pair.first, layer_pair.second);
+            sampleTypeI(cellA, cellB, level, layer_pair.first, layer_pair.second, threadId);
     }
 
     // break if last level reached
@@ -110,7 +110,7 @@ void SpatialTree<D, EdgeCallback>::visitCellPair(unsigned int cellA, unsigned in
     // these will be type 1 if a and b touch or type 2 if they don't
     for(auto a = CoordinateHelper::firstChild(cellA); a<=CoordinateHelper::lastChild(cellA); ++a)
         for(auto b = cellA == cellB ? a : CoordinateHelper::firstChild(cellB); b<=CoordinateHelper::lastChild(cellB); ++b)
-            visitCellPair(a, b, level+1);
+            visitCellPair(a, b, level+1, threadId);
 }
 
 
@@ -118,7 +118,8 @@ void SpatialTree<D, EdgeCallback>::visitCellPair(unsigned int cellA, unsigned in
 template<unsigned int D, typename EdgeCallback>
 void SpatialTree<D, EdgeCallback>::visitCellPair_sequentialStart(unsigned int cellA, unsigned int cellB, unsigned int level,
                                                    unsigned int first_parallel_level,
-                                                   std::vector<std::vector<unsigned int>> &parallel_calls) {
+                                                   std::vector<std::vector<unsigned int>> &parallel_calls,
+                                                   int threadId) {
     if(!CoordinateHelper::touching(cellA, cellB, level)) { // not touching
         // sample all type 2 occurrences with this cell pair
         #ifdef NDEBUG
@@ -126,14 +127,14 @@ void SpatialTree<D, EdgeCallback>::visitCellPair_sequentialStart(unsigned int ce
         #endif // NDEBUG
         for(auto l=level; l<m_levels; ++l)
             for(auto& layer_pair : m_layer_pairs[l])
-                sampleTypeII(cellA, cellB, level, layer_pair.first, layer_pair.second);
+                sampleTypeII(cellA, cellB, level, layer_pair.first, layer_pair.second, threadId);
         return;
     }
 
     // sample all type 1 occurrences with this cell pair
     for(auto& layer_pair : m_layer_pairs[level]){
         if(cellA != cellB || layer_pair.first <= layer_pair.second)
-            sampleTypeI(cellA, cellB, level, layer_pair.first, layer_pair.second);
+            sampleTypeI(cellA, cellB, level, layer_pair.first, layer_pair.second, threadId);
     }
 
     // break if last level reached
@@ -147,7 +148,7 @@ void SpatialTree<D, EdgeCallback>::visitCellPair_sequentialStart(unsigned int ce
             if(level+1 == first_parallel_level)
                 parallel_calls[a-CoordinateHelper::firstCellOfLevel(first_parallel_level)].push_back(b);
             else
-                visitCellPair_sequentialStart(a, b, level+1, first_parallel_level, parallel_calls);
+                visitCellPair_sequentialStart(a, b, level+1, first_parallel_level, parallel_calls, threadId);
         }
 }
 
@@ -156,7 +157,7 @@ void SpatialTree<D, EdgeCallback>::visitCellPair_sequentialStart(unsigned int ce
 template<unsigned int D, typename EdgeCallback>
 void SpatialTree<D, EdgeCallback>::sampleTypeI(
         unsigned int cellA, unsigned int cellB, unsigned int level,
-        unsigned int i, unsigned int j)
+        unsigned int i, unsigned int j, int threadId)
 {
     assert(partitioningBaseLevel(i, j) == level || !CoordinateHelper::touching(cellA, cellB, level)); // in this case we were redirected from typeII with maxProb==1.0
 
@@ -179,7 +180,6 @@ void SpatialTree<D, EdgeCallback>::sampleTypeI(
 #endif // NDEBUG
 
     std::uniform_real_distribution<> dist;
-    const auto threadId = omp_get_thread_num();
 
     const auto inThresholdMode = m_alpha == std::numeric_limits<double>::infinity();
 
@@ -224,7 +224,7 @@ void SpatialTree<D, EdgeCallback>::sampleTypeI(
 template<unsigned int D, typename EdgeCallback>
 void SpatialTree<D, EdgeCallback>::sampleTypeII(
         unsigned int cellA, unsigned int cellB, unsigned int level,
-        unsigned int i, unsigned int j)
+        unsigned int i, unsigned int j, int threadId)
 {
     assert(partitioningBaseLevel(i, j) >= level);
 
@@ -250,7 +250,7 @@ void SpatialTree<D, EdgeCallback>::sampleTypeII(
     // branch predictions and prefetching. Hence low expected skip distances
     // it's cheapter to throw a coin each time!
     if (max_connection_prob > 0.2) {
-        return sampleTypeI(cellA, cellB, level, i, j);
+        return sampleTypeI(cellA, cellB, level, i, j, threadId);
     }
 
 #ifndef NDEBUG
@@ -262,7 +262,6 @@ void SpatialTree<D, EdgeCallback>::sampleTypeII(
         return;
 
     // init geometric distribution
-    auto threadId = omp_get_thread_num();
     auto& gen = m_gens[threadId];
     auto geo = std::geometric_distribution<unsigned long long>(max_connection_prob);
     auto dist = std::uniform_real_distribution<>(0, max_connection_prob);
diff --git a/source/hypergirgs/include/hypergirgs/HyperbolicTree.h b/source/hypergirgs/include/hypergirgs/HyperbolicTree.h
index 0b2216a..e8277b7 100644
--- a/source/hypergirgs/include/hypergirgs/HyperbolicTree.h
+++ b/source/hypergirgs/include/hypergirgs/HyperbolicTree.h
@@ -46,13 +46,13 @@ protected:
 
     /// Performs same recursion as visitCellPairCreateTasks, but samples for cells skipp by visitCellPairCreateTasks.
     int visitCellPairSample(unsigned int cellA, unsigned int cellB, unsigned int level, unsigned int first_parallel_level,
-                                  int num_threads, int thread_shift, default_random_engine& gen) const;
+                                  int num_threads, int thread_shift, default_random_engine& gen, int threadId) const;
 
     /// Recursively sample cellA and cellB for level and higher
-    void visitCellPair(unsigned int cellA, unsigned int cellB, unsigned int level, default_random_engine& gen) const;
+    void visitCellPair(unsigned int cellA, unsigned int cellB, unsigned int level, default_random_engine& gen, int threadId) const;
 
-    void sampleTypeI(unsigned int cellA, unsigned int cellB, unsigned int level, unsigned int i, unsigned int j, default_random_engine& gen) const;
-    void sampleTypeII(unsigned int cellA, unsigned int cellB, unsigned int level, unsigned int i, unsigned int j, default_random_engine& gen) const;
+    void sampleTypeI(unsigned int cellA, unsigned int cellB, unsigned int level, unsigned int i, unsigned int j, default_random_engine& gen, int threadId) const;
+    void sampleTypeII(unsigned int cellA, unsigned int cellB, unsigned int level, unsigned int i, unsigned int j, default_random_engine& gen, int threadId) const;
 
     /// takes lower bound on radius for two layers
     unsigned int partitioningBaseLevel(double r1, double r2) const;
diff --git a/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl b/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
index ebd2770..5354db2 100644
--- a/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
+++ b/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
@@ -62,7 +62,7 @@ void HyperbolicTree<EdgeCallback>::generate(int seed) const {
     const auto num_threads = omp_get_max_threads();
     if(num_threads == 1) {
         default_random_engine master_gen(seed >= 0 ? seed : std::random_device{}());
-        visitCellPair(0,0,0, master_gen);
+        visitCellPair(0,0,0, master_gen, 0);
         assert(m_type1_checks + m_type2_checks == static_cast<long long>(m_n-1) * m_n);
         return;
     }
@@ -121,7 +121,7 @@ void HyperbolicTree<EdgeCallback>::generate(int seed) const {
 
         // all others will sample the cells in the first levels of the recursion tree
         if (tid + 1 < num_threads) {
-            visitCellPairSample(0, 0, 0, first_parallel_level, num_threads - 1, tid, gens[tid]);
+            visitCellPairSample(0, 0, 0, first_parallel_level, num_threads - 1, tid, gens[tid], tid);
 
             // wait until tasks are ready
             if (!tasks_generated) {
@@ -137,7 +137,7 @@ void HyperbolicTree<EdgeCallback>::generate(int seed) const {
             if (i >= tasks.size()) break;
 
             auto &task = tasks[i];
-            visitCellPair(task.cellA, task.cellB, first_parallel_level, gens[num_threads - 1 + i]);
+            visitCellPair(task.cellA, task.cellB, first_parallel_level, gens[num_threads - 1 + i], tid);
         }
     }
 
@@ -145,7 +145,7 @@ void HyperbolicTree<EdgeCallback>::generate(int seed) const {
 }
 
 template <typename EdgeCallback>
-void HyperbolicTree<EdgeCallback>::visitCellPair(unsigned int cellA, unsigned int cellB, unsigned int level, default_random_engine& gen) const {
+void HyperbolicTree<EdgeCallback>::visitCellPair(unsigned int cellA, unsigned int cellB, unsigned int level, default_random_engine& gen, int threadId) const {
 
     if(!AngleHelper::touching(cellA, cellB, level))
     {   // not touching cells
@@ -155,7 +155,7 @@ void HyperbolicTree<EdgeCallback>::visitCellPair(unsigned int cellA, unsigned in
         // sample all type 2 occurrences with this cell pair
         for(auto l=level; l<m_levels; ++l)
             for(auto& layer_pair : m_layer_pairs[l])
-                sampleTypeII(cellA, cellB, level, layer_pair.first, layer_pair.second, gen);
+                sampleTypeII(cellA, cellB, level, layer_pair.first, layer_pair.second, gen, threadId);
         return;
     }
 
@@ -164,7 +164,7 @@ void HyperbolicTree<EdgeCallback>::visitCellPair(unsigned int cellA, unsigned in
     // sample all type 1 occurrences with this cell pair
     for(auto& layer_pair : m_layer_pairs[level]){
         if(cellA != cellB || layer_pair.first <= layer_pair.second)
-            sampleTypeI(cellA, cellB, level, layer_pair.first, layer_pair.second, gen);
+            sampleTypeI(cellA, cellB, level, layer_pair.first, layer_pair.second, gen, threadId);
     }
 
     // break if last level reached
@@ -175,11 +175,11 @@ void HyperbolicTree<EdgeCallback>::visitCellPair(unsigned int cellA, unsigned in
     // these will be type 1 if a and b touch or type 2 if they don't
     auto fA = AngleHelper::firstChild(cellA);
     auto fB = AngleHelper::firstChild(cellB);
-    visitCellPair(fA + 0, fB + 0, level+1, gen);
-    visitCellPair(fA + 0, fB + 1, level+1, gen);
-    visitCellPair(fA + 1, fB + 1, level+1, gen);
+    visitCellPair(fA + 0, fB + 0, level+1, gen, threadId);
+    visitCellPair(fA + 0, fB + 1, level+1, gen, threadId);
+    visitCellPair(fA + 1, fB + 1, level+1, gen, threadId);
     if(cellA != cellB)
-        visitCellPair(fA + 1, fB + 0, level+1, gen); // if A==B we already did this call 3 lines above
+        visitCellPair(fA + 1, fB + 0, level+1, gen, threadId); // if A==B we already did this call 3 lines above
 }
 
 template<typename EdgeCallback>
@@ -214,7 +214,7 @@ void HyperbolicTree<EdgeCallback>::visitCellPairCreateTasks(unsigned int cellA,
 
 template<typename EdgeCallback>
 int HyperbolicTree<EdgeCallback>::visitCellPairSample(unsigned int cellA, unsigned int cellB, unsigned int level, unsigned int first_parallel_level,
-                                                                int num_threads, int thread_shift, default_random_engine& gen) const {
+                                                                int num_threads, int thread_shift, default_random_engine& gen, int threadId) const {
 
     auto isMyTurn = [&] {
         if (++thread_shift == num_threads) {
@@ -230,7 +230,7 @@ int HyperbolicTree<EdgeCallback>::visitCellPairSample(unsigned int cellA, unsign
         for(auto l=level; l<m_levels; ++l)
             for(auto& layer_pair : m_layer_pairs[l])
                 if (isMyTurn())
-                    sampleTypeII(cellA, cellB, level, layer_pair.first, layer_pair.second, gen);
+                    sampleTypeII(cellA, cellB, level, layer_pair.first, layer_pair.second, gen, threadId);
 
         return thread_shift;
     }
@@ -241,7 +241,7 @@ int HyperbolicTree<EdgeCallback>::visitCellPairSample(unsigned int cellA, unsign
     for(auto& layer_pair : m_layer_pairs[level]){
         if(cellA != cellB || layer_pair.first <= layer_pair.second)
             if (isMyTurn())
-                sampleTypeI(cellA, cellB, level, layer_pair.first, layer_pair.second, gen);
+                sampleTypeI(cellA, cellB, level, layer_pair.first, layer_pair.second, gen, threadId);
     }
 
     // break if last level reached
@@ -253,11 +253,11 @@ int HyperbolicTree<EdgeCallback>::visitCellPairSample(unsigned int cellA, unsign
     if(level+1 != first_parallel_level) {
         auto fA = AngleHelper::firstChild(cellA);
         auto fB = AngleHelper::firstChild(cellB);
-        thread_shift = visitCellPairSample(fA + 0, fB + 0, level + 1, first_parallel_level, num_threads, thread_shift, gen);
-        thread_shift = visitCellPairSample(fA + 0, fB + 1, level + 1, first_parallel_level, num_threads, thread_shift, gen);
-        thread_shift = visitCellPairSample(fA + 1, fB + 1, level + 1, first_parallel_level, num_threads, thread_shift, gen);
+        thread_shift = visitCellPairSample(fA + 0, fB + 0, level + 1, first_parallel_level, num_threads, thread_shift, gen, threadId);
+        thread_shift = visitCellPairSample(fA + 0, fB + 1, level + 1, first_parallel_level, num_threads, thread_shift, gen, threadId);
+        thread_shift = visitCellPairSample(fA + 1, fB + 1, level + 1, first_parallel_level, num_threads, thread_shift, gen, threadId);
         if (cellA != cellB)
-            thread_shift = visitCellPairSample(fA + 1, fB + 0, level + 1, first_parallel_level, num_threads, thread_shift, gen);
+            thread_shift = visitCellPairSample(fA + 1, fB + 0, level + 1, first_parallel_level, num_threads, thread_shift, gen, threadId);
     }
 
     return thread_shift;
@@ -265,7 +265,7 @@ int HyperbolicTree<EdgeCallback>::visitCellPairSample(unsigned int cellA, unsign
 
 
 template <typename EdgeCallback>
-void HyperbolicTree<EdgeCallback>::sampleTypeI(unsigned int cellA, unsigned int cellB, unsigned int level, unsigned int i, unsigned int j, default_random_engine& gen) const {
+void HyperbolicTree<EdgeCallback>::sampleTypeI(unsigned int cellA, unsigned int cellB, unsigned int level, unsigned int i, unsigned int j, default_random_engine& gen, int threadId) const {
     auto rangeA = m_radius_layers[i].cellIterators(cellA, level);
     auto rangeB = m_radius_layers[j].cellIterators(cellB, level);
 
@@ -282,8 +282,6 @@ void HyperbolicTree<EdgeCallback>::sampleTypeI(unsigned int cellA, unsigned int
     }
 #endif // NDEBUG
 
-    const auto threadId = omp_get_thread_num();
-
     int kA = 0;
     std::uniform_real_distribution<> dist;
 
@@ -343,7 +341,7 @@ void HyperbolicTree<EdgeCallback>::sampleTypeI(unsigned int cellA, unsigned int
 }
 
 template <typename EdgeCallback>
-void HyperbolicTree<EdgeCallback>::sampleTypeII(unsigned int cellA, unsigned int cellB, unsigned int level, unsigned int i, unsigned int j, default_random_engine& gen) const {
+void HyperbolicTree<EdgeCallback>::sampleTypeII(unsigned int cellA, unsigned int cellB, unsigned int level, unsigned int i, unsigned int j, default_random_engine& gen, int threadId) const {
 
     const auto sizeV_i_A = static_cast<long long>(m_radius_layers[i].pointsInCell(cellA, level));
     const auto sizeV_j_B = static_cast<long long>(m_radius_layers[j].pointsInCell(cellB, level));
@@ -369,7 +367,7 @@ void HyperbolicTree<EdgeCallback>::sampleTypeII(unsigned int cellA, unsigned int
             #pragma omp atomic
             m_type2_checks -= 2ll * sizeV_i_A * sizeV_j_B;
         #endif // NDEBUG
-        return sampleTypeI(cellA, cellB, level, i, j, gen);
+        return sampleTypeI(cellA, cellB, level, i, j, gen, threadId);
     }
 
 #ifndef NDEBUG
@@ -390,7 +388,6 @@ void HyperbolicTree<EdgeCallback>::sampleTypeII(unsigned int cellA, unsigned int
         return;
 
     // init geometric distribution
-    const auto threadId = omp_get_thread_num();
     auto geo = std::geometric_distribution<unsigned long long>(max_connection_prob);
     std::uniform_real_distribution<> dist(0.0, max_connection_prob);
 
-- 
2.43.0


From b755bda98f9aacaf56fb96c8222c67daebaae5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:32 +0000
Subject: [PATCH 02/16] fix: no deadlock in HyperbolicTree::generate for flat
 trees and small teams

The threads wait for the task list, which was never announced if the
recursion ends above the first parallel level, or if the OpenMP runtime
delivers fewer threads than requested (thread limit, dynamic adjustment,
nesting). In the latter case parts of the sampling were skipped, too.
The announcement flag is now only read under its lock.
---
 .../include/hypergirgs/HyperbolicTree.inl     | 35 +++++++++++--------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl b/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
index 5354db2..b42a05f 100644
--- a/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
+++ b/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
@@ -96,20 +96,25 @@ void HyperbolicTree<EdgeCallback>::generate(int seed) const {
     {
 
         const auto tid = omp_get_thread_num();
+        const auto team_size = omp_get_num_threads(); // may be less than the num_threads we asked for
 
     // 1. Phase
         // one thread will generate the task list
-        if (tid + 1 == num_threads && first_parallel_level < m_levels) {
+        if (tid + 1 == team_size) {
             ScopedTimer timer("Gen Tasks", m_profile);
-            tasks.reserve(num_tasks);
 
-            visitCellPairCreateTasks(0, 0, 0, first_parallel_level, tasks);
+            // there are no tasks if the recursion ends above the first parallel level
+            if (first_parallel_level < m_levels) {
+                tasks.reserve(num_tasks);
 
-            // In spirit of the LPT scheduling, we place expensive tasks to be processed first
-            std::partition(tasks.begin(), tasks.end(), [] (const TaskDescription& t) {
-                return t.cellA == t.cellB;});
+                visitCellPairCreateTasks(0, 0, 0, first_parallel_level, tasks);
 
-            assert(num_tasks == tasks.size());
+                // In spirit of the LPT scheduling, we place expensive tasks to be processed first
+                std::partition(tasks.begin(), tasks.end(), [] (const TaskDescription& t) {
+                    return t.cellA == t.cellB;});
+
+                assert(num_tasks == tasks.size());
+            }
 
             // inform consumers that tasks are ready
             {
@@ -119,15 +124,15 @@ void HyperbolicTree<EdgeCallback>::generate(int seed) const {
             cv.notify_all();
         }
 
-        // all others will sample the cells in the first levels of the recursion tree
-        if (tid + 1 < num_threads) {
-            visitCellPairSample(0, 0, 0, first_parallel_level, num_threads - 1, tid, gens[tid], tid);
+        // all others will sample the cells in the first levels of the recursion tree;
+        // in a smaller team, a thread takes over the shares of the missing ones
+        for (auto share = tid; share + 1 < num_threads; share += team_size)
+            visitCellPairSample(0, 0, 0, first_parallel_level, num_threads - 1, share, gens[share], tid);
 
-            // wait until tasks are ready
-            if (!tasks_generated) {
-                std::unique_lock<std::mutex> lock(mutex);
-                cv.wait(lock, [&] {return tasks_generated;});
-            }
+        // wait until tasks are ready
+        {
+            std::unique_lock<std::mutex> lock(mutex);
+            cv.wait(lock, [&] {return tasks_generated;});
         }
 
     // 2. Phase
-- 
2.43.0


From a32568bcc9609e5b8862083068733b0ff8b3b8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:32 +0000
Subject: [PATCH 03/16] fix: data race when repairing the gaps of the cell
 prefix sums

Each thread recomputed the right-most element of its chunk from the first
element of the next chunk while the owner of that chunk was writing it.
The right-most element is already final at that point.
---
 source/girgs/include/girgs/SpatialTree.inl | 2 ++
 source/hypergirgs/source/RadiusLayer.cpp   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/source/girgs/include/girgs/SpatialTree.inl b/source/girgs/include/girgs/SpatialTree.inl
index 11119de..c2b05f7 100644
--- a/source/girgs/include/girgs/SpatialTree.inl
+++ b/source/girgs/include/girgs/SpatialTree.inl
@@ -431,7 +431,9 @@ std::vector<WeightLayer<D>> SpatialTree<D, EdgeCallback>::buildPartition(const s
 
             const auto begin = std::min(max_cell_id, chunk_size * rank);
 
+            // the right-most element was fixed above (again would read the next chunk while its thread writes there)
             auto i = std::min(max_cell_id, begin + chunk_size);
+            if (i > begin) --i;
             while (i-- > begin) {
                 m_first_in_cell[i] = std::min(
                     m_first_in_cell[i],
diff --git a/source/hypergirgs/source/RadiusLayer.cpp b/source/hypergirgs/source/RadiusLayer.cpp
index c2eb30c..f002c39 100644
--- a/source/hypergirgs/source/RadiusLayer.cpp
+++ b/source/hypergirgs/source/RadiusLayer.cpp
@@ -155,7 +155,9 @@ std::vector<RadiusLayer> RadiusLayer::buildPartition(const std::vector<double>&
 
             const auto begin = std::min(max_cell_id, chunk_size * rank);
 
+            // the right-most element was fixed above (again would read the next chunk while its thread writes there)
             auto i = std::min(max_cell_id, begin + chunk_size);
+            if (i > begin) --i;
             while (i-- > begin) {
                 first_in_cell[i] = std::min(
                     first_in_cell[i],
-- 
2.43.0


From 282bea0b48f681e464e128ce3108cb16607e7b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:47 +0000
Subject: [PATCH 04/16] fix: distance filter connected pairs beyond the largest
 edge probability

For high temperatures the edge probability stays below some stages of the
filter even at distance 0. The inverse is negative there, and as cosh is
even the filter took its absolute value for a lower bound: close pairs
were connected with certainty whenever the random number fell into these
stages, and debug builds failed an assertion.
---
 source/hypergirgs/include/hypergirgs/DistanceFilter.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/hypergirgs/include/hypergirgs/DistanceFilter.h b/source/hypergirgs/include/hypergirgs/DistanceFilter.h
index b0e830b..215d81a 100644
--- a/source/hypergirgs/include/hypergirgs/DistanceFilter.h
+++ b/source/hypergirgs/include/hypergirgs/DistanceFilter.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include <array>
 #include <cmath>
 #include <limits>
@@ -33,7 +34,7 @@ public:
     , stage_width(stages/max_prob)
     {
         for(int i=1; i < stages; i++)
-            filter_stages[i] = cosh(invConnectionProb(max_connection_prob / stages * i, R, T));
+            filter_stages[i] = cosh(std::max(0.0, invConnectionProb(max_connection_prob / stages * i, R, T))); // < 0: no distance has this prob, and cosh is even
         // TODO maybe we should not save these values
         filter_stages[0] = std::numeric_limits<double>::infinity(); // at distance inf the conn prob is 0; cosh(inf)=inf
         filter_stages[stages] = 1.0; // at distance 0 the conn prob is largest; cosh(0)=1
-- 
2.43.0


From 013a744e4445edd195b16ae0fa27b9c00d9fd7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:06 +0000
Subject: [PATCH 05/16] fix: intsort with a largest key that is a power of two

A max_key of 2^k (k >= 8) was taken to have k bits: elements with that key
were counted beyond the end of the counter arrays. Use the number of bits.
---
 source/girgs/include/girgs/IntSort.h           | 18 ++++++------------
 source/hypergirgs/include/hypergirgs/IntSort.h | 18 ++++++------------
 2 files changed, 12 insertions(+), 24 deletions(-)

diff --git a/source/girgs/include/girgs/IntSort.h b/source/girgs/include/girgs/IntSort.h
index c0df6f0..68e3fb2 100644
--- a/source/girgs/include/girgs/IntSort.h
+++ b/source/girgs/include/girgs/IntSort.h
@@ -21,19 +21,13 @@
 namespace intsort {
 namespace IntSortInternal {
 
+/// number of bits required to store x, i.e. floor(log2(x)) + 1 (and 0 for x = 0)
 template<typename T>
-uint32_t ilog2(T x) {
-    if (!x) return 0;
+uint32_t num_bits(T x) {
+    typename std::make_unsigned<T>::type remaining = x;
 
-    const typename std::make_unsigned<T>::type input = x;
-
-    int i = 0;
-    while (x >>= 1) i++;
-
-    i += (input > (1llu << i));
-
-    assert((1llu << i) >= input);
-    assert((1llu << i) / 2 < input);
+    uint32_t i = 0;
+    for (; remaining; remaining >>= 1) i++;
 
     return i;
 }
@@ -57,7 +51,7 @@ public:
     IntSortImpl(KeyExtract key_extract, const Key max_key) :
         key_extract{key_extract},
         max_key{max_key},
-        max_bits{ilog2(max_key)},
+        max_bits{num_bits(max_key)},
         msb_radix_width{std::min(max_bits, RADIX_WIDTH)},
         msb_radix{Key{1} << msb_radix_width},
         msb_shift{max_bits - msb_radix_width},
diff --git a/source/hypergirgs/include/hypergirgs/IntSort.h b/source/hypergirgs/include/hypergirgs/IntSort.h
index c0df6f0..68e3fb2 100644
--- a/source/hypergirgs/include/hypergirgs/IntSort.h
+++ b/source/hypergirgs/include/hypergirgs/IntSort.h
@@ -21,19 +21,13 @@
 namespace intsort {
 namespace IntSortInternal {
 
+/// number of bits required to store x, i.e. floor(log2(x)) + 1 (and 0 for x = 0)
 template<typename T>
-uint32_t ilog2(T x) {
-    if (!x) return 0;
+uint32_t num_bits(T x) {
+    typename std::make_unsigned<T>::type remaining = x;
 
-    const typename std::make_unsigned<T>::type input = x;
-
-    int i = 0;
-    while (x >>= 1) i++;
-
-    i += (input > (1llu << i));
-
-    assert((1llu << i) >= input);
-    assert((1llu << i) / 2 < input);
+    uint32_t i = 0;
+    for (; remaining; remaining >>= 1) i++;
 
     return i;
 }
@@ -57,7 +51,7 @@ public:
     IntSortImpl(KeyExtract key_extract, const Key max_key) :
         key_extract{key_extract},
         max_key{max_key},
-        max_bits{ilog2(max_key)},
+        max_bits{num_bits(max_key)},
         msb_radix_width{std::min(max_bits, RADIX_WIDTH)},
         msb_radix{Key{1} << msb_radix_width},
         msb_shift{max_bits - msb_radix_width},
-- 
2.43.0


From 5869e16c02770add30e116e4ef92e977814d31f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:09 +0000
Subject: [PATCH 06/16] fix: scaleWeights depended on the order in which
 threads finish

Floating point sums were combined with OpenMP reductions in the order of
arrival, so that equal seeds and thread counts could yield different
weights and graphs. Combine them in the order of the threads.
---
 source/girgs/source/WeightScaling.cpp | 56 ++++++++++++++++++++-------
 1 file changed, 42 insertions(+), 14 deletions(-)

diff --git a/source/girgs/source/WeightScaling.cpp b/source/girgs/source/WeightScaling.cpp
index 6147096..e6bb25d 100644
--- a/source/girgs/source/WeightScaling.cpp
+++ b/source/girgs/source/WeightScaling.cpp
@@ -6,6 +6,8 @@
 #include <vector>
 #include <limits>
 
+#include <omp.h>
+
 #include <girgs/WeightScaling.h>
 
 namespace girgs {
@@ -90,17 +92,29 @@ double estimateWeightScalingThreshold(const std::vector<double> &weights, double
     const auto n = weights.size();
     auto max_weight = 0.0;
     auto W = 0.0, sq_W = 0.0;
+    #pragma omp parallel
     {
-#ifndef _MSC_VER
-        #pragma omp parallel for reduction(+:W, sq_W), reduction(max: max_weight)
-#endif
+        auto local_W = 0.0, local_sq_W = 0.0, local_max_weight = 0.0;
+
+        #pragma omp for schedule(static)
         for (int i = 0; i < n; ++i) {
             const auto each = weights[i];
             sweights[i] = each; // copy to sweights
 
-            W += each;
-            sq_W += each * each;
-            max_weight = std::max(max_weight, each);
+            local_W += each;
+            local_sq_W += each * each;
+            local_max_weight = std::max(local_max_weight, each);
+        }
+
+        // not a reduction clause: summing up in the order of the threads is reproducible
+        #pragma omp for ordered schedule(static, 1)
+        for (int t = 0; t < omp_get_num_threads(); ++t) {
+            #pragma omp ordered
+            {
+                W += local_W;
+                sq_W += local_sq_W;
+                max_weight = std::max(max_weight, local_max_weight);
+            }
         }
     }
 
@@ -181,10 +195,11 @@ double estimateWeightScaling(const std::vector<double> &weights, double desiredA
     // this loop causes >= 70% of runtime
     std::vector<double> sweights(n);
     LazySorter lazy_sorter(sweights);
+    #pragma omp parallel
     {
-#ifndef _MSC_VER
-        #pragma omp parallel for reduction(+:sum_sq_w, sum_w_a, sum_sq_w_a, sum_wwW_a), reduction(max:max_w)
-#endif
+        auto local_sq_w = 0.0, local_w_a = 0.0, local_sq_w_a = 0.0, local_wwW_a = 0.0, local_max_w = 0.0;
+
+        #pragma omp for schedule(static)
         for (int i = 0; i < n; ++i) {
             const auto each = weights[i];
             sweights[i] = each; // copy in parallel
@@ -193,11 +208,24 @@ double estimateWeightScaling(const std::vector<double> &weights, double desiredA
             const auto pow_each = pow(each, alpha);
             const auto pow_each_W = pow(each / W, alpha);
 
-            sum_sq_w += each * each_W;
-            sum_wwW_a += pow_each;
-            sum_w_a += pow_each_W;
-            sum_sq_w_a += pow_each * pow_each_W;
-            max_w = std::max(each, max_w);
+            local_sq_w += each * each_W;
+            local_wwW_a += pow_each;
+            local_w_a += pow_each_W;
+            local_sq_w_a += pow_each * pow_each_W;
+            local_max_w = std::max(each, local_max_w);
+        }
+
+        // not a reduction clause: summing up in the order of the threads is reproducible
+        #pragma omp for ordered schedule(static, 1)
+        for (int t = 0; t < omp_get_num_threads(); ++t) {
+            #pragma omp ordered
+            {
+                sum_sq_w += local_sq_w;
+                sum_wwW_a += local_wwW_a;
+                sum_w_a += local_w_a;
+                sum_sq_w_a += local_sq_w_a;
+                max_w = std::max(local_max_w, max_w);
+            }
         }
     }
     sum_wwW_a *= sum_w_a;
-- 
2.43.0


From eaa27605796da0758b08b62de84a57cad40f9ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:09 +0000
Subject: [PATCH 07/16] fix: report failures to write graph files

saveDot and the command line tools ignored errors (e.g., a full disk) and
left truncated files behind as if they had succeeded.
---
 source/cli/gengirg/main.cpp       | 2 ++
 source/cli/genhrg/main.cpp        | 4 ++++
 source/girgs/source/Generator.cpp | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/source/cli/gengirg/main.cpp b/source/cli/gengirg/main.cpp
index 8dfc6b9..ce6028b 100644
--- a/source/cli/gengirg/main.cpp
+++ b/source/cli/gengirg/main.cpp
@@ -156,6 +156,8 @@ int main(int argc, char* argv[]) {
         f << n << ' ' << edges.size() << "\n\n";
         for(auto& each : edges)
             f << each.first << ' ' << each.second << '\n';
+        f.close();
+        if(!f) throw std::runtime_error{"Error: failed to write file \"" + file + ".txt\""};
         auto t7 = high_resolution_clock::now();
         cout << "done in " << duration_cast<milliseconds>(t7 - t6).count() << "ms" << endl;
     }
diff --git a/source/cli/genhrg/main.cpp b/source/cli/genhrg/main.cpp
index d0eedcb..1fe5e97 100644
--- a/source/cli/genhrg/main.cpp
+++ b/source/cli/genhrg/main.cpp
@@ -142,6 +142,8 @@ int main(int argc, char* argv[]) {
         f << n << ' ' << edges.size() << "\n\n";
         for(auto& each : edges)
             f << each.first << ' ' << each.second << '\n';
+        f.close();
+        if(!f) throw std::runtime_error{"Error: failed to write file \"" + file + ".txt\""};
         auto t7 = high_resolution_clock::now();
         cout << "done in " << duration_cast<milliseconds>(t7 - t6).count() << "ms" << endl;
     }
@@ -154,6 +156,8 @@ int main(int argc, char* argv[]) {
         f << std::fixed << std::setprecision(std::numeric_limits<double>::max_digits10);
         for(auto i{0u}; i<n; ++i)
             f << radii[i]  << ' ' << angles[i] << '\n';
+        f.close();
+        if(!f) throw std::runtime_error{"Error: failed to write file \"" + file + ".hyp\""};
         auto t7 = high_resolution_clock::now();
         cout << "done in " << duration_cast<milliseconds>(t7 - t6).count() << "ms" << endl;
     }
diff --git a/source/girgs/source/Generator.cpp b/source/girgs/source/Generator.cpp
index f0bc66c..544e111 100644
--- a/source/girgs/source/Generator.cpp
+++ b/source/girgs/source/Generator.cpp
@@ -138,6 +138,9 @@ void saveDot(const std::vector<double> &weights, const std::vector<std::vector<d
     for (auto &edge : graph)
         f << '\t' << edge.first << "\t-- " << edge.second << ";\n";
     f << "}\n";
+    f.close();
+    if(!f)
+        throw std::runtime_error{"Error: failed to write file \"" + file + '\"'};
 }
 
 } // namespace girgs
-- 
2.43.0


From 07e527dc3cbabdb013d504e7f950f4bd951d204d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:09 +0000
Subject: [PATCH 08/16] fix: command line tools accepted NaN as being in range

genhrg -alpha nan and the like passed all range checks.
---
 source/cli/gengirg/main.cpp | 2 +-
 source/cli/genhrg/main.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/cli/gengirg/main.cpp b/source/cli/gengirg/main.cpp
index ce6028b..8e331c7 100644
--- a/source/cli/gengirg/main.cpp
+++ b/source/cli/gengirg/main.cpp
@@ -40,7 +40,7 @@ void logParam(T value, const string& name) {
 
 template<typename T>
 void rangeCheck(T value, T min, T max, string name, bool lex = false, bool hex = false) {
-    if (value < min || value > max || (value == min && lex) || (value == max && hex)) {
+    if (!(value >= min && value <= max) || (value == min && lex) || (value == max && hex)) { // negated: NaN is in no range
         cerr << "ERROR: parameter " << name << " = " << value << " is not in range "
             << (lex ? "(" : "[") << min << "," << max << (hex ? ")" : "]") << '\n';
         exit(1);
diff --git a/source/cli/genhrg/main.cpp b/source/cli/genhrg/main.cpp
index 1fe5e97..2b591f4 100644
--- a/source/cli/genhrg/main.cpp
+++ b/source/cli/genhrg/main.cpp
@@ -39,7 +39,7 @@ void logParam(T value, const string& name) {
 
 template<typename T>
 void rangeCheck(T value, T min, T max, string name, bool lex = false, bool hex = false) {
-    if (value < min || value > max || (value == min && lex) || (value == max && hex)) {
+    if (!(value >= min && value <= max) || (value == min && lex) || (value == max && hex)) { // negated: NaN is in no range
         cerr << "ERROR: parameter " << name << " = " << value << " is not in range "
             << (lex ? "(" : "[") << min << "," << max << (hex ? ")" : "]") << '\n';
         exit(1);
-- 
2.43.0


From d3877c6c217dd1998290ed9cc3fa13ce0b86dfc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:50 +0000
Subject: [PATCH 09/16] fix: assertions of SpatialTree failed for valid weights
 at ties

If W / w0^2 is a power of two (e.g., 64 weights of 1), the distance of two
cells may equal the bound on the weights, and the rounding of log2 and of
the volumes may exceed it by an ulp: builds with assertions aborted.
---
 source/girgs/include/girgs/SpatialTree.inl | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/girgs/include/girgs/SpatialTree.inl b/source/girgs/include/girgs/SpatialTree.inl
index c2b05f7..50d086f 100644
--- a/source/girgs/include/girgs/SpatialTree.inl
+++ b/source/girgs/include/girgs/SpatialTree.inl
@@ -242,7 +242,7 @@ void SpatialTree<D, EdgeCallback>::sampleTypeII(
     const auto cell_distance = CoordinateHelper::dist(cellA, cellB, level);
     const auto dist_lower_bound = pow_to_the<D>(cell_distance);
     const auto max_connection_prob = std::min(std::pow(w_upper_bound/dist_lower_bound, m_alpha), 1.0);
-    assert(dist_lower_bound > w_upper_bound); // in threshold model we would not sample anything
+    assert(dist_lower_bound * (1 + 1e-9) > w_upper_bound); // up to ties and rounding; in threshold model we would not sample anything
     const auto num_pairs = sizeV_i_A * sizeV_j_B;
     const auto expected_samples = num_pairs * max_connection_prob;
 
@@ -285,7 +285,7 @@ void SpatialTree<D, EdgeCallback>::sampleTypeII(
         const auto w_term = nodeInA.weight*nodeInB.weight/m_W;
         const auto d_term = pow_to_the<D>(distance);
         const auto connection_prob = std::pow(w_term/d_term, m_alpha); // we don't need min with 1.0 here
-        assert(w_term < w_upper_bound);
+        assert(w_term < w_upper_bound * (1 + 1e-9));
         assert(d_term >= dist_lower_bound);
 
         if(rnd < connection_prob) {
@@ -306,8 +306,8 @@ unsigned int SpatialTree<D, EdgeCallback>::weightLayerTargetLevel(int layer) con
         auto volume_requested  = m_w0*m_w0*std::pow(2,layer+1)/m_W; // v(i) = w0*wi/W
         auto volume_current    = std::pow(2.0, -(result+0.0)*D); // in paper \mu with v <= \mu < O(v)
         auto volume_one_deeper = std::pow(2.0, -(result+1.0)*D);
-        assert(volume_requested <= volume_current || volume_requested >= 1.0); // current level has more volume than requested
-        assert(volume_requested >  volume_one_deeper);    // but is the smallest such level
+        assert(volume_requested <= volume_current * (1 + 1e-9) || volume_requested >= 1.0); // current level has more volume than requested (up to rounding)
+        assert(volume_requested * (1 + 1e-9) >  volume_one_deeper);    // but is the smallest such level
     }
 #endif // NDEBUG
     return static_cast<unsigned int>(result);
@@ -327,8 +327,8 @@ unsigned int SpatialTree<D, EdgeCallback>::partitioningBaseLevel(int layer1, int
         auto volume_requested  = m_w0*std::pow(2,layer1+1) * m_w0*std::pow(2,layer2+1) / m_W; // v(i,j) = wi*wj/W
         auto volume_current    = std::pow(2.0, -(result+0.0)*D); // in paper \mu with v <= \mu < O(v)
         auto volume_one_deeper = std::pow(2.0, -(result+1.0)*D);
-        assert(volume_requested <= volume_current || volume_requested >= 1.0); // current level has more volume than requested
-        assert(volume_requested >  volume_one_deeper);    // but is the smallest such level
+        assert(volume_requested <= volume_current * (1 + 1e-9) || volume_requested >= 1.0); // current level has more volume than requested (up to rounding)
+        assert(volume_requested * (1 + 1e-9) >  volume_one_deeper);    // but is the smallest such level
     }
 #endif // NDEBUG
     return static_cast<unsigned int>(result);
-- 
2.43.0


From 832a448ff94272700b3a162af0596c24d79e3dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:00 +0000
Subject: [PATCH 10/16] fix: weight scaling subtracted self loops that were not
 part of the sums

When the first node below the threshold is the node itself, its own
contribution was subtracted though it is not contained: for small graphs
the average degree was off by more than the accuracy of the search.
---
 source/girgs/source/WeightScaling.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/girgs/source/WeightScaling.cpp b/source/girgs/source/WeightScaling.cpp
index e6bb25d..7a184ca 100644
--- a/source/girgs/source/WeightScaling.cpp
+++ b/source/girgs/source/WeightScaling.cpp
@@ -144,13 +144,13 @@ double estimateWeightScalingThreshold(const std::vector<double> &weights, double
             /**
               * sum_{k < j, k != i}{ std::pow(2*c,dimension)*(w1*w_k/W)-1.0 }
               * = sum_{k < j, k != i}{ std::pow(2*c,dimension)*(w1*w_k/W) } - j
-              * = sum_{k < j}{ std::pow(2*c,dimension)*(w1*w_k/W) } - j - (0 if j < i else std::pow(2*c,dimension)*(w1*w_i/W) - 1)
-              * = pow2c * w1/W * (sum_j{w_j}) - j - (0 if j < i else pow2c*(w1/W)*w_i - 1)
+              * = sum_{k < j}{ std::pow(2*c,dimension)*(w1*w_k/W) } - j - (0 if j <= i else std::pow(2*c,dimension)*(w1*w_i/W) - 1)
+              * = pow2c * w1/W * (sum_j{w_j}) - j - (0 if j <= i else pow2c*(w1/W)*w_i - 1)
               */
 
             error += w2sum * pow2c * fac - (std::distance(sweights.cbegin(), w2));
 
-            if (w2 >= w1) {
+            if (w2 > w1) {
                 // we have to subtract the self-contribution of x == y
                 error -= pow2c * fac * (*w1) - 1.0;
             }
@@ -279,7 +279,7 @@ double estimateWeightScaling(const std::vector<double> &weights, double desiredA
             w_terms       += sweights[i1]    * w2_sum       / W;
             w_alpha_terms += pow_weights[i1] * w2_alpha_sum / W_alpha;
 
-            if (i2 >= i1) {
+            if (i2 > i1) {
                 num_terms--;
                 w_terms       -= sweights[i1]    * sweights[i1]    / W;
                 w_alpha_terms -= pow_weights[i1] * pow_weights[i1] / W_alpha;
-- 
2.43.0


From f6ede97d0835a5342edd3ccae137c67d65e7a371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:48 +0000
Subject: [PATCH 11/16] fix: weight scaling did not terminate for large alpha
 and heavy tails

The estimate of the average degree subtracted sums dominated by the powers
of the largest weights from each other. With e.g. alpha = 7.8, dimension 3,
and a hub of half of all nodes, only rounding errors remained and the
exponential search ran forever. Sum up positive terms only, per node.
---
 source/girgs/source/WeightScaling.cpp | 152 +++++++-------------------
 1 file changed, 37 insertions(+), 115 deletions(-)

diff --git a/source/girgs/source/WeightScaling.cpp b/source/girgs/source/WeightScaling.cpp
index 7a184ca..c320df4 100644
--- a/source/girgs/source/WeightScaling.cpp
+++ b/source/girgs/source/WeightScaling.cpp
@@ -179,134 +179,56 @@ double estimateWeightScalingThreshold(const std::vector<double> &weights, double
 double estimateWeightScaling(const std::vector<double> &weights, double desiredAvgDegree, int dimension, double alpha) {
     assert(alpha != 1.0); // somehow breaks for alpha 1.0
 
-    // compute some constant stuff
-    auto W = std::accumulate(weights.begin(), weights.end(), 0.0);
-    auto sum_sq_w = 0.0; // sum_{v\in V} (w_v^2/W)
-    auto sum_w_a = 0.0; // sum_{v\in V} (w_v  /W)^\alpha
-    auto sum_sq_w_a = 0.0; // sum_{v\in V} (w_v^2/W)^\alpha
-
-    //   sum_{u\in V} sum_{v\in V} (wu*wv/W)^\alpha
-    // = sum_{u\in V} sum_{v\in V} wu^\alpha * (wv/W)^\alpha
-    // = sum_{u\in V} wu^\alpha sum_{v\in V} (wv/W)^\alpha
-    auto sum_wwW_a = 0.0;
-    auto max_w = 0.;
     const auto n = static_cast<int>(weights.size());
+    auto sweights = weights;
+    std::sort(sweights.begin(), sweights.end(), std::greater<double>());
+    const auto W = std::accumulate(sweights.rbegin(), sweights.rend(), 0.0);
 
-    // this loop causes >= 70% of runtime
-    std::vector<double> sweights(n);
-    LazySorter lazy_sorter(sweights);
-    #pragma omp parallel
+    // Normalize such that an edge is certain up to a volume of 2^d * scaling * (wu/sqrt(W)) * (wv/sqrt(W))
+    std::vector<double> pow_weights(n);
     {
-        auto local_sq_w = 0.0, local_w_a = 0.0, local_sq_w_a = 0.0, local_wwW_a = 0.0, local_max_w = 0.0;
-
-        #pragma omp for schedule(static)
+        const auto sqrt_W = std::sqrt(W);
+        #pragma omp parallel for
         for (int i = 0; i < n; ++i) {
-            const auto each = weights[i];
-            sweights[i] = each; // copy in parallel
-
-            const auto each_W = each / W;
-            const auto pow_each = pow(each, alpha);
-            const auto pow_each_W = pow(each / W, alpha);
-
-            local_sq_w += each * each_W;
-            local_wwW_a += pow_each;
-            local_w_a += pow_each_W;
-            local_sq_w_a += pow_each * pow_each_W;
-            local_max_w = std::max(each, local_max_w);
-        }
-
-        // not a reduction clause: summing up in the order of the threads is reproducible
-        #pragma omp for ordered schedule(static, 1)
-        for (int t = 0; t < omp_get_num_threads(); ++t) {
-            #pragma omp ordered
-            {
-                sum_sq_w += local_sq_w;
-                sum_wwW_a += local_wwW_a;
-                sum_w_a += local_w_a;
-                sum_sq_w_a += local_sq_w_a;
-                max_w = std::max(local_max_w, max_w);
-            }
+            sweights[i] /= sqrt_W;
+            pow_weights[i] = std::pow(sweights[i], alpha);
         }
     }
-    sum_wwW_a *= sum_w_a;
-    const auto max_w_W = max_w / W;
-
-    const auto factor1 = (W - sum_sq_w) * (1 + 1 / (alpha - 1)) * (1 << dimension);
-    const auto factor2 = pow(2, alpha * dimension) / (alpha - 1) * (sum_wwW_a - sum_sq_w_a);
-
-    const auto W_alpha = std::pow(W, alpha);
-
-    // pow_weights[i] = std::pow(sweights[i], alpha) for all elements of the rich club
-    std::vector<double> pow_weights;
-
-    auto f = [&] (double c) {
-        const auto long_and_short_with_error = pow(c, 1 / alpha) * factor1 - c * factor2;
 
-        const auto rich_thresh = std::exp(dimension * std::log(0.5 / std::pow(c, 1.0 / alpha / dimension)) - log(max_w_W));
-        const auto richclub_end = lazy_sorter.sort_downto(rich_thresh);
-        const auto num_richclub = static_cast<int>(std::distance(sweights.begin(), richclub_end));
-
-        if (!num_richclub)
-            return long_and_short_with_error / n;
-
-        assert(num_richclub <= n);
-
-        // precompute new pows in case the richclub grew
-        pow_weights.reserve(n / num_richclub > 2 ? num_richclub : n);
-        while(pow_weights.size() < num_richclub) {
-            pow_weights.push_back(std::pow(sweights[pow_weights.size()], alpha));
-        }
-
-        // get error for long and short edges
-        const auto thresh = std::exp( (std::log(0.5) * dimension - std::log(c) / alpha) );
-
-        int i2 = 0;
-        auto w2_sum       = 0.0;
-        long double w2_alpha_sum = 0.0;
-
-        auto w_terms = 0.0;
-        auto w_alpha_terms = 0.0;
-        size_t num_terms = 0;
-
-        for(auto i1 = num_richclub; i1-- > 0; ) {
-            const auto my_thres = thresh * W / sweights[i1];
-            for (; i2 < num_richclub && sweights[i2] >= my_thres; ++i2) {
-                w2_sum       += sweights[i2];
-                w2_alpha_sum += pow_weights[i2];
-            }
-
-            num_terms     += i2;
-            w_terms       += sweights[i1]    * w2_sum       / W;
-            w_alpha_terms += pow_weights[i1] * w2_alpha_sum / W_alpha;
+    // Sums over all elements from the i-th largest on. We add up from the smallest to the largest element and never
+    // subtract a sum from a larger one, since the powers of large weights absorb all others.
+    std::vector<double> sum_w(n + 1), sum_w_a(n + 1);
+    for (int i = n; i-- > 0; ) {
+        sum_w[i]   = sum_w[i + 1]   + sweights[i];
+        sum_w_a[i] = sum_w_a[i + 1] + pow_weights[i];
+    }
 
-            if (i2 > i1) {
-                num_terms--;
-                w_terms       -= sweights[i1]    * sweights[i1]    / W;
-                w_alpha_terms -= pow_weights[i1] * pow_weights[i1] / W_alpha;
-            }
+    // expected average degree
+    auto f = [&] (double scaling) {
+        const auto fac   = (1 << dimension) * scaling;
+        const auto fac_a = std::pow(fac, alpha);
+
+        // For k = fac * wu * wv and volumes v of balls uniform in [0,1], the probability of an edge is
+        //   1                                                                     if k >= 1
+        //   k + \int_k^1 (k/v)^alpha dv = (alpha * k - k^alpha) / (alpha - 1)      otherwise
+        auto certain = 0.0, short_terms = 0.0, long_terms = 0.0;
+        int i2 = 0; // first element with k < 1
+        for (int i1 = n; i1-- > 0; ) {
+            while (i2 < n && fac * sweights[i1] * sweights[i2] >= 1.0)
+                ++i2;
+
+            // all sums without i1 itself
+            const auto self_is_certain = i1 < i2;
+            certain     += i2 - (self_is_certain ? 1 : 0);
+            short_terms += fac   * sweights[i1]    * (sum_w[i2]   - (self_is_certain ? 0.0 : sweights[i1]));
+            long_terms  += fac_a * pow_weights[i1] * (sum_w_a[i2] - (self_is_certain ? 0.0 : pow_weights[i1]));
         }
 
-        auto short_error = (1 << dimension) * pow(c, 1 / alpha) * w_terms - num_terms;
-        auto long_error = c * dimension * (1 << dimension) / (dimension - alpha * dimension) *
-            (std::pow(0.5, dimension - alpha * dimension) * w_alpha_terms -
-                std::pow(c, 1.0 / alpha - 1.0) * w_terms);
-
-        return (long_and_short_with_error - short_error - long_error) / n;
+        return (certain + (alpha * short_terms - long_terms) / (alpha - 1)) / n;
     };
 
     // do exponential search on avg_degree function
-    auto estimated_c = exponentialSearch(f, desiredAvgDegree);
-
-    /*
-     * Pr(edge) = Pr(c * 1/dist^ad * (wi*wj/W)^a )
-     *
-     * c * (wi*wj/W)^a
-     * = (c^{1/a} wi*wj/W)^a
-     * = (c^{1/a}wi* (c^{1/a}wj / (c^{1/a}W)^a
-     *
-     * so we can just scale all weights by (c^{1/a}
-     */
-    return pow(estimated_c, 1 / alpha); // return scaling
+    return exponentialSearch(f, desiredAvgDegree);
 }
 
 } // namespace girgs
-- 
2.43.0


From 6c7b0dc5992f75b77f036cefa523f7a068c88f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:09 +0000
Subject: [PATCH 12/16] fix: saveDot wrote node ids and coordinates in the
 format of the global locale

---
 source/girgs/source/Generator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/girgs/source/Generator.cpp b/source/girgs/source/Generator.cpp
index 544e111..40bce58 100644
--- a/source/girgs/source/Generator.cpp
+++ b/source/girgs/source/Generator.cpp
@@ -124,6 +124,7 @@ void saveDot(const std::vector<double> &weights, const std::vector<std::vector<d
     std::ofstream f{file};
     if(!f.is_open())
         throw std::runtime_error{"Error: failed to open file \"" + file + '\"'};
+    f.imbue(std::locale::classic()); // no digit grouping or decimal comma in a dot file
     f << "graph girg {\n\toverlap=scale;\n\n";
     f << std::fixed;
     for (int i = 0; i < weights.size(); ++i) {
-- 
2.43.0


From abee8e41b90b62da373218b49c0a4611a179353b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:37 +0000
Subject: [PATCH 13/16] fix: threshold weight scaling diverged for large
 weights

The search for the factor started at 1. For weights that are much too large, the expected degree there is the difference of two
numbers that agree in all digits; the result may be below the desired degree, and the search went up until it overflowed.
Start at the power of two below a lower bound instead. All other inputs get the same factor as before.
---
 source/girgs/source/WeightScaling.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/source/girgs/source/WeightScaling.cpp b/source/girgs/source/WeightScaling.cpp
index c320df4..f6438ae 100644
--- a/source/girgs/source/WeightScaling.cpp
+++ b/source/girgs/source/WeightScaling.cpp
@@ -159,8 +159,13 @@ double estimateWeightScalingThreshold(const std::vector<double> &weights, double
         return (overestimation - error) / n;
     };
 
+    // The overestimation alone yields a lower bound for c. Starting the search there (at a power of two, as the search
+    // does anyway) keeps it away from far larger c, where f is the difference of two numbers that are almost equal.
+    const auto lower_bound = 0.5 * std::pow(desiredAvgDegree * n / (W - sq_W / W), 1.0 / dimension);
+    const auto start = std::isnormal(lower_bound) ? std::exp2(std::floor(std::log2(lower_bound))) : 1.0;
+
     // do exponential search on expected average degree function
-    auto estimated_c = exponentialSearch(f, desiredAvgDegree);
+    auto estimated_c = exponentialSearch(f, desiredAvgDegree, 0.02, start, 2 * start);
 
     /*
      * edge iff dist < c(wi*wj/W)^(1/d)
-- 
2.43.0


From 45b3a1ddccd8da089da57e257b37eebea7d5ab96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:18 +0000
Subject: [PATCH 14/16] fix: weight scaling did not terminate for the degree of
 a complete graph

With rounding, f may stay just below n-1 for every factor. Stop to enlarge the
interval as soon as f does not grow any more and is within the accuracy.
---
 source/girgs/source/WeightScaling.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/girgs/source/WeightScaling.cpp b/source/girgs/source/WeightScaling.cpp
index f6438ae..3982caf 100644
--- a/source/girgs/source/WeightScaling.cpp
+++ b/source/girgs/source/WeightScaling.cpp
@@ -17,9 +17,13 @@ static double exponentialSearch(const std::function<double(double)> &f, double d
                                 double upper = 2.0) {
 
     // scale interval up if necessary
-    while (f(upper) < desiredValue) {
+    for (auto value = f(upper); value < desiredValue; ) {
         lower = upper;
         upper *= 2;
+        const auto next = f(upper);
+        if (next <= value && desiredValue - next <= accuracy)
+            break; // f is bounded, and rounding may keep it just below the desired value
+        value = next;
     }
 
     // scale interval down if necessary
-- 
2.43.0


From bbc96142f86753bf964fa6d527b4ffca5960ab04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:18 +0000
Subject: [PATCH 15/16] fix: calculateRadiusLikeNetworKit did not terminate for
 large degrees

If k is too large for n, the search interval contains no solution: an assertion
failed, and release builds searched forever. Keep the first estimate.
---
 source/hypergirgs/source/Generator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/hypergirgs/source/Generator.cpp b/source/hypergirgs/source/Generator.cpp
index ddf488d..be5a495 100644
--- a/source/hypergirgs/source/Generator.cpp
+++ b/source/hypergirgs/source/Generator.cpp
@@ -36,8 +36,8 @@ static double searchTargetRadiusForColdGraphs(double n, double k, double alpha,
     double currentR = 2*log(n / v);
     double lowerBound = currentR/2;
     double upperBound = currentR*2;
-    assert(getExpectedDegree(n, alpha, lowerBound) > k);
-    assert(getExpectedDegree(n, alpha, upperBound) < k);
+    if (!(getExpectedDegree(n, alpha, lowerBound) > k && getExpectedDegree(n, alpha, upperBound) < k))
+        return currentR; // the refined estimate has no solution here (k too large for n)
     do {
         currentR = (lowerBound + upperBound)/2;
         double currentK = getExpectedDegree(n, alpha, currentR);
-- 
2.43.0


From 4af50e43344321f7e3581b3b37efaf16cfbdd0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:18 +0000
Subject: [PATCH 16/16] fix: genhrg crashed with alpha 0.5

The radius is infinite for alpha = 0.5 (power law exponent 2). Refuse it, as
gengirg refuses -ple 2.
---
 README.md                  | 2 +-
 source/cli/genhrg/main.cpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/README.md b/README.md
index 5bc9c6b..29ce914 100644
--- a/README.md
+++ b/README.md
@@ -107,7 +107,7 @@ The HRG generator features the following input parameters.
 ./genhrg --help
 usage: ./genhrg
 		[-n anInt]          // number of nodes                          default 10000
-		[-alpha aFloat]     // model parameter          range [0.5,1]   default 0.75
+		[-alpha aFloat]     // model parameter          range (0.5,1]   default 0.75
 		[-t aFloat]         // temperature parameter    range [0,1)     default 0
 		[-deg aFloat]       // average degree           range [1,n)     default 10
 		[-rseed anInt]      // radii seed                               default 12
diff --git a/source/cli/genhrg/main.cpp b/source/cli/genhrg/main.cpp
index 2b591f4..44f5fbe 100644
--- a/source/cli/genhrg/main.cpp
+++ b/source/cli/genhrg/main.cpp
@@ -55,7 +55,7 @@ int main(int argc, char* argv[]) {
     if (argc < 2 || 0 == strcmp(argv[1], "--help") || 0 == strcmp(argv[1], "-help")) {
         clog << "usage: ./genhrg\n"
             << "\t\t[-n anInt]          // number of nodes                          default 10000\n"
-            << "\t\t[-alpha aFloat]     // model parameter          range [0.5,1]   default 0.75\n"
+            << "\t\t[-alpha aFloat]     // model parameter          range (0.5,1]   default 0.75\n"
             << "\t\t[-t aFloat]         // temperature parameter    range [0,1)     default 0\n"
             << "\t\t[-deg aFloat]       // average degree           range [1,n)     default 10\n"
             << "\t\t[-rseed anInt]      // radii seed                               default 12\n"
@@ -98,7 +98,7 @@ int main(int argc, char* argv[]) {
     // log params and range checks
     cout << "using:\n";
     logParam(n, "n");
-    rangeCheck(alpha, 0.5, 1.0, "alpha");
+    rangeCheck(alpha, 0.5, 1.0, "alpha", true);
     rangeCheck(T, 0.0, 1.0, "t", false, true);
     rangeCheck(deg, 1.0, n-1.0, "deg");
     logParam(rseed, "rseed");
-- 
2.43.0

