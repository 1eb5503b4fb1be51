From f4626061149283d870c1f7b7b87d156226d249cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:57 +0000
Subject: [PATCH 01/28] fix: HRG sampling waits forever for tasks when the tree
 is shallower than the first parallel level

---
 .../include/hypergirgs/HyperbolicTree.inl     | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl b/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
index ebd2770..f121854 100644
--- a/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
+++ b/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
@@ -99,17 +99,20 @@ void HyperbolicTree<EdgeCallback>::generate(int seed) const {
 
     // 1. Phase
         // one thread will generate the task list
-        if (tid + 1 == num_threads && first_parallel_level < m_levels) {
-            ScopedTimer timer("Gen Tasks", m_profile);
-            tasks.reserve(num_tasks);
+        if (tid + 1 == num_threads) {
+            // a shallow tree has no cells on the first parallel level; then there are no tasks
+            if (first_parallel_level < m_levels) {
+                ScopedTimer timer("Gen Tasks", m_profile);
+                tasks.reserve(num_tasks);
 
-            visitCellPairCreateTasks(0, 0, 0, first_parallel_level, tasks);
+                visitCellPairCreateTasks(0, 0, 0, first_parallel_level, tasks);
 
-            // In spirit of the LPT scheduling, we place expensive tasks to be processed first
-            std::partition(tasks.begin(), tasks.end(), [] (const TaskDescription& t) {
-                return t.cellA == t.cellB;});
+                // In spirit of the LPT scheduling, we place expensive tasks to be processed first
+                std::partition(tasks.begin(), tasks.end(), [] (const TaskDescription& t) {
+                    return t.cellA == t.cellB;});
 
-            assert(num_tasks == tasks.size());
+                assert(num_tasks == tasks.size());
+            }
 
             // inform consumers that tasks are ready
             {
-- 
2.43.0


From 0b0543e3e1893c2ef3140d6c0f4b9cceb4453e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:57 +0000
Subject: [PATCH 02/28] fix: data race on the task-list flag in HRG sampling

---
 source/hypergirgs/include/hypergirgs/HyperbolicTree.inl | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl b/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
index f121854..ada794b 100644
--- a/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
+++ b/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
@@ -127,10 +127,8 @@ void HyperbolicTree<EdgeCallback>::generate(int seed) const {
             visitCellPairSample(0, 0, 0, first_parallel_level, num_threads - 1, tid, gens[tid]);
 
             // wait until tasks are ready
-            if (!tasks_generated) {
-                std::unique_lock<std::mutex> lock(mutex);
-                cv.wait(lock, [&] {return tasks_generated;});
-            }
+            std::unique_lock<std::mutex> lock(mutex);
+            cv.wait(lock, [&] {return tasks_generated;});
         }
 
     // 2. Phase
-- 
2.43.0


From 87b885ad5bbf19818bc8cf7e39ac2929cdf3b43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:57 +0000
Subject: [PATCH 03/28] fix: HRG sampling hangs or loses edges when OpenMP
 grants fewer threads than requested

---
 .../hypergirgs/include/hypergirgs/HyperbolicTree.inl   | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl b/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
index ada794b..8b83af1 100644
--- a/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
+++ b/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
@@ -96,10 +96,11 @@ void HyperbolicTree<EdgeCallback>::generate(int seed) const {
     {
 
         const auto tid = omp_get_thread_num();
+        const auto team_size = omp_get_num_threads(); // the runtime may grant less threads than requested
 
     // 1. Phase
         // one thread will generate the task list
-        if (tid + 1 == num_threads) {
+        if (tid + 1 == team_size) {
             // a shallow tree has no cells on the first parallel level; then there are no tasks
             if (first_parallel_level < m_levels) {
                 ScopedTimer timer("Gen Tasks", m_profile);
@@ -123,10 +124,11 @@ void HyperbolicTree<EdgeCallback>::generate(int seed) const {
         }
 
         // all others will sample the cells in the first levels of the recursion tree
-        if (tid + 1 < num_threads) {
-            visitCellPairSample(0, 0, 0, first_parallel_level, num_threads - 1, tid, gens[tid]);
+        for (int share = tid; share + 1 < num_threads; share += team_size)
+            visitCellPairSample(0, 0, 0, first_parallel_level, num_threads - 1, share, gens[share]);
 
-            // wait until tasks are ready
+        // wait until tasks are ready
+        {
             std::unique_lock<std::mutex> lock(mutex);
             cv.wait(lock, [&] {return tasks_generated;});
         }
-- 
2.43.0


From abbf7dd8234a507a449637baedd2f016dea20332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:13 +0000
Subject: [PATCH 04/28] fix: out-of-bounds thread ids when edges are generated
 from within a parallel region

---
 source/girgs/include/girgs/SpatialTree.inl       | 16 ++++++++++++++--
 .../include/hypergirgs/HyperbolicTree.inl        |  8 +++++++-
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/source/girgs/include/girgs/SpatialTree.inl b/source/girgs/include/girgs/SpatialTree.inl
index 90579ce..bfa2316 100644
--- a/source/girgs/include/girgs/SpatialTree.inl
+++ b/source/girgs/include/girgs/SpatialTree.inl
@@ -57,7 +57,13 @@ void SpatialTree<D, EdgeCallback>::generateEdges(int seed) {
     // sample all edges
 	if (num_threads == 1) { 
         // sequential
-		visitCellPair(0, 0, 0);
+		if (omp_get_level() == 0) {
+			visitCellPair(0, 0, 0);
+		} else {
+			// called within a parallel region: open our own team such that our thread ids start at 0
+			#pragma omp parallel num_threads(1)
+			visitCellPair(0, 0, 0);
+		}
 		assert(m_type1_checks + m_type2_checks == m_n*(m_n - 1ll));
 		return;
     }
@@ -69,7 +75,13 @@ void SpatialTree<D, EdgeCallback>::generateEdges(int seed) {
 
     // saw off recursion before "first_parallel_level" and save all calls that would be made
     auto parallel_calls = std::vector<std::vector<unsigned int>>(parallel_cells);
-    visitCellPair_sequentialStart(0, 0, 0, first_parallel_level, parallel_calls);
+    if (omp_get_level() == 0) {
+        visitCellPair_sequentialStart(0, 0, 0, first_parallel_level, parallel_calls);
+    } else {
+        // called within a parallel region: open our own team such that our thread ids start at 0
+        #pragma omp parallel num_threads(1)
+        visitCellPair_sequentialStart(0, 0, 0, first_parallel_level, parallel_calls);
+    }
 
     // do the collected calls in parallel
     #pragma omp parallel for schedule(static), num_threads(num_threads) // dynamic scheduling would be better but not reproducible
diff --git a/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl b/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
index 8b83af1..e4792a9 100644
--- a/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
+++ b/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
@@ -62,7 +62,13 @@ void HyperbolicTree<EdgeCallback>::generate(int seed) const {
     const auto num_threads = omp_get_max_threads();
     if(num_threads == 1) {
         default_random_engine master_gen(seed >= 0 ? seed : std::random_device{}());
-        visitCellPair(0,0,0, master_gen);
+        if (omp_get_level() == 0) {
+            visitCellPair(0,0,0, master_gen);
+        } else {
+            // called within a parallel region: open our own team such that our thread ids start at 0
+            #pragma omp parallel num_threads(1)
+            visitCellPair(0,0,0, master_gen);
+        }
         assert(m_type1_checks + m_type2_checks == static_cast<long long>(m_n-1) * m_n);
         return;
     }
-- 
2.43.0


From 65c5854d794a18743dc1b82367faa861acdb2cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:13 +0000
Subject: [PATCH 05/28] fix: data race between neighbouring threads when
 repairing gaps in the cell index

---
 source/girgs/include/girgs/SpatialTree.inl | 2 ++
 source/hypergirgs/source/RadiusLayer.cpp   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/source/girgs/include/girgs/SpatialTree.inl b/source/girgs/include/girgs/SpatialTree.inl
index bfa2316..24b4e64 100644
--- a/source/girgs/include/girgs/SpatialTree.inl
+++ b/source/girgs/include/girgs/SpatialTree.inl
@@ -444,7 +444,9 @@ std::vector<WeightLayer<D>> SpatialTree<D, EdgeCallback>::buildPartition(const s
 
             const auto begin = std::min(max_cell_id, chunk_size * rank);
 
+            // skip the already fixed right-most element: its successor belongs to the next thread
             auto i = std::min(max_cell_id, begin + chunk_size);
+            if (i > begin) --i;
             while (i-- > begin) {
                 m_first_in_cell[i] = std::min(
                     m_first_in_cell[i],
diff --git a/source/hypergirgs/source/RadiusLayer.cpp b/source/hypergirgs/source/RadiusLayer.cpp
index c2eb30c..2bb593d 100644
--- a/source/hypergirgs/source/RadiusLayer.cpp
+++ b/source/hypergirgs/source/RadiusLayer.cpp
@@ -155,7 +155,9 @@ std::vector<RadiusLayer> RadiusLayer::buildPartition(const std::vector<double>&
 
             const auto begin = std::min(max_cell_id, chunk_size * rank);
 
+            // skip the already fixed right-most element: its successor belongs to the next thread
             auto i = std::min(max_cell_id, begin + chunk_size);
+            if (i > begin) --i;
             while (i-- > begin) {
                 first_in_cell[i] = std::min(
                     first_in_cell[i],
-- 
2.43.0


From d7306381e7bd4af4d621828c03a0aed483aab9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:16 +0000
Subject: [PATCH 06/28] fix: degree estimate subtracts the self pair of nodes
 that have none in the rich club

---
 source/girgs/source/WeightScaling.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/girgs/source/WeightScaling.cpp b/source/girgs/source/WeightScaling.cpp
index 6147096..9473877 100644
--- a/source/girgs/source/WeightScaling.cpp
+++ b/source/girgs/source/WeightScaling.cpp
@@ -136,7 +136,7 @@ double estimateWeightScalingThreshold(const std::vector<double> &weights, double
 
             error += w2sum * pow2c * fac - (std::distance(sweights.cbegin(), w2));
 
-            if (w2 >= w1) {
+            if (w2 > w1) {
                 // we have to subtract the self-contribution of x == y
                 error -= pow2c * fac * (*w1) - 1.0;
             }
@@ -251,7 +251,7 @@ double estimateWeightScaling(const std::vector<double> &weights, double desiredA
             w_terms       += sweights[i1]    * w2_sum       / W;
             w_alpha_terms += pow_weights[i1] * w2_alpha_sum / W_alpha;
 
-            if (i2 >= i1) {
+            if (i2 > i1) {
                 num_terms--;
                 w_terms       -= sweights[i1]    * sweights[i1]    / W;
                 w_alpha_terms -= pow_weights[i1] * pow_weights[i1] / W_alpha;
-- 
2.43.0


From 81efa9fa13d1a64b7f9aa7cfceb946ce32599507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:55 +0000
Subject: [PATCH 07/28] fix: weight scaling searches forever when rounding
 keeps the estimate below the desired degree

---
 source/girgs/source/WeightScaling.cpp | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/source/girgs/source/WeightScaling.cpp b/source/girgs/source/WeightScaling.cpp
index 9473877..31e41ee 100644
--- a/source/girgs/source/WeightScaling.cpp
+++ b/source/girgs/source/WeightScaling.cpp
@@ -14,29 +14,31 @@ namespace girgs {
 static double exponentialSearch(const std::function<double(double)> &f, double desiredValue, double accuracy = 0.02, double lower = 1.0,
                                 double upper = 2.0) {
 
-    // scale interval up if necessary
-    while (f(upper) < desiredValue) {
+    // scale interval up if necessary (f may saturate at a value that only rounding keeps below the desired one)
+    while (f(upper) < desiredValue - accuracy && upper < std::numeric_limits<double>::max() / 4) {
         lower = upper;
         upper *= 2;
     }
 
     // scale interval down if necessary
-    while (f(lower) > desiredValue) {
+    while (f(lower) > desiredValue + accuracy && lower > std::numeric_limits<double>::min()) {
         upper = lower;
         lower /= 2;
     }
 
-    // do binary search
-    auto mid = f((upper + lower) / 2);
-    while (std::abs(mid - desiredValue) > accuracy) {
-        if (mid < desiredValue)
-            lower = (upper + lower) / 2;
+    // do binary search (until the interval cannot be split any further)
+    auto mid = (upper + lower) / 2;
+    auto value = f(mid);
+    while (std::abs(value - desiredValue) > accuracy && lower < mid && mid < upper) {
+        if (value < desiredValue)
+            lower = mid;
         else
-            upper = (upper + lower) / 2;
-        mid = f((upper + lower) / 2);
+            upper = mid;
+        mid = (upper + lower) / 2;
+        value = f(mid);
     }
 
-    return (upper + lower) / 2;
+    return mid;
 }
 
 
-- 
2.43.0


From bbdf167c16be62b9958a57d5f649f1769f6a9608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:50 +0000
Subject: [PATCH 08/28] fix: scaling weights for large alpha returns arbitrary
 factors because huge powers do not cancel

---
 source/girgs/source/WeightScaling.cpp | 139 +++++++++++---------------
 1 file changed, 61 insertions(+), 78 deletions(-)

diff --git a/source/girgs/source/WeightScaling.cpp b/source/girgs/source/WeightScaling.cpp
index 31e41ee..fb7ea25 100644
--- a/source/girgs/source/WeightScaling.cpp
+++ b/source/girgs/source/WeightScaling.cpp
@@ -168,104 +168,87 @@ double estimateWeightScaling(const std::vector<double> &weights, double desiredA
     assert(alpha != 1.0); // somehow breaks for alpha 1.0
 
     // compute some constant stuff
-    auto W = std::accumulate(weights.begin(), weights.end(), 0.0);
-    auto sum_sq_w = 0.0; // sum_{v\in V} (w_v^2/W)
-    auto sum_w_a = 0.0; // sum_{v\in V} (w_v  /W)^\alpha
-    auto sum_sq_w_a = 0.0; // sum_{v\in V} (w_v^2/W)^\alpha
-
-    //   sum_{u\in V} sum_{v\in V} (wu*wv/W)^\alpha
-    // = sum_{u\in V} sum_{v\in V} wu^\alpha * (wv/W)^\alpha
-    // = sum_{u\in V} wu^\alpha sum_{v\in V} (wv/W)^\alpha
-    auto sum_wwW_a = 0.0;
-    auto max_w = 0.;
+    const auto W = std::accumulate(weights.begin(), weights.end(), 0.0);
+    const auto W_alpha = std::pow(W, alpha);
     const auto n = static_cast<int>(weights.size());
+    const auto max_w_W = *std::max_element(weights.begin(), weights.end()) / W;
 
-    // this loop causes >= 70% of runtime
-    std::vector<double> sweights(n);
+    auto sweights = weights;
     LazySorter lazy_sorter(sweights);
-    {
-#ifndef _MSC_VER
-        #pragma omp parallel for reduction(+:sum_sq_w, sum_w_a, sum_sq_w_a, sum_wwW_a), reduction(max:max_w)
-#endif
-        for (int i = 0; i < n; ++i) {
-            const auto each = weights[i];
-            sweights[i] = each; // copy in parallel
-
-            const auto each_W = each / W;
-            const auto pow_each = pow(each, alpha);
-            const auto pow_each_W = pow(each / W, alpha);
 
-            sum_sq_w += each * each_W;
-            sum_wwW_a += pow_each;
-            sum_w_a += pow_each_W;
-            sum_sq_w_a += pow_each * pow_each_W;
-            max_w = std::max(each, max_w);
+    // pow_weights[i] = std::pow(sweights[i], alpha) for all sorted elements, they include the rich club
+    std::vector<double> pow_weights;
+    auto sorted_w = 0.0, sorted_w_a = 0.0;                              // sum of w and w^alpha of the sorted elements
+    auto rest_w = 0.0, rest_sq_w = 0.0, rest_w_a = 0.0, rest_sq_w_a = 0.0; // sum of w, w^2, w^alpha, w^2alpha of the others
+
+    auto grow_sorted = [&] (int num_sorted) {
+        for(auto i = static_cast<int>(pow_weights.size()); i < num_sorted; ++i) {
+            pow_weights.push_back(std::pow(sweights[i], alpha));
+            sorted_w   += sweights[i];
+            sorted_w_a += pow_weights[i];
         }
-    }
-    sum_wwW_a *= sum_w_a;
-    const auto max_w_W = max_w / W;
-
-    const auto factor1 = (W - sum_sq_w) * (1 + 1 / (alpha - 1)) * (1 << dimension);
-    const auto factor2 = pow(2, alpha * dimension) / (alpha - 1) * (sum_wwW_a - sum_sq_w_a);
 
-    const auto W_alpha = std::pow(W, alpha);
-
-    // pow_weights[i] = std::pow(sweights[i], alpha) for all elements of the rich club
-    std::vector<double> pow_weights;
+        rest_w = rest_sq_w = rest_w_a = rest_sq_w_a = 0.0;
+#ifndef _MSC_VER
+        #pragma omp parallel for reduction(+:rest_w, rest_sq_w, rest_w_a, rest_sq_w_a)
+#endif
+        for (int i = num_sorted; i < n; ++i) {
+            const auto pow_w = std::pow(sweights[i], alpha);
+            rest_w      += sweights[i];
+            rest_sq_w   += sweights[i] * sweights[i];
+            rest_w_a    += pow_w;
+            rest_sq_w_a += pow_w * pow_w;
+        }
+    };
+    grow_sorted(0);
 
+    // A pair is always connected if 2^d c^{1/alpha} * w1*w2/W >= 1, otherwise with probability
+    //   alpha/(alpha-1) * 2^d c^{1/alpha} * w1*w2/W  -  1/(alpha-1) * 2^{alpha d} c * (w1*w2/W)^alpha
+    // The second case is summed up without the pairs of the first one: their powers may exceed the result
+    // by so many orders of magnitude that nothing is left of it after subtracting them again.
     auto f = [&] (double c) {
-        const auto long_and_short_with_error = pow(c, 1 / alpha) * factor1 - c * factor2;
+        const auto pow2c = std::pow(c, 1 / alpha) * (1 << dimension);
 
-        const auto rich_thresh = std::exp(dimension * std::log(0.5 / std::pow(c, 1.0 / alpha / dimension)) - log(max_w_W));
-        const auto richclub_end = lazy_sorter.sort_downto(rich_thresh);
+        const auto richclub_end = lazy_sorter.sort_downto(1.0 / pow2c / max_w_W);
         const auto num_richclub = static_cast<int>(std::distance(sweights.begin(), richclub_end));
-
-        if (!num_richclub)
-            return long_and_short_with_error / n;
-
-        assert(num_richclub <= n);
-
-        // precompute new pows in case the richclub grew
-        pow_weights.reserve(n / num_richclub > 2 ? num_richclub : n);
-        while(pow_weights.size() < num_richclub) {
-            pow_weights.push_back(std::pow(sweights[pow_weights.size()], alpha));
-        }
-
-        // get error for long and short edges
-        const auto thresh = std::exp( (std::log(0.5) * dimension - std::log(c) / alpha) );
-
-        int i2 = 0;
-        auto w2_sum       = 0.0;
-        long double w2_alpha_sum = 0.0;
-
-        auto w_terms = 0.0;
-        auto w_alpha_terms = 0.0;
-        size_t num_terms = 0;
-
-        for(auto i1 = num_richclub; i1-- > 0; ) {
-            const auto my_thres = thresh * W / sweights[i1];
-            for (; i2 < num_richclub && sweights[i2] >= my_thres; ++i2) {
-                w2_sum       += sweights[i2];
-                w2_alpha_sum += pow_weights[i2];
+        if (num_richclub > static_cast<int>(pow_weights.size()))
+            grow_sorted(num_richclub);
+        const auto num_sorted = static_cast<int>(pow_weights.size());
+
+        // pairs with at least one element that is not sorted
+        auto w_terms       = rest_w   * (rest_w   + 2 * sorted_w)   - rest_sq_w;
+        auto w_alpha_terms = rest_w_a * (rest_w_a + 2 * sorted_w_a) - rest_sq_w_a;
+
+        // pairs of sorted elements, [i2, num_sorted) are those not always connected to i1
+        auto num_terms = 0.0;
+        auto w2_sum = 0.0, w2_alpha_sum = 0.0;
+        auto i2 = num_sorted;
+        for(auto i1 = 0; i1 < num_sorted; ++i1) {
+            const auto my_thres = W / pow2c / sweights[i1];
+            for (; i2 > 0 && sweights[i2 - 1] < my_thres; --i2) {
+                w2_sum       += sweights[i2 - 1];
+                w2_alpha_sum += pow_weights[i2 - 1];
             }
 
             num_terms     += i2;
-            w_terms       += sweights[i1]    * w2_sum       / W;
-            w_alpha_terms += pow_weights[i1] * w2_alpha_sum / W_alpha;
+            w_terms       += sweights[i1]    * w2_sum;
+            w_alpha_terms += pow_weights[i1] * w2_alpha_sum;
 
+            // we have to subtract the pair of i1 with itself
             if (i2 > i1) {
                 num_terms--;
-                w_terms       -= sweights[i1]    * sweights[i1]    / W;
-                w_alpha_terms -= pow_weights[i1] * pow_weights[i1] / W_alpha;
+            } else {
+                w_terms       -= sweights[i1]    * sweights[i1];
+                w_alpha_terms -= pow_weights[i1] * pow_weights[i1];
             }
         }
 
-        auto short_error = (1 << dimension) * pow(c, 1 / alpha) * w_terms - num_terms;
-        auto long_error = c * dimension * (1 << dimension) / (dimension - alpha * dimension) *
-            (std::pow(0.5, dimension - alpha * dimension) * w_alpha_terms -
-                std::pow(c, 1.0 / alpha - 1.0) * w_terms);
+        if (w_terms <= 0.0)
+            return num_terms / n;
 
-        return (long_and_short_with_error - short_error - long_error) / n;
+        const auto short_edges = alpha * pow2c * w_terms / W;
+        const auto long_edges  = std::pow(2.0, alpha * dimension) * c * (w_alpha_terms / W_alpha);
+        return (num_terms + (short_edges - long_edges) / (alpha - 1)) / n;
     };
 
     // do exponential search on avg_degree function
-- 
2.43.0


From f6f9f416f0ea19005026be9b08af4a80a3b0a2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:50 +0000
Subject: [PATCH 09/28] fix: LazySorter asserts when all weights are sorted and
 the threshold underflows

---
 source/girgs/source/WeightScaling.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/girgs/source/WeightScaling.cpp b/source/girgs/source/WeightScaling.cpp
index fb7ea25..83bac68 100644
--- a/source/girgs/source/WeightScaling.cpp
+++ b/source/girgs/source/WeightScaling.cpp
@@ -65,7 +65,7 @@ public:
             assert(std::is_sorted(m_sweights.begin(), m_sorted_end, std::greater<double>()));
 
             m_sorted_end = new_ps_end;
-            m_lower = (m_sorted_end == m_sweights.end()) ? std::numeric_limits<double>::min() : thresh;
+            m_lower = (m_sorted_end == m_sweights.end()) ? std::numeric_limits<double>::lowest() : thresh;
             return m_sorted_end;
 
         } else {
-- 
2.43.0


From c2b7d583666300bfde5b24a2027ad6382f9c56a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:30 +0000
Subject: [PATCH 10/28] fix: radix sort writes out of bounds when the largest
 key is a power of two

---
 source/girgs/include/girgs/IntSort.h          | 19 +++++--------------
 .../hypergirgs/include/hypergirgs/IntSort.h   | 19 +++++--------------
 2 files changed, 10 insertions(+), 28 deletions(-)

diff --git a/source/girgs/include/girgs/IntSort.h b/source/girgs/include/girgs/IntSort.h
index c0df6f0..3ff4d32 100644
--- a/source/girgs/include/girgs/IntSort.h
+++ b/source/girgs/include/girgs/IntSort.h
@@ -21,20 +21,11 @@
 namespace intsort {
 namespace IntSortInternal {
 
+/// number of bits required to represent all keys from 0 to x (inclusive)
 template<typename T>
-uint32_t ilog2(T x) {
-    if (!x) return 0;
-
-    const typename std::make_unsigned<T>::type input = x;
-
-    int i = 0;
-    while (x >>= 1) i++;
-
-    i += (input > (1llu << i));
-
-    assert((1llu << i) >= input);
-    assert((1llu << i) / 2 < input);
-
+uint32_t num_bits(T x) {
+    uint32_t i = 0;
+    for (; x; x >>= 1) i++;
     return i;
 }
 
@@ -57,7 +48,7 @@ public:
     IntSortImpl(KeyExtract key_extract, const Key max_key) :
         key_extract{key_extract},
         max_key{max_key},
-        max_bits{ilog2(max_key)},
+        max_bits{num_bits(max_key)},
         msb_radix_width{std::min(max_bits, RADIX_WIDTH)},
         msb_radix{Key{1} << msb_radix_width},
         msb_shift{max_bits - msb_radix_width},
diff --git a/source/hypergirgs/include/hypergirgs/IntSort.h b/source/hypergirgs/include/hypergirgs/IntSort.h
index c0df6f0..3ff4d32 100644
--- a/source/hypergirgs/include/hypergirgs/IntSort.h
+++ b/source/hypergirgs/include/hypergirgs/IntSort.h
@@ -21,20 +21,11 @@
 namespace intsort {
 namespace IntSortInternal {
 
+/// number of bits required to represent all keys from 0 to x (inclusive)
 template<typename T>
-uint32_t ilog2(T x) {
-    if (!x) return 0;
-
-    const typename std::make_unsigned<T>::type input = x;
-
-    int i = 0;
-    while (x >>= 1) i++;
-
-    i += (input > (1llu << i));
-
-    assert((1llu << i) >= input);
-    assert((1llu << i) / 2 < input);
-
+uint32_t num_bits(T x) {
+    uint32_t i = 0;
+    for (; x; x >>= 1) i++;
     return i;
 }
 
@@ -57,7 +48,7 @@ public:
     IntSortImpl(KeyExtract key_extract, const Key max_key) :
         key_extract{key_extract},
         max_key{max_key},
-        max_bits{ilog2(max_key)},
+        max_bits{num_bits(max_key)},
         msb_radix_width{std::min(max_bits, RADIX_WIDTH)},
         msb_radix{Key{1} << msb_radix_width},
         msb_shift{max_bits - msb_radix_width},
-- 
2.43.0


From a8d4b567ce26fc45a50b937396a398f214cbc6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:30 +0000
Subject: [PATCH 11/28] fix: debug assertion fails for non-touching cells at
 exactly the bounding distance

---
 source/girgs/include/girgs/SpatialTree.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/girgs/include/girgs/SpatialTree.inl b/source/girgs/include/girgs/SpatialTree.inl
index 24b4e64..45255ac 100644
--- a/source/girgs/include/girgs/SpatialTree.inl
+++ b/source/girgs/include/girgs/SpatialTree.inl
@@ -254,7 +254,7 @@ void SpatialTree<D, EdgeCallback>::sampleTypeII(
     const auto cell_distance = CoordinateHelper::dist(cellA, cellB, level);
     const auto dist_lower_bound = pow_to_the<D>(cell_distance);
     const auto max_connection_prob = std::min(std::pow(w_upper_bound/dist_lower_bound, m_alpha), 1.0);
-    assert(dist_lower_bound > w_upper_bound); // in threshold model we would not sample anything
+    assert(dist_lower_bound >= w_upper_bound); // in threshold model we would not sample anything
     const auto num_pairs = sizeV_i_A * sizeV_j_B;
     const auto expected_samples = num_pairs * max_connection_prob;
 
-- 
2.43.0


From 3a8851dc8e7f2789f7e75b6cabb14cc54843edca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:30 +0000
Subject: [PATCH 12/28] fix: shift overflow in the connection bound of very
 heavy weight layers

---
 source/girgs/include/girgs/SpatialTree.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/girgs/include/girgs/SpatialTree.inl b/source/girgs/include/girgs/SpatialTree.inl
index 45255ac..ec6d514 100644
--- a/source/girgs/include/girgs/SpatialTree.inl
+++ b/source/girgs/include/girgs/SpatialTree.inl
@@ -250,7 +250,7 @@ void SpatialTree<D, EdgeCallback>::sampleTypeII(
     const auto sizeV_j_B = std::distance(rangeB.first, rangeB.second);
 
     // get upper bound for probability
-    const auto w_upper_bound = m_w0*(1<<(i+1)) * m_w0*(1<<(j+1)) / m_W;
+    const auto w_upper_bound = std::ldexp(m_w0, i+1) * std::ldexp(m_w0, j+1) / m_W;
     const auto cell_distance = CoordinateHelper::dist(cellA, cellB, level);
     const auto dist_lower_bound = pow_to_the<D>(cell_distance);
     const auto max_connection_prob = std::min(std::pow(w_upper_bound/dist_lower_bound, m_alpha), 1.0);
-- 
2.43.0


From 800c77d29022e5ca599a32f41c52edd1997e23b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:33 +0000
Subject: [PATCH 13/28] fix: GIRG index overflows or exhausts memory when the
 smallest weight is far below the average

---
 source/girgs/include/girgs/SpatialTree.h   | 1 +
 source/girgs/include/girgs/SpatialTree.inl | 9 +++++----
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/source/girgs/include/girgs/SpatialTree.h b/source/girgs/include/girgs/SpatialTree.h
index 714c9d0..bc2b155 100644
--- a/source/girgs/include/girgs/SpatialTree.h
+++ b/source/girgs/include/girgs/SpatialTree.h
@@ -196,6 +196,7 @@ private:
     int    m_baseLevelConstant; ///< \f$\log_2(W/w_0^2)\f$ see partitioningBaseLevel(int, int) const
 
     unsigned int m_layers; ///< number of layers
+    int    m_maxLevel;     ///< deepest level we use: it has at most 16 cells per node, no matter how small the smallest weight is
     unsigned int m_levels; ///< number of levels
     
     std::vector<Node<D>>        m_nodes;            ///< nodes ordered by layer first and morton code second
diff --git a/source/girgs/include/girgs/SpatialTree.inl b/source/girgs/include/girgs/SpatialTree.inl
index ec6d514..09eb0be 100644
--- a/source/girgs/include/girgs/SpatialTree.inl
+++ b/source/girgs/include/girgs/SpatialTree.inl
@@ -17,6 +17,7 @@ SpatialTree<D, EdgeCallback>::SpatialTree(const std::vector<double>& weights, co
 , m_W(std::accumulate(weights.begin(), weights.end(), 0.0))
 , m_baseLevelConstant(static_cast<int>(std::log2(m_W/m_w0/m_w0))) // log2(W/w0^2)
 , m_layers(static_cast<unsigned int>(floor(std::log2(m_wn/m_w0)))+1)
+, m_maxLevel(static_cast<int>(std::log2(std::min(16.0*m_n, std::ldexp(1.0, 30)))) / static_cast<int>(D))
 , m_levels(partitioningBaseLevel(0,0) + 1) // (log2(W/w0^2) - 2) / d
 {
     assert(weights.size() == positions.size());
@@ -311,7 +312,7 @@ void SpatialTree<D, EdgeCallback>::sampleTypeII(
 template<unsigned int D, typename EdgeCallback>
 unsigned int SpatialTree<D, EdgeCallback>::weightLayerTargetLevel(int layer) const {
     // -1 coz w0 is the upper bound for layer 0 in paper and our layers are shifted by -1
-    auto result = std::max((m_baseLevelConstant - layer - 1) / (int)D, 0);
+    auto result = std::min(std::max((m_baseLevelConstant - layer - 1) / (int)D, 0), m_maxLevel);
 #ifndef NDEBUG
     {   // a lot of assertions that we have the correct insertion level
         assert(0 <= layer && layer < m_layers);
@@ -320,7 +321,7 @@ unsigned int SpatialTree<D, EdgeCallback>::weightLayerTargetLevel(int layer) con
         auto volume_current    = std::pow(2.0, -(result+0.0)*D); // in paper \mu with v <= \mu < O(v)
         auto volume_one_deeper = std::pow(2.0, -(result+1.0)*D);
         assert(volume_requested <= volume_current || volume_requested >= 1.0); // current level has more volume than requested
-        assert(volume_requested >  volume_one_deeper);    // but is the smallest such level
+        assert(volume_requested >  volume_one_deeper || result == m_maxLevel); // but is the smallest such level
     }
 #endif // NDEBUG
     return static_cast<unsigned int>(result);
@@ -332,7 +333,7 @@ unsigned int SpatialTree<D, EdgeCallback>::partitioningBaseLevel(int layer1, int
 
     // we do the computation on signed ints but cast back after the max with 0
     // m_baseLevelConstant is just log(W/w0^2)
-    auto result = std::max((m_baseLevelConstant - layer1 - layer2 - 2) / (int)D, 0);
+    auto result = std::min(std::max((m_baseLevelConstant - layer1 - layer2 - 2) / (int)D, 0), m_maxLevel);
 #ifndef NDEBUG
     {   // a lot of assertions that we have the correct comparison level
         assert(0 <= layer1 && layer1 < m_layers);
@@ -341,7 +342,7 @@ unsigned int SpatialTree<D, EdgeCallback>::partitioningBaseLevel(int layer1, int
         auto volume_current    = std::pow(2.0, -(result+0.0)*D); // in paper \mu with v <= \mu < O(v)
         auto volume_one_deeper = std::pow(2.0, -(result+1.0)*D);
         assert(volume_requested <= volume_current || volume_requested >= 1.0); // current level has more volume than requested
-        assert(volume_requested >  volume_one_deeper);    // but is the smallest such level
+        assert(volume_requested >  volume_one_deeper || result == m_maxLevel); // but is the smallest such level
     }
 #endif // NDEBUG
     return static_cast<unsigned int>(result);
-- 
2.43.0


From 8b54a8f1bad4adab7aed0a5d6113ad1d9dce5d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:33 +0000
Subject: [PATCH 14/28] fix: distance filter connects close pairs too often if
 not even distance 0 reaches the probability

---
 source/hypergirgs/include/hypergirgs/DistanceFilter.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/hypergirgs/include/hypergirgs/DistanceFilter.h b/source/hypergirgs/include/hypergirgs/DistanceFilter.h
index b0e830b..2534171 100644
--- a/source/hypergirgs/include/hypergirgs/DistanceFilter.h
+++ b/source/hypergirgs/include/hypergirgs/DistanceFilter.h
@@ -1,6 +1,8 @@
 #pragma once
 
+#include <algorithm>
 #include <array>
+#include <cassert>
 #include <cmath>
 #include <limits>
 
@@ -33,7 +35,7 @@ public:
     , stage_width(stages/max_prob)
     {
         for(int i=1; i < stages; i++)
-            filter_stages[i] = cosh(invConnectionProb(max_connection_prob / stages * i, R, T));
+            filter_stages[i] = cosh(std::max(0.0, invConnectionProb(max_connection_prob / stages * i, R, T))); // not even distance 0 reaches prob if < 0
         // TODO maybe we should not save these values
         filter_stages[0] = std::numeric_limits<double>::infinity(); // at distance inf the conn prob is 0; cosh(inf)=inf
         filter_stages[stages] = 1.0; // at distance 0 the conn prob is largest; cosh(0)=1
-- 
2.43.0


From 09b8a10cf659691837602601aca537757f2dd083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:02 +0000
Subject: [PATCH 15/28] fix: wrong layer bounds in small hyperbolic discs and
 near the center lose edges

---
 .../hypergirgs/include/hypergirgs/HyperbolicTree.inl |  2 +-
 source/hypergirgs/source/RadiusLayer.cpp             | 12 ++++++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl b/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
index e4792a9..69dd22f 100644
--- a/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
+++ b/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
@@ -12,7 +12,7 @@ HyperbolicTree<EdgeCallback>::HyperbolicTree(const std::vector<double> &radii, c
     , m_R(R)
     , m_typeI_filter(1.0, R, T)
 {
-    const auto layer_height = 1.0;
+    const auto layer_height = std::min(1.0, R);
 
     // compute partition; hold ownership of radius_layers, points and prefix sums
     m_radius_layers = RadiusLayer::buildPartition(radii, angles, R, layer_height, m_points, m_first_in_cell, enable_profiling);
diff --git a/source/hypergirgs/source/RadiusLayer.cpp b/source/hypergirgs/source/RadiusLayer.cpp
index 2bb593d..6c197c7 100644
--- a/source/hypergirgs/source/RadiusLayer.cpp
+++ b/source/hypergirgs/source/RadiusLayer.cpp
@@ -1,6 +1,7 @@
 
 #include <hypergirgs/RadiusLayer.h>
 
+#include <algorithm>
 #include <cassert>
 #include <omp.h>
 
@@ -45,11 +46,14 @@ std::vector<RadiusLayer> RadiusLayer::buildPartition(const std::vector<double>&
     const auto n = radii.size();
 
     // translate radius <-> layer
-    auto radius_to_layer = [R, layer_height] (double radius) {return static_cast<unsigned int>( (R - radius) / layer_height );};
-    auto layer_rad_max   = [R, layer_height] (int l) {return R - l * layer_height;};
-    auto layer_rad_min   = [R, layer_height] (int l) {return R - l * layer_height - layer_height;};
-    const auto r_min_outer = R - layer_height;
     auto num_layers = static_cast<unsigned int>(std::ceil( R / layer_height));
+    auto layer_rad_max   = [R, layer_height] (int l) {return R - l * layer_height;};
+    auto layer_rad_min   = [R, layer_height] (int l) {return std::max(0.0, R - l * layer_height - layer_height);}; // the innermost layer ends at the center
+    auto radius_to_layer = [=] (double radius) {
+        const auto layer = std::min(static_cast<unsigned int>( (R - radius) / layer_height ), num_layers - 1);
+        return layer > 0 && radius > layer_rad_max(layer) ? layer - 1 : layer; // R - radius may be rounded up to the next layer
+    };
+    const auto r_min_outer = layer_rad_min(0);
 
     // generate look-up to get the level of a layer
     const auto level_of_layer = [&] {
-- 
2.43.0


From 04ae9fdbedb358f80dde1890a0f45fe12585a78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:19 +0000
Subject: [PATCH 16/28] fix: a node at the center of the disc gets no edges or
 far too many

---
 source/hypergirgs/include/hypergirgs/HyperbolicTree.inl | 8 ++++----
 source/hypergirgs/include/hypergirgs/Point.h            | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl b/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
index 69dd22f..dc0b360 100644
--- a/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
+++ b/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
@@ -316,8 +316,8 @@ void HyperbolicTree<EdgeCallback>::sampleTypeI(unsigned int cellA, unsigned int
             assert(cellB - AngleHelper::firstCellOfLevel(level) == AngleHelper::cellForPoint(nodeInB.angle, level));
 
             // points are in correct radius layer
-            assert(m_radius_layers[i].m_r_min < nodeInA.radius && nodeInA.radius <= m_radius_layers[i].m_r_max);
-            assert(m_radius_layers[j].m_r_min < nodeInB.radius && nodeInB.radius <= m_radius_layers[j].m_r_max);
+            assert(m_radius_layers[i].m_r_min <= nodeInA.radius && nodeInA.radius <= m_radius_layers[i].m_r_max);
+            assert(m_radius_layers[j].m_r_min <= nodeInB.radius && nodeInB.radius <= m_radius_layers[j].m_r_max);
 
             assert(nodeInA != nodeInB);
             if(inThresholdMode) {
@@ -419,8 +419,8 @@ void HyperbolicTree<EdgeCallback>::sampleTypeII(unsigned int cellA, unsigned int
         assert(cellB - AngleHelper::firstCellOfLevel(level) == AngleHelper::cellForPoint(nodeInB.angle, level));
 
         // points are in correct radius layer
-        assert(m_radius_layers[i].m_r_min < nodeInA.radius && nodeInA.radius <= m_radius_layers[i].m_r_max);
-        assert(m_radius_layers[j].m_r_min < nodeInB.radius && nodeInB.radius <= m_radius_layers[j].m_r_max);
+        assert(m_radius_layers[i].m_r_min <= nodeInA.radius && nodeInA.radius <= m_radius_layers[i].m_r_max);
+        assert(m_radius_layers[j].m_r_min <= nodeInB.radius && nodeInB.radius <= m_radius_layers[j].m_r_max);
 
         const auto rnd = dist(gen);
 
diff --git a/source/hypergirgs/include/hypergirgs/Point.h b/source/hypergirgs/include/hypergirgs/Point.h
index 84565ed..6c49ef2 100644
--- a/source/hypergirgs/include/hypergirgs/Point.h
+++ b/source/hypergirgs/include/hypergirgs/Point.h
@@ -27,8 +27,8 @@ struct Point {
     Point(const int id, const double radius, const double angle, int cell_id = 0) :
           id{id}
         , cell_id{cell_id}
-        , invsinh_r{1.0 / std::sinh(radius)}
-        , coth_r{std::cosh(radius) / std::sinh(radius)}
+        , invsinh_r{1.0 / std::sinh(std::max(radius, 1e-100))} // finite and still exact for a point at the center
+        , coth_r{std::cosh(radius) / std::sinh(std::max(radius, 1e-100))}
         , cos_phi{std::cos(angle)}
         , sin_phi{std::sin(angle)}
 #ifdef POINT_WITH_ORIGINAL
-- 
2.43.0


From 6e4f2fbb513305db17163821dcb0a92113984fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:43 +0000
Subject: [PATCH 17/28] fix: debug assertion on the threshold distance ignores
 rounding errors

---
 source/hypergirgs/include/hypergirgs/HyperbolicTree.inl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl b/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
index dc0b360..6868961 100644
--- a/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
+++ b/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
@@ -322,7 +322,8 @@ void HyperbolicTree<EdgeCallback>::sampleTypeI(unsigned int cellA, unsigned int
             assert(nodeInA != nodeInB);
             if(inThresholdMode) {
                 if (nodeInA.isDistanceBelowR(nodeInB, m_coshR)) {
-                    assert(hyperbolicDistance(nodeInA.radius, nodeInA.angle, nodeInB.radius, nodeInB.angle) < m_R);
+                    // both distance computations have rounding errors proportional to cosh(R)
+                    assert(hyperbolicDistance(nodeInA.radius, nodeInA.angle, nodeInB.radius, nodeInB.angle) < m_R + 1e-9 + 4e-15*m_coshR);
                     m_edgeCallback(nodeInA.id, nodeInB.id, threadId);
                 }
             } else {
-- 
2.43.0


From ae172ca0846c36c13516ead1f4bbe7834b5f2481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:43 +0000
Subject: [PATCH 18/28] fix: command line tools accept NaN parameters

---
 source/cli/gengirg/main.cpp | 2 +-
 source/cli/genhrg/main.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/cli/gengirg/main.cpp b/source/cli/gengirg/main.cpp
index 8dfc6b9..299649e 100644
--- a/source/cli/gengirg/main.cpp
+++ b/source/cli/gengirg/main.cpp
@@ -40,7 +40,7 @@ void logParam(T value, const string& name) {
 
 template<typename T>
 void rangeCheck(T value, T min, T max, string name, bool lex = false, bool hex = false) {
-    if (value < min || value > max || (value == min && lex) || (value == max && hex)) {
+    if (!(value >= min && value <= max) || (value == min && lex) || (value == max && hex)) {
         cerr << "ERROR: parameter " << name << " = " << value << " is not in range "
             << (lex ? "(" : "[") << min << "," << max << (hex ? ")" : "]") << '\n';
         exit(1);
diff --git a/source/cli/genhrg/main.cpp b/source/cli/genhrg/main.cpp
index d0eedcb..c0b2628 100644
--- a/source/cli/genhrg/main.cpp
+++ b/source/cli/genhrg/main.cpp
@@ -39,7 +39,7 @@ void logParam(T value, const string& name) {
 
 template<typename T>
 void rangeCheck(T value, T min, T max, string name, bool lex = false, bool hex = false) {
-    if (value < min || value > max || (value == min && lex) || (value == max && hex)) {
+    if (!(value >= min && value <= max) || (value == min && lex) || (value == max && hex)) {
         cerr << "ERROR: parameter " << name << " = " << value << " is not in range "
             << (lex ? "(" : "[") << min << "," << max << (hex ? ")" : "]") << '\n';
         exit(1);
-- 
2.43.0


From 1d2d35ee14bc76bd05ec7d18a914424053d76700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:10 +0000
Subject: [PATCH 19/28] fix: genhrg accepts alpha = 0.5, for which the disc is
 infinitely large

---
 README.md                  | 2 +-
 source/cli/genhrg/main.cpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/README.md b/README.md
index 5bc9c6b..29ce914 100644
--- a/README.md
+++ b/README.md
@@ -107,7 +107,7 @@ The HRG generator features the following input parameters.
 ./genhrg --help
 usage: ./genhrg
 		[-n anInt]          // number of nodes                          default 10000
-		[-alpha aFloat]     // model parameter          range [0.5,1]   default 0.75
+		[-alpha aFloat]     // model parameter          range (0.5,1]   default 0.75
 		[-t aFloat]         // temperature parameter    range [0,1)     default 0
 		[-deg aFloat]       // average degree           range [1,n)     default 10
 		[-rseed anInt]      // radii seed                               default 12
diff --git a/source/cli/genhrg/main.cpp b/source/cli/genhrg/main.cpp
index c0b2628..dadb04c 100644
--- a/source/cli/genhrg/main.cpp
+++ b/source/cli/genhrg/main.cpp
@@ -55,7 +55,7 @@ int main(int argc, char* argv[]) {
     if (argc < 2 || 0 == strcmp(argv[1], "--help") || 0 == strcmp(argv[1], "-help")) {
         clog << "usage: ./genhrg\n"
             << "\t\t[-n anInt]          // number of nodes                          default 10000\n"
-            << "\t\t[-alpha aFloat]     // model parameter          range [0.5,1]   default 0.75\n"
+            << "\t\t[-alpha aFloat]     // model parameter          range (0.5,1]   default 0.75\n"
             << "\t\t[-t aFloat]         // temperature parameter    range [0,1)     default 0\n"
             << "\t\t[-deg aFloat]       // average degree           range [1,n)     default 10\n"
             << "\t\t[-rseed anInt]      // radii seed                               default 12\n"
@@ -98,7 +98,7 @@ int main(int argc, char* argv[]) {
     // log params and range checks
     cout << "using:\n";
     logParam(n, "n");
-    rangeCheck(alpha, 0.5, 1.0, "alpha");
+    rangeCheck(alpha, 0.5, 1.0, "alpha", true, false);
     rangeCheck(T, 0.0, 1.0, "t", false, true);
     rangeCheck(deg, 1.0, n-1.0, "deg");
     logParam(rseed, "rseed");
-- 
2.43.0


From efb8143288d8dc6d05b18597a4c0ee2b8bddcb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:17 +0000
Subject: [PATCH 20/28] fix: index of a hyperbolic disc with a large radius
 overflows or exhausts memory

For large radii (alpha close to 0.5, high temperature, low degree) the base
level of the outermost layer exceeds 31, so that the number of cells
overflows. Limit the depth of the tree to about 2 to 4 cells per node.
---
 source/hypergirgs/include/hypergirgs/HyperbolicTree.inl | 2 +-
 source/hypergirgs/source/RadiusLayer.cpp                | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl b/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
index 6868961..07f5db9 100644
--- a/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
+++ b/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
@@ -482,7 +482,7 @@ std::vector<default_random_engine> HyperbolicTree<EdgeCallback>::initialize_prng
 
 template <typename EdgeCallback>
 unsigned int HyperbolicTree<EdgeCallback>::partitioningBaseLevel(double r1, double r2) const {
-    return RadiusLayer::partitioningBaseLevel(r1, r2, m_R);
+    return std::min(RadiusLayer::partitioningBaseLevel(r1, r2, m_R), m_levels - 1); // the depth of the tree is limited
 }
 
 template<typename EdgeCallback>
diff --git a/source/hypergirgs/source/RadiusLayer.cpp b/source/hypergirgs/source/RadiusLayer.cpp
index 6c197c7..321b0ac 100644
--- a/source/hypergirgs/source/RadiusLayer.cpp
+++ b/source/hypergirgs/source/RadiusLayer.cpp
@@ -55,11 +55,15 @@ std::vector<RadiusLayer> RadiusLayer::buildPartition(const std::vector<double>&
     };
     const auto r_min_outer = layer_rad_min(0);
 
+    // In a large disc the base level gets arbitrarily deep, but there is no use in having much more cells than nodes.
+    auto max_level = 2u;
+    while (max_level < 28 && AngleHelper::numCellsInLevel(max_level) < 2 * n) ++max_level;
+
     // generate look-up to get the level of a layer
     const auto level_of_layer = [&] {
         std::vector<int> level_of_layer(num_layers);
         for (int l = 0; l < num_layers; ++l) {
-            level_of_layer[l] = partitioningBaseLevel(layer_rad_min(l), r_min_outer, R);
+            level_of_layer[l] = std::min(max_level, partitioningBaseLevel(layer_rad_min(l), r_min_outer, R));
         }
         assert(std::is_sorted(level_of_layer.crbegin(), level_of_layer.crend()));
         return level_of_layer;
-- 
2.43.0


From 3917e4b09c40e1c1908976ce95916ab92780bf78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:55 +0000
Subject: [PATCH 21/28] fix: radius search like NetworKit does not terminate if
 the degree is not bracketed

The expected degree has a maximum, such that the assumed interval does not
contain a solution for high degrees. Moreover, cancellation for alpha close to
0.5 made it impossible to get within epsilon of the desired degree.
---
 source/hypergirgs/source/Generator.cpp | 35 ++++++++++++++++++--------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/source/hypergirgs/source/Generator.cpp b/source/hypergirgs/source/Generator.cpp
index ddf488d..1fe5637 100644
--- a/source/hypergirgs/source/Generator.cpp
+++ b/source/hypergirgs/source/Generator.cpp
@@ -1,6 +1,7 @@
 
 #include <hypergirgs/Generator.h>
 
+#include <algorithm>
 #include <random>
 #include <fstream>
 #include <cmath>
@@ -21,25 +22,40 @@ double calculateRadius(int n, double alpha, double T, double deg) {
 
 ///////////////////////////////// COPIED FROM NETWORKIT ///////////////////////
 static double getExpectedDegree(double n, double alpha, double R) {
-    double gamma = 2*alpha+1;
-    double xi = (gamma-1)/(gamma-2);
-    double firstSumTerm = exp(-R/2);
-    double secondSumTerm = exp(-alpha*R)*(alpha*(R/2)*((PI/4)*pow((1/alpha),2)-(PI-1)*(1/alpha)+(PI-2))-1);
+    double xi = alpha/(alpha-0.5);
+    // exp(-R/2) + exp(-alpha*R)*(alpha*(R/2)*((PI/4)*pow((1/alpha),2)-(PI-1)*(1/alpha)+(PI-2))-1)
+    // rearranged to avoid cancellation for alpha close to 0.5
+    double firstSumTerm = -exp(-R/2)*expm1(-(alpha-0.5)*R);
+    double secondSumTerm = exp(-alpha*R)*(R/2)*(alpha-0.5)*((PI-2)*alpha-PI/2)/alpha;
     double expectedDegree = (2/PI)*xi*xi*n*(firstSumTerm + secondSumTerm);
     return expectedDegree;
 }
 
 static double searchTargetRadiusForColdGraphs(double n, double k, double alpha, double epsilon) {
-    double gamma = 2*alpha+1;
-    double xiInv = ((gamma-2)/(gamma-1));
+    double xiInv = (alpha-0.5)/alpha;
     double v = k * (PI/2)*xiInv*xiInv;
     double currentR = 2*log(n / v);
     double lowerBound = currentR/2;
     double upperBound = currentR*2;
-    assert(getExpectedDegree(n, alpha, lowerBound) > k);
-    assert(getExpectedDegree(n, alpha, upperBound) < k);
+    if (!(getExpectedDegree(n, alpha, lowerBound) > k && getExpectedDegree(n, alpha, upperBound) < k)) {
+        // The expected degree rises from 0 at R = 0 to a maximum and decreases afterwards.
+        // Thus, come from a large radius and search the interval that contains k in the decreasing part.
+        const double factor = 0.99;
+        upperBound = std::max(1.0, std::abs(currentR));
+        while (getExpectedDegree(n, alpha, upperBound) >= k)
+            upperBound *= 2;
+        lowerBound = upperBound*factor;
+        while (getExpectedDegree(n, alpha, lowerBound) <= k) {
+            if (getExpectedDegree(n, alpha, lowerBound) < getExpectedDegree(n, alpha, upperBound))
+                return upperBound; // k exceeds the maximum, so this is as close as we get
+            upperBound = lowerBound;
+            lowerBound *= factor;
+        }
+    }
     do {
         currentR = (lowerBound + upperBound)/2;
+        if (currentR <= lowerBound || currentR >= upperBound)
+            break; // rounding errors prevent the desired precision
         double currentK = getExpectedDegree(n, alpha, currentR);
         // std::cout << "n: " << n << " k: " << k << " alpha: " << alpha << " curK: " << currentK << " R: " << currentR << std::endl;
         if (currentK < k) {
@@ -53,9 +69,8 @@ static double searchTargetRadiusForColdGraphs(double n, double k, double alpha,
 
 static double getTargetRadius(double n, double m, double alpha=1, double T=0, double epsilon = 0.01) {
     double result;
-    double plexp = 2*alpha+1;
     double targetAvgDegree = (m/n)*2;
-    double xiInv = ((plexp-2)/(plexp-1));
+    double xiInv = (alpha-0.5)/alpha;
     if (T == 0) {
         double v = targetAvgDegree * (PI/2)*xiInv*xiInv;
         result = 2*log(n / v);
-- 
2.43.0


From 45a22972034745fb1270a7f0cd74cf7188beae56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:11 +0000
Subject: [PATCH 22/28] fix: sampling zero radii or angles in parallel divides
 by zero

---
 source/hypergirgs/source/Generator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/hypergirgs/source/Generator.cpp b/source/hypergirgs/source/Generator.cpp
index 1fe5637..47ce810 100644
--- a/source/hypergirgs/source/Generator.cpp
+++ b/source/hypergirgs/source/Generator.cpp
@@ -104,7 +104,7 @@ static std::pair<std::vector<double>, std::vector<double>> sampleRadiiAndAnglesH
     std::vector<double> angles(n * Angles);
 
     constexpr auto kMinChunkSize = 10000;
-    const auto threads = parallel ? std::min<int>(omp_get_max_threads(), (n + kMinChunkSize - 1) / kMinChunkSize) : 1;
+    const auto threads = parallel ? std::max(1, std::min<int>(omp_get_max_threads(), (n + kMinChunkSize - 1) / kMinChunkSize)) : 1;
 
     const auto invalpha = 1.0 / alpha;
     #pragma omp parallel num_threads(threads)
-- 
2.43.0


From a2ffcb0661cde6f8968040bcb352aeedc0df0934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:20 +0000
Subject: [PATCH 23/28] fix: failing to write an output file goes unnoticed

---
 source/cli/gengirg/main.cpp       | 2 ++
 source/cli/genhrg/main.cpp        | 4 ++++
 source/girgs/source/Generator.cpp | 4 ++++
 3 files changed, 10 insertions(+)

diff --git a/source/cli/gengirg/main.cpp b/source/cli/gengirg/main.cpp
index 299649e..6db67b4 100644
--- a/source/cli/gengirg/main.cpp
+++ b/source/cli/gengirg/main.cpp
@@ -156,6 +156,8 @@ int main(int argc, char* argv[]) {
         f << n << ' ' << edges.size() << "\n\n";
         for(auto& each : edges)
             f << each.first << ' ' << each.second << '\n';
+        f.close();
+        if(!f) throw std::runtime_error{"Error: failed to write file \"" + file + ".txt\""};
         auto t7 = high_resolution_clock::now();
         cout << "done in " << duration_cast<milliseconds>(t7 - t6).count() << "ms" << endl;
     }
diff --git a/source/cli/genhrg/main.cpp b/source/cli/genhrg/main.cpp
index dadb04c..ab07fa8 100644
--- a/source/cli/genhrg/main.cpp
+++ b/source/cli/genhrg/main.cpp
@@ -142,6 +142,8 @@ int main(int argc, char* argv[]) {
         f << n << ' ' << edges.size() << "\n\n";
         for(auto& each : edges)
             f << each.first << ' ' << each.second << '\n';
+        f.close();
+        if(!f) throw std::runtime_error{"Error: failed to write file \"" + file + ".txt\""};
         auto t7 = high_resolution_clock::now();
         cout << "done in " << duration_cast<milliseconds>(t7 - t6).count() << "ms" << endl;
     }
@@ -154,6 +156,8 @@ int main(int argc, char* argv[]) {
         f << std::fixed << std::setprecision(std::numeric_limits<double>::max_digits10);
         for(auto i{0u}; i<n; ++i)
             f << radii[i]  << ' ' << angles[i] << '\n';
+        f.close();
+        if(!f) throw std::runtime_error{"Error: failed to write file \"" + file + ".hyp\""};
         auto t7 = high_resolution_clock::now();
         cout << "done in " << duration_cast<milliseconds>(t7 - t6).count() << "ms" << endl;
     }
diff --git a/source/girgs/source/Generator.cpp b/source/girgs/source/Generator.cpp
index f0bc66c..e048d2f 100644
--- a/source/girgs/source/Generator.cpp
+++ b/source/girgs/source/Generator.cpp
@@ -138,6 +138,10 @@ void saveDot(const std::vector<double> &weights, const std::vector<std::vector<d
     for (auto &edge : graph)
         f << '\t' << edge.first << "\t-- " << edge.second << ";\n";
     f << "}\n";
+
+    f.close();
+    if(!f)
+        throw std::runtime_error{"Error: failed to write file \"" + file + '\"'};
 }
 
 } // namespace girgs
-- 
2.43.0


From c5d44a0ac6fe9f44188d1d19af7c21eec6e06a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:53 +0000
Subject: [PATCH 24/28] fix: signed overflow when seeds close to the largest
 int are distributed to threads

---
 source/girgs/include/girgs/SpatialTree.inl | 2 +-
 source/girgs/source/Generator.cpp          | 4 ++--
 source/hypergirgs/source/Generator.cpp     | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/girgs/include/girgs/SpatialTree.inl b/source/girgs/include/girgs/SpatialTree.inl
index 09eb0be..c4f0bdd 100644
--- a/source/girgs/include/girgs/SpatialTree.inl
+++ b/source/girgs/include/girgs/SpatialTree.inl
@@ -46,7 +46,7 @@ void SpatialTree<D, EdgeCallback>::generateEdges(int seed) {
     const auto num_threads = omp_get_max_threads();
     m_gens.resize(num_threads);
     for (int thread = 0; thread < num_threads; thread++) {
-        m_gens[thread].seed(seed >= 0 ? seed+thread : std::random_device()());
+        m_gens[thread].seed(seed >= 0 ? static_cast<unsigned>(seed)+thread : std::random_device()());
     } 
 
 #ifndef NDEBUG
diff --git a/source/girgs/source/Generator.cpp b/source/girgs/source/Generator.cpp
index e048d2f..daa5327 100644
--- a/source/girgs/source/Generator.cpp
+++ b/source/girgs/source/Generator.cpp
@@ -22,7 +22,7 @@ std::vector<double> generateWeights(int n, double ple, int weightSeed, bool para
     #pragma omp parallel num_threads(threads)
     {
         const auto tid = omp_get_thread_num();
-        auto gen = default_random_engine{weightSeed >= 0 ? (weightSeed+tid) : std::random_device()()};
+        auto gen = default_random_engine{weightSeed >= 0 ? (static_cast<unsigned>(weightSeed)+tid) : std::random_device()()};
         auto dist = std::uniform_real_distribution<>{};
 
         #pragma omp for schedule(static)
@@ -41,7 +41,7 @@ std::vector<std::vector<double>> generatePositions(int n, int dimension, int pos
     #pragma omp parallel num_threads(threads)
     {
         const auto tid = omp_get_thread_num();
-        auto gen = default_random_engine{positionSeed >= 0 ? (positionSeed+tid) : std::random_device()()};
+        auto gen = default_random_engine{positionSeed >= 0 ? (static_cast<unsigned>(positionSeed)+tid) : std::random_device()()};
         auto dist = std::uniform_real_distribution<>{};
 
         #pragma omp for schedule(static)
diff --git a/source/hypergirgs/source/Generator.cpp b/source/hypergirgs/source/Generator.cpp
index 47ce810..9c8e239 100644
--- a/source/hypergirgs/source/Generator.cpp
+++ b/source/hypergirgs/source/Generator.cpp
@@ -109,7 +109,7 @@ static std::pair<std::vector<double>, std::vector<double>> sampleRadiiAndAnglesH
     const auto invalpha = 1.0 / alpha;
     #pragma omp parallel num_threads(threads)
     {
-        auto gen = hypergirgs::default_random_engine(seed >= 0 ? seed + omp_get_thread_num() : std::random_device()());
+        auto gen = hypergirgs::default_random_engine(seed >= 0 ? static_cast<unsigned>(seed) + omp_get_thread_num() : std::random_device()());
         auto adist = std::uniform_real_distribution<>(0, 2*PI);
         auto rdist = std::uniform_real_distribution<>(std::nextafter(1.0, 2.0), std::cosh(alpha * R));
 
-- 
2.43.0


From cbb9d06f285ba9150f35aaedea5d858931b59970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:00 +0000
Subject: [PATCH 25/28] fix: debug assertions of hyperbolic edge sampling
 ignore rounding errors

---
 .../include/hypergirgs/HyperbolicTree.inl        | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl b/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
index 07f5db9..57c9315 100644
--- a/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
+++ b/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
@@ -332,13 +332,13 @@ void HyperbolicTree<EdgeCallback>::sampleTypeI(unsigned int cellA, unsigned int
 
                 // check if we wouldn't make it even if rnd was a little smaller
                 if (real_dist_cosh > m_typeI_filter.coshDistForProb_upperBound(rnd)) {
-                    assert(rnd * connectionProbRec(std::acosh(real_dist_cosh)) >= 1.0);
+                    assert(rnd * connectionProbRec(std::acosh(real_dist_cosh) + 1e-7) >= 1.0); // 1e-7 for rounding errors of acosh
                     continue;
                 }
 
                 // check if we would make it even if rnd was a little higher
                 if (real_dist_cosh < m_typeI_filter.coshDistForProb_lowerBound(rnd)) {
-                    assert(rnd * connectionProbRec(std::acosh(real_dist_cosh)) < 1.0);
+                    assert(rnd * connectionProbRec(std::acosh(real_dist_cosh) - 1e-7) < 1.0); // 1e-7 for rounding errors of acosh
                     m_edgeCallback(nodeInA.id, nodeInB.id, threadId);
                     continue;
                 }
@@ -429,18 +429,22 @@ void HyperbolicTree<EdgeCallback>::sampleTypeII(unsigned int cellA, unsigned int
         const auto real_dist_cosh = nodeInA.hyperbolicDistanceCosh(nodeInB);
         assert(angular_distance_lower_bound <= std::abs(nodeInA.angle - nodeInB.angle));
         assert(angular_distance_lower_bound <= std::abs(nodeInB.angle - nodeInA.angle));
-        assert(std::acosh(real_dist_cosh) >= dist_lower_bound);
-        assert(std::acosh(real_dist_cosh) > m_R);
+#ifndef NDEBUG
+        // cosh of the distance and the bounds have rounding errors
+        const auto max_dist_cosh = real_dist_cosh * (1 + 1e-12) + 1e-14 * std::cosh(nodeInA.radius) * std::cosh(nodeInB.radius);
+        assert(max_dist_cosh >= std::cosh(dist_lower_bound));
+        assert(max_dist_cosh > m_coshR);
+#endif // NDEBUG
 
         // check if we wouldn't make it even if rnd was a little smaller
         if (real_dist_cosh > filter.coshDistForProb_upperBound(rnd)) {
-            assert(rnd * connectionProbRec(std::acosh(real_dist_cosh)) >= 1.0);
+            assert(rnd * connectionProbRec(std::acosh(real_dist_cosh) + 1e-7) >= 1.0); // 1e-7 for rounding errors of acosh
             continue;
         }
 
         // check if we would make it even if rnd was a little higher
         if (real_dist_cosh < filter.coshDistForProb_lowerBound(rnd)) {
-            assert(rnd * connectionProbRec(std::acosh(real_dist_cosh)) < 1.0);
+            assert(rnd * connectionProbRec(std::acosh(real_dist_cosh) - 1e-7) < 1.0); // 1e-7 for rounding errors of acosh
             m_edgeCallback(nodeInA.id, nodeInB.id, threadId);
             continue;
         }
-- 
2.43.0


From 301cccc0cff576ad8ad1ff698a03c7e81aa2f3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:22 +0000
Subject: [PATCH 26/28] fix: weight scaling for the threshold case loses all
 precision with very heavy weights

---
 source/girgs/source/WeightScaling.cpp | 85 ++++++++++++++++-----------
 1 file changed, 51 insertions(+), 34 deletions(-)

diff --git a/source/girgs/source/WeightScaling.cpp b/source/girgs/source/WeightScaling.cpp
index 83bac68..e524f71 100644
--- a/source/girgs/source/WeightScaling.cpp
+++ b/source/girgs/source/WeightScaling.cpp
@@ -89,62 +89,79 @@ double estimateWeightScalingThreshold(const std::vector<double> &weights, double
     LazySorter lazy_sorter(sweights);
 
     // compute some constant stuff
-    const auto n = weights.size();
+    const auto n = static_cast<int>(weights.size());
     auto max_weight = 0.0;
-    auto W = 0.0, sq_W = 0.0;
+    auto W = 0.0;
     {
 #ifndef _MSC_VER
-        #pragma omp parallel for reduction(+:W, sq_W), reduction(max: max_weight)
+        #pragma omp parallel for reduction(+:W), reduction(max: max_weight)
 #endif
         for (int i = 0; i < n; ++i) {
             const auto each = weights[i];
             sweights[i] = each; // copy to sweights
 
             W += each;
-            sq_W += each * each;
             max_weight = std::max(max_weight, each);
         }
     }
 
-    // my function to do the exponential search on
-    auto f = [=, &sweights, &lazy_sorter](double c) {
-        
-        // compute overestimation
-        const auto pow2c = std::pow(2.0 * c, dimension);
-		const auto overestimation = pow2c * (W - sq_W / W);
+    // the first num_sorted elements are sorted, they include the rich club
+    auto num_sorted = 0;
+    auto sorted_w = 0.0, rest_w = 0.0, rest_sq_w = 0.0; // sum of w of the sorted elements, sum of w and w^2 of the others
 
-		// compute rich club
-		const auto richclub_end = lazy_sorter.sort_downto(W / pow2c / max_weight);
-		assert(richclub_end <= sweights.end());
+    auto grow_sorted = [&] (int new_num_sorted) {
+        for(; num_sorted < new_num_sorted; ++num_sorted)
+            sorted_w += sweights[num_sorted];
 
-        // subtract error
-        auto error = 0.0;
+        rest_w = rest_sq_w = 0.0;
+#ifndef _MSC_VER
+        #pragma omp parallel for reduction(+:rest_w, rest_sq_w)
+#endif
+        for (int i = new_num_sorted; i < n; ++i) {
+            rest_w    += sweights[i];
+            rest_sq_w += sweights[i] * sweights[i];
+        }
+    };
+    grow_sorted(0);
 
-        auto w2sum = 0.0;
-        auto w2 = sweights.cbegin();
-        for(auto w1 = richclub_end; w1 > sweights.begin(); ) {
-			--w1; // msvc throws when decrementing beyond begin iterator
-            const auto fac = *w1 / W;
-            const auto my_thres = 1.0 / fac / pow2c;
+    // A pair is always connected if (2*c)^d * w1*w2/W >= 1, otherwise with probability (2*c)^d * w1*w2/W.
+    // The second case is summed up without the pairs of the first one: they may exceed the result
+    // by so many orders of magnitude that nothing is left of it after subtracting them again.
+    auto f = [&] (double c) {
+        const auto pow2c = std::pow(2.0 * c, dimension);
 
-            for(; w2 < richclub_end && *w2 >= my_thres; w2sum += *(w2++));
+        const auto richclub_end = lazy_sorter.sort_downto(W / pow2c / max_weight);
+        assert(richclub_end <= sweights.end());
+        const auto num_richclub = static_cast<int>(std::distance(sweights.begin(), richclub_end));
+        if (num_richclub > num_sorted)
+            grow_sorted(num_richclub);
 
-            /**
-              * sum_{k < j, k != i}{ std::pow(2*c,dimension)*(w1*w_k/W)-1.0 }
-              * = sum_{k < j, k != i}{ std::pow(2*c,dimension)*(w1*w_k/W) } - j
-              * = sum_{k < j}{ std::pow(2*c,dimension)*(w1*w_k/W) } - j - (0 if j < i else std::pow(2*c,dimension)*(w1*w_i/W) - 1)
-              * = pow2c * w1/W * (sum_j{w_j}) - j - (0 if j < i else pow2c*(w1/W)*w_i - 1)
-              */
+        // pairs with at least one element that is not sorted
+        auto w_terms = rest_w * (rest_w + 2 * sorted_w) - rest_sq_w;
 
-            error += w2sum * pow2c * fac - (std::distance(sweights.cbegin(), w2));
+        // pairs of sorted elements, [i2, num_sorted) are those not always connected to i1
+        auto num_terms = 0.0;
+        auto w2_sum = 0.0;
+        auto i2 = num_sorted;
+        for(auto i1 = 0; i1 < num_sorted; ++i1) {
+            const auto my_thres = W / pow2c / sweights[i1];
+            for (; i2 > 0 && sweights[i2 - 1] < my_thres; --i2)
+                w2_sum += sweights[i2 - 1];
 
-            if (w2 > w1) {
-                // we have to subtract the self-contribution of x == y
-                error -= pow2c * fac * (*w1) - 1.0;
-            }
+            num_terms += i2;
+            w_terms   += sweights[i1] * w2_sum;
+
+            // we have to subtract the pair of i1 with itself
+            if (i2 > i1)
+                num_terms--;
+            else
+                w_terms -= sweights[i1] * sweights[i1];
         }
 
-        return (overestimation - error) / n;
+        if (w_terms <= 0.0)
+            return num_terms / n;
+
+        return (num_terms + pow2c * w_terms / W) / n;
     };
 
     // do exponential search on expected average degree function
-- 
2.43.0


From 28c3bfc43447ce6c8db8b9120b009f56011ea76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:36 +0000
Subject: [PATCH 27/28] fix: signed overflow in calculateRadius for 2^30 nodes
 and more

---
 source/hypergirgs/source/Generator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/hypergirgs/source/Generator.cpp b/source/hypergirgs/source/Generator.cpp
index 9c8e239..a1bea36 100644
--- a/source/hypergirgs/source/Generator.cpp
+++ b/source/hypergirgs/source/Generator.cpp
@@ -16,7 +16,7 @@ namespace hypergirgs {
 
 
 double calculateRadius(int n, double alpha, double T, double deg) {
-    return 2 * log(n * 2 * alpha * alpha * (T == 0 ? 1 / PI : T / sin(PI * T)) /
+    return 2 * log(2.0 * n * alpha * alpha * (T == 0 ? 1 / PI : T / sin(PI * T)) /
                    (deg * (alpha - 0.5) * (alpha - 0.5)));
 }
 
-- 
2.43.0


From 29baa1bfb6649fa7eefd91d6f25af338b04c52c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:26 +0000
Subject: [PATCH 28/28] fix: saveDot writes unreadable numbers when the
 application sets a global locale

---
 source/girgs/source/Generator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/girgs/source/Generator.cpp b/source/girgs/source/Generator.cpp
index daa5327..3b05a83 100644
--- a/source/girgs/source/Generator.cpp
+++ b/source/girgs/source/Generator.cpp
@@ -5,6 +5,7 @@
 #include <functional>
 #include <mutex>
 #include <ios>
+#include <locale>
 
 #include <omp.h>
 
@@ -124,6 +125,7 @@ void saveDot(const std::vector<double> &weights, const std::vector<std::vector<d
     std::ofstream f{file};
     if(!f.is_open())
         throw std::runtime_error{"Error: failed to open file \"" + file + '\"'};
+    f.imbue(std::locale::classic()); // the file format must not depend on the locale of the application
     f << "graph girg {\n\toverlap=scale;\n\n";
     f << std::fixed;
     for (int i = 0; i < weights.size(); ++i) {
-- 
2.43.0

