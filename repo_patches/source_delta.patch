From f7261cf1f64341b3f56d4a9b0b2ea2f5fe55280f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:11 +0000
Subject: [PATCH 01/71] fix: EvalVisitor's floor division of the scalar 0 read
 a missing vector

---
 lib/Kernel/EvalVisitor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Kernel/EvalVisitor.cpp b/lib/Kernel/EvalVisitor.cpp
index cfe710b..54dc8e2 100644
--- a/lib/Kernel/EvalVisitor.cpp
+++ b/lib/Kernel/EvalVisitor.cpp
@@ -139,7 +139,7 @@ EvalResults EvalVisitor::operator()(const FloorDivNode<LiteralValue>& node) {
 
   // Scalar case
   const auto* lScalar = std::get_if<int>(&lVal);
-  if (*lScalar) {
+  if (lScalar) {
     return {LiteralValue(*lScalar / node.divisor)};
   }
 
-- 
2.43.0


From e0c0bfdd505ae13393a66476fbe1a0dba76d7882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:27 +0000
Subject: [PATCH 02/71] fix: shortest path linked vertices forward and could
 loop or return a wrong path

---
 lib/Utils/Graph/Graph.h | 54 +++++++++++++++++------------------------
 1 file changed, 22 insertions(+), 32 deletions(-)

diff --git a/lib/Utils/Graph/Graph.h b/lib/Utils/Graph/Graph.h
index c01c705..0467946 100644
--- a/lib/Utils/Graph/Graph.h
+++ b/lib/Utils/Graph/Graph.h
@@ -266,8 +266,8 @@ class Graph {
         if (src == sink) continue;  // isolated node is both source and sink
         auto res = getShortestPath(src, sink);
         if (succeeded(res)) {
-          if (result.size() < res.size()) {
-            result = res;
+          if (result.size() < res->size()) {
+            result = *res;
           }
         }
       }
@@ -437,13 +437,14 @@ class Graph {
   FailureOr<std::vector<V>> getShortestPath(
       V start, V end, std::function<uint64_t(V, V)> weight_fn) {
     std::vector<V> path;
-    std::queue<V> q;
+    if (!contains(start) || !contains(end)) return failure();
 
-    std::set<V> visited;
+    constexpr uint64_t kUnreachable = std::numeric_limits<uint64_t>::max();
+    std::queue<V> q;
     std::map<V, uint64_t> distance;  // from @start node
-    std::map<V, V> linkback;
+    std::map<V, V> predecessor;      // on the best path from @start found so far
     for (auto& v : vertices) {
-      distance[v] = std::numeric_limits<uint64_t>::max();
+      distance[v] = kUnreachable;
     }
     distance[start] = 0;
 
@@ -453,43 +454,32 @@ class Graph {
       V curr = q.front();
       q.pop();
 
-      if (curr == end) {
-        distance[curr] = 0;
-        break;
-      }
-
-      if (!visited.insert(curr).second) {
-        // backedge
-        continue;
-      }
-
       // nothing to reduce on this edge.
       if (!outEdges.count(curr)) {
         continue;
       }
 
       for (auto& next : outEdges.at(curr)) {
-        if (distance[next] > distance[curr] + weight_fn(curr, next)) {
-          linkback[curr] = next;
-          distance[next] = distance[curr] + weight_fn(curr, next);
-        } else if (distance[curr] == 0) {
-          linkback[curr] = next;
+        uint64_t weight = weight_fn(curr, next);
+        if (weight >= kUnreachable - distance[curr]) continue;
+        if (distance[next] > distance[curr] + weight) {
+          predecessor[next] = curr;
+          distance[next] = distance[curr] + weight;
+          // Revisit the successors of next with its improved distance.
+          q.push(next);
         }
-        q.push(next);
       }
     }
 
-    if (distance[end] != std::numeric_limits<uint64_t>::max()) {
-      // some path found
-      auto curr = start;
-      while (curr != end) {
-        path.push_back(curr);
-        curr = linkback[curr];
-      }
-      path.push_back(end);
-    } else {
-      return failure();
+    if (distance[end] == kUnreachable) return failure();
+
+    V curr = end;
+    path.push_back(curr);
+    while (curr != start) {
+      curr = predecessor.at(curr);
+      path.push_back(curr);
     }
+    std::reverse(path.begin(), path.end());
     return path;
   }
 
-- 
2.43.0


From 41adb64b5168de4b5c2ee2ae81d15953d6f96be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:20 +0000
Subject: [PATCH 03/71] fix: condensing a component with a self loop removed
 all its vertices

---
 lib/Utils/Graph/Graph.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Utils/Graph/Graph.h b/lib/Utils/Graph/Graph.h
index 0467946..872d5d6 100644
--- a/lib/Utils/Graph/Graph.h
+++ b/lib/Utils/Graph/Graph.h
@@ -245,7 +245,8 @@ class Graph {
         for (const V& u : aliveSnapShot) {
           if (!alive.count(u)) continue;
           for (V v : edgesOutOf(u)) {
-            if (alive.count(v)) {
+            // a self loop must not merge a vertex into itself
+            if (v != u && alive.count(v)) {
               contractEdge(u, v, mergeFn);
               alive.erase(v);
             }
-- 
2.43.0


From 3d2adf48a5aed68bc3dffe4ae363e20d782831da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:13 +0000
Subject: [PATCH 04/71] fix: row-major layout map used the wrong stride from
 rank three on

---
 lib/Utils/AffineMapUtils.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/Utils/AffineMapUtils.cpp b/lib/Utils/AffineMapUtils.cpp
index d9fa602..599de8b 100644
--- a/lib/Utils/AffineMapUtils.cpp
+++ b/lib/Utils/AffineMapUtils.cpp
@@ -67,13 +67,13 @@ AffineMap getRowMajorLayoutMap(RankedTensorType inputType,
 
   // First construct a single expression corresponding to the "flattened"
   // row-major indexing order.
+  int64_t stride = 1;
   for (int dim = dims.size() - 1; dim >= 0; --dim) {
     // iter 1: k
     // iter 2: k + size(k) * j
     // iter 3: k + size(k) * j + size(j) * size(k) * i
-    flattened = flattened
-                    ? flattened + inputType.getDimSize(dim + 1) * dims[dim]
-                    : dims[dim];
+    flattened = flattened ? flattened + stride * dims[dim] : dims[dim];
+    stride *= inputType.getDimSize(dim);
   }
 
   // Then "unflatten" with respect to the output type's shape.
-- 
2.43.0


From 29ec1ded8acfb0af2818a1626fa398ebfa78efe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:07 +0000
Subject: [PATCH 05/71] fix: composing a degree two Chebyshev series ignored
 d_2 in Clenshaw's formula

---
 lib/Utils/Polynomial/Polynomial.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/Utils/Polynomial/Polynomial.cpp b/lib/Utils/Polynomial/Polynomial.cpp
index f5240c5..4ea3956 100644
--- a/lib/Utils/Polynomial/Polynomial.cpp
+++ b/lib/Utils/Polynomial/Polynomial.cpp
@@ -145,6 +145,7 @@ ChebyshevPolynomial ChebyshevPolynomial::compose(
   SmallVector<APFloat> d_kplus2;
   SmallVector<APFloat> d_kplus1 = {c[n]};
   SmallVector<APFloat> d_2_coeffs;
+  if (n == 2) d_2_coeffs = d_kplus1;
 
   for (int k = n - 1; k >= 0; --k) {
     int deg_kplus1 = n - (k + 1);
-- 
2.43.0


From c9bee2d391a4a9b3a673408d17d075fb2e057008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:07 +0000
Subject: [PATCH 06/71] fix: composing the zero Chebyshev series read a missing
 coefficient

---
 lib/Utils/Polynomial/Polynomial.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Utils/Polynomial/Polynomial.cpp b/lib/Utils/Polynomial/Polynomial.cpp
index 4ea3956..94f8d57 100644
--- a/lib/Utils/Polynomial/Polynomial.cpp
+++ b/lib/Utils/Polynomial/Polynomial.cpp
@@ -129,10 +129,10 @@ ChebyshevPolynomial ChebyshevPolynomial::compose(
   // Since y is a polynomial in x, the d_k are also polynomials in x. We can
   // compute the Chebyshev coefficients of each d_k iteratively.
 
-  int n = getDegree();
-  if (n < 0) {
+  if (isZero()) {
     return ChebyshevPolynomial::zero();
   }
+  int n = getDegree();
 
   auto otherCoeffs = other.getCoeffMap();
   APFloat b = otherCoeffs.contains(0) ? otherCoeffs.at(0).getCoefficient()
-- 
2.43.0


From ae1d9026f08fee804b1d3edb67eb134527cded9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:07 +0000
Subject: [PATCH 07/71] fix: multiplying by the zero polynomial read the degree
 of an empty polynomial

---
 lib/Utils/Polynomial/Polynomial.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/Utils/Polynomial/Polynomial.h b/lib/Utils/Polynomial/Polynomial.h
index ac67cba..59ba009 100644
--- a/lib/Utils/Polynomial/Polynomial.h
+++ b/lib/Utils/Polynomial/Polynomial.h
@@ -224,6 +224,7 @@ class PolynomialBase {
   }
 
   Derived naiveMul(const Derived& other) const {
+    if (isZero() || other.isZero()) return zero();
     SmallVector<Monomial> newTerms;
     size_t maxDegree = getDegree() + other.getDegree();
     newTerms.reserve(maxDegree + 1);
-- 
2.43.0


From ebcade279a9dbedce33ae623cb0025b61e59f9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:07 +0000
Subject: [PATCH 08/71] fix: adding RNS polynomials overflowed for moduli above
 2^63

---
 lib/Utils/Polynomial/RNSPolynomial.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lib/Utils/Polynomial/RNSPolynomial.cpp b/lib/Utils/Polynomial/RNSPolynomial.cpp
index 7a589c3..964b4bb 100644
--- a/lib/Utils/Polynomial/RNSPolynomial.cpp
+++ b/lib/Utils/Polynomial/RNSPolynomial.cpp
@@ -41,10 +41,8 @@ RNSPolynomial RNSPolynomial::add(const RNSPolynomial& other) const {
     for (size_t coeffIdx = 0; coeffIdx < numCoeffs; ++coeffIdx) {
       uint64_t a = getElement(limbIdx, coeffIdx);
       uint64_t b = other.getElement(limbIdx, coeffIdx);
-      uint64_t sum = a + b;
-      if (sum >= modulus) {
-        sum -= modulus;
-      }
+      // a + b may exceed 64 bits, so compare before adding.
+      uint64_t sum = a >= modulus - b ? a - (modulus - b) : a + b;
       resultData.push_back(sum);
     }
   }
-- 
2.43.0


From 96cf5a620d04462cde84300eb88e96a7d5949bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:07 +0000
Subject: [PATCH 09/71] fix: an odd number of samples counted as odd symmetric
 whatever the middle sample

---
 lib/Utils/Approximation/Chebyshev.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Utils/Approximation/Chebyshev.cpp b/lib/Utils/Approximation/Chebyshev.cpp
index 5b23ea8..d6c9329 100644
--- a/lib/Utils/Approximation/Chebyshev.cpp
+++ b/lib/Utils/Approximation/Chebyshev.cpp
@@ -74,7 +74,7 @@ void interpolateChebyshev(ArrayRef<APFloat> chebEvalPoints,
                  chebEvalPoints.rbegin());
 
   bool isOdd = true;
-  for (int i = 0; i < n / 2; ++i) {
+  for (int i = 0; i < (n + 1) / 2; ++i) {
     if (chebEvalPoints[i] != -chebEvalPoints[(n - 1) - i]) {
       isOdd = false;
       break;
-- 
2.43.0


From 1e151f9877a2058c2afc46c9c795b17cf4350b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:07 +0000
Subject: [PATCH 10/71] fix: only the first entry of the coefficient envelope
 was normalized

---
 lib/Utils/Approximation/Chebyshev.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Utils/Approximation/Chebyshev.cpp b/lib/Utils/Approximation/Chebyshev.cpp
index d6c9329..f773e41 100644
--- a/lib/Utils/Approximation/Chebyshev.cpp
+++ b/lib/Utils/Approximation/Chebyshev.cpp
@@ -182,8 +182,9 @@ size_t standardChop(SmallVector<APFloat> coeffs, double tol) {
   if (envelope[0].isZero()) return 1;
 
   // Normalize the envelope.
+  APFloat envelopeMax = envelope[0];
   for (int i = 0; i < envelope.size(); ++i) {
-    envelope[i] = envelope[i] / envelope[0];
+    envelope[i] = envelope[i] / envelopeMax;
   }
 
   // Step 2: Scan ENVELOPE for a value PLATEAUPOINT, the first point J-1, if
-- 
2.43.0


From 4630adb5e03a389ebf58be0a04e7f4aa4eb60664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:44 +0000
Subject: [PATCH 11/71] fix: adding polynomials with interleaved exponents
 merged unequal monomials

---
 lib/Utils/Polynomial/Polynomial.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/lib/Utils/Polynomial/Polynomial.h b/lib/Utils/Polynomial/Polynomial.h
index 59ba009..653c099 100644
--- a/lib/Utils/Polynomial/Polynomial.h
+++ b/lib/Utils/Polynomial/Polynomial.h
@@ -200,19 +200,17 @@ class PolynomialBase {
         continue;
       }
 
-      while (it1->getExponent().ult(it2->getExponent())) {
+      if (it1->getExponent().ult(it2->getExponent())) {
         newTerms.emplace_back(*it1);
         it1++;
-        if (it1 == terms.end()) break;
+        continue;
       }
-      if (it1 == terms.end()) continue;
 
-      while (it2->getExponent().ult(it1->getExponent())) {
+      if (it2->getExponent().ult(it1->getExponent())) {
         newTerms.emplace_back(*it2);
         it2++;
-        if (it2 == other.terms.end()) break;
+        continue;
       }
-      if (it2 == other.terms.end()) continue;
 
       Monomial newTerm = it1->add(*it2);
       if (!newTerm.getCoefficient().isZero()) newTerms.push_back(newTerm);
-- 
2.43.0


From 1dac39b3b1a71629683415660d9002d700a2cd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:54 +0000
Subject: [PATCH 12/71] fix: collapse and expand dimensions of several groups
 and of all-unit groups

collapseDimensions eliminated variables of a later group after those of an
earlier one, so the indices it used were stale, and both functions dropped or
added one dimension too many for a group of unit dimensions only.
---
 lib/Utils/Layout/Utils.cpp | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/lib/Utils/Layout/Utils.cpp b/lib/Utils/Layout/Utils.cpp
index b05d686..a7a5686 100644
--- a/lib/Utils/Layout/Utils.cpp
+++ b/lib/Utils/Layout/Utils.cpp
@@ -672,14 +672,17 @@ presburger::IntegerRelation collapseDimensions(
     const presburger::IntegerRelation& relation, RankedTensorType sourceType,
     ArrayRef<ReassociationIndices> reassociation) {
   std::unique_ptr<IntegerRelation> clonedRelation = relation.clone();
-  for (const ReassociationIndices& associationGroup : reassociation) {
-    // a single-entry association group is a no-op
-    if (associationGroup.size() == 1) {
-      continue;
-    }
-    // Iterate starting from the largest index so that earlier deletion do not
-    // impact later indices
+  // Iterate starting from the largest index so that earlier deletion do not
+  // impact later indices
+  for (const ReassociationIndices& associationGroup :
+       llvm::reverse(reassociation)) {
+    // A group always yields one result dimension, so keep one dimension of a
+    // group that consists of unit dimensions only.
+    bool keepOne = llvm::all_of(associationGroup, [&](int64_t dim) {
+      return sourceType.getShape()[dim] == 1;
+    });
     for (int64_t reassocDim : llvm::reverse(associationGroup)) {
+      if (keepOne && reassocDim == associationGroup.front()) continue;
       if (sourceType.getShape()[reassocDim] == 1) {
         // Drop this unit dimension
         clonedRelation->setAndEliminate(reassocDim, 0);
@@ -719,8 +722,14 @@ presburger::IntegerRelation expandDimensions(
       continue;
     }
 
+    // The source has one dimension for each group, also for a group that
+    // consists of unit dimensions only.
+    bool keepOne = llvm::all_of(associationGroup, [&](int64_t dim) {
+      return resultType.getShape()[dim] == 1;
+    });
     for (int64_t reassocDim : associationGroup) {
-      if (resultType.getShape()[reassocDim] > 1) {
+      if (resultType.getShape()[reassocDim] > 1 ||
+          (keepOne && reassocDim == associationGroup.front())) {
         ++oldDim;
       } else {
         // A new dimension of size 1 is being added, so add a new domain
-- 
2.43.0


From 80cbec338fdc518cec10b9286218e39bc7638ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:12 +0000
Subject: [PATCH 13/71] fix: slice relations of slices that keep unit
 dimensions

The relations skipped every unit size as if it were dropped from the slice
type, which shifted the remaining dimensions when the slice type keeps it.
---
 lib/Utils/Layout/Utils.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/lib/Utils/Layout/Utils.cpp b/lib/Utils/Layout/Utils.cpp
index a7a5686..7b33d87 100644
--- a/lib/Utils/Layout/Utils.cpp
+++ b/lib/Utils/Layout/Utils.cpp
@@ -1154,6 +1154,10 @@ FailureOr<presburger::IntegerRelation> getSliceInsertionRelation(
     RankedTensorType sliceType, RankedTensorType resultType,
     SmallVector<int64_t> offsets, SmallVector<int64_t> sizes,
     SmallVector<int64_t> strides) {
+  std::optional<llvm::SmallDenseSet<unsigned>> droppedDims =
+      computeRankReductionMask(sizes, sliceType.getShape());
+  if (!droppedDims.has_value()) return failure();
+
   IntegerRelation result(PresburgerSpace::getRelationSpace(
       sliceType.getRank(), /*numRange=*/resultType.getRank(), /*numSymbol=*/0,
       /*numLocals=*/0));
@@ -1177,12 +1181,12 @@ FailureOr<presburger::IntegerRelation> getSliceInsertionRelation(
   }
 
   // Source tensor's dimensions (d0, d1, ...) are mapped sequentially to the
-  // destination tensor's dimensions (r0, r1, ...) for which the slice size is
-  // greater than 1.
+  // destination tensor's dimensions (r0, r1, ...) that the slice type does not
+  // drop.
   auto constOffset = result.getNumCols() - 1;
   unsigned int sourceDim = 0;
   for (auto destDim = 0; destDim < resultType.getRank(); ++destDim) {
-    if (sizes[destDim] > 1) {
+    if (!droppedDims->contains(destDim)) {
       // Map from the i-th source dimension
       // r_j = offsets[j] + d_i * strides[j]
       addConstraint(result,
@@ -1263,6 +1267,10 @@ FailureOr<presburger::IntegerRelation> getSliceExtractionRelation(
     RankedTensorType sourceType, RankedTensorType resultType,
     SmallVector<int64_t> offsets, SmallVector<int64_t> sizes,
     SmallVector<int64_t> strides) {
+  std::optional<llvm::SmallDenseSet<unsigned>> droppedDims =
+      computeRankReductionMask(sizes, resultType.getShape());
+  if (!droppedDims.has_value()) return failure();
+
   IntegerRelation result(PresburgerSpace::getRelationSpace(
       sourceType.getRank(), /*numRange=*/resultType.getRank(),
       /*numSymbol=*/0,
@@ -1281,12 +1289,12 @@ FailureOr<presburger::IntegerRelation> getSliceExtractionRelation(
   }
 
   // Destination tensor's dimensions (d0, d1, ...) are mapped sequentially
-  // from the source tensor's dimensions (r0, r1, ...) for which the slice
-  // size is greater than 1.
+  // from the source tensor's dimensions (r0, r1, ...) that the slice type does
+  // not drop.
   auto constOffset = result.getNumCols() - 1;
   unsigned int resultDim = 0;
   for (auto sourceDim = 0; sourceDim < sourceType.getRank(); ++sourceDim) {
-    if (sizes[sourceDim] > 1) {
+    if (!droppedDims->contains(sourceDim)) {
       // Map to the i-th result dimension
       // d_j = offsets[j] + r_i * strides[j]
       addConstraint(result,
-- 
2.43.0


From a03799e966e6d9bdafc777f15edcc0dda52fddbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:30 +0000
Subject: [PATCH 14/71] fix: do not forward a stored value past accesses that
 may touch the same element

---
 lib/Transforms/ForwardStoreToLoad/BUILD       |  1 +
 .../ForwardStoreToLoad/ForwardStoreToLoad.cpp | 39 +++++++++++++++++--
 2 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/lib/Transforms/ForwardStoreToLoad/BUILD b/lib/Transforms/ForwardStoreToLoad/BUILD
index 51a2309..4edc214 100644
--- a/lib/Transforms/ForwardStoreToLoad/BUILD
+++ b/lib/Transforms/ForwardStoreToLoad/BUILD
@@ -17,6 +17,7 @@ cc_library(
         "@llvm-project//llvm:Support",
         "@llvm-project//mlir:AffineDialect",
         "@llvm-project//mlir:AffineUtils",
+        "@llvm-project//mlir:DialectUtils",
         "@llvm-project//mlir:IR",
         "@llvm-project//mlir:MemRefDialect",
         "@llvm-project//mlir:Pass",
diff --git a/lib/Transforms/ForwardStoreToLoad/ForwardStoreToLoad.cpp b/lib/Transforms/ForwardStoreToLoad/ForwardStoreToLoad.cpp
index 7e2fa72..7288e51 100644
--- a/lib/Transforms/ForwardStoreToLoad/ForwardStoreToLoad.cpp
+++ b/lib/Transforms/ForwardStoreToLoad/ForwardStoreToLoad.cpp
@@ -1,17 +1,22 @@
 #include "lib/Transforms/ForwardStoreToLoad/ForwardStoreToLoad.h"
 
+#include <cstdint>
+#include <optional>
 #include <utility>
 
+#include "llvm/include/llvm/ADT/STLExtras.h"   // from @llvm-project
 #include "llvm/include/llvm/ADT/TypeSwitch.h"  // from @llvm-project
 #include "llvm/include/llvm/Support/Debug.h"   // from @llvm-project
 #include "mlir/include/mlir/Dialect/Affine/IR/AffineOps.h"  // from @llvm-project
 #include "mlir/include/mlir/Dialect/Affine/Utils.h"      // from @llvm-project
 #include "mlir/include/mlir/Dialect/MemRef/IR/MemRef.h"  // from @llvm-project
+#include "mlir/include/mlir/Dialect/Utils/StaticValueUtils.h"  // from @llvm-project
 #include "mlir/include/mlir/IR/MLIRContext.h"            // from @llvm-project
 #include "mlir/include/mlir/IR/PatternMatch.h"           // from @llvm-project
 #include "mlir/include/mlir/IR/Value.h"                  // from @llvm-project
 #include "mlir/include/mlir/IR/ValueRange.h"             // from @llvm-project
 #include "mlir/include/mlir/Support/LLVM.h"              // from @llvm-project
+#include "mlir/include/mlir/Interfaces/SideEffectInterfaces.h"  // from @llvm-project
 #include "mlir/include/mlir/Support/LogicalResult.h"     // from @llvm-project
 #include "mlir/include/mlir/Transforms/GreedyPatternRewriteDriver.h"  // from @llvm-project
 
@@ -69,6 +74,17 @@ class AffineLoadLowering : public OpRewritePattern<affine::AffineLoadOp> {
   }
 };
 
+/// Returns true unless the two index lists are known to address different
+/// elements of a memref.
+static bool mayBeSameElement(ValueRange lhs, ValueRange rhs) {
+  for (auto [l, r] : llvm::zip_equal(lhs, rhs)) {
+    std::optional<int64_t> lhsConst = getConstantIntValue(l);
+    std::optional<int64_t> rhsConst = getConstantIntValue(r);
+    if (lhsConst && rhsConst && *lhsConst != *rhsConst) return false;
+  }
+  return true;
+}
+
 bool ForwardSingleStoreToLoad::isForwardableOp(Operation* potentialStore,
                                                memref::LoadOp& loadOp) const {
   if (!dominanceInfo.properlyDominates(potentialStore, loadOp.getOperation())) {
@@ -106,11 +122,18 @@ bool ForwardSingleStoreToLoad::isForwardableOp(Operation* potentialStore,
           }
           if (auto op = dyn_cast<memref::StoreOp>(currentNode)) {
             if (op.getMemRef() == storeOp.getMemRef() &&
-                op.getIndices() == storeIndices) {
+                mayBeSameElement(op.getIndices(), storeIndices)) {
               LLVM_DEBUG(llvm::dbgs()
-                         << "an intermediate op stores to the same index\n");
+                         << "an intermediate op may store to the same index\n");
               return false;
             }
+          } else if (!isa<memref::LoadOp, affine::AffineLoadOp>(currentNode) &&
+                     !isMemoryEffectFree(currentNode) &&
+                     llvm::is_contained(currentNode->getOperands(),
+                                        storeOp.getMemRef())) {
+            LLVM_DEBUG(llvm::dbgs()
+                       << "an intermediate op may write to the memref\n");
+            return false;
           }
         }
 
@@ -199,11 +222,19 @@ bool RemoveUnusedStore::isPostDominated(Operation* potentialOp,
           }
           if (auto op = dyn_cast<memref::LoadOp>(currentNode)) {
             if (op.getMemRef() == storeOp.getMemRef() &&
-                op.getIndices() == storeIndices) {
+                mayBeSameElement(op.getIndices(), storeIndices)) {
               LLVM_DEBUG(llvm::dbgs()
-                         << "an intermediate op loads at the same index\n");
+                         << "an intermediate op may load at the same index\n");
               return false;
             }
+          } else if (!isa<memref::StoreOp, affine::AffineStoreOp>(
+                         currentNode) &&
+                     !isMemoryEffectFree(currentNode) &&
+                     llvm::is_contained(currentNode->getOperands(),
+                                        storeOp.getMemRef())) {
+            LLVM_DEBUG(llvm::dbgs()
+                       << "an intermediate op may read the memref\n");
+            return false;
           }
         }
 
-- 
2.43.0


From 3228fd009d7e3487b14e285d5403d70ca1ca050f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:31 +0000
Subject: [PATCH 15/71] fix: do not skip tensor insertions at indices that may
 equal the extracted one

---
 .../ForwardInsertToExtract.cpp                | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/lib/Transforms/ForwardInsertToExtract/ForwardInsertToExtract.cpp b/lib/Transforms/ForwardInsertToExtract/ForwardInsertToExtract.cpp
index fe33d5e..4853a02 100644
--- a/lib/Transforms/ForwardInsertToExtract/ForwardInsertToExtract.cpp
+++ b/lib/Transforms/ForwardInsertToExtract/ForwardInsertToExtract.cpp
@@ -1,9 +1,11 @@
 #include "lib/Transforms/ForwardInsertToExtract/ForwardInsertToExtract.h"
 
 #include <cstdint>
+#include <optional>
 #include <utility>
 
 #include "lib/Utils/TensorUtils.h"
+#include "llvm/include/llvm/ADT/STLExtras.h"             // from @llvm-project
 #include "llvm/include/llvm/ADT/SmallVectorExtras.h"     // from @llvm-project
 #include "llvm/include/llvm/ADT/TypeSwitch.h"            // from @llvm-project
 #include "llvm/include/llvm/Support/Casting.h"           // from @llvm-project
@@ -59,6 +61,24 @@ FailureOr<OpFoldResult> ForwardSingleInsertToExtract::getValueAtIndex(
               return getAsOpFoldResult(insertOp.getScalar());
             }
 
+            // The insertion can only be skipped if it is known to write a
+            // different element.
+            bool disjoint = false;
+            for (auto [insertIndex, index] :
+                 llvm::zip_equal(insertIndices, indices)) {
+              std::optional<int64_t> lhs = getConstantIntValue(insertIndex);
+              std::optional<int64_t> rhs = getConstantIntValue(index);
+              if (lhs && rhs && *lhs != *rhs) {
+                disjoint = true;
+                break;
+              }
+            }
+            if (!disjoint) {
+              LLVM_DEBUG(llvm::dbgs()
+                         << "insert op may write the extracted element\n");
+              return failure();
+            }
+
             LLVM_DEBUG(llvm::dbgs()
                        << "insert and extract op do not have matching "
                           "indices, continuing to defining op\n");
-- 
2.43.0


From 3342e9ad218264b0e6e92cdba16725b247b0c3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:31 +0000
Subject: [PATCH 16/71] fix: do not treat slices at unknown offsets as disjoint

---
 .../ForwardInsertSliceToExtractSlice.cpp             | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/Transforms/ForwardInsertSliceToExtractSlice/ForwardInsertSliceToExtractSlice.cpp b/lib/Transforms/ForwardInsertSliceToExtractSlice/ForwardInsertSliceToExtractSlice.cpp
index 9764772..69b8555 100644
--- a/lib/Transforms/ForwardInsertSliceToExtractSlice/ForwardInsertSliceToExtractSlice.cpp
+++ b/lib/Transforms/ForwardInsertSliceToExtractSlice/ForwardInsertSliceToExtractSlice.cpp
@@ -53,6 +53,18 @@ FailureOr<OpFoldResult> ForwardSingleInsertSliceToExtractSlice::getValueAtSlice(
                 insertOp.isSameAs(originalExtractOp, isSame))
               return getAsOpFoldResult(insertOp.getSource());
 
+            // The positions of slices with dynamic offsets, sizes or strides
+            // are not known, so they cannot be shown to be disjoint.
+            auto isDynamicSlice = [](OffsetSizeAndStrideOpInterface op) {
+              return ShapedType::isDynamicShape(op.getStaticOffsets()) ||
+                     ShapedType::isDynamicShape(op.getStaticSizes()) ||
+                     ShapedType::isDynamicShape(op.getStaticStrides());
+            };
+            if (isDynamicSlice(insertOp) || isDynamicSlice(originalExtractOp))
+              return rewriter.notifyMatchFailure(
+                  originalExtractOp,
+                  "dynamic slices that may overlap are not handled");
+
             // If it's exactly disjoint, return the insertion's destination and
             // continue.
             auto insertSliceType =
-- 
2.43.0


From a622a704125ce371bb172981d15d884a4ae685b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:31 +0000
Subject: [PATCH 17/71] fix: extract a loop body only if its last operation
 computes the stored value

---
 lib/Transforms/MemrefToArith/ExtractLoopBody.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Transforms/MemrefToArith/ExtractLoopBody.cpp b/lib/Transforms/MemrefToArith/ExtractLoopBody.cpp
index 1ae5203..6cabe92 100644
--- a/lib/Transforms/MemrefToArith/ExtractLoopBody.cpp
+++ b/lib/Transforms/MemrefToArith/ExtractLoopBody.cpp
@@ -144,7 +144,7 @@ void extractLoopBody(AffineForOp loop, unsigned int minimumLoopSize,
 
   auto result = results[0];
   auto finalOp = opsToCopy[opsToCopy.size() - 1];
-  if (finalOp->getNumResults() != 1 && finalOp->getResult(0) != result) {
+  if (finalOp->getNumResults() != 1 || finalOp->getResult(0) != result) {
     loop.emitWarning(
         "expected loop body to terminate with a single final store operation");
     return;
-- 
2.43.0


From 6c3ec3fdaf8bbe94f8796333d186d0cfeba9a316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:13 +0000
Subject: [PATCH 18/71] fix: use the error variance for the encryption error in
 the CanEmb noise models

The bound on a fresh public key encryption is, as the comment above it
states, D * sqrt(phi * (... + V_err)); the last term used the variance of
the secret key instead, which is smaller, so that the bound was too low.
---
 lib/Analysis/NoiseAnalysis/BFV/NoiseCanEmbModel.cpp | 2 +-
 lib/Analysis/NoiseAnalysis/BGV/NoiseCanEmbModel.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Analysis/NoiseAnalysis/BFV/NoiseCanEmbModel.cpp b/lib/Analysis/NoiseAnalysis/BFV/NoiseCanEmbModel.cpp
index 914b5b3..ea9fc08 100644
--- a/lib/Analysis/NoiseAnalysis/BFV/NoiseCanEmbModel.cpp
+++ b/lib/Analysis/NoiseAnalysis/BFV/NoiseCanEmbModel.cpp
@@ -97,7 +97,7 @@ typename Model::StateType Model::evalEncryptPk(
   // ||u * e + e_1 * s + e_0||
   // <= D * sqrt(phi(m) * (2 * phi(m) * V_err * V_key + V_err))
   double innerTerm =
-      phi * (2. * phi * varianceError * varianceKey + varianceKey);
+      phi * (2. * phi * varianceError * varianceKey + varianceError);
   double fresh = d * sqrt(innerTerm);
   return StateType::of(fresh);
 }
diff --git a/lib/Analysis/NoiseAnalysis/BGV/NoiseCanEmbModel.cpp b/lib/Analysis/NoiseAnalysis/BGV/NoiseCanEmbModel.cpp
index 38cbc33..391fdfc 100644
--- a/lib/Analysis/NoiseAnalysis/BGV/NoiseCanEmbModel.cpp
+++ b/lib/Analysis/NoiseAnalysis/BGV/NoiseCanEmbModel.cpp
@@ -107,7 +107,7 @@ typename Model::StateType Model::evalEncryptPk(
   // ||m + t * (u * e + e_1 * s + e_0)||
   // <= D * t * sqrt(phi(m) * (1/12 + 2 * phi(m) * V_err * V_key + V_err))
   double innerTerm =
-      phi * (1. / 12. + 2. * phi * varianceError * varianceKey + varianceKey);
+      phi * (1. / 12. + 2. * phi * varianceError * varianceKey + varianceError);
   double fresh = d * t * sqrt(innerTerm);
   return StateType::of(fresh);
 }
-- 
2.43.0


From 7f528f1b5b207371fe6edc7c4e0627e7b9c9deb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:13 +0000
Subject: [PATCH 19/71] fix: subtract the plaintext modulus from the BFV CanEmb
 noise budget

A BFV ciphertext decrypts while its noise is below Q / (2t), which the two
other BFV models and the parameter generation use; this model used Q / 2.
---
 lib/Analysis/NoiseAnalysis/BFV/NoiseCanEmbModel.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Analysis/NoiseAnalysis/BFV/NoiseCanEmbModel.cpp b/lib/Analysis/NoiseAnalysis/BFV/NoiseCanEmbModel.cpp
index ea9fc08..424abe8 100644
--- a/lib/Analysis/NoiseAnalysis/BFV/NoiseCanEmbModel.cpp
+++ b/lib/Analysis/NoiseAnalysis/BFV/NoiseCanEmbModel.cpp
@@ -42,7 +42,8 @@ double Model::toLogTotal(const LocalParamType& param) const {
   for (auto i = 0; i <= param.getCurrentLevel(); ++i) {
     total += logqi[i];
   }
-  return total - 1.0;
+  double logT = log2(param.getSchemeParam()->getPlaintextModulus());
+  return total - logT - 1.0;
 }
 
 double Model::getVarianceErr(const LocalParamType& param) const {
-- 
2.43.0


From 615598aaf2c55414da71e2d45fbe1597aa12e02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:56 +0000
Subject: [PATCH 20/71] fix: compute the square of the plaintext modulus in
 floating point in noise models

t * t overflowed int64_t for a plaintext modulus of 32 bits or more, which
HEIR itself picks (4295294977), and N * t for one close to 64 bits.
---
 .../NoiseAnalysis/BFV/NoiseByVarianceCoeffModel.cpp       | 4 ++--
 lib/Analysis/NoiseAnalysis/BGV/NoiseByBoundCoeffModel.cpp | 2 +-
 .../NoiseAnalysis/BGV/NoiseByVarianceCoeffModel.cpp       | 8 ++++----
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/lib/Analysis/NoiseAnalysis/BFV/NoiseByVarianceCoeffModel.cpp b/lib/Analysis/NoiseAnalysis/BFV/NoiseByVarianceCoeffModel.cpp
index ba6f1ec..b24ab0a 100644
--- a/lib/Analysis/NoiseAnalysis/BFV/NoiseByVarianceCoeffModel.cpp
+++ b/lib/Analysis/NoiseAnalysis/BFV/NoiseByVarianceCoeffModel.cpp
@@ -142,7 +142,7 @@ NoiseByVarianceCoeffModel::evalMul(const LocalParamType& resultParam,
   auto v1 = rhs;
   auto d1 = rhs.getDegree();
   auto newDegree = std::max(d0, d1);
-  auto t = resultParam.getSchemeParam()->getPlaintextModulus();
+  double t = resultParam.getSchemeParam()->getPlaintextModulus();
 
   auto logqi = resultParam.getSchemeParam()->getLogqi();
   auto logQ = std::accumulate(logqi.begin(), logqi.end(), 0.0);
@@ -213,7 +213,7 @@ NoiseByVarianceCoeffModel::evalRelinearizeHYBRID(
   auto varianceErr = getVarianceErr(inputParam);
   auto varianceKey = getVarianceKey(inputParam);
   auto ringDim = inputParam.getSchemeParam()->getRingDim();
-  auto t = inputParam.getSchemeParam()->getPlaintextModulus();
+  double t = inputParam.getSchemeParam()->getPlaintextModulus();
 
   auto level = inputParam.getSchemeParam()->getLevel();
   // modup from Q to QP, so one more digit
diff --git a/lib/Analysis/NoiseAnalysis/BGV/NoiseByBoundCoeffModel.cpp b/lib/Analysis/NoiseAnalysis/BGV/NoiseByBoundCoeffModel.cpp
index 80fa727..aecf56a 100644
--- a/lib/Analysis/NoiseAnalysis/BGV/NoiseByBoundCoeffModel.cpp
+++ b/lib/Analysis/NoiseAnalysis/BGV/NoiseByBoundCoeffModel.cpp
@@ -151,7 +151,7 @@ typename NoiseByBoundCoeffModel::StateType NoiseByBoundCoeffModel::evalAdd(
 typename NoiseByBoundCoeffModel::StateType NoiseByBoundCoeffModel::evalMul(
     const LocalParamType& resultParam, const StateType& lhs,
     const StateType& rhs) const {
-  auto t = resultParam.getSchemeParam()->getPlaintextModulus();
+  double t = resultParam.getSchemeParam()->getPlaintextModulus();
   auto expansionFactor = getExpansionFactor(resultParam);
   auto ringDim = resultParam.getSchemeParam()->getRingDim();
 
diff --git a/lib/Analysis/NoiseAnalysis/BGV/NoiseByVarianceCoeffModel.cpp b/lib/Analysis/NoiseAnalysis/BGV/NoiseByVarianceCoeffModel.cpp
index 617fef7..b51704f 100644
--- a/lib/Analysis/NoiseAnalysis/BGV/NoiseByVarianceCoeffModel.cpp
+++ b/lib/Analysis/NoiseAnalysis/BGV/NoiseByVarianceCoeffModel.cpp
@@ -66,7 +66,7 @@ typename Model::StateType Model::evalEncryptPk(
   auto varianceError = getVarianceErr(param);
   // uniform ternary
   auto varianceKey = getVarianceKey(param);
-  auto t = param.getSchemeParam()->getPlaintextModulus();
+  double t = param.getSchemeParam()->getPlaintextModulus();
   auto n = param.getSchemeParam()->getRingDim();
   // public key (-as + t * e, a)
   // public key encryption (-aus + t(u * e + e_0) + m, au + e_1)
@@ -80,7 +80,7 @@ typename Model::StateType Model::evalEncryptPk(
 
 typename Model::StateType Model::evalEncryptSk(
     const LocalParamType& param) const {
-  auto t = param.getSchemeParam()->getPlaintextModulus();
+  double t = param.getSchemeParam()->getPlaintextModulus();
   auto varianceError = getVarianceErr(param);
 
   // secret key s
@@ -110,7 +110,7 @@ typename Model::StateType Model::evalEncrypt(
 
 typename Model::StateType Model::evalConstant(
     const LocalParamType& param) const {
-  auto t = param.getSchemeParam()->getPlaintextModulus();
+  double t = param.getSchemeParam()->getPlaintextModulus();
   // constant is v = m + t * 0
   // assume m is uniform from [-t/2, t/2]
   // var_constant = t * t / 12
@@ -182,7 +182,7 @@ typename Model::StateType Model::evalRelinearizeHYBRID(
   auto varianceErr = getVarianceErr(inputParam);
   auto varianceKey = getVarianceKey(inputParam);
   auto ringDim = inputParam.getSchemeParam()->getRingDim();
-  auto t = inputParam.getSchemeParam()->getPlaintextModulus();
+  double t = inputParam.getSchemeParam()->getPlaintextModulus();
 
   auto currentLevel = inputParam.getCurrentLevel();
   // modup from Ql to QlP, so one more digit
-- 
2.43.0


From c19bc66f80344768c07908f21f063ddbc690176d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:56 +0000
Subject: [PATCH 21/71] fix: number of levels in generated CKKS scheme
 parameters

The level of a RLWESchemeParam is the index of the last modulus, so that
logqi.size() == level + 1; the chain has numScaleMod + 1 moduli.
---
 lib/Parameters/CKKS/Params.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Parameters/CKKS/Params.cpp b/lib/Parameters/CKKS/Params.cpp
index 981513b..5ac609a 100644
--- a/lib/Parameters/CKKS/Params.cpp
+++ b/lib/Parameters/CKKS/Params.cpp
@@ -229,7 +229,7 @@ SchemeParam SchemeParam::getConcreteSchemeParam(
   }
 
   return SchemeParam(
-      RLWESchemeParam(ringDim, numScaleMod + 1, logqi, qiImpl, dnum, logpi,
+      RLWESchemeParam(ringDim, numScaleMod, logqi, qiImpl, dnum, logpi,
                       piImpl, usePublicKey, encryptionTechniqueExtended),
       logDefaultScale);
 }
-- 
2.43.0


From d20c6665a9224cc7a4a7505abd3a0dbd96601a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:32 +0000
Subject: [PATCH 22/71] fix: don't rerun the secretness analysis on states of
 erased IR when rewriting to data-oblivious form

---
 .../ConvertIfToSelect/ConvertIfToSelect.cpp       |  1 +
 .../ConvertSecretExtractToStaticExtract.cpp       | 15 ++++++++++++---
 .../ConvertSecretInsertToStaticInsert.cpp         | 13 ++++++++++++-
 3 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/lib/Transforms/ConvertIfToSelect/ConvertIfToSelect.cpp b/lib/Transforms/ConvertIfToSelect/ConvertIfToSelect.cpp
index 2c77fea..52baec8 100644
--- a/lib/Transforms/ConvertIfToSelect/ConvertIfToSelect.cpp
+++ b/lib/Transforms/ConvertIfToSelect/ConvertIfToSelect.cpp
@@ -93,6 +93,7 @@ struct IfToSelectConversion : OpRewritePattern<scf::IfOp> {
 
     // re-run the analysis propagate secretness across
     // newly created Values
+    solver->eraseAllStates();
     return solver->initializeAndRun(top);
   }
 
diff --git a/lib/Transforms/ConvertSecretExtractToStaticExtract/ConvertSecretExtractToStaticExtract.cpp b/lib/Transforms/ConvertSecretExtractToStaticExtract/ConvertSecretExtractToStaticExtract.cpp
index 30edd66..987f527 100644
--- a/lib/Transforms/ConvertSecretExtractToStaticExtract/ConvertSecretExtractToStaticExtract.cpp
+++ b/lib/Transforms/ConvertSecretExtractToStaticExtract/ConvertSecretExtractToStaticExtract.cpp
@@ -14,6 +14,7 @@
 #include "mlir/include/mlir/IR/Diagnostics.h"            // from @llvm-project
 #include "mlir/include/mlir/IR/ImplicitLocOpBuilder.h"   // from @llvm-project
 #include "mlir/include/mlir/IR/MLIRContext.h"            // from @llvm-project
+#include "mlir/include/mlir/IR/Matchers.h"               // from @llvm-project
 #include "mlir/include/mlir/IR/Operation.h"              // from @llvm-project
 #include "mlir/include/mlir/IR/PatternMatch.h"           // from @llvm-project
 #include "mlir/include/mlir/IR/Value.h"                  // from @llvm-project
@@ -48,6 +49,10 @@ struct SecretExtractToStaticExtractConversion
 
     auto index = extractOp.getIndices().front();
 
+    // Constants are public, including those materialized by folding after the
+    // analysis ran
+    if (matchPattern(index, m_Constant())) return failure();
+
     auto* indexSecretnessLattice =
         solver->lookupState<SecretnessLattice>(index);
 
@@ -139,9 +144,10 @@ struct SecretExtractToStaticExtractConversion
     // Replace the old tensor.insert op with forOp's result
     rewriter.replaceOp(extractOp, forOp);
 
-    // re-run the analysis propagate secretness across
-    // newly created Values
-    return solver->initializeAndRun(top);
+    // The secretness of all newly created values has been set above. The
+    // analysis can't be re-run, as the solver still holds states for the IR that
+    // has been erased.
+    return success();
   }
 
  private:
@@ -151,6 +157,9 @@ struct SecretExtractToStaticExtractConversion
 
   static inline void setValueToSecretness(DataFlowSolver* solver, Value value,
                                           Secretness secretness) {
+    // The value may live at the address of one that has been erased since the
+    // analysis ran: drop whatever is still recorded for that one.
+    solver->eraseState(value);
     auto* lattice = solver->getOrCreateState<SecretnessLattice>(value);
     // solver->propagateIfChanged is bogus
     (void)lattice->join(secretness);
diff --git a/lib/Transforms/ConvertSecretInsertToStaticInsert/ConvertSecretInsertToStaticInsert.cpp b/lib/Transforms/ConvertSecretInsertToStaticInsert/ConvertSecretInsertToStaticInsert.cpp
index 8ede6ee..074f7b6 100644
--- a/lib/Transforms/ConvertSecretInsertToStaticInsert/ConvertSecretInsertToStaticInsert.cpp
+++ b/lib/Transforms/ConvertSecretInsertToStaticInsert/ConvertSecretInsertToStaticInsert.cpp
@@ -14,6 +14,7 @@
 #include "mlir/include/mlir/IR/Diagnostics.h"            // from @llvm-project
 #include "mlir/include/mlir/IR/ImplicitLocOpBuilder.h"   // from @llvm-project
 #include "mlir/include/mlir/IR/MLIRContext.h"            // from @llvm-project
+#include "mlir/include/mlir/IR/Matchers.h"               // from @llvm-project
 #include "mlir/include/mlir/IR/Operation.h"              // from @llvm-project
 #include "mlir/include/mlir/IR/PatternMatch.h"           // from @llvm-project
 #include "mlir/include/mlir/IR/Value.h"                  // from @llvm-project
@@ -48,6 +49,10 @@ struct SecretInsertToStaticInsertConversion
     auto tensor = insertOp.getDest();
     auto insertedValue = insertOp.getScalar();
 
+    // Constants are public, including those materialized by folding after the
+    // analysis ran
+    if (matchPattern(index, m_Constant())) return failure();
+
     auto* indexSecretnessLattice =
         solver->lookupState<SecretnessLattice>(index);
 
@@ -126,7 +131,10 @@ struct SecretInsertToStaticInsertConversion
     // Replace the old tensor.insert op with forOp's result
     rewriter.replaceOp(insertOp, forOp);
 
-    return solver->initializeAndRun(top);
+    // The secretness of all newly created values has been set above. The
+    // analysis can't be re-run, as the solver still holds states for the IR that
+    // has been erased.
+    return success();
   }
 
  private:
@@ -136,6 +144,9 @@ struct SecretInsertToStaticInsertConversion
 
   static inline void setValueToSecretness(DataFlowSolver* solver, Value value,
                                           Secretness secretness) {
+    // The value may live at the address of one that has been erased since the
+    // analysis ran: drop whatever is still recorded for that one.
+    solver->eraseState(value);
     auto* lattice = solver->getOrCreateState<SecretnessLattice>(value);
     // solver->propagateIfChanged is bogus
     (void)lattice->join(secretness);
-- 
2.43.0


From 33bb1c9ca62cd9f118dcf169be3f84a564b6aec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:32 +0000
Subject: [PATCH 23/71] fix: recognise scf.while loops whose condition passes
 on other values than the region's arguments

---
 .../ConvertSecretWhileToStaticFor.cpp         | 26 ++++++-------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/lib/Transforms/ConvertSecretWhileToStaticFor/ConvertSecretWhileToStaticFor.cpp b/lib/Transforms/ConvertSecretWhileToStaticFor/ConvertSecretWhileToStaticFor.cpp
index 4d22b79..bea0493 100644
--- a/lib/Transforms/ConvertSecretWhileToStaticFor/ConvertSecretWhileToStaticFor.cpp
+++ b/lib/Transforms/ConvertSecretWhileToStaticFor/ConvertSecretWhileToStaticFor.cpp
@@ -39,28 +39,18 @@ struct SecretWhileToStaticForConversion : OpRewritePattern<scf::WhileOp> {
     auto conditionOp = whileOp.getConditionOp();
     auto whileCondition = conditionOp->getOperand(0);
 
-    auto* beforeRegionArgs = whileOp.getBefore().front().getArguments().data();
-
     auto conditionOpArgs =
         // Get Loop variables: includes all arguments without the condition
         conditionOp->getOperands().drop_front(1);
 
-    int counter = 0;
-    for (auto arg : conditionOpArgs) {
-      // Check if the defining operation of the loop variable passed in
-      // scf.condition is the same as the operation defining the block argument
-      // passed by scf.while. A true value implies that the loop variable is the
-      // same as the block argument, i.e., the original block argument passed by
-      // scf.while has not been changed.
-      bool isEqual =
-          arg.getDefiningOp() == beforeRegionArgs[counter].getDefiningOp();
-      if (!isEqual) {
-        InFlightDiagnostic diag =
-            whileOp.emitWarning()
-            << "Current loop transformation has no support for do-while loops:";
-        return failure();
-      }
-      counter++;
+    // Check if the loop variables passed in scf.condition are the block
+    // arguments of the "before" region, in the same order, i.e., the original
+    // block arguments passed by scf.while have not been changed.
+    if (!llvm::equal(conditionOpArgs, whileOp.getBeforeArguments())) {
+      InFlightDiagnostic diag =
+          whileOp.emitWarning()
+          << "Current loop transformation has no support for do-while loops:";
+      return failure();
     }
 
     auto* conditionSecretnessLattice =
-- 
2.43.0


From 06f4259253d9bf63b3da35e825ea0f34e9c3fd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:32 +0000
Subject: [PATCH 24/71] fix: keep the iterations of a secret scf.for with a
 step when its lower bound is secret

---
 .../ConvertSecretForToStaticFor.cpp            | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/lib/Transforms/ConvertSecretForToStaticFor/ConvertSecretForToStaticFor.cpp b/lib/Transforms/ConvertSecretForToStaticFor/ConvertSecretForToStaticFor.cpp
index e9483ea..234635c 100644
--- a/lib/Transforms/ConvertSecretForToStaticFor/ConvertSecretForToStaticFor.cpp
+++ b/lib/Transforms/ConvertSecretForToStaticFor/ConvertSecretForToStaticFor.cpp
@@ -113,10 +113,15 @@ struct SecretForToStaticForConversion : OpRewritePattern<scf::ForOp> {
       }
     }
 
+    // The iterations of a loop with a secret lower bound are `step` apart,
+    // starting at that bound: every index must be visited to meet all of them.
+    int64_t step = forOp.getConstantStep()->getLimitedValue();
+    bool skipIndices = isLowerBoundSecret && step > 1;
+
     auto newForOp = affine::AffineForOp::create(
         builder, ValueRange(newLowerBound), builder.getSymbolIdentityMap(),
         ValueRange(newUpperBound), builder.getSymbolIdentityMap(),
-        forOp.getConstantStep()->getLimitedValue(), forOp.getInitArgs());
+        skipIndices ? 1 : step, forOp.getInitArgs());
 
     newForOp->setAttrs(forOp->getAttrs());
 
@@ -176,6 +181,17 @@ struct SecretForToStaticForConversion : OpRewritePattern<scf::ForOp> {
     auto cond = isLowerBoundSecret ? isUpperBoundSecret ? andI.getResult()
                                                         : cmpILower.getResult()
                                    : cmpIUpper.getResult();
+    if (skipIndices) {
+      // Only iterate if (iv - oldLowerBound) is a multiple of the step
+      auto offset =
+          arith::SubIOp::create(builder, inductionVariable, lowerBound);
+      auto remainder = arith::RemUIOp::create(
+          builder, offset, arith::ConstantIndexOp::create(builder, step));
+      auto aligned =
+          arith::CmpIOp::create(builder, arith::CmpIPredicate::eq, remainder,
+                                arith::ConstantIndexOp::create(builder, 0));
+      cond = arith::AndIOp::create(builder, cond, aligned);
+    }
     scf::IfOp ifOp = scf::IfOp::create(
         builder, cond,
         // 'Then' region
-- 
2.43.0


From 711dda5119ba1c8fc9e51ee515e33d7eebab8e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:47 +0000
Subject: [PATCH 25/71] fix: do not add rotation shifts of different types

---
 .../TensorExt/IR/TensorExtCanonicalization.td   | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/lib/Dialect/TensorExt/IR/TensorExtCanonicalization.td b/lib/Dialect/TensorExt/IR/TensorExtCanonicalization.td
index 7cd5c8d..c4f1ff4 100644
--- a/lib/Dialect/TensorExt/IR/TensorExtCanonicalization.td
+++ b/lib/Dialect/TensorExt/IR/TensorExtCanonicalization.td
@@ -29,6 +29,9 @@ def DenseElementsAttrIsSplatPred
 def SplatElementsAttr : ElementsAttrBase<DenseElementsAttrIsSplatPred,
   "splat tensor attr">;
 
+// Two shift amounts can only be added if they have the same type.
+def HasSameType : Constraint<CPred<"$0.getType() == $1.getType()">>;
+
 // rotate dense<x>, %t -> dense<x>
 def RotateDenseConstant : Pat<
   (TensorExt_RotateOp
@@ -70,7 +73,7 @@ def CombineSequentialRotates : Pat<
     (TensorExt_RotateOp $tensor, (Arith_ConstantOp:$xOp APIntAttr:$x)),
     (Arith_ConstantOp:$yOp APIntAttr:$y)),
   (TensorExt_RotateOp $tensor, (Arith_AddIOp $xOp, $yOp, DefOverflow)),
-  []
+  [(HasSameType $xOp, $yOp)]
 >;
 
 // A rotation followed by extraction can be extracted directly from the
@@ -117,7 +120,7 @@ foreach ArithOp = [Arith_AddIOp, Arith_SubIOp, Arith_MulIOp] in {
       (TensorExt_RotateOp $t1, (Arith_AddIOp $s3, $s1, DefOverflow)),
       (TensorExt_RotateOp $t2, (Arith_AddIOp $s3, $s2, DefOverflow)),
       $ovf),
-    [], [], (addBenefit 2)
+    [(HasSameType $s1, $s3), (HasSameType $s2, $s3)], [], (addBenefit 2)
   >;
 
   // These two patterns don't eliminate any rotations, but they move rotations
@@ -162,7 +165,7 @@ foreach ArithOp = [Arith_AddIOp, Arith_SubIOp, Arith_MulIOp] in {
     //
     // But the original addi cannot be removed, and so the rotation it depends
     // on also cannot be removed.
-    [(HasOneUse:$arithOp)]
+    [(HasOneUse:$arithOp), (HasSameType $s1, $s2)]
   >;
   def MergeEquivalentRotationsEarlierRHS_#ArithOp : Pat<
     (TensorExt_RotateOp
@@ -175,7 +178,7 @@ foreach ArithOp = [Arith_AddIOp, Arith_SubIOp, Arith_MulIOp] in {
       (TensorExt_RotateOp $t2, $s2),
       (TensorExt_RotateOp $t1, (Arith_AddIOp $s2, $s1, DefOverflow)),
       $ovf),
-    [(HasOneUse:$arithOp)]
+    [(HasOneUse:$arithOp), (HasSameType $s1, $s2)]
   >;
 }
 
@@ -200,7 +203,7 @@ foreach ArithOp = [Arith_AddFOp, Arith_SubFOp, Arith_MulFOp] in {
       (TensorExt_RotateOp $t1, (Arith_AddIOp $s3, $s1, DefOverflow)),
       (TensorExt_RotateOp $t2, (Arith_AddIOp $s3, $s2, DefOverflow)),
       $fm, $rm),
-    [], [], (addBenefit 2)
+    [(HasSameType $s1, $s3), (HasSameType $s2, $s3)], [], (addBenefit 2)
   >;
 
   def MergeEquivalentRotationsEarlierLHS_#ArithOp : Pat<
@@ -214,7 +217,7 @@ foreach ArithOp = [Arith_AddFOp, Arith_SubFOp, Arith_MulFOp] in {
       (TensorExt_RotateOp $t1, (Arith_AddIOp $s2, $s1, DefOverflow)),
       (TensorExt_RotateOp $t2, $s2),
       $fm, $rm),
-    [(HasOneUse:$arithOp)]
+    [(HasOneUse:$arithOp), (HasSameType $s1, $s2)]
   >;
 
   def MergeEquivalentRotationsEarlierRHS_#ArithOp : Pat<
@@ -228,7 +231,7 @@ foreach ArithOp = [Arith_AddFOp, Arith_SubFOp, Arith_MulFOp] in {
       (TensorExt_RotateOp $t1, $s2),
       (TensorExt_RotateOp $t2, (Arith_AddIOp $s2, $s1, DefOverflow)),
       $fm, $rm),
-    [(HasOneUse:$arithOp)]
+    [(HasOneUse:$arithOp), (HasSameType $s1, $s2)]
   >;
 }
 
-- 
2.43.0


From 4d0149c2cfa127c7348547ee83206f8a398b2740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:00 +0000
Subject: [PATCH 26/71] fix: rotate constant tensors by any negative shift and
 row by row

---
 lib/Dialect/TensorExt/IR/TensorExtOps.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/lib/Dialect/TensorExt/IR/TensorExtOps.cpp b/lib/Dialect/TensorExt/IR/TensorExtOps.cpp
index b9b6f33..35f5c3e 100644
--- a/lib/Dialect/TensorExt/IR/TensorExtOps.cpp
+++ b/lib/Dialect/TensorExt/IR/TensorExtOps.cpp
@@ -36,13 +36,16 @@ namespace tensor_ext {
 // populateWithGenerated, which can conflict with other generated patterns.
 #include "lib/Dialect/TensorExt/IR/TensorExtCanonicalization.cpp.inc"
 
+// Rotates each row of `rowSize` elements.
 template <typename T>
-static SmallVector<T> rotateAttrValues(SmallVector<T> elts, int64_t shift) {
+static SmallVector<T> rotateAttrValues(SmallVector<T> elts, int64_t shift,
+                                       int64_t rowSize) {
   SmallVector<T> newElts;
   newElts.reserve(elts.size());
-  for (int i = 0; i < elts.size(); ++i) {
-    int64_t source = (i + shift + elts.size()) % elts.size();
-    newElts.push_back(elts[source]);
+  shift = (shift % rowSize + rowSize) % rowSize;
+  for (int64_t i = 0; i < static_cast<int64_t>(elts.size()); ++i) {
+    int64_t row = i / rowSize;
+    newElts.push_back(elts[row * rowSize + (i % rowSize + shift) % rowSize]);
   }
   return newElts;
 }
@@ -66,13 +69,15 @@ struct FoldRotateOfConst : public OpRewritePattern<tensor_ext::RotateOp> {
           op, "requires constant shift OpFoldResult");
     int64_t shift = cast<IntegerAttr>(shiftConst).getInt();
 
+    int64_t rowSize = op.getTensor().getType().getShape().back();
+
     arith::ConstantOp newOp;
 
     DenseIntElementsAttr denseIntAttr =
         dyn_cast<DenseIntElementsAttr>(constantOp.getValueAttr());
     if (denseIntAttr) {
       SmallVector<APInt> elts(denseIntAttr.getValues<APInt>());
-      SmallVector<APInt> newElts = rotateAttrValues<APInt>(elts, shift);
+      SmallVector<APInt> newElts = rotateAttrValues<APInt>(elts, shift, rowSize);
       DenseIntElementsAttr newAttr =
           DenseIntElementsAttr::get(denseIntAttr.getType(), newElts);
       newOp = arith::ConstantOp::create(
@@ -83,7 +88,7 @@ struct FoldRotateOfConst : public OpRewritePattern<tensor_ext::RotateOp> {
         dyn_cast<DenseFPElementsAttr>(constantOp.getValueAttr());
     if (denseFloatAttr) {
       SmallVector<APFloat> elts(denseFloatAttr.getValues<APFloat>());
-      SmallVector<APFloat> newElts = rotateAttrValues<APFloat>(elts, shift);
+      SmallVector<APFloat> newElts = rotateAttrValues<APFloat>(elts, shift, rowSize);
       DenseFPElementsAttr newAttr =
           DenseFPElementsAttr::get(denseFloatAttr.getType(), newElts);
       newOp = arith::ConstantOp::create(
-- 
2.43.0


From 1df3c202c012d452f3738a81e94a5d70d5242b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:00 +0000
Subject: [PATCH 27/71] fix: wrap constant rotation shifts and the index of an
 extraction from a rotated tensor

---
 .../TensorExt/IR/TensorExtCanonicalization.td | 68 +++++++++++++++----
 lib/Dialect/TensorExt/IR/TensorExtOps.cpp     |  1 +
 .../TensorExt/Transforms/InsertRotate.cpp     |  1 +
 3 files changed, 55 insertions(+), 15 deletions(-)

diff --git a/lib/Dialect/TensorExt/IR/TensorExtCanonicalization.td b/lib/Dialect/TensorExt/IR/TensorExtCanonicalization.td
index c4f1ff4..61f22a9 100644
--- a/lib/Dialect/TensorExt/IR/TensorExtCanonicalization.td
+++ b/lib/Dialect/TensorExt/IR/TensorExtCanonicalization.td
@@ -46,21 +46,20 @@ def DropZeroRotation : Pat<
   [(IsZeroIntAttr $c0)]
 >;
 
-// Currently commented out because it doesn't work for multi-dimensional tensors.
-// Will be uncommented and fixed by Asra's PR. Commenting this out causes various
-// other tests to fail.
+// The constant shift $0 modulo the length of the one dimensional tensor $1, as a
+// constant of the same type.
+def NormalizedShift : NativeCodeCall<
+  "arith::ConstantOp::create($_builder, $_loc, $_builder.getIntegerAttr("
+  "llvm::cast<mlir::IntegerAttr>($0).getType(), "
+  "llvm::mod(llvm::cast<mlir::IntegerAttr>($0).getValue().getSExtValue(), "
+  "llvm::cast<mlir::ShapedType>($1.getType()).getDimSize(0))))">;
+
 // rotate %t, x -> rotate %t, x mod size
+// Only works for 1D tensors: index is taken modulo the tensor length, i.e.,
+// dim 0
 def NormalizeRotationIndex : Pat<
-  (TensorExt_RotateOp $tensor, (Arith_ConstantOp:$shiftOp APIntAttr:$shiftAmount)),
-  (TensorExt_RotateOp $tensor,
-      (Arith_RemUIOp
-        $shiftOp,
-        // Only works for 1D tensors: index is taken modulo the tensor length,
-        // i.e., dim 0
-        (CreateIndexCastOp
-          (Tensor_DimOp $tensor, (Arith_ConstantOp ConstantAttr<IndexAttr, "0">)),
-          $shiftOp))
-      ),
+  (TensorExt_RotateOp $tensor, (Arith_ConstantOp APIntAttr:$shiftAmount)),
+  (TensorExt_RotateOp $tensor, (NormalizedShift $shiftAmount, $tensor)),
   [(OutOfBoundsOfTensorDim $shiftAmount, $tensor),
    (IsOneDimTensor $tensor)]
 >;
@@ -76,15 +75,54 @@ def CombineSequentialRotates : Pat<
   [(HasSameType $xOp, $yOp)]
 >;
 
+// The constant shift $0 modulo the length of the one dimensional tensor $1, as
+// an index.
+def NormalizedShiftIndex : NativeCodeCall<
+  "arith::ConstantIndexOp::create($_builder, $_loc, "
+  "llvm::mod(llvm::cast<mlir::IntegerAttr>($0).getValue().getSExtValue(), "
+  "llvm::cast<mlir::ShapedType>($1.getType()).getDimSize(0)))">;
+
+// The length of the one dimensional tensor $0.
+def OneDimLength : NativeCodeCall<
+  "arith::ConstantIndexOp::create($_builder, $_loc, "
+  "llvm::cast<mlir::ShapedType>($0.getType()).getDimSize(0))">;
+
+// The sum of the constant shift $0 and the index $1 is a valid index of the one
+// dimensional tensor $2.
+def IsShiftedIndexInBounds : Constraint<
+  CPred<
+    "$0.getType().isIndex() && getConstantIntValue($1) && "
+    "*getConstantIntValue($0) + *getConstantIntValue($1) >= 0 && "
+    "*getConstantIntValue($0) + *getConstantIntValue($1) < "
+    "llvm::cast<mlir::ShapedType>($2.getType()).getDimSize(0)"
+  >
+>;
+
 // A rotation followed by extraction can be extracted directly from the
 // original tensor.
 def RotatePlusExtractToIndexedExtract : Pat<
   (Tensor_ExtractOp
-    (TensorExt_RotateOp $tensor, $shift),
+    (TensorExt_RotateOp $tensor, (Arith_ConstantOp:$shift APIntAttr:$shiftAmount)),
     (variadic $index)),
   (Tensor_ExtractOp
     $tensor,
-    (MakeSingleResultVariadic (Arith_AddIOp $shift, $index, DefOverflow)))
+    (MakeSingleResultVariadic (Arith_AddIOp $shift, $index, DefOverflow))),
+  [(IsOneDimTensor $tensor), (IsShiftedIndexInBounds $shift, $index, $tensor)],
+  [], (addBenefit 1)
+>;
+
+// The same if the shifted index may be out of bounds: it wraps around.
+def RotatePlusExtractToWrappedExtract : Pat<
+  (Tensor_ExtractOp
+    (TensorExt_RotateOp $tensor, (Arith_ConstantOp APIntAttr:$shift)),
+    (variadic $index)),
+  (Tensor_ExtractOp
+    $tensor,
+    (MakeSingleResultVariadic
+      (Arith_RemUIOp
+        (Arith_AddIOp (NormalizedShiftIndex $shift, $tensor), $index, DefOverflow),
+        (OneDimLength $tensor)))),
+  [(IsOneDimTensor $tensor)]
 >;
 
 foreach ArithOp = [Arith_AddIOp, Arith_SubIOp, Arith_MulIOp] in {
diff --git a/lib/Dialect/TensorExt/IR/TensorExtOps.cpp b/lib/Dialect/TensorExt/IR/TensorExtOps.cpp
index 35f5c3e..043219f 100644
--- a/lib/Dialect/TensorExt/IR/TensorExtOps.cpp
+++ b/lib/Dialect/TensorExt/IR/TensorExtOps.cpp
@@ -6,6 +6,7 @@
 #include "lib/Dialect/TensorExt/IR/TensorExtAttributes.h"
 #include "lib/Utils/RotationUtils.h"
 #include "llvm/include/llvm/ADT/STLExtras.h"  // from @llvm-project
+#include "llvm/include/llvm/Support/MathExtras.h"  // from @llvm-project
 #include "mlir/include/mlir/Analysis/Presburger/IntegerRelation.h"  // from @llvm-project
 #include "mlir/include/mlir/Analysis/Presburger/PresburgerSpace.h"  // from @llvm-project
 #include "mlir/include/mlir/Dialect/Utils/StaticValueUtils.h"  // from @llvm-project
diff --git a/lib/Dialect/TensorExt/Transforms/InsertRotate.cpp b/lib/Dialect/TensorExt/Transforms/InsertRotate.cpp
index 38dc60a..8d66652 100644
--- a/lib/Dialect/TensorExt/Transforms/InsertRotate.cpp
+++ b/lib/Dialect/TensorExt/Transforms/InsertRotate.cpp
@@ -3,6 +3,7 @@
 #include <utility>
 
 #include "lib/Analysis/TargetSlotAnalysis/TargetSlotAnalysis.h"
+#include "llvm/include/llvm/Support/MathExtras.h"           // from @llvm-project
 #include "mlir/include/mlir/Analysis/DataFlow/Utils.h"     // from @llvm-project
 #include "mlir/include/mlir/Analysis/DataFlowFramework.h"  // from @llvm-project
 #include "mlir/include/mlir/IR/Builders.h"                 // from @llvm-project
-- 
2.43.0


From 72fd5fd3964dc2443a0c6810d6e4036256d6e2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:00 +0000
Subject: [PATCH 28/71] fix: insert and align rotations only for tensors and
 shifts of the same type

---
 .../TensorExt/IR/TensorExtCanonicalization.td |  3 --
 .../TensorExt/Transforms/InsertRotate.td      | 30 ++++++++++++-------
 lib/Utils/DRR/Utils.td                        |  3 ++
 3 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/lib/Dialect/TensorExt/IR/TensorExtCanonicalization.td b/lib/Dialect/TensorExt/IR/TensorExtCanonicalization.td
index 61f22a9..325d2a9 100644
--- a/lib/Dialect/TensorExt/IR/TensorExtCanonicalization.td
+++ b/lib/Dialect/TensorExt/IR/TensorExtCanonicalization.td
@@ -29,9 +29,6 @@ def DenseElementsAttrIsSplatPred
 def SplatElementsAttr : ElementsAttrBase<DenseElementsAttrIsSplatPred,
   "splat tensor attr">;
 
-// Two shift amounts can only be added if they have the same type.
-def HasSameType : Constraint<CPred<"$0.getType() == $1.getType()">>;
-
 // rotate dense<x>, %t -> dense<x>
 def RotateDenseConstant : Pat<
   (TensorExt_RotateOp
diff --git a/lib/Dialect/TensorExt/Transforms/InsertRotate.td b/lib/Dialect/TensorExt/Transforms/InsertRotate.td
index 44a1dc6..e1c4177 100644
--- a/lib/Dialect/TensorExt/Transforms/InsertRotate.td
+++ b/lib/Dialect/TensorExt/Transforms/InsertRotate.td
@@ -42,7 +42,8 @@ foreach ArithOp = [Arith_AddIOp, Arith_SubIOp, Arith_MulIOp] in {
         $opResult,
         (MakeSingleResultVariadic
           (Arith_ConstantOp (GetTargetSlotAttr $arithOp)))),
-    ]
+    ],
+    [(HasSameType $t1, $t2)]
   >;
 
   // In this and the next pattern, the non-tensor arg must be elevated to a tensor
@@ -97,7 +98,8 @@ foreach ArithOp = [Arith_AddFOp, Arith_SubFOp, Arith_MulFOp] in {
         $opResult,
         (MakeSingleResultVariadic
           (Arith_ConstantOp (GetTargetSlotAttr $arithOp)))),
-    ]
+    ],
+    [(HasSameType $t1, $t2)]
   >;
 
   def InsertRotations_SplatRHSToTensor_#ArithOp : Pattern<
@@ -159,7 +161,8 @@ foreach InnerOp = [Arith_AddIOp, Arith_SubIOp, Arith_MulIOp] in {
         // Downstream ops are not updated by this pass, so we need to preserve the original
         // rotation and then clean it up in a separate canonicalization pattern.
         (TensorExt_RotateOp $output, $i3),
-      ]
+      ],
+      [(HasSameType $i1, $i3), (HasSameType $i2, $i3)]
     >;
 
     // Right associated grouping handles (add (rotate t1 i1) (add (rotate t2 i2) (rotate t3 i3)))
@@ -176,7 +179,8 @@ foreach InnerOp = [Arith_AddIOp, Arith_SubIOp, Arith_MulIOp] in {
         // Downstream ops are not updated by this pass, so we need to preserve the original
         // rotation and then clean it up in a separate canonicalization pattern.
         (TensorExt_RotateOp $output, $i3),
-      ]
+      ],
+      [(HasSameType $i1, $i3), (HasSameType $i2, $i3)]
     >;
   }
 
@@ -192,7 +196,8 @@ foreach InnerOp = [Arith_AddIOp, Arith_SubIOp, Arith_MulIOp] in {
         (InnerOp:$addResult $r1, $r2, $ovf1),
         (OuterOp:$output $addResult, $t3, $fm2, $rm2),
         (TensorExt_RotateOp $output, $i3),
-      ]
+      ],
+      [(HasSameType $i1, $i3), (HasSameType $i2, $i3)]
     >;
 
     def AlignRotations_RightAssociated_Inner_#InnerOp#_Outer_#OuterOp : Pattern<
@@ -206,7 +211,8 @@ foreach InnerOp = [Arith_AddIOp, Arith_SubIOp, Arith_MulIOp] in {
         (InnerOp:$addResult $r1, $r2, $ovf1),
         (OuterOp:$output $t3, $addResult, $fm2, $rm2),
         (TensorExt_RotateOp $output, $i3),
-      ]
+      ],
+      [(HasSameType $i1, $i3), (HasSameType $i2, $i3)]
     >;
   }
 }
@@ -224,7 +230,8 @@ foreach InnerOp = [Arith_AddFOp, Arith_SubFOp, Arith_MulFOp] in {
         (InnerOp:$addResult $r1, $r2, $fm1, $rm1),
         (OuterOp:$output $addResult, $t3, $ovf2),
         (TensorExt_RotateOp $output, $i3),
-      ]
+      ],
+      [(HasSameType $i1, $i3), (HasSameType $i2, $i3)]
     >;
 
     def AlignRotations_RightAssociated_Inner_#InnerOp#_Outer_#OuterOp : Pattern<
@@ -238,7 +245,8 @@ foreach InnerOp = [Arith_AddFOp, Arith_SubFOp, Arith_MulFOp] in {
         (InnerOp:$addResult $r1, $r2, $fm1, $rm1),
         (OuterOp:$output $t3, $addResult, $ovf2),
         (TensorExt_RotateOp $output, $i3),
-      ]
+      ],
+      [(HasSameType $i1, $i3), (HasSameType $i2, $i3)]
     >;
   }
 
@@ -254,7 +262,8 @@ foreach InnerOp = [Arith_AddFOp, Arith_SubFOp, Arith_MulFOp] in {
         (InnerOp:$addResult $r1, $r2, $fm1, $rm1),
         (OuterOp:$output $addResult, $t3, $fm2, $rm2),
         (TensorExt_RotateOp $output, $i3),
-      ]
+      ],
+      [(HasSameType $i1, $i3), (HasSameType $i2, $i3)]
     >;
 
     def AlignRotations_RightAssociated_Inner_#InnerOp#_Outer_#OuterOp : Pattern<
@@ -268,7 +277,8 @@ foreach InnerOp = [Arith_AddFOp, Arith_SubFOp, Arith_MulFOp] in {
         (InnerOp:$addResult $r1, $r2, $fm1, $rm1),
         (OuterOp:$output $t3, $addResult, $fm2, $rm2),
         (TensorExt_RotateOp $output, $i3),
-      ]
+      ],
+      [(HasSameType $i1, $i3), (HasSameType $i2, $i3)]
     >;
   }
 }
diff --git a/lib/Utils/DRR/Utils.td b/lib/Utils/DRR/Utils.td
index c30142d..823e5f7 100644
--- a/lib/Utils/DRR/Utils.td
+++ b/lib/Utils/DRR/Utils.td
@@ -31,3 +31,6 @@ def CreateIndexCastOp : NativeCodeCall<
 
 // Returns true if the given value has a single use.
 def HasOneUse: Constraint<CPred<"$_self.hasOneUse()">, "has one use">;
+
+// Returns true if two values have the same type.
+def HasSameType : Constraint<CPred<"$0.getType() == $1.getType()">>;
-- 
2.43.0


From 436c94698f42bd4377c9e613ed563c41a57c83ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:00 +0000
Subject: [PATCH 29/71] fix: rotate and reduce over a number of steps that is
 not a power of two

---
 lib/Kernel/KernelImplementation.h | 19 ++++++++++++++-----
 lib/Utils/RotationUtils.h         | 10 ++++++++--
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/lib/Kernel/KernelImplementation.h b/lib/Kernel/KernelImplementation.h
index 9c21078..8b3e28b 100644
--- a/lib/Kernel/KernelImplementation.h
+++ b/lib/Kernel/KernelImplementation.h
@@ -78,12 +78,16 @@ implementRotateAndReduceAccumulation(
     std::shared_ptr<ArithmeticDagNode<T>> vectorDag, int64_t period,
     int64_t steps, DagReducer<T> reduceFunc) {
   using NodeTy = ArithmeticDagNode<T>;
-  for (int64_t shiftSize = steps / 2; shiftSize > 0; shiftSize /= 2) {
-    auto rotated = NodeTy::leftRotate(vectorDag, shiftSize * period);
-    auto reduced = reduceFunc(vectorDag, rotated);
-    vectorDag = reduced;
+  // Halve an even number of steps, and split one step off an odd one.
+  if (steps <= 1) return vectorDag;
+  if (steps % 2 == 0) {
+    auto rotated = NodeTy::leftRotate(vectorDag, steps / 2 * period);
+    return implementRotateAndReduceAccumulation<T>(
+        reduceFunc(vectorDag, rotated), period, steps / 2, reduceFunc);
   }
-  return vectorDag;
+  auto rest = implementRotateAndReduceAccumulation<T>(vectorDag, period,
+                                                      steps - 1, reduceFunc);
+  return reduceFunc(vectorDag, NodeTy::leftRotate(rest, period));
 }
 
 template <typename T>
@@ -109,6 +113,11 @@ implementRotateAndReduceAccumulationRolled(
   int64_t numIterations = static_cast<int64_t>(std::log2(steps));
   if (numIterations <= 0) return vectorDag;
 
+  // The loop below halves the number of steps in every iteration.
+  if ((steps & (steps - 1)) != 0)
+    return implementRotateAndReduceAccumulation<T>(vectorDag, period, steps,
+                                                   reduceFunc);
+
   auto initialShift = NodeTy::constantScalar(steps / 2, DagType::index());
   auto loopNode = NodeTy::loop(
       {vectorDag, initialShift}, {baseType, DagType::index()}, /*lower=*/0,
diff --git a/lib/Utils/RotationUtils.h b/lib/Utils/RotationUtils.h
index 96079cb..545f4aa 100644
--- a/lib/Utils/RotationUtils.h
+++ b/lib/Utils/RotationUtils.h
@@ -64,8 +64,14 @@ inline llvm::DenseSet<int64_t> rotateAndReduceRotationIndices(
   llvm::DenseSet<int64_t> result;
   if (!hasPlaintexts) {
     // Matches implementRotateAndReduceAccumulation
-    for (int64_t shiftSize = steps / 2; shiftSize > 0; shiftSize /= 2) {
-      result.insert(shiftSize * period);
+    while (steps > 1) {
+      if (steps % 2 == 0) {
+        steps /= 2;
+        result.insert(steps * period);
+      } else {
+        --steps;
+        result.insert(period);
+      }
     }
     return result;
   }
-- 
2.43.0


From a07f7d0fdacb7f86b53ccd2f1f5810997d7d0769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:00 +0000
Subject: [PATCH 30/71] fix: do not collapse forked insertion chains into a
 rotation

---
 .../Transforms/CollapseInsertionChains.cpp         | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/lib/Dialect/TensorExt/Transforms/CollapseInsertionChains.cpp b/lib/Dialect/TensorExt/Transforms/CollapseInsertionChains.cpp
index 263acc9..c2684e2 100644
--- a/lib/Dialect/TensorExt/Transforms/CollapseInsertionChains.cpp
+++ b/lib/Dialect/TensorExt/Transforms/CollapseInsertionChains.cpp
@@ -107,7 +107,7 @@ struct FoldSequentialExtractInsertIntoRotate
     auto extractionSource = extractOp.getTensor();
     auto current = insertOp;
     while (true) {
-      bool foundNext = false;
+      tensor::InsertOp next;
 
       for (auto* user : current.getResult().getUsers()) {
         if (auto nextInsert = dyn_cast<tensor::InsertOp>(user)) {
@@ -131,15 +131,19 @@ struct FoldSequentialExtractInsertIntoRotate
             return rewriter.notifyMatchFailure(
                 insertOp, "insertion chain has mismatched shift");
 
-          accessedIndices.insert(get1DExtractionIndex(nextInsert).value());
-          current = nextInsert;
-          foundNext = true;
+          // Two insertions into the same tensor start two different chains.
+          if (next)
+            return rewriter.notifyMatchFailure(insertOp,
+                                               "insertion chain is forked");
+          next = nextInsert;
         }
       }
 
       // This can either be because we reached the end of the chain, or else
       // because the chain is incomplete.
-      if (!foundNext) break;
+      if (!next) break;
+      accessedIndices.insert(get1DExtractionIndex(next).value());
+      current = next;
     }
 
     LLVM_DEBUG({
-- 
2.43.0


From 62aa5090f7f5ef7bbad610bf1ce0c0a29c501a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:00 +0000
Subject: [PATCH 31/71] fix: vectorize only operations with equal operand types
 that do not depend on each other

---
 .../StraightLineVectorizer/StraightLineVectorizer.cpp     | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/Transforms/StraightLineVectorizer/StraightLineVectorizer.cpp b/lib/Transforms/StraightLineVectorizer/StraightLineVectorizer.cpp
index b035bea..ba3cc5d 100644
--- a/lib/Transforms/StraightLineVectorizer/StraightLineVectorizer.cpp
+++ b/lib/Transforms/StraightLineVectorizer/StraightLineVectorizer.cpp
@@ -31,6 +31,7 @@ bool areCompatible(Operation* lhs, Operation* rhs) {
   if (lhs->getName() != rhs->getName() ||
       lhs->getDialect() != rhs->getDialect() ||
       lhs->getResultTypes() != rhs->getResultTypes() ||
+      lhs->getOperandTypes() != rhs->getOperandTypes() ||
       lhs->getAttrs() != rhs->getAttrs()) {
     return false;
   }
@@ -52,6 +53,7 @@ bool tryVectorizeBlock(Block* block, Dialect* dialect) {
     SetVector<Operation*> backwardSlice;
     BackwardSliceOptions options;
     options.omitBlockArguments = true;
+    options.omitUsesFromAbove = false;
 
     (void)mlir::getBackwardSlice(&op, &backwardSlice, options);
     for (auto* upstreamDep : backwardSlice) {
@@ -89,8 +91,9 @@ bool tryVectorizeBlock(Block* block, Dialect* dialect) {
       bool foundCompatible = false;
       for (auto& [key, bucket] : compatibleOps) {
         if (areCompatible(key, op)) {
-          compatibleOps[key].push_back(op);
+          bucket.push_back(op);
           foundCompatible = true;
+          break;
         }
       }
       if (!foundCompatible) {
@@ -128,7 +131,8 @@ bool tryVectorizeBlock(Block* block, Dialect* dialect) {
           operands.push_back(op->getOperand(operandIndex));
         }
         auto fromElementsOp = tensor::FromElementsOp::create(
-            builder, key->getLoc(), tensorType, operands);
+            builder, key->getLoc(),
+            tensorType.clone(operands.front().getType()), operands);
         vectorizedOperands.push_back(fromElementsOp.getResult());
       }
 
-- 
2.43.0


From 605c4233060ee02dcfc2acc5424ef99b6dbcc08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:24 +0000
Subject: [PATCH 32/71] fix: convert-tensor-to-scalars mixed row-major and
 column-major order

---
 .../TensorToScalars/TensorToScalars.cpp       | 27 +++++++++----------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/lib/Transforms/TensorToScalars/TensorToScalars.cpp b/lib/Transforms/TensorToScalars/TensorToScalars.cpp
index 9982ca5..7674a43 100644
--- a/lib/Transforms/TensorToScalars/TensorToScalars.cpp
+++ b/lib/Transforms/TensorToScalars/TensorToScalars.cpp
@@ -42,17 +42,17 @@ SmallVector<SmallVector<int64_t>> getAllIndices(TensorType tensorType) {
     SmallVector<SmallVector<int64_t>> oldResult;
     while (!shape.empty()) {
       SmallVector<SmallVector<int64_t>> result;
-      for (auto i = 0; i < shape.front(); ++i) {
+      for (int64_t i = 0; i < shape.back(); ++i) {
         if (oldResult.empty()) {
           result.push_back({i});
         }
         for (const auto& res : oldResult) {
-          SmallVector<int64_t> newResult = res;
-          newResult.push_back(i);
+          SmallVector<int64_t> newResult = {i};
+          newResult.append(res.begin(), res.end());
           result.push_back(newResult);
         }
       }
-      shape = shape.drop_front();
+      shape = shape.drop_back();
       oldResult = result;
     }
     return oldResult;
@@ -77,7 +77,7 @@ static SmallVector<Value> buildExtractOps(OpBuilder& builder,
   RankedTensorType inputType = dyn_cast<RankedTensorType>(input.getType());
   if (!inputType || !inputType.hasStaticShape()) return {};
 
-  // Create extract ops in "natural" order (dimension-by-dimension)
+  // Create extract ops in "natural" (i.e., row-major) order
   SmallVector<Value> values;
   ImplicitLocOpBuilder b(loc, builder);
   const auto* maxDimension = llvm::max_element(inputType.getShape());
@@ -113,7 +113,10 @@ class ConvertFromElementsOp
     // but no check is necessary here as from_elements' shape is always static
     // Replace the current op with the flattened operands.
     // This should already match the "natural" order expected by this pass.
-    rewriter.replaceOpWithMultiple(op, adaptor.getOperands());
+    SmallVector<Value> elements;
+    for (ValueRange operand : adaptor.getOperands())
+      elements.append(operand.begin(), operand.end());
+    rewriter.replaceOpWithMultiple(op, {elements});
     return success();
   }
 };
@@ -134,8 +137,7 @@ class ConvertInsertOp : public OpConversionPattern<tensor::InsertOp> {
     if (!op.getResult().getType().hasStaticShape())
       return rewriter.notifyMatchFailure(op, "result must have a static shape");
 
-    // Compute the insertion offset (in dimension-by-dimension order):
-    int64_t multiplier = 1;
+    // Compute the insertion offset (in row-major order):
     int64_t offset = 0;
     for (auto [dim, idx] :
          llvm::zip(op.getResult().getType().getShape(), op.getIndices())) {
@@ -144,8 +146,7 @@ class ConvertInsertOp : public OpConversionPattern<tensor::InsertOp> {
       auto cidx = idx.getDefiningOp<arith::ConstantIndexOp>();
       if (!cidx)
         return rewriter.notifyMatchFailure(op, "index must be a constant");
-      offset += cidx.value() * multiplier;
-      multiplier *= dim;
+      offset = offset * dim + cidx.value();
     }
 
     // get converted "tensor" operand from op (likely a unrealized_builtin_cast)
@@ -174,8 +175,7 @@ class ConvertExtractOp : public OpConversionPattern<tensor::ExtractOp> {
     if (!op.getTensor().getType().hasStaticShape())
       return rewriter.notifyMatchFailure(op, "tensor must have a static shape");
 
-    // Compute the extraction offset (in dimension-by-dimension order):
-    int64_t multiplier = 1;
+    // Compute the extraction offset (in row-major order):
     int64_t offset = 0;
     SmallVector<OpFoldResult> indices = getAsOpFoldResult(op.getIndices());
 
@@ -186,8 +186,7 @@ class ConvertExtractOp : public OpConversionPattern<tensor::ExtractOp> {
       auto constantIdx = dyn_cast<Attribute>(idx);
       if (!constantIdx)
         return rewriter.notifyMatchFailure(op, "index must be a constant");
-      offset += cast<IntegerAttr>(constantIdx).getInt() * multiplier;
-      multiplier *= dim;
+      offset = offset * dim + cast<IntegerAttr>(constantIdx).getInt();
     }
 
     // replace the current op with the extracted scalar.
-- 
2.43.0


From 9624b6d53712a1b2859298be2d7fc915c10959d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:24 +0000
Subject: [PATCH 33/71] fix: select-rewrite did not splat a scalar condition of
 float tensors

---
 lib/Transforms/SelectRewrite/SelectRewrite.td | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/Transforms/SelectRewrite/SelectRewrite.td b/lib/Transforms/SelectRewrite/SelectRewrite.td
index d869b22..1274326 100644
--- a/lib/Transforms/SelectRewrite/SelectRewrite.td
+++ b/lib/Transforms/SelectRewrite/SelectRewrite.td
@@ -47,9 +47,10 @@ def SelectRewritePatternInt : Pattern<
 def SelectRewritePatternFloat : Pattern<
   (SelectOp $cond, FloatLike:$true_value, $false_value),
   [
-    (Arith_ConstantOp:$one (getMatchingOne $cond)),
-    (Arith_SubIOp:$not_cond $one, $cond, DefOverflow),
-    (Arith_UIToFPOp:$ext_cond $cond, (GetNullAttr), (returnType $true_value)),
+    (matchShapedType:$new_cond $cond, $true_value),
+    (Arith_ConstantOp:$one (getMatchingOne $new_cond)),
+    (Arith_SubIOp:$not_cond $one, $new_cond, DefOverflow),
+    (Arith_UIToFPOp:$ext_cond $new_cond, (GetNullAttr), (returnType $true_value)),
     (Arith_MulFOp:$true_mul $ext_cond, $true_value, DefFastMath, (GetNullAttr)),
     (Arith_UIToFPOp:$ext_not_cond $not_cond, (GetNullAttr), (returnType $false_value)),
     (Arith_MulFOp:$false_mul $ext_not_cond, $false_value, DefFastMath, (GetNullAttr)),
-- 
2.43.0


From 12072a28843f78209f7cdb1271eab3ef09fdf121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:24 +0000
Subject: [PATCH 34/71] fix: linalg-fuse-linear-ops fused ops it must not or in
 the wrong direction

---
 .../LinalgFuseLinearOps.cpp                   | 165 ++++++++++++------
 1 file changed, 107 insertions(+), 58 deletions(-)

diff --git a/lib/Transforms/LinalgFuseLinearOps/LinalgFuseLinearOps.cpp b/lib/Transforms/LinalgFuseLinearOps/LinalgFuseLinearOps.cpp
index 9cfbab3..3aa8964 100644
--- a/lib/Transforms/LinalgFuseLinearOps/LinalgFuseLinearOps.cpp
+++ b/lib/Transforms/LinalgFuseLinearOps/LinalgFuseLinearOps.cpp
@@ -3,10 +3,13 @@
 #include <cassert>
 #include <cstdint>
 #include <memory>
+#include <optional>
 #include <type_traits>
 #include <utility>
 
 #include "lib/Analysis/SecretnessAnalysis/SecretnessAnalysis.h"
+#include "llvm/include/llvm/ADT/STLExtras.h"               // from @llvm-project
+#include "llvm/include/llvm/ADT/SetVector.h"               // from @llvm-project
 #include "llvm/include/llvm/ADT/TypeSwitch.h"              // from @llvm-project
 #include "mlir/include/mlir/Analysis/DataFlow/Utils.h"     // from @llvm-project
 #include "mlir/include/mlir/Analysis/DataFlowFramework.h"  // from @llvm-project
@@ -26,9 +29,11 @@
 #include "mlir/include/mlir/IR/Value.h"         // from @llvm-project
 #include "mlir/include/mlir/IR/ValueRange.h"    // from @llvm-project
 #include "mlir/include/mlir/Interfaces/DestinationStyleOpInterface.h"  // from @llvm-project
+#include "mlir/include/mlir/Interfaces/SideEffectInterfaces.h"  // from @llvm-project
 #include "mlir/include/mlir/Pass/Pass.h"     // from @llvm-project
 #include "mlir/include/mlir/Support/LLVM.h"  // from @llvm-project
 #include "mlir/include/mlir/Transforms/GreedyPatternRewriteDriver.h"  // from @llvm-project
+#include "mlir/include/mlir/Transforms/RegionUtils.h"  // from @llvm-project
 
 namespace mlir {
 namespace heir {
@@ -38,6 +43,22 @@ namespace heir {
 
 namespace {
 
+// Returns true if the body of the given op adds a value to the block argument
+// of its only init just before yielding it, and does not use the initial value
+// otherwise.
+bool bodyAddsToOuts(linalg::LinalgOp linearOp) {
+  if (linearOp.getNumDpsInits() != 1) return false;
+  Block* body = linearOp.getBlock();
+  auto yieldOp = cast<linalg::YieldOp>(body->getTerminator());
+  Value yieldedValue = yieldOp.getOperand(0);
+  auto* addOp = yieldedValue.getDefiningOp();
+  if (!addOp || !isa<arith::AddFOp, arith::AddIOp>(addOp)) return false;
+  Value outBlockArg = body->getArgument(linearOp.getNumDpsInputs());
+  return outBlockArg.hasOneUse() &&
+         (addOp->getOperand(0) == outBlockArg ||
+          addOp->getOperand(1) == outBlockArg);
+}
+
 bool accumulatesIntoOuts(Operation* linearOp) {
   if (isa<linalg::BatchMatmulOp, linalg::BatchMatvecOp, linalg::BatchMmt4DOp,
           linalg::BatchReduceMatmulOp, linalg::BatchVecmatOp,
@@ -57,54 +78,38 @@ bool accumulatesIntoOuts(Operation* linearOp) {
           linalg::DepthwiseConv3DNcdhwCdhwOp,
           linalg::DepthwiseConv3DNdhwcDhwcOp,
           linalg::DepthwiseConv3DNdhwcDhwcmOp, linalg::DotOp, linalg::MatmulOp,
-          linalg::MatvecOp, linalg::Mmt4DOp, linalg::PoolingNchwMaxOp,
-          linalg::PoolingNchwSumOp, linalg::PoolingNcwMaxOp,
-          linalg::PoolingNcwSumOp, linalg::PoolingNdhwcMaxOp,
-          linalg::PoolingNdhwcMinOp, linalg::PoolingNdhwcSumOp,
-          linalg::PoolingNhwcMaxOp, linalg::PoolingNhwcMaxUnsignedOp,
-          linalg::PoolingNhwcMinOp, linalg::PoolingNhwcMinUnsignedOp,
-          linalg::PoolingNhwcSumOp, linalg::PoolingNwcMaxOp,
-          linalg::PoolingNwcMaxUnsignedOp, linalg::PoolingNwcMinOp,
-          linalg::PoolingNwcMinUnsignedOp, linalg::PoolingNwcSumOp,
+          linalg::MatvecOp, linalg::Mmt4DOp, linalg::PoolingNchwSumOp,
+          linalg::PoolingNcwSumOp, linalg::PoolingNdhwcSumOp,
+          linalg::PoolingNhwcSumOp, linalg::PoolingNwcSumOp,
           linalg::QuantizedBatchMatmulOp, linalg::QuantizedMatmulOp,
-          linalg::ReduceOp, linalg::VecmatOp>(linearOp)) {
+          linalg::VecmatOp>(linearOp)) {
     return true;
   }
 
-  // Check if a generic op uses addi or addf on the outs's corresponding block
-  // argument just before yielding it.
-  if (auto generic = dyn_cast<linalg::GenericOp>(linearOp)) {
-    if (generic.getNumDpsInits() != 1) return false;
-    Block* body = generic.getBody();
-    auto yieldOp = cast<linalg::YieldOp>(body->getTerminator());
-    Value yieldedValue = yieldOp.getOperand(0);
-    auto addOp = yieldedValue.getDefiningOp();
-    if (!addOp) return false;
-    if (isa<arith::AddFOp, arith::AddIOp>(addOp)) {
-      Value lhs = addOp->getOperand(0);
-      Value rhs = addOp->getOperand(1);
-      Value outBlockArg = body->getArgument(generic.getNumDpsInputs());
-      if (lhs == outBlockArg || rhs == outBlockArg) {
-        return true;
-      }
-    }
+  // Check if a generic or reduce op uses addi or addf on the outs's
+  // corresponding block argument just before yielding it.
+  if (isa<linalg::GenericOp, linalg::ReduceOp>(linearOp)) {
+    return bodyAddsToOuts(cast<linalg::LinalgOp>(linearOp));
   }
 
   return false;
 }
 
 // Given an op (add, sub, div, mul), try to find a linalg op whose op result is
-// used by this op, populate `linearOp` with that result, and populate
+// used by this op only, populate `linearOp` with that result, and populate
 // `rawOperand` with the other operand of `op`. Fail if no such linalg op can be
-// found.
+// found. The operations that are not commutative are only supported if the
+// linalg op is the left operand.
 template <typename OpTy>
 LogicalResult findLinearOpAndOperand(OpTy op, Operation*& linearOp,
                                      Value& rawOperand) {
   Value lhs = op.getLhs();
   Value rhs = op.getRhs();
 
-  auto isLinearOp = [](Operation* defOp) {
-    return defOp && isa<linalg::LinalgOp>(defOp) &&
+  auto isLinearOp = [&](Operation* defOp) {
+    // The linalg op is modified in place, which other users would see.
+    return defOp && isa<linalg::LinalgOp>(defOp) && defOp->hasOneUse() &&
+           defOp->getBlock() == op->getBlock() &&
            !isa<linalg::BroadcastOp, linalg::FillOp, linalg::TransposeOp>(
                defOp);
   };
@@ -117,7 +122,7 @@ LogicalResult findLinearOpAndOperand(OpTy op, Operation*& linearOp,
     rawOperand = rhs;
     return success();
   }
-  if (isLinearOp(rhsOp)) {
+  if (isLinearOp(rhsOp) && op->template hasTrait<OpTrait::IsCommutative>()) {
     linearOp = rhsOp;
     rawOperand = lhs;
     return success();
@@ -125,22 +130,40 @@ LogicalResult findLinearOpAndOperand(OpTy op, Operation*& linearOp,
   return failure();
 }
 
-static void moveSliceBefore(Operation* op, Operation* target) {
-  if (!op) return;
-  if (op->getBlock() != target->getBlock() || op->isBeforeInBlock(target))
-    return;
-  for (Value operand : op->getOperands()) {
-    moveSliceBefore(operand.getDefiningOp(), target);
+// Collects the ops from `target` on in its block that `value` depends on, in an
+// order that respects their dependencies. Fails if one of them cannot be moved
+// before `target`.
+static LogicalResult getSliceAfter(Value value, Operation* target,
+                                   llvm::SetVector<Operation*>& slice) {
+  Operation* op = value.getDefiningOp();
+  if (!op || op->getBlock() != target->getBlock() ||
+      op->isBeforeInBlock(target) || slice.contains(op))
+    return success();
+  if (op == target || !isPure(op)) return failure();
+  llvm::SetVector<Value> dependencies;
+  dependencies.insert(op->operand_begin(), op->operand_end());
+  getUsedValuesDefinedAbove(op->getRegions(), dependencies);
+  for (Value dependency : dependencies) {
+    if (failed(getSliceAfter(dependency, target, slice))) return failure();
   }
-  op->moveBefore(target);
+  slice.insert(op);
+  return success();
+}
+
+static LogicalResult moveSliceBefore(Value value, Operation* target) {
+  llvm::SetVector<Operation*> slice;
+  if (failed(getSliceAfter(value, target, slice))) return failure();
+  for (Operation* op : slice) op->moveBefore(target);
+  return success();
 }
 
 // Given a value, walk the use-def chain backwards to try to find a scalar SSA
 // value, passing through ops that only splat/reshape a scalar as a dense
-// tensor. Alternatively, if the end of the chain is a tensor type, check
-// to see if it can be broadcast to a given weightsType.
-FailureOr<OpFoldResult> findOriginalScalar(Value scaleVal, Type weightsType) {
+// tensor. Alternatively, if the end of the chain is a 1D tensor, check that it
+// varies along the dimension `channelDim` of the given value.
+FailureOr<OpFoldResult> findOriginalScalar(Value scaleVal, int64_t channelDim) {
   Value val = scaleVal;
+  std::optional<int64_t> dim = channelDim;
   Operation* definingOp = nullptr;
   while (val.getDefiningOp() && isa<ShapedType>(val.getType())) {
     definingOp = val.getDefiningOp();
@@ -156,6 +179,26 @@ FailureOr<OpFoldResult> findOriginalScalar(Value scaleVal, Type weightsType) {
     // or else a constant op (with no operands) at which point we break.
     if (definingOp->getNumOperands() == 0) break;
 
+    if (auto broadcastOp = dyn_cast<linalg::BroadcastOp>(definingOp)) {
+      if (dim) {
+        ArrayRef<int64_t> added = broadcastOp.getDimensions();
+        if (llvm::is_contained(added, *dim)) {
+          dim = std::nullopt;
+        } else {
+          *dim -= llvm::count_if(added, [&](int64_t d) { return d < *dim; });
+        }
+      }
+    } else if (auto expandOp = dyn_cast<tensor::ExpandShapeOp>(definingOp)) {
+      ArrayRef<int64_t> shape = expandOp.getResultType().getShape();
+      for (auto [i, group] : llvm::enumerate(expandOp.getReassociationIndices())) {
+        if (!dim || !llvm::is_contained(group, *dim)) continue;
+        bool onlyDim = llvm::all_of(
+            group, [&](int64_t d) { return d == *dim || shape[d] == 1; });
+        dim = onlyDim ? std::optional<int64_t>(i) : std::nullopt;
+        break;
+      }
+    }
+
     val = definingOp->getOperand(0);
   }
 
@@ -178,7 +221,7 @@ FailureOr<OpFoldResult> findOriginalScalar(Value scaleVal, Type weightsType) {
   // Case 3: we stopped at an SSA value that is a 1D tensor. This is checked
   // for broadcast compatibility by the caller.
   if (auto shapedTy = dyn_cast<ShapedType>(val.getType())) {
-    if (shapedTy.getRank() == 1) return OpFoldResult(val);
+    if (shapedTy.getRank() == 1 && dim) return OpFoldResult(val);
   }
 
   return failure();
@@ -204,7 +247,10 @@ LogicalResult fuseScaleOrDivIntoLinearOp(PatternRewriter& rewriter, OpTy op,
 
   Value weights;
   int64_t weightOperandIdx = -1;
+  // The dimension of the weights, and the one of the result, that has the
+  // output channels.
   int64_t matchDim = -1;
+  int64_t channelDim = -1;
 
   // Opt-in only specific ops where the `addend` can be fused into the
   // corresponding cleartext weights matrix.
@@ -213,27 +259,32 @@ LogicalResult fuseScaleOrDivIntoLinearOp(PatternRewriter& rewriter, OpTy op,
         weights = op.getOperand(1);
         weightOperandIdx = 1;
         matchDim = 1;
+        channelDim = isa<linalg::MatmulOp>(op) ? 1 : 0;
       })
       .template Case<linalg::MatvecOp>([&](auto op) {
         weights = op.getOperand(0);
         weightOperandIdx = 0;
         matchDim = 0;
+        channelDim = 0;
       })
       .template Case<linalg::Conv2DNchwFchwOp, linalg::Conv2DNhwcFhwcOp,
                      linalg::Conv1DNcwFcwOp>([&](auto op) {
         weights = op.getOperand(1);
         weightOperandIdx = 1;
         matchDim = 0;
+        channelDim = isa<linalg::Conv2DNhwcFhwcOp>(op) ? 3 : 1;
       })
       .template Case<linalg::Conv2DNhwcHwcfOp>([&](auto op) {
         weights = op.getOperand(1);
         weightOperandIdx = 1;
         matchDim = 3;
+        channelDim = 3;
       })
       .template Case<linalg::Conv1DNwcWcfOp>([&](auto op) {
         weights = op.getOperand(1);
         weightOperandIdx = 1;
         matchDim = 2;
+        channelDim = 2;
       })
       .Default([](auto) {});
 
@@ -248,14 +299,19 @@ LogicalResult fuseScaleOrDivIntoLinearOp(PatternRewriter& rewriter, OpTy op,
   // division. So the `scaleVal` may need to be traced back through broadcasts
   // until a dense constant or scalar SSA value is identified.
   FailureOr<OpFoldResult> maybeScaleOfr =
-      findOriginalScalar(scaleVal, weightsType);
+      findOriginalScalar(scaleVal, channelDim);
   if (failed(maybeScaleOfr)) return failure();
   OpFoldResult scaleOfr = *maybeScaleOfr;
 
   if (auto origVal = dyn_cast<Value>(scaleOfr)) {
-    moveSliceBefore(origVal.getDefiningOp(), linearOp);
+    // The scale is not broadcast compatible with the weights tensor.
+    if (auto origType = dyn_cast<ShapedType>(origVal.getType());
+        origType &&
+        weightsType.getDimSize(matchDim) != origType.getDimSize(0)) {
+      return failure();
+    }
   }
-  moveSliceBefore(scaleVal.getDefiningOp(), linearOp);
+  if (failed(moveSliceBefore(scaleVal, linearOp))) return failure();
   rewriter.setInsertionPoint(linearOp);
 
   // Next we need to materialize the scalar as a constant, with shape matching
@@ -270,15 +326,10 @@ LogicalResult fuseScaleOrDivIntoLinearOp(PatternRewriter& rewriter, OpTy op,
     newScaleVal = newConstantOp.getResult();
   } else {
     Value origVal = cast<Value>(scaleOfr);
-    auto origType = cast<ShapedType>(origVal.getType());
-    if (origType == weightsType) {
-      newScaleVal = origVal;
-    } else if (origType.getRank() == 1) {
-      // The added type is not broadcast compatible with the weights tensor.
-      if (weightsType.getDimSize(matchDim) != origType.getDimSize(0)) {
-        return failure();
-      }
-
+    if (!isa<ShapedType>(origVal.getType())) {
+      newScaleVal = tensor::SplatOp::create(rewriter, linearOp->getLoc(),
+                                            origVal, weightsType);
+    } else {
       SmallVector<int64_t> addedDims;
       for (int i = 0; i < weightsType.getRank(); ++i) {
         if (i != matchDim) {
@@ -292,8 +343,6 @@ LogicalResult fuseScaleOrDivIntoLinearOp(PatternRewriter& rewriter, OpTy op,
           linalg::BroadcastOp::create(rewriter, linearOp->getLoc(), origVal,
                                       emptyOp.getResult(), addedDims);
       newScaleVal = broadcastOp.getResults()[0];
-    } else {
-      return failure();
     }
   }
 
@@ -333,7 +382,7 @@ LogicalResult fuseAddOrSubIntoLinearOp(PatternRewriter& rewriter, OpTy op,
   assert(previousOuts.getType() == addend.getType() &&
          "mismatching types for fuseAddOrSubIntoLinearOp");
 
-  moveSliceBefore(addend.getDefiningOp(), linearOp);
+  if (failed(moveSliceBefore(addend, linearOp))) return failure();
   rewriter.setInsertionPoint(linearOp);
   Value newOuts;
   if (previousOuts.getDefiningOp<tensor::EmptyOp>()) {
-- 
2.43.0


From af01a6a0fff3955cc36295db97bfe15f4fdd22fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:24 +0000
Subject: [PATCH 35/71] fix: linalg-canonicalizations changed results of maps,
 generics and pools

---
 .../ConvPoolFusion.cpp                        |  8 +-
 .../LinalgCanonicalizations.cpp               | 84 ++++++++++++++-----
 2 files changed, 67 insertions(+), 25 deletions(-)

diff --git a/lib/Transforms/LinalgCanonicalizations/ConvPoolFusion.cpp b/lib/Transforms/LinalgCanonicalizations/ConvPoolFusion.cpp
index 76ff116..5689e27 100644
--- a/lib/Transforms/LinalgCanonicalizations/ConvPoolFusion.cpp
+++ b/lib/Transforms/LinalgCanonicalizations/ConvPoolFusion.cpp
@@ -195,7 +195,10 @@ FailureOr<ScalingFactorInfo> matchScalingFactor(
 
   // Case 2: linalg.generic
   if (auto genericOp = dyn_cast<linalg::GenericOp>(user)) {
-    if (genericOp.getNumDpsInputs() == 1 && genericOp.getNumDpsInits() == 1) {
+    if (genericOp.getNumDpsInputs() == 1 && genericOp.getNumDpsInits() == 1 &&
+        genericOp.getNumParallelLoops() == genericOp.getNumLoops() &&
+        llvm::all_of(genericOp.getIndexingMapsArray(),
+                     [](AffineMap map) { return map.isIdentity(); })) {
       Block* body = genericOp.getBody();
       if (body->getOperations().size() == 2) {
         Operation& op = body->getOperations().front();
@@ -203,7 +206,8 @@ FailureOr<ScalingFactorInfo> matchScalingFactor(
           Value arg0 = op.getOperand(0);
           Value arg1 = op.getOperand(1);
           BlockArgument inputArg = body->getArgument(0);
-          if (arg0 == inputArg) {
+          if (arg0 == inputArg && genericOp.getInputs()[0] == poolResult &&
+              body->getTerminator()->getOperand(0) == op.getResult(0)) {
             if (auto scaleOpt = getScale(arg1, &op)) {
               return ScalingFactorInfo{*scaleOpt, genericOp};
             }
diff --git a/lib/Transforms/LinalgCanonicalizations/LinalgCanonicalizations.cpp b/lib/Transforms/LinalgCanonicalizations/LinalgCanonicalizations.cpp
index a5744fe..0a6a4d0 100644
--- a/lib/Transforms/LinalgCanonicalizations/LinalgCanonicalizations.cpp
+++ b/lib/Transforms/LinalgCanonicalizations/LinalgCanonicalizations.cpp
@@ -445,12 +445,31 @@ struct LinalgMapToElementwise : public OpRewritePattern<mlir::linalg::MapOp> {
       return rewriter.notifyMatchFailure(
           mapOp, "operation in mapper must be elementwise");
 
+    // The mapper should yield the result of the operation.
+    if (op.getNumResults() != 1 ||
+        mapper->getTerminator()->getOperand(0) != op.getResult(0))
+      return rewriter.notifyMatchFailure(
+          mapOp, "mapper must yield the result of its operation");
+
+    // Map the operands to the inputs, whose order may differ.
+    SmallVector<Value> newOperands;
+    for (Value operand : op.getOperands()) {
+      auto blockArg = dyn_cast<BlockArgument>(operand);
+      if (!blockArg || blockArg.getOwner() != mapper ||
+          blockArg.getArgNumber() >= mapOp.getInputs().size())
+        return rewriter.notifyMatchFailure(
+            mapOp, "operands in mapper must be inputs of the map");
+      newOperands.push_back(mapOp.getInputs()[blockArg.getArgNumber()]);
+    }
+
+    SmallVector<NamedAttribute> newAttrs(op.getAttrs());
+    llvm::append_range(newAttrs, mapOp->getDiscardableAttrs());
     auto* elementwiseOp = rewriter.create(
-        mapOp->getLoc(), op.getName().getIdentifier(), mapOp.getInputs(),
-        TypeRange(dest.getType()), mapOp->getAttrs(), {}, {});
+        mapOp->getLoc(), op.getName().getIdentifier(), newOperands,
+        TypeRange(dest.getType()), newAttrs, {}, {});
     rewriter.replaceOp(mapOp, elementwiseOp);
-    if (dest.use_empty() && dest.getDefiningOp())
-      rewriter.eraseOp(dest.getDefiningOp());
+    if (auto* destOp = dest.getDefiningOp(); destOp && isOpTriviallyDead(destOp))
+      rewriter.eraseOp(destOp);
     return success();
   }
 };
@@ -468,6 +487,10 @@ struct LinalgGenericToElementwise
 
   LogicalResult matchAndRewrite(mlir::linalg::GenericOp genericOp,
                                 PatternRewriter& rewriter) const override {
+    if (!genericOp.hasPureTensorSemantics())
+      return rewriter.notifyMatchFailure(
+          genericOp, "genericOp with memref semantics not supported");
+
     // The operations should be elementwise or constants.
     for (auto& op : genericOp.getBody()->getOperations()) {
       if (isa<linalg::YieldOp>(op) || isa<arith::ConstantOp>(op)) continue;
@@ -539,16 +562,27 @@ struct LinalgGenericToElementwise
       // to infer the shapes of the tensor values.
       auto resultTensorShape =
           cast<RankedTensorType>(genericOp.getResult(0).getType()).getShape();
+
+      // A constant becomes a splat constant of that shape.
+      if (auto constantOp = dyn_cast<arith::ConstantOp>(innerOp)) {
+        auto tensorType =
+            RankedTensorType::get(resultTensorShape, constantOp.getType());
+        auto newConstantOp = arith::ConstantOp::create(
+            rewriter, genericOp.getLoc(),
+            DenseElementsAttr::get(tensorType,
+                                   cast<Attribute>(constantOp.getValue())));
+        bvm.map(constantOp.getResult(), newConstantOp.getResult());
+        continue;
+      }
+
       for (auto& operand : innerOp.getOpOperands()) {
         Value operandValue = operand.get();
-        if (auto blockArgument = dyn_cast<BlockArgument>(operandValue)) {
-          assert(blockArgument.getArgNumber() < genericOp.getInputs().size() &&
-                 "expecting that the elementwise operation does not use the "
-                 "output's initial values");
-          // Map the block argument to the operand of the generic op.
-          bvm.map(operandValue,
-                  genericOp.getOperand(blockArgument.getArgNumber()));
-        } else if (operandValue.getParentBlock() != genericOp.getBody()) {
+        // The block arguments are already mapped to the operands of the generic
+        // op.
+        if (isa<BlockArgument>(operandValue) &&
+            operandValue.getParentBlock() == genericOp.getBody())
+          continue;
+        if (operandValue.getParentBlock() != genericOp.getBody()) {
           // If this isn't a block argument and wasn't defined in the generic,
           // then it must be a constant from outside the generic. The shape of
           // the splat constant must match the result of this op since
@@ -698,11 +732,12 @@ struct RewriteAvgPoolAsConv1D
     if (poolOp->hasOneUse()) {
       auto divOp = dyn_cast<arith::DivFOp>(*poolOp->getUsers().begin());
       if (divOp) {
+        // The pool must be the dividend.
         OpOperand& use = *poolOp->getUses().begin();
-        if (auto constantAttr = dyn_cast<Attribute>(getAsOpFoldResult(
-                divOp->getOperand(1 - use.getOperandNumber())))) {
-          if (auto splatAttr = dyn_cast<SplatElementsAttr>(
-                  cast<DenseElementsAttr>(constantAttr))) {
+        if (auto constantAttr = dyn_cast<Attribute>(
+                getAsOpFoldResult(divOp->getOperand(1)));
+            constantAttr && use.getOperandNumber() == 0) {
+          if (auto splatAttr = dyn_cast<SplatElementsAttr>(constantAttr)) {
             auto divValue = splatAttr.getSplatValue<APFloat>();
             APFloat one = APFloat::getOne(divValue.getSemantics());
             avgAttr = rewriter.getFloatAttr(eltTy, one / divValue);
@@ -784,11 +819,12 @@ struct RewriteAvgPoolAsConv2D
     if (poolOp->hasOneUse()) {
       auto divOp = dyn_cast<arith::DivFOp>(*poolOp->getUsers().begin());
       if (divOp) {
+        // The pool must be the dividend.
         OpOperand& use = *poolOp->getUses().begin();
-        if (auto constantAttr = dyn_cast<Attribute>(getAsOpFoldResult(
-                divOp->getOperand(1 - use.getOperandNumber())))) {
-          if (auto splatAttr = dyn_cast<SplatElementsAttr>(
-                  cast<DenseElementsAttr>(constantAttr))) {
+        if (auto constantAttr = dyn_cast<Attribute>(
+                getAsOpFoldResult(divOp->getOperand(1)));
+            constantAttr && use.getOperandNumber() == 0) {
+          if (auto splatAttr = dyn_cast<SplatElementsAttr>(constantAttr)) {
             auto divValue = splatAttr.getSplatValue<APFloat>();
             APFloat one = APFloat::getOne(divValue.getSemantics());
             avgAttr = rewriter.getFloatAttr(eltTy, one / divValue);
@@ -965,6 +1001,8 @@ struct FuseConv2DPooling : public OpRewritePattern<linalg::PoolingNchwSumOp> {
       return rewriter.notifyMatchFailure(poolOp, "failed to fuse filters");
     }
 
+    // The operands of the scaling need not dominate the pooling.
+    if (foldDivision) rewriter.setInsertionPoint(divOrMulOp);
     Value newFilter =
         arith::ConstantOp::create(rewriter, poolOp.getLoc(), fusedAttr);
 
@@ -1052,6 +1090,8 @@ struct MaterializeBroadcasts : public OpRewritePattern<linalg::GenericOp> {
       }
     }
 
+    if (!genericOp.hasPureTensorSemantics()) return failure();
+
     auto indexingMaps = genericOp.getIndexingMapsArray();
     bool madeChanges = false;
     SmallVector<Value> newInputs;
@@ -1157,12 +1197,10 @@ struct MaterializeBroadcasts : public OpRewritePattern<linalg::GenericOp> {
       return failure();
     }
 
-    auto refOutput = genericOp.getDpsInitOperand(0)->get();
-    auto refOutputType = cast<RankedTensorType>(refOutput.getType());
     auto inputType = cast<RankedTensorType>(value.getType());
 
     auto emptyOp = tensor::EmptyOp::create(rewriter, genericOp.getLoc(),
-                                           refOutputType.getShape(),
+                                           genericOp.getStaticLoopRanges(),
                                            inputType.getElementType());
 
     auto broadcastOp = linalg::BroadcastOp::create(
-- 
2.43.0


From 540f1276ba2e2979cc1cfb4a537562d0b48a13fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:24 +0000
Subject: [PATCH 36/71] fix: reduction-canonicalizations accepted a transposing
 output map

---
 .../ReductionCanonicalizations.cpp                    | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lib/Transforms/ReductionCanonicalizations/ReductionCanonicalizations.cpp b/lib/Transforms/ReductionCanonicalizations/ReductionCanonicalizations.cpp
index 241b3d4..3b0d3cc 100644
--- a/lib/Transforms/ReductionCanonicalizations/ReductionCanonicalizations.cpp
+++ b/lib/Transforms/ReductionCanonicalizations/ReductionCanonicalizations.cpp
@@ -47,6 +47,11 @@ struct GenericToReduce : public OpRewritePattern<mlir::linalg::GenericOp> {
     LLVM_DEBUG(genericOp.print(llvm::dbgs()));
     LLVM_DEBUG(llvm::dbgs() << "\n");
 
+    if (!genericOp.hasPureTensorSemantics()) {
+      return rewriter.notifyMatchFailure(
+          genericOp, "genericOp with memref semantics not supported");
+    }
+
     // make sure we have equal number of input and output
     if (genericOp.getInputs().size() != genericOp.getDpsInits().size()) {
       return rewriter.notifyMatchFailure(
@@ -139,7 +144,7 @@ struct GenericToReduce : public OpRewritePattern<mlir::linalg::GenericOp> {
     int resultIndex =
         0;  // output map index, i is just the index in the map inputs
     ArrayRef<AffineExpr> results = map.getResults();
-    for (unsigned i = 0, numDims = map.getNumResults(); i < numDims; ++i) {
+    for (unsigned i = 0, numDims = map.getNumDims(); i < numDims; ++i) {
       bool isReduced = find(dimensions, i) != dimensions.end();
       if (isReduced) {  // skip this on the output dimension
         continue;
@@ -148,9 +153,9 @@ struct GenericToReduce : public OpRewritePattern<mlir::linalg::GenericOp> {
       auto expr = dyn_cast<AffineDimExpr>(results[resultIndex]);
       if (!expr || expr.getPosition() != i) {
         LLVM_DEBUG(llvm::dbgs()
-                   << "map result " << expr.getPosition()
+                   << "map result " << results[resultIndex]
                    << " is not an affine dim expr with expected position "
-                   << resultIndex);
+                   << i);
         return false;
       }
       resultIndex++;
-- 
2.43.0


From 43a21ffca0a3e310d13e6427bce4f484c3c8e82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:24 +0000
Subject: [PATCH 37/71] fix: tensor-linalg-to-affine-loops left linalg.index
 outside of linalg ops

---
 .../TensorLinalgToAffineLoops.cpp                        | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/Transforms/TensorLinalgToAffineLoops/TensorLinalgToAffineLoops.cpp b/lib/Transforms/TensorLinalgToAffineLoops/TensorLinalgToAffineLoops.cpp
index b5f4fc2..def4b60 100644
--- a/lib/Transforms/TensorLinalgToAffineLoops/TensorLinalgToAffineLoops.cpp
+++ b/lib/Transforms/TensorLinalgToAffineLoops/TensorLinalgToAffineLoops.cpp
@@ -59,11 +59,16 @@ static SmallVector<Value> makeCanonicalAffineApplies(OpBuilder& b, Location loc,
 
 static SmallVector<Value> inlineRegionAndEmitStore(
     OpBuilder& b, Location loc, LinalgOp op, ArrayRef<Value> indexedValues,
-    ArrayRef<SmallVector<Value>> indexing, ValueRange outputBuffers) {
+    ArrayRef<SmallVector<Value>> indexing, ValueRange outputBuffers,
+    ArrayRef<Value> allIvs) {
   auto& block = op->getRegion(0).front();
   IRMapping map;
   map.map(block.getArguments(), indexedValues);
   for (auto& op : block.without_terminator()) {
+    if (auto indexOp = dyn_cast<linalg::IndexOp>(op)) {
+      map.map(indexOp.getResult(), allIvs[indexOp.getDim()]);
+      continue;
+    }
     auto* newOp = b.clone(op, map);
     map.map(op.getResults(), newOp->getResults());
   }
@@ -126,7 +131,7 @@ static SmallVector<Value> emitScalarImplementation(OpBuilder& b, Location loc,
         allIvsPlusDims));
   }
   return inlineRegionAndEmitStore(b, loc, linalgOp, indexedValues, indexing,
-                                  iterArgs);
+                                  iterArgs, allIvs);
 }
 
 static AffineForOp buildAffineLoopFromConstants(
-- 
2.43.0


From 790079e9c33ad11730eda0ca77d582643601476e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:36 +0000
Subject: [PATCH 38/71] fix: convert-elementwise-to-affine failed on rank-0
 tensors

---
 lib/Transforms/ElementwiseToAffine/ElementwiseToAffine.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/Transforms/ElementwiseToAffine/ElementwiseToAffine.cpp b/lib/Transforms/ElementwiseToAffine/ElementwiseToAffine.cpp
index 1150626..addf106 100644
--- a/lib/Transforms/ElementwiseToAffine/ElementwiseToAffine.cpp
+++ b/lib/Transforms/ElementwiseToAffine/ElementwiseToAffine.cpp
@@ -238,6 +238,12 @@ struct ConvertAnyElementwiseMappableOpOnRankedTensors : public RewritePattern {
         rewriter, op->getLoc(), scalarOp->getResult(tensorResultIndex), target,
         indices);
 
+    // A rank-0 tensor needs no loop.
+    if (rank == 0) {
+      rewriter.replaceOp(op, inserted);
+      return success();
+    }
+
     // replace lingalg.yield scalarOp with affine.yield insertedOp
     affine::AffineYieldOp::create(rewriter, op->getLoc(), inserted);
     return success();
-- 
2.43.0


From bb5e2b2354c80836e7bbbd807e814b837fceace7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:22 +0000
Subject: [PATCH 39/71] fix: mod_arith canonicalization looped on constants and
 crashed on containers

---
 .../ModArith/IR/ModArithCanonicalization.td   | 50 +++++++++++++++----
 1 file changed, 39 insertions(+), 11 deletions(-)

diff --git a/lib/Dialect/ModArith/IR/ModArithCanonicalization.td b/lib/Dialect/ModArith/IR/ModArithCanonicalization.td
index a361da9..0a0695d 100644
--- a/lib/Dialect/ModArith/IR/ModArithCanonicalization.td
+++ b/lib/Dialect/ModArith/IR/ModArithCanonicalization.td
@@ -13,6 +13,12 @@ def IsOne : Constraint<CPred<"isa<IntegerAttr>($0) && cast<IntegerAttr>($0).getV
 
 def IsMinusOne : Constraint<CPred<"isa<IntegerAttr>($1) && cast<IntegerAttr>($1).getValue().zextOrTrunc(cast<ModArithType>($0.getType()).getModulus().getValue().getBitWidth()) == cast<ModArithType>($0.getType()).getModulus().getValue() - APInt(cast<ModArithType>($0.getType()).getModulus().getValue().getBitWidth(), 1)">>;
 
+// Reassociation patterns gather constants around a non-constant operand; if all
+// operands are constant, they would undo each other indefinitely.
+def IsNotConstant : Constraint<CPred<"!$0.getDefiningOp<ConstantOp>()">>;
+
+def IsScalar : Constraint<CPred<"isa<ModArithType>($0.getType())">>;
+
 def CreateZeroConstant : NativeCodeCall<
    "ConstantOp::create($_builder, $0.getLoc(), dyn_cast<ModArithType>($0.getType()), IntegerAttr::get(dyn_cast<ModArithType>($0.getType()).getModulus().getType(), 0));">
   ;
@@ -65,7 +71,9 @@ def AddAddConstant : Pat<
     (ModArith_AddOp
       $c0,
       $c1)),
-  []
+  [
+    (IsNotConstant $x),
+  ]
 >;
 
 // add (sub (x, c0), c1) -> add (x, c1 - c0)
@@ -80,7 +88,9 @@ def AddSubConstantRHS : Pat<
     (ModArith_SubOp
       $c1,
       $c0)),
-  []
+  [
+    (IsNotConstant $x),
+  ]
 >;
 
 // add(sub(c0, x), c1) -> sub(c0 + c1, x)
@@ -95,7 +105,9 @@ def AddSubConstantLHS : Pat<
       $c0,
       $c1),
     $x),
-  []
+  [
+    (IsNotConstant $x),
+  ]
 >;
 
 // add(x, mul(y, (modulus - 1))) -> sub(x, y)
@@ -172,7 +184,9 @@ def MulMulConstant : Pat<
     (ModArith_MulOp
       $c0,
       $c1)),
-  []
+  [
+    (IsNotConstant $x),
+  ]
 >;
 
 // sub(add(x, c0), c1) -> add(x, c0 - c1)
@@ -187,7 +201,9 @@ def SubRHSAddConstant : Pat<
     (ModArith_SubOp
       $c0,
       $c1)),
-  []
+  [
+    (IsNotConstant $x),
+  ]
 >;
 
 // sub(c1, add(x, c0)) -> sub(c1 - c0, x)
@@ -202,7 +218,9 @@ def SubLHSAddConstant : Pat<
       $c1,
       $c0),
     $x),
-  []
+  [
+    (IsNotConstant $x),
+  ]
 >;
 
 // sub(sub(x, c0), c1) -> sub(x, c0 + c1)
@@ -217,7 +235,9 @@ def SubRHSSubConstantRHS : Pat<
     (ModArith_AddOp
       $c0,
       $c1)),
-  []
+  [
+    (IsNotConstant $x),
+  ]
 >;
 
 // sub(sub(c0, x), c1) -> sub(c0 - c1, x)
@@ -232,7 +252,9 @@ def SubRHSSubConstantLHS : Pat<
       $c0,
       $c1),
     $x),
-  []
+  [
+    (IsNotConstant $x),
+  ]
 >;
 
 // sub(c1, sub(x, c0)) -> sub(c0 + c1, x)
@@ -247,7 +269,9 @@ def SubLHSSubConstantRHS : Pat<
       $c0,
       $c1),
     $x),
-  []
+  [
+    (IsNotConstant $x),
+  ]
 >;
 
 // sub(c1, sub(c0, x)) -> add(x, c1 - c0)
@@ -262,7 +286,9 @@ def SubLHSSubConstantLHS : Pat<
     (ModArith_SubOp
       $c1,
       $c0)),
-  []
+  [
+    (IsNotConstant $x),
+  ]
 >;
 
 // sub(sub(a, b), a) -> sub(0, b)
@@ -275,7 +301,9 @@ def SubSubLHSRHSLHS : Pat<
   (ModArith_SubOp
     (CreateZeroConstant $a),
     $b),
-  []
+  [
+    (IsScalar $a),
+  ]
 >;
 
 #endif  // LIB_DIALECT_MODARITH_IR_MODARITHCANONICALIZATION_TD_
-- 
2.43.0


From 74500c55b7f4a2532e2fc74d2ad74def765051a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:22 +0000
Subject: [PATCH 40/71] fix: mixed radix coefficients used the wrong modulus
 from three limbs on

---
 lib/Dialect/RNS/IR/RNSOps.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/lib/Dialect/RNS/IR/RNSOps.cpp b/lib/Dialect/RNS/IR/RNSOps.cpp
index eb9085c..923cb1d 100644
--- a/lib/Dialect/RNS/IR/RNSOps.cpp
+++ b/lib/Dialect/RNS/IR/RNSOps.cpp
@@ -79,8 +79,21 @@ FailureOr<SmallVector<Value>> computeMixedRadixCoeffs(
     Value temp = mod_arith::EncapsulateOp::create(b, limbTy, mrcs[i - 1]);
     temp = mod_arith::ReduceOp::create(b, limbTy, temp);
     if (i > 1) {
-      Value qjConst =
-          mod_arith::ConstantOp::create(b, limbTy, limbTy.getModulus());
+      // The factors are the moduli of the preceding limbs, mod q_i.
+      APInt qi = limbTy.getModulus().getValue();
+      SmallVector<Value> qjConsts;
+      for (int j = 0; j < i - 1; j++) {
+        auto qjTy = cast<mod_arith::ModArithType>(rnsTy.getBasisTypes()[j]);
+        IntegerAttr qjAttr =
+            IntegerAttr::get(limbTy.getModulus().getType(),
+                             qjTy.getModulus().getValue().urem(qi));
+        qjConsts.push_back(mod_arith::ConstantOp::create(b, limbTy, qjAttr));
+      }
+      Value qjConstsTensor = tensor::FromElementsOp::create(
+          b,
+          RankedTensorType::get({static_cast<int64_t>(qjConsts.size())},
+                                limbTy),
+          qjConsts);
       RankedTensorType tensorTy =
           RankedTensorType::get({static_cast<int64_t>(mrcs.size())}, intType);
       Value mrcsTensor = tensor::FromElementsOp::create(b, tensorTy, mrcs);
@@ -95,6 +108,8 @@ FailureOr<SmallVector<Value>> computeMixedRadixCoeffs(
             ImplicitLocOpBuilder b(nestedLoc, nestedBuilder);
             Value j = arith::SubIOp::create(b, upper, index);
 
+            Value qjConst =
+                tensor::ExtractOp::create(b, qjConstsTensor, ValueRange{j});
             // reduce c_j mod q_i
             Value cj = tensor::ExtractOp::create(b, mrcsTensor, ValueRange{j});
             Value reducedCj = mod_arith::EncapsulateOp::create(b, limbTy, cj);
-- 
2.43.0


From d77ef0c113b2282c3bfd58b77cceccc75f4c21ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:22 +0000
Subject: [PATCH 41/71] fix: mod_switch lowering failed for tensors and for
 residues as wide as the source

---
 .../ModArithToArith/ModArithToArith.cpp       | 34 ++++++++++++++-----
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/lib/Dialect/ModArith/Conversions/ModArithToArith/ModArithToArith.cpp b/lib/Dialect/ModArith/Conversions/ModArithToArith/ModArithToArith.cpp
index 71ae178..d094371 100644
--- a/lib/Dialect/ModArith/Conversions/ModArithToArith/ModArithToArith.cpp
+++ b/lib/Dialect/ModArith/Conversions/ModArithToArith/ModArithToArith.cpp
@@ -454,18 +454,33 @@ struct ConvertModSwitch : public OpConversionPattern<ModSwitchOp> {
 
   using OpConversionPattern::OpConversionPattern;
 
-  auto getInteger(ImplicitLocOpBuilder* b, IntegerType integerType) const {
+  auto getInteger(ImplicitLocOpBuilder* b, Type integerType) const {
     return [=](const APInt& value) mutable {
-      return b->create<arith::ConstantOp>(IntegerAttr::get(integerType, value));
+      return b->create<arith::ConstantOp>(
+          getScalarOrDenseAttr(integerType, value));
     };
   }
 
+  // The integer type of the given width, in the same container as `type`.
+  static Type getIntegerLike(Type type, unsigned width) {
+    auto integerType = IntegerType::get(type.getContext(), width);
+    if (auto shapedType = dyn_cast<ShapedType>(type)) {
+      return shapedType.clone(integerType);
+    }
+    return integerType;
+  }
+
   LogicalResult matchAndRewrite(
       ModSwitchOp op, OpAdaptor adaptor,
       ConversionPatternRewriter& rewriter) const override {
     ImplicitLocOpBuilder b(op.getLoc(), rewriter);
-    auto inputType = op.getInput().getType();
-    auto outputType = op.getOutput().getType();
+    auto inputType = getElementTypeOrSelf(op.getInput().getType());
+    auto outputType = getElementTypeOrSelf(op.getOutput().getType());
+    if (isa<ShapedType>(op.getInput().getType()) &&
+        !(isa<ModArithType>(inputType) && isa<ModArithType>(outputType))) {
+      return rewriter.notifyMatchFailure(
+          op, "unsupported conversion of a container from or to RNS");
+    }
     if (auto inputModArith = dyn_cast<ModArithType>(inputType)) {
       if (auto outputModArith = dyn_cast<ModArithType>(outputType)) {
         auto oldModulus = inputModArith.getModulus().getValue();
@@ -473,7 +488,7 @@ struct ConvertModSwitch : public OpConversionPattern<ModSwitchOp> {
         auto oldWidth = oldModulus.getBitWidth();
         auto newWidth = newModulus.getBitWidth();
         auto width = std::max(oldWidth, newWidth);
-        auto integerType = IntegerType::get(op.getContext(), width);
+        auto integerType = getIntegerLike(op.getInput().getType(), width);
         auto intConst = getInteger(&b, integerType);
         oldModulus = oldModulus.zext(width);
         newModulus = newModulus.zext(width);
@@ -491,7 +506,7 @@ struct ConvertModSwitch : public OpConversionPattern<ModSwitchOp> {
             arith::RemUIOp::create(b, remuAdd, intConst(newModulus));
         Value result = arith::SelectOp::create(b, cmp, remu, remuAddMod);
         if (newWidth < oldWidth) {
-          auto outputType = IntegerType::get(op.getContext(), newWidth);
+          auto outputType = getIntegerLike(op.getOutput().getType(), newWidth);
           result = arith::TruncIOp::create(b, outputType, result);
         }
         rewriter.replaceOp(op, result);
@@ -511,8 +526,11 @@ struct ConvertModSwitch : public OpConversionPattern<ModSwitchOp> {
           modulus = modulus.zext(modWidth);
           auto cmod = intConst(modulus);
           auto remu = arith::RemUIOp::create(b, adaptor.getInput(), cmod);
-          auto trunci = arith::TruncIOp::create(b, rnsIntegerType, remu);
-          rnsElements.push_back(trunci);
+          Value residue = remu;
+          if (rnsWidth < modWidth) {
+            residue = arith::TruncIOp::create(b, rnsIntegerType, remu);
+          }
+          rnsElements.push_back(residue);
         }
         auto tensor =
             tensor::FromElementsOp::create(b, ValueRange(rnsElements));
-- 
2.43.0


From 3e8b59858c9e36324e653534a963b0bc5891e8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:45 +0000
Subject: [PATCH 42/71] fix: reduce polynomial constants and leading
 coefficients before narrowing them

Coefficients wider than the storage were truncated before they were reduced,
negative leading coefficients had no inverse, constants of too large a degree
were written out of bounds, and to_tensor of a block argument crashed.
---
 .../PolynomialToModArith.cpp                  | 70 +++++++++++--------
 1 file changed, 40 insertions(+), 30 deletions(-)

diff --git a/lib/Dialect/Polynomial/Conversions/PolynomialToModArith/PolynomialToModArith.cpp b/lib/Dialect/Polynomial/Conversions/PolynomialToModArith/PolynomialToModArith.cpp
index 278d7ba..ae5de3a 100644
--- a/lib/Dialect/Polynomial/Conversions/PolynomialToModArith/PolynomialToModArith.cpp
+++ b/lib/Dialect/Polynomial/Conversions/PolynomialToModArith/PolynomialToModArith.cpp
@@ -181,9 +181,14 @@ Value getConstantCoefficient(Type type, int64_t value,
       });
 }
 
-std::pair<APInt, APInt> extendWidthsToLargest(const APInt& a, const APInt& b) {
-  unsigned width = std::max(a.getBitWidth(), b.getBitWidth());
-  return {a.zextOrTrunc(width), b.zextOrTrunc(width)};
+// The representative in [0, modulus) of a (signed) value, in a width that holds
+// both of them.
+APInt reduceModulo(const APInt& value, const APInt& modulus) {
+  unsigned width = std::max(value.getBitWidth(), modulus.getBitWidth());
+  APInt wideModulus = modulus.zext(width);
+  APInt residue = value.sext(width).srem(wideModulus);
+  if (residue.isNegative()) residue += wideModulus;
+  return residue;
 }
 
 class PolynomialToModArithTypeConverter : public TypeConverter {
@@ -255,7 +260,7 @@ struct ConvertToTensor : public OpConversionPattern<ToTensorOp> {
   LogicalResult matchAndRewrite(
       ToTensorOp op, OpAdaptor adaptor,
       ConversionPatternRewriter& rewriter) const override {
-    rewriter.replaceOp(op, adaptor.getOperands()[0].getDefiningOp());
+    rewriter.replaceOp(op, adaptor.getInput());
     return success();
   }
 };
@@ -308,6 +313,18 @@ struct ConvertConstant : public OpConversionPattern<ConstantOp> {
     if (!attr)
       return rewriter.notifyMatchFailure(op,
                                          "expected typed int polynomial attr");
+    // WARNING: if you don't store the IntPolynomial as an intermediate value
+    // before iterating over the terms, you will get a use-after-free bug. See
+    // the "Temporary range expression" section in
+    // https://en.cppreference.com/w/cpp/language/range-for
+    const IntPolynomial& poly = attr.getValue().getPolynomial();
+    for (const auto& term : poly.getTerms()) {
+      if (term.getExponent().getSExtValue() >=
+          typeInfo.tensorType.getShape()[0]) {
+        return rewriter.notifyMatchFailure(
+            op, "constant is not reduced modulo the polynomial modulus");
+      }
+    }
     SmallVector<Attribute> coeffs;
     Type eltStorageType = typeInfo.coefficientStorageType;
 
@@ -315,7 +332,6 @@ struct ConvertConstant : public OpConversionPattern<ConstantOp> {
     // degree-by-limb tensor and reduce each integer polynomial coefficient
     // separately in every residue modulus.
     if (auto rnsTy = dyn_cast<RNSType>(typeInfo.coefficientType)) {
-      const IntPolynomial& poly = attr.getValue().getPolynomial();
       int64_t degree = typeInfo.tensorType.getShape()[0];
       int64_t numLimbs = rnsTy.getBasisTypes().size();
       auto storageTensorType =
@@ -327,11 +343,9 @@ struct ConvertConstant : public OpConversionPattern<ConstantOp> {
         for (auto [limbIndex, basisType] :
              llvm::enumerate(rnsTy.getBasisTypes())) {
           APInt modulus = cast<ModArithType>(basisType).getModulus().getValue();
-          APInt residue = term.getCoefficient()
-                              .sextOrTrunc(modulus.getBitWidth())
-                              .srem(modulus);
-          if (residue.isNegative()) residue += modulus;
-          residues[coefficientIndex * numLimbs + limbIndex] = residue;
+          residues[coefficientIndex * numLimbs + limbIndex] =
+              reduceModulo(term.getCoefficient(), modulus)
+                  .trunc(modulus.getBitWidth());
         }
       }
       auto constOp = arith::ConstantOp::create(
@@ -353,11 +367,6 @@ struct ConvertConstant : public OpConversionPattern<ConstantOp> {
       coeffs.push_back(IntegerAttr::get(eltStorageType, 0));
     }
 
-    // WARNING: if you don't store the IntPolynomial as an intermediate value
-    // before iterating over the terms, you will get a use-after-free bug. See
-    // the "Temporary range expression" section in
-    // https://en.cppreference.com/w/cpp/language/range-for
-    const IntPolynomial& poly = attr.getValue().getPolynomial();
     for (const auto& term : poly.getTerms()) {
       int64_t idx = term.getExponent().getSExtValue();
       APInt coeff = term.getCoefficient();
@@ -369,16 +378,13 @@ struct ConvertConstant : public OpConversionPattern<ConstantOp> {
       if (auto modArithType =
               getSingleResidueModArithType(typeInfo.coefficientType)) {
         APInt modulus = (*modArithType).getModulus().getValue();
-        // APInt srem gives remainder with sign matching the sign of the
-        // context argument (here, it's the sign of coeff)
-        coeff = coeff.sextOrTrunc(modulus.getBitWidth()).srem(modulus);
-        if (coeff.isNegative()) {
-          // We need to add the modulus to get the positive remainder.
-          coeff += modulus;
-        }
-        assert(coeff.sge(0));
+        // Reduce before narrowing, the coefficient may be wider than the
+        // modulus.
+        coeff = reduceModulo(coeff, modulus);
       }
-      coeffs[idx] = IntegerAttr::get(eltStorageType, coeff.getSExtValue());
+      coeffs[idx] = IntegerAttr::get(
+          eltStorageType,
+          coeff.sextOrTrunc(eltStorageType.getIntOrFloatBitWidth()));
     }
 
     return llvm::TypeSwitch<Type, LogicalResult>(typeInfo.coefficientType)
@@ -1178,9 +1184,11 @@ func::FuncOp PolynomialToModArith::buildPolynomialModFunc(FunctionType funcType,
     inverses.reserve(rnsTy.getBasisTypes().size());
     for (Type basisType : rnsTy.getBasisTypes()) {
       auto modTy = cast<ModArithType>(basisType);
-      auto [leadingCoef, coeffMod] =
-          extendWidthsToLargest(rawLeadingCoef, modTy.getModulus().getValue());
-      APInt inverse = multiplicativeInverse(leadingCoef, coeffMod);
+      APInt leadingCoef =
+          reduceModulo(rawLeadingCoef, modTy.getModulus().getValue());
+      APInt inverse = multiplicativeInverse(
+          leadingCoef,
+          modTy.getModulus().getValue().zext(leadingCoef.getBitWidth()));
       // Returning zero means no inverse was found.
       if (inverse.isZero()) signalPassFailure();
       inverses.push_back(
@@ -1194,9 +1202,11 @@ func::FuncOp PolynomialToModArith::buildPolynomialModFunc(FunctionType funcType,
         mod_arith::EncapsulateOp::create(builder, rnsTy, storageCst);
   } else {
     auto modTy = cast<ModArithType>(coeffTy);
-    auto [leadingCoef, coeffMod] =
-        extendWidthsToLargest(rawLeadingCoef, modTy.getModulus().getValue());
-    APInt inverse = multiplicativeInverse(leadingCoef, coeffMod);
+    APInt leadingCoef =
+        reduceModulo(rawLeadingCoef, modTy.getModulus().getValue());
+    APInt inverse = multiplicativeInverse(
+        leadingCoef,
+        modTy.getModulus().getValue().zext(leadingCoef.getBitWidth()));
     if (inverse.isZero()) signalPassFailure();
     divisorLcInverse =
         getConstantCoefficient(coeffTy, inverse.getSExtValue(), builder);
-- 
2.43.0


From 094f0cf75e01a4b2c35a612394ed39dbbb439317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:45 +0000
Subject: [PATCH 43/71] fix: fold polynomial products and transforms in the
 order and ring they denote

Folded NTTs used the bit-reversed order of the evaluations while the lowering
uses the natural one, products of constants were always reduced modulo x^n + 1,
and coefficients wider than the modulus were truncated before reduction.
---
 lib/Dialect/Polynomial/IR/BUILD             |  1 +
 lib/Dialect/Polynomial/IR/PolynomialOps.cpp | 60 ++++++++++++++++++---
 2 files changed, 54 insertions(+), 7 deletions(-)

diff --git a/lib/Dialect/Polynomial/IR/BUILD b/lib/Dialect/Polynomial/IR/BUILD
index 45617f7..1e7f28c 100644
--- a/lib/Dialect/Polynomial/IR/BUILD
+++ b/lib/Dialect/Polynomial/IR/BUILD
@@ -25,6 +25,7 @@ cc_library(
         "@heir//lib/Dialect/ModArith/IR:Dialect",
         "@heir//lib/Dialect/RNS/IR:Dialect",
         "@heir//lib/Utils/Polynomial",
+        "@heir//lib/Utils/Polynomial:NTT",
         "@llvm-project//llvm:Support",
         "@llvm-project//mlir:ArithDialect",
         "@llvm-project//mlir:BytecodeOpInterface",
diff --git a/lib/Dialect/Polynomial/IR/PolynomialOps.cpp b/lib/Dialect/Polynomial/IR/PolynomialOps.cpp
index 976b55f..bd135bd 100644
--- a/lib/Dialect/Polynomial/IR/PolynomialOps.cpp
+++ b/lib/Dialect/Polynomial/IR/PolynomialOps.cpp
@@ -15,11 +15,13 @@
 #include "lib/Dialect/RNS/IR/RNSAttributes.h"
 #include "lib/Dialect/RNS/IR/RNSOps.h"
 #include "lib/Dialect/RNS/IR/RNSTypes.h"
+#include "lib/Utils/Polynomial/NTT.h"
 #include "lib/Utils/Polynomial/Polynomial.h"
 #include "lib/Utils/Polynomial/RNSPolynomial.h"
 #include "llvm/include/llvm/ADT/APInt.h"                 // from @llvm-project
 #include "llvm/include/llvm/ADT/TypeSwitch.h"            // from @llvm-project
 #include "llvm/include/llvm/Support/ErrorHandling.h"     // from @llvm-project
+#include "llvm/include/llvm/Support/MathExtras.h"        // from @llvm-project
 #include "mlir/include/mlir/IR/Attributes.h"             // from @llvm-project
 #include "mlir/include/mlir/IR/Builders.h"               // from @llvm-project
 #include "mlir/include/mlir/IR/BuiltinTypeInterfaces.h"  // from @llvm-project
@@ -757,9 +759,12 @@ static std::optional<RNSPolynomial> getSingleLimbRNSPolynomial(
     uint64_t exponent = term.getExponent().getZExtValue();
     if (exponent >= degree) return std::nullopt;
 
-    APInt coeff = term.getCoefficient().sextOrTrunc(modulus.getBitWidth());
-    coeff = coeff.srem(modulus);
-    if (coeff.isNegative()) coeff += modulus;
+    // Reduce before narrowing, the coefficient may be wider than the modulus.
+    APInt coeff = term.getCoefficient();
+    unsigned width = std::max(coeff.getBitWidth(), modulus.getBitWidth());
+    APInt wideModulus = modulus.zext(width);
+    coeff = coeff.sext(width).srem(wideModulus);
+    if (coeff.isNegative()) coeff += wideModulus;
     data[exponent] = coeff.getZExtValue();
   }
 
@@ -767,6 +772,39 @@ static std::optional<RNSPolynomial> getSingleLimbRNSPolynomial(
                        attr.getRepresentation());
 }
 
+// The value of an evaluation-form polynomial lists the evaluations in their
+// natural order, but RNSPolynomial's transforms use the bit-reversed order. The
+// permutation between the two orders is its own inverse.
+static RNSPolynomial permuteBitReversed(const RNSPolynomial& poly) {
+  unsigned numCoeffs = poly.getNumCoeffs();
+  // The transforms refuse other sizes.
+  if (!llvm::isPowerOf2_32(numCoeffs)) return poly;
+  unsigned numBits = llvm::Log2_32(numCoeffs);
+  SmallVector<uint64_t> data;
+  data.reserve(poly.getData().size());
+  for (size_t limb = 0; limb < poly.getNumLimbs(); ++limb) {
+    for (unsigned i = 0; i < numCoeffs; ++i) {
+      data.push_back(poly.getElement(limb, reverseBits(i, numBits)));
+    }
+  }
+  return RNSPolynomial(
+      std::move(data),
+      SmallVector<uint64_t>(poly.getModuli().begin(), poly.getModuli().end()),
+      poly.getRepresentation());
+}
+
+// RNSPolynomial multiplies polynomials in coefficient form modulo x^n + 1.
+static bool hasNegacyclicModulus(Type type) {
+  auto polyType = dyn_cast<PolynomialType>(type);
+  if (!polyType) return false;
+  IntPolynomialAttr polyMod = polyType.getRing().getPolynomialModulus();
+  if (!polyMod) return false;
+  ArrayRef<IntMonomial> terms = polyMod.getPolynomial().getTerms();
+  return terms.size() == 2 && terms.front().getExponent().isZero() &&
+         terms.front().getCoefficient().isOne() &&
+         terms.back().getCoefficient().isOne();
+}
+
 static TypedIntPolynomialAttr getTypedIntPolynomialAttr(
     MLIRContext* context, ArrayRef<uint64_t> coeffs, Type resultType) {
   SmallVector<IntMonomial> monomials;
@@ -1078,6 +1116,10 @@ OpFoldResult MulOp::fold(FoldAdaptor adaptor) {
     if (lhsPoly.getRepresentation() != rhsPoly.getRepresentation()) {
       return nullptr;
     }
+    if (lhsPoly.getRepresentation() == Form::COEFF &&
+        !hasNegacyclicModulus(getResult().getType())) {
+      return nullptr;
+    }
 
     std::optional<RNSPolynomial> resultPolyOpt = lhsPoly.mul(rhsPoly);
     if (!resultPolyOpt) return nullptr;
@@ -1104,6 +1146,10 @@ OpFoldResult MulOp::fold(FoldAdaptor adaptor) {
     auto lhs = getSingleLimbRNSPolynomial(lhsIntAttr, lhsPoly);
     auto rhs = getSingleLimbRNSPolynomial(rhsIntAttr, rhsPoly);
     if (lhs && rhs) {
+      if (lhsIntAttr.getRepresentation() == Form::COEFF &&
+          !hasNegacyclicModulus(getResult().getType())) {
+        return nullptr;
+      }
       std::optional<RNSPolynomial> resultOpt = lhs->mul(*rhs);
       if (!resultOpt) return nullptr;
       RNSPolynomial result = *resultOpt;
@@ -1132,7 +1178,7 @@ OpFoldResult NTTOp::fold(FoldAdaptor adaptor) {
     RNSPolynomial poly = inputAttr.getPolynomial();
     std::optional<RNSPolynomial> resultPolyOpt = poly.toNtt(rnsRootAttr);
     if (!resultPolyOpt) return nullptr;
-    RNSPolynomial resultPoly = *resultPolyOpt;
+    RNSPolynomial resultPoly = permuteBitReversed(*resultPolyOpt);
 
     auto resultType = getResult().getType();
     auto elementType = inputAttr.getCoefficients().getElementType();
@@ -1159,7 +1205,7 @@ OpFoldResult NTTOp::fold(FoldAdaptor adaptor) {
       modArithRootAttr.getValue().getValue().getZExtValue()};
   std::optional<RNSPolynomial> resultPolyOpt = poly->toNtt(roots);
   if (!resultPolyOpt) return nullptr;
-  RNSPolynomial resultPoly = *resultPolyOpt;
+  RNSPolynomial resultPoly = permuteBitReversed(*resultPolyOpt);
   return getTypedIntPolynomialAttr(getContext(), resultPoly.getData(),
                                    getResult().getType());
 }
@@ -1173,7 +1219,7 @@ OpFoldResult INTTOp::fold(FoldAdaptor adaptor) {
     auto rnsRootAttr = dyn_cast<rns::RNSAttr>(rootAttr->getValue());
     if (!rnsRootAttr) return nullptr;
 
-    RNSPolynomial poly = inputAttr.getPolynomial();
+    RNSPolynomial poly = permuteBitReversed(inputAttr.getPolynomial());
     std::optional<RNSPolynomial> resultPolyOpt =
         poly.toCoefficient(rnsRootAttr);
     if (!resultPolyOpt) return nullptr;
@@ -1202,7 +1248,7 @@ OpFoldResult INTTOp::fold(FoldAdaptor adaptor) {
   if (!poly) return nullptr;
   SmallVector<uint64_t> roots = {
       modArithRootAttr.getValue().getValue().getZExtValue()};
-  std::optional<RNSPolynomial> resultPolyOpt = poly->toCoefficient(roots);
+  std::optional<RNSPolynomial> resultPolyOpt = permuteBitReversed(*poly).toCoefficient(roots);
   if (!resultPolyOpt) return nullptr;
   RNSPolynomial resultPoly = *resultPolyOpt;
   return getTypedIntPolynomialAttr(getContext(), resultPoly.getData(),
-- 
2.43.0


From 7a984843a0f226204e6f8c722314869fa13b06f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:51 +0000
Subject: [PATCH 44/71] fix: do not fold RNS polynomials outside x^n + 1 or
 with overflowing products

---
 lib/Dialect/Polynomial/IR/PolynomialOps.cpp | 33 +++++++++++++--------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/lib/Dialect/Polynomial/IR/PolynomialOps.cpp b/lib/Dialect/Polynomial/IR/PolynomialOps.cpp
index bd135bd..479d914 100644
--- a/lib/Dialect/Polynomial/IR/PolynomialOps.cpp
+++ b/lib/Dialect/Polynomial/IR/PolynomialOps.cpp
@@ -627,6 +627,19 @@ LogicalResult ApplyCoefficientwiseOp::verify() {
 
 OpFoldResult ConstantOp::fold(FoldAdaptor adaptor) { return getValue(); }
 
+// RNSPolynomial multiplies polynomials in coefficient form modulo x^n + 1, and
+// its attribute exists only for such rings.
+static bool hasNegacyclicModulus(Type type) {
+  auto polyType = dyn_cast<PolynomialType>(type);
+  if (!polyType) return false;
+  IntPolynomialAttr polyMod = polyType.getRing().getPolynomialModulus();
+  if (!polyMod) return false;
+  ArrayRef<IntMonomial> terms = polyMod.getPolynomial().getTerms();
+  return terms.size() == 2 && terms.front().getExponent().isZero() &&
+         terms.front().getCoefficient().isOne() &&
+         terms.back().getCoefficient().isOne();
+}
+
 OpFoldResult MonomialOp::fold(FoldAdaptor adaptor) {
   auto degreeAttr = dyn_cast_or_null<IntegerAttr>(adaptor.getDegree());
   if (!degreeAttr) return nullptr;
@@ -647,7 +660,7 @@ OpFoldResult MonomialOp::fold(FoldAdaptor adaptor) {
     if (!rnsType || coefficientAttr.getType() != rnsType) return nullptr;
 
     auto polyModAttr = polyType.getRing().getPolynomialModulus();
-    if (!polyModAttr) return nullptr;
+    if (!polyModAttr || !hasNegacyclicModulus(polyType)) return nullptr;
 
     uint64_t numCoeffs = polyModAttr.getPolynomial().getDegree();
     uint64_t degreeValue = degree.getZExtValue();
@@ -793,18 +806,6 @@ static RNSPolynomial permuteBitReversed(const RNSPolynomial& poly) {
       poly.getRepresentation());
 }
 
-// RNSPolynomial multiplies polynomials in coefficient form modulo x^n + 1.
-static bool hasNegacyclicModulus(Type type) {
-  auto polyType = dyn_cast<PolynomialType>(type);
-  if (!polyType) return false;
-  IntPolynomialAttr polyMod = polyType.getRing().getPolynomialModulus();
-  if (!polyMod) return false;
-  ArrayRef<IntMonomial> terms = polyMod.getPolynomial().getTerms();
-  return terms.size() == 2 && terms.front().getExponent().isZero() &&
-         terms.front().getCoefficient().isOne() &&
-         terms.back().getCoefficient().isOne();
-}
-
 static TypedIntPolynomialAttr getTypedIntPolynomialAttr(
     MLIRContext* context, ArrayRef<uint64_t> coeffs, Type resultType) {
   SmallVector<IntMonomial> monomials;
@@ -1159,6 +1160,12 @@ OpFoldResult MulOp::fold(FoldAdaptor adaptor) {
 
     if (lhsIntAttr.getRepresentation() != Form::COEFF) return nullptr;
 
+    // The integer product may overflow, which is harmless for integer
+    // coefficients only.
+    auto polyType = dyn_cast<PolynomialType>(getResult().getType());
+    if (!polyType || !isa<IntegerType>(polyType.getRing().getCoefficientType()))
+      return nullptr;
+
     IntPolynomial result = lhsPoly.naiveMul(rhsPoly);
     return TypedIntPolynomialAttr::get(getResult().getType(), result);
   }
-- 
2.43.0


From 568846ebadb3fd3b2e2642a297b2a3aeccaacd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:08 +0000
Subject: [PATCH 45/71] fix: read negative mod_arith constants as residues

---
 .../ArithToModArith/ArithToModArith.cpp        |  9 +++++++--
 .../ModArithToArith/ModArithToArith.cpp        | 18 ++++++++++++++++--
 lib/Dialect/ModArith/IR/ModArithOps.cpp        | 16 ++++++----------
 lib/Dialect/ModArith/IR/ModArithOps.h          | 13 +++++++++++++
 4 files changed, 42 insertions(+), 14 deletions(-)

diff --git a/lib/Dialect/Arith/Conversions/ArithToModArith/ArithToModArith.cpp b/lib/Dialect/Arith/Conversions/ArithToModArith/ArithToModArith.cpp
index 510a251..f880815 100644
--- a/lib/Dialect/Arith/Conversions/ArithToModArith/ArithToModArith.cpp
+++ b/lib/Dialect/Arith/Conversions/ArithToModArith/ArithToModArith.cpp
@@ -147,8 +147,13 @@ struct ConvertConstant : public OpConversionPattern<mlir::arith::ConstantOp> {
       return rewriter.notifyMatchFailure(op,
                                          "value is not an integer attribute");
     }
-    IntegerAttr newAttr =
-        IntegerAttr::get(storageType, oldAttr.getValue().zextOrTrunc(newWidth));
+    // Integer constants are signed, as the elements of a dense constant above;
+    // only booleans are not.
+    const APInt& oldValue = oldAttr.getValue();
+    IntegerAttr newAttr = IntegerAttr::get(
+        storageType, oldValue.getBitWidth() == 1
+                         ? oldValue.zextOrTrunc(newWidth)
+                         : oldValue.sextOrTrunc(newWidth));
     auto result = mod_arith::ConstantOp::create(b, newResultType, newAttr);
 
     rewriter.replaceOp(op, result);
diff --git a/lib/Dialect/ModArith/Conversions/ModArithToArith/ModArithToArith.cpp b/lib/Dialect/ModArith/Conversions/ModArithToArith/ModArithToArith.cpp
index d094371..63cf221 100644
--- a/lib/Dialect/ModArith/Conversions/ModArithToArith/ModArithToArith.cpp
+++ b/lib/Dialect/ModArith/Conversions/ModArithToArith/ModArithToArith.cpp
@@ -311,8 +311,22 @@ struct ConvertConstant : public OpConversionPattern<ConstantOp> {
   LogicalResult matchAndRewrite(
       ConstantOp op, OpAdaptor adaptor,
       ConversionPatternRewriter& rewriter) const override {
-    auto constOp =
-        arith::ConstantOp::create(rewriter, op.getLoc(), adaptor.getValue());
+    // The lowerings of the other ops assume canonical representatives.
+    auto modType =
+        cast<ModArithType>(getElementTypeOrSelf(op.getOutput().getType()));
+    APInt modulus = modType.getModulus().getValue();
+    auto canonicalize = [&](const APInt& value) {
+      return canonicalResidue(value, modulus);
+    };
+    TypedAttr value = adaptor.getValue();
+    if (auto denseAttr = dyn_cast<DenseIntElementsAttr>(value)) {
+      value = cast<TypedAttr>(
+          denseAttr.mapValues(modType.getModulus().getType(), canonicalize));
+    } else if (auto intAttr = dyn_cast<IntegerAttr>(value)) {
+      value = IntegerAttr::get(modType.getModulus().getType(),
+                               canonicalize(intAttr.getValue()));
+    }
+    auto constOp = arith::ConstantOp::create(rewriter, op.getLoc(), value);
     rewriter.replaceOp(op, constOp);
     return success();
   }
diff --git a/lib/Dialect/ModArith/IR/ModArithOps.cpp b/lib/Dialect/ModArith/IR/ModArithOps.cpp
index 4277688..d2041fe 100644
--- a/lib/Dialect/ModArith/IR/ModArithOps.cpp
+++ b/lib/Dialect/ModArith/IR/ModArithOps.cpp
@@ -358,9 +358,8 @@ OpFoldResult ConstantOp::fold(FoldAdaptor adaptor) {
   if (!modType) return {};
   auto storageType = modType.getModulus().getType();
 
-  // Retrieve the modulus value and its bit width
+  // Retrieve the modulus value
   APInt modulus = modType.getModulus().getValue();
-  unsigned modBitWidth = modulus.getBitWidth();
 
   auto denseElementsAttr = dyn_cast<DenseIntElementsAttr>(adaptor.getValue());
   if (denseElementsAttr) {
@@ -369,7 +368,7 @@ OpFoldResult ConstantOp::fold(FoldAdaptor adaptor) {
     ShapedType shapedType = cast<ShapedType>(getType());
     SmallVector<APInt, 4> values;
     for (const auto value : denseElementsAttr.getValues<APInt>()) {
-      values.push_back(value.zextOrTrunc(modBitWidth).urem(modulus));
+      values.push_back(canonicalResidue(value, modulus));
     }
     // Have to use an integer type here because DenseIntElementsAttr
     // requires integer types.
@@ -383,11 +382,8 @@ OpFoldResult ConstantOp::fold(FoldAdaptor adaptor) {
   // Extract the actual integer values
   APInt cst = intAttr.getValue();
 
-  // Adjust cst's bit width to match modulus if necessary
-  cst = cst.zextOrTrunc(modBitWidth);
-
   // Fold the constant value
-  APInt foldedVal = cst.urem(modulus);
+  APInt foldedVal = canonicalResidue(cst, modulus);
 
   LLVM_DEBUG({
     llvm::dbgs() << "\n";
@@ -436,8 +432,8 @@ Attribute foldScalarModOp(ArrayRef<Attribute> operands,
   // Strict accumulation safety (1 extra bit or more)
   unsigned workWidth = 2 * modBitWidth + 1;
 
-  APInt lw = lhs->zextOrTrunc(modBitWidth).zext(workWidth);
-  APInt rw = rhs->zextOrTrunc(modBitWidth).zext(workWidth);
+  APInt lw = canonicalResidue(*lhs, modulus).zext(workWidth);
+  APInt rw = canonicalResidue(*rhs, modulus).zext(workWidth);
   APInt mw = modulus.zext(workWidth);
 
   APInt res;
@@ -452,7 +448,7 @@ Attribute foldScalarModOp(ArrayRef<Attribute> operands,
       res = lw * rw;
       break;
     case ModOp::Mac: {
-      APInt aw = acc->zextOrTrunc(modBitWidth).zext(workWidth);
+      APInt aw = canonicalResidue(*acc, modulus).zext(workWidth);
       res = aw + (lw * rw);
       break;
     }
diff --git a/lib/Dialect/ModArith/IR/ModArithOps.h b/lib/Dialect/ModArith/IR/ModArithOps.h
index 3a60022..7d818fe 100644
--- a/lib/Dialect/ModArith/IR/ModArithOps.h
+++ b/lib/Dialect/ModArith/IR/ModArithOps.h
@@ -2,10 +2,13 @@
 #define LIB_DIALECT_MODARITH_IR_MODARITHOPS_H_
 
 // IWYU pragma: begin_keep
+#include <algorithm>
+
 #include "lib/Dialect/HEIRInterfaces.h"
 #include "lib/Dialect/ModArith/IR/ModArithDialect.h"
 #include "lib/Dialect/ModArith/IR/ModArithTypeInterfaces.h"
 #include "lib/Dialect/ModArith/IR/ModArithTypes.h"
+#include "llvm/include/llvm/ADT/APInt.h"        // from @llvm-project
 #include "mlir/include/mlir/IR/BuiltinOps.h"    // from @llvm-project
 #include "mlir/include/mlir/IR/BuiltinTypes.h"  // from @llvm-project
 #include "mlir/include/mlir/Interfaces/InferTypeOpInterface.h"  // from @llvm-project
@@ -40,6 +43,16 @@ inline IntegerType getOperandIntegerType(OpType op) {
   return cast<IntegerType>(getElementTypeOrSelf(op.getOperand().getType()));
 }
 
+// The representative in [0, modulus) of a constant, which is signed. Returned at
+// the width of the modulus.
+inline APInt canonicalResidue(const APInt& value, const APInt& modulus) {
+  unsigned width = std::max(value.getBitWidth(), modulus.getBitWidth());
+  APInt m = modulus.zext(width);
+  APInt residue = value.sext(width).srem(m);
+  if (residue.isNegative()) residue += m;
+  return residue.trunc(modulus.getBitWidth());
+}
+
 }  // namespace mod_arith
 }  // namespace heir
 }  // namespace mlir
-- 
2.43.0


From c062d68df68f12626b7bb50145e2f9079d9bac20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:31 +0000
Subject: [PATCH 46/71] fix: keep the secret region rewrites to the region they
 rewrite

Absorbed constants and concealed insertion destinations were also replaced
outside of the region, captured indices lost their affine expressions, and
values already secret were concealed a second time.
---
 lib/Dialect/Secret/IR/SecretPatterns.cpp | 122 +++++++++++++++--------
 1 file changed, 83 insertions(+), 39 deletions(-)

diff --git a/lib/Dialect/Secret/IR/SecretPatterns.cpp b/lib/Dialect/Secret/IR/SecretPatterns.cpp
index d6718e7..eecb1b1 100644
--- a/lib/Dialect/Secret/IR/SecretPatterns.cpp
+++ b/lib/Dialect/Secret/IR/SecretPatterns.cpp
@@ -70,23 +70,46 @@ bool isConstantGlobal(Operation* op) {
   return isa<DenseElementsAttr>(global.getConstantInitValue());
 }
 
-llvm::SmallVector<Value> buildResolvedIndices(Operation* op,
+// Materializes the index an affine expression denotes.
+Value expandIndexExpr(AffineExpr expr, OperandRange opIndices, unsigned numDims,
+                      Location loc, PatternRewriter& rewriter) {
+  if (auto dim = dyn_cast<AffineDimExpr>(expr))
+    return opIndices[dim.getPosition()];
+  if (auto symbol = dyn_cast<AffineSymbolExpr>(expr))
+    return opIndices[numDims + symbol.getPosition()];
+  if (auto constant = dyn_cast<AffineConstantExpr>(expr))
+    return arith::ConstantIndexOp::create(rewriter, loc, constant.getValue());
+
+  auto binary = cast<AffineBinaryOpExpr>(expr);
+  Value lhs =
+      expandIndexExpr(binary.getLHS(), opIndices, numDims, loc, rewriter);
+  Value rhs =
+      expandIndexExpr(binary.getRHS(), opIndices, numDims, loc, rewriter);
+  switch (binary.getKind()) {
+    case AffineExprKind::Add:
+      return arith::AddIOp::create(rewriter, loc, lhs, rhs);
+    case AffineExprKind::Mul:
+      return arith::MulIOp::create(rewriter, loc, lhs, rhs);
+    case AffineExprKind::FloorDiv:
+      return arith::FloorDivSIOp::create(rewriter, loc, lhs, rhs);
+    case AffineExprKind::CeilDiv:
+      return arith::CeilDivSIOp::create(rewriter, loc, lhs, rhs);
+    default: {
+      // a mod b = a - (a floordiv b) * b
+      Value quotient = arith::FloorDivSIOp::create(rewriter, loc, lhs, rhs);
+      Value product = arith::MulIOp::create(rewriter, loc, quotient, rhs);
+      return arith::SubIOp::create(rewriter, loc, lhs, product);
+    }
+  }
+}
+
+llvm::SmallVector<Value> buildResolvedIndices(Operation* op, AffineMap map,
                                               OperandRange opIndices,
                                               PatternRewriter& rewriter) {
-  affine::MemRefAccess access(op);
-  affine::AffineValueMap thisMap;
-  access.getAccessMap(&thisMap);
   llvm::SmallVector<Value> indices;
-  auto indicesIt = opIndices.begin();
-  for (unsigned i = 0; i < access.getRank(); ++i) {
-    auto affineValue = thisMap.getResult(i);
-    if (affineValue.getKind() == AffineExprKind::Constant) {
-      indices.push_back(arith::ConstantIndexOp::create(
-          rewriter, op->getLoc(),
-          cast<AffineConstantExpr>(affineValue).getValue()));
-    } else {
-      indices.push_back(*(indicesIt++));
-    }
+  for (AffineExpr expr : map.getResults()) {
+    indices.push_back(expandIndexExpr(expr, opIndices, map.getNumDims(),
+                                      op->getLoc(), rewriter));
   }
   return indices;
 }
@@ -293,29 +316,6 @@ LogicalResult CaptureAmbientScope::matchAndRewrite(
       Region* operandRegion = operand.getParentRegion();
       if (operandRegion && !genericOp.getRegion().isAncestor(operandRegion)) {
         foundValue = operand;
-        // If this is an index operand of an affine operation, update to memref
-        // ops. Affine dimensions must be block arguments for affine.for or
-        // affine.parallel.
-        if (isa<IndexType>(operand.getType())) {
-          auto point = rewriter.saveInsertionPoint();
-          rewriter.setInsertionPointAfter(op);
-          llvm::TypeSwitch<Operation*>(op)
-              .Case<affine::AffineLoadOp>([&](affine::AffineLoadOp op) {
-                rewriter.replaceOp(
-                    op,
-                    memref::LoadOp::create(
-                        rewriter, op->getLoc(), op.getMemref(),
-                        buildResolvedIndices(op, op.getIndices(), rewriter)));
-              })
-              .Case<affine::AffineStoreOp>([&](affine::AffineStoreOp op) {
-                rewriter.replaceOp(op, memref::StoreOp::create(
-                                           rewriter, op->getLoc(),
-                                           op.getValueToStore(), op.getMemref(),
-                                           buildResolvedIndices(
-                                               op, op.getIndices(), rewriter)));
-              });
-          rewriter.restoreInsertionPoint(point);
-        }
         return WalkResult::interrupt();
       }
     }
@@ -327,6 +327,39 @@ LogicalResult CaptureAmbientScope::matchAndRewrite(
   }
 
   Value value = foundValue;
+  // If this is an index operand of affine operations, update them to memref
+  // ops. Affine dimensions must be block arguments for affine.for or
+  // affine.parallel.
+  if (isa<IndexType>(value.getType())) {
+    SmallVector<Operation*> affineOps;
+    genericOp.getBody()->walk([&](Operation* op) {
+      if (isa<affine::AffineLoadOp, affine::AffineStoreOp>(op) &&
+          llvm::is_contained(op->getOperands(), value)) {
+        affineOps.push_back(op);
+      }
+    });
+    OpBuilder::InsertionGuard guard(rewriter);
+    for (Operation* op : affineOps) {
+      rewriter.setInsertionPointAfter(op);
+      llvm::TypeSwitch<Operation*>(op)
+          .Case<affine::AffineLoadOp>([&](affine::AffineLoadOp op) {
+            rewriter.replaceOp(
+                op, memref::LoadOp::create(
+                        rewriter, op->getLoc(), op.getMemref(),
+                        buildResolvedIndices(op, op.getAffineMap(),
+                                             op.getIndices(), rewriter)));
+          })
+          .Case<affine::AffineStoreOp>([&](affine::AffineStoreOp op) {
+            rewriter.replaceOp(
+                op, memref::StoreOp::create(
+                        rewriter, op->getLoc(), op.getValueToStore(),
+                        op.getMemref(),
+                        buildResolvedIndices(op, op.getAffineMap(),
+                                             op.getIndices(), rewriter)));
+          });
+    }
+  }
+
   rewriter.modifyOpInPlace(genericOp, [&]() {
     BlockArgument newArg =
         genericOp.getBody()->addArgument(value.getType(), genericOp.getLoc());
@@ -634,6 +667,12 @@ bool HoistPlaintextOps::canHoist(Operation& op) const {
     return false;
   }
 
+  // The results of the generic an op is hoisted to would be doubly secret.
+  if (llvm::any_of(op.getResultTypes(),
+                   [](Type type) { return isa<SecretType>(type); })) {
+    return false;
+  }
+
   // Make an exception for function calls that are layout assignments.
   if (!isSpeculatable(&op) && !isCallToPackingHelper(&op)) {
     return false;
@@ -775,7 +814,7 @@ LogicalResult ConcealPlaintextInsert::matchAndRewrite(
           if (!insertOp) {
             return false;
           }
-          return operand.get() == dest;
+          return operand.get() == dest && op->isProperAncestor(insertOp);
         });
         op.getInputsMutable().append(concealedTensor.getResult());
       });
@@ -811,7 +850,12 @@ void genericAbsorbConstants(secret::GenericOp genericOp,
         Region* operandRegion = definingOp->getParentRegion();
         if (operandRegion && !genericOp.getRegion().isAncestor(operandRegion)) {
           auto* copiedOp = rewriter.clone(*definingOp);
-          rewriter.replaceAllUsesWith(operand, copiedOp->getResults());
+          // Uses outside of this generic keep the original constant.
+          rewriter.replaceUsesWithIf(
+              operand, copiedOp->getResult(0), [&](OpOperand& use) {
+                return genericOp.getRegion().isAncestor(
+                    use.getOwner()->getParentRegion());
+              });
           // If this was a block argument, additionally remove the block
           // argument.
           if (isGenericBlockArg) {
-- 
2.43.0


From 430ef1e3f2c8603420996e0451f858060f17171e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:31 +0000
Subject: [PATCH 47/71] fix: distribute secret regions through loops whose
 values are used twice

Loop inputs also used in the loop body, regions yielding values other than the
loop's results, and loops made public again produced invalid code.
---
 .../Secret/Transforms/DistributeGeneric.cpp   | 48 ++++++++++++-------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/lib/Dialect/Secret/Transforms/DistributeGeneric.cpp b/lib/Dialect/Secret/Transforms/DistributeGeneric.cpp
index e454bb8..23b2b73 100644
--- a/lib/Dialect/Secret/Transforms/DistributeGeneric.cpp
+++ b/lib/Dialect/Secret/Transforms/DistributeGeneric.cpp
@@ -410,6 +410,7 @@ struct SplitGeneric : public OpRewritePattern<GenericOp> {
       // If a generic operand is used as a loop iter arg initializer, then the
       // new generic needs to have the (now secret) iter arg as its operand.
       SmallVector<Value> newGenericOperands;
+      DenseMap<Value, unsigned> oldArgToNewIndex;
       for (OpOperand& oldGenericOperand : genericOp->getOpOperands()) {
         auto blockArg = genericOp.getBody()->getArgument(
             oldGenericOperand.getOperandNumber());
@@ -428,8 +429,14 @@ struct SplitGeneric : public OpRewritePattern<GenericOp> {
           ++initIndex;
         }
 
-        if (found) continue;
+        // The loop body may also refer to the initial value itself.
+        bool usedInLoopBody =
+            llvm::any_of(blockArg.getUsers(), [&](Operation* user) {
+              return opToDistribute.isProperAncestor(user);
+            });
+        if (found && !usedInLoopBody) continue;
 
+        oldArgToNewIndex[blockArg] = newGenericOperands.size();
         newGenericOperands.push_back(oldGenericOperand.get());
       }
       // The new generic should also take any newly secretized initial values of
@@ -444,8 +451,8 @@ struct SplitGeneric : public OpRewritePattern<GenericOp> {
           newGenericOperands, loopResultTypes,
           [&](OpBuilder& b, Location loc, ValueRange blockArguments) {
             IRMapping mp;
-            for (BlockArgument blockArg : genericOp.getBody()->getArguments()) {
-              mp.map(blockArg, blockArguments[blockArg.getArgNumber()]);
+            for (auto [blockArg, index] : oldArgToNewIndex) {
+              mp.map(blockArg, blockArguments[index]);
             }
             for (auto [newInit, operand] : newInitsToOperands) {
               mp.map(operand, newInit);
@@ -469,7 +476,7 @@ struct SplitGeneric : public OpRewritePattern<GenericOp> {
             SmallVector<Value, 4> newYieldedValues;
             for (Value oldYieldedValue :
                  clonedLoopBody.getTerminator()->getOperands()) {
-              newYieldedValues.push_back(mp.lookup(oldYieldedValue));
+              newYieldedValues.push_back(mp.lookupOrDefault(oldYieldedValue));
             }
             YieldOp::create(b, loc, newYieldedValues);
           });
@@ -510,13 +517,14 @@ struct SplitGeneric : public OpRewritePattern<GenericOp> {
       // generic body (the loop), so another yielded value must be a block
       // argument.
       SmallVector<Value> replacements;
+      rewriter.setInsertionPoint(genericOp);
       for (Value yieldedValue : genericOp.getYieldOp().getValues()) {
         int loopResultIndex =
             std::find(loop->getOpResults().begin(), loop->getOpResults().end(),
                       yieldedValue) -
             loop->getOpResults().begin();
         // Case 1
-        if (loopResultIndex >= 0) {
+        if (loopResultIndex < static_cast<int>(loop->getNumResults())) {
           replacements.push_back(clonedLoop->getOpResult(loopResultIndex));
           LLVM_DEBUG(llvm::dbgs() << "replacing value " << yieldedValue
                                   << " with " << replacements.back() << "\n");
@@ -525,17 +533,22 @@ struct SplitGeneric : public OpRewritePattern<GenericOp> {
 
         // Case 2
         if (isa<BlockArgument>(yieldedValue)) {
-          replacements.push_back(genericOp.getOperand(
-              cast<BlockArgument>(yieldedValue).getArgNumber()));
+          Value operand = genericOp.getOperand(
+              cast<BlockArgument>(yieldedValue).getArgNumber());
+          if (!isa<SecretType>(operand.getType()))
+            operand =
+                ConcealOp::create(rewriter, genericOp.getLoc(), operand);
+          replacements.push_back(operand);
           LLVM_DEBUG(llvm::dbgs() << "replacing value " << yieldedValue
                                   << " with " << replacements.back() << "\n");
           continue;
         }
 
-        assert(false &&
-               "Expected a loop result or a block argument, since this"
-               " code path expects a generic with a single operation (a loop) "
-               "inside it.");
+        // Otherwise, since this code path expects a generic with a single
+        // operation (a loop) inside it, the yielded value is a cleartext value
+        // defined outside of the generic.
+        replacements.push_back(
+            ConcealOp::create(rewriter, genericOp.getLoc(), yieldedValue));
       }
       rewriter.replaceOp(genericOp, replacements);
 
@@ -997,11 +1010,12 @@ struct MakeNonSecretIterArgsPublic
       if (isa<SecretType>(iterArg.getType())) {
         auto yieldConceal =
             dyn_cast_or_null<ConcealOp>(yieldOpnd.getDefiningOp());
+        auto initConceal = dyn_cast_or_null<ConcealOp>(init.getDefiningOp());
         // The only case that needs checking is if the iter_arg is secret typed,
-        // and the yield operand is the direct result of a conceal op.
-        if (yieldConceal) {
-          auto initConceal = dyn_cast_or_null<ConcealOp>(init.getDefiningOp());
-          newInits.push_back(initConceal ? initConceal.getCleartext() : init);
+        // and both the initial value and the yield operand are the direct
+        // results of conceal ops.
+        if (yieldConceal && initConceal) {
+          newInits.push_back(initConceal.getCleartext());
           wasChanged[i] = true;
           changed = true;
           continue;
@@ -1019,7 +1033,7 @@ struct MakeNonSecretIterArgsPublic
     SmallVector<Type> newResultTypes(op->getResultTypes());
     for (auto [i, operand] : llvm::enumerate(op.getInitsMutable())) {
       if (wasChanged[i]) {
-        newResultTypes.push_back(newInits[i].getType());
+        newResultTypes[i] = newInits[i].getType();
       }
     }
 
@@ -1032,6 +1046,8 @@ struct MakeNonSecretIterArgsPublic
 
     auto* newOp =
         cloneWithNewResultTypes(op.getOperation(), newResultTypes, mp);
+    rewriter.setInsertionPoint(op.getOperation());
+    rewriter.insert(newOp);
     auto newLoop = cast<LoopLikeOpInterface>(newOp);
 
     // Next we update the iter_args. In the cloned loop the iter_args may still
-- 
2.43.0


From 5af5f25d4754ba142767f9806697d28cba781af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:37 +0000
Subject: [PATCH 48/71] fix: scale analysis gave plaintexts a scale before it
 was determined, and indices a scale

For BGV the scale of a mgmt.init is what its use requires, so it is left to the
backward analysis (x*p + q used to assert). Rotation amounts shared between
ciphertexts of different scales no longer join their scales.
---
 lib/Analysis/ScaleAnalysis/ScaleAnalysis.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/Analysis/ScaleAnalysis/ScaleAnalysis.cpp b/lib/Analysis/ScaleAnalysis/ScaleAnalysis.cpp
index b3e7945..bdae6ab 100644
--- a/lib/Analysis/ScaleAnalysis/ScaleAnalysis.cpp
+++ b/lib/Analysis/ScaleAnalysis/ScaleAnalysis.cpp
@@ -40,7 +40,7 @@ static bool isAdaptable(Value value) {
   Operation* defOp = value.getDefiningOp();
   if (!defOp) return false;
 
-  if (isa<mgmt::AdjustScaleOp>(defOp)) {
+  if (isa<mgmt::AdjustScaleOp, mgmt::InitOp>(defOp)) {
     return true;
   }
   if (isa<mgmt::ModReduceOp, mgmt::RelinearizeOp, mgmt::LevelReduceOp>(defOp)) {
@@ -293,7 +293,7 @@ LogicalResult ScaleAnalysis<ScaleModelT>::visitOperation(
         if (mgmtAttr && mgmtAttr.getScale() != -1) {
           propagate(initOp.getResult(),
                     ScaleState<ScaleModelT>(mgmtAttr.getScale()));
-        } else {
+        } else if (ScaleModelT::getDefaultScale(schemeParam).has_value()) {
           propagate(initOp.getResult(), ScaleState<ScaleModelT>(inputScale));
         }
       })
@@ -541,6 +541,9 @@ LogicalResult ScaleAnalysisBackward<ScaleModelT>::visitOperation(
         // propagate the scale to all operands
         // including plaintext (non-secret)
         for (auto operand : op.getOperands()) {
+          // Indices (e.g., rotation amounts) have no scale, and may be shared
+          // by operations at different scales.
+          if (operand.getType().isIndex()) continue;
           propagate(operand, ScaleState<ScaleModelT>(scales[0]));
         }
       });
-- 
2.43.0


From 87bc3076222b641d08dff25c01e7f871c8efe62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:37 +0000
Subject: [PATCH 49/71] fix: populate-scale-ckks skipped operations after a
 scale adjustment in a block

Inserting at the front of a block while querying liveness made the block look
dead for the rest of the walk; adjustments are now inserted afterwards. An
adjustment that cannot be materialized now fails the pass.
---
 .../PopulateScale/PopulateScaleCKKS.cpp       | 129 +++++++-----------
 1 file changed, 48 insertions(+), 81 deletions(-)

diff --git a/lib/Transforms/PopulateScale/PopulateScaleCKKS.cpp b/lib/Transforms/PopulateScale/PopulateScaleCKKS.cpp
index 1be1aa7..d108b68 100644
--- a/lib/Transforms/PopulateScale/PopulateScaleCKKS.cpp
+++ b/lib/Transforms/PopulateScale/PopulateScaleCKKS.cpp
@@ -14,6 +14,7 @@
 #include "lib/Dialect/Mgmt/IR/MgmtOps.h"
 #include "lib/Dialect/Mgmt/Transforms/AnnotateMgmt.h"
 #include "lib/Transforms/PopulateScale/PopulateScalePatterns.h"
+#include "llvm/include/llvm/ADT/MapVector.h"               // from @llvm-project
 #include "llvm/include/llvm/Support/Debug.h"               // from @llvm-project
 #include "llvm/include/llvm/Support/DebugLog.h"            // from @llvm-project
 #include "mlir/include/mlir/Analysis/DataFlow/Utils.h"     // from @llvm-project
@@ -152,7 +153,14 @@ struct PopulateScaleCKKS : impl::PopulateScaleCKKSBase<PopulateScaleCKKS> {
     }
 
     // Step 2: Walk IR and Detect Mismatches -> Insert adjust_scale
-    int idCounter = 0;
+    //
+    // The adjustments are only recorded during the walk, because inserting an
+    // op at the front of a block invalidates the solver's block liveness.
+    llvm::MapVector<OpOperand*, int64_t> adjustments;
+    auto recordAdjustment = [&](OpOperand& operand, int64_t targetScale) {
+      auto [it, inserted] = adjustments.insert({&operand, targetScale});
+      if (!inserted) it->second = std::max(it->second, targetScale);
+    };
     getOperation()->walk([&](Operation* op) {
       if (!isBlockLive(op->getBlock(), &solver)) {
         return;
@@ -178,20 +186,7 @@ struct PopulateScaleCKKS : impl::PopulateScaleCKKSBase<PopulateScaleCKKS> {
           for (auto* operand : secretOrInittedOperands) {
             int64_t scale = getScale<CKKSScaleModel>(operand->get(), &solver);
             if (scale < maxScale) {
-              OpBuilder builder(op);
-              auto adjustOp = mgmt::AdjustScaleOp::create(
-                  builder, op->getLoc(), operand->get(),
-                  builder.getI64IntegerAttr(idCounter++));
-
-              auto operandMgmtAttr =
-                  mgmt::findMgmtAttrAssociatedWith(operand->get());
-              assert(operandMgmtAttr && "operand must have MgmtAttr");
-              auto newMgmtAttr =
-                  mgmt::getMgmtAttrWithNewScale(operandMgmtAttr, maxScale);
-              mgmt::setMgmtAttrAssociatedWith(adjustOp.getResult(),
-                                              newMgmtAttr);
-
-              operand->set(adjustOp.getResult());
+              recordAdjustment(*operand, maxScale);
             }
           }
         }
@@ -228,18 +223,9 @@ struct PopulateScaleCKKS : impl::PopulateScaleCKKSBase<PopulateScaleCKKS> {
               targetScale = targetSum - scaleOther;
             }
 
-            OpBuilder builder(op);
-            auto adjustOp = mgmt::AdjustScaleOp::create(
-                builder, op->getLoc(), toScale,
-                builder.getI64IntegerAttr(idCounter++));
-
-            auto toScaleMgmtAttr = mgmt::findMgmtAttrAssociatedWith(toScale);
-            assert(toScaleMgmtAttr && "operand to scale must have MgmtAttr");
-            auto newMgmtAttr =
-                mgmt::getMgmtAttrWithNewScale(toScaleMgmtAttr, targetScale);
-            mgmt::setMgmtAttrAssociatedWith(adjustOp.getResult(), newMgmtAttr);
-
-            op->replaceUsesOfWith(toScale, adjustOp.getResult());
+            for (OpOperand& operand : op->getOpOperands()) {
+              if (operand.get() == toScale) recordAdjustment(operand, targetScale);
+            }
           }
         }
       }
@@ -262,16 +248,7 @@ struct PopulateScaleCKKS : impl::PopulateScaleCKKSBase<PopulateScaleCKKS> {
           int64_t newScale = scale - logqi_level;
           if (newScale < logDefaultScale) {
             int64_t targetScale = logDefaultScale + logqi_level;
-            OpBuilder builder(op);
-            auto adjustOp = mgmt::AdjustScaleOp::create(
-                builder, op->getLoc(), input,
-                builder.getI64IntegerAttr(idCounter++));
-
-            auto newMgmtAttr =
-                mgmt::getMgmtAttrWithNewScale(inputMgmtAttr, targetScale);
-            mgmt::setMgmtAttrAssociatedWith(adjustOp.getResult(), newMgmtAttr);
-
-            op->replaceUsesOfWith(input, adjustOp.getResult());
+            recordAdjustment(modReduceOp.getInputMutable(), targetScale);
           }
         }
       }
@@ -299,21 +276,7 @@ struct PopulateScaleCKKS : impl::PopulateScaleCKKSBase<PopulateScaleCKKS> {
           for (OpOperand* operand : yieldingOperands) {
             int64_t scale = getScale<CKKSScaleModel>(operand->get(), &solver);
             if (scale < maxScale) {
-              Operation* terminator = operand->getOwner();
-              OpBuilder builder(terminator);
-              auto adjustOp = mgmt::AdjustScaleOp::create(
-                  builder, terminator->getLoc(), operand->get(),
-                  builder.getI64IntegerAttr(idCounter++));
-
-              auto operandMgmtAttr =
-                  mgmt::findMgmtAttrAssociatedWith(operand->get());
-              assert(operandMgmtAttr && "yielding operand must have MgmtAttr");
-              auto newMgmtAttr =
-                  mgmt::getMgmtAttrWithNewScale(operandMgmtAttr, maxScale);
-              mgmt::setMgmtAttrAssociatedWith(adjustOp.getResult(),
-                                              newMgmtAttr);
-
-              operand->set(adjustOp.getResult());
+              recordAdjustment(*operand, maxScale);
             }
           }
         }
@@ -339,22 +302,7 @@ struct PopulateScaleCKKS : impl::PopulateScaleCKKSBase<PopulateScaleCKKS> {
             for (OpOperand* operand : yieldingOperands) {
               int64_t scale = getScale<CKKSScaleModel>(operand->get(), &solver);
               if (scale < maxScale) {
-                Operation* owner = operand->getOwner();
-                OpBuilder builder(owner);
-                auto adjustOp = mgmt::AdjustScaleOp::create(
-                    builder, owner->getLoc(), operand->get(),
-                    builder.getI64IntegerAttr(idCounter++));
-
-                auto operandMgmtAttr =
-                    mgmt::findMgmtAttrAssociatedWith(operand->get());
-                assert(operandMgmtAttr &&
-                       "yielding operand must have MgmtAttr");
-                auto newMgmtAttr =
-                    mgmt::getMgmtAttrWithNewScale(operandMgmtAttr, maxScale);
-                mgmt::setMgmtAttrAssociatedWith(adjustOp.getResult(),
-                                                newMgmtAttr);
-
-                operand->set(adjustOp.getResult());
+                recordAdjustment(*operand, maxScale);
               }
             }
           }
@@ -376,26 +324,38 @@ struct PopulateScaleCKKS : impl::PopulateScaleCKKSBase<PopulateScaleCKKS> {
             int64_t targetScale = getScale<CKKSScaleModel>(blockArg, &solver);
             int64_t scale = getScale<CKKSScaleModel>(forwardedVal, &solver);
             if (scale < targetScale) {
-              OpBuilder builder(op);
-              auto adjustOp = mgmt::AdjustScaleOp::create(
-                  builder, op->getLoc(), forwardedVal,
-                  builder.getI64IntegerAttr(idCounter++));
-
-              auto valMgmtAttr = mgmt::findMgmtAttrAssociatedWith(forwardedVal);
-              assert(valMgmtAttr && "forwarded value must have MgmtAttr");
-              auto newMgmtAttr =
-                  mgmt::getMgmtAttrWithNewScale(valMgmtAttr, targetScale);
-              mgmt::setMgmtAttrAssociatedWith(adjustOp.getResult(),
-                                              newMgmtAttr);
-
               unsigned opIdx = successorOperands.getOperandIndex(i);
-              op->setOperand(opIdx, adjustOp.getResult());
+              recordAdjustment(op->getOpOperand(opIdx), targetScale);
             }
           }
         }
       }
     });
 
+    int idCounter = 0;
+    mgmt::AdjustScaleOp previous;
+    for (auto& [operand, targetScale] : adjustments) {
+      Operation* owner = operand->getOwner();
+      // an op that uses a value twice uses the adjusted value twice
+      if (previous && previous->getNextNode() == owner &&
+          previous.getInput() == operand->get() &&
+          mgmt::findMgmtAttrAssociatedWith(previous.getResult()).getScale() ==
+              targetScale) {
+        operand->set(previous.getResult());
+        continue;
+      }
+      OpBuilder builder(owner);
+      previous = mgmt::AdjustScaleOp::create(
+          builder, owner->getLoc(), operand->get(),
+          builder.getI64IntegerAttr(idCounter++));
+      auto operandMgmtAttr = mgmt::findMgmtAttrAssociatedWith(operand->get());
+      assert(operandMgmtAttr && "operand must have MgmtAttr");
+      mgmt::setMgmtAttrAssociatedWith(
+          previous.getResult(),
+          mgmt::getMgmtAttrWithNewScale(operandMgmtAttr, targetScale));
+      operand->set(previous.getResult());
+    }
+
     // Step 3: Optimize Plaintext Scales
     RewritePatternSet optPatterns(&getContext());
     optPatterns.add<MergeAdjustScaleIntoInit>(&getContext());
@@ -444,6 +404,13 @@ struct PopulateScaleCKKS : impl::PopulateScaleCKKSBase<PopulateScaleCKKS> {
     pipeline.addPass(createCanonicalizerPass());
     pipeline.addPass(createCSEPass());
     (void)runPipeline(pipeline, getOperation());
+
+    // an adjust_scale that could not be materialized has emitted an error
+    bool hasRemainingAdjustScale =
+        getOperation()
+            ->walk([](mgmt::AdjustScaleOp) { return WalkResult::interrupt(); })
+            .wasInterrupted();
+    if (hasRemainingAdjustScale) signalPassFailure();
   }
 };
 
-- 
2.43.0


From 05cd1c9403318c13923deff6c7247d3d007ed967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:37 +0000
Subject: [PATCH 50/71] fix: a product of unrelinearized products was not
 relinearized

The relinearize inserted for an operand is secret too; it is recorded so that
later patterns see it.
---
 lib/Transforms/SecretInsertMgmt/SecretInsertMgmtPatterns.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/Transforms/SecretInsertMgmt/SecretInsertMgmtPatterns.cpp b/lib/Transforms/SecretInsertMgmt/SecretInsertMgmtPatterns.cpp
index b7f2152..d5f39e6 100644
--- a/lib/Transforms/SecretInsertMgmt/SecretInsertMgmtPatterns.cpp
+++ b/lib/Transforms/SecretInsertMgmt/SecretInsertMgmtPatterns.cpp
@@ -102,6 +102,9 @@ LogicalResult MultRelinearize<MulOp>::matchAndRewrite(
   auto relinearized =
       mgmt::RelinearizeOp::create(rewriter, mulOp.getLoc(), result);
   result.replaceAllUsesExcept(relinearized, {relinearized});
+  // the next mul may use this result, which is new to the solver
+  solver->getOrCreateState<SecretnessLattice>(relinearized.getResult())
+      ->join(Secretness(true));
   return success();
 }
 
-- 
2.43.0


From 8cedf03ffaa17063eddd814c605371cc7bae0704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:49 +0000
Subject: [PATCH 51/71] fix: compare integers and floats in the Python frontend

---
 frontend/heir/mlir_emitter.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/frontend/heir/mlir_emitter.py b/frontend/heir/mlir_emitter.py
index 6381250..86ab939 100644
--- a/frontend/heir/mlir_emitter.py
+++ b/frontend/heir/mlir_emitter.py
@@ -17,6 +17,9 @@ from heir.interfaces import CompilerError, InternalCompilerError
 NumbaType = nt.Type
 
 
+COMPARISONS = (operator.lt, operator.ge, operator.eq, operator.ne)
+
+
 def mlirType(numba_type: NumbaType) -> str:
   match numba_type:
     case nt.Integer():
@@ -647,6 +650,9 @@ class TextualMlirEmitter:
     return tmp, ext
 
   def emit_binop(self, binop, result_type=None):
+    # A comparison is made in the type of its operands, not of its result
+    if binop.fn in COMPARISONS:
+      result_type = None
     base_type = result_type or self.typemap.get(str(binop.lhs))
     # This should be the same, otherwise MLIR will complain
     suffix = arithSuffix(base_type)
-- 
2.43.0


From aefad5047163496ed5d23175ef52db969b97d87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:49 +0000
Subject: [PATCH 52/71] fix: widen a Python bool to 0 or 1 in the Python
 frontend

---
 frontend/heir/mlir_emitter.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/frontend/heir/mlir_emitter.py b/frontend/heir/mlir_emitter.py
index 86ab939..13915bc 100644
--- a/frontend/heir/mlir_emitter.py
+++ b/frontend/heir/mlir_emitter.py
@@ -82,6 +82,11 @@ def getBitwidth(typ: NumbaType | MLIRType) -> int:
       )
 
 
+def extOp(typ: NumbaType) -> str:
+  """The op that widens a value of the given type (True is 1, not -1)."""
+  return "arith.extui" if isinstance(typ, nt.Boolean) else "arith.extsi"
+
+
 def mlirCastOp(
     from_type: NumbaType, to_type: MLIRType, value: str, loc: ir.Loc
 ) -> str:
@@ -101,7 +106,7 @@ def mlirCastOp(
       )
     if from_width < to_width:
       return (
-          f"arith.extsi {value} : {mlirType(from_type)} to"
+          f"{extOp(from_type)} {value} : {mlirType(from_type)} to"
           f" {to_type.mlir_type()} {mlirLoc(loc)}"
       )
   if isFloatLike(from_type) and isIntegerLike(to_type):
@@ -110,8 +115,9 @@ def mlirCastOp(
         f" {mlirType(to_type)} {mlirLoc(loc)}"
     )
   if isIntegerLike(from_type) and isFloatLike(to_type):
+    op = "arith.uitofp" if isinstance(from_type, nt.Boolean) else "arith.sitofp"
     return (
-        f"arith.sitofp {value} : {mlirType(from_type)} to"
+        f"{op} {value} : {mlirType(from_type)} to"
         f" {mlirType(to_type)} {mlirLoc(loc)}"
     )
   raise CompilerError(
@@ -617,7 +623,7 @@ class TextualMlirEmitter:
 
     tmp = self.get_next_name()
     ext = (
-        f"{tmp} = arith.extsi {self.get_name(short)} : "
+        f"{tmp} = {extOp(self.typemap.get(str(short)))} {self.get_name(short)} : "
         f"{mlirType(self.typemap.get(str(short)))} "
         f"to {mlirType(self.typemap.get(str(long)))} "
         f"{mlirLoc(short.loc)}\n"
@@ -643,7 +649,7 @@ class TextualMlirEmitter:
       )
     tmp = self.get_next_name()
     ext = (
-        f"{tmp} = arith.extsi {self.get_name(value)} : "
+        f"{tmp} = {extOp(from_type)} {self.get_name(value)} : "
         f"{mlirType(from_type)} to {mlirType(to_type)} "
         f"{mlirLoc(value.loc)}\n"
     )
-- 
2.43.0


From e4e8d8bc24ea06abebb2bd88ba0f5af009cf65ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:49 +0000
Subject: [PATCH 53/71] fix: cast between floats and integers in the Python
 frontend

---
 frontend/heir/mlir_emitter.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/frontend/heir/mlir_emitter.py b/frontend/heir/mlir_emitter.py
index 13915bc..095061d 100644
--- a/frontend/heir/mlir_emitter.py
+++ b/frontend/heir/mlir_emitter.py
@@ -11,7 +11,7 @@ from numba.core import bytecode
 from numba.core import controlflow
 import numba.core.types as nt
 
-from heir.mlir import I1, I8, I16, I32, I64, MLIRType, MLIR_TYPES
+from heir.mlir import F32, F64, I1, I8, I16, I32, I64, MLIRType, MLIR_TYPES
 from heir.interfaces import CompilerError, InternalCompilerError
 
 NumbaType = nt.Type
@@ -56,7 +56,7 @@ def isIntegerLike(typ: NumbaType | MLIRType) -> bool:
 
 def isFloatLike(typ: NumbaType | MLIRType) -> bool:
   match typ:
-    case nt.F32 | nt.F64 | nt.Float():
+    case F32() | F64() | nt.Float():
       return True
     case MLIRType() | nt.Type():
       return False
@@ -95,7 +95,8 @@ def mlirCastOp(
     to_width = getBitwidth(to_type.numba_type())
     if from_width == to_width:
       raise CompilerError(
-          f"Cannot create cast of {value} from {from_type} to {to_type} as they"
+          f"Cannot create cast of {value} from {from_type} to"
+          f" {to_type.mlir_type()} as they"
           " have the same bitwidth",
           loc,
       )
@@ -112,16 +113,17 @@ def mlirCastOp(
   if isFloatLike(from_type) and isIntegerLike(to_type):
     return (
         f"arith.fptosi {value} : {mlirType(from_type)} to"
-        f" {mlirType(to_type)} {mlirLoc(loc)}"
+        f" {to_type.mlir_type()} {mlirLoc(loc)}"
     )
   if isIntegerLike(from_type) and isFloatLike(to_type):
     op = "arith.uitofp" if isinstance(from_type, nt.Boolean) else "arith.sitofp"
     return (
         f"{op} {value} : {mlirType(from_type)} to"
-        f" {mlirType(to_type)} {mlirLoc(loc)}"
+        f" {to_type.mlir_type()} {mlirLoc(loc)}"
     )
   raise CompilerError(
-      f"Encountered unsupported cast of {value} from {from_type} to {to_type}",
+      f"Encountered unsupported cast of {value} from {from_type} to"
+      f" {to_type.mlir_type()}",
       loc,
   )
 
-- 
2.43.0


From 2796738f704a69e57c57118c7b302178438a84ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:49 +0000
Subject: [PATCH 54/71] fix: extend mixed-width operands from the width they
 have in the Python frontend

---
 frontend/heir/mlir_emitter.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/frontend/heir/mlir_emitter.py b/frontend/heir/mlir_emitter.py
index 095061d..bce2770 100644
--- a/frontend/heir/mlir_emitter.py
+++ b/frontend/heir/mlir_emitter.py
@@ -635,9 +635,10 @@ class TextualMlirEmitter:
       return self.get_name(lhs), tmp, ext, lhs_type
     return tmp, self.get_name(rhs), ext, rhs_type
 
-  def emit_ext_to_type(self, value, from_type, to_type):
+  def emit_ext_to_type(self, value, from_type, to_type, loc):
+    # value is the name of an SSA value of type from_type
     if from_type == to_type:
-      return self.get_name(value), ""
+      return value, ""
     if not isIntegerLike(from_type) or not isIntegerLike(to_type):
       raise InternalCompilerError(
           "Extension handling for non-integer (e.g., floats, tensors) types"
@@ -651,9 +652,9 @@ class TextualMlirEmitter:
       )
     tmp = self.get_next_name()
     ext = (
-        f"{tmp} = {extOp(from_type)} {self.get_name(value)} : "
+        f"{tmp} = {extOp(from_type)} {value} : "
         f"{mlirType(from_type)} to {mlirType(to_type)} "
-        f"{mlirLoc(value.loc)}\n"
+        f"{mlirLoc(loc)}\n"
     )
     return tmp, ext
 
@@ -675,8 +676,12 @@ class TextualMlirEmitter:
             f"Result type {result_type} is narrower than operands {ty}."
         )
       if result_bw > ty_bw:
-        lhs_ssa, lhs_ext = self.emit_ext_to_type(binop.lhs, ty, result_type)
-        rhs_ssa, rhs_ext = self.emit_ext_to_type(binop.rhs, ty, result_type)
+        lhs_ssa, lhs_ext = self.emit_ext_to_type(
+            lhs_ssa, ty, result_type, binop.lhs.loc
+        )
+        rhs_ssa, rhs_ext = self.emit_ext_to_type(
+            rhs_ssa, ty, result_type, binop.rhs.loc
+        )
         ext = f"{ext}{lhs_ext}{rhs_ext}"
         ty = result_type
 
-- 
2.43.0


From ed7612403d2278ed3f03c8b53d1940b6a82c2b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:49 +0000
Subject: [PATCH 55/71] fix: round // and % as Python does in the Python
 frontend

---
 frontend/heir/mlir_emitter.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/frontend/heir/mlir_emitter.py b/frontend/heir/mlir_emitter.py
index bce2770..6774c71 100644
--- a/frontend/heir/mlir_emitter.py
+++ b/frontend/heir/mlir_emitter.py
@@ -714,13 +714,16 @@ class TextualMlirEmitter:
         return f"arith.and{suffix} {lhs_ssa}, {rhs_ssa}", ext, ty
       case operator.xor:
         return f"arith.xor{suffix} {lhs_ssa}, {rhs_ssa}", ext, ty
-      case operator.floordiv:
-        suffix = "si" if suffix == "i" else suffix
-        return f"arith.div{suffix} {lhs_ssa}, {rhs_ssa}", ext, ty
-      case operator.mod:
-        # Used signed semantics when integer types
-        suffix = "si" if suffix == "i" else suffix
-        return f"arith.rem{suffix} {lhs_ssa}, {rhs_ssa}", ext, ty
+      case operator.floordiv if suffix == "i":
+        # Python rounds towards negative infinity
+        return f"arith.floordivsi {lhs_ssa}, {rhs_ssa}", ext, ty
+      case operator.mod if suffix == "i":
+        # Python's modulus has the sign of the divisor: a - (a // b) * b
+        div, mul = self.get_next_name(), self.get_next_name()
+        ty_str = f"{mlirType(ty)} {mlirLoc(binop.loc)}\n"
+        ext += f"{div} = arith.floordivsi {lhs_ssa}, {rhs_ssa} : {ty_str}"
+        ext += f"{mul} = arith.muli {div}, {rhs_ssa} : {ty_str}"
+        return f"arith.subi {lhs_ssa}, {mul}", ext, ty
 
     raise InternalCompilerError("Unsupported binop: " + binop.fn.__name__)
 
-- 
2.43.0


From 3814163c7103453cf1fa27e09a27c29ea4c58db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:49 +0000
Subject: [PATCH 56/71] fix: operate on arguments and computed tensors together
 in the Python frontend

---
 frontend/heir/mlir_emitter.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/frontend/heir/mlir_emitter.py b/frontend/heir/mlir_emitter.py
index 6774c71..3bb9d1d 100644
--- a/frontend/heir/mlir_emitter.py
+++ b/frontend/heir/mlir_emitter.py
@@ -600,6 +600,16 @@ class TextualMlirEmitter:
     if lhs_type == rhs_type:
       return self.get_name(lhs), self.get_name(rhs), "", lhs_type
 
+    # Array types that differ only in their memory layout, as those of an
+    # argument and of a computed value do, are the same tensor type
+    if (
+        isinstance(lhs_type, nt.Array)
+        and isinstance(rhs_type, nt.Array)
+        and lhs_type.ndim == rhs_type.ndim
+        and lhs_type.dtype == rhs_type.dtype
+    ):
+      return self.get_name(lhs), self.get_name(rhs), "", lhs_type
+
     # types aren't integer types
     if not isIntegerLike(lhs_type) or not isIntegerLike(rhs_type):
       raise InternalCompilerError(
-- 
2.43.0


From d626fc4b0bb04d50e361627b3ce90047da779bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:49 +0000
Subject: [PATCH 57/71] fix: keep loop bounds usable as integers in the Python
 frontend

---
 frontend/heir/mlir_emitter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/frontend/heir/mlir_emitter.py b/frontend/heir/mlir_emitter.py
index 3bb9d1d..d9ed61f 100644
--- a/frontend/heir/mlir_emitter.py
+++ b/frontend/heir/mlir_emitter.py
@@ -816,9 +816,10 @@ class TextualMlirEmitter:
 
   def emit_var_or_int(self, var_or_int: ir.Var | Any):
     if type(var_or_int) == ir.Var:
-      # Create an index_cast operation
+      # Create an index_cast operation, for the loop only: the variable itself
+      # keeps its integer value
       var_name = self.get_name(var_or_int)
-      new_name = self.forward_to_new_id(var_or_int)
+      new_name = self.get_next_name()
       return (
           new_name,
           (
-- 
2.43.0


From d25fe7552c3ffd28916210a0d5fb7576808f6217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:49 +0000
Subject: [PATCH 58/71] fix: emit the step of a range as a constant in the
 Python frontend

---
 frontend/heir/mlir_emitter.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/frontend/heir/mlir_emitter.py b/frontend/heir/mlir_emitter.py
index d9ed61f..6397ac0 100644
--- a/frontend/heir/mlir_emitter.py
+++ b/frontend/heir/mlir_emitter.py
@@ -9,6 +9,7 @@ from typing import Any
 from numba.core import ir
 from numba.core import bytecode
 from numba.core import controlflow
+from numba.core.errors import ConstantInferenceError
 import numba.core.types as nt
 
 from heir.mlir import F32, F64, I1, I8, I16, I32, I64, MLIRType, MLIR_TYPES
@@ -830,6 +831,20 @@ class TextualMlirEmitter:
     else:
       return var_or_int, ""
 
+  def get_constant_step(self, step: ir.Var | int) -> int:
+    # The step of an affine.for is an attribute, and it must be positive
+    if isinstance(step, ir.Var):
+      loc = step.loc
+      try:
+        step = self.ssa_ir.infer_constant(step)
+      except ConstantInferenceError:
+        step = None
+      if not isinstance(step, int) or step <= 0:
+        raise CompilerError(
+            "The step of a range must be a positive constant", loc
+        )
+    return step
+
   def emit_loop_header(self, target, loop):
     # Returns the loop header str, e.g.
     # affine.for %i = 0 to 3 step 4 iter_args(%init = %var) {
@@ -841,9 +856,7 @@ class TextualMlirEmitter:
     stop, instr = self.emit_var_or_int(loop.range.stop)
     if instr:
       header.append(instr)
-    step, instr = self.emit_var_or_int(loop.range.step)
-    if instr:
-      header.append(instr)
+    step = self.get_constant_step(loop.range.step)
 
     itvar = self.get_or_create_name(loop.header.phi_var)  # create var for i
     for_str = f"affine.for {itvar} = {start} to {stop}"
-- 
2.43.0


From b839db188b91b3b28bd881eedfe2a5e3ce03ba49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:49 +0000
Subject: [PATCH 59/71] fix: emit operations on literals as the literal they
 yield in the Python frontend

---
 frontend/heir/mlir_emitter.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/frontend/heir/mlir_emitter.py b/frontend/heir/mlir_emitter.py
index 6397ac0..47afc6c 100644
--- a/frontend/heir/mlir_emitter.py
+++ b/frontend/heir/mlir_emitter.py
@@ -521,6 +521,14 @@ class TextualMlirEmitter:
         return ""
       case ir.Expr(op="binop"):
         result_type = self.typemap.get(assign.target.name)
+        if isinstance(result_type, nt.IntegerLiteral):
+          # Both operands are literals, and typing has computed the result: it
+          # may well be narrower than they are
+          expr = (
+              f"arith.constant {result_type.literal_value} :"
+              f" {mlirType(result_type)} {mlirLoc(assign.loc)}"
+          )
+          return self.reassign_and_forward_name(assign.target, expr)
         emitted_expr, ext, ty = self.emit_binop(
             assign.value, result_type=result_type
         )
-- 
2.43.0


From 373142b9157cc8078b68d57d600cd0a0da3b29a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:22 +0000
Subject: [PATCH 60/71] fix: align the initial value of matmul and batch_matmul
 with the layout of the result

---
 lib/Transforms/LayoutPropagation/LayoutPropagation.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/Transforms/LayoutPropagation/LayoutPropagation.cpp b/lib/Transforms/LayoutPropagation/LayoutPropagation.cpp
index af46107..e2331a0 100644
--- a/lib/Transforms/LayoutPropagation/LayoutPropagation.cpp
+++ b/lib/Transforms/LayoutPropagation/LayoutPropagation.cpp
@@ -1347,7 +1347,8 @@ LogicalResult LayoutPropagation::visitOperation(BatchMatmulOp op) {
     auto kernelAttr = secret::KernelAttr::get(
         ctx, KernelName::BatchMatmulTricyclic, /*force=*/false);
     op->setAttr(secret::SecretDialect::kKernelAttrName, kernelAttr);
-    return success();
+    return alignInitWithResultLayout(op, op.getOutputs().front(),
+                                     outputLayoutAttr);
   }
 
   return builder.notifyMatchFailure(
@@ -1413,7 +1414,8 @@ LogicalResult LayoutPropagation::visitOperation(MatmulOp op) {
     auto kernelAttr = secret::KernelAttr::get(ctx, KernelName::MatmulBicyclic,
                                               /*force=*/false);
     op->setAttr(secret::SecretDialect::kKernelAttrName, kernelAttr);
-    return success();
+    return alignInitWithResultLayout(op, op.getOutputs().front(),
+                                     outputLayoutAttr);
   }
 
   // Bicyclic ct-pt matmul with generalized-diagonal-layout plaintext.
@@ -1466,7 +1468,8 @@ LogicalResult LayoutPropagation::visitOperation(MatmulOp op) {
     auto kernelAttr = secret::KernelAttr::get(
         ctx, KernelName::MatmulBicyclicDiagonal, /*force=*/false);
     op->setAttr(secret::SecretDialect::kKernelAttrName, kernelAttr);
-    return success();
+    return alignInitWithResultLayout(op, op.getOutputs().front(),
+                                     outputLayoutAttr);
   }
 
   // Assign a per-row layout to the input matrix. Each row of the input matrix
-- 
2.43.0


From 0687ca63ede468bc1bda710991e40560714a3d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:22 +0000
Subject: [PATCH 61/71] fix: convert to a layout with more ciphertexts than the
 source has

---
 .../ConvertToCiphertextSemantics.cpp          | 23 +++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/lib/Transforms/ConvertToCiphertextSemantics/ConvertToCiphertextSemantics.cpp b/lib/Transforms/ConvertToCiphertextSemantics/ConvertToCiphertextSemantics.cpp
index 5fb74d9..9fdfd8f 100644
--- a/lib/Transforms/ConvertToCiphertextSemantics/ConvertToCiphertextSemantics.cpp
+++ b/lib/Transforms/ConvertToCiphertextSemantics/ConvertToCiphertextSemantics.cpp
@@ -143,6 +143,29 @@ Operation* remapAndExtractResult(ImplicitLocOpBuilder& builder, Value input,
                                  LayoutAttr resultLayout,
                                  RankedTensorType resultType) {
   assert(resultType.getRank() == 2 && "Expected 2D ciphertext semantic type");
+
+  // Conversely, the result may need more ciphertexts than the input has. Since
+  // the remap can only move values among existing ciphertexts, extend the input
+  // with trivial ciphertexts first.
+  auto inputType = cast<RankedTensorType>(input.getType());
+  if (inputType.getDimSize(0) < resultType.getDimSize(0)) {
+    auto extendedType = RankedTensorType::get(
+        {resultType.getDimSize(0), inputType.getDimSize(1)},
+        inputType.getElementType());
+    auto zero = arith::ConstantOp::create(
+        builder, extendedType, builder.getZeroAttr(extendedType));
+    zero->setAttr(kMaterializedAttrName, builder.getUnitAttr());
+    SmallVector<OpFoldResult> sizes{
+        builder.getIndexAttr(inputType.getDimSize(0)),
+        builder.getIndexAttr(inputType.getDimSize(1))};
+    auto extended = tensor::InsertSliceOp::create(
+        builder, input, zero.getResult(),
+        SmallVector<OpFoldResult>(2, builder.getIndexAttr(0)), sizes,
+        SmallVector<OpFoldResult>(2, builder.getIndexAttr(1)));
+    extended->setAttr(kMaterializedAttrName, builder.getUnitAttr());
+    input = extended.getResult();
+  }
+
   auto remapOp = tensor_ext::RemapOp::create(builder, input, resultLayout);
 
   SmallVector<OpFoldResult> strides(2, builder.getIndexAttr(1));
-- 
2.43.0


From d4783cf250d8a2579668e168e35f429ace467a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:22 +0000
Subject: [PATCH 62/71] fix: reduce tensors along any axis, with their initial
 value

---
 .../ConvertToCiphertextSemantics.cpp          | 58 +++++++++++++------
 .../LayoutPropagation/LayoutPropagation.cpp   | 37 ++++++++++--
 2 files changed, 74 insertions(+), 21 deletions(-)

diff --git a/lib/Transforms/ConvertToCiphertextSemantics/ConvertToCiphertextSemantics.cpp b/lib/Transforms/ConvertToCiphertextSemantics/ConvertToCiphertextSemantics.cpp
index 9fdfd8f..e8655fc 100644
--- a/lib/Transforms/ConvertToCiphertextSemantics/ConvertToCiphertextSemantics.cpp
+++ b/lib/Transforms/ConvertToCiphertextSemantics/ConvertToCiphertextSemantics.cpp
@@ -730,29 +730,44 @@ class ConvertLinalgReduce : public ConversionBase<linalg::ReduceOp> {
     auto input = op.getInputs()[0];
 
     auto originalShape = cast<RankedTensorType>(input.getType()).getShape();
-    // Pre-conditions enforce that the reduction operation occurs along the
-    // inputs single axis
-    unsigned steps = originalShape[op.getDimensions()[0]];
-    unsigned period = 1;
+    // The input is packed row-major, so that consecutive elements of the reduced
+    // axis are separated by the number of elements of the axes following it.
+    int64_t dim = op.getDimensions()[0];
+    int64_t steps = originalShape[dim];
+    int64_t period = 1;
+    for (int64_t size : originalShape.drop_front(dim + 1)) period *= size;
 
-    SSAValue vectorLeaf(adaptor.getInputs()[0]);
-    kernel::DagType dagType = kernel::mlirTypeToDagType(input.getType());
-
-    auto implementedKernel =
-        implementRotateAndReduce(vectorLeaf, {}, period, steps, dagType, {},
-                                 innerOp->getName().getStringRef().str());
     rewriter.setInsertionPointAfter(op);
 
     auto layoutAttr = cast<LayoutAttr>(op->getAttr(kLayoutAttrName));
-    auto convertedType =
-        getTypeConverter()->convertType(input.getType(), layoutAttr);
+    Value finalOutput = adaptor.getInputs()[0];
+    if (steps > 1) {
+      SSAValue vectorLeaf(finalOutput);
+      kernel::DagType dagType = kernel::mlirTypeToDagType(input.getType());
 
-    Value finalOutput = materializeKernel(
-        rewriter, op.getLoc(), implementedKernel, convertedType, layoutAttr);
+      auto implementedKernel =
+          implementRotateAndReduce(vectorLeaf, {}, period, steps, dagType, {},
+                                   innerOp->getName().getStringRef().str());
+      auto convertedType =
+          getTypeConverter()->convertType(input.getType(), layoutAttr);
 
-    // Add the initial  value.
-    Value result = adaptor.getInits()[0];
-    addBiasAndReplace(rewriter, op, finalOutput, result, layoutAttr);
+      finalOutput = materializeKernel(rewriter, op.getLoc(), implementedKernel,
+                                      convertedType, layoutAttr);
+    }
+
+    // Combine with the initial value.
+    Value init = adaptor.getInits()[0];
+    if (isa<arith::AddFOp, arith::AddIOp>(innerOp)) {
+      addBiasAndReplace(rewriter, op, finalOutput, init, layoutAttr);
+      return;
+    }
+    ImplicitLocOpBuilder b(op->getLoc(), rewriter);
+    Operation* mulInit =
+        makeAppropriatelyTypedMulOp(b, op->getLoc(), finalOutput, init);
+    setAttributeAssociatedWith(mulInit->getResults()[0], kLayoutAttrName,
+                               layoutAttr);
+    setMaterializedAttr(mulInit);
+    rewriter.replaceOp(op, mulInit->getResults());
   }
 
   LogicalResult matchAndRewrite(
@@ -793,6 +808,15 @@ class ConvertLinalgReduce : public ConversionBase<linalg::ReduceOp> {
       return rewriter.notifyMatchFailure(
           op, "missing new layout attribute for input");
 
+    // The rotations do not move values across ciphertexts.
+    auto inputType = cast<RankedTensorType>(op.getInputs()[0].getType());
+    if (inputType.getNumElements() >
+        cast<RankedTensorType>(input.getType()).getDimSize(1)) {
+      return op.emitError(
+          "linalg.reduce only supported on inputs that fit into a single "
+          "ciphertext");
+    }
+
     // Based on ImplementRotateAndReduce
     rotateAndReduceKernel(op, adaptor, rewriter, innerOp);
     return success();
diff --git a/lib/Transforms/LayoutPropagation/LayoutPropagation.cpp b/lib/Transforms/LayoutPropagation/LayoutPropagation.cpp
index e2331a0..d31eb1a 100644
--- a/lib/Transforms/LayoutPropagation/LayoutPropagation.cpp
+++ b/lib/Transforms/LayoutPropagation/LayoutPropagation.cpp
@@ -1522,7 +1522,30 @@ LogicalResult LayoutPropagation::visitOperation(MatmulOp op) {
       secret::KernelAttr::get(ctx, KernelName::MatmulDiagonal, /*force=*/false);
   op->setAttr(secret::SecretDialect::kKernelAttrName, kernelAttr);
 
-  return success();
+  return alignInitWithResultLayout(op, op.getOutputs().front(),
+                                   outputLayoutAttr);
+}
+
+// Returns the layout of the result of reducing a tensor packed row-major.
+//
+// The sum of the elements along an axis is accumulated by rotations, so it ends
+// up in the slots of the first of those elements. The slots of the other
+// elements only hold it as well if the rotation is cyclic in the elements of the
+// tensor, which is the case for vectors whose size is a power of two.
+static LayoutAttr getReduceResultLayout(ReduceOp op, Type inputType,
+                                        LayoutAttr inputLayout) {
+  auto shape = cast<RankedTensorType>(inputType).getShape();
+  if (shape.size() == 1 && llvm::isPowerOf2_64(shape[0])) {
+    return convertLayoutForReduce(inputLayout, op.getDimensions());
+  }
+  auto relation = inputLayout.getIntegerRelation().clone();
+  auto offset = relation->getVarKindOffset(presburger::VarKind::Domain);
+  SmallVector<int64_t> dims(op.getDimensions());
+  llvm::sort(dims);
+  for (int64_t dim : llvm::reverse(dims)) {
+    relation->setAndEliminate(offset + dim, {0});
+  }
+  return LayoutAttr::getFromIntegerRelation(op.getContext(), *relation);
 }
 
 LogicalResult LayoutPropagation::visitOperation(ReduceOp op) {
@@ -1549,11 +1572,17 @@ LogicalResult LayoutPropagation::visitOperation(ReduceOp op) {
 
     // drop dimension on output
     LayoutAttr resultLayout =
-        convertLayoutForReduce(thisLayout, op.getDimensions());
+        getReduceResultLayout(op, thisType, thisLayout);
     assignedLayouts.insert({result, resultLayout});
     debugAssignLayout(result, resultLayout);
   }
   setResultLayoutAttr(op);
+
+  for (const auto& [init, result] : llvm::zip(op.getInits(), op.getResults())) {
+    if (failed(alignInitWithResultLayout(op, init,
+                                         getComposedLayoutAttr(result))))
+      return failure();
+  }
   return success();
 }
 
@@ -1858,7 +1887,7 @@ CompatibilityResult LayoutPropagation::hasCompatibleArgumentLayouts(
     LayoutAttr inputLayout = getComposedLayoutAttr(input);
     LayoutAttr initLayout = getComposedLayoutAttr(init);
     LayoutAttr reducedInputLayout =
-        convertLayoutForReduce(inputLayout, op.getDimensions());
+        getReduceResultLayout(op, input.getType(), inputLayout);
 
     if (reducedInputLayout != initLayout) {
       return {false, std::nullopt};
@@ -2128,7 +2157,7 @@ void LayoutPropagation::rectifyIncompatibleOperandLayouts(ReduceOp op) {
     LayoutAttr inputLayout = getComposedLayoutAttr(input);
     LayoutAttr initLayout = getComposedLayoutAttr(init);
     LayoutAttr reducedInputLayout =
-        convertLayoutForReduce(inputLayout, op.getDimensions());
+        getReduceResultLayout(op, input.getType(), inputLayout);
 
     if (reducedInputLayout != initLayout) {
       ConvertLayoutOp convertOp = ConvertLayoutOp::create(
-- 
2.43.0


From 71598ed03e8234f53cabe1d341e3c6d561ff7d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:22 +0000
Subject: [PATCH 63/71] fix: dot products of vectors that are not packed from
 the first slot on

---
 .../LayoutPropagation/LayoutPropagation.cpp   | 27 +++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/lib/Transforms/LayoutPropagation/LayoutPropagation.cpp b/lib/Transforms/LayoutPropagation/LayoutPropagation.cpp
index d31eb1a..4b394ab 100644
--- a/lib/Transforms/LayoutPropagation/LayoutPropagation.cpp
+++ b/lib/Transforms/LayoutPropagation/LayoutPropagation.cpp
@@ -785,6 +785,16 @@ LogicalResult LayoutPropagation::visitOperation(MatvecOp op) {
   return success();
 }
 
+// Returns true if element i of a vector is packed in slot i of the first
+// ciphertext, which is what the kernel of a dot product accumulates.
+static bool isPackedForDot(RankedTensorType vectorType, LayoutAttr layout) {
+  auto relation = layout.getIntegerRelation();
+  for (int64_t i = 0, e = vectorType.getDimSize(0); i < e; ++i) {
+    if (!relation.containsPointNoLocal({i, 0, i}).has_value()) return false;
+  }
+  return true;
+}
+
 LogicalResult LayoutPropagation::visitOperation(DotOp op) {
   LLVM_DEBUG(llvm::dbgs() << "visitOperation(DotOp): " << op << "\n");
   Value result = op.getResult(0);
@@ -1862,6 +1872,11 @@ CompatibilityResult LayoutPropagation::hasCompatibleArgumentLayouts(DotOp op) {
     return {false, std::nullopt};
   }
 
+  if (!isPackedForDot(cast<RankedTensorType>(op.getOperand(0).getType()),
+                      lhsLayout)) {
+    return {false, std::nullopt};
+  }
+
   // Outs operand (operand 2) should be 0D.
   LayoutAttr outsLayout = getComposedLayoutAttr(op.getOperand(2));
   if (outsLayout.getIntegerRelation().getNumDomainVars() != 0) {
@@ -2114,6 +2129,18 @@ void LayoutPropagation::rectifyIncompatibleOperandLayouts(DotOp op) {
   LayoutAttr lhsLayout = getComposedLayoutAttr(op.getOperand(0));
   LayoutAttr rhsLayout = getComposedLayoutAttr(op.getOperand(1));
 
+  auto vectorType = cast<RankedTensorType>(op.getOperand(0).getType());
+  if (!isPackedForDot(vectorType, lhsLayout)) {
+    auto rowMajorRelation = getRowMajorLayoutRelation(vectorType, minSlotCount);
+    auto [toReplace, newLayoutAttr] =
+        convertToLayout(&getContext(), builder, op, op.getOperand(0), lhsLayout,
+                        rowMajorRelation);
+    debugAssignLayout(toReplace, newLayoutAttr);
+    assignedLayouts.insert({toReplace, newLayoutAttr});
+    lhsLayout = newLayoutAttr;
+    rhsLayout = getComposedLayoutAttr(op.getOperand(1));
+  }
+
   if (lhsLayout != rhsLayout) {
     // Convert RHS to match LHS layout
     ConvertLayoutOp convertOp = ConvertLayoutOp::create(
-- 
2.43.0


From 60efe0b573f09dde8dab00bcb31c926255d4c74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:22 +0000
Subject: [PATCH 64/71] fix: determine the secret operand of a bicyclic matmul
 from its layout

---
 .../ConvertToCiphertextSemantics.cpp          | 24 +++++++++----------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/lib/Transforms/ConvertToCiphertextSemantics/ConvertToCiphertextSemantics.cpp b/lib/Transforms/ConvertToCiphertextSemantics/ConvertToCiphertextSemantics.cpp
index e8655fc..43d289e 100644
--- a/lib/Transforms/ConvertToCiphertextSemantics/ConvertToCiphertextSemantics.cpp
+++ b/lib/Transforms/ConvertToCiphertextSemantics/ConvertToCiphertextSemantics.cpp
@@ -2834,19 +2834,17 @@ struct ConvertLinalgMatmul
                   "kernel: "
                << op << "\n");
 
-    // Determine if the lhs or rhs is the secret operand.
-    bool secretLhs = false;
-    auto genericOp = op->getParentOfType<secret::GenericOp>();
-    if (genericOp) {
-      if (auto blockArg = dyn_cast<BlockArgument>(op.getInputs()[0])) {
-        if (blockArg.getArgNumber() < genericOp.getNumOperands()) {
-          auto opArg = genericOp.getOperand(blockArg.getArgNumber());
-          if (isa<secret::SecretType>(opArg.getType())) {
-            secretLhs = true;
-          }
-        }
-      }
-    }
+    // Determine if the lhs or rhs is the secret operand: it is the one packed in
+    // the bicyclic layout.
+    auto numSlots = cast<RankedTensorType>(adaptor.getInputs()[0].getType())
+                        .getDimSize(1);
+    auto lhsLayout =
+        getTypeConverter()->getContextualAttr(adaptor.getInputs()[0]);
+    bool secretLhs =
+        succeeded(lhsLayout) && isa<LayoutAttr>(lhsLayout.value()) &&
+        isRelationBicyclic(
+            cast<RankedTensorType>(op.getInputs()[0].getType()), numSlots,
+            cast<LayoutAttr>(lhsLayout.value()).getIntegerRelation());
 
     TypedValue<RankedTensorType> ct = cast<TypedValue<RankedTensorType>>(
         adaptor.getInputs()[secretLhs ? 0 : 1]);
-- 
2.43.0


From 2f679ee43399a048465fd152c1d003c9f69ecbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:22 +0000
Subject: [PATCH 65/71] fix: report slices whose layout cannot be pushed
 through insert_slice

---
 lib/Transforms/LayoutPropagation/LayoutPropagation.cpp | 5 ++++-
 lib/Utils/Layout/Hoisting.cpp                          | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/Transforms/LayoutPropagation/LayoutPropagation.cpp b/lib/Transforms/LayoutPropagation/LayoutPropagation.cpp
index 4b394ab..cf147fc 100644
--- a/lib/Transforms/LayoutPropagation/LayoutPropagation.cpp
+++ b/lib/Transforms/LayoutPropagation/LayoutPropagation.cpp
@@ -2049,7 +2049,10 @@ CompatibilityResult LayoutPropagation::hasCompatibleArgumentLayouts(
   auto compatibleDestRelation = pushSliceLayoutThroughInsertSlice(
       SmallVector<int64_t>(op.getStaticSizes()), op.getResultType().getShape(),
       insertLayout.getIntegerRelation());
-  assert(succeeded(compatibleDestRelation) && "expected to infer slice layout");
+  if (failed(compatibleDestRelation)) {
+    return {false, op->emitError("unable to infer a layout for the "
+                                 "destination from the inserted slice")};
+  }
 
   // We compare layout attributes, which is a strict equality check on the
   // attribute string. This is more strict than comparing the IntegerRelations,
diff --git a/lib/Utils/Layout/Hoisting.cpp b/lib/Utils/Layout/Hoisting.cpp
index fa580cc..3fa6fa2 100644
--- a/lib/Utils/Layout/Hoisting.cpp
+++ b/lib/Utils/Layout/Hoisting.cpp
@@ -91,7 +91,7 @@ FailureOr<presburger::IntegerRelation> pushSliceLayoutThroughInsertSlice(
   for (auto [idx, size] : llvm::enumerate(insertSliceSizes)) {
     if (size != 1) {
       // Non-unit sizes must equal the input slice.
-      assert(size == resultShape[idx]);
+      if (size != resultShape[idx]) return failure();
       continue;
     }
     // We have a unit dimension. If the unit dimension matches with an output
-- 
2.43.0


From e2025f5a9700aafe3c817f8fb46690c287e7b959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:22 +0000
Subject: [PATCH 66/71] fix: keep the layout conversion of matvec inputs that
 must be replicated

---
 lib/Transforms/LayoutOptimization/Patterns.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/Transforms/LayoutOptimization/Patterns.cpp b/lib/Transforms/LayoutOptimization/Patterns.cpp
index dacff90..be37a23 100644
--- a/lib/Transforms/LayoutOptimization/Patterns.cpp
+++ b/lib/Transforms/LayoutOptimization/Patterns.cpp
@@ -118,7 +118,10 @@ LogicalResult FoldMatvecInputConversionIntoPlaintext::matchAndRewrite(
   const auto& toRelation = toLayout.getIntegerRelation();
   auto ciphertextSize = toRelation.getConstantBoundOnDimSize64(
       toRelation.getVarKindOffset(presburger::VarKind::Range) + 1);
-  if (!ciphertextSize ||
+  // The kernel rotates the vector cyclically, so an unconverted vector must fill
+  // the ciphertext: a shorter one would have to be replicated, and be packed in
+  // slots that are columns of the matrix.
+  if (!ciphertextSize || vectorType.getDimSize(0) != *ciphertextSize ||
       !isRelationRowMajor(vectorType, *ciphertextSize, toRelation) ||
       !isRelationSquatDiagonal(matrixType, *ciphertextSize,
                                matrixLayout.getIntegerRelation()) ||
-- 
2.43.0


From 95578aed59ac9fddb75db76e68bee6ecfdbf39c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:17 +0000
Subject: [PATCH 67/71] fix: align the initial value of matvec and dot with the
 layout of the result

---
 lib/Transforms/LayoutPropagation/LayoutPropagation.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/Transforms/LayoutPropagation/LayoutPropagation.cpp b/lib/Transforms/LayoutPropagation/LayoutPropagation.cpp
index cf147fc..e574b4b 100644
--- a/lib/Transforms/LayoutPropagation/LayoutPropagation.cpp
+++ b/lib/Transforms/LayoutPropagation/LayoutPropagation.cpp
@@ -782,7 +782,8 @@ LogicalResult LayoutPropagation::visitOperation(MatvecOp op) {
       secret::KernelAttr::get(ctx, KernelName::MatvecDiagonal, /*force=*/false);
   op->setAttr(secret::SecretDialect::kKernelAttrName, kernelAttr);
 
-  return success();
+  return alignInitWithResultLayout(op, op.getOutputs().front(),
+                                   resultLayout);
 }
 
 // Returns true if element i of a vector is packed in slot i of the first
@@ -815,7 +816,8 @@ LogicalResult LayoutPropagation::visitOperation(DotOp op) {
       secret::KernelAttr::get(ctx, KernelName::Dot, /*force=*/false);
   op->setAttr(secret::SecretDialect::kKernelAttrName, kernelAttr);
 
-  return success();
+  return alignInitWithResultLayout(op, op.getOutputs().front(),
+                                   layout.value());
 }
 
 LogicalResult LayoutPropagation::alignInitWithResultLayout(
-- 
2.43.0


From f82191c0ab4a811084a19fede049766a78291fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:38 +0000
Subject: [PATCH 68/71] fix: record the slice's layout for a materialized
 extract_slice

---
 .../ConvertToCiphertextSemantics.cpp                            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Transforms/ConvertToCiphertextSemantics/ConvertToCiphertextSemantics.cpp b/lib/Transforms/ConvertToCiphertextSemantics/ConvertToCiphertextSemantics.cpp
index 43d289e..95e42a3 100644
--- a/lib/Transforms/ConvertToCiphertextSemantics/ConvertToCiphertextSemantics.cpp
+++ b/lib/Transforms/ConvertToCiphertextSemantics/ConvertToCiphertextSemantics.cpp
@@ -2557,7 +2557,7 @@ class ConvertTensorExtractSlice
 
     setMaterializedAttr(remapAndExtract);
     setAttributeAssociatedWith(remapAndExtract->getResult(0), kLayoutAttrName,
-                               sliceLayoutAttr);
+                               resultLayout);
     rewriter.replaceOp(op, remapAndExtract->getResult(0));
     return success();
   }
-- 
2.43.0


From c52ed7cf777d18798514b543ae1a9a2e2e79fde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:45 +0000
Subject: [PATCH 69/71] fix: reject an if without an else in the Python
 frontend

---
 frontend/heir/mlir_emitter.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/frontend/heir/mlir_emitter.py b/frontend/heir/mlir_emitter.py
index 47afc6c..67084c0 100644
--- a/frontend/heir/mlir_emitter.py
+++ b/frontend/heir/mlir_emitter.py
@@ -756,6 +756,12 @@ class TextualMlirEmitter:
 
     # Get variables that are used after the branches.
     successors = self.cfa.graph._find_descendents()[branch.truebr]
+    if branch.falsebr in successors:
+      # There is no else: the false branch is the code after the if, which the
+      # true branch also continues with.
+      raise CompilerError(
+          "An if statement must have an else, or return", branch.loc
+      )
     true_vars_to_yield = get_vars_used_after(
         true_block, successors, self.ssa_ir
     )
-- 
2.43.0


From e167601df2b8bf1fcd6a54c73b3bb7bdba9ac43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:45 +0000
Subject: [PATCH 70/71] fix: keep uses of the upper bound when peeling the
 first iteration of an scf.for

---
 lib/Transforms/Halo/Patterns.cpp | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/lib/Transforms/Halo/Patterns.cpp b/lib/Transforms/Halo/Patterns.cpp
index a18014d..f45c2a6 100644
--- a/lib/Transforms/Halo/Patterns.cpp
+++ b/lib/Transforms/Halo/Patterns.cpp
@@ -16,9 +16,11 @@
 #include "mlir/include/mlir/Dialect/Affine/Analysis/LoopAnalysis.h"  // from @llvm-project
 #include "mlir/include/mlir/Dialect/Affine/IR/AffineOps.h"  // from @llvm-project
 #include "mlir/include/mlir/Dialect/Affine/LoopUtils.h"  // from @llvm-project
+#include "mlir/include/mlir/Dialect/Arith/IR/Arith.h"    // from @llvm-project
 #include "mlir/include/mlir/Dialect/Func/IR/FuncOps.h"   // from @llvm-project
 #include "mlir/include/mlir/Dialect/SCF/Transforms/Transforms.h"  // from @llvm-project
 #include "mlir/include/mlir/Dialect/SCF/Utils/Utils.h"  // from @llvm-project
+#include "mlir/include/mlir/Dialect/Utils/StaticValueUtils.h"  // from @llvm-project
 #include "mlir/include/mlir/IR/Attributes.h"            // from @llvm-project
 #include "mlir/include/mlir/IR/Block.h"                 // from @llvm-project
 #include "mlir/include/mlir/IR/BuiltinAttributes.h"     // from @llvm-project
@@ -147,13 +149,30 @@ LogicalResult PeelPlaintextScfForInit::matchAndRewrite(
   LLVM_DEBUG(
       llvm::dbgs() << "Found mismatch between init types and iter arg types\n");
 
-  scf::ForOp firstIteration;
-  LogicalResult result =
-      peelForLoopFirstIteration(rewriter, forOp, firstIteration);
-  if (failed(result)) {
+  // Peeling is not needed if there is one or less iteration.
+  auto lbInt = getConstantIntValue(forOp.getLowerBound());
+  auto ubInt = getConstantIntValue(forOp.getUpperBound());
+  auto stepInt = getConstantIntValue(forOp.getStep());
+  if (lbInt && ubInt && stepInt && *ubInt - *lbInt <= *stepInt) {
     return failure();
   }
 
+  // Split the loop into two loops, the first of which has just one iteration,
+  // and then unroll the single-iteration loop. Nb., this does not use
+  // scf::peelForLoopFirstIteration because that also replaces the uses of the
+  // upper bound in the body of the peeled iteration.
+  Value splitBound = rewriter.createOrFold<arith::AddIOp>(
+      forOp.getLoc(), forOp.getLowerBound(), forOp.getStep());
+  scf::ForOp firstIteration =
+      cast<scf::ForOp>(rewriter.clone(*forOp.getOperation()));
+  rewriter.modifyOpInPlace(firstIteration, [&]() {
+    firstIteration.setUpperBound(splitBound);
+  });
+  rewriter.modifyOpInPlace(forOp, [&]() {
+    forOp.getInitArgsMutable().assign(firstIteration->getResults());
+    forOp.setLowerBound(splitBound);
+  });
+
   if (failed(loopUnrollFull(firstIteration))) {
     LLVM_DEBUG(llvm::dbgs() << "Failed to unroll single-iteration scf.for!\n");
   }
-- 
2.43.0


From c7794efa9eb25b1b27c032092cac03edff14094f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:45 +0000
Subject: [PATCH 71/71] fix: do not mutate a ciphertext in place while another
 value shares its memory

---
 lib/Utils/AllocToInPlaceUtils.h | 77 +++++++++++++++++++++++++++++++--
 1 file changed, 73 insertions(+), 4 deletions(-)

diff --git a/lib/Utils/AllocToInPlaceUtils.h b/lib/Utils/AllocToInPlaceUtils.h
index 99e1cac..c3f7795 100644
--- a/lib/Utils/AllocToInPlaceUtils.h
+++ b/lib/Utils/AllocToInPlaceUtils.h
@@ -17,6 +17,7 @@
 #include "mlir/include/mlir/Dialect/MemRef/IR/MemRef.h"  // from @llvm-project
 #include "mlir/include/mlir/Dialect/SCF/IR/SCF.h"        // from @llvm-project
 #include "mlir/include/mlir/Dialect/Tensor/IR/Tensor.h"  // from @llvm-project
+#include "mlir/include/mlir/Dialect/Utils/StaticValueUtils.h"  // from @llvm-project
 #include "mlir/include/mlir/IR/Dominance.h"              // from @llvm-project
 #include "mlir/include/mlir/IR/Visitors.h"               // from @llvm-project
 #include "mlir/include/mlir/Support/LLVM.h"              // from @llvm-project
@@ -353,13 +354,81 @@ class OperandMutatedStorageInfo {
   }
 
   bool isSafeToMutateInPlace(Operation* op, Value operand, Liveness* liveness) {
-    Value storage = getStorageFromValue(operand);
-    bool mutatedValueIsDead = liveness->isDeadAfter(operand, op);
-    bool storageIsDead = liveness->isDeadAfter(storage, op);
-    return mutatedValueIsDead && storageIsDead;
+    // Walk from the operand to the value that owns the memory, so that every
+    // name the memory has had on the way is considered.
+    Value value = operand;
+    while (true) {
+      if (!liveness->isDeadAfter(value, op) || isCaptured(value, op)) {
+        return false;
+      }
+      Value storage = getStorageFromValue(value);
+      if (storage == value) {
+        if (auto inPlace = value.getDefiningOp<InPlaceOpInterface>()) {
+          storage = inPlace->getOperand(inPlace.getInPlaceOperandIndex());
+        }
+      }
+      if (storage == value) break;
+      value = storage;
+    }
+    return ownsMemory(value, op, liveness);
   }
 
  private:
+  // Returns true if a user of the value may keep a reference to its memory,
+  // e.g., by inserting it into a tensor that is read later. The ops of the
+  // dialect being rewritten only read their operands.
+  static bool isCaptured(Value value, Operation* op) {
+    auto isOnlyDebugged = [](Value v) {
+      return llvm::all_of(v.getUsers(), [](Operation* user) {
+        auto callOp = dyn_cast<func::CallOp>(user);
+        return callOp && callOp->getNumResults() == 0;
+      });
+    };
+    return llvm::any_of(value.getUsers(), [&](Operation* user) {
+      if (user->getDialect() == op->getDialect()) return false;
+      if (isa<func::CallOp>(user)) return user->getNumResults() != 0;
+      if (auto insertOp = dyn_cast<tensor::InsertOp>(user)) {
+        return !isOnlyDebugged(insertOp.getResult());
+      }
+      return true;
+    });
+  }
+
+  // Returns true if no other value can refer to the memory of the given value
+  // when op is executed. Values of enclosing regions are rejected because op
+  // may be executed more than once for one such value.
+  static bool ownsMemory(Value value, Operation* op, Liveness* liveness) {
+    if (value.getParentRegion() != op->getParentRegion()) return false;
+
+    auto isFunctionArg = [](Value v) {
+      auto blockArg = dyn_cast<BlockArgument>(v);
+      return blockArg &&
+             isa<func::FuncOp>(blockArg.getOwner()->getParentOp());
+    };
+    Operation* definingOp = value.getDefiningOp();
+    if (!definingOp) return isFunctionArg(value);
+    if (definingOp->getDialect() == op->getDialect()) return true;
+
+    // An extracted value shares its memory with the tensor, so nothing may read
+    // that element of the tensor again.
+    auto extractOp = dyn_cast<tensor::ExtractOp>(definingOp);
+    if (!extractOp || !isFunctionArg(extractOp.getTensor())) return false;
+    return llvm::all_of(extractOp.getTensor().getUsers(), [&](Operation* user) {
+      auto otherOp = dyn_cast<tensor::ExtractOp>(user);
+      if (!otherOp) return false;
+      if (otherOp == extractOp) return true;
+      for (auto [index, otherIndex] :
+           llvm::zip(extractOp.getIndices(), otherOp.getIndices())) {
+        auto constant = getConstantIntValue(index);
+        auto otherConstant = getConstantIntValue(otherIndex);
+        if (constant && otherConstant && *constant != *otherConstant) {
+          return true;
+        }
+      }
+      return liveness->isDeadAfter(otherOp.getResult(), op);
+    });
+  }
+
   // Map from an SSA value to the canonical storage value.
   DenseMap<Value, Value> valueToStorage;
 
-- 
2.43.0

