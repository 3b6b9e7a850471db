From 4d4f25a98e20b0d1e9232dd9a33795f7c519e07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:34 +0000
Subject: [PATCH 001/111] fix: polynomial addition combined terms of different
 exponents

---
 lib/Utils/Polynomial/Polynomial.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/Utils/Polynomial/Polynomial.h b/lib/Utils/Polynomial/Polynomial.h
index ac67cba..a72232e 100644
--- a/lib/Utils/Polynomial/Polynomial.h
+++ b/lib/Utils/Polynomial/Polynomial.h
@@ -214,6 +214,9 @@ class PolynomialBase {
       }
       if (it2 == other.terms.end()) continue;
 
+      // Skipping terms of `other` may have moved past the exponent of `it1`.
+      if (it1->getExponent() != it2->getExponent()) continue;
+
       Monomial newTerm = it1->add(*it2);
       if (!newTerm.getCoefficient().isZero()) newTerms.push_back(newTerm);
 
-- 
2.43.0


From 0558c0ce6d564c6995ef0850aa304dddf40ae166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:34 +0000
Subject: [PATCH 002/111] fix: arithmetic on the zero polynomial read past the
 end of its terms

---
 lib/Utils/Polynomial/Polynomial.cpp | 4 ++--
 lib/Utils/Polynomial/Polynomial.h   | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/Utils/Polynomial/Polynomial.cpp b/lib/Utils/Polynomial/Polynomial.cpp
index f5240c5..6387cae 100644
--- a/lib/Utils/Polynomial/Polynomial.cpp
+++ b/lib/Utils/Polynomial/Polynomial.cpp
@@ -129,10 +129,10 @@ ChebyshevPolynomial ChebyshevPolynomial::compose(
   // Since y is a polynomial in x, the d_k are also polynomials in x. We can
   // compute the Chebyshev coefficients of each d_k iteratively.
 
-  int n = getDegree();
-  if (n < 0) {
+  if (terms.empty()) {
     return ChebyshevPolynomial::zero();
   }
+  int n = getDegree();
 
   auto otherCoeffs = other.getCoeffMap();
   APFloat b = otherCoeffs.contains(0) ? otherCoeffs.at(0).getCoefficient()
diff --git a/lib/Utils/Polynomial/Polynomial.h b/lib/Utils/Polynomial/Polynomial.h
index a72232e..7bca2ba 100644
--- a/lib/Utils/Polynomial/Polynomial.h
+++ b/lib/Utils/Polynomial/Polynomial.h
@@ -339,8 +339,9 @@ class PolynomialBase {
 
   bool isZero() const { return getTerms().empty(); }
 
+  // The degree of the zero polynomial is 0.
   unsigned getDegree() const {
-    return terms.back().getExponent().getZExtValue();
+    return terms.empty() ? 0 : terms.back().getExponent().getZExtValue();
   }
 
   ArrayRef<Monomial> getTerms() const { return terms; }
-- 
2.43.0


From 0c5467dca7d41082d18073ab0e2f59f9d5f978bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:34 +0000
Subject: [PATCH 003/111] fix: composing a Chebyshev series of degree 2 dropped
 a term

---
 lib/Utils/Polynomial/Polynomial.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/Utils/Polynomial/Polynomial.cpp b/lib/Utils/Polynomial/Polynomial.cpp
index 6387cae..5becf5d 100644
--- a/lib/Utils/Polynomial/Polynomial.cpp
+++ b/lib/Utils/Polynomial/Polynomial.cpp
@@ -145,6 +145,8 @@ ChebyshevPolynomial ChebyshevPolynomial::compose(
   SmallVector<APFloat> d_kplus2;
   SmallVector<APFloat> d_kplus1 = {c[n]};
   SmallVector<APFloat> d_2_coeffs;
+  // The loop below starts at d_{n-1}, so it does not visit d_2 if n == 2.
+  if (n == 2) d_2_coeffs = d_kplus1;
 
   for (int k = n - 1; k >= 0; --k) {
     int deg_kplus1 = n - (k + 1);
-- 
2.43.0


From a06046575a7c23819932b5edc53a2a9397482232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:34 +0000
Subject: [PATCH 004/111] fix: RNS polynomial addition overflowed for moduli
 above 2^63

---
 lib/Utils/Polynomial/RNSPolynomial.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Utils/Polynomial/RNSPolynomial.cpp b/lib/Utils/Polynomial/RNSPolynomial.cpp
index 7a589c3..e653d79 100644
--- a/lib/Utils/Polynomial/RNSPolynomial.cpp
+++ b/lib/Utils/Polynomial/RNSPolynomial.cpp
@@ -42,7 +42,8 @@ RNSPolynomial RNSPolynomial::add(const RNSPolynomial& other) const {
       uint64_t a = getElement(limbIdx, coeffIdx);
       uint64_t b = other.getElement(limbIdx, coeffIdx);
       uint64_t sum = a + b;
-      if (sum >= modulus) {
+      // The sum of two residues may wrap around for moduli above 2^63.
+      if (sum < a || sum >= modulus) {
         sum -= modulus;
       }
       resultData.push_back(sum);
-- 
2.43.0


From f80dfaeb16a54bff3351ff59e953c9dfc5334c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:01 +0000
Subject: [PATCH 005/111] fix: shortest path search returned paths that are not
 shortest or not paths

The linkback map stored the last relaxed successor of each vertex, so walking
it from the start could leave the shortest path, or never reach the end.
Vertices were also expanded before their distance was final when a weight
function is given.
---
 lib/Utils/Graph/Graph.h | 47 ++++++++++++++++++-----------------------
 1 file changed, 20 insertions(+), 27 deletions(-)

diff --git a/lib/Utils/Graph/Graph.h b/lib/Utils/Graph/Graph.h
index c01c705..e404205 100644
--- a/lib/Utils/Graph/Graph.h
+++ b/lib/Utils/Graph/Graph.h
@@ -439,9 +439,8 @@ class Graph {
     std::vector<V> path;
     std::queue<V> q;
 
-    std::set<V> visited;
     std::map<V, uint64_t> distance;  // from @start node
-    std::map<V, V> linkback;
+    std::map<V, V> linkback;         // predecessor on the best path so far
     for (auto& v : vertices) {
       distance[v] = std::numeric_limits<uint64_t>::max();
     }
@@ -453,43 +452,37 @@ class Graph {
       V curr = q.front();
       q.pop();
 
-      if (curr == end) {
-        distance[curr] = 0;
-        break;
-      }
-
-      if (!visited.insert(curr).second) {
-        // backedge
-        continue;
-      }
-
       // nothing to reduce on this edge.
       if (!outEdges.count(curr)) {
         continue;
       }
 
       for (auto& next : outEdges.at(curr)) {
-        if (distance[next] > distance[curr] + weight_fn(curr, next)) {
-          linkback[curr] = next;
-          distance[next] = distance[curr] + weight_fn(curr, next);
-        } else if (distance[curr] == 0) {
-          linkback[curr] = next;
+        uint64_t weight = weight_fn(curr, next);
+        // skip edges that cannot be traversed
+        if (weight >=
+            std::numeric_limits<uint64_t>::max() - distance.at(curr)) {
+          continue;
+        }
+        if (distance[next] > distance.at(curr) + weight) {
+          linkback[next] = curr;
+          distance[next] = distance.at(curr) + weight;
+          q.push(next);
         }
-        q.push(next);
       }
     }
 
-    if (distance[end] != std::numeric_limits<uint64_t>::max()) {
-      // some path found
-      auto curr = start;
-      while (curr != end) {
-        path.push_back(curr);
-        curr = linkback[curr];
-      }
-      path.push_back(end);
-    } else {
+    if (!contains(end) ||
+        distance.at(end) == std::numeric_limits<uint64_t>::max()) {
       return failure();
     }
+
+    // some path found; walk it back from the end
+    for (V curr = end; curr != start; curr = linkback.at(curr)) {
+      path.push_back(curr);
+    }
+    path.push_back(start);
+    std::reverse(path.begin(), path.end());
     return path;
   }
 
-- 
2.43.0


From 2b43ace90c7ab6464a948e1a03397d611137b628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:01 +0000
Subject: [PATCH 006/111] fix: condensing a graph deleted components that
 contain a self-loop

The self-loop was contracted like any other edge of the component, which
removed its vertex together with all of its edges.
---
 lib/Utils/Graph/Graph.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Utils/Graph/Graph.h b/lib/Utils/Graph/Graph.h
index e404205..bb71621 100644
--- a/lib/Utils/Graph/Graph.h
+++ b/lib/Utils/Graph/Graph.h
@@ -245,7 +245,8 @@ class Graph {
         for (const V& u : aliveSnapShot) {
           if (!alive.count(u)) continue;
           for (V v : edgesOutOf(u)) {
-            if (alive.count(v)) {
+            // A self-loop is not an edge that can be contracted.
+            if (v != u && alive.count(v)) {
               contractEdge(u, v, mergeFn);
               alive.erase(v);
             }
-- 
2.43.0


From 38c2d5550c2c5b10a64dc3f239b0304de74f565d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:01 +0000
Subject: [PATCH 007/111] fix: getLongestSourceToSinkPath did not compile when
 instantiated

It used the members of the path on the FailureOr that wraps it.
---
 lib/Utils/Graph/Graph.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Utils/Graph/Graph.h b/lib/Utils/Graph/Graph.h
index bb71621..e41477e 100644
--- a/lib/Utils/Graph/Graph.h
+++ b/lib/Utils/Graph/Graph.h
@@ -267,8 +267,8 @@ class Graph {
         if (src == sink) continue;  // isolated node is both source and sink
         auto res = getShortestPath(src, sink);
         if (succeeded(res)) {
-          if (result.size() < res.size()) {
-            result = res;
+          if (result.size() < res->size()) {
+            result = *res;
           }
         }
       }
-- 
2.43.0


From 86d35b0caa3767c4eae7868c766266476d451c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:31 +0000
Subject: [PATCH 008/111] fix: splitDegree(1) returned parts that do not add up
 to 1

---
 lib/Utils/Polynomial/ChebyshevPatersonStockmeyer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Utils/Polynomial/ChebyshevPatersonStockmeyer.h b/lib/Utils/Polynomial/ChebyshevPatersonStockmeyer.h
index f372b02..ac302b1 100644
--- a/lib/Utils/Polynomial/ChebyshevPatersonStockmeyer.h
+++ b/lib/Utils/Polynomial/ChebyshevPatersonStockmeyer.h
@@ -78,7 +78,7 @@ inline std::pair<int64_t, int64_t> splitDegree(int64_t n) {
   // Check if n is a power of 2
   if ((n & (n - 1)) == 0) {
     // Necessary for optimal depth
-    return {n / 2, n / 2};
+    return {n / 2, n - n / 2};
   } else {
     // [Lee et al. 2020] : Maximize the number of odd terms of Chebyshev basis
     // Find k = floor(log2(n-1))
-- 
2.43.0


From b36ab1b1f0e2257493bed014d814ec8536cf2b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:29 +0000
Subject: [PATCH 009/111] fix: slice relations mapped the wrong dimensions when
 unit dimensions are kept

Unit dimensions of a slice that are not rank-reduced shifted every later
dimension by one, and dynamic offsets were treated as constants.
---
 lib/Utils/Layout/Utils.cpp | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/lib/Utils/Layout/Utils.cpp b/lib/Utils/Layout/Utils.cpp
index b05d686..91c233b 100644
--- a/lib/Utils/Layout/Utils.cpp
+++ b/lib/Utils/Layout/Utils.cpp
@@ -1141,10 +1141,26 @@ presburger::IntegerRelation getCollapsedRelation(
   return result;
 }
 
+// Returns the dimensions of a slice with the given static sizes that are
+// dropped in the (possibly rank-reduced) sliceType, or nullopt if the slice has
+// a dynamic offset, size or stride, or does not match sliceType.
+static std::optional<llvm::SmallDenseSet<unsigned>> getStaticSliceDroppedDims(
+    RankedTensorType sliceType, ArrayRef<int64_t> offsets,
+    ArrayRef<int64_t> sizes, ArrayRef<int64_t> strides) {
+  if (ShapedType::isDynamicShape(offsets) ||
+      ShapedType::isDynamicShape(sizes) || ShapedType::isDynamicShape(strides))
+    return std::nullopt;
+  return computeRankReductionMask(sizes, sliceType.getShape());
+}
+
 FailureOr<presburger::IntegerRelation> getSliceInsertionRelation(
     RankedTensorType sliceType, RankedTensorType resultType,
     SmallVector<int64_t> offsets, SmallVector<int64_t> sizes,
     SmallVector<int64_t> strides) {
+  auto droppedDims =
+      getStaticSliceDroppedDims(sliceType, offsets, sizes, strides);
+  if (!droppedDims) return failure();
+
   IntegerRelation result(PresburgerSpace::getRelationSpace(
       sliceType.getRank(), /*numRange=*/resultType.getRank(), /*numSymbol=*/0,
       /*numLocals=*/0));
@@ -1168,12 +1184,11 @@ FailureOr<presburger::IntegerRelation> getSliceInsertionRelation(
   }
 
   // Source tensor's dimensions (d0, d1, ...) are mapped sequentially to the
-  // destination tensor's dimensions (r0, r1, ...) for which the slice size is
-  // greater than 1.
+  // destination tensor's dimensions (r0, r1, ...) that are not rank-reduced.
   auto constOffset = result.getNumCols() - 1;
   unsigned int sourceDim = 0;
   for (auto destDim = 0; destDim < resultType.getRank(); ++destDim) {
-    if (sizes[destDim] > 1) {
+    if (!droppedDims->contains(destDim)) {
       // Map from the i-th source dimension
       // r_j = offsets[j] + d_i * strides[j]
       addConstraint(result,
@@ -1254,6 +1269,10 @@ FailureOr<presburger::IntegerRelation> getSliceExtractionRelation(
     RankedTensorType sourceType, RankedTensorType resultType,
     SmallVector<int64_t> offsets, SmallVector<int64_t> sizes,
     SmallVector<int64_t> strides) {
+  auto droppedDims =
+      getStaticSliceDroppedDims(resultType, offsets, sizes, strides);
+  if (!droppedDims) return failure();
+
   IntegerRelation result(PresburgerSpace::getRelationSpace(
       sourceType.getRank(), /*numRange=*/resultType.getRank(),
       /*numSymbol=*/0,
@@ -1272,12 +1291,12 @@ FailureOr<presburger::IntegerRelation> getSliceExtractionRelation(
   }
 
   // Destination tensor's dimensions (d0, d1, ...) are mapped sequentially
-  // from the source tensor's dimensions (r0, r1, ...) for which the slice
-  // size is greater than 1.
+  // from the source tensor's dimensions (r0, r1, ...) that are not
+  // rank-reduced.
   auto constOffset = result.getNumCols() - 1;
   unsigned int resultDim = 0;
   for (auto sourceDim = 0; sourceDim < sourceType.getRank(); ++sourceDim) {
-    if (sizes[sourceDim] > 1) {
+    if (!droppedDims->contains(sourceDim)) {
       // Map to the i-th result dimension
       // d_j = offsets[j] + r_i * strides[j]
       addConstraint(result,
-- 
2.43.0


From 44bdf0ebe0f75d118660356ecd52335bdfb3aed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:58 +0000
Subject: [PATCH 010/111] fix: layouts of more than 2^24 elements got too few
 ciphertexts

The ciphertext count was rounded up in single precision.
---
 lib/Utils/Layout/Convolution.cpp | 8 ++++----
 lib/Utils/Layout/Utils.cpp       | 7 +++----
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/lib/Utils/Layout/Convolution.cpp b/lib/Utils/Layout/Convolution.cpp
index 74f6b86..7b09222 100644
--- a/lib/Utils/Layout/Convolution.cpp
+++ b/lib/Utils/Layout/Convolution.cpp
@@ -2,7 +2,6 @@
 
 #include <algorithm>
 #include <cassert>
-#include <cmath>
 #include <cstdint>
 #include <string>
 #include <vector>
@@ -12,6 +11,7 @@
 #include "lib/Utils/MathUtils.h"
 #include "llvm/include/llvm/ADT/STLExtras.h"           // from @llvm-project
 #include "llvm/include/llvm/Support/FormatVariadic.h"  // from @llvm-project
+#include "llvm/include/llvm/Support/MathExtras.h"      // from @llvm-project
 #include "mlir/include/mlir/Analysis/Presburger/IntegerRelation.h"  // from @llvm-project
 #include "mlir/include/mlir/Analysis/Presburger/PresburgerSpace.h"  // from @llvm-project
 #include "mlir/include/mlir/IR/BuiltinTypes.h"  // from @llvm-project
@@ -680,7 +680,7 @@ presburger::IntegerRelation get1dConvResultRelation(RankedTensorType outputType,
       getRowMajorLayoutRelation(outputType, outputType.getNumElements());
 
   int64_t numCiphertexts =
-      std::ceil((float)outputType.getNumElements() / minSlotCount);
+      llvm::divideCeilSigned(outputType.getNumElements(), minSlotCount);
   int64_t paddedSize = isPowerOfTwo(outputType.getNumElements())
                            ? outputType.getNumElements()
                            : nextPowerOfTwo(outputType.getNumElements());
@@ -737,7 +737,7 @@ presburger::IntegerRelation get2dConvResultRelation(RankedTensorType outputType,
       getRowMajorLayoutRelation(outputType, outputType.getNumElements());
 
   int64_t numCiphertexts =
-      std::ceil((float)outputType.getNumElements() / minSlotCount);
+      llvm::divideCeilSigned(outputType.getNumElements(), minSlotCount);
   int64_t paddedSize = isPowerOfTwo(outputType.getNumElements())
                            ? outputType.getNumElements()
                            : nextPowerOfTwo(outputType.getNumElements());
@@ -768,7 +768,7 @@ presburger::IntegerRelation get2dConvRowInterchangeLayoutRelation(
   int64_t numElements = outputType.getNumElements();
 
   int64_t numCiphertexts =
-      std::ceil((float)outputType.getNumElements() / minSlotCount);
+      llvm::divideCeilSigned(outputType.getNumElements(), minSlotCount);
 
   int64_t paddedSize =
       isPowerOfTwo(numElements) ? numElements : nextPowerOfTwo(numElements);
diff --git a/lib/Utils/Layout/Utils.cpp b/lib/Utils/Layout/Utils.cpp
index 91c233b..0441e87 100644
--- a/lib/Utils/Layout/Utils.cpp
+++ b/lib/Utils/Layout/Utils.cpp
@@ -3,7 +3,6 @@
 #include <algorithm>
 #include <cassert>
 #include <climits>
-#include <cmath>
 #include <cstddef>
 #include <cstdint>
 #include <limits>
@@ -125,7 +124,7 @@ presburger::IntegerRelation getRowMajorLayoutRelation(
   }
   auto rangeOffset = result.getVarKindOffset(VarKind::Range);
   addBounds(result, rangeOffset, 0,
-            std::ceil((float)tensorType.getNumElements() / numSlots) - 1);
+            llvm::divideCeilSigned(tensorType.getNumElements(), numSlots) - 1);
   addBounds(result, rangeOffset + 1, 0, numSlots - 1);
 
   // 0 = (flattened_expr) floordiv minSlotCount - ct
@@ -278,7 +277,7 @@ presburger::IntegerRelation getBicyclicLayoutRelation(
   addBounds(result, rowVarIndex, 0, rows - 1);
   addBounds(result, colVarIndex, 0, cols - 1);
   addBounds(result, ctVarIndex, 0,
-            std::ceil((float)matrixType.getNumElements() / numSlots) - 1);
+            llvm::divideCeilSigned(matrixType.getNumElements(), numSlots) - 1);
   addBounds(result, slotVarIndex, 0, numSlots - 1);
 
   // Let k = ct * numSlots + slot.
@@ -421,7 +420,7 @@ presburger::IntegerRelation getTricyclicLayoutRelation(
   addBounds(result, mVarIndex, 0, m - 1);
   addBounds(result, nVarIndex, 0, n - 1);
   addBounds(result, ctVarIndex, 0,
-            std::ceil((float)tensorType.getNumElements() / numSlots) - 1);
+            llvm::divideCeilSigned(tensorType.getNumElements(), numSlots) - 1);
   addBounds(result, slotVarIndex, 0, numSlots - 1);
 
   // Let k = ct * numSlots + slot.
-- 
2.43.0


From 3e9f3846cc826f885e6093a3880fb8e88f0cd1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:58 +0000
Subject: [PATCH 011/111] fix: collapsing several groups of dimensions dropped
 the wrong ones

---
 lib/Utils/Layout/Utils.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/Utils/Layout/Utils.cpp b/lib/Utils/Layout/Utils.cpp
index 0441e87..3645f77 100644
--- a/lib/Utils/Layout/Utils.cpp
+++ b/lib/Utils/Layout/Utils.cpp
@@ -671,13 +671,14 @@ presburger::IntegerRelation collapseDimensions(
     const presburger::IntegerRelation& relation, RankedTensorType sourceType,
     ArrayRef<ReassociationIndices> reassociation) {
   std::unique_ptr<IntegerRelation> clonedRelation = relation.clone();
-  for (const ReassociationIndices& associationGroup : reassociation) {
+  // Iterate starting from the largest index so that earlier deletion do not
+  // impact later indices
+  for (const ReassociationIndices& associationGroup :
+       llvm::reverse(reassociation)) {
     // a single-entry association group is a no-op
     if (associationGroup.size() == 1) {
       continue;
     }
-    // Iterate starting from the largest index so that earlier deletion do not
-    // impact later indices
     for (int64_t reassocDim : llvm::reverse(associationGroup)) {
       if (sourceType.getShape()[reassocDim] == 1) {
         // Drop this unit dimension
-- 
2.43.0


From 1eb04df7fbd2ffae24726922417c5ea6afa87d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:28 +0000
Subject: [PATCH 012/111] fix: insert_slice layouts lost the slice's own layout

Relaxing a unit dimension removed every constraint that mentions it,
including the ones that define the slot of the other dimensions.
---
 lib/Utils/Layout/Hoisting.cpp | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/lib/Utils/Layout/Hoisting.cpp b/lib/Utils/Layout/Hoisting.cpp
index fa580cc..1b7773c 100644
--- a/lib/Utils/Layout/Hoisting.cpp
+++ b/lib/Utils/Layout/Hoisting.cpp
@@ -129,23 +129,12 @@ FailureOr<presburger::IntegerRelation> pushSliceLayoutThroughInsertSlice(
   } else {
     // When the slice layout already has all domain dimensions, we need to
     // relax the bounds on domain variables corresponding to unit dimensions
-    // to match the result shape. We do this by removing equality and inequality
-    // constraints that involve these dimensions.
+    // to match the result shape. The slice only has index 0 along these
+    // dimensions, so fix them to 0 and insert fresh variables instead.
     for (auto dim : unitDims) {
-      // Find and remove equalities involving this dimension
-      for (int i = resultLayout->getNumEqualities() - 1; i >= 0; --i) {
-        if (resultLayout->atEq64(i, dim) != 0) {
-          resultLayout->removeEquality(i);
-        }
-      }
-      // Find and remove inequalities involving this dimension
-      for (int i = resultLayout->getNumInequalities() - 1; i >= 0; --i) {
-        if (resultLayout->atIneq64(i, dim) != 0) {
-          resultLayout->removeInequality(i);
-        }
-      }
-      // Add new bounds
-      addBounds(*resultLayout, dim, 0, resultShape[dim] - 1);
+      resultLayout->setAndEliminate(dim, 0);
+      auto domainVar = resultLayout->insertVar(VarKind::Domain, dim, 1);
+      addBounds(*resultLayout, domainVar, 0, resultShape[dim] - 1);
     }
   }
 
-- 
2.43.0


From a161ad793d3596d6ce0a19f9dc1a33c488595518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:01 +0000
Subject: [PATCH 013/111] fix: diagonalized convolution filters were sized by
 the rows and columns in use

A strided 1-D convolution that leaves trailing data unused (or a padded one
with empty output rows) was diagonalized as a smaller matrix than the one the
kernel multiplies with, so zero columns of the matrix received copies of the
filter.
---
 lib/Utils/Layout/Convolution.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/lib/Utils/Layout/Convolution.cpp b/lib/Utils/Layout/Convolution.cpp
index 7b09222..a6f2c02 100644
--- a/lib/Utils/Layout/Convolution.cpp
+++ b/lib/Utils/Layout/Convolution.cpp
@@ -453,13 +453,20 @@ FailureOr<presburger::IntegerRelation> getConvFilterDiagonalizedRelation(
     int64_t stride = 1;
     auto filterRelation =
         get1dConvFilterRelation(filterType, dataType, stride, padding);
-    return diagonalize2dMatrix(filterRelation, filterType, minSlotCount);
+    auto expandedType =
+        get1dConvFilterExpandedType(filterType, dataType, stride, padding);
+    filterRelation.compose(
+        getDiagonalLayoutRelation(expandedType, minSlotCount));
+    return filterRelation;
   }
   if (filterType.getRank() != 2) return failure();
   SmallVector<int64_t> strides = {1, 1};
   auto filterRelation =
       get2dConvFilterRelation(filterType, dataType, strides, padding);
-  return diagonalize2dMatrix(filterRelation, filterType, minSlotCount);
+  auto expandedType =
+      get2dConvFilterExpandedType(filterType, dataType, padding, strides);
+  filterRelation.compose(getDiagonalLayoutRelation(expandedType, minSlotCount));
+  return filterRelation;
 }
 
 FailureOr<presburger::IntegerRelation> get1dConvCwFcwFilterDiagonalizedRelation(
@@ -489,7 +496,13 @@ FailureOr<presburger::IntegerRelation> get1dConvCwFcwFilterDiagonalizedRelation(
         /*equality=*/true);
     expandedFilterRelation.compose(rowInterchangeRelation);
   }
-  return diagonalize2dMatrix(expandedFilterRelation, filterType, minSlotCount);
+  // The kernel works on the whole expanded matrix, including rows and columns
+  // that no filter element reaches (e.g., the data after the last stride).
+  auto expandedType = get1dConvCwFcwFilterExpandedType(filterType, dataType,
+                                                       stride, padding);
+  expandedFilterRelation.compose(
+      getDiagonalLayoutRelation(expandedType, minSlotCount));
+  return expandedFilterRelation;
 }
 
 FailureOr<std::vector<IntegerRelation>> get2dConvChwFchwFilterAsSequence(
-- 
2.43.0


From aafeb06f6479a17d8005e9e7dc30c1151c64221a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:32 +0000
Subject: [PATCH 014/111] fix: row-major layout maps of rank 3 and above used
 the wrong strides

---
 lib/Utils/AffineMapUtils.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/Utils/AffineMapUtils.cpp b/lib/Utils/AffineMapUtils.cpp
index d9fa602..599de8b 100644
--- a/lib/Utils/AffineMapUtils.cpp
+++ b/lib/Utils/AffineMapUtils.cpp
@@ -67,13 +67,13 @@ AffineMap getRowMajorLayoutMap(RankedTensorType inputType,
 
   // First construct a single expression corresponding to the "flattened"
   // row-major indexing order.
+  int64_t stride = 1;
   for (int dim = dims.size() - 1; dim >= 0; --dim) {
     // iter 1: k
     // iter 2: k + size(k) * j
     // iter 3: k + size(k) * j + size(j) * size(k) * i
-    flattened = flattened
-                    ? flattened + inputType.getDimSize(dim + 1) * dims[dim]
-                    : dims[dim];
+    flattened = flattened ? flattened + stride * dims[dim] : dims[dim];
+    stride *= inputType.getDimSize(dim);
   }
 
   // Then "unflatten" with respect to the output type's shape.
-- 
2.43.0


From 253f2cdd3f7e23a02294cbefcb3d917ed51c11ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:32 +0000
Subject: [PATCH 015/111] fix: flattened indices overflowed 32 bits

---
 lib/Utils/TargetUtils.cpp | 4 ++--
 lib/Utils/TensorUtils.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/Utils/TargetUtils.cpp b/lib/Utils/TargetUtils.cpp
index e1af402..8fe4266 100644
--- a/lib/Utils/TargetUtils.cpp
+++ b/lib/Utils/TargetUtils.cpp
@@ -106,7 +106,7 @@ std::string flattenIndexExpressionSOP(
 
 int64_t flattenedIndex(ShapedType type, ValueRange indices,
                        std::function<int64_t(Value)> valueToInt) {
-  int index = valueToInt(indices[0]);
+  int64_t index = valueToInt(indices[0]);
   for (size_t i = 1; i < indices.size(); i++) {
     index = valueToInt(indices[i]) + type.getShape()[i] * index;
   }
@@ -116,7 +116,7 @@ int64_t flattenedIndex(ShapedType type, ValueRange indices,
 int64_t flattenedIndex(MemRefType memRefType, ValueRange indices,
                        std::function<int64_t(Value)> valueToInt) {
   const auto [strides, offset] = memRefType.getStridesAndOffset();
-  int index = offset;
+  int64_t index = offset;
   for (size_t i = 0; i < indices.size(); ++i) {
     index = index + strides[i] * valueToInt(indices[i]);
   }
diff --git a/lib/Utils/TensorUtils.cpp b/lib/Utils/TensorUtils.cpp
index 4a34bc9..0915a8d 100644
--- a/lib/Utils/TensorUtils.cpp
+++ b/lib/Utils/TensorUtils.cpp
@@ -16,8 +16,8 @@ namespace heir {
 int64_t getFlattenedIndex(RankedTensorType tensorType,
                           SmallVector<int64_t> indices) {
   auto rank = tensorType.getRank();
-  int flatIndex = 0;
-  int stride = 1;
+  int64_t flatIndex = 0;
+  int64_t stride = 1;
   for (int i = rank - 1; i >= 0; --i) {
     flatIndex += indices[i] * stride;
     stride *= tensorType.getDimSize(i);
-- 
2.43.0


From 2a9ff8087bfeeb9fe70c04a6b3f9635fb14da785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:32 +0000
Subject: [PATCH 016/111] fix: commaSeparatedTypes read the text of a type that
 has none

---
 lib/Utils/TargetUtils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Utils/TargetUtils.cpp b/lib/Utils/TargetUtils.cpp
index 8fe4266..5864c0d 100644
--- a/lib/Utils/TargetUtils.cpp
+++ b/lib/Utils/TargetUtils.cpp
@@ -47,7 +47,7 @@ FailureOr<std::string> commaSeparatedTypes(
       std::next(types.begin()), types.end(), typeToString(types[0]),
       [&](FailureOr<std::string> a, Type b) -> FailureOr<std::string> {
         auto result = typeToString(b);
-        if (failed(result)) {
+        if (failed(a) || failed(result)) {
           return failure();
         }
         return a.value() + ", " + result.value();
-- 
2.43.0


From 7d3a745bf0107f9b0bd34c2cdd7a06c892a34fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:39 +0000
Subject: [PATCH 017/111] fix: store forwarding ignored accesses through other
 index values, copies and calls

---
 lib/Transforms/ForwardStoreToLoad/BUILD       |  3 +
 .../ForwardStoreToLoad/ForwardStoreToLoad.cpp | 84 +++++++++++++++----
 2 files changed, 73 insertions(+), 14 deletions(-)

diff --git a/lib/Transforms/ForwardStoreToLoad/BUILD b/lib/Transforms/ForwardStoreToLoad/BUILD
index 51a2309..0ac1912 100644
--- a/lib/Transforms/ForwardStoreToLoad/BUILD
+++ b/lib/Transforms/ForwardStoreToLoad/BUILD
@@ -17,9 +17,12 @@ cc_library(
         "@llvm-project//llvm:Support",
         "@llvm-project//mlir:AffineDialect",
         "@llvm-project//mlir:AffineUtils",
+        "@llvm-project//mlir:DialectUtils",
+        "@llvm-project//mlir:FunctionInterfaces",
         "@llvm-project//mlir:IR",
         "@llvm-project//mlir:MemRefDialect",
         "@llvm-project//mlir:Pass",
+        "@llvm-project//mlir:SideEffectInterfaces",
         "@llvm-project//mlir:Support",
         "@llvm-project//mlir:TransformUtils",
         "@llvm-project//mlir:Transforms",
diff --git a/lib/Transforms/ForwardStoreToLoad/ForwardStoreToLoad.cpp b/lib/Transforms/ForwardStoreToLoad/ForwardStoreToLoad.cpp
index 7e2fa72..0279a00 100644
--- a/lib/Transforms/ForwardStoreToLoad/ForwardStoreToLoad.cpp
+++ b/lib/Transforms/ForwardStoreToLoad/ForwardStoreToLoad.cpp
@@ -1,16 +1,21 @@
 #include "lib/Transforms/ForwardStoreToLoad/ForwardStoreToLoad.h"
 
+#include <type_traits>
 #include <utility>
 
+#include "llvm/include/llvm/ADT/STLExtras.h"   // from @llvm-project
 #include "llvm/include/llvm/ADT/TypeSwitch.h"  // from @llvm-project
 #include "llvm/include/llvm/Support/Debug.h"   // from @llvm-project
 #include "mlir/include/mlir/Dialect/Affine/IR/AffineOps.h"  // from @llvm-project
 #include "mlir/include/mlir/Dialect/Affine/Utils.h"      // from @llvm-project
 #include "mlir/include/mlir/Dialect/MemRef/IR/MemRef.h"  // from @llvm-project
+#include "mlir/include/mlir/Dialect/Utils/StaticValueUtils.h"  // from @llvm-project
 #include "mlir/include/mlir/IR/MLIRContext.h"            // from @llvm-project
 #include "mlir/include/mlir/IR/PatternMatch.h"           // from @llvm-project
 #include "mlir/include/mlir/IR/Value.h"                  // from @llvm-project
 #include "mlir/include/mlir/IR/ValueRange.h"             // from @llvm-project
+#include "mlir/include/mlir/Interfaces/FunctionInterfaces.h"  // from @llvm-project
+#include "mlir/include/mlir/Interfaces/SideEffectInterfaces.h"  // from @llvm-project
 #include "mlir/include/mlir/Support/LLVM.h"              // from @llvm-project
 #include "mlir/include/mlir/Support/LogicalResult.h"     // from @llvm-project
 #include "mlir/include/mlir/Transforms/GreedyPatternRewriteDriver.h"  // from @llvm-project
@@ -69,6 +74,61 @@ class AffineLoadLowering : public OpRewritePattern<affine::AffineLoadOp> {
   }
 };
 
+// Returns true if two lists of indices name different elements whatever the
+// values of the dynamic indices are.
+static bool areDistinctIndices(ValueRange lhs, ValueRange rhs) {
+  return llvm::any_of(llvm::zip(lhs, rhs), [](auto pair) {
+    auto [a, b] = pair;
+    auto aConst = getConstantIntValue(a), bConst = getConstantIntValue(b);
+    return aConst && bConst && *aConst != *bConst;
+  });
+}
+
+// Returns true if two memref values may refer to the same memory. Distinct
+// allocations, globals and function arguments are assumed not to alias.
+static bool mayAlias(Value lhs, Value rhs) {
+  if (lhs == rhs) return true;
+  auto isRoot = [](Value v) {
+    if (auto arg = dyn_cast<BlockArgument>(v))
+      return isa<FunctionOpInterface>(arg.getOwner()->getParentOp());
+    return isa<memref::AllocOp, memref::AllocaOp, memref::GetGlobalOp>(
+        v.getDefiningOp());
+  };
+  return !isRoot(lhs) || !isRoot(rhs);
+}
+
+// Returns true if the op may have an effect of the given kind on the element
+// of the memref at the given indices.
+template <typename EffectTy>
+static bool mayAffect(Operation* op, Value memref, ValueRange indices) {
+  auto affectsElement = [&](Value opMemref, ValueRange opIndices) {
+    if (opMemref == memref) return !areDistinctIndices(opIndices, indices);
+    return mayAlias(opMemref, memref);
+  };
+  if (auto store = dyn_cast<memref::StoreOp>(op))
+    return std::is_same_v<EffectTy, MemoryEffects::Write> &&
+           affectsElement(store.getMemRef(), store.getIndices());
+  if (auto load = dyn_cast<memref::LoadOp>(op))
+    return std::is_same_v<EffectTy, MemoryEffects::Read> &&
+           affectsElement(load.getMemRef(), load.getIndices());
+
+  if (auto effectOp = dyn_cast<MemoryEffectOpInterface>(op)) {
+    SmallVector<MemoryEffects::EffectInstance> effects;
+    effectOp.getEffects(effects);
+    return llvm::any_of(effects, [&](MemoryEffects::EffectInstance& effect) {
+      if (!isa<EffectTy>(effect.getEffect())) return false;
+      Value value = effect.getValue();
+      return !value ||
+             (isa<MemRefType>(value.getType()) && mayAlias(value, memref));
+    });
+  }
+  // The effects are not known (e.g., a call): it may do anything to the memrefs
+  // it is given.
+  return llvm::any_of(op->getOperands(), [&](Value operand) {
+    return isa<MemRefType>(operand.getType()) && mayAlias(operand, memref);
+  });
+}
+
 bool ForwardSingleStoreToLoad::isForwardableOp(Operation* potentialStore,
                                                memref::LoadOp& loadOp) const {
   if (!dominanceInfo.properlyDominates(potentialStore, loadOp.getOperation())) {
@@ -104,13 +164,11 @@ bool ForwardSingleStoreToLoad::isForwardableOp(Operation* potentialStore,
                                        "store and load op\n");
             return false;
           }
-          if (auto op = dyn_cast<memref::StoreOp>(currentNode)) {
-            if (op.getMemRef() == storeOp.getMemRef() &&
-                op.getIndices() == storeIndices) {
-              LLVM_DEBUG(llvm::dbgs()
-                         << "an intermediate op stores to the same index\n");
-              return false;
-            }
+          if (mayAffect<MemoryEffects::Write>(currentNode, storeOp.getMemRef(),
+                                              storeIndices)) {
+            LLVM_DEBUG(llvm::dbgs() << "an intermediate op may store to the "
+                                       "same index\n");
+            return false;
           }
         }
 
@@ -197,13 +255,11 @@ bool RemoveUnusedStore::isPostDominated(Operation* potentialOp,
             LLVM_DEBUG(llvm::dbgs() << "an intermediate load op was found\n");
             return false;
           }
-          if (auto op = dyn_cast<memref::LoadOp>(currentNode)) {
-            if (op.getMemRef() == storeOp.getMemRef() &&
-                op.getIndices() == storeIndices) {
-              LLVM_DEBUG(llvm::dbgs()
-                         << "an intermediate op loads at the same index\n");
-              return false;
-            }
+          if (mayAffect<MemoryEffects::Read>(currentNode, storeOp.getMemRef(),
+                                             storeIndices)) {
+            LLVM_DEBUG(llvm::dbgs()
+                       << "an intermediate op may load at the same index\n");
+            return false;
           }
         }
 
-- 
2.43.0


From 7435cdfba847f9bcfcd9cd8701a05fcc5d0e1732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:39 +0000
Subject: [PATCH 018/111] fix: insert forwarding skipped inserts at dynamic,
 possibly equal indices

---
 .../ForwardInsertToExtract.cpp                  | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/lib/Transforms/ForwardInsertToExtract/ForwardInsertToExtract.cpp b/lib/Transforms/ForwardInsertToExtract/ForwardInsertToExtract.cpp
index fe33d5e..9f2b771 100644
--- a/lib/Transforms/ForwardInsertToExtract/ForwardInsertToExtract.cpp
+++ b/lib/Transforms/ForwardInsertToExtract/ForwardInsertToExtract.cpp
@@ -1,9 +1,11 @@
 #include "lib/Transforms/ForwardInsertToExtract/ForwardInsertToExtract.h"
 
 #include <cstdint>
+#include <tuple>
 #include <utility>
 
 #include "lib/Utils/TensorUtils.h"
+#include "llvm/include/llvm/ADT/STLExtras.h"             // from @llvm-project
 #include "llvm/include/llvm/ADT/SmallVectorExtras.h"     // from @llvm-project
 #include "llvm/include/llvm/ADT/TypeSwitch.h"            // from @llvm-project
 #include "llvm/include/llvm/Support/Casting.h"           // from @llvm-project
@@ -59,6 +61,21 @@ FailureOr<OpFoldResult> ForwardSingleInsertToExtract::getValueAtIndex(
               return getAsOpFoldResult(insertOp.getScalar());
             }
 
+            // The insertion can only be skipped if it is certain to be at
+            // another index; dynamic indices may turn out to be equal.
+            bool distinct = llvm::any_of(
+                llvm::zip(insertIndices, indices), [](auto pair) {
+                  auto insertIndex = getConstantIntValue(std::get<0>(pair));
+                  auto index = getConstantIntValue(std::get<1>(pair));
+                  return insertIndex && index && *insertIndex != *index;
+                });
+            if (!distinct) {
+              LLVM_DEBUG(llvm::dbgs()
+                         << "insert and extract op may have matching "
+                            "indices, cannot traverse backwards\n");
+              return failure();
+            }
+
             LLVM_DEBUG(llvm::dbgs()
                        << "insert and extract op do not have matching "
                           "indices, continuing to defining op\n");
-- 
2.43.0


From e62ce142d2ce76687a4b5e028a269add78bbcef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:40 +0000
Subject: [PATCH 019/111] fix: unused memref removal erased writes of the
 memref into another one

---
 lib/Transforms/UnusedMemRef/UnusedMemRef.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/Transforms/UnusedMemRef/UnusedMemRef.cpp b/lib/Transforms/UnusedMemRef/UnusedMemRef.cpp
index ee3a740..eefee25 100644
--- a/lib/Transforms/UnusedMemRef/UnusedMemRef.cpp
+++ b/lib/Transforms/UnusedMemRef/UnusedMemRef.cpp
@@ -26,9 +26,17 @@ class RemoveUnusedMemrefPattern : public OpRewritePattern<memref::AllocOp> {
   LogicalResult matchAndRewrite(memref::AllocOp op,
                                 PatternRewriter& rewriter) const override {
     auto memref = op.getMemref();
+    // A write to the memref, as opposed to a write of the memref itself into
+    // another one.
+    auto isWriteTo = [&](Operation* ownerOp) {
+      if (auto writeOp = dyn_cast<affine::AffineWriteOpInterface>(ownerOp))
+        return writeOp.getValueToStore() != memref;
+      if (auto storeOp = dyn_cast<memref::StoreOp>(ownerOp))
+        return storeOp.getValueToStore() != memref;
+      return false;
+    };
     if (llvm::any_of(memref.getUsers(), [&](Operation* ownerOp) {
-          return !isa<affine::AffineWriteOpInterface>(ownerOp) &&
-                 !isa<memref::StoreOp>(ownerOp) &&
+          return !isWriteTo(ownerOp) &&
                  !hasSingleEffect<MemoryEffects::Free>(ownerOp, memref);
         })) {
       return rewriter.notifyMatchFailure(
-- 
2.43.0


From 3077f9151226e8de10ea429f090b895996335dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:30 +0000
Subject: [PATCH 020/111] fix: noise models squared the plaintext modulus in
 64-bit integers, which overflows from 2^32

---
 .../NoiseAnalysis/BFV/NoiseByVarianceCoeffModel.cpp       | 2 +-
 lib/Analysis/NoiseAnalysis/BGV/NoiseByBoundCoeffModel.cpp | 2 +-
 .../NoiseAnalysis/BGV/NoiseByVarianceCoeffModel.cpp       | 8 ++++----
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/Analysis/NoiseAnalysis/BFV/NoiseByVarianceCoeffModel.cpp b/lib/Analysis/NoiseAnalysis/BFV/NoiseByVarianceCoeffModel.cpp
index ba6f1ec..48fe859 100644
--- a/lib/Analysis/NoiseAnalysis/BFV/NoiseByVarianceCoeffModel.cpp
+++ b/lib/Analysis/NoiseAnalysis/BFV/NoiseByVarianceCoeffModel.cpp
@@ -213,7 +213,7 @@ NoiseByVarianceCoeffModel::evalRelinearizeHYBRID(
   auto varianceErr = getVarianceErr(inputParam);
   auto varianceKey = getVarianceKey(inputParam);
   auto ringDim = inputParam.getSchemeParam()->getRingDim();
-  auto t = inputParam.getSchemeParam()->getPlaintextModulus();
+  double t = inputParam.getSchemeParam()->getPlaintextModulus();
 
   auto level = inputParam.getSchemeParam()->getLevel();
   // modup from Q to QP, so one more digit
diff --git a/lib/Analysis/NoiseAnalysis/BGV/NoiseByBoundCoeffModel.cpp b/lib/Analysis/NoiseAnalysis/BGV/NoiseByBoundCoeffModel.cpp
index 80fa727..aecf56a 100644
--- a/lib/Analysis/NoiseAnalysis/BGV/NoiseByBoundCoeffModel.cpp
+++ b/lib/Analysis/NoiseAnalysis/BGV/NoiseByBoundCoeffModel.cpp
@@ -151,7 +151,7 @@ typename NoiseByBoundCoeffModel::StateType NoiseByBoundCoeffModel::evalAdd(
 typename NoiseByBoundCoeffModel::StateType NoiseByBoundCoeffModel::evalMul(
     const LocalParamType& resultParam, const StateType& lhs,
     const StateType& rhs) const {
-  auto t = resultParam.getSchemeParam()->getPlaintextModulus();
+  double t = resultParam.getSchemeParam()->getPlaintextModulus();
   auto expansionFactor = getExpansionFactor(resultParam);
   auto ringDim = resultParam.getSchemeParam()->getRingDim();
 
diff --git a/lib/Analysis/NoiseAnalysis/BGV/NoiseByVarianceCoeffModel.cpp b/lib/Analysis/NoiseAnalysis/BGV/NoiseByVarianceCoeffModel.cpp
index 617fef7..b51704f 100644
--- a/lib/Analysis/NoiseAnalysis/BGV/NoiseByVarianceCoeffModel.cpp
+++ b/lib/Analysis/NoiseAnalysis/BGV/NoiseByVarianceCoeffModel.cpp
@@ -66,7 +66,7 @@ typename Model::StateType Model::evalEncryptPk(
   auto varianceError = getVarianceErr(param);
   // uniform ternary
   auto varianceKey = getVarianceKey(param);
-  auto t = param.getSchemeParam()->getPlaintextModulus();
+  double t = param.getSchemeParam()->getPlaintextModulus();
   auto n = param.getSchemeParam()->getRingDim();
   // public key (-as + t * e, a)
   // public key encryption (-aus + t(u * e + e_0) + m, au + e_1)
@@ -80,7 +80,7 @@ typename Model::StateType Model::evalEncryptPk(
 
 typename Model::StateType Model::evalEncryptSk(
     const LocalParamType& param) const {
-  auto t = param.getSchemeParam()->getPlaintextModulus();
+  double t = param.getSchemeParam()->getPlaintextModulus();
   auto varianceError = getVarianceErr(param);
 
   // secret key s
@@ -110,7 +110,7 @@ typename Model::StateType Model::evalEncrypt(
 
 typename Model::StateType Model::evalConstant(
     const LocalParamType& param) const {
-  auto t = param.getSchemeParam()->getPlaintextModulus();
+  double t = param.getSchemeParam()->getPlaintextModulus();
   // constant is v = m + t * 0
   // assume m is uniform from [-t/2, t/2]
   // var_constant = t * t / 12
@@ -182,7 +182,7 @@ typename Model::StateType Model::evalRelinearizeHYBRID(
   auto varianceErr = getVarianceErr(inputParam);
   auto varianceKey = getVarianceKey(inputParam);
   auto ringDim = inputParam.getSchemeParam()->getRingDim();
-  auto t = inputParam.getSchemeParam()->getPlaintextModulus();
+  double t = inputParam.getSchemeParam()->getPlaintextModulus();
 
   auto currentLevel = inputParam.getCurrentLevel();
   // modup from Ql to QlP, so one more digit
-- 
2.43.0


From 28c66750b14baa5756865e20db98e077d654ab69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:30 +0000
Subject: [PATCH 021/111] fix: canonical embedding noise models used the key
 variance for the error variance in public key encryption

---
 lib/Analysis/NoiseAnalysis/BFV/NoiseCanEmbModel.cpp | 2 +-
 lib/Analysis/NoiseAnalysis/BGV/NoiseCanEmbModel.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Analysis/NoiseAnalysis/BFV/NoiseCanEmbModel.cpp b/lib/Analysis/NoiseAnalysis/BFV/NoiseCanEmbModel.cpp
index 914b5b3..ea9fc08 100644
--- a/lib/Analysis/NoiseAnalysis/BFV/NoiseCanEmbModel.cpp
+++ b/lib/Analysis/NoiseAnalysis/BFV/NoiseCanEmbModel.cpp
@@ -97,7 +97,7 @@ typename Model::StateType Model::evalEncryptPk(
   // ||u * e + e_1 * s + e_0||
   // <= D * sqrt(phi(m) * (2 * phi(m) * V_err * V_key + V_err))
   double innerTerm =
-      phi * (2. * phi * varianceError * varianceKey + varianceKey);
+      phi * (2. * phi * varianceError * varianceKey + varianceError);
   double fresh = d * sqrt(innerTerm);
   return StateType::of(fresh);
 }
diff --git a/lib/Analysis/NoiseAnalysis/BGV/NoiseCanEmbModel.cpp b/lib/Analysis/NoiseAnalysis/BGV/NoiseCanEmbModel.cpp
index 38cbc33..391fdfc 100644
--- a/lib/Analysis/NoiseAnalysis/BGV/NoiseCanEmbModel.cpp
+++ b/lib/Analysis/NoiseAnalysis/BGV/NoiseCanEmbModel.cpp
@@ -107,7 +107,7 @@ typename Model::StateType Model::evalEncryptPk(
   // ||m + t * (u * e + e_1 * s + e_0)||
   // <= D * t * sqrt(phi(m) * (1/12 + 2 * phi(m) * V_err * V_key + V_err))
   double innerTerm =
-      phi * (1. / 12. + 2. * phi * varianceError * varianceKey + varianceKey);
+      phi * (1. / 12. + 2. * phi * varianceError * varianceKey + varianceError);
   double fresh = d * t * sqrt(innerTerm);
   return StateType::of(fresh);
 }
-- 
2.43.0


From faaaf05eb630ed7b4e82914ae02080bd9ea6ff00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:30 +0000
Subject: [PATCH 022/111] fix: BFV canonical embedding noise model reported a
 budget log2(t) bits too large

---
 lib/Analysis/NoiseAnalysis/BFV/NoiseCanEmbModel.cpp | 3 ++-
 lib/Analysis/NoiseAnalysis/BFV/NoiseCanEmbModel.h   | 6 +++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/Analysis/NoiseAnalysis/BFV/NoiseCanEmbModel.cpp b/lib/Analysis/NoiseAnalysis/BFV/NoiseCanEmbModel.cpp
index ea9fc08..424abe8 100644
--- a/lib/Analysis/NoiseAnalysis/BFV/NoiseCanEmbModel.cpp
+++ b/lib/Analysis/NoiseAnalysis/BFV/NoiseCanEmbModel.cpp
@@ -42,7 +42,8 @@ double Model::toLogTotal(const LocalParamType& param) const {
   for (auto i = 0; i <= param.getCurrentLevel(); ++i) {
     total += logqi[i];
   }
-  return total - 1.0;
+  double logT = log2(param.getSchemeParam()->getPlaintextModulus());
+  return total - logT - 1.0;
 }
 
 double Model::getVarianceErr(const LocalParamType& param) const {
diff --git a/lib/Analysis/NoiseAnalysis/BFV/NoiseCanEmbModel.h b/lib/Analysis/NoiseAnalysis/BFV/NoiseCanEmbModel.h
index f3d9460..33f418e 100644
--- a/lib/Analysis/NoiseAnalysis/BFV/NoiseCanEmbModel.h
+++ b/lib/Analysis/NoiseAnalysis/BFV/NoiseCanEmbModel.h
@@ -47,10 +47,10 @@ class NoiseCanEmbModel {
   StateType evalModReduce(const LocalParamType& inputParam,
                           const StateType& input) const;
 
-  // logTotal: log(Ql / 2)
-  // logBound: bound on ||m + t * e|| predicted by the model
+  // logTotal: log(Ql / (t * 2))
+  // logBound: bound on ||e|| predicted by the model
   // logBudget: logTotal - logBound
-  // as ||m + t * e|| < Ql / 2 for correct decryption
+  // as ||e|| < Ql / (t * 2) for correct decryption
   double toLogBound(const LocalParamType& param, const StateType& noise) const;
   double toLogBudget(const LocalParamType& param, const StateType& noise) const;
   double toLogTotal(const LocalParamType& param) const;
-- 
2.43.0


From 023afe8bf70bce4d2a55d4a32a67b4509a3e32a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:25 +0000
Subject: [PATCH 023/111] fix: CKKS scheme parameters reported one level more
 than they have moduli for

---
 lib/Parameters/CKKS/Params.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Parameters/CKKS/Params.cpp b/lib/Parameters/CKKS/Params.cpp
index 981513b..5ac609a 100644
--- a/lib/Parameters/CKKS/Params.cpp
+++ b/lib/Parameters/CKKS/Params.cpp
@@ -229,7 +229,7 @@ SchemeParam SchemeParam::getConcreteSchemeParam(
   }
 
   return SchemeParam(
-      RLWESchemeParam(ringDim, numScaleMod + 1, logqi, qiImpl, dnum, logpi,
+      RLWESchemeParam(ringDim, numScaleMod, logqi, qiImpl, dnum, logpi,
                       piImpl, usePublicKey, encryptionTechniqueExtended),
       logDefaultScale);
 }
-- 
2.43.0


From 9755920d41ce83fbf51601fe5595d1542db3037c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:08 +0000
Subject: [PATCH 024/111] fix: conv/pool fusion took any generic with a
 constant product for a scaling

matchScalingFactor looked only at the body's first operation: a generic that
permutes its input, reads something else than the pooled value, or yields
another value was folded as a multiplication by the constant.
---
 .../LinalgCanonicalizations/ConvPoolFusion.cpp     | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/lib/Transforms/LinalgCanonicalizations/ConvPoolFusion.cpp b/lib/Transforms/LinalgCanonicalizations/ConvPoolFusion.cpp
index 76ff116..61ab521 100644
--- a/lib/Transforms/LinalgCanonicalizations/ConvPoolFusion.cpp
+++ b/lib/Transforms/LinalgCanonicalizations/ConvPoolFusion.cpp
@@ -7,11 +7,13 @@
 #include "llvm/include/llvm/ADT/APFloat.h"               // from @llvm-project
 #include "llvm/include/llvm/ADT/APInt.h"                 // from @llvm-project
 #include "llvm/include/llvm/ADT/ArrayRef.h"              // from @llvm-project
+#include "llvm/include/llvm/ADT/STLExtras.h"             // from @llvm-project
 #include "llvm/include/llvm/ADT/SmallVector.h"           // from @llvm-project
 #include "llvm/include/llvm/ADT/TypeSwitch.h"            // from @llvm-project
 #include "llvm/include/llvm/Support/ErrorHandling.h"     // from @llvm-project
 #include "mlir/include/mlir/Dialect/Arith/IR/Arith.h"    // from @llvm-project
 #include "mlir/include/mlir/Dialect/Linalg/IR/Linalg.h"  // from @llvm-project
+#include "mlir/include/mlir/IR/AffineMap.h"              // from @llvm-project
 #include "mlir/include/mlir/IR/BuiltinAttributeInterfaces.h"  // from @llvm-project
 #include "mlir/include/mlir/IR/BuiltinAttributes.h"      // from @llvm-project
 #include "mlir/include/mlir/IR/BuiltinTypeInterfaces.h"  // from @llvm-project
@@ -193,9 +195,14 @@ FailureOr<ScalingFactorInfo> matchScalingFactor(
     }
   }
 
-  // Case 2: linalg.generic
+  // Case 2: an elementwise linalg.generic that applies the operation to the
+  // pooling result and yields nothing else.
   if (auto genericOp = dyn_cast<linalg::GenericOp>(user)) {
-    if (genericOp.getNumDpsInputs() == 1 && genericOp.getNumDpsInits() == 1) {
+    if (genericOp.getNumDpsInputs() == 1 && genericOp.getNumDpsInits() == 1 &&
+        genericOp.getDpsInputOperand(0)->get() == poolResult &&
+        genericOp.getNumLoops() == genericOp.getNumParallelLoops() &&
+        llvm::all_of(genericOp.getIndexingMapsArray(),
+                     [](AffineMap map) { return map.isIdentity(); })) {
       Block* body = genericOp.getBody();
       if (body->getOperations().size() == 2) {
         Operation& op = body->getOperations().front();
@@ -203,7 +210,8 @@ FailureOr<ScalingFactorInfo> matchScalingFactor(
           Value arg0 = op.getOperand(0);
           Value arg1 = op.getOperand(1);
           BlockArgument inputArg = body->getArgument(0);
-          if (arg0 == inputArg) {
+          Value yielded = body->getTerminator()->getOperand(0);
+          if (arg0 == inputArg && yielded == op.getResult(0)) {
             if (auto scaleOpt = getScale(arg1, &op)) {
               return ScalingFactorInfo{*scaleOpt, genericOp};
             }
-- 
2.43.0


From 7a943bf3d422a85b407a1e46c53a1b78e3cd454a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:56 +0000
Subject: [PATCH 025/111] fix: average pooling as convolution divided by the
 sum, or lost the initial value

A constant divided by the pooled sum was folded as if the sum were divided,
and the initial value of the pooling was added undivided.
---
 .../LinalgCanonicalizations.cpp               | 54 ++++++++++---------
 1 file changed, 30 insertions(+), 24 deletions(-)

diff --git a/lib/Transforms/LinalgCanonicalizations/LinalgCanonicalizations.cpp b/lib/Transforms/LinalgCanonicalizations/LinalgCanonicalizations.cpp
index a5744fe..08fb4c5 100644
--- a/lib/Transforms/LinalgCanonicalizations/LinalgCanonicalizations.cpp
+++ b/lib/Transforms/LinalgCanonicalizations/LinalgCanonicalizations.cpp
@@ -695,19 +695,22 @@ struct RewriteAvgPoolAsConv1D
     // it represents an average pool.
     Attribute avgAttr = oneAttr;
     Value avgPoolOutput;
+    Value convInit = poolOp.getOutputs()[0];
     if (poolOp->hasOneUse()) {
       auto divOp = dyn_cast<arith::DivFOp>(*poolOp->getUsers().begin());
-      if (divOp) {
-        OpOperand& use = *poolOp->getUses().begin();
-        if (auto constantAttr = dyn_cast<Attribute>(getAsOpFoldResult(
-                divOp->getOperand(1 - use.getOperandNumber())))) {
-          if (auto splatAttr = dyn_cast<SplatElementsAttr>(
-                  cast<DenseElementsAttr>(constantAttr))) {
-            auto divValue = splatAttr.getSplatValue<APFloat>();
-            APFloat one = APFloat::getOne(divValue.getSemantics());
-            avgAttr = rewriter.getFloatAttr(eltTy, one / divValue);
-            avgPoolOutput = divOp.getResult();
-          }
+      if (divOp && divOp.getLhs() == poolOp->getResult(0)) {
+        SplatElementsAttr splatAttr;
+        if (matchPattern(divOp.getRhs(), m_Constant(&splatAttr))) {
+          auto divValue = splatAttr.getSplatValue<APFloat>();
+          APFloat one = APFloat::getOne(divValue.getSemantics());
+          avgAttr = rewriter.getFloatAttr(eltTy, one / divValue);
+          avgPoolOutput = divOp.getResult();
+          // The division applies to the initial value as well.
+          Value divisor =
+              arith::ConstantOp::create(rewriter, poolOp.getLoc(), splatAttr);
+          convInit = arith::DivFOp::create(rewriter, divOp.getLoc(), convInit,
+                                           divisor)
+                         .getResult();
         }
       }
     }
@@ -739,7 +742,7 @@ struct RewriteAvgPoolAsConv1D
     Value conv = linalg::Conv1DNcwFcwOp::create(
                      rewriter, poolOp.getLoc(), outputTy,
                      ValueRange{poolOp.getInputs()[0], kernel},
-                     ValueRange{poolOp.getOutputs()[0]}, poolOp.getStrides(),
+                     ValueRange{convInit}, poolOp.getStrides(),
                      poolOp.getDilations())
                      .getResult(0);
 
@@ -781,19 +784,22 @@ struct RewriteAvgPoolAsConv2D
     // it represents an average pool.
     Attribute avgAttr = oneAttr;
     Value avgPoolOutput;
+    Value convInit = poolOp.getOutputs()[0];
     if (poolOp->hasOneUse()) {
       auto divOp = dyn_cast<arith::DivFOp>(*poolOp->getUsers().begin());
-      if (divOp) {
-        OpOperand& use = *poolOp->getUses().begin();
-        if (auto constantAttr = dyn_cast<Attribute>(getAsOpFoldResult(
-                divOp->getOperand(1 - use.getOperandNumber())))) {
-          if (auto splatAttr = dyn_cast<SplatElementsAttr>(
-                  cast<DenseElementsAttr>(constantAttr))) {
-            auto divValue = splatAttr.getSplatValue<APFloat>();
-            APFloat one = APFloat::getOne(divValue.getSemantics());
-            avgAttr = rewriter.getFloatAttr(eltTy, one / divValue);
-            avgPoolOutput = divOp.getResult();
-          }
+      if (divOp && divOp.getLhs() == poolOp->getResult(0)) {
+        SplatElementsAttr splatAttr;
+        if (matchPattern(divOp.getRhs(), m_Constant(&splatAttr))) {
+          auto divValue = splatAttr.getSplatValue<APFloat>();
+          APFloat one = APFloat::getOne(divValue.getSemantics());
+          avgAttr = rewriter.getFloatAttr(eltTy, one / divValue);
+          avgPoolOutput = divOp.getResult();
+          // The division applies to the initial value as well.
+          Value divisor =
+              arith::ConstantOp::create(rewriter, poolOp.getLoc(), splatAttr);
+          convInit = arith::DivFOp::create(rewriter, divOp.getLoc(), convInit,
+                                           divisor)
+                         .getResult();
         }
       }
     }
@@ -829,7 +835,7 @@ struct RewriteAvgPoolAsConv2D
     Value conv = linalg::Conv2DNchwFchwOp::create(
                      rewriter, poolOp.getLoc(), outputTy,
                      ValueRange{poolOp.getInputs()[0], kernel},
-                     ValueRange{poolOp.getOutputs()[0]}, poolOp.getStrides(),
+                     ValueRange{convInit}, poolOp.getStrides(),
                      poolOp.getDilations())
                      .getResult(0);
 
-- 
2.43.0


From bb359c3c380eb1b2a5ffe521b3f92d03055a43cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:56 +0000
Subject: [PATCH 026/111] fix: transposing a constant of index elements read
 them as floats

---
 .../LinalgCanonicalizations/LinalgCanonicalizations.cpp       | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/Transforms/LinalgCanonicalizations/LinalgCanonicalizations.cpp b/lib/Transforms/LinalgCanonicalizations/LinalgCanonicalizations.cpp
index 08fb4c5..858caf0 100644
--- a/lib/Transforms/LinalgCanonicalizations/LinalgCanonicalizations.cpp
+++ b/lib/Transforms/LinalgCanonicalizations/LinalgCanonicalizations.cpp
@@ -219,6 +219,10 @@ struct FoldConstantLinalgTranspose
                 convertConstantToTransposedElementsAttr<APInt>(
                     denseAttr, outputShape, permutation);
         }
+      } else if (elementType.isIndex()) {
+        transposedDenseElementsAttr =
+            convertConstantToTransposedElementsAttr<APInt>(
+                denseAttr, outputShape, permutation);
       } else {  // floating point
         // Likewise, floating point types are handled with templates to enable
         // better performance.
-- 
2.43.0


From 8244033d4293d22ccd1bfea5429619069b0a8c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:54 +0000
Subject: [PATCH 027/111] fix: elementwise generic took captured function
 arguments for its operands

Any block argument used in the body, also one of the enclosing function, was
mapped to the operand of that number, or hit an assertion.
---
 .../LinalgCanonicalizations.cpp                       | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/lib/Transforms/LinalgCanonicalizations/LinalgCanonicalizations.cpp b/lib/Transforms/LinalgCanonicalizations/LinalgCanonicalizations.cpp
index 858caf0..ecae351 100644
--- a/lib/Transforms/LinalgCanonicalizations/LinalgCanonicalizations.cpp
+++ b/lib/Transforms/LinalgCanonicalizations/LinalgCanonicalizations.cpp
@@ -545,13 +545,10 @@ struct LinalgGenericToElementwise
           cast<RankedTensorType>(genericOp.getResult(0).getType()).getShape();
       for (auto& operand : innerOp.getOpOperands()) {
         Value operandValue = operand.get();
-        if (auto blockArgument = dyn_cast<BlockArgument>(operandValue)) {
-          assert(blockArgument.getArgNumber() < genericOp.getInputs().size() &&
-                 "expecting that the elementwise operation does not use the "
-                 "output's initial values");
-          // Map the block argument to the operand of the generic op.
-          bvm.map(operandValue,
-                  genericOp.getOperand(blockArgument.getArgNumber()));
+        if (bvm.contains(operandValue)) {
+          // A block argument, the result of another op of the body, or a value
+          // that has been splatted already.
+          continue;
         } else if (operandValue.getParentBlock() != genericOp.getBody()) {
           // If this isn't a block argument and wasn't defined in the generic,
           // then it must be a constant from outside the generic. The shape of
-- 
2.43.0


From 473205a4bdbcbeb497b3f66fb68a723226665b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:31 +0000
Subject: [PATCH 028/111] fix: map to elementwise passed the inputs on whatever
 the mapper used

The mapper's operation may take the inputs in another order, one of them
twice or a captured scalar, and the mapper may yield something else; the
operation's own attributes were dropped.
---
 .../LinalgCanonicalizations.cpp               | 24 +++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/lib/Transforms/LinalgCanonicalizations/LinalgCanonicalizations.cpp b/lib/Transforms/LinalgCanonicalizations/LinalgCanonicalizations.cpp
index ecae351..ca54f0b 100644
--- a/lib/Transforms/LinalgCanonicalizations/LinalgCanonicalizations.cpp
+++ b/lib/Transforms/LinalgCanonicalizations/LinalgCanonicalizations.cpp
@@ -449,9 +449,29 @@ struct LinalgMapToElementwise : public OpRewritePattern<mlir::linalg::MapOp> {
       return rewriter.notifyMatchFailure(
           mapOp, "operation in mapper must be elementwise");
 
+    // The mapper should yield the operation's result.
+    if (op.getNumResults() != 1 ||
+        mapper->getTerminator()->getOperand(0) != op.getResult(0))
+      return rewriter.notifyMatchFailure(
+          mapOp, "mapper must yield the result of its operation");
+
+    SmallVector<Value> operands;
+    for (Value operand : op.getOperands()) {
+      auto blockArgument = dyn_cast<BlockArgument>(operand);
+      if (!blockArgument || blockArgument.getOwner() != mapper ||
+          blockArgument.getArgNumber() >= mapOp.getInputs().size())
+        return rewriter.notifyMatchFailure(
+            mapOp, "operands in mapper must be elements of the inputs");
+      operands.push_back(mapOp.getInputs()[blockArgument.getArgNumber()]);
+    }
+
+    SmallVector<NamedAttribute> attrs(op.getAttrs());
+    for (NamedAttribute attr : mapOp->getAttrs())
+      if (!op.hasAttr(attr.getName())) attrs.push_back(attr);
+
     auto* elementwiseOp = rewriter.create(
-        mapOp->getLoc(), op.getName().getIdentifier(), mapOp.getInputs(),
-        TypeRange(dest.getType()), mapOp->getAttrs(), {}, {});
+        mapOp->getLoc(), op.getName().getIdentifier(), operands,
+        TypeRange(dest.getType()), attrs, {}, {});
     rewriter.replaceOp(mapOp, elementwiseOp);
     if (dest.use_empty() && dest.getDefiningOp())
       rewriter.eraseOp(dest.getDefiningOp());
-- 
2.43.0


From f913e9baa08e9080a95376241d7891934324f8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:02 +0000
Subject: [PATCH 029/111] fix: constant in the body of an elementwise generic
 gave a scalar-valued tensor

A constant op of the body was re-created with a tensor result type and its
scalar value, which is not a valid constant.
---
 .../LinalgCanonicalizations.cpp                        | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/Transforms/LinalgCanonicalizations/LinalgCanonicalizations.cpp b/lib/Transforms/LinalgCanonicalizations/LinalgCanonicalizations.cpp
index ca54f0b..fcf1274 100644
--- a/lib/Transforms/LinalgCanonicalizations/LinalgCanonicalizations.cpp
+++ b/lib/Transforms/LinalgCanonicalizations/LinalgCanonicalizations.cpp
@@ -586,6 +586,16 @@ struct LinalgGenericToElementwise
                  "expected a mapping for this value");
         }
       }
+      // A constant of the body becomes a constant of the result shape.
+      if (auto constantOp = dyn_cast<arith::ConstantOp>(innerOp)) {
+        auto type =
+            RankedTensorType::get(resultTensorShape, constantOp.getType());
+        auto splat = arith::ConstantOp::create(
+            rewriter, genericOp->getLoc(),
+            DenseElementsAttr::get(type, Attribute(constantOp.getValue())));
+        bvm.map(constantOp.getResult(), splat.getResult());
+        continue;
+      }
       auto newInputs = llvm::to_vector(llvm::map_range(
           innerOp.getOperands(), [&](Value v) { return bvm.lookup(v); }));
       auto newDestTypes = llvm::to_vector(
-- 
2.43.0


From 3b56d57a496daa921b5c8d76310350e363e43d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:56 +0000
Subject: [PATCH 030/111] fix: materialized broadcast forgot a permutation of
 the operand's dimensions

linalg.broadcast keeps the order of its input's dimensions, so an operand read
through a permuting map cannot be materialized that way; such an operand is
left alone.
---
 .../LinalgCanonicalizations.cpp                  | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/lib/Transforms/LinalgCanonicalizations/LinalgCanonicalizations.cpp b/lib/Transforms/LinalgCanonicalizations/LinalgCanonicalizations.cpp
index fcf1274..a6173af 100644
--- a/lib/Transforms/LinalgCanonicalizations/LinalgCanonicalizations.cpp
+++ b/lib/Transforms/LinalgCanonicalizations/LinalgCanonicalizations.cpp
@@ -1108,12 +1108,14 @@ struct MaterializeBroadcasts : public OpRewritePattern<linalg::GenericOp> {
       }
 
       if (map.getNumResults() < numDims) {
-        madeChanges = true;
         auto materializedValue = materializeBroadcastForOperand(
             rewriter, genericOp, value, map, numDims);
         if (failed(materializedValue)) {
-          return failure();
+          newInputs.push_back(value);
+          newMaps.push_back(map);
+          continue;
         }
+        madeChanges = true;
         newInputs.push_back(*materializedValue);
         newMaps.push_back(rewriter.getMultiDimIdentityMap(numDims));
       } else {
@@ -1189,6 +1191,16 @@ struct MaterializeBroadcasts : public OpRewritePattern<linalg::GenericOp> {
     SmallVector<int64_t> addedDims = getBroadcastDimensions(map, numDims);
     int64_t targetRank = numDims - addedDims.size();
 
+    // linalg.broadcast keeps the order of its input's dimensions.
+    int64_t lastDim = -1;
+    for (auto expr : map.getResults()) {
+      auto dimExpr = dyn_cast<AffineDimExpr>(expr);
+      if (!dimExpr) continue;
+      int64_t dim = dimExpr.getPosition();
+      if (dim <= lastDim) return failure();
+      lastDim = dim;
+    }
+
     if (failed(tryCollapseUnitDims(rewriter, genericOp.getLoc(), value, map,
                                    targetRank))) {
       return failure();
-- 
2.43.0


From 917d97b09f9897147b3a5f6dfa03eaa9fe11fe5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:25 +0000
Subject: [PATCH 031/111] fix: comparisons in the Python frontend use the type
 of their operands

The result type of a comparison is a bool, so every comparison was rejected
with 'Result type bool is narrower than operands'.
---
 frontend/heir/mlir_emitter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/frontend/heir/mlir_emitter.py b/frontend/heir/mlir_emitter.py
index 6381250..9536640 100644
--- a/frontend/heir/mlir_emitter.py
+++ b/frontend/heir/mlir_emitter.py
@@ -647,6 +647,10 @@ class TextualMlirEmitter:
     return tmp, ext
 
   def emit_binop(self, binop, result_type=None):
+    if binop.fn in (operator.lt, operator.ge, operator.eq, operator.ne):
+      # The operands of a comparison keep their own type: its result type is
+      # always a bool.
+      result_type = None
     base_type = result_type or self.typemap.get(str(binop.lhs))
     # This should be the same, otherwise MLIR will complain
     suffix = arithSuffix(base_type)
-- 
2.43.0


From 3281b428e08e6e5f3aa68ba8e8aaf8b7fa415e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:39 +0000
Subject: [PATCH 032/111] fix: the step of a loop in the Python frontend is
 emitted as a constant

affine.for takes no SSA value for its step, so any range() with three
arguments gave MLIR that does not parse.
---
 frontend/heir/mlir_emitter.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/frontend/heir/mlir_emitter.py b/frontend/heir/mlir_emitter.py
index 9536640..1b476f6 100644
--- a/frontend/heir/mlir_emitter.py
+++ b/frontend/heir/mlir_emitter.py
@@ -812,9 +812,10 @@ class TextualMlirEmitter:
     stop, instr = self.emit_var_or_int(loop.range.stop)
     if instr:
       header.append(instr)
-    step, instr = self.emit_var_or_int(loop.range.step)
-    if instr:
-      header.append(instr)
+    step = loop.range.step
+    if isinstance(step, ir.Var):
+      # The step of an affine.for is a constant, not an SSA value
+      step = self.ssa_ir.infer_constant(step)
 
     itvar = self.get_or_create_name(loop.header.phi_var)  # create var for i
     for_str = f"affine.for {itvar} = {start} to {stop}"
-- 
2.43.0


From 29771bac4c301f4079c3e55093dc0080df412e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:08 +0000
Subject: [PATCH 033/111] fix: the Python frontend zero-extends bools

A bool used in integer arithmetic was sign-extended, so that True counted as
-1.
---
 frontend/heir/mlir_emitter.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/frontend/heir/mlir_emitter.py b/frontend/heir/mlir_emitter.py
index 1b476f6..caf2cdc 100644
--- a/frontend/heir/mlir_emitter.py
+++ b/frontend/heir/mlir_emitter.py
@@ -79,6 +79,11 @@ def getBitwidth(typ: NumbaType | MLIRType) -> int:
       )
 
 
+def extOp(from_type: NumbaType) -> str:
+  """The op that extends from_type: True is 1, not -1."""
+  return "arith.extui" if isinstance(from_type, nt.Boolean) else "arith.extsi"
+
+
 def mlirCastOp(
     from_type: NumbaType, to_type: MLIRType, value: str, loc: ir.Loc
 ) -> str:
@@ -98,7 +103,7 @@ def mlirCastOp(
       )
     if from_width < to_width:
       return (
-          f"arith.extsi {value} : {mlirType(from_type)} to"
+          f"{extOp(from_type)} {value} : {mlirType(from_type)} to"
           f" {to_type.mlir_type()} {mlirLoc(loc)}"
       )
   if isFloatLike(from_type) and isIntegerLike(to_type):
@@ -614,7 +619,7 @@ class TextualMlirEmitter:
 
     tmp = self.get_next_name()
     ext = (
-        f"{tmp} = arith.extsi {self.get_name(short)} : "
+        f"{tmp} = {extOp(self.typemap.get(str(short)))} {self.get_name(short)} : "
         f"{mlirType(self.typemap.get(str(short)))} "
         f"to {mlirType(self.typemap.get(str(long)))} "
         f"{mlirLoc(short.loc)}\n"
@@ -640,7 +645,7 @@ class TextualMlirEmitter:
       )
     tmp = self.get_next_name()
     ext = (
-        f"{tmp} = arith.extsi {self.get_name(value)} : "
+        f"{tmp} = {extOp(from_type)} {self.get_name(value)} : "
         f"{mlirType(from_type)} to {mlirType(to_type)} "
         f"{mlirLoc(value.loc)}\n"
     )
-- 
2.43.0


From 232608f4a86c4bee1aa4ad28cf28a8313fe81a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:42 +0000
Subject: [PATCH 034/111] fix: bools are compared as unsigned in the Python
 frontend

slt on i1 made True < False hold.
---
 frontend/heir/mlir_emitter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/frontend/heir/mlir_emitter.py b/frontend/heir/mlir_emitter.py
index caf2cdc..38d528f 100644
--- a/frontend/heir/mlir_emitter.py
+++ b/frontend/heir/mlir_emitter.py
@@ -662,6 +662,8 @@ class TextualMlirEmitter:
 
     lhs_ssa, rhs_ssa, ext, ty = self.emit_ext_if_needed(binop.lhs, binop.rhs)
 
+    # False < True, so an i1 has to be compared as unsigned
+    sign = "u" if isinstance(ty, nt.Boolean) else "s"
     if result_type is not None and isIntegerLike(result_type):
       ty_bw = getBitwidth(ty)
       result_bw = getBitwidth(result_type)
@@ -677,10 +679,10 @@ class TextualMlirEmitter:
 
     match binop.fn:
       case operator.lt:
-        pred = "olt" if suffix == "f" else "slt"
+        pred = "olt" if suffix == "f" else f"{sign}lt"
         return f"arith.cmp{suffix} {pred}, {lhs_ssa}, {rhs_ssa}", ext, ty
       case operator.ge:
-        pred = "oge" if suffix == "f" else "sge"
+        pred = "oge" if suffix == "f" else f"{sign}ge"
         return f"arith.cmp{suffix} {pred}, {lhs_ssa}, {rhs_ssa}", ext, ty
       case operator.eq:
         pred = "oeq" if suffix == "f" else "eq"
-- 
2.43.0


From b099b3c0c0a01e9f50504d09a4b05745d8877a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:42 +0000
Subject: [PATCH 035/111] fix: casts between integers and floats in the Python
 frontend

isFloatLike matched names numba does not have, and mlirCastOp asked for the
numba type of an MLIR type, so every such cast raised an internal error.
---
 frontend/heir/mlir_emitter.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/frontend/heir/mlir_emitter.py b/frontend/heir/mlir_emitter.py
index 38d528f..e29c212 100644
--- a/frontend/heir/mlir_emitter.py
+++ b/frontend/heir/mlir_emitter.py
@@ -11,7 +11,7 @@ from numba.core import bytecode
 from numba.core import controlflow
 import numba.core.types as nt
 
-from heir.mlir import I1, I8, I16, I32, I64, MLIRType, MLIR_TYPES
+from heir.mlir import F32, F64, I1, I8, I16, I32, I64, MLIRType, MLIR_TYPES
 from heir.interfaces import CompilerError, InternalCompilerError
 
 NumbaType = nt.Type
@@ -53,7 +53,7 @@ def isIntegerLike(typ: NumbaType | MLIRType) -> bool:
 
 def isFloatLike(typ: NumbaType | MLIRType) -> bool:
   match typ:
-    case nt.F32 | nt.F64 | nt.Float():
+    case F32() | F64() | nt.Float():
       return True
     case MLIRType() | nt.Type():
       return False
@@ -109,12 +109,13 @@ def mlirCastOp(
   if isFloatLike(from_type) and isIntegerLike(to_type):
     return (
         f"arith.fptosi {value} : {mlirType(from_type)} to"
-        f" {mlirType(to_type)} {mlirLoc(loc)}"
+        f" {to_type.mlir_type()} {mlirLoc(loc)}"
     )
   if isIntegerLike(from_type) and isFloatLike(to_type):
+    op = "arith.uitofp" if isinstance(from_type, nt.Boolean) else "arith.sitofp"
     return (
-        f"arith.sitofp {value} : {mlirType(from_type)} to"
-        f" {mlirType(to_type)} {mlirLoc(loc)}"
+        f"{op} {value} : {mlirType(from_type)} to"
+        f" {to_type.mlir_type()} {mlirLoc(loc)}"
     )
   raise CompilerError(
       f"Encountered unsupported cast of {value} from {from_type} to {to_type}",
-- 
2.43.0


From 752756d3273e4cce2b74342b948c9a7af61e9a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:42 +0000
Subject: [PATCH 036/111] fix: bool and small float constants in the Python
 frontend

They were printed the Python way (True, 1e-07), which MLIR does not parse.
---
 frontend/heir/mlir_emitter.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/frontend/heir/mlir_emitter.py b/frontend/heir/mlir_emitter.py
index e29c212..09dd7a2 100644
--- a/frontend/heir/mlir_emitter.py
+++ b/frontend/heir/mlir_emitter.py
@@ -129,6 +129,17 @@ def mlirLoc(loc: ir.Loc) -> str:
   )
 
 
+def mlirConstant(value: Any) -> str:
+  """The MLIR literal of a Python constant."""
+  if isinstance(value, bool):
+    # "true : i1" does not parse, a bool literal takes no type
+    return str(int(value))
+  if isinstance(value, float) and "." not in repr(value):
+    # MLIR float literals need a decimal point: 1e-07 is 1.0e-07
+    return repr(value).replace("e", ".0e")
+  return str(value)
+
+
 def arithSuffix(numba_type: NumbaType) -> str:
   """Helper to translate numba types to the associated arith dialect operation suffixes"""
   match numba_type:
@@ -569,7 +580,7 @@ class TextualMlirEmitter:
         return ""
       case ir.Const():
         expr = (
-            f"arith.constant {assign.value.value} :"
+            f"arith.constant {mlirConstant(assign.value.value)} :"
             f" {mlirType(self.typemap.get(assign.target.name))}"
             f" {mlirLoc(assign.loc)}"
         )
-- 
2.43.0


From cbe48b3cb5b931de7824d8ab37a9a8c09a9f115a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:55 +0000
Subject: [PATCH 037/111] fix: tensor arguments mix with tensor results in the
 Python frontend

numba gives an argument and the result of an operation different array
layouts, so that a * b + a was rejected.
---
 frontend/heir/mlir_emitter.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/frontend/heir/mlir_emitter.py b/frontend/heir/mlir_emitter.py
index 09dd7a2..9081322 100644
--- a/frontend/heir/mlir_emitter.py
+++ b/frontend/heir/mlir_emitter.py
@@ -602,8 +602,12 @@ class TextualMlirEmitter:
     lhs_type = self.typemap.get(str(lhs))
     rhs_type = self.typemap.get(str(rhs))
 
-    # Types agree: do nothing
-    if lhs_type == rhs_type:
+    # Types agree: do nothing. Tensor types may still differ in their numba
+    # layout, which MLIR does not have.
+    if lhs_type == rhs_type or (
+        isinstance(lhs_type, nt.Array)
+        and mlirType(lhs_type) == mlirType(rhs_type)
+    ):
       return self.get_name(lhs), self.get_name(rhs), "", lhs_type
 
     # types aren't integer types
-- 
2.43.0


From 4f4a4c240e99910917310af02a4f49daec8f0775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:27 +0000
Subject: [PATCH 038/111] fix: tensor arguments of one element type and rank
 shared their shape in the Python frontend

The shape was stored on numba's type object, of which there is one for all
arrays of an element type and rank, so the last shape won for all of them.
---
 frontend/heir/mlir/types.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/frontend/heir/mlir/types.py b/frontend/heir/mlir/types.py
index 39a6b8f..cfbefcc 100644
--- a/frontend/heir/mlir/types.py
+++ b/frontend/heir/mlir/types.py
@@ -255,8 +255,12 @@ def to_numba_type(type: type) -> NumbaType:
       raise TypeError("Nested Tensors are not yet supported.")
     # This is slightly cursed, as numba constructs array types via slice syntax
     # Cf. https://numba.pydata.org/numba-doc/dev/reference/types.html#arrays
-    ty = to_numba_type(inner_type)[(slice(None),) * len(shape)]
-    # We augment the type object with `shape` for the actual sizes
+    array_ty = to_numba_type(inner_type)[(slice(None),) * len(shape)]
+    # We augment the type object with `shape` for the actual sizes. Numba
+    # shares one type object among all arrays of the same element type and
+    # rank, so this needs an object of its own.
+    ty = object.__new__(array_ty.__class__)
+    ty.__dict__.update(array_ty.__dict__)
     ty.shape = shape  # type: ignore
     return ty
 
-- 
2.43.0


From a3ea975c4d5255c2c3af4d928537f74387326109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:59 +0000
Subject: [PATCH 039/111] fix: compiling in the Python frontend changed the
 caller's list of heir-opt options

With the list used for a second function, heir-opt got
--mlir-print-debuginfo twice, which it rejects.
---
 frontend/heir/pipeline.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/frontend/heir/pipeline.py b/frontend/heir/pipeline.py
index a8ad936..5b0603b 100644
--- a/frontend/heir/pipeline.py
+++ b/frontend/heir/pipeline.py
@@ -202,9 +202,10 @@ def run_pipeline(
         f.write(graph)
 
     # Run heir_opt
-    heir_opt_options.append(
+    # (a copy, since the list belongs to the caller)
+    heir_opt_options = heir_opt_options + [
         "--mlir-print-debuginfo"
-    )  # to preserve location info
+    ]  # to preserve location info
     if debug:
       heir_opt_options.append("--view-op-graph")
       DebugMessage(f"Running heir-opt {' '.join(heir_opt_options)}")
-- 
2.43.0


From 973b086003ac9b7cc8d48a0b8754b4382e92e28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:00 +0000
Subject: [PATCH 040/111] fix: a failing compilation of an MLIR string in the
 Python frontend hid heir-opt's errors

The handler read numba_ir, which only exists for Python functions, so an
UnboundLocalError came out.
---
 frontend/heir/pipeline.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/frontend/heir/pipeline.py b/frontend/heir/pipeline.py
index 5b0603b..6720236 100644
--- a/frontend/heir/pipeline.py
+++ b/frontend/heir/pipeline.py
@@ -76,6 +76,7 @@ def run_pipeline(
 
     # If it's a python function, parse it via Numba/etc
     mlir_raw_textual = ""
+    numba_ir = None
     if isinstance(function_or_mlir_str, Callable):
       numba_ir = compiler.run_frontend(function_or_mlir_str)
       if not isinstance(numba_ir, FunctionIR):
-- 
2.43.0


From be89427fe39e64bffa70129d06beaa14e8a69463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:00 +0000
Subject: [PATCH 041/111] fix: compiling for CGGI in the Python frontend
 without debug gave an UnboundLocalError

The message named a file that is only written in debug mode.
---
 frontend/heir/pipeline.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/frontend/heir/pipeline.py b/frontend/heir/pipeline.py
index 6720236..f2dca63 100644
--- a/frontend/heir/pipeline.py
+++ b/frontend/heir/pipeline.py
@@ -243,9 +243,13 @@ def run_pipeline(
     if any(
         opt.startswith("--mlir-to-cggi") for opt in heir_opt_options
     ) and not isinstance(backend, CleartextBackend):
+      hint = (
+          f"check CGGI output at {mlirpath}"
+          if debug
+          else "compile with debug=True to keep the CGGI output"
+      )
       raise NotImplementedError(
-          "Backend compilation is unsupported for CGGI scheme, check CGGI"
-          f" output at {mlirpath}"
+          f"Backend compilation is unsupported for CGGI scheme, {hint}"
       )
 
     result = backend.run_backend(
-- 
2.43.0


From 0e7a8c048e9376faf27241034d3166be613637ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:11 +0000
Subject: [PATCH 042/111] fix: the Python frontend failed on MLIR functions
 without secret arguments

The line with the secret arguments' indices is empty then, and int('') is
an error.
---
 frontend/heir/pipeline.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/frontend/heir/pipeline.py b/frontend/heir/pipeline.py
index f2dca63..c75018c 100644
--- a/frontend/heir/pipeline.py
+++ b/frontend/heir/pipeline.py
@@ -166,8 +166,10 @@ def run_pipeline(
             options=["--emit-function-info", "--allow-unregistered-dialect"],
         )
         func_name = func_info_str.splitlines()[0]
-        arg_names = func_info_str.splitlines()[1].split(", ")
-        secret_args = list(map(int, func_info_str.splitlines()[2].split(", ")))
+        arg_names = [a for a in func_info_str.splitlines()[1].split(", ") if a]
+        secret_args = [
+            int(i) for i in func_info_str.splitlines()[2].split(", ") if i
+        ]
       except CLIError as e:
         raise CompilerError(
             f"Failed to get function info from MLIR string: {e.stderr}",
-- 
2.43.0


From 306ca51d8ce10215546380200bcf8dfc7223244f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:57 +0000
Subject: [PATCH 043/111] fix: compiling a second MLIR string with the same
 function name in the Python frontend ran the first one

The Python module of the compiled function is named after it, and
import_module returned the one that was already loaded.
---
 frontend/heir/backends/openfhe/backend.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/frontend/heir/backends/openfhe/backend.py b/frontend/heir/backends/openfhe/backend.py
index d24c4c2..ac4189c 100644
--- a/frontend/heir/backends/openfhe/backend.py
+++ b/frontend/heir/backends/openfhe/backend.py
@@ -1,8 +1,7 @@
 """OpenFHE Backend."""
 
-import importlib
+import importlib.util
 import pathlib
-import sys
 
 import colorama
 
@@ -293,9 +292,13 @@ class OpenFHEBackend(BackendInterface):
         arg_printer=debug_printer if debug else None,
     )
 
-    sys.path.append(workspace_dir)
-    importlib.invalidate_caches()
-    bound_module = importlib.import_module(module_name)
+    # Not import_module: it would return the module of an earlier compilation of
+    # a function of the same name.
+    spec = importlib.util.spec_from_file_location(
+        module_name, pybind_so_filepath
+    )
+    bound_module = importlib.util.module_from_spec(spec)
+    spec.loader.exec_module(bound_module)
 
     def wrap_enc_fn(arg_name, enc_fn, *args, **kwargs):
       return EncValue(arg_name, enc_fn(*args, **kwargs))
-- 
2.43.0


From e851f9c42f00c18a93d28466fc5463c02a8835b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:07 +0000
Subject: [PATCH 044/111] fix: emitting a block argument stored in a memref or
 put in a tensor dereferences its null defining op (tfhe-rs)

---
 lib/Target/TfheRust/TfheRustEmitter.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/Target/TfheRust/TfheRustEmitter.cpp b/lib/Target/TfheRust/TfheRustEmitter.cpp
index 2c42c39..3a9afb4 100644
--- a/lib/Target/TfheRust/TfheRustEmitter.cpp
+++ b/lib/Target/TfheRust/TfheRustEmitter.cpp
@@ -60,8 +60,9 @@ namespace tfhe_rust {
 
 namespace {
 
+// Returns false if op is null, as it is for the defining op of a block argument.
 bool isLevelledOp(Operation* op) {
-  return isa<ApplyLookupTableOp, AddOp, ScalarLeftShiftOp>(op);
+  return isa_and_nonnull<ApplyLookupTableOp, AddOp, ScalarLeftShiftOp>(op);
 }
 
 bool usedByLevelledOp(Value value) {
@@ -811,8 +812,9 @@ LogicalResult TfheRustEmitter::printOperation(memref::StoreOp op) {
                       variableNames->getIntForValue(op.getValueToStore()));
   } else if (isa<tfhe_rust::TfheRustDialect>(
                  op.getValueToStore().getType().getDialect()) &&
-             !isa<tfhe_rust::TfheRustDialect>(
-                 op.getValueToStore().getDefiningOp()->getDialect())) {
+             (isa<BlockArgument>(op.getValueToStore()) ||
+              !isa<tfhe_rust::TfheRustDialect>(
+                  op.getValueToStore().getDefiningOp()->getDialect()))) {
     valueToStore += ".clone()";
   }
 
-- 
2.43.0


From 4be531de8f49f38d46b6ce47fb0b3dc4c366da67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:07 +0000
Subject: [PATCH 045/111] fix: the tfhe-rs emitter ignores the step of
 affine.for

---
 lib/Target/TfheRust/TfheRustEmitter.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/Target/TfheRust/TfheRustEmitter.cpp b/lib/Target/TfheRust/TfheRustEmitter.cpp
index 3a9afb4..c451309 100644
--- a/lib/Target/TfheRust/TfheRustEmitter.cpp
+++ b/lib/Target/TfheRust/TfheRustEmitter.cpp
@@ -519,8 +519,15 @@ std::string TfheRustEmitter::operationType(Operation* op) {
 
 LogicalResult TfheRustEmitter::printOperation(affine::AffineForOp forOp) {
   os << "for " << variableNames->getNameForValue(forOp.getInductionVar())
-     << " in " << forOp.getConstantLowerBound() << ".."
-     << forOp.getConstantUpperBound() << " {\n";
+     << " in ";
+  if (forOp.getStepAsInt() == 1) {
+    os << forOp.getConstantLowerBound() << ".." << forOp.getConstantUpperBound();
+  } else {
+    os << "(" << forOp.getConstantLowerBound() << ".."
+       << forOp.getConstantUpperBound() << ").step_by("
+       << forOp.getStepAsInt() << ")";
+  }
+  os << " {\n";
   os.indent();
 
   if (failed(translateBlock(*forOp.getBody()))) {
-- 
2.43.0


From 8fa4933913ca4b531f6c5214a4590cc32b673b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:37 +0000
Subject: [PATCH 046/111] fix: the tfhe-rs bool emitter dereferences the null
 defining op of a returned function argument

---
 lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp b/lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp
index f5bdced..0f1ed49 100644
--- a/lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp
+++ b/lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp
@@ -204,10 +204,10 @@ LogicalResult TfheRustBoolEmitter::printOperation(func::ReturnOp op) {
     if (isa<BlockArgument>(value)) {
       suffix = ".clone()";
     }
-    if (isa<tensor::FromElementsOp>(value.getDefiningOp())) {
+    if (isa_and_nonnull<tensor::FromElementsOp>(value.getDefiningOp())) {
       suffix = ".into_iter().cloned().collect()";
     }
-    if (isa<memref::AllocOp>(value.getDefiningOp())) {
+    if (isa_and_nonnull<memref::AllocOp>(value.getDefiningOp())) {
       // MemRefs (BTreeMap<(usize, ...), Ciphertext>) must be converted to
       // Vec<Ciphertext>
       suffix = ".into_values().collect()";
-- 
2.43.0


From 7e4fadc87828649ffee1fe6f3be9acd2bf6d6250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:37 +0000
Subject: [PATCH 047/111] fix: the tfhe-rs bool emitter emits the bodies of
 nested affine.for loops twice

---
 lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp b/lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp
index 0f1ed49..b272d95 100644
--- a/lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp
+++ b/lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp
@@ -349,15 +349,11 @@ LogicalResult TfheRustBoolEmitter::printOperation(affine::AffineForOp op) {
      << " {\n";
   os.indent();
 
-  auto res = op.getBody()->walk([&](Operation* op) {
-    if (failed(translate(*op))) {
-      return WalkResult::interrupt();
+  // Nested regions are translated by the ops that own them.
+  for (Operation& bodyOp : op.getBody()->getOperations()) {
+    if (failed(translate(bodyOp))) {
+      return failure();
     }
-    return WalkResult::advance();
-  });
-
-  if (res.wasInterrupted()) {
-    return failure();
   }
 
   os.unindent();
-- 
2.43.0


From 94cfba4da35aaae5d6fbb771ee78397577706b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:14 +0000
Subject: [PATCH 048/111] fix: the tfhe-rs bool emitter crashes on a tensor of
 function arguments

---
 lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp b/lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp
index b272d95..af6f91d 100644
--- a/lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp
+++ b/lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp
@@ -515,14 +515,15 @@ LogicalResult TfheRustBoolEmitter::printOperation(tensor::ExtractOp op) {
 LogicalResult TfheRustBoolEmitter::printOperation(tensor::FromElementsOp op) {
   emitAssignPrefix(op.getResult());
   os << "vec![" << commaSeparatedValues(op.getOperands(), [&](Value value) {
-    // Check if block argument, if so, clone.
-    const auto* cloneStr = isa<BlockArgument>(value) ? ".clone()" : "";
+    // Function arguments are already references.
+    if (isa<BlockArgument>(value)) {
+      return variableNames->getNameForValue(value);
+    }
     // Get the name of defining operation its dialect
     auto tfheOp =
         value.getDefiningOp()->getDialect()->getNamespace() == "tfhe_rust_bool";
     const auto* prefix = tfheOp ? "&" : "";
-    return std::string(prefix) + variableNames->getNameForValue(value) +
-           cloneStr;
+    return std::string(prefix) + variableNames->getNameForValue(value);
   }) << "];\n";
   return success();
 }
-- 
2.43.0


From 29faa5f4f73a1939479612cb51b4fae6bf105eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:06 +0000
Subject: [PATCH 049/111] fix: the tfhe-rs HL emitter reads a missing operand
 of affine.yield

---
 lib/Target/TfheRustHL/TfheRustHLEmitter.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp b/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
index 8de9c9b..b1b2d06 100644
--- a/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
+++ b/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
@@ -436,6 +436,13 @@ LogicalResult TfheRustHLEmitter::printOperation(affine::AffineYieldOp op) {
     return op.emitOpError() << "AffineYieldOp has non-zero number of results";
   }
 
+  if (op->getNumOperands() == 0) {
+    return success();
+  }
+  if (op->getNumOperands() > 1) {
+    return op.emitOpError() << "AffineYieldOp has more than one operand";
+  }
+
   os << variableNames->getNameForValue(op->getOperand(0)) << "\n";
 
   return success();
-- 
2.43.0


From 0ae4061820abc1d1f5cdd016cee9926fc81f2b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:06 +0000
Subject: [PATCH 050/111] fix: chained tensor.insert in the tfhe-rs HL emitter
 assigns to an immutable binding

---
 lib/Target/TfheRustHL/TfheRustHLEmitter.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp b/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
index b1b2d06..af25e7f 100644
--- a/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
+++ b/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
@@ -813,8 +813,9 @@ LogicalResult TfheRustHLEmitter::printOperation(tensor::InsertOp op) {
      << " = " << variableNames->getNameForValue(op.getScalar())
      << ".clone();\n";
 
-  emitAssignPrefix(op.getResult());
-  os << variableNames->getNameForValue(tensor) << ";\n";
+  // The result is the destination of a subsequent insertion.
+  os << "let mut " << variableNames->getNameForValue(op.getResult()) << " = "
+     << variableNames->getNameForValue(tensor) << ";\n";
 
   return success();
 }
-- 
2.43.0


From e0ee5a1ce27051795384f4d8037c9a60104374da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:06 +0000
Subject: [PATCH 051/111] fix: the tfhe-rs HL emitter drops the sign of
 negative constants

---
 lib/Target/TfheRustHL/TfheRustHLEmitter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp b/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
index af25e7f..ac7dd8e 100644
--- a/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
+++ b/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
@@ -463,7 +463,9 @@ LogicalResult TfheRustHLEmitter::printOperation(arith::ConstantOp op) {
   // By default, it emits an unsigned integer.
   emitAssignPrefix(op.getResult());
   if (auto intAttr = dyn_cast<IntegerAttr>(valueAttr)) {
-    os << intAttr.getValue().abs() << convertType(op.getType()) << ";\n";
+    SmallString<40> digits;
+    intAttr.getValue().toStringUnsigned(digits);
+    os << digits << convertType(op.getType()) << ";\n";
   } else {
     return op.emitError() << "Unknown constant type " << valueAttr.getType();
   }
-- 
2.43.0


From d7d204e5695b95ff2c237fcf6376cab1a1aa0183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:06 +0000
Subject: [PATCH 052/111] fix: the tfhe-rs HL emitter drops commas between call
 arguments when one value is passed twice

---
 lib/Target/TfheRustHL/TfheRustHLEmitter.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp b/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
index ac7dd8e..954f460 100644
--- a/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
+++ b/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
@@ -272,16 +272,15 @@ LogicalResult TfheRustHLEmitter::printOperation(func::CallOp op) {
   os << "let " << variableNames->getNameForValue(op->getResult(0)) << " = ";
 
   os << op.getCallee() << "(";
+  SmallVector<Value> args;
   for (Value arg : op->getOperands()) {
     if (!isa<tfhe_rust::ServerKeyType>(arg.getType())) {
-      auto argName = variableNames->getNameForValue(arg);
-      if (op.getOperands().back() == arg) {
-        os << "&" << argName;
-      } else {
-        os << "&" << argName << ", ";
-      }
+      args.push_back(arg);
     }
   }
+  os << commaSeparatedValues(args, [&](Value value) {
+    return "&" + variableNames->getNameForValue(value);
+  });
 
   os << "); \n";
   return success();
-- 
2.43.0


From e6b9c37b63b1e747ea9edc1e28591e0e711449a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:15 +0000
Subject: [PATCH 053/111] fix: the tfhe-rs HL emitter refuses create_trivial of
 an integer attribute after emitting it

---
 lib/Target/TfheRustHL/TfheRustHLEmitter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp b/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
index 954f460..8bb4f96 100644
--- a/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
+++ b/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
@@ -359,6 +359,7 @@ LogicalResult TfheRustHLEmitter::printOperation(CreateTrivialOp op) {
          << "::try_encrypt_trivial(" << intAttr.getValue() << "u"
          << getRustIntegerType(intAttr.getType().getIntOrFloatBitWidth());
       os << ").unwrap();\n";
+      return success();
     }
   } else {
     os << "FheUint" << getTfheRustBitWidth(op.getResult().getType())
-- 
2.43.0


From bb743f20a4a009afdcae06cbad9e43e60f6bb9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:53 +0000
Subject: [PATCH 054/111] fix: the tfhe-rs HL emitter flattens
 tensor.from_elements of rank above 1

---
 lib/Target/TfheRustHL/TfheRustHLEmitter.cpp | 26 +++++++++++----------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp b/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
index 8bb4f96..7161e8f 100644
--- a/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
+++ b/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
@@ -18,6 +18,7 @@
 #include "lib/Target/TfheRustHL/TfheRustHLTemplates.h"
 #include "lib/Utils/TargetUtils.h"
 #include "llvm/include/llvm/ADT/STLExtras.h"           // from @llvm-project
+#include "llvm/include/llvm/ADT/StringExtras.h"        // from @llvm-project
 #include "llvm/include/llvm/ADT/TypeSwitch.h"          // from @llvm-project
 #include "llvm/include/llvm/Support/FormatVariadic.h"  // from @llvm-project
 #include "llvm/include/llvm/Support/raw_ostream.h"     // from @llvm-project
@@ -785,22 +786,23 @@ LogicalResult TfheRustHLEmitter::printOperation(tensor::FromElementsOp op) {
 
   emitAssignPrefix(op.getResult());
 
-  std::string valueList;
-
-  for (int i = 0; i < op.getNumOperands(); i++) {
-    valueList = llvm::formatv("{0}{1}.clone()", valueList,
-                              variableNames->getNameForValue(op.getOperand(i)));
-
-    if (i != op->getNumOperands() - 1) {
-      valueList = llvm::formatv("{0}, ", valueList);
-    }
+  SmallVector<std::string> values;
+  for (Value operand : op.getOperands()) {
+    values.push_back(variableNames->getNameForValue(operand) + ".clone()");
   }
 
-  for (int i = 0; i < op.getResult().getType().getShape().size(); i++) {
-    valueList = llvm::formatv("[{0}]", valueList);
+  // Enclose each dimension in brackets, from the innermost to the outermost.
+  for (int64_t dim : llvm::reverse(op.getResult().getType().getShape())) {
+    SmallVector<std::string> rows;
+    for (size_t i = 0; i < values.size(); i += dim) {
+      rows.push_back(
+          "[" + llvm::join(ArrayRef<std::string>(values).slice(i, dim), ", ") +
+          "]");
+    }
+    values = std::move(rows);
   }
 
-  os << valueList << ";\n";
+  os << (values.empty() ? "[]" : values.front()) << ";\n";
   return success();
 }
 
-- 
2.43.0


From 02a8051a16c1063dfa17df8f6f970d4da7c9c366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:57 +0000
Subject: [PATCH 055/111] fix: the frontend's != is false for NaN

---
 frontend/heir/mlir_emitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frontend/heir/mlir_emitter.py b/frontend/heir/mlir_emitter.py
index 9081322..b889f8b 100644
--- a/frontend/heir/mlir_emitter.py
+++ b/frontend/heir/mlir_emitter.py
@@ -704,7 +704,7 @@ class TextualMlirEmitter:
         pred = "oeq" if suffix == "f" else "eq"
         return f"arith.cmp{suffix} {pred}, {lhs_ssa}, {rhs_ssa}", ext, ty
       case operator.ne:
-        pred = "one" if suffix == "f" else "ne"
+        pred = "une" if suffix == "f" else "ne"
         return f"arith.cmp{suffix} {pred}, {lhs_ssa}, {rhs_ssa}", ext, ty
       case operator.add:
         return f"arith.add{suffix} {lhs_ssa}, {rhs_ssa}", ext, ty
-- 
2.43.0


From fc82900ae064857861632bef0881c01ed2e70fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 056/111] fix: a lit RUN line continued before a redirect keeps
 what came before it

---
 scripts/lit_to_bazel_lib.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/scripts/lit_to_bazel_lib.py b/scripts/lit_to_bazel_lib.py
index 4d0a755..530844e 100644
--- a/scripts/lit_to_bazel_lib.py
+++ b/scripts/lit_to_bazel_lib.py
@@ -46,16 +46,17 @@ def convert_to_run_commands(run_lines):
       run_lines.appendleft(RUN_PREFIX + " " + second.strip())
       continue
 
+    if line.strip().endswith("\\"):
+      current_command += " " + line.strip()[:-1].strip()
+      continue
+
     # redirecting to a file implicitly ends the command on that line
     if OUT_REDIRECT in line or IN_REDIRECT in line:
-      cmds.append(line.strip())
+      current_command += " " + line.strip()
+      cmds.append(current_command.strip())
       current_command = ""
       continue
 
-    if line.strip().endswith("\\"):
-      current_command += " " + line.replace("\\", "").strip()
-      continue
-
     current_command += line
     cmds.append(current_command.strip())
     current_command = ""
-- 
2.43.0


From 025e81acf5a94816d420728bea8572d3ec59198c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:52 +0000
Subject: [PATCH 057/111] fix: new_transform derives the flag from the pass
 name, not the other way round

---
 scripts/templates/templates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/templates/templates.py b/scripts/templates/templates.py
index 9cdcc8b..8707102 100644
--- a/scripts/templates/templates.py
+++ b/scripts/templates/templates.py
@@ -230,7 +230,7 @@ class CLI:
       raise ValueError("pass_name must be provided")
 
     if not pass_flag:
-      pass_name = f"{pass_name.lower()}"
+      pass_flag = pass_name.lower()
 
     lib_path = self.root / "lib" / "Transforms" / pass_name
 
-- 
2.43.0


From 529b2c23f49df5659bb4ea4af40089f89218b0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:51 +0000
Subject: [PATCH 058/111] fix: the static roots generator writes its opening
 brace

---
 scripts/generate_static_roots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/generate_static_roots.py b/scripts/generate_static_roots.py
index ac22417..cd0e541 100644
--- a/scripts/generate_static_roots.py
+++ b/scripts/generate_static_roots.py
@@ -24,7 +24,7 @@ OPENING_TEMPLATE = """
 
 llvm::DenseMap<std::pair<unsigned long long, unsigned long long>,
                unsigned long long>
-    STATIC_{size}BIT_ROOTS({
+    STATIC_{size}BIT_ROOTS({{
 """
 
 ENTRY_TEMPLATE = """        {{{{{cmod}, {degree}}}, {root}}},
-- 
2.43.0


From 565fefbb9c076c142d8312fcde60c48f7579a5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:20 +0000
Subject: [PATCH 059/111] fix: metadata of a function declaration lists its
 parameters

---
 lib/Target/Metadata/MetadataEmitter.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/Target/Metadata/MetadataEmitter.cpp b/lib/Target/Metadata/MetadataEmitter.cpp
index ad48643..9eeb4c6 100644
--- a/lib/Target/Metadata/MetadataEmitter.cpp
+++ b/lib/Target/Metadata/MetadataEmitter.cpp
@@ -2,6 +2,7 @@
 
 #include <utility>
 
+#include "llvm/include/llvm/ADT/STLExtras.h"           // from @llvm-project
 #include "llvm/include/llvm/ADT/TypeSwitch.h"          // from @llvm-project
 #include "llvm/include/llvm/Support/FormatVariadic.h"  // from @llvm-project
 #include "llvm/include/llvm/Support/JSON.h"            // from @llvm-project
@@ -173,8 +174,10 @@ FailureOr<llvm::json::Object> MetadataEmitter::typeAsJson(MemRefType& ty) {
 
 FailureOr<llvm::json::Object> MetadataEmitter::emitOperation(FuncOp funcOp) {
   llvm::json::Array arguments;
-  for (auto arg : funcOp.getArguments()) {
-    Type type = arg.getType();
+  // The argument types come from the function type, since a declaration has
+  // no block arguments.
+  for (auto [index, argType] : llvm::enumerate(funcOp.getArgumentTypes())) {
+    Type type = argType;
     auto result = llvm::TypeSwitch<Type&, FailureOr<llvm::json::Object>>(type)
                       .Case<IntegerType, MemRefType>(
                           [&](auto ty) { return typeAsJson(ty); })
@@ -186,7 +189,7 @@ FailureOr<llvm::json::Object> MetadataEmitter::emitOperation(FuncOp funcOp) {
       return failure();
     }
     arguments.push_back(llvm::json::Object{
-        {"index", arg.getArgNumber()},
+        {"index", index},
         {"type", std::move(result.value())},
     });
   }
-- 
2.43.0


From 1266b5a018c91589b4d531820a933a6333b012a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:34 +0000
Subject: [PATCH 060/111] fix: a memref passed to a call is not marked const in
 emitted C++

---
 lib/Analysis/Cpp/BUILD                      | 1 +
 lib/Analysis/Cpp/ConstQualifierAnalysis.cpp | 7 ++++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/Analysis/Cpp/BUILD b/lib/Analysis/Cpp/BUILD
index b007a24..ed97b01 100644
--- a/lib/Analysis/Cpp/BUILD
+++ b/lib/Analysis/Cpp/BUILD
@@ -12,6 +12,7 @@ cc_library(
     deps = [
         "@heir//lib/Utils/Tablegen:InPlaceOpInterface",
         "@llvm-project//llvm:Support",
+        "@llvm-project//mlir:CallOpInterfaces",
         "@llvm-project//mlir:IR",
         "@llvm-project//mlir:SideEffectInterfaces",
         "@llvm-project//mlir:Support",
diff --git a/lib/Analysis/Cpp/ConstQualifierAnalysis.cpp b/lib/Analysis/Cpp/ConstQualifierAnalysis.cpp
index 441ada3..8508973 100644
--- a/lib/Analysis/Cpp/ConstQualifierAnalysis.cpp
+++ b/lib/Analysis/Cpp/ConstQualifierAnalysis.cpp
@@ -2,9 +2,11 @@
 
 #include "lib/Utils/Tablegen/InPlaceOpInterface.h"
 #include "llvm/include/llvm/ADT/STLExtras.h"  // from @llvm-project
+#include "mlir/include/mlir/IR/BuiltinTypes.h"  // from @llvm-project
 #include "mlir/include/mlir/IR/Operation.h"   // from @llvm-project
 #include "mlir/include/mlir/IR/Value.h"       // from @llvm-project
 #include "mlir/include/mlir/IR/Visitors.h"    // from @llvm-project
+#include "mlir/include/mlir/Interfaces/CallInterfaces.h"  // from @llvm-project
 #include "mlir/include/mlir/Interfaces/SideEffectInterfaces.h"  // from @llvm-project
 #include "mlir/include/mlir/Support/LLVM.h"  // from @llvm-project
 
@@ -18,7 +20,10 @@ bool isMutated(Value value) {
     bool isTargetOfInPlaceOp =
         inPlaceOp &&
         user->getOperand(inPlaceOp.getInPlaceOperandIndex()) == value;
-    return mutatesOperand || isTargetOfInPlaceOp;
+    // A callee may write to a memref, and takes it by non-const reference.
+    bool isPassedToCall =
+        isa<CallOpInterface>(user) && isa<MemRefType>(value.getType());
+    return mutatesOperand || isTargetOfInPlaceOp || isPassedToCall;
   });
 }
 
-- 
2.43.0


From 09a0b03f894d18514f01eb3ff6760469699a0fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:11 +0000
Subject: [PATCH 061/111] fix: refuse an unsupported parameter type of a
 declaration instead of aborting

---
 lib/Target/OpenFhePke/OpenFheUtils.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/Target/OpenFhePke/OpenFheUtils.cpp b/lib/Target/OpenFhePke/OpenFheUtils.cpp
index 9a972ba..7ab0b6a 100644
--- a/lib/Target/OpenFhePke/OpenFheUtils.cpp
+++ b/lib/Target/OpenFhePke/OpenFheUtils.cpp
@@ -162,10 +162,10 @@ LogicalResult funcDeclarationHelper(
   // commaSeparatedValues; maybe consider making commaSeparatedValues combine
   // the results into a FailureOr, like commaSeparatedTypes in tfhe_rust
   // emitter.
-  for (Value arg : funcOp.getArguments()) {
-    if (failed(convertType(arg.getType(), arg.getLoc()))) {
+  for (Type argTy : funcOp.getArgumentTypes()) {
+    if (failed(convertType(argTy, funcOp->getLoc()))) {
       return emitError(funcOp.getLoc(),
-                       llvm::formatv("Failed to emit type {0}", arg.getType()));
+                       llvm::formatv("Failed to emit type {0}", argTy));
     }
   }
 
-- 
2.43.0


From 69a06b944552a7a0501b410ce17e1b9d68b2169c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:12 +0000
Subject: [PATCH 062/111] fix: a negative modular constant folds to its residue

---
 lib/Dialect/ModArith/IR/ModArithOps.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/lib/Dialect/ModArith/IR/ModArithOps.cpp b/lib/Dialect/ModArith/IR/ModArithOps.cpp
index 4277688..2d6d383 100644
--- a/lib/Dialect/ModArith/IR/ModArithOps.cpp
+++ b/lib/Dialect/ModArith/IR/ModArithOps.cpp
@@ -36,6 +36,12 @@ namespace mlir {
 namespace heir {
 namespace mod_arith {
 
+// The canonical representative in [0, modulus) of a (signed) constant.
+static APInt canonicalResidue(const APInt& value, const APInt& modulus) {
+  APInt residue = value.sextOrTrunc(modulus.getBitWidth()).srem(modulus);
+  return residue.isNegative() ? residue + modulus : residue;
+}
+
 template <typename OpType>
 LogicalResult verifySameWidth(OpType op, ModQTypeInterface modularType,
                               IntegerType integerType) {
@@ -360,7 +366,6 @@ OpFoldResult ConstantOp::fold(FoldAdaptor adaptor) {
 
   // Retrieve the modulus value and its bit width
   APInt modulus = modType.getModulus().getValue();
-  unsigned modBitWidth = modulus.getBitWidth();
 
   auto denseElementsAttr = dyn_cast<DenseIntElementsAttr>(adaptor.getValue());
   if (denseElementsAttr) {
@@ -369,7 +374,7 @@ OpFoldResult ConstantOp::fold(FoldAdaptor adaptor) {
     ShapedType shapedType = cast<ShapedType>(getType());
     SmallVector<APInt, 4> values;
     for (const auto value : denseElementsAttr.getValues<APInt>()) {
-      values.push_back(value.zextOrTrunc(modBitWidth).urem(modulus));
+      values.push_back(canonicalResidue(value, modulus));
     }
     // Have to use an integer type here because DenseIntElementsAttr
     // requires integer types.
@@ -383,11 +388,8 @@ OpFoldResult ConstantOp::fold(FoldAdaptor adaptor) {
   // Extract the actual integer values
   APInt cst = intAttr.getValue();
 
-  // Adjust cst's bit width to match modulus if necessary
-  cst = cst.zextOrTrunc(modBitWidth);
-
   // Fold the constant value
-  APInt foldedVal = cst.urem(modulus);
+  APInt foldedVal = canonicalResidue(cst, modulus);
 
   LLVM_DEBUG({
     llvm::dbgs() << "\n";
@@ -436,8 +438,8 @@ Attribute foldScalarModOp(ArrayRef<Attribute> operands,
   // Strict accumulation safety (1 extra bit or more)
   unsigned workWidth = 2 * modBitWidth + 1;
 
-  APInt lw = lhs->zextOrTrunc(modBitWidth).zext(workWidth);
-  APInt rw = rhs->zextOrTrunc(modBitWidth).zext(workWidth);
+  APInt lw = canonicalResidue(*lhs, modulus).zext(workWidth);
+  APInt rw = canonicalResidue(*rhs, modulus).zext(workWidth);
   APInt mw = modulus.zext(workWidth);
 
   APInt res;
@@ -452,7 +454,7 @@ Attribute foldScalarModOp(ArrayRef<Attribute> operands,
       res = lw * rw;
       break;
     case ModOp::Mac: {
-      APInt aw = acc->zextOrTrunc(modBitWidth).zext(workWidth);
+      APInt aw = canonicalResidue(*acc, modulus).zext(workWidth);
       res = aw + (lw * rw);
       break;
     }
-- 
2.43.0


From 03ec729886bff00504ae7754c985d89fdbfd2ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:12 +0000
Subject: [PATCH 063/111] fix: a modular constant lowers to its canonical
 residue

---
 .../ModArithToArith/ModArithToArith.cpp       | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/lib/Dialect/ModArith/Conversions/ModArithToArith/ModArithToArith.cpp b/lib/Dialect/ModArith/Conversions/ModArithToArith/ModArithToArith.cpp
index 71ae178..074d063 100644
--- a/lib/Dialect/ModArith/Conversions/ModArithToArith/ModArithToArith.cpp
+++ b/lib/Dialect/ModArith/Conversions/ModArithToArith/ModArithToArith.cpp
@@ -311,8 +311,23 @@ struct ConvertConstant : public OpConversionPattern<ConstantOp> {
   LogicalResult matchAndRewrite(
       ConstantOp op, OpAdaptor adaptor,
       ConversionPatternRewriter& rewriter) const override {
-    auto constOp =
-        arith::ConstantOp::create(rewriter, op.getLoc(), adaptor.getValue());
+    auto modType = cast<ModArithType>(getElementTypeOrSelf(op.getType()));
+    Type storageType = modType.getModulus().getType();
+    APInt modulus = modType.getModulus().getValue();
+    // The lowered operations assume canonical representatives, while a constant
+    // may be negative or exceed the modulus.
+    auto canonical = [&](const APInt& value) -> APInt {
+      APInt residue = value.sextOrTrunc(modulus.getBitWidth()).srem(modulus);
+      return residue.isNegative() ? residue + modulus : residue;
+    };
+    TypedAttr value = adaptor.getValue();
+    if (auto intAttr = dyn_cast<IntegerAttr>(value)) {
+      value = IntegerAttr::get(storageType, canonical(intAttr.getValue()));
+    } else if (auto denseAttr = dyn_cast<DenseIntElementsAttr>(value)) {
+      value = cast<TypedAttr>(
+          Attribute(denseAttr.mapValues(storageType, canonical)));
+    }
+    auto constOp = arith::ConstantOp::create(rewriter, op.getLoc(), value);
     rewriter.replaceOp(op, constOp);
     return success();
   }
-- 
2.43.0


From 9c7605a62b2df028c881e4cf2c8de05764d68286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:12 +0000
Subject: [PATCH 064/111] fix: convert_basis multiplies by the moduli of the
 earlier limbs

---
 lib/Dialect/RNS/IR/RNSOps.cpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/lib/Dialect/RNS/IR/RNSOps.cpp b/lib/Dialect/RNS/IR/RNSOps.cpp
index eb9085c..05407ee 100644
--- a/lib/Dialect/RNS/IR/RNSOps.cpp
+++ b/lib/Dialect/RNS/IR/RNSOps.cpp
@@ -79,8 +79,25 @@ FailureOr<SmallVector<Value>> computeMixedRadixCoeffs(
     Value temp = mod_arith::EncapsulateOp::create(b, limbTy, mrcs[i - 1]);
     temp = mod_arith::ReduceOp::create(b, limbTy, temp);
     if (i > 1) {
-      Value qjConst =
-          mod_arith::ConstantOp::create(b, limbTy, limbTy.getModulus());
+      // q_j as an element of Z_{q_i}, for each earlier limb j
+      SmallVector<Value> qjConsts;
+      for (int j = 0; j < i - 1; ++j) {
+        auto qjTy =
+            dyn_cast<mod_arith::ModArithType>(rnsTy.getBasisTypes()[j]);
+        if (!qjTy) {
+          emitError(b.getLoc())
+              << "expected limb type to be mod_arith attribute, got "
+              << rnsTy.getBasisTypes()[j];
+          return failure();
+        }
+        qjConsts.push_back(
+            mod_arith::ConstantOp::create(b, limbTy, qjTy.getModulus()));
+      }
+      Value qjConstsTensor = tensor::FromElementsOp::create(
+          b,
+          RankedTensorType::get({static_cast<int64_t>(qjConsts.size())},
+                                limbTy),
+          qjConsts);
       RankedTensorType tensorTy =
           RankedTensorType::get({static_cast<int64_t>(mrcs.size())}, intType);
       Value mrcsTensor = tensor::FromElementsOp::create(b, tensorTy, mrcs);
@@ -96,6 +113,8 @@ FailureOr<SmallVector<Value>> computeMixedRadixCoeffs(
             Value j = arith::SubIOp::create(b, upper, index);
 
             // reduce c_j mod q_i
+            Value qjConst =
+                tensor::ExtractOp::create(b, qjConstsTensor, ValueRange{j});
             Value cj = tensor::ExtractOp::create(b, mrcsTensor, ValueRange{j});
             Value reducedCj = mod_arith::EncapsulateOp::create(b, limbTy, cj);
             // cj is a centered representative, meaning it could be negative
-- 
2.43.0


From 5fe7507d4533c4ebf071fe548f664f703d1eebae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:08 +0000
Subject: [PATCH 065/111] fix: mod_switch into RNS lowers when both use the
 same storage width

---
 .../Conversions/ModArithToArith/ModArithToArith.cpp      | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/Dialect/ModArith/Conversions/ModArithToArith/ModArithToArith.cpp b/lib/Dialect/ModArith/Conversions/ModArithToArith/ModArithToArith.cpp
index 074d063..6cf4eb5 100644
--- a/lib/Dialect/ModArith/Conversions/ModArithToArith/ModArithToArith.cpp
+++ b/lib/Dialect/ModArith/Conversions/ModArithToArith/ModArithToArith.cpp
@@ -525,9 +525,12 @@ struct ConvertModSwitch : public OpConversionPattern<ModSwitchOp> {
           auto modulus = modArithType.getModulus().getValue();
           modulus = modulus.zext(modWidth);
           auto cmod = intConst(modulus);
-          auto remu = arith::RemUIOp::create(b, adaptor.getInput(), cmod);
-          auto trunci = arith::TruncIOp::create(b, rnsIntegerType, remu);
-          rnsElements.push_back(trunci);
+          Value residue =
+              arith::RemUIOp::create(b, adaptor.getInput(), cmod);
+          if (rnsWidth < modWidth) {
+            residue = arith::TruncIOp::create(b, rnsIntegerType, residue);
+          }
+          rnsElements.push_back(residue);
         }
         auto tensor =
             tensor::FromElementsOp::create(b, ValueRange(rnsElements));
-- 
2.43.0


From 794777c4d49900eb69ef79aa1c3c24955713d3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:08 +0000
Subject: [PATCH 066/111] fix: the RNS modulus product in the mod_switch
 verifier does not overflow

---
 lib/Dialect/ModArith/IR/ModArithOps.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/Dialect/ModArith/IR/ModArithOps.cpp b/lib/Dialect/ModArith/IR/ModArithOps.cpp
index 2d6d383..6771d53 100644
--- a/lib/Dialect/ModArith/IR/ModArithOps.cpp
+++ b/lib/Dialect/ModArith/IR/ModArithOps.cpp
@@ -154,7 +154,11 @@ LogicalResult verifySingleToMultiModSwitch(OpType op,
     return op.emitOpError() << "The input and output type can't both be RNS";
   }
 
-  APInt product(width, 1);
+  // Wide enough for the product of all the residue moduli
+  unsigned productWidth =
+      std::max(width, rnsWidth * multiTy.getNumResidues() + 1);
+  APInt product(productWidth, 1);
+  bigModulus = bigModulus.zext(productWidth);
   for (unsigned i = 0; i < multiTy.getNumResidues(); ++i) {
     auto residueType = getResidueModArithType(multiTy, i);
     if (!residueType) {
@@ -162,11 +166,11 @@ LogicalResult verifySingleToMultiModSwitch(OpType op,
              << "expected multi-residue modular type to have ModArith residues";
     }
     auto modulus = (*residueType).getModulus().getValue();
-    product *= modulus.zext(width);
+    product *= modulus.zext(productWidth);
   }
 
   if (product != bigModulus) {
-    if (allowInjection && bigModulus.slt(product)) {
+    if (allowInjection && bigModulus.ult(product)) {
       return success();
     }
     return op.emitOpError() << "The product of RNS modulus should equal to the "
-- 
2.43.0


From 8c011864c5ca8c8f981b6abead24fce2316424aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:59 +0000
Subject: [PATCH 067/111] fix: printed dense modular constants parse again

---
 lib/Dialect/ModArith/IR/ModArithOps.cpp | 62 ++++++++++++++++++-------
 1 file changed, 44 insertions(+), 18 deletions(-)

diff --git a/lib/Dialect/ModArith/IR/ModArithOps.cpp b/lib/Dialect/ModArith/IR/ModArithOps.cpp
index 6771d53..37c5aec 100644
--- a/lib/Dialect/ModArith/IR/ModArithOps.cpp
+++ b/lib/Dialect/ModArith/IR/ModArithOps.cpp
@@ -256,20 +256,28 @@ ParseResult ConstantOp::parse(OpAsmParser& parser, OperationState& result) {
     // We parse the integers as a list, rather than an ArrayAttr, so we can
     // more easily convert them to the correct bitwidth (ArrayAttr forces I64)
     std::vector<APInt> parsedInts;
-    if (parser.parseLess() ||
-        parser.parseCommaSeparatedList(
-            mlir::AsmParser::Delimiter::Square,
-            [&] {
-              APInt parsedInt;
-              if (parser.parseInteger(parsedInt))
-                return parser.emitError(
-                           parser.getNameLoc(),
-                           "failed to parse integer in dense list"),
-                       failure();
-              parsedInts.push_back(parsedInt);
-              return success();
-            }) ||
-        parser.parseGreater() || parser.parseColonType(parsedType))
+    APInt splatInt;
+    bool isSplat = false;
+    auto parseElements = [&]() -> ParseResult {
+      OptionalParseResult splat = parser.parseOptionalInteger(splatInt);
+      if (splat.has_value()) {
+        isSplat = true;
+        parsedInts.push_back(splatInt);
+        return *splat;
+      }
+      return parser.parseCommaSeparatedList(
+          mlir::AsmParser::Delimiter::Square, [&] {
+            APInt parsedInt;
+            if (parser.parseInteger(parsedInt))
+              return parser.emitError(parser.getNameLoc(),
+                                      "failed to parse integer in dense list"),
+                     failure();
+            parsedInts.push_back(parsedInt);
+            return success();
+          });
+    };
+    if (parser.parseLess() || parseElements() || parser.parseGreater() ||
+        parser.parseColonType(parsedType))
       return parser.emitError(parser.getNameLoc(),
                               "failed to parse dense constant"),
              failure();
@@ -287,10 +295,18 @@ ParseResult ConstantOp::parse(OpAsmParser& parser, OperationState& result) {
     for (auto& parsedInt : parsedInts) {
       if (failed(normalizeInteger(parsedInt, storageWidth))) return failure();
     }
+    // A splat takes the shape of the result, a list is one-dimensional.
+    SmallVector<int64_t> shape = {static_cast<int64_t>(parsedInts.size())};
+    if (isSplat) {
+      auto shapedType = dyn_cast<ShapedType>(parsedType);
+      if (!shapedType || !shapedType.hasStaticShape())
+        return parser.emitError(parser.getNameLoc(),
+                                "expected a static shape for a dense splat"),
+               failure();
+      shape.assign(shapedType.getShape().begin(), shapedType.getShape().end());
+    }
     auto attr = DenseIntElementsAttr::get(
-        RankedTensorType::get({static_cast<int64_t>(parsedInts.size())},
-                              storageType),
-        parsedInts);
+        RankedTensorType::get(shape, storageType), parsedInts);
     result.addAttribute("value", attr);
   } else {
     // Scalar case
@@ -356,7 +372,17 @@ LogicalResult ConstantOp::verify() {
 
 void ConstantOp::print(OpAsmPrinter& p) {
   p << " ";
-  p.printAttributeWithoutType(getValue());
+  auto denseAttr = dyn_cast<DenseIntElementsAttr>(getValue());
+  if (denseAttr && !denseAttr.isSplat() && denseAttr.getType().getRank() == 1) {
+    // Print the list in full: the generic printer turns long lists into a hex
+    // string, which is not part of this op's syntax.
+    p << "dense<[";
+    llvm::interleaveComma(denseAttr.getValues<APInt>(), p,
+                          [&](const APInt& v) { v.print(p.getStream(), true); });
+    p << "]>";
+  } else {
+    p.printAttributeWithoutType(getValue());
+  }
   p << " : ";
   p.printType(getOutput().getType());
 }
-- 
2.43.0


From 00aeafc91d4caa299e0b6dda8c76bc1b9eb56fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:29 +0000
Subject: [PATCH 068/111] fix: canonicalizing constant dense modular arithmetic
 terminates

---
 .../ModArith/IR/ModArithCanonicalization.td   | 44 ++++++++++++++-----
 1 file changed, 34 insertions(+), 10 deletions(-)

diff --git a/lib/Dialect/ModArith/IR/ModArithCanonicalization.td b/lib/Dialect/ModArith/IR/ModArithCanonicalization.td
index a361da9..8a8cb9c 100644
--- a/lib/Dialect/ModArith/IR/ModArithCanonicalization.td
+++ b/lib/Dialect/ModArith/IR/ModArithCanonicalization.td
@@ -11,6 +11,10 @@ def Equal : Constraint<CPred<"$0 == $1">>;
 def IsZero : Constraint<CPred<"isa<IntegerAttr>($0) && cast<IntegerAttr>($0).getValue().isZero()">>;
 def IsOne : Constraint<CPred<"isa<IntegerAttr>($0) && cast<IntegerAttr>($0).getValue() == APInt(cast<IntegerAttr>($0).getValue().getBitWidth(), 1, true)">>;
 
+// Dense constants do not fold (yet), and moving constants around in an
+// expression made only of constants would never end.
+def IsNotConstant : Constraint<CPred<"!$0.getDefiningOp<ConstantOp>()">>;
+
 def IsMinusOne : Constraint<CPred<"isa<IntegerAttr>($1) && cast<IntegerAttr>($1).getValue().zextOrTrunc(cast<ModArithType>($0.getType()).getModulus().getValue().getBitWidth()) == cast<ModArithType>($0.getType()).getModulus().getValue() - APInt(cast<ModArithType>($0.getType()).getModulus().getValue().getBitWidth(), 1)">>;
 
 def CreateZeroConstant : NativeCodeCall<
@@ -65,7 +69,9 @@ def AddAddConstant : Pat<
     (ModArith_AddOp
       $c0,
       $c1)),
-  []
+  [
+    (IsNotConstant $x),
+  ]
 >;
 
 // add (sub (x, c0), c1) -> add (x, c1 - c0)
@@ -80,7 +86,9 @@ def AddSubConstantRHS : Pat<
     (ModArith_SubOp
       $c1,
       $c0)),
-  []
+  [
+    (IsNotConstant $x),
+  ]
 >;
 
 // add(sub(c0, x), c1) -> sub(c0 + c1, x)
@@ -95,7 +103,9 @@ def AddSubConstantLHS : Pat<
       $c0,
       $c1),
     $x),
-  []
+  [
+    (IsNotConstant $x),
+  ]
 >;
 
 // add(x, mul(y, (modulus - 1))) -> sub(x, y)
@@ -172,7 +182,9 @@ def MulMulConstant : Pat<
     (ModArith_MulOp
       $c0,
       $c1)),
-  []
+  [
+    (IsNotConstant $x),
+  ]
 >;
 
 // sub(add(x, c0), c1) -> add(x, c0 - c1)
@@ -187,7 +199,9 @@ def SubRHSAddConstant : Pat<
     (ModArith_SubOp
       $c0,
       $c1)),
-  []
+  [
+    (IsNotConstant $x),
+  ]
 >;
 
 // sub(c1, add(x, c0)) -> sub(c1 - c0, x)
@@ -202,7 +216,9 @@ def SubLHSAddConstant : Pat<
       $c1,
       $c0),
     $x),
-  []
+  [
+    (IsNotConstant $x),
+  ]
 >;
 
 // sub(sub(x, c0), c1) -> sub(x, c0 + c1)
@@ -217,7 +233,9 @@ def SubRHSSubConstantRHS : Pat<
     (ModArith_AddOp
       $c0,
       $c1)),
-  []
+  [
+    (IsNotConstant $x),
+  ]
 >;
 
 // sub(sub(c0, x), c1) -> sub(c0 - c1, x)
@@ -232,7 +250,9 @@ def SubRHSSubConstantLHS : Pat<
       $c0,
       $c1),
     $x),
-  []
+  [
+    (IsNotConstant $x),
+  ]
 >;
 
 // sub(c1, sub(x, c0)) -> sub(c0 + c1, x)
@@ -247,7 +267,9 @@ def SubLHSSubConstantRHS : Pat<
       $c0,
       $c1),
     $x),
-  []
+  [
+    (IsNotConstant $x),
+  ]
 >;
 
 // sub(c1, sub(c0, x)) -> add(x, c1 - c0)
@@ -262,7 +284,9 @@ def SubLHSSubConstantLHS : Pat<
     (ModArith_SubOp
       $c1,
       $c0)),
-  []
+  [
+    (IsNotConstant $x),
+  ]
 >;
 
 // sub(sub(a, b), a) -> sub(0, b)
-- 
2.43.0


From 0de1121500438e88c5fcd4c0743c47879edb3b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:05 +0000
Subject: [PATCH 069/111] fix: sub(sub(a, b), a) of tensors is not rewritten
 with a scalar zero

---
 lib/Dialect/ModArith/IR/ModArithCanonicalization.td | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/Dialect/ModArith/IR/ModArithCanonicalization.td b/lib/Dialect/ModArith/IR/ModArithCanonicalization.td
index 8a8cb9c..3dc0ad8 100644
--- a/lib/Dialect/ModArith/IR/ModArithCanonicalization.td
+++ b/lib/Dialect/ModArith/IR/ModArithCanonicalization.td
@@ -17,6 +17,8 @@ def IsNotConstant : Constraint<CPred<"!$0.getDefiningOp<ConstantOp>()">>;
 
 def IsMinusOne : Constraint<CPred<"isa<IntegerAttr>($1) && cast<IntegerAttr>($1).getValue().zextOrTrunc(cast<ModArithType>($0.getType()).getModulus().getValue().getBitWidth()) == cast<ModArithType>($0.getType()).getModulus().getValue() - APInt(cast<ModArithType>($0.getType()).getModulus().getValue().getBitWidth(), 1)">>;
 
+def IsScalarModArith : Constraint<CPred<"isa<ModArithType>($0.getType())">>;
+
 def CreateZeroConstant : NativeCodeCall<
    "ConstantOp::create($_builder, $0.getLoc(), dyn_cast<ModArithType>($0.getType()), IntegerAttr::get(dyn_cast<ModArithType>($0.getType()).getModulus().getType(), 0));">
   ;
@@ -299,7 +301,9 @@ def SubSubLHSRHSLHS : Pat<
   (ModArith_SubOp
     (CreateZeroConstant $a),
     $b),
-  []
+  [
+    (IsScalarModArith $a),
+  ]
 >;
 
 #endif  // LIB_DIALECT_MODARITH_IR_MODARITHCANONICALIZATION_TD_
-- 
2.43.0


From bb2fa7dfc521e94bbff5b5ad72d6755f9f1ad872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:03 +0000
Subject: [PATCH 070/111] fix: barrett_reduce lowers when three times the
 modulus width exceeds its attribute's

---
 .../ModArith/Conversions/ModArithToArith/ModArithToArith.cpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Dialect/ModArith/Conversions/ModArithToArith/ModArithToArith.cpp b/lib/Dialect/ModArith/Conversions/ModArithToArith/ModArithToArith.cpp
index 6cf4eb5..3562781 100644
--- a/lib/Dialect/ModArith/Conversions/ModArithToArith/ModArithToArith.cpp
+++ b/lib/Dialect/ModArith/Conversions/ModArithToArith/ModArithToArith.cpp
@@ -608,7 +608,7 @@ struct ConvertBarrettReduce : public OpConversionPattern<BarrettReduceOp> {
     auto input = adaptor.getInput();
     auto mod = op.getModulus();
     auto bitWidth = (mod - 1).getActiveBits();
-    mod = mod.trunc(3 * bitWidth);
+    mod = mod.zextOrTrunc(3 * bitWidth);
     auto B = APInt(3 * bitWidth, 1).shl(2 * bitWidth);
     auto barrettRatio = B.udiv(mod);
 
-- 
2.43.0


From 9c1154d47716056c33217eff6c4028a6003d704c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:03 +0000
Subject: [PATCH 071/111] fix: barrett_reduce refuses the modulus zero

---
 lib/Dialect/ModArith/IR/ModArithOps.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Dialect/ModArith/IR/ModArithOps.cpp b/lib/Dialect/ModArith/IR/ModArithOps.cpp
index 37c5aec..cf953dc 100644
--- a/lib/Dialect/ModArith/IR/ModArithOps.cpp
+++ b/lib/Dialect/ModArith/IR/ModArithOps.cpp
@@ -226,7 +226,7 @@ LogicalResult BarrettReduceOp::verify() {
                             "Got "
                          << bitWidth << " but w is " << expectedBitWidth << ".";
   }
-  if (getModulus().slt(0))
+  if (!getModulus().isStrictlyPositive())
     return emitOpError() << "provided modulus " << getModulus().getSExtValue()
                          << " is not a positive integer.";
   return success();
-- 
2.43.0


From 8085239f7795a0419499b3de869567b2bd2d7a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:04 +0000
Subject: [PATCH 072/111] fix: a negative modular value attribute keeps its
 value when parsed

---
 lib/Dialect/ModArith/IR/ModArithAttributes.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Dialect/ModArith/IR/ModArithAttributes.cpp b/lib/Dialect/ModArith/IR/ModArithAttributes.cpp
index d8c3d66..04366cb 100644
--- a/lib/Dialect/ModArith/IR/ModArithAttributes.cpp
+++ b/lib/Dialect/ModArith/IR/ModArithAttributes.cpp
@@ -29,7 +29,7 @@ mlir::Attribute ModArithAttr::parse(mlir::AsmParser& parser, mlir::Type type) {
 
   mlir::Type integerType = modType.getModulus().getType();
   unsigned targetBitWidth = integerType.getIntOrFloatBitWidth();
-  value = value.zextOrTrunc(targetBitWidth);
+  value = value.sextOrTrunc(targetBitWidth);
 
   // 4. Construct the IntegerAttr using the element type of the ModArithType
   // This ensures the bitwidth of the value matches the modulus storage
-- 
2.43.0


From d4b408e218647930cd457aa517253f0d55cfadbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:04 +0000
Subject: [PATCH 073/111] fix: an RNS type of a single limb checks its basis
 type

---
 lib/Dialect/RNS/IR/RNSTypes.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/Dialect/RNS/IR/RNSTypes.cpp b/lib/Dialect/RNS/IR/RNSTypes.cpp
index 3cdafe5..d4b8878 100644
--- a/lib/Dialect/RNS/IR/RNSTypes.cpp
+++ b/lib/Dialect/RNS/IR/RNSTypes.cpp
@@ -37,11 +37,11 @@ LogicalResult RNSType::verify(
 
   size_t numTypes = basisTypes.size();
   for (auto i = 0; i != numTypes; ++i) {
+    auto resI = getInterface(basisTypes[i]);
+    if (failed(resI)) {
+      return resI;
+    }
     for (auto j = i + 1; j != numTypes; ++j) {
-      auto resI = getInterface(basisTypes[i]);
-      if (failed(resI)) {
-        return resI;
-      }
       auto resJ = getInterface(basisTypes[j]);
       if (failed(resJ)) {
         return resJ;
-- 
2.43.0


From 2b9db938775f796188c4bc27b1c947a699a71729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:04 +0000
Subject: [PATCH 074/111] fix: a slice out of the bounds of its RNS type is
 refused

---
 lib/Dialect/RNS/IR/RNSOps.cpp | 9 +++++++++
 lib/Dialect/RNS/IR/RNSOps.h   | 6 +++---
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/lib/Dialect/RNS/IR/RNSOps.cpp b/lib/Dialect/RNS/IR/RNSOps.cpp
index 05407ee..207dee9 100644
--- a/lib/Dialect/RNS/IR/RNSOps.cpp
+++ b/lib/Dialect/RNS/IR/RNSOps.cpp
@@ -203,6 +203,15 @@ LogicalResult ExtractSliceOp::inferReturnTypes(
   RNSType elementType =
       dyn_cast<RNSType>(getElementTypeOrSelf(op.getInput().getType()));
   if (!elementType) return failure();
+  uint64_t numLimbs = elementType.getBasisTypes().size();
+  uint64_t start = op.getStart().getZExtValue();
+  uint64_t size = op.getSize().getZExtValue();
+  if (start > numLimbs || size > numLimbs - start) {
+    return emitOptionalError(loc, "'rns.extract_slice' of size ", size,
+                             " starting at ", start,
+                             " is out of bounds for an RNS type with ",
+                             numLimbs, " limbs");
+  }
   RNSType truncatedType =
       inferExtractSliceReturnTypes(context, &op, elementType);
   Type resultType = truncatedType;
diff --git a/lib/Dialect/RNS/IR/RNSOps.h b/lib/Dialect/RNS/IR/RNSOps.h
index 1abebbb..e4e0b74 100644
--- a/lib/Dialect/RNS/IR/RNSOps.h
+++ b/lib/Dialect/RNS/IR/RNSOps.h
@@ -27,8 +27,8 @@ namespace heir {
 namespace rns {
 
 template <typename Op>
-LogicalResult verifyExtractSliceOp(Op* op, RNSType rnsType, int start,
-                                   int size) {
+LogicalResult verifyExtractSliceOp(Op* op, RNSType rnsType, int64_t start,
+                                   int64_t size) {
   int64_t numLimbs = rnsType.getBasisTypes().size();
 
   if (start < 0) {
@@ -40,7 +40,7 @@ LogicalResult verifyExtractSliceOp(Op* op, RNSType rnsType, int start,
     return op->emitOpError() << "size " << size << " cannot be negative";
   }
 
-  if (start + size > numLimbs) {
+  if (start > numLimbs || size > numLimbs - start) {
     return op->emitOpError()
            << "slice of size " << size << " starting at " << start
            << " is out of bounds for RNS type with " << numLimbs << " limbs";
-- 
2.43.0


From 32df52506ede148394b45defcaf7fbc21a09a1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:04 +0000
Subject: [PATCH 075/111] fix: limbs that form no RNS basis are refused

---
 lib/Dialect/RNS/IR/RNSAttributes.cpp | 5 ++++-
 lib/Dialect/RNS/IR/RNSOps.cpp        | 6 +++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/Dialect/RNS/IR/RNSAttributes.cpp b/lib/Dialect/RNS/IR/RNSAttributes.cpp
index 28c8996..9d84699 100644
--- a/lib/Dialect/RNS/IR/RNSAttributes.cpp
+++ b/lib/Dialect/RNS/IR/RNSAttributes.cpp
@@ -50,7 +50,10 @@ Attribute RNSAttr::parse(AsmParser& parser, Type type) {
   // The rns type can be inferred from the types of the attribute values
   SmallVector<Type> basisTypes =
       map_to_vector(attrs, [](TypedAttr attr) { return attr.getType(); });
-  RNSType rnsType = RNSType::get(parser.getContext(), basisTypes);
+  RNSType rnsType = RNSType::getChecked(
+      [&]() { return parser.emitError(parser.getNameLoc()); },
+      parser.getContext(), ArrayRef<Type>(basisTypes));
+  if (!rnsType) return {};
   SmallVector<Attribute> attrValues = map_to_vector(
       attrs, [](TypedAttr attr) { return cast<Attribute>(attr); });
 
diff --git a/lib/Dialect/RNS/IR/RNSOps.cpp b/lib/Dialect/RNS/IR/RNSOps.cpp
index 207dee9..f579a53 100644
--- a/lib/Dialect/RNS/IR/RNSOps.cpp
+++ b/lib/Dialect/RNS/IR/RNSOps.cpp
@@ -307,7 +307,11 @@ LogicalResult PackOp::inferReturnTypes(
     }
     basisTypes.push_back(maTy);
   }
-  results.push_back(rns::RNSType::get(context, basisTypes));
+  auto rnsType = rns::RNSType::getChecked(
+      [&]() { return mlir::emitError(loc.value_or(UnknownLoc::get(context))); },
+      context, ArrayRef<Type>(basisTypes));
+  if (!rnsType) return failure();
+  results.push_back(rnsType);
   return success();
 }
 
-- 
2.43.0


From 188068d874152255b0d2c06ed4f249919a94d604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:10 +0000
Subject: [PATCH 076/111] fix: convert-secret-for-to-static-for makes no
 affine.for with invalid bounds

---
 .../ConvertSecretForToStaticFor.cpp           | 30 +++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/lib/Transforms/ConvertSecretForToStaticFor/ConvertSecretForToStaticFor.cpp b/lib/Transforms/ConvertSecretForToStaticFor/ConvertSecretForToStaticFor.cpp
index e9483ea..fbe4549 100644
--- a/lib/Transforms/ConvertSecretForToStaticFor/ConvertSecretForToStaticFor.cpp
+++ b/lib/Transforms/ConvertSecretForToStaticFor/ConvertSecretForToStaticFor.cpp
@@ -60,6 +60,27 @@ struct SecretForToStaticForConversion : OpRewritePattern<scf::ForOp> {
                        "since the step is not constant and "
                        "affine.for only supports strictly static step size");
 
+    // A bound that is not secret may be dynamic, but affine.for requires it to be
+    // a valid symbol or dimension (a bound that is not an index gets a cast right
+    // before the loop, which is a valid symbol at the top level only)
+    Region* scope = affine::getAffineScope(forOp);
+    auto canBeAffineBound = [&](Value bound) {
+      if (!isa<IndexType>(bound.getType()))
+        return forOp->getParentRegion() == scope;
+      return affine::isValidSymbol(bound, scope) ||
+             affine::isValidDim(bound, scope);
+    };
+    if ((!isLowerBoundSecret && !canBeAffineBound(lowerBound)) ||
+        (!isUpperBoundSecret && !canBeAffineBound(upperBound))) {
+      if (isLowerBoundSecret || isUpperBoundSecret)
+        return emitError(forOp.getLoc(),
+                         "Cannot convert secret scf.for to static affine.for "
+                         "since its non-secret bound is neither a valid affine "
+                         "symbol nor a valid affine dimension");
+      return rewriter.notifyMatchFailure(
+          forOp, "a bound is not a valid affine symbol or dimension");
+    }
+
     // There are a few cases to handle:
     // If a bound is determined to be secret, we need to replace it
     // with the annotated static bound, which we wrap in a constant op
@@ -113,9 +134,14 @@ struct SecretForToStaticForConversion : OpRewritePattern<scf::ForOp> {
       }
     }
 
+    auto boundMap = [&](Value bound) {
+      return affine::isValidSymbol(bound, scope)
+                 ? builder.getSymbolIdentityMap()
+                 : builder.getDimIdentityMap();
+    };
     auto newForOp = affine::AffineForOp::create(
-        builder, ValueRange(newLowerBound), builder.getSymbolIdentityMap(),
-        ValueRange(newUpperBound), builder.getSymbolIdentityMap(),
+        builder, ValueRange(newLowerBound), boundMap(newLowerBound),
+        ValueRange(newUpperBound), boundMap(newUpperBound),
         forOp.getConstantStep()->getLimitedValue(), forOp.getInitArgs());
 
     newForOp->setAttrs(forOp->getAttrs());
-- 
2.43.0


From 84d7c6234b44ec9f86e5dbba9b23fd0cd7d46547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:10 +0000
Subject: [PATCH 077/111] fix: convert-secret-for-to-static-for keeps the type
 of the induction variable

---
 .../ConvertSecretForToStaticFor.cpp                    | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/Transforms/ConvertSecretForToStaticFor/ConvertSecretForToStaticFor.cpp b/lib/Transforms/ConvertSecretForToStaticFor/ConvertSecretForToStaticFor.cpp
index fbe4549..bb73066 100644
--- a/lib/Transforms/ConvertSecretForToStaticFor/ConvertSecretForToStaticFor.cpp
+++ b/lib/Transforms/ConvertSecretForToStaticFor/ConvertSecretForToStaticFor.cpp
@@ -150,6 +150,14 @@ struct SecretForToStaticForConversion : OpRewritePattern<scf::ForOp> {
 
     builder.setInsertionPointToStart(newForOp.getBody());
 
+    // The body may use an induction variable of a signless integer type
+    Value bodyInductionVariable = inductionVariable;
+    Type oldInductionType = forOp.getInductionVar().getType();
+    if (!isa<IndexType>(oldInductionType)) {
+      bodyInductionVariable = arith::IndexCastOp::create(
+          builder, oldInductionType, inductionVariable);
+    }
+
     if (!isLowerBoundSecret && !isUpperBoundSecret) {
       // If neither bound is secret,
       // we can directly copy the body
@@ -158,6 +166,7 @@ struct SecretForToStaticForConversion : OpRewritePattern<scf::ForOp> {
         mp.map(blockArg,
                newForOp.getBody()->getArguments()[blockArg.getArgNumber()]);
       }
+      mp.map(forOp.getInductionVar(), bodyInductionVariable);
       for (auto& op : forOp.getBody()->getOperations()) {
         // Convert scf.yield to affine.yield
         if (auto yieldOp = dyn_cast<scf::YieldOp>(&op)) {
@@ -212,6 +221,7 @@ struct SecretForToStaticForConversion : OpRewritePattern<scf::ForOp> {
             mp.map(blockArg,
                    newForOp.getBody()->getArguments()[blockArg.getArgNumber()]);
           }
+          mp.map(forOp.getInductionVar(), bodyInductionVariable);
           for (auto& op : forOp.getBody()->getOperations()) {
             b.clone(op, mp);
           }
-- 
2.43.0


From 10861fcef8d5ff0b5fb73dd17bb24f68b1553f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:52 +0000
Subject: [PATCH 078/111] fix: convert-secret-for-to-static-for keeps the
 iterations of a loop with a step and a secret lower bound

---
 .../ConvertSecretForToStaticFor.cpp           | 25 ++++++++++++++++---
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/lib/Transforms/ConvertSecretForToStaticFor/ConvertSecretForToStaticFor.cpp b/lib/Transforms/ConvertSecretForToStaticFor/ConvertSecretForToStaticFor.cpp
index bb73066..0fecf6b 100644
--- a/lib/Transforms/ConvertSecretForToStaticFor/ConvertSecretForToStaticFor.cpp
+++ b/lib/Transforms/ConvertSecretForToStaticFor/ConvertSecretForToStaticFor.cpp
@@ -134,6 +134,12 @@ struct SecretForToStaticForConversion : OpRewritePattern<scf::ForOp> {
       }
     }
 
+    // Counted from the static lower bound, the iterations of a loop with a step
+    // miss those counted from the secret one: visit every index instead, and
+    // select those the step leads to
+    int64_t step = forOp.getConstantStep()->getLimitedValue();
+    int64_t staticStep = isLowerBoundSecret ? 1 : step;
+
     auto boundMap = [&](Value bound) {
       return affine::isValidSymbol(bound, scope)
                  ? builder.getSymbolIdentityMap()
@@ -142,7 +148,7 @@ struct SecretForToStaticForConversion : OpRewritePattern<scf::ForOp> {
     auto newForOp = affine::AffineForOp::create(
         builder, ValueRange(newLowerBound), boundMap(newLowerBound),
         ValueRange(newUpperBound), boundMap(newUpperBound),
-        forOp.getConstantStep()->getLimitedValue(), forOp.getInitArgs());
+        staticStep, forOp.getInitArgs());
 
     newForOp->setAttrs(forOp->getAttrs());
 
@@ -208,9 +214,20 @@ struct SecretForToStaticForConversion : OpRewritePattern<scf::ForOp> {
     }
 
     // Create scf.if to conditionally execute the body of scf.for
-    auto cond = isLowerBoundSecret ? isUpperBoundSecret ? andI.getResult()
-                                                        : cmpILower.getResult()
-                                   : cmpIUpper.getResult();
+    Value cond = isLowerBoundSecret ? isUpperBoundSecret ? andI.getResult()
+                                                         : cmpILower.getResult()
+                                    : cmpIUpper.getResult();
+    if (staticStep != step) {
+      // Create arith.cmpi ((iv - oldLowerBound) % step == 0)
+      auto distance =
+          arith::SubIOp::create(builder, inductionVariable, lowerBound);
+      auto stepValue = arith::ConstantIndexOp::create(builder, step);
+      auto remainder = arith::RemSIOp::create(builder, distance, stepValue);
+      auto zero = arith::ConstantIndexOp::create(builder, 0);
+      auto onStep = arith::CmpIOp::create(builder, arith::CmpIPredicate::eq,
+                                          remainder, zero);
+      cond = arith::AndIOp::create(builder, cond, onStep);
+    }
     scf::IfOp ifOp = scf::IfOp::create(
         builder, cond,
         // 'Then' region
-- 
2.43.0


From f830dc58c64a124227fbac38dd8c4098ff49ddbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:52 +0000
Subject: [PATCH 079/111] fix: convert-secret-for-to-static-for knows the
 secretness of nested loops

---
 .../ConvertSecretForToStaticFor.cpp           | 22 ++++++++++++++-----
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/lib/Transforms/ConvertSecretForToStaticFor/ConvertSecretForToStaticFor.cpp b/lib/Transforms/ConvertSecretForToStaticFor/ConvertSecretForToStaticFor.cpp
index 0fecf6b..d15bd17 100644
--- a/lib/Transforms/ConvertSecretForToStaticFor/ConvertSecretForToStaticFor.cpp
+++ b/lib/Transforms/ConvertSecretForToStaticFor/ConvertSecretForToStaticFor.cpp
@@ -31,9 +31,10 @@ struct SecretForToStaticForConversion : OpRewritePattern<scf::ForOp> {
   using OpRewritePattern<scf::ForOp>::OpRewritePattern;
 
  public:
-  SecretForToStaticForConversion(DataFlowSolver* solver, MLIRContext* context,
-                                 bool convertAllScfFor)
+  SecretForToStaticForConversion(Operation* top, DataFlowSolver* solver,
+                                 MLIRContext* context, bool convertAllScfFor)
       : OpRewritePattern(context),
+        top(top),
         solver(solver),
         convertAllScfFor(convertAllScfFor) {}
 
@@ -188,7 +189,7 @@ struct SecretForToStaticForConversion : OpRewritePattern<scf::ForOp> {
       }
       // Replace scf.for with affine.for
       rewriter.replaceOp(forOp, newForOp);
-      return success();
+      return rerunAnalysis();
     }
 
     // Handle secret bounds with conditional logic
@@ -254,10 +255,19 @@ struct SecretForToStaticForConversion : OpRewritePattern<scf::ForOp> {
     // Replace scf.for with affine.for
     rewriter.replaceOp(forOp, newForOp);
 
-    return success();
+    return rerunAnalysis();
   }
 
  private:
+  // The copied body is new to the analysis: without its secretness, a nested
+  // loop with secret bounds would look like one with public bounds
+  LogicalResult rerunAnalysis() const {
+    solver->eraseAllStates();
+    return solver->initializeAndRun(top);
+  }
+
+  // root operation the pass is on, should never be altered hence never null
+  Operation* top;
   DataFlowSolver* solver;
   bool convertAllScfFor;
 };
@@ -283,8 +293,8 @@ struct ConvertSecretForToStaticFor
       return;
     }
 
-    patterns.add<SecretForToStaticForConversion>(&solver, context,
-                                                 this->convertAllScfFor);
+    patterns.add<SecretForToStaticForConversion>(
+        getOperation(), &solver, context, this->convertAllScfFor);
     (void)applyPatternsGreedily(getOperation(), std::move(patterns));
   }
 };
-- 
2.43.0


From 4992680f0bb21be48b8e9c2311c493d5af395359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:52 +0000
Subject: [PATCH 080/111] fix: convert-secret-extract-to-static-extract reads
 no stale analysis state

---
 .../ConvertSecretExtractToStaticExtract.cpp                      | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/Transforms/ConvertSecretExtractToStaticExtract/ConvertSecretExtractToStaticExtract.cpp b/lib/Transforms/ConvertSecretExtractToStaticExtract/ConvertSecretExtractToStaticExtract.cpp
index 30edd66..d2a3071 100644
--- a/lib/Transforms/ConvertSecretExtractToStaticExtract/ConvertSecretExtractToStaticExtract.cpp
+++ b/lib/Transforms/ConvertSecretExtractToStaticExtract/ConvertSecretExtractToStaticExtract.cpp
@@ -141,6 +141,7 @@ struct SecretExtractToStaticExtractConversion
 
     // re-run the analysis propagate secretness across
     // newly created Values
+    solver->eraseAllStates();
     return solver->initializeAndRun(top);
   }
 
-- 
2.43.0


From d7ad55b186b53f6c564196337f4b129f3d1a3b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:52 +0000
Subject: [PATCH 081/111] fix: convert-secret-insert-to-static-insert reads no
 stale analysis state

---
 .../ConvertSecretInsertToStaticInsert.cpp                       | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/Transforms/ConvertSecretInsertToStaticInsert/ConvertSecretInsertToStaticInsert.cpp b/lib/Transforms/ConvertSecretInsertToStaticInsert/ConvertSecretInsertToStaticInsert.cpp
index 8ede6ee..59b2ffd 100644
--- a/lib/Transforms/ConvertSecretInsertToStaticInsert/ConvertSecretInsertToStaticInsert.cpp
+++ b/lib/Transforms/ConvertSecretInsertToStaticInsert/ConvertSecretInsertToStaticInsert.cpp
@@ -126,6 +126,8 @@ struct SecretInsertToStaticInsertConversion
     // Replace the old tensor.insert op with forOp's result
     rewriter.replaceOp(insertOp, forOp);
 
+    // the states of erased operations must not become those of new ones
+    solver->eraseAllStates();
     return solver->initializeAndRun(top);
   }
 
-- 
2.43.0


From 01ed22e086bf52eed38c4025fed26dd6e517df8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:52 +0000
Subject: [PATCH 082/111] fix: convert-if-to-select reads no stale analysis
 state

---
 lib/Transforms/ConvertIfToSelect/ConvertIfToSelect.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/Transforms/ConvertIfToSelect/ConvertIfToSelect.cpp b/lib/Transforms/ConvertIfToSelect/ConvertIfToSelect.cpp
index 2c77fea..70f04b9 100644
--- a/lib/Transforms/ConvertIfToSelect/ConvertIfToSelect.cpp
+++ b/lib/Transforms/ConvertIfToSelect/ConvertIfToSelect.cpp
@@ -93,6 +93,8 @@ struct IfToSelectConversion : OpRewritePattern<scf::IfOp> {
 
     // re-run the analysis propagate secretness across
     // newly created Values
+    // (the states of erased operations must not become those of new ones)
+    solver->eraseAllStates();
     return solver->initializeAndRun(top);
   }
 
-- 
2.43.0


From 42e653a2c57b2988927aff2649f090a374467f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:13 +0000
Subject: [PATCH 083/111] fix: convert-secret-while-to-static-for leaves loops
 that permute, replace or drop their variables alone

---
 .../ConvertSecretWhileToStaticFor.cpp         | 25 ++++++-------------
 1 file changed, 7 insertions(+), 18 deletions(-)

diff --git a/lib/Transforms/ConvertSecretWhileToStaticFor/ConvertSecretWhileToStaticFor.cpp b/lib/Transforms/ConvertSecretWhileToStaticFor/ConvertSecretWhileToStaticFor.cpp
index 4d22b79..1e80d20 100644
--- a/lib/Transforms/ConvertSecretWhileToStaticFor/ConvertSecretWhileToStaticFor.cpp
+++ b/lib/Transforms/ConvertSecretWhileToStaticFor/ConvertSecretWhileToStaticFor.cpp
@@ -39,28 +39,17 @@ struct SecretWhileToStaticForConversion : OpRewritePattern<scf::WhileOp> {
     auto conditionOp = whileOp.getConditionOp();
     auto whileCondition = conditionOp->getOperand(0);
 
-    auto* beforeRegionArgs = whileOp.getBefore().front().getArguments().data();
-
     auto conditionOpArgs =
         // Get Loop variables: includes all arguments without the condition
         conditionOp->getOperands().drop_front(1);
 
-    int counter = 0;
-    for (auto arg : conditionOpArgs) {
-      // Check if the defining operation of the loop variable passed in
-      // scf.condition is the same as the operation defining the block argument
-      // passed by scf.while. A true value implies that the loop variable is the
-      // same as the block argument, i.e., the original block argument passed by
-      // scf.while has not been changed.
-      bool isEqual =
-          arg.getDefiningOp() == beforeRegionArgs[counter].getDefiningOp();
-      if (!isEqual) {
-        InFlightDiagnostic diag =
-            whileOp.emitWarning()
-            << "Current loop transformation has no support for do-while loops:";
-        return failure();
-      }
-      counter++;
+    // The loop variables passed on by scf.condition have to be the block
+    // arguments passed by scf.while, unchanged and in the same order.
+    if (!llvm::equal(conditionOpArgs, whileOp.getBeforeArguments())) {
+      InFlightDiagnostic diag =
+          whileOp.emitWarning()
+          << "Current loop transformation has no support for do-while loops:";
+      return failure();
     }
 
     auto* conditionSecretnessLattice =
-- 
2.43.0


From 106671099a4fd8914572aae25f7e2bf80eb4ab7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:13 +0000
Subject: [PATCH 084/111] fix: convert-secret-while-to-static-for accepts a
 condition defined outside of the loop

---
 .../ConvertSecretWhileToStaticFor.cpp                           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Transforms/ConvertSecretWhileToStaticFor/ConvertSecretWhileToStaticFor.cpp b/lib/Transforms/ConvertSecretWhileToStaticFor/ConvertSecretWhileToStaticFor.cpp
index 1e80d20..42501e8 100644
--- a/lib/Transforms/ConvertSecretWhileToStaticFor/ConvertSecretWhileToStaticFor.cpp
+++ b/lib/Transforms/ConvertSecretWhileToStaticFor/ConvertSecretWhileToStaticFor.cpp
@@ -106,7 +106,7 @@ struct SecretWhileToStaticForConversion : OpRewritePattern<scf::WhileOp> {
     for (auto& op : whileOp.getBefore().getOps()) {
       if (auto conditionOp = dyn_cast<scf::ConditionOp>(op)) {
         // Get condition used in scf.condition op
-        condition = mp.lookup(conditionOp.getOperand(0));
+        condition = mp.lookupOrDefault(conditionOp.getOperand(0));
       } else {
         // Copy op in "before" region to the forOp's body
         builder.clone(op, mp);
-- 
2.43.0


From 8b7d3a93fbdfb0f9c039188f0059ad870427e1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:13 +0000
Subject: [PATCH 085/111] fix: convert-secret-while-to-static-for knows the
 secretness of nested loops

---
 .../ConvertSecretWhileToStaticFor.cpp             | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/lib/Transforms/ConvertSecretWhileToStaticFor/ConvertSecretWhileToStaticFor.cpp b/lib/Transforms/ConvertSecretWhileToStaticFor/ConvertSecretWhileToStaticFor.cpp
index 42501e8..6050c98 100644
--- a/lib/Transforms/ConvertSecretWhileToStaticFor/ConvertSecretWhileToStaticFor.cpp
+++ b/lib/Transforms/ConvertSecretWhileToStaticFor/ConvertSecretWhileToStaticFor.cpp
@@ -30,8 +30,9 @@ struct SecretWhileToStaticForConversion : OpRewritePattern<scf::WhileOp> {
   using OpRewritePattern<scf::WhileOp>::OpRewritePattern;
 
  public:
-  SecretWhileToStaticForConversion(DataFlowSolver* solver, MLIRContext* context)
-      : OpRewritePattern(context), solver(solver) {}
+  SecretWhileToStaticForConversion(Operation* top, DataFlowSolver* solver,
+                                   MLIRContext* context)
+      : OpRewritePattern(context), top(top), solver(solver) {}
 
   // TODO(#846): Add support for do-while loops
   LogicalResult matchAndRewrite(scf::WhileOp whileOp,
@@ -135,10 +136,15 @@ struct SecretWhileToStaticForConversion : OpRewritePattern<scf::WhileOp> {
     // Replace scf.while with affine.for
     rewriter.replaceOp(whileOp, newForOp);
 
-    return success();
+    // re-run the analysis: the copied operations, which may include further
+    // loops, are new to it
+    solver->eraseAllStates();
+    return solver->initializeAndRun(top);
   }
 
  private:
+  // root operation the pass is on, should never be altered hence never null
+  Operation* top;
   DataFlowSolver* solver;
 };
 
@@ -163,7 +169,8 @@ struct ConvertSecretWhileToStaticFor
       return;
     }
 
-    patterns.add<SecretWhileToStaticForConversion>(&solver, context);
+    patterns.add<SecretWhileToStaticForConversion>(getOperation(), &solver,
+                                                   context);
     // TODO (#1221): Investigate whether folding (default: on) can be skipped
     // here.
     (void)applyPatternsGreedily(getOperation(), std::move(patterns));
-- 
2.43.0


From 52405f76753b1275081ee970aa30180d55cde59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:43 +0000
Subject: [PATCH 086/111] fix: the static extract and insert conversions end in
 unreachable code

---
 .../ConvertSecretExtractToStaticExtract.cpp                | 7 +++++++
 .../ConvertSecretInsertToStaticInsert.cpp                  | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/lib/Transforms/ConvertSecretExtractToStaticExtract/ConvertSecretExtractToStaticExtract.cpp b/lib/Transforms/ConvertSecretExtractToStaticExtract/ConvertSecretExtractToStaticExtract.cpp
index d2a3071..e52189b 100644
--- a/lib/Transforms/ConvertSecretExtractToStaticExtract/ConvertSecretExtractToStaticExtract.cpp
+++ b/lib/Transforms/ConvertSecretExtractToStaticExtract/ConvertSecretExtractToStaticExtract.cpp
@@ -48,6 +48,13 @@ struct SecretExtractToStaticExtractConversion
 
     auto index = extractOp.getIndices().front();
 
+    // Constants and the induction variables of static loops are public, also
+    // in code that the analysis never reaches and knows nothing about (where
+    // the accesses made below would be converted over and over again).
+    if (index.getDefiningOp<arith::ConstantOp>()) return failure();
+    auto indexOwner = affine::getForInductionVarOwner(index);
+    if (indexOwner && indexOwner.hasConstantBounds()) return failure();
+
     auto* indexSecretnessLattice =
         solver->lookupState<SecretnessLattice>(index);
 
diff --git a/lib/Transforms/ConvertSecretInsertToStaticInsert/ConvertSecretInsertToStaticInsert.cpp b/lib/Transforms/ConvertSecretInsertToStaticInsert/ConvertSecretInsertToStaticInsert.cpp
index 59b2ffd..beea399 100644
--- a/lib/Transforms/ConvertSecretInsertToStaticInsert/ConvertSecretInsertToStaticInsert.cpp
+++ b/lib/Transforms/ConvertSecretInsertToStaticInsert/ConvertSecretInsertToStaticInsert.cpp
@@ -45,6 +45,13 @@ struct SecretInsertToStaticInsertConversion
       return rewriter.notifyMatchFailure(insertOp, "only supports 1D tensors");
     }
     auto index = insertOp.getIndices().front();
+
+    // Constants and the induction variables of static loops are public, also
+    // in code that the analysis never reaches and knows nothing about (where
+    // the accesses made below would be converted over and over again).
+    if (index.getDefiningOp<arith::ConstantOp>()) return failure();
+    auto indexOwner = affine::getForInductionVarOwner(index);
+    if (indexOwner && indexOwner.hasConstantBounds()) return failure();
     auto tensor = insertOp.getDest();
     auto insertedValue = insertOp.getScalar();
 
-- 
2.43.0


From f9dbc10158a064625c8b5f10aacd1e7338f27d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:27 +0000
Subject: [PATCH 087/111] fix: convert-to-data-oblivious converts accesses
 whose index a secret branch or loop assigns

---
 lib/Pipelines/PipelineRegistration.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/Pipelines/PipelineRegistration.cpp b/lib/Pipelines/PipelineRegistration.cpp
index d76fd41..c3e36f6 100644
--- a/lib/Pipelines/PipelineRegistration.cpp
+++ b/lib/Pipelines/PipelineRegistration.cpp
@@ -164,6 +164,13 @@ void convertToDataObliviousPipelineBuilder(OpPassManager& manager) {
 
   // If Transformation
   manager.addPass(createConvertIfToSelect());
+
+  // Converting a loop or branch makes the values it assigns depend on its
+  // secret condition, so only now are the accesses they index known to be
+  // secret.
+  manager.addPass(createConvertSecretExtractToStaticExtract());
+  manager.addPass(createConvertSecretInsertToStaticInsert());
+  manager.addPass(createConvertIfToSelect());
 }
 
 }  // namespace mlir::heir
-- 
2.43.0


From f85020473324dc01d904c135108d058b0ebe2e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:56 +0000
Subject: [PATCH 088/111] fix: absorbing constants leaves the uses outside of
 the generic alone

---
 lib/Dialect/Secret/IR/SecretPatterns.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/Dialect/Secret/IR/SecretPatterns.cpp b/lib/Dialect/Secret/IR/SecretPatterns.cpp
index d6718e7..d71e5e0 100644
--- a/lib/Dialect/Secret/IR/SecretPatterns.cpp
+++ b/lib/Dialect/Secret/IR/SecretPatterns.cpp
@@ -811,7 +811,11 @@ void genericAbsorbConstants(secret::GenericOp genericOp,
         Region* operandRegion = definingOp->getParentRegion();
         if (operandRegion && !genericOp.getRegion().isAncestor(operandRegion)) {
           auto* copiedOp = rewriter.clone(*definingOp);
-          rewriter.replaceAllUsesWith(operand, copiedOp->getResults());
+          rewriter.replaceUsesWithIf(
+              operand, copiedOp->getResult(0), [&](OpOperand& use) {
+                return genericOp.getRegion().isAncestor(
+                    use.getOwner()->getParentRegion());
+              });
           // If this was a block argument, additionally remove the block
           // argument.
           if (isGenericBlockArg) {
-- 
2.43.0


From d08128734e0c661659151e4db555610f6fc7bd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:57 +0000
Subject: [PATCH 089/111] fix: concealing a plaintext insertion destination
 only changes insertions in the generic

---
 lib/Dialect/Secret/IR/SecretPatterns.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Dialect/Secret/IR/SecretPatterns.cpp b/lib/Dialect/Secret/IR/SecretPatterns.cpp
index d71e5e0..b627818 100644
--- a/lib/Dialect/Secret/IR/SecretPatterns.cpp
+++ b/lib/Dialect/Secret/IR/SecretPatterns.cpp
@@ -772,7 +772,8 @@ LogicalResult ConcealPlaintextInsert::matchAndRewrite(
             concealedTensor.getCleartext().getType(), op.getLoc());
         rewriter.replaceUsesWithIf(dest, newArg, [&](mlir::OpOperand& operand) {
           auto insertOp = dyn_cast<tensor::InsertOp>(operand.getOwner());
-          if (!insertOp) {
+          if (!insertOp ||
+              !op.getRegion().isAncestor(insertOp->getParentRegion())) {
             return false;
           }
           return operand.get() == dest;
-- 
2.43.0


From a15f9a3cc03bec26c189dd1b8f254df72e8f05d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:13 +0000
Subject: [PATCH 090/111] fix: copyDialectAttributes finds the operand of a
 loop's iteration argument

---
 lib/Utils/AttributeUtils.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/Utils/AttributeUtils.cpp b/lib/Utils/AttributeUtils.cpp
index 7224db7..3c5ac4c 100644
--- a/lib/Utils/AttributeUtils.cpp
+++ b/lib/Utils/AttributeUtils.cpp
@@ -13,6 +13,7 @@
 #include "mlir/include/mlir/IR/Visitors.h"              // from @llvm-project
 #include "mlir/include/mlir/Interfaces/ControlFlowInterfaces.h"  // from @llvm-project
 #include "mlir/include/mlir/Interfaces/FunctionInterfaces.h"  // from @llvm-project
+#include "mlir/include/mlir/Interfaces/LoopLikeInterface.h"  // from @llvm-project
 #include "mlir/include/mlir/Support/LLVM.h"  // from @llvm-project
 
 namespace mlir {
@@ -371,7 +372,15 @@ void copyDialectAttributes(Value from, Value to) {
       copyFromDict(funcOp.getArgAttrDict(blockArg.getArgNumber()));
     } else if (auto attrOp =
                    dyn_cast<OperandAndResultAttrInterface>(parentOp)) {
-      copyFromDict(attrOp.getOperandAttrDict(blockArg.getArgNumber()));
+      unsigned operandNumber = blockArg.getArgNumber();
+      if (auto loop = dyn_cast<LoopLikeOpInterface>(parentOp)) {
+        // The block arguments of a loop also include induction variables, and
+        // its operands bounds.
+        OpOperand* init = loop.getTiedLoopInit(blockArg);
+        if (!init) return;
+        operandNumber = init->getOperandNumber();
+      }
+      copyFromDict(attrOp.getOperandAttrDict(operandNumber));
     }
   } else {
     auto opResult = cast<OpResult>(from);
-- 
2.43.0


From 29310a64e07373a3b48ec7d626b0151ec55353a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:15 +0000
Subject: [PATCH 091/111] fix: distributing a generic through an scf.if without
 an else region

---
 lib/Dialect/Secret/Transforms/DistributeGeneric.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Dialect/Secret/Transforms/DistributeGeneric.cpp b/lib/Dialect/Secret/Transforms/DistributeGeneric.cpp
index e454bb8..f71b96b 100644
--- a/lib/Dialect/Secret/Transforms/DistributeGeneric.cpp
+++ b/lib/Dialect/Secret/Transforms/DistributeGeneric.cpp
@@ -179,7 +179,8 @@ struct SplitGeneric : public OpRewritePattern<GenericOp> {
     // If the original op does not have an else region, then it can't have any
     // results because there is no else branch to fill in an SSA value when
     // the condition is false. In this case exit early.
-    if (opToDistribute->getNumRegions() == 1) {
+    if (opToDistribute->getNumRegions() == 1 ||
+        opToDistribute->getRegion(1).empty()) {
       return failure();
     }
 
-- 
2.43.0


From 0e4b14020fcea9a7ebc6a3413c18b67fdbc83bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:15 +0000
Subject: [PATCH 092/111] fix: distributing a generic through a loop whose
 results it does not yield

---
 .../Secret/Transforms/DistributeGeneric.cpp   | 38 ++++++++++---------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/lib/Dialect/Secret/Transforms/DistributeGeneric.cpp b/lib/Dialect/Secret/Transforms/DistributeGeneric.cpp
index f71b96b..484bea2 100644
--- a/lib/Dialect/Secret/Transforms/DistributeGeneric.cpp
+++ b/lib/Dialect/Secret/Transforms/DistributeGeneric.cpp
@@ -470,7 +470,7 @@ struct SplitGeneric : public OpRewritePattern<GenericOp> {
             SmallVector<Value, 4> newYieldedValues;
             for (Value oldYieldedValue :
                  clonedLoopBody.getTerminator()->getOperands()) {
-              newYieldedValues.push_back(mp.lookup(oldYieldedValue));
+              newYieldedValues.push_back(mp.lookupOrDefault(oldYieldedValue));
             }
             YieldOp::create(b, loc, newYieldedValues);
           });
@@ -512,31 +512,33 @@ struct SplitGeneric : public OpRewritePattern<GenericOp> {
       // argument.
       SmallVector<Value> replacements;
       for (Value yieldedValue : genericOp.getYieldOp().getValues()) {
-        int loopResultIndex =
-            std::find(loop->getOpResults().begin(), loop->getOpResults().end(),
-                      yieldedValue) -
-            loop->getOpResults().begin();
         // Case 1
-        if (loopResultIndex >= 0) {
-          replacements.push_back(clonedLoop->getOpResult(loopResultIndex));
+        if (yieldedValue.getDefiningOp() == loop.getOperation()) {
+          replacements.push_back(clonedLoop->getOpResult(
+              cast<OpResult>(yieldedValue).getResultNumber()));
           LLVM_DEBUG(llvm::dbgs() << "replacing value " << yieldedValue
                                   << " with " << replacements.back() << "\n");
           continue;
         }
 
         // Case 2
-        if (isa<BlockArgument>(yieldedValue)) {
-          replacements.push_back(genericOp.getOperand(
-              cast<BlockArgument>(yieldedValue).getArgNumber()));
-          LLVM_DEBUG(llvm::dbgs() << "replacing value " << yieldedValue
-                                  << " with " << replacements.back() << "\n");
-          continue;
+        if (auto* genericOperand =
+                genericOp.getOpOperandForBlockArgument(yieldedValue)) {
+          yieldedValue = genericOperand->get();
         }
-
-        assert(false &&
-               "Expected a loop result or a block argument, since this"
-               " code path expects a generic with a single operation (a loop) "
-               "inside it.");
+        // What is yielded is a generic operand or a value of the ambient scope;
+        // unless it is secret already, it becomes so by being yielded.
+        if (!isa<SecretType>(yieldedValue.getType())) {
+          OpBuilder::InsertionGuard guard(rewriter);
+          rewriter.setInsertionPoint(genericOp);
+          auto concealed = secret::ConcealOp::create(
+              rewriter, genericOp.getLoc(), yieldedValue);
+          copyDialectAttributes(yieldedValue, concealed.getResult());
+          yieldedValue = concealed.getResult();
+        }
+        replacements.push_back(yieldedValue);
+        LLVM_DEBUG(llvm::dbgs() << "replacing value with "
+                                << replacements.back() << "\n");
       }
       rewriter.replaceOp(genericOp, replacements);
 
-- 
2.43.0


From 1a1e2583d382b87992fe9fad1e8617fa40658d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:15 +0000
Subject: [PATCH 093/111] fix: making iteration arguments public kept no valid
 program

The clone of the loop was never inserted and got extra results, an initial
value that is secret was taken for a public one, and other operands and uses
that need the secret were changed too.
---
 .../Secret/Transforms/DistributeGeneric.cpp   | 36 ++++++++++++-------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/lib/Dialect/Secret/Transforms/DistributeGeneric.cpp b/lib/Dialect/Secret/Transforms/DistributeGeneric.cpp
index 484bea2..72e42c7 100644
--- a/lib/Dialect/Secret/Transforms/DistributeGeneric.cpp
+++ b/lib/Dialect/Secret/Transforms/DistributeGeneric.cpp
@@ -1000,11 +1000,12 @@ struct MakeNonSecretIterArgsPublic
       if (isa<SecretType>(iterArg.getType())) {
         auto yieldConceal =
             dyn_cast_or_null<ConcealOp>(yieldOpnd.getDefiningOp());
+        auto initConceal = dyn_cast_or_null<ConcealOp>(init.getDefiningOp());
         // The only case that needs checking is if the iter_arg is secret typed,
-        // and the yield operand is the direct result of a conceal op.
-        if (yieldConceal) {
-          auto initConceal = dyn_cast_or_null<ConcealOp>(init.getDefiningOp());
-          newInits.push_back(initConceal ? initConceal.getCleartext() : init);
+        // and both its initializer and the yield operand are the direct results
+        // of conceal ops.
+        if (yieldConceal && initConceal) {
+          newInits.push_back(initConceal.getCleartext());
           wasChanged[i] = true;
           changed = true;
           continue;
@@ -1022,19 +1023,15 @@ struct MakeNonSecretIterArgsPublic
     SmallVector<Type> newResultTypes(op->getResultTypes());
     for (auto [i, operand] : llvm::enumerate(op.getInitsMutable())) {
       if (wasChanged[i]) {
-        newResultTypes.push_back(newInits[i].getType());
+        newResultTypes[i] = newInits[i].getType();
       }
     }
 
     IRMapping mp;
-    for (auto [i, operand] : llvm::enumerate(op.getInitsMutable())) {
-      if (wasChanged[i]) {
-        mp.map(operand.get(), newInits[i]);
-      }
-    }
-
     auto* newOp =
         cloneWithNewResultTypes(op.getOperation(), newResultTypes, mp);
+    rewriter.setInsertionPoint(op);
+    rewriter.insert(newOp);
     auto newLoop = cast<LoopLikeOpInterface>(newOp);
 
     // Next we update the iter_args. In the cloned loop the iter_args may still
@@ -1042,10 +1039,23 @@ struct MakeNonSecretIterArgsPublic
     // the op in place to update block arg types.
     for (auto [i, operand] : llvm::enumerate(op.getInitsMutable())) {
       if (wasChanged[i]) {
+        newLoop.getInitsMutable()[i].set(newInits[i]);
         BlockArgument newIterArg = newLoop.getRegionIterArgs()[i];
         newIterArg.setType(newInits[i].getType());
-        BlockArgument oldIterArg = op.getRegionIterArgs()[i];
-        rewriter.replaceAllUsesWith(oldIterArg, newIterArg);
+        // A generic takes the cleartext as well, all other users of the
+        // iter_arg still need a secret.
+        auto needsSecret = [](OpOperand& use) {
+          return !isa<GenericOp>(use.getOwner());
+        };
+        if (llvm::any_of(newIterArg.getUses(), needsSecret)) {
+          rewriter.setInsertionPointToStart(newIterArg.getOwner());
+          auto concealOp =
+              ConcealOp::create(rewriter, op.getLoc(), newIterArg);
+          rewriter.replaceUsesWithIf(
+              newIterArg, concealOp.getResult(), [&](OpOperand& use) {
+                return use.getOwner() != concealOp && needsSecret(use);
+              });
+        }
       }
     }
 
-- 
2.43.0


From 30c239ea92143bc352513dda851e1ca8fbcfe8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:16 +0000
Subject: [PATCH 094/111] fix: secret.generic gave an attribute to the first
 operand or result when parsed

---
 lib/Dialect/Secret/IR/SecretOps.cpp | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/lib/Dialect/Secret/IR/SecretOps.cpp b/lib/Dialect/Secret/IR/SecretOps.cpp
index fffb224..93b1cbf 100644
--- a/lib/Dialect/Secret/IR/SecretOps.cpp
+++ b/lib/Dialect/Secret/IR/SecretOps.cpp
@@ -147,12 +147,12 @@ static ParseResult parseCommonStructuredOpParts(
             parser.parseColonType(inputTypes.emplace_back()))
           return failure();
 
-        Attribute attr;
+        // An operand without attributes has an empty dictionary, so that the
+        // others stay with their operands.
+        Attribute attr = parser.getBuilder().getDictionaryAttr({});
         auto result = parser.parseOptionalAttribute(attr);
-        if (result.has_value()) {
-          if (failed(*result)) return failure();
-          inputAttrs.push_back(attr);
-        }
+        if (result.has_value() && failed(*result)) return failure();
+        inputAttrs.push_back(attr);
         return success();
       });
   if (failed(inputsResult)) return failure();
@@ -163,6 +163,13 @@ static ParseResult parseCommonStructuredOpParts(
   return success();
 }
 
+static bool anyAttrs(ArrayRef<Attribute> attrs) {
+  return llvm::any_of(attrs, [](Attribute attr) {
+    auto dict = dyn_cast<DictionaryAttr>(attr);
+    return !dict || !dict.empty();
+  });
+}
+
 ParseResult GenericOp::parse(OpAsmParser& parser, OperationState& result) {
   SmallVector<Attribute> iteratorTypeAttrs;
 
@@ -173,7 +180,7 @@ ParseResult GenericOp::parse(OpAsmParser& parser, OperationState& result) {
     return failure();
 
   // Add operand attributes.
-  if (!inputAttrs.empty()) {
+  if (anyAttrs(inputAttrs)) {
     result.attributes.append(
         StringAttr::get(parser.getContext(), kOperandAttrsName),
         parser.getBuilder().getArrayAttr(inputAttrs));
@@ -194,12 +201,10 @@ ParseResult GenericOp::parse(OpAsmParser& parser, OperationState& result) {
     auto parseOutputTypeAndAttrFn = [&]() -> ParseResult {
       if (parser.parseType(outputTypes.emplace_back())) return failure();
 
-      Attribute attr;
+      Attribute attr = parser.getBuilder().getDictionaryAttr({});
       auto result = parser.parseOptionalAttribute(attr);
-      if (result.has_value()) {
-        if (failed(*result)) return failure();
-        outputAttrs.push_back(attr);
-      }
+      if (result.has_value() && failed(*result)) return failure();
+      outputAttrs.push_back(attr);
       return success();
     };
     if (failed(parser.parseOptionalLParen())) {
@@ -218,7 +223,7 @@ ParseResult GenericOp::parse(OpAsmParser& parser, OperationState& result) {
     }
   }
   result.addTypes(outputTypes);
-  if (!outputAttrs.empty()) {
+  if (anyAttrs(outputAttrs)) {
     result.attributes.append(
         StringAttr::get(parser.getContext(), kResultAttrsName),
         parser.getBuilder().getArrayAttr(outputAttrs));
-- 
2.43.0


From 06d4c6d67e2b3c054852643f0ec3e8681d022728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:39 +0000
Subject: [PATCH 095/111] fix: adding and removing operands of secret.generic
 keeps the operand attributes aligned

---
 lib/Dialect/Secret/IR/SecretPatterns.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/lib/Dialect/Secret/IR/SecretPatterns.cpp b/lib/Dialect/Secret/IR/SecretPatterns.cpp
index b627818..a3d9a66 100644
--- a/lib/Dialect/Secret/IR/SecretPatterns.cpp
+++ b/lib/Dialect/Secret/IR/SecretPatterns.cpp
@@ -91,6 +91,17 @@ llvm::SmallVector<Value> buildResolvedIndices(Operation* op,
   return indices;
 }
 
+// Gives the operands appended to a generic an empty attribute dictionary if the
+// generic has operand attributes, which are one per operand.
+void padOperandAttrs(GenericOp op) {
+  ArrayAttr attrs = op.getAllOperandAttrsAttr();
+  if (!attrs) return;
+  SmallVector<Attribute> attrList(attrs.begin(), attrs.end());
+  attrList.resize(op->getNumOperands(),
+                  DictionaryAttr::get(op.getContext(), {}));
+  op.setOperandAttrsAttr(ArrayAttr::get(op.getContext(), attrList));
+}
+
 bool isCallToPackingHelper(Operation* op) {
   auto callOp = dyn_cast<func::CallOp>(op);
   if (!callOp) return false;
@@ -335,6 +346,7 @@ LogicalResult CaptureAmbientScope::matchAndRewrite(
              genericOp;
     });
     genericOp.getInputsMutable().append(value);
+    padOperandAttrs(genericOp);
   });
 
   return success();
@@ -779,6 +791,7 @@ LogicalResult ConcealPlaintextInsert::matchAndRewrite(
           return operand.get() == dest;
         });
         op.getInputsMutable().append(concealedTensor.getResult());
+        padOperandAttrs(op);
       });
       return success();
     }
@@ -824,6 +837,12 @@ void genericAbsorbConstants(secret::GenericOp genericOp,
             rewriter.modifyOpInPlace(op, [&]() {
               genericOp.getBody()->eraseArgument(index);
               genericOp.getOperation()->eraseOperand(index);
+              if (ArrayAttr attrs = genericOp.getAllOperandAttrsAttr()) {
+                SmallVector<Attribute> attrList(attrs.begin(), attrs.end());
+                attrList.erase(attrList.begin() + index);
+                genericOp.setOperandAttrsAttr(
+                    ArrayAttr::get(genericOp.getContext(), attrList));
+              }
             });
           }
         }
-- 
2.43.0


From c25f58b1b99c37f464c73380a1d6fcec329882ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:39 +0000
Subject: [PATCH 096/111] fix: secret-distribute-generic crashed on operand
 attributes in loops

---
 lib/Dialect/Secret/Transforms/DistributeGeneric.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/Dialect/Secret/Transforms/DistributeGeneric.cpp b/lib/Dialect/Secret/Transforms/DistributeGeneric.cpp
index 72e42c7..189b04c 100644
--- a/lib/Dialect/Secret/Transforms/DistributeGeneric.cpp
+++ b/lib/Dialect/Secret/Transforms/DistributeGeneric.cpp
@@ -793,6 +793,8 @@ void moveDialectAttrsToFuncArgument(Operation* top) {
       if (isa<SecretType>(operand.getType()) && funcBlockArg) {
         auto funcOp =
             dyn_cast<func::FuncOp>(funcBlockArg.getOwner()->getParentOp());
+        // It may also be an iteration argument of a loop.
+        if (!funcOp) continue;
         NamedAttrList attrs(genericOp.removeOperandAttrDict(i));
         // only set attr using name with dialect prefix
         for (auto& namedAttr : attrs) {
-- 
2.43.0


From 086d3710e42b6441b64fbcd823e4c0c2d8f32b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:26 +0000
Subject: [PATCH 097/111] fix: splitting a secret.generic keeps the operand and
 result attributes aligned

---
 lib/Dialect/Secret/IR/SecretOps.cpp                 | 11 +++++++++--
 lib/Dialect/Secret/Transforms/DistributeGeneric.cpp | 13 +++++++++++++
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/lib/Dialect/Secret/IR/SecretOps.cpp b/lib/Dialect/Secret/IR/SecretOps.cpp
index 93b1cbf..0fa3f50 100644
--- a/lib/Dialect/Secret/IR/SecretOps.cpp
+++ b/lib/Dialect/Secret/IR/SecretOps.cpp
@@ -396,6 +396,13 @@ std::pair<GenericOp, ValueRange> GenericOp::addNewYieldedValues(
         return newTy;
       }));
   GenericOp newOp = cloneWithNewResultTypes(newTypes, rewriter);
+  // The new results have no attributes yet.
+  if (ArrayAttr attrs = newOp.getAllResultAttrsAttr()) {
+    SmallVector<Attribute> attrList(attrs.begin(), attrs.end());
+    attrList.resize(newOp->getNumResults(),
+                    DictionaryAttr::get(getContext(), {}));
+    newOp.setResultAttrsAttr(ArrayAttr::get(getContext(), attrList));
+  }
 
   auto newResultStartIter = newOp.getResults().drop_front(
       newOp.getNumResults() - newValuesToYield.size());
@@ -586,8 +593,8 @@ GenericOp GenericOp::extractOpBeforeGeneric(Operation* opToExtract,
       BlockArgument arg = getBody()->addArgument(ty, opToExtract->getLoc());
       oldGenericNewBlockArgs.push_back(arg);
     }
-    // Only set the operand attrs if there are any to set.
-    if (!llvm::all_of(newGenericArgAttrs, [](Attribute attr) {
+    // Only set the operand attrs if there are any to set, or to extend.
+    if (oldGenericArgAttrs || !llvm::all_of(newGenericArgAttrs, [](Attribute attr) {
           if (attr == nullptr) return true;
           auto dictAttr = dyn_cast<DictionaryAttr>(attr);
           return !dictAttr || dictAttr.empty();
diff --git a/lib/Dialect/Secret/Transforms/DistributeGeneric.cpp b/lib/Dialect/Secret/Transforms/DistributeGeneric.cpp
index 189b04c..e795a1a 100644
--- a/lib/Dialect/Secret/Transforms/DistributeGeneric.cpp
+++ b/lib/Dialect/Secret/Transforms/DistributeGeneric.cpp
@@ -129,6 +129,17 @@ bool shouldLoopInitBeLiftedToSecret(LoopLikeOpInterface loop,
   return false;
 }
 
+// Gives the operands appended to a generic an empty attribute dictionary if the
+// generic has operand attributes, which are one per operand.
+void padOperandAttrs(GenericOp op) {
+  ArrayAttr attrs = op.getAllOperandAttrsAttr();
+  if (!attrs) return;
+  SmallVector<Attribute> attrList(attrs.begin(), attrs.end());
+  attrList.resize(op->getNumOperands(),
+                  DictionaryAttr::get(op.getContext(), {}));
+  op.setOperandAttrsAttr(ArrayAttr::get(op.getContext(), attrList));
+}
+
 // Split a secret.generic containing multiple ops into multiple secret.generics.
 //
 // E.g.,
@@ -635,6 +646,7 @@ struct SplitGeneric : public OpRewritePattern<GenericOp> {
           // Otherwise, the operand must be an input to the sourceGeneric,
           // which must be added to the targetGeneric.
           targetGeneric.getInputsMutable().append(sourceGenericArg);
+          padOperandAttrs(targetGeneric);
           BlockArgument newBlockArg = targetGeneric.getBody()->addArgument(
               operand.get().getType(), targetGeneric.getLoc());
           LLVM_DEBUG(llvm::dbgs() << "Mapping " << operand.get()
@@ -679,6 +691,7 @@ struct SplitGeneric : public OpRewritePattern<GenericOp> {
     // Finally, add the new targetGeneric results to the sourceGeneric, and
     // replace the opToMove with the new block arguments.
     sourceGeneric.getInputsMutable().append(newResults);
+    padOperandAttrs(sourceGeneric);
     SmallVector<Location, 1> newLocs(newResults.size(), sourceGeneric.getLoc());
     auto clearTypes = llvm::to_vector<6>(llvm::map_range(
         newResults.getTypes(),
-- 
2.43.0


From d2d65c43bff95b0129256645626e970ebc05dfa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:27 +0000
Subject: [PATCH 098/111] fix: forget-secrets converts bits to integers and
 wide integers to bits correctly

---
 lib/Utils/TransformUtils.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/Utils/TransformUtils.cpp b/lib/Utils/TransformUtils.cpp
index 6ffc8d0..19ffe38 100644
--- a/lib/Utils/TransformUtils.cpp
+++ b/lib/Utils/TransformUtils.cpp
@@ -6,6 +6,7 @@
 #include <string>
 #include <string_view>
 
+#include "llvm/include/llvm/ADT/APInt.h"                 // from @llvm-project
 #include "llvm/include/llvm/Support/Debug.h"             // from @llvm-project
 #include "mlir/include/mlir/Dialect/Arith/IR/Arith.h"    // from @llvm-project
 #include "mlir/include/mlir/Dialect/Func/IR/FuncOps.h"   // from @llvm-project
@@ -78,8 +79,9 @@ Value convertIntegerValueToTensorOfBits(Value integer, OpBuilder& b,
     // from the input
     auto shiftAmount = arith::ConstantOp::create(b, loc, argType,
                                                  b.getIntegerAttr(argType, i));
-    auto bitMask = arith::ConstantOp::create(b, loc, argType,
-                                             b.getIntegerAttr(argType, 1 << i));
+    auto bitMask = arith::ConstantOp::create(
+        b, loc, argType,
+        b.getIntegerAttr(argType, llvm::APInt::getOneBitSet(width, i)));
     auto andOp = arith::AndIOp::create(b, loc, integer, bitMask);
     auto shifted = arith::ShRSIOp::create(b, loc, andOp, shiftAmount);
     insertValues.push_back(
@@ -103,7 +105,7 @@ Value convertTensorOfBitsToInteger(Value tensor, Type resultType, OpBuilder& b,
     auto loadOp = tensor::ExtractOp::create(
         b, loc, tensor, ValueRange{arith::ConstantIndexOp::create(b, loc, i)});
     auto extOp =
-        arith::ExtSIOp::create(b, loc, integerType, loadOp.getResult());
+        arith::ExtUIOp::create(b, loc, integerType, loadOp.getResult());
     auto shiftAmount = arith::ConstantIntOp::create(b, loc, integerType, i);
     auto shifted = arith::ShLIOp::create(b, loc, extOp, shiftAmount);
     auto orOp = arith::OrIOp::create(b, loc, integerType, result, shifted);
-- 
2.43.0


From b84eef96bec1e8435b257641209910988195f1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:49 +0000
Subject: [PATCH 099/111] fix: interpolateChebyshev: look at the middle value
 when deciding a function is odd

---
 lib/Utils/Approximation/Chebyshev.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Utils/Approximation/Chebyshev.cpp b/lib/Utils/Approximation/Chebyshev.cpp
index 5b23ea8..066e2a2 100644
--- a/lib/Utils/Approximation/Chebyshev.cpp
+++ b/lib/Utils/Approximation/Chebyshev.cpp
@@ -74,7 +74,7 @@ void interpolateChebyshev(ArrayRef<APFloat> chebEvalPoints,
                  chebEvalPoints.rbegin());
 
   bool isOdd = true;
-  for (int i = 0; i < n / 2; ++i) {
+  for (size_t i = 0; i < (n + 1) / 2; ++i) {
     if (chebEvalPoints[i] != -chebEvalPoints[(n - 1) - i]) {
       isOdd = false;
       break;
-- 
2.43.0


From 11c9e53b6ac478f5872a443e456e12600ef50fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:02 +0000
Subject: [PATCH 100/111] fix: standardChop: divide the whole envelope by its
 first value

---
 lib/Utils/Approximation/Chebyshev.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Utils/Approximation/Chebyshev.cpp b/lib/Utils/Approximation/Chebyshev.cpp
index 066e2a2..9b7b0c8 100644
--- a/lib/Utils/Approximation/Chebyshev.cpp
+++ b/lib/Utils/Approximation/Chebyshev.cpp
@@ -182,8 +182,9 @@ size_t standardChop(SmallVector<APFloat> coeffs, double tol) {
   if (envelope[0].isZero()) return 1;
 
   // Normalize the envelope.
+  const APFloat largest = envelope[0];
   for (int i = 0; i < envelope.size(); ++i) {
-    envelope[i] = envelope[i] / envelope[0];
+    envelope[i] = envelope[i] / largest;
   }
 
   // Step 2: Scan ENVELOPE for a value PLATEAUPOINT, the first point J-1, if
-- 
2.43.0


From 1cb61fb904fc0bc9c3c10112b1549de6dec3a64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:02 +0000
Subject: [PATCH 101/111] fix: standardChop: write the last envelope value at
 the 0-based index

---
 lib/Utils/Approximation/Chebyshev.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Utils/Approximation/Chebyshev.cpp b/lib/Utils/Approximation/Chebyshev.cpp
index 9b7b0c8..c21ebc4 100644
--- a/lib/Utils/Approximation/Chebyshev.cpp
+++ b/lib/Utils/Approximation/Chebyshev.cpp
@@ -251,7 +251,7 @@ size_t standardChop(SmallVector<APFloat> coeffs, double tol) {
   }
   if (j3 < j2) {
     j2 = j3 + 1;
-    envelope[j2] = APFloat(std::pow(tol, 7.0 / 6.0));
+    envelope[j2 - 1] = APFloat(std::pow(tol, 7.0 / 6.0));
   }
 
   SmallVector<double> cc;
-- 
2.43.0


From dca0685997918c861ad1f5da472ca8b3db56b266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:02 +0000
Subject: [PATCH 102/111] fix: print float polynomials in the form the parser
 accepts

---
 lib/Utils/Polynomial/Polynomial.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/Utils/Polynomial/Polynomial.h b/lib/Utils/Polynomial/Polynomial.h
index 7bca2ba..14a8246 100644
--- a/lib/Utils/Polynomial/Polynomial.h
+++ b/lib/Utils/Polynomial/Polynomial.h
@@ -123,6 +123,9 @@ class FloatMonomial : public MonomialBase<FloatMonomial, APFloat> {
 
   void coefficientToString(llvm::SmallString<16>& coeffString) const override {
     coefficient.toString(coeffString);
+    // A float literal needs a decimal point.
+    if (coefficient.isFinite() && !coeffString.str().contains('.'))
+      coeffString += ".0";
   }
 };
 
@@ -152,7 +155,9 @@ class PolynomialBase {
         os << separator;
       }
       std::string coeffToPrint;
-      if (term.isMonic() && term.getExponent().uge(1)) {
+      // The attribute parser requires a float coefficient, even if it is one.
+      if (!std::is_same_v<CoefficientType, APFloat> && term.isMonic() &&
+          term.getExponent().uge(1)) {
         coeffToPrint = "";
       } else {
         llvm::SmallString<16> coeffString;
-- 
2.43.0


From 7040f92d5e0d7aa78e15624a9231ce05458c5e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:02 +0000
Subject: [PATCH 103/111] fix: lower-polynomial-eval: lower monomial
 polynomials of high degree when the method is automatic

---
 lib/Transforms/LowerPolynomialEval/Patterns.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Transforms/LowerPolynomialEval/Patterns.cpp b/lib/Transforms/LowerPolynomialEval/Patterns.cpp
index adce8d9..fac11cc 100644
--- a/lib/Transforms/LowerPolynomialEval/Patterns.cpp
+++ b/lib/Transforms/LowerPolynomialEval/Patterns.cpp
@@ -131,7 +131,7 @@ LogicalResult LowerViaPatersonStockmeyerMonomial::matchAndRewrite(
   auto terms = polynomial.getTerms();
   int64_t maxDegree = terms.back().getExponent().getSExtValue();
   const int degreeThreshold = 5;
-  if (!shouldForce() && maxDegree > degreeThreshold) return failure();
+  if (!shouldForce() && maxDegree <= degreeThreshold) return failure();
 
   // Only support floating point element types
   auto floatTy =
-- 
2.43.0


From 6b1c4b477d2291e30ba0be7de674deccc2da3a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:02 +0000
Subject: [PATCH 104/111] fix: lower-polynomial-eval: lower a zero Chebyshev
 polynomial to a constant

---
 lib/Transforms/LowerPolynomialEval/Patterns.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/Transforms/LowerPolynomialEval/Patterns.cpp b/lib/Transforms/LowerPolynomialEval/Patterns.cpp
index fac11cc..bb60d34 100644
--- a/lib/Transforms/LowerPolynomialEval/Patterns.cpp
+++ b/lib/Transforms/LowerPolynomialEval/Patterns.cpp
@@ -221,6 +221,12 @@ LogicalResult LowerViaPatersonStockmeyerChebyshev::matchAndRewrite(
 
   auto resultNode = polynomial::patersonStockmeyerChebyshevPolynomialEvaluation(
       xNode, chebCoeffs, getMinCoefficientThreshold(), dagType);
+  // There is no node when all coefficients are below the threshold.
+  if (!resultNode) {
+    rewriter.replaceOp(op, arith::ConstantOp::create(
+                               b, rewriter.getZeroAttr(op.getType())));
+    return success();
+  }
   IRMaterializingVisitor visitor(op.getValue().getType());
   Value finalOutput = visitor.process(resultNode, b)[0];
 
-- 
2.43.0


From c550550b21172d7e85d5ea3ac5ba232aa171e41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:24 +0000
Subject: [PATCH 105/111] fix: rotating by a negative amount was normalized
 wrongly unless the size is a power of two

---
 .../TensorExt/IR/TensorExtCanonicalization.td  | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/lib/Dialect/TensorExt/IR/TensorExtCanonicalization.td b/lib/Dialect/TensorExt/IR/TensorExtCanonicalization.td
index 7cd5c8d..ec3e913 100644
--- a/lib/Dialect/TensorExt/IR/TensorExtCanonicalization.td
+++ b/lib/Dialect/TensorExt/IR/TensorExtCanonicalization.td
@@ -50,10 +50,20 @@ def DropZeroRotation : Pat<
 def NormalizeRotationIndex : Pat<
   (TensorExt_RotateOp $tensor, (Arith_ConstantOp:$shiftOp APIntAttr:$shiftAmount)),
   (TensorExt_RotateOp $tensor,
-      (Arith_RemUIOp
-        $shiftOp,
-        // Only works for 1D tensors: index is taken modulo the tensor length,
-        // i.e., dim 0
+      // The shift may be negative: (x rem size + size) rem size.
+      (Arith_RemSIOp
+        (Arith_AddIOp
+          (Arith_RemSIOp
+            $shiftOp,
+            // Only works for 1D tensors: index is taken modulo the tensor
+            // length, i.e., dim 0
+            (CreateIndexCastOp
+              (Tensor_DimOp $tensor, (Arith_ConstantOp ConstantAttr<IndexAttr, "0">)),
+              $shiftOp)),
+          (CreateIndexCastOp
+            (Tensor_DimOp $tensor, (Arith_ConstantOp ConstantAttr<IndexAttr, "0">)),
+            $shiftOp),
+          DefOverflow),
         (CreateIndexCastOp
           (Tensor_DimOp $tensor, (Arith_ConstantOp ConstantAttr<IndexAttr, "0">)),
           $shiftOp))
-- 
2.43.0


From cc2033ef867a36a38b8b26c627e7972d2e594f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:24 +0000
Subject: [PATCH 106/111] fix: extracting from a rotated tensor read past its
 end instead of wrapping around

---
 .../TensorExt/IR/TensorExtCanonicalization.td      | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/lib/Dialect/TensorExt/IR/TensorExtCanonicalization.td b/lib/Dialect/TensorExt/IR/TensorExtCanonicalization.td
index ec3e913..b84535d 100644
--- a/lib/Dialect/TensorExt/IR/TensorExtCanonicalization.td
+++ b/lib/Dialect/TensorExt/IR/TensorExtCanonicalization.td
@@ -22,6 +22,8 @@ def IsOneDimTensor : Constraint<
   >
 >;
 
+def IsIndexTyped : Constraint<CPred<"$0.getType().isIndex()">>;
+
 def DenseElementsAttrIsSplatPred
     : CPred<"llvm::isa<mlir::DenseElementsAttr>($_self) && llvm::cast<mlir::DenseElementsAttr>($_self).isSplat()">;
 
@@ -89,9 +91,19 @@ def RotatePlusExtractToIndexedExtract : Pat<
   (Tensor_ExtractOp
     (TensorExt_RotateOp $tensor, $shift),
     (variadic $index)),
+  // The index wraps around: ((shift + index) rem size + size) rem size.
   (Tensor_ExtractOp
     $tensor,
-    (MakeSingleResultVariadic (Arith_AddIOp $shift, $index, DefOverflow)))
+    (MakeSingleResultVariadic
+      (Arith_RemSIOp
+        (Arith_AddIOp
+          (Arith_RemSIOp
+            (Arith_AddIOp $shift, $index, DefOverflow),
+            (Tensor_DimOp $tensor, (Arith_ConstantOp ConstantAttr<IndexAttr, "0">))),
+          (Tensor_DimOp $tensor, (Arith_ConstantOp ConstantAttr<IndexAttr, "0">)),
+          DefOverflow),
+        (Tensor_DimOp $tensor, (Arith_ConstantOp ConstantAttr<IndexAttr, "0">))))),
+  [(IsOneDimTensor $tensor), (IsIndexTyped $shift)]
 >;
 
 foreach ArithOp = [Arith_AddIOp, Arith_SubIOp, Arith_MulIOp] in {
-- 
2.43.0


From 157ecbc6dad77caef5615e43abc716b1d42c919c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:24 +0000
Subject: [PATCH 107/111] fix: folding the rotation of a constant was wrong for
 tensors of rank above one and shifts below minus the size

---
 lib/Dialect/TensorExt/IR/TensorExtOps.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/lib/Dialect/TensorExt/IR/TensorExtOps.cpp b/lib/Dialect/TensorExt/IR/TensorExtOps.cpp
index b9b6f33..fb9c96d 100644
--- a/lib/Dialect/TensorExt/IR/TensorExtOps.cpp
+++ b/lib/Dialect/TensorExt/IR/TensorExtOps.cpp
@@ -36,13 +36,16 @@ namespace tensor_ext {
 // populateWithGenerated, which can conflict with other generated patterns.
 #include "lib/Dialect/TensorExt/IR/TensorExtCanonicalization.cpp.inc"
 
+// Rotates each row of the last axis, which has rowSize elements.
 template <typename T>
-static SmallVector<T> rotateAttrValues(SmallVector<T> elts, int64_t shift) {
+static SmallVector<T> rotateAttrValues(SmallVector<T> elts, int64_t rowSize,
+                                       int64_t shift) {
   SmallVector<T> newElts;
   newElts.reserve(elts.size());
-  for (int i = 0; i < elts.size(); ++i) {
-    int64_t source = (i + shift + elts.size()) % elts.size();
-    newElts.push_back(elts[source]);
+  int64_t left = ((shift % rowSize) + rowSize) % rowSize;
+  for (int64_t i = 0; i < static_cast<int64_t>(elts.size()); ++i) {
+    int64_t column = i % rowSize;
+    newElts.push_back(elts[i - column + (column + left) % rowSize]);
   }
   return newElts;
 }
@@ -65,6 +68,7 @@ struct FoldRotateOfConst : public OpRewritePattern<tensor_ext::RotateOp> {
       return rewriter.notifyMatchFailure(
           op, "requires constant shift OpFoldResult");
     int64_t shift = cast<IntegerAttr>(shiftConst).getInt();
+    int64_t rowSize = op.getTensor().getType().getShape().back();
 
     arith::ConstantOp newOp;
 
@@ -72,7 +76,7 @@ struct FoldRotateOfConst : public OpRewritePattern<tensor_ext::RotateOp> {
         dyn_cast<DenseIntElementsAttr>(constantOp.getValueAttr());
     if (denseIntAttr) {
       SmallVector<APInt> elts(denseIntAttr.getValues<APInt>());
-      SmallVector<APInt> newElts = rotateAttrValues<APInt>(elts, shift);
+      SmallVector<APInt> newElts = rotateAttrValues<APInt>(elts, rowSize, shift);
       DenseIntElementsAttr newAttr =
           DenseIntElementsAttr::get(denseIntAttr.getType(), newElts);
       newOp = arith::ConstantOp::create(
@@ -83,7 +87,7 @@ struct FoldRotateOfConst : public OpRewritePattern<tensor_ext::RotateOp> {
         dyn_cast<DenseFPElementsAttr>(constantOp.getValueAttr());
     if (denseFloatAttr) {
       SmallVector<APFloat> elts(denseFloatAttr.getValues<APFloat>());
-      SmallVector<APFloat> newElts = rotateAttrValues<APFloat>(elts, shift);
+      SmallVector<APFloat> newElts = rotateAttrValues<APFloat>(elts, rowSize, shift);
       DenseFPElementsAttr newAttr =
           DenseFPElementsAttr::get(denseFloatAttr.getType(), newElts);
       newOp = arith::ConstantOp::create(
-- 
2.43.0


From 6bdc7fde38a5d9ae70321bdc281413b8b1491254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:24 +0000
Subject: [PATCH 108/111] fix: collapse-insertion-chains counted insertions of
 different branches as one chain

---
 .../Transforms/CollapseInsertionChains.cpp       | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/lib/Dialect/TensorExt/Transforms/CollapseInsertionChains.cpp b/lib/Dialect/TensorExt/Transforms/CollapseInsertionChains.cpp
index 263acc9..84c5870 100644
--- a/lib/Dialect/TensorExt/Transforms/CollapseInsertionChains.cpp
+++ b/lib/Dialect/TensorExt/Transforms/CollapseInsertionChains.cpp
@@ -107,7 +107,7 @@ struct FoldSequentialExtractInsertIntoRotate
     auto extractionSource = extractOp.getTensor();
     auto current = insertOp;
     while (true) {
-      bool foundNext = false;
+      tensor::InsertOp next;
 
       for (auto* user : current.getResult().getUsers()) {
         if (auto nextInsert = dyn_cast<tensor::InsertOp>(user)) {
@@ -131,15 +131,21 @@ struct FoldSequentialExtractInsertIntoRotate
             return rewriter.notifyMatchFailure(
                 insertOp, "insertion chain has mismatched shift");
 
-          accessedIndices.insert(get1DExtractionIndex(nextInsert).value());
-          current = nextInsert;
-          foundNext = true;
+          // The insertions of two branches do not add up to one tensor.
+          if (next)
+            return rewriter.notifyMatchFailure(insertOp,
+                                               "insertion chain branches");
+          next = nextInsert;
         }
       }
+      if (next) {
+        accessedIndices.insert(get1DExtractionIndex(next).value());
+        current = next;
+      }
 
       // This can either be because we reached the end of the chain, or else
       // because the chain is incomplete.
-      if (!foundNext) break;
+      if (!next) break;
     }
 
     LLVM_DEBUG({
-- 
2.43.0


From c4c7a8ab538220424116ae65048f118bbba50cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:47 +0000
Subject: [PATCH 109/111] fix: combining rotations with shifts of different
 types created invalid additions

---
 .../TensorExt/IR/TensorExtCanonicalization.td   | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/lib/Dialect/TensorExt/IR/TensorExtCanonicalization.td b/lib/Dialect/TensorExt/IR/TensorExtCanonicalization.td
index b84535d..655c298 100644
--- a/lib/Dialect/TensorExt/IR/TensorExtCanonicalization.td
+++ b/lib/Dialect/TensorExt/IR/TensorExtCanonicalization.td
@@ -22,6 +22,9 @@ def IsOneDimTensor : Constraint<
   >
 >;
 
+// Shift amounts can only be added when they have the same type.
+def HaveSameType : Constraint<CPred<"$0.getType() == $1.getType()">>;
+
 def IsIndexTyped : Constraint<CPred<"$0.getType().isIndex()">>;
 
 def DenseElementsAttrIsSplatPred
@@ -82,7 +85,7 @@ def CombineSequentialRotates : Pat<
     (TensorExt_RotateOp $tensor, (Arith_ConstantOp:$xOp APIntAttr:$x)),
     (Arith_ConstantOp:$yOp APIntAttr:$y)),
   (TensorExt_RotateOp $tensor, (Arith_AddIOp $xOp, $yOp, DefOverflow)),
-  []
+  [(HaveSameType $xOp, $yOp)]
 >;
 
 // A rotation followed by extraction can be extracted directly from the
@@ -139,7 +142,7 @@ foreach ArithOp = [Arith_AddIOp, Arith_SubIOp, Arith_MulIOp] in {
       (TensorExt_RotateOp $t1, (Arith_AddIOp $s3, $s1, DefOverflow)),
       (TensorExt_RotateOp $t2, (Arith_AddIOp $s3, $s2, DefOverflow)),
       $ovf),
-    [], [], (addBenefit 2)
+    [(HaveSameType $s3, $s1), (HaveSameType $s3, $s2)], [], (addBenefit 2)
   >;
 
   // These two patterns don't eliminate any rotations, but they move rotations
@@ -184,7 +187,7 @@ foreach ArithOp = [Arith_AddIOp, Arith_SubIOp, Arith_MulIOp] in {
     //
     // But the original addi cannot be removed, and so the rotation it depends
     // on also cannot be removed.
-    [(HasOneUse:$arithOp)]
+    [(HasOneUse:$arithOp), (HaveSameType $s1, $s2)]
   >;
   def MergeEquivalentRotationsEarlierRHS_#ArithOp : Pat<
     (TensorExt_RotateOp
@@ -197,7 +200,7 @@ foreach ArithOp = [Arith_AddIOp, Arith_SubIOp, Arith_MulIOp] in {
       (TensorExt_RotateOp $t2, $s2),
       (TensorExt_RotateOp $t1, (Arith_AddIOp $s2, $s1, DefOverflow)),
       $ovf),
-    [(HasOneUse:$arithOp)]
+    [(HasOneUse:$arithOp), (HaveSameType $s1, $s2)]
   >;
 }
 
@@ -222,7 +225,7 @@ foreach ArithOp = [Arith_AddFOp, Arith_SubFOp, Arith_MulFOp] in {
       (TensorExt_RotateOp $t1, (Arith_AddIOp $s3, $s1, DefOverflow)),
       (TensorExt_RotateOp $t2, (Arith_AddIOp $s3, $s2, DefOverflow)),
       $fm, $rm),
-    [], [], (addBenefit 2)
+    [(HaveSameType $s3, $s1), (HaveSameType $s3, $s2)], [], (addBenefit 2)
   >;
 
   def MergeEquivalentRotationsEarlierLHS_#ArithOp : Pat<
@@ -236,7 +239,7 @@ foreach ArithOp = [Arith_AddFOp, Arith_SubFOp, Arith_MulFOp] in {
       (TensorExt_RotateOp $t1, (Arith_AddIOp $s2, $s1, DefOverflow)),
       (TensorExt_RotateOp $t2, $s2),
       $fm, $rm),
-    [(HasOneUse:$arithOp)]
+    [(HasOneUse:$arithOp), (HaveSameType $s1, $s2)]
   >;
 
   def MergeEquivalentRotationsEarlierRHS_#ArithOp : Pat<
@@ -250,7 +253,7 @@ foreach ArithOp = [Arith_AddFOp, Arith_SubFOp, Arith_MulFOp] in {
       (TensorExt_RotateOp $t1, $s2),
       (TensorExt_RotateOp $t2, (Arith_AddIOp $s2, $s1, DefOverflow)),
       $fm, $rm),
-    [(HasOneUse:$arithOp)]
+    [(HasOneUse:$arithOp), (HaveSameType $s1, $s2)]
   >;
 }
 
-- 
2.43.0


From f7fd6b7616b8e039fc47fe3647c0e40e9589db50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:54 +0000
Subject: [PATCH 110/111] fix: rotation canonicalizations fold shifts and
 indices without helper operations

---
 .../TensorExt/IR/TensorExtCanonicalization.td | 85 ++++++++++++++-----
 1 file changed, 64 insertions(+), 21 deletions(-)

diff --git a/lib/Dialect/TensorExt/IR/TensorExtCanonicalization.td b/lib/Dialect/TensorExt/IR/TensorExtCanonicalization.td
index 655c298..b93d902 100644
--- a/lib/Dialect/TensorExt/IR/TensorExtCanonicalization.td
+++ b/lib/Dialect/TensorExt/IR/TensorExtCanonicalization.td
@@ -25,8 +25,6 @@ def IsOneDimTensor : Constraint<
 // Shift amounts can only be added when they have the same type.
 def HaveSameType : Constraint<CPred<"$0.getType() == $1.getType()">>;
 
-def IsIndexTyped : Constraint<CPred<"$0.getType().isIndex()">>;
-
 def DenseElementsAttrIsSplatPred
     : CPred<"llvm::isa<mlir::DenseElementsAttr>($_self) && llvm::cast<mlir::DenseElementsAttr>($_self).isSplat()">;
 
@@ -34,6 +32,43 @@ def DenseElementsAttrIsSplatPred
 def SplatElementsAttr : ElementsAttrBase<DenseElementsAttrIsSplatPred,
   "splat tensor attr">;
 
+// An amount modulo the tensor size; the amount may be negative. Only works for
+// 1D tensors.
+def NormalizedShift : NativeCodeCall<
+  "[&](mlir::IntegerAttr amount, int64_t size) {"
+  "  return $_builder.getIntegerAttr("
+  "      amount.getType(), ((amount.getInt() % size) + size) % size);"
+  "}(llvm::cast<mlir::IntegerAttr>($0),"
+  "  llvm::cast<mlir::ShapedType>($1.getType()).getShape()[0])">;
+
+def IsIndexTyped : Constraint<CPred<"$0.getType().isIndex()">>;
+
+def IsConstantValue : Constraint<
+  CPred<"mlir::matchPattern($0, mlir::m_Constant())">>;
+
+// The (constant) index plus the shift is an index of the tensor.
+def RotatedIndexInBounds : Constraint<
+  CPred<"[&](mlir::Value indexValue, mlir::IntegerAttr shift, int64_t size) {"
+  "  mlir::IntegerAttr index;"
+  "  if (!mlir::matchPattern(indexValue, mlir::m_Constant(&index)) ||"
+  "      !shift.getType().isIndex())"
+  "    return false;"
+  "  int64_t sum = index.getInt() + shift.getInt();"
+  "  return sum >= 0 && sum < size;"
+  "}($0, llvm::cast<mlir::IntegerAttr>($1),"
+  "  llvm::cast<mlir::ShapedType>($2.getType()).getShape()[0])">>;
+
+// The index, modulo the tensor size, of the element that a rotation by the
+// shift $1 moves to the (constant) index $0.
+def RotatedIndex : NativeCodeCall<
+  "[&](mlir::Value indexValue, mlir::IntegerAttr shift, int64_t size) {"
+  "  mlir::IntegerAttr index;"
+  "  (void)mlir::matchPattern(indexValue, mlir::m_Constant(&index));"
+  "  return $_builder.getIndexAttr("
+  "      (((index.getInt() + shift.getInt()) % size) + size) % size);"
+  "}($0, llvm::cast<mlir::IntegerAttr>($1),"
+  "  llvm::cast<mlir::ShapedType>($2.getType()).getShape()[0])">;
+
 // rotate dense<x>, %t -> dense<x>
 def RotateDenseConstant : Pat<
   (TensorExt_RotateOp
@@ -55,24 +90,7 @@ def DropZeroRotation : Pat<
 def NormalizeRotationIndex : Pat<
   (TensorExt_RotateOp $tensor, (Arith_ConstantOp:$shiftOp APIntAttr:$shiftAmount)),
   (TensorExt_RotateOp $tensor,
-      // The shift may be negative: (x rem size + size) rem size.
-      (Arith_RemSIOp
-        (Arith_AddIOp
-          (Arith_RemSIOp
-            $shiftOp,
-            // Only works for 1D tensors: index is taken modulo the tensor
-            // length, i.e., dim 0
-            (CreateIndexCastOp
-              (Tensor_DimOp $tensor, (Arith_ConstantOp ConstantAttr<IndexAttr, "0">)),
-              $shiftOp)),
-          (CreateIndexCastOp
-            (Tensor_DimOp $tensor, (Arith_ConstantOp ConstantAttr<IndexAttr, "0">)),
-            $shiftOp),
-          DefOverflow),
-        (CreateIndexCastOp
-          (Tensor_DimOp $tensor, (Arith_ConstantOp ConstantAttr<IndexAttr, "0">)),
-          $shiftOp))
-      ),
+      (Arith_ConstantOp (NormalizedShift $shiftAmount, $tensor))),
   [(OutOfBoundsOfTensorDim $shiftAmount, $tensor),
    (IsOneDimTensor $tensor)]
 >;
@@ -91,10 +109,35 @@ def CombineSequentialRotates : Pat<
 // A rotation followed by extraction can be extracted directly from the
 // original tensor.
 def RotatePlusExtractToIndexedExtract : Pat<
+  (Tensor_ExtractOp
+    (TensorExt_RotateOp $tensor, (Arith_ConstantOp:$shift APIntAttr:$shiftAmount)),
+    (variadic $index)),
+  (Tensor_ExtractOp
+    $tensor,
+    (MakeSingleResultVariadic (Arith_AddIOp $shift, $index, DefOverflow))),
+  [(IsOneDimTensor $tensor),
+   (RotatedIndexInBounds $index, $shiftAmount, $tensor)],
+  [], (addBenefit 1)
+>;
+
+// The same when the index wraps around.
+def RotatePlusExtractToWrappedExtract : Pat<
+  (Tensor_ExtractOp
+    (TensorExt_RotateOp $tensor, (Arith_ConstantOp APIntAttr:$shiftAmount)),
+    (variadic $index)),
+  (Tensor_ExtractOp
+    $tensor,
+    (MakeSingleResultVariadic
+      (Arith_ConstantOp (RotatedIndex $index, $shiftAmount, $tensor)))),
+  [(IsOneDimTensor $tensor), (IsConstantValue $index)]
+>;
+
+// The same when the shift or the index is not a constant: the new index is
+// ((shift + index) rem size + size) rem size.
+def RotatePlusExtractToComputedExtract : Pat<
   (Tensor_ExtractOp
     (TensorExt_RotateOp $tensor, $shift),
     (variadic $index)),
-  // The index wraps around: ((shift + index) rem size + size) rem size.
   (Tensor_ExtractOp
     $tensor,
     (MakeSingleResultVariadic
-- 
2.43.0


From e1be2c79034b6140b57c9bb7e1c5d32c571d55e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:54 +0000
Subject: [PATCH 111/111] fix: evaluating a floor division read through a null
 pointer or stopped on a dividend of zero

---
 lib/Kernel/EvalVisitor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Kernel/EvalVisitor.cpp b/lib/Kernel/EvalVisitor.cpp
index cfe710b..54dc8e2 100644
--- a/lib/Kernel/EvalVisitor.cpp
+++ b/lib/Kernel/EvalVisitor.cpp
@@ -139,7 +139,7 @@ EvalResults EvalVisitor::operator()(const FloorDivNode<LiteralValue>& node) {
 
   // Scalar case
   const auto* lScalar = std::get_if<int>(&lVal);
-  if (*lScalar) {
+  if (lScalar) {
     return {LiteralValue(*lScalar / node.divisor)};
   }
 
-- 
2.43.0

