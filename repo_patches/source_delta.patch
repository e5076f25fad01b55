From 42116ac624d535cc1d6489c24b49f30b7a29a066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:26 +0000
Subject: [PATCH 01/27] fix: identity on an offset qubit range must not reuse
 the cached identity from qubit 0

---
 include/dd/Package.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 1986f39..9c065cd 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -2180,7 +2180,7 @@ namespace dd {
             if (leastSignificantQubit == 0 && idTable[static_cast<std::size_t>(mostSignificantQubit)].p != nullptr) {
                 return idTable[static_cast<std::size_t>(mostSignificantQubit)];
             }
-            if (mostSignificantQubit >= 1 && (idTable[static_cast<std::size_t>(mostSignificantQubit - 1)]).p != nullptr) {
+            if (leastSignificantQubit == 0 && mostSignificantQubit >= 1 && (idTable[static_cast<std::size_t>(mostSignificantQubit - 1)]).p != nullptr) {
                 idTable[static_cast<std::size_t>(mostSignificantQubit)] = makeDDNode(mostSignificantQubit,
                                                                                      std::array{idTable[static_cast<std::size_t>(mostSignificantQubit - 1)],
                                                                                                 mEdge::zero,
-- 
2.43.0


From e7a26cecee69718ce99ae36640255872b1e56a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:26 +0000
Subject: [PATCH 02/27] fix: invalidate the Toffoli table when numbers were
 collected

---
 include/dd/Package.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 9c065cd..5eb03e2 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -975,6 +975,7 @@ namespace dd {
                 vectorInnerProduct.clear();
                 vectorKronecker.clear();
                 matrixKronecker.clear();
+                toffoliTable.clear();
                 stochasticNoiseOperationCache.clear();
                 densityAdd.clear();
                 densityDensityMultiplication.clear();
-- 
2.43.0


From 63f61b27a84709f64392c58e7c141eba82efab86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:26 +0000
Subject: [PATCH 03/27] fix: report the collection of density matrix nodes

---
 include/dd/Package.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 5eb03e2..2d0f677 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -981,7 +981,7 @@ namespace dd {
                 densityDensityMultiplication.clear();
                 densityNoise.clear();
             }
-            return vCollect > 0 || mCollect > 0 || cCollect > 0;
+            return vCollect > 0 || mCollect > 0 || dCollect > 0 || cCollect > 0;
         }
 
         void clearUniqueTables() {
-- 
2.43.0


From 1d15754168251f1fb4552bfaefb757c0b1c37ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:26 +0000
Subject: [PATCH 04/27] fix: keep the value of scalar diagrams when
 deserializing

---
 include/dd/Package.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 2d0f677..70d5d97 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -2968,7 +2968,7 @@ namespace dd {
 
         template<class Node, class Edge = Edge<Node>, std::size_t N = std::tuple_size_v<decltype(Node::e)>>
         Edge deserialize(std::istream& is, bool readBinary = false) {
-            auto         result = Edge::zero;
+            auto         result = Edge::one; // a diagram without any node is the scalar given by the root weight
             ComplexValue rootweight{};
 
             std::unordered_map<std::int64_t, Node*> nodes{};
-- 
2.43.0


From bf6d0fc28a52617b4f61e1eca3c646a4f9dc4959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:26 +0000
Subject: [PATCH 05/27] fix: keep weight and levels in the Kronecker product
 with an identity

---
 include/dd/Package.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 70d5d97..0633514 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -1986,14 +1986,14 @@ namespace dd {
             // special case handling for matrices
             if constexpr (n == NEDGE) {
                 if (x.p->isIdentity()) {
-                    auto idx = incIdx ? static_cast<Qubit>(y.p->v + 1) : y.p->v;
-                    auto e   = makeDDNode(idx, std::array{y, Edge<Node>::zero, Edge<Node>::zero, y});
-                    for (auto i = 0; i < x.p->v; ++i) {
-                        idx = incIdx ? static_cast<Qubit>(e.p->v + 1) : e.p->v;
-                        e   = makeDDNode(idx, std::array{e, Edge<Node>::zero, Edge<Node>::zero, e});
+                    // without index shift, the levels of x above those of y are kept
+                    const auto levels = incIdx ? static_cast<Qubit>(x.p->v + 1) : static_cast<Qubit>(x.p->v - y.p->v);
+                    auto       e      = y;
+                    for (Qubit i = 0; i < levels; ++i) {
+                        e = makeDDNode(static_cast<Qubit>(e.p->v + 1), std::array{e, Edge<Node>::zero, Edge<Node>::zero, e});
                     }
 
-                    e.w = cn.getCached(CTEntry::val(y.w.r), CTEntry::val(y.w.i));
+                    e.w = cn.mulCached(x.w, y.w);
                     computeTable.insert(x, y, {e.p, e.w});
                     return e;
                 }
-- 
2.43.0


From 44e53534469703e6c6e7725b07ec8bcb62843e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 06/27] fix: ancilla and garbage reduction must not confuse
 successors that differ in their weight

---
 include/dd/Package.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 0633514..78a301f 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -2336,7 +2336,7 @@ namespace dd {
                     } else {
                         edges[i] = reduceAncillaeRecursion(f.p->e[i], ancillary, lowerbound, regular);
                         for (auto j = i + 1; j < NEDGE; ++j) {
-                            if (e.p->e[i].p == e.p->e[j].p) {
+                            if (e.p->e[i] == e.p->e[j]) {
                                 edges[j] = edges[i];
                                 handled.set(j);
                             }
@@ -2382,7 +2382,7 @@ namespace dd {
                     } else {
                         edges[i] = reduceGarbageRecursion(f.p->e[i], garbage, lowerbound);
                         for (auto j = i + 1; j < RADIX; ++j) {
-                            if (e.p->e[i].p == e.p->e[j].p) {
+                            if (e.p->e[i] == e.p->e[j]) {
                                 edges[j] = edges[i];
                                 handled.set(j);
                             }
@@ -2435,7 +2435,7 @@ namespace dd {
                     } else {
                         edges[i] = reduceGarbageRecursion(f.p->e[i], garbage, lowerbound, regular);
                         for (auto j = i + 1; j < NEDGE; ++j) {
-                            if (e.p->e[i].p == e.p->e[j].p) {
+                            if (e.p->e[i] == e.p->e[j]) {
                                 edges[j] = edges[i];
                                 handled.set(j);
                             }
-- 
2.43.0


From bde44630f55041e227e46498e0a3d9125fc16e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 07/27] fix: ancilla and garbage reduction must keep the weight
 of a node that is reduced itself

---
 include/dd/Package.hpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 78a301f..cdfcb95 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -2320,6 +2320,14 @@ namespace dd {
         }
 
     private:
+        // weight of a reduced node: the factors of the node before and after its own reduction
+        Complex reducedWeight(const Complex& a, const Complex& b) {
+            auto       c = cn.mulCached(a, b);
+            const auto r = cn.lookup(c);
+            cn.returnToCache(c);
+            return r;
+        }
+
         mEdge reduceAncillaeRecursion(mEdge& e, const std::vector<bool>& ancillary, Qubit lowerbound, bool regular = true) {
             if (e.p->v < lowerbound) {
                 return e;
@@ -2347,15 +2355,20 @@ namespace dd {
             }
             f = makeDDNode(f.p->v, edges);
 
+            // weight of the node before it is reduced itself
+            const auto w = f.w;
+
             // something to reduce for this qubit
             if (f.p->v >= 0 && ancillary[static_cast<std::size_t>(f.p->v)]) {
                 if (regular) {
                     if (f.p->e[1].w != Complex::zero || f.p->e[3].w != Complex::zero) {
                         f = makeDDNode(f.p->v, std::array{f.p->e[0], mEdge::zero, f.p->e[2], mEdge::zero});
+                        f.w = reducedWeight(f.w, w);
                     }
                 } else {
                     if (f.p->e[2].w != Complex::zero || f.p->e[3].w != Complex::zero) {
                         f = makeDDNode(f.p->v, std::array{f.p->e[0], f.p->e[1], mEdge::zero, mEdge::zero});
+                        f.w = reducedWeight(f.w, w);
                     }
                 }
             }
@@ -2393,6 +2406,9 @@ namespace dd {
             }
             f = makeDDNode(f.p->v, edges);
 
+            // weight of the node before it is reduced itself
+            const auto w = f.w;
+
             // something to reduce for this qubit
             if (f.p->v >= 0 && garbage[static_cast<std::size_t>(f.p->v)]) {
                 if (f.p->e[1].w != Complex::zero) {
@@ -2405,6 +2421,7 @@ namespace dd {
                         g = f.p->e[0];
                     }
                     f = makeDDNode(e.p->v, std::array{g, vEdge::zero});
+                    f.w = reducedWeight(f.w, w);
                 }
             }
 
@@ -2446,6 +2463,9 @@ namespace dd {
             }
             f = makeDDNode(f.p->v, edges);
 
+            // weight of the node before it is reduced itself
+            const auto w = f.w;
+
             // something to reduce for this qubit
             if (f.p->v >= 0 && garbage[static_cast<std::size_t>(f.p->v)]) {
                 if (regular) {
@@ -2467,6 +2487,7 @@ namespace dd {
                             h = f.p->e[1];
                         }
                         f = makeDDNode(e.p->v, std::array{g, h, mEdge::zero, mEdge::zero});
+                        f.w = reducedWeight(f.w, w);
                     }
                 } else {
                     if (f.p->e[1].w != Complex::zero || f.p->e[3].w != Complex::zero) {
@@ -2487,6 +2508,7 @@ namespace dd {
                             h = f.p->e[2];
                         }
                         f = makeDDNode(e.p->v, std::array{g, mEdge::zero, h, mEdge::zero});
+                        f.w = reducedWeight(f.w, w);
                     }
                 }
             }
-- 
2.43.0


From 7d5a64edeb1f00ae9eb14a569d3bf8726e312e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 08/27] fix: garbage reduction must not drop the phase of
 weights of magnitude one

---
 include/dd/Package.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index cdfcb95..cf07326 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -2430,7 +2430,7 @@ namespace dd {
             cn.returnToCache(c);
 
             // Quick-fix for normalization bug
-            if (ComplexNumbers::mag2(f.w) > 1.0) {
+            if (ComplexNumbers::mag2(f.w) > 1.0 + ComplexTable<>::tolerance()) {
                 f.w = Complex::one;
             }
 
@@ -2518,7 +2518,7 @@ namespace dd {
             cn.returnToCache(c);
 
             // Quick-fix for normalization bug
-            if (ComplexNumbers::mag2(f.w) > 1.0) {
+            if (ComplexNumbers::mag2(f.w) > 1.0 + ComplexTable<>::tolerance()) {
                 f.w = Complex::one;
             }
 
-- 
2.43.0


From 7739c60ee8f6bd7b55781ce0e53454db3aedfc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:22 +0000
Subject: [PATCH 09/27] fix: transfer must visit every successor and must not
 run past its stack

---
 include/dd/Package.hpp | 80 ++++++++++++++----------------------------
 1 file changed, 26 insertions(+), 54 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index cf07326..9651ae7 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -2903,74 +2903,46 @@ namespace dd {
         // transfers a decision diagram from another package to this package
         template<class Edge>
         Edge transfer(Edge& original) {
-            // POST ORDER TRAVERSAL USING ONE STACK   https://www.geeksforgeeks.org/iterative-postorder-traversal-using-stack/
+            // iterative post-order traversal: a node is rebuilt once all of its successors have been
             Edge              root{};
             std::stack<Edge*> stack;
 
             std::unordered_map<decltype(original.p), decltype(original.p)> mappedNode{};
 
-            Edge* currentEdge = &original;
-            if (!currentEdge->isTerminal()) {
+            if (!original.isTerminal()) {
                 constexpr std::size_t n = std::tuple_size_v<decltype(original.p->e)>;
-                do {
-                    while (currentEdge != nullptr && !currentEdge->isTerminal()) {
-                        for (std::size_t i = n - 1; i > 0; --i) {
-                            auto& edge = currentEdge->p->e[i];
-                            if (edge.isTerminal()) {
-                                continue;
-                            }
-                            if (edge.w.approximatelyZero()) {
-                                continue;
-                            }
-                            if (mappedNode.find(edge.p) != mappedNode.end()) {
-                                continue;
-                            }
-
-                            // non-zero edge to be included
-                            stack.push(&edge);
-                        }
-                        stack.push(currentEdge);
-                        currentEdge = &currentEdge->p->e[0];
+                stack.push(&original);
+                while (!stack.empty()) {
+                    auto* currentEdge = stack.top();
+                    if (mappedNode.find(currentEdge->p) != mappedNode.end()) {
+                        stack.pop();
+                        continue;
                     }
-                    currentEdge = stack.top();
-                    stack.pop();
 
                     bool hasChild = false;
-                    for (std::size_t i = 1; i < n && !hasChild; ++i) {
-                        auto& edge = currentEdge->p->e[i];
-                        if (edge.w.approximatelyZero()) {
-                            continue;
-                        }
-                        if (mappedNode.find(edge.p) != mappedNode.end()) {
-                            continue;
+                    for (auto& edge: currentEdge->p->e) {
+                        if (!edge.isTerminal() && mappedNode.find(edge.p) == mappedNode.end()) {
+                            stack.push(&edge);
+                            hasChild = true;
                         }
-                        hasChild = edge.p == stack.top()->p;
                     }
-
                     if (hasChild) {
-                        Edge* temp = stack.top();
-                        stack.pop();
-                        stack.push(currentEdge);
-                        currentEdge = temp;
-                    } else {
-                        if (mappedNode.find(currentEdge->p) != mappedNode.end()) {
-                            currentEdge = nullptr;
-                            continue;
-                        }
-                        std::array<Edge, n> edges{};
-                        for (std::size_t i = 0; i < n; i++) {
-                            if (currentEdge->p->e[i].isTerminal()) {
-                                edges[i].p = currentEdge->p->e[i].p;
-                            } else {
-                                edges[i].p = mappedNode[currentEdge->p->e[i].p];
-                            }
-                            edges[i].w = cn.lookup(currentEdge->p->e[i].w);
+                        continue;
+                    }
+
+                    std::array<Edge, n> edges{};
+                    for (std::size_t i = 0; i < n; i++) {
+                        if (currentEdge->p->e[i].isTerminal()) {
+                            edges[i].p = currentEdge->p->e[i].p;
+                        } else {
+                            edges[i].p = mappedNode[currentEdge->p->e[i].p];
                         }
-                        root                       = makeDDNode(currentEdge->p->v, edges);
-                        mappedNode[currentEdge->p] = root.p;
-                        currentEdge                = nullptr;
+                        edges[i].w = cn.lookup(currentEdge->p->e[i].w);
                     }
-                } while (!stack.empty());
+                    root                       = makeDDNode(currentEdge->p->v, edges);
+                    mappedNode[currentEdge->p] = root.p;
+                    stack.pop();
+                }
 
                 auto w = cn.getCached(dd::ComplexTable<>::Entry::val(original.w.r), dd::ComplexTable<>::Entry::val(original.w.i));
                 dd::ComplexNumbers::mul(w, root.w, w);
-- 
2.43.0


From 2d07baf5fbb58d95b4249c93c26f14fabc8f249b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:22 +0000
Subject: [PATCH 10/27] fix: no negative zero when a number exactly as small as
 the tolerance is looked up

---
 include/dd/ComplexNumbers.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dd/ComplexNumbers.hpp b/include/dd/ComplexNumbers.hpp
index 6a45318..dee28a7 100644
--- a/include/dd/ComplexNumbers.hpp
+++ b/include/dd/ComplexNumbers.hpp
@@ -160,7 +160,7 @@ namespace dd {
             if (signR) {
                 auto absr = std::abs(r);
                 // if absolute value is close enough to zero, just return the zero entry (avoiding -0.0)
-                if (absr < decltype(complexTable)::tolerance()) {
+                if (absr <= decltype(complexTable)::tolerance()) {
                     ret.r = &decltype(complexTable)::zero;
                 } else {
                     ret.r = CTEntry::getNegativePointer(complexTable.lookup(absr));
@@ -173,7 +173,7 @@ namespace dd {
             if (signI) {
                 auto absi = std::abs(i);
                 // if absolute value is close enough to zero, just return the zero entry (avoiding -0.0)
-                if (absi < decltype(complexTable)::tolerance()) {
+                if (absi <= decltype(complexTable)::tolerance()) {
                     ret.i = &decltype(complexTable)::zero;
                 } else {
                     ret.i = CTEntry::getNegativePointer(complexTable.lookup(absi));
-- 
2.43.0


From c315b0d4769fe776ab5dff2d484ca11dd57efcc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:22 +0000
Subject: [PATCH 11/27] fix: the reference count of a number does not depend on
 its sign

---
 include/dd/ComplexTable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dd/ComplexTable.hpp b/include/dd/ComplexTable.hpp
index 0f29cb1..6daf06d 100644
--- a/include/dd/ComplexTable.hpp
+++ b/include/dd/ComplexTable.hpp
@@ -73,7 +73,7 @@ namespace dd {
 
             [[nodiscard]] static inline RefCount ref(const Entry* e) {
                 if (isNegativePointer(e)) {
-                    return -getAlignedPointer(e)->refCount;
+                    return getAlignedPointer(e)->refCount;
                 }
                 return e->refCount;
             }
-- 
2.43.0


From 72df1f0967d85b2f61f9061858dd906521c8652a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:51 +0000
Subject: [PATCH 12/27] fix: a vanishing product of density matrices must not
 be cached as a zero matrix

---
 include/dd/Package.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 9651ae7..de431a1 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -1742,7 +1742,11 @@ namespace dd {
             //                std::cout << "Caching error detected in mul" << std::endl;
             //            }
 
-            computeTable.insert(xCopy, yCopy, {e.p, e.w});
+            // only one of the off-diagonal blocks is computed for density matrices. So, a product that vanishes in this
+            // representation does not need to be zero as a matrix and, having no node, it could not be told apart later.
+            if (!generateDensityMatrix || !e.isTerminal()) {
+                computeTable.insert(xCopy, yCopy, {e.p, e.w});
+            }
 
             if (!e.w.exactlyZero() && (x.w.exactlyOne() || !y.w.exactlyZero())) {
                 if (e.w.exactlyOne()) {
-- 
2.43.0


From bc501041f20da778c3e0f1dedca7c1a61bd4cdb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:45 +0000
Subject: [PATCH 13/27] fix: density matrix products of differently interpreted
 paths must not share cache entries

---
 include/dd/ComputeTable.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/dd/ComputeTable.hpp b/include/dd/ComputeTable.hpp
index 7ff8fea..42e8bd7 100644
--- a/include/dd/ComputeTable.hpp
+++ b/include/dd/ComputeTable.hpp
@@ -30,6 +30,8 @@ namespace dd {
             LeftOperandType  leftOperand;
             RightOperandType rightOperand;
             ResultType       result;
+            std::uint8_t     leftFlags  = 0; // only used for density matrices
+            std::uint8_t     rightFlags = 0; // only used for density matrices
         };
 
         static constexpr std::size_t MASK = NBUCKET - 1;
@@ -47,6 +49,10 @@ namespace dd {
         void insert(const LeftOperandType& leftOperand, const RightOperandType& rightOperand, const ResultType& result) {
             const auto key = hash(leftOperand, rightOperand);
             table[key]     = {leftOperand, rightOperand, result};
+            if constexpr (std::is_same_v<RightOperandType, dEdge>) {
+                table[key].leftFlags  = static_cast<std::uint8_t>(dNode::getDensityMatrixTempFlags(leftOperand.p->flags));
+                table[key].rightFlags = static_cast<std::uint8_t>(dNode::getDensityMatrixTempFlags(rightOperand.p->flags));
+            }
             ++count;
         }
 
@@ -66,6 +72,11 @@ namespace dd {
             }
 
             if constexpr (std::is_same_v<RightOperandType, dEdge>) {
+                // The same node denotes different matrices depending on how its path is to be interpreted
+                if (entry.leftFlags != dNode::getDensityMatrixTempFlags(leftOperand.p->flags) ||
+                    entry.rightFlags != dNode::getDensityMatrixTempFlags(rightOperand.p->flags)) {
+                    return result;
+                }
                 // Since density matrices are reduced representations of matrices, a density matrix may not be returned when a matrix is required and vice versa
                 if (dNode::isDensityMatrixNode(entry.result.p->flags) != useDensityMatrix) {
                     return result;
-- 
2.43.0


From 26e1438bcab2cf0d382c34e24757fac0c49139a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:12 +0000
Subject: [PATCH 14/27] fix: build controlled two-qubit gates on an offset
 qubit range from that range's start

---
 include/dd/Package.hpp | 112 ++++++++++++++++++++---------------------
 1 file changed, 56 insertions(+), 56 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index de431a1..8e8c599 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -635,7 +635,7 @@ namespace dd {
             mEdge e = makeGateDD(Xmat, n, c, target1, start);
             c.erase(Control{target0});
             c.insert(Control{target1});
-            e = multiply(e, multiply(makeGateDD(Xmat, n, c, target0, start), e));
+            e = multiply(e, multiply(makeGateDD(Xmat, n, c, target0, start), e, static_cast<Qubit>(start)), static_cast<Qubit>(start));
             return e;
         }
 
@@ -643,7 +643,7 @@ namespace dd {
             auto c = controls;
             c.insert(Control{target1});
             mEdge e = makeGateDD(Xmat, n, c, target0, start);
-            e       = multiply(makeGateDD(Xmat, n, controls, target1, start), e);
+            e       = multiply(makeGateDD(Xmat, n, controls, target1, start), e, static_cast<Qubit>(start));
             return e;
         }
 
@@ -651,7 +651,7 @@ namespace dd {
             mEdge e = makeGateDD(Xmat, n, controls, target1, start);
             auto  c = controls;
             c.insert(Control{target1});
-            e = multiply(makeGateDD(Xmat, n, c, target0, start), e);
+            e = multiply(makeGateDD(Xmat, n, c, target0, start), e, static_cast<Qubit>(start));
             return e;
         }
 
@@ -660,15 +660,15 @@ namespace dd {
         }
         mEdge makeiSWAPDD(const QubitCount n, const Controls& controls, const Qubit target0, const Qubit target1, const std::size_t start = 0) {
             mEdge e = makeGateDD(Smat, n, controls, target1, start);              // S q[1]
-            e       = multiply(e, makeGateDD(Smat, n, controls, target0, start)); // S q[0]
-            e       = multiply(e, makeGateDD(Hmat, n, controls, target0, start)); // H q[0]
+            e       = multiply(e, makeGateDD(Smat, n, controls, target0, start), static_cast<Qubit>(start)); // S q[0]
+            e       = multiply(e, makeGateDD(Hmat, n, controls, target0, start), static_cast<Qubit>(start)); // H q[0]
             auto c  = controls;
             c.insert(Control{target0});
-            e = multiply(e, makeGateDD(Xmat, n, c, target1, start)); // CX q[0], q[1]
+            e = multiply(e, makeGateDD(Xmat, n, c, target1, start), static_cast<Qubit>(start)); // CX q[0], q[1]
             c.erase(Control{target0});
             c.insert(Control{target1});
-            e = multiply(e, makeGateDD(Xmat, n, c, target0, start));        // CX q[1], q[0]
-            e = multiply(e, makeGateDD(Hmat, n, controls, target1, start)); // H q[1]
+            e = multiply(e, makeGateDD(Xmat, n, c, target0, start), static_cast<Qubit>(start));        // CX q[1], q[0]
+            e = multiply(e, makeGateDD(Hmat, n, controls, target1, start), static_cast<Qubit>(start)); // H q[1]
             return e;
         }
 
@@ -679,13 +679,13 @@ namespace dd {
             mEdge e = makeGateDD(Hmat, n, controls, target1, start); // H q[1]
             auto  c = controls;
             c.insert(Control{target1});
-            e = multiply(e, makeGateDD(Xmat, n, c, target0, start)); // CX q[1], q[0]
+            e = multiply(e, makeGateDD(Xmat, n, c, target0, start), static_cast<Qubit>(start)); // CX q[1], q[0]
             c.erase(Control{target1});
             c.insert(Control{target0});
-            e = multiply(e, makeGateDD(Xmat, n, c, target1, start));           // CX q[0], q[1]
-            e = multiply(e, makeGateDD(Hmat, n, controls, target0, start));    // H q[0]
-            e = multiply(e, makeGateDD(Sdagmat, n, controls, target0, start)); // Sdag q[0]
-            e = multiply(e, makeGateDD(Sdagmat, n, controls, target1, start)); // Sdag q[1]
+            e = multiply(e, makeGateDD(Xmat, n, c, target1, start), static_cast<Qubit>(start));           // CX q[0], q[1]
+            e = multiply(e, makeGateDD(Hmat, n, controls, target0, start), static_cast<Qubit>(start));    // H q[0]
+            e = multiply(e, makeGateDD(Sdagmat, n, controls, target0, start), static_cast<Qubit>(start)); // Sdag q[0]
+            e = multiply(e, makeGateDD(Sdagmat, n, controls, target1, start), static_cast<Qubit>(start)); // Sdag q[1]
             return e;
         }
 
@@ -698,7 +698,7 @@ namespace dd {
             mEdge e = makeGateDD(Xmat, n, c, target1, start);
             c.erase(Control{target0});
             c.insert(Control{target1});
-            e = multiply(e, makeGateDD(Xmat, n, c, target0, start));
+            e = multiply(e, makeGateDD(Xmat, n, c, target0, start), static_cast<Qubit>(start));
             return e;
         }
 
@@ -710,9 +710,9 @@ namespace dd {
             c.insert(Control{target0});
             auto e = makeGateDD(Xmat, n, c, target1, start);
             c.erase(Control{target0});
-            e = multiply(e, makeGateDD(RZmat(theta), n, c, target1, start));
+            e = multiply(e, makeGateDD(RZmat(theta), n, c, target1, start), static_cast<Qubit>(start));
             c.insert(Control{target0});
-            e = multiply(e, makeGateDD(Xmat, n, c, target1, start));
+            e = multiply(e, makeGateDD(Xmat, n, c, target1, start), static_cast<Qubit>(start));
             return e;
         }
 
@@ -722,10 +722,10 @@ namespace dd {
         mEdge makeRYYDD(const QubitCount n, const Controls& controls, const Qubit target0, const Qubit target1, const fp theta, const std::size_t start = 0) {
             // no controls are necessary on the RX gates since they cancel if the controls are 0.
             auto e = makeGateDD(RXmat(PI_2), n, Controls{}, target0, start);
-            e      = multiply(e, makeGateDD(RXmat(PI_2), n, Controls{}, target1, start));
-            e      = multiply(e, makeRZZDD(n, controls, target0, target1, theta, start));
-            e      = multiply(e, makeGateDD(RXmat(-PI_2), n, Controls{}, target1, start));
-            e      = multiply(e, makeGateDD(RXmat(-PI_2), n, Controls{}, target0, start));
+            e      = multiply(e, makeGateDD(RXmat(PI_2), n, Controls{}, target1, start), static_cast<Qubit>(start));
+            e      = multiply(e, makeRZZDD(n, controls, target0, target1, theta, start), static_cast<Qubit>(start));
+            e      = multiply(e, makeGateDD(RXmat(-PI_2), n, Controls{}, target1, start), static_cast<Qubit>(start));
+            e      = multiply(e, makeGateDD(RXmat(-PI_2), n, Controls{}, target0, start), static_cast<Qubit>(start));
             return e;
         }
 
@@ -735,10 +735,10 @@ namespace dd {
         mEdge makeRXXDD(const QubitCount n, const Controls& controls, const Qubit target0, const Qubit target1, const fp theta, const std::size_t start = 0) {
             // no controls are necessary on the H gates since they cancel if the controls are 0.
             auto e = makeGateDD(Hmat, n, Controls{}, target0, start);
-            e      = multiply(e, makeGateDD(Hmat, n, Controls{}, target1, start));
-            e      = multiply(e, makeRZZDD(n, controls, target0, target1, theta, start));
-            e      = multiply(e, makeGateDD(Hmat, n, Controls{}, target1, start));
-            e      = multiply(e, makeGateDD(Hmat, n, Controls{}, target0, start));
+            e      = multiply(e, makeGateDD(Hmat, n, Controls{}, target1, start), static_cast<Qubit>(start));
+            e      = multiply(e, makeRZZDD(n, controls, target0, target1, theta, start), static_cast<Qubit>(start));
+            e      = multiply(e, makeGateDD(Hmat, n, Controls{}, target1, start), static_cast<Qubit>(start));
+            e      = multiply(e, makeGateDD(Hmat, n, Controls{}, target0, start), static_cast<Qubit>(start));
             return e;
         }
 
@@ -748,8 +748,8 @@ namespace dd {
         mEdge makeRZXDD(const QubitCount n, const Controls& controls, const Qubit target0, const Qubit target1, const fp theta, const std::size_t start = 0) {
             // no controls are necessary on the H gates since they cancel if the controls are 0.
             auto e = makeGateDD(Hmat, n, Controls{}, target1, start);
-            e      = multiply(e, makeRZZDD(n, controls, target0, target1, theta, start));
-            e      = multiply(e, makeGateDD(Hmat, n, Controls{}, target1, start));
+            e      = multiply(e, makeRZZDD(n, controls, target0, target1, theta, start), static_cast<Qubit>(start));
+            e      = multiply(e, makeGateDD(Hmat, n, Controls{}, target1, start), static_cast<Qubit>(start));
             return e;
         }
 
@@ -758,8 +758,8 @@ namespace dd {
         }
         mEdge makeECRDD(const QubitCount n, const Controls& controls, const Qubit target0, const Qubit target1, const std::size_t start = 0) {
             auto e = makeRZXDD(n, controls, target0, target1, -PI_4, start);
-            e      = multiply(e, makeGateDD(Xmat, n, controls, target0, start));
-            e      = multiply(e, makeRZXDD(n, controls, target0, target1, PI_4, start));
+            e      = multiply(e, makeGateDD(Xmat, n, controls, target0, start), static_cast<Qubit>(start));
+            e      = multiply(e, makeRZXDD(n, controls, target0, target1, PI_4, start), static_cast<Qubit>(start));
             return e;
         }
 
@@ -768,21 +768,21 @@ namespace dd {
         }
         mEdge makeXXMinusYYDD(const QubitCount n, const Controls& controls, const Qubit target0, const Qubit target1, const fp theta, const fp beta = 0., const std::size_t start = 0) {
             auto e = makeGateDD(RZmat(-beta), n, Controls{}, target1, start);
-            e      = multiply(e, makeGateDD(RZmat(-PI_2), n, Controls{}, target0, start));
-            e      = multiply(e, makeGateDD(SXmat, n, Controls{}, target0, start));
-            e      = multiply(e, makeGateDD(RZmat(PI_2), n, Controls{}, target0, start));
-            e      = multiply(e, makeGateDD(Smat, n, Controls{}, target1, start));
-            e      = multiply(e, makeGateDD(Xmat, n, Control{target0}, target1, start));
+            e      = multiply(e, makeGateDD(RZmat(-PI_2), n, Controls{}, target0, start), static_cast<Qubit>(start));
+            e      = multiply(e, makeGateDD(SXmat, n, Controls{}, target0, start), static_cast<Qubit>(start));
+            e      = multiply(e, makeGateDD(RZmat(PI_2), n, Controls{}, target0, start), static_cast<Qubit>(start));
+            e      = multiply(e, makeGateDD(Smat, n, Controls{}, target1, start), static_cast<Qubit>(start));
+            e      = multiply(e, makeGateDD(Xmat, n, Control{target0}, target1, start), static_cast<Qubit>(start));
             // only the following two gates need to be controlled by the controls since the other gates cancel if the controls are 0.
-            e = multiply(e, makeGateDD(RYmat(-theta / 2.), n, controls, target0, start));
-            e = multiply(e, makeGateDD(RYmat(theta / 2.), n, controls, target1, start));
-
-            e = multiply(e, makeGateDD(Xmat, n, Control{target0}, target1, start));
-            e = multiply(e, makeGateDD(Sdagmat, n, Controls{}, target1, start));
-            e = multiply(e, makeGateDD(RZmat(-PI_2), n, Controls{}, target0, start));
-            e = multiply(e, makeGateDD(SXdagmat, n, Controls{}, target0, start));
-            e = multiply(e, makeGateDD(RZmat(PI_2), n, Controls{}, target0, start));
-            e = multiply(e, makeGateDD(RZmat(beta), n, Controls{}, target1, start));
+            e = multiply(e, makeGateDD(RYmat(-theta / 2.), n, controls, target0, start), static_cast<Qubit>(start));
+            e = multiply(e, makeGateDD(RYmat(theta / 2.), n, controls, target1, start), static_cast<Qubit>(start));
+
+            e = multiply(e, makeGateDD(Xmat, n, Control{target0}, target1, start), static_cast<Qubit>(start));
+            e = multiply(e, makeGateDD(Sdagmat, n, Controls{}, target1, start), static_cast<Qubit>(start));
+            e = multiply(e, makeGateDD(RZmat(-PI_2), n, Controls{}, target0, start), static_cast<Qubit>(start));
+            e = multiply(e, makeGateDD(SXdagmat, n, Controls{}, target0, start), static_cast<Qubit>(start));
+            e = multiply(e, makeGateDD(RZmat(PI_2), n, Controls{}, target0, start), static_cast<Qubit>(start));
+            e = multiply(e, makeGateDD(RZmat(beta), n, Controls{}, target1, start), static_cast<Qubit>(start));
             return e;
         }
 
@@ -791,21 +791,21 @@ namespace dd {
         }
         mEdge makeXXPlusYYDD(const QubitCount n, const Controls& controls, const Qubit target0, const Qubit target1, const fp theta, const fp beta = 0., const std::size_t start = 0) {
             auto e = makeGateDD(RZmat(beta), n, Controls{}, target1, start);
-            e      = multiply(e, makeGateDD(RZmat(-PI_2), n, Controls{}, target0, start));
-            e      = multiply(e, makeGateDD(SXmat, n, Controls{}, target0, start));
-            e      = multiply(e, makeGateDD(RZmat(PI_2), n, Controls{}, target0, start));
-            e      = multiply(e, makeGateDD(Smat, n, Controls{}, target1, start));
-            e      = multiply(e, makeGateDD(Xmat, n, Control{target0}, target1, start));
+            e      = multiply(e, makeGateDD(RZmat(-PI_2), n, Controls{}, target0, start), static_cast<Qubit>(start));
+            e      = multiply(e, makeGateDD(SXmat, n, Controls{}, target0, start), static_cast<Qubit>(start));
+            e      = multiply(e, makeGateDD(RZmat(PI_2), n, Controls{}, target0, start), static_cast<Qubit>(start));
+            e      = multiply(e, makeGateDD(Smat, n, Controls{}, target1, start), static_cast<Qubit>(start));
+            e      = multiply(e, makeGateDD(Xmat, n, Control{target0}, target1, start), static_cast<Qubit>(start));
             // only the following two gates need to be controlled by the controls since the other gates cancel if the controls are 0.
-            e = multiply(e, makeGateDD(RYmat(theta / 2.), n, controls, target0, start));
-            e = multiply(e, makeGateDD(RYmat(theta / 2.), n, controls, target1, start));
-
-            e = multiply(e, makeGateDD(Xmat, n, Control{target0}, target1, start));
-            e = multiply(e, makeGateDD(Sdagmat, n, Controls{}, target1, start));
-            e = multiply(e, makeGateDD(RZmat(-PI_2), n, Controls{}, target0, start));
-            e = multiply(e, makeGateDD(SXdagmat, n, Controls{}, target0, start));
-            e = multiply(e, makeGateDD(RZmat(PI_2), n, Controls{}, target0, start));
-            e = multiply(e, makeGateDD(RZmat(-beta), n, Controls{}, target1, start));
+            e = multiply(e, makeGateDD(RYmat(theta / 2.), n, controls, target0, start), static_cast<Qubit>(start));
+            e = multiply(e, makeGateDD(RYmat(theta / 2.), n, controls, target1, start), static_cast<Qubit>(start));
+
+            e = multiply(e, makeGateDD(Xmat, n, Control{target0}, target1, start), static_cast<Qubit>(start));
+            e = multiply(e, makeGateDD(Sdagmat, n, Controls{}, target1, start), static_cast<Qubit>(start));
+            e = multiply(e, makeGateDD(RZmat(-PI_2), n, Controls{}, target0, start), static_cast<Qubit>(start));
+            e = multiply(e, makeGateDD(SXdagmat, n, Controls{}, target0, start), static_cast<Qubit>(start));
+            e = multiply(e, makeGateDD(RZmat(PI_2), n, Controls{}, target0, start), static_cast<Qubit>(start));
+            e = multiply(e, makeGateDD(RZmat(-beta), n, Controls{}, target1, start), static_cast<Qubit>(start));
             return e;
         }
 
-- 
2.43.0


From 9c2ffb36b1d46e647ab1b473cf9ad743278ca7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:49 +0000
Subject: [PATCH 15/27] fix: two-qubit gates on a range that ends with the last
 possible qubit

---
 include/dd/Package.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 8e8c599..a00ade5 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -619,8 +619,9 @@ namespace dd {
             auto e = makeDDNode(z, em0);
 
             // process lines above the larger target (by creating identity structures)
-            for (++z; z < static_cast<Qubit>(n + start); ++z) {
-                e = makeDDNode(z, std::array{e, mEdge::zero, mEdge::zero, e});
+            // (n + start may exceed the largest value of a `Qubit`)
+            for (; z < static_cast<Qubit>(n - 1 + start); ++z) {
+                e = makeDDNode(static_cast<Qubit>(z + 1), std::array{e, mEdge::zero, mEdge::zero, e});
             }
 
             return e;
-- 
2.43.0


From a382db69f6b23cc4b7dee7a84afc5d9ec25db9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:22 +0000
Subject: [PATCH 16/27] fix: measuring all of 128 qubits must not overflow the
 qubit index

---
 include/dd/Package.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index a00ade5..5e75664 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -1143,15 +1143,15 @@ namespace dd {
                 vEdge                e = vEdge::one;
                 std::array<vEdge, 2> edges{};
 
-                for (Qubit p = 0; p < numberOfQubits; p++) {
-                    if (result[static_cast<std::size_t>(p)] == '0') {
+                for (std::size_t p = 0; p < numberOfQubits; p++) {
+                    if (result[p] == '0') {
                         edges[0] = e;
                         edges[1] = vEdge::zero;
                     } else {
                         edges[0] = vEdge::zero;
                         edges[1] = e;
                     }
-                    e = makeDDNode(p, edges, false);
+                    e = makeDDNode(static_cast<Qubit>(p), edges, false);
                 }
                 incRef(e);
                 rootEdge = e;
-- 
2.43.0


From d18047b34d246fe09a093a74023ce02adb3e67f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:23 +0000
Subject: [PATCH 17/27] fix: keep the predefined number 1/2 when the table of
 numbers is cleared

---
 include/dd/ComplexTable.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/dd/ComplexTable.hpp b/include/dd/ComplexTable.hpp
index 6daf06d..e88f4b4 100644
--- a/include/dd/ComplexTable.hpp
+++ b/include/dd/ComplexTable.hpp
@@ -388,6 +388,9 @@ namespace dd {
             gcCalls = 0;
             gcRuns  = 0;
             gcLimit = INITIAL_GC_LIMIT;
+
+            // 1/2 always stays in the table (see constructor)
+            lookup(0.5L)->refCount++;
         };
 
         void print() {
-- 
2.43.0


From c0c1ba2b658202a7e0d877f206ae1d17462451ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:27 +0000
Subject: [PATCH 18/27] fix: recognise fractions of large numbers without
 counting up to them

getLowestFraction needed one step per unit of the integer part, so printing
a number like 1e12 did not come to an end.
---
 include/dd/ComplexValue.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/dd/ComplexValue.hpp b/include/dd/ComplexValue.hpp
index 00d9444..a9c4773 100644
--- a/include/dd/ComplexValue.hpp
+++ b/include/dd/ComplexValue.hpp
@@ -73,6 +73,18 @@ namespace dd {
         static auto getLowestFraction(const double x, const std::uint64_t maxDenominator = 1U << 10, const fp tol = dd::ComplexTable<>::tolerance()) {
             assert(x >= 0.);
 
+            // the search below takes as many steps as the integer part is large
+            if (x > 1.) {
+                constexpr fp largest = 1e15; // beyond, not even halves are distinguishable
+                if (!(x < largest)) {
+                    return std::pair<std::uint64_t, std::uint64_t>{0U, 1U};
+                }
+                const auto whole    = std::floor(x);
+                auto       fraction = getLowestFraction(x - whole, maxDenominator, tol);
+                fraction.first += static_cast<std::uint64_t>(whole) * fraction.second;
+                return fraction;
+            }
+
             std::pair<std::uint64_t, std::uint64_t> lowerBound{0U, 1U};
             std::pair<std::uint64_t, std::uint64_t> upperBound{1U, 0U};
 
-- 
2.43.0


From 9520da7643228f7f035774a512225f509e098919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:27 +0000
Subject: [PATCH 19/27] fix: label exported nodes by their whole address

The labels were the lower bits of the addresses, so different nodes of a
diagram spread over more than 2 MiB could share a label and were merged in
the exported graph.
---
 include/dd/Export.hpp | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/include/dd/Export.hpp b/include/dd/Export.hpp
index eb3c2b5..e8caded 100644
--- a/include/dd/Export.hpp
+++ b/include/dd/Export.hpp
@@ -162,7 +162,7 @@ namespace dd {
         os << "digraph \"DD\" {graph[];node[shape=plain];edge[arrowhead=none]\n";
         os << "root [label=\"\",shape=point,style=invis]\n";
         os << "t [label=<<font point-size=\"20\">1</font>>,shape=box,tooltip=\"1\",width=0.3,height=0.3]\n";
-        auto toplabel = (reinterpret_cast<std::uintptr_t>(e.p) & 0x001fffffU) >> 1U;
+        auto toplabel = reinterpret_cast<std::uintptr_t>(e.p);
         os << "root->";
         if (e.isTerminal()) {
             os << "t";
@@ -187,7 +187,7 @@ namespace dd {
         os << "root [label=\"\",shape=point,style=invis]\n";
         os << "t [label=<<font point-size=\"20\">1</font>>,shape=box,tooltip=\"1\",width=0.3,height=0.3]\n";
 
-        auto toplabel = (reinterpret_cast<std::uintptr_t>(e.p) & 0x001fffffU) >> 1U;
+        auto toplabel = reinterpret_cast<std::uintptr_t>(e.p);
         auto mag      = thicknessFromMagnitude(e.w);
         auto color    = colorFromPhase(e.w);
         os << "root->";
@@ -209,7 +209,7 @@ namespace dd {
         os << "root [label=\"\",shape=point,style=invis]\n";
         os << "t [label=<<font point-size=\"20\">1</font>>,shape=box,tooltip=\"1\",width=0.3,height=0.3]\n";
 
-        auto toplabel = (reinterpret_cast<std::uintptr_t>(e.p) & 0x001fffffU) >> 1U;
+        auto toplabel = reinterpret_cast<std::uintptr_t>(e.p);
         auto mag      = thicknessFromMagnitude(e.w);
         auto color    = colorFromPhase(e.w);
         os << "root->";
@@ -253,7 +253,7 @@ namespace dd {
     }
 
     [[maybe_unused]] static std::ostream& modernNode(const mEdge& e, std::ostream& os, bool formatAsPolar = true) {
-        auto nodelabel = (reinterpret_cast<std::uintptr_t>(e.p) & 0x001fffffU) >> 1U; // this allows for 2^20 (roughly 1e6) unique nodes
+        auto nodelabel = reinterpret_cast<std::uintptr_t>(e.p);
         os << nodelabel << "[label=<";
         os << R"(<font point-size="10"><table border="1" cellspacing="0" cellpadding="2" style="rounded">)";
         os << R"(<tr><td colspan="2" rowspan="2" port="0" href="javascript:;" border="0" tooltip=")" << conditionalFormat(e.p->e[0].w, formatAsPolar) << "\">" << (e.p->e[0].w.approximatelyZero() ? "&nbsp;0 " : "<font color=\"white\">&nbsp;0 </font>")
@@ -270,7 +270,7 @@ namespace dd {
         return os;
     }
     [[maybe_unused]] static std::ostream& modernNode(const vEdge& e, std::ostream& os, bool formatAsPolar = true) {
-        auto nodelabel = (reinterpret_cast<std::uintptr_t>(e.p) & 0x001fffffU) >> 1U; // this allows for 2^20 (roughly 1e6) unique nodes
+        auto nodelabel = reinterpret_cast<std::uintptr_t>(e.p);
         os << nodelabel << "[label=<";
         os << R"(<font point-size="8"><table border="1" cellspacing="0" cellpadding="0" style="rounded">)";
         os << R"(<tr><td colspan="2" border="0" cellpadding="1"><font point-size="20">q<sub><font point-size="12">)" << static_cast<std::size_t>(e.p->v) << R"(</font></sub></font></td></tr><tr>)";
@@ -280,7 +280,7 @@ namespace dd {
         return os;
     }
     [[maybe_unused]] static std::ostream& classicNode(const mEdge& e, std::ostream& os, bool formatAsPolar = true) {
-        auto nodelabel = (reinterpret_cast<std::uintptr_t>(e.p) & 0x001fffffU) >> 1U; // this allows for 2^20 (roughly 1e6) unique nodes
+        auto nodelabel = reinterpret_cast<std::uintptr_t>(e.p);
         os << nodelabel << "[shape=circle, width=0.53, fixedsize=true, label=<";
         os << R"(<font point-size="6"><table border="0" cellspacing="0" cellpadding="0">)";
         os << R"(<tr><td colspan="4"><font point-size="18">q<sub><font point-size="10">)" << static_cast<std::size_t>(e.p->v) << R"(</font></sub></font></td></tr><tr>)";
@@ -318,7 +318,7 @@ namespace dd {
         return os;
     }
     [[maybe_unused]] static std::ostream& classicNode(const vEdge& e, std::ostream& os, bool formatAsPolar = true) {
-        auto nodelabel = (reinterpret_cast<std::uintptr_t>(e.p) & 0x001fffffU) >> 1U; // this allows for 2^20 (roughly 1e6) unique nodes
+        auto nodelabel = reinterpret_cast<std::uintptr_t>(e.p);
         os << nodelabel << "[shape=circle, width=0.46, fixedsize=true, label=<";
         os << R"(<font point-size="6"><table border="0" cellspacing="0" cellpadding="0">)";
         os << R"(<tr><td colspan="2"><font point-size="18">q<sub><font point-size="10">)" << static_cast<std::size_t>(e.p->v) << R"(</font></sub></font></td></tr><tr>)";
@@ -342,7 +342,7 @@ namespace dd {
     template<class Edge>
     static std::ostream& memoryNode(const Edge& e, std::ostream& os) {
         constexpr std::size_t n         = std::tuple_size_v<decltype(e.p->e)>;
-        auto                  nodelabel = (reinterpret_cast<std::uintptr_t>(e.p) & 0x001fffffU) >> 1U; // this allows for 2^20 (roughly 1e6) unique nodes
+        auto                  nodelabel = reinterpret_cast<std::uintptr_t>(e.p);
         os << nodelabel << "[label=<";
         os << R"(<font point-size="10"><table border="1" cellspacing="0" cellpadding="2" style="rounded">)";
         os << R"(<tr><td colspan=")" << n << R"(" border="1" sides="B">)" << std::hex << reinterpret_cast<std::uintptr_t>(e.p) << std::dec << " ref: " << e.p->ref << "</td></tr>";
@@ -364,8 +364,8 @@ namespace dd {
     }
 
     [[maybe_unused]] static std::ostream& bwEdge(const mEdge& from, const mEdge& to, std::uint16_t idx, std::ostream& os, bool edgeLabels = false, bool classic = false, bool formatAsPolar = true) {
-        auto fromlabel = (reinterpret_cast<std::uintptr_t>(from.p) & 0x001fffffU) >> 1U;
-        auto tolabel   = (reinterpret_cast<std::uintptr_t>(to.p) & 0x001fffffU) >> 1U;
+        auto fromlabel = reinterpret_cast<std::uintptr_t>(from.p);
+        auto tolabel   = reinterpret_cast<std::uintptr_t>(to.p);
 
         os << fromlabel << ":" << idx << ":";
         if (classic) {
@@ -405,8 +405,8 @@ namespace dd {
         return os;
     }
     [[maybe_unused]] static std::ostream& bwEdge(const vEdge& from, const vEdge& to, std::uint16_t idx, std::ostream& os, bool edgeLabels = false, [[maybe_unused]] bool classic = false, bool formatAsPolar = true) {
-        auto fromlabel = (reinterpret_cast<std::uintptr_t>(from.p) & 0x001fffffU) >> 1U;
-        auto tolabel   = (reinterpret_cast<std::uintptr_t>(to.p) & 0x001fffffU) >> 1U;
+        auto fromlabel = reinterpret_cast<std::uintptr_t>(from.p);
+        auto tolabel   = reinterpret_cast<std::uintptr_t>(to.p);
 
         os << fromlabel << ":" << idx << ":";
         os << (idx == 0 ? "sw" : "se") << "->";
@@ -429,8 +429,8 @@ namespace dd {
         return os;
     }
     [[maybe_unused]] static std::ostream& coloredEdge(const mEdge& from, const mEdge& to, std::uint16_t idx, std::ostream& os, bool edgeLabels = false, bool classic = false, bool formatAsPolar = true) {
-        auto fromlabel = (reinterpret_cast<std::uintptr_t>(from.p) & 0x001fffffU) >> 1U;
-        auto tolabel   = (reinterpret_cast<std::uintptr_t>(to.p) & 0x001fffffU) >> 1U;
+        auto fromlabel = reinterpret_cast<std::uintptr_t>(from.p);
+        auto tolabel   = reinterpret_cast<std::uintptr_t>(to.p);
 
         os << fromlabel << ":" << idx << ":";
         if (classic) {
@@ -468,8 +468,8 @@ namespace dd {
         return os;
     }
     [[maybe_unused]] static std::ostream& coloredEdge(const vEdge& from, const vEdge& to, std::uint16_t idx, std::ostream& os, bool edgeLabels = false, [[maybe_unused]] bool classic = false, bool formatAsPolar = true) {
-        auto fromlabel = (reinterpret_cast<std::uintptr_t>(from.p) & 0x001fffffU) >> 1U;
-        auto tolabel   = (reinterpret_cast<std::uintptr_t>(to.p) & 0x001fffffU) >> 1U;
+        auto fromlabel = reinterpret_cast<std::uintptr_t>(from.p);
+        auto tolabel   = reinterpret_cast<std::uintptr_t>(to.p);
 
         os << fromlabel << ":" << idx << ":";
         os << (idx == 0 ? "sw" : "se") << "->";
@@ -491,8 +491,8 @@ namespace dd {
     }
     template<class Edge>
     static std::ostream& memoryEdge(const Edge& from, const Edge& to, std::uint16_t idx, std::ostream& os, bool edgeLabels = false) {
-        auto fromlabel = (reinterpret_cast<std::uintptr_t>(from.p) & 0x001fffffU) >> 1U;
-        auto tolabel   = (reinterpret_cast<std::uintptr_t>(to.p) & 0x001fffffU) >> 1U;
+        auto fromlabel = reinterpret_cast<std::uintptr_t>(from.p);
+        auto tolabel   = reinterpret_cast<std::uintptr_t>(to.p);
 
         os << fromlabel << ":" << idx << ":s->";
         if (to.isTerminal()) {
-- 
2.43.0


From 4fa2c03e922eaa51e4249044caa32664a4451a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:05 +0000
Subject: [PATCH 20/27] fix: reject density operators larger than the package
 in makeZeroDensityOperator

---
 include/dd/Package.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 5e75664..14a78a2 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -223,6 +223,13 @@ namespace dd {
         }
 
         dEdge makeZeroDensityOperator(QubitCount n) {
+            if (n > nqubits) {
+                throw std::runtime_error{"Requested density operator with " +
+                                         std::to_string(n) +
+                                         " qubits, but current package configuration only supports up to " +
+                                         std::to_string(nqubits) +
+                                         " qubits. Please allocate a larger package instance."};
+            }
             auto f = dEdge::one;
             for (std::size_t p = 0; p < n; p++) {
                 f = makeDDNode(static_cast<Qubit>(p), std::array{f, dEdge::zero, dEdge::zero, dEdge::zero});
-- 
2.43.0


From 91e81a2b971057aa5b9e6586ac2f8ce47a1439cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:05 +0000
Subject: [PATCH 21/27] fix: makeDDFromMatrix checks the length of every row

---
 include/dd/Package.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 14a78a2..6982caf 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -357,7 +357,7 @@ namespace dd {
             }
 
             const auto& width = matrix[0].size();
-            if (length != width) {
+            if (std::any_of(matrix.begin(), matrix.end(), [&](const auto& row) { return row.size() != length; })) {
                 throw std::invalid_argument("Matrix must be square.");
             }
 
-- 
2.43.0


From bb65eb2ad14ee71e972ae3e8284736df9fbebe64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:39 +0000
Subject: [PATCH 22/27] fix: choose the normalising weight of a node relative
 to the node's scale

The absolute tolerance made nodes with small weights pick another successor than
the same node scaled, so that transferring or reading such a diagram changed the
function it denotes.
---
 include/dd/Package.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 6982caf..bde5092 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -180,8 +180,9 @@ namespace dd {
             const auto mag0         = ComplexNumbers::mag2(e.p->e[0].w);
             const auto mag1         = ComplexNumbers::mag2(e.p->e[1].w);
             const auto norm2        = mag0 + mag1;
-            const auto mag2Max      = (mag0 + ComplexTable<>::tolerance() >= mag1) ? mag0 : mag1;
-            const auto argMax       = (mag0 + ComplexTable<>::tolerance() >= mag1) ? 0 : 1;
+            // the comparison is relative, so that scaled versions of a node have the same normal form
+            const auto mag2Max      = (mag0 + ComplexTable<>::tolerance() * norm2 >= mag1) ? mag0 : mag1;
+            const auto argMax       = (mag0 + ComplexTable<>::tolerance() * norm2 >= mag1) ? 0 : 1;
             const auto norm         = std::sqrt(norm2);
             const auto magMax       = std::sqrt(mag2Max);
             const auto commonFactor = norm / magMax;
@@ -417,7 +418,8 @@ namespace dd {
                         maxc   = e.p->e[i].w;
                     } else {
                         auto mag = ComplexNumbers::mag2(e.p->e[i].w);
-                        if (mag - max > ComplexTable<>::tolerance()) {
+                        // relative, so that scaled versions of a node have the same normal form
+                        if (mag - max > ComplexTable<>::tolerance() * mag) {
                             argmax = static_cast<decltype(argmax)>(i);
                             max    = mag;
                             maxc   = e.p->e[i].w;
-- 
2.43.0


From 38520c22c1489d390e355c5b0c313ef7b98739fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:45 +0000
Subject: [PATCH 23/27] fix: write the root weight of a vector with all its
 digits

Sixteen digits do not identify a large weight, so reading the text back gave
another root weight; operators are written with max_digits10 already.
---
 include/dd/Export.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dd/Export.hpp b/include/dd/Export.hpp
index e8caded..5b6bf8b 100644
--- a/include/dd/Export.hpp
+++ b/include/dd/Export.hpp
@@ -631,7 +631,7 @@ namespace dd {
             basic.w.writeBinary(os);
         } else {
             os << SERIALIZATION_VERSION << "\n";
-            os << basic.w.toString(false, 16) << "\n";
+            os << basic.w.toString(false, std::numeric_limits<dd::fp>::max_digits10) << "\n";
         }
         std::int64_t                             nextIndex = 0;
         std::unordered_map<vNode*, std::int64_t> nodeIndex{};
-- 
2.43.0


From a0f454c6e36d2a6420870eeba2226977477dc432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:26 +0000
Subject: [PATCH 24/27] fix: ancilla and garbage reduction reduce a node shared
 by differently weighted successors once

---
 include/dd/Package.hpp | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index bde5092..5b0a7ab 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -2342,6 +2342,18 @@ namespace dd {
             return r;
         }
 
+        // weight of a reduced node below the weight b, given its weight w below the weight a
+        Complex rescaledWeight(const Complex& w, const Complex& a, const Complex& b) {
+            if (a == b || w == Complex::zero) {
+                return w;
+            }
+            auto c = cn.mulCached(w, b);
+            ComplexNumbers::div(c, c, a);
+            const auto r = cn.lookup(c);
+            cn.returnToCache(c);
+            return r;
+        }
+
         mEdge reduceAncillaeRecursion(mEdge& e, const std::vector<bool>& ancillary, Qubit lowerbound, bool regular = true) {
             if (e.p->v < lowerbound) {
                 return e;
@@ -2358,8 +2370,9 @@ namespace dd {
                     } else {
                         edges[i] = reduceAncillaeRecursion(f.p->e[i], ancillary, lowerbound, regular);
                         for (auto j = i + 1; j < NEDGE; ++j) {
-                            if (e.p->e[i] == e.p->e[j]) {
-                                edges[j] = edges[i];
+                            if (e.p->e[i].p == e.p->e[j].p) {
+                                edges[j]   = edges[i];
+                                edges[j].w = rescaledWeight(edges[i].w, e.p->e[i].w, e.p->e[j].w);
                                 handled.set(j);
                             }
                         }
@@ -2409,8 +2422,9 @@ namespace dd {
                     } else {
                         edges[i] = reduceGarbageRecursion(f.p->e[i], garbage, lowerbound);
                         for (auto j = i + 1; j < RADIX; ++j) {
-                            if (e.p->e[i] == e.p->e[j]) {
-                                edges[j] = edges[i];
+                            if (e.p->e[i].p == e.p->e[j].p) {
+                                edges[j]   = edges[i];
+                                edges[j].w = rescaledWeight(edges[i].w, e.p->e[i].w, e.p->e[j].w);
                                 handled.set(j);
                             }
                         }
@@ -2466,8 +2480,9 @@ namespace dd {
                     } else {
                         edges[i] = reduceGarbageRecursion(f.p->e[i], garbage, lowerbound, regular);
                         for (auto j = i + 1; j < NEDGE; ++j) {
-                            if (e.p->e[i] == e.p->e[j]) {
-                                edges[j] = edges[i];
+                            if (e.p->e[i].p == e.p->e[j].p) {
+                                edges[j]   = edges[i];
+                                edges[j].w = rescaledWeight(edges[i].w, e.p->e[i].w, e.p->e[j].w);
                                 handled.set(j);
                             }
                         }
-- 
2.43.0


From b22ccf46a98556109e0c44d2c3ce9eca3d2501ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:24 +0000
Subject: [PATCH 25/27] fix: a successor of weight zero never keeps its node
 when a node is normalized

Weights that are negligible relative to the largest one are set to zero, but
the node they belonged to stayed attached, so equal nodes were stored twice
with different (meaningless) successors below a zero weight.
---
 include/dd/Package.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 5b0a7ab..780f2fb 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -135,12 +135,13 @@ namespace dd {
             auto zero = std::array{e.p->e[0].w.approximatelyZero(), e.p->e[1].w.approximatelyZero()};
 
             // make sure to release cached numbers approximately zero, but not exactly zero
-            if (cached) {
-                for (auto i = 0U; i < RADIX; i++) {
-                    if (zero[i] && e.p->e[i].w != Complex::zero) {
+            // a successor of weight zero does not carry a node
+            for (auto i = 0U; i < RADIX; i++) {
+                if (zero[i]) {
+                    if (cached && e.p->e[i].w != Complex::zero) {
                         cn.returnToCache(e.p->e[i].w);
-                        e.p->e[i] = vEdge::zero;
                     }
+                    e.p->e[i] = vEdge::zero;
                 }
             }
 
@@ -473,6 +474,10 @@ namespace dd {
                         auto c = cn.getTemporary();
                         ComplexNumbers::div(c, r.p->e[i].w, maxc);
                         r.p->e[i].w = cn.lookup(c);
+                        if (r.p->e[i].w == Complex::zero) {
+                            // negligible relative to the largest entry
+                            r.p->e[i] = Edge<Node>::zero;
+                        }
                     }
                 }
                 return r;
-- 
2.43.0


From 253be12291a051ee467c6e795ac6db53ac785d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:24 +0000
Subject: [PATCH 26/27] fix: results whose weight vanishes are the zero edge

The Kronecker product, matrix edges read from files, traces and the reduction
of ancillary and garbage qubits returned an edge of weight zero with a node.
---
 include/dd/Package.hpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 780f2fb..77b9d6c 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -1083,6 +1083,9 @@ namespace dd {
                 auto w = cn.getTemporary();
                 dd::ComplexNumbers::mul(w, newedge.w, e.w);
                 newedge.w = cn.lookup(w);
+                if (newedge.w == Complex::zero) {
+                    return Edge<Node>::zero;
+                }
             }
 
             return newedge;
@@ -1967,6 +1970,9 @@ namespace dd {
             if (e.w != Complex::zero && !e.w.exactlyOne()) {
                 cn.returnToCache(e.w);
                 e.w = cn.lookup(e.w);
+                if (e.w == Complex::zero) {
+                    return Edge::zero;
+                }
             }
 
             return e;
@@ -2092,6 +2098,9 @@ namespace dd {
                     auto c = cn.getTemporary();
                     ComplexNumbers::mul(c, r.w, a.w);
                     r.w = cn.lookup(c); // better safe than sorry. this may result in complex values with magnitude > 1 in the complex table
+                    if (r.w == Complex::zero) {
+                        r.p = mEdge::zero.p;
+                    }
                 }
 
                 if (r1.w != Complex::zero) {
@@ -2119,6 +2128,9 @@ namespace dd {
                 auto c = cn.getTemporary();
                 ComplexNumbers::mul(c, r.w, a.w);
                 r.w = cn.lookup(c);
+                if (r.w == Complex::zero) {
+                    return mEdge::zero;
+                }
             }
             return r;
         }
@@ -2408,6 +2420,9 @@ namespace dd {
             auto c = cn.mulCached(f.w, e.w);
             f.w    = cn.lookup(c);
             cn.returnToCache(c);
+            if (f.w == Complex::zero) {
+                return decltype(f)::zero;
+            }
             return f;
         }
 
@@ -2461,6 +2476,9 @@ namespace dd {
             auto c = cn.mulCached(f.w, e.w);
             f.w    = cn.lookup(c);
             cn.returnToCache(c);
+            if (f.w == Complex::zero) {
+                return decltype(f)::zero;
+            }
 
             // Quick-fix for normalization bug
             if (ComplexNumbers::mag2(f.w) > 1.0 + ComplexTable<>::tolerance()) {
@@ -2550,6 +2568,9 @@ namespace dd {
             auto c = cn.mulCached(f.w, e.w);
             f.w    = cn.lookup(c);
             cn.returnToCache(c);
+            if (f.w == Complex::zero) {
+                return decltype(f)::zero;
+            }
 
             // Quick-fix for normalization bug
             if (ComplexNumbers::mag2(f.w) > 1.0 + ComplexTable<>::tolerance()) {
-- 
2.43.0


From 4c9e6d189417648deb5dd988e7111d27c892a458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:24 +0000
Subject: [PATCH 27/27] fix: reading a density matrix leaves the mark of the
 given edge alone

Reading the matrix of a half-stored density matrix removed the mark from the
caller's edge, so that operations applied afterwards treated it as a full one.
---
 include/dd/Package.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 77b9d6c..7af0fde 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -2814,12 +2814,14 @@ namespace dd {
         }
 
         CMat getDensityMatrix(dEdge& e) {
-            dEdge::applyDmChangesToEdge(e);
-            const std::size_t dim = 2ULL << e.p->v;
+            // the edge itself keeps its mark
+            auto root = e;
+            dEdge::applyDmChangesToEdge(root);
+            const std::size_t dim = 2ULL << root.p->v;
             // allocate resulting matrix
             auto mat = CMat(dim, CVec(dim, {0.0, 0.0}));
-            getDensityMatrix(e, Complex::one, 0, 0, mat);
-            dd::dEdge::revertDmChangesToEdge(e);
+            getDensityMatrix(root, Complex::one, 0, 0, mat);
+            dd::dEdge::revertDmChangesToEdge(root);
             return mat;
         }
 
-- 
2.43.0

