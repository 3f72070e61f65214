From a3966d2fef36bcfce64748e0c4bd8ac2b680f1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:49 +0000
Subject: [PATCH 001/163] fix: reduce PiRational completely modulo two pi

A single subtraction (addition) of two only reaches the documented interval
(-1,1] for fractions in (-3,3].
---
 src/zx/Rational.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/zx/Rational.cpp b/src/zx/Rational.cpp
index 3abc4fe..98a8513 100644
--- a/src/zx/Rational.cpp
+++ b/src/zx/Rational.cpp
@@ -92,10 +92,15 @@ PiRational& PiRational::operator/=(const int64_t rhs) {
 }
 
 void PiRational::modPi() {
-  if (*this > 1) {
-    frac = Rational(getNum() - (2 * getDenom()), getDenom());
-  } else if (*this <= -1) {
-    frac = Rational(getNum() + (2 * getDenom()), getDenom());
+  if (*this > 1 || *this <= -1) {
+    const BigInt denom = getDenom();
+    BigInt num = getNum() % (2 * denom);
+    if (num > denom) {
+      num -= 2 * denom;
+    } else if (num <= -denom) {
+      num += 2 * denom;
+    }
+    frac = Rational(num, denom);
   }
   if (getNum() == 0) {
     setDenom(1);
-- 
2.43.0


From 77a38f2381e381316470fae9b5383c875a10c8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:49 +0000
Subject: [PATCH 002/163] fix: integer minus and integer divided by PiRational

Both operators computed the operation with swapped operands.
---
 include/mqt-core/zx/Rational.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/mqt-core/zx/Rational.hpp b/include/mqt-core/zx/Rational.hpp
index 2a4b198..0e4dfa0 100644
--- a/include/mqt-core/zx/Rational.hpp
+++ b/include/mqt-core/zx/Rational.hpp
@@ -207,9 +207,8 @@ inline PiRational operator-(PiRational lhs, const int64_t rhs) {
   lhs -= rhs;
   return lhs;
 }
-inline PiRational operator-(const int64_t lhs, PiRational rhs) {
-  rhs -= lhs;
-  return rhs;
+inline PiRational operator-(const int64_t lhs, const PiRational& rhs) {
+  return PiRational(lhs) - rhs;
 }
 
 inline PiRational operator*(PiRational lhs, const PiRational& rhs) {
@@ -233,9 +232,8 @@ inline PiRational operator/(PiRational lhs, const int64_t rhs) {
   lhs /= rhs;
   return lhs;
 }
-inline PiRational operator/(const int64_t lhs, PiRational rhs) {
-  rhs /= lhs;
-  return rhs;
+inline PiRational operator/(const int64_t lhs, const PiRational& rhs) {
+  return PiRational(BigInt(lhs) * rhs.getDenom(), rhs.getNum());
 }
 
 inline bool operator<(const PiRational& lhs, const PiRational& rhs) {
-- 
2.43.0


From 47d62c63bc6ee70180accd989779310bc58624c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:49 +0000
Subject: [PATCH 003/163] fix: convert very large and very small angles to
 PiRational

Huge angles divided by a zero denominator or overflowed the integer used for
the reduction; the denominator of tiny fractions of pi overflowed int.
---
 src/zx/Rational.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/zx/Rational.cpp b/src/zx/Rational.cpp
index 98a8513..eda164d 100644
--- a/src/zx/Rational.cpp
+++ b/src/zx/Rational.cpp
@@ -25,15 +25,15 @@ PiRational::PiRational(double val) {
 
   const double multPi = PI / val;
   const double nearest = std::round(multPi);
-  if (std::abs(nearest - multPi) < PARAMETER_TOLERANCE) {
-    auto denom = static_cast<int>(nearest);
+  if (nearest != 0. && std::abs(nearest - multPi) < PARAMETER_TOLERANCE) {
+    const auto denom = static_cast<int64_t>(nearest);
     frac = Rational(1, denom);
     modPi();
     return;
   }
 
   val /= PI;
-  val -= 2 * static_cast<int>(val / 2);
+  val = std::fmod(val, 2.);
   if (val > 1) {
     val -= 2;
   } else if (val <= -1) {
-- 
2.43.0


From 3e2ccd8c7a182837287b1a8ff318df1f63b284fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:53 +0000
Subject: [PATCH 004/163] fix: keep the transitive closure of
 DirectedAcyclicGraph complete

Inserting u->v did not connect the ancestors of u with the descendants of v, so
isReachable was wrong and edges closing a cycle could be accepted.
---
 .../mqt-core/datastructures/DirectedAcyclicGraph.hpp   | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/mqt-core/datastructures/DirectedAcyclicGraph.hpp b/include/mqt-core/datastructures/DirectedAcyclicGraph.hpp
index aeaae63..a93e244 100644
--- a/include/mqt-core/datastructures/DirectedAcyclicGraph.hpp
+++ b/include/mqt-core/datastructures/DirectedAcyclicGraph.hpp
@@ -53,11 +53,13 @@ public:
     }
     DirectedGraph<V>::addEdge(u, v);
     for (std::size_t k = 0; k < this->nVertices; ++k) {
+      // everything that reaches u now reaches everything reachable from v
       if (closureMatrix[k][i]) {
-        closureMatrix[k][j] = true;
-      }
-      if (closureMatrix[j][k]) {
-        closureMatrix[i][k] = true;
+        for (std::size_t l = 0; l < this->nVertices; ++l) {
+          if (closureMatrix[j][l]) {
+            closureMatrix[k][l] = true;
+          }
+        }
       }
     }
   }
-- 
2.43.0


From ce9318c5ac60f944ad3de665dd64a46e614c9331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:53 +0000
Subject: [PATCH 005/163] fix: report self-loops in UndirectedGraph::isAdjacent
 and toString

The other queries (neighbours, adjacent edges, getEdge) already do.
---
 include/mqt-core/datastructures/UndirectedGraph.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/mqt-core/datastructures/UndirectedGraph.hpp b/include/mqt-core/datastructures/UndirectedGraph.hpp
index 5ff24b6..dee9f7f 100644
--- a/include/mqt-core/datastructures/UndirectedGraph.hpp
+++ b/include/mqt-core/datastructures/UndirectedGraph.hpp
@@ -194,8 +194,8 @@ public:
     }
     const auto i = mapping.at(u);
     const auto j = mapping.at(v);
-    return (i < j && adjacencyMatrix[i][j - i] != std::nullopt) or
-           (j < i && adjacencyMatrix[j][i - j] != std::nullopt);
+    return (i < j ? adjacencyMatrix[i][j - i] : adjacencyMatrix[j][i - j]) !=
+           std::nullopt;
   }
   [[nodiscard]] static auto isAdjacentEdge(const std::pair<V, V>& e,
                                            const std::pair<V, V>& f) -> bool {
@@ -210,7 +210,7 @@ public:
       ss << "  " << i << " [label=\"" << v << "\"];\n";
     }
     for (std::size_t i = 0; i < nVertices; ++i) {
-      for (std::size_t j = i + 1; j < nVertices; ++j) {
+      for (std::size_t j = i; j < nVertices; ++j) {
         if (adjacencyMatrix[i][j - i] != std::nullopt) {
           ss << "  " << i << " -- " << j << ";\n";
         }
-- 
2.43.0


From 5b7de0ac2279de7a429f242f23e58c167932ac21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:00 +0000
Subject: [PATCH 006/163] fix: negate the global phase when inverting a
 QuantumComputation

---
 src/algorithms/StatePreparation.cpp | 3 ++-
 src/ir/QuantumComputation.cpp       | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/algorithms/StatePreparation.cpp b/src/algorithms/StatePreparation.cpp
index e99c5ad..ff6fe85 100644
--- a/src/algorithms/StatePreparation.cpp
+++ b/src/algorithms/StatePreparation.cpp
@@ -266,7 +266,8 @@ gatesToUncompute(std::vector<std::complex<double>>& amplitudes,
   double const arg = std::arg(std::accumulate(
       amplitudes.begin(), amplitudes.end(), std::complex<double>(0, 0)));
   if (std::abs(arg) > eps) {
-    disentangler.gphase(arg);
+    // inverting the disentangler negates its global phase again
+    disentangler.gphase(-arg);
   }
   return disentangler;
 }
diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index b657de1..f94e6eb 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -549,6 +549,9 @@ void QuantumComputation::invert() {
     op->invert();
   }
   std::reverse(ops.begin(), ops.end());
+  const auto phase = globalPhase;
+  globalPhase = 0.;
+  gphase(-phase);
 
   if (initialLayout.size() == outputPermutation.size()) {
     std::swap(initialLayout, outputPermutation);
-- 
2.43.0


From f2a78dae678313863705a0f3a8bf3efcc36ac093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:00 +0000
Subject: [PATCH 007/163] fix: update the name of an operation when inverting
 changes its type

---
 src/ir/operations/StandardOperation.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ir/operations/StandardOperation.cpp b/src/ir/operations/StandardOperation.cpp
index e44b529..c800c22 100644
--- a/src/ir/operations/StandardOperation.cpp
+++ b/src/ir/operations/StandardOperation.cpp
@@ -640,6 +640,7 @@ void StandardOperation::invert() {
     throw std::runtime_error("Inverting gate" + toString(type) +
                              " is not supported.");
   }
+  name = toString(type);
 }
 
 void StandardOperation::dumpControls(std::ostringstream& op) const {
-- 
2.43.0


From 567b136a28c72867ef0099d12aba56a4ffd34b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:00 +0000
Subject: [PATCH 008/163] fix: keep the right parameters when simplifying
 symbolic U gates

---
 src/ir/operations/SymbolicOperation.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/ir/operations/SymbolicOperation.cpp b/src/ir/operations/SymbolicOperation.cpp
index 46ce210..cbd66c3 100644
--- a/src/ir/operations/SymbolicOperation.cpp
+++ b/src/ir/operations/SymbolicOperation.cpp
@@ -195,6 +195,7 @@ OpType SymbolicOperation::parseU1([[maybe_unused]] const Symbolic& lambda) {
 }
 
 void SymbolicOperation::checkSymbolicUgate() {
+  const auto originalType = type;
   // NOLINTBEGIN(bugprone-unchecked-optional-access) – we check for this
   if (type == P) {
     if (!isSymbolicParameter(0)) {
@@ -231,6 +232,17 @@ void SymbolicOperation::checkSymbolicUgate() {
     }
   }
   // NOLINTEND(bugprone-unchecked-optional-access)
+
+  if (!isSymbolicOperation()) {
+    // the number of (numeric) parameters may have been reduced
+    symbolicParameter.resize(parameter.size());
+  } else if (originalType == U && type != U) {
+    // P(lambda) and U2(phi, lambda) only keep the trailing parameters of U
+    const auto obsolete = static_cast<std::ptrdiff_t>(type == P ? 2 : 1);
+    parameter.erase(parameter.begin(), parameter.begin() + obsolete);
+    symbolicParameter.erase(symbolicParameter.begin(),
+                            symbolicParameter.begin() + obsolete);
+  }
 }
 
 void SymbolicOperation::setup(const std::vector<SymbolOrNumber>& params) {
@@ -390,6 +402,8 @@ void SymbolicOperation::instantiate(const VariableAssignment& assignment) {
     symbolicParameter.at(i).reset();
   }
   checkUgate();
+  symbolicParameter.resize(parameter.size());
+  name = toString(type);
 }
 
 void SymbolicOperation::negateSymbolicParameter(const std::size_t index) {
-- 
2.43.0


From a6c3a75fd721bdc709841fc907d881759c6bb225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:56 +0000
Subject: [PATCH 009/163] fix: copy the comparison kind of classically
 controlled operations

---
 src/ir/operations/ClassicControlledOperation.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ir/operations/ClassicControlledOperation.cpp b/src/ir/operations/ClassicControlledOperation.cpp
index 29aa9b2..33b2499 100644
--- a/src/ir/operations/ClassicControlledOperation.cpp
+++ b/src/ir/operations/ClassicControlledOperation.cpp
@@ -90,7 +90,8 @@ ClassicControlledOperation::ClassicControlledOperation(
 ClassicControlledOperation::ClassicControlledOperation(
     const ClassicControlledOperation& ccop)
     : Operation(ccop), controlRegister(ccop.controlRegister),
-      controlBit(ccop.controlBit), expectedValue(ccop.expectedValue) {
+      controlBit(ccop.controlBit), expectedValue(ccop.expectedValue),
+      comparisonKind(ccop.comparisonKind) {
   op = ccop.op->clone();
 }
 ClassicControlledOperation&
@@ -100,6 +101,7 @@ ClassicControlledOperation::operator=(const ClassicControlledOperation& ccop) {
     controlRegister = ccop.controlRegister;
     controlBit = ccop.controlBit;
     expectedValue = ccop.expectedValue;
+    comparisonKind = ccop.comparisonKind;
     op = ccop.op->clone();
   }
   return *this;
-- 
2.43.0


From 24da3736b4272e6b1995926350a0405fdca99503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:19 +0000
Subject: [PATCH 010/163] fix: compare the variables of symbolic expressions

---
 include/mqt-core/ir/operations/Expression.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mqt-core/ir/operations/Expression.hpp b/include/mqt-core/ir/operations/Expression.hpp
index 43d6ea3..4430add 100644
--- a/include/mqt-core/ir/operations/Expression.hpp
+++ b/include/mqt-core/ir/operations/Expression.hpp
@@ -794,7 +794,7 @@ bool operator==(const Expression<T, U>& lhs, const Expression<T, U>& rhs) {
 
   const auto lhsTerms = lhs.numTerms();
   for (size_t i = 0; i < lhsTerms; ++i) {
-    if (std::abs(lhs[i].getCoeff() - rhs[i].getCoeff()) >= TOLERANCE) {
+    if (lhs[i] != rhs[i]) {
       return false;
     }
   }
-- 
2.43.0


From e535fddadbbb65bbc995021c98ed466ab722bade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:19 +0000
Subject: [PATCH 011/163] fix: compare all parts of symbolic operations

---
 include/mqt-core/ir/operations/Operation.hpp |  5 ++++
 src/ir/operations/Operation.cpp              | 25 ++++++++++++-----
 src/ir/operations/SymbolicOperation.cpp      | 28 ++++++++------------
 3 files changed, 34 insertions(+), 24 deletions(-)

diff --git a/include/mqt-core/ir/operations/Operation.hpp b/include/mqt-core/ir/operations/Operation.hpp
index 746a0a4..679aff4 100644
--- a/include/mqt-core/ir/operations/Operation.hpp
+++ b/include/mqt-core/ir/operations/Operation.hpp
@@ -27,6 +27,11 @@
 namespace qc {
 class Operation {
 protected:
+  /// Compares everything but the parameters of two operations.
+  [[nodiscard]] bool equalsUpToParameters(const Operation& op,
+                                          const Permutation& perm1,
+                                          const Permutation& perm2) const;
+
   Controls controls;
   Targets targets;
   std::vector<fp> parameter;
diff --git a/src/ir/operations/Operation.cpp b/src/ir/operations/Operation.cpp
index 6e68795..41fdab7 100644
--- a/src/ir/operations/Operation.cpp
+++ b/src/ir/operations/Operation.cpp
@@ -115,6 +115,24 @@ std::ostream& Operation::print(std::ostream& os, const Permutation& permutation,
 
 bool Operation::equals(const Operation& op, const Permutation& perm1,
                        const Permutation& perm2) const {
+  // symbolic parameters are never equal to numeric ones
+  if (isSymbolicOperation() != op.isSymbolicOperation()) {
+    return false;
+  }
+
+  // check parameters
+  const auto& param1 = getParameter();
+  const auto& param2 = op.getParameter();
+  if (param1 != param2) {
+    return false;
+  }
+
+  return equalsUpToParameters(op, perm1, perm2);
+}
+
+bool Operation::equalsUpToParameters(const Operation& op,
+                                     const Permutation& perm1,
+                                     const Permutation& perm2) const {
   // check type
   if (getType() != op.getType()) {
     return false;
@@ -127,13 +145,6 @@ bool Operation::equals(const Operation& op, const Permutation& perm1,
     return false;
   }
 
-  // check parameters
-  const auto& param1 = getParameter();
-  const auto& param2 = op.getParameter();
-  if (param1 != param2) {
-    return false;
-  }
-
   if (isDiagonalGate()) {
     // check pos. controls and targets together
     const auto& usedQubits1 = getUsedQubitsPermuted(perm1);
diff --git a/src/ir/operations/SymbolicOperation.cpp b/src/ir/operations/SymbolicOperation.cpp
index cbd66c3..aa0df3e 100644
--- a/src/ir/operations/SymbolicOperation.cpp
+++ b/src/ir/operations/SymbolicOperation.cpp
@@ -343,32 +343,26 @@ bool SymbolicOperation::isStandardOperation() const {
 
 bool SymbolicOperation::equals(const Operation& op, const Permutation& perm1,
                                const Permutation& perm2) const {
-  if (!op.isSymbolicOperation() && !isStandardOperation()) {
-    return false;
-  }
-  if (isStandardOperation() && StandardOperation::equals(op, perm1, perm2)) {
-    return true;
+  if (isStandardOperation()) {
+    return StandardOperation::equals(op, perm1, perm2);
   }
 
-  if (!op.isSymbolicOperation()) {
+  const auto* symOp = dynamic_cast<const SymbolicOperation*>(&op);
+  if (symOp == nullptr || parameter.size() != symOp->parameter.size()) {
     return false;
   }
-  const auto& symOp = dynamic_cast<const SymbolicOperation&>(op);
-  for (std::size_t i = 0; i < symbolicParameter.size(); ++i) {
+  for (std::size_t i = 0; i < parameter.size(); ++i) {
     const auto& symParam = symbolicParameter.at(i);
-    const auto& symOpParam = symOp.symbolicParameter.at(i);
-    const auto symParamIsSymbolic = symParam.has_value();
-    const auto symOpParamIsSymbolic = symOpParam.has_value();
-
-    if (symParamIsSymbolic != symOpParamIsSymbolic) {
+    const auto& symOpParam = symOp->symbolicParameter.at(i);
+    if (symParam.has_value() != symOpParam.has_value()) {
       return false;
     }
-
-    if (symParamIsSymbolic) {
-      return symParam.value() == symOpParam.value();
+    if (symParam.has_value() ? *symParam != *symOpParam
+                             : parameter.at(i) != symOp->parameter.at(i)) {
+      return false;
     }
   }
-  return true;
+  return equalsUpToParameters(op, perm1, perm2);
 }
 
 [[noreturn]] void SymbolicOperation::dumpOpenQASM(
-- 
2.43.0


From f9ee1be78c70e7116b26e4cc66f6966e8d9c3fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:19 +0000
Subject: [PATCH 012/163] fix: distinguish controls and targets when comparing
 controlled RZ and RZZ gates

---
 src/ir/operations/Operation.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ir/operations/Operation.cpp b/src/ir/operations/Operation.cpp
index 41fdab7..1b291e8 100644
--- a/src/ir/operations/Operation.cpp
+++ b/src/ir/operations/Operation.cpp
@@ -146,6 +146,11 @@ bool Operation::equalsUpToParameters(const Operation& op,
   }
 
   if (isDiagonalGate()) {
+    // the controls of RZ and RZZ cannot be exchanged with their targets
+    if ((type == RZ || type == RZZ) &&
+        perm1.apply(getControls()) != perm2.apply(op.getControls())) {
+      return false;
+    }
     // check pos. controls and targets together
     const auto& usedQubits1 = getUsedQubitsPermuted(perm1);
     const auto& usedQubits2 = op.getUsedQubitsPermuted(perm2);
-- 
2.43.0


From 8629c18304a34582c12438c48dee115555c51e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:43 +0000
Subject: [PATCH 013/163] fix: make hashing of operations consistent with their
 equality

---
 .../ir/operations/NonUnitaryOperation.hpp     |  7 +++--
 include/mqt-core/ir/operations/Operation.hpp  | 28 +++++++++++++------
 2 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/include/mqt-core/ir/operations/NonUnitaryOperation.hpp b/include/mqt-core/ir/operations/NonUnitaryOperation.hpp
index 02dada2..b5db4e9 100644
--- a/include/mqt-core/ir/operations/NonUnitaryOperation.hpp
+++ b/include/mqt-core/ir/operations/NonUnitaryOperation.hpp
@@ -107,10 +107,13 @@ template <> struct std::hash<qc::NonUnitaryOperation> {
   std::size_t operator()(qc::NonUnitaryOperation const& op) const noexcept {
     std::size_t seed = 0U;
     qc::hashCombine(seed, op.getType());
-    for (const auto& q : op.getTargets()) {
+    // the order of the qubits (and their bits) is irrelevant for equality
+    for (const auto& q : std::set<qc::Qubit>(op.getTargets().cbegin(),
+                                             op.getTargets().cend())) {
       qc::hashCombine(seed, q);
     }
-    for (const auto& c : op.getClassics()) {
+    for (const auto& c : std::set<qc::Bit>(op.getClassics().cbegin(),
+                                           op.getClassics().cend())) {
       qc::hashCombine(seed, c);
     }
     return seed;
diff --git a/include/mqt-core/ir/operations/Operation.hpp b/include/mqt-core/ir/operations/Operation.hpp
index 679aff4..1861ad4 100644
--- a/include/mqt-core/ir/operations/Operation.hpp
+++ b/include/mqt-core/ir/operations/Operation.hpp
@@ -233,17 +233,27 @@ template <> struct std::hash<qc::Operation> {
   std::size_t operator()(const qc::Operation& op) const noexcept {
     std::size_t seed = 0U;
     qc::hashCombine(seed, hash<qc::OpType>{}(op.getType()));
-    for (const auto& control : op.getControls()) {
-      qc::hashCombine(seed, hash<qc::Qubit>{}(control.qubit));
-      if (control.type == qc::Control::Type::Neg) {
-        seed ^= 1ULL;
+    if (op.isStandardOperation() && !op.isDiagonalGate()) {
+      for (const auto& control : op.getControls()) {
+        qc::hashCombine(seed, hash<qc::Qubit>{}(control.qubit));
+        if (control.type == qc::Control::Type::Neg) {
+          seed ^= 1ULL;
+        }
+      }
+      for (const auto& target : op.getTargets()) {
+        qc::hashCombine(seed, hash<qc::Qubit>{}(target));
+      }
+    } else {
+      // the comparison of all other operations depends neither on the order of
+      // the qubits nor on the role they play
+      for (const auto& qubit : op.getUsedQubits()) {
+        qc::hashCombine(seed, hash<qc::Qubit>{}(qubit));
       }
     }
-    for (const auto& target : op.getTargets()) {
-      qc::hashCombine(seed, hash<qc::Qubit>{}(target));
-    }
-    for (const auto& param : op.getParameter()) {
-      qc::hashCombine(seed, hash<qc::fp>{}(param));
+    if (!op.isSymbolicOperation()) {
+      for (const auto& param : op.getParameter()) {
+        qc::hashCombine(seed, hash<qc::fp>{}(param));
+      }
     }
     return seed;
   }
-- 
2.43.0


From ff4aab519b6954d5c92ca5d4d16ea8472c92934f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:40 +0000
Subject: [PATCH 014/163] fix: respect classical dependencies and keep all
 operations in reorderOperations

---
 src/ir/QuantumComputation.cpp | 60 +++++++++++++++++++++++++++++++----
 1 file changed, 53 insertions(+), 7 deletions(-)

diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index f94e6eb..0690253 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -1117,6 +1117,32 @@ void QuantumComputation::instantiateInplace(
   }
 }
 
+namespace {
+/// Collects all classical bits that are read or written by an operation.
+void collectClassicalBits(const Operation& op, std::set<Bit>& bits) {
+  if (op.isCompoundOperation()) {
+    for (const auto& g : dynamic_cast<const CompoundOperation&>(op)) {
+      collectClassicalBits(*g, bits);
+    }
+  } else if (op.getType() == Measure) {
+    const auto& classics =
+        dynamic_cast<const NonUnitaryOperation&>(op).getClassics();
+    bits.insert(classics.cbegin(), classics.cend());
+  } else if (op.isClassicControlledOperation()) {
+    const auto& classic = dynamic_cast<const ClassicControlledOperation&>(op);
+    if (const auto& bit = classic.getControlBit(); bit.has_value()) {
+      bits.insert(*bit);
+    }
+    if (const auto& reg = classic.getControlRegister(); reg.has_value()) {
+      for (std::size_t i = 0; i < reg->getSize(); ++i) {
+        bits.insert(reg->getStartIndex() + i);
+      }
+    }
+    collectClassicalBits(*classic.getOperation(), bits);
+  }
+}
+} // namespace
+
 void QuantumComputation::reorderOperations() {
   using DAG = std::vector<std::deque<std::unique_ptr<Operation>*>>;
   using DAGIterator = std::deque<std::unique_ptr<Operation>*>::iterator;
@@ -1127,12 +1153,31 @@ void QuantumComputation::reorderOperations() {
     highestPhysicalQubit = std::max(q.first, highestPhysicalQubit);
   }
 
-  auto dag = DAG(highestPhysicalQubit + 1);
+  // The DAG contains an entry for every qubit, one for the operations that do
+  // not act on any qubit, and one for every classical bit.
+  const auto noQubit = static_cast<std::size_t>(highestPhysicalQubit) + 1;
+  const auto getDAGEntries = [noQubit](const Operation& op) {
+    const auto usedQubits = op.getUsedQubits();
+    std::set<std::size_t> entries(usedQubits.cbegin(), usedQubits.cend());
+    if (entries.empty()) {
+      entries.emplace(noQubit);
+    }
+    std::set<Bit> bits{};
+    collectClassicalBits(op, bits);
+    for (const auto b : bits) {
+      entries.emplace(noQubit + 1 + b);
+    }
+    return entries;
+  };
+
+  auto dag = DAG(noQubit + 1);
 
   for (auto& op : ops) {
-    const auto usedQubits = op->getUsedQubits();
-    for (const auto q : usedQubits) {
-      dag.at(q).push_back(&op);
+    for (const auto entry : getDAGEntries(*op)) {
+      if (entry > noQubit && entry >= dag.size()) {
+        dag.resize(entry + 1);
+      }
+      dag.at(entry).push_back(&op);
     }
   }
 
@@ -1151,7 +1196,7 @@ void QuantumComputation::reorderOperations() {
   std::vector<std::unique_ptr<Operation>> newOps{};
 
   // iterate over DAG in depth-first fashion starting from the top-most qubit
-  const auto msq = dag.size() - 1;
+  const auto msq = noQubit;
   bool done = false;
   while (!done) {
     // assume that everything is done
@@ -1171,7 +1216,8 @@ void QuantumComputation::reorderOperations() {
       auto& op = **it;
 
       // check whether the gate can be scheduled, i.e. whether all qubits it
-      // acts on are at this operation
+      // acts on and all bits it accesses are at this operation
+      const auto entries = getDAGEntries(*op);
       bool executable = true;
       std::vector<bool> actsOn(dag.size());
       actsOn[static_cast<std::size_t>(q)] = true;
@@ -1179,7 +1225,7 @@ void QuantumComputation::reorderOperations() {
         // actually check in reverse order
         const auto qb =
             static_cast<std::make_signed_t<Qubit>>(dag.size() - 1 - i);
-        if (qb != q && op->actsOn(static_cast<Qubit>(qb))) {
+        if (qb != q && entries.count(static_cast<std::size_t>(qb)) != 0) {
           actsOn[static_cast<std::size_t>(qb)] = true;
 
           assert(dagIterators.at(static_cast<std::size_t>(qb)) !=
-- 
2.43.0


From eeec9c3490028acafda5bf744f1d4363be18d9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:40 +0000
Subject: [PATCH 015/163] fix: consider the qubits of grouped operations under
 classical control

---
 .../ir/operations/ClassicControlledOperation.hpp  | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/mqt-core/ir/operations/ClassicControlledOperation.hpp b/include/mqt-core/ir/operations/ClassicControlledOperation.hpp
index d1f1c2c..5be64f8 100644
--- a/include/mqt-core/ir/operations/ClassicControlledOperation.hpp
+++ b/include/mqt-core/ir/operations/ClassicControlledOperation.hpp
@@ -22,7 +22,9 @@
 #include <memory>
 #include <optional>
 #include <ostream>
+#include <set>
 #include <string>
+#include <vector>
 
 namespace qc {
 
@@ -105,6 +107,19 @@ public:
     return op->actsOn(i);
   }
 
+  [[nodiscard]] auto getUsedQubitsPermuted(const Permutation& perm) const
+      -> std::set<Qubit> override {
+    return op->getUsedQubitsPermuted(perm);
+  }
+
+  void addDepthContribution(std::vector<std::size_t>& depths) const override {
+    op->addDepthContribution(depths);
+  }
+
+  void apply(const Permutation& permutation) override {
+    op->apply(permutation);
+  }
+
   void addControl(const Control c) override { op->addControl(c); }
 
   void clearControls() override { op->clearControls(); }
-- 
2.43.0


From 2c74008c3cd85b42b7fcdd097bddaa9592daf871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:40 +0000
Subject: [PATCH 016/163] fix: commutation of symbolic gates with several
 parameters

---
 src/ir/operations/StandardOperation.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ir/operations/StandardOperation.cpp b/src/ir/operations/StandardOperation.cpp
index c800c22..47fff54 100644
--- a/src/ir/operations/StandardOperation.cpp
+++ b/src/ir/operations/StandardOperation.cpp
@@ -550,6 +550,9 @@ auto StandardOperation::commutesAtQubit(const Operation& other,
     //           |
     //    ───────■──
   }
+  if (isSymbolicOperation() || other.isSymbolicOperation()) {
+    return *this == other;
+  }
   // operations with more than one parameter might not be commutative when the
   // parameter are not the same, i.e. a general U3 gate
   // TODO: this check might introduce false negatives
-- 
2.43.0


From b822129abdd5cf7a76f7366103417bfd7e891ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:11 +0000
Subject: [PATCH 017/163] fix: keep very large gate angles finite

---
 include/mqt-core/ir/operations/StandardOperation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mqt-core/ir/operations/StandardOperation.hpp b/include/mqt-core/ir/operations/StandardOperation.hpp
index b488c4d..299cd7b 100644
--- a/include/mqt-core/ir/operations/StandardOperation.hpp
+++ b/include/mqt-core/ir/operations/StandardOperation.hpp
@@ -41,7 +41,7 @@ protected:
   static void checkFractionPi(fp& ld) {
     const fp div = PI / ld;
     const fp nearest = std::nearbyint(div);
-    if (std::abs(div - nearest) < PARAMETER_TOLERANCE) {
+    if (nearest != 0. && std::abs(div - nearest) < PARAMETER_TOLERANCE) {
       ld = PI / nearest;
     }
   }
-- 
2.43.0


From f2822232c02d772a5217758380625e7fc1e9604e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:11 +0000
Subject: [PATCH 018/163] fix: normalize large global phases without looping

---
 src/ir/QuantumComputation.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index 0690253..afffe7f 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -1348,12 +1348,12 @@ std::size_t QuantumComputation::getNgarbageQubits() const {
 ///---------------------------------------------------------------------------
 
 void QuantumComputation::gphase(const fp angle) {
-  globalPhase += angle;
   // normalize to [0, 2pi)
-  while (globalPhase < 0) {
+  globalPhase = std::fmod(globalPhase + std::fmod(angle, 2 * PI), 2 * PI);
+  if (globalPhase < 0) {
     globalPhase += 2 * PI;
   }
-  while (globalPhase >= 2 * PI) {
+  if (globalPhase >= 2 * PI) {
     globalPhase -= 2 * PI;
   }
 }
-- 
2.43.0


From d69e15287022986a877fe328e5f2f6e27a391499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:11 +0000
Subject: [PATCH 019/163] fix: do not use foreign iterators in
 Operation::removeControls

---
 include/mqt-core/ir/operations/Operation.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/mqt-core/ir/operations/Operation.hpp b/include/mqt-core/ir/operations/Operation.hpp
index 1861ad4..a7ef534 100644
--- a/include/mqt-core/ir/operations/Operation.hpp
+++ b/include/mqt-core/ir/operations/Operation.hpp
@@ -119,8 +119,10 @@ public:
   virtual Controls::iterator removeControl(Controls::iterator it) = 0;
 
   void removeControls(const Controls& c) {
-    for (auto it = c.begin(); it != c.end();) {
-      it = removeControl(it);
+    // copy, as the given controls might be the ones of this operation
+    const auto controlsToRemove = c;
+    for (const auto& control : controlsToRemove) {
+      removeControl(control);
     }
   }
 
-- 
2.43.0


From eeeac890043729f15b7887c6034902bce6d5070a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:11 +0000
Subject: [PATCH 020/163] fix: refuse controls on groups without changing them

---
 src/ir/operations/CompoundOperation.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/ir/operations/CompoundOperation.cpp b/src/ir/operations/CompoundOperation.cpp
index af2bc3c..ffdea4c 100644
--- a/src/ir/operations/CompoundOperation.cpp
+++ b/src/ir/operations/CompoundOperation.cpp
@@ -93,12 +93,22 @@ bool CompoundOperation::isSymbolicOperation() const {
 }
 
 void CompoundOperation::addControl(const Control c) {
-  controls.insert(c);
   // we can just add the controls to each operation, as the operations will
   // check if they already act on the control qubits.
-  for (const auto& op : ops) {
-    op->addControl(c);
+  auto it = ops.begin();
+  try {
+    for (; it != ops.end(); ++it) {
+      (*it)->addControl(c);
+    }
+  } catch (...) {
+    // undo the additions so that a refused control leaves no traces
+    while (it != ops.begin()) {
+      --it;
+      (*it)->removeControl(c);
+    }
+    throw;
   }
+  controls.insert(c);
 }
 
 void CompoundOperation::clearControls() {
-- 
2.43.0


From e7703bb0f831995fdad9aa5770cb30984d3112ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:53 +0000
Subject: [PATCH 021/163] fix: read the bits of all measurements in
 initializeIOMapping

---
 src/ir/QuantumComputation.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index afffe7f..863d0d4 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -270,14 +270,15 @@ void QuantumComputation::initializeIOMapping() {
       auto classicIt = op->getClassics().cbegin();
       for (const auto& q : op->getTargets()) {
         const auto qubitidx = q;
+        const auto bitidx = *classicIt;
+        ++classicIt;
         // only the first measurement of a qubit is used to determine the output
         // permutation
         if (measuredQubits.count(qubitidx) != 0) {
           continue;
         }
 
-        const auto bitidx = *classicIt;
-        if (outputPermutationFound) {
+        if (outputPermutationFound && outputPermutation.count(qubitidx) != 0) {
           // output permutation was already set before -> permute existing
           // values
           if (const auto current = outputPermutation.at(qubitidx);
@@ -295,7 +296,6 @@ void QuantumComputation::initializeIOMapping() {
           outputPermutation[qubitidx] = static_cast<Qubit>(bitidx);
         }
         measuredQubits.emplace(qubitidx);
-        ++classicIt;
       }
     }
   }
-- 
2.43.0


From 6678d5f3b0b033d0af27a5932d92a5a74a9d0187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:53 +0000
Subject: [PATCH 022/163] fix: clear all parts of the circuit in
 QuantumComputation::reset

---
 src/ir/QuantumComputation.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index 863d0d4..e80f77f 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -730,6 +730,10 @@ void QuantumComputation::reset() {
   ancillaRegisters.clear();
   initialLayout.clear();
   outputPermutation.clear();
+  ancillary.clear();
+  garbage.clear();
+  globalPhase = 0.;
+  occurringVariables.clear();
 }
 
 void QuantumComputation::dump(const std::string& filename,
-- 
2.43.0


From 14189bf6c84e200292b0995ece7e0ea95225b34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:53 +0000
Subject: [PATCH 023/163] fix: clear the ancillary flags when unifying quantum
 registers

---
 src/ir/QuantumComputation.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index e80f77f..586d951 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -940,6 +940,7 @@ QuantumComputation::unifyQuantumRegisters(const std::string& regName) {
   quantumRegisters.clear();
   nqubits += nancillae;
   nancillae = 0;
+  ancillary.assign(ancillary.size(), false);
   quantumRegisters.try_emplace(regName, 0, nqubits, regName);
   return quantumRegisters.at(regName);
 }
-- 
2.43.0


From ac9ca5c4d14db6fd5c2cef7697730b23115696cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:43 +0000
Subject: [PATCH 024/163] fix: apply barrier and measureAll to exactly the
 existing qubits

---
 src/ir/QuantumComputation.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index 586d951..43701d7 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -34,7 +34,6 @@
 #include <iterator>
 #include <map>
 #include <memory>
-#include <numeric>
 #include <optional>
 #include <ostream>
 #include <random>
@@ -1613,9 +1612,10 @@ void QuantumComputation::measureAll(const bool addBits) {
   }
   // measure i -> (start+i) in descending order
   // (this is an optimization for the simulator)
-  for (std::size_t i = getNqubits(); i > 0; --i) {
-    const auto q = static_cast<Qubit>(i - 1);
-    measure(q, start + q);
+  auto i = initialLayout.size();
+  for (auto it = initialLayout.rbegin(); it != initialLayout.rend(); ++it) {
+    --i;
+    measure(it->first, start + i);
   }
 }
 
@@ -1628,8 +1628,12 @@ void QuantumComputation::reset(const Targets& targets) {
   emplace_back<NonUnitaryOperation>(targets, Reset);
 }
 void QuantumComputation::barrier() {
-  std::vector<Qubit> targets(getNqubits());
-  std::iota(targets.begin(), targets.end(), 0);
+  // the physical qubit indices are not necessarily consecutive
+  std::vector<Qubit> targets{};
+  targets.reserve(initialLayout.size());
+  for (const auto& [physical, _] : initialLayout) {
+    targets.emplace_back(physical);
+  }
   emplace_back<StandardOperation>(targets, Barrier);
 }
 void QuantumComputation::barrier(const Qubit target) {
-- 
2.43.0


From b4aded379e37f43a9118da10d5b4156c09ab28ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:43 +0000
Subject: [PATCH 025/163] fix: refuse to add a logical qubit that already
 exists

---
 src/ir/QuantumComputation.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index 43701d7..c08ef76 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -504,6 +504,12 @@ void QuantumComputation::addQubit(const Qubit logicalQubitIndex,
         "already assigned");
   }
 
+  if (containsLogicalQubit(logicalQubitIndex).first) {
+    throw std::runtime_error("[addQubit] Logical qubit " +
+                             std::to_string(logicalQubitIndex) +
+                             " already exists in the circuit");
+  }
+
   if (logicalQubitIndex > nqubits) {
     throw std::runtime_error(
         "[addQubit] There are currently only " + std::to_string(nqubits) +
-- 
2.43.0


From 5437ca4e592db858bc23085eb4d0be973b46a982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:45 +0000
Subject: [PATCH 026/163] fix: order of operands when subtracting symbolic
 expressions

---
 include/mqt-core/ir/operations/Expression.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/mqt-core/ir/operations/Expression.hpp b/include/mqt-core/ir/operations/Expression.hpp
index 4430add..78e75f1 100644
--- a/include/mqt-core/ir/operations/Expression.hpp
+++ b/include/mqt-core/ir/operations/Expression.hpp
@@ -719,14 +719,12 @@ Expression<T, U> operator-(Expression<T, U> lhs, const Term<T>& rhs) {
   return lhs;
 }
 template <typename T, typename U>
-Expression<T, U> operator-(const Term<T>& lhs, Expression<T, U> rhs) {
-  rhs -= lhs;
-  return rhs;
+Expression<T, U> operator-(const Term<T>& lhs, const Expression<T, U>& rhs) {
+  return -rhs + lhs;
 }
 template <typename T, typename U>
-Expression<T, U> operator-(const U& lhs, Expression<T, U> rhs) {
-  rhs -= lhs;
-  return rhs;
+Expression<T, U> operator-(const U& lhs, const Expression<T, U>& rhs) {
+  return -rhs + lhs;
 }
 
 template <typename T, typename U>
-- 
2.43.0


From c113a0abfbdd0ad97efacfbd59c0fde5767899c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:45 +0000
Subject: [PATCH 027/163] fix: adding a number and a symbolic expression

---
 include/mqt-core/ir/operations/Expression.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/mqt-core/ir/operations/Expression.hpp b/include/mqt-core/ir/operations/Expression.hpp
index 78e75f1..2bd8779 100644
--- a/include/mqt-core/ir/operations/Expression.hpp
+++ b/include/mqt-core/ir/operations/Expression.hpp
@@ -701,10 +701,10 @@ Expression<T, U> operator+(Expression<T, U> lhs, const U& rhs) {
   return lhs;
 }
 
-template <typename T, typename U>
-Expression<T, U> operator+([[maybe_unused]] const T& lhs,
-                           Expression<T, U> rhs) {
-  rhs += rhs;
+template <typename T, typename U,
+          std::enable_if_t<!std::is_same_v<T, U>>* = nullptr>
+Expression<T, U> operator+(const T& lhs, Expression<T, U> rhs) {
+  rhs += U{lhs};
   return rhs;
 }
 
-- 
2.43.0


From 0721b0cf34f947d18011de627c5778af43886073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:45 +0000
Subject: [PATCH 028/163] fix: merge equal terms in all constructors of
 symbolic expressions

---
 include/mqt-core/ir/operations/Expression.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/mqt-core/ir/operations/Expression.hpp b/include/mqt-core/ir/operations/Expression.hpp
index 2bd8779..911d12a 100644
--- a/include/mqt-core/ir/operations/Expression.hpp
+++ b/include/mqt-core/ir/operations/Expression.hpp
@@ -353,7 +353,10 @@ public:
    * @param con Constant of the expression.
    */
   Expression(const std::vector<Term<T>>& ts, const U& con)
-      : terms(ts), constant(con) {};
+      : terms(ts), constant(con) {
+    sortTerms();
+    aggregateEqualTerms();
+  }
 
   /**
    * @brief Default constructor. Expression has no Terms and a constant of 0.
-- 
2.43.0


From 377a556d4e28276aafa0accb60e73a1c6540a067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:28 +0000
Subject: [PATCH 029/163] fix: determine the variables of a circuit from its
 operations

---
 include/mqt-core/ir/QuantumComputation.hpp |  5 +--
 src/ir/QuantumComputation.cpp              | 50 +++++++++++++++++++---
 2 files changed, 44 insertions(+), 11 deletions(-)

diff --git a/include/mqt-core/ir/QuantumComputation.hpp b/include/mqt-core/ir/QuantumComputation.hpp
index bbd9a2d..7411580 100644
--- a/include/mqt-core/ir/QuantumComputation.hpp
+++ b/include/mqt-core/ir/QuantumComputation.hpp
@@ -125,10 +125,7 @@ public:
 
   [[nodiscard]] fp getGlobalPhase() const noexcept { return globalPhase; }
 
-  [[nodiscard]] const std::unordered_set<sym::Variable>&
-  getVariables() const noexcept {
-    return occurringVariables;
-  }
+  [[nodiscard]] std::unordered_set<sym::Variable> getVariables() const;
 
   [[nodiscard]] std::size_t getNmeasuredQubits() const noexcept;
   [[nodiscard]] std::size_t getNgarbageQubits() const;
diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index c08ef76..c421fa8 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -1100,9 +1100,50 @@ void QuantumComputation::addVariable(const SymbolOrNumber& expr) {
   }
 }
 
+namespace {
+/// Collects all variables that occur in an operation.
+/// @return whether the operation contains any symbolic operation
+bool collectVariables(const Operation& op,
+                      std::unordered_set<sym::Variable>& variables) {
+  if (op.isClassicControlledOperation()) {
+    const auto& classic = dynamic_cast<const ClassicControlledOperation&>(op);
+    return collectVariables(*classic.getOperation(), variables);
+  }
+  if (op.isCompoundOperation()) {
+    bool symbolic = false;
+    for (const auto& g : dynamic_cast<const CompoundOperation&>(op)) {
+      symbolic = collectVariables(*g, variables) || symbolic;
+    }
+    return symbolic;
+  }
+  if (!op.isSymbolicOperation()) {
+    return false;
+  }
+  const auto& symOp = dynamic_cast<const SymbolicOperation&>(op);
+  for (const auto& param : symOp.getParameters()) {
+    if (std::holds_alternative<Symbolic>(param)) {
+      for (const auto& term : std::get<Symbolic>(param)) {
+        variables.insert(term.getVar());
+      }
+    }
+  }
+  return true;
+}
+} // namespace
+
+std::unordered_set<sym::Variable> QuantumComputation::getVariables() const {
+  auto variables = occurringVariables;
+  for (const auto& op : ops) {
+    collectVariables(*op, variables);
+  }
+  return variables;
+}
+
 bool QuantumComputation::isVariableFree() const {
-  return std::all_of(ops.begin(), ops.end(),
-                     [](const auto& op) { return !op->isSymbolicOperation(); });
+  std::unordered_set<sym::Variable> variables;
+  return std::none_of(ops.begin(), ops.end(), [&](const auto& op) {
+    return collectVariables(*op, variables);
+  });
 }
 
 // Instantiates this computation
@@ -1414,7 +1455,6 @@ DEFINE_SINGLE_TARGET_OPERATION(sxdg)
       emplace_back<StandardOperation>(controls, target, opTypeFromString(#op), \
                                       std::vector{std::get<fp>(param)});       \
     } else {                                                                   \
-      addVariables(param);                                                     \
       emplace_back<SymbolicOperation>(controls, target, opTypeFromString(#op), \
                                       std::vector{param});                     \
     }                                                                          \
@@ -1448,7 +1488,6 @@ DEFINE_SINGLE_TARGET_SINGLE_PARAMETER_OPERATION(p, theta)
           controls, target, opTypeFromString(#op),                             \
           std::vector{std::get<fp>(param0), std::get<fp>(param1)});            \
     } else {                                                                   \
-      addVariables(param0, param1);                                            \
       emplace_back<SymbolicOperation>(controls, target, opTypeFromString(#op), \
                                       std::vector{param0, param1});            \
     }                                                                          \
@@ -1484,7 +1523,6 @@ DEFINE_SINGLE_TARGET_TWO_PARAMETER_OPERATION(u2, phi, lambda)
                                                   std::get<fp>(param1),        \
                                                   std::get<fp>(param2)});      \
     } else {                                                                   \
-      addVariables(param0, param1, param2);                                    \
       emplace_back<SymbolicOperation>(controls, target, opTypeFromString(#op), \
                                       std::vector{param0, param1, param2});    \
     }                                                                          \
@@ -1539,7 +1577,6 @@ DEFINE_TWO_TARGET_OPERATION(move)
                                       opTypeFromString(#op),                   \
                                       std::vector{std::get<fp>(param)});       \
     } else {                                                                   \
-      addVariables(param);                                                     \
       emplace_back<SymbolicOperation>(controls, target0, target1,              \
                                       opTypeFromString(#op),                   \
                                       std::vector{param});                     \
@@ -1574,7 +1611,6 @@ DEFINE_TWO_TARGET_SINGLE_PARAMETER_OPERATION(rzx, theta)
           controls, target0, target1, opTypeFromString(#op),                   \
           std::vector{std::get<fp>(param0), std::get<fp>(param1)});            \
     } else {                                                                   \
-      addVariables(param0, param1);                                            \
       emplace_back<SymbolicOperation>(controls, target0, target1,              \
                                       opTypeFromString(#op),                   \
                                       std::vector{param0, param1});            \
-- 
2.43.0


From 3c5d6674a1f1035b54f0ee32a545809493b3d247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:28 +0000
Subject: [PATCH 030/163] fix: instantiate symbolic operations in groups and
 under classical control

---
 src/ir/QuantumComputation.cpp | 56 ++++++++++++++++++++++++++++-------
 1 file changed, 46 insertions(+), 10 deletions(-)

diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index c421fa8..a1f0518 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -1146,21 +1146,57 @@ bool QuantumComputation::isVariableFree() const {
   });
 }
 
+namespace {
+/// Instantiates an operation, including the operations it is composed of.
+void instantiateOperation(std::unique_ptr<Operation>& op,
+                          const VariableAssignment& assignment) {
+  if (op->isClassicControlledOperation()) {
+    const auto& classic = dynamic_cast<const ClassicControlledOperation&>(*op);
+    auto operation = classic.getOperation()->clone();
+    instantiateOperation(operation, assignment);
+    if (const auto& reg = classic.getControlRegister(); reg.has_value()) {
+      op = std::make_unique<ClassicControlledOperation>(
+          std::move(operation), *reg, classic.getExpectedValue(),
+          classic.getComparisonKind());
+    } else if (const auto& bit = classic.getControlBit(); bit.has_value()) {
+      op = std::make_unique<ClassicControlledOperation>(
+          std::move(operation), *bit, classic.getExpectedValue(),
+          classic.getComparisonKind());
+    }
+  } else if (op->isCompoundOperation()) {
+    for (auto& g : dynamic_cast<CompoundOperation&>(*op)) {
+      instantiateOperation(g, assignment);
+    }
+  } else if (auto* symOp = dynamic_cast<SymbolicOperation*>(op.get());
+             symOp != nullptr) {
+    symOp->instantiate(assignment);
+    // if the operation is fully instantiated, it can be replaced by the
+    // corresponding standard operation
+    if (symOp->isStandardOperation()) {
+      op = std::make_unique<StandardOperation>(
+          *dynamic_cast<StandardOperation*>(symOp));
+    }
+  }
+}
+} // namespace
+
 // Instantiates this computation
 void QuantumComputation::instantiateInplace(
     const VariableAssignment& assignment) {
-  for (auto& op : ops) {
-    if (auto* symOp = dynamic_cast<SymbolicOperation*>(op.get());
-        symOp != nullptr) {
-      symOp->instantiate(assignment);
-      // if the operation is fully instantiated, it can be replaced by the
-      // corresponding standard operation
-      if (symOp->isStandardOperation()) {
-        op = std::make_unique<StandardOperation>(
-            *dynamic_cast<StandardOperation*>(symOp));
-      }
+  // make sure that either all or none of the operations are instantiated
+  std::unordered_set<sym::Variable> variables;
+  for (const auto& op : ops) {
+    collectVariables(*op, variables);
+  }
+  for (const auto& var : variables) {
+    if (assignment.find(var) == assignment.end()) {
+      throw sym::SymbolicException("Cannot instantiate variable " +
+                                   var.getName() + ". No value given.");
     }
   }
+  for (auto& op : ops) {
+    instantiateOperation(op, assignment);
+  }
   // after an operation is instantiated, the respective parameters can be
   // removed from the circuit
   for (const auto& [var, _] : assignment) {
-- 
2.43.0


From 12c8496f6cfa7613630c67ba3da46f3bdd1926c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:08 +0000
Subject: [PATCH 031/163] fix: scale all parts of an expression by the same
 factor

---
 include/mqt-core/ir/operations/Expression.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mqt-core/ir/operations/Expression.hpp b/include/mqt-core/ir/operations/Expression.hpp
index 911d12a..d3a3ba0 100644
--- a/include/mqt-core/ir/operations/Expression.hpp
+++ b/include/mqt-core/ir/operations/Expression.hpp
@@ -513,7 +513,7 @@ public:
     }
     std::for_each(terms.begin(), terms.end(),
                   [&](auto& term) { term *= T{rhs}; });
-    constant *= rhs;
+    constant = U{double{constant} * double{rhs}};
     return *this;
   }
   ///@}
@@ -542,7 +542,7 @@ public:
     }
     std::for_each(terms.begin(), terms.end(),
                   [&](auto& term) { term /= T{rhs}; });
-    constant /= rhs;
+    constant = U{double{constant} / double{rhs}};
     return *this;
   }
 
-- 
2.43.0


From a8be4f6f83d5d2942c00d8f89117b575db93e6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:53 +0000
Subject: [PATCH 032/163] fix: recursive functionality construction of circuits
 with less than two operations

---
 src/dd/FunctionalityConstruction.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/dd/FunctionalityConstruction.cpp b/src/dd/FunctionalityConstruction.cpp
index 0b6e32c..acbc779 100644
--- a/src/dd/FunctionalityConstruction.cpp
+++ b/src/dd/FunctionalityConstruction.cpp
@@ -119,14 +119,13 @@ MatrixDD buildFunctionalityRecursive(const qc::QuantumComputation& qc,
     return MatrixDD::one();
   }
 
-  auto permutation = qc.initialLayout;
-
-  if (qc.size() == 1U) {
-    auto e = getDD(*qc.front(), dd, permutation);
-    dd.incRef(e);
-    return e;
+  // there is nothing to divide
+  if (qc.size() <= 1U) {
+    return buildFunctionality(qc, dd);
   }
 
+  auto permutation = qc.initialLayout;
+
   std::stack<MatrixDD> s{};
   auto depth = static_cast<std::size_t>(std::ceil(std::log2(qc.size())));
   buildFunctionalityRecursive(qc, depth, 0, s, permutation, dd);
-- 
2.43.0


From 696402fe8952887849be5ca2d2795f0d3dbf1bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:12 +0000
Subject: [PATCH 033/163] fix: include the global phase when building the
 functionality of a circuit

---
 src/dd/FunctionalityConstruction.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/dd/FunctionalityConstruction.cpp b/src/dd/FunctionalityConstruction.cpp
index acbc779..a281460 100644
--- a/src/dd/FunctionalityConstruction.cpp
+++ b/src/dd/FunctionalityConstruction.cpp
@@ -10,17 +10,33 @@
 
 #include "dd/FunctionalityConstruction.hpp"
 
+#include "dd/ComplexValue.hpp"
+#include "dd/DDDefinitions.hpp"
 #include "dd/Operations.hpp"
 #include "dd/Package.hpp"
 #include "ir/QuantumComputation.hpp"
 #include "ir/operations/OpType.hpp"
 
 #include <cmath>
+#include <complex>
 #include <cstddef>
 #include <stack>
 #include <utility>
 
 namespace dd {
+namespace {
+/// properly account for the global phase of the circuit
+void applyGlobalPhase(MatrixDD& e, const fp phase, Package& dd) {
+  if (std::abs(phase) > 0) {
+    // keep the old weight for reference counting
+    const auto oldW = e.w;
+    e.w = dd.cn.lookup(e.w * ComplexValue{std::polar(1.0, phase)});
+    dd.cn.incRef(e.w);
+    dd.cn.decRef(oldW);
+  }
+}
+} // namespace
+
 MatrixDD buildFunctionality(const qc::QuantumComputation& qc, Package& dd) {
   if (qc.getNqubits() == 0U) {
     return MatrixDD::one();
@@ -43,6 +59,7 @@ MatrixDD buildFunctionality(const qc::QuantumComputation& qc, Package& dd) {
   changePermutation(e, permutation, qc.outputPermutation, dd);
   e = dd.reduceAncillae(e, qc.getAncillary());
   e = dd.reduceGarbage(e, qc.getGarbage());
+  applyGlobalPhase(e, qc.getGlobalPhase(), dd);
 
   return e;
 }
@@ -136,6 +153,7 @@ MatrixDD buildFunctionalityRecursive(const qc::QuantumComputation& qc,
   changePermutation(e, permutation, qc.outputPermutation, dd);
   e = dd.reduceAncillae(e, qc.getAncillary());
   e = dd.reduceGarbage(e, qc.getGarbage());
+  applyGlobalPhase(e, qc.getGlobalPhase(), dd);
 
   return e;
 }
-- 
2.43.0


From e546ddcd8b7aab531bed663bfa1cba579ee46a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:12 +0000
Subject: [PATCH 034/163] fix: respect the controls of global phase gates in
 decision diagrams

---
 src/dd/Operations.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/dd/Operations.cpp b/src/dd/Operations.cpp
index e7e42f1..ad482dd 100644
--- a/src/dd/Operations.cpp
+++ b/src/dd/Operations.cpp
@@ -26,6 +26,7 @@
 
 #include <cassert>
 #include <cmath>
+#include <complex>
 #include <cstddef>
 #include <random>
 #include <sstream>
@@ -154,6 +155,18 @@ MatrixDD getDD(const qc::Operation& op, Package& dd,
     if (inverse) {
       phase = -phase;
     }
+    if (op.isControlled()) {
+      // a controlled phase acts on one of its controls like a (controlled)
+      // phase gate
+      auto controls = permutation.apply(op.getControls());
+      const auto control = *controls.begin();
+      controls.erase(controls.begin());
+      const auto factor = std::polar(1.0, phase);
+      const auto matrix = control.type == qc::Control::Type::Pos
+                              ? GateMatrix{1., 0., 0., factor}
+                              : GateMatrix{factor, 0., 0., 1.};
+      return dd.makeGateDD(matrix, controls, control.qubit);
+    }
     auto id = Package::makeIdent();
     id.w = dd.cn.lookup(std::cos(phase), std::sin(phase));
     return id;
-- 
2.43.0


From 752ff6577864958fdf62fbf9fa497e173f5470bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:33 +0000
Subject: [PATCH 035/163] fix: report the missing qubit when changing
 permutations

---
 include/mqt-core/dd/Operations.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mqt-core/dd/Operations.hpp b/include/mqt-core/dd/Operations.hpp
index 34c88d2..c997945 100644
--- a/include/mqt-core/dd/Operations.hpp
+++ b/include/mqt-core/dd/Operations.hpp
@@ -234,7 +234,7 @@ void changePermutation(DDType& on, qc::Permutation& from,
     auto it = from.find(i);
     if (it == from.end()) {
       throw std::runtime_error(
-          "[changePermutation] Key " + std::to_string(it->first) +
+          "[changePermutation] Key " + std::to_string(i) +
           " was not found in first permutation. This should never happen.");
     }
     auto current = it->second;
-- 
2.43.0


From 1b2e721a32b7e1e566263fc718845b4c385941ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:48 +0000
Subject: [PATCH 036/163] fix: use the given number of qubits in Kronecker
 products of matrices

---
 include/mqt-core/dd/Package.hpp | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/include/mqt-core/dd/Package.hpp b/include/mqt-core/dd/Package.hpp
index 516c035..6de376d 100644
--- a/include/mqt-core/dd/Package.hpp
+++ b/include/mqt-core/dd/Package.hpp
@@ -1457,9 +1457,24 @@ private:
       }
     }
 
+    // Increase the qubit index
+    Qubit idx = x.p->v;
+    if (incIdx) {
+      // use the given number of qubits for matrices since the upper qubits of y
+      // might be skipped if y acts as the identity on them
+      if constexpr (std::is_same_v<Node, mNode> ||
+                    std::is_same_v<Node, dNode>) {
+        idx += static_cast<Qubit>(yNumQubits);
+      } else {
+        idx += static_cast<Qubit>(y.p->v + 1U);
+      }
+    }
+
     // check if we already computed the product before and return the result
+    // (the same product might have been computed for a different index)
     auto& computeTable = getKroneckerComputeTable<Node>();
-    if (const auto* r = computeTable.lookup(x.p, y.p); r != nullptr) {
+    if (const auto* r = computeTable.lookup(x.p, y.p);
+        r != nullptr && r->p->v == idx) {
       return {r->p, rWeight};
     }
 
@@ -1469,21 +1484,6 @@ private:
       edge[i] = kronecker2(x.p->e[i], y, yNumQubits, incIdx);
     }
 
-    // Increase the qubit index
-    Qubit idx = x.p->v;
-    if (incIdx) {
-      // use the given number of qubits if y is an identity
-      if constexpr (std::is_same_v<Node, mNode> ||
-                    std::is_same_v<Node, dNode>) {
-        if (y.isIdentity()) {
-          idx += static_cast<Qubit>(yNumQubits);
-        } else {
-          idx += static_cast<Qubit>(y.p->v + 1U);
-        }
-      } else {
-        idx += static_cast<Qubit>(y.p->v + 1U);
-      }
-    }
     auto e = makeDDNode(idx, edge, true);
     computeTable.insert(x.p, y.p, {e.p, e.w});
     return {e.p, rWeight};
-- 
2.43.0


From 97c54b53ddf832a010f195f70fca65040304eaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:06 +0000
Subject: [PATCH 037/163] fix: permute outcomes correctly in
 fidelityOfMeasurementOutcomes

---
 include/mqt-core/dd/Package.hpp |  3 +--
 src/dd/Package.cpp              | 15 ++++++---------
 2 files changed, 7 insertions(+), 11 deletions(-)

diff --git a/include/mqt-core/dd/Package.hpp b/include/mqt-core/dd/Package.hpp
index 6de376d..47cc851 100644
--- a/include/mqt-core/dd/Package.hpp
+++ b/include/mqt-core/dd/Package.hpp
@@ -1327,12 +1327,11 @@ private:
    * @param probs A map of probabilities for each measurement outcome.
    * @param i The current index in the decision diagram traversal.
    * @param permutation An optional permutation of qubits.
-   * @param nQubits The number of qubits in the decision diagram.
    * @return The fidelity of the measurement outcomes.
    */
   static fp fidelityOfMeasurementOutcomesRecursive(
       const vEdge& e, const SparsePVec& probs, std::size_t i,
-      const qc::Permutation& permutation, std::size_t nQubits);
+      const qc::Permutation& permutation);
 
 public:
   /**
diff --git a/src/dd/Package.cpp b/src/dd/Package.cpp
index 6b3f0e2..91432ff 100644
--- a/src/dd/Package.cpp
+++ b/src/dd/Package.cpp
@@ -939,8 +939,7 @@ fp Package::fidelityOfMeasurementOutcomes(const vEdge& e,
   if (e.w.approximatelyZero()) {
     return 0.;
   }
-  return fidelityOfMeasurementOutcomesRecursive(e, probs, 0, permutation,
-                                                e.p->v + 1U);
+  return fidelityOfMeasurementOutcomesRecursive(e, probs, 0, permutation);
 }
 ComplexValue Package::innerProduct(const vEdge& x, const vEdge& y,
                                    const Qubit var) {
@@ -986,17 +985,15 @@ ComplexValue Package::innerProduct(const vEdge& x, const vEdge& y,
 }
 fp Package::fidelityOfMeasurementOutcomesRecursive(
     const vEdge& e, const SparsePVec& probs, const std::size_t i,
-    const qc::Permutation& permutation, const std::size_t nQubits) {
+    const qc::Permutation& permutation) {
   const auto top = ComplexNumbers::mag(e.w);
   if (e.isTerminal()) {
     auto idx = i;
     if (!permutation.empty()) {
-      const auto binaryString = intToBinaryString(i, nQubits);
-      std::string filteredString(permutation.size(), '0');
+      idx = 0U;
       for (const auto& [physical, logical] : permutation) {
-        filteredString[logical] = binaryString[physical];
+        idx |= ((i >> physical) & 1U) << logical;
       }
-      idx = std::stoull(filteredString, nullptr, 2);
     }
     if (auto it = probs.find(idx); it != probs.end()) {
       return top * std::sqrt(it->second);
@@ -1008,14 +1005,14 @@ fp Package::fidelityOfMeasurementOutcomesRecursive(
   fp leftContribution = 0.;
   if (!e.p->e[0].w.approximatelyZero()) {
     leftContribution = fidelityOfMeasurementOutcomesRecursive(
-        e.p->e[0], probs, leftIdx, permutation, nQubits);
+        e.p->e[0], probs, leftIdx, permutation);
   }
 
   const std::size_t rightIdx = i | (1ULL << e.p->v);
   auto rightContribution = 0.;
   if (!e.p->e[1].w.approximatelyZero()) {
     rightContribution = fidelityOfMeasurementOutcomesRecursive(
-        e.p->e[1], probs, rightIdx, permutation, nQubits);
+        e.p->e[1], probs, rightIdx, permutation);
   }
 
   return top * (leftContribution + rightContribution);
-- 
2.43.0


From 0219e063d61f5a41021e5b25098fd1361b916989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:18:37 +0000
Subject: [PATCH 038/163] fix: respect identity matrices when reading single
 matrix entries

---
 src/dd/Edge.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/dd/Edge.cpp b/src/dd/Edge.cpp
index 89ae1be..655378a 100644
--- a/src/dd/Edge.cpp
+++ b/src/dd/Edge.cpp
@@ -43,8 +43,10 @@ auto Edge<Node>::getValueByPath(const std::size_t numQubits,
                                 const std::string& decisions) const
     -> std::complex<fp> {
   auto c = static_cast<std::complex<fp>>(w);
-  if (isTerminal()) {
-    return c;
+  if constexpr (std::is_same_v<Node, vNode>) {
+    if (isTerminal()) {
+      return c;
+    }
   }
 
   auto r = *this;
@@ -356,10 +358,6 @@ template <typename T, isMatrixVariant<T>>
 auto Edge<Node>::getValueByIndex(const std::size_t numQubits,
                                  const std::size_t i, const std::size_t j) const
     -> std::complex<fp> {
-  if (isTerminal()) {
-    return static_cast<std::complex<fp>>(w);
-  }
-
   auto decisions = std::string(numQubits, '0');
   for (auto k = 0U; k < numQubits; ++k) {
     if ((i & (1ULL << k)) != 0U) {
-- 
2.43.0


From ed6a789565accad8324cf684843edb1607fd8831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:18:37 +0000
Subject: [PATCH 039/163] fix: insert numbers at the right end of a bucket of
 the number table

---
 src/dd/RealNumberUniqueTable.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dd/RealNumberUniqueTable.cpp b/src/dd/RealNumberUniqueTable.cpp
index 94f7ba3..58c6ae7 100644
--- a/src/dd/RealNumberUniqueTable.cpp
+++ b/src/dd/RealNumberUniqueTable.cpp
@@ -136,9 +136,9 @@ RealNumber* RealNumberUniqueTable::lookupNonNegative(const fp val) {
   // Depending on which border of the bucket the value lies, a value either
   // needs to be inserted in the front or the back of the bucket.
   if (key == lowerKey) {
-    return insertFront(key, val);
+    return insertBack(key, val);
   }
-  return insertBack(key, val);
+  return insertFront(key, val);
 }
 
 bool RealNumberUniqueTable::possiblyNeedsCollection() const noexcept {
-- 
2.43.0


From 20ae95dfb503f864ed69177c209c50b7c6333918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:09 +0000
Subject: [PATCH 040/163] fix: remove the remaining references to nodes freed
 by garbage collection from the compute tables

---
 src/dd/Package.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dd/Package.cpp b/src/dd/Package.cpp
index 91432ff..f18b0a9 100644
--- a/src/dd/Package.cpp
+++ b/src/dd/Package.cpp
@@ -115,6 +115,8 @@ bool Package::garbageCollect(bool force) {
   // been collected
   if (vCollect > 0) {
     vectorAdd.clear();
+    vectorAddMagnitudes.clear();
+    conjugateVector.clear();
     vectorInnerProduct.clear();
     vectorKronecker.clear();
     matrixVectorMultiplication.clear();
@@ -123,6 +125,7 @@ bool Package::garbageCollect(bool force) {
   // been collected
   if (mCollect > 0) {
     matrixAdd.clear();
+    matrixAddMagnitudes.clear();
     conjugateMatrixTranspose.clear();
     matrixKronecker.clear();
     matrixTrace.clear();
-- 
2.43.0


From 16e96bd5afd796d06aaabe161500082ea1408799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:09 +0000
Subject: [PATCH 041/163] fix: forget old reference counts when resetting a
 memory manager

---
 src/dd/MemoryManager.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dd/MemoryManager.cpp b/src/dd/MemoryManager.cpp
index fc05b2e..15f40bc 100644
--- a/src/dd/MemoryManager.cpp
+++ b/src/dd/MemoryManager.cpp
@@ -12,6 +12,7 @@
 
 #include "dd/LinkedListBase.hpp"
 
+#include <algorithm>
 #include <cassert>
 #include <cstddef>
 
@@ -55,6 +56,9 @@ void MemoryManager::reset(const bool resizeToTotal) noexcept {
     ++numAllocations;
   }
 
+  // entries must not remember anything (e.g., reference counts) from before
+  std::fill(chunks[0].begin(), chunks[0].end(), Chunk::value_type{});
+
   chunkIt = chunks[0].begin();
   chunkEndIt = chunks[0].end();
 
-- 
2.43.0


From 92cfb613b4e73e371d1a49743a879eab8344c828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:09 +0000
Subject: [PATCH 042/163] fix: keep the configured size when clearing unary
 compute tables

---
 include/mqt-core/dd/UnaryComputeTable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mqt-core/dd/UnaryComputeTable.hpp b/include/mqt-core/dd/UnaryComputeTable.hpp
index f3e684d..d69ba9c 100644
--- a/include/mqt-core/dd/UnaryComputeTable.hpp
+++ b/include/mqt-core/dd/UnaryComputeTable.hpp
@@ -106,7 +106,7 @@ public:
    * @brief Clear the compute table
    * @details Sets all entries to invalid.
    */
-  void clear() { valid = std::vector(NBUCKET, false); }
+  void clear() { valid = std::vector(stats.numBuckets, false); }
 
 private:
   /// The actual table storing the entries
-- 
2.43.0


From ed42b53f5be4ae57f770e6d2bc9ece53bcbfcd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:09 +0000
Subject: [PATCH 043/163] fix: compute levels correctly in partial traces over
 skipped qubits

---
 include/mqt-core/dd/Package.hpp | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/include/mqt-core/dd/Package.hpp b/include/mqt-core/dd/Package.hpp
index 47cc851..d6b9df5 100644
--- a/include/mqt-core/dd/Package.hpp
+++ b/include/mqt-core/dd/Package.hpp
@@ -1576,8 +1576,8 @@ private:
    */
   template <class Node>
   CachedEdge<Node> trace(const Edge<Node>& a,
-                         const std::vector<bool>& eliminate, std::size_t level,
-                         std::size_t alreadyEliminated = 0) {
+                         const std::vector<bool>& eliminate,
+                         std::size_t level) {
     const auto aWeight = static_cast<ComplexValue>(a.w);
     if (aWeight.approximatelyZero()) {
       return CachedEdge<Node>::zero();
@@ -1610,9 +1610,8 @@ private:
         }
       }
 
-      const auto elims = alreadyEliminated + 1;
-      auto r = add2(trace(a.p->e[0], eliminate, level - 1, elims),
-                    trace(a.p->e[3], eliminate, level - 1, elims), v - 1);
+      auto r = add2(trace(a.p->e[0], eliminate, level - 1),
+                    trace(a.p->e[3], eliminate, level - 1), v - 1);
 
       // The resulting weight is continuously normalized to the range [0,1] for
       // matrix nodes
@@ -1631,15 +1630,13 @@ private:
 
     std::array<CachedEdge<Node>, NEDGE> edge{};
     std::transform(a.p->e.cbegin(), a.p->e.cend(), edge.begin(),
-                   [this, &eliminate, &alreadyEliminated,
+                   [this, &eliminate,
                     &level](const Edge<Node>& e) -> CachedEdge<Node> {
-                     return trace(e, eliminate, level - 1, alreadyEliminated);
+                     return trace(e, eliminate, level - 1);
                    });
-    const auto adjustedV =
-        static_cast<Qubit>(static_cast<std::size_t>(a.p->v) -
-                           (static_cast<std::size_t>(std::count(
-                                eliminate.begin(), eliminate.end(), true)) -
-                            alreadyEliminated));
+    // every eliminated qubit below this one moves it down by one level
+    const auto adjustedV = static_cast<Qubit>(
+        v - std::count(eliminate.begin(), eliminate.begin() + v, true));
     auto r = makeDDNode(adjustedV, edge);
     r.w = r.w * aWeight;
     return r;
-- 
2.43.0


From 89ad9eae3c3fd3fe05a2dee27a45c2e53fac6e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:40 +0000
Subject: [PATCH 044/163] fix: reduce garbage of zero diagrams with normalized
 weights

---
 src/dd/Package.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/dd/Package.cpp b/src/dd/Package.cpp
index f18b0a9..9139e2a 100644
--- a/src/dd/Package.cpp
+++ b/src/dd/Package.cpp
@@ -1173,9 +1173,10 @@ mEdge Package::reduceAncillae(mEdge e, const std::vector<bool>& ancillary,
 vEdge Package::reduceGarbage(vEdge& e, const std::vector<bool>& garbage,
                              const bool normalizeWeights) {
   // return if no more garbage left
-  if (!normalizeWeights &&
-      (std::none_of(garbage.begin(), garbage.end(), [](bool v) { return v; }) ||
-       e.isTerminal())) {
+  if (e.isZeroTerminal() ||
+      (!normalizeWeights &&
+       (std::none_of(garbage.begin(), garbage.end(), [](bool v) { return v; }) ||
+        e.isTerminal()))) {
     return e;
   }
   Qubit lowerbound = 0;
@@ -1202,9 +1203,9 @@ vEdge Package::reduceGarbage(vEdge& e, const std::vector<bool>& garbage,
 mEdge Package::reduceGarbage(const mEdge& e, const std::vector<bool>& garbage,
                              const bool regular, const bool normalizeWeights) {
   // return if no more garbage left
-  if (!normalizeWeights &&
-      (std::none_of(garbage.begin(), garbage.end(), [](bool v) { return v; }) ||
-       e.isZeroTerminal())) {
+  if (e.isZeroTerminal() ||
+      (!normalizeWeights &&
+       std::none_of(garbage.begin(), garbage.end(), [](bool v) { return v; }))) {
     return e;
   }
 
-- 
2.43.0


From 942b04881ba7b64260e98b3b4574fc270d75216d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:40 +0000
Subject: [PATCH 045/163] fix: normalize the weight when reducing garbage of
 the identity

---
 src/dd/Package.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dd/Package.cpp b/src/dd/Package.cpp
index 9139e2a..fe4b044 100644
--- a/src/dd/Package.cpp
+++ b/src/dd/Package.cpp
@@ -1211,7 +1211,9 @@ mEdge Package::reduceGarbage(const mEdge& e, const std::vector<bool>& garbage,
 
   // if we have only identities and no other nodes
   if (e.isIdentity()) {
-    auto g = e;
+    auto g = normalizeWeights
+                 ? mEdge{e.p, cn.lookup(ComplexNumbers::mag(e.w))}
+                 : e;
     for (auto i = 0U; i < garbage.size(); ++i) {
       if (garbage[i]) {
         if (regular) {
-- 
2.43.0


From 2644ab132711c0f3c4c10bba28daabeaaf6bb7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:40 +0000
Subject: [PATCH 046/163] fix: release the operand when reducing multiples of
 the identity

---
 src/dd/Package.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dd/Package.cpp b/src/dd/Package.cpp
index fe4b044..2f66e44 100644
--- a/src/dd/Package.cpp
+++ b/src/dd/Package.cpp
@@ -1142,6 +1142,7 @@ mEdge Package::reduceAncillae(mEdge e, const std::vector<bool>& ancillary,
       }
     }
     incRef(g);
+    decRef(e);
     return g;
   }
 
@@ -1226,6 +1227,7 @@ mEdge Package::reduceGarbage(const mEdge& e, const std::vector<bool>& garbage,
       }
     }
     incRef(g);
+    decRef(e);
     return g;
   }
 
-- 
2.43.0


From 95a2100cfcc5467dbd22ffbc01701ebaf05d108c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:27 +0000
Subject: [PATCH 047/163] fix: do not inspect an empty stack in
 Package::transfer

---
 include/mqt-core/dd/Package.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mqt-core/dd/Package.hpp b/include/mqt-core/dd/Package.hpp
index d6b9df5..6c3407f 100644
--- a/include/mqt-core/dd/Package.hpp
+++ b/include/mqt-core/dd/Package.hpp
@@ -1821,7 +1821,7 @@ public:
         if (mappedNode.find(edge.p) != mappedNode.end()) {
           continue;
         }
-        hasChild = edge.p == stack.top()->p;
+        hasChild = !stack.empty() && edge.p == stack.top()->p;
       }
 
       if (hasChild) {
-- 
2.43.0


From 57c387805f401a0b4e6d77fb9bc6320c2780ec26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:27 +0000
Subject: [PATCH 048/163] fix: deserialize decision diagrams that consist of a
 terminal only

---
 include/mqt-core/dd/Package.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/mqt-core/dd/Package.hpp b/include/mqt-core/dd/Package.hpp
index 6c3407f..951d827 100644
--- a/include/mqt-core/dd/Package.hpp
+++ b/include/mqt-core/dd/Package.hpp
@@ -1861,7 +1861,8 @@ public:
   template <class Node, class Edge = Edge<Node>,
             std::size_t N = std::tuple_size_v<decltype(Node::e)>>
   Edge deserialize(std::istream& is, const bool readBinary = false) {
-    auto result = CachedEdge<Node>{};
+    // a file without any nodes represents a terminal
+    auto result = CachedEdge<Node>::one();
     ComplexValue rootweight{};
 
     std::unordered_map<std::int64_t, Node*> nodes{};
-- 
2.43.0


From 4c4a9db88a138be1a6616a0cbdbada39020a3d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:12 +0000
Subject: [PATCH 049/163] fix: skip nodes that are already transferred on the
 stack of Package::transfer

---
 include/mqt-core/dd/Package.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/mqt-core/dd/Package.hpp b/include/mqt-core/dd/Package.hpp
index 951d827..ad0f651 100644
--- a/include/mqt-core/dd/Package.hpp
+++ b/include/mqt-core/dd/Package.hpp
@@ -1812,6 +1812,12 @@ public:
       currentEdge = stack.top();
       stack.pop();
 
+      // nodes may have been transferred since they were put on the stack
+      while (!stack.empty() &&
+             mappedNode.find(stack.top()->p) != mappedNode.end()) {
+        stack.pop();
+      }
+
       bool hasChild = false;
       for (std::size_t i = 1; i < n && !hasChild; ++i) {
         auto& edge = currentEdge->p->e[i];
-- 
2.43.0


From 362d3648e337b1766843a307d6c1cfb39cb1197c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:42 +0000
Subject: [PATCH 050/163] fix: never measure an outcome of probability zero in
 a density matrix

---
 src/dd/Package.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dd/Package.cpp b/src/dd/Package.cpp
index 2f66e44..5f41b85 100644
--- a/src/dd/Package.cpp
+++ b/src/dd/Package.cpp
@@ -801,7 +801,7 @@ char Package::measureOneCollapsing(dEdge& e, const Qubit index,
   auto densityMatrixTrace = trace(tmp2, nrQubits);
 
   std::uniform_real_distribution<fp> dist(0., 1.);
-  if (const auto threshold = dist(mt); threshold > densityMatrixTrace.r) {
+  if (const auto threshold = dist(mt); threshold >= densityMatrixTrace.r) {
     auto const measOneDd = makeGateDD(MEAS_ONE_MAT, index);
     tmp0 = conjugateTranspose(measOneDd);
     tmp1 = multiply(e, densityFromMatrixEdge(tmp0), false);
-- 
2.43.0


From 8360ced2c9a00c11c00cd48063fe8e5a7de08184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:42 +0000
Subject: [PATCH 051/163] fix: record every bit when a qubit is measured
 several times in sample

---
 src/dd/Simulation.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dd/Simulation.cpp b/src/dd/Simulation.cpp
index 7606fe6..35ff608 100644
--- a/src/dd/Simulation.cpp
+++ b/src/dd/Simulation.cpp
@@ -53,7 +53,7 @@ std::map<std::string, std::size_t> sample(const qc::QuantumComputation& qc,
     mt.seed(seeds);
   }
 
-  std::map<qc::Qubit, std::size_t> measurementMap{};
+  std::map<std::size_t, qc::Qubit> measurementMap{};
 
   // rudimentary check whether circuit is dynamic
   for (const auto& op : qc) {
@@ -64,7 +64,7 @@ std::map<std::string, std::size_t> sample(const qc::QuantumComputation& qc,
     }
 
     // once a measurement is encountered we store the corresponding mapping
-    // (qubit -> bit)
+    // (bit -> qubit)
     if (const auto* measure = dynamic_cast<qc::NonUnitaryOperation*>(op.get());
         measure != nullptr && measure->getType() == qc::Measure) {
       hasMeasurements = true;
@@ -73,7 +73,7 @@ std::map<std::string, std::size_t> sample(const qc::QuantumComputation& qc,
       const auto& classic = measure->getClassics();
 
       for (std::size_t i = 0; i < quantum.size(); ++i) {
-        measurementMap[quantum.at(i)] = classic.at(i);
+        measurementMap[classic.at(i)] = quantum.at(i);
       }
     }
 
@@ -133,7 +133,7 @@ std::map<std::string, std::size_t> sample(const qc::QuantumComputation& qc,
       if (hasMeasurements) {
         // if the circuit contains measurements, we only want to return the
         // measured bits
-        for (const auto& [qubit, bit] : measurementMap) {
+        for (const auto& [bit, qubit] : measurementMap) {
           // measurement map specifies that the circuit `qubit` is measured into
           // a certain `bit`
           measurement[numBits - 1U - bit] =
-- 
2.43.0


From 74c005db48dbd2a2d127ef78f323dcd2541a45c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:42 +0000
Subject: [PATCH 052/163] fix: do not write out of bounds when sampling more
 qubits than bits

---
 src/dd/Simulation.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dd/Simulation.cpp b/src/dd/Simulation.cpp
index 35ff608..24c12b0 100644
--- a/src/dd/Simulation.cpp
+++ b/src/dd/Simulation.cpp
@@ -126,8 +126,10 @@ std::map<std::string, std::size_t> sample(const qc::QuantumComputation& qc,
     dd.decRef(e);
 
     std::map<std::string, std::size_t> actualCounts{};
-    const auto numBits =
-        qc.getClassicalRegisters().empty() ? qc.getNqubits() : qc.getNcbits();
+    // without measurements, there is one result per qubit
+    const auto numBits = hasMeasurements
+                             ? qc.getNcbits()
+                             : std::max(qc.getNqubits(), qc.getNcbits());
     for (const auto& [bitstring, count] : counts) {
       std::string measurement(numBits, '0');
       if (hasMeasurements) {
-- 
2.43.0


From 00c89c217f179a2ec66f81c3d34dbf9a2b03e885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:42 +0000
Subject: [PATCH 053/163] fix: do not apply the output permutation twice when
 sampling

---
 src/dd/Simulation.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dd/Simulation.cpp b/src/dd/Simulation.cpp
index 24c12b0..260aa84 100644
--- a/src/dd/Simulation.cpp
+++ b/src/dd/Simulation.cpp
@@ -142,11 +142,11 @@ std::map<std::string, std::size_t> sample(const qc::QuantumComputation& qc,
               bitstring[bitstring.size() - 1U - qc.outputPermutation.at(qubit)];
         }
       } else {
-        // otherwise, we consider the output permutation for determining where
-        // to measure the qubits to
+        // otherwise, the state has already been brought to the order given by
+        // the output permutation
         for (const auto& [qubit, bit] : qc.outputPermutation) {
           measurement[numBits - 1U - bit] =
-              bitstring[bitstring.size() - 1U - qubit];
+              bitstring[bitstring.size() - 1U - bit];
         }
       }
       actualCounts[measurement] += count;
-- 
2.43.0


From 2636d9c6b7b42fcaf78bda91eaae1583a73d27f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:08 +0000
Subject: [PATCH 054/163] fix: execute the non-unitary parts of compound
 operations in sample

---
 src/dd/Simulation.cpp | 100 ++++++++++++++++++++++++++++--------------
 1 file changed, 66 insertions(+), 34 deletions(-)

diff --git a/src/dd/Simulation.cpp b/src/dd/Simulation.cpp
index 260aa84..965255d 100644
--- a/src/dd/Simulation.cpp
+++ b/src/dd/Simulation.cpp
@@ -15,14 +15,17 @@
 #include "ir/Definitions.hpp"
 #include "ir/QuantumComputation.hpp"
 #include "ir/operations/ClassicControlledOperation.hpp"
+#include "ir/operations/CompoundOperation.hpp"
 #include "ir/operations/NonUnitaryOperation.hpp"
 #include "ir/operations/OpType.hpp"
+#include "ir/operations/Operation.hpp"
 
 #include <algorithm>
 #include <array>
 #include <cmath>
 #include <complex>
 #include <cstddef>
+#include <functional>
 #include <map>
 #include <memory>
 #include <random>
@@ -31,6 +34,19 @@
 #include <vector>
 
 namespace dd {
+namespace {
+// whether a compound operation contains anything besides unitary operations
+bool isNonUnitaryCompound(const qc::Operation& op) {
+  if (!op.isCompoundOperation()) {
+    return false;
+  }
+  const auto& compound = dynamic_cast<const qc::CompoundOperation&>(op);
+  return std::any_of(compound.begin(), compound.end(), [](const auto& o) {
+    return !o->isUnitary() || isNonUnitaryCompound(*o);
+  });
+}
+} // namespace
+
 std::map<std::string, std::size_t> sample(const qc::QuantumComputation& qc,
                                           const VectorDD& in, Package& dd,
                                           const std::size_t shots,
@@ -58,7 +74,8 @@ std::map<std::string, std::size_t> sample(const qc::QuantumComputation& qc,
   // rudimentary check whether circuit is dynamic
   for (const auto& op : qc) {
     // if it contains any dynamic circuit primitives, it certainly is dynamic
-    if (op->isClassicControlledOperation() || op->getType() == qc::Reset) {
+    if (op->isClassicControlledOperation() || op->getType() == qc::Reset ||
+        isNonUnitaryCompound(*op)) {
       isDynamicCircuit = true;
       break;
     }
@@ -162,40 +179,55 @@ std::map<std::string, std::size_t> sample(const qc::QuantumComputation& qc,
     auto permutation = qc.initialLayout;
     auto e = in;
     dd.incRef(e);
+    const std::function<void(const qc::Operation&)> apply =
+        [&](const qc::Operation& op) {
+          if (isNonUnitaryCompound(op)) {
+            for (const auto& o :
+                 dynamic_cast<const qc::CompoundOperation&>(op)) {
+              apply(*o);
+            }
+            return;
+          }
+
+          if (op.isUnitary()) {
+            // SWAP gates can be executed virtually by changing the permutation
+            if (op.getType() == qc::OpType::SWAP && !op.isControlled()) {
+              const auto& targets = op.getTargets();
+              std::swap(permutation.at(targets[0U]),
+                        permutation.at(targets[1U]));
+              return;
+            }
+
+            e = applyUnitaryOperation(op, e, dd, permutation);
+            return;
+          }
+
+          if (op.getType() == qc::OpType::Measure) {
+            const auto& measure =
+                dynamic_cast<const qc::NonUnitaryOperation&>(op);
+            e = applyMeasurement(measure, e, dd, mt, measurements, permutation);
+            return;
+          }
+
+          if (op.getType() == qc::OpType::Reset) {
+            const auto& reset =
+                dynamic_cast<const qc::NonUnitaryOperation&>(op);
+            e = applyReset(reset, e, dd, mt, permutation);
+            return;
+          }
+
+          if (op.isClassicControlledOperation()) {
+            const auto& classic =
+                dynamic_cast<const qc::ClassicControlledOperation&>(op);
+            e = applyClassicControlledOperation(classic, e, dd, measurements,
+                                                permutation);
+            return;
+          }
+
+          qc::unreachable();
+        };
     for (const auto& op : qc) {
-      if (op->isUnitary()) {
-        // SWAP gates can be executed virtually by changing the permutation
-        if (op->getType() == qc::OpType::SWAP && !op->isControlled()) {
-          const auto& targets = op->getTargets();
-          std::swap(permutation.at(targets[0U]), permutation.at(targets[1U]));
-          continue;
-        }
-
-        e = applyUnitaryOperation(*op, e, dd, permutation);
-        continue;
-      }
-
-      if (op->getType() == qc::OpType::Measure) {
-        const auto& measure = dynamic_cast<const qc::NonUnitaryOperation&>(*op);
-        e = applyMeasurement(measure, e, dd, mt, measurements, permutation);
-        continue;
-      }
-
-      if (op->getType() == qc::OpType::Reset) {
-        const auto& reset = dynamic_cast<const qc::NonUnitaryOperation&>(*op);
-        e = applyReset(reset, e, dd, mt, permutation);
-        continue;
-      }
-
-      if (op->isClassicControlledOperation()) {
-        const auto& classic =
-            dynamic_cast<const qc::ClassicControlledOperation&>(*op);
-        e = applyClassicControlledOperation(classic, e, dd, measurements,
-                                            permutation);
-        continue;
-      }
-
-      qc::unreachable();
+      apply(*op);
     }
 
     // reduce reference count of measured state
-- 
2.43.0


From 0016f57474da8c014c180e82fb5031a40a16cca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:54 +0000
Subject: [PATCH 055/163] fix: distinguish density matrix operands by their
 flags in compute tables

---
 include/mqt-core/dd/ComputeTable.hpp | 31 +++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/include/mqt-core/dd/ComputeTable.hpp b/include/mqt-core/dd/ComputeTable.hpp
index 50ec59e..38963cd 100644
--- a/include/mqt-core/dd/ComputeTable.hpp
+++ b/include/mqt-core/dd/ComputeTable.hpp
@@ -60,8 +60,32 @@ public:
     LeftOperandType leftOperand;
     RightOperandType rightOperand;
     ResultType result;
+    /// The density matrix flags of the operands at the time of the insertion
+    std::uint8_t leftFlags = 0U;
+    std::uint8_t rightFlags = 0U;
   };
 
+  /**
+   * @brief Get the temporary density matrix flags of an operand
+   * @details The same node represents different density matrices depending on
+   * the temporary flags that are currently set.
+   * @param operand The operand
+   * @return The flags if the operand is a density matrix, zero otherwise
+   */
+  template <class OperandType>
+  [[nodiscard]] static std::uint8_t
+  getTempFlags([[maybe_unused]] const OperandType& operand) {
+    if constexpr (std::is_same_v<OperandType, dNode*>) {
+      if (!dNode::isTerminal(operand)) {
+        return static_cast<std::uint8_t>(
+            dNode::getDensityMatrixTempFlags(operand->flags));
+      }
+    } else if constexpr (std::is_same_v<OperandType, dCachedEdge>) {
+      return getTempFlags(operand.p);
+    }
+    return 0U;
+  }
+
   /**
    * @brief Compute the hash value for a given pair of operands
    * @param leftOperand The left operand
@@ -111,7 +135,8 @@ public:
       stats.trackInsert();
       valid[key] = true;
     }
-    table[key] = {leftOperand, rightOperand, result};
+    table[key] = {leftOperand, rightOperand, result, getTempFlags(leftOperand),
+                  getTempFlags(rightOperand)};
   }
 
   /**
@@ -138,6 +163,10 @@ public:
     if (entry.rightOperand != rightOperand) {
       return result;
     }
+    if (entry.leftFlags != getTempFlags(leftOperand) ||
+        entry.rightFlags != getTempFlags(rightOperand)) {
+      return result;
+    }
 
     if constexpr (std::is_same_v<RightOperandType, dNode*> ||
                   std::is_same_v<RightOperandType, dCachedEdge>) {
-- 
2.43.0


From 4225544f22b1b0ccfccc07a175db3bbc02bf3dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:54 +0000
Subject: [PATCH 056/163] fix: multiply density matrices that are a multiple of
 the identity

---
 include/mqt-core/dd/Package.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mqt-core/dd/Package.hpp b/include/mqt-core/dd/Package.hpp
index ad0f651..32abeff 100644
--- a/include/mqt-core/dd/Package.hpp
+++ b/include/mqt-core/dd/Package.hpp
@@ -1079,7 +1079,7 @@ public:
       if (!xCopy.isTerminal()) {
         var = xCopy.p->v;
       }
-      if (!y.isTerminal() && yCopy.p->v > var) {
+      if (!yCopy.isTerminal() && yCopy.p->v > var) {
         var = yCopy.p->v;
       }
 
-- 
2.43.0


From 521466b42e1256392499b1659362a5ea26061a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:00 +0000
Subject: [PATCH 057/163] fix: apply deterministic noise to qubits that are
 skipped in density matrices

---
 src/dd/NoiseFunctionality.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dd/NoiseFunctionality.cpp b/src/dd/NoiseFunctionality.cpp
index 754883a..b4fe88f 100644
--- a/src/dd/NoiseFunctionality.cpp
+++ b/src/dd/NoiseFunctionality.cpp
@@ -280,14 +280,15 @@ dCachedEdge DeterministicNoiseFunctionality::applyNoiseEffects(
   auto originalCopy = dEdge{originalEdge.p, Complex::one()};
   ArrayOfEdges newEdges{};
   const auto nextLevel = static_cast<dd::Qubit>(level - 1U);
-  if (originalEdge.isIdentity()) {
+  if (originalEdge.isTerminal() || originalEdge.p->v < nextLevel) {
+    // the identity acts on the qubit at this level
     newEdges[0] =
         applyNoiseEffects(originalCopy, usedQubits, firstPathEdge, nextLevel);
     newEdges[3] =
         applyNoiseEffects(originalCopy, usedQubits, firstPathEdge, nextLevel);
   } else {
     for (std::size_t i = 0; i < newEdges.size(); i++) {
-      auto& successor = originalCopy.p->e[i];
+      auto successor = originalCopy.p->e[i];
       if (firstPathEdge || i == 1) {
         // If I am to the firstPathEdge I cannot minimize the necessary
         // operations anymore
-- 
2.43.0


From b18226b89092225c577092798cef839d48004823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:00 +0000
Subject: [PATCH 058/163] fix: account for skipped qubits in the trace of
 density matrices

---
 include/mqt-core/dd/Package.hpp | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/include/mqt-core/dd/Package.hpp b/include/mqt-core/dd/Package.hpp
index 32abeff..2025290 100644
--- a/include/mqt-core/dd/Package.hpp
+++ b/include/mqt-core/dd/Package.hpp
@@ -1531,8 +1531,10 @@ public:
    */
   template <class Node>
   ComplexValue trace(const Edge<Node>& a, const std::size_t numQubits) {
-    if (a.isIdentity()) {
-      return static_cast<ComplexValue>(a.w);
+    if constexpr (!std::is_same_v<Node, dNode>) {
+      if (a.isIdentity()) {
+        return static_cast<ComplexValue>(a.w);
+      }
     }
     const auto eliminate = std::vector<bool>(numQubits, true);
     return trace(a, eliminate, numQubits).w;
@@ -1583,6 +1585,24 @@ private:
       return CachedEdge<Node>::zero();
     }
 
+    if constexpr (std::is_same_v<Node, dNode>) {
+      // The trace of density matrices is not normalized. Thus, every level that
+      // is skipped because it resembles the identity contributes a factor of 2.
+      const auto next =
+          a.isTerminal() ? 0U : static_cast<std::size_t>(a.p->v) + 1U;
+      if (next < level) {
+        const auto skipped = std::count(
+            eliminate.begin() +
+                static_cast<std::vector<bool>::difference_type>(next),
+            eliminate.begin() +
+                static_cast<std::vector<bool>::difference_type>(level),
+            true);
+        auto r = trace(a, eliminate, next);
+        r.w = r.w * std::pow(2., skipped);
+        return r;
+      }
+    }
+
     // If `a` is the identity matrix or there is nothing left to eliminate,
     // then simply return `a`
     if (a.isIdentity() ||
-- 
2.43.0


From 85933d7c4d7842f1bc21b4b41316f2df1ef7e34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:00 +0000
Subject: [PATCH 059/163] fix: measure density matrices in which qubits are
 skipped

---
 src/dd/Package.cpp | 42 ++++++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/src/dd/Package.cpp b/src/dd/Package.cpp
index 5f41b85..e88530c 100644
--- a/src/dd/Package.cpp
+++ b/src/dd/Package.cpp
@@ -788,40 +788,42 @@ char Package::measureOneCollapsing(vEdge& rootEdge, const Qubit index,
 }
 char Package::measureOneCollapsing(dEdge& e, const Qubit index,
                                    std::mt19937_64& mt) {
-  char measuredResult = '0';
   dEdge::alignDensityEdge(e);
-  const auto nrQubits = e.p->v + 1U;
+  const auto nrQubits = std::max<std::size_t>(
+      e.isTerminal() ? 0U : static_cast<std::size_t>(e.p->v) + 1U,
+      static_cast<std::size_t>(index) + 1U);
   dEdge::setDensityMatrixTrue(e);
 
-  auto const measZeroDd = makeGateDD(MEAS_ZERO_MAT, index);
+  const auto project = [this, &e](const mEdge& projector) {
+    const auto tmp0 = conjugateTranspose(projector);
+    const auto tmp1 = multiply(e, densityFromMatrixEdge(tmp0), false);
+    return multiply(densityFromMatrixEdge(projector), tmp1, true);
+  };
+  auto zero = project(makeGateDD(MEAS_ZERO_MAT, index));
+  auto one = project(makeGateDD(MEAS_ONE_MAT, index));
 
-  auto tmp0 = conjugateTranspose(measZeroDd);
-  auto tmp1 = multiply(e, densityFromMatrixEdge(tmp0), false);
-  auto tmp2 = multiply(densityFromMatrixEdge(measZeroDd), tmp1, true);
-  auto densityMatrixTrace = trace(tmp2, nrQubits);
+  // both traces share the factor that stems from qubits above the root node
+  const auto pZero = trace(zero, nrQubits).r;
+  const auto pOne = trace(one, nrQubits).r;
+  const auto sum = pZero + pOne;
 
   std::uniform_real_distribution<fp> dist(0., 1.);
-  if (const auto threshold = dist(mt); threshold >= densityMatrixTrace.r) {
-    auto const measOneDd = makeGateDD(MEAS_ONE_MAT, index);
-    tmp0 = conjugateTranspose(measOneDd);
-    tmp1 = multiply(e, densityFromMatrixEdge(tmp0), false);
-    tmp2 = multiply(densityFromMatrixEdge(measOneDd), tmp1, true);
-    measuredResult = '1';
-    densityMatrixTrace = trace(tmp2, nrQubits);
-  }
+  const auto measuredZero = dist(mt) < pZero / sum;
+  const auto& result = measuredZero ? zero : one;
+  const auto probability = (measuredZero ? pZero : pOne) / sum;
 
-  incRef(tmp2);
+  incRef(result);
   dEdge::alignDensityEdge(e);
   decRef(e);
-  e = tmp2;
+  e = result;
   dEdge::setDensityMatrixTrue(e);
 
   // Normalize density matrix
-  auto result = e.w / densityMatrixTrace;
+  const auto weight = e.w / probability;
   cn.decRef(e.w);
-  e.w = cn.lookup(result);
+  e.w = cn.lookup(weight);
   cn.incRef(e.w);
-  return measuredResult;
+  return measuredZero ? '0' : '1';
 }
 void Package::performCollapsingMeasurement(vEdge& rootEdge, const Qubit index,
                                            const fp probability,
-- 
2.43.0


From 172b5905f071d380a53b529f71e57f03cb603246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:00 +0000
Subject: [PATCH 060/163] fix: use the amplitude damping probability for
 multi-qubit damping

---
 src/dd/NoiseFunctionality.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dd/NoiseFunctionality.cpp b/src/dd/NoiseFunctionality.cpp
index b4fe88f..5b802a6 100644
--- a/src/dd/NoiseFunctionality.cpp
+++ b/src/dd/NoiseFunctionality.cpp
@@ -70,8 +70,8 @@ StochasticNoiseFunctionality::StochasticNoiseFunctionality(
       sqrtAmplitudeDampingProbability(std::sqrt(amplitudeDampingProb)),
       oneMinusSqrtAmplitudeDampingProbability(
           std::sqrt(1 - amplitudeDampingProb)),
-      sqrtAmplitudeDampingProbabilityMulti(std::sqrt(gateNoiseProbability) *
-                                           multiQubitGateFactor),
+      sqrtAmplitudeDampingProbabilityMulti(
+          std::sqrt(multiQubitGateFactor * amplitudeDampingProb)),
       oneMinusSqrtAmplitudeDampingProbabilityMulti(
           std::sqrt(1 - (multiQubitGateFactor * amplitudeDampingProb))),
       ampDampingTrue({0, sqrtAmplitudeDampingProbability, 0, 0}),
-- 
2.43.0


From 4f15dbf18d0a8584abad8297ec1e11bcc0ffa810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:00 +0000
Subject: [PATCH 061/163] fix: do not reuse noise operations of other noise
 probabilities

---
 src/dd/NoiseFunctionality.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dd/NoiseFunctionality.cpp b/src/dd/NoiseFunctionality.cpp
index 5b802a6..40ff232 100644
--- a/src/dd/NoiseFunctionality.cpp
+++ b/src/dd/NoiseFunctionality.cpp
@@ -84,6 +84,8 @@ StochasticNoiseFunctionality::StochasticNoiseFunctionality(
   sanityCheckOfNoiseProbabilities(gateNoiseProbability, amplitudeDampingProb,
                                   multiQubitGateFactor);
   package->incRef(identityDD);
+  // the cached operations depend on the probabilities
+  package->stochasticNoiseOperationCache.clear();
 }
 
 double StochasticNoiseFunctionality::getNoiseProbability(
-- 
2.43.0


From 9d9e01f82ea17501b70c88e03eeea1ee2b737af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:00 +0000
Subject: [PATCH 062/163] fix: never flip the phase if the probability for it
 is zero

---
 src/dd/NoiseFunctionality.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dd/NoiseFunctionality.cpp b/src/dd/NoiseFunctionality.cpp
index 40ff232..fb827b2 100644
--- a/src/dd/NoiseFunctionality.cpp
+++ b/src/dd/NoiseFunctionality.cpp
@@ -223,7 +223,7 @@ qc::OpType StochasticNoiseFunctionality::returnNoiseOperation(
     return qc::Z;
   }
   case PhaseFlip: {
-    if (prob > getNoiseProbability(multiQubitNoiseFlag)) {
+    if (prob >= getNoiseProbability(multiQubitNoiseFlag)) {
       return qc::I;
     }
     return qc::Z;
-- 
2.43.0


From cc090667da610576c162732896d09dc4589c7e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:56 +0000
Subject: [PATCH 063/163] fix: label the probabilities of density matrices with
 all qubits

---
 src/dd/Edge.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/dd/Edge.cpp b/src/dd/Edge.cpp
index 655378a..66e46e8 100644
--- a/src/dd/Edge.cpp
+++ b/src/dd/Edge.cpp
@@ -540,13 +540,12 @@ auto Edge<Node>::getSparseProbabilityVectorStrKeys(const std::size_t numQubits,
 
   auto e = *this;
   Edge<dNode>::alignDensityEdge(e);
-  const auto nqubits = static_cast<std::size_t>(e.p->v) + 1U;
 
   auto probabilities = SparsePVecStrKeys{};
   e.traverseDiagonal(
       1, 0,
-      [&probabilities, &nqubits](const std::size_t i, const fp& prob) {
-        probabilities[intToBinaryString(i, nqubits)] = prob;
+      [&probabilities, numQubits](const std::size_t i, const fp& prob) {
+        probabilities[intToBinaryString(i, numQubits)] = prob;
       },
       numQubits, threshold);
   return probabilities;
-- 
2.43.0


From ab5bff0be4f9979dfd4606ce53629457154fb331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:12 +0000
Subject: [PATCH 064/163] fix: choose noise effects independently of amplitude
 damping

---
 include/mqt-core/dd/NoiseFunctionality.hpp |  2 +-
 src/dd/NoiseFunctionality.cpp              | 29 ++++++++++++++--------
 2 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/include/mqt-core/dd/NoiseFunctionality.hpp b/include/mqt-core/dd/NoiseFunctionality.hpp
index 564eac3..cdce3a4 100644
--- a/include/mqt-core/dd/NoiseFunctionality.hpp
+++ b/include/mqt-core/dd/NoiseFunctionality.hpp
@@ -95,7 +95,7 @@ protected:
                                      const GateMatrix& matrix) const;
 
   mEdge generateNoiseOperation(mEdge operation, qc::Qubit target,
-                               std::mt19937_64& generator,
+                               const std::vector<double>& probs,
                                bool amplitudeDamping, bool multiQubitOperation);
 
   [[nodiscard]] qc::OpType returnNoiseOperation(NoiseOperations noiseOperation,
diff --git a/src/dd/NoiseFunctionality.cpp b/src/dd/NoiseFunctionality.cpp
index fb827b2..8e715d5 100644
--- a/src/dd/NoiseFunctionality.cpp
+++ b/src/dd/NoiseFunctionality.cpp
@@ -115,7 +115,15 @@ void StochasticNoiseFunctionality::applyNoiseOperation(
   const bool multiQubitOperation = targets.size() > 1;
 
   for (const auto& target : targets) {
-    auto stackedOperation = generateNoiseOperation(operation, target, generator,
+    // the random values are drawn once, such that the choice of the other
+    // effects is independent of whether amplitude damping occurs
+    std::vector<double> probs(noiseEffects.size());
+    for (std::size_t i = 0; i < probs.size(); ++i) {
+      if (noiseEffects[i] != AmplitudeDamping) {
+        probs[i] = dist(generator);
+      }
+    }
+    auto stackedOperation = generateNoiseOperation(operation, target, probs,
                                                    false, multiQubitOperation);
     auto tmp = package->multiply(stackedOperation, state);
 
@@ -125,8 +133,8 @@ void StochasticNoiseFunctionality::applyNoiseOperation(
       // normalization constraint of decision diagrams the probability for
       // applying amplitude damping stands in the root edge weight, of the dd
       // after the noise has been applied
-      stackedOperation = generateNoiseOperation(operation, target, generator,
-                                                true, multiQubitOperation);
+      stackedOperation = generateNoiseOperation(operation, target, probs, true,
+                                                multiQubitOperation);
       tmp = package->multiply(stackedOperation, state);
     }
     tmp.w = Complex::one();
@@ -154,14 +162,15 @@ mEdge StochasticNoiseFunctionality::stackOperation(
 }
 
 mEdge StochasticNoiseFunctionality::generateNoiseOperation(
-    mEdge operation, const qc::Qubit target, std::mt19937_64& generator,
+    mEdge operation, const qc::Qubit target, const std::vector<double>& probs,
     const bool amplitudeDamping, const bool multiQubitOperation) {
-  for (const auto& noiseType : noiseEffects) {
-    const auto effect = noiseType == AmplitudeDamping
-                            ? getAmplitudeDampingOperationType(
-                                  multiQubitOperation, amplitudeDamping)
-                            : returnNoiseOperation(noiseType, dist(generator),
-                                                   multiQubitOperation);
+  for (std::size_t i = 0; i < noiseEffects.size(); ++i) {
+    const auto noiseType = noiseEffects[i];
+    const auto effect =
+        noiseType == AmplitudeDamping
+            ? getAmplitudeDampingOperationType(multiQubitOperation,
+                                               amplitudeDamping)
+            : returnNoiseOperation(noiseType, probs[i], multiQubitOperation);
     switch (effect) {
     case (qc::I): {
       continue;
-- 
2.43.0


From 9910d4a8c40ea48025b4e7b0791abe7be8d930b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:12 +0000
Subject: [PATCH 065/163] fix: never choose an amplitude damping outcome of
 probability zero

---
 src/dd/NoiseFunctionality.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dd/NoiseFunctionality.cpp b/src/dd/NoiseFunctionality.cpp
index 8e715d5..1a5c9c5 100644
--- a/src/dd/NoiseFunctionality.cpp
+++ b/src/dd/NoiseFunctionality.cpp
@@ -127,7 +127,7 @@ void StochasticNoiseFunctionality::applyNoiseOperation(
                                                    false, multiQubitOperation);
     auto tmp = package->multiply(stackedOperation, state);
 
-    if (ComplexNumbers::mag2(tmp.w) < dist(generator)) {
+    if (ComplexNumbers::mag2(tmp.w) <= dist(generator)) {
       // The probability of amplitude damping does not only depend on the
       // noise probability, but also the quantum state. Due to the
       // normalization constraint of decision diagrams the probability for
-- 
2.43.0


From 80c1e34d4d0c8ea454b6f7df9583485a8e05e841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:15 +0000
Subject: [PATCH 066/163] fix: clear the density matrix compute tables when
 collecting matrices

---
 src/dd/Package.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dd/Package.cpp b/src/dd/Package.cpp
index e88530c..25054eb 100644
--- a/src/dd/Package.cpp
+++ b/src/dd/Package.cpp
@@ -132,6 +132,10 @@ bool Package::garbageCollect(bool force) {
     matrixVectorMultiplication.clear();
     matrixMatrixMultiplication.clear();
     stochasticNoiseOperationCache.clear();
+    // matrices are operands in operations on density matrices
+    densityAdd.clear();
+    densityDensityMultiplication.clear();
+    densityTrace.clear();
   }
   // invalidate all compute tables involving density matrices if any density
   // matrix node has been collected
-- 
2.43.0


From be630d3928104fe618f30c4b63cce45a3f6da79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:13 +0000
Subject: [PATCH 067/163] fix: keep the flags of density matrices when reading
 a node twice

---
 src/dd/Edge.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dd/Edge.cpp b/src/dd/Edge.cpp
index 66e46e8..2e1b821 100644
--- a/src/dd/Edge.cpp
+++ b/src/dd/Edge.cpp
@@ -491,7 +491,8 @@ auto Edge<Node>::traverseMatrix(const std::complex<fp>& amp,
   const auto coords = {std::pair{i, j}, {i, y}, {x, j}, {x, y}};
   std::size_t k = 0U;
   for (const auto& [a, b] : coords) {
-    if (auto& e = p->e[k++]; !e.w.exactlyZero()) {
+    // a copy, so that the flags are still there if the node is visited again
+    if (auto e = p->e[k++]; !e.w.exactlyZero()) {
       if constexpr (std::is_same_v<Node, dNode>) {
         Edge<dNode>::applyDmChangesToEdge(e);
       }
-- 
2.43.0


From 4e906deb2f30db41676b56476cb0d0490209fc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:57 +0000
Subject: [PATCH 068/163] fix: store whether results in compute tables are
 density matrices

---
 include/mqt-core/dd/ComputeTable.hpp | 17 ++++++++++++-----
 include/mqt-core/dd/Package.hpp      |  2 +-
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/mqt-core/dd/ComputeTable.hpp b/include/mqt-core/dd/ComputeTable.hpp
index 38963cd..180ba13 100644
--- a/include/mqt-core/dd/ComputeTable.hpp
+++ b/include/mqt-core/dd/ComputeTable.hpp
@@ -63,6 +63,8 @@ public:
     /// The density matrix flags of the operands at the time of the insertion
     std::uint8_t leftFlags = 0U;
     std::uint8_t rightFlags = 0U;
+    /// Whether the result is in the reduced form of density matrices
+    bool densityMatrix = false;
   };
 
   /**
@@ -125,9 +127,11 @@ public:
    * @param leftOperand The left operand
    * @param rightOperand The right operand
    * @param result The result of the operation
+   * @param densityMatrix Whether the result is a (reduced) density matrix
    */
   void insert(const LeftOperandType& leftOperand,
-              const RightOperandType& rightOperand, const ResultType& result) {
+              const RightOperandType& rightOperand, const ResultType& result,
+              const bool densityMatrix = false) {
     const auto key = hash(leftOperand, rightOperand);
     if (valid[key]) {
       ++stats.collisions;
@@ -135,8 +139,12 @@ public:
       stats.trackInsert();
       valid[key] = true;
     }
-    table[key] = {leftOperand, rightOperand, result, getTempFlags(leftOperand),
-                  getTempFlags(rightOperand)};
+    table[key] = {leftOperand,
+                  rightOperand,
+                  result,
+                  getTempFlags(leftOperand),
+                  getTempFlags(rightOperand),
+                  densityMatrix};
   }
 
   /**
@@ -174,8 +182,7 @@ public:
       // density matrix may not be returned when a matrix is required and vice
       // versa
       if (!dNode::isTerminal(entry.result.p) &&
-          dNode::isDensityMatrixNode(entry.result.p->flags) !=
-              useDensityMatrix) {
+          entry.densityMatrix != useDensityMatrix) {
         return result;
       }
     }
diff --git a/include/mqt-core/dd/Package.hpp b/include/mqt-core/dd/Package.hpp
index 2025290..7d92722 100644
--- a/include/mqt-core/dd/Package.hpp
+++ b/include/mqt-core/dd/Package.hpp
@@ -1251,7 +1251,7 @@ private:
     }
 
     auto e = makeDDNode(var, edge, generateDensityMatrix);
-    computeTable.insert(x.p, y.p, e);
+    computeTable.insert(x.p, y.p, e, generateDensityMatrix);
 
     e.w = e.w * rWeight;
     return e;
-- 
2.43.0


From ab2787199744c2f653488c153b28ba61bc22e76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:47 +0000
Subject: [PATCH 069/163] fix: do not mix up shared nodes when multiplying
 density matrices

---
 include/mqt-core/dd/Node.hpp    |  3 +++
 include/mqt-core/dd/Package.hpp | 32 ++++++++++++++++++++++++--------
 src/dd/Node.cpp                 |  6 ++++++
 3 files changed, 33 insertions(+), 8 deletions(-)

diff --git a/include/mqt-core/dd/Node.hpp b/include/mqt-core/dd/Node.hpp
index fac5f95..b416adf 100644
--- a/include/mqt-core/dd/Node.hpp
+++ b/include/mqt-core/dd/Node.hpp
@@ -196,6 +196,9 @@ struct dNode final : NodeBase {       // NOLINT(readability-identifier-naming)
   static void applyDmChangesToNode(dNode*& p) noexcept;
 
   static void revertDmChangesToNode(dNode*& p) noexcept;
+
+  /// Revert the changes to a node and mark them at the pointer instead.
+  static void markDmChangesAtPointer(dNode*& p) noexcept;
 };
 using dEdge = Edge<dNode>;
 using dCachedEdge = CachedEdge<dNode>;
diff --git a/include/mqt-core/dd/Package.hpp b/include/mqt-core/dd/Package.hpp
index 7d92722..895b53d 100644
--- a/include/mqt-core/dd/Package.hpp
+++ b/include/mqt-core/dd/Package.hpp
@@ -1172,6 +1172,20 @@ private:
     constexpr std::size_t rows = RADIX;
     constexpr std::size_t cols = n == NEDGE ? RADIX : 1U;
 
+    // Operands that are not at the current level are passed on to the next one.
+    // Density matrices are passed on in the same way as the successors of a
+    // node, i.e., any temporary changes are undone and marked at the pointer.
+    auto* xSkipped = x.p;
+    auto* ySkipped = y.p;
+    if constexpr (std::is_same_v<LeftOperandNode, dNode>) {
+      if (!x.isTerminal() && x.p->v != var) {
+        dNode::markDmChangesAtPointer(xSkipped);
+      }
+      if (!y.isTerminal() && y.p->v != var) {
+        dNode::markDmChangesAtPointer(ySkipped);
+      }
+    }
+
     std::array<ResultEdge, n> edge{};
     for (auto i = 0U; i < rows; i++) {
       for (auto j = 0U; j < cols; j++) {
@@ -1184,7 +1198,7 @@ private:
             e1 = x.p->e[xIdx];
           } else {
             if (xIdx == 0 || xIdx == 3) {
-              e1 = LEdge{x.p, Complex::one()};
+              e1 = LEdge{xSkipped, Complex::one()};
             } else {
               e1 = LEdge::zero();
             }
@@ -1196,7 +1210,7 @@ private:
             e2 = y.p->e[yIdx];
           } else {
             if (yIdx == 0 || yIdx == 3) {
-              e2 = REdge{y.p, Complex::one()};
+              e2 = REdge{ySkipped, Complex::one()};
             } else {
               e2 = REdge::zero();
             }
@@ -1225,18 +1239,15 @@ private:
             } else {
               m = multiply2(e1, e2, v, generateDensityMatrix);
             }
+            // Undo modifications on density matrices. This must happen before
+            // the addition because the results may share nodes with them.
+            dEdge::revertDmChangesToEdges(e1, e2);
 
             if (k == 0 || edge[idx].w.exactlyZero()) {
               edge[idx] = m;
             } else if (!m.w.exactlyZero()) {
-              dNode::applyDmChangesToNode(edge[idx].p);
-              dNode::applyDmChangesToNode(m.p);
               edge[idx] = add2(edge[idx], m, v);
-              dNode::revertDmChangesToNode(m.p);
-              dNode::revertDmChangesToNode(edge[idx].p);
             }
-            // Undo modifications on density matrices
-            dEdge::revertDmChangesToEdges(e1, e2);
           } else {
             auto m = multiply2(e1, e2, v);
 
@@ -1250,6 +1261,11 @@ private:
       }
     }
 
+    if constexpr (std::is_same_v<LeftOperandNode, dNode>) {
+      dNode::applyDmChangesToNode(xSkipped);
+      dNode::applyDmChangesToNode(ySkipped);
+    }
+
     auto e = makeDDNode(var, edge, generateDensityMatrix);
     computeTable.insert(x.p, y.p, e, generateDensityMatrix);
 
diff --git a/src/dd/Node.cpp b/src/dd/Node.cpp
index 4faea56..82ef17f 100644
--- a/src/dd/Node.cpp
+++ b/src/dd/Node.cpp
@@ -103,4 +103,10 @@ void dNode::revertDmChangesToNode(dNode*& p) noexcept {
   }
 }
 
+void dNode::markDmChangesAtPointer(dNode*& p) noexcept {
+  const auto tmp = getDensityMatrixTempFlags(p->flags);
+  revertDmChangesToNode(p);
+  p = reinterpret_cast<dNode*>(reinterpret_cast<std::uintptr_t>(p) | tmp);
+}
+
 } // namespace dd
-- 
2.43.0


From 4671e1a4967b91bc812325750aeaaed85ba6edaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:03 +0000
Subject: [PATCH 070/163] fix: only remove gates and measurements at the end of
 every qubit

---
 src/circuit_optimizer/CircuitOptimizer.cpp | 357 ++++-----------------
 1 file changed, 64 insertions(+), 293 deletions(-)

diff --git a/src/circuit_optimizer/CircuitOptimizer.cpp b/src/circuit_optimizer/CircuitOptimizer.cpp
index 7b1924b..9b62699 100644
--- a/src/circuit_optimizer/CircuitOptimizer.cpp
+++ b/src/circuit_optimizer/CircuitOptimizer.cpp
@@ -272,319 +272,90 @@ void CircuitOptimizer::singleQubitGateFusion(QuantumComputation& qc) {
 }
 
 namespace {
-bool removeDiagonalGate(CircuitOptimizer::DAG& dag,
-                        CircuitOptimizer::DAGReverseIterators& dagIterators,
-                        Qubit idx, CircuitOptimizer::DAGReverseIterator& it,
-                        Operation* op);
-
-void removeDiagonalGatesBeforeMeasureRecursive(
-    CircuitOptimizer::DAG& dag,
-    CircuitOptimizer::DAGReverseIterators& dagIterators, Qubit idx,
-    const Operation* until) {
-  // qubit is finished -> consider next qubit
-  if (dagIterators.at(idx) == dag.at(idx).rend()) {
-    if (idx < static_cast<Qubit>(dag.size() - 1)) {
-      removeDiagonalGatesBeforeMeasureRecursive(dag, dagIterators, idx + 1,
-                                                nullptr);
+/**
+ * @brief Visits all operations from the back, including the operations within
+ * compound operations, and replaces those for which `remove` returns true with
+ * an identity that can be collected by the removeIdentities pass.
+ */
+void removeFromBack(std::unique_ptr<Operation>& op,
+                    const std::function<bool(const Operation&)>& remove) {
+  if (auto* compOp = dynamic_cast<CompoundOperation*>(op.get())) {
+    for (auto it = compOp->rbegin(); it != compOp->rend(); ++it) {
+      removeFromBack(*it, remove);
     }
     return;
   }
-  // check if desired operation was reached
-  if (until != nullptr) {
-    if ((*dagIterators.at(idx))->get() == until) {
-      return;
-    }
-  }
-
-  auto& it = dagIterators.at(idx);
-  while (it != dag.at(idx).rend()) {
-    // check if desired operation was reached
-    if (until != nullptr) {
-      if ((*dagIterators.at(idx))->get() == until) {
-        break;
-      }
-    }
-    auto* op = (*it)->get();
-    if (op->isStandardOperation()) {
-      // try removing gate and upon success increase all corresponding iterators
-      auto onlyDiagonalGates =
-          removeDiagonalGate(dag, dagIterators, idx, it, op);
-      if (onlyDiagonalGates) {
-        for (const auto& control : op->getControls()) {
-          ++(dagIterators.at(control.qubit));
-        }
-        for (const auto& target : op->getTargets()) {
-          ++(dagIterators.at(target));
-        }
-      }
-
-    } else if (op->isCompoundOperation()) {
-      // iterate over all gates of compound operation and upon success increase
-      // all corresponding iterators
-      auto* compOp = dynamic_cast<CompoundOperation*>(op);
-      bool onlyDiagonalGates = true;
-      auto cit = compOp->rbegin();
-      while (cit != compOp->rend()) {
-        auto* cop = cit->get();
-        onlyDiagonalGates = removeDiagonalGate(dag, dagIterators, idx, it, cop);
-        if (!onlyDiagonalGates) {
-          break;
-        }
-        ++cit;
-      }
-      if (onlyDiagonalGates) {
-        for (size_t q = 0; q < dag.size(); ++q) {
-          if (compOp->actsOn(static_cast<Qubit>(q))) {
-            ++(dagIterators.at(q));
-          }
-        }
-      }
-    } else if (op->isClassicControlledOperation()) {
-      // consider the operation that is classically controlled and proceed as
-      // above
-      auto* cop = dynamic_cast<ClassicControlledOperation*>(op)->getOperation();
-      const bool onlyDiagonalGates =
-          removeDiagonalGate(dag, dagIterators, idx, it, cop);
-      if (onlyDiagonalGates) {
-        for (const auto& control : cop->getControls()) {
-          ++(dagIterators.at(control.qubit));
-        }
-        for (const auto& target : cop->getTargets()) {
-          ++(dagIterators.at(target));
-        }
-      }
-    } else if (op->isNonUnitaryOperation()) {
-      // non-unitary operation is not diagonal
-      it = dag.at(idx).rend();
-    } else {
-      throw std::runtime_error("Unexpected operation encountered");
-    }
-  }
-
-  // qubit is finished -> consider next qubit
-  if (dagIterators.at(idx) == dag.at(idx).rend() &&
-      idx < static_cast<Qubit>(dag.size() - 1)) {
-    removeDiagonalGatesBeforeMeasureRecursive(dag, dagIterators, idx + 1,
-                                              nullptr);
-  }
-}
-
-bool removeDiagonalGate(CircuitOptimizer::DAG& dag,
-                        CircuitOptimizer::DAGReverseIterators& dagIterators,
-                        Qubit idx, CircuitOptimizer::DAGReverseIterator& it,
-                        Operation* op) {
-  // not a diagonal gate
-  if (!op->isDiagonalGate()) {
-    it = dag.at(idx).rend();
-    return false;
-  }
-
-  if (op->getNcontrols() != 0) {
-    // need to check all controls and targets
-    bool onlyDiagonalGates = true;
-    for (const auto& control : op->getControls()) {
-      auto controlQubit = control.qubit;
-      if (controlQubit == idx) {
-        continue;
-      }
-      if (control.type == Control::Type::Neg) {
-        dagIterators.at(controlQubit) = dag.at(controlQubit).rend();
-        onlyDiagonalGates = false;
-        break;
-      }
-      if (dagIterators.at(controlQubit) == dag.at(controlQubit).rend()) {
-        onlyDiagonalGates = false;
-        break;
-      }
-      // recursive call at control with this operation as goal
-      removeDiagonalGatesBeforeMeasureRecursive(dag, dagIterators, controlQubit,
-                                                (*it)->get());
-      // check if iteration of control qubit was successful
-      if (*dagIterators.at(controlQubit) != *it) {
-        onlyDiagonalGates = false;
-        break;
-      }
-    }
-    for (const auto& target : op->getTargets()) {
-      if (target == idx) {
-        continue;
-      }
-      if (dagIterators.at(target) == dag.at(target).rend()) {
-        onlyDiagonalGates = false;
-        break;
-      }
-      // recursive call at target with this operation as goal
-      removeDiagonalGatesBeforeMeasureRecursive(dag, dagIterators, target,
-                                                (*it)->get());
-      // check if iteration of target qubit was successful
-      if (*dagIterators.at(target) != *it) {
-        onlyDiagonalGates = false;
-        break;
-      }
-    }
-    if (!onlyDiagonalGates) {
-      // end qubit
-      dagIterators.at(idx) = dag.at(idx).rend();
-    } else {
-      // set operation to identity so that it can be collected by the
-      // removeIdentities pass
-      op->setGate(I);
-    }
-    return onlyDiagonalGates;
+  if (remove(*op)) {
+    op = std::make_unique<StandardOperation>(0, I);
   }
-  // set operation to identity so that it can be collected by the
-  // removeIdentities pass
-  op->setGate(I);
-  return true;
 }
 } // namespace
 
 void CircuitOptimizer::removeDiagonalGatesBeforeMeasure(
     QuantumComputation& qc) {
-  auto dag = constructDAG(qc);
-
-  // initialize iterators
-  DAGReverseIterators dagIterators{dag.size()};
-  for (size_t q = 0; q < dag.size(); ++q) {
-    if (dag.at(q).empty() || dag.at(q).back()->get()->getType() != Measure) {
-      // qubit is not measured and thus does not have to be considered
-      dagIterators.at(q) = dag.at(q).rend();
-    } else {
-      // point to operation before measurement
-      dagIterators.at(q) = ++(dag.at(q).rbegin());
-    }
-  }
-  // iterate over DAG in depth-first fashion
-  removeDiagonalGatesBeforeMeasureRecursive(dag, dagIterators, 0, nullptr);
-
-  // remove resulting identities from circuit
-  removeIdentities(qc);
-}
-
-namespace {
-bool removeFinalMeasurement(CircuitOptimizer::DAG& dag,
-                            CircuitOptimizer::DAGReverseIterators& dagIterators,
-                            Qubit idx,
-                            const CircuitOptimizer::DAGReverseIterator& it,
-                            Operation* op);
-
-void removeFinalMeasurementsRecursive(
-    CircuitOptimizer::DAG& dag,
-    CircuitOptimizer::DAGReverseIterators& dagIterators, Qubit idx,
-    const Operation* until) {
-  if (dagIterators.at(idx) == dag.at(idx).rend()) { // we reached the end
-    if (idx < static_cast<Qubit>(dag.size() - 1)) {
-      removeFinalMeasurementsRecursive(dag, dagIterators, idx + 1, nullptr);
-    }
-    return;
-  }
-  // check if desired operation was reached
-  if (until != nullptr) {
-    if ((*dagIterators.at(idx))->get() == until) {
-      return;
-    }
-  }
-  auto& it = dagIterators.at(idx);
-  while (it != dag.at(idx).rend()) {
-    if (until != nullptr) {
-      if ((*dagIterators.at(idx))->get() == until) {
-        break;
-      }
-    }
-    auto* op = (*it)->get();
-    if (op->getType() == Measure || op->getType() == Barrier) {
-      const bool onlyMeasurement =
-          removeFinalMeasurement(dag, dagIterators, idx, it, op);
-      if (onlyMeasurement) {
-        for (const auto& target : op->getTargets()) {
-          if (dagIterators.at(target) == dag.at(target).rend()) {
-            break;
-          }
-          ++(dagIterators.at(target));
-        }
-      }
-    } else if (op->isCompoundOperation() && op->isNonUnitaryOperation()) {
-      // iterate over all gates of compound operation and upon success increase
-      // all corresponding iterators
-      auto* compOp = dynamic_cast<CompoundOperation*>(op);
-      bool onlyMeasurement = true;
-      auto cit = compOp->rbegin();
-      while (cit != compOp->rend()) {
-        auto* cop = cit->get();
-        if (cop->getNtargets() > 0 && cop->getTargets()[0] != idx) {
-          ++cit;
-          continue;
-        }
-        onlyMeasurement =
-            removeFinalMeasurement(dag, dagIterators, idx, it, cop);
-        if (!onlyMeasurement) {
-          break;
+  // qubits on which some operation has already been encountered
+  std::unordered_set<Qubit> used{};
+  // qubits that are measured at the end such that no operation remains between
+  // the current position and the measurement
+  std::unordered_set<Qubit> measured{};
+
+  const auto remove = [&](const Operation& op) {
+    if (op.getType() == Measure) {
+      for (const auto target : op.getTargets()) {
+        if (used.insert(target).second) {
+          measured.insert(target);
+        } else {
+          measured.erase(target);
         }
-        ++cit;
-      }
-      if (onlyMeasurement) {
-        ++(dagIterators.at(idx));
       }
-    } else {
-      // not a measurement, we are done
-      dagIterators.at(idx) = dag.at(idx).rend();
-      break;
+      return false;
     }
-  }
-  if (dagIterators.at(idx) == dag.at(idx).rend() &&
-      idx < static_cast<Qubit>(dag.size() - 1)) {
-    removeFinalMeasurementsRecursive(dag, dagIterators, idx + 1, nullptr);
-  }
-}
-
-bool removeFinalMeasurement(CircuitOptimizer::DAG& dag,
-                            CircuitOptimizer::DAGReverseIterators& dagIterators,
-                            const Qubit idx,
-                            const CircuitOptimizer::DAGReverseIterator& it,
-                            Operation* op) {
-  if (op->getNtargets() != 0) {
-    // need to check all targets
-    bool onlyMeasurements = true;
-    for (const auto& target : op->getTargets()) {
-      if (target == idx) {
-        continue;
-      }
-      if (dagIterators.at(target) == dag.at(target).rend()) {
-        onlyMeasurements = false;
-        break;
-      }
-      // recursive call at target with this operation as goal
-      removeFinalMeasurementsRecursive(dag, dagIterators, target, (*it)->get());
-      // check if iteration of target qubit was successful
-      if (dagIterators.at(target) == dag.at(target).rend() ||
-          *dagIterators.at(target) != *it) {
-        onlyMeasurements = false;
-        break;
-      }
+    const auto usedQubits = op.getUsedQubits();
+    if (usedQubits.empty()) {
+      return false;
     }
-    if (!onlyMeasurements) {
-      // end qubit
-      dagIterators.at(idx) = dag.at(idx).rend();
-    } else {
-      // set operation to identity so that it can be collected by the
-      // removeIdentities pass
-      op->setGate(I);
+    const auto* classic = dynamic_cast<const ClassicControlledOperation*>(&op);
+    const auto diagonal = classic != nullptr
+                              ? classic->getOperation()->isDiagonalGate()
+                              : op.isDiagonalGate();
+    if (diagonal && std::all_of(usedQubits.begin(), usedQubits.end(),
+                                [&](const auto qubit) {
+                                  return measured.find(qubit) != measured.end();
+                                })) {
+      return true;
     }
-    return onlyMeasurements;
+    for (const auto qubit : usedQubits) {
+      used.insert(qubit);
+      measured.erase(qubit);
+    }
+    return false;
+  };
+  for (auto it = qc.rbegin(); it != qc.rend(); ++it) {
+    removeFromBack(*it, remove);
   }
-  return false;
+
+  // remove resulting identities from circuit
+  removeIdentities(qc);
 }
-} // namespace
 
 void CircuitOptimizer::removeFinalMeasurements(QuantumComputation& qc) {
-  auto dag = constructDAG(qc);
-  DAGReverseIterators dagIterators{dag.size()};
-  for (size_t q = 0; q < dag.size(); ++q) {
-    dagIterators.at(q) = (dag.at(q).rbegin());
+  // qubits on which an operation remains after the current position
+  std::unordered_set<Qubit> used{};
+  const auto remove = [&](const Operation& op) {
+    const auto usedQubits = op.getUsedQubits();
+    if ((op.getType() == Measure || op.getType() == Barrier) &&
+        std::none_of(
+            usedQubits.begin(), usedQubits.end(),
+            [&](const auto qubit) { return used.find(qubit) != used.end(); })) {
+      return true;
+    }
+    used.insert(usedQubits.begin(), usedQubits.end());
+    return false;
+  };
+  for (auto it = qc.rbegin(); it != qc.rend(); ++it) {
+    removeFromBack(*it, remove);
   }
 
-  removeFinalMeasurementsRecursive(dag, dagIterators, 0, nullptr);
-
   removeIdentities(qc);
 }
 
-- 
2.43.0


From b9d384b19169829a75952bd8525a3ffffecd54e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:03 +0000
Subject: [PATCH 071/163] fix: do not decompose controlled SWAPs as plain SWAPs

---
 src/circuit_optimizer/CircuitOptimizer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/circuit_optimizer/CircuitOptimizer.cpp b/src/circuit_optimizer/CircuitOptimizer.cpp
index 9b62699..31a8bf4 100644
--- a/src/circuit_optimizer/CircuitOptimizer.cpp
+++ b/src/circuit_optimizer/CircuitOptimizer.cpp
@@ -365,7 +365,7 @@ void CircuitOptimizer::decomposeSWAP(QuantumComputation& qc,
   auto it = qc.begin();
   while (it != qc.end()) {
     if ((*it)->isStandardOperation()) {
-      if ((*it)->getType() == SWAP) {
+      if ((*it)->getType() == SWAP && !(*it)->isControlled()) {
         const auto targets = (*it)->getTargets();
         it = qc.erase(it);
         it = qc.insert(it, std::make_unique<StandardOperation>(
@@ -394,7 +394,8 @@ void CircuitOptimizer::decomposeSWAP(QuantumComputation& qc,
       auto& compOp = dynamic_cast<CompoundOperation&>(**it);
       auto cit = compOp.begin();
       while (cit != compOp.end()) {
-        if ((*cit)->isStandardOperation() && (*cit)->getType() == SWAP) {
+        if ((*cit)->isStandardOperation() && (*cit)->getType() == SWAP &&
+            !(*cit)->isControlled()) {
           const auto targets = (*cit)->getTargets();
           cit = compOp.erase(cit);
           cit = compOp.insert<StandardOperation>(cit, Control{targets[0]},
-- 
2.43.0


From 26fd3058bd8937e766b65d3d0385b57fb19393b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:03 +0000
Subject: [PATCH 072/163] fix: only fuse single-qubit gates with standard
 operations

---
 src/circuit_optimizer/CircuitOptimizer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/circuit_optimizer/CircuitOptimizer.cpp b/src/circuit_optimizer/CircuitOptimizer.cpp
index 31a8bf4..5877061 100644
--- a/src/circuit_optimizer/CircuitOptimizer.cpp
+++ b/src/circuit_optimizer/CircuitOptimizer.cpp
@@ -186,7 +186,7 @@ void CircuitOptimizer::singleQubitGateFusion(QuantumComputation& qc) {
   for (auto& it : qc) {
     // not a single-qubit operation
     if (!it->isStandardOperation() || !it->getControls().empty() ||
-        it->getTargets().size() > 1) {
+        it->getTargets().size() != 1) {
       addToDag(dag, &it);
       continue;
     }
@@ -204,7 +204,8 @@ void CircuitOptimizer::singleQubitGateFusion(QuantumComputation& qc) {
 
     // no single qubit op to fuse with operation
     if (!(*op)->isCompoundOperation() &&
-        (!(*op)->getControls().empty() || (*op)->getTargets().size() > 1)) {
+        (!(*op)->isStandardOperation() || !(*op)->getControls().empty() ||
+         (*op)->getTargets().size() > 1)) {
       addToDag(dag, &it);
       continue;
     }
-- 
2.43.0


From 81e825f14333bea7bb67a513d67da91ff2dede6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:03 +0000
Subject: [PATCH 073/163] fix: place collected blocks after the operations they
 depend on

---
 src/circuit_optimizer/CircuitOptimizer.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/circuit_optimizer/CircuitOptimizer.cpp b/src/circuit_optimizer/CircuitOptimizer.cpp
index 5877061..abea2a4 100644
--- a/src/circuit_optimizer/CircuitOptimizer.cpp
+++ b/src/circuit_optimizer/CircuitOptimizer.cpp
@@ -1149,6 +1149,11 @@ struct DSU {
     bitBlocks[parent1].insert(bitBlocks[parent1].end(),
                               bitBlocks[parent2].begin(),
                               bitBlocks[parent2].end());
+    // the merged block must not be placed before any of its parts since other
+    // operations on the respective qubits may precede them.
+    if (currentBlockInCircuit[parent1] < currentBlockInCircuit[parent2]) {
+      std::swap(currentBlockInCircuit[parent1], currentBlockInCircuit[parent2]);
+    }
     if (currentBlockInCircuit[parent2] != nullptr) {
       (*currentBlockInCircuit[parent2]) =
           std::make_unique<StandardOperation>(0, I);
@@ -1313,7 +1318,9 @@ void CircuitOptimizer::collectBlocks(QuantumComputation& qc,
         continue;
       }
       std::int64_t prev = -1;
+      bool newQubits = false;
       for (const auto& q : usedQubits) {
+        newQubits = newQubits || dsu.blockEmpty(q);
         if (prev != -1) {
           dsu.unionBlock(static_cast<Qubit>(prev), q);
         }
@@ -1325,9 +1332,16 @@ void CircuitOptimizer::collectBlocks(QuantumComputation& qc,
         dsu.currentBlockInCircuit[block] = &(*opIt);
       }
       dsu.currentBlockOperations[block]->emplace_back(std::move(op));
-      // if this is not the first operation in a block, remove it from the
-      // circuit
-      if (!empty) {
+      if (!empty && newQubits) {
+        // the block has been extended by qubits that other operations might
+        // have acted on since the start of the block. Thus, the block needs to
+        // be moved to the current position.
+        *dsu.currentBlockInCircuit[block] =
+            std::make_unique<StandardOperation>(0, I);
+        dsu.currentBlockInCircuit[block] = &(*opIt);
+      } else if (!empty) {
+        // if this is not the first operation in a block, remove it from the
+        // circuit
         opIt = qc.erase(opIt);
         // this can only ever be called on at least the second operation in a
         // circuit, so it is safe to decrement the iterator here.
-- 
2.43.0


From 278320a82ea854a6a89d9cc6ab1d5c4894e21aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:03 +0000
Subject: [PATCH 074/163] fix: remove operations from nested compound
 operations

---
 src/circuit_optimizer/CircuitOptimizer.cpp | 36 +++++++++++-----------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/circuit_optimizer/CircuitOptimizer.cpp b/src/circuit_optimizer/CircuitOptimizer.cpp
index abea2a4..7d072dd 100644
--- a/src/circuit_optimizer/CircuitOptimizer.cpp
+++ b/src/circuit_optimizer/CircuitOptimizer.cpp
@@ -50,29 +50,22 @@ void CircuitOptimizer::removeIdentities(QuantumComputation& qc) {
   removeOperation(qc, {I}, 0);
 }
 
-void CircuitOptimizer::removeOperation(
-    QuantumComputation& qc, const std::unordered_set<OpType>& opTypes,
-    const size_t opSize) {
+namespace {
+template <class Container>
+void removeOperationFrom(Container& container,
+                         const std::unordered_set<OpType>& opTypes,
+                         const size_t opSize) {
   // opSize = 0 means that the operation can have any number of qubits
-  auto it = qc.begin();
-  while (it != qc.end()) {
+  auto it = container.begin();
+  while (it != container.end()) {
     if (opTypes.find((*it)->getType()) != opTypes.end() &&
-        (opSize == 0 || it->get()->getNqubits() == opSize)) {
-      it = qc.erase(it);
+        (opSize == 0 || (*it)->getNqubits() == opSize)) {
+      it = container.erase(it);
     } else if ((*it)->isCompoundOperation()) {
       auto& compOp = dynamic_cast<CompoundOperation&>(**it);
-      auto cit = compOp.cbegin();
-      while (cit != compOp.cend()) {
-        if (const auto* cop = cit->get();
-            opTypes.find(cop->getType()) != opTypes.end() &&
-            (opSize == 0 || cop->getNqubits() == opSize)) {
-          cit = compOp.erase(cit);
-        } else {
-          ++cit;
-        }
-      }
+      removeOperationFrom(compOp, opTypes, opSize);
       if (compOp.empty()) {
-        it = qc.erase(it);
+        it = container.erase(it);
       } else {
         if (compOp.size() == 1) {
           // CompoundOperation has degraded to single Operation
@@ -85,6 +78,13 @@ void CircuitOptimizer::removeOperation(
     }
   }
 }
+} // namespace
+
+void CircuitOptimizer::removeOperation(
+    QuantumComputation& qc, const std::unordered_set<OpType>& opTypes,
+    const size_t opSize) {
+  removeOperationFrom(qc, opTypes, opSize);
+}
 
 void CircuitOptimizer::swapReconstruction(QuantumComputation& qc) {
   auto dag = DAG(qc.getHighestPhysicalQubitIndex() + 1);
-- 
2.43.0


From 32a583a7de116b146ff95260c436ebf6daf375cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:04 +0000
Subject: [PATCH 075/163] fix: decompose SWAPs in nested compound operations

---
 src/circuit_optimizer/CircuitOptimizer.cpp | 94 +++++++++-------------
 1 file changed, 37 insertions(+), 57 deletions(-)

diff --git a/src/circuit_optimizer/CircuitOptimizer.cpp b/src/circuit_optimizer/CircuitOptimizer.cpp
index 7d072dd..90d5c8f 100644
--- a/src/circuit_optimizer/CircuitOptimizer.cpp
+++ b/src/circuit_optimizer/CircuitOptimizer.cpp
@@ -360,70 +360,50 @@ void CircuitOptimizer::removeFinalMeasurements(QuantumComputation& qc) {
   removeIdentities(qc);
 }
 
-void CircuitOptimizer::decomposeSWAP(QuantumComputation& qc,
-                                     bool isDirectedArchitecture) {
-  // decompose SWAPS in three cnot and optionally in four H
-  auto it = qc.begin();
-  while (it != qc.end()) {
-    if ((*it)->isStandardOperation()) {
-      if ((*it)->getType() == SWAP && !(*it)->isControlled()) {
-        const auto targets = (*it)->getTargets();
-        it = qc.erase(it);
-        it = qc.insert(it, std::make_unique<StandardOperation>(
-                               Control{targets[0]}, targets[1], X));
-        if (isDirectedArchitecture) {
-          it =
-              qc.insert(it, std::make_unique<StandardOperation>(targets[0], H));
-          it =
-              qc.insert(it, std::make_unique<StandardOperation>(targets[1], H));
-          it = qc.insert(it, std::make_unique<StandardOperation>(
-                                 Control{targets[0]}, targets[1], X));
-          it =
-              qc.insert(it, std::make_unique<StandardOperation>(targets[0], H));
-          it =
-              qc.insert(it, std::make_unique<StandardOperation>(targets[1], H));
-        } else {
-          it = qc.insert(it, std::make_unique<StandardOperation>(
-                                 Control{targets[1]}, targets[0], X));
-        }
-        it = qc.insert(it, std::make_unique<StandardOperation>(
-                               Control{targets[0]}, targets[1], X));
+namespace {
+template <class Container>
+void decomposeSWAPsIn(Container& container, const bool isDirectedArchitecture) {
+  auto it = container.begin();
+  while (it != container.end()) {
+    if ((*it)->isStandardOperation() && (*it)->getType() == SWAP &&
+        !(*it)->isControlled()) {
+      const auto targets = (*it)->getTargets();
+      it = container.erase(it);
+      it = container.insert(it, std::make_unique<StandardOperation>(
+                                    Control{targets[0]}, targets[1], X));
+      if (isDirectedArchitecture) {
+        it = container.insert(
+            it, std::make_unique<StandardOperation>(targets[0], H));
+        it = container.insert(
+            it, std::make_unique<StandardOperation>(targets[1], H));
+        it = container.insert(it, std::make_unique<StandardOperation>(
+                                      Control{targets[0]}, targets[1], X));
+        it = container.insert(
+            it, std::make_unique<StandardOperation>(targets[0], H));
+        it = container.insert(
+            it, std::make_unique<StandardOperation>(targets[1], H));
       } else {
-        ++it;
+        it = container.insert(it, std::make_unique<StandardOperation>(
+                                      Control{targets[1]}, targets[0], X));
       }
-    } else if ((*it)->isCompoundOperation()) {
-      auto& compOp = dynamic_cast<CompoundOperation&>(**it);
-      auto cit = compOp.begin();
-      while (cit != compOp.end()) {
-        if ((*cit)->isStandardOperation() && (*cit)->getType() == SWAP &&
-            !(*cit)->isControlled()) {
-          const auto targets = (*cit)->getTargets();
-          cit = compOp.erase(cit);
-          cit = compOp.insert<StandardOperation>(cit, Control{targets[0]},
-                                                 targets[1], X);
-          if (isDirectedArchitecture) {
-            cit = compOp.insert<StandardOperation>(cit, targets[0], H);
-            cit = compOp.insert<StandardOperation>(cit, targets[1], H);
-            cit = compOp.insert<StandardOperation>(cit, Control{targets[0]},
-                                                   targets[1], X);
-            cit = compOp.insert<StandardOperation>(cit, targets[0], H);
-            cit = compOp.insert<StandardOperation>(cit, targets[1], H);
-          } else {
-            cit = compOp.insert<StandardOperation>(cit, Control{targets[1]},
-                                                   targets[0], X);
-          }
-          cit = compOp.insert<StandardOperation>(cit, Control{targets[0]},
-                                                 targets[1], X);
-        } else {
-          ++cit;
-        }
-      }
-      ++it;
+      it = container.insert(it, std::make_unique<StandardOperation>(
+                                    Control{targets[0]}, targets[1], X));
     } else {
+      if ((*it)->isCompoundOperation()) {
+        decomposeSWAPsIn(dynamic_cast<CompoundOperation&>(**it),
+                         isDirectedArchitecture);
+      }
       ++it;
     }
   }
 }
+} // namespace
+
+void CircuitOptimizer::decomposeSWAP(QuantumComputation& qc,
+                                     bool isDirectedArchitecture) {
+  // decompose SWAPS in three cnot and optionally in four H
+  decomposeSWAPsIn(qc, isDirectedArchitecture);
+}
 
 namespace {
 void changeTargets(Targets& targets,
-- 
2.43.0


From f5df9dee6731239c0939f5e28b2b493e991d767f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:07 +0000
Subject: [PATCH 076/163] fix: keep final measurements whose results are still
 used

---
 src/circuit_optimizer/CircuitOptimizer.cpp | 23 +++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/circuit_optimizer/CircuitOptimizer.cpp b/src/circuit_optimizer/CircuitOptimizer.cpp
index 90d5c8f..4f7007a 100644
--- a/src/circuit_optimizer/CircuitOptimizer.cpp
+++ b/src/circuit_optimizer/CircuitOptimizer.cpp
@@ -342,15 +342,36 @@ void CircuitOptimizer::removeDiagonalGatesBeforeMeasure(
 void CircuitOptimizer::removeFinalMeasurements(QuantumComputation& qc) {
   // qubits on which an operation remains after the current position
   std::unordered_set<Qubit> used{};
+  // classical bits that control an operation after the current position
+  std::unordered_set<Bit> usedBits{};
+  const auto isUsed = [&usedBits](const Bit bit) {
+    return usedBits.find(bit) != usedBits.end();
+  };
   const auto remove = [&](const Operation& op) {
     const auto usedQubits = op.getUsedQubits();
     if ((op.getType() == Measure || op.getType() == Barrier) &&
         std::none_of(
             usedQubits.begin(), usedQubits.end(),
             [&](const auto qubit) { return used.find(qubit) != used.end(); })) {
-      return true;
+      const auto* measure = dynamic_cast<const NonUnitaryOperation*>(&op);
+      if (op.getType() != Measure || measure == nullptr ||
+          std::none_of(measure->getClassics().begin(),
+                       measure->getClassics().end(), isUsed)) {
+        return true;
+      }
     }
     used.insert(usedQubits.begin(), usedQubits.end());
+    if (const auto* classic =
+            dynamic_cast<const ClassicControlledOperation*>(&op)) {
+      if (const auto& bit = classic->getControlBit(); bit.has_value()) {
+        usedBits.insert(*bit);
+      }
+      if (const auto& reg = classic->getControlRegister(); reg.has_value()) {
+        for (std::size_t i = 0; i < reg->getSize(); ++i) {
+          usedBits.insert(reg->getStartIndex() + i);
+        }
+      }
+    }
     return false;
   };
   for (auto it = qc.rbegin(); it != qc.rend(); ++it) {
-- 
2.43.0


From adc99ec25fdbcbcac496ccb966b8375f9ea880fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:15 +0000
Subject: [PATCH 077/163] fix: eliminate resets in (nested) compound operations

---
 src/circuit_optimizer/CircuitOptimizer.cpp | 122 +++++++++------------
 1 file changed, 54 insertions(+), 68 deletions(-)

diff --git a/src/circuit_optimizer/CircuitOptimizer.cpp b/src/circuit_optimizer/CircuitOptimizer.cpp
index 4f7007a..c8f6ac0 100644
--- a/src/circuit_optimizer/CircuitOptimizer.cpp
+++ b/src/circuit_optimizer/CircuitOptimizer.cpp
@@ -443,15 +443,61 @@ void changeControls(Controls& controls,
     return;
   }
 
-  // iterate over the replacement map and see if any control matches
-  for (const auto& [from, to] : replacementMap) {
-    auto controlIt = controls.find(from);
-    if (controlIt != controls.end()) {
-      const auto controlType = controlIt->type;
-      controls.erase(controlIt);
-      controls.insert(Control{to, controlType});
+  Controls newControls{};
+  for (const auto& [qubit, type] : controls) {
+    const auto it = replacementMap.find(qubit);
+    newControls.emplace(it != replacementMap.end() ? it->second : qubit, type);
+  }
+  controls = newControls;
+}
+
+void changeQubits(Operation& op, const std::map<Qubit, Qubit>& replacementMap) {
+  if (op.getType() == Reset) {
+    throw std::runtime_error(
+        "Resets that are classically controlled cannot be eliminated.");
+  }
+  if (auto* classic = dynamic_cast<ClassicControlledOperation*>(&op)) {
+    changeQubits(*classic->getOperation(), replacementMap);
+    return;
+  }
+  if (auto* compOp = dynamic_cast<CompoundOperation*>(&op)) {
+    for (auto& operation : *compOp) {
+      changeQubits(*operation, replacementMap);
     }
   }
+  changeTargets(op.getTargets(), replacementMap);
+  if (!op.isNonUnitaryOperation() || op.isCompoundOperation()) {
+    changeControls(op.getControls(), replacementMap);
+  }
+}
+
+template <class Container>
+void eliminateResetsFrom(Container& container, QuantumComputation& qc,
+                         std::map<Qubit, Qubit>& replacementMap) {
+  auto it = container.begin();
+  while (it != container.end()) {
+    if ((*it)->getType() == Reset) {
+      for (const auto& target : (*it)->getTargets()) {
+        const auto indexAddQubit = static_cast<Qubit>(qc.getNqubits());
+        qc.addQubit(indexAddQubit, indexAddQubit, indexAddQubit);
+        replacementMap[target] = indexAddQubit;
+      }
+      it = container.erase(it);
+      continue;
+    }
+    if (auto* compOp = dynamic_cast<CompoundOperation*>(it->get())) {
+      // the controls of a compound operation are also contained in its parts
+      changeControls(compOp->getControls(), replacementMap);
+      eliminateResetsFrom(*compOp, qc, replacementMap);
+      if (compOp->empty()) {
+        it = container.erase(it);
+        continue;
+      }
+    } else {
+      changeQubits(**it, replacementMap);
+    }
+    ++it;
+  }
 }
 } // namespace
 
@@ -464,67 +510,7 @@ void CircuitOptimizer::eliminateResets(QuantumComputation& qc) {
   //                                  c: 2/══════╩══════════╩═
   //                                             0          1
   auto replacementMap = std::map<Qubit, Qubit>();
-  auto it = qc.begin();
-  while (it != qc.end()) {
-    if ((*it)->getType() == Reset) {
-      for (const auto& target : (*it)->getTargets()) {
-        auto indexAddQubit = static_cast<Qubit>(qc.getNqubits());
-        qc.addQubit(indexAddQubit, indexAddQubit, indexAddQubit);
-        auto oldReset = replacementMap.find(target);
-        if (oldReset != replacementMap.end()) {
-          oldReset->second = indexAddQubit;
-        } else {
-          replacementMap.try_emplace(target, indexAddQubit);
-        }
-      }
-      it = qc.erase(it);
-    } else if (!replacementMap.empty()) {
-      if ((*it)->isCompoundOperation()) {
-        auto& compOp = dynamic_cast<CompoundOperation&>(**it);
-        auto compOpIt = compOp.begin();
-        while (compOpIt != compOp.end()) {
-          if ((*compOpIt)->getType() == Reset) {
-            for (const auto& compTarget : (*compOpIt)->getTargets()) {
-              auto indexAddQubit = static_cast<Qubit>(qc.getNqubits());
-              qc.addQubit(indexAddQubit, indexAddQubit, indexAddQubit);
-              if (auto oldReset = replacementMap.find(compTarget);
-                  oldReset != replacementMap.end()) {
-                oldReset->second = indexAddQubit;
-              } else {
-                replacementMap.try_emplace(compTarget, indexAddQubit);
-              }
-            }
-            compOpIt = compOp.erase(compOpIt);
-          } else {
-            if ((*compOpIt)->isStandardOperation() ||
-                (*compOpIt)->isClassicControlledOperation()) {
-              auto& targets = (*compOpIt)->getTargets();
-              auto& controls = (*compOpIt)->getControls();
-              changeTargets(targets, replacementMap);
-              changeControls(controls, replacementMap);
-            } else if ((*compOpIt)->isNonUnitaryOperation()) {
-              auto& targets = (*compOpIt)->getTargets();
-              changeTargets(targets, replacementMap);
-            }
-            ++compOpIt;
-          }
-        }
-      }
-      if ((*it)->isStandardOperation() ||
-          (*it)->isClassicControlledOperation()) {
-        auto& targets = (*it)->getTargets();
-        auto& controls = (*it)->getControls();
-        changeTargets(targets, replacementMap);
-        changeControls(controls, replacementMap);
-      } else if ((*it)->isNonUnitaryOperation()) {
-        auto& targets = (*it)->getTargets();
-        changeTargets(targets, replacementMap);
-      }
-      ++it;
-    } else {
-      ++it;
-    }
-  }
+  eliminateResetsFrom(qc, qc, replacementMap);
 }
 
 void CircuitOptimizer::deferMeasurements(QuantumComputation& qc) {
-- 
2.43.0


From 3e1b68062ade4bb52965f2ac0afbf24cb87c57fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:15 +0000
Subject: [PATCH 078/163] fix: defer all measurements in their original order

---
 src/circuit_optimizer/CircuitOptimizer.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/circuit_optimizer/CircuitOptimizer.cpp b/src/circuit_optimizer/CircuitOptimizer.cpp
index c8f6ac0..7540439 100644
--- a/src/circuit_optimizer/CircuitOptimizer.cpp
+++ b/src/circuit_optimizer/CircuitOptimizer.cpp
@@ -522,7 +522,7 @@ void CircuitOptimizer::deferMeasurements(QuantumComputation& qc) {
   //            ║ ┌──╨──┐             c: 2/═══════════╩═
   // c: 2/══════╩═╡ = 1 ╞                             0
   //            0 └─────┘
-  std::unordered_map<Qubit, std::size_t> qubitsToAddMeasurements{};
+  std::vector<std::pair<Qubit, Bit>> qubitsToAddMeasurements{};
   auto it = qc.begin();
   while (it != qc.end()) {
     if (const auto* measurement = dynamic_cast<NonUnitaryOperation*>(it->get());
@@ -537,7 +537,7 @@ void CircuitOptimizer::deferMeasurements(QuantumComputation& qc) {
       }
 
       // if this is the last operation, nothing has to be done
-      if (*it == qc.back()) {
+      if (*it == qc.back() && qubitsToAddMeasurements.empty()) {
         break;
       }
 
@@ -545,7 +545,7 @@ void CircuitOptimizer::deferMeasurements(QuantumComputation& qc) {
       const auto measurementBit = classics[0];
 
       // remember q->c for adding measurements later
-      qubitsToAddMeasurements[measurementQubit] = measurementBit;
+      qubitsToAddMeasurements.emplace_back(measurementQubit, measurementBit);
 
       // remove the measurement from the vector of operations
       it = qc.erase(it);
@@ -577,11 +577,11 @@ void CircuitOptimizer::deferMeasurements(QuantumComputation& qc) {
         if (const auto* measurement2 =
                 dynamic_cast<NonUnitaryOperation*>(opIt->get());
             measurement2 != nullptr && operation->getType() == Measure) {
-          const auto& targets2 = measurement2->getTargets();
           const auto& classics2 = measurement2->getClassics();
 
-          // if this is the same measurement a breakpoint has been reached
-          if (targets == targets2 && classics == classics2) {
+          // if the classical bit is overwritten a breakpoint has been reached
+          if (std::find(classics2.begin(), classics2.end(), measurementBit) !=
+              classics2.end()) {
             break;
           }
 
@@ -690,6 +690,8 @@ void CircuitOptimizer::deferMeasurements(QuantumComputation& qc) {
           opIt = currentInsertionPoint;
         }
       }
+      // `it` already points to the operation following the measurement
+      continue;
     }
     ++it;
   }
-- 
2.43.0


From b6eae8a1de37a76d370d96b47c4d04e9017aa704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:15 +0000
Subject: [PATCH 079/163] fix: defer measurements in compound operations

---
 src/circuit_optimizer/CircuitOptimizer.cpp | 77 ++++++++++++++--------
 1 file changed, 48 insertions(+), 29 deletions(-)

diff --git a/src/circuit_optimizer/CircuitOptimizer.cpp b/src/circuit_optimizer/CircuitOptimizer.cpp
index 7540439..d1bca23 100644
--- a/src/circuit_optimizer/CircuitOptimizer.cpp
+++ b/src/circuit_optimizer/CircuitOptimizer.cpp
@@ -513,6 +513,44 @@ void CircuitOptimizer::eliminateResets(QuantumComputation& qc) {
   eliminateResetsFrom(qc, qc, replacementMap);
 }
 
+namespace {
+using Iterator = QuantumComputation::iterator;
+void flattenCompoundOperation(QuantumComputation& qc, Iterator& it) {
+  assert((*it)->isCompoundOperation());
+  auto& op = dynamic_cast<CompoundOperation&>(**it);
+  auto opIt = op.begin();
+  std::int64_t movedOperations = 0;
+  while (opIt != op.end()) {
+    // move the operation from the compound operation in front of the compound
+    // operation in the flattened container. `it` then points to the newly
+    // inserted element
+    it = qc.insert(it, std::move(*opIt));
+    // advance the operation iterator to point past the now moved-from element
+    // in the compound operation
+    ++opIt;
+    // advance the general iterator to again point to the compound operation
+    ++it;
+    // track the moved operations
+    ++movedOperations;
+  }
+  // whenever all the operations have been processed, `it` points to the
+  // compound operation and `opIt` to `op.end()`. The compound operation can now
+  // be deleted safely
+  it = qc.erase(it);
+  // move the general iterator back to the position of the last moved operation
+  std::advance(it, -movedOperations);
+}
+
+/// Checks whether all (nested) parts of an operation are unitary.
+bool consistsOfUnitaries(const Operation& op) {
+  if (const auto* compOp = dynamic_cast<const CompoundOperation*>(&op)) {
+    return std::all_of(compOp->begin(), compOp->end(),
+                       [](const auto& o) { return consistsOfUnitaries(*o); });
+  }
+  return op.isUnitary();
+}
+} // namespace
+
 void CircuitOptimizer::deferMeasurements(QuantumComputation& qc) {
   //      ┌───┐┌─┐                         ┌───┐     ┌─┐
   // q_0: ┤ H ├┤M├───────             q_0: ┤ H ├──■──┤M├
@@ -523,6 +561,16 @@ void CircuitOptimizer::deferMeasurements(QuantumComputation& qc) {
   // c: 2/══════╩═╡ = 1 ╞                             0
   //            0 └─────┘
   std::vector<std::pair<Qubit, Bit>> qubitsToAddMeasurements{};
+  // measurements and classically controlled operations might be part of
+  // compound operations
+  for (auto opIt = qc.begin(); opIt != qc.end();) {
+    if ((*opIt)->isCompoundOperation() && !consistsOfUnitaries(**opIt)) {
+      flattenCompoundOperation(qc, opIt);
+    } else {
+      ++opIt;
+    }
+  }
+
   auto it = qc.begin();
   while (it != qc.end()) {
     if (const auto* measurement = dynamic_cast<NonUnitaryOperation*>(it->get());
@@ -705,35 +753,6 @@ void CircuitOptimizer::deferMeasurements(QuantumComputation& qc) {
   qc.initializeIOMapping();
 }
 
-namespace {
-using Iterator = QuantumComputation::iterator;
-void flattenCompoundOperation(QuantumComputation& qc, Iterator& it) {
-  assert((*it)->isCompoundOperation());
-  auto& op = dynamic_cast<CompoundOperation&>(**it);
-  auto opIt = op.begin();
-  std::int64_t movedOperations = 0;
-  while (opIt != op.end()) {
-    // move the operation from the compound operation in front of the compound
-    // operation in the flattened container. `it` then points to the newly
-    // inserted element
-    it = qc.insert(it, std::move(*opIt));
-    // advance the operation iterator to point past the now moved-from element
-    // in the compound operation
-    ++opIt;
-    // advance the general iterator to again point to the compound operation
-    ++it;
-    // track the moved operations
-    ++movedOperations;
-  }
-  // whenever all the operations have been processed, `it` points to the
-  // compound operation and `opIt` to `op.end()`. The compound operation can now
-  // be deleted safely
-  it = qc.erase(it);
-  // move the general iterator back to the position of the last moved operation
-  std::advance(it, -movedOperations);
-}
-} // namespace
-
 void CircuitOptimizer::flattenOperations(QuantumComputation& qc,
                                          bool customGatesOnly) {
   auto it = qc.begin();
-- 
2.43.0


From a432f427a0142eb932fe3829d0e6ea08bfedb9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:15 +0000
Subject: [PATCH 080/163] fix: respect the comparison when deferring
 measurements

---
 src/circuit_optimizer/CircuitOptimizer.cpp | 44 +++++++++++++++++++---
 1 file changed, 38 insertions(+), 6 deletions(-)

diff --git a/src/circuit_optimizer/CircuitOptimizer.cpp b/src/circuit_optimizer/CircuitOptimizer.cpp
index d1bca23..469d594 100644
--- a/src/circuit_optimizer/CircuitOptimizer.cpp
+++ b/src/circuit_optimizer/CircuitOptimizer.cpp
@@ -541,6 +541,27 @@ void flattenCompoundOperation(QuantumComputation& qc, Iterator& it) {
   std::advance(it, -movedOperations);
 }
 
+/// Checks whether the condition of an operation holds for a given value.
+bool isSatisfied(const ClassicControlledOperation& op,
+                 const std::uint64_t value) {
+  const auto expected = op.getExpectedValue();
+  switch (op.getComparisonKind()) {
+  case Eq:
+    return value == expected;
+  case Neq:
+    return value != expected;
+  case Lt:
+    return value < expected;
+  case Leq:
+    return value <= expected;
+  case Gt:
+    return value > expected;
+  case Geq:
+    return value >= expected;
+  }
+  unreachable();
+}
+
 /// Checks whether all (nested) parts of an operation are unitary.
 bool consistsOfUnitaries(const Operation& op) {
   if (const auto* compOp = dynamic_cast<const CompoundOperation*>(&op)) {
@@ -641,8 +662,6 @@ void CircuitOptimizer::deferMeasurements(QuantumComputation& qc) {
         if (const auto* classicOp =
                 dynamic_cast<ClassicControlledOperation*>(opIt->get());
             classicOp != nullptr) {
-          const auto& expectedValue = classicOp->getExpectedValue();
-
           Bit cBit = 0;
           if (const auto& controlRegister = classicOp->getControlRegister();
               controlRegister.has_value()) {
@@ -697,10 +716,18 @@ void CircuitOptimizer::deferMeasurements(QuantumComputation& qc) {
 
           // determine the appropriate control to add
           auto controls = standardOp->getControls();
-          const auto controlQubit = measurementQubit;
-          const auto controlType =
-              (expectedValue == 1) ? Control::Type::Pos : Control::Type::Neg;
-          controls.emplace(controlQubit, controlType);
+          const auto onZero = isSatisfied(*classicOp, 0U);
+          const auto onOne = isSatisfied(*classicOp, 1U);
+          auto canOccur = onZero || onOne;
+          if (onZero != onOne) {
+            const Control control{measurementQubit, onOne ? Control::Type::Pos
+                                                          : Control::Type::Neg};
+            const Control opposite{measurementQubit, onOne
+                                                         ? Control::Type::Neg
+                                                         : Control::Type::Pos};
+            canOccur = controls.find(opposite) == controls.end();
+            controls.emplace(control);
+          }
 
           const auto parameters = standardOp->getParameter();
 
@@ -722,6 +749,11 @@ void CircuitOptimizer::deferMeasurements(QuantumComputation& qc) {
             currentInsertionPoint = opIt;
           }
 
+          // the condition of the operation can never be met
+          if (!canOccur) {
+            continue;
+          }
+
           itInvalidated = (it >= currentInsertionPoint);
           // insert the new operation (invalidated all pointer onwards)
           currentInsertionPoint = qc.insert(
-- 
2.43.0


From 1a7eec2431f280f2773bdb38a6f5a2b3c0b8db9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:15 +0000
Subject: [PATCH 081/163] fix: keep the order of operations when deferring
 measurements

---
 src/circuit_optimizer/CircuitOptimizer.cpp | 37 +++++++++++++++++++---
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/src/circuit_optimizer/CircuitOptimizer.cpp b/src/circuit_optimizer/CircuitOptimizer.cpp
index 469d594..6b375a2 100644
--- a/src/circuit_optimizer/CircuitOptimizer.cpp
+++ b/src/circuit_optimizer/CircuitOptimizer.cpp
@@ -562,6 +562,18 @@ bool isSatisfied(const ClassicControlledOperation& op,
   unreachable();
 }
 
+/// Checks whether an operation commutes with measurements of the given qubit.
+bool preservesQubit(const Operation& op, const Qubit qubit) {
+  if (const auto* compOp = dynamic_cast<const CompoundOperation*>(&op)) {
+    return std::all_of(compOp->begin(), compOp->end(), [qubit](const auto& o) {
+      return preservesQubit(*o, qubit);
+    });
+  }
+  return !op.actsOn(qubit) || op.isDiagonalGate() ||
+         std::any_of(op.getControls().begin(), op.getControls().end(),
+                     [qubit](const auto& c) { return c.qubit == qubit; });
+}
+
 /// Checks whether all (nested) parts of an operation are unitary.
 bool consistsOfUnitaries(const Operation& op) {
   if (const auto* compOp = dynamic_cast<const CompoundOperation*>(&op)) {
@@ -628,9 +640,10 @@ void CircuitOptimizer::deferMeasurements(QuantumComputation& qc) {
       while (opIt != qc.end()) {
         const auto* operation = opIt->get();
         if (operation->isUnitary()) {
-          // if an operation does not act on the measured qubit, the insert
+          // as long as no operation changes the measured qubit, the insert
           // location for potential operations has to be updated
-          if (!operation->actsOn(measurementQubit)) {
+          if (currentInsertionPoint == opIt &&
+              preservesQubit(*operation, measurementQubit)) {
             ++currentInsertionPoint;
           }
           ++opIt;
@@ -654,7 +667,9 @@ void CircuitOptimizer::deferMeasurements(QuantumComputation& qc) {
             break;
           }
 
-          ++currentInsertionPoint;
+          if (currentInsertionPoint == opIt) {
+            ++currentInsertionPoint;
+          }
           ++opIt;
           continue;
         }
@@ -682,7 +697,8 @@ void CircuitOptimizer::deferMeasurements(QuantumComputation& qc) {
 
           // if this is not the classical bit that is measured, continue
           if (cBit != measurementBit) {
-            if (!operation->actsOn(measurementQubit)) {
+            if (currentInsertionPoint == opIt &&
+                preservesQubit(*classicOp->getOperation(), measurementQubit)) {
               ++currentInsertionPoint;
             }
             ++opIt;
@@ -714,6 +730,19 @@ void CircuitOptimizer::deferMeasurements(QuantumComputation& qc) {
             }
           }
 
+          // the operation must not be moved past others on the same qubits
+          const auto usedQubits = standardOp->getUsedQubits();
+          if (std::any_of(currentInsertionPoint, opIt,
+                          [&usedQubits](const auto& op) {
+                            return std::any_of(
+                                usedQubits.begin(), usedQubits.end(),
+                                [&op](const auto q) { return op->actsOn(q); });
+                          })) {
+            throw std::runtime_error(
+                "Classic-controlled operation depends on a measured qubit that "
+                "is changed after its measurement, which is not supported.");
+          }
+
           // determine the appropriate control to add
           auto controls = standardOp->getControls();
           const auto onZero = isSatisfied(*classicOp, 0U);
-- 
2.43.0


From 7cea95985b734f0c26a1241736a944fd630fbf21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:27 +0000
Subject: [PATCH 082/163] fix: only write register names for operations on the
 whole register

---
 include/mqt-core/ir/operations/Operation.hpp | 14 +++++++++-----
 src/ir/operations/NonUnitaryOperation.cpp    | 20 +++++++++++---------
 src/ir/operations/StandardOperation.cpp      |  2 +-
 3 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/include/mqt-core/ir/operations/Operation.hpp b/include/mqt-core/ir/operations/Operation.hpp
index a7ef534..ec783b0 100644
--- a/include/mqt-core/ir/operations/Operation.hpp
+++ b/include/mqt-core/ir/operations/Operation.hpp
@@ -16,6 +16,7 @@
 #include "ir/operations/Control.hpp"
 #include "ir/operations/OpType.hpp"
 
+#include <algorithm>
 #include <cstring>
 #include <functional>
 #include <iostream>
@@ -42,11 +43,14 @@ protected:
   static constexpr size_t OUTPUT_INDENT_SIZE = 2;
 
   static bool isWholeQubitRegister(const QubitIndexToRegisterMap& regMap,
-                                   const Qubit start, const Qubit end) {
-    const auto& startReg = regMap.at(start).first;
-    const auto& endReg = regMap.at(end).first;
-    return startReg == endReg && startReg.getStartIndex() == start &&
-           endReg.getEndIndex() == end;
+                                   const Targets& qubits) {
+    const auto& reg = regMap.at(qubits.front()).first;
+    if (qubits.size() != reg.getSize()) {
+      return false;
+    }
+    auto expected = reg.getStartIndex();
+    return std::all_of(qubits.begin(), qubits.end(),
+                       [&expected](const auto q) { return q == expected++; });
   }
 
 public:
diff --git a/src/ir/operations/NonUnitaryOperation.cpp b/src/ir/operations/NonUnitaryOperation.cpp
index 9ba3aa3..6a0cdf9 100644
--- a/src/ir/operations/NonUnitaryOperation.cpp
+++ b/src/ir/operations/NonUnitaryOperation.cpp
@@ -78,12 +78,15 @@ NonUnitaryOperation::print(std::ostream& os, const Permutation& permutation,
 }
 
 namespace {
-bool isWholeClassicalRegister(const BitIndexToRegisterMap& reg, const Bit start,
-                              const Bit end) {
-  const auto& startReg = reg.at(start).first;
-  const auto& endReg = reg.at(end).first;
-  return startReg == endReg && startReg.getStartIndex() == start &&
-         endReg.getEndIndex() == end;
+bool isWholeClassicalRegister(const BitIndexToRegisterMap& regMap,
+                              const std::vector<Bit>& bits) {
+  const auto& reg = regMap.at(bits.front()).first;
+  if (bits.size() != reg.getSize()) {
+    return false;
+  }
+  auto expected = reg.getStartIndex();
+  return std::all_of(bits.begin(), bits.end(),
+                     [&expected](const auto bit) { return bit == expected++; });
 }
 } // namespace
 
@@ -94,9 +97,8 @@ void NonUnitaryOperation::dumpOpenQASM(std::ostream& of,
                                        bool openQASM3) const {
   of << std::string(indent * OUTPUT_INDENT_SIZE, ' ');
 
-  if (isWholeQubitRegister(qubitMap, targets.front(), targets.back()) &&
-      (type != Measure ||
-       isWholeClassicalRegister(bitMap, classics.front(), classics.back()))) {
+  if (isWholeQubitRegister(qubitMap, targets) &&
+      (type != Measure || isWholeClassicalRegister(bitMap, classics))) {
     if (type == Measure && openQASM3) {
       of << bitMap.at(classics.front()).first.getName() << " = ";
     }
diff --git a/src/ir/operations/StandardOperation.cpp b/src/ir/operations/StandardOperation.cpp
index 47fff54..3121fa9 100644
--- a/src/ir/operations/StandardOperation.cpp
+++ b/src/ir/operations/StandardOperation.cpp
@@ -480,7 +480,7 @@ void StandardOperation::dumpGateType(
   }
   // Print target qubits.
   if (!targets.empty() && type == Barrier &&
-      isWholeQubitRegister(qubitMap, targets.front(), targets.back())) {
+      isWholeQubitRegister(qubitMap, targets)) {
     of << " " << qubitMap.at(targets.front()).first.getName();
   } else {
     for (auto it = targets.begin(); it != targets.end();) {
-- 
2.43.0


From 206276916af915cbf713850eb4b100db6403690c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:27 +0000
Subject: [PATCH 083/163] fix: write the bits of all measurements to OpenQASM 3

---
 src/ir/operations/NonUnitaryOperation.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ir/operations/NonUnitaryOperation.cpp b/src/ir/operations/NonUnitaryOperation.cpp
index 6a0cdf9..5548674 100644
--- a/src/ir/operations/NonUnitaryOperation.cpp
+++ b/src/ir/operations/NonUnitaryOperation.cpp
@@ -116,6 +116,7 @@ void NonUnitaryOperation::dumpOpenQASM(std::ostream& of,
     if (type == Measure && openQASM3) {
       const auto& creg = bitMap.at(*classicsIt);
       of << creg.second << " = ";
+      ++classicsIt;
     }
     of << toString(type) << " " << qreg.second;
     if (type == Measure && !openQASM3) {
-- 
2.43.0


From 2e8dc91dfe9059bede84293cc3574c1222a3f5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:27 +0000
Subject: [PATCH 084/163] fix: write the condition of every conditioned
 OpenQASM 2 statement

---
 .../operations/ClassicControlledOperation.cpp | 30 ++++++++++++-------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/ir/operations/ClassicControlledOperation.cpp b/src/ir/operations/ClassicControlledOperation.cpp
index 33b2499..15a19cf 100644
--- a/src/ir/operations/ClassicControlledOperation.cpp
+++ b/src/ir/operations/ClassicControlledOperation.cpp
@@ -21,6 +21,7 @@
 #include <cstdint>
 #include <memory>
 #include <ostream>
+#include <sstream>
 #include <stdexcept>
 #include <string>
 #include <utility>
@@ -133,24 +134,33 @@ void ClassicControlledOperation::dumpOpenQASM(
     std::ostream& of, const QubitIndexToRegisterMap& qubitMap,
     const BitIndexToRegisterMap& bitMap, const std::size_t indent,
     const bool openQASM3) const {
-  of << std::string(indent * OUTPUT_INDENT_SIZE, ' ');
-  of << "if (";
+  std::stringstream condition;
+  condition << std::string(indent * OUTPUT_INDENT_SIZE, ' ');
+  condition << "if (";
   if (controlRegister.has_value()) {
     assert(!controlBit.has_value());
-    of << controlRegister->getName() << " " << comparisonKind << " "
-       << expectedValue;
+    condition << controlRegister->getName() << " " << comparisonKind << " "
+              << expectedValue;
   }
   if (controlBit.has_value()) {
     assert(!controlRegister.has_value());
-    of << (expectedValue == 0 ? "!" : "") << bitMap.at(*controlBit).second;
+    condition << (expectedValue == 0 ? "!" : "")
+              << bitMap.at(*controlBit).second;
   }
-  of << ") ";
-  if (openQASM3) {
-    of << "{\n";
-  }
-  op->dumpOpenQASM(of, qubitMap, bitMap, indent + 1, openQASM3);
+  condition << ") ";
+
   if (openQASM3) {
+    of << condition.str() << "{\n";
+    op->dumpOpenQASM(of, qubitMap, bitMap, indent + 1, openQASM3);
     of << "}\n";
+    return;
+  }
+
+  // in OpenQASM 2, a condition only applies to the very next statement
+  std::stringstream body;
+  op->dumpOpenQASM(body, qubitMap, bitMap, indent + 1, openQASM3);
+  for (std::string statement; std::getline(body, statement);) {
+    of << condition.str() << statement << "\n";
   }
 }
 
-- 
2.43.0


From 6d3a66312877be80034536e49b97739780a4508c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:27 +0000
Subject: [PATCH 085/163] fix: write the global phase to OpenQASM 3

---
 src/ir/QuantumComputation.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index a1f0518..14f7d38 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -704,6 +704,11 @@ void QuantumComputation::dumpOpenQASM(std::ostream& of, bool openQASM3) const {
     }
   }
 
+  if (openQASM3 && std::abs(globalPhase) > 0) {
+    StandardOperation(Targets{}, GPhase, {globalPhase})
+        .dumpOpenQASM(of, qubitMap, bitMap, 0, openQASM3);
+  }
+
   for (const auto& op : ops) {
     op->dumpOpenQASM(of, qubitMap, bitMap, 0, openQASM3);
   }
-- 
2.43.0


From 29ada3f0c1ab951e4f4f9c6559c2aff3f3925092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:58 +0000
Subject: [PATCH 086/163] fix: write the Peres gates in the order of their
 targets

---
 src/ir/operations/StandardOperation.cpp | 34 ++++++++++---------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/src/ir/operations/StandardOperation.cpp b/src/ir/operations/StandardOperation.cpp
index 3121fa9..bf771e4 100644
--- a/src/ir/operations/StandardOperation.cpp
+++ b/src/ir/operations/StandardOperation.cpp
@@ -281,25 +281,19 @@ void StandardOperation::dumpOpenQASM2(
   // safe the numbers of controls as a prefix to the operation name
   op << std::string(controls.size(), 'c');
 
-  const bool isSpecialGate = type == Peres || type == Peresdg;
-
-  if (!isSpecialGate) {
-    // apply X operations to negate the respective controls
-    for (const auto& c : controls) {
-      if (c.type == Control::Type::Neg) {
-        of << "x " << qubitMap.at(c.qubit).second << ";\n";
-      }
+  // apply X operations to negate the respective controls
+  for (const auto& c : controls) {
+    if (c.type == Control::Type::Neg) {
+      of << "x " << qubitMap.at(c.qubit).second << ";\n";
     }
   }
 
   dumpGateType(of, op, qubitMap);
 
-  if (!isSpecialGate) {
-    // apply X operations to negate the respective controls again
-    for (const auto& c : controls) {
-      if (c.type == Control::Type::Neg) {
-        of << "x " << qubitMap.at(c.qubit).second << ";\n";
-      }
+  // apply X operations to negate the respective controls again
+  for (const auto& c : controls) {
+    if (c.type == Control::Type::Neg) {
+      of << "x " << qubitMap.at(c.qubit).second << ";\n";
     }
   }
 }
@@ -439,28 +433,28 @@ void StandardOperation::dumpGateType(
     for (const auto& c : controls) {
       of << " " << qubitMap.at(c.qubit).second << ",";
     }
-    of << " " << qubitMap.at(targets[1]).second << ", "
-       << qubitMap.at(targets[0]).second << ";\n";
+    of << " " << qubitMap.at(targets[0]).second << ", "
+       << qubitMap.at(targets[1]).second << ";\n";
 
     of << op.str() << "x";
     for (const auto& c : controls) {
       of << " " << qubitMap.at(c.qubit).second << ",";
     }
-    of << " " << qubitMap.at(targets[1]).second << ";\n";
+    of << " " << qubitMap.at(targets[0]).second << ";\n";
     return;
   case Peresdg:
     of << op.str() << "x";
     for (const auto& c : controls) {
       of << " " << qubitMap.at(c.qubit).second << ",";
     }
-    of << " " << qubitMap.at(targets[1]).second << ";\n";
+    of << " " << qubitMap.at(targets[0]).second << ";\n";
 
     of << op.str() << "cx";
     for (const auto& c : controls) {
       of << " " << qubitMap.at(c.qubit).second << ",";
     }
-    of << " " << qubitMap.at(targets[1]).second << ", "
-       << qubitMap.at(targets[0]).second << ";\n";
+    of << " " << qubitMap.at(targets[0]).second << ", "
+       << qubitMap.at(targets[1]).second << ";\n";
     return;
   default:
     std::cerr << "gate type " << toString(type)
-- 
2.43.0


From 8264bfe68be15e4f5ccaaed0b574e70d1580c7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:59 +0000
Subject: [PATCH 087/163] fix: do not change the declared type when it is
 indexed

---
 src/qasm3/passes/TypeCheckPass.cpp | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/qasm3/passes/TypeCheckPass.cpp b/src/qasm3/passes/TypeCheckPass.cpp
index 126c10d..6fae907 100644
--- a/src/qasm3/passes/TypeCheckPass.cpp
+++ b/src/qasm3/passes/TypeCheckPass.cpp
@@ -25,6 +25,18 @@
 
 namespace qasm3::type_checking {
 
+namespace {
+/// Returns a copy of the given type with the given designator
+InferredType withDesignator(const InferredType& type, const uint64_t width) {
+  if (const auto designated =
+          std::dynamic_pointer_cast<DesignatedType<uint64_t>>(type.type)) {
+    return InferredType{std::dynamic_pointer_cast<ResolvedType>(
+        std::make_shared<DesignatedType<uint64_t>>(designated->type, width))};
+  }
+  throw TypeCheckError("Type does not allow designator");
+}
+} // namespace
+
 InferredType TypeCheckPass::error(const std::string& msg,
                                   const std::shared_ptr<DebugInfo>& debugInfo) {
   std::cerr << "Type check error: " << msg << '\n';
@@ -208,8 +220,8 @@ InferredType TypeCheckPass::visitBinaryExpression(
       // coerce to float or signed int
       ty = rhs;
     }
-    ty.type->setDesignator(
-        std::max(lhs.type->getDesignator(), rhs.type->getDesignator()));
+    ty = withDesignator(
+        ty, std::max(lhs.type->getDesignator(), rhs.type->getDesignator()));
   } else if (lhs.type != rhs.type) {
     std::stringstream ss;
     ss << "Type mismatch in binary expression: ";
@@ -347,9 +359,12 @@ InferredType TypeCheckPass::visitIndexedIdentifier(
   if (indexedIdentifier->indices.empty()) {
     return type;
   }
-  // Assume that indexed access always results in a single element
-  type.type->setDesignator(1);
-  return type;
+  if (type.isError) {
+    return type;
+  }
+  // Assume that indexed access always results in a single element. The declared
+  // type is shared with the environment and must not be changed.
+  return withDesignator(type, 1);
 }
 
 InferredType TypeCheckPass::visitMeasureExpression(
-- 
2.43.0


From 218e33de90df17069af5e7fb3f02e9474c568d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:25 +0000
Subject: [PATCH 088/163] fix: apply control modifiers to the leading operands
 of a gate call

---
 src/qasm3/Importer.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/qasm3/Importer.cpp b/src/qasm3/Importer.cpp
index 6256281..d320cb5 100644
--- a/src/qasm3/Importer.cpp
+++ b/src/qasm3/Importer.cpp
@@ -542,11 +542,9 @@ std::unique_ptr<qc::Operation> Importer::evaluateGateCall(
                         gateCallStatement->debugInfo);
   }
 
-  controls.reserve(nControls);
-  for (size_t i = 0; i < nControls; ++i) {
-    controls.emplace_back(targets[i], true);
-  }
-
+  // the qubits of the modifiers come before the controls of the gate itself
+  const size_t nGateControls = nControls;
+  size_t nModifierControls{0};
   bool invertOperation = false;
   for (const auto& modifier : gateCallStatement->modifiers) {
     if (auto ctrlModifier =
@@ -565,8 +563,10 @@ std::unique_ptr<qc::Operation> Importer::evaluateGateCall(
       }
 
       for (size_t i = 0; i < n; ++i) {
-        controls.emplace_back(targets[nControls + i], ctrlModifier->ctrlType);
+        controls.emplace_back(targets[nModifierControls + i],
+                              ctrlModifier->ctrlType);
       }
+      nModifierControls += n;
       nControls += n;
     } else if (auto invModifier =
                    std::dynamic_pointer_cast<InvGateModifier>(modifier);
@@ -579,6 +579,9 @@ std::unique_ptr<qc::Operation> Importer::evaluateGateCall(
                           gateCallStatement->debugInfo);
     }
   }
+  for (size_t i = 0; i < nGateControls; ++i) {
+    controls.emplace_back(targets[nModifierControls + i], true);
+  }
   targets.erase(targets.begin(),
                 targets.begin() + static_cast<int64_t>(nControls));
 
-- 
2.43.0


From 94b41486219b0ffe5756ec2d0178c0fb85092c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:05 +0000
Subject: [PATCH 089/163] fix: parse expressions with the precedence of
 OpenQASM

---
 include/mqt-core/qasm3/Parser.hpp |  8 +++
 src/qasm3/Parser.cpp              | 94 ++++++++++++++++++++-----------
 2 files changed, 69 insertions(+), 33 deletions(-)

diff --git a/include/mqt-core/qasm3/Parser.hpp b/include/mqt-core/qasm3/Parser.hpp
index 9c7c477..e434b52 100644
--- a/include/mqt-core/qasm3/Parser.hpp
+++ b/include/mqt-core/qasm3/Parser.hpp
@@ -136,10 +136,18 @@ public:
 
   std::shared_ptr<Expression> exponentiation();
 
+  std::shared_ptr<Expression> power();
+
+  [[nodiscard]] bool isNegativeLiteral() const;
+
+  void dropSignOfLiteral();
+
   std::shared_ptr<Expression> factor();
 
   std::shared_ptr<Expression> term();
 
+  std::shared_ptr<Expression> sum();
+
   std::shared_ptr<Expression> comparison();
 
   std::shared_ptr<Expression> parseExpression();
diff --git a/src/qasm3/Parser.cpp b/src/qasm3/Parser.cpp
index 8b8698b..60a09ee 100644
--- a/src/qasm3/Parser.cpp
+++ b/src/qasm3/Parser.cpp
@@ -18,6 +18,7 @@
 #include "qasm3/Token.hpp"
 #include "qasm3/Types.hpp"
 
+#include <cmath>
 #include <cstdint>
 #include <fstream>
 #include <istream>
@@ -728,7 +729,7 @@ std::shared_ptr<Expression> Parser::exponentiation() {
   }
 }
 
-std::shared_ptr<Expression> Parser::factor() {
+std::shared_ptr<Expression> Parser::power() {
   auto x = exponentiation();
   while (current().kind == Token::Kind::Caret) {
     scan();
@@ -738,6 +739,43 @@ std::shared_ptr<Expression> Parser::factor() {
   return x;
 }
 
+bool Parser::isNegativeLiteral() const {
+  const auto token = current();
+  return (token.kind == Token::Kind::IntegerLiteral && token.isSigned) ||
+         (token.kind == Token::Kind::FloatLiteral &&
+          std::signbit(token.valReal));
+}
+
+void Parser::dropSignOfLiteral() {
+  auto& token = scanner.top().t;
+  token.val = -token.val;
+  token.valReal = -token.valReal;
+  token.isSigned = false;
+}
+
+std::shared_ptr<Expression> Parser::factor() {
+  auto op = UnaryExpression::Op::Negate;
+  switch (current().kind) {
+  case Token::Kind::Minus:
+    break;
+  case Token::Kind::ExclamationPoint:
+    op = UnaryExpression::Op::LogicalNot;
+    break;
+  case Token::Kind::Tilde:
+    op = UnaryExpression::Op::BitwiseNot;
+    break;
+  default:
+    if (isNegativeLiteral() && peek().kind == Token::Kind::Caret) {
+      // the sign applies to the result of the exponentiation
+      dropSignOfLiteral();
+      return std::make_shared<UnaryExpression>(op, power());
+    }
+    return power();
+  }
+  scan();
+  return std::make_shared<UnaryExpression>(op, factor());
+}
+
 std::shared_ptr<Expression> Parser::term() {
   auto x = factor();
   while (current().kind == Token::Kind::Asterisk ||
@@ -752,8 +790,27 @@ std::shared_ptr<Expression> Parser::term() {
   return x;
 }
 
-std::shared_ptr<Expression> Parser::comparison() {
+std::shared_ptr<Expression> Parser::sum() {
   auto x = term();
+  while (current().kind == Token::Kind::Plus ||
+         current().kind == Token::Kind::Minus || isNegativeLiteral()) {
+    auto const op = current().kind == Token::Kind::Plus
+                        ? BinaryExpression::Op::Add
+                        : BinaryExpression::Op::Subtract;
+    if (isNegativeLiteral()) {
+      // a minus sign right in front of a number is part of its token
+      dropSignOfLiteral();
+    } else {
+      scan();
+    }
+    const auto y = term();
+    x = std::make_shared<BinaryExpression>(BinaryExpression{op, x, y});
+  }
+  return x;
+}
+
+std::shared_ptr<Expression> Parser::comparison() {
+  auto x = sum();
   while (current().kind == Token::Kind::DoubleEquals ||
          current().kind == Token::Kind::NotEquals ||
          current().kind == Token::Kind::LessThan ||
@@ -784,42 +841,13 @@ std::shared_ptr<Expression> Parser::comparison() {
       error(current(), "Expected comparison operator");
     }
     scan();
-    const auto y = term();
+    const auto y = sum();
     x = std::make_shared<BinaryExpression>(op, x, y);
   }
   return x;
 }
 
-std::shared_ptr<Expression> Parser::parseExpression() {
-  std::shared_ptr<Expression> x{};
-  if (current().kind == Token::Kind::Minus) {
-    scan();
-    x = std::make_shared<UnaryExpression>(
-        UnaryExpression{UnaryExpression::Op::Negate, term()});
-  } else if (current().kind == Token::Kind::ExclamationPoint) {
-    scan();
-    x = std::make_shared<UnaryExpression>(
-        UnaryExpression{UnaryExpression::Op::LogicalNot, term()});
-  } else if (current().kind == Token::Kind::Tilde) {
-    scan();
-    x = std::make_shared<UnaryExpression>(
-        UnaryExpression{UnaryExpression::Op::BitwiseNot, term()});
-  } else {
-    x = comparison();
-  }
-
-  while (current().kind == Token::Kind::Plus ||
-         current().kind == Token::Kind::Minus) {
-    auto const op = current().kind == Token::Kind::Plus
-                        ? BinaryExpression::Op::Add
-                        : BinaryExpression::Op::Subtract;
-    scan();
-    const auto y = comparison();
-    x = std::make_shared<BinaryExpression>(BinaryExpression{op, x, y});
-  }
-
-  return x;
-}
+std::shared_ptr<Expression> Parser::parseExpression() { return comparison(); }
 
 std::shared_ptr<IdentifierList> Parser::parseIdentifierList() {
   std::vector<std::shared_ptr<IdentifierExpression>> identifierList{};
-- 
2.43.0


From 85f3a9a7a56b94b36f0bfcda152b1e740de319bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:05 +0000
Subject: [PATCH 090/163] fix: negate unsigned constants in OpenQASM
 expressions

---
 src/qasm3/passes/ConstEvalPass.cpp | 5 ++++-
 src/qasm3/passes/TypeCheckPass.cpp | 5 +++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/qasm3/passes/ConstEvalPass.cpp b/src/qasm3/passes/ConstEvalPass.cpp
index 888bccc..14af5d0 100644
--- a/src/qasm3/passes/ConstEvalPass.cpp
+++ b/src/qasm3/passes/ConstEvalPass.cpp
@@ -493,7 +493,10 @@ std::optional<ConstEvalValue> ConstEvalPass::visitUnaryExpression(
     }
     break;
   case UnaryExpression::Negate:
-    if (val->type == ConstEvalValue::Type::ConstInt) {
+    if (val->type == ConstEvalValue::Type::ConstInt ||
+        val->type == ConstEvalValue::Type::ConstUint) {
+      // the negative of an unsigned number is a signed one
+      val->type = ConstEvalValue::Type::ConstInt;
       val->value = -std::get<0>(val->value);
     } else if (val->type == ConstEvalValue::Type::ConstFloat) {
       val->value = -std::get<1>(val->value);
diff --git a/src/qasm3/passes/TypeCheckPass.cpp b/src/qasm3/passes/TypeCheckPass.cpp
index 6fae907..e29a0a7 100644
--- a/src/qasm3/passes/TypeCheckPass.cpp
+++ b/src/qasm3/passes/TypeCheckPass.cpp
@@ -291,6 +291,11 @@ InferredType TypeCheckPass::visitUnaryExpression(
     }
     break;
   case UnaryExpression::Negate:
+    if (!type.isError && type.type->isUint()) {
+      // the negative of an unsigned number is a signed one
+      return InferredType{std::dynamic_pointer_cast<ResolvedType>(
+          DesignatedType<uint64_t>::getIntTy(type.type->getDesignator()))};
+    }
     break;
   case UnaryExpression::DurationOf:
     return InferredType{UnsizedType<uint64_t>::getDurationTy()};
-- 
2.43.0


From 2b6a868724ebe7308b7e254d316badce9fb665fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:06 +0000
Subject: [PATCH 091/163] fix: accept integers as arguments of functions in
 OpenQASM expressions

---
 src/qasm3/passes/ConstEvalPass.cpp | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/qasm3/passes/ConstEvalPass.cpp b/src/qasm3/passes/ConstEvalPass.cpp
index 14af5d0..fa3e04f 100644
--- a/src/qasm3/passes/ConstEvalPass.cpp
+++ b/src/qasm3/passes/ConstEvalPass.cpp
@@ -44,6 +44,22 @@ template <typename T> T power(T base, T exponent) {
 }
 } // namespace
 
+namespace {
+/// Converts an integer value to a floating point one
+void convertToFloat(ConstEvalValue& val) {
+  if (val.type == ConstEvalValue::Type::ConstInt) {
+    val.value = static_cast<double>(std::get<0>(val.value));
+  } else if (val.type == ConstEvalValue::Type::ConstUint) {
+    val.value =
+        static_cast<double>(static_cast<uint64_t>(std::get<0>(val.value)));
+  } else {
+    return;
+  }
+  val.type = ConstEvalValue::Type::ConstFloat;
+  val.width = 64;
+}
+} // namespace
+
 void ConstEvalPass::processStatement(Statement& statement) {
   try {
     statement.accept(this);
@@ -475,6 +491,20 @@ std::optional<ConstEvalValue> ConstEvalPass::visitUnaryExpression(
     return std::nullopt;
   }
 
+  switch (unaryExpression->op) {
+  case UnaryExpression::Sin:
+  case UnaryExpression::Cos:
+  case UnaryExpression::Tan:
+  case UnaryExpression::Exp:
+  case UnaryExpression::Ln:
+  case UnaryExpression::Sqrt:
+    // the functions take floating point numbers
+    convertToFloat(*val);
+    break;
+  default:
+    break;
+  }
+
   // For each unary operator, we need to check the type of the operand and
   // determine whether the operation is valid.
   switch (unaryExpression->op) {
-- 
2.43.0


From da1e8f19ec90cc16fcb94da72686de83c9f2f775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:06 +0000
Subject: [PATCH 092/163] fix: convert the value of an OpenQASM constant to its
 declared type

---
 src/qasm3/passes/ConstEvalPass.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/qasm3/passes/ConstEvalPass.cpp b/src/qasm3/passes/ConstEvalPass.cpp
index fa3e04f..46e0954 100644
--- a/src/qasm3/passes/ConstEvalPass.cpp
+++ b/src/qasm3/passes/ConstEvalPass.cpp
@@ -79,11 +79,16 @@ void ConstEvalPass::visitDeclarationStatement(
         "Constant declaration initialization expression must be initialized.");
   }
 
-  const auto value = visit(declarationStatement->expression->expression);
+  auto value = visit(declarationStatement->expression->expression);
   if (!value) {
     throw ConstEvalError(
         "Constant declaration initialization expression must be const.");
   }
+  // the value of a constant has the type it is declared with
+  const auto isFloat = [](const auto& type) { return type->isFP(); };
+  if (std::visit(isFloat, declarationStatement->type)) {
+    convertToFloat(*value);
+  }
 
   declarationStatement->expression->expression = value->toExpr();
 
-- 
2.43.0


From 755815150724273c1b47f6c0870635ac6fee9825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:06 +0000
Subject: [PATCH 093/163] fix: read upper case hexadecimal digits

---
 src/qasm3/Scanner.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qasm3/Scanner.cpp b/src/qasm3/Scanner.cpp
index 3aa87f8..6873e41 100644
--- a/src/qasm3/Scanner.cpp
+++ b/src/qasm3/Scanner.cpp
@@ -174,7 +174,7 @@ uint64_t Scanner::parseIntegerLiteral(const std::string& str,
       val += static_cast<uint64_t>(c) - '0';
     } else {
       val *= base;
-      val += static_cast<uint64_t>(c) - 'a' + 10;
+      val += static_cast<uint64_t>(std::tolower(c)) - 'a' + 10;
     }
   }
   return val;
-- 
2.43.0


From 5fda03fe233c91debe8f2a6004b2b43eeacb1ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:06 +0000
Subject: [PATCH 094/163] fix: allow gates named like the controlled version of
 another gate

---
 src/qasm3/Importer.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/qasm3/Importer.cpp b/src/qasm3/Importer.cpp
index d320cb5..8737d8a 100644
--- a/src/qasm3/Importer.cpp
+++ b/src/qasm3/Importer.cpp
@@ -429,8 +429,13 @@ void Importer::visitGateStatement(
   }
 
   if (openQASM2CompatMode) {
-    // we need to check if this is a standard gate
-    identifier = parseGateIdentifierCompatMode(identifier).first;
+    // we need to check if this is a controlled version of a standard gate
+    const auto base = parseGateIdentifierCompatMode(identifier).first;
+    if (const auto gate = gates.find(base);
+        gate != gates.end() &&
+        std::dynamic_pointer_cast<StandardGate>(gate->second) != nullptr) {
+      identifier = base;
+    }
   }
 
   if (auto prevDeclaration = gates.find(identifier);
-- 
2.43.0


From 69259e43dcb77b859c352df2da538269ac39d933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:06 +0000
Subject: [PATCH 095/163] fix: compare the given bit in conditions instead of
 its register

---
 src/qasm3/Importer.cpp | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/qasm3/Importer.cpp b/src/qasm3/Importer.cpp
index 8737d8a..8eeacbd 100644
--- a/src/qasm3/Importer.cpp
+++ b/src/qasm3/Importer.cpp
@@ -225,9 +225,30 @@ Importer::translateCondition(
         lhsIsIdentifier ? std::dynamic_pointer_cast<IndexedIdentifier>(lhs)
                         : std::dynamic_pointer_cast<IndexedIdentifier>(rhs);
     const auto& identifier = indexedIdentifier->identifier;
-    const auto val = lhsIsIdentifier
-                         ? std::dynamic_pointer_cast<Constant>(rhs)->getUInt()
-                         : std::dynamic_pointer_cast<Constant>(lhs)->getUInt();
+    const auto& constant =
+        std::dynamic_pointer_cast<Constant>(lhsIsIdentifier ? rhs : lhs);
+    if (constant->isFP()) {
+      throw CompilerError("Registers can only be compared to integers.",
+                          debugInfo);
+    }
+    const auto val = constant->isBool()
+                         ? static_cast<uint64_t>(constant->getBool())
+                         : constant->getUInt();
+
+    if (!indexedIdentifier->indices.empty()) {
+      // only the given bit is compared
+      if ((*comparisonKind != qc::ComparisonKind::Eq &&
+           *comparisonKind != qc::ComparisonKind::Neq) ||
+          val > 1) {
+        throw CompilerError("Single bits can only be tested for (in)equality "
+                            "with 0 or 1.",
+                            debugInfo);
+      }
+      std::vector<qc::Bit> bits{};
+      translateBitOperand(indexedIdentifier, bits, debugInfo);
+      return std::pair{bits[0], (*comparisonKind == qc::ComparisonKind::Eq) ==
+                                    (val == 1)};
+    }
 
     const auto creg = qc->getClassicalRegisters().find(identifier);
     if (creg == qc->getClassicalRegisters().end()) {
-- 
2.43.0


From a48bbb123a9d1b5704d9c530eb24f86fa6cb3bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:06 +0000
Subject: [PATCH 096/163] fix: respect the order of the operands of a condition

---
 src/qasm3/Importer.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/qasm3/Importer.cpp b/src/qasm3/Importer.cpp
index 8eeacbd..aa4c812 100644
--- a/src/qasm3/Importer.cpp
+++ b/src/qasm3/Importer.cpp
@@ -256,6 +256,21 @@ Importer::translateCondition(
                               identifier + "' in condition.",
                           debugInfo);
     }
+    if (!lhsIsIdentifier) {
+      // the register becomes the left-hand side of the comparison
+      switch (*comparisonKind) {
+      case qc::ComparisonKind::Lt:
+        return std::tuple{creg->second, qc::ComparisonKind::Gt, val};
+      case qc::ComparisonKind::Leq:
+        return std::tuple{creg->second, qc::ComparisonKind::Geq, val};
+      case qc::ComparisonKind::Gt:
+        return std::tuple{creg->second, qc::ComparisonKind::Lt, val};
+      case qc::ComparisonKind::Geq:
+        return std::tuple{creg->second, qc::ComparisonKind::Leq, val};
+      default:
+        break;
+      }
+    }
     return std::tuple{creg->second, *comparisonKind, val};
   }
   if (const auto unaryExpression =
-- 
2.43.0


From 66a83011b5f39399972c8653234155f7be737d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:06 +0000
Subject: [PATCH 097/163] fix: do not read layouts from arbitrary comments

---
 src/qasm3/Scanner.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/qasm3/Scanner.cpp b/src/qasm3/Scanner.cpp
index 6873e41..eab8691 100644
--- a/src/qasm3/Scanner.cpp
+++ b/src/qasm3/Scanner.cpp
@@ -19,7 +19,6 @@
 #include <iostream>
 #include <istream>
 #include <optional>
-#include <regex>
 #include <sstream>
 #include <stdexcept>
 #include <string>
@@ -27,6 +26,22 @@
 #include <vector>
 
 namespace qasm3 {
+namespace {
+/// Checks for a comment of the form `// i 0 1 2` that consists of nothing but
+/// the given key and a list of numbers
+bool isPermutationComment(const std::string& comment, const char key) {
+  constexpr auto whitespace = " \t\r";
+  const auto begin = comment.find_first_not_of(whitespace, 2);
+  if (begin == std::string::npos || comment[begin] != key) {
+    return false;
+  }
+  const auto number = comment.find_first_not_of(whitespace, begin + 1);
+  return number != std::string::npos && number != begin + 1 &&
+         comment.find_first_not_of("0123456789 \t\r", number) ==
+             std::string::npos;
+}
+} // namespace
+
 char Scanner::readUtf8Codepoint(std::istream* in) {
   char c = 0;
   in->get(c);
@@ -69,13 +84,10 @@ std::optional<Token> Scanner::consumeWhitespaceAndComments() {
       nextCh();
     }
 
-    static const auto INITIAL_LAYOUT_REGEX = std::regex("i (\\d+ )*(\\d+)");
-    static const auto OUTPUT_PERMUTATION_REGEX = std::regex("o (\\d+ )*(\\d+)");
-
     const auto str = content.str();
-    if (std::regex_search(str, INITIAL_LAYOUT_REGEX)) {
+    if (isPermutationComment(str, 'i')) {
       t.kind = Token::Kind::InitialLayout;
-    } else if (std::regex_search(str, OUTPUT_PERMUTATION_REGEX)) {
+    } else if (isPermutationComment(str, 'o')) {
       t.kind = Token::Kind::OutputPermutation;
     } else {
       return consumeWhitespaceAndComments();
-- 
2.43.0


From fd8681ffe9813030774c19e7eed757d3f2b591a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:06 +0000
Subject: [PATCH 098/163] fix: divide over the real numbers in OpenQASM 2

---
 include/mqt-core/qasm3/passes/ConstEvalPass.hpp |  8 ++++++++
 src/qasm3/Importer.cpp                          |  1 +
 src/qasm3/passes/ConstEvalPass.cpp              | 10 ++++++++++
 3 files changed, 19 insertions(+)

diff --git a/include/mqt-core/qasm3/passes/ConstEvalPass.hpp b/include/mqt-core/qasm3/passes/ConstEvalPass.hpp
index 333762b..f87f400 100644
--- a/include/mqt-core/qasm3/passes/ConstEvalPass.hpp
+++ b/include/mqt-core/qasm3/passes/ConstEvalPass.hpp
@@ -39,6 +39,10 @@ struct ConstEvalValue {
       : type(isSigned ? ConstInt : ConstUint), value(val), width(w) {}
   explicit ConstEvalValue(bool val) : type(ConstBool), value(val), width(1) {}
 
+  [[nodiscard]] bool isInt() const {
+    return type == ConstInt || type == ConstUint;
+  }
+
   [[nodiscard]] std::shared_ptr<Constant> toExpr() const;
 
   bool operator==(const ConstEvalValue& rhs) const;
@@ -54,6 +58,7 @@ class ConstEvalPass final
       public ExpressionVisitor<std::optional<ConstEvalValue>>,
       public TypeVisitor<std::shared_ptr<Expression>> {
   NestedEnvironment<ConstEvalValue> env;
+  bool realDivision = false;
 
 public:
   ConstEvalPass() = default;
@@ -69,6 +74,9 @@ public:
 
   void processStatement(Statement& statement) override;
 
+  /// In OpenQASM 2, all expressions are evaluated over the real numbers.
+  void useRealDivision() { realDivision = true; }
+
   void pushEnv() { env.push(); }
   void popEnv() { env.pop(); }
 
diff --git a/src/qasm3/Importer.cpp b/src/qasm3/Importer.cpp
index aa4c812..bc7e9d7 100644
--- a/src/qasm3/Importer.cpp
+++ b/src/qasm3/Importer.cpp
@@ -351,6 +351,7 @@ void Importer::visitVersionDeclaration(
     const std::shared_ptr<VersionDeclaration> versionDeclaration) {
   if (versionDeclaration->version < 3) {
     openQASM2CompatMode = true;
+    constEvalPass.useRealDivision();
   }
 }
 
diff --git a/src/qasm3/passes/ConstEvalPass.cpp b/src/qasm3/passes/ConstEvalPass.cpp
index 46e0954..32764f4 100644
--- a/src/qasm3/passes/ConstEvalPass.cpp
+++ b/src/qasm3/passes/ConstEvalPass.cpp
@@ -435,6 +435,16 @@ std::optional<ConstEvalValue> ConstEvalPass::visitBinaryExpression(
     return std::nullopt;
   }
 
+  if (realDivision && binaryExpression->op == BinaryExpression::Divide &&
+      lhsVal->isInt() && rhsVal->isInt()) {
+    const auto divisor = std::get<0>(rhsVal->value);
+    if (divisor != 0 && divisor != -1 &&
+        std::get<0>(lhsVal->value) % divisor != 0) {
+      convertToFloat(*lhsVal);
+      convertToFloat(*rhsVal);
+    }
+  }
+
   // We need to coerce the values to the correct type.
   // ConstInt and ConstUint should be able to coerce to ConstFloat.
   // ConstUint should coerce to ConstInt.
-- 
2.43.0


From 4d284f4ec7673bb3b083b4c9937ca572e4450340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:09 +0000
Subject: [PATCH 099/163] fix: evaluate powers of zero and of negative integers

---
 src/qasm3/passes/ConstEvalPass.cpp | 46 ++++++++++++++++++++++++++----
 1 file changed, 40 insertions(+), 6 deletions(-)

diff --git a/src/qasm3/passes/ConstEvalPass.cpp b/src/qasm3/passes/ConstEvalPass.cpp
index 32764f4..838b025 100644
--- a/src/qasm3/passes/ConstEvalPass.cpp
+++ b/src/qasm3/passes/ConstEvalPass.cpp
@@ -20,6 +20,7 @@
 #include <cmath>
 #include <cstddef>
 #include <cstdint>
+#include <cstdlib>
 #include <limits>
 #include <memory>
 #include <optional>
@@ -28,14 +29,39 @@
 
 namespace qasm3::const_eval {
 namespace {
-template <typename T> T power(T base, T exponent) {
-  if (exponent == 0) {
+int64_t power(const int64_t base, const uint64_t exponent) {
+  if (exponent == 0 || base == 1) {
     return 1;
   }
+  if (base == 0) {
+    return 0;
+  }
+  if (base == -1) {
+    return exponent % 2 == 0 ? 1 : -1;
+  }
 
-  T result = 1;
-  for (T i = 0; i < exponent; ++i) {
-    if (result > std::numeric_limits<T>::max() / base) {
+  constexpr auto max = std::numeric_limits<int64_t>::max();
+  int64_t result = 1;
+  for (uint64_t i = 0; i < exponent; ++i) {
+    if (std::abs(result) > max / std::abs(base)) {
+      throw ConstEvalError("Integer overflow in constant evaluation.");
+    }
+    result *= base;
+  }
+  return result;
+}
+
+uint64_t power(const uint64_t base, const uint64_t exponent) {
+  if (exponent == 0 || base == 1) {
+    return 1;
+  }
+  if (base == 0) {
+    return 0;
+  }
+
+  uint64_t result = 1;
+  for (uint64_t i = 0; i < exponent; ++i) {
+    if (result > std::numeric_limits<uint64_t>::max() / base) {
       throw ConstEvalError("Integer overflow in constant evaluation.");
     }
     result *= base;
@@ -202,7 +228,7 @@ ConstEvalValue evalIntExpression(BinaryExpression::Op op, int64_t lhs,
   switch (op) {
   case BinaryExpression::Power:
     if (isSigned) {
-      result.value = power(lhs, rhs);
+      result.value = power(lhs, rhsU);
     } else {
       result.value = static_cast<int64_t>(power(lhsU, rhsU));
     }
@@ -445,6 +471,14 @@ std::optional<ConstEvalValue> ConstEvalPass::visitBinaryExpression(
     }
   }
 
+  if (binaryExpression->op == BinaryExpression::Power && lhsVal->isInt() &&
+      rhsVal->type == ConstEvalValue::Type::ConstInt &&
+      std::get<0>(rhsVal->value) < 0) {
+    // negative powers of integers are fractions
+    convertToFloat(*lhsVal);
+    convertToFloat(*rhsVal);
+  }
+
   // We need to coerce the values to the correct type.
   // ConstInt and ConstUint should be able to coerce to ConstFloat.
   // ConstUint should coerce to ConstInt.
-- 
2.43.0


From 472ae059f3944be0cd68b9655d82c34be77c8267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:09 +0000
Subject: [PATCH 100/163] fix: allow negative differences in OpenQASM
 expressions

---
 src/qasm3/passes/ConstEvalPass.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qasm3/passes/ConstEvalPass.cpp b/src/qasm3/passes/ConstEvalPass.cpp
index 838b025..142a283 100644
--- a/src/qasm3/passes/ConstEvalPass.cpp
+++ b/src/qasm3/passes/ConstEvalPass.cpp
@@ -238,6 +238,10 @@ ConstEvalValue evalIntExpression(BinaryExpression::Op op, int64_t lhs,
     break;
   case BinaryExpression::Subtract:
     result.value = static_cast<int64_t>(lhsU - rhsU);
+    if (!isSigned && lhsU < rhsU) {
+      // the difference of unsigned numbers may be negative
+      result.type = ConstEvalValue::ConstInt;
+    }
     break;
   case BinaryExpression::Multiply:
     if (isSigned) {
-- 
2.43.0


From 141720e8d06f4c0e8525740543dfbfc1eeba6219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:09 +0000
Subject: [PATCH 101/163] fix: report divisions by zero in OpenQASM expressions

---
 src/qasm3/passes/ConstEvalPass.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/qasm3/passes/ConstEvalPass.cpp b/src/qasm3/passes/ConstEvalPass.cpp
index 142a283..ae1fe5e 100644
--- a/src/qasm3/passes/ConstEvalPass.cpp
+++ b/src/qasm3/passes/ConstEvalPass.cpp
@@ -222,6 +222,15 @@ ConstEvalValue evalIntExpression(BinaryExpression::Op op, int64_t lhs,
   auto rhsU = static_cast<uint64_t>(rhs);
   ConstEvalValue result{0, isSigned, width};
 
+  if ((op == BinaryExpression::Divide || op == BinaryExpression::Modulo)) {
+    if (rhs == 0) {
+      throw ConstEvalError("Division by zero in constant evaluation.");
+    }
+    if (isSigned && rhs == -1 && lhs == std::numeric_limits<int64_t>::min()) {
+      throw ConstEvalError("Integer overflow in constant evaluation.");
+    }
+  }
+
   // First evaluate the result. For some operations (e.g. division, comparison)
   // we need to handle signed and unsigned integers differently. For others,
   // such as addition and subtraction we can use the unsigned version directly.
-- 
2.43.0


From 20087ae5e324fbbe269555712601dfe6969a8165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:57 +0000
Subject: [PATCH 102/163] fix: evaluate constant indices in all OpenQASM
 statements

---
 .../mqt-core/qasm3/passes/ConstEvalPass.hpp   | 11 ++++
 src/qasm3/passes/ConstEvalPass.cpp            | 60 +++++++++++++++----
 2 files changed, 60 insertions(+), 11 deletions(-)

diff --git a/include/mqt-core/qasm3/passes/ConstEvalPass.hpp b/include/mqt-core/qasm3/passes/ConstEvalPass.hpp
index f87f400..4b1e282 100644
--- a/include/mqt-core/qasm3/passes/ConstEvalPass.hpp
+++ b/include/mqt-core/qasm3/passes/ConstEvalPass.hpp
@@ -60,6 +60,10 @@ class ConstEvalPass final
   NestedEnvironment<ConstEvalValue> env;
   bool realDivision = false;
 
+  /// Replaces the constant expressions used as indices by their values.
+  void evaluateIndices(const IndexedIdentifier& identifier);
+  void evaluateIndices(const GateOperand& operand);
+
 public:
   ConstEvalPass() = default;
   ~ConstEvalPass() override = default;
@@ -82,6 +86,13 @@ public:
 
   void visitDeclarationStatement(
       std::shared_ptr<DeclarationStatement> declarationStatement) override;
+  void visitAssignmentStatement(
+      std::shared_ptr<AssignmentStatement> assignmentStatement) override;
+  void visitBarrierStatement(
+      std::shared_ptr<BarrierStatement> barrierStatement) override;
+  void
+  visitResetStatement(std::shared_ptr<ResetStatement> resetStatement) override;
+  void visitIfStatement(std::shared_ptr<IfStatement> ifStatement) override;
   void visitGateCallStatement(
       std::shared_ptr<GateCallStatement> gateCallStatement) override;
 
diff --git a/src/qasm3/passes/ConstEvalPass.cpp b/src/qasm3/passes/ConstEvalPass.cpp
index ae1fe5e..c6805b7 100644
--- a/src/qasm3/passes/ConstEvalPass.cpp
+++ b/src/qasm3/passes/ConstEvalPass.cpp
@@ -121,6 +121,54 @@ void ConstEvalPass::visitDeclarationStatement(
   this->env.emplace(declarationStatement->identifier, *value);
 }
 
+void ConstEvalPass::evaluateIndices(const IndexedIdentifier& identifier) {
+  for (const auto& indexOperator : identifier.indices) {
+    for (auto& index : indexOperator->indexExpressions) {
+      if (auto evaluatedArg = visit(index)) {
+        index = evaluatedArg->toExpr();
+      }
+    }
+  }
+}
+
+void ConstEvalPass::evaluateIndices(const GateOperand& operand) {
+  if (!operand.isHardwareQubit()) {
+    evaluateIndices(*operand.getIdentifier());
+  }
+}
+
+void ConstEvalPass::visitAssignmentStatement(
+    const std::shared_ptr<AssignmentStatement> assignmentStatement) {
+  evaluateIndices(*assignmentStatement->identifier);
+  if (const auto measureExpression =
+          std::dynamic_pointer_cast<MeasureExpression>(
+              assignmentStatement->expression->expression)) {
+    evaluateIndices(*measureExpression->gate);
+  }
+}
+
+void ConstEvalPass::visitBarrierStatement(
+    const std::shared_ptr<BarrierStatement> barrierStatement) {
+  for (const auto& operand : barrierStatement->gates) {
+    evaluateIndices(*operand);
+  }
+}
+
+void ConstEvalPass::visitResetStatement(
+    const std::shared_ptr<ResetStatement> resetStatement) {
+  evaluateIndices(*resetStatement->gate);
+}
+
+void ConstEvalPass::visitIfStatement(
+    const std::shared_ptr<IfStatement> ifStatement) {
+  for (const auto& statement : ifStatement->thenStatements) {
+    statement->accept(this);
+  }
+  for (const auto& statement : ifStatement->elseStatements) {
+    statement->accept(this);
+  }
+}
+
 void ConstEvalPass::visitGateCallStatement(
     std::shared_ptr<GateCallStatement> gateCallStatement) {
   for (auto& arg : gateCallStatement->arguments) {
@@ -129,17 +177,7 @@ void ConstEvalPass::visitGateCallStatement(
     }
   }
   for (auto& op : gateCallStatement->operands) {
-    if (op->isHardwareQubit()) {
-      continue;
-    }
-    auto id = op->getIdentifier();
-    for (auto& indexOperator : id->indices) {
-      for (auto& index : indexOperator->indexExpressions) {
-        if (auto evaluatedArg = visit(index)) {
-          index = evaluatedArg->toExpr();
-        }
-      }
-    }
+    evaluateIndices(*op);
   }
   for (auto& modifier : gateCallStatement->modifiers) {
     if (auto powModifier = std::dynamic_pointer_cast<PowGateModifier>(modifier);
-- 
2.43.0


From 75e58d4a1e926475155993673c3ee246315a9240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:46 +0000
Subject: [PATCH 103/163] fix: stop reading unterminated strings at the end of
 the file

---
 src/qasm3/Scanner.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qasm3/Scanner.cpp b/src/qasm3/Scanner.cpp
index eab8691..595680e 100644
--- a/src/qasm3/Scanner.cpp
+++ b/src/qasm3/Scanner.cpp
@@ -340,7 +340,7 @@ Token Scanner::consumeString() {
   nextCh();
 
   std::stringstream content;
-  while (ch != delim) {
+  while (ch != delim && ch != 0) {
     content << ch;
     nextCh();
   }
-- 
2.43.0


From f7279544900261051a4da6ef790072d88524e0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:46 +0000
Subject: [PATCH 104/163] fix: reject empty indices in OpenQASM programs

---
 src/qasm3/Importer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qasm3/Importer.cpp b/src/qasm3/Importer.cpp
index bc7e9d7..af74766 100644
--- a/src/qasm3/Importer.cpp
+++ b/src/qasm3/Importer.cpp
@@ -135,7 +135,7 @@ void Importer::translateGateOperand(
                         debugInfo);
   }
   const auto indexOperator = indexedIdentifier->indices[0];
-  if (indexOperator->indexExpressions.size() > 1) {
+  if (indexOperator->indexExpressions.size() != 1) {
     throw CompilerError("Only single index expressions are supported.",
                         debugInfo);
   }
@@ -175,7 +175,7 @@ void Importer::translateBitOperand(
                         debugInfo);
   }
   const auto& indexExpressions = indices[0]->indexExpressions;
-  if (indexExpressions.size() > 1) {
+  if (indexExpressions.size() != 1) {
     throw CompilerError("Only single index expressions are supported.",
                         debugInfo);
   }
-- 
2.43.0


From f4b0a38eada457be6d07aab69f1a65bcbc9be268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:47 +0000
Subject: [PATCH 105/163] fix: report conditions that are not supported

---
 src/qasm3/Importer.cpp | 40 +++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/src/qasm3/Importer.cpp b/src/qasm3/Importer.cpp
index af74766..a138562 100644
--- a/src/qasm3/Importer.cpp
+++ b/src/qasm3/Importer.cpp
@@ -273,30 +273,32 @@ Importer::translateCondition(
     }
     return std::tuple{creg->second, *comparisonKind, val};
   }
+  const auto translateBit = [&](const std::shared_ptr<Expression>& expression) {
+    const auto indexedIdentifier =
+        std::dynamic_pointer_cast<IndexedIdentifier>(expression);
+    if (indexedIdentifier == nullptr) {
+      throw CompilerError("Only classical bits and registers are supported in "
+                          "conditions.",
+                          debugInfo);
+    }
+    std::vector<qc::Bit> bits{};
+    translateBitOperand(indexedIdentifier, bits, debugInfo);
+    if (bits.size() != 1) {
+      throw CompilerError("Expected a single bit in condition.", debugInfo);
+    }
+    return bits[0];
+  };
   if (const auto unaryExpression =
           std::dynamic_pointer_cast<UnaryExpression>(condition);
       unaryExpression != nullptr) {
-    // This should already be caught by the type checker.
-    assert(unaryExpression->op == UnaryExpression::LogicalNot ||
-           unaryExpression->op == UnaryExpression::BitwiseNot);
-    const auto& indexedIdentifier =
-        std::dynamic_pointer_cast<IndexedIdentifier>(unaryExpression->operand);
-    std::vector<qc::Bit> bits{};
-    translateBitOperand(indexedIdentifier, bits, debugInfo);
-    // This should already be caught by the type checker.
-    assert(bits.size() == 1);
-    return std::pair{bits[0], false};
+    if (unaryExpression->op != UnaryExpression::LogicalNot &&
+        unaryExpression->op != UnaryExpression::BitwiseNot) {
+      throw CompilerError("Unsupported operator in condition.", debugInfo);
+    }
+    return std::pair{translateBit(unaryExpression->operand), false};
   }
   // must be a single bit at this point
-  const auto& indexedIdentifier =
-      std::dynamic_pointer_cast<IndexedIdentifier>(condition);
-  // should also be caught by the type checker
-  assert(indexedIdentifier != nullptr);
-  std::vector<qc::Bit> bits{};
-  translateBitOperand(indexedIdentifier, bits, debugInfo);
-  // This should already be caught by the type checker.
-  assert(bits.size() == 1);
-  return std::pair{bits[0], true};
+  return std::pair{translateBit(condition), true};
 }
 
 uint64_t
-- 
2.43.0


From 9c1314524738b7e7f9aaa74132b8f55100fb57af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:47 +0000
Subject: [PATCH 106/163] fix: reject control modifiers with too many controls

---
 src/qasm3/Importer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qasm3/Importer.cpp b/src/qasm3/Importer.cpp
index a138562..63ece8e 100644
--- a/src/qasm3/Importer.cpp
+++ b/src/qasm3/Importer.cpp
@@ -598,7 +598,7 @@ std::unique_ptr<qc::Operation> Importer::evaluateGateCall(
                                                 gateCallStatement->debugInfo,
                                                 /*defaultValue=*/
                                                 1);
-      if (targets.size() < n + nControls) {
+      if (n > targets.size() || targets.size() - n < nControls) {
         throw CompilerError(
             "Gate '" + identifier + "' takes " + std::to_string(n + nControls) +
                 " controls, but only " + std::to_string(targets.size()) +
-- 
2.43.0


From 9c088f102c8ad031936d33626a7d390e2a94f4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:47 +0000
Subject: [PATCH 107/163] fix: do not use the type of erroneous OpenQASM
 expressions

---
 src/qasm3/passes/TypeCheckPass.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/qasm3/passes/TypeCheckPass.cpp b/src/qasm3/passes/TypeCheckPass.cpp
index e29a0a7..05a17fc 100644
--- a/src/qasm3/passes/TypeCheckPass.cpp
+++ b/src/qasm3/passes/TypeCheckPass.cpp
@@ -178,7 +178,7 @@ void TypeCheckPass::visitAssignmentStatement(
     return;
   }
 
-  if (!idTy->second.type->fits(*exprTy.type)) {
+  if (!exprTy.isError && !idTy->second.type->fits(*exprTy.type)) {
     std::stringstream ss;
     ss << "Type mismatch in assignment. Expected '";
     ss << idTy->second.type->toString();
@@ -278,6 +278,9 @@ InferredType TypeCheckPass::visitBinaryExpression(
 InferredType TypeCheckPass::visitUnaryExpression(
     const std::shared_ptr<UnaryExpression> unaryExpression) {
   auto type = visit(unaryExpression->operand);
+  if (type.isError) {
+    return type;
+  }
 
   switch (unaryExpression->op) {
   case UnaryExpression::BitwiseNot:
@@ -291,7 +294,7 @@ InferredType TypeCheckPass::visitUnaryExpression(
     }
     break;
   case UnaryExpression::Negate:
-    if (!type.isError && type.type->isUint()) {
+    if (type.type->isUint()) {
       // the negative of an unsigned number is a signed one
       return InferredType{std::dynamic_pointer_cast<ResolvedType>(
           DesignatedType<uint64_t>::getIntTy(type.type->getDesignator()))};
-- 
2.43.0


From 0b5b5ea4a9946c67dfcd58f90e6a98931b1d98cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:47 +0000
Subject: [PATCH 108/163] fix: reject gates that are defined in terms of
 themselves

---
 include/mqt-core/qasm3/Importer.hpp | 3 +++
 src/qasm3/Importer.cpp              | 7 +++++++
 2 files changed, 10 insertions(+)

diff --git a/include/mqt-core/qasm3/Importer.hpp b/include/mqt-core/qasm3/Importer.hpp
index 2d4b69d..66566e4 100644
--- a/include/mqt-core/qasm3/Importer.hpp
+++ b/include/mqt-core/qasm3/Importer.hpp
@@ -89,6 +89,9 @@ private:
   NestedEnvironment<std::shared_ptr<DeclarationStatement>> declarations;
   qc::QuantumComputation* qc{};
 
+  // the gates that are currently being expanded
+  std::vector<const Gate*> activeGates;
+
   std::map<std::string, std::shared_ptr<Gate>> gates;
 
   bool openQASM2CompatMode{false};
diff --git a/src/qasm3/Importer.cpp b/src/qasm3/Importer.cpp
index 63ece8e..de596a5 100644
--- a/src/qasm3/Importer.cpp
+++ b/src/qasm3/Importer.cpp
@@ -799,6 +799,12 @@ std::unique_ptr<qc::Operation> Importer::applyQuantumOperation(
     return op;
   }
   if (auto* compoundGate = dynamic_cast<CompoundGate*>(gate.get())) {
+    // a gate that is defined in terms of itself cannot be expanded
+    if (std::find(activeGates.begin(), activeGates.end(), compoundGate) !=
+        activeGates.end()) {
+      throw CompilerError("Gate is defined recursively.", debugInfo);
+    }
+    activeGates.emplace_back(compoundGate);
     constEvalPass.pushEnv();
 
     for (size_t i = 0; i < compoundGate->parameterNames.size(); ++i) {
@@ -870,6 +876,7 @@ std::unique_ptr<qc::Operation> Importer::applyQuantumOperation(
     }
 
     constEvalPass.popEnv();
+    activeGates.pop_back();
 
     if (op->getOps().size() == 1) {
       return std::move(op->getOps()[0]);
-- 
2.43.0


From 186259cbdbec0cb9414543a4688841c3247a4a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:47 +0000
Subject: [PATCH 109/163] fix: reject gates on empty registers

---
 src/qasm3/Importer.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/qasm3/Importer.cpp b/src/qasm3/Importer.cpp
index de596a5..1e4c3cd 100644
--- a/src/qasm3/Importer.cpp
+++ b/src/qasm3/Importer.cpp
@@ -659,6 +659,10 @@ std::unique_ptr<qc::Operation> Importer::evaluateGateCall(
   for (const auto& target : targets) {
     qc::Targets t{};
     translateGateOperand(target, t, qregs, gateCallStatement->debugInfo);
+    if (t.empty()) {
+      throw CompilerError("Gates cannot be applied to empty registers.",
+                          gateCallStatement->debugInfo);
+    }
 
     targetBits.emplace_back(t[0]);
 
@@ -682,6 +686,10 @@ std::unique_ptr<qc::Operation> Importer::evaluateGateCall(
   for (const auto& [control, type] : controls) {
     qc::Targets c{};
     translateGateOperand(control, c, qregs, gateCallStatement->debugInfo);
+    if (c.empty()) {
+      throw CompilerError("Gates cannot be applied to empty registers.",
+                          gateCallStatement->debugInfo);
+    }
 
     controlBits.emplace_back(c[0], type ? qc::Control::Type::Pos
                                         : qc::Control::Type::Neg);
-- 
2.43.0


From 7f0a21037a6aba84efb7c03cc11acc3ff4e638eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:47 +0000
Subject: [PATCH 110/163] fix: skip any number of comments without recursion

---
 include/mqt-core/qasm3/Scanner.hpp |  2 ++
 src/qasm3/Scanner.cpp              | 41 ++++++++++++++++--------------
 2 files changed, 24 insertions(+), 19 deletions(-)

diff --git a/include/mqt-core/qasm3/Scanner.hpp b/include/mqt-core/qasm3/Scanner.hpp
index e4c864e..0912ef8 100644
--- a/include/mqt-core/qasm3/Scanner.hpp
+++ b/include/mqt-core/qasm3/Scanner.hpp
@@ -45,6 +45,8 @@ class Scanner {
 
   std::optional<Token> consumeWhitespaceAndComments();
 
+  void consumeBlockComment();
+
   static bool isValidDigit(uint8_t base, char c);
 
   std::string consumeNumberLiteral(uint8_t base);
diff --git a/src/qasm3/Scanner.cpp b/src/qasm3/Scanner.cpp
index 595680e..3565acc 100644
--- a/src/qasm3/Scanner.cpp
+++ b/src/qasm3/Scanner.cpp
@@ -69,10 +69,16 @@ char Scanner::peek() const {
 }
 
 std::optional<Token> Scanner::consumeWhitespaceAndComments() {
-  while (isSpace(ch)) {
-    nextCh();
-  }
-  if (ch == '/' && peek() == '/') {
+  while (isSpace(ch) || (ch == '/' && (peek() == '/' || peek() == '*'))) {
+    if (isSpace(ch)) {
+      nextCh();
+      continue;
+    }
+    if (peek() == '*') {
+      consumeBlockComment();
+      continue;
+    }
+
     Token t(line, col);
     // consume until newline
     std::stringstream content;
@@ -90,7 +96,7 @@ std::optional<Token> Scanner::consumeWhitespaceAndComments() {
     } else if (isPermutationComment(str, 'o')) {
       t.kind = Token::Kind::OutputPermutation;
     } else {
-      return consumeWhitespaceAndComments();
+      continue;
     }
 
     t.str = content.str();
@@ -98,22 +104,19 @@ std::optional<Token> Scanner::consumeWhitespaceAndComments() {
     t.endLine = line;
     return t;
   }
-  if (ch == '/' && peek() == '*') {
-    // consume /*
-    nextCh();
-    nextCh();
-    while (ch != 0 && (ch != '*' || peek() != '/')) {
-      nextCh();
-    }
-    // consume */
-    expect('*');
-    expect('/');
+  return {};
+}
 
-    // tail calls should be optimized away
-    return consumeWhitespaceAndComments();
+void Scanner::consumeBlockComment() {
+  // consume /*
+  nextCh();
+  nextCh();
+  while (ch != 0 && (ch != '*' || peek() != '/')) {
+    nextCh();
   }
-
-  return {};
+  // consume */
+  expect('*');
+  expect('/');
 }
 
 Token Scanner::consumeName() {
-- 
2.43.0


From 033443adfcbfd7cd4542addb8df83105b39f8dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:54 +0000
Subject: [PATCH 111/163] fix: allow consecutive includes in OpenQASM programs

---
 src/qasm3/Parser.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/qasm3/Parser.cpp b/src/qasm3/Parser.cpp
index 60a09ee..b0b3f33 100644
--- a/src/qasm3/Parser.cpp
+++ b/src/qasm3/Parser.cpp
@@ -144,13 +144,19 @@ std::vector<std::shared_ptr<Statement>> Parser::parseProgram() {
       }
     }
 
+    if (current().kind == Token::Kind::Include) {
+      // the included file may be empty, or the last thing in this file
+      parseInclude();
+      continue;
+    }
+
     statements.push_back(parseStatement());
   }
   return statements;
 }
 
 std::shared_ptr<Statement> Parser::parseStatement() {
-  if (current().kind == Token::Kind::Include) {
+  while (current().kind == Token::Kind::Include) {
     // We parse include and then continue in parseStatement, as the include
     // statement just adds a new file to the scanner.
     parseInclude();
-- 
2.43.0


From 76d235d22cd132b1f6ef6d09c81d00232ff4a680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:54 +0000
Subject: [PATCH 112/163] fix: stop reading OpenQASM files that include
 themselves

---
 include/mqt-core/qasm3/Parser.hpp | 4 ++++
 src/qasm3/Parser.cpp              | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/mqt-core/qasm3/Parser.hpp b/include/mqt-core/qasm3/Parser.hpp
index e434b52..37d4028 100644
--- a/include/mqt-core/qasm3/Parser.hpp
+++ b/include/mqt-core/qasm3/Parser.hpp
@@ -21,6 +21,7 @@
 #include "Token.hpp"
 #include "Types_fwd.hpp"
 
+#include <cstddef>
 #include <istream>
 #include <memory>
 #include <optional>
@@ -161,6 +162,9 @@ public:
 
   static qc::Permutation parsePermutation(std::string s);
 
+  static constexpr std::size_t MAX_INCLUDES = 1024;
+  std::size_t includes = 0;
+
   void scan();
 
   std::shared_ptr<DebugInfo> makeDebugInfo(Token const& begin,
diff --git a/src/qasm3/Parser.cpp b/src/qasm3/Parser.cpp
index b0b3f33..bd388dd 100644
--- a/src/qasm3/Parser.cpp
+++ b/src/qasm3/Parser.cpp
@@ -259,6 +259,10 @@ std::shared_ptr<QuantumStatement> Parser::parseQuantumStatement() {
 
 void Parser::parseInclude() {
   auto const tBegin = expect(Token::Kind::Include);
+  // files that include each other would be read forever
+  if (++includes > MAX_INCLUDES) {
+    error(tBegin, "Too many includes.");
+  }
   auto filename = expect(Token::Kind::StringLiteral).str;
   auto const tEnd = expect(Token::Kind::Semicolon);
 
-- 
2.43.0


From ec0ffce7aa35812d48634edda3144f4e40ab4f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:54 +0000
Subject: [PATCH 113/163] fix: reject OpenQASM programs that are nested too
 deeply

---
 include/mqt-core/qasm3/Parser.hpp | 22 ++++++++++++++++++++++
 src/qasm3/Parser.cpp              | 30 +++++++++++++++++++++++++++++-
 2 files changed, 51 insertions(+), 1 deletion(-)

diff --git a/include/mqt-core/qasm3/Parser.hpp b/include/mqt-core/qasm3/Parser.hpp
index 37d4028..4471a07 100644
--- a/include/mqt-core/qasm3/Parser.hpp
+++ b/include/mqt-core/qasm3/Parser.hpp
@@ -165,6 +165,28 @@ public:
   static constexpr std::size_t MAX_INCLUDES = 1024;
   std::size_t includes = 0;
 
+  // limits that keep the recursion over a program within the stack
+  static constexpr std::size_t MAX_NESTING = 256;
+  static constexpr std::size_t MAX_OPERATORS = 2000;
+  std::size_t nesting = 0;
+  std::size_t expressionNesting = 0;
+  std::size_t operators = 0;
+
+  class Nested {
+    std::size_t& level;
+
+  public:
+    explicit Nested(std::size_t& l) : level(l) { ++level; }
+    Nested(const Nested&) = delete;
+    Nested& operator=(const Nested&) = delete;
+    Nested(Nested&&) = delete;
+    Nested& operator=(Nested&&) = delete;
+    ~Nested() { --level; }
+  };
+
+  void checkNesting();
+  void countOperator();
+
   void scan();
 
   std::shared_ptr<DebugInfo> makeDebugInfo(Token const& begin,
diff --git a/src/qasm3/Parser.cpp b/src/qasm3/Parser.cpp
index bd388dd..23205cb 100644
--- a/src/qasm3/Parser.cpp
+++ b/src/qasm3/Parser.cpp
@@ -155,7 +155,21 @@ std::vector<std::shared_ptr<Statement>> Parser::parseProgram() {
   return statements;
 }
 
+void Parser::checkNesting() {
+  if (nesting > MAX_NESTING) {
+    error(current(), "Program is nested too deeply.");
+  }
+}
+
+void Parser::countOperator() {
+  if (++operators > MAX_OPERATORS) {
+    error(current(), "Expression has too many operators.");
+  }
+}
+
 std::shared_ptr<Statement> Parser::parseStatement() {
+  const Nested statement(nesting);
+  checkNesting();
   while (current().kind == Token::Kind::Include) {
     // We parse include and then continue in parseStatement, as the include
     // statement just adds a new file to the scanner.
@@ -665,6 +679,7 @@ std::shared_ptr<MeasureExpression> Parser::parseMeasureExpression() {
 std::shared_ptr<Expression> Parser::exponentiation() {
   switch (current().kind) {
   case Token::Kind::Minus: {
+    countOperator();
     scan();
     const auto x = exponentiation();
     return std::make_shared<UnaryExpression>(
@@ -742,6 +757,7 @@ std::shared_ptr<Expression> Parser::exponentiation() {
 std::shared_ptr<Expression> Parser::power() {
   auto x = exponentiation();
   while (current().kind == Token::Kind::Caret) {
+    countOperator();
     scan();
     const auto y = exponentiation();
     x = std::make_shared<BinaryExpression>(BinaryExpression::Op::Power, x, y);
@@ -782,6 +798,7 @@ std::shared_ptr<Expression> Parser::factor() {
     }
     return power();
   }
+  countOperator();
   scan();
   return std::make_shared<UnaryExpression>(op, factor());
 }
@@ -793,6 +810,7 @@ std::shared_ptr<Expression> Parser::term() {
     auto const op = current().kind == Token::Kind::Asterisk
                         ? BinaryExpression::Op::Multiply
                         : BinaryExpression::Op::Divide;
+    countOperator();
     scan();
     const auto y = factor();
     x = std::make_shared<BinaryExpression>(op, x, y);
@@ -807,6 +825,7 @@ std::shared_ptr<Expression> Parser::sum() {
     auto const op = current().kind == Token::Kind::Plus
                         ? BinaryExpression::Op::Add
                         : BinaryExpression::Op::Subtract;
+    countOperator();
     if (isNegativeLiteral()) {
       // a minus sign right in front of a number is part of its token
       dropSignOfLiteral();
@@ -850,6 +869,7 @@ std::shared_ptr<Expression> Parser::comparison() {
     default:
       error(current(), "Expected comparison operator");
     }
+    countOperator();
     scan();
     const auto y = sum();
     x = std::make_shared<BinaryExpression>(op, x, y);
@@ -857,7 +877,15 @@ std::shared_ptr<Expression> Parser::comparison() {
   return x;
 }
 
-std::shared_ptr<Expression> Parser::parseExpression() { return comparison(); }
+std::shared_ptr<Expression> Parser::parseExpression() {
+  const Nested expression(nesting);
+  checkNesting();
+  if (expressionNesting == 0) {
+    operators = 0;
+  }
+  const Nested subexpression(expressionNesting);
+  return comparison();
+}
 
 std::shared_ptr<IdentifierList> Parser::parseIdentifierList() {
   std::vector<std::shared_ptr<IdentifierExpression>> identifierList{};
-- 
2.43.0


From e7de24ffa8023ca928dbea154c1cea60a0fbe260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:54 +0000
Subject: [PATCH 114/163] fix: reject gate definitions that are nested too
 deeply

---
 include/mqt-core/qasm3/Importer.hpp | 1 +
 src/qasm3/Importer.cpp              | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/include/mqt-core/qasm3/Importer.hpp b/include/mqt-core/qasm3/Importer.hpp
index 66566e4..ce85bd8 100644
--- a/include/mqt-core/qasm3/Importer.hpp
+++ b/include/mqt-core/qasm3/Importer.hpp
@@ -91,6 +91,7 @@ private:
 
   // the gates that are currently being expanded
   std::vector<const Gate*> activeGates;
+  static constexpr size_t MAX_GATE_NESTING = 256;
 
   std::map<std::string, std::shared_ptr<Gate>> gates;
 
diff --git a/src/qasm3/Importer.cpp b/src/qasm3/Importer.cpp
index 1e4c3cd..8d00aa3 100644
--- a/src/qasm3/Importer.cpp
+++ b/src/qasm3/Importer.cpp
@@ -812,6 +812,9 @@ std::unique_ptr<qc::Operation> Importer::applyQuantumOperation(
         activeGates.end()) {
       throw CompilerError("Gate is defined recursively.", debugInfo);
     }
+    if (activeGates.size() >= MAX_GATE_NESTING) {
+      throw CompilerError("Gate definitions are nested too deeply.", debugInfo);
+    }
     activeGates.emplace_back(compoundGate);
     constEvalPass.pushEnv();
 
-- 
2.43.0


From 2502acaf332d12d7d92c5f54e190af3316ecb782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:09 +0000
Subject: [PATCH 115/163] fix: avoid signed overflows in OpenQASM constants

---
 src/qasm3/Parser.cpp               |  2 +-
 src/qasm3/Scanner.cpp              | 10 ++++++----
 src/qasm3/passes/ConstEvalPass.cpp | 16 ++++++++++------
 3 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/qasm3/Parser.cpp b/src/qasm3/Parser.cpp
index 23205cb..6e9d090 100644
--- a/src/qasm3/Parser.cpp
+++ b/src/qasm3/Parser.cpp
@@ -774,7 +774,7 @@ bool Parser::isNegativeLiteral() const {
 
 void Parser::dropSignOfLiteral() {
   auto& token = scanner.top().t;
-  token.val = -token.val;
+  token.val = static_cast<int64_t>(-static_cast<uint64_t>(token.val));
   token.valReal = -token.valReal;
   token.isSigned = false;
 }
diff --git a/src/qasm3/Scanner.cpp b/src/qasm3/Scanner.cpp
index 3565acc..644121c 100644
--- a/src/qasm3/Scanner.cpp
+++ b/src/qasm3/Scanner.cpp
@@ -274,7 +274,8 @@ Token Scanner::consumeNumberLiteral() {
         parseIntegerLiteral(valBeforeDecimalSeparator, base));
     t.kind = Token::Kind::IntegerLiteral;
     if (negative) {
-      t.val *= -1;
+      // the smallest integer has no positive counterpart
+      t.val = static_cast<int64_t>(-static_cast<uint64_t>(t.val));
       t.isSigned = true;
     }
   }
@@ -317,12 +318,13 @@ Token Scanner::consumeHardwareQubit() {
   expect('$');
 
   t.kind = Token::Kind::HardwareQubit;
-  t.val = 0;
+  uint64_t val = 0;
   while (isNum(ch)) {
-    t.val *= 10;
-    t.val += static_cast<int64_t>(ch - '0');
+    val *= 10;
+    val += static_cast<uint64_t>(ch) - '0';
     nextCh();
   }
+  t.val = static_cast<int64_t>(val);
 
   t.endCol = col;
   t.endLine = line;
diff --git a/src/qasm3/passes/ConstEvalPass.cpp b/src/qasm3/passes/ConstEvalPass.cpp
index c6805b7..1eb5b7f 100644
--- a/src/qasm3/passes/ConstEvalPass.cpp
+++ b/src/qasm3/passes/ConstEvalPass.cpp
@@ -41,6 +41,12 @@ int64_t power(const int64_t base, const uint64_t exponent) {
   }
 
   constexpr auto max = std::numeric_limits<int64_t>::max();
+  if (base == std::numeric_limits<int64_t>::min()) {
+    if (exponent == 1) {
+      return base;
+    }
+    throw ConstEvalError("Integer overflow in constant evaluation.");
+  }
   int64_t result = 1;
   for (uint64_t i = 0; i < exponent; ++i) {
     if (std::abs(result) > max / std::abs(base)) {
@@ -291,11 +297,8 @@ ConstEvalValue evalIntExpression(BinaryExpression::Op op, int64_t lhs,
     }
     break;
   case BinaryExpression::Multiply:
-    if (isSigned) {
-      result.value = lhs * rhs;
-    } else {
-      result.value = static_cast<int64_t>(lhsU * rhsU);
-    }
+    // the lower bits of the product do not depend on the signs
+    result.value = static_cast<int64_t>(lhsU * rhsU);
     break;
   case BinaryExpression::Divide:
     if (isSigned) {
@@ -627,7 +630,8 @@ std::optional<ConstEvalValue> ConstEvalPass::visitUnaryExpression(
         val->type == ConstEvalValue::Type::ConstUint) {
       // the negative of an unsigned number is a signed one
       val->type = ConstEvalValue::Type::ConstInt;
-      val->value = -std::get<0>(val->value);
+      val->value =
+          static_cast<int64_t>(-static_cast<uint64_t>(std::get<0>(val->value)));
     } else if (val->type == ConstEvalValue::Type::ConstFloat) {
       val->value = -std::get<1>(val->value);
     } else {
-- 
2.43.0


From e697c1564dbbd484b7808545ef826d2e534d165b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:30 +0000
Subject: [PATCH 116/163] fix: reject OpenQASM registers that are too large

---
 src/qasm3/Importer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/qasm3/Importer.cpp b/src/qasm3/Importer.cpp
index 8d00aa3..ffc9ab3 100644
--- a/src/qasm3/Importer.cpp
+++ b/src/qasm3/Importer.cpp
@@ -34,6 +34,7 @@
 #include <cstdint>
 #include <fstream>
 #include <istream>
+#include <limits>
 #include <map>
 #include <memory>
 #include <sstream>
@@ -372,6 +373,10 @@ void Importer::visitDeclarationStatement(
   if (const auto sizedTy =
           std::dynamic_pointer_cast<DesignatedType<uint64_t>>(ty)) {
     const auto designator = sizedTy->getDesignator();
+    if (designator > std::numeric_limits<qc::Qubit>::max()) {
+      throw CompilerError("Declared type is too large.",
+                          declarationStatement->debugInfo);
+    }
     switch (sizedTy->type) {
     case Qubit:
       qc->addQubitRegister(designator, identifier);
-- 
2.43.0


From ea1dcd98d77c1a377346c8b65fab954fd6c3cae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:39 +0000
Subject: [PATCH 117/163] fix: reject layouts that do not fit the circuit

---
 include/mqt-core/qasm3/Importer.hpp |  3 +++
 src/qasm3/Importer.cpp              | 12 ++++++++++++
 src/qasm3/Parser.cpp                | 12 ++++++++++--
 3 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/include/mqt-core/qasm3/Importer.hpp b/include/mqt-core/qasm3/Importer.hpp
index ce85bd8..2718714 100644
--- a/include/mqt-core/qasm3/Importer.hpp
+++ b/include/mqt-core/qasm3/Importer.hpp
@@ -100,6 +100,9 @@ private:
   qc::Permutation initialLayout;
   qc::Permutation outputPermutation;
 
+  /// Checks that a layout only refers to qubits of the circuit
+  void checkPermutation(const qc::Permutation& permutation) const;
+
   static std::map<std::string, std::pair<const_eval::ConstEvalValue,
                                          type_checking::InferredType>>
   initializeBuiltins();
diff --git a/src/qasm3/Importer.cpp b/src/qasm3/Importer.cpp
index ffc9ab3..2f15018 100644
--- a/src/qasm3/Importer.cpp
+++ b/src/qasm3/Importer.cpp
@@ -327,6 +327,16 @@ Importer::Importer(qc::QuantumComputation& quantumComputation)
   }
 }
 
+void Importer::checkPermutation(const qc::Permutation& permutation) const {
+  const auto n = qc->getNqubits();
+  for (const auto& [physical, logical] : permutation) {
+    if (physical >= n || logical >= n) {
+      throw std::runtime_error("Layout refers to a qubit that is not part of "
+                               "the circuit.");
+    }
+  }
+}
+
 void Importer::visitProgram(
     const std::vector<std::shared_ptr<Statement>>& program) {
   // TODO: in the future, don't exit early, but collect all errors
@@ -343,9 +353,11 @@ void Importer::visitProgram(
   // Finally, if we have a initial layout and output permutation specified,
   // apply them.
   if (!initialLayout.empty()) {
+    checkPermutation(initialLayout);
     qc->initialLayout = initialLayout;
   }
   if (!outputPermutation.empty()) {
+    checkPermutation(outputPermutation);
     qc->outputPermutation = outputPermutation;
   }
 }
diff --git a/src/qasm3/Parser.cpp b/src/qasm3/Parser.cpp
index 6e9d090..f1c7a30 100644
--- a/src/qasm3/Parser.cpp
+++ b/src/qasm3/Parser.cpp
@@ -22,6 +22,7 @@
 #include <cstdint>
 #include <fstream>
 #include <istream>
+#include <limits>
 #include <memory>
 #include <optional>
 #include <regex>
@@ -969,8 +970,15 @@ qc::Permutation Parser::parsePermutation(std::string s) {
   static const auto QUBIT_REGEX = std::regex("\\d+");
   qc::Qubit logicalQubit = 0;
   for (std::smatch m; std::regex_search(s, m, QUBIT_REGEX); s = m.suffix()) {
-    auto physicalQubit = static_cast<qc::Qubit>(std::stoul(m.str()));
-    permutation.emplace(physicalQubit, logicalQubit);
+    const auto physicalQubit = std::stoul(m.str());
+    if (physicalQubit > std::numeric_limits<qc::Qubit>::max()) {
+      throw std::out_of_range("Qubit index in layout is too large.");
+    }
+    if (!permutation
+             .emplace(static_cast<qc::Qubit>(physicalQubit), logicalQubit)
+             .second) {
+      throw std::invalid_argument("Layout contains a qubit more than once.");
+    }
     ++logicalQubit;
   }
   return permutation;
-- 
2.43.0


From f92a60d20cd9944221ffe7e47a7f1d7ac99dfe0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:42 +0000
Subject: [PATCH 118/163] fix: convert global phases to ZX without accessing a
 target

---
 src/zx/FunctionalityConstruction.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/zx/FunctionalityConstruction.cpp b/src/zx/FunctionalityConstruction.cpp
index 7fa390a..8a7ff22 100644
--- a/src/zx/FunctionalityConstruction.cpp
+++ b/src/zx/FunctionalityConstruction.cpp
@@ -316,15 +316,16 @@ FunctionalityConstruction::parseOp(ZXDiagram& diag, op_it it, op_it end,
     return it + 1;
   }
 
+  // global phases do not act on any particular qubit
+  if (op->getType() == qc::OpType::GPhase && !op->isControlled()) {
+    diag.addGlobalPhase(parseParam(op.get(), 0));
+    return it + 1;
+  }
+
   if (!op->isControlled()) {
     // single qubit gates
     const auto target = static_cast<Qubit>(p.at(op->getTargets().front()));
     switch (op->getType()) {
-    case qc::OpType::GPhase: {
-      const auto& param = parseParam(op.get(), 0);
-      diag.addGlobalPhase(param);
-      break;
-    }
     case qc::OpType::Z:
       addZSpider(diag, target, qubits, PiExpression(PiRational(1, 1)));
       break;
-- 
2.43.0


From 5aaba6e0bf38b3a477197e3559984794e6a4ce40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:42 +0000
Subject: [PATCH 119/163] fix: convert ECR gates to ZX with their X gate

---
 src/zx/FunctionalityConstruction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zx/FunctionalityConstruction.cpp b/src/zx/FunctionalityConstruction.cpp
index 8a7ff22..04cae3f 100644
--- a/src/zx/FunctionalityConstruction.cpp
+++ b/src/zx/FunctionalityConstruction.cpp
@@ -460,7 +460,7 @@ FunctionalityConstruction::parseOp(ZXDiagram& diag, op_it it, op_it end,
     case qc::OpType::ECR: {
       const auto target2 = static_cast<Qubit>(p.at(op->getTargets()[1]));
       addRzx(diag, PiExpression(PiRational(1, 4)), target, target2, qubits);
-      addXSpider(diag, target, qubits);
+      addXSpider(diag, target, qubits, PiExpression(PiRational(1, 1)));
       addRzx(diag, PiExpression(-PiRational(1, 4)), target, target2, qubits);
       break;
     }
-- 
2.43.0


From f0e022d6a4b9c1391d6d054c4f0b8045741f5ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:42 +0000
Subject: [PATCH 120/163] fix: respect negative controls when converting to ZX

---
 src/zx/FunctionalityConstruction.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/zx/FunctionalityConstruction.cpp b/src/zx/FunctionalityConstruction.cpp
index 04cae3f..4f08eec 100644
--- a/src/zx/FunctionalityConstruction.cpp
+++ b/src/zx/FunctionalityConstruction.cpp
@@ -13,6 +13,7 @@
 #include "ir/Permutation.hpp"
 #include "ir/QuantumComputation.hpp"
 #include "ir/operations/CompoundOperation.hpp"
+#include "ir/operations/Control.hpp"
 #include "ir/operations/Expression.hpp"
 #include "ir/operations/OpType.hpp"
 #include "ir/operations/SymbolicOperation.hpp"
@@ -33,10 +34,17 @@ bool FunctionalityConstruction::checkSwap(const op_it& it, const op_it& end,
                                           const Qubit ctrl, const Qubit target,
                                           const qc::Permutation& p) {
   if (it + 1 != end && it + 2 != end) {
+    const auto& op0 = *it;
     const auto& op1 = *(it + 1);
     const auto& op2 = *(it + 2);
     if (op1->getType() == qc::OpType::X && op2->getType() == qc::OpType::X &&
         op1->getNcontrols() == 1 && op2->getNcontrols() == 1) {
+      const auto isPositive = [](const auto& op) {
+        return op->getControls().begin()->type == qc::Control::Type::Pos;
+      };
+      if (!isPositive(op0) || !isPositive(op1) || !isPositive(op2)) {
+        return false;
+      }
       const auto tar1 = p.at(op1->getTargets().front());
       const auto tar2 = p.at(op2->getTargets().front());
       const auto ctrl1 = p.at((*op1->getControls().begin()).qubit);
@@ -322,6 +330,17 @@ FunctionalityConstruction::parseOp(ZXDiagram& diag, op_it it, op_it end,
     return it + 1;
   }
 
+  // negative controls are turned into positive ones by X gates around them
+  const auto flipNegativeControls = [&] {
+    for (const auto& control : op->getControls()) {
+      if (control.type == qc::Control::Type::Neg) {
+        addXSpider(diag, static_cast<Qubit>(p.at(control.qubit)), qubits,
+                   PiExpression(PiRational(1, 1)));
+      }
+    }
+  };
+  flipNegativeControls();
+
   if (!op->isControlled()) {
     // single qubit gates
     const auto target = static_cast<Qubit>(p.at(op->getTargets().front()));
@@ -586,6 +605,7 @@ FunctionalityConstruction::parseOp(ZXDiagram& diag, op_it it, op_it end,
                       std::to_string(op->getNcontrols()) + " ctrls)" +
                       qc::toString(op->getType()));
   }
+  flipNegativeControls();
   return it + 1;
 }
 
-- 
2.43.0


From ab0b6428c3a6e0b8c3858c66b6b4e0ec06e9e5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:16 +0000
Subject: [PATCH 121/163] fix: convert XXplusYY gates to ZX with the right sign

---
 src/zx/FunctionalityConstruction.cpp | 37 ++++++++++++++--------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/src/zx/FunctionalityConstruction.cpp b/src/zx/FunctionalityConstruction.cpp
index 4f08eec..092e487 100644
--- a/src/zx/FunctionalityConstruction.cpp
+++ b/src/zx/FunctionalityConstruction.cpp
@@ -225,24 +225,23 @@ void FunctionalityConstruction::addXXplusYY(
     ZXDiagram& diag, const PiExpression& theta, const PiExpression& beta,
     const Qubit qubit0, const Qubit qubit1, std::vector<Vertex>& qubits,
     const std::optional<double>& unconvertedBeta) {
-  addRz(diag, beta, qubit1, qubits, unconvertedBeta);
+  if (unconvertedBeta.has_value()) {
+    addRz(diag, -beta, qubit1, qubits, -unconvertedBeta.value());
+  } else {
+    addRz(diag, -beta, qubit1, qubits);
+  }
   addRz(diag, PiExpression(PiRational(1, 2)), qubit1, qubits);
   addRz(diag, PiExpression(PiRational(-1, 2)), qubit0, qubits);
   addRx(diag, PiExpression(PiRational(1, 2)), qubit0, qubits);
   addRz(diag, PiExpression(PiRational(1, 2)), qubit0, qubits);
   addCnot(diag, qubit0, qubit1, qubits);
-  addRy(diag, theta / 2, qubit0, qubits);
-  addRy(diag, theta / 2, qubit1, qubits);
+  addRy(diag, -theta / 2, qubit0, qubits);
+  addRy(diag, -theta / 2, qubit1, qubits);
   addCnot(diag, qubit0, qubit1, qubits);
   addRz(diag, PiExpression(PiRational(-1, 2)), qubit0, qubits);
   addRx(diag, PiExpression(PiRational(-1, 2)), qubit0, qubits);
   addRz(diag, PiExpression(PiRational(1, 2)), qubit0, qubits);
-  if (unconvertedBeta.has_value()) {
-    addRz(diag, -beta, qubit1, qubits, -unconvertedBeta.value());
-  } else {
-    addRz(diag, -beta, qubit1, qubits);
-  }
-
+  addRz(diag, beta, qubit1, qubits, unconvertedBeta);
   addRz(diag, PiExpression(-PiRational(1, 2)), qubit1, qubits);
 }
 
@@ -485,25 +484,25 @@ FunctionalityConstruction::parseOp(ZXDiagram& diag, op_it it, op_it end,
     }
     case qc::OpType::XXplusYY: {
       const auto target2 = static_cast<Qubit>(p.at(op->getTargets()[1]));
-      const auto& betaExpr = parseParam(op.get(), 0);
+      const auto& thetaExpr = parseParam(op.get(), 0);
+      const auto& betaExpr = parseParam(op.get(), 1);
       if (betaExpr.isConstant()) {
-        addXXplusYY(diag, betaExpr, parseParam(op.get(), 1), target, target2,
-                    qubits, op->getParameter().at(0));
+        addXXplusYY(diag, thetaExpr, betaExpr, target, target2, qubits,
+                    op->getParameter().at(1));
       } else {
-        addXXplusYY(diag, betaExpr, parseParam(op.get(), 1), target, target2,
-                    qubits);
+        addXXplusYY(diag, thetaExpr, betaExpr, target, target2, qubits);
       }
       break;
     }
     case qc::OpType::XXminusYY: {
       const auto target2 = static_cast<Qubit>(p.at(op->getTargets()[1]));
-      const auto& betaExpr = parseParam(op.get(), 0);
+      const auto& thetaExpr = parseParam(op.get(), 0);
+      const auto& betaExpr = parseParam(op.get(), 1);
       if (betaExpr.isConstant()) {
-        addXXminusYY(diag, betaExpr, parseParam(op.get(), 1), target, target2,
-                     qubits, op->getParameter().at(0));
+        addXXminusYY(diag, thetaExpr, betaExpr, target, target2, qubits,
+                     op->getParameter().at(1));
       } else {
-        addXXminusYY(diag, betaExpr, parseParam(op.get(), 1), target, target2,
-                     qubits);
+        addXXminusYY(diag, thetaExpr, betaExpr, target, target2, qubits);
       }
       break;
     }
-- 
2.43.0


From afd828cf19d810be5fd2f1216908c0db87b4a6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:16 +0000
Subject: [PATCH 122/163] fix: refuse doubly-controlled operations without
 exactly one target in ZX

---
 src/zx/FunctionalityConstruction.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zx/FunctionalityConstruction.cpp b/src/zx/FunctionalityConstruction.cpp
index 092e487..b85f448 100644
--- a/src/zx/FunctionalityConstruction.cpp
+++ b/src/zx/FunctionalityConstruction.cpp
@@ -572,7 +572,7 @@ FunctionalityConstruction::parseOp(ZXDiagram& diag, op_it it, op_it end,
       throw ZXException("Unsupported Controlled Operation: " +
                         qc::toString(op->getType()));
     }
-  } else if (op->getNcontrols() == 2) {
+  } else if (op->getNcontrols() == 2 && op->getNtargets() == 1) {
     // three-qubit controlled gates (ccx or ccz)
     Qubit ctrl0 = 0;
     Qubit ctrl1 = 0;
@@ -715,7 +715,7 @@ bool FunctionalityConstruction::transformableToZX(const qc::Operation* op) {
     default:
       return false;
     }
-  } else if (op->getNcontrols() == 2) {
+  } else if (op->getNcontrols() == 2 && op->getNtargets() == 1) {
     switch (op->getType()) {
     case qc::OpType::X:
     case qc::OpType::Z:
-- 
2.43.0


From dd654e44c76b8d25c4f7df8211483d8c44f7e3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:23 +0000
Subject: [PATCH 123/163] fix: halve the angle of XXplusYY and XXminusYY gates
 before reducing it

---
 .../mqt-core/zx/FunctionalityConstruction.hpp |  5 ++-
 src/zx/FunctionalityConstruction.cpp          | 41 +++++++++++++------
 2 files changed, 32 insertions(+), 14 deletions(-)

diff --git a/include/mqt-core/zx/FunctionalityConstruction.hpp b/include/mqt-core/zx/FunctionalityConstruction.hpp
index ac7817f..fbf384f 100644
--- a/include/mqt-core/zx/FunctionalityConstruction.hpp
+++ b/include/mqt-core/zx/FunctionalityConstruction.hpp
@@ -102,12 +102,12 @@ protected:
   static void addDcx(ZXDiagram& diag, Qubit qubit1, Qubit qubit2,
                      std::vector<Vertex>& qubits);
   static void
-  addXXplusYY(ZXDiagram& diag, const PiExpression& theta,
+  addXXplusYY(ZXDiagram& diag, const PiExpression& halfTheta,
               const PiExpression& beta, Qubit qubit0, Qubit qubit1,
               std::vector<Vertex>& qubits,
               const std::optional<double>& unconvertedBeta = std::nullopt);
   static void
-  addXXminusYY(ZXDiagram& diag, const PiExpression& theta,
+  addXXminusYY(ZXDiagram& diag, const PiExpression& halfTheta,
                const PiExpression& beta, Qubit qubit0, Qubit qubit1,
                std::vector<Vertex>& qubits,
                const std::optional<double>& unconvertedBeta = std::nullopt);
@@ -121,5 +121,6 @@ protected:
 
   static PiExpression toPiExpr(const qc::SymbolOrNumber& param);
   static PiExpression parseParam(const qc::Operation* op, std::size_t i);
+  static PiExpression parseHalfParam(const qc::Operation* op, std::size_t i);
 };
 } // namespace zx
diff --git a/src/zx/FunctionalityConstruction.cpp b/src/zx/FunctionalityConstruction.cpp
index b85f448..e8c44ec 100644
--- a/src/zx/FunctionalityConstruction.cpp
+++ b/src/zx/FunctionalityConstruction.cpp
@@ -222,7 +222,7 @@ void FunctionalityConstruction::addDcx(ZXDiagram& diag, const Qubit qubit1,
 }
 
 void FunctionalityConstruction::addXXplusYY(
-    ZXDiagram& diag, const PiExpression& theta, const PiExpression& beta,
+    ZXDiagram& diag, const PiExpression& halfTheta, const PiExpression& beta,
     const Qubit qubit0, const Qubit qubit1, std::vector<Vertex>& qubits,
     const std::optional<double>& unconvertedBeta) {
   if (unconvertedBeta.has_value()) {
@@ -235,8 +235,8 @@ void FunctionalityConstruction::addXXplusYY(
   addRx(diag, PiExpression(PiRational(1, 2)), qubit0, qubits);
   addRz(diag, PiExpression(PiRational(1, 2)), qubit0, qubits);
   addCnot(diag, qubit0, qubit1, qubits);
-  addRy(diag, -theta / 2, qubit0, qubits);
-  addRy(diag, -theta / 2, qubit1, qubits);
+  addRy(diag, -halfTheta, qubit0, qubits);
+  addRy(diag, -halfTheta, qubit1, qubits);
   addCnot(diag, qubit0, qubit1, qubits);
   addRz(diag, PiExpression(PiRational(-1, 2)), qubit0, qubits);
   addRx(diag, PiExpression(PiRational(-1, 2)), qubit0, qubits);
@@ -246,7 +246,7 @@ void FunctionalityConstruction::addXXplusYY(
 }
 
 void FunctionalityConstruction::addXXminusYY(
-    ZXDiagram& diag, const PiExpression& theta, const PiExpression& beta,
+    ZXDiagram& diag, const PiExpression& halfTheta, const PiExpression& beta,
     const Qubit qubit0, const Qubit qubit1, std::vector<Vertex>& qubits,
     const std::optional<double>& unconvertedBeta) {
   if (unconvertedBeta.has_value()) {
@@ -259,8 +259,8 @@ void FunctionalityConstruction::addXXminusYY(
   addRx(diag, PiExpression(PiRational(1, 2)), qubit0, qubits);
   addRz(diag, PiExpression(PiRational(1, 2)), qubit0, qubits);
   addCnot(diag, qubit0, qubit1, qubits);
-  addRy(diag, -theta / 2, qubit0, qubits);
-  addRy(diag, theta / 2, qubit1, qubits);
+  addRy(diag, -halfTheta, qubit0, qubits);
+  addRy(diag, halfTheta, qubit1, qubits);
   addCnot(diag, qubit0, qubit1, qubits);
   addRz(diag, PiExpression(PiRational(-1, 2)), qubit0, qubits);
   addRx(diag, PiExpression(PiRational(-1, 2)), qubit0, qubits);
@@ -484,25 +484,25 @@ FunctionalityConstruction::parseOp(ZXDiagram& diag, op_it it, op_it end,
     }
     case qc::OpType::XXplusYY: {
       const auto target2 = static_cast<Qubit>(p.at(op->getTargets()[1]));
-      const auto& thetaExpr = parseParam(op.get(), 0);
+      const auto& halfTheta = parseHalfParam(op.get(), 0);
       const auto& betaExpr = parseParam(op.get(), 1);
       if (betaExpr.isConstant()) {
-        addXXplusYY(diag, thetaExpr, betaExpr, target, target2, qubits,
+        addXXplusYY(diag, halfTheta, betaExpr, target, target2, qubits,
                     op->getParameter().at(1));
       } else {
-        addXXplusYY(diag, thetaExpr, betaExpr, target, target2, qubits);
+        addXXplusYY(diag, halfTheta, betaExpr, target, target2, qubits);
       }
       break;
     }
     case qc::OpType::XXminusYY: {
       const auto target2 = static_cast<Qubit>(p.at(op->getTargets()[1]));
-      const auto& thetaExpr = parseParam(op.get(), 0);
+      const auto& halfTheta = parseHalfParam(op.get(), 0);
       const auto& betaExpr = parseParam(op.get(), 1);
       if (betaExpr.isConstant()) {
-        addXXminusYY(diag, thetaExpr, betaExpr, target, target2, qubits,
+        addXXminusYY(diag, halfTheta, betaExpr, target, target2, qubits,
                      op->getParameter().at(1));
       } else {
-        addXXminusYY(diag, thetaExpr, betaExpr, target, target2, qubits);
+        addXXminusYY(diag, halfTheta, betaExpr, target, target2, qubits);
       }
       break;
     }
@@ -734,6 +734,23 @@ PiExpression FunctionalityConstruction::parseParam(const qc::Operation* op,
   }
   return PiExpression{PiRational{op->getParameter().at(i)}};
 }
+PiExpression FunctionalityConstruction::parseHalfParam(const qc::Operation* op,
+                                                       const std::size_t i) {
+  // the angle of a phase is only known up to multiples of 2*pi, so that an
+  // angle must be halved before it becomes one
+  if (const auto* symbOp = dynamic_cast<const qc::SymbolicOperation*>(op)) {
+    const auto param = symbOp->getParameter(i);
+    if (std::holds_alternative<qc::Symbolic>(param)) {
+      auto symbol = std::get<qc::Symbolic>(param);
+      const auto constant = symbol.getConst();
+      symbol.setConst(0.);
+      auto half = toPiExpr(symbol) / 2.;
+      half.setConst(PiRational{constant / 2.});
+      return half;
+    }
+  }
+  return PiExpression{PiRational{op->getParameter().at(i) / 2.}};
+}
 PiExpression
 FunctionalityConstruction::toPiExpr(const qc::SymbolOrNumber& param) {
   if (std::holds_alternative<double>(param)) {
-- 
2.43.0


From 605f1f765549dcb8c2e826fd552c883aeaac32b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:49 +0000
Subject: [PATCH 124/163] fix: do not fuse a phase gadget into a boundary
 vertex

---
 src/zx/Rules.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zx/Rules.cpp b/src/zx/Rules.cpp
index 686fb99..2143b26 100644
--- a/src/zx/Rules.cpp
+++ b/src/zx/Rules.cpp
@@ -302,7 +302,7 @@ bool checkAndFuseGadget(ZXDiagram& diag, const Vertex v) {
     const auto& [v0, v0Etype] = diag.incidentEdges(id0)[0].to == v
                                     ? diag.incidentEdges(id0)[1]
                                     : diag.incidentEdges(id0)[0];
-    if (v0Etype != EdgeType::Hadamard) {
+    if (v0Etype != EdgeType::Hadamard || diag.isBoundaryVertex(v0)) {
       return false;
     }
 
-- 
2.43.0


From 7a7be7045672739b6b59e34a6875e1dbb8d4aea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:49 +0000
Subject: [PATCH 125/163] fix: fuse phase gadgets only if they have the same
 targets

---
 src/zx/Rules.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/zx/Rules.cpp b/src/zx/Rules.cpp
index 2143b26..c172917 100644
--- a/src/zx/Rules.cpp
+++ b/src/zx/Rules.cpp
@@ -345,6 +345,7 @@ bool checkAndFuseGadget(ZXDiagram& diag, const Vertex v) {
 
     foundGadget = true;
     id1 = n;
+    phaseSpider.reset();
 
     for (const auto& [nn, nnEtype] :
          diag.incidentEdges(id1.value())) { // Todo: maybe problem with parallel
@@ -356,7 +357,11 @@ bool checkAndFuseGadget(ZXDiagram& diag, const Vertex v) {
       }
 
       if (diag.degree(nn) == 1 && !diag.isBoundaryVertex(nn)) {
-        foundGadget = true;
+        if (phaseSpider.has_value()) {
+          // a second phase spider takes the place of a target
+          foundGadget = false;
+          break;
+        }
         phaseSpider = nn;
         continue;
       }
@@ -370,6 +375,7 @@ bool checkAndFuseGadget(ZXDiagram& diag, const Vertex v) {
       }
     }
 
+    foundGadget = foundGadget && phaseSpider.has_value();
     if (foundGadget) {
       break;
     }
-- 
2.43.0


From c1247f53bf156c8dc0e10c9fc3552f82a9d92d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:49 +0000
Subject: [PATCH 126/163] fix: do not take a Hadamard wire for the identity in
 ZX

---
 src/zx/ZXDiagram.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zx/ZXDiagram.cpp b/src/zx/ZXDiagram.cpp
index 90073b3..e70c247 100644
--- a/src/zx/ZXDiagram.cpp
+++ b/src/zx/ZXDiagram.cpp
@@ -294,7 +294,8 @@ bool ZXDiagram::isIdentity() const {
 
   const auto nInputs = inputs.size();
   for (size_t i = 0; i < nInputs; ++i) {
-    if (!connected(inputs[i], outputs[i])) {
+    const auto edge = getEdge(inputs[i], outputs[i]);
+    if (!edge.has_value() || edge->type != EdgeType::Simple) {
       return false;
     }
   }
-- 
2.43.0


From baa95873c210ba1ba8e6ea857156e297c2f38a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:40 +0000
Subject: [PATCH 127/163] fix: account for the sign of XXplusYY gates in ZX by
 the angle beta

---
 src/zx/FunctionalityConstruction.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/zx/FunctionalityConstruction.cpp b/src/zx/FunctionalityConstruction.cpp
index e8c44ec..5c5855a 100644
--- a/src/zx/FunctionalityConstruction.cpp
+++ b/src/zx/FunctionalityConstruction.cpp
@@ -10,6 +10,7 @@
 
 #include "zx/FunctionalityConstruction.hpp"
 
+#include "ir/Definitions.hpp"
 #include "ir/Permutation.hpp"
 #include "ir/QuantumComputation.hpp"
 #include "ir/operations/CompoundOperation.hpp"
@@ -225,23 +226,28 @@ void FunctionalityConstruction::addXXplusYY(
     ZXDiagram& diag, const PiExpression& halfTheta, const PiExpression& beta,
     const Qubit qubit0, const Qubit qubit1, std::vector<Vertex>& qubits,
     const std::optional<double>& unconvertedBeta) {
+  // shifting the angle by pi accounts for the sign of theta below
+  const auto angle = PiExpression(PiRational(1, 1)) - beta;
+  std::optional<double> unconvertedAngle{};
   if (unconvertedBeta.has_value()) {
-    addRz(diag, -beta, qubit1, qubits, -unconvertedBeta.value());
-  } else {
-    addRz(diag, -beta, qubit1, qubits);
+    unconvertedAngle = qc::PI - unconvertedBeta.value();
   }
+  addRz(diag, angle, qubit1, qubits, unconvertedAngle);
   addRz(diag, PiExpression(PiRational(1, 2)), qubit1, qubits);
   addRz(diag, PiExpression(PiRational(-1, 2)), qubit0, qubits);
   addRx(diag, PiExpression(PiRational(1, 2)), qubit0, qubits);
   addRz(diag, PiExpression(PiRational(1, 2)), qubit0, qubits);
   addCnot(diag, qubit0, qubit1, qubits);
-  addRy(diag, -halfTheta, qubit0, qubits);
-  addRy(diag, -halfTheta, qubit1, qubits);
+  addRy(diag, halfTheta, qubit0, qubits);
+  addRy(diag, halfTheta, qubit1, qubits);
   addCnot(diag, qubit0, qubit1, qubits);
   addRz(diag, PiExpression(PiRational(-1, 2)), qubit0, qubits);
   addRx(diag, PiExpression(PiRational(-1, 2)), qubit0, qubits);
   addRz(diag, PiExpression(PiRational(1, 2)), qubit0, qubits);
-  addRz(diag, beta, qubit1, qubits, unconvertedBeta);
+  if (unconvertedAngle.has_value()) {
+    unconvertedAngle = -unconvertedAngle.value();
+  }
+  addRz(diag, -angle, qubit1, qubits, unconvertedAngle);
   addRz(diag, PiExpression(-PiRational(1, 2)), qubit1, qubits);
 }
 
-- 
2.43.0


From 0040b5e945e98906b16f41c0fc401d1f08ee2a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:02 +0000
Subject: [PATCH 128/163] fix: compare neutral-atom locations with >= correctly

---
 include/mqt-core/na/entities/Location.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mqt-core/na/entities/Location.hpp b/include/mqt-core/na/entities/Location.hpp
index f2e36aa..0cebd81 100644
--- a/include/mqt-core/na/entities/Location.hpp
+++ b/include/mqt-core/na/entities/Location.hpp
@@ -105,14 +105,14 @@ struct Location final {
   /// @param other The location to compare with.
   /// @return True if this location is greater than or equal to the other
   [[nodiscard]] auto operator>=(const Location& other) const -> bool {
-    return !(other < *this);
+    return !(*this < other);
   }
 
   /// Compares two locations for less than or equal.
   /// @param other The location to compare with.
   /// @return True if this location is less than or equal to the other location,
   [[nodiscard]] auto operator<=(const Location& other) const -> bool {
-    return *this >= other;
+    return other >= *this;
   }
 
   /// Computes the Euclidean distance between this location and the given
-- 
2.43.0


From 3697db51dd032dba774110acac6ba46db37b9c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:02 +0000
Subject: [PATCH 129/163] fix: print all neutral atoms that share an initial
 location

---
 src/na/NAComputation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/na/NAComputation.cpp b/src/na/NAComputation.cpp
index 4c6ba04..d47dbc5 100644
--- a/src/na/NAComputation.cpp
+++ b/src/na/NAComputation.cpp
@@ -55,7 +55,7 @@ auto NAComputation::getLocationOfAtomAfterOperation(const Atom& atom,
 }
 auto NAComputation::toString() const -> std::string {
   std::stringstream ss;
-  std::map<Location, const Atom*> initialLocationsAsc;
+  std::multimap<Location, const Atom*> initialLocationsAsc;
   for (const auto& [atom, loc] : initialLocations_) {
     initialLocationsAsc.emplace(loc, atom);
   }
-- 
2.43.0


From 656ade197cad834798c27873b3e2068c7d9344ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:02 +0000
Subject: [PATCH 130/163] fix: reject loading or storing an atom twice in one
 operation

---
 src/na/NAComputation.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/na/NAComputation.cpp b/src/na/NAComputation.cpp
index d47dbc5..221d3bb 100644
--- a/src/na/NAComputation.cpp
+++ b/src/na/NAComputation.cpp
@@ -95,6 +95,11 @@ auto NAComputation::validate() const -> std::pair<bool, std::string> {
       //===----------------------------------------------------------------===//
       const auto& shuttlingOp = op->as<ShuttlingOp>();
       const auto& opAtoms = shuttlingOp.getAtoms();
+      if (std::unordered_set<const Atom*>(opAtoms.begin(), opAtoms.end())
+              .size() != opAtoms.size()) {
+        ss << "Error in op number " << counter << " (two atoms identical)\n";
+        return {false, ss.str()};
+      }
       if (shuttlingOp.is<LoadOp>()) {
         //===-----------------------------------------------------------------//
         // Load Operations
@@ -132,11 +137,6 @@ auto NAComputation::validate() const -> std::pair<bool, std::string> {
           const auto* a = opAtoms[i];
           for (std::size_t j = i + 1; j < opAtoms.size(); ++j) {
             const auto* b = opAtoms[j];
-            if (a == b) {
-              ss << "Error in op number " << counter
-                 << " (two atoms identical)\n";
-              return {false, ss.str()};
-            }
             const auto& s1 = currentLocations[a];
             const auto& s2 = currentLocations[b];
             const auto& e1 = targetLocations[i];
-- 
2.43.0


From 71133012c4addc07c5d688cde700a70601ce2ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:44 +0000
Subject: [PATCH 131/163] fix: float inverse pairs in layers only where they
 cancel on all their qubits

---
 src/datastructures/Layer.cpp | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/datastructures/Layer.cpp b/src/datastructures/Layer.cpp
index 8fceb6a..9b54829 100644
--- a/src/datastructures/Layer.cpp
+++ b/src/datastructures/Layer.cpp
@@ -51,8 +51,28 @@ auto Layer::constructDAG(const QuantumComputation& qc, const bool commutable)
   for (const auto& op : qc) {
     // create a vertex for the current operation
     const auto vertex = DAGVertex::create(op.get(), executableSet);
+    const auto usedQubits = op->getUsedQubits();
+    // check whether the current operation cancels the lookahead on a qubit
+    const auto cancelsAtQubit = [&](const Qubit qubit) {
+      const auto& previous = lookahead[qubit];
+      return previous != nullptr &&
+             previous->getOperation()->isInverseOf(*op) &&
+             (currentGroup[qubit].empty() ||
+              !currentGroup[qubit][0]->getOperation()->commutesAtQubit(
+                  *previous->getOperation(), qubit));
+    };
+    // Operations that act on each of their qubits independently may cancel on
+    // some of their qubits only. All other operations must directly follow
+    // their inverse on all of their qubits to cancel it.
+    const bool independent =
+        !op->isControlled() && isSingleQubitGate(op->getType());
+    const bool cancelsEverywhere = std::all_of(
+        usedQubits.cbegin(), usedQubits.cend(), [&](const Qubit qubit) {
+          return cancelsAtQubit(qubit) &&
+                 lookahead[qubit] == lookahead[*usedQubits.cbegin()];
+        });
     // iterate over all qubits the operation acts on
-    for (const auto& qubit : op->getUsedQubits()) {
+    for (const auto& qubit : usedQubits) {
       // check whether the lookahead is empty
       if (lookahead[qubit] == nullptr) {
         // here: the lookahead is empty
@@ -66,15 +86,13 @@ auto Layer::constructDAG(const QuantumComputation& qc, const bool commutable)
         // eliminated, however, since we also allow global gates, those might
         // cancel out each other on a particular qubit but not on all qubits
         // and, hence, cannot be eliminated.
+        const bool cancels =
+            independent ? cancelsAtQubit(qubit) : cancelsEverywhere;
         auto current = lookahead[qubit];
         lookahead[qubit] = vertex;
         // check whether the current operation is the inverse of the
         // lookahead
-        if (current->getOperation()->isInverseOf(
-                *lookahead[qubit]->getOperation()) &&
-            (currentGroup[qubit].empty() ||
-             !(currentGroup[qubit][0]->getOperation())
-                  ->commutesAtQubit(*current->getOperation(), qubit))) {
+        if (cancels) {
           // here: the current operation is the inverse of the lookahead
           // add an enabling edge from the lookahead to all operations on this
           // qubit including the destructive ones
-- 
2.43.0


From 65cc551db6b61e29138806ca389c702146ee0517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:14 +0000
Subject: [PATCH 132/163] fix: do not interleave two inverse pairs on the same
 qubit in layers

---
 src/datastructures/Layer.cpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/datastructures/Layer.cpp b/src/datastructures/Layer.cpp
index 9b54829..fb1b4aa 100644
--- a/src/datastructures/Layer.cpp
+++ b/src/datastructures/Layer.cpp
@@ -94,24 +94,22 @@ auto Layer::constructDAG(const QuantumComputation& qc, const bool commutable)
         // lookahead
         if (cancels) {
           // here: the current operation is the inverse of the lookahead
+          // add an enabling edge from each constructive operation such that
+          // this pair does not start while another pair is open
+          for (const auto& constructiveOp : constructive[qubit]) {
+            constructiveOp->addEnabledSuccessor(current);
+          }
           // add an enabling edge from the lookahead to all operations on this
-          // qubit including the destructive ones
+          // qubit
           for (const auto& qubitOperation : qubitOperations[qubit]) {
             lookahead[qubit]->addEnabledSuccessor(qubitOperation);
           }
-          for (const auto& qubitOperation : destructive[qubit]) {
-            lookahead[qubit]->addEnabledSuccessor(qubitOperation);
-          }
           // add the lookahead to the constructive group
           constructive[qubit].emplace_back(lookahead[qubit]);
-          // add a disabling edge to all operations on this qubit including
-          // the destructive ones
+          // add a disabling edge to all operations on this qubit
           for (const auto& qubitOperation : qubitOperations[qubit]) {
             current->addDisabledSuccessor(qubitOperation);
           }
-          for (const auto& qubitOperation : destructive[qubit]) {
-            current->addDisabledSuccessor(qubitOperation);
-          }
           // add an enabling edge to the lookahead
           current->addEnabledSuccessor(lookahead[qubit]);
           // add the current vertex to the destructive group
-- 
2.43.0


From f66404565397648d433dae7ca5ab79a1167ef5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:31 +0000
Subject: [PATCH 133/163] fix: keep layers executable around inverse pairs that
 are apart on some qubit

---
 src/datastructures/Layer.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/datastructures/Layer.cpp b/src/datastructures/Layer.cpp
index fb1b4aa..7de427c 100644
--- a/src/datastructures/Layer.cpp
+++ b/src/datastructures/Layer.cpp
@@ -100,15 +100,27 @@ auto Layer::constructDAG(const QuantumComputation& qc, const bool commutable)
             constructiveOp->addEnabledSuccessor(current);
           }
           // add an enabling edge from the lookahead to all operations on this
-          // qubit
+          // qubit. If other operations separate the pair on another qubit,
+          // those may depend on the operations on this qubit so that the pair
+          // can only start after them.
           for (const auto& qubitOperation : qubitOperations[qubit]) {
-            lookahead[qubit]->addEnabledSuccessor(qubitOperation);
+            if (cancelsEverywhere) {
+              lookahead[qubit]->addEnabledSuccessor(qubitOperation);
+            } else {
+              qubitOperation->addEnabledSuccessor(current);
+            }
           }
           // add the lookahead to the constructive group
           constructive[qubit].emplace_back(lookahead[qubit]);
           // add a disabling edge to all operations on this qubit
-          for (const auto& qubitOperation : qubitOperations[qubit]) {
-            current->addDisabledSuccessor(qubitOperation);
+          if (cancelsEverywhere) {
+            for (const auto& qubitOperation : qubitOperations[qubit]) {
+              current->addDisabledSuccessor(qubitOperation);
+            }
+          } else {
+            // all of them are executed before any operation that is ordered
+            // after this pair
+            qubitOperations[qubit].clear();
           }
           // add an enabling edge to the lookahead
           current->addEnabledSuccessor(lookahead[qubit]);
-- 
2.43.0


From acec7bd51e4139032bc505f43fa70dcd9ad6cc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:25 +0000
Subject: [PATCH 134/163] fix: support slices with negative steps in Python

---
 src/python/ir/operations/register_compound_operation.cpp | 4 ++--
 src/python/ir/register_quantum_computation.cpp           | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/python/ir/operations/register_compound_operation.cpp b/src/python/ir/operations/register_compound_operation.cpp
index 6eba958..501665c 100644
--- a/src/python/ir/operations/register_compound_operation.cpp
+++ b/src/python/ir/operations/register_compound_operation.cpp
@@ -65,8 +65,8 @@ void registerCompoundOperation(const py::module& m) {
             }
             auto ops = std::vector<qc::Operation*>();
             ops.reserve(sliceLength);
-            for (std::size_t i = start; i < stop; i += step) {
-              ops.emplace_back(op.at(i).get());
+            for (std::size_t i = 0; i < sliceLength; ++i, start += step) {
+              ops.emplace_back(op.at(start).get());
             }
             return ops;
           },
diff --git a/src/python/ir/register_quantum_computation.cpp b/src/python/ir/register_quantum_computation.cpp
index 41f5e7b..61c38b8 100644
--- a/src/python/ir/register_quantum_computation.cpp
+++ b/src/python/ir/register_quantum_computation.cpp
@@ -104,8 +104,8 @@ void registerQuantumComputation(py::module& m) {
         }
         auto ops = std::vector<qc::Operation*>();
         ops.reserve(sliceLength);
-        for (std::size_t i = start; i < stop; i += step) {
-          ops.emplace_back(circ.at(i).get());
+        for (std::size_t i = 0; i < sliceLength; ++i, start += step) {
+          ops.emplace_back(circ.at(start).get());
         }
         return ops;
       },
-- 
2.43.0


From 51ece81306c42f3016569cd1e76260893d663a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:25 +0000
Subject: [PATCH 135/163] fix: delete the right operations for slices with
 negative steps in Python

---
 src/python/ir/operations/register_compound_operation.cpp | 8 +++++---
 src/python/ir/register_quantum_computation.cpp           | 9 +++++----
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/python/ir/operations/register_compound_operation.cpp b/src/python/ir/operations/register_compound_operation.cpp
index 501665c..594ef81 100644
--- a/src/python/ir/operations/register_compound_operation.cpp
+++ b/src/python/ir/operations/register_compound_operation.cpp
@@ -119,10 +119,12 @@ void registerCompoundOperation(const py::module& m) {
                                &sliceLength)) {
               throw py::error_already_set();
             }
-            // delete in reverse order to not invalidate indices
-            for (std::size_t i = sliceLength; i > 0; --i) {
+            // delete in decreasing order of the indices to not invalidate them
+            const auto reversed = static_cast<DiffType>(step) < 0;
+            for (std::size_t i = 0; i < sliceLength; ++i) {
+              const auto k = reversed ? i : sliceLength - 1 - i;
               compOp.erase(compOp.begin() +
-                           static_cast<int64_t>(start + (i - 1) * step));
+                           static_cast<DiffType>(start + k * step));
             }
           },
           "slice"_a)
diff --git a/src/python/ir/register_quantum_computation.cpp b/src/python/ir/register_quantum_computation.cpp
index 61c38b8..b07bc08 100644
--- a/src/python/ir/register_quantum_computation.cpp
+++ b/src/python/ir/register_quantum_computation.cpp
@@ -158,10 +158,11 @@ void registerQuantumComputation(py::module& m) {
                            &sliceLength)) {
           throw py::error_already_set();
         }
-        // delete in reverse order to not invalidate indices
-        for (std::size_t i = sliceLength; i > 0; --i) {
-          circ.erase(circ.begin() +
-                     static_cast<int64_t>(start + (i - 1) * step));
+        // delete in decreasing order of the indices to not invalidate them
+        const auto reversed = static_cast<DiffType>(step) < 0;
+        for (std::size_t i = 0; i < sliceLength; ++i) {
+          const auto k = reversed ? i : sliceLength - 1 - i;
+          circ.erase(circ.begin() + static_cast<DiffType>(start + k * step));
         }
       },
       "slice"_a);
-- 
2.43.0


From c9e49f4487f0b65acf670b28d350b9d26b826a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:25 +0000
Subject: [PATCH 136/163] fix: clamp positions when inserting operations in
 Python

---
 .../ir/operations/register_compound_operation.cpp    | 12 +++++++++---
 src/python/ir/register_quantum_computation.cpp       | 12 +++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/python/ir/operations/register_compound_operation.cpp b/src/python/ir/operations/register_compound_operation.cpp
index 594ef81..342c0d5 100644
--- a/src/python/ir/operations/register_compound_operation.cpp
+++ b/src/python/ir/operations/register_compound_operation.cpp
@@ -12,6 +12,7 @@
 #include "ir/operations/Operation.hpp"
 #include "python/pybind11.hpp"
 
+#include <algorithm>
 #include <cstddef>
 #include <memory>
 #include <sstream>
@@ -136,10 +137,15 @@ void registerCompoundOperation(const py::module& m) {
           "op"_a)
       .def(
           "insert",
-          [](qc::CompoundOperation& compOp, const std::size_t idx,
+          [](qc::CompoundOperation& compOp, DiffType idx,
              const qc::Operation& op) {
-            compOp.insert(compOp.begin() + static_cast<int64_t>(idx),
-                          op.clone());
+            // as for Python lists, positions outside the sequence are clamped
+            const auto size = static_cast<DiffType>(compOp.size());
+            if (idx < 0) {
+              idx += size;
+            }
+            idx = std::clamp<DiffType>(idx, 0, size);
+            compOp.insert(compOp.begin() + idx, op.clone());
           },
           "idx"_a, "op"_a)
       .def("empty", &qc::CompoundOperation::empty)
diff --git a/src/python/ir/register_quantum_computation.cpp b/src/python/ir/register_quantum_computation.cpp
index b07bc08..0d384e4 100644
--- a/src/python/ir/register_quantum_computation.cpp
+++ b/src/python/ir/register_quantum_computation.cpp
@@ -18,6 +18,7 @@
 #include "python/pybind11.hpp"
 #include "qasm3/Importer.hpp"
 
+#include <algorithm>
 #include <cstddef>
 #include <cstdint>
 #include <memory>
@@ -169,9 +170,14 @@ void registerQuantumComputation(py::module& m) {
   qc.def("__len__", &qc::QuantumComputation::getNops);
   qc.def(
       "insert",
-      [](qc::QuantumComputation& circ, std::size_t idx,
-         const qc::Operation& op) {
-        circ.insert(circ.begin() + static_cast<int64_t>(idx), op.clone());
+      [](qc::QuantumComputation& circ, DiffType idx, const qc::Operation& op) {
+        // as for Python lists, positions outside the sequence are clamped
+        const auto size = static_cast<DiffType>(circ.getNops());
+        if (idx < 0) {
+          idx += size;
+        }
+        idx = std::clamp<DiffType>(idx, 0, size);
+        circ.insert(circ.begin() + idx, op.clone());
       },
       "idx"_a, "op"_a);
   qc.def(
-- 
2.43.0


From 7a1dabb5853b5cb8a26b80b76103597be7811523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:17 +0000
Subject: [PATCH 137/163] fix: copy all operations before assigning a slice in
 Python

---
 .../ir/operations/register_compound_operation.cpp      | 10 ++++++++--
 src/python/ir/register_quantum_computation.cpp         | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/python/ir/operations/register_compound_operation.cpp b/src/python/ir/operations/register_compound_operation.cpp
index 342c0d5..8067d95 100644
--- a/src/python/ir/operations/register_compound_operation.cpp
+++ b/src/python/ir/operations/register_compound_operation.cpp
@@ -96,8 +96,14 @@ void registerCompoundOperation(const py::module& m) {
               throw std::runtime_error(
                   "Length of slice and number of operations do not match.");
             }
-            for (std::size_t i = 0; i < sliceLength; ++i) {
-              compOp[start] = ops[i]->clone();
+            // the new operations may be elements of the sequence themselves
+            std::vector<std::unique_ptr<qc::Operation>> clones;
+            clones.reserve(sliceLength);
+            for (const auto* op : ops) {
+              clones.emplace_back(op->clone());
+            }
+            for (auto& clone : clones) {
+              compOp[start] = std::move(clone);
               start += step;
             }
           },
diff --git a/src/python/ir/register_quantum_computation.cpp b/src/python/ir/register_quantum_computation.cpp
index 0d384e4..d86d8cd 100644
--- a/src/python/ir/register_quantum_computation.cpp
+++ b/src/python/ir/register_quantum_computation.cpp
@@ -135,8 +135,14 @@ void registerQuantumComputation(py::module& m) {
           throw std::runtime_error(
               "Length of slice and number of operations do not match.");
         }
-        for (std::size_t i = 0; i < sliceLength; ++i) {
-          circ.at(start) = ops[i]->clone();
+        // the new operations may be elements of the sequence themselves
+        std::vector<std::unique_ptr<qc::Operation>> clones;
+        clones.reserve(sliceLength);
+        for (const auto* op : ops) {
+          clones.emplace_back(op->clone());
+        }
+        for (auto& clone : clones) {
+          circ.at(start) = std::move(clone);
           start += step;
         }
       },
-- 
2.43.0


From d62569afa8741563a2a6d08481f5aabf9adeb2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:58 +0000
Subject: [PATCH 138/163] fix: convert symbolic Qiskit parameters by their
 coefficients instead of their text

---
 src/mqt/core/plugins/qiskit/qiskit_to_mqt.py | 62 +++++---------------
 1 file changed, 15 insertions(+), 47 deletions(-)

diff --git a/src/mqt/core/plugins/qiskit/qiskit_to_mqt.py b/src/mqt/core/plugins/qiskit/qiskit_to_mqt.py
index 3abd368..f959c29 100644
--- a/src/mqt/core/plugins/qiskit/qiskit_to_mqt.py
+++ b/src/mqt/core/plugins/qiskit/qiskit_to_mqt.py
@@ -10,11 +10,10 @@
 
 from __future__ import annotations
 
-import re
 import warnings
 from typing import TYPE_CHECKING, cast
 
-from qiskit.circuit import AncillaRegister, Clbit, Qubit
+from qiskit.circuit import AncillaRegister, Clbit, ParameterExpression, Qubit
 
 from ...ir import QuantumComputation
 from ...ir.operations import (
@@ -30,7 +29,7 @@ from ...ir.symbolic import Expression, Term, Variable
 if TYPE_CHECKING:
     from collections.abc import Mapping, Sequence
 
-    from qiskit.circuit import Instruction, ParameterExpression, QuantumCircuit
+    from qiskit.circuit import Instruction, QuantumCircuit
 
 
 __all__ = ["qiskit_to_mqt"]
@@ -301,53 +300,22 @@ def _emplace_operation(
     raise NotImplementedError(msg)
 
 
-_SUM_REGEX = re.compile(r"[+|-]?[^+-]+")
-_PROD_REGEX = re.compile(r"[*/]?[^*/]+")
-
-
 def _parse_symbolic_expression(qiskit_expr: ParameterExpression | float) -> float | Expression:
-    if isinstance(qiskit_expr, float):
-        return qiskit_expr
+    if not isinstance(qiskit_expr, ParameterExpression):
+        return float(qiskit_expr)
 
-    expr_str = str(qiskit_expr).strip()
     expr = Expression()
-    is_const = True
-    for summand in _SUM_REGEX.findall(expr_str):
-        sign = 1
-        summand_no_operator = summand
-        if summand[0] == "+":
-            summand_no_operator = summand[1:]
-        elif summand[0] == "-":
-            summand_no_operator = summand[1:]
-            sign = -1
-
-        coeff = 1.0
-        var = ""
-        for factor in _PROD_REGEX.findall(summand_no_operator):
-            is_div = False
-            factor_no_operator = factor
-            if factor[0] == "*":
-                factor_no_operator = factor[1:]
-            elif factor[0] == "/":
-                factor_no_operator = factor[1:]
-                is_div = True
-
-            factor_no_operator = factor_no_operator.strip()
-            if factor_no_operator.replace(".", "").isnumeric():
-                f = float(factor_no_operator)
-                coeff *= 1.0 / f if is_div else f
-            else:
-                var = factor_no_operator
-
-        if not var:
-            expr += coeff
-        else:
-            is_const = False
-            expr += Term(Variable(var), sign * coeff)
-
-    if is_const:
-        return expr.constant
-    return expr
+    for parameter in sorted(qiskit_expr.parameters, key=lambda p: p.name):
+        coeff = qiskit_expr.gradient(parameter)
+        if isinstance(coeff, ParameterExpression):
+            msg = f"Only linear parameter expressions are supported, but got {qiskit_expr}."
+            raise NotImplementedError(msg)
+        expr += Term(Variable(parameter.name), coeff)
+
+    constant = float(qiskit_expr.bind(dict.fromkeys(qiskit_expr.parameters, 0)))
+    if expr.is_zero():
+        return constant
+    return expr + constant
 
 
 def _add_operation(
-- 
2.43.0


From 0f7aabb6595b8dd35234b06430d30edd6cb32960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:58 +0000
Subject: [PATCH 139/163] fix: keep the output permutation when setting the
 layout of Qiskit circuits

---
 src/mqt/core/plugins/qiskit/mqt_to_qiskit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/core/plugins/qiskit/mqt_to_qiskit.py b/src/mqt/core/plugins/qiskit/mqt_to_qiskit.py
index 1073097..e51747e 100644
--- a/src/mqt/core/plugins/qiskit/mqt_to_qiskit.py
+++ b/src/mqt/core/plugins/qiskit/mqt_to_qiskit.py
@@ -348,7 +348,7 @@ def mqt_to_qiskit(qc: QuantumComputation, *, set_layout: bool = False) -> Quantu
         input_qubit_mapping={qubit: idx for idx, qubit in qubit_map.items()},
         final_layout=final_layout,
         _input_qubit_count=qc.num_qubits,
-        _output_qubit_list=list(final_layout.get_virtual_bits()),
+        _output_qubit_list=circ.qubits,
     )
 
     return circ
-- 
2.43.0


From d0ae7b69f5b8d2d4dab41f50e444de8d7b9e3664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:23 +0000
Subject: [PATCH 140/163] fix: cancelling inverses no longer edits a use list
 while walking it

---
 .../CancelConsecutiveInversesPattern.cpp      | 21 ++++---------------
 1 file changed, 4 insertions(+), 17 deletions(-)

diff --git a/mlir/lib/Dialect/MQTOpt/Transforms/CancelConsecutiveInversesPattern.cpp b/mlir/lib/Dialect/MQTOpt/Transforms/CancelConsecutiveInversesPattern.cpp
index c29760f..685a852 100644
--- a/mlir/lib/Dialect/MQTOpt/Transforms/CancelConsecutiveInversesPattern.cpp
+++ b/mlir/lib/Dialect/MQTOpt/Transforms/CancelConsecutiveInversesPattern.cpp
@@ -98,24 +98,11 @@ struct CancelConsecutiveInversesPattern final
                mlir::PatternRewriter& rewriter) const override {
     auto user = mlir::dyn_cast<UnitaryInterface>(
         *op->getUsers().begin()); // We always have exactly one user.
-    const auto& childUsers = user->getUsers();
 
-    for (const auto& childUser : childUsers) {
-      for (size_t i = 0; i < childUser->getOperands().size(); i++) {
-        const auto& operand = childUser->getOperand(i);
-        const auto found = std::find(user.getOutQubits().begin(),
-                                     user.getOutQubits().end(), operand);
-        if (found == user.getOutQubits().end()) {
-          continue;
-        }
-        const auto idx = std::distance(user.getOutQubits().begin(), found);
-        rewriter.modifyOpInPlace(childUser, [&] {
-          childUser->setOperand(i, op.getAllInQubits()[idx]);
-        });
-      }
-    }
-
-    rewriter.eraseOp(user);
+    // Both operations list their targets and controls in the same order, so
+    // each output of the second one is the respective input of the first one
+    // again.
+    rewriter.replaceOp(user, op.getAllInQubits());
     rewriter.eraseOp(op);
   }
 };
-- 
2.43.0


From dd1638f3f54eb639ef00df6bbbca712c15b7241e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:24 +0000
Subject: [PATCH 141/163] fix: pushing a gate into a block keeps the order of
 the other block arguments

---
 mlir/lib/Dialect/MQTOpt/Transforms/QuantumSinkPushPattern.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mlir/lib/Dialect/MQTOpt/Transforms/QuantumSinkPushPattern.cpp b/mlir/lib/Dialect/MQTOpt/Transforms/QuantumSinkPushPattern.cpp
index 75ef434..eaebe59 100644
--- a/mlir/lib/Dialect/MQTOpt/Transforms/QuantumSinkPushPattern.cpp
+++ b/mlir/lib/Dialect/MQTOpt/Transforms/QuantumSinkPushPattern.cpp
@@ -229,6 +229,9 @@ struct QuantumSinkPushPattern final
       block.eraseArgument(i);
     }
 
+    // The arguments were visited from the last to the first.
+    std::reverse(newBlockArgs.begin(), newBlockArgs.end());
+
     std::unordered_set<mlir::Block*> visited;
     replaceAllChildUsesWith(*op, *clone, block, visited);
 
-- 
2.43.0


From 139fe2ffe763f6b3d172565c1ef705660d48dfc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:50 +0000
Subject: [PATCH 142/163] fix: pushing a gate out of a loop no longer rewires
 the other exit

---
 mlir/lib/Dialect/MQTOpt/Transforms/QuantumSinkPushPattern.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mlir/lib/Dialect/MQTOpt/Transforms/QuantumSinkPushPattern.cpp b/mlir/lib/Dialect/MQTOpt/Transforms/QuantumSinkPushPattern.cpp
index eaebe59..c992144 100644
--- a/mlir/lib/Dialect/MQTOpt/Transforms/QuantumSinkPushPattern.cpp
+++ b/mlir/lib/Dialect/MQTOpt/Transforms/QuantumSinkPushPattern.cpp
@@ -232,7 +232,9 @@ struct QuantumSinkPushPattern final
     // The arguments were visited from the last to the first.
     std::reverse(newBlockArgs.begin(), newBlockArgs.end());
 
-    std::unordered_set<mlir::Block*> visited;
+    // Behind the original block, e.g., in the next iteration of a loop, the
+    // operation is computed anew.
+    std::unordered_set<mlir::Block*> visited{op->getBlock()};
     replaceAllChildUsesWith(*op, *clone, block, visited);
 
     // Now, the block instead needs to be passed the inputs of the pushed
-- 
2.43.0


From 5c18a5604ddd5766c819cf1cbb5a94fa0832be9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:12 +0000
Subject: [PATCH 143/163] fix: the round trip translates operations only after
 those they depend on

---
 .../Transforms/ToQuantumComputationPattern.cpp       | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/mlir/lib/Dialect/MQTOpt/Transforms/ToQuantumComputationPattern.cpp b/mlir/lib/Dialect/MQTOpt/Transforms/ToQuantumComputationPattern.cpp
index 9c76d78..79dd439 100644
--- a/mlir/lib/Dialect/MQTOpt/Transforms/ToQuantumComputationPattern.cpp
+++ b/mlir/lib/Dialect/MQTOpt/Transforms/ToQuantumComputationPattern.cpp
@@ -306,6 +306,18 @@ struct ToQuantumComputationPattern final : mlir::OpRewritePattern<AllocOp> {
             toVisit.end() != std::find(toVisit.begin(), toVisit.end(), user)) {
           continue;
         }
+        // An operation may only be visited after all operations it depends on.
+        const auto operands = user->getOperands();
+        if (std::any_of(operands.begin(), operands.end(),
+                        [&visited](const mlir::Value operand) {
+                          auto* defOp = operand.getDefiningOp();
+                          return defOp != nullptr &&
+                                 defOp->getDialect()->getNamespace() ==
+                                     DIALECT_NAME_MQTOPT &&
+                                 visited.find(defOp) == visited.end();
+                        })) {
+          continue;
+        }
         toVisit.push_back(user);
       }
     }
-- 
2.43.0


From 750f9e8e12ea482e90491d5b16c45dd65a77c635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:44 +0000
Subject: [PATCH 144/163] fix: the round trip no longer reads operations it has
 deleted

---
 .../ToQuantumComputationPattern.cpp           | 49 +++++--------------
 1 file changed, 12 insertions(+), 37 deletions(-)

diff --git a/mlir/lib/Dialect/MQTOpt/Transforms/ToQuantumComputationPattern.cpp b/mlir/lib/Dialect/MQTOpt/Transforms/ToQuantumComputationPattern.cpp
index 79dd439..3cd0656 100644
--- a/mlir/lib/Dialect/MQTOpt/Transforms/ToQuantumComputationPattern.cpp
+++ b/mlir/lib/Dialect/MQTOpt/Transforms/ToQuantumComputationPattern.cpp
@@ -155,34 +155,6 @@ struct ToQuantumComputationPattern final : mlir::OpRewritePattern<AllocOp> {
     circuit.push_back(operation);
   }
 
-  /**
-   * @brief Recursively deletes an operation and all its defining operations if
-   * they have no users.
-   *
-   * This procedure cleans up the AST so that only the base `alloc` operation
-   * remains. Operations that still have users are ignored so that their users
-   * can be handled first in a later step.
-   *
-   * @param op The operation to delete.
-   * @param rewriter The pattern rewriter to use for deleting the operation.
-   */
-  static void deleteRecursively(mlir::Operation& op,
-                                mlir::PatternRewriter& rewriter) {
-    if (llvm::isa<AllocOp>(op)) {
-      return; // Do not delete extract operations.
-    }
-    if (!op.getUsers().empty()) {
-      return; // Do not delete operations with users.
-    }
-
-    rewriter.eraseOp(&op);
-    for (auto operand : op.getOperands()) {
-      if (auto* defOp = operand.getDefiningOp()) {
-        deleteRecursively(*defOp, rewriter);
-      }
-    }
-  }
-
   /**
    * @brief Updates the inputs of non MQTOpt-operations that use
    * MQTOpt-operations as inputs.
@@ -267,6 +239,7 @@ struct ToQuantumComputationPattern final : mlir::OpRewritePattern<AllocOp> {
     circuit.addClassicalRegister(numQubits);
 
     std::unordered_set<mlir::Operation*> visited{};
+    std::vector<mlir::Operation*> visitOrder{};
 
     // Visit all operations in the AST using Breadth-First Search.
     while (!toVisit.empty()) {
@@ -276,6 +249,7 @@ struct ToQuantumComputationPattern final : mlir::OpRewritePattern<AllocOp> {
         continue;
       }
       visited.insert(current);
+      visitOrder.push_back(current);
 
       if (llvm::isa<XOp>(current)) {
         auto unitaryOp = llvm::dyn_cast<UnitaryInterface>(current);
@@ -333,8 +307,7 @@ struct ToQuantumComputationPattern final : mlir::OpRewritePattern<AllocOp> {
 
     // Update the inputs of all non-mqtopt operations that use mqtopt operations
     // as inputs, as these will be deleted later.
-    // NOLINTNEXTLINE(bugprone-nondeterministic-pointer-iteration-order)
-    for (auto* operation : visited) {
+    for (auto* operation : visitOrder) {
       if (operation->getDialect()->getNamespace() != DIALECT_NAME_MQTOPT) {
         updateMQTOptInputs(*operation, rewriter, newAlloc.getQureg(),
                            measureCount);
@@ -342,13 +315,15 @@ struct ToQuantumComputationPattern final : mlir::OpRewritePattern<AllocOp> {
     }
 
     // Delete all operations that are part of the mqtopt dialect (except for
-    // `AllocOp`).
-    // NOLINTNEXTLINE(bugprone-nondeterministic-pointer-iteration-order)
-    for (auto* operation : visited) {
-      if (operation->getDialect()->getNamespace() == DIALECT_NAME_MQTOPT) {
-        deleteRecursively(*operation, rewriter);
-      }
-    }
+    // `AllocOp`). Going backwards, every operation is deleted after its users.
+    std::for_each(
+        visitOrder.rbegin(), visitOrder.rend(),
+        [&rewriter](mlir::Operation* operation) {
+          if (operation->getDialect()->getNamespace() == DIALECT_NAME_MQTOPT &&
+              !llvm::isa<AllocOp>(operation) && operation->use_empty()) {
+            rewriter.eraseOp(operation);
+          }
+        });
 
     rewriter.replaceOp(op, newAlloc);
 
-- 
2.43.0


From 09aa50048a36981d73ebdd1fcbd3822f0e22458b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:44 +0000
Subject: [PATCH 145/163] fix: the round trip accepts gates on qubits before
 all qubits are extracted

---
 .../ToQuantumComputationPattern.cpp           | 30 +++++--------------
 1 file changed, 8 insertions(+), 22 deletions(-)

diff --git a/mlir/lib/Dialect/MQTOpt/Transforms/ToQuantumComputationPattern.cpp b/mlir/lib/Dialect/MQTOpt/Transforms/ToQuantumComputationPattern.cpp
index 3cd0656..4f89545 100644
--- a/mlir/lib/Dialect/MQTOpt/Transforms/ToQuantumComputationPattern.cpp
+++ b/mlir/lib/Dialect/MQTOpt/Transforms/ToQuantumComputationPattern.cpp
@@ -17,6 +17,7 @@
 
 #include <algorithm>
 #include <cstddef>
+#include <iterator>
 #include <llvm/Support/Casting.h>
 #include <llvm/Support/raw_ostream.h>
 #include <mlir/Dialect/Arith/IR/Arith.h>
@@ -54,8 +55,7 @@ struct ToQuantumComputationPattern final : mlir::OpRewritePattern<AllocOp> {
    * variables.
    *
    * In particular, this function checks if two value definitions are the same,
-   * and, in case of array-style variables, also checks if the result index is
-   * the same.
+   * including the index of the result.
    *
    * @param input The qubit to find.
    * @param currentQubitVariables The list of previously defined qubit
@@ -67,26 +67,12 @@ struct ToQuantumComputationPattern final : mlir::OpRewritePattern<AllocOp> {
   static size_t
   findQubitIndex(const mlir::Value& input,
                  std::vector<mlir::Value>& currentQubitVariables) {
-    size_t arrayIndex = 0;
-    if (const auto opResult = llvm::dyn_cast<mlir::OpResult>(input)) {
-      arrayIndex = opResult.getResultNumber();
-    } else {
-      throw std::runtime_error(
-          "Operand is not an operation result. This should never happen!");
-    }
-    for (size_t i = 0; i < currentQubitVariables.size(); i++) {
-      size_t qubitArrayIndex = 0;
-      if (auto opResult =
-              llvm::dyn_cast<mlir::OpResult>(currentQubitVariables[i])) {
-        qubitArrayIndex = opResult.getResultNumber();
-      } else {
-        throw std::runtime_error(
-            "Qubit is not an operation result. This should never happen!");
-      }
-
-      if (currentQubitVariables[i] == input && arrayIndex == qubitArrayIndex) {
-        return i;
-      }
+    // Qubits that have not been extracted yet have no value so far.
+    const auto it = std::find(currentQubitVariables.begin(),
+                              currentQubitVariables.end(), input);
+    if (it != currentQubitVariables.end()) {
+      return static_cast<size_t>(
+          std::distance(currentQubitVariables.begin(), it));
     }
 
     throw std::runtime_error(
-- 
2.43.0


From 187fe7ed89db3275e5a63978325b5b215a0ef018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:40 +0000
Subject: [PATCH 146/163] fix: the round trip keeps the y, z and h gates it is
 documented to support

---
 .../FromQuantumComputationPattern.cpp         | 20 ++++++++++++++-----
 .../ToQuantumComputationPattern.cpp           | 12 +++++++++--
 2 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/mlir/lib/Dialect/MQTOpt/Transforms/FromQuantumComputationPattern.cpp b/mlir/lib/Dialect/MQTOpt/Transforms/FromQuantumComputationPattern.cpp
index 631720a..a906c89 100644
--- a/mlir/lib/Dialect/MQTOpt/Transforms/FromQuantumComputationPattern.cpp
+++ b/mlir/lib/Dialect/MQTOpt/Transforms/FromQuantumComputationPattern.cpp
@@ -84,12 +84,22 @@ struct FromQuantumComputationPattern final : mlir::OpRewritePattern<AllocOp> {
                                   inQubit.getType());
     const mlir::TypeRange outTypes(resultTypes);
 
+    const auto create = [&](auto gate) -> UnitaryInterface {
+      return rewriter.create<decltype(gate)>(
+          loc, outTypes, mlir::DenseF64ArrayAttr{}, mlir::DenseBoolArrayAttr{},
+          mlir::ValueRange{}, mlir::ValueRange{inQubit}, controlQubitsPositive,
+          controlQubitsNegative);
+    };
+
     switch (type) {
     case qc::OpType::X:
-      return rewriter.create<XOp>(loc, outTypes, mlir::DenseF64ArrayAttr{},
-                                  mlir::DenseBoolArrayAttr{},
-                                  mlir::ValueRange{}, mlir::ValueRange{inQubit},
-                                  controlQubitsPositive, controlQubitsNegative);
+      return create(XOp{});
+    case qc::OpType::Y:
+      return create(YOp{});
+    case qc::OpType::Z:
+      return create(ZOp{});
+    case qc::OpType::H:
+      return create(HOp{});
     default:
       throw std::runtime_error("Unsupported operation type");
     }
@@ -183,7 +193,7 @@ struct FromQuantumComputationPattern final : mlir::OpRewritePattern<AllocOp> {
         }
       }
 
-      if (o->getType() == qc::OpType::X) {
+      if (o->isUnitary()) {
         // For unitary operations, we call the `createUnitaryOp` function. We
         // then have to update the `currentQubitVariables` vector with the new
         // qubit values.
diff --git a/mlir/lib/Dialect/MQTOpt/Transforms/ToQuantumComputationPattern.cpp b/mlir/lib/Dialect/MQTOpt/Transforms/ToQuantumComputationPattern.cpp
index 4f89545..c1daad8 100644
--- a/mlir/lib/Dialect/MQTOpt/Transforms/ToQuantumComputationPattern.cpp
+++ b/mlir/lib/Dialect/MQTOpt/Transforms/ToQuantumComputationPattern.cpp
@@ -135,9 +135,17 @@ struct ToQuantumComputationPattern final : mlir::OpRewritePattern<AllocOp> {
     currentQubitVariables[targetIndex] = outs[0];
 
     // Add the operation to the QuantumComputation.
+    auto type = qc::OpType::X;
+    if (llvm::isa<YOp>(op.getOperation())) {
+      type = qc::OpType::Y;
+    } else if (llvm::isa<ZOp>(op.getOperation())) {
+      type = qc::OpType::Z;
+    } else if (llvm::isa<HOp>(op.getOperation())) {
+      type = qc::OpType::H;
+    }
     auto operation = qc::StandardOperation(
         qc::Controls{ctrlInsIndices.cbegin(), ctrlInsIndices.cend()},
-        targetIndex, qc::OpType::X);
+        targetIndex, type);
     circuit.push_back(operation);
   }
 
@@ -237,7 +245,7 @@ struct ToQuantumComputationPattern final : mlir::OpRewritePattern<AllocOp> {
       visited.insert(current);
       visitOrder.push_back(current);
 
-      if (llvm::isa<XOp>(current)) {
+      if (llvm::isa<XOp, YOp, ZOp, HOp>(current)) {
         auto unitaryOp = llvm::dyn_cast<UnitaryInterface>(current);
         handleUnitaryOp(unitaryOp, currentQubitVariables);
       } else if (llvm::isa<ExtractOp>(current)) {
-- 
2.43.0


From cc78a0b2cba66843a51f24f717eb341f73cfe82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:40 +0000
Subject: [PATCH 147/163] fix: the round trip keeps negative controls negative

---
 .../MQTOpt/Transforms/ToQuantumComputationPattern.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/mlir/lib/Dialect/MQTOpt/Transforms/ToQuantumComputationPattern.cpp b/mlir/lib/Dialect/MQTOpt/Transforms/ToQuantumComputationPattern.cpp
index c1daad8..5aea07e 100644
--- a/mlir/lib/Dialect/MQTOpt/Transforms/ToQuantumComputationPattern.cpp
+++ b/mlir/lib/Dialect/MQTOpt/Transforms/ToQuantumComputationPattern.cpp
@@ -143,9 +143,14 @@ struct ToQuantumComputationPattern final : mlir::OpRewritePattern<AllocOp> {
     } else if (llvm::isa<HOp>(op.getOperation())) {
       type = qc::OpType::H;
     }
-    auto operation = qc::StandardOperation(
-        qc::Controls{ctrlInsIndices.cbegin(), ctrlInsIndices.cend()},
-        targetIndex, type);
+    qc::Controls controls{};
+    const auto numPosCtrls = op.getPosCtrlQubits().size();
+    for (size_t i = 0; i < ctrlInsIndices.size(); i++) {
+      controls.emplace(ctrlInsIndices[i], i < numPosCtrls
+                                              ? qc::Control::Type::Pos
+                                              : qc::Control::Type::Neg);
+    }
+    auto operation = qc::StandardOperation(controls, targetIndex, type);
     circuit.push_back(operation);
   }
 
-- 
2.43.0


From 5402c3873a52f49c27a5d326864f97d5e5574ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:14 +0000
Subject: [PATCH 148/163] fix: a circuit with symbolic gates can be asked
 whether it is dynamic

---
 src/ir/QuantumComputation.cpp | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index 14f7d38..cd8cd27 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -1365,13 +1365,6 @@ bool isDynamicCircuit(const std::unique_ptr<Operation>* op,
     return true;
   }
 
-  if (it->isStandardOperation()) {
-    // Whenever a qubit has already been measured, the circuit is dynamic
-    const auto& usedQubits = it->getUsedQubits();
-    return std::any_of(usedQubits.cbegin(), usedQubits.cend(),
-                       [&measured](const auto& q) { return measured[q]; });
-  }
-
   if (it->getType() == Measure) {
     for (const auto& b : it->getTargets()) {
       measured[b] = true;
@@ -1379,11 +1372,17 @@ bool isDynamicCircuit(const std::unique_ptr<Operation>* op,
     return false;
   }
 
-  assert(it->isCompoundOperation());
-  const auto& compOp = dynamic_cast<const CompoundOperation&>(*it);
-  return std::any_of(
-      compOp.cbegin(), compOp.cend(),
-      [&measured](const auto& g) { return isDynamicCircuit(&g, measured); });
+  if (it->isCompoundOperation()) {
+    const auto& compOp = dynamic_cast<const CompoundOperation&>(*it);
+    return std::any_of(
+        compOp.cbegin(), compOp.cend(),
+        [&measured](const auto& g) { return isDynamicCircuit(&g, measured); });
+  }
+
+  // Whenever a qubit has already been measured, the circuit is dynamic
+  const auto& usedQubits = it->getUsedQubits();
+  return std::any_of(usedQubits.cbegin(), usedQubits.cend(),
+                     [&measured](const auto& q) { return measured[q]; });
 }
 } // namespace
 
-- 
2.43.0


From c6586e888de831e9dc197c1180305985089d8005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:07 +0000
Subject: [PATCH 149/163] fix: unwrapping a group counts the classical bits of
 nested and conditional operations

---
 src/ir/QuantumComputation.cpp | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index cd8cd27..7b43022 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -1384,6 +1384,30 @@ bool isDynamicCircuit(const std::unique_ptr<Operation>* op,
   return std::any_of(usedQubits.cbegin(), usedQubits.cend(),
                      [&measured](const auto& q) { return measured[q]; });
 }
+
+/// Raises the index to the highest classical bit the operation refers to
+void updateMaxBitIndex(const Operation& op, Bit& maxBitIndex) {
+  if (op.isCompoundOperation()) {
+    for (const auto& g : dynamic_cast<const CompoundOperation&>(op)) {
+      updateMaxBitIndex(*g, maxBitIndex);
+    }
+  } else if (op.getType() == Measure) {
+    for (const auto& c :
+         dynamic_cast<const NonUnitaryOperation&>(op).getClassics()) {
+      maxBitIndex = std::max(maxBitIndex, c);
+    }
+  } else if (op.isClassicControlledOperation()) {
+    const auto& ccop = dynamic_cast<const ClassicControlledOperation&>(op);
+    if (const auto& reg = ccop.getControlRegister();
+        reg.has_value() && reg->getSize() > 0) {
+      maxBitIndex =
+          std::max<Bit>(maxBitIndex, reg->getStartIndex() + reg->getSize() - 1);
+    }
+    if (const auto& bit = ccop.getControlBit(); bit.has_value()) {
+      maxBitIndex = std::max(maxBitIndex, *bit);
+    }
+  }
+}
 } // namespace
 
 bool QuantumComputation::isDynamic() const {
@@ -1409,14 +1433,8 @@ QuantumComputation::fromCompoundOperation(const CompoundOperation& op) {
       maxQubitIndex = std::max(maxQubitIndex, q);
     }
 
-    if (g->getType() == Measure) {
-      // update the maximum classical bit index
-      const auto& measureOp = dynamic_cast<const NonUnitaryOperation&>(*g);
-      const auto& classics = measureOp.getClassics();
-      for (const auto& c : classics) {
-        maxBitIndex = std::max(maxBitIndex, c);
-      }
-    }
+    // update the maximum classical bit index
+    updateMaxBitIndex(*g, maxBitIndex);
   }
 
   // The following also sets the initial layout and the output permutation
-- 
2.43.0


From 021e4328b15251fe06e39226ff36ab55ca0e3739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:33 +0000
Subject: [PATCH 150/163] fix: the verifier checks the number of targets and
 parameters of gates

---
 mlir/include/mlir/Dialect/MQTOpt/IR/MQTOptTraits.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mlir/include/mlir/Dialect/MQTOpt/IR/MQTOptTraits.h b/mlir/include/mlir/Dialect/MQTOpt/IR/MQTOptTraits.h
index 128b2d7..be0e9fb 100644
--- a/mlir/include/mlir/Dialect/MQTOpt/IR/MQTOptTraits.h
+++ b/mlir/include/mlir/Dialect/MQTOpt/IR/MQTOptTraits.h
@@ -20,6 +20,7 @@ template <size_t N> class TargetArity {
 public:
   template <typename ConcreteOp>
   class Impl : public mlir::OpTrait::TraitBase<ConcreteOp, Impl> {
+  public:
     [[nodiscard]] static mlir::LogicalResult verifyTrait(mlir::Operation* op) {
       auto unitaryOp = mlir::cast<ConcreteOp>(op);
       if (const auto size = unitaryOp.getInQubits().size(); size != N) {
@@ -35,6 +36,7 @@ template <size_t N> class ParameterArity {
 public:
   template <typename ConcreteOp>
   class Impl : public mlir::OpTrait::TraitBase<ConcreteOp, Impl> {
+  public:
     [[nodiscard]] static mlir::LogicalResult verifyTrait(mlir::Operation* op) {
       auto paramOp = mlir::cast<ConcreteOp>(op);
       const auto& params = paramOp.getParams();
-- 
2.43.0


From d3aee5d4ebe8a7f3ad7c3ffd442a49183fb7466f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:33 +0000
Subject: [PATCH 151/163] fix: the verifier copes with a parameter mask without
 static parameters

---
 mlir/include/mlir/Dialect/MQTOpt/IR/MQTOptTraits.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mlir/include/mlir/Dialect/MQTOpt/IR/MQTOptTraits.h b/mlir/include/mlir/Dialect/MQTOpt/IR/MQTOptTraits.h
index be0e9fb..aa4960a 100644
--- a/mlir/include/mlir/Dialect/MQTOpt/IR/MQTOptTraits.h
+++ b/mlir/include/mlir/Dialect/MQTOpt/IR/MQTOptTraits.h
@@ -67,7 +67,9 @@ public:
                                     "a parameter mask with "
                                  << trueEntries << " true entries";
         }
-        if (const auto size = staticParams->size(); size != trueEntries) {
+        if (const auto size =
+                staticParams.has_value() ? staticParams->size() : 0;
+            static_cast<std::size_t>(size) != trueEntries) {
           return op->emitError()
                  << "operation has " << size
                  << " static parameter(s) but has a parameter mask with "
-- 
2.43.0


From 7e2afb1836f63fe5a9109dfe79f1feb3639d985e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:33 +0000
Subject: [PATCH 152/163] fix: the verifier accepts controlled global phase
 gates

---
 mlir/include/mlir/Dialect/MQTOpt/IR/MQTOptOps.td | 2 +-
 mlir/lib/Dialect/MQTOpt/IR/MQTOptOps.cpp         | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mlir/include/mlir/Dialect/MQTOpt/IR/MQTOptOps.td b/mlir/include/mlir/Dialect/MQTOpt/IR/MQTOptOps.td
index c6c0572..4e1090b 100644
--- a/mlir/include/mlir/Dialect/MQTOpt/IR/MQTOptOps.td
+++ b/mlir/include/mlir/Dialect/MQTOpt/IR/MQTOptOps.td
@@ -148,7 +148,7 @@ def GPhaseOp : UnitaryOp<"GPhase", [NoTarget, OneParameter]> {
         An analogous example can be seen in the description of XOp.
     }];
 
-    // This operation has a verifier that checks if the gate has no input or output
+    // This operation has a verifier that checks if the gate has no target
     // qubits. It is implemented in the corresponding .cpp file.
     let hasVerifier = 1;
 }
diff --git a/mlir/lib/Dialect/MQTOpt/IR/MQTOptOps.cpp b/mlir/lib/Dialect/MQTOpt/IR/MQTOptOps.cpp
index d426506..c01ee8c 100644
--- a/mlir/lib/Dialect/MQTOpt/IR/MQTOptOps.cpp
+++ b/mlir/lib/Dialect/MQTOpt/IR/MQTOptOps.cpp
@@ -65,9 +65,9 @@ void mqt::ir::opt::MQTOptDialect::initialize() {
 namespace mqt::ir::opt {
 
 mlir::LogicalResult GPhaseOp::verify() {
-  if (!getInQubits().empty() || !getOutQubits().empty()) {
-    return emitOpError() << "GPhase gate should not have neither input nor "
-                         << "output qubits";
+  // the only qubits of the gate are its controls, if any
+  if (!getInQubits().empty()) {
+    return emitOpError() << "GPhase gate should not have any target qubits";
   }
   return mlir::success();
 }
-- 
2.43.0


From d21c65f68f47f64e16f28e6863194998d74c1463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:29 +0000
Subject: [PATCH 153/163] fix: the verifier refuses measurements with a result
 too many

---
 mlir/lib/Dialect/MQTOpt/IR/MQTOptOps.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mlir/lib/Dialect/MQTOpt/IR/MQTOptOps.cpp b/mlir/lib/Dialect/MQTOpt/IR/MQTOptOps.cpp
index c01ee8c..84c3865 100644
--- a/mlir/lib/Dialect/MQTOpt/IR/MQTOptOps.cpp
+++ b/mlir/lib/Dialect/MQTOpt/IR/MQTOptOps.cpp
@@ -85,6 +85,11 @@ mlir::LogicalResult MeasureOp::verify() {
                          << ") " << "and output qubits ("
                          << getOutQubits().size() << ") must be the same";
   }
+  if (getOperation()->getNumResults() != 2 * getInQubits().size()) {
+    return emitOpError() << "expected one qubit and one bit as results for "
+                         << "each of the " << getInQubits().size()
+                         << " input qubits";
+  }
   return mlir::success();
 }
 
-- 
2.43.0


From 337915bdb9b48a9e6b804e71d75b0e17ad68b23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:30 +0000
Subject: [PATCH 154/163] fix: operations without qubits can be read back as
 printed

---
 mlir/include/mlir/Dialect/MQTOpt/IR/MQTOptOps.td | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlir/include/mlir/Dialect/MQTOpt/IR/MQTOptOps.td b/mlir/include/mlir/Dialect/MQTOpt/IR/MQTOptOps.td
index 4e1090b..2c317fa 100644
--- a/mlir/include/mlir/Dialect/MQTOpt/IR/MQTOptOps.td
+++ b/mlir/include/mlir/Dialect/MQTOpt/IR/MQTOptOps.td
@@ -132,7 +132,7 @@ class UnitaryOp<string mnemonic, list<Trait> traits = []> :
 
     let assemblyFormat = [{
         `(` $params ( `static` $static_params^ )? ( `mask` $params_mask^ )? `)` attr-dict $in_qubits ( `ctrl` $pos_ctrl_qubits^ )? ( `nctrl` $neg_ctrl_qubits^ )?
-        `:` type($out_qubits)
+        ( `:` type($out_qubits)^ )?
     }];
 }
 
-- 
2.43.0


From 7343663865332bb1718ffbd494464afd4be30c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:28 +0000
Subject: [PATCH 155/163] fix: static parameters are printed in full precision

---
 .../mlir/Dialect/MQTOpt/IR/MQTOptOps.td       |  2 +-
 mlir/lib/Dialect/MQTOpt/IR/MQTOptOps.cpp      | 43 +++++++++++++++++++
 2 files changed, 44 insertions(+), 1 deletion(-)

diff --git a/mlir/include/mlir/Dialect/MQTOpt/IR/MQTOptOps.td b/mlir/include/mlir/Dialect/MQTOpt/IR/MQTOptOps.td
index 2c317fa..1829d98 100644
--- a/mlir/include/mlir/Dialect/MQTOpt/IR/MQTOptOps.td
+++ b/mlir/include/mlir/Dialect/MQTOpt/IR/MQTOptOps.td
@@ -131,7 +131,7 @@ class UnitaryOp<string mnemonic, list<Trait> traits = []> :
     );
 
     let assemblyFormat = [{
-        `(` $params ( `static` $static_params^ )? ( `mask` $params_mask^ )? `)` attr-dict $in_qubits ( `ctrl` $pos_ctrl_qubits^ )? ( `nctrl` $neg_ctrl_qubits^ )?
+        `(` $params ( `static` custom<StaticParams>($static_params)^ )? ( `mask` $params_mask^ )? `)` attr-dict $in_qubits ( `ctrl` $pos_ctrl_qubits^ )? ( `nctrl` $neg_ctrl_qubits^ )?
         ( `:` type($out_qubits)^ )?
     }];
 }
diff --git a/mlir/lib/Dialect/MQTOpt/IR/MQTOptOps.cpp b/mlir/lib/Dialect/MQTOpt/IR/MQTOptOps.cpp
index 84c3865..17ffa0c 100644
--- a/mlir/lib/Dialect/MQTOpt/IR/MQTOptOps.cpp
+++ b/mlir/lib/Dialect/MQTOpt/IR/MQTOptOps.cpp
@@ -12,6 +12,9 @@
 
 // The following headers are needed for some template instantiations.
 // IWYU pragma: begin_keep
+#include <llvm/ADT/APFloat.h>
+#include <llvm/ADT/STLExtras.h>
+#include <llvm/ADT/SmallVector.h>
 #include <llvm/ADT/TypeSwitch.h>
 #include <mlir/IR/Builders.h>
 #include <mlir/IR/DialectImplementation.h>
@@ -51,6 +54,46 @@ void mqt::ir::opt::MQTOptDialect::initialize() {
 
 #include "mlir/Dialect/MQTOpt/IR/MQTOptInterfaces.cpp.inc"
 
+//===----------------------------------------------------------------------===//
+// Custom assembly directives
+//===----------------------------------------------------------------------===//
+
+namespace mqt::ir::opt {
+namespace {
+
+/// Prints the parameters such that reading them back yields the same values;
+/// the generic format of arrays only prints six significant digits.
+void printStaticParams(mlir::OpAsmPrinter& printer, mlir::Operation* /*op*/,
+                       mlir::DenseF64ArrayAttr params) {
+  printer << '[';
+  llvm::interleaveComma(params.asArrayRef(), printer, [&](const double param) {
+    printer.printFloat(llvm::APFloat(param));
+  });
+  printer << ']';
+}
+
+mlir::ParseResult parseStaticParams(mlir::OpAsmParser& parser,
+                                    mlir::DenseF64ArrayAttr& params) {
+  llvm::SmallVector<double> values;
+  const auto parseParam = [&]() -> mlir::ParseResult {
+    llvm::APFloat value(0.);
+    if (parser.parseFloat(llvm::APFloat::IEEEdouble(), value)) {
+      return mlir::failure();
+    }
+    values.push_back(value.convertToDouble());
+    return mlir::success();
+  };
+  if (parser.parseCommaSeparatedList(mlir::AsmParser::Delimiter::Square,
+                                     parseParam)) {
+    return mlir::failure();
+  }
+  params = parser.getBuilder().getDenseF64ArrayAttr(values);
+  return mlir::success();
+}
+
+} // namespace
+} // namespace mqt::ir::opt
+
 //===----------------------------------------------------------------------===//
 // Operations
 //===----------------------------------------------------------------------===//
-- 
2.43.0


From 2cd648375238db6902783bba7a345e6b613d7398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:15 +0000
Subject: [PATCH 156/163] fix: metrics that became unused can be compared

---
 src/mqt/core/dd_evaluation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mqt/core/dd_evaluation.py b/src/mqt/core/dd_evaluation.py
index faf290e..19a986f 100644
--- a/src/mqt/core/dd_evaluation.py
+++ b/src/mqt/core/dd_evaluation.py
@@ -139,7 +139,10 @@ def __aggregate(baseline_filepath: str | PathLike[str], feature_filepath: str |
         if value == "unused":
             value = float("nan")
         if k in flattened_feature:
-            ls = [value, flattened_feature[k]]
+            feature_value = flattened_feature[k]
+            if feature_value == "unused":
+                feature_value = float("nan")
+            ls = [value, feature_value]
             flattened_data[k] = ls
             del flattened_feature[k]
         else:
-- 
2.43.0


From f6ce58bdb860a089414df06c4ebe23aa9ac16a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:15 +0000
Subject: [PATCH 157/163] fix: the comparison in one table can be restricted to
 changes

---
 src/mqt/core/dd_evaluation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mqt/core/dd_evaluation.py b/src/mqt/core/dd_evaluation.py
index 19a986f..5a71147 100644
--- a/src/mqt/core/dd_evaluation.py
+++ b/src/mqt/core/dd_evaluation.py
@@ -214,7 +214,8 @@ def __print_results(
     if no_split:
         if only_changed:
             print(df[m1 | m2].sort_values(by=sort_indices).to_markdown(index=False, stralign="right"))
-        print(df.sort_values(by=sort_indices).to_markdown(index=False, stralign="right"))
+        else:
+            print(df.sort_values(by=sort_indices).to_markdown(index=False, stralign="right"))
         return
 
     print(f"\n{_BColors.OKGREEN}Benchmarks that have improved:{_BColors.ENDC}\n")
-- 
2.43.0


From 5e2baddcc4e4f04ac646eb514667667545f0007f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:47 +0000
Subject: [PATCH 158/163] fix: the adjacency matrix has a row for every vertex
 after removals

---
 src/zx/ZXDiagram.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zx/ZXDiagram.cpp b/src/zx/ZXDiagram.cpp
index e70c247..e012fdf 100644
--- a/src/zx/ZXDiagram.cpp
+++ b/src/zx/ZXDiagram.cpp
@@ -390,7 +390,8 @@ void ZXDiagram::addGlobalPhase(const PiExpression& phase) {
 }
 
 gf2Mat ZXDiagram::getAdjMat() const {
-  gf2Mat adjMat{nvertices, gf2Vec(nvertices, false)};
+  // vertices keep their index when others are removed
+  gf2Mat adjMat(vertices.size(), gf2Vec(vertices.size(), false));
   for (const auto& [from, to] : getEdges()) {
     adjMat[from][to] = true;
     adjMat[to][from] = true;
-- 
2.43.0


From c09b3b00fcba09778d09c2feb1444f1fc06088f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:47 +0000
Subject: [PATCH 159/163] fix: phases slightly above -pi are rounded to pi

---
 src/zx/Utils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zx/Utils.cpp b/src/zx/Utils.cpp
index f175598..b9f0f54 100644
--- a/src/zx/Utils.cpp
+++ b/src/zx/Utils.cpp
@@ -168,7 +168,8 @@ void roundToClifford(PiExpression& expr, const fp tolerance) {
     expr.setConst(PiRational(1, 2));
   } else if (expr.getConst().isCloseDivPi(-0.5, tolerance)) {
     expr.setConst(PiRational(-1, 2));
-  } else if (expr.getConst().isCloseDivPi(1, tolerance)) {
+  } else if (expr.getConst().isCloseDivPi(1, tolerance) ||
+             expr.getConst().isCloseDivPi(-1, tolerance)) {
     expr.setConst(PiRational(1, 1));
   }
 }
-- 
2.43.0


From ee97d4f035e5198d97f4b1d9dd3f2fb3b2e5a048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:39 +0000
Subject: [PATCH 160/163] fix: shuttling operations are printed in full and to
 any stream

---
 src/ir/operations/AodOperation.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/ir/operations/AodOperation.cpp b/src/ir/operations/AodOperation.cpp
index 01950b3..59e99f3 100644
--- a/src/ir/operations/AodOperation.cpp
+++ b/src/ir/operations/AodOperation.cpp
@@ -20,7 +20,6 @@
 #include <cstddef>
 #include <cstdint>
 #include <iomanip>
-#include <ios>
 #include <limits>
 #include <ostream>
 #include <sstream>
@@ -39,6 +38,7 @@ AodOperation::AodOperation(qc::OpType s, std::vector<qc::Qubit> qubits,
 
 std::string SingleOperation::toQASMString() const {
   std::stringstream ss;
+  ss << std::setprecision(std::numeric_limits<qc::fp>::digits10);
   ss << static_cast<std::size_t>(dir) << ", " << start << ", " << end << "; ";
   return ss.str();
 }
@@ -136,17 +136,19 @@ void AodOperation::dumpOpenQASM(
   of << name;
   // write AOD operations
   of << " (";
+  std::string ops;
   for (const auto& op : operations) {
-    of << op.toQASMString();
+    ops += op.toQASMString();
   }
-  // remove last semicolon
-  of.seekp(-1, std::ios_base::end);
-  of << ")";
+  // remove the trailing space
+  if (!ops.empty()) {
+    ops.pop_back();
+  }
+  of << ops << ")";
   // write qubit start
-  for (const auto& qubit : targets) {
-    of << " " << qubitMap.at(qubit).second << ",";
+  for (std::size_t i = 0; i < targets.size(); ++i) {
+    of << (i == 0 ? " " : ", ") << qubitMap.at(targets[i]).second;
   }
-  of.seekp(-1, std::ios_base::end);
   of << ";\n";
 }
 
-- 
2.43.0


From 5e127aa27414a0543e6b9b295b0e80adbc6e0761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:39 +0000
Subject: [PATCH 161/163] fix: inverted shuttling operations report their new
 name

---
 src/ir/operations/AodOperation.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ir/operations/AodOperation.cpp b/src/ir/operations/AodOperation.cpp
index 59e99f3..3ec8ca0 100644
--- a/src/ir/operations/AodOperation.cpp
+++ b/src/ir/operations/AodOperation.cpp
@@ -162,6 +162,7 @@ void AodOperation::invert() {
   } else if (type == qc::OpType::AodDeactivate) {
     type = qc::OpType::AodActivate;
   }
+  name = toString(type);
 }
 
 } // namespace na
-- 
2.43.0


From 5396a4f6ed9d15a945341b9ca543a06ef3dc8f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:39 +0000
Subject: [PATCH 162/163] fix: shuttling operations with different movements
 are not equal

---
 include/mqt-core/ir/operations/AodOperation.hpp |  7 +++++++
 src/ir/operations/AodOperation.cpp              | 15 +++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/include/mqt-core/ir/operations/AodOperation.hpp b/include/mqt-core/ir/operations/AodOperation.hpp
index ad14379..5099d48 100644
--- a/include/mqt-core/ir/operations/AodOperation.hpp
+++ b/include/mqt-core/ir/operations/AodOperation.hpp
@@ -11,6 +11,7 @@
 #pragma once
 
 #include "ir/Definitions.hpp"
+#include "ir/Permutation.hpp"
 #include "ir/Register.hpp"
 #include "ir/operations/Control.hpp"
 #include "ir/operations/OpType.hpp"
@@ -82,6 +83,12 @@ public:
 
   [[nodiscard]] std::vector<qc::fp> getDistances(Dimension dir) const;
 
+  [[nodiscard]] bool equals(const Operation& op, const qc::Permutation& perm1,
+                            const qc::Permutation& perm2) const override;
+  [[nodiscard]] bool equals(const Operation& op) const override {
+    return equals(op, {}, {});
+  }
+
   void dumpOpenQASM(std::ostream& of,
                     const qc::QubitIndexToRegisterMap& qubitMap,
                     const qc::BitIndexToRegisterMap& bitMap, std::size_t indent,
diff --git a/src/ir/operations/AodOperation.cpp b/src/ir/operations/AodOperation.cpp
index 3ec8ca0..2761b43 100644
--- a/src/ir/operations/AodOperation.cpp
+++ b/src/ir/operations/AodOperation.cpp
@@ -11,8 +11,10 @@
 #include "ir/operations/AodOperation.hpp"
 
 #include "ir/Definitions.hpp"
+#include "ir/Permutation.hpp"
 #include "ir/Register.hpp"
 #include "ir/operations/OpType.hpp"
+#include "ir/operations/Operation.hpp"
 
 #include <algorithm>
 #include <cassert>
@@ -152,6 +154,19 @@ void AodOperation::dumpOpenQASM(
   of << ";\n";
 }
 
+bool AodOperation::equals(const Operation& op, const qc::Permutation& perm1,
+                          const qc::Permutation& perm2) const {
+  const auto* other = dynamic_cast<const AodOperation*>(&op);
+  if (other == nullptr || !Operation::equals(op, perm1, perm2)) {
+    return false;
+  }
+  return std::equal(
+      operations.begin(), operations.end(), other->operations.begin(),
+      other->operations.end(), [](const auto& a, const auto& b) {
+        return a.dir == b.dir && a.start == b.start && a.end == b.end;
+      });
+}
+
 void AodOperation::invert() {
   if (type == qc::OpType::AodMove) {
     for (auto& op : operations) {
-- 
2.43.0


From 4546e928990788592affa637a8e596d9050e0cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:26 +0000
Subject: [PATCH 163/163] fix: a group is global only if all of its operations
 qualify

---
 src/ir/operations/CompoundOperation.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ir/operations/CompoundOperation.cpp b/src/ir/operations/CompoundOperation.cpp
index ffdea4c..4fb731b 100644
--- a/src/ir/operations/CompoundOperation.cpp
+++ b/src/ir/operations/CompoundOperation.cpp
@@ -77,12 +77,16 @@ bool CompoundOperation::isCompoundOperation() const noexcept { return true; }
 bool CompoundOperation::isCustomGate() const noexcept { return customGate; }
 
 bool CompoundOperation::isGlobal(const size_t nQubits) const noexcept {
+  if (ops.empty()) {
+    return false;
+  }
   const auto& params = ops.front()->getParameter();
   const auto& t = ops.front()->getType();
   return getUsedQubits().size() == nQubits &&
-         std::all_of(ops.cbegin() + 1, ops.cend(), [&](const auto& operation) {
+         std::all_of(ops.cbegin(), ops.cend(), [&](const auto& operation) {
            return operation->isStandardOperation() &&
-                  operation->getNcontrols() == 0 && operation->getType() == t &&
+                  (ops.size() == 1 || operation->getNcontrols() == 0) &&
+                  operation->getType() == t &&
                   operation->getParameter() == params;
          });
 }
-- 
2.43.0

