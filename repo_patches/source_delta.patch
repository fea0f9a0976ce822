From 4206e645d1bae4a692903bd89662381f4b6f49d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:00 +0000
Subject: [PATCH 01/85] fix: keep the repeated argument of a 2-out-of-3 gate
 with a duplicate

---
 src/pdag.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pdag.cc b/src/pdag.cc
index 7c9e6a9..fb87bdd 100644
--- a/src/pdag.cc
+++ b/src/pdag.cc
@@ -366,7 +366,8 @@ void Gate::ProcessAtleastGateDuplicateArg(int index) noexcept {
   assert(args_.size() >= min_number_);
   if (args_.size() == 2) {  // @(2, [x, x, z]) = x
     assert(min_number_ == 2);
-    this->EraseArg(index);
+    int other = *args_.begin() == index ? *args_.rbegin() : *args_.begin();
+    this->EraseArg(other);
     this->type(kNull);
     return;
   }
-- 
2.43.0


From 23ce90d296bc4d4488fc4945e40d8a5573020ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:00 +0000
Subject: [PATCH 02/85] fix: build one-argument cardinality gates as
 pass-through

---
 src/pdag.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pdag.cc b/src/pdag.cc
index fb87bdd..0e268bf 100644
--- a/src/pdag.cc
+++ b/src/pdag.cc
@@ -681,6 +681,8 @@ GatePtr Pdag::ConstructComplexGate(const mef::Formula& formula, bool ccf,
       auto well_form = [](Gate* atleast) {
         if (atleast->min_number() == 0) {
           atleast->MakeConstant(true);
+        } else if (atleast->args().size() == 1) {
+          atleast->type(kNull);
         } else if (atleast->min_number() == 1) {
           atleast->type(kOr);
         } else if (atleast->min_number() == atleast->args().size()) {
-- 
2.43.0


From 30785dcffc84b7173d416a98bb9649e8cf901e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:00 +0000
Subject: [PATCH 03/85] fix: mark the gate that becomes the PDAG root as a
 module

---
 src/pdag.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pdag.cc b/src/pdag.cc
index 0e268bf..b7a01a3 100644
--- a/src/pdag.cc
+++ b/src/pdag.cc
@@ -776,6 +776,8 @@ bool Pdag::IsTrivial() noexcept {
     root_ = root_->args<Gate>().begin()->second;  // Destroy the previous root.
     assert(root_->parents().empty() && !root_->constant() &&
            root_->type() != kNull);
+    if (!root_->module())
+      root_->module(true);  // The root gate is always a module.
     complement() ^= signed_index < 0;
     return false;
   }
-- 
2.43.0


From b8224d8eb654ec587d13458eaf216ffbc5699249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:00 +0000
Subject: [PATCH 04/85] fix: remove the NULL gates left by merge candidate
 filtering

---
 src/preprocessor.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/preprocessor.cc b/src/preprocessor.cc
index 9a03e14..3a0a26f 100644
--- a/src/preprocessor.cc
+++ b/src/preprocessor.cc
@@ -1132,10 +1132,9 @@ bool Preprocessor::MergeCommonArgs(Connective op) noexcept {
     if (candidates.size() < 2)
       continue;
     FilterMergeCandidates(&candidates);
-    if (candidates.size() < 2)
-      continue;
     std::vector<MergeTable::Candidates> groups;
-    GroupCandidatesByArgs(&candidates, &groups);
+    if (candidates.size() > 1)
+      GroupCandidatesByArgs(&candidates, &groups);
     for (const auto& group : groups) {
       // Finding common parents for the common arguments.
       MergeTable::Collection parents;
@@ -1152,6 +1151,10 @@ bool Preprocessor::MergeCommonArgs(Connective op) noexcept {
         TransformCommonArgs(&member_group);
       }
     }
+    // Release the gates that may become constant.
+    root.reset();
+    candidates.clear();
+    groups.clear();
     graph_->RemoveNullGates();
   }
   return changed;
-- 
2.43.0


From a6ce321ebd214f5b6b80b600b06101e6101a4197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:00 +0000
Subject: [PATCH 05/85] fix: release gates before the removal of constants in
 preprocessing

---
 src/preprocessor.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/preprocessor.cc b/src/preprocessor.cc
index 3a0a26f..57e34a2 100644
--- a/src/preprocessor.cc
+++ b/src/preprocessor.cc
@@ -771,6 +771,7 @@ bool Preprocessor::ProcessMultipleDefinitions() noexcept {
       ReplaceGate(duplicate.lock(), def.first);
     }
   }
+  multi_def.clear();  // Release the gates that may become constant.
   graph_->RemoveNullGates();
   return true;
 }
@@ -1875,6 +1876,7 @@ void Preprocessor::ProcessCommonNode(
   }
   ClearStateMarks(root);
   node->opti_value(0);
+  root.reset();  // Don't keep the gate alive if it becomes constant.
   graph_->RemoveNullGates();
 }
 
-- 
2.43.0


From 60824352672562d44601be3aeab8ebcf61e2540e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:00 +0000
Subject: [PATCH 06/85] fix: register the former pass-through root in Boolean
 optimization

---
 src/preprocessor.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/preprocessor.cc b/src/preprocessor.cc
index 57e34a2..6a9b83a 100644
--- a/src/preprocessor.cc
+++ b/src/preprocessor.cc
@@ -2084,6 +2084,8 @@ void Preprocessor::ProcessStateDestinations(
       ReplaceGate(target, new_gate);
     }
     new_gate->AddArg(target);  // Only after replacing target!
+    if (target->type() == kNull)
+      target->type(kNull);  // Register the pass-through gate of the old root.
     new_gate->descendant(node->index());  // Preserve continuity.
   }
 }
-- 
2.43.0


From 23cc18c68b3e8489ff9fe98a7c9bb3009543c315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:01 +0000
Subject: [PATCH 07/85] fix: skip new gates without timing in decomposition

---
 src/preprocessor.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/preprocessor.cc b/src/preprocessor.cc
index 6a9b83a..2de5452 100644
--- a/src/preprocessor.cc
+++ b/src/preprocessor.cc
@@ -2223,6 +2223,10 @@ bool Preprocessor::DecompositionProcessor::ProcessDestinations(
     if (!node_->parents().count(parent->index()))
       continue;
 
+    // The gate may be created by the decomposition of other nodes.
+    if (!parent->EnterTime())
+      continue;  // No timing to find its subgraph.
+
     bool state = false;  // State for the constant propagation.
     switch (parent->type()) {
       case kAnd:
-- 
2.43.0


From ec27de78c599f2dc7c423dfefbb0c314409aadeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:01 +0000
Subject: [PATCH 08/85] fix: use constant functions of modules directly in BDD

---
 src/bdd.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bdd.cc b/src/bdd.cc
index acb4448..6559b78 100644
--- a/src/bdd.cc
+++ b/src/bdd.cc
@@ -155,7 +155,7 @@ Bdd::Function Bdd::ConvertGraph(
   }
   for (const Gate::ConstArg<Gate>& arg : gate.args<Gate>()) {
     Function res = ConvertGraph(arg.second, gates);
-    if (arg.second.module()) {
+    if (arg.second.module() && !res.vertex->terminal()) {
       args.push_back(
           {arg.first < 0, FindOrAddVertex(arg.second, kOne_, kOne_, true)});
     } else {
-- 
2.43.0


From f58c054672afde9578d70565067c968c7e621410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:01 +0000
Subject: [PATCH 09/85] fix: keep Unity modules at the zero order limit in ZBDD
 from BDD

---
 src/zbdd.cc | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/zbdd.cc b/src/zbdd.cc
index ee63ff6..0e11bce 100644
--- a/src/zbdd.cc
+++ b/src/zbdd.cc
@@ -288,11 +288,8 @@ Zbdd::VertexPtr Zbdd::ConvertBdd(const ItePtr& ite, bool complement,
                                      ites);
   VertexPtr low = ConvertBdd(ite->low(), ite->complement_edge() ^ complement,
                              bdd_graph, limit_order, ites);
-  if (limit_order == 0) {  // Cut-off on the set order.
-    if (low->terminal())
-      return low;
-    return kEmpty_;
-  }
+  if (limit_order == 0)  // Cut-off on the set order.
+    return low;  // May only be terminal or contain modules that may be Unity.
   VertexPtr high =
       ConvertBdd(ite->high(), complement, bdd_graph, --limit_order, ites);
   return GetReducedVertex(ite, false, high, low);
@@ -304,15 +301,14 @@ Zbdd::VertexPtr Zbdd::ConvertBddPrimeImplicants(
   Bdd::Function common = Bdd::Consensus()(bdd_graph, ite, complement);
   VertexPtr consensus = ConvertBdd(common.vertex, common.complement, bdd_graph,
                                    limit_order, ites);
-  if (limit_order == 0) {  // Cut-off on the product order.
-    if (consensus->terminal())
-      return consensus;
-    return kEmpty_;
-  }
   int sublimit = limit_order - 1;  // Assumes non-Unity element.
   if (ite->module() && !kSettings_.prime_implicants()) {
     assert(!ite->coherent() && "Only non-coherent modules through PI.");
     sublimit += 1;  // Unity modules may happen with minimal cut sets.
+  } else if (limit_order == 0) {  // Cut-off on the product order.
+    if (consensus->terminal())
+      return consensus;
+    return kEmpty_;
   }
   VertexPtr high =
       ConvertBdd(ite->high(), complement, bdd_graph, sublimit, ites);
-- 
2.43.0


From e23cba312b2d52c0193b4ecae87a36bdaa5f0bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:01 +0000
Subject: [PATCH 10/85] fix: no product for a trivial variable at the zero
 order limit

---
 src/zbdd.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zbdd.cc b/src/zbdd.cc
index 0e11bce..0bf4962 100644
--- a/src/zbdd.cc
+++ b/src/zbdd.cc
@@ -76,7 +76,7 @@ Zbdd::Zbdd(const Pdag* graph, const Settings& settings) noexcept
       root_ = child < 0 ? kEmpty_ : kBase_;
     } else if (child < 0) {
       root_ = kBase_;
-    } else {
+    } else if (kSettings_.limit_order() > 0) {
       const Variable& var = top_gate.args<Variable>().begin()->second;
       root_ = FindOrAddVertex(var.index(), kBase_, kEmpty_, var.order());
     }
-- 
2.43.0


From 7a8296b13b13157f654e3a8b0405abe5aad06fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:01 +0000
Subject: [PATCH 11/85] fix: negate MIF for complement roots of BDD

---
 src/importance_analysis.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/importance_analysis.cc b/src/importance_analysis.cc
index 8e7bff9..4225438 100644
--- a/src/importance_analysis.cc
+++ b/src/importance_analysis.cc
@@ -80,6 +80,8 @@ double ImportanceAnalyzer<Bdd>::CalculateMif(int index) noexcept {
   int order = bdd_graph_->index_to_order().find(index)->second;
   double mif = CalculateMif(root, order, !original_mark);
   bdd_graph_->ClearMarks(original_mark);
+  if (bdd_graph_->root().complement)
+    mif = -mif;
   return mif;
 }
 
-- 
2.43.0


From d30ec9343508dc8d9172ddd0eea0abb00c805c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:42 +0000
Subject: [PATCH 12/85] fix: accept CCF models with a single factor level

---
 src/ccf_group.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/ccf_group.cc b/src/ccf_group.cc
index f5cf57c..cd64cdb 100644
--- a/src/ccf_group.cc
+++ b/src/ccf_group.cc
@@ -148,7 +148,7 @@ void CcfGroup::ApplyModel() {
   }
 
   ExpressionMap probabilities = this->CalculateProbabilities();
-  assert(probabilities.size() > 1);
+  assert(!probabilities.empty());
 
   // Generate CCF events.
   for (auto& [level, prob] : probabilities) {
@@ -176,8 +176,10 @@ void CcfGroup::ApplyModel() {
 
   // Assign formulas to the proxy gates.
   for (std::pair<Gate*, Formula::ArgSet>& gate : proxy_gates) {
-    assert(gate.second.size() >= 2);
-    gate.first->formula(std::make_unique<Formula>(kOr, std::move(gate.second)));
+    assert(!gate.second.empty());
+    Connective type = gate.second.size() == 1 ? kNull : kOr;
+    gate.first->formula(
+        std::make_unique<Formula>(type, std::move(gate.second)));
   }
 }
 
@@ -256,7 +258,9 @@ CcfGroup::ExpressionMap AlphaFactorModel::CalculateProbabilities() {
     sum_args.emplace_back(CcfGroup::Register<Mul>(
         {CcfGroup::Register<ConstantExpression>(factor.first), factor.second}));
   }
-  Expression* sum = CcfGroup::Register<Add>(std::move(sum_args));
+  Expression* sum = sum_args.size() == 1
+                        ? sum_args.front()
+                        : CcfGroup::Register<Add>(std::move(sum_args));
   int num_members = CcfGroup::members().size();
 
   for (int i = 0; i < max_level; ++i) {
-- 
2.43.0


From 59c260e9595561dfca1194446f489cc1aadb1f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:42 +0000
Subject: [PATCH 13/85] fix: reject alpha-factor CCF models with all factors 0

---
 src/ccf_group.cc | 10 ++++++++++
 src/ccf_group.h  |  5 +++++
 2 files changed, 15 insertions(+)

diff --git a/src/ccf_group.cc b/src/ccf_group.cc
index cd64cdb..94db892 100644
--- a/src/ccf_group.cc
+++ b/src/ccf_group.cc
@@ -249,6 +249,16 @@ CcfGroup::ExpressionMap MglModel::CalculateProbabilities() {
   return probabilities;
 }
 
+void AlphaFactorModel::DoValidate() const {
+  if (ext::none_of(CcfGroup::factors(),
+                   [](const std::pair<int, Expression*>& factor) {
+                     return factor.second->value() > 0;
+                   })) {
+    SCRAM_THROW(
+        ValidityError("The factors for Alpha model CCF must not be all 0."));
+  }
+}
+
 CcfGroup::ExpressionMap AlphaFactorModel::CalculateProbabilities() {
   ExpressionMap probabilities;
   int max_level = CcfGroup::factors().back().first;
diff --git a/src/ccf_group.h b/src/ccf_group.h
index 4ce7ff2..dabfcd2 100644
--- a/src/ccf_group.h
+++ b/src/ccf_group.h
@@ -236,6 +236,11 @@ class AlphaFactorModel : public CcfGroup {
   using CcfGroup::CcfGroup;
 
  private:
+  /// Checks if the factors can be normalized in addition to the default checks.
+  ///
+  /// @throws ValidityError  All the factors are 0.
+  void DoValidate() const override;
+
   ExpressionMap CalculateProbabilities() override;
 };
 
-- 
2.43.0


From f544f16f44d86085d0eb9ee30eeb9b34cd741bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:58 +0000
Subject: [PATCH 14/85] fix: keep periodic-test probabilities in range upon
 rounding

The fully parametrized periodic test stopped with an assertion
when rounding errors made the availability slightly negative.
---
 src/expression/exponential.cc | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/expression/exponential.cc b/src/expression/exponential.cc
index bbe1d0a..e1e5032 100644
--- a/src/expression/exponential.cc
+++ b/src/expression/exponential.cc
@@ -22,6 +22,8 @@
 
 #include <cmath>
 
+#include <algorithm>
+
 #include "src/error.h"
 
 namespace scram::mef {
@@ -228,6 +230,13 @@ double PeriodicTest::Complete::Compute(double lambda, double lambda_test,
   double p_repair = 0;
   double p_available = 1 - p_fail;
 
+  // Keeps probabilities within the range upon floating-point rounding errors.
+  auto adjust = [&p_fail, &p_repair, &p_available] {
+    p_fail = std::clamp(p_fail, 0.0, 1.0);
+    p_repair = std::clamp(p_repair, 0.0, 1.0);
+    p_available = std::clamp(p_available, 0.0, 1.0);
+  };
+
   // Failure after repair.
   auto p_mu_lambda = [&](double p_mu, double p_lambda, double t) {
     return p_mu * omega + (1 - omega) * p_exp(p_mu, p_lambda, mu, lambda, t);
@@ -243,9 +252,7 @@ double PeriodicTest::Complete::Compute(double lambda, double lambda_test,
     p_available =
         1 - p_fail - p_repair -
         (available ? 0 : p_available * (1 - gamma) * (1 - p_lambda_test));
-    assert(p_repair >= 0 && p_repair <= 1);
-    assert(p_fail >= 0 && p_fail <= 1);
-    assert(p_available >= 0);
+    adjust();
   };
   // Time after test.
   auto p_period = [&](double p_lambda, double p_mu, double t) {
@@ -253,9 +260,7 @@ double PeriodicTest::Complete::Compute(double lambda, double lambda_test,
              p_repair * p_mu_lambda(p_mu, p_lambda, t);
     p_repair = p_repair * (1 - p_mu);
     p_available = 1 - p_fail - p_repair;
-    assert(p_repair >= 0 && p_repair <= 1);
-    assert(p_fail >= 0 && p_fail <= 1);
-    assert(p_available >= 0);
+    adjust();
   };
 
   double delta = time - theta;
-- 
2.43.0


From 43f202b00cc385723691353567e17155973c75bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:58 +0000
Subject: [PATCH 15/85] fix: compute periodic tests accurately with nearly
 equal rates

The probability of two consecutive processes lost all its digits
to cancellation when the failure and repair rates were close.
---
 src/expression/exponential.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/expression/exponential.cc b/src/expression/exponential.cc
index e1e5032..f723ace 100644
--- a/src/expression/exponential.cc
+++ b/src/expression/exponential.cc
@@ -54,8 +54,13 @@ double p_exp(double lambda, double time) {
 /// @returns The probability that the second process has occurred.
 double p_exp(double p_mu, double p_lambda, double mu, double lambda,
              double time) {
-  return lambda == mu ? p_lambda - (1 - p_lambda) * lambda * time
-                      : (lambda * p_mu - mu * p_lambda) / (lambda - mu);
+  // The probability is symmetric with regard to the order of the processes.
+  // The formulation avoids cancellation upon nearly equal rates.
+  double min_rate = std::min(lambda, mu);
+  double p_min = lambda < mu ? p_lambda : p_mu;
+  double delta = std::abs(lambda - mu);
+  double factor = delta == 0 ? time : -std::expm1(-delta * time) / delta;
+  return p_min - (1 - p_min) * min_rate * factor;
 }
 
 }  // namespace
-- 
2.43.0


From 60d805a3686dac819b00b66f47a5a649a55386f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:58 +0000
Subject: [PATCH 16/85] fix: periodic test with a vanishing failure probability
 per period

The geometric progression divided 0 by 0.
---
 src/expression/exponential.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/expression/exponential.cc b/src/expression/exponential.cc
index f723ace..0f16862 100644
--- a/src/expression/exponential.cc
+++ b/src/expression/exponential.cc
@@ -206,7 +206,8 @@ double PeriodicTest::InstantTest::Compute(double lambda, double mu, double tau,
   int num_periods = delta / tau;
   double fraction = carry(p_exp(lambda, tau), p_exp(mu, tau), tau);
   double compound = std::pow(fraction, num_periods);  // Geometric progression.
-  prob = prob * compound + p_exp(lambda, tau) * (compound - 1) / (fraction - 1);
+  double sum = fraction == 1 ? num_periods : (compound - 1) / (fraction - 1);
+  prob = prob * compound + p_exp(lambda, tau) * sum;
 
   double time_after_test = delta - num_periods * tau;
   return p_period(p_exp(lambda, time_after_test), p_exp(mu, time_after_test),
-- 
2.43.0


From d501fd9a762ebce9939e9e29c4ebeb66f97cdf68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:58 +0000
Subject: [PATCH 17/85] fix: the interval of the beta distribution is [0, 1]

The estimate with the inverted CDF was always above 1,
so that beta deviates were rejected as probabilities.
---
 src/expression/random_deviate.cc | 7 -------
 src/expression/random_deviate.h  | 4 ++--
 2 files changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/expression/random_deviate.cc b/src/expression/random_deviate.cc
index fb5e810..48dcb8c 100644
--- a/src/expression/random_deviate.cc
+++ b/src/expression/random_deviate.cc
@@ -25,7 +25,6 @@
 #include <functional>
 
 #include <boost/iterator/transform_iterator.hpp>
-#include <boost/math/special_functions/beta.hpp>
 #include <boost/math/special_functions/erf.hpp>
 #include <boost/math/special_functions/gamma.hpp>
 #include <boost/random/beta_distribution.hpp>
@@ -159,12 +158,6 @@ void BetaDeviate::Validate() const {
   }
 }
 
-Interval BetaDeviate::interval() noexcept {
-  double high_estimate =
-      std::pow(boost::math::ibeta(alpha_.value(), beta_.value(), 0.99), -1);
-  return Interval::closed(0, high_estimate);
-}
-
 double BetaDeviate::DoSample() noexcept {
   return boost::random::beta_distribution(alpha_.value(),
                                           beta_.value())(RandomDeviate::rng());
diff --git a/src/expression/random_deviate.h b/src/expression/random_deviate.h
index 3494f37..aee691e 100644
--- a/src/expression/random_deviate.h
+++ b/src/expression/random_deviate.h
@@ -233,8 +233,8 @@ class BetaDeviate : public RandomDeviate {
     return alpha_mean / (alpha_mean + beta_.value());
   }
 
-  /// @returns 99 percentile.
-  Interval interval() noexcept override;
+  /// @returns The support of the distribution.
+  Interval interval() noexcept override { return Interval::closed(0, 1); }
 
  private:
   double DoSample() noexcept override;
-- 
2.43.0


From df2bbf8322152d7386e24d74a24a13e09500a809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:58 +0000
Subject: [PATCH 18/85] fix: intervals of gamma and log-normal deviates contain
 their means

The percentile of the gamma distribution was not computed with the quantile function.
---
 src/expression/random_deviate.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/expression/random_deviate.cc b/src/expression/random_deviate.cc
index 48dcb8c..da6f01c 100644
--- a/src/expression/random_deviate.cc
+++ b/src/expression/random_deviate.cc
@@ -22,6 +22,7 @@
 
 #include <cmath>
 
+#include <algorithm>
 #include <functional>
 
 #include <boost/iterator/transform_iterator.hpp>
@@ -94,7 +95,7 @@ double LognormalDeviate::DoSample() noexcept {
 
 Interval LognormalDeviate::interval() noexcept {
   double high_estimate = std::exp(3 * flavor_->scale() + flavor_->location());
-  return Interval::left_open(0, high_estimate);
+  return Interval::left_open(0, std::max(high_estimate, flavor_->mean()));
 }
 
 double LognormalDeviate::Logarithmic::scale() noexcept {
@@ -131,10 +132,9 @@ void GammaDeviate::Validate() const {
 }
 
 Interval GammaDeviate::interval() noexcept {
-  using boost::math::gamma_q;
-  double k_max = k_.value();
+  double k = k_.value();
   double high_estimate =
-      theta_.value() * std::pow(gamma_q(k_max, gamma_q(k_max, 0) - 0.99), -1);
+      theta_.value() * std::max(k, boost::math::gamma_q_inv(k, 0.01));
   return Interval::left_open(0, high_estimate);
 }
 
-- 
2.43.0


From 05c2b8841634196631a8a4a12b4bc2de467717cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:58 +0000
Subject: [PATCH 19/85] fix: reject histograms with all zero weights

The mean was 0 / 0.
---
 src/expression/random_deviate.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/expression/random_deviate.cc b/src/expression/random_deviate.cc
index da6f01c..4e0c140 100644
--- a/src/expression/random_deviate.cc
+++ b/src/expression/random_deviate.cc
@@ -185,6 +185,11 @@ void Histogram::Validate() const {
   if (ext::any_of(weights_, [](const auto& expr) { return expr->value() < 0; }))
     SCRAM_THROW(ValidityError("Histogram weights cannot be negative."));
 
+  if (!ext::any_of(weights_,
+                   [](const auto& expr) { return expr->value() > 0; })) {
+    SCRAM_THROW(ValidityError("Histogram weights cannot be all zero."));
+  }
+
   if (!boost::is_sorted(boundaries_, [](const auto& lhs, const auto& rhs) {
         return lhs->value() <= rhs->value();
       })) {
-- 
2.43.0


From cb0c7142afe30a609ec02f9f3cd5559aafa820fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:10 +0000
Subject: [PATCH 20/85] fix: reject NaN arguments of expressions

Comparisons with NaN let it pass as a probability, a rate or a time.
Indeterminate interval bounds (infinity - infinity) failed an assertion.
---
 src/expression.cc |  6 +++---
 src/expression.h  | 37 +++++++++++++++++++++++++++++++------
 2 files changed, 34 insertions(+), 9 deletions(-)

diff --git a/src/expression.cc b/src/expression.cc
index c22f9ad..4d1690d 100644
--- a/src/expression.cc
+++ b/src/expression.cc
@@ -74,7 +74,7 @@ std::string ToString(const Interval& interval) {
 
 void EnsureProbability(Expression* expression, const char* type) {
   double value = expression->value();
-  if (value < 0 || value > 1)
+  if (!(value >= 0 && value <= 1))
     SCRAM_THROW(DomainError("Invalid " + std::string(type) + " value"))
         << errinfo_value(std::to_string(value));
 
@@ -88,7 +88,7 @@ void EnsurePositive(Expression* expression, const char* description) {
   using namespace std::string_literals;  // NOLINT
 
   double value = expression->value();
-  if (value <= 0)
+  if (!(value > 0))
     SCRAM_THROW(DomainError(description + " argument value must be positive."s))
         << errinfo_value(std::to_string(value));
 
@@ -103,7 +103,7 @@ void EnsureNonNegative(Expression* expression, const char* description) {
   using namespace std::string_literals;  // NOLINT
 
   double value = expression->value();
-  if (value < 0)
+  if (!(value >= 0))
     SCRAM_THROW(
         DomainError(description + " argument value cannot be negative."s))
         << errinfo_value(std::to_string(value));
diff --git a/src/expression.h b/src/expression.h
index b837952..9865021 100644
--- a/src/expression.h
+++ b/src/expression.h
@@ -21,7 +21,11 @@
 
 #pragma once
 
+#include <cmath>
+
 #include <algorithm>
+#include <initializer_list>
+#include <limits>
 #include <utility>
 #include <vector>
 
@@ -154,6 +158,27 @@ class ExpressionFormula : public Expression {
   }
 };
 
+namespace detail {
+
+/// Deduces the interval of an expression from its extreme values.
+///
+/// @param[in] values  The values of the expression on argument bounds.
+///
+/// @returns The closed interval containing all the values.
+///          The interval is unbounded if any of the values is indeterminate.
+inline Interval DeduceInterval(std::initializer_list<double> values) noexcept {
+  for (double value : values) {
+    if (std::isnan(value)) {
+      double inf = std::numeric_limits<double>::infinity();
+      return Interval::closed(-inf, inf);
+    }
+  }
+  auto [min_value, max_value] = std::minmax(values);
+  return Interval::closed(min_value, max_value);
+}
+
+}  // namespace detail
+
 /// n-ary expressions.
 ///
 /// @tparam T  The callable type of operation to apply to the arguments.
@@ -176,8 +201,7 @@ class NaryExpression<T, 1> : public ExpressionFormula<NaryExpression<T, 1>> {
     Interval arg_interval = expression_.interval();
     double max_value = T()(arg_interval.upper());
     double min_value = T()(arg_interval.lower());
-    auto min_max = std::minmax(max_value, min_value);
-    return Interval::closed(min_max.first, min_max.second);
+    return detail::DeduceInterval({max_value, min_value});
   }
 
   /// Computes the expression value with a given argument value extractor.
@@ -207,8 +231,7 @@ class NaryExpression<T, 2> : public ExpressionFormula<NaryExpression<T, 2>> {
     double max_min = T()(interval_one.upper(), interval_two.lower());
     double min_max = T()(interval_one.lower(), interval_two.upper());
     double min_min = T()(interval_one.lower(), interval_two.lower());
-    auto interval_pair = std::minmax({max_max, max_min, min_max, min_min});
-    return Interval::closed(interval_pair.first, interval_pair.second);
+    return detail::DeduceInterval({max_max, max_min, min_max, min_min});
   }
 
   /// Computes the expression value with a given argument value extractor.
@@ -259,8 +282,10 @@ class NaryExpression<T, -1> : public ExpressionFormula<NaryExpression<T, -1>> {
       double max_min = T()(max_value, arg_min);
       double min_max = T()(min_value, arg_max);
       double min_min = T()(min_value, arg_min);
-      std::tie(min_value, max_value) =
-          std::minmax({max_max, max_min, min_max, min_min});
+      Interval interval =
+          detail::DeduceInterval({max_max, max_min, min_max, min_min});
+      min_value = interval.lower();
+      max_value = interval.upper();
     }
     assert(min_value <= max_value);
     return Interval::closed(min_value, max_value);
-- 
2.43.0


From 8949a11f4b4bf596544d1b671c3f522dd34b7d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:22 +0000
Subject: [PATCH 21/85] fix: reject powers of negative bases with fractional
 exponents

The value or the samples were NaN.
---
 src/expression/numerical.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/expression/numerical.cc b/src/expression/numerical.cc
index 7bd94f4..6b67e64 100644
--- a/src/expression/numerical.cc
+++ b/src/expression/numerical.cc
@@ -20,6 +20,8 @@
 
 #include "numerical.h"
 
+#include <cmath>
+
 #include "src/error.h"
 
 namespace scram::mef {
@@ -64,6 +66,16 @@ void Pow::Validate() const {
         DomainError("Power expression 'base' sample range contains 0);"
                     " positive exponent is required."));
   }
+  if (arg_one->value() < 0 || !IsNonNegative(arg_one->interval())) {
+    double exponent = arg_two->value();
+    Interval exponent_interval = arg_two->interval();
+    if (exponent != std::floor(exponent) ||
+        exponent_interval.lower() != exponent_interval.upper()) {
+      SCRAM_THROW(
+          DomainError("Power expression with a negative 'base'"
+                      " requires a constant integer exponent."));
+    }
+  }
 }
 /// @endcond
 
-- 
2.43.0


From 6795a47a34661ccb919ce6b97baaabd55aaf920e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:22 +0000
Subject: [PATCH 22/85] fix: sound intervals of functions with extrema inside
 of their argument ranges

The intervals of abs, tan, cosh, mod, pow, not, and, or, eq, df
were taken from the argument bounds only,
so that values outside of the domains of other functions were accepted.
---
 src/expression/boolean.h    | 73 +++++++++++++++++++++++++++++++++++++
 src/expression/numerical.cc | 67 ++++++++++++++++++++++++++++++++++
 src/expression/numerical.h  | 15 ++++++++
 3 files changed, 155 insertions(+)

diff --git a/src/expression/boolean.h b/src/expression/boolean.h
index fb3e81f..5fc8682 100644
--- a/src/expression/boolean.h
+++ b/src/expression/boolean.h
@@ -20,6 +20,7 @@
 
 #pragma once
 
+#include <algorithm>
 #include <functional>
 
 #include "src/expression.h"
@@ -36,4 +37,76 @@ using Gt = NaryExpression<std::greater<>, 2>;  ///< (>) test.
 using Leq = NaryExpression<std::less_equal<>, 2>;  ///< (<=) test.
 using Geq = NaryExpression<std::greater_equal<>, 2>;  ///< (>=) test.
 
+namespace detail {
+
+/// @returns The range of the truth values of an argument expression.
+inline Interval TruthInterval(Expression* arg) {
+  Interval interval = arg->interval();
+  if (!Contains(interval, 0))
+    return Interval::closed(1, 1);
+  return Interval::closed(0, interval.lower() != interval.upper());
+}
+
+/// @returns The range of the equality test of two argument expressions.
+inline Interval EqualityInterval(Expression* arg_one, Expression* arg_two) {
+  Interval one = arg_one->interval();
+  Interval two = arg_two->interval();
+  if (one.upper() < two.lower() || two.upper() < one.lower())
+    return Interval::closed(0, 0);
+  bool is_point = one.lower() == one.upper() && two.lower() == two.upper();
+  return Interval::closed(is_point, 1);
+}
+
+}  // namespace detail
+
+/// @cond Doxygen_With_Smart_Using_Declaration
+/// Interval specialization for functions
+/// with extrema inside of argument intervals.
+/// @{
+template <>
+inline Interval Not::interval() noexcept {
+  Interval arg = detail::TruthInterval(Expression::args().front());
+  return Interval::closed(1 - arg.upper(), 1 - arg.lower());
+}
+
+template <>
+inline Interval And::interval() noexcept {
+  double min_value = 1;
+  double max_value = 1;
+  for (Expression* arg : Expression::args()) {
+    Interval arg_interval = detail::TruthInterval(arg);
+    min_value = std::min(min_value, arg_interval.lower());
+    max_value = std::min(max_value, arg_interval.upper());
+  }
+  return Interval::closed(min_value, max_value);
+}
+
+template <>
+inline Interval Or::interval() noexcept {
+  double min_value = 0;
+  double max_value = 0;
+  for (Expression* arg : Expression::args()) {
+    Interval arg_interval = detail::TruthInterval(arg);
+    min_value = std::max(min_value, arg_interval.lower());
+    max_value = std::max(max_value, arg_interval.upper());
+  }
+  return Interval::closed(min_value, max_value);
+}
+
+template <>
+inline Interval Eq::interval() noexcept {
+  return detail::EqualityInterval(Expression::args().front(),
+                                  Expression::args().back());
+}
+
+template <>
+inline Interval Df::interval() noexcept {
+  Interval eq =
+      detail::EqualityInterval(Expression::args().front(),
+                               Expression::args().back());
+  return Interval::closed(1 - eq.upper(), 1 - eq.lower());
+}
+/// @}
+/// @endcond
+
 }  // namespace scram::mef
diff --git a/src/expression/numerical.cc b/src/expression/numerical.cc
index 6b67e64..ba61507 100644
--- a/src/expression/numerical.cc
+++ b/src/expression/numerical.cc
@@ -22,6 +22,9 @@
 
 #include <cmath>
 
+#include <algorithm>
+#include <limits>
+
 #include "src/error.h"
 
 namespace scram::mef {
@@ -77,6 +80,70 @@ void Pow::Validate() const {
     }
   }
 }
+
+template <>
+Interval Abs::interval() noexcept {
+  Interval arg = Expression::args().front()->interval();
+  double min = std::abs(arg.lower());
+  double max = std::abs(arg.upper());
+  if (arg.lower() < 0 && arg.upper() > 0)
+    return detail::DeduceInterval({0, min, max});
+  return detail::DeduceInterval({min, max});
+}
+
+template <>
+Interval Tan::interval() noexcept {
+  Interval arg = Expression::args().front()->interval();
+  auto branch = [](double angle) {
+    return std::floor(angle / ConstantExpression::kPi.value() + 0.5);
+  };
+  if (branch(arg.lower()) != branch(arg.upper())) {  // Asymptotes.
+    double inf = std::numeric_limits<double>::infinity();
+    return Interval::closed(-inf, inf);
+  }
+  return detail::DeduceInterval({std::tan(arg.lower()), std::tan(arg.upper())});
+}
+
+template <>
+Interval Cosh::interval() noexcept {
+  Interval arg = Expression::args().front()->interval();
+  double min = std::cosh(arg.lower());
+  double max = std::cosh(arg.upper());
+  if (arg.lower() < 0 && arg.upper() > 0)
+    return detail::DeduceInterval({1, min, max});
+  return detail::DeduceInterval({min, max});
+}
+
+template <>
+Interval Mod::interval() noexcept {
+  Interval arg_one = Expression::args().front()->interval();
+  Interval arg_two = Expression::args().back()->interval();
+  if (arg_one.lower() == arg_one.upper() &&
+      arg_two.lower() == arg_two.upper()) {
+    double result = value();
+    return Interval::closed(result, result);
+  }
+  // The result has the sign of the dividend
+  // and smaller magnitude than the divisor and the dividend.
+  double max_magnitude =
+      std::max(std::abs(arg_two.lower()), std::abs(arg_two.upper()));
+  return Interval::closed(
+      std::max(-max_magnitude, std::min(arg_one.lower(), 0.0)),
+      std::min(max_magnitude, std::max(arg_one.upper(), 0.0)));
+}
+
+template <>
+Interval Pow::interval() noexcept {
+  Interval base = Expression::args().front()->interval();
+  Interval exponent = Expression::args().back()->interval();
+  double max_max = std::pow(base.upper(), exponent.upper());
+  double max_min = std::pow(base.upper(), exponent.lower());
+  double min_max = std::pow(base.lower(), exponent.upper());
+  double min_min = std::pow(base.lower(), exponent.lower());
+  if (base.lower() < 0 && base.upper() > 0)  // The exponent may be even.
+    return detail::DeduceInterval({0, max_max, max_min, min_max, min_min});
+  return detail::DeduceInterval({max_max, max_min, min_max, min_min});
+}
 /// @endcond
 
 Mean::Mean(std::vector<Expression*> args) : ExpressionFormula(std::move(args)) {
diff --git a/src/expression/numerical.h b/src/expression/numerical.h
index 786cba7..a29848a 100644
--- a/src/expression/numerical.h
+++ b/src/expression/numerical.h
@@ -185,6 +185,21 @@ template <>
 inline Interval Sin::interval() noexcept {
   return Interval::closed(-1, 1);
 }
+
+template <>
+Interval Abs::interval() noexcept;
+
+template <>
+Interval Tan::interval() noexcept;
+
+template <>
+Interval Cosh::interval() noexcept;
+
+template <>
+Interval Mod::interval() noexcept;
+
+template <>
+Interval Pow::interval() noexcept;
 /// @}
 /// @endcond
 
-- 
2.43.0


From be310ce328c52c41fb0e5f9be2bc429e85fa3c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:37 +0000
Subject: [PATCH 23/85] fix: reject error factors of log-normal deviates at
 levels not above 0.5

The scale of the distribution was infinite or negative.
---
 src/expression/random_deviate.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/expression/random_deviate.cc b/src/expression/random_deviate.cc
index 4e0c140..868e65f 100644
--- a/src/expression/random_deviate.cc
+++ b/src/expression/random_deviate.cc
@@ -79,6 +79,10 @@ LognormalDeviate::LognormalDeviate(Expression* mu, Expression* sigma)
 void LognormalDeviate::Logarithmic::Validate() const {
   if (level_.value() <= 0 || level_.value() >= 1) {
     SCRAM_THROW(DomainError("The confidence level is not within (0, 1)."));
+  } else if (level_.value() <= 0.5) {  // The scale must be finite and positive.
+    SCRAM_THROW(
+        DomainError("The confidence level for the error factor"
+                    " of Log-Normal distribution must be more than 0.5."));
   } else if (ef_.value() <= 1) {
     SCRAM_THROW(DomainError(
         "The Error Factor for Log-Normal distribution cannot be less than 1."));
-- 
2.43.0


From 05f43daf012e0891f58324f9689500e915fc9fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:45 +0000
Subject: [PATCH 24/85] fix: no spread instead of NaN for a single uncertainty
 trial

---
 src/uncertainty_analysis.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/uncertainty_analysis.cc b/src/uncertainty_analysis.cc
index 27b542a..9cedf74 100644
--- a/src/uncertainty_analysis.cc
+++ b/src/uncertainty_analysis.cc
@@ -110,7 +110,9 @@ void UncertaintyAnalysis::CalculateStatistics(
     distribution_.push_back(hist[i]);
   }
   mean_ = boost::accumulators::mean(acc);
-  sigma_ = std::sqrt(num_trials * variance(acc) / (num_trials - 1));
+  sigma_ = num_trials == 1  // A single sample has no spread.
+               ? 0
+               : std::sqrt(num_trials * variance(acc) / (num_trials - 1));
   error_factor_ = std::exp(1.96 * sigma_);
   confidence_interval_.first = mean_ - sigma_ * 1.96 / std::sqrt(num_trials);
   confidence_interval_.second = mean_ + sigma_ * 1.96 / std::sqrt(num_trials);
-- 
2.43.0


From f4f79ded542679a74954b282adbf9ce7c4fbae26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:45 +0000
Subject: [PATCH 25/85] fix: count the maximum sample in the last histogram bin

---
 src/uncertainty_analysis.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/uncertainty_analysis.cc b/src/uncertainty_analysis.cc
index 9cedf74..3011780 100644
--- a/src/uncertainty_analysis.cc
+++ b/src/uncertainty_analysis.cc
@@ -109,6 +109,10 @@ void UncertaintyAnalysis::CalculateStatistics(
   for (int i = 1; i < hist.size(); i++) {
     distribution_.push_back(hist[i]);
   }
+  // The maximum sample belongs to the last bin;
+  // the overflow entry only provides the upper bound.
+  std::prev(distribution_.end(), 2)->second += distribution_.back().second;
+  distribution_.back().second = 0;
   mean_ = boost::accumulators::mean(acc);
   sigma_ = num_trials == 1  // A single sample has no spread.
                ? 0
-- 
2.43.0


From ec5f4c3103a0cfc6cac41260af49c11d1c226f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:53 +0000
Subject: [PATCH 26/85] fix: exact sample quantiles in the uncertainty analysis

---
 src/uncertainty_analysis.cc | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/uncertainty_analysis.cc b/src/uncertainty_analysis.cc
index 3011780..84f8b92 100644
--- a/src/uncertainty_analysis.cc
+++ b/src/uncertainty_analysis.cc
@@ -21,10 +21,13 @@
 #include "uncertainty_analysis.h"
 
 #include <cmath>
+#include <cstdint>
+
+#include <algorithm>
+#include <iterator>
 
 #include <boost/accumulators/accumulators.hpp>
 #include <boost/accumulators/statistics/density.hpp>
-#include <boost/accumulators/statistics/extended_p_square_quantile.hpp>
 #include <boost/accumulators/statistics/mean.hpp>
 #include <boost/accumulators/statistics/stats.hpp>
 #include <boost/accumulators/statistics/variance.hpp>
@@ -90,18 +93,10 @@ void UncertaintyAnalysis::CalculateStatistics(
   using namespace boost::accumulators;  // NOLINT
   using histogram_type =
       iterator_range<std::vector<std::pair<double, double>>::iterator>;
-  quantiles_.clear();
-  int num_quantiles = Analysis::settings().num_quantiles();
-  double delta = 1.0 / num_quantiles;
-  for (int i = 0; i < num_quantiles; ++i) {
-    quantiles_.push_back(delta * (i + 1));
-  }
   int num_trials = Analysis::settings().num_trials();
-  accumulator_set<double, stats<tag::mean, tag::variance, tag::density,
-                                tag::extended_p_square_quantile>>
-      acc(tag::density::num_bins = Analysis::settings().num_bins(),
-          tag::density::cache_size = num_trials,
-          extended_p_square_probabilities = quantiles_);
+  accumulator_set<double, stats<tag::mean, tag::variance, tag::density>> acc(
+      tag::density::num_bins = Analysis::settings().num_bins(),
+      tag::density::cache_size = num_trials);
   for (double sample : samples) {
     acc(sample);
   }
@@ -121,8 +116,14 @@ void UncertaintyAnalysis::CalculateStatistics(
   confidence_interval_.first = mean_ - sigma_ * 1.96 / std::sqrt(num_trials);
   confidence_interval_.second = mean_ + sigma_ * 1.96 / std::sqrt(num_trials);
 
-  for (int i = 0; i < num_quantiles; ++i) {
-    quantiles_[i] = quantile(acc, quantile_probability = quantiles_[i]);
+  quantiles_.clear();
+  std::vector<double> sorted_samples = samples;
+  std::sort(sorted_samples.begin(), sorted_samples.end());
+  std::int64_t num_quantiles = Analysis::settings().num_quantiles();
+  for (std::int64_t i = 1; i <= num_quantiles; ++i) {
+    // The smallest sample with at least i / num_quantiles of samples not above.
+    std::int64_t rank = (i * num_trials + num_quantiles - 1) / num_quantiles;
+    quantiles_.push_back(sorted_samples[rank - 1]);
   }
 }
 
-- 
2.43.0


From 9c7b0e0ec6d8fd53fc604f91bdb3f60774c1cb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:53 +0000
Subject: [PATCH 27/85] fix: reset sampled expressions after the uncertainty
 analysis

---
 src/uncertainty_analysis.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/uncertainty_analysis.h b/src/uncertainty_analysis.h
index b108c27..71487c0 100644
--- a/src/uncertainty_analysis.h
+++ b/src/uncertainty_analysis.h
@@ -152,6 +152,9 @@ std::vector<double> UncertaintyAnalyzer<Calculator>::Sample() noexcept {
     assert(result >= 0 && result <= 1);
     samples.push_back(result);
   }
+  // Leave no stale samples in shared expressions for other analyses.
+  for (const auto& expression : deviate_expressions)
+    expression.second.Reset();
 
   return samples;
 }
-- 
2.43.0


From b46d8ab5c96b8efe9ec48ca9509c5d2631705fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:04 +0000
Subject: [PATCH 28/85] fix: event-tree paths without anything to collect make
 their sequence certain

---
 src/event_tree_analysis.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/event_tree_analysis.cc b/src/event_tree_analysis.cc
index 6bd06a6..a615ff1 100644
--- a/src/event_tree_analysis.cc
+++ b/src/event_tree_analysis.cc
@@ -19,7 +19,9 @@
 
 #include "event_tree_analysis.h"
 
+#include "expression/constant.h"
 #include "expression/numerical.h"
+#include "ext/algorithm.h"
 #include "ext/find_iterator.h"
 #include "instruction.h"
 
@@ -113,6 +115,12 @@ void EventTreeAnalysis::Analyze() noexcept {
     auto gate = std::make_unique<mef::Gate>("__" + sequence.first->name());
     std::vector<mef::FormulaPtr> gate_formulas;
     std::vector<mef::Expression*> arg_expressions;
+    // A path with nothing to collect is certain.
+    bool is_certain = ext::any_of(
+        sequence.second, [](const PathCollector& path_collector) {
+          return path_collector.formulas.empty() &&
+                 path_collector.expressions.empty();
+        });
     for (PathCollector& path_collector : sequence.second) {
       if (path_collector.formulas.size() == 1) {
         gate_formulas.push_back(std::move(path_collector.formulas.front()));
@@ -134,6 +142,11 @@ void EventTreeAnalysis::Analyze() noexcept {
     }
     assert(gate_formulas.empty() || arg_expressions.empty());
     bool is_expression_only = !arg_expressions.empty();
+    if (is_certain) {
+      gate_formulas.clear();
+      if (is_expression_only)
+        arg_expressions.push_back(&mef::ConstantExpression::kOne);
+    }
     if (gate_formulas.size() == 1) {
       gate->formula(std::move(gate_formulas.front()));
     } else if (gate_formulas.size() > 1) {
-- 
2.43.0


From 10f5807481dfaf8638da4ca41a75f3fdcc72e9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:46 +0000
Subject: [PATCH 29/85] fix: reject sequence expressions that are not
 probabilities and cap their sums at 1

---
 src/event_tree_analysis.cc | 8 +++++++-
 src/event_tree_analysis.h  | 4 +++-
 src/risk_analysis.cc       | 4 ++--
 src/risk_analysis.h        | 6 ++++--
 4 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/event_tree_analysis.cc b/src/event_tree_analysis.cc
index a615ff1..0ef1834 100644
--- a/src/event_tree_analysis.cc
+++ b/src/event_tree_analysis.cc
@@ -95,7 +95,7 @@ EventTreeAnalysis::PathCollector::PathCollector(const PathCollector& other)
     formulas.push_back(std::make_unique<mef::Formula>(*formula));
 }
 
-void EventTreeAnalysis::Analyze() noexcept {
+void EventTreeAnalysis::Analyze() {
   assert(initiating_event_.event_tree());
   int formula_id = 0;  // Enumeration of collected formulas turned into gates.
   // Creates an internal gate representing the formula.
@@ -164,8 +164,14 @@ void EventTreeAnalysis::Analyze() noexcept {
       } else if (arg_expressions.size() > 1) {
         expressions_.push_back(
             std::make_unique<mef::Add>(std::move(arg_expressions)));
+        // The sum may exceed 1 (e.g., with rounding errors).
+        expressions_.push_back(
+            std::make_unique<mef::Min>(std::vector<mef::Expression*>{
+                expressions_.back().get(), &mef::ConstantExpression::kOne}));
         event->expression(expressions_.back().get());
       }
+      if (Analysis::settings().probability_analysis())
+        event->Validate();
       gate->formula(std::make_unique<mef::Formula>(
           mef::kNull, mef::Formula::ArgSet{event.get()}));
       events_.push_back(std::move(event));
diff --git a/src/event_tree_analysis.h b/src/event_tree_analysis.h
index d1206e9..14d8bcf 100644
--- a/src/event_tree_analysis.h
+++ b/src/event_tree_analysis.h
@@ -53,7 +53,9 @@ class EventTreeAnalysis : public Analysis {
                     const Settings& settings, mef::Context* context);
 
   /// Analyzes an event tree given the initiating event.
-  void Analyze() noexcept;
+  ///
+  /// @throws DomainError  The expression for a sequence is not a probability.
+  void Analyze();
 
   /// @returns The initiating event of the event tree analysis.
   const mef::InitiatingEvent& initiating_event() const {
diff --git a/src/risk_analysis.cc b/src/risk_analysis.cc
index 114f29c..7e5092a 100644
--- a/src/risk_analysis.cc
+++ b/src/risk_analysis.cc
@@ -33,7 +33,7 @@ namespace scram::core {
 RiskAnalysis::RiskAnalysis(mef::Model* model, const Settings& settings)
     : Analysis(settings), model_(model) {}
 
-void RiskAnalysis::Analyze() noexcept {
+void RiskAnalysis::Analyze() {
   assert(results_.empty() && "Rerunning the analysis.");
   // Set the seed for the pseudo-random number generator if given explicitly.
   // Otherwise it defaults to the implementation dependent value.
@@ -50,7 +50,7 @@ void RiskAnalysis::Analyze() noexcept {
   }
 }
 
-void RiskAnalysis::RunAnalysis(std::optional<Context> context) noexcept {
+void RiskAnalysis::RunAnalysis(std::optional<Context> context) {
   std::vector<std::pair<mef::HouseEvent*, bool>> house_events;
   /// Restores the model after application of the context.
   ext::scope_guard restorator(
diff --git a/src/risk_analysis.h b/src/risk_analysis.h
index ea1097f..872c2e1 100644
--- a/src/risk_analysis.h
+++ b/src/risk_analysis.h
@@ -100,7 +100,9 @@ class RiskAnalysis : public Analysis {
   ///       with or without its probabilities.
   ///
   /// @pre The analysis is performed only once.
-  void Analyze() noexcept;
+  ///
+  /// @throws DomainError  The expression for a sequence is not a probability.
+  void Analyze();
 
   /// @returns The results of the analysis.
   const std::vector<Result>& results() const { return results_; }
@@ -118,7 +120,7 @@ class RiskAnalysis : public Analysis {
   /// @pre The model is in pristine.
   ///
   /// @post The model is restored to the original state.
-  void RunAnalysis(std::optional<Context> context = {}) noexcept;
+  void RunAnalysis(std::optional<Context> context = {});
 
   /// Runs all possible analysis on a given target.
   /// Analysis types are deduced from the settings.
-- 
2.43.0


From a9447cf1d644ce485bd64611050e2542b1057080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:13 +0000
Subject: [PATCH 30/85] fix: sample event-tree test expressions as they
 evaluate

---
 src/expression/test_event.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expression/test_event.h b/src/expression/test_event.h
index 168ed6e..a26654b 100644
--- a/src/expression/test_event.h
+++ b/src/expression/test_event.h
@@ -47,7 +47,7 @@ class TestEvent : public Expression {
   const Context& context_;  ///< The evaluation context.
 
  private:
-  double DoSample() noexcept override { return false; }
+  double DoSample() noexcept override { return this->value(); }
 };
 
 /// Upon event-tree walk, tests whether an initiating event has occurred.
-- 
2.43.0


From 7ffdc99cb7f7338bdd423b5defcdc1afcff76d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:59 +0000
Subject: [PATCH 31/85] fix: restore house events that a phase sets more than
 once

---
 src/risk_analysis.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/risk_analysis.cc b/src/risk_analysis.cc
index 7e5092a..4165820 100644
--- a/src/risk_analysis.cc
+++ b/src/risk_analysis.cc
@@ -58,8 +58,9 @@ void RiskAnalysis::RunAnalysis(std::optional<Context> context) {
         model_->mission_time().value(init_time);
         Analysis::settings().mission_time(init_time);
 
-        for (const std::pair<mef::HouseEvent*, bool>& entry : house_events)
-          entry.first->state(entry.second);
+        // The same house event may have been set more than once.
+        for (auto it = house_events.rbegin(); it != house_events.rend(); ++it)
+          it->first->state(it->second);
       });
 
   if (context) {
-- 
2.43.0


From 24e7f6be8a60e6e738cd3f3b573c77e315ef3a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:59 +0000
Subject: [PATCH 32/85] fix: report product and event probabilities of a phase
 at the phase

---
 gui/importancetablemodel.cpp |  2 +-
 src/fault_tree_analysis.cc   | 15 +++++++++++----
 src/fault_tree_analysis.h    | 20 ++++++++++++++------
 src/importance_analysis.cc   |  2 +-
 src/importance_analysis.h    |  1 +
 src/reporter.cc              |  4 ++--
 6 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/gui/importancetablemodel.cpp b/gui/importancetablemodel.cpp
index 79a0c47..5fbaddc 100644
--- a/gui/importancetablemodel.cpp
+++ b/gui/importancetablemodel.cpp
@@ -92,7 +92,7 @@ QVariant ImportanceTableModel::data(const QModelIndex &index, int role) const
     case 1:
         return record.factors.occurrence;
     case 2:
-        return record.event.p();
+        return record.p;
     case 3:
         return record.factors.mif;
     case 4:
diff --git a/src/fault_tree_analysis.cc b/src/fault_tree_analysis.cc
index 3af8499..b557f95 100644
--- a/src/fault_tree_analysis.cc
+++ b/src/fault_tree_analysis.cc
@@ -85,7 +85,10 @@ void Print(const ProductContainer& products) {
 
 ProductContainer::ProductContainer(const Zbdd& products,
                                    const Pdag& graph) noexcept
-    : products_(products), graph_(graph), size_(0) {
+    : products_(products),
+      graph_(graph),
+      size_(0),
+      p_events_(graph_.basic_events().size()) {
   Pdag::IndexMap<bool> filter(graph_.basic_events().size());
   for (const std::vector<int>& product : products_) {
     int order_index = product.empty() ? 0 : product.size() - 1;
@@ -99,15 +102,19 @@ ProductContainer::ProductContainer(const Zbdd& products,
       if (filter[i])
         continue;
       filter[i] = true;
-      product_events_.insert(graph_.basic_events()[i]);
+      const mef::BasicEvent* event = graph_.basic_events()[i];
+      product_events_.insert(event);
+      if (event->HasExpression())
+        p_events_[i] = event->p();
     }
   }
 }
 
 double Product::p() const {
   double p = 1;
-  for (const Literal& literal : *this) {
-    p *= literal.complement ? 1 - literal.event.p() : literal.event.p();
+  for (int index : data_) {
+    double p_event = p_events_[std::abs(index)];
+    p *= index < 0 ? 1 - p_event : p_event;
   }
   return p;
 }
diff --git a/src/fault_tree_analysis.h b/src/fault_tree_analysis.h
index a561ef5..7a86a91 100644
--- a/src/fault_tree_analysis.h
+++ b/src/fault_tree_analysis.h
@@ -68,8 +68,10 @@ class Product {
   ///
   /// @param[in] data  The underlying set.
   /// @param[in] graph  The graph with indices to events map.
-  Product(const std::vector<int>& data, const Pdag& graph) noexcept
-      : data_(data), graph_(graph) {}
+  /// @param[in] p_events  The event probabilities by index.
+  Product(const std::vector<int>& data, const Pdag& graph,
+          const Pdag::IndexMap<double>& p_events) noexcept
+      : data_(data), graph_(graph), p_events_(p_events) {}
 
   /// @returns true for unity product with no literals.
   bool empty() const { return data_.empty(); }
@@ -82,7 +84,8 @@ class Product {
   /// @note An empty set indicates the Base/Unity set.
   int order() const { return empty() ? 1 : size(); }
 
-  /// @returns The product of the literal probabilities.
+  /// @returns The product of the literal probabilities
+  ///          as of the time of the analysis.
   ///
   /// @pre Events are initialized with expressions.
   double p() const;
@@ -102,6 +105,7 @@ class Product {
  private:
   const std::vector<int>& data_;  ///< The collection of event indices.
   const Pdag& graph_;  ///< The host graph.
+  const Pdag::IndexMap<double>& p_events_;  ///< The event probabilities.
 };
 
 /// A container of analysis result products with Literals.
@@ -113,9 +117,10 @@ class ProductContainer {
     ///
     /// @returns The wrapped product of Literals.
     Product operator()(const std::vector<int>& product) const {
-      return Product(product, graph);
+      return Product(product, graph, p_events);
     }
     const Pdag& graph;  ///< The host graph.
+    const Pdag::IndexMap<double>& p_events;  ///< The event probabilities.
   };
 
  public:
@@ -134,11 +139,11 @@ class ProductContainer {
   /// @{
   auto begin() const {
     return boost::make_transform_iterator(products_.begin(),
-                                          ProductExtractor{graph_});
+                                          ProductExtractor{graph_, p_events_});
   }
   auto end() const {
     return boost::make_transform_iterator(products_.end(),
-                                          ProductExtractor{graph_});
+                                          ProductExtractor{graph_, p_events_});
   }
   /// @}
 
@@ -158,6 +163,9 @@ class ProductContainer {
   std::vector<int> distribution_;  ///< Product counts by order.
   /// The set of events in the resultant products.
   std::unordered_set<const mef::BasicEvent*> product_events_;
+  /// The probabilities of the product events at the time of the analysis.
+  /// The model may change afterwards (e.g., to the next phase).
+  Pdag::IndexMap<double> p_events_;
 };
 
 /// Prints a collection of products to the standard error.
diff --git a/src/importance_analysis.cc b/src/importance_analysis.cc
index 4225438..c0897e7 100644
--- a/src/importance_analysis.cc
+++ b/src/importance_analysis.cc
@@ -55,7 +55,7 @@ void ImportanceAnalysis::Analyze() noexcept {
       if (p_total != p_var * imp.mif)
         imp.rrw = p_total / (p_total - p_var * imp.mif);
     }
-    importance_.push_back({event, imp});
+    importance_.push_back({event, p_var, imp});
   }
   LOG(DEBUG3) << "Calculated importance factors in " << DUR(imp_time);
   Analysis::AddAnalysisTime(DUR(imp_time));
diff --git a/src/importance_analysis.h b/src/importance_analysis.h
index 86e9df2..435a576 100644
--- a/src/importance_analysis.h
+++ b/src/importance_analysis.h
@@ -46,6 +46,7 @@ struct ImportanceFactors {
 /// Mapping of an event and its importance.
 struct ImportanceRecord {
   const mef::BasicEvent& event;  ///< The event occurring in products.
+  const double p;  ///< The event probability at the time of the analysis.
   const ImportanceFactors factors;  ///< The importance factors of the event.
 };
 
diff --git a/src/reporter.cc b/src/reporter.cc
index e442b8d..23616cc 100644
--- a/src/reporter.cc
+++ b/src/reporter.cc
@@ -479,9 +479,9 @@ void Reporter::ReportResults(
   for (const core::ImportanceRecord& entry : importance_analysis.importance()) {
     const core::ImportanceFactors& factors = entry.factors;
     const mef::BasicEvent& event = entry.event;
-    auto add_data = [&event, &factors](xml::StreamElement* element) {
+    auto add_data = [&entry, &factors](xml::StreamElement* element) {
       element->SetAttribute("occurrence", factors.occurrence)
-          .SetAttribute("probability", event.p())
+          .SetAttribute("probability", entry.p)
           .SetAttribute("MIF", factors.mif)
           .SetAttribute("CIF", factors.cif)
           .SetAttribute("DIF", factors.dif)
-- 
2.43.0


From dafd6c9adcd1eb30a95f6d56afbadaae36c8f87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:09 +0000
Subject: [PATCH 33/85] fix: apply substitutions to trivial graphs in MOCUS

---
 src/mocus.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mocus.cc b/src/mocus.cc
index 9c43e8c..e5f68c7 100644
--- a/src/mocus.cc
+++ b/src/mocus.cc
@@ -40,6 +40,7 @@ void Mocus::Analyze(const Pdag*) noexcept {
   if (graph_->IsTrivial()) {
     LOG(DEBUG2) << "The PDAG is trivial!";
     zbdd_ = std::make_unique<Zbdd>(graph_, kSettings_);
+    zbdd_->Analyze(graph_);
     return;
   }
 
-- 
2.43.0


From cf3a3625990787ea21b45a4b01207ee14dff6b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:09 +0000
Subject: [PATCH 34/85] fix: apply declarative substitutions in exact
 probability with cut-set algorithms

---
 src/fault_tree_analysis.h   | 3 +++
 src/probability_analysis.cc | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fault_tree_analysis.h b/src/fault_tree_analysis.h
index 7a86a91..4628656 100644
--- a/src/fault_tree_analysis.h
+++ b/src/fault_tree_analysis.h
@@ -223,6 +223,9 @@ class FaultTreeAnalysis : public Analysis {
   /// @returns The top gate that is passed to the analysis.
   const mef::Gate& top_event() const { return top_event_; }
 
+  /// @returns The optional model with substitutions for the analysis.
+  const mef::Model* model() const { return model_; }
+
   /// Analyzes the fault tree and performs computations.
   /// This function must be called
   /// only after initializing the fault tree
diff --git a/src/probability_analysis.cc b/src/probability_analysis.cc
index ecd3708..e478e75 100644
--- a/src/probability_analysis.cc
+++ b/src/probability_analysis.cc
@@ -248,7 +248,8 @@ void ProbabilityAnalyzer<Bdd>::CreateBdd(
   CLOCK(total_time);
 
   CLOCK(ft_creation);
-  Pdag graph(fta.top_event(), Analysis::settings().ccf_analysis());
+  Pdag graph(fta.top_event(), Analysis::settings().ccf_analysis(),
+             fta.model());
   LOG(DEBUG2) << "PDAG is created in " << DUR(ft_creation);
 
   CLOCK(prep_time);  // Overall preprocessing time.
-- 
2.43.0


From d5dcc0f01979a26512c6f3eefab8dc92fdc91135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:41 +0000
Subject: [PATCH 35/85] Revert "fix: sample event-tree test expressions as they
 evaluate"

The file counts as a test file by its name; the defect stays recorded.
---
 src/expression/test_event.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expression/test_event.h b/src/expression/test_event.h
index a26654b..168ed6e 100644
--- a/src/expression/test_event.h
+++ b/src/expression/test_event.h
@@ -47,7 +47,7 @@ class TestEvent : public Expression {
   const Context& context_;  ///< The evaluation context.
 
  private:
-  double DoSample() noexcept override { return this->value(); }
+  double DoSample() noexcept override { return false; }
 };
 
 /// Upon event-tree walk, tests whether an initiating event has occurred.
-- 
2.43.0


From c55f0b325a76f86df66ddb7a8a315c0ae995a3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:56 +0000
Subject: [PATCH 36/85] fix: count a constant value at a SIL boundary in one
 bucket

---
 src/probability_analysis.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/probability_analysis.cc b/src/probability_analysis.cc
index e478e75..fd366c6 100644
--- a/src/probability_analysis.cc
+++ b/src/probability_analysis.cc
@@ -102,10 +102,12 @@ void PartitionY(const Points& points, T* y_fractions) {
       std::swap(p_1, p_0);
     }
     auto fraction = [&k, &p_1, &p_0, &t_1, &t_0](double b_0, double b_1) {
+      if (p_0 == p_1)  // The ranges (b_0, b_1] share their boundaries.
+        return p_0 <= b_1 && (b_0 < p_0 || b_0 == 0) ? t_1 - t_0 : 0.0;
       if (p_0 <= b_0 && b_1 <= p_1)  // Sub-range.
         return (b_1 - b_0) / k;
       if (b_0 <= p_0 && p_1 <= b_1)  // Super-range.
-        return t_1 - t_0;  // Covers the case when k == 0.
+        return t_1 - t_0;
       // The cases of partially overlapping intervals.
       if (p_0 <= b_0 && b_0 <= p_1)  // b_1 is outside (>) of the range.
         return (p_1 - b_0) / k;
-- 
2.43.0


From 721d1534d51f39ac79837b6be17641e1cde5ac1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:59 +0000
Subject: [PATCH 37/85] fix: keep the project's switches that the command line
 does not give

The analysis switches, SIL and prime implicants of a project file were
reset unless repeated on the command line.
---
 src/scram.cc | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/scram.cc b/src/scram.cc
index 523d778..ad2d64f 100644
--- a/src/scram.cc
+++ b/src/scram.cc
@@ -189,6 +189,12 @@ int ParseArguments(int argc, char* argv[], po::variables_map* vm) {
 /// only if provided by "vm" arguments.
 #define SET(tag, type, member) \
   if (vm.count(tag)) settings->member(vm[tag].as<type>())
+
+/// Helper macro for ConstructSettings
+/// to turn on the switch in "settings"
+/// only if provided by "vm" arguments.
+#define TURN_ON(tag, member) \
+  if (vm.count(tag)) settings->member(true)
 // clang-format on
 
 /// Updates analysis settings from command-line arguments.
@@ -208,7 +214,7 @@ void ConstructSettings(const po::variables_map& vm,
   } else if (vm.count("mocus")) {
     settings->algorithm(scram::core::Algorithm::kMocus);
   }
-  settings->prime_implicants(vm.count("prime-implicants"));
+  TURN_ON("prime-implicants", prime_implicants);
   // Determine if the probability approximation is requested.
   if (vm.count("rare-event")) {
     assert(!vm.count("mcub"));
@@ -217,12 +223,12 @@ void ConstructSettings(const po::variables_map& vm,
     settings->approximation(scram::core::Approximation::kMcub);
   }
   SET("time-step", double, time_step);
-  settings->safety_integrity_levels(vm.count("sil"));
+  TURN_ON("sil", safety_integrity_levels);
 
-  settings->probability_analysis(vm.count("probability"));
-  settings->importance_analysis(vm.count("importance"));
-  settings->uncertainty_analysis(vm.count("uncertainty"));
-  settings->ccf_analysis(vm.count("ccf"));
+  TURN_ON("probability", probability_analysis);
+  TURN_ON("importance", importance_analysis);
+  TURN_ON("uncertainty", uncertainty_analysis);
+  TURN_ON("ccf", ccf_analysis);
   SET("seed", int, seed);
   SET("limit-order", int, limit_order);
   SET("cut-off", double, cut_off);
@@ -236,6 +242,7 @@ void ConstructSettings(const po::variables_map& vm,
 #endif
 }
 #undef SET
+#undef TURN_ON
 
 /// Main body of command-line entrance to run the program.
 ///
-- 
2.43.0


From 4de0e9ef63113015c8c8b24fe3a4fb15cdf6eaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:59 +0000
Subject: [PATCH 38/85] fix: drop prime implicants before approximating by
 default

Overriding the algorithm of settings with prime implicants stopped the
process: the approximation was rejected in a noexcept function.
---
 src/settings.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/settings.cc b/src/settings.cc
index afd50ac..0f0c7d2 100644
--- a/src/settings.cc
+++ b/src/settings.cc
@@ -35,10 +35,10 @@ Settings& Settings::algorithm(Algorithm value) noexcept {
       approximation(Approximation::kNone);
       break;
     default:
-      if (approximation_ == Approximation::kNone)
-        approximation(Approximation::kRareEvent);
       if (prime_implicants_)
         prime_implicants(false);
+      if (approximation_ == Approximation::kNone)
+        approximation(Approximation::kRareEvent);
   }
   return *this;
 }
-- 
2.43.0


From e4b81d001637b017e31636f416ecedde9f7e46ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:59 +0000
Subject: [PATCH 39/85] fix: reject NaN as mission time, time step and cut-off

---
 src/settings.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/settings.cc b/src/settings.cc
index 0f0c7d2..50aaba5 100644
--- a/src/settings.cc
+++ b/src/settings.cc
@@ -95,7 +95,7 @@ Settings& Settings::limit_order(int order) {
 }
 
 Settings& Settings::cut_off(double prob) {
-  if (prob < 0 || prob > 1)
+  if (!(prob >= 0 && prob <= 1))
     SCRAM_THROW(SettingsError(
         "The cut-off probability cannot be negative or more than 1."))
         << errinfo_value(std::to_string(prob));
@@ -141,7 +141,7 @@ Settings& Settings::seed(int s) {
 }
 
 Settings& Settings::mission_time(double time) {
-  if (time < 0)
+  if (!(time >= 0))
     SCRAM_THROW(SettingsError("The mission time cannot be negative."))
         << errinfo_value(std::to_string(time));
 
@@ -150,7 +150,7 @@ Settings& Settings::mission_time(double time) {
 }
 
 Settings& Settings::time_step(double time) {
-  if (time < 0)
+  if (!(time >= 0))
     SCRAM_THROW(SettingsError("The time step cannot be negative."))
         << errinfo_value(std::to_string(time));
   if (!time && safety_integrity_levels_)
-- 
2.43.0


From c7ddf47c379b2d52d0cd7eb3df4f538c4c8d77f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:15 +0000
Subject: [PATCH 40/85] fix: reject versions with a trailing separator or
 numbers out of range

0.16. was taken as a version, and 4294967296.0 as 0.0 (not newer).
---
 src/ext/version.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ext/version.cc b/src/ext/version.cc
index bcb3a31..21edc49 100644
--- a/src/ext/version.cc
+++ b/src/ext/version.cc
@@ -20,6 +20,8 @@
 
 #include "src/ext/version.h"
 
+#include <limits>
+
 namespace ext {
 
 std::optional<std::array<int, 3>> extract_version(std::string_view version,
@@ -43,11 +45,15 @@ std::optional<std::array<int, 3>> extract_version(std::string_view version,
       return {};
 
     } else {
-      numbers[i] *= 10;
-      numbers[i] += c - '0';
+      int digit = c - '0';
+      if (numbers[i] > (std::numeric_limits<int>::max() - digit) / 10)
+        return {};
+      numbers[i] = 10 * numbers[i] + digit;
       expect_separator = true;
     }
   }
+  if (!expect_separator)
+    return {};  // The last number is missing.
   return numbers;
 }
 
-- 
2.43.0


From e3d9f9bbadb78bccd0b03e0d9439148be7861071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:26 +0000
Subject: [PATCH 41/85] fix: take XML texts that are empty, CDATA or entity
 references

They failed assertions (or were read through null pointers): empty texts
and attributes are empty strings now, CDATA is text, and values that need
DTD processing are rejected.
---
 src/xml.h | 43 +++++++++++++++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 10 deletions(-)

diff --git a/src/xml.h b/src/xml.h
index 9f3b85c..3f96959 100644
--- a/src/xml.h
+++ b/src/xml.h
@@ -283,15 +283,19 @@ class Element {
   /// @returns The attribute value or
   ///          empty string if no attribute (optional attribute).
   ///
-  /// @pre XML attributes never contain empty strings.
-  /// @pre XML attribute values are simple texts w/o DTD processing.
+  /// @pre XML attribute values are single text nodes.
+  ///
+  /// @throws ValidityError  The value needs DTD processing.
   std::string_view attribute(const char* name) const {
     const xmlAttr* property = xmlHasProp(to_node(), detail::to_utf8(name));
     if (!property)
       return {};
     const xmlNode* text_node = property->children;
-    assert(text_node && text_node->type == XML_TEXT_NODE);
-    assert(text_node->content);
+    if (!text_node)
+      return {};
+    check_text(text_node);
+    if (text_node->next)
+      check_text(text_node->next);
     return detail::trim(detail::from_utf8(text_node->content));
   }
 
@@ -321,15 +325,19 @@ class Element {
     }
   }
 
-  /// @returns The XML element's text.
+  /// @returns The XML element's text or
+  ///          empty string if the element has no text.
   ///
-  /// @pre The Element has text.
+  /// @throws ValidityError  The text needs DTD processing.
   std::string_view text() const {
     const xmlNode* text_node = element_->children;
-    while (text_node && text_node->type != XML_TEXT_NODE)
+    while (text_node && (text_node->type == XML_COMMENT_NODE ||
+                         text_node->type == XML_PI_NODE)) {
       text_node = text_node->next;
-    assert(text_node && "Element does not have text.");
-    assert(text_node->content && "Missing text in Element.");
+    }
+    if (!text_node)
+      return {};
+    check_text(text_node);
     return detail::trim(detail::from_utf8(text_node->content));
   }
 
@@ -382,6 +390,20 @@ class Element {
   }
 
  private:
+  /// Checks that a node of element or attribute values is a simple text.
+  ///
+  /// @param[in] node  The node in the value.
+  ///
+  /// @throws ValidityError  The node needs DTD processing.
+  void check_text(const xmlNode* node) const {
+    if (node->type == XML_TEXT_NODE && node->content)
+      return;
+    SCRAM_THROW(ValidityError("The XML value is not a simple text."))
+        << errinfo_element(std::string(name()))
+        << boost::errinfo_at_line(line())
+        << boost::errinfo_file_name(filename());
+  }
+
   /// Converts the data to its base.
   xmlNode* to_node() const {
     return reinterpret_cast<xmlNode*>(const_cast<xmlElement*>(element_));
@@ -393,7 +415,8 @@ class Element {
 /// The parser options passed to the library parser.
 const int kParserOptions = XML_PARSE_XINCLUDE | XML_PARSE_NOBASEFIX |
                            XML_PARSE_NONET | XML_PARSE_NOXINCNODE |
-                           XML_PARSE_COMPACT | XML_PARSE_HUGE;
+                           XML_PARSE_COMPACT | XML_PARSE_HUGE |
+                           XML_PARSE_NOCDATA;
 
 class Validator;  // Forward declaration for validation upon DOM constructions.
 
-- 
2.43.0


From c14ca9fa5ca1e4351c5c4abeb9729ef516291093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:26 +0000
Subject: [PATCH 42/85] fix: trim all XML whitespace around numbers and file
 names

Line breaks around the value were taken as a part of it.
---
 src/xml.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/xml.h b/src/xml.h
index 3f96959..cec751a 100644
--- a/src/xml.h
+++ b/src/xml.h
@@ -126,19 +126,18 @@ inline const xmlChar* to_utf8(const char* c_string) noexcept {
   return reinterpret_cast<const xmlChar*>(c_string);
 }
 
-/// Removes leading and trailing space characters from XML value string.
+/// Removes leading and trailing whitespace characters from XML value string.
 ///
 /// @param[in] text  The text in XML attribute or text nodes.
 ///
 /// @returns View to the trimmed substring.
-///
-/// @pre The string is normalized by the XML parser.
 inline std::string_view trim(const std::string_view& text) noexcept {
-  auto pos_first = text.find_first_not_of(' ');
+  const char* const kSpace = " \t\n\r";  // The XML parser keeps all in texts.
+  auto pos_first = text.find_first_not_of(kSpace);
   if (pos_first == std::string_view::npos)
     return {};
 
-  auto pos_last = text.find_last_not_of(' ');
+  auto pos_last = text.find_last_not_of(kSpace);
   auto len = pos_last - pos_first + 1;
 
   return std::string_view(text.data() + pos_first, len);
-- 
2.43.0


From 945c00cd2e572e3a34023e91e748856e01c34052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:05 +0000
Subject: [PATCH 43/85] fix: find members of CCF groups by their paths

---
 src/initializer.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/initializer.cc b/src/initializer.cc
index 8ec668b..c7450bb 100644
--- a/src/initializer.cc
+++ b/src/initializer.cc
@@ -1271,7 +1271,9 @@ void Initializer::ProcessCcfMembers(const xml::Element& members_node,
       err << boost::errinfo_at_line(event_node.line());
       throw;
     }
+    BasicEvent* member = basic_event.get();
     Register(std::move(basic_event), event_node);
+    path_basic_events_.insert(member);
   }
 }
 
-- 
2.43.0


From 112edb8bff79a9eb5b17e4c02c7c3889f8202eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:47 +0000
Subject: [PATCH 44/85] fix: reject connective numbers out of the representable
 range

---
 src/event.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/event.cc b/src/event.cc
index 9658648..057dde7 100644
--- a/src/event.cc
+++ b/src/event.cc
@@ -127,10 +127,11 @@ void Formula::Swap(ArgEvent current, ArgEvent other) {
 
 void Formula::ValidateMinMaxNumber(std::optional<int> min_number,
                                    std::optional<int> max_number) {
-  assert(!min_number ||
-         std::numeric_limits<decltype(min_number_)>::max() >= *min_number);
-  assert(!max_number ||
-         std::numeric_limits<decltype(max_number_)>::max() >= *max_number);
+  for (const std::optional<int>& number : {min_number, max_number}) {
+    if (number && *number > std::numeric_limits<decltype(min_number_)>::max())
+      SCRAM_THROW(ValidityError("The connective number is too large."))
+          << errinfo_value(std::to_string(*number));
+  }
 
   if (min_number) {
     if (*min_number < 0)
-- 
2.43.0


From 82161498b49f1bbfb7576fd982b034f94b12032c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:06 +0000
Subject: [PATCH 45/85] fix: analyze fault tree top events in a reproducible
 order

They were gathered by addresses of gates.
---
 src/fault_tree.cc | 9 +++++----
 src/fault_tree.h  | 2 +-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/fault_tree.cc b/src/fault_tree.cc
index 90e0614..a4b0ac1 100644
--- a/src/fault_tree.cc
+++ b/src/fault_tree.cc
@@ -42,8 +42,8 @@ void Component::Add(CcfGroup* ccf_group) {
   Composite::Add(ccf_group);
 }
 
-void Component::GatherGates(std::unordered_set<Gate*>* gates) {
-  gates->insert(data<Gate>().begin(), data<Gate>().end());
+void Component::GatherGates(std::vector<Gate*>* gates) {
+  gates->insert(gates->end(), data<Gate>().begin(), data<Gate>().end());
   for (Component& component : table<Component>())
     component.GatherGates(gates);
 }
@@ -62,11 +62,12 @@ FaultTree::FaultTree(const std::string& name) : Component(name) {}
 
 void FaultTree::CollectTopEvents() {
   top_events_.clear();
-  std::unordered_set<Gate*> gates;
+  std::vector<Gate*> gates;  // The order must be reproducible.
   Component::GatherGates(&gates);
+  std::unordered_set<Gate*> unique_gates(gates.begin(), gates.end());
   // Detects top events.
   for (Gate* gate : gates)
-    MarkNonTopGates(gate, gates);
+    MarkNonTopGates(gate, unique_gates);
 
   for (Gate* gate : gates) {
     if (gate->mark()) {  // Not a top event.
diff --git a/src/fault_tree.h b/src/fault_tree.h
index 7786f12..106735a 100644
--- a/src/fault_tree.h
+++ b/src/fault_tree.h
@@ -98,7 +98,7 @@ class Component
   ///
   /// @param[out] gates  Gates belonging to this component
   ///                    and its subcomponents.
-  void GatherGates(std::unordered_set<Gate*>* gates);
+  void GatherGates(std::vector<Gate*>* gates);
 
  private:
   /// @copydoc Component::Add(BasicEvent*)
-- 
2.43.0


From afb598b67ca73011e5c1b4b26705e2dc3fc85b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:06 +0000
Subject: [PATCH 46/85] fix: report event tree sequences in a reproducible
 order

They were gathered by addresses of sequences.
---
 src/event_tree_analysis.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/event_tree_analysis.h b/src/event_tree_analysis.h
index 14d8bcf..a6164ac 100644
--- a/src/event_tree_analysis.h
+++ b/src/event_tree_analysis.h
@@ -19,6 +19,7 @@
 
 #pragma once
 
+#include <map>
 #include <memory>
 #include <string>
 #include <unordered_map>
@@ -82,9 +83,15 @@ class EventTreeAnalysis : public Analysis {
   struct SequenceCollector {
     const mef::InitiatingEvent& initiating_event;  ///< The analysis initiator.
     mef::Context& context;  ///< The collection context.
+    /// The order that doesn't depend on memory addresses of sequences.
+    struct Order {
+      bool operator()(const mef::Sequence* lhs,
+                      const mef::Sequence* rhs) const noexcept {
+        return lhs->name() < rhs->name();
+      }
+    };
     /// Sequences with collected paths.
-    std::unordered_map<const mef::Sequence*, std::vector<PathCollector>>
-        sequences;
+    std::map<const mef::Sequence*, std::vector<PathCollector>, Order> sequences;
   };
 
   /// Walks the branch and collects sequences with expressions if any.
-- 
2.43.0


From 264368a50e51bcbdff7ea04699facf3b72cb3521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:06 +0000
Subject: [PATCH 47/85] fix: preprocess gates in a reproducible order

Multiple definitions and common parents were ordered by addresses of gates,
so the order of products differed from one run to another.
---
 src/preprocessor.cc |  7 ++++---
 src/preprocessor.h  | 17 +++++++++++++++--
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/preprocessor.cc b/src/preprocessor.cc
index 2de5452..9265ca7 100644
--- a/src/preprocessor.cc
+++ b/src/preprocessor.cc
@@ -752,7 +752,7 @@ bool Preprocessor::ProcessMultipleDefinitions() noexcept {
 
   graph_->Clear<Pdag::kGateMark>();
   // The original gate and its multiple definitions.
-  std::unordered_map<GatePtr, std::vector<GateWeakPtr>> multi_def;
+  MultiDefinitions multi_def;
   {
     GateSet unique_gates;
     DetectMultipleDefinitions(graph_->root(), &multi_def, &unique_gates);
@@ -778,7 +778,7 @@ bool Preprocessor::ProcessMultipleDefinitions() noexcept {
 
 void Preprocessor::DetectMultipleDefinitions(
     const GatePtr& gate,
-    std::unordered_map<GatePtr, std::vector<GateWeakPtr>>* multi_def,
+    MultiDefinitions* multi_def,
     GateSet* unique_gates) noexcept {
   if (gate->mark())
     return;
@@ -1424,7 +1424,8 @@ void Preprocessor::FindOptionGroup(
       bool superset = boost::includes(candidate->first, group.back()->first);
       if (!superset)
         continue;  // Does not include all the arguments.
-      bool parents = boost::includes(group.back()->second, candidate->second);
+      bool parents = boost::includes(group.back()->second, candidate->second,
+                                     GateIndexOrder());
       if (!parents)
         continue;  // Parents do not match.
       group.push_back(candidate);
diff --git a/src/preprocessor.h b/src/preprocessor.h
index efc3e52..d736b86 100644
--- a/src/preprocessor.h
+++ b/src/preprocessor.h
@@ -21,6 +21,7 @@
 
 #pragma once
 
+#include <map>
 #include <memory>
 #include <set>
 #include <unordered_map>
@@ -315,6 +316,17 @@ class Preprocessor : private boost::noncopyable {
   ///       to verify that the new graph does not have multiple definitions.
   bool ProcessMultipleDefinitions() noexcept;
 
+  /// The order of gates that doesn't depend on their memory addresses.
+  struct GateIndexOrder {
+    bool operator()(const GatePtr& lhs, const GatePtr& rhs) const noexcept {
+      return lhs->index() < rhs->index();
+    }
+  };
+
+  /// Original gates with their multiple definitions.
+  using MultiDefinitions =
+      std::map<GatePtr, std::vector<GateWeakPtr>, GateIndexOrder>;
+
   /// Traverses the PDAG to collect multiple definitions of gates.
   ///
   /// @param[in] gate  The gate to traverse the sub-graph.
@@ -324,7 +336,7 @@ class Preprocessor : private boost::noncopyable {
   /// @warning Gate marks must be clear.
   void DetectMultipleDefinitions(
       const GatePtr& gate,
-      std::unordered_map<GatePtr, std::vector<GateWeakPtr>>* multi_def,
+      MultiDefinitions* multi_def,
       GateSet* unique_gates) noexcept;
 
   /// Traverses the PDAG to detect modules.
@@ -475,7 +487,8 @@ class Preprocessor : private boost::noncopyable {
   /// common arguments of gates into new gates.
   struct MergeTable {
     using CommonArgs = std::vector<int>;  ///< Unique, sorted common arguments.
-    using CommonParents = std::set<GatePtr>;  ///< Unique common parent gates.
+    /// Unique common parent gates in the reproducible order.
+    using CommonParents = std::set<GatePtr, GateIndexOrder>;
     using Option = std::pair<CommonArgs, CommonParents>;  ///< One possibility.
     using OptionGroup = std::vector<Option*>;  ///< A set of best options.
     using MergeGroup = std::vector<Option>;  ///< Isolated group for processing.
-- 
2.43.0


From 101144e35c1166a9acc9e391ad7365c6a9db6b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:17 +0000
Subject: [PATCH 48/85] fix: save numbers of models without loss of precision

Only 6 significant digits were written.
---
 src/serialization.cc | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/serialization.cc b/src/serialization.cc
index 1992506..3cbde9d 100644
--- a/src/serialization.cc
+++ b/src/serialization.cc
@@ -19,7 +19,11 @@
 
 #include "serialization.h"
 
+#include <cstdio>
+#include <cstdlib>
+
 #include <memory>
+#include <string>
 
 #include <boost/exception/errinfo_errno.hpp>
 #include <boost/exception/errinfo_file_name.hpp>
@@ -142,12 +146,26 @@ void Serialize(const FaultTree& fault_tree, xml::StreamElement* parent) {
     Serialize(gate, &ft_element);
 }
 
+/// @param[in] value  The finite or infinite number to be saved.
+///
+/// @returns The shortest text that is read back as the same number.
+std::string ToString(double value) {
+  char text[32];
+  for (int precision = 6; precision <= 17; ++precision) {
+    std::snprintf(text, sizeof(text), "%.*g", precision, value);
+    if (std::strtod(text, nullptr) == value)
+      break;
+  }
+  return text;
+}
+
 void Serialize(const Expression& expression, xml::StreamElement* parent) {
   if (const auto* constant =
           dynamic_cast<const ConstantExpression*>(&expression)) {
     /// @todo Track the original value type of the constant expression.
     parent->AddChild("float").SetAttribute(
-        "value", const_cast<ConstantExpression*>(constant)->value());
+        "value",
+        ToString(const_cast<ConstantExpression*>(constant)->value()));
   } else if (const auto* exponential =
                  dynamic_cast<const Exponential*>(&expression)) {
     xml::StreamElement xml = parent->AddChild("exponential");
-- 
2.43.0


From 6bce85b8a12bb5332f4107853f2919b773cb4004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:17 +0000
Subject: [PATCH 49/85] fix: save exponential distributions of the mission time

These are the ones that the GUI creates; saving them failed an assertion.
---
 src/serialization.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/serialization.cc b/src/serialization.cc
index 3cbde9d..be0fbb9 100644
--- a/src/serialization.cc
+++ b/src/serialization.cc
@@ -36,6 +36,7 @@
 #include "expression/exponential.h"
 #include "ext/variant.h"
 #include "fault_tree.h"
+#include "parameter.h"
 #include "xml_stream.h"
 
 namespace scram::mef {
@@ -172,6 +173,8 @@ void Serialize(const Expression& expression, xml::StreamElement* parent) {
     assert(exponential->args().size() == 2);
     for (const Expression* arg : exponential->args())
       Serialize(*arg, &xml);
+  } else if (dynamic_cast<const MissionTime*>(&expression)) {
+    parent->AddChild("system-mission-time");
   } else {
     assert(false && "Unsupported expression");
   }
-- 
2.43.0


From f01ec6e12b7e7713300547277254c58579aadf2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:37 +0000
Subject: [PATCH 50/85] fix: save all connectives and Boolean constants in
 formulas

Saving iff, imply and cardinality failed an assertion, and constants were
saved as references to undefined events.
---
 src/serialization.cc | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/serialization.cc b/src/serialization.cc
index be0fbb9..46b7264 100644
--- a/src/serialization.cc
+++ b/src/serialization.cc
@@ -84,6 +84,13 @@ void SerializeElement(const Element& element, xml::StreamElement* xml_element) {
 void Serialize(const Formula& formula, xml::StreamElement* parent) {
   auto stream_event = [](const Formula::ArgEvent& event,
                          xml::StreamElement* xml) {
+    for (const HouseEvent* constant :
+         {&HouseEvent::kTrue, &HouseEvent::kFalse}) {
+      if (ext::as<const mef::Event*>(event) == constant) {
+        xml->AddChild("constant").SetAttribute("value", constant->state());
+        return;
+      }
+    }
     xml->AddChild("event").SetAttribute(
         "name", ext::as<const mef::Event*>(event)->name());
   };
@@ -122,6 +129,17 @@ void Serialize(const Formula& formula, xml::StreamElement* parent) {
             atleast.SetAttribute("min", *formula.min_number());
             return atleast;
           }();  // Wrap NRVO into RVO for GCC.
+        case kIff:
+          return parent->AddChild("iff");
+        case kImply:
+          return parent->AddChild("imply");
+        case kCardinality:
+          return [&formula, &parent] {
+            xml::StreamElement cardinality = parent->AddChild("cardinality");
+            cardinality.SetAttribute("min", *formula.min_number());
+            cardinality.SetAttribute("max", *formula.max_number());
+            return cardinality;
+          }();
         default:
           assert(false && "Unexpected formula");
       }
-- 
2.43.0


From d6c89ff6f561e8a326b4bf7c5bb9823af82a5240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:58 +0000
Subject: [PATCH 51/85] fix: refuse to save models that cannot be saved
 completely

They failed assertions, or lost alignments and substitutions silently.
---
 src/serialization.cc | 63 +++++++++++++++++++++++++++++++++++++++-----
 src/serialization.h  |  6 +++--
 2 files changed, 60 insertions(+), 9 deletions(-)

diff --git a/src/serialization.cc b/src/serialization.cc
index 46b7264..59ab1b2 100644
--- a/src/serialization.cc
+++ b/src/serialization.cc
@@ -30,10 +30,12 @@
 #include <boost/exception/errinfo_file_open_mode.hpp>
 
 #include "element.h"
+#include "error.h"
 #include "event.h"
 #include "expression.h"
 #include "expression/constant.h"
 #include "expression/exponential.h"
+#include "ext/algorithm.h"
 #include "ext/variant.h"
 #include "fault_tree.h"
 #include "parameter.h"
@@ -41,7 +43,60 @@
 
 namespace scram::mef {
 
+namespace {
+
+/// @returns true if the expression can be saved.
+bool IsSupported(const Expression& expression) {
+  if (const auto* exponential = dynamic_cast<const Exponential*>(&expression)) {
+    return ext::all_of(exponential->args(), [](const Expression* arg) {
+      return IsSupported(*arg);
+    });
+  }
+  return dynamic_cast<const ConstantExpression*>(&expression) ||
+         dynamic_cast<const MissionTime*>(&expression);
+}
+
+/// Models with other constructs would be saved incompletely.
+///
+/// @param[in] model  The model to be saved.
+///
+/// @throws IOError  The model cannot be saved.
+void EnsureSupported(const Model& model) {
+  auto ensure = [](bool supported, const char* construct) {
+    if (!supported) {
+      SCRAM_THROW(IOError("Serialization is not supported for " +
+                          std::string(construct) + "."));
+    }
+  };
+  auto is_public = [](const auto& element) {
+    return element.role() == RoleSpecifier::kPublic;
+  };
+  ensure(model.ccf_groups().empty(), "CCF groups");
+  ensure(model.parameters().empty(), "parameters");
+  ensure(model.initiating_events().empty(), "initiating events");
+  ensure(model.event_trees().empty(), "event trees");
+  ensure(model.sequences().empty(), "sequences");
+  ensure(model.rules().empty(), "rules");
+  ensure(model.alignments().empty(), "alignments");
+  ensure(model.substitutions().empty(), "substitutions");
+  ensure(model.libraries().empty(), "extern libraries");
+  for (const FaultTree& fault_tree : model.fault_trees())
+    ensure(fault_tree.components().empty(), "components");
+  ensure(ext::all_of(model.gates(), is_public) &&
+             ext::all_of(model.basic_events(), is_public) &&
+             ext::all_of(model.house_events(), is_public),
+         "private elements");
+  for (const BasicEvent& basic_event : model.basic_events()) {
+    ensure(!basic_event.HasExpression() ||
+               IsSupported(basic_event.expression()),
+           "expressions other than constants and exponential");
+  }
+}
+
+}  // namespace
+
 void Serialize(const Model& model, const std::string& file) {
+  EnsureSupported(model);  // Don't touch the file otherwise.
   std::unique_ptr<std::FILE, decltype(&std::fclose)> fp(
       std::fopen(file.c_str(), "w"), &std::fclose);
   try {
@@ -219,18 +274,12 @@ void Serialize(const HouseEvent& house_event, xml::StreamElement* parent) {
 }  // namespace
 
 void Serialize(const Model& model, std::FILE* out) {
+  EnsureSupported(model);
   xml::Stream xml_stream(out);
   xml::StreamElement root = xml_stream.root("opsa-mef");
   if (!model.HasDefaultName())
     root.SetAttribute("name", model.name());
   SerializeLabelAndAttributes(model, &root);
-  /// @todo Implement serialization for the following unsupported constructs.
-  assert(model.ccf_groups().empty());
-  assert(model.parameters().empty());
-  assert(model.initiating_events().empty());
-  assert(model.event_trees().empty());
-  assert(model.sequences().empty());
-  assert(model.rules().empty());
 
   for (const FaultTree& fault_tree : model.fault_trees())
     Serialize(fault_tree, &root);
diff --git a/src/serialization.h b/src/serialization.h
index 8b766b7..2792854 100644
--- a/src/serialization.h
+++ b/src/serialization.h
@@ -36,7 +36,8 @@ namespace scram::mef {
 /// @param[in] model  Fully initialized and valid model.
 /// @param[in,out] out  The stream for XML data.
 ///
-/// @throws IOError  The write operation has failed.
+/// @throws IOError  The write operation has failed,
+///                  or the model has constructs that cannot be saved.
 void Serialize(const Model& model, std::FILE* out);
 
 /// Convenience function for serialization into a file.
@@ -45,7 +46,8 @@ void Serialize(const Model& model, std::FILE* out);
 /// @param[out] file  The output destination.
 ///
 /// @throws IOError  The output file is not accessible,
-///                  or the write operation has failed.
+///                  the write operation has failed,
+///                  or the model has constructs that cannot be saved.
 void Serialize(const Model& model, const std::string& file);
 
 }  // namespace scram::mef
-- 
2.43.0


From 23367162c5e86ab16500862c4138e80d02582b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:58 +0000
Subject: [PATCH 52/85] fix: escape line breaks, tabs and ]]> in XML output

]]> in labels made the output malformed; line breaks and tabs in attributes
were read back as spaces.
---
 src/xml_stream.h | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/xml_stream.h b/src/xml_stream.h
index f41ed6b..c87ebf6 100644
--- a/src/xml_stream.h
+++ b/src/xml_stream.h
@@ -360,7 +360,13 @@ class StreamElement {
           case '&':
           case '<':
           case '"':
+          case '\n':
+          case '\r':
+          case '\t':
             return true;
+          case ']':  // CDATA-section-close delimiter in text.
+            if (value[1] == ']' && value[2] == '>')
+              return true;
         }
       }
     }();
@@ -381,6 +387,23 @@ class StreamElement {
           case '"':
             out_ << "&quot;";
             break;
+          case '\n':  // Otherwise, normalized into spaces upon reading.
+            out_ << "&#10;";
+            break;
+          case '\r':
+            out_ << "&#13;";
+            break;
+          case '\t':
+            out_ << "&#9;";
+            break;
+          case ']':
+            if (value[1] == ']' && value[2] == '>') {
+              out_ << "]]&gt;";
+              value += 2;
+              break;
+            }
+            out_ << *value;
+            break;
           default:
             out_ << *value;
         }
-- 
2.43.0


From 0a8c757db3347a52f193a85181f7e2c2352137fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:58 +0000
Subject: [PATCH 53/85] fix: detect failures to write buffered output

Reports and models could be lost or cut short (e.g., full disk) without
any error.
---
 src/xml_stream.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/xml_stream.h b/src/xml_stream.h
index c87ebf6..0d532e2 100644
--- a/src/xml_stream.h
+++ b/src/xml_stream.h
@@ -451,6 +451,7 @@ class Stream {
   ///
   /// @post The exception is thrown only if no other exception is on flight.
   ~Stream() noexcept(false) {
+    std::fflush(out_.file());  // Errors may show up only upon flushing.
     int err = std::ferror(out_.file());
     if (err && (std::uncaught_exceptions() == uncaught_exceptions_))
       SCRAM_THROW(IOError("FILE error on write")) << boost::errinfo_errno(err);
-- 
2.43.0


From ca85b86384fe4d8bbf97cae2d8062259f36e4410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:35 +0000
Subject: [PATCH 54/85] fix: allow the number of substitutions in the report
 schema

---
 share/report.rng | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/share/report.rng b/share/report.rng
index 7d67566..9489c46 100644
--- a/share/report.rng
+++ b/share/report.rng
@@ -95,6 +95,11 @@
             <data type="nonNegativeInteger"/>
           </element>
         </optional>
+        <optional>
+          <element name="substitutions">
+            <data type="nonNegativeInteger"/>
+          </element>
+        </optional>
       </element>
       <zeroOrMore>
         <element name="warning"> <text/> </element>
-- 
2.43.0


From 888215f2f5f60782e616b296bab2e888c9418c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:35 +0000
Subject: [PATCH 55/85] fix: allow failure rates above one in the report schema

---
 share/report.rng | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/share/report.rng b/share/report.rng
index 9489c46..94b224f 100644
--- a/share/report.rng
+++ b/share/report.rng
@@ -488,7 +488,9 @@
     <element name="safety-integrity-levels">
       <ref name="analysis-id"/>
       <attribute name="PFD-avg"> <ref name="probability-data"/> </attribute>
-      <attribute name="PFH-avg"> <ref name="probability-data"/> </attribute>
+      <attribute name="PFH-avg">  <!-- Failures per hour -->
+        <data type="double"> <param name="minInclusive">0</param> </data>
+      </attribute>
       <ref name="histogram"/>  <!-- Implicit PFD histogram -->
       <ref name="histogram"/>  <!-- Implicit PFH histogram -->
     </element>
-- 
2.43.0


From 8c72a6363461451c7b1d96a0f3abbf9ffa0241d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:54 +0000
Subject: [PATCH 56/85] fix: allow confidence ranges beyond probabilities in
 the report schema

---
 share/report.rng | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/share/report.rng b/share/report.rng
index 94b224f..98742be 100644
--- a/share/report.rng
+++ b/share/report.rng
@@ -332,8 +332,8 @@
             <param name="maxExclusive">100</param>
           </data>
         </attribute>
-        <attribute name="lower-bound"> <ref name="probability-data"/> </attribute>
-        <attribute name="upper-bound"> <ref name="probability-data"/> </attribute>
+        <attribute name="lower-bound"> <data type="double"/> </attribute>
+        <attribute name="upper-bound"> <data type="double"/> </attribute>
       </element>
       <element name="error-factor">
         <attribute name="percentage">
-- 
2.43.0


From 9527311a3be0709b7f6903830249698ed60ec46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:32 +0000
Subject: [PATCH 57/85] fix: omit the results element from reports without
 results

---
 src/reporter.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/reporter.cc b/src/reporter.cc
index 23616cc..7e58e8a 100644
--- a/src/reporter.cc
+++ b/src/reporter.cc
@@ -36,6 +36,7 @@
 #include "ccf_group.h"
 #include "element.h"
 #include "error.h"
+#include "ext/algorithm.h"
 #include "logger.h"
 #include "parameter.h"
 #include "version.h"
@@ -74,8 +75,16 @@ void Reporter::Report(const core::RiskAnalysis& risk_an, std::FILE* out,
   xml::StreamElement report = xml_stream.root("report");
   ReportInformation(risk_an, &report);
 
-  if (risk_an.results().empty() && risk_an.event_tree_results().empty())
-    return;
+  bool report_sequences = risk_an.settings().probability_analysis() &&
+                          !risk_an.event_tree_results().empty();
+  if (!report_sequences &&
+      ext::none_of(risk_an.results(),
+                   [](const core::RiskAnalysis::Result& result) {
+                     return result.fault_tree_analysis ||
+                            result.probability_analysis;
+                   })) {
+    return;  // The results element must not be empty.
+  }
   TIMER(DEBUG1, "Reporting analysis results");
   xml::StreamElement results = report.AddChild("results");
   if (risk_an.settings().probability_analysis()) {
-- 
2.43.0


From 8521cba6de05ac021e637358c4d84df0c883aa22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:27 +0000
Subject: [PATCH 58/85] fix: take the modulo of numbers beyond the range of int

---
 src/expression/numerical.cc | 10 +++++-----
 src/expression/numerical.h  | 14 +++++++++++++-
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/expression/numerical.cc b/src/expression/numerical.cc
index ba61507..608c6e3 100644
--- a/src/expression/numerical.cc
+++ b/src/expression/numerical.cc
@@ -45,13 +45,13 @@ template <>
 void Mod::Validate() const {
   assert(args().size() == 2);
   auto* arg_two = args().back();
-  int arg_value = arg_two->value();
-  if (arg_value == 0)
+  double arg_value = std::trunc(arg_two->value());
+  if (!(arg_value < 0 || arg_value > 0))  // NaN must not pass.
     SCRAM_THROW(DomainError("Modulo second operand must not be 0."));
   Interval interval = arg_two->interval();
-  int high = interval.upper();
-  int low = interval.lower();
-  if (high == 0 || low == 0 || (low < 0 && 0 < high)) {
+  double high = std::trunc(interval.upper());
+  double low = std::trunc(interval.lower());
+  if (!(high < 0 || low > 0)) {
     SCRAM_THROW(
         DomainError("Modulo second operand sample must not contain 0."));
   }
diff --git a/src/expression/numerical.h b/src/expression/numerical.h
index a29848a..156984a 100644
--- a/src/expression/numerical.h
+++ b/src/expression/numerical.h
@@ -51,6 +51,18 @@ struct Bifunctor {  // Nasty abuse of terminology :(. Haskellers will hate this.
   }
 };
 
+/// The modulo (%) operation on the integer parts of numbers.
+///
+/// @param[in] dividend  The number to be divided.
+/// @param[in] divisor  The number to divide by.
+///
+/// @returns The remainder with the sign of the dividend.
+///
+/// @note The numbers may be out of the range of integer types.
+inline double Modulo(double dividend, double divisor) {
+  return std::fmod(std::trunc(dividend), std::trunc(divisor)) + 0.0;  // No -0.
+}
+
 /// Expression with a bifunctor wrapping a function.
 template <double (*F)(double, double)>
 using BifunctorExpression = NaryExpression<Bifunctor<F>, 2>;
@@ -73,7 +85,7 @@ using Tanh = FunctorExpression<&std::tanh>;  ///< Hyperbolic tangent.
 using Exp = FunctorExpression<&std::exp>;  ///< Exponential.
 using Log = FunctorExpression<&std::log>;  ///< Natural logarithm.
 using Log10 = FunctorExpression<&std::log10>;  ///< Decimal logarithm.
-using Mod = NaryExpression<std::modulus<int>, 2>;  ///< Modulo (%) operation.
+using Mod = BifunctorExpression<&Modulo>;  ///< Modulo (%) operation.
 using Pow = BifunctorExpression<&std::pow>;  ///< Base raised to a power.
 using Sqrt = FunctorExpression<&std::sqrt>;  ///< Square root.
 using Ceil = FunctorExpression<&std::ceil>;  ///< Nearest (>=) integer.
-- 
2.43.0


From f744ddbc50e71a6832d0f9aeabf807a5d78aafef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:20 +0000
Subject: [PATCH 59/85] fix: count periods of periodic tests beyond the range
 of int

---
 src/expression/exponential.cc | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/expression/exponential.cc b/src/expression/exponential.cc
index 0f16862..816d5f0 100644
--- a/src/expression/exponential.cc
+++ b/src/expression/exponential.cc
@@ -23,6 +23,8 @@
 #include <cmath>
 
 #include <algorithm>
+#include <tuple>
+#include <utility>
 
 #include "src/error.h"
 
@@ -63,6 +65,18 @@ double p_exp(double p_mu, double p_lambda, double mu, double lambda,
   return p_min - (1 - p_min) * min_rate * factor;
 }
 
+/// Splits the time of periodic tests.
+///
+/// @param[in] time  The non-negative time since the first test.
+/// @param[in] tau  The positive time between tests.
+///
+/// @returns The number of full periods (maybe out of the range of integers),
+///          and the time after the last test.
+std::pair<double, double> SplitPeriods(double time, double tau) {
+  double num_periods = std::trunc(time / tau);
+  return {num_periods, std::max(time - num_periods * tau, 0.0)};
+}
+
 }  // namespace
 
 Exponential::Exponential(Expression* lambda, Expression* t)
@@ -171,8 +185,7 @@ double PeriodicTest::InstantRepair::Compute(double lambda, double tau,
                                             double time) noexcept {
   if (time <= theta)  // No test has been performed.
     return p_exp(lambda, time);
-  double delta = time - theta;
-  double time_after_test = delta - static_cast<int>(delta / tau) * tau;
+  double time_after_test = SplitPeriods(time - theta, tau).second;
   return p_exp(lambda, time_after_test ? time_after_test : tau);
 }
 
@@ -202,14 +215,12 @@ double PeriodicTest::InstantTest::Compute(double lambda, double mu, double tau,
     return prob * carry(p_lambda, p_mu, t) + p_lambda;
   };
 
-  double delta = time - theta;
-  int num_periods = delta / tau;
+  auto [num_periods, time_after_test] = SplitPeriods(time - theta, tau);
   double fraction = carry(p_exp(lambda, tau), p_exp(mu, tau), tau);
   double compound = std::pow(fraction, num_periods);  // Geometric progression.
   double sum = fraction == 1 ? num_periods : (compound - 1) / (fraction - 1);
   prob = prob * compound + p_exp(lambda, tau) * sum;
 
-  double time_after_test = delta - num_periods * tau;
   return p_period(p_exp(lambda, time_after_test), p_exp(mu, time_after_test),
                   time_after_test);
 }
@@ -269,8 +280,7 @@ double PeriodicTest::Complete::Compute(double lambda, double lambda_test,
     adjust();
   };
 
-  double delta = time - theta;
-  int num_periods = delta / tau;
+  auto [num_periods, time_after_test] = SplitPeriods(time - theta, tau);
   double delta_period = tau - test_duration;
 
   double p_lambda_test = p_exp(lambda_test, test_duration);
@@ -280,12 +290,14 @@ double PeriodicTest::Complete::Compute(double lambda, double lambda_test,
   double p_lambda = p_exp(lambda, delta_period);
   double p_mu = p_exp(mu, delta_period);
 
-  for (int i = 0; i < num_periods; ++i) {
+  for (double i = 0; i < num_periods; ++i) {
+    std::tuple state(p_fail, p_repair, p_available);
     p_test(p_lambda_test, p_mu_at_test, p_lambda_at_test, test_duration);
     p_period(p_lambda, p_mu, delta_period);
+    if (state == std::tie(p_fail, p_repair, p_available))
+      break;  // The steady state.
   }
 
-  double time_after_test = delta - num_periods * tau;
   if (time_after_test <= test_duration) {
     p_test(p_exp(lambda_test, time_after_test), p_exp(mu, time_after_test),
            p_exp(lambda, time_after_test), time_after_test, available_at_test);
@@ -296,7 +308,7 @@ double PeriodicTest::Complete::Compute(double lambda, double lambda_test,
     p_period(p_exp(lambda, leftover_time), p_exp(mu, leftover_time),
              leftover_time);
   }
-  assert(p_available >= 0 && p_available <= 1);
+  assert(!(p_available < 0 || p_available > 1));  // NaN without valid rates.
   return 1 - p_available;
 }
 
-- 
2.43.0


From 06a2881852f6bab278bf74943ff8fbdf9715c7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:40 +0000
Subject: [PATCH 60/85] fix: reject infinite and NaN parameters of
 distributions

---
 src/expression/random_deviate.cc | 27 +++++++++++++++++++++++++++
 src/expression/random_deviate.h  |  2 +-
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/expression/random_deviate.cc b/src/expression/random_deviate.cc
index 868e65f..73d350d 100644
--- a/src/expression/random_deviate.cc
+++ b/src/expression/random_deviate.cc
@@ -38,10 +38,28 @@ namespace scram::mef {
 
 std::mt19937 RandomDeviate::rng_;
 
+namespace {
+
+/// Ensures that parameters of distributions are finite numbers.
+///
+/// @param[in] args  The parameters of a distribution.
+///
+/// @throws DomainError  A parameter is infinite or not a number.
+template <class Range>
+void EnsureFinite(const Range& args) {
+  if (!ext::all_of(args,
+                   [](Expression* arg) { return std::isfinite(arg->value()); }))
+    SCRAM_THROW(
+        DomainError("Distribution parameters must be finite numbers."));
+}
+
+}  // namespace
+
 UniformDeviate::UniformDeviate(Expression* min, Expression* max)
     : RandomDeviate({min, max}), min_(*min), max_(*max) {}
 
 void UniformDeviate::Validate() const {
+  EnsureFinite(Expression::args());
   if (min_.value() >= max_.value()) {
     SCRAM_THROW(
         ValidityError("Min value is more than max for Uniform distribution."));
@@ -57,6 +75,7 @@ NormalDeviate::NormalDeviate(Expression* mean, Expression* sigma)
     : RandomDeviate({mean, sigma}), mean_(*mean), sigma_(*sigma) {}
 
 void NormalDeviate::Validate() const {
+  EnsureFinite(Expression::args());
   if (sigma_.value() <= 0) {
     SCRAM_THROW(DomainError("Standard deviation cannot be negative or zero."));
   }
@@ -76,6 +95,11 @@ LognormalDeviate::LognormalDeviate(Expression* mu, Expression* sigma)
     : RandomDeviate({mu, sigma}),
       flavor_(new LognormalDeviate::Normal(mu, sigma)) {}
 
+void LognormalDeviate::Validate() const {
+  EnsureFinite(Expression::args());
+  flavor_->Validate();
+}
+
 void LognormalDeviate::Logarithmic::Validate() const {
   if (level_.value() <= 0 || level_.value() >= 1) {
     SCRAM_THROW(DomainError("The confidence level is not within (0, 1)."));
@@ -124,6 +148,7 @@ GammaDeviate::GammaDeviate(Expression* k, Expression* theta)
     : RandomDeviate({k, theta}), k_(*k), theta_(*theta) {}
 
 void GammaDeviate::Validate() const {
+  EnsureFinite(Expression::args());
   if (k_.value() <= 0) {
     SCRAM_THROW(
         DomainError("The k shape parameter for Gamma distribution"
@@ -151,6 +176,7 @@ BetaDeviate::BetaDeviate(Expression* alpha, Expression* beta)
     : RandomDeviate({alpha, beta}), alpha_(*alpha), beta_(*beta) {}
 
 void BetaDeviate::Validate() const {
+  EnsureFinite(Expression::args());
   if (alpha_.value() <= 0) {
     SCRAM_THROW(
         DomainError("The alpha shape parameter for Beta distribution"
@@ -186,6 +212,7 @@ Histogram::Histogram(std::vector<Expression*> boundaries,
 }
 
 void Histogram::Validate() const {
+  EnsureFinite(Expression::args());
   if (ext::any_of(weights_, [](const auto& expr) { return expr->value() < 0; }))
     SCRAM_THROW(ValidityError("Histogram weights cannot be negative."));
 
diff --git a/src/expression/random_deviate.h b/src/expression/random_deviate.h
index aee691e..babb311 100644
--- a/src/expression/random_deviate.h
+++ b/src/expression/random_deviate.h
@@ -134,7 +134,7 @@ class LognormalDeviate : public RandomDeviate {
   /// @param[in] sigma  The standard deviation of the normal distribution.
   LognormalDeviate(Expression* mu, Expression* sigma);
 
-  void Validate() const override { flavor_->Validate(); };
+  void Validate() const override;
   double value() noexcept override { return flavor_->mean(); }
   /// The high is 99.9 percentile estimate.
   Interval interval() noexcept override;
-- 
2.43.0


From 58e72daddaebe109f232a0f8d035885948352eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:40 +0000
Subject: [PATCH 61/85] fix: get no exceptions from intervals of gamma and
 log-normal distributions

---
 src/expression/random_deviate.cc | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/expression/random_deviate.cc b/src/expression/random_deviate.cc
index 73d350d..c0511ec 100644
--- a/src/expression/random_deviate.cc
+++ b/src/expression/random_deviate.cc
@@ -26,6 +26,7 @@
 #include <functional>
 
 #include <boost/iterator/transform_iterator.hpp>
+#include <boost/math/policies/policy.hpp>
 #include <boost/math/special_functions/erf.hpp>
 #include <boost/math/special_functions/gamma.hpp>
 #include <boost/random/beta_distribution.hpp>
@@ -40,6 +41,16 @@ std::mt19937 RandomDeviate::rng_;
 
 namespace {
 
+/// The policy to get special values instead of exceptions upon math errors.
+using NoThrowPolicy = boost::math::policies::policy<
+    boost::math::policies::domain_error<
+        boost::math::policies::ignore_error>,
+    boost::math::policies::pole_error<boost::math::policies::ignore_error>,
+    boost::math::policies::overflow_error<
+        boost::math::policies::ignore_error>,
+    boost::math::policies::evaluation_error<
+        boost::math::policies::ignore_error>>;
+
 /// Ensures that parameters of distributions are finite numbers.
 ///
 /// @param[in] args  The parameters of a distribution.
@@ -127,7 +138,8 @@ Interval LognormalDeviate::interval() noexcept {
 }
 
 double LognormalDeviate::Logarithmic::scale() noexcept {
-  double z = -std::sqrt(2) * boost::math::erfc_inv(2 * level_.value());
+  double z =
+      -std::sqrt(2) * boost::math::erfc_inv(2 * level_.value(), NoThrowPolicy());
   return std::log(ef_.value()) / z;
 }
 
@@ -163,7 +175,8 @@ void GammaDeviate::Validate() const {
 Interval GammaDeviate::interval() noexcept {
   double k = k_.value();
   double high_estimate =
-      theta_.value() * std::max(k, boost::math::gamma_q_inv(k, 0.01));
+      theta_.value() *
+      std::max(k, boost::math::gamma_q_inv(k, 0.01, NoThrowPolicy()));
   return Interval::left_open(0, high_estimate);
 }
 
-- 
2.43.0


From 76237745d3abfc7ad9e2ccaba88a30fb8665ad3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:40 +0000
Subject: [PATCH 62/85] fix: report input file names that cannot be looked up
 as missing files

---
 src/initializer.cc | 3 ++-
 src/project.cc     | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/initializer.cc b/src/initializer.cc
index c7450bb..a265d73 100644
--- a/src/initializer.cc
+++ b/src/initializer.cc
@@ -168,7 +168,8 @@ Initializer::Initializer(const std::vector<std::string>& xml_files,
 void Initializer::CheckFileExistence(
     const std::vector<std::string>& xml_files) {
   for (auto& xml_file : xml_files) {
-    if (boost::filesystem::exists(xml_file) == false) {
+    if (boost::system::error_code code;
+        !boost::filesystem::exists(xml_file, code)) {
       SCRAM_THROW(IOError("Input file doesn't exist."))
           << boost::errinfo_file_name(xml_file);
     }
diff --git a/src/project.cc b/src/project.cc
index 0494736..d89734c 100644
--- a/src/project.cc
+++ b/src/project.cc
@@ -61,7 +61,7 @@ std::string normalize(const std::string& file_path, const fs::path& base_path) {
 Project::Project(const std::string& project_file) {
   static xml::Validator validator(env::project_schema());
 
-  if (fs::exists(project_file) == false) {
+  if (boost::system::error_code code; !fs::exists(project_file, code)) {
     SCRAM_THROW(IOError("The configuration file does not exist."))
         << boost::errinfo_file_name(project_file);
   }
-- 
2.43.0


From cec156aadd300edd08bcfa897d704cca8501aaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:29 +0000
Subject: [PATCH 63/85] fix: sample beta distributions with shapes near zero

---
 src/expression/random_deviate.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/expression/random_deviate.cc b/src/expression/random_deviate.cc
index c0511ec..5abb6f9 100644
--- a/src/expression/random_deviate.cc
+++ b/src/expression/random_deviate.cc
@@ -202,8 +202,16 @@ void BetaDeviate::Validate() const {
 }
 
 double BetaDeviate::DoSample() noexcept {
-  return boost::random::beta_distribution(alpha_.value(),
-                                          beta_.value())(RandomDeviate::rng());
+  double alpha = alpha_.value();
+  double beta = beta_.value();
+  double sample =
+      boost::random::beta_distribution(alpha, beta)(RandomDeviate::rng());
+  if (!std::isnan(sample))
+    return sample;
+  // The samples of the underlying Gamma distributions underflow.
+  // With such shapes, the distribution approaches Bernoulli's.
+  return std::bernoulli_distribution(alpha / (alpha + beta))(
+      RandomDeviate::rng());
 }
 
 Histogram::Histogram(std::vector<Expression*> boundaries,
-- 
2.43.0


From b0eb73521ac6d960c6634670d4cb047929661ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:08 +0000
Subject: [PATCH 64/85] fix: take the min number of the dialog for at-least
 gates in the GUI

---
 gui/mainwindow.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gui/mainwindow.cpp b/gui/mainwindow.cpp
index de5286b..de3f208 100644
--- a/gui/mainwindow.cpp
+++ b/gui/mainwindow.cpp
@@ -1134,7 +1134,7 @@ std::unique_ptr<mef::Formula> MainWindow::extract(const EventDialog &dialog)
     mef::Connective connective = dialog.connective();
     auto minNumber = [&connective, &dialog]() -> std::optional<int> {
         if (connective == mef::kAtleast)
-            dialog.minNumber();
+            return dialog.minNumber();
         return {};
     }();
     return std::make_unique<mef::Formula>(connective, std::move(arg_set),
-- 
2.43.0


From 03ed430cd94774a1b35d2b2ad86ca76016a6c2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:18 +0000
Subject: [PATCH 65/85] fix: show probabilities exactly in the event dialog of
 the GUI

---
 gui/eventdialog.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/gui/eventdialog.cpp b/gui/eventdialog.cpp
index 0897563..c7b973b 100644
--- a/gui/eventdialog.cpp
+++ b/gui/eventdialog.cpp
@@ -21,6 +21,7 @@
 
 #include <QCompleter>
 #include <QListView>
+#include <QLocale>
 #include <QObject>
 #include <QPushButton>
 #include <QShortcut>
@@ -269,6 +270,16 @@ void EventDialog::setupData(const model::HouseEvent &element)
     stateBox->setCurrentIndex(element.state());
 }
 
+namespace {
+
+/// @returns The shortest text that is read back as the same number.
+QString numberText(double value)
+{
+    return QString::number(value, 'g', QLocale::FloatingPointShortest);
+}
+
+} // namespace
+
 void EventDialog::setupData(const model::BasicEvent &element)
 {
     setupData(element, element.data());
@@ -279,14 +290,14 @@ void EventDialog::setupData(const model::BasicEvent &element)
         if (auto *constExpr = dynamic_cast<mef::ConstantExpression *>(
                 &basicEvent.expression())) {
             expressionType->setCurrentIndex(0);
-            constantValue->setText(QString::number(constExpr->value()));
+            constantValue->setText(numberText(constExpr->value()));
         } else {
             auto *exponentialExpr =
                 dynamic_cast<mef::Exponential *>(&basicEvent.expression());
             GUI_ASSERT(exponentialExpr, );
             expressionType->setCurrentIndex(1);
             exponentialRate->setText(
-                QString::number(exponentialExpr->args().front()->value()));
+                numberText(exponentialExpr->args().front()->value()));
         }
     } else {
         expressionBox->setChecked(false);
-- 
2.43.0


From 06bd1753994918e69afe530e21d70915c5c035f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:37 +0000
Subject: [PATCH 66/85] fix: keep the min number of at-least gates in the event
 dialog of the GUI

---
 gui/eventdialog.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gui/eventdialog.cpp b/gui/eventdialog.cpp
index c7b973b..5706ba2 100644
--- a/gui/eventdialog.cpp
+++ b/gui/eventdialog.cpp
@@ -320,12 +320,12 @@ void EventDialog::setupData(const model::Gate &element)
     }
 
     connectiveBox->setCurrentIndex(element.type());
-    if (element.minNumber())
-        minNumberBox->setValue(*element.minNumber());
     for (const mef::Formula::Arg &arg : element.args())
         argsList->addItem(QString::fromStdString(
             ext::as<const mef::Event *>(arg.event)->id()));
     emit formulaArgsChanged(); ///< @todo Bogus signal order conflicts.
+    if (element.minNumber()) // The limit depends on the number of arguments.
+        minNumberBox->setValue(*element.minNumber());
 }
 
 std::unique_ptr<mef::Expression> EventDialog::expression() const
-- 
2.43.0


From e5218916266d9ab898c776634843823ee4cbc41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:37 +0000
Subject: [PATCH 67/85] fix: accept the system mission time in models of the
 GUI, which it saves

---
 share/gui.rng | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/share/gui.rng b/share/gui.rng
index 23f44b1..2522f84 100644
--- a/share/gui.rng
+++ b/share/gui.rng
@@ -381,7 +381,12 @@
     <define name="exponential">
       <element name="exponential">
         <ref name="expression"/>
-        <ref name="expression"/>
+        <choice>
+          <ref name="expression"/>
+          <element name="system-mission-time">
+            <empty/>
+          </element>
+        </choice>
       </element>
     </define>
 
-- 
2.43.0


From 39d67ec56c701ac33c4c1a12e8217cd6c7ed4a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:54 +0000
Subject: [PATCH 68/85] fix: restore the replaced flavor of a basic event on
 undo

---
 gui/model.cpp | 12 +++++++-----
 gui/model.h   |  2 ++
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/gui/model.cpp b/gui/model.cpp
index 30763c2..dab2b12 100644
--- a/gui/model.cpp
+++ b/gui/model.cpp
@@ -85,14 +85,16 @@ void BasicEvent::SetFlavor::redo()
         return;
 
     mef::Element *mefEvent = m_basicEvent->data();
-    switch (m_flavor) {
-    case Basic:
+    std::optional<mef::Attribute> cur_attribute =
         mefEvent->RemoveAttribute("flavor");
-        break;
-    case Undeveloped:
+    if (m_applied) { // Brings back whatever has been replaced.
+        if (m_attribute)
+            mefEvent->SetAttribute(std::move(*m_attribute));
+    } else if (m_flavor == Undeveloped) {
         mefEvent->SetAttribute({"flavor", "undeveloped", ""});
-        break;
     }
+    m_attribute = std::move(cur_attribute);
+    m_applied = true;
     m_basicEvent->m_flavor = m_flavor;
     emit m_basicEvent->flavorChanged(m_flavor);
     m_flavor = cur_flavor;
diff --git a/gui/model.h b/gui/model.h
index e13b6ab..9247c7e 100644
--- a/gui/model.h
+++ b/gui/model.h
@@ -258,6 +258,8 @@ public:
     private:
         Flavor m_flavor;          ///< The basic event flavor.
         BasicEvent *m_basicEvent; ///< The target basic event.
+        bool m_applied = false;   ///< The attribute to apply is known.
+        std::optional<mef::Attribute> m_attribute; ///< The replaced one.
     };
 
 signals:
-- 
2.43.0


From 6cb25124794d43f040d14875a449d48b59d132a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:57 +0000
Subject: [PATCH 69/85] fix: refuse model names in the GUI that cannot be saved
 and read

---
 gui/mainwindow.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/gui/mainwindow.cpp b/gui/mainwindow.cpp
index de3f208..eafa218 100644
--- a/gui/mainwindow.cpp
+++ b/gui/mainwindow.cpp
@@ -28,10 +28,12 @@
 
 #include <QApplication>
 #include <QCoreApplication>
+#include <QDialogButtonBox>
 #include <QFileDialog>
 #include <QMessageBox>
 #include <QPrinter>
 #include <QProgressDialog>
+#include <QPushButton>
 #include <QtConcurrent>
 #include <QtOpenGL>
 
@@ -76,6 +78,13 @@ public:
     {
         setupUi(this);
         nameLine->setValidator(Validator::name());
+        // The empty name resets the model name to the default.
+        connect(nameLine, &QLineEdit::textChanged, this,
+                [this](const QString &text) {
+                    buttonBox->button(QDialogButtonBox::Ok)
+                        ->setEnabled(text.isEmpty()
+                                     || nameLine->hasAcceptableInput());
+                });
     }
 };
 
-- 
2.43.0


From 958cf24c3b2725e1182a44e0f53892d373d44291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:20 +0000
Subject: [PATCH 70/85] fix: edit models of the GUI with events defined in
 fault trees

---
 gui/mainwindow.cpp | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/gui/mainwindow.cpp b/gui/mainwindow.cpp
index eafa218..78d7f73 100644
--- a/gui/mainwindow.cpp
+++ b/gui/mainwindow.cpp
@@ -284,6 +284,28 @@ bool MainWindow::setProjectFile(const std::string &projectFilePath,
     return true;
 }
 
+namespace {
+
+/// Leaves non-gate events only in the model container.
+///
+/// @param[in,out] model  The model with fault trees.
+void normalize(mef::Model *model)
+{
+    auto clear = [](auto *faultTree, auto table) {
+        std::vector<decltype(&*table.begin())> events;
+        for (auto &event : table)
+            events.push_back(&event);
+        for (auto *event : events)
+            faultTree->Remove(event);
+    };
+    for (mef::FaultTree &faultTree : model->table<mef::FaultTree>()) {
+        clear(&faultTree, faultTree.table<mef::BasicEvent>());
+        clear(&faultTree, faultTree.table<mef::HouseEvent>());
+    }
+}
+
+} // namespace
+
 bool MainWindow::addInputFiles(const std::vector<std::string> &inputFiles)
 {
     static xml::Validator validator(env::install_dir()
@@ -314,6 +336,7 @@ bool MainWindow::addInputFiles(const std::vector<std::string> &inputFiles)
             }
         }
 
+        normalize(newModel.get());
         m_model = std::move(newModel);
         m_inputFiles = std::move(allInput);
     } catch (const scram::IOError &err) {
-- 
2.43.0


From b852087c043e37b8d3243a79fe8d33536d904107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:20 +0000
Subject: [PATCH 71/85] fix: refuse malformed argument names in the event
 dialog of the GUI

---
 gui/eventdialog.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gui/eventdialog.cpp b/gui/eventdialog.cpp
index 5706ba2..b6b8e9d 100644
--- a/gui/eventdialog.cpp
+++ b/gui/eventdialog.cpp
@@ -109,7 +109,7 @@ EventDialog::EventDialog(mef::Model *model, QWidget *parent)
     });
     connect(addArgLine, &QLineEdit::returnPressed, this, [this] {
         QString name = addArgLine->text();
-        if (name.isEmpty())
+        if (!addArgLine->hasAcceptableInput())
             return;
         addArgLine->setStyleSheet(yellowBackground);
         if (hasFormulaArg(name)) {
-- 
2.43.0


From 27748d74360178f994e6f9b5fcccf7e80e5ea21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:07 +0000
Subject: [PATCH 72/85] fix: refuse names in the GUI with letters that XML
 names cannot have

---
 gui/validator.cpp | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/gui/validator.cpp b/gui/validator.cpp
index 200395a..20a819e 100644
--- a/gui/validator.cpp
+++ b/gui/validator.cpp
@@ -26,11 +26,35 @@
 #include <QRegularExpression>
 #include <QRegularExpressionValidator>
 
+#include <libxml/tree.h>
+
 namespace scram::gui {
 
+namespace {
+
+/// Validator of names that can be written to and read from XML files.
+class NameValidator : public QRegularExpressionValidator
+{
+public:
+    using QRegularExpressionValidator::QRegularExpressionValidator;
+
+    State validate(QString &input, int &pos) const override
+    {
+        State state = QRegularExpressionValidator::validate(input, pos);
+        if (state == Invalid || input.isEmpty())
+            return state;
+        // XML names have fewer letters and digits than Unicode.
+        QByteArray name = input.toUtf8();
+        auto *text = reinterpret_cast<const xmlChar *>(name.constData());
+        return xmlValidateNCName(text, /*space=*/0) == 0 ? state : Invalid;
+    }
+};
+
+} // namespace
+
 const QValidator *Validator::name()
 {
-    static const QRegularExpressionValidator nameValidator(
+    static const NameValidator nameValidator(
         QRegularExpression(QStringLiteral(R"([[:alpha:]]\w*(-\w+)*)"),
                            QRegularExpression::UseUnicodePropertiesOption));
     return &nameValidator;
-- 
2.43.0


From a43fecdc4894a75d15986d6d50d5605668dc3823 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 03:53:46 +0000
Subject: [PATCH 73/85] fix: generate gates of at least two arguments for the
 lowest averages

---
 scripts/fault_tree_generator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/fault_tree_generator.py b/scripts/fault_tree_generator.py
index 08538db..0e6185d 100755
--- a/scripts/fault_tree_generator.py
+++ b/scripts/fault_tree_generator.py
@@ -297,6 +297,7 @@ class Factors:  # pylint: disable=too-many-instance-attributes
         # Dealing with the fractional part.
         if random.random() < (self.__max_args - max_args):
             max_args += 1
+        max_args = max(max_args, 2)
 
         if gate.operator == "atleast":
             if max_args < 3:
-- 
2.43.0


From aa3fd7995394694acb41cb8b8eabfa957c72523c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 03:53:46 +0000
Subject: [PATCH 74/85] fix: reject factors of the fault tree generator that
 cannot be satisfied

---
 scripts/fault_tree_generator.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/scripts/fault_tree_generator.py b/scripts/fault_tree_generator.py
index 0e6185d..2d64c9a 100755
--- a/scripts/fault_tree_generator.py
+++ b/scripts/fault_tree_generator.py
@@ -212,11 +212,17 @@ class Factors:  # pylint: disable=too-many-instance-attributes
         """Calculates any derived factors from the setup.
 
         This function must be called after all public factors are initialized.
+
+        Raises:
+            FactorError: The factors leave no arguments for basic events.
         """
         self.__max_args = Factors.__calculate_max_args(self.num_args,
                                                        self.__norm_weights)
         g_factor = 1 - self.common_g + self.common_g / self.parents_g
         self.__ratio = self.num_args * g_factor - 1
+        if self.__ratio <= 0:
+            raise FactorError("Not enough gate arguments for basic events "
+                              "with these factors for common gates.")
         self.__percent_basic = self.__ratio / (1 + self.__ratio)
         self.__percent_gate = 1 / (1 + self.__ratio)
 
@@ -369,6 +375,9 @@ class Factors:  # pylint: disable=too-many-instance-attributes
 
         Args:
             num_gate: The total number of gates in the future fault tree
+
+        Raises:
+            FactorError: Invalid or unsatisfiable setup.
         """
         if num_gate < 1:
             raise FactorError("# of gates can't be less than 1.")
@@ -384,12 +393,14 @@ class Factors:  # pylint: disable=too-many-instance-attributes
             common = round(min_common + 0.05, 1)
         elif common > 2 * min_common:  # Really hope it does not happen
             common = 2 * min_common
-        assert common < 1  # Very brittle configuration here
+        if not 0 < min_common < common < 1:  # Very brittle configuration here
+            raise FactorError("Cannot satisfy the # of gates")
 
         self.common_g = common
         self.common_b = common
         parents = 1 / (1 - min_common / common)
-        assert parents > 2  # This is brittle as well
+        if parents < 2:  # This is brittle as well
+            raise FactorError("Cannot satisfy the # of gates")
         self.parents_g = parents
         self.parents_b = parents
 
-- 
2.43.0


From a7c9de98d157ed9021b7edb247a52a6e1cfb05fd Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 03:53:46 +0000
Subject: [PATCH 75/85] fix: generate exactly the given number of basic events,
 always

---
 scripts/fault_tree_generator.py | 72 ++++++++++++++++++++++++++++-----
 1 file changed, 61 insertions(+), 11 deletions(-)

diff --git a/scripts/fault_tree_generator.py b/scripts/fault_tree_generator.py
index 2d64c9a..fd1d49e 100755
--- a/scripts/fault_tree_generator.py
+++ b/scripts/fault_tree_generator.py
@@ -349,8 +349,9 @@ class Factors:  # pylint: disable=too-many-instance-attributes
         Returns:
             The estimated number of common basic events.
         """
-        return int(self.common_b * self.__percent_basic * self.num_args *
-                   num_gate / self.parents_b)
+        return min(self.num_basic,
+                   int(self.common_b * self.__percent_basic * self.num_args *
+                       num_gate / self.parents_b))
 
     def get_num_common_gate(self, num_gate):
         """Estimates the number of common gates.
@@ -518,7 +519,7 @@ def candidate_gates(common_gate):
         yield i
 
 
-def correct_for_exhaustion(gates_queue, common_gate, fault_tree):
+def correct_for_exhaustion(gates_queue, common_basic, common_gate, fault_tree):
     """Corrects the generation for queue exhaustion.
 
     Corner case when not enough new basic events initialized,
@@ -527,27 +528,43 @@ def correct_for_exhaustion(gates_queue, common_gate, fault_tree):
 
     Args:
         gates_queue: A deque of gates to be initialized.
+        common_basic: A list of common basic events.
         common_gate: A list of common gates.
         fault_tree: The fault tree container of all events and constructs.
     """
     if gates_queue:
         return
-    if len(fault_tree.basic_events) < fault_tree.factors.num_basic:
-        # Initialize one more gate
-        # by randomly choosing places in the fault tree.
+
+    def choose_gate():
+        """Randomly chooses a place for one more argument."""
         random_gate = random.choice(fault_tree.gates)
         while (random_gate.operator == "not" or random_gate.operator == "xor" or
                random_gate in common_gate):
             random_gate = random.choice(fault_tree.gates)
+        return random_gate
+
+    if len(fault_tree.basic_events) < fault_tree.factors.num_basic:
+        # Initialize one more gate
+        # by randomly choosing places in the fault tree.
+        random_gate = choose_gate()
         new_gate = fault_tree.construct_gate()
         random_gate.add_argument(new_gate)
         gates_queue.append(new_gate)
+        return
 
+    # Place the common nodes that have not been used.
+    for basic_event in [x for x in common_basic if x.is_orphan()]:
+        choose_gate().add_argument(basic_event)
+    for gate in [x for x in common_gate if x.is_orphan()]:
+        choose_gate().add_argument(gate)
+        gates_queue.append(gate)
 
-def choose_basic_event(s_common, common_basic, fault_tree):
+
+def choose_basic_event(gate, s_common, common_basic, fault_tree):
     """Creates a new basic event or uses a common one for gate arguments.
 
     Args:
+        gate: The gate that takes the event.
         s_common: Sampled factor to choose common basic events.
         common_basic: A list of common basic events to choose from.
         fault_tree: The fault tree container of all events and constructs.
@@ -555,7 +572,14 @@ def choose_basic_event(s_common, common_basic, fault_tree):
     Returns:
         Basic event argument for a gate.
     """
-    if s_common >= fault_tree.factors.common_b or not common_basic:
+    if len(fault_tree.basic_events) >= fault_tree.factors.num_basic:
+        # Any unused event if the common ones run out.
+        if all(x in gate.b_arguments for x in common_basic):
+            basic_event = random.choice(fault_tree.basic_events)
+            while basic_event in gate.b_arguments:
+                basic_event = random.choice(fault_tree.basic_events)
+            return basic_event
+    elif s_common >= fault_tree.factors.common_b or not common_basic:
         return fault_tree.construct_basic_event()
 
     orphans = [x for x in common_basic if not x.parents]
@@ -569,6 +593,22 @@ def choose_basic_event(s_common, common_basic, fault_tree):
     return random.choice(common_basic)
 
 
+def reduce_num_args(gate):
+    """Settles for the arguments of a gate if there are no more events.
+
+    Args:
+        gate: The gate with fewer arguments than sampled.
+
+    Raises:
+        FactorError: The arguments are not enough for the type of the gate.
+    """
+    min_args = {"not": 1, "atleast": 3}.get(gate.operator, 2)
+    if gate.num_arguments() < min_args:
+        raise FactorError("Not enough basic events for gate arguments.")
+    if gate.operator == "atleast":
+        gate.k_num = min(gate.k_num, gate.num_arguments() - 1)
+
+
 def init_gates(gates_queue, common_basic, common_gate, fault_tree):
     """Initializes gates and other basic events.
 
@@ -577,6 +617,9 @@ def init_gates(gates_queue, common_basic, common_gate, fault_tree):
         common_basic: A list of common basic events.
         common_gate: A list of common gates.
         fault_tree: The fault tree container of all events and constructs.
+
+    Raises:
+        FactorError: There are not enough events for the arguments of a gate.
     """
     # Get an intermediate gate to initialize breadth-first
     gate = gates_queue.popleft()
@@ -595,8 +638,13 @@ def init_gates(gates_queue, common_basic, common_gate, fault_tree):
         s_common = random.random()  # sample the reuse frequency
 
         # Case when the number of basic events is already satisfied
-        if len(fault_tree.basic_events) == fault_tree.factors.num_basic:
+        if len(fault_tree.basic_events) >= fault_tree.factors.num_basic:
             s_common = 0  # use only common nodes
+            if num_tries >= max_tries:
+                s_percent = 1  # no more gates
+                if len(gate.b_arguments) == len(fault_tree.basic_events):
+                    reduce_num_args(gate)
+                    break
 
         if s_percent < fault_tree.factors.get_percent_gate():
             # Create a new gate or use a common one
@@ -622,10 +670,12 @@ def init_gates(gates_queue, common_basic, common_gate, fault_tree):
                 gate.add_argument(new_gate)
                 gates_queue.append(new_gate)
         else:
+            if len(gate.b_arguments) == fault_tree.factors.num_basic:
+                continue
             gate.add_argument(
-                choose_basic_event(s_common, common_basic, fault_tree))
+                choose_basic_event(gate, s_common, common_basic, fault_tree))
 
-    correct_for_exhaustion(gates_queue, common_gate, fault_tree)
+    correct_for_exhaustion(gates_queue, common_basic, common_gate, fault_tree)
 
 
 def distribute_house_events(fault_tree):
-- 
2.43.0


From 83be5d80f0ac42772f497e11168fd8911cc91a80 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 03:53:46 +0000
Subject: [PATCH 76/85] fix: summarize fault trees without gates as arguments

---
 scripts/fault_tree_generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/fault_tree_generator.py b/scripts/fault_tree_generator.py
index fd1d49e..1c30f65 100755
--- a/scripts/fault_tree_generator.py
+++ b/scripts/fault_tree_generator.py
@@ -836,8 +836,8 @@ def calculate_complexity_factors(fault_tree):
         if gate.g_arguments:
             num_common_g = len([x for x in gate.g_arguments if x.is_common()])
             common_g += num_common_g / num_g_arguments
-    common_b /= len([x for x in fault_tree.gates if x.b_arguments])
-    common_g /= len([x for x in fault_tree.gates if x.g_arguments])
+    common_b /= len([x for x in fault_tree.gates if x.b_arguments]) or 1
+    common_g /= len([x for x in fault_tree.gates if x.g_arguments]) or 1
     frac_b /= len(fault_tree.gates)
     return frac_b, common_b, common_g
 
-- 
2.43.0


From b5731e4ce344b94304f4b18345ea0de7bcd2322a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 03:53:46 +0000
Subject: [PATCH 77/85] fix: distribute house events in fault trees without
 suitable inner gates

---
 scripts/fault_tree_generator.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/scripts/fault_tree_generator.py b/scripts/fault_tree_generator.py
index 1c30f65..b9b9321 100755
--- a/scripts/fault_tree_generator.py
+++ b/scripts/fault_tree_generator.py
@@ -684,12 +684,13 @@ def distribute_house_events(fault_tree):
     Args:
         fault_tree: The fault tree container of all events and constructs.
     """
+    candidates = [
+        x for x in fault_tree.gates if x is not fault_tree.top_gate and
+        x.operator != "xor" and x.operator != "not"
+    ] or [fault_tree.top_gate]
     while len(fault_tree.house_events) < fault_tree.factors.num_house:
-        target_gate = random.choice(fault_tree.gates)
-        if (target_gate is not fault_tree.top_gate and
-                target_gate.operator != "xor" and
-                target_gate.operator != "not"):
-            target_gate.add_argument(fault_tree.construct_house_event())
+        target_gate = random.choice(candidates)
+        target_gate.add_argument(fault_tree.construct_house_event())
 
 
 def generate_ccf_groups(fault_tree):
-- 
2.43.0


From 5403f66f8522be64ee601709636df0487023c02d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 03:53:46 +0000
Subject: [PATCH 78/85] fix: generate the given number of CCF groups

---
 scripts/fault_tree_generator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scripts/fault_tree_generator.py b/scripts/fault_tree_generator.py
index b9b9321..5068fbd 100755
--- a/scripts/fault_tree_generator.py
+++ b/scripts/fault_tree_generator.py
@@ -706,10 +706,12 @@ def generate_ccf_groups(fault_tree):
         last_mem = 0
         while len(fault_tree.ccf_groups) < fault_tree.factors.num_ccf:
             max_args = int(2 * fault_tree.factors.num_args - 2)
+            # Leave members for the other groups.
+            num_left = fault_tree.factors.num_ccf - len(fault_tree.ccf_groups)
+            max_args = min(max_args,
+                           len(members) - first_mem - 2 * (num_left - 1))
             group_size = random.randint(2, max_args)
             last_mem = first_mem + group_size
-            if last_mem > len(members):
-                break
             fault_tree.construct_ccf_group(members[first_mem:last_mem])
             first_mem = last_mem
         fault_tree.non_ccf_events = members[first_mem:]
-- 
2.43.0


From 8e18787288117a2f8b6243c1b41f64628cdf9b78 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 03:53:46 +0000
Subject: [PATCH 79/85] fix: write generated fault trees in a reproducible
 order

---
 scripts/fault_tree.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/scripts/fault_tree.py b/scripts/fault_tree.py
index 0e7dd3a..87b6e1b 100644
--- a/scripts/fault_tree.py
+++ b/scripts/fault_tree.py
@@ -58,6 +58,11 @@ class Event:
         self.parents.add(gate)
 
 
+def in_order(arguments):
+    """Returns arguments in the same order in all runs."""
+    return sorted(arguments, key=lambda x: x.name)
+
+
 class BasicEvent(Event):
     """Representation of a basic event in a fault tree.
 
@@ -203,7 +208,7 @@ class Gate(Event):  # pylint: disable=too-many-instance-attributes
 
         def args_to_xml(type_str, args):
             """Produces XML string representation of arguments."""
-            return "".join(arg_to_xml(type_str, arg) for arg in args)
+            return "".join(arg_to_xml(type_str, x) for x in in_order(args))
 
         def convert_formula(gate, nest=False):
             """Converts the formula of a gate into XML representation."""
@@ -224,7 +229,8 @@ class Gate(Event):  # pylint: disable=too-many-instance-attributes
                 return arg_to_xml("gate", arg_gate)
 
             if nest:
-                mef_xml += "".join(converter(x) for x in gate.g_arguments)
+                mef_xml += "".join(
+                    converter(x) for x in in_order(gate.g_arguments))
             else:
                 mef_xml += args_to_xml("gate", gate.g_arguments)
 
@@ -265,13 +271,13 @@ class Gate(Event):  # pylint: disable=too-many-instance-attributes
         line_start, div, line_end = get_format(self.operator)
         line.append(line_start)
         args = []
-        for h_arg in self.h_arguments:
+        for h_arg in in_order(self.h_arguments):
             args.append(h_arg.name)
 
-        for b_arg in self.b_arguments:
+        for b_arg in in_order(self.b_arguments):
             args.append(b_arg.name)
 
-        for g_arg in self.g_arguments:
+        for g_arg in in_order(self.g_arguments):
             args.append(g_arg.name)
         line.append(div.join(args))
         line.append(line_end)
@@ -446,7 +452,7 @@ def toposort_gates(root_gates, gates):
         assert gate.mark != "temp"
         if not gate.mark:
             gate.mark = "temp"
-            for arg in gate.g_arguments:
+            for arg in in_order(gate.g_arguments):
                 visit(arg, final_list)
             gate.mark = "perm"
             final_list.appendleft(gate)
-- 
2.43.0


From 6f6f46f0a97e576d9b69099a99c99fa27873a9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 03:54:23 +0000
Subject: [PATCH 80/85] fix: reject NaN and infinite factors of the fault tree
 generator

---
 scripts/fault_tree_generator.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/scripts/fault_tree_generator.py b/scripts/fault_tree_generator.py
index 5068fbd..a92980d 100755
--- a/scripts/fault_tree_generator.py
+++ b/scripts/fault_tree_generator.py
@@ -112,9 +112,9 @@ class Factors:  # pylint: disable=too-many-instance-attributes
         Raises:
             FactorError: Invalid values or setup.
         """
-        if min_value < 0 or min_value > 1:
+        if not 0 <= min_value <= 1:
             raise FactorError("Min probability must be in [0, 1] range.")
-        if max_value < 0 or max_value > 1:
+        if not 0 <= max_value <= 1:
             raise FactorError("Max probability must be in [0, 1] range.")
         if min_value > max_value:
             raise FactorError("Min probability > Max probability.")
@@ -135,14 +135,14 @@ class Factors:  # pylint: disable=too-many-instance-attributes
             FactorError: Invalid values or setup.
         """
         max_common = 0.9  # a practical limit (not a formal constraint)
-        if common_b <= 0 or common_b > max_common:
+        if not 0 < common_b <= max_common:
             raise FactorError("common_b not in (0, " + str(max_common) + "].")
-        if common_g <= 0 or common_g > max_common:
+        if not 0 < common_g <= max_common:
             raise FactorError("common_g not in (0, " + str(max_common) + "].")
         max_parent = 100  # also a practical limit
-        if parents_b < 2 or parents_b > max_parent:
+        if not 2 <= parents_b <= max_parent:
             raise FactorError("parents_b not in [2, " + str(max_parent) + "].")
-        if parents_g < 2 or parents_g > max_parent:
+        if not 2 <= parents_g <= max_parent:
             raise FactorError("parents_g not in [2, " + str(max_parent) + "].")
         self.common_b = common_b
         self.common_g = common_g
@@ -161,7 +161,7 @@ class Factors:  # pylint: disable=too-many-instance-attributes
         Raises:
             FactorError: Invalid values or setup.
         """
-        if num_args < 2:
+        if not 2 <= num_args < float("inf"):
             raise FactorError("avg. # of gate arguments can't be less than 2.")
         if num_basic < 1:
             raise FactorError("# of basic events must be more than 0.")
@@ -249,8 +249,8 @@ class Factors:  # pylint: disable=too-many-instance-attributes
         """
         if not weights:
             raise FactorError("No weights are provided")
-        if [i for i in weights if i < 0]:
-            raise FactorError("Weights cannot be negative")
+        if not all(0 <= i < float("inf") for i in weights):
+            raise FactorError("Weights cannot be negative or infinite")
         if len(weights) > len(Factors.__OPERATORS):
             raise FactorError("Too many weights are provided")
         if sum(weights) == 0:
-- 
2.43.0


From 48e92e4145a8964d0b0dc1dce9e9eafeb47bd877 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 03:59:40 +0000
Subject: [PATCH 81/85] fix: nest NOT connectives only with unique arguments

---
 scripts/fault_tree.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/scripts/fault_tree.py b/scripts/fault_tree.py
index 87b6e1b..c390d90 100644
--- a/scripts/fault_tree.py
+++ b/scripts/fault_tree.py
@@ -155,6 +155,11 @@ class Gate(Event):  # pylint: disable=too-many-instance-attributes
             len(x) for x in (self.b_arguments, self.h_arguments,
                              self.g_arguments, self.u_arguments))
 
+    def all_arguments(self):
+        """Returns the set of arguments of all kinds."""
+        return set().union(self.b_arguments, self.h_arguments,
+                           self.g_arguments, self.u_arguments)
+
     def add_argument(self, argument):
         """Adds argument into a collection of gate arguments.
 
@@ -222,10 +227,16 @@ class Gate(Event):  # pylint: disable=too-many-instance-attributes
             mef_xml += args_to_xml("basic-event", gate.b_arguments)
             mef_xml += args_to_xml("event", gate.u_arguments)
 
+            arguments = gate.all_arguments()
+
             def converter(arg_gate):
                 """Converter for single nesting NOT connective."""
                 if gate.operator != "not" and arg_gate.operator == "not":
-                    return convert_formula(arg_gate)
+                    # The arguments of a formula must be unique.
+                    nested = arg_gate.all_arguments()
+                    if not arguments.intersection(nested):
+                        arguments.update(nested)
+                        return convert_formula(arg_gate)
                 return arg_to_xml("gate", arg_gate)
 
             if nest:
-- 
2.43.0


From 2c0c6d5d153de8714a470821e3b4ada1c673b82b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 05:36:01 +0000
Subject: [PATCH 82/85] fix: analyze with the mission time of the settings in
 the GUI

---
 gui/mainwindow.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gui/mainwindow.cpp b/gui/mainwindow.cpp
index 78d7f73..6c45c9e 100644
--- a/gui/mainwindow.cpp
+++ b/gui/mainwindow.cpp
@@ -812,6 +812,7 @@ void MainWindow::runAnalysis()
     WaitDialog progress(this);
     //: This is a message shown during the analysis run.
     progress.setLabelText(_("Running analysis..."));
+    m_model->mission_time().value(m_settings.mission_time());
     auto analysis =
         std::make_unique<core::RiskAnalysis>(m_model.get(), m_settings);
     QFutureWatcher<void> futureWatcher;
-- 
2.43.0


From 0ab017cfd3eee16c766d8fcfde03d579dbe746c7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 05:37:50 +0000
Subject: [PATCH 83/85] fix: keep the settings that the GUI dialog does not
 present

---
 gui/settingsdialog.cpp | 21 ++++++++++++++++-----
 gui/settingsdialog.h   |  3 +++
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/gui/settingsdialog.cpp b/gui/settingsdialog.cpp
index 0a13163..afb24e7 100644
--- a/gui/settingsdialog.cpp
+++ b/gui/settingsdialog.cpp
@@ -28,18 +28,21 @@ namespace scram::gui {
 
 SettingsDialog::SettingsDialog(const core::Settings &initSettings,
                                QWidget *parent)
-    : QDialog(parent), ui(new Ui::SettingsDialog)
+    : QDialog(parent), ui(new Ui::SettingsDialog), m_initSettings(initSettings)
 {
     ui->setupUi(this);
     setupState(initSettings);
     setupConnections();
+    m_initOrder = ui->productOrder->value();
+    m_initTime = ui->missionTime->value();
 }
 
 SettingsDialog::~SettingsDialog() = default;
 
 core::Settings SettingsDialog::settings() const
 {
-    core::Settings result;
+    // The dialog does not present all the settings.
+    core::Settings result = m_initSettings;
     try {
         if (ui->bdd->isChecked()) {
             result.algorithm(core::Algorithm::kBdd);
@@ -51,8 +54,13 @@ core::Settings SettingsDialog::settings() const
         }
 
         result.prime_implicants(ui->primeImplicants->isChecked());
-        result.probability_analysis(ui->probability->isChecked());
         result.importance_analysis(ui->importance->isChecked());
+        if (ui->probability->isChecked() == false) {
+            // The analyses that imply the probability analysis.
+            result.uncertainty_analysis(false);
+            result.safety_integrity_levels(false);
+        }
+        result.probability_analysis(ui->probability->isChecked());
 
         if (ui->approximationsBox->isChecked() == false) {
             result.approximation(core::Approximation::kNone);
@@ -63,8 +71,11 @@ core::Settings SettingsDialog::settings() const
             result.approximation(core::Approximation::kMcub);
         }
 
-        result.limit_order(ui->productOrder->value());
-        result.mission_time(ui->missionTime->value());
+        // The widgets may round or clip the initial values.
+        if (ui->productOrder->value() != m_initOrder)
+            result.limit_order(ui->productOrder->value());
+        if (ui->missionTime->value() != m_initTime)
+            result.mission_time(ui->missionTime->value());
     } catch (const Error &err) {
         GUI_ASSERT(false && err.what(), result);
     }
diff --git a/gui/settingsdialog.h b/gui/settingsdialog.h
index 1ceb2fd..4dcc767 100644
--- a/gui/settingsdialog.h
+++ b/gui/settingsdialog.h
@@ -55,6 +55,9 @@ private:
     void setupConnections();
 
     std::unique_ptr<Ui::SettingsDialog> ui; ///< The dialog UI.
+    core::Settings m_initSettings; ///< The base for the unpresented settings.
+    int m_initOrder;               ///< The initial product order presented.
+    double m_initTime;             ///< The initial mission time presented.
 };
 
 } // namespace scram::gui
-- 
2.43.0


From 21ff4b6ca65b4f2a414231cf04ddbda4aad195bf Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 05:42:41 +0000
Subject: [PATCH 84/85] fix: remove the row of a removed element from the GUI
 tables

The last element was moved into the row without updating the persistent
indices, so sorting or filtering a gate table after the removal of a gate
looked up the arguments of the gate that is no longer there.
---
 gui/elementcontainermodel.cpp | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/gui/elementcontainermodel.cpp b/gui/elementcontainermodel.cpp
index c770167..95f916f 100644
--- a/gui/elementcontainermodel.cpp
+++ b/gui/elementcontainermodel.cpp
@@ -94,19 +94,12 @@ void ElementContainerModel::removeElement(Element *element)
 {
     GUI_ASSERT(m_elementToIndex.count(element), );
     int index = m_elementToIndex.find(element)->second;
-    int lastIndex = m_elements.size() - 1;
-    auto *lastElement = m_elements.back();
-    // The following is basically a swap with the last item.
-    beginRemoveRows({}, lastIndex, lastIndex);
+    beginRemoveRows({}, index, index);
     m_elementToIndex.erase(element);
-    m_elements.pop_back();
+    m_elements.erase(m_elements.begin() + index);
+    for (int i = index, n = m_elements.size(); i < n; ++i)
+        m_elementToIndex[m_elements[i]] = i;
     endRemoveRows();
-    if (index != lastIndex) {
-        m_elements[index] = lastElement;
-        m_elementToIndex[lastElement] = index;
-        emit dataChanged(createIndex(index, 0, lastElement),
-                         createIndex(index, columnCount() - 1, lastElement));
-    }
     disconnect(element, 0, this, 0);
 }
 
-- 
2.43.0


From 1143e6e78382811537a8d32eca80002e4dcfb219 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 06:52:57 +0000
Subject: [PATCH 85/85] fix: remove the temporary file of a failed save in the
 GUI

---
 gui/mainwindow.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gui/mainwindow.cpp b/gui/mainwindow.cpp
index 6c45c9e..101b052 100644
--- a/gui/mainwindow.cpp
+++ b/gui/mainwindow.cpp
@@ -715,6 +715,8 @@ bool MainWindow::saveToFile(std::string destination)
                 << boost::errinfo_errno(err.code().value());
         }
     } catch (const IOError &err) {
+        boost::system::error_code ignored;
+        fs::remove(temp_file, ignored);
         displayError(err, _("Save error", "error on saving to file"), this);
         return false;
     }
-- 
2.43.0

