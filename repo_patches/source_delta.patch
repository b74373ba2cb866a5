From 1faf0138b4095d7ed3335998202f63b2a90a74f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:18 +0000
Subject: [PATCH 01/60] fix: permute bra with ket of tensors without column
 symmetry when canonicalizing their network

---
 SeQuant/core/tensor_network/v3.cpp | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/SeQuant/core/tensor_network/v3.cpp b/SeQuant/core/tensor_network/v3.cpp
index b33fa16..61faeb9 100644
--- a/SeQuant/core/tensor_network/v3.cpp
+++ b/SeQuant/core/tensor_network/v3.cpp
@@ -370,7 +370,21 @@ ExprPtr TensorNetworkV3::canonicalize_graph(const NamedIndexSet &named_indices,
   for (std::size_t i = 0; i < tensors_.size(); ++i) {
     AbstractTensor &tensor = *tensors_[i];
 
-    if (column_symmetry(tensor) != ColumnSymmetry::Symm) continue;
+    // permutes bra with ket bundles, if needed
+    // TODO extend to support conjugate case
+    auto permute_bra_ket_bundles = [&]() {
+      if (braket_symmetry(tensor) == BraKetSymmetry::Symm &&
+          canonical_bra_ket_bundle_order[i][0] >
+              canonical_bra_ket_bundle_order[i][1]) {
+        tensor._swap_bra_ket();
+      }
+    };
+
+    if (column_symmetry(tensor) != ColumnSymmetry::Symm) {
+      // slots cannot be permuted, but bra can still be permuted with ket
+      permute_bra_ket_bundles();
+      continue;
+    }
     const auto asymm = symmetry(tensor) == Symmetry::Nonsymm;
 
     if (asymm) {  // asymmetric tensor? order column slots only
@@ -418,14 +432,7 @@ ExprPtr TensorNetworkV3::canonicalize_graph(const NamedIndexSet &named_indices,
     }
 
     // lastly permute bra with ket bundles, if needed
-    // TODO extend to support conjugate case
-    if (braket_symmetry(tensor) != BraKetSymmetry::Symm) continue;
-
-    // swap bra and ket bundles
-    if (canonical_bra_ket_bundle_order[i][0] >
-        canonical_bra_ket_bundle_order[i][1]) {
-      tensor._swap_bra_ket();
-    }
+    permute_bra_ket_bundles();
   }
 
   // Less-than relationship for tensors. Tensors that do not commute are
-- 
2.43.0


From b18bfb3354402af7413cfeb025fa4266f53202b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:42 +0000
Subject: [PATCH 02/60] fix: comparing contexts without an index space registry

---
 SeQuant/core/context.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/SeQuant/core/context.cpp b/SeQuant/core/context.cpp
index c7f63c6..e6f115d 100644
--- a/SeQuant/core/context.cpp
+++ b/SeQuant/core/context.cpp
@@ -19,19 +19,24 @@ bool default_context_manipulation_threadsafe() {
 bool operator==(const Context& ctx1, const Context& ctx2) {
   if (&ctx1 == &ctx2)
     return true;
-  else
-    return ctx1.vacuum() == ctx2.vacuum() && ctx1.metric() == ctx2.metric() &&
+  else {
+    const auto reg1 = ctx1.index_space_registry();
+    const auto reg2 = ctx2.index_space_registry();
+    // contexts need not have a registry
+    const bool same_registry =
+        (reg1 && reg2) ? (reg1->spaces() == reg2->spaces() && *reg1 == *reg2)
+                       : reg1 == reg2;
+    return same_registry && ctx1.vacuum() == ctx2.vacuum() &&
+           ctx1.metric() == ctx2.metric() &&
            ctx1.assert_strict_braket_symmetry() ==
                ctx2.assert_strict_braket_symmetry() &&
            ctx1.spbasis() == ctx2.spbasis() &&
            ctx1.first_dummy_index_ordinal() ==
                ctx2.first_dummy_index_ordinal() &&
-           ctx1.index_space_registry()->spaces() ==
-               ctx2.index_space_registry()->spaces() &&
            ctx1.canonicalization_options() == ctx2.canonicalization_options() &&
            ctx1.braket_typesetting() == ctx2.braket_typesetting() &&
-           ctx1.braket_slot_typesetting() == ctx2.braket_slot_typesetting() &&
-           *ctx1.index_space_registry() == *ctx2.index_space_registry();
+           ctx1.braket_slot_typesetting() == ctx2.braket_slot_typesetting();
+  }
 }
 
 bool operator!=(const Context& ctx1, const Context& ctx2) {
-- 
2.43.0


From aee7ce5e23a89a5f99ed40fc30778774f69de9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:42 +0000
Subject: [PATCH 03/60] fix: scoped contexts restore the previous context even
 if it was equal to the new one

---
 SeQuant/core/utility/context.hpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/SeQuant/core/utility/context.hpp b/SeQuant/core/utility/context.hpp
index 23f2ea4..4088c20 100644
--- a/SeQuant/core/utility/context.hpp
+++ b/SeQuant/core/utility/context.hpp
@@ -50,12 +50,11 @@ struct ImplicitContextResetter {
 
 template <typename Ctx>
 ImplicitContextResetter<Ctx> set_scoped_implicit_context(const Ctx& ctx) {
-  if (get_implicit_context<Ctx>() != ctx) {
-    auto previous_ctx = get_implicit_context<Ctx>();
-    set_implicit_context(ctx);
-    return previous_ctx;
-  } else
-    return {};
+  // always restore the previous context, even if it equals ctx: it may be
+  // changed by other means before the scope is left
+  auto previous_ctx = get_implicit_context<Ctx>();
+  set_implicit_context(ctx);
+  return previous_ctx;
 }
 
 }  // namespace sequant::detail
-- 
2.43.0


From 5608ce9f493e33248dbe99b3e91997c31dc0fd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:44 +0000
Subject: [PATCH 04/60] fix: reset memoized hash when a Constant is changed by
 in-place arithmetic or a Variable is conjugated

---
 SeQuant/core/expressions/constant.hpp | 3 +++
 SeQuant/core/expressions/expr.cpp     | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/SeQuant/core/expressions/constant.hpp b/SeQuant/core/expressions/constant.hpp
index 9ae67a9..3b16f56 100644
--- a/SeQuant/core/expressions/constant.hpp
+++ b/SeQuant/core/expressions/constant.hpp
@@ -83,6 +83,7 @@ class Constant : public Expr {
   virtual Expr &operator*=(const Expr &that) override {
     if (that.is<Constant>()) {
       value_ *= that.as<Constant>().value();
+      reset_hash_value();
     } else {
       throw Exception("Constant::operator*=(that): not valid for that");
     }
@@ -92,6 +93,7 @@ class Constant : public Expr {
   virtual Expr &operator+=(const Expr &that) override {
     if (that.is<Constant>()) {
       value_ += that.as<Constant>().value();
+      reset_hash_value();
     } else {
       throw Exception("Constant::operator+=(that): not valid for that");
     }
@@ -101,6 +103,7 @@ class Constant : public Expr {
   virtual Expr &operator-=(const Expr &that) override {
     if (that.is<Constant>()) {
       value_ -= that.as<Constant>().value();
+      reset_hash_value();
     } else {
       throw Exception("Constant::operator-=(that): not valid for that");
     }
diff --git a/SeQuant/core/expressions/expr.cpp b/SeQuant/core/expressions/expr.cpp
index a8ce238..17ee51a 100644
--- a/SeQuant/core/expressions/expr.cpp
+++ b/SeQuant/core/expressions/expr.cpp
@@ -201,7 +201,10 @@ void Variable::set_label(std::wstring label) {
   reset_hash_value();
 }
 
-void Variable::conjugate() { conjugated_ = !conjugated_; }
+void Variable::conjugate() {
+  conjugated_ = !conjugated_;
+  reset_hash_value();
+}
 
 bool Variable::conjugated() const { return conjugated_; }
 
-- 
2.43.0


From 7fe154f2a4700813bb2cb041fd8c7a6bdac26886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:08 +0000
Subject: [PATCH 05/60] fix: prepending a product or a sum keeps the order of
 its elements, and does not count the scalar of an unflattened product twice

---
 SeQuant/core/expressions/product.hpp | 9 ++++++---
 SeQuant/core/expressions/sum.hpp     | 6 +++++-
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/SeQuant/core/expressions/product.hpp b/SeQuant/core/expressions/product.hpp
index 8d9e1a6..1f151c5 100644
--- a/SeQuant/core/expressions/product.hpp
+++ b/SeQuant/core/expressions/product.hpp
@@ -14,6 +14,7 @@
 #include <range/v3/algorithm/equal.hpp>
 #include <range/v3/algorithm/for_each.hpp>
 #include <range/v3/view/filter.hpp>
+#include <range/v3/view/reverse.hpp>
 #include <range/v3/view/transform.hpp>
 
 #include <string>
@@ -236,10 +237,12 @@ class Product : public Expr {
         reset_hash_value();
       }
     } else {  // factor is a product also  ... flatten recursively
-      const auto &factor_product = factor->as<Product>();
-      scalar_ *= factor_product.scalar_;
       if (flatten_tag != Flatten::No) {  // flatten, once or recursively
-        for (auto &&subfactor : factor_product)
+        const auto &factor_product = factor->as<Product>();
+        scalar_ *= factor_product.scalar_;
+        // prepend in reverse to preserve the order of subfactors
+        for (auto &&subfactor :
+             factor_product.factors_ | ranges::views::reverse)
           this->prepend(1, subfactor,
                         flatten_tag == Flatten::Once ? Flatten::No
                                                      : Flatten::Recursively);
diff --git a/SeQuant/core/expressions/sum.hpp b/SeQuant/core/expressions/sum.hpp
index 4cfcda2..cfdeece 100644
--- a/SeQuant/core/expressions/sum.hpp
+++ b/SeQuant/core/expressions/sum.hpp
@@ -14,6 +14,7 @@
 
 #include <range/v3/range/access.hpp>
 #include <range/v3/view/filter.hpp>
+#include <range/v3/view/reverse.hpp>
 #include <range/v3/view/transform.hpp>
 
 #include <optional>
@@ -176,7 +177,10 @@ class Sum : public Expr {
         reset_hash_value();
       }
     } else {  // this recursively flattens Sum summands
-      for (auto &subsummand : *summand) this->prepend(subsummand);
+      // prepend in reverse to preserve the order of subsummands
+      for (auto &subsummand :
+           summand->as<Sum>().summands_ | ranges::views::reverse)
+        this->prepend(subsummand);
     }
     return *this;
   }
-- 
2.43.0


From af196b867985837aabbe5c8bf6301d185ea7c90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:08 +0000
Subject: [PATCH 06/60] fix: appending a product or a sum to itself

---
 SeQuant/core/expressions/product.hpp | 4 ++++
 SeQuant/core/expressions/sum.hpp     | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/SeQuant/core/expressions/product.hpp b/SeQuant/core/expressions/product.hpp
index 1f151c5..9095752 100644
--- a/SeQuant/core/expressions/product.hpp
+++ b/SeQuant/core/expressions/product.hpp
@@ -153,6 +153,8 @@ class Product : public Expr {
   Product &append(T scalar, ExprPtr factor,
                   Flatten flatten_tag = Flatten::Yes) {
     SEQUANT_ASSERT(factor);
+    // factor must not change while it is being flattened into this
+    if (factor.get() == this) factor = factor->clone();
     scalar_ *= scalar;
     if (!factor->is<Product>()) {
       if (factor->is<Constant>()) {  // factor in Constant
@@ -226,6 +228,8 @@ class Product : public Expr {
   Product &prepend(T scalar, ExprPtr factor,
                    Flatten flatten_tag = Flatten::Yes) {
     SEQUANT_ASSERT(factor);
+    // factor must not change while it is being flattened into this
+    if (factor.get() == this) factor = factor->clone();
     scalar_ *= scalar;
     if (!factor->is<Product>()) {
       if (factor->is<Constant>()) {  // factor in Constant
diff --git a/SeQuant/core/expressions/sum.hpp b/SeQuant/core/expressions/sum.hpp
index cfdeece..7b9352d 100644
--- a/SeQuant/core/expressions/sum.hpp
+++ b/SeQuant/core/expressions/sum.hpp
@@ -127,6 +127,8 @@ class Sum : public Expr {
   /// @param summand the summand
   Sum &append(ExprPtr summand) {
     SEQUANT_ASSERT(summand);
+    // summand must not change while it is being flattened into this
+    if (summand.get() == this) summand = summand->clone();
     if (!summand->is<Sum>()) {
       if (!summand->is_zero()) {        // exclude zeros
         if (summand->is<Constant>()) {  // add up constants
@@ -155,6 +157,8 @@ class Sum : public Expr {
   /// @param summand the summand
   Sum &prepend(ExprPtr summand) {
     SEQUANT_ASSERT(summand);
+    // summand must not change while it is being flattened into this
+    if (summand.get() == this) summand = summand->clone();
     if (!summand->is<Sum>()) {
       if (!summand->is_zero()) {
         // exclude zeros
-- 
2.43.0


From 73e49f4c3eff509dda7709392a08542c51008d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:08 +0000
Subject: [PATCH 07/60] fix: a cloned sum equals the original even if it has
 zero summands

---
 SeQuant/core/expressions/sum.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/SeQuant/core/expressions/sum.hpp b/SeQuant/core/expressions/sum.hpp
index 7b9352d..a8902bc 100644
--- a/SeQuant/core/expressions/sum.hpp
+++ b/SeQuant/core/expressions/sum.hpp
@@ -259,11 +259,10 @@ class Sum : public Expr {
   };
 
   ExprPtr clone() const override {
-    auto cloned_summands =
-        summands() | ranges::views::transform(
-                         [](const ExprPtr &ptr) { return ptr->clone(); });
-    return ex<Sum>(ranges::begin(cloned_summands),
-                   ranges::end(cloned_summands));
+    // copy the summands as they are: appending them would drop or merge some
+    auto result = std::make_shared<Sum>(*this);
+    for (auto &summand : result->summands_) summand = summand->clone();
+    return result;
   }
 
   /// @brief adjoint of a Sum is a sum of adjoints of its factors
-- 
2.43.0


From 060dccb8645a1605ba309d8e19de7f6d65ed5bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:16 +0000
Subject: [PATCH 08/60] fix: constructing a sum by moving in summands that
 include zeros or several constants

---
 SeQuant/core/expressions/sum.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/SeQuant/core/expressions/sum.hpp b/SeQuant/core/expressions/sum.hpp
index a8902bc..2ce0199 100644
--- a/SeQuant/core/expressions/sum.hpp
+++ b/SeQuant/core/expressions/sum.hpp
@@ -97,7 +97,7 @@ class Sum : public Expr {
   explicit Sum(summands_type &&summands, move_only_tag)
       : summands_(std::move(summands)) {
     std::size_t pos = 0;
-    for (auto it = summands_.begin(); it != summands_.end(); ++it) {
+    for (auto it = summands_.begin(); it != summands_.end();) {
       auto &summand = *it;
       bool do_erase = false;
       if (summand->is_zero()) {
@@ -115,11 +115,11 @@ class Sum : public Expr {
 
       // erase if needed
       if (do_erase) {
-        summands_.erase(it);
-        it = summands_.begin();
-        std::advance(it, pos);
-      } else
+        it = summands_.erase(it);
+      } else {
+        ++it;
         ++pos;
+      }
     }
   }
 
-- 
2.43.0


From 22cbdd0af725aa63c04cc2e30cc53e0d4d4a2d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:45 +0000
Subject: [PATCH 09/60] fix: reset memoized hash of a product whenever it is
 canonicalized

---
 SeQuant/core/expressions/expr.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/SeQuant/core/expressions/expr.cpp b/SeQuant/core/expressions/expr.cpp
index 17ee51a..8f389ef 100644
--- a/SeQuant/core/expressions/expr.cpp
+++ b/SeQuant/core/expressions/expr.cpp
@@ -230,6 +230,9 @@ bool Product::is_commutative() const {
 }
 
 ExprPtr Product::canonicalize_impl(CanonicalizeOptions opts) {
+  // the factors and the scalar are about to change
+  this->reset_hash_value();
+
   // recursively canonicalize non-tensor subfactors (tensors will be
   // canonicalized as part of the TN built of all tensor factors of this) ...
   ranges::for_each(factors_, [this, opts](auto &factor) {
@@ -309,7 +312,6 @@ ExprPtr Product::canonicalize_impl(CanonicalizeOptions opts) {
                      return exprptr;
                    });
     if (canon_factor) scalar_ *= canon_factor->template as<Constant>().value();
-    this->reset_hash_value();
   } else {  // if contains non-tensors, do commutation-checking resort
 
     // comparer that respects cardinal tensor labels
-- 
2.43.0


From 8904fc9fc4950b55e203d022fe08864c51be2b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:49 +0000
Subject: [PATCH 10/60] fix: normal operators commute only if they contract in
 neither order and are not both odd

---
 SeQuant/core/op.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/SeQuant/core/op.hpp b/SeQuant/core/op.hpp
index 5225429..b1a001c 100644
--- a/SeQuant/core/op.hpp
+++ b/SeQuant/core/op.hpp
@@ -822,9 +822,13 @@ class NormalOperator : public Operator<S>,
       const auto &op_that = that.as<NormalOperator<S>>();
       if (vacuum() ==
           op_that.vacuum()) {  // can only check commutativity for same vacua
+        // products of odd numbers of fermionic ops anticommute
+        if (S == Statistics::FermiDirac && this->size() % 2 == 1 &&
+            op_that.size() % 2 == 1)
+          return false;
         for (auto &&op_l : *this) {
           for (auto &&op_r : op_that) {
-            if (can_contract(op_l, op_r)) {
+            if (can_contract(op_l, op_r) || can_contract(op_r, op_l)) {
               return false;
             }
           }
-- 
2.43.0


From ffc6750bfbd48a314530b8255cb9597383ddad28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:28 +0000
Subject: [PATCH 11/60] fix: Wick's theorem for products with scalar (Variable)
 factors: keep them out of the topology graph

---
 SeQuant/core/wick.impl.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/SeQuant/core/wick.impl.hpp b/SeQuant/core/wick.impl.hpp
index 89042c6..e2e5cd0 100644
--- a/SeQuant/core/wick.impl.hpp
+++ b/SeQuant/core/wick.impl.hpp
@@ -846,7 +846,12 @@ ExprPtr WickTheorem<S>::compute(const bool count_only,
 
           // construct graph representation of the tensor product
           using TN = TensorNetwork;
-          TN tn(expr_input_->as<Product>().factors());
+          // scalar factors (e.g., Variable) are not part of the network
+          TN tn(ranges::views::filter(expr_input_->as<Product>().factors(),
+                                      [](const ExprPtr &factor) {
+                                        return factor->is<AbstractTensor>();
+                                      }) |
+                ranges::to_vector);
           auto g = tn.create_graph({.distinct_named_indices = true});
           const auto &graph = g.bliss_graph;
           const auto &vlabels = g.vertex_labels;
-- 
2.43.0


From 9e960469fc195ba97876d569b6d35a639820590b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:32 +0000
Subject: [PATCH 12/60] fix: Wick's theorem: external indices given by the user
 are not topologically equivalent to dummy ones

---
 SeQuant/core/wick.impl.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/SeQuant/core/wick.impl.hpp b/SeQuant/core/wick.impl.hpp
index e2e5cd0..f0177be 100644
--- a/SeQuant/core/wick.impl.hpp
+++ b/SeQuant/core/wick.impl.hpp
@@ -852,7 +852,17 @@ ExprPtr WickTheorem<S>::compute(const bool count_only,
                                         return factor->is<AbstractTensor>();
                                       }) |
                 ranges::to_vector);
-          auto g = tn.create_graph({.distinct_named_indices = true});
+          // external indices specified by the user may occur more than once
+          const auto &copts = get_default_context().canonicalization_options();
+          TN::NamedIndexSet named_indices;
+          if (external_indices_ && (user_defined_external_indices_ ||
+                                    (copts && copts->named_indices)))
+            named_indices.insert(external_indices_->begin(),
+                                 external_indices_->end());
+          auto g = tn.create_graph(
+              {.named_indices =
+                   named_indices.empty() ? nullptr : &named_indices,
+               .distinct_named_indices = true});
           const auto &graph = g.bliss_graph;
           const auto &vlabels = g.vertex_labels;
           [[maybe_unused]] const auto &vcolors = g.vertex_colors;
-- 
2.43.0


From cd22f916dfdeaf3279e30a2c7a3964f012ca257c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:13 +0000
Subject: [PATCH 13/60] fix: Wick's theorem: exploit topological equivalence
 only of indices whose exchange alone leaves the product unchanged

---
 SeQuant/core/wick.impl.hpp | 86 ++++++++++++++++++++------------------
 1 file changed, 45 insertions(+), 41 deletions(-)

diff --git a/SeQuant/core/wick.impl.hpp b/SeQuant/core/wick.impl.hpp
index f0177be..e247cb5 100644
--- a/SeQuant/core/wick.impl.hpp
+++ b/SeQuant/core/wick.impl.hpp
@@ -1158,7 +1158,11 @@ ExprPtr WickTheorem<S>::compute(const bool count_only,
           // Index partitions are constructed to *only* include Index
           // objects attached to the bra/ket of any NormalOperator! hence
           // need to use filter in computing partitions
-          auto exclude_index_vertex_pair = [&tn_tensors,
+          // N.B. an automorphism can exchange 2 indices together with others
+          // (e.g., columns of a column-symmetric tensor), or at the cost of a
+          // phase, hence must ensure that exchanging just the given 2 indices
+          // leaves the product unchanged
+          auto exclude_index_vertex_pair = [&tn_tensors, &tn_edges,
                                             &idx_vertex_to_edge_ptr](
                                                size_t v1, size_t v2) {
             const auto *edge1_ptr = idx_vertex_to_edge_ptr(v1);
@@ -1166,47 +1170,47 @@ ExprPtr WickTheorem<S>::compute(const bool count_only,
             if (!edge1_ptr || !edge2_ptr) return true;
             const auto &edge1 = *edge1_ptr;
             const auto &edge2 = *edge2_ptr;
-            auto connected_to_bra_or_ket_of_same_symmetric_nop =
-                [&tn_tensors](const auto &edge1, const auto &edge2) -> bool {
-              const auto nt1 = edge1.vertex_count();
-              SEQUANT_ASSERT(nt1 <= 2);
-              const auto nt2 = edge2.vertex_count();
-              SEQUANT_ASSERT(nt2 <= 2);
-              for (auto i1 = 0; i1 != nt1; ++i1) {
-                const auto tensor1_ord = edge1.vertex(i1).getTerminalIndex();
-                for (auto i2 = 0; i2 != nt2; ++i2) {
-                  const auto tensor2_ord = edge2.vertex(i2).getTerminalIndex();
-
-                  // do not skip if connected to same ...
-                  if (tensor1_ord == tensor2_ord) {
-                    auto tensor_ord = tensor1_ord;
-                    const std::shared_ptr<AbstractTensor> &tensor_ptr =
-                        tn_tensors.at(tensor_ord);
-
-                    // ... (anti)symmetric ...
-                    if (tensor_ptr->_symmetry() != Symmetry::Nonsymm) {
-                      const auto tensor1_slot_type =
-                          edge1.vertex(i1).getOrigin();
-                      const auto tensor2_slot_type =
-                          edge2.vertex(i2).getOrigin();
-
-                      // ... bra/ket of ...
-                      if (tensor1_slot_type == tensor2_slot_type) {
-                        // ... NormalOperator!
-                        if (std::dynamic_pointer_cast<NormalOperator<S>>(
-                                tensor_ptr)) {
-                          return true;
-                        }
-                      }
-                    }
-                  }
-                }
+
+            const auto nt = edge1.vertex_count();
+            SEQUANT_ASSERT(nt <= 2);
+            SEQUANT_ASSERT(edge2.vertex_count() <= 2);
+            if (nt != edge2.vertex_count()) return true;
+
+            bool connected_to_nop = false;
+            int phase = 1;
+            for (std::size_t i1 = 0; i1 != nt; ++i1) {
+              // must be connected to same ...
+              const auto tensor_ord = edge1.vertex(i1).getTerminalIndex();
+              const auto slot_type = edge1.vertex(i1).getOrigin();
+              bool connected_to_same_slots = false;
+              for (std::size_t i2 = 0; i2 != nt; ++i2) {
+                connected_to_same_slots |=
+                    edge2.vertex(i2).getTerminalIndex() == tensor_ord &&
+                    edge2.vertex(i2).getOrigin() == slot_type;
               }
-              return false;
-            };
-            const bool exclude =
-                !connected_to_bra_or_ket_of_same_symmetric_nop(edge1, edge2);
-            return exclude;
+              if (!connected_to_same_slots) return true;
+
+              // ... (anti)symmetric ...
+              const std::shared_ptr<AbstractTensor> &tensor_ptr =
+                  tn_tensors.at(tensor_ord);
+              if (tensor_ptr->_symmetry() == Symmetry::Nonsymm) return true;
+              if (tensor_ptr->_symmetry() == Symmetry::Antisymm) phase = -phase;
+
+              // ... bra/ket of (at least one) NormalOperator!
+              if (std::dynamic_pointer_cast<NormalOperator<S>>(tensor_ptr))
+                connected_to_nop = true;
+            }
+            if (!connected_to_nop || phase != 1) return true;
+
+            // dependent indices must depend on both or neither
+            const auto &idx1 = edge1.idx();
+            const auto &idx2 = edge2.idx();
+            if (idx1.proto_indices() != idx2.proto_indices()) return true;
+            return ranges::any_of(tn_edges, [&](const auto &edge) {
+              const auto &protos = edge.idx().proto_indices();
+              return ranges::contains(protos, idx1) !=
+                     ranges::contains(protos, idx2);
+            });
           };
 
           // index_vidx2pidx maps vertex index (see
-- 
2.43.0


From fa6f0cc81692dc36926a9faabca05af0a458e5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:41 +0000
Subject: [PATCH 14/60] fix: a sum or power scaled by a number was torn apart
 by to_expr

---
 SeQuant/core/eval/eval_expr.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/SeQuant/core/eval/eval_expr.hpp b/SeQuant/core/eval/eval_expr.hpp
index 779bb0b..764ddb9 100644
--- a/SeQuant/core/eval/eval_expr.hpp
+++ b/SeQuant/core/eval/eval_expr.hpp
@@ -515,9 +515,11 @@ ExprPtr to_expr(meta::eval_node auto const& node) {
 
     SEQUANT_ASSERT(!prod.empty());
 
-    if (prod.size() == 1 && !prod.factor(0)->is<Tensor>()) {
-      return ex<Product>(Product{prod.scalar(), prod.factor(0)->begin(),
-                                 prod.factor(0)->end(), Product::Flatten::No});
+    if (prod.size() == 1 && prod.factor(0)->is<Product>()) {
+      auto const& inner = prod.factor(0)->as<Product>();
+      return ex<Product>(Product{prod.scalar() * inner.scalar(),
+                                 inner.begin(), inner.end(),
+                                 Product::Flatten::No});
     } else {
       return ex<Product>(std::move(prod));
     }
-- 
2.43.0


From 284942a9af6cd7c537a2b8a43ec0052d0c74e835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:41 +0000
Subject: [PATCH 15/60] fix: sign of antisymmetric tensors whose slots are
 reordered by binarize

---
 SeQuant/core/eval/eval_expr.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/SeQuant/core/eval/eval_expr.cpp b/SeQuant/core/eval/eval_expr.cpp
index bf77ec1..f22de4b 100644
--- a/SeQuant/core/eval/eval_expr.cpp
+++ b/SeQuant/core/eval/eval_expr.cpp
@@ -386,6 +386,9 @@ EvalExprNode binarize(Variable const& v) { return EvalExprNode{EvalExpr{v}}; }
 
 EvalExprNode binarize(Power const& p) { return EvalExprNode{EvalExpr{p}}; }
 
+EvalExprNode binarize(Product const& prod, IndexSet const& uncontract,
+                      const BinarizationOptions& opts);
+
 EvalExprNode binarize(Tensor const& t) {
   // Detect adjoint-marked tensor leaves (label ending in U+207A '⁺'). These
   // arise when the user wrote an adjoint of a BraKetSymmetry::Nonsymm tensor,
@@ -407,7 +410,7 @@ EvalExprNode binarize(Tensor const& t) {
     bare.adjoint();
     SEQUANT_ASSERT(bare.label().empty() ||
                    bare.label().back() != adjoint_label);
-    EvalExprNode bare_leaf{EvalExpr{bare}};
+    EvalExprNode bare_leaf = binarize(bare);
 
     // Sentinel right child.
     EvalExprNode sentinel{EvalExpr{Constant{1}}};
@@ -426,7 +429,14 @@ EvalExprNode binarize(Tensor const& t) {
     return EvalExprNode{std::move(adj), std::move(bare_leaf),
                         std::move(sentinel)};
   }
-  return EvalExprNode{EvalExpr{t}};
+
+  EvalExprNode leaf{EvalExpr{t}};
+  if (leaf->canon_phase() == 1 || leaf->has_connectivity_graph()) return leaf;
+
+  // reordering the slots of an antisymmetric tensor changed its sign, so that
+  // t is -1 times the tensor held by the leaf
+  return binarize(
+      Product(-1, ExprPtrList{leaf->expr()}, Product::Flatten::No), {}, {});
 }
 
 EvalExprNode binarize(Sum const& sum, IndexSet const& uncontract,
-- 
2.43.0


From db2c5dbb0d84735005fcf530f7eec0f5ff699544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:41 +0000
Subject: [PATCH 16/60] fix: definition of a common subexpression lacked its
 canonical phase

---
 .../core/optimize/common_subexpression_elimination.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/SeQuant/core/optimize/common_subexpression_elimination.hpp b/SeQuant/core/optimize/common_subexpression_elimination.hpp
index ef009a2..a161970 100644
--- a/SeQuant/core/optimize/common_subexpression_elimination.hpp
+++ b/SeQuant/core/optimize/common_subexpression_elimination.hpp
@@ -163,11 +163,17 @@ class SubexpressionReplacer {
       // and reassemble the tree in order to get the desired outcome.
 
       ResultExpr intermediate = [&]() {
+        // the CSE stands for the canonical form of the tree
+        ExprPtr definition = to_expr(tree);
+        if (tree->canon_phase() != 1) {
+          definition = ex<Constant>(tree->canon_phase()) * definition;
+        }
+
         if (expr->is<Tensor>()) {
-          return ResultExpr(expr->as<Tensor>(), to_expr(tree));
+          return ResultExpr(expr->as<Tensor>(), std::move(definition));
         }
 
-        return ResultExpr(expr->as<Variable>(), to_expr(tree));
+        return ResultExpr(expr->as<Variable>(), std::move(definition));
       }();
 
       intermediate_definition = expr_to_tree(intermediate);
-- 
2.43.0


From 72fd35c342947c0bb8f2d359a74f943a11b534e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:41 +0000
Subject: [PATCH 17/60] fix: sums with differently ordered operands were taken
 for equal evaluation trees

---
 SeQuant/core/eval/eval_node_compare.hpp | 36 +++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/SeQuant/core/eval/eval_node_compare.hpp b/SeQuant/core/eval/eval_node_compare.hpp
index 5ac2ae8..1429826 100644
--- a/SeQuant/core/eval/eval_node_compare.hpp
+++ b/SeQuant/core/eval/eval_node_compare.hpp
@@ -6,8 +6,10 @@
 #include <SeQuant/core/utility/tensor.hpp>
 #include <SeQuant/external/bliss/graph.hh>
 
+#include <algorithm>
 #include <cstddef>
 #include <unordered_map>
+#include <vector>
 
 namespace sequant {
 
@@ -119,12 +121,46 @@ struct TreeNodeEqualityComparator {
       if (!(*this)(lhs.right(), rhs.right())) {
         return false;
       }
+      if (!same_operand_layout(lhs, rhs)) {
+        return false;
+      }
     }
 
     return true;
   }
 
  private:
+  /// Operands that are equal by themselves (i.e. up to a phase and to the names
+  /// of their indices) need not be combined in the same way
+  static bool same_operand_layout(const TreeNode &lhs, const TreeNode &rhs) {
+    auto positions = [](auto &&indices, auto const &in) {
+      std::vector<std::ptrdiff_t> result;
+      for (Index const &idx : indices) {
+        result.push_back(std::find(in.begin(), in.end(), idx) - in.begin());
+      }
+      return result;
+    };
+
+    if (lhs->is_sum()) {
+      return lhs.left()->canon_phase() == rhs.left()->canon_phase() &&
+             lhs.right()->canon_phase() == rhs.right()->canon_phase() &&
+             positions(lhs.right()->canon_indices(),
+                       lhs.left()->canon_indices()) ==
+                 positions(rhs.right()->canon_indices(),
+                           rhs.left()->canon_indices());
+    }
+
+    // the connectivity graph of a product knows its factors that are sums by
+    // their slots only
+    auto same_slots = [&](const TreeNode &l, const TreeNode &r) {
+      return !l->is_tensor() || !l->is_sum() ||
+             positions(l->as_tensor().const_indices(), l->canon_indices()) ==
+                 positions(r->as_tensor().const_indices(), r->canon_indices());
+    };
+    return same_slots(lhs.left(), rhs.left()) &&
+           same_slots(lhs.right(), rhs.right());
+  }
+
   IndexSpecificTensorBlockEqualComparator block_comparator_;
 };
 
-- 
2.43.0


From 87319fde1b04cfbfb1ba79eaf2765a8da128e749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:41 +0000
Subject: [PATCH 18/60] fix: optimizing a product of scalars with fewer than
 two tensors

---
 SeQuant/core/optimize/single_term.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/SeQuant/core/optimize/single_term.hpp b/SeQuant/core/optimize/single_term.hpp
index a793f41..27f7b83 100644
--- a/SeQuant/core/optimize/single_term.hpp
+++ b/SeQuant/core/optimize/single_term.hpp
@@ -198,11 +198,11 @@ ExprPtr single_term_opt(
   using ranges::views::filter;
   using ranges::views::reverse;
 
-  if (prod.factors().size() < 3)
-    return ex<Product>(Product{prod.scalar(), prod.factors().begin(),
-                               prod.factors().end(), Product::Flatten::No});
   auto const tensors =
       prod | filter(&ExprPtr::template is<Tensor>) | ranges::to_vector;
+  if (prod.factors().size() < 3 || tensors.size() < 2)
+    return ex<Product>(Product{prod.scalar(), prod.factors().begin(),
+                               prod.factors().end(), Product::Flatten::No});
   auto seq = detail::single_term_opt<Metric>(
       TensorNetwork{tensors}, std::forward<IdxToSz>(idxsz), subnet_cse, cost,
       is_batchable_index, batch_target_size, inner_pow, batch_persistent_only);
-- 
2.43.0


From 5afaab17f5ccec6ad4aedecacfd3bb4ad9647533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:41 +0000
Subject: [PATCH 19/60] fix: reordering sums that have sums as summands

---
 SeQuant/core/optimize/sum.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/SeQuant/core/optimize/sum.cpp b/SeQuant/core/optimize/sum.cpp
index c3c0b92..f94bef8 100644
--- a/SeQuant/core/optimize/sum.cpp
+++ b/SeQuant/core/optimize/sum.cpp
@@ -112,11 +112,13 @@ container::vector<container::vector<size_t>> clusters(Sum const& expr) {
 
 Sum reorder(Sum const& sum,
             container::vector<FullBinaryNode<EvalExpr>> const& nodes) {
-  Sum result;
+  // N.B. not appending: that would flatten summands that are sums themselves
+  Sum::summands_type summands;
 
   for (auto const& clstr : clusters(sum, nodes))
-    for (auto p : clstr) result.append(sum.at(p));
+    for (auto p : clstr) summands.push_back(sum.at(p));
 
+  Sum result(std::move(summands), Sum::move_only_tag{});
   SEQUANT_ASSERT(result.size() == sum.size());
   return result;
 }
-- 
2.43.0


From a6039483aee871ecc25e214a4150a4b5724a9180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:39 +0000
Subject: [PATCH 20/60] fix: adding up evaluated terms modified cached results
 and inputs

---
 SeQuant/core/eval/eval.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/SeQuant/core/eval/eval.hpp b/SeQuant/core/eval/eval.hpp
index 96e3ffb..69f0ee5 100644
--- a/SeQuant/core/eval/eval.hpp
+++ b/SeQuant/core/eval/eval.hpp
@@ -866,8 +866,18 @@ ResultPtr evaluate(Nodes const& nodes,  //
     }
 
     ResultPtr pre = evaluate<EvalTrace>(n, layout, le, cache);
-    auto time =
-        detail::timed_eval_inplace([&]() { result->add_inplace(*pre); });
+    auto time = detail::timed_eval_inplace([&]() {
+      if (result.use_count() == 1) {
+        result->add_inplace(*pre);
+      } else {
+        // result is also held by the cache, by the leaf evaluator or by pre:
+        // it must not be modified
+        std::any const annot =
+            layout_is_default ? std::any{n->annot()} : std::any{layout};
+        result =
+            result->sum(*pre, std::array<std::any, 3>{annot, annot, annot});
+      }
+    });
 
     // logging
     if constexpr (detail::trace(EvalTrace)) {
-- 
2.43.0


From 247eb286db1091fa25141e35dde685b399707929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:39 +0000
Subject: [PATCH 21/60] fix: number of live cache entries

---
 SeQuant/core/eval/cache_manager.hpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/SeQuant/core/eval/cache_manager.hpp b/SeQuant/core/eval/cache_manager.hpp
index 92fcdb8..8687ab1 100644
--- a/SeQuant/core/eval/cache_manager.hpp
+++ b/SeQuant/core/eval/cache_manager.hpp
@@ -321,17 +321,11 @@ class CacheManager {
   }
 
   ///
-  /// \return The number of entries with life_count greater than zero.
+  /// \return The number of entries that hold a result.
   ///
   [[nodiscard]] size_t alive_count() const noexcept {
-    using ranges::views::filter;
-    using ranges::views::transform;
     using ranges::views::values;
-    return ranges::accumulate(cache_map_                            //
-                                  | values                          //
-                                  | filter(&entry::alive)           //
-                                  | transform(&entry::life_count),  //
-                              size_t{0});
+    return ranges::count_if(cache_map_ | values, &entry::alive);
   }
 
   ///
-- 
2.43.0


From 662f2cec0ab6d413322ecd3d6747c78694430535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:19 +0000
Subject: [PATCH 22/60] fix: phase of evaluation tree nodes that are products
 with scalars

---
 SeQuant/core/eval/eval_expr.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/SeQuant/core/eval/eval_expr.cpp b/SeQuant/core/eval/eval_expr.cpp
index f22de4b..f7bb2e8 100644
--- a/SeQuant/core/eval/eval_expr.cpp
+++ b/SeQuant/core/eval/eval_expr.cpp
@@ -522,13 +522,16 @@ EvalExprNode binarize(Product const& prod, IndexSet const& uncontract,
                        EvalExprNode const& right) mutable -> EvalExpr {
     auto h = ranges::at(hs, ++i);
     auto const& uncontracted_idxs = ltr_uncontr_idxs.imed[i];
+    // used unless the phase of the product is found by canonicalizing it
+    auto const phase =
+        static_cast<std::int8_t>(left->canon_phase() * right->canon_phase());
     if (left->is_scalar() && right->is_scalar()) {
       // scalar * scalar
       return {EvalOp::Product,
               ResultType::Scalar,
               detail::make_variable(),
               {},
-              1,
+              phase,
               h,
               nullptr};
     } else if (left->is_scalar() || right->is_scalar()) {
@@ -541,7 +544,7 @@ EvalExprNode binarize(Product const& prod, IndexSet const& uncontract,
           detail::make_tensor_wo_symmetries(opts, bra(t.bra()), ket(t.ket()),
                                             aux(t.aux())),  //
           tl->canon_indices(),                              //
-          tl->canon_phase(),                                //
+          phase,                                            //
           h,
           nullptr};
     } else {
-- 
2.43.0


From f954723cab098f6159c3afbf3584217df1d7f94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:29 +0000
Subject: [PATCH 23/60] fix: base spaces reported by index space registries
 after changes and copies

---
 SeQuant/core/index_space_registry.cpp |  2 ++
 SeQuant/core/index_space_registry.hpp | 46 ++++++++++++++++++++-------
 2 files changed, 36 insertions(+), 12 deletions(-)

diff --git a/SeQuant/core/index_space_registry.cpp b/SeQuant/core/index_space_registry.cpp
index 8cac06b..a82a523 100644
--- a/SeQuant/core/index_space_registry.cpp
+++ b/SeQuant/core/index_space_registry.cpp
@@ -8,6 +8,7 @@ namespace sequant {
 
 void IndexSpaceRegistry::physical_particle_attribute_mask(bitset_t m) {
   physical_particle_attribute_mask_ = m;
+  clear_memoized_data();
 }
 
 bitset_t IndexSpaceRegistry::physical_particle_attribute_mask() const {
@@ -29,6 +30,7 @@ IndexSpaceRegistry IndexSpaceRegistry::clone() const {
   result.spaces_ =
       std::make_shared<container::set<IndexSpace, IndexSpace::KeyCompare>>(
           *spaces_);
+  result.spaces_revision_ = std::make_shared<std::atomic<std::size_t>>(0);
   return result;
 }
 
diff --git a/SeQuant/core/index_space_registry.hpp b/SeQuant/core/index_space_registry.hpp
index a55593e..f7c699a 100644
--- a/SeQuant/core/index_space_registry.hpp
+++ b/SeQuant/core/index_space_registry.hpp
@@ -21,6 +21,8 @@
 #include <boost/hana.hpp>
 #include <boost/hana/ext/std/integral_constant.hpp>
 
+#include <algorithm>
+#include <atomic>
 #include <mutex>
 #include <ranges>
 
@@ -107,6 +109,7 @@ class IndexSpaceRegistry {
   /// copy constructor
   IndexSpaceRegistry(const IndexSpaceRegistry& other)
       : spaces_(other.spaces_),
+        spaces_revision_(other.spaces_revision_),
         physical_particle_attribute_mask_(
             other.physical_particle_attribute_mask_),
         vacocc_(other.vacocc_),
@@ -118,6 +121,7 @@ class IndexSpaceRegistry {
   /// move constructor
   IndexSpaceRegistry(IndexSpaceRegistry&& other)
       : spaces_(std::move(other.spaces_)),
+        spaces_revision_(std::move(other.spaces_revision_)),
         physical_particle_attribute_mask_(
             std::move(other.physical_particle_attribute_mask_)),
         vacocc_(std::move(other.vacocc_)),
@@ -129,6 +133,8 @@ class IndexSpaceRegistry {
   /// copy assignment operator
   IndexSpaceRegistry& operator=(const IndexSpaceRegistry& other) {
     spaces_ = other.spaces_;
+    spaces_revision_ = other.spaces_revision_;
+    clear_memoized_data();
     physical_particle_attribute_mask_ = other.physical_particle_attribute_mask_;
     vacocc_ = other.vacocc_;
     refocc_ = other.refocc_;
@@ -141,6 +147,8 @@ class IndexSpaceRegistry {
   /// move assignment operator
   IndexSpaceRegistry& operator=(IndexSpaceRegistry&& other) {
     spaces_ = std::move(other.spaces_);
+    spaces_revision_ = std::move(other.spaces_revision_);
+    clear_memoized_data();
     physical_particle_attribute_mask_ =
         std::move(other.physical_particle_attribute_mask_);
     vacocc_ = std::move(other.vacocc_);
@@ -826,17 +834,17 @@ class IndexSpaceRegistry {
   /// @return (memoized) set of base IndexSpace::Type objects, sorted in
   /// increasing order
   const std::vector<IndexSpace::Type>& base_space_types() const {
+    std::scoped_lock guard{mtx_memoized_};
+    clear_outdated_memoized_data();
     if (!base_space_types_) {
       auto types = *spaces_ | ranges::views::transform([](const auto& s) {
         return s.type();
       }) | ranges::views::filter([](const auto& t) { return is_base(t); }) |
-                   ranges::views::unique | ranges::to_vector;
+                   ranges::to_vector;
       ranges::sort(types, [](auto t1, auto t2) { return t1 < t2; });
-      std::scoped_lock guard{mtx_memoized_};
-      if (!base_space_types_) {
-        base_space_types_ =
-            std::make_shared<std::vector<IndexSpace::Type>>(std::move(types));
-      }
+      types.erase(std::unique(types.begin(), types.end()), types.end());
+      base_space_types_ =
+          std::make_shared<std::vector<IndexSpace::Type>>(std::move(types));
     }
     return *base_space_types_;
   }
@@ -848,6 +856,8 @@ class IndexSpaceRegistry {
   /// @return (memoized) set of base IndexSpace objects, sorted in the order of
   /// increasing type()
   const std::vector<IndexSpace>& base_spaces() const {
+    std::scoped_lock guard{mtx_memoized_};
+    clear_outdated_memoized_data();
     if (!base_spaces_) {
       auto spaces = *spaces_ | ranges::views::filter([this](const auto& s) {
         return this->is_base(s);
@@ -855,11 +865,8 @@ class IndexSpaceRegistry {
                     ranges::to_vector;
       ranges::sort(spaces,
                    [](auto s1, auto s2) { return s1.type() < s2.type(); });
-      std::scoped_lock guard{mtx_memoized_};
-      if (!base_spaces_) {
-        base_spaces_ =
-            std::make_shared<std::vector<IndexSpace>>(std::move(spaces));
-      }
+      base_spaces_ =
+          std::make_shared<std::vector<IndexSpace>>(std::move(spaces));
     }
     return *base_spaces_;
   }
@@ -1366,6 +1373,10 @@ class IndexSpaceRegistry {
   // N.B. need transparent comparator, see https://stackoverflow.com/a/35525806
   std::shared_ptr<container::set<IndexSpace, IndexSpace::KeyCompare>> spaces_;
 
+  // counts the changes of *spaces_; shared, like spaces_, by the copies of this
+  std::shared_ptr<std::atomic<std::size_t>> spaces_revision_ =
+      std::make_shared<std::atomic<std::size_t>>(0);
+
   bitset_t physical_particle_attribute_mask_ = bitset::null;
 
   // memoized data
@@ -1373,10 +1384,21 @@ class IndexSpaceRegistry {
   mutable std::shared_ptr<std::vector<IndexSpace>> base_spaces_;
   mutable std::recursive_mutex
       mtx_memoized_;  // used to update the memoized data
-  IndexSpaceRegistry& clear_memoized_data_and_return_this() {
+  mutable std::size_t memoized_revision_ = 0;  // of spaces_
+  void clear_memoized_data() const {
     std::scoped_lock guard{mtx_memoized_};
     base_space_types_.reset();
     base_spaces_.reset();
+  }
+  // drops what was memoized before *spaces_ was changed via a copy of this
+  void clear_outdated_memoized_data() const {
+    const std::size_t revision = *spaces_revision_;
+    if (memoized_revision_ != revision) clear_memoized_data();
+    memoized_revision_ = revision;
+  }
+  IndexSpaceRegistry& clear_memoized_data_and_return_this() {
+    ++*spaces_revision_;
+    clear_memoized_data();
     return *this;
   }
 
-- 
2.43.0


From 1be9b3dbd474afce898d6c5268b157274360a017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:29 +0000
Subject: [PATCH 24/60] fix: rejected IndexSpaceRegistry::replace removed the
 space

---
 SeQuant/core/index_space_registry.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/SeQuant/core/index_space_registry.hpp b/SeQuant/core/index_space_registry.hpp
index f7c699a..6c26349 100644
--- a/SeQuant/core/index_space_registry.hpp
+++ b/SeQuant/core/index_space_registry.hpp
@@ -562,6 +562,13 @@ class IndexSpaceRegistry {
   /// @param IS an IndexSpace
   /// @return reference to `this`
   IndexSpaceRegistry& replace(const IndexSpace& IS) {
+    auto* other = this->retrieve_ptr(IS.attr());
+    if (other && other->base_key() != IS.base_key()) {
+      throw Exception(
+          std::string("IndexSpaceRegistry::replace(index_space): another space "
+                      "with index_space.attr()=") +
+          to_string(IS.attr()) + " is already in the registry");
+    }
     this->remove(IS);
     return this->add(IS);
   }
-- 
2.43.0


From 71210ac1e3e7edd6cb190a76eb0b95d5f9735a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:29 +0000
Subject: [PATCH 25/60] fix: valid_intersection of spaces with different
 quantum numbers

---
 SeQuant/core/index_space_registry.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/SeQuant/core/index_space_registry.hpp b/SeQuant/core/index_space_registry.hpp
index 6c26349..b759925 100644
--- a/SeQuant/core/index_space_registry.hpp
+++ b/SeQuant/core/index_space_registry.hpp
@@ -587,6 +587,8 @@ class IndexSpaceRegistry {
   bool valid_intersection(const IndexSpace& space1,
                           const IndexSpace& space2) const {
     auto result_attr = space1.attr().intersection(space2.attr());
+    // spaces with different quantum numbers do not intersect.
+    if (!result_attr.qns() && space1.qns() != space2.qns()) return false;
     return result_attr != IndexSpace::Type::null && retrieve_ptr(result_attr);
   }
 
-- 
2.43.0


From f67d2707657befb1e4b141aa5f3205154accf77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:29 +0000
Subject: [PATCH 26/60] fix: intersection of spaces with different quantum
 numbers

---
 SeQuant/core/index_space_registry.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SeQuant/core/index_space_registry.hpp b/SeQuant/core/index_space_registry.hpp
index b759925..1c0dc42 100644
--- a/SeQuant/core/index_space_registry.hpp
+++ b/SeQuant/core/index_space_registry.hpp
@@ -637,7 +637,7 @@ class IndexSpaceRegistry {
       // check the registry
       auto intersection_type = space1.type().intersection(space2.type());
       const IndexSpace& intersection_space =
-          find_by_attr({intersection_type, space1.qns()});
+          find_by_attr({intersection_type, target_qns});
       // the nullspace is a reasonable return value for intersection
       if (intersection_space == IndexSpace::null && intersection_type) {
         throw Exception(
-- 
2.43.0


From 9fb8edb6ad87081e47d2006d4ff83dc3d8754d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:29 +0000
Subject: [PATCH 27/60] fix: is_pure_occupied compared types as numbers

---
 SeQuant/core/index_space_registry.hpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/SeQuant/core/index_space_registry.hpp b/SeQuant/core/index_space_registry.hpp
index 1c0dc42..154132f 100644
--- a/SeQuant/core/index_space_registry.hpp
+++ b/SeQuant/core/index_space_registry.hpp
@@ -921,12 +921,7 @@ class IndexSpaceRegistry {
       return false;
     }
     // this introduces icky dependence on bit footprint of vacuum_occupied_space
-    if (IS.type().to_int32() <=
-        vacuum_occupied_space(IS.qns()).type().to_int32()) {
-      return true;
-    } else {
-      return false;
-    }
+    return vacuum_occupied_space(IS.qns()).type().includes(IS.type());
   }
 
   /// @brief equivalent to `is_pure_occupied(retrieve(space_key))`
-- 
2.43.0


From b91b859bc2b24a9ebeaaad9db54e8adc712a7b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:29 +0000
Subject: [PATCH 28/60] fix: assigning spaces by quantum numbers always failed
 an assertion

---
 SeQuant/core/index_space_registry.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/SeQuant/core/index_space_registry.hpp b/SeQuant/core/index_space_registry.hpp
index 154132f..d408c1a 100644
--- a/SeQuant/core/index_space_registry.hpp
+++ b/SeQuant/core/index_space_registry.hpp
@@ -1454,8 +1454,9 @@ class IndexSpaceRegistry {
     for (auto&& space : *spaces_) {
       for (auto&& [qn, t] : qn2type) {
         if (space.type() == t && space.qns() == qn) {
-          [[maybe_unused]] auto [it, found] = qn2type_found.try_emplace(qn, t);
-          SEQUANT_ASSERT(!found);
+          [[maybe_unused]] auto [it, inserted] =
+              qn2type_found.try_emplace(qn, t);
+          SEQUANT_ASSERT(inserted);
           // found all? return
           if (qn2type_found.size() == qn2type.size()) {
             return;
-- 
2.43.0


From 56e636adfd8cbe40306b209e020019d02feb6611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:46 +0000
Subject: [PATCH 29/60] fix: visiting a part of a binary tree went on to the
 rest of the tree

---
 SeQuant/core/binary_node.hpp | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/SeQuant/core/binary_node.hpp b/SeQuant/core/binary_node.hpp
index 5d0acb5..b5a67a9 100644
--- a/SeQuant/core/binary_node.hpp
+++ b/SeQuant/core/binary_node.hpp
@@ -126,9 +126,10 @@ bool invoke_tree_visitor(Visitor&& f, Node&& node, TreeTraversal context) {
   }
 };
 
-template <typename Node>
-std::remove_reference_t<Node>* get_parent_ptr(Node&& node) {
-  return node.root() ? nullptr : &node.parent();
+/// \return pointer to the parent of \p node, or null if \p node is \p top
+template <typename Node, typename Top>
+std::remove_reference_t<Node>* get_parent_ptr(Node&& node, const Top* top) {
+  return &node == top || node.root() ? nullptr : &node.parent();
 }
 
 ///
@@ -153,6 +154,8 @@ void visit(Node&& node, Visitor&& f, NodeType) {
                     std::is_same_v<NodeType, VisitAll>,
                 "Not sure which nodes to visit");
 
+  // N.B. node may be part of a larger tree: never go above it
+  const std::remove_cvref_t<Node>* const top_ptr = &node;
   std::remove_reference_t<Node>* current_ptr = &node;
   const std::remove_cvref_t<Node>* previous_ptr = &node;
 
@@ -175,7 +178,7 @@ void visit(Node&& node, Visitor&& f, NodeType) {
       }
 
       // Move back up to parent
-      current_ptr = get_parent_ptr(current);
+      current_ptr = get_parent_ptr(current, top_ptr);
     } else if (previous_ptr == &current.left()) {
       if constexpr ((order & TreeTraversal::InOrder) ==
                         TreeTraversal::InOrder &&
@@ -185,7 +188,8 @@ void visit(Node&& node, Visitor&& f, NodeType) {
       }
 
       // Finished visiting left, now visit right
-      current_ptr = current.leaf() ? get_parent_ptr(current) : &current.right();
+      current_ptr =
+          current.leaf() ? get_parent_ptr(current, top_ptr) : &current.right();
     } else if (previous_ptr == &current.right()) {
       if constexpr ((order & TreeTraversal::PostOrder) ==
                         TreeTraversal::PostOrder &&
@@ -195,9 +199,9 @@ void visit(Node&& node, Visitor&& f, NodeType) {
       }
 
       // Finished visiting right, now move back up to parent (if any)
-      current_ptr = get_parent_ptr(current);
+      current_ptr = get_parent_ptr(current, top_ptr);
     } else {
-      SEQUANT_ASSERT(current.root() || previous_ptr == &current.parent());
+      SEQUANT_ASSERT(&current == top_ptr || previous_ptr == &current.parent());
       if constexpr ((order & TreeTraversal::PreOrder) ==
                         TreeTraversal::PreOrder &&
                     !std::is_same_v<NodeType, VisitLeaf>) {
@@ -206,14 +210,15 @@ void visit(Node&& node, Visitor&& f, NodeType) {
       }
 
       // Coming from parent (or started at root), start by visiting left
-      current_ptr = current.leaf() ? get_parent_ptr(current) : &current.left();
+      current_ptr =
+          current.leaf() ? get_parent_ptr(current, top_ptr) : &current.left();
     }
 
     previous_ptr = &current;
 
     if (!continue_with_subtree) {
       // Overwrite to make next target the parent (if any)
-      current_ptr = get_parent_ptr(current);
+      current_ptr = get_parent_ptr(current, top_ptr);
     }
   }
 }
-- 
2.43.0


From 6a0f80bda83b080e92ee6a608e860778bcca34ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:46 +0000
Subject: [PATCH 30/60] fix: comparing a leaf with an internal node of equal
 data threw

---
 SeQuant/core/binary_node.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/SeQuant/core/binary_node.hpp b/SeQuant/core/binary_node.hpp
index b5a67a9..2793e8f 100644
--- a/SeQuant/core/binary_node.hpp
+++ b/SeQuant/core/binary_node.hpp
@@ -693,8 +693,9 @@ class FullBinaryNode {
 
 template <typename T, typename U>
 bool operator==(FullBinaryNode<T> const& lhs, FullBinaryNode<U> const& rhs) {
+  if (lhs.leaf() != rhs.leaf()) return false;
   return ((*lhs == *rhs) &&
-          ((lhs.leaf() && rhs.leaf()) ||
+          (lhs.leaf() ||
            (lhs.left() == rhs.left() && lhs.right() == rhs.right())));
 }
 
-- 
2.43.0


From a0fe74c3f2202fc312aa2e4addbc8c5de2c55cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:43 +0000
Subject: [PATCH 31/60] fix: order of powers is a strict weak order even if
 hashes of their bases collide

---
 SeQuant/core/expressions/power.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/SeQuant/core/expressions/power.hpp b/SeQuant/core/expressions/power.hpp
index f5731da..945b9db 100644
--- a/SeQuant/core/expressions/power.hpp
+++ b/SeQuant/core/expressions/power.hpp
@@ -257,7 +257,11 @@ class Power : public Expr {
 
   bool static_less_than(const Expr& that) const override {
     const auto& other = static_cast<const Power&>(that);
-    if (*base_ != *other.base_) return *base_ < *other.base_;
+    // N.B. bases can be neither equal nor ordered with respect to each other
+    // (if their hashes collide), hence must look at both orders to be
+    // consistent
+    if (*base_ < *other.base_) return true;
+    if (*other.base_ < *base_) return false;
     if (exponent_ != other.exponent_) return exponent_ < other.exponent_;
     return conjugated_ < other.conjugated_;
   }
-- 
2.43.0


From b3ac224588e9637eae2a3cf15b32caa8626661a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:18 +0000
Subject: [PATCH 32/60] fix: empty slots and indices contracted within a tensor
 were reported as external

---
 SeQuant/core/utility/indices.hpp | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/SeQuant/core/utility/indices.hpp b/SeQuant/core/utility/indices.hpp
index f25b1ec..9f2be5e 100644
--- a/SeQuant/core/utility/indices.hpp
+++ b/SeQuant/core/utility/indices.hpp
@@ -146,6 +146,7 @@ IndexGroups<Container> get_unique_indices(const Tensor& tensor) {
   std::set<Index> encounteredIndices;
 
   for (const Index& current : tensor.bra()) {
+    if (!current.nonnull()) continue;  // empty slot
     if (encounteredIndices.find(current) == encounteredIndices.end()) {
       groups.bra.push_back(current);
       encounteredIndices.insert(current);
@@ -157,6 +158,7 @@ IndexGroups<Container> get_unique_indices(const Tensor& tensor) {
   }
 
   for (const Index& current : tensor.ket()) {
+    if (!current.nonnull()) continue;  // empty slot
     if (encounteredIndices.find(current) == encounteredIndices.end()) {
       groups.ket.push_back(current);
       encounteredIndices.insert(current);
@@ -167,6 +169,7 @@ IndexGroups<Container> get_unique_indices(const Tensor& tensor) {
   }
 
   for (const Index& current : tensor.aux()) {
+    if (!current.nonnull()) continue;  // empty slot
     if (encounteredIndices.find(current) == encounteredIndices.end()) {
       groups.aux.push_back(current);
       encounteredIndices.insert(current);
@@ -478,19 +481,41 @@ Container<Group<SlottedIndex>> external_indices(const Expr& expr) {
   if (expr.is<Tensor>()) {
     const Tensor& tensor = expr.as<Tensor>();
 
+    // Indices contracted within the tensor (and empty slots) are not external
+    const bool is_symmetrizer = tensor.label() == reserved::symm_label() ||
+                                tensor.label() == reserved::antisymm_label();
+    const IndexGroups<container::svector<Index>> unique =
+        get_unique_indices<container::svector<Index>>(tensor);
+    auto is_external = [is_symmetrizer](const Index& idx, const auto& indices) {
+      return is_symmetrizer || ranges::contains(indices, idx);
+    };
+
     const std::size_t num_braket =
         std::max(tensor.bra_rank(), tensor.ket_rank());
     HolderType cont;
     cont.resize(num_braket + tensor.aux_rank());
 
     for (std::size_t i = 0; i < tensor.bra_rank(); ++i) {
-      cont.at(i).emplace_back(tensor.bra()[i], SlotType::Bra);
+      if (is_external(tensor.bra()[i], unique.bra)) {
+        cont.at(i).emplace_back(tensor.bra()[i], SlotType::Bra);
+      }
     }
     for (std::size_t i = 0; i < tensor.ket_rank(); ++i) {
-      cont.at(i).emplace_back(tensor.ket()[i], SlotType::Ket);
+      if (is_external(tensor.ket()[i], unique.ket)) {
+        cont.at(i).emplace_back(tensor.ket()[i], SlotType::Ket);
+      }
     }
     for (std::size_t i = 0; i < tensor.aux_rank(); ++i) {
-      cont.at(i + num_braket).emplace_back(tensor.aux()[i], SlotType::Aux);
+      if (is_external(tensor.aux()[i], unique.aux)) {
+        cont.at(i + num_braket).emplace_back(tensor.aux()[i], SlotType::Aux);
+      }
+    }
+
+    if (!is_symmetrizer) {
+      cont.erase(
+          std::remove_if(cont.begin(), cont.end(),
+                         [](const auto& group) { return group.empty(); }),
+          cont.end());
     }
 
     const bool is_symm = tensor.label() == reserved::symm_label();
-- 
2.43.0


From 5f96323a72462c4bb05c9fd0fcb694b96804a028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:18 +0000
Subject: [PATCH 33/60] fix: temporary indices are above those open to users
 after the context raised the limit

---
 SeQuant/core/index.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/SeQuant/core/index.hpp b/SeQuant/core/index.hpp
index 7b88856..ff045e9 100644
--- a/SeQuant/core/index.hpp
+++ b/SeQuant/core/index.hpp
@@ -792,7 +792,14 @@ class Index : public Taggable {
   /// @return a unique temporary index, its value is equal to or greater than
   /// that returned by min_tmp_index()
   static std::size_t next_tmp_index() noexcept {
-    return ++tmp_index_accessor();
+    auto &counter = tmp_index_accessor();
+    // the default context may have changed since the counter was initialized
+    const std::size_t min_index = min_tmp_index();
+    auto current = counter.load();
+    while (current + 1 < min_index &&
+           !counter.compare_exchange_weak(current, min_index - 1)) {
+    }
+    return ++counter;
   }
 
   /// resets the temporary index counter so that the next call to
-- 
2.43.0


From 97cd1619db7dce97fd8457f645360939381052c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:25 +0000
Subject: [PATCH 34/60] fix: permutation_parity follows whole cycles, and
 restores its argument unless asked to overwrite it

---
 SeQuant/core/utility/permutation.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/SeQuant/core/utility/permutation.hpp b/SeQuant/core/utility/permutation.hpp
index 695a7c2..41be59e 100644
--- a/SeQuant/core/utility/permutation.hpp
+++ b/SeQuant/core/utility/permutation.hpp
@@ -129,16 +129,17 @@ int permutation_parity(std::span<T> p, bool overwrite = false) {
   for (std::size_t k = 0; k != N; ++k) {
     if (p[k] >= N) continue;
     std::size_t i = k;
-    std::size_t cycle_length = 1;
+    std::size_t cycle_length = 0;
     do {
-      i = p[i];
+      const std::size_t next = p[i];
       p[i] += N;
+      i = next;
       ++cycle_length;
     } while (p[i] < N);
     if (cycle_length % 2 == 0) parity *= -1;
   }
 
-  if (overwrite) {
+  if (!overwrite) {
     std::ranges::for_each(p, [N](auto& e) { e -= N; });
   }
 
-- 
2.43.0


From 33dc31a76a0f67584ca247d6a56ef5726fbc5690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:25 +0000
Subject: [PATCH 35/60] fix: converting constants to machine numbers reports
 integers out of range and copes with large numerators and denominators

---
 SeQuant/core/expressions/constant.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/SeQuant/core/expressions/constant.hpp b/SeQuant/core/expressions/constant.hpp
index 3b16f56..522fed0 100644
--- a/SeQuant/core/expressions/constant.hpp
+++ b/SeQuant/core/expressions/constant.hpp
@@ -10,6 +10,8 @@
 
 #include <boost/numeric/conversion/cast.hpp>
 
+#include <limits>
+#include <stdexcept>
 #include <string>
 
 namespace sequant {
@@ -21,10 +23,17 @@ template <typename X>
 X numeric_cast(const sequant::rational &r) {
   if constexpr (std::is_integral_v<X>) {
     SEQUANT_ASSERT(denominator(r) == 1);
-    return boost::numeric_cast<X>(numerator(r));
+    const auto n = numerator(r);
+    // N.B. conversion of multiprecision integers saturates
+    if constexpr (!std::is_same_v<X, bool>) {
+      if (n > std::numeric_limits<X>::max() ||
+          n < std::numeric_limits<X>::min())
+        throw std::range_error("Constant: value is out of range");
+    }
+    return boost::numeric_cast<X>(n);
   } else {
-    return boost::numeric_cast<X>(numerator(r)) /
-           boost::numeric_cast<X>(denominator(r));
+    // N.B. numerator and denominator may be out of range even if r is not
+    return boost::numeric_cast<X>(r);
   }
 };
 }  // namespace detail
-- 
2.43.0


From 13a78a86c57085362b804489605287a75930a1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:25 +0000
Subject: [PATCH 36/60] fix: asymptotic costs are ordered by their most
 expensive differing term; scaling and adding zero, infinite and negative
 terms

---
 SeQuant/core/asy_cost.cpp | 44 ++++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/SeQuant/core/asy_cost.cpp b/SeQuant/core/asy_cost.cpp
index 8fa8fbb..f11a71a 100644
--- a/SeQuant/core/asy_cost.cpp
+++ b/SeQuant/core/asy_cost.cpp
@@ -9,7 +9,6 @@
 #include <range/v3/range/operations.hpp>
 #include <range/v3/view/reverse.hpp>
 #include <range/v3/view/tail.hpp>
-#include <range/v3/view/zip.hpp>
 
 #include <cmath>
 #include <limits>
@@ -36,7 +35,7 @@ AsyCost::AsyCostEntry::AsyCostEntry(ExponentMap exponents, rational prefactor)
 AsyCost::AsyCostEntry AsyCost::AsyCostEntry::max() {
   AsyCostEntry e;
   e.is_max_ = true;
-  e.prefactor_ = std::numeric_limits<intmax_t>::max();
+  e.prefactor_ = 1;
   return e;
 }
 
@@ -108,7 +107,7 @@ std::string AsyCost::AsyCostEntry::to_latex() const {
     auto abs_c = abs(prefactor_);
     oss << (prefactor_ < abs_c ? "- " : "");
     bool frac_mode = abs(denominator(prefactor_)) != 1;
-    if (!frac_mode && (abs_c != 1)) oss << numerator(prefactor_);
+    if (!frac_mode && (abs_c != 1)) oss << numerator(abs_c);
     if (frac_mode) {
       oss << "\\frac{"                   //
           << abs(numerator(prefactor_))  //
@@ -219,6 +218,13 @@ AsyCost &AsyCost::operator-=(AsyCost const &other) {
 }
 
 AsyCost operator+(AsyCost const &lhs, AsyCost const &rhs) {
+  // the infinitely scaling cost absorbs all others
+  auto is_max = [](AsyCost const &c) {
+    return !c.cost_.empty() && c.cost_.rbegin()->is_max();
+  };
+  if (is_max(lhs)) return lhs;
+  if (is_max(rhs)) return rhs;
+
   auto sum = lhs;
   auto &data = sum.cost_;
   for (auto const &c : rhs.cost_) {
@@ -237,8 +243,10 @@ AsyCost operator-(AsyCost const &lhs, AsyCost const &rhs) {
 }
 
 AsyCost operator*(AsyCost const &cost, rational scale) {
+  if (scale == 0) return AsyCost::zero();
   auto ac = cost;
-  for (auto &c : ac.cost_) c.set_prefactor(c.prefactor() * scale);
+  for (auto &c : ac.cost_)
+    if (!c.is_max()) c.set_prefactor(c.prefactor() * scale);
   return ac;
 }
 
@@ -249,22 +257,20 @@ AsyCost operator/(AsyCost const &cost, rational scale) {
 }
 
 bool operator<(AsyCost const &lhs, AsyCost const &rhs) {
-  using ranges::views::reverse;
-  using ranges::views::zip;
-
-  for (auto &&[c1, c2] : reverse(zip(lhs.cost_, rhs.cost_))) {
-    if (c1 < c2)
-      return true;
-    else if (c1 == c2) {
-      if (c1.prefactor() < c2.prefactor())
-        return true;
-      else if (c1.prefactor() > c2.prefactor())
-        return false;
-    } else
-      return false;
+  // the most expensive term that differs decides; a term that is missing has
+  // zero prefactor
+  auto l = lhs.cost_.rbegin();
+  auto r = rhs.cost_.rbegin();
+  while (l != lhs.cost_.rend() || r != rhs.cost_.rend()) {
+    if (r == rhs.cost_.rend() || (l != lhs.cost_.rend() && *r < *l))
+      return l->prefactor() < 0;
+    if (l == lhs.cost_.rend() || *l < *r) return r->prefactor() > 0;
+    if (l->prefactor() != r->prefactor())
+      return l->prefactor() < r->prefactor();
+    ++l;
+    ++r;
   }
-
-  return lhs.cost_.size() < rhs.cost_.size();
+  return false;
 }
 
 bool operator==(AsyCost const &lhs, AsyCost const &rhs) {
-- 
2.43.0


From 863c94eefdbb01c922a021aa4c2082b53ddbf37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:51 +0000
Subject: [PATCH 37/60] fix: serialization of sums within sums and of products
 and sums without factors and summands

---
 SeQuant/core/io/serialization/v1/serialize.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/SeQuant/core/io/serialization/v1/serialize.cpp b/SeQuant/core/io/serialization/v1/serialize.cpp
index 3b4f56c..11451f0 100644
--- a/SeQuant/core/io/serialization/v1/serialize.cpp
+++ b/SeQuant/core/io/serialization/v1/serialize.cpp
@@ -166,8 +166,9 @@ std::wstring to_string(Product const& prod,
   std::wstring serialized;
 
   const auto& scal = prod.scalar();
-  if (scal != Product::scalar_type{1}) {
-    serialized += details::serialize_scalar(scal, options) + L" ";
+  if (scal != Product::scalar_type{1} || prod.empty()) {
+    serialized += details::serialize_scalar(scal, options);
+    if (!prod.empty()) serialized += L" ";
   }
 
   for (std::size_t i = 0; i < prod.size(); ++i) {
@@ -193,6 +194,8 @@ std::wstring to_string(Product const& prod,
 }
 
 std::wstring to_string(Sum const& sum, const SerializationOptions& options) {
+  if (sum.empty()) return L"0";
+
   std::wstring serialized;
 
   for (std::size_t i = 0; i < sum.size(); ++i) {
@@ -204,7 +207,7 @@ std::wstring to_string(Sum const& sum, const SerializationOptions& options) {
 
     bool is_negative = false;
     if (parenthesize) {
-      current_serialized += L"(" + current_serialized + L")";
+      current_serialized = L"(" + current_serialized + L")";
     } else {
       is_negative = current_serialized.front() == L'-';
     }
-- 
2.43.0


From 2682c8d9e9a3a8d1f61593f39ddca3309b843211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:51 +0000
Subject: [PATCH 38/60] fix: numbers are read exactly, names may begin with inf
 and nan, zero denominators are reported

---
 SeQuant/core/io/serialization/v1/ast.hpp      | 10 +--
 .../io/serialization/v1/ast_conversions.hpp   | 37 +++++-----
 .../core/io/serialization/v1/deserialize.cpp  | 67 ++++++++++++++++++-
 3 files changed, 91 insertions(+), 23 deletions(-)

diff --git a/SeQuant/core/io/serialization/v1/ast.hpp b/SeQuant/core/io/serialization/v1/ast.hpp
index eff36d0..847f34d 100644
--- a/SeQuant/core/io/serialization/v1/ast.hpp
+++ b/SeQuant/core/io/serialization/v1/ast.hpp
@@ -5,6 +5,8 @@
 #ifndef SEQUANT_CORE_PARSE_V1_AST_HPP
 #define SEQUANT_CORE_PARSE_V1_AST_HPP
 
+#include <SeQuant/core/rational.hpp>
+
 #define BOOST_SPIRIT_X3_UNICODE
 #include <boost/fusion/include/adapt_struct.hpp>
 #include <boost/optional.hpp>
@@ -35,11 +37,11 @@ struct Index : boost::spirit::x3::position_tagged {
 };
 
 struct Number : boost::spirit::x3::position_tagged {
-  double numerator;
-  double denominator;
+  rational numerator;
+  rational denominator;
 
-  Number(double numerator = {}, double denominator = 1)
-      : numerator(numerator), denominator(denominator) {}
+  Number(rational numerator = 0, rational denominator = 1)
+      : numerator(std::move(numerator)), denominator(std::move(denominator)) {}
 };
 
 struct Variable : boost::spirit::x3::position_tagged {
diff --git a/SeQuant/core/io/serialization/v1/ast_conversions.hpp b/SeQuant/core/io/serialization/v1/ast_conversions.hpp
index 22e761c..0d0ede2 100644
--- a/SeQuant/core/io/serialization/v1/ast_conversions.hpp
+++ b/SeQuant/core/io/serialization/v1/ast_conversions.hpp
@@ -213,18 +213,22 @@ ColumnSymmetry to_column_symmetry(char c, std::size_t offset, const Iterator &,
 }
 
 template <typename PositionCache, typename Iterator>
-Constant to_constant(const io::serialization::v1::ast::Number &number,
-                     const PositionCache &, const Iterator &) {
-  if (static_cast<std::int64_t>(number.numerator) == number.numerator &&
-      static_cast<std::int64_t>(number.denominator) == number.denominator) {
-    // Integer fraction
-    return Constant(
-        ::sequant::rational(static_cast<std::int64_t>(number.numerator),
-                            static_cast<std::int64_t>(number.denominator)));
-  } else {
-    // Construct from floating point value
-    return Constant(::sequant::rational(number.numerator / number.denominator));
+rational number_value(const io::serialization::v1::ast::Number &number,
+                      const PositionCache &position_cache,
+                      const Iterator &begin) {
+  if (number.denominator == 0) {
+    auto [offset, length] = get_pos(number, position_cache, begin);
+    throw SerializationError(offset, length, "Denominator must not be zero");
   }
+
+  return number.numerator / number.denominator;
+}
+
+template <typename PositionCache, typename Iterator>
+Constant to_constant(const io::serialization::v1::ast::Number &number,
+                     const PositionCache &position_cache,
+                     const Iterator &begin) {
+  return Constant(number_value(number, position_cache, begin));
 }
 
 template <typename PositionCache, typename Iterator>
@@ -363,19 +367,16 @@ struct Transformer {
     ExprPtr base = boost::apply_visitor(*this, power.base);
 
     // exponent must be a rational, reject otherwise
-    if (static_cast<std::int64_t>(power.exponent.numerator) !=
-            power.exponent.numerator ||
-        static_cast<std::int64_t>(power.exponent.denominator) !=
-            power.exponent.denominator) {
+    if (denominator(power.exponent.numerator) != 1 ||
+        denominator(power.exponent.denominator) != 1) {
       auto [offset, length] = get_pos(power, position_cache.get(), begin.get());
       throw SerializationError(
           offset, length,
           "Power exponent must be a rational number (integer numerator and "
           "denominator)");
     }
-    sequant::rational exponent(
-        static_cast<std::int64_t>(power.exponent.numerator),
-        static_cast<std::int64_t>(power.exponent.denominator));
+    sequant::rational exponent =
+        number_value(power.exponent, position_cache.get(), begin.get());
 
     auto pw = ex<Power>(std::move(base), std::move(exponent));
     if (power.conjugated) {
diff --git a/SeQuant/core/io/serialization/v1/deserialize.cpp b/SeQuant/core/io/serialization/v1/deserialize.cpp
index f8e8ff7..f0923cd 100644
--- a/SeQuant/core/io/serialization/v1/deserialize.cpp
+++ b/SeQuant/core/io/serialization/v1/deserialize.cpp
@@ -21,6 +21,7 @@
 #include <algorithm>
 #include <cassert>
 #include <cstddef>
+#include <cstdlib>
 #include <functional>
 #include <iterator>
 #include <optional>
@@ -35,6 +36,70 @@ namespace x3 = boost::spirit::x3;
 
 namespace parse {
 
+/// Floating-point syntax without `inf` and `nan`, which are ordinary names
+struct finite_real_policies : x3::real_policies<double> {
+  template <typename Iterator, typename Attribute>
+  static bool parse_inf(Iterator &, const Iterator &, Attribute &) {
+    return false;
+  }
+  template <typename Iterator, typename Attribute>
+  static bool parse_nan(Iterator &, const Iterator &, Attribute &) {
+    return false;
+  }
+};
+
+/// Parses what x3::double_ does, except for infinities and NaNs, but produces
+/// the exact value of what is written
+struct exact_real_parser : x3::parser<exact_real_parser> {
+  using attribute_type = rational;
+  static constexpr bool has_attribute = true;
+
+  template <typename Iterator, typename Context, typename RContext,
+            typename Attribute>
+  bool parse(Iterator &first, const Iterator &last, const Context &context,
+             RContext &, Attribute &attr) const {
+    x3::skip_over(first, last, context);
+
+    auto end = first;
+    double approx;
+    if (!x3::parse(end, last, x3::real_parser<double, finite_real_policies>{},
+                   approx))
+      return false;
+
+    // N.B. what is not representable as double has not been parsed or is zero
+    x3::traits::move_to(approx == 0 ? rational(0) : value(first, end), attr);
+    first = end;
+    return true;
+  }
+
+ private:
+  template <typename Iterator>
+  static rational value(Iterator it, const Iterator &end) {
+    const bool negative = *it == L'-';
+    if (*it == L'-' || *it == L'+') ++it;
+
+    intmax_t digits = 0;
+    long exponent = 0;
+    bool fraction = false;
+    for (; it != end && *it != L'e' && *it != L'E'; ++it) {
+      if (*it == L'.') {
+        fraction = true;
+      } else {
+        digits = digits * 10 + static_cast<int>(*it - L'0');
+        if (fraction) --exponent;
+      }
+    }
+    if (it != end) exponent += std::stol(std::wstring(++it, end));
+
+    const intmax_t scale = boost::multiprecision::pow(
+        intmax_t(10), static_cast<unsigned>(std::abs(exponent)));
+    if (negative) digits = -digits;
+    return exponent < 0 ? rational(digits, scale) : rational(digits * scale);
+  }
+};
+
+constexpr exact_real_parser exact_real{};
+
 struct NumberRule;
 struct VariableRule;
 struct TensorRule;
@@ -89,7 +154,7 @@ auto name_def         = x3::lexeme[
                             x3::unicode::alpha >> -( *(word_components >> &word_components) >> (word_components - '_') )
                         ];
 
-auto number_def       = x3::double_ >> -('/' >> x3::double_);
+auto number_def       = exact_real >> -('/' >> exact_real);
 
 auto variable_def     = x3::lexeme[name >> -(x3::lit('^') >> '*' >> x3::attr(true))];
 
-- 
2.43.0


From 3e0b32841d7de7773ff82e54d0f2187214fe5b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:51 +0000
Subject: [PATCH 39/60] fix: longer names are read whole in front of
 _{...}^{...}

---
 SeQuant/core/io/serialization/v1/deserialize.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SeQuant/core/io/serialization/v1/deserialize.cpp b/SeQuant/core/io/serialization/v1/deserialize.cpp
index f0923cd..2fefa86 100644
--- a/SeQuant/core/io/serialization/v1/deserialize.cpp
+++ b/SeQuant/core/io/serialization/v1/deserialize.cpp
@@ -151,7 +151,7 @@ auto word_components = x3::unicode::alnum
 // underscores, but can not end with an underscore (to not confuse the parser
 // with tensors á la t_{…}^{…}.
 auto name_def         = x3::lexeme[
-                            x3::unicode::alpha >> -( *(word_components >> &word_components) >> (word_components - '_') )
+                            x3::raw[ x3::unicode::alpha >> *( *x3::lit('_') >> (word_components - '_') ) ]
                         ];
 
 auto number_def       = exact_real >> -('/' >> exact_real);
-- 
2.43.0


From 723880a6e473bb2533bb5d41902a006add2b33e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:51 +0000
Subject: [PATCH 40/60] fix: a - 2 without spaces is a difference, not the
 product of a and -2

---
 SeQuant/core/io/serialization/v1/deserialize.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/SeQuant/core/io/serialization/v1/deserialize.cpp b/SeQuant/core/io/serialization/v1/deserialize.cpp
index 2fefa86..5ea86ab 100644
--- a/SeQuant/core/io/serialization/v1/deserialize.cpp
+++ b/SeQuant/core/io/serialization/v1/deserialize.cpp
@@ -194,7 +194,8 @@ auto nullary          = number | tensor | variable;
 
 auto grouped          = power | '(' > sum > ')' | nullary;
 
-auto product_def      = grouped % -x3::lit('*');
+// Note that juxtaposition must not be confused with subtraction of a number
+auto product_def      = grouped % (x3::lit('*') | !x3::char_(L"+-"));
 
 auto first_addend     = (('-' >> x3::attr(-1) | -x3::lit('+') >> x3::attr(1)) >> product)[actions::process_addend{}];
 
-- 
2.43.0


From d1bf7dfb68ac3021356a65f5af71aaa7e8d7cc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:51 +0000
Subject: [PATCH 41/60] fix: numbers in parentheses are factors like those
 without

---
 SeQuant/core/io/serialization/v1/ast_conversions.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/SeQuant/core/io/serialization/v1/ast_conversions.hpp b/SeQuant/core/io/serialization/v1/ast_conversions.hpp
index 0d0ede2..81d9d2b 100644
--- a/SeQuant/core/io/serialization/v1/ast_conversions.hpp
+++ b/SeQuant/core/io/serialization/v1/ast_conversions.hpp
@@ -421,13 +421,11 @@ ExprPtr ast_to_expr(const io::serialization::v1::ast::Product &product,
   // We perform constant folding
   for (const io::serialization::v1::ast::NullaryValue &value :
        product.factors) {
-    if (holds_alternative<io::serialization::v1::ast::Number>(value)) {
-      prefactor *=
-          to_constant(boost::get<io::serialization::v1::ast::Number>(value),
-                      position_cache, begin);
+    ExprPtr factor = ast_to_expr(value, position_cache, begin, default_symms);
+    if (factor->is<Constant>()) {
+      prefactor *= factor->as<Constant>();
     } else {
-      factors.push_back(
-          ast_to_expr(value, position_cache, begin, default_symms));
+      factors.push_back(std::move(factor));
     }
   }
 
-- 
2.43.0


From 4a6b5c84103bc51a847ce81c2f5c671539fdd052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:32 +0000
Subject: [PATCH 42/60] fix: report malformed result expressions as
 SerializationError

The error handler of the result expression rule was attached to a type of a
different name, so that parser exceptions escaped from_string<ResultExpr>.
---
 SeQuant/core/io/serialization/v1/deserialize.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SeQuant/core/io/serialization/v1/deserialize.cpp b/SeQuant/core/io/serialization/v1/deserialize.cpp
index 5ea86ab..00c8e98 100644
--- a/SeQuant/core/io/serialization/v1/deserialize.cpp
+++ b/SeQuant/core/io/serialization/v1/deserialize.cpp
@@ -247,7 +247,7 @@ struct PowerRule : helpers::annotate_position, helpers::error_handler {};
 struct ProductRule : helpers::annotate_position, helpers::error_handler {};
 struct SumRule : helpers::annotate_position, helpers::error_handler {};
 struct ExprRule : helpers::annotate_position, helpers::error_handler {};
-struct ResultRule : helpers::annotate_position, helpers::error_handler {};
+struct ResultExprRule : helpers::annotate_position, helpers::error_handler {};
 struct IndexLabelRule : helpers::annotate_position, helpers::error_handler {};
 struct IndexRule : helpers::annotate_position, helpers::error_handler {};
 struct IndexGroupRule : helpers::annotate_position, helpers::error_handler {};
-- 
2.43.0


From f6bce8415b0bf4e38fd4317bf85b2ab239bfe2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:38 +0000
Subject: [PATCH 43/60] fix: export drops the terms of a sum without own
 computation

---
 SeQuant/core/export/export.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/SeQuant/core/export/export.hpp b/SeQuant/core/export/export.hpp
index 4b36272..3181049 100644
--- a/SeQuant/core/export/export.hpp
+++ b/SeQuant/core/export/export.hpp
@@ -244,7 +244,10 @@ class GenerationVisitor {
         switch (node->compute_selection()) {
           case ComputeSelection::None:
             // This node only exists for tree connectivity purposes. No explicit
-            // computation that should be exported.
+            // computation that should be exported. The child nodes share their
+            // result object with this node and are no longer in use.
+            drop(*node.right()->expr());
+            drop(*node.left()->expr());
             return;
           case ComputeSelection::Left:
             expressions.push_back(node.left()->expr());
-- 
2.43.0


From 0262b01a3dbbbbfef27d64d71324946af06a98cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:38 +0000
Subject: [PATCH 44/60] fix: factors of sums with several computed terms are
 not pruned onto one of them

---
 SeQuant/core/export/export.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/SeQuant/core/export/export.hpp b/SeQuant/core/export/export.hpp
index 3181049..9a684b1 100644
--- a/SeQuant/core/export/export.hpp
+++ b/SeQuant/core/export/export.hpp
@@ -352,6 +352,17 @@ bool prune_scalar_factor(ExportNode<T> &node, PreprocessResult &result,
   SEQUANT_ASSERT(!node.root());
   SEQUANT_ASSERT(node.parent()->op_type() == EvalOp::Product);
 
+  // The non-leaf children of a sum add directly to the result of that sum.
+  // Hence, there is no single computation that a factor of the entire sum could
+  // be attached to.
+  const auto &sibling = node->id() == node.parent().left()->id()
+                            ? node.parent().right()
+                            : node.parent().left();
+  if (!sibling.leaf() && sibling->op_type() == EvalOp::Sum &&
+      !(sibling.left().leaf() && sibling.right().leaf())) {
+    return false;
+  }
+
   const auto iter = result.scalarFactors.find(node.parent()->id());
   ExprPtr parentFactor =
       iter == result.scalarFactors.end() ? nullptr : iter->second;
-- 
2.43.0


From b7c8fdff0acb7ebb250d1b07d03904a0945f1545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:44 +0000
Subject: [PATCH 45/60] fix: terms of a sum do not reset the sum computed so
 far

---
 SeQuant/core/export/export.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/SeQuant/core/export/export.hpp b/SeQuant/core/export/export.hpp
index 9a684b1..a5df993 100644
--- a/SeQuant/core/export/export.hpp
+++ b/SeQuant/core/export/export.hpp
@@ -106,7 +106,8 @@ class GenerationVisitor {
   }
 
   template <typename ExprType>
-  void load_or_create(const ExprType &expr, const bool isLeaf) {
+  void load_or_create(const ExprType &expr, const bool isLeaf,
+                      const bool continuesSum = false) {
     static_assert(
         std::is_same_v<ExprType, Tensor> || std::is_same_v<ExprType, Variable>,
         "This function currently only works for tensors and variables");
@@ -149,7 +150,7 @@ class GenerationVisitor {
       m_generator.create(expr, zeroCreate, m_ctx);
     } else if (load) {
       m_generator.load(expr, zeroLoad, m_ctx);
-    } else if (zeroReuse) {
+    } else if (zeroReuse && !continuesSum) {
       SEQUANT_ASSERT(alreadyLoaded);
       m_generator.set_to_zero(expr, m_ctx);
     }
@@ -174,10 +175,15 @@ class GenerationVisitor {
           "GenerationVisitor::load_or_create");
     }
 
+    // The computed terms of a sum add to the result object of that sum, which
+    // may already contain other terms (see prune_redundant_intermediate)
+    const bool continuesSum = !node.leaf() && !node.root() &&
+                              node.parent()->op_type() == EvalOp::Sum;
+
     if (node->is_tensor()) {
-      load_or_create<Tensor>(node->as_tensor(), node.leaf());
+      load_or_create<Tensor>(node->as_tensor(), node.leaf(), continuesSum);
     } else {
-      load_or_create<Variable>(node->as_variable(), node.leaf());
+      load_or_create<Variable>(node->as_variable(), node.leaf(), continuesSum);
     }
   }
 
-- 
2.43.0


From aa0e66746d1412a7f45b14d170a4f89c4686fbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:00 +0000
Subject: [PATCH 46/60] fix: loading a zero variable erased the Julia program
 generated so far

---
 SeQuant/core/export/julia_tensor_operations.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SeQuant/core/export/julia_tensor_operations.hpp b/SeQuant/core/export/julia_tensor_operations.hpp
index 70342fa..0bb10d6 100644
--- a/SeQuant/core/export/julia_tensor_operations.hpp
+++ b/SeQuant/core/export/julia_tensor_operations.hpp
@@ -200,7 +200,7 @@ class JuliaTensorOperationsGenerator : public Generator<Context> {
     m_generated += represent(variable, ctx) + " = ";
 
     if (set_to_zero)
-      m_generated = "0";
+      m_generated += "0";
     else {
       m_generated += "deserialize(\"" + represent(variable, ctx) + ".jlbin\")";
     }
-- 
2.43.0


From 6a6d520f89bed9a242662cea3bb19f4cc2b83c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:00 +0000
Subject: [PATCH 47/60] fix: products without factors are exported as their
 scalar

---
 SeQuant/core/export/itf.hpp                     | 4 ++++
 SeQuant/core/export/julia_tensor_operations.hpp | 4 ++++
 SeQuant/core/export/text_generator.hpp          | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/SeQuant/core/export/itf.hpp b/SeQuant/core/export/itf.hpp
index 3c1d080..1274b89 100644
--- a/SeQuant/core/export/itf.hpp
+++ b/SeQuant/core/export/itf.hpp
@@ -505,6 +505,10 @@ class ItfGenerator : public Generator<Context> {
 
       std::string repr;
 
+      if (product.empty()) {
+        return represent(Constant(product.scalar()), ctx);
+      }
+
       if (!product.scalar().is_identity()) {
         repr += represent(Constant(product.scalar()), ctx) + " * ";
       }
diff --git a/SeQuant/core/export/julia_tensor_operations.hpp b/SeQuant/core/export/julia_tensor_operations.hpp
index 0bb10d6..c3e7989 100644
--- a/SeQuant/core/export/julia_tensor_operations.hpp
+++ b/SeQuant/core/export/julia_tensor_operations.hpp
@@ -295,6 +295,10 @@ class JuliaTensorOperationsGenerator : public Generator<Context> {
       const Product &product = expr.as<Product>();
       std::string repr;
 
+      if (product.empty()) {
+        return represent(Constant(product.scalar()), ctx);
+      }
+
       if (!product.scalar().is_identity()) {
         repr += represent(Constant(product.scalar()), ctx) + " * ";
       }
diff --git a/SeQuant/core/export/text_generator.hpp b/SeQuant/core/export/text_generator.hpp
index 0a478fc..0e4b926 100644
--- a/SeQuant/core/export/text_generator.hpp
+++ b/SeQuant/core/export/text_generator.hpp
@@ -340,6 +340,10 @@ class TextGenerator : public Generator<Context> {
       const Product &product = expr.as<Product>();
       std::string repr;
 
+      if (product.empty()) {
+        return represent(Constant(product.scalar()), ctx);
+      }
+
       if (!product.scalar().is_identity()) {
         repr += represent(Constant(product.scalar()), ctx) + " ";
       }
-- 
2.43.0


From c189ac70c7745ef962c251ee0db310d7f5a6a407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:02 +0000
Subject: [PATCH 48/60] fix: binarizing a product of constants within a
 constant product

---
 SeQuant/core/eval/eval_expr.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/SeQuant/core/eval/eval_expr.cpp b/SeQuant/core/eval/eval_expr.cpp
index f7bb2e8..6f05515 100644
--- a/SeQuant/core/eval/eval_expr.cpp
+++ b/SeQuant/core/eval/eval_expr.cpp
@@ -606,12 +606,14 @@ EvalExprNode binarize(Product const& prod, IndexSet const& uncontract,
     return fold_left_to_node(factors | move, make_prod);
   } else {
     auto left = fold_left_to_node(factors | move, make_prod);
+    if (left->is_constant()) {
+      return binarize(Constant{left->as_constant().value() * prod.scalar()});
+    }
     auto right = binarize(Constant{prod.scalar()});
 
     auto expr = left->is_tensor()
                     ? detail::make_tensor(left->as_tensor(), false, opts)
-                : left->is_constant() ? (left->expr() * right->expr())
-                                      : detail::make_variable();
+                    : detail::make_variable();
     auto type = left->is_tensor() ? ResultType::Tensor : ResultType::Scalar;
 
     auto h = left->hash_value();
-- 
2.43.0


From 498a36f8b22c4d3525956777ac1f77b42fda1537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:54 +0000
Subject: [PATCH 49/60] fix: spin tracing of antisymmetric results with three
 or more indices in different spaces

The phases of lexicographically successive permutations do not alternate;
take the phase of every permutation, and none for symmetric results.
---
 SeQuant/domain/mbpt/spin.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/SeQuant/domain/mbpt/spin.cpp b/SeQuant/domain/mbpt/spin.cpp
index a182e40..ad40174 100644
--- a/SeQuant/domain/mbpt/spin.cpp
+++ b/SeQuant/domain/mbpt/spin.cpp
@@ -130,7 +130,7 @@ template <typename Container, typename TraceFunction, typename... Args>
   const std::size_t unchangedSize =
       permuteBra ? expr.ket().size() : expr.bra().size();
 
-  [[maybe_unused]] auto get_phase = [](auto container) {
+  auto get_phase = [](auto container) {
     reset_ts_swap_counter<Index>();
     bubble_sort(container.begin(), container.end(), std::less<Index>{});
     return ts_swap_counter_is_even<Index>() ? 1 : -1;
@@ -149,14 +149,12 @@ template <typename Container, typename TraceFunction, typename... Args>
   // For next_permutation to work in this context, permIndices must be sorted
   SEQUANT_ASSERT(std::is_sorted(permIndices.begin(), permIndices.end()));
 
-  int sign = initialSign;
   do {
-    const int currentSign = sign;
-    // std::next_permutation creates one lexicographical permutation after the
-    // other, which should imply that the phase should alternate between
-    // iterations.
-    sign *= -1;
-    SEQUANT_ASSERT(currentSign == get_phase(permIndices) * initialSign);
+    // N.B. successive lexicographical permutations can differ by more than one
+    // transposition, hence their phases do not need to alternate
+    const int currentSign = expr.symmetry() == Symmetry::Antisymm
+                                ? get_phase(permIndices) * initialSign
+                                : 1;
 
     container::set<std::pair<IndexSpace, IndexSpace>> currentPairing;
 
-- 
2.43.0


From 9b6938c448d2939d21d32b9a75e7a01d693b193d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:54 +0000
Subject: [PATCH 50/60] fix: spintrace of tensors without antisymmetry

Such tensors conserve spin column by column, as closed_shell_spintrace and
open_shell_spintrace assume; spintrace kept every spin case with equal
numbers of alpha indices in bra and ket.
---
 SeQuant/domain/mbpt/spin.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/SeQuant/domain/mbpt/spin.cpp b/SeQuant/domain/mbpt/spin.cpp
index ad40174..ff725da 100644
--- a/SeQuant/domain/mbpt/spin.cpp
+++ b/SeQuant/domain/mbpt/spin.cpp
@@ -1673,22 +1673,28 @@ ExprPtr spintrace_impl(const ExprPtr& expression, IdxGroups&& ext_index_groups,
   // This function must be used for tensors with spin-specific indices only. If
   // the spin-symmetry is conserved: the tensor is expanded; else: zero is
   // returned.
-  auto spintrace_tensor = [](const Tensor& tensor) {
-    return can_expand(tensor) ? expand_antisymm(tensor) : ex<Constant>(0);
+  // N.B. a tensor that is not antisymmetric conserves spin column by column
+  auto conserves_spin = [](const Tensor& tensor) {
+    return can_expand(tensor) && (tensor.symmetry() == Symmetry::Antisymm ||
+                                  ms_conserving_columns(tensor));
+  };
+  auto spintrace_tensor = [&conserves_spin](const Tensor& tensor) {
+    return conserves_spin(tensor) ? expand_antisymm(tensor) : ex<Constant>(0);
   };
 
   // This function is used to spin-trace a product terms with spin-specific
   // indices. It checks if all tensors can be expanded and spintraces individual
   // tensors by call to the spin_trace_tensor lambda.
   auto spintrace_product =
-      [&spintrace_tensor](const ProductPtr& product) -> ExprPtr {
+      [&spintrace_tensor,
+       &conserves_spin](const ProductPtr& product) -> ExprPtr {
     ProductPtr spin_product = std::make_shared<Product>();
 
     // Check if all tensors in this product can be expanded
     // If NOT all tensors can be expanded, return zero
     for (const ExprPtr& expr : product->factors()) {
       if (expr.is<Tensor>()) {
-        if (!can_expand(expr.as<Tensor>())) {
+        if (!conserves_spin(expr.as<Tensor>())) {
           return ex<Constant>(0);
         }
       } else if (expr.is<Sum>() || expr.is<Product>()) {
-- 
2.43.0


From acf912d9098446cb9d433c2aa81304d8d4923d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:03 +0000
Subject: [PATCH 51/60] fix: open_shell_spintrace of sums and single tensors

Every term was summed over the spin cases of the internal indices of the
whole sum, hence terms with fewer (or differently named) internal indices
were counted several times; single tensors that do not conserve spin were
kept.
---
 SeQuant/domain/mbpt/spin.cpp | 101 ++++++++++++++++++-----------------
 1 file changed, 53 insertions(+), 48 deletions(-)

diff --git a/SeQuant/domain/mbpt/spin.cpp b/SeQuant/domain/mbpt/spin.cpp
index ff725da..650bfba 100644
--- a/SeQuant/domain/mbpt/spin.cpp
+++ b/SeQuant/domain/mbpt/spin.cpp
@@ -1372,10 +1372,6 @@ std::vector<ExprPtr> open_shell_spintrace_impl(
     return std::vector<ExprPtr>{expr};
   }
 
-  // Grand index list contains both internal and external indices
-  container::set<Index, Index::LabelCompare> grand_idxlist =
-      get_used_indices<decltype(grand_idxlist)>(expr);
-
   container::set<Index> ext_idxlist;
   for (const auto& idxgrp : ext_index_groups) {
     for (const Index& current : idxgrp) {
@@ -1385,21 +1381,20 @@ std::vector<ExprPtr> open_shell_spintrace_impl(
     }
   }
 
-  container::set<Index> int_idxlist;
-  for (auto&& gidx : grand_idxlist) {
-    if (ext_idxlist.find(gidx) == ext_idxlist.end()) {
-      int_idxlist.insert(gidx);
-    }
-  }
-
   using IndexGroup = container::svector<Index>;
-  container::svector<IndexGroup> int_index_groups;
-  for (auto&& i : int_idxlist) {
-    int_index_groups.emplace_back(IndexGroup(1, i));
-  }
 
-  SEQUANT_ASSERT(grand_idxlist.size() ==
-                 int_idxlist.size() + ext_idxlist.size());
+  // Internal indices of a term, one group per index
+  auto int_index_groups = [&ext_idxlist](const ExprPtr& term) {
+    container::svector<IndexGroup> groups;
+    const auto used =
+        get_used_indices<container::set<Index, Index::LabelCompare>>(term);
+    for (auto&& idx : used) {
+      if (ext_idxlist.find(idx) == ext_idxlist.end()) {
+        groups.emplace_back(IndexGroup(1, idx));
+      }
+    }
+    return groups;
+  };
 
   // make a spin-specific index, orientation is given by spin_bit: 0 =
   // spin-down/beta, 1 = spin-up/alpha
@@ -1450,7 +1445,6 @@ std::vector<ExprPtr> open_shell_spintrace_impl(
   };
 
   // Internal and external index replacements are independent
-  auto i_rep = spin_cases(int_index_groups);
   auto e_rep = ext_spin_cases(ext_index_groups);
 
   // For a single spin case, keep only the relevant spin case
@@ -1496,43 +1490,54 @@ std::vector<ExprPtr> open_shell_spintrace_impl(
   // SPIN-TRACING algorithm begins here
   //
 
+  // Terms can have different numbers of internal indices, hence trace them one
+  // by one
+  const auto terms = expanded_expr->is<Sum>()
+                         ? expanded_expr->as<Sum>().summands()
+                         : Sum::summands_type{expanded_expr};
+
   // Loop over external index replacement maps
   for (auto& e : e_rep) {
-    // Add spin labels to external indices
-    auto spin_expr = append_spin(expanded_expr, e);
-    detail::reset_idx_tags(spin_expr);
     Sum e_result{};
 
-    // Loop over internal index replacement maps
-    for (auto& i : i_rep) {
-      // Add spin labels to internal indices, expand antisymmetric tensors
-      ExprPtr spin_expr_i = append_spin(spin_expr, i);
-      spin_expr_i = expand_antisymm(spin_expr_i, true);
-      expand(spin_expr_i);
-      detail::reset_idx_tags(spin_expr_i);
-      Sum i_result{};
-
-      if (spin_expr_i->is<Tensor>() || spin_expr_i->is<Constant>() ||
-          spin_expr_i->is<Variable>()) {
-        e_result.append(spin_expr_i);
-      } else if (spin_expr_i->is<Product>()) {
-        if (spin_symm_product(spin_expr_i->as<Product>()))
+    for (auto& term : terms) {
+      // Add spin labels to external indices
+      auto spin_expr = append_spin(term, e);
+      detail::reset_idx_tags(spin_expr);
+
+      // Loop over internal index replacement maps
+      for (auto& i : spin_cases(int_index_groups(term))) {
+        // Add spin labels to internal indices, expand antisymmetric tensors
+        ExprPtr spin_expr_i = append_spin(spin_expr, i);
+        spin_expr_i = expand_antisymm(spin_expr_i, true);
+        expand(spin_expr_i);
+        detail::reset_idx_tags(spin_expr_i);
+        Sum i_result{};
+
+        if (spin_expr_i->is<Constant>() || spin_expr_i->is<Variable>()) {
           e_result.append(spin_expr_i);
-      } else if (spin_expr_i->is<Sum>()) {
-        for (auto& pr : *spin_expr_i) {
-          if (pr->is<Product>()) {
-            if (spin_symm_product(pr->as<Product>())) i_result.append(pr);
-          } else if (pr->is<Tensor>()) {
-            if (ms_conserving_columns(pr->as<Tensor>())) i_result.append(pr);
-          } else if (pr->is<Constant>() || pr->is<Variable>()) {
-            i_result.append(pr);
-          } else
-            throw("Unknown ExprPtr type.");
+        } else if (spin_expr_i->is<Tensor>()) {
+          if (ms_conserving_columns(spin_expr_i->as<Tensor>()))
+            e_result.append(spin_expr_i);
+        } else if (spin_expr_i->is<Product>()) {
+          if (spin_symm_product(spin_expr_i->as<Product>()))
+            e_result.append(spin_expr_i);
+        } else if (spin_expr_i->is<Sum>()) {
+          for (auto& pr : *spin_expr_i) {
+            if (pr->is<Product>()) {
+              if (spin_symm_product(pr->as<Product>())) i_result.append(pr);
+            } else if (pr->is<Tensor>()) {
+              if (ms_conserving_columns(pr->as<Tensor>())) i_result.append(pr);
+            } else if (pr->is<Constant>() || pr->is<Variable>()) {
+              i_result.append(pr);
+            } else
+              throw("Unknown ExprPtr type.");
+          }
+          e_result.append(std::make_shared<Sum>(i_result));
         }
-        e_result.append(std::make_shared<Sum>(i_result));
-      }
 
-    }  // loop over internal indices
+      }  // loop over internal indices
+    }  // loop over terms
     result.push_back(std::make_shared<Sum>(e_result));
   }  // loop over external indices
 
-- 
2.43.0


From 2367f68f5bf1cc181828c37b3e8300e244cd0ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:54 +0000
Subject: [PATCH 52/60] fix: closed_shell_spintrace with external groups that
 are not columns of A

Terms are traced with the symmetrizer left in front, which is valid only if
permuting its columns leaves the external index groups alone.
---
 SeQuant/domain/mbpt/spin.cpp | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/SeQuant/domain/mbpt/spin.cpp b/SeQuant/domain/mbpt/spin.cpp
index 650bfba..8b5440e 100644
--- a/SeQuant/domain/mbpt/spin.cpp
+++ b/SeQuant/domain/mbpt/spin.cpp
@@ -936,10 +936,37 @@ ExprPtr closed_shell_spintrace_impl(const ExprPtr& expression,
   // non-symmetric.
   // full_expansion: it fully expands the antisymmetrizer directly (can be used
   // for v2 eqs, however it is not an optimized way).
-  auto partially_or_fully_expand = [&full_expansion](const ExprPtr& expr) {
+  // N.B. permuting the columns of S leaves the external index groups alone only
+  // if the groups are these columns (or there are at most 2 of them); otherwise
+  // expand fully
+  auto columns_are_groups = [&ext_index_groups](const ExprPtr& expr) {
+    bool result = true;
+    expr->visit(
+        [&](const ExprPtr& current) {
+          if (!current->is<Tensor>()) return;
+          const auto& A = current->as<Tensor>();
+          if (A.label() != reserved::antisymm_label() || A.bra_rank() <= 2 ||
+              A.bra_rank() != A.ket_rank())
+            return;
+          // N.B. externals in the bra of A are in the ket of the result
+          auto column = [&A](const Index& idx) {
+            const auto in_bra = std::ranges::find(A.bra(), idx);
+            return in_bra != A.bra().end()
+                       ? in_bra - A.bra().begin()
+                       : std::ranges::find(A.ket(), idx) - A.ket().begin();
+          };
+          for (const auto& group : ext_index_groups) {
+            result &= column(get_bra_idx(group)) == column(get_ket_idx(group));
+          }
+        },
+        /* atoms_only = */ true);
+    return result;
+  };
+  auto partially_or_fully_expand = [&full_expansion,
+                                    &columns_are_groups](const ExprPtr& expr) {
     auto temp = expr;
     if (has_tensor(temp, reserved::antisymm_label())) {
-      if (full_expansion) {
+      if (full_expansion || !columns_are_groups(temp)) {
         temp = expand_A_op(temp);
       } else {
         temp = symmetrize_expr(temp);
-- 
2.43.0


From fb09fc391ee15121f64007f95eca3fb9dbdd9723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:27 +0000
Subject: [PATCH 53/60] fix: expectation values that reduce to a single factor
 with a multiconfigurational reference

---
 SeQuant/domain/mbpt/op.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/SeQuant/domain/mbpt/op.cpp b/SeQuant/domain/mbpt/op.cpp
index 50f7b29..c748cda 100644
--- a/SeQuant/domain/mbpt/op.cpp
+++ b/SeQuant/domain/mbpt/op.cpp
@@ -1516,8 +1516,12 @@ ExprPtr expectation_value_impl(ExprPtr expr, OpConnections<int> connect,
         auto product_ptr = exptr.template as_shared_ptr<Product>();
         impl_for_single_tn(product_ptr);
         exptr = product_ptr;
+      } else if (!exptr.template is<Sum>()) {
+        // single factor, e.g. a Tensor or (if zero) a Constant
+        auto product_ptr = std::make_shared<Product>(ExprPtrList{exptr});
+        impl_for_single_tn(product_ptr);
+        exptr = product_ptr;
       } else {
-        SEQUANT_ASSERT(exptr.template is<Sum>());
         auto result = std::make_shared<Sum>();
         for (auto& summand : exptr.template as<Sum>().summands()) {
           // a summand may collapse to a single factor rather than a Product
-- 
2.43.0


From af53d75911e1f725ca1b4e038b7bf0b10aca5392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:27 +0000
Subject: [PATCH 54/60] fix: mbpt::Operator::adjoint lost track of its adjoint
 flag

---
 SeQuant/domain/mbpt/op.ipp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/SeQuant/domain/mbpt/op.ipp b/SeQuant/domain/mbpt/op.ipp
index 8f28062..08e720d 100644
--- a/SeQuant/domain/mbpt/op.ipp
+++ b/SeQuant/domain/mbpt/op.ipp
@@ -156,7 +156,8 @@ void Operator<QuantumNumbers, S>::adjoint() {
     lbl.push_back(sequant::adjoint_label);
   }
 
-  // get order and batch_ordinals to restore later
+  // get adjoint flag, order and batch_ordinals to restore later
+  const auto saved_is_adjoint = this->is_adjoint_;
   const auto saved_order = this->order_;
   const auto saved_batch_ordinals = this->batch_ordinals_;
 
@@ -173,7 +174,7 @@ void Operator<QuantumNumbers, S>::adjoint() {
         qn += sequant::adjoint(dN);
         return qn;  // qn_action
       }};
-  this->is_adjoint_ = !this->is_adjoint_;  // toggle adjoint flag
+  this->is_adjoint_ = !saved_is_adjoint;  // toggle adjoint flag
 
   // restore original order and batch_ordinals
   this->order_ = saved_order;
-- 
2.43.0


From 2634bf8d41017c1373eee58e0733f916b9dfe8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:27 +0000
Subject: [PATCH 55/60] fix: mbpt operators whose products involve
 contractions, or both odd, were deemed commuting

---
 SeQuant/domain/mbpt/op.cpp | 21 +++++++++++++++++++++
 SeQuant/domain/mbpt/op.hpp |  5 +++++
 SeQuant/domain/mbpt/op.ipp | 22 ++++++++++++++++++----
 3 files changed, 44 insertions(+), 4 deletions(-)

diff --git a/SeQuant/domain/mbpt/op.cpp b/SeQuant/domain/mbpt/op.cpp
index c748cda..233356f 100644
--- a/SeQuant/domain/mbpt/op.cpp
+++ b/SeQuant/domain/mbpt/op.cpp
@@ -284,6 +284,27 @@ qns_t combine(qns_t a, qns_t b) {
   }
 }
 
+bool can_contract(const qns_t& a, const qns_t& b) {
+  SEQUANT_ASSERT(a.size() == b.size());
+  const auto overlap = [](const auto& left, const auto& right) {
+    return left.upper() > 0 && right.upper() > 0;
+  };
+  if (get_default_context().vacuum() == Vacuum::Physical)
+    return overlap(a[1], b[0]);
+  auto isr = get_default_context().index_space_registry();
+  const auto& base_spaces = isr->base_spaces();
+  for (std::size_t i = 0; i < base_spaces.size(); i++) {
+    const auto cre = i * 2;
+    const auto ann = (i * 2) + 1;
+    // contractions are between the quasiparticle annihilators of a and
+    // creators of b
+    if (isr->is_pure_occupied(base_spaces[i]) ? overlap(a[cre], b[ann])
+                                              : overlap(a[ann], b[cre]))
+      return true;
+  }
+  return false;
+}
+
 // must be defined including op.ipp since it's used there
 template <>
 bool is_vacuum<qns_t>(qns_t qns) {
diff --git a/SeQuant/domain/mbpt/op.hpp b/SeQuant/domain/mbpt/op.hpp
index 658e1ba..7b7fc9e 100644
--- a/SeQuant/domain/mbpt/op.hpp
+++ b/SeQuant/domain/mbpt/op.hpp
@@ -463,6 +463,11 @@ using op_t = mbpt::Operator<qnc_t>;
 /// combines 2 sets of quantum numbers using Wick's theorem
 qns_t combine(qns_t, qns_t);
 
+/// @return false if the product of (normal-ordered) operators with the given
+/// quantum numbers is certain to be normal ordered, i.e. no contractions are
+/// possible
+bool can_contract(const qns_t&, const qns_t&);
+
 /// @brief Constructs quantum numbers for an excitation operator based on the
 /// defined context
 /// @param k the rank of the operator
diff --git a/SeQuant/domain/mbpt/op.ipp b/SeQuant/domain/mbpt/op.ipp
index 08e720d..0de5129 100644
--- a/SeQuant/domain/mbpt/op.ipp
+++ b/SeQuant/domain/mbpt/op.ipp
@@ -127,15 +127,29 @@ bool Operator<QuantumNumbers, S>::commutes_with_atom(const Expr& that) const {
   else {
     auto& that_op = that.as<this_type>();
 
-    // if this has annihilators/creators in same space as that has
-    // creator/annihilators return false
-
     auto delta_this = (*this)();
     auto delta_that = (that_op)();
 
     SEQUANT_ASSERT(this->size() % 2 == 0 && that.size() == this->size());
 
-    return combine(delta_this, delta_that) == combine(delta_that, delta_this);
+    // identical operators commute
+    if (this->static_equal(that_op)) return true;
+
+    if (can_contract(delta_this, delta_that) ||
+        can_contract(delta_that, delta_this))
+      return false;
+
+    // operators without contractions commute unless both have (or, if the
+    // number of elementary operators is not known, may have) odd rank
+    if constexpr (S == Statistics::FermiDirac) {
+      auto may_be_odd = [](const auto& delta) {
+        qninterval_t n = 0;
+        for (auto&& q : delta) n += q;
+        return n.lower() != n.upper() || n.lower() % 2 != 0;
+      };
+      return !(may_be_odd(delta_this) && may_be_odd(delta_that));
+    } else
+      return true;
   }
 }
 
-- 
2.43.0


From cbddcb0ed54d275d2812c7ef293f5f9ea3624076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:34 +0000
Subject: [PATCH 56/60] fix: quantum numbers of generic (de)excitations with
 physical vacuum swapped creators and annihilators

---
 SeQuant/domain/mbpt/op.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/SeQuant/domain/mbpt/op.cpp b/SeQuant/domain/mbpt/op.cpp
index 233356f..00dc7df 100644
--- a/SeQuant/domain/mbpt/op.cpp
+++ b/SeQuant/domain/mbpt/op.cpp
@@ -187,8 +187,8 @@ qns_t generic_excitation_qns(std::size_t particle_rank, std::size_t hole_rank,
                              const IndexSpace::QuantumNumbers SQN) {
   qnc_t result;
   if (get_default_context().vacuum() == Vacuum::Physical) {
-    result[0] = {0ul, hole_rank};
-    result[1] = {0ul, particle_rank};
+    result[0] = {0ul, particle_rank};
+    result[1] = {0ul, hole_rank};
   } else {
     auto isr = get_default_context().index_space_registry();
     const auto& base_spaces = isr->base_spaces();
@@ -220,8 +220,8 @@ qns_t generic_deexcitation_qns(std::size_t particle_rank, std::size_t hole_rank,
                                const IndexSpace::QuantumNumbers SQN) {
   qnc_t result;
   if (get_default_context().vacuum() == Vacuum::Physical) {
-    result[0] = {0ul, particle_rank};
-    result[1] = {0ul, hole_rank};
+    result[0] = {0ul, hole_rank};
+    result[1] = {0ul, particle_rank};
   } else {
     auto isr = get_default_context().index_space_registry();
     const auto& base_spaces = isr->base_spaces();
-- 
2.43.0


From 4a80cf9b95dbcdb4343bd61251ced690085079c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:34 +0000
Subject: [PATCH 57/60] fix: canonicalization with a custom index comparer
 assumed that tensors stay sorted

---
 SeQuant/core/tensor_network/v3.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/SeQuant/core/tensor_network/v3.cpp b/SeQuant/core/tensor_network/v3.cpp
index 61faeb9..1602648 100644
--- a/SeQuant/core/tensor_network/v3.cpp
+++ b/SeQuant/core/tensor_network/v3.cpp
@@ -634,9 +634,10 @@ ExprPtr TensorNetworkV3::canonicalize(
 
     byproduct *= canonicalize_individual_tensors(named_indices);
 
-    // We assume that re-indexing did not change the canonical order of tensors
-    SEQUANT_ASSERT(
-        std::is_sorted(tensors_.begin(), tensors_.end(), tensor_sorter));
+    // Canonicalization of individual tensors may have permuted slots of
+    // different types (e.g. if TensorCanonicalizer uses a custom index
+    // comparer), hence may have changed the canonical order of tensors
+    bubble_sort(tensors_.begin(), tensors_.end(), tensor_sorter);
     // However, in order to produce the most aesthetically pleasing result, we
     // now reorder tensors based on the regular AbstractTensor::operator<, which
     // takes the explicit index labelling of tensors into account.
-- 
2.43.0


From e0aa6de551b4935e870e12d84a48b57c9c9b2ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:59 +0000
Subject: [PATCH 58/60] fix: Singleton::instance_ptr did not compile for
 default-constructible classes

---
 SeQuant/core/utility/singleton.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SeQuant/core/utility/singleton.hpp b/SeQuant/core/utility/singleton.hpp
index 306641e..0c3929a 100644
--- a/SeQuant/core/utility/singleton.hpp
+++ b/SeQuant/core/utility/singleton.hpp
@@ -74,7 +74,7 @@ class Singleton {
     const auto& result_ptr = instance_accessor();
     if (result_ptr != nullptr) return result_ptr.get();
     if constexpr (derived_is_default_constructible) {
-      return set_default_instance();
+      return &set_default_instance();
     } else
       return nullptr;
   }
-- 
2.43.0


From ef4861820510402e86b20a4287136d1285fefba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:59 +0000
Subject: [PATCH 59/60] fix: memoize invalidated values in use by other
 threads, and hung after a failed computation

---
 SeQuant/core/utility/memoize.hpp            | 44 ++++++++++++---------
 SeQuant/domain/mbpt/biorthogonalization.cpp |  5 +--
 SeQuant/domain/mbpt/biorthogonalization.hpp |  3 +-
 3 files changed, 30 insertions(+), 22 deletions(-)

diff --git a/SeQuant/core/utility/memoize.hpp b/SeQuant/core/utility/memoize.hpp
index 38a80d0..167327c 100644
--- a/SeQuant/core/utility/memoize.hpp
+++ b/SeQuant/core/utility/memoize.hpp
@@ -1,9 +1,8 @@
 #ifndef SEQUANT_CORE_UTILITY_MEMOIZE_HPP
 #define SEQUANT_CORE_UTILITY_MEMOIZE_HPP
 
-#include <SeQuant/core/container.hpp>
-
 #include <condition_variable>
+#include <map>
 #include <mutex>
 #include <optional>
 #include <utility>
@@ -16,37 +15,46 @@ namespace sequant::detail {
 /// @tparam Key The cache key type
 /// @tparam Value The cached value type
 /// @tparam ComputeFn Callable returning Value
-/// @param cache The cache map (must use std::optional<Value> as values)
+/// @param cache The cache map (must use std::optional<Value> as values); must
+///        be node-based since the references to its values are returned and
+///        must not be invalidated by insertion of other keys
 /// @param mutex The mutex protecting the cache
 /// @param cv The condition variable for waiting
 /// @param key The key to look up/store
-/// @param compute_fn A callable that computes the value if not cached
+/// @param compute_fn A callable that computes the value if not cached; if it
+///        throws the exception is passed on to the caller, and the value is
+///        computed by the next caller (waiting or new)
 /// @return Reference to the cached value
 template <typename Key, typename Value, typename ComputeFn>
-const Value& memoize(container::map<Key, std::optional<Value>>& cache,
+const Value& memoize(std::map<Key, std::optional<Value>>& cache,
                      std::mutex& mutex, std::condition_variable& cv,
                      const Key& key, ComputeFn&& compute_fn) {
   {
     std::unique_lock<std::mutex> lock(mutex);
-    using cache_t = container::map<Key, std::optional<Value>>;
-    typename cache_t::iterator it;
-    bool inserted;
-    // N.B. Use std::tie instead of structured binding to allow lambda capture
-    // (C++17 does not support capturing structured bindings in lambdas)
-    std::tie(it, inserted) = cache.try_emplace(key, std::nullopt);
-    if (!inserted) {
-      cv.wait(lock, [&it] { return it->second.has_value(); });
-      return it->second.value();
+    while (!cache.try_emplace(key, std::nullopt).second) {
+      // N.B. the placeholder disappears if compute_fn throws
+      cv.wait(lock, [&cache, &key] {
+        auto it = cache.find(key);
+        return it == cache.end() || it->second.has_value();
+      });
+      if (auto it = cache.find(key); it != cache.end())
+        return it->second.value();
     }
   }
 
-  Value result = compute_fn();
+  try {
+    Value result = compute_fn();
 
-  {
     std::lock_guard<std::mutex> lock(mutex);
-    cache[key] = std::move(result);
+    auto& value = cache[key];
+    value = std::move(result);
+    cv.notify_all();
+    return value.value();
+  } catch (...) {
+    std::lock_guard<std::mutex> lock(mutex);
+    cache.erase(key);
     cv.notify_all();
-    return cache[key].value();
+    throw;
   }
 }
 
diff --git a/SeQuant/domain/mbpt/biorthogonalization.cpp b/SeQuant/domain/mbpt/biorthogonalization.cpp
index e68850e..d777916 100644
--- a/SeQuant/domain/mbpt/biorthogonalization.cpp
+++ b/SeQuant/domain/mbpt/biorthogonalization.cpp
@@ -488,9 +488,8 @@ void biorthogonal_transform(container::svector<ResultExpr>& result_exprs,
 
   static std::mutex cache_mutex;
   static std::condition_variable cache_cv;
-  static container::map<CacheKey, std::optional<HardcodedMatrix>>
-      hardcoded_cache;
-  static container::map<CacheKey, std::optional<ComputedMatrix>> computed_cache;
+  static std::map<CacheKey, std::optional<HardcodedMatrix>> hardcoded_cache;
+  static std::map<CacheKey, std::optional<ComputedMatrix>> computed_cache;
 
   constexpr std::size_t max_rank_hardcoded_biorthogonalizer_matrix = 5;
   CacheKey key{n_particles, threshold};
diff --git a/SeQuant/domain/mbpt/biorthogonalization.hpp b/SeQuant/domain/mbpt/biorthogonalization.hpp
index c5d0c5f..57cd192 100644
--- a/SeQuant/domain/mbpt/biorthogonalization.hpp
+++ b/SeQuant/domain/mbpt/biorthogonalization.hpp
@@ -26,6 +26,7 @@
 #include <concepts>
 #include <condition_variable>
 #include <cstddef>
+#include <map>
 #include <mutex>
 #include <optional>
 #include <vector>
@@ -231,7 +232,7 @@ template <typename T>
 
   static std::mutex cache_mutex;
   static std::condition_variable cache_cv;
-  static container::map<CacheKey, std::optional<std::vector<T>>> cache;
+  static std::map<CacheKey, std::optional<std::vector<T>>> cache;
 
   CacheKey key{n_particles, pseudoinverse_threshold};
 
-- 
2.43.0


From ca7f14e163b95c822f7305ba54fad99212db3ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:59 +0000
Subject: [PATCH 60/60] fix: exceptions thrown by concurrent tasks terminated
 the program

---
 SeQuant/core/runtime.hpp | 49 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 43 insertions(+), 6 deletions(-)

diff --git a/SeQuant/core/runtime.hpp b/SeQuant/core/runtime.hpp
index f3d62e1..c1f988c 100644
--- a/SeQuant/core/runtime.hpp
+++ b/SeQuant/core/runtime.hpp
@@ -6,7 +6,9 @@
 #define SEQUANT_RUNTIME_HPP
 
 #include <cstdlib>
+#include <exception>
 #include <memory>
+#include <mutex>
 #include <thread>
 #include <utility>
 #include <vector>
@@ -37,6 +39,30 @@ inline int& nthreads_accessor() {
   static int nthreads = init_nthreads();
   return nthreads;
 }
+
+/// keeps the first exception thrown by concurrent tasks
+class ExceptionKeeper {
+ public:
+  /// invokes @p f ; if it throws keeps the exception, unless already have one
+  template <typename F>
+  void operator()(F&& f) noexcept {
+    try {
+      std::forward<F>(f)();
+    } catch (...) {
+      std::scoped_lock<std::mutex> lock(mtx_);
+      if (!exception_) exception_ = std::current_exception();
+    }
+  }
+
+  /// throws the exception kept, if any
+  void rethrow() const {
+    if (exception_) std::rethrow_exception(exception_);
+  }
+
+ private:
+  std::mutex mtx_;
+  std::exception_ptr exception_;
+};
 }  // namespace detail
 
 /// sets the number of threads to use for concurrent work
@@ -58,19 +84,26 @@ inline int num_threads() { return detail::nthreads_accessor(); }
 /// @param lambda the function object to execute, each will be invoked as @c
 /// lambda(thread_id) where @c thread_id is an integer in
 ///        @c [0,nthreads) .
+/// @throw the first of the exceptions thrown by @p lambda , if any, after all
+///        threads are done
 /// @sa get_num_threads()
 template <typename Lambda>
 void parallel_do(Lambda&& lambda) {
   std::vector<std::thread> threads;
   const auto nthreads = num_threads();
+  detail::ExceptionKeeper keep_exception;
   for (int thread_id = 0; thread_id != nthreads; ++thread_id) {
     if (thread_id != nthreads - 1)
-      threads.push_back(std::thread(std::forward<Lambda>(lambda), thread_id));
+      threads.push_back(
+          std::thread([&keep_exception, lambda, thread_id]() mutable {
+            keep_exception([&] { lambda(thread_id); });
+          }));
     else
-      std::forward<Lambda>(lambda)(thread_id);
+      keep_exception([&] { lambda(thread_id); });
   }  // threads_id
   for (int thread_id = 0; thread_id < nthreads - 1; ++thread_id)
     threads[thread_id].join();
+  keep_exception.rethrow();
 }
 
 /// Parallel version of std::for_each , using either parallel C++ algorithms
@@ -108,14 +141,16 @@ void for_each(SizedRange& rng, const UnaryOp& op) {
 
   const auto nthreads = num_threads();
   std::vector<std::thread> threads;
+  detail::ExceptionKeeper keep_exception;
   for (int thread_id = 0; thread_id != nthreads; ++thread_id) {
     if (thread_id != nthreads - 1)
-      threads.push_back(std::thread(task));
+      threads.push_back(std::thread([&] { keep_exception(task); }));
     else
-      task();
+      keep_exception(task);
   }  // threads_id
   for (int thread_id = 0; thread_id < nthreads - 1; ++thread_id)
     threads[thread_id].join();
+  keep_exception.rethrow();
 #endif
 }
 
@@ -162,14 +197,16 @@ T transform_reduce(SizedRange&& rng, T init, const BinaryReductionOp& reduce,
 
   const auto nthreads = num_threads();
   std::vector<std::thread> threads;
+  detail::ExceptionKeeper keep_exception;
   for (int thread_id = 0; thread_id != nthreads; ++thread_id) {
     if (thread_id != nthreads - 1)
-      threads.push_back(std::thread(task));
+      threads.push_back(std::thread([&] { keep_exception(task); }));
     else
-      task();
+      keep_exception(task);
   }  // threads_id
   for (int thread_id = 0; thread_id < nthreads - 1; ++thread_id)
     threads[thread_id].join();
+  keep_exception.rethrow();
 
   return result;
 #endif
-- 
2.43.0

