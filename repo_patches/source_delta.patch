From 5ee545aec1a18d3f492228ecd77f4e2e5d335e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:32 +0000
Subject: [PATCH 01/16] fix: give every copy of a bound expression its own
 cache

Copying ExprBind copied the expression together with its bindings, so the copy
kept reading and writing the cache of the original (also after its destruction).
---
 include/fastad_bits/reverse/core/bind.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/fastad_bits/reverse/core/bind.hpp b/include/fastad_bits/reverse/core/bind.hpp
index 9ea7ca6..092e2b4 100644
--- a/include/fastad_bits/reverse/core/bind.hpp
+++ b/include/fastad_bits/reverse/core/bind.hpp
@@ -32,6 +32,20 @@ struct ExprBind
         expr_.bind_cache({val_cache_.data(), adj_cache_.data()});
     }
     
+    // A copy must view its own cache, not that of the original.
+    ExprBind(const ExprBind& other)
+        : ExprBind(other.expr_)
+    {
+        val_cache_ = other.val_cache_;
+        adj_cache_ = other.adj_cache_;
+    }
+
+    // Moving the caches preserves the addresses viewed by the expression.
+    ExprBind(ExprBind&&) = default;
+
+    ExprBind& operator=(const ExprBind&) = default;
+    ExprBind& operator=(ExprBind&&) = default;
+
     expr_t& get() { return expr_; }
 
 private:
-- 
2.43.0


From 192d48616edd9de410a203d2d9159dc2993b9d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:59 +0000
Subject: [PATCH 02/16] fix: keep the adjoint cache of an element-wise product
 when its root is rebound

The root of an expression assigned to a placeholder is rebound to the
placeholder and its single_bind_cache_size() is given back to the arena.
ProdElemNode included its private adjoint cache in that size although it stays
bound and written, so 'w = prod(v)' wrote past the end of the adjoint cache.
---
 include/fastad_bits/reverse/core/prod.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/fastad_bits/reverse/core/prod.hpp b/include/fastad_bits/reverse/core/prod.hpp
index 12621d1..1180e2a 100644
--- a/include/fastad_bits/reverse/core/prod.hpp
+++ b/include/fastad_bits/reverse/core/prod.hpp
@@ -230,12 +230,15 @@ public:
     util::SizePack bind_cache_size() const 
     { 
         return expr_.bind_cache_size() + 
-                single_bind_cache_size();
+                single_bind_cache_size() +
+                util::SizePack(0, adj_cache_.size());
     }
 
+    // Only counts the value(s) at the root;
+    // adj_cache_ must remain bound even if the root gets rebound (see EqNode).
     util::SizePack single_bind_cache_size() const
     { 
-        return {this->size(), expr_.size()}; 
+        return {this->size(), 0}; 
     }
 
 private:
-- 
2.43.0


From 850c184004831c7b76e05cf7a8673c8302b94656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:59 +0000
Subject: [PATCH 03/16] fix: keep the saved value of a compound assignment when
 its root is rebound

OpEqNode reported its saved-value cache as the size of its root, so assigning a
compound assignment to a placeholder gave that cache back to the arena while it
was still being written, past the end of the advertised cache size.
---
 include/fastad_bits/reverse/core/eq.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/fastad_bits/reverse/core/eq.hpp b/include/fastad_bits/reverse/core/eq.hpp
index 5503a89..b029296 100644
--- a/include/fastad_bits/reverse/core/eq.hpp
+++ b/include/fastad_bits/reverse/core/eq.hpp
@@ -287,14 +287,14 @@ public:
 
     util::SizePack bind_cache_size() const 
     {
-        return single_bind_cache_size() + 
+        return util::SizePack(cache_.size(), cache_.size()) + 
                 expr_.bind_cache_size(); 
     }
 
+    // Root views the values of the variable viewer, so it needs nothing extra.
+    // cache_ must remain bound even if the root gets rebound (see EqNode).
     util::SizePack single_bind_cache_size() const
-    {
-        return {cache_.size(), cache_.size()}; 
-    }
+    { return {0,0}; }
 
 private:
     value_adj_view_t cache_;
-- 
2.43.0


From 67064027a72b6c5207a754d561b709bfc25c8670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:35 +0000
Subject: [PATCH 04/16] fix: let a conditional view its own value

IfElseNode never bound its value, so using it as an operand (sin(if_else(...)),
the last statement of a sequence, an assigned expression, ...) dereferenced a
null view, and branches with different value types returned a dangling reference.
---
 include/fastad_bits/reverse/core/if_else.hpp | 22 ++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/include/fastad_bits/reverse/core/if_else.hpp b/include/fastad_bits/reverse/core/if_else.hpp
index beade43..3965ac3 100644
--- a/include/fastad_bits/reverse/core/if_else.hpp
+++ b/include/fastad_bits/reverse/core/if_else.hpp
@@ -75,10 +75,14 @@ public:
         assert(if_expr.cols() == else_expr.cols());
     }
 
-    const auto& feval()
+    const var_t& feval()
     {
-        return cond_expr_.feval() ? 
-                if_expr_.feval() : else_expr_.feval();
+        if (cond_expr_.feval()) {
+            this->get() = if_expr_.feval();
+        } else {
+            this->get() = else_expr_.feval();
+        }
+        return this->get();
     }
 
     template <class T>
@@ -95,18 +99,24 @@ public:
     {
         begin = cond_expr_.bind_cache(begin);
         begin = if_expr_.bind_cache(begin);
-        return else_expr_.bind_cache(begin);
+        begin = else_expr_.bind_cache(begin);
+        auto adj = begin.adj;
+        begin.adj = nullptr;
+        begin = value_adj_view_t::bind(begin);
+        begin.adj = adj;
+        return begin;
     }
 
     util::SizePack bind_cache_size() const 
     { 
         return cond_expr_.bind_cache_size() +
                 if_expr_.bind_cache_size() + 
-                else_expr_.bind_cache_size();
+                else_expr_.bind_cache_size() +
+                single_bind_cache_size();
     }
 
     util::SizePack single_bind_cache_size() const
-    { return {0,0}; }
+    { return {this->size(), 0}; }
 
 private:
     cond_t cond_expr_;
-- 
2.43.0


From f5ba89b9a572ee4ad4b3b1359a02be031211996c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:08 +0000
Subject: [PATCH 05/16] fix: apply the seed of a vectorised Cauchy log-pdf only
 once

dx already carries the seed; loc and scale adjoints multiplied it again, so they
were wrong for every seed other than 1.
---
 include/fastad_bits/reverse/stat/cauchy.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/fastad_bits/reverse/stat/cauchy.hpp b/include/fastad_bits/reverse/stat/cauchy.hpp
index 2e89726..1027014 100644
--- a/include/fastad_bits/reverse/stat/cauchy.hpp
+++ b/include/fastad_bits/reverse/stat/cauchy.hpp
@@ -228,8 +228,8 @@ public:
 
         auto diff = (x - x0);
         auto dx = (-2. * seed) * diff / (gamma_sq + diff.square());
-        value_t dx0 = (-seed) * dx.sum();
-        value_t dgamma = (-seed/gamma) * ((dx * diff).sum() + x.size());
+        value_t dx0 = -dx.sum();
+        value_t dgamma = (-1./gamma) * ((dx * diff).sum() + seed * x.size());
         
         scale_.beval(dgamma);
         loc_.beval(dx0);
@@ -297,8 +297,8 @@ public:
 
         auto diff = x - x0;
         auto dx = (-2. * seed) * diff / (gamma.square() + diff.square());
-        value_t dx0 = (-seed) * dx.sum();
-        auto dgamma = (-seed) * (dx * diff + 1) / gamma;
+        value_t dx0 = -dx.sum();
+        auto dgamma = -(dx * diff + seed) / gamma;
 
         scale_.beval(dgamma);
         loc_.beval(dx0);
@@ -367,8 +367,8 @@ public:
 
         auto diff = (x - x0);
         auto dx = (-2. * seed) * diff / (gamma_sq + diff.square());
-        auto dx0 = (-seed) * dx;
-        value_t dgamma = (-seed/gamma) * ((dx * diff).sum() + x.size());
+        auto dx0 = -dx;
+        value_t dgamma = (-1./gamma) * ((dx * diff).sum() + seed * x.size());
 
         scale_.beval(dgamma);
         loc_.beval(dx0);
@@ -436,8 +436,8 @@ public:
 
         auto diff = (x - x0);
         auto dx = (-2. * seed) * diff / (gamma.square() + diff.square());
-        auto dx0 = (-seed) * dx;
-        auto dgamma = (-seed/gamma) * ((dx * diff) + 1);
+        auto dx0 = -dx;
+        auto dgamma = -(dx * diff + seed) / gamma;
 
         scale_.beval(dgamma);
         loc_.beval(dx0);
-- 
2.43.0


From 38f1c149d5ab8fe842e0ec68c114fd99c4bdf5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:08 +0000
Subject: [PATCH 06/16] fix: refresh the inverse-scale product of the Wishart
 log-pdf whenever X or V changes

A constant X was only factorised if V had been found positive definite in the
constructor, which never happens for a variable V, so the density was always
-inf; and X*V^{-1} would not have followed later values of V.
---
 include/fastad_bits/reverse/stat/wishart.hpp | 28 ++++++++++++++------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/include/fastad_bits/reverse/stat/wishart.hpp b/include/fastad_bits/reverse/stat/wishart.hpp
index 5d64c5a..3dd34ec 100644
--- a/include/fastad_bits/reverse/stat/wishart.hpp
+++ b/include/fastad_bits/reverse/stat/wishart.hpp
@@ -155,6 +155,10 @@ public:
         if constexpr (util::is_constant_v<x_t>) {
             update_x_cache();
         }
+        if constexpr (util::is_constant_v<x_t> &&
+                      util::is_constant_v<v_t>) {
+            update_xv_cache();
+        }
     }
 
     const var_t& feval()
@@ -169,6 +173,10 @@ public:
         if constexpr (!util::is_constant_v<x_t>) {
             update_x_cache();
         }
+        if constexpr (!util::is_constant_v<x_t> ||
+                      !util::is_constant_v<v_t>) {
+            update_xv_cache();
+        }
 
         if (!valid()) {
             return this->get() = util::neg_inf<value_t>;
@@ -204,14 +212,18 @@ private:
     }
 
     void update_x_cache() {
-        if (is_v_pos_def_) {
-            x_llt_.compute(x_.get());
-            is_x_pos_def_ = (x_llt_.info() == Eigen::Success);
-            if (is_x_pos_def_) {
-                log_x_det_ = std::log(x_llt_.matrixL().determinant());
-                x_inv_ = x_llt_.solve(mat_t::Identity(x_.rows(), x_.cols()));
-                xv_inv_ = x_.get() * v_inv_;
-            }
+        x_llt_.compute(x_.get());
+        is_x_pos_def_ = (x_llt_.info() == Eigen::Success);
+        if (is_x_pos_def_) {
+            log_x_det_ = std::log(x_llt_.matrixL().determinant());
+            x_inv_ = x_llt_.solve(mat_t::Identity(x_.rows(), x_.cols()));
+        }
+    }
+
+    // depends on both x and v, so it is stale whenever either of them changes
+    void update_xv_cache() {
+        if (is_x_pos_def_ && is_v_pos_def_) {
+            xv_inv_ = x_.get() * v_inv_;
         }
     }
 
-- 
2.43.0


From d00741ace749c7dba1029bbb402eeee282c43739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:40 +0000
Subject: [PATCH 07/16] fix: give constants the size() that log-densities ask
 of their arguments

ConstantView and every other node have it; without it a uniform or Bernoulli
log-density over a constant vector did not compile.
---
 include/fastad_bits/reverse/core/constant.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/fastad_bits/reverse/core/constant.hpp b/include/fastad_bits/reverse/core/constant.hpp
index 0f2108e..bacbe70 100644
--- a/include/fastad_bits/reverse/core/constant.hpp
+++ b/include/fastad_bits/reverse/core/constant.hpp
@@ -146,6 +146,8 @@ public:
         }
     }
 
+    size_t size() const { return rows() * cols(); }
+
 private:
     var_t c_;
 };
-- 
2.43.0


From bbfb2cbfb665e7c383dfe48b146969171268657b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:32 +0000
Subject: [PATCH 08/16] fix: refresh the uniform log-pdf's bound check when
 only the bound is variable

---
 include/fastad_bits/reverse/stat/uniform.hpp | 24 ++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/include/fastad_bits/reverse/stat/uniform.hpp b/include/fastad_bits/reverse/stat/uniform.hpp
index fb4ea17..e985cc1 100644
--- a/include/fastad_bits/reverse/stat/uniform.hpp
+++ b/include/fastad_bits/reverse/stat/uniform.hpp
@@ -309,6 +309,10 @@ public:
         if constexpr (util::is_constant_v<x_t>) {
             update_x_cache();
         }
+        if constexpr (util::is_constant_v<x_t> &&
+                      util::is_constant_v<max_t>) {
+            update_bounded_cache();
+        }
     }
 
     const var_t& feval()
@@ -326,6 +330,11 @@ public:
             update_x_cache();
         }
 
+        if constexpr (!util::is_constant_v<x_t> ||
+                      !util::is_constant_v<max_t>) {
+            update_bounded_cache();
+        }
+
         if (!within_range()) {
             return this->get() = util::neg_inf<value_t>;
         }
@@ -350,6 +359,9 @@ private:
 
     void update_x_cache() {
         x_min_ = x_.get().minCoeff();
+    }
+
+    void update_bounded_cache() {
         x_bounded_above_ = (x_.get().array() < max_.get().array()).all();
     }
 
@@ -402,6 +414,10 @@ public:
         if constexpr (util::is_constant_v<x_t>) {
             update_x_cache();
         }
+        if constexpr (util::is_constant_v<x_t> &&
+                      util::is_constant_v<min_t>) {
+            update_bounded_cache();
+        }
     }
 
     const var_t& feval()
@@ -419,6 +435,11 @@ public:
             update_x_cache();
         }
 
+        if constexpr (!util::is_constant_v<x_t> ||
+                      !util::is_constant_v<min_t>) {
+            update_bounded_cache();
+        }
+
         if (!within_range()) {
             return this->get() = util::neg_inf<value_t>;
         }
@@ -443,6 +464,9 @@ private:
 
     void update_x_cache() {
         x_max_ = x_.get().maxCoeff();
+    }
+
+    void update_bounded_cache() {
         x_bounded_below_ = (x_.get().array() > min_.get().array()).all();
     }
 
-- 
2.43.0


From 435f877ede9d7c787c8fb63e5a46b842770948f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:13 +0000
Subject: [PATCH 09/16] fix: give an empty for_each its own slot to view

---
 include/fastad_bits/reverse/core/for_each.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/fastad_bits/reverse/core/for_each.hpp b/include/fastad_bits/reverse/core/for_each.hpp
index 01c1a23..b2b6288 100644
--- a/include/fastad_bits/reverse/core/for_each.hpp
+++ b/include/fastad_bits/reverse/core/for_each.hpp
@@ -87,7 +87,8 @@ public:
      */
     ptr_pack_t bind_cache(ptr_pack_t begin)
     {
-        if (vec_.size() == 0) return begin;
+        // without expressions there is no last one to view
+        if (vec_.size() == 0) return value_adj_view_t::bind(begin);
         for (auto& expr : vec_) {
             begin = expr.bind_cache(begin);
         }
@@ -97,6 +98,7 @@ public:
 
     util::SizePack bind_cache_size() const 
     { 
+        if (vec_.size() == 0) return {this->size(), this->size()};
         util::SizePack out = util::SizePack::Zero();
         for (const auto& expr : vec_) {
             out += expr.bind_cache_size();
-- 
2.43.0


From 58d0564d6059b86f6412fe744fe1d7ae57a15de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:51 +0000
Subject: [PATCH 10/16] fix: assigning a bound expression replaces the
 expression instead of writing through its views

---
 include/fastad_bits/reverse/core/bind.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/fastad_bits/reverse/core/bind.hpp b/include/fastad_bits/reverse/core/bind.hpp
index 092e2b4..3f2604d 100644
--- a/include/fastad_bits/reverse/core/bind.hpp
+++ b/include/fastad_bits/reverse/core/bind.hpp
@@ -1,4 +1,6 @@
 #pragma once
+#include <new>
+#include <utility>
 #include <vector>
 #include <fastad_bits/reverse/core/expr_base.hpp>
 #include <fastad_bits/util/type_traits.hpp>
@@ -43,8 +45,16 @@ struct ExprBind
     // Moving the caches preserves the addresses viewed by the expression.
     ExprBind(ExprBind&&) = default;
 
-    ExprBind& operator=(const ExprBind&) = default;
-    ExprBind& operator=(ExprBind&&) = default;
+    // Assigning an expression would assign through its views,
+    // so the expression is replaced as a whole together with its caches.
+    ExprBind& operator=(ExprBind other)
+    {
+        expr_.~expr_t();
+        new (&expr_) expr_t(std::move(other.expr_));
+        val_cache_.swap(other.val_cache_);
+        adj_cache_.swap(other.adj_cache_);
+        return *this;
+    }
 
     expr_t& get() { return expr_; }
 
-- 
2.43.0


From 43b679571894cf23dae7424924e32aa30c28aa55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:10 +0000
Subject: [PATCH 11/16] fix: if_else must back-propagate into the branch its
 forward evaluation took

The backward pass re-read the condition's value.  When the condition is a
scalar variable itself and the taken branch compound-assigns that variable,
the value has changed by then: the wrong branch received the gradient and
the variable was never rolled back.
---
 include/fastad_bits/reverse/core/if_else.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/fastad_bits/reverse/core/if_else.hpp b/include/fastad_bits/reverse/core/if_else.hpp
index 3965ac3..7bdabc4 100644
--- a/include/fastad_bits/reverse/core/if_else.hpp
+++ b/include/fastad_bits/reverse/core/if_else.hpp
@@ -77,7 +77,9 @@ public:
 
     const var_t& feval()
     {
-        if (cond_expr_.feval()) {
+        // remember the decision: a branch may change what the condition reads (see OpEqNode)
+        took_if_ = static_cast<bool>(cond_expr_.feval());
+        if (took_if_) {
             this->get() = if_expr_.feval();
         } else {
             this->get() = else_expr_.feval();
@@ -88,7 +90,7 @@ public:
     template <class T>
     void beval(const T& seed)
     {
-        if (cond_expr_.get()) {
+        if (took_if_) {
             if_expr_.beval(seed);
         } else {
             else_expr_.beval(seed);
@@ -122,6 +124,7 @@ private:
     cond_t cond_expr_;
     if_t if_expr_;
     else_t else_expr_;
+    bool took_if_ = false;
 };
 
 } // namespace core
-- 
2.43.0


From f398775f66cc11134cd89d81d34d99320c6a05dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:44 +0000
Subject: [PATCH 12/16] fix: an empty vector or matrix combined with a scalar
 stays empty

---
 include/fastad_bits/reverse/core/binary.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/fastad_bits/reverse/core/binary.hpp b/include/fastad_bits/reverse/core/binary.hpp
index a738294..f3ee1bd 100644
--- a/include/fastad_bits/reverse/core/binary.hpp
+++ b/include/fastad_bits/reverse/core/binary.hpp
@@ -77,8 +77,9 @@ public:
     BinaryNode(const left_t& expr_lhs, 
                const right_t& expr_rhs)
         : value_adj_view_t(nullptr, nullptr,
-                       std::max(expr_lhs.rows(), expr_rhs.rows()),
-                       std::max(expr_lhs.cols(), expr_rhs.cols()))
+                       // a scalar takes the shape of the other (possibly empty) operand
+                       util::is_scl_v<left_t> ? expr_rhs.rows() : expr_lhs.rows(),
+                       util::is_scl_v<left_t> ? expr_rhs.cols() : expr_lhs.cols())
         , expr_lhs_(expr_lhs)
         , expr_rhs_(expr_rhs)
     {
-- 
2.43.0


From 8b3a4f963c56c2f5da65389360e0b6c317204be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:44 +0000
Subject: [PATCH 13/16] fix: an empty sample lies within any uniform range

---
 include/fastad_bits/reverse/stat/uniform.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/fastad_bits/reverse/stat/uniform.hpp b/include/fastad_bits/reverse/stat/uniform.hpp
index e985cc1..f7fde55 100644
--- a/include/fastad_bits/reverse/stat/uniform.hpp
+++ b/include/fastad_bits/reverse/stat/uniform.hpp
@@ -255,8 +255,8 @@ private:
     }
 
     void update_x_cache() {
-        x_min_ = x_.get().minCoeff();
-        x_max_ = x_.get().maxCoeff();
+        x_min_ = x_.size() ? x_.get().minCoeff() : util::inf<value_t>;
+        x_max_ = x_.size() ? x_.get().maxCoeff() : util::neg_inf<value_t>;
     }
 
     bool within_range() const {
@@ -358,7 +358,7 @@ private:
     }
 
     void update_x_cache() {
-        x_min_ = x_.get().minCoeff();
+        x_min_ = x_.size() ? x_.get().minCoeff() : util::inf<value_t>;
     }
 
     void update_bounded_cache() {
@@ -463,7 +463,7 @@ private:
     }
 
     void update_x_cache() {
-        x_max_ = x_.get().maxCoeff();
+        x_max_ = x_.size() ? x_.get().maxCoeff() : util::neg_inf<value_t>;
     }
 
     void update_bounded_cache() {
-- 
2.43.0


From a4069e4c9dea2c0db390b8f181bea0e14aa9d852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:44 +0000
Subject: [PATCH 14/16] fix: the mean of an empty constant sample is not taken

---
 include/fastad_bits/reverse/stat/normal.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fastad_bits/reverse/stat/normal.hpp b/include/fastad_bits/reverse/stat/normal.hpp
index 6ddc49d..7ac3eab 100644
--- a/include/fastad_bits/reverse/stat/normal.hpp
+++ b/include/fastad_bits/reverse/stat/normal.hpp
@@ -217,7 +217,7 @@ public:
         // optimization when x_ is constant
         // reduced exponential form
         if constexpr (util::is_constant_v<x_t>) {
-            x_mean_ = x_.get().mean();
+            if (x_.size()) x_mean_ = x_.get().mean();
             x_var_ = (x_.get().array() - x_mean_).matrix().squaredNorm();
         }
     }
-- 
2.43.0


From 84761e207d209435f7f4465e9ba81abc2fd00b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:36 +0000
Subject: [PATCH 15/16] fix: the derivative of erf of a forward variable is
 scaled by the seed

---
 include/fastad_bits/forward/core/forward.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fastad_bits/forward/core/forward.hpp b/include/fastad_bits/forward/core/forward.hpp
index 1e9aa5a..78ddc92 100644
--- a/include/fastad_bits/forward/core/forward.hpp
+++ b/include/fastad_bits/forward/core/forward.hpp
@@ -134,7 +134,7 @@ FORWARD_UNARY_FUNC(sqrt, tmp, x.get_adjoint() / (2 * tmp),
         auto tmp = std::sqrt(x.get_value());)
 // ad::erf(core::ADForward)
 FORWARD_UNARY_FUNC(erf, std::erf(x.get_value()), 
-        two_over_sqrt_pi * std::exp(-t_sq), 
+        two_over_sqrt_pi * std::exp(-t_sq) * x.get_adjoint(),
         static constexpr double two_over_sqrt_pi =
                 1.1283791670955126;
         auto t_sq = x.get_value() * x.get_value();)
-- 
2.43.0


From 856c9709b9a4f41301aa1ad129a318af3947c353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:36 +0000
Subject: [PATCH 16/16] fix: the normal log-pdf with a covariance matrix sizes
 its buffer at construction

Sized by the columns of the mean it had one element and was reallocated in the
first forward pass; an allocation failure there left it freed but not emptied,
to be freed again on destruction.
---
 include/fastad_bits/reverse/stat/normal.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fastad_bits/reverse/stat/normal.hpp b/include/fastad_bits/reverse/stat/normal.hpp
index 7ac3eab..c1370a2 100644
--- a/include/fastad_bits/reverse/stat/normal.hpp
+++ b/include/fastad_bits/reverse/stat/normal.hpp
@@ -610,7 +610,7 @@ public:
         , log_det_{0}
         , is_pos_def_{false}
         , inv_(sigma.rows(), sigma.cols())
-        , z_(mean.cols())
+        , z_(x.rows())
     {
         // must be square matrix
         assert(sigma_.rows() == sigma_.cols());
@@ -707,7 +707,7 @@ public:
         , log_det_{0}
         , is_pos_def_{false}
         , inv_(sigma.rows(), sigma.cols())
-        , z_(mean.cols())
+        , z_(x.rows())
     {
         // must be square matrix
         assert(sigma_.rows() == sigma_.cols());
-- 
2.43.0

