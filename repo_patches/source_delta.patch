From db8a17048c8b69cf6ab3509080ce763794a94a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:52 +0000
Subject: [PATCH 01/22] fix: order simplified terms by symbol name, not by
 creation order

compare_expr documents alphabetical order but compared symbol ids, so the
form of a simplified expression depended on which symbols had been created
before (by any thread).
---
 src/simplification/helpers.rs | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/simplification/helpers.rs b/src/simplification/helpers.rs
index 3f9f121..56b9f4c 100644
--- a/src/simplification/helpers.rs
+++ b/src/simplification/helpers.rs
@@ -4,6 +4,7 @@
 //! coefficient extraction, root prettification, and like-term grouping.
 
 use crate::core::known_symbols as ks;
+use crate::core::symbol::InternedSymbol;
 use crate::core::traits::EPSILON;
 use crate::{Expr, ExprKind};
 use std::f64::consts::PI;
@@ -130,24 +131,23 @@ pub fn compare_expr(a: &Expr, b: &Expr) -> std::cmp::Ordering {
     use crate::ExprKind::{Derivative, Div, FunctionCall, Number, Poly, Pow, Product, Sum, Symbol};
     use std::cmp::Ordering;
 
-    /// Extract (`base_name`, degree) for polynomial-style ordering.
-    /// Returns (`type_priority`, `base_symbol_id`, degree) - uses u64 ID to avoid String alloc
-    fn get_sort_key(e: &Expr) -> (i32, u64, f64) {
-        // Returns (type_priority, symbol_id, degree)
-        // Lower type_priority = comes first
-        // Lower degree = comes first (low-to-high)
+    /// Extract (`type_priority`, `base_symbol`, degree) for polynomial-style ordering.
+    /// The symbol itself is the key: it orders by name, so the result does not depend on
+    /// the order in which symbols were created (as comparing their ids would).
+    /// Lower `type_priority` and lower degree come first.
+    fn get_sort_key(e: &Expr) -> (i32, Option<&InternedSymbol>, f64) {
         match &e.kind {
-            Number(_) => (0, 0, 0.0),       // Numbers first
-            Symbol(s) => (10, s.id(), 1.0), // Variables are degree 1, use symbol ID
+            Number(_) => (0, None, 0.0),     // Numbers first
+            Symbol(s) => (10, Some(s), 1.0), // Variables are degree 1
             Pow(base, exp) => {
                 if let Symbol(s) = &base.kind {
                     if let Number(n) = &exp.kind {
-                        (10, s.id(), *n) // Same priority as symbol, degree from exponent
+                        (10, Some(s), *n) // Same priority as symbol, degree from exponent
                     } else {
-                        (10, s.id(), 999.0) // Symbolic exponent - treat as very high degree
+                        (10, Some(s), 999.0) // Symbolic exponent - treat as very high degree
                     }
                 } else {
-                    (30, 0, 0.0) // Non-symbol base - complex
+                    (30, None, 0.0) // Non-symbol base - complex
                 }
             }
             Product(factors) => {
@@ -159,13 +159,13 @@ pub fn compare_expr(a: &Expr, b: &Expr) -> std::cmp::Ordering {
                         return key;
                     }
                 }
-                (20, 0, 0.0) // No polynomial term found
+                (20, None, 0.0) // No polynomial term found
             }
-            FunctionCall { name, .. } => (40, name.id(), 0.0),
-            Sum(..) => (50, 0, 0.0),
-            Div(..) => (35, 0, 0.0),
-            Derivative { .. } => (45, 0, 0.0),
-            Poly(_) => (25, 0, 0.0), // Poly treated as complex
+            FunctionCall { name, .. } => (40, Some(name), 0.0),
+            Sum(..) => (50, None, 0.0),
+            Div(..) => (35, None, 0.0),
+            Derivative { .. } => (45, None, 0.0),
+            Poly(_) => (25, None, 0.0), // Poly treated as complex
         }
     }
 
-- 
2.43.0


From 5bb6d48f5cef3601f2576553d378f62ab90115b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:57 +0000
Subject: [PATCH 02/22] fix: do not let the process's hash seed decide the form
 of simplified sums and products

Five rules rebuilt expressions by iterating a std HashMap. Terms that tie in
the canonical order then came out in an order that changed from run to run.
---
 src/simplification/helpers.rs                 | 48 ++++++++++
 .../rules/algebraic/combination.rs            | 88 +++++++------------
 .../rules/algebraic/factoring.rs              |  6 +-
 src/simplification/rules/algebraic/powers.rs  | 10 +--
 4 files changed, 88 insertions(+), 64 deletions(-)

diff --git a/src/simplification/helpers.rs b/src/simplification/helpers.rs
index 56b9f4c..e711d8d 100644
--- a/src/simplification/helpers.rs
+++ b/src/simplification/helpers.rs
@@ -7,6 +7,7 @@ use crate::core::known_symbols as ks;
 use crate::core::symbol::InternedSymbol;
 use crate::core::traits::EPSILON;
 use crate::{Expr, ExprKind};
+use rustc_hash::FxHashMap;
 use std::f64::consts::PI;
 use std::sync::Arc;
 
@@ -555,6 +556,53 @@ pub const fn gcd(a: i64, b: i64) -> i64 {
     }
 }
 
+/// Groups values by expression, remembering the order in which keys first appeared.
+///
+/// Iterating a `std` `HashMap` visits keys in an order that depends on the per-process
+/// hash seed, which leaks into the shape of the rebuilt expression. Rules that rebuild
+/// an expression from grouped terms use this instead, so that the result depends on
+/// the input only.
+pub struct OrderedGroups<V> {
+    /// Position of each key in `entries`
+    index: FxHashMap<Arc<Expr>, usize>,
+    /// Groups in first-appearance order
+    entries: Vec<(Arc<Expr>, V)>,
+}
+
+impl<V: Default> OrderedGroups<V> {
+    /// Creates an empty grouping.
+    pub fn new() -> Self {
+        Self {
+            index: FxHashMap::default(),
+            entries: Vec::new(),
+        }
+    }
+
+    /// Returns the value for `key`, inserting a default one on first appearance.
+    pub fn entry(&mut self, key: Arc<Expr>) -> &mut V {
+        let slot = *self.index.entry(Arc::clone(&key)).or_insert_with(|| {
+            self.entries.push((key, V::default()));
+            self.entries.len() - 1
+        });
+        &mut self.entries[slot].1
+    }
+
+    /// Number of distinct keys.
+    pub const fn len(&self) -> usize {
+        self.entries.len()
+    }
+
+    /// Values in first-appearance order of their keys.
+    pub fn values(&self) -> impl Iterator<Item = &V> {
+        self.entries.iter().map(|(_, v)| v)
+    }
+
+    /// Consumes the grouping, yielding groups in first-appearance order.
+    pub fn into_groups(self) -> Vec<(Arc<Expr>, V)> {
+        self.entries
+    }
+}
+
 /// Get a structural hash for a term to group like terms (allocation-free)
 ///
 /// Optimized for Speed:
diff --git a/src/simplification/rules/algebraic/combination.rs b/src/simplification/rules/algebraic/combination.rs
index d141c13..b731943 100644
--- a/src/simplification/rules/algebraic/combination.rs
+++ b/src/simplification/rules/algebraic/combination.rs
@@ -1,6 +1,7 @@
 // Algebraic combination operations on validated expressions
 
 use crate::core::traits::EPSILON;
+use crate::simplification::helpers::OrderedGroups;
 use crate::simplification::rules::{ExprKind, Rule, RuleCategory, RuleContext};
 use crate::{Expr, ExprKind as AstKind};
 use std::sync::Arc;
@@ -53,15 +54,14 @@ rule_arc!(
             }
 
             // Group terms by their base to find combinable terms
-            // Use HashMap with Arc<Expr> key to avoid cloning
-            let mut term_groups: std::collections::HashMap<Arc<Expr>, f64> =
-                std::collections::HashMap::new();
+            // First-appearance order keeps the result independent of the hash seed
+            let mut term_groups: OrderedGroups<f64> = OrderedGroups::new();
 
             for term in terms {
                 // Use new extract_coeff_arc helper
                 let (coeff, base) =
                     crate::simplification::helpers::extract_coeff_arc(term.as_ref());
-                *term_groups.entry(base).or_insert(0.0) += coeff;
+                *term_groups.entry(base) += coeff;
             }
 
             // If no terms were actually combined, don't change anything
@@ -71,7 +71,7 @@ rule_arc!(
 
             // Build result from combined terms
             let mut result = Vec::new();
-            for (base, coeff) in term_groups {
+            for (base, coeff) in term_groups.into_groups() {
                 if coeff == 0.0 {
                     // Drop zero terms
                 } else if (coeff - 1.0).abs() < EPSILON {
@@ -132,22 +132,17 @@ rule_arc!(
             let factors_len = factors.len();
 
             // Group factors by base and combine exponents
-            // Use HashMap<Arc<Expr>, ...> to avoid cloning keys
-            let mut factor_groups: std::collections::HashMap<Arc<Expr>, Vec<Arc<Expr>>> =
-                std::collections::HashMap::new();
+            // First-appearance order keeps the result independent of the hash seed
+            let mut factor_groups: OrderedGroups<Vec<Arc<Expr>>> = OrderedGroups::new();
 
             for factor in factors {
                 match &factor.kind {
                     AstKind::Pow(base, exp) => {
-                        factor_groups
-                            .entry(Arc::clone(base))
-                            .or_default()
-                            .push(Arc::clone(exp));
+                        factor_groups.entry(Arc::clone(base)).push(Arc::clone(exp));
                     }
                     _ => {
                         factor_groups
                             .entry(Arc::clone(factor))
-                            .or_default()
                             .push(Arc::new(Expr::number(1.0)));
                     }
                 }
@@ -155,7 +150,7 @@ rule_arc!(
 
             // Combine exponents for each base
             let mut combined_factors = Vec::new();
-            for (base, exponents) in factor_groups {
+            for (base, exponents) in factor_groups.into_groups() {
                 if exponents.len() == 1 {
                     if let AstKind::Number(n) = &exponents[0].kind
                         && (*n - 1.0).abs() < EPSILON
@@ -392,53 +387,38 @@ rule_arc!(
             }
 
             // Original like-term combination logic
-            // Group terms by their structure (ignoring coefficients)
-            // Use HashMap<u64, Vec<Arc<Expr>>> for initial grouping by hash
-            let mut like_terms: std::collections::HashMap<u64, Vec<Arc<Expr>>> =
-                std::collections::HashMap::new();
+            // Group terms by their structure (ignoring coefficients), in first-appearance
+            // order so that the result is independent of the hash seed.
+            let mut like_terms: OrderedGroups<(f64, Vec<Arc<Expr>>)> = OrderedGroups::new();
 
             for term in terms_vec {
-                let key = crate::simplification::helpers::get_term_hash(term.as_ref());
-                like_terms.entry(key).or_default().push(Arc::clone(term));
+                let (coeff, base) =
+                    crate::simplification::helpers::extract_coeff_arc(term.as_ref());
+                let group = like_terms.entry(base);
+                group.0 += coeff;
+                group.1.push(Arc::clone(term));
             }
 
-            // Combine like terms, with structural verification to handle hash collisions
+            // Combine like terms
             let mut combined_terms = Vec::new();
-            for (_signature, group_terms) in like_terms {
+            for (base_term, (total_coeff, group_terms)) in like_terms.into_groups() {
                 if group_terms.len() == 1 {
-                    combined_terms.push(Arc::clone(&group_terms[0]));
-                } else {
-                    // Sub-group by actual structural base using HashMap (O(n) amortized).
-                    // Expr's Hash+PartialEq handles hash collisions via structural equality.
-                    let mut sub_groups: std::collections::HashMap<Arc<Expr>, f64> =
-                        std::collections::HashMap::new();
-                    for term in &group_terms {
-                        let (coeff, var_part) =
-                            crate::simplification::helpers::extract_coeff_arc(term.as_ref());
-                        *sub_groups.entry(var_part).or_insert(0.0) += coeff;
-                    }
-
-                    for (base_term, total_coeff) in sub_groups {
-                        if total_coeff.abs() < EPSILON {
-                            // Terms cancel out
-                            continue;
-                        }
-
-                        if (total_coeff - 1.0).abs() < EPSILON {
-                            combined_terms.push(base_term);
-                        } else if let AstKind::Number(n) = &base_term.kind {
-                            if (*n - 1.0).abs() < EPSILON {
-                                combined_terms.push(Arc::new(Expr::number(total_coeff)));
-                            } else {
-                                combined_terms.push(Arc::new(Expr::number(total_coeff * n)));
-                            }
-                        } else {
-                            combined_terms.push(Arc::new(Expr::product_from_arcs(vec![
-                                Arc::new(Expr::number(total_coeff)),
-                                base_term,
-                            ])));
-                        }
+                    combined_terms.extend(group_terms);
+                } else if total_coeff.abs() < EPSILON {
+                    // Terms cancel out
+                } else if (total_coeff - 1.0).abs() < EPSILON {
+                    combined_terms.push(base_term);
+                } else if let AstKind::Number(n) = &base_term.kind {
+                    if (*n - 1.0).abs() < EPSILON {
+                        combined_terms.push(Arc::new(Expr::number(total_coeff)));
+                    } else {
+                        combined_terms.push(Arc::new(Expr::number(total_coeff * n)));
                     }
+                } else {
+                    combined_terms.push(Arc::new(Expr::product_from_arcs(vec![
+                        Arc::new(Expr::number(total_coeff)),
+                        base_term,
+                    ])));
                 }
             }
 
diff --git a/src/simplification/rules/algebraic/factoring.rs b/src/simplification/rules/algebraic/factoring.rs
index 97ecebb..0473f36 100644
--- a/src/simplification/rules/algebraic/factoring.rs
+++ b/src/simplification/rules/algebraic/factoring.rs
@@ -1,6 +1,7 @@
 use crate::core::known_symbols::KS;
 use crate::core::poly::Polynomial;
 use crate::core::traits::EPSILON;
+use crate::simplification::helpers::OrderedGroups;
 use crate::simplification::rules::{ExprKind, Rule, RuleCategory, RuleContext};
 use crate::{Expr, ExprKind as AstKind};
 use std::sync::Arc;
@@ -896,8 +897,7 @@ rule_arc!(
             }
 
             // Collect all (base, exponent) pairs from power terms
-            let mut base_exponents: std::collections::HashMap<Arc<Expr>, Vec<(f64, Arc<Expr>)>> =
-                std::collections::HashMap::new();
+            let mut base_exponents: OrderedGroups<Vec<(f64, Arc<Expr>)>> = OrderedGroups::new();
 
             for term in terms {
                 let (_, base_expr_extracted) = crate::simplification::helpers::extract_coeff(term);
@@ -909,13 +909,11 @@ rule_arc!(
                     {
                         base_exponents
                             .entry(Arc::clone(base))
-                            .or_default()
                             .push((*exp_val, Arc::clone(term)));
                     }
                 } else if let AstKind::Symbol(_s) = &base_expr_extracted.kind {
                     base_exponents
                         .entry(Arc::new(base_expr_extracted))
-                        .or_default()
                         .push((1.0, Arc::clone(term)));
                 }
             }
diff --git a/src/simplification/rules/algebraic/powers.rs b/src/simplification/rules/algebraic/powers.rs
index e0aff8c..a5a0bcd 100644
--- a/src/simplification/rules/algebraic/powers.rs
+++ b/src/simplification/rules/algebraic/powers.rs
@@ -1,5 +1,6 @@
 use crate::core::known_symbols as ks;
 use crate::core::traits::EPSILON;
+use crate::simplification::helpers::OrderedGroups;
 use crate::simplification::rules::{ExprKind, Rule, RuleCategory, RuleContext};
 use crate::{Expr, ExprKind as AstKind};
 use std::sync::Arc;
@@ -231,21 +232,18 @@ rule_arc!(
     &[ExprKind::Product],
     |expr: &Expr, _context: &RuleContext| {
         if let AstKind::Product(factors) = &expr.kind {
-            // Group by base
-            use std::collections::HashMap;
-            let mut base_to_exponents: HashMap<Arc<Expr>, Vec<Arc<Expr>>> = HashMap::new();
+            // Group by base, in first-appearance order (independent of the hash seed)
+            let mut base_to_exponents: OrderedGroups<Vec<Arc<Expr>>> = OrderedGroups::new();
 
             for factor in factors {
                 if let AstKind::Pow(base, exp) = &factor.kind {
                     base_to_exponents
                         .entry(Arc::clone(base))
-                        .or_default()
                         .push(Arc::clone(exp));
                 } else {
                     // Non-power factor, treat as base^1
                     base_to_exponents
                         .entry(Arc::clone(factor))
-                        .or_default()
                         .push(Arc::new(Expr::number(1.0)));
                 }
             }
@@ -258,7 +256,7 @@ rule_arc!(
 
             // Combine exponents for each base
             let mut result_factors = Vec::new();
-            for (base, exponents) in base_to_exponents {
+            for (base, exponents) in base_to_exponents.into_groups() {
                 if exponents.len() == 1 {
                     // Exact check for exponent == 1.0
                     #[allow(clippy::float_cmp, reason = "Comparing against exact constant 1.0")]
-- 
2.43.0


From fd49e3df55a43322cbdd0208b79d7688ec906e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:57 +0000
Subject: [PATCH 03/22] fix: spread structural hashes so that unrelated
 products do not collide

Commutative nodes hash the sum of their children's hashes, and Fx/FNV hashes
of small symbol ids are close to linear, so a*d and b*c collided whenever the
ids balanced. get_term_hash is compared without a structural check, and
collisions in sum and product grouping split groups, so the form of a result
depended on the order in which symbols had been created.
---
 src/core/expr/hash.rs         | 17 ++++++++++++++++-
 src/simplification/helpers.rs | 21 +++++++++++++++++----
 2 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/src/core/expr/hash.rs b/src/core/expr/hash.rs
index 6f1bd55..d94c324 100644
--- a/src/core/expr/hash.rs
+++ b/src/core/expr/hash.rs
@@ -13,5 +13,20 @@ use std::hash::{Hash, Hasher};
 pub fn compute_expr_hash(kind: &ExprKind) -> u64 {
     let mut hasher = FxHasher::default();
     kind.hash(&mut hasher);
-    hasher.finish()
+    spread(hasher.finish())
+}
+
+/// Finalizer that destroys the near-linearity of `FxHasher`.
+///
+/// Commutative nodes hash the wrapping sum of their children's hashes. With raw Fx hashes
+/// of small symbol ids that sum only depends on the sum of the ids, so `a*d` and `b*c`
+/// would collide whenever the ids balance, i.e. depending on the order in which symbols
+/// happened to be created.
+#[inline]
+const fn spread(mut h: u64) -> u64 {
+    h ^= h >> 33;
+    h = h.wrapping_mul(0xff51_afd7_ed55_8ccd);
+    h ^= h >> 33;
+    h = h.wrapping_mul(0xc4ce_b9fe_1a85_ec53);
+    h ^ (h >> 33)
 }
diff --git a/src/simplification/helpers.rs b/src/simplification/helpers.rs
index e711d8d..323e5d2 100644
--- a/src/simplification/helpers.rs
+++ b/src/simplification/helpers.rs
@@ -639,6 +639,18 @@ pub fn get_term_hash(expr: &Expr) -> u64 {
         hash.wrapping_mul(FNV_PRIME)
     }
 
+    /// Finalizer applied to each child of a commutative node before summing.
+    /// FNV-1a is close to linear in small symbol ids, so summing raw child hashes
+    /// would make `a*d` and `b*c` collide whenever the ids happen to balance.
+    #[inline]
+    const fn finalize(mut h: u64) -> u64 {
+        h ^= h >> 33;
+        h = h.wrapping_mul(0xff51_afd7_ed55_8ccd);
+        h ^= h >> 33;
+        h = h.wrapping_mul(0xc4ce_b9fe_1a85_ec53);
+        h ^ (h >> 33)
+    }
+
     fn hash_term_inner(hash: u64, expr: &Expr) -> u64 {
         match &expr.kind {
             // Numbers: Hash the actual value to distinguish different numbers
@@ -662,8 +674,8 @@ pub fn get_term_hash(expr: &Expr) -> u64 {
                     if !matches!(f.kind, ExprKind::Number(_)) {
                         // Hash each factor independently starting from a seed,
                         // then add to accumulator
-                        product_accumulator =
-                            product_accumulator.wrapping_add(hash_term_inner(FNV_OFFSET, f));
+                        product_accumulator = product_accumulator
+                            .wrapping_add(finalize(hash_term_inner(FNV_OFFSET, f)));
                     }
                 }
 
@@ -696,7 +708,8 @@ pub fn get_term_hash(expr: &Expr) -> u64 {
                 // Commutative accumulation
                 let mut sum_accumulator: u64 = 0;
                 for t in terms {
-                    sum_accumulator = sum_accumulator.wrapping_add(hash_term_inner(FNV_OFFSET, t));
+                    sum_accumulator =
+                        sum_accumulator.wrapping_add(finalize(hash_term_inner(FNV_OFFSET, t)));
                 }
 
                 hash_u64(h, sum_accumulator)
@@ -729,7 +742,7 @@ pub fn get_term_hash(expr: &Expr) -> u64 {
                 let mut acc: u64 = 0;
                 for &(pow, coeff) in poly.terms() {
                     let term_h = hash_u64(hash_f64(FNV_OFFSET, coeff), u64::from(pow));
-                    acc = acc.wrapping_add(term_h);
+                    acc = acc.wrapping_add(finalize(term_h));
                 }
                 hash_u64(h, acc)
             }
-- 
2.43.0


From efd1771ea9d65b941b2734db2ab6c82cafc34293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:07 +0000
Subject: [PATCH 04/22] fix: remove_symbol and clear_symbols take effect at
 once

remove_symbol unlocked the name table before it dropped the id, and clear_symbols emptied one
shard after the other, so that other threads saw symbols half removed (exists false but still
counted, some names gone and others not).
---
 src/core/symbol/registry.rs | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/core/symbol/registry.rs b/src/core/symbol/registry.rs
index 1a887ac..2c2f0b9 100644
--- a/src/core/symbol/registry.rs
+++ b/src/core/symbol/registry.rs
@@ -283,15 +283,14 @@ pub fn remove_symbol(name: &str) -> bool {
         .lock()
         .expect("Global symbol registry shard poisoned");
 
+    // The shard stays locked until the ID is gone too (same lock order as in `symb`), so that
+    // nobody sees the symbol half removed.
     shard.name_to_symbol_key.remove(name).is_some_and(|key| {
-        // Explicitly drop shard lock before taking id_data lock to avoid deadlocks
-        drop(shard);
-        REGISTRY
+        let mut id_data = REGISTRY
             .id_to_data
             .write()
-            .expect("Global ID registry poisoned")
-            .remove(key)
-            .is_some()
+            .expect("Global ID registry poisoned");
+        id_data.remove(key).is_some()
     })
 }
 
@@ -305,17 +304,24 @@ pub fn clear_symbols() {
     ID_CACHE.with(|cache| cache.borrow_mut().clear());
     NAME_CACHE.with(|cache| cache.borrow_mut().clear());
 
-    for shard_lock in &REGISTRY.shards {
-        let mut shard = shard_lock
-            .lock()
-            .expect("Global symbol registry shard poisoned");
-        shard.name_to_symbol_key.clear();
-    }
+    // Lock every shard before touching any, so that the symbols disappear all at once
+    let mut shards: Vec<_> = REGISTRY
+        .shards
+        .iter()
+        .map(|shard_lock| {
+            shard_lock
+                .lock()
+                .expect("Global symbol registry shard poisoned")
+        })
+        .collect();
 
     let mut id_data = REGISTRY
         .id_to_data
         .write()
         .expect("Global ID registry poisoned");
+    for shard in &mut shards {
+        shard.name_to_symbol_key.clear();
+    }
     id_data.clear();
 }
 
-- 
2.43.0


From bb0618588948323046e56deaada3ca7693340b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:09 +0000
Subject: [PATCH 05/22] fix: removed symbols do not live on in the thread-local
 caches

symb() kept returning the dead handle of a removed symbol from the name cache of the same thread
after remove_symbol, and of every other thread after clear_symbols too, while symbol_exists() said
no and other threads got a different handle for the same name.
---
 src/core/symbol/registry.rs | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/core/symbol/registry.rs b/src/core/symbol/registry.rs
index 2c2f0b9..b355933 100644
--- a/src/core/symbol/registry.rs
+++ b/src/core/symbol/registry.rs
@@ -4,6 +4,7 @@
 //! This implementation uses sharding to minimize lock contention and `FxHash` for
 //! high-performance mapping.
 
+use std::sync::atomic::{AtomicU64, Ordering};
 use std::sync::{Mutex, RwLock};
 
 use rustc_hash::{FxHashMap, FxHasher};
@@ -108,7 +109,14 @@ impl SymbolRegistry {
 static REGISTRY: std::sync::LazyLock<SymbolRegistry> =
     std::sync::LazyLock::new(SymbolRegistry::new);
 
+/// Number of removals so far. Bumped whenever symbols leave the registry, which invalidates the
+/// thread-local caches of every thread.
+static REMOVALS: AtomicU64 = AtomicU64::new(0);
+
 thread_local! {
+    // Value of `REMOVALS` when the caches below were last known to be valid
+    static CACHES_VALID_AT: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
+
     // Thread-local cache to avoid global lock contention on frequently accessed symbols
     static ID_CACHE: std::cell::RefCell<FxHashMap<DefaultKey, InternedSymbol>> = std::cell::RefCell::new(FxHashMap::default());
 
@@ -116,6 +124,19 @@ thread_local! {
     static NAME_CACHE: std::cell::RefCell<FxHashMap<String, Symbol>> = std::cell::RefCell::new(FxHashMap::default());
 }
 
+/// Drop this thread's caches if symbols have left the registry since they were filled.
+///
+/// Must run before the registry is read on behalf of a cache: an entry is then never newer than
+/// the caches' stamp, and any later removal outdates it.
+#[inline]
+fn refresh_caches() {
+    let removals = REMOVALS.load(Ordering::Acquire);
+    if CACHES_VALID_AT.with(|at| at.replace(removals)) != removals {
+        ID_CACHE.with(|cache| cache.borrow_mut().clear());
+        NAME_CACHE.with(|cache| cache.borrow_mut().clear());
+    }
+}
+
 /// Look up `InternedSymbol` by its u64 ID.
 ///
 /// # Panics
@@ -123,6 +144,7 @@ thread_local! {
 /// Panics if the global ID registry lock is poisoned.
 pub fn lookup_by_id(id: u64) -> Option<InternedSymbol> {
     let key = key_from_id(id);
+    refresh_caches();
 
     // Try TLS cache first to avoid RwLock contention
     if let Some(s) = ID_CACHE.with(|cache| cache.borrow().get(&key).cloned()) {
@@ -221,6 +243,8 @@ pub fn symbol_exists(name: &str) -> bool {
 /// Panics if any global registry lock is poisoned.
 #[must_use]
 pub fn symb(name: &str) -> Symbol {
+    refresh_caches();
+
     // Fast path: check TLS cache first (no locks, no allocations for common symbols)
     if let Some(sym) = NAME_CACHE.with(|cache| cache.borrow().get(name).copied()) {
         return sym;
@@ -290,6 +314,7 @@ pub fn remove_symbol(name: &str) -> bool {
             .id_to_data
             .write()
             .expect("Global ID registry poisoned");
+        REMOVALS.fetch_add(1, Ordering::AcqRel);
         id_data.remove(key).is_some()
     })
 }
@@ -300,10 +325,6 @@ pub fn remove_symbol(name: &str) -> bool {
 ///
 /// Panics if any global registry lock is poisoned.
 pub fn clear_symbols() {
-    // Clear TLS caches first
-    ID_CACHE.with(|cache| cache.borrow_mut().clear());
-    NAME_CACHE.with(|cache| cache.borrow_mut().clear());
-
     // Lock every shard before touching any, so that the symbols disappear all at once
     let mut shards: Vec<_> = REGISTRY
         .shards
@@ -319,6 +340,7 @@ pub fn clear_symbols() {
         .id_to_data
         .write()
         .expect("Global ID registry poisoned");
+    REMOVALS.fetch_add(1, Ordering::AcqRel);
     for shard in &mut shards {
         shard.name_to_symbol_key.clear();
     }
-- 
2.43.0


From f24cdbca48b6226379d2fe043b3ee655a8e28176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:10 +0000
Subject: [PATCH 06/22] fix: looking a symbol up while another thread removes
 it does not panic

symb_interned() (and with it Expr::symbol, parse and the function constructors) and Context::symb()
expected the symbol they had just got to be in the id table still; Context::symb() even panicked
with the context's lock held, poisoning the context.
---
 src/core/symbol/registry.rs | 3 ++-
 src/core/unified_context.rs | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/core/symbol/registry.rs b/src/core/symbol/registry.rs
index b355933..62289cd 100644
--- a/src/core/symbol/registry.rs
+++ b/src/core/symbol/registry.rs
@@ -291,7 +291,8 @@ pub fn symb(name: &str) -> Symbol {
 /// Panics if the global registry shard lock is poisoned.
 pub fn symb_interned(name: &str) -> InternedSymbol {
     let symbol = symb(name);
-    lookup_by_id(symbol.id()).expect("Just-created symbol should always be found")
+    // Another thread may have removed the symbol in the meantime
+    lookup_by_id(symbol.id()).unwrap_or_else(|| InternedSymbol::new_named(name, symbol.key()))
 }
 
 /// Remove a symbol from the global registry
diff --git a/src/core/unified_context.rs b/src/core/unified_context.rs
index 9ae1b97..d5a5535 100644
--- a/src/core/unified_context.rs
+++ b/src/core/unified_context.rs
@@ -346,9 +346,9 @@ impl Context {
         let symbol = crate::core::symbol::registry::symb_get(name)
             .unwrap_or_else(|_| crate::core::symbol::registry::symb_new_isolated(name));
 
-        // Track in context's local map
+        // Track in context's local map (another thread may have removed it globally meanwhile)
         let interned = crate::core::symbol::lookup_by_id(symbol.id())
-            .expect("Symbol just created should exist");
+            .unwrap_or_else(|| InternedSymbol::new_named(name, symbol.key()));
 
         inner.symbols.insert(name.to_owned(), interned);
 
-- 
2.43.0


From 54a23eced831e5baa5ac78c04a126adbeb82f6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:59 +0000
Subject: [PATCH 07/22] fix: built-in names survive remove_symbol and
 clear_symbols

The ids of sin, pi and the other built-in names are baked into KS and the function registry when
first used. Removing such a name (clear_symbols does) left them dangling: simplification panicked
("Known symbol ID not found in registry") and sin(x) parsed afterwards was an unknown function.
---
 src/core/known_symbols.rs   | 77 +++++++++++++++++++++++++++++++++++++
 src/core/symbol/registry.rs | 20 ++++++++--
 2 files changed, 93 insertions(+), 4 deletions(-)

diff --git a/src/core/known_symbols.rs b/src/core/known_symbols.rs
index 67fde8c..820b8d4 100644
--- a/src/core/known_symbols.rs
+++ b/src/core/known_symbols.rs
@@ -248,6 +248,83 @@ impl KnownSymbols {
 /// Global instance of pre-interned symbol IDs.
 pub static KS: LazyLock<KnownSymbols> = LazyLock::new(KnownSymbols::new);
 
+/// Check if a name belongs to the pre-interned symbols.
+///
+/// Their IDs are baked into [`KS`] and the function registry, so these symbols can never leave
+/// the global symbol registry.
+pub fn is_known_symbol(name: &str) -> bool {
+    matches!(
+        name,
+        "sqrt"
+            | "cbrt"
+            | "exp"
+            | "ln"
+            | "log"
+            | "log10"
+            | "log2"
+            | "sin"
+            | "cos"
+            | "tan"
+            | "cot"
+            | "sec"
+            | "csc"
+            | "asin"
+            | "acos"
+            | "atan"
+            | "atan2"
+            | "acot"
+            | "asec"
+            | "acsc"
+            | "sinh"
+            | "cosh"
+            | "tanh"
+            | "coth"
+            | "sech"
+            | "csch"
+            | "asinh"
+            | "acosh"
+            | "atanh"
+            | "acoth"
+            | "asech"
+            | "acsch"
+            | "abs"
+            | "signum"
+            | "floor"
+            | "ceil"
+            | "round"
+            | "sign"
+            | "sgn"
+            | "erf"
+            | "erfc"
+            | "gamma"
+            | "digamma"
+            | "trigamma"
+            | "beta"
+            | "besselj"
+            | "bessely"
+            | "besseli"
+            | "besselk"
+            | "polygamma"
+            | "tetragamma"
+            | "sinc"
+            | "lambertw"
+            | "elliptic_k"
+            | "elliptic_e"
+            | "zeta"
+            | "zeta_deriv"
+            | "hermite"
+            | "assoc_legendre"
+            | "spherical_harmonic"
+            | "ynm"
+            | "exp_polar"
+            | "pi"
+            | "PI"
+            | "Pi"
+            | "e"
+            | "E"
+    )
+}
+
 /// Get the `InternedSymbol` for a known function by its ID.
 ///
 /// This is an internal function for the function registry system.
diff --git a/src/core/symbol/registry.rs b/src/core/symbol/registry.rs
index 62289cd..48c1671 100644
--- a/src/core/symbol/registry.rs
+++ b/src/core/symbol/registry.rs
@@ -7,12 +7,13 @@
 use std::sync::atomic::{AtomicU64, Ordering};
 use std::sync::{Mutex, RwLock};
 
-use rustc_hash::{FxHashMap, FxHasher};
+use rustc_hash::{FxHashMap, FxHashSet, FxHasher};
 use slotmap::{DefaultKey, SlotMap};
 use std::hash::Hasher;
 
 use super::interned::InternedSymbol;
 use super::{Symbol, SymbolError};
+use crate::core::known_symbols::is_known_symbol;
 
 // ============================================================================
 // Public API Functions for ID/Key Conversion and Anonymous Symbols
@@ -298,11 +299,16 @@ pub fn symb_interned(name: &str) -> InternedSymbol {
 /// Remove a symbol from the global registry
 ///
 /// Returns `true` if the symbol existed and was removed, `false` otherwise.
+/// Built-in names (functions and constants such as `sin` or `pi`) cannot be removed.
 ///
 /// # Panics
 ///
 /// Panics if any global registry lock is poisoned.
 pub fn remove_symbol(name: &str) -> bool {
+    if is_known_symbol(name) {
+        return false;
+    }
+
     let shard_lock = REGISTRY.get_shard(name);
     let mut shard = shard_lock
         .lock()
@@ -320,7 +326,7 @@ pub fn remove_symbol(name: &str) -> bool {
     })
 }
 
-/// Clear all symbols from the global registry
+/// Clear all symbols from the global registry, except the built-in names
 ///
 /// # Panics
 ///
@@ -343,9 +349,15 @@ pub fn clear_symbols() {
         .expect("Global ID registry poisoned");
     REMOVALS.fetch_add(1, Ordering::AcqRel);
     for shard in &mut shards {
-        shard.name_to_symbol_key.clear();
+        shard
+            .name_to_symbol_key
+            .retain(|name, _| is_known_symbol(name));
     }
-    id_data.clear();
+    let kept: FxHashSet<DefaultKey> = shards
+        .iter()
+        .flat_map(|shard| shard.name_to_symbol_key.values().copied())
+        .collect();
+    id_data.retain(|key, _| kept.contains(&key));
 }
 
 /// Get the number of registered symbols
-- 
2.43.0


From 9d45a905271cffe171c1c77201f6183b54717b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:49 +0000
Subject: [PATCH 08/22] fix: by-name operations find symbols that live in a
 Context

derive, diff_str with a context, gradient, substitute, contains_var and compile
looked a name up in the global registry only, so that the result for an expression
whose symbols belong to a Context depended on whether the same name had been used
globally before the symbol was made.
---
 src/core/expr/analysis.rs | 32 ++++++++++++++++++++++++++------
 src/core/poly.rs          |  5 ++++-
 src/diff/engine.rs        |  8 ++++----
 src/evaluator/mod.rs      | 12 +++++++++++-
 4 files changed, 45 insertions(+), 12 deletions(-)

diff --git a/src/core/expr/analysis.rs b/src/core/expr/analysis.rs
index 2c20232..65e50ce 100644
--- a/src/core/expr/analysis.rs
+++ b/src/core/expr/analysis.rs
@@ -140,16 +140,36 @@ impl Expr {
         }
     }
 
+    /// ID of the symbol that `var` names in this expression.
+    ///
+    /// That is the globally registered symbol, unless the expression only contains a symbol of
+    /// that name which is not (any more) in the global registry, such as one from a `Context`.
+    pub(crate) fn var_id_by_name(&self, var: &str) -> u64 {
+        let global_id = crate::core::symbol::symb_interned(var).id();
+        if self.contains_var_id(global_id) {
+            return global_id;
+        }
+        self.fold(None, |found, node| {
+            found.or_else(|| match &node.kind {
+                ExprKind::Symbol(s) if s.as_str() == var => Some(s.id()),
+                ExprKind::Poly(poly) if poly.base().contains_var_str(var) => {
+                    Some(poly.base().var_id_by_name(var))
+                }
+                _ => None,
+            })
+        })
+        .unwrap_or(global_id)
+    }
+
     /// Check if the expression contains a specific variable (by name)
     /// Uses ID comparison when possible, falls back to string matching
     #[inline]
     #[must_use]
     pub fn contains_var(&self, var: &str) -> bool {
-        // Try to look up the symbol ID first for O(1) comparison
-        crate::core::symbol::symb_get(var).map_or_else(
-            |_| self.contains_var_str(var),
-            |sym| self.contains_var_id(sym.id()),
-        )
+        // Try the global symbol's ID first for O(1) comparisons; a symbol from a `Context` has an
+        // ID of its own
+        crate::core::symbol::symb_get(var).is_ok_and(|sym| self.contains_var_id(sym.id()))
+            || self.contains_var_str(var)
     }
 
     /// Check if the expression contains a specific variable (by name string match)
@@ -410,7 +430,7 @@ impl Expr {
     /// Substitute a variable with another expression
     #[must_use]
     pub fn substitute(&self, var: &str, replacement: &Self) -> Self {
-        let var_id = crate::core::symbol::symb_interned(var).id();
+        let var_id = self.var_id_by_name(var);
         self.map(|node| {
             if let ExprKind::Symbol(s) = &node.kind
                 && s.id() == var_id
diff --git a/src/core/poly.rs b/src/core/poly.rs
index fbf3ce8..d91957c 100644
--- a/src/core/poly.rs
+++ b/src/core/poly.rs
@@ -642,7 +642,10 @@ impl Polynomial {
         let poly_expr = poly_deriv.to_expr();
 
         // Check if base contains the differentiation variable
-        if self.base.contains_var(diff_var) {
+        if self
+            .base
+            .contains_var_id(self.base.var_id_by_name(diff_var))
+        {
             // Chain rule: d/dx[P(u)] = P'(u) * u'
             let u_prime = self.base.derive_raw(diff_var);
 
diff --git a/src/diff/engine.rs b/src/diff/engine.rs
index bae3ee0..c099103 100644
--- a/src/diff/engine.rs
+++ b/src/diff/engine.rs
@@ -54,7 +54,7 @@ impl Expr {
         let ctx = context.unwrap_or_else(|| EMPTY_CONTEXT.get_or_init(Context::new));
 
         // Intern the var name ONCE for O(1) UID comparisons throughout recursion
-        let var_id = crate::core::symbol::symb_interned(var).id();
+        let var_id = self.var_id_by_name(var);
 
         self.derive_impl(var, var_id, ctx)
     }
@@ -316,8 +316,8 @@ impl Expr {
             // - 1^x: case 2, ln(1)=0 creates 0 term, simplifier handles ✓
             // - x^0: n_minus_1 becomes -1, but final term is 0*u^(-1)*u'=0 via simplifier ✓
             ExprKind::Pow(u, v) => {
-                let u_contains_var = u.contains_var(var);
-                let v_contains_var = v.contains_var(var);
+                let u_contains_var = u.contains_var_id(var_id);
+                let v_contains_var = v.contains_var_id(var_id);
 
                 if !u_contains_var && !v_contains_var {
                     // Both constant
@@ -418,7 +418,7 @@ impl Expr {
             } => {
                 if deriv_var.id() == var_id {
                     Self::derivative_interned(inner.as_ref().clone(), deriv_var.clone(), order + 1)
-                } else if !inner.contains_var(var) {
+                } else if !inner.contains_var_id(var_id) {
                     Self::number(0.0)
                 } else {
                     Self::derivative(
diff --git a/src/evaluator/mod.rs b/src/evaluator/mod.rs
index 2c03399..c3545d6 100644
--- a/src/evaluator/mod.rs
+++ b/src/evaluator/mod.rs
@@ -220,7 +220,17 @@ impl CompiledEvaluator {
             .iter()
             .map(ToParamName::to_param_id_and_name)
             .collect();
-        let (param_ids, param_names): (Vec<u64>, Vec<String>) = params.into_iter().unzip();
+        let (mut param_ids, param_names): (Vec<u64>, Vec<String>) = params.into_iter().unzip();
+
+        // A name may stand for a symbol that is not in the global registry (from a `Context`)
+        for i in 0..param_ids.len() {
+            if !expr.contains_var_id(param_ids[i]) {
+                let id = expr.var_id_by_name(&param_names[i]);
+                if !param_ids.contains(&id) {
+                    param_ids[i] = id;
+                }
+            }
+        }
 
         // Expand user function calls with their body expressions
         let expanded_expr = context.map_or_else(
-- 
2.43.0


From b57a69d9907da4cb30249766f14fd20c7ca0301e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:49 +0000
Subject: [PATCH 09/22] fix: substitute reaches into polynomials

evaluate_parallel with a symbolic value left x^2+x unchanged, as a polynomial is
opaque to map.
---
 src/core/expr/analysis.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/core/expr/analysis.rs b/src/core/expr/analysis.rs
index 65e50ce..f44efa4 100644
--- a/src/core/expr/analysis.rs
+++ b/src/core/expr/analysis.rs
@@ -437,6 +437,18 @@ impl Expr {
             {
                 return replacement.clone();
             }
+            // A polynomial is opaque to `map`: substitute in its terms
+            if let ExprKind::Poly(poly) = &node.kind
+                && poly.base().contains_var_id(var_id)
+            {
+                let terms = poly.to_expr_terms();
+                return Self::sum(
+                    terms
+                        .iter()
+                        .map(|t| t.substitute(var, replacement))
+                        .collect(),
+                );
+            }
             node.clone()
         })
     }
-- 
2.43.0


From 48457b77b5a3b865140a965e6f7804cc551ed45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:27 +0000
Subject: [PATCH 10/22] fix: a Context's built-in names are the global ones
 even before first use

---
 src/core/unified_context.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/unified_context.rs b/src/core/unified_context.rs
index d5a5535..828f301 100644
--- a/src/core/unified_context.rs
+++ b/src/core/unified_context.rs
@@ -20,6 +20,7 @@
 //! let expr = x.pow(2.0);
 //! ```
 
+use super::known_symbols::is_known_symbol;
 use super::symbol::{InternedSymbol, Symbol, symb_interned};
 use crate::Expr;
 use std::collections::{HashMap, HashSet};
@@ -334,6 +335,11 @@ impl Context {
     /// Panics if the internal lock is poisoned (indicates a prior panic while holding the lock).
     #[must_use]
     pub fn symb(&self, name: &str) -> Symbol {
+        // Built-in names denote the global symbols, even if nothing has registered them yet
+        if is_known_symbol(name) {
+            symb_interned(name);
+        }
+
         let mut inner = self.inner.write().expect("Context lock poisoned");
 
         // 1. Check context's local map first
-- 
2.43.0


From 6340a4758053c44d79855a17ea439e7bde823e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:06 +0000
Subject: [PATCH 11/22] fix: eval_f64 rejects columns of different lengths at
 every size

---
 src/bindings/eval_f64.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bindings/eval_f64.rs b/src/bindings/eval_f64.rs
index 213ca6a..60a9884 100644
--- a/src/bindings/eval_f64.rs
+++ b/src/bindings/eval_f64.rs
@@ -81,6 +81,9 @@ pub fn run_chunked_evaluator(
         return Err(DiffError::invalid_syntax(
             "Output buffer length must match data column length",
         ));
+    } else if columns.iter().any(|c| c.len() != n_points) {
+        // Checked here because the chunks below slice every column
+        return Err(DiffError::EvalColumnLengthMismatch);
     }
 
     if n_points < CHUNK_SIZE {
-- 
2.43.0


From 69426af78fed1b70e85c2445ac1686c5cfab6c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:15 +0000
Subject: [PATCH 12/22] fix: library calls work while a thread's locals are
 being destroyed

---
 src/core/symbol/registry.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/core/symbol/registry.rs b/src/core/symbol/registry.rs
index 48c1671..8876bd4 100644
--- a/src/core/symbol/registry.rs
+++ b/src/core/symbol/registry.rs
@@ -114,6 +114,8 @@ static REGISTRY: std::sync::LazyLock<SymbolRegistry> =
 /// thread-local caches of every thread.
 static REMOVALS: AtomicU64 = AtomicU64::new(0);
 
+// The caches themselves are gone while a thread's other thread-locals are being destroyed, so they
+// are only ever tried.
 thread_local! {
     // Value of `REMOVALS` when the caches below were last known to be valid
     static CACHES_VALID_AT: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
@@ -133,8 +135,8 @@ thread_local! {
 fn refresh_caches() {
     let removals = REMOVALS.load(Ordering::Acquire);
     if CACHES_VALID_AT.with(|at| at.replace(removals)) != removals {
-        ID_CACHE.with(|cache| cache.borrow_mut().clear());
-        NAME_CACHE.with(|cache| cache.borrow_mut().clear());
+        let _ids = ID_CACHE.try_with(|cache| cache.borrow_mut().clear());
+        let _names = NAME_CACHE.try_with(|cache| cache.borrow_mut().clear());
     }
 }
 
@@ -148,7 +150,7 @@ pub fn lookup_by_id(id: u64) -> Option<InternedSymbol> {
     refresh_caches();
 
     // Try TLS cache first to avoid RwLock contention
-    if let Some(s) = ID_CACHE.with(|cache| cache.borrow().get(&key).cloned()) {
+    if let Ok(Some(s)) = ID_CACHE.try_with(|cache| cache.borrow().get(&key).cloned()) {
         return Some(s);
     }
 
@@ -162,7 +164,7 @@ pub fn lookup_by_id(id: u64) -> Option<InternedSymbol> {
 
     // Populate cache if found
     if let Some(ref s) = symbol {
-        ID_CACHE.with(|cache| {
+        let _cached = ID_CACHE.try_with(|cache| {
             cache.borrow_mut().insert(key, s.clone());
         });
     }
@@ -247,7 +249,7 @@ pub fn symb(name: &str) -> Symbol {
     refresh_caches();
 
     // Fast path: check TLS cache first (no locks, no allocations for common symbols)
-    if let Some(sym) = NAME_CACHE.with(|cache| cache.borrow().get(name).copied()) {
+    if let Ok(Some(sym)) = NAME_CACHE.try_with(|cache| cache.borrow().get(name).copied()) {
         return sym;
     }
 
@@ -262,7 +264,7 @@ pub fn symb(name: &str) -> Symbol {
         let sym = Symbol(key);
         // Populate TLS cache for future lookups
         drop(shard); // Release lock before TLS operation
-        NAME_CACHE.with(|cache| {
+        let _cached = NAME_CACHE.try_with(|cache| {
             cache.borrow_mut().insert(name.to_owned(), sym);
         });
         return sym;
@@ -279,7 +281,7 @@ pub fn symb(name: &str) -> Symbol {
 
     let sym = Symbol(key);
     // Populate TLS cache
-    NAME_CACHE.with(|cache| {
+    let _cached = NAME_CACHE.try_with(|cache| {
         cache.borrow_mut().insert(name.to_owned(), sym);
     });
     sym
-- 
2.43.0


From c32131b4f2bf5e6b4c6965a94bbee9504007a583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:37 +0000
Subject: [PATCH 13/22] fix: differentiate by the symbol handle, not by its
 name

Diff::differentiate(&Symbol), gradient, hessian and jacobian resolved the
variable by name, so anonymous and removed symbols had zero derivatives (and
were dropped from gradients) and same-named symbols of two contexts were
confused. Derivative nodes, their notation and Expr::map re-interned the
variable in the global registry, losing terms for symbols of a Context.
---
 src/api/builder.rs        | 25 +++++++++++++++--
 src/api/helpers.rs        | 30 ++++++--------------
 src/core/expr/analysis.rs | 54 +++++++++++++++++++++++++----------
 src/core/poly.rs          | 10 +++----
 src/diff/engine.rs        | 59 ++++++++++++++++++++-------------------
 src/parser/pratt.rs       |  4 ++-
 6 files changed, 108 insertions(+), 74 deletions(-)

diff --git a/src/api/builder.rs b/src/api/builder.rs
index 4748aba..ac41ff9 100644
--- a/src/api/builder.rs
+++ b/src/api/builder.rs
@@ -125,8 +125,18 @@ impl Diff {
     /// - Expression depth exceeds `max_depth`
     /// - Expression node count exceeds `max_nodes`
     pub fn differentiate(&self, expr: &Expr, var: &Symbol) -> Result<Expr, DiffError> {
-        let var_name = var.name().unwrap_or_default();
-        self.differentiate_by_name(expr, &var_name)
+        if let Some(name) = var.name()
+            && self.known_symbols.contains(&name)
+        {
+            return Err(DiffError::VariableInBothFixedAndDiff { var: name });
+        }
+
+        self.derive_checked(expr, |context| {
+            expr.var_by_symbol(var).map_or_else(
+                || Expr::number(0.0),
+                |sym| expr.derive_symbol(&sym, Some(context)),
+            )
+        })
     }
 
     /// Get custom function names for parsing
@@ -175,6 +185,15 @@ impl Diff {
             });
         }
 
+        self.derive_checked(expr, |context| expr.derive(var, Some(context)))
+    }
+
+    /// Differentiates with `derive` within the configured limits, and simplifies the result.
+    fn derive_checked(
+        &self,
+        expr: &Expr,
+        derive: impl FnOnce(&Context) -> Expr,
+    ) -> Result<Expr, DiffError> {
         if let Some(max_d) = self.max_depth
             && expr.max_depth() > max_d
         {
@@ -187,7 +206,7 @@ impl Diff {
         }
 
         let context = self.build_context();
-        let derivative = expr.derive(var, Some(&context));
+        let derivative = derive(&context);
 
         if self.skip_simplification {
             return Ok(derivative);
diff --git a/src/api/helpers.rs b/src/api/helpers.rs
index 0601b7b..d984f0c 100644
--- a/src/api/helpers.rs
+++ b/src/api/helpers.rs
@@ -14,18 +14,6 @@ fn empty_context() -> (HashSet<String>, HashSet<String>) {
     (HashSet::new(), HashSet::new())
 }
 
-/// Helper to extract variable names from Symbol slices
-#[inline]
-fn extract_var_names(vars: &[&Symbol]) -> Vec<String> {
-    vars.iter().filter_map(|s| s.name()).collect()
-}
-
-/// Helper to convert variable names to &str slices
-#[inline]
-fn var_names_to_str_refs(var_names: &[String]) -> Vec<&str> {
-    var_names.iter().map(std::string::String::as_str).collect()
-}
-
 /// Internal gradient implementation using &str variable names
 /// This is the core implementation - public APIs wrap this
 fn gradient_internal(expr: &Expr, vars: &[&str]) -> Result<Vec<Expr>, DiffError> {
@@ -75,9 +63,10 @@ fn jacobian_internal(exprs: &[Expr], vars: &[&str]) -> Result<Vec<Vec<Expr>>, Di
 /// # Errors
 /// Returns `DiffError` if differentiation fails for any variable.
 pub fn gradient(expr: &Expr, vars: &[&Symbol]) -> Result<Vec<Expr>, DiffError> {
-    let var_names = extract_var_names(vars);
-    let var_refs = var_names_to_str_refs(&var_names);
-    gradient_internal(expr, &var_refs)
+    let diff = Diff::new();
+    vars.iter()
+        .map(|var| diff.differentiate(expr, var))
+        .collect()
 }
 
 /// Compute the Hessian matrix of an expression
@@ -98,9 +87,10 @@ pub fn gradient(expr: &Expr, vars: &[&Symbol]) -> Result<Vec<Expr>, DiffError> {
 /// # Errors
 /// Returns `DiffError` if any second partial derivative fails.
 pub fn hessian(expr: &Expr, vars: &[&Symbol]) -> Result<Vec<Vec<Expr>>, DiffError> {
-    let var_names = extract_var_names(vars);
-    let var_refs = var_names_to_str_refs(&var_names);
-    hessian_internal(expr, &var_refs)
+    gradient(expr, vars)?
+        .iter()
+        .map(|partial| gradient(partial, vars))
+        .collect()
 }
 
 /// Compute the Jacobian matrix of a vector of expressions
@@ -121,9 +111,7 @@ pub fn hessian(expr: &Expr, vars: &[&Symbol]) -> Result<Vec<Vec<Expr>>, DiffErro
 /// # Errors
 /// Returns `DiffError` if any partial derivative fails.
 pub fn jacobian(exprs: &[Expr], vars: &[&Symbol]) -> Result<Vec<Vec<Expr>>, DiffError> {
-    let var_names: Vec<String> = vars.iter().filter_map(|s| s.name()).collect();
-    let var_refs: Vec<&str> = var_names.iter().map(std::string::String::as_str).collect();
-    jacobian_internal(exprs, &var_refs)
+    exprs.iter().map(|expr| gradient(expr, vars)).collect()
 }
 
 // ===== String-based API =====
diff --git a/src/core/expr/analysis.rs b/src/core/expr/analysis.rs
index f44efa4..0765646 100644
--- a/src/core/expr/analysis.rs
+++ b/src/core/expr/analysis.rs
@@ -7,6 +7,7 @@ use std::collections::HashSet;
 use std::sync::Arc;
 
 use super::{Expr, ExprKind};
+use crate::core::symbol::{InternedSymbol, Symbol};
 
 impl Expr {
     // -------------------------------------------------------------------------
@@ -141,24 +142,47 @@ impl Expr {
     }
 
     /// ID of the symbol that `var` names in this expression.
+    pub(crate) fn var_id_by_name(&self, var: &str) -> u64 {
+        self.var_by_name(var).id()
+    }
+
+    /// The symbol that `var` names in this expression.
     ///
     /// That is the globally registered symbol, unless the expression only contains a symbol of
     /// that name which is not (any more) in the global registry, such as one from a `Context`.
-    pub(crate) fn var_id_by_name(&self, var: &str) -> u64 {
-        let global_id = crate::core::symbol::symb_interned(var).id();
-        if self.contains_var_id(global_id) {
-            return global_id;
-        }
-        self.fold(None, |found, node| {
-            found.or_else(|| match &node.kind {
-                ExprKind::Symbol(s) if s.as_str() == var => Some(s.id()),
-                ExprKind::Poly(poly) if poly.base().contains_var_str(var) => {
-                    Some(poly.base().var_id_by_name(var))
-                }
-                _ => None,
-            })
+    pub(crate) fn var_by_name(&self, var: &str) -> InternedSymbol {
+        crate::core::symbol::symb_get(var)
+            .ok()
+            .and_then(|global| self.find_var(&|s| s.id() == global.id()))
+            .or_else(|| self.find_var(&|s| s.name() == Some(var)))
+            .unwrap_or_else(|| crate::core::symbol::symb_interned(var))
+    }
+
+    /// The symbol of this expression that the handle `var` stands for: the very same symbol, or
+    /// else one of the same name. `None` if there is neither.
+    pub(crate) fn var_by_symbol(&self, var: &Symbol) -> Option<InternedSymbol> {
+        self.find_var(&|s| s.id() == var.id()).or_else(|| {
+            let name = var.name_arc()?;
+            self.find_var(&|s| s.name() == Some(&*name))
         })
-        .unwrap_or(global_id)
+    }
+
+    /// First variable in the expression (pre-order) that satisfies the predicate
+    fn find_var(&self, pred: &dyn Fn(&InternedSymbol) -> bool) -> Option<InternedSymbol> {
+        match &self.kind {
+            ExprKind::Number(_) => None,
+            ExprKind::Symbol(s) => pred(s).then(|| s.clone()),
+            ExprKind::FunctionCall { args, .. } => args.iter().find_map(|a| a.find_var(pred)),
+            ExprKind::Sum(terms) => terms.iter().find_map(|t| t.find_var(pred)),
+            ExprKind::Product(factors) => factors.iter().find_map(|f| f.find_var(pred)),
+            ExprKind::Div(l, r) | ExprKind::Pow(l, r) => {
+                l.find_var(pred).or_else(|| r.find_var(pred))
+            }
+            ExprKind::Derivative { inner, var, .. } => inner
+                .find_var(pred)
+                .or_else(|| pred(var).then(|| var.clone())),
+            ExprKind::Poly(poly) => poly.base().find_var(pred),
+        }
     }
 
     /// Check if the expression contains a specific variable (by name)
@@ -417,7 +441,7 @@ impl Expr {
             ExprKind::Div(a, b) => Self::div_expr(a.map(f), b.map(f)),
             ExprKind::Pow(a, b) => Self::pow_static(a.map(f), b.map(f)),
             ExprKind::Derivative { inner, var, order } => {
-                Self::derivative(inner.map(f), var.clone(), *order)
+                Self::derivative_interned(inner.map(f), var.clone(), *order)
             }
             ExprKind::Poly(poly) => {
                 // Poly is opaque for mapping - just clone
diff --git a/src/core/poly.rs b/src/core/poly.rs
index d91957c..71cb39f 100644
--- a/src/core/poly.rs
+++ b/src/core/poly.rs
@@ -3,6 +3,7 @@
 //! Provides efficient polynomial operations with any expression as base.
 //! The base is stored once; terms are just (power, coefficient) pairs.
 
+use crate::core::symbol::InternedSymbol;
 use crate::core::traits::EPSILON;
 use crate::{Expr, ExprKind};
 use std::sync::Arc;
@@ -636,18 +637,15 @@ impl Polynomial {
     }
 
     /// Differentiate with respect to a variable (chain rule)
-    pub fn derivative_expr(&self, diff_var: &str) -> Expr {
+    pub fn derivative_expr(&self, diff_var: &InternedSymbol) -> Expr {
         // Get polynomial derivative
         let poly_deriv = self.derivative();
         let poly_expr = poly_deriv.to_expr();
 
         // Check if base contains the differentiation variable
-        if self
-            .base
-            .contains_var_id(self.base.var_id_by_name(diff_var))
-        {
+        if self.base.contains_var_id(diff_var.id()) {
             // Chain rule: d/dx[P(u)] = P'(u) * u'
-            let u_prime = self.base.derive_raw(diff_var);
+            let u_prime = self.base.derive_symbol(diff_var, None);
 
             if u_prime.is_zero_num() {
                 Expr::number(0.0)
diff --git a/src/diff/engine.rs b/src/diff/engine.rs
index c099103..5300e9c 100644
--- a/src/diff/engine.rs
+++ b/src/diff/engine.rs
@@ -16,6 +16,7 @@
 //! The simplification engine then handles any remaining optimization opportunities.
 
 use crate::core::known_symbols as ks;
+use crate::core::symbol::InternedSymbol;
 use crate::core::unified_context::Context;
 use crate::{Expr, ExprKind};
 use std::sync::Arc;
@@ -49,23 +50,27 @@ impl Expr {
         reason = "Comprehensive differentiation logic handles many expression types"
     )]
     pub fn derive(&self, var: &str, context: Option<&Context>) -> Self {
+        // Resolve the var name ONCE for O(1) UID comparisons throughout recursion
+        self.derive_symbol(&self.var_by_name(var), context)
+    }
+
+    /// Differentiate with respect to the very symbol `var`, whatever its name is registered as
+    pub(crate) fn derive_symbol(&self, var: &InternedSymbol, context: Option<&Context>) -> Self {
         // Use static empty context for None case to avoid allocation
         static EMPTY_CONTEXT: std::sync::OnceLock<Context> = std::sync::OnceLock::new();
         let ctx = context.unwrap_or_else(|| EMPTY_CONTEXT.get_or_init(Context::new));
 
-        // Intern the var name ONCE for O(1) UID comparisons throughout recursion
-        let var_id = self.var_id_by_name(var);
-
-        self.derive_impl(var, var_id, ctx)
+        self.derive_impl(var, ctx)
     }
 
-    /// Inner recursive implementation that carries pre-computed `var_id`
-    /// to avoid re-interning the variable name at each node.
+    /// Inner recursive implementation that carries resolved variable
+    /// to avoid re-interning its name at each node.
     #[allow(
         clippy::too_many_lines,
         reason = "Comprehensive differentiation logic handles many expression types"
     )]
-    fn derive_impl(&self, var: &str, var_id: u64, ctx: &Context) -> Self {
+    fn derive_impl(&self, var: &InternedSymbol, ctx: &Context) -> Self {
+        let var_id = var.id();
         match &self.kind {
             // Base cases
             ExprKind::Number(_) => Self::number(0.0),
@@ -90,7 +95,7 @@ impl Expr {
 
                 // Special handling for exponential function e^x
                 if name.id() == ks::KS.exp && args.len() == 1 {
-                    let inner_deriv = args[0].derive_impl(var, var_id, ctx);
+                    let inner_deriv = args[0].derive_impl(var, ctx);
                     return Self::mul_expr(
                         Self::func_symbol(ks::get_symbol(ks::KS.exp), (*args[0]).clone()),
                         inner_deriv,
@@ -101,10 +106,8 @@ impl Expr {
                 if let Some(def) = crate::functions::registry::Registry::get_by_symbol(name)
                     && def.validate_arity(args.len())
                 {
-                    let arg_primes: Vec<Self> = args
-                        .iter()
-                        .map(|arg| arg.derive_impl(var, var_id, ctx))
-                        .collect();
+                    let arg_primes: Vec<Self> =
+                        args.iter().map(|arg| arg.derive_impl(var, ctx)).collect();
                     return (def.derivative)(args, &arg_primes);
                 }
 
@@ -114,7 +117,7 @@ impl Expr {
                     let mut terms = Vec::new();
 
                     for (i, arg) in args.iter().enumerate() {
-                        let arg_prime = arg.derive_impl(var, var_id, ctx);
+                        let arg_prime = arg.derive_impl(var, ctx);
 
                         // Skip if derivative is zero
                         if arg_prime.is_zero_num() {
@@ -142,7 +145,7 @@ impl Expr {
                 // Unknown function - symbolic partial derivative using chain rule
                 let mut terms = Vec::new();
                 for (i, arg) in args.iter().enumerate() {
-                    let arg_prime = arg.derive_impl(var, var_id, ctx);
+                    let arg_prime = arg.derive_impl(var, ctx);
                     if arg_prime.is_zero_num() {
                         continue;
                     }
@@ -163,7 +166,7 @@ impl Expr {
             ExprKind::Sum(terms) => {
                 let derivs: Vec<Self> = terms
                     .iter()
-                    .map(|t| t.derive_impl(var, var_id, ctx))
+                    .map(|t| t.derive_impl(var, ctx))
                     .filter(|d| !d.is_zero_num())
                     .collect();
 
@@ -185,7 +188,7 @@ impl Expr {
                     return Self::number(0.0);
                 }
                 if factors.len() == 1 {
-                    return factors[0].derive_impl(var, var_id, ctx);
+                    return factors[0].derive_impl(var, ctx);
                 }
 
                 // Optimization: For large products, use logarithmic differentiation
@@ -194,7 +197,7 @@ impl Expr {
                 if factors.len() > 10 {
                     let mut log_terms = Vec::with_capacity(factors.len());
                     for factor in factors {
-                        let prime = factor.derive_impl(var, var_id, ctx);
+                        let prime = factor.derive_impl(var, ctx);
                         if !prime.is_zero_num() {
                             // term = f' / f
                             log_terms
@@ -219,7 +222,7 @@ impl Expr {
                         continue;
                     }
 
-                    let factor_prime = factors[i].derive_impl(var, var_id, ctx);
+                    let factor_prime = factors[i].derive_impl(var, ctx);
 
                     // Skip zero terms
                     if factor_prime.is_zero_num() {
@@ -260,7 +263,7 @@ impl Expr {
                 // Fast-path 1: Constant numerator (n/f) → -n*f'/f²
                 // Skip computing u' since we know it's 0
                 if let ExprKind::Number(n) = &u.kind {
-                    let v_prime = v.derive_impl(var, var_id, ctx);
+                    let v_prime = v.derive_impl(var, ctx);
                     if v_prime.is_zero_num() {
                         return Self::number(0.0);
                     }
@@ -273,13 +276,13 @@ impl Expr {
                 // Fast-path 2: Constant denominator (u/n) → u'/n
                 // Skip computing v' since we know it's 0
                 if let ExprKind::Number(_) = &v.kind {
-                    let u_prime = u.derive_impl(var, var_id, ctx);
+                    let u_prime = u.derive_impl(var, ctx);
                     return Self::div_from_arcs(Arc::new(u_prime), Arc::clone(v));
                 }
 
                 // General case: compute both derivatives
-                let u_prime = u.derive_impl(var, var_id, ctx);
-                let v_prime = v.derive_impl(var, var_id, ctx);
+                let u_prime = u.derive_impl(var, ctx);
+                let v_prime = v.derive_impl(var, ctx);
 
                 let u_is_zero = u_prime.is_zero_num();
                 let v_is_zero = v_prime.is_zero_num();
@@ -330,7 +333,7 @@ impl Expr {
                         return Self::number(0.0);
                     }
 
-                    let u_prime = u.derive_impl(var, var_id, ctx);
+                    let u_prime = u.derive_impl(var, ctx);
 
                     if u_prime.is_zero_num() {
                         Self::number(0.0)
@@ -347,7 +350,7 @@ impl Expr {
                     }
                 } else if !u_contains_var {
                     // Case 2: a^v, base is constant
-                    let v_prime = v.derive_impl(var, var_id, ctx);
+                    let v_prime = v.derive_impl(var, ctx);
 
                     if v_prime.is_zero_num() {
                         Self::number(0.0)
@@ -363,8 +366,8 @@ impl Expr {
                     }
                 } else {
                     // Case 3: u^v, both variable - use logarithmic differentiation
-                    let u_prime = u.derive_impl(var, var_id, ctx);
-                    let v_prime = v.derive_impl(var, var_id, ctx);
+                    let u_prime = u.derive_impl(var, ctx);
+                    let v_prime = v.derive_impl(var, ctx);
 
                     let ln_u = Self::func_symbol(ks::get_symbol(ks::KS.ln), (**u).clone());
 
@@ -421,13 +424,13 @@ impl Expr {
                 } else if !inner.contains_var_id(var_id) {
                     Self::number(0.0)
                 } else {
-                    Self::derivative(
+                    Self::derivative_interned(
                         Self::new(ExprKind::Derivative {
                             inner: Arc::clone(inner),
                             var: deriv_var.clone(),
                             order: *order,
                         }),
-                        var,
+                        var.clone(),
                         1,
                     )
                 }
diff --git a/src/parser/pratt.rs b/src/parser/pratt.rs
index ff2acc7..85236b3 100644
--- a/src/parser/pratt.rs
+++ b/src/parser/pratt.rs
@@ -320,8 +320,10 @@ impl<'src> Parser<'_, 'src> {
                     };
 
                 let inner_expr = Expr::func_multi(func, arg_exprs);
+                // The variable is the one the arguments use (a context's symbol, for example)
+                let var_sym = inner_expr.var_by_name(var);
 
-                Ok(Expr::derivative(inner_expr, var, *order))
+                Ok(Expr::derivative_interned(inner_expr, var_sym, *order))
             }
 
             _ => Err(DiffError::invalid_token(token.to_user_string())),
-- 
2.43.0


From 02b42444ed2984a2010a18743987cb01bc3964b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:36 +0000
Subject: [PATCH 14/22] fix: clear_symbols and remove_symbol leave the names of
 a Context's symbols alone

clear_symbols() dropped the names of the symbols that Contexts created for
themselves, and an expression parsed in a Context lost the name of a symbol
that was removed from the global registry.
---
 src/core/symbol/registry.rs | 20 ++++++++++++--------
 src/core/unified_context.rs | 11 ++++++++---
 src/parser/pratt.rs         |  4 ++--
 3 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/core/symbol/registry.rs b/src/core/symbol/registry.rs
index 8876bd4..dc00193 100644
--- a/src/core/symbol/registry.rs
+++ b/src/core/symbol/registry.rs
@@ -330,6 +330,8 @@ pub fn remove_symbol(name: &str) -> bool {
 
 /// Clear all symbols from the global registry, except the built-in names
 ///
+/// Symbols that a `Context` created for itself are not part of the global registry and stay.
+///
 /// # Panics
 ///
 /// Panics if any global registry lock is poisoned.
@@ -350,16 +352,18 @@ pub fn clear_symbols() {
         .write()
         .expect("Global ID registry poisoned");
     REMOVALS.fetch_add(1, Ordering::AcqRel);
+    let mut cleared: FxHashSet<DefaultKey> = FxHashSet::default();
     for shard in &mut shards {
-        shard
-            .name_to_symbol_key
-            .retain(|name, _| is_known_symbol(name));
+        shard.name_to_symbol_key.retain(|name, key| {
+            let keep = is_known_symbol(name);
+            if !keep {
+                cleared.insert(*key);
+            }
+            keep
+        });
     }
-    let kept: FxHashSet<DefaultKey> = shards
-        .iter()
-        .flat_map(|shard| shard.name_to_symbol_key.values().copied())
-        .collect();
-    id_data.retain(|key, _| kept.contains(&key));
+    // Named symbols that are not registered by name belong to a `Context`
+    id_data.retain(|key, symbol| symbol.name().is_some() && !cleared.contains(&key));
 }
 
 /// Get the number of registered symbols
diff --git a/src/core/unified_context.rs b/src/core/unified_context.rs
index 828f301..431ed8d 100644
--- a/src/core/unified_context.rs
+++ b/src/core/unified_context.rs
@@ -335,6 +335,11 @@ impl Context {
     /// Panics if the internal lock is poisoned (indicates a prior panic while holding the lock).
     #[must_use]
     pub fn symb(&self, name: &str) -> Symbol {
+        Symbol::from_id(self.interned(name).id())
+    }
+
+    /// Create or get a symbol in this context, together with its name.
+    pub(crate) fn interned(&self, name: &str) -> InternedSymbol {
         // Built-in names denote the global symbols, even if nothing has registered them yet
         if is_known_symbol(name) {
             symb_interned(name);
@@ -344,7 +349,7 @@ impl Context {
 
         // 1. Check context's local map first
         if let Some(existing) = inner.symbols.get(name) {
-            return Symbol::from_id(existing.id());
+            return existing.clone();
         }
 
         // 2. Check global registry (without creating)
@@ -356,9 +361,9 @@ impl Context {
         let interned = crate::core::symbol::lookup_by_id(symbol.id())
             .unwrap_or_else(|| InternedSymbol::new_named(name, symbol.key()));
 
-        inner.symbols.insert(name.to_owned(), interned);
+        inner.symbols.insert(name.to_owned(), interned.clone());
 
-        symbol
+        interned
     }
 
     /// Register a symbol (mutating version).
diff --git a/src/parser/pratt.rs b/src/parser/pratt.rs
index 85236b3..3192204 100644
--- a/src/parser/pratt.rs
+++ b/src/parser/pratt.rs
@@ -192,7 +192,7 @@ impl<'src> Parser<'_, 'src> {
 
                     Ok(Expr::func_multi(name, args))
                 } else if let Some(ctx) = self.context {
-                    Ok(ctx.symb(name.as_ref()).to_expr())
+                    Ok(Expr::from_interned(ctx.interned(name)))
                 } else {
                     Ok(Expr::symbol(name))
                 }
@@ -283,7 +283,7 @@ impl<'src> Parser<'_, 'src> {
                         // Implicit dependency on the differentiation variable
                         vec![self.context.map_or_else(
                             || Expr::symbol(var),
-                            |ctx| ctx.symb(var.as_ref()).to_expr(),
+                            |ctx| Expr::from_interned(ctx.interned(var)),
                         )]
                     } else {
                         // Parse the tokenized arguments
-- 
2.43.0


From de5c09f6e45b3ba23d794b94b0530ff300db7d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:43 +0000
Subject: [PATCH 15/22] fix: a Context's functions are its own, whatever
 happens to their names globally

User functions were looked up by the global ID of their name, so removing the
name from the global registry (remove_symbol, clear_symbols) lost them.
---
 src/api/builder.rs                      | 14 ++--------
 src/core/unified_context.rs             | 35 ++++++++++++++++---------
 src/diff/engine.rs                      |  2 +-
 src/evaluator/compiler.rs               |  4 +--
 src/evaluator/mod.rs                    |  9 +++++--
 src/parser/pratt.rs                     | 12 +++++++--
 src/simplification/engine.rs            |  4 +--
 src/simplification/helpers.rs           |  4 +--
 src/simplification/mod.rs               |  8 +++---
 src/simplification/rules/mod.rs         |  4 +--
 src/simplification/rules/numeric/mod.rs |  4 +--
 11 files changed, 56 insertions(+), 44 deletions(-)

diff --git a/src/api/builder.rs b/src/api/builder.rs
index ac41ff9..ef05ca7 100644
--- a/src/api/builder.rs
+++ b/src/api/builder.rs
@@ -148,12 +148,7 @@ impl Diff {
     fn build_bodies_map(&self) -> simplification::CustomBodyMap {
         self.user_fns
             .iter()
-            .filter_map(|(name, func)| {
-                func.body.as_ref().map(|b| {
-                    let id = crate::core::symbol::symb_interned(name).id();
-                    (id, Arc::clone(b))
-                })
-            })
+            .filter_map(|(name, func)| func.body.as_ref().map(|b| (name.clone(), Arc::clone(b))))
             .collect()
     }
 
@@ -382,12 +377,7 @@ impl Simplify {
     fn build_bodies_map(&self) -> simplification::CustomBodyMap {
         self.user_fns
             .iter()
-            .filter_map(|(name, func)| {
-                func.body.as_ref().map(|b| {
-                    let id = crate::core::symbol::symb_interned(name).id();
-                    (id, Arc::clone(b))
-                })
-            })
+            .filter_map(|(name, func)| func.body.as_ref().map(|b| (name.clone(), Arc::clone(b))))
             .collect()
     }
 
diff --git a/src/core/unified_context.rs b/src/core/unified_context.rs
index 431ed8d..c764c6f 100644
--- a/src/core/unified_context.rs
+++ b/src/core/unified_context.rs
@@ -21,7 +21,7 @@
 //! ```
 
 use super::known_symbols::is_known_symbol;
-use super::symbol::{InternedSymbol, Symbol, symb_interned};
+use super::symbol::{InternedSymbol, Symbol, registry::key_from_id, symb_interned};
 use crate::Expr;
 use std::collections::{HashMap, HashSet};
 use std::ops::RangeInclusive;
@@ -441,19 +441,34 @@ impl Context {
     /// Register a user-defined function (builder pattern).
     #[must_use]
     pub fn with_function(mut self, name: &str, func: UserFunction) -> Self {
-        let id = symb_interned(name).id();
+        let id = self.function_id(name);
         self.user_functions.insert(id, func);
         self.fn_name_to_id.insert(name.to_owned(), id);
         self
     }
 
+    /// The symbol that names a function of this context, the same one at all times.
+    pub(crate) fn function_symbol(&self, name: &str) -> Option<InternedSymbol> {
+        let id = self.fn_name_to_id.get(name)?;
+        Some(InternedSymbol::new_named(name, key_from_id(*id)))
+    }
+
+    /// ID under which a function of this name is, or is to be, registered here. The name may
+    /// have been removed from the global registry since the function was registered.
+    fn function_id(&self, name: &str) -> u64 {
+        self.fn_name_to_id
+            .get(name)
+            .copied()
+            .unwrap_or_else(|| symb_interned(name).id())
+    }
+
     /// Register a function name only (for parsing, no eval/partial).
     ///
     /// This allows the parser to recognize `f(x)` without requiring
     /// an evaluation or derivative definition.
     #[must_use]
     pub fn with_function_name(mut self, name: &str) -> Self {
-        let id = symb_interned(name).id();
+        let id = self.function_id(name);
         if let std::collections::hash_map::Entry::Vacant(e) = self.user_functions.entry(id) {
             // Create a placeholder with default arity (any number of args)
             e.insert(UserFunction::new(0..=usize::MAX));
@@ -479,16 +494,15 @@ impl Context {
     #[inline]
     #[must_use]
     pub fn get_user_fn(&self, name: &str) -> Option<&UserFunction> {
-        let id = symb_interned(name).id();
-        self.user_functions.get(&id)
+        let id = self.fn_name_to_id.get(name)?;
+        self.user_functions.get(id)
     }
 
     /// Check if a function is registered.
     #[inline]
     #[must_use]
     pub fn has_function(&self, name: &str) -> bool {
-        let id = symb_interned(name).id();
-        self.user_functions.contains_key(&id)
+        self.get_user_fn(name).is_some()
     }
 
     /// Get all registered function names.
@@ -507,8 +521,7 @@ impl Context {
     #[inline]
     #[must_use]
     pub fn get_body(&self, name: &str) -> Option<&BodyFn> {
-        let id = symb_interned(name).id();
-        self.user_functions.get(&id).and_then(|f| f.body.as_ref())
+        self.get_user_fn(name).and_then(|f| f.body.as_ref())
     }
 
     /// Get the body function for a user function by symbol ID.
@@ -522,9 +535,7 @@ impl Context {
     #[inline]
     #[must_use]
     pub fn get_partial(&self, name: &str, arg_idx: usize) -> Option<&PartialFn> {
-        let id = symb_interned(name).id();
-        self.user_functions
-            .get(&id)
+        self.get_user_fn(name)
             .and_then(|f| f.partials.get(&arg_idx))
     }
 
diff --git a/src/diff/engine.rs b/src/diff/engine.rs
index 5300e9c..adeeadd 100644
--- a/src/diff/engine.rs
+++ b/src/diff/engine.rs
@@ -112,7 +112,7 @@ impl Expr {
                 }
 
                 // Check for user-defined function partials in context
-                if let Some(user_fn) = ctx.get_user_fn_by_id(name.id()) {
+                if let Some(user_fn) = ctx.get_user_fn(name.as_str()) {
                     // Multi-arg chain rule: dF/dx = Σ (∂F/∂arg[i]) * (darg[i]/dx)
                     let mut terms = Vec::new();
 
diff --git a/src/evaluator/compiler.rs b/src/evaluator/compiler.rs
index fd50af1..6241fda 100644
--- a/src/evaluator/compiler.rs
+++ b/src/evaluator/compiler.rs
@@ -1492,9 +1492,7 @@ impl<'ctx> Compiler<'ctx> {
         let name_str = func_name.as_str();
         // Check if function exists in the context
         if let Some(ctx) = self.function_context {
-            let id = func_name.id();
-
-            if let Some(user_fn) = ctx.get_user_fn_by_id(id) {
+            if let Some(user_fn) = ctx.get_user_fn(name_str) {
                 if user_fn.arity.contains(&arity) {
                     // User function exists but has no symbolic body,
                     // so we can't evaluate it numerically.
diff --git a/src/evaluator/mod.rs b/src/evaluator/mod.rs
index c3545d6..2035d4e 100644
--- a/src/evaluator/mod.rs
+++ b/src/evaluator/mod.rs
@@ -975,11 +975,16 @@ impl CompiledEvaluator {
                     .map(|a| Self::expand_user_functions(a, ctx, expanding, depth + 1))
                     .collect();
 
-                let fn_id = name.id();
+                // The name may have been removed and registered anew since
+                let fn_id = ctx
+                    .fn_name_to_id()
+                    .get(name.as_str())
+                    .copied()
+                    .unwrap_or_else(|| name.id());
 
                 // Check for recursion and if this is a user function with a body
                 if !expanding.contains(&fn_id)
-                    && let Some(user_fn) = ctx.get_user_fn_by_id(fn_id)
+                    && let Some(user_fn) = ctx.get_user_fn(name.as_str())
                     && user_fn.accepts_arity(expanded_args.len())
                     && let Some(body_fn) = &user_fn.body
                 {
diff --git a/src/parser/pratt.rs b/src/parser/pratt.rs
index 3192204..8668916 100644
--- a/src/parser/pratt.rs
+++ b/src/parser/pratt.rs
@@ -121,6 +121,14 @@ impl<'src> Parser<'_, 'src> {
         }
     }
 
+    /// Call of a function, of the context's own function if it has one of that name
+    fn function_call(&self, name: &str, args: Vec<Expr>) -> Expr {
+        match self.context.and_then(|ctx| ctx.function_symbol(name)) {
+            Some(symbol) => Expr::func_multi_symbol(symbol, args),
+            None => Expr::func_multi(name, args),
+        }
+    }
+
     /// Parse function arguments
     fn parse_arguments(&mut self) -> Result<Vec<Expr>, DiffError> {
         let mut args = Vec::new();
@@ -190,7 +198,7 @@ impl<'src> Parser<'_, 'src> {
                         });
                     }
 
-                    Ok(Expr::func_multi(name, args))
+                    Ok(self.function_call(name, args))
                 } else if let Some(ctx) = self.context {
                     Ok(Expr::from_interned(ctx.interned(name)))
                 } else {
@@ -319,7 +327,7 @@ impl<'src> Parser<'_, 'src> {
                         exprs
                     };
 
-                let inner_expr = Expr::func_multi(func, arg_exprs);
+                let inner_expr = self.function_call(func, arg_exprs);
                 // The variable is the one the arguments use (a context's symbol, for example)
                 let var_sym = inner_expr.var_by_name(var);
 
diff --git a/src/simplification/engine.rs b/src/simplification/engine.rs
index acfa1a4..61035e2 100644
--- a/src/simplification/engine.rs
+++ b/src/simplification/engine.rs
@@ -200,7 +200,7 @@ impl Simplifier {
     /// Sets custom function bodies.
     pub fn with_custom_bodies(
         mut self,
-        custom_bodies: HashMap<u64, crate::core::unified_context::BodyFn>,
+        custom_bodies: HashMap<String, crate::core::unified_context::BodyFn>,
     ) -> Self {
         self.context = self.context.with_custom_bodies(custom_bodies);
         self
@@ -339,7 +339,7 @@ impl Simplifier {
             }
             AstKind::FunctionCall { name, args } => {
                 if let Some(v) = map_lazy(args, self) {
-                    let new_expr = Arc::new(Expr::func_multi_from_arcs(name, v));
+                    let new_expr = Arc::new(Expr::func_multi_from_arcs_symbol(name.clone(), v));
                     self.apply_rules_to_node(new_expr, depth)
                 } else {
                     self.apply_rules_to_node(expr, depth)
diff --git a/src/simplification/helpers.rs b/src/simplification/helpers.rs
index 323e5d2..2b3e458 100644
--- a/src/simplification/helpers.rs
+++ b/src/simplification/helpers.rs
@@ -421,7 +421,7 @@ pub fn prettify_roots(expr: Expr) -> Expr {
                 }
             }
             if let Some(v) = new_args {
-                return Expr::func_multi(name, v);
+                return Expr::func_multi_symbol(name.clone(), v);
             }
         }
         // Leaves: Number, Symbol, Poly, Derivative - no transformation needed
@@ -839,7 +839,7 @@ pub fn normalize_for_comparison(expr: &Expr) -> Expr {
             if !changed {
                 return expr.clone();
             }
-            Expr::func_multi(name, norm_args)
+            Expr::func_multi_symbol(name.clone(), norm_args)
         }
         // Leaves remain unchanged (already handled at the top)
         _ => expr.clone(),
diff --git a/src/simplification/mod.rs b/src/simplification/mod.rs
index a69111b..f8efc05 100644
--- a/src/simplification/mod.rs
+++ b/src/simplification/mod.rs
@@ -11,7 +11,7 @@ use std::collections::{HashMap, HashSet};
 use std::sync::Arc;
 
 /// Type alias for custom body function map (symbolic expansion)
-pub type CustomBodyMap = HashMap<u64, BodyFn>;
+pub type CustomBodyMap = HashMap<String, BodyFn>;
 
 /// Simplify an expression with user-specified options
 ///
@@ -37,9 +37,9 @@ pub fn simplify_expr(
     if let Some(ctx) = context {
         // Context symbols are parsing hints, not simplification constants
         // But we still merge function bodies
-        for id in ctx.fn_name_to_id().values() {
-            if let Some(body) = ctx.get_body_by_id(*id) {
-                custom_bodies.insert(*id, Arc::clone(body));
+        for name in ctx.fn_name_to_id().keys() {
+            if let Some(body) = ctx.get_body(name) {
+                custom_bodies.insert(name.clone(), Arc::clone(body));
             }
         }
     }
diff --git a/src/simplification/rules/mod.rs b/src/simplification/rules/mod.rs
index 8779b88..9c94c26 100644
--- a/src/simplification/rules/mod.rs
+++ b/src/simplification/rules/mod.rs
@@ -454,7 +454,7 @@ pub struct RuleContext {
     /// Whether to apply only domain-safe transformations
     pub domain_safe: bool,
     /// Custom function body definitions
-    pub custom_bodies: Arc<HashMap<u64, BodyFn>>,
+    pub custom_bodies: Arc<HashMap<String, BodyFn>>,
 }
 
 impl std::fmt::Debug for RuleContext {
@@ -478,7 +478,7 @@ impl RuleContext {
     }
 
     /// Sets the custom function bodies for this context.
-    pub fn with_custom_bodies(mut self, custom_bodies: HashMap<u64, BodyFn>) -> Self {
+    pub fn with_custom_bodies(mut self, custom_bodies: HashMap<String, BodyFn>) -> Self {
         self.custom_bodies = Arc::new(custom_bodies);
         self
     }
diff --git a/src/simplification/rules/numeric/mod.rs b/src/simplification/rules/numeric/mod.rs
index 3323406..6b93400 100644
--- a/src/simplification/rules/numeric/mod.rs
+++ b/src/simplification/rules/numeric/mod.rs
@@ -556,7 +556,7 @@ rule!(
                     numeric_args.push(*n);
                 } else {
                     // Not all numeric - check if we have a body to expand symbolically
-                    if let Some(body_fn) = context.custom_bodies.get(&name.id()) {
+                    if let Some(body_fn) = context.custom_bodies.get(name.as_str()) {
                         // Expand the function body with the given arguments
                         return Some(body_fn(args));
                     }
@@ -584,7 +584,7 @@ rule!(
             }
 
             // Fallback: check custom_bodies in context and expand symbolically
-            if let Some(body_fn) = context.custom_bodies.get(&name.id()) {
+            if let Some(body_fn) = context.custom_bodies.get(name.as_str()) {
                 // Expand the function body with the given arguments
                 return Some(body_fn(args));
             }
-- 
2.43.0


From 1838f215181f98893d799e14b6a029292c3c2def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:58 +0000
Subject: [PATCH 16/22] fix: hessian resolves its variables in the expression,
 not in each partial derivative

A partial derivative that no longer contains a variable was differentiated by
another symbol of the same name.
---
 src/api/builder.rs | 14 ++++++++++++--
 src/api/helpers.rs | 10 +++++++++-
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/api/builder.rs b/src/api/builder.rs
index ef05ca7..4a58a3d 100644
--- a/src/api/builder.rs
+++ b/src/api/builder.rs
@@ -16,6 +16,7 @@
 //! assert!(!format!("{}", derivative).is_empty());
 //! ```
 
+use crate::core::symbol::InternedSymbol;
 use crate::core::unified_context::{Context, UserFunction};
 use crate::evaluator::ToParamName;
 use crate::{DiffError, Expr, Symbol, parser, simplification};
@@ -131,10 +132,19 @@ impl Diff {
             return Err(DiffError::VariableInBothFixedAndDiff { var: name });
         }
 
+        self.differentiate_interned(expr, expr.var_by_symbol(var).as_ref())
+    }
+
+    /// Differentiates with respect to exactly this symbol (`None`: one that does not occur).
+    pub(crate) fn differentiate_interned(
+        &self,
+        expr: &Expr,
+        var: Option<&InternedSymbol>,
+    ) -> Result<Expr, DiffError> {
         self.derive_checked(expr, |context| {
-            expr.var_by_symbol(var).map_or_else(
+            var.map_or_else(
                 || Expr::number(0.0),
-                |sym| expr.derive_symbol(&sym, Some(context)),
+                |sym| expr.derive_symbol(sym, Some(context)),
             )
         })
     }
diff --git a/src/api/helpers.rs b/src/api/helpers.rs
index d984f0c..778b170 100644
--- a/src/api/helpers.rs
+++ b/src/api/helpers.rs
@@ -87,9 +87,17 @@ pub fn gradient(expr: &Expr, vars: &[&Symbol]) -> Result<Vec<Expr>, DiffError> {
 /// # Errors
 /// Returns `DiffError` if any second partial derivative fails.
 pub fn hessian(expr: &Expr, vars: &[&Symbol]) -> Result<Vec<Vec<Expr>>, DiffError> {
+    let diff = Diff::new();
+    // A partial derivative may lack a variable that the expression itself has
+    let symbols: Vec<_> = vars.iter().map(|var| expr.var_by_symbol(var)).collect();
     gradient(expr, vars)?
         .iter()
-        .map(|partial| gradient(partial, vars))
+        .map(|partial| {
+            symbols
+                .iter()
+                .map(|symbol| diff.differentiate_interned(partial, symbol.as_ref()))
+                .collect()
+        })
         .collect()
 }
 
-- 
2.43.0


From c4398235b4a9575ff0105b5ce375fb8f8a80f8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:37 +0000
Subject: [PATCH 17/22] fix: differentiation by name does not depend on the
 name staying registered

Expr::diff and Diff::diff_str made a global symbol of the name first and gave 0
when another thread removed that symbol meanwhile, even for formulas whose
variable belongs to a Context.
---
 src/api/builder.rs        | 11 +++++------
 src/core/expr/analysis.rs |  2 +-
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/api/builder.rs b/src/api/builder.rs
index 4a58a3d..6e6b7a5 100644
--- a/src/api/builder.rs
+++ b/src/api/builder.rs
@@ -284,12 +284,11 @@ impl Diff {
 
         let ast = parser::parse(formula, &symbols, &custom_functions, self.context.as_ref())?;
 
-        let var_sym = self
-            .context
-            .as_ref()
-            .map_or_else(|| crate::symb(var), |ctx| ctx.symb(var));
-
-        let result = self.differentiate(&ast, &var_sym)?;
+        let result = match &self.context {
+            Some(ctx) => self.differentiate(&ast, &ctx.symb(var)),
+            // The name may be removed from the global registry at any time
+            None => self.differentiate_by_name(&ast, var),
+        }?;
         Ok(format!("{result}"))
     }
 }
diff --git a/src/core/expr/analysis.rs b/src/core/expr/analysis.rs
index 0765646..17397b1 100644
--- a/src/core/expr/analysis.rs
+++ b/src/core/expr/analysis.rs
@@ -332,7 +332,7 @@ impl Expr {
     /// # Errors
     /// Returns `DiffError` if differentiation fails (e.g., unsupported operation).
     pub fn diff(&self, var: &str) -> Result<Self, crate::DiffError> {
-        crate::Diff::new().differentiate(self, &crate::symb(var))
+        crate::Diff::new().differentiate_by_name(self, var)
     }
 
     /// Simplify this expression
-- 
2.43.0


From 211e796158feb88139595f1c9c2ebe5cf271ef7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:37 +0000
Subject: [PATCH 18/22] fix: compiled acot agrees with its definition for
 negative arguments

---
 src/evaluator/compiler.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/evaluator/compiler.rs b/src/evaluator/compiler.rs
index 6241fda..b48347d 100644
--- a/src/evaluator/compiler.rs
+++ b/src/evaluator/compiler.rs
@@ -1173,6 +1173,17 @@ impl<'ctx> Compiler<'ctx> {
                 }
             }
 
+            // acot(x) = atan2(1, x), in (0, pi) as for the function's definition
+            if id == ks.acot {
+                let idx = self.add_const(1.0);
+                self.emit(Instruction::LoadConst(idx));
+                self.push()?;
+                self.compile_expr(&args[0])?;
+                self.emit(Instruction::Atan2);
+                self.pop();
+                return Ok(());
+            }
+
             // exp optimizations
             if id == ks.exp {
                 // Check for -x, -x^2, or x^2
@@ -1287,10 +1298,6 @@ impl<'ctx> Compiler<'ctx> {
             // csc(x) = 1/sin(x)
             self.emit(Instruction::Sin);
             Instruction::Recip
-        } else if id == ks.acot {
-            // acot(x) = atan(1/x)
-            self.emit(Instruction::Recip);
-            Instruction::Atan
         } else if id == ks.asec {
             // asec(x) = acos(1/x)
             self.emit(Instruction::Recip);
-- 
2.43.0


From e1b058b881d25422cb5e4a53d2df53f72b22fa1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:04 +0000
Subject: [PATCH 19/22] fix: eval_f64 refuses columns that do not fit when the
 first one is empty

---
 src/bindings/eval_f64.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/bindings/eval_f64.rs b/src/bindings/eval_f64.rs
index 60a9884..142eb4c 100644
--- a/src/bindings/eval_f64.rs
+++ b/src/bindings/eval_f64.rs
@@ -121,10 +121,6 @@ fn eval_single_expr_chunked<V: ToParamName>(
         columns[0].len()
     };
 
-    if n_points == 0 {
-        return Ok(Vec::new());
-    }
-
     let evaluator = CompiledEvaluator::compile(expr, vars, None).map_err(|e| {
         DiffError::invalid_syntax(format!("Failed to compile expression {expr_idx}: {e}"))
     })?;
-- 
2.43.0


From 1854b368a23648476d173eb747055ad27f9efbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:04 +0000
Subject: [PATCH 20/22] fix: eval_batch reserves the whole stack in a scratch
 buffer used before

---
 src/evaluator/simd.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/evaluator/simd.rs b/src/evaluator/simd.rs
index 6b50968..14a5908 100644
--- a/src/evaluator/simd.rs
+++ b/src/evaluator/simd.rs
@@ -141,7 +141,8 @@ impl CompiledEvaluator {
         )]
         let simd_stack_buf: &mut Vec<f64x4> = match simd_buffer {
             Some(buf) => {
-                buf.reserve(self.stack_size.saturating_sub(buf.capacity()));
+                // `reserve` counts from the length, not from the capacity
+                buf.reserve(self.stack_size.saturating_sub(buf.len()));
                 buf
             }
             None => {
-- 
2.43.0


From 12e5a1a92e7e56ed473c7d0e1f0beb880a224e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:12 +0000
Subject: [PATCH 21/22] fix: dropping a shared expression on two threads at
 once does not recurse

---
 src/core/expr/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/expr/mod.rs b/src/core/expr/mod.rs
index 0a01a5a..efe9d5f 100644
--- a/src/core/expr/mod.rs
+++ b/src/core/expr/mod.rs
@@ -263,7 +263,9 @@ impl Drop for Expr {
         drain_children(&mut self.kind, &mut work_queue);
 
         while let Some(child_arc) = work_queue.pop() {
-            if let Ok(mut child_expr) = Arc::try_unwrap(child_arc) {
+            // Not `try_unwrap`: another thread may let go of the child between its failure and the
+            // drop of the returned `Arc`, which would then drop the child recursively.
+            if let Some(mut child_expr) = Arc::into_inner(child_arc) {
                 drain_children(&mut child_expr.kind, &mut work_queue);
             }
         }
-- 
2.43.0


From c272f7cd590b5b57b9244fbf1ce09b1141ca80ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 22/22] fix: symbol_names lists the names of one instant

---
 src/core/symbol/registry.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/core/symbol/registry.rs b/src/core/symbol/registry.rs
index dc00193..f3df026 100644
--- a/src/core/symbol/registry.rs
+++ b/src/core/symbol/registry.rs
@@ -386,13 +386,21 @@ pub fn symbol_count() -> usize {
 /// Panics if any global registry shard lock is poisoned.
 #[must_use]
 pub fn symbol_names() -> Vec<String> {
-    let mut names = Vec::new();
-    for shard_lock in &REGISTRY.shards {
-        let shard = shard_lock
-            .lock()
-            .expect("Global symbol registry shard poisoned");
-        names.extend(shard.name_to_symbol_key.keys().cloned());
-    }
+    // Lock every shard before reading any, so that the list is the table at one instant
+    let shards: Vec<_> = REGISTRY
+        .shards
+        .iter()
+        .map(|shard_lock| {
+            shard_lock
+                .lock()
+                .expect("Global symbol registry shard poisoned")
+        })
+        .collect();
+    let names = shards
+        .iter()
+        .flat_map(|shard| shard.name_to_symbol_key.keys().cloned())
+        .collect();
+    drop(shards);
     // Removed sorting - caller can sort if needed
     // This avoids O(n log n) cost for use cases that don't need ordering
     names
-- 
2.43.0

