From 9c6c4c617669061638dfc3df170e97e9d686b5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:06 +0000
Subject: [PATCH 01/21] fix: derivative of cbrt is real for negative arguments

---
 src/functions/definitions.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/functions/definitions.rs b/src/functions/definitions.rs
index f88eb28..5380987 100644
--- a/src/functions/definitions.rs
+++ b/src/functions/definitions.rs
@@ -704,7 +704,7 @@ pub fn all_definitions() -> Vec<FunctionDefinition> {
             arity: 1..=1,
             eval: |args| Some(args[0].cbrt()),
             derivative: |args, arg_primes| {
-                // d/dx cbrt(u) = u' / (3 * u^(2/3))
+                // d/dx cbrt(u) = u' / (3 * cbrt(u)^2), real for negative u too
                 let u = Arc::clone(&args[0]);
                 let u_prime = arg_primes[0].clone();
                 Expr::mul_expr(
@@ -712,9 +712,12 @@ pub fn all_definitions() -> Vec<FunctionDefinition> {
                         Expr::number(1.0),
                         Expr::mul_expr(
                             Expr::number(3.0),
-                            Expr::pow_from_arcs(
-                                u,
-                                Arc::new(Expr::div_expr(Expr::number(2.0), Expr::number(3.0))),
+                            Expr::pow_static(
+                                Expr::func_multi_from_arcs_symbol(
+                                    ks::get_symbol(ks::KS.cbrt),
+                                    vec![u],
+                                ),
+                                Expr::number(2.0),
                             ),
                         ),
                     ),
-- 
2.43.0


From d9dc3623cea7b1b71c7e333bed9c9d0bc2ddbb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:11 +0000
Subject: [PATCH 02/21] fix: compiled acot has range (0, pi) like the tree
 evaluation

---
 src/evaluator/compiler.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/evaluator/compiler.rs b/src/evaluator/compiler.rs
index fd50af1..153c4bb 100644
--- a/src/evaluator/compiler.rs
+++ b/src/evaluator/compiler.rs
@@ -1288,9 +1288,13 @@ impl<'ctx> Compiler<'ctx> {
             self.emit(Instruction::Sin);
             Instruction::Recip
         } else if id == ks.acot {
-            // acot(x) = atan(1/x)
-            self.emit(Instruction::Recip);
-            Instruction::Atan
+            // acot(x) = atan2(1, x), range (0, π) (atan(1/x) is off by π for x < 0)
+            let one = self.add_const(1.0);
+            self.emit(Instruction::LoadConst(one));
+            self.push()?;
+            self.emit(Instruction::Swap);
+            self.pop();
+            Instruction::Atan2
         } else if id == ks.asec {
             // asec(x) = acos(1/x)
             self.emit(Instruction::Recip);
-- 
2.43.0


From 643ca94ddd045075fd4c3ed07d21bdf7aacec848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:03 +0000
Subject: [PATCH 03/21] fix: signum(0) is 0, as documented

---
 src/evaluator/execution.rs   |  4 ++--
 src/evaluator/simd.rs        | 10 +++++-----
 src/functions/definitions.rs |  2 +-
 src/math/dual.rs             |  2 +-
 src/math/mod.rs              |  5 +++++
 5 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/evaluator/execution.rs b/src/evaluator/execution.rs
index f857793..46bbc83 100644
--- a/src/evaluator/execution.rs
+++ b/src/evaluator/execution.rs
@@ -270,7 +270,7 @@ impl CompiledEvaluator {
                     }
                     Instruction::Signum => {
                         let top_ptr = stack_ptr.add(len - 1);
-                        *top_ptr = top_ptr.read().signum();
+                        *top_ptr = crate::math::eval_signum(top_ptr.read());
                     }
                     Instruction::Floor => {
                         let top_ptr = stack_ptr.add(len - 1);
@@ -965,7 +965,7 @@ impl CompiledEvaluator {
                 Instruction::Signum => {
                     // SAFETY: Stack operations are validated at compile time.
                     let top = unsafe { stack::scalar_stack_top_mut(stack) };
-                    *top = top.signum();
+                    *top = crate::math::eval_signum(*top);
                 }
                 Instruction::Floor => {
                     // SAFETY: Stack operations are validated at compile time.
diff --git a/src/evaluator/simd.rs b/src/evaluator/simd.rs
index 6b50968..5a29308 100644
--- a/src/evaluator/simd.rs
+++ b/src/evaluator/simd.rs
@@ -871,10 +871,10 @@ impl CompiledEvaluator {
                 let top = top!();
                 let arr = top.to_array();
                 *top = f64x4::new([
-                    arr[0].signum(),
-                    arr[1].signum(),
-                    arr[2].signum(),
-                    arr[3].signum(),
+                    crate::math::eval_signum(arr[0]),
+                    crate::math::eval_signum(arr[1]),
+                    crate::math::eval_signum(arr[2]),
+                    crate::math::eval_signum(arr[3]),
                 ]);
             }
 
@@ -1660,7 +1660,7 @@ impl CompiledEvaluator {
             }
             Instruction::Signum => {
                 let t = top_mut(stack, *len);
-                *t = t.signum();
+                *t = crate::math::eval_signum(*t);
             }
             Instruction::Floor => {
                 let t = top_mut(stack, *len);
diff --git a/src/functions/definitions.rs b/src/functions/definitions.rs
index 5380987..aaf6746 100644
--- a/src/functions/definitions.rs
+++ b/src/functions/definitions.rs
@@ -743,7 +743,7 @@ pub fn all_definitions() -> Vec<FunctionDefinition> {
         FunctionDefinition {
             name: "signum",
             arity: 1..=1,
-            eval: |args| Some(args[0].signum()),
+            eval: |args| Some(crate::math::eval_signum(args[0])),
             derivative: |_, _| {
                 // d/dx signum(u) = 0 almost everywhere
                 Expr::number(0.0)
diff --git a/src/math/dual.rs b/src/math/dual.rs
index 32827cf..90ab0c7 100644
--- a/src/math/dual.rs
+++ b/src/math/dual.rs
@@ -692,7 +692,7 @@ impl<T: MathScalar> Dual<T> {
     /// d/dx sign(x) = 0 (almost everywhere, undefined at 0)
     #[must_use]
     pub fn sign(self) -> Self {
-        Self::new(self.val.signum(), T::zero())
+        Self::new(crate::math::eval_signum(self.val), T::zero())
     }
 
     /// Elliptic integral of the first kind: K(k)
diff --git a/src/math/mod.rs b/src/math/mod.rs
index 976b603..dd61bda 100644
--- a/src/math/mod.rs
+++ b/src/math/mod.rs
@@ -51,3 +51,8 @@ pub use special::*;
 pub fn eval_exp_polar<T: MathScalar>(x: T) -> T {
     x.exp()
 }
+
+/// Sign of `x`: -1, 0 or 1 (unlike `f64::signum`, which maps ±0 to ±1)
+pub fn eval_signum<T: MathScalar>(x: T) -> T {
+    if x.is_zero() { T::zero() } else { x.signum() }
+}
-- 
2.43.0


From 3f8581823d96b654f049fbabb5c117f827873afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:16 +0000
Subject: [PATCH 04/21] fix: an even power under a fractional power keeps the
 absolute value

sqrt(x^6) was simplified to x^3 and (x^2)^(3/2) to x^3; both are |x|^3.
---
 src/simplification/rules/algebraic/powers.rs | 30 ++++++++++++++++++++
 src/simplification/rules/root/mod.rs         |  9 ++++++
 2 files changed, 39 insertions(+)

diff --git a/src/simplification/rules/algebraic/powers.rs b/src/simplification/rules/algebraic/powers.rs
index e0aff8c..6c81722 100644
--- a/src/simplification/rules/algebraic/powers.rs
+++ b/src/simplification/rules/algebraic/powers.rs
@@ -4,6 +4,26 @@ use crate::simplification::rules::{ExprKind, Rule, RuleCategory, RuleContext};
 use crate::{Expr, ExprKind as AstKind};
 use std::sync::Arc;
 
+/// Whether `(x^inner)^outer` depends on `|x|` only while `x^(inner * outer)` may not:
+/// `inner` is an even integer, and neither `outer` is an integer nor the product an even one.
+fn loses_sign(inner: &Expr, outer: &Expr) -> bool {
+    let AstKind::Number(inner_n) = &inner.kind else {
+        return false;
+    };
+    if *inner_n == 0.0 || inner_n % 2.0 != 0.0 {
+        return false;
+    }
+    let outer_n = match &outer.kind {
+        AstKind::Number(n) => *n,
+        AstKind::Div(num, den) => match (&num.kind, &den.kind) {
+            (AstKind::Number(a), AstKind::Number(b)) => a / b,
+            _ => return true,
+        },
+        _ => return true,
+    };
+    outer_n.fract() != 0.0 && (inner_n * outer_n) % 2.0 != 0.0
+}
+
 rule!(
     PowerZeroRule,
     "power_zero",
@@ -96,6 +116,16 @@ rule!(
             // Create new exponent: exp_inner * v using Product
             let new_exp = Expr::product_from_arcs(vec![Arc::clone(exp_inner), Arc::clone(v)]);
 
+            // x^even is |x|^even, so the sign of x is already lost before the outer power:
+            // (x^2)^(3/2) = |x|^3
+            if loses_sign(exp_inner, v) {
+                let abs_base = Expr::func_multi_from_arcs_symbol(
+                    ks::get_symbol(ks::KS.abs),
+                    vec![Arc::clone(base)],
+                );
+                return Some(Expr::pow_from_arcs(Arc::new(abs_base), Arc::new(new_exp)));
+            }
+
             return Some(Expr::pow_from_arcs(Arc::clone(base), Arc::new(new_exp)));
         }
         None
diff --git a/src/simplification/rules/root/mod.rs b/src/simplification/rules/root/mod.rs
index 44c69f6..2791dee 100644
--- a/src/simplification/rules/root/mod.rs
+++ b/src/simplification/rules/root/mod.rs
@@ -58,6 +58,15 @@ rule!(
                 return Some(base.as_ref().clone());
             }
 
+            // sqrt(x^n) with n even is |x|^(n/2); the sign only drops out when n/2 is even too
+            if let AstKind::Number(n) = &exp.kind
+                && *n % 2.0 == 0.0
+                && (*n / 2.0) % 2.0 != 0.0
+            {
+                let abs_base = Expr::func_symbol(get_symbol(KS.abs), base.as_ref().clone());
+                return Some(Expr::pow_static(abs_base, simplified_exp));
+            }
+
             let result = Expr::pow_static(base.as_ref().clone(), simplified_exp);
 
             return Some(result);
-- 
2.43.0


From 7a2bb26ebd198b02a054403f962c10e2664fff83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:20 +0000
Subject: [PATCH 05/21] fix: exponential forms of sinh, tanh, coth and csch
 keep the sign of the argument

(e^-x - e^x)/(e^-x + e^x) was simplified to tanh(x) instead of -tanh(x).
---
 src/simplification/rules/hyperbolic/conversions.rs | 6 +++---
 src/simplification/rules/hyperbolic/helpers.rs     | 5 +++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/simplification/rules/hyperbolic/conversions.rs b/src/simplification/rules/hyperbolic/conversions.rs
index f39a881..9b530db 100644
--- a/src/simplification/rules/hyperbolic/conversions.rs
+++ b/src/simplification/rules/hyperbolic/conversions.rs
@@ -108,7 +108,7 @@ rule!(
             };
 
             if let (Some(n_arg), Some(d_arg)) = (num_arg, den_arg)
-                && n_arg == d_arg
+                && (n_arg == d_arg || ExpTerm::args_are_negations(&n_arg, &d_arg))
             {
                 return Some(Expr::func_symbol_arc(ks::get_symbol(ks::KS.tanh), n_arg));
             }
@@ -282,9 +282,9 @@ rule!(
             };
 
             if let (Some(n_arg), Some(d_arg)) = (num_arg, den_arg)
-                && n_arg == d_arg
+                && (n_arg == d_arg || ExpTerm::args_are_negations(&n_arg, &d_arg))
             {
-                return Some(Expr::func_symbol_arc(ks::get_symbol(ks::KS.coth), n_arg));
+                return Some(Expr::func_symbol_arc(ks::get_symbol(ks::KS.coth), d_arg));
             }
 
             if let Some(x_num) = match_e2x_plus_1(numerator)
diff --git a/src/simplification/rules/hyperbolic/helpers.rs b/src/simplification/rules/hyperbolic/helpers.rs
index ae722d7..25a4193 100644
--- a/src/simplification/rules/hyperbolic/helpers.rs
+++ b/src/simplification/rules/hyperbolic/helpers.rs
@@ -183,7 +183,8 @@ pub fn match_cosh_pattern(u: &Expr, v: &Expr) -> Option<Arc<Expr>> {
 }
 
 /// Try to match the pattern (e^x - e^(-x)) for sinh detection
-/// Returns Some(x) if pattern matches (always returns the positive argument as Arc)
+/// Returns Some(x) if pattern matches; x is the argument of the first term, sign included,
+/// because sinh is odd
 pub fn match_sinh_pattern_sub(u: &Expr, v: &Expr) -> Option<Arc<Expr>> {
     // u should be e^x, v should be e^(-x)
     let exp1 = ExpTerm::from_expr(u)?;
@@ -191,7 +192,7 @@ pub fn match_sinh_pattern_sub(u: &Expr, v: &Expr) -> Option<Arc<Expr>> {
 
     // Check if exp2.arg = -exp1.arg (so u = e^x, v = e^(-x))
     if exp2.is_negation_of(&exp1.arg) {
-        return Some(get_positive_form(&exp1.arg));
+        return Some(exp1.arg);
     }
     None
 }
-- 
2.43.0


From c3ddbd898abf10d4d1127af88e1a068327b7e805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:47 +0000
Subject: [PATCH 06/21] fix: domain-safe simplification does not replace cbrt
 by a power or split powers over factors of unknown sign

---
 src/simplification/rules/algebraic/expansion.rs | 12 +++++++++++-
 src/simplification/rules/algebraic/powers.rs    | 11 ++++++++++-
 src/simplification/rules/root/mod.rs            | 16 +++++++++++++---
 3 files changed, 34 insertions(+), 5 deletions(-)

diff --git a/src/simplification/rules/algebraic/expansion.rs b/src/simplification/rules/algebraic/expansion.rs
index afdf456..099488c 100644
--- a/src/simplification/rules/algebraic/expansion.rs
+++ b/src/simplification/rules/algebraic/expansion.rs
@@ -1,5 +1,6 @@
 use crate::core::known_symbols::KS;
 use crate::core::traits::EPSILON;
+use crate::simplification::helpers::is_known_non_negative;
 use crate::simplification::rules::{ExprKind, Rule, RuleCategory, RuleContext};
 use crate::{Expr, ExprKind as AstKind};
 
@@ -9,7 +10,7 @@ rule!(
     92,
     Algebraic,
     &[ExprKind::Div],
-    |expr: &Expr, _context: &RuleContext| {
+    |expr: &Expr, context: &RuleContext| {
         if let AstKind::Div(num, den) = &expr.kind {
             // Helper to check if a factor is present in an expression
             let contains_factor = |e: &Expr, factor: &Expr| -> bool {
@@ -24,6 +25,15 @@ rule!(
                 if let AstKind::Pow(base, exp) = &target.kind
                     && let AstKind::Product(base_factors) = &base.kind
                 {
+                    // (a*b)^r is defined for a, b < 0, a^r * b^r is not unless r is an integer
+                    let is_integer = matches!(&exp.kind, AstKind::Number(n) if n.fract() == 0.0);
+                    if context.domain_safe
+                        && !is_integer
+                        && !base_factors.iter().all(|f| is_known_non_negative(f))
+                    {
+                        return None;
+                    }
+
                     // Check if any base factor is present in 'other'
                     let mut useful = false;
                     for factor in base_factors {
diff --git a/src/simplification/rules/algebraic/powers.rs b/src/simplification/rules/algebraic/powers.rs
index 6c81722..aec8b0b 100644
--- a/src/simplification/rules/algebraic/powers.rs
+++ b/src/simplification/rules/algebraic/powers.rs
@@ -493,7 +493,7 @@ rule!(
     88,
     Algebraic,
     &[ExprKind::Pow],
-    |expr: &Expr, _context: &RuleContext| {
+    |expr: &Expr, context: &RuleContext| {
         if let AstKind::Pow(base, exp) = &expr.kind
             && let AstKind::Div(num, den) = &base.kind
         {
@@ -544,6 +544,15 @@ rule!(
                 _ => false,
             };
 
+            // (x/y)^a is defined for x, y < 0, x^a / y^a is not unless `a` is an integer
+            let stays_integer = matches!(&exp.kind, AstKind::Number(n) if n.fract() == 0.0);
+            if context.domain_safe
+                && !stays_integer
+                && !crate::simplification::helpers::is_known_non_negative(den)
+            {
+                return None;
+            }
+
             if is_root_exponent || den_would_simplify {
                 let num_pow = Expr::pow_from_arcs(Arc::clone(num), Arc::clone(exp));
                 let den_pow = Expr::pow_from_arcs(Arc::clone(den), Arc::clone(exp));
diff --git a/src/simplification/rules/root/mod.rs b/src/simplification/rules/root/mod.rs
index 2791dee..9713565 100644
--- a/src/simplification/rules/root/mod.rs
+++ b/src/simplification/rules/root/mod.rs
@@ -1,6 +1,7 @@
 use crate::core::expr::{Expr, ExprKind as AstKind};
 use crate::core::known_symbols::{KS, get_symbol};
 use crate::core::traits::EPSILON;
+use crate::simplification::helpers::is_known_non_negative;
 use crate::simplification::rules::{ExprKind, Rule, RuleCategory, RuleContext};
 use std::sync::Arc;
 
@@ -81,12 +82,18 @@ rule!(
     85,
     Root,
     &[ExprKind::Function],
-    |expr: &Expr, _context: &RuleContext| {
+    |expr: &Expr, context: &RuleContext| {
         if let AstKind::FunctionCall { name, args } = &expr.kind
             && name.id() == KS.cbrt
             && args.len() == 1
             && let AstKind::Pow(base, exp) = &args[0].kind
         {
+            // cbrt is defined for negative arguments, x^(n/3) is not unless n/3 is an integer
+            let stays_integer = matches!(&exp.kind, AstKind::Number(n) if *n % 3.0 == 0.0);
+            if context.domain_safe && !stays_integer && !is_known_non_negative(base) {
+                return None;
+            }
+
             // Create new exponent: exp / 3
             let new_exp = Expr::div_expr(exp.as_ref().clone(), Expr::number(3.0));
 
@@ -199,7 +206,7 @@ rule!(
     50,
     Root,
     &[ExprKind::Function],
-    |expr: &Expr, _context: &RuleContext| {
+    |expr: &Expr, context: &RuleContext| {
         if let AstKind::FunctionCall { name, args } = &expr.kind
             && args.len() == 1
         {
@@ -208,7 +215,10 @@ rule!(
                     (*args[0]).clone(),
                     Expr::div_expr(Expr::number(1.0), Expr::number(2.0)),
                 ));
-            } else if name.id() == KS.cbrt {
+            } else if name.id() == KS.cbrt
+                && (!context.domain_safe || is_known_non_negative(&args[0]))
+            {
+                // cbrt is defined for negative arguments, x^(1/3) is not
                 return Some(Expr::pow_static(
                     (*args[0]).clone(),
                     Expr::div_expr(Expr::number(1.0), Expr::number(3.0)),
-- 
2.43.0


From 8062f7b16c56abac1a1a1bdca245eb78edbcdbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:41 +0000
Subject: [PATCH 07/21] fix: a tiny constant is not zero

---
 src/core/expr/constructors.rs                 | 22 ++++++++++++++----
 src/core/poly.rs                              | 23 +++++++++++--------
 src/core/traits.rs                            |  1 +
 .../rules/algebraic/combination.rs            | 12 ++++++----
 .../rules/algebraic/factoring.rs              |  4 ++--
 src/simplification/rules/numeric/mod.rs       |  4 +++-
 src/uncertainty.rs                            |  4 ++--
 7 files changed, 46 insertions(+), 24 deletions(-)

diff --git a/src/core/expr/constructors.rs b/src/core/expr/constructors.rs
index 02ce16f..544f6c9 100644
--- a/src/core/expr/constructors.rs
+++ b/src/core/expr/constructors.rs
@@ -56,10 +56,14 @@ impl Expr {
         }
     }
 
-    /// Check if this expression is the number zero (with tolerance)
+    /// Check if this expression is the number zero
+    ///
+    /// Exact: a tiny constant (such as a physical constant in SI units) is not zero.
     #[inline]
     pub fn is_zero_num(&self) -> bool {
-        self.as_number().is_some_and(crate::core::traits::is_zero)
+        #[allow(clippy::float_cmp, reason = "Only zero itself annihilates a product")]
+        let is_zero = self.as_number() == Some(0.0);
+        is_zero
     }
 
     /// Check if this expression is the number one (with tolerance)
@@ -154,12 +158,16 @@ impl Expr {
 
         let mut flat: Vec<Arc<Self>> = Vec::with_capacity(terms.len());
         let mut numeric_sum: f64 = 0.0;
+        let mut numeric_scale: f64 = 0.0;
 
         for t in terms {
             if matches!(t.kind, ExprKind::Sum(_) | ExprKind::Number(_)) {
                 match t.into_kind() {
                     ExprKind::Sum(inner) => flat.extend(inner),
-                    ExprKind::Number(n) => numeric_sum += n,
+                    ExprKind::Number(n) => {
+                        numeric_sum += n;
+                        numeric_scale = numeric_scale.max(n.abs());
+                    }
                     // Invariant protected by if guard
                     _ => {}
                 }
@@ -169,7 +177,8 @@ impl Expr {
         }
 
         // Add accumulated numeric constant (canonical order: numbers first)
-        if numeric_sum.abs() > EPSILON {
+        // unless the addends cancel up to rounding
+        if numeric_sum.abs() > EPSILON * numeric_scale {
             flat.push(Arc::new(Self::number(numeric_sum)));
         }
 
@@ -218,11 +227,13 @@ impl Expr {
         // Flatten nested sums and combine numbers
         let mut flat: Vec<Arc<Self>> = Vec::with_capacity(terms.len());
         let mut numeric_sum: f64 = 0.0;
+        let mut numeric_scale: f64 = 0.0;
 
         for t in terms {
             // Check for Number
             if let ExprKind::Number(n) = t.kind {
                 numeric_sum += n;
+                numeric_scale = numeric_scale.max(n.abs());
                 continue;
             }
 
@@ -249,7 +260,8 @@ impl Expr {
         }
 
         // Add accumulated numeric constant (canonical order: numbers first)
-        if numeric_sum.abs() > EPSILON {
+        // unless the addends cancel up to rounding
+        if numeric_sum.abs() > EPSILON * numeric_scale {
             flat.push(Arc::new(Self::number(numeric_sum)));
         }
 
diff --git a/src/core/poly.rs b/src/core/poly.rs
index fbf3ce8..bd729d3 100644
--- a/src/core/poly.rs
+++ b/src/core/poly.rs
@@ -128,7 +128,7 @@ impl Polynomial {
 
     /// Create a constant polynomial
     pub fn constant(c: f64) -> Self {
-        if c.abs() < EPSILON {
+        if c == 0.0 {
             // Zero polynomial - use dummy base
             Self {
                 base: Arc::new(Expr::number(1.0)),
@@ -152,7 +152,7 @@ impl Polynomial {
 
     /// Create polynomial: coeff * base^pow
     pub fn term(base: Arc<Expr>, pow: u32, coeff: f64) -> Self {
-        if coeff.abs() < EPSILON {
+        if coeff == 0.0 {
             Self::zero(base)
         } else {
             Self {
@@ -256,13 +256,14 @@ impl Polynomial {
 
     /// Add a term (power, coeff) to the polynomial
     pub(crate) fn add_term(&mut self, pow: u32, coeff: f64) {
-        if coeff.abs() < EPSILON {
+        if coeff == 0.0 {
             return;
         }
         match self.terms.binary_search_by_key(&pow, |(p, _)| *p) {
             Ok(i) => {
                 self.terms[i].1 += coeff;
-                if self.terms[i].1.abs() < EPSILON {
+                // Zero up to the rounding of the addends
+                if self.terms[i].1.abs() <= EPSILON * coeff.abs() {
                     self.terms.remove(i);
                 }
             }
@@ -294,7 +295,7 @@ impl Polynomial {
             let my_const = self.as_constant().unwrap_or(0.0);
             self.base = Arc::clone(&other.base);
             self.terms.clone_from(&other.terms);
-            if my_const.abs() >= EPSILON {
+            if my_const != 0.0 {
                 self.add_term(0, my_const);
             }
             return true;
@@ -364,18 +365,22 @@ impl Polynomial {
         // Merge terms with same power
         let mut merged_terms = Vec::with_capacity(all_terms.len());
         if let Some(&(mut current_pow, mut current_coeff)) = all_terms.first() {
+            // A merged coefficient is zero when its addends cancel up to rounding
+            let mut scale = current_coeff.abs();
             for &(next_pow, next_coeff) in all_terms.iter().skip(1) {
                 if next_pow == current_pow {
                     current_coeff += next_coeff;
+                    scale = scale.max(next_coeff.abs());
                 } else {
-                    if current_coeff.abs() >= EPSILON {
+                    if current_coeff.abs() > EPSILON * scale {
                         merged_terms.push((current_pow, current_coeff));
                     }
                     current_pow = next_pow;
                     current_coeff = next_coeff;
+                    scale = current_coeff.abs();
                 }
             }
-            if current_coeff.abs() >= EPSILON {
+            if current_coeff.abs() > EPSILON * scale {
                 merged_terms.push((current_pow, current_coeff));
             }
         }
@@ -388,7 +393,7 @@ impl Polynomial {
 
     /// Multiply by a scalar
     pub fn scale(&self, scalar: f64) -> Self {
-        if scalar.abs() < EPSILON {
+        if scalar == 0.0 {
             return Self::zero(Arc::clone(&self.base));
         }
         Self {
@@ -412,7 +417,7 @@ impl Polynomial {
     /// Make polynomial monic (leading coefficient = 1)
     pub fn make_monic(&self) -> Self {
         let lc = self.leading_coeff();
-        if lc.abs() < EPSILON || (lc - 1.0).abs() < EPSILON {
+        if lc == 0.0 || (lc - 1.0).abs() < EPSILON {
             return self.clone();
         }
         self.scale(1.0 / lc)
diff --git a/src/core/traits.rs b/src/core/traits.rs
index ad88e15..0469d06 100644
--- a/src/core/traits.rs
+++ b/src/core/traits.rs
@@ -101,6 +101,7 @@ impl<T> MathScalar for T where
 /// Uses a tolerance of `1e-15` for comparison.
 /// This is an internal utility function for algebraic simplification.
 #[inline]
+#[cfg_attr(not(test), allow(dead_code, reason = "Expressions test for zero exactly"))]
 pub fn is_zero(n: f64) -> bool {
     n.abs() < EPSILON
 }
diff --git a/src/simplification/rules/algebraic/combination.rs b/src/simplification/rules/algebraic/combination.rs
index d141c13..1bd0ba5 100644
--- a/src/simplification/rules/algebraic/combination.rs
+++ b/src/simplification/rules/algebraic/combination.rs
@@ -410,17 +410,19 @@ rule_arc!(
                 } else {
                     // Sub-group by actual structural base using HashMap (O(n) amortized).
                     // Expr's Hash+PartialEq handles hash collisions via structural equality.
-                    let mut sub_groups: std::collections::HashMap<Arc<Expr>, f64> =
+                    let mut sub_groups: std::collections::HashMap<Arc<Expr>, (f64, f64)> =
                         std::collections::HashMap::new();
                     for term in &group_terms {
                         let (coeff, var_part) =
                             crate::simplification::helpers::extract_coeff_arc(term.as_ref());
-                        *sub_groups.entry(var_part).or_insert(0.0) += coeff;
+                        let (total, scale) = sub_groups.entry(var_part).or_insert((0.0, 0.0));
+                        *total += coeff;
+                        *scale = scale.max(coeff.abs());
                     }
 
-                    for (base_term, total_coeff) in sub_groups {
-                        if total_coeff.abs() < EPSILON {
-                            // Terms cancel out
+                    for (base_term, (total_coeff, scale)) in sub_groups {
+                        if total_coeff.abs() <= EPSILON * scale {
+                            // Terms cancel out (up to rounding)
                             continue;
                         }
 
diff --git a/src/simplification/rules/algebraic/factoring.rs b/src/simplification/rules/algebraic/factoring.rs
index 97ecebb..8839d4f 100644
--- a/src/simplification/rules/algebraic/factoring.rs
+++ b/src/simplification/rules/algebraic/factoring.rs
@@ -119,11 +119,11 @@ impl Rule for FractionCancellationRule {
 
             // Simplify coefficients
             let ratio = num_coeff / den_coeff;
-            if ratio.abs() < EPSILON {
+            if ratio == 0.0 {
                 return Some(Arc::new(Expr::number(0.0)));
             }
 
-            if (ratio - ratio.round()).abs() < EPSILON {
+            if ratio.round() != 0.0 && (ratio - ratio.round()).abs() < EPSILON {
                 num_coeff = ratio.round();
                 den_coeff = 1.0;
             } else if (1.0 / ratio - (1.0 / ratio).round()).abs() < EPSILON {
diff --git a/src/simplification/rules/numeric/mod.rs b/src/simplification/rules/numeric/mod.rs
index 3323406..75056cd 100644
--- a/src/simplification/rules/numeric/mod.rs
+++ b/src/simplification/rules/numeric/mod.rs
@@ -389,7 +389,9 @@ rule!(
             && *b != 0.0
         {
             let result = a / b;
-            if (result - result.round()).abs() < EPSILON {
+            // A tiny quotient is not zero
+            let vanishes = result.round() == 0.0 && *a != 0.0;
+            if !vanishes && (result - result.round()).abs() < EPSILON {
                 return Some(Expr::number(result.round()));
             }
         }
diff --git a/src/uncertainty.rs b/src/uncertainty.rs
index 23710ce..9aafd1b 100644
--- a/src/uncertainty.rs
+++ b/src/uncertainty.rs
@@ -43,7 +43,7 @@ impl CovEntry {
     #[must_use]
     pub fn is_zero(&self) -> bool {
         match self {
-            Self::Num(n) => n.abs() < EPSILON,
+            Self::Num(n) => *n == 0.0,
             Self::Symbolic(e) => e.is_zero_num(), // Also check symbolic zero
         }
     }
@@ -94,7 +94,7 @@ impl CovarianceMatrix {
         for (i, row_i) in entries.iter().enumerate() {
             for (j, entry_ij) in row_i.iter().enumerate().skip(i.saturating_add(1)) {
                 if let (CovEntry::Num(a), CovEntry::Num(b)) = (entry_ij, &entries[j][i])
-                    && (a - b).abs() >= EPSILON
+                    && (a - b).abs() > EPSILON * a.abs().max(b.abs())
                 {
                     return Err(DiffError::UnsupportedOperation(format!(
                         "Covariance matrix must be symmetric: Cov[{i}][{j}]={a} != Cov[{j}][{i}]={b}"
-- 
2.43.0


From ed1854e30d3e350842ae828747c0d028c646e568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:04 +0000
Subject: [PATCH 08/21] fix: map, fold and substitute reach the terms of
 polynomial expressions

---
 src/core/expr/analysis.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/core/expr/analysis.rs b/src/core/expr/analysis.rs
index 2c20232..d6b3dec 100644
--- a/src/core/expr/analysis.rs
+++ b/src/core/expr/analysis.rs
@@ -358,7 +358,7 @@ impl Expr {
     {
         let acc = f(init, self);
         match &self.kind {
-            ExprKind::Number(_) | ExprKind::Symbol(_) | ExprKind::Poly(_) => acc, // Poly is opaque for folding
+            ExprKind::Number(_) | ExprKind::Symbol(_) => acc,
             ExprKind::FunctionCall { args, .. } => args.iter().fold(acc, |a, arg| arg.fold(a, f)),
             ExprKind::Sum(terms) => terms.iter().fold(acc, |a, t| t.fold(a, f)),
             ExprKind::Product(factors) => factors.iter().fold(acc, |a, f_| f_.fold(a, f)),
@@ -367,6 +367,8 @@ impl Expr {
                 r.fold(acc, f)
             }
             ExprKind::Derivative { inner, .. } => inner.fold(acc, f),
+            // Poly is traversed as the sum it stands for
+            ExprKind::Poly(poly) => poly.to_expr_terms().iter().fold(acc, |a, t| t.fold(a, f)),
         }
     }
 
@@ -400,8 +402,14 @@ impl Expr {
                 Self::derivative(inner.map(f), var.clone(), *order)
             }
             ExprKind::Poly(poly) => {
-                // Poly is opaque for mapping - just clone
-                Self::new(ExprKind::Poly(poly.clone()))
+                // Poly is mapped as the sum it stands for; it stays a Poly when nothing changes
+                let terms = poly.to_expr_terms();
+                let mapped: Vec<Self> = terms.iter().map(|t| t.map(f)).collect();
+                if mapped == terms {
+                    self.clone()
+                } else {
+                    Self::sum(mapped)
+                }
             }
         };
         f(&transformed)
-- 
2.43.0


From be18ea73c72758f33de301f435f610c14bb6fab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:04 +0000
Subject: [PATCH 09/21] fix: signs of the asymptotic series of tetragamma

---
 src/math/special.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/math/special.rs b/src/math/special.rs
index cb70c2d..1fe7368 100644
--- a/src/math/special.rs
+++ b/src/math/special.rs
@@ -193,7 +193,12 @@ pub fn eval_tetragamma<T: MathScalar>(x: T) -> Option<T> {
         xv += one;
     }
     let x2 = xv * xv;
-    Some(r - one / x2 + one / (x2 * xv) + one / (two * x2 * x2) + one / (six * x2 * x2 * xv))
+    // ψ₂(x) ~ -1/x² - 1/x³ - 1/(2x⁴) + 1/(6x⁶) - 1/(6x⁸)
+    let x4 = x2 * x2;
+    Some(
+        r - one / x2 - one / (x2 * xv) - one / (two * x4) + one / (six * x4 * x2)
+            - one / (six * x4 * x4),
+    )
 }
 
 /// Riemann zeta function ζ(s) = Σ_{n=1}^∞ 1/n^s
-- 
2.43.0


From c4fd6e3bda4a788d74005c9e3229a40cd4cd0dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:37 +0000
Subject: [PATCH 10/21] fix: dual powers of non-positive bases

---
 src/math/dual.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/math/dual.rs b/src/math/dual.rs
index 90ab0c7..377f387 100644
--- a/src/math/dual.rs
+++ b/src/math/dual.rs
@@ -401,6 +401,9 @@ impl<T: MathScalar + Float> Float for Dual<T> {
     }
 
     fn powi(self, n: i32) -> Self {
+        if n == 0 {
+            return Self::one();
+        }
         let n_t = T::from(n).expect("T::from conversion failed");
         let val_pow = self.val.powi(n);
         let val_pow_minus_1 = self.val.powi(n - 1);
@@ -408,8 +411,17 @@ impl<T: MathScalar + Float> Float for Dual<T> {
     }
 
     fn powf(self, n: Self) -> Self {
-        // x^y = exp(y * ln(x))
-        (n * self.ln()).exp()
+        // d(x^y) = y * x^(y-1) * dx + x^y * ln(x) * dy
+        // Each part only where it contributes: ln(x) is undefined for x <= 0
+        let val = self.val.powf(n.val);
+        let mut eps = T::zero();
+        if !n.val.is_zero() {
+            eps += self.eps * n.val * self.val.powf(n.val - T::one());
+        }
+        if !n.eps.is_zero() {
+            eps += n.eps * val * self.val.ln();
+        }
+        Self::new(val, eps)
     }
 
     fn sqrt(self) -> Self {
-- 
2.43.0


From eaf86ef66ba3cf5f4ef3f1837b12b864d9b18d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:20 +0000
Subject: [PATCH 11/21] fix: node counts and depths of polynomial expressions

---
 src/core/expr/analysis.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/core/expr/analysis.rs b/src/core/expr/analysis.rs
index d6b3dec..d8de805 100644
--- a/src/core/expr/analysis.rs
+++ b/src/core/expr/analysis.rs
@@ -96,8 +96,14 @@ impl Expr {
             ExprKind::Product(factors) => 1 + factors.iter().map(|f| f.node_count()).sum::<usize>(),
             ExprKind::Div(l, r) | ExprKind::Pow(l, r) => 1 + l.node_count() + r.node_count(),
             ExprKind::Derivative { inner, .. } => 1 + inner.node_count(),
-            // Poly is counted as 1 node + its expanded form
-            ExprKind::Poly(poly) => 1 + poly.terms().len(),
+            // Poly is counted as the sum it stands for
+            ExprKind::Poly(poly) => {
+                1 + poly
+                    .to_expr_terms()
+                    .iter()
+                    .map(Self::node_count)
+                    .sum::<usize>()
+            }
         }
     }
 
@@ -115,7 +121,15 @@ impl Expr {
             }
             ExprKind::Div(l, r) | ExprKind::Pow(l, r) => 1 + l.max_depth().max(r.max_depth()),
             ExprKind::Derivative { inner, .. } => 1 + inner.max_depth(),
-            ExprKind::Poly(_) => 2, // Poly is shallow: one level for poly, one for terms
+            // Poly is as deep as the sum it stands for
+            ExprKind::Poly(poly) => {
+                1 + poly
+                    .to_expr_terms()
+                    .iter()
+                    .map(Self::max_depth)
+                    .max()
+                    .unwrap_or(0)
+            }
         }
     }
 
-- 
2.43.0


From 7d1eecd5d7807f6e5258b0ee6d0779606bedc90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:36 +0000
Subject: [PATCH 12/21] fix: user functions inside polynomial expressions are
 expanded for compilation

---
 src/evaluator/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/evaluator/mod.rs b/src/evaluator/mod.rs
index 2c03399..0e4939d 100644
--- a/src/evaluator/mod.rs
+++ b/src/evaluator/mod.rs
@@ -989,9 +989,14 @@ impl CompiledEvaluator {
                 Expr::func_multi_symbol(name.clone(), expanded_args)
             }
 
+            // Poly is expanded as the sum it stands for
             ExprKind::Poly(poly) => {
-                let poly_expr = poly.to_expr();
-                Self::expand_user_functions(&poly_expr, ctx, expanding, depth + 1)
+                let expanded: Vec<Expr> = poly
+                    .to_expr_terms()
+                    .iter()
+                    .map(|t| Self::expand_user_functions(t, ctx, expanding, depth + 1))
+                    .collect();
+                Expr::sum(expanded)
             }
 
             ExprKind::Derivative { inner, var, order } => {
-- 
2.43.0


From 043357c7a56177907a3b5f251c7a1a5459d18768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:19 +0000
Subject: [PATCH 13/21] fix: bodies and partials of user functions are used
 only for accepted argument counts

---
 src/api/builder.rs                      | 19 ++++++++-----------
 src/diff/engine.rs                      |  4 +++-
 src/simplification/engine.rs            |  2 +-
 src/simplification/mod.rs               | 11 ++++++-----
 src/simplification/rules/mod.rs         | 14 +++++++++++---
 src/simplification/rules/numeric/mod.rs |  4 ++--
 6 files changed, 31 insertions(+), 23 deletions(-)

diff --git a/src/api/builder.rs b/src/api/builder.rs
index 4748aba..f1bf72d 100644
--- a/src/api/builder.rs
+++ b/src/api/builder.rs
@@ -21,7 +21,6 @@ use crate::evaluator::ToParamName;
 use crate::{DiffError, Expr, Symbol, parser, simplification};
 use std::collections::HashMap;
 use std::collections::HashSet;
-use std::sync::Arc;
 
 /// Builder for differentiation operations
 #[derive(Clone, Default)]
@@ -138,11 +137,10 @@ impl Diff {
     fn build_bodies_map(&self) -> simplification::CustomBodyMap {
         self.user_fns
             .iter()
-            .filter_map(|(name, func)| {
-                func.body.as_ref().map(|b| {
-                    let id = crate::core::symbol::symb_interned(name).id();
-                    (id, Arc::clone(b))
-                })
+            .filter(|(_, func)| func.has_body())
+            .map(|(name, func)| {
+                let id = crate::core::symbol::symb_interned(name).id();
+                (id, func.clone())
             })
             .collect()
     }
@@ -363,11 +361,10 @@ impl Simplify {
     fn build_bodies_map(&self) -> simplification::CustomBodyMap {
         self.user_fns
             .iter()
-            .filter_map(|(name, func)| {
-                func.body.as_ref().map(|b| {
-                    let id = crate::core::symbol::symb_interned(name).id();
-                    (id, Arc::clone(b))
-                })
+            .filter(|(_, func)| func.has_body())
+            .map(|(name, func)| {
+                let id = crate::core::symbol::symb_interned(name).id();
+                (id, func.clone())
             })
             .collect()
     }
diff --git a/src/diff/engine.rs b/src/diff/engine.rs
index bae3ee0..532a62c 100644
--- a/src/diff/engine.rs
+++ b/src/diff/engine.rs
@@ -109,7 +109,9 @@ impl Expr {
                 }
 
                 // Check for user-defined function partials in context
-                if let Some(user_fn) = ctx.get_user_fn_by_id(name.id()) {
+                if let Some(user_fn) = ctx.get_user_fn_by_id(name.id())
+                    && user_fn.accepts_arity(args.len())
+                {
                     // Multi-arg chain rule: dF/dx = Σ (∂F/∂arg[i]) * (darg[i]/dx)
                     let mut terms = Vec::new();
 
diff --git a/src/simplification/engine.rs b/src/simplification/engine.rs
index acfa1a4..203941e 100644
--- a/src/simplification/engine.rs
+++ b/src/simplification/engine.rs
@@ -200,7 +200,7 @@ impl Simplifier {
     /// Sets custom function bodies.
     pub fn with_custom_bodies(
         mut self,
-        custom_bodies: HashMap<u64, crate::core::unified_context::BodyFn>,
+        custom_bodies: HashMap<u64, crate::core::unified_context::UserFunction>,
     ) -> Self {
         self.context = self.context.with_custom_bodies(custom_bodies);
         self
diff --git a/src/simplification/mod.rs b/src/simplification/mod.rs
index a69111b..deadf60 100644
--- a/src/simplification/mod.rs
+++ b/src/simplification/mod.rs
@@ -5,13 +5,12 @@ mod patterns;
 pub mod rules;
 
 use crate::Expr;
-use crate::core::unified_context::{BodyFn, Context};
+use crate::core::unified_context::{Context, UserFunction};
 
 use std::collections::{HashMap, HashSet};
-use std::sync::Arc;
 
 /// Type alias for custom body function map (symbolic expansion)
-pub type CustomBodyMap = HashMap<u64, BodyFn>;
+pub type CustomBodyMap = HashMap<u64, UserFunction>;
 
 /// Simplify an expression with user-specified options
 ///
@@ -38,8 +37,10 @@ pub fn simplify_expr(
         // Context symbols are parsing hints, not simplification constants
         // But we still merge function bodies
         for id in ctx.fn_name_to_id().values() {
-            if let Some(body) = ctx.get_body_by_id(*id) {
-                custom_bodies.insert(*id, Arc::clone(body));
+            if let Some(func) = ctx.get_user_fn_by_id(*id)
+                && func.has_body()
+            {
+                custom_bodies.insert(*id, func.clone());
             }
         }
     }
diff --git a/src/simplification/rules/mod.rs b/src/simplification/rules/mod.rs
index 8779b88..a545bdc 100644
--- a/src/simplification/rules/mod.rs
+++ b/src/simplification/rules/mod.rs
@@ -5,7 +5,7 @@
 
 use crate::Expr;
 use crate::ExprKind as AstKind;
-use crate::core::unified_context::BodyFn;
+use crate::core::unified_context::{BodyFn, UserFunction};
 use std::collections::HashMap;
 use std::sync::Arc;
 
@@ -454,7 +454,7 @@ pub struct RuleContext {
     /// Whether to apply only domain-safe transformations
     pub domain_safe: bool,
     /// Custom function body definitions
-    pub custom_bodies: Arc<HashMap<u64, BodyFn>>,
+    pub custom_bodies: Arc<HashMap<u64, UserFunction>>,
 }
 
 impl std::fmt::Debug for RuleContext {
@@ -477,8 +477,16 @@ impl RuleContext {
         self.depth = depth;
     }
 
+    /// Body of the custom function `id`, if it accepts `arity` arguments.
+    pub fn custom_body(&self, id: u64, arity: usize) -> Option<&BodyFn> {
+        self.custom_bodies
+            .get(&id)
+            .filter(|func| func.accepts_arity(arity))
+            .and_then(|func| func.body.as_ref())
+    }
+
     /// Sets the custom function bodies for this context.
-    pub fn with_custom_bodies(mut self, custom_bodies: HashMap<u64, BodyFn>) -> Self {
+    pub fn with_custom_bodies(mut self, custom_bodies: HashMap<u64, UserFunction>) -> Self {
         self.custom_bodies = Arc::new(custom_bodies);
         self
     }
diff --git a/src/simplification/rules/numeric/mod.rs b/src/simplification/rules/numeric/mod.rs
index 75056cd..ddc3239 100644
--- a/src/simplification/rules/numeric/mod.rs
+++ b/src/simplification/rules/numeric/mod.rs
@@ -558,7 +558,7 @@ rule!(
                     numeric_args.push(*n);
                 } else {
                     // Not all numeric - check if we have a body to expand symbolically
-                    if let Some(body_fn) = context.custom_bodies.get(&name.id()) {
+                    if let Some(body_fn) = context.custom_body(name.id(), args.len()) {
                         // Expand the function body with the given arguments
                         return Some(body_fn(args));
                     }
@@ -586,7 +586,7 @@ rule!(
             }
 
             // Fallback: check custom_bodies in context and expand symbolically
-            if let Some(body_fn) = context.custom_bodies.get(&name.id()) {
+            if let Some(body_fn) = context.custom_body(name.id(), args.len()) {
                 // Expand the function body with the given arguments
                 return Some(body_fn(args));
             }
-- 
2.43.0


From 5a4ff27354f085b40d2ffa97261dc3a8e7505afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:52 +0000
Subject: [PATCH 14/21] fix: differentiation identifies its variable by symbol,
 not by name

---
 src/api/builder.rs | 19 +++++++++++++++---
 src/api/helpers.rs | 49 +++++++++++++++++++---------------------------
 src/core/poly.rs   |  9 +++++----
 src/diff/engine.rs | 25 ++++++++++++++---------
 4 files changed, 57 insertions(+), 45 deletions(-)

diff --git a/src/api/builder.rs b/src/api/builder.rs
index f1bf72d..a65cc9c 100644
--- a/src/api/builder.rs
+++ b/src/api/builder.rs
@@ -16,6 +16,7 @@
 //! assert!(!format!("{}", derivative).is_empty());
 //! ```
 
+use crate::core::symbol::{InternedSymbol, lookup_by_id, symb_interned};
 use crate::core::unified_context::{Context, UserFunction};
 use crate::evaluator::ToParamName;
 use crate::{DiffError, Expr, Symbol, parser, simplification};
@@ -124,8 +125,10 @@ impl Diff {
     /// - Expression depth exceeds `max_depth`
     /// - Expression node count exceeds `max_nodes`
     pub fn differentiate(&self, expr: &Expr, var: &Symbol) -> Result<Expr, DiffError> {
-        let var_name = var.name().unwrap_or_default();
-        self.differentiate_by_name(expr, &var_name)
+        let (id, name) = var.to_param_id_and_name();
+        let interned = lookup_by_id(id)
+            .unwrap_or_else(|| InternedSymbol::new_anon_with_key(var.key()));
+        self.differentiate_by_symbol(expr, &interned, &name)
     }
 
     /// Get custom function names for parsing
@@ -167,6 +170,16 @@ impl Diff {
 
     /// Differentiates an expression with respect to a variable by name.
     pub(crate) fn differentiate_by_name(&self, expr: &Expr, var: &str) -> Result<Expr, DiffError> {
+        self.differentiate_by_symbol(expr, &symb_interned(var), var)
+    }
+
+    /// Differentiates an expression with respect to a symbol, identified by its ID.
+    fn differentiate_by_symbol(
+        &self,
+        expr: &Expr,
+        symbol: &InternedSymbol,
+        var: &str,
+    ) -> Result<Expr, DiffError> {
         if self.known_symbols.contains(var) {
             return Err(DiffError::VariableInBothFixedAndDiff {
                 var: var.to_owned(),
@@ -185,7 +198,7 @@ impl Diff {
         }
 
         let context = self.build_context();
-        let derivative = expr.derive(var, Some(&context));
+        let derivative = expr.derive_by_symbol(symbol, &context);
 
         if self.skip_simplification {
             return Ok(derivative);
diff --git a/src/api/helpers.rs b/src/api/helpers.rs
index 0601b7b..53f457d 100644
--- a/src/api/helpers.rs
+++ b/src/api/helpers.rs
@@ -14,43 +14,37 @@ fn empty_context() -> (HashSet<String>, HashSet<String>) {
     (HashSet::new(), HashSet::new())
 }
 
-/// Helper to extract variable names from Symbol slices
+/// Helper to look up the symbols of variable names
 #[inline]
-fn extract_var_names(vars: &[&Symbol]) -> Vec<String> {
-    vars.iter().filter_map(|s| s.name()).collect()
+fn symbols_from_names(vars: &[&str]) -> Vec<Symbol> {
+    vars.iter().map(|name| crate::symb(name)).collect()
 }
 
-/// Helper to convert variable names to &str slices
-#[inline]
-fn var_names_to_str_refs(var_names: &[String]) -> Vec<&str> {
-    var_names.iter().map(std::string::String::as_str).collect()
-}
-
-/// Internal gradient implementation using &str variable names
+/// Internal gradient implementation
 /// This is the core implementation - public APIs wrap this
-fn gradient_internal(expr: &Expr, vars: &[&str]) -> Result<Vec<Expr>, DiffError> {
+fn gradient_internal(expr: &Expr, vars: &[&Symbol]) -> Result<Vec<Expr>, DiffError> {
     let diff = Diff::new();
     vars.iter()
-        .map(|var| diff.differentiate_by_name(expr, var))
+        .map(|var| diff.differentiate(expr, var))
         .collect()
 }
 
-/// Internal hessian implementation using &str variable names
-fn hessian_internal(expr: &Expr, vars: &[&str]) -> Result<Vec<Vec<Expr>>, DiffError> {
+/// Internal hessian implementation
+fn hessian_internal(expr: &Expr, vars: &[&Symbol]) -> Result<Vec<Vec<Expr>>, DiffError> {
     let diff = Diff::new();
     let grad = gradient_internal(expr, vars)?;
 
     grad.iter()
         .map(|partial| {
             vars.iter()
-                .map(|var| diff.differentiate_by_name(partial, var))
+                .map(|var| diff.differentiate(partial, var))
                 .collect::<Result<Vec<_>, _>>()
         })
         .collect()
 }
 
-/// Internal jacobian implementation using &str variable names
-fn jacobian_internal(exprs: &[Expr], vars: &[&str]) -> Result<Vec<Vec<Expr>>, DiffError> {
+/// Internal jacobian implementation
+fn jacobian_internal(exprs: &[Expr], vars: &[&Symbol]) -> Result<Vec<Vec<Expr>>, DiffError> {
     exprs
         .iter()
         .map(|expr| gradient_internal(expr, vars))
@@ -75,9 +69,7 @@ fn jacobian_internal(exprs: &[Expr], vars: &[&str]) -> Result<Vec<Vec<Expr>>, Di
 /// # Errors
 /// Returns `DiffError` if differentiation fails for any variable.
 pub fn gradient(expr: &Expr, vars: &[&Symbol]) -> Result<Vec<Expr>, DiffError> {
-    let var_names = extract_var_names(vars);
-    let var_refs = var_names_to_str_refs(&var_names);
-    gradient_internal(expr, &var_refs)
+    gradient_internal(expr, vars)
 }
 
 /// Compute the Hessian matrix of an expression
@@ -98,9 +90,7 @@ pub fn gradient(expr: &Expr, vars: &[&Symbol]) -> Result<Vec<Expr>, DiffError> {
 /// # Errors
 /// Returns `DiffError` if any second partial derivative fails.
 pub fn hessian(expr: &Expr, vars: &[&Symbol]) -> Result<Vec<Vec<Expr>>, DiffError> {
-    let var_names = extract_var_names(vars);
-    let var_refs = var_names_to_str_refs(&var_names);
-    hessian_internal(expr, &var_refs)
+    hessian_internal(expr, vars)
 }
 
 /// Compute the Jacobian matrix of a vector of expressions
@@ -121,9 +111,7 @@ pub fn hessian(expr: &Expr, vars: &[&Symbol]) -> Result<Vec<Vec<Expr>>, DiffErro
 /// # Errors
 /// Returns `DiffError` if any partial derivative fails.
 pub fn jacobian(exprs: &[Expr], vars: &[&Symbol]) -> Result<Vec<Vec<Expr>>, DiffError> {
-    let var_names: Vec<String> = vars.iter().filter_map(|s| s.name()).collect();
-    let var_refs: Vec<&str> = var_names.iter().map(std::string::String::as_str).collect();
-    jacobian_internal(exprs, &var_refs)
+    jacobian_internal(exprs, vars)
 }
 
 // ===== String-based API =====
@@ -153,7 +141,8 @@ fn parse_formula(formula: &str) -> Result<Expr, DiffError> {
 /// Returns `DiffError` if parsing or differentiation fails.
 pub fn gradient_str(formula: &str, vars: &[&str]) -> Result<Vec<String>, DiffError> {
     let expr = parse_formula(formula)?;
-    let grad = gradient_internal(&expr, vars)?;
+    let symbols = symbols_from_names(vars);
+    let grad = gradient_internal(&expr, &symbols.iter().collect::<Vec<_>>())?;
     Ok(grad.iter().map(std::string::ToString::to_string).collect())
 }
 
@@ -174,7 +163,8 @@ pub fn gradient_str(formula: &str, vars: &[&str]) -> Result<Vec<String>, DiffErr
 /// Returns `DiffError` if parsing or differentiation fails.
 pub fn hessian_str(formula: &str, vars: &[&str]) -> Result<Vec<Vec<String>>, DiffError> {
     let expr = parse_formula(formula)?;
-    let hess = hessian_internal(&expr, vars)?;
+    let symbols = symbols_from_names(vars);
+    let hess = hessian_internal(&expr, &symbols.iter().collect::<Vec<_>>())?;
     Ok(hess
         .iter()
         .map(|row| row.iter().map(std::string::ToString::to_string).collect())
@@ -208,7 +198,8 @@ fn parse_formulas(formulas: &[&str]) -> Result<Vec<Expr>, DiffError> {
 /// Returns `DiffError` if parsing or differentiation fails.
 pub fn jacobian_str(formulas: &[&str], vars: &[&str]) -> Result<Vec<Vec<String>>, DiffError> {
     let exprs = parse_formulas(formulas)?;
-    let jac = jacobian_internal(&exprs, vars)?;
+    let symbols = symbols_from_names(vars);
+    let jac = jacobian_internal(&exprs, &symbols.iter().collect::<Vec<_>>())?;
     Ok(jac
         .iter()
         .map(|row| row.iter().map(std::string::ToString::to_string).collect())
diff --git a/src/core/poly.rs b/src/core/poly.rs
index bd729d3..f3c5dbc 100644
--- a/src/core/poly.rs
+++ b/src/core/poly.rs
@@ -641,15 +641,16 @@ impl Polynomial {
     }
 
     /// Differentiate with respect to a variable (chain rule)
-    pub fn derivative_expr(&self, diff_var: &str) -> Expr {
+    /// `derive` differentiates the base with respect to the variable with ID `var_id`.
+    pub fn derivative_expr(&self, derive: impl Fn(&Expr) -> Expr, var_id: u64) -> Expr {
         // Get polynomial derivative
         let poly_deriv = self.derivative();
         let poly_expr = poly_deriv.to_expr();
 
         // Check if base contains the differentiation variable
-        if self.base.contains_var(diff_var) {
+        if self.base.contains_var_id(var_id) {
             // Chain rule: d/dx[P(u)] = P'(u) * u'
-            let u_prime = self.base.derive_raw(diff_var);
+            let u_prime = derive(&self.base);
 
             if u_prime.is_zero_num() {
                 Expr::number(0.0)
@@ -659,7 +660,7 @@ impl Polynomial {
                 Expr::product(vec![poly_expr, u_prime])
             }
         } else {
-            // Base doesn't contain diff_var, derivative is 0
+            // Base doesn't contain the variable, derivative is 0
             Expr::number(0.0)
         }
     }
diff --git a/src/diff/engine.rs b/src/diff/engine.rs
index 532a62c..97cd0ae 100644
--- a/src/diff/engine.rs
+++ b/src/diff/engine.rs
@@ -16,6 +16,7 @@
 //! The simplification engine then handles any remaining optimization opportunities.
 
 use crate::core::known_symbols as ks;
+use crate::core::symbol::InternedSymbol;
 use crate::core::unified_context::Context;
 use crate::{Expr, ExprKind};
 use std::sync::Arc;
@@ -54,9 +55,13 @@ impl Expr {
         let ctx = context.unwrap_or_else(|| EMPTY_CONTEXT.get_or_init(Context::new));
 
         // Intern the var name ONCE for O(1) UID comparisons throughout recursion
-        let var_id = crate::core::symbol::symb_interned(var).id();
+        self.derive_by_symbol(&crate::core::symbol::symb_interned(var), ctx)
+    }
 
-        self.derive_impl(var, var_id, ctx)
+    /// Differentiate with respect to a symbol, identified by its ID rather than its name
+    /// (anonymous symbols and symbols isolated in a `Context` cannot be found by name).
+    pub(crate) fn derive_by_symbol(&self, var: &InternedSymbol, ctx: &Context) -> Self {
+        self.derive_impl(var, var.id(), ctx)
     }
 
     /// Inner recursive implementation that carries pre-computed `var_id`
@@ -65,7 +70,7 @@ impl Expr {
         clippy::too_many_lines,
         reason = "Comprehensive differentiation logic handles many expression types"
     )]
-    fn derive_impl(&self, var: &str, var_id: u64, ctx: &Context) -> Self {
+    fn derive_impl(&self, var: &InternedSymbol, var_id: u64, ctx: &Context) -> Self {
         match &self.kind {
             // Base cases
             ExprKind::Number(_) => Self::number(0.0),
@@ -318,8 +323,8 @@ impl Expr {
             // - 1^x: case 2, ln(1)=0 creates 0 term, simplifier handles ✓
             // - x^0: n_minus_1 becomes -1, but final term is 0*u^(-1)*u'=0 via simplifier ✓
             ExprKind::Pow(u, v) => {
-                let u_contains_var = u.contains_var(var);
-                let v_contains_var = v.contains_var(var);
+                let u_contains_var = u.contains_var_id(var_id);
+                let v_contains_var = v.contains_var_id(var_id);
 
                 if !u_contains_var && !v_contains_var {
                     // Both constant
@@ -420,23 +425,25 @@ impl Expr {
             } => {
                 if deriv_var.id() == var_id {
                     Self::derivative_interned(inner.as_ref().clone(), deriv_var.clone(), order + 1)
-                } else if !inner.contains_var(var) {
+                } else if !inner.contains_var_id(var_id) {
                     Self::number(0.0)
                 } else {
-                    Self::derivative(
+                    Self::derivative_interned(
                         Self::new(ExprKind::Derivative {
                             inner: Arc::clone(inner),
                             var: deriv_var.clone(),
                             order: *order,
                         }),
-                        var,
+                        var.clone(),
                         1,
                     )
                 }
             }
 
             // Polynomial
-            ExprKind::Poly(poly) => poly.derivative_expr(var),
+            ExprKind::Poly(poly) => {
+                poly.derivative_expr(|base| base.derive_impl(var, var_id, ctx), var_id)
+            }
         }
     }
 
-- 
2.43.0


From 677703d70350ee4c6a4959150ca27ebe91c7fdbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:38 +0000
Subject: [PATCH 15/21] fix: automatic compilation finds anonymous and context
 symbols

---
 src/evaluator/mod.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/evaluator/mod.rs b/src/evaluator/mod.rs
index 0e4939d..375ae71 100644
--- a/src/evaluator/mod.rs
+++ b/src/evaluator/mod.rs
@@ -282,15 +282,26 @@ impl CompiledEvaluator {
     ///
     /// Returns `DiffError` if compilation fails.
     pub fn compile_auto(expr: &Expr, context: Option<&Context>) -> Result<Self, DiffError> {
-        let vars = expr.variables();
-        let mut param_order: Vec<String> = vars
+        // Symbols are collected by ID: anonymous and context symbols cannot be found by name
+        let symbols = expr.fold(std::collections::HashSet::new(), |mut ids, node| {
+            match &node.kind {
+                ExprKind::Symbol(s) | ExprKind::Derivative { var: s, .. } => {
+                    ids.insert(s.id());
+                }
+                _ => {}
+            }
+            ids
+        });
+        let mut param_order: Vec<Symbol> = symbols
             .into_iter()
-            .filter(|v| {
-                let id = crate::core::symbol::symb_interned(v.as_str()).id();
-                !crate::core::known_symbols::is_known_constant_by_id(id)
-            })
+            .filter(|&id| !crate::core::known_symbols::is_known_constant_by_id(id))
+            .map(Symbol::from_id)
             .collect();
-        param_order.sort(); // Consistent ordering
+        // Consistent ordering
+        param_order.sort_by_cached_key(|s| {
+            let (id, name) = s.to_param_id_and_name();
+            (name, id)
+        });
 
         Self::compile(expr, &param_order, context)
     }
-- 
2.43.0


From b9b10eccae42681fc9e880a5b121f40c55833df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:15 +0000
Subject: [PATCH 16/21] fix: text left over after an expression is an error,
 error spans refer to the input

---
 src/core/error.rs   | 10 ++++++++++
 src/parser/lexer.rs |  7 ++++---
 src/parser/mod.rs   |  7 ++++++-
 src/parser/pratt.rs | 11 ++++++++++-
 4 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/src/core/error.rs b/src/core/error.rs
index af9a117..dcccaec 100644
--- a/src/core/error.rs
+++ b/src/core/error.rs
@@ -208,6 +208,16 @@ pub enum DiffError {
 }
 
 impl DiffError {
+    /// Move the span of a lexing error `by` bytes towards the start of the text
+    pub(crate) fn shift_span_back(mut self, by: usize) -> Self {
+        if let Self::InvalidNumber { span: Some(s), .. } | Self::InvalidToken { span: Some(s), .. } =
+            &mut self
+        {
+            *s = Span::new(s.start.saturating_sub(by), s.end.saturating_sub(by));
+        }
+        self
+    }
+
     // Convenience constructors for backward compatibility
 
     /// Create `InvalidSyntax` without span (backward compatible)
diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 3cf4062..507082e 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -438,10 +438,11 @@ fn scan_characters(input: &str) -> Result<Vec<RawToken<'_>>, DiffError> {
             }
 
             _ => {
-                // For invalid tokens, include position information
+                // For invalid tokens, include position information (of the whole character)
+                let bad = input.get(pos..).and_then(|s| s.chars().next()).unwrap_or(ch);
                 return Err(DiffError::InvalidToken {
-                    token: ch.to_string(),
-                    span: Some(crate::Span::new(pos, pos + 1)),
+                    token: bad.to_string(),
+                    span: Some(crate::Span::new(pos, pos + bad.len_utf8())),
                 });
             }
         }
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 4b6129f..c9167d4 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -85,8 +85,13 @@ pub fn parse<S: std::hash::BuildHasher + Clone>(
     // Step 2: Balance parentheses
     let balanced = lexer::balance_parentheses(input);
 
+    // Balancing may put parentheses in front of the input; spans refer to the input itself
+    let leading = |s: &str| s.bytes().take_while(|&b| b == b'(').count();
+    let prefix = leading(&balanced) - leading(input);
+
     // Step 3: Lexing (two-pass)
-    let tokens = lexer::lex(&balanced, symbols_ref, functions_ref)?;
+    let tokens = lexer::lex(&balanced, symbols_ref, functions_ref)
+        .map_err(|e| e.shift_span_back(prefix))?;
 
     // Step 4: Insert implicit multiplication
     let tokens_with_mul = implicit_mul::insert_implicit_multiplication(tokens, functions_ref);
diff --git a/src/parser/pratt.rs b/src/parser/pratt.rs
index ff2acc7..aa7f7fe 100644
--- a/src/parser/pratt.rs
+++ b/src/parser/pratt.rs
@@ -24,7 +24,16 @@ pub fn parse_expression(
         context,
     };
 
-    parser.parse_expr(0)
+    let expr = parser.parse_expr(0)?;
+
+    // Everything must have been read: a leftover token is an error, not ignored
+    parser.current().map_or(Ok(expr), |rest| {
+        Err(DiffError::UnexpectedToken {
+            expected: "operator or end of input".to_owned(),
+            got: rest.to_user_string(),
+            span: None,
+        })
+    })
 }
 
 /// Pratt parser for expressions
-- 
2.43.0


From c8e2ef83db588b87b981b45fe95b092232bfb4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:33 +0000
Subject: [PATCH 17/21] fix: derivative notation is read up to its end, names
 may contain underscores

---
 src/core/error.rs   |   4 +-
 src/parser/lexer.rs | 250 +++++++++++++++++---------------------------
 src/parser/mod.rs   |   4 +-
 3 files changed, 101 insertions(+), 157 deletions(-)

diff --git a/src/core/error.rs b/src/core/error.rs
index dcccaec..98e7517 100644
--- a/src/core/error.rs
+++ b/src/core/error.rs
@@ -210,8 +210,8 @@ pub enum DiffError {
 impl DiffError {
     /// Move the span of a lexing error `by` bytes towards the start of the text
     pub(crate) fn shift_span_back(mut self, by: usize) -> Self {
-        if let Self::InvalidNumber { span: Some(s), .. } | Self::InvalidToken { span: Some(s), .. } =
-            &mut self
+        if let Self::InvalidNumber { span: Some(s), .. }
+        | Self::InvalidToken { span: Some(s), .. } = &mut self
         {
             *s = Span::new(s.start.saturating_sub(by), s.end.saturating_sub(by));
         }
diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 507082e..c412da4 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -207,90 +207,79 @@ enum RawToken<'src> {
     Comma,
 }
 
+/// Derivative notation split into its parts: `∂^order_func(args)/∂_var^order`
+struct DerivativeParts<'src> {
+    /// Order written after the first ∂
+    order: Option<&'src str>,
+    /// Function name
+    func: &'src str,
+    /// Text between the parentheses, if there are any
+    args: Option<&'src str>,
+    /// Variable of differentiation
+    var: &'src str,
+    /// Order written after the variable
+    var_order: Option<&'src str>,
+    /// Number of bytes of the whole notation
+    len: usize,
+}
+
+/// Split derivative notation at the start of `input`; what follows it is not part of it
+fn split_derivative(input: &str) -> Option<DerivativeParts<'_>> {
+    fn order(rest: &str) -> (Option<&str>, &str) {
+        let Some(r) = rest.strip_prefix('^') else {
+            return (None, rest);
+        };
+        let (digits, tail) =
+            r.split_at(r.len() - r.trim_start_matches(|c: char| c.is_ascii_digit()).len());
+        if digits.is_empty() {
+            (None, rest)
+        } else {
+            (Some(digits), tail)
+        }
+    }
+    fn name(rest: &str) -> Option<(&str, &str)> {
+        let n = rest.len() - rest.trim_start_matches(is_identifier_continue).len();
+        (n > 0).then(|| rest.split_at(n))
+    }
+
+    let rest = input.strip_prefix('\u{2202}')?;
+    let (left_order, rest) = order(rest);
+    let (func, rest) = name(rest.strip_prefix('_')?)?;
+    let (args, rest) = if rest.starts_with('(') {
+        let mut depth = 0_usize;
+        let close = rest.char_indices().find_map(|(i, c)| {
+            match c {
+                '(' => depth += 1,
+                ')' => depth -= 1,
+                _ => {}
+            }
+            (depth == 0).then_some(i)
+        })?;
+        (rest.get(1..close), rest.get(close + 1..)?)
+    } else {
+        (None, rest)
+    };
+    let (var, rest) = name(rest.strip_prefix("/\u{2202}_")?)?;
+    let (var_order, rest) = order(rest);
+    Some(DerivativeParts {
+        order: left_order,
+        func,
+        args,
+        var,
+        var_order,
+        len: input.len() - rest.len(),
+    })
+}
+
 /// Helper: Scan derivative notation (∂...) with balanced parentheses
 /// Returns the complete derivative string (including the leading ∂)
 ///
 /// This handles complex derivative notation like: ∂_f(x+y)/∂_x
 /// by tracking parenthesis depth to ensure balanced expressions.
-#[allow(
-    clippy::string_slice,
-    reason = "Slicing is safe because len is calculated from utf8 lengths"
-)]
 fn scan_derivative_notation(input: &str) -> Result<&str, DiffError> {
-    let mut chars = input.chars().peekable();
-    let mut len = 0;
-    let mut depth = 0;
-
-    // chars is already positioned at start of input. Check for ∂
-    if chars.peek() == Some(&'\u{2202}') {
-        let c = chars.next().expect("Checked peek");
-        len += c.len_utf8();
-    } else {
-        // This function expects to be called when ∂ is detected
-        // but we handle the case where it's not starting with it if needed,
-        // though the caller (lexer) checks it.
-    }
-
-    while let Some(&next_c) = chars.peek() {
-        // Decision logic based on CURRENT depth
-        let accept = if depth > 0 {
-            // Inside parens, accept everything except unmatched closing
-            true
-        } else {
-            // Top level: accept specific chars for derivative notation
-            next_c.is_alphanumeric()
-                || next_c == '_'
-                || next_c == '\u{2202}'
-                || next_c == '^'
-                || next_c == '/'
-                || next_c == '('
-                || next_c == ')'
-                || next_c == ','
-        };
-
-        if !accept {
-            break;
-        }
-
-        chars.next(); // Consume
-        len += next_c.len_utf8();
-
-        // Update depth AFTER consuming
-        match next_c {
-            '(' => depth += 1,
-            ')' => {
-                if depth > 0 {
-                    depth -= 1;
-                } else {
-                    // Unmatched closing paren at top level - stop here
-                    // This logic mirrors the original: break on unmatched closing paren
-                    // However, we consumed it.
-                    // "Unmatched closing paren at top level - stop here"
-                    // Original code:
-                    // seq.push(next_c); chars.next();
-                    // if depth > 0 { depth -= 1 } else { break }
-                    // So it INCLUDED the closing paren in seq, then broke loop.
-                    // Wait, if depth == 0, break.
-                    // So ")(x" -> seq includes ")".
-                    // But then it breaks.
-                    // Let's verify original behavior.
-                    break;
-                }
-            }
-            _ => {}
-        }
-    }
-
-    let seq = &input[..len];
-
-    // Basic validation: derivative notation should contain more than just '∂'
-    if seq.len() <= '\u{2202}'.len_utf8() {
-        return Err(DiffError::invalid_token(format!(
-            "Incomplete derivative notation: {seq}"
-        )));
-    }
-
-    Ok(seq)
+    split_derivative(input)
+        .and_then(|parts| input.get(..parts.len))
+        .ok_or_else(|| DiffError::invalid_token(format!("Incomplete derivative notation: {input}")))
 }
 
 /// Pass 1: Scan characters and create raw tokens
@@ -439,7 +428,10 @@ fn scan_characters(input: &str) -> Result<Vec<RawToken<'_>>, DiffError> {
 
             _ => {
                 // For invalid tokens, include position information (of the whole character)
-                let bad = input.get(pos..).and_then(|s| s.chars().next()).unwrap_or(ch);
+                let bad = input
+                    .get(pos..)
+                    .and_then(|s| s.chars().next())
+                    .unwrap_or(ch);
                 return Err(DiffError::InvalidToken {
                     token: bad.to_string(),
                     span: Some(crate::Span::new(pos, pos + bad.len_utf8())),
@@ -655,51 +647,29 @@ fn parse_derivative_notation<'src, S: std::hash::BuildHasher>(
     custom_functions: &HashSet<String, S>,
 ) -> Result<Token<'src>, DiffError> {
     // Format: ∂^order_func(args)/∂_var^order
-    if !s.starts_with("\u{2202}") || !s.contains("/\u{2202}_") {
+    let Some(parts) = split_derivative(s).filter(|parts| parts.len == s.len()) else {
         return Err(DiffError::invalid_token(format!(
-            "Invalid derivative notation '{s}': must start with '\u{2202}' and contain '/\u{2202}_'"
+            "Invalid derivative notation '{s}': expected '\u{2202}^order_func(args)/\u{2202}_var^order'"
         )));
-    }
-
-    let parts: Vec<&str> = s.split("/\u{2202}_").collect();
-    if parts.len() != 2 {
-        return Err(DiffError::invalid_token(format!(
-            "Invalid derivative notation '{}': expected exactly one '/\u{2202}_' separator, found {}",
-            s,
-            parts.len() - 1
-        )));
-    }
-
-    let left = parts[0]; // ∂^order_func(args) or ∂_func(args)
-    let right = parts[1]; // var^order or var
+    };
 
-    // Parse left side
-    let left_parts: Vec<&str> = left.split('_').collect();
-    if left_parts.len() < 2 {
+    // The order defaults to 1; when both sides state it, they must agree
+    let parse_order = |text: &str| {
+        text.parse::<u32>().map_err(|_e| {
+            DiffError::invalid_token(format!(
+                "Invalid derivative notation '{s}': order '{text}' is not a valid number"
+            ))
+        })
+    };
+    let order = parts.order.map_or(Ok(1), parse_order)?;
+    if let Some(var_order) = parts.var_order
+        && parse_order(var_order)? != order
+    {
         return Err(DiffError::invalid_token(format!(
-            "Invalid derivative notation '{s}': left side must contain underscore separator"
+            "Invalid derivative notation '{s}': the orders on the two sides differ"
         )));
     }
 
-    // Parse order from left (defaults to 1 if not specified)
-    // e.g., "∂^n" -> n, "∂" -> 1
-    // Note: '∂' is 3 bytes in UTF-8, '^' is 1 byte = 4 bytes total to skip
-    let order_str = if left_parts[0].starts_with("\u{2202}^") {
-        left_parts[0].get(4..).expect("Checked prefix boundaries")
-    } else if left_parts[0] == "\u{2202}" {
-        "1"
-    } else {
-        return Err(DiffError::invalid_token(format!(
-            "Invalid derivative notation '{s}': expected '\u{2202}' or '\u{2202}^order'"
-        )));
-    };
-
-    let order = order_str.parse::<u32>().map_err(|_e| {
-        DiffError::invalid_token(format!(
-            "Invalid derivative notation '{s}': order '{order_str}' is not a valid number"
-        ))
-    })?;
-
     // Safety check: prevent unreasonably high derivative orders
     if order > 100 {
         return Err(DiffError::invalid_token(format!(
@@ -707,51 +677,25 @@ fn parse_derivative_notation<'src, S: std::hash::BuildHasher>(
         )));
     }
 
-    // Parse function name and args
-    // left_parts[1] is "func(args)" or "func"
-    let func_str = left_parts[1];
-    let (func_name, args_tokens) = if let Some(open_paren) = func_str.find('(') {
-        if func_str.ends_with(')') {
-            let name = func_str.get(..open_paren).expect("Checked paren position");
-            // .to_owned(); // Changed to borrow
-            let args_body = func_str
-                .get(open_paren + 1..func_str.len() - 1)
-                .expect("Checked paren boundaries");
-
-            // Safety: prevent infinite recursion on malformed nested derivatives
-            // Check if we're about to recursively parse another derivative
-            if args_body.contains("\u{2202}") && args_body.contains("/\u{2202}_") {
-                // This is likely a nested derivative - limit recursion depth
-                // by ensuring the args don't contain another full derivative notation
-                let nested_depth = args_body.matches("/\u{2202}_").count();
-                if nested_depth > 3 {
-                    return Err(DiffError::invalid_token(format!(
-                        "Invalid derivative notation '{s}': nested derivative depth exceeds limit"
-                    )));
-                }
-            }
-
-            // Recursively lex the arguments
-            let tokens = lex(args_body, fixed_vars, custom_functions)?;
-            (name, tokens)
-        } else {
+    // Recursively lex the arguments
+    let args_tokens = if let Some(args_body) = parts.args {
+        // Safety: limit the recursion on nested derivatives
+        if args_body.matches("/\u{2202}_").count() > 3 {
             return Err(DiffError::invalid_token(format!(
-                "Invalid derivative notation '{s}': unmatched parentheses in function arguments"
+                "Invalid derivative notation '{s}': nested derivative depth exceeds limit"
             )));
         }
+        let tokens = lex(args_body, fixed_vars, custom_functions)?;
+        super::implicit_mul::insert_implicit_multiplication(tokens, custom_functions)
     } else {
-        (func_str, Vec::new())
+        Vec::new()
     };
 
-    // Parse right side: var^order or var
-    let right_parts: Vec<&str> = right.split('^').collect();
-    let var = right_parts[0]; //.to_owned();
-
     Ok(Token::Derivative {
         order,
-        func: Cow::Borrowed(func_name), //Borrow
+        func: Cow::Borrowed(parts.func),
         args: args_tokens,
-        var: Cow::Borrowed(var), // Borrow
+        var: Cow::Borrowed(parts.var),
     })
 }
 
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index c9167d4..09864e3 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -90,8 +90,8 @@ pub fn parse<S: std::hash::BuildHasher + Clone>(
     let prefix = leading(&balanced) - leading(input);
 
     // Step 3: Lexing (two-pass)
-    let tokens = lexer::lex(&balanced, symbols_ref, functions_ref)
-        .map_err(|e| e.shift_span_back(prefix))?;
+    let tokens =
+        lexer::lex(&balanced, symbols_ref, functions_ref).map_err(|e| e.shift_span_back(prefix))?;
 
     // Step 4: Insert implicit multiplication
     let tokens_with_mul = implicit_mul::insert_implicit_multiplication(tokens, functions_ref);
-- 
2.43.0


From 9f9dfc1c2b497cfed4606cffc8241c1b4a998f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 18/21] fix: printing of nested powers, double negatives and
 polynomials in LaTeX/Unicode

---
 src/core/display.rs | 72 +++++++++++++++++++++++++++++++++++++++++----
 src/core/poly.rs    |  7 ++++-
 2 files changed, 73 insertions(+), 6 deletions(-)

diff --git a/src/core/display.rs b/src/core/display.rs
index f33f6ee..43872c2 100644
--- a/src/core/display.rs
+++ b/src/core/display.rs
@@ -191,7 +191,13 @@ fn analyze_negative(expr: &Expr) -> NegativeExtraction<'_> {
 /// Helper for Power base parenthesis
 fn needs_parens_as_base(expr: &Expr) -> bool {
     match &expr.kind {
-        ExprKind::Sum(_) | ExprKind::Product(_) | ExprKind::Div(_, _) | ExprKind::Poly(_) => true,
+        ExprKind::Sum(_)
+        | ExprKind::Product(_)
+        | ExprKind::Div(_, _)
+        | ExprKind::Poly(_)
+        | ExprKind::Derivative { .. } => true,
+        // (x^a)^b is not x^(a^b); e^x is written as a function call except in LaTeX
+        ExprKind::Pow(_, _) => true,
         ExprKind::Number(n) => *n < 0.0, // Negative numbers need parens: (-1)^x not -1^x
         _ => false,
     }
@@ -433,6 +439,10 @@ fn format_product_expr(
                     write!(f, "{sep}")?;
                 }
                 format_negative_part(f, next_neg, mode, ParenContext::SumOrProduct, cache)?;
+                for fac in &factors[2..] {
+                    write!(f, "{sep}")?;
+                    format_wrapped(f, fac, mode, ParenContext::SumOrProduct, cache)?;
+                }
             }
         }
 
@@ -589,6 +599,58 @@ fn format_pow_expr(
     }
 }
 
+/// Polynomial formatting for LaTeX and Unicode (the standard form is `Polynomial`'s own `Display`)
+fn format_poly_expr(
+    f: &mut fmt::Formatter<'_>,
+    poly: &crate::core::poly::Polynomial,
+    mode: FormatMode,
+    cache: Option<&SymbolCache>,
+) -> fmt::Result {
+    if poly.terms().is_empty() {
+        return write!(f, "0");
+    }
+    let minus = match mode {
+        FormatMode::Standard | FormatMode::Latex => "-",
+        FormatMode::Unicode => "\u{2212}",
+    };
+    for (i, &(pow, coeff)) in poly.terms().iter().enumerate() {
+        match (i == 0, coeff < 0.0) {
+            (true, true) => write!(f, "{minus}")?,
+            (true, false) => {}
+            (false, true) => write!(f, " {minus} ")?,
+            (false, false) => write!(f, " + ")?,
+        }
+        let abs_coeff = coeff.abs();
+        if pow == 0 {
+            format_number_expr(f, abs_coeff, mode)?;
+            continue;
+        }
+        if (abs_coeff - 1.0).abs() >= EPSILON {
+            format_number_expr(f, abs_coeff, mode)?;
+            write!(
+                f,
+                "{}",
+                match mode {
+                    FormatMode::Unicode => "\u{b7}",
+                    FormatMode::Latex => r" \cdot ",
+                    FormatMode::Standard => "*",
+                }
+            )?;
+        }
+        if pow == 1 {
+            format_wrapped(f, poly.base(), mode, ParenContext::SumOrProduct, cache)?;
+        } else {
+            format_wrapped(f, poly.base(), mode, ParenContext::PowerBase, cache)?;
+            match mode {
+                FormatMode::Unicode => write!(f, "{}", num_to_superscript(f64::from(pow)))?,
+                FormatMode::Latex => write!(f, "^{{{pow}}}")?,
+                FormatMode::Standard => write!(f, "^{pow}")?,
+            }
+        }
+    }
+    Ok(())
+}
+
 /// Unified Function Call formatting
 #[allow(
     clippy::too_many_lines,
@@ -642,7 +704,7 @@ fn format_function_call_expr(
             "floor" if args.len() == 1 => {
                 return write!(
                     f,
-                    r"\lfloor{}\rfloor",
+                    r"\lfloor {} \rfloor",
                     LatexFormatter {
                         expr: &args[0],
                         cache
@@ -652,7 +714,7 @@ fn format_function_call_expr(
             "ceil" if args.len() == 1 => {
                 return write!(
                     f,
-                    r"\lceil{}\rceil",
+                    r"\lceil {} \rceil",
                     LatexFormatter {
                         expr: &args[0],
                         cache
@@ -1184,7 +1246,7 @@ fn format_latex(
         }
 
         // Poly: display inline in LaTeX
-        ExprKind::Poly(poly) => write!(f, "{poly}"),
+        ExprKind::Poly(poly) => format_poly_expr(f, poly, FormatMode::Latex, cache),
     }
 }
 
@@ -1286,7 +1348,7 @@ fn format_unicode(
         }
 
         // Poly: display inline in unicode
-        ExprKind::Poly(poly) => write!(f, "{poly}"),
+        ExprKind::Poly(poly) => format_poly_expr(f, poly, FormatMode::Unicode, cache),
     }
 }
 
diff --git a/src/core/poly.rs b/src/core/poly.rs
index f3c5dbc..a4cf08f 100644
--- a/src/core/poly.rs
+++ b/src/core/poly.rs
@@ -87,13 +87,18 @@ impl Polynomial {
                 | ExprKind::Div(_, _)
                 | ExprKind::Poly(_)
                 | ExprKind::Pow(_, _)
+                | ExprKind::Derivative { .. }
         ) || (matches!(self.base.kind, ExprKind::Number(n) if n < 0.0));
 
         if pow == 0 {
             write!(f, "{}", format_coeff(coeff))
         } else if (coeff - 1.0).abs() < EPSILON {
             if pow == 1 {
-                write!(f, "{}", self.base)
+                if matches!(self.base.kind, ExprKind::Sum(_) | ExprKind::Poly(_)) {
+                    write!(f, "({})", self.base)
+                } else {
+                    write!(f, "{}", self.base)
+                }
             } else if needs_parens_pow {
                 write!(f, "({})^{}", self.base, pow)
             } else {
-- 
2.43.0


From b734c0501bf58cee6a96700581b079a14e93cac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:30 +0000
Subject: [PATCH 19/21] fix: order, variable and operand of derivatives in
 LaTeX and Unicode

---
 src/core/display.rs | 39 +++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/src/core/display.rs b/src/core/display.rs
index 43872c2..951f5c6 100644
--- a/src/core/display.rs
+++ b/src/core/display.rs
@@ -1226,23 +1226,26 @@ fn format_latex(
         ExprKind::Pow(u, v) => format_pow_expr(f, u, v, FormatMode::Latex, cache),
 
         ExprKind::Derivative { inner, var, order } => {
-            if *order == 1 {
-                write!(
-                    f,
-                    r"\frac{{\partial {}}}{{\partial {}}}",
-                    LatexFormatter { expr: inner, cache },
-                    var
-                )
-            } else {
-                write!(
-                    f,
-                    r"\frac{{\partial^{} {}}}{{\partial {}^{}}}",
-                    order,
-                    LatexFormatter { expr: inner, cache },
-                    var,
-                    order
-                )
-            }
+            let var = greek_to_latex(var.as_str()).unwrap_or(var.as_str());
+            // A superscript of more than one digit needs braces
+            let order = match *order {
+                1 => String::new(),
+                n if n < 10 => format!("^{n}"),
+                n => format!("^{{{n}}}"),
+            };
+            // The operator applies to the whole inner expression
+            let (open, close) = match &inner.kind {
+                ExprKind::Sum(_) | ExprKind::Product(_) | ExprKind::Poly(_) => {
+                    (r"\left(", r"\right)")
+                }
+                ExprKind::Number(n) if *n < 0.0 => (r"\left(", r"\right)"),
+                _ => ("", ""),
+            };
+            write!(
+                f,
+                r"\frac{{\partial{order} {open}{}{close}}}{{\partial {var}{order}}}",
+                LatexFormatter { expr: inner, cache },
+            )
         }
 
         // Poly: display inline in LaTeX
@@ -1342,7 +1345,7 @@ fn format_unicode(
                 "\u{2202}{}({})/\u{2202}{}{}",
                 sup,
                 UnicodeFormatter { expr: inner, cache },
-                var,
+                greek_to_unicode(var.as_str()).unwrap_or(var.as_str()),
                 sup
             )
         }
-- 
2.43.0


From 602951747902d793db2d3d986617dfb8f7059e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:18 +0000
Subject: [PATCH 20/21] fix: a SIMD buffer supplied to eval_batch is grown to
 the stack size it needs

---
 src/evaluator/simd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evaluator/simd.rs b/src/evaluator/simd.rs
index 5a29308..48f1175 100644
--- a/src/evaluator/simd.rs
+++ b/src/evaluator/simd.rs
@@ -141,7 +141,7 @@ impl CompiledEvaluator {
         )]
         let simd_stack_buf: &mut Vec<f64x4> = match simd_buffer {
             Some(buf) => {
-                buf.reserve(self.stack_size.saturating_sub(buf.capacity()));
+                buf.reserve(self.stack_size.saturating_sub(buf.len()));
                 buf
             }
             None => {
-- 
2.43.0


From 4cd23877cc56211f39cec671a3413bc844112e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:32 +0000
Subject: [PATCH 21/21] fix: polynomials of one base are ordered by their terms

---
 src/core/expr/ordering.rs | 58 +++++++++++++++++++++++++++++----------
 1 file changed, 43 insertions(+), 15 deletions(-)

diff --git a/src/core/expr/ordering.rs b/src/core/expr/ordering.rs
index 28dca91..4742185 100644
--- a/src/core/expr/ordering.rs
+++ b/src/core/expr/ordering.rs
@@ -5,6 +5,7 @@
 use std::cmp::Ordering as CmpOrdering;
 
 use super::{EXPR_ONE, Expr, ExprKind};
+use crate::core::poly::Polynomial;
 
 /// Compare expressions for canonical ordering.
 /// Order: Numbers < Symbols (by power) < Sum < `FunctionCall` < Pow < Div
@@ -44,7 +45,47 @@ pub fn expr_cmp(a: &Expr, b: &Expr) -> CmpOrdering {
     let coeff_a = get_coeff(a);
     let coeff_b = get_coeff(b);
 
-    coeff_a.partial_cmp(&coeff_b).unwrap_or(CmpOrdering::Equal)
+    coeff_a
+        .partial_cmp(&coeff_b)
+        .unwrap_or(CmpOrdering::Equal)
+        // A polynomial is sorted by its base alone so far: `x`, `1 + x` and `1 + x^2` would tie
+        .then_with(|| match (get_poly(a), get_poly(b)) {
+            (None, None) => CmpOrdering::Equal,
+            (None, Some(_)) => CmpOrdering::Less,
+            (Some(_), None) => CmpOrdering::Greater,
+            (Some(p), Some(q)) => poly_terms_cmp(p, q),
+        })
+}
+
+// Helper to get the polynomial of an expression, with or without a coefficient.
+#[inline]
+/// Get the polynomial that an expression consists of
+fn get_poly(e: &Expr) -> Option<&Polynomial> {
+    match &e.kind {
+        ExprKind::Product(factors)
+            if factors.len() == 2 && matches!(&factors[0].kind, ExprKind::Number(_)) =>
+        {
+            get_poly(&factors[1])
+        }
+        ExprKind::Poly(p) => Some(p),
+        _ => None,
+    }
+}
+
+/// Compare the terms of two polynomials of the same base
+fn poly_terms_cmp(p1: &Polynomial, p2: &Polynomial) -> CmpOrdering {
+    p1.terms().len().cmp(&p2.terms().len()).then_with(|| {
+        for (t1, t2) in p1.terms().iter().zip(p2.terms().iter()) {
+            let c = t1
+                .0
+                .cmp(&t2.0)
+                .then_with(|| t1.1.partial_cmp(&t2.1).unwrap_or(CmpOrdering::Equal));
+            if c != CmpOrdering::Equal {
+                return c;
+            }
+        }
+        CmpOrdering::Equal
+    })
 }
 
 // Helper to get the sorting "base" of an expression.
@@ -181,20 +222,7 @@ pub fn expr_cmp_type_strict(a: &Expr, b: &Expr) -> CmpOrdering {
             .then_with(|| expr_cmp(i1, i2)),
 
         (ExprKind::Poly(p1), ExprKind::Poly(p2)) => {
-            expr_cmp(p1.base(), p2.base()).then_with(|| {
-                p1.terms().len().cmp(&p2.terms().len()).then_with(|| {
-                    for (t1, t2) in p1.terms().iter().zip(p2.terms().iter()) {
-                        let c = t1
-                            .0
-                            .cmp(&t2.0)
-                            .then_with(|| t1.1.partial_cmp(&t2.1).unwrap_or(CmpOrdering::Equal));
-                        if c != CmpOrdering::Equal {
-                            return c;
-                        }
-                    }
-                    CmpOrdering::Equal
-                })
-            })
+            expr_cmp(p1.base(), p2.base()).then_with(|| poly_terms_cmp(p1, p2))
         }
         (ExprKind::Poly(_), _) => CmpOrdering::Less,
         (_, ExprKind::Poly(_)) => CmpOrdering::Greater,
-- 
2.43.0

