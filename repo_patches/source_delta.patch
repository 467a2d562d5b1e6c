From d0fd76887c1aaeb3c25a37d741db9ae7d8b7e5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:01 +0000
Subject: [PATCH 01/18] Add verification hook behind cfg(symbolic_verif)

---
 src/compute/limit/mod.rs |  21 +++++++
 src/main.rs              |   4 ++
 src/verif_api.rs         | 132 +++++++++++++++++++++++++++++++++++++++
 3 files changed, 157 insertions(+)
 create mode 100644 src/verif_api.rs

diff --git a/src/compute/limit/mod.rs b/src/compute/limit/mod.rs
index f555e5d..3c29d40 100644
--- a/src/compute/limit/mod.rs
+++ b/src/compute/limit/mod.rs
@@ -81,3 +81,24 @@ impl LimitTry<Expression, Expression> for Expression {
         self.limit(&of, to, order_try)
     }
 }
+
+// `LimitTry` is private to this module: these let the verification harness call it.
+#[cfg(symbolic_verif)]
+pub(crate) fn verif_limit_variable(
+    expr: Expression,
+    of: &Variable,
+    to: Expression,
+    order_try: u64,
+) -> Result<LimitExpression, NoValidLimitFound> {
+    expr.limit(of, to, order_try)
+}
+
+#[cfg(symbolic_verif)]
+pub(crate) fn verif_limit_expression(
+    expr: Expression,
+    of: Expression,
+    to: Expression,
+    order_try: u64,
+) -> Result<LimitExpression, NoValidLimitFound> {
+    expr.limit(of, to, order_try)
+}
diff --git a/src/main.rs b/src/main.rs
index a6bc6ae..71f1327 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -30,3 +30,7 @@ fn main() {
         );
     }
 }
+
+// Entry points for the verification harness; absent from every ordinary build.
+#[cfg(symbolic_verif)]
+pub mod verif_api;
diff --git a/src/verif_api.rs b/src/verif_api.rs
new file mode 100644
index 0000000..e6b876f
--- /dev/null
+++ b/src/verif_api.rs
@@ -0,0 +1,132 @@
+//! What the verification harness sees of this crate. Compiled only with `--cfg symbolic_verif`.
+
+use crate::{
+    ast::op::operator::OperatorType,
+    compute::{derivative::Derivative, limit, substitute::Substitute},
+};
+
+pub use crate::{
+    ast::{
+        op::operand::{AstOperand, Variable},
+        tree::{AstNode, Expression},
+    },
+    compute::{
+        limit::limit_expression::{LimitExpression, NoValidLimitFound},
+        num_aggregate::NumAggregate,
+        taylor_expansion::partial_expansion::{PartialExpansion, TaylorExpansion},
+    },
+    math_op::{
+        cos::{cos, Cos},
+        exp::{exp, Exp},
+        ln::{ln, Ln},
+        pow::Pow,
+        sin::{sin, Sin},
+    },
+    smart_num::{
+        rational::{RationalNum, ToRational},
+        val_holder::IsClose,
+        SmartNum, ToSmartNum,
+    },
+};
+
+/// The operation at the root of an expression.
+#[derive(Debug, Clone, Copy, PartialEq, Eq)]
+pub enum Op {
+    Neg,
+    Add,
+    Sub,
+    Mul,
+    Div,
+    Sin,
+    Cos,
+    Exp,
+    Ln,
+    Pow,
+}
+
+/// One level of an expression.
+pub enum View<'a> {
+    Num(&'a SmartNum),
+    Var(&'a str),
+    Node(Op, &'a [Expression]),
+}
+
+pub fn view(expr: &Expression) -> View<'_> {
+    match &expr.root {
+        AstNode::Operand(AstOperand::Num(v)) => View::Num(v),
+        AstNode::Operand(AstOperand::Variable(v)) => View::Var(&v.name),
+        AstNode::Operator(operator) => View::Node(
+            match operator.descriptor {
+                OperatorType::Neg => Op::Neg,
+                OperatorType::Add => Op::Add,
+                OperatorType::Sub => Op::Sub,
+                OperatorType::Mul => Op::Mul,
+                OperatorType::Div => Op::Div,
+                OperatorType::Sin => Op::Sin,
+                OperatorType::Cos => Op::Cos,
+                OperatorType::Exp => Op::Exp,
+                OperatorType::Ln => Op::Ln,
+                OperatorType::Pow => Op::Pow,
+            },
+            &expr.child,
+        ),
+    }
+}
+
+pub fn variable_of(expr: &Expression) -> Option<&Variable> {
+    expr.into()
+}
+
+pub fn into_variable(expr: Expression) -> Option<Variable> {
+    expr.into()
+}
+
+pub fn derivative_by_variable(expr: Expression, by: &Variable) -> Result<Expression, String> {
+    expr.derivative(by).map_err(|e| e.to_string())
+}
+
+pub fn derivative_by_ref(expr: Expression, by: &Expression) -> Result<Expression, String> {
+    expr.derivative(by).map_err(|e| e.to_string())
+}
+
+pub fn derivative_by(expr: Expression, by: Expression) -> Result<Expression, String> {
+    expr.derivative(by).map_err(|e| e.to_string())
+}
+
+pub fn substitute_variable(
+    expr: Expression,
+    u: &Variable,
+    v: &Expression,
+) -> Result<Expression, String> {
+    expr.substitute(u, v).map_err(|e| e.to_string())
+}
+
+pub fn substitute_ref(
+    expr: Expression,
+    u: &Expression,
+    v: &Expression,
+) -> Result<Expression, String> {
+    expr.substitute(u, v).map_err(|e| e.to_string())
+}
+
+pub fn substitute(expr: Expression, u: Expression, v: Expression) -> Result<Expression, String> {
+    expr.substitute(u, v).map_err(|e| e.to_string())
+}
+
+pub fn limit_variable(
+    expr: Expression,
+    of: &Variable,
+    to: Expression,
+    order_try: u64,
+) -> Result<LimitExpression, NoValidLimitFound> {
+    limit::verif_limit_variable(expr, of, to, order_try)
+}
+
+pub fn limit_expression(
+    expr: Expression,
+    of: Expression,
+    to: Expression,
+    order_try: u64,
+) -> Result<LimitExpression, NoValidLimitFound> {
+    limit::verif_limit_expression(expr, of, to, order_try)
+}
-- 
2.43.0


From b52b275d468c811231e3c4593204ef160198568f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:42 +0000
Subject: [PATCH 02/18] fix: a zero fraction has sign 1 and prints without a
 minus sign

Sums and differences that came to zero had sign 0, which no constructor
accepts, and printed as -0/1.
---
 src/smart_num/rational.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/smart_num/rational.rs b/src/smart_num/rational.rs
index 438aa11..f5bb818 100644
--- a/src/smart_num/rational.rs
+++ b/src/smart_num/rational.rs
@@ -17,7 +17,11 @@ pub trait ToRational {
 
 impl Display for RationalNum {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-        let sign_symbol = if self.sign == 1 { "" } else { "-" };
+        let sign_symbol = if self.sign < 0 && self.nominator != 0 {
+            "-"
+        } else {
+            ""
+        };
         write!(f, "{}{}/{}", sign_symbol, self.nominator, self.denominator)
     }
 }
@@ -97,7 +101,7 @@ impl Add for RationalNum {
         let a = ((self.nominator * rhs.denominator) as i64) * self.sign;
         let b = ((self.denominator * rhs.nominator) as i64) * rhs.sign;
         let s = a + b;
-        let sign = s.signum();
+        let sign = if s == 0 { 1_i64 } else { s.signum() };
         let nominator = s.abs() as u64;
         let denominator = self.denominator * rhs.denominator;
         let res = RationalNum {
@@ -116,7 +120,7 @@ impl Sub for RationalNum {
         let a = ((self.nominator * rhs.denominator) as i64) * self.sign;
         let b = ((self.denominator * rhs.nominator) as i64) * rhs.sign;
         let s = a - b;
-        let sign = s.signum();
+        let sign = if s == 0 { 1_i64 } else { s.signum() };
         let nominator = s.abs() as u64;
         let denominator = self.denominator * rhs.denominator;
         let res = RationalNum {
-- 
2.43.0


From 3431feee9522278fb39158a9d66c5c0487565d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:59 +0000
Subject: [PATCH 03/18] fix: adding and subtracting large fractions panics
 instead of wrapping

A cross product above 2^63 - 1 was cast to a negative number.
---
 src/smart_num/rational.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/smart_num/rational.rs b/src/smart_num/rational.rs
index f5bb818..7647d97 100644
--- a/src/smart_num/rational.rs
+++ b/src/smart_num/rational.rs
@@ -45,6 +45,10 @@ fn gcd(a: u64, b: u64) -> u64 {
     }
 }
 
+fn to_signed(v: u64) -> i64 {
+    i64::try_from(v).expect("overflow: a product of numerator and denominator exceeds 63 bits")
+}
+
 impl RationalNum {
     pub fn reduce(&self) -> Self {
         let mut d = gcd(self.nominator, self.denominator);
@@ -98,8 +102,8 @@ impl Add for RationalNum {
     type Output = RationalNum;
 
     fn add(self, rhs: Self) -> Self::Output {
-        let a = ((self.nominator * rhs.denominator) as i64) * self.sign;
-        let b = ((self.denominator * rhs.nominator) as i64) * rhs.sign;
+        let a = to_signed(self.nominator * rhs.denominator) * self.sign;
+        let b = to_signed(self.denominator * rhs.nominator) * rhs.sign;
         let s = a + b;
         let sign = if s == 0 { 1_i64 } else { s.signum() };
         let nominator = s.abs() as u64;
@@ -117,8 +121,8 @@ impl Sub for RationalNum {
     type Output = RationalNum;
 
     fn sub(self, rhs: Self) -> Self::Output {
-        let a = ((self.nominator * rhs.denominator) as i64) * self.sign;
-        let b = ((self.denominator * rhs.nominator) as i64) * rhs.sign;
+        let a = to_signed(self.nominator * rhs.denominator) * self.sign;
+        let b = to_signed(self.denominator * rhs.nominator) * rhs.sign;
         let s = a - b;
         let sign = if s == 0 { 1_i64 } else { s.signum() };
         let nominator = s.abs() as u64;
-- 
2.43.0


From 9bdbcd80e6305c95255210d1b4858bef2281fda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:01 +0000
Subject: [PATCH 04/18] fix: a fraction with the smallest 64-bit number as sign
 is refused without a panic

---
 src/smart_num/rational.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smart_num/rational.rs b/src/smart_num/rational.rs
index 7647d97..a377e7f 100644
--- a/src/smart_num/rational.rs
+++ b/src/smart_num/rational.rs
@@ -63,7 +63,7 @@ impl RationalNum {
     }
 
     pub fn new(sign: i64, nominator: u64, denominator: u64) -> Option<RationalNum> {
-        if sign.abs() == 1 && denominator != 0 {
+        if (sign == 1 || sign == -1) && denominator != 0 {
             Some(RationalNum {
                 sign,
                 nominator,
-- 
2.43.0


From 9a428228e693b281f55a1f761a34a6d5fb7ad9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:04 +0000
Subject: [PATCH 05/18] fix: unsigned numbers above 2^63 - 1 no longer turn
 negative

An integer holds 63 bits; a larger unsigned number is now held as a
fraction with denominator 1.
---
 src/smart_num/val_holder.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/smart_num/val_holder.rs b/src/smart_num/val_holder.rs
index 6514344..11b7f5f 100644
--- a/src/smart_num/val_holder.rs
+++ b/src/smart_num/val_holder.rs
@@ -194,7 +194,10 @@ impl From<i32> for SmartNumVal {
 
 impl From<u64> for SmartNumVal {
     fn from(v: u64) -> Self {
-        SmartNumVal::Integer(v as i64)
+        match i64::try_from(v) {
+            Ok(v) => SmartNumVal::Integer(v),
+            Err(_) => SmartNumVal::Rational(RationalNum::from(v)),
+        }
     }
 }
 
-- 
2.43.0


From ada0ba0c2da0e4de743bc0bbb84673189d44a222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:07 +0000
Subject: [PATCH 06/18] fix: the sign of a zero fraction or zero real is 0, as
 of a zero integer

---
 src/smart_num/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/smart_num/mod.rs b/src/smart_num/mod.rs
index cc06b70..f4ccaa3 100644
--- a/src/smart_num/mod.rs
+++ b/src/smart_num/mod.rs
@@ -99,7 +99,9 @@ impl SmartNum {
     pub fn sign(&self) -> i64 {
         match self.value {
             SmartNumVal::Integer(v) => v.signum(),
+            SmartNumVal::Rational(v) if v.nominator == 0 => 0,
             SmartNumVal::Rational(v) => v.sign,
+            SmartNumVal::Real(v) if v == 0.0 => 0,
             SmartNumVal::Real(v) => v.signum() as i64,
         }
     }
-- 
2.43.0


From 02820e1c21974fc936a8d01062cfde960df2a720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:30 +0000
Subject: [PATCH 07/18] fix: cos(pi) folds to -1, not 1

---
 src/compute/num_aggregate/rules/cos.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/compute/num_aggregate/rules/cos.rs b/src/compute/num_aggregate/rules/cos.rs
index 567f2c1..a27f4c7 100644
--- a/src/compute/num_aggregate/rules/cos.rs
+++ b/src/compute/num_aggregate/rules/cos.rs
@@ -6,8 +6,10 @@ pub(crate) fn cos_eval_rule(mut child: Vec<Expression>) -> Expression {
     let sub = child.pop().unwrap().num_aggregate();
     match &sub.root {
         AstNode::Operand(operand) => {
-            if operand.is_zero() || operand.is_pi() {
+            if operand.is_zero() {
                 Expression::from(1_i64)
+            } else if operand.is_pi() {
+                Expression::from(-1_i64)
             } else {
                 sub.cos()
             }
-- 
2.43.0


From 815003848b6184bbd3e399b190bfa4888cf1c39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:43 +0000
Subject: [PATCH 08/18] fix: folding a power keeps its value

0 ^ r folded to 1, 1 ^ r to r and ln(u) ^ r to u: the rules for exp had
been applied to the base.
---
 src/compute/num_aggregate/rules/pow.rs | 36 +++++++++++---------------
 1 file changed, 15 insertions(+), 21 deletions(-)

diff --git a/src/compute/num_aggregate/rules/pow.rs b/src/compute/num_aggregate/rules/pow.rs
index acd3e5b..b336cc9 100644
--- a/src/compute/num_aggregate/rules/pow.rs
+++ b/src/compute/num_aggregate/rules/pow.rs
@@ -1,28 +1,22 @@
-use crate::ast::op::operand::AstOperand;
-use crate::ast::op::operator::OperatorType;
-use crate::ast::tree::{AstNode, Expression};
+use crate::ast::tree::Expression;
 use crate::compute::num_aggregate::NumAggregate;
 use crate::math_op::pow::Pow;
+use crate::smart_num::ToSmartNum;
 
 pub(crate) fn pow_eval_rule(mut child: Vec<Expression>) -> Expression {
     let r = child.pop().unwrap().num_aggregate();
-    let mut sub = child.pop().unwrap().num_aggregate();
-    match &sub.root {
-        AstNode::Operand(operand) => match operand {
-            AstOperand::Variable(_) => sub.pow(r),
-            AstOperand::Num(v) => {
-                if v.is_zero() {
-                    Expression::from(1_i64)
-                } else if v.is_one() {
-                    r
-                } else {
-                    sub.pow(r)
-                }
-            }
-        },
-        AstNode::Operator(operator) => match operator.descriptor {
-            OperatorType::Ln => sub.child.pop().unwrap(),
-            _ => sub.pow(r),
-        },
+    let sub = child.pop().unwrap().num_aggregate();
+    let r_is_positive = match (&r).to_smart_num() {
+        Ok(v) => v.sign() > 0,
+        Err(_) => false,
+    };
+    if r.is_zero() || sub.is_one() {
+        Expression::one()
+    } else if r.is_one() {
+        sub
+    } else if sub.is_zero() && r_is_positive {
+        Expression::zero()
+    } else {
+        sub.pow(r)
     }
 }
-- 
2.43.0


From 0d6bcabc0904a7631937ec1a4abf0108324e280d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:10 +0000
Subject: [PATCH 09/18] fix: a power with a constant exponent can be
 differentiated where its base is 0

The general rule divides by the base, so that the derivative of x ^ 2 was
undefined at 0, and Taylor expansions of polynomials at 0 came out wrong.
---
 src/compute/derivative/rules/pow.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/compute/derivative/rules/pow.rs b/src/compute/derivative/rules/pow.rs
index 79c7870..48ba828 100644
--- a/src/compute/derivative/rules/pow.rs
+++ b/src/compute/derivative/rules/pow.rs
@@ -13,6 +13,10 @@ pub(crate) fn pow_derivative_rule(
     let u = child.pop().unwrap();
     let r_d = r.clone().derivative(to)?;
     let u_d = u.clone().derivative(to)?;
+    if r_d.is_zero() {
+        // (u^r)' = r * u^(r-1) * u', which also holds where u = 0
+        return Ok(r.clone() * u.pow(r - Expression::one()) * u_d);
+    }
     let ln_u = u.clone().ln();
     let u_pow_r = u.clone().pow(r.clone());
     return Ok(u_pow_r * (r_d * ln_u + r * u_d / u));
-- 
2.43.0


From ec7d578f301e1603eed6eb90fe177e9751c81624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:45 +0000
Subject: [PATCH 10/18] fix: printed expressions keep the parentheses their
 meaning needs

---
 src/ast/tree.rs    | 28 +++++++++++++++++++++++-----
 src/math_op/cos.rs |  2 +-
 src/math_op/exp.rs |  2 +-
 src/math_op/ln.rs  |  2 +-
 src/math_op/pow.rs |  2 +-
 src/math_op/sin.rs |  2 +-
 6 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/src/ast/tree.rs b/src/ast/tree.rs
index e598fa5..85ae470 100644
--- a/src/ast/tree.rs
+++ b/src/ast/tree.rs
@@ -2,7 +2,7 @@
 
 use super::op::{
     operand::{AstOperand, Variable},
-    operator::AstOperator,
+    operator::{AstOperator, OperatorType},
 };
 use crate::smart_num::{
     rational::{RationalNum, ToRational},
@@ -78,19 +78,37 @@ impl Expression {
 
     fn to_string_raw(&self, upper_priority: u32) -> String {
         match &self.root {
-            AstNode::Operand(v) => v.to_string(),
+            AstNode::Operand(v) => {
+                let me = v.to_string();
+                // A sign or a fraction bar does not bind tighter than a division.
+                if v.is_num() && upper_priority > 4 && me.contains(['-', '/']) {
+                    format!("({})", me)
+                } else {
+                    me
+                }
+            }
             AstNode::Operator(op) => {
                 let me = if self.child.len() == 2 {
                     // binary operator
+                    let (left_priority, right_priority) = match op.descriptor {
+                        OperatorType::Sub | OperatorType::Div => (op.priority, op.priority + 1),
+                        OperatorType::Pow => (op.priority + 1, op.priority + 1),
+                        _ => (op.priority, op.priority),
+                    };
                     format!(
                         "{} {} {}",
-                        self.child[0].to_string_raw(op.priority),
+                        self.child[0].to_string_raw(left_priority),
                         op,
-                        self.child[1].to_string_raw(op.priority),
+                        self.child[1].to_string_raw(right_priority),
                     )
                 } else {
                     // unary operator
-                    format!("{}{}", op, self.child[0].to_string_raw(op.priority),)
+                    let child_priority = match op.descriptor {
+                        // Only sums and other negations are parenthesised after a minus sign.
+                        OperatorType::Neg => 3,
+                        _ => op.priority,
+                    };
+                    format!("{}{}", op, self.child[0].to_string_raw(child_priority))
                 };
                 if op.priority < upper_priority {
                     format!("({})", me)
diff --git a/src/math_op/cos.rs b/src/math_op/cos.rs
index bd707a2..31f5cd8 100644
--- a/src/math_op/cos.rs
+++ b/src/math_op/cos.rs
@@ -8,7 +8,7 @@ use crate::ast::{
 fn gen_cos_op() -> AstOperator {
     AstOperator {
         symbol: "cos".to_string(),
-        priority: 5,
+        priority: 6,
         descriptor: OperatorType::Cos,
     }
 }
diff --git a/src/math_op/exp.rs b/src/math_op/exp.rs
index f511bac..8d582a3 100644
--- a/src/math_op/exp.rs
+++ b/src/math_op/exp.rs
@@ -8,7 +8,7 @@ use crate::ast::{
 fn gen_op_exp() -> AstOperator {
     AstOperator {
         symbol: "exp".to_string(),
-        priority: 5_u32,
+        priority: 6_u32,
         descriptor: OperatorType::Exp,
     }
 }
diff --git a/src/math_op/ln.rs b/src/math_op/ln.rs
index ff6a233..4766829 100644
--- a/src/math_op/ln.rs
+++ b/src/math_op/ln.rs
@@ -8,7 +8,7 @@ use crate::ast::{
 fn gen_op_ln() -> AstOperator {
     AstOperator {
         symbol: "ln".to_string(),
-        priority: 5_u32,
+        priority: 6_u32,
         descriptor: OperatorType::Ln,
     }
 }
diff --git a/src/math_op/pow.rs b/src/math_op/pow.rs
index 05466e0..c189f12 100644
--- a/src/math_op/pow.rs
+++ b/src/math_op/pow.rs
@@ -10,7 +10,7 @@ use crate::ast::{
 fn gen_op_pow() -> AstOperator {
     AstOperator {
         symbol: "^".to_string(),
-        priority: 4_u32,
+        priority: 5_u32,
         descriptor: OperatorType::Pow,
     }
 }
diff --git a/src/math_op/sin.rs b/src/math_op/sin.rs
index fbd91d3..f1e3bb8 100644
--- a/src/math_op/sin.rs
+++ b/src/math_op/sin.rs
@@ -8,7 +8,7 @@ use crate::ast::{
 fn gen_sin_op() -> AstOperator {
     AstOperator {
         symbol: "sin".to_string(),
-        priority: 5,
+        priority: 6,
         descriptor: OperatorType::Sin,
     }
 }
-- 
2.43.0


From 367edc4a4bba7437f18eeee53c157059e462126d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:45 +0000
Subject: [PATCH 11/18] fix: a printed expansion parenthesises its coefficients

---
 src/compute/taylor_expansion/partial_expansion.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/compute/taylor_expansion/partial_expansion.rs b/src/compute/taylor_expansion/partial_expansion.rs
index 3bddce5..69c159a 100644
--- a/src/compute/taylor_expansion/partial_expansion.rs
+++ b/src/compute/taylor_expansion/partial_expansion.rs
@@ -26,9 +26,8 @@ impl Display for PartialExpansion {
             if term.is_zero() {
                 continue;
             }
-            content.push_str(format!("{} * ", term).as_str());
-            content.push_str(format!("{}", b.clone().pow(idx as i64)).as_str());
-            content.push_str(" + ")
+            let product = term.clone() * b.clone().pow(idx as i64);
+            content.push_str(format!("{} + ", product).as_str());
         }
         content.push_str(format!("O({})", b.clone().pow(self.order + 1),).as_str());
         write!(f, "{}", content)
-- 
2.43.0


From 6827e85e6c649101443d0e80f39fe7af045b7316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:33 +0000
Subject: [PATCH 12/18] fix: the limit of a negation is the negated limit of
 its operand

---
 src/compute/limit/mod.rs       | 2 +-
 src/compute/limit/rules/neg.rs | 9 ++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/compute/limit/mod.rs b/src/compute/limit/mod.rs
index 3c29d40..de6fe64 100644
--- a/src/compute/limit/mod.rs
+++ b/src/compute/limit/mod.rs
@@ -45,7 +45,7 @@ impl<'a> LimitTry<&'a Variable, Expression> for Expression {
                 }
             },
             AstNode::Operator(operator) => match operator.descriptor {
-                OperatorType::Neg => Ok(self.neg_limit_expr_rule(of, to, order_try)),
+                OperatorType::Neg => self.neg_limit_expr_rule(of, to, order_try),
                 OperatorType::Add => self.add_limit_expr_rule(of, to, order_try),
                 OperatorType::Sub => self.sub_limit_expr_rule(of, to, order_try),
                 OperatorType::Mul => self.mul_limit_expr_rule(of, to, order_try),
diff --git a/src/compute/limit/rules/neg.rs b/src/compute/limit/rules/neg.rs
index c254f46..46bf683 100644
--- a/src/compute/limit/rules/neg.rs
+++ b/src/compute/limit/rules/neg.rs
@@ -1,6 +1,9 @@
 use crate::{
     ast::{op::operand::Variable, tree::Expression},
-    compute::limit::limit_expression::LimitExpression,
+    compute::limit::{
+        limit_expression::{LimitExpression, NoValidLimitFound},
+        LimitTry,
+    },
 };
 
 pub(crate) trait NegLimitExprRule {
@@ -9,10 +12,10 @@ pub(crate) trait NegLimitExprRule {
 }
 
 impl NegLimitExprRule for Expression {
-    type Output = LimitExpression;
+    type Output = Result<LimitExpression, NoValidLimitFound>;
 
     fn neg_limit_expr_rule(mut self, of: &Variable, to: Expression, order_try: u64) -> Self::Output {
         let sub = self.child.pop().unwrap();
-        -sub.neg_limit_expr_rule(of, to, order_try)
+        sub.limit(of, to, order_try).map(|limit| -limit)
     }
 }
-- 
2.43.0


From 653383c6338f472e744415452a955bf49e5a53ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:36 +0000
Subject: [PATCH 13/18] fix: the limit of sin and cos follows from the limit of
 the argument

---
 src/compute/limit/rules/cos.rs | 33 ++++++++++++++++--------------
 src/compute/limit/rules/sin.rs | 37 +++++++++++++++++-----------------
 2 files changed, 36 insertions(+), 34 deletions(-)

diff --git a/src/compute/limit/rules/cos.rs b/src/compute/limit/rules/cos.rs
index 0f920b5..63e088b 100644
--- a/src/compute/limit/rules/cos.rs
+++ b/src/compute/limit/rules/cos.rs
@@ -1,10 +1,10 @@
 use crate::{
     ast::{op::operand::Variable, tree::Expression},
-    compute::{
-        limit::limit_expression::{LimitExpression, NoValidLimitFound},
-        num_aggregate::NumAggregate,
-        substitute::Substitute,
+    compute::limit::{
+        limit_expression::{LimitExpression, NoValidLimitFound},
+        LimitTry,
     },
+    math_op::cos::cos,
 };
 
 pub(crate) trait CosLimitExprRule {
@@ -17,16 +17,19 @@ pub(crate) trait CosLimitExprRule {
 impl CosLimitExprRule for Expression {
     type Output = Result<LimitExpression, NoValidLimitFound>;
 
-    fn cos_limit_expr_rule(self, of: &Variable, to: Expression, _order_try: u64) -> Self::Output {
-        self.substitute(of, &to)
-            .map_err(|_| NoValidLimitFound {})
-            .map(|expr| {
-                let z = expr.num_aggregate();
-                if z.is_zero() {
-                    LimitExpression::Infinitesimal
-                } else {
-                    LimitExpression::Normal(z)
-                }
-            })
+    fn cos_limit_expr_rule(
+        mut self,
+        of: &Variable,
+        to: Expression,
+        order_try: u64,
+    ) -> Self::Output {
+        let sub = self.child.pop().unwrap();
+        sub.limit(of, to, order_try).map(|limit| match limit {
+            LimitExpression::Infinitesimal => LimitExpression::Normal(Expression::one()),
+            LimitExpression::Infinity | LimitExpression::BoundedFluctuation => {
+                LimitExpression::BoundedFluctuation
+            }
+            LimitExpression::Normal(r) => LimitExpression::Normal(cos(r)),
+        })
     }
 }
diff --git a/src/compute/limit/rules/sin.rs b/src/compute/limit/rules/sin.rs
index 9f877e1..5f1a7c1 100644
--- a/src/compute/limit/rules/sin.rs
+++ b/src/compute/limit/rules/sin.rs
@@ -1,10 +1,10 @@
 use crate::{
     ast::{op::operand::Variable, tree::Expression},
-    compute::{
-        limit::limit_expression::{LimitExpression, NoValidLimitFound},
-        num_aggregate::NumAggregate,
-        substitute::Substitute,
+    compute::limit::{
+        limit_expression::{LimitExpression, NoValidLimitFound},
+        LimitTry,
     },
+    math_op::sin::sin,
 };
 
 pub(crate) trait SinLimitExprRule {
@@ -17,20 +17,19 @@ pub(crate) trait SinLimitExprRule {
 impl SinLimitExprRule for Expression {
     type Output = Result<LimitExpression, NoValidLimitFound>;
 
-    fn sin_limit_expr_rule(self, of: &Variable, to: Expression, _order_try: u64) -> Self::Output {
-        if to.is_zero() {
-            Ok(LimitExpression::Infinitesimal)
-        } else {
-            self.substitute(of, &to)
-                .map_err(|_| NoValidLimitFound {})
-                .map(|expr| {
-                    let z = expr.num_aggregate();
-                    if z.is_zero() {
-                        LimitExpression::Infinitesimal
-                    } else {
-                        LimitExpression::Normal(z)
-                    }
-                })
-        }
+    fn sin_limit_expr_rule(
+        mut self,
+        of: &Variable,
+        to: Expression,
+        order_try: u64,
+    ) -> Self::Output {
+        let sub = self.child.pop().unwrap();
+        sub.limit(of, to, order_try).map(|limit| match limit {
+            LimitExpression::Infinitesimal => LimitExpression::Infinitesimal,
+            LimitExpression::Infinity | LimitExpression::BoundedFluctuation => {
+                LimitExpression::BoundedFluctuation
+            }
+            LimitExpression::Normal(r) => LimitExpression::Normal(sin(r)),
+        })
     }
 }
-- 
2.43.0


From 6b035152de58449ba5793532f8f67b039ab5bafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:55 +0000
Subject: [PATCH 14/18] fix: a limit of value 0 is reported as infinitesimal

---
 src/compute/limit/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/compute/limit/mod.rs b/src/compute/limit/mod.rs
index de6fe64..ff186c3 100644
--- a/src/compute/limit/mod.rs
+++ b/src/compute/limit/mod.rs
@@ -63,7 +63,14 @@ impl<'a> LimitTry<&'a Variable, Expression> for Expression {
         };
         return if flag {
             match z {
-                LimitExpression::Normal(expr) => Ok(LimitExpression::Normal(expr.num_aggregate())),
+                LimitExpression::Normal(expr) => {
+                    let expr = expr.num_aggregate();
+                    if expr.is_zero() {
+                        Ok(LimitExpression::Infinitesimal)
+                    } else {
+                        Ok(LimitExpression::Normal(expr))
+                    }
+                }
                 _ => Err(NoValidLimitFound {}), // Unreachable
             }
         } else {
-- 
2.43.0


From 2d367205aa40adae8e3cca268d2a6dca4c63f54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:57 +0000
Subject: [PATCH 15/18] fix: a quotient is derived only for 0/0 and
 infinity/infinity

---
 src/compute/limit/rules/div.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/compute/limit/rules/div.rs b/src/compute/limit/rules/div.rs
index 0fde3d5..627d92d 100644
--- a/src/compute/limit/rules/div.rs
+++ b/src/compute/limit/rules/div.rs
@@ -29,9 +29,15 @@ impl DivLimitExprRule for Expression {
         for _ in 0..=order_try {
             let a = l.clone().limit(of, to.clone(), order_try)?;
             let b = r.clone().limit(of, to.clone(), order_try)?;
+            // Deriving both sides keeps the limit only for 0/0 and infinity/infinity.
+            let derivable = matches!(
+                (&a, &b),
+                (LimitExpression::Infinitesimal, LimitExpression::Infinitesimal)
+                    | (LimitExpression::Infinity, LimitExpression::Infinity)
+            );
             let z = a / b;
-            if z.is_ok() {
-                return Ok(z.unwrap());
+            if z.is_ok() || !derivable {
+                return z;
             }
             l = l.derivative(of).map_err(|_| NoValidLimitFound {})?;
             r = r.derivative(of).map_err(|_| NoValidLimitFound {})?;
-- 
2.43.0


From 6dba666e6027af5daa8f85cea06be7b1c7cd62f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:00 +0000
Subject: [PATCH 16/18] fix: a limit in something that is not a variable is
 refused without a panic

---
 src/compute/limit/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compute/limit/mod.rs b/src/compute/limit/mod.rs
index ff186c3..fafe218 100644
--- a/src/compute/limit/mod.rs
+++ b/src/compute/limit/mod.rs
@@ -84,7 +84,7 @@ impl LimitTry<Expression, Expression> for Expression {
 
     fn limit(self, of_: Expression, to: Expression, order_try: u64) -> Self::Output {
         let of_raw: Option<Variable> = of_.into();
-        let of = of_raw.unwrap();
+        let of = of_raw.ok_or(NoValidLimitFound {})?;
         self.limit(&of, to, order_try)
     }
 }
-- 
2.43.0


From 470f8826b771e75f2852a8f755b1ad7146b0b6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:02 +0000
Subject: [PATCH 17/18] fix: adding an infinite limit to an infinitesimal one
 gives an infinite one

---
 src/compute/limit/limit_expression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compute/limit/limit_expression.rs b/src/compute/limit/limit_expression.rs
index 76bdce6..2c0bc39 100644
--- a/src/compute/limit/limit_expression.rs
+++ b/src/compute/limit/limit_expression.rs
@@ -53,7 +53,7 @@ impl Add for LimitExpression {
         match self {
             LimitExpression::Infinitesimal => match rhs {
                 LimitExpression::Infinitesimal => Ok(LimitExpression::Infinitesimal),
-                LimitExpression::Infinity => Err(NoValidLimitFound {}),
+                LimitExpression::Infinity => Ok(LimitExpression::Infinity),
                 LimitExpression::BoundedFluctuation => Ok(LimitExpression::BoundedFluctuation),
                 LimitExpression::Normal(r) => Ok(LimitExpression::Normal(r)),
             },
-- 
2.43.0


From e155384e7732bafe3e04cba8d09b853313ce5744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:38 +0000
Subject: [PATCH 18/18] fix: finding a limit no longer recurses without end

---
 src/compute/limit/rules/div.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/compute/limit/rules/div.rs b/src/compute/limit/rules/div.rs
index 627d92d..e65030f 100644
--- a/src/compute/limit/rules/div.rs
+++ b/src/compute/limit/rules/div.rs
@@ -26,9 +26,10 @@ impl DivLimitExprRule for Expression {
         let mut r = self.child.pop().unwrap();
         let mut l = self.child.pop().unwrap();
         // l/r
-        for _ in 0..=order_try {
-            let a = l.clone().limit(of, to.clone(), order_try)?;
-            let b = r.clone().limit(of, to.clone(), order_try)?;
+        for used in 0..=order_try {
+            // What is derived `used` times already may only be derived so many times less.
+            let a = l.clone().limit(of, to.clone(), order_try - used)?;
+            let b = r.clone().limit(of, to.clone(), order_try - used)?;
             // Deriving both sides keeps the limit only for 0/0 and infinity/infinity.
             let derivable = matches!(
                 (&a, &b),
-- 
2.43.0

