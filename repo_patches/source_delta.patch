From e52da9eb64a1204e413dec4eaff53931a2db70d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:25 +0000
Subject: [PATCH 001/132] fix: never move non-commuting factors past each other
 when ordering products

sorted() was applied with a key that only defines a partial order (factors
with overlapping Hilbert spaces are incomparable), so its binary insertion
could move a factor past another one it does not commute with.
---
 src/qnet/algebra/core/algebraic_properties.py | 24 +++++++++++++++++++
 src/qnet/utils/ordering.py                    |  6 +++--
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/qnet/algebra/core/algebraic_properties.py b/src/qnet/algebra/core/algebraic_properties.py
index d148d69..620ad1c 100644
--- a/src/qnet/algebra/core/algebraic_properties.py
+++ b/src/qnet/algebra/core/algebraic_properties.py
@@ -115,9 +115,33 @@ def orderby(cls, ops, kwargs):
         >>> Times.create(2,1)
         Times(1, 2)
     """
+    if getattr(cls.order_key, 'is_partial', False):
+        return _partial_order_sorted(ops, cls.order_key), kwargs
     return sorted(ops, key=cls.order_key), kwargs
 
 
+def _partial_order_sorted(ops, order_key):
+    """Sort `ops` if `order_key` only defines a partial order
+
+    Two operands that are not comparable do not commute, and must never be
+    moved past each other. As :func:`sorted` is only valid for a total order,
+    the sorted list is built by repeatedly selecting the smallest one of those
+    operands that commute with all the remaining operands to their left.
+    """
+    remaining = [(order_key(op), op) for op in ops]
+    result = []
+    while remaining:
+        best = 0
+        for i in range(1, len(remaining)):
+            key = remaining[i][0]
+            if key < remaining[best][0] and all(
+                    key < left or left < key
+                    for (left, _) in remaining[:i]):
+                best = i
+        result.append(remaining.pop(best)[1])
+    return result
+
+
 def filter_neutral(cls, ops, kwargs):
     """Remove occurrences of a neutral element from the argument/operand list,
     if that list has at least two elements.  To use this, one must also specify
diff --git a/src/qnet/utils/ordering.py b/src/qnet/utils/ordering.py
index 51251d9..0dfc0ff 100644
--- a/src/qnet/utils/ordering.py
+++ b/src/qnet/utils/ordering.py
@@ -81,10 +81,12 @@ class DisjunctCommutativeHSOrder():
     """Auxiliary class that generates the correct pseudo-order relation for
     operator products.  Only operators acting on disjoint Hilbert spaces
     are commuted to reflect the order the local factors have in the total
-    Hilbert space. I.e., ``sorted(factors, key=DisjunctCommutativeHSOrder)``
-    achieves this ordering.
+    Hilbert space. As factors with overlapping Hilbert spaces cannot be
+    compared, this is only a partial order, see :func:`.orderby`.
     """
 
+    is_partial = True
+
     def __init__(self, op, space_order=None, op_order=None):
         from qnet.algebra.core.hilbert_space_algebra import TrivialSpace
         self.op = op
-- 
2.43.0


From 87b4962b3f55487f2f64fa594f5f5f28ef1076de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:42 +0000
Subject: [PATCH 002/132] fix: the outer product with a ZeroKet is the
 ZeroOperator

KetBra had no rule for ZeroKet, resulting in an operator on FullSpace (or an
UnequalSpaces exception) as soon as a factor of an outer product vanishes.
---
 src/qnet/algebra/_rules.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/qnet/algebra/_rules.py b/src/qnet/algebra/_rules.py
index 8ea2dba..4728a4e 100644
--- a/src/qnet/algebra/_rules.py
+++ b/src/qnet/algebra/_rules.py
@@ -799,6 +799,12 @@ def _algebraic_rules_state():
         ('R011', (  # delegate to __mul__
             pattern_head(sum, Psi),
             lambda sum, Psi: sum * Bra.create(Psi))),
+        ('R012', (
+            pattern_head(ZeroKet, Phi),
+            lambda Phi: ZeroOperator)),
+        ('R013', (
+            pattern_head(Psi, ZeroKet),
+            lambda Psi: ZeroOperator)),
     ]))
 
     def pull_constfactor_from_sum(u, Psi, indranges):
-- 
2.43.0


From b9cfcd986e490162e26510c10efaf62c6d36842c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:42 +0000
Subject: [PATCH 003/132] fix: infinite recursion when applying a product to a
 local state

OperatorTimesKet rules R014 and R015 undid each other if the right-most
operator has no known action on the state.
---
 src/qnet/algebra/_rules.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/qnet/algebra/_rules.py b/src/qnet/algebra/_rules.py
index 4728a4e..36180fe 100644
--- a/src/qnet/algebra/_rules.py
+++ b/src/qnet/algebra/_rules.py
@@ -601,7 +601,11 @@ def _algebraic_rules_state():
     ]))
 
     def local_rule(A, B, Psi):
-        return OperatorTimes.create(*A) * (B * Psi)
+        B_Psi = B * Psi
+        if B_Psi == OperatorTimesKet(B, Psi):
+            # R014 would multiply A and B back together
+            raise CannotSimplify()
+        return OperatorTimes.create(*A) * B_Psi
 
     OperatorTimesKet._rules.update(check_rules_dict([
         ('R001', (  # Id * Psi = Psi
-- 
2.43.0


From 7987fd12958954eba2ea1f834ded1dc729dad92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:21 +0000
Subject: [PATCH 004/132] fix: adjoint of a scaled superoperator was None

---
 src/qnet/algebra/core/super_operator_algebra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/super_operator_algebra.py b/src/qnet/algebra/core/super_operator_algebra.py
index 26ee67e..70f566e 100644
--- a/src/qnet/algebra/core/super_operator_algebra.py
+++ b/src/qnet/algebra/core/super_operator_algebra.py
@@ -159,7 +159,7 @@ class ScalarTimesSuperOperator(SuperOperator, ScalarTimesQuantumExpression):
     :class:`SuperOperator`"""
 
     def _adjoint(self):
-        pass
+        return self.coeff * self.term.adjoint()
 
     _rules = OrderedDict()  # see end of module
     simplifications = [match_replace, ]
-- 
2.43.0


From ba8b1ebbc6c97fde6d4d4c63b4e26ff6e62f24ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:26 +0000
Subject: [PATCH 005/132] fix: zero bra is recognized as zero and preserved by
 multiplication with Zero

---
 src/qnet/algebra/core/state_algebra.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/qnet/algebra/core/state_algebra.py b/src/qnet/algebra/core/state_algebra.py
index 84c160a..74b6bee 100644
--- a/src/qnet/algebra/core/state_algebra.py
+++ b/src/qnet/algebra/core/state_algebra.py
@@ -753,3 +753,4 @@ State._times_cls = TensorKet
 State._adjoint_cls = Bra
 State._indexed_sum_cls = KetIndexedSum
 State._derivative_cls = StateDerivative
+Bra._zero = Bra(ZeroKet)
-- 
2.43.0


From e17c0b8049fa5ab23ef52fdeb9bf74efeb9cdc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:26 +0000
Subject: [PATCH 006/132] fix: spin coefficients and next label for labels and
 symbolic spin indices

---
 .../algebra/core/hilbert_space_algebra.py     |  3 +++
 src/qnet/algebra/core/operator_algebra.py     |  8 +++++--
 src/qnet/algebra/library/spin_algebra.py      | 24 ++++++++++++-------
 3 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/qnet/algebra/core/hilbert_space_algebra.py b/src/qnet/algebra/core/hilbert_space_algebra.py
index 2481239..09d7ce6 100644
--- a/src/qnet/algebra/core/hilbert_space_algebra.py
+++ b/src/qnet/algebra/core/hilbert_space_algebra.py
@@ -500,6 +500,9 @@ class LocalSpace(HilbertSpace, Expression):
                                  % (new_index, self._basis))
             return self._basis[new_index]
         elif isinstance(label_or_index, SymbolicLabelBase):
+            if isinstance(label_or_index, FockLabel):
+                return label_or_index.__class__(
+                    expr=label_or_index.expr + n, hs=label_or_index.hs)
             return label_or_index.__class__(expr=label_or_index.expr + n)
         else:
             raise TypeError(
diff --git a/src/qnet/algebra/core/operator_algebra.py b/src/qnet/algebra/core/operator_algebra.py
index 2478d59..25e1d02 100644
--- a/src/qnet/algebra/core/operator_algebra.py
+++ b/src/qnet/algebra/core/operator_algebra.py
@@ -377,8 +377,10 @@ class LocalSigma(LocalOperator):
     @property
     def index_j(self):
         """Index `j` or (zero-based) index of the label `j` in the basis"""
-        if isinstance(self.j, (int, SymbolicLabelBase)):
+        if isinstance(self.j, int):
             return self.j
+        elif isinstance(self.j, SymbolicLabelBase):
+            return self.j.fock_index
         else:
             try:
                 return self.space.basis_labels.index(self.j)
@@ -390,8 +392,10 @@ class LocalSigma(LocalOperator):
     @property
     def index_k(self):
         """Index `k` or (zero-based) index of the label `k` in the basis"""
-        if isinstance(self.k, (int, SymbolicLabelBase)):
+        if isinstance(self.k, int):
             return self.k
+        elif isinstance(self.k, SymbolicLabelBase):
+            return self.k.fock_index
         else:
             try:
                 return self.space.basis_labels.index(self.k)
diff --git a/src/qnet/algebra/library/spin_algebra.py b/src/qnet/algebra/library/spin_algebra.py
index c9a06ec..03dca03 100644
--- a/src/qnet/algebra/library/spin_algebra.py
+++ b/src/qnet/algebra/library/spin_algebra.py
@@ -160,7 +160,8 @@ class SpinSpace(LocalSpace):
                     % (new_index, self._basis))
             return self.basis_labels[new_index]
         elif isinstance(label_or_index, SpinIndex):
-            return label_or_index.__class__(expr=label_or_index.expr + n)
+            return label_or_index.__class__(
+                expr=label_or_index.expr + n, hs=label_or_index.hs)
 
     @property
     def spin(self) -> sympy.Rational:
@@ -405,9 +406,9 @@ def Jpjmcoeff(ls, m, shift=False) -> sympy.Expr:
             the operator is applied. If integer together with ``shift=True``,
             the zero-based index of the basis state. Otherwise, directly the
             quantum number $m$.
-        shift (bool): If True for a integer value of `m`, treat `m` as the
-            zero-based index of the basis state (i.e., shift `m` down by $s$ to
-            obtain the quantum number $m$)
+        shift (bool): If True for an integer (or symbolic) value of `m`, treat
+            `m` as the zero-based index of the basis state (i.e., shift `m`
+            down by $s$ to obtain the quantum number $m$)
     '''
     assert isinstance(ls, SpinSpace)
     n = ls.dimension
@@ -419,6 +420,8 @@ def Jpjmcoeff(ls, m, shift=False) -> sympy.Expr:
         if shift:
             assert 0 <= m < n
             m = m - s
+    elif shift:  # symbolic zero-based index
+        m = m - s
     return sqrt(s * (s + 1) - m * (m + 1))
 
 
@@ -436,13 +439,14 @@ def Jzjmcoeff(ls, m, shift) -> sympy.Expr:
     s = sympify(n - 1) / 2
     assert n == int(2 * s + 1)
     if isinstance(m, str):
-        return ls.basis.index(m) - s
+        return ls.basis_labels.index(m) - s
     elif isinstance(m, int):
         if shift:
             assert 0 <= m < n
-            return m - s
-    else:
-        return sympify(m)
+            m = m - s
+    elif shift:  # symbolic zero-based index
+        m = m - s
+    return sympify(m)
 
 
 def Jmjmcoeff(ls, m, shift) -> sympy.Expr:
@@ -459,9 +463,11 @@ def Jmjmcoeff(ls, m, shift) -> sympy.Expr:
     s = sympify(n - 1) / 2
     assert n == int(2 * s + 1)
     if isinstance(m, str):
-        m = ls.basis.index(m) - s  # m is now Sympy expression
+        m = ls.basis_labels.index(m) - s  # m is now Sympy expression
     elif isinstance(m, int):
         if shift:
             assert 0 <= m < n
             m = m - s
+    elif shift:  # symbolic zero-based index
+        m = m - s
     return sqrt(s * (s + 1) - m * (m - 1))
-- 
2.43.0


From 0513cc9969f1e4827466f8f361a216a0226f56d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:47 +0000
Subject: [PATCH 007/132] fix: printing the adjoint of operators and
 superoperators inside of bras

---
 src/qnet/printing/asciiprinter.py   | 56 +++++++++++++++++++----------
 src/qnet/printing/latexprinter.py   | 29 ++++++++-------
 src/qnet/printing/unicodeprinter.py |  9 +++--
 3 files changed, 60 insertions(+), 34 deletions(-)

diff --git a/src/qnet/printing/asciiprinter.py b/src/qnet/printing/asciiprinter.py
index c014574..308b408 100644
--- a/src/qnet/printing/asciiprinter.py
+++ b/src/qnet/printing/asciiprinter.py
@@ -192,6 +192,15 @@ class QnetAsciiPrinter(QnetBasePrinter):
         else:
             return self.doprint(expr, *args, **kwargs)
 
+    def _dagger_if(self, rendered, adjoint):
+        """Wrap the `rendered` string as the adjoint, if `adjoint` is True"""
+        if adjoint:
+            return (
+                self._parenth_left + rendered + self._parenth_right + "^" +
+                self._dagger_sym)
+        else:
+            return rendered
+
     def _print_tuple(self, expr):
         return (
             self._parenth_left + ", ".join([self.doprint(c) for c in expr])
@@ -308,10 +317,10 @@ class QnetAsciiPrinter(QnetBasePrinter):
                     identifier = "%s_%s,%s" % (expr.identifier, expr.j, expr.k)
             return self._render_op(identifier, expr._hs, dagger=adjoint)
 
-    def _print_IdentityOperator(self, expr):
+    def _print_IdentityOperator(self, expr, adjoint=False):
         return "1"
 
-    def _print_ZeroOperator(self, expr):
+    def _print_ZeroOperator(self, expr, adjoint=False):
         return "0"
 
     def _print_ScalarValue(self, expr, **kwargs):
@@ -381,8 +390,12 @@ class QnetAsciiPrinter(QnetBasePrinter):
 
     def _print_QuantumTimes(self, expr, **kwargs):
         prec = precedence(expr)
+        operands = expr.operands
+        if kwargs.get('adjoint', False):
+            # the adjoint of a product reverses the order of the factors
+            operands = reversed(operands)
         return self._spaced_product_sym.join(
-            [self.parenthesize(op, prec, **kwargs) for op in expr.operands])
+            [self.parenthesize(op, prec, **kwargs) for op in operands])
 
     def _print_Commutator(self, expr, adjoint=False):
         res = "[" + self.doprint(expr.A) + ", " + self.doprint(expr.B) + "]"
@@ -418,17 +431,21 @@ class QnetAsciiPrinter(QnetBasePrinter):
                     self._parenth_left + self.doprint(o) +
                     self._parenth_right + "^" + self._dagger_sym)
 
-    def _print_OperatorPlusMinusCC(self, expr):
+    def _print_OperatorPlusMinusCC(self, expr, adjoint=False):
         prec = precedence(expr)
         o = expr.operand
+        kwargs = {}
+        if adjoint:
+            kwargs['adjoint'] = adjoint
         sign_str = ' + '
         if expr._sign < 0:
             sign_str = ' - '
-        return self.parenthesize(o, prec) + sign_str + "c.c."
+        return self.parenthesize(o, prec, **kwargs) + sign_str + "c.c."
 
-    def _print_PseudoInverse(self, expr):
+    def _print_PseudoInverse(self, expr, adjoint=False):
         prec = precedence(expr)
-        return self.parenthesize(expr.operand, prec) + "^+"
+        return self._dagger_if(
+            self.parenthesize(expr.operand, prec) + "^+", adjoint)
 
     def _print_NullSpaceProjector(self, expr, adjoint=False):
         null_space_proj_sym = 'P_Ker'
@@ -707,10 +724,11 @@ class QnetAsciiPrinter(QnetBasePrinter):
                 self._parenth_right)
         return res
 
-    def _print_IdentitySuperOperator(self, expr, superop=True):
+    def _print_IdentitySuperOperator(
+            self, expr, adjoint=False, superop=True):
         return "1"
 
-    def _print_ZeroSuperOperator(self, expr, superop=True):
+    def _print_ZeroSuperOperator(self, expr, adjoint=False, superop=True):
         return "0"
 
     def _print_SuperOperatorPlus(self, expr, adjoint=False, superop=True):
@@ -735,24 +753,26 @@ class QnetAsciiPrinter(QnetBasePrinter):
                     self._parenth_left + self.doprint(o) +
                     self._parenth_right + "^" + self._dagger_sym)
 
-    def _print_SPre(self, expr, superop=True):
-        return (
+    def _print_SPre(self, expr, adjoint=False, superop=True):
+        return self._dagger_if(
             "SPre" + self._parenth_left + self.doprint(expr.operands[0]) +
-            self._parenth_right)
+            self._parenth_right, adjoint)
 
-    def _print_SPost(self, expr, superop=True):
-        return (
+    def _print_SPost(self, expr, adjoint=False, superop=True):
+        return self._dagger_if(
             "SPost" + self._parenth_left + self.doprint(expr.operands[0]) +
-            self._parenth_right)
+            self._parenth_right, adjoint)
 
-    def _print_SuperOperatorTimesOperator(self, expr):
+    def _print_SuperOperatorTimesOperator(self, expr, adjoint=False):
         prec = precedence(expr)
         sop, op = expr.sop, expr.op
         cs = self.parenthesize(sop, prec)
         ct = self.doprint(op)
-        return "%s[%s]" % (cs, ct)
+        return self._dagger_if("%s[%s]" % (cs, ct), adjoint)
 
-    def _print_QuantumDerivative(self, expr):
+    def _print_QuantumDerivative(self, expr, adjoint=False):
+        if adjoint:
+            return self._dagger_if(self.doprint(expr), adjoint)
         res = ""
         for sym, n in expr.derivs.items():
             sym_str = self.doprint(sym)
diff --git a/src/qnet/printing/latexprinter.py b/src/qnet/printing/latexprinter.py
index e2c228b..309b61c 100644
--- a/src/qnet/printing/latexprinter.py
+++ b/src/qnet/printing/latexprinter.py
@@ -267,38 +267,41 @@ class QnetLatexPrinter(QnetAsciiPrinter):
         return r'\mathcal{{H}}_{{{label}}}'.format(
             label=self._render_hs_label(expr))
 
-    def _print_IdentityOperator(self, expr):
+    def _print_IdentityOperator(self, expr, adjoint=False):
         return self._settings['tex_identity_sym']
 
-    def _print_ZeroOperator(self, expr):
+    def _print_ZeroOperator(self, expr, adjoint=False):
         return r'\mathbb{0}'
 
-    def _print_ZeroSuperOperator(self, expr):
+    def _print_ZeroSuperOperator(self, expr, adjoint=False, superop=True):
         return r'\mathbb{0}'
 
-    def _print_IdentitySuperOperator(self, expr):
+    def _print_IdentitySuperOperator(
+            self, expr, adjoint=False, superop=True):
         return self._settings['tex_identity_sym']
 
-    def _print_SPre(self, expr, superop=True):
+    def _print_SPre(self, expr, adjoint=False, superop=True):
         name = self._settings['tex_textsop_macro'].format(name='SPre')
-        return (
+        return self._dagger_if(
             name + self._parenth_left + self.doprint(expr.operands[0]) +
-            self._parenth_right)
+            self._parenth_right, adjoint)
 
-    def _print_SPost(self, expr, superop=True):
+    def _print_SPost(self, expr, adjoint=False, superop=True):
         name = self._settings['tex_textsop_macro'].format(name='SPost')
-        return (
+        return self._dagger_if(
             name + self._parenth_left + self.doprint(expr.operands[0]) +
-            self._parenth_right)
+            self._parenth_right, adjoint)
 
-    def _print_SuperOperatorTimesOperator(self, expr):
+    def _print_SuperOperatorTimesOperator(self, expr, adjoint=False):
         prec = precedence(expr)
         sop, op = expr.sop, expr.op
         cs = self.parenthesize(sop, prec)
         ct = self.doprint(op)
-        return r'%s\left[%s\right]' % (cs, ct)
+        return self._dagger_if(r'%s\left[%s\right]' % (cs, ct), adjoint)
 
-    def _print_QuantumDerivative(self, expr):
+    def _print_QuantumDerivative(self, expr, adjoint=False):
+        if adjoint:
+            return self._dagger_if(self.doprint(expr), adjoint)
         res = ""
         numerator = r'\partial'
         if expr.n > 1:
diff --git a/src/qnet/printing/unicodeprinter.py b/src/qnet/printing/unicodeprinter.py
index 789d091..99e9d39 100644
--- a/src/qnet/printing/unicodeprinter.py
+++ b/src/qnet/printing/unicodeprinter.py
@@ -170,13 +170,16 @@ class QnetUnicodePrinter(QnetAsciiPrinter):
         return render_unicode_sub_super(
             'ℌ', subs=[self._render_hs_label(expr)])
 
-    def _print_IdentityOperator(self, expr):
+    def _print_IdentityOperator(self, expr, adjoint=False):
         return "𝟙"
 
-    def _print_IdentitySuperOperator(self, expr, superop=True):
+    def _print_IdentitySuperOperator(
+            self, expr, adjoint=False, superop=True):
         return "𝟙"
 
-    def _print_QuantumDerivative(self, expr):
+    def _print_QuantumDerivative(self, expr, adjoint=False):
+        if adjoint:
+            return self._dagger_if(self.doprint(expr), adjoint)
         res = ""
         for sym, n in expr.derivs.items():
             sym_str = self.doprint(sym)
-- 
2.43.0


From e85907576dce752afaefd5cf73235af354e4308a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:19 +0000
Subject: [PATCH 008/132] fix: Phase acting on a basis state with a str or
 symbolic label

---
 src/qnet/algebra/_rules.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qnet/algebra/_rules.py b/src/qnet/algebra/_rules.py
index 36180fe..b1c117d 100644
--- a/src/qnet/algebra/_rules.py
+++ b/src/qnet/algebra/_rules.py
@@ -695,7 +695,9 @@ def _algebraic_rules_state():
         ('R019', (
             pattern_head(
                 pattern(Phase, u, hs=ls), pattern(BasisKet, m, hs=ls)),
-            lambda ls, u, m: exp(I * u * m) * BasisKet(m, hs=ls))),
+            lambda ls, u, m: (
+                exp(I * u * BasisKet(m, hs=ls).index) *
+                BasisKet(m, hs=ls)))),
         ('R020', (
             pattern_head(
                 pattern(Phase, u, hs=ls),
-- 
2.43.0


From 510e96c99962c2069aa2c4d87a44caf3c7d8eb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:50 +0000
Subject: [PATCH 009/132] fix: floor division and modulus of scalars by One

---
 src/qnet/algebra/core/scalar_algebra.py | 33 ++++++++++++++++++-------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/qnet/algebra/core/scalar_algebra.py b/src/qnet/algebra/core/scalar_algebra.py
index 8c1cd82..2a98cac 100644
--- a/src/qnet/algebra/core/scalar_algebra.py
+++ b/src/qnet/algebra/core/scalar_algebra.py
@@ -75,9 +75,8 @@ class Scalar(QuantumExpression, metaclass=ABCMeta):
         return super().__mul__(other)
 
     def __floordiv__(self, other):
-        if other == 1:
-            return self // 1  # Note: 3.5 // 1 == 3.0 != 3.5; -> NOT self
-        elif other == 0:
+        # Note: 3.5 // 1 == 3.0 != 3.5; -> there is no shortcut for other == 1
+        if other == 0:
             raise ZeroDivisionError("integer division or modulo by zero")
         try:
             # noinspection PyUnresolvedReferences
@@ -101,9 +100,7 @@ class Scalar(QuantumExpression, metaclass=ABCMeta):
         return super().__truediv__(other)
 
     def __mod__(self, other):
-        if other == 1:
-            return Zero
-        elif other == 0:
+        if other == 0:
             raise ZeroDivisionError("integer division or modulo by zero")
         try:
             # noinspection PyUnresolvedReferences
@@ -382,8 +379,10 @@ class ScalarValue(Scalar):
             return self.create(self.val // other.val)
         elif isinstance(other, self._val_types):
             return self.create(self.val // other)
+        elif other == 1:
+            return self.create(self.val // 1)
         else:
-            return super().__floordiv__(other)  # other == 0, 1
+            return super().__floordiv__(other)  # other == 0
 
     def __truediv__(self, other):
         if isinstance(other, ScalarValue):
@@ -403,8 +402,10 @@ class ScalarValue(Scalar):
             return self.create(self.val % other.val)
         elif isinstance(other, self._val_types):
             return self.create(self.val % other)
+        elif other == 1:
+            return self.create(self.val % 1)
         else:
-            return super().__mod__(other)  # other == 0, 1
+            return super().__mod__(other)  # other == 0
 
     def __pow__(self, other):
         if isinstance(other, ScalarValue):
@@ -590,6 +591,8 @@ class Zero(Scalar, metaclass=Singleton):
             return ScalarValue.create(0 // other.val)
         elif isinstance(other, self._val_types):
             return ScalarValue.create(0 // other)
+        elif other == 1:
+            return self
         else:
             return super().__floordiv__(other)
 
@@ -606,6 +609,8 @@ class Zero(Scalar, metaclass=Singleton):
             return ScalarValue.create(0 % other.val)
         elif isinstance(other, self._val_types):
             return ScalarValue.create(0 % other)
+        elif other == 1:
+            return self
         else:
             return super().__mod__(other)
 
@@ -762,6 +767,8 @@ class One(Scalar, metaclass=Singleton):
             return ScalarValue.create(1 // other.val)
         elif isinstance(other, self._val_types):
             return ScalarValue.create(1 // other)
+        elif other == 1:
+            return self
         else:
             return super().__floordiv__(other)
 
@@ -778,6 +785,8 @@ class One(Scalar, metaclass=Singleton):
             return ScalarValue.create(1 % other.val)
         elif isinstance(other, self._val_types):
             return ScalarValue.create(1 % other)
+        elif other == 1:
+            return Zero
         else:
             return super().__mod__(other)
 
@@ -801,7 +810,13 @@ class One(Scalar, metaclass=Singleton):
         else:
             return super().__radd__(other)
 
-    __rfloordiv = __rtruediv__ = __rmul__ = __rpow__ = __mul__
+    __rtruediv__ = __rmul__ = __rpow__ = __mul__
+
+    def __rfloordiv__(self, other):
+        if isinstance(other, self._val_types):
+            return ScalarValue.create(other // 1)
+        else:
+            return super().__rfloordiv__(other)
 
     def __rmod__(self, other):
         if isinstance(other, self._val_types):
-- 
2.43.0


From 72c7f636b117a5f14f73e43d8d76edb445a3ee7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:48 +0000
Subject: [PATCH 010/132] fix: subtraction from and division of One when the
 other operand is no plain value

---
 src/qnet/algebra/core/scalar_algebra.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/qnet/algebra/core/scalar_algebra.py b/src/qnet/algebra/core/scalar_algebra.py
index 2a98cac..83fd139 100644
--- a/src/qnet/algebra/core/scalar_algebra.py
+++ b/src/qnet/algebra/core/scalar_algebra.py
@@ -429,7 +429,7 @@ class ScalarValue(Scalar):
         elif isinstance(other, self._val_types):
             return self.create(other - self.val)
         else:
-            return super().__radd__(other)  # other == 0
+            return super().__rsub__(other)  # other == 0
 
     def __rmul__(self, other):
         if isinstance(other, self._val_types):
@@ -754,7 +754,7 @@ class One(Scalar, metaclass=Singleton):
         elif other == 1:
             return Zero
         else:
-            return super().__add__(other)
+            return super().__sub__(other)
 
     def __mul__(self, other):
         if isinstance(other, self._val_types):
@@ -778,7 +778,7 @@ class One(Scalar, metaclass=Singleton):
         elif isinstance(other, self._val_types):
             return ScalarValue.create(1 / other)
         else:
-            return super().__floordiv__(other)
+            return super().__truediv__(other)
 
     def __mod__(self, other):
         if isinstance(other, ScalarValue):
@@ -808,7 +808,7 @@ class One(Scalar, metaclass=Singleton):
         if isinstance(other, self._val_types):
             return ScalarValue.create(other - 1)
         else:
-            return super().__radd__(other)
+            return super().__rsub__(other)
 
     __rtruediv__ = __rmul__ = __rpow__ = __mul__
 
-- 
2.43.0


From 6d1af7d07f0f45a1801e7ddcd3a7be228bdf24c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:39 +0000
Subject: [PATCH 011/132] fix: dividing a scalar by zero raises
 ZeroDivisionError

---
 src/qnet/algebra/core/scalar_algebra.py | 31 ++++++++++++++++++-------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/qnet/algebra/core/scalar_algebra.py b/src/qnet/algebra/core/scalar_algebra.py
index 83fd139..c7cdedf 100644
--- a/src/qnet/algebra/core/scalar_algebra.py
+++ b/src/qnet/algebra/core/scalar_algebra.py
@@ -375,6 +375,8 @@ class ScalarValue(Scalar):
             return super().__mul__(other)  # other == 0, 1
 
     def __floordiv__(self, other):
+        if other == 0:
+            raise ZeroDivisionError("integer division or modulo by zero")
         if isinstance(other, ScalarValue):
             return self.create(self.val // other.val)
         elif isinstance(other, self._val_types):
@@ -382,22 +384,21 @@ class ScalarValue(Scalar):
         elif other == 1:
             return self.create(self.val // 1)
         else:
-            return super().__floordiv__(other)  # other == 0
+            return super().__floordiv__(other)
 
     def __truediv__(self, other):
+        if other == 0:
+            raise ZeroDivisionError("integer division or modulo by zero")
         if isinstance(other, ScalarValue):
             return self.create(self.val / other.val)
         elif isinstance(other, self._val_types):
-            try:
-                return self.create(self.val / other)
-            except ValueError:
-                # sympy may produce 'infinity', which `create` catches as a
-                # ValueError
-                raise ZeroDivisionError("integer division or modulo by zero")
+            return self.create(self.val / other)
         else:
-            return super().__truediv__(other)  # other == 0, 1
+            return super().__truediv__(other)  # other == 1
 
     def __mod__(self, other):
+        if other == 0:
+            raise ZeroDivisionError("integer division or modulo by zero")
         if isinstance(other, ScalarValue):
             return self.create(self.val % other.val)
         elif isinstance(other, self._val_types):
@@ -405,7 +406,7 @@ class ScalarValue(Scalar):
         elif other == 1:
             return self.create(self.val % 1)
         else:
-            return super().__mod__(other)  # other == 0
+            return super().__mod__(other)
 
     def __pow__(self, other):
         if isinstance(other, ScalarValue):
@@ -587,6 +588,8 @@ class Zero(Scalar, metaclass=Singleton):
             return self
 
     def __floordiv__(self, other):
+        if other == 0:
+            raise ZeroDivisionError("integer division or modulo by zero")
         if isinstance(other, ScalarValue):
             return ScalarValue.create(0 // other.val)
         elif isinstance(other, self._val_types):
@@ -597,6 +600,8 @@ class Zero(Scalar, metaclass=Singleton):
             return super().__floordiv__(other)
 
     def __truediv__(self, other):
+        if other == 0:
+            raise ZeroDivisionError("integer division or modulo by zero")
         if isinstance(other, ScalarValue):
             return ScalarValue.create(0 / other.val)
         elif isinstance(other, self._val_types):
@@ -605,6 +610,8 @@ class Zero(Scalar, metaclass=Singleton):
             return super().__truediv__(other)
 
     def __mod__(self, other):
+        if other == 0:
+            raise ZeroDivisionError("integer division or modulo by zero")
         if isinstance(other, ScalarValue):
             return ScalarValue.create(0 % other.val)
         elif isinstance(other, self._val_types):
@@ -763,6 +770,8 @@ class One(Scalar, metaclass=Singleton):
             return other
 
     def __floordiv__(self, other):
+        if other == 0:
+            raise ZeroDivisionError("integer division or modulo by zero")
         if isinstance(other, ScalarValue):
             return ScalarValue.create(1 // other.val)
         elif isinstance(other, self._val_types):
@@ -773,6 +782,8 @@ class One(Scalar, metaclass=Singleton):
             return super().__floordiv__(other)
 
     def __truediv__(self, other):
+        if other == 0:
+            raise ZeroDivisionError("integer division or modulo by zero")
         if isinstance(other, ScalarValue):
             return ScalarValue.create(1 / other.val)
         elif isinstance(other, self._val_types):
@@ -781,6 +792,8 @@ class One(Scalar, metaclass=Singleton):
             return super().__truediv__(other)
 
     def __mod__(self, other):
+        if other == 0:
+            raise ZeroDivisionError("integer division or modulo by zero")
         if isinstance(other, ScalarValue):
             return ScalarValue.create(1 % other.val)
         elif isinstance(other, self._val_types):
-- 
2.43.0


From 6844d2d18a4eaabc0c4a570e5e794556c5d99d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:25 +0000
Subject: [PATCH 012/132] fix: adding to and subtracting from an indexed sum

---
 src/qnet/algebra/core/abstract_quantum_algebra.py | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/src/qnet/algebra/core/abstract_quantum_algebra.py b/src/qnet/algebra/core/abstract_quantum_algebra.py
index 386f030..90d376c 100644
--- a/src/qnet/algebra/core/abstract_quantum_algebra.py
+++ b/src/qnet/algebra/core/abstract_quantum_algebra.py
@@ -892,18 +892,6 @@ class QuantumIndexedSum(IndexedSum, SingleQuantumOperation, metaclass=ABCMeta):
             return new_term.__class__._indexed_sum_cls.create(
                 new_term, *sum.ranges)
 
-    def __add__(self, other):
-        raise NotImplementedError()
-
-    def __radd__(self, other):
-        raise NotImplementedError()
-
-    def __sub__(self, other):
-        raise NotImplementedError()
-
-    def __rsub__(self, other):
-        raise NotImplementedError()
-
 
 def _sum_over_list(term, idx, values):
     return IndexOverList(idx, values)
-- 
2.43.0


From 8af54303c342e0c162e712396c65de388589fe28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:31 +0000
Subject: [PATCH 013/132] fix: renaming sum indices must not clash with symbols
 already used in the sum

---
 src/qnet/algebra/core/indexed_operations.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/qnet/algebra/core/indexed_operations.py b/src/qnet/algebra/core/indexed_operations.py
index 9c95a0e..daea16f 100644
--- a/src/qnet/algebra/core/indexed_operations.py
+++ b/src/qnet/algebra/core/indexed_operations.py
@@ -202,7 +202,6 @@ class IndexedSum(Operation, metaclass=ABCMeta):
         Each index symbol is primed until it does not match any index symbol in
         `others`.
         """
-        new = self
         other_index_symbols = set()
         for other in others:
             try:
@@ -222,16 +221,20 @@ class IndexedSum(Operation, metaclass=ABCMeta):
                     "IndexRangeBase, an object with a `ranges` attribute "
                     "with a list of IndexRangeBase instances, or a list of"
                     "IndexRangeBase objects.")
+        # the new symbols must not clash with any symbol already in use either
+        used_symbols = (
+            other_index_symbols | set(self.variables) | self.term.all_symbols)
+        var_map = {}
         for r in self.ranges:
             index_symbol = r.index_symbol
-            modified = False
-            while index_symbol in other_index_symbols:
-                modified = True
-                index_symbol = index_symbol.incr_primed()
-            if modified:
-                new = new._substitute(
-                    {r.index_symbol: index_symbol}, safe=True)
-        return new
+            if index_symbol in other_index_symbols:
+                while index_symbol in used_symbols:
+                    index_symbol = index_symbol.incr_primed()
+                used_symbols.add(index_symbol)
+                var_map[r.index_symbol] = index_symbol
+        if len(var_map) == 0:
+            return self
+        return self._substitute(var_map, safe=True)
 
     def __mul__(self, other):
         if isinstance(other, IndexedSum):
-- 
2.43.0


From 48ae26822e388a2e92e761c3d163b4509308b5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:25 +0000
Subject: [PATCH 014/132] fix: products of indexed sums with scaled or
 index-dependent factors

---
 .../algebra/core/abstract_quantum_algebra.py  | 36 ++++++++++++-------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/qnet/algebra/core/abstract_quantum_algebra.py b/src/qnet/algebra/core/abstract_quantum_algebra.py
index 90d376c..432e23f 100644
--- a/src/qnet/algebra/core/abstract_quantum_algebra.py
+++ b/src/qnet/algebra/core/abstract_quantum_algebra.py
@@ -22,7 +22,8 @@ from .indexed_operations import IndexedSum
 from ...utils.ordering import (
     DisjunctCommutativeHSOrder, FullCommutativeHSOrder, KeyTuple, )
 from ...utils.indices import (
-    SymbolicLabelBase, IndexOverList, IndexOverFockSpace, IndexOverRange)
+    IdxSym, SymbolicLabelBase, IndexOverList, IndexOverFockSpace,
+    IndexOverRange)
 
 
 __all__ = [
@@ -855,19 +856,22 @@ class QuantumIndexedSum(IndexedSum, SingleQuantumOperation, metaclass=ABCMeta):
     def __mul__(self, other):
         from qnet.algebra.core.scalar_algebra import is_scalar
         if isinstance(other, IndexedSum):
-            other = other.make_disjunct_indices(self)
-            new_ranges = self.ranges + other.ranges
-            new_term = self.term * other.term
+            self_new = self.make_disjunct_indices(
+                *_free_index_symbols(other))
+            other = other.make_disjunct_indices(
+                self_new, *_free_index_symbols(self_new))
+            new_ranges = self_new.ranges + other.ranges
+            new_term = self_new.term * other.term
             # note that class may change, depending on type of new_term
             return new_term.__class__._indexed_sum_cls.create(
                 new_term, *new_ranges)
         elif is_scalar(other):
-            return self.__class__._scalar_times_expr_cls(other, self)
+            return self.__class__._scalar_times_expr_cls.create(other, self)
         elif isinstance(other, ScalarTimesQuantumExpression):
-            return self._class__._scalar_times_expr_cls(
-                other.coeff, self * other.term)
+            return other.coeff * (self * other.term)
         else:
-            sum = self.make_disjunct_indices(*other.bound_symbols)
+            sum = self.make_disjunct_indices(
+                *other.bound_symbols, *_free_index_symbols(other))
             new_term = sum.term * other
             return new_term.__class__._indexed_sum_cls.create(
                 new_term, *sum.ranges)
@@ -875,7 +879,10 @@ class QuantumIndexedSum(IndexedSum, SingleQuantumOperation, metaclass=ABCMeta):
     def __rmul__(self, other):
         from qnet.algebra.core.scalar_algebra import is_scalar
         if isinstance(other, IndexedSum):
-            self_new = self.make_disjunct_indices(other)
+            other = other.make_disjunct_indices(
+                *_free_index_symbols(self))
+            self_new = self.make_disjunct_indices(
+                other, *_free_index_symbols(other))
             new_ranges = other.ranges + self_new.ranges
             new_term = other.term * self_new.term
             # note that class may change, depending on type of new_term
@@ -884,15 +891,20 @@ class QuantumIndexedSum(IndexedSum, SingleQuantumOperation, metaclass=ABCMeta):
         elif is_scalar(other):
             return self.__class__._scalar_times_expr_cls.create(other, self)
         elif isinstance(other, ScalarTimesQuantumExpression):
-            return self._class__._scalar_times_expr_cls(
-                other.coeff, other.term * self)
+            return other.coeff * (other.term * self)
         else:
-            sum = self.make_disjunct_indices(*other.bound_symbols)
+            sum = self.make_disjunct_indices(
+                *other.bound_symbols, *_free_index_symbols(other))
             new_term = other * sum.term
             return new_term.__class__._indexed_sum_cls.create(
                 new_term, *sum.ranges)
 
 
+def _free_index_symbols(expr):
+    """List of the free symbols in `expr` that are index symbols"""
+    return [sym for sym in expr.free_symbols if isinstance(sym, IdxSym)]
+
+
 def _sum_over_list(term, idx, values):
     return IndexOverList(idx, values)
 
-- 
2.43.0


From 32ec12bf11b8ac939afe421ede7d28a0065bf9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:48 +0000
Subject: [PATCH 015/132] fix: inner and outer products of indexed sums of
 states capture indices

---
 src/qnet/algebra/core/indexed_operations.py |  8 +++--
 src/qnet/algebra/core/state_algebra.py      | 37 +++++++++++++++------
 2 files changed, 32 insertions(+), 13 deletions(-)

diff --git a/src/qnet/algebra/core/indexed_operations.py b/src/qnet/algebra/core/indexed_operations.py
index daea16f..369340d 100644
--- a/src/qnet/algebra/core/indexed_operations.py
+++ b/src/qnet/algebra/core/indexed_operations.py
@@ -56,16 +56,18 @@ class IndexedSum(Operation, metaclass=ABCMeta):
     def bound_symbols(self):
         """Set of bound variables, i.e. the index variable symbols
 
-        See also :property:`variables` for an ordered list of the same symbols
+        This includes any symbols that are bound inside of :attr:`term`. See
+        also :property:`variables` for an ordered list of the index symbols of
+        the sum itself.
         """
-        return set(self.variables)
+        return set(self.variables) | self.term.bound_symbols
 
     @property
     def free_symbols(self):
         """Set of all free symbols"""
         return set([
             sym for sym in self.term.free_symbols
-            if sym not in self.bound_symbols])
+            if sym not in self.variables])
 
     @property
     def kwargs(self):
diff --git a/src/qnet/algebra/core/state_algebra.py b/src/qnet/algebra/core/state_algebra.py
index 74b6bee..01b9812 100644
--- a/src/qnet/algebra/core/state_algebra.py
+++ b/src/qnet/algebra/core/state_algebra.py
@@ -44,6 +44,19 @@ __private__ = []  # anything not in __all__ must be in __private__
 ###############################################################################
 
 
+def _index_symbols(expr):
+    """List of all index symbols occurring in `expr` (free or bound)"""
+    return [sym for sym in expr.all_symbols if isinstance(sym, IdxSym)]
+
+
+def _disjunct_sums(sum1, sum2):
+    """The indexed sums `sum1`, `sum2`, with their indices renamed so that they
+    may be combined into a single sum"""
+    sum1 = sum1.make_disjunct_indices(*[
+        sym for sym in sum2.free_symbols if isinstance(sym, IdxSym)])
+    return sum1, sum2.make_disjunct_indices(sum1, *_index_symbols(sum1))
+
+
 class State(QuantumExpression, metaclass=ABCMeta):
     """Base class for states in a Hilbert space"""
 
@@ -109,32 +122,36 @@ class State(QuantumExpression, metaclass=ABCMeta):
                 # Ket * Bra
                 is_sum = check_if_sum(self, other.ket)
                 if is_sum == [True, True]:
-                    other_ket = other.ket.make_disjunct_indices(self)
-                    new_term = self.term * Bra(other_ket.term)
-                    new_ranges = self.ranges + other_ket.ranges
+                    ket, other_ket = _disjunct_sums(self, other.ket)
+                    new_term = ket.term * Bra(other_ket.term)
+                    new_ranges = ket.ranges + other_ket.ranges
                     return new_term.__class__._indexed_sum_cls.create(
                         new_term, *new_ranges)
                 elif is_sum == [True, False]:
                     return QuantumIndexedSum.__mul__(self, other)
                 elif is_sum == [False, True]:
-                    new_term = self * Bra(other.ket.term)
+                    other_ket = other.ket.make_disjunct_indices(
+                        *_index_symbols(self))
+                    new_term = self * Bra(other_ket.term)
                     return new_term.__class__._indexed_sum_cls.create(
-                        new_term, *other.ket.ranges)
+                        new_term, *other_ket.ranges)
                 elif is_sum == [False, False]:
                     return KetBra.create(self, other.ket)
             elif isket == (False, True):
                 # Bra * Ket
                 is_sum = check_if_sum(self.ket, other)
                 if is_sum == [True, True]:
-                    other = other.make_disjunct_indices(self.ket)
-                    new_term = Bra(self.ket.term) * other.term
-                    new_ranges = self.ket.ranges + other.ranges
+                    ket, other = _disjunct_sums(self.ket, other)
+                    new_term = Bra(ket.term) * other.term
+                    new_ranges = ket.ranges + other.ranges
                     return new_term.__class__._indexed_sum_cls.create(
                         new_term, *new_ranges)
                 elif is_sum == [True, False]:
-                    new_term = Bra(self.ket.term) * other
+                    ket = self.ket.make_disjunct_indices(
+                        *_index_symbols(other))
+                    new_term = Bra(ket.term) * other
                     return new_term.__class__._indexed_sum_cls.create(
-                        new_term, *self.ket.ranges)
+                        new_term, *ket.ranges)
                 elif is_sum == [False, True]:
                     return QuantumIndexedSum.__rmul__(other, self)
                 elif is_sum == [False, False]:
-- 
2.43.0


From 7ec905a66bfbe24f373b4569f1612ea9956d7841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:31 +0000
Subject: [PATCH 016/132] fix: powers with an integer-valued float or scalar
 exponent

---
 src/qnet/algebra/core/abstract_quantum_algebra.py | 2 +-
 src/qnet/algebra/core/scalar_algebra.py           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qnet/algebra/core/abstract_quantum_algebra.py b/src/qnet/algebra/core/abstract_quantum_algebra.py
index 432e23f..f664c83 100644
--- a/src/qnet/algebra/core/abstract_quantum_algebra.py
+++ b/src/qnet/algebra/core/abstract_quantum_algebra.py
@@ -283,7 +283,7 @@ class QuantumExpression(Expression, metaclass=ABCMeta):
             if other_is_int:
                 if other > 1:
                     return self.__class__._times_cls.create(
-                        *[self for _ in range(other)])
+                        *[self for _ in range(int(other))])
                 elif other < 1:
                     return 1 / self**(-other)
                 else:
diff --git a/src/qnet/algebra/core/scalar_algebra.py b/src/qnet/algebra/core/scalar_algebra.py
index c7cdedf..49af1e4 100644
--- a/src/qnet/algebra/core/scalar_algebra.py
+++ b/src/qnet/algebra/core/scalar_algebra.py
@@ -1048,7 +1048,7 @@ class ScalarIndexedSum(QuantumIndexedSum, Scalar):
             if other_is_int:
                 if other > 1:
                     res = self
-                    for _ in range(other - 1):
+                    for _ in range(int(other) - 1):
                         res = res * self
                     return res
                 else:
-- 
2.43.0


From adafc258f5ee29a55132676f5543357bd5c93166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:18 +0000
Subject: [PATCH 017/132] fix: sqrt of a negative float

---
 src/qnet/algebra/core/scalar_algebra.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/scalar_algebra.py b/src/qnet/algebra/core/scalar_algebra.py
index 49af1e4..a969633 100644
--- a/src/qnet/algebra/core/scalar_algebra.py
+++ b/src/qnet/algebra/core/scalar_algebra.py
@@ -1224,7 +1224,8 @@ def sqrt(scalar):
     elif scalar == 0:
         return Zero
     elif isinstance(scalar, (float, complex, complex128, float64)):
-        return ScalarValue.create(numpy.sqrt(scalar))
+        # unlike numpy.sqrt, this yields an imaginary result for negative floats
+        return ScalarValue.create(numpy.lib.scimath.sqrt(scalar))
     elif isinstance(scalar, (int, sympy.Basic, int64)):
         return ScalarValue.create(sympy.sqrt(scalar))
     elif isinstance(scalar, Scalar):
-- 
2.43.0


From 88d6ef7f8fbb4739e6c3cd694ea623780ffcb8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:21 +0000
Subject: [PATCH 018/132] fix: inequality of scalars that wrap numpy values

---
 src/qnet/algebra/core/abstract_algebra.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/abstract_algebra.py b/src/qnet/algebra/core/abstract_algebra.py
index 5493560..29d5bef 100644
--- a/src/qnet/algebra/core/abstract_algebra.py
+++ b/src/qnet/algebra/core/abstract_algebra.py
@@ -16,6 +16,7 @@ import textwrap
 from collections import OrderedDict
 from abc import ABCMeta, abstractmethod
 
+import numpy
 from sympy import (
     Basic as SympyBasic)
 from sympy.core.sympify import SympifyError
@@ -664,7 +665,7 @@ class Expression(metaclass=ABCMeta):
         Otherwise return NotImplemented.
         """
         eq = self.__eq__(other)
-        if type(eq) is bool:
+        if isinstance(eq, (bool, numpy.bool_)):
             return not eq
         return NotImplemented
 
-- 
2.43.0


From 3e172aafa98291b83642c813dd3965e6c4f9778b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:45 +0000
Subject: [PATCH 019/132] fix: powers of powers are only combined for integer
 exponents

---
 src/qnet/algebra/_rules.py              | 11 +++++++++--
 src/qnet/algebra/core/scalar_algebra.py | 14 +++++++++++++-
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/qnet/algebra/_rules.py b/src/qnet/algebra/_rules.py
index b1c117d..97fac80 100644
--- a/src/qnet/algebra/_rules.py
+++ b/src/qnet/algebra/_rules.py
@@ -18,7 +18,7 @@ from .library.fock_operators import (
     Displace, Squeeze)
 from .core.scalar_algebra import (
     Scalar, ScalarExpression, ScalarValue, ScalarPlus, ScalarTimes,
-    ScalarPower, ScalarIndexedSum, Zero, One, KroneckerDelta)
+    ScalarPower, ScalarIndexedSum, Zero, One, KroneckerDelta, _is_integer)
 from .core.state_algebra import (
     BasisKet, Bra, BraKet, CoherentStateKet, State, KetBra, KetIndexedSum,
     KetPlus, LocalKet, OperatorTimesKet, ScalarTimesKet, TensorKet, TrivialKet,
@@ -72,6 +72,13 @@ def _algebraic_rules_scalar():
             lambda x: One)),
     ]))
 
+    def power_of_power(x, y, z):
+        # (x^y)^z = x^(y*z) does not hold e.g. for (x^2)^(1/2)
+        if _is_integer(z):
+            return x**(y*z)
+        else:
+            raise CannotSimplify
+
     ScalarPower._rules.update(check_rules_dict([
         ('R001', (
             pattern_head(a, b),
@@ -84,7 +91,7 @@ def _algebraic_rules_scalar():
             lambda x: x)),
         ('R004', (
             pattern_head(pattern(ScalarPower, x, y), z),
-            lambda x, y, z: x**(y*z))),
+            power_of_power)),
     ]))
 
     def pull_constfactor_from_sum(x, y, indranges):
diff --git a/src/qnet/algebra/core/scalar_algebra.py b/src/qnet/algebra/core/scalar_algebra.py
index a969633..88f94f5 100644
--- a/src/qnet/algebra/core/scalar_algebra.py
+++ b/src/qnet/algebra/core/scalar_algebra.py
@@ -1090,7 +1090,11 @@ class ScalarPower(QuantumOperation, Scalar):
         return self._exp
 
     def __pow__(self, other):
-        return ScalarPower.create(self.base, self.exp * other)
+        if _is_integer(other):
+            return ScalarPower.create(self.base, self.exp * other)
+        else:
+            # (x^y)^z = x^(y*z) does not hold e.g. for (x^2)^(1/2)
+            return ScalarPower.create(self, other)
 
     def _adjoint(self):
         return self.__class__.create(
@@ -1131,6 +1135,14 @@ class ScalarDerivative(QuantumDerivative, Scalar):
     pass
 
 
+def _is_integer(val):
+    """Whether the scalar `val` has an explicit integer value"""
+    try:
+        return bool(val == int(val))
+    except (TypeError, ValueError):
+        return False
+
+
 def KroneckerDelta(i, j, simplify=True):
     """Kronecker delta symbol
 
-- 
2.43.0


From c0c173095606751e31bd3a8d3930ca3f2f452ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:03 +0000
Subject: [PATCH 020/132] fix: comparing a wrapped numpy value with a tuple

---
 src/qnet/algebra/core/scalar_algebra.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qnet/algebra/core/scalar_algebra.py b/src/qnet/algebra/core/scalar_algebra.py
index 88f94f5..b740cb4 100644
--- a/src/qnet/algebra/core/scalar_algebra.py
+++ b/src/qnet/algebra/core/scalar_algebra.py
@@ -310,6 +310,9 @@ class ScalarValue(Scalar):
     def __eq__(self, other):
         if isinstance(other, ScalarValue):
             return self.val == other.val
+        elif isinstance(other, (tuple, list)):
+            # numpy values would compare element-wise
+            return False
         else:
             return self.val == other
 
-- 
2.43.0


From 4c5b36e81a7aaadb2fa56e5a518c117840b9501d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:03 +0000
Subject: [PATCH 021/132] fix: order the summands in the adjoint of a sum

---
 src/qnet/algebra/core/abstract_quantum_algebra.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/abstract_quantum_algebra.py b/src/qnet/algebra/core/abstract_quantum_algebra.py
index f664c83..833b70e 100644
--- a/src/qnet/algebra/core/abstract_quantum_algebra.py
+++ b/src/qnet/algebra/core/abstract_quantum_algebra.py
@@ -499,7 +499,8 @@ class QuantumPlus(QuantumOperation, metaclass=ABCMeta):
         return sum([o.diff(sym) for o in self.operands], self.__class__._zero)
 
     def _adjoint(self):
-        return self.__class__._plus_cls(*[o.adjoint() for o in self.operands])
+        return self.__class__._plus_cls.create(
+            *[o.adjoint() for o in self.operands])
 
 
 class QuantumTimes(QuantumOperation, metaclass=ABCMeta):
-- 
2.43.0


From ee68ae09198277d148a57c617b80c0925d06f86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:48 +0000
Subject: [PATCH 022/132] fix: expanding the adjoint of an expression that
 expands to a sum

---
 src/qnet/algebra/core/abstract_quantum_algebra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/abstract_quantum_algebra.py b/src/qnet/algebra/core/abstract_quantum_algebra.py
index 833b70e..73ee7e6 100644
--- a/src/qnet/algebra/core/abstract_quantum_algebra.py
+++ b/src/qnet/algebra/core/abstract_quantum_algebra.py
@@ -464,7 +464,7 @@ class QuantumAdjoint(SingleQuantumOperation, metaclass=ABCMeta):
     def _expand(self):
         eo = self.operand.expand()
         if isinstance(eo, self.__class__._plus_cls):
-            summands = [eoo.adjoin() for eoo in eo.operands]
+            summands = [eoo.adjoint() for eoo in eo.operands]
             return self.__class__._plus_cls.create(*summands)
         return eo.adjoint()
 
-- 
2.43.0


From 439a679dc6911c9237b1d984cd871fedd8b3b384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:48 +0000
Subject: [PATCH 023/132] fix: quotient, intersection and disjointness of local
 spaces, products and FullSpace

---
 src/qnet/algebra/core/hilbert_space_algebra.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/qnet/algebra/core/hilbert_space_algebra.py b/src/qnet/algebra/core/hilbert_space_algebra.py
index 09d7ce6..7a0184e 100644
--- a/src/qnet/algebra/core/hilbert_space_algebra.py
+++ b/src/qnet/algebra/core/hilbert_space_algebra.py
@@ -64,7 +64,7 @@ class HilbertSpace(metaclass=ABCMeta):
         other Hilbert space, while `TrivialSpace` *is* disjoint with any other
         HilbertSpace (even itself)
         """
-        if other == FullSpace:
+        if self is FullSpace or other is FullSpace:
             return False
         else:
             for ls in self.local_factors:
@@ -439,12 +439,12 @@ class LocalSpace(HilbertSpace, Expression):
         return self._minimal_kwargs
 
     def remove(self, other):
-        if other == self:
+        if other is FullSpace or self in other.local_factors:
             return TrivialSpace
         return self
 
     def intersect(self, other):
-        if self in other.local_factors:
+        if other is FullSpace or self in other.local_factors:
             return self
         return TrivialSpace
 
-- 
2.43.0


From 447925a3a77c615c9af46522ca263696852f8504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:55 +0000
Subject: [PATCH 024/132] fix: factoring of partial traces only moves commuting
 operators

---
 src/qnet/algebra/core/operator_algebra.py | 36 ++++++++++++++++-------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/qnet/algebra/core/operator_algebra.py b/src/qnet/algebra/core/operator_algebra.py
index 25e1d02..96d221f 100644
--- a/src/qnet/algebra/core/operator_algebra.py
+++ b/src/qnet/algebra/core/operator_algebra.py
@@ -852,11 +852,28 @@ def factor_for_trace(ls: HilbertSpace, op: Operator) -> Operator:
     if ls & op.space == TrivialSpace:
         return ls.dimension * op
     if ls < op.space and isinstance(op, OperatorTimes):
-        pull_out = [o for o in op.operands if (o.space & ls) == TrivialSpace]
-
-        rest = [o for o in op.operands if (o.space & ls) != TrivialSpace]
-        if (not isinstance(rest[0], LocalSigma) or
-            not isinstance(rest[-1], LocalSigma)):
+        # operands can be pulled out only if they commute with everything that
+        # they have to be moved past
+        pull_left = []
+        rest = []
+        for o in op.operands:
+            if ((o.space & ls) == TrivialSpace and
+                    all((o.space & r.space) == TrivialSpace for r in rest)):
+                pull_left.append(o)
+            else:
+                rest.append(o)
+        pull_right = []
+        inner = []
+        for o in reversed(rest):
+            if ((o.space & ls) == TrivialSpace and
+                    all((o.space & r.space) == TrivialSpace for r in inner)):
+                pull_right.insert(0, o)
+            else:
+                inner.insert(0, o)
+        rest = inner
+        if (all(o.space == ls for o in rest) and
+            (not isinstance(rest[0], LocalSigma) or
+             not isinstance(rest[-1], LocalSigma))):
             for j, r in enumerate(rest):
                 if isinstance(r, LocalSigma):
                     m = r.j
@@ -864,12 +881,11 @@ def factor_for_trace(ls: HilbertSpace, op: Operator) -> Operator:
                         rest[j:] + rest[:j] +
                         [LocalSigma.create(m, m, hs=ls), ])
                     break
-        if not rest:
-            rest = [IdentityOperator]
-        if len(pull_out):
-            return (OperatorTimes.create(*pull_out) *
+        if pull_left or pull_right:
+            return (OperatorTimes.create(*pull_left) *
                     OperatorTrace.create(OperatorTimes.create(*rest),
-                                         over_space=ls))
+                                         over_space=ls) *
+                    OperatorTimes.create(*pull_right))
     raise CannotSimplify()
 
 
-- 
2.43.0


From 837a866a17c859d3f443654f7b6b24d36fda85dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:46 +0000
Subject: [PATCH 025/132] fix: infinite recursion for an empty product of kets

---
 src/qnet/algebra/core/algebraic_properties.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qnet/algebra/core/algebraic_properties.py b/src/qnet/algebra/core/algebraic_properties.py
index 620ad1c..071b800 100644
--- a/src/qnet/algebra/core/algebraic_properties.py
+++ b/src/qnet/algebra/core/algebraic_properties.py
@@ -632,6 +632,8 @@ def accept_bras(cls, ops, kwargs):
     """Accept operands that are all bras, and turn that into to bra of the
     operation applied to all corresponding kets"""
     from qnet.algebra.core.state_algebra import Bra
+    if len(ops) == 0:
+        return ops, kwargs
     kets = []
     for bra in ops:
         if isinstance(bra, Bra):
-- 
2.43.0


From 74bf2a578e3fb1f75de9616b242b001ff7da4eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:54 +0000
Subject: [PATCH 026/132] fix: simplify_scalar for basis states of a space
 without a finite basis

---
 src/qnet/algebra/core/abstract_quantum_algebra.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qnet/algebra/core/abstract_quantum_algebra.py b/src/qnet/algebra/core/abstract_quantum_algebra.py
index 73ee7e6..3bcbc64 100644
--- a/src/qnet/algebra/core/abstract_quantum_algebra.py
+++ b/src/qnet/algebra/core/abstract_quantum_algebra.py
@@ -372,6 +372,8 @@ class QuantumSymbol(QuantumExpression, metaclass=ABCMeta):
             return super()._series_expand(param, about, order)
 
     def _simplify_scalar(self, func):
+        if len(self._sym_args) == 0:
+            return self
         simplified_sym_args = [func(sym) for sym in self._sym_args]
         return self.create(self.label, *simplified_sym_args, hs=self.space)
 
-- 
2.43.0


From b110c869c0c10aae8d96e196d450aa4b1f3abdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:54 +0000
Subject: [PATCH 027/132] fix: expanding the commutator of a product of two
 operators

---
 src/qnet/algebra/toolbox/commutator_manipulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/algebra/toolbox/commutator_manipulation.py b/src/qnet/algebra/toolbox/commutator_manipulation.py
index bdec62b..f177ad5 100644
--- a/src/qnet/algebra/toolbox/commutator_manipulation.py
+++ b/src/qnet/algebra/toolbox/commutator_manipulation.py
@@ -40,7 +40,7 @@ def expand_commutators_leibniz(expr, expand_expr=True):
     def leibniz_left(AB, C):
         """[AB, C] -> A [B, C] C + [A, C] B"""
         A = AB.operands[0]
-        B = OperatorTimes(*AB.operands[1:])
+        B = OperatorTimes.create(*AB.operands[1:])
         return A * Commutator.create(B, C) + Commutator.create(A, C) * B
 
     rules = OrderedDict([
-- 
2.43.0


From 2732e2d5f310df935970998744ac8624e069cc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:26 +0000
Subject: [PATCH 028/132] fix: singletons stay unique inside
 temporary_instance_cache

---
 src/qnet/utils/singleton.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/qnet/utils/singleton.py b/src/qnet/utils/singleton.py
index 4727f1c..bb3047e 100644
--- a/src/qnet/utils/singleton.py
+++ b/src/qnet/utils/singleton.py
@@ -93,9 +93,12 @@ class Singleton(ABCMeta):
     _instances = {}
 
     def __call__(cls, *args, **kwargs):
-        if cls not in cls._instances:
-            cls._instances[cls] = super().__call__(*args, **kwargs)
-        return cls._instances[cls]
+        # not `cls._instances`, which is the (replaceable) instance cache for
+        # any class derived from Expression
+        instances = Singleton._instances
+        if cls not in instances:
+            instances[cls] = super().__call__(*args, **kwargs)
+        return instances[cls]
 
     @classmethod
     def __instancecheck__(mcs, instance):
-- 
2.43.0


From 3eebda1d718de09a0c4e0ca8c95b7473e5d0da44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:58 +0000
Subject: [PATCH 029/132] fix: derivative of an operator plus/minus its
 conjugate

---
 src/qnet/algebra/core/operator_algebra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/operator_algebra.py b/src/qnet/algebra/core/operator_algebra.py
index 96d221f..ff46c33 100644
--- a/src/qnet/algebra/core/operator_algebra.py
+++ b/src/qnet/algebra/core/operator_algebra.py
@@ -716,7 +716,7 @@ class OperatorPlusMinusCC(SingleQuantumOperation, Operator):
 
     def _diff(self, sym):
         return OperatorPlusMinusCC(
-            self.operands._diff(sym), sign=self._sign)
+            self.operand.diff(sym), sign=self._sign)
 
     def _adjoint(self):
         return OperatorPlusMinusCC(self.operand.adjoint(), sign=self._sign)
-- 
2.43.0


From dfeedd8a6626389818c10e3b03570889f5d5e0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:58 +0000
Subject: [PATCH 030/132] fix: derivatives of SPre and SPost

---
 src/qnet/algebra/core/super_operator_algebra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qnet/algebra/core/super_operator_algebra.py b/src/qnet/algebra/core/super_operator_algebra.py
index 70f566e..12103ce 100644
--- a/src/qnet/algebra/core/super_operator_algebra.py
+++ b/src/qnet/algebra/core/super_operator_algebra.py
@@ -216,7 +216,7 @@ class SPre(SuperOperator, Operation):
         return self.create(self.operands[0].simplify_scalar(func=func))
 
     def _diff(self, sym):
-        return SuperOperatorDerivative(self, {sym: 1})
+        return SPre.create(self.operands[0].diff(sym))
 
     def _adjoint(self):
         return SPost(self.operands[0])
@@ -250,7 +250,7 @@ class SPost(SuperOperator, Operation):
         return self.create(self.operands[0].simplify_scalar(func=func))
 
     def _diff(self, sym):
-        return SuperOperatorDerivative(self, {sym: 1})
+        return SPost.create(self.operands[0].diff(sym))
 
     def _adjoint(self):
         return SPre(self.operands[0])
-- 
2.43.0


From dc25ac78bb4565833fed98086a9669329b19aa3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:58 +0000
Subject: [PATCH 031/132] fix: printing of derivatives of superoperators inside
 of products

---
 src/qnet/printing/asciiprinter.py   | 2 +-
 src/qnet/printing/latexprinter.py   | 2 +-
 src/qnet/printing/unicodeprinter.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/qnet/printing/asciiprinter.py b/src/qnet/printing/asciiprinter.py
index 308b408..9782e3b 100644
--- a/src/qnet/printing/asciiprinter.py
+++ b/src/qnet/printing/asciiprinter.py
@@ -770,7 +770,7 @@ class QnetAsciiPrinter(QnetBasePrinter):
         ct = self.doprint(op)
         return self._dagger_if("%s[%s]" % (cs, ct), adjoint)
 
-    def _print_QuantumDerivative(self, expr, adjoint=False):
+    def _print_QuantumDerivative(self, expr, adjoint=False, superop=False):
         if adjoint:
             return self._dagger_if(self.doprint(expr), adjoint)
         res = ""
diff --git a/src/qnet/printing/latexprinter.py b/src/qnet/printing/latexprinter.py
index 309b61c..1b8c8e5 100644
--- a/src/qnet/printing/latexprinter.py
+++ b/src/qnet/printing/latexprinter.py
@@ -299,7 +299,7 @@ class QnetLatexPrinter(QnetAsciiPrinter):
         ct = self.doprint(op)
         return self._dagger_if(r'%s\left[%s\right]' % (cs, ct), adjoint)
 
-    def _print_QuantumDerivative(self, expr, adjoint=False):
+    def _print_QuantumDerivative(self, expr, adjoint=False, superop=False):
         if adjoint:
             return self._dagger_if(self.doprint(expr), adjoint)
         res = ""
diff --git a/src/qnet/printing/unicodeprinter.py b/src/qnet/printing/unicodeprinter.py
index 99e9d39..13f827b 100644
--- a/src/qnet/printing/unicodeprinter.py
+++ b/src/qnet/printing/unicodeprinter.py
@@ -177,7 +177,7 @@ class QnetUnicodePrinter(QnetAsciiPrinter):
             self, expr, adjoint=False, superop=True):
         return "𝟙"
 
-    def _print_QuantumDerivative(self, expr, adjoint=False):
+    def _print_QuantumDerivative(self, expr, adjoint=False, superop=False):
         if adjoint:
             return self._dagger_if(self.doprint(expr), adjoint)
         res = ""
-- 
2.43.0


From 9fb2198e320ff1975e3fe7bcdae37f4e942bb6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:58 +0000
Subject: [PATCH 032/132] fix: derivatives evaluated at a point for explicit
 expressions

---
 src/qnet/algebra/core/algebraic_properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/algebraic_properties.py b/src/qnet/algebra/core/algebraic_properties.py
index 071b800..25c67d0 100644
--- a/src/qnet/algebra/core/algebraic_properties.py
+++ b/src/qnet/algebra/core/algebraic_properties.py
@@ -997,6 +997,6 @@ def derivative_via_diff(cls, ops, kwargs):
             return op.evaluate_at(vals)
         except AttributeError:
             # for explicit Expression
-            return op.substitute(vals)
+            return op.substitute(dict(vals))
     else:
         return op
-- 
2.43.0


From b64d833c31f7e6cfa2cee2cc597119dbf108b5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:58 +0000
Subject: [PATCH 033/132] fix: substitution and chain rule of unevaluated
 derivatives

---
 .../algebra/core/abstract_quantum_algebra.py  | 52 +++++++++++++------
 1 file changed, 35 insertions(+), 17 deletions(-)

diff --git a/src/qnet/algebra/core/abstract_quantum_algebra.py b/src/qnet/algebra/core/abstract_quantum_algebra.py
index 3bcbc64..25589da 100644
--- a/src/qnet/algebra/core/abstract_quantum_algebra.py
+++ b/src/qnet/algebra/core/abstract_quantum_algebra.py
@@ -766,6 +766,26 @@ class QuantumDerivative(SingleQuantumOperation):
         new_vals.update(vals)
         return self.__class__(self.operand, derivs=self._derivs, vals=new_vals)
 
+    def _substitute(self, var_map, safe=False):
+        if self in var_map:
+            if not safe or (type(var_map[self]) == type(self)):
+                return var_map[self]
+        # The symbols of the derivative are formal parameters of the operand:
+        # substituting one of them means evaluating the derivative
+        op_map = {k: v for (k, v) in var_map.items() if k not in self._syms}
+        vals = {
+            substitute(sym, op_map): substitute(val, var_map)
+            for (sym, val) in self._vals.items()}
+        vals.update({
+            sym: var_map[sym] for sym in self._syms
+            if sym not in self._vals and sym in var_map})
+        cls_or_create = self.__class__ if safe else self.create
+        return cls_or_create(
+            substitute(self.operand, op_map),
+            derivs={substitute(sym, op_map): n
+                    for (sym, n) in self._derivs.items()},
+            vals=(vals or None))
+
     @property
     def derivs(self):
         """Mapping of symbols to the order of the derivative with respect to
@@ -800,7 +820,8 @@ class QuantumDerivative(SingleQuantumOperation):
                     in self.operand.substitute(dummy_map).free_symbols
                     if not isinstance(sym, sympy.Dummy)}
                 for val in self._vals.values():
-                    self._free_symbols.update(val.free_symbols)
+                    self._free_symbols.update(
+                        getattr(val, 'free_symbols', set()))
         return self._free_symbols
 
     @property
@@ -821,18 +842,20 @@ class QuantumDerivative(SingleQuantumOperation):
         return self._n
 
     def _diff(self, sym):
-        if sym in self._vals.keys():
+        if not isinstance(sym, sympy.Basic):
+            raise TypeError("%s must be a Sympy symbol" % sym)
+        vals_symbols = set().union(
+            *[getattr(val, 'free_symbols', set())
+              for val in self._vals.values()])
+        if not sym.free_symbols.isdisjoint(vals_symbols):
+            return self.__class__(self, derivs={sym: 1})
+        elif sym in self._vals.keys():
             return self.__class__._zero
         else:
-            if not isinstance(sym, sympy.Basic):
-                raise TypeError("%s must be a Sympy symbol" % sym)
-            if sym in self._vals.values():
-                return self.__class__(self, derivs={sym: 1})
-            else:
-                derivs = self._derivs.copy()
-                derivs[sym] += 1
-                return self.__class__(
-                    self.operand, derivs=derivs, vals=self._vals)
+            derivs = self._derivs.copy()
+            derivs[sym] += 1
+            return self.__class__(
+                self.operand, derivs=derivs, vals=self._vals)
 
     def _adjoint(self):
         return self.__class__(
@@ -1096,12 +1119,7 @@ def _series_expand_combine_prod(c1, c2, order):
 
 
 def _evaluate_at(expr, sym, val):
-    try:
-        # for QuantumDerivative instance
-        return expr.evaluate_at({sym: val})
-    except AttributeError:
-        # for explicit Expression
-        return expr.substitute({sym: val})
+    return expr.substitute({sym: val})
 
 
 def _expand_product(factors):
-- 
2.43.0


From 3017da5bb0a48f6ed3bd8e0f780bc8596e8e6617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:58 +0000
Subject: [PATCH 034/132] fix: derivative of coherent states; adjoint of
 derivatives of states

---
 src/qnet/algebra/core/state_algebra.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/qnet/algebra/core/state_algebra.py b/src/qnet/algebra/core/state_algebra.py
index 01b9812..ddf0da0 100644
--- a/src/qnet/algebra/core/state_algebra.py
+++ b/src/qnet/algebra/core/state_algebra.py
@@ -404,11 +404,12 @@ class CoherentStateKet(LocalKet):
         return self._ampl
 
     def _diff(self, sym):
-        from qnet.algebra.library.fock_operators import Destroy, Create
+        from qnet.algebra.core.operator_algebra import IdentityOperator
+        from qnet.algebra.library.fock_operators import Create
         hs = self.space
+        ampl_sq = self._ampl * self._ampl.conjugate()
         return (
-            (self._ampl * Create(hs=hs) -
-             self._ampl.conjugate() * Destroy(hs=hs))
+            (self._ampl * Create(hs=hs) - (ampl_sq / 2) * IdentityOperator)
             .diff(sym)
             * self)
 
@@ -551,7 +552,9 @@ class StateDerivative(QuantumDerivative, State):
 
     See :class:`.QuantumDerivative`.
     """
-    pass
+    def _adjoint(self):
+        # any adjoint of a ket is a Bra instance at the top level
+        return Bra(self)
 
 
 class Bra(State, QuantumAdjoint):
-- 
2.43.0


From d0522975484c21044cda38db7d5d12d8115bfe84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:38 +0000
Subject: [PATCH 035/132] fix: series expansion of matrices with plain scalar
 entries

---
 src/qnet/algebra/core/matrix_algebra.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/qnet/algebra/core/matrix_algebra.py b/src/qnet/algebra/core/matrix_algebra.py
index 6b1ce5a..88b0cab 100644
--- a/src/qnet/algebra/core/matrix_algebra.py
+++ b/src/qnet/algebra/core/matrix_algebra.py
@@ -12,7 +12,7 @@ from .abstract_quantum_algebra import QuantumExpression
 from .exceptions import NonSquareMatrix, NoConjugateMatrix
 from .hilbert_space_algebra import ProductSpace, TrivialSpace
 from .operator_algebra import adjoint
-from .scalar_algebra import is_scalar
+from .scalar_algebra import is_scalar, ScalarValue
 from ...utils.permutations import check_permutation
 
 __all__ = [
@@ -313,8 +313,10 @@ class Matrix(Expression):
             coefficients.
         """
         s = self.shape
+        elements = [o if isinstance(o, QuantumExpression)
+                    else ScalarValue.create(o) for o in self.matrix.ravel()]
         emats = zip(*[o.series_expand(param, about, order)
-                      for o in self.matrix.ravel()])
+                      for o in elements])
         return tuple((Matrix(np_array(em).reshape(s)) for em in emats))
 
     def expand(self):
-- 
2.43.0


From bd2b56110d340718b422696000fe1ebcb137e3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:39 +0000
Subject: [PATCH 036/132] fix: series and derivatives of products with states
 or superoperators, of non-linear operations and of operations with keyword
 arguments

---
 .../algebra/core/abstract_quantum_algebra.py  | 27 +++++++++++--------
 src/qnet/algebra/core/operator_algebra.py     | 14 ++++++++++
 src/qnet/algebra/core/state_algebra.py        |  7 ++---
 .../algebra/core/super_operator_algebra.py    |  8 +++---
 4 files changed, 36 insertions(+), 20 deletions(-)

diff --git a/src/qnet/algebra/core/abstract_quantum_algebra.py b/src/qnet/algebra/core/abstract_quantum_algebra.py
index 25589da..ee0d67c 100644
--- a/src/qnet/algebra/core/abstract_quantum_algebra.py
+++ b/src/qnet/algebra/core/abstract_quantum_algebra.py
@@ -453,11 +453,12 @@ class SingleQuantumOperation(QuantumOperation, metaclass=ABCMeta):
     def _diff(self, sym):
         # most single-quantum-operations are linear, i.e. they commute with the
         # derivative. Those that are not must override _diff
-        return self.__class__.create(self.operand.diff(sym))
+        return self.__class__.create(self.operand.diff(sym), **self.kwargs)
 
     def _series_expand(self, param, about, order):
         ope = self.operand.series_expand(param, about, order)
-        return tuple(self.__class__.create(opet) for opet in ope)
+        return tuple(
+            self.__class__.create(opet, **self.kwargs) for opet in ope)
 
 
 class QuantumAdjoint(SingleQuantumOperation, metaclass=ABCMeta):
@@ -857,6 +858,10 @@ class QuantumDerivative(SingleQuantumOperation):
             return self.__class__(
                 self.operand, derivs=derivs, vals=self._vals)
 
+    def _series_expand(self, param, about, order):
+        # unlike for other operations, the series of the operand is not enough
+        return QuantumExpression._series_expand(self, param, about, order)
+
     def _adjoint(self):
         return self.__class__(
             self.operand.adjoint(), derivs=self._derivs, vals=self._vals)
@@ -879,6 +884,11 @@ class QuantumIndexedSum(IndexedSum, SingleQuantumOperation, metaclass=ABCMeta):
     def _diff(self, sym):
         return self.__class__.create(self.term.diff(sym), *self.ranges)
 
+    def _series_expand(self, param, about, order):
+        terms = self.term.series_expand(param, about, order)
+        return tuple(
+            self.__class__.create(term, *self.ranges) for term in terms)
+
     def __mul__(self, other):
         from qnet.algebra.core.scalar_algebra import is_scalar
         if isinstance(other, IndexedSum):
@@ -1104,16 +1114,11 @@ def _series_expand_combine_prod(c1, c2, order):
     c1 = list(c1)
     c2 = list(c2)
     for n in range(order + 1):
-        summands = []
+        sum = Zero
         for k in range(n + 1):
-            if c1[k].is_zero or c2[n-k].is_zero:
-                summands.append(Zero)
-            else:
-                summands.append(c1[k] * c2[n - k])
-        sum = summands[0]
-        for summand in summands[1:]:
-            if summand != 0:
-                sum += summand
+            if not (c1[k].is_zero or c2[n-k].is_zero):
+                summand = c1[k] * c2[n - k]
+                sum = summand if sum is Zero else sum + summand
         res.append(sum)
     return tuple(res)
 
diff --git a/src/qnet/algebra/core/operator_algebra.py b/src/qnet/algebra/core/operator_algebra.py
index ff46c33..e1ae8f9 100644
--- a/src/qnet/algebra/core/operator_algebra.py
+++ b/src/qnet/algebra/core/operator_algebra.py
@@ -764,6 +764,13 @@ class PseudoInverse(SingleQuantumOperation, Operator):
     def _adjoint(self):
         return Adjoint(self)
 
+    def _diff(self, sym):
+        # not a linear operation
+        return OperatorDerivative(self, derivs={sym: 1})
+
+    def _series_expand(self, param, about, order):
+        return QuantumExpression._series_expand(self, param, about, order)
+
 
 class NullSpaceProjector(SingleQuantumOperation, Operator):
     r"""Projection operator onto the nullspace of its operand
@@ -794,6 +801,13 @@ class NullSpaceProjector(SingleQuantumOperation, Operator):
     def _pseudo_inverse(self):
         return PseudoInverse(self)
 
+    def _diff(self, sym):
+        # not a linear operation
+        return OperatorDerivative(self, derivs={sym: 1})
+
+    def _series_expand(self, param, about, order):
+        return QuantumExpression._series_expand(self, param, about, order)
+
 
 class OperatorIndexedSum(QuantumIndexedSum, Operator):
     """Indexed sum over operators"""
diff --git a/src/qnet/algebra/core/state_algebra.py b/src/qnet/algebra/core/state_algebra.py
index ddf0da0..4d1e7fd 100644
--- a/src/qnet/algebra/core/state_algebra.py
+++ b/src/qnet/algebra/core/state_algebra.py
@@ -542,9 +542,7 @@ class OperatorTimesKet(State, Operation):
     def _series_expand(self, param, about, order):
         ce = self.operator.series_expand(param, about, order)
         te = self.ket.series_expand(param, about, order)
-
-        return tuple(ce[k] * te[n - k]
-                     for n in range(order + 1) for k in range(n + 1))
+        return _series_expand_combine_prod(ce, te, order)
 
 
 class StateDerivative(QuantumDerivative, State):
@@ -724,8 +722,7 @@ class KetBra(Operator, Operation):
     def _series_expand(self, param, about, order):
         ke = self.ket.series_expand(param, about, order)
         be = self.bra.series_expand(param, about, order)
-        return tuple(ke[k] * be[n - k]
-                     for n in range(order + 1) for k in range(n + 1))
+        return _series_expand_combine_prod(ke, be, order)
 
 
 class KetIndexedSum(State, QuantumIndexedSum):
diff --git a/src/qnet/algebra/core/super_operator_algebra.py b/src/qnet/algebra/core/super_operator_algebra.py
index 12103ce..4091e53 100644
--- a/src/qnet/algebra/core/super_operator_algebra.py
+++ b/src/qnet/algebra/core/super_operator_algebra.py
@@ -13,7 +13,7 @@ from .abstract_algebra import Operation
 from .abstract_quantum_algebra import (
     ScalarTimesQuantumExpression, QuantumExpression, QuantumSymbol,
     QuantumOperation, QuantumPlus, QuantumTimes, QuantumAdjoint,
-    QuantumDerivative)
+    QuantumDerivative, _series_expand_combine_prod)
 from .algebraic_properties import (
     assoc, filter_neutral, match_replace, match_replace_binary, orderby,
     delegate_to_method, collect_summands)
@@ -297,9 +297,9 @@ class SuperOperatorTimesOperator(Operator, Operation):
         return sum(st * ot for st in sopet for ot in opet)
 
     def _series_expand(self, param, about, order):
-        sop, op = self.sop, self.op
-        ope = op.series_expand(param, about, order)
-        return tuple(sop * opet for opet in ope)
+        sope = self.sop.series_expand(param, about, order)
+        ope = self.op.series_expand(param, about, order)
+        return _series_expand_combine_prod(sope, ope, order)
 
     def _simplify_scalar(self, func):
         sop, op = self.sop, self.op
-- 
2.43.0


From d07de84cea2f96f24ffeb85d630ec03e49e3d13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:36 +0000
Subject: [PATCH 037/132] fix: Consistent comparison of nested KeyTuple objects

---
 src/qnet/utils/ordering.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qnet/utils/ordering.py b/src/qnet/utils/ordering.py
index 0dfc0ff..711d4ce 100644
--- a/src/qnet/utils/ordering.py
+++ b/src/qnet/utils/ordering.py
@@ -57,6 +57,10 @@ class KeyTuple(tuple):
             return False
         return None
 
+    def __gt__(self, other):
+        # must be consistent with __lt__ for nested tuples
+        return KeyTuple.__lt__(other, self)
+
     def __repr__(self):
         return self.__class__.__name__ + tuple.__repr__(self)
 
-- 
2.43.0


From 69c15a7fa8c886dfa2a7ede1bcfed5f654072c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:35 +0000
Subject: [PATCH 038/132] fix: Keep a custom basis of SpinSpace in kwargs

---
 src/qnet/algebra/library/spin_algebra.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/qnet/algebra/library/spin_algebra.py b/src/qnet/algebra/library/spin_algebra.py
index 03dca03..31e70b3 100644
--- a/src/qnet/algebra/library/spin_algebra.py
+++ b/src/qnet/algebra/library/spin_algebra.py
@@ -88,10 +88,11 @@ class SpinSpace(LocalSpace):
         if dimension <= 1:
             raise ValueError("spin %s must be greater than zero" % spin)
         bottom = -spin
+        default_basis = tuple([
+            SpinIndex._static_render(bottom + n)
+            for n in range(dimension)])
         if basis is None:
-            basis = tuple([
-                SpinIndex._static_render(bottom + n)
-                for n in range(dimension)])
+            basis = default_basis
         else:
             # sometimes people don't think and use some of the "canonical" TLS
             # labels in the wrong order. We can catch it, so why not?
@@ -104,13 +105,15 @@ class SpinSpace(LocalSpace):
 
         # rewrite the kwargs from super()
         self._kwargs = OrderedDict([
-            ('spin', self._spin),
+            ('spin', self._spin), ('basis', self._basis),
             ('local_identifiers', self._sorted_local_identifiers),
             ('order_index', self._order_index)])
         self._minimal_kwargs = self._kwargs.copy()
+        if self._basis == default_basis:
+            del self._minimal_kwargs['basis']
         if local_identifiers is None:
             del self._minimal_kwargs['local_identifiers']
-        if order_index is None:
+        if order_index in [None, float('inf')]:
             del self._minimal_kwargs['order_index']
 
     def next_basis_label_or_index(self, label_or_index, n=1):
-- 
2.43.0


From 6dd5f2958bd57b16469b3f8d2a13db041cce9ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:35 +0000
Subject: [PATCH 039/132] fix: Print infinite numbers

---
 src/qnet/printing/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/printing/base.py b/src/qnet/printing/base.py
index d05486d..d33ee7b 100644
--- a/src/qnet/printing/base.py
+++ b/src/qnet/printing/base.py
@@ -152,7 +152,7 @@ class QnetBasePrinter(SympyPrinter):
                     # have the same hash. We want to normalize this, so that we
                     # get consistent results when printing with a cache
                     expr = int(expr)
-            except TypeError:
+            except (TypeError, OverflowError, ValueError):
                 pass
             if adjoint:
                 kwargs = {
-- 
2.43.0


From 572c25019a84f5e5256a4a2d8a9f4729b527e31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:35 +0000
Subject: [PATCH 040/132] fix: Off-by-one in IndexOverFockSpace.piecewise_one

---
 src/qnet/utils/indices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/utils/indices.py b/src/qnet/utils/indices.py
index 75e5df0..eb797ca 100644
--- a/src/qnet/utils/indices.py
+++ b/src/qnet/utils/indices.py
@@ -542,7 +542,7 @@ class IndexOverFockSpace(IndexRangeBase):
         if self.hs._dimension is None:
             to_val = sympy.oo
         else:
-            to_val = self.hs.dimension
+            to_val = self.hs.dimension - 1
         return Piecewise(
             (1, sympy.Interval(0, to_val).as_relational(expr)),
             (0, True))
-- 
2.43.0


From cf22071ce54a35cdfe524d6655d5aaaa726b5aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:35 +0000
Subject: [PATCH 041/132] fix: Capture-avoiding substitution in indexed sums

---
 src/qnet/algebra/core/indexed_operations.py | 27 +++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/qnet/algebra/core/indexed_operations.py b/src/qnet/algebra/core/indexed_operations.py
index 369340d..f8ab21c 100644
--- a/src/qnet/algebra/core/indexed_operations.py
+++ b/src/qnet/algebra/core/indexed_operations.py
@@ -99,6 +99,33 @@ class IndexedSum(Operation, metaclass=ABCMeta):
                     "Cannot determine length from non-finite ranges")
         return length
 
+    def _substitute(self, var_map, safe=False):
+        # Index symbols of the sum can be renamed, but they must not be
+        # replaced by a value, and they must not capture any free symbol
+        free_symbols = self.free_symbols
+        used_symbols = free_symbols | set(self.variables)
+        new_map = {}
+        inserted = set()
+        for old, new in var_map.items():
+            if old in self.variables:
+                if isinstance(new, IdxSym) and new not in used_symbols:
+                    new_map[old] = new
+                    used_symbols.add(new)
+            else:
+                new_map[old] = new
+                if not isinstance(old, IdxSym) or old in free_symbols:
+                    inserted.update(
+                        sym for sym in getattr(new, 'free_symbols', ())
+                        if isinstance(sym, IdxSym))
+        new_variables = [new_map.get(sym, sym) for sym in self.variables]
+        if inserted.intersection(new_variables) and self not in var_map:
+            new_map = {
+                old: new for (old, new) in new_map.items()
+                if old not in self.variables}
+            return self.make_disjunct_indices(*inserted)._substitute(
+                new_map, safe=safe)
+        return super()._substitute(new_map, safe=safe)
+
     def doit(
             self, classes=None, recursive=True, indices=None, max_terms=None,
             **kwargs):
-- 
2.43.0


From dbe0bfe26ce44d9ee2f7b2e9965d5fcdc5974393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:34 +0000
Subject: [PATCH 042/132] fix: doit of indexed sums with empty ranges

---
 src/qnet/algebra/core/indexed_operations.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/qnet/algebra/core/indexed_operations.py b/src/qnet/algebra/core/indexed_operations.py
index f8ab21c..0e01d98 100644
--- a/src/qnet/algebra/core/indexed_operations.py
+++ b/src/qnet/algebra/core/indexed_operations.py
@@ -185,6 +185,8 @@ class IndexedSum(Operation, metaclass=ABCMeta):
                 raise InfiniteSumError(
                     "Cannot expand %s: more than %s terms"
                     % (self, self._expand_limit))
+        if res is None:  # empty range
+            res = self._zero
         return res
 
     def _doit_over_indices(self, indices):
@@ -201,7 +203,7 @@ class IndexedSum(Operation, metaclass=ABCMeta):
             else:
                 other_ranges.append(index_range)
         if selected_range is None:
-            return self
+            return self._doit_over_indices(indices)
         res_term = None
         for i, mapping in enumerate(selected_range.iter()):
             res_summand = self.term.substitute(mapping)
@@ -213,11 +215,17 @@ class IndexedSum(Operation, metaclass=ABCMeta):
                 raise InfiniteSumError(
                     "Cannot expand %s: more than %s terms"
                     % (self, self._expand_limit))
+        if res_term is None:  # empty range
+            return self._zero
         if len(other_ranges) == 0:
             res = res_term
         else:
             res = self.__class__.create(res_term, *other_ranges)
-            res = res._doit_over_indices(indices=indices)
+            if isinstance(res, IndexedSum):
+                res = res._doit_over_indices(indices=indices)
+            else:
+                res = res.doit(
+                    [IndexedSum], recursive=False, indices=indices)
         return res
 
     def make_disjunct_indices(self, *others):
-- 
2.43.0


From 0e0f36c8d7a2a8d725f6abe178bc899239b8a8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:34 +0000
Subject: [PATCH 043/132] fix: keep ranges when simplifying scalars in indexed
 sums

---
 src/qnet/algebra/core/abstract_quantum_algebra.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/abstract_quantum_algebra.py b/src/qnet/algebra/core/abstract_quantum_algebra.py
index ee0d67c..5d6f513 100644
--- a/src/qnet/algebra/core/abstract_quantum_algebra.py
+++ b/src/qnet/algebra/core/abstract_quantum_algebra.py
@@ -589,13 +589,17 @@ class ScalarTimesQuantumExpression(
         return self.operands[1]
 
     def _substitute(self, var_map, safe=False):
-        st = self.term.substitute(var_map)
         if isinstance(self.coeff, sympy.Basic):
             svar_map = {k: v for k, v in var_map.items()
                         if not isinstance(k, Expression)}
             sc = self.coeff.subs(svar_map)
         else:
             sc = substitute(self.coeff, var_map)
+        if not safe and sc == 0:
+            # the term may not be well-defined for a vanishing coefficient,
+            # e.g. Destroy * LocalSigma(i, j) = sqrt(i) * LocalSigma(i-1, j)
+            return self._zero
+        st = self.term.substitute(var_map)
         if safe:
             return self.__class__(sc, st)
         else:
@@ -881,6 +885,12 @@ class QuantumIndexedSum(IndexedSum, SingleQuantumOperation, metaclass=ABCMeta):
     def _adjoint(self):
         return self.__class__.create(self.term.adjoint(), *self.ranges)
 
+    def _simplify_scalar(self, func):
+        term = self.term.simplify_scalar(func=func)
+        if term is self.term:
+            return self
+        return self.__class__.create(term, *self.ranges)
+
     def _diff(self, sym):
         return self.__class__.create(self.term.diff(sym), *self.ranges)
 
-- 
2.43.0


From fd0a3a9fa522951d46e2360d85034638fe02f546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:34 +0000
Subject: [PATCH 044/132] fix: avoid capturing free indices in products with
 indexed sums

---
 src/qnet/algebra/core/algebraic_properties.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/qnet/algebra/core/algebraic_properties.py b/src/qnet/algebra/core/algebraic_properties.py
index 25c67d0..6e4cd6c 100644
--- a/src/qnet/algebra/core/algebraic_properties.py
+++ b/src/qnet/algebra/core/algebraic_properties.py
@@ -77,7 +77,10 @@ def assoc_indexed(cls, ops, kwargs):
     else:
         return ops, kwargs
 
-    term = term.make_disjunct_indices(*ranges)
+    coeff_indices = [
+        sym for sym in getattr(coeff, 'free_symbols', ())
+        if isinstance(sym, IdxSym)]
+    term = term.make_disjunct_indices(*ranges, *coeff_indices)
     combined_ranges = tuple(ranges) + term.ranges
 
     if coeff == 1:
@@ -768,12 +771,15 @@ def _factors_for_expand_delta(expr):
 
     Auxiliary routine for :func:`_expand_delta`.
     """
-    from qnet.algebra.core.scalar_algebra import ScalarValue
+    from qnet.algebra.core.scalar_algebra import ScalarTimes, ScalarValue
     from qnet.algebra.core.abstract_quantum_algebra import (
         ScalarTimesQuantumExpression)
     if isinstance(expr, ScalarTimesQuantumExpression):
         yield from _factors_for_expand_delta(expr.coeff)
         yield expr.term
+    elif isinstance(expr, ScalarTimes):
+        for op in expr.operands:
+            yield from _factors_for_expand_delta(op)
     elif isinstance(expr, ScalarValue):
         yield from _factors_for_expand_delta(expr.val)
     elif isinstance(expr, sympy.Basic) and expr.is_Mul:
@@ -833,7 +839,7 @@ def _split_sympy_quantum_factor(expr):
         sympy_factor, quantum_factor = _split_sympy_quantum_factor(expr.coeff)
         quantum_factor *= expr.term
     elif isinstance(expr, ScalarValue):
-        sympy_factor = expr.val
+        sympy_factor = sympy.sympify(expr.val)
         quantum_factor = expr._one
     elif isinstance(expr, ScalarTimes):
         sympy_factor = sympy.S(1)
-- 
2.43.0


From 367a6ba0ea50863e1ec7e87cb7a11a236104af12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:34 +0000
Subject: [PATCH 045/132] fix: avoid capturing free indices in operator times
 ket sum

---
 src/qnet/algebra/_rules.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qnet/algebra/_rules.py b/src/qnet/algebra/_rules.py
index 97fac80..7843218 100644
--- a/src/qnet/algebra/_rules.py
+++ b/src/qnet/algebra/_rules.py
@@ -1,5 +1,6 @@
 from sympy import Basic as SympyBasic, I, exp, sqrt
 
+from .core.abstract_quantum_algebra import QuantumIndexedSum
 from .core.circuit_algebra import (
     CIdentity, CPermutation, Circuit, Concatenation, Feedback, SLH,
     SeriesInverse, SeriesProduct, circuit_identity as cid)
@@ -713,7 +714,7 @@ def _algebraic_rules_state():
 
         ('R021', (
             pattern_head(A, sum),
-            lambda A, sum: KetIndexedSum.create(A * sum.term, *sum.ranges))),
+            lambda A, sum: QuantumIndexedSum.__rmul__(sum, A))),
     ]))
 
     TensorKet._binary_rules.update(check_rules_dict([
-- 
2.43.0


From ab2a35c754a57c1ba3840f0e18fbef2d8418d44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:34 +0000
Subject: [PATCH 046/132] fix: ascii-print index ranges with a step

---
 src/qnet/printing/asciiprinter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/printing/asciiprinter.py b/src/qnet/printing/asciiprinter.py
index 9782e3b..e6c09d6 100644
--- a/src/qnet/printing/asciiprinter.py
+++ b/src/qnet/printing/asciiprinter.py
@@ -613,7 +613,7 @@ class QnetAsciiPrinter(QnetBasePrinter):
             bottom_index = self.doprint(expr.index_symbol)
             bottom_rhs = "=%s" % expr.start_from
             if abs(expr.step) > 1:
-                bottom_rhs += ", %s" % expr.start_from + expr.step
+                bottom_rhs += ", %s" % (expr.start_from + expr.step)
                 bottom_rhs += ", " + self._ellipsis
             if which == 'bottom_index':
                 return bottom_index
-- 
2.43.0


From 4829d7fe665a8004cdb60bf8a2eb8920fb4248dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:17 +0000
Subject: [PATCH 047/132] fix: compare nested KeyTuples only once

---
 src/qnet/utils/ordering.py | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/qnet/utils/ordering.py b/src/qnet/utils/ordering.py
index 711d4ce..62b549c 100644
--- a/src/qnet/utils/ordering.py
+++ b/src/qnet/utils/ordering.py
@@ -39,27 +39,39 @@ class KeyTuple(tuple):
     """A tuple that allows for ordering, facilitating the default ordering of
     Operations. It differs from a normal tuple in that it falls back to string
     comparison if any elements are not directly comparable"""
-    def __lt__(self, other):
+    def _compare(self, other):
+        # -1, 0, 1 for self < other, equal, self > other. Nested tuples must be
+        # compared only once: comparing with both < and > takes a time that is
+        # exponential in the depth of the nesting
+        if self is other:
+            return 0
         for (a, b) in zip(self, other):
+            if isinstance(a, KeyTuple) and isinstance(b, KeyTuple):
+                res = a._compare(b)
+                if res != 0:
+                    return res
+                continue
             try:
                 if a < b:
-                    return True
+                    return -1
                 elif a > b:
-                    return False
+                    return 1
             except (TypeError, ValueError):
                 if str(a) < str(b):
-                    return True
+                    return -1
                 elif str(a) > str(b):
-                    return False
+                    return 1
         if len(self) < len(other):
-            return True
+            return -1
         elif len(self) > len(other):
-            return False
-        return None
+            return 1
+        return 0
+
+    def __lt__(self, other):
+        return KeyTuple._compare(self, other) < 0
 
     def __gt__(self, other):
-        # must be consistent with __lt__ for nested tuples
-        return KeyTuple.__lt__(other, self)
+        return KeyTuple._compare(self, other) > 0
 
     def __repr__(self):
         return self.__class__.__name__ + tuple.__repr__(self)
-- 
2.43.0


From 481f752d28329ac3b00ea11a40ddd2afd840478a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:17 +0000
Subject: [PATCH 048/132] fix: doit of a sum that evaluates to a number

---
 src/qnet/algebra/core/abstract_algebra.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qnet/algebra/core/abstract_algebra.py b/src/qnet/algebra/core/abstract_algebra.py
index 29d5bef..540f31e 100644
--- a/src/qnet/algebra/core/abstract_algebra.py
+++ b/src/qnet/algebra/core/abstract_algebra.py
@@ -486,6 +486,8 @@ class Expression(metaclass=ABCMeta):
             new = self._doit(**kwargs)
         else:
             new = self
+        if not isinstance(new, Expression):
+            return new  # e.g. the numeric value of a sum of scalars
         if (new == self) or recursive:
             new_args = []
             for arg in new.args:
-- 
2.43.0


From fc93bd44a59a2b13a437bbf083f46024fb2fd10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:17 +0000
Subject: [PATCH 049/132] fix: substitute in scalar products with vanishing
 coefficient

---
 src/qnet/algebra/core/scalar_algebra.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/qnet/algebra/core/scalar_algebra.py b/src/qnet/algebra/core/scalar_algebra.py
index b740cb4..787f129 100644
--- a/src/qnet/algebra/core/scalar_algebra.py
+++ b/src/qnet/algebra/core/scalar_algebra.py
@@ -15,6 +15,7 @@ from .algebraic_properties import (
     assoc, assoc_indexed, convert_to_scalars, filter_neutral,
     indexed_sum_over_const, indexed_sum_over_kronecker, match_replace,
     match_replace_binary, orderby, collect_scalar_summands)
+from .abstract_algebra import substitute
 from .hilbert_space_algebra import TrivialSpace
 from ...utils.singleton import Singleton, singleton_object
 from ...utils.ordering import KeyTuple
@@ -940,6 +941,18 @@ class ScalarTimes(QuantumTimes, Scalar):
         return self.__class__.create(
             *[arg.conjugate() for arg in reversed(self.args)])
 
+    def _substitute(self, var_map, safe=False):
+        if safe or self in var_map or not isinstance(
+                self.args[0], ScalarValue):
+            return super()._substitute(var_map, safe=safe)
+        # the remaining factors may not be well-defined if the coefficient
+        # vanishes, e.g. sqrt(i) * <Psi|i-1>
+        coeff = substitute(self.args[0], var_map)
+        if coeff == 0:
+            return Zero
+        return self.create(
+            coeff, *[substitute(arg, var_map) for arg in self.args[1:]])
+
     def __pow__(self, other):
         return ScalarPower.create(self, other)
 
-- 
2.43.0


From e95063de193591585c8ee8d94dcd37808a8745f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:51 +0000
Subject: [PATCH 050/132] fix: Feedback objects with different ports are
 different

---
 src/qnet/algebra/core/circuit_algebra.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/circuit_algebra.py b/src/qnet/algebra/core/circuit_algebra.py
index 87e48bf..e62f865 100644
--- a/src/qnet/algebra/core/circuit_algebra.py
+++ b/src/qnet/algebra/core/circuit_algebra.py
@@ -1221,7 +1221,9 @@ class Feedback(Circuit, Operation):
         self.out_port = int(out_port)
         self.in_port = int(in_port)
         operands = [circuit, ]
-        super().__init__(*operands)
+        # the ports must be part of the identity (hash, ==) of the expression
+        super().__init__(
+            *operands, out_port=self.out_port, in_port=self.in_port)
 
     @property
     def kwargs(self):
-- 
2.43.0


From 5932583b232fc09891f1e3e40d8c0e0332db88b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:21 +0000
Subject: [PATCH 051/132] fix: Raise IncompatibleBlockStructures, feedback of
 single-channel blocks

---
 src/qnet/algebra/core/circuit_algebra.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/qnet/algebra/core/circuit_algebra.py b/src/qnet/algebra/core/circuit_algebra.py
index e62f865..6132368 100644
--- a/src/qnet/algebra/core/circuit_algebra.py
+++ b/src/qnet/algebra/core/circuit_algebra.py
@@ -848,9 +848,12 @@ class CPermutation(Circuit, Expression):
             return tuple(map(CPermutation.create, self.block_perms))
 
         if len(block_structure) > len(self.block_perms):
-            raise Exception
+            raise IncompatibleBlockStructures(
+                "Requested too fine block structure %s" % (block_structure,))
         if sum(block_structure) != self.cdim:
-            raise Exception
+            raise IncompatibleBlockStructures(
+                "Requested block structure %s for %d channels"
+                % (block_structure, self.cdim))
         current_perm = []
         block_perm_iter = iter(self.block_perms)
         for l in block_structure:
@@ -859,7 +862,9 @@ class CPermutation(Circuit, Expression):
                 current_perm += [p + offset for p in next(block_perm_iter)]
 
             if len(current_perm) != l:
-                raise Exception
+                raise IncompatibleBlockStructures(
+                    "Requested incompatible block structure %s"
+                    % (block_structure,))
 
             block_perms.append(tuple(current_perm))
             current_perm = []
@@ -1167,6 +1172,10 @@ class Concatenation(Circuit, Operation):
         n = self.cdim
 
         if out_port == n - 1 and in_port == n - 1:
+            if self.operands[-1].cdim == 1:
+                # closing the only channel cannot be expressed for the
+                # operand by itself
+                return Feedback(self, out_port=out_port, in_port=in_port)
             return Concatenation.create(*(self.operands[:-1] +
                                           (self.operands[-1].feedback(),)))
 
@@ -1176,6 +1185,8 @@ class Concatenation(Circuit, Operation):
         blocks = self.get_blocks()
 
         if in_block == out_block:
+            if blocks[out_block].cdim == 1:
+                return Feedback(self, out_port=out_port, in_port=in_port)
             return (Concatenation.create(*blocks[:out_block]) +
                     blocks[out_block].feedback(
                            out_port=out_index_in_block,
-- 
2.43.0


From 6c19d2d18effee3960414a6f9815db8d9297c102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:16 +0000
Subject: [PATCH 052/132] fix: no endless double inversion in feedback of
 series with SLH

---
 src/qnet/algebra/_rules.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/qnet/algebra/_rules.py b/src/qnet/algebra/_rules.py
index 7843218..cb56602 100644
--- a/src/qnet/algebra/_rules.py
+++ b/src/qnet/algebra/_rules.py
@@ -1014,9 +1014,19 @@ def _pull_out_unaffected_blocks_rhs(rest, rhs, out_port, in_port):
     raise CannotSimplify()
 
 
+def _contains_slh(circuit):
+    """Does the circuit expression contain any explicit SLH triple?"""
+    return (isinstance(circuit, SLH) or
+            any(_contains_slh(op) for op in getattr(circuit, 'operands', ())))
+
+
 def _series_feedback(series, out_port, in_port):
     """Invert a series self-feedback twice to get rid of unnecessary
     permutations."""
+    if _contains_slh(series):
+        # inverting an SLH triple twice does not exactly reproduce it, hence
+        # the rule could be applied over and over again
+        raise CannotSimplify()
     series_s = series.series_inverse().series_inverse()
     if series_s == series:
         raise CannotSimplify()
-- 
2.43.0


From 75a0b1cd8392b97635cf83e7d7d095fa8660c887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:24 +0000
Subject: [PATCH 053/132] fix: map_channels rejects negative channel indices

---
 src/qnet/algebra/core/circuit_algebra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qnet/algebra/core/circuit_algebra.py b/src/qnet/algebra/core/circuit_algebra.py
index 6132368..1b55bf4 100644
--- a/src/qnet/algebra/core/circuit_algebra.py
+++ b/src/qnet/algebra/core/circuit_algebra.py
@@ -1413,12 +1413,12 @@ def map_channels(mapping, cdim):
     free_values = list(range(n))
 
     for v in mapping.values():
-        if v >= n:
+        if not 0 <= v < n:
             raise ValueError('the mapping cannot take on values larger than '
                              'cdim - 1')
         free_values.remove(v)
     for k in mapping:
-        if k >= n:
+        if not 0 <= k < n:
             raise ValueError('the mapping cannot map keys larger than '
                              'cdim - 1')
     permutation = []
-- 
2.43.0


From 2d0514d12ace8aeb79b685e9686806d9172d465b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:24 +0000
Subject: [PATCH 054/132] fix: error message for malformed permutations given
 as tuple

---
 src/qnet/utils/permutations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/utils/permutations.py b/src/qnet/utils/permutations.py
index 8a4c456..c8502e7 100644
--- a/src/qnet/utils/permutations.py
+++ b/src/qnet/utils/permutations.py
@@ -64,7 +64,7 @@ def permutation_to_disjoint_cycles(permutation):
     :raise: BadPermutationError
     """
     if not check_permutation(permutation):
-        raise BadPermutationError('Malformed permutation %r' % permutation)
+        raise BadPermutationError('Malformed permutation %r' % (permutation,))
 
     p_index = 0
     current_cycle = [0]
-- 
2.43.0


From c60a05b8a4bf9d1cd8ec5be1f2cc30b36bccbd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:36 +0000
Subject: [PATCH 055/132] fix: connect rejects ports that are connected twice

---
 src/qnet/algebra/toolbox/circuit_manipulation.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/qnet/algebra/toolbox/circuit_manipulation.py b/src/qnet/algebra/toolbox/circuit_manipulation.py
index fafb82d..2ac698f 100644
--- a/src/qnet/algebra/toolbox/circuit_manipulation.py
+++ b/src/qnet/algebra/toolbox/circuit_manipulation.py
@@ -142,6 +142,14 @@ def connect(components, connections, force_SLH=False, expand_simplify=True):
 
         op_idx = offsets[c1] + op
         ip_idx = offsets[c2] + ip
+        if op_idx in omap:
+            raise ValueError(
+                "The output port in connection %r is already connected"
+                % (connections[ic], ))
+        if ip_idx in imap:
+            raise ValueError(
+                "The input port in connection %r is already connected"
+                % (connections[ic], ))
         imap.append(ip_idx)
         omap.append(op_idx)
 
-- 
2.43.0


From 691149913963265b139b9291d75aa51c5e783a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:27 +0000
Subject: [PATCH 056/132] fix: no endless recursion in feedback of series
 products

---
 src/qnet/algebra/_rules.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/qnet/algebra/_rules.py b/src/qnet/algebra/_rules.py
index cb56602..69d0f46 100644
--- a/src/qnet/algebra/_rules.py
+++ b/src/qnet/algebra/_rules.py
@@ -1020,6 +1020,11 @@ def _contains_slh(circuit):
             any(_contains_slh(op) for op in getattr(circuit, 'operands', ())))
 
 
+def _n_factors(circuit):
+    """Number of elementary circuits that a circuit expression consists of"""
+    return sum([_n_factors(op) for op in getattr(circuit, 'operands', ())]) or 1
+
+
 def _series_feedback(series, out_port, in_port):
     """Invert a series self-feedback twice to get rid of unnecessary
     permutations."""
@@ -1028,7 +1033,9 @@ def _series_feedback(series, out_port, in_port):
         # the rule could be applied over and over again
         raise CannotSimplify()
     series_s = series.series_inverse().series_inverse()
-    if series_s == series:
+    if _n_factors(series_s) >= _n_factors(series):
+        # applying the rule to a circuit that does not become simpler might
+        # never end
         raise CannotSimplify()
     return series_s.feedback(out_port=out_port, in_port=in_port)
 
-- 
2.43.0


From ef77baabdd6a7fa278d1c18e3b7e216b9fea9480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:35 +0000
Subject: [PATCH 057/132] fix: symbolic_heisenberg_eom with default operator

---
 src/qnet/algebra/core/circuit_algebra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/circuit_algebra.py b/src/qnet/algebra/core/circuit_algebra.py
index 1b55bf4..61b873e 100644
--- a/src/qnet/algebra/core/circuit_algebra.py
+++ b/src/qnet/algebra/core/circuit_algebra.py
@@ -538,7 +538,7 @@ class SLH(Circuit, Expression):
         L, H = self.L, self.H
 
         if X is None:
-            X = OperatorSymbol('X', hs=(L.space | H.space))
+            X = OperatorSymbol('X', hs=(L.space * H.space))
 
         summands = [I * (H * X - X * H), ]
         for Lk in L.matrix.ravel():
-- 
2.43.0


From 9c518c74669b9641919b53ba0741dc721b38faa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:19 +0000
Subject: [PATCH 058/132] fix: noise terms for operator-valued scattering of
 several channels

---
 src/qnet/algebra/core/circuit_algebra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/circuit_algebra.py b/src/qnet/algebra/core/circuit_algebra.py
index 61b873e..aa19fec 100644
--- a/src/qnet/algebra/core/circuit_algebra.py
+++ b/src/qnet/algebra/core/circuit_algebra.py
@@ -557,7 +557,7 @@ class SLH(Circuit, Expression):
                        .expand()[0, 0])
             summands.append(summand)
             if len(S.space & X.space):
-                comm = (S.adjoint() * X * S - X)
+                comm = S.adjoint() * X * S - identity_matrix(self.cdim) * X
                 summands.append((comm * LambdaT).expand().trace())
 
         ret = OperatorPlus.create(*summands)
-- 
2.43.0


From 39b22bf27cf1fcdb671c68ab9ca1a5984a23cb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:36 +0000
Subject: [PATCH 059/132] fix: KeyError for unknown label in TrivialSpace

---
 src/qnet/algebra/core/hilbert_space_algebra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/hilbert_space_algebra.py b/src/qnet/algebra/core/hilbert_space_algebra.py
index 7a0184e..8a36577 100644
--- a/src/qnet/algebra/core/hilbert_space_algebra.py
+++ b/src/qnet/algebra/core/hilbert_space_algebra.py
@@ -564,7 +564,7 @@ class TrivialSpace(HilbertSpace, Expression, metaclass=Singleton):
                     "No index %d in basis for TrivialSpace" % index_or_label)
             else:
                 raise KeyError(
-                    "No label %d in basis for TrivialSpace" % index_or_label)
+                    "No label %s in basis for TrivialSpace" % index_or_label)
 
     @property
     def basis_labels(self):
-- 
2.43.0


From 997181ac0000d8ed9f06a99b85bb91af80a7de46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:37 +0000
Subject: [PATCH 060/132] fix: negative basis state index of product space

---
 src/qnet/algebra/core/hilbert_space_algebra.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qnet/algebra/core/hilbert_space_algebra.py b/src/qnet/algebra/core/hilbert_space_algebra.py
index 8a36577..6783c07 100644
--- a/src/qnet/algebra/core/hilbert_space_algebra.py
+++ b/src/qnet/algebra/core/hilbert_space_algebra.py
@@ -737,6 +737,8 @@ class ProductSpace(HilbertSpace, Operation):
         from qnet.algebra.core.state_algebra import BasisKet, TensorKet
         if isinstance(index_or_label, int):  # index
             ls_bases = [ls.basis_labels for ls in self.local_factors]
+            if index_or_label < 0:
+                raise IndexError("Index %d must be >= 0" % index_or_label)
             label_tuple = list(cartesian_product(*ls_bases))[index_or_label]
             try:
                 return TensorKet(
-- 
2.43.0


From a4cf3c8499b040ef25b7bcc65660009537a2df69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:37 +0000
Subject: [PATCH 061/132] fix: switched spin basis labels given as list

---
 src/qnet/algebra/library/spin_algebra.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/qnet/algebra/library/spin_algebra.py b/src/qnet/algebra/library/spin_algebra.py
index 31e70b3..998d139 100644
--- a/src/qnet/algebra/library/spin_algebra.py
+++ b/src/qnet/algebra/library/spin_algebra.py
@@ -96,6 +96,7 @@ class SpinSpace(LocalSpace):
         else:
             # sometimes people don't think and use some of the "canonical" TLS
             # labels in the wrong order. We can catch it, so why not?
+            basis = tuple(basis)
             if basis == ('up', 'down') or basis == ('+', '-'):
                 raise ValueError(
                     "Invalid basis: you've switched %s and %s" % basis)
-- 
2.43.0


From 7412e17156ae5cf0bcff7cfc8308b0925706f813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:07 +0000
Subject: [PATCH 062/132] fix: feedback ports must exist

---
 src/qnet/algebra/core/circuit_algebra.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/qnet/algebra/core/circuit_algebra.py b/src/qnet/algebra/core/circuit_algebra.py
index aa19fec..c4e5459 100644
--- a/src/qnet/algebra/core/circuit_algebra.py
+++ b/src/qnet/algebra/core/circuit_algebra.py
@@ -1267,6 +1267,11 @@ class Feedback(Circuit, Operation):
         if n <= 1:
             raise ValueError("circuit dimension %d needs to be > 1 in order "
                              "to apply a feedback" % n)
+        for port in (out_port, in_port):
+            if not 0 <= port < n:
+                raise ValueError(
+                    "Invalid port %d <0 or >=%d (cdim of %r)"
+                    % (port, n, circuit))
 
         if isinstance(circuit, cls.delegate_to_method):
             return circuit._feedback(out_port=out_port, in_port=in_port)
-- 
2.43.0


From ee8132c656874e1a27ae75a5a575d7ee77bd6357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:07 +0000
Subject: [PATCH 063/132] fix: scattering matrix of SLH must be square

---
 src/qnet/algebra/core/circuit_algebra.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qnet/algebra/core/circuit_algebra.py b/src/qnet/algebra/core/circuit_algebra.py
index c4e5459..fc18308 100644
--- a/src/qnet/algebra/core/circuit_algebra.py
+++ b/src/qnet/algebra/core/circuit_algebra.py
@@ -331,6 +331,9 @@ class SLH(Circuit, Expression):
         if S.shape[0] != L.shape[0]:
             raise ValueError('S and L misaligned: S = {!r}, L = {!r}'
                              .format(S, L))
+        if S.shape[0] != S.shape[1]:
+            raise ValueError("S has wrong shape %s. S must be a square matrix"
+                             % str(S.shape))
         if L.shape[1] != 1:
             raise ValueError(("L has wrong shape %s. L must be a column vector "
                               "of operators (shape n × 1)") % str(L.shape))
-- 
2.43.0


From ff8e9545f68fdd6168f9ce2737a5af1ddf01070e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:52 +0000
Subject: [PATCH 064/132] fix: series product with an identity of different
 cdim must raise

---
 src/qnet/algebra/core/algebraic_properties.py | 2 +-
 src/qnet/algebra/core/circuit_algebra.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qnet/algebra/core/algebraic_properties.py b/src/qnet/algebra/core/algebraic_properties.py
index 6e4cd6c..944de51 100644
--- a/src/qnet/algebra/core/algebraic_properties.py
+++ b/src/qnet/algebra/core/algebraic_properties.py
@@ -450,7 +450,7 @@ def _match_replace_binary_combine(cls, a: list, b: list) -> list:
 
 def check_cdims(cls, ops, kwargs):
     """Check that all operands (`ops`) have equal channel dimension."""
-    if not len({o.cdim for o in ops}) == 1:
+    if len({o.cdim for o in ops}) > 1:
         raise ValueError("Not all operands have the same cdim:" + str(ops))
     return ops, kwargs
 
diff --git a/src/qnet/algebra/core/circuit_algebra.py b/src/qnet/algebra/core/circuit_algebra.py
index fc18308..d6d8142 100644
--- a/src/qnet/algebra/core/circuit_algebra.py
+++ b/src/qnet/algebra/core/circuit_algebra.py
@@ -1086,7 +1086,7 @@ class SeriesProduct(Circuit, Operation):
     """The series product circuit operation. It can be applied to any sequence
     of circuit objects that have equal channel dimension.
     """
-    simplifications = [assoc, filter_cid, check_cdims,
+    simplifications = [assoc, check_cdims, filter_cid,
                        match_replace_binary]
     _binary_rules = OrderedDict()  # see end of module
 
-- 
2.43.0


From a1257e0fe6785df633e2b65743501dee9ed4330e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:00 +0000
Subject: [PATCH 065/132] fix: get_blocks of concatenations checks the number
 of channels

---
 src/qnet/algebra/core/circuit_algebra.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qnet/algebra/core/circuit_algebra.py b/src/qnet/algebra/core/circuit_algebra.py
index d6d8142..32a6bca 100644
--- a/src/qnet/algebra/core/circuit_algebra.py
+++ b/src/qnet/algebra/core/circuit_algebra.py
@@ -1148,6 +1148,10 @@ class Concatenation(Circuit, Operation):
         return tuple(result)
 
     def _get_blocks(self, block_structure):
+        if sum(block_structure) != self.cdim:
+            raise IncompatibleBlockStructures(
+                "Requested block structure %s for %d channels"
+                % (block_structure, self.cdim))
         blocks = []
         block_iter = iter(sum((op.get_blocks() for op in self.operands), ()))
         cbo = []
-- 
2.43.0


From 53e4a4c9ffde9123be70e3ae6a40c531d6dfdad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:24 +0000
Subject: [PATCH 066/132] fix: inner and outer products require states of the
 same space

---
 src/qnet/algebra/core/state_algebra.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/state_algebra.py b/src/qnet/algebra/core/state_algebra.py
index 4d1e7fd..b98a533 100644
--- a/src/qnet/algebra/core/state_algebra.py
+++ b/src/qnet/algebra/core/state_algebra.py
@@ -626,6 +626,12 @@ class BraKet(ScalarExpression, Operation):
     _space = TrivialSpace
     simplifications = [match_replace]
 
+    @classmethod
+    def create(cls, bra, ket):
+        # the rules assume that `bra` and `ket` are in the same Hilbert space
+        _check_kets(bra, ket, same_space=True)
+        return super().create(bra, ket)
+
     def __init__(self, bra, ket):
         _check_kets(bra, ket, same_space=True)
         super().__init__(bra, ket)
@@ -674,6 +680,12 @@ class KetBra(Operator, Operation):
     _rules = OrderedDict()
     simplifications = [match_replace]
 
+    @classmethod
+    def create(cls, ket, bra):
+        # the rules assume that `ket` and `bra` are in the same Hilbert space
+        _check_kets(ket, bra, same_space=True)
+        return super().create(ket, bra)
+
     def __init__(self, ket, bra):
         _check_kets(ket, bra, same_space=True)
         super().__init__(ket, bra)
@@ -751,7 +763,7 @@ def _check_kets(*ops, same_space=False, disjunct_space=False):
     if not all([(isinstance(o, State) and o.isket) for o in ops]):
         raise TypeError("All operands must be Kets")
     if same_space:
-        if not len({o.space for o in ops if o is not ZeroKet}) == 1:
+        if len({o.space for o in ops if o is not ZeroKet}) > 1:
             raise UnequalSpaces(str(ops))
     if disjunct_space:
         spc = TrivialSpace
-- 
2.43.0


From 3b8fcf1ea9fd2a01824f9c17193c390af3183f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:26 +0000
Subject: [PATCH 067/132] fix: BasisKet.create with an implied Hilbert space

---
 src/qnet/algebra/core/state_algebra.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/qnet/algebra/core/state_algebra.py b/src/qnet/algebra/core/state_algebra.py
index b98a533..059571e 100644
--- a/src/qnet/algebra/core/state_algebra.py
+++ b/src/qnet/algebra/core/state_algebra.py
@@ -17,8 +17,8 @@ from .abstract_quantum_algebra import (
     QuantumDerivative, ensure_local_space, _series_expand_combine_prod)
 from .algebraic_properties import (
     accept_bras, assoc, assoc_indexed, basis_ket_zero_outside_hs,
-    filter_neutral, match_replace, match_replace_binary, orderby,
-    collect_summands)
+    filter_neutral, implied_local_space, match_replace, match_replace_binary,
+    orderby, collect_summands)
 from .exceptions import OverlappingSpaces, UnequalSpaces, SpaceTooLargeError
 from .hilbert_space_algebra import FullSpace, TrivialSpace
 from qnet.algebra.core.algebraic_properties import (
@@ -296,7 +296,8 @@ class BasisKet(LocalKet, KetSymbol):
             ZeroKet
     """
 
-    simplifications = [basis_ket_zero_outside_hs]
+    simplifications = [
+        implied_local_space(keys=['hs', ]), basis_ket_zero_outside_hs]
 
     def __init__(self, label_or_index, *, hs):
         hs = ensure_local_space(hs, cls=self._default_hs_cls)
-- 
2.43.0


From ac9772ccda04c236df32c65d1bbd5065e4872934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:40 +0000
Subject: [PATCH 068/132] fix: endless loop for operator products exceeding the
 space of a tensor ket

---
 src/qnet/algebra/_rules.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qnet/algebra/_rules.py b/src/qnet/algebra/_rules.py
index 69d0f46..194e345 100644
--- a/src/qnet/algebra/_rules.py
+++ b/src/qnet/algebra/_rules.py
@@ -529,6 +529,8 @@ def act_locally(op, ket):
 
 
 def act_locally_times_tensor(op, ket):
+    if not op.space <= ket.space:
+        raise CannotSimplify()  # invalid: SpaceTooLargeError on instantiation
     local_spaces = op.space.local_factors
     for spc in local_spaces:
         while spc < ket.space:
-- 
2.43.0


From 5521e63ec50b7d525b03f5fb7e37a742f07d63ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:22 +0000
Subject: [PATCH 069/132] fix: Matrix must not share memory with the array it
 is made from

---
 src/qnet/algebra/core/matrix_algebra.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/qnet/algebra/core/matrix_algebra.py b/src/qnet/algebra/core/matrix_algebra.py
index 88b0cab..3cd31f0 100644
--- a/src/qnet/algebra/core/matrix_algebra.py
+++ b/src/qnet/algebra/core/matrix_algebra.py
@@ -33,9 +33,7 @@ class Matrix(Expression):
     _hash = None
 
     def __init__(self, m):
-        if isinstance(m, ndarray):
-            self.matrix = m
-        elif isinstance(m, Matrix):
+        if isinstance(m, Matrix):
             self.matrix = np_array(m.matrix)
         else:
             self.matrix = np_array(m)
-- 
2.43.0


From 2b0caf54cf3407c49b16dcc8c8667ca4ccadb0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:22 +0000
Subject: [PATCH 070/132] fix: NoConjugateMatrix with newer numpy versions

---
 src/qnet/algebra/core/matrix_algebra.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/matrix_algebra.py b/src/qnet/algebra/core/matrix_algebra.py
index 3cd31f0..4b46e76 100644
--- a/src/qnet/algebra/core/matrix_algebra.py
+++ b/src/qnet/algebra/core/matrix_algebra.py
@@ -176,7 +176,8 @@ class Matrix(Expression):
         """
         try:
             return Matrix(np_conjugate(self.matrix))
-        except AttributeError:
+        except (AttributeError, TypeError):
+            # numpy >= 1.17 raises a TypeError
             raise NoConjugateMatrix(
                 "Matrix %s contains entries that have no defined "
                 "conjugate" % str(self))
-- 
2.43.0


From 326c3ff4cdd35afe3705eae12b9e69a16dc79b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:22 +0000
Subject: [PATCH 071/132] fix: multiply a QNET scalar with a Matrix

---
 src/qnet/algebra/core/matrix_algebra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qnet/algebra/core/matrix_algebra.py b/src/qnet/algebra/core/matrix_algebra.py
index 4b46e76..4441b52 100644
--- a/src/qnet/algebra/core/matrix_algebra.py
+++ b/src/qnet/algebra/core/matrix_algebra.py
@@ -129,7 +129,7 @@ class Matrix(Expression):
             return Matrix(self.matrix + other)
 
     def __radd__(self, other):
-        return Matrix(other + self.matrix)
+        return self.element_wise(lambda o: other + o)
 
     def __mul__(self, other):
         if isinstance(other, Matrix):
@@ -138,7 +138,7 @@ class Matrix(Expression):
             return Matrix(self.matrix * other)
 
     def __rmul__(self, other):
-        return Matrix(other * self.matrix)
+        return self.element_wise(lambda o: other * o)
 
     def __sub__(self, other):
         return self + (-1) * other
-- 
2.43.0


From c61cf3b126bca43ba1e00be65b165c390df62ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:22 +0000
Subject: [PATCH 072/132] fix: blocks of column matrices

---
 src/qnet/algebra/core/matrix_algebra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/matrix_algebra.py b/src/qnet/algebra/core/matrix_algebra.py
index 4441b52..3be5825 100644
--- a/src/qnet/algebra/core/matrix_algebra.py
+++ b/src/qnet/algebra/core/matrix_algebra.py
@@ -85,7 +85,7 @@ class Matrix(Expression):
                 return ()
             else:
                 return ((self[:block_structure[0], :],) +
-                        self[:block_structure[0], :]
+                        self[block_structure[0]:, :]
                         ._get_blocks(block_structure[1:]))
         else:
             raise ValueError()
-- 
2.43.0


From 61b5d770d1d53232e098ccd9fe75e7a0b37c0caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:52 +0000
Subject: [PATCH 073/132] fix: add or multiply QNET scalars wrapping numpy
 numbers to a Matrix

---
 src/qnet/algebra/core/matrix_algebra.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/qnet/algebra/core/matrix_algebra.py b/src/qnet/algebra/core/matrix_algebra.py
index 3be5825..5499fab 100644
--- a/src/qnet/algebra/core/matrix_algebra.py
+++ b/src/qnet/algebra/core/matrix_algebra.py
@@ -126,7 +126,7 @@ class Matrix(Expression):
         if isinstance(other, Matrix):
             return Matrix(self.matrix + other.matrix)
         else:
-            return Matrix(self.matrix + other)
+            return self._right_op(lambda o, x: o + x, other)
 
     def __radd__(self, other):
         return self.element_wise(lambda o: other + o)
@@ -135,7 +135,12 @@ class Matrix(Expression):
         if isinstance(other, Matrix):
             return Matrix(self.matrix.dot(other.matrix))
         else:
-            return Matrix(self.matrix * other)
+            return self._right_op(lambda o, x: o * x, other)
+
+    def _right_op(self, func, other):
+        if isinstance(other, ndarray):
+            return Matrix(func(self.matrix, other))
+        return self.element_wise(func, other)
 
     def __rmul__(self, other):
         return self.element_wise(lambda o: other * o)
-- 
2.43.0


From a661e1f84fe98c22a95f3718beb1192cd07df540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:53 +0000
Subject: [PATCH 074/132] fix: product of Zero and a Matrix is a zero Matrix

---
 src/qnet/algebra/core/matrix_algebra.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/qnet/algebra/core/matrix_algebra.py b/src/qnet/algebra/core/matrix_algebra.py
index 5499fab..daf0d70 100644
--- a/src/qnet/algebra/core/matrix_algebra.py
+++ b/src/qnet/algebra/core/matrix_algebra.py
@@ -106,6 +106,11 @@ class Matrix(Expression):
                     return False
         return True
 
+    @property
+    def _zero(self):
+        """Zero matrix of the same shape, cf. `Zero * Matrix`"""
+        return zerosm(self.shape, dtype=int)
+
     @classmethod
     def _get_instance_key(cls, args, kwargs):
         matrix = args[0]
-- 
2.43.0


From d3cba0425d8c6e9b34ad972396702aa40e410617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:16 +0000
Subject: [PATCH 075/132] fix: copying and pickling of ScalarValue

---
 src/qnet/algebra/core/scalar_algebra.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qnet/algebra/core/scalar_algebra.py b/src/qnet/algebra/core/scalar_algebra.py
index 787f129..c387fde 100644
--- a/src/qnet/algebra/core/scalar_algebra.py
+++ b/src/qnet/algebra/core/scalar_algebra.py
@@ -238,6 +238,9 @@ class ScalarValue(Scalar):
         super().__init__(val)
 
     def __getattr__(self, name):
+        if name == '_val' or name.startswith('__'):
+            # not set yet when copying or unpickling
+            raise AttributeError(name)
         return getattr(self.val, name)
 
     def _diff(self, sym):
-- 
2.43.0


From 4c99887907206a68dcacfbc72ac94bce9517a959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:16 +0000
Subject: [PATCH 076/132] fix: hash and symmetry for multiples of the identity
 equal to a scalar

---
 src/qnet/algebra/core/operator_algebra.py | 2 ++
 src/qnet/algebra/core/scalar_algebra.py   | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/src/qnet/algebra/core/operator_algebra.py b/src/qnet/algebra/core/operator_algebra.py
index e1ae8f9..15ef544 100644
--- a/src/qnet/algebra/core/operator_algebra.py
+++ b/src/qnet/algebra/core/operator_algebra.py
@@ -513,6 +513,8 @@ class ScalarTimesOperator(Operator, ScalarTimesQuantumExpression):
 
     def __hash__(self):
         # TODO: review, and add this to ScalarTimesQuantumExpression
+        if self.term is IdentityOperator:
+            return hash(self.coeff)  # consistent with __eq__
         return super().__hash__()
 
     def _adjoint(self):
diff --git a/src/qnet/algebra/core/scalar_algebra.py b/src/qnet/algebra/core/scalar_algebra.py
index c387fde..c964f77 100644
--- a/src/qnet/algebra/core/scalar_algebra.py
+++ b/src/qnet/algebra/core/scalar_algebra.py
@@ -317,6 +317,10 @@ class ScalarValue(Scalar):
         elif isinstance(other, (tuple, list)):
             # numpy values would compare element-wise
             return False
+        elif isinstance(other, QuantumExpression) \
+                and not isinstance(other, Scalar):
+            # e.g. a multiple of the identity operator
+            return NotImplemented
         else:
             return self.val == other
 
-- 
2.43.0


From 872214c1ab540c237544b35dbe5e313aa7ac236d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:42 +0000
Subject: [PATCH 077/132] fix: order sums after collecting summands

---
 src/qnet/algebra/core/algebraic_properties.py   | 3 +++
 src/qnet/algebra/core/operator_algebra.py       | 3 ++-
 src/qnet/algebra/core/scalar_algebra.py         | 2 +-
 src/qnet/algebra/core/state_algebra.py          | 3 ++-
 src/qnet/algebra/core/super_operator_algebra.py | 3 ++-
 5 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/qnet/algebra/core/algebraic_properties.py b/src/qnet/algebra/core/algebraic_properties.py
index 944de51..0122896 100644
--- a/src/qnet/algebra/core/algebraic_properties.py
+++ b/src/qnet/algebra/core/algebraic_properties.py
@@ -207,6 +207,9 @@ def collect_summands(cls, ops, kwargs):
         return cls._zero
     elif len(fops) == 1:
         return fops[0]
+    elif any(isinstance(op, cls) for op in fops):
+        # e.g. 2 * (A + B) - (A + B) + C
+        return cls.create(*fops, **kwargs)
     else:
         return tuple(fops), kwargs
 
diff --git a/src/qnet/algebra/core/operator_algebra.py b/src/qnet/algebra/core/operator_algebra.py
index 15ef544..76a370f 100644
--- a/src/qnet/algebra/core/operator_algebra.py
+++ b/src/qnet/algebra/core/operator_algebra.py
@@ -465,7 +465,8 @@ class OperatorPlus(QuantumPlus, Operator):
     _neutral_element = ZeroOperator
     _binary_rules = OrderedDict()
     simplifications = [
-        assoc, scalars_to_op, orderby, collect_summands, match_replace_binary]
+        assoc, scalars_to_op, orderby, collect_summands, orderby,
+        match_replace_binary]
 
     def _pseudo_inverse(self):
         return PseudoInverse(self)
diff --git a/src/qnet/algebra/core/scalar_algebra.py b/src/qnet/algebra/core/scalar_algebra.py
index c964f77..1f4f233 100644
--- a/src/qnet/algebra/core/scalar_algebra.py
+++ b/src/qnet/algebra/core/scalar_algebra.py
@@ -891,7 +891,7 @@ class ScalarPlus(QuantumPlus, Scalar):
     _binary_rules = OrderedDict()
     simplifications = [
         assoc, convert_to_scalars, orderby, collect_scalar_summands,
-        match_replace_binary]
+        orderby, match_replace_binary]
 
     def conjugate(self):
         """Complex conjugate of of the sum"""
diff --git a/src/qnet/algebra/core/state_algebra.py b/src/qnet/algebra/core/state_algebra.py
index 059571e..58fde4e 100644
--- a/src/qnet/algebra/core/state_algebra.py
+++ b/src/qnet/algebra/core/state_algebra.py
@@ -442,7 +442,8 @@ class KetPlus(State, QuantumPlus):
     _neutral_element = ZeroKet
     _binary_rules = OrderedDict()
     simplifications = [
-        accept_bras, assoc, orderby, collect_summands, match_replace_binary]
+        accept_bras, assoc, orderby, collect_summands, orderby,
+        match_replace_binary]
 
     order_key = FullCommutativeHSOrder
 
diff --git a/src/qnet/algebra/core/super_operator_algebra.py b/src/qnet/algebra/core/super_operator_algebra.py
index 4091e53..edd2a6a 100644
--- a/src/qnet/algebra/core/super_operator_algebra.py
+++ b/src/qnet/algebra/core/super_operator_algebra.py
@@ -122,7 +122,8 @@ class SuperOperatorPlus(QuantumPlus, SuperOperator):
 
     _neutral_element = ZeroSuperOperator
     _binary_rules = OrderedDict()
-    simplifications = [assoc, orderby, collect_summands, match_replace_binary]
+    simplifications = [
+        assoc, orderby, collect_summands, orderby, match_replace_binary]
 
 
 class SuperCommutativeHSOrder(DisjunctCommutativeHSOrder):
-- 
2.43.0


From be0bc54137e223bd50d7e329be65881d1437f0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:00 +0000
Subject: [PATCH 078/132] fix: minimal_kwargs of rebuilt local spaces

---
 src/qnet/algebra/core/hilbert_space_algebra.py | 8 ++++----
 src/qnet/algebra/library/spin_algebra.py       | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/qnet/algebra/core/hilbert_space_algebra.py b/src/qnet/algebra/core/hilbert_space_algebra.py
index 6783c07..ea1742f 100644
--- a/src/qnet/algebra/core/hilbert_space_algebra.py
+++ b/src/qnet/algebra/core/hilbert_space_algebra.py
@@ -236,11 +236,9 @@ class LocalSpace(HilbertSpace, Expression):
             order_index = float('inf')  # ensure sort as last
         else:
             order_index = int(order_index)
-        if local_identifiers is None:
+        local_identifiers = dict(local_identifiers or {})
+        if not local_identifiers:
             default_args.append('local_identifiers')
-            local_identifiers = {}
-        else:
-            local_identifiers = dict(local_identifiers)
         try:
             # we want to normalize the local_identifiers to an arbitrary stable
             # order
@@ -267,6 +265,8 @@ class LocalSpace(HilbertSpace, Expression):
             else:
                 if dimension != len(basis):
                     raise ValueError("basis and dimension are incompatible")
+                if basis == tuple([str(i) for i in range(dimension)]):
+                    default_args.append('basis')
 
         self._label = label
         self._order_key = KeyTuple((
diff --git a/src/qnet/algebra/library/spin_algebra.py b/src/qnet/algebra/library/spin_algebra.py
index 998d139..e3407ea 100644
--- a/src/qnet/algebra/library/spin_algebra.py
+++ b/src/qnet/algebra/library/spin_algebra.py
@@ -112,7 +112,7 @@ class SpinSpace(LocalSpace):
         self._minimal_kwargs = self._kwargs.copy()
         if self._basis == default_basis:
             del self._minimal_kwargs['basis']
-        if local_identifiers is None:
+        if not self._sorted_local_identifiers:
             del self._minimal_kwargs['local_identifiers']
         if order_index in [None, float('inf')]:
             del self._minimal_kwargs['order_index']
-- 
2.43.0


From 3ffd84114eabc34e3db4186fc5ee9d5d2a34f6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:12 +0000
Subject: [PATCH 079/132] fix: canonical Commutators from diff and adjoint

---
 src/qnet/algebra/core/operator_algebra.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/qnet/algebra/core/operator_algebra.py b/src/qnet/algebra/core/operator_algebra.py
index 76a370f..8f9988a 100644
--- a/src/qnet/algebra/core/operator_algebra.py
+++ b/src/qnet/algebra/core/operator_algebra.py
@@ -603,11 +603,11 @@ class Commutator(QuantumOperation, Operator):
         return tuple(res)
 
     def _diff(self, sym):
-        return (self.__class__(self.A.diff(sym), self.B) +
-                self.__class__(self.A, self.B.diff(sym)))
+        return (self.__class__.create(self.A.diff(sym), self.B) +
+                self.__class__.create(self.A, self.B.diff(sym)))
 
     def _adjoint(self):
-        return Commutator(self.B.adjoint(), self.A.adjoint())
+        return Commutator.create(self.B.adjoint(), self.A.adjoint())
 
     def _pseudo_inverse(self):
         return PseudoInverse(self)
-- 
2.43.0


From 80d1f850d69685f2a7d3606fd46bd3970f5faacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:00 +0000
Subject: [PATCH 080/132] fix: srepr does not mix up numbers with equal QNET
 scalars

---
 src/qnet/printing/sreprprinter.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/qnet/printing/sreprprinter.py b/src/qnet/printing/sreprprinter.py
index 4a1d9ae..262e6fc 100644
--- a/src/qnet/printing/sreprprinter.py
+++ b/src/qnet/printing/sreprprinter.py
@@ -8,6 +8,9 @@ from .base import QnetBasePrinter
 from .sympy import SympyReprPrinter
 from ._render_head_repr import render_head_repr
 from qnet.algebra.core.abstract_algebra import Expression
+from qnet.algebra.core.operator_algebra import (
+    IdentityOperator, ScalarTimesOperator)
+from qnet.algebra.core.scalar_algebra import Scalar
 from ..utils.singleton import Singleton
 
 __all__ = []
@@ -15,11 +18,24 @@ __private__ = [
     'QnetSReprPrinter', 'IndentedSReprPrinter', 'IndentedSympyReprPrinter']
 
 
+def _equals_scalar(expr):
+    """Is `expr` equal to objects that have a different representation, such
+    as ``2 == ScalarValue(2) == 2 * IdentityOperator``, or ``0 == Zero``?"""
+    if isinstance(expr, ScalarTimesOperator):
+        return expr.term is IdentityOperator
+    return isinstance(expr, (Scalar,) + Scalar._val_types)
+
+
 class QnetSReprPrinter(QnetBasePrinter):
     """Printer for a string (ASCII) representation."""
 
     sympy_printer_cls = SympyReprPrinter
 
+    def _write_to_cache(self, expr, res):
+        """Store the result, unless it is not unique"""
+        if not _equals_scalar(expr):
+            super()._write_to_cache(expr, res)
+
     def _render_str(self, string):
         return repr(string)
 
@@ -69,8 +85,8 @@ class IndentedSReprPrinter(QnetBasePrinter):
     def _write_to_cache(self, expr, res):
         """Store the cached result without indentation, and without the
         keyname"""
-        res = dedent(res)
-        super()._write_to_cache(expr, res)
+        if not _equals_scalar(expr):
+            super()._write_to_cache(expr, dedent(res))
 
     def _render_str(self, string):
         return "    " * self._print_level + repr(string)
-- 
2.43.0


From e1476e50075ff1f657a9289d3e484038a7dde235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:52 +0000
Subject: [PATCH 081/132] fix: derivatives of multiples of the identity and
 equal scalars are cached separately

---
 src/qnet/algebra/core/abstract_quantum_algebra.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/qnet/algebra/core/abstract_quantum_algebra.py b/src/qnet/algebra/core/abstract_quantum_algebra.py
index 5d6f513..eb7e109 100644
--- a/src/qnet/algebra/core/abstract_quantum_algebra.py
+++ b/src/qnet/algebra/core/abstract_quantum_algebra.py
@@ -710,6 +710,14 @@ class QuantumDerivative(SingleQuantumOperation):
             vals = cls._dict_to_ordered_tuple(dict(vals))
         return super().create(op, derivs=derivs, vals=vals)
 
+    @classmethod
+    def _get_instance_key(cls, args, kwargs):
+        # a multiple of the identity is equal to the corresponding scalar, but
+        # its derivative is not a scalar
+        return (
+            super()._get_instance_key(args, kwargs) +
+            tuple(type(arg) for arg in args))
+
     def __init__(self, op, *, derivs, vals=None):
         self._derivs = defaultdict(int)
         self._n = 0
-- 
2.43.0


From 98921dda4d18a65e9d5e8215c0e3df58228a21f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:52 +0000
Subject: [PATCH 082/132] fix: collect One in sums of scalars

---
 src/qnet/algebra/core/algebraic_properties.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qnet/algebra/core/algebraic_properties.py b/src/qnet/algebra/core/algebraic_properties.py
index 0122896..71546a7 100644
--- a/src/qnet/algebra/core/algebraic_properties.py
+++ b/src/qnet/algebra/core/algebraic_properties.py
@@ -244,6 +244,8 @@ def collect_scalar_summands(cls, ops, kwargs):
     a_0 = Zero
     coeff_map = OrderedDict()
     for op in ops:
+        if op is One:
+            op = 1
         if isinstance(op, ScalarValue) or isinstance(op, Scalar._val_types):
             a_0 += op
             continue
-- 
2.43.0


From 43ba7cc440b8951e90b5f6dd0f40933208304c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:52 +0000
Subject: [PATCH 083/132] fix: adjoint of ScalarTimesOperator is canonical

---
 src/qnet/algebra/core/operator_algebra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/operator_algebra.py b/src/qnet/algebra/core/operator_algebra.py
index 8f9988a..8716443 100644
--- a/src/qnet/algebra/core/operator_algebra.py
+++ b/src/qnet/algebra/core/operator_algebra.py
@@ -519,7 +519,7 @@ class ScalarTimesOperator(Operator, ScalarTimesQuantumExpression):
         return super().__hash__()
 
     def _adjoint(self):
-        return ScalarTimesOperator(self.coeff.conjugate(), self.term.adjoint())
+        return self.coeff.conjugate() * self.term.adjoint()
 
 
 class OperatorDerivative(QuantumDerivative, Operator):
-- 
2.43.0


From d583055eccbc1e615815ff43490fe240a78f3280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:52 +0000
Subject: [PATCH 084/132] fix: combine powers of scalars independently of their
 order

---
 src/qnet/algebra/_rules.py              | 6 ++++++
 src/qnet/algebra/core/scalar_algebra.py | 7 +++++++
 2 files changed, 13 insertions(+)

diff --git a/src/qnet/algebra/_rules.py b/src/qnet/algebra/_rules.py
index 194e345..e0ac2b3 100644
--- a/src/qnet/algebra/_rules.py
+++ b/src/qnet/algebra/_rules.py
@@ -71,6 +71,12 @@ def _algebraic_rules_scalar():
         ('R006', (
             pattern_head(x, pattern(ScalarPower, x, -1)),
             lambda x: One)),
+        ('R007', (
+            pattern_head(x, pattern(ScalarPower, x, y)),
+            lambda x, y: x**(y+1))),
+        ('R008', (
+            pattern_head(pattern(ScalarPower, x, y), x),
+            lambda x, y: x**(y+1))),
     ]))
 
     def power_of_power(x, y, z):
diff --git a/src/qnet/algebra/core/scalar_algebra.py b/src/qnet/algebra/core/scalar_algebra.py
index 1f4f233..dd084d8 100644
--- a/src/qnet/algebra/core/scalar_algebra.py
+++ b/src/qnet/algebra/core/scalar_algebra.py
@@ -1112,6 +1112,13 @@ class ScalarPower(QuantumOperation, Scalar):
         """The exponent"""
         return self._exp
 
+    @property
+    def _order_key(self):
+        # powers are ordered directly after their base, so that
+        # :class:`ScalarTimes` can combine them
+        return KeyTuple(
+            tuple(self.base._order_key) + (self.exp._order_key, ))
+
     def __pow__(self, other):
         if _is_integer(other):
             return ScalarPower.create(self.base, self.exp * other)
-- 
2.43.0


From 6b28db6d6ad2cfd4436d0b1b5374a0fa45a00291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:52 +0000
Subject: [PATCH 085/132] fix: render ScalarValue with the printer of its value

---
 src/qnet/printing/base.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/qnet/printing/base.py b/src/qnet/printing/base.py
index d33ee7b..afaded2 100644
--- a/src/qnet/printing/base.py
+++ b/src/qnet/printing/base.py
@@ -3,7 +3,7 @@
 from sympy.core.basic import Basic as SympyBasic
 from sympy.printing.printer import Printer as SympyPrinter
 
-from ..algebra.core.scalar_algebra import Scalar
+from ..algebra.core.scalar_algebra import Scalar, ScalarValue
 from ..utils.indices import StrLabel
 from .sympy import SympyStrPrinter
 from ._render_head_repr import render_head_repr
@@ -193,6 +193,11 @@ class QnetBasePrinter(SympyPrinter):
                 res = self._print_SCALAR_TYPES(expr, *args, **kwargs)
             elif isinstance(expr, str):
                 return self._render_str(expr)
+            elif (isinstance(expr, ScalarValue) and
+                    hasattr(self, '_print_ScalarValue')):
+                # a ScalarValue delegates unknown attributes to its value, so
+                # the `_print` method would find the `printmethod` of the value
+                res = self._str(self._print_ScalarValue(expr, *args, **kwargs))
             else:
                 # the _print method, inherited from SympyPrinter implements the
                 # internal dispatcher for (3-5)
-- 
2.43.0


From 7b2d77faca7c8d1970f0dd43b15473c7db7318dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:45 +0000
Subject: [PATCH 086/132] fix: full representation of the elements of lists in
 the indented srepr

---
 src/qnet/printing/sreprprinter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/printing/sreprprinter.py b/src/qnet/printing/sreprprinter.py
index 262e6fc..0674277 100644
--- a/src/qnet/printing/sreprprinter.py
+++ b/src/qnet/printing/sreprprinter.py
@@ -119,7 +119,7 @@ class IndentedSReprPrinter(QnetBasePrinter):
                 delims = (delims[0], "," + delims[1])
             lines.append(
                 indent_str + delims[0] +
-                ", ".join([render_head_repr(v) for v in expr]) +
+                ", ".join([QnetSReprPrinter().doprint(v) for v in expr]) +
                 delims[1])
         else:
             lines.append(indent_str + SympyReprPrinter().doprint(expr))
-- 
2.43.0


From c92b0d6c818a637f3c2547fe53a575c7e00cbcc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:45 +0000
Subject: [PATCH 087/132] fix: configure_printing restores the complete
 printing system

---
 src/qnet/printing/__init__.py | 77 ++++++++++++++++++-----------------
 1 file changed, 40 insertions(+), 37 deletions(-)

diff --git a/src/qnet/printing/__init__.py b/src/qnet/printing/__init__.py
index 52157af..7909e5f 100644
--- a/src/qnet/printing/__init__.py
+++ b/src/qnet/printing/__init__.py
@@ -107,9 +107,6 @@ def init_printing(*, reset=False, init_sympy=True, **kwargs):
         :func:`configure_printing` allows to temporarily change the printing
         system from what was configured in :func:`init_printing`.
     """
-    # return either None (default) or a dict of frozen attributes if
-    # ``_freeze=True`` is given as a keyword argument (internal use in
-    # `configure_printing` only)
     logger = logging.getLogger(__name__)
     if reset:
         SympyPrinter._global_settings = {}
@@ -121,26 +118,17 @@ def init_printing(*, reset=False, init_sympy=True, **kwargs):
         else:
             sympy_init_printing()  # let sympy decide by itself
     if 'inifile' in kwargs:
-        invalid_kwargs = False
-        if '_freeze' in kwargs:
-            _freeze = kwargs['_freeze']
-            if len(kwargs) != 2:
-                invalid_kwargs = True
-        else:
-            _freeze = False
-            if len(kwargs) != 1:
-                invalid_kwargs = True
-        if invalid_kwargs:
+        if len(kwargs) != 1:
             raise TypeError(
                 "The `inifile` argument cannot be combined with any "
                 "other keyword arguments")
         logger.debug(
             "Initializating printing from INI file %s", kwargs['inifile'])
-        return _init_printing_from_file(kwargs['inifile'], _freeze=_freeze)
+        _init_printing_from_file(kwargs['inifile'])
     else:
         logger.debug(
             "Initializating printing with direct settings: %s", repr(kwargs))
-        return _init_printing(**kwargs)
+        _init_printing(**kwargs)
 
 
 def _init_printing(
@@ -153,13 +141,10 @@ def _init_printing(
         unicode_settings=None,
         latex_printer='qnet.printing.latexprinter.QnetLatexPrinter',
         latex_sympy_printer='qnet.printing.sympy.SympyLatexPrinter',
-        latex_settings=None, _freeze=False, **settings):
+        latex_settings=None, **settings):
     # Note: the *_printer args are undocumented, it's preferable to use them
     # through an INI file only
     logger = logging.getLogger(__name__)
-    freeze = defaultdict(dict)
-    freeze[SympyPrinter]['_global_settings'] \
-        = SympyPrinter._global_settings.copy()
     # Putting the settings in the _global_settings dict for SympyPrinter makes
     # sure that any setting that is acceptable to any Printer that is newly
     # instantiated is used automatically. Settings in _global_settings that are
@@ -169,7 +154,6 @@ def _init_printing(
     # no settings are passed to any specific Printer below -- Printer-specific
     # settings are possible only when using an INI file.
 
-    freeze[QnetBasePrinter]['_allow_caching'] = QnetBasePrinter._allow_caching
     QnetBasePrinter._allow_caching = caching
 
     print_map = {
@@ -186,13 +170,6 @@ def _init_printing(
         if settings is None:
             settings = {}
 
-        if hasattr(print_func, '_printer_cls'):
-            freeze[print_func]['_printer_cls'] = print_func._printer_cls
-            freeze[print_func._printer_cls]['sympy_printer_cls'] = \
-                print_func._printer_cls.sympy_printer_cls
-        if hasattr(print_func, 'printer'):
-            freeze[print_func]['printer'] = print_func.printer
-
         print_func._printer_cls = _printer_cls(
             name + '_printer', qnet_printer_address)
         print_func._printer_cls.sympy_printer_cls = _printer_cls(
@@ -229,17 +206,12 @@ def _init_printing(
         raise ValueError(
             "repr_format must be one of %s" % ", ".join(_PRINT_FUNC.keys()))
     from qnet.algebra.core.abstract_algebra import Expression
-    freeze[Expression]['__str__'] = Expression.__str__
-    freeze[Expression]['__repr__'] = Expression.__repr__
-    freeze[Expression]['_repr_latex_'] = Expression._repr_latex_
     Expression.__str__ = lambda self: str_func(self)
     Expression.__repr__ = lambda self: repr_func(self)
     Expression._repr_latex_ = lambda self: "$" + latex(self) + "$"
-    if _freeze:
-        return freeze
 
 
-def _init_printing_from_file(inifile, _freeze=False):
+def _init_printing_from_file(inifile):
     config = configparser.ConfigParser(interpolation=None)
     config.BOOLEAN_STATES = {
         'true': True, 'True': True, 'false': False, 'False': False}
@@ -265,7 +237,33 @@ def _init_printing_from_file(inifile, _freeze=False):
                     kwargs["%s_sympy_printer" % section] = val
                 else:
                     kwargs["%s_settings" % section][key] = val
-    return _init_printing(_freeze=_freeze, **dict(kwargs))
+    _init_printing(**dict(kwargs))
+
+
+_MISSING = object()  # value of an attribute that does not exist
+
+
+def _printing_state():
+    """All the state that :func:`init_printing` may modify, as a list of tuples
+    ``(obj, attr, val)``, where `val` is ``_MISSING`` if `obj` does not have an
+    attribute `attr` of its own"""
+    from qnet.algebra.core.abstract_algebra import Expression
+
+    attrs = [
+        (sys, 'displayhook'), (QnetBasePrinter, '_allow_caching'),
+        (Expression, '__str__'), (Expression, '__repr__'),
+        (Expression, '_repr_latex_')]
+    for print_func in (ascii, unicode, latex):
+        attrs.extend([(print_func, '_printer_cls'), (print_func, 'printer')])
+    printer_classes = [QnetBasePrinter]
+    for cls in printer_classes:  # the list grows while iterating over it
+        printer_classes.extend(cls.__subclasses__())
+        attrs.append((cls, 'sympy_printer_cls'))
+    state = [(obj, attr, vars(obj).get(attr, _MISSING)) for obj, attr in attrs]
+    # The global settings are modified in-place
+    state.append((
+        SympyPrinter, '_global_settings', SympyPrinter._global_settings.copy()))
+    return state
 
 
 @contextmanager
@@ -283,13 +281,18 @@ def configure_printing(**kwargs):
         >>> print(ascii(A + B))
         A^(1) + B^(1)
     """
-    freeze = init_printing(_freeze=True, **kwargs)
+    state = _printing_state()
+    print_func = _PRINT_FUNC.copy()
     try:
+        init_printing(**kwargs)
         yield
     finally:
-        for obj, attr_map in freeze.items():
-            for attr, val in attr_map.items():
+        _PRINT_FUNC.update(print_func)
+        for obj, attr, val in state:
+            if val is not _MISSING:
                 setattr(obj, attr, val)
+            elif attr in vars(obj):
+                delattr(obj, attr)
 
 
 def ascii(expr, cache=None, **settings):
-- 
2.43.0


From b37dedc850cb88b40284f41a24f1c1f92250d858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:45 +0000
Subject: [PATCH 088/132] fix: temporary_rules/temporary_instance_cache restore
 inherited attributes and repeated classes

---
 src/qnet/algebra/toolbox/core.py | 77 ++++++++++++++------------------
 1 file changed, 33 insertions(+), 44 deletions(-)

diff --git a/src/qnet/algebra/toolbox/core.py b/src/qnet/algebra/toolbox/core.py
index 0842293..3051a3c 100644
--- a/src/qnet/algebra/toolbox/core.py
+++ b/src/qnet/algebra/toolbox/core.py
@@ -27,6 +27,26 @@ def no_instance_caching():
         Expression.instance_caching = orig_flag
 
 
+_MISSING = object()  # value of an attribute that does not exist
+
+
+@contextmanager
+def _protected_attributes(classes, *attrs):
+    """Restore the attributes of all the given `classes` on leaving the managed
+    context. Attributes that a class inherits will be inherited again."""
+    state = [
+        (cls, attr, vars(cls).get(attr, _MISSING))
+        for cls in classes for attr in attrs]
+    try:
+        yield
+    finally:
+        for cls, attr, val in state:
+            if val is not _MISSING:
+                setattr(cls, attr, val)
+            elif attr in vars(cls):
+                delattr(cls, attr)
+
+
 @contextmanager
 def temporary_instance_cache(*classes):
     """Use a temporary cache for instances in :meth:`~.Expression.create`
@@ -36,15 +56,12 @@ def temporary_instance_cache(*classes):
     on leaving it.  That is, no cached instances from outside of the managed
     context will be used within the managed context, and vice versa
     """
-    orig_instances = []
-    for cls in classes:
-        orig_instances.append(cls._instances)
-        cls._instances = {}
-    try:
+    with _protected_attributes(classes, '_instances'):
+        for cls in classes:
+            if not hasattr(cls, '_instances'):
+                raise AttributeError("%s has no instance cache" % cls)
+            cls._instances = {}
         yield
-    finally:
-        for i, cls in enumerate(classes):
-            cls._instances = orig_instances[i]
 
 
 @contextmanager
@@ -69,43 +86,15 @@ def temporary_rules(*classes, clear=False):
     :obj:`simplifications <.Expression>` should be done with care, but allows
     complete control over the creation of expressions.
     """
-    orig_instances = []
-    orig_rules = []
-    orig_binary_rules = []
-    orig_simplifications = []
-
-    for cls in classes:
-        orig_instances.append(cls._instances)
-        cls._instances = {}
-        orig_simplifications.append(cls.simplifications)
-        cls.simplifications = cls.simplifications.copy()
-        try:
-            orig_rules.append(cls._rules)
-            if clear:
-                cls._rules = OrderedDict([])
-            else:
-                cls._rules = cls._rules.copy()
-        except AttributeError:
-            orig_rules.append(None)
-        try:
-            orig_binary_rules.append(cls._binary_rules)
-            if clear:
-                cls._binary_rules = OrderedDict([])
-            else:
-                cls._binary_rules = cls._binary_rules.copy()
-        except AttributeError:
-            orig_binary_rules.append(None)
-
-    try:
+    with temporary_instance_cache(*classes), _protected_attributes(
+            classes, 'simplifications', '_rules', '_binary_rules'):
+        for cls in classes:
+            cls.simplifications = cls.simplifications.copy()
+            for attr in ('_rules', '_binary_rules'):
+                if hasattr(cls, attr):
+                    rules = OrderedDict([]) if clear else getattr(cls, attr)
+                    setattr(cls, attr, rules.copy())
         yield
-    finally:
-        for i, cls in enumerate(classes):
-            cls._instances = orig_instances[i]
-            cls.simplifications = orig_simplifications[i]
-            if orig_rules[i] is not None:
-                cls._rules = orig_rules[i]
-            if orig_binary_rules[i] is not None:
-                cls._binary_rules = orig_binary_rules[i]
 
 
 def symbols(names, **args):
-- 
2.43.0


From 108711c180745a9389307b1eddae3f47613860a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:12 +0000
Subject: [PATCH 089/132] fix: subscript label of a bra in LaTeX

---
 src/qnet/printing/latexprinter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/printing/latexprinter.py b/src/qnet/printing/latexprinter.py
index 1b8c8e5..2bc540d 100644
--- a/src/qnet/printing/latexprinter.py
+++ b/src/qnet/printing/latexprinter.py
@@ -119,7 +119,7 @@ class QnetLatexPrinter(QnetAsciiPrinter):
                     True:
                         r'\left\langle {label} \right\rvert^{{({space})}}',
                     'subscript':
-                        r'\left\langle {label} \right\rvert^{{({space})}}',
+                        r'\left\langle {label} \right\rvert_{{({space})}}',
                     False:
                         r'\left\langle {label} \right\rvert'},
                 'ket': {
-- 
2.43.0


From b9c88953da518d031d3a82080317b297d4fa1f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:12 +0000
Subject: [PATCH 090/132] fix: printing of ScalarPower and SLH

---
 src/qnet/printing/asciiprinter.py | 10 ++++++++++
 src/qnet/printing/latexprinter.py |  8 ++++++++
 2 files changed, 18 insertions(+)

diff --git a/src/qnet/printing/asciiprinter.py b/src/qnet/printing/asciiprinter.py
index e6c09d6..0dd01c3 100644
--- a/src/qnet/printing/asciiprinter.py
+++ b/src/qnet/printing/asciiprinter.py
@@ -268,6 +268,9 @@ class QnetAsciiPrinter(QnetBasePrinter):
         return r'[{operand}]^{{-1}}'.format(
             operand=self.doprint(expr.operand))
 
+    def _print_SLH(self, expr):
+        return 'SLH' + self._print_tuple(expr.args)
+
     def _print_HilbertSpace(self, expr):
         return r'H_{label}'.format(
             label=self._render_hs_label(expr))
@@ -326,6 +329,13 @@ class QnetAsciiPrinter(QnetBasePrinter):
     def _print_ScalarValue(self, expr, **kwargs):
         return self.doprint(expr.val, **kwargs)
 
+    def _print_ScalarPower(self, expr, **kwargs):
+        base = self.parenthesize(
+            expr.base, PRECEDENCE['Pow'], strict=True, **kwargs)
+        exp = self.parenthesize(
+            expr.exp, PRECEDENCE['Pow'], strict=True, **kwargs)
+        return base + '**' + exp
+
     def _print_Zero(self, expr, **kwargs):
         return "0"
 
diff --git a/src/qnet/printing/latexprinter.py b/src/qnet/printing/latexprinter.py
index 2bc540d..f70b374 100644
--- a/src/qnet/printing/latexprinter.py
+++ b/src/qnet/printing/latexprinter.py
@@ -250,6 +250,14 @@ class QnetLatexPrinter(QnetAsciiPrinter):
                 self._parenth_right)
         return res
 
+    def _print_SLH(self, expr):
+        return r'{\rm SLH}' + self._print_tuple(expr.args)
+
+    def _print_ScalarPower(self, expr, **kwargs):
+        base = self.parenthesize(
+            expr.base, PRECEDENCE['Pow'], strict=True, **kwargs)
+        return '%s^{%s}' % (base, self.doprint(expr.exp, **kwargs))
+
     def _print_CPermutation(self, expr):
         permutation_sym = r'\mathbf{P}_{\sigma}'
         return r'%s\begin{pmatrix} %s \\ %s \end{pmatrix}' % (
-- 
2.43.0


From 431ca5f2b361c867e4e50b37de50d065a9f8bba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:12 +0000
Subject: [PATCH 091/132] fix: parentheses do not depend on the format of str

---
 src/qnet/printing/_precedence.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/qnet/printing/_precedence.py b/src/qnet/printing/_precedence.py
index bed3307..957a9b6 100644
--- a/src/qnet/printing/_precedence.py
+++ b/src/qnet/printing/_precedence.py
@@ -53,16 +53,23 @@ PRECEDENCE_VALUES.update(SYMPY_PRECEDENCE_VALUES)
 # Precedence functions
 
 
+def _is_rendered_negative(expr):
+    # This must not use `str`, which depends on the `str_format` set in
+    # `init_printing`
+    from .asciiprinter import QnetAsciiDefaultPrinter
+    return QnetAsciiDefaultPrinter().doprint(expr).startswith('-')
+
+
 def precedence_ScalarTimesX(expr):
     # TODO: can we avoid rendering expr.coeff, cf.
     # from sympy.core.function import _coeff_isneg
-    if str(expr.coeff).startswith('-'):
+    if _is_rendered_negative(expr.coeff):
         return PRECEDENCE["Add"]
     return PRECEDENCE["Mul"]
 
 
 def precedence_OperatorTimesKet(expr):
-    if str(expr.operator).startswith('-'):
+    if _is_rendered_negative(expr.operator):
         return PRECEDENCE["Add"]
     return PRECEDENCE["Mul"]
 
@@ -72,7 +79,7 @@ def precedence_Bra(expr):
 
 
 def precedence_SuperOperatorTimesOperator(expr):
-    if str(expr.sop).startswith('-'):
+    if _is_rendered_negative(expr.sop):
         return PRECEDENCE["Add"]
     return PRECEDENCE["Mul"]
 
-- 
2.43.0


From 51869902992106786f6ebcb5aaa4dc0108a5fb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:13 +0000
Subject: [PATCH 092/132] fix: do not cache the printed form of scalars, which
 may equal other objects

---
 src/qnet/printing/base.py         | 12 ++++++++++++
 src/qnet/printing/sreprprinter.py | 19 +------------------
 2 files changed, 13 insertions(+), 18 deletions(-)

diff --git a/src/qnet/printing/base.py b/src/qnet/printing/base.py
index afaded2..bdf5d5c 100644
--- a/src/qnet/printing/base.py
+++ b/src/qnet/printing/base.py
@@ -3,6 +3,8 @@
 from sympy.core.basic import Basic as SympyBasic
 from sympy.printing.printer import Printer as SympyPrinter
 
+from ..algebra.core.operator_algebra import (
+    IdentityOperator, ScalarTimesOperator)
 from ..algebra.core.scalar_algebra import Scalar, ScalarValue
 from ..utils.indices import StrLabel
 from .sympy import SympyStrPrinter
@@ -12,6 +14,14 @@ __all__ = []
 __private__ = ['QnetBasePrinter']
 
 
+def _equals_scalar(expr):
+    """Is `expr` equal to objects that have a different representation, such
+    as ``2 == ScalarValue(2) == 2 * IdentityOperator``, or ``0 == Zero``?"""
+    if isinstance(expr, ScalarTimesOperator):
+        return expr.term is IdentityOperator
+    return isinstance(expr, (Scalar,) + Scalar._val_types)
+
+
 class QnetBasePrinter(SympyPrinter):
     """Base class for all QNET expression printers
 
@@ -131,6 +141,8 @@ class QnetBasePrinter(SympyPrinter):
         """Store the result of :meth:`doprint` in the internal cache"""
         # Well be overwritten by printers that use indentation, see
         # _get_from_cache
+        if _equals_scalar(expr):
+            return  # the result is not unique
         try:
             self.cache[expr] = res
         except TypeError:
diff --git a/src/qnet/printing/sreprprinter.py b/src/qnet/printing/sreprprinter.py
index 0674277..809b460 100644
--- a/src/qnet/printing/sreprprinter.py
+++ b/src/qnet/printing/sreprprinter.py
@@ -8,9 +8,6 @@ from .base import QnetBasePrinter
 from .sympy import SympyReprPrinter
 from ._render_head_repr import render_head_repr
 from qnet.algebra.core.abstract_algebra import Expression
-from qnet.algebra.core.operator_algebra import (
-    IdentityOperator, ScalarTimesOperator)
-from qnet.algebra.core.scalar_algebra import Scalar
 from ..utils.singleton import Singleton
 
 __all__ = []
@@ -18,24 +15,11 @@ __private__ = [
     'QnetSReprPrinter', 'IndentedSReprPrinter', 'IndentedSympyReprPrinter']
 
 
-def _equals_scalar(expr):
-    """Is `expr` equal to objects that have a different representation, such
-    as ``2 == ScalarValue(2) == 2 * IdentityOperator``, or ``0 == Zero``?"""
-    if isinstance(expr, ScalarTimesOperator):
-        return expr.term is IdentityOperator
-    return isinstance(expr, (Scalar,) + Scalar._val_types)
-
-
 class QnetSReprPrinter(QnetBasePrinter):
     """Printer for a string (ASCII) representation."""
 
     sympy_printer_cls = SympyReprPrinter
 
-    def _write_to_cache(self, expr, res):
-        """Store the result, unless it is not unique"""
-        if not _equals_scalar(expr):
-            super()._write_to_cache(expr, res)
-
     def _render_str(self, string):
         return repr(string)
 
@@ -85,8 +69,7 @@ class IndentedSReprPrinter(QnetBasePrinter):
     def _write_to_cache(self, expr, res):
         """Store the cached result without indentation, and without the
         keyname"""
-        if not _equals_scalar(expr):
-            super()._write_to_cache(expr, dedent(res))
+        super()._write_to_cache(expr, dedent(res))
 
     def _render_str(self, string):
         return "    " * self._print_level + repr(string)
-- 
2.43.0


From f19d2b35ea801a716f8eae780460b93eb2adc66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:13 +0000
Subject: [PATCH 093/132] fix: custom names for primed indices in LaTeX

---
 src/qnet/utils/indices.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qnet/utils/indices.py b/src/qnet/utils/indices.py
index eb797ca..a1471d3 100644
--- a/src/qnet/utils/indices.py
+++ b/src/qnet/utils/indices.py
@@ -176,6 +176,8 @@ class IdxSym(sympy.Symbol):
 
     def _latex(self, printer, *args):
         res = printer._print_Symbol(self)
+        if self in printer._settings['symbol_names']:
+            return res  # the custom name is for the primed symbol
         if self.primed > 0:
             res = r'{%s^{%s}}' % (res, r'\prime' * self.primed)
         return res
-- 
2.43.0


From 849a14c2d97e6f700ce8200c7abe595dd4a572d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:39 +0000
Subject: [PATCH 094/132] fix: run time of printing nested expressions

---
 src/qnet/printing/_precedence.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qnet/printing/_precedence.py b/src/qnet/printing/_precedence.py
index 957a9b6..77c42cb 100644
--- a/src/qnet/printing/_precedence.py
+++ b/src/qnet/printing/_precedence.py
@@ -6,6 +6,8 @@ __private__ = [
     'precedence_OperatorTimesKet', 'precedence_Bra',
     'precedence_SuperOperatorTimesOperator', 'precedence']
 
+from functools import lru_cache
+
 from sympy.printing.precedence import (
     PRECEDENCE,
     PRECEDENCE_VALUES as SYMPY_PRECEDENCE_VALUES,
@@ -53,6 +55,7 @@ PRECEDENCE_VALUES.update(SYMPY_PRECEDENCE_VALUES)
 # Precedence functions
 
 
+@lru_cache(maxsize=4096)  # nested expressions are rendered repeatedly
 def _is_rendered_negative(expr):
     # This must not use `str`, which depends on the `str_format` set in
     # `init_printing`
-- 
2.43.0


From ab8410a3bbfbadfc5563ef932dbb3e7d613953b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:53 +0000
Subject: [PATCH 095/132] fix: match patterns against expressions without
 arguments

---
 src/qnet/algebra/pattern_matching/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/qnet/algebra/pattern_matching/__init__.py b/src/qnet/algebra/pattern_matching/__init__.py
index bb726bf..d6486df 100644
--- a/src/qnet/algebra/pattern_matching/__init__.py
+++ b/src/qnet/algebra/pattern_matching/__init__.py
@@ -257,11 +257,11 @@ class Pattern():
                 raise ValueError("insufficient number of arguments")
             elif last_arg_pattern.mode == self.zero_or_more:
                 if last_arg_pattern.wc_name is not None:
-                    if last_arg_pattern != current_arg_pattern:
+                    if last_arg_pattern is not current_arg_pattern:
                         # we have to record an empty match
                         return {last_arg_pattern.wc_name: []}
             elif last_arg_pattern.mode == self.one_or_more:
-                if last_arg_pattern != current_arg_pattern:
+                if last_arg_pattern is not current_arg_pattern:
                     raise ValueError("insufficient number of arguments")
         except AttributeError:
             raise ValueError("insufficient number of arguments")
@@ -301,6 +301,7 @@ class Pattern():
         try:
             if self.args is not None:
                 arg_pattern = self.extended_arg_patterns()
+                current_arg_pattern = None
                 for arg in self._arg_iterator(expr.args):
                     current_arg_pattern = next(arg_pattern)
                     res.update(match_pattern(current_arg_pattern, arg))
-- 
2.43.0


From db8b347a295d202d098ddfff502f6010bc731c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:53 +0000
Subject: [PATCH 096/132] fix: reject patterns with two multi-argument
 wildcards

---
 src/qnet/algebra/pattern_matching/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qnet/algebra/pattern_matching/__init__.py b/src/qnet/algebra/pattern_matching/__init__.py
index d6486df..ff5261e 100644
--- a/src/qnet/algebra/pattern_matching/__init__.py
+++ b/src/qnet/algebra/pattern_matching/__init__.py
@@ -200,6 +200,10 @@ class Pattern():
             for i, arg in enumerate(args):
                 if isinstance(arg, Pattern):
                     if arg.mode > self.single:
+                        if self._has_non_single_arg:
+                            raise ValueError(
+                                    "Only one argument may have a mode "
+                                    "indicating an occurrence of more than 1")
                         self._has_non_single_arg = True
                         if i == 0:
                             self._non_single_arg_on_left = True
-- 
2.43.0


From 28fe0a22fad610e0833299bc35a823cc3afda89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:53 +0000
Subject: [PATCH 097/132] fix: only merge the arguments of one multi-argument
 wildcard

---
 src/qnet/algebra/pattern_matching/__init__.py | 26 ++++++++++++++-----
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/qnet/algebra/pattern_matching/__init__.py b/src/qnet/algebra/pattern_matching/__init__.py
index ff5261e..e0e420e 100644
--- a/src/qnet/algebra/pattern_matching/__init__.py
+++ b/src/qnet/algebra/pattern_matching/__init__.py
@@ -285,11 +285,6 @@ class Pattern():
         available in the `reason` attribute of the :class:`MatchDict` object.
         """
         res = MatchDict()
-        if self._has_non_single_arg:
-            if self._non_single_arg_on_left:
-                res.merge_lists = 1
-            else:
-                res.merge_lists = -1
         if self.head is not None:
             if not isinstance(expr, self.head):
                 res.reason = ("%s is not an instance of %s"
@@ -306,11 +301,28 @@ class Pattern():
             if self.args is not None:
                 arg_pattern = self.extended_arg_patterns()
                 current_arg_pattern = None
+                multi_name, multi_matched = None, []
                 for arg in self._arg_iterator(expr.args):
                     current_arg_pattern = next(arg_pattern)
-                    res.update(match_pattern(current_arg_pattern, arg))
-                    if not res.success:
+                    arg_match = match_pattern(current_arg_pattern, arg)
+                    if not arg_match.success:
+                        res.update(arg_match)
                         return res
+                    if getattr(current_arg_pattern, 'mode', 1) > self.single:
+                        # collect everything that the argument pattern itself
+                        # matches in a single list
+                        multi_name = current_arg_pattern.wc_name
+                        for name, matched in arg_match.items():
+                            if name == multi_name:
+                                multi_matched.extend(matched)
+                            else:
+                                res[name] = matched
+                    else:
+                        res.update(arg_match)
+                if multi_name is not None:
+                    if self._non_single_arg_on_left:
+                        multi_matched.reverse()
+                    res[multi_name] = multi_matched
                 # ensure that we have matched all arg patterns
                 try:
                     last_arg_pattern = next(arg_pattern)
-- 
2.43.0


From 3e3517c4bdfc271a5b09c1c1ff78be1d5d6f7e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:53 +0000
Subject: [PATCH 098/132] fix: conversion of Phase, Displace, Squeeze, and
 CoherentStateKet to qutip

---
 src/qnet/convert/to_qutip.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/qnet/convert/to_qutip.py b/src/qnet/convert/to_qutip.py
index 97f55d9..5ab124c 100644
--- a/src/qnet/convert/to_qutip.py
+++ b/src/qnet/convert/to_qutip.py
@@ -202,15 +202,16 @@ def _convert_local_operator_to_qutip(expr, full_space, mapping):
     elif isinstance(expr, Destroy):
         return qutip.destroy(n)
     elif isinstance(expr, Phase):
-        arg = complex(expr.operands[1]) * arange(n)
+        arg = complex(expr.phase) * arange(n)
         d = np_cos(arg) + 1j * np_sin(arg)
         return qutip.Qobj(np_diag(d))
     elif isinstance(expr, Displace):
-        alpha = expr.operands[1]
+        alpha = complex(expr.displacement)
         return qutip.displace(n, alpha)
     elif isinstance(expr, Squeeze):
-        eta = expr.operands[1]
-        return qutip.displace(n, eta)
+        eta = complex(expr.squeezing_factor)
+        # qutip uses the opposite sign convention for the squeezing parameter
+        return qutip.squeeze(n, -eta)
     elif isinstance(expr, LocalSigma):
         j = expr.j
         k = expr.k
@@ -342,7 +343,7 @@ def _convert_ket_to_qutip(expr, full_space, mapping):
     if isinstance(expr, BasisKet):
         return qutip.basis(n, expr.index)
     elif isinstance(expr, CoherentStateKet):
-        return qutip.coherent(n, complex(expr.operands[1]))
+        return qutip.coherent(n, complex(expr.ampl))
     elif isinstance(expr, KetPlus):
         return sum((convert_to_qutip(op, full_space, mapping=mapping)
                     for op in expr.operands), 0)
-- 
2.43.0


From 1af9d7d46498b2e3606575799af66178e2ebe697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:53 +0000
Subject: [PATCH 099/132] fix: basis order of spin operators converted to qutip

---
 src/qnet/convert/to_qutip.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/qnet/convert/to_qutip.py b/src/qnet/convert/to_qutip.py
index 5ab124c..f52eaa2 100644
--- a/src/qnet/convert/to_qutip.py
+++ b/src/qnet/convert/to_qutip.py
@@ -178,6 +178,14 @@ def SLH_to_qutip(slh, full_space=None, time_symbol=None,
     return H, Ls
 
 
+def _spin_operator_to_qutip(n, which):
+    """Spin operator in the basis of a :class:`.SpinSpace` with dimension `n`,
+    i.e. with the eigenstates of J_z in the order of *increasing* eigenvalues
+    (while `qutip.jmat` orders them by decreasing eigenvalues)"""
+    jmat = qutip.jmat((n - 1) / 2., which)
+    return qutip.Qobj(jmat.full()[::-1, ::-1], dims=jmat.dims)
+
+
 def _convert_local_operator_to_qutip(expr, full_space, mapping):
     """Convert a LocalOperator instance to qutip"""
     n = full_space.dimension
@@ -194,11 +202,11 @@ def _convert_local_operator_to_qutip(expr, full_space, mapping):
     if isinstance(expr, Create):
         return qutip.create(n)
     elif isinstance(expr, Jz):
-        return qutip.jmat((expr.space.dimension-1)/2., "z")
+        return _spin_operator_to_qutip(n, "z")
     elif isinstance(expr, Jplus):
-        return qutip.jmat((expr.space.dimension-1)/2., "+")
+        return _spin_operator_to_qutip(n, "+")
     elif isinstance(expr, Jminus):
-        return qutip.jmat((expr.space.dimension-1)/2., "-")
+        return _spin_operator_to_qutip(n, "-")
     elif isinstance(expr, Destroy):
         return qutip.destroy(n)
     elif isinstance(expr, Phase):
-- 
2.43.0


From 7c8ed64d04ecc6e56f126a96ecb4231cf85ce63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:53 +0000
Subject: [PATCH 100/132] fix: embed mapped objects in the full space

---
 src/qnet/convert/to_qutip.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/qnet/convert/to_qutip.py b/src/qnet/convert/to_qutip.py
index f52eaa2..17602e4 100644
--- a/src/qnet/convert/to_qutip.py
+++ b/src/qnet/convert/to_qutip.py
@@ -70,11 +70,10 @@ def convert_to_qutip(expr, full_space=None, mapping=None):
     if mapping is not None:
         if expr in mapping:
             ret = mapping[expr]
-            if isinstance(ret, qutip.Qobj):
-                return ret
-            else:
+            if not isinstance(ret, qutip.Qobj):
                 assert callable(ret)
-                return ret(expr)
+                ret = ret(expr)
+            return _embed_qutip(ret, expr.space, full_space)
     if expr is IdentityOperator:
         local_spaces = full_space.local_factors
         if len(local_spaces) == 0:
@@ -178,6 +177,23 @@ def SLH_to_qutip(slh, full_space=None, time_symbol=None,
     return H, Ls
 
 
+def _embed_qutip(obj, space, full_space):
+    """Extend the Qobj `obj` in `space` to the `full_space`, by a tensor product
+    with the identity in all missing factors.
+
+    An `obj` that is already in the `full_space` is returned unchanged
+    """
+    all_spaces = full_space.local_factors
+    dims = [s.dimension for s in all_spaces]
+    if space == full_space or dims in obj.dims or obj.type == 'super':
+        return obj
+    missing = [s for s in all_spaces if s not in space.local_factors]
+    current = list(space.local_factors) + missing
+    obj = qutip.tensor(obj, *[qutip.qeye(s.dimension) for s in missing])
+    order = [current.index(s) for s in all_spaces]
+    return obj.permute(order)
+
+
 def _spin_operator_to_qutip(n, which):
     """Spin operator in the basis of a :class:`.SpinSpace` with dimension `n`,
     i.e. with the eigenstates of J_z in the order of *increasing* eigenvalues
-- 
2.43.0


From 1f718074ed3a828357d7403c2880b877b9248c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:53 +0000
Subject: [PATCH 101/132] fix: conversion of Adjoint, PseudoInverse, and
 NullSpaceProjector to qutip

---
 src/qnet/convert/to_qutip.py | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/src/qnet/convert/to_qutip.py b/src/qnet/convert/to_qutip.py
index 17602e4..4fbcd36 100644
--- a/src/qnet/convert/to_qutip.py
+++ b/src/qnet/convert/to_qutip.py
@@ -281,8 +281,8 @@ def _convert_operator_operation_to_qutip(expr, full_space, mapping):
         # combine local factors in tensor product
         return qutip.tensor(*by_space)
     elif isinstance(expr, Adjoint):
-        return convert_to_qutip(qutip.dag(expr.operands[0]), full_space,
-                                mapping=mapping)
+        return convert_to_qutip(expr.operands[0], full_space,
+                                mapping=mapping).dag()
     elif isinstance(expr, ScalarTimesOperator):
         try:
             coeff = complex(expr.coeff)
@@ -298,11 +298,7 @@ def _convert_operator_operation_to_qutip(expr, full_space, mapping):
             arr = mo.data.toarray()
             from scipy.linalg import pinv
             piarr = pinv(arr)
-            pimo = qutip.Qobj(piarr)
-            pimo.dims = mo.dims
-            pimo.isherm = mo.isherm
-            pimo.type = 'oper'
-            return pimo
+            return qutip.Qobj(piarr, dims=mo.dims)
         raise NotImplementedError("Only implemented for smaller state "
                                   "spaces")
     elif isinstance(expr, NullSpaceProjector):
@@ -314,14 +310,10 @@ def _convert_operator_operation_to_qutip(expr, full_space, mapping):
             # compute Singular Value Decomposition
             U, s, Vh = svd(arr)
             tol = 1e-8 * s[0]
-            zero_svs = s < tol
+            zero_svs = s <= tol
             Vhzero = Vh[zero_svs, :]
             PKarr = Vhzero.conjugate().transpose().dot(Vhzero)
-            PKmo = qutip.Qobj(PKarr)
-            PKmo.dims = mo.dims
-            PKmo.isherm = True
-            PKmo.type = 'oper'
-            return PKmo
+            return qutip.Qobj(PKarr, dims=mo.dims, isherm=True)
         raise NotImplementedError("Only implemented for smaller state "
                                   "spaces")
     else:
-- 
2.43.0


From 9e1ff3caa05bcc004d44e898e04312d40d48fd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:53 +0000
Subject: [PATCH 102/132] fix: conversion of KetBra, Bra, OperatorTimesKet, and
 embedded states to qutip

---
 src/qnet/convert/to_qutip.py | 35 ++++++++++++++---------------------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/src/qnet/convert/to_qutip.py b/src/qnet/convert/to_qutip.py
index 4fbcd36..a1ac51d 100644
--- a/src/qnet/convert/to_qutip.py
+++ b/src/qnet/convert/to_qutip.py
@@ -19,7 +19,7 @@ from ..algebra.library.spin_algebra import Jz, Jplus, Jminus
 from ..algebra.library.fock_operators import (
     Destroy, Create, Phase, Displace, Squeeze)
 from ..algebra.core.state_algebra import (
-    State, BraKet, KetBra, BasisKet, CoherentStateKet, KetPlus, TensorKet,
+    State, Bra, BraKet, KetBra, BasisKet, CoherentStateKet, KetPlus, TensorKet,
     ScalarTimesKet, OperatorTimesKet)
 from ..algebra.core.hilbert_space_algebra import TrivialSpace
 from ..algebra.core.super_operator_algebra import (
@@ -89,6 +89,8 @@ def convert_to_qutip(expr, full_space=None, mapping=None):
         )
     elif isinstance(expr, LocalOperator):
         return _convert_local_operator_to_qutip(expr, full_space, mapping)
+    elif isinstance(expr, KetBra):
+        return _convert_state_operation_to_qutip(expr, full_space, mapping)
     elif (isinstance(expr, Operator) and isinstance(expr, Operation)):
         return _convert_operator_operation_to_qutip(expr, full_space, mapping)
     elif isinstance(expr, OperatorTrace):
@@ -96,6 +98,8 @@ def convert_to_qutip(expr, full_space=None, mapping=None):
                                   'qutip')
         # actually, this is perfectly doable in principle, but requires a bit
         # of work
+    elif isinstance(expr, Bra):
+        return convert_to_qutip(expr.ket, full_space, mapping=mapping).dag()
     elif isinstance(expr, State):
         return _convert_ket_to_qutip(expr, full_space, mapping)
     elif isinstance(expr, SuperOperator):
@@ -322,21 +326,15 @@ def _convert_operator_operation_to_qutip(expr, full_space, mapping):
 
 
 def _convert_state_operation_to_qutip(expr, full_space, mapping):
-    if full_space != expr.space:
-        all_spaces = full_space.local_factors
-        own_space_index = all_spaces.index(expr.space)
-        return qutip.tensor(
-            *([qutip.qeye(s.dimension)
-               for s in all_spaces[:own_space_index]] +
-              convert_to_qutip(expr, expr.space, mapping=mapping) +
-              [qutip.qeye(s.dimension)
-               for s in all_spaces[own_space_index + 1:]])
-        )
     if isinstance(expr, BraKet):
         bq = convert_to_qutip(expr.bra, full_space, mapping=mapping)
         kq = convert_to_qutip(expr.ket, full_space, mapping=mapping)
         return bq * kq
     elif isinstance(expr, KetBra):
+        if full_space != expr.space:
+            return _embed_qutip(
+                convert_to_qutip(expr, expr.space, mapping=mapping),
+                expr.space, full_space)
         bq = convert_to_qutip(expr.bra, full_space, mapping=mapping)
         kq = convert_to_qutip(expr.ket, full_space, mapping=mapping)
         return kq * bq
@@ -348,14 +346,9 @@ def _convert_state_operation_to_qutip(expr, full_space, mapping):
 def _convert_ket_to_qutip(expr, full_space, mapping):
     n = full_space.dimension
     if full_space != expr.space:
-        all_spaces = full_space.local_factors
-        own_space_index = all_spaces.index(expr.space)
-        factors = (
-            [qutip.qeye(s.dimension) for s in all_spaces[:own_space_index]] +
-            [convert_to_qutip(expr, expr.space, mapping=mapping), ] +
-            [qutip.qeye(s.dimension) for s in all_spaces[own_space_index + 1:]]
-        )
-        return qutip.tensor(*factors)
+        return _embed_qutip(
+            convert_to_qutip(expr, expr.space, mapping=mapping),
+            expr.space, full_space)
     if isinstance(expr, BasisKet):
         return qutip.basis(n, expr.index)
     elif isinstance(expr, CoherentStateKet):
@@ -377,8 +370,8 @@ def _convert_ket_to_qutip(expr, full_space, mapping):
         return complex(expr.coeff) * convert_to_qutip(expr.term, full_space,
                                                       mapping=mapping)
     elif isinstance(expr, OperatorTimesKet):
-        return convert_to_qutip(expr.coeff, full_space, mapping=mapping) * \
-                convert_to_qutip(expr.term, full_space, mapping=mapping)
+        return convert_to_qutip(expr.operator, full_space, mapping=mapping) * \
+                convert_to_qutip(expr.ket, full_space, mapping=mapping)
     else:
         raise ValueError("Cannot convert '%s' of type %s"
                          % (str(expr), type(expr)))
-- 
2.43.0


From 82c6782a2aafc326d3c69fd70d43b3ab6aa35668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:54 +0000
Subject: [PATCH 103/132] fix: conversion of super-operators to qutip

---
 src/qnet/convert/to_qutip.py | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/qnet/convert/to_qutip.py b/src/qnet/convert/to_qutip.py
index a1ac51d..1cc3821 100644
--- a/src/qnet/convert/to_qutip.py
+++ b/src/qnet/convert/to_qutip.py
@@ -89,6 +89,8 @@ def convert_to_qutip(expr, full_space=None, mapping=None):
         )
     elif isinstance(expr, LocalOperator):
         return _convert_local_operator_to_qutip(expr, full_space, mapping)
+    elif isinstance(expr, SuperOperatorTimesOperator):
+        return _convert_superoperator_to_qutip(expr, full_space, mapping)
     elif isinstance(expr, KetBra):
         return _convert_state_operation_to_qutip(expr, full_space, mapping)
     elif (isinstance(expr, Operator) and isinstance(expr, Operation)):
@@ -378,17 +380,7 @@ def _convert_ket_to_qutip(expr, full_space, mapping):
 
 
 def _convert_superoperator_to_qutip(expr, full_space, mapping):
-    if full_space != expr.space:
-        all_spaces = full_space.local_factors
-        own_space_index = all_spaces.index(expr.space)
-        return qutip.tensor(
-            *([qutip.qeye(s.dimension)
-               for s in all_spaces[:own_space_index]] +
-              convert_to_qutip(expr, expr.space, mapping=mapping) +
-              [qutip.qeye(s.dimension)
-               for s in all_spaces[own_space_index + 1:]])
-        )
-    if isinstance(expr, IdentitySuperOperator):
+    if expr is IdentitySuperOperator:
         return qutip.spre(qutip.tensor(*[qutip.qeye(s.dimension)
                                          for s in full_space.local_factors]))
     elif isinstance(expr, SuperOperatorPlus):
@@ -409,9 +401,11 @@ def _convert_superoperator_to_qutip(expr, full_space, mapping):
                                         expr.operands[0], full_space, mapping))
     elif isinstance(expr, SuperOperatorTimesOperator):
         sop, op = expr.operands
-        return (convert_to_qutip(sop, full_space, mapping=mapping) *
-                convert_to_qutip(op, full_space, mapping=mapping))
-    elif isinstance(expr, ZeroSuperOperator):
+        op_vec = qutip.operator_to_vector(
+            convert_to_qutip(op, full_space, mapping=mapping))
+        return qutip.vector_to_operator(
+            convert_to_qutip(sop, full_space, mapping=mapping) * op_vec)
+    elif expr is ZeroSuperOperator:
         return qutip.spre(convert_to_qutip(ZeroOperator, full_space,
                           mapping=mapping))
     else:
-- 
2.43.0


From d4d83a6b8d231ac298b82d1e7f308ea1e36cb8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:36 +0000
Subject: [PATCH 104/132] fix: match SymPy expressions inside of patterns
 literally

---
 src/qnet/algebra/pattern_matching/__init__.py | 26 +++++++++++--------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/qnet/algebra/pattern_matching/__init__.py b/src/qnet/algebra/pattern_matching/__init__.py
index e0e420e..00ac438 100644
--- a/src/qnet/algebra/pattern_matching/__init__.py
+++ b/src/qnet/algebra/pattern_matching/__init__.py
@@ -635,14 +635,18 @@ def match_pattern(expr_or_pattern: object, expr: object) -> MatchDict:
             successful match), or an instance of :class:`Pattern`.
         expr: the expression to be matched
     """
-    try:  # first try expr_or_pattern as a Pattern
-        return expr_or_pattern.match(expr)
-    except AttributeError:  # expr_or_pattern is an expr, not a Pattern
-        if expr_or_pattern == expr:
-            return MatchDict()  # success
-        else:
-            res = MatchDict()
-            res.success = False
-            res.reason = "Expressions '%s' and '%s' are not the same" % (
-                          repr(expr_or_pattern), repr(expr))
-            return res
+    # note that SymPy expressions also have a `match` method
+    if isinstance(expr_or_pattern, Pattern):
+        try:
+            return expr_or_pattern.match(expr)
+        except AttributeError:
+            pass  # e.g., from a condition not applicable to `expr`
+    # expr_or_pattern is an expr, not a Pattern
+    if expr_or_pattern == expr:
+        return MatchDict()  # success
+    else:
+        res = MatchDict()
+        res.success = False
+        res.reason = "Expressions '%s' and '%s' are not the same" % (
+                      repr(expr_or_pattern), repr(expr))
+        return res
-- 
2.43.0


From a5354e440e886d4e46277a4f89b73015b9c712ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:36 +0000
Subject: [PATCH 105/132] fix: conversion of unit phases and amplitudes to
 qutip

---
 src/qnet/convert/to_qutip.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/qnet/convert/to_qutip.py b/src/qnet/convert/to_qutip.py
index 1cc3821..d23e748 100644
--- a/src/qnet/convert/to_qutip.py
+++ b/src/qnet/convert/to_qutip.py
@@ -2,7 +2,7 @@
 """
 import re
 from functools import reduce
-from sympy import symbols
+from sympy import symbols, sympify
 from sympy.utilities.lambdify import lambdify
 from scipy.sparse import csr_matrix
 from numpy import (
@@ -232,14 +232,14 @@ def _convert_local_operator_to_qutip(expr, full_space, mapping):
     elif isinstance(expr, Destroy):
         return qutip.destroy(n)
     elif isinstance(expr, Phase):
-        arg = complex(expr.phase) * arange(n)
+        arg = complex(sympify(expr.phase)) * arange(n)
         d = np_cos(arg) + 1j * np_sin(arg)
         return qutip.Qobj(np_diag(d))
     elif isinstance(expr, Displace):
-        alpha = complex(expr.displacement)
+        alpha = complex(sympify(expr.displacement))
         return qutip.displace(n, alpha)
     elif isinstance(expr, Squeeze):
-        eta = complex(expr.squeezing_factor)
+        eta = complex(sympify(expr.squeezing_factor))
         # qutip uses the opposite sign convention for the squeezing parameter
         return qutip.squeeze(n, -eta)
     elif isinstance(expr, LocalSigma):
@@ -354,7 +354,7 @@ def _convert_ket_to_qutip(expr, full_space, mapping):
     if isinstance(expr, BasisKet):
         return qutip.basis(n, expr.index)
     elif isinstance(expr, CoherentStateKet):
-        return qutip.coherent(n, complex(expr.ampl))
+        return qutip.coherent(n, complex(sympify(expr.ampl)))
     elif isinstance(expr, KetPlus):
         return sum((convert_to_qutip(op, full_space, mapping=mapping)
                     for op in expr.operands), 0)
-- 
2.43.0


From 6bc191820143f301f4d5835d3f90e0a07a544458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:01 +0000
Subject: [PATCH 106/132] fix: conversion of objects in the full space without
 known factors

---
 src/qnet/convert/to_qutip.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/qnet/convert/to_qutip.py b/src/qnet/convert/to_qutip.py
index d23e748..b170597 100644
--- a/src/qnet/convert/to_qutip.py
+++ b/src/qnet/convert/to_qutip.py
@@ -189,9 +189,10 @@ def _embed_qutip(obj, space, full_space):
 
     An `obj` that is already in the `full_space` is returned unchanged
     """
+    if space == full_space or obj.type == 'super':
+        return obj
     all_spaces = full_space.local_factors
-    dims = [s.dimension for s in all_spaces]
-    if space == full_space or dims in obj.dims or obj.type == 'super':
+    if [s.dimension for s in all_spaces] in obj.dims:
         return obj
     missing = [s for s in all_spaces if s not in space.local_factors]
     current = list(space.local_factors) + missing
-- 
2.43.0


From 1a7a6d66d4a0a3e0d01b2bedddd4c48fbce4e0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:51 +0000
Subject: [PATCH 107/132] fix: derivatives of an expression without the symbol
 are zero

---
 src/qnet/algebra/core/algebraic_properties.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/qnet/algebra/core/algebraic_properties.py b/src/qnet/algebra/core/algebraic_properties.py
index 71546a7..c29f3d9 100644
--- a/src/qnet/algebra/core/algebraic_properties.py
+++ b/src/qnet/algebra/core/algebraic_properties.py
@@ -997,11 +997,11 @@ def derivative_via_diff(cls, ops, kwargs):
     # both `derivs` and `vals` are guaranteed to be tuples, via the conversion
     # that's happening in `QuantumDerivative.create`
     for (sym, n) in derivs:
-        if sym.free_symbols.issubset(op.free_symbols):
-            for k in range(n):
+        for k in range(n):
+            if sym.free_symbols.issubset(op.free_symbols):
                 op = op._diff(sym)
-        else:
-            return op.__class__._zero
+            else:
+                return op.__class__._zero
     if vals is not None:
         try:
             # for QuantumDerivative instance
-- 
2.43.0


From 699d970c0d3a217a5ba7783ad1ee592ba59800ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:31 +0000
Subject: [PATCH 108/132] fix: spin operators as sympy matrices

---
 src/qnet/convert/to_sympy_matrix.py | 32 ++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/qnet/convert/to_sympy_matrix.py b/src/qnet/convert/to_sympy_matrix.py
index 220b445..a698c2b 100644
--- a/src/qnet/convert/to_sympy_matrix.py
+++ b/src/qnet/convert/to_sympy_matrix.py
@@ -13,7 +13,7 @@ from ..algebra.library.fock_operators import (
     Destroy, Create, Phase, Displace, Squeeze)
 
 __all__ = ['convert_to_sympy_matrix']
-__private__ = ['SympyCreate', 'basis_state']
+__private__ = ['SympyCreate', 'SympyJz', 'SympyJplus', 'basis_state']
 
 
 def basis_state(i, n):
@@ -33,6 +33,26 @@ def SympyCreate(n):
     return a
 
 
+def SympyJz(n):
+    """Spin operator Jz for a spin Hilbert space of dimension `n` (with basis
+    states in the order of increasing `m`), as an instance of
+    `sympy.Matrix`"""
+    spin = sympy.Rational(n - 1, 2)
+    return sympy.diag(*[i - spin for i in range(n)])
+
+
+def SympyJplus(n):
+    """Spin raising operator for a spin Hilbert space of dimension `n` (with
+    basis states in the order of increasing `m`), as an instance of
+    `sympy.Matrix`"""
+    spin = sympy.Rational(n - 1, 2)
+    result = sympy.zeros(n)
+    for i in range(n-1):
+        m = i - spin
+        result[i+1, i] = sympy.sqrt(spin * (spin + 1) - m * (m + 1))
+    return result
+
+
 def convert_to_sympy_matrix(expr, full_space=None):
     """Convert a QNET expression to an explicit ``n x n`` instance of
     `sympy.Matrix`, where ``n`` is the dimension of `full_space`. The entries
@@ -70,10 +90,16 @@ def convert_to_sympy_matrix(expr, full_space=None):
             factors.extend([sympy.eye(s.dimension)
                             for s in all_spaces[own_space_index + 1:]])
             return tensor(*factors)
-        if isinstance(expr, (Create, Jz, Jplus)):
+        if isinstance(expr, Create):
             return SympyCreate(n)
-        elif isinstance(expr, (Destroy, Jminus)):
+        elif isinstance(expr, Destroy):
             return SympyCreate(n).H
+        elif isinstance(expr, Jz):
+            return SympyJz(n)
+        elif isinstance(expr, Jplus):
+            return SympyJplus(n)
+        elif isinstance(expr, Jminus):
+            return SympyJplus(n).H
         elif isinstance(expr, Phase):
             phi = expr.phase
             result = sympy.zeros(n)
-- 
2.43.0


From f5ae4a01e44b8738fb7c40d71e2cea34354b9952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:32 +0000
Subject: [PATCH 109/132] fix: conversion of Displace and Squeeze to sympy
 matrices

---
 src/qnet/convert/to_sympy_matrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qnet/convert/to_sympy_matrix.py b/src/qnet/convert/to_sympy_matrix.py
index a698c2b..c07b54e 100644
--- a/src/qnet/convert/to_sympy_matrix.py
+++ b/src/qnet/convert/to_sympy_matrix.py
@@ -107,11 +107,11 @@ def convert_to_sympy_matrix(expr, full_space=None):
                 result[i, i] = sympy.exp(sympy.I * i * phi)
             return result
         elif isinstance(expr, Displace):
-            alpha = expr.operands[1]
+            alpha = sympy.sympify(expr.displacement)
             a = SympyCreate(n)
             return (alpha * a - alpha.conjugate() * a.H).exp()
         elif isinstance(expr, Squeeze):
-            eta = expr.operands[1]
+            eta = sympy.sympify(expr.squeezing_factor)
             a = SympyCreate(n)
             return ((eta/2) * a**2 - (eta.conjugate()/2) * (a.H)**2).exp()
         elif isinstance(expr, LocalSigma):
-- 
2.43.0


From ce4f90996b0e3baa8795def7c8bb3d4228cafdba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:58 +0000
Subject: [PATCH 110/132] fix: getABCD for coupling operators that are not
 expanded

---
 src/qnet/algebra/core/circuit_algebra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/circuit_algebra.py b/src/qnet/algebra/core/circuit_algebra.py
index 32a6bca..630c105 100644
--- a/src/qnet/algebra/core/circuit_algebra.py
+++ b/src/qnet/algebra/core/circuit_algebra.py
@@ -1620,7 +1620,7 @@ def getABCD(slh, a0=None, doubled_up=True):
     # use the coefficients in the L vector to generate the C, D
     # matrices
     for jj, Ljj in enumerate(slh_displaced.Ls):
-        coeffsjj = get_coeffs(Ljj)
+        coeffsjj = get_coeffs(Ljj, expand=True)
         c[jj] = coeffsjj[IdentityOperator]
         if doubled_up:
             c[jj+cdim] = coeffsjj[IdentityOperator].conjugate()
-- 
2.43.0


From e964fcfb625c091fb95b5d4bd7686ddab32f1a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:58 +0000
Subject: [PATCH 111/132] fix: time-dependent coefficients with parameters in
 qutip

---
 src/qnet/convert/to_qutip.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/qnet/convert/to_qutip.py b/src/qnet/convert/to_qutip.py
index b170597..63ac774 100644
--- a/src/qnet/convert/to_qutip.py
+++ b/src/qnet/convert/to_qutip.py
@@ -441,15 +441,23 @@ def _time_dependent_to_qutip(
                 isinstance(op, ScalarTimesOperator) and
                 isinstance(op.coeff, ScalarValue)):
             if convert_as == 'pyfunc':
-                func_no_args = lambdify(time_symbol, op.coeff.val)
+                coeff_val = op.coeff.val
                 if {time_symbol, } == op.coeff.free_symbols:
+                    func_no_args = lambdify(time_symbol, coeff_val)
+
                     def func(t, args):
                         # args are ignored for increased efficiency, since we
                         # know there are no free symbols except t
                         return func_no_args(t)
                 else:
+                    # in QuTiP, the keys of `args` are the names of the symbols
+                    symbol = {str(s): s for s in coeff_val.free_symbols}
+
                     def func(t, args):
-                        return func_no_args(t).subs(args)
+                        vals = {symbol.get(key, key): val
+                                for (key, val) in args.items()}
+                        res = coeff_val.subs({time_symbol: t}).subs(vals)
+                        return res if res.free_symbols else complex(res)
                 coeff = func
             elif convert_as == 'str':
                 # a bit of a hack to replace imaginary unit
-- 
2.43.0


From 122fda40fc3e970ccb20d68ce2ccf32baa90a6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:59 +0000
Subject: [PATCH 112/132] fix: names of symbols containing I in qutip string
 coefficients

---
 src/qnet/convert/to_qutip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/convert/to_qutip.py b/src/qnet/convert/to_qutip.py
index 63ac774..90a9b16 100644
--- a/src/qnet/convert/to_qutip.py
+++ b/src/qnet/convert/to_qutip.py
@@ -464,7 +464,7 @@ def _time_dependent_to_qutip(
                 # TODO: we can probably use one of the sympy code generation
                 # routines, or lambdify with 'numexpr' to implement this in a
                 # more robust way
-                coeff = re.sub("I", "(1.0j)", str(op.coeff.val))
+                coeff = re.sub(r"\bI\b", "(1.0j)", str(op.coeff.val))
             else:
                 raise ValueError(("Invalid value '%s' for `convert_as`, must "
                                   "be one of 'str', 'pyfunc'") % convert_as)
-- 
2.43.0


From 802fcb3a8d4fddfafd850ce07f2432cf7f5198bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:38 +0000
Subject: [PATCH 113/132] fix: off-diagonal terms in try_adiabatic_elimination

---
 src/qnet/algebra/core/circuit_algebra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/circuit_algebra.py b/src/qnet/algebra/core/circuit_algebra.py
index 630c105..c01c877 100644
--- a/src/qnet/algebra/core/circuit_algebra.py
+++ b/src/qnet/algebra/core/circuit_algebra.py
@@ -1775,7 +1775,7 @@ def try_adiabatic_elimination(slh, k=None, fock_trunc=6, sub_P0=True):
         for term in terms - projectors:
             cannot_eliminate = (
                 not isinstance(term, LocalSigma) or
-                not term.operands[1] == term.operands[2])
+                not term.j == term.k)
             if cannot_eliminate:
                 raise CannotEliminateAutomatically(
                     "Proj. Y operator has off-diagonal term: ~{}".format(term))
-- 
2.43.0


From 294d528866c5e35fa278f08ad6b5ca208f7904c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:48 +0000
Subject: [PATCH 114/132] fix: make the optional PyX dependency optional for
 importing qnet

---
 src/qnet/visualization/circuit_pyx.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/qnet/visualization/circuit_pyx.py b/src/qnet/visualization/circuit_pyx.py
index 3e23bf2..cdfa5be 100644
--- a/src/qnet/visualization/circuit_pyx.py
+++ b/src/qnet/visualization/circuit_pyx.py
@@ -5,9 +5,8 @@ This requires a working LaTeX installation.
 
 try:
     import pyx
-except ImportError as e:
-    print("PyX is not installed. Please install PyX for circuit visualization purposes.")
-    raise e
+except ImportError:
+    pyx = None  # optional, see `_check_pyx`
 
 import shutil
 import qnet.algebra.core.circuit_algebra as ca
@@ -16,8 +15,9 @@ from qnet.algebra.core.circuit_algebra import Component
 
 __all__ = ['draw_circuit_canvas', 'draw_circuit']
 
-pyx.text.set(pyx.text.LatexRunner)
-pyx.text.preamble(r'\usepackage{amsmath,amssymb}')
+if pyx is not None:
+    pyx.text.set(pyx.text.LatexRunner)
+    pyx.text.preamble(r'\usepackage{amsmath,amssymb}')
 
 
 HUNIT = +4      # Basic unit for the width of a single Circuit object
@@ -42,6 +42,14 @@ else:
 
 
 
+def _check_pyx():
+    """Raise an :exc:`ImportError` if PyX is not available"""
+    if pyx is None:
+        raise ImportError(
+            "PyX is not installed. Please install PyX for circuit "
+            "visualization purposes.")
+
+
 # helper function
 def _curve(x1, y1, x2, y2, hunit = HUNIT, vunit = VUNIT):
     """
@@ -77,6 +85,8 @@ def draw_circuit_canvas(circuit, hunit = HUNIT, vunit = VUNIT, rhmargin = RHMARG
     :rtype: pyx.canvas.canvas
     """
 
+    _check_pyx()
+
     if not isinstance(circuit, ca.Circuit):
         raise ValueError()
 
-- 
2.43.0


From d261c9e8f242ad03e9f6a916a5fc7226c14aa142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:49 +0000
Subject: [PATCH 115/132] fix: init_algebra: drop cached expressions on
 implicit spaces of another class

---
 src/qnet/algebra/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qnet/algebra/__init__.py b/src/qnet/algebra/__init__.py
index 179eccc..180a603 100644
--- a/src/qnet/algebra/__init__.py
+++ b/src/qnet/algebra/__init__.py
@@ -13,10 +13,14 @@ def init_algebra(*, default_hs_cls='LocalSpace'):
             in :class:`.OperatorSymbol`
 
     """
+    from qnet.algebra.core.abstract_algebra import Expression
     from qnet.algebra.core.hilbert_space_algebra import LocalSpace
     from qnet.algebra.core.abstract_quantum_algebra import QuantumExpression
     default_hs_cls = getattr(importlib.import_module('qnet'), default_hs_cls)
     if issubclass(default_hs_cls, LocalSpace):
+        if QuantumExpression._default_hs_cls is not default_hs_cls:
+            # expressions in the cache may be on implicitly created spaces
+            Expression._instances.clear()
         QuantumExpression._default_hs_cls = default_hs_cls
     else:
         raise TypeError("default_hs_cls must be a subclass of LocalSpace")
-- 
2.43.0


From 4ea95a60ab684319034bf666ac914e99df2f39d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:56 +0000
Subject: [PATCH 116/132] fix: LocalOperator: use the default class for
 implicit Hilbert spaces

---
 src/qnet/algebra/core/operator_algebra.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/operator_algebra.py b/src/qnet/algebra/core/operator_algebra.py
index 8716443..34e8911 100644
--- a/src/qnet/algebra/core/operator_algebra.py
+++ b/src/qnet/algebra/core/operator_algebra.py
@@ -173,7 +173,10 @@ class LocalOperator(Operator, metaclass=ABCMeta):
             args = [ScalarValue.create(arg) for arg in args]
         for i, arg_name in enumerate(self._arg_names):
             self.__dict__['_%s' % arg_name] = args[i]
-        hs = ensure_local_space(hs, cls=self._hs_cls)
+        hs_cls = self._hs_cls
+        if issubclass(self._default_hs_cls, hs_cls):
+            hs_cls = self._default_hs_cls
+        hs = ensure_local_space(hs, cls=hs_cls)
         self._hs = hs
         if self._identifier is None:
             raise TypeError(
-- 
2.43.0


From 5fd55430c5a0ca37a1a80b5dd490e32a533077aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:08 +0000
Subject: [PATCH 117/132] fix: Matrix.bound_symbols includes the bound symbols
 of the elements

---
 src/qnet/algebra/core/matrix_algebra.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/qnet/algebra/core/matrix_algebra.py b/src/qnet/algebra/core/matrix_algebra.py
index daf0d70..6145b23 100644
--- a/src/qnet/algebra/core/matrix_algebra.py
+++ b/src/qnet/algebra/core/matrix_algebra.py
@@ -353,6 +353,16 @@ class Matrix(Expression):
                 pass
         return ret
 
+    @property
+    def bound_symbols(self):
+        ret = set()
+        for o in self.matrix.ravel():
+            try:
+                ret = ret | o.bound_symbols
+            except AttributeError:
+                pass
+        return ret
+
     @property
     def space(self):
         """Combined Hilbert space of all matrix elements."""
-- 
2.43.0


From 4a3d9b8928f1d27b2e6426a73ac041b481a83a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:08 +0000
Subject: [PATCH 118/132] fix: print_tree accepts a list of types and indents
 the root line

---
 src/qnet/printing/treeprinting.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qnet/printing/treeprinting.py b/src/qnet/printing/treeprinting.py
index 9c46c39..c15e7c9 100644
--- a/src/qnet/printing/treeprinting.py
+++ b/src/qnet/printing/treeprinting.py
@@ -65,7 +65,7 @@ def print_tree(
     to_str = lambda expr: render_head_repr(
             expr, sub_render=sub_render, key_sub_render=sub_render)
     if _root:
-        lines.append(". " + to_str(expr))
+        lines.append(padding + ". " + to_str(expr))
     else:
         if _last:
             lines.append(padding[:-1] + draw['leaf'] + to_str(expr))
@@ -77,6 +77,8 @@ def print_tree(
     except AttributeError:
         children = []
     if exclude_type is not None:
+        if isinstance(exclude_type, list):
+            exclude_type = tuple(exclude_type)
         if isinstance(expr, exclude_type):
             children = []
     if depth is not None:
-- 
2.43.0


From 994b5a49ec477d0a4da3987415596b09fe972072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:08 +0000
Subject: [PATCH 119/132] fix: pseudo-inverse of products of non-commuting
 operators

---
 src/qnet/algebra/core/operator_algebra.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/qnet/algebra/core/operator_algebra.py b/src/qnet/algebra/core/operator_algebra.py
index 34e8911..8aed206 100644
--- a/src/qnet/algebra/core/operator_algebra.py
+++ b/src/qnet/algebra/core/operator_algebra.py
@@ -486,8 +486,23 @@ class OperatorTimes(QuantumTimes, Operator):
     simplifications = [assoc, orderby, filter_neutral, match_replace_binary]
 
     def _pseudo_inverse(self):
-        return self.__class__.create(
-                *[o._pseudo_inverse() for o in reversed(self.operands)])
+        # (A * B)^+ = B^+ * A^+ holds in general only if A and B act on
+        # different degrees of freedom
+        groups = []  # groups of operands (indices) sharing a space
+        for i, op in enumerate(self.operands):
+            group = [i]
+            for other in list(groups):
+                if any(not self.operands[j].space.isdisjoint(op.space)
+                       for j in other):
+                    groups.remove(other)
+                    group = other + group
+            groups.append(group)
+        if len(groups) == 1:
+            return PseudoInverse(self)
+        factors = [
+            self.__class__.create(*[self.operands[j] for j in sorted(group)])
+            for group in groups]
+        return self.__class__.create(*[f.pseudo_inverse() for f in factors])
 
 
 class ScalarTimesOperator(Operator, ScalarTimesQuantumExpression):
-- 
2.43.0


From e77f252dc084d674ed9a566e9a8b0d541e306041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:45 +0000
Subject: [PATCH 120/132] fix: sums of a bare index symbol times a Kronecker
 delta

---
 src/qnet/algebra/core/algebraic_properties.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qnet/algebra/core/algebraic_properties.py b/src/qnet/algebra/core/algebraic_properties.py
index c29f3d9..abe5aad 100644
--- a/src/qnet/algebra/core/algebraic_properties.py
+++ b/src/qnet/algebra/core/algebraic_properties.py
@@ -959,6 +959,7 @@ def _deltasummation(term, ranges, i_range):
         >>> assert flag == 3
     """
     from qnet.algebra.core.abstract_quantum_algebra import QuantumExpression
+    from qnet.algebra.core.scalar_algebra import ScalarValue
     idx = ranges[i_range].index_symbol
     summands = _expand_delta(term, idx)
     if len(summands) > 1:
@@ -975,6 +976,8 @@ def _deltasummation(term, ranges, i_range):
         return [(term, ranges)], 2
     value = solns[0]
     new_term = expr.substitute({idx: value})
+    if isinstance(new_term, ScalarValue._val_types):
+        new_term = ScalarValue.create(new_term)
     if _RESOLVE_KRONECKER_WITH_PIECEWISE:
         new_term *= ranges[i_range].piecewise_one(value)
     assert isinstance(new_term, QuantumExpression)
-- 
2.43.0


From ee6ebcae369d92226aee82ff0651e7482f6b74e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:45 +0000
Subject: [PATCH 121/132] fix: tree nodes with multi-line arguments, dot nodes
 with the same hash

---
 src/qnet/printing/dot.py          | 4 +++-
 src/qnet/printing/treeprinting.py | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/qnet/printing/dot.py b/src/qnet/printing/dot.py
index 4fdd139..bb0a589 100644
--- a/src/qnet/printing/dot.py
+++ b/src/qnet/printing/dot.py
@@ -206,7 +206,9 @@ def dotprint(
         if repeat:
             idfunc = lambda expr: 'node'
         else:
-            idfunc = hash
+            # not `hash`: different expressions may have the same hash
+            ids = {}
+            idfunc = lambda expr: 'node%d' % ids.setdefault(expr, len(ids))
     graphstyle = {'rankdir': 'TD', 'ordering': 'out'}
     graphstyle.update(kwargs)
     nodes = []
diff --git a/src/qnet/printing/treeprinting.py b/src/qnet/printing/treeprinting.py
index c15e7c9..d20a41d 100644
--- a/src/qnet/printing/treeprinting.py
+++ b/src/qnet/printing/treeprinting.py
@@ -10,11 +10,11 @@ __private__ = ['tree', 'print_tree']
 
 def _shorten_render(renderer, max_len):
     """Return a modified that returns the representation of expr, or '...' if
-    that representation is longer than `max_len`"""
+    that representation is longer than `max_len` or has multiple lines"""
 
     def short_renderer(expr):
         res = renderer(expr)
-        if len(res) > max_len:
+        if len(res) > max_len or '\n' in res:
             return '...'
         else:
             return res
-- 
2.43.0


From 634b6b540e43c034de4c28a474dd58f4a8759004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:06 +0000
Subject: [PATCH 122/132] fix: liouvillian_normal_form for several, dependent
 and unit-rate collapse operators

---
 .../algebra/core/super_operator_algebra.py    | 92 +++++++++----------
 1 file changed, 44 insertions(+), 48 deletions(-)

diff --git a/src/qnet/algebra/core/super_operator_algebra.py b/src/qnet/algebra/core/super_operator_algebra.py
index edd2a6a..931001a 100644
--- a/src/qnet/algebra/core/super_operator_algebra.py
+++ b/src/qnet/algebra/core/super_operator_algebra.py
@@ -7,7 +7,7 @@ from collections import OrderedDict, defaultdict
 
 from numpy import (array as np_array, sqrt as np_sqrt)
 from numpy.linalg import eigh
-from sympy import (I, Matrix as SympyMatrix, sqrt)
+from sympy import (I, Matrix as SympyMatrix, simplify, sqrt)
 
 from .abstract_algebra import Operation
 from .abstract_quantum_algebra import (
@@ -21,9 +21,11 @@ from .exceptions import BadLiouvillianError, CannotSymbolicallyDiagonalize
 from .hilbert_space_algebra import TrivialSpace
 from .matrix_algebra import Matrix
 from .operator_algebra import (
-    Operator, OperatorPlus, ZeroOperator, sympyOne, Adjoint, PseudoInverse)
+    IdentityOperator, Operator, OperatorPlus, ZeroOperator, sympyOne, Adjoint,
+    PseudoInverse)
 from .scalar_algebra import is_scalar, One
-from ...utils.ordering import DisjunctCommutativeHSOrder, KeyTuple
+from ...utils.ordering import (
+    DisjunctCommutativeHSOrder, KeyTuple, expr_order_key)
 from ...utils.singleton import Singleton, singleton_object
 
 __all__ = [
@@ -425,6 +427,11 @@ def liouvillian(H, Ls=None):
 ###############################################################################
 
 
+def _scalar_val(c):
+    """The value wrapped in a :class:`ScalarValue`"""
+    return getattr(c, 'val', c)
+
+
 def liouvillian_normal_form(L, symbolic = False):
     r"""Return a Hamilton operator ``H`` and a minimal list of collapse
     operators ``Ls`` that generate the liouvillian ``L``.
@@ -492,6 +499,9 @@ def liouvillian_normal_form(L, symbolic = False):
                 spres.append(coeff * term.operands[0])
             elif isinstance(term, SPost):
                 sposts.append((coeff * term.operands[0]))
+            elif term is IdentitySuperOperator:
+                spres.append(coeff * IdentityOperator / 2)
+                sposts.append(coeff * IdentityOperator / 2)
             else:
                 if (not isinstance(term, SuperOperatorTimes) or not
                         len(term.operands) == 2 or not
@@ -505,14 +515,17 @@ def liouvillian_normal_form(L, symbolic = False):
                 Li, Ljd = spreL.operands[0], spostL.operands[0]
 
                 try:
-                    complex(coeff)
+                    complex(_scalar_val(coeff))
                 except (ValueError, TypeError):
                     symbolic = True
                     coeff = coeff.simplify_scalar()
 
                 collapse_form[Li][Ljd] = coeff
+                sdiff = (coeff * Ljd * Li / 2).expand()
+                spres.append(sdiff)
+                sposts.append(sdiff)
 
-        basis = sorted(collapse_form.keys())
+        basis = sorted(collapse_form.keys(), key=expr_order_key)
 
         warn_msg = ("Warning: the Liouvillian is probably malformed: "
                     "The coefficients of SPre({!s})*SPost({!s}) and "
@@ -525,13 +538,13 @@ def liouvillian_normal_form(L, symbolic = False):
                 if cij !=0 or cji !=0:
                     diff = (cij.conjugate() - cji)
                     try:
-                        diff = complex(diff)
+                        diff = complex(_scalar_val(diff))
                         if abs(diff) > 1e-6:
                             print(warn_msg.format(Li, Lj.adjoint(), Lj,
                                                   Li.adjoint()))
-                    except ValueError:
+                    except (ValueError, TypeError):
                         symbolic = True
-                        if diff.simplify():
+                        if diff.simplify_scalar() != 0:
                             print("Warning: the Liouvillian my be malformed, "
                                   "convert to numerical representation")
         final_Lis = []
@@ -540,39 +553,18 @@ def liouvillian_normal_form(L, symbolic = False):
                 l1 = basis[0]
                 kappa1 = collapse_form[l1][l1.adjoint()]
                 final_Lis = [sqrt(kappa1) * l1]
-                sdiff = (l1.adjoint() * l1 * kappa1 / 2)
-                spres.append(sdiff)
-                sposts.append(sdiff)
-#            elif len(basis) == 2:
-#                l1, l2 = basis
-#                kappa_1 = collapse_form[l1][l1.adjoint()]
-#                kappa_2 = collapse_form[l2][l2.adjoint()]
-#                kappa_12 = collapse_form[l1][l2.adjoint()]
-#                kappa_21 = collapse_form[l2][l1.adjoint()]
-##                assert (kappa_12.conjugate() - kappa_21) == 0
             else:
                 M = SympyMatrix(len(basis), len(basis),
-                                lambda i,j: collapse_form[basis[i]][basis[j]
-                                            .adjoint()])
+                                lambda i,j: _scalar_val(
+                                    collapse_form[basis[i]][basis[j]
+                                                            .adjoint()]))
 
                 # First check if M is already diagonal (sympy does not handle
                 # this well, for some reason)
-                diag = True
-                for i in range(len(basis)):
-                    for j in range(i):
-                        if M[i,j].apply_rules() != 0 or M[j, i].apply_rules != 0:
-                            diag = False
-                            break
-                    if not diag:
-                        break
-                if diag:
+                if M.is_diagonal():
                     for bj in basis:
                         final_Lis.append(
                                 bj * sqrt(collapse_form[bj][bj.adjoint()]))
-                        sdiff = (bj.adjoint() * bj *
-                                 collapse_form[bj][bj.adjoint()]/2)
-                        spres.append(sdiff)
-                        sposts.append(sdiff)
 
                 # Try sympy algo
                 else:
@@ -580,33 +572,37 @@ def liouvillian_normal_form(L, symbolic = False):
                         data = M.eigenvects()
 
                         for evalue, multiplicity, ebasis in data:
-                            if not evalue:
+                            evalue = simplify(evalue)
+                            if evalue == 0:
                                 continue
+                            ortho = []  # orthonormal basis of the eigenspace
                             for b in ebasis:
-                                new_L = (sqrt(evalue) * sum(cj[0] * Lj
-                                         for (cj, Lj)
-                                         in zip(b.tolist(), basis))).expand()
+                                for u in ortho:
+                                    b = b - u * (u.H * b)[0]
+                                ortho.append(b / sqrt((b.H * b)[0]))
+                            for b in ortho:
+                                new_L = sum(
+                                    (sqrt(evalue) * cj) * Lj
+                                    for (cj, Lj) in zip(b, basis)).expand()
                                 final_Lis.append(new_L)
-                                sdiff = (new_L.adjoint() * new_L / 2).expand()
-                                spres.append(sdiff)
-                                sposts.append(sdiff)
 
                     except NotImplementedError:
                         raise CannotSymbolicallyDiagonalize((
                             "The matrix {} is too hard to diagonalize "
                             "symbolically. Please try converting to fully "
                             "numerical representation.").format(M))
-        else:
-            M = np_array([[complex(collapse_form[Li][Lj.adjoint()])
-                           for Lj in basis] for Li in basis])
+        elif len(basis) > 0:
+            M = np_array([[
+                complex(_scalar_val(collapse_form[Li][Lj.adjoint()]))
+                for Lj in basis] for Li in basis])
 
             vals, vecs = eigh(M)
-            for sv, vec in zip(np_sqrt(vals), vecs.transpose()):
-                new_L = sum((sv * ci) * Li for (ci, Li) in zip(vec, basis))
+            for val, vec in zip(vals, vecs.transpose()):
+                if val <= 1e-12 * max(abs(vals)):
+                    continue  # zero, up to numerical errors
+                new_L = sum((np_sqrt(val) * ci) * Li
+                            for (ci, Li) in zip(vec, basis))
                 final_Lis.append(new_L)
-                sdiff = (.5 * new_L.adjoint()*new_L).expand()
-                spres.append(sdiff)
-                sposts.append(sdiff)
 
         miHspre = sum(spres)
         iHspost = sum(sposts)
-- 
2.43.0


From 1c5800180d5a6a73d6d9eeb2c75900218574551e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:22 +0000
Subject: [PATCH 123/132] fix: keep the arguments of a symbol when printing its
 adjoint

---
 src/qnet/printing/asciiprinter.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/qnet/printing/asciiprinter.py b/src/qnet/printing/asciiprinter.py
index 0dd01c3..a04378d 100644
--- a/src/qnet/printing/asciiprinter.py
+++ b/src/qnet/printing/asciiprinter.py
@@ -423,16 +423,9 @@ class QnetAsciiPrinter(QnetBasePrinter):
 
     def _print_Adjoint(self, expr, adjoint=False):
         o = expr.operand
-        if self._isinstance(o, 'LocalOperator'):
-            if adjoint:
-                dagger = o._dagger
-            else:
-                dagger = not o._dagger
-            return self._render_op(
-                o.identifier, hs=o.space, dagger=dagger, args=o.args[1:])
-        elif self._isinstance(o, 'OperatorSymbol'):
-            return self._render_op(
-                o.label, hs=o.space, dagger=(not adjoint))
+        if (self._isinstance(o, 'LocalOperator') or
+                self._isinstance(o, 'OperatorSymbol')):
+            return self.doprint(o, adjoint=(not adjoint))
         else:
             if adjoint:
                 return self.doprint(o)
@@ -753,8 +746,7 @@ class QnetAsciiPrinter(QnetBasePrinter):
     def _print_SuperAdjoint(self, expr, adjoint=False, superop=True):
         o = expr.operand
         if self._isinstance(o, 'SuperOperatorSymbol'):
-            return self._render_op(
-                o.label, hs=o.space, dagger=(not adjoint), superop=True)
+            return self.doprint(o, adjoint=(not adjoint))
         else:
             if adjoint:
                 return self.doprint(o)
-- 
2.43.0


From 0bff2f09f254da13aadf42c5960c6781ee8b301f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:23 +0000
Subject: [PATCH 124/132] fix: parenthesize a sum applied to a state also when
 it starts with a minus

---
 src/qnet/printing/asciiprinter.py | 4 ++--
 src/qnet/printing/latexprinter.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/qnet/printing/asciiprinter.py b/src/qnet/printing/asciiprinter.py
index a04378d..93c5a11 100644
--- a/src/qnet/printing/asciiprinter.py
+++ b/src/qnet/printing/asciiprinter.py
@@ -514,7 +514,7 @@ class QnetAsciiPrinter(QnetBasePrinter):
                 for op in expr.operands])
 
     def _print_OperatorTimesKet(self, expr, adjoint=False):
-        prec = precedence(expr)
+        prec = PRECEDENCE['Mul']
         op, ket = expr.operator, expr.ket
         kwargs = {}
         if adjoint:
@@ -766,7 +766,7 @@ class QnetAsciiPrinter(QnetBasePrinter):
             self._parenth_right, adjoint)
 
     def _print_SuperOperatorTimesOperator(self, expr, adjoint=False):
-        prec = precedence(expr)
+        prec = PRECEDENCE['Mul']
         sop, op = expr.sop, expr.op
         cs = self.parenthesize(sop, prec)
         ct = self.doprint(op)
diff --git a/src/qnet/printing/latexprinter.py b/src/qnet/printing/latexprinter.py
index f70b374..6b7e5d5 100644
--- a/src/qnet/printing/latexprinter.py
+++ b/src/qnet/printing/latexprinter.py
@@ -301,7 +301,7 @@ class QnetLatexPrinter(QnetAsciiPrinter):
             self._parenth_right, adjoint)
 
     def _print_SuperOperatorTimesOperator(self, expr, adjoint=False):
-        prec = precedence(expr)
+        prec = PRECEDENCE['Mul']
         sop, op = expr.sop, expr.op
         cs = self.parenthesize(sop, prec)
         ct = self.doprint(op)
-- 
2.43.0


From 4046a64aaa527eeb837f8c387d6756621d3e598b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:55 +0000
Subject: [PATCH 125/132] fix: parentheses around the sum in the coefficient of
 a printed expression

---
 src/qnet/printing/asciiprinter.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/qnet/printing/asciiprinter.py b/src/qnet/printing/asciiprinter.py
index 93c5a11..c213384 100644
--- a/src/qnet/printing/asciiprinter.py
+++ b/src/qnet/printing/asciiprinter.py
@@ -345,6 +345,8 @@ class QnetAsciiPrinter(QnetBasePrinter):
     def _print_ScalarTimesQuantumExpression(self, expr, **kwargs):
         prec = PRECEDENCE['Mul']
         coeff, term = expr.coeff, expr.term
+        if kwargs.get('adjoint', False):
+            coeff = coeff.conjugate()
         term_str = self.doprint(term, **kwargs)
         if precedence(term) < prec:
             term_str = self._parenth_left + term_str + self._parenth_right
@@ -354,18 +356,17 @@ class QnetAsciiPrinter(QnetBasePrinter):
                 return "- " + term_str
             else:
                 return "-" + term_str
-        if 'adjoint' in kwargs:
-            coeff_str = self.doprint(coeff, adjoint=kwargs['adjoint'])
-        else:
-            coeff_str = self.doprint(coeff)
+        coeff_str = self.doprint(coeff)
 
         if term_str in [
                 '1', self._print_IdentityOperator(expr),
-                self._print_IdentitySuperOperator]:
+                self._print_IdentitySuperOperator(expr)]:
             return coeff_str
         else:
             coeff_str = coeff_str.strip()
-            if precedence(coeff) < prec and precedence(-coeff) < prec:
+            if precedence(coeff) < prec and (
+                    not self._isinstance(coeff, 'ScalarValue') or
+                    precedence(-coeff) < prec):
                 # the above precedence check catches on only for true sums
                 coeff_str = (
                     self._parenth_left + coeff_str + self._parenth_right)
-- 
2.43.0


From 4f212f1b0f1addd9c5a20b2df4fc1aec1bc2fd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:56 +0000
Subject: [PATCH 126/132] fix: print the adjoint of sigma_jk as sigma_kj,
 without dagger

---
 src/qnet/printing/asciiprinter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/printing/asciiprinter.py b/src/qnet/printing/asciiprinter.py
index c213384..cc39c27 100644
--- a/src/qnet/printing/asciiprinter.py
+++ b/src/qnet/printing/asciiprinter.py
@@ -318,7 +318,7 @@ class QnetAsciiPrinter(QnetBasePrinter):
                     identifier = "%s_%s,%s" % (expr.identifier, expr.k, expr.j)
                 else:
                     identifier = "%s_%s,%s" % (expr.identifier, expr.j, expr.k)
-            return self._render_op(identifier, expr._hs, dagger=adjoint)
+            return self._render_op(identifier, expr._hs)
 
     def _print_IdentityOperator(self, expr, adjoint=False):
         return "1"
-- 
2.43.0


From 78d3d259155037e47175c14ffc4f114cf12a7ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:09 +0000
Subject: [PATCH 127/132] fix: do not pull the minus sign out of a printed 'A +
 c.c.' in a sum

---
 src/qnet/printing/asciiprinter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/printing/asciiprinter.py b/src/qnet/printing/asciiprinter.py
index cc39c27..42db9a9 100644
--- a/src/qnet/printing/asciiprinter.py
+++ b/src/qnet/printing/asciiprinter.py
@@ -382,7 +382,7 @@ class QnetAsciiPrinter(QnetBasePrinter):
             kwargs['superop'] = superop
         for term in expr.args:
             t = self.doprint(term, **kwargs)
-            if t.startswith('-'):
+            if t.startswith('-') and precedence(term) >= prec:
                 sign = "-"
                 t = t[1:].strip()
             else:
-- 
2.43.0


From 6bb1f0440989894bc072fece6ee481308a330530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:12 +0000
Subject: [PATCH 128/132] fix: braces around composite subscripts of indexed
 symbols

---
 src/qnet/printing/sympy.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/qnet/printing/sympy.py b/src/qnet/printing/sympy.py
index 5e8a409..8c88f95 100644
--- a/src/qnet/printing/sympy.py
+++ b/src/qnet/printing/sympy.py
@@ -24,6 +24,7 @@ SymPy's builtin printers:
   :class:`.IdxSym`) that the default printers don't know how to deal with
   (respectively, render incorrectly!)
 '''
+import re
 from collections import OrderedDict
 
 import sympy
@@ -93,6 +94,14 @@ def derationalize_denom(expr):
         raise ValueError("expr is not a Mul instance")
 
 
+def _brace_subscript(subscript):
+    """Enclose `subscript` in braces if it contains an expression such as
+    ``i + 1``, instead of only symbols and numbers"""
+    if re.match(r"[\w',]*$", subscript):
+        return subscript
+    return '{' + subscript + '}'
+
+
 class SympyStrPrinter(StrPrinter):
     """Variation of sympy StrPrinter that derationalizes denominators.
 
@@ -141,7 +150,8 @@ class SympyStrPrinter(StrPrinter):
         sep = ','
         if all([len(i.replace("'", '')) == 1 for i in indices]):
             sep = ''
-        return self._print(expr.base)+'_%s' % sep.join(indices)
+        subscript = _brace_subscript(sep.join(indices))
+        return self._print(expr.base)+'_%s' % subscript
 
     def _print_factorial(self, expr, exp=None):
         res = r"%s!" % self.parenthesize(expr.args[0], PRECEDENCE["Func"])
@@ -437,6 +447,7 @@ class SympyUnicodePrinter(SympyStrPrinter):
             subscript = ''.join([_SUBSCRIPT_MAPPING[l] for l in subscript])
             return self._print(expr.base) + subscript
         except KeyError:
+            subscript = _brace_subscript(subscript)
             return self._print(expr.base) + '_%s' % subscript
 
     def _print_conjugate(self, expr, exp=None):
-- 
2.43.0


From e5b0627ada1d9f42b6cb1ddca1c2300fd5542aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:03 +0000
Subject: [PATCH 129/132] fix: a product of superoperators is zero if two
 factors multiply to zero

---
 src/qnet/algebra/_rules.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/qnet/algebra/_rules.py b/src/qnet/algebra/_rules.py
index e0ac2b3..fd854e2 100644
--- a/src/qnet/algebra/_rules.py
+++ b/src/qnet/algebra/_rules.py
@@ -463,6 +463,13 @@ def _algebraic_rules_superop():
         ('R004', (
             pattern_head(pattern(SPost, A), pattern(SPost, B)),
             lambda A, B: SPost.create(B*A))),
+        # zeros resulting from the above rules
+        ('R005', (
+            pattern_head(ZeroSuperOperator, sB),
+            lambda sB: ZeroSuperOperator)),
+        ('R006', (
+            pattern_head(sA, ZeroSuperOperator),
+            lambda sA: ZeroSuperOperator)),
     ]))
 
     SPre._rules.update(check_rules_dict([
-- 
2.43.0


From 69c7efeb126e368b21c4874e5f91422748da2e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:53 +0000
Subject: [PATCH 130/132] fix: parentheses around a sum multiplying the
 identity

---
 src/qnet/printing/_precedence.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/qnet/printing/_precedence.py b/src/qnet/printing/_precedence.py
index 77c42cb..4bbb4bf 100644
--- a/src/qnet/printing/_precedence.py
+++ b/src/qnet/printing/_precedence.py
@@ -63,11 +63,18 @@ def _is_rendered_negative(expr):
     return QnetAsciiDefaultPrinter().doprint(expr).startswith('-')
 
 
+# the multiples of these are printed as a scalar
+_IDENTITIES = ['IdentityOperator', 'IdentitySuperOperator', 'TrivialKet']
+
+
 def precedence_ScalarTimesX(expr):
     # TODO: can we avoid rendering expr.coeff, cf.
     # from sympy.core.function import _coeff_isneg
     if _is_rendered_negative(expr.coeff):
         return PRECEDENCE["Add"]
+    if expr.term.__class__.__name__ in _IDENTITIES:
+        # only the coefficient is printed
+        return min(precedence(expr.coeff), PRECEDENCE["Mul"])
     return PRECEDENCE["Mul"]
 
 
-- 
2.43.0


From c2beb0982fe10836795f3364019f17b5c053522d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:44:00 +0000
Subject: [PATCH 131/132] fix: precedence of negative native numbers

---
 src/qnet/printing/_precedence.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qnet/printing/_precedence.py b/src/qnet/printing/_precedence.py
index 4bbb4bf..dc6fac9 100644
--- a/src/qnet/printing/_precedence.py
+++ b/src/qnet/printing/_precedence.py
@@ -7,6 +7,7 @@ __private__ = [
     'precedence_SuperOperatorTimesOperator', 'precedence']
 
 from functools import lru_cache
+from numbers import Real
 
 from sympy.printing.precedence import (
     PRECEDENCE,
@@ -95,6 +96,9 @@ def precedence_SuperOperatorTimesOperator(expr):
 
 
 def precedence_ScalarValue(expr):
+    if isinstance(expr.val, Real) and expr.val < 0:
+        # consistent with SymPy's numbers, which compare equal
+        return PRECEDENCE["Add"]
     return precedence(expr.val)
 
 
-- 
2.43.0


From c2bdc9eac968a6da0f07122c86d7bd76693d64c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:44:00 +0000
Subject: [PATCH 132/132] fix: separate letters and digits in subscripts of
 indexed symbols

---
 src/qnet/printing/sympy.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/qnet/printing/sympy.py b/src/qnet/printing/sympy.py
index 8c88f95..0565016 100644
--- a/src/qnet/printing/sympy.py
+++ b/src/qnet/printing/sympy.py
@@ -94,6 +94,19 @@ def derationalize_denom(expr):
         raise ValueError("expr is not a Mul instance")
 
 
+def _index_sep(indices):
+    """Separator for the given rendered indices in a subscript
+
+    Single letters, or single digits, are not separated. However, a letter next
+    to a digit (``j,1``) is, as it would look like the single index ``j1``.
+    """
+    single = [i.replace("'", '') for i in indices]
+    if all([len(i) == 1 for i in single]):
+        if len(set([i.isdigit() for i in single])) == 1:
+            return ''
+    return ','
+
+
 def _brace_subscript(subscript):
     """Enclose `subscript` in braces if it contains an expression such as
     ``i + 1``, instead of only symbols and numbers"""
@@ -147,10 +160,7 @@ class SympyStrPrinter(StrPrinter):
 
     def _print_Indexed(self, expr):
         indices = [self._print(i) for i in expr.indices]
-        sep = ','
-        if all([len(i.replace("'", '')) == 1 for i in indices]):
-            sep = ''
-        subscript = _brace_subscript(sep.join(indices))
+        subscript = _brace_subscript(_index_sep(indices).join(indices))
         return self._print(expr.base)+'_%s' % subscript
 
     def _print_factorial(self, expr, exp=None):
@@ -439,10 +449,7 @@ class SympyUnicodePrinter(SympyStrPrinter):
 
     def _print_Indexed(self, expr):
         indices = [self._print(i) for i in expr.indices]
-        sep = ','
-        if all([len(i.replace("'", '')) == 1 for i in indices]):
-            sep = ''
-        subscript = sep.join(indices)
+        subscript = _index_sep(indices).join(indices)
         try:
             subscript = ''.join([_SUBSCRIPT_MAPPING[l] for l in subscript])
             return self._print(expr.base) + subscript
-- 
2.43.0

