From 88af3198bd0c21cc374acc9a7050623ea938c67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:16 +0000
Subject: [PATCH 01/58] fix: intersecting a union that meets a set in single
 points

---
 src/sets.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/sets.py b/src/sets.py
index c15833f..81f2f75 100644
--- a/src/sets.py
+++ b/src/sets.py
@@ -320,17 +320,9 @@ class Union(Set):
         if isinstance(x, FiniteNominal):
             return self.nominals & x
         if isinstance(x, (FiniteReal, Interval)):
-            atoms = self.atoms & x
-            intervals = [i & x for i in self.intervals]
-            intervalsne = [i for i in intervals if i is not EmptySet]
-            if atoms is EmptySet:
-                if not intervalsne:
-                    return EmptySet
-                if len(intervalsne) == 1:
-                    return intervalsne[0]
-            if not intervalsne:
-                return atoms
-            return Union(atoms, *intervalsne)
+            # An interval may intersect x at a single point.
+            terms = [self.atoms & x] + [i & x for i in self.intervals]
+            return make_union(*terms)
         if isinstance(x, Union):
             terms = [self & v for v in x.values]
             return reduce(lambda a,b: a |b, terms)
-- 
2.43.0


From c85d0fbdb68033da5ca7f4dc8a82a7e650dcea77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:16 +0000
Subject: [PATCH 02/58] fix: complement and union of finite sets containing
 infinities

---
 src/sets.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/sets.py b/src/sets.py
index 81f2f75..bddc778 100644
--- a/src/sets.py
+++ b/src/sets.py
@@ -3,6 +3,7 @@
 
 from functools import reduce
 from itertools import chain
+from math import isinf
 
 from .math_util import int_or_isinf_neg
 from .math_util import int_or_isinf_pos
@@ -112,7 +113,10 @@ class FiniteReal(Set):
         # inf == oo but hash(inf) != hash(oo)
         return any(x == v for v in self.values)
     def __invert__(self):
-        values = sorted(self.values)
+        # The complement is taken in the real line, which has no infinities.
+        values = sorted(v for v in self.values if not isinf(v))
+        if not values:
+            return Interval(-inf, inf)
         intervals = chain(
             # Left-infinity interval.
             [Interval.Ropen(-inf, values[0])],
@@ -141,12 +145,14 @@ class FiniteReal(Set):
             # Merge endpoints.
             values = set(self.values)
             interval = x
-            if interval.a in values and interval.left_open:
+            if interval.a in values and interval.left_open \
+                    and not isinf(interval.a):
                 values.remove(interval.a)
                 interval = Interval(interval.a, interval.b,
                     left_open=None,
                     right_open=interval.right_open)
-            if interval.b in values and interval.right_open:
+            if interval.b in values and interval.right_open \
+                    and not isinf(interval.b):
                 values.remove(interval.b)
                 interval = Interval(interval.a, interval.b,
                     left_open=interval.left_open,
-- 
2.43.0


From 1051be43ae3fa0e2c9270b3c8dbf2dd8dc04db29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:16 +0000
Subject: [PATCH 03/58] fix: merging of intervals in unions

---
 src/sets.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sets.py b/src/sets.py
index bddc778..d1f4a2a 100644
--- a/src/sets.py
+++ b/src/sets.py
@@ -362,8 +362,9 @@ class Union(Set):
         return iter(self.args)
 
 def union_intervals(intervals):
-    intervals_sorted = sorted(intervals, key=lambda i:i.a)
-    blocks = [intervals_sorted[0]]
+    # Closed before open, so that intervals with the same endpoint merge.
+    intervals_sorted = sorted(intervals, key=lambda i:(i.a, bool(i.left_open)))
+    blocks = intervals_sorted[:1]
     for interval in intervals_sorted[1:]:
         interval_union = blocks[-1] | interval
         if isinstance(interval_union, Interval):
-- 
2.43.0


From a8ad73dc0a7688ef3e5d4b1836dd0b93256f023f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:41 +0000
Subject: [PATCH 04/58] fix: numbers are not members of complemented sets of
 strings

---
 src/sets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sets.py b/src/sets.py
index d1f4a2a..6d5bbca 100644
--- a/src/sets.py
+++ b/src/sets.py
@@ -51,7 +51,7 @@ class FiniteNominal(Set):
         self.b = b
     def __contains__(self, x):
         if self.b:
-            return x not in self.values
+            return isinstance(x, str) and x not in self.values
         return x in self.values
     def __invert__(self):
         if not self.values:
-- 
2.43.0


From ed657c717de05a16b15a86ec8d770540c5892f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:05 +0000
Subject: [PATCH 05/58] fix: equal numbers of different types in sets

---
 src/sets.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/sets.py b/src/sets.py
index 6d5bbca..fd1c431 100644
--- a/src/sets.py
+++ b/src/sets.py
@@ -93,7 +93,7 @@ class FiniteNominal(Set):
             and bool(self.b) == bool(x.b) \
             and self.values == x.values
     def __hash__(self):
-        x = (self.__class__, self.values, self.b)
+        x = (self.__class__, self.values, bool(self.b))
         return hash(x)
     def __repr__(self):
         str_values = ', '.join(repr(x) for x in self.values)
@@ -108,7 +108,7 @@ class FiniteNominal(Set):
 class FiniteReal(Set):
     def __init__(self, *values):
         assert values
-        self.values = frozenset(values)
+        self.values = unique_reals(values)
     def __contains__(self, x):
         # inf == oo but hash(inf) != hash(oo)
         return any(x == v for v in self.values)
@@ -127,7 +127,7 @@ class FiniteReal(Set):
         return Union(*intervals)
     def __and__(self, x):
         if isinstance(x, FiniteReal):
-            values = self.values & x.values
+            values = {v for v in self.values if v in x}
             return FiniteReal(*values) if values else EmptySet
         if isinstance(x, Interval):
             values = {v for v in self.values if v in x}
@@ -166,9 +166,10 @@ class FiniteReal(Set):
         return NotImplemented
     def __eq__(self, x):
         return isinstance(x, FiniteReal) \
-            and self.values == x.values
+            and len(self.values) == len(x.values) \
+            and all(v in x for v in self.values)
     def __hash__(self):
-        x = (self.__class__, self.values)
+        x = (self.__class__, frozenset(float(v) for v in self.values))
         return hash(x)
     def __repr__(self):
         return 'FiniteReal(%s)' % (', '.join(repr(x) for x in self.values))
@@ -263,7 +264,8 @@ class Interval(Set):
             and bool(self.left_open) == bool(x.left_open) \
             and bool(self.right_open) == bool(x.right_open)
     def __hash__(self):
-        x = (self.__class__, self.a, self.b, self.left_open, self.right_open)
+        x = (self.__class__, float(self.a), float(self.b),
+            bool(self.left_open), bool(self.right_open))
         return hash(x)
     def __repr__(self):
         return 'Interval(%s, %s, left_open=%s, right_open=%s)' \
@@ -361,6 +363,15 @@ class Union(Set):
     def __iter__(self):
         return iter(self.args)
 
+def unique_reals(values):
+    # Equal numbers of different types need not have equal hashes.
+    table = {}
+    for v in values:
+        equivalents = table.setdefault(float(v), [])
+        if v not in equivalents:
+            equivalents.append(v)
+    return frozenset(chain.from_iterable(table.values()))
+
 def union_intervals(intervals):
     # Closed before open, so that intervals with the same endpoint merge.
     intervals_sorted = sorted(intervals, key=lambda i:(i.a, bool(i.left_open)))
-- 
2.43.0


From 8b368851ea1511906a8984f04a3f867f9c687d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:28 +0000
Subject: [PATCH 06/58] fix: merging endpoints of different numeric types in
 unions

---
 src/sets.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/sets.py b/src/sets.py
index fd1c431..1af8d38 100644
--- a/src/sets.py
+++ b/src/sets.py
@@ -143,21 +143,18 @@ class FiniteReal(Set):
             return FiniteReal(*values)
         if isinstance(x, Interval):
             # Merge endpoints.
-            values = set(self.values)
             interval = x
-            if interval.a in values and interval.left_open \
-                    and not isinf(interval.a):
-                values.remove(interval.a)
+            if interval.left_open and not isinf(interval.a) \
+                    and interval.a in self:
                 interval = Interval(interval.a, interval.b,
                     left_open=None,
                     right_open=interval.right_open)
-            if interval.b in values and interval.right_open \
-                    and not isinf(interval.b):
-                values.remove(interval.b)
+            if interval.right_open and not isinf(interval.b) \
+                    and interval.b in self:
                 interval = Interval(interval.a, interval.b,
                     left_open=interval.left_open,
                     right_open=None)
-            values = {v for v in values if v not in interval}
+            values = {v for v in self.values if v not in interval}
             return Union(FiniteReal(*values), interval) if values else interval
         if isinstance(x, FiniteNominal):
             return Union(self, x)
-- 
2.43.0


From 48d71ef41e7a76b8c46cc5dd86b33cbb3d041bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:00 +0000
Subject: [PATCH 07/58] fix: subtracting an expression from a constant

---
 src/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transforms.py b/src/transforms.py
index 686c074..1419dbc 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -203,7 +203,7 @@ class Transform():
     def __sub__(self, x):
         return self + (-1 * x)
     def __rsub__(self, x):
-        return self - x
+        return (-1 * self) + x
     # Negation.
     def __neg__(self):
         return -1 * self
-- 
2.43.0


From 80094aea3acf3b44b9afcda3f07cd1c0180dabe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:16 +0000
Subject: [PATCH 08/58] fix: converting the ends of symbolic intervals

---
 src/sets.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sets.py b/src/sets.py
index 1af8d38..2ab0ba3 100644
--- a/src/sets.py
+++ b/src/sets.py
@@ -436,8 +436,9 @@ def convert_sympy(x):
         return EmptySet
     if isinstance(x, sympy.Interval):
         left = -inf if x.left == -inf else x.left
-        right = inf if x.right == -inf else x.right
-        return Interval(left, right, left_open=x.left_open, right_open=x.right_open)
+        right = inf if x.right == inf else x.right
+        return Interval(left, right,
+            left_open=bool(x.left_open), right_open=bool(x.right_open))
     if isinstance(x, sympy.FiniteSet):
         return FiniteReal(*x.args)
     if isinstance(x, sympy.Union):
-- 
2.43.0


From 0f1fdb75d8ec68f32cb4de027750a123794c6937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:31 +0000
Subject: [PATCH 09/58] fix: inverting exponentials with base below one

---
 src/transforms.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/transforms.py b/src/transforms.py
index 1419dbc..4318f97 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -463,10 +463,19 @@ class Exponential(Injective):
         if not y in self.range():
             return EmptySet
         if isinf_pos(y):
-            return FiniteReal(oo)
+            return FiniteReal(oo if self.base > 1 else -oo)
         if y <= 0:
-            return FiniteReal(-oo)
+            return FiniteReal(-oo if self.base > 1 else oo)
         return FiniteReal(sympy.log(y, self.base))
+    def invert_interval(self, ys):
+        if self.base > 1:
+            return super().invert_interval(ys)
+        # Decreasing transform.
+        assert isinstance(ys, Interval)
+        a_prime = next(iter(self.finv(ys.left)))
+        b_prime = next(iter(self.finv(ys.right)))
+        ys_prime = transform_interval(ys, b_prime, a_prime, flip=True)
+        return self.subexpr.invert(ys_prime)
     def __eq__(self, x):
         return isinstance(x, Exponential) \
             and self.subexpr == x.subexpr \
-- 
2.43.0


From b188e21a50beab50b943322c724fa3001be44cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:31 +0000
Subject: [PATCH 10/58] fix: forward value of logarithms is a number

---
 src/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transforms.py b/src/transforms.py
index 4318f97..fafbbb2 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -510,7 +510,7 @@ class Logarithm(Injective):
         return self.ffwd(x)
     def ffwd(self, x):
         assert x in self.domain()
-        return {sympy.log(x, self.base) if x > 0 else -oo}
+        return sympy.log(x, self.base) if x > 0 else -oo
     def finv(self, y):
         if not y in self.range():
             return EmptySet
-- 
2.43.0


From c0adee3751090e71e1944d0da80aa5c97d37e5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:50 +0000
Subject: [PATCH 11/58] fix: inverse of compound events at zero (de Morgan)

---
 src/transforms.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/transforms.py b/src/transforms.py
index fafbbb2..b1ca2ca 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -1098,6 +1098,11 @@ class EventCompound(Event):
             return self
         subexprs_prime = [subexpr.subs(env) for subexpr in self.subexprs]
         return type(self)(subexprs_prime)
+    def invert_finite(self, ys):
+        xs_list = [self.invert_value(y) for y in ys]
+        return make_union(*xs_list)
+    def invert_value(self, y):
+        raise NotImplementedError()
 
 class EventOr(EventCompound):
     def evaluate(self, assignment):
@@ -1110,10 +1115,10 @@ class EventOr(EventCompound):
     def finv(self, y):
         # Cannot invert multi-symbol Event.
         xs_list = [event.finv(y) for event in self.subexprs]
-        return make_union(*xs_list)
-    def invert_finite(self, ys):
-        xs_list = [event.invert(ys) for event in self.subexprs]
-        return make_union(*xs_list)
+        return make_union(*xs_list) if y == 1 else make_intersection(*xs_list)
+    def invert_value(self, y):
+        xs_list = [event.invert(FiniteReal(y)) for event in self.subexprs]
+        return make_union(*xs_list) if y == 1 else make_intersection(*xs_list)
 
     # Event methods.
     def to_dnf_list(self):
@@ -1160,10 +1165,10 @@ class EventAnd(EventCompound):
     def finv(self, y):
         # Cannot invert multi-symbol Event.
         xs_list = [event.finv(y) for event in self.subexprs]
-        return make_intersection(*xs_list)
-    def invert_finite(self, ys):
-        xs_list = [event.invert(ys) for event in self.subexprs]
-        return make_intersection(*xs_list)
+        return make_intersection(*xs_list) if y == 1 else make_union(*xs_list)
+    def invert_value(self, y):
+        xs_list = [event.invert(FiniteReal(y)) for event in self.subexprs]
+        return make_intersection(*xs_list) if y == 1 else make_union(*xs_list)
 
     # Event methods.
     def to_dnf_list(self):
-- 
2.43.0


From d16fd8c8f46739a260454f304d95427c0175962b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:10 +0000
Subject: [PATCH 12/58] fix: exact logarithms of rational powers of the base

---
 src/transforms.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/transforms.py b/src/transforms.py
index b1ca2ca..5f5fd91 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -466,7 +466,7 @@ class Exponential(Injective):
             return FiniteReal(oo if self.base > 1 else -oo)
         if y <= 0:
             return FiniteReal(-oo if self.base > 1 else oo)
-        return FiniteReal(sympy.log(y, self.base))
+        return FiniteReal(exact_log(y, self.base))
     def invert_interval(self, ys):
         if self.base > 1:
             return super().invert_interval(ys)
@@ -1232,6 +1232,16 @@ def transform_interval(interval, a, b, flip=None):
         if not flip else \
         Interval(a, b, interval.right_open, interval.left_open) \
 
+def exact_log(y, base):
+    # Sympy leaves quotients of logs such as log(4)/log(1/2) unevaluated, which
+    # are then not comparable to the number they equal (-2).
+    x = sympy.log(y, base)
+    if all(isinstance(v, (int, sympy.Rational)) for v in (y, base)):
+        k = sympy.Rational(float(x)).limit_denominator(32)
+        if sympy.Pow(base, k) == y:
+            return k
+    return x
+
 def make_sympy_polynomial(coeffs):
     terms = [c*symX**i for (i,c) in enumerate(coeffs)]
     return sympy.Add(*terms)
-- 
2.43.0


From 081194568eafe42e6e7d197ecb50a03b313b5fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:10 +0000
Subject: [PATCH 13/58] fix: division of expressions by floats, irrationals and
 zero

---
 src/transforms.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/transforms.py b/src/transforms.py
index 5f5fd91..bfd8443 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -176,7 +176,11 @@ class Transform():
     # Division by x.
     def __truediv__number(self, x):
         x_val = sympify_number(x)
-        return sympy.Rational(1, x_val) * self
+        if x_val == 0:
+            raise ZeroDivisionError('Cannot divide %s by zero' % (str(self),))
+        if isinstance(x_val, (float, sympy.Float)):
+            return (1 / x_val) * self
+        return (sympy.S.One / x_val) * self
     def __truediv__(self, x):
         # Try to divide by x as a number.
         try:
-- 
2.43.0


From 6feb9def7c4fd0b215f906a2de052f8b42029c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:05 +0000
Subject: [PATCH 14/58] fix: numerical solution of polynomials with no roots or
 repeated roots

---
 src/poly.py | 42 +++++++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/src/poly.py b/src/poly.py
index df634cd..56967b7 100644
--- a/src/poly.py
+++ b/src/poly.py
@@ -58,28 +58,37 @@ def solve_poly_inequality_numerically(expr, b, strict):
     poly = expr - b
     symX = get_poly_symbol(expr)
     # Obtain numerical roots.
-    roots = sympy.nroots(poly)
-    zeros = sorted([r for r in roots if r.is_real])
-    if not zeros:
-        return sympy.EmptySet
+    zeros = get_real_roots_numerically(poly)
     # Construct intervals around roots.
     mk_intvl = lambda a, b: \
         Interval(a, b, left_open=strict, right_open=strict)
-    intervals = list(chain(
-        [mk_intvl(-oo, zeros[0])],
-        [mk_intvl(x, y) for x, y in zip(zeros, zeros[1:])],
-        [mk_intvl(zeros[-1], oo)]))
+    endpoints = list(chain([-oo], zeros, [oo]))
+    intervals = [mk_intvl(x, y) for x, y in zip(endpoints, endpoints[1:])]
     # Define probe points.
     xs_probe = list(chain(
-        [zeros[0] - 1/2],
-        [(i.left + i.right)/2 for i in intervals[1:-1]
-            if isinstance(i, Interval)],
-        [zeros[-1] + 1/2]))
+        [zeros[0] - 1],
+        [(x + y)/2 for x, y in zip(zeros, zeros[1:])],
+        [zeros[-1] + 1])) if zeros else [0]
     # Evaluate poly at the probe points.
     f_xs_probe = [poly.subs(symX, x) for x in xs_probe]
     # Return intervals where poly is less than zero.
-    idxs = [i for i, fx in enumerate(f_xs_probe) if fx < 0]
-    return make_union(*[intervals[i] for i in idxs])
+    solutions = [i for i, fx in zip(intervals, f_xs_probe) if fx < 0]
+    # Roots satisfy non-strict inequality, even if poly is positive around them.
+    if not strict and zeros:
+        solutions.append(FiniteReal(*zeros))
+    return make_union(*solutions) if solutions else EmptySet
+
+def get_real_roots_numerically(poly):
+    # Isolating the roots of a rational polynomial is exact, so that repeated
+    # roots and the absence of roots are detected.
+    symX = get_poly_symbol(poly)
+    coeffs = [
+        c if c.is_Rational else
+        sympy.Rational(str(c)) if c.is_Float else
+        sympy.Rational(str(c.evalf(30)))
+        for c in sympy.Poly(poly, symX).all_coeffs()]
+    roots = sympy.Poly(coeffs, symX, domain='QQ').real_roots()
+    return sorted(set(r if r.is_Rational else r.evalf() for r in roots))
 
 def solve_poly_inequality_inf(expr, b, strict, extended=None):
     # Minimum value of polynomial is negative infinity.
@@ -126,9 +135,8 @@ def solve_poly_equality_symbolically(expr, b):
     return sympy.Intersection(soln_lt, soln_gt)
 
 def solve_poly_equality_numerically(expr, b):
-    roots = sympy.nroots(expr-b)
-    zeros = [r for r in roots if r.is_real]
-    return FiniteReal(*zeros)
+    zeros = get_real_roots_numerically(expr - b)
+    return FiniteReal(*zeros) if zeros else EmptySet
 
 def solve_poly_equality_inf(expr, b):
     assert isinf(b)
-- 
2.43.0


From f6a828b31567f8b5bee6aa25e69c9694a99b9b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:05 +0000
Subject: [PATCH 15/58] fix: fall back to numerical solutions when symbolic
 solving fails

---
 src/poly.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/poly.py b/src/poly.py
index 56967b7..7b0f976 100644
--- a/src/poly.py
+++ b/src/poly.py
@@ -8,6 +8,7 @@ from math import isinf
 
 import sympy
 
+from mpmath.libmp import NoConvergence
 from sympy.calculus.util import limit
 
 from .sets import EmptySet
@@ -42,7 +43,7 @@ def solve_poly_inequality(expr, b, strict, extended=None):
     try:
         with timeout(seconds=TIMEOUT_SYMBOLIC):
             result_symbolic = solve_poly_inequality_symbolically(expr, b, strict)
-    except TimeoutError:
+    except (TimeoutError, NoConvergence, NotImplementedError):
         result_symbolic = None
     if result_symbolic is not None:
         if not isinstance(result_symbolic, (sympy.ConditionSet, sympy.Intersection)):
@@ -121,7 +122,7 @@ def solve_poly_equality(expr, b):
     try:
         with timeout(seconds=TIMEOUT_SYMBOLIC):
             result_symbolic = solve_poly_equality_symbolically(expr, b)
-    except TimeoutError:
+    except (TimeoutError, NoConvergence, NotImplementedError):
         result_symbolic = None
     if result_symbolic is not None:
         if not isinstance(result_symbolic, (sympy.ConditionSet, sympy.Intersection)):
-- 
2.43.0


From 3ccda69344f5db31d642355273a48039b602bc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:05 +0000
Subject: [PATCH 16/58] fix: solving polynomials whose coefficients vanish

---
 src/poly.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/poly.py b/src/poly.py
index 7b0f976..d928703 100644
--- a/src/poly.py
+++ b/src/poly.py
@@ -33,6 +33,9 @@ def get_poly_symbol(expr):
 # Solving inequalities.
 
 def solve_poly_inequality(expr, b, strict, extended=None):
+    # Handle constant case.
+    if not get_symbols(expr):
+        return Reals if ((expr < b) if strict else (expr <= b)) else EmptySet
     # Handle infinite case.
     if isinf(b):
         return solve_poly_inequality_inf(expr, b, strict, extended=extended)
@@ -112,6 +115,9 @@ def solve_poly_inequality_inf(expr, b, strict, extended=None):
 # Solving equalities.
 
 def solve_poly_equality(expr, b):
+    # Handle constant case.
+    if not get_symbols(expr):
+        return Reals if expr == b else EmptySet
     # Handle infinite case.
     if isinf(b):
         return solve_poly_equality_inf(expr, b)
-- 
2.43.0


From 44809ce3a837de5daeaf5a50bf5bdde9fe740bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:05 +0000
Subject: [PATCH 17/58] fix: restore the alarm handler after a timeout

---
 src/timeout.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/timeout.py b/src/timeout.py
index 7ac7d70..706b1de 100644
--- a/src/timeout.py
+++ b/src/timeout.py
@@ -11,7 +11,8 @@ class timeout:
     def handle_timeout(self, signum, frame):
         raise TimeoutError(self.error_message)
     def __enter__(self):
-        signal.signal(signal.SIGALRM, self.handle_timeout)
+        self.handler = signal.signal(signal.SIGALRM, self.handle_timeout)
         signal.alarm(self.seconds)
     def __exit__(self, type, value, traceback):
         signal.alarm(0)
+        signal.signal(signal.SIGALRM, self.handler)
-- 
2.43.0


From 813cf31d78044268d93d742a3a6777639b7387a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:43 +0000
Subject: [PATCH 18/58] fix: exponentials with base one are constant

---
 src/transforms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/transforms.py b/src/transforms.py
index bfd8443..2beb9d8 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -270,6 +270,8 @@ class Transform():
         x_val = sympify_number(x)
         if x_val <= 0:
             raise ValueError('Base must be positive, not %s' % (x,))
+        if x_val == 1:
+            return 0 * self + 1
         return Exponential(self, x_val)
     def __rpow__(self, x):
         try:
-- 
2.43.0


From fb0f97172be5efc97df620cdf33c2a52850f498b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:43 +0000
Subject: [PATCH 19/58] fix: evaluating and hashing piecewise transforms

---
 src/transforms.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/transforms.py b/src/transforms.py
index 2beb9d8..f5ebe3a 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -734,14 +734,18 @@ class Piecewise(Transform):
         events_prime = [event.subs(env) for event in self.events]
         return Piecewise(subexprs_prime, events_prime)
     def evaluate(self, assignment):
-        raise NotImplementedError()
+        (symbol,) = self.symbols
+        if symbol not in assignment:
+            raise ValueError('Cannot evaluate %s on %s' % (str(self), assignment))
+        return self.ffwd(assignment[symbol])
     def ffwd(self, x):
+        # The domains and subexpressions are over the symbol.
+        assert x in self.domain()
+        (symbol,) = self.symbols
         index = next(i for i, domain in enumerate(self.domains) if x in domain)
-        return self.subexprs[index].ffwd(x)
+        return self.subexprs[index].evaluate({symbol: x})
     def finv(self, y):
-        xs_list = get_piecewise_inverse(lambda subexpr: subexpr.finv(y),
-            self.subexprs, self.domains)
-        return make_union(*xs_list)
+        return self.invert_finite(FiniteReal(y))
     def invert_finite(self, ys):
         xs_list = get_piecewise_inverse(lambda subexpr: subexpr.invert(ys),
             self.subexprs, self.domains)
@@ -770,7 +774,7 @@ class Piecewise(Transform):
         ]
         return ' + '.join(strings)
     def __hash__(self):
-        x = (self.__class__, self.subexprs, self.events)
+        x = (self.__class__, tuple(self.subexprs), tuple(self.events))
         return hash(x)
 
 def get_piecewise_symbol(subexprs, events):
-- 
2.43.0


From e1a72df4ee17a8fbb8724153ecc769aa53c01d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:30 +0000
Subject: [PATCH 20/58] fix: contradictory and complemented string events

---
 src/transforms.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/transforms.py b/src/transforms.py
index f5ebe3a..02fe36f 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -886,6 +886,10 @@ class EventBasic(Event):
             if event.subexpr == self.subexpr:
                 intersection = self.values & event.values
                 if intersection is EmptySet:
+                    nominal = [isinstance(e, EventFiniteNominal)
+                        for e in (self, event)]
+                    if all(nominal):
+                        return EventFiniteNominal(self.subexpr, EmptySet)
                     return EventFiniteReal(self.subexpr, EmptySet)
                 if isinstance(intersection, FiniteReal):
                     return EventFiniteReal(self.subexpr, intersection)
@@ -906,7 +910,7 @@ class EventBasic(Event):
             if event.subexpr == self.subexpr:
                 union = self.values | event.values
                 if union is EmptySet:
-                    return EventFiniteReal(self.subexpr, EmptySet)
+                    return type(self)(self.subexpr, EmptySet)
                 if isinstance(union, FiniteReal):
                     return EventFiniteReal(self.subexpr, union)
                 if isinstance(union, FiniteNominal):
@@ -1081,7 +1085,7 @@ class EventFiniteNominal(EventBasic):
             return self.finv(0)
         if ys == FiniteReal(1):
             return self.finv(1)
-        if ys == FiniteReal(1, 2):
+        if ys == FiniteReal(0, 1):
             return Strings
 
     def __repr__(self):
@@ -1090,7 +1094,7 @@ class EventFiniteNominal(EventBasic):
     def __str__(self):
         return '%s << %s' % (str(self.subexpr), str(self.values))
     def __invert__(self):
-        values_not = ~self.values
+        values_not = Strings if self.values is EmptySet else ~self.values
         return EventFiniteNominal(self.subexpr, values_not)
 
 class EventCompound(Event):
-- 
2.43.0


From 758293be843acaeb66fc6e077dd164281d47b633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:54 +0000
Subject: [PATCH 21/58] fix: events evaluate to zero or one, for use in
 expressions

---
 src/transforms.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/transforms.py b/src/transforms.py
index 02fe36f..c044c1b 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -865,7 +865,7 @@ class EventBasic(Event):
         x = self.subexpr.evaluate(assignment)
         return self.ffwd(x)
     def ffwd(self, x):
-        return x in self.values
+        return int(x in self.values)
 
     # Disable < on Events.
     def __gt__(self, x):
@@ -1121,11 +1121,11 @@ class EventCompound(Event):
 class EventOr(EventCompound):
     def evaluate(self, assignment):
         ys = [event.evaluate(assignment) for event in self.subexprs]
-        return any(ys)
+        return int(any(ys))
     def ffwd(self, x):
         # Cannot asses on multi-symbol Event.
         ys = [event.ffwd(x) for event in self.subexprs]
-        return any(ys)
+        return int(any(ys))
     def finv(self, y):
         # Cannot invert multi-symbol Event.
         xs_list = [event.finv(y) for event in self.subexprs]
@@ -1171,11 +1171,11 @@ class EventOr(EventCompound):
 class EventAnd(EventCompound):
     def evaluate(self, assignment):
         ys = [event.evaluate(assignment) for event in self.subexprs]
-        return all(ys)
+        return int(all(ys))
     def ffwd(self, x):
         # Cannot asses on multi-symbol Event.
         ys = [event.ffwd(x) for event in self.subexprs]
-        return all(ys)
+        return int(all(ys))
     def finv(self, y):
         # Cannot invert multi-symbol Event.
         xs_list = [event.finv(y) for event in self.subexprs]
-- 
2.43.0


From 02bc361adbf2a359c261f1925e48d80b73b2c72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:11 +0000
Subject: [PATCH 22/58] fix: nested roots of floats terminate

---
 src/transforms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/transforms.py b/src/transforms.py
index c044c1b..5114a75 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -425,6 +425,9 @@ class Radical(Injective):
         return self.ffwd(x)
     def ffwd(self, x):
         assert x in self.domain()
+        if isinstance(x, sympy.Expr) and x.has(sympy.Float):
+            # Sympy does not terminate on roots of floats times radicals.
+            x = x.evalf()
         return sympy.Pow(x, sympy.Rational(1, self.degree))
     def finv(self, y):
         if y not in self.range():
-- 
2.43.0


From d71073126e36bca2da0a269c1324e2df5ce16aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:14 +0000
Subject: [PATCH 23/58] fix: sums and products of polynomials that are constant

---
 src/transforms.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/transforms.py b/src/transforms.py
index 5114a75..90d3098 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -102,11 +102,11 @@ class Transform():
         if poly_x.subexpr != poly_self.subexpr:
             raise ValueError('Incompatible subexpressions in "%s + %s"'
                 % (str(self), x))
-        sym_poly_a = sympy.Poly(poly_self.symexpr)
-        sym_poly_b = sympy.Poly(poly_x.symexpr)
+        sym_poly_a = sympy.Poly(poly_self.symexpr, symX)
+        sym_poly_b = sympy.Poly(poly_x.symexpr, symX)
         sym_poly_c = sym_poly_a + sym_poly_b
         coeffs = sym_poly_c.all_coeffs()[::-1]
-        return Poly(poly_self.subexpr, coeffs)
+        return Poly(poly_self.subexpr, pad_coeffs(coeffs))
     def __add__(self, x):
         # Try to add x as a number.
         try:
@@ -148,7 +148,7 @@ class Transform():
         sym_poly_b = sympy.Poly(poly_x.symexpr, symX)
         sym_poly_c = sym_poly_a * sym_poly_b
         coeffs = sym_poly_c.all_coeffs()[::-1]
-        return Poly(poly_self.subexpr, coeffs)
+        return Poly(poly_self.subexpr, pad_coeffs(coeffs))
     def __mul__(self, x):
         # Try to multiply x as a number.
         try:
@@ -1277,6 +1277,10 @@ def make_event(event):
     raise TypeError('Invalid event %s with type %s'
         % (event, str(type(event))))
 
+def pad_coeffs(coeffs):
+    # Sums and products of polynomials may be constant.
+    return coeffs + [0] * (2 - len(coeffs))
+
 def polyify(expr):
     if isinstance(expr, Poly):
         return expr
-- 
2.43.0


From d3bc730ed0298efcee378cd62826b3ea95e3607c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:31 +0000
Subject: [PATCH 24/58] fix: solving polynomials without computing their range

---
 src/transforms.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/transforms.py b/src/transforms.py
index 90d3098..6f7639e 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -71,16 +71,18 @@ class Transform():
 
     def invert(self, ys):
         intersection = self.range() & ys
-        if intersection is EmptySet:
+        return self.invert_subset(intersection)
+    def invert_subset(self, ys):
+        if ys is EmptySet:
             return EmptySet
-        if isinstance(intersection, FiniteReal):
-            return self.invert_finite(intersection)
-        if isinstance(intersection, Interval):
-            return self.invert_interval(intersection)
-        if isinstance(intersection, Union):
-            xs_list = [self.invert(ys_i) for ys_i in intersection.args]
+        if isinstance(ys, FiniteReal):
+            return self.invert_finite(ys)
+        if isinstance(ys, Interval):
+            return self.invert_interval(ys)
+        if isinstance(ys, Union):
+            xs_list = [self.invert(ys_i) for ys_i in ys.args]
             return make_union(*xs_list)
-        assert False, 'Unknown intersection: %s' % (intersection,)
+        assert False, 'Unknown intersection: %s' % (ys,)
     def invert_finite(self, ys):
         raise NotImplementedError()
     def invert_interval(self, ys):
@@ -673,9 +675,11 @@ class Poly(Transform):
         return self.symexpr.subs(symX, x) \
             if not isinf(x) else limit(self.symexpr, symX, x)
     def finv(self, y):
-        if not y in self.range():
-            return EmptySet
         return solve_poly_equality(self.symexpr, y)
+    def invert(self, ys):
+        # The ends of the range are only known approximately (if at all), and
+        # solving the polynomial does not need them.
+        return self.invert_subset(ExtReals & ys)
     def invert_finite(self, ys):
         ys_prime = make_union(*[self.finv(y) for y in ys])
         return self.subexpr.invert(ys_prime)
@@ -749,6 +753,9 @@ class Piecewise(Transform):
         return self.subexprs[index].evaluate({symbol: x})
     def finv(self, y):
         return self.invert_finite(FiniteReal(y))
+    def invert(self, ys):
+        # The ranges of the subexpressions need not be known.
+        return self.invert_subset(ys)
     def invert_finite(self, ys):
         xs_list = get_piecewise_inverse(lambda subexpr: subexpr.invert(ys),
             self.subexprs, self.domains)
-- 
2.43.0


From 97fa89f482f9249a69c7b4901a2b2160a20da046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:50 +0000
Subject: [PATCH 25/58] fix: polynomials with floating-point coefficients are
 solved numerically

---
 src/poly.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/poly.py b/src/poly.py
index d928703..b1a174d 100644
--- a/src/poly.py
+++ b/src/poly.py
@@ -29,6 +29,11 @@ def get_poly_symbol(expr):
     assert len(symbols) == 1
     return symbols[0]
 
+def has_float(expr):
+    # Symbolic solutions are unreliable for floating-point coefficients, for
+    # example solveset(4.0*x**2 + 14.0*x + 12.25 <= 0) is empty.
+    return expr.has(sympy.Float)
+
 # ==============================================================================
 # Solving inequalities.
 
@@ -40,7 +45,7 @@ def solve_poly_inequality(expr, b, strict, extended=None):
     if isinf(b):
         return solve_poly_inequality_inf(expr, b, strict, extended=extended)
     # Bypass symbolic inference.
-    if os.environ.get('SPPL_NO_SYMBOLIC'):
+    if os.environ.get('SPPL_NO_SYMBOLIC') or has_float(expr - b):
         return solve_poly_inequality_numerically(expr, b, strict)
     # Solve symbolically, if possible.
     try:
@@ -92,7 +97,8 @@ def get_real_roots_numerically(poly):
         sympy.Rational(str(c.evalf(30)))
         for c in sympy.Poly(poly, symX).all_coeffs()]
     roots = sympy.Poly(coeffs, symX, domain='QQ').real_roots()
-    return sorted(set(r if r.is_Rational else r.evalf() for r in roots))
+    exact = not has_float(poly)
+    return sorted(set(r if exact and r.is_Rational else r.evalf() for r in roots))
 
 def solve_poly_inequality_inf(expr, b, strict, extended=None):
     # Minimum value of polynomial is negative infinity.
@@ -122,7 +128,7 @@ def solve_poly_equality(expr, b):
     if isinf(b):
         return solve_poly_equality_inf(expr, b)
     # Bypass symbolic inference.
-    if os.environ.get('SPPL_NO_SYMBOLIC'):
+    if os.environ.get('SPPL_NO_SYMBOLIC') or has_float(expr - b):
         return solve_poly_equality_numerically(expr, b)
     # Solve symbolically, if possible.
     try:
-- 
2.43.0


From 2c211cb08ef33fd3ea1ccfad3ef4b7cebcb503ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:04 +0000
Subject: [PATCH 26/58] fix: events over the empty set are normalized to none

---
 src/dnf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dnf.py b/src/dnf.py
index aef0777..4c9ee59 100644
--- a/src/dnf.py
+++ b/src/dnf.py
@@ -66,7 +66,7 @@ def dnf_factor(event, lookup=None):
 def dnf_normalize(event):
     if isinstance(event, EventBasic):
         if isinstance(event.subexpr, Id):
-            return event
+            return event if event.values is not EmptySet else None
     # Given an arbitrary event, rewrite in terms of only Id by
     # solving the subexpressions and return the resulting DNF formula,
     # or None if all solutions evaluate to EmptySet.
-- 
2.43.0


From 21013c80e96f9062cfe900a21a3a1175dcb405ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:46 +0000
Subject: [PATCH 27/58] fix: disjoint union of clauses with partial transforms

---
 src/dnf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dnf.py b/src/dnf.py
index 4c9ee59..8c69f99 100644
--- a/src/dnf.py
+++ b/src/dnf.py
@@ -127,6 +127,10 @@ def dnf_to_disjoint_union(event):
     overlap_dict = dnf_non_disjoint_clauses(event)
     if not overlap_dict:
         return event
+    # A literal on a transform and its negation both fail where the transform
+    # is undefined, so the clauses are negated on plain symbols.
+    if not all(isinstance(e.subexpr, Id) for es in event.to_dnf_list() for e in es):
+        return dnf_to_disjoint_union(dnf_normalize(event))
     # Create the cascading negated clauses.
     n_clauses = len(event.subexprs)
     clauses_disjoint = [
-- 
2.43.0


From 0b3da28563ce4d6377693c98c453015fcc84df9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:56 +0000
Subject: [PATCH 28/58] fix: queries with memoization disabled receive their
 arguments

---
 src/spe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spe.py b/src/spe.py
index d5f0856..cfd4532 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -51,7 +51,7 @@ def memoize(f):
     def f_(*args):
         (spe, event_factor, memo) = args
         if memo is False:
-            return f(spe, event_factor_to_event, memo)
+            return f(spe, event_factor, memo)
         m = getattr(memo, table)
         key = spe.get_memo_key(event_factor)
         if key not in m:
-- 
2.43.0


From 59754717bad2e0722af8624c2c91e765f2dd74f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:41 +0000
Subject: [PATCH 29/58] fix: integer bounds of discrete distributions under
 fractional intervals

---
 src/math_util.py | 14 +++++++++++++-
 src/spe.py       | 21 +++++++--------------
 2 files changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/math_util.py b/src/math_util.py
index 09a6a66..c9ee8d9 100644
--- a/src/math_util.py
+++ b/src/math_util.py
@@ -1,6 +1,8 @@
 # Copyright 2020 MIT Probabilistic Computing Project.
 # See LICENSE.txt
 
+from math import ceil
+from math import floor
 from math import isinf
 
 import numpy
@@ -52,4 +54,14 @@ def random(x):
 
 int_or_isinf_neg = lambda a: isinf_neg(a) or float(a) == int(a)
 int_or_isinf_pos = lambda a: isinf_pos(a) or float(a) == int(a)
-float_to_int = lambda a: a if isinf(a) else int(a)
+
+def integer_bounds(interval):
+    # Smallest and largest integers in the interval (may be infinite).
+    (xl, xu) = (interval.left, interval.right)
+    if not isinf(xl):
+        n = int(ceil(xl))
+        xl = n + 1 if interval.left_open and n == xl else n
+    if not isinf(xu):
+        n = int(floor(xu))
+        xu = n - 1 if interval.right_open and n == xu else n
+    return (xl, xu)
diff --git a/src/spe.py b/src/spe.py
index cfd4532..ff42d12 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -17,9 +17,7 @@ from .dnf import dnf_to_disjoint_union
 
 from .math_util import allclose
 from .math_util import flip
-from .math_util import float_to_int
-from .math_util import int_or_isinf_neg
-from .math_util import int_or_isinf_pos
+from .math_util import integer_bounds
 from .math_util import isinf_neg
 from .math_util import logdiffexp
 from .math_util import logflip
@@ -886,10 +884,8 @@ class DiscreteLeaf(RealLeaf):
     atomic = True
     def __init__(self, symbol, dist, support, conditioned=None, env=None):
         super().__init__(symbol, dist, support, conditioned, env)
-        assert int_or_isinf_neg(support.left)
-        assert int_or_isinf_pos(support.right)
-        self.xl = float_to_int(support.left) + 1*bool(support.left_open)
-        self.xu = float_to_int(support.right) - 1*bool(support.right_open)
+        (self.xl, self.xu) = integer_bounds(support)
+        assert self.xl <= self.xu
         if conditioned:
             self.Fl = self.dist.cdf(self.xl - 1)
             self.Fu = self.dist.cdf(self.xu)
@@ -917,13 +913,10 @@ class DiscreteLeaf(RealLeaf):
         logps = [self.logpdf__(x) for x in values]
         return logps[0] if len(logps) == 1 else logsumexp(logps)
     def logprob_interval__(self, values):
-        offsetl = not values.left_open and int_or_isinf_neg(values.left)
-        offsetr = values.right_open and int_or_isinf_pos(values.right)
-        xl = float_to_int(values.left) - offsetl
-        xu = float_to_int(values.right) - offsetr
-        logFl = self.logcdf(xl)
-        logFu = self.logcdf(xu)
-        return logdiffexp(logFu, logFl)
+        (xl, xu) = integer_bounds(values)
+        if xu < xl:
+            return -inf
+        return logdiffexp(self.logcdf(xu), self.logcdf(xl - 1))
 
 # ==============================================================================
 # Atomic RealLeaf.
-- 
2.43.0


From 0b2e1a28b25c30af9d9a7c3adda9a43e9106cffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:09 +0000
Subject: [PATCH 30/58] fix: mutual information of events with probability zero
 or one

---
 src/spe.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/spe.py b/src/spe.py
index ff42d12..55f989d 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -94,11 +94,18 @@ class SPE():
         lp01 = self.logprob(~A & B, memo)
         # lp00 = self.logprob(~A & ~B, memo)
         lp00 = logdiffexp(0, logsumexp([lp11, lp10, lp01]))
-        m11 = exp(lp11) * (lp11 - (lpA1 + lpB1)) if not isinf_neg(lp11) else 0
-        m10 = exp(lp10) * (lp10 - (lpA1 + lpB0)) if not isinf_neg(lp10) else 0
-        m01 = exp(lp01) * (lp01 - (lpA0 + lpB1)) if not isinf_neg(lp01) else 0
-        m00 = exp(lp00) * (lp00 - (lpA0 + lpB0)) if not isinf_neg(lp00) else 0
-        return m11 + m10 + m01 + m00
+        # Impossible joint outcomes do not contribute; marginals computed by
+        # subtraction may underflow before the joint probability does.
+        terms = [
+            (lp11, lpA1 + lpB1),
+            (lp10, lpA1 + lpB0),
+            (lp01, lpA0 + lpB1),
+            (lp00, lpA0 + lpB0),
+        ]
+        return sum(
+            exp(lp) * (lp - lq) for (lp, lq) in terms
+            if not (isinf_neg(lp) or isinf_neg(lq))
+        )
     def prob(self, event):
         lp = self.logprob(event)
         return exp(lp)
-- 
2.43.0


From 90b3f84e0486de0c5132e8eb86e920b9e589f41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:09 +0000
Subject: [PATCH 31/58] fix: conditioning continuous distributions on sets with
 isolated points

---
 src/spe.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/spe.py b/src/spe.py
index 55f989d..b277f0a 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -779,7 +779,9 @@ class RealLeaf(LeafSPE):
         if isinstance(values, Interval):
             return [values]
         if isinstance(values, FiniteReal):
-            assert isinstance(self, DiscreteLeaf)
+            # Isolated points have probability zero.
+            if not isinstance(self, DiscreteLeaf):
+                return []
             blocks = partition_finite_real_contiguous(values)
             return [Range(min(v), max(v)) for v in blocks]
         if isinstance(values, Union):
@@ -800,11 +802,8 @@ class RealLeaf(LeafSPE):
             return self
         # Flatten the set.
         values = self.flatten_values_contiguous(values_set)
-        # Condition on a single contiguous set.
-        if len(values) == 0:
-            return (type(self))(self.symbol, self.dist, values[0], True, self.env)
         # Condition on a union of contiguous set.
-        else:
+        if values:
             weights_unorm = [self.logprob_values__(v) for v in values]
             indexes = [i for i, w in enumerate(weights_unorm) if not isinf_neg(w)]
             if not indexes:
-- 
2.43.0


From bd20af114ffdd43d1723c520f55397a52403c7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:42 +0000
Subject: [PATCH 32/58] fix: identify equal mixture components by equality, not
 by hash

---
 src/sym_util.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/sym_util.py b/src/sym_util.py
index 05d809a..9903ac2 100644
--- a/src/sym_util.py
+++ b/src/sym_util.py
@@ -45,10 +45,9 @@ def powerset(values, start=0):
 def partition_list_blocks(values):
     partition = OrderedDict([])
     for i, v in enumerate(values):
-        x = hash(v)
-        if x not in partition:
-            partition[x] = []
-        partition[x].append(i)
+        if v not in partition:
+            partition[v] = []
+        partition[v].append(i)
     return list(partition.values())
 
 def partition_finite_real_contiguous(x):
-- 
2.43.0


From 5a8458743eaac92c2865d369c46b0d45201fbf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:18 +0000
Subject: [PATCH 33/58] fix: conditioning discrete distributions on sets with
 fractional points

---
 src/spe.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/spe.py b/src/spe.py
index b277f0a..b2710a9 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -9,6 +9,7 @@ from functools import reduce
 from inspect import getfullargspec
 from itertools import chain
 from math import exp
+from math import floor
 from math import log
 
 from .dnf import dnf_factor
@@ -782,7 +783,11 @@ class RealLeaf(LeafSPE):
             # Isolated points have probability zero.
             if not isinstance(self, DiscreteLeaf):
                 return []
-            blocks = partition_finite_real_contiguous(values)
+            # So do fractional numbers under a discrete distribution.
+            integers = [int(v) for v in values if v == floor(v)]
+            if not integers:
+                return []
+            blocks = partition_finite_real_contiguous(FiniteReal(*integers))
             return [Range(min(v), max(v)) for v in blocks]
         if isinstance(values, Union):
             subvalues = (self.flatten_values_contiguous(v) for v in values)
-- 
2.43.0


From b2b4a1b7110467a8a059d63cb0203a3cdd84a9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:59 +0000
Subject: [PATCH 34/58] fix: probabilities and samples in the right tail of
 distributions

---
 src/spe.py | 60 +++++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 48 insertions(+), 12 deletions(-)

diff --git a/src/spe.py b/src/spe.py
index b2710a9..6e0a715 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -12,6 +12,8 @@ from math import exp
 from math import floor
 from math import log
 
+import numpy
+
 from .dnf import dnf_factor
 from .dnf import dnf_normalize
 from .dnf import dnf_to_disjoint_union
@@ -45,6 +47,9 @@ from .sets import Union
 
 inf = float('inf')
 
+# Cumulative probability beyond which the survival function is used.
+TAIL = 0.999
+
 def memoize(f):
     table = f.__name__.split('_')[0]
     def f_(*args):
@@ -733,17 +738,31 @@ class RealLeaf(LeafSPE):
         if self.conditioned:
             # XXX Method not guaranteed to be numerically stable, see e.g,.
             # https://www.iro.umontreal.ca/~lecuyer/myftp/papers/truncated-normal-book-chapter.pdf
-            # Also consider using CDF for left tail and SF for right tail.
-            # Example: X ~ N(0,1) can sample X | (X < -10) but not X | (X > 10).
+            # Uses the CDF in general and the SF for the right tail.
             u = random(prng).uniform(size=N)
-            u_interval = u*self.Fl + (1-u) * self.Fu
-            xs = self.dist.ppf(u_interval)
+            if self.Fl < TAIL:
+                u_interval = u*self.Fl + (1-u) * self.Fu
+                xs = self.dist.ppf(u_interval)
+            else:
+                u_interval = u*self.Sl + (1-u) * self.Su
+                xs = self.dist.isf(u_interval)
         else:
             # Simulation by vanilla inversion sampling.
             xs = self.dist.rvs(size=N, random_state=prng)
         # Wrap result in a dictionary.
         return [{self.symbol : x} for x in xs]
 
+    def logprob_range(self, xl, xu):
+        # Log probability of (xl, xu], ignoring any conditioning.
+        logFl = self.dist.logcdf(xl)
+        # Differences of cumulative probabilities near one are inaccurate.
+        if logFl > log(TAIL):
+            logSl = self.dist.logsf(xl)
+            logSu = self.dist.logsf(xu)
+            if logSu < logSl:
+                return logdiffexp(logSl, logSu)
+        return logdiffexp(self.dist.logcdf(xu), logFl)
+
     def logcdf(self, x):
         if not self.conditioned:
             return self.dist.logcdf(x)
@@ -857,15 +876,17 @@ class ContinuousLeaf(RealLeaf):
         if conditioned:
             self.Fl = self.dist.cdf(self.xl)
             self.Fu = self.dist.cdf(self.xu)
+            self.Sl = self.dist.sf(self.xl)
+            self.Su = self.dist.sf(self.xu)
             self.logFl = self.dist.logcdf(self.xl)
             self.logFu = self.dist.logcdf(self.xu)
-            self.logZ = logdiffexp(self.logFu, self.logFl)
+            self.logZ = self.logprob_range(self.xl, self.xu)
         else:
             self.logFl = -inf
             self.logFu = 0
             self.Fl = 0
             self.Fu = 1
-            self.logZ = 1
+            self.logZ = 0
 
     def logpdf__(self, x):
         if isinstance(x, str):
@@ -883,9 +904,7 @@ class ContinuousLeaf(RealLeaf):
     def logprob_interval__(self, values):
         xl = float(values.left)
         xu = float(values.right)
-        logFl = self.logcdf(xl)
-        logFu = self.logcdf(xu)
-        return logdiffexp(logFu, logFl)
+        return self.logprob_range(xl, xu) - self.logZ
 
 # ==============================================================================
 # Discrete RealLeaf.
@@ -900,15 +919,17 @@ class DiscreteLeaf(RealLeaf):
         if conditioned:
             self.Fl = self.dist.cdf(self.xl - 1)
             self.Fu = self.dist.cdf(self.xu)
+            self.Sl = self.dist.sf(self.xl - 1)
+            self.Su = self.dist.sf(self.xu)
             self.logFl = self.dist.logcdf(self.xl - 1)
             self.logFu = self.dist.logcdf(self.xu)
-            self.logZ = logdiffexp(self.logFu, self.logFl)
+            self.logZ = self.logprob_range(self.xl - 1, self.xu)
         else:
             self.logFl = -inf
             self.logFu = 0
             self.Fl = 0
             self.Fu = 1
-            self.logZ = 1
+            self.logZ = 0
 
     def logpdf__(self, x):
         if isinstance(x, str):
@@ -920,6 +941,21 @@ class DiscreteLeaf(RealLeaf):
             return -inf
         return self.dist.logpmf(xf) - self.logZ
 
+    def sample__(self, N, prng):
+        # Inversion cannot resolve the atoms far in the right tail.
+        if self.conditioned and self.Sl < 1 - TAIL \
+                and (self.Sl < 1e-9 or self.xu - self.xl < 64):
+            xs = numpy.arange(self.xl, min(self.xu, self.xl + 1000) + 1)
+            samples = logflip(self.dist.logpmf(xs), xs, N, prng)
+            return [{self.symbol : x} for x in samples]
+        return super().sample__(N, prng)
+
+    def logprob_range(self, xl, xu):
+        # Few atoms in the right tail are summed directly.
+        if 0 < xu - xl < 64 and self.dist.logcdf(xl) > log(TAIL):
+            return logsumexp(self.dist.logpmf(numpy.arange(xl + 1, xu + 1)))
+        return super().logprob_range(xl, xu)
+
     def logprob_finite__(self, values):
         logps = [self.logpdf__(x) for x in values]
         return logps[0] if len(logps) == 1 else logsumexp(logps)
@@ -927,7 +963,7 @@ class DiscreteLeaf(RealLeaf):
         (xl, xu) = integer_bounds(values)
         if xu < xl:
             return -inf
-        return logdiffexp(self.logcdf(xu), self.logcdf(xl - 1))
+        return self.logprob_range(xl - 1, xu) - self.logZ
 
 # ==============================================================================
 # Atomic RealLeaf.
-- 
2.43.0


From 02653042741ade4b2993816eeac700202dc14ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:46 +0000
Subject: [PATCH 35/58] fix: densities, constraints and equality of atomic
 leaves, and derived variables of constrained leaves

---
 src/spe.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/spe.py b/src/spe.py
index 6e0a715..6f3f266 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -846,7 +846,7 @@ class RealLeaf(LeafSPE):
 
     def constrain__(self, x):
         assert not isinf_neg(self.logpdf__(x))
-        return AtomicLeaf(self.symbol, x)
+        return AtomicLeaf(self.symbol, x, self.env)
 
     def __hash__(self):
         d = (self.dist.dist.name, self.dist.args, tuple(self.dist.kwds.items()))
@@ -991,16 +991,23 @@ class AtomicLeaf(LeafSPE):
         return 0 if self.value in interval else -inf
     def condition__(self, event):
         interval = event.solve()
-        assert self.value in interval, 'Measure zero condition %s' % (event,)
+        if self.value not in interval:
+            raise ValueError('Zero probability condition %s' % (event,))
+        return self
+    def logpdf__(self, x):
+        return 0 if x == self.value else -inf
+    def constrain__(self, x):
+        assert not isinf_neg(self.logpdf__(x))
         return self
 
     def __hash__(self):
-        x = (self.__class__, self.symbol, self.value)
+        x = (self.__class__, self.symbol, self.value, tuple(self.env.items()))
         return hash(x)
     def __eq__(self, x):
         return isinstance(x, type(self)) \
             and self.symbol == x.symbol \
-            and self.value == x.value
+            and self.value == x.value \
+            and self.env == x.env
 
 # ==============================================================================
 # Nominal distribution.
-- 
2.43.0


From 00fed53918ba4012b2bf75af71b6cc1840a80791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:46 +0000
Subject: [PATCH 36/58] fix: density of nominal outcomes with weight zero

---
 src/spe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spe.py b/src/spe.py
index 6f3f266..653af06 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -1028,9 +1028,9 @@ class NominalLeaf(LeafSPE):
         assert allclose(float(sum(self.weights)),  1)
 
     def logpdf__(self, x):
-        if x not in self.dist:
+        w = self.dist.get(x, 0)
+        if w == 0:
             return -inf
-        w = self.dist[x]
         return log(w.numerator) - log(w.denominator)
 
     def transform(self, symbol, expr):
-- 
2.43.0


From 667c2f84ec436f04bb86977fe1bace25ec63c0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:32 +0000
Subject: [PATCH 37/58] fix: sampling from binomial and hypergeometric
 distributions

---
 src/distributions.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/distributions.py b/src/distributions.py
index d1816f0..c748fc3 100644
--- a/src/distributions.py
+++ b/src/distributions.py
@@ -602,6 +602,12 @@ from .spe import DiscreteLeaf
 
 class DiscreteReal(RealDistribution):
     constructor = DiscreteLeaf
+    integral = () # Parameters that must have integer type for sampling.
+    def __init__(self, *args, **kwargs):
+        super().__init__(*args, **kwargs)
+        for k in self.integral:
+            if k in self.kwargs and self.kwargs[k] == int(self.kwargs[k]):
+                self.kwargs[k] = int(self.kwargs[k])
 
 class bernoulli(DiscreteReal):
     """A Bernoulli discrete random variable."""
@@ -611,11 +617,13 @@ class bernoulli(DiscreteReal):
 class betabinom(DiscreteReal):
     """A beta-binomial discrete random variable."""
     dist = scipy.stats.betabinom
+    integral = ('n',)
     def get_domain(self): return Range(0, self.kwargs['n'])
 
 class binom(DiscreteReal):
     """A binomial discrete random variable."""
     dist = scipy.stats.binom
+    integral = ('n',)
     def get_domain(self): return Range(0, self.kwargs['n'])
 
 class boltzmann(DiscreteReal):
@@ -636,6 +644,7 @@ class geom(DiscreteReal):
 class hypergeom(DiscreteReal):
     """A hypergeometric discrete random variable."""
     dist = scipy.stats.hypergeom
+    integral = ('M', 'n', 'N')
     def get_domain(self):
         low = max(0, self.kwargs['N'], self.kwargs['N']-self.kwargs['M']+self.kwargs['n'])
         high = min(self.kwargs['n'], self.kwargs['N'])
-- 
2.43.0


From 39db20c40a9974d644a179137faed2b296f308d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:32 +0000
Subject: [PATCH 38/58] fix: samples of mixtures are independent draws

---
 src/spe.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spe.py b/src/spe.py
index 653af06..d151e2d 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -252,9 +252,9 @@ class SumSPE(BranchSPE):
     def sample_many(self, func, N, prng=None):
         selections = logflip(self.weights, self.indexes, N, prng)
         counts = Counter(selections)
-        samples = [func(i, counts[i]) for i in counts]
-        random(prng).shuffle(samples)
-        return list(chain.from_iterable(samples))
+        # Each draw comes from its own selection, so that draws are independent.
+        samples = {i: iter(func(i, counts[i])) for i in counts}
+        return [next(samples[i]) for i in selections]
 
     def transform(self, symbol, expr):
         children = [spe.transform(symbol, expr) for spe in self.children]
-- 
2.43.0


From d7a5cce6af8042f93a1c8b1181869d75c20205b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 39/58] fix: sampling subsets of independent variables

---
 src/spe.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/spe.py b/src/spe.py
index d151e2d..15e729d 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -457,10 +457,12 @@ class ProductSPE(BranchSPE):
             if key not in index_to_symbols:
                 index_to_symbols[key] = []
             index_to_symbols[key].append(symbol)
-        # Obtain the samples.
+        if not index_to_symbols:
+            return [{} for _i in range(N)]
+        # Obtain the samples, in an order that does not depend on hashing.
         samples = [
             self.children[i].sample_subset(symbols_i, N, prng=prng)
-            for i, symbols_i in index_to_symbols.items()
+            for i, symbols_i in sorted(index_to_symbols.items())
         ]
         # Merge the samples.
         return merge_samples(samples)
-- 
2.43.0


From 67db6e75f4c4a9e6c2f7bdb2bcff0bdab1b30d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 40/58] fix: bounds of discrete distributions beyond machine
 integers

---
 src/spe.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/spe.py b/src/spe.py
index 15e729d..6b2bbd0 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -919,12 +919,13 @@ class DiscreteLeaf(RealLeaf):
         (self.xl, self.xu) = integer_bounds(support)
         assert self.xl <= self.xu
         if conditioned:
-            self.Fl = self.dist.cdf(self.xl - 1)
-            self.Fu = self.dist.cdf(self.xu)
-            self.Sl = self.dist.sf(self.xl - 1)
-            self.Su = self.dist.sf(self.xu)
-            self.logFl = self.dist.logcdf(self.xl - 1)
-            self.logFu = self.dist.logcdf(self.xu)
+            (xl, xu) = (float(self.xl - 1), float(self.xu))
+            self.Fl = self.dist.cdf(xl)
+            self.Fu = self.dist.cdf(xu)
+            self.Sl = self.dist.sf(xl)
+            self.Su = self.dist.sf(xu)
+            self.logFl = self.dist.logcdf(xl)
+            self.logFu = self.dist.logcdf(xu)
             self.logZ = self.logprob_range(self.xl - 1, self.xu)
         else:
             self.logFl = -inf
@@ -954,9 +955,11 @@ class DiscreteLeaf(RealLeaf):
 
     def logprob_range(self, xl, xu):
         # Few atoms in the right tail are summed directly.
-        if 0 < xu - xl < 64 and self.dist.logcdf(xl) > log(TAIL):
-            return logsumexp(self.dist.logpmf(numpy.arange(xl + 1, xu + 1)))
-        return super().logprob_range(xl, xu)
+        if 0 < xu - xl < 64 and self.dist.logcdf(float(xl)) > log(TAIL):
+            xs = [float(x) for x in range(xl + 1, xu + 1)]
+            return logsumexp(self.dist.logpmf(xs))
+        # SciPy does not support integers beyond the machine range.
+        return super().logprob_range(float(xl), float(xu))
 
     def logprob_finite__(self, values):
         logps = [self.logpdf__(x) for x in values]
-- 
2.43.0


From 5853c7b8405b589345399ab8caa0c499e7eda22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:10 +0000
Subject: [PATCH 41/58] fix: memo tables identify models beyond their lifetime

---
 src/spe.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/spe.py b/src/spe.py
index 6b2bbd0..5f92e99 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -63,6 +63,17 @@ def memoize(f):
         return m[key]
     return f_
 
+class ByIdentity():
+    # Key for an object by its identity.  Unlike its id, which may be reused
+    # by another object, it keeps the object alive as long as the key exists.
+    __slots__ = ('x',)
+    def __init__(self, x):
+        self.x = x
+    def __hash__(self):
+        return id(self.x)
+    def __eq__(self, other):
+        return isinstance(other, ByIdentity) and self.x is other.x
+
 # ==============================================================================
 # SPE (base class).
 
@@ -151,7 +162,7 @@ class SPE():
         return NotImplemented
 
     def get_memo_key(self, event_factor):
-        x = id(self)
+        x = ByIdentity(self)
         y = tuple(event_factor.items()) \
                 if isinstance(event_factor, dict) \
                 else tuple(tuple(d.items()) for d in event_factor)
-- 
2.43.0


From 49d9591e1a354cb92760c855fd98066931a06c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:28 +0000
Subject: [PATCH 42/58] fix: equality and hashing of tables, keyword parameters
 and outcomes

---
 src/spe.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/spe.py b/src/spe.py
index 5f92e99..c1976d6 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -861,17 +861,22 @@ class RealLeaf(LeafSPE):
         assert not isinf_neg(self.logpdf__(x))
         return AtomicLeaf(self.symbol, x, self.env)
 
+    def dist_key(self):
+        # Name and parameters; tables are not among the parameters in SciPy.
+        dist = self.dist.dist
+        table = (tuple(dist.xk), tuple(dist.pk)) if hasattr(dist, 'xk') else ()
+        kwds = frozenset(self.dist.kwds.items())
+        return (dist.name, self.dist.args, kwds, table)
+
     def __hash__(self):
-        d = (self.dist.dist.name, self.dist.args, tuple(self.dist.kwds.items()))
         e = tuple(self.env.items())
-        x = (self.__class__, self.symbol, d, self.support, self.conditioned, e)
+        x = (self.__class__, self.symbol, self.dist_key(), self.support,
+            self.conditioned, e)
         return hash(x)
     def __eq__(self, x):
         return isinstance(x, type(self)) \
             and self.symbol == x.symbol \
-            and self.dist.dist.name == x.dist.dist.name \
-            and self.dist.args == x.dist.args \
-            and self.dist.kwds == x.dist.kwds \
+            and self.dist_key() == x.dist_key() \
             and self.support == x.support \
             and self.conditioned == x.conditioned \
             and self.env == x.env
@@ -1017,7 +1022,7 @@ class AtomicLeaf(LeafSPE):
         return self
 
     def __hash__(self):
-        x = (self.__class__, self.symbol, self.value, tuple(self.env.items()))
+        x = (self.__class__, self.symbol, self.support, tuple(self.env.items()))
         return hash(x)
     def __eq__(self, x):
         return isinstance(x, type(self)) \
@@ -1088,7 +1093,7 @@ class NominalLeaf(LeafSPE):
         return NominalLeaf(self.symbol, {x: 1})
 
     def __hash__(self):
-        x = (self.__class__, self.symbol, tuple(self.dist.items()))
+        x = (self.__class__, self.symbol, frozenset(self.dist.items()))
         return hash(x)
     def __eq__(self, x):
         return isinstance(x, type(self)) \
-- 
2.43.0


From 339b6920f30f8eea153fabdd494b5cac5251c529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:41 +0000
Subject: [PATCH 43/58] fix: simplification of mixtures of leaves and products

---
 src/spe.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/spe.py b/src/spe.py
index c1976d6..7490a46 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -379,11 +379,10 @@ class PartialSumSPE(SPE):
         return NotImplemented
 
 def spe_simplify_sum(spe):
-    if isinstance(spe.children[0], LeafSPE):
+    if all(isinstance(c, LeafSPE) for c in spe.children):
         return spe_simplify_sum_leaf(spe)
-    if isinstance(spe.children[0], ProductSPE):
-        return spe_simplify_sum_product(spe)
-    assert False, 'Invalid children of SumSPE: %s' % (spe.children,)
+    # Leaves with environments may be mixed with products.
+    return spe_simplify_sum_product(spe)
 
 def spe_simplify_sum_leaf(spe):
     assert all(isinstance(c, LeafSPE) for c in spe.children)
-- 
2.43.0


From 6ecfa3a651a3aecce450db652915bec4bb66a576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:10 +0000
Subject: [PATCH 44/58] fix: hashes of expressions with equal numbers of
 different types

---
 src/transforms.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/transforms.py b/src/transforms.py
index 6f7639e..1a1d14d 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -499,7 +499,7 @@ class Exponential(Injective):
             return 'exp(%s)' % (str(self.subexpr),)
         return '%s**(%s)' % (self.base, str(self.subexpr))
     def __hash__(self):
-        x = (self.__class__, self.subexpr, self.base)
+        x = (self.__class__, self.subexpr, hash_number(self.base))
         return hash(x)
 
 class Logarithm(Injective):
@@ -542,7 +542,7 @@ class Logarithm(Injective):
             return 'log2(%s)' % (str(self.subexpr),)
         return 'log(%s; %s)' % (str(self.subexpr), self.base)
     def __hash__(self):
-        x = (self.__class__, self.subexpr, self.base)
+        x = (self.__class__, self.subexpr, hash_number(self.base))
         return hash(x)
 
 # ==============================================================================
@@ -716,7 +716,8 @@ class Poly(Transform):
         terms = [term_to_str(i, c)  for i, c in enumerate(self.coeffs)]
         return ' + '.join([t for t in terms if t])
     def __hash__(self):
-        x = (self.__class__, self.subexpr, self.coeffs)
+        coeffs = tuple(hash_number(c) for c in self.coeffs)
+        x = (self.__class__, self.subexpr, coeffs)
         return hash(x)
 
 # ==============================================================================
@@ -1266,6 +1267,12 @@ def exact_log(y, base):
             return k
     return x
 
+def hash_number(x):
+    # Equal numbers of different types need not have equal hashes.
+    if isinstance(x, sympy.Basic):
+        return hash(int(x) if x.is_Integer else float(x))
+    return hash(x)
+
 def make_sympy_polynomial(coeffs):
     terms = [c*symX**i for (i,c) in enumerate(coeffs)]
     return sympy.Add(*terms)
-- 
2.43.0


From fcbec1767665f48d1e95803f8b3175757971685c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:12 +0000
Subject: [PATCH 45/58] fix: supports of distributions follow their parameters

---
 src/distributions.py | 192 +++++++++----------------------------------
 1 file changed, 41 insertions(+), 151 deletions(-)

diff --git a/src/distributions.py b/src/distributions.py
index c748fc3..45dde0f 100644
--- a/src/distributions.py
+++ b/src/distributions.py
@@ -1,6 +1,9 @@
 # Copyright 2020 MIT Probabilistic Computing Project.
 # See LICENSE.txt
 
+from collections import OrderedDict
+from math import isinf
+
 import scipy.stats
 import sympy
 
@@ -39,6 +42,9 @@ class RealDistribution(Distribution):
     def __call__(self, symbol):
         domain = self.get_domain()
         return self.constructor(symbol, self.dist(**self.kwargs), domain)
+    def get_support(self):
+        # Ends of the support, given all parameters.
+        return self.dist(**self.kwargs).support()
     def get_domain(self):
         raise NotImplementedError()
 
@@ -67,539 +73,423 @@ class DistributionMix():
 # ContinuousReal
 
 from .sets import Interval
-from .sets import Reals
-from .sets import RealsNeg
-from .sets import RealsPos
-from .sets import inf as oo
 from .spe import ContinuousLeaf
 
-def RealsPosLoc(kwargs):
-    if 'loc' in kwargs:
-        return Interval(kwargs['loc'], oo)
-    return RealsPos
-
-def UnitIntervalLocScale(kwargs):
-    loc = kwargs.get('loc', 0)
-    scale = kwargs.get('scale', 1)
-    return Interval(loc, loc + scale)
-
 class ContinuousReal(RealDistribution):
     constructor = ContinuousLeaf
+    def get_domain(self):
+        (a, b) = self.get_support()
+        return Interval(float(a), float(b))
 
 class alpha(ContinuousReal):
     """An alpha continuous random variable."""
     dist = scipy.stats.alpha
-    def get_domain(self): return RealsPosLoc(self.kwargs)
 
 class anglit(ContinuousReal):
     """An anglit continuous random variable."""
     dist = scipy.stats.anglit
-    def get_domain(self): return Interval(-sympy.pi/4, sympy.pi/4)
 
 class arcsine(ContinuousReal):
     """An arcsine continuous random variable."""
     dist = scipy.stats.arcsine
-    def get_domain(self): return UnitIntervalLocScale(self.kwargs)
 
 class argus(ContinuousReal):
     """Argus distribution"""
     dist = scipy.stats.argus
-    def get_domain(self): return UnitIntervalLocScale(self.kwargs)
 
 class beta(ContinuousReal):
     """A beta continuous random variable."""
     dist = scipy.stats.beta
-    def get_domain(self): return UnitIntervalLocScale(self.kwargs)
 
 class betaprime(ContinuousReal):
     """A beta prime continuous random variable."""
     dist = scipy.stats.betaprime
-    def get_domain(self): return RealsPosLoc(self.kwargs)
 
 class bradford(ContinuousReal):
     """A Bradford continuous random variable."""
     dist = scipy.stats.bradford
-    def get_domain(self): return UnitIntervalLocScale(self.kwargs)
 
 class burr(ContinuousReal):
     """A Burr (Type III) continuous random variable."""
     dist = scipy.stats.burr
-    def get_domain(self): return RealsPosLoc(self.kwargs)
 
 class burr12(ContinuousReal):
     """A Burr (Type XII) continuous random variable."""
     dist = scipy.stats.burr12
-    def get_domain(self): return RealsPosLoc(self.kwargs)
 
 class cauchy(ContinuousReal):
     """A Cauchy continuous random variable."""
     dist = scipy.stats.cauchy
-    def get_domain(self): return Reals
 
 class chi(ContinuousReal):
     """A chi continuous random variable."""
     dist = scipy.stats.chi
-    def get_domain(self): return RealsPosLoc(self.kwargs)
 
 class chi2(ContinuousReal):
     """A chi-squared continuous random variable."""
     dist = scipy.stats.chi2
-    def get_domain(self): return RealsPosLoc(self.kwargs)
 
 class cosine(ContinuousReal):
     """A cosine continuous random variable."""
     dist = scipy.stats.cosine
-    def get_domain(self): return Interval(-sympy.pi/2, sympy.pi/2)
 
 class crystalball(ContinuousReal):
     """Crystalball distribution."""
     dist = scipy.stats.crystalball
-    def get_domain(self): return Reals
 
 class dgamma(ContinuousReal):
     """A double gamma continuous random variable."""
     dist = scipy.stats.dgamma
-    def get_domain(self): return Reals
 
 class dweibull(ContinuousReal):
     """A double Weibull continuous random variable."""
     dist = scipy.stats.dweibull
-    def get_domain(self): return Reals
 
 class erlang(ContinuousReal):
     """An Erlang continuous random variable."""
     dist = scipy.stats.erlang
-    def get_domain(self): return RealsPosLoc(self.kwargs)
 
 class expon(ContinuousReal):
     """An exponential continuous random variable."""
     dist = scipy.stats.expon
-    def get_domain(self): return RealsPosLoc(self.kwargs)
 
 class exponnorm(ContinuousReal):
     """An exponentially modified normal continuous random variable."""
     dist = scipy.stats.exponnorm
-    def get_domain(self): return Reals
 
 class exponweib(ContinuousReal):
     """An exponentiated Weibull continuous random variable."""
     dist = scipy.stats.exponweib
-    def get_domain(self): return RealsPosLoc(self.kwargs)
 
 class exponpow(ContinuousReal):
     """An exponential power continuous random variable."""
     dist = scipy.stats.exponpow
-    def get_domain(self): return RealsPosLoc(self.kwargs)
 
 class f(ContinuousReal):
     """An F continuous random variable."""
     dist = scipy.stats.f
-    def get_domain(self): return RealsPosLoc(self.kwargs)
 
 class fatiguelife(ContinuousReal):
     """A fatigue-life (Birnbaum-Saunders) continuous random variable."""
     dist = scipy.stats.fatiguelife
-    def get_domain(self): return RealsPosLoc(self.kwargs)
 
 class fisk(ContinuousReal):
     """A Fisk continuous random variable."""
     dist = scipy.stats.fisk
-    def get_domain(self): return RealsPosLoc(self.kwargs)
 
 class foldcauchy(ContinuousReal):
     """A folded Cauchy continuous random variable."""
     dist = scipy.stats.foldcauchy
-    def get_domain(self): return RealsPosLoc(self.kwargs)
 
 class foldnorm(ContinuousReal):
     """A folded normal continuous random variable."""
     dist = scipy.stats.foldnorm
-    def get_domain(self): return RealsPosLoc(self.kwargs)
 
 class genlogistic(ContinuousReal):
     """A generalized logistic continuous random variable."""
     dist = scipy.stats.genlogistic
-    def get_domain(self): return RealsPosLoc(self.kwargs)
 
 class gennorm(ContinuousReal):
     """A generalized normal continuous random variable."""
     dist = scipy.stats.gennorm
-    def get_domain(self): return Reals
 
 class genpareto(ContinuousReal):
     """A generalized Pareto continuous random variable."""
     dist = scipy.stats.genpareto
-    def get_domain(self): return RealsPosLoc(self.kwargs)
 
 class genexpon(ContinuousReal):
     """A generalized exponential continuous random variable."""
     dist = scipy.stats.genexpon
-    def get_domain(self): return RealsPosLoc(self.kwargs)
 
 class genextreme(ContinuousReal):
     """A generalized extreme value continuous random variable."""
     dist = scipy.stats.genextreme
-    def get_domain(self):
-        c = self.kwargs['c']
-        if c == 0:
-            return Reals
-        elif c > 0:
-            return Interval(-oo, 1/c)
-        elif c < 0:
-            return Interval(1/c, oo)
-        assert False, 'Bad argument "c" for genextreme: %s' % (self.kwargs,)
 
 class gausshyper(ContinuousReal):
     """A Gauss hypergeometric continuous random variable."""
     dist = scipy.stats.gausshyper
-    def get_domain(self): return UnitIntervalLocScale(self.kwargs)
 
 class gamma(ContinuousReal):
     """A gamma continuous random variable."""
     dist = scipy.stats.gamma
-    def get_domain(self): return RealsPosLoc(self.kwargs)
 
 class gengamma(ContinuousReal):
     """A generalized gamma continuous random variable."""
     dist = scipy.stats.gengamma
-    def get_domain(self): return RealsPosLoc(self.kwargs)
 
 class genhalflogistic(ContinuousReal):
     """A generalized half-logistic continuous random variable."""
     dist = scipy.stats.genhalflogistic
-    def get_domain(self):
-        assert self.kwargs['c'] > 0
-        return Interval(0, 1./self.kwargs['c'])
 
 class geninvgauss(ContinuousReal):
     """A Generalized Inverse Gaussian continuous random variable."""
     dist = scipy.stats.geninvgauss
-    def get_domain(self): return RealsPosLoc(self.kwargs)
 
 class gilbrat(ContinuousReal):
     """A Gilbrat continuous random variable."""
     dist = scipy.stats.gilbrat
-    def get_domain(self): return RealsPosLoc(self.kwargs)
 
 class gompertz(ContinuousReal):
     """A Gompertz (or truncated Gumbel) continuous random variable."""
     dist = scipy.stats.gompertz
-    def get_domain(self): return RealsPosLoc(self.kwargs)
 
 class gumbel_r(ContinuousReal):
     """A right-skewed Gumbel continuous random variable."""
     dist = scipy.stats.gumbel_r
-    def get_domain(self): return Reals
 
 class gumbel_l(ContinuousReal):
     """A left-skewed Gumbel continuous random variable."""
     dist = scipy.stats.gumbel_l
-    def get_domain(self): return RealsPosLoc(self.kwargs)
 
 class halfcauchy(ContinuousReal):
     """A Half-Cauchy continuous random variable."""
     dist = scipy.stats.halfcauchy
-    def get_domain(self): return RealsPosLoc(self.kwargs)
 
 class halflogistic(ContinuousReal):
     """A half-logistic continuous random variable."""
     dist = scipy.stats.halflogistic
-    def get_domain(self): return RealsPosLoc(self.kwargs)
 
 class halfnorm(ContinuousReal):
     """A half-normal continuous random variable."""
     dist = scipy.stats.halfnorm
-    def get_domain(self): return RealsPosLoc(self.kwargs)
 
 class halfgennorm(ContinuousReal):
     """The upper half of a generalized normal continuous random variable."""
     dist = scipy.stats.halfgennorm
-    def get_domain(self): return RealsPosLoc(self.kwargs)
 
 class hypsecant(ContinuousReal):
     """A hyperbolic secant continuous random variable."""
     dist = scipy.stats.hypsecant
-    def get_domain(self): return Reals
 
 class invgamma(ContinuousReal):
     """An inverted gamma continuous random variable."""
     dist = scipy.stats.invgamma
-    def get_domain(self): return RealsPosLoc(self.kwargs)
 
 class invgauss(ContinuousReal):
     """An inverse Gaussian continuous random variable."""
     dist = scipy.stats.invgauss
-    def get_domain(self): return RealsPosLoc(self.kwargs)
 
 class invweibull(ContinuousReal):
     """An inverted Weibull continuous random variable."""
     dist = scipy.stats.invweibull
-    def get_domain(self): return RealsPosLoc(self.kwargs)
 
 class johnsonsb(ContinuousReal):
     """A Johnson SB continuous random variable."""
     dist = scipy.stats.johnsonsb
-    def get_domain(self): return UnitIntervalLocScale(self.kwargs)
 
 class johnsonsu(ContinuousReal):
     """A Johnson SU continuous random variable."""
     dist = scipy.stats.johnsonsu
-    def get_domain(self): return Reals
 
 class kappa4(ContinuousReal):
     """Kappa 4 parameter distribution."""
     dist = scipy.stats.kappa4
-    def get_domain(self): return Reals
 
 class kappa3(ContinuousReal):
     """Kappa 3 parameter distribution."""
     dist = scipy.stats.kappa3
-    def get_domain(self): return RealsPosLoc(self.kwargs)
 
 class ksone(ContinuousReal):
     """General Kolmogorov-Smirnov one-sided test."""
     dist = scipy.stats.ksone
-    def get_domain(self): return UnitIntervalLocScale(self.kwargs)
 
 class kstwobign(ContinuousReal):
     """Kolmogorov-Smirnov two-sided test for large N."""
     dist = scipy.stats.kstwobign
-    def get_domain(self): return Interval(0, sympy.sqrt(self.kwargs['n']))
 
 class laplace(ContinuousReal):
     """A Laplace continuous random variable."""
     dist = scipy.stats.laplace
-    def get_domain(self): return Reals
 
 class levy(ContinuousReal):
     """A Levy continuous random variable."""
     dist = scipy.stats.levy
-    def get_domain(self): return RealsPosLoc(self.kwargs)
 
 class levy_l(ContinuousReal):
     """A left-skewed Levy continuous random variable."""
     dist = scipy.stats.levy_l
-    def get_domain(self): return RealsNeg
 
 class levy_stable(ContinuousReal):
     """A Levy-stable continuous random variable."""
     dist = scipy.stats.levy_stable
-    def get_domain(self): return Reals
 
 class logistic(ContinuousReal):
     """A logistic (or Sech-squared) continuous random variable."""
     dist = scipy.stats.logistic
-    def get_domain(self): return Reals
 
 class loggamma(ContinuousReal):
     """A log gamma continuous random variable."""
     dist = scipy.stats.loggamma
-    def get_domain(self): return RealsNeg
 
 class loglaplace(ContinuousReal):
     """A log-Laplace continuous random variable."""
     dist = scipy.stats.loglaplace
-    def get_domain(self): return RealsPosLoc(self.kwargs)
 
 class lognorm(ContinuousReal):
     """A lognormal continuous random variable."""
     dist = scipy.stats.lognorm
-    def get_domain(self): return RealsPosLoc(self.kwargs)
 
 class loguniform(ContinuousReal):
     """A loguniform or reciprocal continuous random variable."""
     dist = scipy.stats.loguniform
-    def get_domain(self): return Interval(self.kwargs['a'], self.kwargs['b'])
 
 class lomax(ContinuousReal):
     """A Lomax (Pareto of the second kind) continuous random variable."""
     dist = scipy.stats.lomax
-    def get_domain(self): return RealsPosLoc(self.kwargs)
 
 class maxwell(ContinuousReal):
     """A Maxwell continuous random variable."""
     dist = scipy.stats.maxwell
-    def get_domain(self): return RealsPosLoc(self.kwargs)
 
 class mielke(ContinuousReal):
     """A Mielke Beta-Kappa / Dagum continuous random variable."""
     dist = scipy.stats.mielke
-    def get_domain(self): return RealsPosLoc(self.kwargs)
 
 class moyal(ContinuousReal):
     """A Moyal continuous random variable."""
     dist = scipy.stats.moyal
-    def get_domain(self): return Reals
 
 class nakagami(ContinuousReal):
     """A Nakagami continuous random variable."""
     dist = scipy.stats.nakagami
-    def get_domain(self): return RealsPosLoc(self.kwargs)
 
 class ncx2(ContinuousReal):
     """A non-central chi-squared continuous random variable."""
     dist = scipy.stats.ncx2
-    def get_domain(self): return RealsPosLoc(self.kwargs)
 
 class ncf(ContinuousReal):
     """A non-central F distribution continuous random variable."""
     dist = scipy.stats.ncf
-    def get_domain(self): return RealsPosLoc(self.kwargs)
 
 class nct(ContinuousReal):
     """A non-central Student’s t continuous random variable."""
     dist = scipy.stats.nct
-    def get_domain(self): return Reals
 
 class norm(ContinuousReal):
     """A normal continuous random variable."""
     dist = scipy.stats.norm
-    def get_domain(self): return Reals
 normal = norm
 
 class norminvgauss(ContinuousReal):
     """A normal Inverse Gaussian continuous random variable."""
     dist = scipy.stats.norminvgauss
-    def get_domain(self): return Reals
 
 class pareto(ContinuousReal):
     """A Pareto continuous random variable."""
     dist = scipy.stats.pareto
-    def get_domain(self): return Interval(1, oo)
 
 class pearson3(ContinuousReal):
     """A pearson type III continuous random variable."""
     dist = scipy.stats.pearson3
-    def get_domain(self): return Reals
 
 class powerlaw(ContinuousReal):
     """A power-function continuous random variable."""
     dist = scipy.stats.powerlaw
-    def get_domain(self): return UnitIntervalLocScale(self.kwargs)
 
 class powerlognorm(ContinuousReal):
     """A power log-normal continuous random variable."""
     dist = scipy.stats.powerlognorm
-    def get_domain(self): return RealsPosLoc(self.kwargs)
 
 class powernorm(ContinuousReal):
     """A power normal continuous random variable."""
     dist = scipy.stats.powernorm
-    def get_domain(self): return RealsPosLoc(self.kwargs)
 
 class rdist(ContinuousReal):
     """An R-distributed (symmetric beta) continuous random variable."""
     dist = scipy.stats.rdist
-    def get_domain(self): return Interval(-1, 1)
 
 class rayleigh(ContinuousReal):
     """A Rayleigh continuous random variable."""
     dist = scipy.stats.rayleigh
-    def get_domain(self): return RealsPosLoc(self.kwargs)
 
 class rice(ContinuousReal):
     """A Rice continuous random variable."""
     dist = scipy.stats.rice
-    def get_domain(self): return RealsPosLoc(self.kwargs)
 
 class recipinvgauss(ContinuousReal):
     """A reciprocal inverse Gaussian continuous random variable."""
     dist = scipy.stats.recipinvgauss
-    def get_domain(self): return RealsPosLoc(self.kwargs)
 
 class semicircular(ContinuousReal):
     """A semicircular continuous random variable."""
     dist = scipy.stats.semicircular
-    def get_domain(self): return Interval(-1, 1)
 
 class skewnorm(ContinuousReal):
     """A skew-normal random variable."""
     dist = scipy.stats.skewnorm
-    def get_domain(self): return Reals
 
 class t(ContinuousReal):
     """A Student’s t continuous random variable."""
     dist = scipy.stats.t
-    def get_domain(self): return Reals
 
 class trapz(ContinuousReal):
     """A trapezoidal continuous random variable."""
     dist = scipy.stats.trapz
-    def get_domain(self):
-        loc = self.kwargs.get('loc', 0)
-        scale = self.kwargs.get('scale', 1)
-        return Interval(loc, loc+scale)
 
 class triang(ContinuousReal):
     """A triangular continuous random variable."""
     dist = scipy.stats.triang
-    def get_domain(self):
-        loc = self.kwargs.get('loc', 0)
-        scale = self.kwargs.get('scale', 1)
-        return Interval(loc, loc+scale)
 
 class truncexpon(ContinuousReal):
     """A truncated exponential continuous random variable."""
     dist = scipy.stats.truncexpon
-    def get_domain(self): return Interval(0, self.kwargs['b'])
 
 class truncnorm(ContinuousReal):
     """A truncated normal continuous random variable."""
     dist = scipy.stats.truncnorm
-    def get_domain(self): return Interval(self.kwargs['a'], self.kwargs['b'])
 
 class tukeylambda(ContinuousReal):
     """A Tukey-Lamdba continuous random variable."""
     dist = scipy.stats.tukeylambda
-    def get_domain(self): return RealsPosLoc(self.kwargs)
 
 class uniform(ContinuousReal):
     """A uniform continuous random variable."""
     dist = scipy.stats.uniform
-    def get_domain(self):
-        loc = self.kwargs.get('loc', 0)
-        scale = self.kwargs.get('scale', 1)
-        return Interval(loc, loc + scale)
 
 class vonmises(ContinuousReal):
     """A Von Mises continuous random variable."""
     dist = scipy.stats.vonmises
-    def get_domain(self): return Interval(-sympy.pi, sympy.pi)
+    def get_domain(self):
+        # The support in SciPy is the real line.
+        loc = self.kwargs.get('loc', 0)
+        scale = self.kwargs.get('scale', 1)
+        return Interval(loc - scale * sympy.pi, loc + scale * sympy.pi)
 
 class vonmises_line(ContinuousReal):
     """A Von Mises continuous random variable."""
     dist = scipy.stats.vonmises_line
-    def get_domain(self): return Interval(-sympy.pi, sympy.pi)
 
 class wald(ContinuousReal):
     """A Wald continuous random variable."""
     dist = scipy.stats.wald
-    def get_domain(self): return RealsPosLoc(self.kwargs)
 
 class weibull_min(ContinuousReal):
     """Weibull minimum continuous random variable."""
     dist = scipy.stats.weibull_min
-    def get_domain(self): return RealsPosLoc(self.kwargs)
 
 class weibull_max(ContinuousReal):
     """Weibull maximum continuous random variable."""
     dist = scipy.stats.weibull_max
-    def get_domain(self): return RealsNeg
 
 class wrapcauchy(ContinuousReal):
     """A wrapped Cauchy continuous random variable."""
     dist = scipy.stats.wrapcauchy
-    def get_domain(self): return Interval(0, 2*sympy.pi)
 
 # ==============================================================================
 # DiscreteReal
 
-from .sets import Integers
-from .sets import IntegersPos
-from .sets import IntegersPos0
 from .sets import Range
+from .spe import AtomicLeaf
 from .spe import DiscreteLeaf
 
+def as_integer(x):
+    x = float(x)
+    if isinf(x):
+        return x
+    if x != int(x):
+        raise ValueError('Expected an integer outcome, not %s' % (x,))
+    return int(x)
+
 class DiscreteReal(RealDistribution):
     constructor = DiscreteLeaf
     integral = () # Parameters that must have integer type for sampling.
@@ -608,87 +498,71 @@ class DiscreteReal(RealDistribution):
         for k in self.integral:
             if k in self.kwargs and self.kwargs[k] == int(self.kwargs[k]):
                 self.kwargs[k] = int(self.kwargs[k])
+    def get_domain(self):
+        return Range(*[as_integer(x) for x in self.get_support()])
 
 class bernoulli(DiscreteReal):
     """A Bernoulli discrete random variable."""
     dist = scipy.stats.bernoulli
-    def get_domain(self): return Range(0, 1)
 
 class betabinom(DiscreteReal):
     """A beta-binomial discrete random variable."""
     dist = scipy.stats.betabinom
     integral = ('n',)
-    def get_domain(self): return Range(0, self.kwargs['n'])
 
 class binom(DiscreteReal):
     """A binomial discrete random variable."""
     dist = scipy.stats.binom
     integral = ('n',)
-    def get_domain(self): return Range(0, self.kwargs['n'])
 
 class boltzmann(DiscreteReal):
     """A Boltzmann (Truncated Discrete Exponential) random variable."""
     dist = scipy.stats.boltzmann
-    def get_domain(self): return Range(0, self.kwargs['N'])
 
 class dlaplace(DiscreteReal):
     """A Laplacian discrete random variable."""
     dist = scipy.stats.dlaplace
-    def get_domain(self): return Integers
 
 class geom(DiscreteReal):
     """A geometric discrete random variable."""
     dist = scipy.stats.geom
-    def get_domain(self): return Integers
 
 class hypergeom(DiscreteReal):
     """A hypergeometric discrete random variable."""
     dist = scipy.stats.hypergeom
     integral = ('M', 'n', 'N')
-    def get_domain(self):
-        low = max(0, self.kwargs['N'], self.kwargs['N']-self.kwargs['M']+self.kwargs['n'])
-        high = min(self.kwargs['n'], self.kwargs['N'])
-        return Range(low, high)
 
 class logser(DiscreteReal):
     """A Logarithmic (Log-Series, Series) discrete random variable."""
     dist = scipy.stats.logser
-    def get_domain(self): return IntegersPos
 
 class nbinom(DiscreteReal):
     """A negative binomial discrete random variable."""
     dist = scipy.stats.nbinom
-    def get_domain(self): return IntegersPos0
 
 class planck(DiscreteReal):
     """A Planck discrete exponential random variable."""
     dist = scipy.stats.planck
-    def get_domain(self): return IntegersPos0
 
 class poisson(DiscreteReal):
     """A Poisson discrete random variable."""
     dist = scipy.stats.poisson
-    def get_domain(self): return IntegersPos0
 
 class randint(DiscreteReal):
     """A uniform discrete random variable."""
     dist = scipy.stats.randint
-    def get_domain(self): return Interval.Ropen(self.kwargs['low'], self.kwargs['high'])
 
 class skellam(DiscreteReal):
     """A Skellam discrete random variable."""
     dist = scipy.stats.skellam
-    def get_domain(self): return Integers
 
 class zipf(DiscreteReal):
     """A Zipf discrete random variable."""
     dist = scipy.stats.zipf
-    def get_domain(self): return IntegersPos
 
 class yulesimon(DiscreteReal):
     """A Yule-Simon discrete random variable."""
     dist = scipy.stats.yulesimon
-    def get_domain(self): return IntegersPos
 
 class atomic(randint):
     """An atomic discrete random variable."""
@@ -697,10 +571,26 @@ class atomic(randint):
         kwargs['low'] = loc
         kwargs['high'] = loc + 1
         super().__init__(*args, **kwargs)
+    def __call__(self, symbol):
+        loc = self.kwargs['low']
+        return super().__call__(symbol) if loc == int(loc) \
+            else AtomicLeaf(symbol, loc)
 
 class rv_discrete(DiscreteReal):
     """A general discrete random variable."""
     dist = lambda self, **kwargs: scipy.stats.rv_discrete(**kwargs).freeze()
+    def __init__(self, *args, **kwargs):
+        # The outcomes must be integers and SciPy needs them to be distinct.
+        table = OrderedDict()
+        (xk, pk) = kwargs['values']
+        assert len(xk) == len(pk)
+        for x, p in zip(xk, pk):
+            x = as_integer(x)
+            table[x] = table.get(x, 0) + p
+        if any(p < 0 for p in table.values()):
+            raise ValueError('Negative probability in %s' % (kwargs['values'],))
+        kwargs['values'] = (tuple(table.keys()), tuple(table.values()))
+        super().__init__(*args, **kwargs)
     def get_domain(self):
         atoms = self.kwargs['values'][0]
         return Range(min(atoms), max(atoms))
-- 
2.43.0


From b9afba379c7b8c7c700b9b17a8b4a1cda6802b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:12 +0000
Subject: [PATCH 46/58] fix: conversion of tables, symbolic numbers and atoms
 to JSON

---
 src/compilers/spe_to_dict.py | 75 +++++++++++++++++++++++-------------
 src/math_util.py             |  8 ++++
 src/sets.py                  |  6 ++-
 src/transforms.py            |  9 +++--
 4 files changed, 65 insertions(+), 33 deletions(-)

diff --git a/src/compilers/spe_to_dict.py b/src/compilers/spe_to_dict.py
index 671648b..f9ecd44 100644
--- a/src/compilers/spe_to_dict.py
+++ b/src/compilers/spe_to_dict.py
@@ -3,41 +3,39 @@
 
 """Convert SPE to JSON friendly dictionary."""
 
+from collections import OrderedDict
 from fractions import Fraction
 
+import numpy
 import scipy.stats
-from sympy import E
-from sympy import sqrt
+import sympy
 
+from .. import sets
+from .. import transforms
+
+from ..math_util import repr_number
 from ..spe import AtomicLeaf
 from ..spe import ContinuousLeaf
 from ..spe import DiscreteLeaf
 from ..spe import NominalLeaf
 from ..spe import ProductSPE
 from ..spe import SumSPE
-
-# Needed for "eval"
-from ..sets import *
 from ..transforms import Id
-from ..transforms import Identity
-from ..transforms import Radical
-from ..transforms import Exponential
-from ..transforms import Logarithm
-from ..transforms import Abs
-from ..transforms import Reciprocal
-from ..transforms import Poly
-from ..transforms import Piecewise
-from ..transforms import EventInterval
-from ..transforms import EventFiniteReal
-from ..transforms import EventFiniteNominal
-from ..transforms import EventOr
-from ..transforms import EventAnd
+
+# Names for evaluating representations: symbolic numbers, sets, and transforms.
+NAMESPACE = {**vars(sympy), **vars(sets)}
+NAMESPACE.update({
+    k: v for k, v in vars(transforms).items()
+    if isinstance(v, type) and issubclass(v, transforms.Transform)
+})
+
+def evaluate(x):
+    return eval(x, dict(NAMESPACE))
 
 def env_from_dict(env):
     if env is None:
         return None
-    # Used in eval.
-    return {eval(k): eval(v) for k, v in env.items()}
+    return OrderedDict((evaluate(k), evaluate(v)) for k, v in env.items())
 
 def env_to_dict(env):
     if len(env) == 1:
@@ -45,16 +43,37 @@ def env_to_dict(env):
     return {repr(k): repr(v) for k, v in env.items()}
 
 def scipy_dist_from_dict(dist):
+    if dist['name'] == 'rv_discrete':
+        return scipy.stats.rv_discrete(**dist['kwds']).freeze()
     constructor = getattr(scipy.stats, dist['name'])
     return constructor(*dist['args'], **dist['kwds'])
 
 def scipy_dist_to_dict(dist):
+    # Tables are not among the parameters.
+    if hasattr(dist.dist, 'xk'):
+        assert not dist.args and not dist.kwds
+        values = [dist.dist.xk.tolist(), dist.dist.pk.tolist()]
+        return {'name': 'rv_discrete', 'args': (), 'kwds': {'values': values}}
     return {
         'name': dist.dist.name,
-        'args': dist.args,
-        'kwds': dist.kwds
+        'args': tuple(number_to_json(x) for x in dist.args),
+        'kwds': {k: number_to_json(x) for k, x in dist.kwds.items()}
     }
 
+def number_to_json(x):
+    # Symbolic and NumPy numbers are not serializable.
+    if isinstance(x, numpy.generic):
+        return x.item()
+    if isinstance(x, sympy.Basic):
+        return int(x) if x.is_Integer else float(x)
+    return x
+
+def value_to_json(x):
+    # Symbolic numbers are represented exactly.
+    if isinstance(x, sympy.Basic) and not x.is_Integer:
+        return repr_number(x)
+    return number_to_json(x)
+
 def spe_from_dict(metadata):
     if metadata['class'] == 'NominalLeaf':
         symbol = Id(metadata['symbol'])
@@ -62,20 +81,22 @@ def spe_from_dict(metadata):
         return NominalLeaf(symbol, dist)
     if metadata['class'] == 'AtomicLeaf':
         symbol = Id(metadata['symbol'])
-        value = float(metadata['value'])
+        value = metadata['value']
+        if isinstance(value, str):
+            value = evaluate(value)
         env = env_from_dict(metadata['env'])
         return AtomicLeaf(symbol, value, env=env)
     if metadata['class'] == 'ContinuousLeaf':
         symbol = Id(metadata['symbol'])
         dist = scipy_dist_from_dict(metadata['dist'])
-        support = eval(metadata['support'])
+        support = evaluate(metadata['support'])
         conditioned = metadata['conditioned']
         env = env_from_dict(metadata['env'])
         return ContinuousLeaf(symbol, dist, support, conditioned, env=env)
     if metadata['class'] == 'DiscreteLeaf':
         symbol = Id(metadata['symbol'])
         dist = scipy_dist_from_dict(metadata['dist'])
-        support = eval(metadata['support'])
+        support = evaluate(metadata['support'])
         conditioned = metadata['conditioned']
         env = env_from_dict(metadata['env'])
         return DiscreteLeaf(symbol, dist, support, conditioned, env=env)
@@ -104,7 +125,7 @@ def spe_to_dict(spe):
         return {
             'class'        : 'AtomicLeaf',
             'symbol'       : spe.symbol.token,
-            'value'        : spe.value,
+            'value'        : value_to_json(spe.value),
             'env'          : env_to_dict(spe.env),
         }
     if isinstance(spe, ContinuousLeaf):
@@ -129,7 +150,7 @@ def spe_to_dict(spe):
         return {
             'class'         : 'SumSPE',
             'children'      : [spe_to_dict(c) for c in spe.children],
-            'weights'       : spe.weights,
+            'weights'       : tuple(number_to_json(w) for w in spe.weights),
         }
     if isinstance(spe, ProductSPE):
         return {
diff --git a/src/math_util.py b/src/math_util.py
index c9ee8d9..efc6df2 100644
--- a/src/math_util.py
+++ b/src/math_util.py
@@ -6,6 +6,7 @@ from math import floor
 from math import isinf
 
 import numpy
+import sympy
 
 from scipy.special import logsumexp
 
@@ -52,6 +53,13 @@ def isinf_neg(x):
 def random(x):
     return x or numpy.random
 
+def repr_number(x):
+    # Symbolic numbers are not represented exactly by default, for example
+    # 1/3 evaluates to a float and floats have fifteen digits.
+    if isinstance(x, sympy.Basic) and not x.is_Integer:
+        return sympy.srepr(x)
+    return repr(x)
+
 int_or_isinf_neg = lambda a: isinf_neg(a) or float(a) == int(a)
 int_or_isinf_pos = lambda a: isinf_pos(a) or float(a) == int(a)
 
diff --git a/src/sets.py b/src/sets.py
index 2ab0ba3..c0d4bfa 100644
--- a/src/sets.py
+++ b/src/sets.py
@@ -9,6 +9,7 @@ from .math_util import int_or_isinf_neg
 from .math_util import int_or_isinf_pos
 from .math_util import isinf_neg
 from .math_util import isinf_pos
+from .math_util import repr_number
 
 inf = float('inf')
 oo = inf
@@ -169,7 +170,7 @@ class FiniteReal(Set):
         x = (self.__class__, frozenset(float(v) for v in self.values))
         return hash(x)
     def __repr__(self):
-        return 'FiniteReal(%s)' % (', '.join(repr(x) for x in self.values))
+        return 'FiniteReal(%s)' % (', '.join(repr_number(x) for x in self.values))
     def __str__(self):
         return str(set(self.values))
     def __len__(self):
@@ -266,7 +267,8 @@ class Interval(Set):
         return hash(x)
     def __repr__(self):
         return 'Interval(%s, %s, left_open=%s, right_open=%s)' \
-            % (repr(self.a), repr(self.b), repr(self.left_open), repr(self.right_open))
+            % (repr_number(self.a), repr_number(self.b),
+                repr(self.left_open), repr(self.right_open))
     def __str__(self):
         lp = '(' if self.left_open else '['
         rp = ')' if self.right_open else ']'
diff --git a/src/transforms.py b/src/transforms.py
index 1a1d14d..a14602a 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -16,6 +16,7 @@ from sympy.calculus.util import limit
 
 from .math_util import isinf_neg
 from .math_util import isinf_pos
+from .math_util import repr_number
 
 from .poly import solve_poly_equality
 from .poly import solve_poly_inequality
@@ -493,7 +494,7 @@ class Exponential(Injective):
             and self.base == x.base
     def __repr__(self):
         return 'Exponential(%s, base=%s)' \
-            % (repr(self.subexpr), repr(self.base),)
+            % (repr(self.subexpr), repr_number(self.base),)
     def __str__(self):
         if self.base == sympy.E:
             return 'exp(%s)' % (str(self.subexpr),)
@@ -534,7 +535,7 @@ class Logarithm(Injective):
             and self.base == x.base
     def __repr__(self):
         return 'Logarithm(%s, base=%s)' \
-            % (repr(self.subexpr), repr(self.base))
+            % (repr(self.subexpr), repr_number(self.base))
     def __str__(self):
         if self.base == sympy.E:
             return 'ln(%s)' % (str(self.subexpr),)
@@ -698,8 +699,8 @@ class Poly(Transform):
     def __neg__(self):
         return Poly(self.subexpr, [-c for c in self.coeffs])
     def __repr__(self):
-        return 'Poly(%s, coeffs=%s)' \
-            % (repr(self.subexpr), repr(self.coeffs))
+        coeffs = ', '.join(repr_number(c) for c in self.coeffs)
+        return 'Poly(%s, coeffs=(%s))' % (repr(self.subexpr), coeffs)
     def __str__(self):
         ss = str(self.subexpr)
         def term_to_str(i, c):
-- 
2.43.0


From 72c985b682168ff105c2672a14539348183f4869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:44 +0000
Subject: [PATCH 47/58] fix: rendering of expressions, tables, atoms and arrays
 as SPPL

---
 src/compilers/spe_to_sppl.py | 128 ++++++++++++++++++++++++++++++-----
 1 file changed, 111 insertions(+), 17 deletions(-)

diff --git a/src/compilers/spe_to_sppl.py b/src/compilers/spe_to_sppl.py
index d6714a0..7f835a6 100644
--- a/src/compilers/spe_to_sppl.py
+++ b/src/compilers/spe_to_sppl.py
@@ -3,9 +3,17 @@
 
 """Convert SPE to SPPL."""
 
+import re
+
 from io import StringIO
 from math import exp
 
+import sympy
+
+from .. import sets
+from .. import transforms
+
+from ..spe import AtomicLeaf
 from ..spe import RealLeaf
 from ..spe import NominalLeaf
 from ..spe import ProductSPE
@@ -15,15 +23,75 @@ get_indentation = lambda i: ' ' * i
 float_to_str = lambda x,fw: '%1.*f' % (fw, float(x)) if fw else str(x)
 class _SPPL_Render_State:
     def __init__(self, stream=None, branches=None, indentation=None,
-            fwidth=None):
+            fwidth=None, branch_prefix='branch_var_'):
         self.stream = stream or StringIO()
         self.branches = branches or []
         self.indentation = indentation or 0
         self.fwidth = fwidth
+        self.branch_prefix = branch_prefix
+def number_to_sppl(x):
+    if isinstance(x, sympy.Basic):
+        if x.is_Integer:
+            return str(x)
+        if not x.has(sympy.Float):
+            return 'sympify(%s)' % (repr(str(x)),)
+        x = float(x)
+    return repr(x)
+def set_to_sppl(x):
+    if isinstance(x, sets.Interval):
+        return 'Interval(%s, %s, left_open=%s, right_open=%s)' % (
+            number_to_sppl(x.a), number_to_sppl(x.b),
+            bool(x.left_open), bool(x.right_open))
+    if isinstance(x, sets.FiniteReal):
+        return 'FiniteReal(%s)' % (', '.join(number_to_sppl(v) for v in x),)
+    return repr(x)
+def expr_to_sppl(expr):
+    # Source code that evaluates to the expression.
+    name = type(expr).__name__
+    if isinstance(expr, transforms.Identity):
+        return expr.token
+    if isinstance(expr, (transforms.EventOr, transforms.EventAnd)):
+        subexprs = ', '.join(expr_to_sppl(e) for e in expr.subexprs)
+        return '%s([%s])' % (name, subexprs)
+    if isinstance(expr, transforms.Piecewise):
+        subexprs = ', '.join(expr_to_sppl(e) for e in expr.subexprs)
+        events = ', '.join(expr_to_sppl(e) for e in expr.events)
+        return '%s([%s], [%s])' % (name, subexprs, events)
+    subexpr = expr_to_sppl(expr.subexpr)
+    if isinstance(expr, transforms.EventBasic):
+        return '%s(%s, %s)' % (name, subexpr, set_to_sppl(expr.values))
+    if isinstance(expr, transforms.Poly):
+        coeffs = ', '.join(number_to_sppl(c) for c in expr.coeffs)
+        return '%s(%s, [%s])' % (name, subexpr, coeffs)
+    if isinstance(expr, transforms.Radical):
+        return '%s(%s, %s)' % (name, subexpr, number_to_sppl(expr.degree))
+    if isinstance(expr, (transforms.Exponential, transforms.Logarithm)):
+        return '%s(%s, %s)' % (name, subexpr, number_to_sppl(expr.base))
+    if isinstance(expr, (transforms.Abs, transforms.Reciprocal)):
+        return '%s(%s)' % (name, subexpr)
+    assert False, 'Unknown expression %s' % (expr,)
+def dist_to_sppl(dist, fwidth):
+    # Tables are not among the parameters.
+    if hasattr(dist.dist, 'xk'):
+        pairs = ', '.join('%d: %s' % (x, float_to_str(w, fwidth))
+            for x, w in zip(dist.dist.xk, dist.dist.pk))
+        return 'discrete({%s})' % (pairs,)
+    # Primitives have no positional parameters.
+    shapes = dist.dist.shapes.split(', ') if dist.dist.shapes else []
+    kwds = list(zip(shapes + ['loc', 'scale'], dist.args)) \
+        + list(dist.kwds.items())
+    kwds_str = ', '.join('%s=%s' % (k, float_to_str(v, fwidth)) for k, v in kwds)
+    return '%s(%s)' % (dist.dist.name, kwds_str)
+def render_sppl_env(spe, state):
+    idt = get_indentation(state.indentation)
+    for i, (var, expr) in enumerate(spe.env.items()):
+        if 1 <= i:
+            state.stream.write('%s%s ~= %s' % (idt, var, expr_to_sppl(expr)))
+            state.stream.write('\n')
 def render_sppl_choice(symbol, dist, stream, indentation, fwidth):
     idt = get_indentation(indentation)
     dist_pairs = [
-        '\'%s\' : %s' % (k, float_to_str(v, fwidth))
+        '%s : %s' % (repr(k), float_to_str(v, fwidth))
         for (k, v) in dist.items()
     ]
     # Write each outcome on new line.
@@ -51,24 +119,23 @@ def render_sppl_helper(spe, state):
             state.indentation,
             state.fwidth)
         return state
+    if isinstance(spe, AtomicLeaf):
+        idt = get_indentation(state.indentation)
+        state.stream.write('%s%s ~= atomic(loc=%s)'
+            % (idt, spe.symbol, number_to_sppl(spe.value)))
+        state.stream.write('\n')
+        render_sppl_env(spe, state)
+        return state
     if isinstance(spe, RealLeaf):
-        kwds = ', '.join([
-            '%s=%s' % (k, float_to_str(v, state.fwidth))
-            for k, v in spe.dist.kwds.items()
-        ])
-        dist = '%s(%s)' % (spe.dist.dist.name, kwds)
+        dist = dist_to_sppl(spe.dist, state.fwidth)
         idt = get_indentation(state.indentation)
         state.stream.write('%s%s ~= %s' % (idt, spe.symbol, dist))
         state.stream.write('\n')
         if spe.conditioned:
-            event = spe.symbol << spe.support
-            # TODO: Consider using repr(event)
+            event = expr_to_sppl(spe.symbol << spe.support)
             state.stream.write('%scondition(%s)' % (idt, event))
             state.stream.write('\n')
-        for i, (var, expr) in enumerate(spe.env.items()):
-            if 1 <= i:
-                state.stream.write('%s%s ~= %s' % (idt, var, expr))
-                state.stream.write('\n')
+        render_sppl_env(spe, state)
         return state
     if isinstance(spe, ProductSPE):
         for child in spe.children:
@@ -79,7 +146,7 @@ def render_sppl_helper(spe, state):
             return state
         if len(spe.children) == 1:
             return render_sppl_helper(spe.children[0], state)
-        branch_var = 'branch_var_%s' % (len(state.branches))
+        branch_var = '%s%s' % (state.branch_prefix, len(state.branches))
         branch_idxs = [str(i) for i in range(len(spe.children))]
         branch_dist = {k: exp(w) for k, w in zip(branch_idxs, spe.weights)}
         state.branches.append((branch_var, branch_dist))
@@ -100,17 +167,44 @@ def render_sppl_helper(spe, state):
 def render_sppl(spe, stream=None, fwidth=None):
     if stream is None:
         stream = StringIO()
-    state = _SPPL_Render_State(fwidth=fwidth)
+    # Choose names for the branches that are not names in the model.
+    tokens = [symbol.token for symbol in spe.get_symbols()]
+    branch_prefix = 'branch_var_'
+    while any(token.startswith(branch_prefix) for token in tokens):
+        branch_prefix = '_' + branch_prefix
+    state = _SPPL_Render_State(fwidth=fwidth, branch_prefix=branch_prefix)
     state = render_sppl_helper(spe, state)
     assert state.indentation == 0
-    # Write the import.
+    # Write the imports.
     stream.write('from sppl.distributions import *')
     stream.write('\n')
+    source = state.stream.getvalue()
+    for module, names in [
+            ('sppl.sets', ('EmptySet', 'FiniteNominal', 'FiniteReal', 'Interval', 'inf')),
+            ('sppl.transforms', (
+                'Abs', 'EventAnd', 'EventFiniteNominal', 'EventFiniteReal',
+                'EventInterval', 'EventOr', 'Exponential', 'Logarithm',
+                'Piecewise', 'Poly', 'Radical', 'Reciprocal')),
+            ('sympy', ('sympify',))]:
+        for name in names:
+            if re.search(r'\b%s\b' % (name,), source):
+                stream.write('from %s import %s' % (module, name))
+                stream.write('\n')
     stream.write('\n')
+    # Write the arrays (if any).
+    arrays = {}
+    for token in tokens:
+        match = re.match(r'^(\w+)\[(\d+)\]$', token)
+        if match:
+            (name, index) = (match.group(1), int(match.group(2)))
+            arrays[name] = max(arrays.get(name, 0), index + 1)
+    for name, size in sorted(arrays.items()):
+        stream.write('%s = array(%d)' % (name, size))
+        stream.write('\n')
     # Write the branch variables (if any).
     for branch_var, branch_dist in state.branches:
         render_sppl_choice(branch_var, branch_dist, stream, 0, fwidth)
     stream.write('\n')
     # Write the SPPL.
-    stream.write(state.stream.getvalue())
+    stream.write(source)
     return stream
-- 
2.43.0


From e52eb0b2abf169954d29faaddd423d98a8943228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:18 +0000
Subject: [PATCH 48/58] fix: translation of and, or, not and chained
 comparisons in SPPL programs

---
 src/compilers/sppl_to_python.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/compilers/sppl_to_python.py b/src/compilers/sppl_to_python.py
index 31b5d7d..fa56662 100644
--- a/src/compilers/sppl_to_python.py
+++ b/src/compilers/sppl_to_python.py
@@ -14,6 +14,7 @@ from types import SimpleNamespace
 from collections import namedtuple
 from collections import OrderedDict
 from contextlib import contextmanager
+from functools import reduce
 
 from astunparse import unparse
 
@@ -293,10 +294,22 @@ def unroll_ifexp(target, node):
     return expr
 
 class SPPL_Transformer_Compare(ast.NodeTransformer):
+    def visit_BoolOp(self, node):
+        op = ast.BitAnd() if isinstance(node.op, ast.And) else ast.BitOr()
+        return reduce(
+            lambda x, y: ast.BinOp(left=x, op=op, right=y),
+            [self.visit(value) for value in node.values])
+    def visit_UnaryOp(self, node):
+        if isinstance(node.op, ast.Not):
+            return ast.UnaryOp(op=ast.Invert(), operand=self.visit(node.operand))
+        return self.generic_visit(node)
     def visit_Compare(self, node):
-        # TODO: Implement or/and.
+        # A chained comparison is the conjunction of its links.
         if len(node.ops) > 1:
-            return node
+            operands = [node.left] + node.comparators
+            return self.visit(ast.BoolOp(op=ast.And(), values=[
+                ast.Compare(left=a, ops=[op], comparators=[b])
+                for a, op, b in zip(operands, node.ops, operands[1:])]))
         if isinstance(node.ops[0], ast.In):
             return ast.BinOp(
                 left=node.left,
-- 
2.43.0


From 7b0d72a75dcd238a985d9d64b374291ae48abedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:18 +0000
Subject: [PATCH 49/58] fix: unsupported statements and commands in SPPL
 programs are rejected, not dropped

---
 src/compilers/sppl_to_python.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/compilers/sppl_to_python.py b/src/compilers/sppl_to_python.py
index fa56662..19061d3 100644
--- a/src/compilers/sppl_to_python.py
+++ b/src/compilers/sppl_to_python.py
@@ -59,6 +59,8 @@ class SPPL_Visitor(ast.NodeVisitor):
 
     def generic_visit(self, node):
         """Called if no explicit visitor function exists for a node."""
+        assert isinstance(node, (ast.Module, ast.Pass)), \
+            'unsupported construct: %s' % (unparse(node),)
         for field, value in ast.iter_fields(node):
             if isinstance(value, list):
                 with maybe_sequence_block(self, value, self.first):
@@ -69,6 +71,14 @@ class SPPL_Visitor(ast.NodeVisitor):
             elif isinstance(value, ast.AST):
                 self.visit(value)
 
+    def visit_Expr(self, node):
+        # Only commands, documentation strings are skipped.
+        if isinstance(node.value, ast.Constant):
+            return
+        assert isinstance(node.value, ast.Call), \
+            'unsupported construct: %s' % (unparse(node),)
+        self.visit_Call(node.value)
+
     def visit_Import(self, node):
         str_node = unparse(node).replace(os.linesep, '')
         self.imports.append(str_node)
@@ -160,6 +170,7 @@ class SPPL_Visitor(ast.NodeVisitor):
 
     def visit_For(self, node):
         assert isinstance(node.iter, ast.Call)
+        assert not node.orelse, 'unsupported construct: %s' % (unparse(node),)
         if node.iter.func.id == 'range':
             return self.visit_For_vanilla(node)
         if node.iter.func.id == 'switch':
@@ -269,6 +280,8 @@ class SPPL_Visitor(ast.NodeVisitor):
             src_assignment = unparse(assignment).strip()
             self.command.write('%sConstrain(%s),' % (idt, src_assignment))
             self.command.write('\n')
+        else:
+            assert False, 'unknown command: %s' % (unode,)
 
 def unroll_if(node, current=None):
     current = [] if current is None else current
-- 
2.43.0


From cf3b9e01b2a55aae346e71a7d1670a472274c2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:18 +0000
Subject: [PATCH 50/58] fix: constants reassigned in SPPL programs keep their
 order

---
 src/compilers/sppl_to_python.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compilers/sppl_to_python.py b/src/compilers/sppl_to_python.py
index 19061d3..7afe629 100644
--- a/src/compilers/sppl_to_python.py
+++ b/src/compilers/sppl_to_python.py
@@ -53,7 +53,7 @@ class SPPL_Visitor(ast.NodeVisitor):
         self.context = ['global']
         self.command = stream or io.StringIO()
         self.imports = []
-        self.constants = OrderedDict()
+        self.constants = []
         self.variables = OrderedDict()
         self.distributions = OrderedDict()
 
@@ -166,7 +166,7 @@ class SPPL_Visitor(ast.NodeVisitor):
         if self.distributions:
             assert False, 'constants only before sampling %s' % (unode,)
         str_node = unode.strip()
-        self.constants[str_node] = None
+        self.constants.append(str_node)
 
     def visit_For(self, node):
         assert isinstance(node.iter, ast.Call)
-- 
2.43.0


From 61360598301b9aa475065c4743872d99eaa836ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:18 +0000
Subject: [PATCH 51/58] fix: SPPL preprocessing leaves string literals and
 index names alone

---
 src/compilers/sppl_to_python.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/compilers/sppl_to_python.py b/src/compilers/sppl_to_python.py
index 7afe629..f94ec99 100644
--- a/src/compilers/sppl_to_python.py
+++ b/src/compilers/sppl_to_python.py
@@ -374,9 +374,12 @@ class SPPL_Compiler():
     def preprocess(self):
         lines = self.source.split(os.linesep)
         source_prime = os.linesep.join(l for l in lines if l.strip())
-        source_prime = source_prime.replace('~=', '=')
+        # Write ~= as =, except in string literals.
         source_prime = re.sub(
-            r'^(\s*)switch\s*\((.+)\)\s*cases\s*\((.+)\s*in\s+(.+)\s*\)\s*:',
+            r'("(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\')|~=',
+            lambda m: m.group(1) or '=', source_prime)
+        source_prime = re.sub(
+            r'^(\s*)switch\s*\((.+?)\)\s*cases\s*\((.+?)\s*\bin\s+(.+)\s*\)\s*:',
             r"\1for \3 in switch(\2, \4):",
             source_prime, flags=re.MULTILINE)
         return source_prime
-- 
2.43.0


From 6fca67ef972802a4cbf3b34fca831a69946de7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:18 +0000
Subject: [PATCH 52/58] fix: reject string distributions with negative weights

---
 src/spe.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/spe.py b/src/spe.py
index 7490a46..96a5dac 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -1046,6 +1046,7 @@ class NominalLeaf(LeafSPE):
         self.outcomes = list(self.dist.keys())
         self.weights = list(self.dist.values())
         assert allclose(float(sum(self.weights)),  1)
+        assert all(0 <= w for w in self.weights)
 
     def logpdf__(self, x):
         w = self.dist.get(x, 0)
-- 
2.43.0


From 81168fbced7f46e96af7fe9945967931200c503a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:18 +0000
Subject: [PATCH 53/58] fix: node names of graph renderings are unique

---
 magics/render.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/magics/render.py b/magics/render.py
index 98944fe..d823d9a 100644
--- a/magics/render.py
+++ b/magics/render.py
@@ -3,8 +3,8 @@
 
 import os
 import tempfile
-import time
 
+from itertools import count
 from math import exp
 
 import graphviz
@@ -16,7 +16,8 @@ from sppl.spe import ProductSPE
 from sppl.spe import RealLeaf
 from sppl.spe import SumSPE
 
-gensym = lambda: 'r%s' % (str(time.time()).replace('.', ''),)
+counter = count()
+gensym = lambda: 'r%d' % (next(counter),)
 
 def render_networkx_graph(spe):
     if isinstance(spe, NominalLeaf):
-- 
2.43.0


From e3e9cd99928e52bd8fa59a2a219d7013597b896c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:18 +0000
Subject: [PATCH 54/58] fix: notebook names are stripped and survive a failed
 redefinition

---
 magics/magics.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/magics/magics.py b/magics/magics.py
index d70a7ec..de87616 100644
--- a/magics/magics.py
+++ b/magics/magics.py
@@ -25,29 +25,30 @@ class SPPL_Magics(Magics):
 
     @line_magic
     def sppl_get_spe(self, line):
+        line = line.strip()
         assert line in self.programs, 'unknown program %s' % (line,)
         return getattr(self.programs[line].namespace, line)
 
     @cell_magic
     def sppl(self, line, cell):
+        line = line.strip()
         if not line:
             sys.stderr.write('specify model name after %%sppl')
             return
-        if line in self.programs:
-            del self.programs[line]
         compiler = SPPL_Compiler(cell, line)
         namespace = compiler.execute_module()
         self.programs[line] = Model(cell, compiler, namespace)
 
     @line_magic
     def sppl_to_python(self, line):
+        line = line.strip()
         assert line in self.programs, 'unknown program %s' % (line,)
         print(self.programs[line].compiler.render_module())
 
     @needs_local_scope
     @line_magic
     def sppl_to_graph(self, line, local_ns):
-        tokens = line.strip().split(' ')
+        tokens = line.split() or ['']
         line = tokens[0]
         filename = tokens[1] if len(tokens) == 2 else None
         if line in self.programs:
@@ -60,5 +61,6 @@ class SPPL_Magics(Magics):
 
     @line_magic
     def sppl_get_namespace(self, line):
+        line = line.strip()
         assert line in self.programs, 'unknown program %s' % (line,)
         return self.programs[line].namespace
-- 
2.43.0


From 6a4318c02b792bca912090d973520fee70369654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:18 +0000
Subject: [PATCH 55/58] fix: graph renderings show derived variables of atomic
 leaves

---
 magics/render.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/magics/render.py b/magics/render.py
index d823d9a..aeb4944 100644
--- a/magics/render.py
+++ b/magics/render.py
@@ -19,6 +19,13 @@ from sppl.spe import SumSPE
 counter = count()
 gensym = lambda: 'r%d' % (next(counter),)
 
+def add_transforms(G, root, spe):
+    for k, v in spe.env.items():
+        if k != spe.symbol:
+            roott = gensym()
+            G.add_node(roott, label=str(v), style='filled')
+            G.add_edge(root, roott, label=' %s' % (str(k),), style='dashed')
+
 def render_networkx_graph(spe):
     if isinstance(spe, NominalLeaf):
         G = nx.DiGraph()
@@ -30,18 +37,14 @@ def render_networkx_graph(spe):
         root = gensym()
         G.add_node(root, label='%s\n%s(%s)'
             % (spe.symbol.token, 'Atomic', str(spe.value)))
+        add_transforms(G, root, spe)
         return G
     if isinstance(spe, RealLeaf):
         G = nx.DiGraph()
         root = gensym()
         kwds = '\n%s' % (tuple(spe.dist.kwds.values()),) if spe.dist.kwds else ''
         G.add_node(root, label='%s\n%s%s' % (spe.symbol.token, spe.dist.dist.name, kwds))
-        if len(spe.env) > 1:
-            for k, v in spe.env.items():
-                if k != spe.symbol:
-                    roott = gensym()
-                    G.add_node(roott, label=str(v), style='filled')
-                    G.add_edge(root, roott, label=' %s' % (str(k),), style='dashed')
+        add_transforms(G, root, spe)
         return G
     if isinstance(spe, SumSPE):
         G = nx.DiGraph()
-- 
2.43.0


From 3bbfd7eca8d64abe1ef8bc20a32573cecd03afda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:18 +0000
Subject: [PATCH 56/58] fix: mixtures of distributions accept weights that sum
 to one up to rounding

---
 src/distributions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/distributions.py b/src/distributions.py
index 45dde0f..d1111e4 100644
--- a/src/distributions.py
+++ b/src/distributions.py
@@ -7,6 +7,8 @@ from math import isinf
 import scipy.stats
 import sympy
 
+from .math_util import allclose
+
 class Distribution():
     def __rmul__(self, x):
         from .sym_util import sympify_number
@@ -65,7 +67,7 @@ class DistributionMix():
             return NotImplemented
         weights = self.weights + x.weights
         cumsum = float(sum(weights))
-        assert 0 < cumsum <= 1
+        assert 0 < cumsum and (cumsum <= 1 or allclose(cumsum, 1))
         distributions = self.distributions + x.distributions
         return DistributionMix(distributions, weights)
 
-- 
2.43.0


From 066e50caa3d94fb2c3f2ef9baf4321a77027406b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:14 +0000
Subject: [PATCH 57/58] fix: infinite values have density zero

---
 src/spe.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/spe.py b/src/spe.py
index 96a5dac..2909e60 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -10,6 +10,7 @@ from inspect import getfullargspec
 from itertools import chain
 from math import exp
 from math import floor
+from math import isinf
 from math import log
 
 import numpy
@@ -909,6 +910,8 @@ class ContinuousLeaf(RealLeaf):
         if isinstance(x, str):
             return -float('inf')
         xf = float(x)
+        if isinf(xf):
+            return -inf
         if not self.conditioned:
             return self.dist.logpdf(xf)
         if x not in self.support:
@@ -953,6 +956,8 @@ class DiscreteLeaf(RealLeaf):
         if isinstance(x, str):
             return -float('inf')
         xf = float(x)
+        if isinf(xf):
+            return -inf
         if not self.conditioned:
             return self.dist.logpmf(xf)
         if (x < self.xl) or (self.xu < x):
-- 
2.43.0


From 820f2f6f02b2f6a90cc0476becc1e56a4697e7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:09 +0000
Subject: [PATCH 58/58] fix: assignments of unknown variables are rejected

---
 src/spe.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/spe.py b/src/spe.py
index 2909e60..027579f 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -206,11 +206,17 @@ class BranchSPE(SPE):
     def logpdf(self, assignment, memo=None):
         if memo is None:
             memo = Memo()
+        self.check_symbols(assignment)
         return self.logpdf_mem(assignment, memo)[1]
     def constrain(self, assignment, memo=None):
         if memo is None:
             memo = Memo()
+        self.check_symbols(assignment)
         return self.constrain_mem(assignment, memo)
+    def check_symbols(self, assignment):
+        unknown = [s for s in assignment if s not in self.get_symbols()]
+        if unknown:
+            raise ValueError('Unknown symbols in assignment: %s' % (unknown,))
     def logprob_mem(self, event_factor, memo):
         raise NotImplementedError()
     def condition_mem(self, event_factor, memo):
-- 
2.43.0

