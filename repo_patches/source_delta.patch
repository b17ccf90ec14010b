From 22059615fd04590a84819469989807c3341a63f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:07 +0000
Subject: [PATCH 01/31] fix: pow with exponent zero returns one instead of the
 base

---
 public/gal/numeric.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/public/gal/numeric.hpp b/public/gal/numeric.hpp
index 525f700..ae93b91 100644
--- a/public/gal/numeric.hpp
+++ b/public/gal/numeric.hpp
@@ -19,7 +19,11 @@ template <typename T, int N, int D>
 [[nodiscard]] GAL_FORCE_INLINE constexpr T
 pow(T s, std::integral_constant<int, N>, std::integral_constant<int, D>) noexcept
 {
-    if constexpr (D > 1)
+    if constexpr (N == 0)
+    {
+        return T{1};
+    }
+    else if constexpr (D > 1)
     {
         return std::pow(s, T{N} / T{D});
     }
-- 
2.43.0


From 7b07be90775303c59df39fd7ead70a9246ed826e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:12 +0000
Subject: [PATCH 02/31] fix: keep rational denominators positive and compare
 rationals by value

reciprocal() and operator*= could leave a negative denominator (and skip
reduction), operator== divided by gcd(rhs.den, rhs.den), and int * rat was not
reduced, so normalised values such as 1/2 compared unequal to themselves.
---
 public/gal/numeric.hpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/public/gal/numeric.hpp b/public/gal/numeric.hpp
index ae93b91..5400d44 100644
--- a/public/gal/numeric.hpp
+++ b/public/gal/numeric.hpp
@@ -189,7 +189,8 @@ struct rat
 
     [[nodiscard]] constexpr rat reciprocal() const noexcept
     {
-        return {den, num};
+        // The denominator is kept positive as an invariant
+        return num < 0 ? rat{-den, -num} : rat{den, num};
     }
 
     [[nodiscard]] constexpr rat negation() const noexcept
@@ -207,6 +208,12 @@ struct rat
     {
         num *= other.num;
         den *= other.den;
+        if (den < 0)
+        {
+            num = -num;
+            den = -den;
+        }
+
         if (num == 0)
         {
             den = 1;
@@ -377,19 +384,17 @@ namespace detail
 
 [[nodiscard]] constexpr bool operator==(rat lhs, rat rhs) noexcept
 {
-    auto gcd1 = std::gcd(lhs.num, lhs.den);
-    auto gcd2 = std::gcd(rhs.den, rhs.den);
-    return lhs.num / gcd1 == rhs.num / gcd2 && lhs.den / gcd1 == rhs.den / gcd2;
+    return static_cast<int64_t>(lhs.num) * rhs.den == static_cast<int64_t>(rhs.num) * lhs.den;
 }
 
 [[nodiscard]] constexpr bool operator!=(rat lhs, int rhs) noexcept
 {
-    return lhs.den != 1 || lhs.num != rhs;
+    return static_cast<int64_t>(rhs) * lhs.den != lhs.num;
 }
 
 [[nodiscard]] constexpr bool operator!=(rat lhs, rat rhs) noexcept
 {
-    return lhs.num != rhs.num || lhs.den != rhs.den;
+    return !(lhs == rhs);
 }
 
 [[nodiscard]] constexpr bool operator<(rat lhs, rat rhs) noexcept
@@ -415,7 +420,8 @@ namespace detail
     }
     else
     {
-        return {rhs.num * lhs, rhs.den};
+        rhs *= rat{lhs, 1};
+        return rhs;
     }
 }
 
-- 
2.43.0


From ad45c79fb2ae823ca78881f1d22fabf521e45751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:17 +0000
Subject: [PATCH 03/31] fix: overflow_gate must not perturb rationals by more
 than 1e-7

The error estimate only holds for even numerators; odd numerators were moved
by about 1/den, and negative odd numerators took the wrong branch.
---
 public/gal/numeric.hpp | 38 +++++++++++++++-----------------------
 1 file changed, 15 insertions(+), 23 deletions(-)

diff --git a/public/gal/numeric.hpp b/public/gal/numeric.hpp
index 5400d44..7f1d944 100644
--- a/public/gal/numeric.hpp
+++ b/public/gal/numeric.hpp
@@ -342,36 +342,28 @@ namespace detail
                 {
                     // The rational is the mediant of two fractions with smaller denominators. Pick
                     // one of them based on the parity.
-                    if (in.num % 2 == 1)
+                    rat out{};
+                    if (in.num % 2 != 0)
                     {
                         // Perturb to the left-side of the mediant
-                        auto n2  = (in.num - 1) / 2;
-                        auto d2  = in.den / 2;
-                        auto gcd = std::gcd(n2, d2);
-                        if (gcd > 1)
-                        {
-                            return {n2 / gcd, d2 / gcd};
-                        }
-                        else
-                        {
-                            return {n2, d2};
-                        }
+                        out = rat{(in.num - 1) / 2, in.den / 2};
                     }
                     else
                     {
                         // Perturb to the right-side of the mediant
-                        auto n2  = in.num / 2;
-                        auto d2  = (in.den - 1) / 2;
-                        auto gcd = std::gcd(n2, d2);
-                        if (gcd > 1)
-                        {
-                            return {n2 / gcd, d2 / gcd};
-                        }
-                        else
-                        {
-                            return {n2, d2};
-                        }
+                        out = rat{in.num / 2, (in.den - 1) / 2};
                     }
+
+                    // The estimate above is only accurate for even numerators. If the perturbation
+                    // is not actually negligible, retain the exact value.
+                    double out_frac = static_cast<double>(out.num) / static_cast<double>(out.den);
+                    if (abs(out_frac - frac) >= 1e-7)
+                    {
+                        return in;
+                    }
+
+                    auto out_gcd = std::gcd(out.num, out.den);
+                    return {out.num / out_gcd, out.den / out_gcd};
                 }
                 else
                 {
-- 
2.43.0


From ca054915d7e439888f0999e1a6ef07862153cf76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:47 +0000
Subject: [PATCH 04/31] fix: stack::pop returns the top element

pop() returned the slot above the top. rpn_reshape used it to locate the second
operand of a repeated binary product and decremented the reference count of an
unrelated subexpression, so a required temporary could be dropped.
---
 public/gal/stack.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/public/gal/stack.hpp b/public/gal/stack.hpp
index 6403d1c..72da829 100644
--- a/public/gal/stack.hpp
+++ b/public/gal/stack.hpp
@@ -41,7 +41,7 @@ namespace detail
 
         constexpr T pop() noexcept
         {
-            return data[count--];
+            return data[--count];
         }
 
         constexpr T pop(size_t n) noexcept
-- 
2.43.0


From fa4712795221246fc0ea926dc451d5de15ea1b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:52 +0000
Subject: [PATCH 05/31] fix: rpne::pop returns the last node

---
 public/gal/expr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index e655f06..3c7857c 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -181,7 +181,7 @@ namespace detail
 
         constexpr node pop() noexcept
         {
-            return nodes[count--];
+            return nodes[--count];
         }
 
         constexpr void pop(width_t n) noexcept
-- 
2.43.0


From 35c74d331e42b284b2012275296c3dfe90fb4557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:57 +0000
Subject: [PATCH 06/31] fix: mv::resize keeps the pending scalar operation

---
 public/gal/algebra.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/public/gal/algebra.hpp b/public/gal/algebra.hpp
index 9ef4bf6..283d278 100644
--- a/public/gal/algebra.hpp
+++ b/public/gal/algebra.hpp
@@ -646,6 +646,7 @@ struct mv
         {
             mv<A, I2, M2, T2> out{};
             out.size = size;
+            out.o    = o;
             for (size_t i = 0; i != out.size.ind; ++i)
             {
                 out.inds[i] = inds[i];
-- 
2.43.0


From eeda0dd5fe642151d6a2625f5e6c3ff871b91337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:02 +0000
Subject: [PATCH 07/31] fix: select_grade visits every term

Terms are sorted by element, not by grade, so stopping at the first term of a
higher grade lost later components (e.g. e3 after e12).
---
 public/gal/algebra.hpp | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/public/gal/algebra.hpp b/public/gal/algebra.hpp
index 283d278..92b614b 100644
--- a/public/gal/algebra.hpp
+++ b/public/gal/algebra.hpp
@@ -576,16 +576,8 @@ struct mv
 
         for (auto it = cbegin(); it != cend(); ++it)
         {
-            auto g = pop_count(it->element);
-            if (g > grade)
-            {
-                break;
-            }
-            else if (g < grade)
-            {
-                continue;
-            }
-            else
+            // NOTE: terms are ordered by element, which does not order them by grade
+            if (pop_count(it->element) == grade)
             {
                 *out_terms_it            = *it;
                 out_terms_it->mon_offset = out_mons_it - out.mons.begin();
-- 
2.43.0


From 8913b880ebcb1bd0f42841bae7719229ef206a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:28 +0000
Subject: [PATCH 08/31] fix: division by a scalar monomial

When the divisor shared an indeterminate with the dividend, the cancellation
test was inverted and the monomial's count and degree were wrong, and divisors
with several indeterminates were not handled. Multiply by the reciprocal
monomial instead, which also keeps the result canonical.
---
 public/gal/algebra.hpp | 122 ++++++++++-------------------------------
 public/gal/dfa.hpp     |  10 ++--
 2 files changed, 36 insertions(+), 96 deletions(-)

diff --git a/public/gal/algebra.hpp b/public/gal/algebra.hpp
index 92b614b..3b0c765 100644
--- a/public/gal/algebra.hpp
+++ b/public/gal/algebra.hpp
@@ -971,98 +971,6 @@ namespace detail
         return in;
     }
 
-    // Specialized op for dividing a multivector by a scalar (in multivector form).
-    template <typename A, width_t I, width_t M, width_t T, width_t I2, width_t M2, width_t T2>
-    constexpr auto divide(mv<A, I, M, T> const& lhs, mv<A, I2, M2, T2> const& rhs, rat q) noexcept
-    {
-        static_assert(M2 != 0 && T2 != 0, "Divide by zero detected!");
-        mon m = rhs.mons[0];
-        if constexpr (I2 == 0)
-        {
-            // Divide each monomial of the LHS by the RHS monomial scaling constant
-            auto out = lhs;
-            for (auto it = out.begin(); it != out.end(); ++it)
-            {
-                for (auto mon_it = it.begin(); mon_it != it.end(); ++mon_it)
-                {
-                    mon_it->q = q * mon_it->q / m.q;
-                }
-            }
-            return out;
-        }
-        else if constexpr (I2 == 1)
-        {
-            ind d    = rhs.inds[0];
-            d.degree = d.degree.negation();
-            mv<A, I + M, M, T> out;
-            auto out_terms_it = out.terms.begin();
-            auto out_mons_it  = out.mons.begin();
-            auto out_inds_it  = out.inds.begin();
-
-            // Multiply each monomial of the lhs by the reciprocal of the rhs.
-            for (auto it = lhs.cbegin(); it != lhs.cend(); ++it)
-            {
-                for (auto mon_it = it.cbegin(); mon_it != it.cend(); ++mon_it)
-                {
-                    width_t ind_offset = out_inds_it - out.inds.begin();
-                    bool canceled      = false;
-                    bool written       = false;
-                    for (auto ind_it = mon_it.cbegin(); ind_it != mon_it.cend(); ++ind_it)
-                    {
-                        if (!written)
-                        {
-                            if (d.id == ind_it->id)
-                            {
-                                rat deg = d.degree + ind_it->degree;
-                                if (!deg.is_zero())
-                                {
-                                    canceled = true;
-                                }
-                                else
-                                {
-                                    *out_inds_it++ = ind{d.id, deg};
-                                }
-                                written = true;
-                            }
-                            else if (d.id < ind_it->id)
-                            {
-                                *out_inds_it++ = d;
-                                *out_inds_it++ = *ind_it;
-                                written        = true;
-                            }
-                            else
-                            {
-                                *out_inds_it++ = *ind_it;
-                            }
-                        }
-                        else
-                        {
-                            *out_inds_it++ = *ind_it;
-                        }
-                    }
-
-                    if (!written)
-                    {
-                        *out_inds_it++ = d;
-                    }
-
-                    rat deg        = mon_it->degree - d.degree;
-                    width_t count  = canceled ? mon_it->count - 1 : mon_it->count + 1;
-                    *out_mons_it++ = mon{mon_it->q / m.q, deg, count, ind_offset};
-                }
-
-                *out_terms_it++ = *it;
-            }
-
-            out.size.term = out_terms_it - out.terms.begin();
-            out.size.mon  = out_mons_it - out.mons.begin();
-            out.size.ind  = out_inds_it - out.inds.begin();
-
-            out.scale(q);
-            return out;
-        }
-    }
-
     template <typename T>
     [[nodiscard]] constexpr auto reverse(T in) noexcept
     {
@@ -1391,6 +1299,36 @@ namespace detail
         return out;
     }
 
+    // Product between a basis element and a scalar
+    struct scalar_scale
+    {
+        [[nodiscard]] constexpr static std::pair<elem_t, int> product(elem_t lhs, elem_t) noexcept
+        {
+            return {lhs, 1};
+        }
+    };
+
+    // Specialized op for dividing a multivector by a scalar (in multivector form). The scalar must
+    // consist of a single monomial, and the quotient is scaled by q.
+    template <typename A, width_t I, width_t M, width_t T, width_t I2, width_t M2, width_t T2>
+    constexpr auto divide(mv<A, I, M, T> const& lhs, mv<A, I2, M2, T2> const& rhs, rat q) noexcept
+    {
+        static_assert(M2 != 0 && T2 != 0, "Divide by zero detected!");
+
+        // Multiply each monomial of the lhs by the reciprocal of the rhs.
+        mon m = rhs.mons[0];
+        mv<A, I2, 1, 1> reciprocal{};
+        reciprocal.size     = mv_size{m.count, 1, 1};
+        reciprocal.mons[0]  = mon{q / m.q, m.degree.negation(), m.count, 0};
+        reciprocal.terms[0] = term{1, 0, 0};
+        for (width_t i = 0; i != m.count; ++i)
+        {
+            ind d              = rhs.inds[m.ind_offset + i];
+            reciprocal.inds[i]   = ind{d.id, d.degree.negation()};
+        }
+        return product(scalar_scale{}, lhs, reciprocal);
+    }
+
     template <typename A, width_t I, width_t M, width_t T>
     constexpr mv<A, I, M, 1> component(mv<A, I, M, T> const& in, elem_t e) noexcept
     {
diff --git a/public/gal/dfa.hpp b/public/gal/dfa.hpp
index d5abb9e..63bc8b7 100644
--- a/public/gal/dfa.hpp
+++ b/public/gal/dfa.hpp
@@ -757,10 +757,12 @@ namespace detail
                 constexpr auto split = State.args.template split<2>();
                 constexpr auto div   = divide(
                     split.first.template get<1>().second, split.first.template get<0>().second, n.q);
-                return rpn_state{State.inputs,
-                                 State.temps,
-                                 split.second.push(make_pair(n.checksum, div)),
-                                 State.id_count};
+                return rpn_state{
+                    State.inputs,
+                    State.temps,
+                    split.second.push(make_pair(
+                        n.checksum, div.template resize<div.size.ind, div.size.mon, div.size.term>())),
+                    State.id_count};
             }
             else if constexpr (n.o == op_sqrt)
             {
-- 
2.43.0


From c5ee98b12401156e439b68263cd272d3d4c43e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:39 +0000
Subject: [PATCH 09/31] fix: expressions keep their scale factor through ~, !,
 ^, + and integer division

Reversion, dual, exterior products with an already flattened operand, sums with
a zero operand, the tail of a merged sum and n / x dropped or mixed up the
rational factor of their operands.
---
 public/gal/expr.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index 3c7857c..3e4e8ec 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -391,10 +391,12 @@ constexpr detail::rpne<A, S1 + S2 + 3> operator+(detail::rpne<A, S1> lhs, detail
         if (lhs.count == 0)
         {
             out.append(rhs);
+            out.q = rhs.q;
         }
         else
         {
             out.append(lhs);
+            out.q = lhs.q;
         }
         return out;
     }
@@ -443,7 +445,7 @@ constexpr detail::rpne<A, S1 + S2 + 3> operator+(detail::rpne<A, S1> lhs, detail
                 {
                     auto lhs_summand = lhs.nodes[lhs_index++];
                     ++summand_count;
-                    lhs_summand.q *= rhs.q;
+                    lhs_summand.q *= lhs.q;
                     out.nodes[out.count++] = lhs_summand;
                     for (width_t i = 0; i != lhs_summand.ex; ++i)
                     {
@@ -768,7 +770,7 @@ constexpr auto operator/(int lhs, detail::rpne<A, S> const& rhs)
     out.append(detail::rpne_from_constant<A>(lhs, 1));
     out.append(rhs);
     out.append(detail::op_div);
-    out.back().q = rhs.q.reciprocal();
+    out.back().q = rat{lhs, 1} / rhs.q;
     out.q        = one;
     return out;
 }
@@ -831,6 +833,7 @@ constexpr auto operator~(detail::rpne<A, S> const& in)
     }
 
     out.append(in);
+    out.q = in.q;
 
     if (in.back().o == detail::op_rev)
     {
@@ -854,6 +857,7 @@ constexpr auto operator!(detail::rpne<A, S> const& in)
 
     out.append(in);
     out.append(detail::op_pd);
+    out.q = in.q;
     return out;
 }
 
@@ -1029,9 +1033,10 @@ constexpr auto operator^(detail::rpne<A, S1> const& lhs, detail::rpne<A, S2> con
         out.append(lhs);
         out.nodes[out.count++] = detail::node{detail::op_se, rhs_checksum, rhs.count, zero};
         out.append(rhs);
-        out.q = lhs.q * rhs.q;
     }
 
+    out.q = lhs.q * rhs.q;
+
     // Loop through all ep factors to compute the bloom filter
     width_t i       = 1;
     detail::crc_t c = 0;
-- 
2.43.0


From bafc565f3c48703813a793eb0a1c361e1802c435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:43 +0000
Subject: [PATCH 10/31] fix: exactly zero operands produce zero

Products with a zero operand returned the other operand, sums whose summands
all cancel produced an empty sum node, component and grade selection of zero
read out of bounds, and constants scaled by zero counted as one.
---
 public/gal/engine.hpp |   2 +-
 public/gal/expr.hpp   | 115 ++++++++++++++++++++----------------------
 2 files changed, 57 insertions(+), 60 deletions(-)

diff --git a/public/gal/engine.hpp b/public/gal/engine.hpp
index 1d4b46e..17c1dd3 100644
--- a/public/gal/engine.hpp
+++ b/public/gal/engine.hpp
@@ -193,7 +193,7 @@ namespace detail
                                                           std::integral_constant<den_t, Den>,
                                                           std::index_sequence<I...>) noexcept
     {
-        if constexpr (sizeof...(I) == 0)
+        if constexpr (sizeof...(I) == 0 || Num == 0)
         {
             return entity<A, F>{};
         }
diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index 3e4e8ec..595e484 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -139,9 +139,19 @@ namespace detail
         width_t count = 0;
         rat q{1, 1};
 
+        // An expression is exactly zero if it has no nodes or is scaled by zero
+        constexpr bool is_zero() const noexcept
+        {
+            return count == 0 || q.is_zero();
+        }
+
         constexpr auto operator[](elem_t e) noexcept
         {
             rpne<A, S + 1> out;
+            if (is_zero())
+            {
+                return out;
+            }
             out.append(*this);
             // Using operator[] successfully is not expected behavior, so we don't bother computing
             // the checksum in a fancy manner.
@@ -153,6 +163,10 @@ namespace detail
         constexpr auto select_grade(elem_t g) noexcept
         {
             rpne<A, S + 1> out;
+            if (is_zero())
+            {
+                return out;
+            }
             out.append(*this);
             out.nodes[out.count++] = node{op_grd, back().checksum + ~g, g};
             out.q                  = q;
@@ -386,14 +400,14 @@ constexpr detail::rpne<A, S1 + S2 + 3> operator+(detail::rpne<A, S1> lhs, detail
     rpne<A, S1 + S2 + 3> out;
 
     // Early out if either the lhs or the rhs is exactly zero
-    if (lhs.count == 0 || rhs.count == 0)
+    if (lhs.is_zero() || rhs.is_zero())
     {
-        if (lhs.count == 0)
+        if (!rhs.is_zero())
         {
             out.append(rhs);
             out.q = rhs.q;
         }
-        else
+        else if (!lhs.is_zero())
         {
             out.append(lhs);
             out.q = lhs.q;
@@ -670,6 +684,12 @@ constexpr detail::rpne<A, S1 + S2 + 3> operator+(detail::rpne<A, S1> lhs, detail
         summand_count = 2;
     }
 
+    // All summands may have canceled
+    if (summand_count == 0)
+    {
+        return out;
+    }
+
     // Do a final pass to see if the sum has been collapsed to a single term
     if (summand_count == 1)
     {
@@ -767,6 +787,10 @@ template <typename A, width_t S>
 constexpr auto operator/(int lhs, detail::rpne<A, S> const& rhs)
 {
     detail::rpne<A, S + 2> out;
+    if (lhs == 0)
+    {
+        return out;
+    }
     out.append(detail::rpne_from_constant<A>(lhs, 1));
     out.append(rhs);
     out.append(detail::op_div);
@@ -779,6 +803,10 @@ template <typename A, width_t S1, width_t S2>
 constexpr auto operator/(detail::rpne<A, S1> const& lhs, detail::rpne<A, S2> const& rhs)
 {
     detail::rpne<A, S1 + S2 + 1> out;
+    if (lhs.is_zero())
+    {
+        return out;
+    }
     out.append(lhs);
     out.append(rhs);
     out.append(detail::op_div);
@@ -865,6 +893,10 @@ template <typename A, width_t S>
 constexpr auto sqrt(detail::rpne<A, S> const& in)
 {
     detail::rpne<A, S + 1> out;
+    if (in.is_zero())
+    {
+        return out;
+    }
     out.append(in);
     out.append(detail::op_sqrt);
     out.back().q = in.q;
@@ -876,6 +908,10 @@ template <typename A, width_t S>
 constexpr auto sin(detail::rpne<A, S> const& in)
 {
     detail::rpne<A, S + 1> out;
+    if (in.is_zero())
+    {
+        return out;
+    }
     out.append(in);
     out.append(detail::op_sin);
     out.back().q = in.q;
@@ -887,6 +923,11 @@ template <typename A, width_t S>
 constexpr auto cos(detail::rpne<A, S> const& in)
 {
     detail::rpne<A, S + 1> out;
+    if (in.is_zero())
+    {
+        out.append(detail::rpne_from_constant<A>(1, 1));
+        return out;
+    }
     out.append(in);
     out.append(detail::op_cos);
     out.back().q = in.q;
@@ -898,6 +939,10 @@ template <typename A, width_t S>
 constexpr auto tan(detail::rpne<A, S> const& in)
 {
     detail::rpne<A, S + 1> out;
+    if (in.is_zero())
+    {
+        return out;
+    }
     out.append(in);
     out.append(detail::op_tan);
     out.back().q = in.q;
@@ -937,24 +982,12 @@ template <typename A, width_t S1, width_t S2>
 constexpr auto operator*(detail::rpne<A, S1> const& lhs, detail::rpne<A, S2> const& rhs)
 {
     detail::rpne<A, S1 + S2 + 1> out;
-    if (lhs.count == 0)
-    {
-        out.append(rhs);
-        return out;
-    }
-    else if (rhs.count == 0)
-    {
-        out.append(lhs);
-        return out;
-    }
-
-    auto q = lhs.q * rhs.q;
-    if (q.is_zero())
+    if (lhs.is_zero() || rhs.is_zero())
     {
         return out;
     }
 
-    out.q = q;
+    out.q = lhs.q * rhs.q;
     out.append(lhs);
     out.append(rhs);
     out.append(detail::op_gp);
@@ -1065,24 +1098,12 @@ template <typename A, width_t S1, width_t S2>
 constexpr auto operator>>(detail::rpne<A, S1> const& lhs, detail::rpne<A, S2> const& rhs)
 {
     detail::rpne<A, S1 + S2 + 1> out;
-    if (lhs.count == 0)
-    {
-        out.append(rhs);
-        return out;
-    }
-    else if (rhs.count == 0)
+    if (lhs.is_zero() || rhs.is_zero())
     {
-        out.append(lhs);
         return out;
     }
 
-    auto q = lhs.q * rhs.q;
-    if (q.is_zero())
-    {
-        return out;
-    }
-
-    out.q = q;
+    out.q = lhs.q * rhs.q;
     out.append(lhs);
     out.append(rhs);
     out.append(detail::op_lc);
@@ -1095,24 +1116,12 @@ template <typename A, width_t S1, width_t S2>
 constexpr auto operator|(detail::rpne<A, S1> const& lhs, detail::rpne<A, S2> const& rhs)
 {
     detail::rpne<A, S1 + S2 + 1> out;
-    if (lhs.count == 0)
-    {
-        out.append(rhs);
-        return out;
-    }
-    else if (rhs.count == 0)
+    if (lhs.is_zero() || rhs.is_zero())
     {
-        out.append(lhs);
         return out;
     }
 
-    auto q = lhs.q * rhs.q;
-    if (q.is_zero())
-    {
-        return out;
-    }
-
-    out.q = q;
+    out.q = lhs.q * rhs.q;
     if (lhs.back().checksum < rhs.back().checksum)
     {
         out.append(lhs);
@@ -1139,24 +1148,12 @@ template <typename A, width_t S1, width_t S2>
 constexpr auto scalar_product(detail::rpne<A, S1> const& lhs, detail::rpne<A, S2> const& rhs)
 {
     detail::rpne<A, S1 + S2 + 2> out;
-    if (lhs.count == 0)
-    {
-        out.append(rhs);
-        return out;
-    }
-    else if (rhs.count == 0)
+    if (lhs.is_zero() || rhs.is_zero())
     {
-        out.append(lhs);
         return out;
     }
 
-    auto q = lhs.q * rhs.q;
-    if (q.is_zero())
-    {
-        return out;
-    }
-
-    out.q = q;
+    out.q = lhs.q * rhs.q;
     if (lhs.back().checksum < rhs.back().checksum)
     {
         out.append(lhs);
-- 
2.43.0


From 643c1e7dab6f23668e11601af5016b16bfec008f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:48 +0000
Subject: [PATCH 11/31] fix: expression nodes with different scale factors are
 not equal

Node equality ignored q, so e.g. (a + b) * c and (a + 2 * b) * c, or sqrt(2 * x)
and sqrt(3 * x), were treated as a common subexpression.
---
 public/gal/expr.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index 595e484..2292072 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -114,7 +114,8 @@ namespace detail
 
         constexpr bool operator==(node const& other) const
         {
-            return o == other.o && checksum == other.checksum && ex == other.ex;
+            return o == other.o && checksum == other.checksum && ex == other.ex
+                   && q.num == other.q.num && q.den == other.q.den;
         }
 
         constexpr bool operator!=(node const& other) const
-- 
2.43.0


From c774532cedaed497dc810e0774a15273c047e32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:53 +0000
Subject: [PATCH 12/31] fix: inner products keep their operand order and
 include scalar parts

The inner product of blades of different grade is not symmetric, so operands
may not be reordered, and the scalar product must include the product of the
scalar components, which the symmetric inner product omits.
---
 public/gal/expr.hpp | 30 +++++++-----------------------
 1 file changed, 7 insertions(+), 23 deletions(-)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index 2292072..bb04a93 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -1123,16 +1123,8 @@ constexpr auto operator|(detail::rpne<A, S1> const& lhs, detail::rpne<A, S2> con
     }
 
     out.q = lhs.q * rhs.q;
-    if (lhs.back().checksum < rhs.back().checksum)
-    {
-        out.append(lhs);
-        out.append(rhs);
-    }
-    else
-    {
-        out.append(rhs);
-        out.append(lhs);
-    }
+    out.append(lhs);
+    out.append(rhs);
     out.append(detail::op_sip);
     out.nodes[out.count - 1].checksum
         = detail::crc32(lhs.back().checksum + rhs.back().checksum + (detail::op_sip << 8));
@@ -1155,22 +1147,14 @@ constexpr auto scalar_product(detail::rpne<A, S1> const& lhs, detail::rpne<A, S2
     }
 
     out.q = lhs.q * rhs.q;
-    if (lhs.back().checksum < rhs.back().checksum)
-    {
-        out.append(lhs);
-        out.append(rhs);
-    }
-    else
-    {
-        out.append(rhs);
-        out.append(lhs);
-    }
+    out.append(lhs);
+    out.append(rhs);
 
-    // Implement the scalar product as the scalar component of the symmetric inner product
+    // Implement the scalar product as the scalar component of the geometric product
 
-    out.append(detail::op_sip);
+    out.append(detail::op_gp);
     out.nodes[out.count - 1].checksum
-        = detail::crc32(lhs.back().checksum + rhs.back().checksum + (detail::op_sip << 8));
+        = detail::crc32(lhs.back().checksum + ~rhs.back().checksum + (detail::op_gp << 8));
 
     out.append(detail::op_comp);
     out.nodes[out.count - 1].ex       = 0;
-- 
2.43.0


From 9ef1921fcb5bf10d904824df355409117a138e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:58 +0000
Subject: [PATCH 13/31] fix: the constant E evaluates to e instead of pi

---
 public/gal/expr.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index bb04a93..b057fc3 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -383,7 +383,8 @@ namespace detail
         template <typename A>
         constexpr rpne<A, 1> convert() const noexcept
         {
-            return {{node{c_pi, c_pi}}, 1, q};
+            uint32_t o = static_cast<uint32_t>(c_const_start + (id - ind_constant_start));
+            return {{node{o, o}}, 1, q};
         }
     };
 } // namespace detail
-- 
2.43.0


From 8de5df25d685c00de63e4951b7a40f6e4189192c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:04 +0000
Subject: [PATCH 14/31] fix: bare floating-point inputs are accepted in any
 argument position

---
 public/gal/engine.hpp | 15 ++++++++++++++-
 public/gal/expr.hpp   |  2 +-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/public/gal/engine.hpp b/public/gal/engine.hpp
index 17c1dd3..9d8f954 100644
--- a/public/gal/engine.hpp
+++ b/public/gal/engine.hpp
@@ -345,7 +345,20 @@ namespace detail
     template <typename D, typename... Ds>
     struct infer_field<D, Ds...>
     {
-        using value_t = typename D::value_t;
+        template <typename T>
+        static auto infer() noexcept
+        {
+            if constexpr (std::is_floating_point_v<T>)
+            {
+                return T{};
+            }
+            else
+            {
+                return typename T::value_t{};
+            }
+        }
+
+        using value_t = decltype(infer<D>());
     };
 
     template <>
diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index b057fc3..c5716c5 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -297,7 +297,7 @@ namespace detail
 
         if constexpr (sizeof...(Ds) > 0)
         {
-            if (std::is_floating_point_v<D>)
+            if constexpr (std::is_floating_point_v<D>)
             {
                 return rpne_entities<A, S, Ds...>(out, current_id + 1, i + 1);
             }
-- 
2.43.0


From c7930f3361a24801083966359729e6ee96bf47b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:36 +0000
Subject: [PATCH 15/31] fix: keep constants, components and temporaries in the
 right basis when a null basis is used

Null-basis constants were used as if they were natural-basis elements,
component selection picked a natural-basis component, and temporaries were
converted to the null basis although later expressions refer to their natural
terms (which could also write past the data array).
---
 public/gal/dfa.hpp    | 51 ++++++++++++++++++++++++++++++++++---------
 public/gal/engine.hpp | 12 ++--------
 2 files changed, 43 insertions(+), 20 deletions(-)

diff --git a/public/gal/dfa.hpp b/public/gal/dfa.hpp
index 63bc8b7..bc5a41c 100644
--- a/public/gal/dfa.hpp
+++ b/public/gal/dfa.hpp
@@ -612,6 +612,21 @@ namespace detail
         // Unused except when evaluating subexpressions
         constexpr static rpn_state temp_state{State.inputs, State.temps, tuple<>{}, State.id_count};
 
+        // Extract the component specified by the current node (expressed in the null basis if the
+        // algebra uses one)
+        template <typename M>
+        constexpr static auto component_of(M const& m) noexcept
+        {
+            if constexpr (uses_null_basis<algebra_t>)
+            {
+                return to_null_basis(m)[n.ex];
+            }
+            else
+            {
+                return m[n.ex];
+            }
+        }
+
         constexpr static auto compute_state() noexcept
         {
             if constexpr (n.o == op_id)
@@ -668,11 +683,16 @@ namespace detail
             {
                 // Force the current arg on the stack to be evaluated as a temporary.
                 constexpr auto pop = State.args.pop();
-                return rpn_state{State.inputs,
-                                 State.temps.append(rpn_temp{
-                                     pop.first.second, op_noop, n.checksum, State.id_count}),
-                                 pop.second,
-                                 State.id_count + pop.first.second.size.term};
+                constexpr auto arg = pop.first.second;
+                return rpn_state{
+                    State.inputs,
+                    State.temps.append(
+                        rpn_temp{arg.template resize<arg.size.ind, arg.size.mon, arg.size.term>(),
+                                 op_noop,
+                                 n.checksum,
+                                 State.id_count}),
+                    pop.second,
+                    State.id_count + arg.size.term};
             }
             else if constexpr (n.o == op_rev)
             {
@@ -795,7 +815,7 @@ namespace detail
             else if constexpr (n.o == op_comp)
             {
                 constexpr auto pop  = State.args.pop();
-                constexpr auto comp = pop.first.second[n.ex];
+                constexpr auto comp = component_of(pop.first.second);
                 return rpn_state{
                     State.inputs,
                     State.temps,
@@ -839,10 +859,21 @@ namespace detail
                 auto g = n.o - c_scalar;
                 mv<algebra_t, 0, 1, 1> c{
                     mv_size{0, 1, 1}, {}, {mon{one, zero, 0, 0}}, {term{1, 0, g}}};
-                return rpn_state{State.inputs,
-                                 State.temps,
-                                 State.args.push(make_pair(n.checksum, c)),
-                                 State.id_count};
+                if constexpr (uses_null_basis<algebra_t>)
+                {
+                    // Constants are specified in the null basis
+                    return rpn_state{State.inputs,
+                                     State.temps,
+                                     State.args.push(make_pair(n.checksum, to_natural_basis(c))),
+                                     State.id_count};
+                }
+                else
+                {
+                    return rpn_state{State.inputs,
+                                     State.temps,
+                                     State.args.push(make_pair(n.checksum, c)),
+                                     State.id_count};
+                }
             }
         }
 
diff --git a/public/gal/engine.hpp b/public/gal/engine.hpp
index 9d8f954..5568b1d 100644
--- a/public/gal/engine.hpp
+++ b/public/gal/engine.hpp
@@ -265,16 +265,8 @@ namespace detail
             constexpr static auto ie = temps.template get<I>().ie;
             constexpr static auto o  = temps.template get<I>().o;
             constexpr static auto id = temps.template get<I>().id;
-            if constexpr (detail::uses_null_basis<A>)
-            {
-                constexpr static auto null_conversion = detail::to_null_basis(ie);
-                compute_temp<null_conversion, o, V, A>(
-                    data, std::make_index_sequence<null_conversion.size.term>{}, id);
-            }
-            else
-            {
-                compute_temp<ie, o, V, A>(data, std::make_index_sequence<ie.size.term>(), id);
-            }
+            // NOTE: temporaries are referred to by terms of the natural basis
+            compute_temp<ie, o, V, A>(data, std::make_index_sequence<ie.size.term>(), id);
 
             if constexpr (I + 1 != std::decay_t<decltype(temps)>::size())
             {
-- 
2.43.0


From f255a334a6ad3ab869bbcf598673bec0a82b8a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:29 +0000
Subject: [PATCH 16/31] fix: PGA rotor expands to cos(t/2) + sin(t/2) * axis

The monomials referred to the wrong indeterminates.
---
 public/gal/pga.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/public/gal/pga.hpp b/public/gal/pga.hpp
index fd96af8..a5dfe20 100644
--- a/public/gal/pga.hpp
+++ b/public/gal/pga.hpp
@@ -175,9 +175,9 @@ namespace pga
                      ind{id + 1, one}, // x * sin(t/2)
                      ind{id + 2, one}},
                     {mon{one, one, 1, 0},
-                     mon{one, one, 1, 1},
-                     mon{minus_one, rat{2}, 2, 2},
-                     mon{one, rat{2}, 2, 3}},
+                     mon{one, rat{2}, 2, 1},
+                     mon{minus_one, rat{2}, 2, 3},
+                     mon{one, rat{2}, 2, 5}},
                     {term{1, 0, 0b0}, term{1, 1, 0b110}, term{1, 2, 0b1010}, term{1, 3, 0b1100}}};
         }
 
-- 
2.43.0


From 28cadf02de35a29dde0dba14bc0679d0560e939d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:34 +0000
Subject: [PATCH 17/31] fix: PGA translator expands to 1 - d/2 * axis

The monomials referred to the wrong indeterminates.
---
 public/gal/pga.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/public/gal/pga.hpp b/public/gal/pga.hpp
index a5dfe20..8748888 100644
--- a/public/gal/pga.hpp
+++ b/public/gal/pga.hpp
@@ -236,14 +236,14 @@ namespace pga
                     {ind{id, one}, // d * l_x
                      ind{id + 1, one},
                      ind{id, one}, // d * l_y
-                     ind{id + 1, one},
+                     ind{id + 2, one},
                      ind{id, one}, // d * l_z
-                     ind{id + 2, one}},
+                     ind{id + 3, one}},
                     {
                         mon{one, zero, 0, 0},              // 1
-                        mon{minus_one_half, rat{2}, 2, 1}, // -1/2 * l_x
+                        mon{minus_one_half, rat{2}, 2, 0}, // -1/2 * l_x
                         mon{minus_one_half, rat{2}, 2, 2}, // -1/2 * l_y
-                        mon{minus_one_half, rat{2}, 2, 3}  // -1/2 * l_z
+                        mon{minus_one_half, rat{2}, 2, 4}  // -1/2 * l_z
                     },
                     {term{1, 0, 0b0}, term{1, 1, 0b11}, term{1, 2, 0b101}, term{1, 3, 0b1001}}};
         }
-- 
2.43.0


From 53592cacac470c8642a0b2fe30e09cfa1cff760b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:39 +0000
Subject: [PATCH 18/31] fix: PGA vectors have three terms

The declared size exceeded the storage, so expressions using a vector did not
compile.
---
 public/gal/pga.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/public/gal/pga.hpp b/public/gal/pga.hpp
index 8748888..bfd5d9f 100644
--- a/public/gal/pga.hpp
+++ b/public/gal/pga.hpp
@@ -403,7 +403,7 @@ namespace pga
         // Like planes, points are represented dually as the intersection of three planes
         GAL_NODISCARD constexpr static mv<algebra_t, 3, 3, 3> ie(uint32_t id) noexcept
         {
-            return {mv_size{3, 4, 4},
+            return {mv_size{3, 3, 3},
                     {
                         ind{id + 2, one}, // -z
                         ind{id + 1, one}, // y
-- 
2.43.0


From 673f1a36c8530a96f4e75979f4ff04166d6d4922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:39 +0000
Subject: [PATCH 19/31] fix: PGA2 points depend on both coordinates and divide
 by their weight

---
 public/gal/pga2.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/public/gal/pga2.hpp b/public/gal/pga2.hpp
index bdaada1..6c24a6f 100644
--- a/public/gal/pga2.hpp
+++ b/public/gal/pga2.hpp
@@ -151,7 +151,7 @@ namespace pga2
                         ind{id + 1, 1}, // -y
                         ind{id, 1}      // x
                     },
-                    {mon{minus_one, one, 0, 1}, // -y
+                    {mon{minus_one, one, 1, 0}, // -y
                      mon{one, one, 1, 1},       // x
                      mon{one, zero, 0, 0}},     // point at origin
                     {
@@ -177,8 +177,8 @@ namespace pga2
             , y{in.template select<0b11>()}
         {
             auto w_inv = T{1} / in.template select<0b110>();
-            x          = w_inv;
-            y          = -w_inv;
+            x *= w_inv;
+            y *= -w_inv;
         }
 
         [[nodiscard]] constexpr T const& operator[](size_t index) const noexcept
-- 
2.43.0


From 99a3bd583082752aa7b4989a20fd5c1af3d42ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:45 +0000
Subject: [PATCH 20/31] fix: motor logarithm of a half turn

For a rotation by pi the angle was computed as atan2(-p1, p2), which is zero
for a rotation without translation. sin(u) = s2 and cos(u) = s1 determine the
angle in every case.
---
 public/gal/pga.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/public/gal/pga.hpp b/public/gal/pga.hpp
index bfd5d9f..1237a76 100644
--- a/public/gal/pga.hpp
+++ b/public/gal/pga.hpp
@@ -558,7 +558,7 @@ namespace pga
         entity<pga_algebra, T, 0, 0b1111> inv_norm{T{1} / s2, p2 / l2.template select<0>()};
 
         bool s1_zero = std::abs(s1) < T{1e-6};
-        scalar<pga_algebra, T> u{s1_zero ? ::std::atan2(-p1, p2) : ::std::atan2(s2, s1)};
+        scalar<pga_algebra, T> u{::std::atan2(s2, s1)};
         scalar<pga_algebra, T> v{s1_zero ? -p1 / s2 : p2 / s1};
 
         return compute(
-- 
2.43.0


From 0a0d4df0738ade3a3e2fcd548105e7bd758de7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:56 +0000
Subject: [PATCH 21/31] fix: bivector_mv only contains bivectors

From dimension 4 on, elements of grade 4 were enumerated as well.
---
 public/gal/geometric_algebra.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/public/gal/geometric_algebra.hpp b/public/gal/geometric_algebra.hpp
index 6f9534b..0ac1484 100644
--- a/public/gal/geometric_algebra.hpp
+++ b/public/gal/geometric_algebra.hpp
@@ -126,7 +126,10 @@ struct algebra
             out.inds[i]  = ind{id++, one};
             out.mons[i]  = mon{one, one, 1, i};
             out.terms[i] = term{1, i, e};
-            e            = next_even(e);
+            do
+            {
+                e = next_even(e);
+            } while (pop_count(e) != 2);
         }
         return out;
     }
-- 
2.43.0


From 0b2ebbc414164575e85dc48d7f7513884c68796c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:03 +0000
Subject: [PATCH 22/31] fix: divisors and function arguments are always
 evaluated first

Only the most recently registered subexpression was forced into a temporary,
which is not necessarily the operand (e.g. if it was seen before, begins the
expression or ends in a component selection). The function was then applied to
each monomial separately, or only the first monomial of the divisor was used.
---
 public/gal/dfa.hpp | 97 +++++++++++++++++++++++++++++-----------------
 1 file changed, 61 insertions(+), 36 deletions(-)

diff --git a/public/gal/dfa.hpp b/public/gal/dfa.hpp
index bc5a41c..d0b263f 100644
--- a/public/gal/dfa.hpp
+++ b/public/gal/dfa.hpp
@@ -232,6 +232,44 @@ namespace detail
         return 0;
     }
 
+    // Ensure that the operand spanning the nodes [offset, end) is evaluated as a temporary.
+    template <typename A, width_t C>
+    constexpr void
+    require_se(rpne<A, C>& exp, cses<C>& known, width_t offset, width_t end) noexcept
+    {
+        width_t count = end - offset;
+        if (count == 1)
+        {
+            // Inputs and constants consist of a single indeterminate or value already.
+            return;
+        }
+
+        node& first = exp.nodes[offset];
+        if (first.o == op_cse && first.checksum == end)
+        {
+            known.ses[first.ex].required = true;
+            return;
+        }
+
+        for (width_t i = 0; i != known.count; ++i)
+        {
+            if (known.ses[i].offset == offset && known.ses[i].count == count)
+            {
+                known.ses[i].required = true;
+                return;
+            }
+        }
+
+        // Component and grade selections are not registered as subexpressions on their own.
+        width_t se_i = register_se(exp, known, exp.nodes[end - 1].checksum, offset, count, true);
+        if (se_i > 0)
+        {
+            first.o        = op_cse;
+            first.checksum = end;
+            first.ex       = se_i - 1;
+        }
+    }
+
     template <typename A, width_t C>
     constexpr static auto rpn_reshape(rpne<A, C> expr) noexcept
     {
@@ -295,25 +333,7 @@ namespace detail
             case op_div: {
                 // Division requires its second operand to be extracted.
 
-                // Mark the last known se as required IF
-                // 1. The prior se is not a constant AND
-                // 2. The prior se is not a cse
-
-                if (i > 2)
-                {
-                    width_t last_offset = offsets.peek();
-                    node const& prev    = expr.nodes[last_offset];
-                    if (last_offset == i - 2 && !is_read_op(expr.nodes[i - 1].o))
-                    {
-                        known.ses[known.count - 1].required = true;
-                    }
-                    else if (last_offset < i - 2 && prev.o != op_cse && prev.checksum != i)
-                    {
-                        known.ses[known.count - 1].required = true;
-                    }
-                }
-
-                offsets.pop();
+                require_se(expr, known, offsets.pop(), i);
                 width_t offset = offsets.peek();
                 width_t se_i   = register_se(expr, known, n.checksum, offset, i - offset + 1, true);
                 if (se_i > 0)
@@ -338,19 +358,8 @@ namespace detail
             case op_tan: {
                 width_t offset = offsets.peek();
 
-                // Check if the argument has been extracted. If not, mark it as required.
-                if (i > 2)
-                {
-                    node const& prev = expr.nodes[offset];
-                    if (offset == i - 2 && !is_read_op(expr.nodes[i - 1].o))
-                    {
-                        known.ses[known.count - 1].required = true;
-                    }
-                    else if (offset < i - 2 && !(prev.o == op_cse && prev.checksum == i))
-                    {
-                        known.ses[known.count - 1].required = true;
-                    }
-                }
+                // The argument needs to be extracted as well
+                require_se(expr, known, offset, i);
 
                 width_t se_i = register_se(expr, known, n.checksum, offset, i - offset + 1, true);
                 if (se_i > 0)
@@ -800,10 +809,26 @@ namespace detail
             }
             else if constexpr (n.o == op_cos)
             {
-                auto args                    = State.args;
-                args.template get<0>().first = n.checksum;
-                args.template get<0>().second.cos(n.q);
-                return rpn_state{State.inputs, State.temps, args, State.id_count};
+                constexpr auto pop = State.args.pop();
+                if constexpr (pop.first.second.size.term == 0)
+                {
+                    // cos(0) = 1
+                    mv<algebra_t, 0, 1, 1> c{
+                        mv_size{0, 1, 1}, {}, {mon{one, zero, 0, 0}}, {term{1, 0, 0}}};
+                    return rpn_state{State.inputs,
+                                     State.temps,
+                                     pop.second.push(make_pair(n.checksum, c)),
+                                     State.id_count};
+                }
+                else
+                {
+                    auto arg = pop.first.second;
+                    arg.cos(n.q);
+                    return rpn_state{State.inputs,
+                                     State.temps,
+                                     pop.second.push(make_pair(n.checksum, arg)),
+                                     State.id_count};
+                }
             }
             else if constexpr (n.o == op_tan)
             {
-- 
2.43.0


From e8ee59883db4f59ba72b6627397981feeaeab87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:08 +0000
Subject: [PATCH 23/31] fix: tuples of results may share subexpressions or
 contain zero

The length of a tuple member was not updated when common subexpressions were
contracted, so a member consumed nodes of the next one, and a member that is
exactly zero did not compile.
---
 public/gal/dfa.hpp  | 9 +++++++++
 public/gal/expr.hpp | 9 ++++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/public/gal/dfa.hpp b/public/gal/dfa.hpp
index d0b263f..953244f 100644
--- a/public/gal/dfa.hpp
+++ b/public/gal/dfa.hpp
@@ -590,6 +590,15 @@ namespace detail
             }
         }
 
+        // Subexpressions that are not consumed by a polyadic operator are members of a returned tuple.
+        // Their lengths need to be adjusted as well.
+        for (width_t k = 0; k != se_stack.count; ++k)
+        {
+            auto [se, offset] = se_stack[k];
+            width_t next      = k + 1 == se_stack.count ? out.count + 1 : se_stack[k + 1].second;
+            se->ex            = next - offset - 1;
+        }
+
         out.q = expr.q;
         return out;
     }
diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index c5716c5..7ec6765 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -242,6 +242,13 @@ namespace detail
         template <width_t S1>
         constexpr void append_as_se(rpne<A, S1> const& src) noexcept
         {
+            if (src.is_zero())
+            {
+                nodes[count++] = node{op_se, 0, 1, one};
+                nodes[count++] = node{c_zero, c_zero};
+                return;
+            }
+
             nodes[count++] = node{op_se, 0, src.count, src.q};
             for (width_t i = 0; i != src.count; ++i)
             {
@@ -361,7 +368,7 @@ namespace detail
             using A                    = typename decltype(input.template get<0>())::algebra_t;
             constexpr width_t capacity = input.apply([](auto const&... args) {
                 return (std::decay_t<decltype(args)>::capacity + ...);
-            }) + static_cast<width_t>(std::decay_t<decltype(input)>::size());
+            }) + 2 * static_cast<width_t>(std::decay_t<decltype(input)>::size());
 
             return input.apply([capacity](auto const&... args) {
                 rpne<A, capacity> out;
-- 
2.43.0


From 769309d839d9e4f51aea959ec95dcf85ae8b9333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:25 +0000
Subject: [PATCH 24/31] fix: tuple split at zero and split_drop return the
 right elements

split<0> returned two empty tuples, and split_drop (and split_at_type) dropped the last
element instead of the one at the index supplied.
---
 public/gal/tuple.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/public/gal/tuple.hpp b/public/gal/tuple.hpp
index 5a05971..b25400f 100644
--- a/public/gal/tuple.hpp
+++ b/public/gal/tuple.hpp
@@ -121,14 +121,15 @@ struct tuple : public tuple_impl<std::make_index_sequence<sizeof...(T)>, T...>
     template <size_t I>
     constexpr auto split() const
     {
-        return split_n(std::make_index_sequence<I>{}, std::make_index_sequence<sizeof...(T) - I>{});
+        return split_n<I>(
+            std::make_index_sequence<I>{}, std::make_index_sequence<sizeof...(T) - I>{});
     }
 
     // Similar to split but the element at the index supplied is omitted from the returned tuples.
     template <size_t I>
     constexpr auto split_drop() const
     {
-        return split_n(
+        return split_n<I + 1>(
             std::make_index_sequence<I>{}, std::make_index_sequence<sizeof...(T) - I - 1>{});
     }
 
@@ -201,18 +202,20 @@ private:
         }
     }
 
-    template <size_t... I1, size_t... I2>
+    // The first tuple returned contains the elements I1 and the second tuple the elements starting
+    // at the offset supplied
+    template <size_t Offset, size_t... I1, size_t... I2>
     constexpr auto split_n(std::index_sequence<I1...>, std::index_sequence<I2...>) const
     {
         if constexpr (sizeof...(I1) == 0)
         {
-            if constexpr (sizeof...(I1) == 0)
+            if constexpr (sizeof...(I2) == 0)
             {
                 return make_pair(tuple<>{}, tuple<>{});
             }
             else
             {
-                tuple<decltype(get<I2>())...> second{get<I2>()...};
+                tuple<decltype(get<Offset + I2>())...> second{get<Offset + I2>()...};
                 return make_pair(tuple<>{}, second);
             }
         }
@@ -224,7 +227,7 @@ private:
         else
         {
             tuple<decltype(get<I1>())...> first{get<I1>()...};
-            tuple<decltype(get<sizeof...(I1) + I2>())...> second{get<sizeof...(I1) + I2>()...};
+            tuple<decltype(get<Offset + I2>())...> second{get<Offset + I2>()...};
             return make_pair(first, second);
         }
     }
-- 
2.43.0


From 9fcad9f9c866da51e476aa67b02150491bcbb18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:35 +0000
Subject: [PATCH 25/31] fix: selecting from the zero entity behaves as for any
 other entity

Indexing a mutable zero entity did not compile and selecting several elements returned a
single value.
---
 public/gal/entity.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/public/gal/entity.hpp b/public/gal/entity.hpp
index f8a6015..9823a03 100644
--- a/public/gal/entity.hpp
+++ b/public/gal/entity.hpp
@@ -148,9 +148,16 @@ struct entity<A, T>
     }
 
     template <elem_t... S>
-    GAL_NODISCARD constexpr T select() const noexcept
+    GAL_NODISCARD constexpr auto select() const noexcept
     {
-        return {0};
+        if constexpr (sizeof...(S) == 1)
+        {
+            return T{0};
+        }
+        else
+        {
+            return std::array<T, sizeof...(S)>{};
+        }
     }
 
     GAL_NODISCARD constexpr T select(elem_t e) const noexcept
@@ -182,11 +189,6 @@ struct entity<A, T>
     {
         return {0};
     }
-
-    GAL_NODISCARD constexpr T& operator[](size_t index) noexcept
-    {
-        return {0};
-    }
 };
 
 template <typename A, typename T>
-- 
2.43.0


From f3deba2daee059a9928958b7f8f88eb6b353163c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:35 +0000
Subject: [PATCH 26/31] fix: PGA2 vectors are ideal points of the plane

The type was a copy of the three-dimensional vector: its elements do not exist in the
eight-dimensional algebra and its expansion did not fit the multivector it returned.
---
 public/gal/pga2.hpp | 34 ++++++++++++++--------------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/public/gal/pga2.hpp b/public/gal/pga2.hpp
index 6c24a6f..034f70e 100644
--- a/public/gal/pga2.hpp
+++ b/public/gal/pga2.hpp
@@ -199,52 +199,46 @@ namespace pga2
         using value_t                 = T;
         constexpr static bool is_dual = true;
 
-        std::array<T, 3> data;
+        std::array<T, 2> data;
         struct
         {
             T x;
             T y;
-            T z;
         };
 
-        // Like planes, points are represented dually as the intersection of three planes
-        [[nodiscard]] constexpr static mv<algebra_t, 3, 3, 3> ie(uint32_t id) noexcept
+        // A vector is represented as a point at infinity
+        [[nodiscard]] constexpr static mv<algebra_t, 2, 2, 2> ie(uint32_t id) noexcept
         {
-            return {mv_size{3, 4, 4},
+            return {mv_size{2, 2, 2},
                     {
-                        ind{id + 2, 1}, // -z
-                        ind{id + 1, 1}, // y
-                        ind{id, 1}      // -x
+                        ind{id + 1, 1}, // -y
+                        ind{id, 1}      // x
                     },
                     {
-                        mon{minus_one, one, 0, 1}, // -z
-                        mon{one, one, 1, 1},       // y
-                        mon{minus_one, one, 2, 1}  // -x
+                        mon{minus_one, one, 1, 0}, // -y
+                        mon{one, one, 1, 1}        // x
                     },
                     {
-                        term{1, 0, 0b111},  // -z * e012
-                        term{1, 1, 0b1011}, // y * e013
-                        term{1, 2, 0b1101}  // x * e023
+                        term{1, 0, 0b11}, // -y * e01
+                        term{1, 1, 0b101} // x * e02
                     }};
         }
 
         [[nodiscard]] constexpr static size_t size() noexcept
         {
-            return 3;
+            return 2;
         }
 
-        constexpr vector(T x, T y, T z) noexcept
+        constexpr vector(T x, T y) noexcept
             : x{x}
             , y{y}
-            , z{z}
         {}
 
         template <elem_t... E>
         constexpr vector(entity<pga2_algebra, T, E...> in) noexcept
-            : data{in.template select<0b1101, 0b1011, 0b111>()}
+            : data{in.template select<0b101, 0b11>()}
         {
-            z = -z;
-            x = -x;
+            y = -y;
         }
 
         [[nodiscard]] constexpr T const& operator[](size_t index) const noexcept
-- 
2.43.0


From d475c8cc893c9c2581386e1b69a5bc93847465f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:54 +0000
Subject: [PATCH 27/31] fix: cga2.hpp compiles against the current expression
 engine

The header still referred to the removed expr templates, so it could not be included. The
constants become literals as in cga.hpp and the point refers to its own input id.
---
 public/gal/cga2.hpp | 125 ++++++++++++++++----------------------------
 1 file changed, 44 insertions(+), 81 deletions(-)

diff --git a/public/gal/cga2.hpp b/public/gal/cga2.hpp
index f62a8e0..98adf55 100644
--- a/public/gal/cga2.hpp
+++ b/public/gal/cga2.hpp
@@ -19,92 +19,55 @@ namespace cga2
     // The CRA is a graded algebra with 16 basis elements
     using cga2_algebra = gal::algebra<cga2_metric>;
 
-    // 0b1 => e+ extension
-    // 0b1000 => e- extension
-    namespace detail
+    // Before change-of-basis:
+    // 0b100 => no
+    // 0b1000 => ni
+
+    constexpr detail::rpne<cga2_algebra, 1> operator"" _e1(unsigned long long n)
+    {
+        uint32_t op = detail::c_scalar + 0b1;
+        return {{detail::node{op, op}}, 1, rat{static_cast<num_t>(n), 1}};
+    }
+
+    constexpr detail::rpne<cga2_algebra, 1> operator"" _e2(unsigned long long n)
+    {
+        uint32_t op = detail::c_scalar + 0b10;
+        return {{detail::node{op, op}}, 1, rat{static_cast<num_t>(n), 1}};
+    }
+
+    constexpr detail::rpne<cga2_algebra, 1> operator"" _no(unsigned long long n)
+    {
+        uint32_t op = detail::c_scalar + 0b100;
+        return {{detail::node{op, op}}, 1, rat{static_cast<num_t>(n), 1}};
+    }
+
+    constexpr detail::rpne<cga2_algebra, 1> operator"" _ni(unsigned long long n)
+    {
+        uint32_t op = detail::c_scalar + 0b1000;
+        return {{detail::node{op, op}}, 1, rat{static_cast<num_t>(n), 1}};
+    }
+
+    constexpr detail::rpne<cga2_algebra, 1> operator"" _ps(unsigned long long n)
+    {
+        uint32_t op = detail::c_scalar + 0b1111;
+        return {{detail::node{op, op}}, 1, rat{static_cast<num_t>(n), 1}};
+    }
+
+    constexpr detail::rpne<cga2_algebra, 1> operator"" _ips(unsigned long long n)
     {
-        // These tags are needed to provide unique specializations for the expressions for n_o and
-        // n_i
-        template <typename T>
-        struct n_o_tag
-        {};
-
-        template <typename T>
-        struct n_i_tag
-        {};
-
-        template <typename T>
-        struct pseudoscalar_tag
-        {};
-
-        template <typename T>
-        struct pseudoscalar_inv_tag
-        {};
-    } // namespace detail
+        uint32_t op = detail::c_scalar + 0b1111;
+        return {{detail::node{op, op}}, 1, rat{static_cast<num_t>(-n), 1}};
+    }
 } // namespace cga2
 
 namespace detail
 {
     template <>
-    constexpr inline bool uses_null_basis<::gal::cga::cga2_algebra> = true;
+    constexpr inline bool uses_null_basis<::gal::cga2::cga2_algebra> = true;
 }
 
-template <typename T>
-struct expr<expr_op::identity, mv<cga2::cga2_algebra, 0, 1, 1>, cga2::detail::n_o_tag<T>>
-{
-    using value_t               = T;
-    using algebra_t             = cga2::cga2_algebra;
-    constexpr static expr_op op = expr_op::identity;
-    constexpr static mv<cga2::cga2_algebra, 0, 1, 1> lhs{mv_size{0, 1, 1},
-                                                         {},
-                                                         {mon{one, zero, 0, 0}},
-                                                         {term{1, 0, 0b1000}}};
-};
-
-template <typename T>
-struct expr<expr_op::identity, mv<cga2::cga2_algebra, 0, 1, 1>, cga2::detail::n_i_tag<T>>
-{
-    using value_t               = T;
-    using algebra_t             = cga2::cga2_algebra;
-    constexpr static expr_op op = expr_op::identity;
-    constexpr static mv<cga2::cga2_algebra, 0, 1, 1> lhs{mv_size{0, 1, 1},
-                                                         {},
-                                                         {mon{one, zero, 0, 0}},
-                                                         {term{1, 1, 0b1000}}};
-};
-
-template <typename T>
-struct expr<expr_op::identity, mv<cga2::cga2_algebra, 0, 1, 1>, cga2::detail::pseudoscalar_tag<T>>
-{
-    using value_t               = T;
-    using algebra_t             = cga2::cga2_algebra;
-    constexpr static expr_op op = expr_op::identity;
-    constexpr static auto lhs   = cga2::cga2_algebra::pseudoscalar;
-};
-
-template <typename T>
-struct expr<expr_op::identity, mv<cga::cga2_algebra, 0, 1, 1>, cga2::detail::pseudoscalar_inv_tag<T>>
-{
-    using value_t               = T;
-    using algebra_t             = cga2::cga2_algebra;
-    constexpr static expr_op op = expr_op::identity;
-    constexpr static auto lhs   = cga2::cga2_algebra::pseudoscalar_inv;
-};
-
 namespace cga2
 {
-    template <typename T = float>
-    constexpr inline expr<expr_op::identity, mv<cga2_algebra, 0, 1, 1>, detail::n_o_tag<T>> n_o;
-
-    template <typename T = float>
-    constexpr inline expr<expr_op::identity, mv<cga2_algebra, 0, 1, 1>, detail::e_inf_tag<T>> n_i;
-
-    template <typename T = float>
-    constexpr inline expr<expr_op::identity, mv<cga2_algebra, 0, 1, 1>, detail::pseudoscalar_tag<T>> ps;
-
-    template <typename T = float>
-    constexpr inline expr<expr_op::identity, mv<cga2_algebra, 0, 1, 1>, detail::pseudoscalar_inv_tag<T>> ips;
-
     template <typename T = float>
     union point
     {
@@ -141,15 +104,15 @@ namespace cga2
         {
             return {mv_size{4, 5, 4},
                     {
-                        ind{0, one},    // ind0 = p_x
-                        ind{1, one},    // ind1 = p_y
-                        ind{0, rat{2}}  // ind3 = p_x^2
-                        ind{1, rat{2}}, // ind3 = p_y^2
+                        ind{id, one},        // ind0 = p_x
+                        ind{id + 1, one},    // ind1 = p_y
+                        ind{id, rat{2}},     // ind2 = p_x^2
+                        ind{id + 1, rat{2}}, // ind3 = p_y^2
                     },
                     {
                         mon{one, one, 1, 0},         // p_x
                         mon{one, one, 1, 1},         // p_y
-                        mon{one, zero, 0, 0, 0},     // n_o
+                        mon{one, zero, 0, 0},        // n_o
                         mon{one_half, rat{2}, 1, 2}, // 1/2 p_x^2
                         mon{one_half, rat{2}, 1, 3}  // 1/2 p_y^2
                     },
-- 
2.43.0


From 81eaf7135fe28ec7fd640b3986e43dbf7fdbbde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:34 +0000
Subject: [PATCH 28/31] fix: PGA lines satisfy the Pluecker relation

The three moment coordinates of a line must enter with the same sign, or the
join of two points is not a line (direction . moment is not zero).
---
 public/gal/pga.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/public/gal/pga.hpp b/public/gal/pga.hpp
index 1237a76..d8afb52 100644
--- a/public/gal/pga.hpp
+++ b/public/gal/pga.hpp
@@ -487,7 +487,7 @@ namespace pga
                     },
                     {
                         mon{minus_one, one, 1, 0}, // mx
-                        mon{one, one, 1, 1},       // my
+                        mon{minus_one, one, 1, 1}, // my
                         mon{minus_one, one, 1, 2}, // dz
                         mon{minus_one, one, 1, 3}, // mz
                         mon{one, one, 1, 4},       // dy
@@ -522,6 +522,7 @@ namespace pga
             : data{in.template select<0b1100, 0b1010, 0b110, 0b11, 0b101, 0b1001>()}
         {
             mx = -mx;
+            my = -my;
             mz = -mz;
             dx = -dx;
             dz = -dz;
-- 
2.43.0


From 2eab6b4b4847663dcac8af1efea14dcf1af16e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:34 +0000
Subject: [PATCH 29/31] fix: PGA2 points lie on the lines whose equation they
 satisfy

A line (d, x, y) is documented as x * px + y * py + d = 0, so the intersection
of two lines is the point y * e01 - x * e02 + e12; with the opposite sign the
meet and join came out reflected through the origin.
---
 public/gal/pga2.hpp | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/public/gal/pga2.hpp b/public/gal/pga2.hpp
index 034f70e..15a487b 100644
--- a/public/gal/pga2.hpp
+++ b/public/gal/pga2.hpp
@@ -148,15 +148,15 @@ namespace pga2
         {
             return {mv_size{2, 3, 3},
                     {
-                        ind{id + 1, 1}, // -y
-                        ind{id, 1}      // x
+                        ind{id + 1, 1}, // y
+                        ind{id, 1}      // -x
                     },
-                    {mon{minus_one, one, 1, 0}, // -y
-                     mon{one, one, 1, 1},       // x
+                    {mon{one, one, 1, 0},       // y
+                     mon{minus_one, one, 1, 1}, // -x
                      mon{one, zero, 0, 0}},     // point at origin
                     {
-                        term{1, 0, 0b11},  // -y * e01
-                        term{1, 1, 0b101}, // x * e02
+                        term{1, 0, 0b11},  // y * e01
+                        term{1, 1, 0b101}, // -x * e02
                         term{1, 2, 0b110}  // e12
                     }};
         }
@@ -177,8 +177,8 @@ namespace pga2
             , y{in.template select<0b11>()}
         {
             auto w_inv = T{1} / in.template select<0b110>();
-            x *= w_inv;
-            y *= -w_inv;
+            x *= -w_inv;
+            y *= w_inv;
         }
 
         [[nodiscard]] constexpr T const& operator[](size_t index) const noexcept
@@ -211,16 +211,16 @@ namespace pga2
         {
             return {mv_size{2, 2, 2},
                     {
-                        ind{id + 1, 1}, // -y
-                        ind{id, 1}      // x
+                        ind{id + 1, 1}, // y
+                        ind{id, 1}      // -x
                     },
                     {
-                        mon{minus_one, one, 1, 0}, // -y
-                        mon{one, one, 1, 1}        // x
+                        mon{one, one, 1, 0},      // y
+                        mon{minus_one, one, 1, 1} // -x
                     },
                     {
-                        term{1, 0, 0b11}, // -y * e01
-                        term{1, 1, 0b101} // x * e02
+                        term{1, 0, 0b11}, // y * e01
+                        term{1, 1, 0b101} // -x * e02
                     }};
         }
 
@@ -238,7 +238,7 @@ namespace pga2
         constexpr vector(entity<pga2_algebra, T, E...> in) noexcept
             : data{in.template select<0b101, 0b11>()}
         {
-            y = -y;
+            x = -x;
         }
 
         [[nodiscard]] constexpr T const& operator[](size_t index) const noexcept
-- 
2.43.0


From d66e02b56e1d4cfc1e0f4101fb1d791b17bbe240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:53 +0000
Subject: [PATCH 30/31] fix: motor logarithm divides by the larger of the two
 candidates near half turns

---
 public/gal/pga.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/public/gal/pga.hpp b/public/gal/pga.hpp
index d8afb52..1ffce88 100644
--- a/public/gal/pga.hpp
+++ b/public/gal/pga.hpp
@@ -558,7 +558,8 @@ namespace pga
 
         entity<pga_algebra, T, 0, 0b1111> inv_norm{T{1} / s2, p2 / l2.template select<0>()};
 
-        bool s1_zero = std::abs(s1) < T{1e-6};
+        // Both p1 / s2 and p2 / s1 yield v. Divide by the larger one to remain accurate near half turns
+        bool s1_zero = std::abs(s1) < s2;
         scalar<pga_algebra, T> u{::std::atan2(s2, s1)};
         scalar<pga_algebra, T> v{s1_zero ? -p1 / s2 : p2 / s1};
 
-- 
2.43.0


From ce41ce48079d83269b89dca60ed111efe79c0571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:13 +0000
Subject: [PATCH 31/31] fix: ordering of rationals multiplies in 64 bits, as
 equality does

The cross products of operator< and operator> overflowed num_t for
operands that fit in it, so the ordering of e.g. 2284229/2 and
1000/2284228 was undefined behaviour.
---
 public/gal/numeric.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/public/gal/numeric.hpp b/public/gal/numeric.hpp
index 7f1d944..85bdc2c 100644
--- a/public/gal/numeric.hpp
+++ b/public/gal/numeric.hpp
@@ -391,12 +391,12 @@ namespace detail
 
 [[nodiscard]] constexpr bool operator<(rat lhs, rat rhs) noexcept
 {
-    return (lhs.num * rhs.den) < (rhs.num * lhs.den);
+    return static_cast<int64_t>(lhs.num) * rhs.den < static_cast<int64_t>(rhs.num) * lhs.den;
 }
 
 [[nodiscard]] constexpr bool operator>(rat lhs, rat rhs) noexcept
 {
-    return (lhs.num * rhs.den) > (rhs.num * lhs.den);
+    return static_cast<int64_t>(lhs.num) * rhs.den > static_cast<int64_t>(rhs.num) * lhs.den;
 }
 
 [[nodiscard]] constexpr rat operator-(rat in) noexcept
-- 
2.43.0

