From 5b9ba1b97b9b66398a8b3f827abc6cc4b9a34971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:44 +0000
Subject: [PATCH 01/25] fix: two intervals intersect only when both overlap
 conditions hold

---
 include/boost/safe_numerics/interval.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/safe_numerics/interval.hpp b/include/boost/safe_numerics/interval.hpp
index c8a147e..9eb13f4 100644
--- a/include/boost/safe_numerics/interval.hpp
+++ b/include/boost/safe_numerics/interval.hpp
@@ -198,7 +198,7 @@ constexpr inline interval<T> operator&(const interval<T> & t, const interval<T>
 // determine whether two intervals intersect
 template<typename T>
 constexpr inline boost::logic::tribool intersect(const interval<T> & t, const interval<T> & u){
-    return t.u >= u.l || t.l <= u.u;
+    return t.u >= u.l && t.l <= u.u;
 }
 
 template<typename T>
-- 
2.43.0


From 58c56a024b74397e4dcc400ca71b6f3cfb594e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:44 +0000
Subject: [PATCH 02/25] fix: subtraction that reports without throwing falls
 back to t - u, not t + u

---
 include/boost/safe_numerics/safe_base_operations.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index 985de91..cb34d73 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -530,7 +530,7 @@ private:
 
         return
             rx.exception()
-            ? r.first + r.second
+            ? r.first - r.second
             : rx.m_contents.m_r;
     }
     using r_type_interval_t = interval<r_type>;
-- 
2.43.0


From a5590835dbff2c9dbcda526e4bed09f7f21cc032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:44 +0000
Subject: [PATCH 03/25] fix: modulus of the minimum value by itself is zero

---
 include/boost/safe_numerics/checked_integer.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/safe_numerics/checked_integer.hpp b/include/boost/safe_numerics/checked_integer.hpp
index 2893ca7..eb1f5a5 100644
--- a/include/boost/safe_numerics/checked_integer.hpp
+++ b/include/boost/safe_numerics/checked_integer.hpp
@@ -550,7 +550,8 @@ struct checked_operation<R, F,
                 return t % u;
             checked_result<R> ux = checked::minus(u);
             if(ux.exception())
-                return t;
+                // u is the minimum value, so |t| < |u| unless t == u
+                return t == u ? checked_result<R>(0) : checked_result<R>(t);
             return t % static_cast<R>(ux);
         }
     }; // modulus_impl_detail
-- 
2.43.0


From 6329f6fd998b964ed418dbea07efc7582f9c58c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:44 +0000
Subject: [PATCH 04/25] fix: an unsigned value below the minimum is a negative
 overflow

---
 include/boost/safe_numerics/checked_integer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/safe_numerics/checked_integer.hpp b/include/boost/safe_numerics/checked_integer.hpp
index eb1f5a5..cf41fd8 100644
--- a/include/boost/safe_numerics/checked_integer.hpp
+++ b/include/boost/safe_numerics/checked_integer.hpp
@@ -91,7 +91,7 @@ struct heterogeneous_checked_operation<
                 )
             :
             boost::safe_numerics::safe_compare::less_than(t, Min) ?
-                F::template invoke<safe_numerics_error::positive_overflow_error>(
+                F::template invoke<safe_numerics_error::negative_overflow_error>(
                     "converted unsigned value too small"
                 )
             :
@@ -113,7 +113,7 @@ struct heterogeneous_checked_operation<
                 )
             :
             boost::safe_numerics::safe_compare::less_than(t, Min) ?
-                F::template invoke<safe_numerics_error::positive_overflow_error>(
+                F::template invoke<safe_numerics_error::negative_overflow_error>(
                     "converted unsigned value too small"
                 )
             :
-- 
2.43.0


From e740f598a4c654d40db85c200e85d751809c0379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:50 +0000
Subject: [PATCH 05/25] fix: range of a remainder is bounded by the divisor,
 not by remainders of the range ends

---
 include/boost/safe_numerics/automatic.hpp     | 20 +--------------
 include/boost/safe_numerics/interval.hpp      | 25 ++++++++++++-------
 .../safe_numerics/safe_base_operations.hpp    | 24 +++++-------------
 3 files changed, 23 insertions(+), 46 deletions(-)

diff --git a/include/boost/safe_numerics/automatic.hpp b/include/boost/safe_numerics/automatic.hpp
index 16cebc2..563c92d 100644
--- a/include/boost/safe_numerics/automatic.hpp
+++ b/include/boost/safe_numerics/automatic.hpp
@@ -255,25 +255,7 @@ public:
             checked::cast<temp_base_type>(base_value(std::numeric_limits<U>::max()))
         };
 
-        constexpr static r_interval_type rx(){
-            if(u_interval.u < r_type(0)
-            || u_interval.l > r_type(0))
-                return t_interval / u_interval;
-            return utility::minmax(
-                std::initializer_list<r_type> {
-                    t_interval.l % u_interval.l,
-                    t_interval.l % r_type(-1),
-                    t_interval.l % r_type(1),
-                    t_interval.l % u_interval.u,
-                    t_interval.u % u_interval.l,
-                    t_interval.u % r_type(-1),
-                    t_interval.u % r_type(1),
-                    t_interval.u % u_interval.u,
-                }
-            );
-        }
-
-        constexpr static const r_interval_type r_interval = rx();
+        constexpr static const r_interval_type r_interval = t_interval % u_interval;
 
         constexpr static auto rl = r_interval.l;
         constexpr static auto ru = r_interval.u;
diff --git a/include/boost/safe_numerics/interval.hpp b/include/boost/safe_numerics/interval.hpp
index 9eb13f4..494cf97 100644
--- a/include/boost/safe_numerics/interval.hpp
+++ b/include/boost/safe_numerics/interval.hpp
@@ -139,17 +139,24 @@ constexpr inline interval<T> operator/(const interval<T> & t, const interval<T>
 }
 
 // modulus of two intervals.  This will give a new range of for the modulus.
-// note: presumes 0 is not included in the range of the denominator
+// The result has the sign of the dividend, is no larger in magnitude than the
+// dividend and is smaller in magnitude than the divisor.
+// note: divisors equal to 0 produce no result so they are ignored here
 template<typename T>
 constexpr inline interval<T> operator%(const interval<T> & t, const interval<T> & u){
-    assert(static_cast<bool>(u.excludes(T(0))));
-    return utility::minmax<T>(
-        std::initializer_list<T> {
-            t.l % u.l,
-            t.l % u.u,
-            t.u % u.l,
-            t.u % u.u
-        }
+    const T zero(0);
+    const T one(1);
+    // largest magnitude of divisor - 1
+    const T a(static_cast<bool>(zero < u.u) ? T(u.u - one) : zero);
+    const T b(static_cast<bool>(u.l < zero) ? T(-(u.l + one)) : zero);
+    const T m(static_cast<bool>(a < b) ? b : a);
+    return interval<T>(
+        static_cast<bool>(t.l < zero)
+            ? static_cast<bool>(T(t.l + m) < zero) ? T(-m) : t.l
+            : zero,
+        static_cast<bool>(zero < t.u)
+            ? static_cast<bool>(m < t.u) ? m : t.u
+            : zero
     );
 }
 
diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index cb34d73..c323bdf 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -974,24 +974,7 @@ private:
     };
 
     constexpr static const r_type_interval_t get_r_type_interval(){
-        constexpr const r_type_interval_t t = t_interval();
-        constexpr const r_type_interval_t u = u_interval();
-
-        if(u.u < r_type(0)
-        || u.l > r_type(0))
-            return t % u;
-        return utility::minmax(
-            std::initializer_list<r_type> {
-                t.l % u.l,
-                t.l % r_type(-1),
-                t.l % r_type(1),
-                t.l % u.u,
-                t.u % u.l,
-                t.u % r_type(-1),
-                t.u % r_type(1),
-                t.u % u.u,
-            }
-        );
+        return t_interval() % u_interval();
     }
 
     constexpr static const r_type_interval_t r_type_interval = get_r_type_interval();
@@ -1007,9 +990,14 @@ private:
 
     constexpr static bool exception_possible(){
         constexpr const r_type_interval_t ri = get_r_type_interval();
+        constexpr const r_type_interval_t ti = t_interval();
         constexpr const r_type_interval_t ui = u_interval();
         return
             static_cast<bool>(ui.includes(r_type(0)))
+            || ti.l.exception()
+            || ti.u.exception()
+            || ui.l.exception()
+            || ui.u.exception()
             || ri.l.exception()
             || ri.u.exception();
     }
-- 
2.43.0


From 58d18e83bfbfe463b4f71cb0b70074f1a7589f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:42 +0000
Subject: [PATCH 06/25] fix: divide and take remainders in a type which holds
 both operands

Under the automatic policy the type of a quotient or remainder can be smaller
than an operand.  When no error was possible the operands were truncated to
that type before the operation.
---
 .../safe_numerics/safe_base_operations.hpp    | 131 +++++++++++-------
 1 file changed, 79 insertions(+), 52 deletions(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index c323bdf..080f9fa 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -752,14 +752,6 @@ private:
     using result_base_type =
         typename promotion_policy::template division_result<T, U>::type;
 
-    // if exception not possible
-    constexpr static result_base_type
-    return_value(const T & t, const U & u, std::false_type){
-        return
-            static_cast<result_base_type>(base_value(t))
-            / static_cast<result_base_type>(base_value(u));
-    }
-
     // if exception possible
     using exception_policy = typename common_exception_policy<T, U>::type;
 
@@ -772,15 +764,26 @@ private:
         }) + (std::numeric_limits<result_base_type>::is_signed ? 1 : 0)
     );
 
-    using r_type = checked_result<result_base_type>;
+    // the operation is carried out in a type which can hold both operands
+    // even when the result itself fits in a smaller type
+    using temp_base = typename std::conditional<
+        std::numeric_limits<result_base_type>::is_signed,
+        typename boost::int_t<bits>::least,
+        typename boost::uint_t<bits>::least
+    >::type;
+    using r_type = checked_result<temp_base>;
+
+    // if exception not possible
+    constexpr static result_base_type
+    return_value(const T & t, const U & u, std::false_type){
+        return static_cast<result_base_type>(
+            static_cast<temp_base>(base_value(t))
+            / static_cast<temp_base>(base_value(u))
+        );
+    }
 
     constexpr static result_base_type
     return_value(const T & t, const U & u, std::true_type){
-        using temp_base = typename std::conditional<
-            std::numeric_limits<result_base_type>::is_signed,
-            typename boost::int_t<bits>::least,
-            typename boost::uint_t<bits>::least
-        >::type;
         using t_type = checked_result<temp_base>;
 
         const std::pair<t_type, t_type> r = casting_helper<
@@ -802,15 +805,15 @@ private:
 
     constexpr static r_type_interval_t t_interval(){
         return r_type_interval_t{
-            checked::cast<result_base_type>(base_value(std::numeric_limits<T>::min())),
-            checked::cast<result_base_type>(base_value(std::numeric_limits<T>::max()))
+            checked::cast<temp_base>(base_value(std::numeric_limits<T>::min())),
+            checked::cast<temp_base>(base_value(std::numeric_limits<T>::max()))
         };
     };
 
     constexpr static r_type_interval_t u_interval(){
         return r_type_interval_t{
-            checked::cast<result_base_type>(base_value(std::numeric_limits<U>::min())),
-            checked::cast<result_base_type>(base_value(std::numeric_limits<U>::max()))
+            checked::cast<temp_base>(base_value(std::numeric_limits<U>::min())),
+            checked::cast<temp_base>(base_value(std::numeric_limits<U>::max()))
         };
     };
 
@@ -836,22 +839,35 @@ private:
 
     constexpr static const r_type_interval_t r_type_interval = get_r_type_interval();
 
+    // true if the given limit can be represented by the result type
+    constexpr static bool representable(const r_type & x){
+        return ! x.exception()
+            && ! checked::cast<result_base_type>(
+                static_cast<temp_base>(x)
+            ).exception();
+    }
+
     constexpr static const interval<result_base_type> return_interval{
-        r_type_interval.l.exception()
-            ? std::numeric_limits<result_base_type>::min()
-            : static_cast<result_base_type>(r_type_interval.l),
-        r_type_interval.u.exception()
-            ? std::numeric_limits<result_base_type>::max()
-            : static_cast<result_base_type>(r_type_interval.u)
+        representable(r_type_interval.l)
+            ? static_cast<result_base_type>(static_cast<temp_base>(r_type_interval.l))
+            : std::numeric_limits<result_base_type>::min(),
+        representable(r_type_interval.u)
+            ? static_cast<result_base_type>(static_cast<temp_base>(r_type_interval.u))
+            : std::numeric_limits<result_base_type>::max()
     };
 
     constexpr static bool exception_possible(){
         constexpr const r_type_interval_t ri = get_r_type_interval();
+        constexpr const r_type_interval_t ti = t_interval();
         constexpr const r_type_interval_t ui = u_interval();
         return
             static_cast<bool>(ui.includes(r_type(0)))
-            || ri.l.exception()
-            || ri.u.exception();
+            || ti.l.exception()
+            || ti.u.exception()
+            || ui.l.exception()
+            || ui.u.exception()
+            || ! representable(ri.l)
+            || ! representable(ri.u);
     }
 
     constexpr static auto rl = return_interval.l;
@@ -910,14 +926,6 @@ private:
     using promotion_policy = typename common_promotion_policy<T, U>::type;
     using result_base_type = typename promotion_policy::template modulus_result<T, U>::type;
 
-    // if exception not possible
-    constexpr static result_base_type
-    return_value(const T & t, const U & u, std::false_type){
-        return
-            static_cast<result_base_type>(base_value(t))
-            % static_cast<result_base_type>(base_value(u));
-    }
-
     // if exception possible
     using exception_policy = typename common_exception_policy<T, U>::type;
 
@@ -930,15 +938,26 @@ private:
         }) + (std::numeric_limits<result_base_type>::is_signed ? 1 : 0)
     );
 
-    using r_type = checked_result<result_base_type>;
+    // the operation is carried out in a type which can hold both operands
+    // even when the result itself fits in a smaller type
+    using temp_base = typename std::conditional<
+        std::numeric_limits<result_base_type>::is_signed,
+        typename boost::int_t<bits>::least,
+        typename boost::uint_t<bits>::least
+    >::type;
+    using r_type = checked_result<temp_base>;
+
+    // if exception not possible
+    constexpr static result_base_type
+    return_value(const T & t, const U & u, std::false_type){
+        return static_cast<result_base_type>(
+            static_cast<temp_base>(base_value(t))
+            % static_cast<temp_base>(base_value(u))
+        );
+    }
 
     constexpr static result_base_type
     return_value(const T & t, const U & u, std::true_type){
-        using temp_base = typename std::conditional<
-            std::numeric_limits<result_base_type>::is_signed,
-            typename boost::int_t<bits>::least,
-            typename boost::uint_t<bits>::least
-        >::type;
         using t_type = checked_result<temp_base>;
         
         const std::pair<t_type, t_type> r = casting_helper<
@@ -961,15 +980,15 @@ private:
 
     constexpr static const r_type_interval_t t_interval(){
         return r_type_interval_t{
-            checked::cast<result_base_type>(base_value(std::numeric_limits<T>::min())),
-            checked::cast<result_base_type>(base_value(std::numeric_limits<T>::max()))
+            checked::cast<temp_base>(base_value(std::numeric_limits<T>::min())),
+            checked::cast<temp_base>(base_value(std::numeric_limits<T>::max()))
         };
     };
 
     constexpr static const r_type_interval_t u_interval(){
         return r_type_interval_t{
-            checked::cast<result_base_type>(base_value(std::numeric_limits<U>::min())),
-            checked::cast<result_base_type>(base_value(std::numeric_limits<U>::max()))
+            checked::cast<temp_base>(base_value(std::numeric_limits<U>::min())),
+            checked::cast<temp_base>(base_value(std::numeric_limits<U>::max()))
         };
     };
 
@@ -979,13 +998,21 @@ private:
 
     constexpr static const r_type_interval_t r_type_interval = get_r_type_interval();
 
+    // true if the given limit can be represented by the result type
+    constexpr static bool representable(const r_type & x){
+        return ! x.exception()
+            && ! checked::cast<result_base_type>(
+                static_cast<temp_base>(x)
+            ).exception();
+    }
+
     constexpr static const interval<result_base_type> return_interval{
-        r_type_interval.l.exception()
-            ? std::numeric_limits<result_base_type>::min()
-            : static_cast<result_base_type>(r_type_interval.l),
-        r_type_interval.u.exception()
-            ? std::numeric_limits<result_base_type>::max()
-            : static_cast<result_base_type>(r_type_interval.u)
+        representable(r_type_interval.l)
+            ? static_cast<result_base_type>(static_cast<temp_base>(r_type_interval.l))
+            : std::numeric_limits<result_base_type>::min(),
+        representable(r_type_interval.u)
+            ? static_cast<result_base_type>(static_cast<temp_base>(r_type_interval.u))
+            : std::numeric_limits<result_base_type>::max()
     };
 
     constexpr static bool exception_possible(){
@@ -998,8 +1025,8 @@ private:
             || ti.u.exception()
             || ui.l.exception()
             || ui.u.exception()
-            || ri.l.exception()
-            || ri.u.exception();
+            || ! representable(ri.l)
+            || ! representable(ri.u);
     }
 
     constexpr static auto rl = return_interval.l;
-- 
2.43.0


From 987dd205f61001b38d2f26f13b0ac1599f3c224c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:42 +0000
Subject: [PATCH 07/25] fix: usual arithmetic conversions of cpp<> end in an
 unsigned type

---
 include/boost/safe_numerics/cpp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/safe_numerics/cpp.hpp b/include/boost/safe_numerics/cpp.hpp
index 077fbfc..8377bb9 100644
--- a/include/boost/safe_numerics/cpp.hpp
+++ b/include/boost/safe_numerics/cpp.hpp
@@ -132,7 +132,7 @@ public:
             // use signed type
             select_signed<T, U>,
         // clause 4 - otherwise use unsigned version of the signed type
-            std::make_signed< select_signed<T, U>>
+            typename std::make_unsigned< select_signed<T, U>>::type
         >::type >::type >::type
     >;
 
-- 
2.43.0


From 8d0ca42c7cc310f5780bb454bddf000b87f1afa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:10 +0000
Subject: [PATCH 08/25] fix: static range of |, & and ^ accounts for negative
 operands

---
 .../safe_numerics/safe_base_operations.hpp    | 85 ++++++++++++-------
 1 file changed, 52 insertions(+), 33 deletions(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index 080f9fa..5aa0750 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -1592,6 +1592,49 @@ constexpr inline operator>>(
 /////////////////////////////////////////////////////////////////
 // bitwise operators
 
+// helper - limits of the result of a bitwise operation.  An operand which
+// can be negative can have any of the high order bits of the result set.
+template<class R, class T, class U>
+struct bitwise_limits {
+private:
+    using r_type = typename std::make_unsigned<R>::type;
+
+    template<class V>
+    constexpr static bool negative_possible(){
+        return base_value(std::numeric_limits<V>::min())
+            < static_cast<typename base_type<V>::type>(0);
+    }
+    template<class V>
+    constexpr static r_type upper(){
+        return static_cast<r_type>(base_value(std::numeric_limits<V>::max()));
+    }
+    constexpr static R round_out(const r_type & t){
+        return static_cast<R>(utility::round_out(t));
+    }
+    constexpr static bool t_negative = negative_possible<T>();
+    constexpr static bool u_negative = negative_possible<U>();
+public:
+    // operators | and ^
+    constexpr static R or_min = t_negative || u_negative
+        ? std::numeric_limits<R>::min()
+        : R(0);
+    constexpr static R or_max = t_negative || u_negative
+        ? std::numeric_limits<R>::max()
+        : round_out(std::max(upper<T>(), upper<U>()));
+    // operator &
+    constexpr static R and_min = t_negative && u_negative
+        ? std::numeric_limits<R>::min()
+        : R(0);
+    constexpr static R and_max =
+        t_negative && u_negative
+            ? std::numeric_limits<R>::max()
+        : t_negative
+            ? round_out(upper<U>())
+        : u_negative
+            ? round_out(upper<T>())
+        : round_out(std::min(upper<T>(), upper<U>()));
+};
+
 // operator |
 template<class T, class U>
 struct bitwise_or_result {
@@ -1604,23 +1647,15 @@ private:
     // the operands are consider a logical array of bits.  That is, there is no
     // sense that these are signed numbers.
 
-    using r_type = typename std::make_unsigned<result_base_type>::type;
-    using r_type_interval_t = interval<r_type>;
+    using limits = bitwise_limits<result_base_type, T, U>;
     using exception_policy = typename common_exception_policy<T, U>::type;
 
 public:
     // lazy_enable_if_c depends on this
     using type = safe_base<
         result_base_type,
-        //r_interval.l,
-        r_type(0),
-        //r_interval.u,
-        utility::round_out(
-            std::max(
-                static_cast<r_type>(base_value(std::numeric_limits<T>::max())),
-                static_cast<r_type>(base_value(std::numeric_limits<U>::max()))
-            )
-        ),
+        limits::or_min,
+        limits::or_max,
         promotion_policy,
         exception_policy
     >;
@@ -1668,23 +1703,15 @@ private:
     // the operands are consider a logical array of bits.  That is, there is no
     // sense that these are signed numbers.
 
-    using r_type = typename std::make_unsigned<result_base_type>::type;
-    using r_type_interval_t = interval<r_type>;
+    using limits = bitwise_limits<result_base_type, T, U>;
     using exception_policy = typename common_exception_policy<T, U>::type;
 
 public:
     // lazy_enable_if_c depends on this
     using type = safe_base<
         result_base_type,
-        //r_interval.l,
-        r_type(0),
-        //r_interval.u,
-        utility::round_out(
-            std::min(
-                static_cast<r_type>(base_value(std::numeric_limits<T>::max())),
-                static_cast<r_type>(base_value(std::numeric_limits<U>::max()))
-            )
-        ),
+        limits::and_min,
+        limits::and_max,
         promotion_policy,
         exception_policy
     >;
@@ -1731,23 +1758,15 @@ struct bitwise_xor_result {
     // the operands are consider a logical array of bits.  That is, there is no
     // sense that these are signed numbers.
 
-    using r_type = typename std::make_unsigned<result_base_type>::type;
-    using r_type_interval_t = interval<r_type>;
+    using limits = bitwise_limits<result_base_type, T, U>;
     using exception_policy = typename common_exception_policy<T, U>::type;
 
 public:
     // lazy_enable_if_c depends on this
     using type = safe_base<
         result_base_type,
-        //r_interval.l,
-        r_type(0),
-        //r_interval.u,
-        utility::round_out(
-            std::max(
-                static_cast<r_type>(base_value(std::numeric_limits<T>::max())),
-                static_cast<r_type>(base_value(std::numeric_limits<U>::max()))
-            )
-        ),
+        limits::or_min,
+        limits::or_max,
         promotion_policy,
         exception_policy
     >;
-- 
2.43.0


From 2fcd0604d4eee8bb5856b4615d236d2185e4e6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:08 +0000
Subject: [PATCH 09/25] fix: shifting right by the width of the type is an
 error

---
 include/boost/safe_numerics/checked_integer.hpp      | 2 +-
 include/boost/safe_numerics/safe_base_operations.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/safe_numerics/checked_integer.hpp b/include/boost/safe_numerics/checked_integer.hpp
index cf41fd8..9e652c2 100644
--- a/include/boost/safe_numerics/checked_integer.hpp
+++ b/include/boost/safe_numerics/checked_integer.hpp
@@ -741,7 +741,7 @@ struct checked_operation<R, F,
                "shifting negative amount"
             );
         }
-        if(u > std::numeric_limits<R>::digits){
+        if(u >= utility::bits_type<R>::value){
             // behavior is undefined
             return F::template invoke<safe_numerics_error::shift_too_large>(
                "shifting more bits than available"
diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index 5aa0750..4811d0c 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -1508,8 +1508,8 @@ struct right_shift_result {
         constexpr const r_type_interval_t ui = u_interval();
         return static_cast<bool>(
             // note undesirable coupling with checked::shift right here !
-            ui.u > checked_result<result_base_type>(
-                std::numeric_limits<result_base_type>::digits
+            ui.u >= checked_result<result_base_type>(
+                utility::bits_type<result_base_type>::value
             )
             || ti.l < checked_result<result_base_type>(0)
             || ui.l < checked_result<result_base_type>(0)
-- 
2.43.0


From eb0240bde4086e1773fe9244b81db53bc0b0bc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:57 +0000
Subject: [PATCH 10/25] fix: static range and error detection of shifts with
 negative operands or large amounts

---
 .../safe_numerics/safe_base_operations.hpp    | 71 +++++++++++++------
 1 file changed, 48 insertions(+), 23 deletions(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index 4811d0c..e46db01 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -1328,17 +1328,22 @@ private:
 
     using r_type_interval_t = interval<r_type>;
 
-    constexpr static r_type_interval_t get_r_type_interval(){
-        constexpr const r_type_interval_t t_interval{
+    constexpr static r_type_interval_t t_interval(){
+        return r_type_interval_t(
             checked::cast<result_base_type>(base_value(std::numeric_limits<T>::min())),
             checked::cast<result_base_type>(base_value(std::numeric_limits<T>::max()))
-        };
+        );
+    }
 
-        constexpr const r_type_interval_t u_interval{
+    constexpr static r_type_interval_t u_interval(){
+        return r_type_interval_t(
             checked::cast<result_base_type>(base_value(std::numeric_limits<U>::min())),
             checked::cast<result_base_type>(base_value(std::numeric_limits<U>::max()))
-        };
-        return (t_interval << u_interval);
+        );
+    }
+
+    constexpr static r_type_interval_t get_r_type_interval(){
+        return t_interval() << u_interval();
     }
 
     constexpr static const r_type_interval_t r_type_interval = get_r_type_interval();
@@ -1353,13 +1358,24 @@ private:
     };
 
     constexpr static bool exception_possible(){
-        if(r_type_interval.l.exception())
-            return true;
-        if(r_type_interval.u.exception())
-            return true;
-        if(! return_interval.includes(r_type_interval))
-            return true;
-        return false;
+        constexpr const r_type_interval_t ri = r_type_interval;
+        constexpr const r_type_interval_t ti = t_interval();
+        constexpr const r_type_interval_t ui = u_interval();
+        return
+            ti.l.exception()
+            || ti.u.exception()
+            || ui.l.exception()
+            || ui.u.exception()
+            || ri.l.exception()
+            || ri.u.exception()
+            // note undesirable coupling with checked::shift left here !
+            || static_cast<bool>(
+                ui.u >= checked_result<result_base_type>(
+                    utility::bits_type<result_base_type>::value
+                )
+                || ti.l < checked_result<result_base_type>(0)
+                || ui.l < checked_result<result_base_type>(0)
+            );
     }
 
     constexpr static const auto rl = return_interval.l;
@@ -1487,8 +1503,12 @@ struct right_shift_result {
             checked::cast<result_base_type>(base_value(std::numeric_limits<U>::max()))
         );
     }
-    constexpr static r_type_interval_t get_r_type_interval(){;
-        return (t_interval() >> u_interval());
+    constexpr static r_type_interval_t get_r_type_interval(){
+        // shifts by amounts which are negative produce no result
+        return t_interval() >> r_type_interval_t(
+            u_interval().l.exception() ? r_type(0) : u_interval().l,
+            u_interval().u
+        );
     }
 
     constexpr static const r_type_interval_t r_type_interval = get_r_type_interval();
@@ -1506,16 +1526,21 @@ struct right_shift_result {
         constexpr const r_type_interval_t ri = r_type_interval;
         constexpr const r_type_interval_t ti = t_interval();
         constexpr const r_type_interval_t ui = u_interval();
-        return static_cast<bool>(
-            // note undesirable coupling with checked::shift right here !
-            ui.u >= checked_result<result_base_type>(
-                utility::bits_type<result_base_type>::value
-            )
-            || ti.l < checked_result<result_base_type>(0)
-            || ui.l < checked_result<result_base_type>(0)
+        return
+            ti.l.exception()
+            || ti.u.exception()
+            || ui.l.exception()
+            || ui.u.exception()
             || ri.l.exception()
             || ri.u.exception()
-        );
+            // note undesirable coupling with checked::shift right here !
+            || static_cast<bool>(
+                ui.u >= checked_result<result_base_type>(
+                    utility::bits_type<result_base_type>::value
+                )
+                || ti.l < checked_result<result_base_type>(0)
+                || ui.l < checked_result<result_base_type>(0)
+            );
     }
 
     constexpr static auto rl = return_interval.l;
-- 
2.43.0


From a72cba1b5643dbc41ddfc0a291ed222e060723da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:58 +0000
Subject: [PATCH 11/25] fix: operate in a type which holds the operands when
 the result type is smaller

Under the automatic policy 1000 - 999 on operands with range [999,1001] has a
result which fits in a signed char.  The operands were cast to that type and
a spurious overflow was reported.
---
 .../safe_numerics/safe_base_operations.hpp    | 245 ++++++++++--------
 1 file changed, 138 insertions(+), 107 deletions(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index e46db01..59462ee 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -356,6 +356,44 @@ constexpr inline static std::pair<R, R> casting_helper(const T & t, const U & u)
     return std::pair<R, R>(tr, ur);
 }
 
+// helper - the smallest type with the sign of the result type R which can hold
+// the result and both operands.  The automatic policy selects result types
+// which can be too small to hold the operands.
+template<class R, class T, class U>
+struct operation_type {
+private:
+    constexpr static const int bits = std::min(
+        std::numeric_limits<std::uintmax_t>::digits,
+        std::max(std::initializer_list<int>{
+            std::numeric_limits<R>::digits,
+            std::numeric_limits<typename base_type<T>::type>::digits,
+            std::numeric_limits<typename base_type<U>::type>::digits
+        }) + (std::numeric_limits<R>::is_signed ? 1 : 0)
+    );
+public:
+    using type = typename std::conditional<
+        std::numeric_limits<R>::is_signed,
+        typename boost::int_t<bits>::least,
+        typename boost::uint_t<bits>::least
+    >::type;
+    // true if the given value can be represented by the result type
+    constexpr static bool representable(const checked_result<type> & x){
+        return ! x.exception()
+            && ! checked::cast<R>(static_cast<type>(x)).exception();
+    }
+    // limits of the result
+    constexpr static R min(const checked_result<type> & x){
+        return representable(x)
+            ? static_cast<R>(static_cast<type>(x))
+            : std::numeric_limits<R>::min();
+    }
+    constexpr static R max(const checked_result<type> & x){
+        return representable(x)
+            ? static_cast<R>(static_cast<type>(x))
+            : std::numeric_limits<R>::max();
+    }
+};
+
 // Note: the following global operators will be found via
 // argument dependent lookup.
 namespace {
@@ -381,69 +419,66 @@ private:
     using result_base_type =
         typename promotion_policy::template addition_result<T,U>::type;
 
+    using operation = operation_type<result_base_type, T, U>;
+    using temp_base = typename operation::type;
+
     // if exception not possible
     constexpr static result_base_type
     return_value(const T & t, const U & u, std::false_type){
-        return
-            static_cast<result_base_type>(base_value(t))
-            + static_cast<result_base_type>(base_value(u));
+        return static_cast<result_base_type>(
+            static_cast<temp_base>(base_value(t))
+            + static_cast<temp_base>(base_value(u))
+        );
     }
 
     // if exception possible
     using exception_policy = typename common_exception_policy<T, U>::type;
 
-    using r_type = checked_result<result_base_type>;
+    using r_type = checked_result<temp_base>;
 
     constexpr static result_base_type
     return_value(const T & t, const U & u, std::true_type){
-        const std::pair<result_base_type, result_base_type> r = casting_helper<
+        const std::pair<temp_base, temp_base> r = casting_helper<
             exception_policy,
-            result_base_type
+            temp_base
         >(t, u);
 
         const r_type rx = checked_operation<
-            result_base_type,
-            dispatch_and_return<exception_policy, result_base_type>
+            temp_base,
+            dispatch_and_return<exception_policy, temp_base>
         >::add(r.first, r.second);
 
-        return
+        return static_cast<result_base_type>(
             rx.exception()
             ? r.first + r.second
-            : rx.m_contents.m_r;
+            : rx.m_contents.m_r
+        );
     }
 
     using r_type_interval_t = interval<r_type>;
 
     constexpr static const r_type_interval_t get_r_type_interval(){
         constexpr const r_type_interval_t t_interval{
-            checked::cast<result_base_type>(base_value(std::numeric_limits<T>::min())),
-            checked::cast<result_base_type>(base_value(std::numeric_limits<T>::max()))
+            checked::cast<temp_base>(base_value(std::numeric_limits<T>::min())),
+            checked::cast<temp_base>(base_value(std::numeric_limits<T>::max()))
         };
         constexpr const r_type_interval_t u_interval{
-            checked::cast<result_base_type>(base_value(std::numeric_limits<U>::min())),
-            checked::cast<result_base_type>(base_value(std::numeric_limits<U>::max()))
+            checked::cast<temp_base>(base_value(std::numeric_limits<U>::min())),
+            checked::cast<temp_base>(base_value(std::numeric_limits<U>::max()))
         };
         return t_interval + u_interval;
     }
     constexpr static const r_type_interval_t r_type_interval = get_r_type_interval();
 
     constexpr static const interval<result_base_type> return_interval{
-        r_type_interval.l.exception()
-            ? std::numeric_limits<result_base_type>::min()
-            : static_cast<result_base_type>(r_type_interval.l),
-        r_type_interval.u.exception()
-            ? std::numeric_limits<result_base_type>::max()
-            : static_cast<result_base_type>(r_type_interval.u)
+        operation::min(r_type_interval.l),
+        operation::max(r_type_interval.u)
     };
 
     constexpr static bool exception_possible(){
-        if(r_type_interval.l.exception())
-            return true;
-        if(r_type_interval.u.exception())
-            return true;
-        if(! return_interval.includes(r_type_interval))
-            return true;
-        return false;
+        return
+            ! operation::representable(r_type_interval.l)
+            || ! operation::representable(r_type_interval.u);
     }
 
     constexpr static auto rl = return_interval.l;
@@ -503,47 +538,53 @@ private:
     using result_base_type =
         typename promotion_policy::template subtraction_result<T, U>::type;
 
+    using operation = operation_type<result_base_type, T, U>;
+    using temp_base = typename operation::type;
+
     // if exception not possible
     constexpr static result_base_type
     return_value(const T & t, const U & u, std::false_type){
-        return
-            static_cast<result_base_type>(base_value(t))
-            - static_cast<result_base_type>(base_value(u));
+        return static_cast<result_base_type>(
+            static_cast<temp_base>(base_value(t))
+            - static_cast<temp_base>(base_value(u))
+        );
     }
 
     // if exception possible
     using exception_policy = typename common_exception_policy<T, U>::type;
 
-    using r_type = checked_result<result_base_type>;
+    using r_type = checked_result<temp_base>;
 
     constexpr static result_base_type
     return_value(const T & t, const U & u, std::true_type){
-        const std::pair<result_base_type, result_base_type> r = casting_helper<
+        const std::pair<temp_base, temp_base> r = casting_helper<
             exception_policy,
-            result_base_type
+            temp_base
         >(t, u);
 
         const r_type rx = checked_operation<
-            result_base_type,
-            dispatch_and_return<exception_policy, result_base_type>
+            temp_base,
+            dispatch_and_return<exception_policy, temp_base>
         >::subtract(r.first, r.second);
 
-        return
+        return static_cast<result_base_type>(
             rx.exception()
             ? r.first - r.second
-            : rx.m_contents.m_r;
+            : rx.m_contents.m_r
+        );
     }
+
     using r_type_interval_t = interval<r_type>;
 
     constexpr static const r_type_interval_t get_r_type_interval(){
         constexpr const r_type_interval_t t_interval{
-            checked::cast<result_base_type>(base_value(std::numeric_limits<T>::min())),
-            checked::cast<result_base_type>(base_value(std::numeric_limits<T>::max()))
+            checked::cast<temp_base>(base_value(std::numeric_limits<T>::min())),
+            checked::cast<temp_base>(base_value(std::numeric_limits<T>::max()))
         };
 
         constexpr const r_type_interval_t u_interval{
-            checked::cast<result_base_type>(base_value(std::numeric_limits<U>::min())),
-            checked::cast<result_base_type>(base_value(std::numeric_limits<U>::max()))
+            checked::cast<temp_base>(base_value(std::numeric_limits<U>::min())),
+            checked::cast<temp_base>(base_value(std::numeric_limits<U>::max()))
         };
 
         return t_interval - u_interval;
@@ -551,22 +592,14 @@ private:
     constexpr static const r_type_interval_t r_type_interval = get_r_type_interval();
 
     constexpr static const interval<result_base_type> return_interval{
-        r_type_interval.l.exception()
-            ? std::numeric_limits<result_base_type>::min()
-            : static_cast<result_base_type>(r_type_interval.l),
-        r_type_interval.u.exception()
-            ? std::numeric_limits<result_base_type>::max()
-            : static_cast<result_base_type>(r_type_interval.u)
+        operation::min(r_type_interval.l),
+        operation::max(r_type_interval.u)
     };
 
     constexpr static bool exception_possible(){
-        if(r_type_interval.l.exception())
-            return true;
-        if(r_type_interval.u.exception())
-            return true;
-        if(! return_interval.includes(r_type_interval))
-            return true;
-        return false;
+        return
+            ! operation::representable(r_type_interval.l)
+            || ! operation::representable(r_type_interval.u);
     }
 
 public:
@@ -626,48 +659,53 @@ private:
     using result_base_type =
         typename promotion_policy::template multiplication_result<T, U>::type;
 
+    using operation = operation_type<result_base_type, T, U>;
+    using temp_base = typename operation::type;
+
     // if exception not possible
     constexpr static result_base_type
     return_value(const T & t, const U & u, std::false_type){
-        return
-            static_cast<result_base_type>(base_value(t))
-            * static_cast<result_base_type>(base_value(u));
+        return static_cast<result_base_type>(
+            static_cast<temp_base>(base_value(t))
+            * static_cast<temp_base>(base_value(u))
+        );
     }
 
     // if exception possible
     using exception_policy = typename common_exception_policy<T, U>::type;
 
-    using r_type = checked_result<result_base_type>;
+    using r_type = checked_result<temp_base>;
     
     constexpr static result_base_type
     return_value(const T & t, const U & u, std::true_type){
-        const std::pair<result_base_type, result_base_type> r = casting_helper<
+        const std::pair<temp_base, temp_base> r = casting_helper<
             exception_policy,
-            result_base_type
+            temp_base
         >(t, u);
 
         const r_type rx = checked_operation<
-            result_base_type,
-            dispatch_and_return<exception_policy, result_base_type>
+            temp_base,
+            dispatch_and_return<exception_policy, temp_base>
         >::multiply(r.first, r.second);
 
-        return
+        return static_cast<result_base_type>(
             rx.exception()
             ? r.first * r.second
-            : rx.m_contents.m_r;
+            : rx.m_contents.m_r
+        );
     }
 
     using r_type_interval_t = interval<r_type>;
 
     constexpr static r_type_interval_t get_r_type_interval(){
         constexpr const r_type_interval_t t_interval{
-            checked::cast<result_base_type>(base_value(std::numeric_limits<T>::min())),
-            checked::cast<result_base_type>(base_value(std::numeric_limits<T>::max()))
+            checked::cast<temp_base>(base_value(std::numeric_limits<T>::min())),
+            checked::cast<temp_base>(base_value(std::numeric_limits<T>::max()))
         };
 
         constexpr const r_type_interval_t u_interval{
-            checked::cast<result_base_type>(base_value(std::numeric_limits<U>::min())),
-            checked::cast<result_base_type>(base_value(std::numeric_limits<U>::max()))
+            checked::cast<temp_base>(base_value(std::numeric_limits<U>::min())),
+            checked::cast<temp_base>(base_value(std::numeric_limits<U>::max()))
         };
 
         return t_interval * u_interval;
@@ -676,22 +714,14 @@ private:
     constexpr static const r_type_interval_t r_type_interval = get_r_type_interval();
 
     constexpr static const interval<result_base_type> return_interval{
-        r_type_interval.l.exception()
-            ? std::numeric_limits<result_base_type>::min()
-            : static_cast<result_base_type>(r_type_interval.l),
-        r_type_interval.u.exception()
-            ? std::numeric_limits<result_base_type>::max()
-            : static_cast<result_base_type>(r_type_interval.u)
+        operation::min(r_type_interval.l),
+        operation::max(r_type_interval.u)
     };
 
     constexpr static bool exception_possible(){
-        if(r_type_interval.l.exception())
-            return true;
-        if(r_type_interval.u.exception())
-            return true;
-        if(! return_interval.includes(r_type_interval))
-            return true;
-        return false;
+        return
+            ! operation::representable(r_type_interval.l)
+            || ! operation::representable(r_type_interval.u);
     }
 
     constexpr static auto rl = return_interval.l;
@@ -1457,50 +1487,55 @@ struct right_shift_result {
     using result_base_type =
         typename promotion_policy::template right_shift_result<T, U>::type;
 
+    using operation = operation_type<result_base_type, T, U>;
+    using temp_base = typename operation::type;
+
     // if exception not possible
     constexpr static result_base_type
     return_value(const T & t, const U & u, std::false_type){
-        return
-            static_cast<result_base_type>(base_value(t))
-            >> static_cast<result_base_type>(base_value(u));
+        return static_cast<result_base_type>(
+            static_cast<temp_base>(base_value(t))
+            >> static_cast<temp_base>(base_value(u))
+        );
     }
 
     // exception possible
     using exception_policy = typename common_exception_policy<T, U>::type;
 
-    using r_type = checked_result<result_base_type>;
+    using r_type = checked_result<temp_base>;
 
     constexpr static result_base_type
     return_value(const T & t, const U & u, std::true_type){
-        const std::pair<result_base_type, result_base_type> r = casting_helper<
+        const std::pair<temp_base, temp_base> r = casting_helper<
             exception_policy,
-            result_base_type
+            temp_base
         >(t, u);
 
         const r_type rx = checked_operation<
-            result_base_type,
-            dispatch_and_return<exception_policy, result_base_type>
+            temp_base,
+            dispatch_and_return<exception_policy, temp_base>
         >::right_shift(r.first, r.second);
 
-        return
+        return static_cast<result_base_type>(
             rx.exception()
             ? r.first >> r.second
-            : rx.m_contents.m_r;
+            : rx.m_contents.m_r
+        );
     }
 
     using r_type_interval_t = interval<r_type>;
 
     constexpr static r_type_interval_t t_interval(){
         return r_type_interval_t(
-            checked::cast<result_base_type>(base_value(std::numeric_limits<T>::min())),
-            checked::cast<result_base_type>(base_value(std::numeric_limits<T>::max()))
+            checked::cast<temp_base>(base_value(std::numeric_limits<T>::min())),
+            checked::cast<temp_base>(base_value(std::numeric_limits<T>::max()))
         );
     };
 
     constexpr static r_type_interval_t u_interval(){
         return r_type_interval_t(
-            checked::cast<result_base_type>(base_value(std::numeric_limits<U>::min())),
-            checked::cast<result_base_type>(base_value(std::numeric_limits<U>::max()))
+            checked::cast<temp_base>(base_value(std::numeric_limits<U>::min())),
+            checked::cast<temp_base>(base_value(std::numeric_limits<U>::max()))
         );
     }
     constexpr static r_type_interval_t get_r_type_interval(){
@@ -1514,12 +1549,8 @@ struct right_shift_result {
     constexpr static const r_type_interval_t r_type_interval = get_r_type_interval();
 
     constexpr static const interval<result_base_type> return_interval{
-        r_type_interval.l.exception()
-            ? std::numeric_limits<result_base_type>::min()
-            : static_cast<result_base_type>(r_type_interval.l),
-        r_type_interval.u.exception()
-            ? std::numeric_limits<result_base_type>::max()
-            : static_cast<result_base_type>(r_type_interval.u)
+        operation::min(r_type_interval.l),
+        operation::max(r_type_interval.u)
     };
 
     constexpr static bool exception_possible(){
@@ -1531,15 +1562,15 @@ struct right_shift_result {
             || ti.u.exception()
             || ui.l.exception()
             || ui.u.exception()
-            || ri.l.exception()
-            || ri.u.exception()
+            || ! operation::representable(ri.l)
+            || ! operation::representable(ri.u)
             // note undesirable coupling with checked::shift right here !
             || static_cast<bool>(
-                ui.u >= checked_result<result_base_type>(
-                    utility::bits_type<result_base_type>::value
+                ui.u >= r_type(
+                    utility::bits_type<temp_base>::value
                 )
-                || ti.l < checked_result<result_base_type>(0)
-                || ui.l < checked_result<result_base_type>(0)
+                || ti.l < r_type(0)
+                || ui.l < r_type(0)
             );
     }
 
-- 
2.43.0


From affc422b0089304407c369b4aaf7e5408662f305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:01 +0000
Subject: [PATCH 12/25] fix: conversion to a built-in type takes the declared
 range into account

---
 .../safe_numerics/safe_base_operations.hpp    | 22 ++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index 59462ee..cb842e3 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -145,6 +145,26 @@ struct validate_detail {
             exception_possible
         >::type::return_value(t);
     }
+
+    // cast a value which is known to lie in the range [TMin, TMax]
+    template<typename T, T TMin, T TMax>
+    constexpr static R return_value(const T & t){
+        constexpr const interval<r_type> t_interval{
+            checked::cast<R>(TMin),
+            checked::cast<R>(TMax)
+        };
+        constexpr const interval<r_type> r_interval{r_type(Min), r_type(Max)};
+
+        static_assert(
+            true != static_cast<bool>(r_interval.excludes(t_interval)),
+            "can't cast from ranges that don't overlap"
+        );
+        return std::conditional<
+            static_cast<bool>(r_interval.includes(t_interval)),
+            exception_not_possible,
+            exception_possible
+        >::type::return_value(t);
+    }
 };
 
 template<class Stored, Stored Min, Stored Max, class P, class E>
@@ -239,7 +259,7 @@ operator R () const {
         std::numeric_limits<R>::min(),
         std::numeric_limits<R>::max(),
         E
-    >::return_value(m_t);
+    >::template return_value<Stored, Min, Max>(m_t);
 }
 
 /////////////////////////////////////////////////////////////////
-- 
2.43.0


From 96dbeb01b109aed1724bf3ea9cddf298ade92d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:01 +0000
Subject: [PATCH 13/25] fix: stream extraction stores only a valid value and
 reads char as a number

---
 .../safe_numerics/safe_base_operations.hpp     | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index cb842e3..4acbaca 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -1922,11 +1922,21 @@ inline void safe_base<T, Min, Max, P, E>::input(
 ){
     if(std::is_same<T, signed char>::value
     || std::is_same<T, unsigned char>::value
+    || std::is_same<T, char>::value
     || std::is_same<T, wchar_t>::value
     ){
         int x;
         is >> x;
-        m_t = validated_cast(x);
+        if(is.fail()){
+            boost::safe_numerics::dispatch<
+                E,
+                boost::safe_numerics::safe_numerics_error::domain_error
+            >(
+                "error in file input"
+            );
+        }
+        else
+            m_t = validated_cast(x);
     }
     else{
         if(std::is_unsigned<T>::value){
@@ -1942,7 +1952,9 @@ inline void safe_base<T, Min, Max, P, E>::input(
                 is.setstate(std::ios_base::failbit);
             }
         }
-        is >> m_t;
+        // don't change the current value unless the new one is valid
+        T x;
+        is >> x;
         if(is.fail()){
             boost::safe_numerics::dispatch<
                 E,
@@ -1952,7 +1964,7 @@ inline void safe_base<T, Min, Max, P, E>::input(
             );
         }
         else
-            validated_cast(m_t);
+            m_t = validated_cast(x);
     }
 }
 
-- 
2.43.0


From a3d8643f408b3e65b2a4508a40902ea17defe433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:50 +0000
Subject: [PATCH 14/25] fix: a conversion whose error handler returns yields
 the converted value and reports once

---
 include/boost/safe_numerics/safe_base_operations.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index 4acbaca..8baa575 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -113,9 +113,11 @@ struct validate_detail {
                 Max,
                 typename base_type<T>::type,
                 dispatch_and_return<E, R>
-            >::cast(t);
+            >::cast(base_value(t));
 
-            return rx;
+            return rx.exception()
+                ? static_cast<R>(base_value(t))
+                : rx.m_contents.m_r;
         }
     };
     struct exception_not_possible {
@@ -360,7 +362,7 @@ constexpr inline static std::pair<R, R> casting_helper(const T & t, const U & u)
         dispatch_and_return<EP, R>
     >::cast(base_value(t));
     const R tr = tx.exception()
-        ? static_cast<R>(t)
+        ? static_cast<R>(base_value(t))
         : tx.m_contents.m_r;
 
     const r_type ux = heterogeneous_checked_operation<
@@ -371,7 +373,7 @@ constexpr inline static std::pair<R, R> casting_helper(const T & t, const U & u)
         dispatch_and_return<EP, R>
     >::cast(base_value(u));
     const R ur = ux.exception()
-        ? static_cast<R>(u)
+        ? static_cast<R>(base_value(u))
         : ux.m_contents.m_r;
     return std::pair<R, R>(tr, ur);
 }
-- 
2.43.0


From edaf1caafaaeb2af68a77b1180c97d0ca589729d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:16 +0000
Subject: [PATCH 15/25] fix: complement of a checked result

---
 include/boost/safe_numerics/checked_result_operations.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/boost/safe_numerics/checked_result_operations.hpp b/include/boost/safe_numerics/checked_result_operations.hpp
index f5b8f9a..ac60442 100644
--- a/include/boost/safe_numerics/checked_result_operations.hpp
+++ b/include/boost/safe_numerics/checked_result_operations.hpp
@@ -777,8 +777,10 @@ typename std::enable_if<
 constexpr inline operator~(
     const checked_result<T> & t
 ){
-//    assert(false);
-    return ~t.m_r;
+    return
+        t.exception()
+        ? checked_result<T>(safe_numerics_error::range_error)
+        : checked::bitwise_not<T>(static_cast<T>(t));
 }
 
 template<class T>
-- 
2.43.0


From d03d2d105c56be4a592d9904c418f808436b313c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:16 +0000
Subject: [PATCH 16/25] fix: precision overflow is an arithmetic error

---
 include/boost/safe_numerics/exception.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/safe_numerics/exception.hpp b/include/boost/safe_numerics/exception.hpp
index 19cda01..d3e771f 100644
--- a/include/boost/safe_numerics/exception.hpp
+++ b/include/boost/safe_numerics/exception.hpp
@@ -171,6 +171,7 @@ public:
             return code == safe_numerics_error::positive_overflow_error
                 || code == safe_numerics_error::negative_overflow_error
                 || code == safe_numerics_error::underflow_error
+                || code == safe_numerics_error::precision_overflow_error
                 || code == safe_numerics_error::range_error
                 || code == safe_numerics_error::domain_error;
         case safe_numerics_actions::implementation_defined_behavior:
-- 
2.43.0


From f865f5d3ae42fd0747226464efcb783b35bca785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:39 +0000
Subject: [PATCH 17/25] fix: error categories are unique objects in the whole
 program

---
 include/boost/safe_numerics/exception.hpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/include/boost/safe_numerics/exception.hpp b/include/boost/safe_numerics/exception.hpp
index d3e771f..31ec83a 100644
--- a/include/boost/safe_numerics/exception.hpp
+++ b/include/boost/safe_numerics/exception.hpp
@@ -81,7 +81,7 @@ namespace std {
 namespace boost {
 namespace safe_numerics {
 
-const class : public std::error_category {
+class safe_numerics_error_category_type : public std::error_category {
 public:
     virtual const char* name() const noexcept{
         return "safe numerics error";
@@ -115,7 +115,19 @@ public:
         }
         return ""; // suppress bogus warning
     }
-} safe_numerics_error_category {};
+};
+
+// error categories are compared by address so there must be only one such
+// object in the whole program rather than one for each translation unit.
+template<class T>
+struct safe_numerics_category_instance {
+    static const T value;
+};
+template<class T>
+const T safe_numerics_category_instance<T>::value {};
+
+static const std::error_category & safe_numerics_error_category =
+    safe_numerics_category_instance<safe_numerics_error_category_type>::value;
 
 // constexpr - damn, can't use constexpr due to std::error_code
 inline std::error_code make_error_code(const safe_numerics_error & e){
@@ -146,7 +158,7 @@ namespace std {
 namespace boost {
 namespace safe_numerics {
 
-const class : public std::error_category {
+class safe_numerics_actions_category_type : public std::error_category {
 public:
     virtual const char* name() const noexcept {
         return "safe numerics error group";
@@ -188,7 +200,10 @@ public:
         // suppress bogus warning
         return false; 
     }
-} safe_numerics_actions_category {};
+};
+
+static const std::error_category & safe_numerics_actions_category =
+    safe_numerics_category_instance<safe_numerics_actions_category_type>::value;
 
 // the following function is used to "finish" implementation of conversion
 // of safe_numerics_error to std::error_condition.  At least for now, this
-- 
2.43.0


From 5cc6f0c9d7b48703185af959f11d8fd91b1dd4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:19 +0000
Subject: [PATCH 18/25] fix: automatic result type of a division ignores the
 zero divisor

---
 include/boost/safe_numerics/automatic.hpp | 25 +++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/include/boost/safe_numerics/automatic.hpp b/include/boost/safe_numerics/automatic.hpp
index 563c92d..8f1bbc7 100644
--- a/include/boost/safe_numerics/automatic.hpp
+++ b/include/boost/safe_numerics/automatic.hpp
@@ -199,16 +199,25 @@ public:
             if(u_interval.u < r_type(0)
             || u_interval.l > r_type(0))
                 return t_interval / u_interval;
+            // zero isn't a divisor. Use the nearest divisors instead
+            const r_type ul = static_cast<bool>(u_interval.l < r_type(0))
+                ? u_interval.l : r_type(1);
+            const r_type uu = static_cast<bool>(u_interval.u > r_type(0))
+                ? u_interval.u : r_type(-1);
+            const r_type un = static_cast<bool>(u_interval.l < r_type(0))
+                ? r_type(-1) : ul;
+            const r_type up = static_cast<bool>(u_interval.u > r_type(0))
+                ? r_type(1) : uu;
             return utility::minmax(
                 std::initializer_list<r_type> {
-                    t_interval.l / u_interval.l,
-                    t_interval.l / r_type(-1),
-                    t_interval.l / r_type(1),
-                    t_interval.l / u_interval.u,
-                    t_interval.u / u_interval.l,
-                    t_interval.u / r_type(-1),
-                    t_interval.u / r_type(1),
-                    t_interval.u / u_interval.u,
+                    t_interval.l / ul,
+                    t_interval.l / un,
+                    t_interval.l / up,
+                    t_interval.l / uu,
+                    t_interval.u / ul,
+                    t_interval.u / un,
+                    t_interval.u / up,
+                    t_interval.u / uu,
                 }
             );
         }
-- 
2.43.0


From a6adadf55d3b5e892d369e56bad894cddf320213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:39 +0000
Subject: [PATCH 19/25] fix: the type of a shift under cpp<> is the promoted
 type of its left operand

---
 include/boost/safe_numerics/cpp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/safe_numerics/cpp.hpp b/include/boost/safe_numerics/cpp.hpp
index 8377bb9..07c747c 100644
--- a/include/boost/safe_numerics/cpp.hpp
+++ b/include/boost/safe_numerics/cpp.hpp
@@ -171,11 +171,11 @@ public:
     };
     template<typename T, typename U>
     struct left_shift_result {
-       using type = result_type<T, U>;
+       using type = integral_promotion<typename base_type<T>::type>;
     };
     template<typename T, typename U>
     struct right_shift_result {
-       using type = result_type<T, U>;
+       using type = integral_promotion<typename base_type<T>::type>;
     };
     template<typename T, typename U>
     struct bitwise_and_result {
-- 
2.43.0


From b3c4d5049141c9b2428fada498861ebd25fa5aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:24 +0000
Subject: [PATCH 20/25] fix: left shift of a negative checked result can reach
 the minimum

---
 include/boost/safe_numerics/checked_result_operations.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/safe_numerics/checked_result_operations.hpp b/include/boost/safe_numerics/checked_result_operations.hpp
index ac60442..cdd32a3 100644
--- a/include/boost/safe_numerics/checked_result_operations.hpp
+++ b/include/boost/safe_numerics/checked_result_operations.hpp
@@ -894,12 +894,12 @@ constexpr inline operator<<(
         return t;
     }
     else
-    if(6 == i){ // - (-t << u)
+    if(6 == i){ // (t * 2) << (u - 1) - can reach the minimum, -t can't
         assert(static_cast<bool>(t < checked_result<T>(0)));
         assert(static_cast<bool>(u > checked_result<T>(0)));
         const checked_result<T> temp_t = t * checked_result<T>(2);
         const checked_result<T> temp_u = u - checked_result<T>(1);
-        return  - (-temp_t << temp_u);
+        return temp_t << temp_u;
     }
     else
     if(7 == i){  // t >> -u
-- 
2.43.0


From 363d9af0e32f116b90fb3c64f7768743c93605eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:54 +0000
Subject: [PATCH 21/25] fix: the result of an operation is checked against a
 result type smaller than the operands

Under cpp<> an operand of a width the emulated machine does not have can make
the result type smaller than the other operand.  The sum was computed in a
type which holds both and then truncated.
---
 .../safe_numerics/safe_base_operations.hpp    | 53 ++++++++++++-------
 1 file changed, 33 insertions(+), 20 deletions(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index 8baa575..b6ae3d0 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -378,6 +378,23 @@ constexpr inline static std::pair<R, R> casting_helper(const T & t, const U & u)
     return std::pair<R, R>(tr, ur);
 }
 
+// helper - convert the result of an operation to the result type R, which can
+// be smaller than the type in which the operation has been carried out
+
+template<class EP, class R, class T>
+constexpr inline static R result_helper(const T & t){
+    const checked_result<R> rx = heterogeneous_checked_operation<
+        R,
+        std::numeric_limits<R>::min(),
+        std::numeric_limits<R>::max(),
+        T,
+        dispatch_and_return<EP, R>
+    >::cast(t);
+    return rx.exception()
+        ? static_cast<R>(t)
+        : rx.m_contents.m_r;
+}
+
 // helper - the smallest type with the sign of the result type R which can hold
 // the result and both operands.  The automatic policy selects result types
 // which can be too small to hold the operands.
@@ -470,11 +487,10 @@ private:
             dispatch_and_return<exception_policy, temp_base>
         >::add(r.first, r.second);
 
-        return static_cast<result_base_type>(
+        return
             rx.exception()
-            ? r.first + r.second
-            : rx.m_contents.m_r
-        );
+            ? static_cast<result_base_type>(r.first + r.second)
+            : result_helper<exception_policy, result_base_type>(rx.m_contents.m_r);
     }
 
     using r_type_interval_t = interval<r_type>;
@@ -589,11 +605,10 @@ private:
             dispatch_and_return<exception_policy, temp_base>
         >::subtract(r.first, r.second);
 
-        return static_cast<result_base_type>(
+        return
             rx.exception()
-            ? r.first - r.second
-            : rx.m_contents.m_r
-        );
+            ? static_cast<result_base_type>(r.first - r.second)
+            : result_helper<exception_policy, result_base_type>(rx.m_contents.m_r);
     }
 
     using r_type_interval_t = interval<r_type>;
@@ -710,11 +725,10 @@ private:
             dispatch_and_return<exception_policy, temp_base>
         >::multiply(r.first, r.second);
 
-        return static_cast<result_base_type>(
+        return
             rx.exception()
-            ? r.first * r.second
-            : rx.m_contents.m_r
-        );
+            ? static_cast<result_base_type>(r.first * r.second)
+            : result_helper<exception_policy, result_base_type>(rx.m_contents.m_r);
     }
 
     using r_type_interval_t = interval<r_type>;
@@ -850,8 +864,8 @@ private:
 
         return
             rx.exception()
-            ? r.first / r.second
-            : rx;
+            ? static_cast<result_base_type>(r.first / r.second)
+            : result_helper<exception_policy, result_base_type>(rx.m_contents.m_r);
     }
     using r_type_interval_t = interval<r_type>;
 
@@ -1024,8 +1038,8 @@ private:
 
         return
             rx.exception()
-            ? r.first % r.second
-            : rx;
+            ? static_cast<result_base_type>(r.first % r.second)
+            : result_helper<exception_policy, result_base_type>(rx.m_contents.m_r);
     }
 
     using r_type_interval_t = interval<r_type>;
@@ -1538,11 +1552,10 @@ struct right_shift_result {
             dispatch_and_return<exception_policy, temp_base>
         >::right_shift(r.first, r.second);
 
-        return static_cast<result_base_type>(
+        return
             rx.exception()
-            ? r.first >> r.second
-            : rx.m_contents.m_r
-        );
+            ? static_cast<result_base_type>(r.first >> r.second)
+            : result_helper<exception_policy, result_base_type>(rx.m_contents.m_r);
     }
 
     using r_type_interval_t = interval<r_type>;
-- 
2.43.0


From 483da283715ec5f43635c679886427e9f0b895c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:52 +0000
Subject: [PATCH 22/25] fix: reading a safe integer from a stream compiles for
 every range and wide streams

---
 .../safe_numerics/safe_base_operations.hpp    | 77 ++++++++-----------
 1 file changed, 34 insertions(+), 43 deletions(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index b6ae3d0..749c8e5 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -1935,52 +1935,43 @@ template<
 inline void safe_base<T, Min, Max, P, E>::input(
     std::basic_istream<CharT, Traits> & is
 ){
-    if(std::is_same<T, signed char>::value
-    || std::is_same<T, unsigned char>::value
-    || std::is_same<T, char>::value
-    || std::is_same<T, wchar_t>::value
-    ){
-        int x;
-        is >> x;
-        if(is.fail()){
-            boost::safe_numerics::dispatch<
-                E,
-                boost::safe_numerics::safe_numerics_error::domain_error
-            >(
-                "error in file input"
-            );
+    // read character sized types as numbers.  Note that the type to be read has
+    // to be selected at compile time: not every stream can read every type and
+    // not every type can be initialized from an int.
+    using x_type = typename std::conditional<
+        std::is_same<T, signed char>::value
+        || std::is_same<T, unsigned char>::value
+        || std::is_same<T, char>::value
+        || std::is_same<T, wchar_t>::value,
+        int,
+        T
+    >::type;
+    if(std::is_unsigned<x_type>::value){
+        // reading a negative number into an unsigned variable cannot result in
+        // a correct result.  But, C++ reads the absolute value, multiplies
+        // it by -1 and stores the resulting value.  This is crazy - but there
+        // it is!  Oh, and it doesn't set the failbit. We fix this behavior here
+        is >> std::ws;
+        int x = is.peek();
+        // if the input string starts with a '-', we know its an error
+        if(x == '-'){
+            // set fail bit
+            is.setstate(std::ios_base::failbit);
         }
-        else
-            m_t = validated_cast(x);
     }
-    else{
-        if(std::is_unsigned<T>::value){
-            // reading a negative number into an unsigned variable cannot result in
-            // a correct result.  But, C++ reads the absolute value, multiplies
-            // it by -1 and stores the resulting value.  This is crazy - but there
-            // it is!  Oh, and it doesn't set the failbit. We fix this behavior here
-            is >> std::ws;
-            int x = is.peek();
-            // if the input string starts with a '-', we know its an error
-            if(x == '-'){
-                // set fail bit
-                is.setstate(std::ios_base::failbit);
-            }
-        }
-        // don't change the current value unless the new one is valid
-        T x;
-        is >> x;
-        if(is.fail()){
-            boost::safe_numerics::dispatch<
-                E,
-                boost::safe_numerics::safe_numerics_error::domain_error
-            >(
-                "error in file input"
-            );
-        }
-        else
-            m_t = validated_cast(x);
+    // don't change the current value unless the new one is valid
+    x_type x;
+    is >> x;
+    if(is.fail()){
+        boost::safe_numerics::dispatch<
+            E,
+            boost::safe_numerics::safe_numerics_error::domain_error
+        >(
+            "error in file input"
+        );
     }
+    else
+        m_t = validated_cast(x);
 }
 
 } // safe_numerics
-- 
2.43.0


From be2bdf691f8ef37c2ab307c2a17237385e178c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:33 +0000
Subject: [PATCH 23/25] fix: minimum value % -1 when the declared ranges rule
 out an error is zero instead of a crash

---
 include/boost/safe_numerics/safe_base_operations.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index 749c8e5..b25ca36 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -1016,9 +1016,15 @@ private:
     // if exception not possible
     constexpr static result_base_type
     return_value(const T & t, const U & u, std::false_type){
+        // note: the built-in operator doesn't produce the correct result
+        // (zero) when the minimum value is divided by -1
         return static_cast<result_base_type>(
-            static_cast<temp_base>(base_value(t))
-            % static_cast<temp_base>(base_value(u))
+            static_cast<temp_base>(
+                checked::modulus<temp_base>(
+                    static_cast<temp_base>(base_value(t)),
+                    static_cast<temp_base>(base_value(u))
+                )
+            )
         );
     }
 
-- 
2.43.0


From 714b2dc07e777e94a83f8c8ac47f95a4743d3857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:16 +0000
Subject: [PATCH 24/25] fix: an operand type that is none of the types of cpp<>
 is ranked by its width

---
 include/boost/safe_numerics/cpp.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/boost/safe_numerics/cpp.hpp b/include/boost/safe_numerics/cpp.hpp
index 07c747c..a44de7e 100644
--- a/include/boost/safe_numerics/cpp.hpp
+++ b/include/boost/safe_numerics/cpp.hpp
@@ -18,6 +18,7 @@
 
 #include "safe_common.hpp"
 #include "checked_result.hpp"
+#include "utility.hpp"
 
 namespace boost {
 namespace safe_numerics {
@@ -44,22 +45,24 @@ public:
     using local_long_type = typename boost::int_t<LongBits>::exact;
     using local_long_long_type = typename boost::int_t<LongLongBits>::exact;
 
+    // note: a type which is not one of the types above ranks with the narrowest
+    // of them which can hold its values.
     template<class T>
     using rank =
         typename std::conditional<
-            std::is_same<local_char_type, typename std::make_signed<T>::type>::value,
+            (utility::bits_type<T>::value <= CharBits),
             std::integral_constant<int, 1>,
         typename std::conditional<
-            std::is_same<local_short_type, typename std::make_signed<T>::type>::value,
+            (utility::bits_type<T>::value <= ShortBits),
             std::integral_constant<int, 2>,
         typename std::conditional<
-            std::is_same<local_int_type, typename std::make_signed<T>::type>::value,
+            (utility::bits_type<T>::value <= IntBits),
             std::integral_constant<int, 3>,
         typename std::conditional<
-            std::is_same<local_long_type, typename std::make_signed<T>::type>::value,
+            (utility::bits_type<T>::value <= LongBits),
             std::integral_constant<int, 4>,
         typename std::conditional<
-            std::is_same<local_long_long_type, typename std::make_signed<T>::type>::value,
+            (utility::bits_type<T>::value <= LongLongBits),
             std::integral_constant<int, 5>,
             std::integral_constant<int, 6> // catch all - never promote integral
         >::type >::type >::type >::type >::type;
-- 
2.43.0


From 175fb6e500303242206dc0d0720d85ea841fec3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:54 +0000
Subject: [PATCH 25/25] fix: ~ takes the complement in the type of the result,
 not in the stored type

---
 include/boost/safe_numerics/safe_base.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/safe_numerics/safe_base.hpp b/include/boost/safe_numerics/safe_base.hpp
index 03c6edd..5b9cf7b 100644
--- a/include/boost/safe_numerics/safe_base.hpp
+++ b/include/boost/safe_numerics/safe_base.hpp
@@ -272,7 +272,9 @@ public:
     are performed. The type of the result is the type of the promoted operand.
     */
     constexpr auto operator~() const { // complement
-        return ~Stored(0u) ^ *this;
+        // all ones in the type of the result
+        using r_type = typename base_type<decltype(Stored(0u) ^ *this)>::type;
+        return static_cast<r_type>(~r_type(0u)) ^ *this;
     }
 };
 
-- 
2.43.0

