From 4007223cb647263da63d22598c1513735740541c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:57 +0000
Subject: [PATCH 1/6] fix: let exceptions thrown by the function given to
 transform() propagate

The noexcept specification ignored that invoking the function may throw, so
that std::terminate() was called if the result type is nothrow constructible.
---
 include/tiny/optional.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/tiny/optional.h b/include/tiny/optional.h
index 7b5a9b6..a2cae18 100644
--- a/include/tiny/optional.h
+++ b/include/tiny/optional.h
@@ -1082,7 +1082,8 @@ namespace impl
 
     template <class FuncT, class ArgT>
     void ConstructPayloadFromFunction(FuncT && func, ArgT && arg) noexcept(
-        std::is_nothrow_constructible_v<PayloadType, std::invoke_result_t<FuncT, ArgT>>)
+        std::is_nothrow_invocable_v<FuncT, ArgT>
+        && std::is_nothrow_constructible_v<PayloadType, std::invoke_result_t<FuncT, ArgT>>)
     {
       assert(!has_value());
       FlagManipulator::invalidate_empty_flag(GetIsEmptyFlag());
@@ -1092,7 +1093,9 @@ namespace impl
       // NOLINTBEGIN(clang-analyzer-core.uninitialized.Assign)
 
       // In analogy to ConstructPayload().
-      if constexpr (std::is_nothrow_constructible_v<PayloadType, std::invoke_result_t<FuncT, ArgT>>) {
+      if constexpr (
+          std::is_nothrow_invocable_v<FuncT, ArgT>
+          && std::is_nothrow_constructible_v<PayloadType, std::invoke_result_t<FuncT, ArgT>>) {
         ::new (const_cast<void *>(static_cast<void volatile const *>(std::addressof(GetPayload()))))
             PayloadType(std::invoke(std::forward<FuncT>(func), std::forward<ArgT>(arg)));
       }
-- 
2.43.0


From 22654fcb9e199fca8863b5159c9c5545f95efafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:57 +0000
Subject: [PATCH 2/6] fix: invalidate the empty flag when an empty optional is
 destroyed

The object created by init_empty_flag() was leaked when an optional was
destroyed while empty, and when a constructor threw.
---
 include/tiny/optional.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/tiny/optional.h b/include/tiny/optional.h
index a2cae18..b9e2a1a 100644
--- a/include/tiny/optional.h
+++ b/include/tiny/optional.h
@@ -960,17 +960,18 @@ namespace impl
 
     template <class... ArgsT>
     explicit StorageBase(std::in_place_t, ArgsT &&... args)
+      // Initialize the IsEmpty flag first since invalidate_empty_flag() might depend on it. Delegating to the default
+      // constructor ensures that the destructor invalidates the flag again if constructing the payload throws.
+      : StorageBase()
     {
-      // Initialize the IsEmpty flag first since invalidate_empty_flag() might depend on it.
-      FlagManipulator::init_empty_flag(GetIsEmptyFlag());
       ConstructPayload(std::forward<ArgsT>(args)...);
     }
 
     template <class FuncT, class ArgT>
     StorageBase(DirectInitializationFromFunctionTag, FuncT && func, ArgT && arg)
+      // In analogy to the in-place constructor.
+      : StorageBase()
     {
-      // Initialize the IsEmpty flag first since invalidate_empty_flag() might depend on it.
-      FlagManipulator::init_empty_flag(GetIsEmptyFlag());
       ConstructPayloadFromFunction(std::forward<FuncT>(func), std::forward<ArgT>(arg));
     }
 
@@ -980,6 +981,10 @@ namespace impl
       if (has_value()) {
         DestroyPayload();
       }
+      else {
+        // Destroy the object that was created in init_empty_flag().
+        FlagManipulator::invalidate_empty_flag(GetIsEmptyFlag());
+      }
     }
 
     // The proper implemention of the following are defined in the derived classes.
-- 
2.43.0


From 8304229c970fe786cc503d1e66e04f293ee4c461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:57 +0000
Subject: [PATCH 3/6] fix: let the non-member swap() of tiny::optional use the
 member swap()

Overload resolution preferred std::swap() over the overload for the base
class, which performs moves instead of swapping the payloads.
---
 include/tiny/optional.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/tiny/optional.h b/include/tiny/optional.h
index b9e2a1a..f94db29 100644
--- a/include/tiny/optional.h
+++ b/include/tiny/optional.h
@@ -2279,6 +2279,19 @@ public:
 };
 
 
+// Without this overload, an unqualified swap(o1, o2) selects the generic std::swap() since it is a better match than the
+// overload for the base class.
+template <
+    class P,
+    auto e,
+    auto i,
+    std::enable_if_t<std::is_move_constructible_v<P> && std::is_swappable_v<P>, int> = 0>
+void swap(optional<P, e, i> & lhs, optional<P, e, i> & rhs) noexcept(noexcept(lhs.swap(rhs)))
+{
+  lhs.swap(rhs);
+}
+
+
 // Deduction guide.
 template <class T>
 optional(T) -> optional<T, UseDefaultValue, UseDefaultValue>;
-- 
2.43.0


From f2944903d65494e4b75ab586126ebb0df9e16184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:06 +0000
Subject: [PATCH 4/6] fix: std::optional <=>
 tiny::optional_inplace/optional_sentinel_via_type with gcc

With gcc (which does not implement CWG 2445) the standard library's operator<=>
comparing a std::optional with a plain value was selected, so two empty optionals
compared as 'less' instead of 'equal'. Define the operator explicitly, as already
done for tiny::optional and for all other comparison operators.
---
 include/tiny/optional.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/tiny/optional.h b/include/tiny/optional.h
index f94db29..31dc4c3 100644
--- a/include/tiny/optional.h
+++ b/include/tiny/optional.h
@@ -2745,6 +2745,17 @@ namespace impl
   {
     return (lhs && rhs) ? (*lhs <=> *rhs) : (lhs.has_value() <=> rhs.has_value());
   }
+
+  #ifdef TINY_OPTIONAL_GCC_WORKAROUND_CWG2445
+  template <class U, class D1, class F1>
+    requires(std::three_way_comparable_with<U, typename TinyOptionalImpl<D1, F1>::value_type>)
+  [[nodiscard]] std::compare_three_way_result_t<U, typename TinyOptionalImpl<D1, F1>::value_type> operator<=>(
+      std::optional<U> const & lhs,
+      TinyOptionalImpl<D1, F1> const & rhs)
+  {
+    return (lhs && rhs) ? (*lhs <=> *rhs) : (lhs.has_value() <=> rhs.has_value());
+  }
+  #endif
 } // namespace impl
 
 template <class P, auto e, auto i, std::three_way_comparable_with<P> U>
-- 
2.43.0


From 18ebdd228c8f82410cd25c4cc85c8496e7f7e1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:13 +0000
Subject: [PATCH 5/6] fix: or_else moves an rvalue's value also if the callable
 returns a const optional reference

The conditional operator gave its operands a common type first; if the callable returned an O const& or
O const&&, the rvalue *this became const and got copied instead of moved ([optional.monadic]).
---
 include/tiny/optional.h | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/include/tiny/optional.h b/include/tiny/optional.h
index 31dc4c3..481394b 100644
--- a/include/tiny/optional.h
+++ b/include/tiny/optional.h
@@ -1830,7 +1830,12 @@ namespace impl
       static_assert(
           std::is_same_v<my_remove_cvref_t<std::invoke_result_t<F>>, TinyOptionalImpl>,
           "The function F passed to OPT::or_else(F&&) needs to return an optional of the same type OPT.");
-      return has_value() ? *this : std::forward<F>(f)();
+      if (has_value()) {
+        return *this;
+      }
+      else {
+        return std::forward<F>(f)();
+      }
     }
 
     template <class F>
@@ -1840,7 +1845,12 @@ namespace impl
       static_assert(
           std::is_same_v<my_remove_cvref_t<std::invoke_result_t<F>>, TinyOptionalImpl>,
           "The function F passed to OPT::or_else(F&&) needs to return an optional of the same type OPT.");
-      return has_value() ? std::move(*this) : std::forward<F>(f)();
+      if (has_value()) {
+        return std::move(*this);
+      }
+      else {
+        return std::forward<F>(f)();
+      }
     }
 #endif
   };
@@ -2263,7 +2273,12 @@ public:
     static_assert(
         std::is_same_v<impl::my_remove_cvref_t<std::invoke_result_t<F>>, optional>,
         "The function F passed to OPT::or_else(F&&) needs to return an optional of the same type OPT.");
-    return has_value() ? *this : std::forward<F>(f)();
+    if (has_value()) {
+      return *this;
+    }
+    else {
+      return std::forward<F>(f)();
+    }
   }
 
   template <class F>
@@ -2273,7 +2288,12 @@ public:
     static_assert(
         std::is_same_v<impl::my_remove_cvref_t<std::invoke_result_t<F>>, optional>,
         "The function F passed to OPT::or_else(F&&) needs to return an optional of the same type OPT.");
-    return has_value() ? std::move(*this) : std::forward<F>(f)();
+    if (has_value()) {
+      return std::move(*this);
+    }
+    else {
+      return std::forward<F>(f)();
+    }
   }
 #endif
 };
-- 
2.43.0


From 51ddd3e133c1bfd7f9794337ef6fbabdfd946059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:25 +0000
Subject: [PATCH 6/6] fix: reject unscoped enumerators as sentinels that the
 flag variable cannot represent

optional<unsigned char, X> with an unscoped enumerator X == 300 compiled and silently used 44 as sentinel.
---
 include/tiny/optional.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/tiny/optional.h b/include/tiny/optional.h
index 481394b..812eb95 100644
--- a/include/tiny/optional.h
+++ b/include/tiny/optional.h
@@ -784,11 +784,13 @@ namespace impl
             "for the sentinel is a bool, but not both. If one is a bool, both should be a bool.");
         return SentinelValue::value;
       }
-      else if constexpr (std::is_integral_v<FlagTypeNoCV> && std::is_integral_v<ValueType>) {
+      else if constexpr (
+          std::is_integral_v<FlagTypeNoCV> && (std::is_integral_v<ValueType> || std::is_enum_v<ValueType>)) {
         // The static_cast prevents compiler warnings.
         // That we do not change the numeric value is ensured by the static_assert.
+        // The unary plus converts unscoped enumerations to integers (and does not compile for scoped ones).
         static_assert(
-            IsIntegralInRange<FlagTypeNoCV>(SentinelValue::value),
+            IsIntegralInRange<FlagTypeNoCV>(+SentinelValue::value),
             "The specified compile-time constant for the empty value is outside of the range supported "
             "by the type of the variable used by the optional as IsEmpty-flag. Just as an example: "
             "'optional<unsigned, -1>' triggers this because the value -1 cannot be held by an 'unsigned'.");
-- 
2.43.0

