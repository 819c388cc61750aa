From 5a92f92507ac7ab21e7aa3b484aa238c97683cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:21 +0000
Subject: [PATCH 01/19] fix: compute max_level of narrow PADDING members in the
 member's own type

---
 include/opt/option.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index d9bd0f0..6631d57 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -1500,7 +1500,7 @@ namespace impl {
         using member_type = decltype(std::declval<T&>().PADDING);
         static_assert(std::is_unsigned_v<member_type>, ".PADDING member must be an unsigned integer");
     public:
-        static constexpr std::uintmax_t max_level = std::uintmax_t(~member_type(0));
+        static constexpr std::uintmax_t max_level = std::uintmax_t(member_type(~member_type(0)));
 
         static std::uintmax_t get_level(const T* const value) noexcept {
             return std::uintmax_t(std::uintmax_t(value->PADDING) - 1);
-- 
2.43.0


From 6b5be9be0a0a445e3c1ec9d3847731686f1603f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:54 +0000
Subject: [PATCH 02/19] fix: make opt::swap callable (swappability is a
 property of lvalues)

---
 include/opt/option.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 6631d57..0892f1c 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -2634,14 +2634,14 @@ namespace impl::option {
         and_v<
             std::is_move_constructible<T>,
             std::is_move_constructible<U>,
-            std::is_swappable_with<T, U>
+            std::is_swappable_with<T&, U&>
         >
     >;
     template<class T, class U>
     inline constexpr bool nothrow_swap =
         std::is_nothrow_move_constructible_v<T>
         && std::is_nothrow_move_constructible_v<U>
-        && std::is_nothrow_swappable_with_v<T, U>;
+        && std::is_nothrow_swappable_with_v<T&, U&>;
 }
 
 namespace impl {
@@ -3402,6 +3402,11 @@ template<class T, class U>
 constexpr impl::option::enable_swap<T, U> swap(option<T>& left, option<U>& right) noexcept(impl::option::nothrow_swap<T, U>) {
     left.swap(right);
 }
+// More specialized than both the overload above and `std::swap`, otherwise the unqualified call `swap(left, right)` is ambiguous
+template<class T>
+constexpr impl::option::enable_swap<T, T> swap(option<T>& left, option<T>& right) noexcept(impl::option::nothrow_swap<T, T>) {
+    left.swap(right);
+}
 
 template<class Option>
 [[nodiscard]] constexpr auto flatten(Option&& opt) {
-- 
2.43.0


From 2a53c5fd17725ef72a2155508e272ca2dabebde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:51 +0000
Subject: [PATCH 03/19] fix: avoid signed overflow when reading the level of
 sentinel enumerations

---
 include/opt/option.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 0892f1c..d296b7f 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -1549,7 +1549,7 @@ namespace impl {
         static constexpr std::uintmax_t max_level = 1;
 
         static constexpr std::uintmax_t get_level(const T* const value) noexcept {
-            return std::uintmax_t(underlying(*value) - underlying(sentinel_value));
+            return std::uintmax_t(underlying(*value)) - std::uintmax_t(underlying(sentinel_value));
         }
         static constexpr void set_level(T* const value, [[maybe_unused]] const std::uintmax_t level) noexcept {
             OPTION_VERIFY(level == 0, "Level is out of range");
@@ -1567,7 +1567,7 @@ namespace impl {
 
         static constexpr std::uintmax_t get_level(const T* const value) noexcept {
             const underlying val = impl::ptr_bit_cast<underlying>(value);
-            return std::uintmax_t(val - sentinel_range_start);
+            return std::uintmax_t(val) - std::uintmax_t(sentinel_range_start);
         }
         static constexpr void set_level(T* const value, [[maybe_unused]] const std::uintmax_t level) noexcept {
             OPTION_VERIFY(level < max_level, "Level is out of range");
@@ -1585,7 +1585,7 @@ namespace impl {
 
         static constexpr std::uintmax_t get_level(const T* const value) noexcept {
             const underlying val = impl::ptr_bit_cast<underlying>(value);
-            return std::uintmax_t(val - sentinel_range_start);
+            return std::uintmax_t(val) - std::uintmax_t(sentinel_range_start);
         }
         static constexpr void set_level(T* const value, [[maybe_unused]] const std::uintmax_t level) noexcept {
             OPTION_VERIFY(level < max_level, "Level is out of range");
-- 
2.43.0


From baeeda74a0831c90000194bc800ec5b2492882f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:29 +0000
Subject: [PATCH 04/19] fix: let opt::flatten take a const option (bind the
 result to a const reference)

---
 include/opt/option.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index d296b7f..2b89b17 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -1874,10 +1874,18 @@ namespace impl {
         using type = T&;
     };
     template<class T, class U>
+    struct copy_lvalue_reference<T, const U&> {
+        using type = const T&;
+    };
+    template<class T, class U>
     struct copy_lvalue_reference<T&&, U&> {
         using type = T&&;
     };
     template<class T, class U>
+    struct copy_lvalue_reference<T&&, const U&> {
+        using type = T&&;
+    };
+    template<class T, class U>
     using copy_lvalue_reference_t = typename copy_lvalue_reference<T, U>::type;
 
     template<class T>
-- 
2.43.0


From dde22a9a74d311ed49bf1a3ba4088b8b72e554d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:54 +0000
Subject: [PATCH 05/19] fix: construct non-trivially destructible values in
 place (no temporary whose destructor runs)

---
 include/opt/option.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 2b89b17..e5a6c5b 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -651,7 +651,7 @@ namespace impl {
 #else
     template<class T, class... Args>
     constexpr void construct_at(T* ptr, Args&&... args) {
-        if constexpr (impl::is_trivially_move_assignable_v<T>) {
+        if constexpr (impl::is_trivially_move_assignable_v<T> && impl::is_trivially_destructible_v<T>) {
             if constexpr (std::is_aggregate_v<T>) {
                 *ptr = T{static_cast<Args&&>(args)...};
             } else {
-- 
2.43.0


From 9a657113e345bb0f769eecf82877118800f9012a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:26 +0000
Subject: [PATCH 06/19] fix: restore the empty state when constructing a value
 with spare states throws

---
 include/opt/option.hpp | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index e5a6c5b..1a9bbb7 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -1903,6 +1903,33 @@ namespace impl {
     #pragma warning(disable : 4296) // 'operator' : expression is always false
 #endif
 
+    // The empty state is stored inside the value, so a constructor that throws may have already overwritten it
+    template<class T, class Traits>
+    struct empty_state_guard {
+        T* ptr;
+
+        OPTION_CONSTEXPR_CXX20 ~empty_state_guard() {
+            if (ptr != nullptr) {
+                Traits::set_level(ptr, 0);
+            }
+        }
+    };
+    template<class Traits, class T, class... Args>
+    constexpr void construct_at_with_traits(T* const ptr, Args&&... args) {
+        if constexpr (
+            std::is_nothrow_constructible_v<T, Args...>
+#if !OPTION_IS_CXX20
+            || (impl::is_trivially_move_assignable_v<T> && impl::is_trivially_destructible_v<T>) // see `construct_at`
+#endif
+        ) {
+            impl::construct_at(ptr, static_cast<Args&&>(args)...);
+        } else {
+            empty_state_guard<T, Traits> guard{ptr};
+            impl::construct_at(ptr, static_cast<Args&&>(args)...);
+            guard.ptr = nullptr;
+        }
+    }
+
     template<class T,
         bool TriviallyDestructible = impl::is_trivially_destructible_v<T>,
         bool HasTraits = (opt::option_traits<std::remove_cv_t<T>>::max_level > 0)
@@ -2051,7 +2078,7 @@ namespace impl {
         }
         template<class... Args>
         constexpr void construct(Args&&... args) {
-            impl::construct_at(OPTION_ADDRESSOF(value), static_cast<Args&&>(args)...);
+            impl::construct_at_with_traits<traits>(OPTION_ADDRESSOF(value), static_cast<Args&&>(args)...);
             OPTION_VERIFY(has_value(), "After the construction, the value is in an empty state. Possibly because of the constructor arguments");
         }
     };
@@ -2109,7 +2136,7 @@ namespace impl {
         }
         template<class... Args>
         constexpr void construct(Args&&... args) {
-            impl::construct_at(OPTION_ADDRESSOF(value), static_cast<Args&&>(args)...);
+            impl::construct_at_with_traits<traits>(OPTION_ADDRESSOF(value), static_cast<Args&&>(args)...);
             OPTION_VERIFY(has_value(), "After the construction, the value is in an empty state. Possibly because of the constructor arguments");
         }
     };
-- 
2.43.0


From f6451c9578247dff1d45586f0c62b4c74a0fc2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:46 +0000
Subject: [PATCH 07/19] fix: enable converting construction and assignment
 between reference options

---
 include/opt/option.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 1a9bbb7..a3b1173 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -2683,6 +2683,8 @@ namespace impl {
     struct always_non_explicit {
         template<bool Condition>
         using is_explicit = std::enable_if<!Condition, int>;
+        template<bool Condition>
+        using constructor_is_explicit = std::enable_if<!Condition, int>;
     };
     template<class T, class U>
     struct check_from_value_ctor {
@@ -2802,7 +2804,7 @@ namespace impl {
         using from_option_like_ctor = if_<
             is_not_same_v<U, T>
             && (is_same_reference_wrapper_v<std::remove_reference_t<T>, std::remove_reference_t<U>>
-                || (std::is_convertible_v<std::remove_reference_t<U>*, std::remove_reference_t<T>*>
+                || (std::is_convertible_v<std::remove_reference_t<QualU>*, std::remove_reference_t<T>*>
                 && (std::is_lvalue_reference_v<T> == std::is_lvalue_reference_v<U>))),
             always_non_explicit, option_check_fail
         >;
@@ -2810,7 +2812,7 @@ namespace impl {
         using from_option_like_assign = if_<
             is_not_same_v<U, T>
             && (is_same_reference_wrapper_v<std::remove_reference_t<T>, std::remove_reference_t<U>>
-                || (std::is_convertible_v<std::remove_reference_t<U>*, std::remove_reference_t<T>*>
+                || (std::is_convertible_v<std::remove_reference_t<QualU>*, std::remove_reference_t<T>*>
                 && (std::is_lvalue_reference_v<T> == std::is_lvalue_reference_v<U>))),
             always_assign, option_check_fail
         >;
@@ -2910,7 +2912,11 @@ public:
         typename checks::template from_option_like_ctor<T, U, const U&>::template constructor_is_explicit<false>::type = 0>
     constexpr option(const option<U>& other) {
         if (other.has_value()) {
-            base::construct(other.get());
+            if constexpr (std::is_reference_v<T>) {
+                base::construct(static_cast<const option<U>&&>(other).get());
+            } else {
+                base::construct(other.get());
+            }
         }
     }
     template<class U,
@@ -2969,7 +2975,7 @@ public:
     constexpr option& operator=(const option<U>& other) {
         if constexpr (std::is_reference_v<T>) {
             if (other.has_value()) {
-                base::value = base::ref_to_ptr(static_cast<option<U>&&>(other.get()));
+                base::value = base::ref_to_ptr(static_cast<const option<U>&&>(other).get());
             } else {
                 reset();
             }
-- 
2.43.0


From 6804e5fb1eaa911359eaaefc9fad57dc1049e52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:40 +0000
Subject: [PATCH 08/19] fix: let opt::get<T> take an rvalue option (cast to the
 type of the argument)

---
 include/opt/option.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index a3b1173..97234a3 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -3521,9 +3521,9 @@ template<class T, class OptT>
 template<class T, class OptT>
 [[nodiscard]] constexpr auto get(const opt::option<OptT>& x OPTION_LIFETIMEBOUND) noexcept { return impl::get_impl<T>(x); }
 template<class T, class OptT>
-[[nodiscard]] constexpr auto get(opt::option<OptT>&& x OPTION_LIFETIMEBOUND) noexcept { return impl::get_impl<T>(static_cast<opt::option<T>&&>(x)); }
+[[nodiscard]] constexpr auto get(opt::option<OptT>&& x OPTION_LIFETIMEBOUND) noexcept { return impl::get_impl<T>(static_cast<opt::option<OptT>&&>(x)); }
 template<class T, class OptT>
-[[nodiscard]] constexpr auto get(const opt::option<OptT>&& x OPTION_LIFETIMEBOUND) noexcept { return impl::get_impl<T>(static_cast<const opt::option<T>&&>(x)); }
+[[nodiscard]] constexpr auto get(const opt::option<OptT>&& x OPTION_LIFETIMEBOUND) noexcept { return impl::get_impl<T>(static_cast<const opt::option<OptT>&&>(x)); }
 
 namespace impl {
     template<std::size_t I, class Variant>
-- 
2.43.0


From 4f028a4186e8941d965b52f291269221b45b3f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:06 +0000
Subject: [PATCH 09/19] fix: allow zero offsets and ordering of the iterators
 of an empty option (an empty range, begin() + has_value() is end())

---
 include/opt/option.hpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 97234a3..0458cb5 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -2488,25 +2488,25 @@ namespace impl {
             return tmp;
         }
         constexpr option_iterator& operator+=(const difference_type offset) noexcept {
-            OPTION_VERIFY(ptr != nullptr, "Cannot seek value-initialized option iterator");
+            OPTION_VERIFY(ptr != nullptr || offset == 0, "Cannot seek value-initialized option iterator");
             ptr += offset;
             return *this;
         }
         [[nodiscard]] constexpr option_iterator operator+(const difference_type offset) const noexcept {
-            OPTION_VERIFY(ptr != nullptr, "Cannot seek value-initialized option iterator");
+            OPTION_VERIFY(ptr != nullptr || offset == 0, "Cannot seek value-initialized option iterator");
             return option_iterator{ptr + offset};
         }
         [[nodiscard]] friend constexpr option_iterator operator+(const difference_type offset, const option_iterator& it) noexcept {
-            OPTION_VERIFY(it.ptr != nullptr, "Cannot seek value-initialized option iterator");
+            OPTION_VERIFY(it.ptr != nullptr || offset == 0, "Cannot seek value-initialized option iterator");
             return option_iterator{it.ptr + offset};
         }
         constexpr option_iterator& operator-=(const difference_type offset) noexcept {
-            OPTION_VERIFY(ptr != nullptr, "Cannot seek value-initialized option iterator");
+            OPTION_VERIFY(ptr != nullptr || offset == 0, "Cannot seek value-initialized option iterator");
             ptr -= offset;
             return *this;
         }
         [[nodiscard]] constexpr option_iterator operator-(const difference_type offset) const noexcept {
-            OPTION_VERIFY(ptr != nullptr, "Cannot seek value-initialized option iterator");
+            OPTION_VERIFY(ptr != nullptr || offset == 0, "Cannot seek value-initialized option iterator");
             return option_iterator{ptr - offset};
         }
         [[nodiscard]] constexpr difference_type operator-(const option_iterator& right) const noexcept {
@@ -2523,13 +2523,9 @@ namespace impl {
             return ptr != right.ptr;
         }
         [[nodiscard]] constexpr bool operator<(const option_iterator& right) const noexcept {
-            OPTION_VERIFY(ptr != nullptr, "Cannot compare value-initialized option iterator");
-            OPTION_VERIFY(right.ptr != nullptr, "Cannot compare value-initialized option iterator");
             return ptr < right.ptr;
         }
         [[nodiscard]] constexpr bool operator>(const option_iterator& right) const noexcept {
-            OPTION_VERIFY(ptr != nullptr, "Cannot compare value-initialized option iterator");
-            OPTION_VERIFY(right.ptr != nullptr, "Cannot compare value-initialized option iterator");
             return ptr > right.ptr;
         }
         [[nodiscard]] constexpr bool operator<=(const option_iterator& right) const noexcept {
-- 
2.43.0


From 0e6a8820875e19481ff90196a9a8845dcae651ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:09 +0000
Subject: [PATCH 10/19] fix: let sentinel_f handle more than one sentinel value
 (recurse into the sentinel_f helpers)

---
 include/opt/option.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 0458cb5..ce7c962 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -4019,7 +4019,7 @@ namespace impl {
         if (Compare{}(value, Value)) { return I; }
 
         if constexpr (sizeof...(Values) > 0) {
-            return sentinel_get_level_impl<T, Compare, I + 1, Values...>(value);
+            return sentinel_f_get_level_impl<T, Compare, I + 1, Values...>(value);
         } else {
             return std::uintmax_t(-1);
         }
@@ -4029,7 +4029,7 @@ namespace impl {
         if (level == I) { Set{}(value, Value); return; }
 
         if constexpr (sizeof...(Values) > 0) {
-            sentinel_set_level_impl<T, Set, I + 1, Values...>(value, level);
+            sentinel_f_set_level_impl<T, Set, I + 1, Values...>(value, level);
         } else {
             OPTION_VERIFY(false, "Level is out of range");
         }
-- 
2.43.0


From d833145d605d5b4004b357ab79066dd197301a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:22 +0000
Subject: [PATCH 11/19] fix: let the type wrappers hold a type without a
 default constructor (a value could not be put into option<member<T, P>>)

---
 include/opt/option.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index ce7c962..0a9de75 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -3945,7 +3945,6 @@ namespace impl {
         constexpr explicit type_wrapper(Args&&... args) noexcept(std::is_nothrow_constructible_v<T, Args...>)
             : m{static_cast<Args&&>(args)...} {}
 
-        type_wrapper() = default;
         type_wrapper(const type_wrapper&) = default;
         type_wrapper(type_wrapper&&) = default;
         type_wrapper& operator=(const type_wrapper&) = default;
-- 
2.43.0


From f6f002196caea85cf6175bbf647bd2761380c521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:37 +0000
Subject: [PATCH 12/19] fix: compute the size of a SENTINEL_START..SENTINEL_END
 range without signed overflow

---
 include/opt/option.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 0a9de75..e21f099 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -1581,7 +1581,7 @@ namespace impl {
         static constexpr underlying sentinel_range_start = static_cast<underlying>(T::SENTINEL_START);
         static constexpr underlying sentinel_range_end = static_cast<underlying>(T::SENTINEL_END);
     public:
-        static constexpr std::uintmax_t max_level = sentinel_range_end - sentinel_range_start + 1;
+        static constexpr std::uintmax_t max_level = std::uintmax_t(sentinel_range_end) - std::uintmax_t(sentinel_range_start) + 1;
 
         static constexpr std::uintmax_t get_level(const T* const value) noexcept {
             const underlying val = impl::ptr_bit_cast<underlying>(value);
-- 
2.43.0


From 71802a6258bcddb4f11bdf62df8a2c3ef2692f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:39 +0000
Subject: [PATCH 13/19] fix: do not look for unused values in an enumeration
 whose underlying type is bool

---
 include/opt/option.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index e21f099..4e1a2f0 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -1120,7 +1120,10 @@ namespace impl {
                 }
             } else
 #if OPTION_CAN_REFLECT_ENUM
-            if constexpr (std::is_unsigned_v<std::underlying_type_t<T>>) {
+            if constexpr (
+                std::is_unsigned_v<std::underlying_type_t<T>>
+                && !std::is_same_v<std::underlying_type_t<T>, bool> // there are no unused values above the enumerators
+            ) {
                 return st::enumeration;    
             } else
 #endif
-- 
2.43.0


From 00c8dee6112bb867d0c37ccd5f2a811e6797b2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:34 +0000
Subject: [PATCH 14/19] fix: let clang compile an option of an enumeration
 without a fixed underlying type

---
 include/opt/option.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 4e1a2f0..12a2cb7 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -908,6 +908,12 @@ namespace impl {
         return current;
     }
 
+    // The values outside of the range of an enumeration without a fixed underlying type are not constant expressions
+    template<class E, class = void>
+    inline constexpr bool has_fixed_underlying_type = false;
+    template<class E>
+    inline constexpr bool has_fixed_underlying_type<E, decltype(void(E{0}))> = true;
+
     template<class E, std::uintmax_t Max, class T, T... Vals>
     constexpr std::uintmax_t max_enum_value_impl1(std::integer_sequence<T, Vals...>) {
         return max_enum_value_impl2<static_cast<E>(Max - 1 - Vals)...>(Max);
@@ -1123,6 +1129,9 @@ namespace impl {
             if constexpr (
                 std::is_unsigned_v<std::underlying_type_t<T>>
                 && !std::is_same_v<std::underlying_type_t<T>, bool> // there are no unused values above the enumerators
+    #if OPTION_CLANG
+                && has_fixed_underlying_type<T>
+    #endif
             ) {
                 return st::enumeration;    
             } else
-- 
2.43.0


From 79b0530b252a9a258dd983ccf38d4a22e9317aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:53 +0000
Subject: [PATCH 15/19] fix: make the member swap with an option of another
 type compile with gcc

---
 include/opt/option.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 12a2cb7..508a7db 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -3301,20 +3301,22 @@ public:
     template<class U>
     constexpr void swap(option<U>& other) noexcept(impl::option::nothrow_swap<T, U>) {
         using std::swap;
+        // Not `other.base::value`: it could name the base of this option
+        auto& other_base = static_cast<typename option<U>::base&>(other);
         if (!has_value() && !other.has_value()) {
             return;
         }
         if (has_value() && other.has_value()) {
-            swap(base::value, other.base::value);
+            swap(base::value, other_base.value);
             return;
         }
         if (has_value()) {
-            other.base::construct(static_cast<T&&>(get()));
+            other_base.construct(static_cast<T&&>(get()));
             base::reset();
             return;
         }
         base::construct(static_cast<U&&>(other.get()));
-        other.base::reset();
+        other_base.reset();
     }
 };
 
-- 
2.43.0


From f5ee5a3ee313edfbcd86232a7555a2c8fc112a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:43 +0000
Subject: [PATCH 16/19] fix: let std::to_address take the iterators of an empty
 option (std::span of an empty option stopped in the iterator check)

---
 include/opt/option.hpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 508a7db..8183774 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -2450,6 +2450,9 @@ namespace impl {
 #endif
     template<class T>
     class option_iterator {
+#if OPTION_IS_CXX20
+        friend struct std::pointer_traits<option_iterator<T>>;
+#endif
     public:
 #if OPTION_IS_CXX20
         using iterator_concept = std::contiguous_iterator_tag;
@@ -2552,6 +2555,24 @@ namespace impl {
     #pragma clang attribute pop
 #endif
 
+}
+
+#if OPTION_IS_CXX20
+// `std::to_address` of a contiguous iterator must also accept the past-the-end iterator of an empty option, which `operator->` does not
+template<class T>
+struct std::pointer_traits<opt::impl::option_iterator<T>> {
+    using pointer = opt::impl::option_iterator<T>;
+    using element_type = typename pointer::value_type;
+    using difference_type = typename pointer::difference_type;
+
+    [[nodiscard]] static constexpr element_type* to_address(const pointer& it) noexcept {
+        return it.ptr;
+    }
+};
+#endif
+
+namespace opt {
+
 class bad_access : public std::exception {
 public:
     bad_access() noexcept = default;
-- 
2.43.0


From 2f8e4323189b5316c404c883c89ef364280fedf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:11 +0000
Subject: [PATCH 17/19] fix: let option hold std::unique_ptr<T[]> (its spare
 values are pointers to the element type)

---
 include/opt/option.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 8183774..70485ac 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -1419,7 +1419,7 @@ namespace impl {
         }
         static void set_level(std::unique_ptr<Elem, std::default_delete<Elem>>* const value, const std::uintmax_t level) noexcept {
             OPTION_VERIFY(level < max_level, "Level is out of range");
-            impl::construct_at(value, reinterpret_cast<Elem*>(sentinel_ptr + level));
+            impl::construct_at(value, reinterpret_cast<std::remove_extent_t<Elem>*>(sentinel_ptr + level));
         }
     };
 
-- 
2.43.0


From 2c6d8506ae14801db8056103ae5625765ddb88c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:43 +0000
Subject: [PATCH 18/19] fix: do not reflect unions (an option of a union did
 not compile)

---
 include/opt/option.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 70485ac..df96a0a 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -833,7 +833,10 @@ namespace impl {
 #ifdef OPTION_HAS_PFR
     template<class Struct>
     inline constexpr bool pfr_is_option_reflectable =
-        OPTION_PFR_NAMESPACE is_implicitly_reflectable_v<Struct, option_tag>;
+        std::conjunction_v<
+            std::negation<std::is_union<Struct>>, // unions cannot be reflected
+            OPTION_PFR_NAMESPACE is_implicitly_reflectable<Struct, option_tag>
+        >;
 
     template<class Struct>
     struct pfr_find_max_level;
-- 
2.43.0


From fb15c52abbe9f39a56055962440b724a2213994d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:41 +0000
Subject: [PATCH 19/19] fix: honour OPTION_USE_QUIET_NAN in the floating point
 option traits

---
 include/opt/option.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index df96a0a..d0dea6c 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -1099,14 +1099,14 @@ namespace impl {
                 if constexpr (sizeof(std::uintptr_t) == 4) {
                     return st::float64_qNaN;
                 } else {
-                    return limits::has_signaling_NaN ? st::float64_sNaN : st::float64_qNaN;
+                    return (limits::has_signaling_NaN && !(OPTION_USE_QUIET_NAN)) ? st::float64_sNaN : st::float64_qNaN;
                 }
             } else
             if constexpr (sizeof(T) == 4) {
                 if constexpr (sizeof(std::uintptr_t) == 4) {
                     return st::float32_qNaN;
                 } else {
-                    return limits::has_signaling_NaN ? st::float32_sNaN : st::float32_qNaN;
+                    return (limits::has_signaling_NaN && !(OPTION_USE_QUIET_NAN)) ? st::float32_sNaN : st::float32_qNaN;
                 }
             } else
             return st::none;
-- 
2.43.0

