From 67cb523d7ada049cfc9657999dfe13af2e4992b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:51 +0000
Subject: [PATCH 01/31] fix: simple_resource must not truncate the next region
 index to bool

---
 sources/include/utils/memory/simple_resource.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sources/include/utils/memory/simple_resource.h b/sources/include/utils/memory/simple_resource.h
index 995d026..042299e 100644
--- a/sources/include/utils/memory/simple_resource.h
+++ b/sources/include/utils/memory/simple_resource.h
@@ -214,7 +214,7 @@ class simple_resource : public memory_resource
     void release() noexcept
     {
         apply([this](BIndex aIndex) noexcept -> bool { return in_use(aIndex); },
-              [this](BIndex aIndex) mutable noexcept -> bool
+              [this](BIndex aIndex) mutable noexcept -> BIndex
               { return at(deallocate_blocks(aIndex)).next_index(); });
     }
 
@@ -302,7 +302,7 @@ class simple_resource : public memory_resource
                 apply([this](BIndex aIndex) noexcept -> bool
                       { return not in_use(aIndex); },
                       [this, &pointer, aAlignment,
-                       aSize](BIndex aIndex) mutable noexcept -> bool
+                       aSize](BIndex aIndex) mutable noexcept -> BIndex
                       {
                           const auto block_size = block_size_in_bytes(aIndex);
                           std::byte *const block_pointer =
@@ -391,7 +391,7 @@ class simple_resource : public memory_resource
 
     template <typename Predicate, typename Action>
     std::enable_if_t<std::is_nothrow_invocable_r_v<bool, Predicate, BIndex> &&
-                     std::is_nothrow_invocable_r_v<bool, Action, BIndex>>
+                     std::is_nothrow_invocable_r_v<BIndex, Action, BIndex>>
     apply(Predicate &&aPredicate, Action &&aAction) noexcept
     {
         BIndex i = 0;
-- 
2.43.0


From f6332ad527e9155f33d380fe88a91d8cc05772eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:51 +0000
Subject: [PATCH 02/31] fix: simple_resource must reserve only the blocks a
 request covers

---
 sources/include/utils/memory/simple_resource.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/include/utils/memory/simple_resource.h b/sources/include/utils/memory/simple_resource.h
index 042299e..e0ddca3 100644
--- a/sources/include/utils/memory/simple_resource.h
+++ b/sources/include/utils/memory/simple_resource.h
@@ -413,7 +413,7 @@ class simple_resource : public memory_resource
                          std::size_t aSize) noexcept
     {
         const BIndex first = pointer_to_block_index(aPtr);
-        const BIndex last = pointer_to_block_index(aPtr + aSize);
+        const BIndex last = pointer_to_block_index(aPtr + aSize - 1);
         const BIndex after_free = at(aFreeRegion).next_index();
         const BIndex last_of_free =
             after_free ? after_free - 1 : static_cast<BIndex>(block_count_ - 1);
-- 
2.43.0


From b88a6e2451e6d89ebec15287c1e91be3c875e34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:51 +0000
Subject: [PATCH 03/31] fix: simple_resource fit test must not overflow for
 huge sizes

---
 sources/include/utils/memory/simple_resource.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/include/utils/memory/simple_resource.h b/sources/include/utils/memory/simple_resource.h
index e0ddca3..fd2ec52 100644
--- a/sources/include/utils/memory/simple_resource.h
+++ b/sources/include/utils/memory/simple_resource.h
@@ -309,7 +309,7 @@ class simple_resource : public memory_resource
                               block_index_to_pointer(aIndex);
                           const auto skip =
                               skip_to_align(block_pointer, aAlignment);
-                          if (skip + aSize <= block_size)
+                          if (skip <= block_size && aSize <= block_size - skip)
                           {
                               pointer = block_pointer + skip;
                               allocate_blocks(aIndex, pointer, aSize);
-- 
2.43.0


From 0f0d976fe3aff9a9e7197228b1d05b2d2f3e0f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:51 +0000
Subject: [PATCH 04/31] fix: monotonic_buffer_resource fit test must not
 overflow for huge sizes

---
 .../include/utils/memory/monotonic_buffer_resource.h   | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sources/include/utils/memory/monotonic_buffer_resource.h b/sources/include/utils/memory/monotonic_buffer_resource.h
index 33f5368..9c563e4 100644
--- a/sources/include/utils/memory/monotonic_buffer_resource.h
+++ b/sources/include/utils/memory/monotonic_buffer_resource.h
@@ -72,12 +72,12 @@ class monotonic_buffer_resource : public memory_resource
         if (data_)
         {
             const auto skip = skip_to_align(next_, aAlignment);
-            std::byte *supposed_result = next_ + skip;
-            if (std::less_equal<std::byte *>{}(supposed_result + aSize,
-                                               data_ + size_))
+            const auto available =
+                static_cast<std::size_t>(data_ + size_ - next_);
+            if (skip <= available && aSize <= available - skip)
             {
-                next_ = supposed_result + aSize;
-                pointer = supposed_result;
+                pointer = next_ + skip;
+                next_ = pointer + aSize;
             }
         }
 
-- 
2.43.0


From c464a5e780581e478e686b3b031696c1367652cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:51 +0000
Subject: [PATCH 05/31] fix: simple_resource must be able to deallocate what
 upstream allocated

---
 sources/include/utils/memory/simple_resource.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/include/utils/memory/simple_resource.h b/sources/include/utils/memory/simple_resource.h
index fd2ec52..7329c5d 100644
--- a/sources/include/utils/memory/simple_resource.h
+++ b/sources/include/utils/memory/simple_resource.h
@@ -323,7 +323,7 @@ class simple_resource : public memory_resource
         if (!pointer && upstream_)
         {
             pointer = static_cast<std::byte *>(
-                upstream_->allocate(aSize, aAlignment));
+                upstream_->allocate(aSize, std::max(aAlignment, BlockSize)));
         }
 
         assert(is_aligned(pointer, BlockSize));
-- 
2.43.0


From e2d78d3717587db86670edd988c8804e5db245c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:51 +0000
Subject: [PATCH 06/31] fix: simple_resource without blocks has no free region
 and can be released

---
 sources/include/utils/memory/simple_resource.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sources/include/utils/memory/simple_resource.h b/sources/include/utils/memory/simple_resource.h
index 7329c5d..b9e05b9 100644
--- a/sources/include/utils/memory/simple_resource.h
+++ b/sources/include/utils/memory/simple_resource.h
@@ -213,6 +213,10 @@ class simple_resource : public memory_resource
 
     void release() noexcept
     {
+        if (!block_count_)
+        {
+            return;
+        }
         apply([this](BIndex aIndex) noexcept -> bool { return in_use(aIndex); },
               [this](BIndex aIndex) mutable noexcept -> BIndex
               { return at(deallocate_blocks(aIndex)).next_index(); });
@@ -551,7 +555,7 @@ class simple_resource : public memory_resource
     memory_resource *upstream_{memory::get_default_resource()};
     block_info infos_[MaxBlockCount]{};
     std::bitset<MaxBlockCount> in_use_{};
-    std::size_t free_count_{1};
+    std::size_t free_count_{block_count_ ? std::size_t{1} : std::size_t{0}};
     std::size_t busy_count_{};
 };
 }  // namespace memory
-- 
2.43.0


From 293305114d9977b8265bba82be08ac743c2b0051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:51 +0000
Subject: [PATCH 07/31] fix: compute alignments above 2^30 without int overflow

---
 sources/include/utils/common.h                 | 2 +-
 sources/include/utils/memory/simple_resource.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/include/utils/common.h b/sources/include/utils/common.h
index 45589ff..677b675 100644
--- a/sources/include/utils/common.h
+++ b/sources/include/utils/common.h
@@ -423,7 +423,7 @@ constexpr std::size_t max_alignment_inside_block(
     const std::size_t msb = bits_count(value) - 1;
 
     // 2. return 2^msb
-    const std::size_t max_alignment = 1 << msb;
+    const std::size_t max_alignment = std::size_t{1} << msb;
 
     return max_alignment;
     ;
diff --git a/sources/include/utils/memory/simple_resource.h b/sources/include/utils/memory/simple_resource.h
index b9e05b9..b5dd8b5 100644
--- a/sources/include/utils/memory/simple_resource.h
+++ b/sources/include/utils/memory/simple_resource.h
@@ -299,7 +299,7 @@ class simple_resource : public memory_resource
         if (data_)
         {
             const std::size_t kBufferAlignment =
-                1 << ctz(reinterpret_cast<uintptr_t>(data_));
+                std::size_t{1} << ctz(reinterpret_cast<uintptr_t>(data_));
             if (aAlignment <= max_alignment_inside_block(
                                   kBufferAlignment, block_count_ * BlockSize))
             {
-- 
2.43.0


From 5d597293d03b3edc8a679aa0ca77001af62a7520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:51 +0000
Subject: [PATCH 08/31] fix: constexpr memmove must handle a destination
 overlapping the source

---
 sources/include/utils/memory/memory.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/sources/include/utils/memory/memory.h b/sources/include/utils/memory/memory.h
index 8daca9f..8abd906 100644
--- a/sources/include/utils/memory/memory.h
+++ b/sources/include/utils/memory/memory.h
@@ -98,6 +98,17 @@ constexpr std::byte *memmove(std::byte *aDst, const std::byte *aSrc,
         {
             return aDst;
         }
+        for (std::size_t i = 1; i < aCount; ++i)
+        {
+            if (aDst == aSrc + i)
+            {  // destination begins inside of the source: copy backward
+                for (std::size_t j = aCount; j > 0; --j)
+                {
+                    *(aDst + j - 1) = *(aSrc + j - 1);
+                }
+                return aDst;
+            }
+        }
         for (std::size_t i = 0; i < aCount; ++i)
         {
             *(aDst + i) = *(aSrc + i);
-- 
2.43.0


From af7d16ddebeec07024a13390a3a10ae2d8935046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:51 +0000
Subject: [PATCH 09/31] fix: allocator must forward constructor arguments with
 their own types

---
 sources/include/utils/memory/allocator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/include/utils/memory/allocator.h b/sources/include/utils/memory/allocator.h
index c783925..c4a52c7 100644
--- a/sources/include/utils/memory/allocator.h
+++ b/sources/include/utils/memory/allocator.h
@@ -37,7 +37,7 @@ class allocator
     template <typename U, typename... Args>
     void construct(U* aPtr, Args&&... aArgs) noexcept
     {
-        new (aPtr) U(std::forward<T>(aArgs)...);
+        new (aPtr) U(std::forward<Args>(aArgs)...);
     }
 
     [[nodiscard]] void* allocate_bytes(
@@ -68,7 +68,7 @@ class allocator
         U* ptr = this->allocate_object<U>();
         if (ptr)
         {
-            this->construct(ptr, aArgs...);
+            this->construct(ptr, std::forward<CtorArgs>(aArgs)...);
         }
         return ptr;
     }
-- 
2.43.0


From 0e5a5c58b82bc90d22f2608b5e36f357f45395d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:51 +0000
Subject: [PATCH 10/31] fix: allocators of different types can be converted and
 compared

---
 sources/include/utils/memory/allocator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/include/utils/memory/allocator.h b/sources/include/utils/memory/allocator.h
index c4a52c7..1349292 100644
--- a/sources/include/utils/memory/allocator.h
+++ b/sources/include/utils/memory/allocator.h
@@ -20,7 +20,7 @@ class allocator
     allocator& operator=(const allocator&) = delete;
 
     template <typename U>
-    allocator(const allocator<U>& aOther) noexcept : resource_(aOther.resource_)
+    allocator(const allocator<U>& aOther) noexcept : resource_(aOther.resource())
     {
     }
 
@@ -104,7 +104,7 @@ class allocator
 template <class T1, class T2>
 bool operator==(const allocator<T1>& aLhs, const allocator<T2>& aRhs) noexcept
 {
-    return *aLhs.resource_ == *aRhs.resource_;
+    return *aLhs.resource() == *aRhs.resource();
 }
 
 template <class T1, class T2>
-- 
2.43.0


From 25709af25568e97041e338b5a97198ab64462599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:51 +0000
Subject: [PATCH 11/31] fix: allocator must not return a short block when the
 byte count overflows

---
 sources/include/utils/memory/allocator.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sources/include/utils/memory/allocator.h b/sources/include/utils/memory/allocator.h
index 1349292..3617cf1 100644
--- a/sources/include/utils/memory/allocator.h
+++ b/sources/include/utils/memory/allocator.h
@@ -1,6 +1,7 @@
 #ifndef utils_allocator_h
 #define utils_allocator_h
 
+#include <limits>
 #include <type_traits>
 
 #include "memory.h"
@@ -28,6 +29,10 @@ class allocator
 
     [[nodiscard]] T* allocate(std::size_t aCount) noexcept
     {
+        if (aCount > std::numeric_limits<std::size_t>::max() / sizeof(T))
+        {
+            return nullptr;
+        }
         return static_cast<T*>(
             resource_->allocate(aCount * sizeof(T), alignof(T)));
     }
@@ -52,6 +57,10 @@ class allocator
     template <typename U>
     [[nodiscard]] U* allocate_object(std::size_t aCount = 1) noexcept
     {
+        if (aCount > std::numeric_limits<std::size_t>::max() / sizeof(U))
+        {
+            return nullptr;
+        }
         return static_cast<U*>(allocate_bytes(aCount * sizeof(U), alignof(U)));
     }
 
-- 
2.43.0


From 52a6284dd14481b6ae98c140841cdc42841190a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:51 +0000
Subject: [PATCH 12/31] fix: system, null and default resources must be one per
 program

---
 sources/include/utils/memory/memory.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sources/include/utils/memory/memory.h b/sources/include/utils/memory/memory.h
index 8abd906..d93f365 100644
--- a/sources/include/utils/memory/memory.h
+++ b/sources/include/utils/memory/memory.h
@@ -229,8 +229,8 @@ class memory_resource
     deallocate_t deallocate_{};
 };
 
-static memory_resource *system_memory_resource() noexcept;
-static memory_resource *null_memory_resource() noexcept;
+inline memory_resource *system_memory_resource() noexcept;
+inline memory_resource *null_memory_resource() noexcept;
 
 namespace details
 {
@@ -297,25 +297,25 @@ class null_memory_resource : public memory_resource
 };
 }  // namespace details
 
-[[maybe_unused]] static memory_resource *system_memory_resource() noexcept
+inline memory_resource *system_memory_resource() noexcept
 {
     static details::system_memory_resource r;
     return &r;
 }
 
-[[maybe_unused]] static memory_resource *null_memory_resource() noexcept
+inline memory_resource *null_memory_resource() noexcept
 {
     static details::null_memory_resource r;
     return &r;
 }
 
-[[maybe_unused]] static memory_resource *set_default_resource(
+inline memory_resource *set_default_resource(
     memory_resource *aResource) noexcept
 {
     return details::default_resource.exchange(aResource);
 }
 
-[[maybe_unused]] static memory_resource *get_default_resource() noexcept
+inline memory_resource *get_default_resource() noexcept
 {
     return details::default_resource.load();
 }
-- 
2.43.0


From 8427e278bf8070564198f0b86f72e0d1e6798f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:51 +0000
Subject: [PATCH 13/31] fix: make_array of one value must not move that value
 more than once

---
 sources/include/utils/common.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sources/include/utils/common.h b/sources/include/utils/common.h
index 677b675..f2337f0 100644
--- a/sources/include/utils/common.h
+++ b/sources/include/utils/common.h
@@ -178,7 +178,14 @@ template <typename T, std::size_t... I>
 constexpr std::array<T, sizeof...(I)> make_array_with_value_impl(
     [[maybe_unused]] T aValue, std::index_sequence<I...>) noexcept
 {
-    return {make_element_for_index<T, I>(std::move(aValue))...};
+    if constexpr (std::is_copy_constructible_v<T>)
+    {
+        return {make_element_for_index<const T&, I>(aValue)...};
+    }
+    else
+    {
+        return {make_element_for_index<T, I>(std::move(aValue))...};
+    }
 }
 
 template <std::size_t... I>
-- 
2.43.0


From 02a28d47f742c36279d89a1899942f9053b335e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:51 +0000
Subject: [PATCH 14/31] fix: div must give the same result at run time and at
 compile time

---
 sources/include/utils/common.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/sources/include/utils/common.h b/sources/include/utils/common.h
index f2337f0..40a8558 100644
--- a/sources/include/utils/common.h
+++ b/sources/include/utils/common.h
@@ -605,6 +605,14 @@ constexpr decltype(auto) div(T aNumerator, U aDenominator) noexcept
                            static_cast<type>(static_cast<type>(aNumerator) %
                                              static_cast<type>(aDenominator))};
     }
+    else if constexpr (std::is_unsigned_v<type> &&
+                       sizeof(type) >= sizeof(long long))
+    {  // there is no std::div that can represent all values of this type
+        return div_t<type>{static_cast<type>(aNumerator) /
+                               static_cast<type>(aDenominator),
+                           static_cast<type>(aNumerator) %
+                               static_cast<type>(aDenominator)};
+    }
     else
     {
         using types_with_builtin_impl = type_list<int, long, long long>;
@@ -613,8 +621,9 @@ constexpr decltype(auto) div(T aNumerator, U aDenominator) noexcept
             std::conditional_t<types_with_builtin_impl::contains_v<common_t>,
                                common_t, long long>;
 
-        const auto result = std::div(static_cast<work_t>(aNumerator),
-                                     static_cast<work_t>(aDenominator));
+        const auto result =
+            std::div(static_cast<work_t>(static_cast<type>(aNumerator)),
+                     static_cast<work_t>(static_cast<type>(aDenominator)));
         return div_t<type>{static_cast<type>(result.quot),
                            static_cast<type>(result.rem)};
     }
-- 
2.43.0


From b83efe008b0369f96d30202b6ebc7403e23dabf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:51 +0000
Subject: [PATCH 15/31] fix: secure_zero_memory must wipe buffers that are not
 read afterwards

---
 sources/include/utils/memory/memory.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sources/include/utils/memory/memory.h b/sources/include/utils/memory/memory.h
index d93f365..bd14e68 100644
--- a/sources/include/utils/memory/memory.h
+++ b/sources/include/utils/memory/memory.h
@@ -66,7 +66,12 @@ inline constexpr void secure_zero_memory(std::byte *aPtr,
 #ifdef __STDC_LIB_EXT1__
         sysops::memory::ops::memset_s(aPtr, aSize, '\0', aSize);
 #else
-        handmade_zero_mem(aPtr, aSize);
+        // volatile: stores to a dying buffer must not be optimized out
+        volatile std::byte *buf = aPtr;
+        for (std::size_t i = 0; i < aSize; ++i)
+        {
+            *(buf + i) = std::byte{};
+        }
 #endif
 #endif
     }
-- 
2.43.0


From a44d7d83abcbd840ed1954f4aa379adc2cee69eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:34 +0000
Subject: [PATCH 16/31] fix: cartesian_product of a first list without elements
 is empty

---
 sources/include/utils/cartesian_product.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sources/include/utils/cartesian_product.h b/sources/include/utils/cartesian_product.h
index 563c628..d13c9d9 100644
--- a/sources/include/utils/cartesian_product.h
+++ b/sources/include/utils/cartesian_product.h
@@ -85,6 +85,7 @@ template <std::size_t I, auto... Values, typename List>
 struct cartesian_product_impl<I, value_list<Values...>, List>
 {
     using type = concatenate_t<
+        type_list<>,
         typename one_element_mult<I == 0, value_list<Values>, List>::type...>;
 };
 
@@ -92,6 +93,7 @@ template <std::size_t I, typename... Ts, typename List>
 struct cartesian_product_impl<I, type_list<Ts...>, List>
 {
     using type = concatenate_t<
+        type_list<>,
         typename one_element_mult<I == 0, type_list<Ts>, List>::type...>;
 };
 }  // namespace details
-- 
2.43.0


From c5464442df73488022060895f9711b4a04cc8a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:01 +0000
Subject: [PATCH 17/31] fix: convertible type probes are false for classes
 without the type

---
 sources/include/utils/function_traits.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sources/include/utils/function_traits.h b/sources/include/utils/function_traits.h
index 72ba4a5..af56cb7 100644
--- a/sources/include/utils/function_traits.h
+++ b/sources/include/utils/function_traits.h
@@ -62,8 +62,10 @@
                                                                             \
     template <typename T, typename To>                                      \
     struct has_convertible_type_##member_type                               \
-        : ::utils::is_detected_convertible<                                 \
-              To, details::has_type_##member_type##_helper, T>              \
+        : std::conjunction<                                                 \
+              has_type_##member_type<T>,                                    \
+              ::utils::is_detected_convertible<                             \
+                  To, details::has_type_##member_type##_helper, T>>         \
     {                                                                       \
     };                                                                      \
                                                                             \
-- 
2.43.0


From 74e479cb81b4b14f583e6ef89c88889eb961aed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:13 +0000
Subject: [PATCH 18/31] fix: is_uint was true for cv-qualified bool

---
 sources/include/utils/common.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/include/utils/common.h b/sources/include/utils/common.h
index 40a8558..d433c21 100644
--- a/sources/include/utils/common.h
+++ b/sources/include/utils/common.h
@@ -65,7 +65,7 @@ namespace utils
 template <typename T>
 struct is_uint
     : std::conjunction<std::is_unsigned<T>,
-                       std::negation<std::is_same<T, bool>>>
+                       std::negation<std::is_same<std::remove_cv_t<T>, bool>>>
 {
 };
 
-- 
2.43.0


From 55c47498010a3dffe8415db89685cc5dad8024c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:03 +0000
Subject: [PATCH 19/31] fix: has_padding did not compile for aggregates
 containing an empty one

---
 sources/include/utils/padding_checker.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sources/include/utils/padding_checker.h b/sources/include/utils/padding_checker.h
index 9855444..14b2ada 100644
--- a/sources/include/utils/padding_checker.h
+++ b/sources/include/utils/padding_checker.h
@@ -17,9 +17,10 @@ struct sum_size_of_all_members;
 template <typename T, std::size_t... I>
 std::integral_constant<
     std::size_t,
-    (... + sum_size_of_all_members<
-               pfr::tuple_element_t<I, T>,
-               std::is_aggregate_v<pfr::tuple_element_t<I, T>>>::value)>
+    (std::size_t{0} + ... +
+     sum_size_of_all_members<
+         pfr::tuple_element_t<I, T>,
+         std::is_aggregate_v<pfr::tuple_element_t<I, T>>>::value)>
     sum(std::index_sequence<I...>);
 
 template <typename T, bool IsAggregate>
-- 
2.43.0


From a76757138a55cd04933b99333e36b41141cdd3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:23 +0000
Subject: [PATCH 20/31] fix: for_each_arg invoked or rejected a comma operator
 of the function's result

---
 sources/include/utils/common.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/include/utils/common.h b/sources/include/utils/common.h
index d433c21..b2c3fe8 100644
--- a/sources/include/utils/common.h
+++ b/sources/include/utils/common.h
@@ -665,7 +665,7 @@ template <typename F, typename... Ts>
 void for_each_arg(F&& f, Ts&&... ts)
 {
     using I = std::initializer_list<int>;
-    (void)I{(std::forward<F>(f)(std::forward<Ts>(ts)), 0)...};
+    (void)I{(void(std::forward<F>(f)(std::forward<Ts>(ts))), 0)...};
 }
 
 template <typename F, typename T>
-- 
2.43.0


From 46fa47dcbade6e597ed02d6165492d18a51b1c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:53 +0000
Subject: [PATCH 21/31] fix: UTILS_ABORT_IF broke its message when the source
 path holds a percent sign

---
 sources/include/utils/common.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/sources/include/utils/common.h b/sources/include/utils/common.h
index b2c3fe8..7e7bc96 100644
--- a/sources/include/utils/common.h
+++ b/sources/include/utils/common.h
@@ -45,10 +45,9 @@
 #endif
 
 #ifndef UTILS_ABORT_IF
-#define UTILS_ABORT_IF_HELPER(condition, format_str, ...)                \
-    utils::abort_if(condition,                                           \
-                    "[ERROR]\n" UTILS_FILE_LINE "\nfunc: %s" format_str, \
-                    UTILS_FUNC, __VA_ARGS__)
+#define UTILS_ABORT_IF_HELPER(condition, format_str, ...)           \
+    utils::abort_if(condition, "[ERROR]\n%s\nfunc: %s" format_str, \
+                    UTILS_FILE_LINE, UTILS_FUNC, __VA_ARGS__)
 #define UTILS_ABORT_IF(...) UTILS_ABORT_IF_HELPER(__VA_ARGS__, "", "")
 #else
 #error "UTILS_ABORT_IF already defined somewhere"
-- 
2.43.0


From bf9ee5fb6782e21fb6d6924a4fdc11879681b726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:50 +0000
Subject: [PATCH 22/31] fix: make_array_from_range did not compile for ranges
 ending near the greatest value of their type

---
 sources/include/utils/common.h | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/sources/include/utils/common.h b/sources/include/utils/common.h
index 7e7bc96..113bb51 100644
--- a/sources/include/utils/common.h
+++ b/sources/include/utils/common.h
@@ -294,25 +294,19 @@ constexpr auto make_array_from_range() noexcept
     static_assert(is_valid_range_v<kMin, kMax, Step, CommonT>,
                   "Invalid range arguments.");
 
-    auto step_count = [](auto aBegin, auto aEnd, auto aStep) constexpr
-    {
-        std::size_t count{};
-        while (aBegin <= aEnd)
-        {
-            ++count;
-            aBegin += aStep;
-        }
-        return count;
-    };
-
-    constexpr auto kCount = step_count(kMin, kMax, Step);
+    // Counting by division and not stepping past the last value keeps ranges
+    // ending at the greatest value of a type in bounds.
+    constexpr auto kCount = static_cast<std::size_t>((kMax - kMin) / Step) + 1;
 
     std::array<CommonT, kCount> result{};
     auto currentValue = Begin;
-    for (auto& v: result)
+    for (std::size_t i = 0; i < kCount; ++i)
     {
-        v = CommonT{currentValue};
-        currentValue = currentValue + Step;
+        if (i > 0)
+        {
+            currentValue = currentValue + Step;
+        }
+        result[i] = CommonT{currentValue};
     }
     return result;
 }
-- 
2.43.0


From b6606f3032f0888494ec0866398603079db33399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:17 +0000
Subject: [PATCH 23/31] fix: values_in_range was empty or rejected for ranges
 ending at the greatest value of their type

---
 sources/include/utils/common.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sources/include/utils/common.h b/sources/include/utils/common.h
index 113bb51..ca016a6 100644
--- a/sources/include/utils/common.h
+++ b/sources/include/utils/common.h
@@ -713,13 +713,13 @@ struct values_in_range
 {
    private:
     using SeqT = std::common_type_t<decltype(First), decltype(Last)>;
-    using Indices = shifted_sequence_t<
-        std::make_integer_sequence<SeqT, static_cast<SeqT>(Last + 1 - First)>,
-        static_cast<SeqT>(First)>;
+    using DistanceT = decltype(Last - First);
+    using Indices =
+        std::make_index_sequence<static_cast<std::size_t>(Last - First) + 1>;
 
-    template <auto... I>
-    static value_list<I...> values_in_range_impl(
-        std::integer_sequence<SeqT, I...>) noexcept;
+    template <std::size_t... I>
+    static value_list<static_cast<SeqT>(First + static_cast<DistanceT>(I))...>
+        values_in_range_impl(std::index_sequence<I...>) noexcept;
 
    public:
     using type = decltype(values_in_range_impl(Indices{}));
-- 
2.43.0


From cfaed1aadca238b42dc73e850e0c2431940962c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:08 +0000
Subject: [PATCH 24/31] fix: accept ranges whose step reaches beyond the
 greatest value of their type

---
 sources/include/utils/common.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/include/utils/common.h b/sources/include/utils/common.h
index ca016a6..31f04c2 100644
--- a/sources/include/utils/common.h
+++ b/sources/include/utils/common.h
@@ -273,7 +273,7 @@ template <auto Begin, auto End, auto Step = 1,
           typename CommonT =
               std::decay_t<std::common_type_t<decltype(Begin), decltype(End)>>>
 struct is_valid_range
-    : std::integral_constant<bool, ((Begin < End) && (Begin < Begin + Step)) ||
+    : std::integral_constant<bool, ((Begin < End) && (Step > 0)) ||
                                        (Begin == End)>
 {
 };
-- 
2.43.0


From d5995557453a52ad67550d2d90243fdbb12e3736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:49 +0000
Subject: [PATCH 25/31] fix: hold types that overload unary & or operator new
 in place

---
 sources/include/utils/fast_pimpl.h | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/sources/include/utils/fast_pimpl.h b/sources/include/utils/fast_pimpl.h
index 6514c47..c870546 100644
--- a/sources/include/utils/fast_pimpl.h
+++ b/sources/include/utils/fast_pimpl.h
@@ -1,6 +1,7 @@
 #ifndef utils_fast_pimpl_h
 #define utils_fast_pimpl_h
 
+#include <memory>
 #include <new>
 #include <type_traits>
 
@@ -22,37 +23,37 @@ class fast_pimpl final
 
     fast_pimpl() noexcept(std::is_nothrow_constructible_v<T>)
     {
-        new (&get()) T();
+        ::new (static_cast<void *>(data_)) T();
     }
 
     template <typename... Args>
     explicit fast_pimpl(forwarding_constructor, Args &&...args) noexcept(
         std::is_nothrow_constructible_v<T, Args...>)
     {
-        new (&get()) T(std::forward<Args>(args)...);
+        ::new (static_cast<void *>(data_)) T(std::forward<Args>(args)...);
     }
 
     fast_pimpl(const fast_pimpl &aOther) noexcept(
         std::is_nothrow_copy_constructible_v<T>)
     {
-        new (&get()) T(aOther.get());
+        ::new (static_cast<void *>(data_)) T(aOther.get());
     }
 
     fast_pimpl(const T &aOther) noexcept(
         std::is_nothrow_copy_constructible_v<T>)
     {
-        new (&get()) T(aOther);
+        ::new (static_cast<void *>(data_)) T(aOther);
     }
 
     fast_pimpl(fast_pimpl &&aOther) noexcept(
         std::is_nothrow_move_constructible_v<T>)
     {
-        new (&get()) T(std::move(aOther.get()));
+        ::new (static_cast<void *>(data_)) T(std::move(aOther.get()));
     }
 
     fast_pimpl(T &&aOther) noexcept(std::is_nothrow_move_constructible_v<T>)
     {
-        new (&get()) T(std::move(aOther));
+        ::new (static_cast<void *>(data_)) T(std::move(aOther));
     }
 
     fast_pimpl &operator=(const fast_pimpl &aOther) noexcept(
@@ -83,9 +84,9 @@ class fast_pimpl final
         return *this;
     }
 
-    T *operator->() noexcept { return &get(); }
+    T *operator->() noexcept { return std::addressof(get()); }
 
-    const T *operator->() const noexcept { return &get(); }
+    const T *operator->() const noexcept { return std::addressof(get()); }
 
     template <std::size_t ActualSize, std::size_t ActualAlignment>
     static void validate() noexcept
-- 
2.43.0


From b6de228ad9ffe1f2b0912ef487be30f1be2d7e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:49 +0000
Subject: [PATCH 26/31] fix: construct types with their own operator new at the
 address given

---
 sources/include/utils/memory/allocator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/include/utils/memory/allocator.h b/sources/include/utils/memory/allocator.h
index 3617cf1..8d4c728 100644
--- a/sources/include/utils/memory/allocator.h
+++ b/sources/include/utils/memory/allocator.h
@@ -42,7 +42,7 @@ class allocator
     template <typename U, typename... Args>
     void construct(U* aPtr, Args&&... aArgs) noexcept
     {
-        new (aPtr) U(std::forward<Args>(aArgs)...);
+        ::new (static_cast<void*>(aPtr)) U(std::forward<Args>(aArgs)...);
     }
 
     [[nodiscard]] void* allocate_bytes(
-- 
2.43.0


From 042f78fa061c4d24b34b0766e7ed0992cc3ad99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:53 +0000
Subject: [PATCH 27/31] fix: pools of at most one block did not compile

---
 sources/include/utils/memory/simple_resource.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sources/include/utils/memory/simple_resource.h b/sources/include/utils/memory/simple_resource.h
index b5dd8b5..22b5444 100644
--- a/sources/include/utils/memory/simple_resource.h
+++ b/sources/include/utils/memory/simple_resource.h
@@ -147,7 +147,8 @@ class simple_resource : public memory_resource
    public:
     friend class memory_resource;
 
-    using BIndex = uint_from_nbits_t<bits_count(MaxBlockCount - 1)>;
+    using BIndex = uint_from_nbits_t<bits_count(
+        MaxBlockCount > 1 ? MaxBlockCount - 1 : std::size_t{1})>;
     struct block_info
     {
         friend class simple_resource;
-- 
2.43.0


From 0d060cfd1ff68c05bbe55feef1fcc6682d831896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:30 +0000
Subject: [PATCH 28/31] fix: make_array_from_range did not compile for ranges
 wider than their type or of one value and no step

---
 sources/include/utils/common.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sources/include/utils/common.h b/sources/include/utils/common.h
index 31f04c2..76b6b47 100644
--- a/sources/include/utils/common.h
+++ b/sources/include/utils/common.h
@@ -295,8 +295,14 @@ constexpr auto make_array_from_range() noexcept
                   "Invalid range arguments.");
 
     // Counting by division and not stepping past the last value keeps ranges
-    // ending at the greatest value of a type in bounds.
-    constexpr auto kCount = static_cast<std::size_t>((kMax - kMin) / Step) + 1;
+    // ending at the greatest value of a type in bounds; so does measuring the
+    // distance in unsigned arithmetic for ranges wider than their type.
+    constexpr std::size_t kStep =
+        kMin == kMax ? 1 : static_cast<std::size_t>(Step);
+    constexpr std::size_t kCount =
+        (static_cast<std::size_t>(kMax) - static_cast<std::size_t>(kMin)) /
+            kStep +
+        1;
 
     std::array<CommonT, kCount> result{};
     auto currentValue = Begin;
-- 
2.43.0


From 2ea18fcbb212cd10b80526799e9bad4c1e731a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:49 +0000
Subject: [PATCH 29/31] fix: bit_cast of types that overload unary & read or
 wrote elsewhere

---
 sources/include/utils/common.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sources/include/utils/common.h b/sources/include/utils/common.h
index 76b6b47..42c9d46 100644
--- a/sources/include/utils/common.h
+++ b/sources/include/utils/common.h
@@ -10,6 +10,7 @@
 #include <cstring>
 #include <functional>
 #include <limits>
+#include <memory>
 #include <string_view>
 #include <tuple>
 #include <type_traits>
@@ -687,7 +688,7 @@ bit_cast(const From& src) noexcept
                   "to be trivially constructible");
 
     To dst;
-    std::memcpy(&dst, &src, sizeof(To));
+    std::memcpy(std::addressof(dst), std::addressof(src), sizeof(To));
     return dst;
 }
 
-- 
2.43.0


From d922c8bd3d6ff475e600205237600939a38fcc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:48 +0000
Subject: [PATCH 30/31] fix: headers did not compile unless others were
 included first

---
 sources/include/utils/cartesian_product.h | 2 ++
 sources/include/utils/common.h            | 2 ++
 sources/include/utils/details/cxz.h       | 2 ++
 sources/include/utils/fast_pimpl.h        | 1 +
 sources/include/utils/timer.h             | 2 ++
 sources/include/utils/value_list.h        | 1 +
 6 files changed, 10 insertions(+)

diff --git a/sources/include/utils/cartesian_product.h b/sources/include/utils/cartesian_product.h
index d13c9d9..7b3a2a0 100644
--- a/sources/include/utils/cartesian_product.h
+++ b/sources/include/utils/cartesian_product.h
@@ -1,6 +1,8 @@
 #ifndef utils_cartesian_product_h
 #define utils_cartesian_product_h
 
+#include <cstddef>
+
 namespace utils
 {
 template <typename... Ts>
diff --git a/sources/include/utils/common.h b/sources/include/utils/common.h
index 42c9d46..fd39497 100644
--- a/sources/include/utils/common.h
+++ b/sources/include/utils/common.h
@@ -5,6 +5,8 @@
 #include <cassert>
 #include <climits>
 #include <cstdarg>
+#include <cstddef>
+#include <cstdint>
 #include <cstdio>
 #include <cstdlib>
 #include <cstring>
diff --git a/sources/include/utils/details/cxz.h b/sources/include/utils/details/cxz.h
index f477c96..14a4fa7 100644
--- a/sources/include/utils/details/cxz.h
+++ b/sources/include/utils/details/cxz.h
@@ -1,6 +1,8 @@
 #ifndef utils_details_cxz_h
 #define utils_details_cxz_h
 
+#include <type_traits>
+
 namespace utils
 {
 namespace details
diff --git a/sources/include/utils/fast_pimpl.h b/sources/include/utils/fast_pimpl.h
index c870546..52c79ba 100644
--- a/sources/include/utils/fast_pimpl.h
+++ b/sources/include/utils/fast_pimpl.h
@@ -1,6 +1,7 @@
 #ifndef utils_fast_pimpl_h
 #define utils_fast_pimpl_h
 
+#include <cstddef>
 #include <memory>
 #include <new>
 #include <type_traits>
diff --git a/sources/include/utils/timer.h b/sources/include/utils/timer.h
index 002ea87..1ee5d41 100644
--- a/sources/include/utils/timer.h
+++ b/sources/include/utils/timer.h
@@ -2,6 +2,8 @@
 #define utils_timer_h
 
 #include <chrono>
+#include <cstddef>
+#include <functional>
 #include <type_traits>
 #include <utility>
 
diff --git a/sources/include/utils/value_list.h b/sources/include/utils/value_list.h
index 5247db4..a40e30b 100644
--- a/sources/include/utils/value_list.h
+++ b/sources/include/utils/value_list.h
@@ -1,6 +1,7 @@
 #ifndef utils_value_list_h
 #define utils_value_list_h
 
+#include <algorithm>
 #include <cstddef>
 #include <tuple>
 #include <type_traits>
-- 
2.43.0


From 1b17378ecf2038dc6f7c21c333f78f1e119fe738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:57 +0000
Subject: [PATCH 31/31] fix: timers misplaced callables that overload unary &
 or operator new

---
 sources/include/utils/timer.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sources/include/utils/timer.h b/sources/include/utils/timer.h
index 1ee5d41..eb054da 100644
--- a/sources/include/utils/timer.h
+++ b/sources/include/utils/timer.h
@@ -4,6 +4,7 @@
 #include <chrono>
 #include <cstddef>
 #include <functional>
+#include <new>
 #include <type_traits>
 #include <utility>
 
@@ -104,12 +105,11 @@ class timer
         static_assert(std::is_invocable_r_v<void, FinishCallback, duration>);
         if constexpr (std::is_same_v<FinishCallback, callback_ref_t>)
         {
-            new (&impl::template callback<stored_callback_t>(data_))
-                stored_callback_t(aCallback);
+            ::new (static_cast<void *>(data_)) stored_callback_t(aCallback);
         }
         else
         {
-            new (&impl::template callback<stored_callback_t>(data_))
+            ::new (static_cast<void *>(data_))
                 stored_callback_t(std::forward<FinishCallback>(aCallback));
         }
     }
-- 
2.43.0

