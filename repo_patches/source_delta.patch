From b29dc214da7ec07ee2b7f982b4234d3782a50c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:43 +0000
Subject: [PATCH 001/158] fix: compute negative pointer offsets in signed
 arithmetic

ptr::scaled_offset() multiplied a ptrdiff_t by a size_t, so that every negative
offset was added to the pointer as a huge unsigned number, which is undefined.
---
 best/memory/ptr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/memory/ptr.h b/best/memory/ptr.h
index 5a43185..f98da88 100644
--- a/best/memory/ptr.h
+++ b/best/memory/ptr.h
@@ -468,7 +468,7 @@ class ptr final {
   ptr scaled_offset(ptrdiff_t idx, size_t size = 1) const requires thin
   {
     if (idx == 0) { return *this; }
-    auto offset = (const char*)raw() + (idx * size);
+    auto offset = (const char*)raw() + (idx * static_cast<ptrdiff_t>(size));
     return (pointee*)offset;
   }
 
-- 
2.43.0


From aa1109f798fb2a153454f9835e0ed17f6ee0bb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:55 +0000
Subject: [PATCH 002/158] fix: crash instead of wrapping when a debug cookie
 overflows the size

An allocation within 16 bytes (or one alignment) of the largest size wrapped
around, so the allocator handed out a tiny block for it.
---
 best/memory/allocator.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/best/memory/allocator.cc b/best/memory/allocator.cc
index fec2148..ca50436 100644
--- a/best/memory/allocator.cc
+++ b/best/memory/allocator.cc
@@ -42,6 +42,11 @@ best::layout embiggen(best::layout layout) {
   size_t grow_by = best::size_of<best::layout>;
   if (grow_by < new_align) { grow_by = new_align; }
 
+  if (best::unlikely(layout.size() > best::max_of<size_t> - grow_by)) {
+    best::crash_internal::crash("attempted to allocate too much memory: %zu:%zu",
+                                layout.size(), layout.align());
+  }
+
   return best::layout(
     unsafe("the alignment is a power of two, because it is either `layout`'s "
            "alignment or that of `best::layout`"),
-- 
2.43.0


From 063cbe3a4e1638e528c29f72522f493b85bad1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:55 +0000
Subject: [PATCH 003/158] fix: keep contents and layout when resizing
 over-aligned blocks

realloc() of a block with alignment above 16 copied from the start of the
cookie, shifted the pointer past the cookie twice and freed it with the new
layout; changing between small and large alignments lost the cookie offset.
---
 best/memory/allocator.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/best/memory/allocator.cc b/best/memory/allocator.cc
index ca50436..3150416 100644
--- a/best/memory/allocator.cc
+++ b/best/memory/allocator.cc
@@ -136,11 +136,13 @@ best::ptr<void> malloc::zalloc(best::layout layout) {
 best::ptr<void> malloc::realloc(best::ptr<void> ptr, best::layout old,
                                 best::layout layout) {
   check_addr(ptr);
-  check_layout(ptr, old);
+  auto base = ptr;
+  auto old_actual = old;
+  check_layout(base, old_actual);
   auto actual = UseCookies ? embiggen(layout) : layout;
 
-  if (actual.align() <= MaxAlign) {
-    void* p = ::realloc(ptr.raw(), actual.size());
+  if (old_actual.align() <= MaxAlign && actual.align() <= MaxAlign) {
+    void* p = ::realloc(base.raw(), actual.size());
     if (best::unlikely(p == nullptr)) {
       best::crash_internal::crash(
         "realloc() returned a null pointer on layout %zu:%zu -> %zu:%zu",
@@ -156,7 +158,7 @@ best::ptr<void> malloc::realloc(best::ptr<void> ptr, best::layout old,
   auto p = alloc(layout);
   size_t common = best::min(old.size(), layout.size());
   std::memcpy(p.raw(), ptr.raw(), common);
-  dealloc(ptr, layout);
+  dealloc(ptr, old);
   return p;
 }
 
-- 
2.43.0


From b9370df724dc87c255ed88d028790a502dec84d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:45 +0000
Subject: [PATCH 004/158] fix: reject bounds whose inclusive end is the largest
 index

{.start = 0, .including_end = max} wrapped around to an empty, valid range.
---
 best/iter/bounds.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/best/iter/bounds.h b/best/iter/bounds.h
index 82efd80..9318db1 100644
--- a/best/iter/bounds.h
+++ b/best/iter/bounds.h
@@ -364,6 +364,12 @@ constexpr int_range<Int>::opt_t int_range<Int>::try_compute_count(
 {
   if (!max_size && !end && !including_end && !count) { return {}; }
 
+  // The number of indices in {.start = 0, .including_end = Max} is not
+  // representable (and would be out-of-bounds for any `max_size`).
+  if (!end && including_end && start == 0 && *including_end == Max) {
+    return {};
+  }
+
   auto count = normalize(max_size).count;
   if (!max_size) { return count; }
 
-- 
2.43.0


From 2f8e43b4a268a70d84d7688e4f0920fa6b3bd55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:45 +0000
Subject: [PATCH 005/158] fix: report the right numbers when a bounds check
 fails

The message passed the whole option to printf for an out-of-bounds end, and
called an overflowing count a bug in the library.
---
 best/iter/bounds.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/best/iter/bounds.cc b/best/iter/bounds.cc
index eebbabb..e8e9de1 100644
--- a/best/iter/bounds.cc
+++ b/best/iter/bounds.cc
@@ -47,12 +47,18 @@ namespace best::bounds_internal {
 
   if (end && *end > len) {
     crash_internal::crash({"bounds-check failed: %zu (end) > %zu (len)", loc},
-                          end, len);
+                          *end, len);
   }
 
   if (including_end && *including_end >= len) {
     crash_internal::crash({"bounds-check failed: %zu (end) >= %zu (len)", loc},
-                          end, len);
+                          *including_end, len);
+  }
+
+  if (count && (best::overflow(start) + *count).overflowed) {
+    crash_internal::crash(
+      {"bounds-check failed: %zu + %zu (start + count) overflows", loc}, start,
+      *count);
   }
 
   if (count && start + *count > len) {
-- 
2.43.0


From 1b153a47589f1e7f5a15540ecb25730e9be6e45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:45 +0000
Subject: [PATCH 006/158] fix: honor including_end in unchecked slicing

span::at(unsafe, {.including_end = ...}) read the unset exclusive end.
---
 best/memory/span.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/memory/span.h b/best/memory/span.h
index fdfea2f..9dfc6d0 100644
--- a/best/memory/span.h
+++ b/best/memory/span.h
@@ -1006,7 +1006,7 @@ constexpr best::span<T> span<T, n>::at(unsafe, best::bounds range) const {
   if (range.end) {
     count = *range.end - range.start;
   } else if (range.including_end) {
-    count = *range.end - range.start + 1;
+    count = *range.including_end - range.start + 1;
   } else if (range.count) {
     count = *range.count;
   }
-- 
2.43.0


From b95948b574ebaed70071e6bd499ca9c3b24e04e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:26 +0000
Subject: [PATCH 007/158] fix: crash when a fixed-size span is made from the
 wrong length

The constructor compared the static size with itself, so a span<T, n> could be
built over fewer than n elements.
---
 best/memory/span.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/best/memory/span.h b/best/memory/span.h
index 9dfc6d0..32b4282 100644
--- a/best/memory/span.h
+++ b/best/memory/span.h
@@ -845,8 +845,11 @@ template <best::is_object T, best::option<best::dependent<size_t, T>> n>
 constexpr span<T, n>::span(best::ptr<T> data, size_t size, best::location loc)
   : data_(data) {
   if constexpr (is_static) {
-    best::bounds bounds_check = {.start = this->size(), .count = 0};
-    bounds_check.compute_count(this->size(), loc);
+    if (best::unlikely(size != this->size())) {
+      crash_internal::crash(
+        {"bounds-check failed: expected exactly %zu elements, got %zu", loc},
+        this->size(), size);
+    }
   } else {
     size_ = size;
   }
-- 
2.43.0


From 7eb60a93cf9af81e645d25ec0ce33f47d26c42ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:37 +0000
Subject: [PATCH 008/158] fix: keep the remaining size right after a misaligned
 search hit

The bytes skipped so far were subtracted again for every false positive, so the
size wrapped around and memmem() ran past the end of the haystack.
---
 best/memory/internal/bytes.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/memory/internal/bytes.h b/best/memory/internal/bytes.h
index 0595947..4d2fd25 100644
--- a/best/memory/internal/bytes.h
+++ b/best/memory/internal/bytes.h
@@ -169,7 +169,7 @@ constexpr best::option<size_t> search_memmem(best::span<T> haystack,
     // stride of T.
     size_t misalign = sizeof(T) - offset % sizeof(T);
     data += misalign;
-    size -= offset + misalign;
+    size = haystack.size() * sizeof(T) - (offset + misalign);
   }
 }
 
-- 
2.43.0


From f5f72cfb4abff155566c04eb352cd7113487e7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:04 +0000
Subject: [PATCH 009/158] fix: search the remaining span after a partial match

The element-wise search sliced the original span with an index relative to the
remaining one, so it went back and looped or reported a wrong position; it also
did not compile for fixed-size spans.
---
 best/memory/span.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/best/memory/span.h b/best/memory/span.h
index 32b4282..0e4c107 100644
--- a/best/memory/span.h
+++ b/best/memory/span.h
@@ -1072,7 +1072,7 @@ constexpr best::option<size_t> span<T, n>::find(const R& needle) const
       }
     }
 
-    auto haystack = *this;
+    as_dynamic haystack = *this;
     auto [first, rest] = *needle.split_first();
     while (haystack.size() >= needle.size()) {
       // Skip to the next possible start.
@@ -1084,8 +1084,9 @@ constexpr best::option<size_t> span<T, n>::find(const R& needle) const
       if (next == haystack.size()) { return best::none; }
 
       // Skip forward.
-      haystack = at(unsafe("we just did a bounds check; avoid going through "
-                           "best::option here for constexpr speed"),
+      haystack = haystack.at(unsafe("we just did a bounds check; avoid going "
+                                    "through best::option here for constexpr "
+                                    "speed"),
                     {// SKip the first element for a speedier comparison.
                      .start = next + 1});
 
@@ -1108,7 +1109,7 @@ constexpr best::option<size_t> span<T, n>::rfind(const R& needle) const
   if (best::size(needle) == 0) { return 0; }
 
   if constexpr (best::is_span<R>) {
-    auto haystack = *this;
+    as_dynamic haystack = *this;
     auto [last, rest] = *needle.split_last();
     while (haystack.size() >= needle.size()) {
       // Skip to the next possible end.
-- 
2.43.0


From 2678fee8b597d1438548fd9abda7d73d0c6ef619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:04 +0000
Subject: [PATCH 010/158] fix: split spans by predicates and subspans

split_once(predicate) and split(subspan) did not compile, and split() with a
temporary predicate returned an iterator referring to it.
---
 best/memory/span.h | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/best/memory/span.h b/best/memory/span.h
index 0e4c107..71f7d34 100644
--- a/best/memory/span.h
+++ b/best/memory/span.h
@@ -1196,9 +1196,10 @@ constexpr best::option<best::row<span<T>, span<T>>> span<T, n>::split_once(
 {
   auto idx = find(needle);
   if (!idx) { return best::none; }
+  size_t rest = *idx + best::size(needle);
   return {{
     best::span(data(), *idx),
-    best::span(data() + *idx + needle.size(), size() - *idx - needle.size()),
+    best::span(data() + rest, size() - rest),
   }};
 }
 template <best::is_object T, best::option<best::dependent<size_t, T>> n>
@@ -1207,7 +1208,7 @@ constexpr best::option<best::row<span<T>, span<T>>> span<T, n>::split_once(
   auto idx = find(pred);
   if (!idx) { return best::none; }
   return {{
-    best::span(data(), idx),
+    best::span(data(), *idx),
     best::span(data() + *idx + 1, size() - *idx - 1),
   }};
 }
@@ -1231,9 +1232,10 @@ constexpr best::option<best::row<span<T>, span<T>>> span<T, n>::rsplit_once(
 {
   auto idx = rfind(needle);
   if (!idx) { return best::none; }
+  size_t rest = *idx + best::size(needle);
   return {{
     best::span(data(), *idx),
-    best::span(data() + *idx + needle.size(), size() - *idx - needle.size()),
+    best::span(data() + rest, size() - rest),
   }};
 }
 template <best::is_object T, best::option<best::dependent<size_t, T>> n>
@@ -1242,7 +1244,7 @@ constexpr best::option<best::row<span<T>, span<T>>> span<T, n>::rsplit_once(
   auto idx = rfind(pred);
   if (!idx) { return best::none; }
   return {{
-    best::span(data(), idx),
+    best::span(data(), *idx),
     best::span(data() + *idx + 1, size() - *idx - 1),
   }};
 }
@@ -1263,13 +1265,16 @@ template <best::contiguous R>
 constexpr auto span<T, n>::split(const R& needle) const
   requires best::equatable<T, best::data_type<R>> && (!best::equatable<T, R>)
 {
-  return split_iter(split_impl<const R&>(needle, *this));
+  return split_iter<const R&>(split_impl<const R&>(needle, *this));
 }
 template <best::is_object T, best::option<best::dependent<size_t, T>> n>
 constexpr auto span<T, n>::split(
   best::callable<void(const T&)> auto&& pred) const {
-  return split_iter<decltype(pred)>(
-    split_impl<decltype(pred)>(BEST_FWD(pred), *this));
+  // Named predicates are captured by reference; temporaries are moved into the
+  // iterator, because it will outlive them.
+  using P = best::select<best::is_lref<decltype(pred)>, decltype(pred),
+                         best::un_ref<decltype(pred)>>;
+  return split_iter<P>(split_impl<P>(BEST_FWD(pred), *this));
 }
 
 template <best::is_object T, best::option<best::dependent<size_t, T>> n>
-- 
2.43.0


From 37ccdc77e679436c0b4ce74151544ff96f22e01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:03 +0000
Subject: [PATCH 011/158] fix: make byte searches work for every byte-sized
 type

---
 best/memory/internal/bytes.h | 33 ++++++++-------------------------
 best/memory/span.h           |  2 +-
 2 files changed, 9 insertions(+), 26 deletions(-)

diff --git a/best/memory/internal/bytes.h b/best/memory/internal/bytes.h
index 4d2fd25..a2b3632 100644
--- a/best/memory/internal/bytes.h
+++ b/best/memory/internal/bytes.h
@@ -41,10 +41,8 @@ size_t strlen(const char*) noexcept;
 
 #if BEST_CONSTEXPR_MEMCMP_
 #define BEST_memcmp_ __builtin_memcmp
-#define BEST_memchr_ __builtin_char_memchr
 #else
 #define BEST_memcmp_ best::bytes_internal::memcmp
-#define BEST_memchr_ best::bytes_internal::memchr
 #endif
 
 template <typename>
@@ -134,10 +132,11 @@ BEST_INLINE_ALWAYS constexpr best::ord compare(best::span<T> lhs,
 template <typename T, typename U>
 constexpr best::option<size_t> search_byte(best::span<T> haystack,
                                            best::span<U> needle) {
-  auto* found =
-    BEST_memchr_(haystack.data().raw(), *needle.data(), haystack.size());
+  auto* data = haystack.data().raw();
+  auto* byte = reinterpret_cast<const unsigned char*>(needle.data().raw());
+  auto* found = bytes_internal::memchr(data, *byte, haystack.size());
   if (!found) { return best::none; }
-  return found - haystack.data().raw();
+  return static_cast<const T*>(found) - data;
 }
 
 template <typename T, typename U>
@@ -176,33 +175,18 @@ constexpr best::option<size_t> search_memmem(best::span<T> haystack,
 template <typename T, typename U = const T>
 BEST_INLINE_ALWAYS constexpr best::option<size_t> search_constexpr(
   best::span<T> haystack, best::span<U> needle) {
-  if constexpr (sizeof(U) == 1) {
-    if (needle.size() == 1) { return search_byte(haystack, needle); }
-  }
-
   size_t hz = haystack.size();
   size_t nz = needle.size();
 
   if (nz == 0) { return 0; }
-  if (hz < nz) { return best::none; }
 
   T* hp = haystack.data().raw();
   U* np = needle.data().raw();
-
-  U first = *np;
-  const T* end = hp + hz;
-  while (true) {
-    size_t len = end - hp;
-    if (len < nz) { return best::none; }
-
-    // Skip to the next possible candidate.
-    hp = (T*)BEST_memchr_(hp, first, len);
-    if (hp == nullptr) { return best::none; }
-
-    // Check if we actually found the string.
-    if (BEST_memcmp_(hp, np, nz) == 0) { return hp - haystack.data().raw(); }
-    ++hp;
+  for (size_t i = 0; i + nz <= hz; ++i) {
+    // Check for a possible candidate first.
+    if (hp[i] == np[0] && BEST_memcmp_(hp + i, np, nz) == 0) { return i; }
   }
+  return best::none;
 }
 
 template <typename T, typename U = const T>
@@ -221,7 +205,6 @@ BEST_INLINE_ALWAYS constexpr best::option<size_t> search(best::span<T> haystack,
 }
 
 #undef BEST_memcmp_
-#undef BEST_memchr_
 }  // namespace best::bytes_internal
 
 #endif  // BEST_MEMORY_INTERNAL_BYTES_H_
diff --git a/best/memory/span.h b/best/memory/span.h
index 71f7d34..dc94b4c 100644
--- a/best/memory/span.h
+++ b/best/memory/span.h
@@ -917,7 +917,7 @@ template <best::is_object T, best::option<best::dependent<size_t, T>> n>
 constexpr span<T, n> span<T, n>::from_nul(T* data) {
   if (data == nullptr) { return {data, 0}; }
 
-  if constexpr (best::bytes_internal::constexpr_byte_comparable<T>) {
+  if constexpr (best::same<best::un_qual<T>, char>) {
     if (BEST_CONSTEXPR_MEMCMP_ || !std::is_constant_evaluated()) {
       size_t len =
 #if BEST_CONSTEXPR_MEMCMP_
-- 
2.43.0


From 0af3fb267d5f94a1cc5818befd4f1ad9fbc749d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:40 +0000
Subject: [PATCH 012/158] fix: compare spans bytewise only where that matches
 the elements

---
 best/memory/internal/bytes.h | 22 ++++++++++++++++++++++
 best/memory/span.h           | 11 +++++++----
 2 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/best/memory/internal/bytes.h b/best/memory/internal/bytes.h
index a2b3632..eea2f49 100644
--- a/best/memory/internal/bytes.h
+++ b/best/memory/internal/bytes.h
@@ -58,6 +58,16 @@ void can_memcmp(tag<T>, tag<U>) requires requires {
   requires std::is_integral_v<T>;
   requires std::is_integral_v<U>;
 #endif
+  // Distinct types need not have the same notion of equality, even when they
+  // have the same size. Distinct integers do, except where promotion tells
+  // differently-signed values with the same representation apart; `char`s are
+  // always compared as bytes.
+  requires best::same<best::un_qual<T>, best::un_qual<U>> ||
+             (std::is_integral_v<T> && std::is_integral_v<U> &&
+              (sizeof(T) >= sizeof(int) ||
+               std::is_signed_v<T> == std::is_signed_v<U> ||
+               best::same<best::un_qual<T>, char> ||
+               best::same<best::un_qual<U>, char>));
 };
 
 template <typename T, typename U>
@@ -102,6 +112,18 @@ concept constexpr_byte_comparable = requires {
   requires bool(BEST_CONSTEXPR_MEMCMP_);
 };
 
+/// # `best::byte_orderable`
+///
+/// Whether a pair of types' ordering is modeled by `memcmp()`. `char`s are
+/// ordered as unsigned bytes, so that UTF-8 sorts by code point.
+template <typename T, typename U = T>
+concept byte_orderable = requires {
+  requires byte_comparable<T, U>;
+  requires sizeof(T) == 1;
+  requires std::is_unsigned_v<T> || best::same<best::un_qual<T>, char>;
+  requires std::is_unsigned_v<U> || best::same<best::un_qual<U>, char>;
+};
+
 template <typename T, typename U>
 BEST_INLINE_ALWAYS constexpr bool equate(best::span<T> lhs, best::span<U> rhs) {
   if (lhs.size() != rhs.size()) { return false; }
diff --git a/best/memory/span.h b/best/memory/span.h
index dc94b4c..c45f460 100644
--- a/best/memory/span.h
+++ b/best/memory/span.h
@@ -1426,12 +1426,15 @@ constexpr auto span<T, n>::operator<=>(span<U, m> that) const
   requires best::comparable<T, U>
 {
   if (std::is_constant_evaluated()) {
-    if constexpr (best::bytes_internal::constexpr_byte_comparable<T, U>) {
-      return best::bytes_internal::compare(best::span(*this), best::span(that));
+    if constexpr (best::bytes_internal::constexpr_byte_comparable<T, U> &&
+                  best::bytes_internal::byte_orderable<T, U>) {
+      return best::bytes_internal::compare(best::span<T>(*this),
+                                           best::span<U>(that));
     }
   } else {
-    if constexpr (best::bytes_internal::byte_comparable<T, U>) {
-      return best::bytes_internal::compare(best::span(*this), best::span(that));
+    if constexpr (best::bytes_internal::byte_orderable<T, U>) {
+      return best::bytes_internal::compare(best::span<T>(*this),
+                                           best::span<U>(that));
     }
   }
 
-- 
2.43.0


From dc9ae607b7ed170c9db8af639f36531f9bd75d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:42 +0000
Subject: [PATCH 013/158] fix: order results, rows and boxed bool arrays by
 their contents

---
 best/container/result.h    | 44 ++++++++++++++++++++++----------------
 best/container/row.h       |  4 ++--
 best/memory/internal/ptr.h |  4 +++-
 3 files changed, 30 insertions(+), 22 deletions(-)

diff --git a/best/container/result.h b/best/container/result.h
index c329ba2..af3ae86 100644
--- a/best/container/result.h
+++ b/best/container/result.h
@@ -333,33 +333,39 @@ class [[nodiscard(
     const best::result<U, F>& that) const {
     return impl() <=> that.impl();
   }
-  BEST_INLINE_SYNTHETIC constexpr auto operator<=>(
-    const best::comparable<T> auto& u) const {
-    if (auto v = ok()) { return v <=> u; }
-    return best::ord::less;
-  }
-  BEST_INLINE_SYNTHETIC constexpr auto operator<=>(
-    const best::comparable<E> auto& u) const {
-    if (auto v = err()) { return v <=> u; }
+  template <best::comparable<T> U>
+  BEST_INLINE_SYNTHETIC constexpr best::order_type<T, U> operator<=>(
+    const U& u) const {
+    if (is_ok()) { return impl()[best::index<0>] <=> u; }
     return best::ord::greater;
   }
-  template <best::comparable<T> U>
-  BEST_INLINE_SYNTHETIC constexpr auto operator<=>(best::ok<U> u) const {
-    if (auto v = ok()) { return v <=> u.args.args[best::index<0>]; }
+  template <best::comparable<E> U>
+  BEST_INLINE_SYNTHETIC constexpr best::order_type<E, U> operator<=>(
+    const U& u) const {
+    if (is_err()) { return impl()[best::index<1>] <=> u; }
     return best::ord::less;
   }
+  template <best::comparable<T> U>
+  BEST_INLINE_SYNTHETIC constexpr best::order_type<T, U> operator<=>(
+    best::ok<U> u) const {
+    if (is_ok()) {
+      return impl()[best::index<0>] <=> u.args.row[best::index<0>];
+    }
+    return best::ord::greater;
+  }
   template <best::comparable<E> U>
-  BEST_INLINE_SYNTHETIC constexpr auto operator<=>(best::err<U> u) const {
-    if (auto v = ok()) { return v <=> u.args.args[best::index<0>]; }
+  BEST_INLINE_SYNTHETIC constexpr best::order_type<E, U> operator<=>(
+    best::err<U> u) const {
+    if (is_err()) {
+      return impl()[best::index<1>] <=> u.args.row[best::index<0>];
+    }
     return best::ord::less;
   }
-  BEST_INLINE_SYNTHETIC constexpr auto operator<=>(best::ok<> u) const {
-    if (ok()) { return best::ord::equal; }
-    return best::ord::less;
+  BEST_INLINE_SYNTHETIC constexpr best::ord operator<=>(best::ok<>) const {
+    return is_ok() ? best::ord::equal : best::ord::greater;
   }
-  BEST_INLINE_SYNTHETIC constexpr auto operator<=>(best::err<> u) const {
-    if (err()) { return best::ord::equal; }
-    return best::ord::greater;
+  BEST_INLINE_SYNTHETIC constexpr best::ord operator<=>(best::err<>) const {
+    return is_err() ? best::ord::equal : best::ord::less;
   }
 
   friend void BestFmt(auto& fmt, const result& res) requires requires {
diff --git a/best/container/row.h b/best/container/row.h
index 922c1b7..f823852 100644
--- a/best/container/row.h
+++ b/best/container/row.h
@@ -521,13 +521,13 @@ class row final
   }
 
   template <typename... Us>
-  constexpr auto operator<=>(const choice<Us...>& that) const
+  constexpr auto operator<=>(const row<Us...>& that) const
     requires (best::comparable<Elems, Us> && ...)
   {
     using Output = best::common_ord<best::order_type<Elems, Us>...>;
     Output result = Output::equivalent;
 
-    return indices.each([&](auto i) {
+    indices.each([&](auto i) {
       if (result == 0) { result = get(i) <=> that.get(i); }
     });
 
diff --git a/best/memory/internal/ptr.h b/best/memory/internal/ptr.h
index 7db6e07..c819125 100644
--- a/best/memory/internal/ptr.h
+++ b/best/memory/internal/ptr.h
@@ -309,7 +309,9 @@ class array_meta<T[]> {
     : len_(n) {}
 
   constexpr best::layout layout() const { return best::layout::array<T>(len_); }
-  constexpr best::span<T> deref(pointee* ptr) const { return {ptr, len_}; }
+  constexpr best::span<T> deref(pointee* ptr) const {
+    return best::span<T>(ptr, len_);
+  }
 
   static constexpr array_meta meta_for() { return 0; }
   constexpr void construct(pointee* dst, bool assign) const {}
-- 
2.43.0


From e0f4e54286f5bf4ec5cd4a1ba55bda4322889af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:47 +0000
Subject: [PATCH 014/158] fix: compare optional references with null pointers

---
 best/container/option.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/best/container/option.h b/best/container/option.h
index 57075e2..b0306b1 100644
--- a/best/container/option.h
+++ b/best/container/option.h
@@ -720,7 +720,8 @@ class option final {
   constexpr bool operator==(const U* u) const requires best::is_ref<T>
   {
     return (!has_value() && u == nullptr) ||
-           (has_value() && value(unsafe("just checked has_value()")) == *u);
+           (has_value() && u != nullptr &&
+            value(unsafe("just checked has_value()")) == *u);
   }
   constexpr bool operator==(const best::none_t&) const { return is_empty(); }
 
-- 
2.43.0


From 7d740b85feb0413037edcd2f1a11bbe71dc607d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:11 +0000
Subject: [PATCH 015/158] fix: relocate and copy overlapping ranges in the
 right direction

---
 best/memory/ptr.h | 67 +++++++++++------------------------------------
 1 file changed, 16 insertions(+), 51 deletions(-)

diff --git a/best/memory/ptr.h b/best/memory/ptr.h
index f98da88..ea9485a 100644
--- a/best/memory/ptr.h
+++ b/best/memory/ptr.h
@@ -992,7 +992,15 @@ BEST_INLINE_SYNTHETIC constexpr void ptr<T>::copy_impl(ptr<U> that,
     }
   }
 
-  for (size_t i = 0; i < count; ++i) {
+  // When the regions overlap, go through the elements in the direction that
+  // reads each of them before it is overwritten.
+  bool backwards = false;
+  if constexpr (how.overlapping) {
+    backwards = best::compare(raw(), that.raw()) > 0;
+  }
+
+  for (size_t k = 0; k < count; ++k) {
+    size_t i = backwards ? count - k - 1 : k;
     if constexpr (how.assign) {
       if constexpr (how.kind == how::Copy) {
         offset(i).assign(that.offset(i).deref());
@@ -1019,35 +1027,6 @@ BEST_INLINE_ALWAYS constexpr void ptr<T>::relo_overlapping(ptr<T> that,
 
   if (dst == src) { return; }
 
-  // We need to handle the following cases.
-  //
-  // Non-overlapping shift. Happens when src + count <= dst or dst + count <=
-  // src, need to destroy {.start = src, .count = count }.
-  // | xxxx | yyyyyyyyyyyy | xxxxxxxxxxxx | ------------ | xxxx |
-  //        src            src + count    dst            dst + count
-  //
-  // Overlapping forward shift. Happens when src < dst < src + count, need to
-  // destroy {.start = src, .end = dest }
-  // | xxxx | yyyyyyyyyyyy | yyyyyy | ------------ | xxxx |
-  //        src            dst      src + count    dst + count
-  //
-  // The moved part is subdivided as follows according to how it needs to be
-  // moved:
-  // | aaaa | bbbbbbbbbbbb | cccc |
-  // src    src + overlap  dst    src + count
-  //
-  // Where overlap = src + count - dst. The c part is move-constructed
-  // but not destroyed; then the b part is relocated, and the a part is
-  // move-assigned and then destroyed.
-  //
-  // Overlapping backward shift. Happens when dst < src < dest + count, need to
-  // destroy {.start = dst + count, .end = src + count }
-  // | xxxx | ------------ | yyyyyy | yyyyyyyyyyyy | xxxx |
-  //        dst            src      dst + count    src + count
-  //
-  // The moved part is divided in the analogous way, but the move/relocate/
-  // assign regions are in the opposite order.
-
   // Non-overlapping case.
   if (src + count <= dst || dst + count <= src) {
     dst.relo(src, count);
@@ -1063,27 +1042,13 @@ BEST_INLINE_ALWAYS constexpr void ptr<T>::relo_overlapping(ptr<T> that,
     }
   }
 
-  // Forward case.
-  if (src < dst && dst < src + count) {
-    size_t overlap0 = src + count - dst;
-    size_t overlap1 = dst - src;
-    // Need to make the copies in backward order to avoid trampling.
-    (dst + overlap1).move(src + overlap1, count - overlap1);
-    (dst + overlap0).relo(src + overlap0, overlap1 - overlap0);
-    dst.relo_assign(src, overlap0);
-    return;
-  }
-
-  // Backward case.
-  if (dst < src && src < dst + count) {
-    size_t overlap0 = dst + count - src;
-    size_t overlap1 = src - dst;
-
-    dst.move(src, overlap0);
-    (dst + overlap0).relo(src + overlap0, overlap1 - overlap0);
-    (dst + overlap1).relo_assign(src + overlap1, count - overlap1);
-
-    return;
+  // Overlapping shift. Relocating one element at a time, starting from the end
+  // that is shifted towards, means that by the time we construct an element,
+  // whatever used to be there has already been relocated away.
+  if (src < dst) {
+    for (size_t i = count; i > 0; --i) { (dst + (i - 1)).relo(src + (i - 1)); }
+  } else {
+    dst.relo(src, count);
   }
 }
 }  // namespace best
-- 
2.43.0


From 9650510e6ddfc41efb019830d3de0cf7ad6e1ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:10 +0000
Subject: [PATCH 016/158] fix: keep the elements when moving an inlined vector
 of non-trivial type

---
 best/container/vec.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/best/container/vec.h b/best/container/vec.h
index be4e4aa..2cdad42 100644
--- a/best/container/vec.h
+++ b/best/container/vec.h
@@ -602,11 +602,13 @@ void vec<T, max_inline, A>::move_construct(vec&& that, bool assign) {
     } else {
       data().relo_assign(that.data(), new_size);
     }
+    set_size(unsafe("the elements were just moved over"), new_size);
   } else {
     destroy();
     auto new_size = that.size();
     reserve(new_size);
     data().relo(that.data(), new_size);
+    set_size(unsafe("the elements were just moved over"), new_size);
   }
 
   if (assign) { alloc_ = std::move(that.alloc_); }
-- 
2.43.0


From 860e2e78692edcf94b126be5c9fa0ee1cf300aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:10 +0000
Subject: [PATCH 017/158] fix: make vec::shrink_to_fit() release the spare
 capacity

---
 best/container/vec.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/best/container/vec.h b/best/container/vec.h
index 2cdad42..7c1fca4 100644
--- a/best/container/vec.h
+++ b/best/container/vec.h
@@ -315,7 +315,11 @@ class vec final {
   /// Resizes the underlying allocation such that `capacity == size`.
   void shrink_to_fit() {
     if (size() == capacity() || !on_heap()) { return; }
-    spill_to_heap(size());
+    if (is_empty()) {
+      destroy();  // Returns this vector to being inlined.
+      return;
+    }
+    spill_to_heap(size(), true);
   }
 
   /// # `vec::truncate()`.
-- 
2.43.0


From 009709e8a2302a1ff3e5b6a27fff3542bd8df29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:10 +0000
Subject: [PATCH 018/158] fix: leave room for the sign bit in sizes of inlined
 vectors

---
 best/container/vec.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/best/container/vec.h b/best/container/vec.h
index 7c1fca4..42bbd59 100644
--- a/best/container/vec.h
+++ b/best/container/vec.h
@@ -478,6 +478,7 @@ class vec final {
     size_t bits = best::bits_for(max_inline);
     // We need to pay one extra bit, which is the sign bit of the MSB of size_,
     // which is used to tell whether or not this is an inlined string or not.
+    if (max_inline > 0) { ++bits; }
     return best::ceildiv(bits, 8).wrap();
   }();
 
-- 
2.43.0


From a7ee03270a6f73c368aef7fbac03f20161f768ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:10 +0000
Subject: [PATCH 019/158] fix: crash when reserving more than a vector can ever
 hold

---
 best/container/vec.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/best/container/vec.h b/best/container/vec.h
index 42bbd59..e9ded7b 100644
--- a/best/container/vec.h
+++ b/best/container/vec.h
@@ -308,7 +308,9 @@ class vec final {
   ///
   /// Ensures that pushing an additional `count` elements would not cause this
   /// vector to resize, by resizing the internal array eagerly.
-  void reserve(size_t count) { resize_uninit(size() + count); }
+  void reserve(size_t count) {
+    resize_uninit((best::overflow(size()) + count).strict());
+  }
 
   /// # `vec::shrink_to_fit()`
   ///
-- 
2.43.0


From 3da29d3ed5c9eaee198a364ce901382479120906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:10 +0000
Subject: [PATCH 020/158] fix: make vectors from moved-from boxes and slice
 them with at()

---
 best/container/vec.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/best/container/vec.h b/best/container/vec.h
index e9ded7b..153a68f 100644
--- a/best/container/vec.h
+++ b/best/container/vec.h
@@ -166,7 +166,11 @@ class vec final {
   /// allocation.
   vec(box<T[], alloc>&& box)
     : alloc_(best::in_place, BEST_MOVE(box.allocator())) {
-    raw_ = BEST_MOVE(box).leak();
+    auto ptr = BEST_MOVE(box).leak();
+    // Moved-from boxes do not hold an allocation.
+    if (ptr.raw() == best::ptr<T[]>::dangling().raw()) { return; }
+
+    raw_ = *ptr;
     store_size(~raw_.size());
   }
 
@@ -274,8 +278,10 @@ class vec final {
   /// out-of-bounds, returns `best::none`.
   best::option<const T&> at(size_t idx) const { return as_span().at(idx); }
   best::option<T&> at(size_t idx) { return as_span().at(idx); }
-  best::option<const T&> at(best::bounds b) const { return as_span().at(b); }
-  best::option<T&> at(best::bounds b) { return as_span().at(b); }
+  best::option<best::span<const T>> at(best::bounds b) const {
+    return as_span().at(b);
+  }
+  best::option<best::span<T>> at(best::bounds b) { return as_span().at(b); }
 
   /// # `vec::citer`, `vec::iter`, `vec::begin()`, `vec::end()`.
   ///
-- 
2.43.0


From 2be65309e0cbab620822ed90cebbd5a1e15b0732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:49 +0000
Subject: [PATCH 021/158] fix: give boxes the assigned value whatever state
 either is in

---
 best/container/box.h | 40 +++++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/best/container/box.h b/best/container/box.h
index 7327f45..7e59b96 100644
--- a/best/container/box.h
+++ b/best/container/box.h
@@ -127,7 +127,10 @@ class BEST_RELOCATABLE box final {
   template <best::ptr_losslessly_converts_to<T> U>
   constexpr box(box<U>&& that)
     : box(unsafe("this is ok, because we only allow lossless conversions"),
-          BEST_MOVE(that.allocator()), BEST_MOVE(that).leak()) {}
+          BEST_MOVE(that.allocator()),
+          that.raw() == best::ptr<U>::dangling().raw()
+            ? best::ptr<T>::dangling()
+            : best::ptr<T>(BEST_MOVE(that).leak())) {}
 
   /// # `box::box(unsafe, ptr)`
   ///
@@ -141,7 +144,7 @@ class BEST_RELOCATABLE box final {
   ///
   /// Boxes automatically destroy their contents.
   constexpr ~box() {
-    if (ptr_.raw() == best::ptr<T>::dangling().raw()) { return; }
+    if (is_moved_from()) { return; }
 
     ptr_.destroy();
     allocator().dealloc(ptr_.raw(), ptr_.layout());
@@ -287,6 +290,10 @@ class BEST_RELOCATABLE box final {
   constexpr bool operator==(niche) const { return ptr_ == nullptr; }
 
  private:
+  constexpr bool is_moved_from() const {
+    return ptr_.raw() == best::ptr<T>::dangling().raw();
+  }
+
   best::ptr<T> ptr_;
   [[no_unique_address]] best::object<alloc> alloc_;
 };
@@ -313,7 +320,8 @@ constexpr box<T, A>::box(const box& that) requires requires(ptr p) {
   requires best::copyable<alloc>;
   p.copy(p);
 }
-  : alloc_(best::in_place, that.allocator()) {
+  : ptr_(best::ptr<T>::dangling()), alloc_(best::in_place, that.allocator()) {
+  if (that.is_moved_from()) { return; }
   ptr_ = {
     allocator().alloc(that.as_ptr().layout()).cast(best::types<pointee>),
     that.as_ptr().meta(),
@@ -325,13 +333,20 @@ template <typename T, typename A>
 constexpr box<T, A>& box<T, A>::operator=(const box& that)
   requires requires(ptr p) { p.copy_assign(p); }
 {
-  if (layout() != that.layout()) {
-    this->~box();
-    return *new (this) box(that);
-  } else {
-    as_ptr().copy_assign(that.as_ptr());
-    return *this;
+  if (best::equal(this, &that)) { return *this; }
+
+  // Only assign through the pointer if both boxes hold the same dynamic type.
+  if constexpr (requires { meta() == that.meta(); }) {
+    if (!is_moved_from() && !that.is_moved_from() && meta() == that.meta()) {
+      as_ptr().copy_assign(that.as_ptr());
+      return *this;
+    }
   }
+
+  // Our current value might (indirectly) own `that`, so it has to go last.
+  box copy(that);
+  this->~box();
+  return *new (this) box(BEST_MOVE(copy));
 }
 template <typename T, typename A>
 constexpr box<T, A>::box(box&& that) requires best::moveable<alloc>
@@ -343,15 +358,18 @@ constexpr box<T, A>& box<T, A>::operator=(box&& that)
   requires best::moveable<alloc>
 {
   if (best::equal(this, &that)) { return *this; }
+
+  // Our current value might (indirectly) own `that`, so it has to go last.
+  box moved(BEST_MOVE(that));
   this->~box();
-  return *new (this) box(BEST_MOVE(that));
+  return *new (this) box(BEST_MOVE(moved));
 }
 
 template <typename T, typename A>
 constexpr best::option<box<T, A>> box<T, A>::try_copy() const
   requires best::copyable<A>
 {
-  if (!as_ptr().can_copy()) { return best::none; }
+  if (is_moved_from() || !as_ptr().can_copy()) { return best::none; }
 
   best::ptr<T> copy{
     allocator().alloc(as_ptr().layout()).cast(best::types<pointee>),
-- 
2.43.0


From b98954b2c9ca04e7b63faf0f003294996bac2c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:25 +0000
Subject: [PATCH 022/158] fix: represent an empty option of an option apart
 from an empty one inside

---
 best/container/option.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/best/container/option.h b/best/container/option.h
index b0306b1..0018c56 100644
--- a/best/container/option.h
+++ b/best/container/option.h
@@ -163,6 +163,10 @@ class option final {
     return *this;
   }
 
+  // Options have no niche of their own, even if T does: a T's niche is already
+  // how an empty option<T> is represented.
+  explicit option(best::niche) = delete;
+
   /// # `option::option(option)`
   ///
   /// Copy/move are trivial if they are trivial for `T`.
-- 
2.43.0


From 9257bd9f592edb8828a61f91f9be20f5ff554d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:25 +0000
Subject: [PATCH 023/158] fix: keep the value of choices assigned to themselves

---
 best/container/internal/choice.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/best/container/internal/choice.h b/best/container/internal/choice.h
index 50b350d..e49b2cd 100644
--- a/best/container/internal/choice.h
+++ b/best/container/internal/choice.h
@@ -182,6 +182,8 @@ class impl : public storage<Ts...> {
   = default;
   constexpr impl& operator=(const impl& that) requires (!info.trivial_copy())
   {
+    // emplace() may need to destroy the current value first.
+    if (this == &that) { return *this; }
     that.index_match(
       [&](auto tag, auto&... value) { emplace<tag.value>(value...); });
     return *this;
@@ -200,6 +202,7 @@ class impl : public storage<Ts...> {
   = default;
   constexpr impl& operator=(impl&& that) requires (!info.trivial_move())
   {
+    if (this == &that) { return *this; }
     that.index_match([&](auto tag, auto&... value) {
       emplace<tag.value>(BEST_MOVE(value)...);
     });
-- 
2.43.0


From 4f34c4890b1df0dd54302f2bef43ac25ba54ffe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:55 +0000
Subject: [PATCH 024/158] fix: return the object from rvalue choice::object()

---
 best/container/choice.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/best/container/choice.h b/best/container/choice.h
index e095b1d..d8ec7ef 100644
--- a/best/container/choice.h
+++ b/best/container/choice.h
@@ -477,14 +477,19 @@ constexpr best::option<
   const best::object<typename choice<A...>::template type<n>>&&>
 choice<A...>::object(best::index_t<n> i) const&& {
   if (which() != n) { return {}; }
-  return BEST_MOVE(impl().object(unsafe{"checked which() before this"}, i));
+  return best::option<const best::object<type<n>>&&>(
+    best::bind,
+    static_cast<const best::object<type<n>>&&>(
+      impl().object(unsafe{"checked which() before this"}, i)));
 }
 template <typename... A>
 template <size_t n>
 constexpr best::option<best::object<typename choice<A...>::template type<n>>&&>
 choice<A...>::object(best::index_t<n> i) && {
   if (which() != n) { return {}; }
-  BEST_MOVE(impl().object(unsafe{"checked which() before this"}, i));
+  return best::option<best::object<type<n>>&&>(
+    best::bind, static_cast<best::object<type<n>>&&>(impl().object(
+                  unsafe{"checked which() before this"}, i)));
 }
 
 template <typename... A>
-- 
2.43.0


From 19a47cfef5f85738f630e36cefc022efb1182523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:55 +0000
Subject: [PATCH 025/158] fix: make choice::as_ptr() usable on const choices

---
 best/container/internal/choice.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/container/internal/choice.h b/best/container/internal/choice.h
index e49b2cd..fc42fdc 100644
--- a/best/container/internal/choice.h
+++ b/best/container/internal/choice.h
@@ -242,7 +242,7 @@ class impl : public storage<Ts...> {
     return *get(u, i);
   }
   template <size_t n>
-  BEST_INLINE_SYNTHETIC constexpr best::as_raw_ptr<type<n>> ptr(
+  BEST_INLINE_SYNTHETIC constexpr best::as_raw_ptr<const type<n>> ptr(
     unsafe u, best::index_t<n> i = {}) const {
     return get(u, i).operator->();
   }
-- 
2.43.0


From ceb76b774df3852435c607c6090263872ee94863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:55 +0000
Subject: [PATCH 026/158] fix: pass rvalues on from index_match() and permute()
 of rvalue choices

---
 best/container/choice.h          | 2 +-
 best/container/internal/choice.h | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/best/container/choice.h b/best/container/choice.h
index d8ec7ef..0fe6867 100644
--- a/best/container/choice.h
+++ b/best/container/choice.h
@@ -305,7 +305,7 @@ class choice final {
 #undef BEST_CHOICE_CLANG_FORMAT_HACK_
     requires (inverse.has_value())
   {
-    return index_match([&](auto tag, auto&&... value) {
+    return BEST_MOVE(*this).index_match([&](auto tag, auto&&... value) {
       return best::choice<type<p>...>(best::index<(*inverse)[tag.value]>,
                                       BEST_FWD(value)...);
     });
diff --git a/best/container/internal/choice.h b/best/container/internal/choice.h
index fc42fdc..c5a27f1 100644
--- a/best/container/internal/choice.h
+++ b/best/container/internal/choice.h
@@ -292,11 +292,13 @@ class impl : public storage<Ts...> {
   template <typename F>
   BEST_INLINE_SYNTHETIC constexpr decltype(auto) index_match(
     F&& callback) const&& {
-    return jump_table(make_index_match_arm(*this, BEST_FWD(callback)));
+    return jump_table(
+      make_index_match_arm(BEST_MOVE(*this), BEST_FWD(callback)));
   }
   template <typename F>
   BEST_INLINE_SYNTHETIC constexpr decltype(auto) index_match(F&& callback) && {
-    return jump_table(make_index_match_arm(*this, BEST_FWD(callback)));
+    return jump_table(
+      make_index_match_arm(BEST_MOVE(*this), BEST_FWD(callback)));
   }
 
  private:
-- 
2.43.0


From dc65a1b1576998383658138202e853cba9f5ce55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:13 +0000
Subject: [PATCH 027/158] fix: leave the value in lvalue options when making
 results with ok_or() and err_or()

---
 best/container/option.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/best/container/option.h b/best/container/option.h
index 0018c56..d26b4ab 100644
--- a/best/container/option.h
+++ b/best/container/option.h
@@ -566,12 +566,12 @@ class option final {
     if (has_value()) return make_ok(); return best::err(BEST_FWD(arg));
   }
   template <int&... deduction_barrier>
-  constexpr auto ok_or(auto&& arg) const&& -> best::result<T, best::as_auto<decltype(arg)>>
+  constexpr auto ok_or(auto&& arg) & -> best::result<T, best::as_auto<decltype(arg)>>
   requires best::constructible<T, ref> && (!best::callable<decltype(arg), void()>) {
     if (has_value()) return make_ok(); return best::err(BEST_FWD(arg));
   }
   template <int&... deduction_barrier>
-  constexpr auto ok_or(auto&& arg) & -> best::result<T, best::as_auto<decltype(arg)>>
+  constexpr auto ok_or(auto&& arg) const&& -> best::result<T, best::as_auto<decltype(arg)>>
   requires best::constructible<T, crref> && (!best::callable<decltype(arg), void()>) {
     if (has_value()) return BEST_MOVE(*this).make_ok(); return best::err(BEST_FWD(arg));
   }
@@ -585,12 +585,12 @@ class option final {
   requires best::constructible<T, cref> {
     if (has_value()) return make_ok(); return best::err(best::call(BEST_FWD(arg)));
   }
-  constexpr auto ok_or(best::callable<void()> auto&& arg) const&&
+  constexpr auto ok_or(best::callable<void()> auto&& arg) &
   -> best::result<T, decltype(best::call(BEST_FWD(arg)))>
   requires best::constructible<T, ref> {
     if (has_value()) return make_ok(); return best::err(best::call(BEST_FWD(arg)));
   }
-  constexpr auto ok_or(best::callable<void()> auto&& arg) &
+  constexpr auto ok_or(best::callable<void()> auto&& arg) const&&
   -> best::result<T, decltype(best::call(BEST_FWD(arg)))>
   requires best::constructible<T, crref> {
     if (has_value()) return BEST_MOVE(*this).make_ok(); return best::err(best::call(BEST_FWD(arg)));
@@ -628,13 +628,13 @@ class option final {
     if (has_value()) return make_err(); return best::ok(BEST_FWD(arg));
   }
   template <int&... deduction_barrier>
-  constexpr auto err_or(auto&& arg) const&&
+  constexpr auto err_or(auto&& arg) &
   -> best::result<best::as_auto<decltype(arg)>, T>
   requires best::constructible<T, ref> && (!best::callable<decltype(arg), void()>) {
     if (has_value()) return make_err(); return best::ok(BEST_FWD(arg));
   }
   template <int&... deduction_barrier>
-  constexpr auto err_or(auto&& arg) &
+  constexpr auto err_or(auto&& arg) const&&
   -> best::result<best::as_auto<decltype(arg)>, T>
   requires best::constructible<T, crref> && (!best::callable<decltype(arg), void()>) {
     if (has_value()) return BEST_MOVE(*this).make_err(); return best::ok(BEST_FWD(arg));
@@ -650,12 +650,12 @@ class option final {
   requires best::constructible<T, cref> {
     if (has_value()) return make_err(); return best::ok(best::call(BEST_FWD(arg)));
   }
-  constexpr auto err_or(best::callable<void()> auto&& arg) const&&
+  constexpr auto err_or(best::callable<void()> auto&& arg) &
   -> best::result<decltype(best::call(BEST_FWD(arg))), T>
   requires best::constructible<T, ref> {
     if (has_value()) return make_err(); return best::ok(best::call(BEST_FWD(arg)));
   }
-  constexpr auto err_or(best::callable<void()> auto&& arg) &
+  constexpr auto err_or(best::callable<void()> auto&& arg) const&&
   -> best::result<decltype(best::call(BEST_FWD(arg))), T>
   requires best::constructible<T, crref> {
     if (has_value()) return BEST_MOVE(*this).make_err(); return best::ok(best::call(BEST_FWD(arg)));
-- 
2.43.0


From 4c43c3a3e296f74565e1ae5f281e8ce646d5a5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:05 +0000
Subject: [PATCH 028/158] fix: look up the fields of the row in row::selectable

---
 best/container/row.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/container/row.h b/best/container/row.h
index f823852..65ca404 100644
--- a/best/container/row.h
+++ b/best/container/row.h
@@ -158,7 +158,7 @@ class row final
   /// such that `U::BestRowKey` is `T`.
   template <typename T>
   static constexpr bool selectable =
-    row_internal::lookup<T>.template count<T>() > 0;
+    row_internal::lookup<T, Elems...>[0] > 0;
 
  private:
   using impl = row_internal::impl<decltype(indices), Elems...>;
-- 
2.43.0


From 9f04d661593ba7319abd467257eaf4e5e10434da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:59 +0000
Subject: [PATCH 029/158] fix: scatter into the types that row::scatter() was
 given

---
 best/container/row.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/best/container/row.h b/best/container/row.h
index 65ca404..524d53d 100644
--- a/best/container/row.h
+++ b/best/container/row.h
@@ -1345,7 +1345,7 @@ BEST_ROW_MUST_USE(scatter)
 constexpr auto row<A...>::scatter(best::tlist<Ts...> those_types,
                                   best::is_row auto&& those,
                                   best::vlist<n...>) const& {
-  return row_internal::scatter<n...>(*this, those.types, BEST_FWD(those));
+  return row_internal::scatter<n...>(*this, those_types, BEST_FWD(those));
 }
 
 template <typename... A>
@@ -1354,7 +1354,7 @@ BEST_ROW_MUST_USE(scatter)
 constexpr auto row<A...>::scatter(best::tlist<Ts...> those_types,
                                   best::is_row auto&& those,
                                   best::vlist<n...>) & {
-  return row_internal::scatter<n...>(*this, those.types, BEST_FWD(those));
+  return row_internal::scatter<n...>(*this, those_types, BEST_FWD(those));
 }
 
 template <typename... A>
@@ -1363,7 +1363,7 @@ BEST_ROW_MUST_USE(scatter)
 constexpr auto row<A...>::scatter(best::tlist<Ts...> those_types,
                                   best::is_row auto&& those,
                                   best::vlist<n...>) const&& {
-  return row_internal::scatter<n...>(BEST_MOVE(*this), those.types,
+  return row_internal::scatter<n...>(BEST_MOVE(*this), those_types,
                                      BEST_FWD(those));
 }
 
@@ -1373,7 +1373,7 @@ BEST_ROW_MUST_USE(scatter)
 constexpr auto row<A...>::scatter(best::tlist<Ts...> those_types,
                                   best::is_row auto&& those,
                                   best::vlist<n...>) && {
-  return row_internal::scatter<n...>(BEST_MOVE(*this), those.types,
+  return row_internal::scatter<n...>(BEST_MOVE(*this), those_types,
                                      BEST_FWD(those));
 }
 
-- 
2.43.0


From 8e0f28abc44bd4ab5925284a0fef5a9de71bf453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:03 +0000
Subject: [PATCH 030/158] fix: report truncated input when decoding UTF-8 and
 UTF-16

---
 best/text/internal/utf.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/best/text/internal/utf.h b/best/text/internal/utf.h
index 1501dc2..8aa9ddc 100644
--- a/best/text/internal/utf.h
+++ b/best/text/internal/utf.h
@@ -85,7 +85,9 @@ constexpr int32_t decode8_size(best::span<const char> input) {
   if (input.is_empty()) { return OutOfBounds; }
   uint32_t ones = best::leading_ones(uint8_t(*input.data()));
   if (ones == 1 || ones > 4) { return Invalid; }
-  return ones + (ones == 0);
+  size_t bytes = ones + (ones == 0);
+  if (input.size() < bytes) { return OutOfBounds; }
+  return bytes;
 }
 
 // This function is unfortunately a build-time hot-spot, so we can't use
@@ -157,10 +159,10 @@ constexpr bool is_low_surrogate(char16_t code) {
   return (code & 0xfc00) == Low;
 }
 
-constexpr size_t decode16_size(best::span<const char16_t> input) {
+constexpr int32_t decode16_size(best::span<const char16_t> input) {
   if (input.is_empty()) { return OutOfBounds; }
   auto value = input.data().raw()[0];
-  if (is_high_surrogate(value)) { return 2; }
+  if (is_high_surrogate(value)) { return input.size() < 2 ? OutOfBounds : 2; }
   if (is_low_surrogate(value)) { return Invalid; }
   return 1;
 }
-- 
2.43.0


From d5ad8c641606c0126196ee4d57df415f2b2e0210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:42 +0000
Subject: [PATCH 031/158] fix: reject stray continuations and oversized
 encodings when validating UTF-8

---
 best/text/internal/utf.h | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/best/text/internal/utf.h b/best/text/internal/utf.h
index 8aa9ddc..a4de260 100644
--- a/best/text/internal/utf.h
+++ b/best/text/internal/utf.h
@@ -39,6 +39,18 @@ namespace best::utf_internal {
 inline constexpr int32_t OutOfBounds = ~int32_t(encoding_error::OutOfBounds);
 inline constexpr int32_t Invalid = ~int32_t(encoding_error::Invalid);
 
+constexpr int32_t encode8_size(uint32_t rune) {
+  if (rune < 0x80) {
+    return 1;
+  } else if (rune < 0x800) {
+    return 2;
+  } else if (rune < 0x10000) {
+    return 3;
+  } else {
+    return 4;
+  }
+}
+
 constexpr bool validate_utf8_fast(const char* data, size_t len) {
   // This function is hit whenever we create a `best::str` from a literal, so
   // we need to avoid optional/span here.
@@ -50,9 +62,10 @@ constexpr bool validate_utf8_fast(const char* data, size_t len) {
     }
 
     size_t bytes = best::leading_ones(uint8_t(value));
+    size_t size = bytes;
     value &= 0x7f >> bytes;
 
-    if (bytes > 4 || (end - data) < bytes - 1) { return false; }
+    if (bytes == 1 || bytes > 4 || (end - data) < bytes - 1) { return false; }
     while (--bytes > 0) {
       char c = data[0];
       ++data;
@@ -62,6 +75,9 @@ constexpr bool validate_utf8_fast(const char* data, size_t len) {
       value |= c & 0b00'111111;
     }
 
+    // Reject oversized encodings.
+    if (encode8_size(value) != size) { return false; }
+
     if (value >= 0x11'0000 || (value >= 0xd800 && value <= 0xdfff)) {
       return false;
     }
@@ -69,18 +85,6 @@ constexpr bool validate_utf8_fast(const char* data, size_t len) {
   return true;
 }
 
-constexpr int32_t encode8_size(uint32_t rune) {
-  if (rune < 0x80) {
-    return 1;
-  } else if (rune < 0x800) {
-    return 2;
-  } else if (rune < 0x10000) {
-    return 3;
-  } else {
-    return 4;
-  }
-}
-
 constexpr int32_t decode8_size(best::span<const char> input) {
   if (input.is_empty()) { return OutOfBounds; }
   uint32_t ones = best::leading_ones(uint8_t(*input.data()));
-- 
2.43.0


From e89d73bd53939a09072d9cad5527fa3d83a4eae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:12 +0000
Subject: [PATCH 032/158] fix: reject runes of the wrong length when decoding
 UTF-8 backwards

---
 best/text/internal/utf.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/best/text/internal/utf.h b/best/text/internal/utf.h
index a4de260..d6e2cee 100644
--- a/best/text/internal/utf.h
+++ b/best/text/internal/utf.h
@@ -126,9 +126,11 @@ constexpr int32_t undecode8(best::span<const char>* input) {
     if (best::leading_ones(byte) != 1) { break; }
   }
   if (len == 5) { return Invalid; }
-  *input = {input->data(), input->size() - len};
-
-  return decode8(input->data().offset(input->size()).raw(), len);
+  size_t rest = input->size() - len;
+  auto last = input->data().offset(rest);
+  if (decode8_size({last, len}) != len) { return Invalid; }
+  *input = {input->data(), rest};
+  return decode8(last.raw(), len);
 }
 
 // This function expects the caller to pre-compute encode8_size.
-- 
2.43.0


From 46689808d1ec85fc5364fe2f988f374563627e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:21 +0000
Subject: [PATCH 033/158] fix: decode Latin1 characters above U+007F

---
 best/text/ascii.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/best/text/ascii.h b/best/text/ascii.h
index 0309343..4c5f994 100644
--- a/best/text/ascii.h
+++ b/best/text/ascii.h
@@ -110,7 +110,8 @@ struct latin1 final {
     auto next = input->take_first(1).ok_or(encoding_error::OutOfBounds);
     BEST_GUARD(next);
 
-    return rune::from_int((*next.ok())[0]).ok_or(encoding_error::Invalid);
+    return rune::from_int(best::to_unsigned((*next.ok())[0]))
+      .ok_or(encoding_error::Invalid);
   }
 
   static constexpr best::result<rune, encoding_error> undecode(
@@ -118,7 +119,8 @@ struct latin1 final {
     auto next = input->take_last(1).ok_or(encoding_error::OutOfBounds);
     BEST_GUARD(next);
 
-    return rune::from_int((*next.ok())[0]).ok_or(encoding_error::Invalid);
+    return rune::from_int(best::to_unsigned((*next.ok())[0]))
+      .ok_or(encoding_error::Invalid);
   }
 
   constexpr bool operator==(const latin1&) const = default;
-- 
2.43.0


From 8b863be9915cb71fd1e608163c69d555dc938c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:17 +0000
Subject: [PATCH 034/158] fix: reject surrogates in encodings that do not allow
 them

---
 best/text/utf16.h | 2 ++
 best/text/utf32.h | 1 +
 best/text/utf8.h  | 9 ++++++++-
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/best/text/utf16.h b/best/text/utf16.h
index b0ebd93..ad5aa34 100644
--- a/best/text/utf16.h
+++ b/best/text/utf16.h
@@ -55,6 +55,8 @@ struct utf16 final {
 
   static constexpr best::result<void, encoding_error> encode(
     best::span<char16_t>* output, rune rune) {
+    if (rune.is_unpaired_surrogate()) { return encoding_error::Invalid; }
+
     auto size =
       best::utf_internal::encode16(output->data().raw(), output->size(), rune);
     if (size < 0) { return encoding_error(~size); }
diff --git a/best/text/utf32.h b/best/text/utf32.h
index 19079d7..ebe0f56 100644
--- a/best/text/utf32.h
+++ b/best/text/utf32.h
@@ -58,6 +58,7 @@ struct utf32 final {
   template <int = 0>
   static constexpr best::result<void, encoding_error> encode(
     best::span<char32_t>* output, rune rune) {
+    if (rune.is_unpaired_surrogate()) { return encoding_error::Invalid; }
     auto next = output->take_first(1).ok_or(encoding_error::OutOfBounds);
     BEST_GUARD(next);
 
diff --git a/best/text/utf8.h b/best/text/utf8.h
index 53ba36c..a2a7698 100644
--- a/best/text/utf8.h
+++ b/best/text/utf8.h
@@ -58,6 +58,8 @@ struct utf8 final {
 
   static constexpr best::result<void, encoding_error> encode(
     best::span<char>* output, rune rune) {
+    if (rune.is_unpaired_surrogate()) { return encoding_error::Invalid; }
+
     size_t bytes = best::utf_internal::encode8_size(rune);
     if (output->size() < bytes) { return encoding_error::OutOfBounds; }
     best::utf_internal::encode8(output->data().raw(), rune, bytes);
@@ -115,7 +117,12 @@ struct wtf8 final {
 
   static constexpr best::result<void, encoding_error> encode(
     best::span<char>* output, rune rune) {
-    return utf8::encode(output, rune);
+    size_t bytes = best::utf_internal::encode8_size(rune);
+    if (output->size() < bytes) { return encoding_error::OutOfBounds; }
+    best::utf_internal::encode8(output->data().raw(), rune, bytes);
+
+    *output = (*output)[{.start = bytes}];
+    return best::ok();
   }
 
   static constexpr best::result<rune, encoding_error> decode(
-- 
2.43.0


From 0d4b1e90b9df083b0286148039842575527da4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:10 +0000
Subject: [PATCH 035/158] fix: escape control characters with their hexadecimal
 code

---
 best/text/rune.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/text/rune.h b/best/text/rune.h
index 2c2760d..118df4a 100644
--- a/best/text/rune.h
+++ b/best/text/rune.h
@@ -456,7 +456,7 @@ void BestFmt(auto& fmt, const decltype(rune().escaped())& esc) {
   }
 
   if (esc._private.is_ascii_control()) {  // TODO: unicode is_control
-    fmt.format("\\x{:02}", esc._private.to_int());
+    fmt.format("\\x{:02x}", esc._private.to_int());
   } else if (esc._private == 0x200d) {
     // Handle the ZWJ explicitly for now, since it appears in some of our tests.
     fmt.write("\\u200D");
-- 
2.43.0


From 396105867f9925f2d695e8cdaf45f6222a6fb032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:13 +0000
Subject: [PATCH 036/158] fix: split strings right after a partial match, and
 at their last rune

---
 best/text/str.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/best/text/str.h b/best/text/str.h
index e14f346..303fd6a 100644
--- a/best/text/str.h
+++ b/best/text/str.h
@@ -1108,7 +1108,7 @@ constexpr std::array<size_t, 2> splits(best::pretext<N> haystack,
   while (!runes->rest().is_empty()) {
     // We need to know what index we were at before we find `first` in
     // runes, since that's the end of the prefix half.
-    size_t before = 0;
+    size_t before = haystack.size() - runes->rest().size();
     bool found = false;
     while (auto next = runes.next()) {
       if (!next->ok()) { return {-1, -1}; }
@@ -1150,8 +1150,8 @@ constexpr std::array<size_t, 2> rsplits(best::pretext<N> haystack,
 
   while (!runes->rest().is_empty()) {
     // We need to know what index we were at before we find `first` in
-    // runes, since that's the end of the prefix half.
-    size_t before = 0;
+    // runes, since that's the start of the suffix half.
+    size_t before = runes->rest().size();
     bool found = false;
     while (auto next = runes.next_back()) {
       if (!next->ok()) { return {-1, -1}; }
@@ -1209,7 +1209,7 @@ constexpr std::array<size_t, 2> splits(best::pretext<E> haystack,
 template <typename E>
 constexpr std::array<size_t, 2> rsplits(
   best::pretext<E> haystack, best::callable<bool(rune)> auto&& pred) {
-  size_t before = 0;
+  size_t before = haystack.size();
   auto runes = haystack.try_runes();
   while (auto next = runes.next_back()) {
     if (!*next) { break; }
-- 
2.43.0


From 1aeef89bef0126cbe3ada268daf9ba8cfe14ed9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:49 +0000
Subject: [PATCH 037/158] fix: search for runes that the encoding cannot
 represent

---
 best/text/str.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/best/text/str.h b/best/text/str.h
index 303fd6a..9f0ed7c 100644
--- a/best/text/str.h
+++ b/best/text/str.h
@@ -1178,6 +1178,7 @@ constexpr std::array<size_t, 2> splits(best::pretext<E> haystack,
                                        best::rune needle) {
   code<E> buf[E::About.max_codes_per_rune];
   auto encoded = needle.encode(buf, haystack.enc());
+  if (!encoded) { return {-1, -1}; }
   return str_internal::splits(haystack,
                               best::pretext<E>(*encoded.ok(), haystack.enc()));
 }
@@ -1187,6 +1188,7 @@ constexpr std::array<size_t, 2> rsplits(best::pretext<E> haystack,
                                         best::rune needle) {
   code<E> buf[E::About.max_codes_per_rune];
   auto encoded = needle.encode(buf, haystack.enc());
+  if (!encoded) { return {-1, -1}; }
   return str_internal::rsplits(haystack,
                                best::pretext<E>(*encoded.ok(), haystack.enc()));
 }
-- 
2.43.0


From 43ab540420d7d652ebe5a8a56687231340c18939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:28 +0000
Subject: [PATCH 038/158] fix: compare code units only for strings of the same
 encoding

---
 best/text/str.h | 46 ++++++++++++++++++++++++++--------------------
 1 file changed, 26 insertions(+), 20 deletions(-)

diff --git a/best/text/str.h b/best/text/str.h
index 9f0ed7c..8e7b4dc 100644
--- a/best/text/str.h
+++ b/best/text/str.h
@@ -1094,11 +1094,12 @@ constexpr std::array<size_t, 2> splits(best::pretext<N> haystack,
 
   if constexpr (best::bytes_internal::byte_comparable<code<H>> &&
                 haystack.About.is_self_syncing &&
-                best::same_encoding_code<decltype(haystack),
-                                         decltype(needle)>()) {
-    auto found = haystack.as_codes().find(needle.as_codes());
-    if (!found) { return {-1, -1}; }
-    return {{*found, *found + needle.size()}};
+                best::same<N, H>) {
+    if (best::same_encoding(haystack, needle)) {
+      auto found = haystack.as_codes().find(needle.as_codes());
+      if (!found) { return {-1, -1}; }
+      return {{*found, *found + needle.size()}};
+    }
   }
 
   auto runes = haystack.try_runes();
@@ -1137,11 +1138,12 @@ constexpr std::array<size_t, 2> rsplits(best::pretext<N> haystack,
 
   if constexpr (best::bytes_internal::byte_comparable<code<H>> &&
                 haystack.About.is_self_syncing &&
-                best::same_encoding_code<decltype(haystack),
-                                         decltype(needle)>()) {
-    auto found = haystack.as_codes().rfind(needle.as_codes());
-    if (!found) { return {-1, -1}; }
-    return {{*found, *found + needle.size()}};
+                best::same<N, H>) {
+    if (best::same_encoding(haystack, needle)) {
+      auto found = haystack.as_codes().rfind(needle.as_codes());
+      if (!found) { return {-1, -1}; }
+      return {{*found, *found + needle.size()}};
+    }
   }
 
   auto runes = haystack.try_runes();
@@ -1556,11 +1558,13 @@ template <typename E>
 constexpr best::option<pretext<E>> pretext<E>::strip_prefix(
   const best::is_string auto& s) const {
   if constexpr (best::is_pretext<best::as_auto<decltype(s)>>) {
-    if constexpr (best::same_encoding_code<pretext, decltype(s)>() &&
+    if constexpr (best::same<pretext, best::as_auto<decltype(s)>> &&
                   About.is_self_syncing) {
-      auto rest = span_.strip_prefix(s.as_codes());
-      BEST_GUARD(rest);
-      return pretext{*rest, enc()};
+      if (best::same_encoding(*this, s)) {
+        auto rest = span_.strip_prefix(s.as_codes());
+        BEST_GUARD(rest);
+        return pretext{*rest, enc()};
+      }
     }
 
     auto haystack = try_runes();
@@ -1581,11 +1585,13 @@ constexpr best::option<pretext<E>> pretext<E>::strip_suffix(
   const best::is_string auto& s) const requires (About.is_self_syncing)
 {
   if constexpr (best::is_pretext<best::as_auto<decltype(s)>>) {
-    if constexpr (best::same_encoding_code<pretext, decltype(s)>() /*&&
+    if constexpr (best::same<pretext, best::as_auto<decltype(s)>> /*&&
                   About.is_self_syncing*/) {
-      auto rest = span_.strip_suffix(s.as_codes());
-      BEST_GUARD(rest);
-      return pretext{*rest, enc()};
+      if (best::same_encoding(*this, s)) {
+        auto rest = span_.strip_suffix(s.as_codes());
+        BEST_GUARD(rest);
+        return pretext{*rest, enc()};
+      }
     }
 
     auto haystack = try_runes();
@@ -1770,8 +1776,8 @@ constexpr best::ord pretext<E>::operator<=>(
   if constexpr (best::is_pretext<best::as_auto<decltype(str)>>) {
     if constexpr (best::bytes_internal::byte_comparable<code> &&
                   About.is_self_syncing &&
-                  best::same_encoding_code<pretext, decltype(str)>()) {
-      return span_ <=> str.as_codes();
+                  best::same<pretext, best::as_auto<decltype(str)>>) {
+      if (best::same_encoding(*this, str)) { return span_ <=> str.as_codes(); }
     }
 
     auto lhs = runes();
-- 
2.43.0


From 928cc047a81d9a44affc336bc8b6bc3c0e684c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:04 +0000
Subject: [PATCH 039/158] fix: make text::consume_suffix() return

---
 best/text/str.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/best/text/str.h b/best/text/str.h
index 8e7b4dc..01e115a 100644
--- a/best/text/str.h
+++ b/best/text/str.h
@@ -360,21 +360,21 @@ class text final {
   }
   constexpr bool consume_suffix(rune r) requires (About.is_self_syncing)
   {
-    auto prefix = consume_suffix(r);
+    auto prefix = strip_suffix(r);
     if (prefix) { *this = *prefix; }
     return prefix.has_value();
   }
   constexpr bool consume_suffix(const best::is_string auto& s)
     requires (About.is_self_syncing)
   {
-    auto prefix = consume_suffix(s);
+    auto prefix = strip_suffix(s);
     if (prefix) { *this = *prefix; }
     return prefix.has_value();
   }
   constexpr bool consume_suffix(best::callable<bool(rune)> auto&& p)
     requires (About.is_self_syncing)
   {
-    auto prefix = consume_suffix(BEST_FWD(p));
+    auto prefix = strip_suffix(BEST_FWD(p));
     if (prefix) { *this = *prefix; }
     return prefix.has_value();
   }
-- 
2.43.0


From 8e3f552a86689c0e9f0037ddce9e0c9bbfb37a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:44 +0000
Subject: [PATCH 040/158] fix: make text::from_partial() usable

---
 best/text/str.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/best/text/str.h b/best/text/str.h
index 01e115a..540af6a 100644
--- a/best/text/str.h
+++ b/best/text/str.h
@@ -1234,10 +1234,10 @@ constexpr best::option<text<E>> text<E>::from(pretext data) {
 template <typename E>
 constexpr best::row<text<E>, pretext<E>> text<E>::from_partial(pretext data) {
   size_t split_at = 0;
-  auto runes = data.runes();
-  for (auto r : runes) {
-    if (r->err()) { break; }
-    split_at = data.size() - runes->rest();
+  auto runes = data.try_runes();
+  while (auto next = runes.next()) {
+    if (next->err()) { break; }
+    split_at = data.size() - runes->rest().size();
   }
 
   unsafe u("the loop above did an implicit bounds check for us");
-- 
2.43.0


From ec4a9ba62b2a88059c26611dc3cf8aac19c0c79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:22 +0000
Subject: [PATCH 041/158] fix: make text::rune_indices() usable

---
 best/text/str.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/text/str.h b/best/text/str.h
index 540af6a..5fd03c3 100644
--- a/best/text/str.h
+++ b/best/text/str.h
@@ -917,7 +917,7 @@ class text<E>::rune_index_iter_impl final {
   using BestIterArrow = void;
 
  private:
-  friend pretext;
+  friend text;
   friend best::iter<rune_index_iter_impl>;
   friend best::iter<rune_index_iter_impl&>;
 
-- 
2.43.0


From 030f3db92c3d44e57b3655c196119daf3443b26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:03 +0000
Subject: [PATCH 042/158] fix: order longer strings after a rune they start
 with

---
 best/text/str.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/text/str.h b/best/text/str.h
index 5fd03c3..8aa354e 100644
--- a/best/text/str.h
+++ b/best/text/str.h
@@ -1767,7 +1767,7 @@ constexpr best::ord pretext<E>::operator<=>(rune r) const {
   auto iter = runes();
   if (auto result = *iter.next() <=> r; result != 0) { return result; }
 
-  return 0 <=> iter->rest().size();
+  return iter->rest().size() <=> 0;
 }
 
 template <typename E>
-- 
2.43.0


From 9f9930253d023d90c7e989b97ed268c2bc5729f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:44 +0000
Subject: [PATCH 043/158] fix: order UTF-16 strings by rune

---
 best/text/str.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/text/str.h b/best/text/str.h
index 8aa354e..6367a39 100644
--- a/best/text/str.h
+++ b/best/text/str.h
@@ -1775,7 +1775,7 @@ constexpr best::ord pretext<E>::operator<=>(
   const best::is_string auto& str) const {
   if constexpr (best::is_pretext<best::as_auto<decltype(str)>>) {
     if constexpr (best::bytes_internal::byte_comparable<code> &&
-                  About.is_self_syncing &&
+                  About.is_lexicographic &&
                   best::same<pretext, best::as_auto<decltype(str)>>) {
       if (best::same_encoding(*this, str)) { return span_ <=> str.as_codes(); }
     }
-- 
2.43.0


From 01c66e8ad02e7ace4074510c76d4e660eb26f8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:21 +0000
Subject: [PATCH 044/158] fix: keep the predicates of split iterators alive

---
 best/text/str.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/best/text/str.h b/best/text/str.h
index 6367a39..beb0da4 100644
--- a/best/text/str.h
+++ b/best/text/str.h
@@ -1403,7 +1403,7 @@ constexpr auto text<E>::split(const best::is_string auto& needle) const {
 }
 template <typename E>
 constexpr auto text<E>::split(best::callable<bool(rune)> auto&& pred) const {
-  return text_.split(BEST_MOVE(pred)).map([](auto pre) {
+  return text_.split(BEST_FWD(pred)).map([](auto pre) {
     return text{unsafe("valid because text_ was already valid"), pre};
   });
 }
@@ -1746,8 +1746,8 @@ constexpr auto pretext<E>::split(const best::is_string auto& needle) const {
 }
 template <typename E>
 constexpr auto pretext<E>::split(best::callable<bool(rune)> auto&& pred) const {
-  return split_iter<decltype(pred)>(
-    split_impl<decltype(pred)>(BEST_FWD(pred), *this));
+  using P = best::as_auto<decltype(pred)>;
+  return split_iter<P>(split_impl<P>(BEST_FWD(pred), *this));
 }
 
 template <typename E>
-- 
2.43.0


From c08c40ab092e6bce8798a2b22dcaa87080a284e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:58 +0000
Subject: [PATCH 045/158] fix: use the string's encoding when iterating
 backwards

---
 best/text/str.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/best/text/str.h b/best/text/str.h
index beb0da4..cfdc6ae 100644
--- a/best/text/str.h
+++ b/best/text/str.h
@@ -1424,10 +1424,10 @@ constexpr best::option<best::rune> text<E>::rune_iter_impl::next_back()
 {
   if (text_.is_empty()) { return best::none; }
   auto span = text_.as_codes();
-  rune next = rune::undecode(&span, encoding{})
+  rune next = rune::undecode(&span, text_.enc())
                 .ok()
                 .value(unsafe("text_ is well-encoded"));
-  text_ = text(unsafe("text_ is well-encoded"), {span});
+  text_ = text(unsafe("text_ is well-encoded"), {span, text_.enc()});
   return option(next);
 }
 template <typename E>
@@ -1497,7 +1497,7 @@ pretext<E>::rune_try_iter_impl::next_back() requires (About.is_self_syncing)
 {
   if (text_.is_empty()) { return best::none; }
 
-  auto next = rune::undecode(&text_.span_, encoding{});
+  auto next = rune::undecode(&text_.span_, text_.enc());
   if (!next) {
     // If we encountered an error, we can skip over a single code only if this
     // is a self-syncing encoding; otherwise we need to stop here.
-- 
2.43.0


From a76f1700c16fdaac6f2b3b961b70d18a4242eac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:39 +0000
Subject: [PATCH 046/158] fix: compare the runes of strings whose encodings
 differ in value

---
 best/text/str.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/best/text/str.h b/best/text/str.h
index cfdc6ae..d072994 100644
--- a/best/text/str.h
+++ b/best/text/str.h
@@ -473,7 +473,9 @@ class text final {
   constexpr bool operator==(const best::is_string auto& s) const {
     return text_ == s;
   }
-  constexpr bool operator==(const text&) const = default;
+  constexpr bool operator==(const text& that) const {
+    return text_ == that.text_;
+  }
   constexpr bool operator==(best::span<const code> span) const {
     return text_ == span;
   }
@@ -844,7 +846,10 @@ class pretext final {
   /// with runes, too.
   constexpr bool operator==(rune) const;
   constexpr bool operator==(const best::is_string auto&) const;
-  constexpr bool operator==(const pretext&) const = default;
+  constexpr bool operator==(const pretext& that) const {
+    if (enc_ == that.enc_) { return span_ == that.span_; }
+    return strip_prefix(that).has_value(&pretext::is_empty);
+  }
   constexpr bool operator==(best::span<const code> span) const {
     return span_ == span;
   }
-- 
2.43.0


From 7c8f64075d34a351c0f89e8b0fb120d88e4dcd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:55 +0000
Subject: [PATCH 047/158] fix: textbuf::allocator() calls vec::allocator()

---
 best/text/strbuf.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/best/text/strbuf.h b/best/text/strbuf.h
index 0b47589..5cca639 100644
--- a/best/text/strbuf.h
+++ b/best/text/strbuf.h
@@ -215,8 +215,8 @@ class textbuf final {
   /// # `textbuf::allocator()`
   ///
   /// Returns a reference to his vector's allocator.
-  best::as_ref<const alloc> allocator() const { return buf_.alloc(); }
-  best::as_ref<alloc> allocator() { return buf_.alloc(); }
+  best::as_ref<const alloc> allocator() const { return buf_.allocator(); }
+  best::as_ref<alloc> allocator() { return buf_.allocator(); }
 
   /// # `textbuf::enc()`
   ///
-- 
2.43.0


From 9a2a9477e7dcad36082f0fe130289e15e15f8c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:07 +0000
Subject: [PATCH 048/158] fix: textbuf::from(alloc, text) uses the given
 allocator

---
 best/text/strbuf.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/text/strbuf.h b/best/text/strbuf.h
index 5cca639..44b0b61 100644
--- a/best/text/strbuf.h
+++ b/best/text/strbuf.h
@@ -361,7 +361,7 @@ best::option<textbuf<E, A>> textbuf<E, A>::from(alloc alloc, pretext t) {
   auto validated = text::from(t);
   BEST_GUARD(validated);
 
-  return textbuf(best::unsafe("just did validation above"), *validated);
+  return textbuf(std::move(alloc), *validated);
 }
 
 template <typename E, allocator A>
-- 
2.43.0


From 5e8b68f595d9bc3877c1b6bf200b3d9ad1b7370a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:41 +0000
Subject: [PATCH 049/158] fix: formatting the minimum of a signed integer type

---
 best/text/internal/format_impls.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/best/text/internal/format_impls.h b/best/text/internal/format_impls.h
index 2caee1f..00ea28f 100644
--- a/best/text/internal/format_impls.h
+++ b/best/text/internal/format_impls.h
@@ -142,18 +142,19 @@ void BestFmt(auto& fmt, best::is_int auto value) {
   }
 
   bool negative = value < 0;
-  if (negative) { value = -value; }
+  auto magnitude = best::to_unsigned(value);
+  if (negative) { magnitude = 0 - magnitude; }
 
   // Construct the actual digits.
   char buf[128];
   size_t count = 0;
   do {
-    rune r = *rune::from_digit(value % base, base);
+    rune r = *rune::from_digit(magnitude % base, base);
     if (uppercase) { r = r.to_ascii_upper(); }
 
     buf[128 - count++ - 1] = r;
-    value /= base;
-  } while (value != 0);
+    magnitude /= base;
+  } while (magnitude != 0);
 
   best::str digits(unsafe("all characters are ascii"),
                    best::span(buf + 128 - count, count));
-- 
2.43.0


From 4c3e615a16922434c32bca04b2bf2293605e3dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:15 +0000
Subject: [PATCH 050/158] fix: a precision of zero prints no characters

---
 best/text/internal/format_impls.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/best/text/internal/format_impls.h b/best/text/internal/format_impls.h
index 00ea28f..eff1b4b 100644
--- a/best/text/internal/format_impls.h
+++ b/best/text/internal/format_impls.h
@@ -217,10 +217,7 @@ void BestFmt(auto& fmt, const best::is_string auto& s) {
     if (auto prec = spec.prec) {
       size_t max = *prec;
       auto runes = str.runes();
-      for (auto r : runes) {
-        (void)r;
-        if (--max == 0) { break; }
-      }
+      for (; max > 0 && runes.next(); --max) {}
       str = str[{.end = str.size() - runes->rest().size()}];
     }
 
-- 
2.43.0


From 5cb10a2dd391d60c978f086d7af64db681b06a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:09 +0000
Subject: [PATCH 051/158] fix: bool and character types accept non-debug specs
 and honor the width

---
 best/text/internal/format_impls.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/best/text/internal/format_impls.h b/best/text/internal/format_impls.h
index eff1b4b..8bf4ffa 100644
--- a/best/text/internal/format_impls.h
+++ b/best/text/internal/format_impls.h
@@ -32,17 +32,19 @@
 
 namespace best {
 void BestFmt(auto& fmt, bool value) {
-  value ? fmt.write("true") : fmt.write("false");
+  best::format_spec spec = fmt.current_spec();
+  spec.debug = spec.pass_through = false;
+  spec.prec = best::none;
+  spec.method = best::none;
+  fmt.format(spec, value ? best::str("true") : best::str("false"));
 }
-template <typename T>
-constexpr void BestFmtQuery(auto& query, bool* range) {
+constexpr void BestFmtQuery(auto& query, bool*) {
   query.requires_debug = false;
   query.supports_width = true;
 }
 
 void BestFmt(auto& fmt, char8_t value) { fmt.format(*rune::from_int(value)); }
-template <typename T>
-constexpr void BestFmtQuery(auto& query, char8_t* range) {
+constexpr void BestFmtQuery(auto& query, char8_t*) {
   query.requires_debug = false;
   query.supports_width = true;
 }
@@ -50,8 +52,7 @@ constexpr void BestFmtQuery(auto& query, char8_t* range) {
 void BestFmt(auto& fmt, char16_t value) {
   fmt.format(*rune::from_int_allow_surrogates(value));
 }
-template <typename T>
-constexpr void BestFmtQuery(auto& query, char16_t* range) {
+constexpr void BestFmtQuery(auto& query, char16_t*) {
   query.requires_debug = false;
   query.supports_width = true;
 }
@@ -65,8 +66,7 @@ void BestFmt(auto& fmt, char32_t value) {
     fmt.format("<U+{:X}>", unsigned(value));
   }
 }
-template <typename T>
-constexpr void BestFmtQuery(auto& query, char32_t* range) {
+constexpr void BestFmtQuery(auto& query, char32_t*) {
   query.requires_debug = false;
   query.supports_width = true;
 }
-- 
2.43.0


From e286b32d41b973ea4f3d6ebee6f1ff3b8cf778ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:44 +0000
Subject: [PATCH 052/158] fix: formatting a rune honors the width

---
 best/text/rune.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/best/text/rune.h b/best/text/rune.h
index 118df4a..7375da3 100644
--- a/best/text/rune.h
+++ b/best/text/rune.h
@@ -312,9 +312,13 @@ class rune final {
   }
 
   friend void BestFmt(auto& fmt, rune r) {
-    // TODO: Implement padding.
     if (fmt.current_spec().method != 'q' && !fmt.current_spec().debug) {
+      auto fill = fmt.current_spec().fill;
+      auto [pre, post] =
+        fmt.current_spec().compute_padding(1, fmt.current_spec().Left);
+      for (size_t i = 0; i < pre; ++i) { fmt.write(fill); }
       fmt.write(r);
+      for (size_t i = 0; i < post; ++i) { fmt.write(fill); }
       return;
     }
 
-- 
2.43.0


From ad019dc985dbd1506045a8fc06b16f56854dc71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:13 +0000
Subject: [PATCH 053/158] fix: boxes print their address for {:p}

---
 best/container/box.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/best/container/box.h b/best/container/box.h
index 7e59b96..3d57315 100644
--- a/best/container/box.h
+++ b/best/container/box.h
@@ -249,8 +249,10 @@ class BEST_RELOCATABLE box final {
 
   friend void BestFmt(auto& fmt, const box& box) {
     if constexpr (requires { fmt.format(*box); }) {
-      if (fmt.current_spec().method != 'p') { fmt.format(*box); }
-      return;
+      if (fmt.current_spec().method != 'p') {
+        fmt.format(*box);
+        return;
+      }
     }
     fmt.format(box.as_ptr());
   }
-- 
2.43.0


From ef386a02b27c69c90cda23067e3feb9be6705c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:44 +0000
Subject: [PATCH 054/158] fix: formatter::write indents multi-line text without
 losing or repeating characters

---
 best/text/format.h | 18 +-----------------
 1 file changed, 1 insertion(+), 17 deletions(-)

diff --git a/best/text/format.h b/best/text/format.h
index 155d79f..a631e74 100644
--- a/best/text/format.h
+++ b/best/text/format.h
@@ -432,23 +432,7 @@ void formatter::write(const best::is_string auto& string) {
       return;
     }
 
-    size_t watermark = 0;
-    for (auto [idx, r] : string.rune_indices()) {
-      if (r != '\n') { continue; }
-      if (idx != watermark + 1 && idx > 0) {
-        update_indent();
-        out_->push_lossy(string[{.start = watermark, .end = idx - 1}]);
-      }
-
-      watermark = idx;
-      out_->push_lossy("\n");
-      at_new_line_ = true;
-    }
-
-    if (watermark < string.size()) {
-      update_indent();
-      out_->push_lossy(string[{.start = watermark}]);
-    }
+    for (rune r : string.runes()) { write(r); }
   } else {
     write(best::pretext(string));
   }
-- 
2.43.0


From 92098a1f2f281ff22c3800e39c364ce2389c55b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:49 +0000
Subject: [PATCH 055/158] fix: formatter::block::finish() closes the block once

---
 best/text/format.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/best/text/format.cc b/best/text/format.cc
index 3f8e7ab..ccce376 100644
--- a/best/text/format.cc
+++ b/best/text/format.cc
@@ -71,6 +71,7 @@ void formatter::block::finish() {
   if (uses_indent_ && entries_ > 0) { fmt_->write(",\n"); }
   if (uses_indent_) { --fmt_->indent_; }
   fmt_->write(config_.close);
+  fmt_ = nullptr;
 }
 
 void formatter::block::advise_size(size_t n) {
-- 
2.43.0


From 368f36e9eb3867950008bfcec766a95afa3709b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:23 +0000
Subject: [PATCH 056/158] fix: format templates reject numbers that do not fit
 and unterminated numbers

---
 best/text/internal/format_parser.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/best/text/internal/format_parser.h b/best/text/internal/format_parser.h
index 02ab19b..bad65ff 100644
--- a/best/text/internal/format_parser.h
+++ b/best/text/internal/format_parser.h
@@ -145,19 +145,21 @@ constexpr bool visit_template(const char* data, size_t len, Print print,
       auto count = find(data, len, [](char c) { return c < '0' || c > '9'; });
       // We should find a non-digit rune, because otherwise this is an invalid
       // string.
-      if (count == -1) { -1; }
+      if (count == -1) { return -1; }
 
       uint32_t result = 0;
       for (size_t i = 0; i < count; ++i) {
+        uint32_t digit = data[i] - '0';
+        if (result > (uint32_t(-1) - digit) / 10) { return -1; }
         result *= 10;
-        result += data[i] - '0';
+        result += digit;
       }
       data += count;
       len -= count;
       return result;
     };
 
-    size_t cur_idx;
+    uint32_t cur_idx;
     if (consume_prefix(data, len, ':')) {
       cur_idx = idx++;
     } else {
-- 
2.43.0


From 57b7b3d6128e8a05035337b6598f5010e7c6d3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:54 +0000
Subject: [PATCH 057/158] fix: format specs with ! use their explicit index and
 must be closed

---
 best/text/internal/format_parser.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/best/text/internal/format_parser.h b/best/text/internal/format_parser.h
index bad65ff..e361cae 100644
--- a/best/text/internal/format_parser.h
+++ b/best/text/internal/format_parser.h
@@ -179,8 +179,11 @@ constexpr bool visit_template(const char* data, size_t len, Print print,
     if (consume_prefix(data, len, '!')) {
       args.pass_through = true;
       args.debug = true;
-      if (!best::call(interpolate, idx++, args)) { return false; }
-      continue;
+      if (consume_prefix(data, len, '}')) {
+        if (!best::call(interpolate, cur_idx, args)) { return false; }
+        continue;
+      }
+      if (len == 0) { return false; }
     }
 
     bool have_align = false;
-- 
2.43.0


From df8c9ebf56f81f07dfb5efafe1585b812ab08254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:24 +0000
Subject: [PATCH 058/158] fix: format templates reject one-past-the-end
 arguments and methods of types without any

---
 best/text/internal/format_parser.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/best/text/internal/format_parser.h b/best/text/internal/format_parser.h
index e361cae..90eaadb 100644
--- a/best/text/internal/format_parser.h
+++ b/best/text/internal/format_parser.h
@@ -269,13 +269,13 @@ constexpr bool validate(best::span<const typename spec::query> queries,
   return format_internal::visit_template<spec>(
     templ.data().raw(), templ.size() - 1, nullptr,
     [&](size_t n, const spec& s) {
-      if (n > queries.size()) { return false; }
+      if (n >= queries.size()) { return false; }
       auto& q = queries[n];
 
       if (q.requires_debug && !s.debug) { return false; }
       if (!q.supports_width && s.width > 0) { return false; }
       if (!q.supports_prec && s.prec) { return false; }
-      if (s.method && !q.uses_method(*s.method)) { return false; }
+      if (s.method && (!q.uses_method || !q.uses_method(*s.method))) { return false; }
       return true;
     });
 }
-- 
2.43.0


From 32d74928271c67da9b93bb1c547d9c7fc68260e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:36 +0000
Subject: [PATCH 059/158] fix: negative numerals do not fit in unsigned
 integers

---
 best/math/conv.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/best/math/conv.h b/best/math/conv.h
index 47d472c..26c75ce 100644
--- a/best/math/conv.h
+++ b/best/math/conv.h
@@ -81,8 +81,12 @@ constexpr best::result<Int, best::atoi_error> atoi_with_sign(
     size_t total_codes = best::size(str);
     size_t maximum_codes_without_overflow =
       sizeof(Int) * 2 - best::is_signed<Int>;
-    size_t cannot_overflow =
-      radix <= 16 && total_codes <= maximum_codes_without_overflow;
+    //
+    // Negative unsigned values overflow regardless of their length, unless they
+    // are zero.
+    size_t cannot_overflow = radix <= 16 &&
+                             total_codes <= maximum_codes_without_overflow &&
+                             !(is_negative && best::is_unsigned<Int>);
 
 #define BEST_ATOI_LOOP_(result_, op_)                             \
   do {                                                            \
-- 
2.43.0


From e69906c12c98889df7265f7072e5bef252ec283b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:50 +0000
Subject: [PATCH 060/158] fix: atoi_with_sign() applies the given sign to all
 string types

---
 best/math/conv.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/math/conv.h b/best/math/conv.h
index 26c75ce..7762e63 100644
--- a/best/math/conv.h
+++ b/best/math/conv.h
@@ -126,7 +126,7 @@ constexpr best::result<Int, best::atoi_error> atoi_with_sign(
 
 #undef BEST_ATOI_LOOP_
   } else {
-    return best::atoi<Int>(best::pretext(str), radix);
+    return best::atoi_with_sign<Int>(best::pretext(str), is_negative, radix);
   }
 }
 
-- 
2.43.0


From 35f847d44c079f1eb3e22a30650fdfe7c31f035a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:04 +0000
Subject: [PATCH 061/158] fix: flag conversions of overflow<> that do not fit

---
 best/math/overflow.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/best/math/overflow.h b/best/math/overflow.h
index d7633ac..b58cd6d 100644
--- a/best/math/overflow.h
+++ b/best/math/overflow.h
@@ -186,9 +186,7 @@ struct overflow {
   template <typename J>
   constexpr overflow(overflow<J> that)
     : value(that.value),
-      overflowed(that.overflowed ||
-                 best::int_cmp(best::min_of<Int>, that.value) < 0 ||
-                 best::int_cmp(best::max_of<Int>, that.value) > 0) {}
+      overflowed(that.overflowed || !best::int_fits<Int>(that.value)) {}
 
   /// # `overflow::wrap()`
   ///
-- 
2.43.0


From ac238b001587dc06adc6bbe80486bbf23939613f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:36 +0000
Subject: [PATCH 062/158] fix: make overflow<> usable with integers smaller
 than int

---
 best/math/overflow.h | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/best/math/overflow.h b/best/math/overflow.h
index b58cd6d..44f2aa0 100644
--- a/best/math/overflow.h
+++ b/best/math/overflow.h
@@ -60,8 +60,8 @@ BEST_INLINE_ALWAYS constexpr best::div_t<common_int<A, B>> div(
     return {{min_of<C>, true}, {min_of<C>, true}};
   }
 
-  return {{ca / cb, a.overflowed || b.overflowed},
-          {ca % cb, a.overflowed || b.overflowed}};
+  return {{C(ca / cb), a.overflowed || b.overflowed},
+          {C(ca % cb), a.overflowed || b.overflowed}};
 }
 template <best::is_int A, best::is_int B>
 BEST_INLINE_ALWAYS constexpr best::div_t<common_int<A, B>> div(
@@ -229,10 +229,10 @@ struct overflow {
   BEST_INLINE_ALWAYS constexpr friend overflow operator-(overflow a) {
     if (best::is_signed<Int>) {
       return a.value == min_of<Int> ? overflow{a.value, true}
-                                    : overflow{-a.value, a.overflowed};
+                                    : overflow{Int(-a.value), a.overflowed};
     }
 
-    return {-a.value, a.overflowed || a.value != 0};
+    return {Int(-a.value), a.overflowed || a.value != 0};
   }
   template <best::is_int J>
   BEST_INLINE_ALWAYS constexpr friend overflow<common_int<Int, J>> operator-(
@@ -268,7 +268,7 @@ struct overflow {
   }
 
   BEST_INLINE_ALWAYS constexpr friend overflow operator~(overflow a) {
-    return {~a.value, a.overflowed};
+    return {Int(~a.value), a.overflowed};
   }
 
   template <best::is_int J>
@@ -277,7 +277,7 @@ struct overflow {
     using C = common_int<Int, J>;
     C ca = a.value, cb = b.value;
 
-    return {ca & cb, a.overflowed || b.overflowed};
+    return {C(ca & cb), a.overflowed || b.overflowed};
   }
   template <best::is_int J>
   BEST_INLINE_ALWAYS constexpr friend overflow<common_int<Int, J>> operator|(
@@ -285,7 +285,7 @@ struct overflow {
     using C = common_int<Int, J>;
     C ca = a.value, cb = b.value;
 
-    return {ca | cb, a.overflowed || b.overflowed};
+    return {C(ca | cb), a.overflowed || b.overflowed};
   }
   template <best::is_int J>
   BEST_INLINE_ALWAYS constexpr friend overflow<common_int<Int, J>> operator^(
@@ -293,20 +293,22 @@ struct overflow {
     using C = common_int<Int, J>;
     C ca = a.value, cb = b.value;
 
-    return {ca ^ cb, a.overflowed || b.overflowed};
+    return {C(ca ^ cb), a.overflowed || b.overflowed};
   }
 
   template <best::is_int J>
   BEST_INLINE_ALWAYS constexpr friend overflow<Int> operator<<(overflow a,
                                                                overflow<J> b) {
     auto shamt = b.value & (bits_of<Int> - 1);
-    return {a.value << shamt, a.overflowed || b.overflowed || b.value != shamt};
+    return {Int(a.value << shamt),
+            a.overflowed || b.overflowed || b.value != shamt};
   }
   template <best::is_int J>
   BEST_INLINE_ALWAYS constexpr friend overflow<Int> operator>>(overflow a,
                                                                overflow<J> b) {
     auto shamt = b.value & (bits_of<Int> - 1);
-    return {a.value >> shamt, a.overflowed || b.overflowed || b.value != shamt};
+    return {Int(a.value >> shamt),
+            a.overflowed || b.overflowed || b.value != shamt};
   }
 
 #define BEST_OF_BOILERPLATE_(op_, opeq_)                                       \
-- 
2.43.0


From 86d56b028bca1e09264b2e80fa09e074ed9e5f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:05 +0000
Subject: [PATCH 063/158] fix: make overflow<> comparable with integers and
 when const

---
 best/math/overflow.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/best/math/overflow.h b/best/math/overflow.h
index 44f2aa0..806fc4d 100644
--- a/best/math/overflow.h
+++ b/best/math/overflow.h
@@ -345,17 +345,17 @@ struct overflow {
 #undef BEST_OF_BOILERPLATE_
 
   template <best::is_int J>
-  BEST_INLINE_ALWAYS constexpr bool operator==(overflow<J> that)
+  BEST_INLINE_ALWAYS constexpr bool operator==(overflow<J> that) const
     requires best::equatable<Int, J>
   {
     return value == that.value && overflowed == that.overflowed;
   }
 
   template <best::is_int J>
-  BEST_INLINE_ALWAYS constexpr bool operator==(J that)
+  BEST_INLINE_ALWAYS constexpr bool operator==(J that) const
     requires best::equatable<Int, J>
   {
-    return value == that.value && !overflowed;
+    return value == that && !overflowed;
   }
 };
 
-- 
2.43.0


From 8c16ed2f5cbcf8e0e0905a5c7b0b55ea1184eade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:33 +0000
Subject: [PATCH 064/158] fix: ceildiv() by -1 does not round

---
 best/math/overflow.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/best/math/overflow.h b/best/math/overflow.h
index 806fc4d..c0dacc1 100644
--- a/best/math/overflow.h
+++ b/best/math/overflow.h
@@ -76,6 +76,11 @@ template <best::is_int A, best::is_int B>
 BEST_INLINE_ALWAYS constexpr overflow<best::common_int<A, B>> ceildiv(
   overflow<A> a, overflow<B> b) {
   auto [q, r] = best::div(a, b);
+
+  // Dividing by -1 never rounds, even when it overflows.
+  using C = best::common_int<A, B>;
+  if (best::is_signed<C> && b.value == -1) { return q; }
+
   if ((r.value > 0 && b.value > 0) || (r.value < 0 && b.value < 0)) {
     return q + 1;
   }
-- 
2.43.0


From 960c3dbbdaf6dc032c1b2da38530ac226fde5810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:01 +0000
Subject: [PATCH 065/158] fix: div() reports the caller's location

---
 best/math/overflow.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/math/overflow.h b/best/math/overflow.h
index c0dacc1..a7a5996 100644
--- a/best/math/overflow.h
+++ b/best/math/overflow.h
@@ -66,7 +66,7 @@ BEST_INLINE_ALWAYS constexpr best::div_t<common_int<A, B>> div(
 template <best::is_int A, best::is_int B>
 BEST_INLINE_ALWAYS constexpr best::div_t<common_int<A, B>> div(
   A a, B b, best::location loc = best::here) {
-  return best::div(overflow(a), overflow(b));
+  return best::div(overflow(a), overflow(b), loc);
 }
 
 /// # `best::ceildiv()`
-- 
2.43.0


From 75596f2ee01f6f52a5f4644d19f14ef9669cd29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:44 +0000
Subject: [PATCH 066/158] fix: count_zeros() of integers smaller than int

---
 best/math/bit.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/math/bit.h b/best/math/bit.h
index 0265da6..34d8bb2 100644
--- a/best/math/bit.h
+++ b/best/math/bit.h
@@ -38,7 +38,7 @@ namespace best {
 ///
 /// Returns the number of zeros in the binary representation of `x`.
 BEST_INLINE_ALWAYS constexpr uint32_t count_zeros(best::is_int auto x) {
-  return std::popcount(~to_unsigned(x));
+  return bits_of<decltype(x)> - std::popcount(to_unsigned(x));
 }
 
 /// # `best::count_ones()`
-- 
2.43.0


From d7342e0ebee02efb319c65993d9c70a097475f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:14 +0000
Subject: [PATCH 067/158] fix: rotate signed integers, and by any amount

---
 best/math/bit.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/best/math/bit.h b/best/math/bit.h
index 34d8bb2..d6865c0 100644
--- a/best/math/bit.h
+++ b/best/math/bit.h
@@ -129,7 +129,7 @@ BEST_INLINE_ALWAYS constexpr Int shift_sign(Int x, uint32_t shamt) {
 /// Rotates `x`'s bits to the left (towards high-order bits) by shamt bits.
 template <best::is_int Int>
 BEST_INLINE_ALWAYS constexpr Int rotate_left(Int x, uint32_t shamt) {
-  return std::rotl(x, shamt);
+  return std::rotl(best::to_unsigned(x), shamt % bits_of<Int>);
 }
 
 /// # `best::rotate_right()`
@@ -137,7 +137,7 @@ BEST_INLINE_ALWAYS constexpr Int rotate_left(Int x, uint32_t shamt) {
 /// Rotates `x`'s bits to the right (towards low-order bits) by shamt bits.
 template <best::is_int Int>
 BEST_INLINE_ALWAYS constexpr Int rotate_right(Int x, uint32_t shamt) {
-  return std::rotr(x, shamt);
+  return std::rotr(best::to_unsigned(x), shamt % bits_of<Int>);
 }
 
 /// # `best::is_pow2()`
-- 
2.43.0


From 5e5147fba148f217602cfff5b3de2bfea0e4264a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:47 +0000
Subject: [PATCH 068/158] fix: next_pow2() family on integers smaller than int

---
 best/math/bit.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/best/math/bit.h b/best/math/bit.h
index d6865c0..0474156 100644
--- a/best/math/bit.h
+++ b/best/math/bit.h
@@ -162,7 +162,7 @@ BEST_INLINE_ALWAYS constexpr Int next_pow2_minus1(Int x) {
 /// Returns the next positive power of two, or zero on overflow.
 template <best::is_unsigned Int>
 BEST_INLINE_ALWAYS constexpr Int wrapping_next_pow2(Int x) {
-  return (best::next_pow2_minus1(x) + best::overflow(1)).wrap();
+  return (best::next_pow2_minus1(x) + best::overflow<Int>(1)).wrap();
 }
 
 /// # `best::checked_next_pow2()`
@@ -170,7 +170,7 @@ BEST_INLINE_ALWAYS constexpr Int wrapping_next_pow2(Int x) {
 /// Returns the next positive power of two; returns `best::none` on overflow.
 template <best::is_unsigned Int>
 BEST_INLINE_ALWAYS constexpr best::option<Int> checked_next_pow2(Int x) {
-  return (best::next_pow2_minus1(x) + best::overflow(1)).checked();
+  return (best::next_pow2_minus1(x) + best::overflow<Int>(1)).checked();
 }
 
 /// # `best::next_pow2()`
@@ -178,7 +178,7 @@ BEST_INLINE_ALWAYS constexpr best::option<Int> checked_next_pow2(Int x) {
 /// Returns the next positive power of two; returns crashes on overflow.
 template <best::is_unsigned Int>
 BEST_INLINE_ALWAYS constexpr Int next_pow2(Int x) {
-  return (best::next_pow2_minus1(x) + best::overflow(1)).strict();
+  return (best::next_pow2_minus1(x) + best::overflow<Int>(1)).strict();
 }
 
 /// # `best::bits_for()`
-- 
2.43.0


From 14ef4673384e9d496c30475397b886c4603af313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:24 +0000
Subject: [PATCH 069/158] fix: shift_sign() of unsigned integers by oversize
 amounts shifts in the sign

---
 best/math/bit.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/math/bit.h b/best/math/bit.h
index 0474156..a00fd77 100644
--- a/best/math/bit.h
+++ b/best/math/bit.h
@@ -119,7 +119,7 @@ BEST_INLINE_ALWAYS constexpr Int shift_right(Int x, uint32_t shamt) {
 template <best::is_int Int>
 BEST_INLINE_ALWAYS constexpr Int shift_sign(Int x, uint32_t shamt) {
   auto mask = bits_of<Int> - 1;
-  if (shamt != (shamt & mask)) { return -(x < 0); }
+  if (shamt != (shamt & mask)) { return -(best::to_signed(x) < 0); }
 
   return best::to_signed(x) >> shamt;
 }
-- 
2.43.0


From 437b578732f9f8e47fd8fb07ef918f5fa1394a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:36 +0000
Subject: [PATCH 070/158] fix: last() of an empty int_range is empty

---
 best/iter/bounds.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/best/iter/bounds.h b/best/iter/bounds.h
index 9318db1..b13c11a 100644
--- a/best/iter/bounds.h
+++ b/best/iter/bounds.h
@@ -264,6 +264,7 @@ struct int_range final {
     }
 
     constexpr best::option<Int> last() && {
+      if (count_ == 0 && !plus_one_) { return {}; }
       return (best::overflow(start_) + count_ + Int(plus_one_) - 1).wrap();
     }
   };
-- 
2.43.0


From 052f69fc896bae6dc67620a9a81bf4df34d116db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:36 +0000
Subject: [PATCH 071/158] fix: count ranges of signed integers and of every
 integer

---
 best/iter/bounds.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/best/iter/bounds.h b/best/iter/bounds.h
index b13c11a..5a94cda 100644
--- a/best/iter/bounds.h
+++ b/best/iter/bounds.h
@@ -255,12 +255,14 @@ struct int_range final {
     constexpr std::array<size_t, 2> size_hint() const {
       // TODO(mcyoung): This will overflow for uint64 ranges, need to return
       // something else.
-      return {count_, count_};
+      size_t size = best::saturating_add(size_t(best::to_unsigned(count_)),
+                                         size_t(plus_one_));
+      return {size, size};
     }
 
     constexpr size_t count() && {
       // We can just wrap here if count_ is larger than best::max_of<size_t>.
-      return size_t(count_) + size_t(plus_one_);
+      return size_t(best::to_unsigned(count_)) + size_t(plus_one_);
     }
 
     constexpr best::option<Int> last() && {
-- 
2.43.0


From f60136cf471317f0ed0d61440acf4287faac70f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:36 +0000
Subject: [PATCH 072/158] fix: int_range::next_back() does not overflow

---
 best/iter/bounds.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/best/iter/bounds.h b/best/iter/bounds.h
index 5a94cda..6c0dbab 100644
--- a/best/iter/bounds.h
+++ b/best/iter/bounds.h
@@ -247,7 +247,8 @@ struct int_range final {
         return {};
       }
 
-      auto ret = start_ + count_ - !plus_one_;
+      auto ret =
+        (best::overflow(start_) + count_ - Int(!plus_one_)).wrap();
       count_ = (best::overflow(count_) - 1).wrap();
       return ret;
     }
-- 
2.43.0


From c8ad5fe08e2aacedc14cb49634451d584b80f864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:36 +0000
Subject: [PATCH 073/158] fix: inspect() yields values, not references to
 destroyed ones

---
 best/iter/iter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/iter/iter.h b/best/iter/iter.h
index d2c8d7b..919b720 100644
--- a/best/iter/iter.h
+++ b/best/iter/iter.h
@@ -389,7 +389,7 @@ template <typename Impl>
 constexpr auto iter<Impl>::inspect(best::callable<void()> auto&& cb) && {
   return best::iter(iter_internal::map{
     std::move(*this),
-    [cb = BEST_FWD(cb)](auto&& value) -> decltype(auto) {
+    [cb = BEST_FWD(cb)](auto&& value) -> item {
       best::call(cb);
       return BEST_FWD(value);
     },
-- 
2.43.0


From df08d96cae3506527b8a4c2465d99a09f0b1d32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:36 +0000
Subject: [PATCH 074/158] fix: inspect() passes on move-only values

---
 best/iter/iter.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/best/iter/iter.h b/best/iter/iter.h
index 919b720..0074eb8 100644
--- a/best/iter/iter.h
+++ b/best/iter/iter.h
@@ -391,7 +391,7 @@ constexpr auto iter<Impl>::inspect(best::callable<void()> auto&& cb) && {
     std::move(*this),
     [cb = BEST_FWD(cb)](auto&& value) -> item {
       best::call(cb);
-      return BEST_FWD(value);
+      return static_cast<item&&>(value);
     },
   });
 }
@@ -400,9 +400,9 @@ template <typename Impl>
 constexpr auto iter<Impl>::inspect(best::callable<void(item&)> auto&& cb) && {
   return best::iter(iter_internal::map{
     std::move(*this),
-    [cb = BEST_FWD(cb)](auto&& value) -> decltype(auto) {
+    [cb = BEST_FWD(cb)](auto&& value) -> item {
       best::call(cb, value);
-      return item(value);
+      return static_cast<item&&>(value);
     },
   });
 }
-- 
2.43.0


From d352b7a59f9a9af6d3f5794d94bcc89e742c346f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:36 +0000
Subject: [PATCH 075/158] fix: take() hints at no more than it yields

---
 best/iter/iter.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/best/iter/iter.h b/best/iter/iter.h
index 0074eb8..23a9b91 100644
--- a/best/iter/iter.h
+++ b/best/iter/iter.h
@@ -449,7 +449,9 @@ class take final {
 
   constexpr best::size_hint size_hint() const {
     auto [min, max] = iter_.size_hint();
-    return {min, count_};
+    if (min > count_) { min = count_; }
+    if (!max || *max > count_) { max = count_; }
+    return {min, max};
   }
 
  private:
-- 
2.43.0


From a178b699dd96df0042442ee53cfcdc7fed62d806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:18 +0000
Subject: [PATCH 076/158] fix: reverse a reversed iterator

---
 best/iter/iter.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/best/iter/iter.h b/best/iter/iter.h
index 23a9b91..d65ef82 100644
--- a/best/iter/iter.h
+++ b/best/iter/iter.h
@@ -498,8 +498,11 @@ class rev_ final {
 template <typename I>
 constexpr auto iter<I>::rev() && requires double_ended
 {
-  BEST_ITER_FWD(rev);
-  return best::iter(best::iter_internal::rev_(std::move(*this)));
+  if constexpr (requires { BEST_MOVE(impl_).rev(); }) {
+    return BEST_MOVE(impl_).rev();
+  } else {
+    return best::iter(best::iter_internal::rev_(std::move(*this)));
+  }
 }
 
 #undef BEST_ITER_FWD
-- 
2.43.0


From 057cc2b8b79de326ed4dde195c2116b542c46dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:40 +0000
Subject: [PATCH 077/158] fix: index the tapped result with the index passed to
 tap[]

---
 best/func/tap.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/best/func/tap.h b/best/func/tap.h
index fd62e71..9408aa4 100644
--- a/best/func/tap.h
+++ b/best/func/tap.h
@@ -175,27 +175,27 @@ constexpr auto tap<Guard, Cb>::operator()(auto&&... args) && {
   });
 }
 template <typename Guard, typename Cb>
-constexpr auto tap<Guard, Cb>::operator[](auto&& arg) const& {
+constexpr auto tap<Guard, Cb>::operator[](auto&& idx) const& {
   return best::tap([&](auto&& arg) -> decltype(auto) {
-    return ((BEST_FWD(arg))->**this)[BEST_FWD(arg)];
+    return ((BEST_FWD(arg))->**this)[BEST_FWD(idx)];
   });
 }
 template <typename Guard, typename Cb>
-constexpr auto tap<Guard, Cb>::operator[](auto&& arg) & {
+constexpr auto tap<Guard, Cb>::operator[](auto&& idx) & {
   return best::tap([&](auto&& arg) -> decltype(auto) {
-    return ((BEST_FWD(arg))->**this)[BEST_FWD(arg)];
+    return ((BEST_FWD(arg))->**this)[BEST_FWD(idx)];
   });
 }
 template <typename Guard, typename Cb>
-constexpr auto tap<Guard, Cb>::operator[](auto&& arg) const&& {
+constexpr auto tap<Guard, Cb>::operator[](auto&& idx) const&& {
   return best::tap([&](auto&& arg) -> decltype(auto) {
-    return ((BEST_FWD(arg))->*BEST_MOVE(*this))[BEST_FWD(arg)];
+    return ((BEST_FWD(arg))->*BEST_MOVE(*this))[BEST_FWD(idx)];
   });
 }
 template <typename Guard, typename Cb>
-constexpr auto tap<Guard, Cb>::operator[](auto&& arg) && {
+constexpr auto tap<Guard, Cb>::operator[](auto&& idx) && {
   return best::tap([&](auto&& arg) -> decltype(auto) {
-    return ((BEST_FWD(arg))->*BEST_MOVE(*this))[BEST_FWD(arg)];
+    return ((BEST_FWD(arg))->*BEST_MOVE(*this))[BEST_FWD(idx)];
   });
 }
 
-- 
2.43.0


From fa899fbd260941ee17863928d3ca231b50421dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:40 +0000
Subject: [PATCH 078/158] fix: return the argument of best::inspect()

---
 best/func/tap.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/best/func/tap.h b/best/func/tap.h
index 9408aa4..38853d6 100644
--- a/best/func/tap.h
+++ b/best/func/tap.h
@@ -201,14 +201,14 @@ constexpr auto tap<Guard, Cb>::operator[](auto&& idx) && {
 
 constexpr auto inspect(auto&& cb) {
   return best::tap([cb = BEST_FWD(cb)](auto&& arg) -> decltype(auto) {
-    (void)best::call(cb, BEST_FWD(arg));
-    BEST_FWD(arg);
+    (void)best::call(cb, arg);
+    return BEST_FWD(arg);
   });
 }
 constexpr auto inspect(best::bind_t, auto&& cb) {
   return best::tap([&](auto&& arg) -> decltype(auto) {
-    (void)best::call(BEST_FWD(cb), BEST_FWD(arg));
-    BEST_FWD(arg);
+    (void)best::call(BEST_FWD(cb), arg);
+    return BEST_FWD(arg);
   });
 }
 }  // namespace best
-- 
2.43.0


From dc3584df35fee4b417978723ae82dcda047113fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:40 +0000
Subject: [PATCH 079/158] fix: allow making pointers to const interfaces

---
 best/func/dyn.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/best/func/dyn.h b/best/func/dyn.h
index 5ea68ac..8b75c37 100644
--- a/best/func/dyn.h
+++ b/best/func/dyn.h
@@ -427,7 +427,8 @@ class dyn<I...>::meta {
   template <typename P>
   constexpr meta(best::tlist<P>, const typename P::metadata&)
     requires (P::is_thin() && (best::implements<typename P::pointee, I> && ...))
-    : vt_(&best::itable<I...>::of(best::types<typename P::pointee>)) {}
+    : vt_(&best::itable<best::un_const<I>...>::of(
+        best::types<typename P::pointee>)) {}
 
   constexpr best::layout layout() const { return vt_->layout(); }
   constexpr auto deref(pointee* ptr) const { return accessor(ptr, vt_); }
@@ -435,7 +436,7 @@ class dyn<I...>::meta {
   template <typename T>
   static constexpr meta meta_for(T&&) requires (best::implements<T, I> && ...)
   {
-    return &best::itable<I...>::of(best::types<T>);
+    return &best::itable<best::un_const<I>...>::of(best::types<T>);
   }
   template <typename T>
   static constexpr void construct(pointee* dst, bool assign, T&& arg) {
@@ -447,10 +448,12 @@ class dyn<I...>::meta {
 
   constexpr void copy(pointee* dst, pointee* src, bool assign) const {
     if (assign) { destroy(dst); }
-    vt_->copy(dst, src);
+    vt_->copy(const_cast<void*>(dst), const_cast<void*>(src));
   }
 
-  constexpr void destroy(pointee* ptr) const { vt_->destroy(ptr); }
+  constexpr void destroy(pointee* ptr) const {
+    vt_->destroy(const_cast<void*>(ptr));
+  }
 
  private:
   metadata vt_ = nullptr;
-- 
2.43.0


From f2940d75034dc1458716d3e0cddbfc0e1ce37bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:40 +0000
Subject: [PATCH 080/158] fix: allow making a fnref from a const callable

---
 best/func/internal/fnref.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/func/internal/fnref.h b/best/func/internal/fnref.h
index 22f5a56..f18ce73 100644
--- a/best/func/internal/fnref.h
+++ b/best/func/internal/fnref.h
@@ -93,7 +93,7 @@ class impl {
   constexpr impl(const auto& fn)
     requires best::callable<decltype(fn), R(Args...)> &&
                (!no_captures<decltype(fn)>)
-    : ptr_(best::addr(fn)),
+    : ptr_(const_cast<ptr>(static_cast<const void*>(best::addr(fn)))),
       fnptr_{.bound = [](decltype(fn)& f, Args... args) -> R {
         if constexpr (best::is_void<R>) {
           best::call(f, BEST_FWD(args)...);
-- 
2.43.0


From 03c2c33b5c44585f44c545d427a868f39a2fa88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:40 +0000
Subject: [PATCH 081/158] fix: do not run a defer again from inside of its
 callback

---
 best/func/defer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/func/defer.h b/best/func/defer.h
index 5c87e3b..e8164c2 100644
--- a/best/func/defer.h
+++ b/best/func/defer.h
@@ -64,8 +64,8 @@ class [[nodiscard(
   /// Forcibly runs the defer. Further calls to run() will have no effect.
   constexpr void run() {
     if (!cancelled_) {
-      best::call(cb_);
       cancel();
+      best::call(cb_);
     }
   }
 
-- 
2.43.0


From 325ae718917006fa846a91867c9c77673edc6227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:40 +0000
Subject: [PATCH 082/158] fix: destroy the overwritten value in
 try_copy_assign() as its own type

---
 best/memory/ptr.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/best/memory/ptr.h b/best/memory/ptr.h
index ea9485a..5323d9f 100644
--- a/best/memory/ptr.h
+++ b/best/memory/ptr.h
@@ -650,7 +650,14 @@ class ptr final {
   BEST_INLINE_ALWAYS constexpr ptr
   try_copy_assign(ptr from) const {
     if (!from.can_copy()) { return nullptr; }
-    from.meta_().copy(raw(), from.raw(), true);
+    if constexpr (is_sized()) {
+      from.meta_().copy(raw(), from.raw(), true);
+    } else if (raw() != from.raw()) {
+      // The two pointees need not be of the same type, so the old value must be
+      // destroyed according to our own metadata.
+      meta_().destroy(raw());
+      from.meta_().copy(raw(), from.raw(), false);
+    }
     return ptr{raw(), from.meta()};
   }
 
-- 
2.43.0


From 6a1317659da431a42e9153254b7c1060910d3eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:06 +0000
Subject: [PATCH 083/158] fix: pass arguments as declared when checking
 callability

---
 best/func/internal/call.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/best/func/internal/call.h b/best/func/internal/call.h
index b9ba755..c8ad2d0 100644
--- a/best/func/internal/call.h
+++ b/best/func/internal/call.h
@@ -112,7 +112,7 @@ constexpr bool can_call(tag<R(Args...), TParams...>)
 {
   return best::is_void<R> ||
          best::convertible<R, decltype(call_internal::call<TParams...>(
-                                best::lie<F>, best::lie<Args>...))>;
+                                best::lie<F>, static_cast<Args&&>(best::lie<Args>)...))>;
 }
 
 template <typename F, typename... TParams, typename R, typename... Args>
@@ -123,12 +123,13 @@ constexpr bool can_call(tag<R(Args...) const, TParams...>)
 {
   return best::is_void<R> ||
          best::convertible<R, decltype(call_internal::call<TParams...>(
-                                best::lie<const F>, best::lie<Args>...))>;
+                                best::lie<const F>, static_cast<Args&&>(best::lie<Args>)...))>;
 }
 
 template <typename F, typename... Args>
 auto call_result(tag<Args...>)
-  -> decltype(call_internal::call(best::lie<F>, best::lie<Args>...));
+  -> decltype(call_internal::call(best::lie<F>,
+                                 static_cast<Args&&>(best::lie<Args>)...));
 template <typename F, best::is_void V>
 auto call_result(tag<V>) -> decltype(call_internal::call(best::lie<F>));
 }  // namespace best::call_internal
-- 
2.43.0


From ba147b360e4d05cb29953f338aa8b1b896daef5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:06 +0000
Subject: [PATCH 084/158] fix: keep the declared result type of type-erased
 closures

---
 best/func/internal/dyn.h   | 2 +-
 best/func/internal/fnref.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/best/func/internal/dyn.h b/best/func/internal/dyn.h
index 1875ee0..aba234c 100644
--- a/best/func/internal/dyn.h
+++ b/best/func/internal/dyn.h
@@ -90,7 +90,7 @@ class binder_impl {
   constexpr binder_impl(std::nullptr_t){};
 
   constexpr binder_impl(no_captures auto closure)
-    : fnptr_(+[](ptr self, Args... args) {
+    : fnptr_(+[](ptr self, Args... args) -> R {
         decltype(closure) closure;
         return closure(ptr_cast{.ptr = self}, BEST_FWD(args)...);
       }) {}
diff --git a/best/func/internal/fnref.h b/best/func/internal/fnref.h
index f18ce73..511647c 100644
--- a/best/func/internal/fnref.h
+++ b/best/func/internal/fnref.h
@@ -65,7 +65,7 @@ class impl {
     constexpr bound(std::nullptr_t){};
 
     constexpr bound(no_captures auto closure)
-      : pc_(+[](ptr thiz, Args... args) {
+      : pc_(+[](ptr thiz, Args... args) -> R {
           decltype(closure) closure;
           return closure(ptr_cast{.ptr = thiz}, BEST_FWD(args)...);
         }) {}
-- 
2.43.0


From 41933172cfeb15be333876ea03c2a9ce270adf1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:36 +0000
Subject: [PATCH 085/158] fix: allow default implementations of const interface
 functions

---
 best/func/internal/dyn.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/best/func/internal/dyn.h b/best/func/internal/dyn.h
index aba234c..f453a15 100644
--- a/best/func/internal/dyn.h
+++ b/best/func/internal/dyn.h
@@ -194,7 +194,8 @@ class binder_impl {
                 args_)) -> decltype(auto)                                  \
       {                                                                    \
         BEST_IFACE_CONST_(__VA_ARGS__) BEST_This_ BEST_dyn_(               \
-          ::best::addr(BEST_this_),                                        \
+          const_cast<void*>(                                               \
+            static_cast<const void*>(::best::addr(BEST_this_))),           \
           ::best::itable<BEST_This_>::of(::best::types<BEST_T_>).operator->()); \
         return BEST_dyn_.name_(                                            \
           BEST_IFACE_ARGS_(::best::defaulted{}, args_)                     \
-- 
2.43.0


From 4c37b833b8e515d17e7535aa89e2266ee1845741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:36 +0000
Subject: [PATCH 086/158] fix: allow default implementations in a best::dyn of
 many interfaces

---
 best/func/dyn.h          | 7 +++++++
 best/func/internal/dyn.h | 8 +++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/best/func/dyn.h b/best/func/dyn.h
index 8b75c37..8f9f3c4 100644
--- a/best/func/dyn.h
+++ b/best/func/dyn.h
@@ -407,6 +407,13 @@ constexpr const itable<I...>& itable<I...>::of(best::tlist<T>)
   return best::dyn_internal::impl<best::un_ref<T>, best::as_auto<I>...>;
 }
 
+namespace dyn_internal {
+template <typename I, typename T>
+const typename I::BestVtable* vtable_of() {
+  return best::itable<I>::of(best::types<T>).operator->();
+}
+}  // namespace dyn_internal
+
 template <best::interface... I>
 class dyn<I...>::meta {
  public:
diff --git a/best/func/internal/dyn.h b/best/func/internal/dyn.h
index f453a15..f92dca2 100644
--- a/best/func/internal/dyn.h
+++ b/best/func/internal/dyn.h
@@ -42,6 +42,12 @@ struct access {
   }
 };
 
+// Looks up the vtable of `T` for `I`. This must not be instantiated while
+// computing that very vtable, so it must neither be constexpr nor have a deduced
+// return type.
+template <typename I, typename T>
+const typename I::BestVtable* vtable_of();
+
 template <typename I, typename T>
 constexpr auto apply_vtable_defaults(auto vt) {
   if constexpr (requires {
@@ -196,7 +202,7 @@ class binder_impl {
         BEST_IFACE_CONST_(__VA_ARGS__) BEST_This_ BEST_dyn_(               \
           const_cast<void*>(                                               \
             static_cast<const void*>(::best::addr(BEST_this_))),           \
-          ::best::itable<BEST_This_>::of(::best::types<BEST_T_>).operator->()); \
+          ::best::dyn_internal::vtable_of<BEST_This_, BEST_T_>());         \
         return BEST_dyn_.name_(                                            \
           BEST_IFACE_ARGS_(::best::defaulted{}, args_)                     \
         );                                                                 \
-- 
2.43.0


From 65f52f66198c70931534bb04da03cd4791ae90d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:39 +0000
Subject: [PATCH 087/158] fix: do not refer to temporary function pointers from
 a fnref

---
 best/func/internal/fnref.h | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/best/func/internal/fnref.h b/best/func/internal/fnref.h
index 511647c..df0254d 100644
--- a/best/func/internal/fnref.h
+++ b/best/func/internal/fnref.h
@@ -38,6 +38,14 @@ concept no_captures = requires(F f) {
   { +f } -> best::is_func_ptr;
 };
 
+// Whether `F` is a function (pointer) or a capture-less closure that can be
+// called through a function pointer of type `Fnptr`. Such callables need not
+// outlive the fnref.
+template <typename F, typename Fnptr>
+concept converts_to_fnptr = best::convertible<Fnptr, F> && requires(F f) {
+  { +f } -> best::is_func_ptr;
+};
+
 template <typename P>
 struct ptr_cast {
   template <typename T>
@@ -92,7 +100,7 @@ class impl {
 
   constexpr impl(const auto& fn)
     requires best::callable<decltype(fn), R(Args...)> &&
-               (!no_captures<decltype(fn)>)
+               (!converts_to_fnptr<decltype(fn), free>)
     : ptr_(const_cast<ptr>(static_cast<const void*>(best::addr(fn)))),
       fnptr_{.bound = [](decltype(fn)& f, Args... args) -> R {
         if constexpr (best::is_void<R>) {
@@ -103,7 +111,8 @@ class impl {
       }} {}
 
   constexpr impl(best::callable<R(Args...)> auto&& fn)
-    requires (!best::is_const_func<Func>) && (!no_captures<decltype(fn)>)
+    requires (!best::is_const_func<Func>) &&
+             (!converts_to_fnptr<decltype(fn), free>)
     : ptr_(best::addr(fn)),
       fnptr_{.bound = [](decltype(fn)& f, Args... args) -> R {
         if constexpr (best::is_void<R>) {
@@ -114,8 +123,8 @@ class impl {
       }} {}
 
   constexpr impl(best::callable<R(Args...)> auto&& fn)
-    requires no_captures<decltype(fn)>
-    : impl(+fn) {}
+    requires converts_to_fnptr<decltype(fn), free>
+    : impl(static_cast<free>(fn)) {}
 
   constexpr R operator()(Args... args) const requires best::is_const_func<Func>
   {
-- 
2.43.0


From a6c58da2e13b28ec2042061057d0adb0d24934f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:46 +0000
Subject: [PATCH 088/158] fix: only parse arguments that start with a dash as
 flags

---
 best/cli/parser.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/best/cli/parser.cc b/best/cli/parser.cc
index 257eb2a..2cad3cf 100644
--- a/best/cli/parser.cc
+++ b/best/cli/parser.cc
@@ -383,8 +383,9 @@ best::result<void, cli::error> cli::parse(
   while (auto next = iter.next()) {
     ctx.cur = ctx.sub;
     if (!done_with_flags) {
-      bool is_flag = next->starts_with("-");
-      bool is_letter = !next->starts_with("--");
+      // A lone dash is, conventionally, a positional.
+      bool is_flag = next->starts_with("-") && next != "-";
+      bool is_letter = is_flag && !next->starts_with("--");
 
       if (next == "--") {
         done_with_flags = true;
@@ -501,8 +502,6 @@ best::result<void, cli::error> cli::parse(
           BEST_GUARD(f.parse(ctx, ""));
           flag = runes->rest();
         }
-
-        if (flag.is_empty()) { goto again; }
       }
 
       ctx.token = *next;
-- 
2.43.0


From 4eca89ca045bf92c9cd390e95dc97ba2be64f663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:46 +0000
Subject: [PATCH 089/158] fix: look up nested flag groups in the group that
 contains them

---
 best/cli/parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/cli/parser.cc b/best/cli/parser.cc
index 2cad3cf..e547c2f 100644
--- a/best/cli/parser.cc
+++ b/best/cli/parser.cc
@@ -439,7 +439,7 @@ best::result<void, cli::error> cli::parse(
         }
 
         // And nest.
-        ctx.cur = ctx.sub->impl_->groups[idx].child;
+        ctx.cur = ctx.cur->impl_->groups[idx].child;
         return best::ok();
       };
 
-- 
2.43.0


From bb27a308775fd16ab8db71ac5f7a2d51b61be792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:46 +0000
Subject: [PATCH 090/158] fix: show the help of the requested nested flag group

---
 best/cli/parser.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/best/cli/parser.cc b/best/cli/parser.cc
index e547c2f..55aa9a1 100644
--- a/best/cli/parser.cc
+++ b/best/cli/parser.cc
@@ -271,8 +271,10 @@ void cli::init() {
 
         if (entry.magic == entry.Ordinary) {
           entry.idx += entry.is_group ? group_offset : flag_offset;
-        } else {
+        } else if (entry.idx == -1) {
           entry.idx = idx;
+        } else {
+          entry.idx += group_offset;
         }
 
         entry.is_letter |= is_letter;
-- 
2.43.0


From 6660745addb66680499e5ca5046840d7f9c36bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:46 +0000
Subject: [PATCH 091/158] fix: parse the positionals of a subcommand from the
 first one

---
 best/cli/parser.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/best/cli/parser.cc b/best/cli/parser.cc
index 55aa9a1..81c9ae4 100644
--- a/best/cli/parser.cc
+++ b/best/cli/parser.cc
@@ -567,6 +567,7 @@ best::result<void, cli::error> cli::parse(
     // Look for a relevant subcommand.
     if (auto e = ctx.cur->impl_->find_sub(*next)) {
       ctx.sub = ctx.cur->impl_->subs[e->idx].child;
+      ctx.next_positional = 0;
       goto again;
     }
 
-- 
2.43.0


From 8dc5a0f72c4bff76c8618314ec1b11d2772e4408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:46 +0000
Subject: [PATCH 092/158] fix: report missing required flags of subcommands

---
 best/cli/parser.cc | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/best/cli/parser.cc b/best/cli/parser.cc
index 81c9ae4..f1277f8 100644
--- a/best/cli/parser.cc
+++ b/best/cli/parser.cc
@@ -381,6 +381,9 @@ best::result<void, cli::error> cli::parse(
   // us to generate errors for e.g. flag duplication or missing flags.
   std::unordered_set<const flag*> seen;
 
+  // All of the (sub)commands whose flags we have parsed.
+  best::vec<const cli*> subs = {this};
+
   auto iter = argv.iter();
   while (auto next = iter.next()) {
     ctx.cur = ctx.sub;
@@ -568,6 +571,7 @@ best::result<void, cli::error> cli::parse(
     if (auto e = ctx.cur->impl_->find_sub(*next)) {
       ctx.sub = ctx.cur->impl_->subs[e->idx].child;
       ctx.next_positional = 0;
+      subs.push(ctx.sub);
       goto again;
     }
 
@@ -585,11 +589,13 @@ best::result<void, cli::error> cli::parse(
   again:;
   }
 
-  for (const auto& [req, name] : impl_->required) {
-    if (!seen.contains(req)) {
-      return best::err(
-        best::format("{0}: fatal: missing flag --{1}", ctx.exe, name),
-        /*is_fatal=*/true);
+  for (const cli* sub : subs) {
+    for (const auto& [req, name] : sub->impl_->required) {
+      if (!seen.contains(req)) {
+        return best::err(
+          best::format("{0}: fatal: missing flag --{1}", ctx.exe, name),
+          /*is_fatal=*/true);
+      }
     }
   }
 
-- 
2.43.0


From cf2dead6399c25c929f7062857f571c6633953ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:46 +0000
Subject: [PATCH 093/158] fix: report missing required positionals

---
 best/cli/parser.cc | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/best/cli/parser.cc b/best/cli/parser.cc
index f1277f8..2097118 100644
--- a/best/cli/parser.cc
+++ b/best/cli/parser.cc
@@ -384,6 +384,23 @@ best::result<void, cli::error> cli::parse(
   // All of the (sub)commands whose flags we have parsed.
   best::vec<const cli*> subs = {this};
 
+  // Reports the first required positional of the current (sub)command that we
+  // have not seen, if there is one.
+  auto missing_positional = [&]() -> best::option<error> {
+    const auto& args = ctx.sub->impl_->args;
+    for (size_t i = ctx.next_positional; i < args.size(); ++i) {
+      if (args[i].get_count() != Required) { continue; }
+
+      best::str name = args[i].tag->name;
+      return error(
+        best::format("{0}: fatal: missing argument <{1}>", ctx.exe,
+                     name.is_empty() ? best::format("ARG{}", i + 1)
+                                     : best::strbuf(name)),
+        /*is_fatal=*/true);
+    }
+    return best::none;
+  };
+
   auto iter = argv.iter();
   while (auto next = iter.next()) {
     ctx.cur = ctx.sub;
@@ -569,6 +586,9 @@ best::result<void, cli::error> cli::parse(
 
     // Look for a relevant subcommand.
     if (auto e = ctx.cur->impl_->find_sub(*next)) {
+      if (auto err = missing_positional()) {
+        return best::err(*BEST_MOVE(err));
+      }
       ctx.sub = ctx.cur->impl_->subs[e->idx].child;
       ctx.next_positional = 0;
       subs.push(ctx.sub);
@@ -589,6 +609,8 @@ best::result<void, cli::error> cli::parse(
   again:;
   }
 
+  if (auto err = missing_positional()) { return best::err(*BEST_MOVE(err)); }
+
   for (const cli* sub : subs) {
     for (const auto& [req, name] : sub->impl_->required) {
       if (!seen.contains(req)) {
-- 
2.43.0


From f13e0dc7825f0f87ad9496c5b9a77bb22253242d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:46 +0000
Subject: [PATCH 094/158] fix: accept underscores in the names of flags and
 subcommands

---
 best/cli/parser.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/best/cli/parser.cc b/best/cli/parser.cc
index 2097118..d1a977d 100644
--- a/best/cli/parser.cc
+++ b/best/cli/parser.cc
@@ -93,16 +93,23 @@ struct cli::impl {
   /// Pointers to all required flags.
   std::unordered_map<const flag*, best::strbuf> required;
 
+  /// Names are insensitive to which of `_` or `-` is used; all keys use `-`.
+  static best::strbuf to_key(best::pretext<wtf8> tok) {
+    best::strbuf key;
+    for (rune r : tok.runes()) { key.push(r == '_' ? rune('-') : r); }
+    return key;
+  }
+
   best::option<const entry&> find_flag(best::pretext<wtf8> tok) const {
     return sorted_flags.as_span()
-      .bisect(tok, &entry::key)
+      .bisect(to_key(tok), &entry::key)
       .ok()
       .map([&](size_t idx) -> auto&& { return sorted_flags[idx]; });
   }
 
   best::option<const entry&> find_sub(best::pretext<wtf8> tok) const {
     return sorted_subs.as_span()
-      .bisect(tok, &entry::key)
+      .bisect(to_key(tok), &entry::key)
       .ok()
       .map([&](size_t idx) -> auto&& { return sorted_subs[idx]; });
   }
-- 
2.43.0


From d221b07408486837f685e8df59702ad47d7ceee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:46 +0000
Subject: [PATCH 095/158] fix: name the positional that could not be parsed

---
 best/cli/parser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/cli/parser.h b/best/cli/parser.h
index e44e7a5..269135f 100644
--- a/best/cli/parser.h
+++ b/best/cli/parser.h
@@ -192,7 +192,7 @@ void cli::type_erase_field(auto f) {
         if (result) { return best::ok(); }
 
         return best::err(best::format("{}: fatal: could not parse argument: {}",
-                                      ctx.exe, ctx.token, *result.err()),
+                                      ctx.exe, *result.err()),
                          /*is_fatal=*/true);
       });
   }
-- 
2.43.0


From afbdd476798f3f35bf17aa2bc55a21e0e498835d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:46 +0000
Subject: [PATCH 096/158] fix: allow flag groups that only have a letter

---
 best/cli/parser.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/best/cli/parser.h b/best/cli/parser.h
index 269135f..37d0229 100644
--- a/best/cli/parser.h
+++ b/best/cli/parser.h
@@ -146,7 +146,10 @@ void cli::type_erase_field(auto f) {
       about.names.push(best::format("{}", group.letter), group.vis);
     }
 
-    about.names.push(best::strbuf(group.name), group.vis);
+    // Groups without any name at all are flattened.
+    best::str name = group.name;
+    if (name.is_empty() && group.letter != '\0') { name = about.field; }
+    about.names.push(best::strbuf(name), group.vis);
   }
 
   aliases.each([&](auto alias) {
-- 
2.43.0


From 4d198c705303bd2c5276cbdcc45fb716cd30bc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:46 +0000
Subject: [PATCH 097/158] fix: do not require deleted flags

---
 best/cli/parser.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/best/cli/parser.cc b/best/cli/parser.cc
index d1a977d..8923863 100644
--- a/best/cli/parser.cc
+++ b/best/cli/parser.cc
@@ -315,6 +315,11 @@ void cli::init() {
   // Pull out all of the required flags.
   for (const auto& f : impl_->flags) {
     if (f.get_count() != Required) { continue; }
+
+    bool deleted = true;
+    for (auto& [name, vis] : f.about.names) { deleted &= vis == Delete; }
+    if (deleted) { continue; }
+
     auto name = f.tag->letter != '\0' ? f.about.names[1].first()
                                       : f.about.names[0].first();
 
-- 
2.43.0


From 7061f21c20ccfcb2203e6ddafe412edad0245715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:46 +0000
Subject: [PATCH 098/158] fix: exit with the requested code

---
 best/cli/cli.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/cli/cli.cc b/best/cli/cli.cc
index dbbd9ea..02882f3 100644
--- a/best/cli/cli.cc
+++ b/best/cli/cli.cc
@@ -31,7 +31,7 @@ inline constexpr best::str Red = "\N{ESCAPE}[31m";
 void cli::error::print_and_exit(int bad_exit) const {
   if (is_fatal()) {
     best::eprintln("{}{}{}", Red, message(), Reset);
-    std::exit(128);
+    std::exit(bad_exit);
   } else {
     best::println("{}", message());
     std::exit(0);
-- 
2.43.0


From 6789d4f2e2ea5c53fd8a0bd3a3153c1ab888c9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:37 +0000
Subject: [PATCH 099/158] fix: accept BestFromArgv() that returns void

---
 best/cli/parser.h | 39 ++++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/best/cli/parser.h b/best/cli/parser.h
index 37d0229..4c218d2 100644
--- a/best/cli/parser.h
+++ b/best/cli/parser.h
@@ -167,13 +167,19 @@ void cli::type_erase_field(auto f) {
     add(
       std::move(about), flag, argv_query::of<Arg>,
       +[](context& ctx, best::pretext<wtf8> argv) -> best::result<void, error> {
-        auto result = BestFromArgv(argv, Downcast(ctx.args));
-        if (result) { return best::ok(); }
-
-        return best::err(
-          best::format("{}: fatal: could not parse argument for {}: {}",
-                       ctx.exe, ctx.token, *result.err()),
-          /*is_fatal=*/true);
+        if constexpr (best::is_void<decltype(BestFromArgv(
+                        argv, Downcast(ctx.args)))>) {
+          BestFromArgv(argv, Downcast(ctx.args));
+          return best::ok();
+        } else {
+          auto result = BestFromArgv(argv, Downcast(ctx.args));
+          if (result) { return best::ok(); }
+
+          return best::err(
+            best::format("{}: fatal: could not parse argument for {}: {}",
+                         ctx.exe, ctx.token, *result.err()),
+            /*is_fatal=*/true);
+        }
       });
   } else if constexpr (!subs.is_empty()) {
     constexpr const best::cli::subcommand& sub = subs.first();
@@ -191,12 +197,19 @@ void cli::type_erase_field(auto f) {
     add(
       std::move(about), *pos, argv_query::of<Arg>,
       +[](context& ctx, best::pretext<wtf8> argv) -> best::result<void, error> {
-        auto result = BestFromArgv(argv, Downcast(ctx.args));
-        if (result) { return best::ok(); }
-
-        return best::err(best::format("{}: fatal: could not parse argument: {}",
-                                      ctx.exe, *result.err()),
-                         /*is_fatal=*/true);
+        if constexpr (best::is_void<decltype(BestFromArgv(
+                        argv, Downcast(ctx.args)))>) {
+          BestFromArgv(argv, Downcast(ctx.args));
+          return best::ok();
+        } else {
+          auto result = BestFromArgv(argv, Downcast(ctx.args));
+          if (result) { return best::ok(); }
+
+          return best::err(
+            best::format("{}: fatal: could not parse argument: {}", ctx.exe,
+                         *result.err()),
+            /*is_fatal=*/true);
+        }
       });
   }
 }
-- 
2.43.0


From 271a37c590b797d9f38e7026f74f6be5edc8ae40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:28 +0000
Subject: [PATCH 100/158] fix: show the help of named groups within flattened
 groups

---
 best/cli/parser.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/best/cli/parser.cc b/best/cli/parser.cc
index 8923863..90b7045 100644
--- a/best/cli/parser.cc
+++ b/best/cli/parser.cc
@@ -274,7 +274,9 @@ void cli::init() {
 
       auto copy_vis = merge(vis, is_flatten ? Public : Hidden);
       for (auto entry : g->child->impl_->sorted_flags) {
-        if (is_flatten && entry.magic != entry.Ordinary) { continue; }
+        if (is_flatten && entry.magic != entry.Ordinary && entry.idx == -1) {
+          continue;
+        }
 
         if (entry.magic == entry.Ordinary) {
           entry.idx += entry.is_group ? group_offset : flag_offset;
-- 
2.43.0


From 7822e0533f13320aec99d1a116df38b5af93fb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:28 +0000
Subject: [PATCH 101/158] fix: prefer names over letters after the letter of a
 flag group

---
 best/cli/parser.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/best/cli/parser.cc b/best/cli/parser.cc
index 90b7045..beda31a 100644
--- a/best/cli/parser.cc
+++ b/best/cli/parser.cc
@@ -509,7 +509,13 @@ best::result<void, cli::error> cli::parse(
             // consumed.
             bool update = runes->rest().is_empty();
             BEST_GUARD(push_group(e->idx, update));
-            if (!update) { flag = runes->rest(); }
+            if (!update) {
+              flag = runes->rest();
+              // Prefer the name of a flag in the group over a run of its
+              // letters.
+              auto e = ctx.cur->impl_->find_flag(flag);
+              if (e && e->magic == e->Ordinary) { break; }
+            }
             continue;
           }
           BEST_GUARD(interpret_magic(*e));
-- 
2.43.0


From f1d2fd9764b7f4891109a790fbc4195ac5c95e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:15 +0000
Subject: [PATCH 102/158] fix: initialize default runes to NUL

---
 best/text/rune.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/text/rune.h b/best/text/rune.h
index 7375da3..78854b7 100644
--- a/best/text/rune.h
+++ b/best/text/rune.h
@@ -343,7 +343,7 @@ class rune final {
   static constexpr char Alphabet[] = "0123456789abcdefghijklmnopqrstuvwxyz";
   constexpr explicit rune(best::in_place_t, uint32_t value) : value_(value) {}
 
-  uint32_t value_;
+  uint32_t value_ = 0;
 };
 
 inline constexpr rune rune::Replacement = 0xfffd;
-- 
2.43.0


From 72b16d507e59a0c6b3965eb50e0bbdbd1cf942af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:23 +0000
Subject: [PATCH 103/158] fix: do not show hidden flag groups in usage

---
 best/cli/parser.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/best/cli/parser.cc b/best/cli/parser.cc
index beda31a..619bfa8 100644
--- a/best/cli/parser.cc
+++ b/best/cli/parser.cc
@@ -265,6 +265,7 @@ void cli::init() {
           .is_group = true,
           .is_letter = is_letter,
           .is_alias = name_idx > size_t(has_letter),
+          .vis = vis,
         });
 
         // Letter names for groups are parsed in a different way that does not
-- 
2.43.0


From c51e342918d4b25d61a8dfb25d6a04b8f2df89e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:23 +0000
Subject: [PATCH 104/158] fix: show the groups within flattened groups as
 groups

---
 best/cli/parser.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/best/cli/parser.cc b/best/cli/parser.cc
index 619bfa8..48fba02 100644
--- a/best/cli/parser.cc
+++ b/best/cli/parser.cc
@@ -289,7 +289,7 @@ void cli::init() {
 
         entry.is_letter |= is_letter;
         entry.vis = merge(entry.vis, copy_vis);
-        entry.is_copy = !is_flatten;
+        entry.is_copy |= !is_flatten;
 
         if (!name.is_empty()) {
           auto key = std::move(entry.key);
@@ -309,7 +309,7 @@ void cli::init() {
         }
         entry.idx += sub_offset;
         entry.vis = merge(entry.vis, copy_vis);
-        entry.is_copy = !is_flatten;
+        entry.is_copy |= !is_flatten;
         impl_->sorted_subs.push(std::move(entry));
       }
     }
-- 
2.43.0


From 95e580b5d2d69ef874b7c7c7eee3615227a56a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:23 +0000
Subject: [PATCH 105/158] fix: do not show hidden subcommands in the usage line

---
 best/cli/parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/cli/parser.cc b/best/cli/parser.cc
index 48fba02..1d50713 100644
--- a/best/cli/parser.cc
+++ b/best/cli/parser.cc
@@ -711,7 +711,7 @@ best::strbuf cli::usage(best::pretext<wtf8> exe, bool hidden) const {
   // Append all of the subcommands.
   bool first = true;
   for (const auto& s : cmd->sorted_subs) {
-    if (s.is_alias) { continue; }
+    if (!visible(s.vis, hidden) || s.is_alias) { continue; }
     if (std::exchange(first, false)) {
       out.push(" [");
     } else {
-- 
2.43.0


From 9e597b0644cc13bf75c9c593fc003392d065aa92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:23 +0000
Subject: [PATCH 106/158] fix: show the help of positionals in usage

---
 best/cli/parser.cc | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/best/cli/parser.cc b/best/cli/parser.cc
index 1d50713..b437e6d 100644
--- a/best/cli/parser.cc
+++ b/best/cli/parser.cc
@@ -785,6 +785,34 @@ best::strbuf cli::usage(best::pretext<wtf8> exe, bool hidden) const {
   }
   if (!first) { out.push('\n'); }
 
+  // Next, the documented arguments.
+  first = true;
+  for (auto [idx, p] : impl_->args.iter().enumerate()) {
+    if (p.tag->help.is_empty()) { continue; }
+    if (std::exchange(first, false)) { out.push("# Arguments\n"); }
+
+    best::strbuf name(p.tag->name);
+    if (name.is_empty()) { name = best::format("ARG{}", idx + 1); }
+
+    indent(6);
+    out.push(name);
+    size_t extra = Width - width_of(name) - 6;
+    if (extra <= Width) {
+      indent_dots(extra + 2);
+    } else {
+      out.push("\n");
+      indent(Width + 2);
+    }
+
+    bool first = true;
+    for (auto line : p.tag->help.split("\n")) {
+      if (!std::exchange(first, false)) { indent(Width + 2); }
+      out.push(line);
+      out.push("\n");
+    }
+  }
+  if (!first) { out.push('\n'); }
+
   out.push("# Flags\n");
 
   auto print_flag = [&](const cli::impl::entry& e) {
-- 
2.43.0


From 08666d0410fac90149362e6c5a9ce142403bd317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:20 +0000
Subject: [PATCH 107/158] fix: show the groups within lettered groups once

---
 best/cli/parser.cc | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/best/cli/parser.cc b/best/cli/parser.cc
index b437e6d..d0561cd 100644
--- a/best/cli/parser.cc
+++ b/best/cli/parser.cc
@@ -936,14 +936,8 @@ best::strbuf cli::usage(best::pretext<wtf8> exe, bool hidden) const {
       continue;
     }
 
-    bool has_letter = false;
-    if (e.is_group) {
-      const auto& g = impl_->groups[e.idx];
-      has_letter = g.tag->letter != '\0';
-    }
-
     // This makes us prefer to alphabetize by name.
-    if ((has_letter || !e.is_group) && e.is_letter) { continue; }
+    if (e.is_letter) { continue; }
 
     if (std::exchange(first, false)) { out.push("\n"); }
     print_flag(e);
-- 
2.43.0


From bc9c62acf4578afe85ff0355beb9703157eee28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:18 +0000
Subject: [PATCH 108/158] fix: do not read past the end of long crash messages

---
 best/log/internal/crash.cc | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/best/log/internal/crash.cc b/best/log/internal/crash.cc
index 80ff887..e2a4739 100644
--- a/best/log/internal/crash.cc
+++ b/best/log/internal/crash.cc
@@ -60,8 +60,21 @@ inline constexpr char Red[] = "\N{ESCAPE}[31m";
   va_list va;
   va_start(va, fmt);
   die(fmt.location(), [&](char* scratch, size_t scratch_len, auto write) {
-    size_t len = ::vsnprintf(scratch, scratch_len, *fmt, va);
-    write(scratch, len);
+    va_list again;
+    va_copy(again, va);
+
+    int result = ::vsnprintf(scratch, scratch_len, *fmt, va);
+    size_t len = result < 0 ? 0 : result;
+    if (len < scratch_len) {
+      write(scratch, len);
+    } else if (auto* big = static_cast<char*>(::malloc(len + 1))) {
+      // The message was truncated.
+      ::vsnprintf(big, len + 1, *fmt, again);
+      write(big, len);
+    } else {
+      write(scratch, scratch_len - 1);
+    }
+    va_end(again);
   });
   va_end(va);
 }
-- 
2.43.0


From 98c6f62d4fa5fadfc70ca4a0ddb48efff23cd8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:18 +0000
Subject: [PATCH 109/158] fix: print all of the error when unwrapping a result

---
 best/text/format.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/best/text/format.h b/best/text/format.h
index a631e74..f476128 100644
--- a/best/text/format.h
+++ b/best/text/format.h
@@ -578,7 +578,9 @@ struct fmt final {
     if (auto err = result->err()) {
       auto message = best::format("unwrapped a best::err({:?})",
                                   best::make_formattable(*err));
-      best::crash_internal::crash("%.*s", message.size(), message.data());
+      best::crash_internal::die(best::here, [&](char*, size_t, auto write) {
+        write(message.data(), message.size());
+      });
     }
   }
 };
-- 
2.43.0


From 96195cb881212fa7bfe761299af8dd11e690ca77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:46 +0000
Subject: [PATCH 110/158] fix: keep the location when copying a mutable
 track_location

---
 best/log/location.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/best/log/location.h b/best/log/location.h
index 4b2da81..c9fd094 100644
--- a/best/log/location.h
+++ b/best/log/location.h
@@ -54,7 +54,8 @@ class track_location {
   template <typename Arg = T>
   constexpr track_location(
     Arg&& arg, std::source_location loc = std::source_location::current())
-    requires std::convertible_to<Arg, T>
+    requires std::convertible_to<Arg, T> &&
+               (!std::same_as<std::remove_cvref_t<Arg>, track_location>)
     : value_(BEST_FWD(arg)), impl_(loc) {}
 
   /// Constructs a new location from the given location.
-- 
2.43.0


From e1ac35cf46e046fc38df98b7a4cb657681a7dc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:33 +0000
Subject: [PATCH 111/158] fix: list each errno at its own number

---
 best/io/errnos.inc | 171 ++++++++++++++++++++++-----------------------
 best/io/errnos.py  |  11 +--
 2 files changed, 87 insertions(+), 95 deletions(-)

diff --git a/best/io/errnos.inc b/best/io/errnos.inc
index 6dd8e52..75e8178 100644
--- a/best/io/errnos.inc
+++ b/best/io/errnos.inc
@@ -10,53 +10,53 @@
 /*0009*/ e{"EBADF", "Bad file descriptor"},
 /*0010*/ e{"ECHILD", "No child processes"},
 /*0011*/ e{"EAGAIN", "Resource temporarily unavailable"},
-/*0012*/ e{"EWOULDBLOCK", "Resource temporarily unavailable"},
-/*0013*/ e{"ENOMEM", "Cannot allocate memory"},
-/*0014*/ e{"EACCES", "Permission denied"},
-/*0015*/ e{"EFAULT", "Bad address"},
-/*0016*/ e{"ENOTBLK", "Block device required"},
-/*0017*/ e{"EBUSY", "Device or resource busy"},
-/*0018*/ e{"EEXIST", "File exists"},
-/*0019*/ e{"EXDEV", "Invalid cross-device link"},
-/*0020*/ e{"ENODEV", "No such device"},
-/*0021*/ e{"ENOTDIR", "Not a directory"},
-/*0022*/ e{"EISDIR", "Is a directory"},
-/*0023*/ e{"EINVAL", "Invalid argument"},
-/*0024*/ e{"ENFILE", "Too many open files in system"},
-/*0025*/ e{"EMFILE", "Too many open files"},
-/*0026*/ e{"ENOTTY", "Inappropriate ioctl for device"},
-/*0027*/ e{"ETXTBSY", "Text file busy"},
-/*0028*/ e{"EFBIG", "File too large"},
-/*0029*/ e{"ENOSPC", "No space left on device"},
-/*0030*/ e{"ESPIPE", "Illegal seek"},
-/*0031*/ e{"EROFS", "Read-only file system"},
-/*0032*/ e{"EMLINK", "Too many links"},
-/*0033*/ e{"EPIPE", "Broken pipe"},
-/*0034*/ e{"EDOM", "Numerical argument out of domain"},
-/*0035*/ e{"ERANGE", "Numerical result out of range"},
-/*0036*/ e{"EDEADLK", "Resource deadlock avoided"},
-/*0037*/ e{"EDEADLOCK", "Resource deadlock avoided"},
-/*0038*/ e{"ENAMETOOLONG", "File name too long"},
-/*0039*/ e{"ENOLCK", "No locks available"},
-/*0040*/ e{"ENOSYS", "Function not implemented"},
-/*0041*/ e{"ENOTEMPTY", "Directory not empty"},
-/*0042*/ e{"ELOOP", "Too many levels of symbolic links"},
-/*0043*/ e{"ENOMSG", "No message of desired type"},
-/*0044*/ e{"EIDRM", "Identifier removed"},
-/*0045*/ e{"ECHRNG", "Channel number out of range"},
-/*0046*/ e{"EL2NSYNC", "Level 2 not synchronized"},
-/*0047*/ e{"EL3HLT", "Level 3 halted"},
-/*0048*/ e{"EL3RST", "Level 3 reset"},
-/*0049*/ e{"ELNRNG", "Link number out of range"},
-/*0050*/ e{"EUNATCH", "Protocol driver not attached"},
-/*0051*/ e{"ENOCSI", "No CSI structure available"},
-/*0052*/ e{"EL2HLT", "Level 2 halted"},
-/*0053*/ e{"EBADE", "Invalid exchange"},
-/*0054*/ e{"EBADR", "Invalid request descriptor"},
-/*0055*/ e{"EXFULL", "Exchange full"},
-/*0056*/ e{"ENOANO", "No anode"},
-/*0057*/ e{"EBADRQC", "Invalid request code"},
-/*0058*/ e{"EBADSLT", "Invalid slot"},
+/*0012*/ e{"ENOMEM", "Cannot allocate memory"},
+/*0013*/ e{"EACCES", "Permission denied"},
+/*0014*/ e{"EFAULT", "Bad address"},
+/*0015*/ e{"ENOTBLK", "Block device required"},
+/*0016*/ e{"EBUSY", "Device or resource busy"},
+/*0017*/ e{"EEXIST", "File exists"},
+/*0018*/ e{"EXDEV", "Invalid cross-device link"},
+/*0019*/ e{"ENODEV", "No such device"},
+/*0020*/ e{"ENOTDIR", "Not a directory"},
+/*0021*/ e{"EISDIR", "Is a directory"},
+/*0022*/ e{"EINVAL", "Invalid argument"},
+/*0023*/ e{"ENFILE", "Too many open files in system"},
+/*0024*/ e{"EMFILE", "Too many open files"},
+/*0025*/ e{"ENOTTY", "Inappropriate ioctl for device"},
+/*0026*/ e{"ETXTBSY", "Text file busy"},
+/*0027*/ e{"EFBIG", "File too large"},
+/*0028*/ e{"ENOSPC", "No space left on device"},
+/*0029*/ e{"ESPIPE", "Illegal seek"},
+/*0030*/ e{"EROFS", "Read-only file system"},
+/*0031*/ e{"EMLINK", "Too many links"},
+/*0032*/ e{"EPIPE", "Broken pipe"},
+/*0033*/ e{"EDOM", "Numerical argument out of domain"},
+/*0034*/ e{"ERANGE", "Numerical result out of range"},
+/*0035*/ e{"EDEADLK", "Resource deadlock avoided"},
+/*0036*/ e{"ENAMETOOLONG", "File name too long"},
+/*0037*/ e{"ENOLCK", "No locks available"},
+/*0038*/ e{"ENOSYS", "Function not implemented"},
+/*0039*/ e{"ENOTEMPTY", "Directory not empty"},
+/*0040*/ e{"ELOOP", "Too many levels of symbolic links"},
+/*0041*/ e{},
+/*0042*/ e{"ENOMSG", "No message of desired type"},
+/*0043*/ e{"EIDRM", "Identifier removed"},
+/*0044*/ e{"ECHRNG", "Channel number out of range"},
+/*0045*/ e{"EL2NSYNC", "Level 2 not synchronized"},
+/*0046*/ e{"EL3HLT", "Level 3 halted"},
+/*0047*/ e{"EL3RST", "Level 3 reset"},
+/*0048*/ e{"ELNRNG", "Link number out of range"},
+/*0049*/ e{"EUNATCH", "Protocol driver not attached"},
+/*0050*/ e{"ENOCSI", "No CSI structure available"},
+/*0051*/ e{"EL2HLT", "Level 2 halted"},
+/*0052*/ e{"EBADE", "Invalid exchange"},
+/*0053*/ e{"EBADR", "Invalid request descriptor"},
+/*0054*/ e{"EXFULL", "Exchange full"},
+/*0055*/ e{"ENOANO", "No anode"},
+/*0056*/ e{"EBADRQC", "Invalid request code"},
+/*0057*/ e{"EBADSLT", "Invalid slot"},
+/*0058*/ e{},
 /*0059*/ e{"EBFONT", "Bad font file format"},
 /*0060*/ e{"ENOSTR", "Device not a stream"},
 /*0061*/ e{"ENODATA", "No data available"},
@@ -94,42 +94,41 @@
 /*0093*/ e{"EPROTONOSUPPORT", "Protocol not supported"},
 /*0094*/ e{"ESOCKTNOSUPPORT", "Socket type not supported"},
 /*0095*/ e{"EOPNOTSUPP", "Operation not supported"},
-/*0096*/ e{"ENOTSUP", "Operation not supported"},
-/*0097*/ e{"EPFNOSUPPORT", "Protocol family not supported"},
-/*0098*/ e{"EAFNOSUPPORT", "Address family not supported by protocol"},
-/*0099*/ e{"EADDRINUSE", "Address already in use"},
-/*0100*/ e{"EADDRNOTAVAIL", "Cannot assign requested address"},
-/*0101*/ e{"ENETDOWN", "Network is down"},
-/*0102*/ e{"ENETUNREACH", "Network is unreachable"},
-/*0103*/ e{"ENETRESET", "Network dropped connection on reset"},
-/*0104*/ e{"ECONNABORTED", "Software caused connection abort"},
-/*0105*/ e{"ECONNRESET", "Connection reset by peer"},
-/*0106*/ e{"ENOBUFS", "No buffer space available"},
-/*0107*/ e{"EISCONN", "Transport endpoint is already connected"},
-/*0108*/ e{"ENOTCONN", "Transport endpoint is not connected"},
-/*0109*/ e{"ESHUTDOWN", "Cannot send after transport endpoint shutdown"},
-/*0110*/ e{"ETOOMANYREFS", "Too many references: cannot splice"},
-/*0111*/ e{"ETIMEDOUT", "Connection timed out"},
-/*0112*/ e{"ECONNREFUSED", "Connection refused"},
-/*0113*/ e{"EHOSTDOWN", "Host is down"},
-/*0114*/ e{"EHOSTUNREACH", "No route to host"},
-/*0115*/ e{"EALREADY", "Operation already in progress"},
-/*0116*/ e{"EINPROGRESS", "Operation now in progress"},
-/*0117*/ e{"ESTALE", "Stale file handle"},
-/*0118*/ e{"EUCLEAN", "Structure needs cleaning"},
-/*0119*/ e{"ENOTNAM", "Not a XENIX named type file"},
-/*0120*/ e{"ENAVAIL", "No XENIX semaphores available"},
-/*0121*/ e{"EISNAM", "Is a named type file"},
-/*0122*/ e{"EREMOTEIO", "Remote I/O error"},
-/*0123*/ e{"EDQUOT", "Disk quota exceeded"},
-/*0124*/ e{"ENOMEDIUM", "No medium found"},
-/*0125*/ e{"EMEDIUMTYPE", "Wrong medium type"},
-/*0126*/ e{"ECANCELED", "Operation canceled"},
-/*0127*/ e{"ENOKEY", "Required key not available"},
-/*0128*/ e{"EKEYEXPIRED", "Key has expired"},
-/*0129*/ e{"EKEYREVOKED", "Key has been revoked"},
-/*0130*/ e{"EKEYREJECTED", "Key was rejected by service"},
-/*0131*/ e{"EOWNERDEAD", "Owner died"},
-/*0132*/ e{"ENOTRECOVERABLE", "State not recoverable"},
-/*0133*/ e{"ERFKILL", "Operation not possible due to RF-kill"},
-/*0134*/ e{"EHWPOISON", "Memory page has hardware error"},
+/*0096*/ e{"EPFNOSUPPORT", "Protocol family not supported"},
+/*0097*/ e{"EAFNOSUPPORT", "Address family not supported by protocol"},
+/*0098*/ e{"EADDRINUSE", "Address already in use"},
+/*0099*/ e{"EADDRNOTAVAIL", "Cannot assign requested address"},
+/*0100*/ e{"ENETDOWN", "Network is down"},
+/*0101*/ e{"ENETUNREACH", "Network is unreachable"},
+/*0102*/ e{"ENETRESET", "Network dropped connection on reset"},
+/*0103*/ e{"ECONNABORTED", "Software caused connection abort"},
+/*0104*/ e{"ECONNRESET", "Connection reset by peer"},
+/*0105*/ e{"ENOBUFS", "No buffer space available"},
+/*0106*/ e{"EISCONN", "Transport endpoint is already connected"},
+/*0107*/ e{"ENOTCONN", "Transport endpoint is not connected"},
+/*0108*/ e{"ESHUTDOWN", "Cannot send after transport endpoint shutdown"},
+/*0109*/ e{"ETOOMANYREFS", "Too many references: cannot splice"},
+/*0110*/ e{"ETIMEDOUT", "Connection timed out"},
+/*0111*/ e{"ECONNREFUSED", "Connection refused"},
+/*0112*/ e{"EHOSTDOWN", "Host is down"},
+/*0113*/ e{"EHOSTUNREACH", "No route to host"},
+/*0114*/ e{"EALREADY", "Operation already in progress"},
+/*0115*/ e{"EINPROGRESS", "Operation now in progress"},
+/*0116*/ e{"ESTALE", "Stale file handle"},
+/*0117*/ e{"EUCLEAN", "Structure needs cleaning"},
+/*0118*/ e{"ENOTNAM", "Not a XENIX named type file"},
+/*0119*/ e{"ENAVAIL", "No XENIX semaphores available"},
+/*0120*/ e{"EISNAM", "Is a named type file"},
+/*0121*/ e{"EREMOTEIO", "Remote I/O error"},
+/*0122*/ e{"EDQUOT", "Disk quota exceeded"},
+/*0123*/ e{"ENOMEDIUM", "No medium found"},
+/*0124*/ e{"EMEDIUMTYPE", "Wrong medium type"},
+/*0125*/ e{"ECANCELED", "Operation canceled"},
+/*0126*/ e{"ENOKEY", "Required key not available"},
+/*0127*/ e{"EKEYEXPIRED", "Key has expired"},
+/*0128*/ e{"EKEYREVOKED", "Key has been revoked"},
+/*0129*/ e{"EKEYREJECTED", "Key was rejected by service"},
+/*0130*/ e{"EOWNERDEAD", "Owner died"},
+/*0131*/ e{"ENOTRECOVERABLE", "State not recoverable"},
+/*0132*/ e{"ERFKILL", "Operation not possible due to RF-kill"},
+/*0133*/ e{"EHWPOISON", "Memory page has hardware error"},
\ No newline at end of file
diff --git a/best/io/errnos.py b/best/io/errnos.py
index a5afdb4..9650dba 100755
--- a/best/io/errnos.py
+++ b/best/io/errnos.py
@@ -33,15 +33,8 @@ def main():
 
   next = 0
   for n, name, message in errnos:
-    while next < n:
-      print(f"/*{next:04}*/ e{{}},")
-      next += 1
-    print(f'/*{next:04}*/ e{{"{name}", "{message}"}},')
-    next += 1
-
-
-  next = 0
-  for n, name, message in errnos:
+    # Aliases (e.g. EWOULDBLOCK for EAGAIN) do not get an entry of their own.
+    if n < next: continue
     while next < n:
       print(f"/*{next:04}*/ e{{}},")
       next += 1
-- 
2.43.0


From 47ee6818be8a2729037f279f054ea022fffb4523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:46 +0000
Subject: [PATCH 112/158] fix: make ioerr formattable

---
 best/io/ioerr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/io/ioerr.h b/best/io/ioerr.h
index 1fe66db..ae99a38 100644
--- a/best/io/ioerr.h
+++ b/best/io/ioerr.h
@@ -80,7 +80,7 @@ class ioerr final {
     }
     fmt.format("Error {}: ({}), {}", e.raw(), *e.name(), *e.message());
   }
-  friend void BestFmtQuery(auto& query, ioerr*) {
+  constexpr friend void BestFmtQuery(auto& query, ioerr*) {
     query.requires_debug = false;
   }
 
-- 
2.43.0


From f531be7718a948f02088c698e384eba513dbf00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:41 +0000
Subject: [PATCH 113/158] fix: let the niche of ioerr be used

---
 best/io/ioerr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/io/ioerr.h b/best/io/ioerr.h
index ae99a38..7749aac 100644
--- a/best/io/ioerr.h
+++ b/best/io/ioerr.h
@@ -85,7 +85,7 @@ class ioerr final {
   }
 
   constexpr ioerr(niche) : value_(0) {}
-  constexpr bool operator==(niche) { return value_ == 0; }
+  constexpr bool operator==(niche) const { return value_ == 0; }
 
  private:
   int value_;
-- 
2.43.0


From 478ebe52a7d849ffcb28353913cf3b57b8612278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:42 +0000
Subject: [PATCH 114/158] fix: do not read past the table when matching an
 unlisted enum value

---
 best/meta/reflect.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/best/meta/reflect.h b/best/meta/reflect.h
index f97d63b..1a27ae3 100644
--- a/best/meta/reflect.h
+++ b/best/meta/reflect.h
@@ -478,9 +478,10 @@ constexpr decltype(auto) reflected_type<desc_>::match(reflected value,
   requires best::is_enum<reflected>
 {
   auto choice = apply([&](auto... values) {
+    // The zeroth entry of the table is the one for "not found".
     size_t idx = 0;
-    ((value == values.value ? true : (++idx, false)) || ...);
-    return ChoiceTable<>[idx + 1];
+    bool found = ((++idx, value == values.value) || ...);
+    return ChoiceTable<>[found ? idx : 0];
   });
   return choice.match(BEST_FWD(cases)...);
 }
-- 
2.43.0


From 915336a0a41669a7332a1fa28a0223632d29ff2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:42 +0000
Subject: [PATCH 115/158] fix: allow matching reflections of types with no
 items

---
 best/meta/reflect.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/best/meta/reflect.h b/best/meta/reflect.h
index 1a27ae3..6366e41 100644
--- a/best/meta/reflect.h
+++ b/best/meta/reflect.h
@@ -348,7 +348,8 @@ class reflected_type final {
   static constexpr auto Name2Index = [] {
     auto array = T{}.apply([](auto... values) {
       size_t i = 0;
-      return std::array{entry{values.name(), ++i}...};
+      return std::array<entry, sizeof...(values)>{
+        entry{values.name(), ++i}...};
     });
     best::span(array).sort(&entry::k);
     return array;
-- 
2.43.0


From b7a99a6a2c5dc63e08a174dfddb485dac51f597a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:42 +0000
Subject: [PATCH 116/158] fix: allow binding zero elements into a row

---
 best/container/row.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/best/container/row.h b/best/container/row.h
index 524d53d..fc7a08f 100644
--- a/best/container/row.h
+++ b/best/container/row.h
@@ -196,6 +196,7 @@ class row final
   constexpr row(best::bind_t, devoid<Elems>&&... args)
     requires (sizeof...(args) > 0)
     : impl{{best::object<Elems>(best::in_place, BEST_FWD(args))}...} {}
+  constexpr row(best::bind_t) requires (sizeof...(Elems) == 0) {}
 
   /// # `row::size()`
   ///
-- 
2.43.0


From bcf4c8b1662b0d687aca02ef006c45de8b7abff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:00 +0000
Subject: [PATCH 117/158] fix: name types nested in templates after themselves

---
 best/meta/names.h | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/best/meta/names.h b/best/meta/names.h
index cfc910a..0dca723 100644
--- a/best/meta/names.h
+++ b/best/meta/names.h
@@ -112,11 +112,27 @@ BEST_POP_GCC_DIAGNOSTIC()
 namespace best {
 constexpr type_names::type_names(names_internal::priv, best::str name)
   : full_name_(name) {
-  first_angle_ = full_name_.find('<').value_or(full_name_.size());
-
-  last_colcol_ =
-    first_angle_ -
-    names_internal::remove_namespace(full_name_[{.end = first_angle_}]).size();
+  // Only consider `::` and `<` that are not part of the parameters of some
+  // other part of the path, such as in `Outer<ns::Type>::Inner<int>`.
+  last_colcol_ = 0;
+  first_angle_ = name.size();
+  size_t depth = 0;
+  for (size_t i = 0; i < name.size(); ++i) {
+    switch (name.data()[i]) {
+      case '<':
+        if (depth == 0 && first_angle_ == name.size()) { first_angle_ = i; }
+        [[fallthrough]];
+      case '(': ++depth; break;
+      case '>':
+      case ')': depth -= depth > 0; break;
+      case ':':
+        if (depth == 0 && i > 0 && name.data()[i - 1] == ':') {
+          last_colcol_ = i + 1;
+          first_angle_ = name.size();
+        }
+        break;
+    }
+  }
 }
 
 }  // namespace best
-- 
2.43.0


From c04316069bafde6266dcc2409c82f7aac37b0026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:00 +0000
Subject: [PATCH 118/158] fix: find the names of enums in anonymous namespaces

---
 best/meta/internal/names.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/best/meta/internal/names.h b/best/meta/internal/names.h
index 51479b7..b749f90 100644
--- a/best/meta/internal/names.h
+++ b/best/meta/internal/names.h
@@ -205,9 +205,12 @@ constexpr best::option<best::str> parse() {
                 .count = raw.size() - offsets.prefix - offsets.suffix,
               }]);
 
-  if (name.starts_with('(')) { return best::none; }
-  // `name` is going to be scoped, so we need to strip off a leading path.
-  return names_internal::remove_namespace(name);
+  // `name` is going to be scoped, so we need to strip off a leading path. What
+  // remains of values without a name, such as `(ns::Enum)42`, is not an
+  // identifier. The path itself may contain parens, too.
+  name = names_internal::remove_namespace(name);
+  if (name.contains(')')) { return best::none; }
+  return name;
   BEST_POP_GCC_DIAGNOSTIC()
 };
 
-- 
2.43.0


From cf56feee59d51af17bd86f032dfcc44e20e02dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:00 +0000
Subject: [PATCH 119/158] fix: infer each value of narrow enums once

---
 best/meta/internal/reflect.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/best/meta/internal/reflect.h b/best/meta/internal/reflect.h
index 37cb1ea..521f819 100644
--- a/best/meta/internal/reflect.h
+++ b/best/meta/internal/reflect.h
@@ -347,6 +347,15 @@ class tdesc final {
     return reflect_internal::tdesc(best::types<T>, fields, best::row());
   }
 
+  // Whether `n` is the value of an enumerator. Numbers which do not fit into T
+  // are not; they would convert to some other value.
+  BEST_PUSH_GCC_DIAGNOSTIC()
+  BEST_IGNORE_GCC_DIAGNOSTIC("-Wenum-constexpr-conversion")
+  template <size_t n>
+  static constexpr bool has_name =
+    size_t(T(n)) == n && best::value_name<T(n)>.has_value();
+  BEST_POP_GCC_DIAGNOSTIC()
+
   // Infers the default reflection descriptor for an enum.
   template <size_t start, size_t count>
   static constexpr auto infer_enum() requires best::is_enum<T>
@@ -354,13 +363,12 @@ class tdesc final {
     BEST_PUSH_GCC_DIAGNOSTIC()
     BEST_IGNORE_GCC_DIAGNOSTIC("-Wenum-constexpr-conversion")
     constexpr auto ok = best::indices<count>.apply([]<size_t... i> {
-      constexpr size_t ok_count =
-        (0 + ... + best::value_name<T(start + i)>.has_value());
+      constexpr size_t ok_count = (0 + ... + has_name<start + i>);
 
       std::array<T, ok_count> ok = {};
       size_t idx = 0;
 
-      ((best::value_name<T(start + i)>.has_value()
+      ((has_name<start + i>
           ? void(ok[idx++] = T(start + i))
           : void()),
        ...);
-- 
2.43.0


From 949bdf0fee8e2c55b15b3e44440040cf060ace24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:23 +0000
Subject: [PATCH 120/158] fix: find the names of fields of types with short
 names

---
 best/meta/internal/names.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/best/meta/internal/names.h b/best/meta/internal/names.h
index b749f90..6c2ea6d 100644
--- a/best/meta/internal/names.h
+++ b/best/meta/internal/names.h
@@ -94,10 +94,10 @@ inline constexpr auto TypeOffsets = [] {
 }();
 inline constexpr auto FieldOffsets = [] {
   auto name = raw_name<&BEST_REFLECT_STRUCT_::BEST_REFLECT_FIELD1_>();
-  auto idx = *name.find(FieldNeedle1);
+  auto idx = *name.find(FieldNeedle);
   return raw_offsets{
     .prefix = idx,
-    .suffix = name.size() - idx - FieldNeedle1.size(),
+    .suffix = name.size() - idx - FieldNeedle.size(),
   };
 }();
 inline constexpr auto ValueOffsets = [] {
-- 
2.43.0


From d992b2367a3919166c975ebeca6413311e2ec325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:28 +0000
Subject: [PATCH 121/158] fix: find the fields of structs with fields that must
 be initialized

---
 best/meta/internal/reflect.h | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/best/meta/internal/reflect.h b/best/meta/internal/reflect.h
index 521f819..9f37cc4 100644
--- a/best/meta/internal/reflect.h
+++ b/best/meta/internal/reflect.h
@@ -20,6 +20,8 @@
 #ifndef BEST_META_INTERNAL_REFLECT_H_
 #define BEST_META_INTERNAL_REFLECT_H_
 
+#include <type_traits>
+
 #include "best/base/fwd.h"
 #include "best/base/port.h"
 #include "best/meta/internal/names.h"
@@ -138,20 +140,6 @@ inline constexpr struct any_t {
 template <size_t>
 inline constexpr any_t index_any{};
 
-/// Counts the number of fields in the struct T by recursively trying to
-/// construct a T with `n` arguments; once it hits a failure, we know we found
-/// the largest number of arguments it can be initialized with.
-template <best::is_struct T, size_t... i>
-constexpr size_t count_fields() {
-  if constexpr (!requires { T{index_any<i>...}; }) {
-    return sizeof...(i) - 1;
-  } else {
-    return count_fields<T, i..., sizeof...(i)>();
-  }
-}
-template <best::is_struct T>
-inline constexpr size_t total_fields = count_fields<T, 0>();
-
 /// # `best::reflect_internal::bind(struct, cb)`
 ///
 /// The struct manipulation primitive: this explodes a struct into a tuple using
@@ -162,6 +150,26 @@ constexpr decltype(auto) bind(auto&& val, auto&& cb) {
                                 best::rank<BEST_REFLECT_MAX_FIELDS_>{});
 }
 
+/// Counts the number of fields in the struct T by recursively trying to
+/// construct a T with `n` arguments; once it hits a failure, we know we found
+/// the largest number of arguments it can be initialized with. Failures before
+/// the first success are due to fields that need an initializer.
+template <best::is_struct T, bool found, size_t... i>
+constexpr size_t count_fields() {
+  if constexpr (requires { T{index_any<i>...}; }) {
+    return count_fields<T, true, i..., sizeof...(i)>();
+  } else if constexpr (found) {
+    return sizeof...(i) - 1;
+  } else if constexpr (std::is_aggregate_v<T> &&
+                       sizeof...(i) < BEST_REFLECT_MAX_FIELDS_) {
+    return count_fields<T, false, i..., sizeof...(i)>();
+  } else {
+    return 0;
+  }
+}
+template <best::is_struct T>
+inline constexpr size_t total_fields = count_fields<T, false, 0>();
+
 /// # `best::reflect_internal::bind(struct)`
 ///
 /// Binds the `n`th field of `struct`.
-- 
2.43.0


From fd5671e9d55ac907f1acfa919ce156c42f7c1643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:26 +0000
Subject: [PATCH 122/158] fix: allow copying trivial objects through ptr in
 constant expressions

---
 best/memory/ptr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/memory/ptr.h b/best/memory/ptr.h
index 5323d9f..7eaaebf 100644
--- a/best/memory/ptr.h
+++ b/best/memory/ptr.h
@@ -764,7 +764,7 @@ class ptr final {
               (best::relocatable<T, trivially> && kind == how::Relo));
     }
 
-    bool should_memcpy() const {
+    constexpr bool should_memcpy() const {
       return !std::is_constant_evaluated() ||
              // Constexpr support for memcpy() is only valid for trivially
              // copyable types, *not* trivially relocatable types.
-- 
2.43.0


From 0e77a298e14b53bd7e49e44089e2f8021dc3b221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:26 +0000
Subject: [PATCH 123/158] fix: allow unwrapping an ok result in constant
 expressions

---
 best/text/format.h | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/best/text/format.h b/best/text/format.h
index f476128..0b38fb3 100644
--- a/best/text/format.h
+++ b/best/text/format.h
@@ -574,14 +574,18 @@ namespace result_internal {
 // See the matching decl in result.h.
 struct fmt final {
   template <typename T, typename E>
-  BEST_INLINE_SYNTHETIC static void check_ok(const best::result<T, E>* result) {
-    if (auto err = result->err()) {
-      auto message = best::format("unwrapped a best::err({:?})",
-                                  best::make_formattable(*err));
-      best::crash_internal::die(best::here, [&](char*, size_t, auto write) {
-        write(message.data(), message.size());
-      });
-    }
+  BEST_INLINE_SYNTHETIC static constexpr void check_ok(
+    const best::result<T, E>* result) {
+    if (auto err = result->err()) { crash(*err); }
+  }
+
+  template <typename E>
+  static void crash(const E& err) {
+    auto message = best::format("unwrapped a best::err({:?})",
+                                best::make_formattable(err));
+    best::crash_internal::die(best::here, [&](char*, size_t, auto write) {
+      write(message.data(), message.size());
+    });
   }
 };
 }  // namespace result_internal
-- 
2.43.0


From 234bf12b22ab7a619df425eb09032217b2fde57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:56 +0000
Subject: [PATCH 124/158] fix: allow best::Less and co. in constant expressions

---
 best/base/internal/ord.h | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/best/base/internal/ord.h b/best/base/internal/ord.h
index bf7acd9..7205065 100644
--- a/best/base/internal/ord.h
+++ b/best/base/internal/ord.h
@@ -24,27 +24,31 @@
 
 namespace best::ord_internal {
 struct le {
-  operator std::strong_ordering() const { return std::strong_ordering::less; }
-  operator std::partial_ordering() const { return std::partial_ordering::less; }
+  constexpr operator std::strong_ordering() const {
+    return std::strong_ordering::less;
+  }
+  constexpr operator std::partial_ordering() const {
+    return std::partial_ordering::less;
+  }
 };
 struct eq {
-  operator std::strong_ordering() const {
+  constexpr operator std::strong_ordering() const {
     return std::strong_ordering::equivalent;
   }
-  operator std::partial_ordering() const {
+  constexpr operator std::partial_ordering() const {
     return std::partial_ordering::equivalent;
   }
 };
 struct gt {
-  operator std::strong_ordering() const {
+  constexpr operator std::strong_ordering() const {
     return std::strong_ordering::greater;
   }
-  operator std::partial_ordering() const {
+  constexpr operator std::partial_ordering() const {
     return std::partial_ordering::greater;
   }
 };
 struct uo {
-  operator std::partial_ordering() const {
+  constexpr operator std::partial_ordering() const {
     return std::partial_ordering::unordered;
   }
 };
-- 
2.43.0


From f6b299658cbce830106893dafccfc474bb7560fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:28 +0000
Subject: [PATCH 125/158] fix: make best::op::Xor perform an exclusive or

---
 best/meta/internal/ops.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/meta/internal/ops.h b/best/meta/internal/ops.h
index 46aedb9..762db06 100644
--- a/best/meta/internal/ops.h
+++ b/best/meta/internal/ops.h
@@ -43,7 +43,7 @@ BEST_OP_FOLD_CASE_(Rem, %)
 BEST_OP_FOLD_CASE_(AndAnd, &&)
 BEST_OP_FOLD_CASE_(OrOr, ||)
 
-BEST_OP_FOLD_CASE_(Xor, +)
+BEST_OP_FOLD_CASE_(Xor, ^)
 BEST_OP_FOLD_CASE_(And, &)
 BEST_OP_FOLD_CASE_(Or, |)
 BEST_OP_FOLD_CASE_(Shl, <<)
-- 
2.43.0


From f3c00d6de5c906d5e226e52fec4a1dd08f410309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:28 +0000
Subject: [PATCH 126/158] fix: swap the strict and the non-strict comparisons
 of best::op

---
 best/meta/internal/ops.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/best/meta/internal/ops.h b/best/meta/internal/ops.h
index 762db06..76a4a03 100644
--- a/best/meta/internal/ops.h
+++ b/best/meta/internal/ops.h
@@ -51,10 +51,10 @@ BEST_OP_FOLD_CASE_(Shr, >>)
 
 BEST_OP_FOLD_CASE_(Eq, ==)
 BEST_OP_FOLD_CASE_(Ne, !=)
-BEST_OP_FOLD_CASE_(Le, <)
-BEST_OP_FOLD_CASE_(Lt, <=)
-BEST_OP_FOLD_CASE_(Ge, >)
-BEST_OP_FOLD_CASE_(Gt, >=)
+BEST_OP_FOLD_CASE_(Lt, <)
+BEST_OP_FOLD_CASE_(Le, <=)
+BEST_OP_FOLD_CASE_(Gt, >)
+BEST_OP_FOLD_CASE_(Ge, >=)
 
 BEST_OP_FOLD_CASE_(Comma, , )
 
-- 
2.43.0


From 22f4174aaacb456ea71d3f106cb4ebcc9a15967b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:28 +0000
Subject: [PATCH 127/158] fix: replace the updated element of a tlist

---
 best/meta/tlist.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/best/meta/tlist.h b/best/meta/tlist.h
index 3d8d93c..f056aae 100644
--- a/best/meta/tlist.h
+++ b/best/meta/tlist.h
@@ -538,13 +538,13 @@ template <typename... Elems>
 template <size_t n, typename T>
 BEST_TLIST_MUST_USE(update)
 constexpr auto tlist<Elems...>::update() {
-  return splice<bounds{.start = n, .count = 0}, tlist>(best::types<T>);
+  return splice<bounds{.start = n, .count = 1}, tlist>(best::types<T>);
 }
 template <typename... Elems>
 template <size_t n, auto v>
 BEST_TLIST_MUST_USE(update)
 constexpr auto tlist<Elems...>::update() {
-  return splice<bounds{.start = n, .count = 0}, tlist>(best::vals<v>);
+  return splice<bounds{.start = n, .count = 1}, tlist>(best::vals<v>);
 }
 
 template <typename... Elems>
-- 
2.43.0


From 725ca5edd8aa180eee506cac4f38c529c1102da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:28 +0000
Subject: [PATCH 128/158] fix: make tlist::trim_suffix() trim proper suffixes

---
 best/meta/tlist.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/best/meta/tlist.h b/best/meta/tlist.h
index f056aae..739a2fb 100644
--- a/best/meta/tlist.h
+++ b/best/meta/tlist.h
@@ -435,12 +435,14 @@ class tlist final {
   }
   static constexpr void remove_prefix_from(auto) {}
 
-  template <typename... Extra>
-  static constexpr tlist<Extra...> remove_suffix_from(
-    tlist<Extra..., Elems...>) {
-    return {};
+  static constexpr auto remove_suffix_from(best::is_tlist auto list) {
+    if constexpr (list.size() >= size()) {
+      constexpr size_t start = list.size() - size();
+      if constexpr (list.template at<bounds{.start = start}>() == tlist{}) {
+        return list.template at<bounds{.count = start}>();
+      }
+    }
   }
-  static constexpr void remove_suffix_from(auto) {}
 };
 }  // namespace best
 
-- 
2.43.0


From 64a53635af8f3f030932118131fbff9931b2175a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:28 +0000
Subject: [PATCH 129/158] fix: allow mapping a tlist of values with a trait

---
 best/meta/tlist.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/meta/tlist.h b/best/meta/tlist.h
index 739a2fb..181d3df 100644
--- a/best/meta/tlist.h
+++ b/best/meta/tlist.h
@@ -475,7 +475,7 @@ constexpr decltype(auto) tlist<Elems...>::map() {
 template <typename... Elems>
 template <template <auto> typename Trait>
 constexpr decltype(auto) tlist<Elems...>::map() {
-  return types<Trait<Elems::values>...>;
+  return types<Trait<Elems::value>...>;
 }
 
 template <typename... Elems>
-- 
2.43.0


From 67d20a95523d120f72b4bebdaefd8d5d65c52df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:28 +0000
Subject: [PATCH 130/158] fix: allow concatenating constant tlists with +

---
 best/meta/tlist.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/best/meta/tlist.h b/best/meta/tlist.h
index 181d3df..6c32880 100644
--- a/best/meta/tlist.h
+++ b/best/meta/tlist.h
@@ -192,7 +192,9 @@ class tlist final {
   /// `operator+` here is quadratic; you should generally prefer `join()` for
   /// variadic cases.
   static constexpr auto join(best::is_tlist auto... those);
-  auto operator+(best::is_tlist auto that) { return join(that); }
+  constexpr auto operator+(best::is_tlist auto that) const {
+    return join(that);
+  }
 
   /// # `tlist::push()`
   ///
-- 
2.43.0


From 5c5b598fcd541c89bdd4882af8c2a5980d3235ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:28 +0000
Subject: [PATCH 131/158] fix: return the default of tlist::value when out of
 bounds

---
 best/meta/tlist.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/best/meta/tlist.h b/best/meta/tlist.h
index 6c32880..cfc4033 100644
--- a/best/meta/tlist.h
+++ b/best/meta/tlist.h
@@ -170,9 +170,10 @@ class tlist final {
   /// Produces an SFINAE error when out-of-bounds, unless `default_` is
   /// specified, in which case that is returned instead.
   template <size_t n, auto default_ = strict{}>
+  requires (n < size() || tlist_internal::not_strict<decltype(default_)>)
   static constexpr auto value =
     type<n, best::select<tlist_internal::not_strict<decltype(default_)>,
-                         tlist_internal::strict, val<default_>>>::value;
+                         val<default_>, tlist_internal::strict>>::value;
 
   /// # `tlist::at()`
   ///
-- 
2.43.0


From 1384b85fccea91a1558faf1c2d267707de36d7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:28 +0000
Subject: [PATCH 132/158] fix: discard out-of-bounds writes of tlist::scatter()

---
 best/meta/internal/tlist.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/best/meta/internal/tlist.h b/best/meta/internal/tlist.h
index 2c3059c..e71bcfd 100644
--- a/best/meta/internal/tlist.h
+++ b/best/meta/internal/tlist.h
@@ -177,12 +177,11 @@ using gather = decltype(gather_impl<Default, i...>(best::lie<Pack>));
 
 template <size_t... i, size_t... j, typename... Ts,
           typename... Us>
-requires ((i < sizeof...(Ts)) && ...)  // Fast path for no out-of-bounds.
 auto scatter_impl(std::index_sequence<j...>, tlist<Ts...>, tlist<Us...>) {
   constexpr auto lut = [] {
     std::array<size_t, sizeof...(Ts)> lut{(j - j)...};
-    size_t n = 1;
-    ((i < lut.size() ? lut[i] = n++ : 0), ...);
+    size_t n = 0;
+    ((++n, i < lut.size() ? lut[i] = n : 0), ...);
     return lut;
   }();
 
-- 
2.43.0


From 65cb2a0144bb2383103ee9b4b91ffae5e7e6e0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:28 +0000
Subject: [PATCH 133/158] fix: allow searching an empty tlist

---
 best/meta/tlist.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/best/meta/tlist.h b/best/meta/tlist.h
index cfc4033..f9db178 100644
--- a/best/meta/tlist.h
+++ b/best/meta/tlist.h
@@ -313,7 +313,8 @@ class tlist final {
     return find([]<typename U> { return Trait<U>::value; });
   }
   static constexpr auto find(auto value)
-    requires (best::equatable<decltype(value), decltype(Elems::value)> && ...)
+    requires (!tlist_internal::t_callable<decltype(value), Elems...> &&
+              (best::equatable<decltype(value), decltype(Elems::value)> && ...))
   {
     return find([&](auto that) { return value == that.value; });
   }
@@ -346,7 +347,8 @@ class tlist final {
     return find_unique([]<typename U> { return Trait<U>::value; });
   }
   static constexpr auto find_unique(auto value)
-    requires (best::equatable<decltype(value), decltype(Elems::value)> && ...)
+    requires (!tlist_internal::t_callable<decltype(value), Elems...> &&
+              (best::equatable<decltype(value), decltype(Elems::value)> && ...))
   {
     return find_unique([&](auto that) { return value == that.value; });
   }
-- 
2.43.0


From 6dfb47c73682f84a8c3cd49b3003bde8851f0059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:28 +0000
Subject: [PATCH 134/158] fix: make out-of-bounds tlist operations SFINAE
 errors

---
 best/meta/tlist.h | 54 +++++++++++++++++++++++++++++++++--------------
 1 file changed, 38 insertions(+), 16 deletions(-)

diff --git a/best/meta/tlist.h b/best/meta/tlist.h
index f9db178..996116c 100644
--- a/best/meta/tlist.h
+++ b/best/meta/tlist.h
@@ -183,7 +183,8 @@ class tlist final {
   /// Produces an SFINAE error when out-of-bounds, unless `Default` is
   /// specified, in which case that is returned instead.
   template <best::bounds bounds, typename Default = strict>
-  static constexpr auto at();
+  static constexpr auto at()
+    -> tlist_internal::slice<bounds, Default, tlist>;
 
   /// # `tlist::join()`, `tlist::operator+`
   ///
@@ -212,9 +213,13 @@ class tlist final {
   /// Produces an SFINAE error when out-of-bounds, unless `Default` is
   /// specified, in which case that is returned instead.
   template <size_t n, typename T, typename Default = strict>
-  static constexpr auto insert();
+  static constexpr auto insert()
+    -> tlist_internal::splice<bounds{.start = n, .count = 0}, Default, tlist,
+                              tlist<T>>;
   template <size_t n, auto v, typename Default = strict>
-  static constexpr auto insert();
+  static constexpr auto insert()
+    -> tlist_internal::splice<bounds{.start = n, .count = 0}, Default, tlist,
+                              vlist<v>>;
 
   /// # `tlist::update()`
   ///
@@ -234,7 +239,8 @@ class tlist final {
   /// Produces an SFINAE error when out-of-bounds, unless `Default` is
   /// specified, in which case that is returned instead.
   template <best::bounds bounds, typename Default = strict>
-  static constexpr auto splice(best::is_tlist auto that);
+  static constexpr auto splice(best::is_tlist auto that)
+    -> tlist_internal::splice<bounds, Default, tlist, decltype(that)>;
 
   /// # `tlist::remove()`
   ///
@@ -243,7 +249,9 @@ class tlist final {
   /// Produces an SFINAE error when out-of-bounds, unless `Default` is
   /// specified.
   template <size_t n, typename Default = strict>
-  static constexpr auto remove();
+  static constexpr auto remove()
+    -> tlist_internal::splice<bounds{.start = n, .count = 1}, Default, tlist,
+                              tlist<>>;
 
   /// # `tlist::erase()`
   ///
@@ -253,7 +261,8 @@ class tlist final {
   /// Produces an SFINAE error when out-of-bounds, unless `Default` is
   /// specified.
   template <best::bounds bounds, typename Default = strict>
-  static constexpr auto erase();
+  static constexpr auto erase()
+    -> tlist_internal::splice<bounds, Default, tlist, tlist<>>;
 
   /// # `tlist::gather()`
   ///
@@ -262,9 +271,11 @@ class tlist final {
   /// Produces an SFINAE error when out-of-bounds, unless `Default` is
   /// specified.
   template <size_t... ns>
-  static constexpr auto gather();
+  static constexpr auto gather()
+    -> tlist_internal::gather<strict, tlist, ns...>;
   template <typename Default, size_t... ns>
-  static constexpr auto gather();
+  static constexpr auto gather()
+    -> tlist_internal::gather<Default, tlist, ns...>;
 
   /// # `tlist::scatter()`
   ///
@@ -485,7 +496,8 @@ constexpr decltype(auto) tlist<Elems...>::map() {
 
 template <typename... Elems>
 template <best::bounds bounds, typename Default>
-constexpr auto tlist<Elems...>::at() {
+constexpr auto tlist<Elems...>::at()
+  -> tlist_internal::slice<bounds, Default, tlist> {
   return tlist_internal::slice<bounds, Default, tlist>{};
 }
 
@@ -505,31 +517,38 @@ constexpr auto tlist<Elems...>::push() {
 template <typename... Elems>
 template <size_t n, typename T, typename Default>
 BEST_TLIST_MUST_USE(insert)
-constexpr auto tlist<Elems...>::insert() {
+constexpr auto tlist<Elems...>::insert()
+  -> tlist_internal::splice<bounds{.start = n, .count = 0}, Default, tlist,
+                            tlist<T>> {
   return splice<bounds{.start = n, .count = 0}, Default>(best::types<T>);
 }
 template <typename... Elems>
 template <size_t n, auto v, typename Default>
 BEST_TLIST_MUST_USE(insert)
-constexpr auto tlist<Elems...>::insert() {
+constexpr auto tlist<Elems...>::insert()
+  -> tlist_internal::splice<bounds{.start = n, .count = 0}, Default, tlist,
+                            vlist<v>> {
   return splice<bounds{.start = n, .count = 0}, Default>(best::vals<v>);
 }
 
 template <typename... Elems>
 template <best::bounds bounds, typename Default>
 BEST_TLIST_MUST_USE(splice)
-constexpr auto tlist<Elems...>::splice(best::is_tlist auto that) {
+constexpr auto tlist<Elems...>::splice(best::is_tlist auto that)
+  -> tlist_internal::splice<bounds, Default, tlist, decltype(that)> {
   return tlist_internal::splice<bounds, Default, tlist, decltype(that)>{};
 }
 
 template <typename... Elems>
 template <size_t... ns>
-constexpr auto tlist<Elems...>::gather() {
+constexpr auto tlist<Elems...>::gather()
+  -> tlist_internal::gather<strict, tlist, ns...> {
   return tlist_internal::gather<best::tlist_internal::strict, tlist, ns...>{};
 }
 template <typename... Elems>
 template <typename Default, size_t... ns>
-constexpr auto tlist<Elems...>::gather() {
+constexpr auto tlist<Elems...>::gather()
+  -> tlist_internal::gather<Default, tlist, ns...> {
   return tlist_internal::gather<Default, tlist, ns...>{};
 }
 
@@ -557,14 +576,17 @@ constexpr auto tlist<Elems...>::update() {
 template <typename... Elems>
 template <size_t n, typename Default>
 BEST_TLIST_MUST_USE(remove)
-constexpr auto tlist<Elems...>::remove() {
+constexpr auto tlist<Elems...>::remove()
+  -> tlist_internal::splice<bounds{.start = n, .count = 1}, Default, tlist,
+                            tlist<>> {
   return splice<bounds{.start = n, .count = 1}, Default>(best::types<>);
 }
 
 template <typename... Elems>
 template <best::bounds bounds, typename Default>
 BEST_TLIST_MUST_USE(erase)
-constexpr auto tlist<Elems...>::erase() {
+constexpr auto tlist<Elems...>::erase()
+  -> tlist_internal::splice<bounds, Default, tlist, tlist<>> {
   return splice<bounds, Default>(best::types<>);
 }
 
-- 
2.43.0


From 26d29cfd10225d767231469fd646a75a4f9363d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:19 +0000
Subject: [PATCH 135/158] fix: allow ordering ptrs against nullptr

---
 best/memory/ptr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/memory/ptr.h b/best/memory/ptr.h
index 7eaaebf..5a8e227 100644
--- a/best/memory/ptr.h
+++ b/best/memory/ptr.h
@@ -893,7 +893,7 @@ constexpr bool ptr<T>::operator==(U* that) const requires thin
 
 template <typename T>
 constexpr best::ord ptr<T>::operator<=>(std::nullptr_t) const {
-  return raw() <=> nullptr;
+  return best::compare(raw(), static_cast<pointee*>(nullptr));
 }
 template <typename T>
 template <typename U>
-- 
2.43.0


From 98a5e646eb6b12ccd8670e316aeb074f1f2e0f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:19 +0000
Subject: [PATCH 136/158] fix: allow constructing arrays from spans through ptr

---
 best/memory/internal/ptr.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/best/memory/internal/ptr.h b/best/memory/internal/ptr.h
index c819125..50c4d8f 100644
--- a/best/memory/internal/ptr.h
+++ b/best/memory/internal/ptr.h
@@ -233,9 +233,9 @@ class array_meta<T[len]> {
     for (size_t i = 0; i < len; ++i) {
       best::ptr next = best::addr((*dst)[i]);
       if (assign) {
-        next.assign(s.data()[i]);
+        next.assign(s[i]);
       } else {
-        next.construct(s.data()[i]);
+        next.construct(s[i]);
       }
     }
   }
-- 
2.43.0


From 8ec721c11d01ab1b771a6f8a9ecf6c5af1258aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:19 +0000
Subject: [PATCH 137/158] fix: treat adding const to the elements of an array
 ptr as lossless

---
 best/memory/internal/ptr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/memory/internal/ptr.h b/best/memory/internal/ptr.h
index 50c4d8f..dec1ad3 100644
--- a/best/memory/internal/ptr.h
+++ b/best/memory/internal/ptr.h
@@ -210,7 +210,7 @@ class array_meta<T[len]> {
 
   template <typename P>
   constexpr explicit(
-    !best::same<best::un_qual<typename P::type>, best::un_qual<T>>)
+    !best::same<best::un_qual<typename P::type>, best::un_qual<type>>)
     array_meta(best::tlist<P>, const typename P::metadata&)
       requires best::convertible<pointee*, typename P::pointee*>
   {}
-- 
2.43.0


From bd8b8ec9aea5c5d0361d25623a80a7da2b6ec106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:19 +0000
Subject: [PATCH 138/158] fix: allow copying references and functions through
 ptr

---
 best/memory/ptr.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/best/memory/ptr.h b/best/memory/ptr.h
index 5a8e227..952b089 100644
--- a/best/memory/ptr.h
+++ b/best/memory/ptr.h
@@ -981,17 +981,22 @@ BEST_INLINE_SYNTHETIC constexpr void ptr<T>::copy_impl(ptr<U> that,
   if constexpr (how.template can_memcpy<U>()) {
     if (how.should_memcpy()) {
       auto len = count * sizeof(pointee);
+      // The pointee of a pointer to a reference or function type is const.
+      void* dst = const_cast<best::un_qual<pointee>*>(raw());
       if constexpr (how.overlapping) {
-        best::ptr_internal::memmove(raw(), that.raw(), len);
+        best::ptr_internal::memmove(dst, that.raw(), len);
       } else {
-        best::ptr_internal::memcpy(raw(), that.raw(), len);
+        best::ptr_internal::memcpy(dst, that.raw(), len);
       }
 
       // Even when relocating we shouldn't run destructors here. However, we
       // can still clobber the moved-from bytes.
       if constexpr (how.kind == how::Relo) {
         if (!std::is_constant_evaluated() && best::is_debug()) {
-          best::ptr_internal::memset(that.raw(), Magic, len);
+          best::ptr_internal::memset(
+            const_cast<best::un_qual<typename best::ptr<U>::pointee>*>(
+              that.raw()),
+            Magic, len);
         }
       }
 
@@ -1044,7 +1049,8 @@ BEST_INLINE_ALWAYS constexpr void ptr<T>::relo_overlapping(ptr<T> that,
   if constexpr (how.template can_memcpy<T>()) {
     if (how.should_memcpy()) {
       auto len = count * sizeof(pointee);
-      best::ptr_internal::memmove(raw(), that.raw(), len);
+      best::ptr_internal::memmove(const_cast<best::un_qual<pointee>*>(raw()),
+                                  that.raw(), len);
       return;
     }
   }
-- 
2.43.0


From 5a02822384272413fc0aed65f7106a879ad9626a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:19 +0000
Subject: [PATCH 139/158] fix: destroy the values overwritten by
 ptr::relo_assign()

---
 best/memory/ptr.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/best/memory/ptr.h b/best/memory/ptr.h
index 952b089..160be03 100644
--- a/best/memory/ptr.h
+++ b/best/memory/ptr.h
@@ -981,6 +981,11 @@ BEST_INLINE_SYNTHETIC constexpr void ptr<T>::copy_impl(ptr<U> that,
   if constexpr (how.template can_memcpy<U>()) {
     if (how.should_memcpy()) {
       auto len = count * sizeof(pointee);
+      // Relocation may use memcpy() for types that have destructors; those of the
+      // overwritten values must still run.
+      if constexpr (how.assign && !best::destructible<T, trivially>) {
+        for (size_t i = 0; i < count; ++i) { offset(i).destroy(); }
+      }
       // The pointee of a pointer to a reference or function type is const.
       void* dst = const_cast<best::un_qual<pointee>*>(raw());
       if constexpr (how.overlapping) {
-- 
2.43.0


From 34d317ec29d3d76f04d252459a1882283e93c589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:31 +0000
Subject: [PATCH 140/158] fix: copy references and arrays when copying a pun

---
 best/container/internal/pun.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/best/container/internal/pun.h b/best/container/internal/pun.h
index e081760..dd1266c 100644
--- a/best/container/internal/pun.h
+++ b/best/container/internal/pun.h
@@ -39,12 +39,12 @@ struct info_t {
 };
 template <typename... Ts>
 inline constexpr info_t info = {
-  ((std::is_void_v<Ts> || std::is_trivially_default_constructible_v<Ts>)&&...),
-  ((std::is_void_v<Ts> || std::is_trivially_copyable_v<Ts>)&&...),
-  ((std::is_void_v<Ts> || (std::is_trivially_move_constructible_v<Ts> &&
-                           std::is_trivially_move_assignable_v<Ts>)) &&
+  (std::is_trivially_default_constructible_v<best::object<Ts>> && ...),
+  (std::is_trivially_copyable_v<best::object<Ts>> && ...),
+  ((std::is_trivially_move_constructible_v<best::object<Ts>> &&
+    std::is_trivially_move_assignable_v<best::object<Ts>>) &&
    ...),
-  ((std::is_void_v<Ts> || std::is_trivially_destructible_v<Ts>)&&...),
+  (std::is_trivially_destructible_v<best::object<Ts>> && ...),
 };
 
 // A raw union.
-- 
2.43.0


From f3aebd45029ba48ba4d500888bb6b6a44b4cbb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:31 +0000
Subject: [PATCH 141/158] fix: allow moving arrays of move-only objects through
 ptr

---
 best/memory/internal/ptr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/memory/internal/ptr.h b/best/memory/internal/ptr.h
index dec1ad3..dc26d2e 100644
--- a/best/memory/internal/ptr.h
+++ b/best/memory/internal/ptr.h
@@ -254,7 +254,7 @@ class array_meta<T[len]> {
   }
   template <typename U>
   constexpr void construct(pointee* dst, bool assign, U (&&s)[len]) const
-    requires best::constructible<T, U&>
+    requires best::constructible<T, U&&>
   {
     for (size_t i = 0; i < len; ++i) {
       best::ptr next = best::addr((*dst)[i]);
-- 
2.43.0


From d2b0e0aa0f3a264afb57268de1418bdfcbda97f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:20 +0000
Subject: [PATCH 142/158] fix: do not construct the elements of an object<T[n]>
 twice

---
 best/container/object.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/best/container/object.h b/best/container/object.h
index f1cd2d5..d80904b 100644
--- a/best/container/object.h
+++ b/best/container/object.h
@@ -98,7 +98,12 @@ class object final {
     requires best::constructible<T, Args&&...> &&
              (!best::is_object<T> || std::is_array_v<T>)
   {
-    as_ptr().construct(BEST_FWD(args)...);
+    if constexpr (std::is_array_v<T>) {
+      // The elements of the array have been default-constructed already.
+      as_ptr().assign(BEST_FWD(args)...);
+    } else {
+      as_ptr().construct(BEST_FWD(args)...);
+    }
   }
   template <typename... Args>
   constexpr explicit object(best::in_place_t, Args&&... args)
-- 
2.43.0


From 49da3289a44ace1b08f3fcfad6235ea35ef6f52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:26 +0000
Subject: [PATCH 143/158] fix: do not swap best::is_open and best::is_final

---
 best/meta/traits/classes.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/best/meta/traits/classes.h b/best/meta/traits/classes.h
index 661ce0e..6340bf3 100644
--- a/best/meta/traits/classes.h
+++ b/best/meta/traits/classes.h
@@ -68,14 +68,14 @@ concept is_concrete = !best::is_abstract<T>;
 ///
 /// Identifies a type that can be used as a base class.
 template <typename T>
-concept is_open = std::is_final_v<T> && std::is_class_v<T>;
+concept is_open = std::is_class_v<T> && !std::is_final_v<T>;
 
 /// # `best::is_final`
 ///
 /// Identifies a type that cannot be used as a base class. This includes both
 /// `final` class types and non-class types.
 template <typename T>
-concept is_final = !std::is_final_v<T>;
+concept is_final = !best::is_open<T>;
 
 /// # `best::derives`
 ///
-- 
2.43.0


From 0653e7ba1f6c46f25a0614bf55e76bc0cb43c625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:26 +0000
Subject: [PATCH 144/158] fix: make best::same<T> true, as documented

---
 best/meta/traits/internal/types.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/best/meta/traits/internal/types.h b/best/meta/traits/internal/types.h
index e3f2088..b0b69d2 100644
--- a/best/meta/traits/internal/types.h
+++ b/best/meta/traits/internal/types.h
@@ -70,6 +70,11 @@ struct same<> {
   static constexpr bool value = true;
 };
 
+template <typename A>
+struct same<A> {
+  static constexpr bool value = true;
+};
+
 template <typename A>
 struct same<A, A> {
   static constexpr bool value = true;
-- 
2.43.0


From cd16db4d6c3bf055b3c1ea1c854732bda60359d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:26 +0000
Subject: [PATCH 145/158] fix: report the right reference qualifiers of
 volatile functions

---
 best/meta/traits/internal/funcs.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/best/meta/traits/internal/funcs.h b/best/meta/traits/internal/funcs.h
index 21ee49d..4777f4d 100644
--- a/best/meta/traits/internal/funcs.h
+++ b/best/meta/traits/internal/funcs.h
@@ -47,9 +47,9 @@ BEST_TAME_(0, 0, 0, 1, &&);
 BEST_TAME_(1, 0, 0, 0, const);
 BEST_TAME_(1, 0, 1, 0, const&);
 BEST_TAME_(1, 0, 0, 1, const&&);
-BEST_TAME_(0, 1, 1, 0, volatile);
-BEST_TAME_(0, 1, 0, 1, volatile&);
-BEST_TAME_(0, 1, 0, 0, volatile&&);
+BEST_TAME_(0, 1, 0, 0, volatile);
+BEST_TAME_(0, 1, 1, 0, volatile&);
+BEST_TAME_(0, 1, 0, 1, volatile&&);
 BEST_TAME_(1, 1, 0, 0, const volatile);
 BEST_TAME_(1, 1, 1, 0, const volatile&);
 BEST_TAME_(1, 1, 0, 1, const volatile&&);
-- 
2.43.0


From 4c42cf7662dd66724d3cc697a4417542f12e1dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:26 +0000
Subject: [PATCH 146/158] fix: do not copy an rvalue reference as a qualifier

---
 best/meta/traits/internal/quals.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/meta/traits/internal/quals.h b/best/meta/traits/internal/quals.h
index 51cbbb6..3a7bf64 100644
--- a/best/meta/traits/internal/quals.h
+++ b/best/meta/traits/internal/quals.h
@@ -143,7 +143,7 @@ struct refs<Dst, Src&> {
   using copied = std::add_lvalue_reference_t<typename quals<Dst, Src>::copied>;
 };
 template <typename Dst, typename Src>
-struct quals<Dst, Src&&> {
+struct refs<Dst, Src&&> {
   using copied = std::add_rvalue_reference_t<typename quals<Dst, Src>::copied>;
 };
 }  // namespace best::traits_internal
-- 
2.43.0


From 7de2e1538232e3e8b8b810b9e92f3829ac6be63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:26 +0000
Subject: [PATCH 147/158] fix: check array conversions from the source to the
 target

---
 best/meta/internal/init.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/best/meta/internal/init.h b/best/meta/internal/init.h
index 288035a..e024a9d 100644
--- a/best/meta/internal/init.h
+++ b/best/meta/internal/init.h
@@ -154,28 +154,28 @@ void conv(tag<T>, tag<trivially>, tag<Arg>)
            requires { ctor(tag<T>{}, tag<trivially>{}, tag<Arg>()); };
 
 template <best::is_object T, best::is_object U, size_t n>
-void conv(tag<T[n]>, tag<U[n]>) requires std::is_convertible_v<T, U>;
+void conv(tag<T[n]>, tag<U[n]>) requires std::is_convertible_v<U, T>;
 
 template <best::is_object T, best::is_object U, size_t n>
 void conv(tag<T[n]>, tag<trivially>, tag<U[n]>)
-  requires std::is_convertible_v<T, U> &&
+  requires std::is_convertible_v<U, T> &&
            requires { ctor(tag<T>{}, tag<trivially>{}, tag<U>()); };
 
 template <best::is_object T, best::is_object U, size_t n>
-void conv(tag<T[n]>, tag<U (&)[n]>) requires std::is_convertible_v<T, U&>;
+void conv(tag<T[n]>, tag<U (&)[n]>) requires std::is_convertible_v<U&, T>;
 
 template <best::is_object T, best::is_object U, size_t n>
 void conv(tag<T[n]>, tag<trivially>, tag<U (&)[n]>)
-  requires std::is_convertible_v<T, U> &&
-           requires { ctor(tag<T>{}, tag<trivially>{}, tag<U>()); };
+  requires std::is_convertible_v<U&, T> &&
+           requires { ctor(tag<T>{}, tag<trivially>{}, tag<U&>()); };
 
 template <best::is_object T, best::is_object U, size_t n>
-void conv(tag<T[n]>, tag<U (&&)[n]>) requires std::is_convertible_v<T, U&&>;
+void conv(tag<T[n]>, tag<U (&&)[n]>) requires std::is_convertible_v<U&&, T>;
 
 template <best::is_object T, best::is_object U, size_t n>
 void conv(tag<T[n]>, tag<trivially>, tag<U (&&)[n]>)
-  requires std::is_convertible_v<T, U> &&
-           requires { ctor(tag<T>{}, tag<trivially>{}, tag<U>()); };
+  requires std::is_convertible_v<U&&, T> &&
+           requires { ctor(tag<T>{}, tag<trivially>{}, tag<U&&>()); };
 
 template <typename T, typename Arg>
 void conv(tag<T>, tag<Arg>)
-- 
2.43.0


From 3e05471080accca15131eb752f987a84e3b89dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:18 +0000
Subject: [PATCH 148/158] fix: make best::shape_of usable with array types

---
 best/meta/traits/arrays.h | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/best/meta/traits/arrays.h b/best/meta/traits/arrays.h
index ba20be5..2794db2 100644
--- a/best/meta/traits/arrays.h
+++ b/best/meta/traits/arrays.h
@@ -81,7 +81,8 @@ inline constexpr auto shape_of = [] {
       dims[0] = -1;
     }
 
-    return best::shape<T, inner.rank() + 1>(dims);
+    return best::shape<typename decltype(inner)::element, inner.rank() + 1>(
+      dims);
   }
 }();
 
@@ -90,7 +91,7 @@ inline constexpr auto shape_of = [] {
 /// Static information about the shape of a multi-dimensional array type.
 template <typename T, size_t rank_>
 class shape {
-  using span = best::span<best::dependent<size_t, T>, rank_>;
+  using span = best::span<const best::dependent<size_t, T>, rank_>;
 
  public:
   /// # `shape::element`
@@ -112,19 +113,27 @@ class shape {
   ///
   /// Constructs a new shape with the given dimensions.
   constexpr explicit shape(span dims) {
-    if constexpr (rank() > 0) { span(dims_).emplace_from(dims); }
+    if constexpr (rank() > 0) {
+      for (size_t i = 0; i < rank(); ++i) { dims_[i] = dims[i]; }
+    }
   }
 
   /// # `shape::is_unsized()`
   ///
   /// Returns whether this is an unsized shape (i.e., the outermost dimension
   /// is -1).
-  constexpr bool is_unsized() const { return rank() > 0 && dims()[0] == 0; }
+  constexpr bool is_unsized() const {
+    if constexpr (rank() == 0) {
+      return false;
+    } else {
+      return dims()[0] == size_t(-1);
+    }
+  }
 
   /// # `shape::dims()`
   ///
   /// The dimensions for this shape, from outermost to innermost. If this is
-  /// the shape of an unsized array, `dims()[0]` will be zero.
+  /// the shape of an unsized array, `dims()[0]` will be -1.
   constexpr span dims() const {
     if constexpr (rank() == 0) {
       return {};
-- 
2.43.0


From 0ce9a5decac7b890409466258c3b4fa8cab295fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:44 +0000
Subject: [PATCH 149/158] fix: best::call must accept rvalue-qualified
 functions, as std::invoke does

The constraints called the function as an lvalue although the body forwards it.
---
 best/func/internal/call.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/best/func/internal/call.h b/best/func/internal/call.h
index c8ad2d0..f21f6d9 100644
--- a/best/func/internal/call.h
+++ b/best/func/internal/call.h
@@ -38,7 +38,7 @@ BEST_INLINE_SYNTHETIC constexpr decltype(auto) call(
   best::is_func auto Class::*member, auto&& self, auto&&... args)
   requires requires {
     requires sizeof...(Ts) == 0;
-    (self.*member)(BEST_FWD(args)...);
+    (BEST_FWD(self).*member)(BEST_FWD(args)...);
   }
 {
   return (BEST_FWD(self).*member)(BEST_FWD(args)...);
@@ -77,7 +77,7 @@ template <typename... Args>
 BEST_INLINE_SYNTHETIC constexpr decltype(auto) call(auto&& func, auto&&... args)
   requires requires {
     requires sizeof...(Args) == 0;
-    func(BEST_FWD(args)...);
+    BEST_FWD(func)(BEST_FWD(args)...);
   }
 {
   return BEST_FWD(func)(BEST_FWD(args)...);
@@ -86,7 +86,7 @@ template <typename... Args>
 BEST_INLINE_SYNTHETIC constexpr decltype(auto) call(auto&& func, auto&&... args)
   requires requires {
     requires sizeof...(Args) > 0;
-    func.template operator()<Args...>(BEST_FWD(args)...);
+    BEST_FWD(func).template operator()<Args...>(BEST_FWD(args)...);
   }
 {
   return BEST_FWD(func).template operator()<Args...>(BEST_FWD(args)...);
@@ -96,7 +96,7 @@ template <auto... targs>
 BEST_INLINE_SYNTHETIC constexpr decltype(auto) call(auto&& func, auto&&... args)
   requires requires {
     requires sizeof...(targs) > 0;
-    func.template operator()<targs...>(BEST_FWD(args)...);
+    BEST_FWD(func).template operator()<targs...>(BEST_FWD(args)...);
   }
 {
   return BEST_FWD(func).template operator()<targs...>(BEST_FWD(args)...);
-- 
2.43.0


From a76467da9acd98e585f071528c740d08253974d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:49 +0000
Subject: [PATCH 150/158] fix: is_lref_func and is_rref_func must recognise &
 noexcept and && noexcept functions

---
 best/meta/traits/internal/funcs.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/best/meta/traits/internal/funcs.h b/best/meta/traits/internal/funcs.h
index 4777f4d..8a6fd7d 100644
--- a/best/meta/traits/internal/funcs.h
+++ b/best/meta/traits/internal/funcs.h
@@ -54,8 +54,8 @@ BEST_TAME_(1, 1, 0, 0, const volatile);
 BEST_TAME_(1, 1, 1, 0, const volatile&);
 BEST_TAME_(1, 1, 0, 1, const volatile&&);
 BEST_TAME_(0, 0, 0, 0, noexcept);
-BEST_TAME_(0, 0, 0, 0, & noexcept);
-BEST_TAME_(0, 0, 0, 0, && noexcept);
+BEST_TAME_(0, 0, 1, 0, & noexcept);
+BEST_TAME_(0, 0, 0, 1, && noexcept);
 BEST_TAME_(1, 0, 0, 0, const noexcept);
 BEST_TAME_(1, 0, 1, 0, const& noexcept);
 BEST_TAME_(1, 0, 0, 1, const&& noexcept);
-- 
2.43.0


From fb9581bf8498c73c1507ab0012a7d8293c6a3491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:49 +0000
Subject: [PATCH 151/158] fix: best::trivially must not count as a constructor
 argument

box(unsafe, ptr) accepts (trivially, box), since unsafe is made from anything,
so best::move_constructible<best::box<int>, best::trivially> was true.
---
 best/meta/internal/init.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/best/meta/internal/init.h b/best/meta/internal/init.h
index e024a9d..9582705 100644
--- a/best/meta/internal/init.h
+++ b/best/meta/internal/init.h
@@ -48,7 +48,9 @@ struct tag {};
 // ========================================================================== //
 
 template <best::is_object T, typename... Args>
-void ctor(tag<T>, tag<Args>...) requires std::is_constructible_v<T, Args...>;
+void ctor(tag<T>, tag<Args>...)
+  requires (!std::is_same_v<Args, trivially> && ...) &&
+           std::is_constructible_v<T, Args...>;
 
 template <best::is_object T, typename... Args>
 void ctor(tag<T>, tag<trivially>, tag<Args>...)
-- 
2.43.0


From a1f0c00fb6d6a4cd09bbdf3556d9b38cd626cc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:04 +0000
Subject: [PATCH 152/158] fix: tests registered before test.cc is initialized
 must not be lost

The registry was a dynamically initialized global: tests of translation units
linked before test.cc were pushed into it before its constructor ran, and
silently forgotten.
---
 best/test/test.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/best/test/test.cc b/best/test/test.cc
index ea2dea4..236f068 100644
--- a/best/test/test.cc
+++ b/best/test/test.cc
@@ -28,7 +28,12 @@
 
 namespace best {
 namespace {
-best::vec<best::test*> all_tests;
+// Tests are globals of any translation unit, so this must exist before the first
+// of them is initialized, whatever the link order.
+best::vec<best::test*>& all_tests() {
+  static auto* tests = new best::vec<best::test*>();
+  return *tests;
+}
 
 best::str symbol_name(const void* ptr, best::location loc) {
   ::Dl_info di;
@@ -56,7 +61,7 @@ inline constexpr best::str Red = "\N{ESCAPE}[31m";
 }  // namespace
 
 void test::init() {
-  all_tests.push(this);
+  all_tests().push(this);
   name_ = symbol_name(this, where());
 }
 
@@ -66,11 +71,11 @@ bool test::run_all(const flags& flags) {
   for (auto arg : best::app::argv()) { best::eprint(" {}", arg); }
 
   best::eprintln();
-  best::eprintln("executing {} test(s)\n", all_tests.size());
+  best::eprintln("executing {} test(s)\n", all_tests().size());
 
   best::vec<best::test*> successes;
   best::vec<best::test*> failures;
-  for (auto* test : all_tests) {
+  for (auto* test : all_tests()) {
     for (const auto& skip : flags.skip) {
       if (test->name().contains(skip)) { goto skip; }
     }
-- 
2.43.0


From 714352b94799d8487f1f2d99367f9d0ee6d08b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:35 +0000
Subject: [PATCH 153/158] fix: BEST_REMOVE_TRAILING_COMMA must keep a lone
 argument

---
 best/base/internal/macro.inc | 2 +-
 best/base/internal/macro.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/best/base/internal/macro.inc b/best/base/internal/macro.inc
index 9d7944c..cf2e3ff 100644
--- a/best/base/internal/macro.inc
+++ b/best/base/internal/macro.inc
@@ -129,7 +129,7 @@
 #define BEST_IMAP_64_(MACRO, sep_, _0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, _29, _30, _31, _32, _33, _34, _35, _36, _37, _38, _39, _40, _41, _42, _43, _44, _45, _46, _47, _48, _49, _50, _51, _52, _53, _54, _55, _56, _57, _58, _59, _60, _61) MACRO(0, _0) BEST_REMOVE_PARENS(sep_)  MACRO(1, _1) BEST_REMOVE_PARENS(sep_)  MACRO(2, _2) BEST_REMOVE_PARENS(sep_)  MACRO(3, _3) BEST_REMOVE_PARENS(sep_)  MACRO(4, _4) BEST_REMOVE_PARENS(sep_)  MACRO(5, _5) BEST_REMOVE_PARENS(sep_)  MACRO(6, _6) BEST_REMOVE_PARENS(sep_)  MACRO(7, _7) BEST_REMOVE_PARENS(sep_)  MACRO(8, _8) BEST_REMOVE_PARENS(sep_)  MACRO(9, _9) BEST_REMOVE_PARENS(sep_)  MACRO(10, _10) BEST_REMOVE_PARENS(sep_)  MACRO(11, _11) BEST_REMOVE_PARENS(sep_)  MACRO(12, _12) BEST_REMOVE_PARENS(sep_)  MACRO(13, _13) BEST_REMOVE_PARENS(sep_)  MACRO(14, _14) BEST_REMOVE_PARENS(sep_)  MACRO(15, _15) BEST_REMOVE_PARENS(sep_)  MACRO(16, _16) BEST_REMOVE_PARENS(sep_)  MACRO(17, _17) BEST_REMOVE_PARENS(sep_)  MACRO(18, _18) BEST_REMOVE_PARENS(sep_)  MACRO(19, _19) BEST_REMOVE_PARENS(sep_)  MACRO(20, _20) BEST_REMOVE_PARENS(sep_)  MACRO(21, _21) BEST_REMOVE_PARENS(sep_)  MACRO(22, _22) BEST_REMOVE_PARENS(sep_)  MACRO(23, _23) BEST_REMOVE_PARENS(sep_)  MACRO(24, _24) BEST_REMOVE_PARENS(sep_)  MACRO(25, _25) BEST_REMOVE_PARENS(sep_)  MACRO(26, _26) BEST_REMOVE_PARENS(sep_)  MACRO(27, _27) BEST_REMOVE_PARENS(sep_)  MACRO(28, _28) BEST_REMOVE_PARENS(sep_)  MACRO(29, _29) BEST_REMOVE_PARENS(sep_)  MACRO(30, _30) BEST_REMOVE_PARENS(sep_)  MACRO(31, _31) BEST_REMOVE_PARENS(sep_)  MACRO(32, _32) BEST_REMOVE_PARENS(sep_)  MACRO(33, _33) BEST_REMOVE_PARENS(sep_)  MACRO(34, _34) BEST_REMOVE_PARENS(sep_)  MACRO(35, _35) BEST_REMOVE_PARENS(sep_)  MACRO(36, _36) BEST_REMOVE_PARENS(sep_)  MACRO(37, _37) BEST_REMOVE_PARENS(sep_)  MACRO(38, _38) BEST_REMOVE_PARENS(sep_)  MACRO(39, _39) BEST_REMOVE_PARENS(sep_)  MACRO(40, _40) BEST_REMOVE_PARENS(sep_)  MACRO(41, _41) BEST_REMOVE_PARENS(sep_)  MACRO(42, _42) BEST_REMOVE_PARENS(sep_)  MACRO(43, _43) BEST_REMOVE_PARENS(sep_)  MACRO(44, _44) BEST_REMOVE_PARENS(sep_)  MACRO(45, _45) BEST_REMOVE_PARENS(sep_)  MACRO(46, _46) BEST_REMOVE_PARENS(sep_)  MACRO(47, _47) BEST_REMOVE_PARENS(sep_)  MACRO(48, _48) BEST_REMOVE_PARENS(sep_)  MACRO(49, _49) BEST_REMOVE_PARENS(sep_)  MACRO(50, _50) BEST_REMOVE_PARENS(sep_)  MACRO(51, _51) BEST_REMOVE_PARENS(sep_)  MACRO(52, _52) BEST_REMOVE_PARENS(sep_)  MACRO(53, _53) BEST_REMOVE_PARENS(sep_)  MACRO(54, _54) BEST_REMOVE_PARENS(sep_)  MACRO(55, _55) BEST_REMOVE_PARENS(sep_)  MACRO(56, _56) BEST_REMOVE_PARENS(sep_)  MACRO(57, _57) BEST_REMOVE_PARENS(sep_)  MACRO(58, _58) BEST_REMOVE_PARENS(sep_)  MACRO(59, _59) BEST_REMOVE_PARENS(sep_)  MACRO(60, _60) BEST_REMOVE_PARENS(sep_)  MACRO(61, _61)
 #define BEST_IMAP_65_(MACRO, sep_, _0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, _29, _30, _31, _32, _33, _34, _35, _36, _37, _38, _39, _40, _41, _42, _43, _44, _45, _46, _47, _48, _49, _50, _51, _52, _53, _54, _55, _56, _57, _58, _59, _60, _61, _62) MACRO(0, _0) BEST_REMOVE_PARENS(sep_)  MACRO(1, _1) BEST_REMOVE_PARENS(sep_)  MACRO(2, _2) BEST_REMOVE_PARENS(sep_)  MACRO(3, _3) BEST_REMOVE_PARENS(sep_)  MACRO(4, _4) BEST_REMOVE_PARENS(sep_)  MACRO(5, _5) BEST_REMOVE_PARENS(sep_)  MACRO(6, _6) BEST_REMOVE_PARENS(sep_)  MACRO(7, _7) BEST_REMOVE_PARENS(sep_)  MACRO(8, _8) BEST_REMOVE_PARENS(sep_)  MACRO(9, _9) BEST_REMOVE_PARENS(sep_)  MACRO(10, _10) BEST_REMOVE_PARENS(sep_)  MACRO(11, _11) BEST_REMOVE_PARENS(sep_)  MACRO(12, _12) BEST_REMOVE_PARENS(sep_)  MACRO(13, _13) BEST_REMOVE_PARENS(sep_)  MACRO(14, _14) BEST_REMOVE_PARENS(sep_)  MACRO(15, _15) BEST_REMOVE_PARENS(sep_)  MACRO(16, _16) BEST_REMOVE_PARENS(sep_)  MACRO(17, _17) BEST_REMOVE_PARENS(sep_)  MACRO(18, _18) BEST_REMOVE_PARENS(sep_)  MACRO(19, _19) BEST_REMOVE_PARENS(sep_)  MACRO(20, _20) BEST_REMOVE_PARENS(sep_)  MACRO(21, _21) BEST_REMOVE_PARENS(sep_)  MACRO(22, _22) BEST_REMOVE_PARENS(sep_)  MACRO(23, _23) BEST_REMOVE_PARENS(sep_)  MACRO(24, _24) BEST_REMOVE_PARENS(sep_)  MACRO(25, _25) BEST_REMOVE_PARENS(sep_)  MACRO(26, _26) BEST_REMOVE_PARENS(sep_)  MACRO(27, _27) BEST_REMOVE_PARENS(sep_)  MACRO(28, _28) BEST_REMOVE_PARENS(sep_)  MACRO(29, _29) BEST_REMOVE_PARENS(sep_)  MACRO(30, _30) BEST_REMOVE_PARENS(sep_)  MACRO(31, _31) BEST_REMOVE_PARENS(sep_)  MACRO(32, _32) BEST_REMOVE_PARENS(sep_)  MACRO(33, _33) BEST_REMOVE_PARENS(sep_)  MACRO(34, _34) BEST_REMOVE_PARENS(sep_)  MACRO(35, _35) BEST_REMOVE_PARENS(sep_)  MACRO(36, _36) BEST_REMOVE_PARENS(sep_)  MACRO(37, _37) BEST_REMOVE_PARENS(sep_)  MACRO(38, _38) BEST_REMOVE_PARENS(sep_)  MACRO(39, _39) BEST_REMOVE_PARENS(sep_)  MACRO(40, _40) BEST_REMOVE_PARENS(sep_)  MACRO(41, _41) BEST_REMOVE_PARENS(sep_)  MACRO(42, _42) BEST_REMOVE_PARENS(sep_)  MACRO(43, _43) BEST_REMOVE_PARENS(sep_)  MACRO(44, _44) BEST_REMOVE_PARENS(sep_)  MACRO(45, _45) BEST_REMOVE_PARENS(sep_)  MACRO(46, _46) BEST_REMOVE_PARENS(sep_)  MACRO(47, _47) BEST_REMOVE_PARENS(sep_)  MACRO(48, _48) BEST_REMOVE_PARENS(sep_)  MACRO(49, _49) BEST_REMOVE_PARENS(sep_)  MACRO(50, _50) BEST_REMOVE_PARENS(sep_)  MACRO(51, _51) BEST_REMOVE_PARENS(sep_)  MACRO(52, _52) BEST_REMOVE_PARENS(sep_)  MACRO(53, _53) BEST_REMOVE_PARENS(sep_)  MACRO(54, _54) BEST_REMOVE_PARENS(sep_)  MACRO(55, _55) BEST_REMOVE_PARENS(sep_)  MACRO(56, _56) BEST_REMOVE_PARENS(sep_)  MACRO(57, _57) BEST_REMOVE_PARENS(sep_)  MACRO(58, _58) BEST_REMOVE_PARENS(sep_)  MACRO(59, _59) BEST_REMOVE_PARENS(sep_)  MACRO(60, _60) BEST_REMOVE_PARENS(sep_)  MACRO(61, _61) BEST_REMOVE_PARENS(sep_)  MACRO(62, _62)
 
-#define BEST_RTC_0_(_0)
+#define BEST_RTC_0_(_0) _0
 #define BEST_RTC_1_(_0, _1) _0 BEST_RTC_LAST_(_1)
 #define BEST_RTC_2_(_0, _1, _2) _0, _1 BEST_RTC_LAST_(_2)
 #define BEST_RTC_3_(_0, _1, _2, _3) _0, _1, _2 BEST_RTC_LAST_(_3)
diff --git a/best/base/internal/macro.py b/best/base/internal/macro.py
index 3c2842b..42a5e46 100755
--- a/best/base/internal/macro.py
+++ b/best/base/internal/macro.py
@@ -21,7 +21,7 @@ def main():
     print(f"#define BEST_IMAP_{i+2}_(MACRO, sep_{args}) {calls}")
 
   print()
-  print(f"#define BEST_RTC_0_(_0)")
+  print(f"#define BEST_RTC_0_(_0) _0")
   for i in range(1, MAX):
     args = ", ".join([f"_{j}" for j in range(0, i+1)])
     outs = ", ".join([f"_{j}" for j in range(0, i)])
-- 
2.43.0


From 081b31423a2ae723eaca6d1512d38ec1307e9a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:35 +0000
Subject: [PATCH 154/158] fix: BEST_NTH must name the helpers that macro.inc
 defines

---
 best/base/internal/macro.inc | 128 +++++++++++++++++------------------
 best/base/internal/macro.py  |   2 +-
 2 files changed, 65 insertions(+), 65 deletions(-)

diff --git a/best/base/internal/macro.inc b/best/base/internal/macro.inc
index cf2e3ff..5cbf11d 100644
--- a/best/base/internal/macro.inc
+++ b/best/base/internal/macro.inc
@@ -195,67 +195,67 @@
 #define BEST_RTC_63_(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, _29, _30, _31, _32, _33, _34, _35, _36, _37, _38, _39, _40, _41, _42, _43, _44, _45, _46, _47, _48, _49, _50, _51, _52, _53, _54, _55, _56, _57, _58, _59, _60, _61, _62, _63) _0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, _29, _30, _31, _32, _33, _34, _35, _36, _37, _38, _39, _40, _41, _42, _43, _44, _45, _46, _47, _48, _49, _50, _51, _52, _53, _54, _55, _56, _57, _58, _59, _60, _61, _62 BEST_RTC_LAST_(_63)
 #define BEST_RTC_SEQ_ BEST_RTC_62_, BEST_RTC_61_, BEST_RTC_60_, BEST_RTC_59_, BEST_RTC_58_, BEST_RTC_57_, BEST_RTC_56_, BEST_RTC_55_, BEST_RTC_54_, BEST_RTC_53_, BEST_RTC_52_, BEST_RTC_51_, BEST_RTC_50_, BEST_RTC_49_, BEST_RTC_48_, BEST_RTC_47_, BEST_RTC_46_, BEST_RTC_45_, BEST_RTC_44_, BEST_RTC_43_, BEST_RTC_42_, BEST_RTC_41_, BEST_RTC_40_, BEST_RTC_39_, BEST_RTC_38_, BEST_RTC_37_, BEST_RTC_36_, BEST_RTC_35_, BEST_RTC_34_, BEST_RTC_33_, BEST_RTC_32_, BEST_RTC_31_, BEST_RTC_30_, BEST_RTC_29_, BEST_RTC_28_, BEST_RTC_27_, BEST_RTC_26_, BEST_RTC_25_, BEST_RTC_24_, BEST_RTC_23_, BEST_RTC_22_, BEST_RTC_21_, BEST_RTC_20_, BEST_RTC_19_, BEST_RTC_18_, BEST_RTC_17_, BEST_RTC_16_, BEST_RTC_15_, BEST_RTC_14_, BEST_RTC_13_, BEST_RTC_12_, BEST_RTC_11_, BEST_RTC_10_, BEST_RTC_9_, BEST_RTC_8_, BEST_RTC_7_, BEST_RTC_6_, BEST_RTC_5_, BEST_RTC_4_, BEST_RTC_3_, BEST_RTC_2_, BEST_RTC_1_, BEST_RTC_0_
 
-#define BEST_NTH_0(_0, ...) _0
-#define BEST_NTH_1(_0, _1, ...) _1
-#define BEST_NTH_2(_0, _1, _2, ...) _2
-#define BEST_NTH_3(_0, _1, _2, _3, ...) _3
-#define BEST_NTH_4(_0, _1, _2, _3, _4, ...) _4
-#define BEST_NTH_5(_0, _1, _2, _3, _4, _5, ...) _5
-#define BEST_NTH_6(_0, _1, _2, _3, _4, _5, _6, ...) _6
-#define BEST_NTH_7(_0, _1, _2, _3, _4, _5, _6, _7, ...) _7
-#define BEST_NTH_8(_0, _1, _2, _3, _4, _5, _6, _7, _8, ...) _8
-#define BEST_NTH_9(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, ...) _9
-#define BEST_NTH_10(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, ...) _10
-#define BEST_NTH_11(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, ...) _11
-#define BEST_NTH_12(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, ...) _12
-#define BEST_NTH_13(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, ...) _13
-#define BEST_NTH_14(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, ...) _14
-#define BEST_NTH_15(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, ...) _15
-#define BEST_NTH_16(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, ...) _16
-#define BEST_NTH_17(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, ...) _17
-#define BEST_NTH_18(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, ...) _18
-#define BEST_NTH_19(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, ...) _19
-#define BEST_NTH_20(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, ...) _20
-#define BEST_NTH_21(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, ...) _21
-#define BEST_NTH_22(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, ...) _22
-#define BEST_NTH_23(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, ...) _23
-#define BEST_NTH_24(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, ...) _24
-#define BEST_NTH_25(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, ...) _25
-#define BEST_NTH_26(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, ...) _26
-#define BEST_NTH_27(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, ...) _27
-#define BEST_NTH_28(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, ...) _28
-#define BEST_NTH_29(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, _29, ...) _29
-#define BEST_NTH_30(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, _29, _30, ...) _30
-#define BEST_NTH_31(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, _29, _30, _31, ...) _31
-#define BEST_NTH_32(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, _29, _30, _31, _32, ...) _32
-#define BEST_NTH_33(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, _29, _30, _31, _32, _33, ...) _33
-#define BEST_NTH_34(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, _29, _30, _31, _32, _33, _34, ...) _34
-#define BEST_NTH_35(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, _29, _30, _31, _32, _33, _34, _35, ...) _35
-#define BEST_NTH_36(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, _29, _30, _31, _32, _33, _34, _35, _36, ...) _36
-#define BEST_NTH_37(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, _29, _30, _31, _32, _33, _34, _35, _36, _37, ...) _37
-#define BEST_NTH_38(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, _29, _30, _31, _32, _33, _34, _35, _36, _37, _38, ...) _38
-#define BEST_NTH_39(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, _29, _30, _31, _32, _33, _34, _35, _36, _37, _38, _39, ...) _39
-#define BEST_NTH_40(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, _29, _30, _31, _32, _33, _34, _35, _36, _37, _38, _39, _40, ...) _40
-#define BEST_NTH_41(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, _29, _30, _31, _32, _33, _34, _35, _36, _37, _38, _39, _40, _41, ...) _41
-#define BEST_NTH_42(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, _29, _30, _31, _32, _33, _34, _35, _36, _37, _38, _39, _40, _41, _42, ...) _42
-#define BEST_NTH_43(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, _29, _30, _31, _32, _33, _34, _35, _36, _37, _38, _39, _40, _41, _42, _43, ...) _43
-#define BEST_NTH_44(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, _29, _30, _31, _32, _33, _34, _35, _36, _37, _38, _39, _40, _41, _42, _43, _44, ...) _44
-#define BEST_NTH_45(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, _29, _30, _31, _32, _33, _34, _35, _36, _37, _38, _39, _40, _41, _42, _43, _44, _45, ...) _45
-#define BEST_NTH_46(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, _29, _30, _31, _32, _33, _34, _35, _36, _37, _38, _39, _40, _41, _42, _43, _44, _45, _46, ...) _46
-#define BEST_NTH_47(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, _29, _30, _31, _32, _33, _34, _35, _36, _37, _38, _39, _40, _41, _42, _43, _44, _45, _46, _47, ...) _47
-#define BEST_NTH_48(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, _29, _30, _31, _32, _33, _34, _35, _36, _37, _38, _39, _40, _41, _42, _43, _44, _45, _46, _47, _48, ...) _48
-#define BEST_NTH_49(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, _29, _30, _31, _32, _33, _34, _35, _36, _37, _38, _39, _40, _41, _42, _43, _44, _45, _46, _47, _48, _49, ...) _49
-#define BEST_NTH_50(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, _29, _30, _31, _32, _33, _34, _35, _36, _37, _38, _39, _40, _41, _42, _43, _44, _45, _46, _47, _48, _49, _50, ...) _50
-#define BEST_NTH_51(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, _29, _30, _31, _32, _33, _34, _35, _36, _37, _38, _39, _40, _41, _42, _43, _44, _45, _46, _47, _48, _49, _50, _51, ...) _51
-#define BEST_NTH_52(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, _29, _30, _31, _32, _33, _34, _35, _36, _37, _38, _39, _40, _41, _42, _43, _44, _45, _46, _47, _48, _49, _50, _51, _52, ...) _52
-#define BEST_NTH_53(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, _29, _30, _31, _32, _33, _34, _35, _36, _37, _38, _39, _40, _41, _42, _43, _44, _45, _46, _47, _48, _49, _50, _51, _52, _53, ...) _53
-#define BEST_NTH_54(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, _29, _30, _31, _32, _33, _34, _35, _36, _37, _38, _39, _40, _41, _42, _43, _44, _45, _46, _47, _48, _49, _50, _51, _52, _53, _54, ...) _54
-#define BEST_NTH_55(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, _29, _30, _31, _32, _33, _34, _35, _36, _37, _38, _39, _40, _41, _42, _43, _44, _45, _46, _47, _48, _49, _50, _51, _52, _53, _54, _55, ...) _55
-#define BEST_NTH_56(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, _29, _30, _31, _32, _33, _34, _35, _36, _37, _38, _39, _40, _41, _42, _43, _44, _45, _46, _47, _48, _49, _50, _51, _52, _53, _54, _55, _56, ...) _56
-#define BEST_NTH_57(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, _29, _30, _31, _32, _33, _34, _35, _36, _37, _38, _39, _40, _41, _42, _43, _44, _45, _46, _47, _48, _49, _50, _51, _52, _53, _54, _55, _56, _57, ...) _57
-#define BEST_NTH_58(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, _29, _30, _31, _32, _33, _34, _35, _36, _37, _38, _39, _40, _41, _42, _43, _44, _45, _46, _47, _48, _49, _50, _51, _52, _53, _54, _55, _56, _57, _58, ...) _58
-#define BEST_NTH_59(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, _29, _30, _31, _32, _33, _34, _35, _36, _37, _38, _39, _40, _41, _42, _43, _44, _45, _46, _47, _48, _49, _50, _51, _52, _53, _54, _55, _56, _57, _58, _59, ...) _59
-#define BEST_NTH_60(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, _29, _30, _31, _32, _33, _34, _35, _36, _37, _38, _39, _40, _41, _42, _43, _44, _45, _46, _47, _48, _49, _50, _51, _52, _53, _54, _55, _56, _57, _58, _59, _60, ...) _60
-#define BEST_NTH_61(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, _29, _30, _31, _32, _33, _34, _35, _36, _37, _38, _39, _40, _41, _42, _43, _44, _45, _46, _47, _48, _49, _50, _51, _52, _53, _54, _55, _56, _57, _58, _59, _60, _61, ...) _61
-#define BEST_NTH_62(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, _29, _30, _31, _32, _33, _34, _35, _36, _37, _38, _39, _40, _41, _42, _43, _44, _45, _46, _47, _48, _49, _50, _51, _52, _53, _54, _55, _56, _57, _58, _59, _60, _61, _62, ...) _62
-#define BEST_NTH_63(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, _29, _30, _31, _32, _33, _34, _35, _36, _37, _38, _39, _40, _41, _42, _43, _44, _45, _46, _47, _48, _49, _50, _51, _52, _53, _54, _55, _56, _57, _58, _59, _60, _61, _62, _63, ...) _63
+#define BEST_NTH_0_(_0, ...) _0
+#define BEST_NTH_1_(_0, _1, ...) _1
+#define BEST_NTH_2_(_0, _1, _2, ...) _2
+#define BEST_NTH_3_(_0, _1, _2, _3, ...) _3
+#define BEST_NTH_4_(_0, _1, _2, _3, _4, ...) _4
+#define BEST_NTH_5_(_0, _1, _2, _3, _4, _5, ...) _5
+#define BEST_NTH_6_(_0, _1, _2, _3, _4, _5, _6, ...) _6
+#define BEST_NTH_7_(_0, _1, _2, _3, _4, _5, _6, _7, ...) _7
+#define BEST_NTH_8_(_0, _1, _2, _3, _4, _5, _6, _7, _8, ...) _8
+#define BEST_NTH_9_(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, ...) _9
+#define BEST_NTH_10_(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, ...) _10
+#define BEST_NTH_11_(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, ...) _11
+#define BEST_NTH_12_(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, ...) _12
+#define BEST_NTH_13_(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, ...) _13
+#define BEST_NTH_14_(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, ...) _14
+#define BEST_NTH_15_(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, ...) _15
+#define BEST_NTH_16_(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, ...) _16
+#define BEST_NTH_17_(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, ...) _17
+#define BEST_NTH_18_(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, ...) _18
+#define BEST_NTH_19_(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, ...) _19
+#define BEST_NTH_20_(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, ...) _20
+#define BEST_NTH_21_(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, ...) _21
+#define BEST_NTH_22_(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, ...) _22
+#define BEST_NTH_23_(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, ...) _23
+#define BEST_NTH_24_(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, ...) _24
+#define BEST_NTH_25_(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, ...) _25
+#define BEST_NTH_26_(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, ...) _26
+#define BEST_NTH_27_(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, ...) _27
+#define BEST_NTH_28_(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, ...) _28
+#define BEST_NTH_29_(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, _29, ...) _29
+#define BEST_NTH_30_(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, _29, _30, ...) _30
+#define BEST_NTH_31_(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, _29, _30, _31, ...) _31
+#define BEST_NTH_32_(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, _29, _30, _31, _32, ...) _32
+#define BEST_NTH_33_(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, _29, _30, _31, _32, _33, ...) _33
+#define BEST_NTH_34_(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, _29, _30, _31, _32, _33, _34, ...) _34
+#define BEST_NTH_35_(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, _29, _30, _31, _32, _33, _34, _35, ...) _35
+#define BEST_NTH_36_(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, _29, _30, _31, _32, _33, _34, _35, _36, ...) _36
+#define BEST_NTH_37_(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, _29, _30, _31, _32, _33, _34, _35, _36, _37, ...) _37
+#define BEST_NTH_38_(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, _29, _30, _31, _32, _33, _34, _35, _36, _37, _38, ...) _38
+#define BEST_NTH_39_(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, _29, _30, _31, _32, _33, _34, _35, _36, _37, _38, _39, ...) _39
+#define BEST_NTH_40_(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, _29, _30, _31, _32, _33, _34, _35, _36, _37, _38, _39, _40, ...) _40
+#define BEST_NTH_41_(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, _29, _30, _31, _32, _33, _34, _35, _36, _37, _38, _39, _40, _41, ...) _41
+#define BEST_NTH_42_(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, _29, _30, _31, _32, _33, _34, _35, _36, _37, _38, _39, _40, _41, _42, ...) _42
+#define BEST_NTH_43_(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, _29, _30, _31, _32, _33, _34, _35, _36, _37, _38, _39, _40, _41, _42, _43, ...) _43
+#define BEST_NTH_44_(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, _29, _30, _31, _32, _33, _34, _35, _36, _37, _38, _39, _40, _41, _42, _43, _44, ...) _44
+#define BEST_NTH_45_(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, _29, _30, _31, _32, _33, _34, _35, _36, _37, _38, _39, _40, _41, _42, _43, _44, _45, ...) _45
+#define BEST_NTH_46_(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, _29, _30, _31, _32, _33, _34, _35, _36, _37, _38, _39, _40, _41, _42, _43, _44, _45, _46, ...) _46
+#define BEST_NTH_47_(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, _29, _30, _31, _32, _33, _34, _35, _36, _37, _38, _39, _40, _41, _42, _43, _44, _45, _46, _47, ...) _47
+#define BEST_NTH_48_(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, _29, _30, _31, _32, _33, _34, _35, _36, _37, _38, _39, _40, _41, _42, _43, _44, _45, _46, _47, _48, ...) _48
+#define BEST_NTH_49_(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, _29, _30, _31, _32, _33, _34, _35, _36, _37, _38, _39, _40, _41, _42, _43, _44, _45, _46, _47, _48, _49, ...) _49
+#define BEST_NTH_50_(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, _29, _30, _31, _32, _33, _34, _35, _36, _37, _38, _39, _40, _41, _42, _43, _44, _45, _46, _47, _48, _49, _50, ...) _50
+#define BEST_NTH_51_(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, _29, _30, _31, _32, _33, _34, _35, _36, _37, _38, _39, _40, _41, _42, _43, _44, _45, _46, _47, _48, _49, _50, _51, ...) _51
+#define BEST_NTH_52_(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, _29, _30, _31, _32, _33, _34, _35, _36, _37, _38, _39, _40, _41, _42, _43, _44, _45, _46, _47, _48, _49, _50, _51, _52, ...) _52
+#define BEST_NTH_53_(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, _29, _30, _31, _32, _33, _34, _35, _36, _37, _38, _39, _40, _41, _42, _43, _44, _45, _46, _47, _48, _49, _50, _51, _52, _53, ...) _53
+#define BEST_NTH_54_(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, _29, _30, _31, _32, _33, _34, _35, _36, _37, _38, _39, _40, _41, _42, _43, _44, _45, _46, _47, _48, _49, _50, _51, _52, _53, _54, ...) _54
+#define BEST_NTH_55_(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, _29, _30, _31, _32, _33, _34, _35, _36, _37, _38, _39, _40, _41, _42, _43, _44, _45, _46, _47, _48, _49, _50, _51, _52, _53, _54, _55, ...) _55
+#define BEST_NTH_56_(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, _29, _30, _31, _32, _33, _34, _35, _36, _37, _38, _39, _40, _41, _42, _43, _44, _45, _46, _47, _48, _49, _50, _51, _52, _53, _54, _55, _56, ...) _56
+#define BEST_NTH_57_(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, _29, _30, _31, _32, _33, _34, _35, _36, _37, _38, _39, _40, _41, _42, _43, _44, _45, _46, _47, _48, _49, _50, _51, _52, _53, _54, _55, _56, _57, ...) _57
+#define BEST_NTH_58_(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, _29, _30, _31, _32, _33, _34, _35, _36, _37, _38, _39, _40, _41, _42, _43, _44, _45, _46, _47, _48, _49, _50, _51, _52, _53, _54, _55, _56, _57, _58, ...) _58
+#define BEST_NTH_59_(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, _29, _30, _31, _32, _33, _34, _35, _36, _37, _38, _39, _40, _41, _42, _43, _44, _45, _46, _47, _48, _49, _50, _51, _52, _53, _54, _55, _56, _57, _58, _59, ...) _59
+#define BEST_NTH_60_(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, _29, _30, _31, _32, _33, _34, _35, _36, _37, _38, _39, _40, _41, _42, _43, _44, _45, _46, _47, _48, _49, _50, _51, _52, _53, _54, _55, _56, _57, _58, _59, _60, ...) _60
+#define BEST_NTH_61_(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, _29, _30, _31, _32, _33, _34, _35, _36, _37, _38, _39, _40, _41, _42, _43, _44, _45, _46, _47, _48, _49, _50, _51, _52, _53, _54, _55, _56, _57, _58, _59, _60, _61, ...) _61
+#define BEST_NTH_62_(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, _29, _30, _31, _32, _33, _34, _35, _36, _37, _38, _39, _40, _41, _42, _43, _44, _45, _46, _47, _48, _49, _50, _51, _52, _53, _54, _55, _56, _57, _58, _59, _60, _61, _62, ...) _62
+#define BEST_NTH_63_(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, _25, _26, _27, _28, _29, _30, _31, _32, _33, _34, _35, _36, _37, _38, _39, _40, _41, _42, _43, _44, _45, _46, _47, _48, _49, _50, _51, _52, _53, _54, _55, _56, _57, _58, _59, _60, _61, _62, _63, ...) _63
diff --git a/best/base/internal/macro.py b/best/base/internal/macro.py
index 42a5e46..a909266 100755
--- a/best/base/internal/macro.py
+++ b/best/base/internal/macro.py
@@ -33,7 +33,7 @@ def main():
   print()
   for i in range(0, MAX):
     args = ", ".join([f"_{j}" for j in range(0, i+1)])
-    print(f"#define BEST_NTH_{i}({args}, ...) _{i}")
+    print(f"#define BEST_NTH_{i}_({args}, ...) _{i}")
 
 if __name__ == "__main__":
   main()
\ No newline at end of file
-- 
2.43.0


From dcf0168a49018d9f445a389337ce63ff3855614d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:59 +0000
Subject: [PATCH 155/158] fix: common_ord must handle any number of mixed
 ordering categories

---
 best/base/internal/ord.h | 139 ++++++++++-----------------------------
 1 file changed, 34 insertions(+), 105 deletions(-)

diff --git a/best/base/internal/ord.h b/best/base/internal/ord.h
index 7205065..d9561ce 100644
--- a/best/base/internal/ord.h
+++ b/best/base/internal/ord.h
@@ -57,115 +57,44 @@ using sord = std::strong_ordering;
 using pord = std::partial_ordering;
 using word = std::weak_ordering;
 
-sord common_ord();
-
 template <typename T>
-T common_ord(T);
+concept is_strong = std::is_same_v<T, sord> || std::is_same_v<T, le> ||
+                    std::is_same_v<T, eq> || std::is_same_v<T, gt>;
+template <typename T>
+concept is_weak = std::is_same_v<T, word>;
 template <typename T>
-auto common_ord(T, T, auto... rest)  //
-  -> decltype(common_ord(best::lie<T>, rest...));
-
-sord common_ord(eq);
-sord common_ord(le);
-sord common_ord(gt);
-pord common_ord(uo);
-
-sord common_ord(eq, eq);
-sord common_ord(eq, le);
-sord common_ord(eq, gt);
-pord common_ord(eq, uo);
-sord common_ord(le, eq);
-sord common_ord(le, le);
-sord common_ord(le, gt);
-pord common_ord(le, uo);
-sord common_ord(gt, eq);
-sord common_ord(gt, le);
-sord common_ord(gt, gt);
-pord common_ord(gt, uo);
-
-pord common_ord(uo, eq);
-pord common_ord(uo, le);
-pord common_ord(uo, gt);
-pord common_ord(uo, uo);
-
-auto common_ord(sord, eq, auto... rest)  //
-  -> decltype(common_ord(sord::equivalent, rest...));
-auto common_ord(sord, le, auto... rest)  //
-  -> decltype(common_ord(sord::equivalent, rest...));
-auto common_ord(sord, gt, auto... rest)  //
-  -> decltype(common_ord(sord::equivalent, rest...));
-auto common_ord(eq, sord, auto... rest)  //
-  -> decltype(common_ord(sord::equivalent, rest...));
-auto common_ord(le, sord, auto... rest)  //
-  -> decltype(common_ord(sord::equivalent, rest...));
-auto common_ord(gt, sord, auto... rest)  //
-  -> decltype(common_ord(sord::equivalent, rest...));
-
-auto common_ord(word, eq, auto... rest)  //
-  -> decltype(common_ord(word::equivalent, rest...));
-auto common_ord(word, le, auto... rest)  //
-  -> decltype(common_ord(word::equivalent, rest...));
-auto common_ord(word, gt, auto... rest)  //
-  -> decltype(common_ord(word::equivalent, rest...));
-auto common_ord(eq, word, auto... rest)  //
-  -> decltype(common_ord(word::equivalent, rest...));
-auto common_ord(le, word, auto... rest)  //
-  -> decltype(common_ord(word::equivalent, rest...));
-auto common_ord(gt, word, auto... rest)  //
-  -> decltype(common_ord(word::equivalent, rest...));
-
-auto common_ord(pord, eq, auto... rest)  //
-  -> decltype(common_ord(pord::equivalent, rest...));
-auto common_ord(pord, le, auto... rest)  //
-  -> decltype(common_ord(pord::equivalent, rest...));
-auto common_ord(pord, gt, auto... rest)  //
-  -> decltype(common_ord(pord::equivalent, rest...));
-auto common_ord(eq, pord, auto... rest)  //
-  -> decltype(common_ord(pord::equivalent, rest...));
-auto common_ord(le, pord, auto... rest)  //
-  -> decltype(common_ord(pord::equivalent, rest...));
-auto common_ord(gt, pord, auto... rest)  //
-  -> decltype(common_ord(pord::equivalent, rest...));
-
-auto common_ord(uo, sord, auto... rest)  //
-  -> decltype(common_ord(pord::equivalent, rest...));
-auto common_ord(uo, word, auto... rest)  //
-  -> decltype(common_ord(pord::equivalent, rest...));
-auto common_ord(uo, pord, auto... rest)  //
-  -> decltype(common_ord(pord::equivalent, rest...));
-auto common_ord(sord, uo, auto... rest)  //
-  -> decltype(common_ord(pord::equivalent, rest...));
-auto common_ord(word, uo, auto... rest)  //
-  -> decltype(common_ord(pord::equivalent, rest...));
-auto common_ord(pord, uo, auto... rest)  //
-  -> decltype(common_ord(pord::equivalent, rest...));
-
-auto common_ord(sord, sord, auto... rest)  //
-  -> decltype(common_ord(sord::equivalent, rest...));
-auto common_ord(sord, word, auto... rest)  //
-  -> decltype(common_ord(word::equivalent, rest...));
-auto common_ord(sord, pord, auto... rest)  //
-  -> decltype(common_ord(pord::equivalent, rest...));
-
-auto common_ord(word, sord, auto... rest)  //
-  -> decltype(common_ord(word::equivalent, rest...));
-auto common_ord(word, word, auto... rest)  //
-  -> decltype(common_ord(word::equivalent, rest...));
-auto common_ord(word, pord, auto... rest)  //
-  -> decltype(common_ord(pord::equivalent, rest...));
-
-auto common_ord(pord, sord, auto... rest)  //
-  -> decltype(common_ord(pord::equivalent, rest...));
-auto common_ord(pord, word, auto... rest)  //
-  -> decltype(common_ord(pord::equivalent, rest...));
-auto common_ord(pord, pord, auto... rest)  //
-  -> decltype(common_ord(pord::equivalent, rest...));
-
-auto common_impl(best::rank<1>, auto... args) -> decltype(common_ord(args...));
-void common_impl(best::rank<0>, auto...);
+concept is_partial = std::is_same_v<T, pord> || std::is_same_v<T, uo>;
+template <typename T>
+concept is_ord = is_strong<T> || is_weak<T> || is_partial<T>;
+
+// The weakest category among those of Ts; void if they have none in common.
+template <typename... Ts>
+struct common_ord {
+  using type = void;
+};
+template <typename... Ts>
+  requires (is_strong<Ts> && ...)
+struct common_ord<Ts...> {
+  using type = sord;
+};
+template <typename... Ts>
+  requires ((is_strong<Ts> || is_weak<Ts>) && ...) && (is_weak<Ts> || ...)
+struct common_ord<Ts...> {
+  using type = word;
+};
+template <typename... Ts>
+  requires (is_ord<Ts> && ...) && (is_partial<Ts> || ...)
+struct common_ord<Ts...> {
+  using type = pord;
+};
+template <typename T, typename... Ts>
+  requires (!is_ord<T>) && (std::is_same_v<T, Ts> && ...)
+struct common_ord<T, Ts...> {
+  using type = T;
+};
 
 template <typename... Ts>
-using common = decltype(common_impl(best::rank<1>{}, best::lie<Ts>...));
+using common = common_ord<std::decay_t<Ts>...>::type;
 
 template <typename Cb>
 class chain final {
-- 
2.43.0


From 48eb534eed44aadb18644fd96480a148be0a15b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:04 +0000
Subject: [PATCH 156/158] fix: is_vec must recognize references to vectors

---
 best/container/vec.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/best/container/vec.h b/best/container/vec.h
index 153a68f..fb279dd 100644
--- a/best/container/vec.h
+++ b/best/container/vec.h
@@ -55,7 +55,9 @@ class vec;
 template <typename V>
 concept is_vec =
   best::same<best::as_auto<V>,
-             best::vec<typename V::type, V::MaxInline, typename V::alloc>>;
+             best::vec<typename best::as_auto<V>::type,
+                       best::as_auto<V>::MaxInline,
+                       typename best::as_auto<V>::alloc>>;
 
 /// # `best::vec_inline_default()`
 ///
-- 
2.43.0


From bd41bc0856a8d09c328ff76e581ac99994212ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:04 +0000
Subject: [PATCH 157/158] fix: static_size must see through const

---
 best/memory/span.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/best/memory/span.h b/best/memory/span.h
index c45f460..ee20973 100644
--- a/best/memory/span.h
+++ b/best/memory/span.h
@@ -107,7 +107,8 @@ using data_type = best::un_ref<decltype(*best::data(best::lie<R>))>;
 /// applied to this type, or best::none.
 template <best::contiguous T>
 inline constexpr best::option<size_t> static_size =
-  BestStaticSize(best::types<T>, best::as_raw_ptr<T>{});
+  BestStaticSize(best::types<T>,
+                 best::as_raw_ptr<best::un_qual<best::un_ref<T>>>{});
 
 /// # `best::static_contiguous`
 ///
-- 
2.43.0


From d3827e4ed906fbbd7c6e03d463b8460415ac57cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:51 +0000
Subject: [PATCH 158/158] Revert "fix: tests registered before test.cc is
 initialized must not be lost"

This reverts commit a1f0c00fb6d6a4cd09bbdf3556d9b38cd626cc0e.
---
 best/test/test.cc | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/best/test/test.cc b/best/test/test.cc
index 236f068..ea2dea4 100644
--- a/best/test/test.cc
+++ b/best/test/test.cc
@@ -28,12 +28,7 @@
 
 namespace best {
 namespace {
-// Tests are globals of any translation unit, so this must exist before the first
-// of them is initialized, whatever the link order.
-best::vec<best::test*>& all_tests() {
-  static auto* tests = new best::vec<best::test*>();
-  return *tests;
-}
+best::vec<best::test*> all_tests;
 
 best::str symbol_name(const void* ptr, best::location loc) {
   ::Dl_info di;
@@ -61,7 +56,7 @@ inline constexpr best::str Red = "\N{ESCAPE}[31m";
 }  // namespace
 
 void test::init() {
-  all_tests().push(this);
+  all_tests.push(this);
   name_ = symbol_name(this, where());
 }
 
@@ -71,11 +66,11 @@ bool test::run_all(const flags& flags) {
   for (auto arg : best::app::argv()) { best::eprint(" {}", arg); }
 
   best::eprintln();
-  best::eprintln("executing {} test(s)\n", all_tests().size());
+  best::eprintln("executing {} test(s)\n", all_tests.size());
 
   best::vec<best::test*> successes;
   best::vec<best::test*> failures;
-  for (auto* test : all_tests()) {
+  for (auto* test : all_tests) {
     for (const auto& skip : flags.skip) {
       if (test->name().contains(skip)) { goto skip; }
     }
-- 
2.43.0

