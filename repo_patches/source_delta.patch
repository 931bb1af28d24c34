From a631f19c05ca43a0e2a50fe694f22f18bf156616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:18 +0000
Subject: [PATCH 01/16] fix: _bitblend with a full-width field shifts by the
 operand width

---
 include/bitlib/bit-iterator/bit_details.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/bitlib/bit-iterator/bit_details.hpp b/include/bitlib/bit-iterator/bit_details.hpp
index 595cd81..ebfa1c7 100644
--- a/include/bitlib/bit-iterator/bit_details.hpp
+++ b/include/bitlib/bit-iterator/bit_details.hpp
@@ -756,8 +756,13 @@ constexpr T _bitblend(T src0, T src1, T start, T len) noexcept
     static_assert(binary_digits<T>::value, "");
     constexpr T digits = binary_digits<T>::value;
     constexpr T one = 1;
-    const T msk = ((one << len) * (len < digits) - one) << start;
-    return src0 ^ ((src0 ^ src1) & msk * (start < digits));
+    if (start >= digits) {
+        return src0;
+    }
+    const T fld = (len < digits) ? static_cast<T>((one << len) - one)
+                                 : static_cast<T>(-1);
+    const T msk = static_cast<T>(fld << start);
+    return src0 ^ ((src0 ^ src1) & msk);
 }
 // -------------------------------------------------------------------------- //
 
-- 
2.43.0


From e320074cb9b7def9477c1e9a23e6360058435842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:18 +0000
Subject: [PATCH 02/16] fix: generic _bextr shifts by the operand width

---
 include/bitlib/bit-iterator/bit_details.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/bitlib/bit-iterator/bit_details.hpp b/include/bitlib/bit-iterator/bit_details.hpp
index ebfa1c7..071e704 100644
--- a/include/bitlib/bit-iterator/bit_details.hpp
+++ b/include/bitlib/bit-iterator/bit_details.hpp
@@ -538,8 +538,10 @@ constexpr T _bextr(T src, T start, T len, X...) noexcept
     static_assert(binary_digits<T>::value, "");
     constexpr T digits = binary_digits<T>::value;
     constexpr T one = 1;
-    const T msk = (one << len) * (len < digits) - one;
-    return (src >> start) & msk * (start < digits);
+    const T msk = (len < digits) ? static_cast<T>((one << len) - one)
+                                 : static_cast<T>(-1);
+    return (start < digits) ? static_cast<T>((src >> start) & msk)
+                            : static_cast<T>(0);
 }
 // -------------------------------------------------------------------------- //
 
-- 
2.43.0


From 958840f99b454ee2bbd107c40a13fe5cbdaf6454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:18 +0000
Subject: [PATCH 03/16] fix: count reads past the end for an empty range

---
 include/bitlib/bit-algorithms/count.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/bitlib/bit-algorithms/count.hpp b/include/bitlib/bit-algorithms/count.hpp
index 1a804b1..3ff182d 100644
--- a/include/bitlib/bit-algorithms/count.hpp
+++ b/include/bitlib/bit-algorithms/count.hpp
@@ -49,6 +49,9 @@ count(
     // Initialization
     difference_type result = 0;
 
+    // An empty range has no word to read
+    if (first == last) return result;
+
     // Computation when bits belong to several underlying words
     if (first.base() != last.base()) {
         RandomAccessIt it = first.base();
-- 
2.43.0


From 0f4dc8ba4ffbdf315c8b80530b83b7c06861afc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:18 +0000
Subject: [PATCH 04/16] fix: rotate about the end of the range shifts by the
 word width and returns a wrong iterator

---
 include/bitlib/bit-algorithms/rotate.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/bitlib/bit-algorithms/rotate.hpp b/include/bitlib/bit-algorithms/rotate.hpp
index f9509ba..3ee1ac7 100644
--- a/include/bitlib/bit-algorithms/rotate.hpp
+++ b/include/bitlib/bit-algorithms/rotate.hpp
@@ -193,6 +193,7 @@ bit_iterator<ForwardIt> rotate(
     _assert_range_viability(first, last);
     //if (first == n_first) return n_first;
     if (first == n_first) return last;
+    if (n_first == last) return first;
 
     // Types and constants
     using word_type = typename bit_iterator<ForwardIt>::word_type;
-- 
2.43.0


From f99eb7e427d97295eedf547efcadf059d0ea4b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:12 +0000
Subject: [PATCH 05/16] fix: shift_left and shift_right compute an iterator
 outside the range before checking n

---
 include/bitlib/bit-algorithms/shift.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bitlib/bit-algorithms/shift.hpp b/include/bitlib/bit-algorithms/shift.hpp
index e598e0c..cdb64d8 100644
--- a/include/bitlib/bit-algorithms/shift.hpp
+++ b/include/bitlib/bit-algorithms/shift.hpp
@@ -62,7 +62,6 @@ bit_iterator<RandomAccessIt> shift_left(
     auto d = bit::distance(first, last);
     const bool is_first_aligned = first.position() == 0;
     const bool is_last_aligned = last.position() == 0;
-    auto middle = first + n;
 
     // Out of range cases
     if (n <= 0) return last;
@@ -71,6 +70,7 @@ bit_iterator<RandomAccessIt> shift_left(
         //bit::fill(first, last, bit::bit0);    
         return first;
     }
+    auto middle = first + n;
 
     // Single word case
     // Triggered if all relevant bits are in first.base()
@@ -252,11 +252,11 @@ bit_iterator<RandomAccessIt> shift_right(
     const bool is_last_aligned = last.position() == 0;
     constexpr auto digits = binary_digits<word_type>::value;
     auto d = bit::distance(first, last);
-    bit_iterator<RandomAccessIt> middle = last - n;
 
     // Out of range cases
     if (n <= 0) return first;
     else if (n >= d) return last;
+    bit_iterator<RandomAccessIt> middle = last - n;
 
     // Single word case
     if (std::next(first.base(), is_last_aligned) == last.base()) {
-- 
2.43.0


From dfb9426c28e80a0bc568ded81b6c1705f1ecf249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:05 +0000
Subject: [PATCH 06/16] fix: _shld/_shrd with a zero or too large count

---
 include/bitlib/bit-iterator/bit_details.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/bitlib/bit-iterator/bit_details.hpp b/include/bitlib/bit-iterator/bit_details.hpp
index 071e704..3723389 100644
--- a/include/bitlib/bit-iterator/bit_details.hpp
+++ b/include/bitlib/bit-iterator/bit_details.hpp
@@ -865,10 +865,15 @@ constexpr T _shld(T dst, T src, T cnt) noexcept
 {
     static_assert(binary_digits<T>::value, "");
     constexpr T digits = binary_digits<T>::value;
+    if (cnt == 0) {
+        return dst;
+    }
     if (cnt < digits) {
         dst = (dst << cnt) | (src >> (digits - cnt));
+    } else if (cnt < digits + digits) {
+        dst = src << (cnt - digits);
     } else {
-        dst = (src << (cnt - digits)) * (cnt < digits + digits);
+        dst = 0;
     }
     return dst;
 }
@@ -883,10 +888,15 @@ constexpr T _shrd(T dst, T src, T cnt) noexcept
 {
     static_assert(binary_digits<T>::value, "");
     constexpr T digits = binary_digits<T>::value;
+    if (cnt == 0) {
+        return dst;
+    }
     if (cnt < digits) {
         dst = (dst >> cnt) | (src << (digits - cnt));
+    } else if (cnt < digits + digits) {
+        dst = src >> (cnt - digits);
     } else {
-        dst = (src >> (cnt - digits)) * (cnt < digits + digits);
+        dst = 0;
     }
     return dst;
 }
-- 
2.43.0


From c78a6d23474f3f8b333d6a333cb0b6f27118e235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:41 +0000
Subject: [PATCH 07/16] fix: bit_value::swap(bit_reference) does not compile

---
 include/bitlib/bit-iterator/bit_value.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bitlib/bit-iterator/bit_value.hpp b/include/bitlib/bit-iterator/bit_value.hpp
index 0fd6ee4..88dcba1 100644
--- a/include/bitlib/bit-iterator/bit_value.hpp
+++ b/include/bitlib/bit-iterator/bit_value.hpp
@@ -287,7 +287,7 @@ void bit_value::swap(
     bit_reference<T> other
 ) noexcept
 {
-    if (other != _value) {
+    if (other != *this) {
         flip();
         other.flip();
     }
-- 
2.43.0


From ae6aed0b4edc778be7dd534aea79da925f83a040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:41 +0000
Subject: [PATCH 08/16] fix: converting assignment of bit_pointer and
 bit_iterator does not compile

---
 include/bitlib/bit-iterator/bit_iterator.hpp  | 4 ++--
 include/bitlib/bit-iterator/bit_reference.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bitlib/bit-iterator/bit_iterator.hpp b/include/bitlib/bit-iterator/bit_iterator.hpp
index 235d028..19c6b81 100644
--- a/include/bitlib/bit-iterator/bit_iterator.hpp
+++ b/include/bitlib/bit-iterator/bit_iterator.hpp
@@ -190,8 +190,8 @@ constexpr bit_iterator<Iterator>& bit_iterator<Iterator>::operator=(
     const bit_iterator<T>& other
 )
 {
-    _current = other._current;
-    _position = other._position;
+    _current = other.base();
+    _position = other.position();
     return *this;
 }
 // -------------------------------------------------------------------------- //
diff --git a/include/bitlib/bit-iterator/bit_reference.hpp b/include/bitlib/bit-iterator/bit_reference.hpp
index 9344158..d8aaa8e 100644
--- a/include/bitlib/bit-iterator/bit_reference.hpp
+++ b/include/bitlib/bit-iterator/bit_reference.hpp
@@ -33,7 +33,7 @@ class bit_reference
 
     // Friendship
     template <class> friend class bit_reference;
-    friend class bit_pointer<WordType>;
+    template <class> friend class bit_pointer;
 
     // Types
     public:
-- 
2.43.0


From 8f7f15dc0d6d096dc6a9c4f75ca1349c58d40505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:41 +0000
Subject: [PATCH 09/16] fix: bit::distance aborts when last comes before first,
 contrary to its documentation

---
 include/bitlib/bit-algorithms/bit_algorithm_details.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/bitlib/bit-algorithms/bit_algorithm_details.hpp b/include/bitlib/bit-algorithms/bit_algorithm_details.hpp
index 984c499..1ed755d 100644
--- a/include/bitlib/bit-algorithms/bit_algorithm_details.hpp
+++ b/include/bitlib/bit-algorithms/bit_algorithm_details.hpp
@@ -32,7 +32,6 @@ typename bit_iterator<InputIt>::difference_type
              bit_iterator<InputIt> last
 )
 {
-    _assert_range_viability(first, last);
     using word_type = typename bit_iterator<InputIt>::word_type;
     using size_type = typename bit_iterator<InputIt>::size_type;
     constexpr size_type digits = binary_digits<word_type>::value;
-- 
2.43.0


From 5bee40a74e8e9a31e646369157a68ab75da2e6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:24 +0000
Subject: [PATCH 10/16] fix: rotate of ranges beyond 2^32 blocks truncates the
 number of block swaps

---
 include/bitlib/bit-algorithms/rotate.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bitlib/bit-algorithms/rotate.hpp b/include/bitlib/bit-algorithms/rotate.hpp
index 3ee1ac7..cf3c863 100644
--- a/include/bitlib/bit-algorithms/rotate.hpp
+++ b/include/bitlib/bit-algorithms/rotate.hpp
@@ -135,7 +135,7 @@ bit_iterator<RandomAccessIt> _rotate_via_raw(
                 return ret;
             }
             bit_iterator<RandomAccessIt> q = p + k;
-            unsigned int full_swaps = (n - k) / k;
+            size_type full_swaps = (n - k) / k;
             size_type remainder = (n - k) - full_swaps*k;
             while (full_swaps > 0) {
                 swap_ranges(p, q, q);
@@ -161,7 +161,7 @@ bit_iterator<RandomAccessIt> _rotate_via_raw(
             }
             bit_iterator<RandomAccessIt> q = p + n;
             p = q - k;
-            unsigned int full_swaps = (n - k) / k;
+            size_type full_swaps = (n - k) / k;
             size_type remainder = (n - k) - full_swaps*k;
             while (full_swaps > 0) {
                 p -= k;
-- 
2.43.0


From 5d9f7017472d2313f7452924532031b71f5810a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:24 +0000
Subject: [PATCH 11/16] fix: bit_vector::word_count truncates bit counts to
 unsigned int

---
 include/bitlib/bit-containers/bit_vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index f971c49..f4ee5fc 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -41,8 +41,8 @@ class bit_vector {
 
         // TODO are privates always inlined?
         // @brief Get the number of words needed to represet num_bits bits
-        constexpr uint64_t word_count(unsigned int num_bits) {
-            return ((num_bits + digits - 1) / digits);
+        constexpr uint64_t word_count(uint64_t num_bits) {
+            return num_bits / digits + (num_bits % digits != 0);
         }
 
         // Iterator pair constructor specializations
-- 
2.43.0


From 6d2bfa434d61d8385e3e4d97383fafa118c61294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:24 +0000
Subject: [PATCH 12/16] fix: bit_vector::insert rounds the available bits to
 float

---
 include/bitlib/bit-containers/bit_vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index f4ee5fc..ed24711 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -529,7 +529,7 @@ bit_vector<WordType, Allocator>::insert(
     if (count == 0) {
         return begin() + d;
     }
-    const float bits_available = word_vector.size() * digits;
+    const size_type bits_available = word_vector.size() * digits;
     const bool need_to_add = length_ + count > bits_available;
     if (need_to_add) {
         const auto words_to_add = word_count(length_ + count - bits_available);
@@ -552,7 +552,7 @@ bit_vector<WordType, Allocator>::insert(
     if (count == 0) {
         return begin() + d;
     }
-    const float bits_available = word_vector.size()*digits;
+    const size_type bits_available = word_vector.size()*digits;
     const auto need_to_add = length_ + count > bits_available;
     if (need_to_add) {
         const auto words_to_add = word_count(length_ + count - bits_available);
-- 
2.43.0


From aa8e42bfb732429a598a1d401e608f1b0fbd75ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:24 +0000
Subject: [PATCH 13/16] fix: bit_vector::resize leaves stale bits in the new
 elements

---
 include/bitlib/bit-containers/bit_vector.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index ed24711..26f7236 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -610,8 +610,7 @@ constexpr void bit_vector<WordType, Allocator>::pop_back() {
 
 template<class WordType, class Allocator>
 constexpr void bit_vector<WordType, Allocator>::resize(size_type count) {
-    word_vector.resize(word_count(count));
-    length_ = count;
+    resize(count, bit0);
     return;
 }
 
@@ -621,7 +620,7 @@ constexpr void bit_vector<WordType, Allocator>::resize(size_type count, const va
     word_vector.resize(word_count(count));
     length_ = count;
     if (length_ > old_length) {
-        fill(begin() + length_, end(), value);
+        fill(begin() + old_length, end(), value);
     }
     return;
 }
-- 
2.43.0


From 04aef28eba7902086f53069a432ec3735a124755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:24 +0000
Subject: [PATCH 14/16] fix: const element access and construction from a list
 of bits do not compile

---
 include/bitlib/bit-containers/bit_vector.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index 26f7236..47964cc 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -82,10 +82,10 @@ class bit_vector {
         using size_type = std::size_t;
         using difference_type = std::ptrdiff_t;
         using reference = bit_reference<WordType>;
-        using const_reference = const reference;
+        using const_reference = bit_reference<const WordType>;
         using pointer = bit_pointer<WordType>;
         using iterator = bit_iterator<typename std::vector<WordType>::iterator>;
-        using const_iterator = bit_iterator<const typename std::vector<WordType>::const_iterator>;
+        using const_iterator = bit_iterator<typename std::vector<WordType>::const_iterator>;
 
 
         /*
@@ -137,7 +137,7 @@ class bit_vector {
          * Element Access
          */
         constexpr reference operator[](size_type pos);
-        constexpr reference operator[](size_type pos) const;
+        constexpr const_reference operator[](size_type pos) const;
         constexpr reference at(size_type pos);
         constexpr const_reference at(size_type pos) const;
         constexpr reference front();
@@ -252,7 +252,7 @@ constexpr bit_vector<WordType, Allocator>::bit_vector(const bit_vector<WordType,
 template<class WordType, class Allocator>
 constexpr bit_vector<WordType, Allocator>::bit_vector(std::initializer_list<bit_value> init, const Allocator& alloc)
     : word_vector(alloc), length_(0) {
-    for (const_reference b : init) {
+    for (const bit_value& b : init) {
         this->push_back(b);
     }
 }
@@ -358,7 +358,7 @@ constexpr typename bit_vector<WordType, Allocator>::reference
 bit_vector<WordType, Allocator>::operator[](size_type pos) {return begin()[pos];}
 
 template<class WordType, class Allocator>
-constexpr typename bit_vector<WordType, Allocator>::reference
+constexpr typename bit_vector<WordType, Allocator>::const_reference
 bit_vector<WordType, Allocator>::operator[](size_type pos) const {return begin()[pos];}
 
 template<class WordType, class Allocator>
-- 
2.43.0


From 1fab57e57c9a3934a6235687659278f0f5f25305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:24 +0000
Subject: [PATCH 15/16] fix: allocator-extended copy constructor of bit_vector
 is not defined

---
 include/bitlib/bit-containers/bit_vector.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index 47964cc..3405e34 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -241,6 +241,10 @@ constexpr bit_vector<WordType, Allocator>::bit_vector(
     );
 }
 
+template<class WordType, class Allocator>
+constexpr bit_vector<WordType, Allocator>::bit_vector(const bit_vector<WordType, Allocator>& other, const Allocator& alloc)
+    : word_vector(other.word_vector, alloc), length_(other.length_) {}
+
 template<class WordType, class Allocator>
 constexpr bit_vector<WordType, Allocator>::bit_vector(const bit_vector<WordType, Allocator>&& other) noexcept
     : word_vector(std::move(other.word_vector)), length_(other.length_) {}
-- 
2.43.0


From 1f7497ef94e84fda429b9ed14386b5ed4fafa117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:24 +0000
Subject: [PATCH 16/16] fix: debug_string of a range does not compile, its
 position counter overflows

---
 include/bitlib/bit-containers/bit_vector.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index 3405e34..61fef81 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -636,9 +636,9 @@ constexpr void bit_vector<WordType, Allocator>::resize(size_type count, const va
 template<class WordType, class Allocator>
 constexpr std::string bit_vector<WordType, Allocator>::debug_string(const_iterator first, const_iterator last) {
     std::string ret = "";
-    iterator mem = first;
-    auto position = 0;
-    for (iterator it = first; it != last; ++it) {
+    const_iterator mem = first;
+    size_type position = 0;
+    for (const_iterator it = first; it != last; ++it) {
         if (position % digits == 0 && position != 0) {
             ret += " ";
         } else if (position % 8 == 0 && position != 0) {
@@ -657,7 +657,7 @@ constexpr std::string bit_vector<WordType, Allocator>::debug_string() {
     auto last = end();
     std::string ret = "";
     iterator mem = first;
-    auto position = 0;
+    size_type position = 0;
     for (iterator it = first; it != last; ++it) {
         if (position % digits == 0 && position != 0) {
             ret += " ";
-- 
2.43.0

