From ce8719340a4527cb8515043d2e2fb0301442e3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:58 +0000
Subject: [PATCH 01/15] fix: inserting or erasing an empty range must not
 relocate elements onto themselves

FixedVector/FixedDeque::insert(pos, first, first) and erase(pos, pos) relocated
every element after pos onto itself: move-construct over a live element, then
destroy it. With non-trivial elements this double-destroys on the next clear.
---
 include/fixed_containers/fixed_deque.hpp  | 12 ++++++++++++
 include/fixed_containers/fixed_vector.hpp | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/include/fixed_containers/fixed_deque.hpp b/include/fixed_containers/fixed_deque.hpp
index cc1d09f..5ad3d53 100644
--- a/include/fixed_containers/fixed_deque.hpp
+++ b/include/fixed_containers/fixed_deque.hpp
@@ -408,6 +408,12 @@ public:
             Checking::invalid_argument("iterators exceed container range", loc);
         }
 
+        if (first == last)
+        {
+            // Relocating elements onto themselves would destroy them
+            return const_to_mutable_it(first);
+        }
+
         const auto entry_count_to_move = std::distance(last, cend());
         const auto entry_count_to_remove = std::distance(first, last);
 
@@ -583,6 +589,12 @@ private:
     constexpr iterator advance_all_after_iterator_by_n(const const_iterator pos,
                                                        const std::size_t n)
     {
+        if (n == 0)
+        {
+            // Relocating elements onto themselves would destroy them
+            return const_to_mutable_it(pos);
+        }
+
         const std::ptrdiff_t value_count_to_move = std::distance(pos, cend());
         increment_size(n);  // Increment now so iterators are all within valid range
 
diff --git a/include/fixed_containers/fixed_vector.hpp b/include/fixed_containers/fixed_vector.hpp
index ef4ba81..c4ad376 100644
--- a/include/fixed_containers/fixed_vector.hpp
+++ b/include/fixed_containers/fixed_vector.hpp
@@ -391,6 +391,12 @@ public:
             Checking::invalid_argument("iterators exceed container range", loc);
         }
 
+        if (first == last)
+        {
+            // Relocating elements onto themselves would destroy them
+            return const_to_mutable_it(first);
+        }
+
         const auto entry_count_to_move = std::distance(last, cend());
         const auto entry_count_to_remove = std::distance(first, last);
 
@@ -593,6 +599,12 @@ private:
     constexpr iterator advance_all_after_iterator_by_n(const const_iterator pos,
                                                        const std::size_t n)
     {
+        if (n == 0)
+        {
+            // Relocating elements onto themselves would destroy them
+            return const_to_mutable_it(pos);
+        }
+
         const std::ptrdiff_t value_count_to_move = std::distance(pos, cend());
         increment_size(n);  // Increment now so iterators are all within valid range
 
-- 
2.43.0


From 915987173e021eca36ce2d243b124c081e311af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:29 +0000
Subject: [PATCH 02/15] fix: insert and emplace must read arguments that alias
 elements before relocating them

---
 include/fixed_containers/fixed_deque.hpp  | 8 ++++++--
 include/fixed_containers/fixed_vector.hpp | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/fixed_containers/fixed_deque.hpp b/include/fixed_containers/fixed_deque.hpp
index 5ad3d53..e4e4f98 100644
--- a/include/fixed_containers/fixed_deque.hpp
+++ b/include/fixed_containers/fixed_deque.hpp
@@ -324,8 +324,10 @@ public:
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
         check_not_full(loc);
+        // `value` may be an element of this container, so copy it before relocating elements
+        value_type entry(value);
         auto entry_it = advance_all_after_iterator_by_n(pos, 1);
-        memory::construct_at_address_of(*entry_it, value);
+        memory::construct_at_address_of(*entry_it, std::move(entry));
         return entry_it;
     }
     constexpr iterator insert(
@@ -361,8 +363,10 @@ public:
     constexpr iterator emplace(const_iterator pos, Args&&... args)
     {
         check_not_full(std_transition::source_location::current());
+        // `args` may refer to elements of this container, so use them before relocating elements
+        value_type entry(std::forward<Args>(args)...);
         auto entry_it = advance_all_after_iterator_by_n(pos, 1);
-        memory::construct_at_address_of(*entry_it, std::forward<Args>(args)...);
+        memory::construct_at_address_of(*entry_it, std::move(entry));
         return entry_it;
     }
 
diff --git a/include/fixed_containers/fixed_vector.hpp b/include/fixed_containers/fixed_vector.hpp
index c4ad376..a3ea20d 100644
--- a/include/fixed_containers/fixed_vector.hpp
+++ b/include/fixed_containers/fixed_vector.hpp
@@ -294,8 +294,10 @@ public:
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
         check_not_full(loc);
+        // `value` may be an element of this container, so copy it before relocating elements
+        value_type entry(value);
         auto entry_it = advance_all_after_iterator_by_n(pos, 1);
-        memory::construct_at_address_of(*entry_it, value);
+        memory::construct_at_address_of(*entry_it, std::move(entry));
         return entry_it;
     }
     constexpr iterator insert(
@@ -335,8 +337,10 @@ public:
     constexpr iterator emplace(const_iterator pos, Args&&... args)
     {
         check_not_full(std_transition::source_location::current());
+        // `args` may refer to elements of this container, so use them before relocating elements
+        value_type entry(std::forward<Args>(args)...);
         auto entry_it = advance_all_after_iterator_by_n(pos, 1);
-        memory::construct_at_address_of(*entry_it, std::forward<Args>(args)...);
+        memory::construct_at_address_of(*entry_it, std::move(entry));
         return entry_it;
     }
 
-- 
2.43.0


From 4c658fcda40fe6d6cb871fe4cf849c123e067c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:58 +0000
Subject: [PATCH 03/15] fix: wraparound decrement must not overflow the signed
 cycle count for a range of size 1

---
 include/fixed_containers/circular_indexing.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/fixed_containers/circular_indexing.hpp b/include/fixed_containers/circular_indexing.hpp
index 6ee5a23..114b3f1 100644
--- a/include/fixed_containers/circular_indexing.hpp
+++ b/include/fixed_containers/circular_indexing.hpp
@@ -63,7 +63,9 @@ constexpr CyclesAndInteger decrement_index_with_wraparound(const IntegerRangeTyp
         int_math::safe_subtract(negative_cycles * range_size, n).template cast<std::size_t>();
 
     CyclesAndInteger out = increment_index_with_wraparound(range, index, positive_modulo);
-    out.cycles -= static_cast<std::int64_t>(negative_cycles);
+    // Either operand can exceed the range of the signed type when the range is small, the difference
+    // does not
+    out.cycles = static_cast<std::int64_t>(static_cast<std::size_t>(out.cycles) - negative_cycles);
     return out;
 }
 }  // namespace fixed_containers::circular_indexing
-- 
2.43.0


From 65e967fcb7c7a313b717dbb6dab51f81f9c7a69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:16 +0000
Subject: [PATCH 04/15] fix: circular deque must not discard an element it
 still has to read, nor insert before a discarded position

---
 .../fixed_containers/fixed_circular_deque.hpp | 29 +++++++++++++++----
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/include/fixed_containers/fixed_circular_deque.hpp b/include/fixed_containers/fixed_circular_deque.hpp
index 1aaa04d..1c89d44 100644
--- a/include/fixed_containers/fixed_circular_deque.hpp
+++ b/include/fixed_containers/fixed_circular_deque.hpp
@@ -97,7 +97,14 @@ public:
         const value_type& value,
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
-        pop_front_if_full(loc);
+        if (is_full(deque()))
+        {
+            // `value` may be the element that is about to be discarded, so copy it first
+            value_type entry(value);
+            deque().pop_front(loc);
+            deque().push_back(std::move(entry), loc);
+            return;
+        }
         deque().push_back(value, loc);
     }
     constexpr void push_back(
@@ -125,7 +132,14 @@ public:
         const value_type& value,
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
-        pop_back_if_full(loc);
+        if (is_full(deque()))
+        {
+            // `value` may be the element that is about to be discarded, so copy it first
+            value_type entry(value);
+            deque().pop_back(loc);
+            deque().push_front(std::move(entry), loc);
+            return;
+        }
         deque().push_front(value, loc);
     }
     constexpr void push_front(
@@ -154,14 +168,18 @@ public:
         const value_type& value,
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
-        pop_front_if_full(loc);
-        return deque().insert(pos, value, loc);
+        return insert(pos, value_type(value), loc);
     }
     constexpr iterator insert(
         const_iterator pos,
         value_type&& value,
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
+        if (is_full(deque()) && pos == cbegin())
+        {
+            // `pos` is an uncrossable barrier: there is nothing before it that could be discarded
+            return begin();
+        }
         pop_front_if_full(loc);
         return deque().insert(pos, std::move(value), loc);
     }
@@ -187,8 +205,7 @@ public:
     template <class... Args>
     constexpr iterator emplace(const_iterator pos, Args&&... args)
     {
-        pop_front_if_full(std_transition::source_location::current());
-        return deque().emplace(pos, std::forward<Args>(args)...);
+        return insert(pos, value_type(std::forward<Args>(args)...));
     }
 
     constexpr void assign(
-- 
2.43.0


From 861c783c559d0912945eb7aec11c6ec61d6dd531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:16 +0000
Subject: [PATCH 05/15] fix: circular deque insert of an input range must drop
 the range when it is full at the insertion point

---
 include/fixed_containers/fixed_circular_deque.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fixed_containers/fixed_circular_deque.hpp b/include/fixed_containers/fixed_circular_deque.hpp
index 1c89d44..8d654f9 100644
--- a/include/fixed_containers/fixed_circular_deque.hpp
+++ b/include/fixed_containers/fixed_circular_deque.hpp
@@ -437,7 +437,8 @@ private:
 
         // If there are still more elements when we reach the barrier, overwrite the just-inserted
         // elements. This is analogous to dropping incoming elements in the std::input_iterator
-        // overload
+        // overload. When nothing was inserted (already full at the barrier), all of them are dropped.
+        if (middle_it != end())
         {
             auto left2_it = middle_it;
             auto right2_it = end();
-- 
2.43.0


From 2daa9d3ee055e0c50405005b196662781e17d538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:41 +0000
Subject: [PATCH 06/15] fix: circular deque emplace_back/emplace_front must use
 their arguments before discarding an element

---
 .../fixed_containers/fixed_circular_deque.hpp | 21 +++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/include/fixed_containers/fixed_circular_deque.hpp b/include/fixed_containers/fixed_circular_deque.hpp
index 8d654f9..82a4212 100644
--- a/include/fixed_containers/fixed_circular_deque.hpp
+++ b/include/fixed_containers/fixed_circular_deque.hpp
@@ -10,6 +10,7 @@
 #include <cstddef>
 #include <initializer_list>
 #include <iterator>
+#include <type_traits>
 #include <utility>
 
 namespace fixed_containers
@@ -118,6 +119,16 @@ public:
     template <class... Args>
     constexpr reference emplace_back(Args&&... args)
     {
+        if constexpr (std::is_move_constructible_v<T>)
+        {
+            if (is_full(deque()))
+            {
+                // `args` may refer to the element that is about to be discarded, so use them first
+                value_type entry(std::forward<Args>(args)...);
+                deque().pop_front(std_transition::source_location::current());
+                return deque().emplace_back(std::move(entry));
+            }
+        }
         pop_front_if_full(std_transition::source_location::current());
         return deque().emplace_back(std::forward<Args>(args)...);
     }
@@ -153,6 +164,16 @@ public:
     template <class... Args>
     constexpr reference emplace_front(Args&&... args)
     {
+        if constexpr (std::is_move_constructible_v<T>)
+        {
+            if (is_full(deque()))
+            {
+                // `args` may refer to the element that is about to be discarded, so use them first
+                value_type entry(std::forward<Args>(args)...);
+                deque().pop_back(std_transition::source_location::current());
+                return deque().emplace_front(std::move(entry));
+            }
+        }
         pop_back_if_full(std_transition::source_location::current());
         return deque().emplace_front(std::forward<Args>(args)...);
     }
-- 
2.43.0


From f44dcd7bdb828ce4d4161ea03186464a86c806b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:16 +0000
Subject: [PATCH 07/15] fix: FixedString::operator+=(char) must compile (append
 has no single character overload)

---
 include/fixed_containers/fixed_string.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fixed_containers/fixed_string.hpp b/include/fixed_containers/fixed_string.hpp
index 680b717..bc58e81 100644
--- a/include/fixed_containers/fixed_string.hpp
+++ b/include/fixed_containers/fixed_string.hpp
@@ -342,7 +342,8 @@ public:
 
     constexpr FixedString& operator+=(CharT character)
     {
-        return append(character, std_transition::source_location::current());
+        push_back(character, std_transition::source_location::current());
+        return *this;
     }
     constexpr FixedString& operator+=(const CharT* char_ptr)
     {
-- 
2.43.0


From 18a9b53d487cb4594d621edb34d2d9386b5e4fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:24 +0000
Subject: [PATCH 08/15] fix: FixedList::insert of an empty range must return
 pos, not end()

---
 include/fixed_containers/fixed_list.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/fixed_containers/fixed_list.hpp b/include/fixed_containers/fixed_list.hpp
index 7f93649..971b3ea 100644
--- a/include/fixed_containers/fixed_list.hpp
+++ b/include/fixed_containers/fixed_list.hpp
@@ -493,12 +493,13 @@ private:
         check_target_size(size() + entry_count_to_add, loc);
 
         const std::size_t insertion_point = index_of(pos);
-        std::size_t inserted_point = NULL_INDEX;  // First index returned during insertion
+        // First index returned during insertion, `pos` if there is nothing to insert
+        std::size_t inserted_point = insertion_point;
         for (; first != last; std::advance(first, 1))
         {
             const std::size_t new_inserted_point =
                 list().emplace_before_index_and_return_index(insertion_point, *first);
-            if (inserted_point == NULL_INDEX)
+            if (inserted_point == insertion_point)
             {
                 inserted_point = new_inserted_point;
             }
@@ -515,12 +516,13 @@ private:
                                        const std_transition::source_location& loc)
     {
         const std::size_t insertion_point = index_of(pos);
-        std::size_t inserted_point = NULL_INDEX;  // First index returned during insertion
+        // First index returned during insertion, `pos` if there is nothing to insert
+        std::size_t inserted_point = insertion_point;
         for (; first != last && size() < max_size(); std::advance(first, 1))
         {
             const std::size_t new_inserted_point =
                 list().emplace_before_index_and_return_index(insertion_point, *first);
-            if (inserted_point == NULL_INDEX)
+            if (inserted_point == insertion_point)
             {
                 inserted_point = new_inserted_point;
             }
-- 
2.43.0


From 86387288af208b7802d4bac9a1cedb844033ff96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:24 +0000
Subject: [PATCH 09/15] fix: FixedList::remove must work when value is an
 element of the list

---
 include/fixed_containers/fixed_list.hpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/include/fixed_containers/fixed_list.hpp b/include/fixed_containers/fixed_list.hpp
index 971b3ea..1a0d7ce 100644
--- a/include/fixed_containers/fixed_list.hpp
+++ b/include/fixed_containers/fixed_list.hpp
@@ -371,7 +371,25 @@ public:
     }
     constexpr size_type remove(const T& value)
     {
-        return remove_if([&value](const T& entry) { return entry == value; });
+        // `value` might be an entry of this list: that one has to outlive the comparisons.
+        bool remove_value_itself = false;
+        size_type removed_counter = remove_if(
+            [&value, &remove_value_itself](const T& entry)
+            {
+                if (std::addressof(entry) == std::addressof(value))
+                {
+                    remove_value_itself = entry == value;
+                    return false;
+                }
+                return static_cast<bool>(entry == value);
+            });
+        if (remove_value_itself)
+        {
+            removed_counter += remove_if(
+                [&value](const T& entry)
+                { return std::addressof(entry) == std::addressof(value); });
+        }
+        return removed_counter;
     }
 
     constexpr iterator erase(const_iterator first,
-- 
2.43.0


From ca69db7f2640c9308c9f25cb10a308714fdc9f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:24 +0000
Subject: [PATCH 10/15] fix: a moved-from FixedUnorderedMap/Set must not keep
 buckets for destroyed entries

---
 .../fixed_robinhood_hashtable.hpp             | 25 +++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/include/fixed_containers/fixed_robinhood_hashtable.hpp b/include/fixed_containers/fixed_robinhood_hashtable.hpp
index 69094d9..db87223 100644
--- a/include/fixed_containers/fixed_robinhood_hashtable.hpp
+++ b/include/fixed_containers/fixed_robinhood_hashtable.hpp
@@ -357,7 +357,11 @@ public:
         return end_value_index;
     }
 
-    constexpr void clear() { erase_range(begin_index(), end_index()); }
+    constexpr void clear()
+    {
+        IMPLEMENTATION_DETAIL_DO_NOT_USE_value_storage_.clear();
+        IMPLEMENTATION_DETAIL_DO_NOT_USE_bucket_array_ = {};
+    }
 
 public:
     constexpr FixedRobinhoodHashtable() = default;
@@ -386,7 +390,24 @@ public:
         requires(!IsReference<V>)
     = default;
 
-    constexpr FixedRobinhoodHashtable(FixedRobinhoodHashtable&& other) = default;
+    constexpr FixedRobinhoodHashtable(FixedRobinhoodHashtable&& other)
+        requires TriviallyMoveConstructible<decltype(IMPLEMENTATION_DETAIL_DO_NOT_USE_value_storage_)>
+    = default;
+    constexpr FixedRobinhoodHashtable(FixedRobinhoodHashtable&& other) noexcept(
+        std::is_nothrow_move_constructible_v<Hash> &&
+        std::is_nothrow_move_constructible_v<KeyEqual>)
+      : IMPLEMENTATION_DETAIL_DO_NOT_USE_value_storage_(
+            std::move(other.IMPLEMENTATION_DETAIL_DO_NOT_USE_value_storage_))
+      , IMPLEMENTATION_DETAIL_DO_NOT_USE_bucket_array_(
+            other.IMPLEMENTATION_DETAIL_DO_NOT_USE_bucket_array_)
+      , IMPLEMENTATION_DETAIL_DO_NOT_USE_hash_(
+            std::move(other.IMPLEMENTATION_DETAIL_DO_NOT_USE_hash_))
+      , IMPLEMENTATION_DETAIL_DO_NOT_USE_key_equal_(
+            std::move(other.IMPLEMENTATION_DETAIL_DO_NOT_USE_key_equal_))
+    {
+        // The value storage clears the list it moves from, so no bucket may refer to it any more.
+        other.clear();
+    }
     constexpr FixedRobinhoodHashtable& operator=(const FixedRobinhoodHashtable& other) = default;
     constexpr FixedRobinhoodHashtable& operator=(FixedRobinhoodHashtable&& other) = default;
 };
-- 
2.43.0


From 83b610a695a1f6a91825ee0a7616ad7d88776119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:24 +0000
Subject: [PATCH 11/15] fix: contiguous storage must not move-construct its
 last entry from itself after destroying it

---
 include/fixed_containers/fixed_index_based_storage.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/fixed_containers/fixed_index_based_storage.hpp b/include/fixed_containers/fixed_index_based_storage.hpp
index fb2bdfb..0d6372d 100644
--- a/include/fixed_containers/fixed_index_based_storage.hpp
+++ b/include/fixed_containers/fixed_index_based_storage.hpp
@@ -179,8 +179,11 @@ public:
 
     constexpr std::size_t delete_at_and_return_repositioned_index(const std::size_t index) noexcept
     {
-        memory::destroy_at_address_of(nodes().at(index));
-        memory::construct_at_address_of(nodes().at(index), std::move(nodes().back()));
+        if (index + 1 != nodes().size())
+        {
+            memory::destroy_at_address_of(nodes().at(index));
+            memory::construct_at_address_of(nodes().at(index), std::move(nodes().back()));
+        }
         nodes().pop_back();
         return nodes().size();
     }
-- 
2.43.0


From d25e5ec42348133c22731bafccc77c89ae6da045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:24 +0000
Subject: [PATCH 12/15] fix: EnumMap::insert_or_assign must compile for values
 that are not trivially assignable

---
 include/fixed_containers/enum_map.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/fixed_containers/enum_map.hpp b/include/fixed_containers/enum_map.hpp
index ec97eda..6f03041 100644
--- a/include/fixed_containers/enum_map.hpp
+++ b/include/fixed_containers/enum_map.hpp
@@ -466,14 +466,17 @@ public:
         requires std::is_assignable_v<mapped_type&, M&&>
     {
         const std::size_t ordinal = EnumAdapterType::ordinal(key);
-        const bool is_insertion = !array_set_unchecked_at(ordinal);
-        if (is_insertion)
+        if (array_set_unchecked_at(ordinal))
         {
-            increment_size();
-            array_set_unchecked_at(ordinal) = true;
+            values_unchecked_at(ordinal).get() = std::forward<M>(obj);
+            return {create_iterator(ordinal), false};
         }
-        values_unchecked_at(ordinal) = OptionalV(std::forward<M>(obj));
-        return {create_iterator(ordinal), is_insertion};
+
+        increment_size();
+        array_set_unchecked_at(ordinal) = true;
+        memory::construct_at_address_of(
+            values_unchecked_at(ordinal), std::in_place, std::forward<M>(obj));
+        return {create_iterator(ordinal), true};
     }
     template <class M>
     constexpr iterator insert_or_assign(const_iterator /*hint*/, const K& key, M&& obj) noexcept
-- 
2.43.0


From a39f2223154cc085a76490f7d40479ef8a25b9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:24 +0000
Subject: [PATCH 13/15] fix: FixedSet::rend must be relative to the smallest
 element, not to storage index 0

---
 include/fixed_containers/fixed_set.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fixed_containers/fixed_set.hpp b/include/fixed_containers/fixed_set.hpp
index 552d985..a0fb91d 100644
--- a/include/fixed_containers/fixed_set.hpp
+++ b/include/fixed_containers/fixed_set.hpp
@@ -183,7 +183,7 @@ public:
     }
     [[nodiscard]] constexpr const_reverse_iterator crend() const noexcept
     {
-        return create_const_reverse_iterator(0);
+        return create_const_reverse_iterator(tree().index_of_min_at());
     }
     [[nodiscard]] constexpr const_reverse_iterator rbegin() const noexcept { return crbegin(); }
     [[nodiscard]] constexpr const_reverse_iterator rend() const noexcept { return crend(); }
-- 
2.43.0


From ccdaa7c812e86b67f1a6d7f1bc01ee51571b743a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:24 +0000
Subject: [PATCH 14/15] fix: converting a reverse iterator to const must not
 advance it

---
 include/fixed_containers/bidirectional_iterator.hpp | 2 +-
 include/fixed_containers/random_access_iterator.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fixed_containers/bidirectional_iterator.hpp b/include/fixed_containers/bidirectional_iterator.hpp
index 180181d..f6dfed8 100644
--- a/include/fixed_containers/bidirectional_iterator.hpp
+++ b/include/fixed_containers/bidirectional_iterator.hpp
@@ -87,7 +87,7 @@ public:
     // Mutable iterator needs to be convertible to const iterator
     constexpr BidirectionalIterator(const Sibling& other) noexcept
         requires(CONSTNESS == IteratorConstness::CONSTANT_ITERATOR)
-      : BidirectionalIterator{other.reference_provider_}
+      : reference_provider_(other.reference_provider_)
     {
     }
 
diff --git a/include/fixed_containers/random_access_iterator.hpp b/include/fixed_containers/random_access_iterator.hpp
index 8adf210..4d72d3a 100644
--- a/include/fixed_containers/random_access_iterator.hpp
+++ b/include/fixed_containers/random_access_iterator.hpp
@@ -89,7 +89,7 @@ public:
     // Mutable iterator needs to be convertible to const iterator
     constexpr RandomAccessIterator(const Sibling& other) noexcept
         requires(CONSTNESS == IteratorConstness::CONSTANT_ITERATOR)
-      : RandomAccessIterator{other.reference_provider_}
+      : reference_provider_(other.reference_provider_)
     {
     }
 
-- 
2.43.0


From 9bc906e1165f16bc66ae5967dd352401d254cabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:26 +0000
Subject: [PATCH 15/15] fix: FixedRedBlackTree copies and moves keep the
 comparator for non-trivial keys or values

---
 include/fixed_containers/fixed_red_black_tree.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/fixed_containers/fixed_red_black_tree.hpp b/include/fixed_containers/fixed_red_black_tree.hpp
index 125b7e8..8fc7cc6 100644
--- a/include/fixed_containers/fixed_red_black_tree.hpp
+++ b/include/fixed_containers/fixed_red_black_tree.hpp
@@ -896,7 +896,7 @@ public:
 
     // TODO: Use O(N) algorithm. Do non-recursive
     constexpr FixedRedBlackTree(const FixedRedBlackTree& other)
-      : FixedRedBlackTree()
+      : FixedRedBlackTree(other.IMPLEMENTATION_DETAIL_DO_NOT_USE_comparator_)
     {
         for (NodeIndex i = other.index_of_min_at(); i != NULL_INDEX;
              i = other.index_of_successor_at(i))
@@ -914,7 +914,7 @@ public:
         }
     }
     constexpr FixedRedBlackTree(FixedRedBlackTree&& other) noexcept
-      : FixedRedBlackTree()
+      : FixedRedBlackTree(other.IMPLEMENTATION_DETAIL_DO_NOT_USE_comparator_)
     {
         for (NodeIndex i = other.index_of_min_at(); i != NULL_INDEX;
              i = other.index_of_successor_at(i))
@@ -943,6 +943,8 @@ public:
         }
 
         this->clear();
+        this->IMPLEMENTATION_DETAIL_DO_NOT_USE_comparator_ =
+            other.IMPLEMENTATION_DETAIL_DO_NOT_USE_comparator_;
         for (NodeIndex i = other.index_of_min_at(); i != NULL_INDEX;
              i = other.index_of_successor_at(i))
         {
@@ -967,6 +969,8 @@ public:
         }
 
         this->clear();
+        this->IMPLEMENTATION_DETAIL_DO_NOT_USE_comparator_ =
+            other.IMPLEMENTATION_DETAIL_DO_NOT_USE_comparator_;
         for (NodeIndex i = other.index_of_min_at(); i != NULL_INDEX;
              i = other.index_of_successor_at(i))
         {
-- 
2.43.0

