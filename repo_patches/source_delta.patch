From b0c9efa836c6b3a30002b989b6f31373e86b7fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:19 +0000
Subject: [PATCH 01/49] fix: verge_adapter accepts pairs of bidirectional
 iterators

The iterator overload computed the size of the range with operator-,
which only exists for random-access iterators.
---
 include/cpp-sort/adapters/verge_adapter.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cpp-sort/adapters/verge_adapter.h b/include/cpp-sort/adapters/verge_adapter.h
index b9a9f8c..cd0bfcb 100644
--- a/include/cpp-sort/adapters/verge_adapter.h
+++ b/include/cpp-sort/adapters/verge_adapter.h
@@ -83,7 +83,8 @@ namespace cppsort
                     "verge_adapter requires a stronger iterator category"
                 );
 
-                verge::sort<Stable>(std::move(first), std::move(last), last - first,
+                auto size = std::distance(first, last);
+                verge::sort<Stable>(std::move(first), std::move(last), size,
                                     std::move(compare), std::move(projection),
                                     this->get());
             }
-- 
2.43.0


From 85659003b8eeed3900efefe7ec3107e08a45ce0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:19 +0000
Subject: [PATCH 02/49] fix: spin_sorter when the halves to merge have
 different sizes

The final merge ran its blind part for the length of the first half even
when the second half was shorter, thus reading past its end (for example
when sorting 145 elements in descending order).
---
 include/cpp-sort/detail/boost_common/util/merge.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/cpp-sort/detail/boost_common/util/merge.h b/include/cpp-sort/detail/boost_common/util/merge.h
index ce26079..ed95367 100644
--- a/include/cpp-sort/detail/boost_common/util/merge.h
+++ b/include/cpp-sort/detail/boost_common/util/merge.h
@@ -20,6 +20,7 @@
 #define CPPSORT_DETAIL_BOOST_COMMON_UTIL_MERGE_H_
 
 #include <algorithm>
+#include <cstddef>
 #include <functional>
 #include <iterator>
 #include <memory>
@@ -130,8 +131,14 @@ namespace util
             }
         }
 
+        // The blind part of the merge can't be longer than the shortest
+        // of the two ranges, whose sizes might differ
+        std::ptrdiff_t min_len = end_buf1 - buf1;
+        if (end_buf2 - buf2 < min_len) {
+            min_len = end_buf2 - buf2;
+        }
         cppsort::detail::half_inplace_merge(buf1, end_buf1, buf2, end_buf2, buf_out,
-                                            end_buf1 - buf1, compare, projection);
+                                            min_len, compare, projection);
         return end_buf2;
     }
 }}}}
-- 
2.43.0


From 46d9c760dbae57a4e6cdb52639ecc6f5be036760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:19 +0000
Subject: [PATCH 03/49] fix: wiki_sorter and grail_sorter with a log size
 policy and no element

The size policy was called with 0 and returned -inf, whose conversion
to std::size_t is undefined and asked for a huge buffer.
---
 include/cpp-sort/detail/grail_sort.h | 6 +++++-
 include/cpp-sort/detail/wiki_sort.h  | 4 ++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/cpp-sort/detail/grail_sort.h b/include/cpp-sort/detail/grail_sort.h
index 834d418..01b8a8b 100644
--- a/include/cpp-sort/detail/grail_sort.h
+++ b/include/cpp-sort/detail/grail_sort.h
@@ -745,8 +745,12 @@ namespace grail
                     Compare compare, Projection projection)
         -> void
     {
-        // Allocate temporary buffer
+        // Don't ask the buffer provider for the size of a buffer
+        // that won't be used, some size policies can't handle 0
         auto size = last - first;
+        if (size == 0) return;
+
+        // Allocate temporary buffer
         typename BufferProvider::template buffer<rvalue_type_t<RandomAccessIterator>> buffer(size);
 
         using compare_t = std::remove_reference_t<decltype(utility::as_function(compare))>;
diff --git a/include/cpp-sort/detail/wiki_sort.h b/include/cpp-sort/detail/wiki_sort.h
index 23fa5e7..72b6f92 100644
--- a/include/cpp-sort/detail/wiki_sort.h
+++ b/include/cpp-sort/detail/wiki_sort.h
@@ -922,6 +922,10 @@ namespace detail
         // just keep in mind that making it too small ruins the point (nothing will fit into it),
         // and making it too large also ruins the point (so much for "low memory"!)
         using rvalue_type = rvalue_type_t<RandomAccessIterator>;
+
+        // don't ask the buffer provider for the size of a buffer that won't be used,
+        // some size policies can't handle 0
+        if (first == last) return;
         typename BufferProvider::template buffer<rvalue_type> cache(last - first);
 
         Wiki::sort(std::move(first), std::move(last),
-- 
2.43.0


From c56481540b296016afb0a55b374c8719b1cae164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:05 +0000
Subject: [PATCH 04/49] fix: vergesort merging a run of one element that isn't
 the first run

The rotation that inserts the element started at the beginning of the
collection instead of that of the run.
---
 include/cpp-sort/detail/vergesort.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cpp-sort/detail/vergesort.h b/include/cpp-sort/detail/vergesort.h
index 8671b5a..9144953 100644
--- a/include/cpp-sort/detail/vergesort.h
+++ b/include/cpp-sort/detail/vergesort.h
@@ -67,7 +67,7 @@ namespace verge
                     auto&& target = proj(*begin);
                     if (comp(proj(*it->end), target)) {
                         auto insert_it = detail::lower_bound_n(it->end, next_it->size, target, compare, projection);
-                        detail::rotate_left(first, insert_it);
+                        detail::rotate_left(begin, insert_it);
                     } else {
                     }
                 } else if (next_it->size == 1) {
-- 
2.43.0


From 5741f496e95b27ab11e3cbc68627514f1b833577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:53 +0000
Subject: [PATCH 05/49] fix: wiki_sorter constructing over and destroying the
 alive objects of its buffer

---
 include/cpp-sort/detail/wiki_sort.h | 32 +++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/include/cpp-sort/detail/wiki_sort.h b/include/cpp-sort/detail/wiki_sort.h
index 72b6f92..3f64f89 100644
--- a/include/cpp-sort/detail/wiki_sort.h
+++ b/include/cpp-sort/detail/wiki_sort.h
@@ -19,6 +19,7 @@
 #include <iterator>
 #include <type_traits>
 #include <utility>
+#include <cpp-sort/comparators/flip.h>
 #include <cpp-sort/utility/as_function.h>
 #include <cpp-sort/utility/iter_move.h>
 #include "bitops.h"
@@ -168,6 +169,33 @@ namespace detail
 
     namespace Wiki
     {
+        // merge operation using the cache: it already contains alive objects
+        // owned by the buffer, so the elements are move-assigned to them
+        template<typename RandomAccessIterator, typename CacheIterator,
+                 typename Compare, typename Projection>
+        auto merge_with_cache(RandomAccessIterator first, RandomAccessIterator middle,
+                              RandomAccessIterator last,
+                              Compare compare, Projection projection,
+                              difference_type_t<RandomAccessIterator> len1,
+                              difference_type_t<RandomAccessIterator> len2,
+                              CacheIterator cache)
+            -> void
+        {
+            if (len1 <= len2) {
+                auto cache_end = detail::move(first, middle, cache);
+                half_inplace_merge(cache, cache_end, middle, last, first, len1,
+                                   std::move(compare), std::move(projection));
+            } else {
+                auto cache_end = detail::move(middle, last, cache);
+                using rbi = std::reverse_iterator<RandomAccessIterator>;
+                using rci = std::reverse_iterator<CacheIterator>;
+                half_inplace_merge(rci(cache_end), rci(cache),
+                                   rbi(middle), rbi(first),
+                                   rbi(last), len2,
+                                   cppsort::flip(compare), std::move(projection));
+            }
+        }
+
         // merge operation using an internal buffer
         template<typename RandomAccessIterator, typename Compare, typename Projection>
         auto MergeInternal(RandomAccessIterator first1, RandomAccessIterator last1,
@@ -492,8 +520,8 @@ namespace detail
                                 detail::rotate(A.start, A.end, B.end);
                             } else if (comp(proj(*B.start), proj(*std::prev(A.end)))) {
                                 // these two ranges weren't already in order, so we need to merge them
-                                buffered_inplace_merge(A.start, A.end, B.end, compare, projection,
-                                                       A.length(), B.length(), cache_begin);
+                                merge_with_cache(A.start, A.end, B.end, compare, projection,
+                                                 A.length(), B.length(), cache_begin);
                             }
                         }
                     }
-- 
2.43.0


From e51751538661c2ef60e7ce004b2f0f5d13652bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:31 +0000
Subject: [PATCH 06/49] fix: don't downcast the sentinel node of
 fixed_size_list to a full node

---
 include/cpp-sort/detail/fixed_size_list.h | 53 +++++++++++++----------
 include/cpp-sort/detail/melsort.h         |  4 +-
 2 files changed, 33 insertions(+), 24 deletions(-)

diff --git a/include/cpp-sort/detail/fixed_size_list.h b/include/cpp-sort/detail/fixed_size_list.h
index 6ac8710..46bb160 100644
--- a/include/cpp-sort/detail/fixed_size_list.h
+++ b/include/cpp-sort/detail/fixed_size_list.h
@@ -292,6 +292,15 @@ namespace detail
                 return static_cast<node_type*>(ptr_);
             }
 
+            // Unlike base(), can be called on an iterator to the sentinel node,
+            // which isn't a node_type
+            CPPSORT_ATTRIBUTE_NODISCARD
+            constexpr auto node_base() const noexcept
+                -> list_node_base*
+            {
+                return ptr_;
+            }
+
             ////////////////////////////////////////////////////////////
             // Element access
 
@@ -349,14 +358,14 @@ namespace detail
             friend constexpr auto operator==(const fixed_size_list_iterator& lhs, const fixed_size_list_iterator& rhs) noexcept
                 -> bool
             {
-                return lhs.base() == rhs.base();
+                return lhs.node_base() == rhs.node_base();
             }
 
             CPPSORT_ATTRIBUTE_NODISCARD
             friend constexpr auto operator!=(const fixed_size_list_iterator& lhs, const fixed_size_list_iterator& rhs) noexcept
                 -> bool
             {
-                return lhs.base() != rhs.base();
+                return lhs.node_base() != rhs.node_base();
             }
 
         private:
@@ -545,13 +554,13 @@ namespace detail
             auto insert(iterator pos, const value_type& value)
                 -> iterator
             {
-                return iterator(insert_node_(pos.base(), value));
+                return iterator(insert_node_(pos.node_base(), value));
             }
 
             auto insert(iterator pos, value_type&& value)
                 -> iterator
             {
-                return iterator(insert_node_(pos.base(), std::move(value)));
+                return iterator(insert_node_(pos.node_base(), std::move(value)));
             }
 
             auto push_back(const value_type& value)
@@ -607,7 +616,7 @@ namespace detail
             auto extract(iterator pos) noexcept
                 -> node_type*
             {
-                return extract(pos.base());
+                return extract(pos.node_base());
             }
 
             CPPSORT_ATTRIBUTE_NODISCARD
@@ -731,15 +740,15 @@ namespace detail
                             insert_last = other_it;
                             ++other_it;
                         } while (other_it != other_end && comp(proj(*other_it), proj(*first)));
-                        first.base()->prev->next = insert_first.base();
-                        insert_last.base()->next = first.base();
+                        first.node_base()->prev->next = insert_first.node_base();
+                        insert_last.node_base()->next = first.node_base();
                     } else {
                         ++first;
                     }
 
                     if (first == last) {
-                        last.base()->prev->next = other_it.base();
-                        other_end.base()->prev->next = last.base();
+                        last.node_base()->prev->next = other_it.node_base();
+                        other_end.node_base()->prev->next = last.node_base();
                         // Reset the other list's sentinel node,
                         // fast_splice_ does no do it
                         other.sentinel_node_.next = &other.sentinel_node_;
@@ -766,19 +775,19 @@ namespace detail
             auto splice(iterator pos, fixed_size_list&, iterator first, iterator last) noexcept
                 -> void
             {
-                CPPSORT_ASSERT(first.base() != last.base());
+                CPPSORT_ASSERT(first.node_base() != last.node_base());
 
-                auto last_1 = last.base()->prev;
+                auto last_1 = last.node_base()->prev;
 
                 // Relink nodes in the other list
-                first.base()->prev->next = last.base();
-                last.base()->prev = first.base()->prev;
+                first.node_base()->prev->next = last.node_base();
+                last.node_base()->prev = first.node_base()->prev;
 
                 // Add the range of elements to this list
-                pos.base()->prev->next = first.base();
-                first.base()->prev = pos.base()->prev;
-                pos.base()->prev = last_1;
-                last_1->next = pos.base();
+                pos.node_base()->prev->next = first.node_base();
+                first.node_base()->prev = pos.node_base()->prev;
+                pos.node_base()->prev = last_1;
+                last_1->next = pos.node_base();
             }
 
         private:
@@ -827,7 +836,7 @@ namespace detail
             auto fast_splice_(iterator pos, iterator first, iterator last) noexcept
                 -> void
             {
-                CPPSORT_ASSERT(first.base() != last.base());
+                CPPSORT_ASSERT(first.node_base() != last.node_base());
 
                 // This function is like splice(), but it doesn't relink
                 // nodes in the other list: when merging another list into
@@ -837,10 +846,10 @@ namespace detail
                 // of the operation instead
 
                 // Add the range of elements to this list
-                pos.base()->prev->next = first.base();
-                first.base()->prev = pos.base()->prev;
-                pos.base()->prev = last.base()->prev;
-                last.base()->prev->next = pos.base();
+                pos.node_base()->prev->next = first.node_base();
+                first.node_base()->prev = pos.node_base()->prev;
+                pos.node_base()->prev = last.node_base()->prev;
+                last.node_base()->prev->next = pos.node_base();
             }
 
             ////////////////////////////////////////////////////////////
diff --git a/include/cpp-sort/detail/melsort.h b/include/cpp-sort/detail/melsort.h
index aeefe25..467c766 100644
--- a/include/cpp-sort/detail/melsort.h
+++ b/include/cpp-sort/detail/melsort.h
@@ -49,7 +49,7 @@ namespace detail
         fixed_size_list<NodeType> edges(lists.front().node_pool());
 
         if (extract_edges) {
-            list_node_base* insert_node = edges.end().base();
+            list_node_base* insert_node = edges.end().node_base();
             // Add minimums of encroaching lists
             for (auto& list : lists) {
                 insert_node->next = list.extract_front();
@@ -66,7 +66,7 @@ namespace detail
                 insert_node->next = list.extract_back();
                 insert_node = insert_node->next;
             }
-            insert_node->next = edges.end().base();
+            insert_node->next = edges.end().node_base();
             // Proper link back from the sentinel node
             insert_node->next->prev = insert_node;
 
-- 
2.43.0


From a086984c45a2c8d8587fa734a0e50717ed7d36c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:48 +0000
Subject: [PATCH 07/49] fix: mel_sorter and slab_sorter destroying nodes twice
 when a comparison throws during a merge

---
 include/cpp-sort/detail/fixed_size_list.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/cpp-sort/detail/fixed_size_list.h b/include/cpp-sort/detail/fixed_size_list.h
index 46bb160..476d3fe 100644
--- a/include/cpp-sort/detail/fixed_size_list.h
+++ b/include/cpp-sort/detail/fixed_size_list.h
@@ -678,6 +678,10 @@ namespace detail
                             ++other_it;
                         } while (other_it != other_end && comp(proj(*other_it), proj(*first)));
                         fast_splice_(first, insert_begin, other_it);
+                        // The spliced nodes don't belong to other anymore: make
+                        // sure that it doesn't destroy them in case a comparison
+                        // or projection throws
+                        other.sentinel_node_.next = other_it.node_base();
                     } else {
                         ++first;
                     }
@@ -742,6 +746,10 @@ namespace detail
                         } while (other_it != other_end && comp(proj(*other_it), proj(*first)));
                         first.node_base()->prev->next = insert_first.node_base();
                         insert_last.node_base()->next = first.node_base();
+                        // The inserted nodes don't belong to other anymore: make
+                        // sure that it doesn't destroy them in case a comparison
+                        // or projection throws
+                        other.sentinel_node_.next = other_it.node_base();
                     } else {
                         ++first;
                     }
-- 
2.43.0


From d1afd5f4afcfd30b83d0804363e67acd03fa9c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:48 +0000
Subject: [PATCH 08/49] fix: schwartz_adapter and stable_adapter terminating
 when a move assignment throws

---
 include/cpp-sort/detail/associate_iterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cpp-sort/detail/associate_iterator.h b/include/cpp-sort/detail/associate_iterator.h
index 2d70e74..81c9d5a 100644
--- a/include/cpp-sort/detail/associate_iterator.h
+++ b/include/cpp-sort/detail/associate_iterator.h
@@ -64,7 +64,7 @@ namespace detail
             data(std::move(data))
         {}
 
-        auto operator=(association&& other) noexcept
+        auto operator=(association&& other)
             -> association&
         {
             *it = std::move(*other.it);
-- 
2.43.0


From 2de6a4535c594e34386d3a16e1cb94c13ff2b1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:56 +0000
Subject: [PATCH 09/49] fix: slab_sorter leaking the moved elements when a move
 construction throws

---
 include/cpp-sort/detail/slabsort.h | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/include/cpp-sort/detail/slabsort.h b/include/cpp-sort/detail/slabsort.h
index a647535..4441142 100644
--- a/include/cpp-sort/detail/slabsort.h
+++ b/include/cpp-sort/detail/slabsort.h
@@ -199,12 +199,26 @@ namespace detail
         // Reify encroaching lists
 
         for (auto& list : lists) {
-            // TODO: handle destruction when an exception is thrown during the loop
-            for (auto it = list.begin(), end = list.end() ; it != end ; ++it) {
-                auto node = it.base();
-                auto value_it = node->it;
-                detail::destroy_at(&node->it);
-                ::new(&node->value) rvalue_type(iter_move(value_it));
+            auto it = list.begin();
+            auto end = list.end();
+            try {
+                for (; it != end ; ++it) {
+                    auto node = it.base();
+                    auto value_it = node->it;
+                    detail::destroy_at(&node->it);
+                    ::new(&node->value) rvalue_type(iter_move(value_it));
+                }
+            } catch (...) {
+                // The nodes before it hold a value, those after it still hold
+                // an iterator: destroy them here instead of in the list
+                for (auto it2 = list.begin() ; it2 != it ; ++it2) {
+                    destroy_node_contents<rvalue_type, node_type, &node_type::value>(it2.base());
+                }
+                for (auto it2 = std::next(it) ; it2 != end ; ++it2) {
+                    destroy_node_contents<BidirectionalIterator, node_type, &node_type::it>(it2.base());
+                }
+                list.set_node_destructor([](node_type*) {});
+                throw;
             }
             list.set_node_destructor(destroy_node_contents<rvalue_type, node_type, &node_type::value>);
         }
-- 
2.43.0


From 5ecd3b1aa5233f26b9f3c57e289fe05be80a3074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:23 +0000
Subject: [PATCH 10/49] fix: container_aware_adapter<merge_sorter> not sorting
 lists stably

---
 .../detail/container_aware/merge_sort.h       | 34 +++++++++----------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/include/cpp-sort/detail/container_aware/merge_sort.h b/include/cpp-sort/detail/container_aware/merge_sort.h
index 5bf3c75..8ab5e3a 100644
--- a/include/cpp-sort/detail/container_aware/merge_sort.h
+++ b/include/cpp-sort/detail/container_aware/merge_sort.h
@@ -33,17 +33,17 @@ namespace cppsort
         {
             if (collection.size() < 2) return;
 
-            // Extract left part
-            auto first = collection.begin();
-            auto middle = std::next(first, collection.size() / 2);
-            std::list<Args...> left(collection.get_allocator());
-            left.splice(left.begin(), collection, first, middle);
+            // Extract right part: merge() favours the elements of *this
+            // when elements are equivalent, it must be the left part
+            auto middle = std::next(collection.begin(), collection.size() / 2);
+            std::list<Args...> right(collection.get_allocator());
+            right.splice(right.begin(), collection, middle, collection.end());
 
             // Recursively sort, then merge
-            list_merge_sort(left, compare, projection);
             list_merge_sort(collection, compare, projection);
-            collection.merge(std::move(left), make_projection_compare(std::move(compare),
-                                                                      std::move(projection)));
+            list_merge_sort(right, compare, projection);
+            collection.merge(std::move(right), make_projection_compare(std::move(compare),
+                                                                       std::move(projection)));
         }
 
         template<typename Compare, typename Projection,
@@ -54,17 +54,17 @@ namespace cppsort
         {
             if (size < 2) return;
 
-            // Extract left part
-            auto first = collection.before_begin();
-            auto middle = std::next(first, size / 2 + 1);
-            std::forward_list<Args...> left(collection.get_allocator());
-            left.splice_after(left.before_begin(), collection, first, middle);
+            // Extract right part: merge() favours the elements of *this
+            // when elements are equivalent, it must be the left part
+            auto before_middle = std::next(collection.before_begin(), size / 2);
+            std::forward_list<Args...> right(collection.get_allocator());
+            right.splice_after(right.before_begin(), collection, before_middle, collection.end());
 
             // Recursively sort, then merge
-            flist_merge_sort(left, size / 2, compare, projection);
-            flist_merge_sort(collection, size - size / 2, compare, projection);
-            collection.merge(std::move(left), make_projection_compare(std::move(compare),
-                                                                      std::move(projection)));
+            flist_merge_sort(collection, size / 2, compare, projection);
+            flist_merge_sort(right, size - size / 2, compare, projection);
+            collection.merge(std::move(right), make_projection_compare(std::move(compare),
+                                                                       std::move(projection)));
         }
     }
 
-- 
2.43.0


From 5b68f65bd5774b5476e32aa67a52d74b467a818e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:00 +0000
Subject: [PATCH 11/49] fix: osc's max_for_size for even sizes and for one
 element

---
 docs/Measures-of-presortedness.md | 2 +-
 include/cpp-sort/probes/osc.h     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/docs/Measures-of-presortedness.md b/docs/Measures-of-presortedness.md
index 1be6f1b..aa51e1c 100644
--- a/docs/Measures-of-presortedness.md
+++ b/docs/Measures-of-presortedness.md
@@ -233,7 +233,7 @@ Computes the *Oscillation* measure described by C. Levcopoulos and O. Petersson
 
 When there isn't enough extra memory available, `probe::osc` falls back to an in-place O(n²) algorithm.
 
-`max_for_size`: (|*X*| * (|*X*| - 2) - 1) / 2 when the values in *X* are strongly oscillating.
+`max_for_size`: |*X*| * (|*X*| - 2) / 2 (rounded down) when the values in *X* are strongly oscillating.
 
 ***WARNING:** the O(n²) fallback of `probe::osc` is deprecated since version 1.12.0 and removed in version 2.0.0.*
 
diff --git a/include/cpp-sort/probes/osc.h b/include/cpp-sort/probes/osc.h
index afa170b..771b801 100644
--- a/include/cpp-sort/probes/osc.h
+++ b/include/cpp-sort/probes/osc.h
@@ -210,7 +210,7 @@ namespace probe
             static constexpr auto max_for_size(Integer n)
                 -> Integer
             {
-                return n == 0 ? 0 : (n * (n - 2) - 1) / 2;
+                return n < 2 ? 0 : n * (n - 2) / 2;
             }
         };
     }
-- 
2.43.0


From 3e62838df96fec33847af0c19f5b4d3037f7ffc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:04 +0000
Subject: [PATCH 12/49] fix: block probe not returning 0 for sorted collections
 with equivalent elements

---
 include/cpp-sort/probes/block.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/cpp-sort/probes/block.h b/include/cpp-sort/probes/block.h
index e83fb26..01d2d93 100644
--- a/include/cpp-sort/probes/block.h
+++ b/include/cpp-sort/probes/block.h
@@ -19,7 +19,7 @@
 #include <cpp-sort/utility/static_const.h>
 #include "../detail/immovable_vector.h"
 #include "../detail/iterator_traits.h"
-#include "../detail/pdqsort.h"
+#include "../detail/timsort.h"
 #include "../detail/type_traits.h"
 
 namespace cppsort
@@ -51,8 +51,10 @@ namespace probe
                 iterators.emplace_back(it);
             }
 
-            // Sort the iterators on pointed values
-            cppsort::detail::pdqsort(
+            // Sort the iterators on pointed values, the sort has to be
+            // stable for equivalent elements not to be considered out
+            // of place in an already sorted collection
+            cppsort::detail::timsort(
                 iterators.begin(), iterators.end(),
                 compare, utility::indirect{} | projection
             );
-- 
2.43.0


From a1e441a8bca52104d9198c97cbcbcdcb5de6d218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:17 +0000
Subject: [PATCH 13/49] fix: merge of forward iterators reading past the end
 when the buffer is smaller than the collection

---
 include/cpp-sort/detail/recmerge_forward.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cpp-sort/detail/recmerge_forward.h b/include/cpp-sort/detail/recmerge_forward.h
index 333711e..37b6e86 100644
--- a/include/cpp-sort/detail/recmerge_forward.h
+++ b/include/cpp-sort/detail/recmerge_forward.h
@@ -25,6 +25,7 @@
 ////////////////////////////////////////////////////////////
 // Headers
 ////////////////////////////////////////////////////////////
+#include <algorithm>
 #include <iterator>
 #include <memory>
 #include <utility>
@@ -116,7 +117,7 @@ namespace detail
 
             half_inplace_merge(
                 buffer, buff_ptr, f1, std::next(f1, n1), f0,
-                n0, std::move(compare), std::move(projection)
+                (std::min)(n0, n1), std::move(compare), std::move(projection)
             );
             return;
         }
-- 
2.43.0


From 34d7bde3112f27b3981acd36614a69be049eca8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:47 +0000
Subject: [PATCH 14/49] fix: sorted_indices not accepting projections and
 iterators that return by value

---
 include/cpp-sort/utility/sorted_indices.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cpp-sort/utility/sorted_indices.h b/include/cpp-sort/utility/sorted_indices.h
index 7b04182..1053f0c 100644
--- a/include/cpp-sort/utility/sorted_indices.h
+++ b/include/cpp-sort/utility/sorted_indices.h
@@ -69,7 +69,7 @@ namespace utility
 
                 // Reorder the vector thanks to the passed sorter
                 this->get()(indices, std::move(compare),
-                            [&first, &proj](difference_type index) -> auto& {
+                            [&first, &proj](difference_type index) -> decltype(auto) {
                                 return proj(first[index]);
                             });
 
-- 
2.43.0


From e90bbc96ea59fa1ee3df8626ce428974bc4e98ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:49 +0000
Subject: [PATCH 15/49] fix: merge_insertion_sorter performing more comparisons
 than the Ford-Johnson algorithm

---
 include/cpp-sort/detail/merge_insertion_sort.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/cpp-sort/detail/merge_insertion_sort.h b/include/cpp-sort/detail/merge_insertion_sort.h
index 984a2fe..cae11f4 100644
--- a/include/cpp-sort/detail/merge_insertion_sort.h
+++ b/include/cpp-sort/detail/merge_insertion_sort.h
@@ -338,7 +338,7 @@ namespace detail
         //                 = 2J(n)
         // By keeping track of powers of two and J(n), J(n+1) - J(n) can thus
         // be computed with two shifts and a subtraction.
-        for (typename list_t::difference_type pow2 = 1, jn = 0, dist = 2;
+        for (typename list_t::difference_type pow2 = 1, jn = 1, dist = 2;
              dist <= pend.end() - current_pend;
              pow2 *= 2, jn = pow2 - jn, dist = 2 * jn) {
 
@@ -363,16 +363,17 @@ namespace detail
         }
 
         // If there are pend elements left, insert them into the main
-        // chain, the order of insertion does not matter so forward
-        // traversal is ok
-        while (current_pend != pend.end()) {
-            current_it += 2;
+        // chain: they form an incomplete cycle, they have to be inserted
+        // from the last to the first too in order not to perform more
+        // comparisons than needed
+        current_it += (pend.end() - current_pend) * 2;
+        for (auto pe = pend.end() ; pe != current_pend ; current_it -= 2) {
+            --pe;
             auto insertion_point = detail::upper_bound(
-                chain.begin(), *current_pend, proj(*current_it),
+                chain.begin(), *pe, proj(*current_it),
                 compare, utility::indirect{} | projection
             );
             chain.insert(insertion_point, current_it);
-            ++current_pend;
         }
 
         ////////////////////////////////////////////////////////////
-- 
2.43.0


From b95eca44430a77d813d10610c50f4fe6a6dfae82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:07 +0000
Subject: [PATCH 16/49] fix: converting assignment of utility::metric accessed
 a private member of another type

---
 include/cpp-sort/utility/metrics_tools.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cpp-sort/utility/metrics_tools.h b/include/cpp-sort/utility/metrics_tools.h
index 4963c4b..50b7646 100644
--- a/include/cpp-sort/utility/metrics_tools.h
+++ b/include/cpp-sort/utility/metrics_tools.h
@@ -91,7 +91,7 @@ namespace utility
                 noexcept(std::is_nothrow_assignable<T&, const U&>::value)
                 -> metric&
             {
-                _value = other._value;
+                _value = other.value();
                 return *this;
             }
 
@@ -100,7 +100,7 @@ namespace utility
                 noexcept(std::is_nothrow_assignable<T&, U>::value)
                 -> metric&
             {
-                _value = std::move(other._value);
+                _value = std::move(other).value();
                 return *this;
             }
 
-- 
2.43.0


From 365bb7b0ac57d2c6b47b254bb123d7cc6c8536b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:07 +0000
Subject: [PATCH 17/49] fix: cartesian_tree_sorter did not compile with
 projections callable only when not const

---
 include/cpp-sort/detail/cartesian_tree_sort.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cpp-sort/detail/cartesian_tree_sort.h b/include/cpp-sort/detail/cartesian_tree_sort.h
index 2f273ca..1891a5b 100644
--- a/include/cpp-sort/detail/cartesian_tree_sort.h
+++ b/include/cpp-sort/detail/cartesian_tree_sort.h
@@ -128,7 +128,7 @@ namespace detail
         pq.push_back(tree.root());
 
         auto&& comp = cppsort::flip(compare);
-        auto proj_value = [proj=utility::as_function(projection)](auto* node) -> decltype(auto) {
+        auto proj_value = [proj=utility::as_function(projection)](auto* node) mutable -> decltype(auto) {
             return proj(static_cast<node_type*>(node)->value);
         };
 
-- 
2.43.0


From 0e0dc3d85f5e7b369d712c5d0625a9fc12a8c02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:34 +0000
Subject: [PATCH 18/49] fix: keep both zeros when compare-exchanging -0.0 and
 0.0

---
 include/cpp-sort/detail/swap_if.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cpp-sort/detail/swap_if.h b/include/cpp-sort/detail/swap_if.h
index ff46cff..7ea2e4d 100644
--- a/include/cpp-sort/detail/swap_if.h
+++ b/include/cpp-sort/detail/swap_if.h
@@ -61,7 +61,7 @@ namespace detail
     {
         Float dx = x;
         x = (std::min)(x, y);
-        y = (std::max)(dx, y);
+        y = (std::max)(y, dx);
     }
 
     template<typename Integer>
@@ -79,7 +79,7 @@ namespace detail
     {
         Float dx = x;
         x = (std::max)(x, y);
-        y = (std::min)(dx, y);
+        y = (std::min)(y, dx);
     }
 
 #if CPPSORT_STD_IDENTITY_AVAILABLE
-- 
2.43.0


From 9dd180d30d4a81fd731bb5da91f540ee2fa1717f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:38 +0000
Subject: [PATCH 19/49] fix: accept swap_index_pairs_force_unroll without
 arguments for an empty network

---
 include/cpp-sort/utility/sorting_networks.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/cpp-sort/utility/sorting_networks.h b/include/cpp-sort/utility/sorting_networks.h
index cc79f36..f10cf7a 100644
--- a/include/cpp-sort/utility/sorting_networks.h
+++ b/include/cpp-sort/utility/sorting_networks.h
@@ -118,9 +118,14 @@ namespace utility
         detail::index_pair_swapper_force_unroll<0>::do_it(first, index_pairs, std::move(compare), std::move(projection));
     }
 
-    template<typename RandomAccessIterator, typename IndexType, typename Compare, typename Projection>
+    template<
+        typename RandomAccessIterator,
+        typename IndexType,
+        typename Compare = std::less<>,
+        typename Projection = utility::identity
+    >
     auto swap_index_pairs_force_unroll(RandomAccessIterator, const std::array<index_pair<IndexType>, 0>&,
-                                       Compare, Projection)
+                                       Compare={}, Projection={})
         -> void
     {}
 }}
-- 
2.43.0


From 637a72153f8f35c496c3075bb432ef82ce243ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:05 +0000
Subject: [PATCH 20/49] fix: sorting_network_sorter's domain covers its
 networks of 33 to 64 inputs

---
 include/cpp-sort/fixed/sorting_network_sorter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cpp-sort/fixed/sorting_network_sorter.h b/include/cpp-sort/fixed/sorting_network_sorter.h
index 191ac40..d4cf5dc 100644
--- a/include/cpp-sort/fixed/sorting_network_sorter.h
+++ b/include/cpp-sort/fixed/sorting_network_sorter.h
@@ -78,7 +78,7 @@ namespace cppsort
     template<>
     struct fixed_sorter_traits<sorting_network_sorter>
     {
-        using domain = std::make_index_sequence<33>;
+        using domain = std::make_index_sequence<65>;
         using iterator_category = std::random_access_iterator_tag;
         using is_always_stable = std::false_type;
     };
-- 
2.43.0


From 0dd01030edfb32a40b3159f52fccdcdcd7178fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:09 +0000
Subject: [PATCH 21/49] fix: small_array_adapter rejects arrays out of its
 domain with a soft error

---
 .../cpp-sort/adapters/small_array_adapter.h   | 24 +++++++++++--------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/include/cpp-sort/adapters/small_array_adapter.h b/include/cpp-sort/adapters/small_array_adapter.h
index ccebe04..c9ed199 100644
--- a/include/cpp-sort/adapters/small_array_adapter.h
+++ b/include/cpp-sort/adapters/small_array_adapter.h
@@ -65,22 +65,26 @@ namespace cppsort
             detail::all(std::is_empty<FixedSizeSorter<Indices>>::value...)
         >
     {
-        template<typename T, std::size_t N, typename... Args>
+        template<
+            typename T,
+            std::size_t N,
+            typename... Args,
+            typename = detail::enable_if_t<detail::is_in_pack<N, Indices...>>
+        >
         auto operator()(std::array<T, N>& array, Args&&... args) const
-            -> detail::enable_if_t<
-                detail::is_in_pack<N, Indices...>,
-                decltype(FixedSizeSorter<N>{}(array, std::forward<Args>(args)...))
-            >
+            -> decltype(FixedSizeSorter<N>{}(array, std::forward<Args>(args)...))
         {
             return FixedSizeSorter<N>{}(array, std::forward<Args>(args)...);
         }
 
-        template<typename T, std::size_t N, typename... Args>
+        template<
+            typename T,
+            std::size_t N,
+            typename... Args,
+            typename = detail::enable_if_t<detail::is_in_pack<N, Indices...>>
+        >
         auto operator()(T (&array)[N], Args&&... args) const
-            -> detail::enable_if_t<
-                detail::is_in_pack<N, Indices...>,
-                decltype(FixedSizeSorter<N>{}(array, std::forward<Args>(args)...))
-            >
+            -> decltype(FixedSizeSorter<N>{}(array, std::forward<Args>(args)...))
         {
             return FixedSizeSorter<N>{}(array, std::forward<Args>(args)...);
         }
-- 
2.43.0


From 0d27dc4a6e9c99b485a8aa732bccf3ebe1e45124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:31 +0000
Subject: [PATCH 22/49] fix: counting_sorter handles bool and the extreme
 values of integer types

Counting up from the smallest value overflowed once the largest value of the
type was reached and didn't compile with bool in C++17, and the size of a range
of values that doesn't fit in difference_type overflowed, which caused
out-of-bounds accesses instead of throwing std::bad_alloc.
---
 include/cpp-sort/detail/counting_sort.h | 66 +++++++++++++++++++++----
 1 file changed, 56 insertions(+), 10 deletions(-)

diff --git a/include/cpp-sort/detail/counting_sort.h b/include/cpp-sort/detail/counting_sort.h
index 8c0b366..4334438 100644
--- a/include/cpp-sort/detail/counting_sort.h
+++ b/include/cpp-sort/detail/counting_sort.h
@@ -9,16 +9,52 @@
 // Headers
 ////////////////////////////////////////////////////////////
 #include <algorithm>
+#include <cstddef>
+#include <cstdint>
 #include <functional>
 #include <iterator>
+#include <limits>
+#include <new>
 #include "immovable_vector.h"
 #include "iterator_traits.h"
 #include "minmax_element_and_is_sorted.h"
+#include "type_traits.h"
 
 namespace cppsort
 {
 namespace detail
 {
+    // Unsigned integer type wide enough to represent the distance
+    // between any two values of type Integer
+#ifdef __SIZEOF_INT128__
+    template<typename Integer>
+    using counting_sort_distance_t = conditional_t<
+        (sizeof(Integer) > sizeof(std::uintmax_t)),
+        __uint128_t,
+        std::uintmax_t
+    >;
+#else
+    template<typename Integer>
+    using counting_sort_distance_t = std::uintmax_t;
+#endif
+
+    // Number of values in [min, max], there is no way to allocate
+    // enough memory for the counts when it is too big
+    template<typename DifferenceType, typename Integer>
+    auto counting_sort_value_range(Integer min, Integer max)
+        -> DifferenceType
+    {
+        using distance_t = counting_sort_distance_t<Integer>;
+
+        auto distance = static_cast<distance_t>(max) - static_cast<distance_t>(min);
+        constexpr std::ptrdiff_t max_range =
+            (std::numeric_limits<std::ptrdiff_t>::max)() / sizeof(DifferenceType);
+        if (distance >= static_cast<distance_t>(max_range)) {
+            throw std::bad_array_new_length();
+        }
+        return static_cast<DifferenceType>(distance) + 1;
+    }
+
     template<typename ForwardIterator>
     auto counting_sort(ForwardIterator first, ForwardIterator last)
         -> void
@@ -28,9 +64,11 @@ namespace detail
         auto info = minmax_element_and_is_sorted(first, last);
         if (info.is_sorted) return;
 
-        auto min = *info.min;
-        auto max = *info.max;
-        difference_type value_range = max - min + 1;
+        using value_type = value_type_t<ForwardIterator>;
+        using distance_t = counting_sort_distance_t<value_type>;
+        value_type min = *info.min;
+        value_type max = *info.max;
+        auto value_range = counting_sort_value_range<difference_type>(min, max);
 
         immovable_vector<difference_type> counts(value_range);
         for (difference_type n = 0; n < value_range; ++n) {
@@ -38,11 +76,14 @@ namespace detail
         }
 
         for (auto it = first; it != last; ++it) {
-            ++counts[*it - min];
+            value_type value = *it;
+            ++counts[static_cast<difference_type>(static_cast<distance_t>(value) - static_cast<distance_t>(min))];
         }
 
+        auto value = static_cast<distance_t>(min);
         for (auto count: counts) {
-            first = std::fill_n(first, count, min++);
+            first = std::fill_n(first, count, static_cast<value_type>(value));
+            ++value;
         }
     }
 
@@ -55,9 +96,11 @@ namespace detail
         auto info = minmax_element_and_is_sorted(first, last, std::greater<>{});
         if (info.is_sorted) return;
 
-        auto min = *info.max;
-        auto max = *info.min;
-        difference_type value_range = max - min + 1;
+        using value_type = value_type_t<ForwardIterator>;
+        using distance_t = counting_sort_distance_t<value_type>;
+        value_type min = *info.max;
+        value_type max = *info.min;
+        auto value_range = counting_sort_value_range<difference_type>(min, max);
 
         immovable_vector<difference_type> counts(value_range);
         for (difference_type n = 0; n < value_range; ++n) {
@@ -65,12 +108,15 @@ namespace detail
         }
 
         for (auto it = first; it != last; ++it) {
-            ++counts[*it - min];
+            value_type value = *it;
+            ++counts[static_cast<difference_type>(static_cast<distance_t>(value) - static_cast<distance_t>(min))];
         }
 
+        auto value = static_cast<distance_t>(max);
         for (auto rit = counts.end(); rit != counts.begin(); --rit) {
             auto count = *std::prev(rit);
-            first = std::fill_n(first, count, max--);
+            first = std::fill_n(first, count, static_cast<value_type>(value));
+            --value;
         }
     }
 }}
-- 
2.43.0


From af104d285da0362d8ecafe133fb8f803d2aeb2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:51 +0000
Subject: [PATCH 23/49] fix: ska_sorter with a projection that returns a
 collection by value

The algorithm kept references to parts of the objects returned by the
projection after they were destroyed.
---
 include/cpp-sort/detail/ska_sort.h | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/include/cpp-sort/detail/ska_sort.h b/include/cpp-sort/detail/ska_sort.h
index a39bdc7..952e603 100644
--- a/include/cpp-sort/detail/ska_sort.h
+++ b/include/cpp-sort/detail/ska_sort.h
@@ -692,21 +692,25 @@ namespace detail
         }
     };
 
-    template<typename RandomAccessIterator, typename Projection, typename ElementKey>
+    template<typename RandomAccessIterator, typename Projection,
+             typename CurrentKey, typename ElementKey>
     auto CommonPrefix(RandomAccessIterator begin, RandomAccessIterator end,
-                      std::size_t start_index, Projection projection, ElementKey&& element_key)
+                      std::size_t start_index, Projection&& proj,
+                      CurrentKey&& current_key, ElementKey&& element_key)
         -> std::size_t
     {
-        auto proj = utility::as_function(projection);
-
-        const auto& largest_match_list = proj(*begin);
+        // The key might be a part of an object returned by the projection,
+        // which has to live as long as it
+        auto&& largest_match_object = proj(*begin);
+        const auto& largest_match_list = current_key(largest_match_object);
         std::size_t largest_match = largest_match_list.size();
         if (largest_match == start_index) {
             return start_index;
         }
 
         for (++begin ; begin != end ; ++begin) {
-            const auto& current_list = proj(*begin);
+            auto&& current_object = proj(*begin);
+            const auto& current_list = current_key(current_object);
             std::size_t current_size = current_list.size();
             if (current_size < largest_match) {
                 largest_match = current_size;
@@ -741,15 +745,16 @@ namespace detail
 
             std::size_t current_index = sort_data->current_index;
             void* next_sort_data = sort_data->next_sort_data;
-            auto current_key = [&](auto&& elem) -> decltype(auto) {
-                return CurrentSubKey::sub_key(proj(elem), next_sort_data);
+            auto current_key = [&](auto&& object) -> decltype(auto) {
+                return CurrentSubKey::sub_key(object, next_sort_data);
             };
             auto element_key = [&](auto&& elem) -> decltype(auto) {
                 return ElementSubKey::base::sub_key(elem, sort_data);
             };
-            sort_data->current_index = current_index = CommonPrefix(begin, end, current_index, current_key, element_key);
+            sort_data->current_index = current_index = CommonPrefix(begin, end, current_index, proj, current_key, element_key);
             auto end_of_shorter_ones = detail::partition(begin, end, [&](auto&& elem) {
-                return current_key(elem).size() <= current_index;
+                auto&& object = proj(elem);
+                return current_key(object).size() <= current_index;
             });
             std::ptrdiff_t num_shorter_ones = end_of_shorter_ones - begin;
             if (sort_data->next_sort && not StdSortIfLessThanThreshold<StdSortThreshold>(begin, end_of_shorter_ones,
-- 
2.43.0


From 0c696dd7110efba75c6ad29a19366956bb3de420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:39 +0000
Subject: [PATCH 24/49] fix: ska_sorter orders signed char and wchar_t as
 operator< does

Collections of at least 128 negative char (outside of std::string, which
compares them as unsigned) or wchar_t were sorted as if these were unsigned.
---
 include/cpp-sort/detail/ska_sort.h | 51 +++++++++++++++++++++++++++---
 1 file changed, 47 insertions(+), 4 deletions(-)

diff --git a/include/cpp-sort/detail/ska_sort.h b/include/cpp-sort/detail/ska_sort.h
index 952e603..20cd279 100644
--- a/include/cpp-sort/detail/ska_sort.h
+++ b/include/cpp-sort/detail/ska_sort.h
@@ -18,6 +18,7 @@
 #include <cstdint>
 #include <functional>
 #include <limits>
+#include <string>
 #include <tuple>
 #include <type_traits>
 #include <utility>
@@ -30,6 +31,10 @@
 #include "pdqsort.h"
 #include "type_traits.h"
 
+#if __cplusplus > 201402L && __has_include(<string_view>)
+#   include <string_view>
+#endif
+
 namespace cppsort
 {
 namespace detail
@@ -56,7 +61,9 @@ namespace detail
     inline auto to_unsigned_or_bool(char c)
         -> unsigned char
     {
-        return static_cast<unsigned char>(c);
+        // Map the smallest char to 0 whether char is signed or not
+        return static_cast<unsigned char>(c)
+             - static_cast<unsigned char>(std::numeric_limits<char>::min());
     }
 
     inline auto to_unsigned_or_bool(char16_t c)
@@ -74,7 +81,9 @@ namespace detail
     inline auto to_unsigned_or_bool(wchar_t c)
         -> std::uint32_t
     {
-        return static_cast<std::uint32_t>(c);
+        // Map the smallest wchar_t to 0 whether wchar_t is signed or not
+        return static_cast<std::uint32_t>(c)
+             - static_cast<std::uint32_t>(std::numeric_limits<wchar_t>::min());
     }
 
     inline auto to_unsigned_or_bool(short i)
@@ -440,11 +449,45 @@ namespace detail
                           std::ptrdiff_t, Projection, void*);
     };
 
+    // The character type char is compared as if it were unsigned
+    // when part of a string, but not on its own
+
+    struct StringCharSubKey:
+        SubKey<unsigned char>
+    {
+        template<typename T>
+        static auto sub_key(T&& value, void*)
+            -> unsigned char
+        {
+            return static_cast<unsigned char>(value);
+        }
+    };
+
+    template<typename List>
+    struct ListElementBaseSubKey
+    {
+        using type = SubKey<remove_cvref_t<decltype(std::declval<List>()[0])>>;
+    };
+
+    template<typename Allocator>
+    struct ListElementBaseSubKey<std::basic_string<char, std::char_traits<char>, Allocator>>
+    {
+        using type = StringCharSubKey;
+    };
+
+#if __cplusplus > 201402L && __has_include(<string_view>)
+    template<>
+    struct ListElementBaseSubKey<std::basic_string_view<char, std::char_traits<char>>>
+    {
+        using type = StringCharSubKey;
+    };
+#endif
+
     template<typename CurrentSubKey, typename T>
     struct ListElementSubKey:
-        SubKey<remove_cvref_t<decltype(std::declval<T>()[0])>>
+        ListElementBaseSubKey<T>::type
     {
-        using base = SubKey<remove_cvref_t<decltype(std::declval<T>()[0])>>;
+        using base = typename ListElementBaseSubKey<T>::type;
         using next = ListElementSubKey;
 
         template<typename U>
-- 
2.43.0


From 95ca995b0f8a8f3b84aa6247c52b6c9962faf549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:24 +0000
Subject: [PATCH 25/49] fix: ska_sorter treats -0.0 and 0.0 as equivalent

Pairs, tuples and collections of floating point numbers where -0.0 and 0.0
were followed by something else were not sorted.
---
 include/cpp-sort/detail/ska_sort.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cpp-sort/detail/ska_sort.h b/include/cpp-sort/detail/ska_sort.h
index 20cd279..6100899 100644
--- a/include/cpp-sort/detail/ska_sort.h
+++ b/include/cpp-sort/detail/ska_sort.h
@@ -126,7 +126,8 @@ namespace detail
     inline auto to_unsigned_or_bool(float f)
         -> std::uint32_t
     {
-        auto u = memcpy_cast<std::uint32_t>(f);
+        // -0.0 and 0.0 are equivalent
+        auto u = memcpy_cast<std::uint32_t>(f == 0.0f ? 0.0f : f);
         std::uint32_t sign_bit = -std::int32_t(u >> 31);
         return u ^ (sign_bit | 0x80000000);
     }
@@ -134,7 +135,8 @@ namespace detail
     inline auto to_unsigned_or_bool(double f)
         -> std::uint64_t
     {
-        auto u = memcpy_cast<std::uint64_t>(f);
+        // -0.0 and 0.0 are equivalent
+        auto u = memcpy_cast<std::uint64_t>(f == 0.0 ? 0.0 : f);
         std::uint64_t sign_bit = -std::int64_t(u >> 63);
         return u ^ (sign_bit | 0x8000000000000000);
     }
-- 
2.43.0


From b7f8ff3cc3c19149c39dcffb7b3bc0b149e31d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:46 +0000
Subject: [PATCH 26/49] fix: ska_sorter with collections of pairs, tuples or
 booleans

Only the first key of each element of the collections to sort was taken into
account, and an empty partition could be read when these keys were booleans.
---
 include/cpp-sort/detail/ska_sort.h | 108 ++++++++++++++++++++++++-----
 1 file changed, 91 insertions(+), 17 deletions(-)

diff --git a/include/cpp-sort/detail/ska_sort.h b/include/cpp-sort/detail/ska_sort.h
index 6100899..a071bf0 100644
--- a/include/cpp-sort/detail/ska_sort.h
+++ b/include/cpp-sort/detail/ska_sort.h
@@ -485,12 +485,21 @@ namespace detail
     };
 #endif
 
-    template<typename CurrentSubKey, typename T>
+    template<
+        typename CurrentSubKey,
+        typename T,
+        typename Base = typename ListElementBaseSubKey<T>::type
+    >
     struct ListElementSubKey:
-        ListElementBaseSubKey<T>::type
+        Base
     {
-        using base = typename ListElementBaseSubKey<T>::type;
-        using next = ListElementSubKey;
+        using base = Base;
+        // Next key of the same element of the list
+        using next = conditional_t<
+            std::is_same<SubKey<void>, typename Base::next>::value,
+            SubKey<void>,
+            ListElementSubKey<CurrentSubKey, T, typename Base::next>
+        >;
 
         template<typename U>
         static auto sub_key(U&& value, void* sort_data)
@@ -737,11 +746,79 @@ namespace detail
         }
     };
 
+    // Whether any of the keys of two elements of lists differ
+
+    template<typename ElementSubKey>
+    struct ListElementsDiffer
+    {
+        template<typename T, typename U>
+        static auto differ(const T& lhs, const U& rhs, void* sort_data)
+            -> bool
+        {
+            return ElementSubKey::sub_key(lhs, sort_data) != ElementSubKey::sub_key(rhs, sort_data)
+                || ListElementsDiffer<typename ElementSubKey::next>::differ(lhs, rhs, sort_data);
+        }
+    };
+
+    template<>
+    struct ListElementsDiffer<SubKey<void>>
+    {
+        template<typename T, typename U>
+        static auto differ(const T&, const U&, void*)
+            -> bool
+        {
+            return false;
+        }
+    };
+
+    // Sort lists by the remaining keys of their current element,
+    // then by the elements that follow it
+
+    template<std::ptrdiff_t StdSortThreshold, std::ptrdiff_t AmericanFlagSortThreshold,
+             typename ListSorter, typename ElementSubKey>
+    struct ListElementSorter
+    {
+        template<typename RandomAccessIterator, typename Projection>
+        static auto sort(RandomAccessIterator begin, RandomAccessIterator end,
+                         std::ptrdiff_t num_elements, Projection projection, void* sort_data)
+            -> void
+        {
+            if (StdSortIfLessThanThreshold<StdSortThreshold>(begin, end, num_elements, projection)) {
+                return;
+            }
+
+            using SortType = void (*)(RandomAccessIterator, RandomAccessIterator, std::ptrdiff_t, Projection, void*);
+            SortType next_sort = static_cast<SortType>(&ListElementSorter<StdSortThreshold,
+                                                                          AmericanFlagSortThreshold,
+                                                                          ListSorter,
+                                                                          typename ElementSubKey::next>::sort);
+            InplaceSorter<StdSortThreshold, AmericanFlagSortThreshold, ElementSubKey>::sort(
+                std::move(begin), std::move(end), num_elements,
+                std::move(projection), next_sort, sort_data);
+        }
+    };
+
+    template<std::ptrdiff_t StdSortThreshold, std::ptrdiff_t AmericanFlagSortThreshold, typename ListSorter>
+    struct ListElementSorter<StdSortThreshold, AmericanFlagSortThreshold, ListSorter, SubKey<void>>
+    {
+        template<typename RandomAccessIterator, typename Projection>
+        static auto sort(RandomAccessIterator begin, RandomAccessIterator end,
+                         std::ptrdiff_t num_elements, Projection projection, void* sort_data)
+            -> void
+        {
+            if (StdSortIfLessThanThreshold<StdSortThreshold>(begin, end, num_elements, projection)) {
+                return;
+            }
+            ListSorter::sort_from_recursion(std::move(begin), std::move(end), num_elements,
+                                            std::move(projection), sort_data);
+        }
+    };
+
     template<typename RandomAccessIterator, typename Projection,
-             typename CurrentKey, typename ElementKey>
+             typename CurrentKey, typename ElementsDiffer>
     auto CommonPrefix(RandomAccessIterator begin, RandomAccessIterator end,
                       std::size_t start_index, Projection&& proj,
-                      CurrentKey&& current_key, ElementKey&& element_key)
+                      CurrentKey&& current_key, ElementsDiffer&& elements_differ)
         -> std::size_t
     {
         // The key might be a part of an object returned by the projection,
@@ -763,11 +840,11 @@ namespace detail
                     return start_index;
                 }
             }
-            if (element_key(largest_match_list[start_index]) != element_key(current_list[start_index])) {
+            if (elements_differ(largest_match_list[start_index], current_list[start_index])) {
                 return start_index;
             }
             for (std::size_t i = start_index + 1 ; i < largest_match ; ++i) {
-                if (element_key(largest_match_list[i]) != element_key(current_list[i])) {
+                if (elements_differ(largest_match_list[i], current_list[i])) {
                     largest_match = i;
                     break;
                 }
@@ -793,10 +870,10 @@ namespace detail
             auto current_key = [&](auto&& object) -> decltype(auto) {
                 return CurrentSubKey::sub_key(object, next_sort_data);
             };
-            auto element_key = [&](auto&& elem) -> decltype(auto) {
-                return ElementSubKey::base::sub_key(elem, sort_data);
+            auto elements_differ = [&](const auto& lhs, const auto& rhs) {
+                return ListElementsDiffer<typename ElementSubKey::base>::differ(lhs, rhs, sort_data);
             };
-            sort_data->current_index = current_index = CommonPrefix(begin, end, current_index, proj, current_key, element_key);
+            sort_data->current_index = current_index = CommonPrefix(begin, end, current_index, proj, current_key, elements_differ);
             auto end_of_shorter_ones = detail::partition(begin, end, [&](auto&& elem) {
                 auto&& object = proj(elem);
                 return current_key(object).size() <= current_index;
@@ -807,12 +884,9 @@ namespace detail
                 sort_data->next_sort(begin, end_of_shorter_ones, num_shorter_ones, projection, next_sort_data);
             }
             std::ptrdiff_t num_elements = end - end_of_shorter_ones;
-            if (not StdSortIfLessThanThreshold<StdSortThreshold>(end_of_shorter_ones, end, num_elements, projection)) {
-                using SortType = void (*)(RandomAccessIterator, RandomAccessIterator, std::ptrdiff_t, Projection, void*);
-                SortType sort_next_element = static_cast<SortType>(&sort_from_recursion);
-                InplaceSorter<StdSortThreshold, AmericanFlagSortThreshold, ElementSubKey>::sort(end_of_shorter_ones, end, num_elements,
-                                                                                                projection, sort_next_element, sort_data);
-            }
+            ListElementSorter<StdSortThreshold, AmericanFlagSortThreshold,
+                              ListInplaceSorter, ElementSubKey>::sort(
+                end_of_shorter_ones, end, num_elements, projection, sort_data);
         }
 
         template<typename RandomAccessIterator, typename Projection>
-- 
2.43.0


From 11bff1405db609b46556e9da29c4adc3dcb70b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:12 +0000
Subject: [PATCH 27/49] fix: integer overflow in spreadsort with values that
 span more than half of their type

The range of the values to sort was computed with a signed subtraction that
overflows, and gave float_spread_sorter shift amounts that are too big.
---
 include/cpp-sort/detail/spreadsort/detail/float_sort.h   | 6 +++---
 include/cpp-sort/detail/spreadsort/detail/integer_sort.h | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/cpp-sort/detail/spreadsort/detail/float_sort.h b/include/cpp-sort/detail/spreadsort/detail/float_sort.h
index 2264910..f292b0e 100644
--- a/include/cpp-sort/detail/spreadsort/detail/float_sort.h
+++ b/include/cpp-sort/detail/spreadsort/detail/float_sort.h
@@ -143,7 +143,7 @@ namespace detail
       auto&& proj = utility::as_function(projection);
 
       unsigned log_divisor = get_log_divisor<float_log_mean_bin_size>(
-          last - first, rough_log_2_size(Size_type(max - min)));
+          last - first, rough_log_2_size(Size_type(Size_type(max) - Size_type(min))));
       Div_type div_min = min >> log_divisor;
       Div_type div_max = max >> log_divisor;
       unsigned bin_count = unsigned(div_max - div_min) + 1;
@@ -209,7 +209,7 @@ namespace detail
       auto&& proj = utility::as_function(projection);
 
       unsigned log_divisor = get_log_divisor<float_log_mean_bin_size>(
-          last - first, rough_log_2_size(Size_type(max - min)));
+          last - first, rough_log_2_size(Size_type(Size_type(max) - Size_type(min))));
       Div_type div_min = min >> log_divisor;
       Div_type div_max = max >> log_divisor;
       unsigned bin_count = unsigned(div_max - div_min) + 1;
@@ -274,7 +274,7 @@ namespace detail
       auto&& proj = utility::as_function(projection);
 
       unsigned log_divisor = get_log_divisor<float_log_mean_bin_size>(
-          last - first, rough_log_2_size(Size_type(max - min)));
+          last - first, rough_log_2_size(Size_type(Size_type(max) - Size_type(min))));
       Div_type div_min = min >> log_divisor;
       Div_type div_max = max >> log_divisor;
       unsigned bin_count = unsigned(div_max - div_min) + 1;
diff --git a/include/cpp-sort/detail/spreadsort/detail/integer_sort.h b/include/cpp-sort/detail/spreadsort/detail/integer_sort.h
index d304f9a..f4aeac8 100644
--- a/include/cpp-sort/detail/spreadsort/detail/integer_sort.h
+++ b/include/cpp-sort/detail/spreadsort/detail/integer_sort.h
@@ -113,7 +113,7 @@ namespace spreadsort
         return;
       RandomAccessIter * target_bin;
       unsigned log_divisor = get_log_divisor<int_log_mean_bin_size>(
-          last - first, rough_log_2_size(Size_type((proj(*max) >> 0) - (proj(*min) >> 0))));
+          last - first, rough_log_2_size(Size_type(Size_type(proj(*max) >> 0) - Size_type(proj(*min) >> 0))));
       Div_type div_min = proj(*min) >> log_divisor;
       Div_type div_max = proj(*max) >> log_divisor;
       unsigned bin_count = unsigned(div_max - div_min) + 1;
-- 
2.43.0


From ac21980ec682bd4ebee6cce33fcdea9c30b6cbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:16 +0000
Subject: [PATCH 28/49] fix: is_stable of adapters that do not sort the
 collection they are given

is_stable<adapter<Sorter>(Args...)> asked whether Sorter is stable when it
sorts the original collection, while those adapters make it sort a buffer or
wrapped iterators: hybrid_adapter and self_sort_adapter may then pick an
unstable algorithm.
---
 include/cpp-sort/adapters/indirect_adapter.h     |  8 --------
 include/cpp-sort/adapters/out_of_place_adapter.h |  8 --------
 include/cpp-sort/adapters/schwartz_adapter.h     |  8 --------
 include/cpp-sort/detail/schwartz_small_array.h   | 12 ++++++++++++
 include/cpp-sort/metrics/moves.h                 | 11 -----------
 include/cpp-sort/metrics/projections.h           | 11 -----------
 include/cpp-sort/utility/sorted_indices.h        | 11 -----------
 include/cpp-sort/utility/sorted_iterators.h      | 11 -----------
 8 files changed, 12 insertions(+), 68 deletions(-)

diff --git a/include/cpp-sort/adapters/indirect_adapter.h b/include/cpp-sort/adapters/indirect_adapter.h
index a08fd0e..885fada 100644
--- a/include/cpp-sort/adapters/indirect_adapter.h
+++ b/include/cpp-sort/adapters/indirect_adapter.h
@@ -210,14 +210,6 @@ namespace cppsort
             sorter_facade<detail::indirect_adapter_impl<Sorter>>(std::move(sorter))
         {}
     };
-
-    ////////////////////////////////////////////////////////////
-    // is_stable specialization
-
-    template<typename Sorter, typename... Args>
-    struct is_stable<indirect_adapter<Sorter>(Args...)>:
-        is_stable<Sorter(Args...)>
-    {};
 }
 
 #endif // CPPSORT_ADAPTERS_INDIRECT_ADAPTER_H_
diff --git a/include/cpp-sort/adapters/out_of_place_adapter.h b/include/cpp-sort/adapters/out_of_place_adapter.h
index b09d755..24a7f7b 100644
--- a/include/cpp-sort/adapters/out_of_place_adapter.h
+++ b/include/cpp-sort/adapters/out_of_place_adapter.h
@@ -102,14 +102,6 @@ namespace cppsort
 
         using iterator_category = std::forward_iterator_tag;
     };
-
-    ////////////////////////////////////////////////////////////
-    // is_stable specialization
-
-    template<typename Sorter, typename... Args>
-    struct is_stable<out_of_place_adapter<Sorter>(Args...)>:
-        is_stable<Sorter(Args...)>
-    {};
 }
 
 #endif // CPPSORT_ADAPTERS_OUT_OF_PLACE_ADAPTER_H_
diff --git a/include/cpp-sort/adapters/schwartz_adapter.h b/include/cpp-sort/adapters/schwartz_adapter.h
index a0685ba..f6986db 100644
--- a/include/cpp-sort/adapters/schwartz_adapter.h
+++ b/include/cpp-sort/adapters/schwartz_adapter.h
@@ -236,14 +236,6 @@ namespace cppsort
             schwartz_adapter<Sorter>(std::move(sorter))
         {}
     };
-
-    ////////////////////////////////////////////////////////////
-    // is_stable specialization
-
-    template<typename Sorter, typename... Args>
-    struct is_stable<schwartz_adapter<Sorter>(Args...)>:
-        is_stable<Sorter(Args...)>
-    {};
 }
 
 #ifdef CPPSORT_ADAPTERS_SMALL_ARRAY_ADAPTER_H_
diff --git a/include/cpp-sort/detail/schwartz_small_array.h b/include/cpp-sort/detail/schwartz_small_array.h
index 1ce9942..cd26156 100644
--- a/include/cpp-sort/detail/schwartz_small_array.h
+++ b/include/cpp-sort/detail/schwartz_small_array.h
@@ -79,6 +79,18 @@ namespace cppsort
             return sorter{}(array, std::forward<Args>(args)...);
         }
     };
+
+    ////////////////////////////////////////////////////////////
+    // is_stable specialization
+
+    template<
+        template<std::size_t> class FixedSizeSorter,
+        typename Indices,
+        typename... Args
+    >
+    struct is_stable<schwartz_adapter<small_array_adapter<FixedSizeSorter, Indices>>(Args...)>:
+        is_stable<small_array_adapter<FixedSizeSorter, Indices>(Args...)>
+    {};
 }
 
 #endif // CPPSORT_ADAPTERS_SCHWARTZ_SMALL_ARRAY_H_
diff --git a/include/cpp-sort/metrics/moves.h b/include/cpp-sort/metrics/moves.h
index 8c47501..94bb8a2 100644
--- a/include/cpp-sort/metrics/moves.h
+++ b/include/cpp-sort/metrics/moves.h
@@ -189,15 +189,4 @@ namespace metrics
     };
 }}
 
-namespace cppsort
-{
-    ////////////////////////////////////////////////////////////
-    // is_stable specialization
-
-    template<typename Sorter, typename CountType, typename... Args>
-    struct is_stable<metrics::moves<Sorter, CountType>(Args...)>:
-        is_stable<Sorter(Args...)>
-    {};
-}
-
 #endif // CPPSORT_METRICS_MOVES_H_
diff --git a/include/cpp-sort/metrics/projections.h b/include/cpp-sort/metrics/projections.h
index df6b010..0211c23 100644
--- a/include/cpp-sort/metrics/projections.h
+++ b/include/cpp-sort/metrics/projections.h
@@ -139,15 +139,4 @@ namespace metrics
     };
 }}
 
-namespace cppsort
-{
-    ////////////////////////////////////////////////////////////
-    // is_stable specialization
-
-    template<typename Sorter, typename CountType, typename... Args>
-    struct is_stable<metrics::projections<Sorter, CountType>(Args...)>:
-        is_stable<Sorter(Args...)>
-    {};
-}
-
 #endif // CPPSORT_METRICS_PROJECTIONS_H_
diff --git a/include/cpp-sort/utility/sorted_indices.h b/include/cpp-sort/utility/sorted_indices.h
index 1053f0c..067ca06 100644
--- a/include/cpp-sort/utility/sorted_indices.h
+++ b/include/cpp-sort/utility/sorted_indices.h
@@ -96,15 +96,4 @@ namespace utility
     };
 }}
 
-namespace cppsort
-{
-    ////////////////////////////////////////////////////////////
-    // is_stable specialization
-
-    template<typename Sorter, typename... Args>
-    struct is_stable<cppsort::utility::sorted_indices<Sorter>(Args...)>:
-        is_stable<Sorter(Args...)>
-    {};
-}
-
 #endif // CPPSORT_UTILITY_SORTED_INDICES_H_
diff --git a/include/cpp-sort/utility/sorted_iterators.h b/include/cpp-sort/utility/sorted_iterators.h
index abed120..7900cd9 100644
--- a/include/cpp-sort/utility/sorted_iterators.h
+++ b/include/cpp-sort/utility/sorted_iterators.h
@@ -129,15 +129,4 @@ namespace utility
     };
 }}
 
-namespace cppsort
-{
-    ////////////////////////////////////////////////////////////
-    // is_stable specialization
-
-    template<typename Sorter, typename... Args>
-    struct is_stable<cppsort::utility::sorted_iterators<Sorter>(Args...)>:
-        is_stable<Sorter(Args...)>
-    {};
-}
-
 #endif // CPPSORT_UTILITY_SORTED_ITERATORS_H_
-- 
2.43.0


From 0f440358d8218432202d2b6db6b3b5bb32cd0171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:17 +0000
Subject: [PATCH 29/49] fix: is_stable of container_aware_adapter with
 dedicated list algorithms

---
 include/cpp-sort/adapters/container_aware_adapter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cpp-sort/adapters/container_aware_adapter.h b/include/cpp-sort/adapters/container_aware_adapter.h
index d53b5a4..5898f9a 100644
--- a/include/cpp-sort/adapters/container_aware_adapter.h
+++ b/include/cpp-sort/adapters/container_aware_adapter.h
@@ -353,7 +353,7 @@ namespace cppsort
 
     template<typename Sorter, typename... Args>
     struct is_stable<container_aware_adapter<Sorter>(Args...)>:
-        decltype(container_aware_adapter<Sorter>{}.template operator()<true>(std::declval<Args&>()...))
+        decltype(std::declval<const detail::container_aware_adapter_base<Sorter>&>().template operator()<true>(std::declval<Args&>()...))
     {};
 }
 
-- 
2.43.0


From a73f6939bd2acf98b80412e7063a589a98c9f87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:07 +0000
Subject: [PATCH 30/49] fix: container_aware_adapter called with pairs of
 iterators

The documentation says that the adapted sorter is called then, but only pairs
of lvalue iterators, without projection, were accepted.
---
 .../adapters/container_aware_adapter.h        | 51 +++++++++++++++++++
 1 file changed, 51 insertions(+)

diff --git a/include/cpp-sort/adapters/container_aware_adapter.h b/include/cpp-sort/adapters/container_aware_adapter.h
index 5898f9a..4820235 100644
--- a/include/cpp-sort/adapters/container_aware_adapter.h
+++ b/include/cpp-sort/adapters/container_aware_adapter.h
@@ -330,6 +330,57 @@ namespace cppsort
             {
                 return this->get()(iterable, std::move(compare), std::move(projection));
             }
+
+            ////////////////////////////////////////////////////////////
+            // Pairs of iterators: always use the adapted sorter
+
+            template<
+                bool Stability = false,
+                typename Iterator
+            >
+            auto operator()(Iterator first, Iterator last) const
+                -> conditional_t<
+                    Stability,
+                    cppsort::is_stable<Sorter(Iterator, Iterator)>,
+                    decltype(this->get()(std::move(first), std::move(last)))
+                >
+            {
+                return this->get()(std::move(first), std::move(last));
+            }
+
+            template<
+                bool Stability = false,
+                typename Iterator,
+                typename Function
+            >
+            auto operator()(Iterator first, Iterator last, Function function) const
+                -> conditional_t<
+                    Stability,
+                    cppsort::is_stable<Sorter(Iterator, Iterator, Function)>,
+                    decltype(this->get()(std::move(first), std::move(last), std::move(function)))
+                >
+            {
+                return this->get()(std::move(first), std::move(last), std::move(function));
+            }
+
+            template<
+                bool Stability = false,
+                typename Iterator,
+                typename Compare,
+                typename Projection
+            >
+            auto operator()(Iterator first, Iterator last,
+                            Compare compare, Projection projection) const
+                -> conditional_t<
+                    Stability,
+                    cppsort::is_stable<Sorter(Iterator, Iterator, Compare, Projection)>,
+                    decltype(this->get()(std::move(first), std::move(last),
+                                         std::move(compare), std::move(projection)))
+                >
+            {
+                return this->get()(std::move(first), std::move(last),
+                                   std::move(compare), std::move(projection));
+            }
         };
     }
 
-- 
2.43.0


From 6b4c7aae40c0c29e539f0d2128884b4b8c1fc190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:07 +0000
Subject: [PATCH 31/49] fix: keep the list's allocator in the container-aware
 mel sort

Splicing nodes between lists whose allocators are not equal is undefined, and
allocators without a default constructor were rejected.
---
 include/cpp-sort/detail/container_aware/mel_sort.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/cpp-sort/detail/container_aware/mel_sort.h b/include/cpp-sort/detail/container_aware/mel_sort.h
index 1edbbc0..3d9f5b8 100644
--- a/include/cpp-sort/detail/container_aware/mel_sort.h
+++ b/include/cpp-sort/detail/container_aware/mel_sort.h
@@ -41,7 +41,7 @@ namespace cppsort
 
             // Encroaching lists
             std::vector<std::list<Args...>> lists;
-            lists.emplace_back();
+            lists.emplace_back(collection.get_allocator());
             lists.back().splice(lists.back().begin(), collection, collection.begin());
 
             ////////////////////////////////////////////////////////////
@@ -68,7 +68,7 @@ namespace cppsort
                 } else {
                     // Element does not belong to the existing encroaching lists,
                     // create a new list for it
-                    lists.emplace_back();
+                    lists.emplace_back(collection.get_allocator());
                     lists.back().splice(lists.back().begin(), collection, collection.begin());
                 }
             }
@@ -115,8 +115,8 @@ namespace cppsort
             // to implement melsort for forward iterators
             struct flist
             {
-                flist():
-                    list(),
+                explicit flist(const typename std::forward_list<Args...>::allocator_type& allocator):
+                    list(allocator),
                     last(list.begin())
                 {}
 
@@ -126,7 +126,7 @@ namespace cppsort
 
             // Encroaching lists
             std::vector<flist> lists;
-            lists.emplace_back();
+            lists.emplace_back(collection.get_allocator());
             lists.back().list.splice_after(lists.back().list.before_begin(),
                                            collection, collection.before_begin());
             lists.back().last = lists.back().list.begin();
@@ -158,7 +158,7 @@ namespace cppsort
                 } else {
                     // Element does not belong to the existing encroaching lists,
                     // create a new list for it
-                    lists.emplace_back();
+                    lists.emplace_back(collection.get_allocator());
                     lists.back().list.splice_after(lists.back().list.before_begin(),
                                                    collection, collection.before_begin());
                     lists.back().last = lists.back().list.begin();
-- 
2.43.0


From 37aa80af570590078d2eed6d1b69d511c8fb7a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:33 +0000
Subject: [PATCH 32/49] fix: natural_less with equal numbers followed by
 something else

After two equal numbers, natural_less compared the rest of the strings
character by character until the end of the first one, possibly reading past
the end of the second one, and considered that strings starting with zeros
were equivalent whatever followed. It also passed negative characters to
std::isdigit.
---
 include/cpp-sort/comparators/natural_less.h | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/include/cpp-sort/comparators/natural_less.h b/include/cpp-sort/comparators/natural_less.h
index 8e511a2..a4b27fe 100644
--- a/include/cpp-sort/comparators/natural_less.h
+++ b/include/cpp-sort/comparators/natural_less.h
@@ -29,11 +29,11 @@ namespace cppsort
                 auto last1 = begin1;
                 auto last2 = begin2;
                 do {
-                    if (not std::isdigit(*last1)) break;
+                    if (not std::isdigit(static_cast<unsigned char>(*last1))) break;
                     ++last1;
                 } while (last1 != end1);
                 do {
-                    if (not std::isdigit(*last2)) break;
+                    if (not std::isdigit(static_cast<unsigned char>(*last2))) break;
                     ++last2;
                 } while (last2 != end2);
 
@@ -54,25 +54,18 @@ namespace cppsort
                     if (size1 != size2) {
                         return size1 < size2;
                     }
-                    if (size1 == 0) {
-                        return false;
-                    }
 
-                    // Sizes are equal and not 0
-                    while (begin1 != end1) {
+                    // Sizes are equal
+                    while (begin1 != last1) {
                         if (*begin1 != *begin2) {
                             return *begin1 < *begin2;
                         }
                         ++begin1;
                         ++begin2;
                     }
-                }
 
-                if (begin1 == end1) {
-                    return begin2 != end2;
-                }
-                if (begin2 == end2) {
-                    return false;
+                    // Numbers are equal, compare what follows
+                    continue;
                 }
 
                 if (*begin1 != *begin2) {
-- 
2.43.0


From b621741fbdc4fb15da8e7a2052b30e7e4d5acc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:56 +0000
Subject: [PATCH 33/49] fix: ambiguous weak order and partial order comparators
 with floating point numbers

weak_less and weak_greater could not be called with floating point numbers:
the overload for these and the generic one were equally good candidates.
---
 include/cpp-sort/comparators/partial_greater.h | 5 ++++-
 include/cpp-sort/comparators/partial_less.h    | 5 ++++-
 include/cpp-sort/comparators/weak_greater.h    | 5 ++++-
 include/cpp-sort/comparators/weak_less.h       | 5 ++++-
 4 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/cpp-sort/comparators/partial_greater.h b/include/cpp-sort/comparators/partial_greater.h
index fe5c2bf..0011035 100644
--- a/include/cpp-sort/comparators/partial_greater.h
+++ b/include/cpp-sort/comparators/partial_greater.h
@@ -35,7 +35,10 @@ namespace cppsort
         template<typename T>
         auto partial_greater(const T& lhs, const T& rhs)
             noexcept(noexcept(cppsort::weak_greater(lhs, rhs)))
-            -> decltype(cppsort::weak_greater(lhs, rhs))
+            -> detail::enable_if_t<
+                not std::is_floating_point<T>::value,
+                decltype(cppsort::weak_greater(lhs, rhs))
+            >
         {
             return cppsort::weak_greater(lhs, rhs);
         }
diff --git a/include/cpp-sort/comparators/partial_less.h b/include/cpp-sort/comparators/partial_less.h
index 7bebbaf..aa658aa 100644
--- a/include/cpp-sort/comparators/partial_less.h
+++ b/include/cpp-sort/comparators/partial_less.h
@@ -35,7 +35,10 @@ namespace cppsort
         template<typename T>
         auto partial_less(const T& lhs, const T& rhs)
             noexcept(noexcept(cppsort::weak_less(lhs, rhs)))
-            -> decltype(cppsort::weak_less(lhs, rhs))
+            -> detail::enable_if_t<
+                not std::is_floating_point<T>::value,
+                decltype(cppsort::weak_less(lhs, rhs))
+            >
         {
             return cppsort::weak_less(lhs, rhs);
         }
diff --git a/include/cpp-sort/comparators/weak_greater.h b/include/cpp-sort/comparators/weak_greater.h
index 00ed693..3f96de3 100644
--- a/include/cpp-sort/comparators/weak_greater.h
+++ b/include/cpp-sort/comparators/weak_greater.h
@@ -43,7 +43,10 @@ namespace cppsort
         template<typename T>
         auto weak_greater(const T& lhs, const T& rhs)
             noexcept(noexcept(cppsort::total_greater(lhs, rhs)))
-            -> decltype(cppsort::total_greater(lhs, rhs))
+            -> detail::enable_if_t<
+                not std::is_floating_point<T>::value,
+                decltype(cppsort::total_greater(lhs, rhs))
+            >
         {
             return cppsort::total_greater(lhs, rhs);
         }
diff --git a/include/cpp-sort/comparators/weak_less.h b/include/cpp-sort/comparators/weak_less.h
index f4ecda3..6254146 100644
--- a/include/cpp-sort/comparators/weak_less.h
+++ b/include/cpp-sort/comparators/weak_less.h
@@ -43,7 +43,10 @@ namespace cppsort
         template<typename T>
         auto weak_less(const T& lhs, const T& rhs)
             noexcept(noexcept(cppsort::total_less(lhs, rhs)))
-            -> decltype(cppsort::total_less(lhs, rhs))
+            -> detail::enable_if_t<
+                not std::is_floating_point<T>::value,
+                decltype(cppsort::total_less(lhs, rhs))
+            >
         {
             return cppsort::total_less(lhs, rhs);
         }
-- 
2.43.0


From 7d1a262ca25f4702aed00cda5c44452344b90d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:53 +0000
Subject: [PATCH 34/49] fix: as_projection, as_comparison and operator| with a
 plain function

---
 include/cpp-sort/utility/functional.h | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/include/cpp-sort/utility/functional.h b/include/cpp-sort/utility/functional.h
index cc50947..d7d42c4 100644
--- a/include/cpp-sort/utility/functional.h
+++ b/include/cpp-sort/utility/functional.h
@@ -76,8 +76,8 @@ namespace utility
     constexpr auto operator|(T&& lhs, U&& rhs)
         -> decltype(auto)
     {
-        using lhs_t = cppsort::detail::remove_cvref_t<decltype(as_function(std::forward<T>(lhs)))>;
-        using rhs_t = cppsort::detail::remove_cvref_t<decltype(as_function(std::forward<U>(rhs)))>;
+        using lhs_t = std::decay_t<decltype(as_function(std::forward<T>(lhs)))>;
+        using rhs_t = std::decay_t<decltype(as_function(std::forward<U>(rhs)))>;
         return detail::projection_base_pipe_result<lhs_t, rhs_t>(
             as_function(std::forward<T>(lhs)),
             as_function(std::forward<U>(rhs))
@@ -151,6 +151,20 @@ namespace utility
         return {};
     }
 
+#if CPPSORT_STD_IDENTITY_AVAILABLE
+    constexpr auto operator|(utility::identity, std::identity)
+        -> utility::identity
+    {
+        return {};
+    }
+
+    constexpr auto operator|(std::identity, utility::identity)
+        -> utility::identity
+    {
+        return {};
+    }
+#endif
+
     ////////////////////////////////////////////////////////////
     // indirect
 
@@ -297,10 +311,10 @@ namespace utility
     constexpr auto as_projection(Function&& func)
         -> cppsort::detail::enable_if_t<
             not cppsort::detail::is_specialization_of_v<cppsort::detail::remove_cvref_t<Function>, detail::as_projection_fn>,
-            detail::as_projection_fn<cppsort::detail::remove_cvref_t<Function>>
+            detail::as_projection_fn<std::decay_t<Function>>
         >
     {
-        return detail::as_projection_fn<cppsort::detail::remove_cvref_t<Function>>(std::forward<Function>(func));
+        return detail::as_projection_fn<std::decay_t<Function>>(std::forward<Function>(func));
     }
 
     template<typename Function>
@@ -317,10 +331,10 @@ namespace utility
     constexpr auto as_comparison(Function&& func)
         -> cppsort::detail::enable_if_t<
             not cppsort::detail::is_specialization_of_v<cppsort::detail::remove_cvref_t<Function>, detail::as_comparison_fn>,
-            detail::as_comparison_fn<cppsort::detail::remove_cvref_t<Function>>
+            detail::as_comparison_fn<std::decay_t<Function>>
         >
     {
-        return detail::as_comparison_fn<cppsort::detail::remove_cvref_t<Function>>(std::forward<Function>(func));
+        return detail::as_comparison_fn<std::decay_t<Function>>(std::forward<Function>(func));
     }
 
     template<typename Function>
-- 
2.43.0


From 079ed4dd437d0f0d30941a0419fb84f520a9912e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:53 +0000
Subject: [PATCH 35/49] fix: iter_move and iter_swap of reverse and move
 iterators over customized iterators

---
 include/cpp-sort/utility/iter_move.h | 16 ----------------
 1 file changed, 16 deletions(-)

diff --git a/include/cpp-sort/utility/iter_move.h b/include/cpp-sort/utility/iter_move.h
index ed1d2ac..67589b4 100644
--- a/include/cpp-sort/utility/iter_move.h
+++ b/include/cpp-sort/utility/iter_move.h
@@ -28,14 +28,6 @@ namespace cppsort
             template<typename Iterator>
             auto operator()(Iterator it) const
                 -> decltype(iter_move(it));
-
-            template<typename Iterator>
-            auto operator()(std::move_iterator<Iterator> it) const
-                -> decltype(iter_move(it.base()));
-
-            template<typename Iterator>
-            auto operator()(std::reverse_iterator<Iterator> it) const
-                -> decltype(iter_move(it.base()));
         };
 
         struct call_iter_swap
@@ -43,14 +35,6 @@ namespace cppsort
             template<typename Iterator>
             auto operator()(Iterator it1, Iterator it2) const
                 -> decltype(iter_swap(it1, it2));
-
-            template<typename Iterator>
-            auto operator()(std::move_iterator<Iterator> it1, std::move_iterator<Iterator> it2) const
-                -> decltype(iter_swap(it1.base(), it2.base()));
-
-            template<typename Iterator>
-            auto operator()(std::reverse_iterator<Iterator> it1, std::reverse_iterator<Iterator> it2) const
-                -> decltype(iter_swap(it1.base(), it2.base()));
         };
 
         template<typename Iterator>
-- 
2.43.0


From 7765e4f7c7820d93c3c47d382755f462de3016ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:53 +0000
Subject: [PATCH 36/49] fix: copy of a non-const metrics

---
 include/cpp-sort/utility/metrics_tools.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/cpp-sort/utility/metrics_tools.h b/include/cpp-sort/utility/metrics_tools.h
index 50b7646..244a252 100644
--- a/include/cpp-sort/utility/metrics_tools.h
+++ b/include/cpp-sort/utility/metrics_tools.h
@@ -258,7 +258,15 @@ namespace utility
             metrics(const metrics&) = default;
             metrics(metrics&&) = default;
 
-            template<typename... Args>
+            template<
+                typename... Args,
+                typename = cppsort::detail::enable_if_t<
+                    not std::is_same<
+                        void(cppsort::detail::remove_cvref_t<Args>...),
+                        void(metrics)
+                    >::value
+                >
+            >
             constexpr explicit metrics(Args&&... args):
                 metrics_(std::forward<Args>(args)...)
             {}
-- 
2.43.0


From 1e3fb1a4baa941505549fa688469357cb702ead2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:26 +0000
Subject: [PATCH 37/49] fix: iter_swap of reverse and move iterators before
 C++20

---
 include/cpp-sort/utility/iter_move.h | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/cpp-sort/utility/iter_move.h b/include/cpp-sort/utility/iter_move.h
index 67589b4..792b0ce 100644
--- a/include/cpp-sort/utility/iter_move.h
+++ b/include/cpp-sort/utility/iter_move.h
@@ -11,6 +11,7 @@
 #include <iterator>
 #include <type_traits>
 #include <utility>
+#include "../detail/config.h"
 #include "../detail/type_traits.h"
 
 namespace cppsort
@@ -43,6 +44,20 @@ namespace cppsort
         template<typename Iterator>
         constexpr bool has_iter_swap_v = detail::is_invocable_v<call_iter_swap, Iterator, Iterator>;
 
+        ////////////////////////////////////////////////////////////
+        // std::reverse_iterator and std::move_iterator only have a
+        // dedicated iter_swap since C++20: what ADL finds otherwise
+        // is std::iter_swap, which ignores the customizations of the
+        // underlying iterator
+
+        template<typename Iterator>
+        constexpr bool has_adaptor_iter_swap_v =
+#if defined(__cpp_lib_ranges)
+            std::indirectly_swappable<Iterator>;
+#else
+            false;
+#endif
+
         ////////////////////////////////////////////////////////////
         // Result type of a non-specialized iter_move call
 
@@ -119,7 +134,7 @@ namespace cppsort
         template<
             typename Iterator,
             typename = cppsort::detail::enable_if_t<
-                not cppsort::detail::has_iter_swap_v<std::reverse_iterator<Iterator>>
+                not cppsort::detail::has_adaptor_iter_swap_v<Iterator>
             >
         >
         auto iter_swap(std::reverse_iterator<Iterator> lhs, std::reverse_iterator<Iterator> rhs)
@@ -146,7 +161,7 @@ namespace cppsort
         template<
             typename Iterator,
             typename = cppsort::detail::enable_if_t<
-                not cppsort::detail::has_iter_swap_v<std::move_iterator<Iterator>>
+                not cppsort::detail::has_adaptor_iter_swap_v<Iterator>
             >
         >
         auto iter_swap(std::move_iterator<Iterator> lhs, std::move_iterator<Iterator> rhs)
-- 
2.43.0


From 7c5621fd343c1aa81741a570a4f3143a7aba36c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:47 +0000
Subject: [PATCH 38/49] fix: empty make_integer_range with a step

---
 include/cpp-sort/utility/make_integer_range.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cpp-sort/utility/make_integer_range.h b/include/cpp-sort/utility/make_integer_range.h
index 78f4479..430cfad 100644
--- a/include/cpp-sort/utility/make_integer_range.h
+++ b/include/cpp-sort/utility/make_integer_range.h
@@ -62,7 +62,9 @@ namespace utility
         Integer,
         std::make_integer_sequence<
             Integer,
-            ((Begin < End ? End - Begin : Begin - End) - 1) / (Step ? Step : 1) + 1
+            (Begin == End) ?
+                0 :
+                ((Begin < End ? End - Begin : Begin - End) - 1) / (Step ? Step : 1) + 1
         >,
         Begin,
         (Step ? Step : 1),
-- 
2.43.0


From f2ddad5e2e89707811a34f9d8ca9b6e5247b3d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:33 +0000
Subject: [PATCH 39/49] fix: construct hybrid_adapter from stored nested
 hybrid_adapter objects

---
 include/cpp-sort/adapters/hybrid_adapter.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/cpp-sort/adapters/hybrid_adapter.h b/include/cpp-sort/adapters/hybrid_adapter.h
index 0a88d90..12baaaa 100644
--- a/include/cpp-sort/adapters/hybrid_adapter.h
+++ b/include/cpp-sort/adapters/hybrid_adapter.h
@@ -242,13 +242,13 @@ namespace cppsort
                 hybrid_adapter_impl() = default;
 
                 template<std::size_t... Indices>
-                constexpr explicit hybrid_adapter_impl(std::tuple<Sorters&&...>&& sorters,
+                constexpr explicit hybrid_adapter_impl(std::tuple<Sorters...>&& sorters,
                                                        std::index_sequence<Indices...>):
                     base_class(std::move(std::get<Indices>(sorters))...)
                 {}
 
                 template<std::size_t... Indices>
-                constexpr explicit hybrid_adapter_impl(std::tuple<Sorters&&...>&& sorters):
+                constexpr explicit hybrid_adapter_impl(std::tuple<Sorters...>&& sorters):
                     hybrid_adapter_impl(std::move(sorters), std::make_index_sequence<sizeof...(Sorters)>{})
                 {}
 
@@ -364,14 +364,14 @@ namespace cppsort
             template<typename... Args, std::size_t... Indices>
             static constexpr auto get_sorters_from_impl(detail::hybrid_adapter_impl<Args...>&& value,
                                                         std::index_sequence<Indices...>)
-                -> decltype(auto)
+                -> std::tuple<Args...>
             {
-                return std::forward_as_tuple(value.template get<Indices>()...);
+                return std::tuple<Args...>(std::move(value.template get<Indices>())...);
             }
 
             template<typename... Args>
             static constexpr auto get_sorters_from_impl(detail::hybrid_adapter_impl<Args...>&& value)
-                -> decltype(auto)
+                -> std::tuple<Args...>
             {
                 return get_sorters_from_impl(std::move(value), std::make_index_sequence<sizeof...(Args)>{});
             }
@@ -380,10 +380,10 @@ namespace cppsort
             static constexpr auto get_flat_tuple(Sorter&& value)
                 -> detail::enable_if_t<
                     not detail::is_specialization_of_v<detail::remove_cvref_t<Sorter>, cppsort::hybrid_adapter>,
-                    std::tuple<std::remove_reference_t<Sorter>&&>
+                    std::tuple<Sorter>
                 >
             {
-                return std::forward_as_tuple(std::move(value));
+                return std::tuple<Sorter>(std::move(value));
             }
 
             template<typename Sorter>
-- 
2.43.0


From d53cc76f73182061b0852c47538051924b0be5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:33 +0000
Subject: [PATCH 40/49] fix: flatten nested hybrids in
 stable_adapter<hybrid_adapter>

---
 .../detail/stable_adapter_hybrid_adapter.h    | 52 ++++++++++++++++---
 1 file changed, 44 insertions(+), 8 deletions(-)

diff --git a/include/cpp-sort/detail/stable_adapter_hybrid_adapter.h b/include/cpp-sort/detail/stable_adapter_hybrid_adapter.h
index fa8c003..97301cb 100644
--- a/include/cpp-sort/detail/stable_adapter_hybrid_adapter.h
+++ b/include/cpp-sort/detail/stable_adapter_hybrid_adapter.h
@@ -14,18 +14,54 @@
 
 namespace cppsort
 {
+    namespace detail
+    {
+        ////////////////////////////////////////////////////////////
+        // Stable version of a hybrid_adapter, whose nested
+        // hybrid_adapter are flattened first
+
+        template<typename HybridAdapterImpl>
+        struct stable_hybrid_adapter;
+
+        template<typename... Sorters>
+        struct stable_hybrid_adapter<hybrid_adapter_impl<Sorters...>>
+        {
+            using type = hybrid_adapter<stable_t<Sorters>...>;
+
+            template<std::size_t... Indices>
+            static constexpr auto make(hybrid_adapter_impl<Sorters...>& sorters,
+                                       std::index_sequence<Indices...>)
+                -> type
+            {
+                return type(
+                    stable_t<Sorters>(std::move(sorters.template get<Indices>()))...
+                );
+            }
+
+            static constexpr auto make(hybrid_adapter_impl<Sorters...>& sorters)
+                -> type
+            {
+                return make(sorters, std::make_index_sequence<sizeof...(Sorters)>{});
+            }
+        };
+
+        template<typename... Sorters>
+        using stable_hybrid_adapter_for = stable_hybrid_adapter<
+            typename flatten_fold<
+                hybrid_adapter,
+                hybrid_adapter<Sorters...>,
+                hybrid_adapter_impl<>
+            >::type
+        >;
+    }
+
     template<typename... Sorters>
     struct stable_adapter<hybrid_adapter<Sorters...>>:
-        hybrid_adapter<stable_t<Sorters>...>
+        detail::stable_hybrid_adapter_for<Sorters...>::type
     {
         private:
 
-            template<std::size_t... Indices>
-            constexpr explicit stable_adapter(std::index_sequence<Indices...>, hybrid_adapter<Sorters...>&& sorters):
-                hybrid_adapter<stable_t<Sorters>...>(
-                    (stable_t<Sorters>(std::move(sorters).template get<Indices>()))...
-                )
-            {}
+            using stable_hybrid = detail::stable_hybrid_adapter_for<Sorters...>;
 
         public:
 
@@ -35,7 +71,7 @@ namespace cppsort
             stable_adapter() = default;
 
             constexpr explicit stable_adapter(hybrid_adapter<Sorters...> sorters):
-                stable_adapter(std::make_index_sequence<sizeof...(Sorters)>{}, std::move(sorters))
+                stable_hybrid::type(stable_hybrid::make(sorters))
             {}
 
             ////////////////////////////////////////////////////////////
-- 
2.43.0


From 94261ab8e72672f30c38d74cd9a3683ea9532ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:33 +0000
Subject: [PATCH 41/49] fix: spinsort of proxy iterators

---
 include/cpp-sort/detail/spinsort.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/cpp-sort/detail/spinsort.h b/include/cpp-sort/detail/spinsort.h
index e68abe4..a95c863 100644
--- a/include/cpp-sort/detail/spinsort.h
+++ b/include/cpp-sort/detail/spinsort.h
@@ -37,7 +37,7 @@
 #include "iterator_traits.h"
 #include "memory.h"
 #include "move.h"
-#include "swap_ranges.h"
+#include "reverse.h"
 #include "type_traits.h"
 #include "upper_bound.h"
 
@@ -168,9 +168,7 @@ namespace detail
             }
 
             // reverse the elements between first and it1
-            auto nreverse = it - rng_data.first;
-            auto mid = rng_data.first + nreverse / 2;
-            detail::swap_ranges_overlap(rng_data.first, mid, std::make_reverse_iterator(it));
+            detail::reverse(rng_data.first, it);
 
             // insert the elements between it1 and last
             if (it != rng_data.last) {
-- 
2.43.0


From 60ae270f5e66f2f6c92000e4d7389f4a2f741237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:33 +0000
Subject: [PATCH 42/49] fix: value moved out of prvalue references

---
 include/cpp-sort/utility/iter_move.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cpp-sort/utility/iter_move.h b/include/cpp-sort/utility/iter_move.h
index 792b0ce..84419dd 100644
--- a/include/cpp-sort/utility/iter_move.h
+++ b/include/cpp-sort/utility/iter_move.h
@@ -65,7 +65,7 @@ namespace cppsort
         using iter_move_t = cppsort::detail::conditional_t<
             std::is_reference<typename std::iterator_traits<Iterator>::reference>::value,
             std::remove_reference_t<typename std::iterator_traits<Iterator>::reference>&&,
-            std::decay_t<typename std::iterator_traits<Iterator>::reference>
+            typename std::iterator_traits<Iterator>::value_type
         >;
     }
 
-- 
2.43.0


From d4f3eac17199c87fe3e04769b4cc4c606487fbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:33 +0000
Subject: [PATCH 43/49] fix: schwartz_adapter and make_stable over proxy
 iterators

---
 include/cpp-sort/detail/associate_iterator.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/cpp-sort/detail/associate_iterator.h b/include/cpp-sort/detail/associate_iterator.h
index 81c9d5a..88df970 100644
--- a/include/cpp-sort/detail/associate_iterator.h
+++ b/include/cpp-sort/detail/associate_iterator.h
@@ -67,12 +67,13 @@ namespace detail
         auto operator=(association&& other)
             -> association&
         {
-            *it = std::move(*other.it);
+            using utility::iter_move;
+            *it = iter_move(other.it);
             data = std::move(other.data);
             return *this;
         }
 
-        auto operator=(associated_value<value_type_t<Iterator>, Data>&& other)
+        auto operator=(associated_value<rvalue_type_t<Iterator>, Data>&& other)
             -> association&
         {
             *it = std::move(other.value);
@@ -342,12 +343,13 @@ namespace detail
             CPPSORT_ATTRIBUTE_NODISCARD
             friend auto iter_move(associate_iterator it)
                 -> associated_value<
-                    value_type_t<typename value_type_t<Iterator>::iterator_type>,
+                    rvalue_type_t<typename value_type_t<Iterator>::iterator_type>,
                     typename value_type_t<Iterator>::data_type
                 >
             {
+                using utility::iter_move;
                 return {
-                    std::move(*(it->it)),
+                    iter_move(it->it),
                     std::move(it->data)
                 };
             }
-- 
2.43.0


From 654e5666fd983a34ab577790067d9c88a631ee9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:33 +0000
Subject: [PATCH 44/49] fix: drop_merge_sort of iterators without references

---
 include/cpp-sort/detail/drop_merge_sort.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cpp-sort/detail/drop_merge_sort.h b/include/cpp-sort/detail/drop_merge_sort.h
index 962bb82..75be8e6 100644
--- a/include/cpp-sort/detail/drop_merge_sort.h
+++ b/include/cpp-sort/detail/drop_merge_sort.h
@@ -130,7 +130,7 @@ namespace detail
 
         auto back = end;
         do {
-            auto& last_dropped = dropped.back();
+            auto&& last_dropped = dropped.back();
 
             while (begin != write && comp(proj(last_dropped), proj(*std::prev(write)))) {
                 --back;
-- 
2.43.0


From 14694cae1064d19eac169f49a2baa0ce2cd4760c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:33 +0000
Subject: [PATCH 45/49] fix: dangling projections of prvalue references

---
 include/cpp-sort/detail/adaptive_quickselect.h     |  9 ++++++---
 include/cpp-sort/detail/cartesian_tree_sort.h      |  3 ++-
 .../cpp-sort/detail/front_inserter/inserter10.h    |  4 +++-
 .../cpp-sort/detail/front_inserter/inserter11.h    |  4 +++-
 include/cpp-sort/detail/front_inserter/inserter3.h |  4 +++-
 include/cpp-sort/detail/front_inserter/inserter4.h |  4 +++-
 include/cpp-sort/detail/front_inserter/inserter5.h |  4 +++-
 include/cpp-sort/detail/front_inserter/inserter6.h |  4 +++-
 include/cpp-sort/detail/front_inserter/inserter7.h |  4 +++-
 include/cpp-sort/detail/front_inserter/inserter8.h |  4 +++-
 include/cpp-sort/detail/front_inserter/inserter9.h |  4 +++-
 include/cpp-sort/detail/grail_sort.h               |  3 ++-
 include/cpp-sort/detail/introselect.h              |  6 ++++--
 include/cpp-sort/detail/iterator_traits.h          | 14 ++++++++++++++
 include/cpp-sort/detail/melsort.h                  |  4 +++-
 include/cpp-sort/detail/merge_sort.h               |  6 ++++--
 include/cpp-sort/detail/quick_merge_sort.h         |  3 ++-
 include/cpp-sort/detail/quicksort.h                |  6 ++++--
 include/cpp-sort/detail/slabsort.h                 | 10 ++++++----
 include/cpp-sort/detail/splaysort.h                |  3 ++-
 include/cpp-sort/detail/vergesort.h                |  6 ++++--
 include/cpp-sort/probes/enc.h                      |  3 ++-
 include/cpp-sort/probes/osc.h                      |  3 ++-
 include/cpp-sort/utility/sorted_indices.h          |  5 ++++-
 24 files changed, 88 insertions(+), 32 deletions(-)

diff --git a/include/cpp-sort/detail/adaptive_quickselect.h b/include/cpp-sort/detail/adaptive_quickselect.h
index 8668499..f5539e2 100644
--- a/include/cpp-sort/detail/adaptive_quickselect.h
+++ b/include/cpp-sort/detail/adaptive_quickselect.h
@@ -45,7 +45,8 @@ namespace detail
 
             CPPSORT_ASSERT(k < length);
             iter_swap(r, r + k); // Move pivot out of the way
-            auto&& pivot_proj = proj(*r);
+            auto&& pivot_ref = *r;
+            auto&& pivot_proj = proj(std::forward<decltype(pivot_ref)>(pivot_ref));
             auto pivot_pos = detail::partition(r, r + length, [&](auto&& elem) {
                 return not comp(pivot_proj, proj(elem));
             });
@@ -173,7 +174,8 @@ namespace detail
             CPPSORT_ASSERT(lo > 0 && lo <= pivot);
             difference_type_t<RandomAccessIterator> left = 0;
             const auto oldPivot = pivot;
-            auto&& old_pivot_proj = proj(r[oldPivot]);
+            auto&& old_pivot_ref = r[oldPivot];
+            auto&& old_pivot_proj = proj(std::forward<decltype(old_pivot_ref)>(old_pivot_ref));
             for (; lo < pivot ; ++left) {
                 if (left == lo) {
                     iter_swap(r + oldPivot, r + pivot);
@@ -218,7 +220,8 @@ namespace detail
             difference_type_t<RandomAccessIterator> pivot = 0;
             CPPSORT_ASSERT(pivot <= hi);
             CPPSORT_ASSERT(hi <= rite);
-            auto&& pivot_proj = proj(r[0]);
+            auto&& pivot_ref = r[0];
+            auto&& pivot_proj = proj(std::forward<decltype(pivot_ref)>(pivot_ref));
 
             // First loop: spend r[pivot .. hi]
             for (; pivot < hi ; --rite) {
diff --git a/include/cpp-sort/detail/cartesian_tree_sort.h b/include/cpp-sort/detail/cartesian_tree_sort.h
index 1891a5b..7d7f785 100644
--- a/include/cpp-sort/detail/cartesian_tree_sort.h
+++ b/include/cpp-sort/detail/cartesian_tree_sort.h
@@ -58,7 +58,8 @@ namespace detail
                 ++first;
 
                 for (; first != last ; ++first) {
-                    auto&& proj_value = proj(*first);
+                    auto&& value_ref = *first;
+                    auto&& proj_value = proj(std::forward<decltype(value_ref)>(value_ref));
                     node_type* new_parent = _find_insertion_parent(prev_node, proj_value, compare, projection);
                     if (new_parent == nullptr) {
                         root_ = buffer_.emplace_back(iter_move(first), nullptr, root_);
diff --git a/include/cpp-sort/detail/front_inserter/inserter10.h b/include/cpp-sort/detail/front_inserter/inserter10.h
index 3f44a3c..b0c1843 100644
--- a/include/cpp-sort/detail/front_inserter/inserter10.h
+++ b/include/cpp-sort/detail/front_inserter/inserter10.h
@@ -8,6 +8,7 @@
 ////////////////////////////////////////////////////////////
 // Headers
 ////////////////////////////////////////////////////////////
+#include <utility>
 #include <cpp-sort/utility/as_function.h>
 #include "../rotate_left.h"
 
@@ -28,7 +29,8 @@ namespace detail
         {
             auto&& comp = utility::as_function(compare);
             auto&& proj = utility::as_function(projection);
-            auto&& proj0 = proj(first[0u]);
+            auto&& elem0 = first[0u];
+            auto&& proj0 = proj(std::forward<decltype(elem0)>(elem0));
 
             if (comp(proj(first[5u]), proj0)) {
                 if (comp(proj(first[7u]), proj0)) {
diff --git a/include/cpp-sort/detail/front_inserter/inserter11.h b/include/cpp-sort/detail/front_inserter/inserter11.h
index 740e9c7..35e2cfd 100644
--- a/include/cpp-sort/detail/front_inserter/inserter11.h
+++ b/include/cpp-sort/detail/front_inserter/inserter11.h
@@ -8,6 +8,7 @@
 ////////////////////////////////////////////////////////////
 // Headers
 ////////////////////////////////////////////////////////////
+#include <utility>
 #include <cpp-sort/utility/as_function.h>
 #include "../rotate_left.h"
 
@@ -28,7 +29,8 @@ namespace detail
         {
             auto&& comp = utility::as_function(compare);
             auto&& proj = utility::as_function(projection);
-            auto&& proj0 = proj(first[0u]);
+            auto&& elem0 = first[0u];
+            auto&& proj0 = proj(std::forward<decltype(elem0)>(elem0));
 
             if (comp(proj(first[5u]), proj0)) {
                 if (comp(proj(first[8u]), proj0)) {
diff --git a/include/cpp-sort/detail/front_inserter/inserter3.h b/include/cpp-sort/detail/front_inserter/inserter3.h
index 8fb1840..1d82028 100644
--- a/include/cpp-sort/detail/front_inserter/inserter3.h
+++ b/include/cpp-sort/detail/front_inserter/inserter3.h
@@ -8,6 +8,7 @@
 ////////////////////////////////////////////////////////////
 // Headers
 ////////////////////////////////////////////////////////////
+#include <utility>
 #include <cpp-sort/utility/as_function.h>
 #include "../rotate_left.h"
 
@@ -28,7 +29,8 @@ namespace detail
         {
             auto&& comp = utility::as_function(compare);
             auto&& proj = utility::as_function(projection);
-            auto&& proj0 = proj(first[0u]);
+            auto&& elem0 = first[0u];
+            auto&& proj0 = proj(std::forward<decltype(elem0)>(elem0));
 
             if (comp(proj(first[1u]), proj0)) {
                 if (comp(proj(first[2u]), proj0)) {
diff --git a/include/cpp-sort/detail/front_inserter/inserter4.h b/include/cpp-sort/detail/front_inserter/inserter4.h
index c0be542..ae7d842 100644
--- a/include/cpp-sort/detail/front_inserter/inserter4.h
+++ b/include/cpp-sort/detail/front_inserter/inserter4.h
@@ -8,6 +8,7 @@
 ////////////////////////////////////////////////////////////
 // Headers
 ////////////////////////////////////////////////////////////
+#include <utility>
 #include <cpp-sort/utility/as_function.h>
 #include "../rotate_left.h"
 
@@ -28,7 +29,8 @@ namespace detail
         {
             auto&& comp = utility::as_function(compare);
             auto&& proj = utility::as_function(projection);
-            auto&& proj0 = proj(first[0u]);
+            auto&& elem0 = first[0u];
+            auto&& proj0 = proj(std::forward<decltype(elem0)>(elem0));
 
             if (comp(proj(first[2u]), proj0)) {
                 if (comp(proj(first[3u]), proj0)) {
diff --git a/include/cpp-sort/detail/front_inserter/inserter5.h b/include/cpp-sort/detail/front_inserter/inserter5.h
index 8caa078..d2cb2b1 100644
--- a/include/cpp-sort/detail/front_inserter/inserter5.h
+++ b/include/cpp-sort/detail/front_inserter/inserter5.h
@@ -8,6 +8,7 @@
 ////////////////////////////////////////////////////////////
 // Headers
 ////////////////////////////////////////////////////////////
+#include <utility>
 #include <cpp-sort/utility/as_function.h>
 #include "../rotate_left.h"
 
@@ -28,7 +29,8 @@ namespace detail
         {
             auto&& comp = utility::as_function(compare);
             auto&& proj = utility::as_function(projection);
-            auto&& proj0 = proj(first[0u]);
+            auto&& elem0 = first[0u];
+            auto&& proj0 = proj(std::forward<decltype(elem0)>(elem0));
 
             if (comp(proj(first[2u]), proj0)) {
                 if (comp(proj(first[3u]), proj0)) {
diff --git a/include/cpp-sort/detail/front_inserter/inserter6.h b/include/cpp-sort/detail/front_inserter/inserter6.h
index e154152..d352e19 100644
--- a/include/cpp-sort/detail/front_inserter/inserter6.h
+++ b/include/cpp-sort/detail/front_inserter/inserter6.h
@@ -8,6 +8,7 @@
 ////////////////////////////////////////////////////////////
 // Headers
 ////////////////////////////////////////////////////////////
+#include <utility>
 #include <cpp-sort/utility/as_function.h>
 #include "../rotate_left.h"
 
@@ -28,7 +29,8 @@ namespace detail
         {
             auto&& comp = utility::as_function(compare);
             auto&& proj = utility::as_function(projection);
-            auto&& proj0 = proj(first[0u]);
+            auto&& elem0 = first[0u];
+            auto&& proj0 = proj(std::forward<decltype(elem0)>(elem0));
 
             if (comp(proj(first[3u]), proj0)) {
                 if (comp(proj(first[4u]), proj0)) {
diff --git a/include/cpp-sort/detail/front_inserter/inserter7.h b/include/cpp-sort/detail/front_inserter/inserter7.h
index b071342..85cb3a4 100644
--- a/include/cpp-sort/detail/front_inserter/inserter7.h
+++ b/include/cpp-sort/detail/front_inserter/inserter7.h
@@ -8,6 +8,7 @@
 ////////////////////////////////////////////////////////////
 // Headers
 ////////////////////////////////////////////////////////////
+#include <utility>
 #include <cpp-sort/utility/as_function.h>
 #include "../rotate_left.h"
 
@@ -28,7 +29,8 @@ namespace detail
         {
             auto&& comp = utility::as_function(compare);
             auto&& proj = utility::as_function(projection);
-            auto&& proj0 = proj(first[0u]);
+            auto&& elem0 = first[0u];
+            auto&& proj0 = proj(std::forward<decltype(elem0)>(elem0));
 
             if (comp(proj(first[3u]), proj0)) {
                 if (comp(proj(first[5u]), proj0)) {
diff --git a/include/cpp-sort/detail/front_inserter/inserter8.h b/include/cpp-sort/detail/front_inserter/inserter8.h
index a54200d..8bcd37c 100644
--- a/include/cpp-sort/detail/front_inserter/inserter8.h
+++ b/include/cpp-sort/detail/front_inserter/inserter8.h
@@ -8,6 +8,7 @@
 ////////////////////////////////////////////////////////////
 // Headers
 ////////////////////////////////////////////////////////////
+#include <utility>
 #include <cpp-sort/utility/as_function.h>
 #include "../rotate_left.h"
 
@@ -28,7 +29,8 @@ namespace detail
         {
             auto&& comp = utility::as_function(compare);
             auto&& proj = utility::as_function(projection);
-            auto&& proj0 = proj(first[0u]);
+            auto&& elem0 = first[0u];
+            auto&& proj0 = proj(std::forward<decltype(elem0)>(elem0));
 
             if (comp(proj(first[4u]), proj0)) {
                 if (comp(proj(first[6u]), proj0)) {
diff --git a/include/cpp-sort/detail/front_inserter/inserter9.h b/include/cpp-sort/detail/front_inserter/inserter9.h
index d85553d..a7b4c7c 100644
--- a/include/cpp-sort/detail/front_inserter/inserter9.h
+++ b/include/cpp-sort/detail/front_inserter/inserter9.h
@@ -8,6 +8,7 @@
 ////////////////////////////////////////////////////////////
 // Headers
 ////////////////////////////////////////////////////////////
+#include <utility>
 #include <cpp-sort/utility/as_function.h>
 #include "../rotate_left.h"
 
@@ -28,7 +29,8 @@ namespace detail
         {
             auto&& comp = utility::as_function(compare);
             auto&& proj = utility::as_function(projection);
-            auto&& proj0 = proj(first[0u]);
+            auto&& elem0 = first[0u];
+            auto&& proj0 = proj(std::forward<decltype(elem0)>(elem0));
 
             if (comp(proj(first[4u]), proj0)) {
                 if (comp(proj(first[6u]), proj0)) {
diff --git a/include/cpp-sort/detail/grail_sort.h b/include/cpp-sort/detail/grail_sort.h
index 01b8a8b..cc7f52b 100644
--- a/include/cpp-sort/detail/grail_sort.h
+++ b/include/cpp-sort/detail/grail_sort.h
@@ -391,7 +391,8 @@ namespace grail
     {
         using difference_type = difference_type_t<RandomAccessIterator>;
         auto&& proj = utility::as_function(projection);
-        auto&& midkey_proj = proj(*midkey);
+        auto&& midkey_ref = *midkey;
+        auto&& midkey_proj = proj(std::forward<decltype(midkey_ref)>(midkey_ref));
 
         if (nblock == 0) {
             auto l = arr + nblock2 * lblock;
diff --git a/include/cpp-sort/detail/introselect.h b/include/cpp-sort/detail/introselect.h
index e33a530..6beece8 100644
--- a/include/cpp-sort/detail/introselect.h
+++ b/include/cpp-sort/detail/introselect.h
@@ -279,7 +279,8 @@ namespace detail
 
             // Put the pivot at position std::prev(last) and partition
             iter_swap(median_it, last_1);
-            auto&& pivot1 = proj(*last_1);
+            auto&& pivot1_ref = *last_1;
+            auto&& pivot1 = proj(std::forward<decltype(pivot1_ref)>(pivot1_ref));
             auto middle1 = detail::partition(
                 first, last_1,
                 [&](auto&& elem) { return comp(proj(elem), pivot1); }
@@ -287,7 +288,8 @@ namespace detail
 
             // Put the pivot in its final position and partition
             iter_swap(middle1, last_1);
-            auto&& pivot2 = proj(*middle1);
+            auto&& pivot2_ref = *middle1;
+            auto&& pivot2 = proj(std::forward<decltype(pivot2_ref)>(pivot2_ref));
             auto middle2 = detail::partition(
                 std::next(middle1), last,
                 [&](auto&& elem) { return not comp(pivot2, proj(elem)); }
diff --git a/include/cpp-sort/detail/iterator_traits.h b/include/cpp-sort/detail/iterator_traits.h
index 72dbad0..4ac679c 100644
--- a/include/cpp-sort/detail/iterator_traits.h
+++ b/include/cpp-sort/detail/iterator_traits.h
@@ -9,6 +9,7 @@
 // Headers
 ////////////////////////////////////////////////////////////
 #include <iterator>
+#include <type_traits>
 #include <utility>
 #include <cpp-sort/utility/iter_move.h>
 #include "type_traits.h"
@@ -49,6 +50,19 @@ namespace detail
     // Handy addition from time to time
     template<typename Iterator, typename Projection>
     using projected_t = remove_cvref_t<invoke_result_t<Projection, decltype(*std::declval<Iterator&>())>>;
+
+    // Result of projecting a dereferenced iterator that can be
+    // returned from a function: when the iterator dereferences
+    // to a prvalue, an rvalue reference into it would dangle
+    template<typename Iterator, typename Projection>
+    using projected_result_t = conditional_t<
+        not std::is_reference<decltype(*std::declval<Iterator&>())>::value &&
+            std::is_rvalue_reference<
+                invoke_result_t<Projection, decltype(*std::declval<Iterator&>())>
+            >::value,
+        projected_t<Iterator, Projection>,
+        invoke_result_t<Projection, decltype(*std::declval<Iterator&>())>
+    >;
 }}
 
 #endif // CPPSORT_DETAIL_ITERATOR_TRAITS_H_
diff --git a/include/cpp-sort/detail/melsort.h b/include/cpp-sort/detail/melsort.h
index 467c766..31c4270 100644
--- a/include/cpp-sort/detail/melsort.h
+++ b/include/cpp-sort/detail/melsort.h
@@ -10,6 +10,7 @@
 ////////////////////////////////////////////////////////////
 #include <cmath>
 #include <iterator>
+#include <utility>
 #include <vector>
 #include <cpp-sort/comparators/flip.h>
 #include <cpp-sort/utility/as_function.h>
@@ -147,7 +148,8 @@ namespace detail
         // Create encroaching lists
 
         for (auto it = std::next(first) ; it != last ; ++it) {
-            auto&& value = proj(*it);
+            auto&& value_ref = *it;
+            auto&& value = proj(std::forward<decltype(value_ref)>(value_ref));
 
             // The heads of the lists form an ascending collection while the heads
             // form a descending collection, plus the we have the guarantee that the
diff --git a/include/cpp-sort/detail/merge_sort.h b/include/cpp-sort/detail/merge_sort.h
index 90452ff..9e41f25 100644
--- a/include/cpp-sort/detail/merge_sort.h
+++ b/include/cpp-sort/detail/merge_sort.h
@@ -53,7 +53,8 @@ namespace detail
         ));
 
         // Shrink the left partition to merge
-        auto&& middle_proj = proj(*middle);
+        auto&& middle_ref = *middle;
+        auto&& middle_proj = proj(std::forward<decltype(middle_ref)>(middle_ref));
         while (first != middle && not comp(middle_proj, proj(*first))) {
             ++first;
             --size_left;
@@ -105,7 +106,8 @@ namespace detail
         ));
 
         // Shrink the left partition to merge
-        auto&& middle_proj = proj(*middle);
+        auto&& middle_ref = *middle;
+        auto&& middle_proj = proj(std::forward<decltype(middle_ref)>(middle_ref));
         while (first != middle && not comp(middle_proj, proj(*first))) {
             ++first;
             --size_left;
diff --git a/include/cpp-sort/detail/quick_merge_sort.h b/include/cpp-sort/detail/quick_merge_sort.h
index 6609779..1ac7827 100644
--- a/include/cpp-sort/detail/quick_merge_sort.h
+++ b/include/cpp-sort/detail/quick_merge_sort.h
@@ -110,7 +110,8 @@ namespace detail
         internal_mergesort(middle, last, size - size_left, buffer, compare, projection);
 
         // Reduce left partition even more if possible
-        auto&& mid_value = proj(*middle);
+        auto&& mid_value_ref = *middle;
+        auto&& mid_value = proj(std::forward<decltype(mid_value_ref)>(mid_value_ref));
         while (first != middle && not comp(mid_value, proj(*first))) {
             ++first;
             --size_left;
diff --git a/include/cpp-sort/detail/quicksort.h b/include/cpp-sort/detail/quicksort.h
index 8afda65..b0fdd4f 100644
--- a/include/cpp-sort/detail/quicksort.h
+++ b/include/cpp-sort/detail/quicksort.h
@@ -81,7 +81,8 @@ namespace detail
 
         // Put the pivot at position std::prev(last) and partition
         iter_swap(median_it, last_1);
-        auto&& pivot1 = proj(*last_1);
+        auto&& pivot1_ref = *last_1;
+        auto&& pivot1 = proj(std::forward<decltype(pivot1_ref)>(pivot1_ref));
         auto middle1 = detail::partition(
             first, last_1,
             [&](auto&& elem) { return comp(proj(elem), pivot1); }
@@ -89,7 +90,8 @@ namespace detail
 
         // Put the pivot in its final position and partition
         iter_swap(middle1, last_1);
-        auto&& pivot2 = proj(*middle1);
+        auto&& pivot2_ref = *middle1;
+        auto&& pivot2 = proj(std::forward<decltype(pivot2_ref)>(pivot2_ref));
         auto middle2 = detail::partition(
             std::next(middle1), last,
             [&](auto&& elem) { return not comp(pivot2, proj(elem)); }
diff --git a/include/cpp-sort/detail/slabsort.h b/include/cpp-sort/detail/slabsort.h
index 4441142..2195a31 100644
--- a/include/cpp-sort/detail/slabsort.h
+++ b/include/cpp-sort/detail/slabsort.h
@@ -112,7 +112,8 @@ namespace detail
 
         // Put the pivot at position std::prev(last) and partition
         iter_swap(median_it, last_1);
-        auto&& pivot = proj(*last_1);
+        auto&& pivot_ref = *last_1;
+        auto&& pivot = proj(std::forward<decltype(pivot_ref)>(pivot_ref));
         auto middle = detail::stable_partition(
             first, last_1, size - 1,
             [&](auto&& elem) { return comp(proj(elem), pivot); }
@@ -152,14 +153,15 @@ namespace detail
         // Create encroaching lists
 
         for (auto it = std::next(first) ; it != last ; ++it) {
-            auto&& value = proj(*it);
+            auto&& value_ref = *it;
+            auto&& value = proj(std::forward<decltype(value_ref)>(value_ref));
 
             auto& last_list = lists.back();
             if (not comp(value, proj(*std::prev(last_list.end()).base()->it))) {
                 // Element belongs to the tails (bigger elements)
                 auto insertion_point = detail::lower_bound(
                     lists.begin(), std::prev(lists.end()), value, cppsort::flip(compare),
-                    [&proj](auto& list) -> decltype(auto) {
+                    [&proj](auto& list) -> projected_result_t<BidirectionalIterator, decltype(proj)> {
                         return proj(*std::prev(list.end()).base()->it);
                     }
                 );
@@ -170,7 +172,7 @@ namespace detail
                 // Element belongs to the heads (smaller elements)
                 auto insertion_point = detail::lower_bound(
                     lists.begin(), std::prev(lists.end()), value, compare,
-                    [&proj](auto& list) -> decltype(auto) {
+                    [&proj](auto& list) -> projected_result_t<BidirectionalIterator, decltype(proj)> {
                         return proj(*list.begin().base()->it);
                     }
                 );
diff --git a/include/cpp-sort/detail/splaysort.h b/include/cpp-sort/detail/splaysort.h
index c9defb1..a58d351 100644
--- a/include/cpp-sort/detail/splaysort.h
+++ b/include/cpp-sort/detail/splaysort.h
@@ -210,7 +210,8 @@ namespace detail
                 auto&& comp = utility::as_function(compare);
                 auto&& proj = utility::as_function(projection);
 
-                auto&& value_proj = proj(*it);
+                auto&& value_ref = *it;
+                auto&& value_proj = proj(std::forward<decltype(value_ref)>(value_ref));
 
                 binary_tree_node_base* node = root();
                 CPPSORT_ASSERT(node != &sentinel_node_);
diff --git a/include/cpp-sort/detail/vergesort.h b/include/cpp-sort/detail/vergesort.h
index 9144953..007fd6e 100644
--- a/include/cpp-sort/detail/vergesort.h
+++ b/include/cpp-sort/detail/vergesort.h
@@ -64,14 +64,16 @@ namespace verge
                 // Merge the runs, micro-optimize for size 1 because it can happen,
                 // and the generic inplace_merge algorithm cares not
                 if (it->size == 1) {
-                    auto&& target = proj(*begin);
+                    auto&& target_ref = *begin;
+                    auto&& target = proj(std::forward<decltype(target_ref)>(target_ref));
                     if (comp(proj(*it->end), target)) {
                         auto insert_it = detail::lower_bound_n(it->end, next_it->size, target, compare, projection);
                         detail::rotate_left(begin, insert_it);
                     } else {
                     }
                 } else if (next_it->size == 1) {
-                    auto&& target = proj(*std::prev(next_it->end));
+                    auto&& target_ref = *std::prev(next_it->end);
+                    auto&& target = proj(std::forward<decltype(target_ref)>(target_ref));
                     if (comp(target, proj(*std::prev(it->end)))) {
                         auto insert_it = detail::upper_bound_n(begin, it->size, target, compare, projection);
                         detail::rotate_right(insert_it, next_it->end);
diff --git a/include/cpp-sort/probes/enc.h b/include/cpp-sort/probes/enc.h
index 2f8add6..a599929 100644
--- a/include/cpp-sort/probes/enc.h
+++ b/include/cpp-sort/probes/enc.h
@@ -86,7 +86,8 @@ namespace probe
                 // Create encroaching lists
 
                 while (first != last) {
-                    auto&& value = proj(*first);
+                    auto&& value_ref = *first;
+                    auto&& value = proj(std::forward<decltype(value_ref)>(value_ref));
 
                     auto& last_list = lists.back();
                     if (not comp(value, proj(*last_list.second))) {
diff --git a/include/cpp-sort/probes/osc.h b/include/cpp-sort/probes/osc.h
index 771b801..cdde6c3 100644
--- a/include/cpp-sort/probes/osc.h
+++ b/include/cpp-sort/probes/osc.h
@@ -51,7 +51,8 @@ namespace probe
 
             difference_type count = 0;
             for (auto it = first; it != last; ++it) {
-                auto&& value = proj(*it);
+                auto&& value_ref = *it;
+                auto&& value = proj(std::forward<decltype(value_ref)>(value_ref));
 
                 auto current = first;
                 auto next = std::next(first);
diff --git a/include/cpp-sort/utility/sorted_indices.h b/include/cpp-sort/utility/sorted_indices.h
index 067ca06..9b0bf39 100644
--- a/include/cpp-sort/utility/sorted_indices.h
+++ b/include/cpp-sort/utility/sorted_indices.h
@@ -69,7 +69,10 @@ namespace utility
 
                 // Reorder the vector thanks to the passed sorter
                 this->get()(indices, std::move(compare),
-                            [&first, &proj](difference_type index) -> decltype(auto) {
+                            [&first, &proj](difference_type index)
+                                -> cppsort::detail::projected_result_t<
+                                    RandomAccessIterator, decltype(proj)
+                                > {
                                 return proj(first[index]);
                             });
 
-- 
2.43.0


From 9abf4d2e805bfa20fc45582e570f242f743c5ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:29 +0000
Subject: [PATCH 46/49] fix: refined<T> with a reference type

---
 include/cpp-sort/refined.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/cpp-sort/refined.h b/include/cpp-sort/refined.h
index bb8d512..5bc1fb1 100644
--- a/include/cpp-sort/refined.h
+++ b/include/cpp-sort/refined.h
@@ -35,19 +35,19 @@ namespace cppsort
     template<
         typename T,
         typename Function,
-        typename = detail::enable_if_t<detail::has_refine_method<Function, T>>
+        typename = detail::enable_if_t<detail::has_refine_method<Function, std::decay_t<T>>>
     >
     auto refined(Function func)
-        noexcept(noexcept(func.template refine<T>()))
-        -> decltype(func.template refine<T>())
+        noexcept(noexcept(func.template refine<std::decay_t<T>>()))
+        -> decltype(func.template refine<std::decay_t<T>>())
     {
-        return func.template refine<T>();
+        return func.template refine<std::decay_t<T>>();
     }
 
     template<
         typename T,
         typename Function,
-        typename = detail::enable_if_t<not detail::has_refine_method<Function, T>>
+        typename = detail::enable_if_t<not detail::has_refine_method<Function, std::decay_t<T>>>
     >
     constexpr auto refined(Function&& func) noexcept
         -> Function&&
-- 
2.43.0


From c826a16be350992aa94ebd59ae72283d094fb46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:29 +0000
Subject: [PATCH 47/49] fix: lone projections with the sort method of lists

---
 include/cpp-sort/adapters/self_sort_adapter.h | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/include/cpp-sort/adapters/self_sort_adapter.h b/include/cpp-sort/adapters/self_sort_adapter.h
index 402539a..b4f95ff 100644
--- a/include/cpp-sort/adapters/self_sort_adapter.h
+++ b/include/cpp-sort/adapters/self_sort_adapter.h
@@ -33,12 +33,30 @@ namespace cppsort
         using has_sort_method_t
             = decltype(std::declval<Iterable&>().sort(utility::as_function(std::declval<Args&>())...));
 
+        // The sort method of standard lists accepts anything, but is
+        // only suitable for comparison functions
+        template<typename Iterable, typename... Args>
+        struct is_suitable_for_sort_method:
+            std::true_type
+        {};
+
+        template<typename T, typename Allocator, typename Function>
+        struct is_suitable_for_sort_method<std::forward_list<T, Allocator>, Function>:
+            is_invocable<Function&, T&, T&>
+        {};
+
+        template<typename T, typename Allocator, typename Function>
+        struct is_suitable_for_sort_method<std::list<T, Allocator>, Function>:
+            is_invocable<Function&, T&, T&>
+        {};
+
         template<
             typename Iterable,
             typename... Args
         >
         constexpr bool has_sort_method
-            = is_detected_v<has_sort_method_t, Iterable, Args...>;
+            = is_detected_v<has_sort_method_t, Iterable, Args...> &&
+              is_suitable_for_sort_method<remove_cvref_t<Iterable>, Args...>::value;
 
         template<
             typename Iterable,
-- 
2.43.0


From 95cfefabc08cde21e6e4410c8d1224bd7fd7191a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:29 +0000
Subject: [PATCH 48/49] fix: SFINAE-friendly out_of_place_adapter

---
 .../cpp-sort/adapters/out_of_place_adapter.h  | 21 +++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/include/cpp-sort/adapters/out_of_place_adapter.h b/include/cpp-sort/adapters/out_of_place_adapter.h
index 24a7f7b..e071487 100644
--- a/include/cpp-sort/adapters/out_of_place_adapter.h
+++ b/include/cpp-sort/adapters/out_of_place_adapter.h
@@ -79,7 +79,15 @@ namespace cppsort
         ////////////////////////////////////////////////////////////
         // Wrap and call the sorter
 
-        template<typename Iterator, typename... Args>
+        template<
+            typename Iterator,
+            typename... Args,
+            typename = decltype(std::declval<const Sorter&>()(
+                std::declval<detail::rvalue_type_t<Iterator>*>(),
+                std::declval<detail::rvalue_type_t<Iterator>*>(),
+                std::declval<Args>()...
+            ))
+        >
         auto operator()(Iterator first, Iterator last, Args&&... args) const
             -> decltype(auto)
         {
@@ -87,7 +95,16 @@ namespace cppsort
             return detail::sort_out_of_place(first, last, size, this->get(), std::forward<Args>(args)...);
         }
 
-        template<typename Iterable, typename... Args>
+        template<
+            typename Iterable,
+            typename... Args,
+            typename Iterator = detail::remove_cvref_t<decltype(std::begin(std::declval<Iterable&>()))>,
+            typename = decltype(std::declval<const Sorter&>()(
+                std::declval<detail::rvalue_type_t<Iterator>*>(),
+                std::declval<detail::rvalue_type_t<Iterator>*>(),
+                std::declval<Args>()...
+            ))
+        >
         auto operator()(Iterable&& iterable, Args&&... args) const
             -> decltype(auto)
         {
-- 
2.43.0


From 1e5e6969fc4e4e43135aad9cce3e4c7482c5c2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:29 +0000
Subject: [PATCH 49/49] fix: ambiguous calls in sorter_facade

---
 include/cpp-sort/sorter_facade.h | 34 ++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/include/cpp-sort/sorter_facade.h b/include/cpp-sort/sorter_facade.h
index f18c2b2..a82f22a 100644
--- a/include/cpp-sort/sorter_facade.h
+++ b/include/cpp-sort/sorter_facade.h
@@ -1044,6 +1044,17 @@ namespace cppsort
         template<typename Iterable, typename Projection>
         constexpr auto operator()(Iterable&& iterable, Projection projection) const
             -> detail::enable_if_t<
+                not detail::has_projection_sort<
+                    Sorter,
+                    Iterable,
+                    refined_t<decltype(*std::begin(iterable)), Projection>
+                >::value &&
+                not detail::has_comparison_projection_sort<
+                    Sorter,
+                    Iterable,
+                    std::less<>,
+                    refined_t<decltype(*std::begin(iterable)), Projection>
+                >::value &&
                 not detail::has_projection_sort_iterator<
                     Sorter,
                     decltype(std::begin(iterable)),
@@ -1074,6 +1085,17 @@ namespace cppsort
         template<typename Iterable, typename Projection>
         constexpr auto operator()(Iterable&& iterable, Projection projection) const
             -> detail::enable_if_t<
+                not detail::has_projection_sort<
+                    Sorter,
+                    Iterable,
+                    refined_t<decltype(*std::begin(iterable)), Projection>
+                >::value &&
+                not detail::has_comparison_projection_sort<
+                    Sorter,
+                    Iterable,
+                    std::less<>,
+                    refined_t<decltype(*std::begin(iterable)), Projection>
+                >::value &&
                 not detail::has_projection_sort_iterator<
                     Sorter,
                     decltype(std::begin(iterable)),
@@ -1114,6 +1136,12 @@ namespace cppsort
         template<typename Iterable, typename Compare, typename Projection>
         constexpr auto operator()(Iterable&& iterable, Compare compare, Projection projection) const
             -> detail::enable_if_t<
+                not detail::has_comparison_projection_sort<
+                    Sorter,
+                    Iterable,
+                    refined_t<decltype(*std::begin(iterable)), Compare>,
+                    refined_t<decltype(*std::begin(iterable)), Projection>
+                >::value &&
                 not detail::has_comparison_projection_sort_iterator<
                     Sorter,
                     decltype(std::begin(iterable)),
@@ -1141,6 +1169,12 @@ namespace cppsort
         template<typename Iterable, typename Compare, typename Projection>
         constexpr auto operator()(Iterable&& iterable, Compare compare, Projection projection) const
             -> detail::enable_if_t<
+                not detail::has_comparison_projection_sort<
+                    Sorter,
+                    Iterable,
+                    refined_t<decltype(*std::begin(iterable)), Compare>,
+                    refined_t<decltype(*std::begin(iterable)), Projection>
+                >::value &&
                 not detail::has_comparison_projection_sort_iterator<
                     Sorter,
                     decltype(std::begin(iterable)),
-- 
2.43.0

