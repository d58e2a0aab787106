From dc05c01cd8a1ad42d8f5f9ccdfe8a837a9e05c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:14 +0000
Subject: [PATCH 01/38] fix: reject a segment that ends at the minimum key in
 flat_segment_tree

The end key is exclusive, so such a segment does not overlap the range of
the tree.  Accepting it adjusted it to an empty segment and then
dereferenced the non-existent predecessor of the leftmost leaf node.
---
 include/mdds/flat_segment_tree_def.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mdds/flat_segment_tree_def.inl b/include/mdds/flat_segment_tree_def.inl
index 9c63927..c3df0f3 100644
--- a/include/mdds/flat_segment_tree_def.inl
+++ b/include/mdds/flat_segment_tree_def.inl
@@ -841,7 +841,7 @@ bool flat_segment_tree<Key, Value>::adjust_segment_range(key_type& start_key, ke
         // Invalid order of segment range.
         return false;
 
-    if (end_key < m_left_leaf->key || m_right_leaf->key <= start_key)
+    if (end_key <= m_left_leaf->key || m_right_leaf->key <= start_key)
         // The new segment does not overlap the current interval.
         return false;
 
-- 
2.43.0


From feaa87cee92d1d3d5d8b07180c159aa2266955fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:29 +0000
Subject: [PATCH 02/38] fix: make positional search of flat_segment_tree fall
 back to normal search

An iterator that is null, belongs to another instance, or lies past the
key must start the search from the first position, as documented and as
the other overload does.
---
 include/mdds/flat_segment_tree_def.inl | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/mdds/flat_segment_tree_def.inl b/include/mdds/flat_segment_tree_def.inl
index c3df0f3..8a46afe 100644
--- a/include/mdds/flat_segment_tree_def.inl
+++ b/include/mdds/flat_segment_tree_def.inl
@@ -599,7 +599,13 @@ template<typename Key, typename Value>
 typename flat_segment_tree<Key, Value>::const_iterator flat_segment_tree<Key, Value>::search(
     const_iterator pos, key_type key) const
 {
-    return search_by_key_impl(pos.get_pos(), key);
+    const node* p = pos.get_pos();
+    if (!p || this != pos.get_parent() || key < p->key)
+        // Specified position is not usable as the start position.  Fall back
+        // to normal search.
+        return search(std::move(key));
+
+    return search_by_key_impl(p, key);
 }
 
 template<typename Key, typename Value>
-- 
2.43.0


From e21e0c8c2f2662fa32857ad5e5416c32f6a96551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:06 +0000
Subject: [PATCH 03/38] fix: merge the blank segment appended by
 flat_segment_tree::shift_left

When the removed segment extends to the end of the tree, the last segment
takes the initial value and must be merged with a preceding segment that
already has it; two neighbouring segments had equal values otherwise.
---
 include/mdds/flat_segment_tree.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/mdds/flat_segment_tree.hpp b/include/mdds/flat_segment_tree.hpp
index 88c8910..9206f62 100644
--- a/include/mdds/flat_segment_tree.hpp
+++ b/include/mdds/flat_segment_tree.hpp
@@ -687,7 +687,15 @@ private:
     {
         if (m_right_leaf->prev->key == start_key)
         {
-            m_right_leaf->prev->value_leaf.value = m_init_val;
+            node_ptr last = m_right_leaf->prev;
+            last->value_leaf.value = m_init_val;
+            if (last->prev && last->prev->value_leaf.value == m_init_val)
+            {
+                // The preceding segment has the same value.  Merge the two.
+                st::detail::link_nodes<node_ptr>(last->prev, m_right_leaf);
+                disconnect_all_nodes(last.get());
+                m_valid_tree = false;
+            }
             return;
         }
 
-- 
2.43.0


From 23e2c80db7534269636b860a1e26bccd60ace5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:06 +0000
Subject: [PATCH 04/38] fix: make the swap function of flat_segment_tree usable

Its exception specification depended on itself, so that any call failed to
compile.
---
 include/mdds/flat_segment_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mdds/flat_segment_tree.hpp b/include/mdds/flat_segment_tree.hpp
index 9206f62..d6ba799 100644
--- a/include/mdds/flat_segment_tree.hpp
+++ b/include/mdds/flat_segment_tree.hpp
@@ -807,7 +807,7 @@ private:
 
 template<typename Key, typename Value>
 void swap(flat_segment_tree<Key, Value>& left, flat_segment_tree<Key, Value>& right) noexcept(
-    std::is_nothrow_swappable_v<flat_segment_tree<Key, Value>>)
+    noexcept(left.swap(right)))
 {
     left.swap(right);
 }
-- 
2.43.0


From be57f96b31c472226e1d6fa11bb346b4d356e299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:15 +0000
Subject: [PATCH 05/38] fix: count duplicate segments in segment_tree equality

Every segment of one side was looked up in the other without consuming the
match, so that {A,A,B} and {A,B,B} compared equal.
---
 include/mdds/segment_tree_def.inl | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/mdds/segment_tree_def.inl b/include/mdds/segment_tree_def.inl
index f3f24da..76534f9 100644
--- a/include/mdds/segment_tree_def.inl
+++ b/include/mdds/segment_tree_def.inl
@@ -294,23 +294,24 @@ bool segment_tree<KeyT, ValueT>::operator==(const segment_tree& r) const
         rhs.insert(&seg);
     }
 
-    std::size_t n_lhs = 0;
-
     for (const segment_type& seg : m_segment_store)
     {
         if (seg == segment_type{})
             continue;
 
-        ++n_lhs;
         const auto* src = &seg;
 
         auto it = std::find_if(rhs.begin(), rhs.end(), [src](const segment_type* p) { return *src == *p; });
 
         if (it == rhs.end())
             return false;
+
+        // each segment can match only one segment, else duplicate segments
+        // would not be counted correctly.
+        rhs.erase(it);
     }
 
-    return n_lhs == rhs.size();
+    return rhs.empty();
 }
 
 template<typename KeyT, typename ValueT>
-- 
2.43.0


From c1b574f2cf8d7f3980046e2e0692374ead62e4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:15 +0000
Subject: [PATCH 06/38] fix: leave a moved-from segment_tree without a tree

The defaulted move constructor left the source with a valid-tree flag and a
root pointer into the nodes now owned by the destination.
---
 include/mdds/segment_tree.hpp     |  2 +-
 include/mdds/segment_tree_def.inl | 10 ++++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/mdds/segment_tree.hpp b/include/mdds/segment_tree.hpp
index d768d6f..b0f6dd9 100644
--- a/include/mdds/segment_tree.hpp
+++ b/include/mdds/segment_tree.hpp
@@ -334,7 +334,7 @@ public:
 
     segment_tree() noexcept(nothrow_default_constructible_v);
     segment_tree(const segment_tree& r);
-    segment_tree(segment_tree&& r) = default;
+    segment_tree(segment_tree&& r) noexcept(nothrow_move_constructible_v);
     ~segment_tree();
 
     segment_tree& operator=(const segment_tree& r);
diff --git a/include/mdds/segment_tree_def.inl b/include/mdds/segment_tree_def.inl
index 76534f9..ad3153e 100644
--- a/include/mdds/segment_tree_def.inl
+++ b/include/mdds/segment_tree_def.inl
@@ -256,6 +256,16 @@ segment_tree<KeyT, ValueT>::segment_tree(const segment_tree& r)
         build_tree();
 }
 
+template<typename KeyT, typename ValueT>
+segment_tree<KeyT, ValueT>::segment_tree(segment_tree&& r) noexcept(nothrow_move_constructible_v)
+    : m_nonleaf_node_pool(std::move(r.m_nonleaf_node_pool)), m_segment_store(std::move(r.m_segment_store)),
+      m_tagged_nodes_map(std::move(r.m_tagged_nodes_map)), m_root_node(r.m_root_node),
+      m_left_leaf(std::move(r.m_left_leaf)), m_right_leaf(std::move(r.m_right_leaf)), m_valid_tree(r.m_valid_tree)
+{
+    r.m_root_node = nullptr;
+    r.m_valid_tree = false;
+}
+
 template<typename KeyT, typename ValueT>
 segment_tree<KeyT, ValueT>::~segment_tree()
 {
-- 
2.43.0


From 3feba7ad9a2d48e3d11cea2d02c64beae96a2ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:15 +0000
Subject: [PATCH 07/38] fix: include <algorithm> in point_quad_tree.hpp

---
 include/mdds/point_quad_tree.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/mdds/point_quad_tree.hpp b/include/mdds/point_quad_tree.hpp
index 83e8443..79cb7b4 100644
--- a/include/mdds/point_quad_tree.hpp
+++ b/include/mdds/point_quad_tree.hpp
@@ -7,6 +7,7 @@
 #include "mdds/quad_node.hpp"
 
 #include <cstdlib>
+#include <algorithm>
 #include <cassert>
 #include <iostream>
 #include <fstream>
-- 
2.43.0


From eb409c6eeead1aada99abdeb97d76665dd23efd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:56 +0000
Subject: [PATCH 08/38] fix: keep the tree connected when point_quad_tree
 removes a non-leaf node

---
 include/mdds/point_quad_tree.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/mdds/point_quad_tree.hpp b/include/mdds/point_quad_tree.hpp
index 79cb7b4..9e800a2 100644
--- a/include/mdds/point_quad_tree.hpp
+++ b/include/mdds/point_quad_tree.hpp
@@ -840,32 +840,36 @@ void point_quad_tree<Key, Value>::remove(key_type x, key_type y)
     delete_node->y = repl_node->y;
     delete_node->data = repl_node->data;
 
-    // Reset the parent node.
-    delete_node->parent = repl_node->parent;
+    // Take the replacement node out of its old position, and put the tree that
+    // hangs below it in its place.  The node being replaced keeps its own
+    // parent.
+    node_ptr repl_parent = repl_node->parent;
+    disconnect_node_from_parent(repl_node);
     repl_node->parent.reset();
 
+    node_ptr repl_child = repl_node->get_quadrant_node(repl_quad);
+    node_quadrant_t vacant_quad = repl_parent == delete_node ? repl_quad : opposite(repl_quad);
+
     switch (repl_quad)
     {
         case quad_northeast:
-            delete_node->northeast = repl_node->northeast;
             repl_node->northeast.reset();
             break;
         case quad_northwest:
-            delete_node->northwest = repl_node->northwest;
             repl_node->northwest.reset();
             break;
         case quad_southeast:
-            delete_node->southeast = repl_node->southeast;
             repl_node->southeast.reset();
             break;
         case quad_southwest:
-            delete_node->southwest = repl_node->southwest;
             repl_node->southwest.reset();
             break;
         default:
             throw general_error("quadrant for the replacement node is unspecified.");
     }
 
+    reinsert_tree(repl_parent, vacant_quad, repl_child);
+
     // Lastly, re-insert all those trees that have been cut during the quad
     // adjustment into the new root.
     typename reinsert_tree_array_type::iterator itr = insert_list.begin(), itr_end = insert_list.end();
-- 
2.43.0


From 8e775247cd9e2ddb6dcf457c95dd32dec9b225fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:56 +0000
Subject: [PATCH 09/38] fix: keep the content of a point_quad_tree assigned to
 itself

---
 include/mdds/point_quad_tree.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/mdds/point_quad_tree.hpp b/include/mdds/point_quad_tree.hpp
index 9e800a2..4b9dd57 100644
--- a/include/mdds/point_quad_tree.hpp
+++ b/include/mdds/point_quad_tree.hpp
@@ -914,6 +914,9 @@ typename point_quad_tree<Key, Value>::node_access point_quad_tree<Key, Value>::g
 template<typename Key, typename Value>
 point_quad_tree<Key, Value>& point_quad_tree<Key, Value>::operator=(const point_quad_tree& r)
 {
+    if (this == &r)
+        return *this;
+
     m_xrange = key_range_type(0, 0);
     m_yrange = key_range_type(0, 0);
     clear_all_nodes();
-- 
2.43.0


From 4214204800fdc3aa27620fe9219c2a2c703f080c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:56 +0000
Subject: [PATCH 10/38] fix: reinsert nodes that share a coordinate with the
 node replacing a removed one

---
 include/mdds/point_quad_tree.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/mdds/point_quad_tree.hpp b/include/mdds/point_quad_tree.hpp
index 4b9dd57..d07e6fd 100644
--- a/include/mdds/point_quad_tree.hpp
+++ b/include/mdds/point_quad_tree.hpp
@@ -870,6 +870,21 @@ void point_quad_tree<Key, Value>::remove(key_type x, key_type y)
 
     reinsert_tree(repl_parent, vacant_quad, repl_child);
 
+    // A node above the old position of the replacement node may share a
+    // coordinate with it, in which case it now belongs to another quadrant, and
+    // so do the nodes between the two.
+    node_ptr cur_node = delete_node->get_quadrant_node(repl_quad);
+    for (; cur_node; cur_node = cur_node->get_quadrant_node(opposite(repl_quad)))
+    {
+        if (delete_node->get_quadrant(cur_node->x, cur_node->y) == repl_quad)
+            continue;
+
+        disconnect_node_from_parent(cur_node);
+        cur_node->parent.reset();
+        insert_list.push_back(cur_node);
+        break;
+    }
+
     // Lastly, re-insert all those trees that have been cut during the quad
     // adjustment into the new root.
     typename reinsert_tree_array_type::iterator itr = insert_list.begin(), itr_end = insert_list.end();
-- 
2.43.0


From 6f8f3b361e17e29f25e99bbf3b0ad2a6fdc654ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:30 +0000
Subject: [PATCH 11/38] fix: reset parent pointers when rtree splits a root
 that was copied or moved

---
 include/mdds/rtree_def.inl | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/mdds/rtree_def.inl b/include/mdds/rtree_def.inl
index b642e63..0d6ccb5 100644
--- a/include/mdds/rtree_def.inl
+++ b/include/mdds/rtree_def.inl
@@ -2240,8 +2240,10 @@ void rtree<KeyT, ValueT, Traits>::split_node(node_store* ns)
         m_root.count = 2;
         m_root.pack();
 
+        // The original root may have had its pointers flagged as valid, but it
+        // has just been moved to a new location.
         for (node_store& ns_child : dir_root->children)
-            ns_child.reset_parent_pointers_of_children();
+            ns_child.reset_parent_pointers();
     }
     else
     {
-- 
2.43.0


From 8d5773e3474a659e207ddd9a896e48f24c99b135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:53 +0000
Subject: [PATCH 12/38] fix: shrink the extents of all ancestors when rtree
 dissolves a directory

---
 include/mdds/rtree_def.inl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/mdds/rtree_def.inl b/include/mdds/rtree_def.inl
index 0d6ccb5..2448676 100644
--- a/include/mdds/rtree_def.inl
+++ b/include/mdds/rtree_def.inl
@@ -1638,6 +1638,9 @@ void rtree<KeyT, ValueT, Traits>::erase_impl(const node_store* ns, size_t depth)
         dir_ns->pack();
     }
 
+    // The extents of the remaining ancestors may shrink too.
+    dir_ns->pack_upward();
+
     while (!orphan_dir_nodes.empty())
     {
         orphan_node_entry& entry = orphan_dir_nodes.back();
-- 
2.43.0


From 0ce340844027d9cb9e15b73d64b7f56e9be21425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:40 +0000
Subject: [PATCH 13/38] fix: collapse every single-child root when rtree erases
 a value

---
 include/mdds/rtree_def.inl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/mdds/rtree_def.inl b/include/mdds/rtree_def.inl
index 2448676..1cadf7c 100644
--- a/include/mdds/rtree_def.inl
+++ b/include/mdds/rtree_def.inl
@@ -1654,9 +1654,10 @@ void rtree<KeyT, ValueT, Traits>::erase_impl(const node_store* ns, size_t depth)
         orphan_value_nodes.pop_back();
     }
 
-    if (m_root.count == 1)
+    while (m_root.type == node_type::directory_nonleaf && m_root.count == 1)
     {
         // If the root node only has one child, make that child the new root.
+        // The new root may in turn have only one child.
         // Be careful not to leak memory here...
 
         dir = static_cast<directory_node*>(m_root.node_ptr);
-- 
2.43.0


From c6d522cdf6f27940184421db695d8575b163a3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:30 +0000
Subject: [PATCH 14/38] fix: reset parent pointers when rtree removes an
 emptied directory from its parent

---
 include/mdds/rtree_def.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mdds/rtree_def.inl b/include/mdds/rtree_def.inl
index 1cadf7c..56a5434 100644
--- a/include/mdds/rtree_def.inl
+++ b/include/mdds/rtree_def.inl
@@ -1634,7 +1634,7 @@ void rtree<KeyT, ValueT, Traits>::erase_impl(const node_store* ns, size_t depth)
         --depth;
         erased = dir_ns->erase_child(dir_ns_child);
         assert(erased);
-        dir_ns->reset_parent_pointers_of_children();
+        dir_ns->reset_parent_pointers();
         dir_ns->pack();
     }
 
-- 
2.43.0


From 7859acaf9cc5d9b84ea9b8d01dda3fcf52aceaf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:30 +0000
Subject: [PATCH 15/38] fix: split an rtree directory overfilled by a
 reinserted directory

---
 include/mdds/rtree_def.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mdds/rtree_def.inl b/include/mdds/rtree_def.inl
index 56a5434..3087f1a 100644
--- a/include/mdds/rtree_def.inl
+++ b/include/mdds/rtree_def.inl
@@ -683,7 +683,7 @@ bool rtree<KeyT, ValueT, Traits>::node_store::is_root() const
 template<typename KeyT, typename ValueT, typename Traits>
 bool rtree<KeyT, ValueT, Traits>::node_store::exceeds_capacity() const
 {
-    if (type != node_type::directory_leaf)
+    if (!is_directory())
         return false;
 
     return count > traits_type::max_node_size;
-- 
2.43.0


From 0be35e4495e77d26da6dd473673da84cf739608d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:55 +0000
Subject: [PATCH 16/38] fix: reinsert orphaned rtree directories at the level
 they came from

---
 include/mdds/rtree.hpp     |  3 +++
 include/mdds/rtree_def.inl | 17 ++++++++++++++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/include/mdds/rtree.hpp b/include/mdds/rtree.hpp
index 6781425..f4269a0 100644
--- a/include/mdds/rtree.hpp
+++ b/include/mdds/rtree.hpp
@@ -779,6 +779,9 @@ private:
     insertion_point find_leaf_directory_node_for_insertion(const extent_type& bb);
     node_store* find_nonleaf_directory_node_for_insertion(const extent_type& bb, size_t max_depth);
 
+    /** Get the depth of the leaf directories.  All of them are at the same depth. */
+    size_t get_leaf_directory_depth() const;
+
     template<typename FuncT>
     void descend_with_func(FuncT func) const;
 
diff --git a/include/mdds/rtree_def.inl b/include/mdds/rtree_def.inl
index 3087f1a..fcd7d4f 100644
--- a/include/mdds/rtree_def.inl
+++ b/include/mdds/rtree_def.inl
@@ -1613,6 +1613,7 @@ void rtree<KeyT, ValueT, Traits>::erase_impl(const node_store* ns, size_t depth)
     dir_ns->pack();
 
     orphan_node_entries_type orphan_dir_nodes;
+    const size_t leaf_depth = depth + 1; // depth of the leaf directories.
 
     while (!dir_ns->is_root() && dir_ns->count < traits_type::min_node_size)
     {
@@ -1644,7 +1645,11 @@ void rtree<KeyT, ValueT, Traits>::erase_impl(const node_store* ns, size_t depth)
     while (!orphan_dir_nodes.empty())
     {
         orphan_node_entry& entry = orphan_dir_nodes.back();
-        insert_dir(std::move(entry.ns), entry.depth);
+
+        // The node must go back under a parent one level above it.  Adjust the
+        // depth of the parent in case the tree has grown since.
+        size_t parent_depth = entry.depth - 1 + get_leaf_directory_depth() - leaf_depth;
+        insert_dir(std::move(entry.ns), parent_depth);
         orphan_dir_nodes.pop_back();
     }
 
@@ -2495,6 +2500,16 @@ typename rtree<KeyT, ValueT, Traits>::node_store* rtree<
     throw std::runtime_error("Maximum tree depth has been reached.");
 }
 
+template<typename KeyT, typename ValueT, typename Traits>
+size_t rtree<KeyT, ValueT, Traits>::get_leaf_directory_depth() const
+{
+    size_t depth = 0;
+    for (const node_store* ns = &m_root; ns->type == node_type::directory_nonleaf; ++depth)
+        ns = &ns->get_directory_node()->children.front();
+
+    return depth;
+}
+
 template<typename KeyT, typename ValueT, typename Traits>
 template<typename FuncT>
 void rtree<KeyT, ValueT, Traits>::descend_with_func(FuncT func) const
-- 
2.43.0


From 1c6e7d86f7a8143a2b72631763534e2ea876f639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:47 +0000
Subject: [PATCH 17/38] fix: don't find or erase an ancestor of a missing key
 in trie_map

---
 include/mdds/trie_map_def.inl | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/mdds/trie_map_def.inl b/include/mdds/trie_map_def.inl
index 7d8c93a..4a6f790 100644
--- a/include/mdds/trie_map_def.inl
+++ b/include/mdds/trie_map_def.inl
@@ -868,7 +868,11 @@ void trie_map<KeyT, ValueT, TraitsT>::find_prefix_node_with_stack(
 
     auto it = node.children.find(*prefix);
     if (it == node.children.end())
+    {
+        // Not found.  Don't leave a partial path to an ancestor node.
+        node_stack.clear();
         return;
+    }
 
     node_stack.emplace_back(&node, it);
 
-- 
2.43.0


From c7f6dff66a6fd52bbc1d67c6e36c4dc42df6dc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:17 +0000
Subject: [PATCH 18/38] fix: start the iteration of trie maps at the empty key

---
 include/mdds/trie_map_def.inl | 38 ++++-------------------------------
 1 file changed, 4 insertions(+), 34 deletions(-)

diff --git a/include/mdds/trie_map_def.inl b/include/mdds/trie_map_def.inl
index 4a6f790..da73cd4 100644
--- a/include/mdds/trie_map_def.inl
+++ b/include/mdds/trie_map_def.inl
@@ -666,7 +666,7 @@ trie_map<KeyT, ValueT, TraitsT>::trie_map(trie_map&& other) : m_root(std::move(o
 template<typename KeyT, typename ValueT, typename TraitsT>
 typename trie_map<KeyT, ValueT, TraitsT>::const_iterator trie_map<KeyT, ValueT, TraitsT>::begin() const
 {
-    if (m_root.children.empty())
+    if (empty())
         // empty container
         return end();
 
@@ -675,10 +675,6 @@ typename trie_map<KeyT, ValueT, TraitsT>::const_iterator trie_map<KeyT, ValueT,
     const_node_stack_type node_stack;
     node_stack.emplace_back(&m_root, m_root.children.begin());
 
-    // Push root's first child node.
-    auto it = node_stack.back().child_pos;
-    const_iterator::push_child_node_to_stack(node_stack, buf, it);
-
     // In theory there should always be at least one value node along the
     // left-most branch.
 
@@ -694,7 +690,7 @@ typename trie_map<KeyT, ValueT, TraitsT>::const_iterator trie_map<KeyT, ValueT,
 template<typename KeyT, typename ValueT, typename TraitsT>
 typename trie_map<KeyT, ValueT, TraitsT>::iterator trie_map<KeyT, ValueT, TraitsT>::begin()
 {
-    if (m_root.children.empty())
+    if (empty())
         // empty container
         return end();
 
@@ -703,10 +699,6 @@ typename trie_map<KeyT, ValueT, TraitsT>::iterator trie_map<KeyT, ValueT, Traits
     node_stack_type node_stack;
     node_stack.emplace_back(&m_root, m_root.children.begin());
 
-    // Push root's first child node.
-    auto it = node_stack.back().child_pos;
-    iterator::push_child_node_to_stack(node_stack, buf, it);
-
     // In theory there should always be at least one value node along the
     // left-most branch.
 
@@ -1446,34 +1438,12 @@ typename packed_trie_map<KeyT, ValueT, TraitsT>::const_iterator packed_trie_map<
     node_stack_type node_stack = get_root_stack();
 
     const stack_item* si = &node_stack.back();
-    if (si->child_pos == si->child_end)
+    if (m_value_store.empty())
         // empty container.
         return const_iterator(&m_value_store, std::move(node_stack), key_type());
 
-    const auto* node_pos = si->node_pos;
-    const auto* child_pos = si->child_pos;
-    const auto* child_end = si->child_end;
-    const auto* p = child_pos;
-
-    // Follow the root node's left-most child.
     key_type buf;
-    key_unit_type c = *p;
-    buf.push_back(c);
-    ++p;
-    size_type offset = *p;
-
-    node_pos -= offset; // jump to the child node.
-    p = node_pos;
-    ++p;
-    size_type index_size = *p;
-    ++p;
-    child_pos = p;
-    child_end = child_pos + index_size;
-
-    // Push this child node onto the stack.
-    node_stack.emplace_back(&m_value_store, node_pos, child_pos, child_end);
-
-    pack_value_type pos = *node_pos;
+    pack_value_type pos = *si->node_pos;
     while (pos == null_value)
     {
         // Keep following the left child node until we reach a node with value.
-- 
2.43.0


From fb3434df14d4971e8aa8fade4bd3bc30ca105c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:17 +0000
Subject: [PATCH 19/38] fix: visit every key when iterating trie maps backwards

---
 include/mdds/trie_map_itr.hpp | 78 +++++++----------------------------
 1 file changed, 15 insertions(+), 63 deletions(-)

diff --git a/include/mdds/trie_map_itr.hpp b/include/mdds/trie_map_itr.hpp
index b87bc4f..7d3e2d5 100644
--- a/include/mdds/trie_map_itr.hpp
+++ b/include/mdds/trie_map_itr.hpp
@@ -227,8 +227,9 @@ public:
     {
         trie_node_type* cur_node = m_node_stack.back().node;
 
-        if (m_type == iterator_type::end && cur_node->has_value)
+        if (m_type == iterator_type::end && cur_node->children.empty())
         {
+            // The root node is the only node.
             assert(m_node_stack.size() == 1);
             m_type = iterator_type::normal;
         }
@@ -241,11 +242,12 @@ public:
             cur_node = descend_to_previus_leaf_node(m_node_stack, m_buffer);
             m_type = iterator_type::normal;
         }
-        else if (cur_node->children.empty())
+        else
         {
-            // This is a leaf node.  Keep going up until it finds a parent
-            // node with unvisited child nodes on the left side, then descend
-            // on that path all the way to its leaf.
+            // Keep going up until either a node with value is reached, or a
+            // parent node with unvisited child nodes on the left side is
+            // found.  In the latter case descend on that path all the way to
+            // its leaf.
 
             do
             {
@@ -264,30 +266,6 @@ public:
                 }
             } while (!cur_node->has_value);
         }
-        else
-        {
-            // Non-leaf node with value.  Keep going up until either the root
-            // node or another node with value is reached.
-
-            assert(cur_node->has_value);
-            assert(m_node_stack.back().child_pos == cur_node->children.begin());
-
-            do
-            {
-                // Go up.
-                m_buffer.pop_back();
-                m_node_stack.pop_back();
-                auto& si = m_node_stack.back();
-                cur_node = si.node;
-
-                if (m_node_stack.size() == 1)
-                {
-                    // Root node reached.  Left and down.
-                    cur_node = descend_to_previus_leaf_node(m_node_stack, m_buffer);
-                    assert(cur_node->has_value);
-                }
-            } while (!cur_node->has_value);
-        }
 
         assert(cur_node->has_value);
         m_current_key = m_buffer;
@@ -648,8 +626,9 @@ public:
         pack_value_type v = *si->node_pos;
         size_t index_size = *(si->node_pos + 1); // index size for child nodes.
 
-        if (m_type == iterator_type::end && v != trie_type::null_value)
+        if (m_type == iterator_type::end && !index_size)
         {
+            // The root node is the only node.
             assert(m_node_stack.size() == 1);
             m_type = iterator_type::normal;
         }
@@ -663,11 +642,12 @@ public:
             v = *si->node_pos;
             m_type = iterator_type::normal;
         }
-        else if (!index_size)
+        else
         {
-            // This is a leaf node.  Keep going up until it finds a parent
-            // node with unvisited child nodes on the left side, then descend
-            // on that path all the way to its leaf.
+            // Keep going up until either a node with value is reached, or a
+            // parent node with unvisited child nodes on the left side is
+            // found.  In the latter case descend on that path all the way to
+            // its leaf.
 
             do
             {
@@ -678,9 +658,7 @@ public:
                 si = &m_node_stack.back();
                 const auto* p = si->node_pos;
                 v = *p;
-                ++p;
-                index_size = *p;
-                ++p;
+                p += 2;
                 const auto* first_child = p;
 
                 if (si->child_pos != first_child)
@@ -694,32 +672,6 @@ public:
                 }
             } while (v == trie_type::null_value);
         }
-        else
-        {
-            // Non-leaf node with value.  Keep going up until either the root
-            // node or another node with value is reached.
-
-            assert(*si->node_pos); // this node should have a value.
-            assert(si->child_pos == (si->node_pos + 2));
-
-            do
-            {
-                // Go up.
-                m_buffer.pop_back();
-                m_node_stack.pop_back();
-                si = &m_node_stack.back();
-                v = *si->node_pos;
-
-                if (m_node_stack.size() == 1)
-                {
-                    // Root node reached.
-                    descend_to_previous_leaf_node(m_node_stack, m_buffer);
-                    si = &m_node_stack.back();
-                    v = *si->node_pos;
-                    assert(v != trie_type::null_value);
-                }
-            } while (v == trie_type::null_value);
-        }
 
         assert(v != trie_type::null_value);
         m_current_value = v;
-- 
2.43.0


From d714ed5f81d58e24eceb29722e5eea88b668510c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:17 +0000
Subject: [PATCH 20/38] fix: prefix search of an empty trie_map gives empty
 results

---
 include/mdds/trie_map_def.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mdds/trie_map_def.inl b/include/mdds/trie_map_def.inl
index da73cd4..159327e 100644
--- a/include/mdds/trie_map_def.inl
+++ b/include/mdds/trie_map_def.inl
@@ -982,7 +982,7 @@ typename trie_map<KeyT, ValueT, TraitsT>::search_results trie_map<KeyT, ValueT,
 {
     const key_unit_type* p = prefix.data();
     const key_unit_type* p_end = p + prefix.size();
-    const trie_node* node = find_prefix_node(m_root, p, p_end);
+    const trie_node* node = empty() ? nullptr : find_prefix_node(m_root, p, p_end);
     return search_results(node, key_type(prefix.data(), prefix.size()));
 }
 
-- 
2.43.0


From e6023e3e1a7c215fe32bfb53708161e950504e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:17 +0000
Subject: [PATCH 21/38] fix: give the root node of an empty packed_trie_map no
 value

---
 include/mdds/trie_map_def.inl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/mdds/trie_map_def.inl b/include/mdds/trie_map_def.inl
index 159327e..ef5b3af 100644
--- a/include/mdds/trie_map_def.inl
+++ b/include/mdds/trie_map_def.inl
@@ -1295,6 +1295,7 @@ packed_trie_map<KeyT, ValueT, TraitsT>::packed_trie_map() : m_packed(3, 0u)
 
     // root offset (0), root value (1), and root child count (2).
     m_packed[0] = 1;
+    m_packed[1] = null_value;
 }
 
 template<typename KeyT, typename ValueT, typename TraitsT>
@@ -1391,6 +1392,7 @@ packed_trie_map<KeyT, ValueT, TraitsT>::packed_trie_map(packed_trie_map&& other)
     // Even the empty structure needs to have the root offset and the empty root record.
     other.m_packed.resize(3, 0u); // root offset (0), root value (1), and root child count (2).
     other.m_packed[0] = 1;
+    other.m_packed[1] = null_value;
 }
 
 template<typename KeyT, typename ValueT, typename TraitsT>
-- 
2.43.0


From 6cd0c06ddd88e810cc654cf6fad21e59aad2b26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:17 +0000
Subject: [PATCH 22/38] fix: copy the value store of packed trie search results

---
 include/mdds/trie_map_itr.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/mdds/trie_map_itr.hpp b/include/mdds/trie_map_itr.hpp
index 7d3e2d5..3657b25 100644
--- a/include/mdds/trie_map_itr.hpp
+++ b/include/mdds/trie_map_itr.hpp
@@ -726,6 +726,7 @@ class packed_search_results
 
     void swap(packed_search_results& other)
     {
+        std::swap(m_value_store, other.m_value_store);
         std::swap(m_node, other.m_node);
         std::swap(m_buffer, other.m_buffer);
     }
@@ -736,10 +737,12 @@ public:
     packed_search_results() : m_node(nullptr)
     {}
 
-    packed_search_results(const packed_search_results& other) : m_node(other.m_node), m_buffer(other.m_buffer)
+    packed_search_results(const packed_search_results& other)
+        : m_value_store(other.m_value_store), m_node(other.m_node), m_buffer(other.m_buffer)
     {}
 
-    packed_search_results(packed_search_results&& other) : m_node(other.m_node), m_buffer(std::move(other.m_buffer))
+    packed_search_results(packed_search_results&& other)
+        : m_value_store(other.m_value_store), m_node(other.m_node), m_buffer(std::move(other.m_buffer))
     {
         other.m_node = nullptr;
     }
-- 
2.43.0


From ed6fdf5188d081ba5611bcdfb38d5516cfb775e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:17 +0000
Subject: [PATCH 23/38] fix: build packed_trie_map from keys that contain zero
 units

---
 include/mdds/trie_map_def.inl | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/mdds/trie_map_def.inl b/include/mdds/trie_map_def.inl
index ef5b3af..2e8f903 100644
--- a/include/mdds/trie_map_def.inl
+++ b/include/mdds/trie_map_def.inl
@@ -1038,7 +1038,7 @@ void packed_trie_map<KeyT, ValueT, TraitsT>::traverse_range(
         ++range_count;
         key_unit_type c = p->key[pos];
 
-        if (!range_char)
+        if (range_count == 1)
             range_char = c;
         else if (range_char != c)
         {
@@ -1057,7 +1057,6 @@ void packed_trie_map<KeyT, ValueT, TraitsT>::traverse_range(
 
     if (range_count)
     {
-        assert(range_char);
         node_pool.emplace_back(range_char);
         root.children.push_back(&node_pool.back());
         traverse_range(*root.children.back(), node_pool, range_start, end, pos + 1);
-- 
2.43.0


From 42778d68f0f2b11ac509a2e899a8ffeb5873c784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 24/38] fix: order the keys of trie maps as their string type
 does

---
 include/mdds/trie_map.hpp     | 24 +++++++++++++++++++++++-
 include/mdds/trie_map_def.inl |  2 +-
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/include/mdds/trie_map.hpp b/include/mdds/trie_map.hpp
index 0c6abb6..2514599 100644
--- a/include/mdds/trie_map.hpp
+++ b/include/mdds/trie_map.hpp
@@ -60,6 +60,28 @@ struct key_view<T>
 template<typename T>
 using key_view_t = typename key_view<T>::type;
 
+/**
+ * Orders key units in the same way the standard string types do, i.e. values
+ * of type char are compared as unsigned values.
+ */
+template<typename T>
+struct key_unit_less
+{
+    constexpr bool operator()(const T& left, const T& right) const
+    {
+        return left < right;
+    }
+};
+
+template<character_unit T>
+struct key_unit_less<T>
+{
+    constexpr bool operator()(T left, T right) const
+    {
+        return std::char_traits<T>::lt(left, right);
+    }
+};
+
 } // namespace detail
 
 /** Serializer for numeric data types. */
@@ -194,7 +216,7 @@ public:
 private:
     struct trie_node
     {
-        typedef std::map<key_unit_type, trie_node> children_type;
+        typedef std::map<key_unit_type, trie_node, trie::detail::key_unit_less<key_unit_type>> children_type;
 
         children_type children;
         value_type value;
diff --git a/include/mdds/trie_map_def.inl b/include/mdds/trie_map_def.inl
index 2e8f903..603d8fe 100644
--- a/include/mdds/trie_map_def.inl
+++ b/include/mdds/trie_map_def.inl
@@ -249,7 +249,7 @@ const PackValueT* find_child_pos(const PackValueT* first_child, SizeT n_child_no
                 high = low;
             }
         }
-        else if (c < node_key)
+        else if (key_unit_less<key_unit_type>{}(c, node_key))
             // Move on to the lower sub-group.
             high = i;
         else
-- 
2.43.0


From 025ea839a86db8fa190b00cf9e76e7e3894c9ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:43 +0000
Subject: [PATCH 25/38] fix: reject a truncated packed_trie_map state and leave
 the map unchanged

---
 include/mdds/trie_map_def.inl | 60 +++++++++++++++++++----------------
 1 file changed, 32 insertions(+), 28 deletions(-)

diff --git a/include/mdds/trie_map_def.inl b/include/mdds/trie_map_def.inl
index 603d8fe..d79d312 100644
--- a/include/mdds/trie_map_def.inl
+++ b/include/mdds/trie_map_def.inl
@@ -327,6 +327,25 @@ union bin_value
 
 using value_addrs_type = std::map<const void*, size_t>;
 
+/**
+ * Read an exact number of bytes from a stream.
+ *
+ * @throws std::invalid_argument when the stream ends prematurely.
+ */
+inline void read_bytes(std::istream& is, char* p, size_t n)
+{
+    while (n)
+    {
+        is.read(p, n);
+        size_t size_read = is.gcount();
+        if (!size_read)
+            throw std::invalid_argument("the stream has ended prematurely.");
+
+        n -= size_read;
+        p += size_read;
+    }
+}
+
 template<typename FuncT, typename ValueT>
 struct write_variable_size_values_to_ostream
 {
@@ -413,7 +432,7 @@ struct read_fixed_size_values_from_istream
         bin_value bv;
 
         // read the size of the value.
-        is.read(bv.buffer, 4);
+        read_bytes(is, bv.buffer, 4);
         size_t size = bv.ui32;
 
         if (size != FuncT::value_size)
@@ -445,7 +464,7 @@ struct read_variable_size_values_from_istream
 
         for (uint32_t i = 0; i < value_count; ++i)
         {
-            is.read(bv.buffer, 4);
+            read_bytes(is, bv.buffer, 4);
             size_t size = bv.ui32;
 
             ValueT v;
@@ -500,15 +519,7 @@ void numeric_value_serializer<T>::read(std::istream& is, size_t n, T& v)
 
     } buf;
 
-    char* p = buf.buffer;
-
-    while (n)
-    {
-        is.read(p, s);
-        auto size_read = is.gcount();
-        n -= size_read;
-        p += size_read;
-    }
+    detail::read_bytes(is, buf.buffer, n);
 
     v = buf.v;
 }
@@ -553,15 +564,7 @@ template<>
 inline void variable_value_serializer<std::string>::read(std::istream& is, size_t n, std::string& v)
 {
     v.resize(n);
-    char* p = const_cast<char*>(v.data());
-
-    while (n)
-    {
-        is.read(p, n);
-        auto size_read = is.gcount();
-        n -= size_read;
-        p += size_read;
-    }
+    detail::read_bytes(is, v.data(), n);
 }
 
 } // namespace trie
@@ -1678,7 +1681,7 @@ template<typename FuncT>
 void packed_trie_map<KeyT, ValueT, TraitsT>::load_state(std::istream& is)
 {
     trie::detail::bin_value bv;
-    is.read(bv.buffer, 2);
+    trie::detail::read_bytes(is, bv.buffer, 2);
 
     uint16_t flags = bv.ui16;
     bool variable_size = (flags & 0x0001) != 0;
@@ -1692,27 +1695,27 @@ void packed_trie_map<KeyT, ValueT, TraitsT>::load_state(std::istream& is)
     }
 
     // read the number of values
-    is.read(bv.buffer, 4);
+    trie::detail::read_bytes(is, bv.buffer, 4);
     uint32_t value_count = bv.ui32;
 
     using value_size_type = std::bool_constant<FuncT::variable_size>;
     trie::detail::read_values_from_istream<FuncT, value_type, value_size_type> func;
-    m_value_store = func(is, value_count);
+    value_store_type value_store = func(is, value_count);
 
     // There should be a check byte of 0xFF.
-    is.read(bv.buffer, 1);
+    trie::detail::read_bytes(is, bv.buffer, 1);
     if (bv.ui8 != 0xFF)
         throw std::invalid_argument("failed to find the check byte at the end of the value section.");
 
     // Size of pack_value_type
-    is.read(bv.buffer, 1);
+    trie::detail::read_bytes(is, bv.buffer, 1);
     size_type pvt_size = bv.ui8;
 
     if (pvt_size != sizeof(pack_value_type))
         throw std::invalid_argument("size of pack_value_type is different.");
 
     // Size of the packed blob.
-    is.read(bv.buffer, 8);
+    trie::detail::read_bytes(is, bv.buffer, 8);
 
     size_t n = bv.ui64;
     packed_type packed;
@@ -1720,16 +1723,17 @@ void packed_trie_map<KeyT, ValueT, TraitsT>::load_state(std::istream& is)
 
     for (size_t i = 0; i < n; ++i)
     {
-        is.read(bv.buffer, pvt_size);
+        trie::detail::read_bytes(is, bv.buffer, pvt_size);
         const auto* p = reinterpret_cast<const pack_value_type*>(bv.buffer);
         packed.push_back(*p);
     }
 
     // the last byte must be 0xFF.
-    is.read(bv.buffer, 1);
+    trie::detail::read_bytes(is, bv.buffer, 1);
     if (bv.ui8 != 0xFF)
         throw std::invalid_argument("failed to find the check byte at the end of the packed blob section.");
 
+    m_value_store.swap(value_store);
     m_packed.swap(packed);
 
     struct _handler
-- 
2.43.0


From 93c5631dc5f2502c5d753b360f80ea8537b07c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:31 +0000
Subject: [PATCH 26/38] fix: multi_type_vector::set of a range merges with the
 block that follows

---
 include/mdds/multi_type_vector/aos/main_def.inl | 3 +++
 include/mdds/multi_type_vector/soa/main_def.inl | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/mdds/multi_type_vector/aos/main_def.inl b/include/mdds/multi_type_vector/aos/main_def.inl
index e3744c5..32065c2 100644
--- a/include/mdds/multi_type_vector/aos/main_def.inl
+++ b/include/mdds/multi_type_vector/aos/main_def.inl
@@ -4106,6 +4106,9 @@ typename multi_type_vector<Traits>::iterator multi_type_vector<Traits>::set_cell
         delete_element_blocks(it_erase_begin, it_erase_end);
         m_blocks.erase(it_erase_begin, it_erase_end);
 
+        // The block that follows may be of the same type.
+        merge_with_next_block(block_index1);
+
         return get_iterator(block_index1);
     }
 
diff --git a/include/mdds/multi_type_vector/soa/main_def.inl b/include/mdds/multi_type_vector/soa/main_def.inl
index e10fd73..138eddc 100644
--- a/include/mdds/multi_type_vector/soa/main_def.inl
+++ b/include/mdds/multi_type_vector/soa/main_def.inl
@@ -3268,6 +3268,9 @@ typename multi_type_vector<Traits>::iterator multi_type_vector<Traits>::set_cell
         delete_element_blocks(index_erase_begin, index_erase_end);
         m_block_store.erase(index_erase_begin, index_erase_end - index_erase_begin);
 
+        // The block that follows may be of the same type.
+        merge_with_next_block(block_index1);
+
         return get_iterator(block_index1);
     }
 
-- 
2.43.0


From 3f33f5225f1e875149a1168caeebbf3dae8ac22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:02 +0000
Subject: [PATCH 27/38] fix: multi_type_vector::resize overwrites the right
 elements of a shrunk managed block

---
 include/mdds/multi_type_vector/aos/main_def.inl | 2 +-
 include/mdds/multi_type_vector/soa/main_def.inl | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mdds/multi_type_vector/aos/main_def.inl b/include/mdds/multi_type_vector/aos/main_def.inl
index 32065c2..c35e95e 100644
--- a/include/mdds/multi_type_vector/aos/main_def.inl
+++ b/include/mdds/multi_type_vector/aos/main_def.inl
@@ -4363,7 +4363,7 @@ void multi_type_vector<Traits>::resize_impl(size_type new_size)
         size_type new_block_size = new_end_row - start_row_in_block + 1;
         if (blk->data)
         {
-            block_funcs::overwrite_values(*blk->data, new_end_row + 1, end_row_in_block - new_end_row);
+            block_funcs::overwrite_values(*blk->data, new_block_size, end_row_in_block - new_end_row);
             block_funcs::resize_block(*blk->data, new_block_size);
         }
         blk->size = new_block_size;
diff --git a/include/mdds/multi_type_vector/soa/main_def.inl b/include/mdds/multi_type_vector/soa/main_def.inl
index 138eddc..62b158d 100644
--- a/include/mdds/multi_type_vector/soa/main_def.inl
+++ b/include/mdds/multi_type_vector/soa/main_def.inl
@@ -5128,7 +5128,7 @@ void multi_type_vector<Traits>::resize_impl(size_type new_size)
         size_type new_block_size = new_end_row - start_row_in_block + 1;
         if (data)
         {
-            block_funcs::overwrite_values(*data, new_end_row + 1, end_row_in_block - new_end_row);
+            block_funcs::overwrite_values(*data, new_block_size, end_row_in_block - new_end_row);
             block_funcs::resize_block(*data, new_block_size);
         }
         m_block_store.sizes[block_index] = new_block_size;
-- 
2.43.0


From 5d85caa3766a9f3e373b11c7fcef5ffd2e569641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:02 +0000
Subject: [PATCH 28/38] fix: multi_type_vector::set of a range frees the
 overwritten elements of the last managed block

---
 include/mdds/multi_type_vector/aos/main_def.inl | 1 +
 include/mdds/multi_type_vector/soa/main_def.inl | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/mdds/multi_type_vector/aos/main_def.inl b/include/mdds/multi_type_vector/aos/main_def.inl
index c35e95e..1854c51 100644
--- a/include/mdds/multi_type_vector/aos/main_def.inl
+++ b/include/mdds/multi_type_vector/aos/main_def.inl
@@ -4090,6 +4090,7 @@ typename multi_type_vector<Traits>::iterator multi_type_vector<Traits>::set_cell
             {
                 // Erase the upper part of block 2.
                 size_type size_to_erase = end_row - start_row_in_block2 + 1;
+                block_funcs::overwrite_values(*blk2->data, 0, size_to_erase);
                 block_funcs::erase(*blk2->data, 0, size_to_erase);
                 blk2->size -= size_to_erase;
                 blk2->position += size_to_erase;
diff --git a/include/mdds/multi_type_vector/soa/main_def.inl b/include/mdds/multi_type_vector/soa/main_def.inl
index 62b158d..312df22 100644
--- a/include/mdds/multi_type_vector/soa/main_def.inl
+++ b/include/mdds/multi_type_vector/soa/main_def.inl
@@ -3252,6 +3252,7 @@ typename multi_type_vector<Traits>::iterator multi_type_vector<Traits>::set_cell
             {
                 // Erase the upper part of block 2.
                 size_type size_to_erase = end_row - start_row_in_block2 + 1;
+                block_funcs::overwrite_values(*blk2_data, 0, size_to_erase);
                 block_funcs::erase(*blk2_data, 0, size_to_erase);
                 m_block_store.sizes[block_index2] -= size_to_erase;
                 m_block_store.positions[block_index2] += size_to_erase;
-- 
2.43.0


From f700b4a9db4a9b1976ca5daff50980e1936260e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:49 +0000
Subject: [PATCH 29/38] fix: multi_type_vector methods taking a position hint
 refuse any position on an empty container

---
 include/mdds/multi_type_vector/aos/main_def.inl | 3 +++
 include/mdds/multi_type_vector/soa/main_def.inl | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/mdds/multi_type_vector/aos/main_def.inl b/include/mdds/multi_type_vector/aos/main_def.inl
index 1854c51..f52edaf 100644
--- a/include/mdds/multi_type_vector/aos/main_def.inl
+++ b/include/mdds/multi_type_vector/aos/main_def.inl
@@ -919,6 +919,9 @@ template<typename Traits>
 typename multi_type_vector<Traits>::size_type multi_type_vector<Traits>::get_block_position(
     const typename value_type::private_data& pos_data, size_type row) const
 {
+    if (row >= m_cur_size)
+        return m_blocks.size();
+
     size_type block_index = 0;
     if (pos_data.parent == this && pos_data.block_index < m_blocks.size())
         block_index = pos_data.block_index;
diff --git a/include/mdds/multi_type_vector/soa/main_def.inl b/include/mdds/multi_type_vector/soa/main_def.inl
index 312df22..19bbba9 100644
--- a/include/mdds/multi_type_vector/soa/main_def.inl
+++ b/include/mdds/multi_type_vector/soa/main_def.inl
@@ -4235,6 +4235,9 @@ template<typename Traits>
 typename multi_type_vector<Traits>::size_type multi_type_vector<Traits>::get_block_position(
     const typename value_type::private_data& pos_data, size_type row) const
 {
+    if (row >= m_cur_size)
+        return m_block_store.positions.size();
+
     size_type block_index = 0;
     if (pos_data.parent == this && pos_data.block_index < m_block_store.positions.size())
         block_index = pos_data.block_index;
-- 
2.43.0


From 363ce8fdee44c240387fa3e1bc4433b133d5dbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:30 +0000
Subject: [PATCH 30/38] fix: a moved-from multi_type_vector is empty and usable

---
 include/mdds/multi_type_vector/aos/main.hpp     | 2 ++
 include/mdds/multi_type_vector/aos/main_def.inl | 2 +-
 include/mdds/multi_type_vector/soa/main.hpp     | 2 ++
 include/mdds/multi_type_vector/soa/main_def.inl | 2 +-
 4 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/mdds/multi_type_vector/aos/main.hpp b/include/mdds/multi_type_vector/aos/main.hpp
index f2a7468..991faf6 100644
--- a/include/mdds/multi_type_vector/aos/main.hpp
+++ b/include/mdds/multi_type_vector/aos/main.hpp
@@ -12,6 +12,8 @@
 #include "./iterator.hpp"
 #include "./block_util.hpp"
 
+#include <utility>
+
 #ifdef MDDS_MULTI_TYPE_VECTOR_DEBUG
 #include <iostream>
 #endif
diff --git a/include/mdds/multi_type_vector/aos/main_def.inl b/include/mdds/multi_type_vector/aos/main_def.inl
index f52edaf..d18e578 100644
--- a/include/mdds/multi_type_vector/aos/main_def.inl
+++ b/include/mdds/multi_type_vector/aos/main_def.inl
@@ -326,7 +326,7 @@ multi_type_vector<Traits>::multi_type_vector(const multi_type_vector& other)
 template<typename Traits>
 multi_type_vector<Traits>::multi_type_vector(multi_type_vector&& other) noexcept(nothrow_move_constructible_v)
     : m_hdl_event(std::move(other.m_hdl_event)), m_blocks(std::move(other.m_blocks)),
-      m_cur_size(std::move(other.m_cur_size))
+      m_cur_size(std::exchange(other.m_cur_size, 0))
 {
 #ifdef MDDS_MULTI_TYPE_VECTOR_DEBUG
     debug_check_full("move construction");
diff --git a/include/mdds/multi_type_vector/soa/main.hpp b/include/mdds/multi_type_vector/soa/main.hpp
index cdca223..17e0076 100644
--- a/include/mdds/multi_type_vector/soa/main.hpp
+++ b/include/mdds/multi_type_vector/soa/main.hpp
@@ -12,6 +12,8 @@
 #include "./block_util.hpp"
 #include "./iterator.hpp"
 
+#include <utility>
+
 #ifdef MDDS_MULTI_TYPE_VECTOR_DEBUG
 #include <iostream>
 #endif
diff --git a/include/mdds/multi_type_vector/soa/main_def.inl b/include/mdds/multi_type_vector/soa/main_def.inl
index 19bbba9..6fcb6f1 100644
--- a/include/mdds/multi_type_vector/soa/main_def.inl
+++ b/include/mdds/multi_type_vector/soa/main_def.inl
@@ -517,7 +517,7 @@ multi_type_vector<Traits>::multi_type_vector(const multi_type_vector& other)
 template<typename Traits>
 multi_type_vector<Traits>::multi_type_vector(multi_type_vector&& other) noexcept(nothrow_move_constructible_v)
     : m_hdl_event(std::move(other.m_hdl_event)), m_block_store(std::move(other.m_block_store)),
-      m_cur_size(std::move(other.m_cur_size)), m_cow_store(std::move(other.m_cow_store))
+      m_cur_size(std::exchange(other.m_cur_size, 0)), m_cow_store(std::move(other.m_cow_store))
 {
     MDDS_MTV_TRACE_ARGS(constructor, "other=? (move)");
 
-- 
2.43.0


From 52cde11de0c0bff86810b2e1fce1840eeecad1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:30 +0000
Subject: [PATCH 31/38] fix: delayed_delete_vector::swap exchanges the count of
 removed elements

---
 include/mdds/multi_type_vector/delayed_delete_vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/mdds/multi_type_vector/delayed_delete_vector.hpp b/include/mdds/multi_type_vector/delayed_delete_vector.hpp
index 128397a..1b28d6b 100644
--- a/include/mdds/multi_type_vector/delayed_delete_vector.hpp
+++ b/include/mdds/multi_type_vector/delayed_delete_vector.hpp
@@ -9,6 +9,7 @@
 #include <vector>
 #include <algorithm>
 #include <type_traits>
+#include <utility>
 
 namespace mdds { namespace mtv {
 
@@ -122,6 +123,7 @@ public:
     void swap(delayed_delete_vector& other) noexcept(std::is_nothrow_swappable_v<store_type>)
     {
         m_vec.swap(other.m_vec);
+        std::swap(m_front_offset, other.m_front_offset);
     }
 
     template<typename... Args>
-- 
2.43.0


From 2b35422c92b560a6f5dcee7722cf15e340a978fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:47 +0000
Subject: [PATCH 32/38] fix: a moved-from delayed_delete_vector is empty

---
 .../delayed_delete_vector.hpp                  | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/mdds/multi_type_vector/delayed_delete_vector.hpp b/include/mdds/multi_type_vector/delayed_delete_vector.hpp
index 1b28d6b..d6d27bf 100644
--- a/include/mdds/multi_type_vector/delayed_delete_vector.hpp
+++ b/include/mdds/multi_type_vector/delayed_delete_vector.hpp
@@ -40,6 +40,24 @@ public:
     delayed_delete_vector() noexcept(std::is_nothrow_default_constructible_v<store_type>) : m_vec()
     {}
 
+    delayed_delete_vector(const delayed_delete_vector& other) = default;
+
+    delayed_delete_vector(delayed_delete_vector&& other) noexcept
+        : m_vec(std::move(other.m_vec)), m_front_offset(std::exchange(other.m_front_offset, 0))
+    {
+        other.m_vec.clear();
+    }
+
+    delayed_delete_vector& operator=(const delayed_delete_vector& other) = default;
+
+    delayed_delete_vector& operator=(delayed_delete_vector&& other) noexcept(
+        std::is_nothrow_move_assignable_v<store_type>)
+    {
+        delayed_delete_vector tmp(std::move(other));
+        swap(tmp);
+        return *this;
+    }
+
     delayed_delete_vector(size_t n, const T& val) : m_vec(n, val)
     {}
 
-- 
2.43.0


From e612d7b656726af0e9a2f6972922b3bbadbf6ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:08 +0000
Subject: [PATCH 33/38] fix: multi_type_matrix transposes, copies and resizes
 integer elements

---
 include/mdds/multi_type_matrix_def.inl | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/mdds/multi_type_matrix_def.inl b/include/mdds/multi_type_matrix_def.inl
index 75cedb3..dd8f8ea 100644
--- a/include/mdds/multi_type_matrix_def.inl
+++ b/include/mdds/multi_type_matrix_def.inl
@@ -402,6 +402,13 @@ multi_type_matrix<Traits>& multi_type_matrix<Traits>::transpose()
                     tmp.set(old_col_new_row, old_row_new_col, val);
                 }
                 break;
+                case mtm::element_integer:
+                {
+                    integer_type val;
+                    m_store.get(get_pos(old_row_new_col, old_col_new_row), val);
+                    tmp.set(old_col_new_row, old_row_new_col, val);
+                }
+                break;
                 case mtm::element_string:
                 {
                     string_type val;
@@ -474,6 +481,13 @@ void multi_type_matrix<Traits>::copy(const multi_type_matrix& src)
                     blk_pos = m_store.set(pos_dest.first, logical_pos_dest, it, ite);
                 }
                 break;
+                case mtm::element_integer:
+                {
+                    auto it = src_node.template begin<integer_block_type>();
+                    auto ite = src_node.template end<integer_block_type>();
+                    blk_pos = m_store.set(pos_dest.first, logical_pos_dest, it, ite);
+                }
+                break;
                 case mtm::element_string:
                 {
                     auto it = src_node.template begin<string_block_type>();
-- 
2.43.0


From ff88f63d430574d87de3b35f130f8e43829e9c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:08 +0000
Subject: [PATCH 34/38] fix: multi_type_matrix::walk refuses an end position
 outside the matrix

---
 include/mdds/multi_type_matrix_def.inl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/mdds/multi_type_matrix_def.inl b/include/mdds/multi_type_matrix_def.inl
index dd8f8ea..7430079 100644
--- a/include/mdds/multi_type_matrix_def.inl
+++ b/include/mdds/multi_type_matrix_def.inl
@@ -658,7 +658,7 @@ FuncT multi_type_matrix<Traits>::walk(FuncT func, const size_pair_type& start, c
         throw size_error(os.str());
     }
 
-    if (end.row > m_size.row || end.column > m_size.column)
+    if (end.row >= m_size.row || end.column >= m_size.column)
         throw size_error("multi_type_matrix: end position is out-of-bound.");
 
     size_t rows = end.row - start.row + 1;
@@ -742,8 +742,8 @@ FuncT multi_type_matrix<Traits>::walk(
         throw size_error(os.str());
     }
 
-    if (end.row > m_size.row || end.column > m_size.column || end.row > right.size().row ||
-        end.column > right.size().column)
+    if (end.row >= m_size.row || end.column >= m_size.column || end.row >= right.size().row ||
+        end.column >= right.size().column)
         throw size_error("multi_type_matrix: end position is out-of-bound.");
 
     size_t rows = end.row - start.row + 1;
-- 
2.43.0


From 553fb86c39ad4467ef99450c557ccbd4efe16fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:08 +0000
Subject: [PATCH 35/38] fix: multi_type_matrix::get_integer returns integer
 elements unrounded

---
 include/mdds/multi_type_matrix_def.inl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/mdds/multi_type_matrix_def.inl b/include/mdds/multi_type_matrix_def.inl
index 7430079..e0abb9f 100644
--- a/include/mdds/multi_type_matrix_def.inl
+++ b/include/mdds/multi_type_matrix_def.inl
@@ -198,6 +198,9 @@ template<typename Traits>
 typename multi_type_matrix<Traits>::integer_type multi_type_matrix<Traits>::get_integer(
     const const_position_type& pos) const
 {
+    if (pos.first->type == integer_block_type::block_type)
+        return integer_block_type::at(*pos.first->data, pos.second);
+
     return static_cast<integer_type>(get_numeric(pos));
 }
 
-- 
2.43.0


From 7731882a5ef0b7274104364993f12c727530ae45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:08 +0000
Subject: [PATCH 36/38] fix: multi_type_vector collection of no vectors is
 empty

---
 include/mdds/multi_type_vector/collection_def.inl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/mdds/multi_type_vector/collection_def.inl b/include/mdds/multi_type_vector/collection_def.inl
index be9876d..641cc2c 100644
--- a/include/mdds/multi_type_vector/collection_def.inl
+++ b/include/mdds/multi_type_vector/collection_def.inl
@@ -114,6 +114,9 @@ collection<MtvT>::collection(const T& begin, const T& end) : m_mtv_size(0), m_id
     for (T it = begin; it != end; ++it)
         init_insert_vector(*it);
 
+    if (m_vectors.empty())
+        return;
+
     // Create a single value that identifies the whole collection.
     auto it = m_vectors.begin();
     uintptr_t identity = reinterpret_cast<uintptr_t>(*it);
-- 
2.43.0


From fbead10accd1b87febc6afeb603106aefa868601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:08 +0000
Subject: [PATCH 37/38] fix: multi_type_vector collection refuses ranges whose
 end overflows

---
 include/mdds/multi_type_vector/collection_def.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mdds/multi_type_vector/collection_def.inl b/include/mdds/multi_type_vector/collection_def.inl
index 641cc2c..9427848 100644
--- a/include/mdds/multi_type_vector/collection_def.inl
+++ b/include/mdds/multi_type_vector/collection_def.inl
@@ -197,7 +197,7 @@ void collection<MtvT>::check_collection_range(size_type start, size_type size) c
     if (!size)
         throw invalid_arg_error("size of 0 is not allowed.");
 
-    if ((start + size) > m_vectors.size())
+    if (size > m_vectors.size() - start)
         throw invalid_arg_error("size is too large.");
 }
 
@@ -214,7 +214,7 @@ void collection<MtvT>::check_element_range(size_type start, size_type size) cons
     if (!size)
         throw invalid_arg_error("size of 0 is not allowed.");
 
-    if ((start + size) > m_mtv_size)
+    if (size > m_mtv_size - start)
         throw invalid_arg_error("size is too large.");
 }
 
-- 
2.43.0


From d37d4905cd606da0fdcce5b4b1602a8e7cd05b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:43 +0000
Subject: [PATCH 38/38] fix: a moved-from multi_type_matrix has no rows and
 columns

---
 include/mdds/multi_type_matrix.hpp     |  7 +++++--
 include/mdds/multi_type_matrix_def.inl | 15 +++++++++++++++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/include/mdds/multi_type_matrix.hpp b/include/mdds/multi_type_matrix.hpp
index 41cc925..4b33dc0 100644
--- a/include/mdds/multi_type_matrix.hpp
+++ b/include/mdds/multi_type_matrix.hpp
@@ -12,6 +12,9 @@
 
 #include "multi_type_vector.hpp"
 
+#include <type_traits>
+#include <utility>
+
 namespace mdds {
 
 namespace mtm {
@@ -242,7 +245,7 @@ public:
     /**
      * Move constructor.
      */
-    multi_type_matrix(multi_type_matrix&& other) = default;
+    multi_type_matrix(multi_type_matrix&& other) noexcept(std::is_nothrow_move_constructible_v<store_type>);
 
     /**
      * Destructor.
@@ -252,7 +255,7 @@ public:
     bool operator==(const multi_type_matrix& other) const noexcept(nothrow_eq_comparable_v);
 
     multi_type_matrix& operator=(const multi_type_matrix& other) = default;
-    multi_type_matrix& operator=(multi_type_matrix&& other) = default;
+    multi_type_matrix& operator=(multi_type_matrix&& other) noexcept(std::is_nothrow_move_assignable_v<store_type>);
 
     /**
      * Get a mutable reference of an element (position object) at specified
diff --git a/include/mdds/multi_type_matrix_def.inl b/include/mdds/multi_type_matrix_def.inl
index e0abb9f..eeab1ae 100644
--- a/include/mdds/multi_type_matrix_def.inl
+++ b/include/mdds/multi_type_matrix_def.inl
@@ -89,12 +89,27 @@ multi_type_matrix<Traits>::multi_type_matrix(const multi_type_matrix& other)
     : m_store(other.m_store), m_size(other.m_size)
 {}
 
+template<typename Traits>
+multi_type_matrix<Traits>::multi_type_matrix(multi_type_matrix&& other) noexcept(
+    std::is_nothrow_move_constructible_v<store_type>)
+    : m_store(std::move(other.m_store)), m_size(std::exchange(other.m_size, size_pair_type()))
+{}
+
 template<typename Traits>
 bool multi_type_matrix<Traits>::operator==(const multi_type_matrix& r) const noexcept(nothrow_eq_comparable_v)
 {
     return m_size == r.m_size && m_store == r.m_store;
 }
 
+template<typename Traits>
+multi_type_matrix<Traits>& multi_type_matrix<Traits>::operator=(multi_type_matrix&& other) noexcept(
+    std::is_nothrow_move_assignable_v<store_type>)
+{
+    m_store = std::move(other.m_store);
+    m_size = std::exchange(other.m_size, size_pair_type());
+    return *this;
+}
+
 template<typename Traits>
 typename multi_type_matrix<Traits>::position_type multi_type_matrix<Traits>::position(size_type row, size_type col)
 {
-- 
2.43.0

