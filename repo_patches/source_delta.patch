From 2dfa9840b357d500bf99e973257d61c38db1c42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:33 +0000
Subject: [PATCH 01/36] fix: BigInt += and -= read the size of an aliased
 operand after resizing it

---
 include/walnut/big_int.h | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/walnut/big_int.h b/include/walnut/big_int.h
index b269f9d..2d6cae4 100644
--- a/include/walnut/big_int.h
+++ b/include/walnut/big_int.h
@@ -274,15 +274,18 @@ class BigInt {
     size_t common_words = std::min(words_.size(), other.words_.size());
     BigUIntWord this_extension(SignExtension());
     BigUIntWord other_extension(other.SignExtension());
-    size_t old_used_words = used_words();
-    words_.resize(std::max(old_used_words, other.used_words()) + 1);
+    // `other` may be an alias of `*this`, so its size must be read before the
+    // resize.
+    const size_t old_used_words = used_words();
+    const size_t other_used_words = other.used_words();
+    words_.resize(std::max(old_used_words, other_used_words) + 1);
     for (; i < common_words; i++) {
       words_[i] = words_[i].Add(other.words_[i], carry, &carry);
     }
     for (; i < old_used_words; i++) {
       words_[i] = words_[i].Add(other_extension, carry, &carry);
     }
-    for (; i < other.used_words(); i++) {
+    for (; i < other_used_words; i++) {
       words_[i] = this_extension.Add(other.words_[i], carry, &carry);
     }
     words_[i] = this_extension.Add(other_extension, carry, &carry);
@@ -346,15 +349,18 @@ class BigInt {
     size_t common_words = std::min(words_.size(), other.words_.size());
     BigUIntWord this_extension(SignExtension());
     BigUIntWord other_extension(other.SignExtension());
-    size_t old_used_words = used_words();
-    words_.resize(std::max(old_used_words, other.used_words()) + 1);
+    // `other` may be an alias of `*this`, so its size must be read before the
+    // resize.
+    const size_t old_used_words = used_words();
+    const size_t other_used_words = other.used_words();
+    words_.resize(std::max(old_used_words, other_used_words) + 1);
     for (; i < common_words; i++) {
       words_[i] = words_[i].Subtract(other.words_[i], carry, &carry);
     }
     for (; i < old_used_words; i++) {
       words_[i] = words_[i].Subtract(other_extension, carry, &carry);
     }
-    for (; i < other.used_words(); i++) {
+    for (; i < other_used_words; i++) {
       words_[i] = this_extension.Subtract(other.words_[i], carry, &carry);
     }
     words_[i] = this_extension.Subtract(other_extension, carry, &carry);
-- 
2.43.0


From 268ba62490a9df47eb2c899262a2eb86d3bae8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:04 +0000
Subject: [PATCH 02/36] fix: BigInt ++ and -- leave an untrimmed or unallocated
 word at a word boundary

---
 include/walnut/big_int.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/walnut/big_int.h b/include/walnut/big_int.h
index 2d6cae4..ac7d537 100644
--- a/include/walnut/big_int.h
+++ b/include/walnut/big_int.h
@@ -320,13 +320,13 @@ class BigInt {
     for (; i < used_words() - 1; i++) {
       ++words_[i];
       if (words_[i] != 0) {
+        Trim();
         return *this;
       }
     }
     ++words_[i];
     if ((BigIntWord)words_[i] == std::numeric_limits<BigIntWord>::min()) {
-      ++i;
-      ++words_[i] = 0;
+      words_.push_back(BigUIntWord{0});
     } else {
       Trim();
     }
@@ -396,6 +396,7 @@ class BigInt {
     for (; i < used_words() - 1; i++) {
       --words_[i];
       if ((BigIntWord)words_[i] != -1) {
+        Trim();
         return *this;
       }
     }
-- 
2.43.0


From 585fe05c17efd6508d550195f076516d827e2f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:04 +0000
Subject: [PATCH 03/36] fix: BigInt::abs of the smallest single word value
 stays negative

---
 include/walnut/big_int.h | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/include/walnut/big_int.h b/include/walnut/big_int.h
index ac7d537..74bc4ac 100644
--- a/include/walnut/big_int.h
+++ b/include/walnut/big_int.h
@@ -736,9 +736,6 @@ class BigInt {
   }
 
   BigInt abs() const {
-    if (used_words() == 1) {
-      return BigInt(BigIntWord{words_[0].SignedAbs()});
-    }
     if (BigIntWord{words_[used_words() - 1]} >= 0) {
       return *this;
     } else {
-- 
2.43.0


From b0a8b2b121d3bedc5f58c41b9a75b29a903ad7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:06 +0000
Subject: [PATCH 04/36] fix: dividing the smallest single word BigInt by -1
 traps

---
 include/walnut/big_int.h | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/walnut/big_int.h b/include/walnut/big_int.h
index 74bc4ac..31c29c1 100644
--- a/include/walnut/big_int.h
+++ b/include/walnut/big_int.h
@@ -660,7 +660,7 @@ class BigInt {
 
   // Divide `this` by `other`. Return the quotient.
   BigInt operator/(const BigInt& other) const {
-    if (used_words() == 1 && other.used_words() == 1) {
+    if (CanDivideAsWords(other)) {
       return BigInt{BigIntWord{words_[0]} / BigIntWord{other.words_[0]}};
     }
     BigInt unused;
@@ -684,7 +684,7 @@ class BigInt {
   //
   // The quotient is rounded towards 0.
   BigInt DivideRemainder(const BigInt& other, BigInt* remainder_out) const {
-    if (used_words() == 1 && other.used_words() == 1) {
+    if (CanDivideAsWords(other)) {
       *remainder_out = BigInt(BigIntWord{words_[0]} %
                                   BigIntWord{other.words_[0]});
       return BigInt{BigIntWord{words_[0]} / BigIntWord{other.words_[0]}};
@@ -694,7 +694,7 @@ class BigInt {
 
   // Divide `this` by `other`. Return the remainder.
   BigInt operator%(const BigInt& other) const {
-    if (used_words() == 1 && other.used_words() == 1) {
+    if (CanDivideAsWords(other)) {
       return BigInt(BigIntWord{words_[0]} %
                         BigIntWord{other.words_[0]});
     }
@@ -833,6 +833,16 @@ class BigInt {
   }
 
  protected:
+  // Returns true if `this` / `other` can be calculated using only word
+  // division.
+  //
+  // Dividing the minimum word by -1 overflows a word.
+  constexpr bool CanDivideAsWords(const BigInt& other) const {
+    return used_words() == 1 && other.used_words() == 1 &&
+           (BigIntWord{other.words_[0]} != -1 ||
+            BigIntWord{words_[0]} != std::numeric_limits<BigIntWord>::min());
+  }
+
   static constexpr bool CanTrim(BigUIntWord low, BigUIntWord high) {
     // The high word must be 0 or -1.
     if (high.Add(BigUIntWord{1}) > BigUIntWord{1}) return false;
-- 
2.43.0


From c8ff1d92832d34db3a613b63f7379a30585f867b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:08 +0000
Subject: [PATCH 05/36] fix: BigUInt division reads past the remainder once its
 high words are trimmed

---
 include/walnut/big_uint.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/walnut/big_uint.h b/include/walnut/big_uint.h
index b38162b..a39eaab 100644
--- a/include/walnut/big_uint.h
+++ b/include/walnut/big_uint.h
@@ -265,6 +265,10 @@ class BigUInt {
   BigUIntWord GetAtBitOffset(size_t shift) const {
     size_t word_index = shift / bits_per_word;
     unsigned word_offset = shift % bits_per_word;
+    if (word_index >= words_.size()) {
+      // The high words were trimmed because they are 0.
+      return BigUIntWord{0};
+    }
     BigUIntWord next{0};
     if (word_index + 1 < words_.size()) {
       next = words_[word_index+1];
-- 
2.43.0


From 853468313f70773b23c32fb742d5527b111099e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:02 +0000
Subject: [PATCH 06/36] fix: BigUInt << leaves the low words uninitialized

---
 include/walnut/big_uint.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/walnut/big_uint.h b/include/walnut/big_uint.h
index a39eaab..4dc9693 100644
--- a/include/walnut/big_uint.h
+++ b/include/walnut/big_uint.h
@@ -73,7 +73,7 @@ class BigUInt {
     if (word_left_shift > 0) {
       size_t copy = used_words();
       size_t allocate = copy + out + 1;
-      result.words_.resize(allocate);
+      result.words_.resize(allocate, BigUIntWord{0});
       BigUIntWord prev(0);
       const int prev_right_shift = bits_per_word - word_left_shift;
       for (; in < copy; in++, out++) {
@@ -85,7 +85,7 @@ class BigUInt {
       out++;
     } else {
       size_t copy = used_words();
-      result.words_.resize(copy + out);
+      result.words_.resize(copy + out, BigUIntWord{0});
       for (; in < copy; in++, out++) {
         result.words_[out] = words_[in];
       }
-- 
2.43.0


From a27540139aa30b6361bf55dca9c1c28c23969b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:02 +0000
Subject: [PATCH 07/36] fix: BigUInt::AddLeftShifted carries into an
 uninitialized word

---
 include/walnut/big_uint.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/walnut/big_uint.h b/include/walnut/big_uint.h
index 4dc9693..64b0082 100644
--- a/include/walnut/big_uint.h
+++ b/include/walnut/big_uint.h
@@ -179,7 +179,7 @@ class BigUInt {
       pos++;
     }
     for (; carry; pos++) {
-      words_.resize(std::max(used_words(), (pos + 1)));
+      words_.resize(std::max(used_words(), (pos + 1)), BigUIntWord{0});
       words_[pos] = words_[pos].Add(carry, &carry);
     }
     assert(used_words() == std::max(old_used, pos));
-- 
2.43.0


From 89f5aa9c1525bd0699dc68de4d66d670bf4eb56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:08 +0000
Subject: [PATCH 08/36] fix: adding content to an already split BSP tree

The children of an interior node did not grow their content info for ids
added after the split, and a change of the PWN of a child was not passed on
to the descendants the child already had.
---
 include/walnut/bsp_node.h | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/include/walnut/bsp_node.h b/include/walnut/bsp_node.h
index bf0ab25..f766d0c 100644
--- a/include/walnut/bsp_node.h
+++ b/include/walnut/bsp_node.h
@@ -268,6 +268,21 @@ class BSPNode {
     }
   }
 
+  // Adds `delta` to the PWN of `id` in this node and all of its descendants.
+  //
+  // The PWN of a descendant was copied from this node when this node was
+  // split, so it has to be kept up to date afterwards.
+  void AddPWN(BSPContentId id, int64_t delta) {
+    if (id >= content_info_by_id_.size()) {
+      content_info_by_id_.resize(id + 1);
+    }
+    content_info_by_id_[id].pwn += delta;
+    if (!IsLeaf()) {
+      negative_child_->AddPWN(id, delta);
+      positive_child_->AddPWN(id, delta);
+    }
+  }
+
   void SetPolygonCountFromContents() {
     for (PolygonRep& polygon : contents_) {
       content_info_by_id_[polygon.id].has_interior_polygons++;
@@ -517,9 +532,7 @@ void BSPNode<OutputPolygonParent>::PushContentPWNToChildren() {
       if (push_info.first != 0) {
         BSPNode<OutputPolygonParent>* push_to_child =
           push_info.second ? positive_child() : negative_child();
-        assert(push_to_child->content_info_by_id_.size() >= polygon.id);
-        push_to_child->content_info_by_id_[polygon.id].pwn +=
-          push_info.first;
+        push_to_child->AddPWN(polygon.id, push_info.first);
       }
 
       const EdgeRep& next_edge =
@@ -529,9 +542,7 @@ void BSPNode<OutputPolygonParent>::PushContentPWNToChildren() {
       if (push_info.first != 0) {
         BSPNode<OutputPolygonParent>* push_to_child =
           push_info.second ? positive_child() : negative_child();
-        assert(push_to_child->content_info_by_id_.size() >= polygon.id);
-        push_to_child->content_info_by_id_[polygon.id].pwn +=
-          -push_info.first;
+        push_to_child->AddPWN(polygon.id, -push_info.first);
       }
     }
   }
@@ -600,6 +611,12 @@ void BSPNode<OutputPolygonParent>::PushContentsToChildren() {
   if (IsLeaf()) {
     return;
   }
+  // The contents may contain ids that were added after the node was split.
+  for (BSPNode* child : {negative_child(), positive_child()}) {
+    if (child->content_info_by_id_.size() < content_info_by_id_.size()) {
+      child->content_info_by_id_.resize(content_info_by_id_.size());
+    }
+  }
   PushContentPWNToChildren();
 
   for (PolygonRep& polygon : contents_) {
-- 
2.43.0


From 8023837d068e501e0fa601590c73b5d0938ffdbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:08 +0000
Subject: [PATCH 09/36] fix: SubtractIdsFilter reads mesh 0 instead of the
 first listed mesh

---
 include/walnut/boolean_operation_filter.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/walnut/boolean_operation_filter.h b/include/walnut/boolean_operation_filter.h
index 13eda01..5240b84 100644
--- a/include/walnut/boolean_operation_filter.h
+++ b/include/walnut/boolean_operation_filter.h
@@ -118,8 +118,8 @@ class SubtractIdsFilter : public BooleanOperationFilter {
       return std::make_pair(false, false);
     } 
 
-    std::pair<bool, bool> total(content_info_by_id[0].pwn > 0,
-                                content_info_by_id[0].has_polygons());
+    std::pair<bool, bool> total(content_info_by_id[ids_[0]].pwn > 0,
+                                content_info_by_id[ids_[0]].has_polygons());
 
     for (size_t i = 1; i < ids_.size(); ++i) {
       BSPContentId id = ids_[i];
-- 
2.43.0


From db57df5d8a47e3e01a04a05e54a2de00c4d59883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:52 +0000
Subject: [PATCH 10/36] fix: BSP event partition rejects border events skipped
 while only heap events are processed

---
 include/walnut/polygon_event_point.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/walnut/polygon_event_point.h b/include/walnut/polygon_event_point.h
index beca202..d939274 100644
--- a/include/walnut/polygon_event_point.h
+++ b/include/walnut/polygon_event_point.h
@@ -819,8 +819,11 @@ void PolygonEventPointPartition::ApplySecondary(
                                                        pos_polygons);
   size_t neg_used = 0;
   size_t pos_used = 0;
+  // True if the border polygon events at the beginning of the current location
+  // were skipped in an earlier iteration that only processed heap events.
+  bool skipped_border_events = false;
   while (event_points_pos < event_points_end) {
-    assert(event_points_pos->new_location);
+    assert(event_points_pos->new_location || skipped_border_events);
     // Skip main events for border polygons
     while (event_points_pos < event_points_end) {
       if (event_points_pos->start) {
@@ -831,6 +834,7 @@ void PolygonEventPointPartition::ApplySecondary(
           event_points[end_event_index].index.partner =
               static_cast<size_t>(-2);
           ++event_points_pos;
+          skipped_border_events = true;
         } else {
           break;
         }
@@ -838,6 +842,7 @@ void PolygonEventPointPartition::ApplySecondary(
         size_t child_start_event_index = event_points_pos->index.partner;
         if (child_start_event_index == static_cast<size_t>(-2)) {
           ++event_points_pos;
+          skipped_border_events = true;
         } else {
           break;
         }
@@ -868,6 +873,7 @@ void PolygonEventPointPartition::ApplySecondary(
       process_heap_events = false;
       process_main_events = true;
     }
+    if (process_main_events) skipped_border_events = false;
     // Process all points events at the location.
     while (process_heap_events || process_main_events) {
       // Process the merge end events up to and at the main event location.
-- 
2.43.0


From 786228781926e9460af0398d5d3e78a6e5e91233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:45 +0000
Subject: [PATCH 11/36] fix: polygons that start on the BSP split plane are
 counted as border polygons

---
 include/walnut/polygon_event_point.h | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/include/walnut/polygon_event_point.h b/include/walnut/polygon_event_point.h
index d939274..66c565c 100644
--- a/include/walnut/polygon_event_point.h
+++ b/include/walnut/polygon_event_point.h
@@ -463,16 +463,6 @@ PolygonEventPointPartition GetLowestCost(
 inline void PolygonEventPointPartition::DiscountBorderPolygons(
     const PolygonEventPoint* event_points,
     size_t parent_poly_count) {
-  split_location_begin = split_index;
-  while (!event_points[split_location_begin].new_location) {
-    assert(split_location_begin > 0);
-    --split_location_begin;
-    if (event_points[split_location_begin].start) {
-      // This event points to a border polygon, not a neg polygon.
-      --neg_poly_count;
-      ++border_poly_count;
-    }
-  }
   split_location_end = split_index + 1;
   while (split_location_end < parent_poly_count*2 &&
          !event_points[split_location_end].new_location) {
@@ -481,6 +471,21 @@ inline void PolygonEventPointPartition::DiscountBorderPolygons(
     }
     ++split_location_end;
   }
+  split_location_begin = split_index;
+  while (!event_points[split_location_begin].new_location) {
+    assert(split_location_begin > 0);
+    --split_location_begin;
+    if (event_points[split_location_begin].start) {
+      // This event points to a border polygon or a pos polygon that starts at
+      // the split plane (`ApplySecondary` may order such a start event before
+      // an end event at the same location), not a neg polygon.
+      --neg_poly_count;
+      if (event_points[split_location_begin].index.partner <
+          split_location_end) {
+        ++border_poly_count;
+      }
+    }
+  }
   for (size_t i = split_index; i < split_location_end; ++i) {
     if (event_points[i].start &&
         event_points[i].index.partner < split_location_end) {
-- 
2.43.0


From dc419bad21d5e49ce313e69d1eeae6545f11b079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:03 +0000
Subject: [PATCH 12/36] fix: subtracting a mesh without polygons in the BSP
 node removes everything

---
 include/walnut/boolean_operation_filter.h | 3 ++-
 include/walnut/bsp_visitor.h              | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/walnut/boolean_operation_filter.h b/include/walnut/boolean_operation_filter.h
index 5240b84..dc7b2ce 100644
--- a/include/walnut/boolean_operation_filter.h
+++ b/include/walnut/boolean_operation_filter.h
@@ -127,7 +127,8 @@ class SubtractIdsFilter : public BooleanOperationFilter {
       std::pair<bool, bool> id_result;
 
       if (id >= content_info_by_id.size()) {
-        id_result = std::make_pair(false, false);
+        // The pwn is 0.
+        id_result = std::make_pair(true, false);
       } else {
         id_result =  std::make_pair(content_info_by_id[id].pwn >= 0,
                                     content_info_by_id[id].has_polygons());
diff --git a/include/walnut/bsp_visitor.h b/include/walnut/bsp_visitor.h
index 52e0134..018052e 100644
--- a/include/walnut/bsp_visitor.h
+++ b/include/walnut/bsp_visitor.h
@@ -53,7 +53,8 @@ class InvertedPolygonFilter {
   std::pair<bool, bool> operator()(
       const std::vector<BSPContentInfo>& content_info_by_id) {
     if (accept_id_ >= content_info_by_id.size()) {
-      return std::make_pair(false, false);
+      // The pwn is 0.
+      return std::make_pair(true, false);
     } else {
       return std::make_pair(content_info_by_id[accept_id_].pwn >= 0,
                             content_info_by_id[accept_id_].has_polygons());
-- 
2.43.0


From 72fab7e0565202949f229730fe35443ce32eb521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:02 +0000
Subject: [PATCH 13/36] fix: do not merge a connected edge with an unconnected
 edge

When only one of two consecutive collinear edges had a partner, CanMerge
ignored the partners and Merge dereferenced a null partner (crash), or
dropped the link of the other edge. This happened for polyhedra with
missing facets.
---
 include/walnut/connected_polygon.h | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/include/walnut/connected_polygon.h b/include/walnut/connected_polygon.h
index 977176a..82ad75f 100644
--- a/include/walnut/connected_polygon.h
+++ b/include/walnut/connected_polygon.h
@@ -141,7 +141,10 @@ class ConnectedEdge : public ParentTemplate, public DeedTarget {
   }
 
   bool CanMerge(const ConnectedEdge& next) const {
-    if (partner() != nullptr && next.partner() != nullptr) {
+    if (partner() == nullptr || next.partner() == nullptr) {
+      // An edge with a partner cannot be merged with an edge without one.
+      if (partner() != next.partner()) return false;
+    } else if (next.partner() != &next) {
       if (&partner()->polygon() != &next.partner()->polygon()) {
         // The edges have different partner polygons. They cannot be merged.
         return false;
@@ -153,12 +156,12 @@ class ConnectedEdge : public ParentTemplate, public DeedTarget {
       const FinalEdgeRep& partner =
         next.partner()->polygon().edge(next.partner()->edge_index());
 
-      // Temporarily unlink the partner to prevent an infinite loop. Even
-      // though the partner points to `this`, save the value because `this` is
-      // a const pointer and `old_value` is non-const.
+      // Temporarily point the partner at itself to prevent an infinite loop.
+      // Even though the partner points to `this`, save the value because
+      // `this` is a const pointer and `old_value` is non-const.
       ConnectedEdge* old_value = partner_->partner_;
       assert(old_value == this);
-      partner_->partner_ = nullptr;
+      partner_->partner_ = partner_;
       bool merge_result = partner.CanMerge(/*next=*/next_partner);
       partner_->partner_ = old_value;
       if (!merge_result) return false;
@@ -196,10 +199,13 @@ class ConnectedEdge : public ParentTemplate, public DeedTarget {
 
   void Merge(ConnectedEdge& next) {
     assert(CanMerge(next));
-    if (next.partner() != nullptr) {
+    if (next.partner() == &next) {
+      // The partner is already merging.
+      next.partner_ = nullptr;
+    } else if (next.partner() != nullptr) {
       // This signals the partner not to try and merge this polygon's edges
       // again (preventing an infinite loop).
-      partner_->partner_ = nullptr;
+      partner_->partner_ = partner_;
       partner_ = next.partner_;
       partner_->partner_ = this;
       next.partner_ = nullptr;
-- 
2.43.0


From ce645784840bac4c85a0932380e03d2399e000a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:02 +0000
Subject: [PATCH 14/36] fix: split an unconnectable edge only once per location

When a half-edge could not be connected, it could be processed again at
the same location, which split it at its own end point (assertion failure,
or a zero-length edge in release builds).
---
 include/walnut/edge_line_connector.h | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/include/walnut/edge_line_connector.h b/include/walnut/edge_line_connector.h
index c92025a..44544f4 100644
--- a/include/walnut/edge_line_connector.h
+++ b/include/walnut/edge_line_connector.h
@@ -240,7 +240,8 @@ class EdgeLineConnector {
         ++edges_begin;
       }
 
-      ProcessNeedPartners(active_edges, *current_location, error);
+      ProcessNeedPartners(sorted_dimension, active_edges, *current_location,
+                          error);
 
       EndEventsIterator heap_end = end_events_.begin() + heap_size;
       while (heap_end != end_events_.end()) {
@@ -255,7 +256,8 @@ class EdgeLineConnector {
         end_events_.front()->second.edge->GetEndLocation(sorted_dimension);
       ProcessEndEvents(sorted_dimension, active_edges, current_location,
                        end_events_compare);
-      ProcessNeedPartners(active_edges, current_location, error);
+      ProcessNeedPartners(sorted_dimension, active_edges, current_location,
+                          error);
     }
 
     assert(active_edges.empty());
@@ -447,7 +449,8 @@ class EdgeLineConnector {
 
   // Repartner everything in need_partners_, and clear needs_partners_.
   void ProcessNeedPartners(
-      ActiveEdgeMap& active_edges, const HomoPoint3& location,
+      int sorted_dimension, ActiveEdgeMap& active_edges,
+      const HomoPoint3& location,
       const std::function<void(const std::string&)>& error) {
     while (!need_partners_.empty()) {
       ActiveEdge needs_partner = need_partners_.back();
@@ -493,7 +496,7 @@ class EdgeLineConnector {
         new_partner->second.edge->Approximate(out);
         out << "} pos_edge=" << partner_pos_edge << ".";
         error(out.str());
-        MaybeSplitEdge(needs_partner, location);
+        MaybeSplitEdge(sorted_dimension, needs_partner, location);
         assert(needs_partner->second.edge->partner_ == nullptr);
         continue;
       }
@@ -506,8 +509,8 @@ class EdgeLineConnector {
       }
       needs_partner->second.partner = new_partner;
       new_partner->second.partner = needs_partner;
-      MaybeSplitEdge(needs_partner, location);
-      MaybeSplitEdge(new_partner, location);
+      MaybeSplitEdge(sorted_dimension, needs_partner, location);
+      MaybeSplitEdge(sorted_dimension, new_partner, location);
       assert(needs_partner->second.edge->partner_ == nullptr);
       assert(new_partner->second.edge->partner_ == nullptr);
       needs_partner->second.edge->partner_ = new_partner->second.edge.get();
@@ -515,10 +518,14 @@ class EdgeLineConnector {
     }
   }
 
-  void MaybeSplitEdge(ActiveEdge active_edge, const HomoPoint3& location) {
+  void MaybeSplitEdge(int sorted_dimension, ActiveEdge active_edge,
+                      const HomoPoint3& location) {
     if (active_edge->second.current_endpoint) return;
 
     EdgeRep& old_edge = *active_edge->second.edge;
+    // An edge that could not be connected may be processed more than once at
+    // the same location.
+    if (old_edge.GetBeginLocation(sorted_dimension) == location) return;
     PolygonRep& polygon = old_edge.polygon();
     size_t edge_index = old_edge.edge_index();
     polygon.SplitEdge(edge_index, location);
-- 
2.43.0


From 649f85b1bf45e923703d8e28c3d2357a5f33d593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:38 +0000
Subject: [PATCH 15/36] fix: compare every edge of a polygon in
 ConvexPolygon::operator==

---
 include/walnut/convex_polygon.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/walnut/convex_polygon.h b/include/walnut/convex_polygon.h
index b6dbe36..c88b712 100644
--- a/include/walnut/convex_polygon.h
+++ b/include/walnut/convex_polygon.h
@@ -842,6 +842,9 @@ bool ConvexPolygon<EdgeParent>::operator==(
   if (vertex_count() != other.vertex_count()) {
     return false;
   }
+  if (vertex_count() == 0) {
+    return true;
+  }
   size_t match_offset = 0;
   while (true) {
     if (match_offset == vertex_count()) {
@@ -853,7 +856,7 @@ bool ConvexPolygon<EdgeParent>::operator==(
     }
     ++match_offset;
   }
-  for (size_t i = 1, j = match_offset + 1; i < vertex_count(); ++i, ++j) {
+  for (size_t i = 0, j = match_offset; i < vertex_count(); ++i, ++j) {
     if (vertex(i).DropDimension(drop_dimension()) !=
         other.vertex(j % vertex_count()).DropDimension(drop_dimension())) {
       return false;
-- 
2.43.0


From 7c2df544fb21ba3ea7f6ba3f28f74f392681adec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:05 +0000
Subject: [PATCH 16/36] fix: divide the AABB diagonal by the denominator, not
 its root

---
 include/walnut/aabb.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/walnut/aabb.h b/include/walnut/aabb.h
index 72b6535..e8d2577 100644
--- a/include/walnut/aabb.h
+++ b/include/walnut/aabb.h
@@ -166,7 +166,7 @@ class AABB {
   }
 
   double GetDiagonalLength() const {
-    return sqrt((double)GetSquaredDiagonalLengthNumerator() / (double)denom());
+    return sqrt((double)GetSquaredDiagonalLengthNumerator()) / (double)denom();
   }
 
  private:
-- 
2.43.0


From 66ad87496c805a930aee02aca9cd083916805d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:56 +0000
Subject: [PATCH 17/36] fix: Get2DTwistDir is wrong for collinear points and
 small twists when denominators differ in sign

---
 src/walnut/homo_point3.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/walnut/homo_point3.cpp b/src/walnut/homo_point3.cpp
index 165ef3a..d20c07f 100644
--- a/src/walnut/homo_point3.cpp
+++ b/src/walnut/homo_point3.cpp
@@ -99,9 +99,13 @@ BigIntWord HomoPoint3::Get2DTwistDir(int drop_dimension, const HomoPoint3& p1,
     vector_from_origin().DropDimension(drop_dimension) * p3.dist_denom();
   Vector2 p3_from_origin =
     p3.vector_from_origin().DropDimension(drop_dimension) * dist_denom();
-  return (p1_from_origin - p2_from_origin1).Cross(
-      p3_from_origin - p2_from_origin3).GetSign() ^
-    p1.dist_denom().SignExtension() ^ p3.dist_denom().SignExtension();
+  const Vector2 p1_offset = p1_from_origin - p2_from_origin1;
+  const Vector2 p3_offset = p3_from_origin - p2_from_origin3;
+  // Exactly one of the offsets points in the opposite direction if the
+  // denominators of p1 and p3 have different signs.
+  return p1.dist_denom().HasSameSign(p3.dist_denom()) ?
+    p1_offset.Cross(p3_offset).GetSign() :
+    p3_offset.Cross(p1_offset).GetSign();
 }
 
 void HomoPoint3::Reduce() {
-- 
2.43.0


From 485210fab9b14e248c955ddd7c2ac88e884936c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:56 +0000
Subject: [PATCH 18/36] fix: HomoPoint2::LexicographicallyLt ignores the signs
 of the denominators

---
 include/walnut/homo_point2.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/walnut/homo_point2.h b/include/walnut/homo_point2.h
index 0928a7b..611f10b 100644
--- a/include/walnut/homo_point2.h
+++ b/include/walnut/homo_point2.h
@@ -69,8 +69,10 @@ class HomoPoint2 {
     vector_from_origin_(v), dist_denom_(w) { }
 
   static bool LexicographicallyLt(const HomoPoint2& a, const HomoPoint2& b) {
-    auto a_scaled = a.vector_from_origin() * b.dist_denom();
-    auto b_scaled = b.vector_from_origin() * a.dist_denom();
+    // The denominators may have different signs.
+    int sign_flip = b.dist_denom().GetAbsMult(a.dist_denom());
+    auto a_scaled = a.vector_from_origin() * (b.dist_denom() * sign_flip);
+    auto b_scaled = b.vector_from_origin() * (a.dist_denom() * sign_flip);
     return std::lexicographical_compare(a_scaled.coords().begin(),
                                         a_scaled.coords().end(),
                                         b_scaled.coords().begin(),
-- 
2.43.0


From d9eccf1b65700ce0c241d4411de1d41a1b0845b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:56 +0000
Subject: [PATCH 19/36] fix: HalfSpace3Compare was not a strict weak order over
 half-spaces whose normals sum to 0

---
 include/walnut/half_space3.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/walnut/half_space3.h b/include/walnut/half_space3.h
index 23e75fa..3f9abf2 100644
--- a/include/walnut/half_space3.h
+++ b/include/walnut/half_space3.h
@@ -278,8 +278,8 @@ std::ostream& operator<<(std::ostream& out, const HalfSpace3& p);
 // This is useful for putting `HalfSpace3`s in a std::map or std::set.
 struct HalfSpace3Compare {
   bool operator()(const HalfSpace3& a, const HalfSpace3& b) const {
-    BigInt scale_a = (b.x() + b.y() + b.z()).abs();
-    BigInt scale_b = (a.x() + a.y() + a.z()).abs();
+    BigInt scale_a = b.x().abs() + b.y().abs() + b.z().abs();
+    BigInt scale_b = a.x().abs() + a.y().abs() + a.z().abs();
 
     return std::make_tuple(a.x().Multiply(scale_a),
                            a.y().Multiply(scale_a),
-- 
2.43.0


From db4876b59b4d1d8e7442de741099226bde836f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:00 +0000
Subject: [PATCH 20/36] fix: node borders when a split plane misses the
 bounding box

GetNodeBorder and GetNodeBorderNoBoundWalls asserted that every split plane
on the path meets the bounding box. A plane that misses it contributes no
facet.
---
 include/walnut/bsp_tree.h | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/include/walnut/bsp_tree.h b/include/walnut/bsp_tree.h
index 1a823e5..d9db72c 100644
--- a/include/walnut/bsp_tree.h
+++ b/include/walnut/bsp_tree.h
@@ -138,19 +138,21 @@ BSPTree<ConvexPolygonTemplate>::GetNodeBorder(Iterator node_path_begin,
     if (*pos) {
       if (bounding_box_planes.find(-original_node->split()) ==
           bounding_box_planes.end()) {
-        mapped_root.AddRootContent(
-            cell_border_id,
-            bounding_box.IntersectPlane(-original_node->split()));
-        assert(mapped_root.contents().back().vertex_count() > 0);
+        // The split plane may miss the bounding box.
+        auto border = bounding_box.IntersectPlane(-original_node->split());
+        if (border.vertex_count() > 0) {
+          mapped_root.AddRootContent(cell_border_id, std::move(border));
+        }
       }
       original_node = original_node->positive_child();
     } else {
       if (bounding_box_planes.find(original_node->split()) ==
           bounding_box_planes.end()) {
-        mapped_root.AddRootContent(
-            cell_border_id,
-            bounding_box.IntersectPlane(original_node->split()));
-        assert(mapped_root.contents().back().vertex_count() > 0);
+        // The split plane may miss the bounding box.
+        auto border = bounding_box.IntersectPlane(original_node->split());
+        if (border.vertex_count() > 0) {
+          mapped_root.AddRootContent(cell_border_id, std::move(border));
+        }
       }
       original_node = original_node->negative_child();
     }
@@ -222,14 +224,18 @@ BSPTree<ConvexPolygonTemplate>::GetNodeBorderNoBoundWalls(
   // mapped_root.
   for (Iterator pos = node_path_begin; pos != node_path_end; ++pos) {
     if (*pos) {
-      mapped_root.AddRootContent(
-          /*id=*/0, bounding_box.IntersectPlane(-original_node->split()));
-      assert(mapped_root.contents().back().vertex_count() > 0);
+      // The split plane may miss the bounding box.
+      auto border = bounding_box.IntersectPlane(-original_node->split());
+      if (border.vertex_count() > 0) {
+        mapped_root.AddRootContent(/*id=*/0, std::move(border));
+      }
       original_node = original_node->positive_child();
     } else {
-      mapped_root.AddRootContent(
-          /*id=*/0, bounding_box.IntersectPlane(original_node->split()));
-      assert(mapped_root.contents().back().vertex_count() > 0);
+      // The split plane may miss the bounding box.
+      auto border = bounding_box.IntersectPlane(original_node->split());
+      if (border.vertex_count() > 0) {
+        mapped_root.AddRootContent(/*id=*/0, std::move(border));
+      }
       original_node = original_node->negative_child();
     }
   }
-- 
2.43.0


From af6aa80198acd3378f35a8d6477111798df8f133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:04 +0000
Subject: [PATCH 21/36] fix: PlanarRange uses the first distinct vertex to form
 the plane

A ring starting with a repeated vertex was considered collinear, and dropped.
---
 include/walnut/planar_range.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/walnut/planar_range.h b/include/walnut/planar_range.h
index 4b440d5..ceeb666 100644
--- a/include/walnut/planar_range.h
+++ b/include/walnut/planar_range.h
@@ -102,8 +102,19 @@ inline void PlanarRange<Point3Iterator>::Build(
     return;
   }
 
-  const Point3Rep& p2 = *remaining_begin;
+  // Use the first point that is different from p1 as p2. No plane can be formed
+  // with a repetition of p1.
   size_ = 2;
+  while (*remaining_begin == p1) {
+    ++remaining_begin;
+    if (remaining_begin == remaining_end) {
+      range_.Append(range_begin, range_end);
+      plane_ = HalfSpace3::Zero();
+      return;
+    }
+    ++size_;
+  }
+  const Point3Rep& p2 = *remaining_begin;
   ++remaining_begin;
 
   // Keep p1 and p2 pointing to where they are. Use the next soonest point for
-- 
2.43.0


From b15f0d8e2e5750dc52f46fff81053adea128cfa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:04 +0000
Subject: [PATCH 22/36] fix: OrientingMonotoneDecomposer handles chains that
 are flat at their ends

DetectOrientation ran into assertions (and ignored the remaining vertices)
when all of chain2 equals the minimum vertex, or when chain2 has more vertices
at the level of the maximum vertex after chain1 was consumed.
---
 .../walnut/orienting_monotone_decomposer.h    | 25 +++++++++----------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/include/walnut/orienting_monotone_decomposer.h b/include/walnut/orienting_monotone_decomposer.h
index a718476..2930852 100644
--- a/include/walnut/orienting_monotone_decomposer.h
+++ b/include/walnut/orienting_monotone_decomposer.h
@@ -192,11 +192,12 @@ bool OrientingMonotoneDecomposer<Point3RepTemplate>::DetectOrientation(
   while (*chain2_pos == minimum_vertex) {
     advanced = true;
     ++chain2_pos;
-    // chain2 must contain the maximum value. It was already validated that
-    // chain1 contains a maximum value which is different from the minimum. So
-    // chain2 must also contain a maximum that is different from the minimum
-    // before its end.
-    assert(chain2_pos != chain2_end);
+    if (chain2_pos == chain2_end) {
+      // All values in chain2 equal minimum_vertex. Since chain2 must contain
+      // the minimum and maximum vertices, every vertex has the same component
+      // in the monotone dimension, and they are all collinear.
+      return false;
+    }
   }
 
   if (advanced) {
@@ -220,18 +221,16 @@ bool OrientingMonotoneDecomposer<Point3RepTemplate>::DetectOrientation(
   while (true) {
     // Entries are preferentially taken from chain1, and both chains contain
     // the max element. So as long as chain1 is not completely consumed,
-    // chain2 still contains at least the max element.
-    if (chain1_pos == chain1_end) {
-      // Chain1 was completely consumed, which means only the maximum vertex
-      // remains in chain2. All of the vertices were collinear.
-#ifndef NDEBUG
-      ++chain2_pos;
-      assert(chain2_pos == chain2_end);
-#endif
+    // chain2 still contains at least the max element. After chain1 is
+    // completely consumed, chain2 may still contain more vertices with the
+    // same component in the monotone dimension as the max element.
+    if (chain1_pos == chain1_end && chain2_pos == chain2_end) {
+      // All of the vertices were collinear.
       return false;
     }
     assert(chain2_pos != chain2_end);
     const bool chain1_is_current =
+      chain1_pos != chain1_end &&
       chain1_pos->CompareComponent(monotone_dimension, *chain2_pos) <= 0;
     const Point3Rep& current = chain1_is_current ? *chain1_pos : *chain2_pos;
     const BigIntWord twist =
-- 
2.43.0


From 93822d97dea68d6ebb15b0d6be45c6c3b173f009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:04 +0000
Subject: [PATCH 23/36] fix: MonotoneRange makes progress in the middle of a
 zig-zag

When the input range starts in the middle of a zig-zag, the range only took 2
vertices, and the remaining range was the same as the input, so that
ConvexPolygonFactory never returned.
---
 include/walnut/monotone_range.h | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/include/walnut/monotone_range.h b/include/walnut/monotone_range.h
index 884996e..81bbfa7 100644
--- a/include/walnut/monotone_range.h
+++ b/include/walnut/monotone_range.h
@@ -248,6 +248,8 @@ inline void MonotoneRange<Point3Iterator>::Build(
     chain_dir_ = 0;
     return;
   }
+  const Point3Iterator input_begin = remaining_begin;
+  const Point3Iterator input_end = remaining_end;
   Point3Iterator range_end = remaining_end;
   --remaining_end;
 
@@ -370,6 +372,28 @@ inline void MonotoneRange<Point3Iterator>::Build(
   if (remaining_begin != remaining_end) {
     --remaining_begin;
     ++remaining_end;
+    if (remaining_begin == input_begin && remaining_end == input_end) {
+      // chain1_ and chain2_ only contain the last and first vertices of the
+      // input range, because the input range starts in the middle of a
+      // zig-zag: the second vertex of the input is past the last vertex, and
+      // the second to last vertex is past the first vertex. Returning those 2
+      // vertices would leave the remaining range unchanged. Instead take the
+      // triangle consisting of the last, first, and second vertices, since all
+      // triangles are monotone.
+      Point3Iterator last = input_end;
+      --last;
+      Point3Iterator second = input_begin;
+      ++second;
+      Point3Iterator after_second = second;
+      ++after_second;
+      chain1_.Clear();
+      chain1_.Append(second, after_second);
+      chain1_.Append(last, input_end);
+      chain1_.Append(input_begin, second);
+      chain2_.Clear();
+      chain2_.Append(input_begin, after_second);
+      remaining_begin = second;
+    }
   }
 }
 
-- 
2.43.0


From f0486603969777a134d113f1db001fdf26db2be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:04 +0000
Subject: [PATCH 24/36] fix: MonotoneDecomposer only extends a piece if it
 stays convex

Triangles of the opposite orientation and vertices that fold back along a line
were merged into the convex piece.
---
 include/walnut/monotone_decomposer.h | 78 ++++++++++++++++++++++------
 1 file changed, 61 insertions(+), 17 deletions(-)

diff --git a/include/walnut/monotone_decomposer.h b/include/walnut/monotone_decomposer.h
index 408250c..a196175 100644
--- a/include/walnut/monotone_decomposer.h
+++ b/include/walnut/monotone_decomposer.h
@@ -108,34 +108,47 @@ class MonotoneDecomposer : public MonotoneTriangulator<Point3RepTemplate> {
     if (!convex_top_.empty()) {
       assert(!convex_bottom_.empty());
       if (convex_top_.back() == p1 && convex_bottom_.back() == p2) {
-        bool set_orientation = false;
-        if (orientation_ == 0) {
-          set_orientation = true;
-          orientation_ = p2.Get2DTwistDirReduced(drop_dimension_, p1, p3);
+        if (p1 == p3 || p2 == p3) {
+          // The triangle is only an edge of the convex polygon followed in
+          // both directions.
+          return;
+        }
+        const int p3_orientation =
+          p2.Get2DTwistDirReduced(drop_dimension_, p1, p3);
+        const bool was_collinear = orientation_ == 0;
+        if (was_collinear) {
+          orientation_ = p3_orientation;
         }
         // For non-self-intersecting polygons, orientation_ will always be 0 or
         // -1. However for self-intersecting polygons, the triangulator can
         // produce flipped triangles, in which case orientation_ will be 1.
-        const Point3Rep& prev_top = convex_top_.size() > 1 ?
+        //
+        // p3 of the first triangle may have been a repetition of p1 or p2. If
+        // so, skip the repetition to get the previous vertex.
+        const Point3Rep& prev_top =
+          convex_top_.size() > 1 && convex_top_.end()[-2] != p1 ?
           convex_top_.end()[-2] : convex_bottom_.front();
-        const Point3Rep& prev_bottom = convex_bottom_.size() > 1 ?
+        const Point3Rep& prev_bottom =
+          convex_bottom_.size() > 1 && convex_bottom_.end()[-2] != p2 ?
           convex_bottom_.end()[-2] : convex_top_.front();
-        if (p1.Get2DTwistDir(drop_dimension_, prev_top, p3) *
-              orientation_ <= 0 &&
-            p2.Get2DTwistDir(drop_dimension_, prev_bottom, p3) *
-              orientation_ >= 0) {
+        if (orientation_ == 0) {
+          // Everything is still collinear. Remember whether the vertices keep
+          // following the line in the same direction.
+          folded_ |= p3_is_top_chain ? !IsBetween(prev_top, p1, p3) :
+                                       !IsBetween(prev_bottom, p2, p3);
+        }
+        if (orientation_ == 0 ||
+            (!folded_ && p3_orientation * orientation_ >= 0 &&
+             CanTurn(prev_top, p1, p3, -orientation_) &&
+             CanTurn(prev_bottom, p2, p3, orientation_))) {
           if (p3_is_top_chain) {
-            if (p1 != p3) {
-              convex_top_.push_back(p3);
-            }
+            convex_top_.push_back(p3);
           } else {
-            if (p2 != p3) {
-              convex_bottom_.push_back(p3);
-            }
+            convex_bottom_.push_back(p3);
           }
           return;
         }
-        if (set_orientation) {
+        if (was_collinear) {
           // If the triangle isn't merged, restore the old orientation.
           orientation_ = 0;
         }
@@ -153,13 +166,44 @@ class MonotoneDecomposer : public MonotoneTriangulator<Point3RepTemplate> {
       convex_bottom_.push_back(p3);
     }
     orientation_ = p2.Get2DTwistDirReduced(drop_dimension_, p1, p3);
+    folded_ = orientation_ == 0 &&
+              (p3_is_top_chain ? p1 != p3 && !IsBetween(p2, p1, p3) :
+                                 p2 != p3 && !IsBetween(p1, p2, p3));
   }
 
  private:
+  // Given 3 collinear points, returns true if all 3 are distinct and p is
+  // between prev and next.
+  bool IsBetween(const Point3Rep& prev, const Point3Rep& p,
+                 const Point3Rep& next) const {
+    if (prev == p || p == next) return false;
+    for (int i = 1; i < 3; ++i) {
+      const int dimension = (drop_dimension_ + i) % 3;
+      if (p.CompareComponent(dimension, prev) *
+            next.CompareComponent(dimension, p) < 0) {
+        return false;
+      }
+    }
+    return true;
+  }
+
+  // Returns true if the path from prev to p to next either turns in the
+  // direction of `orientation`, or goes straight ahead.
+  bool CanTurn(const Point3Rep& prev, const Point3Rep& p,
+               const Point3Rep& next, int orientation) const {
+    const int twist = p.Get2DTwistDirReduced(drop_dimension_, prev, next);
+    return twist == 0 ? IsBetween(prev, p, next) : twist * orientation > 0;
+  }
+
   // The orientation of the polygon being built. -1 for counter-clockwise, 1
   // for clockwise, or 0 for collinear.
   int orientation_;
 
+  // True if orientation_ is 0, and the collinear vertices of the polygon being
+  // built do not follow each other in one direction, from the back of
+  // convex_bottom_ to the back of convex_top_.
+  bool folded_ = false;
+
   int drop_dimension_;
 };
 
-- 
2.43.0


From d8286049de92dba801d14128e0bbb3e249835f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:37 +0000
Subject: [PATCH 25/36] fix: EdgeLineConnector reevaluates the neighbors of
 added and removed edges

---
 include/walnut/edge_line_connector.h | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/include/walnut/edge_line_connector.h b/include/walnut/edge_line_connector.h
index 44544f4..5c5261b 100644
--- a/include/walnut/edge_line_connector.h
+++ b/include/walnut/edge_line_connector.h
@@ -229,6 +229,8 @@ class EdgeLineConnector {
           add_info.first->second.edge->ResetPartners();
           end_events_.push_back(add_info.first);
           need_partners_.push_back(add_info.first);
+          // The new edge may be between its neighbors and their partners.
+          AddNeighborsToNeedPartners(active_edges, add_info.first);
         } else {
           std::ostringstream out;
           out << "Two active edges have the same polygon normal and polarity"
@@ -424,6 +426,9 @@ class EdgeLineConnector {
         partner->second.partner = active_edges.end();
         need_partners_.push_back(partner);
       }
+      // The neighbors may be able to connect to each other after the edge
+      // between them is removed.
+      AddNeighborsToNeedPartners(active_edges, remove);
       // Set the active edge to point to itself as a way to mark it for
       // removal.
       remove->second.partner = remove;
@@ -447,6 +452,20 @@ class EdgeLineConnector {
     }
   }
 
+  // Adds the edges before and after `edge` to `need_partners_`, so that they
+  // are reevaluated after `edge` is added or removed.
+  void AddNeighborsToNeedPartners(ActiveEdgeMap& active_edges,
+                                  ActiveEdge edge) {
+    ActiveEdge prev =
+      edge == active_edges.begin() ? active_edges.end() : edge;
+    --prev;
+    ActiveEdge next = edge;
+    ++next;
+    if (next == active_edges.end()) next = active_edges.begin();
+    if (prev != edge) need_partners_.push_back(prev);
+    if (next != edge) need_partners_.push_back(next);
+  }
+
   // Repartner everything in need_partners_, and clear needs_partners_.
   void ProcessNeedPartners(
       int sorted_dimension, ActiveEdgeMap& active_edges,
@@ -496,7 +515,9 @@ class EdgeLineConnector {
         new_partner->second.edge->Approximate(out);
         out << "} pos_edge=" << partner_pos_edge << ".";
         error(out.str());
-        MaybeSplitEdge(sorted_dimension, needs_partner, location);
+        if (needs_partner->second.edge->partner_ != nullptr) {
+          MaybeSplitEdge(sorted_dimension, needs_partner, location);
+        }
         assert(needs_partner->second.edge->partner_ == nullptr);
         continue;
       }
-- 
2.43.0


From ee6d9006213981d4e98c040f0ec9cbdc0b2df0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:05 +0000
Subject: [PATCH 26/36] fix: deeds: GenericDeed accepts no target, and a lent
 deed knows its owner

---
 include/walnut/deed.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/walnut/deed.h b/include/walnut/deed.h
index a324337..d379190 100644
--- a/include/walnut/deed.h
+++ b/include/walnut/deed.h
@@ -55,7 +55,8 @@ class GenericDeed {
   GenericDeed() = default;
 
   GenericDeed(DeedTarget* object) : object_(object) {
-    if (object != nullptr && object->owner_ != nullptr) {
+    if (object == nullptr) return;
+    if (object->owner_ != nullptr) {
       lender_ = object->owner_;
       lender_->MarkLent();
     }
@@ -150,6 +151,9 @@ class GenericDeed {
   GenericDeed(DeedTarget* object, GenericDeed* borrowed_from) :
       object_(object), lender_(borrowed_from) {
     lender_->MarkLent();
+    if (object_) {
+      object_->owner_ = this;
+    }
   }
 
   void MarkLent() {
-- 
2.43.0


From 9887bf1dbcd411f363bc080ed9e58493af5558be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:05 +0000
Subject: [PATCH 27/36] fix: redirecting a handle which is not primary moves
 its whole class

---
 include/walnut/redirectable_value.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/walnut/redirectable_value.h b/include/walnut/redirectable_value.h
index 100c1e8..0bc3b07 100644
--- a/include/walnut/redirectable_value.h
+++ b/include/walnut/redirectable_value.h
@@ -75,16 +75,16 @@ class RedirectableValue {
     return *redirect_;
   }
 
-  // Change this entry so that when it is dereferenced the value at `to` is
-  // accessed instead.
+  // Change this entry, and every entry that currently shares its value, so that
+  // when they are dereferenced the value at `to` is accessed instead.
   void Redirect(RedirectableValue& to) {
     RedirectableValue& final_to = to.primary();
-    if (&final_to == redirect_) return;
+    RedirectableValue& final_from = primary();
+    if (&final_to == &final_from) return;
 
-    if (redirect_ == this) {
-      reinterpret_cast<Value *>(&value_)->~Value();
-    }
-    redirect_ = &to.primary();
+    reinterpret_cast<Value *>(&final_from.value_)->~Value();
+    final_from.redirect_ = &final_to;
+    redirect_ = &final_to;
   }
 
  private:
-- 
2.43.0


From 63d406cdb7a39147d81d1b4dccafa34275d2c241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:05 +0000
Subject: [PATCH 28/36] fix: ConcatRange offsets land on the element, and
 prepending a sub-range rotates it to the front

---
 include/walnut/concat_range.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/walnut/concat_range.h b/include/walnut/concat_range.h
index 3e025e1..a2ab9d7 100644
--- a/include/walnut/concat_range.h
+++ b/include/walnut/concat_range.h
@@ -69,11 +69,11 @@ class ConcatRange {
     // Use the end of ranges_ as temporary space and append the new entries
     // there. Later they will be rotated into their proper place at the
     // beginning.
-    size_t original_ranges_size = ranges_.size();
+    const size_t original_range_count = ranges_.size() - 1;
     Append(start, end);
 
     std::rotate(/*first=*/ranges_.begin(),
-        /*n_first=*/ranges_.begin() + ranges_.size() - original_ranges_size,
+        /*n_first=*/ranges_.begin() + original_range_count,
         /*last=*/ranges_.end() - 1);
   }
 
@@ -221,9 +221,12 @@ class ConcatRangeIteratorHelper {
 
   ConcatRangeIteratorHelper operator+(size_t index) const {
     ConcatRangeIteratorHelper copy(*this);
-    while (true) {
+    while (index > 0) {
       size_t range_size = copy.range_end() - copy.input_pos();
-      if (index < range_size) break;
+      if (index < range_size) {
+        copy.pos_ += index;
+        break;
+      }
       copy.AdvanceRange();
       index -= range_size;
     }
-- 
2.43.0


From cc1d5ec52654a839b6d45d9506d5804c64c77f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:05 +0000
Subject: [PATCH 29/36] fix: TransformIterator keeps its transformer in postfix
 and offset operators

---
 include/walnut/transform_iterator.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/walnut/transform_iterator.h b/include/walnut/transform_iterator.h
index be94507..a6db800 100644
--- a/include/walnut/transform_iterator.h
+++ b/include/walnut/transform_iterator.h
@@ -71,7 +71,7 @@ class TransformIterator {
   }
 
   TransformIterator operator++(int) {
-    return TransformIterator(input_iterator_++);
+    return TransformIterator(input_iterator_++, transform_);
   }
 
   auto& operator--() {
@@ -80,15 +80,15 @@ class TransformIterator {
   }
 
   auto operator--(int) {
-    return TransformIterator(input_iterator_--);
+    return TransformIterator(input_iterator_--, transform_);
   }
 
   auto operator+(difference_type offset) const {
-    return TransformIterator(input_iterator_ + offset);
+    return TransformIterator(input_iterator_ + offset, transform_);
   }
 
   auto operator-(difference_type offset) const {
-    return TransformIterator(input_iterator_ - offset);
+    return TransformIterator(input_iterator_ - offset, transform_);
   }
 
   template <typename OtherInputIterator>
-- 
2.43.0


From 86251dee7b0edb57a3ba44dece96476ee7f16e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:05 +0000
Subject: [PATCH 30/36] fix: MLogNEstimator does not remember a bit length for
 0

---
 include/walnut/m_log_n_estimator.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/walnut/m_log_n_estimator.h b/include/walnut/m_log_n_estimator.h
index c452153..a83db66 100644
--- a/include/walnut/m_log_n_estimator.h
+++ b/include/walnut/m_log_n_estimator.h
@@ -12,6 +12,9 @@ namespace walnut {
 class MLogNEstimator {
   public:
    size_t Estimate(size_t m, size_t n) {
+     // There is no bit length to remember for 0.
+     if (n == 0) return 0;
+
      if (n >> last_n_bits_ != 1) {
        last_n_bits_ = BigUIntWord(n).GetHighestSetBit() - 1;
      }
-- 
2.43.0


From 0e4a2830e407ad58a7eebccab03abbc4409f5df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:49 +0000
Subject: [PATCH 31/36] fix: HomoPoint3::FromDoubles rounds to grains larger
 than 1

---
 src/walnut/homo_point3.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/walnut/homo_point3.cpp b/src/walnut/homo_point3.cpp
index d20c07f..cbd254d 100644
--- a/src/walnut/homo_point3.cpp
+++ b/src/walnut/homo_point3.cpp
@@ -27,13 +27,16 @@ HomoPoint3 HomoPoint3::FromDoubles(int min_exponent, double x, double y,
   int64_t y_mantissa = Decompose(y, &y_exp);
   int64_t z_mantissa = Decompose(z, &z_exp);
 
-  int denom_exp = std::min(0,
-                           std::max(min_exponent,
-                                    std::min({x_exp, y_exp, z_exp})));
-  return HomoPoint3(SafeShiftLeft(x_mantissa, x_exp - denom_exp),
-                    SafeShiftLeft(y_mantissa, y_exp - denom_exp),
-                    SafeShiftLeft(z_mantissa, z_exp - denom_exp),
-                    BigInt(1) << -denom_exp);
+  const int grain_exp = std::max(min_exponent,
+                                 std::min({0, x_exp, y_exp, z_exp}));
+  // Grains larger than 1 are multiplied back into the numerators.
+  const int scale_exp = std::max(grain_exp, 0);
+  const int denom_exp = std::min(grain_exp, 0);
+  return HomoPoint3(
+      SafeShiftLeft(x_mantissa, x_exp - grain_exp) << scale_exp,
+      SafeShiftLeft(y_mantissa, y_exp - grain_exp) << scale_exp,
+      SafeShiftLeft(z_mantissa, z_exp - grain_exp) << scale_exp,
+      BigInt(1) << -denom_exp);
 }
 
 HomoPoint3 HomoPoint3::FromDoublesExact(double x, double y, double z) {
-- 
2.43.0


From 5d15ffadccc7d465763122542c752936285fa3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:17 +0000
Subject: [PATCH 32/36] fix: VTKToWalnutMesh converts every triangle of a
 strip, with its orientation

---
 vtk_interface/include/walnut/vtk_to_walnut_mesh.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/vtk_interface/include/walnut/vtk_to_walnut_mesh.h b/vtk_interface/include/walnut/vtk_to_walnut_mesh.h
index 59c5819..0f3958b 100644
--- a/vtk_interface/include/walnut/vtk_to_walnut_mesh.h
+++ b/vtk_interface/include/walnut/vtk_to_walnut_mesh.h
@@ -86,11 +86,11 @@ std::vector<MutableConvexPolygon<>> VTKToWalnutMesh(vtkPolyData* input,
   while (input->GetStrips()->GetNextCell(vertex_count, input_vertices)) {
     for (vtkIdType i = 0; i < vertex_count - 2; ++i) {
       HomoPoint3 vertices[3];
-      if ((i & 0) ^ flip) {
+      if (((i & 1) != 0) != flip) {
         // The vertices are in clockwise order. Reverse them first.
         double coordinates[3];
         for (int j = 0; j < 3; ++j) {
-          input->GetPoint(input_vertices[2 - j], coordinates);
+          input->GetPoint(input_vertices[i + 2 - j], coordinates);
           vertices[j] = HomoPoint3::FromDoubles(min_exponent, coordinates[0],
                                                 coordinates[1],
                                                 coordinates[2]);
@@ -98,13 +98,16 @@ std::vector<MutableConvexPolygon<>> VTKToWalnutMesh(vtkPolyData* input,
       } else {
         double coordinates[3];
         for (int j = 0; j < 3; ++j) {
-          input->GetPoint(input_vertices[j], coordinates);
+          input->GetPoint(input_vertices[i + j], coordinates);
           vertices[j] = HomoPoint3::FromDoubles(min_exponent, coordinates[0],
                                                 coordinates[1],
                                                 coordinates[2]);
         }
       }
       HalfSpace3 plane(vertices[0], vertices[1], vertices[2]);
+      // Skip triangles without area. Strips contain them to connect separate
+      // parts.
+      if (!plane.IsValid()) continue;
       int drop_dimension = plane.normal().GetFirstNonzeroDimension();
       polygon_factory.result.emplace_back(std::move(plane), drop_dimension,
                                           std::move(vertices));
-- 
2.43.0


From 5013098f849c9e36dccedfce85409ec9e7e4aa5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:17 +0000
Subject: [PATCH 33/36] fix: WalnutToVTKMesh keeps the double precision of its
 points

---
 vtk_interface/include/walnut/walnut_to_vtk_mesh.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vtk_interface/include/walnut/walnut_to_vtk_mesh.h b/vtk_interface/include/walnut/walnut_to_vtk_mesh.h
index b2b56bb..8d5f6c8 100644
--- a/vtk_interface/include/walnut/walnut_to_vtk_mesh.h
+++ b/vtk_interface/include/walnut/walnut_to_vtk_mesh.h
@@ -66,6 +66,8 @@ SaveWalnutMeshToVTK(const std::vector<Polygon>& mesh,
   // Now that all points have been inserted and merged into `map`, they can be
   // added to `points`.
   auto points = vtkSmartPointer<vtkPoints>::New();
+  // The default is float.
+  points->SetDataTypeToDouble();
   for (std::pair<const DoublePoint3, RedirectableValue<vtkIdType>>& p : map) {
     if (p.second.IsPrimary()) {
       *p.second = points->InsertNextPoint(p.first.x, p.first.y, p.first.z);
@@ -97,6 +99,8 @@ std::enable_if_t<!IsConnectedPolygon<Polygon>::value>
 SaveWalnutMeshToVTK(const std::vector<Polygon>& mesh, vtkPolyData* save_to) {
   std::unordered_map<DoublePoint3, vtkIdType> point_map;
   auto points = vtkSmartPointer<vtkPoints>::New();
+  // The default is float.
+  points->SetDataTypeToDouble();
 
   auto cell_array = vtkSmartPointer<vtkCellArray>::New();
   for (const Polygon& polygon : mesh) {
-- 
2.43.0


From 153466c7a64f71f459b0efc565bead3c58450415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:37 +0000
Subject: [PATCH 34/36] fix: MeshPlaneRepairer keeps the order of vertices it
 takes from the end of a facet

---
 include/walnut/mesh_plane_repairer.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/walnut/mesh_plane_repairer.h b/include/walnut/mesh_plane_repairer.h
index 9a1ebd8..3b735f7 100644
--- a/include/walnut/mesh_plane_repairer.h
+++ b/include/walnut/mesh_plane_repairer.h
@@ -230,10 +230,10 @@ inline void MeshPlaneRepairer<PolygonData>::FinishFacet(PolygonData data) {
       polygon_vertices_.push_back(*it);
     }
 
-    // Copy the end portion of the accepted range in reverse order.
-    for (ActiveVertexIterator it = accepted_from_end_end;
-         it != remaining_end;) {
-      --it;
+    // Copy the end portion of the accepted range. These vertices come after
+    // the beginning portion in the facet, so they keep their order.
+    for (ActiveVertexIterator it = remaining_end;
+         it != accepted_from_end_end; ++it) {
       (*it)->TryAddAdjacent(&polygon.plane);
       polygon_vertices_.push_back(*it);
     }
-- 
2.43.0


From 84cd85f0d6272538fc9c9205f437f861be0e35dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:37 +0000
Subject: [PATCH 35/36] fix: NudgingPlaneBuilder rebuilds its plane after a
 constrained vertex was added

---
 include/walnut/nudging_plane_builder.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/walnut/nudging_plane_builder.h b/include/walnut/nudging_plane_builder.h
index a5f7448..b6d1567 100644
--- a/include/walnut/nudging_plane_builder.h
+++ b/include/walnut/nudging_plane_builder.h
@@ -78,6 +78,8 @@ inline bool NudgingPlaneBuilder::TryAddConstrained(const HomoPoint3* vertex) {
     ++plane_info_used_;
     ++constrained_count_;
 
+    // The plane from HasLargePlane was built without the new vertex.
+    plane_set_ = false;
     if (constrained_count_ == 3) {
       plane_ = BuildFromPlaneInfo();
       plane_set_ = true;
-- 
2.43.0


From 948842bba2a49e6f52f52523ec7355ef640a704a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:37 +0000
Subject: [PATCH 36/36] fix: MeshPlaneRepairer does not divide by zero where
 the planes of a vertex have no common point

---
 src/walnut/mesh_plane_repairer.cpp | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/walnut/mesh_plane_repairer.cpp b/src/walnut/mesh_plane_repairer.cpp
index a428307..50f0459 100644
--- a/src/walnut/mesh_plane_repairer.cpp
+++ b/src/walnut/mesh_plane_repairer.cpp
@@ -8,6 +8,8 @@ namespace walnut {
 void MeshPlaneRepairerBase::VertexInfo::TryAddAdjacent(
     const HalfSpace3* polygon) {
   if (plane_count < 3) {
+    // A polygon whose vertices are collinear does not restrict the vertex.
+    if (!polygon->IsValid()) return;
     // Don't allow duplicate planes
     for (size_t i = 0; i < plane_count; ++i) {
       if (adjacent[i]->IsSameOrOpposite(*polygon)) {
@@ -147,17 +149,24 @@ void MeshPlaneRepairerBase::VertexInfo::Finalize() {
   }
 
   assert(plane_count >= 1);
-  if (plane_count == 1) {
-    PluckerLine line(point, point.AddOffset(adjacent[0]->normal(), BigInt(1)));
-    point = line.Intersect(*adjacent[0]);
-  } else {
+  if (plane_count > 1) {
     PluckerLine line(*adjacent[0], *adjacent[1]);
-    if (plane_count == 3) {
-      point = line.Intersect(*adjacent[2]);
-    } else {
-      point = line.Intersect(HalfSpace3(line.d(), point));
+    // The line is not valid if the planes are parallel.
+    if (line.IsValid()) {
+      HalfSpace3 perpendicular(line.d(), point);
+      HomoPoint3 moved = line.Intersect(plane_count == 3 ? *adjacent[2]
+                                                         : perpendicular);
+      if (moved.w().IsZero()) {
+        // The third plane is parallel to the line.
+        moved = line.Intersect(perpendicular);
+      }
+      point = std::move(moved);
+      point.Reduce();
+      return;
     }
   }
+  PluckerLine line(point, point.AddOffset(adjacent[0]->normal(), BigInt(1)));
+  point = line.Intersect(*adjacent[0]);
   point.Reduce();
 }
 
-- 
2.43.0

